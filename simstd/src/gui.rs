//! What the egui stubs and the simulated user share.  Only the GUI thread of a
//! simulated process uses it.
use ::std::cell::RefCell;
use ::std::path::PathBuf;

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Button,
    /// shown, but does not react
    DisabledButton,
    Checkbox(bool),
    Select(bool),
    Text(String),
    Label,
    /// start of a table row / window / combo box (label = title)
    Row,
    Cell,
    Window,
    WindowEnd,
    Combo,
    Link,
}

#[derive(Clone, Debug)]
pub struct Widget {
    pub kind: Kind,
    pub label: String,
    pub window: Option<String>,
}

#[derive(Clone, Debug, Default)]
pub struct Input {
    /// index into the widget list of the previous frame, with its label
    pub click: Option<(usize, String)>,
    pub text: Option<(usize, String)>,
    pub keys: Vec<String>,
    pub dropped: Vec<PathBuf>,
    pub hovered: Vec<PathBuf>,
    pub close: bool,
    /// no repaint for this long
    pub pause_ms: u64,
}

pub trait User {
    /// Called before every frame with what the previous frame showed.
    fn next(&mut self, shown: &[Widget]) -> Input;
    /// A click or edit the frame really delivered.
    fn acted(&mut self, _w: &Widget) {}
}

#[derive(Default)]
pub struct Frame {
    pub input: Input,
    pub shown: Vec<Widget>,
    pub window: Vec<String>,
    pub close: bool,
}

thread_local! {
    pub static FRAME: RefCell<Frame> = RefCell::new(Frame::default());
    pub static USER: RefCell<Option<Box<dyn User>>> = const { RefCell::new(None) };
}

pub fn set_user(u: Box<dyn User>) {
    FRAME.with(|f| *f.borrow_mut() = Frame::default());
    USER.with(|s| *s.borrow_mut() = Some(u));
}

pub fn begin() -> Input {
    let shown = FRAME.with(|f| ::std::mem::take(&mut f.borrow_mut().shown));
    let input = USER.with(|u| {
        let mut u = u.borrow_mut();
        let u = u.as_mut().expect("no user");
        u.next(&shown)
    });
    FRAME.with(|f| {
        let mut f = f.borrow_mut();
        f.input = input.clone();
        f.window.clear();
        f.close = false;
    });
    input
}

/// Show a widget; true if the user acts on it in this frame.
pub fn show(kind: Kind, label: &str) -> bool {
    let (hit, w) = FRAME.with(|f| {
        let mut f = f.borrow_mut();
        let idx = f.shown.len();
        let window = f.window.last().cloned();
        let interactive = matches!(kind, Kind::Button | Kind::Checkbox(_) | Kind::Select(_));
        let w = Widget {
            kind,
            label: label.to_owned(),
            window,
        };
        let hit = interactive
            && matches!(&f.input.click, Some((i, l)) if *i == idx && l == label);
        f.shown.push(w.clone());
        (hit, w)
    });
    if hit {
        acted(&w);
    }
    hit
}

/// The user learns of his action at once, before the program can react to it.
fn acted(w: &Widget) {
    USER.with(|u| {
        if let Some(u) = u.borrow_mut().as_mut() {
            u.acted(w);
        }
    });
}

pub fn edit(label: &str, value: &str) -> Option<String> {
    let (new, w) = FRAME.with(|f| {
        let mut f = f.borrow_mut();
        let idx = f.shown.len();
        let window = f.window.last().cloned();
        let w = Widget {
            kind: Kind::Text(value.to_owned()),
            label: label.to_owned(),
            window,
        };
        let new = match &f.input.text {
            Some((i, t)) if *i == idx && t != value => Some(t.clone()),
            _ => None,
        };
        f.shown.push(w.clone());
        (new, w)
    });
    if let Some(n) = &new {
        acted(&Widget { kind: Kind::Text(n.clone()), ..w });
    }
    new
}

pub fn push_window(t: &str) {
    show(Kind::Window, t);
    FRAME.with(|f| f.borrow_mut().window.push(t.to_owned()));
}
pub fn pop_window() {
    FRAME.with(|f| {
        f.borrow_mut().window.pop();
    });
    show(Kind::WindowEnd, "");
}
