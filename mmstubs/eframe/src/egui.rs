use simstd::gui::{self, Kind};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::hash::Hash;
use std::path::PathBuf;
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Vec2 {
    pub x: f32,
    pub y: f32,
}
pub const fn vec2(x: f32, y: f32) -> Vec2 {
    Vec2 { x, y }
}
impl From<(f32, f32)> for Vec2 {
    fn from(v: (f32, f32)) -> Self {
        vec2(v.0, v.1)
    }
}
impl From<[f32; 2]> for Vec2 {
    fn from(v: [f32; 2]) -> Self {
        vec2(v[0], v[1])
    }
}
impl Vec2 {
    pub const ZERO: Vec2 = vec2(0.0, 0.0);
    pub fn new(x: f32, y: f32) -> Self {
        vec2(x, y)
    }
}
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Pos2 {
    pub x: f32,
    pub y: f32,
}
pub fn pos2(x: f32, y: f32) -> Pos2 {
    Pos2 { x, y }
}
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Rect {
    pub min: Pos2,
    pub max: Pos2,
}
impl Rect {
    pub fn center(&self) -> Pos2 {
        Pos2::default()
    }
    pub fn width(&self) -> f32 {
        660.0
    }
    pub fn height(&self) -> f32 {
        600.0
    }
}
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub enum Align {
    #[default]
    Min,
    Center,
    Max,
}
impl Align {
    pub const LEFT: Align = Align::Min;
    pub const RIGHT: Align = Align::Max;
    pub const TOP: Align = Align::Min;
    pub const BOTTOM: Align = Align::Max;
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Align2(pub [Align; 2]);
impl Align2 {
    pub const LEFT_BOTTOM: Align2 = Align2([Align::Min, Align::Max]);
    pub const LEFT_CENTER: Align2 = Align2([Align::Min, Align::Center]);
    pub const LEFT_TOP: Align2 = Align2([Align::Min, Align::Min]);
    pub const CENTER_BOTTOM: Align2 = Align2([Align::Center, Align::Max]);
    pub const CENTER_CENTER: Align2 = Align2([Align::Center, Align::Center]);
    pub const CENTER_TOP: Align2 = Align2([Align::Center, Align::Min]);
    pub const RIGHT_BOTTOM: Align2 = Align2([Align::Max, Align::Max]);
    pub const RIGHT_CENTER: Align2 = Align2([Align::Max, Align::Center]);
    pub const RIGHT_TOP: Align2 = Align2([Align::Max, Align::Min]);
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Direction {
    LeftToRight,
    RightToLeft,
    TopDown,
    BottomUp,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Layout {
    pub main_dir: Direction,
    pub cross_align: Align,
}
impl Default for Layout {
    fn default() -> Self {
        Self::top_down(Align::Min)
    }
}
impl Layout {
    pub fn left_to_right(a: Align) -> Self {
        Self::from_main_dir_and_cross_align(Direction::LeftToRight, a)
    }
    pub fn right_to_left(a: Align) -> Self {
        Self::from_main_dir_and_cross_align(Direction::RightToLeft, a)
    }
    pub fn top_down(a: Align) -> Self {
        Self::from_main_dir_and_cross_align(Direction::TopDown, a)
    }
    pub fn bottom_up(a: Align) -> Self {
        Self::from_main_dir_and_cross_align(Direction::BottomUp, a)
    }
    pub fn from_main_dir_and_cross_align(main_dir: Direction, cross_align: Align) -> Self {
        Layout {
            main_dir,
            cross_align,
        }
    }
    pub fn with_cross_align(mut self, a: Align) -> Self {
        self.cross_align = a;
        self
    }
    pub fn with_main_align(self, _a: Align) -> Self {
        self
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Sense {
    pub click: bool,
}
impl Sense {
    pub fn hover() -> Self {
        Sense { click: false }
    }
    pub fn click() -> Self {
        Sense { click: true }
    }
    pub fn drag() -> Self {
        Sense { click: false }
    }
    pub fn click_and_drag() -> Self {
        Sense { click: true }
    }
}

#[derive(Clone, Debug, Default)]
pub struct RichText {
    text: String,
}
impl RichText {
    pub fn new(t: impl Into<String>) -> Self {
        RichText { text: t.into() }
    }
    pub fn size(self, _s: f32) -> Self {
        self
    }
    pub fn heading(self) -> Self {
        self
    }
    pub fn strong(self) -> Self {
        self
    }
    pub fn weak(self) -> Self {
        self
    }
    pub fn italics(self) -> Self {
        self
    }
    pub fn small(self) -> Self {
        self
    }
    pub fn monospace(self) -> Self {
        self
    }
    pub fn color(self, _c: impl Into<Color32>) -> Self {
        self
    }
    pub fn text_style(self, _t: TextStyle) -> Self {
        self
    }
    pub fn text(&self) -> &str {
        &self.text
    }
}
#[derive(Clone, Debug, Default)]
pub struct WidgetText(String);
impl WidgetText {
    pub fn text(&self) -> &str {
        &self.0
    }
}
impl From<&str> for WidgetText {
    fn from(s: &str) -> Self {
        WidgetText(s.to_owned())
    }
}
impl From<&String> for WidgetText {
    fn from(s: &String) -> Self {
        WidgetText(s.clone())
    }
}
impl From<String> for WidgetText {
    fn from(s: String) -> Self {
        WidgetText(s)
    }
}
impl From<RichText> for WidgetText {
    fn from(s: RichText) -> Self {
        WidgetText(s.text)
    }
}
impl From<&str> for RichText {
    fn from(s: &str) -> Self {
        RichText::new(s)
    }
}
impl From<String> for RichText {
    fn from(s: String) -> Self {
        RichText::new(s)
    }
}
impl From<&String> for RichText {
    fn from(s: &String) -> Self {
        RichText::new(s.clone())
    }
}

#[derive(Clone, Debug, Default)]
pub struct Response {
    clicked: bool,
    changed: bool,
}
impl Response {
    pub fn new(clicked: bool, changed: bool) -> Self {
        Response { clicked, changed }
    }
    pub fn clicked(&self) -> bool {
        self.clicked
    }
    pub fn double_clicked(&self) -> bool {
        false
    }
    pub fn changed(&self) -> bool {
        self.changed
    }
    pub fn hovered(&self) -> bool {
        false
    }
    pub fn has_focus(&self) -> bool {
        false
    }
    pub fn lost_focus(&self) -> bool {
        self.changed
    }
    pub fn on_hover_text(self, _t: impl Into<WidgetText>) -> Self {
        self
    }
    pub fn on_disabled_hover_text(self, _t: impl Into<WidgetText>) -> Self {
        self
    }
    pub fn union(&self, o: Response) -> Response {
        Response {
            clicked: self.clicked || o.clicked,
            changed: self.changed || o.changed,
        }
    }
    pub fn mark_changed(&mut self) {
        self.changed = true;
    }
}
pub struct InnerResponse<R> {
    pub inner: R,
    pub response: Response,
}
impl<R> InnerResponse<R> {
    pub fn new(inner: R, response: Response) -> Self {
        InnerResponse { inner, response }
    }
}
fn inner<R>(r: R) -> InnerResponse<R> {
    InnerResponse::new(r, Response::default())
}

pub trait Widget {
    fn ui(self, ui: &mut Ui) -> Response;
}

pub struct Button {
    text: String,
    sense: Sense,
}
impl Button {
    pub fn new(t: impl Into<WidgetText>) -> Self {
        Button {
            text: t.into().0,
            sense: Sense::click(),
        }
    }
    pub fn sense(mut self, s: Sense) -> Self {
        self.sense = s;
        self
    }
    pub fn small(self) -> Self {
        self
    }
    pub fn wrap(self, _w: bool) -> Self {
        self
    }
    pub fn fill(self, _c: impl Into<Color32>) -> Self {
        self
    }
    pub fn min_size(self, _v: Vec2) -> Self {
        self
    }
    pub fn frame(self, _f: bool) -> Self {
        self
    }
}
impl Widget for Button {
    fn ui(self, ui: &mut Ui) -> Response {
        let on = self.sense.click && ui.enabled;
        let k = if on { Kind::Button } else { Kind::DisabledButton };
        let hit = gui::show(k, &self.text);
        Response::new(hit && on, false)
    }
}
pub struct ProgressBar(f32);
impl ProgressBar {
    pub fn new(p: f32) -> Self {
        ProgressBar(p)
    }
    pub fn show_percentage(self) -> Self {
        self
    }
    pub fn animate(self, _a: bool) -> Self {
        self
    }
    pub fn text(self, _t: impl Into<WidgetText>) -> Self {
        self
    }
    pub fn desired_width(self, _w: f32) -> Self {
        self
    }
}
impl Widget for ProgressBar {
    fn ui(self, _ui: &mut Ui) -> Response {
        gui::show(Kind::Label, &format!("progress {:.2}", self.0));
        Response::default()
    }
}
pub struct Label(String);
impl Label {
    pub fn new(t: impl Into<WidgetText>) -> Self {
        Label(t.into().0)
    }
    pub fn wrap(self, _w: bool) -> Self {
        self
    }
    pub fn sense(self, _s: Sense) -> Self {
        self
    }
}
impl Widget for Label {
    fn ui(self, _ui: &mut Ui) -> Response {
        gui::show(Kind::Label, &self.0);
        Response::default()
    }
}
pub struct Checkbox<'a>(&'a mut bool, String);
impl<'a> Checkbox<'a> {
    pub fn new(b: &'a mut bool, t: impl Into<WidgetText>) -> Self {
        Checkbox(b, t.into().0)
    }
}
impl Widget for Checkbox<'_> {
    fn ui(self, ui: &mut Ui) -> Response {
        ui.checkbox(self.0, self.1)
    }
}
pub struct TextEdit<'a>(&'a mut String);
impl<'a> TextEdit<'a> {
    pub fn singleline(s: &'a mut String) -> Self {
        TextEdit(s)
    }
    pub fn multiline(s: &'a mut String) -> Self {
        TextEdit(s)
    }
    pub fn desired_width(self, _w: f32) -> Self {
        self
    }
    pub fn hint_text(self, _t: impl Into<WidgetText>) -> Self {
        self
    }
}
impl Widget for TextEdit<'_> {
    fn ui(self, ui: &mut Ui) -> Response {
        ui.text_edit_singleline(self.0)
    }
}
#[derive(Default)]
pub struct Separator;
impl Widget for Separator {
    fn ui(self, _ui: &mut Ui) -> Response {
        Response::default()
    }
}
impl Separator {
    pub fn horizontal(self) -> Self {
        self
    }
    pub fn spacing(self, _s: f32) -> Self {
        self
    }
}

#[derive(Clone, Debug, Default)]
pub struct Spacing {
    pub item_spacing: Vec2,
    pub button_padding: Vec2,
    pub indent: f32,
    pub interact_size: Vec2,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct FontId {
    pub size: f32,
}
impl FontId {
    pub fn proportional(size: f32) -> Self {
        FontId { size }
    }
    pub fn monospace(size: f32) -> Self {
        FontId { size }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum TextStyle {
    Small,
    Body,
    Monospace,
    Button,
    Heading,
}
impl TextStyle {
    pub fn resolve(&self, s: &Style) -> FontId {
        s.text_styles.get(self).cloned().unwrap_or_default()
    }
}
#[derive(Clone, Debug, Default)]
pub struct Visuals {
    pub dark_mode: bool,
}
impl Visuals {
    pub fn dark() -> Self {
        Visuals { dark_mode: true }
    }
    pub fn light() -> Self {
        Visuals { dark_mode: false }
    }
}
#[derive(Clone, Debug)]
pub struct Style {
    pub spacing: Spacing,
    pub text_styles: BTreeMap<TextStyle, FontId>,
    pub visuals: Visuals,
}
impl Default for Style {
    fn default() -> Self {
        use TextStyle::*;
        Style {
            spacing: Spacing::default(),
            text_styles: [Small, Body, Monospace, Button, Heading]
                .into_iter()
                .map(|t| (t, FontId { size: 12.0 }))
                .collect(),
            visuals: Visuals::default(),
        }
    }
}
#[derive(Clone, Debug, Default)]
pub struct FontTweak {
    pub scale: f32,
    pub y_offset: f32,
    pub y_offset_factor: f32,
}
#[derive(Clone, Debug, Default)]
pub struct FontData {
    pub tweak: FontTweak,
}
#[derive(Clone, Debug, Default)]
pub struct FontDefinitions {
    pub font_data: BTreeMap<String, FontData>,
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Color32;
impl Color32 {
    pub const WHITE: Color32 = Color32;
    pub const BLACK: Color32 = Color32;
    pub const RED: Color32 = Color32;
    pub const GREEN: Color32 = Color32;
    pub const YELLOW: Color32 = Color32;
    pub const GRAY: Color32 = Color32;
    pub const TRANSPARENT: Color32 = Color32;
    pub fn from_black_alpha(_a: u8) -> Self {
        Color32
    }
    pub fn from_white_alpha(_a: u8) -> Self {
        Color32
    }
    pub fn from_rgb(_r: u8, _g: u8, _b: u8) -> Self {
        Color32
    }
    pub fn from_rgba_unmultiplied(_r: u8, _g: u8, _b: u8, _a: u8) -> Self {
        Color32
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Id(u64);
impl Id {
    pub fn new(_s: impl Hash) -> Self {
        Id(0)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Order {
    Background,
    PanelResizeLine,
    Middle,
    Foreground,
    Tooltip,
    Debug,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct LayerId {
    pub order: Order,
    pub id: Id,
}
impl LayerId {
    pub fn new(order: Order, id: Id) -> Self {
        LayerId { order, id }
    }
}
pub struct Painter;
impl Painter {
    pub fn rect_filled(&self, _r: Rect, _round: impl Into<f32>, _c: impl Into<Color32>) {}
    pub fn text(
        &self,
        _p: Pos2,
        _a: Align2,
        t: impl ToString,
        _f: FontId,
        _c: Color32,
    ) -> Rect {
        gui::show(Kind::Label, &t.to_string());
        Rect::default()
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Key {
    Escape,
    Delete,
    Enter,
    Space,
    Tab,
    Backspace,
    ArrowUp,
    ArrowDown,
    ArrowLeft,
    ArrowRight,
    Home,
    End,
    F5,
}
#[derive(Clone, Debug, Default)]
pub struct HoveredFile {
    pub path: Option<PathBuf>,
    pub mime: String,
}
#[derive(Clone, Debug, Default)]
pub struct DroppedFile {
    pub path: Option<PathBuf>,
    pub name: String,
    pub last_modified: Option<std::time::SystemTime>,
    pub bytes: Option<Arc<[u8]>>,
}
#[derive(Clone, Debug, Default)]
pub struct RawInput {
    pub hovered_files: Vec<HoveredFile>,
    pub dropped_files: Vec<DroppedFile>,
}
#[derive(Clone, Debug, Default)]
pub struct InputState {
    pub raw: RawInput,
    pub time: f64,
    keys: Vec<String>,
}
impl InputState {
    pub fn key_pressed(&self, k: Key) -> bool {
        let n = format!("{k:?}");
        self.keys.contains(&n)
    }
    pub fn key_released(&self, k: Key) -> bool {
        self.key_pressed(k)
    }
    pub fn key_down(&self, k: Key) -> bool {
        self.key_pressed(k)
    }
    pub fn screen_rect(&self) -> Rect {
        Rect::default()
    }
}

#[derive(Clone, Default)]
pub struct Context {
    inp: Rc<RefCell<InputState>>,
    style: Rc<RefCell<Arc<Style>>>,
}
impl Context {
    pub fn begin_frame(&self, i: &gui::Input) {
        let mut s = self.inp.borrow_mut();
        s.keys = i.keys.clone();
        s.raw.dropped_files = i
            .dropped
            .iter()
            .map(|p| DroppedFile {
                path: Some(p.clone()),
                ..Default::default()
            })
            .collect();
        s.raw.hovered_files = i
            .hovered
            .iter()
            .map(|p| HoveredFile {
                path: Some(p.clone()),
                mime: String::new(),
            })
            .collect();
    }
    pub fn input<R>(&self, f: impl FnOnce(&InputState) -> R) -> R {
        f(&self.inp.borrow())
    }
    pub fn input_mut<R>(&self, f: impl FnOnce(&mut InputState) -> R) -> R {
        f(&mut self.inp.borrow_mut())
    }
    pub fn layer_painter(&self, _l: LayerId) -> Painter {
        Painter
    }
    pub fn style(&self) -> Arc<Style> {
        self.style.borrow().clone()
    }
    pub fn set_style(&self, s: impl Into<Arc<Style>>) {
        *self.style.borrow_mut() = s.into();
    }
    pub fn set_visuals(&self, _v: Visuals) {}
    pub fn set_fonts(&self, _f: FontDefinitions) {}
    pub fn request_repaint(&self) {}
    pub fn request_repaint_after(&self, _d: std::time::Duration) {}
}

#[derive(Clone)]
pub struct Ui {
    style: Style,
    layout: Layout,
    enabled: bool,
    ctx: Context,
}
impl Ui {
    pub fn make(ctx: &Context) -> Self {
        Ui {
            style: Style::default(),
            layout: Layout::default(),
            enabled: true,
            ctx: ctx.clone(),
        }
    }
    pub fn child(&self) -> Self {
        self.clone()
    }
    pub fn ctx(&self) -> &Context {
        &self.ctx
    }
    pub fn layout(&self) -> &Layout {
        &self.layout
    }
    pub fn style(&self) -> &Style {
        &self.style
    }
    pub fn style_mut(&mut self) -> &mut Style {
        &mut self.style
    }
    pub fn spacing(&self) -> &Spacing {
        &self.style.spacing
    }
    pub fn spacing_mut(&mut self) -> &mut Spacing {
        &mut self.style.spacing
    }
    pub fn is_enabled(&self) -> bool {
        self.enabled
    }
    pub fn set_enabled(&mut self, e: bool) {
        self.enabled &= e;
    }
    pub fn available_width(&self) -> f32 {
        660.0
    }
    pub fn available_height(&self) -> f32 {
        600.0
    }
    pub fn separator(&mut self) -> Response {
        Response::default()
    }
    pub fn end_row(&mut self) {}
    pub fn add_space(&mut self, _a: f32) {}
    pub fn add(&mut self, w: impl Widget) -> Response {
        w.ui(self)
    }
    pub fn add_enabled(&mut self, e: bool, w: impl Widget) -> Response {
        let old = self.enabled;
        self.enabled &= e;
        let r = w.ui(self);
        self.enabled = old;
        r
    }
    pub fn add_enabled_ui<R>(&mut self, e: bool, f: impl FnOnce(&mut Ui) -> R) -> InnerResponse<R> {
        let mut c = self.child();
        c.enabled &= e;
        inner(f(&mut c))
    }
    pub fn add_sized(&mut self, _s: impl Into<Vec2>, w: impl Widget) -> Response {
        w.ui(self)
    }
    pub fn scope<R>(&mut self, f: impl FnOnce(&mut Ui) -> R) -> InnerResponse<R> {
        inner(f(&mut self.child()))
    }
    pub fn group<R>(&mut self, f: impl FnOnce(&mut Ui) -> R) -> InnerResponse<R> {
        self.scope(f)
    }
    pub fn horizontal<R>(&mut self, f: impl FnOnce(&mut Ui) -> R) -> InnerResponse<R> {
        self.scope(f)
    }
    pub fn horizontal_wrapped<R>(&mut self, f: impl FnOnce(&mut Ui) -> R) -> InnerResponse<R> {
        self.scope(f)
    }
    pub fn horizontal_centered<R>(&mut self, f: impl FnOnce(&mut Ui) -> R) -> InnerResponse<R> {
        self.scope(f)
    }
    pub fn vertical<R>(&mut self, f: impl FnOnce(&mut Ui) -> R) -> InnerResponse<R> {
        self.scope(f)
    }
    pub fn vertical_centered<R>(&mut self, f: impl FnOnce(&mut Ui) -> R) -> InnerResponse<R> {
        self.scope(f)
    }
    pub fn vertical_centered_justified<R>(
        &mut self,
        f: impl FnOnce(&mut Ui) -> R,
    ) -> InnerResponse<R> {
        self.scope(f)
    }
    pub fn with_layout<R>(&mut self, l: Layout, f: impl FnOnce(&mut Ui) -> R) -> InnerResponse<R> {
        let mut c = self.child();
        c.layout = l;
        inner(f(&mut c))
    }
    pub fn push_id<R>(&mut self, _id: impl Hash, f: impl FnOnce(&mut Ui) -> R) -> InnerResponse<R> {
        self.scope(f)
    }
    pub fn indent<R>(&mut self, _id: impl Hash, f: impl FnOnce(&mut Ui) -> R) -> InnerResponse<R> {
        self.scope(f)
    }
    pub fn columns<R>(&mut self, n: usize, f: impl FnOnce(&mut [Ui]) -> R) -> R {
        let mut v: Vec<Ui> = (0..n).map(|_| self.child()).collect();
        f(&mut v)
    }
    pub fn button(&mut self, t: impl Into<WidgetText>) -> Response {
        Button::new(t).ui(self)
    }
    pub fn small_button(&mut self, t: impl Into<WidgetText>) -> Response {
        Button::new(t).ui(self)
    }
    pub fn label(&mut self, t: impl Into<WidgetText>) -> Response {
        Label::new(t).ui(self)
    }
    pub fn strong(&mut self, t: impl Into<RichText>) -> Response {
        Label::new(t.into()).ui(self)
    }
    pub fn weak(&mut self, t: impl Into<RichText>) -> Response {
        Label::new(t.into()).ui(self)
    }
    pub fn small(&mut self, t: impl Into<RichText>) -> Response {
        Label::new(t.into()).ui(self)
    }
    pub fn monospace(&mut self, t: impl Into<RichText>) -> Response {
        Label::new(t.into()).ui(self)
    }
    pub fn heading(&mut self, t: impl Into<RichText>) -> Response {
        Label::new(t.into()).ui(self)
    }
    pub fn colored_label(&mut self, _c: impl Into<Color32>, t: impl Into<RichText>) -> Response {
        Label::new(t.into()).ui(self)
    }
    pub fn hyperlink(&mut self, u: impl ToString) -> Response {
        gui::show(Kind::Link, &u.to_string());
        Response::default()
    }
    pub fn hyperlink_to(&mut self, t: impl Into<WidgetText>, _u: impl ToString) -> Response {
        gui::show(Kind::Link, &t.into().0);
        Response::default()
    }
    pub fn checkbox(&mut self, b: &mut bool, t: impl Into<WidgetText>) -> Response {
        let k = if self.enabled {
            Kind::Checkbox(*b)
        } else {
            Kind::Label
        };
        let hit = gui::show(k, &t.into().0);
        if hit {
            *b = !*b;
        }
        Response::new(hit, hit)
    }
    pub fn selectable_label(&mut self, on: bool, t: impl Into<WidgetText>) -> Response {
        let hit = gui::show(Kind::Select(on), &t.into().0);
        Response::new(hit, false)
    }
    pub fn selectable_value<V: PartialEq>(
        &mut self,
        cur: &mut V,
        sel: V,
        t: impl Into<WidgetText>,
    ) -> Response {
        let hit = gui::show(Kind::Select(*cur == sel), &t.into().0);
        let mut changed = false;
        if hit && *cur != sel {
            *cur = sel;
            changed = true;
        }
        Response::new(hit, changed)
    }
    pub fn radio_value<V: PartialEq>(
        &mut self,
        cur: &mut V,
        sel: V,
        t: impl Into<WidgetText>,
    ) -> Response {
        self.selectable_value(cur, sel, t)
    }
    pub fn text_edit_singleline(&mut self, s: &mut String) -> Response {
        match gui::edit("text", s) {
            Some(n) => {
                *s = n;
                Response::new(false, true)
            }
            None => Response::default(),
        }
    }
    pub fn text_edit_multiline(&mut self, s: &mut String) -> Response {
        self.text_edit_singleline(s)
    }
    pub fn spinner(&mut self) -> Response {
        Response::default()
    }
    pub fn collapsing<R>(
        &mut self,
        _t: impl Into<WidgetText>,
        f: impl FnOnce(&mut Ui) -> R,
    ) -> InnerResponse<R> {
        self.scope(f)
    }
}

pub fn warn_if_debug_build(_ui: &mut Ui) {}

#[derive(Default)]
pub struct Frame;
impl Frame {
    pub fn none() -> Self {
        Frame
    }
}

#[derive(Default)]
pub struct CentralPanel;
impl CentralPanel {
    pub fn frame(self, _f: Frame) -> Self {
        self
    }
    pub fn show<R>(self, ctx: &Context, f: impl FnOnce(&mut Ui) -> R) -> InnerResponse<R> {
        inner(f(&mut Ui::make(ctx)))
    }
    pub fn show_inside<R>(self, ui: &mut Ui, f: impl FnOnce(&mut Ui) -> R) -> InnerResponse<R> {
        inner(f(&mut ui.child()))
    }
}
pub struct TopBottomPanel;
impl TopBottomPanel {
    pub fn top(_id: impl Hash) -> Self {
        TopBottomPanel
    }
    pub fn bottom(_id: impl Hash) -> Self {
        TopBottomPanel
    }
    pub fn resizable(self, _r: bool) -> Self {
        self
    }
    pub fn min_height(self, _r: f32) -> Self {
        self
    }
    pub fn default_height(self, _r: f32) -> Self {
        self
    }
    pub fn exact_height(self, _r: f32) -> Self {
        self
    }
    pub fn show_separator_line(self, _r: bool) -> Self {
        self
    }
    pub fn frame(self, _f: Frame) -> Self {
        self
    }
    pub fn show<R>(self, ctx: &Context, f: impl FnOnce(&mut Ui) -> R) -> InnerResponse<R> {
        inner(f(&mut Ui::make(ctx)))
    }
    pub fn show_inside<R>(self, ui: &mut Ui, f: impl FnOnce(&mut Ui) -> R) -> InnerResponse<R> {
        inner(f(&mut ui.child()))
    }
}
pub struct ScrollArea;
impl ScrollArea {
    pub fn vertical() -> Self {
        ScrollArea
    }
    pub fn horizontal() -> Self {
        ScrollArea
    }
    pub fn both() -> Self {
        ScrollArea
    }
    pub fn max_height(self, _h: f32) -> Self {
        self
    }
    pub fn max_width(self, _h: f32) -> Self {
        self
    }
    pub fn min_scrolled_height(self, _h: f32) -> Self {
        self
    }
    pub fn auto_shrink(self, _a: [bool; 2]) -> Self {
        self
    }
    pub fn id_source(self, _a: impl Hash) -> Self {
        self
    }
    pub fn show<R>(self, ui: &mut Ui, f: impl FnOnce(&mut Ui) -> R) -> InnerResponse<R> {
        inner(f(&mut ui.child()))
    }
}
pub struct Window {
    title: String,
}
impl Window {
    pub fn new(t: impl Into<WidgetText>) -> Self {
        Window { title: t.into().0 }
    }
    pub fn id(self, _i: Id) -> Self {
        self
    }
    pub fn resizable(self, _r: bool) -> Self {
        self
    }
    pub fn collapsible(self, _r: bool) -> Self {
        self
    }
    pub fn title_bar(self, _r: bool) -> Self {
        self
    }
    pub fn movable(self, _r: bool) -> Self {
        self
    }
    pub fn vscroll(self, _r: bool) -> Self {
        self
    }
    pub fn hscroll(self, _r: bool) -> Self {
        self
    }
    pub fn anchor(self, _a: Align2, _o: impl Into<Vec2>) -> Self {
        self
    }
    pub fn fixed_size(self, _s: impl Into<Vec2>) -> Self {
        self
    }
    pub fn default_size(self, _s: impl Into<Vec2>) -> Self {
        self
    }
    pub fn min_width(self, _s: f32) -> Self {
        self
    }
    pub fn default_width(self, _s: f32) -> Self {
        self
    }
    pub fn default_height(self, _s: f32) -> Self {
        self
    }
    pub fn show<R>(
        self,
        ctx: &Context,
        f: impl FnOnce(&mut Ui) -> R,
    ) -> Option<InnerResponse<Option<R>>> {
        gui::push_window(&self.title);
        let r = f(&mut Ui::make(ctx));
        gui::pop_window();
        Some(inner(Some(r)))
    }
}
pub struct ComboBox {
    text: String,
}
impl ComboBox {
    pub fn from_id_source(_i: impl Hash) -> Self {
        ComboBox {
            text: String::new(),
        }
    }
    pub fn from_label(_i: impl Into<WidgetText>) -> Self {
        ComboBox {
            text: String::new(),
        }
    }
    pub fn new(_i: impl Hash, _l: impl Into<WidgetText>) -> Self {
        ComboBox {
            text: String::new(),
        }
    }
    pub fn selected_text(mut self, t: impl Into<WidgetText>) -> Self {
        self.text = t.into().0;
        self
    }
    pub fn width(self, _w: f32) -> Self {
        self
    }
    pub fn wrap(self, _w: bool) -> Self {
        self
    }
    /// The list is always open: what it offers is evaluated in every frame.
    pub fn show_ui<R>(self, ui: &mut Ui, f: impl FnOnce(&mut Ui) -> R) -> InnerResponse<Option<R>> {
        gui::show(Kind::Combo, &self.text);
        inner(Some(f(&mut ui.child())))
    }
}
