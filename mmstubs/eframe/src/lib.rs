//! Stand-in for eframe/egui 0.21: no rendering, no window.  Every widget that
//! is shown is recorded with `simstd::gui`, and the simulated user decides which
//! one is clicked in which frame.  One frame takes 16 ms of virtual time.
pub mod egui;
pub mod emath {
    pub use crate::egui::{vec2, Align, Align2, Pos2, Rect, Vec2};
}
pub mod epaint {
    pub use crate::egui::*;
}

#[derive(Clone, Debug, Default)]
pub struct IconData {
    pub rgba: Vec<u8>,
    pub width: u32,
    pub height: u32,
}

#[derive(Clone, Debug, Default)]
pub struct NativeOptions {
    pub always_on_top: bool,
    pub maximized: bool,
    pub decorated: bool,
    pub fullscreen: bool,
    pub drag_and_drop_support: bool,
    pub icon_data: Option<IconData>,
    pub initial_window_size: Option<egui::Vec2>,
    pub min_window_size: Option<egui::Vec2>,
    pub max_window_size: Option<egui::Vec2>,
    pub resizable: bool,
    pub transparent: bool,
    pub vsync: bool,
    pub follow_system_theme: bool,
    pub run_and_return: bool,
    pub centered: bool,
}

#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "eframe error")
    }
}
impl std::error::Error for Error {}
pub type Result<T, E = Error> = std::result::Result<T, E>;

pub struct CreationContext {
    pub egui_ctx: egui::Context,
}

#[derive(Default)]
pub struct Frame {
    close: bool,
}
impl Frame {
    pub fn close(&mut self) {
        self.close = true;
    }
    pub fn set_window_title(&mut self, _t: &str) {}
}

pub trait App {
    fn update(&mut self, ctx: &egui::Context, frame: &mut Frame);
    fn on_close_event(&mut self) -> bool {
        true
    }
    fn on_exit(&mut self) {}
}

pub type AppCreator = Box<dyn FnOnce(&CreationContext) -> Box<dyn App>>;

pub fn run_native(_title: &str, _options: NativeOptions, creator: AppCreator) -> Result<()> {
    let ctx = egui::Context::default();
    let mut app = creator(&CreationContext {
        egui_ctx: ctx.clone(),
    });
    loop {
        let input = simstd::gui::begin();
        let mut frame = Frame::default();
        ctx.begin_frame(&input);
        app.update(&ctx, &mut frame);
        if (frame.close || input.close) && app.on_close_event() {
            break;
        }
        simstd::thread::sleep(std::time::Duration::from_millis(16 + input.pause_ms));
    }
    app.on_exit();
    Ok(())
}
