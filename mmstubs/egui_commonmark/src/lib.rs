//! Stand-in for egui_commonmark (see eframe): the text is not rendered.
use eframe::egui::Ui;

#[derive(Default, Debug, Clone)]
pub struct CommonMarkCache {
    _private: (),
}
pub struct CommonMarkViewer;
impl CommonMarkViewer {
    pub fn new(_id: impl std::hash::Hash) -> Self {
        CommonMarkViewer
    }
    pub fn max_image_width(self, _w: Option<usize>) -> Self {
        self
    }
    pub fn default_width(self, _w: Option<usize>) -> Self {
        self
    }
    pub fn show(self, _ui: &mut Ui, _cache: &mut CommonMarkCache, _text: &str) {}
    pub fn show_scrollable(self, _ui: &mut Ui, _cache: &mut CommonMarkCache, _text: &str) {}
}
