//! Stand-in for egui_extras 0.21 (see eframe).
use eframe::egui::{Layout, Response, Ui};
use simstd::gui::{self, Kind};

#[derive(Clone, Copy, Debug)]
pub struct Size;
impl Size {
    pub fn exact(_p: f32) -> Self {
        Size
    }
    pub fn initial(_p: f32) -> Self {
        Size
    }
    pub fn relative(_p: f32) -> Self {
        Size
    }
    pub fn remainder() -> Self {
        Size
    }
    pub fn at_least(self, _m: f32) -> Self {
        self
    }
    pub fn at_most(self, _m: f32) -> Self {
        self
    }
}
pub struct StripBuilder<'a> {
    ui: &'a mut Ui,
}
pub struct Strip<'a> {
    ui: &'a mut Ui,
}
impl<'a> StripBuilder<'a> {
    pub fn new(ui: &'a mut Ui) -> Self {
        StripBuilder { ui }
    }
    pub fn size(self, _s: Size) -> Self {
        self
    }
    pub fn sizes(self, _s: Size, _n: usize) -> Self {
        self
    }
    pub fn clip(self, _c: bool) -> Self {
        self
    }
    pub fn cell_layout(self, _l: Layout) -> Self {
        self
    }
    pub fn vertical<F: for<'b> FnOnce(Strip<'b>)>(self, f: F) -> Response {
        f(Strip { ui: self.ui });
        Response::default()
    }
    pub fn horizontal<F: for<'b> FnOnce(Strip<'b>)>(self, f: F) -> Response {
        f(Strip { ui: self.ui });
        Response::default()
    }
}
impl Strip<'_> {
    pub fn cell(&mut self, f: impl FnOnce(&mut Ui)) {
        f(&mut self.ui.child());
    }
    pub fn empty(&mut self) {}
    pub fn strip(&mut self, f: impl FnOnce(StripBuilder<'_>)) {
        f(StripBuilder {
            ui: &mut self.ui.child(),
        });
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Column;
impl Column {
    pub fn auto() -> Self {
        Column
    }
    pub fn exact(_w: f32) -> Self {
        Column
    }
    pub fn initial(_w: f32) -> Self {
        Column
    }
    pub fn remainder() -> Self {
        Column
    }
    pub fn at_least(self, _m: f32) -> Self {
        self
    }
    pub fn at_most(self, _m: f32) -> Self {
        self
    }
    pub fn resizable(self, _m: bool) -> Self {
        self
    }
    pub fn clip(self, _m: bool) -> Self {
        self
    }
}
pub struct TableBuilder<'a> {
    ui: &'a mut Ui,
}
pub struct Table<'a> {
    ui: &'a mut Ui,
}
pub struct TableBody<'a> {
    ui: &'a mut Ui,
}
pub struct TableRow<'a> {
    ui: &'a mut Ui,
}
impl<'a> TableBuilder<'a> {
    pub fn new(ui: &'a mut Ui) -> Self {
        TableBuilder { ui }
    }
    pub fn striped(self, _s: bool) -> Self {
        self
    }
    pub fn resizable(self, _s: bool) -> Self {
        self
    }
    pub fn vscroll(self, _s: bool) -> Self {
        self
    }
    pub fn cell_layout(self, _l: Layout) -> Self {
        self
    }
    pub fn column(self, _c: Column) -> Self {
        self
    }
    pub fn columns(self, _c: Column, _n: usize) -> Self {
        self
    }
    pub fn header(self, _h: f32, f: impl FnOnce(TableRow<'_>)) -> Table<'a> {
        f(TableRow { ui: self.ui });
        Table { ui: self.ui }
    }
    pub fn body<F: for<'b> FnOnce(TableBody<'b>)>(self, f: F) {
        f(TableBody { ui: self.ui });
    }
}
impl Table<'_> {
    pub fn body<F: for<'b> FnOnce(TableBody<'b>)>(self, f: F) {
        f(TableBody { ui: self.ui });
    }
}
impl TableBody<'_> {
    pub fn row(&mut self, _h: f32, f: impl FnOnce(TableRow<'_>)) {
        gui::show(Kind::Row, "");
        f(TableRow {
            ui: &mut self.ui.child(),
        });
    }
    pub fn rows(self, h: f32, n: usize, mut f: impl FnMut(usize, TableRow<'_>)) {
        let mut s = self;
        for i in 0..n {
            s.row(h, |r| f(i, r));
        }
    }
}
impl TableRow<'_> {
    pub fn col<F: FnOnce(&mut Ui)>(&mut self, f: F) -> Response {
        gui::show(Kind::Cell, "");
        f(&mut self.ui.child());
        Response::default()
    }
}
