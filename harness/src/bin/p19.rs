//! P19: a mouse event reaches the child drawn where the event happened, and no other.
use harness::*;
use std::cell::RefCell;
use std::rc::Rc;
use tcss::ComputedStyle;
use tcss::types::{AlignHorizontal, AlignVertical, Keyline, KeylineStyle, RgbaColor, Border, BorderEdge, BorderKind, Display, Dock, Layout, Overflow, Position, Scalar, Unit};
use textual::containers::{container::Container, grid::Grid, item_grid::ItemGrid, scrollable::ScrollableContainer};
use textual::widget::screen::Screen;
use textual::{Canvas, MouseEvent, MouseEventKind, Region, Size, Widget};
use crossterm::event::{KeyModifiers, MouseButton};
type B = Box<dyn Widget<u32>>;
#[derive(Default)]
struct Log { drawn: [Option<Region>; 3], hits: Vec<(usize, Region)> }
struct Probe { ix: usize, w: u16, h: u16, style: ComputedStyle, log: Rc<RefCell<Log>> }
impl Widget<u32> for Probe {
    fn render(&self, c: &mut Canvas, r: Region) {
        self.log.borrow_mut().drawn[self.ix] = Some(r);
        for y in 0..r.height { for x in 0..r.width { c.put_char(r.x + x, r.y + y, (b'0' + self.ix as u8) as char, None, None, Default::default()); } }
    }
    fn desired_size(&self) -> Size { Size::new(self.w, self.h) }
    fn get_style(&self) -> ComputedStyle { self.style.clone() }
    fn set_style(&mut self, s: ComputedStyle) { self.style = s; }
    fn on_mouse(&mut self, _: MouseEvent, r: Region) -> Option<u32> { self.log.borrow_mut().hits.push((self.ix, r)); Some(self.ix as u32) }
}
const W: u16 = 9; const H: u16 = 7;
fn holder(kind: u64, c: Vec<B>) -> B {
    match kind {
        0 => Box::new(Container::new(c)),
        1 => Box::new(ScrollableContainer::new(c)),
        2 => Box::new(Screen::new(c)),
        3 => Box::new(Grid::new(c)),
        _ => Box::new(ItemGrid::new(c)),
    }
}
fn cells(n: usize) -> Scalar { Scalar::cells(n as f64) }
/// Draws, then sends one press, release or move anywhere on the screen.
fn hit(w: &mut B, log: &Rc<RefCell<Log>>, reg: Region, lines: bool) {
    let mut c = Canvas::new(W, H);
    *log.borrow_mut() = Log::default();
    w.render(&mut c, reg);
    let x = range(0, W as i64 - 1) as u16; let y = range(0, H as i64 - 1) as u16;
    let kind = match pick(4) { 0 => MouseEventKind::Down(MouseButton::Left), 1 => MouseEventKind::Up(MouseButton::Left), 2 => MouseEventKind::Drag(MouseButton::Left), _ => MouseEventKind::Moved };
    let ev = MouseEvent { kind, column: x, row: y, modifiers: KeyModifiers::NONE };
    let got = if split(flag()) { w.on_mouse(ev, reg) } else { w.on_mouse_with_sender(ev, reg).map(|m| m.0) };
    let mut want = 255u64;
    for cy in 0..H { for cx in 0..W {
        // lines between cells lie over whatever reaches into them
        let ch = c.get_char(cx as i32, cy as i32);
        let g = if ch >= '0' && ch <= '2' { ch as u64 - '0' as u64 } else if lines && !ch.is_ascii() { 254 } else { 255 };
        want = ite(and(x == cx, y == cy), g, want);
    } }
    let l = log.borrow();
    note!("{:?} at {x},{y} drawn {:?} hits {:?}\n{}", kind, l.drawn, l.hits, c.to_snapshot());
    check(l.hits.len() <= 1, "at most one child takes the event");
    match l.hits.first() {
        None => { check(want >= 254, "the child drawn under the pointer gets the event"); check(got.is_none(), "no message comes from nowhere"); }
        Some(&(ix, r)) => {
            check(or(want == ix as u64, want == 254), "only the child drawn under the pointer gets the event");
            check(l.drawn[ix].as_ref() == Some(&r), "the child is told the region it is drawn in");
            check(got == Some(ix as u32), "the child's answer is handed on");
        }
    }
}
fn wheel(w: &mut B, reg: Region, kind: MouseEventKind) {
    w.on_mouse(MouseEvent { kind, column: reg.x as u16 + 3, row: reg.y as u16 + 2, modifiers: KeyModifiers::NONE }, reg);
}
fn scene(kind: u64) {
    let log = Rc::new(RefCell::new(Log::default()));
    let mut kids: Vec<B> = vec![];
    let horiz = kind < 3 && split(flag());
    let size = pick(3) as usize; let variant = pick(if kind < 3 { 7 } else { 9 });
    for ix in 0..3usize {
        let mut s = ComputedStyle::default();
        let (w, h) = [(2, 1), (3, 2), (5, 4)][(size + if ix == 1 { 1 } else { 0 }) % 3];
        s.width = Some(cells(w)); s.height = Some(cells(h));
        if ix == 1 { match variant {
            1 => s.dock = Some(Dock::Top),
            2 => s.dock = Some(Dock::Left),
            3 => { s.position = Position::Absolute; s.offset_x = Some(cells(1)); s.offset_y = Some(cells(1)); }
            4 => s.display = Display::None,
            5 => { s.width = Some(Scalar::fr(1.0)); s.height = Some(Scalar { value: 100.0, unit: Unit::ViewHeight }); }
            6 => { s.width = Some(Scalar::percent(50.0)); s.height = Some(Scalar::percent(50.0)); }
            7 => s.grid_placement.column_span = 2,
            8 => s.grid_placement.row_span = 2,
            _ => {}
        } }
        kids.push(Box::new(Probe { ix, w: w as u16, h: h as u16, style: s, log: log.clone() }));
    }
    let mut w = holder(kind, kids); let mut lines = false;
    let mut s = ComputedStyle::default();
    s.layout = if horiz { Layout::Horizontal } else { Layout::Vertical };
    if split(flag()) { s.border = Border::all(BorderEdge { kind: BorderKind::Round, color: None }); }
    if split(flag()) { s.padding.left = cells(1); s.padding.top = cells(1); }
    if kind < 3 {
        let o = [Overflow::Hidden, Overflow::Auto, Overflow::Scroll];
        s.overflow_x = o[pick(3) as usize]; s.overflow_y = o[pick(3) as usize];
    } else {
        s.grid.columns = Some(2);
        match pick(5) {
            1 => { s.grid.column_widths = vec![cells(2), Scalar::fr(1.0)]; s.grid.row_heights = vec![Scalar::fr(1.0), Scalar::fr(2.0)]; }
            2 => { s.grid.gutter = (cells(1), cells(1)); }
            3 => { s.grid.gutter = (cells(1), cells(1)); lines = true; s.keyline = Keyline::new(KeylineStyle::Thin, RgbaColor::rgb(1, 2, 3)); }
            4 => { s.grid.column_widths = vec![Scalar { value: 50.0, unit: Unit::ViewWidth }, cells(1)]; s.grid.row_heights = vec![Scalar { value: 50.0, unit: Unit::ViewHeight }]; }
            _ => {}
        }
        s.align_horizontal = [AlignHorizontal::Left, AlignHorizontal::Center, AlignHorizontal::Right][pick(3) as usize];
        s.align_vertical = [AlignVertical::Top, AlignVertical::Middle, AlignVertical::Bottom][pick(3) as usize];
    }
    w.set_style(s);
    let reg = if kind == 2 { Region::new(0, 0, W as i32, H as i32) } else { Region::new(1, 1, W as i32 - 2, H as i32 - 1) };
    if kind < 3 {
        let mut c = Canvas::new(W, H); w.render(&mut c, reg);
        match pick(4) { 0 => {}, 1 => wheel(&mut w, reg, MouseEventKind::ScrollDown), 2 => wheel(&mut w, reg, MouseEventKind::ScrollRight), _ => { wheel(&mut w, reg, MouseEventKind::ScrollDown); wheel(&mut w, reg, MouseEventKind::ScrollRight); } }
        log.borrow_mut().hits.clear();
    }
    hit(&mut w, &log, reg, lines);
    reach("end");
}
#[unsafe(no_mangle)] #[inline(never)] pub fn h_container() { scene(0) }
#[unsafe(no_mangle)] #[inline(never)] pub fn h_scrollable() { scene(1) }
#[unsafe(no_mangle)] #[inline(never)] pub fn h_screen() { scene(2) }
#[unsafe(no_mangle)] #[inline(never)] pub fn h_grid() { scene(3) }
#[unsafe(no_mangle)] #[inline(never)] pub fn h_item_grid() { scene(4) }
entries!(h_container, h_scrollable, h_screen, h_grid, h_item_grid);
