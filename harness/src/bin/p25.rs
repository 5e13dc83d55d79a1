//! P25: after a resize everything is as if the app had started at that size.
use harness::*;
use std::collections::VecDeque;
use std::cell::RefCell;
use std::rc::Rc;
use tcss::types::Theme;
use tcss::{ComputedStyle, parser::stylesheet::StyleSheet};
use textual::containers::{Center, Middle, container::Container, grid::Grid, horizontal::Horizontal, horizontal_scroll::HorizontalScroll, item_grid::ItemGrid, scrollable::ScrollableContainer, vertical::Vertical, vertical_scroll::VerticalScroll};
use textual::style_resolver::{InheritedContext, resolve_dirty_styles, resolve_styles};
use textual::widget::{button::Button, input::Input, label::Label, option_list::OptionList, placeholder::Placeholder, app_widget::AppWidget, screen::Screen, static_widget::Static, switch::Switch};
use textual::{Canvas, Region, Size, Widget};
type B = Box<dyn Widget<u32>>;
const CSS: &str = "
Screen { background: #101010; color: #e0e0e0; }
.box { height: auto; background: #202020; }
.-wide .box { width: 50vw; border: round #ffffff; }
.-tall .box { height: 50vh; }
.-wide.-tall Button { background: #00ff00; }
.-narrow Static { color: #ff0000; }
.-short > .box { padding: 0 1; }
Static { width: auto; height: auto; }
Label { width: 100%; height: auto; }
Button { width: 7; height: 1; }
Input { width: 80%; height: 1; }
Switch { width: auto; height: 1; }
OptionList { width: 1fr; height: auto; }
Placeholder { width: 50%; height: 2; }
";
fn leaf(k: u64) -> B {
    let mut w: B = match k {
        0 => Box::new(Static::new("ab cd ef gh")),
        1 => Box::new(Label::new("ab cd ef gh")),
        2 => Box::new(Button::new("ab")),
        3 => Box::new(Input::new()),
        4 => Box::new(Switch::new(false, |_| 9)),
        5 => Box::new(OptionList::new(vec!["x".to_string(), "y".to_string()])),
        _ => Box::new(Placeholder::new()),
    };
    w.add_class("leaf"); w
}
fn holder(kind: u64, c: Vec<B>) -> B {
    let mut w: B = match kind {
        0 => Box::new(Container::new(c)),
        1 => Box::new(ScrollableContainer::new(c)),
        2 => Box::new(Grid::new(c)),
        3 => Box::new(ItemGrid::new(c)),
        4 => Box::new(Vertical::new(c)),
        5 => Box::new(Horizontal::new(c)),
        6 => Box::new(VerticalScroll::new(c)),
        _ => Box::new(HorizontalScroll::new(c)),
    };
    w.add_class("box"); w
}

const HB: &[(u16, &str)] = &[(0, "-narrow"), (10, "-wide")];
const VB: &[(u16, &str)] = &[(0, "-short"), (6, "-tall")];
fn draw(w: &dyn Widget<u32>, s: (u16, u16)) -> Canvas { let mut c = Canvas::new(s.0, s.1); w.render(&mut c, Region::new(0, 0, s.0 as i32, s.1 as i32)); c }
fn tree(kind: u64, k: u64) -> Screen<u32> { Screen::new(vec![holder(kind, vec![leaf(k), leaf(0)]), leaf(2)]).with_horizontal_breakpoints(HB).with_vertical_breakpoints(VB) }
fn size() -> (u16, u16) { let w = range(6, 6 + tier(4, 7) as i64) as u16; let mut x = 6; while split(x < w) { x += 1; } (x, [3, 6, 8][pick(3) as usize]) }
/// Any tree at one size, then others, against one that was at the last size from the start.
fn scene(kind: u64, k: u64) {
    let sheet: StyleSheet = tcss::parser::parse_stylesheet(CSS).ok().unwrap();
    let theme = Theme::new("t", true);
    let (kind, k) = (if kind == 99 { pick(8) } else { kind }, if k == 99 { pick(6) } else { k });
    let mut old = tree(kind, k);
    old.on_resize(Size::new(8, 4));
    resolve_styles(&mut old, &sheet, &theme, &mut VecDeque::new());
    draw(&old, (8, 4));
    let mut s = (8, 4);
    for _ in 0..tier(2, 3) {
        s = size();
        old.on_resize(Size::new(s.0, s.1));
        resolve_dirty_styles(&mut old, &sheet, &theme, &mut VecDeque::new(), false, &InheritedContext::from_theme(&theme));
        draw(&old, s);
    }
    let a = draw(&old, s);
    let mut new = tree(kind, k);
    new.on_resize(Size::new(s.0, s.1));
    resolve_styles(&mut new, &sheet, &theme, &mut VecDeque::new());
    let b = draw(&new, s);
    note!("{:?}\n{}\n{}", s, a.to_snapshot(), b.to_snapshot());
    for c in 0..(s.0 * s.1) as usize { check(a.cell_at(c) == b.cell_at(c), "the pictures agree"); }
    reach("end");
}
#[unsafe(no_mangle)] #[inline(never)] pub fn h_boxes() { scene(99, 0) }
#[unsafe(no_mangle)] #[inline(never)] pub fn h_leaves() { scene(0, 99) }
/// Any thresholds, any sizes.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_classes() {
    let names = ["-a", "-b", "-c", "-d"]; let more = ["-p", "-q", "-r"];
    let (n, m) = (pick(tier(4, 5)) as usize, pick(3) as usize);
    let h: Vec<(u16, &'static str)> = (0..n).map(|i| (u16s(), names[i])).collect();
    let v: Vec<(u16, &'static str)> = (0..m).map(|i| (u16s(), more[i])).collect();
    let mut s: Screen<u32> = Screen::new(vec![]).with_horizontal_breakpoints(Box::leak(h.clone().into_boxed_slice())).with_vertical_breakpoints(Box::leak(v.clone().into_boxed_slice()));
    let mut last: Option<Vec<String>> = None;
    for _ in 0..2 {
        let (w, t) = (u16s(), u16s());
        s.mark_clean();
        s.on_resize(Size::new(w, t));
        let mut want: Vec<String> = vec![];
        let pick_last = |l: &[(u16, &'static str)], x: u16| { let mut r = None; for b in l { if split(x >= b.0) { r = Some(b.1); } } r };
        if let Some(c) = pick_last(&h, w) { want.push(c.to_string()); }
        if let Some(c) = pick_last(&v, t) { want.push(c.to_string()); }
        let got = s.get_meta().classes;
        note!("{w}x{t} {:?} {:?}: {:?}, not {:?}", h, v, got, want);
        check(got.len() == want.len() && want.iter().all(|c| got.contains(c)), "the last threshold reached on each axis gives its class, and only that");
        let was = last.replace(want.clone()).unwrap_or_default();
        check(imp(was != want, s.is_dirty()), "new classes bring new styles");
    }
    reach("end");
}
struct Probe { seen: Rc<RefCell<Vec<(u16, u16)>>>, style: ComputedStyle }
impl Widget<u32> for Probe {
    fn render(&self, _: &mut Canvas, _: Region) {}
    fn desired_size(&self) -> Size { Size::new(2, 2) }
    fn get_style(&self) -> ComputedStyle { self.style.clone() }
    fn set_style(&mut self, s: ComputedStyle) { self.style = s; }
    fn on_resize(&mut self, s: Size) { self.seen.borrow_mut().push((s.width, s.height)); }
}
/// Every widget is told every size.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_told() {
    let seen = Rc::new(RefCell::new(vec![])); let probe = || -> B { Box::new(Probe { seen: seen.clone(), style: ComputedStyle::default() }) };
    let wrap = |k: u64, c: B| -> B { match k { 8 => Box::new(Center::new(vec![c])), 9 => Box::new(Middle::new(vec![c])), k => holder(k, vec![c]) } };
    let hidden = || -> B { let mut s = ComputedStyle::default(); s.display = tcss::types::Display::None; Box::new(Probe { seen: seen.clone(), style: s }) };
    let inner = wrap(pick(10), if split(flag()) { hidden() } else { probe() }); let outer = wrap(pick(10), inner);
    let mut w: B = Box::new(AppWidget::new(vec![Box::new(Screen::new(vec![outer, probe()])) as B, probe()]));
    for _ in 0..2 {
        let (a, b) = (u16s(), u16s());
        w.on_resize(Size::new(a, b));
        let s: Vec<(u16, u16)> = seen.borrow_mut().drain(..).collect();
        check(s.len() == 3, "every widget is told once");
        for x in s { check(and(x.0 == a, x.1 == b), "the size"); }
    }
    reach("end");
}
entries!(h_boxes, h_leaves, h_classes, h_told);
