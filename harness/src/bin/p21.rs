//! P21: a hidden widget leaves no trace, and showing it again brings it back.
use harness::*;
use tcss::ComputedStyle;
use tcss::types::{KeylineStyle, Border, BorderEdge, BorderKind, Display, Dock, Layout, Overflow, RgbaColor, Scalar};
use textual::containers::{Center, Middle, container::Container, grid::Grid, horizontal::Horizontal, horizontal_scroll::HorizontalScroll, item_grid::ItemGrid, scrollable::ScrollableContainer, vertical::Vertical, vertical_scroll::VerticalScroll};
use textual::widget::{button::Button, input::Input, label::Label, loading_indicator::LoadingIndicator, option_list::OptionList, placeholder::Placeholder, ruler::Ruler, screen::Screen, static_widget::Static, switch::Switch};
use textual::{Canvas, KeyCode, MouseEvent, MouseEventKind, Region, Size, Widget};
use crossterm::event::{KeyModifiers, MouseButton};
type B = Box<dyn Widget<u32>>;
const W: u16 = 12; const H: u16 = 9;
fn cells(n: usize) -> Scalar { Scalar::cells(n as f64) }
fn text(t: &str) -> Static<u32> { Static::new(t) }
const KINDS: u64 = 16;
fn subject(k: u64) -> B {
    match k {
        0 => Box::new(text("xx")),
        1 => Box::new(Label::new("xx")),
        2 => Box::new(Button::new("xx").with_message(9)),
        3 => Box::new(Input::new()),
        4 => Box::new(Switch::new(false, |_| 9)),
        5 => Box::new(OptionList::new(vec!["x".to_string(), "y".to_string()])),
        6 => Box::new(Placeholder::new()),
        7 => Box::new(Ruler::new(vec![])),
        8 => Box::new(Container::new(vec![Box::new(Button::new("xx").with_message(9u32)) as B])),
        9 => Box::new(ScrollableContainer::new(vec![Box::new(Button::new("xx").with_message(9u32)) as B])),
        10 => Box::new(Grid::new(vec![Box::new(Button::new("xx").with_message(9u32)) as B])),
        11 => Box::new(ItemGrid::new(vec![Box::new(Button::new("xx").with_message(9u32)) as B])),
        12 => Box::new(Vertical::new(vec![Box::new(Button::new("xx").with_message(9u32)) as B])),
        13 => Box::new(Horizontal::new(vec![Box::new(Button::new("xx").with_message(9u32)) as B])),
        14 => Box::new(VerticalScroll::new(vec![Box::new(Button::new("xx").with_message(9u32)) as B])),
        _ => Box::new(HorizontalScroll::new(vec![Box::new(Button::new("xx").with_message(9u32)) as B])),
    }
}
fn holder(kind: u64, c: Vec<B>) -> B {
    match kind {
        0 => Box::new(Container::new(c)),
        1 => Box::new(ScrollableContainer::new(c)),
        2 => Box::new(Screen::new(c)),
        3 => Box::new(Grid::new(c)),
        4 => Box::new(ItemGrid::new(c)),
        5 => Box::new(Vertical::new(c)),
        6 => Box::new(Horizontal::new(c)),
        7 => Box::new(VerticalScroll::new(c)),
        _ => Box::new(HorizontalScroll::new(c)),
    }
}
fn other(ix: usize) -> B { let mut b = Button::<u32>::new(["a", "b"][ix]).with_message(ix as u32 + 1); let mut s = ComputedStyle::default(); s.width = Some(cells(3)); s.height = Some(cells(2)); b.set_style(s); Box::new(b) }
fn style(hv: u64) -> ComputedStyle {
    let mut s = ComputedStyle::default();
    s.layout = if hv == 1 { Layout::Horizontal } else { Layout::Vertical };
    s.overflow_x = Overflow::Auto; s.overflow_y = Overflow::Auto;
    s.grid.columns = Some(2);
    if hv == 2 { s.keyline.style = KeylineStyle::Thin; s.keyline.color = RgbaColor::rgb(9, 99, 199); }
    s
}
fn tree(kind: u64, hv: u64, pos: usize, x: Option<B>) -> B {
    let mut c = vec![other(0), other(1)];
    if let Some(x) = x { c.insert(pos, x); }
    let mut w = holder(kind, c); w.set_style(style(hv)); w.on_resize(Size::new(W, H)); w
}
fn wh(s: Size) -> (u16, u16) { (s.width, s.height) }
fn draw(w: &B) -> Canvas { let mut c = Canvas::new(W, H); w.render(&mut c, Region::new(0, 0, W as i32, H as i32)); c }
fn same(a: &Canvas, b: &Canvas, what: &str) {
    note!("{what}\n{}\n{}", a.to_snapshot(), b.to_snapshot());
    for i in 0..(W * H) as usize { check(a.cell_at(i) == b.cell_at(i), "the pictures agree"); }
}
fn hide(x: &mut dyn Widget<u32>, how: u64, on: bool) {
    if how == 0 { x.set_visible(!on); } else { let mut s = x.get_style(); s.display = if on { Display::None } else { Display::Block }; x.set_style(s); }
}
fn scene(kind: u64) {
    let k = if kind == 0 || tier(0, 1) == 1 { pick(KINDS) } else { [0, 2, 5, 9][pick(4) as usize] }; let hv = if kind < 3 { pick(2) } else if kind == 3 { pick(2) * 2 } else { 0 }; let pos = pick(3) as usize; let how = pick(2);
    let mut x = subject(k);
    let mut s = x.get_style();
    match pick(3) {
        0 => { s.width = Some(cells(4)); s.height = Some(cells(3)); s.margin.top = cells(1); }
        1 => { s.dock = Some(Dock::Left); s.width = Some(cells(2)); }
        _ => { s.width = Some(Scalar::fr(1.0)); s.border = Border::all(BorderEdge { kind: BorderKind::Round, color: None }); s.background = Some(RgbaColor::rgb(1, 2, 3)); }
    }
    x.set_style(s);
    let late = split(flag());
    if !late { hide(&mut *x, how, true); }
    let mut w = tree(kind, hv, pos, Some(x));
    let first = draw(&w);
    if late { hide(w.get_child_mut(pos).unwrap(), how, true); }
    let mut o = tree(kind, hv, pos, None);
    let gone = draw(&w);
    same(&gone, &draw(&o), "hidden, never there");
    check(w.count_focusable() == o.count_focusable(), "a hidden widget takes no focus");
    check(wh(w.desired_size()) == wh(o.desired_size()), "a hidden widget takes no space");
    let ev = |kind, c, r| MouseEvent { kind, column: c, row: r, modifiers: KeyModifiers::NONE };
    let reg = Region::new(0, 0, W as i32, H as i32);
    let n = pick(tier(2, 4)) as usize;
    let a = w.focus_nth(n); let b = o.focus_nth(n);
    check(a == b, "a hidden widget takes no focus");
    let mut f = (None, None); let (mut i, mut j) = (0, 0);
    w.for_each_child(&mut |c| { if c.is_focused() { f.0 = Some(i); } i += 1; });
    o.for_each_child(&mut |c| { if c.is_focused() { f.1 = Some(j); } j += 1; });
    check(f.0 == f.1.map(|q| if q >= pos { q + 1 } else { q }), "focus passes the hidden widget by");
    for key in [KeyCode::Enter, KeyCode::Char(' '), KeyCode::Down] { let a = w.on_event(key); let b = o.on_event(key); check(a == b, "a hidden widget takes no key"); }
    let (cx, cy) = (range(0, W as i64 - 1) as u16, range(0, H as i64 - 1) as u16);
    for m in [MouseEventKind::Moved, MouseEventKind::Down(MouseButton::Left), MouseEventKind::Up(MouseButton::Left)] {
        let a = w.on_mouse(ev(m, cx, cy), reg); let b = o.on_mouse(ev(m, cx, cy), reg);
        check(a == b, "a hidden widget takes no mouse event");
    }
    same(&draw(&w), &draw(&o), "after input");
    if late {
        w.clear_focus(); w.clear_hover();
        hide(w.get_child_mut(pos).unwrap(), how, false);
        same(&draw(&w), &first, "shown again, at first");
    }
    reach("end");
}
#[unsafe(no_mangle)] #[inline(never)] pub fn h_container() { scene(0) }
#[unsafe(no_mangle)] #[inline(never)] pub fn h_scrollable() { scene(1) }
#[unsafe(no_mangle)] #[inline(never)] pub fn h_screen() { scene(2) }
#[unsafe(no_mangle)] #[inline(never)] pub fn h_grid() { scene(3 + pick(2)) }
#[unsafe(no_mangle)] #[inline(never)] pub fn h_named() { scene(5 + pick(4)) }
/// Center and Middle, whose only child is hidden.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_single() {
    let k = pick(KINDS); let how = pick(2);
    let mut w: B = if split(flag()) { Box::new(Center::new(vec![subject(k)])) } else { Box::new(Middle::new(vec![subject(k)])) };
    let first = draw(&w);
    let mut hidden = false;
    for _ in 0..2 {
        hidden = !hidden;
        w.for_each_child(&mut |c| hide(c, how, hidden));
        if hidden {
            same(&draw(&w), &Canvas::new(W, H), "hidden");
            check(w.count_focusable() == 0 && !w.focus_nth(0), "a hidden widget takes no focus");
            check(wh(w.desired_size()) == (0, 0), "a hidden widget takes no space");
            check(w.on_event(KeyCode::Enter).is_none(), "a hidden widget takes no key");
            let (cx, cy) = (range(0, W as i64 - 1) as u16, range(0, H as i64 - 1) as u16);
            for m in [MouseEventKind::Moved, MouseEventKind::Down(MouseButton::Left), MouseEventKind::Up(MouseButton::Left)] {
                check(w.on_mouse(MouseEvent { kind: m, column: cx, row: cy, modifiers: KeyModifiers::NONE }, Region::new(0, 0, W as i32, H as i32)).is_none(), "a hidden widget takes no mouse event");
            }
        } else { same(&draw(&w), &first, "shown again"); }
    }
    reach("end");
}
entries!(h_container, h_scrollable, h_screen, h_grid, h_named, h_single);
