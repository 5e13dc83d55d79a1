//! P22: restyling what changed gives the picture of restyling everything.
use harness::*;
use std::collections::VecDeque;
use tcss::types::{RgbaColor, Theme};
use tcss::{StyleOverride, parser::stylesheet::StyleSheet};
use textual::containers::{container::Container, grid::Grid, horizontal::Horizontal, horizontal_scroll::HorizontalScroll, item_grid::ItemGrid, scrollable::ScrollableContainer, vertical::Vertical, vertical_scroll::VerticalScroll};
use textual::style_resolver::{InheritedContext, resolve_dirty_styles, resolve_styles};
use textual::widget::{button::Button, input::Input, label::Label, option_list::OptionList, placeholder::Placeholder, screen::Screen, static_widget::Static, switch::Switch};
use textual::{Canvas, Region, Size, Widget};
type B = Box<dyn Widget<u32>>;
const W: u16 = 12; const H: u16 = 8;
const CSS: &str = "
Screen { background: #101010; color: #e0e0e0; overflow: hidden; }
.box { height: auto; background: #202020; grid-columns: 1fr 1fr; }
Static { width: auto; height: auto; }
Label { width: auto; height: auto; }
Button { width: 7; height: 1; }
Input { width: 6; height: 1; }
Switch { width: auto; height: 1; }
OptionList { width: 5; height: auto; }
Placeholder { width: 5; height: 2; }
.k { background: #203040 80%; color: #aabbcc; }
.k Static { color: #ff0000; }
.k > .leaf { text-style: bold; width: 5; }
.box.k .leaf.k { background: #00ff00 50%; }
.h { display: none; }
.v { visibility: hidden; }
.p { padding: 1 0 0 1; margin: 1 0; }
.b { border: round #ffffff; }
.leaf:hover { background: #0000ff; }
.leaf:focus { text-style: underline; color: #ffff00; }
.leaf:disabled { color: #777777; width: 4; }
.box:disabled { background: #550000; }
";
fn leaf(k: u64) -> B {
    let mut w: B = match k {
        0 => Box::new(Static::new("ab")),
        1 => Box::new(Label::new("ab")),
        2 => Box::new(Button::new("ab")),
        3 => Box::new(Input::new()),
        4 => Box::new(Switch::new(false, |_| 9)),
        5 => Box::new(OptionList::new(vec!["x".to_string(), "y".to_string()])),
        _ => Box::new(Placeholder::new()),
    };
    w.add_class("leaf"); w
}
fn holder(kind: u64, c: Vec<B>) -> B {
    let mut w: B = match kind {
        0 => Box::new(Container::new(c)),
        1 => Box::new(ScrollableContainer::new(c)),
        2 => Box::new(Grid::new(c)),
        3 => Box::new(ItemGrid::new(c)),
        4 => Box::new(Vertical::new(c)),
        5 => Box::new(Horizontal::new(c)),
        6 => Box::new(VerticalScroll::new(c)),
        _ => Box::new(HorizontalScroll::new(c)),
    };
    w.add_class("box"); w
}
fn toggle(w: &mut dyn Widget<u32>, c: &str) { if w.has_class(c) { w.remove_class(c); } else { w.add_class(c); } }
fn change(w: &mut dyn Widget<u32>, op: u64) {
    match op {
        0 => toggle(w, "k"),
        1 => toggle(w, "h"),
        2 => toggle(w, "v"),
        3 => toggle(w, "p"),
        4 => toggle(w, "b"),
        5 => { let d = w.is_disabled(); w.set_disabled(!d); }
        6 => { let v = w.is_visible(); w.set_visible(!v); }
        7 => { w.set_hover(true); }
        8 => { let f = w.is_focused(); w.set_focus(!f); }
        9 => { if w.inline_style().is_some() { w.clear_inline_style(); } else { let bg = RgbaColor::rgb(9, 9, if tier(0, 1) == 1 { u8s() } else { 200 }); let o = StyleOverride::new();
            w.set_inline_style(match pick(3) { 0 => o.background(bg).color(RgbaColor::rgb(200, 9, 9)), 1 => o.background(bg), _ => o.color(RgbaColor::rgb(200, 9, 9)) });  } }
        10 => w.set_classes(if w.classes().iter().any(|c| c == "leaf") { "leaf k b" } else { "box k b" }),
        11 => { w.set_hover(true); w.clear_hover(); }
        _ => {
            w.set_border_title("T");
            if let Some(a) = w.as_any_mut() {
                if let Some(s) = a.downcast_mut::<Static<u32>>() { s.update("abcd\nef"); }
                else if let Some(s) = a.downcast_mut::<Label<u32>>() { s.update("abcd\nef"); }
                else if let Some(s) = a.downcast_mut::<Button<u32>>() { s.set_label("cde"); s.set_variant("primary"); }
                else if let Some(s) = a.downcast_mut::<Input<u32>>() { s.set_value("qrs"); }
                else if let Some(s) = a.downcast_mut::<OptionList<u32>>() { s.set_items(vec!["p".to_string(), "q".to_string(), "r".to_string()]); }
            }
        }
    }
}
/// 0 the screen, 1 the box, 2.. the leaves
fn on(root: &mut dyn Widget<u32>, at: u64, f: &mut dyn FnMut(&mut dyn Widget<u32>)) {
    match at {
        0 => f(root),
        1 => f(root.get_child_mut(0).unwrap()),
        4 => f(root.get_child_mut(1).unwrap()),
        n => { let b = root.get_child_mut(0).unwrap(); f(b.get_child_mut(n as usize - 2).unwrap()); }
    }
}
fn draw(w: &dyn Widget<u32>) -> Canvas { let mut c = Canvas::new(W, H); w.render(&mut c, Region::new(0, 0, W as i32, H as i32)); c }
fn scene(kind: u64, k: u64, steps: u64, ops: &[u64]) {
    let sheet: StyleSheet = tcss::parser::parse_stylesheet(CSS).ok().unwrap();
    let theme = Theme::new("t", true);
    let (kind, k) = (if kind == 99 { pick(8) } else { kind }, if k == 99 { pick(7) } else { k });
    let mut root = Screen::new(vec![holder(kind, vec![leaf(k), leaf(0)]), leaf(2)]);
    root.on_resize(Size::new(W, H));
    resolve_styles(&mut root, &sheet, &theme, &mut VecDeque::new());
    draw(&root);
    let mut log = vec![];
    for i in 0..steps {
        let at = if i == 0 { 1 + pick(2) } else { [1, 2, 4][pick(3) as usize] }; let op = ops[pick(ops.len() as u64) as usize];
        log.push((at, op));
        on(&mut root, at, &mut |w| change(w, op));
        resolve_dirty_styles(&mut root, &sheet, &theme, &mut VecDeque::new(), false, &InheritedContext::from_theme(&theme));
        let part = draw(&root);
        if i + 1 < steps { continue; }
        resolve_styles(&mut root, &sheet, &theme, &mut VecDeque::new());
        root.on_resize(Size::new(W, H));
        let full = draw(&root);
        note!("{:?}\n{}\n{}", log, part.to_ansi_snapshot(), full.to_ansi_snapshot());
        for c in 0..(W * H) as usize { check(part.cell_at(c) == full.cell_at(c), "the pictures agree"); }
    }
    reach("end");
}
const ALL: [u64; 13] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12];
#[unsafe(no_mangle)] #[inline(never)] pub fn h_boxes() { scene(99, 0, tier(2, 2), &ALL) }
#[unsafe(no_mangle)] #[inline(never)] pub fn h_leaves() { scene(0, 99, tier(2, 2), &ALL) }
#[unsafe(no_mangle)] #[inline(never)] pub fn h_long() { scene(0, 2, 3, &[0, 1, 5, 6, 8]) }
entries!(h_boxes, h_leaves, h_long);
