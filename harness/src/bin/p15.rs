//! P15: focus visits exactly the shown, focusable widgets in document order; keys and messages follow it.
use harness::*;
use std::cell::RefCell;
use std::rc::Rc;
use tcss::ComputedStyle;
use tcss::types::Display;
use textual::containers::{container::Container, grid::Grid, item_grid::ItemGrid, scrollable::ScrollableContainer, vertical_scroll::VerticalScroll, vertical::Vertical};
use textual::tree::WidgetTree;
use textual::widget::{app_widget::AppWidget, screen::Screen};
use textual::widget::{button::Button, switch::Switch};
use textual::{Canvas, KeyCode, MessageEnvelope, Region, Size, Widget};
type B = Box<dyn Widget<u32>>;
/// A leaf: it can take focus or not, is shown or not, and answers a key with its own number.
struct Leaf { ix: u32, id: &'static str, can: bool, vis: bool, foc: bool, style: ComputedStyle }
impl Widget<u32> for Leaf {
    fn render(&self, _: &mut Canvas, _: Region) {}
    fn desired_size(&self) -> Size { Size::new(1, 1) }
    fn is_focusable(&self) -> bool { self.can }
    fn is_focused(&self) -> bool { self.foc }
    fn set_focus(&mut self, f: bool) { self.foc = f; }
    fn is_visible(&self) -> bool { self.vis }
    fn set_visible(&mut self, v: bool) { self.vis = v; }
    fn set_disabled(&mut self, v: bool) { self.can = !v; }
    fn get_style(&self) -> ComputedStyle { self.style.clone() }
    fn set_style(&mut self, s: ComputedStyle) { self.style = s; }
    fn on_event(&mut self, _: KeyCode) -> Option<u32> { Some(self.ix) }
    fn id(&self) -> Option<&str> { Some(self.id) }
}
const IDS: [&str; 4] = ["w0", "w1", "w2", "w3"];
fn hidden() -> ComputedStyle { let mut s = ComputedStyle::default(); s.display = Display::None; s }
fn show(w: &mut dyn Widget<u32>, on: bool) { w.set_style(if on { ComputedStyle::default() } else { hidden() }); }
fn leaf(ix: usize) -> B { Box::new(Leaf { ix: ix as u32, id: IDS[ix], can: true, vis: true, foc: false, style: ComputedStyle::default() }) }
fn holder(kind: u64, c: Vec<B>) -> B {
    match kind {
        0 => Box::new(Container::new(c)),
        1 => Box::new(Grid::new(c)),
        2 => Box::new(ItemGrid::new(c)),
        3 => Box::new(ScrollableContainer::new(c)),
        4 => Box::new(VerticalScroll::new(c)),
        5 => Box::new(Vertical::new(c)),
        6 => Box::new(Screen::new(c)),
        _ => Box::new(AppWidget::new(c)),
    }
}
/// One tree over four leaves: the root holds leaf 0, a box (holding leaf 1 and an inner box holding leaf 2), and leaf 3.
struct T { tree: WidgetTree<u32>, can: [bool; 4], vis: [bool; 4], boxes: [bool; 2] }
const PATHS: [&[usize]; 4] = [&[0], &[1, 0], &[1, 1, 0], &[2]];
const BOXES: [&[usize]; 2] = [&[1], &[1, 1]];
fn tree(kind: u64, mk: &mut dyn FnMut(usize) -> B) -> T {
    let inner = holder(kind, vec![mk(2)]);
    let outer = holder(if kind >= 6 { 0 } else { kind }, vec![mk(1), inner]);
    let root = holder(kind, vec![mk(0), outer, mk(3)]);
    T { tree: WidgetTree::new(root), can: [true; 4], vis: [true; 4], boxes: [true; 2] }
}
fn at<'a>(t: &'a mut WidgetTree<u32>, p: &[usize]) -> &'a mut dyn Widget<u32> {
    let mut w = t.root_mut();
    for &i in p { match w.get_child_mut(i) { Some(c) => w = c, None => { check(false, "the tree keeps its children"); loop {} } } }
    w
}
impl T {
    fn set(&mut self, can: [bool; 4], vis: [bool; 4], boxes: [bool; 2]) {
        self.can = can; self.vis = vis; self.boxes = boxes;
        for i in 0..4 { let w = at(&mut self.tree, PATHS[i]); w.set_disabled(!can[i]); show(w, vis[i]); }
        for i in 0..2 { show(at(&mut self.tree, BOXES[i]), boxes[i]); }
    }
    fn live(&self, i: usize) -> bool {
        let mut a = self.can[i] && self.vis[i];
        if i == 1 || i == 2 { a = a && self.boxes[0]; }
        if i == 2 { a = a && self.boxes[1]; }
        a
    }
    fn order(&self) -> Vec<usize> { (0..4).filter(|&i| self.live(i)).collect() }
    /// Exactly the nth of the widgets that can take focus has it, and keys go there.
    fn agree(&mut self, n: usize) {
        let o = self.order(); let w = o[n];
        check(self.tree.current_focus_index() == n, "the focus index is the widget's place in the order");
        for i in 0..4 { check(at(&mut self.tree, PATHS[i]).is_focused() == (i == w), "exactly the focused widget reports focus"); }
        check(self.tree.focused_sender_info().id.as_deref() == Some(IDS[w]), "the focus path leads to the focused widget");
        check(self.tree.dispatch_key(KeyCode::Enter) == Some(w as u32), "a key goes to the focused widget");
    }
    fn count(&mut self) -> usize {
        let n = self.order().len();
        check(self.tree.focusable_count() == n, "the focusable widgets are the shown ones that accept focus");
        n
    }
}
fn flags<const N: usize>() -> [bool; N] { let mut a = [false; N]; for x in a.iter_mut() { *x = split(flag()); } a }
fn walk(kind: u64, mk: &mut dyn FnMut(usize) -> B, steps: usize) {
    let mut t = tree(kind, mk);
    t.set(flags(), flags(), flags());
    let n = t.count();
    if n == 0 {
        check(!t.tree.set_focus_index(0) && t.tree.focus_next().is_none() && t.tree.focus_previous().is_none(), "with nothing to focus, focus does not move");
        for i in 0..4 { check(!at(&mut t.tree, PATHS[i]).is_focused(), "with nothing to focus, nothing is focused"); }
        return;
    }
    let mut cur = pick(n as u64) as usize;
    check(t.tree.set_focus_index(cur), "an index in range takes focus");
    t.agree(cur);
    check(!t.tree.set_focus_index(n), "an index out of range is refused"); t.agree(cur);
    for _ in 0..steps {
        if split(flag()) { check(t.tree.focus_next() == Some((cur + 1) % n), "forward goes to the next widget, round the end"); cur = (cur + 1) % n; }
        else { check(t.tree.focus_previous() == Some((cur + n - 1) % n), "backward goes to the previous widget, round the start"); cur = (cur + n - 1) % n; }
        t.agree(cur);
    }
    reach("end");
}
#[unsafe(no_mangle)] #[inline(never)] pub fn h_walk() { walk(pick(8), &mut leaf, tier(2, 3)); }
#[unsafe(no_mangle)] #[inline(never)] pub fn h_widgets() {
    walk(0, &mut |i| -> B { match i {
        0 => Box::new(Switch::new(false, |_| 0u32).with_id(IDS[0])),
        1 => Box::new(Button::new("b").with_id(IDS[1]).with_message(1u32)),
        2 => Box::new(Switch::new(true, |_| 2u32).with_id(IDS[2])),
        _ => Box::new(Button::new("c").with_id(IDS[3]).with_on_press(|| 3u32)),
    } }, 2);
}
/// Focus, hide or disable some widgets, focus again (by number or name), bring them back: one focused widget all along.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_change() {
    let kind = pick(8);
    let mut t = tree(kind, &mut leaf);
    let first = pick(4) as usize;
    check(t.tree.set_focus_index(first), "an index in range takes focus"); t.agree(first);
    // something else is hidden or disabled
    let (mut can, mut vis, mut boxes) = ([true; 4], [true; 4], [true; 2]);
    for _ in 0..tier(1, 2) { let k = pick(10) as usize; if k < 4 { can[k] = false; } else if k < 8 { vis[k - 4] = false; } else { boxes[k - 8] = false; } }
    t.set(can, vis, boxes);
    let n = t.count();
    let o = t.order(); if n == 0 { return; }
    let mut cur = pick(n as u64) as usize;
    if split(flag()) { check(t.tree.set_focus_index(cur), "an index in range takes focus"); }
    else {
        check(t.tree.focus_by_id(IDS[o[cur]]), "a shown widget takes focus by name");
        for i in 0..4 { if !o.contains(&i) { check(!t.tree.focus_by_id(IDS[i]), "a widget that cannot take focus does not by name"); } }
    }
    t.agree(cur);
    check(!t.tree.focus_by_id("nope"), "an unknown name takes no focus");
    t.agree(cur);
    // all shown again: the focused widget is still the one
    t.set([true; 4], [true; 4], [true; 2]);
    let w = o[cur];
    for i in 0..4 { check(at(&mut t.tree, PATHS[i]).is_focused() == (i == w), "widgets shown again are not focused"); }
    check(t.tree.dispatch_key(KeyCode::Enter) == Some(w as u32), "a key still goes to the focused widget");
    cur = pick(4) as usize;
    check(t.tree.set_focus_index(cur), "an index in range takes focus"); t.agree(cur);
    if split(flag()) { check(t.tree.focus_next() == Some((cur + 1) % 4), "forward goes to the next widget"); t.agree((cur + 1) % 4); }
    else { check(t.tree.focus_previous() == Some((cur + 3) % 4), "backward goes to the previous widget"); t.agree((cur + 3) % 4); }
    reach("end");
}
/// A container that may rewrite or stop a message on its way up.
struct Pane { ix: u32, act: u8, kids: Vec<B>, log: Rc<RefCell<Vec<(u32, u32)>>> }
impl Widget<u32> for Pane {
    fn render(&self, _: &mut Canvas, _: Region) {}
    fn desired_size(&self) -> Size { Size::new(1, 1) }
    fn child_count(&self) -> usize { self.kids.len() }
    fn get_child_mut(&mut self, i: usize) -> Option<&mut (dyn Widget<u32> + '_)> { match self.kids.get_mut(i) { Some(c) => Some(c.as_mut()), None => None } }
    fn count_focusable(&self) -> usize { self.kids.iter().map(|c| c.count_focusable()).sum() }
    fn focus_nth(&mut self, mut n: usize) -> bool { for c in &mut self.kids { let k = c.count_focusable(); if n < k { return c.focus_nth(n); } n -= k; } false }
    fn clear_focus(&mut self) { for c in &mut self.kids { c.clear_focus(); } }
    fn handle_message(&mut self, e: &mut MessageEnvelope<u32>) -> Option<u32> {
        self.log.borrow_mut().push((self.ix, e.message));
        if self.act & 2 != 0 { e.stop(); }
        if self.act & 1 != 0 { Some(e.message * 10 + self.ix) } else { None }
    }
}
/// A message goes from the parent of the focused widget to the root, each one hearing it once, until stopped.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_bubble() {
    let log = Rc::new(RefCell::new(Vec::new()));
    let acts: [u8; 4] = [pick(4) as u8, pick(4) as u8, pick(4) as u8, pick(4) as u8];
    let pane = |ix: u32, kids: Vec<B>| -> B { Box::new(Pane { ix, act: acts[ix as usize], kids, log: log.clone() }) };
    // root 1 > [leaf 0, pane 2 > [leaf 1, box > pane 3 > [leaf 2]], pane 0 > [leaf 3]]
    let p3 = pane(3, vec![leaf(2)]);
    let p2 = pane(2, vec![leaf(1), Box::new(Container::new(vec![p3]))]);
    let p0 = pane(0, vec![leaf(3)]);
    let root = pane(1, vec![leaf(0), p2, p0]);
    let mut tree = WidgetTree::new(root);
    let f = pick(4) as usize;
    check(tree.set_focus_index(f), "an index in range takes focus");
    let up: &[u32] = match f { 0 => &[1], 1 => &[2, 1], 2 => &[3, 2, 1], _ => &[0, 1] };
    let out = tree.bubble_message(MessageEnvelope::new(7, Some(IDS[f]), "Leaf"));
    let (mut m, mut want, mut stopped) = (7u32, Vec::new(), false);
    for &p in up { if stopped { break; } want.push((p, m)); let a = acts[p as usize]; if a & 2 != 0 { stopped = true; } if a & 1 != 0 { m = m * 10 + p; } }
    check(*log.borrow() == want, "the ancestors hear the message in turn, until one stops it");
    check(out.message == m, "the message carries what the ancestors made of it");
    check(out.is_bubbling() != stopped, "a stopped message is marked so");
    check(out.sender_id.as_deref() == Some(IDS[f]) && out.sender_type == "Leaf", "the sender stays");
    reach("end");
}
entries!(h_walk, h_widgets, h_change, h_bubble);
