//! P16: a query finds exactly the matching widgets, in document order, and bulk changes reach all of them and no others.
use harness::*;
use textual::containers::{container::Container, horizontal::Horizontal, horizontal_scroll::HorizontalScroll, scrollable::ScrollableContainer, vertical::Vertical, vertical_scroll::VerticalScroll};
use textual::tree::{WidgetTree, parse_simple_selector};
use textual::widget::{button::Button, placeholder::Placeholder, ruler::Ruler};
use textual::{Canvas, Label, Region, Size, Static, Widget};
use textual::{clear_all_hover, collect_pending_actions_mut, find_hovered_tooltip_mut};
use tcss::WidgetStates;
type B = Box<dyn Widget<u32>>;
/// A widget with a name, a type, classes and children.
struct Node { ix: u32, id: Option<String>, ty: &'static str, on: bool, vis: bool, dis: bool, dirty: bool, hover: bool, tip: bool, act: std::cell::Cell<bool>, classes: Vec<String>, kids: Vec<B> }
impl Widget<u32> for Node {
    fn render(&self, _: &mut Canvas, _: Region) {}
    fn desired_size(&self) -> Size { Size::new(1, 1) }
    fn id(&self) -> Option<&str> { self.id.as_deref() }
    fn type_name(&self) -> &'static str { self.ty }
    fn child_count(&self) -> usize { self.kids.len() }
    fn get_child_mut(&mut self, i: usize) -> Option<&mut (dyn Widget<u32> + '_)> { match self.kids.get_mut(i) { Some(c) => Some(c.as_mut()), None => None } }
    fn for_each_child(&mut self, f: &mut dyn FnMut(&mut dyn Widget<u32>)) { for c in &mut self.kids { f(c.as_mut()); } }
    fn on_event(&mut self, _: textual::KeyCode) -> Option<u32> { Some(self.ix) }
    fn is_loading(&self) -> bool { self.on }
    fn is_visible(&self) -> bool { self.vis }
    fn set_visible(&mut self, v: bool) { self.vis = v; }
    fn is_disabled(&self) -> bool { self.dis }
    fn set_disabled(&mut self, v: bool) { self.dis = v; }
    fn is_dirty(&self) -> bool { self.dirty }
    fn mark_dirty(&mut self) { self.dirty = true; }
    fn clear_hover(&mut self) { self.hover = false; }
    fn get_state(&self) -> WidgetStates { if self.hover { WidgetStates::HOVER } else { WidgetStates::empty() } }
    fn tooltip(&self) -> Option<String> { if self.tip { Some(format!("t{}", self.ix)) } else { None } }
    fn take_pending_action(&self) -> Option<String> { if self.act.replace(false) { Some(format!("a{}", self.ix)) } else { None } }
    fn add_class(&mut self, c: &str) { if !self.has_class(c) { self.classes.push(c.to_string()); } }
    fn remove_class(&mut self, c: &str) { self.classes.retain(|x| x != c); }
    fn has_class(&self, c: &str) -> bool { self.classes.iter().any(|x| x == c) }
    fn as_any_mut(&mut self) -> Option<&mut dyn std::any::Any> { Some(self) }
}
const N: usize = tier(5, 6);
const TYPES: [&str; 2] = ["Xy", "Z"];
fn tys(k: u64) -> &'static str { TYPES[k as usize] }
/// The widgets' attributes, in document order.
struct W { id: [u8; N], ty: [u64; N], on: [bool; N] }
/// Shape 0: 0[1[2],3[4]]; shape 1: a chain; shape 2: flat. Nodes are numbered in document order.
fn build(shape: u64, w: &W) -> B {
    let mk = |i: usize, kids: Vec<B>| -> B { Box::new(Node { ix: i as u32, id: if w.id[i] == b'-' { None } else { Some((w.id[i] as char).to_string()) }, ty: tys(w.ty[i]), on: w.on[i], vis: true, dis: false, dirty: false, hover: false, tip: false, act: std::cell::Cell::new(false), classes: vec![], kids }) };
    match shape {
        0 => {
            let k3 = if N > 4 { vec![mk(4, vec![])] } else { vec![] };
            let n2 = mk(2, vec![]); let n1 = mk(1, vec![n2]); let n3 = mk(3, k3);
            mk(0, vec![n1, n3])
        }
        1 => { let mut cur = mk(N - 1, vec![]); for i in (0..N - 1).rev() { cur = mk(i, vec![cur]); } cur }
        _ => { let k: Vec<B> = (1..N).map(|i| mk(i, vec![])).collect(); mk(0, k) }
    }
}
fn attrs() -> W {
    let mut w = W { id: [0; N], ty: [0; N], on: [false; N] };
    for i in 0..N { w.id[i] = pick_byte(b"ab-"); w.ty[i] = pick(2); }
    w
}
fn ixs(t: &mut WidgetTree<u32>, sel: &str) -> Vec<u32> { let mut v = Vec::new(); t.query(sel).for_each(|x| v.push(x.on_event(textual::KeyCode::Enter).unwrap_or(99))); v }
fn key(x: &mut dyn Widget<u32>) -> u32 { x.on_event(textual::KeyCode::Enter).unwrap_or(99) }
fn matching(w: &W, ty: Option<&str>, id: Option<u8>) -> Vec<u32> {
    (0..N).filter(|&i| (ty.is_some() || id.is_some()) && ty.map_or(true, |t| tys(w.ty[i]) == t) && id.map_or(true, |d| w.id[i] == d)).map(|i| i as u32).collect()
}
/// Every way to ask gives the same widgets.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_query() {
    let w = attrs();
    let mut t = WidgetTree::new(build(pick(3), &w));
    let (sel, ty, id): (&str, Option<&str>, Option<u8>) = match pick(6) {
        0 => ("#a", None, Some(b'a')), 1 => ("#c", None, Some(b'c')), 2 => ("Xy", Some("Xy"), None), 3 => ("Z#b", Some("Z"), Some(b'b')), 4 => ("  Xy#a ", Some("Xy"), Some(b'a')), _ => ("X", Some("X"), None),
    };
    let m = matching(&w, ty, id);
    check(ixs(&mut t, sel) == m, "a query visits the matching widgets once each, in document order");
    check(t.query(sel).count() == m.len(), "the count is that of the matching widgets");
    check(t.query(sel).first(|x| key(x)) == m.first().copied(), "first is the first");
    check(t.query(sel).last(|x| key(x)) == m.last().copied(), "last is the last");
    check(t.query_one(sel, |x| key(x)) == m.first().copied(), "query_one gives the first match");
    check(t.query_one_as::<Node, _, _>(sel, |x| x.ix) == m.first().copied(), "a typed query gives the first match");
    check(t.query_one_as::<u8, _, _>(sel, |_| ()).is_none(), "a typed query for another type gives none");
    match (ty, id) {
        (Some(y), None) => check(t.with_widget_by_type(y, |x| key(x)) == m.first().copied(), "by type: the first of that type"),
        (None, Some(d)) => check(t.with_widget_by_id(if d == b'a' { "a" } else { "c" }, |x| key(x)) == m.first().copied(), "by name: the first of that name"),
        _ => {}
    }
    reach("end");
}
/// Filters narrow a query; bulk changes reach its widgets only.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_bulk() {
    let mut w = W { id: [b'-'; N], ty: [0; N], on: [false; N] };
    for i in 0..N { w.ty[i] = pick(2); w.on[i] = split(flag()); }
    let mut t = WidgetTree::new(build(pick(3), &w));
    let filtered = split(flag());
    let m: Vec<u32> = matching(&w, Some("Z"), None).into_iter().filter(|&i| !filtered || w.on[i as usize]).collect();
    macro_rules! q { () => { if filtered { t.query("Z").filter(|x| x.is_loading()) } else { t.query("Z") } } }
    let mut seen = Vec::new(); q!().for_each(|x| seen.push(key(x)));
    check(seen == m && q!().count() == m.len(), "a filter keeps exactly the widgets that pass it");
    check(q!().first(|x| key(x)) == m.first().copied() && q!().last(|x| key(x)) == m.last().copied(), "first and last respect the filter");
    t.query("Xy").add_class("k");
    q!().add_class("c"); q!().add_class("d"); q!().remove_class("d");
    q!().toggle_class("e"); q!().set_class(true, "f"); q!().set_class(false, "c");
    q!().set_visible(false); q!().set_disabled(true); q!().mark_dirty();
    let mut n = 0;
    for sel in TYPES { t.query(sel).for_each(|x| {
        n += 1;
        let i = key(x); let hit = m.contains(&i);
        check(x.has_class("e") == hit && x.has_class("f") == hit && !x.has_class("c") && !x.has_class("d"), "class changes reach the query's widgets only");
        check(x.has_class("k") == (w.ty[i as usize] == 0), "and leave other classes");
        check(x.is_visible() != hit && x.is_disabled() == hit && x.is_dirty() == hit, "state changes reach the query's widgets only");
    }); }
    check(n == N, "no widget is lost");
    q!().toggle_class("e"); let mut e = 0; for sel in TYPES { t.query(sel).for_each(|x| if x.has_class("e") { e += 1; }); }
    check(e == 0, "toggling twice restores");
    reach("end");
}
/// Selector text: a type, a #name, or both, blanks around ignored.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_selector() {
    let n = tier(5, 6); let s = ascii(n);
    let b = s.as_bytes();
    for i in 0..n { assume(or(b[i] >= b' ', b[i] == b'\n')); }
    let p = parse_simple_selector(&s);
    let ws = |c: u8| c == b' ' || c == b'\n';
    let (mut lo, mut hi) = (0, n);
    while lo < hi && ws(b[lo]) { lo += 1; }
    while hi > lo && ws(b[hi - 1]) { hi -= 1; }
    let h = (lo..hi).find(|&i| b[i] == b'#');
    let (ty, id) = match h { None => (&s[lo..hi], ""), Some(k) => (&s[lo..k], &s[k + 1..hi]) };
    check(p.type_name.as_deref().unwrap_or("") == ty, "the type is what precedes the first #");
    check(p.id.as_deref().unwrap_or("") == id, "the name is what follows it");
    reach("end");
}
/// Actions are collected once, in document order; hover is cleared everywhere; the tooltip is a hovered widget's.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_collect() {
    let w = W { id: [b'-'; N], ty: [0; N], on: [false; N] };
    let mut root = build(pick(3), &w);
    let (mut hov, mut tip, mut act) = ([false; N], [false; N], [false; N]);
    for i in 0..N { match pick(6) { 0 => {}, 1 => hov[i] = true, 2 => tip[i] = true, 3 => { hov[i] = true; tip[i] = true; }, 4 => act[i] = true, _ => { act[i] = true; hov[i] = true; } } }
    fn each(x: &mut dyn Widget<u32>, f: &mut dyn FnMut(&mut Node)) { if let Some(n) = x.as_any_mut().and_then(|a| a.downcast_mut::<Node>()) { f(n); } for i in 0..x.child_count() { if let Some(c) = x.get_child_mut(i) { each(c, f); } } }
    each(root.as_mut(), &mut |n| { let i = n.ix as usize; n.hover = hov[i]; n.tip = tip[i]; n.act.set(act[i]); });
    let want: Vec<String> = (0..N).filter(|&i| act[i]).map(|i| format!("a{i}")).collect();
    check(collect_pending_actions_mut(root.as_mut()) == want, "pending actions are collected in document order");
    check(collect_pending_actions_mut(root.as_mut()).is_empty(), "and once only");
    let tt = (0..N).find(|&i| hov[i] && tip[i]).map(|i| format!("t{i}"));
    check(find_hovered_tooltip_mut(root.as_mut()) == tt, "the tooltip is that of the first hovered widget that has one");
    clear_all_hover(root.as_mut());
    each(root.as_mut(), &mut |n| check(!n.hover, "hover is cleared on every widget"));
    check(find_hovered_tooltip_mut(root.as_mut()).is_none(), "with nothing hovered there is no tooltip");
    reach("end");
}
/// Classes of the library's own widgets are a set, and the one style matching reads.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_classes() {
    let mut x: B = match pick(11) {
        0 => Box::new(Static::new("s")), 1 => Box::new(Label::new("l")), 2 => Box::new(Button::new("b")), 3 => Box::new(Container::new(vec![])), 4 => Box::new(Vertical::new(vec![])),
        5 => Box::new(Horizontal::new(vec![])), 6 => Box::new(ScrollableContainer::new(vec![])), 7 => Box::new(VerticalScroll::new(vec![])), 8 => Box::new(HorizontalScroll::new(vec![])), 9 => Box::new(Placeholder::new()), _ => Box::new(Ruler::horizontal()),
    };
    const C: [&str; 3] = ["p", "q", "pq"];
    let base = x.classes();
    let mut has = [false; 3];
    for _ in 0..tier(3, 4) {
        let k = pick(3) as usize;
        x.mark_clean();
        let before = has;
        match pick(5) {
            0 => { x.add_class(C[k]); has[k] = true; }
            1 => { x.remove_class(C[k]); has[k] = false; }
            2 => { x.toggle_class(C[k]); has[k] = !has[k]; }
            3 => { let on = split(flag()); x.set_class(on, C[k]); has[k] = on; }
            _ => { x.set_classes(if k == 0 { "" } else if k == 1 { "p  q p" } else { " pq\tpq " }); has = [k == 1, k == 1, k == 2]; }
        }
        for i in 0..3 { check(x.has_class(C[i]) == has[i], "a widget has the classes given and not taken away"); }
        let m = x.get_meta().classes;
        for i in 0..3 { check(m.iter().any(|c| c == C[i]) == has[i] && x.classes().iter().any(|c| c == C[i]) == has[i], "style matching sees those classes"); }
        if before != has { check(x.is_dirty(), "a change of classes asks for new styles"); }
    }
    let _ = base;
    reach("end");
}
entries!(h_query, h_bulk, h_selector, h_collect, h_classes);
