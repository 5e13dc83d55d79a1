//! P24: buttons and switches.
use harness::*;
use crossterm::event::{KeyModifiers, MouseButton};
use tcss::{ComputedStyle, WidgetStates};
use tcss::types::{Layout, Scalar};
use textual::containers::container::Container;
use textual::widget::{button::Button, switch::Switch, screen::Screen};
use textual::{Canvas, KeyCode, MouseEvent, MouseEventKind, Region, Size, Widget, clear_all_hover};
type B = Box<dyn Widget<u32>>;
fn ev(kind: MouseEventKind, x: u16, y: u16) -> MouseEvent { MouseEvent { kind, column: x, row: y, modifiers: KeyModifiers::NONE } }
const L: MouseButton = MouseButton::Left;
const R: MouseButton = MouseButton::Right;
/// What the user sees of a button or switch.
struct Model { value: bool, active: bool, hover: bool, focus: bool, off: bool }
fn place() -> (Region, impl Fn(u16, u16) -> bool) {
    let (x, y, w, h) = (range(0, 300) as i32, range(0, 300) as i32, range(0, 40) as i32, range(0, 10) as i32);
    (Region::new(x, y, w, h), move |mx: u16, my: u16| { let (mx, my) = (mx as i32, my as i32); and(and(mx >= x, mx < x + w), and(my >= y, my < y + h)) })
}
fn state(w: &dyn Widget<u32>, m: &Model) {
    let s = w.get_state();
    check(s.contains(WidgetStates::HOVER) == m.hover, "it looks hovered just when the pointer is on it");
    check(s.contains(WidgetStates::ACTIVE) == m.active, "it looks pressed just while it is");
    check(s.contains(WidgetStates::FOCUS) == m.focus && w.is_focused() == m.focus, "it looks focused just when it is");
    check(s.contains(WidgetStates::DISABLED) == m.off && w.is_disabled() == m.off, "it looks disabled just when it is");
    check(w.is_focusable() == !m.off, "it takes focus just while enabled");
}
/// One event: Some(true) when it should fire.
fn step(w: &mut dyn Widget<u32>, m: &mut Model, keys_need_focus: bool, n: u64) -> (Option<u32>, bool) {
    let (reg, inside) = place();
    let (x, y) = (bits(9) as u16, bits(9) as u16);
    let (kind, key) = match pick(n) {
        0 => (Some(MouseEventKind::Down(L)), None), 1 => (Some(MouseEventKind::Up(L)), None), 2 => (Some(MouseEventKind::Moved), None),
        3 => (None, Some(KeyCode::Enter)), 4 => (None, Some(KeyCode::Char(' '))), 5 => (None, Some(KeyCode::Char('x'))),
        6 => { let b = split(flag()); w.set_disabled(b); m.off = b; (None, None) }
        7 => { let b = split(flag()); w.set_focus(b); m.focus = b; (None, None) }
        8 => { w.clear_hover(); m.hover = false; m.active = false; (None, None) }
        9 => { let b = split(flag()); let was = m.hover; check(w.set_hover(b) == (was != b), "a change is reported"); m.hover = b; (None, None) }
        10 => (Some(MouseEventKind::ScrollDown), None),
        12 => (Some(MouseEventKind::Down(R)), None), 13 => (Some(MouseEventKind::Up(R)), None),
        _ => (Some(MouseEventKind::Drag(L)), None),
    };
    w.mark_clean();
    let before = (m.value, m.active, m.hover, m.focus, m.off);
    let mut fire = false; let mut got = None;
    if let Some(k) = key {
        got = w.on_event(k);
        fire = k != KeyCode::Char('x') && !m.off && (m.focus || !keys_need_focus);
    }
    if let Some(k) = kind {
        let i = split(inside(x, y));
        note!("{:?} at {x},{y} of {:?}", k, reg);
        got = w.on_mouse(ev(k, x, y), reg);
        match k {
            MouseEventKind::Down(L) => if i && !m.off { m.active = true; },
            MouseEventKind::Up(L) => { fire = m.active && i && !m.off; m.active = false; }
            MouseEventKind::Moved => m.hover = i,
            _ => {}
        }
    }
    if fire { m.value = !m.value; }
    if key.is_some() || kind.is_some() {
        check(imp(before.1 != m.active || before.2 != m.hover || before.3 != m.focus, w.is_dirty()), "what changed will be drawn anew");
    }
    state(w, m);
    (got, fire)
}
#[unsafe(no_mangle)] #[inline(never)] pub fn h_button() {
    let mut b: Button<u32> = Button::new("ok"); let act = split(flag());
    if act { b = b.with_action("go"); } else { b = b.with_message(7); }
    let mut m = Model { value: false, active: false, hover: false, focus: false, off: split(flag()) };
    b.set_disabled(m.off);
    for _ in 0..tier(3, 4) {
        let (got, fire) = step(&mut b, &mut m, false, 14);
        let pending = b.take_pending_action();
        if act { check(got.is_none(), "an action is not a message"); check(pending.as_deref() == if fire { Some("go") } else { None }, "a press leaves its action, and nothing else does"); }
        else { check(pending.is_none(), "no action without one"); check(got == if fire { Some(7) } else { None }, "a press sends its message, and nothing else does"); }
    }
    reach("end");
}
#[unsafe(no_mangle)] #[inline(never)] pub fn h_switch() {
    let start = split(flag());
    let mut s = Switch::new(start, |v| 10 + v as u32);
    let mut m = Model { value: start, active: false, hover: false, focus: false, off: split(flag()) };
    s.set_disabled(m.off);
    for i in 0..tier(3, 4) {
        let (got, fire) = step(&mut s, &mut m, true, 12);
        check(got == if fire { Some(10 + m.value as u32) } else { None }, "a toggle sends the new value, and nothing else does");
        check(s.value == m.value, "the value changes on a toggle only");
        if i == 0 && split(flag()) { let v = split(flag()); s.set_value(v); m.value = v; check(s.value == v, "the value can be set"); }
        if i != 1 { continue; }
        let mut c = Canvas::new(12, 1); s.render(&mut c, Region::new(0, 0, 12, 1));
        check(c.to_snapshot().contains("ON") == m.value && c.to_snapshot().contains("OFF") != m.value, "the value is shown");
    }
    reach("end");
}
#[unsafe(no_mangle)] #[inline(never)] pub fn h_loading() {
    let start = split(flag()); let mut s = Switch::new(start, |v| 10 + v as u32);
        // while loading nothing happens
        s.set_loading(true);
        let (reg, _) = place();
        for k in [MouseEventKind::Down(L), MouseEventKind::Up(L)] { check(s.on_mouse(ev(k, bits(9) as u16, bits(9) as u16), reg).is_none(), "a loading switch takes no input"); }
        s.set_focus(true); check(s.on_event(KeyCode::Enter).is_none(), "a loading switch takes no input"); s.set_focus(false);
        check(s.value == start && !s.is_focusable(), "a loading switch stays as it is");
    reach("end");
}
/// In a tree, with the mouse handled as the run loop does.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_click() {
    let mut kids: Vec<B> = vec![];
    let kinds = [pick(2), pick(2)];
    for i in 0..2u32 {
        let mut w: B = if kinds[i as usize] == 0 { Box::new(Button::new("AA").with_message(i)) } else { Box::new(Switch::new(false, move |_| i)) };
        let mut s = ComputedStyle::default(); s.width = Some(Scalar::cells(9.0)); s.height = Some(Scalar::cells(1.0)); s.margin.top = Scalar::cells(1.0); w.set_style(s); kids.push(w);
    }
    let off = pick(3); if off < 2 { kids[off as usize].set_disabled(true); }
    let mut w: B = if split(flag()) { Box::new(Container::new(kids)) } else { Box::new(Screen::new(kids)) };
    let mut s = ComputedStyle::default(); s.layout = Layout::Vertical; w.set_style(s);
    w.on_resize(Size::new(12, 6));
    let reg = Region::new(0, 0, 12, 6); w.render(&mut Canvas::new(12, 6), reg);
    // rows 1 and 3, columns 0..9
    let at = |x: u16, y: u16| ite(and(x < 9, y == 1), 0, ite(and(x < 9, y == 3), 1, 9u64));
    for _ in 0..tier(2, 3) {
        let (x, y, u, v) = (range(0, 11) as u16, range(0, 5) as u16, range(0, 11) as u16, range(0, 5) as u16);
        for (k, a, b) in [(MouseEventKind::Moved, x, y), (MouseEventKind::Down(L), x, y), (MouseEventKind::Drag(L), u, v), (MouseEventKind::Up(L), u, v)] {
            if k == MouseEventKind::Moved { clear_all_hover(&mut *w); }
            let got = w.on_mouse(ev(k, a, b), reg);
            note!("{:?} at {a},{b}: {:?}", k, got);
            let (p, q) = (at(x, y), at(u, v));
            match got {
                None => if k == MouseEventKind::Up(L) { check(or(p != q, or(p == 9, p == off)), "pressing and releasing the same enabled widget clicks it"); },
                Some(i) => { check(k == MouseEventKind::Up(L), "only a release clicks"); check(and(p == q, p == i as u64), "only what was pressed and released is clicked"); check(i as u64 != off, "a disabled widget is not clicked"); }
            }
        }
    }
    reach("end");
}
entries!(h_button, h_switch, h_loading, h_click);
