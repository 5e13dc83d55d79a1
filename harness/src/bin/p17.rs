//! P17: the text input edits at its cursor, one character at a time, and shows its value literally.
use harness::*;
use crossterm::style::Color;
use textual::{Canvas, Input, KeyCode, Region, Widget};
type In = Input<u32>;
/// The reference: the characters as the user sees them, and the place of the cursor among them.
struct M { g: Vec<String>, cur: usize }
impl M {
    fn text(&self) -> String { self.g.concat() }
    fn agree(&self, i: &In) {
        check(i.value() == self.text(), "the value is what the edits make it");
        check(i.cursor() == self.cur, "the cursor stands where the edits leave it");
    }
}
const COMB: char = '\u{301}';
fn key(i: &mut In, m: &mut M, chars: &dyn Fn() -> char, insert_weight: u64) {
    let n = m.g.len();
    match pick(6 + insert_weight) {
        0 => { check(i.on_event(KeyCode::Backspace).is_none(), "editing emits nothing"); if m.cur > 0 { m.cur -= 1; m.g.remove(m.cur); } }
        1 => { i.on_event(KeyCode::Delete); if m.cur < n { m.g.remove(m.cur); } }
        2 => { i.on_event(KeyCode::Left); m.cur = m.cur.saturating_sub(1); }
        3 => { i.on_event(KeyCode::Right); if m.cur < n { m.cur += 1; } }
        4 => { i.on_event(KeyCode::Home); m.cur = 0; }
        5 => { i.on_event(KeyCode::End); m.cur = n; }
        _ => {
            let c = chars();
            i.on_event(KeyCode::Char(c));
            if c == COMB && m.cur > 0 { m.g[m.cur - 1].push(c); }
            else { m.g.insert(m.cur, c.to_string()); m.cur += 1; if m.cur < m.g.len() && m.g[m.cur].starts_with(COMB) { let t = m.g.remove(m.cur); m.g[m.cur - 1].push_str(&t); } }
        }
    }
    m.agree(i);
}
/// Any letters, digits and signs; every sequence of keys.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_edit() {
    let mut i = In::new(); i.set_focus(split(flag()));
    let mut m = M { g: vec![], cur: 0 };
    for _ in 0..3 { let c = range(0x20, 0x7e) as u8 as char; i.on_event(KeyCode::Char(c)); m.g.push(c.to_string()); m.cur += 1; }
    m.agree(&i);
    for _ in 0..tier(4, 5) { key(&mut i, &mut m, &|| range(0x20, 0x7e) as u8 as char, 1); }
    reach("end");
}
/// Double-width and combining characters are edited as one.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_clusters() {
    let mut i = In::new(); i.set_focus(true);
    let mut m = M { g: vec![], cur: 0 };
    i.on_event(KeyCode::Char('e')); m.g.push("e".into()); m.cur = 1;
    for _ in 0..tier(5, 6) { key(&mut i, &mut m, &|| ['漢', COMB, 'x'][pick(3) as usize], 1); }
    reach("end");
}
/// Setting the value or the cursor keeps the cursor within the value.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_set() {
    let mut i = In::new(); i.set_focus(true);
    let vals = ["", "ab", "e\u{301}x", "漢字b"]; let lens = [0, 2, 2, 3];
    let a = pick(4) as usize; let b = pick(4) as usize;
    i.set_value(vals[a]); check(i.value() == vals[a] && i.cursor() == 0, "a value set leaves the cursor at the start");
    let c = bits(32) as usize; i.set_cursor(c);
    let want = if c < lens[a] { c } else { lens[a] };
    check(i.cursor() == want, "the cursor is held within the value");
    i.set_value(vals[b]); let want = if want < lens[b] { want } else { lens[b] };
    check(i.value() == vals[b] && i.cursor() == want, "a shorter value brings the cursor back to its end");
    i.set_disabled(true); i.on_event(KeyCode::Char('z')); i.on_event(KeyCode::Backspace); i.on_event(KeyCode::Left);
    check(i.value() == vals[b] && i.cursor() == want, "a disabled input takes no keys");
    reach("end");
}
fn colours() -> (Option<Color>, Option<Color>) { (Some(Color::Rgb { r: 0x12, g: 0x12, b: 0x12 }), Some(Color::Rgb { r: 0xe0, g: 0xe0, b: 0xe0 })) }
/// What is drawn is the value itself, brackets and backslashes included, with the cursor on its character when focused.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_show() {
    let n = pick(tier(4, 6)) as usize;
    let mut v = Vec::new();
    for _ in 0..n { v.push(match pick(5) { 0 => '[', 1 => ']', 2 => '\\', 3 => '/', _ => range(b'a' as i64, b'z' as i64) as u8 as char }); }
    show(&v);
}
/// Longer values.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_show_long() {
    let n = 4 + pick(tier(6, 12)) as usize;
    let v: Vec<char> = (0..n).map(|_| range(b'a' as i64, b'z' as i64) as u8 as char).collect();
    show(&v);
}
fn show(v: &[char]) {
    let n = v.len(); let focus = split(flag()); const W: usize = 17;
    let cur = pick(n as u64 + 1) as usize;
    let mut i = In::new();
    let ph = split(flag()); if ph { i.set_placeholder("p["); }
    i.set_value(v.iter().collect::<String>()); i.set_cursor(cur); i.set_focus(focus);
    i.set_style(tcss::ComputedStyle::default());
    let mut c = Canvas::new(W as u16, 1);
    i.render(&mut c, Region::new(0, 0, W as i32, 1));
    let (fg, bg) = colours();
    for x in 0..W {
        let k = c.cell_at(x);
        let want = if n == 0 && ph { if x == 0 { 'p' } else if x == 1 { '[' } else { ' ' } } else if x < n { v[x] } else { ' ' };
        check(c.get_char(x as i32, 0) == want, "the text shown is the value, character by character");
        let on = focus && x == cur;
        check((k.bg == bg) == on && imp(on, k.fg == fg), "the cursor is on its character, and only when focused");
    }
    reach("end");
}
entries!(h_edit, h_clusters, h_set, h_show, h_show_long);
