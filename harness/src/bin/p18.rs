//! P18: the option list's selection, highlighting, clicks and texts.
use crossterm::event::{KeyModifiers, MouseButton};
use harness::*;
use tcss::ComputedStyle;
use tcss::types::{TextWrap, Border, BorderEdge, BorderKind, Overflow, Scalar};
use textual::widget::option_list::{OptionItem, OptionList};
use textual::{Canvas, KeyCode, MouseEvent, MouseEventKind, Region, Widget};
const TEXT: [&str; 4] = ["AAA", "BB", "C", "DDDD"];
fn items(n: usize, off: u64) -> Vec<OptionItem> { (0..n).map(|i| OptionItem::new(TEXT[i]).disabled(split(off >> i & 1 == 1))).collect() }
fn list(n: usize, off: u64) -> OptionList<u32> { OptionList::new(vec![]).with_items_with_state(items(n, off)) }
/// The enabled option nearest to `from` in direction `d`, `from` excluded.
fn near(n: usize, off: u64, from: usize, d: i64) -> Option<usize> {
    let mut i = from as i64 + d;
    while i >= 0 && i < n as i64 { if split(off >> i & 1 == 0) { return Some(i as usize); } i += d; }
    None
}
fn settle(n: usize, off: u64, at: usize) -> usize {
    if n == 0 { return 0; }
    let at = at.min(n - 1);
    if split(off >> at & 1 == 0) { return at; }
    near(n, off, at, 1).or(near(n, off, at, -1)).unwrap_or(at)
}
fn looks(l: &mut OptionList<u32>, n: usize, off: u64, at: usize) {
    check(l.items().len() == n, "the options are those given");
    if n == 0 { check(l.selected().is_none(), "an empty list has no selection"); }
    else {
        check(l.selected_index() == at, "the selection is where it should be");
        check(l.selected() == Some(TEXT[at]), "the selected text is that of the selected option");
    }
    let mut ix = 0;
    l.for_each_child(&mut |c| {
        let high = c.has_class("option-list--option-highlighted"); let gray = c.has_class("option-list--option-disabled");
        if n == 0 { check(!high && !gray, "an empty list highlights nothing"); }
        else {
            check(ix < n, "one row per option");
            let o = split(off >> ix & 1 == 1);
            check(high == (ix == at && !o), "exactly the selected option is highlighted");
            check(gray == o && c.is_disabled() == o, "exactly the disabled options look so");
        }
        ix += 1;
    });
    check(ix == n.max(1), "one row per option");
}
/// Any history of keys, selections and new contents.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_select() {
    let mut n = pick(5) as usize; let mut off = range(0, 15) as u64;
    let mut l = list(n, off); let mut at = settle(n, off, 0);
    looks(&mut l, n, off, at);
    for _ in 0..tier(2, 3) {
        match pick(5) {
            0 => { l.on_event(KeyCode::Up); if n > 0 { at = near(n, off, at, -1).unwrap_or(at); } }
            1 => { l.on_event(KeyCode::Down); if n > 0 { at = near(n, off, at, 1).unwrap_or(at); } }
            2 => { let i = bits(64) as usize; l.set_selected(i); let i = if split(i < 4) { below(4).min(3) as usize * 0 + (0..4).find(|k| split(*k == i)).unwrap_or(3) } else { 4 }; at = settle(n, off, i); }
            3 => { n = pick(5) as usize; off = range(0, 15) as u64; l.set_items_with_state(items(n, off)); at = settle(n, off, at); }
            _ => { n = pick(5) as usize; off = 0; l.set_items(TEXT[..n].iter().map(|s| s.to_string()).collect()); at = settle(n, 0, at); }
        }
        looks(&mut l, n, off, at);
        check(l.take_pending_selection().is_none(), "only a click chooses");
    }
    reach("end");
}
/// A disabled or hidden list ignores keys and clicks.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_off() {
    let mut l = list(3, 0); l.set_selected(1);
    if split(flag()) { l.set_disabled(true); } else { l.set_visible(false); }
    let reg = Region::new(0, 0, 8, 5);
    l.render(&mut Canvas::new(8, 5), reg);
    l.on_event(if split(flag()) { KeyCode::Up } else { KeyCode::Down });
    l.on_mouse(MouseEvent { kind: MouseEventKind::Up(MouseButton::Left), column: range(0, 7) as u16, row: range(0, 4) as u16, modifiers: KeyModifiers::NONE }, reg);
    check(l.selected_index() == 1, "the selection stays"); check(l.take_pending_selection().is_none(), "nothing is chosen");
    check(!l.is_focusable(), "it takes no focus");
    reach("end");
}
const W: u16 = 9; const H: u16 = 6;
/// A click chooses the option drawn in that row.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_click() {
    let texts = [["A", "B", "C", "D"], ["A", "B\nB", "C", "D"], ["A\nA\nA", "B", "C\nC", "D"]][pick(3) as usize];
    let off = [0, 2, 5, 15][pick(4) as usize] as u64;
    let n = 4 - pick(2) as usize * 3;
    let mut l: OptionList<u32> = OptionList::new(vec![]).with_items_with_state((0..n).map(|i| OptionItem::new(texts[i]).disabled(off >> i & 1 == 1)).collect());
    let mut s = l.get_style();
    if split(flag()) { s.border = Border::all(BorderEdge { kind: BorderKind::Round, color: None }); }
    if split(flag()) { s.padding.top = Scalar::cells(1.0); }
    s.overflow_y = [Overflow::Hidden, Overflow::Auto, Overflow::Scroll][pick(3) as usize];
    l.set_style(s);
    let sel = pick(2) as usize * 3; l.set_selected(sel);
    let reg = Region::new(1, 1, W as i32 - 2, H as i32 - 1);
    l.render(&mut Canvas::new(W, H), reg);
    let ticks = pick(3);
    for _ in 0..ticks { l.on_mouse(MouseEvent { kind: MouseEventKind::ScrollDown, column: 3, row: 2, modifiers: KeyModifiers::NONE }, reg); }
    let mut c = Canvas::new(W, H); l.render(&mut c, reg);
    let was = l.selected_index(); check(l.take_pending_selection().is_none(), "scrolling chooses nothing");
    let x = range(0, W as i64 - 1) as u16; let y = range(0, H as i64 - 1) as u16;
    let kind = match pick(4) { 0 => MouseEventKind::Down(MouseButton::Left), 1 => MouseEventKind::Up(MouseButton::Right), _ => MouseEventKind::Up(MouseButton::Left) };
    l.on_mouse(MouseEvent { kind, column: x, row: y, modifiers: KeyModifiers::NONE }, reg);
    let got = l.take_pending_selection(); let now = l.selected_index();
    note!("{:?} at {x},{y} chosen {:?} selected {now}\n{}", kind, got, c.to_snapshot());
    // what is drawn in the row, and where
    let mut want = 9u64; let mut inside = false;
    for r in 0..H as i32 {
        let mut g = 9u64; let mut first = 0;
        for k in 0..W as i32 { let ch = c.get_char(k, r); if ch >= 'A' && ch <= 'D' { g = ch as u64 - 'A' as u64; first = k; } }
        want = ite(y as i32 == r, g, want);
        inside = or(inside, and(y as i32 == r, and(g != 9, x as i32 == first)));
    }
    if kind != MouseEventKind::Up(MouseButton::Left) { check(got.is_none() && now == was, "only a left click chooses"); }
    else {
        match got {
            Some(i) => { check(want == i as u64, "a click chooses the option drawn there"); check(now == i, "and selects it"); check(off >> i & 1 == 0, "a disabled option cannot be chosen"); }
            None => {
                check(now == was, "without a choice the selection stays");
                let mut dis = false; for i in 0..n { if off >> i & 1 == 1 { dis = or(dis, want == i as u64); } }
                check(imp(inside, dis), "a click on an enabled option's text chooses it");
            }
        }
    }
    reach("end");
}
/// Texts are shown as they are, whatever markup they resemble.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_text() {
    let k = ['[', ']', '\\', '/', 'b', '=', '(', ' '];
    let len = pick(tier(4, 5)) as usize;
    let mut t = String::new(); for _ in 0..len { t.push(k[pick(k.len() as u64) as usize]); }
    let mut l: OptionList<u32> = OptionList::new(vec!["x".to_string(), t.clone(), "y".to_string()]);
    // the list's default style sheet
    l.for_each_child(&mut |c| { let mut s = c.get_style(); s.text_wrap = TextWrap::NoWrap; c.set_style(s); });
    let mut c = Canvas::new(9, 4); l.render(&mut c, Region::new(0, 0, 9, 4));
    note!("{:?}\n{}", t, c.to_snapshot());
    check(c.get_char(0, 0) == 'x', "the option before is shown");
    for (i, ch) in t.chars().enumerate() { check(c.get_char(i as i32, 1) == ch, "the text is shown as is"); }
    for i in len..9 { check(c.get_char(i as i32, 1) == ' ', "and nothing else"); }
    check(c.get_char(0, 2) == 'y', "the option after is shown");
    reach("end");
}
entries!(h_select, h_off, h_click, h_text);
