//! P20: scrolling shows every part of the content, and only the content moves.
use crossterm::event::{KeyModifiers, MouseButton};
use crossterm::style::Color;
use harness::*;
use std::cell::Cell;
use std::rc::Rc;
use tcss::ComputedStyle;
use tcss::types::{Border, BorderEdge, BorderKind, Layout, Overflow, RgbaColor, Scalar};
use textual::containers::{container::Container, horizontal_scroll::HorizontalScroll, scrollable::ScrollableContainer, vertical_scroll::VerticalScroll};
use textual::widget::screen::Screen;
use textual::{Canvas, KeyCode, MouseEvent, MouseEventKind, Region, Size, Widget};
type B = Box<dyn Widget<u32>>;
struct Probe { ix: usize, w: u16, h: u16, style: ComputedStyle }
fn glyph(ix: usize, x: i32, y: i32) -> char { char::from_u32([0x100, 0x1E00][ix] + y as u32 * 18 + x as u32).unwrap() }
fn content(ch: char) -> bool { matches!(ch as u32, 0x100..=0x2AF | 0x1E00..=0x1EFF) }
impl Widget<u32> for Probe {
    fn render(&self, c: &mut Canvas, r: Region) {
        for y in 0..r.height { for x in 0..r.width { c.put_char(r.x + x, r.y + y, glyph(self.ix, x, y), None, None, Default::default()); } }
    }
    fn desired_size(&self) -> Size { Size::new(self.w, self.h) }
    fn get_style(&self) -> ComputedStyle { self.style.clone() }
    fn set_style(&mut self, s: ComputedStyle) { self.style = s; }
}
const W: i32 = 9; const H: i32 = 7;
fn painted(c: &Canvas, x: i32, y: i32, k: u8) -> bool {
    let cell = c.cell_at((y * W + x) as usize);
    let is = |q: &Option<Color>| matches!(q, Some(Color::Rgb { r, g, b }) if *r == k && *g == k && *b == k);
    is(&cell.fg) || is(&cell.bg)
}
fn cells(n: i32) -> Scalar { Scalar::cells(n as f64) }
/// The container under test with what is known about it from outside.
struct Case { w: B, reg: Region, inner: Region, child: [Region; 2], size: (i32, i32), bars: (bool, bool), room: (i32, i32), at: (i32, i32), step: i32, kind: u64, ox: Overflow, oy: Overflow, bar: (i32, i32), alt: bool }
fn over(o: Overflow, need: i32, room: i32) -> bool { o == Overflow::Scroll || (o == Overflow::Auto && need > room) }
fn case(kind: u64, sizes: &[[(i32, i32); 2]], ov: bool) -> Case {
    let horiz = if kind == 3 { false } else if kind == 4 { true } else { (ov || tier(0, 1) == 1) && split(flag()) };
    let size = sizes[pick(sizes.len() as u64) as usize];
    let margin = if (ov || tier(0, 1) == 1) && split(flag()) { 1 } else { 0 };
    let mut kids: Vec<B> = vec![];
    for ix in 0..2 {
        let mut s = ComputedStyle::default();
        s.width = Some(cells(size[ix].0)); s.height = Some(cells(size[ix].1));
        if horiz { s.margin.right = cells(margin); } else { s.margin.bottom = cells(margin); }
        kids.push(Box::new(Probe { ix, w: size[ix].0 as u16, h: size[ix].1 as u16, style: s }));
    }
    let mut w: B = match kind { 0 => Box::new(Container::new(kids)), 1 => Box::new(ScrollableContainer::new(kids)), 2 => Box::new(Screen::new(kids)), 3 => Box::new(VerticalScroll::new(kids)), _ => Box::new(HorizontalScroll::new(kids)) };
    let mut s = ComputedStyle::default();
    s.layout = if horiz { Layout::Horizontal } else { Layout::Vertical };
    let frame = (ov || tier(0, 1) == 1) && split(flag());
    if frame { s.border = Border::all(BorderEdge { kind: BorderKind::Round, color: None }); s.padding.left = cells(1); }
    let o = [Overflow::Hidden, Overflow::Auto, Overflow::Scroll];
    let (ox, oy) = match kind { 3 => (Overflow::Hidden, Overflow::Auto), 4 => (Overflow::Auto, Overflow::Hidden), _ if ov => (o[pick(3) as usize], o[pick(3) as usize]), _ => (Overflow::Auto, Overflow::Auto) };
    s.overflow_x = ox; s.overflow_y = oy;
    let bar = if tier(0, 1) == 1 && split(flag()) { (1, 1) } else { (2, 1) };
    s.scrollbar.size.vertical = bar.0 as u16; s.scrollbar.size.horizontal = bar.1 as u16;
    s.scrollbar.color = Some(RgbaColor::rgb(9, 9, 9)); s.scrollbar.background = Some(RgbaColor::rgb(8, 8, 8));
    s.scrollbar.corner_color = Some(RgbaColor::rgb(7, 7, 7));
    w.set_style(s);
    let reg = if kind == 2 { Region::new(0, 0, W, H) } else { Region::new(1, 1, W - 1, H - 1) };
    let f = frame as i32;
    let inner = Region::new(reg.x + 2 * f, reg.y + f, reg.width - 3 * f, reg.height - 2 * f);
    let mut child = [Region::new(inner.x, inner.y, size[0].0, size[0].1); 2];
    child[1] = if horiz { Region::new(inner.x + size[0].0 + margin, inner.y, size[1].0, size[1].1) } else { Region::new(inner.x, inner.y + size[0].1 + margin, size[1].0, size[1].1) };
    let far = |f: fn(&Region) -> i32, o: i32, m: i32| f(&child[0]).max(f(&child[1])) + m - o;
    let size = (far(|r| r.x + r.width, inner.x, if horiz { margin } else { 0 }), far(|r| r.y + r.height, inner.y, if horiz { 0 } else { margin }));
    let (mut bv, mut bh) = (false, false);
    for _ in 0..2 {
        let (nv, nh) = (over(oy, size.1, inner.height - bh as i32 * bar.1), over(ox, size.0, inner.width - bv as i32 * bar.0));
        bv |= nv; bh |= nh;
    }
    let room = (inner.width - bv as i32 * bar.0, inner.height - bh as i32 * bar.1);
    let mut k = Case { w, reg, inner, child, size, bars: (bv, bh), room, at: (0, 0), step: if matches!(kind, 0 | 2) { 3 } else { 1 }, kind, ox, oy, bar, alt: split(flag()) };
    shown(&mut k);
    k
}
fn max(k: &Case) -> (i32, i32) { ((k.size.0 - k.room.0).max(0), (k.size.1 - k.room.1).max(0)) }
/// What is drawn is the content, shifted by the offset and cut to the room the bars leave, and the bars.
fn shown(k: &mut Case) {
    let mut c = Canvas::new(W as u16, H as u16); k.w.render(&mut c, k.reg);
    note!("inner {:?} size {:?} bars {:?} room {:?} at {:?}\n{}", k.inner, k.size, k.bars, k.room, k.at, c.to_snapshot());
    for y in 0..H { for x in 0..W {
        let ch = c.get_char(x, y);
        let (ix, iy) = (x - k.inner.x, y - k.inner.y);
        let mut want = None;
        if ix >= 0 && iy >= 0 && ix < k.room.0 && iy < k.room.1 {
            for (n, r) in k.child.iter().enumerate() {
                let (cx, cy) = (x + k.at.0 - r.x, y + k.at.1 - r.y);
                if cx >= 0 && cy >= 0 && cx < r.width && cy < r.height { want = Some(glyph(n, cx, cy)); }
            }
        }
        match want { Some(g) => check(ch == g, "the content in view is drawn, shifted by the offset"), None => check(!content(ch), "content is drawn only in the room the scrollbars leave") }
        let v = k.bars.0 && ix >= k.room.0 && ix < k.inner.width && iy >= 0 && iy < k.room.1;
        let h = k.bars.1 && iy >= k.room.1 && iy < k.inner.height && ix >= 0 && ix < k.room.0;
        let lit = painted(&c, x, y, 8) || painted(&c, x, y, 9);
        check(lit == (v || h), "a scrollbar is drawn along each side that scrolls, and only there");
    } }
}
/// Draws one cell of its choosing.
struct Dot { w: i32, h: i32, cell: Option<(i32, i32)>, ink: Rc<Cell<bool>>, style: ComputedStyle }
impl Widget<u32> for Dot {
    fn render(&self, c: &mut Canvas, r: Region) {
        check(and(r.width == self.w, r.height == self.h), "a child keeps its size");
        if let (true, Some((x, y))) = (self.ink.get(), self.cell) { c.put_char(r.x + x, r.y + y, '*', None, None, Default::default()); }
    }
    fn desired_size(&self) -> Size { Size::new(self.w as u16, self.h as u16) }
    fn get_style(&self) -> ComputedStyle { self.style.clone() }
    fn set_style(&mut self, s: ComputedStyle) { self.style = s; }
}
/// Any cell of content of any size is on screen exactly where, and exactly when, the offset says so.
fn reach_all(kind: u64) {
    let horiz = split(flag());
    let m = tier(10, 30);
    let which = pick(2) as usize;
    let mut size = [(2, 3); 2]; let side = split(flag()); let cross = if split(flag()) { 2 } else { 11 };
    size[which] = if side { (range(1, m) as i32, cross) } else { (cross, range(1, m) as i32) };
    let cell = if side { (range(0, m - 1) as i32, 0) } else { (0, range(0, m - 1) as i32) };
    assume(and(cell.0 < size[which].0, cell.1 < size[which].1));
    let ink = Rc::new(Cell::new(false));
    let mut kids: Vec<B> = vec![];
    for ix in 0..2 {
        let mut s = ComputedStyle::default();
        s.width = Some(Scalar::cells(size[ix].0 as f64)); s.height = Some(Scalar::cells(size[ix].1 as f64));
        kids.push(Box::new(Dot { w: size[ix].0, h: size[ix].1, cell: if ix == which { Some(cell) } else { None }, ink: ink.clone(), style: s }));
    }
    let mut w: B = match kind { 0 => Box::new(Container::new(kids)), 1 => Box::new(ScrollableContainer::new(kids)), _ => Box::new(Screen::new(kids)) };
    let mut s = ComputedStyle::default();
    s.layout = if horiz { Layout::Horizontal } else { Layout::Vertical };
    let o = [Overflow::Hidden, Overflow::Auto, Overflow::Scroll];
    let (ox, oy) = (o[pick(3) as usize], o[pick(3) as usize]);
    s.overflow_x = ox; s.overflow_y = oy;
    s.scrollbar.visibility = tcss::types::ScrollbarVisibility::Hidden;
    s.scrollbar.size.vertical = 2; s.scrollbar.size.horizontal = 1;
    w.set_style(s);
    let reg = if kind == 2 { Region::new(0, 0, W, H) } else { Region::new(1, 1, W - 1, H - 1) };
    let (tw, th) = if horiz { (size[0].0 + size[1].0, ite(size[0].1 > size[1].1, size[0].1 as u64, size[1].1 as u64) as i32) } else { (ite(size[0].0 > size[1].0, size[0].0 as u64, size[1].0 as u64) as i32, size[0].1 + size[1].1) };
    let home = if which == 0 { (0, 0) } else if horiz { (size[0].0, 0) } else { (0, size[0].1) };
    let (mut bv, mut bh) = (false, false);
    for _ in 0..2 {
        let nv = oy == Overflow::Scroll || (oy == Overflow::Auto && split(th > reg.height - bh as i32));
        let nh = ox == Overflow::Scroll || (ox == Overflow::Auto && split(tw > reg.width - 2 * bv as i32));
        bv |= nv; bh |= nh;
    }
    let room = (reg.width - 2 * bv as i32, reg.height - bh as i32);
    let pos = |v: i32| ite(v > 0, v as u64, 0) as i32;
    let low = |a: i32, b: i32| ite(a < b, a as u64, b as u64) as i32;
    let end = (pos(tw - room.0), pos(th - room.1));
    let mut at = (0, 0);
    let step = if kind == 1 { 1 } else { 3 };
    let turns = tier(1, 2);
    for turn in 0..turns + 1 {
        if turn == turns { ink.set(true); }
        let mut c = Canvas::new(W as u16, H as u16); w.render(&mut c, reg);
        let (vx, vy) = (home.0 + cell.0 - at.0, home.1 + cell.1 - at.1);
        let seen = and(and(vx >= 0, vx < room.0), and(vy >= 0, vy < room.1));
        if turn == turns { let mut right = true; for y in 0..H { for x in 0..W {
            let here = and(seen, and(vx == x - reg.x, vy == y - reg.y));
            right = and(right, (c.get_char(x, y) == '*') == here);
        } }
        check(right, "a cell of the content is drawn where the offset puts it, and only if that is in view"); }
        note!("turn {turn} size {:?} cell {which} {:?} at {:?} room {:?}\n{}", size, cell, at, room, c.to_snapshot());
        if turn == turns { break; }
        let n = range(0, tier(3, 6)) as i32;
        let down = split(flag());
        for i in 0..8 { if i < n {
            let ev = MouseEvent { kind: if down { MouseEventKind::ScrollDown } else if kind == 0 { MouseEventKind::ScrollUp } else { MouseEventKind::ScrollRight }, column: reg.x as u16, row: reg.y as u16, modifiers: KeyModifiers::NONE };
            w.on_mouse(ev, reg);
            if down { if oy != Overflow::Hidden { at.1 = low(at.1 + step, end.1); } }
            else if kind == 0 { at.1 = pos(at.1 - step); }
            else if ox != Overflow::Hidden { at.0 = low(at.0 + step, end.0); }
        } }
    }
    reach("end");
}
#[unsafe(no_mangle)] #[inline(never)] pub fn h_reach_container() { reach_all(0) }
#[unsafe(no_mangle)] #[inline(never)] pub fn h_reach_scrollable() { reach_all(1) }
#[unsafe(no_mangle)] #[inline(never)] pub fn h_reach_screen() { reach_all(2) }
fn clamp(v: i32, hi: i32) -> i32 { v.max(0).min(hi) }
fn wheel(k: &mut Case) {
    let (kind, mods) = match pick(6) {
        0 => (MouseEventKind::ScrollDown, KeyModifiers::NONE), 1 => (MouseEventKind::ScrollUp, KeyModifiers::NONE),
        2 => (MouseEventKind::ScrollRight, KeyModifiers::NONE), 3 => (MouseEventKind::ScrollLeft, KeyModifiers::NONE),
        4 => (MouseEventKind::ScrollDown, KeyModifiers::SHIFT), _ => (MouseEventKind::ScrollUp, KeyModifiers::CONTROL),
    };
    let ev = MouseEvent { kind, column: k.inner.x as u16, row: k.inner.y as u16, modifiers: mods };
    if k.alt { k.w.on_mouse_with_sender(ev, k.reg); } else { k.w.on_mouse(ev, k.reg); }
    let side = k.kind != 0 && mods != KeyModifiers::NONE;
    let (dx, dy) = match kind {
        MouseEventKind::ScrollDown => if side { (1, 0) } else { (0, 1) },
        MouseEventKind::ScrollUp => if side { (-1, 0) } else { (0, -1) },
        MouseEventKind::ScrollRight => (1, 0), _ => (-1, 0),
    };
    let m = max(k);
    if k.oy != Overflow::Hidden { k.at.1 = clamp(k.at.1 + dy * k.step, m.1); }
    if k.ox != Overflow::Hidden && k.kind != 0 { k.at.0 = clamp(k.at.0 + dx * k.step, m.0); }
}
fn wheels(kind: u64) {
    let mut k = case(kind, &[[(3, 2), (2, 2)], [(6, 5), (3, 5)], [(8, 1), (9, 6)]], true);
    for _ in 0..tier(2, 3) { wheel(&mut k); shown(&mut k); }
    reach("end");
}
#[unsafe(no_mangle)] #[inline(never)] pub fn h_wheel_container() { wheels(0) }
#[unsafe(no_mangle)] #[inline(never)] pub fn h_wheel_scrollable() { wheels(1) }
#[unsafe(no_mangle)] #[inline(never)] pub fn h_wheel_screen() { wheels(2) }
#[unsafe(no_mangle)] #[inline(never)] pub fn h_wheel_axis() { wheels(3 + pick(2)) }
/// Keys of a focused scrolling container.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_keys() {
    let mut k = case([1, 3, 4][pick(3) as usize], &[[(6, 5), (3, 5)], [(8, 1), (9, 6)]], true);
    k.w.set_focus(true);
    for _ in 0..tier(2, 3) {
        let key = [KeyCode::Up, KeyCode::Down, KeyCode::Left, KeyCode::Right, KeyCode::PageUp, KeyCode::PageDown, KeyCode::Home, KeyCode::End][pick(8) as usize];
        k.w.on_event(key);
        let m = max(&k); let page = (k.room.1 * 9 / 10).max(1);
        let (x, y) = match key {
            KeyCode::Up => (k.at.0, k.at.1 - 1), KeyCode::Down => (k.at.0, k.at.1 + 1),
            KeyCode::Left => (k.at.0 - 1, k.at.1), KeyCode::Right => (k.at.0 + 1, k.at.1),
            KeyCode::PageUp => (k.at.0, k.at.1 - page), KeyCode::PageDown => (k.at.0, k.at.1 + page),
            KeyCode::Home => (0, 0), _ => m,
        };
        if k.ox != Overflow::Hidden { k.at.0 = clamp(x, m.0); }
        if k.oy != Overflow::Hidden { k.at.1 = clamp(y, m.1); }
        shown(&mut k);
    }
    reach("end");
}
fn mouse(k: &mut Case, kind: MouseEventKind, x: i32, y: i32) {
    let ev = MouseEvent { kind, column: x as u16, row: y as u16, modifiers: KeyModifiers::NONE };
    if k.alt { k.w.on_mouse_with_sender(ev, k.reg); } else { k.w.on_mouse(ev, k.reg); }
}
/// The offset the container shows, read off the screen; the rest must be as it should be there.
fn settle(k: &mut Case) {
    let mut c = Canvas::new(W as u16, H as u16); k.w.render(&mut c, k.reg);
    let m = max(k);
    let mut found = None;
    for oy in 0..=m.1 { for ox in 0..=m.0 { if found.is_none() {
        let mut ok = true;
        for y in k.inner.y..k.inner.y + k.room.1 { for x in k.inner.x..k.inner.x + k.room.0 { if ok {
            let mut want = None;
            for (n, r) in k.child.iter().enumerate() {
                let (cx, cy) = (x + ox - r.x, y + oy - r.y);
                if cx >= 0 && cy >= 0 && cx < r.width && cy < r.height { want = Some(glyph(n, cx, cy)); }
            }
            let ch = c.get_char(x, y);
            ok = match want { Some(g) => ch == g, None => !content(ch) };
        } } }
        if ok { found = Some((ox, oy)); }
    } } }
    note!("{}", c.to_snapshot());
    check(found.is_some(), "what is shown is a part of the content");
    k.at = found.unwrap_or(k.at);
    shown(k);
}
/// Pressing on a scrollbar pages towards the pointer or takes hold of the thumb, which then follows.
fn bar(kind: u64) {
    let mut k = case(kind, &[[(8, 2), (17, 6)], [(7, 11), (11, 1)]], false);
    let vertical = split(flag());
    let (on, len, page) = if vertical { (k.bars.0, k.room.1, (k.room.1 * 9 / 10).max(1)) } else { (k.bars.1, k.room.0, (k.room.0 * 9 / 10).max(1)) };
    if !on || len < 1 { reach("end"); return; }
    // somewhere along the way
    for _ in 0..[0, 2][pick(2) as usize] {
        let m = max(&k); let step = k.step;
        let (x, y) = (k.inner.x, k.inner.y);
        if vertical { mouse(&mut k, MouseEventKind::ScrollDown, x, y); k.at.1 = clamp(k.at.1 + step, m.1); } else { mouse(&mut k, MouseEventKind::ScrollRight, x, y); k.at.0 = clamp(k.at.0 + step, m.0); }
    }
    let start = k.at;
    let along = |k: &Case, p: i32| if vertical { (k.inner.x + k.room.0, k.inner.y + p) } else { (k.inner.x + p, k.inner.y + k.room.1) };
    let thumb = {
        let mut c = Canvas::new(W as u16, H as u16); k.w.render(&mut c, k.reg);
        let mut lo = -1; let mut hi = -1;
        for p in 0..len { let (x, y) = along(&k, p); if painted(&c, x, y, 9) { if lo < 0 { lo = p; } hi = p; } }
        (lo, hi)
    };
    let p = pick(len as u64) as i32;
    let (x, y) = along(&k, p);
    mouse(&mut k, MouseEventKind::Down(MouseButton::Left), x, y);
    settle(&mut k);
    let m = max(&k);
    let (was, now, end) = if vertical { (start.1, k.at.1, m.1) } else { (start.0, k.at.0, m.0) };
    check(if vertical { k.at.0 == start.0 } else { k.at.1 == start.1 }, "a scrollbar moves its own direction only");
    if p < thumb.0 { check(now == clamp(was - page, end), "a press before the thumb goes a page back"); }
    else if p > thumb.1 { check(now == clamp(was + page, end), "a press after the thumb goes a page on"); }
    else if p > thumb.0 && p < thumb.1 { check(now == was, "taking hold of the thumb moves nothing"); }
    if now != was { reach("end"); return; }
    // drag twice
    let held = p > thumb.0 && p < thumb.1;
    let mut last: Option<(i32, i32)> = None;
    let plain = split(flag());
    for _ in 0..2 {
        let q = pick((len + 2) as u64) as i32 - 1;
        let (x, y) = along(&k, q);
        let kind = if plain { MouseEventKind::Moved } else { MouseEventKind::Drag(MouseButton::Left) };
        if x < 0 || y < 0 || !k.reg.contains_point(x, y) { reach("end"); return; }
        mouse(&mut k, kind, x, y);
        settle(&mut k);
        let now = if vertical { k.at.1 } else { k.at.0 };
        check(if vertical { k.at.0 == start.0 } else { k.at.1 == start.1 }, "dragging a thumb moves its own direction only");
        if held && q <= p - thumb.0 { check(now == 0, "a thumb dragged to the start shows the start"); }
        if held { if let Some((lq, ln)) = last { check(if q >= lq { now >= ln } else { now <= ln }, "dragging on never scrolls back"); } last = Some((q, now)); }
    }
    let (x, y) = along(&k, 0);
    mouse(&mut k, MouseEventKind::Up(MouseButton::Left), x, y);
    let rest = k.at;
    mouse(&mut k, MouseEventKind::Moved, x, y);
    settle(&mut k);
    check(k.at == rest, "a thumb let go no longer follows the pointer");
    reach("end");
}
#[unsafe(no_mangle)] #[inline(never)] pub fn h_bar_scrollable() { bar(1) }
#[unsafe(no_mangle)] #[inline(never)] pub fn h_bar_screen() { bar(2) }
entries!(h_reach_container, h_reach_scrollable, h_reach_screen, h_wheel_container, h_wheel_scrollable, h_wheel_screen, h_wheel_axis, h_keys, h_bar_scrollable, h_bar_screen);
