//! P06: scroll offsets stay in bounds and the scrollbar shows them.
use harness::*;
use tcss::types::RgbaColor;
use textual::canvas::*;
use textual::scroll::ScrollState;
use textual::scrollbar::ScrollBarRender;

const BIG: i64 = 1 << 24;
fn state() -> ScrollState {
    let mut s = ScrollState::new(range(0, BIG) as i32, range(0, BIG) as i32, range(0, BIG) as i32, range(0, BIG) as i32);
    s.offset_x = range(0, BIG) as i32; s.offset_y = range(0, BIG) as i32;
    s
}
fn maxx(s: &ScrollState) -> i64 { let d = s.virtual_width as i64 - s.viewport_width as i64; ite(d > 0, d as u64, 0) as i64 }
fn maxy(s: &ScrollState) -> i64 { let d = s.virtual_height as i64 - s.viewport_height as i64; ite(d > 0, d as u64, 0) as i64 }
fn valid(s: &ScrollState) -> bool { (s.offset_x as i64 >= 0) & (s.offset_x as i64 <= maxx(s)) & (s.offset_y as i64 >= 0) & (s.offset_y as i64 <= maxy(s)) }
fn clamp(v: i64, hi: i64) -> i64 { let v = ite(v < 0, 0, v as u64) as i64; ite(v > hi, hi as u64, v as u64) as i64 }
/// One operation from any valid state leaves a valid state at the expected place (an inductive step: histories of any length).
#[unsafe(no_mangle)] #[inline(never)]
pub fn h_step() {
    let mut s = state();
    assume(valid(&s));
    check(s.max_scroll_x() as i64 == maxx(&s) && s.max_scroll_y() as i64 == maxy(&s), "maximum offsets");
    check(s.can_scroll_x() == (maxx(&s) > 0) && s.can_scroll_y() == (maxy(&s) > 0), "scrollable exactly when the content is larger");
    let (ox, oy) = (s.offset_x as i64, s.offset_y as i64);
    let (mut ex, mut ey) = (ox, oy);
    let a = i32s(); let al = a as i64;
    match pick(6) {
        0 => { s.scroll_up(a); ey = clamp(oy - al, maxy(&s)); }
        1 => { s.scroll_down(a); ey = clamp(oy + al, maxy(&s)); }
        2 => { s.scroll_left(a); ex = clamp(ox - al, maxx(&s)); }
        3 => { s.scroll_right(a); ex = clamp(ox + al, maxx(&s)); }
        4 => { let (w, h) = (range(0, BIG) as i32, range(0, BIG) as i32); s.set_viewport(w, h); ex = clamp(ox, maxx(&s)); ey = clamp(oy, maxy(&s)); check(s.viewport_width == w && s.viewport_height == h, "viewport stored"); }
        _ => { let (w, h) = (range(0, BIG) as i32, range(0, BIG) as i32); s.set_virtual_size(w, h); ex = clamp(ox, maxx(&s)); ey = clamp(oy, maxy(&s)); check(s.virtual_width == w && s.virtual_height == h, "content size stored"); }
    }
    check(valid(&s), "the offset stays between zero and the maximum");
    check(s.offset_x as i64 == ex && s.offset_y as i64 == ey, "the offset moves by the amount asked, clamped");
    observe(s.offset_x as u64); observe(s.offset_y as u64);
    reach("end");
}
/// Scrolling to any float position (including NaN and infinities).
#[unsafe(no_mangle)] #[inline(never)]
pub fn h_to() {
    let mut s = state();
    assume(valid(&s));
    let f = f32::from_bits(u32s());
    let (ox, oy) = (s.offset_x, s.offset_y);
    let horiz = split(flag());
    if horiz { s.scroll_to(Some(f), None); check(s.offset_y == oy, "the other axis stays"); } else { s.scroll_to(None, Some(f)); check(s.offset_x == ox, "the other axis stays"); }
    check(valid(&s), "the offset stays between zero and the maximum");
    let (o, m) = if horiz { (s.offset_x as i64, maxx(&s)) } else { (s.offset_y as i64, maxy(&s)) };
    if f >= 0.0 && f < 1000.0 {
        let k = f as i64;
        check(o == clamp(k, m), "the offset is the whole part of the position asked");
    }
    reach("end");
}
#[unsafe(no_mangle)] #[inline(never)]
pub fn h_percent() {
    let vh = range(0, 2000) as i32; let ph = range(0, 2000) as i32; let oy = range(0, 2000) as i32;
    let mut s = ScrollState::new(0, vh, 0, ph); s.offset_y = oy;
    assume(valid(&s));
    let p = s.scroll_percent_y();
    check(p >= 0.0 && p <= 1.0, "the scroll position is a fraction of the range");
    check(!(oy == 0) || p == 0.0, "top is 0");
    check(!(oy > 0 && oy as i64 == maxy(&s)) || p == 1.0, "bottom is 1");
    reach("end");
}
const THUMB: (u8, u8, u8) = (200, 10, 10);
const TRACK: (u8, u8, u8) = (10, 10, 200);
fn is(c: &Option<crossterm::style::Color>, k: (u8, u8, u8)) -> bool { matches!(c, Some(crossterm::style::Color::Rgb { r, g, b }) if (*r, *g, *b) == k) }
/// The extent of the thumb in eighths of a cell, read back from the canvas.
fn extent(c: &Canvas, cells: &[usize], vertical: bool) -> Option<(i64, i64)> {
    const V: [&str; 8] = ["▁", "▂", "▃", "▄", "▅", "▆", "▇", " "];
    const H: [&str; 8] = ["▉", "▊", "▋", "▌", "▍", "▎", "▏", " "];
    let g = if vertical { &V } else { &H };
    let (mut s, mut e) = (None, None);
    for (k, &i) in cells.iter().enumerate() {
        let cell = c.cell_at(i);
        let base = 8 * k as i64;
        // part of the cell covered by the thumb
        let cov = if cell.symbol == " " { if is(&cell.bg, THUMB) { Some((0, 8)) } else { check(is(&cell.bg, TRACK), "a scrollbar cell is track or thumb"); None } } else {
            let idx = g.iter().position(|x| *x == cell.symbol);
            check(idx.is_some(), "a scrollbar glyph");
            let idx = idx.unwrap() as i64;
            // the glyph fills, from the bottom / from the left, so many eighths with the foreground colour
            let (near, far) = if vertical { (7 - idx, idx + 1) } else { (7 - idx, idx + 1) };
            let _ = far;
            let fgt = is(&cell.fg, THUMB) & is(&cell.bg, TRACK);
            let bgt = is(&cell.fg, TRACK) & is(&cell.bg, THUMB);
            check(fgt | bgt, "edge cells combine thumb and track colours");
            if vertical { if fgt { Some((near, 8)) } else { Some((0, near)) } }
            else if fgt { Some((0, near)) } else { Some((near, 8)) }
        };
        if let Some((a, b)) = cov {
            if s.is_none() { s = Some(base + a); }
            check(e.is_none() || e == Some(base + a), "the thumb is one piece");
            e = Some(base + b);
        }
    }
    s.map(|a| (a, e.unwrap()))
}
fn bar(vertical: bool, wide: bool) {
    let len = pick_range(1, if wide { tier(6, 8) } else { tier(2, 3) });
    let window = len + pick_range(0, 2) - 1;
    let virt = if wide { pick_range(1, tier(24, 60)) } else { pick_range(1, tier(6, 8)) };
    if window < 1 || virt <= window { return; }
    let pos = if wide { pick_range(0, virt - window) } else { range(0, virt - window) };
    let (w, h) = if vertical { (3u16, len as u16 + 2) } else { (len as u16 + 2, 3u16) };
    let mut c = Canvas::new(w, h);
    let t = RgbaColor::rgb(THUMB.0, THUMB.1, THUMB.2); let k = RgbaColor::rgb(TRACK.0, TRACK.1, TRACK.2);
    if vertical { ScrollBarRender::render_vertical(&mut c, Region::new(1, 1, 1, len as i32), virt as f32, window as f32, pos as f32, t, k, true); }
    else { ScrollBarRender::render_horizontal(&mut c, Region::new(1, 1, len as i32, 1), virt as f32, window as f32, pos as f32, t, k, true); }
    let mut cells = vec![];
    for y in 0..h as usize { for x in 0..w as usize {
        let i = y * w as usize + x;
        let inr = if vertical { x == 1 && y >= 1 && y <= len as usize } else { y == 1 && x >= 1 && x <= len as usize };
        if inr { cells.push(i); } else { let cell = c.cell_at(i); check(cell.symbol == " " && cell.bg.is_none(), "nothing is drawn outside the scrollbar's region"); }
    } }
    if virt == len { reach("end"); return; }
    let ext = extent(&c, &cells, vertical);
    check(ext.is_some(), "a scrollable pane shows a thumb");
    let (s, e) = ext.unwrap();
    if pos == 0 { check(s == 0, "at the start the thumb touches the start of the track"); }
    if pos == virt - window { check(e == 8 * len, "at the end the thumb touches the end of the track"); }
    // thumb length = max(1 cell, track * window / content), to an eighth
    let want8 = (8 * len * window + virt - 1) / virt; let want8 = want8.max(8).min(8 * len);
    check((e - s - want8).abs() <= 1 || e == 8 * len, "the thumb's length shows the visible fraction");
    // start = (track - thumb) * pos / (content - window), to an eighth; thumb in 1/virt of an eighth
    let thumb_num = (8 * len * window).max(8 * virt).min(8 * len * virt); // over virt
    let lhs = s * virt * (virt - window);
    let exact = (8 * len * virt - thumb_num) * pos;
    check(lhs <= exact + virt * (virt - window) && lhs >= exact - 2 * virt * (virt - window), "the thumb's position shows the offset");
    reach("end");
}
#[unsafe(no_mangle)] #[inline(never)] pub fn h_vbar() { bar(true, false) }
#[unsafe(no_mangle)] #[inline(never)] pub fn h_hbar() { bar(false, false) }
#[unsafe(no_mangle)] #[inline(never)] pub fn h_vbar_cases() { bar(true, true) }
#[unsafe(no_mangle)] #[inline(never)] pub fn h_hbar_cases() { bar(false, true) }
entries!(h_vbar_cases, h_hbar_cases, h_step, h_to, h_percent, h_vbar, h_hbar);
