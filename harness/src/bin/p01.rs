//! P01: drawing is confined to the clip and the screen.
use harness::*;
use textual::canvas::*;
use textual::segment::Segment;
use textual::strip::Strip;

fn region(lo: i64, hi: i64) -> Region { Region::new(range(lo, hi) as i32, range(lo, hi) as i32, range(0, hi) as i32, range(0, hi) as i32) }
fn inside(r: &Region, x: i64, y: i64) -> bool { (x >= r.x as i64) & (x < r.x as i64 + r.width as i64) & (y >= r.y as i64) & (y < r.y as i64 + r.height as i64) }

/// A point is in the intersection exactly when it is in both regions (full 32-bit range).
#[unsafe(no_mangle)] #[inline(never)]
pub fn h_region() {
    let mk = || { let r = Region::new(i32s(), i32s(), i32s(), i32s()); assume(r.x as i64 + r.width as i64 <= i32::MAX as i64); assume(r.y as i64 + r.height as i64 <= i32::MAX as i64); r };
    let (a, b) = (mk(), mk());
    check(a.width >= 0 && a.height >= 0, "regions have no negative extent");
    let i = a.intersection(&b);
    let (x, y) = (i32s(), i32s());
    check(i.width >= 0 && i.height >= 0, "intersection has no negative extent");
    check(i.contains_point(x, y) == (inside(&a, x as i64, y as i64) & inside(&b, x as i64, y as i64)), "intersection holds exactly the common points");
    check(i.is_empty() == ((i.width == 0) | (i.height == 0)), "is_empty");
    check(a.contains_point(x, y) == inside(&a, x as i64, y as i64), "contains_point");
    observe(i.width as u64); observe(i.x as u64);
    reach("end");
}

const W: usize = 3; const H: usize = 2;
/// Any sequence of clip pushes/pops and draws against a reference grid.
fn ops(n: usize) {
    let mut c = Canvas::new(W as u16, H as u16);
    let mut g = [[b' '; W]; H];
    let mut clips: Vec<Region> = vec![];
    for k in 0..n {
        let last = k + 1 == n;
        match if last { 1 + pick(3) } else { pick(5) } {
            0 => { let r = region(-2, 4); clips.push(r); c.push_clip(r); }
            op @ 1..=3 => {
                let (x, y) = (range(-3, 4), range(-2, 3));
                let t = [b'a' + 2 * k as u8, b'b' + 2 * k as u8];
                let len = if op == 1 { 1 } else { 2 };
                if op == 1 { c.put_char(x as i32, y as i32, t[0] as char, None, None, TextAttributes::default()); }
                else if op == 2 { c.put_str(x as i32, y as i32, std::str::from_utf8(&t).unwrap(), None, None, TextAttributes::default()); }
                else { let s = Strip::from_segments(vec![Segment::new((t[0] as char).to_string()), Segment::new((t[1] as char).to_string())]); c.render_strip(&s, x as i32, y as i32); }
                for (j, ch) in t[..len].iter().enumerate() { for gy in 0..H { for gx in 0..W {
                    let mut vis = (gx as i64 == x + j as i64) & (gy as i64 == y);
                    for r in &clips { vis &= inside(r, gx as i64, gy as i64); }
                    g[gy][gx] = ite(vis, *ch as u64, g[gy][gx] as u64) as u8;
                } } }
            }
            _ => { clips.pop(); c.pop_clip(); }
        }
    }
    for y in 0..H { for x in 0..W {
        let cell = c.cell_at(y * W + x);
        check(cell.symbol.len() == 1, "cells hold one glyph");
        check(cell.symbol.as_bytes()[0] == g[y][x], "exactly the visible cells change");
        check(c.get_char(x as i32, y as i32) as u32 == g[y][x] as u32, "reading a cell back");
        observe(g[y][x] as u64);
    } }
    reach("end");
}
#[unsafe(no_mangle)] #[inline(never)] pub fn h_ops2() { ops(2) }
#[unsafe(no_mangle)] #[inline(never)] pub fn h_ops3() { ops(3) }
/// After clear() nothing of the old clip stack survives.
#[unsafe(no_mangle)] #[inline(never)]
pub fn h_clear() {
    let mut c = Canvas::new(W as u16, H as u16);
    c.push_clip(region(-2, 4));
    if flag() { c.push_clip(region(-2, 4)); }
    c.put_char(range(-1, 3) as i32, 0, 'x', None, None, TextAttributes::default());
    c.clear();
    let (x, y) = (range(-1, 3), range(-1, 2));
    c.put_char(x as i32, y as i32, 'Q', None, None, TextAttributes::default());
    for gy in 0..H { for gx in 0..W { check((c.get_char(gx as i32, gy as i32) == 'Q') == ((gx as i64 == x) & (gy as i64 == y)), "a cleared canvas draws everywhere"); if gx as i64 != x { check(c.get_char(gx as i32, gy as i32) == ' ' , "a cleared canvas is blank"); } } }
    reach("end");
}
/// Any 32-bit coordinates.
#[unsafe(no_mangle)] #[inline(never)]
pub fn h_far() {
    let mut c = Canvas::new(W as u16, H as u16);
    let r = Region::new(i32s(), i32s(), i32s(), i32s());
    if flag() { c.push_clip(r); } else { c.push_clip(Region::new(0, 0, W as i32, H as i32)); }
    let (x, y) = (i32s(), i32s());
    match pick(3) {
        0 => c.put_char(x, y, 'A', None, None, TextAttributes::default()),
        1 => c.put_str(x, y, "AB", None, None, TextAttributes::default()),
        _ => { assume(x < i32::MAX - 8); assume(y < i32::MAX - 8); c.render_strips(&[Strip::from_segment(Segment::new("A")), Strip::from_segment(Segment::new("B"))], x, y); }
    }
    for gy in 0..H as i32 { for gx in 0..W as i32 { if c.get_char(gx, gy) == 'A' { check((gx == x) & (gy == y), "far coordinates never alias a visible cell"); } } }
    check(c.get_char(x, y) == '\0' || (x >= 0 && y >= 0), "reading off-screen is harmless");
    reach("end");
}
/// Double-width glyphs are drawn whole or not at all.
#[unsafe(no_mangle)] #[inline(never)]
pub fn h_wide() {
    const WW: usize = 4;
    let mut c = Canvas::new(WW as u16, 1);
    let r = Region::new(range(-1, 4) as i32, 0, range(0, 5) as i32, 1);
    c.push_clip(r);
    let x = range(-3, 5);
    let s = match pick(3) { 0 => "日", 1 => "a日", _ => "日b" };
    if flag() && s.len() == 3 { c.put_char(x as i32, 0, '日', None, None, TextAttributes::default()); } else { c.put_str(x as i32, 0, s, None, None, TextAttributes::default()); }
    let mut exp = [0u32; WW]; // 0 blank, 1 head, 2 continuation, else glyph
    let mut cx = x;
    for ch in s.chars() {
        let w = if ch.is_ascii() { 1 } else { 2 };
        let vis = (cx >= 0) & (cx + w <= WW as i64) & (cx >= r.x as i64) & (cx + w <= r.x as i64 + r.width as i64);
        for g in 0..WW as i64 {
            if ch.is_ascii() { exp[g as usize] = ite(vis & (g == cx), ch as u64, exp[g as usize] as u64) as u32; }
            else { exp[g as usize] = ite(vis & (g == cx), 1, ite(vis & (g == cx + 1), 2, exp[g as usize] as u64)) as u32; }
        }
        cx += w;
    }
    for g in 0..WW {
        let cell = c.cell_at(g);
        let e = exp[g];
        check(cell.continuation == (e == 2), "continuation cells follow their glyph");
        check((cell.symbol.len() == 3) == (e == 1), "wide glyphs are drawn whole or not at all");
        if cell.symbol.len() == 1 && !cell.continuation { check(cell.symbol.as_bytes()[0] as u32 == ite(e == 0, 32, e as u64) as u32, "narrow glyphs"); }
        if cell.symbol.len() == 3 { check(cell.width == 2, "glyph width"); }
    }
    reach("end");
}
/// Canvases of any terminal size can be created and drawn to at their corners.
#[unsafe(no_mangle)] #[inline(never)]
pub fn h_sizes() {
    let (w, h) = match pick(tier(5, 8)) { 0 => (0u16, 4u16), 1 => (3, 0), 2 => (1, 1), 3 => (300, 220), 4 => (257, 255), 5 => (65535, 1), 6 => (1, 65535), _ => (640, 400) };
    let mut c = Canvas::new(w, h);
    check(c.size() == (w, h), "size");
    c.put_char(w as i32 - 1, h as i32 - 1, 'Z', None, None, TextAttributes::default());
    c.put_char(w as i32, h as i32 - 1, 'Y', None, None, TextAttributes::default());
    c.put_char(w as i32 - 1, h as i32, 'Y', None, None, TextAttributes::default());
    c.put_char(-1, 0, 'Y', None, None, TextAttributes::default());
    let want = if w > 0 && h > 0 { 'Z' } else { '\0' };
    check(c.get_char(w as i32 - 1, h as i32 - 1) == want, "the last cell of any screen is drawable");
    if w > 1 && h > 1 { check(c.get_char(0, h as i32 - 1) == ' ', "no wrap-around"); }
    reach("end");
}
entries!(h_region, h_ops2, h_ops3, h_clear, h_far, h_wide, h_sizes);
