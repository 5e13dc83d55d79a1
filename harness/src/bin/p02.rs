//! P02: after every flush the terminal shows exactly the canvas.
use harness::*;
use harness::term::*;
use tcss::types::RgbaColor;
use textual::canvas::*;

fn at(bits: u64) -> TextAttributes { TextAttributes { bold: bits & 1 != 0, dim: bits & 2 != 0, italic: bits & 4 != 0, underline: bits & 8 != 0, strike: bits & 16 != 0, reverse: bits & 32 != 0 } }
fn attr_bits(a: &TextAttributes) -> u8 { a.bold as u8 | (a.dim as u8) << 1 | (a.italic as u8) << 2 | (a.underline as u8) << 3 | (a.strike as u8) << 4 | (a.reverse as u8) << 5 }
fn col(c: &Option<crossterm::style::Color>) -> u32 {
    match c { None => 0, Some(crossterm::style::Color::Rgb { r, g, b }) => 1 << 24 | (*r as u32) << 16 | (*g as u32) << 8 | *b as u32, Some(_) => { check(false, "cells hold rgb colours"); 0 } }
}
struct Want { cp: u32, fg: u32, bg: u32, attrs: u8, cont: bool }
fn snapshot(c: &Canvas, n: usize) -> Vec<Want> { (0..n).map(|i| { let k = c.cell_at(i); Want { cp: utf8_cp(&k.symbol), fg: col(&k.fg), bg: col(&k.bg), attrs: attr_bits(&k.attrs), cont: k.continuation } }).collect() }
fn width(cp: u32) -> usize { if cp >= 0x3000 { 2 } else { 1 } }
/// Flush, feed the bytes to the terminal, compare.
fn flush(c: &mut Canvas, t: &mut Term) {
    let want = snapshot(c, t.w * t.h);
    check(c.flush().is_ok(), "flush succeeds");
    let b = out_take();
    t.feed(&b, &width);
    for (i, w) in want.iter().enumerate() {
        let g = t.cells[i];
        check(g.cont == w.cont, "the terminal's wide glyphs are where the canvas has them");
        if !w.cont {
            check(g.ch == w.cp, "the terminal shows the canvas's character");
            check(g.fg == w.fg, "the terminal shows the canvas's foreground");
            check(g.bg == w.bg, "the terminal shows the canvas's background");
            check(g.attrs == w.attrs, "the terminal shows the canvas's attributes");
        }
    }
}
/// One frame, every combination of attributes on two adjacent cells, colours present or not.
#[unsafe(no_mangle)] #[inline(never)]
pub fn h_attrs() {
    let (mut c, mut t) = (Canvas::new(2, 1), Term::new(2, 1));
    let m = pick(2) * 0x15 + 0x2a - 0x2a * pick(2);
    for x in 0..2 {
        let a = bits(6);
        if !DEEP { assume(a & !m & 63 == if x == 0 { 0 } else { !m & 63 } || a & m == 0); }
        let fg = if flag() { Some(RgbaColor::rgb(9, 8, 7)) } else { None };
        c.put_char(x, 0, 'A', fg, None, at(a));
    }
    flush(&mut c, &mut t);
    reach("end");
}
fn kind(c: &mut Canvas, x: i32, y: i32, k: u64) {
    let d = TextAttributes::default();
    match k {
        0 => {}
        1 => c.put_char(x, y, 'a', None, None, d),
        2 => c.put_char(x, y, 'a', Some(RgbaColor::rgb(200, 0, 0)), None, d),
        3 => c.put_char(x, y, 'b', None, Some(RgbaColor::rgb(0, 0, 90)), at(1)),
        4 => c.put_char(x, y, ' ', None, Some(RgbaColor::rgb(0, 0, 90)), d),
        _ => c.put_char(x, y, 'a', None, None, at(1)),
    }
}
/// Two frames of three cells, each cell one of five looks, the second frame cleared first (the differential path).
#[unsafe(no_mangle)] #[inline(never)]
pub fn h_diff() {
    let (mut c, mut t) = (Canvas::new(3, 1), Term::new(3, 1));
    for x in 0..3 { kind(&mut c, x, 0, pick(tier(4, 6))); }
    flush(&mut c, &mut t);
    c.clear();
    for x in 0..3 { kind(&mut c, x, 0, pick(tier(4, 6))); }
    flush(&mut c, &mut t);
    reach("end");
}
/// Frames on two rows, with and without clearing, with resize-style invalidation of a terminal in unknown state.
#[unsafe(no_mangle)] #[inline(never)]
pub fn h_hist() {
    let (mut c, mut t) = (Canvas::new(2, 2), Term::new(2, 2));
    for f in 0..tier(3, 4) {
        match pick(3) {
            0 => c.clear(),
            1 if f > 0 => {
                c.invalidate();
                for k in t.cells.iter_mut() { *k = TCell { ch: '#' as u32, fg: 1 << 24, bg: 1 << 24 | 5, attrs: 63, cont: false }; }
                t.attrs = 63; t.fg = 1 << 24 | 77; t.x = 1; t.y = 1; t.pending = true;
            }
            _ => {}
        }
        let (x, y) = (pick(2) as i32, pick(2) as i32);
        kind(&mut c, x, y, 1 + pick(3));
        if f == 1 { kind(&mut c, 1 - x, y, 3); }
        flush(&mut c, &mut t);
    }
    reach("end");
}
/// Every opaque 24-bit colour is sent as it is.
#[unsafe(no_mangle)] #[inline(never)]
pub fn h_color() {
    let (mut c, mut t) = (Canvas::new(1, 1), Term::new(1, 1));
    let (r, g, b) = (u8s(), u8s(), u8s());
    let bgside = flag();
    let k = RgbaColor::rgb(r, g, b);
    if bgside { c.put_char(0, 0, 'x', None, Some(k), TextAttributes::default()); } else { c.put_char(0, 0, 'x', Some(k), None, TextAttributes::default()); }
    let cell = c.cell_at(0);
    let want = 1u32 << 24 | (r as u32) << 16 | (g as u32) << 8 | b as u32;
    check(col(if bgside { &cell.bg } else { &cell.fg }) == want, "an opaque colour is stored exactly");
    flush(&mut c, &mut t);
    reach("end");
}
/// Any printable character, in any frame.
#[unsafe(no_mangle)] #[inline(never)]
pub fn h_chars() {
    let (mut c, mut t) = (Canvas::new(2, 1), Term::new(2, 1));
    for f in 0..2 {
        if f > 0 { c.clear(); }
        for x in 0..2 { let k = range(32, 126) as u8; c.put_char(x, 0, k as char, None, None, TextAttributes::default()); check(c.cell_at(x as usize).symbol.as_bytes()[0] == k, "stored"); }
        flush(&mut c, &mut t);
    }
    reach("end");
}
/// Double-width glyphs appear, move, are overdrawn and vanish.
#[unsafe(no_mangle)] #[inline(never)]
pub fn h_wide() {
    let (mut c, mut t) = (Canvas::new(4, 1), Term::new(4, 1));
    for f in 0..2 {
        if f > 0 { c.clear(); }
        for k in 0..tier(2, 3) {
            let x = pick(5) as i32 - if k == 0 { 0 } else { 1 };
            match pick(3) {
                0 => c.put_char(x, 0, if k == 0 { 'a' } else { 'b' }, None, None, TextAttributes::default()),
                1 => c.put_char(x, 0, '日', None, None, TextAttributes::default()),
                _ => c.put_str(x, 0, "日z", None, None, at(1)),
            }
        }
        flush(&mut c, &mut t);
    }
    reach("end");
}
entries!(h_attrs, h_diff, h_hist, h_color, h_chars, h_wide);
