//! P07: strips and segments keep their text, looks and cell accounting.
use harness::*;
use std::collections::HashMap;
use tcss::types::RgbaColor;
use tcss::types::text::AlignHorizontal;
use textual::segment::{Segment, Style};
use textual::strip::Strip;

/// What one terminal cell of a line shows.
#[derive(Clone, PartialEq, Debug)]
struct Cell { g: [u8; 4], look: u64 }
const CONT: [u8; 4] = [1, 0, 0, 0];
fn col(c: &Option<RgbaColor>) -> u64 { match c { None => 0, Some(c) => 1 | (c.r as u64) << 1 | (c.g as u64) << 9 | (c.b as u64) << 17 } }
fn look(s: Option<&Style>, link: bool) -> u64 {
    let f = match s { None => 0, Some(s) => 1 | (s.bold as u64) << 1 | (s.dim as u64) << 2 | (s.italic as u64) << 3 | (s.underline as u64) << 4 | (s.strike as u64) << 5 | (s.reverse as u64) << 6
        | col(&s.fg) << 7 | col(&s.bg) << 33 };
    f | (link as u64) << 60
}
/// The cells of a strip, from its text alone; also compares the widths it reports.
fn cells(s: &Strip) -> Vec<Cell> {
    let mut v = vec![];
    for g in s.segments() {
        let n = v.len(); let l = look(g.style(), g.get_meta("@click").is_some());
        let b = g.text().as_bytes(); let mut i = 0;
        while i < b.len() {
            if b[i] < 0x80 { v.push(Cell { g: [b[i], 0, 0, 0], look: l }); i += 1; }
            else { v.push(Cell { g: [b[i], b[i + 1], b[i + 2], 0], look: l }); v.push(Cell { g: CONT, look: l }); i += 3; }
        }
        check(g.cell_length() == v.len() - n, "a segment reports the width of its text");
    }
    check(s.cell_length() == v.len(), "a strip reports the width of its segments");
    v
}
fn eq(a: &[Cell], b: &[Cell], what: &'static str) {
    if a.len() != b.len() { note!("{a:?}\n{b:?}"); check(false, what); return; }
    let mut ok = true;
    for i in 0..a.len() { for k in 0..4 { ok = and(ok, a[i].g[k] == b[i].g[k]); } ok = and(ok, a[i].look == b[i].look); }
    if native() && !ok { note!("{a:?}\n{b:?}"); }
    check(ok, what);
}
fn ch() -> u8 { let b = bits(7) as u8; assume(and(b >= 0x20, b < 0x7f)); b }
/// A text of n glyphs: symbolic printable ASCII, or (at `wide`) a double-width glyph.
fn text(n: usize, wide: Option<usize>) -> String {
    let mut v = vec![];
    for i in 0..n { if Some(i) == wide { v.extend_from_slice("漢".as_bytes()); } else { v.push(ch()); } }
    unsafe { String::from_utf8_unchecked(v) }
}
fn sym_style() -> Style { Style { fg: None, bg: Some(RgbaColor::rgb(u8s(), 2, 3)), bold: flag(), dim: flag(), italic: flag(), underline: flag(), strike: flag(), reverse: flag() } }
fn style(k: u64) -> Option<Style> {
    match k { 0 => None, 1 => Some(Style::default()), 2 => Some(Style { fg: Some(RgbaColor::rgb(1, 2, 3)), ..Default::default() }),
        3 => Some(Style { bg: Some(RgbaColor::rgb(1, 2, 3)), underline: true, ..Default::default() }), _ => Some(sym_style()) }
}
fn link(g: Segment, v: &str) -> Segment { let mut m = HashMap::new(); m.insert("@click".to_string(), v.to_string()); g.with_meta(m) }
fn seg(t: String, k: u64) -> Segment { let g = Segment::new(t); match style(k) { Some(s) => g.with_style(s), None => g } }
/// A line of up to three segments, up to three glyphs each, at most one of them wide.
fn line(max: usize) -> Strip {
    let n = 1 + pick(3) as usize; let w = pick(4) as usize; let wp = if w < n { pick(2) as usize } else { 9 };
    let mut v = vec![];
    for i in 0..n {
        let len = if i == 0 { max } else { pick(2) as usize * max };
        let mut g = seg(text(len, if i == w { Some(wp) } else { None }), [4, 0, 3][i]);
        if i == 1 { g = link(g, "x"); }
        v.push(g);
    }
    Strip::from_segments(v)
}
/// Cells [s, e) of the line; half a wide glyph is a space.
fn cut(c: &[Cell], s: usize, e: usize) -> Vec<Cell> {
    let (e, mut v) = (e.min(c.len()), vec![]);
    if s >= e { return v; }
    for i in s..e {
        let mut x = c[i].clone();
        if (x.g == CONT && i == s) || (i + 1 == e && e < c.len() && c[e].g == CONT) { x.g = [b' ', 0, 0, 0]; }
        v.push(x);
    }
    v
}
#[unsafe(no_mangle)] #[inline(never)] pub fn h_crop() {
    let l = line(tier(2, 3)); let c = cells(&l);
    let n = c.len() as u64;
    let (s, e) = (pick(n + 2) as usize, pick(n + 3) as usize);
    let r = l.crop(s, e);
    eq(&cells(&r), &cut(&c, s, e), "a crop is exactly those cells of the line");
    observe(r.cell_length() as u64);
    let far = l.crop(s, usize::MAX);
    eq(&cells(&far), &cut(&c, s, usize::MAX), "a crop past the end stops at the end");
    reach("end");
}
#[unsafe(no_mangle)] #[inline(never)] pub fn h_split() {
    let n = pick(4) as usize; let g = link(seg(text(n, if pick(2) == 1 { Some(1) } else { None }), 4), "x");
    let whole = cells(&Strip::from_segment(g.clone()));
    let cutp = pick(6) as usize;
    let (a, b) = g.split_at(cutp);
    let (ca, cb) = (cells(&Strip::from_segment(a)), cells(&Strip::from_segment(b)));
    let k = if cutp < whole.len() && whole[cutp].g == CONT { cutp + 1 } else { cutp.min(whole.len()) };
    eq(&ca, &whole[..k], "the left part holds the cells before the cut, and a wide glyph whole");
    eq(&cb, &whole[k..], "the right part holds the rest");
    reach("end");
}
#[unsafe(no_mangle)] #[inline(never)] pub fn h_divide() {
    let l = line(2); let c = cells(&l); let n = c.len() as u64;
    let (a, b) = (1 + pick(n) as usize, 1 + pick(n) as usize);
    assume(a < b);
    let p = l.divide(&[a, b]);
    check(p.len() == if b == c.len() { 2 } else { 3 }, "one part per cut, and the rest");
    eq(&cells(&p[0]), &cut(&c, 0, a), "first part");
    eq(&cells(&p[1]), &cut(&c, a, b), "second part");
    if b < c.len() { eq(&cells(&p[2]), &cut(&c, b, c.len()), "last part"); }
    let whole = l.divide(&[]);
    check(whole.len() == 1, "no cut, one part"); eq(&cells(&whole[0]), &c, "no cut leaves the line whole");
    reach("end");
}
fn blanks(n: usize, s: Option<&Style>) -> Vec<Cell> { vec![Cell { g: [b' ', 0, 0, 0], look: look(s, false) }; n] }
/// Padding and alignment: exactly the width asked for.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_fit() {
    let l = line(2); let c = cells(&l);
    let w = pick(c.len() as u64 + 4) as usize; let ps = style(if pick(2) == 1 { 4 } else { 0 });
    let k = pick(4);
    let r = match k { 0 => l.adjust_cell_length(w, ps.clone()), 1 => l.text_align(AlignHorizontal::Left, w, ps.clone()),
        2 => l.text_align(AlignHorizontal::Right, w, ps.clone()), _ => l.text_align(AlignHorizontal::Center, w, ps.clone()) };
    let got = cells(&r);
    check(got.len() == w, "exactly the width asked for");
    let want = if w <= c.len() { cut(&c, 0, w) } else {
        let gap = w - c.len(); let left = match k { 0 | 1 => 0, 2 => gap, _ => gap / 2 };
        let mut v = blanks(left, ps.as_ref()); v.extend(c.iter().cloned()); v.extend(blanks(gap - left, ps.as_ref())); v };
    eq(&got, &want, "the line in its place, padding elsewhere");
    let b = Strip::blank(w, ps.clone());
    eq(&cells(&b), &blanks(w, ps.as_ref()), "a blank line is blank");
    check(b.is_empty() == (w == 0), "only a line of no cells is empty");
    reach("end");
}
/// Justification only widens gaps, by sizes that differ by at most one.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_justify() {
    let mut v = vec![]; let mut pat = vec![];
    for i in 0..2 {
        let mut t = vec![];
        for _ in 0..3 { let sp = pick(2) == 1; pat.push(sp); t.push(if sp { b' ' } else { let b = ch(); assume(b != b' '); b }); }
        let g = seg(unsafe { String::from_utf8_unchecked(t) }, [4, 3][i]);
        v.push(if i == 1 { link(g, "x") } else { g });
    }
    let l = Strip::from_segments(v); let c = cells(&l);
    let w = pick(tier(11, 15)) as usize;
    let r = l.justify(w, None); let got = cells(&r);
    check(got.len() == w, "exactly the width asked for");
    let gaps = pat.iter().filter(|x| **x).count();
    if w > 6 && gaps > 0 {
        // every gap keeps its place and grows; the rest is untouched
        let extra = w - 6; let (mut i, mut gi, mut ok) = (0, 0, true); let mut last = 0;
        for (k, sp) in pat.iter().enumerate() {
            if *sp {
                // later gaps get the odd spaces
                let n = 1 + extra / gaps + ((gaps - 1 - gi) < extra % gaps) as usize; gi += 1;
                check(n >= last, "later gaps are no smaller"); last = n;
                for j in 0..n { if i + j < got.len() { ok = and(ok, and(got[i + j].g[0] == b' ', got[i + j].look == c[k].look)); } else { ok = false; } }
                i += n;
            } else { if i < got.len() { ok = and(ok, and(got[i].g[0] == c[k].g[0], got[i].look == c[k].look)); } else { ok = false; } i += 1; }
        }
        check(ok & (i == w), "words keep their order and looks, gaps differ by at most one");
    } else if w <= 6 { eq(&got, &cut(&c, 0, w), "a line that does not fit is cropped"); }
    else { let mut x = c.clone(); x.extend(blanks(w - 6, None)); eq(&got, &x, "a line without gaps is padded"); }
    reach("end");
}
/// Merging neighbours changes nothing that can be seen, and leaves no two alike.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_simplify() {
    let n = pick(4) as usize; let mut v = vec![];
    for _ in 0..n { let g = seg(text(pick(2) as usize, None), pick(4)); v.push(match pick(3) { 0 => g, 1 => link(g, "x"), _ => link(g, "y") }); }
    let l = Strip::from_segments(v); let c = cells(&l);
    let s = l.simplify();
    eq(&cells(&s), &c, "merging changes no cell");
    let mut at = 0; let src: Vec<(usize, String)> = l.segments().iter().map(|g| { let r = (at, g.get_meta("@click").unwrap_or("").to_string()); at += g.cell_length(); r }).collect();
    let mut p = 0;
    for g in s.segments() {
        for (a, m) in &src { let w = g.cell_length(); if *a >= p && *a < p + w && l.segments().iter().enumerate().any(|(i, q)| src[i].0 == *a && q.cell_length() > 0 && src[i].1 == *m) {
            check(g.get_meta("@click").unwrap_or("") == m.as_str(), "a link keeps its target"); } }
        p += g.cell_length();
    }
    if l.segments().iter().all(|g| !g.is_empty()) { for w in s.segments().windows(2) { check(w[0].style() != w[1].style() || w[0].meta() != w[1].meta(), "no two neighbours are alike"); } }
    reach("end");
}
#[unsafe(no_mangle)] #[inline(never)] pub fn h_join() {
    let (a, b) = (line(2), line(1)); let mut want = cells(&a); want.extend(cells(&b));
    eq(&cells(&Strip::join(vec![a.clone(), b.clone()])), &want, "joining is concatenation");
    eq(&cells(&Strip::from_iter(a.segments().iter().chain(b.segments()).cloned())), &want, "collecting is concatenation");
    let t = Strip::join(vec![a.clone(), b.clone()]).text();
    let mut u = a.text(); u.push_str(&b.text());
    check(t.len() == u.len(), "text"); let mut ok = true; for i in 0..t.len() { ok = and(ok, t.as_bytes()[i] == u.as_bytes()[i]); }
    check(ok, "the text is the concatenation");
    reach("end");
}
fn or_color(a: &Option<RgbaColor>, b: &Option<RgbaColor>) -> Option<RgbaColor> { if b.is_some() { b.clone() } else { a.clone() } }
/// Styling, tinting, fading and hatching change looks, never the text or its width.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_style() {
    let l = line(2); let c = cells(&l);
    match pick(6) {
        0 => {
            let mut st = sym_style(); if pick(2) == 1 { st.fg = Some(RgbaColor::rgb(9, u8s(), 7)); } if pick(2) == 1 { st.bg = None; }
            let r = l.apply_style(&st); let got = cells(&r);
            check(got.len() == c.len(), "same width");
            for (g, o) in r.segments().iter().zip(l.segments()) {
                let d = Style::default(); let b = o.style().unwrap_or(&d); let s = g.style().unwrap();
                let want = Style { fg: or_color(&b.fg, &st.fg), bg: or_color(&b.bg, &st.bg), bold: b.bold | st.bold, dim: b.dim | st.dim, italic: b.italic | st.italic, underline: b.underline | st.underline, strike: b.strike | st.strike, reverse: b.reverse | st.reverse };
                check(look(Some(s), false) == look(Some(&want), false), "the new style lies over the old one");
            }
            text_same(&c, &got);
        }
        1 => { let mut t = RgbaColor::rgb(u8s(), 5, 6); t.a = 0.0; eq(&cells(&l.apply_tint(&t)), &c, "a transparent tint changes nothing"); }
        2 => { let t = RgbaColor::rgba(200, 5, 6, 0.5); let r = l.apply_tint(&t); let got = cells(&r); text_same(&c, &got); flags_same(&c, &got); }
        3 => { eq(&cells(&l.apply_text_opacity(1.0, None)), &c, "full opacity changes nothing"); }
        4 => { let got = cells(&l.apply_text_opacity(0.0, None)); check(got.len() == c.len(), "same width");
            let mut ok = true; for i in 0..got.len() { ok = and(ok, and(got[i].g[0] == b' ', bg(got[i].look) == bg(c[i].look))); ok = and(ok, got[i].look >> 60 == c[i].look >> 60); }
            check(ok, "invisible text is blank on its own background"); }
        _ => { let h = RgbaColor::rgb(7, 8, 9); let got = cells1(&l.apply_hatch('#', &h, 1.0)); check(got.len() == c.len(), "same width");
            let mut ok = true; for i in 0..got.len() { let sp = c[i].g[0] == b' '; ok = and(ok, got[i].g[0] as u64 == ite(sp, b'#' as u64, c[i].g[0] as u64)); ok = and(ok, bg(got[i].look) == bg(c[i].look)); ok = and(ok, imp(sp, got[i].look >> 7 & 0x3ffffff == col(&Some(h.clone())))); }
            check(ok, "only spaces are hatched, over the same background"); }
    }
    reach("end");
}
fn cells1(s: &Strip) -> Vec<Cell> { cells(s) }
fn bg(l: u64) -> u64 { l >> 33 & 0x3ffffff }
fn text_same(a: &[Cell], b: &[Cell]) { let mut ok = a.len() == b.len(); if ok { for i in 0..a.len() { ok = and(ok, and(a[i].g[0] == b[i].g[0], a[i].look >> 60 == b[i].look >> 60)); } } check(ok, "text, width and links are kept"); }
fn flags_same(a: &[Cell], b: &[Cell]) { let mut ok = true; for i in 0..a.len() { ok = and(ok, a[i].look & 0x7f == b[i].look & 0x7f); } check(ok, "attributes are kept"); }
entries!(h_crop, h_split, h_divide, h_fit, h_justify, h_simplify, h_join, h_style);
