//! P27: borders, outlines, padding and titles.
use harness::*;
use tcss::ComputedStyle;
use tcss::types::{AlignHorizontal, RgbaColor, Scalar, border::{Border, BorderEdge, BorderKind}};
use textual::containers::{container::Container, grid::Grid, item_grid::ItemGrid, scrollable::ScrollableContainer};
use textual::widget::static_widget::Static;
use textual::{Canvas, Region, Widget};
type B = Box<dyn Widget<u32>>;
const W: u16 = 12; const H: u16 = 7;
use BorderKind::*;
const KINDS: [BorderKind; 17] = [BorderKind::None, Ascii, Blank, Block, Dashed, Double, Heavy, Hkey, Inner, Outer, Panel, Round, Solid, Tall, Thick, Vkey, Wide];
const FEW: [BorderKind; 5] = [BorderKind::None, Thick, Round, Tall, Vkey];
const COL: [u8; 4] = [10, 20, 30, 40];
fn col(i: usize) -> Option<RgbaColor> { Some(RgbaColor::rgb(COL[i], 200, 99)) }
fn edge(k: BorderKind, i: usize) -> BorderEdge { BorderEdge { kind: k, color: col(i) } }
fn base() -> ComputedStyle { let mut s = ComputedStyle::default(); s.background = Some(RgbaColor::rgb(1, 2, 3)); s.inherited_background = Some(RgbaColor::rgb(70, 71, 72)); s.color = Some(RgbaColor::rgb(255, 255, 255)); s }
/// Top, right, bottom, left.
fn border(k: [BorderKind; 4]) -> Border { Border { top: edge(k[0], 0), right: edge(k[1], 1), bottom: edge(k[2], 2), left: edge(k[3], 3) } }
fn seen(i: usize, k: BorderKind) -> bool { k != BorderKind::None && (if i % 2 == 0 { k != Vkey } else { k != Hkey }) }
fn widget(form: u64, s: ComputedStyle, text: &str) -> B {
    let inside = || -> Vec<B> { let mut w = Static::new(text); let mut t = base(); t.width = Some(Scalar::percent(100.0)); t.height = Some(Scalar::percent(100.0)); w.set_style(t); vec![Box::new(w)] };
    let mut w: B = match form { 0 => Box::new(Static::new(text)), 1 => Box::new(Container::new(inside())), 2 => Box::new(ScrollableContainer::new(inside())), 3 => Box::new(Grid::new(inside())), _ => Box::new(ItemGrid::new(inside())) };
    w.set_style(s); w
}
fn draw(w: &B, r: Region) -> Canvas { let mut c = Canvas::new(W, H); for y in 0..H as i32 { for x in 0..W as i32 { c.put_char(x, y, '.', Option::None, Option::None, Default::default()); } } w.render(&mut c, r); c }
fn at(c: &Canvas, x: i32, y: i32) -> &textual::canvas::Cell { c.cell_at((y * W as i32 + x) as usize) }
/// One box: kinds per edge, and what its picture must be.
fn frame(form: u64, k: [BorderKind; 4], outline: bool, w: i32, h: i32, pad: [i32; 4]) {
    let (x0, y0) = (2, 1); let r = Region::new(x0, y0, w, h);
    let mut s = base(); for (p, n) in [(&mut s.padding.top, 0), (&mut s.padding.right, 1), (&mut s.padding.bottom, 2), (&mut s.padding.left, 3)] { *p = Scalar::cells(pad[n] as f64); }
    if outline { s.outline = border(k); } else { s.border = border(k); }
    let text = "abcdefgh";
    let c = draw(&widget(form, s.clone(), text), r);
    note!("{:?} outline {outline} {w}x{h} pad {:?}\n{}", k, pad, c.to_snapshot());
    // the same box with no border, and with one edge's kind and colour all round
    let bare = { let mut t = s.clone(); t.border = Border::default(); t.outline = Border::default(); t };
    let mut round: [Option<Canvas>; 4] = [Option::None, Option::None, Option::None, Option::None];
    for i in 0..4 { if seen(i, k[i]) {
        let e = edge(k[i], i); let mut t = bare.clone(); if outline { t.outline = Border::all(e); } else { t.border = Border::all(e); }
        round[i] = Some(draw(&widget(form, t, text), r));
    } }
    let on = [seen(0, k[0]), seen(1, k[1]), seen(2, k[2]), seen(3, k[3])];
    let (top, bottom) = (on[0], on[2] && !(h == 1 && on[0]));
    let (left, right) = (on[3], on[1] && !(w == 1 && on[3]));
    let inset = if outline { [0; 4] } else { [top as i32, right as i32, bottom as i32, left as i32] };
    let (ix, iy) = (x0 + inset[3] + pad[3], y0 + inset[0] + pad[0]);
    let (iw, ih) = ((w - inset[1] - inset[3] - pad[1] - pad[3]).max(0), (h - inset[0] - inset[2] - pad[0] - pad[2]).max(0));
    let mut inner = bare.clone(); for p in [&mut inner.padding.top, &mut inner.padding.right, &mut inner.padding.bottom, &mut inner.padding.left] { *p = Scalar::cells(0.0); }
    let content = draw(&widget(form, inner, text), Region::new(ix, iy, iw, ih));
    for y in 0..H as i32 { for x in 0..W as i32 {
        let got = at(&c, x, y);
        if x < x0 || y < y0 || x >= x0 + w || y >= y0 + h { check(got.symbol == "." && got.bg.is_none(), "a box stays in its place"); continue; }
        let (fx, lx, fy, ly) = (x == x0, x == x0 + w - 1, y == y0, y == y0 + h - 1);
        let row = if top && fy { 0 } else if bottom && ly { 2 } else { 9 };
        if row != 9 {
            // corners are the edge's own, unless a side is missing
            let whole = on[1] && on[3]; let corner = (fx && (outline && left || whole)) || (lx && (outline && right || whole));
            let u = round[row].as_ref().unwrap();
            if !corner && (w < 3 || h < 1) { continue; }
            let want = at(u, if corner { x } else { x0 + 1 }, y);
            check(got == want, "the edge above or below is drawn in its kind and colour");
            if k[row] != Blank && !corner { check(got.symbol != " ", "an edge can be seen"); }
        } else if left && fx {
            let u = round[3].as_ref().unwrap();
            if h < 3 && k[3] != Vkey { continue; }
            check(got == at(u, x, y0 + h / 2), "the edge at the left is drawn in its kind and colour");
            if k[3] != Blank { check(got.symbol != " " || got.attrs.reverse, "an edge can be seen"); }
        } else if right && lx {
            let u = round[1].as_ref().unwrap();
            if h < 3 && k[1] != Vkey { continue; }
            check(got == at(u, x, y0 + h / 2), "the edge at the right is drawn in its kind and colour");
            if k[1] != Blank { check(got.symbol != " " || got.attrs.reverse, "an edge can be seen"); }
        } else if x >= ix && x < ix + iw && y >= iy && y < iy + ih {
            check(got == at(&content, x, y), "what is inside is drawn as without a border");
        } else {
            check(got.symbol == " " && got.bg == at(&draw(&widget(1, bare.clone(), ""), r), x0, y0).bg, "padding is blank");
        }
    } }
    reach("end");
}
fn kinds4(n: &[BorderKind]) -> [BorderKind; 4] { let mut k = [BorderKind::None; 4]; for i in 0..4 { k[i] = n[pick(n.len() as u64) as usize]; } k }
/// Any kinds on the four edges of a box.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_mixed() { let k = kinds4(if tier(0, 1) == 1 { &FEW } else { &FEW[..4] }); let o = split(flag()); frame(0, k, o, 7, 4, [0, 1, 0, 0]) }
/// Every kind, alone on each edge.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_kinds() {
    let mut k = [BorderKind::None; 4]; let all = KINDS[1 + pick(16) as usize];
    match pick(5) { 4 => k = [all; 4], i => k[i as usize] = all }
    let form = pick(3); frame(form % 2, k, form == 2, 6, 5, [0; 4])
}
/// Every size, also too small ones, with padding.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_sizes() {
    let form = pick(5);
    let k = [[Round; 4], [Round, BorderKind::None, Round, BorderKind::None], [BorderKind::None, Thick, BorderKind::None, Thick], [Vkey; 4], [Tall, BorderKind::None, BorderKind::None, Heavy], [BorderKind::None; 4]][pick(6) as usize];
    let (w, h) = (1 + pick(7) as i32, 1 + pick(5) as i32);
    let p = [[0, 0, 0, 0], [0, 0, 0, 3], [1, 2, 1, 1], [0, 6, 0, 6]][pick(4) as usize];
    frame(form, k, false, w, h, p)
}
/// Titles stay within their edge and leave the rest alone.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_title() {
    let k = [[Round; 4], [Heavy, BorderKind::None, Heavy, BorderKind::None], [Vkey; 4], [BorderKind::None, BorderKind::None, BorderKind::None, Thick]][pick(4) as usize];
    let (w, h) = (1 + pick(9) as i32, 1 + pick(3) as i32 + 1);
    let (x0, y0) = (2, 1); let r = Region::new(x0, y0, w, h);
    let sub = split(flag()); let title = ["", "T", "Tu", "Tuvxy", "\u{5b57}\u{5b57}"][pick(5) as usize];
    let mut s = base(); s.border = border(k);
    let al = [AlignHorizontal::Left, AlignHorizontal::Center, AlignHorizontal::Right][pick(3) as usize];
    if sub { s.border_subtitle_align = al } else { s.border_title_align = al }
    let mut a: Static<u32> = Static::new("");
    if sub { a.set_border_subtitle(title) } else { a.set_border_title(title) }
    a.set_style(s.clone()); let a: B = Box::new(a);
    let c = draw(&a, r); let n = draw(&widget(0, s, ""), r);
    note!("{:?} {:?} {sub} {w}x{h}\n{}", title, k, c.to_snapshot());
    let row = if sub { y0 + h - 1 } else { y0 };
    let mut said = String::new(); let mut first = -1; let mut last = -1;
    for y in 0..H as i32 { for x in 0..W as i32 {
        let (p, q) = (at(&c, x, y), at(&n, x, y));
        if y != row || x < x0 || x >= x0 + w { check(p == q, "a title changes its row only"); continue; }
        if p.symbol == q.symbol && p.bg == q.bg && (p.symbol == " " || p.fg == q.fg) { continue; }
        if first < 0 { first = x; } last = x;
    } }
    if first >= 0 {
        check(first > x0 && (w < 3 || last < x0 + w - 1), "a title leaves the ends of its edge");
        for x in first..=last { let p = at(&c, x, row); if !p.continuation { said.push_str(&p.symbol); } }
    }
    let said: String = said.trim().to_string();
    check(said == title || { let t = said.trim_end_matches('\u{2026}').trim_end(); said.ends_with('\u{2026}') && title.starts_with(t) }|| said.is_empty(), "a title is shown as it is, or cut with an ellipsis");
    let room = w - 6; let len = match title { "" => 0, "T" => 1, "Tuvxy" => 5, "Tu" => 2, _ => 4 };
    if room >= len { check(said == title, "a title that fits is shown whole"); }
    if room >= len && len > 0 && k[0] == Round {
        let (lead, trail) = (first - x0 - 1, x0 + w - 2 - last);
        match al { AlignHorizontal::Left => check(lead == 1, "a title at the left"), AlignHorizontal::Right => check(trail == 1, "a title at the right"), _ => check((lead - trail).abs() <= 1, "a title in the middle") }
    }
    reach("end");
}
entries!(h_mixed, h_kinds, h_sizes, h_title);
