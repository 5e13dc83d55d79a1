//! P12: mixed colours lie between the colours mixed, in the proportion asked for.
use harness::*;
use tcss::types::{ComputedStyle, RgbaColor};
use textual::segment::{Segment, Style};
use textual::strip::Strip;
/// Proportions in percent.
const F: [u64; 12] = [0, 1, 10, 25, 33, 50, 66, 75, 90, 99, 100, 5];
fn fraction() -> u64 { F[pick(tier(11, 12)) as usize] }
/// r is base mixed with k percent of over, to within one step, and between the two.
fn mixed(r: u8, base: u8, over: u8, k: u64) -> bool {
    let (r, b, o) = (r as i64, base as i64, over as i64);
    let v = 100 * b + (o - b) * k as i64; let d = 100 * r - v;
    let inside = ite(b <= o, ((b <= r) & (r <= o)) as u64, ((o <= r) & (r <= b)) as u64) == 1;
    (d <= 100) & (d >= -100) & inside & imp(k == 0, r == b) & imp(k == 100, r == o)
}
fn all(c: &RgbaColor, b: &RgbaColor, o: &RgbaColor, k: u64) -> bool { mixed(c.r, b.r, o.r, k) & mixed(c.g, b.g, o.g, k) & mixed(c.b, b.b, o.b, k) }
/// A colour whose channel `free` is symbolic.
fn col(free: usize, a: f32) -> RgbaColor { let v = u8s(); let x = [7u8, 130, 255]; RgbaColor::rgba(if free == 0 { v } else { x[0] }, if free == 1 { v } else { x[1] }, if free == 2 { v } else { x[2] }, a) }
/// A colour whose channel `free` is one of a few values.
fn fix(free: usize, a: f32) -> RgbaColor { let v = [0u8, 255, 100, 1, 254, 37, 200][pick(tier(5, 7)) as usize]; let x = [9u8, 200, 30]; RgbaColor::rgba(if free == 0 { v } else { x[0] }, if free == 1 { v } else { x[1] }, if free == 2 { v } else { x[2] }, a) }
/// Two colours, one of them symbolic.
fn two(free: usize, a: f32, b: f32) -> (RgbaColor, RgbaColor) { if split(flag()) { (col(free, a), fix(free, b)) } else { (fix(free, a), col(free, b)) } }
fn plain(c: &RgbaColor) -> bool { c.ansi.is_none() && !c.auto && c.theme_var.is_none() }
#[unsafe(no_mangle)] #[inline(never)] pub fn h_tint() {
    let k = fraction(); let ch = pick(3) as usize; let a = [1.0, 0.5, 0.0][pick(3) as usize];
    let (b, o) = two(ch, a, k as f32 / 100.0);
    let c = b.tint(&o);
    check(all(&c, &b, &o, k), "a tint moves each channel by its alpha towards the tint");
    check(c.a == a && plain(&c), "a tint keeps the transparency");
    let d = o.blend_over(&b);
    check(all(&d, &b, &o, k), "a translucent colour over another");
    check(d.a == if k == 100 { 1.0 } else { a }, "an opaque colour hides the one below");
    reach("end");
}
#[unsafe(no_mangle)] #[inline(never)] pub fn h_blend() {
    let k = fraction(); let ch = pick(3) as usize; let (x, y) = ([1.0f32, 0.5, 0.0][pick(3) as usize], [1.0f32, 0.25][pick(2) as usize]);
    let (b, o) = two(ch, x, y);
    let f = k as f32 / 100.0;
    let c = b.blend(&o, f, None);
    check(all(&c, &b, &o, k), "blending moves each channel by the factor");
    check((c.a - (x + (y - x) * f)).abs() < 0.0001, "and the alpha");
    let c = b.blend(&o, f, Some(0.75));
    check(all(&c, &b, &o, k), "an alpha given does not change the channels");
    if k != 0 && k != 100 { check(c.a == 0.75, "an alpha given is taken"); }
    let c = b.blend_toward(&o, k as f64 / 100.0);
    check(all(&c, &o, &b, k), "fading keeps the factor of the colour and takes the rest from the other");
    // factors out of range are limited
    let c = b.blend(&o, [-1.0f32, -0.001][pick(2) as usize], None); check(c == b, "a factor below zero counts as zero");
    let c = b.blend(&o, [1.001f32, 9.0][pick(2) as usize], None); check(c == o, "a factor above one counts as one");
    let c = b.blend_toward(&o, [-1.0f64, -0.001][pick(2) as usize]); check(c == o, "a factor below zero counts as zero");
    let c = b.blend_toward(&o, [1.001f64, 9.0][pick(2) as usize]); check(c == b, "a factor above one counts as one");
    reach("end");
}
/// Any alpha, any factor, any channel: between the two colours.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_between() {
    let f = range(0, tier(100, 1000)) as f32 / tier(100.0, 1000.0); let (x, y) = ([0u8, 255, 128][pick(3) as usize], [0u8, 254, 37][pick(3) as usize]);
    let b = RgbaColor::rgb(x, 0, 0); let o = RgbaColor::rgba(y, 0, 0, f);
    let c = b.tint(&o); let d = b.blend(&RgbaColor::rgb(y, 0, 0), f, Some(1.0));
    let (lo, hi) = if x < y { (x, y) } else { (y, x) };
    check((lo <= c.r) & (c.r <= hi), "a tint lies between the colours");
    check((lo <= d.r) & (d.r <= hi), "a blend lies between the colours");
    check((c.g == 0) & (c.b == 0) & (d.g == 0) & (d.b == 0), "equal channels stay");
    reach("end");
}
/// Readable text: white on dark, black on light, and the inverse.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_contrast() {
    let ch = pick(3) as usize; let mut v = [[0u8, 128, 255][pick(3) as usize], [0u8, 110, 255][pick(3) as usize], [0u8, 128, 255][pick(3) as usize]]; v[ch] = u8s();
    let c = RgbaColor::rgb(v[0], v[1], v[2]);
    let w = 299 * v[0] as u64 + 587 * v[1] as u64 + 114 * v[2] as u64;
    let t = c.contrast_text(0.5); let u = c.get_contrasting_color(1.0);
    check(imp(w < 127499, (t.r == 255) & (t.g == 255) & (t.b == 255)) & imp(w > 127501, (t.r == 0) & (t.g == 0) & (t.b == 0)), "text is white on dark and black on light");
    check(imp(w < 127499, (u.r == 255) & (u.g == 255) & (u.b == 255)) & imp(w > 127501, (u.r == 0) & (u.g == 0) & (u.b == 0)), "automatic colours are white on dark and black on light");
    check(t.a == 0.5 && u.a == 1.0, "with the alpha asked for");
    let i = c.inverse();
    check((i.r == 255 - v[0]) & (i.g == 255 - v[1]) & (i.b == 255 - v[2]), "the inverse");
    reach("end");
}
#[unsafe(no_mangle)] #[inline(never)] pub fn h_auto() {
    let k = fraction(); let ch = pick(3) as usize; let c = col(ch, 1.0);
    let full = c.get_contrasting_color(1.0); let part = c.get_contrasting_color(k as f32 / 100.0);
    check(all(&part, &c, &full, k), "an automatic colour mixes the contrast with the background");
    check(part.a == 1.0, "and is opaque");
    reach("end");
}
/// Opacity of a widget's background.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_background() {
    let ch = pick(3) as usize; let (b, p) = two(ch, [1.0, 0.5][pick(2) as usize], 1.0);
    let k = [0u64, 10, 50, 70, 100][pick(5) as usize]; let own = pick(3); let par = split(flag()); let kt = [0u64, 50, 100][pick(3) as usize]; let t = RgbaColor::rgba(3, 240, 99, kt as f32 / 100.0); let tinted = split(flag());
    let mut s = ComputedStyle::default(); s.opacity = k as f64 / 100.0;
    s.background = match own { 0 => None, 1 => Some(b.clone()), _ => Some(RgbaColor::transparent()) };
    if par { s.inherited_background = Some(p.clone()); }
    if tinted { s.background_tint = Some(t.clone()); }
    let e = s.effective_background();
    match own {
        2 => check(e.is_none(), "a transparent background paints nothing"),
        0 => check(e == if par { Some(p) } else { None }, "without a background the one behind shows"),
        _ => match e {
            None => check(false, "a background is painted"),
            Some(e) => {
                let base = if tinted { b.tint(&t) } else { b.clone() };
                if !par || k == 100 { check(e == base, "an opaque widget paints its tinted background"); }
                // twice faded towards the background behind: opacity squared
                else { check(all(&e, &p, &base, k * k / 100), "opacity fades the background towards the one behind"); check(e.a == b.a || k == 0, "keeping its alpha"); }
            }
        },
    }
    reach("end");
}
/// Lines tinted and faded.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_line() {
    let k = fraction(); let ch = pick(3) as usize; let (f, b) = two(ch, 1.0, 1.0); let (hf, hb) = (split(flag()), split(flag()));
    let t = RgbaColor::rgba(9, 200, 30, k as f32 / 100.0);
    let (bold, rev) = (flag(), flag());
    let st = Style { fg: if hf { Some(f.clone()) } else { None }, bg: if hb { Some(b.clone()) } else { None }, bold, reverse: rev, ..Style::default() };
    let line = Strip::from_segments(vec![Segment::styled("ab", st.clone()), Segment::new("c")]);
    let r = line.apply_tint(&t); let g = &r.segments()[0];
    let s = g.style().cloned().unwrap_or_default();
    check(r.text() == "abc" && s.fg.is_some() == hf && s.bg.is_some() == hb && s.bold == bold && s.reverse == rev, "a tint changes colours only");
    if let Some(c) = &s.fg { check(all(c, &f, &t, k), "text is tinted"); }
    if let Some(c) = &s.bg { check(all(c, &b, &t, k), "its background is tinted"); }
    let fb = split(flag()); let back = RgbaColor::rgb(100, 101, 102);
    let r = line.apply_text_opacity(k as f64 / 100.0, if fb { Some(&back) } else { None });
    let s = r.segments()[0].style().cloned().unwrap_or_default();
    check(s.bg.is_some() == hb && s.bold == bold && s.reverse == rev && s.fg.is_some() == if k == 0 { false } else { hf || (k < 100 && (hb || fb)) }, "fading changes the text colour only");
    if let Some(c) = &s.bg { check(*c == b, "fading keeps the background"); }
    if let (Some(c), Some(d)) = (&s.fg, if hb { Some(&b) } else if fb { Some(&back) } else { None }) { if k > 0 && hf { check(all(c, d, &f, k), "text fades into its background"); } }
    reach("end");
}
entries!(h_tint, h_blend, h_between, h_contrast, h_auto, h_background, h_line);
