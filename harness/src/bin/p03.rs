//! P03: rows and columns share out their space exactly.
use harness::*;
use harness::lay::*;
use tcss::types::{ComputedStyle, Layout, Unit, BoxSizing};
use tcss::types::border::BorderKind;
use textual::canvas::Region;
use textual::layouts::*;

#[derive(Clone, Copy)]
enum K { Fr(i64), Cells(i64), Want(i64), Fill }
fn size_of(k: K) -> Option<i64> { match k { K::Cells(n) | K::Want(n) => Some(n), _ => None } }
fn weight(k: K) -> i64 { match k { K::Fr(n) => n, K::Fill => 2, _ => 0 } }  // in halves
fn kind(m: u64) -> K { match pick(m) { 0 => K::Fr(2 * pick_range(1, 3)), 1 => K::Cells(range(0, 40)), 2 => K::Want(range(0, 40)), _ => K::Fill } }
fn style_row(k: K, kid: &mut Kid) {
    match k {
        K::Fr(n) => kid.style.width = Some(unit(n as f64 / 2.0, Unit::Fraction)),
        K::Cells(n) => kid.style.width = Some(cells(n)),
        K::Want(n) => kid.leaf.dw = n as u16,
        K::Fill => kid.leaf.dw = u16::MAX,
    }
    if let K::Want(_) = k { } else if let K::Fill = k { } else { kid.leaf.dw = 7; }
}
fn parent(l: Layout) -> ComputedStyle { ComputedStyle { layout: l, ..Default::default() } }
fn region() -> Region { Region::new(range(-60, 60) as i32, range(-60, 60) as i32, range(0, 127) as i32, range(0, 127) as i32) }

/// Fixed and flexible widths in one row, with margins.
fn row(n: usize, margins: bool, m: u64) {
    let a = region();
    let mut v: Vec<Kid> = vec![]; let mut ks = vec![]; let mut ml = vec![]; let mut mr = vec![];
    for _ in 0..n {
        let mut kid = Kid::new(); let k = kind(m);
        style_row(k, &mut kid);
        let (l, r) = if margins { (range(0, 3), range(0, 3)) } else { (0, 0) };
        kid.style.margin.left = cells(l); kid.style.margin.right = cells(r);
        v.push(kid); ks.push(k); ml.push(l); mr.push(r);
    }
    let p = arrange_children(&parent(Layout::Horizontal), &kids(&v), a);
    check(p.len() == n, "one placement per child");
    let mut gaps = ml[0] + mr[n - 1];
    for i in 1..n { gaps += max(mr[i - 1], ml[i]); }
    let mut fixed = 0; let mut tot = 0;
    for k in &ks { fixed += size_of(*k).unwrap_or(0); tot += weight(*k); }
    let rem = max(a.width as i64 - fixed - gaps, 0);
    let (mut x, mut sum) = (a.x as i64 + ml[0], 0);
    let mut base = 0; for k in &ks { if tot > 0 { base += (rem as u64 * weight(*k) as u64 / tot as u64) as i64; } }
    let mut extra = rem - base;
    for i in 0..n {
        let r = find(&p, i);
        if i > 0 { x += max(mr[i - 1], ml[i]); }
        check(r.x as i64 == x, "children follow each other, separated by the larger margin");
        check(r.y == a.y && r.height == a.height, "a child without a height fills the row");
        let w = r.width as i64;
        if let Some(f) = size_of(ks[i]) { check(w == f, "a fixed child gets its own width"); }
        else {
            sum += w;
            check(w >= 0, "no negative width");
            let bonus = ite(extra > 0, 1, 0) as i64; extra -= bonus;
            check(w == (rem as u64 * weight(ks[i]) as u64 / tot as u64) as i64 + bonus, "a flexible child gets its proportional share");
        }
        x += w;
        observe(w as u64);
    }
    if tot > 0 { check(sum == rem, "flexible children use up exactly the space that is left"); reach("flexible"); }
    reach("end");
}
#[unsafe(no_mangle)] #[inline(never)] pub fn h_row2() { row(2, true, 4) }
#[unsafe(no_mangle)] #[inline(never)] pub fn h_row3() { row(3, false, tier(3, 4)) }

fn lim(w: i64, hi: Option<i64>, lo: Option<i64>) -> i64 {
    let w = match hi { Some(h) => min(w, h), None => w };
    match lo { Some(l) => max(w, l), None => w }
}
fn opt(n: i64) -> Option<i64> { if pick(2) == 1 { Some(range(0, n)) } else { None } }

/// Minimum and maximum widths: applied to whatever the child would get, the minimum last; neighbours move accordingly.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_row_limits() {
    let a = Region::new(range(-60, 60) as i32, 0, range(0, 127) as i32, 9);
    let mut k0 = Kid::new(); let mut k1 = Kid::new();
    let kind = pick(3); let n = range(0, 40);
    match kind { 0 => k0.style.width = Some(unit(1.0, Unit::Fraction)), 1 => k0.style.width = Some(cells(n)), _ => k0.leaf.dw = n as u16 }
    let (hi, lo) = (opt(60), opt(60));
    k0.style.max_width = hi.map(cells); k0.style.min_width = lo.map(cells);
    let m = range(0, 40); k1.style.width = Some(cells(m));
    let p = arrange_children(&parent(Layout::Horizontal), &kids(&[k0, k1]), a);
    let base = if kind == 0 { max(a.width as i64 - m, 0) } else { n };
    let w = lim(base, hi, lo);
    let (r0, r1) = (find(&p, 0), find(&p, 1));
    check(r0.width as i64 == w, "the width respects the maximum, then the minimum");
    check((r0.x == a.x) & (r1.x as i64 == a.x as i64 + w) & (r1.width as i64 == m), "the neighbour follows");
    observe(r0.width as u64);
    reach("end");
}
const PCT: [(f64, i64); 6] = [(50.0, 500), (33.3, 333), (12.5, 125), (100.0, 1000), (6.7, 67), (20.0, 200)];
fn unit_basis(u: u64, a: Region, v: Viewport) -> (Unit, i64) {
    match u { 0 => (Unit::Percent, a.width as i64), 1 => (Unit::Width, a.width as i64), 2 => (Unit::Height, a.height as i64), 3 => (Unit::ViewWidth, v.width as i64), _ => (Unit::ViewHeight, v.height as i64) }
}
/// Relative widths: no cell is lost to rounding, the right edge of the n-th child is the floor of the exact sum.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_row_percent() {
    let a = Region::new(2, 1, pick_range(0, tier(24, 60)) as i32, 11);
    let v = Viewport { width: 83, height: 37 };
    let n = 3; let mut ks = vec![]; let mut ex = vec![];
    for i in 0..n {
        let mut kid = Kid::new();
        let (u, b) = unit_basis(if i == 2 { 0 } else { pick(5) }, a, v); let (f, t) = PCT[if i == 2 { 1 } else { pick(tier(4, 6)) as usize }];
        kid.style.width = Some(unit(f, u)); ex.push(b * t); ks.push(kid);
    }
    let p = arrange_children_with_viewport(&parent(Layout::Horizontal), &kids(&ks), a, v);
    let mut sum = 0;
    for i in 0..n {
        let r = find(&p, i);
        check(r.x as i64 == 2 + sum / 1000, "starts where the previous one ends");
        sum += ex[i];
        check((r.x + r.width) as i64 == 2 + sum / 1000, "relative widths add up without losing cells");
        observe(r.width as u64);
    }
    reach("end");
}
/// Heights within a row: fill, fixed, automatic, limits and margins.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_row_height() {
    let a = Region::new(0, range(-60, 60) as i32, 20, range(0, 127) as i32);
    let mut k = Kid::new(); k.leaf.dw = 5; k.leaf.dh = 3;
    let n = range(0, 60); let kind = pick(4);
    let base = match kind {
        0 => a.height as i64,
        1 => { k.style.height = Some(cells(n)); n }
        2 => { k.style.height = Some(unit(0.0, Unit::Auto)); k.leaf.ih = n as u16; n }
        _ => { k.style.height = Some(unit(1.0, Unit::Fraction)); a.height as i64 }
    };
    let (hi, lo) = (opt(60), opt(60));
    k.style.max_height = hi.map(cells); k.style.min_height = lo.map(cells);
    let (t, b) = (range(0, 5), range(0, 5));
    k.style.margin.top = cells(t); k.style.margin.bottom = cells(b);
    let p = arrange_children(&parent(Layout::Horizontal), &kids(&[k]), a);
    let r = find(&p, 0);
    let h = lim(base, hi, lo);
    let h = if kind == 2 { h } else { max(h - t - b, 0) };
    check(r.height as i64 == h, "the height respects limits and margins");
    check(r.y as i64 == a.y as i64 + t, "below the top margin");
    observe(r.height as u64);
    reach("end");
}
/// Declared sizes and the box model: with content-box the border and padding come on top.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_chrome() {
    let a = Region::new(0, 0, 100, 100);
    let mut k = Kid::new();
    let (w, h) = (range(0, 60), range(0, 60));
    k.style.width = Some(cells(w)); k.style.height = Some(cells(h));
    let (pt, pr, pb, pl) = (range(0, 5), range(0, 5), range(0, 5), range(0, 5));
    k.style.padding.top = cells(pt); k.style.padding.right = cells(pr); k.style.padding.bottom = cells(pb); k.style.padding.left = cells(pl);
    let e = [pick(2) == 1, pick(2) == 1, pick(2) == 1, pick(2) == 1];
    if e[0] { k.style.border.top.kind = BorderKind::Solid; }
    if e[1] { k.style.border.right.kind = BorderKind::Round; }
    if e[2] { k.style.border.bottom.kind = BorderKind::Heavy; }
    if e[3] { k.style.border.left.kind = BorderKind::Tall; }
    let content = pick(2) == 1;
    k.style.box_sizing = if content { BoxSizing::ContentBox } else { BoxSizing::BorderBox };
    let l = if pick(2) == 0 { Layout::Horizontal } else { Layout::Vertical };
    let p = arrange_children(&parent(l), &kids(&[k]), a);
    let r = find(&p, 0);
    let (cw, ch) = if content { (pl + pr + e[1] as i64 + e[3] as i64, pt + pb + e[0] as i64 + e[2] as i64) } else { (0, 0) };
    check(r.height as i64 == h + ch, "declared height plus the chrome of a content box");
    if l == Layout::Horizontal { check(r.width as i64 == w + cw, "declared width plus the chrome of a content box"); }
    observe(r.height as u64);
    reach("end");
}
/// A column of fixed-size children with collapsing margins, at symbolic sizes.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_col_fixed() {
    let a = region(); let n = 3;
    let mut ks = vec![]; let mut hs = vec![]; let mut mt = vec![]; let mut mb = vec![];
    for i in 0..n {
        let mut k = Kid::new(); let h = range(0, 40);
        match if i == 2 { 0 } else { pick(3) } { 0 => k.style.height = Some(cells(h)), 1 => k.leaf.dh = h as u16, _ => { k.style.height = Some(unit(0.0, Unit::Auto)); k.leaf.ih = h as u16 } }
        let (t, b) = (range(0, 5), range(0, 5));
        k.style.margin.top = cells(t); k.style.margin.bottom = cells(b);
        ks.push(k); hs.push(h); mt.push(t); mb.push(b);
    }
    let (hi, lo) = (opt(40), opt(40));
    ks[1].style.max_height = hi.map(cells); ks[1].style.min_height = lo.map(cells);
    let p = arrange_children(&parent(Layout::Vertical), &kids(&ks), a);
    check(p.len() == n, "one placement per child");
    let mut y = a.y as i64 + mt[0];
    for i in 0..n {
        let r = find(&p, i);
        if i > 0 { y += max(mb[i - 1], mt[i]); }
        let h = if i == 1 { lim(hs[1], hi, lo) } else { hs[i] };
        check(r.y as i64 == y, "children follow each other, separated by the larger margin");
        check(r.height as i64 == h, "a fixed child gets its own height, within its limits");
        check((r.x == a.x) & (r.width == a.width), "a child without a width fills the column");
        y += h;
        observe(r.y as u64);
    }
    reach("end");
}
/// Flexible and fixed heights in one column: nothing is lost to rounding.
fn column(n: usize, margins: bool) {
    let a = Region::new(1, if n == 2 { 3 } else { pick_range(-1, 0) as i32 * 7 }, 10, range(0, tier(47, 127)) as i32);
    let mut ks = vec![]; let mut sz = vec![]; let mut mt = vec![]; let mut mb = vec![]; let (mut fixed, mut tot) = (0, 0);
    for i in 0..n {
        let mut k = Kid::new();
        let (t, b) = if margins { (pick(2) as i64 * (1 + i as i64), pick(2) as i64) } else { (0, 0) };
        k.style.margin.top = cells(t); k.style.margin.bottom = cells(b); mt.push(t); mb.push(b);
        match pick(if n > 2 { 5 } else { 6 }) {
            0 => { let c = 5; k.style.height = Some(cells(c)); fixed += c; sz.push((c, 0)); }
            1 => { k.leaf.dh = u16::MAX; tot += 2; sz.push((0, 2)); }
            5 => { k.leaf.dh = 4; fixed += 4; sz.push((4, 0)); }
            w => { let w = [1, 3, 4][w as usize - 2] * if i == 1 { 2 } else { 1 }; k.style.height = Some(unit(w as f64 / 2.0, Unit::Fraction)); tot += w; sz.push((0, w)); }
        }
        ks.push(k);
    }
    assume(tot > 0);
    let mut gaps = mt[0] + mb[n - 1];
    for i in 1..n { gaps += mb[i - 1].max(mt[i]); }
    let rem = a.height as i64 - fixed - gaps;
    assume(rem > 0);
    let p = arrange_children(&parent(Layout::Vertical), &kids(&ks), a);
    check(p.len() == n, "one placement per child");
    // positions relative to the top, in units of 1/tot of a cell
    let mut y = 0u64;
    for i in 0..n {
        let r = find(&p, i);
        y += if i == 0 { mt[0] } else { mb[i - 1].max(mt[i]) } as u64 * tot as u64;
        check(r.y as i64 == a.y as i64 + (y / tot as u64) as i64, "starts at the exact position, rounded down");
        y += sz[i].0 as u64 * tot as u64 + sz[i].1 as u64 * rem as u64;
        check((r.y + r.height) as i64 == a.y as i64 + (y / tot as u64) as i64, "ends at the exact position, rounded down");
        observe(r.height as u64);
    }
    let l = find(&p, n - 1);
    check((l.y + l.height) as i64 + mb[n - 1] == (a.y + a.height) as i64, "flexible children use up exactly the space that is left");
    reach("end");
}
#[unsafe(no_mangle)] #[inline(never)] pub fn h_col2() { column(2, true) }
#[unsafe(no_mangle)] #[inline(never)] pub fn h_col3() { column(3, false) }
/// Many equal rows: the last one still ends exactly at the bottom.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_col_many() {
    let n = pick_range(4, tier(9, 14)) as usize;
    let a = Region::new(0, 0, 10, range(1, 120) as i32);
    let mut ks = vec![];
    for _ in 0..n { let mut k = Kid::new(); k.style.height = Some(unit(1.0, Unit::Fraction)); ks.push(k); }
    let p = arrange_children(&parent(Layout::Vertical), &kids(&ks), a);
    for i in 0..n {
        let r = find(&p, i);
        check(r.y as u64 == a.height as u64 * i as u64 / n as u64, "equal rows start at equal steps");
        check((r.y + r.height) as u64 == a.height as u64 * (i as u64 + 1) / n as u64, "equal rows leave no gap");
    }
    reach("end");
}
/// Padding, docked siblings: the column shares out what the region has left, whatever the viewport.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_col_dock() {
    let a = Region::new(0, 0, 10, range(12, 100) as i32);
    let v = Viewport { width: range(1, 200) as i32, height: range(1, 200) as i32 };
    let mut d = Kid::new(); let dh = range(0, 5); d.leaf.dh = dh as u16; d.style.dock = Some(tcss::types::Dock::Top);
    let mut f = Kid::new(); f.style.height = Some(unit(1.0, Unit::Fraction));
    let mut c = Kid::new(); let ch = range(0, 5); c.style.height = Some(cells(ch));
    let p = arrange_children_with_viewport(&parent(Layout::Vertical), &kids(&[d, f, c]), a, v);
    let (rd, rf, rc) = (find(&p, 0), find(&p, 1), find(&p, 2));
    check((rd.y == 0) & (rd.height as i64 == dh) & (rd.width == 10), "docked at the top, full width");
    check((rf.y as i64 == dh) & (rf.height as i64 == a.height as i64 - dh - ch), "the flexible row takes what is left");
    check((rc.y + rc.height == a.height) & (rc.height as i64 == ch), "and the last row ends at the bottom");
    reach("end");
}
/// Widths within a column: fill, fixed, automatic, percentages, limits and margins.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_col_width() {
    let mut k = Kid::new(); k.leaf.dh = 1;
    let n = range(0, 60); let kind = pick(5);
    let a = Region::new(range(-60, 60) as i32, 0, if kind == 4 { pick_range(0, 40) } else { range(0, 127) } as i32, 20);
    let base = match kind {
        0 => a.width as i64,
        1 => { k.style.width = Some(cells(n)); n }
        2 => { k.style.width = Some(unit(0.0, Unit::Auto)); k.leaf.dw = n as u16; n }
        3 => { k.style.width = Some(unit(1.0, Unit::Fraction)); a.width as i64 }
        _ => { let (f, t) = PCT[pick(3) as usize]; k.style.width = Some(unit(f, Unit::Percent)); (a.width as i64 * t * 2 + 1000) / 2000 }
    };
    let (hi, lo) = (opt(60), opt(60));
    k.style.max_width = hi.map(cells); k.style.min_width = lo.map(cells);
    let (l, r) = (range(0, 5), range(0, 5));
    k.style.margin.left = cells(l); k.style.margin.right = cells(r);
    let p = arrange_children(&parent(Layout::Vertical), &kids(&[k]), a);
    let g = find(&p, 0);
    let w = if kind == 1 || kind == 2 { base } else { max(base - l - r, 0) };
    check(g.width as i64 == lim(w, hi, lo), "the width respects limits and margins");
    check(g.x as i64 == a.x as i64 + l, "right of the left margin");
    observe(g.width as u64);
    reach("end");
}
/// Relative limits (percentages of the container and of the viewport) on widths and heights.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_limits_units() {
    let a = Region::new(0, 0, pick_range(0, 12) as i32 * 5, 40); let v = Viewport { width: 90, height: 30 };
    let row = pick(2) == 0;
    let (u, b) = unit_basis(pick(5), a, v);
    let (f, t) = PCT[pick(3) as usize];
    let maxi = pick(2) == 1; let vert = pick(2) == 1;
    let mut k = Kid::new(); let n = range(0, 100);
    let s = Some(unit(f, u));
    // percentages of heights refer to the container's height
    let b = if vert && matches!(u, Unit::Percent) { a.height as i64 } else { b };
    if vert { k.style.height = Some(cells(n)); if maxi { k.style.max_height = s } else { k.style.min_height = s } }
    else { k.style.width = Some(cells(n)); if maxi { k.style.max_width = s } else { k.style.min_width = s } }
    let p = arrange_children_with_viewport(&parent(if row { Layout::Horizontal } else { Layout::Vertical }), &kids(&[k]), a, v);
    let r = find(&p, 0);
    let got = if vert { r.height } else { r.width } as i64;
    let l = b * t / 1000;
    check(got == if maxi { min(n, l) } else { max(n, l) }, "a relative limit is that share of its basis");
    observe(got as u64);
    reach("end");
}

entries!(h_row2, h_row3, h_row_limits, h_row_percent, h_row_height, h_chrome, h_col_fixed, h_col2, h_col3, h_col_many, h_col_dock, h_col_width, h_limits_units);
