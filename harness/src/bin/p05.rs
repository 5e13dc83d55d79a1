//! P05: the grid.
use harness::*;
use harness::lay::*;
use tcss::types::{ComputedStyle, Layout as L, Scalar, Unit};
use textual::canvas::Region;
use textual::layouts::*;

fn parent(cols: u16, rows: Option<u16>) -> ComputedStyle {
    let mut s = ComputedStyle { layout: L::Grid, ..Default::default() };
    s.grid.columns = Some(cols); s.grid.rows = rows; s
}
fn fr(v: f64) -> Scalar { unit(v, Unit::Fraction) }
/// Track sizes: fixed ones as written, the rest shared out by weight; whole cells, none lost, at least one each.
fn tracks(vertical: bool) {
    let n = pick_range(1, 3) as usize; let g = range(0, 3);
    let avail = range(0, tier(60, 120));
    let f = range(0, tier(15, 30));
    // (scalar, fixed size or weight in halves)
    let specs: Vec<(Scalar, Option<i64>, i64)> = match pick(7) {
        0 => vec![],
        1 => vec![(fr(1.0), None, 2), (fr(2.0), None, 4)],
        2 => vec![(cells(f), Some(f), 0), (fr(1.0), None, 2)],
        3 => vec![(fr(1.5), None, 3), (fr(0.5), None, 1), (cells(f), Some(f), 0)],
        4 => vec![(unit(0.0, Unit::Auto), None, 2)],
        5 => vec![(unit(0.0, Unit::Auto), None, 2), (cells(f), Some(f), 0)],
        _ => vec![(cells(f), Some(f), 0)],
    };
    let mut st = if vertical { parent(1, Some(n as u16)) } else { parent(n as u16, None) };
    let list: Vec<Scalar> = specs.iter().map(|s| s.0).collect();
    if vertical { st.grid.row_heights = list; st.grid.gutter = (cells(g), cells(7)); } else { st.grid.column_widths = list; st.grid.gutter = (cells(7), cells(g)); }
    let a = if vertical { Region::new(4, -9, 11, avail as i32) } else { Region::new(-9, 4, avail as i32, 11) };
    let ks: Vec<Kid> = (0..n).map(|_| Kid::new()).collect();
    let p = arrange_children(&st, &kids(&ks), a);
    check(p.len() == n, "every child is placed once");
    let spec = |i: usize| if specs.is_empty() { (None, 2) } else { let s = &specs[i % specs.len()]; (s.1, s.2) };
    let mut rem = max(avail - (n as i64 - 1) * g, 0); let mut tot = 0;
    for i in 0..n { let (fx, w) = spec(i); rem -= fx.unwrap_or(0); tot += w; }
    assume(rem >= 0);
    let (mut pos, mut acc) = (0i64, 0u64);
    for i in 0..n {
        let r = find(&p, i); let (fx, w) = spec(i);
        let want = match fx { Some(s) => s, None => { let b = acc / tot as u64; acc += rem as u64 * w as u64; (acc / tot as u64 - b) as i64 } };
        let (o, s) = if vertical { (r.y as i64 - a.y as i64, r.height as i64) } else { (r.x as i64 - a.x as i64, r.width as i64) };
        check(s == max(want, 1), "a track has its fixed size or its exact share");
        check(o == pos, "tracks follow each other, one gutter apart");
        if vertical { check((r.x == a.x) & (r.width == 11), "one column takes the whole width"); } else { check((r.y == a.y) & (r.height == 11), "one row takes the whole height"); }
        pos += s + g; observe(s as u64);
    }
    reach("end");
}
#[unsafe(no_mangle)] #[inline(never)] pub fn h_columns() { tracks(false) }
#[unsafe(no_mangle)] #[inline(never)] pub fn h_rows() { tracks(true) }

/// Reference placement: first free cell in reading order, never backwards, spans cut at the grid's edge.
fn reference(spans: &[(usize, usize)], cols: usize, rows: Option<usize>) -> (Vec<Option<(usize, usize, usize, usize)>>, usize) {
    let limit = rows.unwrap_or(64); let mut occ = vec![false; cols * limit]; let mut cur = 0; let mut out = vec![]; let mut used = 0;
    for (cs, rs) in spans {
        let mut got = None;
        while cur < cols * limit {
            let (r, c) = (cur / cols, cur % cols);
            let (w, h) = ((*cs).max(1).min(cols - c), (*rs).max(1).min(limit - r));
            let free = (r..r + h).all(|y| (c..c + w).all(|x| !occ[y * cols + x]));
            if free { for y in r..r + h { for x in c..c + w { occ[y * cols + x] = true; } } got = Some((c, r, w, h)); used = used.max(r + h); cur += 1; break; }
            cur += 1;
        }
        out.push(got);
    }
    (out, rows.unwrap_or(used))
}
fn placement(n: usize, cols: usize, rows: Option<usize>, mc: u64, mr: u64) {
    let (gv, gh) = (1, 2);
    let mut st = parent(cols as u16, rows.map(|r| r as u16));
    st.grid.gutter = (cells(gv), cells(gh));
    st.grid.column_widths = vec![cells(5), cells(3)]; st.grid.row_heights = vec![cells(2), cells(4)];
    let (cw, rh) = ([5i64, 3], [2i64, 4]);
    let mut ks = vec![]; let mut sp = vec![];
    for _ in 0..n {
        let (c, r) = if ks.len() == 3 && !DEEP { (1, 1) } else { (pick(mc) as usize, pick(mr) as usize) };
        let mut k = Kid::new(); k.style.grid_placement.column_span = c as u16; k.style.grid_placement.row_span = r as u16;
        sp.push((c, r)); ks.push(k);
    }
    let a = Region::new(7, -3, 60, 60);
    let p = arrange_children(&st, &kids(&ks), a);
    let (want, nrows) = reference(&sp, cols, rows);
    if rows.is_none() { check(want.iter().all(|w| w.is_some()), "oracle: automatic rows hold every child"); check(p.len() == n, "with automatic rows every child is placed"); }
    check(p.len() == want.iter().filter(|w| w.is_some()).count(), "exactly the children that fit are placed");
    let edge = |v: &[i64], g: i64, i: usize| { let mut o = 0; for j in 0..i { o += v[j % 2] + g; } o };
    for (i, w) in want.iter().enumerate() {
        if let Some((c, r, cs, rs)) = w {
            let q = find(&p, i);
            let (x0, x1) = (edge(&cw, gh, *c), edge(&cw, gh, c + cs) - gh);
            let (y0, y1) = (edge(&rh, gv, *r), edge(&rh, gv, r + rs) - gv);
            note!("child {i} span {:?} at {:?} want {:?} got {:?}", sp[i], w, (x0, y0, x1 - x0, y1 - y0), q);
            check(q.x as i64 == 7 + x0 && q.y as i64 == -3 + y0, "a child starts at the first free cell in reading order");
            check(q.width as i64 == x1 - x0 && q.height as i64 == y1 - y0, "a child covers the cells it spans and the gutters between them");
        }
    }
    // what the keylines are drawn from agrees
    let info = GridLayout::default().compute_track_info(&st, &kids(&ks), a);
    let (cp, rp) = (&info.col_positions, &info.row_positions);
    check(cp.len() == cols + 1 && rp.len() == nrows + 1 && info.cell_occupancy.len() == nrows, "one keyline per track edge");
    for c in 0..cols { check(cp[c] as i64 == edge(&cw, gh, c), "column lines stand at the column edges"); }
    for r in 0..nrows { check(rp[r] as i64 == edge(&rh, gv, r), "row lines stand at the row edges"); }
    check(cp[cols] as i64 == edge(&cw, gh, cols) - gh && rp[nrows] as i64 == (edge(&rh, gv, nrows) - gv).min(59), "the last line closes the grid");
    for r in 0..nrows { for c in 0..cols {
        let o = (0..n).find(|i| want[*i].map_or(false, |(x, y, w, h)| x <= c && c < x + w && y <= r && r < y + h));
        check(info.cell_occupancy[r][c] == o, "keyline occupancy is the placement");
    } }
    reach("end");
}
#[unsafe(no_mangle)] #[inline(never)] pub fn h_place_auto() { let c = pick_range(1, 3) as usize; placement(4, c, None, 4, 4) }
#[unsafe(no_mangle)] #[inline(never)] pub fn h_place_fixed() { let c = pick_range(1, 3) as usize; let r = pick_range(1, 3) as usize; placement(4, c, Some(r), 4, 4) }
/// Many unspanned children fill the grid in reading order.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_many() {
    let n = pick_range(1, tier(9, 14)) as usize; let cols = pick_range(1, 5) as usize;
    let (w, h) = (range(1, 9), range(1, 9));
    let mut st = parent(cols as u16, None);
    st.grid.column_widths = vec![cells(w)]; st.grid.row_heights = vec![cells(h)];
    let ks: Vec<Kid> = (0..n).map(|_| Kid::new()).collect();
    let p = arrange_children(&st, &kids(&ks), Region::new(0, 0, 100, 100));
    check(p.len() == n, "every child is placed once");
    for i in 0..n { let r = find(&p, i); check((r.x as i64 == w * (i % cols) as i64) & (r.y as i64 == h * (i / cols) as i64) & (r.width as i64 == w) & (r.height as i64 == h), "reading order"); }
    reach("end");
}
/// A child within its cell: own size, never wider than the cell, margins inside it.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_cell() {
    let a = Region::new(range(-20, 20) as i32, range(-20, 20) as i32, range(1, 90) as i32, range(1, 90) as i32);
    let mut k = Kid::new(); let (w, h) = (range(0, 90), range(0, 90));
    let kw = pick(4); let kh = pick(4);
    let bw = match kw { 0 => a.width as i64, 1 => { k.style.width = Some(cells(w)); min(w, a.width as i64) } 2 => { k.style.width = Some(unit(0.0, Unit::Auto)); k.leaf.dw = w as u16; min(w, a.width as i64) } _ => { k.style.width = Some(fr(1.0)); a.width as i64 } };
    let bh = match kh { 0 => a.height as i64, 1 => { k.style.height = Some(cells(h)); h } 2 => { k.style.height = Some(unit(0.0, Unit::Auto)); k.leaf.ih = h as u16; h } _ => { k.style.height = Some(fr(1.0)); a.height as i64 } };
    let m = [range(0, 4), range(0, 4), range(0, 4), range(0, 4)];
    k.style.margin.top = cells(m[0]); k.style.margin.right = cells(m[1]); k.style.margin.bottom = cells(m[2]); k.style.margin.left = cells(m[3]);
    let p = arrange_children(&parent(1, None), &kids(&[k]), a);
    let r = find(&p, 0);
    check((r.x as i64 == a.x as i64 + m[3]) & (r.y as i64 == a.y as i64 + m[0]), "inside its margins");
    check((r.width as i64 == max(bw - m[1] - m[3], 0)) & (r.height as i64 == max(bh - m[0] - m[2], 0)), "its own size within the cell, less the margins");
    observe(r.width as u64);
    reach("end");
}
/// Without column and row sizes, an automatically sized grid takes its tracks from its contents.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_content() {
    let mut st = parent(2, None);
    st.width = Some(unit(0.0, Unit::Auto)); st.height = Some(unit(0.0, Unit::Auto));
    let g = range(0, 2); st.grid.gutter = (cells(g), cells(g));
    let n = 4; let mut s = vec![]; let mut ks = vec![];
    for _ in 0..n { let (w, h) = (range(1, 20), range(1, 20)); let mut k = Kid::new(); k.leaf.dw = w as u16; k.leaf.dh = h as u16; s.push((w, h)); ks.push(k); }
    let a = Region::new(0, 0, range(42, 100) as i32, range(42, 100) as i32);
    let p = arrange_children(&st, &kids(&ks), a);
    check(p.len() == n, "every child is placed once");
    let c = [max(s[0].0, s[2].0), max(s[1].0, s[3].0)]; let r = [max(s[0].1, s[1].1), max(s[2].1, s[3].1)];
    for i in 0..n {
        let q = find(&p, i); let (x, y) = (i % 2, i / 2);
        check((q.x as i64 == if x == 1 { c[0] + g } else { 0 }) & (q.y as i64 == if y == 1 { r[0] + g } else { 0 }), "tracks follow each other");
        check((q.width as i64 == c[x]) & (q.height as i64 == r[y]), "a track is as large as its largest child");
    }
    reach("end");
}
/// A minimum column width decides the number of columns.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_min_width() {
    let mw = pick_range(1, tier(9, 20)); let w = pick_range(1, tier(60, 120)); let n = 5;
    let ks: Vec<Kid> = (0..n).map(|_| Kid::new()).collect();
    let a = Region::new(0, 0, w as i32, 50);
    let p = arrange_children_with_pre_layout(|l| { l.as_grid_mut().unwrap().min_column_width = Some(mw as u16); }, &parent(3, None), &kids(&ks), a);
    check(p.len() == n, "every child is placed once");
    let cols = max(w / mw, 1);
    for i in 0..n as i64 {
        let r = find(&p, i as usize);
        // column i%cols of `cols` equal columns
        let first = find(&p, 0);
        check((r.y == first.y) == (i < cols), "as many children side by side as fit");
        check(r.width as i64 * cols + cols > w, "columns share the whole width");
    }
    reach("end");
}

entries!(h_columns, h_rows, h_place_auto, h_place_fixed, h_many, h_cell, h_content, h_min_width);
