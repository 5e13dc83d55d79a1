//! P04: docking, alignment, offsets, absolute positions and layers.
use harness::*;
use harness::lay::*;
use tcss::types::{AlignHorizontal, AlignVertical, ComputedStyle, Dock, Layout, Position, Unit};
use textual::canvas::Region;
use textual::layouts::*;

fn parent(l: Layout) -> ComputedStyle { ComputedStyle { layout: l, ..Default::default() } }
fn region() -> Region { Region::new(range(-60, 60) as i32, range(-60, 60) as i32, range(0, 127) as i32, range(0, 127) as i32) }
fn dock(i: u64) -> Dock { match i { 0 => Dock::Top, 1 => Dock::Bottom, 2 => Dock::Left, _ => Dock::Right } }
fn layout() -> Layout { match pick(3) { 0 => Layout::Vertical, 1 => Layout::Horizontal, _ => Layout::Grid } }
fn same(a: Region, b: Region) -> bool { (a.x == b.x) & (a.y == b.y) & (a.width == b.width) & (a.height == b.height) }

/// Docked children hug their edge; the rest is laid out as if the container were the region they leave.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_dock() {
    let a = region();
    let n = 2; let mut ks = vec![]; let mut d = vec![];
    for _ in 0..n {
        let mut k = Kid::new(); let e = pick(4); k.style.dock = Some(dock(e));
        let (w, h) = (range(0, 20), range(0, 20)); k.leaf.dw = w as u16; k.leaf.dh = h as u16;
        d.push((e, w, h)); ks.push(k);
    }
    let mut f = Kid::new(); f.style.height = Some(cells(3)); f.style.width = Some(cells(4));
    let l = if pick(2) == 0 { Layout::Vertical } else { Layout::Horizontal };
    let at = pick(3) as usize;
    ks.insert(at, f);
    let p = arrange_children(&parent(l), &kids(&ks), a);
    check(p.len() == 3, "every child is placed once");
    let mut s = [0i64; 4];
    for (i, (e, w, h)) in d.iter().enumerate() {
        let r = find(&p, if i < at { i } else { i + 1 });
        let (x, y, aw, ah) = (a.x as i64, a.y as i64, a.width as i64, a.height as i64);
        let want = match e { 0 => (x, y, aw, *h), 1 => (x, y + ah - h, aw, *h), 2 => (x, y, *w, ah), _ => (x + aw - w, y, *w, ah) };
        check((r.x as i64 == want.0) & (r.y as i64 == want.1) & (r.width as i64 == want.2) & (r.height as i64 == want.3), "a docked child takes the whole of its edge");
        let t = if *e < 2 { *h } else { *w };
        s[*e as usize] = max(s[*e as usize], t);
        observe(r.y as u64);
    }
    let r = find(&p, at);
    check((r.x as i64 == a.x as i64 + s[2]) & (r.y as i64 == a.y as i64 + s[0]), "the rest starts beside the docked children");
    check((r.width == 4) & (r.height == 3), "docking does not resize a fixed sibling");
    reach("end");
}
/// A filling child takes exactly the region the docked children leave.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_dock_fill() {
    let a = Region::new(range(-60, 60) as i32, range(-60, 60) as i32, range(41, 127) as i32, range(41, 127) as i32);
    let mut ks = vec![]; let mut s = [0i64; 4];
    for e in 0..4 { if pick(2) == 1 { let mut k = Kid::new(); k.style.dock = Some(dock(e)); let t = range(0, 20); if e < 2 { k.leaf.dh = t as u16 } else { k.leaf.dw = t as u16 } s[e as usize] = t; ks.push(k); } }
    let mut f = Kid::new();
    let l = layout();
    match l { Layout::Vertical => f.style.height = Some(unit(1.0, Unit::Fraction)), Layout::Horizontal => f.style.width = Some(unit(1.0, Unit::Fraction)), _ => { f.leaf.dw = u16::MAX; f.leaf.dh = u16::MAX } }
    ks.push(f);
    let n = ks.len();
    let p = arrange_children(&parent(l), &kids(&ks), a);
    check(p.len() == n, "every child is placed once");
    let r = find(&p, n - 1);
    check((r.x as i64 == a.x as i64 + s[2]) & (r.y as i64 == a.y as i64 + s[0]), "beside the docked children");
    check((r.width as i64 == a.width as i64 - s[2] - s[3]) & (r.height as i64 == a.height as i64 - s[0] - s[1]), "exactly what the docked children leave");
    reach("end");
}
/// Alignment shifts the group as a whole to the start, middle or end and never past the start.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_align() {
    let ax = pick(2) == 0; // the axis examined symbolically
    let f = |on: bool, lo: i64, hi: i64, d: i64| if on { range(lo, hi) } else { d };
    let a = Region::new(f(ax, -60, 60, 3) as i32, f(!ax, -60, 60, 4) as i32, f(ax, 0, 127, 50) as i32, f(!ax, 0, 127, 51) as i32);
    let mut st = parent(if pick(2) == 0 { Layout::Vertical } else { Layout::Horizontal });
    let mut ks = vec![];
    for i in 0..2 {
        let mut k = Kid::new(); k.style.width = Some(cells(f(ax, 0, 60, 9 + i))); k.style.height = Some(cells(f(!ax, 8, 60, 14 - i)));
        k.style.margin.left = cells(f(ax, 0, 3, i)); k.style.margin.right = cells(f(ax, 0, 3, 1)); k.style.margin.top = cells(f(!ax, 0, 3, 2)); k.style.margin.bottom = cells(f(!ax, 0, 3, i));
        ks.push(k);
    }
    let p0 = arrange_children(&st, &kids(&ks), a);
    let (h, v) = (pick(3), pick(3));
    st.align_horizontal = match h { 0 => AlignHorizontal::Left, 1 => AlignHorizontal::Center, _ => AlignHorizontal::Right };
    st.align_vertical = match v { 0 => AlignVertical::Top, 1 => AlignVertical::Middle, _ => AlignVertical::Bottom };
    let p1 = arrange_children(&st, &kids(&ks), a);
    check(p1.len() == 2, "every child is placed once");
    // the group with its margins
    let (mut x1, mut y1) = (i32::MIN as i64, i32::MIN as i64);
    for i in 0..2 {
        let r = find(&p0, i); let m = &ks[i].style.margin;
        x1 = max(x1, r.x as i64 + r.width as i64 + m.right.value as i64); y1 = max(y1, r.y as i64 + r.height as i64 + m.bottom.value as i64);
    }
    let (fx, fy) = (max(a.x as i64 + a.width as i64 - x1, 0), max(a.y as i64 + a.height as i64 - y1, 0));
    let dx = match h { 0 => 0, 1 => (fx as u64 / 2) as i64, _ => fx }; let dy = match v { 0 => 0, 1 => (fy as u64 / 2) as i64, _ => fy };
    for i in 0..2 {
        let (r0, r1) = (find(&p0, i), find(&p1, i));
        check((r1.width == r0.width) & (r1.height == r0.height), "alignment does not resize");
        check((r1.x as i64 - r0.x as i64 == dx) & (r1.y as i64 - r0.y as i64 == dy), "the group moves by its share of the free space");
        observe(r1.x as u64);
    }
    reach("end");
}
/// An offset moves that child alone; an absolute child stands at the content origin and leaves its siblings alone.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_offset() {
    let a = region(); let l = if pick(2) == 0 { Layout::Vertical } else { Layout::Horizontal };
    let mut st = parent(l);
    if pick(2) == 1 { st.align_horizontal = AlignHorizontal::Center; st.align_vertical = AlignVertical::Bottom; }
    let mut ks = vec![];
    for i in 0..3 { let mut k = Kid::new(); k.style.width = Some(cells(if i == 1 { range(0, 40) } else { 5 })); k.style.height = Some(cells(range(0, 40))); ks.push(k); }
    let docked = pick(2) == 1;
    if docked { ks[0].style.dock = Some(Dock::Left); ks[0].leaf.dw = 4; }
    let p0 = arrange_children(&st, &kids(&ks), a);
    let (ox, oy) = (range(-30, 30), range(-30, 30));
    let t = pick(3) as usize;
    let (hx, hy) = (pick(2) == 1, pick(2) == 1);
    if hx { ks[t].style.offset_x = Some(cells(ox)); } if hy { ks[t].style.offset_y = Some(cells(oy)); }
    let p1 = arrange_children(&st, &kids(&ks), a);
    check(p1.len() == 3, "every child is placed once");
    for i in 0..3 {
        let (r0, r1) = (find(&p0, i), find(&p1, i));
        let dx = if i == t && hx { ox } else { 0 }; let dy = if i == t && hy { oy } else { 0 };
        check((r1.x as i64 == r0.x as i64 + dx) & (r1.y as i64 == r0.y as i64 + dy) & (r1.width == r0.width) & (r1.height == r0.height), "an offset moves its child alone, by that much");
    }
    reach("end");
}
const PCT: [(f64, i64); 4] = [(50.0, 500), (-25.0, -250), (12.5, 125), (100.0, 1000)];
/// Relative offsets: of the child's own size, or of the viewport.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_offset_units() {
    let a = Region::new(3, 4, 60, 50); let v = Viewport { width: 90, height: 30 };
    let (w, h) = (pick_range(0, 20), 9 + pick(3) as i64);
    let mut k = Kid::new(); k.style.width = Some(cells(w)); k.style.height = Some(cells(h));
    let un = |i: u64| match i { 0 => Unit::Percent, 1 => Unit::Width, 2 => Unit::Height, 3 => Unit::ViewWidth, _ => Unit::ViewHeight };
    let (ux, uy) = (pick(5), pick(5)); let (px, py) = (PCT[pick(4) as usize], PCT[pick(4) as usize]);
    k.style.offset_x = Some(unit(px.0, un(ux))); k.style.offset_y = Some(unit(py.0, un(uy)));
    let p = arrange_children_with_viewport(&parent(Layout::Vertical), &kids(&[k]), a, v);
    let r = find(&p, 0);
    let bx = match ux { 0 | 1 => w, 2 => h, 3 => 90, _ => 30 }; let by = match uy { 0 | 2 => h, 1 => w, 3 => 90, _ => 30 };
    check((r.x as i64 == 3 + bx * px.1 / 1000) & (r.y as i64 == 4 + by * py.1 / 1000), "a relative offset is that share of its basis");
    reach("end");
}
#[unsafe(no_mangle)] #[inline(never)] pub fn h_absolute() {
    let a = Region::new(range(-60, 60) as i32, range(-60, 60) as i32, range(20, 127) as i32, range(20, 127) as i32);
    let st = parent(if pick(2) == 0 { Layout::Vertical } else { Layout::Horizontal });
    let mut sib = vec![];
    for i in 0..2 { let mut k = Kid::new(); k.style.width = Some(cells(range(0, 40))); k.style.height = if i == 1 { Some(cells(range(0, 40))) } else { None }; k.leaf.dh = 2; sib.push(k); }
    let dockw = range(0, 9); let docked = pick(2) == 1;
    if docked { sib[0].style.dock = Some(Dock::Left); sib[0].leaf.dw = dockw as u16; }
    let p0 = arrange_children(&st, &kids(&sib), a);
    let mut k = Kid::new(); k.style.position = Position::Absolute;
    let (w, h) = (range(0, 40), range(0, 40));
    let kind = pick(3);
    match kind {
        0 => { k.style.width = Some(cells(w)); k.style.height = Some(cells(h)); }
        1 => { k.leaf.dw = w as u16; k.leaf.ih = h as u16; }
        _ => { k.style.width = Some(unit(1.0, Unit::Fraction)); k.style.height = Some(unit(1.0, Unit::Fraction)); }
    }
    let (mx, mn) = (range(0, 50), range(0, 50));
    let lim = pick(2) == 1;
    if lim { k.style.max_width = Some(cells(mx)); k.style.min_width = Some(cells(mn)); k.style.max_height = Some(cells(mx)); k.style.min_height = Some(cells(mn)); }
    let (ox, oy) = (range(-30, 30), range(-30, 30));
    k.style.offset_x = Some(cells(ox)); k.style.offset_y = Some(cells(oy));
    let at = pick(3) as usize;
    sib.insert(at, k);
    let p1 = arrange_children(&st, &kids(&sib), a);
    check(p1.len() == 3, "every child is placed once");
    for i in 0..2 { let r0 = find(&p0, i); let r1 = find(&p1, if i < at { i } else { i + 1 }); check(same(r0, r1), "siblings ignore an absolute child"); }
    let r = find(&p1, at);
    let dw = if docked { dockw } else { 0 };
    check((r.x as i64 == a.x as i64 + dw + ox) & (r.y as i64 == a.y as i64 + oy), "an absolute child stands at the content origin plus its offset");
    let (bw, bh) = if kind == 2 { (a.width as i64 - dw, a.height as i64) } else { (w, h) };
    let (bw, bh) = if lim { (max(min(bw, mx), mn), max(min(bh, mx), mn)) } else { (bw, bh) };
    check((r.width as i64 == bw) & (r.height as i64 == bh), "an absolute child has its own size");
    observe(r.x as u64);
    reach("end");
}
/// Layers: every layer is laid out as if alone in the whole region, stacked in declared order above undeclared ones.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_layers() {
    let a = region(); let n = 3;
    let names = ["default", "lo", "hi", "zz"];
    let mut st = parent(if pick(2) == 0 { Layout::Vertical } else { Layout::Horizontal });
    let decl: &[usize] = match pick(5) { 0 => &[], 1 => &[1, 2], 2 => &[2, 1], 3 => &[0, 1, 2], _ => &[1, 0, 1] };
    if !decl.is_empty() { st.layers = Some(decl.iter().map(|i| names[*i].to_string()).collect()); }
    let mut lay = vec![]; let mut mk = vec![];
    for i in 0..n { lay.push(pick(if i == 2 { 2 } else { 4 }) as usize); mk.push((range(0, 40), range(0, 40))); }
    let make = |i: usize| { let mut k = Kid::new(); k.style.width = Some(cells(mk[i].0)); k.style.height = Some(cells(mk[i].1)); if lay[i] > 0 { k.style.layer = Some(names[lay[i]].to_string()); } k };
    let ks: Vec<Kid> = (0..n).map(make).collect();
    let p = arrange_children_with_layers(&st, &kids(&ks), a, a.into());
    check(p.len() == n, "every child is placed once");
    // expected order: undeclared layers by first child, then declared ones
    let declared = |l: usize| if decl.is_empty() { l == 0 } else { decl.contains(&l) };
    let mut order: Vec<usize> = vec![];
    for i in 0..n { if !declared(lay[i]) && !order.contains(&lay[i]) { order.push(lay[i]); } }
    for l in if decl.is_empty() { &[0][..] } else { decl } { if !order.contains(l) { order.push(*l); } }
    let mut at = 0;
    for l in order {
        let idx: Vec<usize> = (0..n).filter(|i| lay[*i] == l).collect();
        let own: Vec<Kid> = idx.iter().map(|i| make(*i)).collect();
        let q = arrange_children(&st, &kids(&own), a);
        for (j, i) in idx.iter().enumerate() {
            check(at < p.len() && p[at].child_index == *i, "layers are stacked in order");
            check(same(find(&p, *i), find(&q, j)), "each layer is laid out as if alone");
            at += 1;
        }
    }
    reach("end");
}

entries!(h_dock, h_dock_fill, h_align, h_offset, h_offset_units, h_absolute, h_layers);
