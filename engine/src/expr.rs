//! Hash-consed bit-vector expressions with eager simplification.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum O {
    Nil, Const, Sym,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Concat, Extract, ZExt, SExt, Ite,
    Eq, Ult, Ule, Slt, Sle,
    FAdd, FSub, FMul, FDiv, FRem, FEq, FLt, FLe, FIsNan,
    FToSI, FToUI, SIToF, UIToF, FToF, FRound, // FRound aux: 0 RNE(roundeven) 1 RNA(round) 2 floor 3 ceil 4 trunc
    FSqrt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: O, pub w: u8, pub aux: u32, pub a: E, pub b: E, pub c: E, pub k: u128 }

pub const NSYM_WORDS: usize = 4;
pub type Mask = [u64; NSYM_WORDS];

pub struct Arena {
    pub n: Vec<Node>,
    pub lo: Vec<u128>,
    pub hi: Vec<u128>,
    pub slo: Vec<i128>,
    pub shi: Vec<i128>,
    narrowed: HashMap<E, E, Fx>,
    tabbed: HashMap<E, E, Fx>,
    tabgen: u64,
    pub mask: Vec<Mask>,
    map: HashMap<Node, E, Fx>,
    pub memo: Vec<(u64, u128)>,
    pub ntrue: E,
    pub nfalse: E,
}

#[derive(Clone, Default)]
pub struct Fx;
pub struct FxH(u64);
impl std::hash::BuildHasher for Fx { type Hasher = FxH; fn build_hasher(&self) -> FxH { FxH(0) } }
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    fn write(&mut self, b: &[u8]) { for c in b { self.write_u64(*c as u64); } }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95); }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_isize(&mut self, x: isize) { self.write_u64(x as u64) }
}

pub fn mk(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sx(x: u128, w: u32) -> i128 { if w >= 128 { return x as i128; } let s = 128 - w; ((x << s) as i128) >> s }

pub fn fold_bin(op: O, w: u32, a: u128, b: u128) -> u128 {
    let m = mk(w);
    match op {
        O::Add => a.wrapping_add(b) & m,
        O::Sub => a.wrapping_sub(b) & m,
        O::Mul => a.wrapping_mul(b) & m,
        O::UDiv => if b == 0 { m } else { a / b },
        O::URem => if b == 0 { a } else { a % b },
        O::SDiv => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { (x.wrapping_div(y) as u128) & m } }
        O::SRem => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m } }
        O::And => a & b,
        O::Or => a | b,
        O::Xor => a ^ b,
        O::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        O::LShr => if b >= w as u128 { 0 } else { a >> b },
        O::AShr => { let s = sx(a, w); let k = if b >= w as u128 { w - 1 } else { b as u32 }; ((s >> k) as u128) & m }
        O::FAdd | O::FSub | O::FMul | O::FDiv | O::FRem => {
            if w == 32 {
                let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                let r = match op { O::FAdd => x + y, O::FSub => x - y, O::FMul => x * y, O::FDiv => x / y, _ => x % y };
                (if r.is_nan() { f32::NAN } else { r }).to_bits() as u128
            } else {
                let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
                let r = match op { O::FAdd => x + y, O::FSub => x - y, O::FMul => x * y, O::FDiv => x / y, _ => x % y };
                (if r.is_nan() { f64::NAN } else { r }).to_bits() as u128
            }
        }
        _ => panic!("fold_bin {:?}", op),
    }
}
fn fl(w: u32, x: u128) -> f64 { if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) } }
fn ufl(w: u32, x: f64) -> u128 { let x = if x.is_nan() { f64::NAN } else { x }; if w == 32 { (x as f32).to_bits() as u128 } else { x.to_bits() as u128 } }
pub fn fold_cmp(op: O, w: u32, a: u128, b: u128) -> bool {
    match op {
        O::Eq => a == b,
        O::Ult => a < b,
        O::Ule => a <= b,
        O::Slt => sx(a, w) < sx(b, w),
        O::Sle => sx(a, w) <= sx(b, w),
        O::FEq => fl(w, a) == fl(w, b),
        O::FLt => fl(w, a) < fl(w, b),
        O::FLe => fl(w, a) <= fl(w, b),
        _ => panic!(),
    }
}
/// saturating float -> int (Rust `as` semantics)
pub fn fold_ftoi(fw: u32, x: u128, w: u32, signed: bool) -> u128 {
    let v = fl(fw, x);
    if v.is_nan() { return 0; }
    let m = mk(w);
    if signed {
        let (lo, hi) = (-(1i128 << (w - 1)), ((1u128 << (w - 1)) - 1) as i128);
        let r = v as i128; // saturating
        (r.clamp(lo, hi) as u128) & m
    } else {
        let r = v as u128;
        if r > m { m } else { r }
    }
}
pub fn fold_itof(w: u32, x: u128, fw: u32, signed: bool) -> u128 {
    if signed { let v = sx(x, w); if fw == 32 { (v as f32).to_bits() as u128 } else { (v as f64).to_bits() as u128 } }
    else if fw == 32 { (x as f32).to_bits() as u128 } else { (x as f64).to_bits() as u128 }
}
pub fn fold_round(w: u32, x: u128, mode: u32) -> u128 {
    if w == 32 {
        let v = f32::from_bits(x as u32);
        let r = match mode { 0 => v.round_ties_even(), 1 => v.round(), 2 => v.floor(), 3 => v.ceil(), _ => v.trunc() };
        r.to_bits() as u128
    } else {
        let v = f64::from_bits(x as u64);
        let r = match mode { 0 => v.round_ties_even(), 1 => v.round(), 2 => v.floor(), 3 => v.ceil(), _ => v.trunc() };
        r.to_bits() as u128
    }
}
pub fn fold_ftof(fw: u32, x: u128, tw: u32) -> u128 { ufl(tw, fl(fw, x)) }
pub fn fold_sqrt(w: u32, x: u128) -> u128 { if w == 32 { f32::from_bits(x as u32).sqrt().to_bits() as u128 } else { f64::from_bits(x as u64).sqrt().to_bits() as u128 } }

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena { n: vec![], lo: vec![], hi: vec![], slo: vec![], shi: vec![], narrowed: HashMap::with_hasher(Fx), tabbed: HashMap::with_hasher(Fx), tabgen: 1 << 62, mask: vec![], map: HashMap::with_hasher(Fx), memo: vec![], ntrue: 0, nfalse: 0 };
        a.push(Node { op: O::Nil, w: 0, aux: 0, a: 0, b: 0, c: 0, k: 0 });
        a.nfalse = a.cst(0, 1);
        a.ntrue = a.cst(1, 1);
        a
    }
    fn push(&mut self, n: Node) -> E {
        let id = self.n.len() as E;
        let (mut lo, mut hi) = self.range(&n);
        let (slo, shi) = if n.op == O::Nil { (0, 0) } else { self.srange(&n, lo, hi) };
        if slo >= 0 && n.op != O::Nil { lo = lo.max(slo as u128); hi = hi.min(shi as u128); }
        let mut m = [0u64; NSYM_WORDS];
        if n.op == O::Sym {
            let s = n.aux as usize;
            if s >= 64 * NSYM_WORDS { eprintln!("too many symbols on a path"); std::process::exit(3); }
            m[s / 64] |= 1 << (s % 64);
        } else if n.op != O::Const && n.op != O::Nil {
            for x in [n.a, n.b, n.c] { if x != 0 { let q = &self.mask[x as usize]; for i in 0..NSYM_WORDS { m[i] |= q[i]; } } }
        }
        self.n.push(n);
        self.lo.push(lo);
        self.hi.push(hi);
        self.slo.push(slo);
        self.shi.push(shi);
        self.mask.push(m);
        self.memo.push((0, 0));
        id
    }
    fn range(&self, n: &Node) -> (u128, u128) {
        let w = n.w as u32;
        let m = mk(w);
        let r = |e: E| (self.lo[e as usize], self.hi[e as usize]);
        match n.op {
            O::Const => (n.k, n.k),
            O::Sym => if n.k == 0 { (0, m) } else { (0, n.k) },
            O::ZExt => r(n.a),
            O::And => { let (_, h1) = r(n.a); let (_, h2) = r(n.b); (0, h1.min(h2)) }
            O::Or | O::Xor => {
                let (l1, h1) = r(n.a); let (l2, h2) = r(n.b);
                let h = h1 | h2; let b = 128 - h.leading_zeros();
                (if n.op == O::Or { l1.max(l2) } else { 0 }, mk(b).min(m))
            }
            O::Add => { let (l1, h1) = r(n.a); let (l2, h2) = r(n.b); if w < 128 && h1 + h2 <= m { (l1 + l2, h1 + h2) } else if w < 128 && l1 + l2 > m && h1 + h2 <= 2 * m + 1 { (l1 + l2 - m - 1, h1 + h2 - m - 1) } else { (0, m) } }
            O::Sub => { let (l1, h1) = r(n.a); let (l2, h2) = r(n.b); if l1 >= h2 { (l1 - h2, h1 - l2) } else { (0, m) } }
            O::Mul => { let (l1, h1) = r(n.a); let (l2, h2) = r(n.b); match h1.checked_mul(h2) { Some(x) if x <= m => (l1 * l2, x), _ => (0, m) } }
            O::UDiv => { let (l1, h1) = r(n.a); let (l2, h2) = r(n.b); if l2 > 0 { (l1 / h2, h1 / l2) } else { (0, m) } }
            O::URem => { let (_, h1) = r(n.a); let (l2, h2) = r(n.b); if l2 > 0 { (0, h1.min(h2 - 1)) } else { (0, m) } }
            O::LShr => { let (l1, h1) = r(n.a); let (l2, h2) = r(n.b); if h2 < w as u128 { (l1 >> h2, h1 >> l2) } else if l2 < w as u128 { (0, h1 >> l2) } else { (0, h1) } }
            O::Shl => { let (_, h1) = r(n.a); let (_, h2) = r(n.b); if h2 < w as u128 && h1.leading_zeros() as u128 >= 128 - w as u128 + h2 { (0, h1 << h2) } else { (0, m) } }
            O::Concat => { let (l1, h1) = r(n.a); let (l2, h2) = r(n.b); let s = self.n[n.b as usize].w as u32; ((l1 << s) | l2, (h1 << s) | h2) }
            O::Extract => { let (l, h) = r(n.a); let lo = n.aux; if (l >> lo) >> w == (h >> lo) >> w && lo == 0 { (l & m, h & m) } else if h >> lo <= m { (l >> lo, h >> lo) } else { (0, m) } }
            O::SExt => { let (l, h) = r(n.a); let aw = self.n[n.a as usize].w as u32; if h <= mk(aw - 1) { (l, h) } else { (0, m) } }
            O::Ite if self.k(n.b) == Some(0) && { // saturating subtraction: x < y ? 0 : x - y
                let c = &self.n[n.a as usize]; let d = &self.n[n.c as usize];
                (c.op == O::Ult && d.op == O::Sub && d.a == c.a && d.b == c.b)
                || (d.op == O::Add && d.a == c.a && match (self.k(d.b), self.k(c.b)) { (Some(x), Some(y)) => (c.op == O::Ult && x == y.wrapping_neg() & m) || (c.op == O::Eq && y == 0 && x == m), _ => false })
            } => { let c = &self.n[n.a as usize]; (0, r(c.a).1) }
            O::Ite => { let (l1, h1) = r(n.b); let (l2, h2) = r(n.c); (l1.min(l2), h1.max(h2)) }
            _ => (0, m),
        }
    }
    /// Signed interval of a node, from its unsigned interval and its operands' signed intervals.
    fn srange(&self, n: &Node, lo: u128, hi: u128) -> (i128, i128) {
        let w = n.w as u32;
        let half = mk(w - 1);
        let full = (-(half as i128) - 1, half as i128);
        let def = if w == 1 { full } else if hi <= half { (lo as i128, hi as i128) } else if lo > half { (sx(lo, w), sx(hi, w)) } else { full };
        if w == 1 || w > 120 { return def; }
        let s = |e: E| (self.slo[e as usize], self.shi[e as usize]);
        let fit = |l: i128, h: i128| if l >= full.0 && h <= full.1 { (l, h) } else { full };
        let r = match n.op {
            O::Add => { let (a, b) = (s(n.a), s(n.b)); fit(a.0 + b.0, a.1 + b.1) }
            O::Sub => { let (a, b) = (s(n.a), s(n.b)); fit(a.0 - b.1, a.1 - b.0) }
            O::Mul if w <= 64 => { let (a, b) = (s(n.a), s(n.b)); let q = [a.0.checked_mul(b.0), a.0.checked_mul(b.1), a.1.checked_mul(b.0), a.1.checked_mul(b.1)]; if q.iter().any(|x| x.is_none()) { full } else { let q = q.map(|x| x.unwrap()); fit(*q.iter().min().unwrap(), *q.iter().max().unwrap()) } }
            O::SExt => s(n.a),
            O::Shl => match self.k(n.b) { Some(k) if k < w as u128 && w <= 64 => { let a = s(n.a); fit(a.0 << k, a.1 << k) } _ => full },
            O::AShr => { let a = s(n.a); match self.k(n.b) { Some(k) if k < w as u128 => (a.0 >> k, a.1 >> k), _ => (a.0.min(0), a.1.max(0)) } }
            O::SDiv => match self.k(n.b) { Some(k) if k != 0 && k <= half => { let a = s(n.a); (a.0 / k as i128, a.1 / k as i128) } _ => full },
            O::SRem => match self.k(n.b) { Some(k) if k != 0 && k <= half => { let a = s(n.a); let m = k as i128 - 1; (if a.0 < 0 { -m.min(-a.0) } else { 0 }, if a.1 > 0 { m.min(a.1) } else { 0 }) } _ => full },
            O::Extract if n.aux == 0 => { let a = s(n.a); fit(a.0, a.1) }
            O::Ite => {
                let (mut a, mut b) = (s(n.b), s(n.c));
                let mut c = self.n[n.a as usize];
                let mut neg = false;
                if c.op == O::Xor && self.k(c.b) == Some(1) { neg = true; c = self.n[c.a as usize]; }
                // sides where the condition is true / false
                {
                    let (ts, te, fs, fe) = if neg { (&mut b, n.c, &mut a, n.b) } else { (&mut a, n.b, &mut b, n.c) };
                    let nonneg = |e: E| self.slo[e as usize] >= 0;
                    let (strict, ok) = match c.op { O::Slt => (1, true), O::Sle => (0, true), O::Ult => (1, nonneg(c.a) && nonneg(c.b)), O::Ule => (0, nonneg(c.a) && nonneg(c.b)), _ => (0, false) };
                    if ok && self.n[c.a as usize].w == n.w {
                        let (p, q) = (s(c.a), s(c.b));
                        if te == c.a { ts.1 = ts.1.min(q.1 - strict); }
                        if te == c.b { ts.0 = ts.0.max(p.0 + strict); }
                        if fe == c.a { fs.0 = fs.0.max(q.0 + 1 - strict); }
                        if fe == c.b { fs.1 = fs.1.min(p.1 - 1 + strict); }
                    } else if c.op == O::Extract && c.w == 1 && c.aux + 1 == w && self.n[c.a as usize].w == n.w {
                        if te == c.a { ts.1 = ts.1.min(-1); }
                        if fe == c.a { fs.0 = fs.0.max(0); }
                    }
                }
                if a.0 > a.1 { b } else if b.0 > b.1 { a } else { (a.0.min(b.0), a.1.max(b.1)) }
            }
            _ => full,
        };
        let z = (r.0.max(def.0), r.1.min(def.1));
        if z.0 > z.1 { def } else { z }
    }
    /// Byte `i` of `e` for a store: peels structure but keeps arithmetic whole, so that a reload recombines it.
    pub fn byte(&mut self, e: E, lo: u32) -> E {
        if let Some(x) = self.k(e) { return self.cst(x >> lo, 8); }
        if self.hi[e as usize] >> lo == 0 { return self.cst(0, 8); }
        let n = self.n[e as usize];
        if n.w == 8 && lo == 0 { return e; }
        match n.op {
            O::ZExt => { let iw = self.w(n.a); if lo >= iw { return self.cst(0, 8); } if lo + 8 <= iw { return self.byte(n.a, lo); } return self.extract(e, lo, 8); }
            O::Concat => { let wb = self.w(n.b); if lo >= wb { if lo - wb + 8 <= self.w(n.a) { return self.byte(n.a, lo - wb); } } else if lo + 8 <= wb { return self.byte(n.b, lo); } return self.extract(e, lo, 8); }
            O::Extract => { return self.raw(O::Extract, 8, n.aux + lo, n.a, 0, 0); }
            _ => {}
        }
        self.raw(O::Extract, 8, lo, e, 0, 0)
    }
    fn xjoin(&mut self, a: E, lo: u32, w: u32) -> E { if lo == 0 && w == self.w(a) { a } else { self.raw(O::Extract, w, lo, a, 0, 0) } }
    /// Re-simplify after recombining bytes.
    pub fn norm(&mut self, e: E) -> E {
        let n = self.n[e as usize];
        match n.op {
            O::Extract => self.extract(n.a, n.aux, n.w as u32),
            O::ZExt => { let x = self.norm(n.a); self.zext(x, n.w as u32) }
            O::Concat => { let x = self.norm(n.a); let y = self.norm(n.b); if x == n.a && y == n.b { e } else { self.concat(x, y) } }
            _ => e,
        }
    }
    fn bits_needed(&self, e: E) -> u32 {
        let (l, h) = (self.slo[e as usize], self.shi[e as usize]);
        let f = |x: i128| if x >= 0 { 129 - (x as u128).leading_zeros() } else { 129 - (!x as u128).leading_zeros() };
        f(l).max(f(h))
    }
    /// The low `k` bits of `e`, pushed through the operators for which that is exact.
    fn low(&mut self, e: E, k: u32) -> E {
        let n = self.n[e as usize];
        if n.w as u32 <= k { return e; }
        match n.op {
            O::Add | O::Sub | O::Mul | O::And | O::Or | O::Xor => { let a = self.low(n.a, k); let b = self.low(n.b, k); self.bin(n.op, a, b) }
            O::Ite => { let c = self.narrow(n.a); let a = self.low(n.b, k); let b = self.low(n.c, k); self.ite(c, a, b) }
            O::Shl => match self.k(n.b) { Some(s) if s < k as u128 => { let a = self.low(n.a, k); let c = self.cst(s, k); self.bin(O::Shl, a, c) } _ => self.extract(e, 0, k) },
            _ => self.extract(e, 0, k),
        }
    }
    /// Rewrites comparisons inside a boolean to the smallest width its operands' intervals allow.
    pub fn narrow(&mut self, e: E) -> E {
        if let Some(&r) = self.narrowed.get(&e) { return r; }
        let n = self.n[e as usize];
        let r = match n.op {
            O::And | O::Or | O::Xor if n.w == 1 => { let a = self.narrow(n.a); let b = self.narrow(n.b); self.bin(n.op, a, b) }
            O::Ite if n.w == 1 => { let a = self.narrow(n.a); let b = self.narrow(n.b); let c = self.narrow(n.c); self.ite(a, b, c) }
            O::Eq | O::Ult | O::Ule | O::Slt | O::Sle => {
                let w = self.w(n.a);
                let k = self.bits_needed(n.a).max(self.bits_needed(n.b));
                // unsigned order agrees with the order of the low bits when both are non-negative or both negative-free
                let ok = matches!(n.op, O::Eq | O::Slt | O::Sle) || (self.slo[n.a as usize] >= 0 && self.slo[n.b as usize] >= 0);
                if ok && k < w && w > 1 { let a = self.low(n.a, k); let b = self.low(n.b, k); self.cmp(n.op, a, b) } else { e }
            }
            _ => e,
        };
        self.narrowed.insert(e, r);
        r
    }
    pub fn w(&self, e: E) -> u32 { self.n[e as usize].w as u32 }
    fn mkn(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) { return e; }
        let e = self.push(n);
        if self.lo[e as usize] == self.hi[e as usize] && n.op != O::Const {
            // range analysis pinned the value
            let k = self.lo[e as usize];
            let c = self.cst(k, n.w as u32);
            self.map.insert(n, c);
            return c;
        }
        self.map.insert(n, e);
        e
    }
    pub fn cst(&mut self, k: u128, w: u32) -> E {
        let n = Node { op: O::Const, w: w as u8, aux: 0, a: 0, b: 0, c: 0, k: k & mk(w) };
        if let Some(&e) = self.map.get(&n) { return e; }
        let e = self.push(n);
        self.map.insert(n, e);
        e
    }
    pub fn sym(&mut self, idx: u32, w: u32) -> E { self.mkn(Node { op: O::Sym, w: w as u8, aux: idx, a: 0, b: 0, c: 0, k: 0 }) }
    pub fn k(&self, e: E) -> Option<u128> { let n = &self.n[e as usize]; if n.op == O::Const { Some(n.k) } else { None } }
    /// A symbol whose value is at most `max` (the caller adds the constraint to the path).
    pub fn sym_below(&mut self, idx: u32, w: u32, max: u128) -> E { self.mkn(Node { op: O::Sym, w: w as u8, aux: idx, a: 0, b: 0, c: 0, k: if max >= mk(w) { 0 } else { max } }) }
    fn raw(&mut self, op: O, w: u32, aux: u32, a: E, b: E, c: E) -> E { self.mkn(Node { op, w: w as u8, aux, a, b, c, k: 0 }) }

    pub fn not1(&mut self, a: E) -> E { let t = self.ntrue; self.bin(O::Xor, a, t) }

    fn const_ite(&self, e: E) -> bool {
        let n = &self.n[e as usize];
        n.op == O::Ite && self.n[n.b as usize].op == O::Const && self.n[n.c as usize].op == O::Const
    }

    pub fn bin(&mut self, op: O, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) { return self.cst(fold_bin(op, w, x, y), w); }
        // constants right for commutative
        if matches!(op, O::Add | O::Mul | O::And | O::Or | O::Xor) {
            if self.k(a).is_some() || (self.k(b).is_none() && a > b) { std::mem::swap(&mut a, &mut b); }
        }
        if matches!(op, O::FAdd | O::FSub | O::FMul | O::FDiv) { if let Some(r) = self.fx_bin(op, w, a, b) { return r; } }
        let kb = self.k(b);
        let m = mk(w);
        let zero = |s: &mut Arena| s.cst(0, w);
        match op {
            O::Add => {
                if kb == Some(0) { return a; }
                if let Some(y) = kb {
                    let n = self.n[a as usize];
                    if n.op == O::Add { if let Some(x) = self.k(n.b) { let c = self.cst(x.wrapping_add(y), w); return self.bin(O::Add, n.a, c); } }
                } else {
                    let n = self.n[a as usize];
                    if n.op == O::Add && self.k(n.b).is_some() { let c = n.b; let r = self.bin(O::Add, n.a, b); return self.bin(O::Add, r, c); }
                    let n2 = self.n[b as usize];
                    if n2.op == O::Add && self.k(n2.b).is_some() { let c = n2.b; let r = self.bin(O::Add, a, n2.a); return self.bin(O::Add, r, c); }
                    // x + (y - x) = y
                    if n2.op == O::Sub && n2.b == a { return n2.a; }
                    if n.op == O::Sub && n.b == b { return n.a; }
                }
            }
            O::Sub => {
                if a == b { return zero(self); }
                if let Some(y) = kb { let c = self.cst(y.wrapping_neg(), w); return self.bin(O::Add, a, c); }
                let n = self.n[a as usize];
                let n2 = self.n[b as usize];
                if n.op == O::Add { if n.a == b { return n.b; } if n.b == b { return n.a; } }
                if n2.op == O::Add && self.k(n2.b).is_some() { let r = self.bin(O::Sub, a, n2.a); let c = self.cst(self.k(n2.b).unwrap().wrapping_neg(), w); return self.bin(O::Add, r, c); }
                if n.op == O::Add && self.k(n.b).is_some() && self.k(b).is_none() { let c = n.b; let r = self.bin(O::Sub, n.a, b); return self.bin(O::Add, r, c); }
            }
            O::Mul => {
                match kb { Some(0) => return b, Some(1) => return a, Some(y) if y.is_power_of_two() => { let c = self.cst(y.trailing_zeros() as u128, w); return self.bin(O::Shl, a, c); } _ => {} }
            }
            O::SDiv | O::SRem if self.slo[a as usize] >= 0 && self.slo[b as usize] >= 0 => return self.bin(if op == O::SDiv { O::UDiv } else { O::URem }, a, b),
            O::UDiv | O::URem if kb.map_or(false, |y| y > 1 && !y.is_power_of_two()) && self.common_factor(a, kb.unwrap()).is_some() => {
                // (k x) / (k y) = x / y, (k x) % (k y) = k (x % y)
                let (g, x) = self.common_factor(a, kb.unwrap()).unwrap();
                let x = self.divided(x, g, w);
                let y = self.cst(kb.unwrap() / g, w);
                let r = self.bin(op, x, y);
                if op == O::UDiv { return r; }
                let gk = self.cst(g, w);
                return self.bin(O::Mul, r, gk);
            }
            O::UDiv | O::URem if w > 8 && { let h = self.hi[a as usize].max(self.hi[b as usize]); 128 - h.leading_zeros() + 8 <= w } && kb != Some(1) && kb != Some(0) && kb.map_or(true, |y| !y.is_power_of_two()) && self.lo[b as usize] > 0 && !kb.map_or(false, |y| self.hi[a as usize] < y) => {
                let h = self.hi[a as usize].max(self.hi[b as usize]);
                let k = 128 - h.leading_zeros();
                let x = self.low(a, k); let y = self.low(b, k);
                let r = self.bin(op, x, y);
                return self.zext(r, w);
            }
            O::UDiv => { if kb == Some(1) { return a; } if let Some(y) = kb { if y.is_power_of_two() { let c = self.cst(y.trailing_zeros() as u128, w); return self.bin(O::LShr, a, c); } if self.hi[a as usize] < y { return zero(self); } } }
            O::URem => { if kb == Some(1) { return zero(self); } if let Some(y) = kb { if y.is_power_of_two() { let c = self.cst(y - 1, w); return self.bin(O::And, a, c); } if self.hi[a as usize] < y { return a; } } }
            O::And => {
                if a == b { return a; }
                if kb == Some(0) { return b; }
                if kb == Some(m) { return a; }
                if let Some(y) = kb {
                    let n = self.n[a as usize];
                    if n.op == O::And { if let Some(x) = self.k(n.b) { let c = self.cst(x & y, w); return self.bin(O::And, n.a, c); } }
                    if w > 1 {
                        // low mask
                        if (y & (y + 1)) == 0 {
                            let kbits = 128 - y.leading_zeros();
                            if self.hi[a as usize] <= y { return a; }
                            let x = self.extract(a, 0, kbits);
                            return self.zext(x, w);
                        }
                        let inv = !y & m;
                        if (inv & (inv + 1)) == 0 {
                            let lowbits = 128 - inv.leading_zeros();
                            let x = self.extract(a, lowbits, w - lowbits);
                            let z = self.cst(0, lowbits);
                            return self.concat(x, z);
                        }
                        // contiguous mask
                        let tz = y.trailing_zeros();
                        let sh = y >> tz;
                        if (sh & (sh + 1)) == 0 {
                            let nb = 128 - sh.leading_zeros();
                            let x = self.extract(a, tz, nb);
                            let z = self.cst(0, tz);
                            let c = self.concat(x, z);
                            return self.zext(c, w);
                        }
                    }
                } else if w == 1 {
                    if self.is_not(a, b) { return self.nfalse; }
                } else {
                    // disjoint via ranges handled elsewhere
                    if let (Some((xa, ka)), true) = (self.sign_mask(a), true) { let _ = ka; let z = zero(self); return self.ite(xa, b, z); }
                    if let Some((xb, _)) = self.sign_mask(b) { let z = zero(self); return self.ite(xb, a, z); }
                }
            }
            O::Or => {
                if a == b { return a; }
                if kb == Some(0) { return a; }
                if kb == Some(m) { return b; }
                if w == 1 { if self.is_not(a, b) { return self.ntrue; } }
                else {
                    if let Some(r) = self.or_disjoint(a, b) { return r; }
                    if let Some(r) = self.or_disjoint(b, a) { return r; }
                }
            }
            O::Xor => {
                if a == b { return zero(self); }
                if kb == Some(0) { return a; }
                let n = self.n[a as usize];
                if let Some(y) = kb {
                    if n.op == O::Xor { if let Some(x) = self.k(n.b) { let c = self.cst(x ^ y, w); return self.bin(O::Xor, n.a, c); } }
                    if w == 1 {
                        // not
                        match n.op {
                            O::Ult => return self.cmp(O::Ule, n.b, n.a),
                            O::Ule => return self.cmp(O::Ult, n.b, n.a),
                            O::Slt => return self.cmp(O::Sle, n.b, n.a),
                            O::Sle => return self.cmp(O::Slt, n.b, n.a),
                            _ => {}
                        }
                    }
                }
            }
            O::Shl => {
                if kb == Some(0) { return a; }
                if let Some(y) = kb {
                    if y >= w as u128 { return zero(self); }
                    let x = self.extract(a, 0, w - y as u32);
                    let z = self.cst(0, y as u32);
                    return self.concat(x, z);
                }
                if self.k(a) == Some(0) { return a; }
            }
            O::LShr => {
                if kb == Some(0) { return a; }
                if let Some(y) = kb {
                    if y >= w as u128 { return zero(self); }
                    let x = self.extract(a, y as u32, w - y as u32);
                    return self.zext(x, w);
                }
                if self.k(a) == Some(0) { return a; }
            }
            O::AShr => {
                if kb == Some(0) { return a; }
                if let Some(y) = kb {
                    let y = if y >= w as u128 { w - 1 } else { y as u32 };
                    let x = self.extract(a, y, w - y);
                    return self.sext(x, w);
                }
            }
            _ => {}
        }
        if !matches!(op, O::FAdd | O::FSub | O::FMul | O::FDiv | O::FRem) {
            if kb.is_some() && self.const_ite(a) { let n = self.n[a as usize]; let x = self.bin(op, n.b, b); let y = self.bin(op, n.c, b); return self.ite(n.a, x, y); }
            if self.k(a).is_some() && self.const_ite(b) { let n = self.n[b as usize]; let x = self.bin(op, a, n.b); let y = self.bin(op, a, n.c); return self.ite(n.a, x, y); }
        } else {
            if kb.is_some() && self.const_ite(a) { let n = self.n[a as usize]; let x = self.bin(op, n.b, b); let y = self.bin(op, n.c, b); return self.ite(n.a, x, y); }
        }
        self.raw(op, w, 0, a, b, 0)
    }
    /// SExt of a 1-bit value: all-ones mask
    /// `e` as a multiple of a constant that shares a factor with `y` (no wrap-around): the shared factor and `e` itself.
    fn common_factor(&self, e: E, y: u128) -> Option<(u128, E)> {
        let n = self.n[e as usize];
        let c = match n.op { O::Mul => self.k(n.b)?, O::Shl => { let s = self.k(n.b)?; if s < 64 { 1u128 << s } else { return None } } _ => return None };
        if c == 0 || self.hi[n.a as usize].checked_mul(c)? > mk(n.w as u32) { return None; }
        let (mut a, mut b) = (c, y);
        while b != 0 { let t = a % b; a = b; b = t; }
        if a > 1 { Some((a, e)) } else { None }
    }
    fn divided(&mut self, e: E, g: u128, w: u32) -> E {
        let n = self.n[e as usize];
        let c = if n.op == O::Mul { self.k(n.b).unwrap() } else { 1u128 << self.k(n.b).unwrap() };
        let k = self.cst(c / g, w);
        self.bin(O::Mul, n.a, k)
    }
    fn sign_mask(&self, e: E) -> Option<(E, ())> { let n = &self.n[e as usize]; if n.op == O::SExt && self.n[n.a as usize].w == 1 { Some((n.a, ())) } else { None } }
    fn is_not(&self, a: E, b: E) -> bool {
        let na = &self.n[a as usize]; let nb = &self.n[b as usize];
        (na.op == O::Xor && na.a == b && self.k(na.b) == Some(1)) || (nb.op == O::Xor && nb.a == a && self.k(nb.b) == Some(1))
    }
    fn or_disjoint(&mut self, a: E, b: E) -> Option<E> {
        // a = (.. concat x 0_k) possibly zext'ed, b < 2^k
        let w = self.w(a);
        let mut na = self.n[a as usize];
        if na.op == O::Const {
            let k = na.k.trailing_zeros();
            if na.k != 0 && k > 0 && k < w && self.hi[b as usize] <= mk(k) {
                let hi = self.cst(na.k >> k, w - k);
                let lo = self.extract(b, 0, k);
                return Some(self.concat(hi, lo));
            }
            return None;
        }
        let mut pad = 0;
        if na.op == O::ZExt { pad = w - self.w(na.a); na = self.n[na.a as usize]; }
        if na.op == O::Concat && self.k(na.b) == Some(0) {
            let k = self.w(na.b);
            if self.hi[b as usize] <= mk(k) {
                let lo = self.extract(b, 0, k);
                let r = self.concat(na.a, lo);
                return Some(if pad > 0 { self.zext(r, w) } else { r });
            }
        }
        None
    }
    pub fn concat(&mut self, a: E, b: E) -> E {
        let (wa, wb) = (self.w(a), self.w(b));
        let w = wa + wb;
        if w > 128 { eprintln!("concat too wide"); std::process::exit(3); }
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) { return self.cst((x << wb) | y, w); }
        if self.k(a) == Some(0) { return self.zext(b, w); }
        let na = self.n[a as usize];
        let nb = self.n[b as usize];
        if na.op == O::Extract && nb.op == O::Extract && na.a == nb.a && na.aux == nb.aux + wb { return self.xjoin(na.a, nb.aux, w); }
        // (x . ext) . ext'
        if na.op == O::Concat && nb.op == O::Extract { let t = self.n[na.b as usize]; if t.op == O::Extract && t.a == nb.a && t.aux == nb.aux + wb { let j = self.xjoin(nb.a, nb.aux, wb + self.w(na.b)); return self.concat(na.a, j); } }
        if nb.op == O::Concat && na.op == O::Extract { let t = self.n[nb.a as usize]; if t.op == O::Extract && t.a == na.a && na.aux == t.aux + self.w(nb.a) { let j = self.xjoin(na.a, t.aux, wa + self.w(nb.a)); return self.concat(j, nb.b); } }
        if na.op == O::ZExt { let r = self.concat(na.a, b); return self.zext(r, w); }
        // const merging: x . (k . y) / (x . k) . k2
        if self.k(b).is_some() && na.op == O::Concat && self.k(na.b).is_some() { let c = self.concat(na.b, b); return self.concat(na.a, c); }
        // right-normalise: (p . q) . b  => p . (q . b)
        if na.op == O::Concat { let r = self.concat(na.b, b); return self.concat(na.a, r); }
        // extract of SExt high part etc. not handled
        // the whole of x split as (msb-part . x) where the high part is ZExt'd bits is handled by zext rule
        self.raw(O::Concat, w, 0, a, b, 0)
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw && w > 0);
        if lo == 0 && w == aw { return a; }
        if let Some(x) = self.k(a) { return self.cst(x >> lo, w); }
        if self.hi[a as usize] >> lo == 0 { return self.cst(0, w); }
        if w == 1 && lo + 1 == aw { if self.slo[a as usize] >= 0 { return self.cst(0, 1); } if self.shi[a as usize] < 0 { return self.cst(1, 1); } }
        let n = self.n[a as usize];
        match n.op {
            O::Extract => return self.extract(n.a, n.aux + lo, w),
            O::Concat => {
                let wb = self.w(n.b);
                if lo >= wb { return self.extract(n.a, lo - wb, w); }
                if lo + w <= wb { return self.extract(n.b, lo, w); }
                let l = self.extract(n.b, lo, wb - lo);
                let h = self.extract(n.a, 0, w - (wb - lo));
                return self.concat(h, l);
            }
            O::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw { return self.cst(0, w); }
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            O::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                if lo == 0 { return self.sext(n.a, w); }
            }
            O::Ite => {
                if self.k(n.b).is_some() || self.k(n.c).is_some() || true {
                    let nb = self.n[n.b as usize]; let nc = self.n[n.c as usize];
                    let ok = |q: &Node| matches!(q.op, O::Const | O::Concat | O::ZExt | O::SExt | O::Ite | O::Extract);
                    if ok(&nb) && ok(&nc) {
                        let x = self.extract(n.b, lo, w); let y = self.extract(n.c, lo, w);
                        return self.ite(n.a, x, y);
                    }
                }
            }
            O::And | O::Or | O::Xor => { let x = self.extract(n.a, lo, w); let y = self.extract(n.b, lo, w); return self.bin(n.op, x, y); }
            O::Add | O::Sub | O::Mul if lo == 0 => {
                let nb = self.n[n.b as usize]; let na = self.n[n.a as usize];
                let ok = |q: &Node| matches!(q.op, O::Const | O::Concat | O::ZExt | O::SExt | O::Extract | O::Add | O::Mul);
                if ok(&na) && ok(&nb) { let x = self.extract(n.a, 0, w); let y = self.extract(n.b, 0, w); return self.bin(n.op, x, y); }
            }
            _ => {}
        }
        self.raw(O::Extract, w, lo, a, 0, 0)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        debug_assert!(aw < w);
        if let Some(x) = self.k(a) { return self.cst(x, w); }
        let n = self.n[a as usize];
        if n.op == O::ZExt { return self.zext(n.a, w); }
        if n.op == O::Extract && n.aux == 0 && self.hi[n.a as usize] <= mk(aw) {
            let bw = self.w(n.a);
            return if bw == w { n.a } else if bw < w { self.zext(n.a, w) } else { self.extract(n.a, 0, w) };
        }
        if n.op == O::Ite && self.k(n.b).is_some() && self.k(n.c).is_some() { let x = self.zext(n.b, w); let y = self.zext(n.c, w); return self.ite(n.a, x, y); }
        self.raw(O::ZExt, w, 0, a, 0, 0)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        if let Some(x) = self.k(a) { return self.cst(sx(x, aw) as u128, w); }
        if self.hi[a as usize] <= mk(aw - 1) && aw > 1 { return self.zext(a, w); }
        let n = self.n[a as usize];
        if n.op == O::SExt { return self.sext(n.a, w); }
        if n.op == O::Ite && self.k(n.b).is_some() && self.k(n.c).is_some() { let x = self.sext(n.b, w); let y = self.sext(n.c, w); return self.ite(n.a, x, y); }
        self.raw(O::SExt, w, 0, a, 0, 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b { return a; }
        if let Some(x) = self.k(c) { return if x == 1 { a } else { b }; }
        let w = self.w(a);
        let nc = self.n[c as usize];
        if nc.op == O::Xor && self.k(nc.b) == Some(1) { return self.ite(nc.a, b, a); }
        if w == 1 {
            match (self.k(a), self.k(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.bin(O::Or, c, b),
                (Some(0), None) => { let n = self.not1(c); return self.bin(O::And, n, b); }
                (None, Some(0)) => return self.bin(O::And, c, a),
                (None, Some(1)) => { let n = self.not1(c); return self.bin(O::Or, n, a); }
                _ => {}
            }
            if a == c { return self.bin(O::Or, c, b); }
            if b == c { return self.bin(O::And, c, a); }
        }
        let na = self.n[a as usize];
        if na.op == O::Ite && na.a == c { return self.ite(c, na.b, b); }
        let nb = self.n[b as usize];
        if nb.op == O::Ite && nb.a == c { return self.ite(c, a, nb.c); }
        // ite(c, x, ite(d, x, y)) = ite(c|d, x, y)
        if nb.op == O::Ite && nb.b == a { let d = self.bin(O::Or, c, nb.a); return self.ite(d, a, nb.c); }
        if na.op == O::Ite && na.c == b { let d = self.bin(O::And, c, na.a); return self.ite(d, na.b, b); }
        self.raw(O::Ite, w, 0, c, a, b)
    }
    pub fn cmp(&mut self, op: O, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) { return if fold_cmp(op, w, x, y) { self.ntrue } else { self.nfalse }; }
        let (t, f) = (self.ntrue, self.nfalse);
        if a == b { match op { O::Eq | O::Ule | O::Sle => return t, O::Ult | O::Slt => return f, _ => {} } }
        let (la, ha, lb, hb) = (self.lo[a as usize], self.hi[a as usize], self.lo[b as usize], self.hi[b as usize]);
        let (sla, sha, slb, shb) = (self.slo[a as usize], self.shi[a as usize], self.slo[b as usize], self.shi[b as usize]);
        match op {
            O::Eq => {
                if ha < lb || hb < la { return f; }
                if sha < slb || shb < sla { return f; }
                let (mut a, mut b) = (a, b);
                if self.k(a).is_some() || (self.k(b).is_none() && a > b) { std::mem::swap(&mut a, &mut b); }
                let na = self.n[a as usize];
                if let Some(y) = self.k(b) {
                    if w == 1 { return if y == 1 { a } else { self.not1(a) }; }
                    match na.op {
                        O::Add => if let Some(x) = self.k(na.b) { let c = self.cst(y.wrapping_sub(x), w); return self.cmp(O::Eq, na.a, c); },
                        O::Xor => if let Some(x) = self.k(na.b) { let c = self.cst(y ^ x, w); return self.cmp(O::Eq, na.a, c); },
                        O::Sub => if y == 0 { return self.cmp(O::Eq, na.a, na.b); },
                        O::ZExt => { let iw = self.w(na.a); if y > mk(iw) { return f; } let c = self.cst(y, iw); return self.cmp(O::Eq, na.a, c); }
                        O::SExt => { let iw = self.w(na.a); let c = y & mk(iw); if (sx(c, iw) as u128) & mk(w) != y { return f; } let c = self.cst(c, iw); return self.cmp(O::Eq, na.a, c); }
                        O::Concat => {
                            let wb = self.w(na.b);
                            let h = self.cst(y >> wb, w - wb); let l = self.cst(y & mk(wb), wb);
                            let x = self.cmp(O::Eq, na.a, h); if x == f { return f; } let z = self.cmp(O::Eq, na.b, l);
                            return self.bin(O::And, x, z);
                        }
                        O::Ite => {
                            let (kb, kc) = (self.k(na.b), self.k(na.c));
                            if kb.is_some() || kc.is_some() {
                                let x = self.cmp(O::Eq, na.b, b); let z = self.cmp(O::Eq, na.c, b);
                                return self.ite(na.a, x, z);
                            }
                        }
                        O::Or => if y == 0 { let z = self.cst(0, w); let p = self.cmp(O::Eq, na.a, z); let q = self.cmp(O::Eq, na.b, z); return self.bin(O::And, p, q); },
                        _ => {}
                    }
                } else {
                    let nb = self.n[b as usize];
                    if na.op == O::ZExt && nb.op == O::ZExt {
                        let (wa, wb) = (self.w(na.a), self.w(nb.a));
                        let mx = wa.max(wb);
                        let x = self.zext(na.a, mx); let y = self.zext(nb.a, mx);
                        return self.cmp(O::Eq, x, y);
                    }
                    if na.op == O::Add && nb.op == O::Add { if self.k(na.b).is_some() && na.b == nb.b { return self.cmp(O::Eq, na.a, nb.a); } }
                    if na.op == O::Concat && nb.op == O::Concat && self.w(na.b) == self.w(nb.b) {
                        let x = self.cmp(O::Eq, na.a, nb.a); let z = self.cmp(O::Eq, na.b, nb.b); return self.bin(O::And, x, z);
                    }
                }
                return self.raw(O::Eq, 1, 0, a, b, 0);
            }
            O::Ult => {
                if ha < lb { return t; }
                if la >= hb { return f; }
                if let Some(y) = self.k(b) {
                    if y == la + 1 { let c = self.cst(la, w); return self.cmp(O::Eq, a, c); }
                    if y == ha { let c = self.cst(ha, w); let e = self.cmp(O::Eq, a, c); return self.not1(e); }
                    let na = self.n[a as usize];
                    if na.op == O::ZExt { let iw = self.w(na.a); let c = self.cst(y, iw); return self.cmp(O::Ult, na.a, c); }
                    if na.op == O::Ite && self.k(na.b).is_some() && self.k(na.c).is_some() { let x = self.cmp(op, na.b, b); let z = self.cmp(op, na.c, b); return self.ite(na.a, x, z); }
                }
                if let Some(x) = self.k(a) {
                    if x + 1 == hb { let c = self.cst(hb, w); return self.cmp(O::Eq, b, c); }
                    if x == lb { let c = self.cst(lb, w); let e = self.cmp(O::Eq, b, c); return self.not1(e); }
                    let nb = self.n[b as usize];
                    if nb.op == O::ZExt { let iw = self.w(nb.a); let c = self.cst(x, iw); return self.cmp(O::Ult, c, nb.a); }
                    if nb.op == O::Ite && self.k(nb.b).is_some() && self.k(nb.c).is_some() { let p = self.cmp(op, a, nb.b); let z = self.cmp(op, a, nb.c); return self.ite(nb.a, p, z); }
                }
                let (na, nb) = (self.n[a as usize], self.n[b as usize]);
                if na.op == O::ZExt && nb.op == O::ZExt { let mx = self.w(na.a).max(self.w(nb.a)); let x = self.zext(na.a, mx); let y = self.zext(nb.a, mx); return self.cmp(O::Ult, x, y); }
            }
            O::Ule => {
                // a <= b  ==  !(b < a); normalise constants to strict
                if ha <= lb { return t; }
                if la > hb { return f; }
                if let Some(y) = self.k(b) { let c = self.cst(y + 1, w); return self.cmp(O::Ult, a, c); }
                if let Some(x) = self.k(a) { let c = self.cst(x - 1, w); return self.cmp(O::Ult, c, b); }
                let (na, nb) = (self.n[a as usize], self.n[b as usize]);
                if na.op == O::ZExt && nb.op == O::ZExt { let mx = self.w(na.a).max(self.w(nb.a)); let x = self.zext(na.a, mx); let y = self.zext(nb.a, mx); return self.cmp(O::Ule, x, y); }
            }
            O::Slt | O::Sle => {
                let half = mk(w - 1);
                if w > 1 && ha <= half && hb <= half { return self.cmp(if op == O::Slt { O::Ult } else { O::Ule }, a, b); }
                // one side provably non-negative and the other provably negative
                if w > 1 && ha <= half && lb > half { return f; }
                if w > 1 && la > half && hb <= half { return t; }
                if op == O::Slt { if sha < slb { return t; } if sla >= shb { return f; } } else { if sha <= slb { return t; } if sla > shb { return f; } }
                // (x + c) < k with no wrap: x < k - c
                if let Some(y) = self.k(b) { let n = self.n[a as usize]; if n.op == O::Add && w < 120 { if let Some(x) = self.k(n.b) {
                    let (cx, ky) = (sx(x, w), sx(y, w));
                    let (pl, ph) = (self.slo[n.a as usize], self.shi[n.a as usize]);
                    let (mn, mx) = (-(half as i128) - 1, half as i128);
                    if pl + cx >= mn && ph + cx <= mx && ky - cx >= mn && ky - cx <= mx { let c = self.cst((ky - cx) as u128, w); return self.cmp(op, n.a, c); }
                } } }
                if let Some(y) = self.k(a) { let n = self.n[b as usize]; if n.op == O::Add && w < 120 { if let Some(x) = self.k(n.b) {
                    let (cx, ky) = (sx(x, w), sx(y, w));
                    let (pl, ph) = (self.slo[n.a as usize], self.shi[n.a as usize]);
                    let (mn, mx) = (-(half as i128) - 1, half as i128);
                    if pl + cx >= mn && ph + cx <= mx && ky - cx >= mn && ky - cx <= mx { let c = self.cst((ky - cx) as u128, w); return self.cmp(op, c, n.a); }
                } } }
                let (na, nb) = (self.n[a as usize], self.n[b as usize]);
                if na.op == O::SExt && nb.op == O::SExt && self.w(na.a) == self.w(nb.a) { return self.cmp(op, na.a, nb.a); }
                if na.op == O::SExt { if let Some(y) = self.k(b) { let iw = self.w(na.a); let c = y & mk(iw); if (sx(c, iw) as u128) & mk(w) == y { let c = self.cst(c, iw); return self.cmp(op, na.a, c); } } }
                if nb.op == O::SExt { if let Some(y) = self.k(a) { let iw = self.w(nb.a); let c = y & mk(iw); if (sx(c, iw) as u128) & mk(w) == y { let c = self.cst(c, iw); return self.cmp(op, c, nb.a); } } }
                if self.const_ite(a) && self.k(b).is_some() { let x = self.cmp(op, na.b, b); let z = self.cmp(op, na.c, b); return self.ite(na.a, x, z); }
                if self.const_ite(b) && self.k(a).is_some() { let x = self.cmp(op, a, nb.b); let z = self.cmp(op, a, nb.c); return self.ite(nb.a, x, z); }
                // x <s 0 : sign bit
                if op == O::Slt && self.k(b) == Some(0) && w > 1 { return self.extract(a, w - 1, 1); }
                if op == O::Sle && self.k(a) == Some(0) && w > 1 { let s = self.extract(b, w - 1, 1); return self.not1(s); }
                if op == O::Slt && self.k(a) == Some(mk(w)) && w > 1 { let s = self.extract(b, w - 1, 1); return self.not1(s); }
            }
            O::FEq | O::FLt | O::FLe => {
                if let (Some((x, i)), Some((y, j))) = (self.fx(a, 0), self.fx(b, 0)) {
                    let k = i.max(j);
                    if let (Some(x), Some(y)) = (self.fx_scale(x, k - i), self.fx_scale(y, k - j)) { return self.cmp(match op { O::FEq => O::Eq, O::FLt => O::Slt, _ => O::Sle }, x, y); }
                }
                let r = self.raw(op, 1, 0, a, b, 0); return self.tab(r); }
            _ => {}
        }
        self.raw(op, 1, 0, a, b, 0)
    }
    fn syms_of(&self, e: E, seen: &mut std::collections::HashSet<E>, out: &mut Vec<E>) {
        let n = self.n[e as usize];
        if n.op == O::Const || !seen.insert(e) { return; }
        if n.op == O::Sym { if let Some(p) = out.iter_mut().find(|p| self.n[**p as usize].aux == n.aux) { if self.n[*p as usize].k == 0 { *p = e; } } else { out.push(e); } return; }
        for x in [n.a, n.b, n.c] { if x != 0 { self.syms_of(x, seen, out); } }
    }
    /// A value computed through floating point from few input bits becomes an exact piecewise-constant table over them:
    /// the solver then sees bit-vectors only.
    fn tab(&mut self, e: E) -> E {
        if self.k(e).is_some() || self.n[e as usize].op == O::Ite { return e; }
        if let Some(&t) = self.tabbed.get(&e) { return t; }
        let cnt: u32 = self.mask[e as usize].iter().map(|m| m.count_ones()).sum();
        let mut r = e;
        if cnt <= 3 {
            let mut syms = vec![];
            self.syms_of(e, &mut Default::default(), &mut syms);
            let total: u32 = syms.iter().map(|s| self.w(*s)).sum();
            if total <= 14 {
                let mx = syms.iter().map(|s| self.n[*s as usize].aux).max().unwrap_or(0) as usize;
                let mut model = vec![0u128; mx + 1];
                let mut runs: Vec<(u128, u128)> = vec![];
                let mut ok = true;
                'v: for v in 0..(1u128 << total) {
                    let mut sh = total;
                    for s in &syms {
                        let n = self.n[*s as usize];
                        sh -= n.w as u32;
                        let x = (v >> sh) & mk(n.w as u32);
                        if n.k != 0 && x > n.k { continue 'v; }
                        model[n.aux as usize] = x;
                    }
                    self.tabgen += 1;
                    let g = self.tabgen;
                    let y = self.eval(e, &model, g);
                    if runs.last().map(|r| r.1) != Some(y) { runs.push((v, y)); if runs.len() > 600 { ok = false; break; } }
                }
                if ok && !runs.is_empty() {
                    let mut key = syms[0];
                    for s in &syms[1..] { key = self.concat(key, *s); }
                    r = self.run_tree(key, &runs, self.w(e));
                }
            }
        }
        self.tabbed.insert(e, r);
        r
    }
    fn run_tree(&mut self, key: E, runs: &[(u128, u128)], w: u32) -> E {
        if runs.len() == 1 { return self.cst(runs[0].1, w); }
        let m = runs.len() / 2;
        let l = self.run_tree(key, &runs[..m], w);
        let h = self.run_tree(key, &runs[m..], w);
        let k = self.cst(runs[m].0, self.w(key));
        let c = self.cmp(O::Ult, key, k);
        self.ite(c, l, h)
    }
    /// A float that is exactly n * 2^-k for an integer term n (64 bits, magnitude below 2^53, never -0): (n, k).
    fn fx(&mut self, e: E, depth: u32) -> Option<(E, u32)> {
        let n = self.n[e as usize];
        if n.w != 64 { return None; }
        let lim = 1i128 << 52;
        match n.op {
            O::Const => {
                let v = f64::from_bits(n.k as u64);
                if !v.is_finite() || (v == 0.0 && v.is_sign_negative()) { return None; }
                let mut k = 0; let mut x = v;
                while x != x.trunc() && k < 20 { x *= 2.0; k += 1; }
                if x != x.trunc() || x.abs() >= lim as f64 { return None; }
                Some((self.cst(x as i64 as u64 as u128, 64), k))
            }
            O::SIToF => { let w = self.w(n.a); if self.slo[n.a as usize] <= -lim || self.shi[n.a as usize] >= lim || w > 64 || w < 2 { return None; } Some((self.sext(n.a, 64), 0)) }
            O::UIToF => { let w = self.w(n.a); if self.hi[n.a as usize] >= lim as u128 || w > 64 { return None; } Some((self.zext(n.a, 64), 0)) }
            O::FMul => {
                let y = self.k(n.b)?; let x = self.n[n.a as usize];
                let v = f64::from_bits(y as u64);
                if x.op != O::SIToF || v <= 0.0 || v >= 1.0 { return None; }
                let k = (1..21).find(|k| v == 1.0 / (1u64 << k) as f64)?;
                Some((self.fx(n.a, depth)?.0, k))
            }
            O::FAdd => {
                let (x, i) = self.fx(n.a, depth)?; self.k(n.b)?; let (y, j) = self.fx(n.b, depth)?;
                let x = self.fx_scale(x, j - i)?;
                Some((self.bin(O::Add, x, y), j))
            }
            O::Ite if depth < 6 => {
                let (x, i) = self.fx(n.b, depth + 1)?; let (y, j) = self.fx(n.c, depth + 1)?;
                let k = i.max(j);
                let x = self.fx_scale(x, k - i)?; let y = self.fx_scale(y, k - j)?;
                Some((self.ite(n.a, x, y), k))
            }
            _ => None,
        }
    }
    fn fx_scale(&mut self, x: E, k: u32) -> Option<E> {
        if k == 0 { return Some(x); }
        let m = self.slo[x as usize].abs().max(self.shi[x as usize].abs());
        if m << k >= 1 << 53 { return None; }
        let c = self.cst(1 << k, 64);
        Some(self.bin(O::Mul, x, c))
    }
    fn fx_make(&mut self, x: E, k: u32) -> Option<E> {
        if self.slo[x as usize] <= -(1 << 52) || self.shi[x as usize] >= 1 << 52 { return None; }
        let f = self.un(O::SIToF, 64, 0, x);
        if k == 0 { return Some(f); }
        if k > 20 { return None; }
        let c = self.cst((1.0 / (1u64 << k) as f64).to_bits() as u128, 64);
        if self.k(f).is_some() { return Some(self.bin(O::FMul, f, c)); }
        Some(self.raw(O::FMul, 64, 0, f, c, 0))
    }
    fn fx_bin(&mut self, op: O, w: u32, a: E, mut b: E) -> Option<E> {
        if w != 64 { return None; }
        let mut op = op;
        if op == O::FDiv {
            let v = f64::from_bits(self.k(b)? as u64);
            let k = (0..21).find(|k| v == (1u64 << k) as f64)?;
            b = self.cst((1.0 / (1u64 << k) as f64).to_bits() as u128, 64); op = O::FMul;
        }
        let (x, i) = self.fx(a, 0)?; let (y, j) = self.fx(b, 0)?;
        if op == O::FMul {
            let (xl, xh, yl, yh) = (self.slo[x as usize], self.shi[x as usize], self.slo[y as usize], self.shi[y as usize]);
            // 0 * negative is -0
            if !((xl >= 0 && yl >= 0) || (xl > 0 && yh < 0) || (xh < 0 && yl > 0)) { return None; }
            if xl.abs().max(xh.abs()).checked_mul(yl.abs().max(yh.abs()))? >= 1 << 52 { return None; }
            let k = i + j;
            if self.k(y) == Some(1) { return self.fx_make(x, k); }
            if self.k(x) == Some(1) { return self.fx_make(y, k); }
            let p = self.bin(O::Mul, x, y);
            return self.fx_make(p, k);
        }
        // integer + constant fraction: kept as it is (see floor)
        if op == O::FAdd && i == 0 && j > 0 && self.k(y).is_some() && self.k(x).is_none() && self.slo[x as usize] > -(1 << 32) && self.shi[x as usize] < 1 << 32 {
            let f = self.fx_make(x, 0)?;
            return Some(self.raw(O::FAdd, 64, 0, f, b, 0));
        }
        let k = i.max(j);
        let x = self.fx_scale(x, k - i)?; let y = self.fx_scale(y, k - j)?;
        let r = self.bin(if op == O::FAdd { O::Add } else { O::Sub }, x, y);
        self.fx_make(r, k)
    }
    fn fx_un(&mut self, op: O, w: u32, aux: u32, a: E) -> Option<E> {
        match op {
            O::FIsNan => { self.fx(a, 0)?; Some(self.nfalse) }
            O::FToSI | O::FToUI => {
                let (x, k) = self.fx(a, 0)?;
                let (l, h) = (self.slo[x as usize], self.shi[x as usize]);
                if (k > 0 || op == O::FToUI) && l < 0 { return None; }
                let bits = if op == O::FToUI { w } else { w - 1 };
                if bits < 63 && (h >= 1i128 << bits || l < -(1i128 << bits)) { return None; }
                let kk = self.cst(k as u128, 64);
                let r = self.bin(O::LShr, x, kk);
                Some(if w < 64 { self.extract(r, 0, w) } else { self.sext(r, w) })
            }
            O::FRound => {
                let n = self.n[a as usize];
                if n.op == O::FAdd && aux == 2 && self.k(n.b).is_some() {
                    if let (Some((x, 0)), Some((y, j))) = (self.fx(n.a, 0), self.fx(n.b, 0)) {
                        let c = self.cst(((sx(self.k(y).unwrap(), 64) >> j) as i64 as u64) as u128, 64);
                        let r = self.bin(O::Add, x, c);
                        return self.fx_make(r, 0);
                    }
                }
                let (x, k) = self.fx(a, 0)?;
                if k == 0 { return Some(a); }
                if aux == 2 { let kk = self.cst(k as u128, 64); let r = self.bin(O::AShr, x, kk); return self.fx_make(r, 0); }
                if self.slo[x as usize] < 0 { return None; }
                let add = match aux { 1 => 1u128 << (k - 1), 3 => (1u128 << k) - 1, 4 => 0, _ => return None };
                let c = self.cst(add, 64); let s = self.bin(O::Add, x, c);
                let kk = self.cst(k as u128, 64); let r = self.bin(O::LShr, s, kk);
                self.fx_make(r, 0)
            }
            _ => None,
        }
    }
    pub fn un(&mut self, op: O, w: u32, aux: u32, a: E) -> E {
        if let Some(x) = self.k(a) { let r = self.fold_un(op, w, aux, x, self.w(a)); return self.cst(r, w); }
        if let Some(r) = self.fx_un(op, w, aux, a) { return r; }
        if self.const_ite(a) { let n = self.n[a as usize]; let x = self.un(op, w, aux, n.b); let y = self.un(op, w, aux, n.c); return self.ite(n.a, x, y); }
        let r = self.raw(op, w, aux, a, 0, 0);
        if matches!(op, O::FToSI | O::FToUI | O::FIsNan) { return self.tab(r); }
        r
    }
    fn fold_un(&self, op: O, w: u32, aux: u32, x: u128, aw: u32) -> u128 {
        match op {
            O::FIsNan => fl(aw, x).is_nan() as u128,
            O::FToSI => fold_ftoi(aw, x, w, true),
            O::FToUI => fold_ftoi(aw, x, w, false),
            O::SIToF => fold_itof(aw, x, w, true),
            O::UIToF => fold_itof(aw, x, w, false),
            O::FToF => fold_ftof(aw, x, w),
            O::FRound => fold_round(w, x, aux),
            O::FSqrt => fold_sqrt(w, x),
            _ => panic!("fold_un {:?}", op),
        }
    }

    /// Evaluate under a model (values by symbol index). `gen` identifies the model for memoisation.
    pub fn eval(&mut self, e: E, model: &[u128], gen: u64) -> u128 {
        let n = self.n[e as usize];
        match n.op {
            O::Const => return n.k,
            O::Sym => return model.get(n.aux as usize).copied().unwrap_or(0) & mk(n.w as u32),
            _ => {}
        }
        let (g, v) = self.memo[e as usize];
        if g == gen { return v; }
        let w = n.w as u32;
        let r = match n.op {
            O::Ite => if self.eval(n.a, model, gen) == 1 { self.eval(n.b, model, gen) } else { self.eval(n.c, model, gen) },
            O::Concat => { let h = self.eval(n.a, model, gen); let l = self.eval(n.b, model, gen); (h << self.w(n.b)) | l }
            O::Extract => (self.eval(n.a, model, gen) >> n.aux) & mk(w),
            O::ZExt => self.eval(n.a, model, gen),
            O::SExt => { let x = self.eval(n.a, model, gen); (sx(x, self.w(n.a)) as u128) & mk(w) }
            O::Eq | O::Ult | O::Ule | O::Slt | O::Sle | O::FEq | O::FLt | O::FLe => { let x = self.eval(n.a, model, gen); let y = self.eval(n.b, model, gen); fold_cmp(n.op, self.w(n.a), x, y) as u128 }
            O::FIsNan | O::FToSI | O::FToUI | O::SIToF | O::UIToF | O::FToF | O::FRound | O::FSqrt => { let x = self.eval(n.a, model, gen); self.fold_un(n.op, w, n.aux, x, self.w(n.a)) }
            _ => { let x = self.eval(n.a, model, gen); let y = self.eval(n.b, model, gen); fold_bin(n.op, w, x, y) }
        };
        self.memo[e as usize] = (gen, r);
        r
    }
}
