//! Path-exploring symbolic interpreter for the loaded module.
use crate::expr::*;
use crate::ir::*;
use crate::z3::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};
use std::time::Instant;

#[derive(Clone)]
pub struct Obj { pub data: Vec<u8>, pub sym: Option<Vec<E>>, pub ro: bool, pub heap: bool }
impl Obj {
    fn zero(n: u64) -> Obj { Obj { data: vec![0; n as usize], sym: None, ro: false, heap: false } }
}
const CH: usize = 64;
type Chunk = Vec<Option<Rc<Obj>>>;
const STACK_ID: u64 = 0x4000_0000;

#[derive(Clone)]
pub struct Frame { func: u32, block: u32, ip: u32, regs: Vec<V>, ret_dst: u32, ret_normal: Option<u32>, stack_mark: usize }

#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    heap: Vec<Rc<Chunk>>,
    stack: Vec<Rc<Obj>>,
    free_ids: Vec<u32>,
    next_id: u32,
    path: Vec<E>,
    fixed: Mask,
    model: Rc<Vec<u128>>,
    gen: u64,
    symw: Rc<Vec<u8>>,
    out: Rc<Vec<(u8, E)>>,
    eqs: Rc<HashMap<E, u128, Fx>>,
    steps: u64,
    clock: u64,
    log: Rc<Vec<LogItem>>,
}
#[derive(Clone)]
pub enum LogItem { Reach(String), Obs(E), ObsC(u64) }

#[repr(C)]
pub struct Shared {
    pub active: AtomicI64,
    pub stop: AtomicI64,
    pub paths: AtomicU64,
    pub infeasible: AtomicU64,
    pub queries: AtomicU64,
    pub qsat: AtomicU64,
    pub qunsat: AtomicU64,
    pub qunknown: AtomicU64,
    pub cached: AtomicU64,
    pub solver_us: AtomicU64,
    pub instrs: AtomicU64,
    pub forks: AtomicU64,
    pub checks: AtomicU64,
    pub checks_valid: AtomicU64,
    pub violations: AtomicU64,
    pub errors: AtomicU64,
    pub procs: AtomicU64,
    pub maxq_us: AtomicU64,
    pub maxsym: AtomicU64,
    pub maxdepth: AtomicU64,
}

pub struct Opts { pub workers: i64, pub deadline: Instant, pub max_steps: u64, pub out: String, pub stop_first: bool, pub max_depth: usize, pub dump: Option<String>, pub trace: bool, pub concrete: Option<Vec<u128>>, pub slow: bool }

pub struct Engine {
    pub m: &'static mut Module,
    pub ar: Arena,
    pub z: Z3,
    pub sh: &'static Shared,
    pub opts: Opts,
    work: Vec<State>,
    cache: HashMap<Vec<E>, Option<Rc<Vec<(u32, u128)>>>, Fx>,
    next_gen: u64,
    pub visited: HashSet<(u32, u32), Fx>,
    pub viols: Vec<(String, String, Vec<(u8, u128)>)>,
    pub seen_viol: BTreeSet<String>,
    pub errs: BTreeMap<String, u64>,
    pub reach: BTreeMap<String, u64>,
    pub assumptions: BTreeSet<String>,
    fkind: Vec<FK>,
    last_fork: Instant,
    instr_local: u64,
    pub qhot: HashMap<(u32, u32), (u64, u64), Fx>,
    pub samples: Vec<(Vec<(u8, u128)>, String)>,
    pub npaths: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum FK { Normal, Panic, Abort, RandKeys, SipWrite }

enum Step { Next, Jumped, Dead, Done }

pub fn demangle(n: &str) -> String { n.to_string() }

type R<T> = Result<T, Step>;

impl Engine {
    pub fn new(m: Module, sh: &'static Shared, opts: Opts, rlimit: u32) -> Engine {
        let m: &'static mut Module = Box::leak(Box::new(m));
        let mut fkind = vec![];
        for f in &m.funcs {
            let n = &f.name;
            let k = if n.contains("4core9panicking") || n.contains("slice_error_fail") || n.contains("unwrap_failed") || n.contains("expect_failed")
                || n.contains("slice_index_fail") || n.contains("len_mismatch_fail") || n.contains("panic_already") || n.contains("begin_panic")
                || n.contains("capacity_overflow") || n.contains("rust_begin_unwind") || n.contains("panic_display") || n.contains("copy_from_slice_impl8len_mism") || (n.contains("4core5slice5index") && n.contains("_fail"))
                || n.contains("panic_access_error")
            { FK::Panic }
            else if n.contains("handle_alloc_error") || (n.contains("7raw_vec") && n.contains("handle_error")) || n == "__rust_start_panic" || n.contains("rust_panic") { FK::Abort }
            else if n.contains("hashmap_random_keys") { FK::RandKeys }
            else if n.contains("4hash3sip") && n.contains("6Hasher5write") { FK::SipWrite }
            else { FK::Normal };
            fkind.push(k);
        }
        Engine { m, ar: Arena::new(), z: Z3::new(rlimit), sh, opts, work: vec![], cache: HashMap::with_hasher(Fx), next_gen: 2, visited: HashSet::with_hasher(Fx), viols: vec![], seen_viol: BTreeSet::new(), errs: BTreeMap::new(), reach: BTreeMap::new(), assumptions: BTreeSet::new(), fkind, last_fork: Instant::now(), instr_local: 0, qhot: HashMap::with_hasher(Fx), samples: vec![], npaths: 0 }
    }

    pub fn init_state(&mut self, entry: &str) -> State {
        let f = *self.m.fmap.get(entry).unwrap_or_else(|| { eprintln!("no entry {}", entry); std::process::exit(3) });
        self.m.ensure_body(f);
        let mut st = State { frames: vec![], heap: vec![], stack: vec![], free_ids: vec![], next_id: 0, path: vec![], fixed: [0; NSYM_WORDS], model: Rc::new(vec![]), gen: 1, symw: Rc::new(vec![]), out: Rc::new(vec![]), eqs: Rc::new(HashMap::with_hasher(Fx)), steps: 0, clock: 1_000_000_000, log: Rc::new(vec![]) };
        let ng = self.m.globals.len() as u32;
        for g in 0..ng {
            let gl = &self.m.globals[g as usize];
            let sz = self.m.size(gl.ty);
            let mut o = Obj::zero(sz);
            if let Some(v) = &gl.init { let v = v.clone(); let ty = gl.ty; self.flat(&v, ty, &mut o.data, 0); }
            o.ro = self.m.globals[g as usize].constant;
            self.put_obj(&mut st, global_addr(g) >> 32, o);
        }
        st.next_id = ng + 17;
        let fun = &self.m.funcs[f as usize];
        st.frames.push(Rc::new(Frame { func: f, block: 0, ip: 0, regs: vec![V::C(0); fun.nregs as usize], ret_dst: u32::MAX, ret_normal: None, stack_mark: 0 }));
        st
    }
    fn flat(&self, v: &V, ty: TyId, out: &mut Vec<u8>, off: usize) {
        match v {
            V::C(x) => { let n = self.m.store_size(ty) as usize; let b = x.to_le_bytes(); let k = n.min(8); out[off..off + k].copy_from_slice(&b[..k]); }
            V::W(l, h) => { let x = (*l as u128 | (*h as u128) << 64).to_le_bytes(); let n = self.m.store_size(ty) as usize; out[off..off + n].copy_from_slice(&x[..n]); }
            V::A(vs) => for (i, x) in vs.iter().enumerate() { let et = self.m.elem(ty, i); let o = self.m.field_off(ty, i) as usize; self.flat(x, et, out, off + o); },
            V::E(_) => unreachable!(),
        }
    }

    // ---------- memory ----------
    fn put_obj(&mut self, st: &mut State, id: u64, o: Obj) {
        let ci = id as usize / CH;
        while st.heap.len() <= ci { st.heap.push(Rc::new(vec![None; CH])); }
        Rc::make_mut(&mut st.heap[ci])[id as usize % CH] = Some(Rc::new(o));
    }
    fn obj<'a>(&self, st: &'a State, id: u64) -> Option<&'a Rc<Obj>> {
        if id >= STACK_ID { return st.stack.get((id - STACK_ID) as usize); }
        st.heap.get(id as usize / CH).and_then(|c| c[id as usize % CH].as_ref())
    }
    fn obj_mut<'a>(&self, st: &'a mut State, id: u64) -> Option<&'a mut Obj> {
        if id >= STACK_ID { return st.stack.get_mut((id - STACK_ID) as usize).map(Rc::make_mut); }
        let c = st.heap.get_mut(id as usize / CH)?;
        if c[id as usize % CH].is_none() { return None; }
        Rc::make_mut(c)[id as usize % CH].as_mut().map(Rc::make_mut)
    }
    fn malloc(&mut self, st: &mut State, n: u64) -> u64 {
        if n > (1 << 28) { self.err(st, "huge allocation".into()); return 0; }
        let id = match st.free_ids.pop() { Some(i) => i, None => { let i = st.next_id; st.next_id += 1; i } };
        let mut o = Obj::zero(n);
        o.heap = true;
        self.put_obj(st, id as u64, o);
        (id as u64) << 32
    }
    fn free(&mut self, st: &mut State, a: u64) -> R<()> {
        if a == 0 { return Ok(()); }
        let id = a >> 32;
        match self.obj(st, id) {
            Some(o) if o.heap && a & 0xffff_ffff == 0 && id < STACK_ID => {}
            _ => return Err(self.viol(st, "memory", format!("invalid free of {:#x}", a))),
        }
        let c = &mut st.heap[id as usize / CH];
        Rc::make_mut(c)[id as usize % CH] = None;
        st.free_ids.push(id as u32);
        Ok(())
    }
    fn rd_bytes(&mut self, st: &mut State, a: u64, n: u64) -> R<Vec<(u8, E)>> {
        if n == 0 { return Ok(vec![]); }
        let (id, off) = (a >> 32, a & 0xffff_ffff);
        let bad = match self.obj(st, id) { Some(o) => off + n > o.data.len() as u64, None => true };
        if bad { return Err(self.viol(st, "memory", format!("out-of-bounds read of {} bytes at {:#x}", n, a))); }
        let o = self.obj(st, id).unwrap();
        let r = off as usize..(off + n) as usize;
        Ok(match &o.sym { None => o.data[r].iter().map(|b| (*b, 0)).collect(), Some(s) => o.data[r.clone()].iter().zip(&s[r]).map(|(b, e)| (*b, *e)).collect() })
    }
    fn wr_bytes(&mut self, st: &mut State, a: u64, bs: &[(u8, E)]) -> R<()> {
        if bs.is_empty() { return Ok(()); }
        let (id, off) = (a >> 32, (a & 0xffff_ffff) as usize);
        let bad = match self.obj(st, id) { Some(o) => off + bs.len() > o.data.len() || o.ro, None => true };
        if bad { return Err(self.viol(st, "memory", format!("out-of-bounds write of {} bytes at {:#x}", bs.len(), a))); }
        let o = self.obj_mut(st, id).unwrap();
        let any = bs.iter().any(|b| b.1 != 0);
        if any && o.sym.is_none() { o.sym = Some(vec![0; o.data.len()]); }
        for (i, b) in bs.iter().enumerate() { o.data[off + i] = b.0; }
        if let Some(s) = &mut o.sym { for (i, b) in bs.iter().enumerate() { s[off + i] = b.1; } }
        Ok(())
    }
    fn load_scalar(&mut self, st: &mut State, a: u64, bits: u32) -> R<V> {
        let n = (bits as u64 + 7) / 8;
        let (id, off) = (a >> 32, (a & 0xffff_ffff) as usize);
        let nn = n as usize;
        let ok = match self.obj(st, id) { Some(o) => off + nn <= o.data.len(), None => false };
        if !ok { return Err(self.viol(st, "memory", format!("out-of-bounds read of {} bytes at {:#x}", n, a))); }
        let o = self.obj(st, id).unwrap();
        let symb = match &o.sym { None => false, Some(s) => s[off..off + nn].iter().any(|e| *e != 0) };
        if !symb {
            if nn <= 8 { let mut b = [0u8; 8]; b[..nn].copy_from_slice(&o.data[off..off + nn]); let x = u64::from_le_bytes(b); return Ok(V::C(if bits < 64 { x & ((1u64 << bits) - 1) } else { x })); }
            let mut b = [0u8; 16]; b[..nn].copy_from_slice(&o.data[off..off + nn]);
            let x = u128::from_le_bytes(b) & mk(bits);
            return Ok(V::from128(x, bits));
        }
        let bytes: Vec<(u8, E)> = o.data[off..off + nn].iter().copied().zip(o.sym.as_ref().unwrap()[off..off + nn].iter().copied()).collect();
        Ok(self.bytes_to_v(&bytes, bits))
    }
    fn bytes_to_v(&mut self, bytes: &[(u8, E)], bits: u32) -> V {
        let mut acc: Option<E> = None;
        for &(b, e) in bytes.iter() {
            let x = if e != 0 { e } else { self.ar.cst(b as u128, 8) };
            acc = Some(match acc { None => x, Some(l) => self.ar.concat(x, l) });
        }
        let mut e = self.ar.norm(acc.unwrap());
        if self.ar.w(e) > bits { e = self.ar.extract(e, 0, bits); }
        self.ev(e)
    }
    fn ev(&self, e: E) -> V { match self.ar.k(e) { Some(k) => V::from128(k, self.ar.w(e)), None => V::E(e) } }
    fn load_ty(&mut self, st: &mut State, a: u64, t: TyId) -> R<V> {
        match self.m.tys[t as usize].clone() {
            Ty::Int(n) => self.load_scalar(st, a, n),
            Ty::Ptr | Ty::F64 => self.load_scalar(st, a, 64),
            Ty::F32 => self.load_scalar(st, a, 32),
            Ty::Vec(n, e) if self.m.bits(e) % 8 == 0 => { let w = self.m.bits(e); let mut v = vec![]; for i in 0..n { v.push(self.load_scalar(st, a + (i * w / 8) as u64, w)?); } Ok(V::A(Rc::new(v))) }
            Ty::Struct(f, _) => { let mut v = vec![]; for i in 0..f.len() { let o = self.m.field_off(t, i); v.push(self.load_ty(st, a + o, f[i])?); } Ok(V::A(Rc::new(v))) }
            Ty::Arr(n, e) => { let s = self.m.size(e); let mut v = vec![]; for i in 0..n { v.push(self.load_ty(st, a + i * s, e)?); } Ok(V::A(Rc::new(v))) }
            x => Err(self.err(st, format!("load of {:?}", x))),
        }
    }
    fn v_bytes(&mut self, v: &V, n: usize, bits: u32, out: &mut Vec<(u8, E)>) {
        match v {
            V::C(x) => { let b = x.to_le_bytes(); for i in 0..n { out.push((if i < 8 { b[i] } else { 0 }, 0)); } }
            V::W(l, h) => { let b = (*l as u128 | (*h as u128) << 64).to_le_bytes(); for i in 0..n { out.push((b[i], 0)); } }
            V::E(e) => {
                let mut e = *e;
                if bits < n as u32 * 8 { e = self.ar.zext(e, n as u32 * 8); }
                for i in 0..n { let x = self.ar.byte(e, i as u32 * 8); match self.ar.k(x) { Some(k) => out.push((k as u8, 0)), None => out.push((0, x)) } }
            }
            V::A(_) => panic!("v_bytes of aggregate"),
        }
    }
    fn store_ty(&mut self, st: &mut State, a: u64, t: TyId, v: &V) -> R<()> {
        match self.m.tys[t as usize].clone() {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                let bits = self.m.bits(t);
                let n = ((bits + 7) / 8) as usize;
                if let V::C(x) = v {
                    // fast path
                    let (id, off) = (a >> 32, (a & 0xffff_ffff) as usize);
                    let ok = match self.obj(st, id) { Some(o) => off + n <= o.data.len() && !o.ro, None => false };
                    if !ok { return Err(self.viol(st, "memory", format!("out-of-bounds write of {} bytes at {:#x}", n, a))); }
                    let o = self.obj_mut(st, id).unwrap();
                    if n <= 8 { o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]); } else { o.data[off..off + 8].copy_from_slice(&x.to_le_bytes()); o.data[off + 8..off + n].fill(0); }
                    if let Some(s) = &mut o.sym { s[off..off + n].fill(0); }
                    return Ok(());
                }
                let mut b = vec![];
                self.v_bytes(v, n, bits, &mut b);
                self.wr_bytes(st, a, &b)
            }
            Ty::Vec(n, e) => {
                let w = self.m.bits(e);
                let vs = match v { V::A(x) => x.clone(), _ => panic!() };
                if w % 8 == 0 { for i in 0..n { self.store_ty(st, a + (i * w / 8) as u64, e, &vs[i as usize])?; } Ok(()) }
                else { Err(self.err(st, "store of odd vector".into())) }
            }
            Ty::Struct(f, _) => { let vs = match v { V::A(x) => x.clone(), _ => panic!() }; for i in 0..f.len() { let o = self.m.field_off(t, i); self.store_ty(st, a + o, f[i], &vs[i])?; } Ok(()) }
            Ty::Arr(n, e) => { let s = self.m.size(e); let vs = match v { V::A(x) => x.clone(), _ => panic!() }; for i in 0..n { self.store_ty(st, a + i * s, e, &vs[i as usize])?; } Ok(()) }
            x => Err(self.err(st, format!("store of {:?}", x))),
        }
    }

    // ---------- reporting ----------
    fn where_(&self, st: &State) -> String {
        let mut s = String::new();
        for f in st.frames.iter().rev().take(6) { s.push_str(&self.m.funcs[f.func as usize].name); s.push_str(&format!("[b{}:{}]", f.block, f.ip)); s.push_str(" <- "); }
        s
    }
    fn err(&mut self, st: &State, msg: String) -> Step {
        let w = self.where_(st);
        self.sh.errors.fetch_add(1, Relaxed);
        if self.errs.len() < 20 { eprintln!("ENGINE-ERROR {} at {}", msg, w); }
        *self.errs.entry(format!("{} at {}", msg, w)).or_default() += 1;
        if self.errs.len() > 20 { self.sh.stop.store(2, Relaxed); }
        Step::Dead
    }
    fn inputs(&self, st: &State) -> Vec<(u8, u128)> {
        st.symw.iter().enumerate().map(|(i, w)| (*w, st.model.get(i).copied().unwrap_or(0) & mk(*w as u32))).collect()
    }
    fn viol(&mut self, st: &State, kind: &str, label: String) -> Step {
        let key = format!("{}:{}", kind, label);
        self.sh.violations.fetch_add(1, Relaxed);
        if self.seen_viol.insert(key) {
            let inp = self.inputs(st);
            let label = if kind == "check" { label } else { format!("{} @ {}", label, self.where_(st)) };
            self.viols.push((kind.to_string(), label, inp));
        }
        if self.opts.stop_first { self.sh.stop.store(1, Relaxed); }
        Step::Dead
    }

    // ---------- solver ----------
    fn set_model(&mut self, st: &mut State, upd: &[(u32, u128)]) {
        let m = Rc::make_mut(&mut st.model);
        for &(i, v) in upd { while m.len() <= i as usize { m.push(0); } m[i as usize] = v; }
        st.gen = self.next_gen;
        self.next_gen += 1;
    }
    fn evalm(&mut self, st: &State, e: E) -> u128 { let m = st.model.clone(); self.ar.eval(e, &m, st.gen) }
    fn is_fixed(&self, st: &State, e: E) -> bool {
        let m = &self.ar.mask[e as usize];
        for i in 0..NSYM_WORDS { if m[i] & !st.fixed[i] != 0 { return false; } }
        true
    }
    /// Is path ∧ e satisfiable? Returns a model update when it is.
    fn feasible(&mut self, st: &State, e: E) -> Option<Rc<Vec<(u32, u128)>>> {
        if let Some(k) = self.ar.k(e) { return if k == 1 { Some(Rc::new(vec![])) } else { None }; }
        // slice
        let mut mask = self.ar.mask[e as usize];
        let mut used = vec![false; st.path.len()];
        let mut cs: Vec<E> = vec![e];
        loop {
            let mut ch = false;
            for (i, &c) in st.path.iter().enumerate() {
                if used[i] { continue; }
                let cm = &self.ar.mask[c as usize];
                let mut hit = false;
                for k in 0..NSYM_WORDS { if cm[k] & mask[k] != 0 { hit = true; } }
                if hit { used[i] = true; ch = true; for k in 0..NSYM_WORDS { mask[k] |= cm[k]; } cs.push(c); }
            }
            if !ch { break; }
        }
        cs.sort_unstable();
        cs.dedup();
        if let Some(r) = self.cache.get(&cs) { self.sh.cached.fetch_add(1, Relaxed); return r.clone(); }
        let mut syms = vec![];
        for k in 0..NSYM_WORDS { let mut b = mask[k]; while b != 0 { let i = b.trailing_zeros(); b &= b - 1; let idx = k as u32 * 64 + i; syms.push((idx, st.symw[idx as usize] as u32)); } }
        // try recent models first (a satisfying assignment already known)
        let t0 = Instant::now();
        let ncs: Vec<E> = cs.iter().map(|&c| self.ar.narrow(c)).collect();
        let r = self.z.check(&self.ar, &ncs, &cs, &syms);
        let us = t0.elapsed().as_micros() as u64;
        self.sh.queries.fetch_add(1, Relaxed);
        self.sh.solver_us.fetch_add(us, Relaxed);
        self.sh.maxq_us.fetch_max(us, Relaxed);
        if self.opts.slow { let f = st.frames.last().unwrap(); let h = self.qhot.entry((f.func, f.block)).or_default(); h.0 += 1; h.1 += us; }
        if let Some(d) = &self.opts.dump { if us > 50_000 || matches!(r, Res::Unknown) { let n = self.sh.queries.load(Relaxed); let s = self.z.smt2(&self.ar, &cs); let _ = std::fs::write(format!("{}/q{}_{}ms.smt2", d, n, us / 1000), s + "\n(check-sat)\n"); } }
        let res = match r {
            Res::Unsat => { self.sh.qunsat.fetch_add(1, Relaxed); None }
            Res::Sat(m) => {
                self.sh.qsat.fetch_add(1, Relaxed);
                // validate the model against our own evaluator
                let mut mm: Vec<u128> = (*st.model).clone();
                for &(i, v) in &m { while mm.len() <= i as usize { mm.push(0); } mm[i as usize] = v; }
                let g = self.next_gen; self.next_gen += 1;
                for &c in &cs { if self.ar.eval(c, &mm, g) != 1 { let n = self.ar.n[c as usize]; self.err(st, format!("model does not satisfy constraint (evaluator/solver mismatch) {:?}", n)); break; } }
                Some(Rc::new(m))
            }
            Res::Unknown => { self.sh.qunknown.fetch_add(1, Relaxed); self.err(st, "solver returned unknown".into()); None }
        };
        if self.cache.len() > 2_000_000 { self.cache.clear(); }
        self.cache.insert(cs, res.clone());
        res
    }
    fn add(&mut self, st: &mut State, e: E) {
        if self.ar.k(e).is_some() { return; }
        let n = self.ar.n[e as usize];
        if n.op == O::And && n.w == 1 { self.add(st, n.a); self.add(st, n.b); return; }
        st.path.push(e);
        if n.op == O::Eq && self.ar.k(n.b).is_some() { let s = self.ar.n[n.a as usize]; if s.op == O::Sym { st.fixed[s.aux as usize / 64] |= 1 << (s.aux % 64); } }
        if n.op == O::Sym && n.w == 1 { st.fixed[n.aux as usize / 64] |= 1 << (n.aux % 64); }
        if n.op == O::Xor && n.w == 1 { let s = self.ar.n[n.a as usize]; if s.op == O::Sym { st.fixed[s.aux as usize / 64] |= 1 << (s.aux % 64); } }
    }
    /// Decide a boolean: fork if both sides are feasible. The alternative state re-executes the current instruction
    /// with the negated condition assumed (and remembered, so it takes the other side).
    fn branch(&mut self, st: &mut State, c: E) -> bool {
        if let Some(k) = self.ar.k(c) { return k == 1; }
        if self.is_fixed(st, c) { return self.evalm(st, c) == 1; }
        if let Some(v) = st.eqs.get(&c) { return *v == 1; }
        let t = self.evalm(st, c) == 1;
        let nc = self.ar.not1(c);
        let (me, other) = if t { (c, nc) } else { (nc, c) };
        if let Some(m) = self.feasible(st, other) {
            let mut alt = st.clone();
            self.sh.forks.fetch_add(1, Relaxed);
            self.add(&mut alt, other);
            Rc::make_mut(&mut alt.eqs).insert(c, !t as u128);
            self.set_model(&mut alt, &m);
            self.work.push(alt);
            self.add(st, me);
        }
        Rc::make_mut(&mut st.eqs).insert(c, t as u128);
        t
    }
    /// Enumerate the feasible values of e by forking; returns one for this path.
    fn concretize(&mut self, st: &mut State, e: E) -> u128 {
        if let Some(k) = self.ar.k(e) { return k; }
        if self.is_fixed(st, e) { return self.evalm(st, e); }
        if let Some(v) = st.eqs.get(&e) { return *v; }
        let v = self.evalm(st, e);
        let w = self.ar.w(e);
        let k = self.ar.cst(v, w);
        let eq = self.ar.cmp(O::Eq, e, k);
        let ne = self.ar.not1(eq);
        if let Some(m) = self.feasible(st, ne) {
            let mut alt = st.clone();
            self.sh.forks.fetch_add(1, Relaxed);
            self.add(&mut alt, ne);
            self.set_model(&mut alt, &m);
            self.work.push(alt);
            self.add(st, eq);
        }
        Rc::make_mut(&mut st.eqs).insert(e, v);
        v
    }

    // ---------- operands ----------
    fn get(&mut self, st: &State, o: &Op) -> V {
        let v = match o { Op::C(v) => return v.clone(), Op::R(r) => &st.frames.last().unwrap().regs[*r as usize] };
        match v {
            V::E(e) => {
                let e = *e;
                if self.is_fixed(st, e) { let x = self.evalm(st, e); return V::from128(x, self.ar.w(e)); }
                V::E(e)
            }
            x => x.clone(),
        }
    }
    fn ex(&mut self, v: &V, w: u32) -> E {
        match v {
            V::C(x) => self.ar.cst(*x as u128, w),
            V::W(l, h) => self.ar.cst(*l as u128 | (*h as u128) << 64, w),
            V::E(e) => { debug_assert_eq!(self.ar.w(*e), w); *e }
            V::A(_) => panic!("scalar expected"),
        }
    }
    fn cu(&mut self, st: &mut State, v: &V) -> u64 {
        match v { V::C(x) => *x, V::W(l, _) => *l, V::E(e) => self.concretize(st, *e) as u64, V::A(_) => panic!("scalar expected") }
    }
    fn set(&mut self, st: &mut State, d: u32, v: V) { Rc::make_mut(st.frames.last_mut().unwrap()).regs[d as usize] = v; }

    fn bin1(&mut self, op: Bin, w: u32, a: &V, b: &V) -> V {
        let o = match op { Bin::Add => O::Add, Bin::Sub => O::Sub, Bin::Mul => O::Mul, Bin::UDiv => O::UDiv, Bin::SDiv => O::SDiv, Bin::URem => O::URem, Bin::SRem => O::SRem, Bin::And => O::And, Bin::Or => O::Or, Bin::Xor => O::Xor, Bin::Shl => O::Shl, Bin::LShr => O::LShr, Bin::AShr => O::AShr, Bin::FAdd => O::FAdd, Bin::FSub => O::FSub, Bin::FMul => O::FMul, Bin::FDiv => O::FDiv, Bin::FRem => O::FRem };
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = if w >= 64 { u64::MAX } else { (1u64 << w) - 1 };
            match op {
                Bin::Add => return V::C(x.wrapping_add(y) & m),
                Bin::Sub => return V::C(x.wrapping_sub(y) & m),
                Bin::And => return V::C(x & y),
                Bin::Or => return V::C(x | y),
                Bin::Xor => return V::C(x ^ y),
                Bin::Mul => return V::C(x.wrapping_mul(y) & m),
                _ => return V::C(fold_bin(o, w, x as u128, y as u128) as u64),
            }
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let r = self.ar.bin(o, x, y);
        self.ev(r)
    }
    fn icmp1(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let s = |v: u64| if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) };
            let r = match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Sgt => s(x) > s(y), Pred::Sge => s(x) >= s(y), Pred::Slt => s(x) < s(y), Pred::Sle => s(x) <= s(y) };
            return V::C(r as u64);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let r = match p {
            Pred::Eq => self.ar.cmp(O::Eq, x, y),
            Pred::Ne => { let e = self.ar.cmp(O::Eq, x, y); self.ar.not1(e) }
            Pred::Ult => self.ar.cmp(O::Ult, x, y), Pred::Ule => self.ar.cmp(O::Ule, x, y),
            Pred::Ugt => self.ar.cmp(O::Ult, y, x), Pred::Uge => self.ar.cmp(O::Ule, y, x),
            Pred::Slt => self.ar.cmp(O::Slt, x, y), Pred::Sle => self.ar.cmp(O::Sle, x, y),
            Pred::Sgt => self.ar.cmp(O::Slt, y, x), Pred::Sge => self.ar.cmp(O::Sle, y, x),
        };
        self.ev(r)
    }
    fn fcmp1(&mut self, p: FPred, w: u32, a: &V, b: &V) -> V {
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let ar = &mut self.ar;
        let nx = ar.un(O::FIsNan, 1, 0, x);
        let ny = ar.un(O::FIsNan, 1, 0, y);
        let uno = ar.bin(O::Or, nx, ny);
        let r = match p {
            FPred::False => ar.nfalse, FPred::True => ar.ntrue,
            FPred::Oeq => ar.cmp(O::FEq, x, y), FPred::Olt => ar.cmp(O::FLt, x, y), FPred::Ole => ar.cmp(O::FLe, x, y),
            FPred::Ogt => ar.cmp(O::FLt, y, x), FPred::Oge => ar.cmp(O::FLe, y, x),
            FPred::Ord => ar.not1(uno), FPred::Uno => uno,
            FPred::One => { let e = ar.cmp(O::FEq, x, y); let o = ar.bin(O::Or, e, uno); ar.not1(o) }
            FPred::Ueq => { let e = ar.cmp(O::FEq, x, y); ar.bin(O::Or, e, uno) }
            FPred::Une => { let e = ar.cmp(O::FEq, x, y); ar.not1(e) }
            FPred::Ult => { let e = ar.cmp(O::FLe, y, x); ar.not1(e) }
            FPred::Ule => { let e = ar.cmp(O::FLt, y, x); ar.not1(e) }
            FPred::Ugt => { let e = ar.cmp(O::FLe, x, y); ar.not1(e) }
            FPred::Uge => { let e = ar.cmp(O::FLt, x, y); ar.not1(e) }
        };
        self.ev(r)
    }
    fn select1(&mut self, c: E, a: &V, b: &V, t: TyId) -> V {
        match (a, b) {
            (V::A(x), V::A(y)) => { let v = (0..x.len()).map(|i| { let et = self.m.elem(t, i); self.select1(c, &x[i], &y[i], et) }).collect(); V::A(Rc::new(v)) }
            _ => { let w = self.m.bits(t); let (x, y) = (self.ex(a, w), self.ex(b, w)); let r = self.ar.ite(c, x, y); self.ev(r) }
        }
    }
    fn cast1(&mut self, k: Cast, fw: u32, tw: u32, v: &V) -> V {
        if let V::C(x) = v {
            let m = |x: u64| if tw >= 64 { x } else { x & ((1u64 << tw) - 1) };
            match k {
                Cast::Trunc | Cast::ZExt | Cast::PtrToInt | Cast::IntToPtr if tw <= 64 => return V::C(m(*x)),
                Cast::Bitcast => return V::C(*x),
                Cast::SExt if tw <= 64 => { let s = 64 - fw; return V::C(m((((x << s) as i64) >> s) as u64)); }
                _ => {}
            }
        }
        let e = self.ex(v, fw);
        let ar = &mut self.ar;
        let r = match k {
            Cast::Trunc => ar.extract(e, 0, tw),
            Cast::ZExt => ar.zext(e, tw),
            Cast::SExt => ar.sext(e, tw),
            Cast::PtrToInt | Cast::IntToPtr => if tw < fw { ar.extract(e, 0, tw) } else { ar.zext(e, tw) },
            Cast::Bitcast => e,
            Cast::FPToUI => ar.un(O::FToUI, tw, 0, e),
            Cast::FPToSI => ar.un(O::FToSI, tw, 0, e),
            Cast::UIToFP => ar.un(O::UIToF, tw, 0, e),
            Cast::SIToFP => ar.un(O::SIToF, tw, 0, e),
            Cast::FPExt | Cast::FPTrunc => ar.un(O::FToF, tw, 0, e),
        };
        self.ev(r)
    }

    // ---------- symbolic addresses ----------
    /// Pin a symbolic address to one object on this path (forking over objects); returns (object id, offset expr).
    fn pin_object(&mut self, st: &mut State, e: E, n: u64) -> R<(u64, E)> {
        let a0 = self.evalm(st, e) as u64;
        let id = a0 >> 32;
        let sz = match self.obj(st, id) { Some(o) => o.data.len() as u64, None => 0 };
        let base = self.ar.cst((id << 32) as u128, 64);
        let off = self.ar.bin(O::Sub, e, base);
        if sz < n || (a0 & 0xffff_ffff) + n > sz {
            return Err(self.viol(st, "memory", format!("out-of-bounds access of {} bytes at {:#x} (symbolic address)", n, a0)));
        }
        let lim = self.ar.cst((sz - n + 1) as u128, 64);
        let inb = self.ar.cmp(O::Ult, off, lim);
        if !self.branch(st, inb) { return Err(self.err(st, "pin_object".into())); }
        Ok((id, off))
    }
    fn stride(&self, e: E) -> u64 {
        let n = self.ar.n[e as usize];
        match n.op {
            O::Const => if n.k == 0 { 1 << 30 } else { 1u64 << n.k.trailing_zeros().min(30) },
            O::Concat => if self.ar.k(n.b) == Some(0) { self.stride(n.a).saturating_mul(1 << self.ar.w(n.b)).min(1 << 30) } else { self.stride(n.b).min(1 << (self.ar.w(n.b).min(30))) },
            O::ZExt => self.stride(n.a),
            O::Mul => if let Some(k) = self.ar.k(n.b) { (k as u64).max(1) } else { 1 },
            O::Add => { if self.ar.k(n.b).is_some() { self.stride(n.a) } else { gcd(self.stride(n.a), self.stride(n.b)) } }
            O::Ite => gcd(self.stride(n.b), self.stride(n.c)),
            _ => 1,
        }
    }
    fn sym_load(&mut self, st: &mut State, e: E, t: TyId) -> R<V> {
        let (id, off) = self.pin_object(st, e, self.m.store_size(t))?;
        let scalar = matches!(self.m.tys[t as usize], Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64);
        let (sz, ro) = { let o = self.obj(st, id).unwrap(); (o.data.len() as u64, o.ro) };
        let n = self.m.store_size(t);
        let (mut lo, mut hi) = (self.ar.lo[off as usize] as u64, (self.ar.hi[off as usize]).min((sz - n) as u128) as u64);
        let mut step = self.stride(off).max(1);
        // residue: take it from the current model's value
        let cur = (self.evalm(st, off)) as u64;
        let mut ok = scalar;
        if step > 1 {
            // verify the congruence claim cheaply: offset = k + step*x by construction only if Add-const aligned and no wrap
            let n0 = self.ar.n[off as usize];
            let inner = if n0.op == O::Add && self.ar.k(n0.b).is_some() { n0.a } else { off };
            let ni = self.ar.n[inner as usize];
            let nowrap = match ni.op { O::Mul => self.ar.hi[inner as usize] < (1u128 << 63), O::Concat | O::ZExt => true, _ => false };
            if !(nowrap && (step.is_power_of_two() || self.ar.hi[inner as usize] < (1u128 << 62))) { step = 1; }
            // for Mul, hi < 2^63 is not proof of no wrap unless operand ranges multiply without overflow: range() guarantees that when hi != mask
        }
        if lo > hi { lo = 0; hi = sz - n; }
        let first = lo + (cur % step + step - lo % step) % step;
        let cnt = if hi >= first { (hi - first) / step + 1 } else { 0 };
        if cnt == 0 || cnt > if ro { 2048 } else { 128 } { ok = false; }
        if !ok {
            let o = self.concretize(st, off) as u64;
            return self.load_ty(st, (id << 32) + o, t);
        }
        let bits = self.m.bits(t);
        let mut vals: Vec<(u64, E)> = vec![];
        let mut o = first;
        while o <= hi {
            let v = self.load_scalar(st, (id << 32) + o, bits)?;
            let x = self.ex(&v, bits);
            if vals.last().map(|l| l.1) != Some(x) { vals.push((o, x)); }
            o += step;
        }
        let r = self.tree(&vals, off);
        Ok(self.ev(r))
    }
    fn tree(&mut self, v: &[(u64, E)], off: E) -> E {
        if v.len() == 1 { return v[0].1; }
        let h = v.len() / 2;
        let l = self.tree(&v[..h], off);
        let r = self.tree(&v[h..], off);
        let b = self.ar.cst(v[h].0 as u128, 64);
        let c = self.ar.cmp(O::Ult, off, b);
        self.ar.ite(c, l, r)
    }

    // ---------- main loop ----------
    pub fn explore(&mut self, init: State) {
        self.work.push(init);
        while let Some(mut st) = self.work.pop() {
            if self.poll() { return; }
            self.run(&mut st);
        }
    }
    fn poll(&mut self) -> bool {
        if self.sh.stop.load(Relaxed) != 0 { return true; }
        if Instant::now() > self.opts.deadline { self.sh.stop.store(3, Relaxed); return true; }
        false
    }
    fn try_split(&mut self, cur_depth_ok: bool) {
        let _ = cur_depth_ok;
        if self.work.is_empty() || self.opts.workers <= 1 { return; }
        if self.sh.active.load(Relaxed) >= self.opts.workers { return; }
        if self.last_fork.elapsed().as_millis() < 5 { return; }
        if self.sh.active.fetch_add(1, Relaxed) >= self.opts.workers { self.sh.active.fetch_sub(1, Relaxed); return; }
        self.last_fork = Instant::now();
        let pid = unsafe { fork() };
        if pid < 0 { self.sh.active.fetch_sub(1, Relaxed); return; }
        if pid == 0 {
            self.sh.procs.fetch_add(1, Relaxed);
            let st = self.work.remove(0);
            self.work.clear();
            self.viols.clear(); self.errs.clear(); self.reach.clear(); self.visited.clear(); self.instr_local = 0; self.qhot.clear(); self.samples.clear(); self.npaths = 0;
            self.last_fork = Instant::now();
            self.work.push(st);
            while let Some(mut st) = self.work.pop() { if self.poll() { break; } self.run(&mut st); }
            self.finish();
            self.sh.active.fetch_sub(1, Relaxed);
            unsafe { _exit(0) }
        } else {
            let s = self.work.remove(0);
            drop(s);
        }
    }
    pub fn finish(&mut self) {
        self.sh.instrs.fetch_add(self.instr_local, Relaxed);
        self.instr_local = 0;
        let mut s = String::new();
        for (k, l, inp) in &self.viols {
            s.push_str(&format!("V\t{}\t{}\t{}\n", k, l.replace(['\t', '\n'], " "), inp.iter().map(|(w, v)| format!("{}:{}", w, v)).collect::<Vec<_>>().join(",")));
        }
        for (e, n) in &self.errs { s.push_str(&format!("E\t{}\t{}\n", n, e.replace(['\t', '\n'], " "))); }
        for (e, n) in &self.reach { s.push_str(&format!("R\t{}\t{}\n", n, e)); }
        for (inp, t) in &self.samples { s.push_str(&format!("S\t{}\t{}\n", inp.iter().map(|(w, v)| format!("{}:{}", w, v)).collect::<Vec<_>>().join(","), t)); }
        for a in &self.assumptions { s.push_str(&format!("A\t{}\n", a)); }
        let mut fns: BTreeSet<String> = BTreeSet::new();
        for (f, b) in &self.visited {
            let fun = &self.m.funcs[*f as usize];
            fns.insert(fun.name.clone());
            let mut seen: HashSet<u32> = HashSet::new();
            for d in &fun.blocks[*b as usize].dbg { if *d != 0 && seen.insert(*d) { if let Some(n) = self.m.dbg_scope(*d) { fns.insert(n); } } }
        }
        for f in fns { s.push_str(&format!("F\t{}\n", f)); }
        if self.opts.slow { for ((f, b), (n, us)) in &self.qhot { s.push_str(&format!("Q\t{}\t{}\t{}\tb{}\n", n, us, self.m.funcs[*f as usize].name, b)); } }
        use std::io::Write;
        let p = format!("{}.{}", self.opts.out, std::process::id());
        let mut f = std::fs::OpenOptions::new().create(true).append(true).open(&p).unwrap();
        f.write_all(s.as_bytes()).unwrap();
    }

    fn run(&mut self, st: &mut State) {
        let mut cnt = 0u32;
        self.try_split(true);
        loop {
            cnt += 1;
            if cnt & 0x3f == 0 && cnt & 0x3ff != 0 && self.last_fork.elapsed().as_millis() > 50 { self.try_split(true); }
            if cnt & 0x3ff == 0 {
                if cnt & 0xfffff == 0 { if self.poll() { return; } }
                self.try_split(true);
            }
            st.steps += 1;
            self.instr_local += 1;
            if st.steps > self.opts.max_steps { self.viol(st, "hang", "instruction limit per path exceeded".into()); return; }
            match self.step(st) {
                Ok(Step::Next) => { Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1; }
                Ok(Step::Jumped) => {}
                Ok(Step::Done) => {
                    self.sh.paths.fetch_add(1, Relaxed);
                    self.sh.maxsym.fetch_max(st.symw.len() as u64, Relaxed);
                    self.npaths += 1;
                    // keep path witnesses: the first few of each process, then at power-of-two path counts
                    if self.samples.len() < 3 || self.npaths.is_power_of_two() {
                        let inp = self.inputs(st);
                        let mut t = String::new();
                        for l in st.log.clone().iter() { match l { LogItem::Reach(r) => { t.push_str("REACH "); t.push_str(r); } LogItem::ObsC(v) => t.push_str(&format!("OBS {}", v)), LogItem::Obs(e) => { let v = self.evalm(st, *e); t.push_str(&format!("OBS {}", v)); } } t.push('|'); }
                        self.samples.push((inp, t));
                    }
                    return;
                }
                Ok(Step::Dead) | Err(_) => { if self.poll() { return; } return; }
            }
        }
    }
    fn jump(&mut self, st: &mut State, target: u32) {
        let f = Rc::make_mut(st.frames.last_mut().unwrap());
        let from = f.block;
        let fid = f.func;
        self.visited.insert((fid, target));
        f.block = target;
        f.ip = 0;
        let m: &'static Module = unsafe { &*(self.m as *const Module) };
        let b = &m.funcs[fid as usize].blocks[target as usize];
        if !b.phis.is_empty() {
            if let Some(ps) = b.phi_by_pred.get(&from) {
                // parallel copy
                if ps.len() == 1 { let v = self.get(st, &ps[0].1); self.set(st, ps[0].0, v); }
                else {
                    let vals: Vec<V> = ps.iter().map(|(_, o)| self.get(st, o)).collect();
                    for ((d, _), v) in ps.iter().zip(vals) { self.set(st, *d, v); }
                }
            }
        }
    }
    fn step(&mut self, st: &mut State) -> R<Step> {
        let m: &'static Module = unsafe { &*(self.m as *const Module) };
        let (fid, blk, ip) = { let f = st.frames.last().unwrap(); (f.func, f.block, f.ip) };
        let ins = &m.funcs[fid as usize].blocks[blk as usize].ins[ip as usize];
        if self.opts.trace { eprintln!("  {}[b{}:{}] {:?}", &m.funcs[fid as usize].name, blk, ip, ins); }
        match ins {
            Ins::Bin(op, t, d, a, b) => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                if let (V::A(xs), V::A(ys)) = (&x, &y) {
                    let w = m.bits(m.elem(*t, 0));
                    let v = xs.iter().zip(ys.iter()).map(|(p, q)| self.bin1(*op, w, p, q)).collect();
                    self.set(st, *d, V::A(Rc::new(v)));
                } else {
                    let w = m.bits(*t);
                    let mut y = y;
                    // symbolic integer divisors of a small range are case-split: division by a constant is far easier to decide
                    if let (Bin::UDiv | Bin::SDiv | Bin::URem | Bin::SRem, V::E(e)) = (*op, &y) {
                        let e = *e;
                        if self.ar.shi[e as usize].saturating_sub(self.ar.slo[e as usize]) <= 1 << 15 { let k = self.concretize(st, e); y = V::from128(k, w); }
                    }
                    let r = self.bin1(*op, w, &x, &y); self.set(st, *d, r);
                }
                Ok(Step::Next)
            }
            Ins::FNeg(t, d, a) => {
                let x = self.get(st, a);
                let w = m.bits(*t);
                let e = self.ex(&x, w);
                let k = self.ar.cst(1u128 << (w - 1), w);
                let r = self.ar.bin(O::Xor, e, k);
                let v = self.ev(r);
                self.set(st, *d, v);
                Ok(Step::Next)
            }
            Ins::ICmp(p, t, d, a, b) => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                if let (V::A(xs), V::A(ys)) = (&x, &y) {
                    let w = m.bits(m.elem(*t, 0));
                    let v = xs.iter().zip(ys.iter()).map(|(q, r)| self.icmp1(*p, w, q, r)).collect();
                    self.set(st, *d, V::A(Rc::new(v)));
                } else { let w = m.bits(*t); let r = self.icmp1(*p, w, &x, &y); self.set(st, *d, r); }
                Ok(Step::Next)
            }
            Ins::FCmp(p, t, d, a, b) => { let (x, y) = (self.get(st, a), self.get(st, b)); let w = m.bits(*t); let r = self.fcmp1(*p, w, &x, &y); self.set(st, *d, r); Ok(Step::Next) }
            Ins::Select(_, d, c, t, a, b) => {
                let cv = self.get(st, c);
                let (x, y) = (self.get(st, a), self.get(st, b));
                let r = match cv {
                    V::C(k) => if k & 1 == 1 { x } else { y },
                    V::E(e) => self.select1(e, &x, &y, *t),
                    V::A(cs) => {
                        let (xs, ys) = match (&x, &y) { (V::A(p), V::A(q)) => (p.clone(), q.clone()), _ => panic!() };
                        let et = m.elem(*t, 0);
                        let mut v = vec![];
                        for i in 0..cs.len() { let ce = self.ex(&cs[i], 1); v.push(self.select1(ce, &xs[i], &ys[i], et)); }
                        V::A(Rc::new(v))
                    }
                    _ => panic!(),
                };
                self.set(st, *d, r);
                Ok(Step::Next)
            }
            Ins::Cast(k, ft, tt, d, a) => {
                let x = self.get(st, a);
                let r = match (&m.tys[*ft as usize], &m.tys[*tt as usize]) {
                    (Ty::Vec(n, e), Ty::Int(w)) => {
                        let ew = m.bits(*e);
                        let _ = n;
                        let xs = match &x { V::A(v) => v.clone(), _ => panic!() };
                        if xs.iter().all(|q| matches!(q, V::C(_))) {
                            let mut acc = 0u128;
                            for (i, q) in xs.iter().enumerate() { if let V::C(k) = q { acc |= (*k as u128) << (i as u32 * ew); } }
                            V::from128(acc, *w)
                        } else {
                            let mut acc: Option<E> = None;
                            for q in xs.iter() { let e = self.ex(q, ew); acc = Some(match acc { None => e, Some(l) => self.ar.concat(e, l) }); }
                            let e = acc.unwrap();
                            self.ev(e)
                        }
                    }
                    (Ty::Int(w), Ty::Vec(n, e)) => {
                        let ew = m.bits(*e);
                        let q = self.ex(&x, *w);
                        let mut v = vec![];
                        for i in 0..*n { let z = self.ar.extract(q, i * ew, ew); v.push(self.ev(z)); }
                        V::A(Rc::new(v))
                    }
                    (Ty::Vec(n, e), Ty::Vec(n2, e2)) => {
                        let (w1, w2) = (m.bits(*e), m.bits(*e2));
                        let xs = match &x { V::A(v) => v.clone(), _ => panic!() };
                        if *k == Cast::Bitcast {
                            if n == n2 { x.clone() } else {
                                let mut acc: Option<E> = None;
                                for q in xs.iter() { let e = self.ex(q, w1); acc = Some(match acc { None => e, Some(l) => self.ar.concat(e, l) }); }
                                let q = acc.unwrap();
                                let mut v = vec![];
                                for i in 0..*n2 { let z = self.ar.extract(q, i * w2, w2); v.push(self.ev(z)); }
                                V::A(Rc::new(v))
                            }
                        } else { V::A(Rc::new(xs.iter().map(|q| self.cast1(*k, w1, w2, q)).collect())) }
                    }
                    _ => { let (fw, tw) = (m.bits(*ft), m.bits(*tt)); self.cast1(*k, fw, tw, &x) }
                };
                self.set(st, *d, r);
                Ok(Step::Next)
            }
            Ins::Alloca(d, sz, cnt) => {
                let n = match cnt { None => *sz, Some((o, _)) => { let v = self.get(st, o); let k = self.cu(st, &v); sz * k } };
                st.stack.push(Rc::new(Obj::zero(n)));
                let a = (STACK_ID + st.stack.len() as u64 - 1) << 32;
                self.set(st, *d, V::C(a));
                Ok(Step::Next)
            }
            Ins::Load(t, d, a) => {
                let p = self.get(st, a);
                let v = match p { V::C(x) => self.load_ty(st, x, *t)?, V::E(e) => match st.eqs.get(&e).copied() { Some(x) => self.load_ty(st, x as u64, *t)?, None => self.sym_load(st, e, *t)? }, _ => panic!() };
                self.set(st, *d, v);
                Ok(Step::Next)
            }
            Ins::Store(t, v, a) => {
                let p = self.get(st, a);
                let val = self.get(st, v);
                let x = match p { V::C(x) => x, V::E(e) => { self.pin_object(st, e, m.store_size(*t))?; self.concretize(st, e) as u64 } _ => panic!() };
                self.store_ty(st, x, *t, &val)?;
                Ok(Step::Next)
            }
            Ins::Gep(d, b, off, dynv) => {
                let base = self.get(st, b);
                if dynv.is_empty() {
                    let r = match base { V::C(x) => V::C(x.wrapping_add(*off as u64)), V::E(e) => { let k = self.ar.cst(*off as u64 as u128, 64); let r = self.ar.bin(O::Add, e, k); self.ev(r) } _ => panic!() };
                    self.set(st, *d, r);
                    return Ok(Step::Next);
                }
                let mut acc = base;
                if *off != 0 { acc = self.bin1(Bin::Add, 64, &acc, &V::C(*off as u64)); }
                for (o, iw, sc) in dynv {
                    let iv = self.get(st, o);
                    let iv = if *iw < 64 { self.cast1(Cast::SExt, *iw, 64, &iv) } else { iv };
                    let t = if *sc == 1 { iv } else { self.bin1(Bin::Mul, 64, &iv, &V::C(*sc)) };
                    acc = self.bin1(Bin::Add, 64, &acc, &t);
                }
                self.set(st, *d, acc);
                Ok(Step::Next)
            }
            Ins::ExtractValue(d, a, ix) => {
                let mut v = self.get(st, a);
                for i in ix { v = match v { V::A(x) => x[*i as usize].clone(), _ => panic!() }; }
                self.set(st, *d, v);
                Ok(Step::Next)
            }
            Ins::InsertValue(d, a, v, ix, t) => {
                let mut agg = self.get(st, a);
                let val = self.get(st, v);
                if !matches!(agg, V::A(_)) { agg = self.zero_agg(*t); }
                fn ins(v: &mut V, ix: &[u32], val: V) { if ix.is_empty() { *v = val; return; } if let V::A(x) = v { ins(&mut Rc::make_mut(x)[ix[0] as usize], &ix[1..], val) } }
                ins(&mut agg, ix, val);
                self.set(st, *d, agg);
                Ok(Step::Next)
            }
            Ins::ExtractElement(d, a, i) => { let v = self.get(st, a); let k = self.get(st, i); let k = self.cu(st, &k); let r = match v { V::A(x) => x[k as usize].clone(), _ => panic!() }; self.set(st, *d, r); Ok(Step::Next) }
            Ins::InsertElement(d, a, v, i) => { let mut x = self.get(st, a); let val = self.get(st, v); let k = self.get(st, i); let k = self.cu(st, &k); if let V::A(q) = &mut x { Rc::make_mut(q)[k as usize] = val; } self.set(st, *d, x); Ok(Step::Next) }
            Ins::Shuffle(d, a, b, mask) => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let (x, y) = match (x, y) { (V::A(p), V::A(q)) => (p, q), _ => panic!() };
                let n = x.len();
                let v = mask.iter().map(|k| { let k = *k as usize; if k < n { x[k].clone() } else { y[k - n].clone() } }).collect();
                self.set(st, *d, V::A(Rc::new(v)));
                Ok(Step::Next)
            }
            Ins::Freeze(d, a) => { let v = self.get(st, a); self.set(st, *d, v); Ok(Step::Next) }
            Ins::Rmw(k, t, d, a, v) => {
                let p = self.get(st, a);
                let p = self.cu(st, &p);
                let val = self.get(st, v);
                let old = self.load_ty(st, p, *t)?;
                let w = m.bits(*t);
                let nv = match k {
                    Rmw::Xchg => val,
                    Rmw::Add => self.bin1(Bin::Add, w, &old, &val), Rmw::Sub => self.bin1(Bin::Sub, w, &old, &val),
                    Rmw::And => self.bin1(Bin::And, w, &old, &val), Rmw::Or => self.bin1(Bin::Or, w, &old, &val), Rmw::Xor => self.bin1(Bin::Xor, w, &old, &val),
                    _ => return Err(self.err(st, format!("atomicrmw {:?}", k))),
                };
                self.store_ty(st, p, *t, &nv)?;
                self.set(st, *d, old);
                Ok(Step::Next)
            }
            Ins::CmpXchg(t, d, a, e, n) => {
                let p = self.get(st, a);
                let p = self.cu(st, &p);
                let (ev, nv) = (self.get(st, e), self.get(st, n));
                let old = self.load_ty(st, p, *t)?;
                let w = m.bits(*t);
                let c = self.icmp1(Pred::Eq, w, &old, &ev);
                let ok = match c { V::C(k) => k == 1, V::E(e) => self.branch(st, e), _ => panic!() };
                if ok { self.store_ty(st, p, *t, &nv)?; }
                self.set(st, *d, V::A(Rc::new(vec![old, V::C(ok as u64)])));
                Ok(Step::Next)
            }
            Ins::Nop => Ok(Step::Next),
            Ins::Br(l) => { self.jump(st, *l); Ok(Step::Jumped) }
            Ins::CondBr(c, l1, l2) => {
                let v = self.get(st, c);
                let t = match v {
                    V::C(k) => k & 1 == 1,
                    V::E(e) => {
                        if let Some(x) = st.eqs.get(&e) { *x == 1 } else {
                            let t = self.evalm(st, e) == 1;
                            let ne = self.ar.not1(e);
                            let (me, other) = if t { (e, ne) } else { (ne, e) };
                            if let Some(md) = self.feasible(st, other) {
                                let mut alt = st.clone();
                                self.sh.forks.fetch_add(1, Relaxed);
                                self.add(&mut alt, other);
                                self.set_model(&mut alt, &md);
                                self.jump(&mut alt, if t { *l2 } else { *l1 });
                                self.work.push(alt);
                                self.add(st, me);
                            }
                            t
                        }
                    }
                    _ => panic!(),
                };
                self.jump(st, if t { *l1 } else { *l2 });
                Ok(Step::Jumped)
            }
            Ins::Switch(t, v, d, cs) => {
                let x = self.get(st, v);
                match x {
                    V::C(k) => { let l = cs.iter().find(|c| c.0 == k as u128).map(|c| c.1).unwrap_or(*d); self.jump(st, l); Ok(Step::Jumped) }
                    V::W(l, h) => { let k = l as u128 | (h as u128) << 64; let l = cs.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*d); self.jump(st, l); Ok(Step::Jumped) }
                    V::E(e) => {
                        let w = m.bits(*t);
                        let k = match st.eqs.get(&e) { Some(k) => *k, None => self.evalm(st, e) };
                        let mut groups: Vec<(u32, E)> = vec![];
                        let mut none = self.ar.ntrue;
                        for (c, l) in cs {
                            let kc = self.ar.cst(*c, w);
                            let eq = self.ar.cmp(O::Eq, e, kc);
                            let ne = self.ar.not1(eq);
                            none = self.ar.bin(O::And, none, ne);
                            if let Some(g) = groups.iter_mut().find(|g| g.0 == *l) { g.1 = self.ar.bin(O::Or, g.1, eq); } else { groups.push((*l, eq)); }
                        }
                        if let Some(g) = groups.iter_mut().find(|g| g.0 == *d) { g.1 = self.ar.bin(O::Or, g.1, none); } else { groups.push((*d, none)); }
                        let mine = cs.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*d);
                        let mut mycond = 0;
                        let mut multi = false;
                        for (l, c) in groups {
                            if l == mine { mycond = c; continue; }
                            if st.eqs.contains_key(&e) { continue; }
                            if let Some(md) = self.feasible(st, c) {
                                multi = true;
                                let mut alt = st.clone();
                                self.sh.forks.fetch_add(1, Relaxed);
                                self.add(&mut alt, c);
                                self.set_model(&mut alt, &md);
                                self.jump(&mut alt, l);
                                self.work.push(alt);
                            }
                        }
                        if multi { self.add(st, mycond); }
                        self.jump(st, mine);
                        Ok(Step::Jumped)
                    }
                    _ => panic!(),
                }
            }
            Ins::Ret(v) => {
                let val = match v { Some(o) => Some(self.get(st, o)), None => None };
                let f = st.frames.pop().unwrap();
                st.stack.truncate(f.stack_mark);
                if st.frames.is_empty() { return Ok(Step::Done); }
                if f.ret_dst != u32::MAX { if let Some(x) = val { self.set(st, f.ret_dst, x); } }
                match f.ret_normal {
                    Some(l) => self.jump(st, l),
                    None => Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1,
                }
                Ok(Step::Jumped)
            }
            Ins::Unreachable => Err(self.viol(st, "unreachable", "reached an `unreachable` instruction".into())),
            Ins::Unsupported(s) => Err(self.err(st, format!("unsupported: {}", s))),
            Ins::Call(d, has, rt, callee, args, normal) => self.call(st, *d, *has, *rt, callee, args, *normal),
        }
    }
    fn zero_agg(&self, t: TyId) -> V {
        match &self.m.tys[t as usize] {
            Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(|x| self.zero_agg(*x)).collect())),
            Ty::Arr(n, e) => V::A(Rc::new((0..*n).map(|_| self.zero_agg(*e)).collect())),
            Ty::Vec(n, e) => V::A(Rc::new((0..*n).map(|_| self.zero_agg(*e)).collect())),
            Ty::Int(n) if *n > 64 => V::W(0, 0),
            _ => V::C(0),
        }
    }
    fn call(&mut self, st: &mut State, d: u32, has: bool, rt: TyId, callee: &Callee, args: &[(TyId, Op)], normal: Option<u32>) -> R<Step> {
        let mut av: Vec<V> = Vec::with_capacity(args.len());
        let fid = match callee {
            Callee::Asm => { return self.ret_to(st, if has { Some((d, V::C(0))) } else { None }, normal); }
            Callee::Func(f) | Callee::Ext(f) => *f,
            Callee::Ptr(o) => {
                let v = self.get(st, o);
                let a = self.cu(st, &v);
                if a < FUNC_BASE + 16 || (a - FUNC_BASE) % 16 != 0 || ((a - FUNC_BASE) / 16 - 1) as usize >= self.m.funcs.len() { return Err(self.viol(st, "memory", format!("call through bad pointer {:#x}", a))); }
                ((a - FUNC_BASE) / 16 - 1) as u32
            }
        };
        for (_, o) in args { let v = self.get(st, o); av.push(v); }
        match self.fkind[fid as usize] {
            FK::Normal => {}
            FK::Panic => { let loc = self.panic_info(st, &av); return Err(self.viol(st, "panic", loc)); }
            FK::Abort => { let n = self.m.funcs[fid as usize].name.clone(); return Err(self.viol(st, "abort", n)); }
            FK::SipWrite => {
                // Hashed bytes are case-split, so that hashes are computed, not reasoned about.
                let (p, n) = (self.cu(st, &av[1]), self.cu(st, &av[2]));
                let mut bs = self.rd_bytes(st, p, n)?;
                if bs.iter().any(|b| b.1 != 0) {
                    for b in bs.iter_mut() { if b.1 != 0 { let v = self.concretize(st, b.1); *b = (v as u8, 0); } }
                    self.wr_bytes(st, p, &bs)?;
                }
            }
            FK::RandKeys => {
                self.assumptions.insert("HashMap RandomState keys fixed to constants (0x0123456789abcdef, 0xfedcba9876543210)".into());
                let v = V::A(Rc::new(vec![V::C(0x0123456789abcdef), V::C(0xfedcba9876543210)]));
                return self.ret_to(st, if has { Some((d, v)) } else { None }, normal);
            }
        }
        if !self.m.funcs[fid as usize].defined {
            let r = self.external(st, fid, &av, args, rt, d)?;
            return match r {
                None => self.ret_to(st, None, normal),
                Some(v) => self.ret_to(st, if has { Some((d, v)) } else { None }, normal),
            };
        }
        if st.frames.len() >= self.opts.max_depth { return Err(self.viol(st, "stack-overflow", "call depth limit exceeded".into())); }
        self.m.ensure_body(fid);
        let fun = &self.m.funcs[fid as usize];
        let mut regs = vec![V::C(0); fun.nregs as usize];
        for (i, v) in av.into_iter().enumerate() { if i < fun.params.len() { regs[i] = v; } }
        let mark = st.stack.len();
        self.visited.insert((fid, 0));
        st.frames.push(Rc::new(Frame { func: fid, block: 0, ip: 0, regs, ret_dst: if has { d } else { u32::MAX }, ret_normal: normal, stack_mark: mark }));
        self.sh.maxdepth.fetch_max(st.frames.len() as u64, Relaxed);
        Ok(Step::Jumped)
    }
    fn ret_to(&mut self, st: &mut State, r: Option<(u32, V)>, normal: Option<u32>) -> R<Step> {
        if let Some((d, v)) = r { self.set(st, d, v); }
        match normal { None => Ok(Step::Next), Some(l) => { self.jump(st, l); Ok(Step::Jumped) } }
    }
    fn cstr(&mut self, st: &mut State, p: u64, n: u64) -> Option<String> {
        let id = p >> 32;
        let off = (p & 0xffff_ffff) as usize;
        let o = self.obj(st, id)?;
        if off + n as usize > o.data.len() { return None; }
        Some(String::from_utf8_lossy(&o.data[off..off + n as usize]).into_owned())
    }
    fn panic_info(&mut self, st: &mut State, av: &[V]) -> String {
        let mut s = String::new();
        // static message forms: (ptr,len) first args, or fmt::Arguments as (template, tagged len)
        if let (Some(V::C(p)), Some(V::C(n))) = (av.first(), av.get(1)) {
            let len = if n & 1 == 1 && *n < 10000 { n >> 1 } else { *n };
            if len < 300 { if let Some(t) = self.cstr(st, *p, len) { s.push_str(&t); s.push(' '); } }
        }
        for v in av.iter().rev() {
            if let V::C(p) = v {
                let id = p >> 32;
                if let Some(o) = self.obj(st, id) {
                    if o.data.len() == 24 && o.ro && p & 0xffff_ffff == 0 {
                        let d = o.data.clone();
                        let q = |i: usize| u64::from_le_bytes(d[i..i + 8].try_into().unwrap());
                        let q4 = |i: usize| u32::from_le_bytes(d[i..i + 4].try_into().unwrap());
                        if let Some(f) = self.cstr(st, q(0), q(8)) { s.push_str(&format!("at {}:{}:{}", f, q4(16), q4(20))); break; }
                    }
                }
            }
        }
        s
    }

    // ---------- externals & intrinsics ----------
    fn external(&mut self, st: &mut State, fid: u32, av: &[V], args: &[(TyId, Op)], rt: TyId, _d: u32) -> R<Option<V>> {
        let name: &'static str = unsafe { &*(self.m.funcs[fid as usize].name.as_str() as *const str) };
        if let Some(n) = name.strip_prefix("llvm.") { return self.intrinsic(st, n, av, args, rt); }
        macro_rules! u { ($i:expr) => {{ let v = av[$i].clone(); self.cu(st, &v) }} }
        match name {
            "malloc" => { let n = u!(0); let a = self.malloc(st, n.max(1)); Ok(Some(V::C(a))) }
            "calloc" => { let n = u!(0); let k = u!(1); let a = self.malloc(st, (n * k).max(1)); Ok(Some(V::C(a))) }
            "posix_memalign" => { let p = u!(0); let n = u!(2); let a = self.malloc(st, n.max(1)); let t = self.m.ty(Ty::Ptr); self.store_ty(st, p, t, &V::C(a))?; Ok(Some(V::C(0))) }
            "aligned_alloc" => { let n = u!(1); let a = self.malloc(st, n.max(1)); Ok(Some(V::C(a))) }
            "realloc" => {
                let p = u!(0); let n = u!(1);
                let old = match self.obj(st, p >> 32) { Some(o) => o.clone(), None => return Err(self.viol(st, "memory", "realloc of bad pointer".into())) };
                let a = self.malloc(st, n.max(1));
                let k = old.data.len().min(n as usize);
                let o = self.obj_mut(st, a >> 32).unwrap();
                o.data[..k].copy_from_slice(&old.data[..k]);
                if let Some(s) = &old.sym { let mut v = vec![0; o.data.len()]; v[..k].copy_from_slice(&s[..k]); o.sym = Some(v); }
                self.free(st, p)?;
                Ok(Some(V::C(a)))
            }
            "free" => { let p = u!(0); self.free(st, p)?; Ok(None) }
            "memcpy" | "memmove" => { let (a, b, n) = (u!(0), u!(1), u!(2)); let bs = self.rd_bytes(st, b, n)?; self.wr_bytes(st, a, &bs)?; Ok(Some(V::C(a))) }
            "memset" => { let (a, n) = (u!(0), u!(2)); let c = self.byte_of(&av[1]); let bs = vec![c; n as usize]; self.wr_bytes(st, a, &bs)?; Ok(Some(V::C(a))) }
            "bcmp" | "memcmp" => { let (a, b, n) = (u!(0), u!(1), u!(2)); let x = self.rd_bytes(st, a, n)?; let y = self.rd_bytes(st, b, n)?; Ok(Some(self.memcmp(&x, &y, name == "bcmp"))) }
            "strlen" => { let a = u!(0); let mut n = 0; loop { let b = self.rd_bytes(st, a + n, 1)?; if b[0] == (0, 0) { break; } if b[0].1 != 0 { return Err(self.err(st, "symbolic strlen".into())); } n += 1; } Ok(Some(V::C(n))) }
            "memchr" | "memrchr" => {
                let (a, n) = (u!(0), u!(2));
                let c = u!(1) as u8;
                let bs = self.rd_bytes(st, a, n)?;
                let mut res = self.ar.cst(0, 64);
                let it: Vec<usize> = if name == "memchr" { (0..n as usize).rev().collect() } else { (0..n as usize).collect() };
                for i in it {
                    let p = self.ar.cst((a + i as u64) as u128, 64);
                    let b = if bs[i].1 != 0 { bs[i].1 } else { self.ar.cst(bs[i].0 as u128, 8) };
                    let k = self.ar.cst(c as u128, 8);
                    let q = self.ar.cmp(O::Eq, b, k);
                    res = self.ar.ite(q, p, res);
                }
                Ok(Some(self.ev(res)))
            }
            "write" => {
                let (fd, a, n) = (u!(0), u!(1), u!(2));
                let bs = self.rd_bytes(st, a, n)?;
                if fd == 1 { Rc::make_mut(&mut st.out).extend(bs); self.assumptions.insert("write(1) captured in a buffer and always complete".into()); }
                Ok(Some(V::C(n)))
            }
            "writev" => {
                let (fd, iov, cnt) = (u!(0), u!(1), u!(2));
                let mut tot = 0;
                for i in 0..cnt {
                    let p = self.load_scalar(st, iov + 16 * i, 64)?; let p = self.cu(st, &p);
                    let n = self.load_scalar(st, iov + 16 * i + 8, 64)?; let n = self.cu(st, &n);
                    let bs = self.rd_bytes(st, p, n)?;
                    if fd == 1 { Rc::make_mut(&mut st.out).extend(bs); }
                    tot += n;
                }
                Ok(Some(V::C(tot)))
            }
            "getenv" => { self.assumptions.insert("environment variables unset".into()); Ok(Some(V::C(0))) }
            "clock_gettime" => {
                let a = u!(1);
                st.clock += 1;
                self.assumptions.insert("clock_gettime returns a concrete increasing time".into());
                let t = self.m.ty(Ty::Int(64));
                let c = st.clock;
                self.store_ty(st, a, t, &V::C(c / 1_000_000))?;
                self.store_ty(st, a + 8, t, &V::C((c % 1_000_000) * 1000))?;
                Ok(Some(V::C(0)))
            }
            "getrandom" => { let (a, n) = (u!(0), u!(1)); let bs: Vec<(u8, E)> = (0..n).map(|i| ((i * 37 + 11) as u8, 0)).collect(); self.wr_bytes(st, a, &bs)?; self.assumptions.insert("getrandom returns fixed bytes".into()); Ok(Some(V::C(n))) }
            "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" | "pthread_key_delete" | "sched_yield" | "close" => Ok(Some(V::C(0))),
            "gettid" | "getpid" => Ok(Some(V::C(1234))),
            "pthread_self" => Ok(Some(V::C(77))),
            "sysconf" => Ok(Some(V::C(4096))),
            "isatty" | "ioctl" => Ok(Some(V::C(0))),
            "__errno_location" => { let id = self.malloc(st, 4); Ok(Some(V::C(id))) }
            "abort" | "exit" | "_exit" => Err(self.viol(st, "abort", name.to_string())),
            "pow" | "powf" => {
                let w = if name == "powf" { 32 } else { 64 };
                match (&av[0], &av[1]) {
                    (V::C(x), V::C(y)) => Ok(Some(V::C(if w == 32 { f32::from_bits(*x as u32).powf(f32::from_bits(*y as u32)).to_bits() as u64 } else { f64::from_bits(*x).powf(f64::from_bits(*y)).to_bits() }))),
                    _ => { let x = u!(0); let y = u!(1); Ok(Some(V::C(if w == 32 { f32::from_bits(x as u32).powf(f32::from_bits(y as u32)).to_bits() as u64 } else { f64::from_bits(x).powf(f64::from_bits(y)).to_bits() }))) }
                }
            }
            "cbrtf" => { let x = u!(0); Ok(Some(V::C(f32::from_bits(x as u32).cbrt().to_bits() as u64))) }
            "cbrt" => { let x = u!(0); Ok(Some(V::C(f64::from_bits(x).cbrt().to_bits()))) }
            "fmodf" => { let x = u!(0); let y = u!(1); Ok(Some(V::C((f32::from_bits(x as u32) % f32::from_bits(y as u32)).to_bits() as u64))) }
            // ---- harness intrinsics ----
            "__sym_bits" => {
                let w = u!(0) as u32;
                let i = st.symw.len() as u32;
                Rc::make_mut(&mut st.symw).push(w as u8);
                if let Some(c) = &self.opts.concrete { let v = c.get(i as usize).copied().unwrap_or(0) & mk(w); return Ok(Some(V::C(v as u64))); }
                let e = self.ar.sym(i, w);
                let e = self.ar.zext(e, 64);
                Ok(Some(self.ev(e)))
            }
            "__sym_below" => {
                let n = u!(0) as u128;
                let w = 128 - (n - 1).leading_zeros();
                let i = st.symw.len() as u32;
                Rc::make_mut(&mut st.symw).push(w as u8);
                if let Some(c) = &self.opts.concrete { let v = c.get(i as usize).copied().unwrap_or(0) & mk(w); if v >= n { return Err(Step::Dead); } return Ok(Some(V::C(v as u64))); }
                let plain = self.ar.sym(i, w);
                if n < 1u128 << w { let k = self.ar.cst(n, w); let c = self.ar.cmp(O::Ult, plain, k); self.add(st, c); }
                let e = self.ar.sym_below(i, w, n - 1);
                let e = self.ar.zext(e, 64);
                Ok(Some(self.ev(e)))
            }
            "__sym_assume" => {
                let v = self.bool_of(&av[0]);
                if let Some(k) = self.ar.k(v) { if k == 1 { return Ok(None); } self.sh.infeasible.fetch_add(1, Relaxed); return Err(Step::Dead); }
                if self.evalm(st, v) == 1 { self.add(st, v); return Ok(None); }
                match self.feasible(st, v) {
                    Some(m) => { self.add(st, v); self.set_model(st, &m); Ok(None) }
                    None => { self.sh.infeasible.fetch_add(1, Relaxed); Err(Step::Dead) }
                }
            }
            "__sym_check" => {
                let v = self.bool_of(&av[0]);
                let (p, n) = (u!(1), u!(2));
                self.sh.checks.fetch_add(1, Relaxed);
                if self.ar.k(v) == Some(1) { self.sh.checks_valid.fetch_add(1, Relaxed); return Ok(None); }
                let lab = self.cstr(st, p, n).unwrap_or_default();
                if self.ar.k(v) == Some(0) || self.evalm(st, v) == 0 { return Err(self.viol(st, "check", lab)); }
                let nv = self.ar.not1(v);
                match self.feasible(st, nv) {
                    None => { self.sh.checks_valid.fetch_add(1, Relaxed); Ok(None) }
                    Some(m) => {
                        let mut alt = st.clone();
                        self.set_model(&mut alt, &m);
                        let d = self.viol(&alt, "check", lab);
                        if self.opts.stop_first { return Err(d); }
                        self.add(st, v);
                        Ok(None)
                    }
                }
            }
            "__sym_reach" => { let (p, n) = (u!(0), u!(1)); let l = self.cstr(st, p, n).unwrap_or_default(); if st.log.len() < 4096 { Rc::make_mut(&mut st.log).push(LogItem::Reach(l.clone())); } *self.reach.entry(l).or_default() += 1; Ok(None) }
            "__sym_observe" => { if st.log.len() < 4096 { let it = match &av[0] { V::C(k) => LogItem::ObsC(*k), v => { let v = v.clone(); LogItem::Obs(self.ex(&v, 64)) } }; Rc::make_mut(&mut st.log).push(it); } Ok(None) }
            "__sym_concretize" => { let v = u!(0); Ok(Some(V::C(v))) }
            "__sym_branch" => { let v = self.bool_of(&av[0]); let b = self.branch(st, v); Ok(Some(V::C(b as u64))) }
            "__sym_ite" => { let c = self.bool_of(&av[0]); let (x, y) = (self.ex(&av[1], 64), self.ex(&av[2], 64)); let r = self.ar.ite(c, x, y); Ok(Some(self.ev(r))) }
            "__sym_native" => Ok(Some(V::C(0))),
            "__sym_out_take" => {
                let (a, cap) = (u!(0), u!(1));
                let bs = std::mem::replace(&mut st.out, Rc::new(vec![]));
                if bs.len() as u64 > cap { return Err(self.err(st, "output buffer too small".into())); }
                self.wr_bytes(st, a, &bs)?;
                Ok(Some(V::C(bs.len() as u64)))
            }
            _ => Err(self.err(st, format!("external function {}", name))),
        }
    }
    fn bool_of(&mut self, v: &V) -> E {
        match v { V::C(k) => if *k != 0 { self.ar.ntrue } else { self.ar.nfalse }, V::E(e) => { let e = *e; let w = self.ar.w(e); if w == 1 { e } else { let z = self.ar.cst(0, w); let q = self.ar.cmp(O::Eq, e, z); self.ar.not1(q) } } _ => panic!() }
    }
    fn byte_of(&mut self, v: &V) -> (u8, E) {
        match v { V::C(k) => (*k as u8, 0), V::E(e) => { let e = *e; let x = self.ar.extract(e, 0, 8); match self.ar.k(x) { Some(k) => (k as u8, 0), None => (0, x) } } _ => panic!() }
    }
    fn memcmp(&mut self, x: &[(u8, E)], y: &[(u8, E)], eq_only: bool) -> V {
        if x.iter().chain(y.iter()).all(|b| b.1 == 0) {
            for (a, b) in x.iter().zip(y) { if a.0 != b.0 { return V::C(if a.0 < b.0 { 0xffff_ffff } else { 1 }); } }
            return V::C(0);
        }
        let mut acc;
        let be = |s: &mut Self, b: (u8, E)| if b.1 != 0 { b.1 } else { s.ar.cst(b.0 as u128, 8) };
        if eq_only {
            let mut c = self.ar.ntrue;
            for (a, b) in x.iter().zip(y) { let (p, q) = (be(self, *a), be(self, *b)); let e = self.ar.cmp(O::Eq, p, q); c = self.ar.bin(O::And, c, e); }
            let (z, o) = (self.ar.cst(0, 32), self.ar.cst(1, 32));
            acc = self.ar.ite(c, z, o);
        } else {
            acc = self.ar.cst(0, 32);
            for (a, b) in x.iter().zip(y).rev() {
                let (p, q) = (be(self, *a), be(self, *b));
                let e = self.ar.cmp(O::Eq, p, q);
                let l = self.ar.cmp(O::Ult, p, q);
                let (n, o) = (self.ar.cst(0xffff_ffff, 32), self.ar.cst(1, 32));
                let r = self.ar.ite(l, n, o);
                acc = self.ar.ite(e, acc, r);
            }
        }
        self.ev(acc)
    }
    fn intrinsic(&mut self, st: &mut State, n: &str, av: &[V], args: &[(TyId, Op)], rt: TyId) -> R<Option<V>> {
        macro_rules! u { ($i:expr) => {{ let v = av[$i].clone(); self.cu(st, &v) }} }
        if n.starts_with("lifetime") || n.starts_with("experimental.noalias") || n.starts_with("assume") || n.starts_with("dbg") || n.starts_with("x86.sse2.pause") || n.starts_with("donothing") || n.starts_with("prefetch") || n.starts_with("invariant") || n.starts_with("pseudoprobe") { return Ok(None); }
        if n.starts_with("memcpy") || n.starts_with("memmove") {
            let len = u!(2);
            if len == 0 { return Ok(None); }
            let (a, b) = (self.addr_of(st, &av[0], len)?, self.addr_of(st, &av[1], len)?);
            let bs = self.rd_bytes(st, b, len)?;
            self.wr_bytes(st, a, &bs)?;
            return Ok(None);
        }
        if n.starts_with("memset") {
            let len = u!(2);
            if len == 0 { return Ok(None); }
            let a = self.addr_of(st, &av[0], len)?;
            let c = self.byte_of(&av[1]);
            let bs = vec![c; len as usize];
            self.wr_bytes(st, a, &bs)?;
            return Ok(None);
        }
        if n.starts_with("threadlocal.address") { return Ok(Some(av[0].clone())); }
        if n.starts_with("is.constant") { return Ok(Some(V::C(0))); }
        if n.starts_with("expect") { return Ok(Some(av[0].clone())); }
        if n.starts_with("trap") || n.starts_with("ubsantrap") { return Err(self.viol(st, "abort", "llvm.trap".into())); }
        if n.starts_with("load.relative") {
            let (p, o) = (u!(0), u!(1));
            let v = self.load_scalar(st, p.wrapping_add(o), 32)?;
            let k = self.cu(st, &v);
            let d = if k >= REL && ((k - REL) as usize) < self.m.rel.len() { self.m.rel[(k - REL) as usize] } else { k as i32 as i64 as u64 };
            return Ok(Some(V::C(p.wrapping_add(d))));
        }
        if n.starts_with("ptrmask") { let r = self.bin1(Bin::And, 64, &av[0], &av[1]); return Ok(Some(r)); }
        // vector reductions / elementwise
        if let Some(rest) = n.strip_prefix("vector.reduce.") {
            let xs = match &av[0] { V::A(x) => x.clone(), _ => panic!() };
            let w = self.m.bits(self.m.elem(args[0].0, 0));
            let op = if rest.starts_with("or") { Bin::Or } else if rest.starts_with("and") { Bin::And } else if rest.starts_with("add") { Bin::Add } else if rest.starts_with("xor") { Bin::Xor } else { return Err(self.err(st, format!("intrinsic {}", n))) };
            let mut acc = xs[0].clone();
            for x in &xs[1..] { acc = self.bin1(op, w, &acc, x); }
            return Ok(Some(acc));
        }
        if let Some(V::A(xs)) = av.first() {
            // elementwise over lanes
            let et = self.m.elem(args[0].0, 0);
            let ert = self.m.elem(rt, 0);
            let base = n.split(".v").next().unwrap().to_string();
            let nm = format!("{}.i{}", base, self.m.bits(et));
            let mut out = vec![];
            for i in 0..xs.len() {
                let la: Vec<V> = av.iter().map(|v| match v { V::A(y) => y[i].clone(), o => o.clone() }).collect();
                let lt: Vec<(TyId, Op)> = args.iter().map(|(t, o)| (if matches!(self.m.tys[*t as usize], Ty::Vec(..)) { self.m.elem(*t, 0) } else { *t }, o.clone())).collect();
                match self.intrinsic(st, &nm, &la, &lt, ert)? { Some(v) => out.push(v), None => return Err(self.err(st, format!("vector intrinsic {}", n))) }
            }
            return Ok(Some(V::A(Rc::new(out))));
        }
        let w = if args.is_empty() { 0 } else { match self.m.tys[args[0].0 as usize] { Ty::Int(k) => k, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, _ => 0 } };
        if n.contains(".with.overflow") {
            let (x, y) = (self.ex(&av[0], w), self.ex(&av[1], w));
            let ar = &mut self.ar;
            let (r, o) = match &n[..4] {
                "uadd" => { let r = ar.bin(O::Add, x, y); let o = if ar.w(x) < 128 && ar.hi[x as usize] + ar.hi[y as usize] <= mk(w) { ar.nfalse } else { ar.cmp(O::Ult, r, x) }; (r, o) }
                "usub" => { let r = ar.bin(O::Sub, x, y); let o = ar.cmp(O::Ult, x, y); (r, o) }
                "sadd" | "ssub" => {
                    let op = if &n[..4] == "sadd" { O::Add } else { O::Sub };
                    let r = ar.bin(op, x, y);
                    if w < 128 {
                        // exact via one extra bit
                        let (ex, ey) = (ar.sext(x, w + 1), ar.sext(y, w + 1));
                        let er = ar.bin(op, ex, ey);
                        let back = ar.sext(r, w + 1);
                        // constants: fast path through range facts
                        let (hx, hy) = (ar.hi[x as usize], ar.hi[y as usize]);
                        let (a, b) = ((ar.slo[x as usize], ar.shi[x as usize]), (ar.slo[y as usize], ar.shi[y as usize]));
                        let (l, h) = if op == O::Add { (a.0.saturating_add(b.0), a.1.saturating_add(b.1)) } else { (a.0.saturating_sub(b.1), a.1.saturating_sub(b.0)) };
                        let lim = mk(w - 1) as i128;
                        let safe = (l >= -lim - 1 && h <= lim) || op == O::Add && hx + hy <= mk(w - 1) || (op == O::Sub && hx <= mk(w - 1) && hy <= mk(w - 1));
                        let o = if safe { ar.nfalse } else {
                            // sign rule: overflow iff signs agree (add) / differ (sub) and result sign differs from x
                            let _ = (er, back);
                            let sxb = ar.extract(x, w - 1, 1); let syb = ar.extract(y, w - 1, 1); let srb = ar.extract(r, w - 1, 1);
                            let d1 = ar.bin(O::Xor, sxb, srb);
                            let d2 = ar.bin(O::Xor, sxb, syb);
                            let d2 = if op == O::Add { ar.not1(d2) } else { d2 };
                            ar.bin(O::And, d1, d2)
                        };
                        (r, o)
                    } else { (r, ar.nfalse) }
                }
                "umul" | "smul" => {
                    let r = ar.bin(O::Mul, x, y);
                    let signed = &n[..4] == "smul";
                    let (hx, hy) = (ar.hi[x as usize], ar.hi[y as usize]);
                    let lim = if signed { mk(w - 1) } else { mk(w) };
                    let ssafe = signed && w <= 64 && { let (a, b) = ((ar.slo[x as usize], ar.shi[x as usize]), (ar.slo[y as usize], ar.shi[y as usize])); [a.0 * b.0, a.0 * b.1, a.1 * b.0, a.1 * b.1].iter().all(|p| *p >= -(lim as i128) - 1 && *p <= lim as i128) };
                    let o = if ssafe { ar.nfalse } else if hx.checked_mul(hy).map(|p| p <= lim).unwrap_or(false) { ar.nfalse }
                    else if ar.k(x) == Some(0) || ar.k(y) == Some(0) { ar.nfalse }
                    else if !signed && ar.k(y).is_some() { let k = ar.k(y).unwrap(); let b = ar.cst(mk(w) / k, w); ar.cmp(O::Ult, b, x) }
                    else if !signed && ar.k(x).is_some() { let k = ar.k(x).unwrap(); let b = ar.cst(mk(w) / k, w); ar.cmp(O::Ult, b, y) }
                    else if w <= 64 {
                        let (a, b) = if signed { (ar.sext(x, 2 * w), ar.sext(y, 2 * w)) } else { (ar.zext(x, 2 * w), ar.zext(y, 2 * w)) };
                        let p = ar.bin(O::Mul, a, b);
                        let back = if signed { ar.sext(r, 2 * w) } else { ar.zext(r, 2 * w) };
                        let e = ar.cmp(O::Eq, p, back);
                        ar.not1(e)
                    } else if let (Some(a), Some(b)) = (ar.k(x), ar.k(y)) {
                        let ov = if signed { (a as i128).checked_mul(b as i128).is_none() } else { a.checked_mul(b).is_none() };
                        if ov { ar.ntrue } else { ar.nfalse }
                    } else { return Err(self.err(st, format!("intrinsic {} symbolic 128", n))); };
                    (r, o)
                }
                _ => return Err(self.err(st, format!("intrinsic {}", n))),
            };
            let v = V::A(Rc::new(vec![self.ev(r), self.ev(o)]));
            return Ok(Some(v));
        }
        let e2 = |s: &mut Self, c: E, a: E, b: E| -> V { let r = s.ar.ite(c, a, b); s.ev(r) };
        let p: Vec<&str> = n.split('.').collect();
        match p[0] {
            "umin" | "umax" | "smin" | "smax" => {
                let (x, y) = (self.ex(&av[0], w), self.ex(&av[1], w));
                let c = self.ar.cmp(if p[0].starts_with('u') { O::Ult } else { O::Slt }, x, y);
                Ok(Some(if p[0].ends_with("min") { e2(self, c, x, y) } else { e2(self, c, y, x) }))
            }
            "abs" => {
                let x = self.ex(&av[0], w);
                let z = self.ar.cst(0, w);
                let neg = self.ar.bin(O::Sub, z, x);
                let s = self.ar.extract(x, w - 1, 1);
                Ok(Some(e2(self, s, neg, x)))
            }
            "ucmp" | "scmp" => {
                let (x, y) = (self.ex(&av[0], w), self.ex(&av[1], w));
                let rw = self.m.bits(rt);
                let lt = self.ar.cmp(if p[0] == "ucmp" { O::Ult } else { O::Slt }, x, y);
                let eq = self.ar.cmp(O::Eq, x, y);
                let (m1, z, o) = (self.ar.cst(mk(rw), rw), self.ar.cst(0, rw), self.ar.cst(1, rw));
                let r = self.ar.ite(eq, z, o);
                Ok(Some(e2(self, lt, m1, r)))
            }
            "fshl" | "fshr" => {
                let (x, y) = (self.ex(&av[0], w), self.ex(&av[1], w));
                let s = u!(2) % w as u64;
                let s = s as u32;
                let sh = if p[0] == "fshl" { s } else { (w - s) % w };
                if p[0] == "fshl" && s == 0 { return Ok(Some(av[0].clone())); }
                if p[0] == "fshr" && s == 0 { return Ok(Some(av[1].clone())); }
                let h = self.ar.extract(x, 0, w - sh);
                let l = self.ar.extract(y, w - sh, sh);
                let r = self.ar.concat(h, l);
                Ok(Some(self.ev(r)))
            }
            "uadd" | "usub" | "sadd" | "ssub" if p.get(1) == Some(&"sat") => {
                let (x, y) = (self.ex(&av[0], w), self.ex(&av[1], w));
                let ar = &mut self.ar;
                let r = match p[0] {
                    "uadd" => { let r = ar.bin(O::Add, x, y); let o = if w < 128 && ar.hi[x as usize] + ar.hi[y as usize] <= mk(w) { ar.nfalse } else { ar.cmp(O::Ult, r, x) }; let m = ar.cst(mk(w), w); ar.ite(o, m, r) }
                    "usub" => { let r = ar.bin(O::Sub, x, y); let o = ar.cmp(O::Ult, x, y); let z = ar.cst(0, w); ar.ite(o, z, r) }
                    _ => {
                        let op = if p[0] == "sadd" { O::Add } else { O::Sub };
                        let r = ar.bin(op, x, y);
                        let (a, b) = ((ar.slo[x as usize], ar.shi[x as usize]), (ar.slo[y as usize], ar.shi[y as usize]));
                        let (l, h) = if op == O::Add { (a.0.saturating_add(b.0), a.1.saturating_add(b.1)) } else { (a.0.saturating_sub(b.1), a.1.saturating_sub(b.0)) };
                        let lim = mk(w - 1) as i128;
                        if l >= -lim - 1 && h <= lim { return Ok(Some(self.ev(r))); }
                        let sxb = ar.extract(x, w - 1, 1); let syb = ar.extract(y, w - 1, 1); let srb = ar.extract(r, w - 1, 1);
                        let d1 = ar.bin(O::Xor, sxb, srb);
                        let d2 = ar.bin(O::Xor, sxb, syb);
                        let d2 = if op == O::Add { ar.not1(d2) } else { d2 };
                        let o = ar.bin(O::And, d1, d2);
                        let mx = ar.cst(mk(w - 1), w); let mn = ar.cst(1u128 << (w - 1), w);
                        let s = ar.ite(sxb, mn, mx);
                        ar.ite(o, s, r)
                    }
                };
                Ok(Some(self.ev(r)))
            }
            "ctpop" => {
                let x = self.ex(&av[0], w);
                let mut acc = self.ar.cst(0, w);
                for i in 0..w { let b = self.ar.extract(x, i, 1); let z = self.ar.zext(b, w); acc = self.ar.bin(O::Add, acc, z); }
                Ok(Some(self.ev(acc)))
            }
            "cttz" | "ctlz" => {
                if let V::C(k) = av[0] { let k = k as u128; let r = if p[0] == "cttz" { if k == 0 { w } else { k.trailing_zeros() } } else { if k == 0 { w } else { k.leading_zeros() - (128 - w) } }; return Ok(Some(V::C(r as u64))); }
                let x = self.ex(&av[0], w);
                let mut acc = self.ar.cst(w as u128, w);
                let it: Vec<u32> = if p[0] == "cttz" { (0..w).rev().collect() } else { (0..w).collect() };
                for i in it { let b = self.ar.extract(x, i, 1); let k = self.ar.cst(if p[0] == "cttz" { i } else { w - 1 - i } as u128, w); acc = self.ar.ite(b, k, acc); }
                Ok(Some(self.ev(acc)))
            }
            "bswap" => { let x = self.ex(&av[0], w); let mut acc = self.ar.extract(x, 0, 8); for i in 1..w / 8 { let b = self.ar.extract(x, i * 8, 8); acc = self.ar.concat(acc, b); } Ok(Some(self.ev(acc))) }
            "bitreverse" => { let x = self.ex(&av[0], w); let mut acc = self.ar.extract(x, 0, 1); for i in 1..w { let b = self.ar.extract(x, i, 1); acc = self.ar.concat(acc, b); } Ok(Some(self.ev(acc))) }
            "fptosi" | "fptoui" => { let x = self.ex(&av[0], w); let rw = self.m.bits(rt); let r = self.ar.un(if p[0] == "fptosi" { O::FToSI } else { O::FToUI }, rw, 0, x); Ok(Some(self.ev(r))) }
            "round" | "roundeven" | "rint" | "nearbyint" | "floor" | "ceil" | "trunc" => { let x = self.ex(&av[0], w); let md = match p[0] { "round" => 1, "floor" => 2, "ceil" => 3, "trunc" => 4, _ => 0 }; let r = self.ar.un(O::FRound, w, md, x); Ok(Some(self.ev(r))) }
            "sqrt" => { let x = self.ex(&av[0], w); let r = self.ar.un(O::FSqrt, w, 0, x); Ok(Some(self.ev(r))) }
            "fabs" => { let x = self.ex(&av[0], w); let k = self.ar.cst(mk(w - 1), w); let r = self.ar.bin(O::And, x, k); Ok(Some(self.ev(r))) }
            "copysign" => { let x = self.ex(&av[0], w); let y = self.ex(&av[1], w); let lo = self.ar.extract(x, 0, w - 1); let s = self.ar.extract(y, w - 1, 1); let r = self.ar.concat(s, lo); Ok(Some(self.ev(r))) }
            "minnum" | "maxnum" | "minimumnum" | "maximumnum" => {
                let (x, y) = (self.ex(&av[0], w), self.ex(&av[1], w));
                let ar = &mut self.ar;
                let nx = ar.un(O::FIsNan, 1, 0, x);
                let ny = ar.un(O::FIsNan, 1, 0, y);
                let lt = ar.cmp(O::FLt, x, y);
                let mut r = if p[0].starts_with("min") { ar.ite(lt, x, y) } else { ar.ite(lt, y, x) };
                // signed zeros: prefer the first operand when equal (both choices are allowed)
                r = ar.ite(ny, x, r);
                r = ar.ite(nx, y, r);
                Ok(Some(self.ev(r)))
            }
            "fma" | "fmuladd" => {
                let (x, y, z) = (u!(0), u!(1), u!(2));
                Ok(Some(V::C(if w == 32 { f32::from_bits(x as u32).mul_add(f32::from_bits(y as u32), f32::from_bits(z as u32)).to_bits() as u64 } else { f64::from_bits(x).mul_add(f64::from_bits(y), f64::from_bits(z)).to_bits() })))
            }
            "powi" => { let x = u!(0); let k = u!(1) as i32; Ok(Some(V::C(if w == 32 { f32::from_bits(x as u32).powi(k).to_bits() as u64 } else { f64::from_bits(x).powi(k).to_bits() }))) }
            "pow" => { let x = u!(0); let y = u!(1); Ok(Some(V::C(if w == 32 { f32::from_bits(x as u32).powf(f32::from_bits(y as u32)).to_bits() as u64 } else { f64::from_bits(x).powf(f64::from_bits(y)).to_bits() }))) }
            _ => Err(self.err(st, format!("intrinsic llvm.{}", n))),
        }
    }
    fn addr_of(&mut self, st: &mut State, v: &V, n: u64) -> R<u64> {
        match v { V::C(x) => Ok(*x), V::E(e) => { if let Some(x) = st.eqs.get(e) { return Ok(*x as u64); } self.pin_object(st, *e, n)?; Ok(self.concretize(st, *e) as u64) } _ => panic!() }
    }
}

fn gcd(a: u64, b: u64) -> u64 { if b == 0 { a } else { gcd(b, a % b) } }

extern "C" {
    pub fn fork() -> i32;
    pub fn _exit(c: i32) -> !;
}
