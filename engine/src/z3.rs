//! Minimal z3 C API bindings and expression translation.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_mk_fpa_sort_32(c: P) -> P;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_add(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, r: P, a: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, r: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, r: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, r: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, r: P, t: P, n: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, r: P, t: P, n: c_uint) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, r: P, t: P) -> P;
    fn Z3_mk_fpa_nan(c: P, s: P) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_sub(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_div(c: P, a: P, b: P) -> P;
    fn Z3_mk_mod(c: P, a: P, b: P) -> P;
    fn Z3_mk_unary_minus(c: P, a: P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_mk_implies(c: P, a: P, b: P) -> P;
    fn Z3_dec_ref(c: P, a: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_err(c: P, e: c_int) {
    unsafe { eprintln!("z3 error: {}", CStr::from_ptr(Z3_get_error_msg(c, e)).to_string_lossy()); }
    std::process::exit(3);
}

pub struct Z3 {
    c: P,
    s: P,
    s2: P,
    sf: P,
    s32: P,
    s64: P,
    rm: [P; 5],
    bv: HashMap<E, P, Fx>,
    bo: HashMap<E, P, Fx>,
    fpc: HashMap<E, P, Fx>,
    hasfp: HashMap<E, bool, Fx>,
    lits: HashMap<E, P, Fx>,
    lim: usize,
    si: P,
    s3: P,
    isort: P,
    ix: HashMap<E, Option<P>, Fx>,
    ib: HashMap<E, Option<P>, Fx>,
    ibound: HashMap<(u32, u32), P>,
    arith: HashMap<E, u8, Fx>,
    pub int_unsat: u64,
    pub xcheck: bool,
    pub rlimit: u32,
}

pub enum Res { Unsat, Sat(Vec<(u32, u128)>), Unknown }

impl Z3 {
    pub fn version() -> String { unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }
    pub fn new(rlimit: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let l = CString::new("QF_BV").unwrap();
            let s2 = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s2);
            let l = CString::new("QF_FP").unwrap();
            let sf = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, sf);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), rlimit);
            Z3_solver_set_params(c, s, p);
            Z3_solver_set_params(c, s2, p);
            Z3_solver_set_params(c, sf, p);
            let si = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, si);
            let l = CString::new("QF_BV").unwrap();
            let s3 = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s3);
            let p2 = Z3_mk_params(c);
            Z3_params_inc_ref(c, p2);
            Z3_params_set_uint(c, p2, Z3_mk_string_symbol(c, k.as_ptr()), 40_000_000);
            Z3_solver_set_params(c, si, p2);
            Z3_solver_set_params(c, s3, p2);
            let isort = Z3_mk_int_sort(c); Z3_inc_ref(c, isort);
            let _ = Z3_solver_dec_ref as usize;
            let k = |p: P| { Z3_inc_ref(c, p); p };
            let s32 = k(Z3_mk_fpa_sort_32(c));
            let s64 = k(Z3_mk_fpa_sort_64(c));
            let rm = [k(Z3_mk_fpa_rne(c)), k(Z3_mk_fpa_rna(c)), k(Z3_mk_fpa_rtn(c)), k(Z3_mk_fpa_rtp(c)), k(Z3_mk_fpa_rtz(c))];
            Z3 { c, s, s2, sf, s32, s64, rm, bv: HashMap::with_hasher(Fx), bo: HashMap::with_hasher(Fx), fpc: HashMap::with_hasher(Fx), hasfp: HashMap::with_hasher(Fx), lits: HashMap::with_hasher(Fx), lim: 150, si, s3, isort, ix: HashMap::with_hasher(Fx), ib: HashMap::with_hasher(Fx), ibound: HashMap::new(), arith: HashMap::with_hasher(Fx), int_unsat: 0, xcheck: std::env::var("SYMEX_XCHECK").is_ok(), rlimit }
        }
    }
    fn fp(&mut self, ar: &Arena, e: E) -> bool {
        if let Some(&b) = self.hasfp.get(&e) { return b; }
        let n = ar.n[e as usize];
        let r = matches!(n.op, O::FAdd | O::FSub | O::FMul | O::FDiv | O::FRem | O::FEq | O::FLt | O::FLe | O::FIsNan | O::FToSI | O::FToUI | O::SIToF | O::UIToF | O::FToF | O::FRound | O::FSqrt)
            || (n.a != 0 && self.fp(ar, n.a)) || (n.b != 0 && self.fp(ar, n.b)) || (n.c != 0 && self.fp(ar, n.c));
        self.hasfp.insert(e, r);
        r
    }
    fn keep(&self, p: P) -> P { unsafe { Z3_inc_ref(self.c, p) }; p }
    fn num(&self, k: u128, w: u32) -> P {
        unsafe {
            if w <= 64 { Z3_mk_unsigned_int64(self.c, k as u64, Z3_mk_bv_sort(self.c, w)) }
            else { let h = self.keep(Z3_mk_unsigned_int64(self.c, (k >> 64) as u64, Z3_mk_bv_sort(self.c, w - 64))); let l = self.keep(Z3_mk_unsigned_int64(self.c, k as u64, Z3_mk_bv_sort(self.c, 64))); Z3_mk_concat(self.c, h, l) }
        }
    }
    pub fn boolean(&mut self, ar: &Arena, e: E) -> P {
        if let Some(&p) = self.bo.get(&e) { return p; }
        let n = ar.n[e as usize];
        let c = self.c;
        unsafe {
            let p = match n.op {
                O::Const => if n.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                O::And => { let v = [self.boolean(ar, n.a), self.boolean(ar, n.b)]; Z3_mk_and(c, 2, v.as_ptr()) }
                O::Or => { let v = [self.boolean(ar, n.a), self.boolean(ar, n.b)]; Z3_mk_or(c, 2, v.as_ptr()) }
                O::Xor => { let a = self.boolean(ar, n.a); if ar.k(n.b) == Some(1) { Z3_mk_not(c, a) } else { let b = self.boolean(ar, n.b); Z3_mk_xor(c, a, b) } }
                O::Ite => { let a = self.boolean(ar, n.a); let b = self.boolean(ar, n.b); let d = self.boolean(ar, n.c); Z3_mk_ite(c, a, b, d) }
                O::Eq => {
                    if ar.w(n.a) == 1 { let a = self.boolean(ar, n.a); let b = self.boolean(ar, n.b); Z3_mk_eq(c, a, b) }
                    else { let a = self.bvx(ar, n.a); let b = self.bvx(ar, n.b); Z3_mk_eq(c, a, b) }
                }
                O::Ult => { let a = self.bvx(ar, n.a); let b = self.bvx(ar, n.b); Z3_mk_bvult(c, a, b) }
                O::Ule => { let a = self.bvx(ar, n.a); let b = self.bvx(ar, n.b); Z3_mk_bvule(c, a, b) }
                O::Slt => { let a = self.bvx(ar, n.a); let b = self.bvx(ar, n.b); Z3_mk_bvslt(c, a, b) }
                O::Sle => { let a = self.bvx(ar, n.a); let b = self.bvx(ar, n.b); Z3_mk_bvsle(c, a, b) }
                O::FEq => { let a = self.fpx(ar, n.a); let b = self.fpx(ar, n.b); Z3_mk_fpa_eq(c, a, b) }
                O::FLt => { let a = self.fpx(ar, n.a); let b = self.fpx(ar, n.b); Z3_mk_fpa_lt(c, a, b) }
                O::FLe => { let a = self.fpx(ar, n.a); let b = self.fpx(ar, n.b); Z3_mk_fpa_leq(c, a, b) }
                O::FIsNan => { let a = self.fpx(ar, n.a); Z3_mk_fpa_is_nan(c, a) }
                _ => { let v = self.bvx(ar, e); let one = self.keep(self.num(1, 1)); Z3_mk_eq(c, v, one) }
            };
            self.keep(p);
            self.bo.insert(e, p);
            p
        }
    }
    /// translate a bit pattern as a z3 floating-point term
    fn fpx(&mut self, ar: &Arena, e: E) -> P {
        if let Some(&p) = self.fpc.get(&e) { return p; }
        let n = ar.n[e as usize];
        let c = self.c;
        unsafe {
            let (s32, s64) = (self.s32, self.s64);
            let srt = |w: u32| if w == 32 { s32 } else { s64 };
            let rne = self.rm[0];
            let w = n.w as u32;
            let p = match n.op {
                O::FAdd => { let a = self.fpx(ar, n.a); let b = self.fpx(ar, n.b); Z3_mk_fpa_add(c, rne, a, b) }
                O::FSub => { let a = self.fpx(ar, n.a); let b = self.fpx(ar, n.b); Z3_mk_fpa_sub(c, rne, a, b) }
                O::FMul => { let a = self.fpx(ar, n.a); let b = self.fpx(ar, n.b); Z3_mk_fpa_mul(c, rne, a, b) }
                O::FDiv => { let a = self.fpx(ar, n.a); let b = self.fpx(ar, n.b); Z3_mk_fpa_div(c, rne, a, b) }
                O::FSqrt => { let a = self.fpx(ar, n.a); Z3_mk_fpa_sqrt(c, rne, a) }
                O::SIToF => { let a = self.bvx(ar, n.a); Z3_mk_fpa_to_fp_signed(c, rne, a, srt(w)) }
                O::UIToF => { let a = self.bvx(ar, n.a); Z3_mk_fpa_to_fp_unsigned(c, rne, a, srt(w)) }
                O::FToF => { let a = self.fpx(ar, n.a); Z3_mk_fpa_to_fp_float(c, rne, a, srt(w)) }
                O::FRound => { let a = self.fpx(ar, n.a); let r = self.rm[n.aux as usize]; Z3_mk_fpa_round_to_integral(c, r, a) }
                O::Ite => { let a = self.boolean(ar, n.a); let b = self.fpx(ar, n.b); let d = self.fpx(ar, n.c); Z3_mk_ite(c, a, b, d) }
                O::FRem => { eprintln!("symbolic frem unsupported"); std::process::exit(3) }
                O::Const => {
                    let nan = if w == 32 { f32::from_bits(n.k as u32).is_nan() } else { f64::from_bits(n.k as u64).is_nan() };
                    if nan { Z3_mk_fpa_nan(c, srt(w)) } else { let a = self.bvx(ar, e); Z3_mk_fpa_to_fp_bv(c, a, srt(w)) }
                }
                _ => { let a = self.bvx(ar, e); Z3_mk_fpa_to_fp_bv(c, a, srt(w)) }
            };
            self.keep(p);
            self.fpc.insert(e, p);
            p
        }
    }
    pub fn bvx(&mut self, ar: &Arena, e: E) -> P {
        if let Some(&p) = self.bv.get(&e) { return p; }
        let n = ar.n[e as usize];
        let c = self.c;
        let w = n.w as u32;
        unsafe {
            macro_rules! b2 { ($f:ident) => {{ let a = self.bvx(ar, n.a); let b = self.bvx(ar, n.b); $f(c, a, b) }} }
            let p = match n.op {
                O::Const => self.num(n.k, w),
                O::Sym => { let s = CString::new(format!("s{}_{}", n.aux, w)).unwrap(); Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bv_sort(c, w)) }
                O::Eq | O::Ult | O::Ule | O::Slt | O::Sle | O::FEq | O::FLt | O::FLe | O::FIsNan => { let b = self.boolean(ar, e); let one = self.keep(self.num(1, 1)); let z = self.keep(self.num(0, 1)); Z3_mk_ite(c, b, one, z) }
                O::Add => b2!(Z3_mk_bvadd), O::Sub => b2!(Z3_mk_bvsub), O::Mul => b2!(Z3_mk_bvmul),
                O::UDiv => b2!(Z3_mk_bvudiv), O::SDiv => b2!(Z3_mk_bvsdiv), O::URem => b2!(Z3_mk_bvurem), O::SRem => b2!(Z3_mk_bvsrem),
                O::And => b2!(Z3_mk_bvand), O::Or => b2!(Z3_mk_bvor), O::Xor => b2!(Z3_mk_bvxor),
                O::Shl => b2!(Z3_mk_bvshl), O::LShr => b2!(Z3_mk_bvlshr), O::AShr => b2!(Z3_mk_bvashr),
                O::Concat => b2!(Z3_mk_concat),
                O::Extract => { let a = self.bvx(ar, n.a); Z3_mk_extract(c, n.aux + w - 1, n.aux, a) }
                O::ZExt => { let a = self.bvx(ar, n.a); Z3_mk_zero_ext(c, w - ar.w(n.a), a) }
                O::SExt => { let a = self.bvx(ar, n.a); Z3_mk_sign_ext(c, w - ar.w(n.a), a) }
                O::Ite => { let a = self.boolean(ar, n.a); let b = self.bvx(ar, n.b); let d = self.bvx(ar, n.c); Z3_mk_ite(c, a, b, d) }
                O::FAdd | O::FSub | O::FMul | O::FDiv | O::FRem | O::SIToF | O::UIToF | O::FToF | O::FRound | O::FSqrt => {
                    let f = self.fpx(ar, e);
                    // canonical NaN pattern
                    let isn = self.keep(Z3_mk_fpa_is_nan(c, f));
                    let q = if w == 32 { f32::NAN.to_bits() as u128 } else { f64::NAN.to_bits() as u128 };
                    let qn = self.keep(self.num(q, w));
                    let iv = self.keep(Z3_mk_fpa_to_ieee_bv(c, f));
                    Z3_mk_ite(c, isn, qn, iv)
                }
                O::FToSI | O::FToUI => {
                    let fw = ar.w(n.a);
                    let f = self.fpx(ar, n.a);
                    let signed = n.op == O::FToSI;
                    let pat = |x: f64| -> u128 { if fw == 32 { (x as f32).to_bits() as u128 } else { x.to_bits() as u128 } };
                    let s = if fw == 32 { self.s32 } else { self.s64 };
                    let two = |k: u32| 2f64.powi(k as i32);
                    let hi = self.keep(Z3_mk_fpa_to_fp_bv(c, self.keep(self.num(pat(if signed { two(w - 1) } else { two(w) }), fw)), s));
                    let lo = self.keep(Z3_mk_fpa_to_fp_bv(c, self.keep(self.num(pat(if signed { -two(w - 1) } else { 0.0 }), fw)), s));
                    let m = mk(w);
                    let (kmin, kmax) = if signed { (1u128 << (w - 1), m >> 1) } else { (0, m) };
                    let rtz = self.rm[4];
                    let conv = self.keep(if signed { Z3_mk_fpa_to_sbv(c, rtz, f, w) } else { Z3_mk_fpa_to_ubv(c, rtz, f, w) });
                    let ge = self.keep(Z3_mk_fpa_leq(c, hi, f));
                    let le = self.keep(Z3_mk_fpa_leq(c, f, lo));
                    let isn = self.keep(Z3_mk_fpa_is_nan(c, f));
                    let z = self.keep(self.num(0, w));
                    let a = self.keep(self.num(kmax, w));
                    let b = self.keep(self.num(kmin, w));
                    let x = self.keep(Z3_mk_ite(c, ge, a, conv));
                    let x = self.keep(Z3_mk_ite(c, le, b, x));
                    Z3_mk_ite(c, isn, z, x)
                }
                O::Nil => panic!("nil"),
            };
            self.keep(p);
            self.bv.insert(e, p);
            p
        }
    }
    // ----- linear integer arithmetic: exact where the intervals exclude wrap-around -----
    /// How much integer arithmetic a term holds (saturating, shared terms counted repeatedly).
    fn has_arith(&mut self, ar: &Arena, e: E) -> u8 {
        if let Some(&b) = self.arith.get(&e) { return b; }
        let n = ar.n[e as usize];
        let mut r = match n.op {
            O::UDiv | O::URem | O::SDiv | O::SRem => 255u8,
            O::Mul if ar.k(n.b).is_some() => 255,
            O::Add | O::Sub if ar.k(n.b).is_none() && n.w >= 8 => 1,
            _ => 0,
        };
        if n.a != 0 { r = r.saturating_add(self.has_arith(ar, n.a)); }
        if n.b != 0 { r = r.saturating_add(self.has_arith(ar, n.b)); }
        if n.c != 0 { r = r.saturating_add(self.has_arith(ar, n.c)); }
        self.arith.insert(e, r);
        r
    }
    fn inum(&self, k: i128) -> P { let s = CString::new(k.to_string()).unwrap(); unsafe { self.keep(Z3_mk_numeral(self.c, s.as_ptr(), self.isort)) } }
    fn i2(&self, f: unsafe extern "C" fn(P, c_uint, *const P) -> P, a: P, b: P) -> P { let v = [a, b]; unsafe { self.keep(f(self.c, 2, v.as_ptr())) } }
    fn ii(&self, c: P, a: P, b: P) -> P { unsafe { self.keep(Z3_mk_ite(self.c, c, a, b)) } }
    /// The unsigned value.
    fn iu(&mut self, ar: &Arena, e: E) -> Option<P> {
        if ar.w(e) == 1 { let b = self.intb(ar, e)?; let (o, z) = (self.inum(1), self.inum(0)); return Some(self.ii(b, o, z)); }
        let x = self.intx(ar, e)?;
        if ar.slo[e as usize] >= 0 { return Some(x); }
        let z = self.inum(0); let m = self.inum(1i128 << ar.w(e));
        let neg = unsafe { self.keep(Z3_mk_lt(self.c, x, z)) };
        let y = self.i2(Z3_mk_add, x, m);
        Some(self.ii(neg, y, x))
    }
    /// From an unsigned value in 0..2^w to the signed value of node e.
    fn to_signed(&mut self, ar: &Arena, e: E, u: P) -> P {
        if ar.slo[e as usize] >= 0 { return u; }
        let w = ar.w(e);
        let h = self.inum(1i128 << (w - 1)); let m = self.inum(1i128 << w);
        let big = unsafe { self.keep(Z3_mk_le(self.c, h, u)) };
        let y = self.i2(Z3_mk_sub, u, m);
        self.ii(big, y, u)
    }
    /// Modular result: value mod 2^w, then signed.
    fn wrap(&mut self, ar: &Arena, e: E, v: P) -> P {
        let m = self.inum(1i128 << ar.w(e));
        let u = unsafe { self.keep(Z3_mk_mod(self.c, v, m)) };
        self.to_signed(ar, e, u)
    }
    /// The signed value of a node of width 2..=100 as an integer term; None where that is not exact.
    fn intx(&mut self, ar: &Arena, e: E) -> Option<P> {
        if let Some(p) = self.ix.get(&e) { return *p; }
        let r = self.intx0(ar, e);
        
        self.ix.insert(e, r);
        r
    }
    fn intx0(&mut self, ar: &Arena, e: E) -> Option<P> {
        let n = ar.n[e as usize];
        let w = n.w as u32;
        if w < 2 || w > 100 { return None; }
        let c = self.c;
        let half = 1i128 << (w - 1);
        let s = |x: E| (ar.slo[x as usize], ar.shi[x as usize]);
        let fits = |l: i128, h: i128| l >= -half && h < half;
        Some(match n.op {
            O::Const => self.inum(sx(n.k, w)),
            O::Sym => {
                let u = self.isym(n.aux, w);
                if !self.ibound.contains_key(&(n.aux, w)) {
                    let z = self.inum(0); let m = self.inum(mk(w) as i128);
                    let b = unsafe { let v = [self.keep(Z3_mk_le(c, z, u)), self.keep(Z3_mk_le(c, u, m))]; self.keep(Z3_mk_and(c, 2, v.as_ptr())) };
                    self.ibound.insert((n.aux, w), b);
                }
                self.to_signed(ar, e, u)
            }
            O::ZExt if ar.w(n.a) == 1 => { let b = self.intb(ar, n.a)?; let (o, z) = (self.inum(1), self.inum(0)); self.ii(b, o, z) }
            O::SExt if ar.w(n.a) == 1 => { let b = self.intb(ar, n.a)?; let (o, z) = (self.inum(-1), self.inum(0)); self.ii(b, o, z) }
            O::ZExt => self.iu(ar, n.a)?,
            O::SExt => self.intx(ar, n.a)?,
            O::Add => { let (p, q) = (s(n.a), s(n.b)); if !fits(p.0 + q.0, p.1 + q.1) { if ar.hi[n.a as usize] + ar.hi[n.b as usize] <= mk(w) { let a = self.iu(ar, n.a)?; let b = self.iu(ar, n.b)?; let u = self.i2(Z3_mk_add, a, b); return Some(self.to_signed(ar, e, u)); } let a = self.intx(ar, n.a)?; let b = self.intx(ar, n.b)?; let u = self.i2(Z3_mk_add, a, b); return Some(self.wrap(ar, e, u)); } let a = self.intx(ar, n.a)?; let b = self.intx(ar, n.b)?; self.i2(Z3_mk_add, a, b) }
            O::Sub => { let (p, q) = (s(n.a), s(n.b)); if !fits(p.0 - q.1, p.1 - q.0) { if ar.lo[n.a as usize] >= ar.hi[n.b as usize] { let a = self.iu(ar, n.a)?; let b = self.iu(ar, n.b)?; let u = self.i2(Z3_mk_sub, a, b); return Some(self.to_signed(ar, e, u)); } let a = self.intx(ar, n.a)?; let b = self.intx(ar, n.b)?; let u = self.i2(Z3_mk_sub, a, b); return Some(self.wrap(ar, e, u)); } let a = self.intx(ar, n.a)?; let b = self.intx(ar, n.b)?; self.i2(Z3_mk_sub, a, b) }
            O::Mul | O::Shl => {
                let uk = if n.op == O::Mul { ar.k(n.b)? } else { let k = ar.k(n.b)?; if k >= w as u128 { return None; } 1u128 << k };
                if let Some(h) = ar.hi[n.a as usize].checked_mul(uk) { if h <= mk(w) { let a = self.iu(ar, n.a)?; let k = self.inum(uk as i128); let u = self.i2(Z3_mk_mul, a, k); return Some(self.to_signed(ar, e, u)); } }
                let k = if n.op == O::Mul { sx(ar.k(n.b)?, w) } else { let k = ar.k(n.b)?; if k + 1 >= w as u128 { return None; } 1i128 << k };
                let p = s(n.a);
                let (x, y) = (p.0.checked_mul(k)?, p.1.checked_mul(k)?);
                if !fits(x.min(y), x.max(y)) { let a = self.intx(ar, n.a)?; let k = self.inum(k); let u = self.i2(Z3_mk_mul, a, k); return Some(self.wrap(ar, e, u)); }
                let a = self.intx(ar, n.a)?; let k = self.inum(k);
                self.i2(Z3_mk_mul, a, k)
            }
            O::UDiv | O::URem => {
                let k = ar.k(n.b)?; if k == 0 { return None; }
                let a = self.iu(ar, n.a)?; let k = self.inum(k as i128);
                let u = unsafe { self.keep(if n.op == O::UDiv { Z3_mk_div(c, a, k) } else { Z3_mk_mod(c, a, k) }) };
                self.to_signed(ar, e, u)
            }
            O::SDiv | O::SRem => {
                let k = sx(ar.k(n.b)?, w); if k <= 0 { return None; }
                let a = self.intx(ar, n.a)?; let kk = self.inum(k); let z = self.inum(0);
                unsafe {
                    let pos = self.keep(Z3_mk_le(c, z, a));
                    let d = self.keep(Z3_mk_div(c, a, kk));
                    let na = self.keep(Z3_mk_unary_minus(c, a));
                    let nd = self.keep(Z3_mk_div(c, na, kk));
                    let nnd = self.keep(Z3_mk_unary_minus(c, nd));
                    let q = self.ii(pos, d, nnd);
                    if n.op == O::SDiv { q } else { let m = self.i2(Z3_mk_mul, q, kk); self.i2(Z3_mk_sub, a, m) }
                }
            }
            O::LShr => { let k = ar.k(n.b)?; if k >= w as u128 { return None; } let a = self.iu(ar, n.a)?; let k = self.inum(1i128 << k); let u = unsafe { self.keep(Z3_mk_div(c, a, k)) }; self.to_signed(ar, e, u) }
            O::AShr => { let k = ar.k(n.b)?; if k >= w as u128 { return None; } let a = self.intx(ar, n.a)?; let k = self.inum(1i128 << k); unsafe { self.keep(Z3_mk_div(c, a, k)) } }
            O::Extract => {
                let p = s(n.a);
                if n.aux == 0 && fits(p.0, p.1) { return self.intx(ar, n.a); }
                let mut a = self.iu(ar, n.a)?;
                if n.aux > 0 { let k = self.inum(1i128 << n.aux); a = unsafe { self.keep(Z3_mk_div(c, a, k)) }; }
                let m = self.inum(1i128 << w);
                let u = unsafe { self.keep(Z3_mk_mod(c, a, m)) };
                self.to_signed(ar, e, u)
            }
            O::Concat => {
                let a = self.iu(ar, n.a)?; let b = self.iu(ar, n.b)?; let k = self.inum(1i128 << ar.w(n.b));
                let a = self.i2(Z3_mk_mul, a, k);
                let u = self.i2(Z3_mk_add, a, b);
                self.to_signed(ar, e, u)
            }
            O::Ite => { let q = self.intb(ar, n.a)?; let a = self.intx(ar, n.b)?; let b = self.intx(ar, n.c)?; self.ii(q, a, b) }
            _ => return None,
        })
    }
    fn isym(&self, i: u32, w: u32) -> P { let s = CString::new(format!("i{}_{}", i, w)).unwrap(); unsafe { self.keep(Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, s.as_ptr()), self.isort)) } }
    fn intb(&mut self, ar: &Arena, e: E) -> Option<P> {
        if let Some(p) = self.ib.get(&e) { return *p; }
        let r = self.intb0(ar, e);
        self.ib.insert(e, r);
        r
    }
    fn intb0(&mut self, ar: &Arena, e: E) -> Option<P> {
        let n = ar.n[e as usize];
        let c = self.c;
        unsafe {
            let p = match n.op {
                O::Const => if n.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                O::And => { let v = [self.intb(ar, n.a)?, self.intb(ar, n.b)?]; Z3_mk_and(c, 2, v.as_ptr()) }
                O::Or => { let v = [self.intb(ar, n.a)?, self.intb(ar, n.b)?]; Z3_mk_or(c, 2, v.as_ptr()) }
                O::Xor => { let a = self.intb(ar, n.a)?; if ar.k(n.b) == Some(1) { Z3_mk_not(c, a) } else { let b = self.intb(ar, n.b)?; Z3_mk_xor(c, a, b) } }
                O::Ite => { let a = self.intb(ar, n.a)?; let b = self.intb(ar, n.b)?; let d = self.intb(ar, n.c)?; Z3_mk_ite(c, a, b, d) }
                O::Eq if ar.w(n.a) == 1 => { let a = self.intb(ar, n.a)?; let b = self.intb(ar, n.b)?; Z3_mk_eq(c, a, b) }
                O::Eq => { let a = self.intx(ar, n.a)?; let b = self.intx(ar, n.b)?; Z3_mk_eq(c, a, b) }
                O::Ult => { let a = self.iu(ar, n.a)?; let b = self.iu(ar, n.b)?; Z3_mk_lt(c, a, b) }
                O::Ule => { let a = self.iu(ar, n.a)?; let b = self.iu(ar, n.b)?; Z3_mk_le(c, a, b) }
                O::Slt => { let a = self.intx(ar, n.a)?; let b = self.intx(ar, n.b)?; Z3_mk_lt(c, a, b) }
                O::Sle => { let a = self.intx(ar, n.a)?; let b = self.intx(ar, n.b)?; Z3_mk_le(c, a, b) }
                O::Sym => {
                    let u = self.isym(n.aux, 1); let o = self.inum(1); let z = self.inum(0);
                    if !self.ibound.contains_key(&(n.aux, 1)) { let v = [self.keep(Z3_mk_le(c, z, u)), self.keep(Z3_mk_le(c, u, o))]; let b = self.keep(Z3_mk_and(c, 2, v.as_ptr())); self.ibound.insert((n.aux, 1), b); }
                    Z3_mk_eq(c, u, o)
                }
                O::Extract if n.aux + 1 == ar.w(n.a) => { let a = self.intx(ar, n.a)?; let z = self.inum(0); Z3_mk_lt(c, a, z) }
                O::Extract => { let a = self.iu(ar, n.a)?; let k = self.inum(1i128 << n.aux); let two = self.inum(2); let one = self.inum(1); let d = self.keep(Z3_mk_div(c, a, k)); let m = self.keep(Z3_mk_mod(c, d, two)); Z3_mk_eq(c, m, one) }
                _ => return None,
            };
            Some(self.keep(p))
        }
    }
    fn check_int(&mut self, ar: &Arena, cs: &[E], syms: &[(u32, u32)]) -> Option<Res> {
        if cs.iter().fold(0u8, |t, &e| t.saturating_add(self.has_arith(ar, e))) < 8 { return None; }
        let mut v = vec![];
        for &e in cs { v.push(self.intb(ar, e)?); }
        unsafe {
            let (c, s) = (self.c, self.si);
            Z3_solver_reset(c, s);
            for k in syms { if let Some(b) = self.ibound.get(k) { Z3_solver_assert(c, s, *b); } }
            for b in v { Z3_solver_assert(c, s, b); }
            match Z3_solver_check(c, s) {
                -1 => Some(Res::Unsat),
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut out = vec![];
                    for &(i, w) in syms {
                        let v = self.isym(i, w);
                        let mut r: P = std::ptr::null_mut();
                        Z3_model_eval(c, m, v, true, &mut r);
                        self.keep(r);
                        let st = CStr::from_ptr(Z3_get_numeral_string(c, r)).to_string_lossy().into_owned();
                        out.push((i, st.parse().unwrap_or(0)));
                    }
                    Z3_model_dec_ref(c, m);
                    Some(Res::Sat(out))
                }
                _ => None,
            }
        }
    }
    pub fn check(&mut self, ar: &Arena, cs: &[E], orig: &[E], syms: &[(u32, u32)]) -> Res {
        let mut fpq = false;
        for &e in cs { if self.fp(ar, e) { fpq = true; } }
        if !fpq {
            if let Some(r) = self.check_int(ar, orig, syms) {
                if self.xcheck && matches!(r, Res::Unsat) {
                    unsafe {
                        Z3_solver_reset(self.c, self.s3);
                        for &e in cs { let b = self.boolean(ar, e); Z3_solver_assert(self.c, self.s3, b); }
                        if Z3_solver_check(self.c, self.s3) == 1 { eprintln!("SOLVER MISMATCH integer/bit-vector"); std::process::exit(3); }
                    }
                }
                return r;
            }
        }
        let mut s = if fpq { self.sf } else { self.s };
        let c = self.c;
        unsafe {
            let verdict = if fpq {
                Z3_solver_reset(c, s);
                for &e in cs { let b = self.boolean(ar, e); Z3_solver_assert(c, s, b); }
                Z3_solver_check(c, s)
            } else {
                // every constraint is asserted once behind a literal; a query is a set of literals
                if self.lits.len() > self.lim { Z3_solver_reset(c, s); self.lits.clear(); }
                let mut asm: Vec<P> = Vec::with_capacity(cs.len());
                for &e in cs {
                    let l = match self.lits.get(&e) {
                        Some(&l) => l,
                        None => {
                            let b = self.boolean(ar, e);
                            let nm = CString::new(format!("l{}", e)).unwrap();
                            let l = self.keep(Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), Z3_mk_bool_sort(c)));
                            let imp = Z3_mk_implies(c, l, b);
                            Z3_inc_ref(c, imp);
                            Z3_solver_assert(c, s, imp);
                            Z3_dec_ref(c, imp);
                            self.lits.insert(e, l);
                            l
                        }
                    };
                    asm.push(l);
                }
                let v = Z3_solver_check_assumptions(c, s, asm.len() as c_uint, asm.as_ptr());
                if v != 0 { v } else {
                    // undecided within the resource limit: retry non-incrementally
                    s = self.s2;
                    Z3_solver_reset(c, s);
                    for &e in cs { let b = self.boolean(ar, e); Z3_solver_assert(c, s, b); }
                    Z3_solver_check(c, s)
                }
            };
            if self.xcheck && verdict != 0 && !fpq {
                Z3_solver_reset(c, self.s2);
                for &e in cs { let b = self.boolean(ar, e); Z3_solver_assert(c, self.s2, b); }
                let v2 = Z3_solver_check(c, self.s2);
                if v2 != 0 && v2 != verdict { eprintln!("asm {:?} SOLVER MISMATCH incremental={} fresh={}\n{}", cs, verdict, v2, CStr::from_ptr(Z3_solver_to_string(c, self.s2)).to_string_lossy()); std::process::exit(3); }
            }
            match verdict {
                -1 => Res::Unsat,
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut out = vec![];
                    for &(i, w) in syms {
                        let nm = CString::new(format!("s{}_{}", i, w)).unwrap();
                        let v = Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), Z3_mk_bv_sort(c, w));
                        self.keep(v);
                        let mut r: P = std::ptr::null_mut();
                        Z3_model_eval(c, m, v, true, &mut r);
                        self.keep(r);
                        let mut u = 0u64;
                        if Z3_get_numeral_uint64(c, r, &mut u) { out.push((i, u as u128)); }
                        else { let st = CStr::from_ptr(Z3_get_numeral_string(c, r)).to_string_lossy().into_owned(); out.push((i, st.parse().unwrap_or(0))); }
                    }
                    Z3_model_dec_ref(c, m);
                    Res::Sat(out)
                }
                _ => Res::Unknown,
            }
        }
    }
    pub fn smt2(&mut self, ar: &Arena, cs: &[E]) -> String {
        unsafe {
            let c = self.c;
            Z3_solver_reset(c, self.s2);
            for &e in cs { let b = self.boolean(ar, e); Z3_solver_assert(c, self.s2, b); }
            CStr::from_ptr(Z3_solver_to_string(c, self.s2)).to_string_lossy().into_owned()
        }
    }
}
