//! LLVM IR (textual) loader: the subset rustc 1.99 / LLVM 23 emits.
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Other(u32), // unsupported float kinds: byte size
    Arr(u64, TyId),
    Struct(Vec<TyId>, bool),
    Vec(u32, TyId),
    Label,
    Meta,
}

/// A runtime value. Scalars of width <= 64 are C, wider ones W; symbolic ones are E.
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    C(u64),
    W(u64, u64), // lo, hi
    E(u32),
    A(Rc<Vec<V>>),
}
impl V {
    pub fn from128(x: u128, w: u32) -> V {
        if w <= 64 { V::C(x as u64) } else { V::W(x as u64, (x >> 64) as u64) }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    C(V),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FPred { False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno, True }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast { Trunc, ZExt, SExt, PtrToInt, IntToPtr, Bitcast, FPToUI, FPToSI, UIToFP, SIToFP, FPExt, FPTrunc }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rmw { Xchg, Add, Sub, And, Or, Xor, Nand, Max, Min, UMax, UMin }

#[derive(Clone, Debug)]
pub enum Callee { Func(u32), Ext(u32), Ptr(Op), Asm }

#[derive(Clone, Debug)]
pub enum Ins {
    Bin(Bin, TyId, u32, Op, Op),
    FNeg(TyId, u32, Op),
    ICmp(Pred, TyId, u32, Op, Op),
    FCmp(FPred, TyId, u32, Op, Op),
    Select(TyId, u32, Op, TyId, Op, Op),
    Cast(Cast, TyId, TyId, u32, Op),
    Alloca(u32, u64, Option<(Op, TyId)>),
    Load(TyId, u32, Op),
    Store(TyId, Op, Op),
    Gep(u32, Op, i64, Vec<(Op, u32, u64)>),
    Call(u32, bool, TyId, Callee, Vec<(TyId, Op)>, Option<u32>),
    ExtractValue(u32, Op, Vec<u32>),
    InsertValue(u32, Op, Op, Vec<u32>, TyId),
    ExtractElement(u32, Op, Op),
    InsertElement(u32, Op, Op, Op),
    Shuffle(u32, Op, Op, Vec<i32>),
    Freeze(u32, Op),
    Rmw(Rmw, TyId, u32, Op, Op),
    CmpXchg(TyId, u32, Op, Op, Op),
    Nop,
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(TyId, Op, u32, Vec<(u128, u32)>),
    Ret(Option<Op>),
    Unreachable,
    Unsupported(String),
}

#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Op)>)>, // dst, (pred block, value)
    pub phi_by_pred: HashMap<u32, Vec<(u32, Op)>>,
    pub ins: Vec<Ins>,
    pub dbg: Vec<u32>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<TyId>,
    pub ret: TyId,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub defined: bool,
    pub body: (usize, usize),
    pub param_names: Vec<String>,
    pub noreturn: bool,
    pub subprogram: u32,
}

#[derive(Debug)]
pub struct Global {
    pub name: String,
    pub ty: TyId,
    pub constant: bool,
    pub init: Option<V>,
    pub external: bool,
    pub init_pos: usize,
}

pub struct Module {
    pub src: Vec<u8>,
    pub tys: Vec<Ty>,
    pub tymap: HashMap<Ty, TyId>,
    pub named: HashMap<String, TyId>,
    pub funcs: Vec<Func>,
    pub fmap: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub rel: Vec<u64>,
    pub gmap: HashMap<String, u32>,
    pub attrs_noreturn: HashMap<u32, bool>,
    pub md: HashMap<u32, (usize, usize)>,
    pub aliases: HashMap<String, String>,
}

/// Tokens standing for 32-bit relative references.
pub const REL: u64 = 0x5A00_0000;
pub const FUNC_BASE: u64 = 0x7f00_0000u64 << 32;
pub fn func_addr(i: u32) -> u64 { FUNC_BASE + 16 * (i as u64 + 1) }
pub fn global_addr(i: u32) -> u64 { (i as u64 + 16) << 32 }

struct P<'a> { s: &'a [u8], i: usize }

fn is_id(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }

impl<'a> P<'a> {
    fn ws(&mut self) {
        loop {
            while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t' || self.s[self.i] == b'\n' || self.s[self.i] == b'\r') { self.i += 1; }
            if self.i < self.s.len() && self.s[self.i] == b';' {
                while self.i < self.s.len() && self.s[self.i] != b'\n' { self.i += 1; }
            } else { break; }
        }
    }
    fn peek(&mut self) -> u8 { self.ws(); *self.s.get(self.i).unwrap_or(&0) }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t.as_bytes()) {
            let last = *t.as_bytes().last().unwrap();
            if is_id(last) {
                if let Some(&c) = self.s.get(self.i + t.len()) { if is_id(c) { return false; } }
            }
            self.i += t.len();
            true
        } else { false }
    }
    fn ex(&mut self, t: &str) {
        if !self.eat(t) { self.fail(&format!("expected `{}`", t)); }
    }
    fn fail(&self, m: &str) -> ! {
        let a = self.i.saturating_sub(200);
        let b = (self.i + 200).min(self.s.len());
        eprintln!("IR parse error: {} near:\n...{}<<<HERE>>>{}...", m, String::from_utf8_lossy(&self.s[a..self.i]), String::from_utf8_lossy(&self.s[self.i..b]));
        std::process::exit(3);
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && is_id(self.s[self.i]) { self.i += 1; }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    /// name after % or @ (quoted or not)
    fn name(&mut self) -> String {
        if self.s[self.i] == b'"' {
            self.i += 1;
            let st = self.i;
            while self.s[self.i] != b'"' { self.i += 1; }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
            self.i += 1;
            r
        } else {
            let st = self.i;
            while self.i < self.s.len() && is_id(self.s[self.i]) { self.i += 1; }
            String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
        }
    }
    fn uint(&mut self) -> u64 {
        self.ws();
        let st = self.i;
        while self.s[self.i].is_ascii_digit() { self.i += 1; }
        std::str::from_utf8(&self.s[st..self.i]).unwrap().parse().unwrap_or_else(|_| self.fail("uint"))
    }
    fn skip_parens(&mut self) {
        self.ws();
        if self.s[self.i] != b'(' { return; }
        let mut d = 0;
        loop {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => { d -= 1; if d == 0 { self.i += 1; return; } }
                b'"' => { self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn skip_line(&mut self) { while self.i < self.s.len() && self.s[self.i] != b'\n' { self.i += 1; } }
}

struct FnCtx {
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
}
impl FnCtx {
    fn reg(&mut self, n: String) -> u32 { let l = self.regs.len() as u32; *self.regs.entry(n).or_insert(l) }
    fn label(&mut self, n: String) -> u32 { let l = self.labels.len() as u32; *self.labels.entry(n).or_insert(l) }
}

impl Module {
    pub fn ty(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.tymap.get(&t) { return i; }
        let i = self.tys.len() as u32;
        self.tys.push(t.clone());
        self.tymap.insert(t, i);
        i
    }
    pub fn bits(&self, t: TyId) -> u32 {
        match &self.tys[t as usize] {
            Ty::Int(n) => *n, Ty::Ptr => 64, Ty::F32 => 32, Ty::F64 => 64,
            x => panic!("bits of {:?}", x),
        }
    }
    pub fn align(&self, t: TyId) -> u64 {
        match &self.tys[t as usize] {
            Ty::Int(n) => { let b = ((*n as u64) + 7) / 8; let b = b.next_power_of_two(); b.min(16) }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, e) => self.align(*e),
            Ty::Vec(n, e) => (*n as u64 * self.bits(*e) as u64 / 8).next_power_of_two().max(1),
            Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|x| self.align(*x)).max().unwrap_or(1) },
            Ty::Other(n) => *n as u64,
            x => panic!("align of {:?}", x),
        }
    }
    pub fn size(&self, t: TyId) -> u64 {
        match &self.tys[t as usize] {
            Ty::Void => 0,
            Ty::Int(n) => { let b = ((*n as u64) + 7) / 8; let a = self.align(t); (b + a - 1) / a * a }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Other(n) => *n as u64,
            Ty::Arr(n, e) => n * self.size(*e),
            Ty::Vec(n, e) => (*n as u64 * self.bits(*e) as u64 + 7) / 8,
            Ty::Struct(f, p) => {
                let mut o = 0;
                for x in f { if !*p { let a = self.align(*x); o = (o + a - 1) / a * a; } o += self.size(*x); }
                if !*p { let a = self.align(t); o = (o + a - 1) / a * a; }
                o
            }
            x => panic!("size of {:?}", x),
        }
    }
    pub fn store_size(&self, t: TyId) -> u64 {
        match &self.tys[t as usize] { Ty::Int(n) => (*n as u64 + 7) / 8, _ => self.size(t) }
    }
    pub fn field_off(&self, t: TyId, i: usize) -> u64 {
        match &self.tys[t as usize] {
            Ty::Struct(f, p) => {
                let mut o = 0;
                for (k, x) in f.iter().enumerate() {
                    if !*p { let a = self.align(*x); o = (o + a - 1) / a * a; }
                    if k == i { return o; }
                    o += self.size(*x);
                }
                panic!()
            }
            Ty::Arr(_, e) => self.size(*e) * i as u64,
            Ty::Vec(_, e) => (self.bits(*e) as u64 / 8) * i as u64,
            _ => panic!(),
        }
    }
    pub fn elem(&self, t: TyId, i: usize) -> TyId {
        match &self.tys[t as usize] { Ty::Struct(f, _) => f[i], Ty::Arr(_, e) | Ty::Vec(_, e) => *e, x => panic!("elem {:?}", x) }
    }

    fn try_type(&mut self, p: &mut P) -> Option<TyId> {
        p.ws();
        let c = p.s[p.i];
        let base = match c {
            b'i' if p.s[p.i + 1].is_ascii_digit() => {
                p.i += 1; let n = p.uint() as u32; self.ty(Ty::Int(n))
            }
            b'[' => {
                p.i += 1; let n = p.uint(); p.ex("x"); let e = self.parse_type(p); p.ex("]"); self.ty(Ty::Arr(n, e))
            }
            b'{' => {
                p.i += 1; let mut f = vec![];
                if !p.eat("}") { loop { f.push(self.parse_type(p)); if p.eat("}") { break; } p.ex(","); } }
                self.ty(Ty::Struct(f, false))
            }
            b'<' => {
                p.i += 1;
                if p.peek() == b'{' {
                    p.i += 1; let mut f = vec![];
                    if !p.eat("}") { loop { f.push(self.parse_type(p)); if p.eat("}") { break; } p.ex(","); } }
                    p.ex(">"); self.ty(Ty::Struct(f, true))
                } else { let n = p.uint() as u32; p.ex("x"); let e = self.parse_type(p); p.ex(">"); self.ty(Ty::Vec(n, e)) }
            }
            b'%' => {
                let sv = p.i; p.i += 1; let n = p.name();
                match self.named.get(&n) { Some(&t) => t, None => { p.i = sv; return None; } }
            }
            _ => {
                let sv = p.i;
                match p.word() {
                    "void" => self.ty(Ty::Void),
                    "ptr" => { if p.peek() == b'a' && p.eat("addrspace") { p.skip_parens(); } self.ty(Ty::Ptr) }
                    "float" => self.ty(Ty::F32),
                    "double" => self.ty(Ty::F64),
                    "half" => self.ty(Ty::Other(2)),
                    "fp128" => self.ty(Ty::Other(16)),
                    "x86_fp80" => self.ty(Ty::Other(16)),
                    "label" => self.ty(Ty::Label),
                    "metadata" => self.ty(Ty::Meta),
                    _ => { p.i = sv; return None; }
                }
            }
        };
        Some(base)
    }
    fn parse_type(&mut self, p: &mut P) -> TyId {
        match self.try_type(p) { Some(t) => t, None => p.fail("type") }
    }
    /// skip parameter / return attributes
    fn skip_attrs(&mut self, p: &mut P) {
        loop {
            p.ws();
            let c = p.s[p.i];
            if c == b'#' { p.i += 1; p.word(); continue; }
            if c == b'"' {
                p.i += 1; while p.s[p.i] != b'"' { p.i += 1; } p.i += 1;
                if p.s[p.i] == b'=' { p.i += 2; while p.s[p.i] != b'"' { p.i += 1; } p.i += 1; }
                continue;
            }
            if !c.is_ascii_lowercase() { return; }
            let sv = p.i;
            let w = p.word();
            match w {
                "noundef" | "nonnull" | "noalias" | "nocapture" | "readonly" | "writeonly" | "readnone" | "zeroext" | "signext" | "inreg"
                | "returned" | "nofree" | "dead_on_unwind" | "writable" | "swiftself" | "immarg" | "allocptr" | "allocalign" | "noext" | "nest"
                | "unnamed_addr" | "local_unnamed_addr" | "dso_local" | "nofpclass" | "captures" | "range" | "dereferenceable"
                | "dereferenceable_or_null" | "initializes" | "byval" | "sret" | "elementtype" | "dead_on_return" | "inalloca" | "byref" | "preallocated"
                | "nounwind" | "noreturn" | "cold" | "nosync" | "willreturn" | "noundef_" | "memory" | "alwaysinline" | "noinline" => {
                    if p.s[p.i] == b'(' { p.skip_parens(); }
                }
                "align" | "alignstack" => { if p.s[p.i] == b'(' { p.skip_parens(); } else { p.uint(); } }
                _ => { p.i = sv; return; }
            }
        }
    }

    fn zero_of(&self, t: TyId) -> V {
        match &self.tys[t as usize] {
            Ty::Int(n) if *n > 64 => V::W(0, 0),
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => V::C(0),
            Ty::Other(n) => if *n > 8 { V::W(0, 0) } else { V::C(0) },
            Ty::Arr(n, e) => { let z = self.zero_of(*e); V::A(Rc::new(vec![z; *n as usize])) }
            Ty::Vec(n, e) => { let z = self.zero_of(*e); V::A(Rc::new(vec![z; *n as usize])) }
            Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(|x| self.zero_of(*x)).collect())),
            _ => V::C(0),
        }
    }

    fn sym_addr(&mut self, p: &P, n: &str) -> u64 {
        if let Some(&g) = self.gmap.get(n) { return global_addr(g); }
        if let Some(&f) = self.fmap.get(n) { return func_addr(f); }
        if let Some(a) = self.aliases.get(n).cloned() { return self.sym_addr(p, &a); }
        p.fail(&format!("unknown global @{}", n))
    }

    fn parse_const(&mut self, p: &mut P, t: TyId) -> V {
        p.ws();
        let c = p.s[p.i];
        let ty = self.tys[t as usize].clone();
        match c {
            b'@' => { p.i += 1; let n = p.name(); return V::C(self.sym_addr(p, &n)); }
            b'c' if p.s[p.i + 1] == b'"' => {
                p.i += 2;
                let mut v = vec![];
                while p.s[p.i] != b'"' {
                    if p.s[p.i] == b'\\' && p.s[p.i + 1] == b'\\' { v.push(V::C(0x5c)); p.i += 2; }
                    else if p.s[p.i] == b'\\' {
                        let h = std::str::from_utf8(&p.s[p.i + 1..p.i + 3]).unwrap();
                        v.push(V::C(u8::from_str_radix(h, 16).unwrap() as u64)); p.i += 3;
                    } else { v.push(V::C(p.s[p.i] as u64)); p.i += 1; }
                }
                p.i += 1;
                return V::A(Rc::new(v));
            }
            b'[' | b'{' => {
                let close = if c == b'[' { "]" } else { "}" };
                p.i += 1;
                let mut v = vec![];
                if !p.eat(close) { loop { let et = self.parse_type(p); v.push(self.parse_const(p, et)); if p.eat(close) { break; } p.ex(","); } }
                return V::A(Rc::new(v));
            }
            b'<' => {
                p.i += 1;
                let packed = p.peek() == b'{';
                if packed { p.i += 1; }
                let close = if packed { "}" } else { ">" };
                let mut v = vec![];
                if !p.eat(close) { loop { let et = self.parse_type(p); v.push(self.parse_const(p, et)); if p.eat(close) { break; } p.ex(","); } }
                if packed { p.ex(">"); }
                return V::A(Rc::new(v));
            }
            _ => {}
        }
        if c == b'-' || c == b'+' || c.is_ascii_digit() {
            let st = p.i;
            p.i += 1;
            while p.i < p.s.len() && (is_id(p.s[p.i]) || p.s[p.i] == b'+') { p.i += 1; }
            let w = std::str::from_utf8(&p.s[st..p.i]).unwrap();
            if (w == "-nan" || w == "+nan" || w == "+snan" || w == "-snan") && p.s[p.i] == b'(' {
                let k = p.i + 3; // past (0x
                while p.s[p.i] != b')' { p.i += 1; }
                let pl = u64::from_str_radix(std::str::from_utf8(&p.s[k..p.i]).unwrap(), 16).unwrap();
                p.i += 1;
                let q = if w.ends_with("snan") { 0u64 } else { 1 };
                let sg = w.starts_with('-') as u64;
                return V::C(if ty == Ty::F32 { sg << 31 | 0xff << 23 | q << 22 | pl } else { sg << 63 | 0x7ff << 52 | q << 51 | pl });
            }
            return match ty {
                Ty::Int(n) => {
                    let x: u128 = if let Some(r) = w.strip_prefix('-') { (r.parse::<u128>().unwrap_or_else(|_| p.fail("int"))).wrapping_neg() } else { w.parse().unwrap_or_else(|_| p.fail("int")) };
                    let x = if n < 128 { x & ((1u128 << n) - 1) } else { x };
                    V::from128(x, n)
                }
                Ty::F32 | Ty::F64 => {
                    let f32t = ty == Ty::F32;
                    let d: f64 = match w {
                        "+inf" => f64::INFINITY, "-inf" => f64::NEG_INFINITY,
                        "+qnan" => f64::NAN, "-qnan" => -f64::NAN,
                        _ if w.starts_with("0x") => f64::from_bits(u64::from_str_radix(&w[2..], 16).unwrap_or_else(|_| p.fail("hexfloat"))),
                        _ => w.parse().unwrap_or_else(|_| p.fail("float")),
                    };
                    if f32t { V::C((d as f32).to_bits() as u64) } else { V::C(d.to_bits()) }
                }
                _ => V::C(0),
            };
        }
        let w = p.word();
        match w {
            "true" => V::C(1),
            "false" => V::C(0),
            "null" | "undef" | "poison" | "zeroinitializer" | "none" => self.zero_of(t),
            // hexadecimal float in its own width
            _ if w.starts_with("f0x") => V::C(u64::from_str_radix(&w[3..], 16).unwrap_or_else(|_| p.fail("f0x float"))),
            "splat" => {
                p.ex("("); let et = self.parse_type(p); let v = self.parse_const(p, et); p.ex(")");
                let n = match ty { Ty::Vec(n, _) => n, _ => p.fail("splat") };
                V::A(Rc::new(vec![v; n as usize]))
            }
            "getelementptr" => {
                loop { if p.eat("inbounds") || p.eat("nuw") || p.eat("nusw") { continue; } if p.eat("inrange") { p.skip_parens(); continue; } break; }
                p.ex("(");
                let bt = self.parse_type(p);
                p.ex(",");
                let pt = self.parse_type(p);
                let base = self.parse_const(p, pt);
                let mut off = 0i64;
                let mut cur = bt;
                let mut first = true;
                while p.eat(",") {
                    let it = self.parse_type(p);
                    let iv = self.parse_const(p, it);
                    let w = self.bits(it);
                    let idx = match iv { V::C(x) => sext(x as u128, w) as i64, _ => p.fail("gep idx") };
                    if first { off += idx * self.size(bt) as i64; first = false; }
                    else {
                        match self.tys[cur as usize].clone() {
                            Ty::Struct(f, _) => { off += self.field_off(cur, idx as usize) as i64; cur = f[idx as usize]; }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => { off += idx * self.size(e) as i64; cur = e; }
                            _ => p.fail("gep"),
                        }
                    }
                }
                p.ex(")");
                match base { V::C(b) => V::C(b.wrapping_add(off as u64)), _ => p.fail("gep base") }
            }
            "ptrtoint" | "inttoptr" | "trunc" | "bitcast" | "zext" | "sext" | "addrspacecast" => {
                p.ex("("); let ft = self.parse_type(p); let v = self.parse_const(p, ft); p.ex("to"); let tt = self.parse_type(p); p.ex(")");
                let tb = self.bits(tt);
                // a relative reference between two objects does not fit 32 bits of these addresses: kept aside
                if let V::C(x) = v { if w == "trunc" && tb == 32 && x as i64 != x as i32 as i64 { self.rel.push(x); return V::C(REL + self.rel.len() as u64 - 1); } }
                match v { V::C(x) => V::C(if tb < 64 { x & ((1u64 << tb) - 1) } else { x }), o => o }
            }
            "add" | "sub" | "xor" | "and" | "or" | "mul" => {
                while p.eat("nuw") || p.eat("nsw") {}
                p.ex("("); let at = self.parse_type(p); let a = self.parse_const(p, at); p.ex(","); let bt = self.parse_type(p); let b = self.parse_const(p, bt); p.ex(")");
                match (a, b) {
                    (V::C(a), V::C(b)) => {
                        let r = match w { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), "xor" => a ^ b, "and" => a & b, "or" => a | b, _ => a.wrapping_mul(b) };
                        let n = self.bits(at);
                        V::C(if n < 64 { r & ((1u64 << n) - 1) } else { r })
                    }
                    _ => p.fail("const binop"),
                }
            }
            _ => p.fail(&format!("constant `{}`", w)),
        }
    }

    fn operand(&mut self, p: &mut P, t: TyId, fc: &mut FnCtx) -> Op {
        p.ws();
        if p.s[p.i] == b'%' { p.i += 1; let n = p.name(); return Op::R(fc.reg(n)); }
        if self.tys[t as usize] == Ty::Meta {
            // metadata operand: skip to , or )
            let mut d = 0;
            loop { match p.s[p.i] { b'(' => d += 1, b')' => { if d == 0 { break; } d -= 1; } b',' if d == 0 => break, _ => {} } p.i += 1; }
            return Op::C(V::C(0));
        }
        Op::C(self.parse_const(p, t))
    }

    pub fn load(src: Vec<u8>) -> Module {
        let mut m = Module { src: vec![], tys: vec![], tymap: HashMap::new(), named: HashMap::new(), funcs: vec![], fmap: HashMap::new(), globals: vec![], gmap: HashMap::new(), attrs_noreturn: HashMap::new(), md: HashMap::new(), aliases: HashMap::new(), rel: vec![] };
        let s: &[u8] = &src;
        // pass 1: line scan
        let mut i = 0;
        let n = s.len();
        while i < n {
            let e = s[i..].iter().position(|&c| c == b'\n').map(|k| i + k).unwrap_or(n);
            let line = &s[i..e];
            if line.starts_with(b"@") {
                let mut p = P { s, i: i + 1 };
                let name = p.name();
                p.ex("=");
                let mut external = false;
                let constant;
                let mut alias = false;
                loop {
                    let w = p.word();
                    match w {
                        "constant" => { constant = true; break; }
                        "global" => { constant = false; break; }
                        "alias" => { alias = true; constant = true; break; }
                        "external" | "extern_weak" => external = true,
                        "thread_local" | "addrspace" => { if p.s[p.i] == b'(' { p.skip_parens(); } }
                        "" => p.fail("global"),
                        _ => {}
                    }
                }
                if alias {
                    let txt = String::from_utf8_lossy(&s[p.i..e]).into_owned();
                    let k = txt.find('@').unwrap_or_else(|| p.fail("alias"));
                    let t: String = txt[k + 1..].chars().take_while(|c| is_id(*c as u8)).collect();
                    m.aliases.insert(name, t);
                } else {
                    let ty = m.parse_type(&mut p);
                    let id = m.globals.len() as u32;
                    m.gmap.insert(name.clone(), id);
                    m.globals.push(Global { name, ty, constant, init: None, external, init_pos: p.i });
                }
            } else if line.starts_with(b"define") || line.starts_with(b"declare") {
                let defined = line.starts_with(b"define");
                let mut p = P { s, i };
                p.word();
                // linkage, cc, attrs until type
                let ret;
                loop {
                    m.skip_attrs(&mut p);
                    let sv = p.i;
                    if let Some(t) = m.try_type(&mut p) { ret = t; break; }
                    p.i = sv;
                    let w = p.word();
                    if w.is_empty() { p.fail("define"); }
                    if p.s[p.i] == b'(' { p.skip_parens(); }
                }
                p.ws();
                if p.s[p.i] != b'@' { p.fail("function name"); }
                p.i += 1;
                let name = p.name();
                p.ex("(");
                let mut params = vec![];
                let mut pnames = vec![];
                if !p.eat(")") {
                    loop {
                        if p.eat("...") { p.ex(")"); break; }
                        let t = m.parse_type(&mut p);
                        m.skip_attrs(&mut p);
                        params.push(t);
                        p.ws();
                        if p.s[p.i] == b'%' { p.i += 1; pnames.push(p.name()); } else { pnames.push(format!("{}", params.len() - 1)); }
                        if p.eat(")") { break; }
                        p.ex(",");
                    }
                }
                let sub = find_dbg(&s[p.i..e]);
                let id = m.funcs.len() as u32;
                let (b0, b1);
                if defined {
                    b0 = e + 1;
                    let mut k = e + 1;
                    loop {
                        let le = s[k..].iter().position(|&c| c == b'\n').map(|q| k + q).unwrap_or(n);
                        if s[k] == b'}' { break; }
                        k = le + 1;
                    }
                    b1 = k;
                } else { b0 = 0; b1 = 0; }
                m.fmap.insert(name.clone(), id);
                m.funcs.push(Func { name, params, ret, nregs: 0, blocks: vec![], defined, body: (b0, b1), param_names: pnames, noreturn: false, subprogram: sub });
                if defined { i = b1; continue; }
            } else if line.starts_with(b"%") {
                let mut p = P { s, i: i + 1 };
                let name = p.name();
                p.ex("="); p.ex("type");
                if !p.eat("opaque") { let t = m.parse_type(&mut p); m.named.insert(name, t); }
            } else if line.starts_with(b"!") && line.len() > 1 && line[1].is_ascii_digit() {
                let mut k = 1;
                let mut num = 0u32;
                while k < line.len() && line[k].is_ascii_digit() { num = num * 10 + (line[k] - b'0') as u32; k += 1; }
                m.md.insert(num, (i, e));
            }
            i = e + 1;
        }
        // pass 2: global initialisers
        for g in 0..m.globals.len() {
            if m.globals[g].external { continue; }
            let mut p = P { s, i: m.globals[g].init_pos };
            let t = m.globals[g].ty;
            let v = m.parse_const(&mut p, t);
            m.globals[g].init = Some(v);
        }
        m.src = src;
        m
    }

    /// Parse a function's body on demand.
    pub fn ensure_body(&mut self, f: u32) {
        if !self.funcs[f as usize].blocks.is_empty() || !self.funcs[f as usize].defined { return; }
        let (b0, b1) = self.funcs[f as usize].body;
        let src = std::mem::take(&mut self.src);
        let mut fc = FnCtx { regs: HashMap::new(), labels: HashMap::new() };
        for n in self.funcs[f as usize].param_names.clone() { fc.reg(n); }
        let nparams = self.funcs[f as usize].param_names.iter().filter(|n| n.bytes().all(|c| c.is_ascii_digit())).count();
        let mut blocks: Vec<(u32, Block)> = vec![];
        let body = &src[b0..b1];
        let mut p = P { s: body, i: 0 };
        // entry label
        let mut cur_label: Option<u32> = None;
        let mut cur = Block::default();
        loop {
            p.ws();
            if p.i >= p.s.len() { break; }
            // label?
            let sv = p.i;
            let is_label = {
                if p.s[p.i] == b'"' {
                    let mut k = p.i + 1; while p.s[k] != b'"' { k += 1; }
                    p.s.get(k + 1) == Some(&b':')
                } else {
                    let mut k = p.i; while k < p.s.len() && is_id(p.s[k]) { k += 1; }
                    k > p.i && p.s.get(k) == Some(&b':')
                }
            };
            if is_label {
                let nme = p.name();
                p.i += 1;
                if let Some(l) = cur_label { blocks.push((l, std::mem::take(&mut cur))); }
                cur_label = Some(fc.label(nme));
                continue;
            }
            p.i = sv;
            if cur_label.is_none() {
                // implicit entry label: numbered nparams (only if params are numbered)
                cur_label = Some(fc.label(format!("{}", nparams)));
            }
            self.instr(&mut p, &mut fc, &mut cur);
            let start = sv;
            let mut d = 0;
            // !dbg on the text of this instruction (instruction text never spans the next line start except switch/landingpad)
            let txt = &p.s[start..p.i];
            if let Some(k) = find_sub(txt, b"!dbg !") { let mut q = k + 6; while q < txt.len() && txt[q].is_ascii_digit() { d = d * 10 + (txt[q] - b'0') as u32; q += 1; } }
            while cur.dbg.len() < cur.ins.len() { cur.dbg.push(d); }
        }
        if let Some(l) = cur_label { blocks.push((l, cur)); }
        let nb = fc.labels.len();
        let mut out: Vec<Block> = (0..nb).map(|_| Block::default()).collect();
        // entry block must be index 0: remap
        let entry = blocks[0].0;
        let remap = |x: u32| if x == entry { 0 } else if x < entry { x + 1 } else { x };
        for (l, mut b) in blocks {
            for i in b.ins.iter_mut() {
                match i {
                    Ins::Br(t) => *t = remap(*t),
                    Ins::CondBr(_, a, c) => { *a = remap(*a); *c = remap(*c); }
                    Ins::Switch(_, _, d, cs) => { *d = remap(*d); for c in cs.iter_mut() { c.1 = remap(c.1); } }
                    Ins::Call(_, _, _, _, _, Some(nrm)) => *nrm = remap(*nrm),
                    _ => {}
                }
            }
            for (d, inc) in b.phis.iter() {
                for (pb, v) in inc { b.phi_by_pred.entry(remap(*pb)).or_default().push((*d, v.clone())); }
            }
            out[remap(l) as usize] = b;
        }
        let fun = &mut self.funcs[f as usize];
        fun.nregs = fc.regs.len() as u32;
        fun.blocks = out;
        self.src = src;
    }

    fn tv(&mut self, p: &mut P, fc: &mut FnCtx) -> (TyId, Op) {
        let t = self.parse_type(p);
        self.skip_attrs(p);
        let o = self.operand(p, t, fc);
        (t, o)
    }
    fn lab(&mut self, p: &mut P, fc: &mut FnCtx) -> u32 {
        p.ex("label"); p.ws();
        if p.s[p.i] != b'%' { p.fail("label"); }
        p.i += 1;
        let n = p.name();
        fc.label(n)
    }

    fn instr(&mut self, p: &mut P, fc: &mut FnCtx, b: &mut Block) {
        let start = p.i;
        let mut dst = u32::MAX;
        let mut has_dst = false;
        if p.s[p.i] == b'%' {
            p.i += 1;
            let n = p.name();
            dst = fc.reg(n);
            has_dst = true;
            p.ex("=");
        }
        let mut w = p.word();
        if w == "tail" || w == "musttail" || w == "notail" { w = p.word(); }
        let flags = |p: &mut P| loop {
            if p.eat("nuw") || p.eat("nsw") || p.eat("exact") || p.eat("disjoint") || p.eat("nneg") || p.eat("samesign") || p.eat("fast") || p.eat("nnan") || p.eat("ninf") || p.eat("nsz") || p.eat("arcp") || p.eat("contract") || p.eat("afn") || p.eat("reassoc") || p.eat("inbounds") || p.eat("nusw") { continue; }
            break;
        };
        macro_rules! bin { ($k:expr) => {{ flags(p); let (t, a) = self.tv(p, fc); p.ex(","); let c = self.operand(p, t, fc); b.ins.push(Ins::Bin($k, t, dst, a, c)); }} }
        macro_rules! cast { ($k:expr) => {{ flags(p); let (t, a) = self.tv(p, fc); p.ex("to"); let t2 = self.parse_type(p); b.ins.push(Ins::Cast($k, t, t2, dst, a)); }} }
        match w {
            "add" => bin!(Bin::Add), "sub" => bin!(Bin::Sub), "mul" => bin!(Bin::Mul), "udiv" => bin!(Bin::UDiv), "sdiv" => bin!(Bin::SDiv),
            "urem" => bin!(Bin::URem), "srem" => bin!(Bin::SRem), "and" => bin!(Bin::And), "or" => bin!(Bin::Or), "xor" => bin!(Bin::Xor),
            "shl" => bin!(Bin::Shl), "lshr" => bin!(Bin::LShr), "ashr" => bin!(Bin::AShr),
            "fadd" => bin!(Bin::FAdd), "fsub" => bin!(Bin::FSub), "fmul" => bin!(Bin::FMul), "fdiv" => bin!(Bin::FDiv), "frem" => bin!(Bin::FRem),
            "trunc" => cast!(Cast::Trunc), "zext" => cast!(Cast::ZExt), "sext" => cast!(Cast::SExt), "ptrtoint" | "ptrtoaddr" => cast!(Cast::PtrToInt), "inttoptr" => cast!(Cast::IntToPtr),
            "bitcast" => cast!(Cast::Bitcast), "fptoui" => cast!(Cast::FPToUI), "fptosi" => cast!(Cast::FPToSI), "uitofp" => cast!(Cast::UIToFP), "sitofp" => cast!(Cast::SIToFP),
            "fpext" => cast!(Cast::FPExt), "fptrunc" => cast!(Cast::FPTrunc),
            "fneg" => { flags(p); let (t, a) = self.tv(p, fc); b.ins.push(Ins::FNeg(t, dst, a)); }
            "icmp" => {
                flags(p);
                let pr = match p.word() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, _ => p.fail("icmp") };
                let (t, a) = self.tv(p, fc); p.ex(","); let c = self.operand(p, t, fc);
                b.ins.push(Ins::ICmp(pr, t, dst, a, c));
            }
            "fcmp" => {
                flags(p);
                let pr = match p.word() { "false" => FPred::False, "oeq" => FPred::Oeq, "ogt" => FPred::Ogt, "oge" => FPred::Oge, "olt" => FPred::Olt, "ole" => FPred::Ole, "one" => FPred::One, "ord" => FPred::Ord, "ueq" => FPred::Ueq, "ugt" => FPred::Ugt, "uge" => FPred::Uge, "ult" => FPred::Ult, "ule" => FPred::Ule, "une" => FPred::Une, "uno" => FPred::Uno, "true" => FPred::True, _ => p.fail("fcmp") };
                let (t, a) = self.tv(p, fc); p.ex(","); let c = self.operand(p, t, fc);
                b.ins.push(Ins::FCmp(pr, t, dst, a, c));
            }
            "select" => {
                flags(p);
                let (ct, c) = self.tv(p, fc); p.ex(","); let (t, x) = self.tv(p, fc); p.ex(","); let (_, y) = self.tv(p, fc);
                b.ins.push(Ins::Select(ct, dst, c, t, x, y));
            }
            "phi" => {
                flags(p);
                let t = self.parse_type(p);
                let mut inc = vec![];
                loop {
                    p.ex("[");
                    let v = self.operand(p, t, fc);
                    p.ex(","); p.ws();
                    if p.s[p.i] != b'%' { p.fail("phi label"); }
                    p.i += 1;
                    let l = p.name();
                    let l = fc.label(l);
                    p.ex("]");
                    inc.push((l, v));
                    p.ws();
                    if p.s[p.i] == b',' { let sv = p.i; p.i += 1; if p.peek() == b'[' { continue; } p.i = sv; }
                    break;
                }
                b.phis.push((dst, inc));
            }
            "br" => {
                if p.peek() == b'l' { let l = self.lab(p, fc); b.ins.push(Ins::Br(l)); }
                else { let (_, c) = self.tv(p, fc); p.ex(","); let l1 = self.lab(p, fc); p.ex(","); let l2 = self.lab(p, fc); b.ins.push(Ins::CondBr(c, l1, l2)); }
            }
            "switch" => {
                let (t, v) = self.tv(p, fc); p.ex(","); let d = self.lab(p, fc); p.ex("[");
                let mut cs = vec![];
                while !p.eat("]") {
                    let ct = self.parse_type(p);
                    let c = self.parse_const(p, ct);
                    p.ex(",");
                    let l = self.lab(p, fc);
                    let k = match c { V::C(x) => x as u128, V::W(a, h) => a as u128 | (h as u128) << 64, _ => p.fail("case") };
                    cs.push((k, l));
                }
                b.ins.push(Ins::Switch(t, v, d, cs));
            }
            "ret" => {
                let t = self.parse_type(p);
                if self.tys[t as usize] == Ty::Void { b.ins.push(Ins::Ret(None)); } else { let o = self.operand(p, t, fc); b.ins.push(Ins::Ret(Some(o))); }
            }
            "unreachable" => b.ins.push(Ins::Unreachable),
            "alloca" => {
                let t = self.parse_type(p);
                let sz = self.size(t);
                let mut cnt = None;
                let sv = p.i;
                if p.eat(",") { if let Some(ct) = self.try_type(p) { let o = self.operand(p, ct, fc); cnt = Some((o, ct)); } else { p.i = sv; } }
                b.ins.push(Ins::Alloca(dst, sz, cnt));
            }
            "load" => {
                while p.eat("atomic") || p.eat("volatile") {}
                let t = self.parse_type(p); p.ex(","); let (_, a) = self.tv(p, fc);
                b.ins.push(Ins::Load(t, dst, a));
            }
            "store" => {
                while p.eat("atomic") || p.eat("volatile") {}
                let (t, v) = self.tv(p, fc); p.ex(","); let (_, a) = self.tv(p, fc);
                b.ins.push(Ins::Store(t, v, a));
            }
            "getelementptr" => {
                flags(p);
                let bt = self.parse_type(p); p.ex(","); let (_, base) = self.tv(p, fc);
                let mut off = 0i64;
                let mut dynv = vec![];
                let mut cur = bt;
                let mut first = true;
                loop {
                    p.ws();
                    if p.s[p.i] != b',' { break; }
                    let sv = p.i;
                    p.i += 1;
                    if p.peek() == b'!' { p.i = sv; break; }
                    let (it, iv) = self.tv(p, fc);
                    let iw = self.bits(it);
                    let scale;
                    if first { scale = self.size(bt); first = false; }
                    else {
                        match self.tys[cur as usize].clone() {
                            Ty::Struct(f, _) => {
                                let k = match &iv { Op::C(V::C(x)) => *x as usize, _ => p.fail("struct idx") };
                                off += self.field_off(cur, k) as i64; cur = f[k]; continue;
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => { scale = self.size(e); cur = e; }
                            _ => p.fail("gep"),
                        }
                    }
                    match iv {
                        Op::C(V::C(x)) => off = off.wrapping_add((sext(x as u128, iw) as i64).wrapping_mul(scale as i64)),
                        o => dynv.push((o, iw, scale)),
                    }
                }
                b.ins.push(Ins::Gep(dst, base, off, dynv));
            }
            "call" | "invoke" => {
                flags(p);
                // cc + ret attrs
                let rt;
                loop {
                    self.skip_attrs(p);
                    let sv = p.i;
                    if let Some(t) = self.try_type(p) { rt = t; break; }
                    p.i = sv;
                    let w2 = p.word();
                    if w2.is_empty() { p.fail("call type"); }
                    if p.s[p.i] == b'(' { p.skip_parens(); }
                }
                p.ws();
                // optional function type "(...)"
                if p.s[p.i] == b'(' { p.skip_parens(); p.ws(); }
                let mut callee = Callee::Asm;
                if p.s[p.i] == b'@' {
                    p.i += 1;
                    let n = p.name();
                    let n = self.aliases.get(&n).cloned().unwrap_or(n);
                    match self.fmap.get(&n) { Some(&f) => callee = if self.funcs[f as usize].defined { Callee::Func(f) } else { Callee::Ext(f) }, None => p.fail("callee") }
                } else if p.s[p.i] == b'%' { p.i += 1; let n = p.name(); callee = Callee::Ptr(Op::R(fc.reg(n))); }
                else if p.eat("asm") {
                    while p.eat("sideeffect") || p.eat("alignstack") || p.eat("inteldialect") || p.eat("unwind") {}
                    for _ in 0..2 { p.ws(); if p.s[p.i] == b',' { p.i += 1; p.ws(); } p.i += 1; while p.s[p.i] != b'"' { p.i += 1; } p.i += 1; }
                } else {
                    let pt = self.ty(Ty::Ptr);
                    let c = self.parse_const(p, pt);
                    callee = Callee::Ptr(Op::C(c));
                }
                p.ex("(");
                let mut args = vec![];
                if !p.eat(")") { loop { let (t, o) = self.tv(p, fc); args.push((t, o)); if p.eat(")") { break; } p.ex(","); } }
                let mut normal = None;
                // fn attrs
                loop {
                    p.ws();
                    if p.i >= p.s.len() { break; }
                    if p.s[p.i] == b'#' { p.i += 1; p.word(); continue; }
                    if p.s[p.i] == b'[' { let mut d = 0; loop { match p.s[p.i] { b'[' => d += 1, b']' => { d -= 1; if d == 0 { p.i += 1; break; } } _ => {} } p.i += 1; } continue; }
                    break;
                }
                if w == "invoke" {
                    // "to label %x unwind label %y"
                    loop { if p.eat("to") { break; } p.word(); if p.s[p.i] == b'(' { p.skip_parens(); } }
                    let l = self.lab(p, fc);
                    p.ex("unwind");
                    let _ = self.lab(p, fc);
                    normal = Some(l);
                }
                b.ins.push(Ins::Call(dst, has_dst, rt, callee, args, normal));
            }
            "extractvalue" => {
                let (_, a) = self.tv(p, fc);
                let mut ix = vec![];
                loop { p.ws(); if p.s[p.i] != b',' { break; } let sv = p.i; p.i += 1; p.ws(); if !p.s[p.i].is_ascii_digit() { p.i = sv; break; } ix.push(p.uint() as u32); }
                b.ins.push(Ins::ExtractValue(dst, a, ix));
            }
            "insertvalue" => {
                let (t, a) = self.tv(p, fc); p.ex(","); let (_, v) = self.tv(p, fc);
                let mut ix = vec![];
                loop { p.ws(); if p.s[p.i] != b',' { break; } let sv = p.i; p.i += 1; p.ws(); if !p.s[p.i].is_ascii_digit() { p.i = sv; break; } ix.push(p.uint() as u32); }
                b.ins.push(Ins::InsertValue(dst, a, v, ix, t));
            }
            "extractelement" => { let (_, a) = self.tv(p, fc); p.ex(","); let (_, i) = self.tv(p, fc); b.ins.push(Ins::ExtractElement(dst, a, i)); }
            "insertelement" => { let (_, a) = self.tv(p, fc); p.ex(","); let (_, v) = self.tv(p, fc); p.ex(","); let (_, i) = self.tv(p, fc); b.ins.push(Ins::InsertElement(dst, a, v, i)); }
            "shufflevector" => {
                let (_, a) = self.tv(p, fc); p.ex(","); let (_, c) = self.tv(p, fc); p.ex(","); let (mt, mk) = self.tv(p, fc);
                let n = match self.tys[mt as usize] { Ty::Vec(n, _) => n, _ => p.fail("shuffle") };
                let mask = match mk { Op::C(V::A(v)) => v.iter().map(|x| match x { V::C(k) => *k as i32, _ => 0 }).collect(), _ => vec![0; n as usize] };
                b.ins.push(Ins::Shuffle(dst, a, c, mask));
            }
            "freeze" => { let (_, a) = self.tv(p, fc); b.ins.push(Ins::Freeze(dst, a)); }
            "atomicrmw" => {
                p.eat("volatile");
                let k = match p.word() { "xchg" => Rmw::Xchg, "add" => Rmw::Add, "sub" => Rmw::Sub, "and" => Rmw::And, "or" => Rmw::Or, "xor" => Rmw::Xor, "nand" => Rmw::Nand, "max" => Rmw::Max, "min" => Rmw::Min, "umax" => Rmw::UMax, "umin" => Rmw::UMin, _ => p.fail("rmw") };
                let (_, a) = self.tv(p, fc); p.ex(","); let (t, v) = self.tv(p, fc);
                b.ins.push(Ins::Rmw(k, t, dst, a, v));
            }
            "cmpxchg" => {
                while p.eat("weak") || p.eat("volatile") {}
                let (_, a) = self.tv(p, fc); p.ex(","); let (t, e) = self.tv(p, fc); p.ex(","); let (_, n) = self.tv(p, fc);
                b.ins.push(Ins::CmpXchg(t, dst, a, e, n));
            }
            "fence" => b.ins.push(Ins::Nop),
            "landingpad" => {
                b.ins.push(Ins::Unsupported("landingpad".into()));
                let _ = self.parse_type(p);
                p.skip_line();
                loop {
                    let sv = p.i;
                    if p.eat("cleanup") { p.skip_line(); continue; }
                    if p.eat("catch") || p.eat("filter") { p.skip_line(); continue; }
                    p.i = sv;
                    break;
                }
                return;
            }
            "resume" => b.ins.push(Ins::Unsupported("resume".into())),
            "va_arg" => b.ins.push(Ins::Unsupported("va_arg".into())),
            "" => p.fail("instruction"),
            other => { let _ = start; p.fail(&format!("instruction `{}`", other)); }
        }
        // look-ahead may already have crossed the end of the line
        let mut k = p.i;
        while k > start && matches!(p.s[k - 1], b' ' | b'\t') { k -= 1; }
        if k > start && p.s[k - 1] == b'\n' { p.i = k; return; }
        p.skip_line();
    }

    /// (function name, file) of the innermost scope for a DILocation.
    pub fn dbg_scope(&self, mut n: u32) -> Option<String> {
        for _ in 0..20 {
            let (a, b) = *self.md.get(&n)?;
            let t = &self.src[a..b];
            if find_sub(t, b"!DISubprogram(").is_some() {
                let nm = attr_str(t, b"name: \"")?;
                let lk = attr_str(t, b"linkageName: \"");
                return Some(lk.unwrap_or(nm));
            }
            let k = find_sub(t, b"scope: !")?;
            let mut q = k + 8;
            let mut d = 0;
            while q < t.len() && t[q].is_ascii_digit() { d = d * 10 + (t[q] - b'0') as u32; q += 1; }
            n = d;
        }
        None
    }
}

fn attr_str(t: &[u8], key: &[u8]) -> Option<String> {
    let k = find_sub(t, key)? + key.len();
    let e = t[k..].iter().position(|&c| c == b'"')? + k;
    Some(String::from_utf8_lossy(&t[k..e]).into_owned())
}
fn find_dbg(line: &[u8]) -> u32 {
    match find_sub(line, b"!dbg !") {
        None => 0,
        Some(k) => { let mut q = k + 6; let mut d = 0; while q < line.len() && line[q].is_ascii_digit() { d = d * 10 + (line[q] - b'0') as u32; q += 1; } d }
    }
}
pub fn find_sub(h: &[u8], n: &[u8]) -> Option<usize> {
    if n.len() > h.len() { return None; }
    h.windows(n.len()).position(|w| w == n)
}
pub fn sext(x: u128, w: u32) -> i128 {
    if w >= 128 { return x as i128; }
    let s = 128 - w;
    ((x << s) as i128) >> s
}
