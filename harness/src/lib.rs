//! Shared vocabulary of the harnesses: symbolic inputs, assertions, and native replay.
#![allow(dead_code)]
pub mod term;
pub mod lay;
/// True in the deeper build of the harnesses.
pub const DEEP: bool = cfg!(feature = "thorough");
#[inline(always)] pub const fn tier<T: Copy>(quick: T, deep: T) -> T { if DEEP { deep } else { quick } }
mod ffi {
    unsafe extern "C" {
        pub fn __sym_init();
        pub fn __sym_bits(bits: u32) -> u64;
        pub fn __sym_below(n: u64) -> u64;
        pub fn __sym_assume(b: bool);
        pub fn __sym_check(ok: bool, l: *const u8, n: u64);
        pub fn __sym_reach(l: *const u8, n: u64);
        pub fn __sym_observe(v: u64);
        pub fn __sym_concretize(v: u64) -> u64;
        pub fn __sym_branch(b: bool) -> bool;
        pub fn __sym_ite(c: bool, a: u64, b: u64) -> u64;
        pub fn __sym_native() -> bool;
        pub fn __sym_out_take(buf: *mut u8, cap: u64) -> u64;
    }
}
/// A fresh symbolic value of `bits` bits.
#[inline(always)] pub fn bits(n: u32) -> u64 { unsafe { ffi::__sym_bits(n) } }
#[inline(always)] pub fn u8s() -> u8 { bits(8) as u8 }
#[inline(always)] pub fn u16s() -> u16 { bits(16) as u16 }
#[inline(always)] pub fn u32s() -> u32 { bits(32) as u32 }
#[inline(always)] pub fn u64s() -> u64 { bits(64) }
#[inline(always)] pub fn i16s() -> i16 { bits(16) as i16 }
#[inline(always)] pub fn i32s() -> i32 { bits(32) as i32 }
#[inline(always)] pub fn i64s() -> i64 { bits(64) as i64 }
#[inline(always)] pub fn flag() -> bool { bits(1) == 1 }
/// Symbolic value in 0..n.
#[inline(always)] pub fn below(n: u64) -> u64 {
    if n <= 1 { return 0; }
    unsafe { ffi::__sym_below(n) }
}
/// Symbolic value in lo..=hi.
#[inline(always)] pub fn range(lo: i64, hi: i64) -> i64 { lo + below((hi - lo + 1) as u64) as i64 }
#[inline(always)] pub fn assume(b: bool) { unsafe { ffi::__sym_assume(b) } }
#[inline(always)] pub fn check(ok: bool, label: &'static str) { unsafe { ffi::__sym_check(ok, label.as_ptr(), label.len() as u64) } }
#[inline(always)] pub fn reach(label: &'static str) { unsafe { ffi::__sym_reach(label.as_ptr(), label.len() as u64) } }
/// Records a result so that the engine's path witnesses can be compared with a native run.
#[inline(always)] pub fn observe(v: u64) { unsafe { ffi::__sym_observe(v) } }
/// Case split: the returned value is concrete on every path.
#[inline(always)] pub fn pick(n: u64) -> u64 { let v = below(n); unsafe { ffi::__sym_concretize(v) } }
#[inline(always)] pub fn pick_range(lo: i64, hi: i64) -> i64 { lo + pick((hi - lo + 1) as u64) as i64 }
#[inline(always)] pub fn concretize(v: u64) -> u64 { unsafe { ffi::__sym_concretize(v) } }
/// Case split on a condition.
#[inline(always)] pub fn split(b: bool) -> bool { unsafe { ffi::__sym_branch(b) } }
#[inline(always)] pub fn ite(c: bool, a: u64, b: u64) -> u64 { unsafe { ffi::__sym_ite(c, a, b) } }
#[inline(always)] pub fn native() -> bool { unsafe { ffi::__sym_native() } }
/// Non-short-circuit boolean helpers (no fork inside oracles).
#[inline(always)] pub fn and(a: bool, b: bool) -> bool { a & b }
#[inline(always)] pub fn or(a: bool, b: bool) -> bool { a | b }
#[inline(always)] pub fn imp(a: bool, b: bool) -> bool { !a | b }
/// Bytes the code wrote to standard output since the last call.
pub fn out_take() -> Vec<u8> {
    let mut v = vec![0u8; 65536];
    let n = unsafe { ffi::__sym_out_take(v.as_mut_ptr(), v.len() as u64) } as usize;
    check(n <= v.len(), "captured output fits the buffer");
    v.truncate(n);
    v
}
/// A symbolic byte from the alphabet given.
pub fn byte_of(al: &[u8]) -> u8 {
    let i = below(al.len() as u64) as usize;
    al[i]
}
/// Case-split byte from the alphabet.
pub fn pick_byte(al: &[u8]) -> u8 { al[pick(al.len() as u64) as usize] }
/// A string of exactly n symbolic ASCII bytes (0..=127).
pub fn ascii(n: usize) -> String {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n { v.push(bits(7) as u8); }
    unsafe { String::from_utf8_unchecked(v) }
}
pub fn string_of(al: &[u8], n: usize) -> String {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n { v.push(byte_of(al)); }
    unsafe { String::from_utf8_unchecked(v) }
}
/// Prints details of a replay; silent under the engine.
#[macro_export] macro_rules! note { ($($t:tt)*) => { if $crate::native() { eprintln!($($t)*); } } }
/// Declares the entry points of one harness binary.
#[macro_export] macro_rules! entries {
    ($($n:ident),* $(,)?) => {
        fn main() {
            let a = std::env::args().nth(1).unwrap_or_default();
            $crate::init();
            $( if a == stringify!($n) { $n(); return; } )*
            eprintln!("unknown entry {a}"); std::process::exit(3);
        }
    };
}
pub fn init() { unsafe { ffi::__sym_init() } }
