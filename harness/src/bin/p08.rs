//! P08: the rational numbers layout is computed with are exact.
use harness::*;
use textual::fraction::Fraction;
const N: i64 = tier(30, 120);
/// The exact floor of a/b.
fn fl(a: i64, b: i64) -> i64 { a.div_euclid(b) }
/// f is exactly n/d (d > 0 concrete).
fn is(f: Fraction, n: i64, d: i64, what: &'static str) {
    let k = f.mul_ratio(d, 1);
    check((k.floor() == n) & (k.fract() == Fraction::ZERO), what);
    check(f == Fraction::new(n, d), "equal ratios are equal however they were produced");
}
fn den() -> i64 { let v = 1 + pick(tier(6, 9)) as i64; v }
#[unsafe(no_mangle)] #[inline(never)] pub fn h_value() {
    let d = pick_range(-8, 8); let n = range(-N, N);
    let f = Fraction::new(n, d);
    if d == 0 { check(f == Fraction::ZERO, "a zero denominator gives zero"); reach("end"); return; }
    let (n, d) = if d < 0 { (-n, -d) } else { (n, d) };
    check(f.floor() == fl(n, d), "floor rounds toward minus infinity");
    let r = f.fract();
    check(r.floor() == 0, "the fractional part lies in [0, 1)");
    check(r + Fraction::from(f.floor()) == f, "floor and fractional part make the whole");
    is(f, n, d, "the value is the one given");
    observe(f.floor() as u64);
    let k = den();
    check(Fraction::new(n * k, d * k) == f, "equal ratios are equal");
    check((Fraction::new(n + 1, d) == f) == false, "different ratios differ");
    reach("end");
}
#[unsafe(no_mangle)] #[inline(never)] pub fn h_ops() {
    let (b, d) = (den(), 1 + pick(5) as i64); let (a, c) = (range(-N, N), pick_range(-2, 3));
    let (x, y) = (Fraction::new(a, b), Fraction::new(c, d));
    match pick(4) {
        0 => is(x + y, a * d + c * b, b * d, "sums are exact"),
        1 => is(x - y, a * d - c * b, b * d, "differences are exact"),
        2 => is(x * y, a * c, b * d, "products are exact"),
        _ => is(x.mul_ratio(c, d), a * c, b * d, "scaling by a ratio is exact"),
    }
    reach("end");
}
/// Sharing out with the remainder carried forward neither loses nor invents anything.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_share() {
    let n = range(0, N); let k = 1 + pick(tier(6, 9)) as i64;
    let portion = Fraction::new(n, k); let mut rem = Fraction::ZERO; let mut sum = 0; let mut last = 0; let mut ok = true;
    for _ in 0..k { let raw = portion + rem; let s = raw.floor(); rem = raw.fract(); ok = and(ok, (s == fl(n, k)) | (s == fl(n, k) + 1)); sum += s; last = s; }
    check(sum == n, "the shares add up to the whole");
    check(ok, "shares differ by at most one");
    check(rem == Fraction::ZERO, "nothing is left over");
    observe(last as u64);
    reach("end");
}
entries!(h_value, h_ops, h_share);
