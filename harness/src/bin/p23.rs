//! P23: fuzzy search.
use harness::*;
use textual::Matcher;
use textual::content::Content;
use textual::fuzzy::FuzzySearch;
/// Any text of `n` characters out of `set`.
fn any(n: usize, set: &[char]) -> Vec<char> { (0..n).map(|_| set[pick(set.len() as u64) as usize]).collect() }
fn low(c: char) -> char { c.to_lowercase().next().unwrap() }
fn eq(a: char, b: char, sens: bool) -> bool { if sens { a == b } else { low(a) == low(b) } }
/// Whether `q` can be found in `c` in order.
fn within(q: &[char], c: &[char], sens: bool) -> bool {
    let mut i = 0;
    for &x in c { if i < q.len() && eq(q[i], x, sens) { i += 1; } }
    i == q.len()
}
fn score(c: &[char], at: &[usize]) -> f32 {
    let word = |i: usize| c[i].is_alphanumeric() || c[i] == '_';
    let n = at.len() as f32;
    let first = at.iter().filter(|&&i| word(i) && (i == 0 || !word(i - 1))).count() as f32;
    let mut groups = 1; for k in 1..at.len() { if at[k] != at[k - 1] + 1 { groups += 1; } }
    let g = (n - (groups as f32 - 1.0)) / n;
    (n + first) * (1.0 + g * g)
}
/// Every way to find `q` in `c`.
fn ways(q: &[char], c: &[char], sens: bool, from: usize, at: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
    if at.len() == q.len() { f(at); return; }
    for i in from..c.len() { if eq(q[at.len()], c[i], sens) { at.push(i); ways(q, c, sens, i + 1, at, f); at.pop(); } }
}
const ABC: [char; 4] = ['a', 'B', 'b', ' '];
fn one(nq: usize, nc: usize, set: &[char]) {
    let sens = split(flag());
    let q = any(nq, set); let c = any(nc, set);
    let (qs, cs): (String, String) = (q.iter().collect(), c.iter().collect());
    let (got, at) = FuzzySearch::new(sens).match_candidate(&qs, &cs);
    note!("{:?} in {:?}: {got} at {:?}", qs, cs, at);
    let yes = nq > 0 && within(&q, &c, sens);
    check((got > 0.0) == yes, "a text matches just when it has the letters of the query in order");
    check(at.len() == if yes { nq } else { 0 }, "a place for every letter");
    for k in 0..at.len() {
        check(at[k] < nc && eq(c[at[k]], q[k], sens), "the letters are where they are said to be");
        check(k == 0 || at[k] > at[k - 1], "in order");
    }
    if yes {
        let mine = score(&c, &at); let run = at.windows(2).all(|w| w[1] == w[0] + 1);
        let mut contiguous = false;
        ways(&q, &c, sens, 0, &mut vec![], &mut |w| { if w.windows(2).all(|w| w[1] == w[0] + 1) { contiguous = true; } });
        if contiguous {
            check(run, "a query that stands in the text as it is is found there");
            check(got == mine * if nq == nc { 2.0 } else { 1.5 }, "whole and plain finds are rated higher");
        } else {
            let mut best = 0f32; ways(&q, &c, sens, 0, &mut vec![], &mut |w| { let s = score(&c, w); if s > best { best = s; } });
            check(got == mine && mine == best, "of all the ways to match, the best rated one is taken");
        }
    }
    // highlighting
    let m = Matcher::new(qs.clone(), Some("bold".to_string()), sens);
    check(m.match_score(&cs) == got, "the matcher rates as the search does");
    let shown = Content::from_markup(&m.highlight(&cs));
    match shown {
        Err(_) => check(false, "the highlighted text is well formed"),
        Ok(t) => {
            check(t.text() == cs, "highlighting keeps the text");
            let mut bold: Vec<bool> = vec![]; let mut seen = String::new();
            for l in t.lines() { for g in l.segments() { for ch in g.text().chars() { seen.push(ch); bold.push(g.style().map_or(false, |s| s.bold)); } } }
            check(seen == cs, "highlighting keeps the text");
            for i in 0..nc { check(bold[i] == (at.contains(&i) && c[i] != ' '), "exactly the matched letters are highlighted"); }
        }
    }
    reach("end");
}
#[unsafe(no_mangle)] #[inline(never)] pub fn h_short() { one(pick(tier(4, 4)) as usize, pick(tier(6, 7)) as usize, &ABC) }
#[unsafe(no_mangle)] #[inline(never)] pub fn h_long() { one(3 + pick(tier(1, 2)) as usize, 4 + pick(tier(3, 4)) as usize, &['a', 'b', ' ']) }
/// Characters that mean something in markup.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_marks() { one(1 + pick(2) as usize, pick(tier(5, 6)) as usize, &['[', ']', '\\', '/', 'b', '\u{e9}']) }
entries!(h_short, h_long, h_marks);
