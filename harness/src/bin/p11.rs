//! P11: every widget gets exactly the declarations of the rules that match it, the most specific and latest winning.
use harness::*;
use tcss::parser::cascade::{WidgetMeta, WidgetStates, compute_style};
use tcss::parser::{StyleSheet, parse_stylesheet};
use tcss::types::{ComputedStyle, Theme};
fn sheet(s: &str) -> StyleSheet {
    match parse_stylesheet(s) { Ok(x) => x, Err(_) => { check(false, "the stylesheet is accepted"); loop {} } }
}
fn theme() -> Theme { Theme::new("plain", true) }
fn leak(c: u8) -> &'static str { let b = vec![c].leak(); unsafe { std::str::from_utf8_unchecked(b) } }
fn st(c: u8) -> String { unsafe { String::from_utf8_unchecked(vec![c]) } }
/// A widget of a symbolic type, class and id, each one letter.
#[derive(Clone, Copy)] struct W { ty: u8, cl: u8, id: u8, states: u16 }
fn w() -> W { W { ty: b'A' + below(2) as u8, cl: b'x' + below(2) as u8, id: b'i', states: 0 } }
fn meta(x: W) -> WidgetMeta {
    WidgetMeta { type_name: leak(x.ty), type_names: vec![], id: Some(st(x.id)), classes: vec![st(x.cl)], states: WidgetStates::from_bits_truncate(x.states) }
}
/// One simple selector and whether it matches.
#[derive(Clone, Copy)] enum S { Ty(u8), Cl(u8), Id(u8), Any, St(u8) }
const STATES: [&str; 4] = ["focus", "hover", "active", "disabled"];
fn text(s: S, o: &mut String) {
    match s {
        S::Ty(c) => o.push(c as char), S::Cl(c) => { o.push('.'); o.push(c as char); } S::Id(c) => { o.push('#'); o.push(c as char); }
        S::Any => o.push('*'), S::St(k) => { o.push(':'); o.push_str(STATES[k as usize]); }
    }
}
fn hit(s: S, x: W) -> bool { match s { S::Ty(c) => x.ty == c, S::Cl(c) => x.cl == c, S::Id(c) => x.id == c, S::Any => true, S::St(k) => x.states >> k & 1 == 1 } }
fn hits(s: &[S], x: W) -> bool { let mut r = true; for &a in s { r = and(r, hit(a, x)); } r }
/// Reference matcher: parts left to right, child[i] says part i must be the parent of part i + 1.
fn matches(parts: &[Vec<S>], child: &[bool], x: W, anc: &[W]) -> bool {
    let n = parts.len();
    if n == 0 { return true; }
    and(hits(&parts[n - 1], x), up(&parts[..n - 1], child, anc))
}
fn up(parts: &[Vec<S>], child: &[bool], anc: &[W]) -> bool {
    let n = parts.len(); if n == 0 { return true; }
    let mut r = false;
    for i in 0..anc.len() { if i > 0 && child[n - 1] { break; } r = or(r, and(hits(&parts[n - 1], anc[i]), up(&parts[..n - 1], child, &anc[i + 1..]))); }
    r
}
fn sel_text(parts: &[Vec<S>], child: &[bool], o: &mut String) {
    for (i, p) in parts.iter().enumerate() {
        for &s in p { text(s, o); }
        if i + 1 < parts.len() { o.push_str(if child[i] { " > " } else { " " }); }
    }
}
fn spec(parts: &[Vec<S>]) -> (u32, u32, u32) {
    let mut r = (0, 0, 0);
    for s in parts.iter().flatten() { match s { S::Id(_) => r.0 += 1, S::Cl(_) | S::St(_) => r.1 += 1, S::Ty(_) => r.2 += 1, S::Any => {} } }
    r
}
fn width(c: &ComputedStyle) -> Option<u32> { c.width.map(|s| s.value as u32) }
const ATOM: [S; 4] = [S::Ty(b'A'), S::Cl(b'x'), S::Any, S::Ty(b'B')];
/// One selector of up to three compounds against a widget with up to three (four) ancestors.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_match() {
    let n = 1 + pick(4) as usize;
    let parts: Vec<Vec<S>> = (0..n).map(|_| { let a = ATOM[pick(3) as usize]; if n < 3 && split(flag()) { vec![a, S::Cl(b'y')] } else { vec![a] } }).collect();
    let child: Vec<bool> = (0..n).map(|_| split(flag())).collect();
    let mut src = String::new(); sel_text(&parts, &child, &mut src); src.push_str("{width:7}");
    let depth = pick(tier(5, 6)) as usize;
    let x = w(); let anc: Vec<W> = (0..depth).map(|_| w()).collect();
    let am: Vec<WidgetMeta> = anc.iter().map(|&a| meta(a)).collect();
    let c = compute_style(&meta(x), &am, &sheet(&src), &theme());
    check((width(&c) == Some(7)) == matches(&parts, &child, x, &anc), "a rule applies exactly to the widgets its selector describes");
    check(c.width.is_none() || width(&c) == Some(7), "the value is the one declared");
    reach("end");
}
const COMP: [&[S]; 8] = [&[S::Ty(b'A')], &[S::Cl(b'x')], &[S::Id(b'i')], &[S::Any], &[S::Ty(b'A'), S::Cl(b'x')], &[S::St(0)], &[S::Cl(b'x'), S::St(1)], &[S::Ty(b'A'), S::Id(b'i')]];
/// Rules in conflict: the most specific wins, then the latest.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_priority() {
    let n = tier(4, 5); let x = W { states: bits(4) as u16, ..w() };
    let mut src = String::new(); let mut want: (bool, (u32, u32, u32), u32) = (false, (0, 0, 0), 0);
    for i in 0..n {
        let parts = vec![COMP[pick(8) as usize].to_vec()];
        sel_text(&parts, &[false], &mut src); src.push_str("{width:"); src.push((b'1' + i as u8) as char); src.push_str(";}");
        let sp = spec(&parts);
        // kept case by case so that the reference stays simple
        if split(matches(&parts, &[false], x, &[])) && (!want.0 || sp >= want.1) { want = (true, sp, i as u32 + 1); }
    }
    let c = compute_style(&meta(x), &[], &sheet(&src), &theme());
    check(width(&c) == if want.0 { Some(want.2) } else { None }, "the most specific rule wins, then the latest");
    observe(width(&c).unwrap_or(0) as u64);
    reach("end");
}
/// Selector lists: a rule applies once, with its most specific selector that matches.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_list() {
    let x = W { states: bits(4) as u16, ..w() };
    let a = [vec![COMP[pick(8) as usize].to_vec()], vec![COMP[pick(8) as usize].to_vec()]]; let b = vec![COMP[pick(8) as usize].to_vec()];
    let mut l = String::new(); sel_text(&a[0], &[false], &mut l); l.push_str(["," , " , ", ",\n"][pick(3) as usize]); sel_text(&a[1], &[false], &mut l); l.push_str("{width:1; height:4}");
    let mut r = String::new(); sel_text(&b, &[false], &mut r); r.push_str("{width:2}");
    let list_first = split(flag());
    let src = if list_first { format!("{l} {r}") } else { format!("{r} {l}") };
    let c = compute_style(&meta(x), &[], &sheet(&src), &theme());
    let (m0, m1, mb) = (split(matches(&a[0], &[], x, &[])), split(matches(&a[1], &[], x, &[])), split(matches(&b, &[], x, &[])));
    let mut sp = None; if m0 { sp = Some(spec(&a[0])); } if m1 { let s = spec(&a[1]); if sp.is_none() || sp < Some(s) { sp = Some(s); } }
    let want = match (sp, mb) { (None, false) => None, (None, true) => Some(2), (Some(_), false) => Some(1), (Some(s), true) => Some(if s > spec(&b) || (s == spec(&b) && !list_first) { 1 } else { 2 }) };
    check(width(&c) == want, "a selector list counts with its most specific matching selector");
    check(c.height.map(|h| h.value as u32) == sp.map(|_| 4), "a list applies when any of its selectors matches");
    reach("end");
}
/// Specificity of compound descendants.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_priority_deep() {
    let x = w(); let p = w();
    let mk = || { let mut v = Vec::new(); if split(flag()) { v.push(COMP[pick(5) as usize].to_vec()); } v.push(COMP[pick(5) as usize].to_vec()); v };
    let (a, b) = (mk(), mk());
    let mut src = String::new(); sel_text(&a, &[false], &mut src); src.push_str("{width:1}"); sel_text(&b, &[false], &mut src); src.push_str("{width:2}");
    let c = compute_style(&meta(x), &[meta(p)], &sheet(&src), &theme());
    let (ma, mb) = (split(matches(&a, &[false], x, &[p])), split(matches(&b, &[false], x, &[p])));
    let want = match (ma, mb) { (false, false) => None, (true, false) => Some(1), (false, true) => Some(2), _ => Some(if spec(&a) > spec(&b) { 1 } else { 2 }) };
    check(width(&c) == want, "specificity counts every part of a selector");
    reach("end");
}
/// States, theme conditions and base types.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_states() {
    let states = bits(4) as u16; let dark = split(flag()); let k = pick(9) as usize;
    const N: [&str; 9] = ["focus", "hover", "active", "disabled", "dark", "light", "ansi", "nocolor", "nosuch"];
    let mut t = theme(); t.is_dark = dark; let ansi = pick(3); t.name = ["plain", "my-ansi", "nocolor"][ansi as usize].to_string();
    let src = format!("A:{}{{width:3}}", N[k]);
    let mut m = meta(W { ty: b'A', cl: b'x', id: b'i', states });
    // a base type matches too
    match pick(5) { 0 => {} 1 => { m.type_name = "Sub"; m.type_names = vec!["Sub", "A"]; } 2 => { m.type_name = "Sub"; m.type_names = vec!["Sub", "A", "Base"]; } 3 => { m.type_names = vec!["A", "B", "Base"]; } _ => { m.type_name = "Sub"; m.type_names = vec!["Sub", "B", "Base", "A"]; } }
    let c = compute_style(&m, &[], &sheet(&src), &t);
    let want = match k { 0..=3 => states >> k & 1 == 1, 4 => dark, 5 => !dark, 6 => ansi == 1, 7 => ansi == 2, _ => false };
    check(c.width.is_some() == want, "states and theme conditions select");
    reach("end");
}
/// The latest declaration of a property in a rule wins, and unrelated properties do not disturb each other.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_declarations() {
    const P: [&str; 4] = ["width", "height", "min-width", "no-such"];
    let mut src = String::from("A {"); let mut want = [None; 4]; let n = 4;
    let last_semi = split(flag());
    for i in 0..n {
        let k = pick(4) as usize; let d = below(10) as u8;
        src.push_str(P[k]); src.push_str([":", ": ", " : "][(i % 3) as usize]); src.push((b'0' + d) as char);
        if i + 1 < n || last_semi { src.push_str(["; ", ";"][i as usize % 2]); }
        want[k] = Some(d as u32);
    }
    src.push_str("} B { width: 9 } A { max-width: 5; }");
    let c = compute_style(&meta(W { ty: b'A', cl: b'x', id: b'i', states: 0 }), &[], &sheet(&src), &theme());
    let get = |o: Option<tcss::types::Scalar>| o.map(|s| s.value as u32);
    check((get(c.width) == want[0]) & (get(c.height) == want[1]) & (get(c.min_width) == want[2]), "the last declaration of a property wins, unknown ones are skipped");
    check(get(c.max_width) == Some(5) && c.max_height.is_none() && c.min_height.is_none(), "rules after it are read");
    reach("end");
}
/// Nested rules mean what they mean written out.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_nested() {
    const PARENT: [&str; 5] = ["A", "A, .x", "A B", "B > A", "#i A"];
    const CHILD: [(&str, bool); 7] = [("B", false), ("&:focus", true), ("&.x", true), ("& > B", true), ("& B", true), (".y B", false), ("B > A", false)];
    let p = PARENT[pick(5) as usize]; let (ch, amp) = CHILD[pick(7) as usize];
    let deep = pick(8) as usize;
    let join = |ps: &str, c: &str, amp: bool| -> String {
        ps.split(", ").map(|q| if amp { format!("{q}{}", &c[1..]) } else { format!("{q} {c}") }).collect::<Vec<_>>().join(", ")
    };
    let mut nested = format!("{p} {{ width: 1; {ch} {{ height: 2; "); let mut flat = format!("{p} {{ width: 1; }} ");
    let second = join(p, ch, amp);
    flat.push_str(&format!("{second} {{ height: 2; }} "));
    if deep > 0 { let (c3, a3) = CHILD[deep - 1]; nested.push_str(&format!("{c3} {{ min-width: 3; }} ")); flat.push_str(&format!("{} {{ min-width: 3 }}", join(&second, c3, a3))); }
    nested.push_str("} max-width: 4; }"); flat.push_str(&format!("{p} {{ max-width: 4 }}"));
    let a = sheet(&nested); let b = sheet(&flat);
    let x = W { states: bits(4) as u16, ..w() };
    let anc: Vec<WidgetMeta> = (0..tier(3, 4)).map(|_| meta(w())).collect();
    let (ca, cb) = (compute_style(&meta(x), &anc, &a, &theme()), compute_style(&meta(x), &anc, &b, &theme()));
    check(ca.width == cb.width && ca.height == cb.height && ca.min_width == cb.min_width && ca.max_width == cb.max_width, "nested rules mean what they mean written out");
    reach("end");
}
/// Comments and white space change nothing; variables stand for their values.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_comments() {
    const T: [&str; 12] = ["A", ".x", "{", "width", ":", "5", ";", "height", ":", "6", "}", "B{height:7}"];
    const C: [&str; 10] = ["", " ", "\r\n\t", "/* } ; */", "/**/", "// { x\n", "/* // \n * */", "/***/", "/* ** */ ", "//\n"];
    let mut src = String::new(); let at = [pick(11), pick(11)];
    for (i, t) in T.iter().enumerate() {
        src.push_str(t);
        // "A" and ".x" stay one compound
        if i > 0 && (i == 1 + at[0] as usize || i == 1 + at[1] as usize) { src.push_str(C[pick(10) as usize]); }
    }
    let x = w();
    let c = compute_style(&meta(x), &[], &sheet(&src), &theme());
    let m = (x.ty == b'A') & (x.cl == b'x');
    check((width(&c) == Some(5)) == m, "comments and white space change nothing");
    check(c.height.map(|h| h.value as u32) == if split(m) { Some(6) } else if split(x.ty == b'B') { Some(7) } else { None }, "comments hide nothing");
    reach("end");
}
#[unsafe(no_mangle)] #[inline(never)] pub fn h_variables() {
    const N: [&str; 3] = ["a", "a-b", "a_1"];
    const V: [&str; 4] = ["3", "50%", "auto", "7 8"];
    let (i, j) = (pick(3) as usize, pick(3) as usize); if i == j { return; }
    let (u, v) = (V[pick(4) as usize], V[pick(4) as usize]);
    let chain = split(flag());
    let crlf = if split(flag()) { "\r\n" } else { "\n" };
    let uv = if chain { format!("${}", N[i]) } else { v.to_string() };
    let src = format!("${}: {};{}${}:{};{}A {{ margin: ${}; padding: ${} }} B {{ width: $nope }}", N[i], u, crlf, N[j], uv, crlf, N[i], N[j]);
    let plain = format!("A {{ margin: {u}; padding: {} }}", if chain { u } else { v });
    let m = meta(W { ty: b'A', cl: b'x', id: b'i', states: 0 });
    match parse_stylesheet(&src.replace(" B { width: $nope }", "")) {
        Ok(s) => {
            let (c, d) = (compute_style(&m, &[], &s, &theme()), compute_style(&m, &[], &sheet(&plain), &theme()));
            check(c.margin == d.margin && c.padding == d.padding, "a variable stands for its value");
        }
        Err(_) => check(false, "the stylesheet is accepted"),
    }
    reach("end");
}
entries!(h_match, h_priority, h_list, h_priority_deep, h_states, h_declarations, h_nested, h_comments, h_variables);
