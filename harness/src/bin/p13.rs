//! P13: markup yields exactly the text outside its tags, each character with the styles of the tags around it.
use harness::*;
use rich::{Color, ParsedMarkup, Style};
/// Spans and segments describe the text exactly.
fn well_formed(p: &ParsedMarkup) {
    let t = p.text(); let mut ok = true;
    for s in p.spans() {
        ok = ok && s.start < s.end && s.end <= t.len() && t.is_char_boundary(s.start) && t.is_char_boundary(s.end) && !s.is_empty();
    }
    check(ok, "spans cover a non-empty stretch of the text");
    let mut pos = 0;
    for (x, st, _) in p.segments() {
        check(!x.is_empty() && pos + x.len() <= t.len() && &t[pos..pos + x.len()] == x, "segments are consecutive stretches of the text");
        check(st == p.style_at(pos), "a segment has the style of its text");
        pos += x.len();
    }
    check(pos == t.len(), "segments cover the text");
}
/// What lexing must do: Some(text outside tags), or None for malformed markup (tag contents are judged elsewhere).
fn plain(s: &[u8], tags: &mut Vec<(usize, usize)>) -> Option<Vec<u8>> {
    let mut out = Vec::new(); let mut i = 0;
    while i < s.len() {
        let c = s[i];
        if c == b'\\' {
            if i + 1 < s.len() && (s[i + 1] == b'[' || s[i + 1] == b']' || s[i + 1] == b'\\') { out.push(s[i + 1]); i += 2; } else { return None; }
        } else if c == b'[' {
            let st = i + 1; let mut d = 1; i += 1;
            loop {
                if i >= s.len() { return None; }
                if s[i] == b'[' { d += 1; } else if s[i] == b']' { d -= 1; } else if s[i] == b'\\' { i += 1; }
                if d == 0 { break; }
                i += 1;
            }
            if i == st { return None; }
            tags.push((st, i)); i += 1;
        } else { out.push(c); i += 1; }
    }
    Some(out)
}
fn lex(s: String) {
    let r = ParsedMarkup::parse(&s);
    let mut tags = Vec::new();
    let want = plain(s.as_bytes(), &mut tags);
    match (&r, &want) {
        (Ok(p), Some(w)) => { check(p.text().as_bytes() == w.as_slice(), "the text is what stands outside the tags"); well_formed(p); observe(p.spans().len() as u64); }
        (Ok(_), None) => check(false, "malformed markup is an error"),
        (Err(_), Some(_)) => check(!tags.is_empty(), "text without tags is always accepted"),
        _ => {}
    }
    reach("end");
}
#[unsafe(no_mangle)] #[inline(never)] pub fn h_any() { let n = pick(tier(7, 8)) as usize; lex(ascii(n)); }
#[unsafe(no_mangle)] #[inline(never)] pub fn h_special() {
    let n = 5 + pick(tier(3, 5)) as usize;
    let mut v = Vec::new(); for _ in 0..n { v.push(pick_byte(b"[]\\/bx")); }
    lex(String::from_utf8(v).unwrap());
}
/// Text outside tags, brackets escaped, comes back verbatim whatever it is.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_verbatim() {
    const G: [&str; 6] = ["é", "漢", "\u{301}", "\u{1F600}", "\n", ""];
    let mut want = String::new(); let mut src = String::new();
    let st = pick(3);
    if st > 0 { src.push_str(if st == 1 { "[bold]" } else { "[@click=a.b('c]d')]" }); }
    if st == 2 { src.clear(); src.push_str("[@click=a.b('c')]"); }
    for _ in 0..tier(3, 4) {
        let k = pick(9) as usize;
        if k < 6 { want.push_str(G[k]); src.push_str(G[k]); }
        else if k == 6 { let c = bits(7) as u8; assume((c != b'[') & (c != b'\\')); want.push(c as char); src.push(c as char); }
        else { let c = [b'[', b'\\'][k - 7] as char; want.push(c); src.push('\\'); src.push(c); }
    }
    match ParsedMarkup::parse(&src) {
        Ok(p) => {
            check(p.text() == want, "escaped text comes back verbatim"); well_formed(&p);
            check(p.spans().len() == if st > 0 && !want.is_empty() { 1 } else { 0 }, "an unclosed tag reaches the end of the text");
            if let Some(s) = p.spans().first() { check(s.start == 0 && s.end == want.len(), "an unclosed tag covers the rest"); }
        }
        Err(_) => check(false, "escaped text is accepted"),
    }
    reach("end");
}
const TAGS: [&str; 8] = ["[red]", "[blue]", "[bold]", "[white on green]", "[@click=f]", "[@click=g]", "[link=u]", "[b i u s d r]"];
fn add(k: usize, st: &mut Style, m: &mut [Option<&'static str>; 2]) {
    let named = |n: &str| Some(Color::Named(n.to_string()));
    match k {
        0 => st.fg = named("red"), 1 => st.fg = named("blue"), 2 => st.text.bold = true,
        3 => { st.fg = named("white"); st.bg = named("green"); }
        4 => m[0] = Some("f"), 5 => m[0] = Some("g"), 6 => m[1] = Some("u"),
        _ => { let t = &mut st.text; t.bold = true; t.italic = true; t.underline = true; t.strike = true; t.dim = true; t.reverse = true; }
    }
}
/// Names that close a tag of each kind.
const NAMES: [&str; 8] = ["red", "BLUE", "bold", "on green", "@click=f", "@click=g", "link=u", "b"];
/// Nested tags: every character has the styles of the tags open around it, the innermost winning.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_nesting() { nest(tier(6, 7), &[0, 1, 2, 3]); }
#[unsafe(no_mangle)] #[inline(never)] pub fn h_nesting_meta() { nest(tier(5, 6), &[3, 4, 5, 6, 7]); }
fn nest(n: usize, kinds: &[usize]) {
    let mut src = String::new(); let mut stack: Vec<usize> = Vec::new();
    let mut want: Vec<(String, Vec<usize>)> = Vec::new();
    for i in 0..n {
        let k = pick(kinds.len() as u64 + 3) as usize;
        if k < kinds.len() { src.push_str(TAGS[kinds[k]]); stack.push(kinds[k]); }
        else if k == kinds.len() {
            let t = if i % 2 == 0 { "漢".to_string() } else { let c = bits(7) as u8; assume((c != b'[') & (c != b'\\')); (c as char).to_string() };
            src.push_str(&t); want.push((t, stack.clone()));
        } else if k == kinds.len() + 1 { src.push_str("[/]"); stack.pop(); }
        else {
            // a named closing tag of one of the open tags
            if stack.is_empty() { return; }
            let j = pick(stack.len() as u64) as usize; let name = stack[j];
            // the most recent tag of that name is the one closed, with everything inside it
            src.push_str("[/"); src.push_str(NAMES[name]); src.push(']');
            let at = stack.iter().rposition(|&x| x == name).unwrap(); stack.truncate(at);
        }
    }
    match ParsedMarkup::parse(&src) {
        Ok(p) => {
            let mut pos = 0;
            for (t, open) in &want {
                let mut st = Style::default(); let mut m = [None, None];
                for &k in open { add(k, &mut st, &mut m); }
                check(p.style_at(pos) == st, "text has the styles of the tags around it, the innermost winning");
                let mut at = 0; let mut found = false;
                for (x, s, me) in p.segments() {
                    if at <= pos && pos < at + x.len() {
                        found = true;
                        check(s == st, "so do the segments");
                        check(me.get("@click").map(|x| x.as_str()) == m[0] && me.get("@link").map(|x| x.as_str()) == m[1] && me.len() == m.iter().flatten().count(), "and the actions and links");
                    }
                    at += x.len();
                }
                check(found, "a segment covers every character");
                pos += t.len();
            }
            check(pos == p.text().len(), "no other text"); well_formed(&p); observe(p.spans().len() as u64);
        }
        Err(_) => check(false, "well-formed markup is accepted"),
    }
    reach("end");
}
fn hexd(c: u8) -> u8 { if c <= b'9' { c - b'0' } else { (c | 32) - b'a' + 10 } }
fn is_hex(c: u8) -> bool { ((c >= b'0') & (c <= b'9')) | ((c | 32 >= b'a') & (c | 32 <= b'f')) }
#[unsafe(no_mangle)] #[inline(never)] pub fn h_hex() {
    let n = [3usize, 6][pick(2) as usize];
    let mut v = vec![b'#']; let mut ok = true;
    let free = pick(n as u64) as usize;
    for i in 0..n { let c = if i == free { bits(7) as u8 } else { pick_byte(b"0aF") }; v.push(c); ok = and(ok, is_hex(c)); }
    let s = unsafe { String::from_utf8_unchecked(v.clone()) };
    let r = Color::parse(&s);
    if split(ok) {
        let want = if n == 3 { (hexd(v[1]) * 17, hexd(v[2]) * 17, hexd(v[3]) * 17) } else { (hexd(v[1]) * 16 + hexd(v[2]), hexd(v[3]) * 16 + hexd(v[4]), hexd(v[5]) * 16 + hexd(v[6])) };
        check(r.is_ok(), "hexadecimal colours are accepted");
        if let Ok(c) = r { check(c.to_rgb() == want, "hexadecimal colours denote what they say"); }
    } else if v[1 + free] > b' ' { check(r.is_err(), "other digits are errors"); }
    reach("end");
}
#[unsafe(no_mangle)] #[inline(never)] pub fn h_hex_any() {
    const G: [&str; 5] = ["é", "漢", "\u{1F600}", "a", "9"];
    let mut s = String::from("#"); for _ in 0..pick(5) { s.push_str(G[pick(5) as usize]); }
    let ascii_only = s.is_ascii();
    let r = Color::parse(&s);
    check(r.is_ok() == (ascii_only && (s.len() == 4 || s.len() == 7)), "only three or six hexadecimal digits are a colour");
    reach("end");
}
/// rgb(r,g,b) denotes its components; anything beyond 255 is an error.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_rgb() {
    let which = pick(3) as usize; let mut s = String::from("rgb("); let mut vals = [0u32; 3];
    for i in 0..3 {
        if i > 0 { s.push(','); if flag() { s.push(' '); } }
        if i == which {
            let d = 1 + pick(3); let mut x = 0u32;
            for _ in 0..d { let c = b'0' + below(10) as u8; s.push(c as char); x = x * 10 + (c - b'0') as u32; }
            vals[i] = x;
        } else { let c = pick(2); s.push_str(["7", "255"][c as usize]); vals[i] = [7, 255][c as usize]; }
    }
    s.push(')');
    match Color::parse(&s) {
        Ok(c) => { let (r, g, b) = c.to_rgb(); check(and(and(r as u32 == vals[0], g as u32 == vals[1]), b as u32 == vals[2]), "rgb components are those written"); }
        Err(_) => check(vals[which] > 255, "components up to 255 are accepted"),
    }
    reach("end");
}
/// Style words, in any order and letter case.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_words() {
    const W: [&str; 14] = ["bold", "b", "dim", "d", "italic", "i", "underline", "u", "strike", "s", "strikethrough", "reverse", "r", "blink"];
    const K: [usize; 14] = [0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 4, 5, 5, 6];
    let mut s = String::new(); let mut on = [false; 7]; let mut fg = None; let mut bg = None;
    for i in 0..tier(2, 3) {
        let k = pick(17) as usize; if i > 0 { s.push(' '); }
        let w = if k < 14 { on[K[k]] = true; W[k] } else if k == 14 { fg = Some((1, 2, 3)); "rgb(1,2,3)" } else if k == 15 { fg = Some((0xaa, 0xbb, 0xcc)); "#aBc" } else { bg = Some((0xff, 0, 0x10)); "on #ff0010" };
        for c in w.chars() { let c = if c.is_ascii_lowercase() && i == 0 && k < 14 && flag() { c.to_ascii_uppercase() } else { c }; s.push(c); }
    }
    match Style::parse(&s) {
        Ok(st) => {
            let t = &st.text;
            check([t.bold, t.dim, t.italic, t.underline, t.strike, t.reverse, t.blink] == on, "style words turn on exactly their attributes");
            check(st.fg.map(|c| c.to_rgb()) == fg && st.bg.map(|c| c.to_rgb()) == bg, "colours are foreground, after 'on' background");
        }
        Err(_) => check(false, "style words are accepted"),
    }
    reach("end");
}
entries!(h_any, h_special, h_verbatim, h_nesting, h_nesting_meta, h_hex, h_hex_any, h_rgb, h_words);
