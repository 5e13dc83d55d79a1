//! P26: exported pictures show what the canvas holds.
use harness::*;
use crossterm::style::Color;
use tcss::types::RgbaColor;
use textual::Canvas;
use textual::canvas::TextAttributes;
use textual::svg::{SvgConfig, SvgRenderer};
#[derive(Clone, PartialEq, Debug)]
struct Look { sym: String, fg: Option<(u8, u8, u8)>, bg: Option<(u8, u8, u8)>, attrs: [bool; 6] }
fn bare() -> Look { Look { sym: " ".into(), fg: None, bg: None, attrs: [false; 6] } }
fn rgb(c: Option<Color>) -> Option<(u8, u8, u8)> { match c { Some(Color::Rgb { r, g, b }) => Some((r, g, b)), _ => None } }
fn list(a: &TextAttributes) -> [bool; 6] { [a.bold, a.dim, a.italic, a.underline, a.strike, a.reverse] }
/// What the canvas holds; the second half of a wide character has no symbol.
fn held(c: &Canvas, w: usize, h: usize) -> Vec<Look> {
    (0..w * h).map(|i| { let k = c.cell_at(i); Look { sym: if k.continuation { String::new() } else { k.symbol.clone() }, fg: rgb(k.fg), bg: rgb(k.bg), attrs: list(&k.attrs) } }).collect()
}
const SYM: [&str; 5] = ["a", " ", "\u{5b57}", "<", "&"];
fn fill(w: i32, syms: usize, full: bool) -> Canvas {
    let mut c = Canvas::new(w as u16, 2);
    let mut x = 0;
    while x < w {
        let s = SYM[pick(syms as u64) as usize];
        let mut a = TextAttributes::default();
        let col = |r, g, b| Some(RgbaColor::rgb(r, g, b));
        let (mut fg, mut bg) = (None, None);
        match pick(if full { 9 } else { 6 }) {
            0 => {}
            1 => fg = col(255, 3, 0),
            2 => { bg = col(1, 200, 30); a.bold = true; }
            3 => { fg = col(255, 3, 0); bg = col(1, 200, 30); a.italic = true; a.underline = true; }
            4 => { fg = col(9, 8, 7); bg = col(1, 200, 30); a.strike = true; }
            5 => if full { a.dim = true } else { a.strike = true },
            6 => a.reverse = true,
            7 => { fg = col(9, 8, 7); bg = col(255, 3, 0); }
            _ => { a.bold = true; a.underline = true; a.strike = true; }
        }
        if s == " " && !full && split(flag()) { x += 1; continue; } // left as it was
        c.put_str(x, 0, s, fg, bg, a);
        x += if s == SYM[2] { 2 } else { 1 };
    }
    c.put_str(1, 1, "z", None, None, TextAttributes::default());
    c
}
/// The text export, shown by a terminal.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_ansi() {
    let w = 3usize; let c = fill(w as i32, 3, true);
    let out: Vec<char> = c.to_ansi_snapshot().chars().collect();
    note!("{:?}", c.to_ansi_snapshot());
    let mut rows: Vec<Vec<Look>> = vec![vec![]]; let mut pen = bare(); let mut i = 0;
    while i < out.len() {
        match out[i] {
            '\n' => rows.push(vec![]),
            '\u{1b}' => {
                i += 1; check(out[i] == '[', "only colours and attributes");
                let mut n: Vec<u32> = vec![0]; i += 1;
                while out[i] != 'm' { if out[i] == ';' { n.push(0); } else { let d = out[i].to_digit(10); check(d.is_some(), "only colours and attributes"); *n.last_mut().unwrap() = n.last().unwrap() * 10 + d.unwrap(); } i += 1; }
                match n[0] {
                    0 => pen = bare(),
                    1 => pen.attrs[0] = true, 2 => pen.attrs[1] = true, 3 => pen.attrs[2] = true, 4 => pen.attrs[3] = true, 9 => pen.attrs[4] = true, 7 => pen.attrs[5] = true,
                    38 => { check(n.len() == 5 && n[1] == 2, "a colour"); pen.fg = Some((n[2] as u8, n[3] as u8, n[4] as u8)); }
                    48 => { check(n.len() == 5 && n[1] == 2, "a colour"); pen.bg = Some((n[2] as u8, n[3] as u8, n[4] as u8)); }
                    39 => pen.fg = None, 49 => pen.bg = None,
                    _ => check(false, "a known code"),
                }
            }
            ch => {
                let r = rows.last_mut().unwrap();
                let mut l = pen.clone(); l.sym = ch.to_string(); r.push(l);
                if ch == '\u{5b57}' { let mut l = pen.clone(); l.sym = String::new(); r.push(l); }
            }
        }
        i += 1;
    }
    check(rows.len() == 2, "a line for every row");
    let want = held(&c, w, 2);
    for y in 0..2 {
        check(rows[y].len() == w, "every row is as wide as the canvas");
        for x in 0..w { check(rows[y][x] == want[y * w + x], "every cell shows what the canvas holds"); }
    }
    reach("end");
}
fn attr<'a>(tag: &'a str, name: &str) -> Option<&'a str> {
    let key = format!(" {name}=\"");
    let at = tag.find(&key)? + key.len();
    let end = tag[at..].find('"')? + at;
    Some(&tag[at..end])
}
fn num(s: &str) -> usize { let mut n = 0; for c in s.chars() { match c.to_digit(10) { Some(d) => n = n * 10 + d as usize, None => break } } n }
fn hex(s: &str) -> (u8, u8, u8) { let p = |i: usize| u8::from_str_radix(&s[i..i + 2], 16).unwrap(); (p(1), p(3), p(5)) }
fn plain(s: &str) -> Vec<char> {
    let mut out = vec![]; let mut rest = s;
    while let Some(c) = rest.chars().next() {
        if c == '&' {
            let end = rest.find(';'); check(end.is_some(), "entities are closed"); let end = end.unwrap();
            out.push(match &rest[1..end] { "lt" => '<', "gt" => '>', "amp" => '&', "quot" => '"', "apos" => '\'', "#160" => ' ', _ => { check(false, "a known entity"); ' ' } });
            rest = &rest[end + 1..];
        } else { check(c != '<', "no stray markup"); out.push(c); rest = &rest[c.len_utf8()..]; }
    }
    out
}
/// The picture export, read back.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_svg() { read_back(fill(3, 5, false)) }
/// Every printable character.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_chars() {
    let mut c = Canvas::new(3, 2);
    for x in 0..tier(1, 2) { let mut t = String::new(); t.push((32 + pick(95) as u8) as char); c.put_str(x as i32, 0, &t, None, None, TextAttributes::default()); }
    read_back(c)
}
fn read_back(c: Canvas) {
    let w = 3usize;
    let cfg = SvgConfig { char_width: 1.0, line_height: 10.0, ..Default::default() };
    let svg = SvgRenderer::new(cfg).render(&c);
    note!("{}", &svg[svg.find("</defs>").unwrap()..]);
    let mut seen = vec![bare(); w * 2]; let mut painted = vec![false; w * 2];
    let mut rest = &svg[..];
    while let Some(at) = rest.find('<') {
        rest = &rest[at..];
        let end = rest.find('>').unwrap(); let tag = &rest[..end];
        if tag.starts_with("<rect") {
            if let Some(f) = attr(tag, "fill") {
                let (x, n, y) = (num(attr(tag, "x").unwrap()), num(attr(tag, "width").unwrap()), num(attr(tag, "y").unwrap()) / 10);
                check(num(attr(tag, "height").unwrap()) == 10, "backgrounds are a row high");
                for k in x..x + n { check(k < w && y < 2, "backgrounds lie on the canvas"); seen[y * w + k].bg = Some(hex(f)); }
            }
        } else if tag.starts_with("<text") {
            let (x, y, n) = (num(attr(tag, "x").unwrap()), num(attr(tag, "y").unwrap()) / 10, num(attr(tag, "textLength").unwrap()));
            let close = rest.find("</text>").unwrap(); let text = plain(&rest[end + 1..close]);
            let class = attr(tag, "class").unwrap();
            let rule = svg.find(&format!(".{class} {{ fill: #")); let fg = rule.map(|r| { let h = svg[r..].find('#').unwrap() + r; hex(&svg[h..h + 7]) });
            let st = attr(tag, "style").unwrap_or("");
            let mut k = x;
            for ch in text {
                check(k < w && y < 2, "text lies on the canvas"); check(!painted[y * w + k], "no two texts in one place");
                let mut l = Look { sym: ch.to_string(), fg, bg: seen[y * w + k].bg, attrs: [false; 6] };
                l.attrs[0] = st.contains("font-weight: bold"); l.attrs[2] = st.contains("font-style: italic"); l.attrs[3] = st.contains("underline"); l.attrs[4] = st.contains("line-through");
                painted[y * w + k] = true; seen[y * w + k] = l;
                k += if ch == '\u{5b57}' { 2 } else { 1 };
            }
            check(k == x + n, "texts are as long as they say");
        }
        rest = &rest[1..];
    }
    let want = held(&c, w, 2);
    for i in 0..w * 2 {
        check(seen[i].bg == want[i].bg, "every background is there");
        if want[i].sym.is_empty() { continue; }
        if want[i].sym == " " { check(seen[i].sym == " ", "blank where the canvas is"); if want[i].attrs[3] || want[i].attrs[4] { check(seen[i].attrs == want[i].attrs, "lines run through blanks"); } }
        else { check(seen[i] == want[i], "every character is there, in its place, colour and style"); }
    }
    reach("end");
}
entries!(h_ansi, h_svg, h_chars);
