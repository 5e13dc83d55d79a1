//! P14: text set in lines keeps every character, with its style, within the width.
use harness::*;
use tcss::types::{RgbaColor, TextOverflow, TextWrap};
use textual::content::Content;
use textual::segment::Style;
use textual::strip::Strip;
/// Kinds of character: letter (symbolic), space, newline, double-width.
struct Text { kinds: Vec<u8>, chars: Vec<char>, a: usize, b: usize, styled: bool, base: bool }
fn width_of(k: u8) -> usize { if k == 3 { 2 } else if k == 2 { 0 } else { 1 } }
/// A text of n characters of the kinds given, one stretch of it styled.
fn text(n: usize, kinds: &[u8]) -> Text {
    let mut t = Text { kinds: vec![], chars: vec![], a: 0, b: 0, styled: false, base: false };
    for _ in 0..n {
        let k = kinds[pick(kinds.len() as u64) as usize];
        let i = t.kinds.len() as u8; t.kinds.push(if k == 4 { 0 } else { k });
        t.chars.push(match k { 0 => range(b'a' as i64, b'z' as i64) as u8 as char, 1 => ' ', 2 => '\n', 4 => (b'a' + i) as char, _ => '漢' });
    }
    t
}
fn red() -> RgbaColor { RgbaColor::rgb(255, 0, 0) }
impl Text {
    fn content(&mut self) -> Content {
        let n = self.chars.len();
        match pick(2) {
            0 => { self.base = true; Content::new(self.chars.iter().collect::<String>()).with_style(Style { bold: true, ..Style::default() }) }
            _ => {
                self.styled = true;
                self.a = pick(n as u64) as usize; self.b = self.a + 1 + pick((n - self.a) as u64) as usize;
                let mut s = String::new();
                for i in 0..n { if i == self.a { s.push_str("[rgb(255,0,0)][@click=x]"); } s.push(self.chars[i]); if i + 1 == self.b { s.push_str("[/][/]"); } }
                match Content::from_markup(&s) { Ok(c) => c, Err(_) => { check(false, "the markup is accepted"); loop {} } }
            }
        }
    }
    /// The glyphs of a line as (index into the text, or none) checked against the text from index `at` on:
    /// every glyph is the next one of the text, with that glyph's style. Whitespace of the text may be skipped if `skip`.
    fn take(&self, st: &Strip, mut at: usize, skip: bool, words: &mut Vec<(usize, bool)>) -> usize {
        let mut w = 0;
        for seg in st.segments() {
            for c in seg.text().chars() {
                w += if c == '漢' || c as u32 > 0x2e80 { 2 } else { 1 };
                let ws = c == ' ';
                if skip && !ws { while at < self.chars.len() && (self.kinds[at] == 1 || self.kinds[at] == 2) { at += 1; } }
                if skip && ws {
                    // a blank of the line stands for blanks of the text
                    check(at < self.chars.len() && self.kinds[at] == 1, "blanks come from the text");
                    let s = at; while at < self.chars.len() && self.kinds[at] == 1 { at += 1; }
                    let _ = s; words.push((usize::MAX, false));
                    // further blanks of the same gap may follow
                    if at > s + 1 { at = s + 1; }
                } else {
                    check(at < self.chars.len(), "no text is invented");
                    if at >= self.chars.len() { return at; }
                    check(c == self.chars[at], "the characters are those of the text, in order");
                    words.push((at, true)); at += 1;
                }
                let on = self.styled && at - 1 >= self.a && at - 1 < self.b;
                let sty = seg.style().cloned().unwrap_or_default();
                if !ws || !skip {
                    check((sty.fg == Some(red())) == on && sty.bg.is_none(), "a character keeps its colour");
                    check((seg.get_meta("@click") == Some("x")) == on, "a character keeps its action");
                    check(sty.bold == self.base, "the content's own style stays");
                }
            }
        }
        check(st.cell_length() == w, "the reported width is the text's");
        at
    }
    fn lines(&self) -> usize { 1 + self.kinds.iter().filter(|&&k| k == 2).count() }
}
#[unsafe(no_mangle)] #[inline(never)] pub fn h_lines() {
    let n = 1 + pick(tier(5, 6)) as usize; let mut t = text(n, &[0, 1, 2, 3]); let c = t.content();
    let l = c.lines();
    check(l.len() == t.lines() && c.height() == l.len(), "one line for each line of text");
    let mut at = 0; let mut widest = 0;
    for (i, s) in l.iter().enumerate() {
        let mut w = Vec::new(); at = t.take(s, at, false, &mut w);
        if s.cell_length() > widest { widest = s.cell_length(); }
        if i + 1 < l.len() { check(at < t.chars.len() && t.kinds[at] == 2, "lines end at the newlines"); at += 1; }
    }
    check(at == t.chars.len(), "no text is lost");
    check(c.cell_length() == widest, "the width is the widest line's");
    observe(widest as u64);
    reach("end");
}
fn wrapping(n: usize, kinds: &[u8]) {
    let mut t = text(n, kinds); let c = t.content();
    let width = 1 + pick(tier(4, 6)) as usize;
    let l = c.wrap_with_line_end(width);
    let mut at = 0; let mut ends = 0; let total = t.chars.len(); let mut prev_end = true;
    for (i, wl) in l.iter().enumerate() {
        let mut words = Vec::new();
        let start = at; at = t.take(&wl.strip, at, true, &mut words);
        let glyphs = words.iter().filter(|w| w.1).count();
        check(wl.strip.cell_length() <= width || (glyphs == 1 && words.len() == 1), "no line exceeds the width");
        // words on one line are apart exactly where the text has blanks
        let mut last: Option<usize> = None; let mut blank = false;
        for &(ix, g) in &words { if g { if let Some(p) = last { check(blank == (ix != p + 1), "words stay apart and whole"); } last = Some(ix); blank = false; } else { blank = true; } }
        check(!blank || glyphs == 0, "no blanks at the end of a line");
        // a line breaks inside a word only if the word does not fit a line
        let _ = start;
        if let Some(f) = words.iter().find(|w| w.1) {
            let f = f.0;
            if f > 0 && (t.kinds[f - 1] == 0 || t.kinds[f - 1] == 3) && i > 0 {
                let mut s = f; while s > 0 && (t.kinds[s - 1] == 0 || t.kinds[s - 1] == 3) { s -= 1; }
                let mut e = f; while e < total && (t.kinds[e] == 0 || t.kinds[e] == 3) { e += 1; }
                let ww: usize = t.kinds[s..e].iter().map(|&k| width_of(k)).sum();
                check(ww > width, "only words wider than the line are broken");
                // and then the line above is full
                let up = l[i - 1].strip.cell_length();
                check(up + width_of(t.kinds[f]) > width, "a broken word fills its lines");
            } else if i > 0 && !prev_end {
                // a word moved to the next line did not fit the one above
                let mut e = f; while e < total && (t.kinds[e] == 0 || t.kinds[e] == 3) { e += 1; }
                let ww: usize = t.kinds[f..e].iter().map(|&k| width_of(k)).sum();
                let mut p = f; while p > 0 && t.kinds[p - 1] == 1 { p -= 1; }
                let gap = f - p;
                let mut ps = p; while ps > 0 && (t.kinds[ps - 1] == 0 || t.kinds[ps - 1] == 3) { ps -= 1; }
                let pw: usize = t.kinds[ps..p].iter().map(|&k| width_of(k)).sum();
                check(l[i - 1].strip.cell_length() + gap + ww > width || pw > width, "a word is moved down only if it does not fit");
            }
        }
        prev_end = wl.line_end;
        if wl.line_end {
            ends += 1;
            while at < total && t.kinds[at] == 1 { at += 1; }
            check(at == total || t.kinds[at] == 2, "the end of a line is marked where the text's line ends");
            if at < total { at += 1; }
            else { check(i + 1 == l.len(), "nothing follows the end of the text"); }
        }
    }
    check(ends == t.lines(), "every line of the text is there, blank ones too");
    while at < total && t.kinds[at] == 1 { at += 1; }
    check(at == total, "no text is lost");
    observe(l.len() as u64);
    reach("end");
}
#[unsafe(no_mangle)] #[inline(never)] pub fn h_wrap() { let n = 1 + pick(tier(5, 6)) as usize; wrapping(n, &[0, 1]); }
/// Longer texts of distinct letters.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_wrap_long() { let n = 6 + pick(tier(3, 4)) as usize; wrapping(n, &[4, 1]); }
#[unsafe(no_mangle)] #[inline(never)] pub fn h_wrap_wide() { let n = 1 + pick(tier(5, 6)) as usize; wrapping(n, &[0, 1, 3]); }
#[unsafe(no_mangle)] #[inline(never)] pub fn h_wrap_lines() { let n = 1 + pick(tier(5, 6)) as usize; wrapping(n, &[0, 1, 2]); }
/// Without wrapping: folded, clipped or cut short with an ellipsis.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_nowrap() {
    let n = 1 + pick(tier(5, 6)) as usize; let mut t = text(n, &[0, 1, 2, 3]); let c = t.content();
    let width = 1 + pick(tier(4, 6)) as usize; let mode = pick(3);
    let l = c.wrap_with_line_end_overflow(width, [TextOverflow::Fold, TextOverflow::Clip, TextOverflow::Ellipsis][mode as usize], TextWrap::NoWrap);
    let total = t.chars.len(); let mut at = 0; let mut ends = 0;
    for (i, wl) in l.iter().enumerate() {
        let mut end = at; while end < total && t.kinds[end] != 2 { end += 1; }
        let lw: usize = t.kinds[at..end].iter().map(|&k| width_of(k)).sum();
        if mode == 0 {
            let mut words = Vec::new(); let from = at; at = t.take(&wl.strip, at, false, &mut words);
            check(wl.strip.cell_length() <= width || words.len() == 1, "no line exceeds the width");
            check(at >= end || wl.strip.cell_length() + width_of(t.kinds[at]) > width, "folded lines are full");
            check(wl.line_end == (at >= end) && (at > from || lw == 0), "the last piece of a line is marked");
        } else {
            check(wl.line_end, "one line each");
            check(wl.strip.cell_length() == if lw < width { lw } else { width }, "a line too long is cut to the width, others are not");
            let cut = lw > width; let keep = if cut && mode == 2 { width - 1 } else { width };
            let mut x = 0; let mut j = at; let txt = wl.strip.text(); let mut it = txt.chars();
            while j < end && x + width_of(t.kinds[j]) <= keep {
                check(it.next() == Some(t.chars[j]), "the characters are those of the text, in order");
                x += width_of(t.kinds[j]); j += 1;
            }
            while cut && x < keep { check(it.next() == Some(' '), "half a wide character is blank"); x += 1; }
            if cut && mode == 2 { check(it.next() == Some('…'), "an ellipsis marks the cut"); }
            check(it.next().is_none(), "nothing follows");
            at = end;
        }
        if wl.line_end { ends += 1; if at < total { at += 1; } else { check(i + 1 == l.len(), "nothing follows the end of the text"); } }
    }
    check(ends == t.lines() && at == total, "every line of the text is there");
    reach("end");
}
/// Action links take the link colours and style, hovered ones the hover variants; nothing else does.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_link() {
    use tcss::types::TextStyle;
    let ts = |on: [bool; 5]| TextStyle { bold: on[0], dim: on[1], italic: on[2], reverse: on[3], strike: on[4], ..TextStyle::default() };
    let f5 = || [flag(), flag(), flag(), flag(), flag()];
    let (s, sh) = (f5(), f5()); let (u, uh) = (flag(), flag());
    let col = |on: bool, b: u8| if on { Some(RgbaColor::rgb(u8s(), u8s(), b)) } else { None };
    let ls = tcss::types::link::LinkStyle {
        color: col(split(flag()), 1), background: col(split(flag()), 2), color_hover: col(split(flag()), 3), background_hover: col(split(flag()), 4),
        style: TextStyle { underline: u, ..ts(s) }, style_hover: TextStyle { underline: uh, ..ts(sh) },
    };
    let hovered = pick(3);
    let c = match Content::from_markup("x[@click=a]y[/][link=u]z[/]") { Ok(c) => c, Err(_) => { check(false, "the markup is accepted"); return; } };
    let c = c.with_link_style(ls.clone()).with_hovered_action(match hovered { 0 => None, 1 => Some("a".to_string()), _ => Some("b".to_string()) });
    let l = c.lines();
    check(l.len() == 1 && l[0].text() == "xyz", "the text is as written");
    let hov = hovered == 1;
    for seg in l[0].segments() {
        let st = seg.style().cloned().unwrap_or_default();
        if seg.text() == "y" {
            let bg = if hov && ls.background_hover.is_some() { ls.background_hover.clone() } else { ls.background.clone() };
            let fg = if hov && ls.color_hover.is_some() { ls.color_hover.clone() } else { ls.color.clone() };
            check(st.bg == bg, "an action link has the link background, or the hover background under the pointer");
            if fg.is_some() { check(st.fg == fg, "an action link has the link colour, or the hover colour under the pointer"); }
            else { check(st.fg.is_some() == bg.is_some(), "a link without colour is made readable on its background"); }
            let want = |i: usize| s[i] | (hov & sh[i]);
            check((st.bold == want(0)) & (st.dim == want(1)) & (st.italic == want(2)) & (st.reverse == want(3)) & (st.strike == want(4)), "an action link has the link text style, and the hover style under the pointer");
            check(st.underline == if hov { u | uh } else { true }, "links are underlined");
        } else { check(st == Style::default(), "text that is no action link is left alone"); }
    }
    reach("end");
}
entries!(h_link, h_lines, h_wrap, h_wrap_long, h_wrap_wide, h_wrap_lines, h_nowrap);
