//! P09: any text given as a stylesheet is accepted or refused; nothing makes reading or applying it fail.
use harness::*;
use tcss::parser::cascade::{WidgetMeta, compute_style};
use tcss::parser::parse_stylesheet;
use tcss::types::{RgbaColor, Theme};
fn read(s: &str) -> bool {
    note!("{s:?}");
    let th = Theme::new("plain", true);
    let r = match parse_stylesheet(s) {
        Ok(sh) => {
            let m = WidgetMeta { type_name: "A", ..WidgetMeta::default() };
            let c = compute_style(&m, &[m.clone()], &sh, &th);
            observe(c.width.is_some() as u64); true
        }
        Err(e) => { check(!e.to_string().is_empty(), "a refusal says why"); false }
    };
    reach("end");
    r
}
/// Every short ASCII text.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_any() { let n = pick(tier(5, 6)) as usize; read(&ascii(n)); }
/// Short texts in every syntactic position.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_position() {
    const C: [(&str, &str); 12] = [
        ("A{", "}"), ("A{width:", "}"), ("A{width:1", "}"), ("A", "{width:1}"), ("A ", " B{width:1}"), ("A{width:1;", "}"), ("A{B", "{width:1}}"), ("A{&", "{width:1}}"),
        ("$a:1;\n", "A{width:$a}"), ("$a", ";\nA{width:$a}"), ("A{width:$", "}"), ("A{width:1}/", "B{width:2}"),
    ];
    let (a, b) = C[pick(12) as usize]; let n = pick(tier(4, 5)) as usize;
    let mut s = String::from(a); s.push_str(&ascii(n)); s.push_str(b); read(&s);
}
const PROPS: [&str; 91] = [
"color","background","tint","background-tint","width","height","max-height","max-width","min-height","min-width","margin","margin-top","margin-right","margin-bottom","margin-left","padding","padding-top","padding-right","padding-bottom","padding-left","border","scrollbar-color","scrollbar-color-hover","scrollbar-color-active","scrollbar-background","scrollbar-background-hover","scrollbar-background-active","scrollbar-corner-color","scrollbar-size","scrollbar-size-horizontal","scrollbar-size-vertical","scrollbar-gutter","scrollbar-visibility","box-sizing","display","visibility","opacity","position","overflow-x","overflow-y","overflow","layout","dock","layers","layer","grid-size","grid-columns","grid-rows","grid-gutter","column-span","row-span","link-color","link-color-hover","link-background","link-background-hover","link-style","link-style-hover","text-align","text-overflow","text-wrap","line-pad","text-opacity","text-style","content-align-horizontal","content-align-vertical","content-align","align-horizontal","align-vertical","align","border-title-align","border-subtitle-align","border-title-color","border-subtitle-color","border-title-background","border-subtitle-background","border-title-style","border-subtitle-style","border-top","border-bottom","border-left","border-right","outline","outline-top","outline-right","outline-bottom","outline-left","hatch","keyline","offset","offset-x","offset-y"];
/// Short values of every property.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_value() {
    let mut s = String::from("A{"); s.push_str(PROPS[pick(91) as usize]); s.push(':');
    let n = pick(tier(4, 5)) as usize; s.push_str(&ascii(n)); if split(flag()) { s.push('}'); } read(&s);
}
/// Characters beyond ASCII anywhere.
const PIECE: [&str; 26] = ["²", "red ", "\u{3000}", "\u{1E9E}", "é", "漢", "\u{301}", "\u{1F600}", "\u{a0}", "a", "1", "9999999999999999999999", "-", ".", "#", "%", "(", ")", "rgb", "hsl", ",", " ", "\"", "$", "e9", "K"];
#[unsafe(no_mangle)] #[inline(never)] pub fn h_unicode_value() {
    const P: [&str; 14] = ["color", "width", "margin", "border", "hatch", "layers", "text-style", "keyline", "grid-size", "opacity", "offset", "dock", "scrollbar-size", "unknown"];
    let mut s = String::from("A{"); s.push_str(P[pick(14) as usize]); s.push(':');
    for _ in 0..tier(3, 4) { s.push_str(PIECE[pick(26) as usize]); }
    s.push('}'); read(&s);
}
#[unsafe(no_mangle)] #[inline(never)] pub fn h_unicode() {
    const T: [&str; 18] = ["²", "\u{85}", "é", "漢", "A", "*", "{", "}", ":", ";", "width", ">", "&", "$a", "/*", "*/", "//", "\n"];
    let mut s = String::new(); for _ in 0..tier(4, 5) { s.push_str(T[pick(18) as usize]); } read(&s);
}
/// Colour text on its own.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_color() {
    let mut s = String::new();
    match pick(4) {
        0 => { let n = pick(tier(5, 6)) as usize; s = ascii(n); }
        1 => { s.push('#'); for _ in 0..pick(tier(6, 8)) { s.push_str(["é", "漢", "a", "9", "g"][pick(5) as usize]); } }
        k => {
            s.push_str(if k == 2 { ["rgb", "rgba", "RGB"][pick(3) as usize] } else { ["hsl", "hsla", "HSL"][pick(3) as usize] });
            for _ in 0..tier(4, 5) { s.push_str(["(", ")", ",", "1", "999", "50%", "-1", "é", "1e400", "nan"][pick(10) as usize]); }
        }
    }
    note!("{s:?}");
    if let Ok(c) = RgbaColor::parse(&s) { check(!s.trim().is_empty(), "nothing is not a colour"); observe(c.r as u64); }
    reach("end");
}
entries!(h_any, h_position, h_value, h_unicode_value, h_unicode, h_color);
