//! P10: a declaration sets exactly what it names to exactly what it says.
use harness::*;
use tcss::parser::cascade::{WidgetMeta, compute_style};
use tcss::parser::parse_stylesheet;
use tcss::types::*;
type CS = ComputedStyle;
fn style(decl: &str, th: &Theme) -> Option<CS> {
    let m = WidgetMeta { type_name: "A", ..WidgetMeta::default() };
    match parse_stylesheet(&format!("A {{ {decl} }}")) { Ok(s) => Some(compute_style(&m, &[], &s, th)), Err(_) => None }
}
fn is(decl: &str, want: CS) { is_in(decl, want, &Theme::new("plain", true)) }
fn is_in(decl: &str, want: CS, th: &Theme) {
    match style(decl, th) {
        Some(c) => { note!("{decl}: {c:?}\n want {want:?}"); check(c == want, "a declaration sets exactly what it names") }
        None => { note!("{decl}: rejected"); check(false, "the declaration is accepted") }
    }
    reach("end");
}
/// A number as a user writes it: n symbolic digits, perhaps a sign and one decimal.
fn number(o: &mut String, sign: bool, digits: usize, dec: bool) -> f64 {
    let mut n: u64 = 0;
    if sign { o.push('-'); }
    for _ in 0..digits { let d = below(10); o.push((b'0' + d as u8) as char); n = n * 10 + d; }
    if dec { o.push('.'); let d = below(10); o.push((b'0' + d as u8) as char); n = n * 10 + d; }
    let v = n as f64; let v = if dec { v / 10.0 } else { v };
    if sign { -v } else { v }
}
const UNITS: [(&str, Unit); 7] = [("", Unit::Cells), ("%", Unit::Percent), ("w", Unit::Width), ("h", Unit::Height), ("vw", Unit::ViewWidth), ("vh", Unit::ViewHeight), ("fr", Unit::Fraction)];
const SCALARS: [(&str, fn(&mut CS, Scalar)); 18] = [
    ("width", |c, s| c.width = Some(s)), ("height", |c, s| c.height = Some(s)), ("min-width", |c, s| c.min_width = Some(s)), ("max-width", |c, s| c.max_width = Some(s)),
    ("min-height", |c, s| c.min_height = Some(s)), ("max-height", |c, s| c.max_height = Some(s)),
    ("margin-top", |c, s| c.margin.top = s), ("margin-right", |c, s| c.margin.right = s), ("margin-bottom", |c, s| c.margin.bottom = s), ("margin-left", |c, s| c.margin.left = s),
    ("padding-top", |c, s| c.padding.top = s), ("padding-right", |c, s| c.padding.right = s), ("padding-bottom", |c, s| c.padding.bottom = s), ("padding-left", |c, s| c.padding.left = s),
    ("offset-x", |c, s| c.offset_x = Some(s)), ("offset-y", |c, s| c.offset_y = Some(s)),
    ("margin", |c, s| c.margin = Spacing { top: s, right: s, bottom: s, left: s }), ("padding", |c, s| c.padding = Spacing { top: s, right: s, bottom: s, left: s }),
];
fn end(o: &mut String) { o.push_str(["", ";", " ;", " !important;"][pick(4) as usize]); }
/// Every length property, every unit, every short number.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_scalar() {
    let (name, set) = SCALARS[pick(18) as usize]; let mut o = String::from(name); o.push(':'); if split(flag()) { o.push(' '); }
    let k = pick(8) as usize; let mut c = CS::default();
    if k == 7 { o.push_str("auto"); set(&mut c, Scalar { value: 0.0, unit: Unit::Auto }); }
    else {
        let fr = split(flag()); let v = number(&mut o, split(flag()), if fr { 1 } else { 1 + pick(3) as usize }, fr);
        o.push_str(UNITS[k].0); set(&mut c, Scalar { value: v, unit: UNITS[k].1 });
    }
    is(&o, c);
}
/// Sides: one, two or four values.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_sides() {
    let pad = split(flag()); let n = [2usize, 4][pick(2) as usize]; let mut o = String::from(if pad { "padding:" } else { "margin: " });
    let mut v = [Scalar::ZERO; 4]; let gap = [" ", "  ", "\t"][pick(3) as usize]; let wide = pick(4) as usize;
    for i in 0..n { if i > 0 { o.push_str(gap); } let u = pick(3) as usize; v[i] = Scalar { value: number(&mut o, false, 1 + (i == wide) as usize, false), unit: UNITS[u].1 }; o.push_str(UNITS[u].0); }
    end(&mut o);
    let s = if n == 2 { Spacing { top: v[0], right: v[1], bottom: v[0], left: v[1] } } else { Spacing { top: v[0], right: v[1], bottom: v[2], left: v[3] } };
    let mut c = CS::default(); if pad { c.padding = s } else { c.margin = s }
    is(&o, c);
}
/// Numbers and lists of the grid, spans, scrollbar sizes, offsets.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_numbers() {
    let mut o = String::new(); let mut c = CS::default(); let two = split(flag());
    let int = |o: &mut String| number(o, false, 1 + pick(2) as usize, false) as u16;
    let sc = |o: &mut String| { let u = pick(7) as usize; let v = number(o, false, 1, false); o.push_str(UNITS[u].0); Scalar { value: v, unit: UNITS[u].1 } };
    match pick(11) {
        0 => { o.push_str("grid-size: "); c.grid.columns = Some(int(&mut o)); if two { o.push(' '); c.grid.rows = Some(int(&mut o)); } }
        1 => { o.push_str("grid-columns: "); for i in 0..1 + pick(3) { if i > 0 { o.push(' '); } let s = sc(&mut o); c.grid.column_widths.push(s); } }
        2 => { o.push_str("grid-rows: "); for i in 0..1 + pick(3) { if i > 0 { o.push(' '); } let s = sc(&mut o); c.grid.row_heights.push(s); } }
        3 => { o.push_str("grid-gutter: "); let v = sc(&mut o); c.grid.gutter = (v, v); if two { o.push(' '); c.grid.gutter.1 = sc(&mut o); } }
        4 => { o.push_str("column-span: "); c.grid_placement.column_span = int(&mut o); }
        5 => { o.push_str("row-span: "); c.grid_placement.row_span = int(&mut o); }
        6 => { o.push_str("scrollbar-size: "); let h = int(&mut o); c.scrollbar.size.horizontal = h; c.scrollbar.size.vertical = h; if two { o.push(' '); c.scrollbar.size.vertical = int(&mut o); } }
        7 => { o.push_str("scrollbar-size-horizontal: "); c.scrollbar.size.horizontal = int(&mut o); }
        8 => { o.push_str("scrollbar-size-vertical: "); c.scrollbar.size.vertical = int(&mut o); }
        9 => { o.push_str("line-pad: "); c.line_pad = int(&mut o); }
        _ => { o.push_str("offset: "); c.offset_x = Some(sc(&mut o)); o.push(' '); c.offset_y = Some(sc(&mut o)); }
    }
    end(&mut o);
    is(&o, c);
}
const COLORS: [(&str, fn(&mut CS, RgbaColor)); 19] = [
    ("color", |c, k| { c.auto_color = k.auto; c.color = Some(k) }), ("background", |c, k| c.background = Some(k)), ("tint", |c, k| c.tint = Some(k)), ("background-tint", |c, k| c.background_tint = Some(k)),
    ("scrollbar-color", |c, k| c.scrollbar.color = Some(k)), ("scrollbar-color-hover", |c, k| c.scrollbar.color_hover = Some(k)), ("scrollbar-color-active", |c, k| c.scrollbar.color_active = Some(k)),
    ("scrollbar-background", |c, k| c.scrollbar.background = Some(k)), ("scrollbar-background-hover", |c, k| c.scrollbar.background_hover = Some(k)), ("scrollbar-background-active", |c, k| c.scrollbar.background_active = Some(k)), ("scrollbar-corner-color", |c, k| c.scrollbar.corner_color = Some(k)),
    ("link-color", |c, k| c.link.color = Some(k)), ("link-color-hover", |c, k| c.link.color_hover = Some(k)), ("link-background", |c, k| c.link.background = Some(k)), ("link-background-hover", |c, k| c.link.background_hover = Some(k)),
    ("border-title-color", |c, k| c.border_title_color = Some(k)), ("border-subtitle-color", |c, k| c.border_subtitle_color = Some(k)), ("border-title-background", |c, k| c.border_title_background = Some(k)), ("border-subtitle-background", |c, k| c.border_subtitle_background = Some(k)),
];
fn hexc(o: &mut String) -> u8 { let d = below(16) as u8; let up = flag(); let c = ite(d < 10, b'0'.wrapping_add(d) as u64, ite(up, b'A'.wrapping_add(d.wrapping_sub(10)) as u64, b'a'.wrapping_add(d.wrapping_sub(10)) as u64)) as u8; o.push(c as char); d }
/// A hexadecimal colour with one symbolic component.
fn hex(o: &mut String, wide: bool, alpha: bool) -> RgbaColor {
    o.push('#'); let n = if alpha { 4 } else { 3 }; let free = pick(n) as usize; let mut v = [0u8; 4];
    for i in 0..n as usize {
        v[i] = if i == free { if wide { let h = hexc(o); let l = hexc(o); h * 16 + l } else { hexc(o) * 17 } } else { o.push_str(if wide { ["00", "11", "e2", "F3"][i] } else { ["0", "1", "e", "F"][i] }); if wide { [0, 0x11, 0xe2, 0xf3][i] } else { [0, 0x11, 0xee, 0xff][i] } };
    }
    RgbaColor::rgba(v[0], v[1], v[2], if alpha { v[3] as f32 / 255.0 } else { 1.0 })
}
fn rgb(o: &mut String) -> RgbaColor {
    let alpha = split(flag()); let free = pick(3) as usize; let mut v = [0u8; 3];
    o.push_str(if alpha { "rgba(" } else { "RGB(" });
    for i in 0..3 { if i > 0 { o.push_str(", "); } if i == free { let n = 1 + pick(3) as usize; let x = number(o, false, n, false) as u32; assume(x <= 255); v[i] = x as u8; } else { o.push_str(["1", "22", "255"][i]); v[i] = [1, 22, 255][i]; } }
    let mut a = 1.0; if alpha { let k = pick(4) as usize; o.push(','); o.push_str(["0.5", "0", "1", " 0.25 "][k]); a = [0.5, 0.0, 1.0, 0.25][k]; }
    o.push(')');
    RgbaColor::rgba(v[0], v[1], v[2], a)
}
#[unsafe(no_mangle)] #[inline(never)] pub fn h_color() {
    let (name, set) = COLORS[pick(19) as usize]; let mut o = String::from(name); o.push(':'); if split(flag()) { o.push(' '); }
    let mut k = match pick(6) {
        0 => hex(&mut o, false, split(flag())), 1 => hex(&mut o, true, split(flag())), 2 => rgb(&mut o),
        3 => { let i = pick(4) as usize; o.push_str(["red", "Transparent", "rebeccaPurple", "LIME"][i]); [RgbaColor::rgb(255, 0, 0), RgbaColor::rgba(0, 0, 0, 0.0), RgbaColor::rgb(102, 51, 153), RgbaColor::rgb(0, 255, 0)][i].clone() }
        4 => { o.push_str("auto"); RgbaColor::auto(1.0) }
        _ => { let i = pick(4) as usize; o.push_str(["hsl(0,100%,50%)", "hsl(120, 100%, 25%)", "hsla(240,100%,50%,0.5)", "hsl(0, 0%, 100%)"][i]); [RgbaColor::rgb(255, 0, 0), RgbaColor::rgb(0, 128, 0), RgbaColor::rgba(0, 0, 255, 0.5), RgbaColor::rgb(255, 255, 255)][i].clone() }
    };
    match pick(3) { 0 => {} i => { o.push_str([" ", "\t "][i as usize - 1]); let p = number(&mut o, false, 1 + pick(2) as usize, false); o.push('%'); k.a = p as f32 / 100.0; } }
    end(&mut o);
    let mut c = CS::default(); set(&mut c, k);
    is(&o, c);
}
/// Theme colours, their alpha, and locally defined names.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_theme() {
    let mut th = Theme::new("plain", true);
    let (p, q) = (RgbaColor::rgb(u8s(), u8s(), u8s()), RgbaColor::rgba(u8s(), 2, 3, 0.5));
    th.colors.insert("p".into(), p.clone()); th.colors.insert("p-hover".into(), q.clone());
    let (name, set) = COLORS[pick(19) as usize]; let w = split(flag()); let mut o = format!("{name}: ${}", if w { "p-hover" } else { "p" });
    let mut k = if w { q } else { p };
    if split(flag()) { o.push(' '); let v = number(&mut o, false, 1 + pick(2) as usize, false); o.push('%'); k.a = v as f32 / 100.0; }
    end(&mut o);
    let mut c = CS::default(); set(&mut c, k);
    is_in(&o, c, &th);
}
const KINDS: [(&str, BorderKind); 18] = [("none", BorderKind::None), ("hidden", BorderKind::None), ("ascii", BorderKind::Ascii), ("blank", BorderKind::Blank), ("block", BorderKind::Block), ("dashed", BorderKind::Dashed), ("double", BorderKind::Double), ("heavy", BorderKind::Heavy), ("hkey", BorderKind::Hkey), ("inner", BorderKind::Inner), ("outer", BorderKind::Outer), ("panel", BorderKind::Panel), ("round", BorderKind::Round), ("solid", BorderKind::Solid), ("tall", BorderKind::Tall), ("thick", BorderKind::Thick), ("vkey", BorderKind::Vkey), ("wide", BorderKind::Wide)];
const EDGES: [(&str, fn(&mut CS, BorderEdge)); 10] = [
    ("border", |c, e| c.border = Border { top: e.clone(), right: e.clone(), bottom: e.clone(), left: e }), ("border-top", |c, e| c.border.top = e), ("border-right", |c, e| c.border.right = e), ("border-bottom", |c, e| c.border.bottom = e), ("border-left", |c, e| c.border.left = e),
    ("outline", |c, e| c.outline = Border { top: e.clone(), right: e.clone(), bottom: e.clone(), left: e }), ("outline-top", |c, e| c.outline.top = e), ("outline-right", |c, e| c.outline.right = e), ("outline-bottom", |c, e| c.outline.bottom = e), ("outline-left", |c, e| c.outline.left = e),
];
#[unsafe(no_mangle)] #[inline(never)] pub fn h_border() {
    let (name, set) = EDGES[pick(10) as usize]; let (kn, kind) = KINDS[pick(18) as usize]; let mut o = format!("{name}: "); let gap = [" ", "\t", "\n  "][pick(3) as usize];
    let color = match pick(3) {
        0 => { o.push_str(kn); None }
        1 => { o.push_str(kn); o.push_str(gap); Some(hex(&mut o, true, false)) }
        _ => { let k = hex(&mut o, false, true); o.push_str(gap); o.push_str(kn); Some(k) }
    };
    end(&mut o);
    let mut c = CS::default(); set(&mut c, BorderEdge { kind, color });
    is(&o, c);
}
/// Theme colours in borders, outlines, keylines and hatches; colour functions in borders.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_border_theme() {
    let mut th = Theme::new("plain", true); let p = RgbaColor::rgb(u8s(), u8s(), u8s());
    th.colors.insert("p".into(), p.clone());
    let n = pick(12) as usize; let mut k = p; let mut o = String::new(); let mut c = CS::default(); let first = split(flag()); let f = split(flag());
    let mut t = String::from("$p"); if f { t.clear(); k = rgb(&mut t); }
    if n < 10 {
        if !f && split(flag()) { t.push(' '); let v = number(&mut t, false, 1 + pick(2) as usize, false); t.push('%'); k.a = v as f32 / 100.0; }
        let (name, set) = EDGES[n]; o.push_str(&if first { format!("{name}: {t} heavy") } else { format!("{name}: heavy {t}") }); set(&mut c, BorderEdge { kind: BorderKind::Heavy, color: Some(k) });
    } else if n == 10 { o.push_str(&format!("keyline: thin {t}")); c.keyline = Keyline { style: KeylineStyle::Thin, color: k }; }
    else { o.push_str(&format!("hatch: cross {t}")); c.hatch = Some(Hatch::new(HatchPattern::Cross, k)); }
    end(&mut o);
    is_in(&o, c, &th);
}
const WORDS: [(&str, fn(&mut CS)); 53] = [
    ("display: block", |c| c.display = Display::Block), ("display: none", |c| c.display = Display::None),
    ("visibility: visible", |c| { c.visibility = Visibility::Visible; c.visibility_set = true }), ("visibility: hidden", |c| { c.visibility = Visibility::Hidden; c.visibility_set = true }),
    ("box-sizing: content-box", |c| c.box_sizing = BoxSizing::ContentBox), ("box-sizing: border-box", |c| c.box_sizing = BoxSizing::BorderBox),
    ("position: relative", |c| c.position = Position::Relative), ("position: absolute", |c| c.position = Position::Absolute),
    ("overflow-x: hidden", |c| c.overflow_x = Overflow::Hidden), ("overflow-x: auto", |c| c.overflow_x = Overflow::Auto), ("overflow-x: scroll", |c| c.overflow_x = Overflow::Scroll),
    ("overflow-y: auto", |c| c.overflow_y = Overflow::Auto), ("overflow-y: scroll", |c| c.overflow_y = Overflow::Scroll),
    ("overflow: auto", |c| { c.overflow_x = Overflow::Auto; c.overflow_y = Overflow::Auto }), ("overflow: scroll hidden", |c| { c.overflow_x = Overflow::Scroll; c.overflow_y = Overflow::Hidden }), ("overflow: hidden  auto", |c| { c.overflow_x = Overflow::Hidden; c.overflow_y = Overflow::Auto }),
    ("layout: vertical", |c| c.layout = Layout::Vertical), ("layout: horizontal", |c| c.layout = Layout::Horizontal), ("layout: grid", |c| c.layout = Layout::Grid),
    ("dock: top", |c| c.dock = Some(Dock::Top)), ("dock: bottom", |c| c.dock = Some(Dock::Bottom)), ("dock: left", |c| c.dock = Some(Dock::Left)), ("dock: right", |c| c.dock = Some(Dock::Right)),
    ("layers: below above", |c| c.layers = Some(vec!["below".into(), "above".into()])), ("layer: above", |c| c.layer = Some("above".into())),
    ("text-align: left", |c| c.text_align = TextAlign::Left), ("text-align: center", |c| c.text_align = TextAlign::Center), ("text-align: right", |c| c.text_align = TextAlign::Right), ("text-align: justify", |c| c.text_align = TextAlign::Justify), ("text-align: start", |c| c.text_align = TextAlign::Start), ("text-align: end", |c| c.text_align = TextAlign::End),
    ("text-overflow: clip", |c| c.text_overflow = TextOverflow::Clip), ("text-overflow: fold", |c| c.text_overflow = TextOverflow::Fold), ("text-overflow: ellipsis", |c| c.text_overflow = TextOverflow::Ellipsis),
    ("text-wrap: wrap", |c| c.text_wrap = TextWrap::Wrap), ("text-wrap: nowrap", |c| c.text_wrap = TextWrap::NoWrap),
    ("content-align-horizontal: center", |c| c.content_align_horizontal = AlignHorizontal::Center), ("content-align-vertical: bottom", |c| c.content_align_vertical = AlignVertical::Bottom), ("content-align: right middle", |c| { c.content_align_horizontal = AlignHorizontal::Right; c.content_align_vertical = AlignVertical::Middle }), ("content-align: center bottom", |c| { c.content_align_horizontal = AlignHorizontal::Center; c.content_align_vertical = AlignVertical::Bottom }),
    ("align-horizontal: right", |c| c.align_horizontal = AlignHorizontal::Right), ("align-vertical: middle", |c| c.align_vertical = AlignVertical::Middle), ("align: center top", |c| { c.align_horizontal = AlignHorizontal::Center; c.align_vertical = AlignVertical::Top }), ("align: right bottom", |c| { c.align_horizontal = AlignHorizontal::Right; c.align_vertical = AlignVertical::Bottom }),
    ("border-title-align: center", |c| c.border_title_align = AlignHorizontal::Center), ("border-subtitle-align: left", |c| c.border_subtitle_align = AlignHorizontal::Left),
    ("scrollbar-gutter: stable", |c| c.scrollbar.gutter = ScrollbarGutter::Stable), ("scrollbar-gutter: auto", |c| c.scrollbar.gutter = ScrollbarGutter::Auto), ("scrollbar-visibility: hidden", |c| c.scrollbar.visibility = ScrollbarVisibility::Hidden), ("scrollbar-visibility: visible", |c| c.scrollbar.visibility = ScrollbarVisibility::Visible),
    ("keyline: heavy #00ff00", |c| c.keyline = Keyline { style: KeylineStyle::Heavy, color: RgbaColor::rgb(0, 255, 0) }), ("keyline: thin rgb(1,2,3)", |c| c.keyline = Keyline { style: KeylineStyle::Thin, color: RgbaColor::rgb(1, 2, 3) }),
    ("keyline: double red", |c| c.keyline = Keyline { style: KeylineStyle::Double, color: RgbaColor::rgb(255, 0, 0) }),
];
/// Two keyword declarations: each sets its own field, the later one wins a conflict.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_words() {
    let (a, fa) = WORDS[pick(53) as usize]; let (b, fb) = WORDS[pick(53) as usize];
    let mut o = String::from(a); o.push_str(["; ", ";", ";\n\t", ";;"][pick(3) as usize]); o.push_str(b); end(&mut o);
    let mut c = CS::default(); fa(&mut c); fb(&mut c);
    is(&o, c);
}
/// Text styles: any set of words.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_text_style() {
    const T: [(&str, fn(&mut CS) -> &mut TextStyle); 5] = [("text-style", |c| &mut c.text_style), ("link-style", |c| &mut c.link.style), ("link-style-hover", |c| &mut c.link.style_hover), ("border-title-style", |c| &mut c.border_title_style), ("border-subtitle-style", |c| &mut c.border_subtitle_style)];
    const W: [&str; 11] = ["bold", "dim", "italic", "underline", "underline2", "blink", "blink2", "reverse", "strike", "overline", "none"];
    let (name, get) = T[pick(5) as usize]; let mut o = format!("{name}:"); let mut c = CS::default(); let s = get(&mut c);
    for _ in 0..1 + pick(3) {
        let k = pick(11) as usize; o.push(' '); o.push_str(W[k]);
        match k { 0 => s.bold = true, 1 => s.dim = true, 2 => s.italic = true, 3 => s.underline = true, 4 => s.underline2 = true, 5 => s.blink = true, 6 => s.blink2 = true, 7 => s.reverse = true, 8 => s.strike = true, 9 => s.overline = true, _ => *s = TextStyle::default() }
    }
    o.push_str(["", ";", " ;"][pick(3) as usize]);
    is(&o, c);
}
/// Opacities, as fractions and percentages, limited to 0..1.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_opacity() {
    let text = split(flag()); let mut o = String::from(if text { "text-opacity: " } else { "opacity: " }); let mut c = CS::default();
    let pct = split(flag()); let neg = split(flag()); let v = if pct { number(&mut o, neg, 1 + pick(3) as usize, false) } else { number(&mut o, neg, 1, split(flag())) }; if pct { o.push('%'); }
    end(&mut o);
    let v = if pct { v / 100.0 } else { v }; let v = if v < 0.0 { 0.0 } else if v > 1.0 { 1.0 } else { v };
    if text { c.text_opacity = v } else { c.opacity = v }
    is(&o, c);
}
/// Hatches.
#[unsafe(no_mangle)] #[inline(never)] pub fn h_hatch() {
    let (p, pat) = match pick(6) { 0 => ("left".to_string(), HatchPattern::Left), 1 => ("right".to_string(), HatchPattern::Right), 2 => ("cross".to_string(), HatchPattern::Cross), 3 => ("horizontal".to_string(), HatchPattern::Horizontal), 4 => ("vertical".to_string(), HatchPattern::Vertical),
        _ => { let q = ['"', '\''][pick(2) as usize]; let ch = match pick(3) { 0 => '漢', 1 => '╳', _ => { let c = range(33, 126) as u8; assume((c != b'"') & (c != b'\'') & (c != b'/') & (c != b'$')); c as char } }; (format!("{q}{ch}{q}"), HatchPattern::Custom(ch)) } };
    let mut o = format!("hatch: {p} "); let k = hex(&mut o, true, false); end(&mut o);
    let mut c = CS::default(); c.hatch = Some(Hatch::new(pat, k));
    is(&o, c);
}
entries!(h_scalar, h_sides, h_numbers, h_color, h_theme, h_border, h_border_theme, h_words, h_text_style, h_opacity, h_hatch);
