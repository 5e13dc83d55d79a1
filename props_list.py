NAP = []
CANVAS = "crates/textual/src/canvas.rs"
prop("P01", "Drawing is confined to the visible clip and the screen",
  "Whatever is drawn, at any coordinates and under any stack of nested clip regions, changes exactly the cells that lie inside every active clip and on the screen, and shows the drawn text there. Nothing is ever drawn elsewhere, nothing wraps round an edge, a double-width glyph is drawn whole or not at all, and no coordinate or screen size makes drawing fail.",
  ["inputs", "histories"], "every sequence of clip pushes, pops and draws, every coordinate and every terminal size",
  "Tests draw at a few fixed positions with at most one clip; clipping errors need a particular edge, nesting or size.",
  [CANVAS], [("clip stack and bounds tests in cell writes", CANVAS + ":180-345"), ("region intersection", CANVAS + ":35-110")], "p01",
  [e("h_region", "region intersection and containment", "any two regions and any point over the full 32-bit range (far edges ≤ i32::MAX)"),
   e("h_ops2", "two operations (clip push/pop, char, string, strip) against a reference grid", "3×2 screen, symbolic clips in -2..4, positions in -3..4"),
   e("h_ops3", "three operations against a reference grid", "as h_ops2, three operations"),
   e("h_clear", "clear() forgets contents and clips", "3×2 screen, up to two clips"),
   e("h_far", "any 32-bit coordinates and clip rectangle", "full i32 range (strips: start < i32::MAX-8)"),
   e("h_wide", "double-width glyphs at clip and screen edges", "4×1 screen, clip -1..5, position -3..5"),
   e("h_sizes", "canvas sizes", "0×4, 3×0, 1×1, 300×220, 257×255", "also 65535×1, 1×65535, 640×400")],
  outside="screens larger than 3×2 for the reference-grid runs, more than three operations, strips starting within 8 cells of i32::MAX")
prop("P02", "After every flush the terminal shows exactly the canvas",
  "After each flush, a terminal that interprets the bytes sent so far shows for every cell the character, colours and text attributes the canvas held, for every history of frames, clears and forced redraws. The output contains only well-formed sequences that keep the cursor on screen and never scroll it.",
  ["histories", "inputs"], "every history of frames and every cell content",
  "Tests look at canvas cells, not at the bytes sent; differential redraw errors need a particular pair of consecutive frames.",
  [CANVAS], [("full and differential flush", CANVAS + ":375-520"), ("buffer swap", CANVAS + ":390")], "p02",
  [e("h_attrs", "all attribute combinations on adjacent cells", "2×1 screen, 6 symbolic attribute bits per cell (pairs restricted to complementary masks)", "2×1 screen, all 4096 pairs"),
   e("h_diff", "consecutive frames", "3×1 screen, two frames, four looks per cell", "six looks per cell"),
   e("h_hist", "histories with clear, overlay and forced redraw of a scrambled terminal", "2×2 screen, three frames", "2×2 screen, four frames"),
   e("h_color", "every opaque 24-bit colour", "all 2^24 colours, foreground and background"),
   e("h_chars", "every printable ASCII character in two frames", "2×1 screen"),
   e("h_wide", "double-width glyphs that move, overlap and vanish", "4×1 screen, two frames of two draws", "two frames of three draws")],
  outside="screens larger than those listed; text with control characters, zero-width or combining code points")
HOR, VER, SIZ = "crates/textual/src/layouts/horizontal.rs", "crates/textual/src/layouts/vertical.rs", "crates/textual/src/layouts/size_resolver.rs"
prop("P03", "Rows and columns share out their space exactly",
  "In a row or column every child is placed once, in order, separated by the larger of the two facing margins; fixed sizes are respected, flexible children divide exactly the space the region has left in proportion to their weights, and no cell is lost or invented by rounding. Relative sizes add up without drift, minimum and maximum sizes are honoured with the minimum winning, and a content-box size excludes border and padding.",
  ["inputs"], "every container size and position and every combination of child sizes, weights, limits and margins",
  "Tests sample a few sizes that divide evenly or were recorded; rounding and margin errors appear only at particular sizes and mixes of children.",
  [HOR, VER, SIZ, "crates/textual/src/fraction.rs"], [("row widths: fixed, fr, remainders", HOR + ":40-190"), ("column heights and positions", VER + ":95-320"), ("box sizing", SIZ + ":200-300")], "p03",
  [e("h_row2", "two children in a row, with margins", "region position -60..60, size 0..127; fr 1..3, fixed 0..40, desired 0..40, fill; margins 0..3"),
   e("h_row3", "three children in a row", "as h_row2 without margins and fill", "as h_row2 without margins"),
   e("h_row_limits", "minimum and maximum widths", "all symbolic: width 0..127, child 0..40, limits 0..60"),
   e("h_row_percent", "relative widths (%, w, h, vw, vh)", "width 0..24, four percentages, three children", "width 0..60, six percentages"),
   e("h_row_height", "heights in a row", "symbolic heights, limits and margins"),
   e("h_chrome", "content-box and border-box sizes", "symbolic sizes and padding, all border combinations"),
   e("h_col_fixed", "three fixed children in a column with margins and limits", "all symbolic, sizes 0..40, margins 0..5"),
   e("h_col2", "fixed and flexible children in a column, margins", "height 0..47, weights 0.5..4", "height 0..127"),
   e("h_col3", "three fixed and flexible children in a column", "height 0..47, weights 0.5..4", "height 0..127"),
   e("h_col_many", "many equal rows", "4..9 rows, height 1..120", "4..14 rows"),
   e("h_col_dock", "a column beside a docked widget, any viewport", "height 12..100, viewport 1..200"),
   e("h_col_width", "widths in a column", "symbolic widths, limits and margins; percentages for widths 0..40"),
   e("h_limits_units", "relative limits in every unit", "thirteen container sizes, symbolic child size")],
  outside="more than three mixed children, widths of children of a column in w/h/vw/vh units (taken as cells by the code), negative margins, columns with no space left for flexible children")
LAY, GRID = "crates/textual/src/layouts/mod.rs", "crates/textual/src/layouts/grid.rs"
prop("P04", "Docks, alignment, offsets, absolute children and layers place soundly",
  "Every child of a container is placed exactly once: docked children take the whole of their edge and the others share exactly the region they leave, alignment moves the group as a whole by its share of the free space and never past the start, and an offset moves its own child only. An absolute child stands at the content origin with its own size and leaves its siblings untouched, and each layer is laid out as if alone and stacked in declared order above undeclared layers.",
  ["inputs"], "every container region, child size, offset, dock edge, alignment and layer assignment",
  "Tests fix one container size and one feature at a time; interactions and clamping at small sizes are not sampled.",
  [LAY], [("dock, layout, align, offset, absolute", LAY + ":160-345"), ("alignment and offset", LAY + ":455-610"), ("layers", LAY + ":735-860")], "p04",
  [e("h_dock", "two docked children and a fixed one, any order", "region -60..60, size 0..127, docks 0..20, all symbolic"),
   e("h_dock_fill", "a filling child beside any set of docks, in all three layouts", "size 41..127, docks 0..20"),
   e("h_align", "nine alignments of two children with margins", "one axis at a time symbolic: position -60..60, size 0..127, children 0..60, margins 0..3"),
   e("h_offset", "offsets of one of three children, with and without dock and alignment", "offset -30..30, sizes 0..40, region symbolic"),
   e("h_offset_units", "relative offsets in every unit", "four percentages, widths 0..20"),
   e("h_absolute", "an absolute child among siblings, with dock, limits and offset", "sizes 0..40, limits 0..50, offset -30..30"),
   e("h_layers", "three children on four layers, five layer declarations", "sizes 0..40, region symbolic")],
  outside="more children; offsets and sizes beyond those listed; sizes of docked children come from what they ask for")
prop("P05", "The grid gives every child its own cells and shares out its tracks",
  "Grid children take the first free cells in reading order, cover exactly the tracks they span plus the gutters between, never overlap, and with automatic rows none is ever left out. Track sizes are as declared, flexible tracks divide exactly the remaining space, tracks are one gutter apart, a child keeps within its cell's width and its margins, and keylines follow the same tracks.",
  ["inputs"], "every grid size, span combination, track specification and region",
  "Tests use a handful of grids; overlaps and dropped children need particular spans, and rounding needs particular widths.",
  [GRID], [("track sizes", GRID + ":145-350"), ("placement with spans", GRID + ":350-430"), ("keyline tracks", GRID + ":440-600"), ("arrange", GRID + ":600-830")], "p05",
  [e("h_columns", "column widths: fixed, fr, auto, cycling specifications", "1..3 columns, width 0..60, fixed 0..15, gutter 0..3, symbolic", "width 0..120, fixed 0..30"),
   e("h_rows", "row heights", "as h_columns", "as h_columns"),
   e("h_place_auto", "spans with automatic rows, and keyline tracks", "1..3 columns, four children (the last unspanned), spans 0..3", "four children, all spans 0..3"),
   e("h_place_fixed", "spans with a fixed number of rows, and keyline tracks", "1..3 columns, 1..3 rows, four children (the last unspanned), spans 0..3", "four children, all spans 0..3"),
   e("h_many", "many unspanned children", "1..9 children, 1..5 columns, symbolic track sizes", "1..14 children"),
   e("h_cell", "a child within its cell", "all symbolic: cell 1..90, child 0..90, margins 0..4"),
   e("h_content", "content-sized tracks", "four children 1..20, gutter 0..2, symbolic"),
   e("h_min_width", "column count from a minimum width", "minimum 1..9, width 1..60", "minimum 1..20, width 1..120")],
  outside="more children or columns, grids whose content does not fit (tracks shrink to one cell)")
SCROLL, SBAR = "crates/textual/src/scroll.rs", "crates/textual/src/scrollbar.rs"
prop("P06", "Scroll offsets stay in range and the scrollbar shows them",
  "After any history of scrolling and of content or viewport resizing, the offset lies between zero and content minus viewport, and has moved by the amount asked, clamped. The scrollbar is confined to its track, its thumb is one piece whose length shows the visible fraction and whose position shows the offset, and it touches the ends exactly at the ends.",
  ["inputs", "histories"], "every sequence of scroll operations and resizes, and every size and offset",
  "Tests sample a few operations and round proportions; clamping and eighth-of-a-cell rounding errors appear at particular sizes.",
  [SCROLL, SBAR], [("clamped offsets", SCROLL + ":95-160"), ("thumb geometry", SBAR + ":1-260")], "p06",
  [e("h_step", "one operation from any valid state (inductive: histories of any length)", "sizes and offsets 0..2^24, any 32-bit amount"),
   e("h_to", "scrolling to any float position, NaN and infinities included", "all 2^32 floats, sizes 0..2^24"),
   e("h_percent", "scroll position as a fraction", "sizes and offset 0..2000"),
   e("h_vbar", "vertical scrollbar, symbolic position", "track 1..2, content 1..6", "track 1..3, content 1..8"),
   e("h_hbar", "horizontal scrollbar, symbolic position", "track 1..2, content 1..6", "track 1..3, content 1..8"),
   e("h_vbar_cases", "vertical scrollbar over every geometry", "track 1..6, content 1..24", "track 1..8, content 1..60"),
   e("h_hbar_cases", "horizontal scrollbar over every geometry", "track 1..6, content 1..24", "track 1..8, content 1..60")],
  outside="content sizes above those listed for the drawn scrollbar; animated scrolling")
STR, SEG = "crates/textual/src/strip.rs", "crates/textual/src/segment.rs"
prop("P07", "Lines of styled text are cut, padded and merged without losing a cell",
  "Cropping, dividing, joining, padding, aligning, justifying and merging a line of styled text yields exactly the cells, looks and links that the operation names, of exactly the width asked for, and the reported widths always equal the text's. A wide character cut in half leaves a space in each half, splitting a single run of text keeps such a character whole on the left, and restyling, fading, tinting or hatching never changes the width.",
  ["inputs"], "every line of text, style and link and every cut position and width",
  "Tests use plain ASCII lines cut at convenient positions.",
  [STR, SEG], [("crop, divide, align, justify, simplify", STR + ":160-430"), ("split, crop, restyle", SEG + ":220-400")], "p07",
  [e("h_crop", "crops of one to three runs against a cell-by-cell reference", "printable text, one double-width glyph, two glyphs a run, every start and end", "three glyphs a run"),
   e("h_split", "splitting one run", "up to three glyphs, one wide, every cut"),
   e("h_divide", "dividing at two cuts and at none", "up to seven cells, every increasing pair of cuts"),
   e("h_fit", "padding, alignment, blank lines", "widths 0 to three more than the line, with and without a padding style"),
   e("h_justify", "justification", "six characters in two runs, every pattern of gaps, widths 0..10", "widths 0..14"),
   e("h_simplify", "merging neighbours, with styles and links", "up to three runs, four styles, three links"),
   e("h_join", "joining and collecting", "two lines of up to three runs"),
   e("h_style", "styles, tint, fading, hatch", "symbolic attributes and colours")],
  outside="lines of more than three runs or seven cells, combining marks, hatch characters that are not one cell wide, exact tinted or faded colours (see the colour property)")
FRA = "crates/textual/src/fraction.rs"
prop("P08", "The rational arithmetic behind layout is exact",
  "Sums, differences, products, scaling, rounding down and fractional parts of the rational numbers used to share out space are exact, and two equal ratios are equal however they were produced. Sharing a whole number of cells into equal parts with the remainder carried forward gives shares that differ by at most one and add up to the whole.",
  ["inputs"], "every numerator and denominator and every number of parts",
  "Tests sample a few ratios; sign and rounding errors show only at particular remainders.",
  [FRA], [("construction, floor, fract, operators", FRA + ":38-125")], "p08",
  [e("h_value", "construction, floor, fractional part, equality", "numerator -30..30 symbolic, denominator -8..8", "numerator -120..120"),
   e("h_ops", "sum, difference, product, scaling", "numerators -30..30 symbolic and -2..3, denominators 1..6", "numerator -120..120, denominators 1..9"),
   e("h_share", "sharing out with carried remainder", "0..30 cells, 1..6 parts", "0..120 cells, 1..9 parts")],
  outside="larger numerators and denominators, and values near the ends of the 64-bit range, which overflow")
PM, PV, PS, PC, PVAR = ("crates/tcss/src/parser/" + x for x in ("mod.rs", "values.rs", "selectors.rs", "cascade.rs", "variables.rs"))
HM = ["HashMap hashing keys fixed to constants (results must not depend on them)"]
prop("P09", "Any text given as a stylesheet is accepted or refused, never a crash",
  "Reading any text as a stylesheet, or as a colour, either accepts it or refuses it with a message. No text makes reading fail, overflow or hang, whatever its characters, and applying an accepted stylesheet to a widget never fails.",
  ["inputs"], "every text",
  "Tests feed well-formed stylesheets and a few malformed ones; a crash needs one particular malformed text.",
  ["crates/tcss/src/parser", "crates/tcss/src/types/color.rs"], [("stylesheet reader", PM + ":72-420"), ("values", PV), ("variables", PVAR), ("colours", "crates/tcss/src/types/color.rs:436-640")], "p09",
  [e("h_any", "every short text", "every ASCII text of up to 4 characters", "up to 5 characters"),
   e("h_position", "every short text in each of twelve syntactic positions", "every ASCII text of up to 3 characters", "up to 4 characters"),
   e("h_value", "every short value of every property", "91 properties, every ASCII value of up to 3 characters", "up to 4 characters"),
   e("h_unicode_value", "values with non-ASCII characters, huge numbers and stray punctuation", "14 properties, three of 26 pieces", "four of 26 pieces"),
   e("h_unicode", "token sequences with non-ASCII names, comments and variables", "four of 18 tokens", "five of 18 tokens"),
   e("h_color", "colour texts", "ASCII up to 4 characters, # and five of five pieces, rgb and hsl with four of ten pieces", "one piece more each")],
  assumptions=HM, outside="longer texts; arbitrary Unicode beyond the characters listed; depth of nesting of rules (recursion)")
prop("P10", "A declaration sets exactly what it names to exactly what it says",
  "Applying a stylesheet declaration changes the named property to the value written — lengths in every unit, side lists, colours in every notation with their alpha, borders, keywords, text styles, grids, opacities, hatches — and changes nothing else. White space, a missing last semicolon and a trailing !important make no difference, and theme colours stand for the theme's values.",
  ["inputs"], "every property and every value",
  "Tests sample one or two values of some properties; a value stored in the wrong field, unit or channel passes them.",
  ["crates/tcss/src/parser"], [("property table", PM + ":200-400"), ("value parsers", PV), ("application of declarations", PC + ":246-700"), ("units", "crates/tcss/src/parser/units.rs")], "p10",
  [e("h_scalar", "18 length properties in 8 units", "symbolic digits: up to three, or one and a decimal; negative too"),
   e("h_sides", "margin and padding with two and four values", "symbolic digits, three units, three separators"),
   e("h_numbers", "grid, span, scrollbar size, offset lists", "symbolic digits, all units"),
   e("h_color", "19 colour properties in every colour notation, with and without a percentage", "one channel symbolic at a time"),
   e("h_theme", "theme colours", "symbolic theme colours and percentages"),
   e("h_border", "ten border and outline properties, 18 kinds, colour first or last", "one colour channel symbolic"),
   e("h_border_theme", "theme colours and colour functions in borders, keylines and hatches", "symbolic theme colour or channel"),
   e("h_words", "every pair of 53 keyword declarations", "all pairs, three separators, four endings"),
   e("h_text_style", "five text-style properties, lists of style words", "up to three of eleven words"),
   e("h_opacity", "opacities as fractions and percentages", "symbolic digits, up to three or one and a decimal, negative too"),
   e("h_hatch", "hatch patterns", "five names, every printable ASCII character, two others")],
  assumptions=HM, outside="numbers with more digits, three-value side lists, other hsl colours than the samples, combinations of more than two declarations (see the rule property)")
prop("P11", "Every widget gets exactly the rules that match it, best one winning",
  "A rule applies to exactly the widgets its selector describes — types and base types, classes, ids, states, theme conditions, ancestors and parents — and where rules conflict the most specific wins, then the latest. Nested rules mean what they mean written out, lists count with their most specific matching selector, variables stand for their values, and comments, white space and unknown properties change nothing else.",
  ["inputs"], "every selector, widget and chain of ancestors, and every order of rules",
  "Tests sample a few selectors and two-rule conflicts; a wrong match needs a particular chain of ancestors.",
  ["crates/tcss/src/parser"], [("matching and order", PC + ":60-245"), ("nesting", "crates/tcss/src/parser/flatten.rs"), ("selectors", PS), ("variables and comments", PVAR)], "p11",
  [e("h_match", "one selector against a symbolic widget and its ancestors", "up to four compounds joined by space or >, up to four ancestors with symbolic type and class", "up to five ancestors"),
   e("h_priority", "rules in conflict", "four rules of eight selectors, symbolic widget and states", "five rules"),
   e("h_list", "a selector list against another rule", "eight selectors each, either order"),
   e("h_priority_deep", "specificity of selectors with ancestors", "two rules of up to two compounds"),
   e("h_states", "states, theme conditions, base types", "all sixteen state sets, nine conditions"),
   e("h_declarations", "repeated, unknown and unterminated declarations", "four declarations of four properties, symbolic values"),
   e("h_nested", "nested rules against the same rules written out", "five parents, seven children, seven grandchildren, symbolic widget and three ancestors", "four ancestors"),
   e("h_comments", "comments and white space between tokens", "two of ten insertions at eleven places"),
   e("h_variables", "variables, also in terms of one another", "three names, four values, either line ending")],
  assumptions=HM, outside="more rules, deeper trees, sibling and attribute selectors (not supported), variables defined inside a line")
COL = "crates/tcss/src/types/color.rs"
prop("P12", "Mixed, tinted and faded colours lie in proportion between their parents",
  "Blending, tinting, fading and laying one colour over another yields, in every channel, a value between the two colours within one step of the exact proportion, exact at both ends, with factors out of range limited and the alpha as documented. Automatic text colours are white on dark and black on light, a widget's opacity fades its tinted background towards the one behind it, and tinting or fading a line changes only its colours.",
  ["inputs"], "every pair of colours and every proportion",
  "Tests sample a few pairs; a swapped channel or reversed proportion is invisible on greys or at one half.",
  [COL, "crates/tcss/src/types/mod.rs", STR, SEG], [("blend, tint, blend_over, blend_toward, contrast", COL + ":80-435"), ("effective background", "crates/tcss/src/types/mod.rs:290-337"), ("line tint and text opacity", STR + ":115-175")], "p12",
  [e("h_tint", "tint and over", "one channel symbolic (256 values) against five values on either side, eleven proportions, three alphas", "seven values, twelve proportions"),
   e("h_blend", "blend and fade, limits of the factor", "as h_tint", "as h_tint"),
   e("h_between", "every percentage", "symbolic proportion in hundredths, nine pairs", "in thousandths"),
   e("h_contrast", "contrast and inverse", "one channel symbolic, nine values of the others"),
   e("h_auto", "automatic colours", "one channel symbolic, eleven proportions"),
   e("h_background", "effective background", "five opacities, tint or none, own or inherited or transparent"),
   e("h_line", "tinted and faded lines", "one channel symbolic, eleven proportions")],
  assumptions=HM, outside="both colours fully symbolic at once (floating-point queries beyond reach), lightening and darkening (they use powf), hue conversions")
prop("P13", "Markup yields exactly the text outside its tags, styled by the tags around it",
  "Parsing markup yields exactly the text outside the tags with escapes resolved, or an error for malformed markup, and never fails otherwise. Each character has the styles, actions and links of the tags open around it, the innermost winning, an unclosed tag reaching to the end, and colours and style words denote what they say.",
  ["inputs"], "every markup text",
  "Tests sample short well-formed markup; wrong nesting or spans need a particular sequence of tags.",
  ["crates/rich/src"], [("markup reader", "crates/rich/src/markup.rs"), ("styles", "crates/rich/src/style.rs"), ("colours", "crates/rich/src/color.rs"), ("spans", "crates/rich/src/span.rs")], "p13",
  [e("h_any", "every short text against a reference reader", "every ASCII text of up to 6 characters", "up to 7 characters"),
   e("h_special", "longer texts of brackets, escapes and names", "5..7 of six characters", "5..9 characters"),
   e("h_verbatim", "escaped and non-ASCII text, inside and outside a tag", "three pieces, symbolic ASCII", "four pieces"),
   e("h_nesting", "sequences of opening, closing and text", "six tokens, four tags, symbolic text", "seven tokens"),
   e("h_nesting_meta", "the same with actions and links", "five tokens, five tags", "six tokens"),
   e("h_hex", "hexadecimal colours", "one symbolic digit, the others of three"),
   e("h_hex_any", "hexadecimal colours with other characters", "up to four of five pieces"),
   e("h_rgb", "rgb colours", "symbolic digits"),
   e("h_words", "style words", "two of 17 words, letter case symbolic", "three words")],
  assumptions=HM, outside="longer markup; a named closing tag without a matching open tag; blanks inside rgb() in a style")
CON = "crates/textual/src/content.rs"
prop("P14", "Text set in lines keeps every character and its style within the width",
  "Splitting text into lines, wrapping, folding, clipping or shortening it yields lines no wider than the width, holding the text's characters in order with their colour and action, losing only white space at wraps or what clipping must cut. Words break only when wider than a line and move down only when they do not fit, blank lines stay, line ends are marked, and action links take the link look and, under the pointer, the hover look.",
  ["inputs"], "every text, style span and width",
  "Tests wrap a few ASCII sentences; losses and overflows need particular words, widths, wide characters or spans.",
  [CON], [("lines and spans", CON + ":186-360"), ("links", CON + ":361-480"), ("wrapping", CON + ":481-915")], "p14",
  [e("h_lines", "lines of text with a styled stretch", "up to 5 characters of letters (symbolic), spaces, newlines, wide glyphs", "up to 6"),
   e("h_wrap", "wrapping letters and spaces", "up to 5 characters, widths 1..4, every styled stretch", "up to 6, widths 1..6"),
   e("h_wrap_long", "wrapping longer texts", "6..8 characters", "6..9"),
   e("h_wrap_wide", "wrapping with wide glyphs", "up to 5 characters", "up to 6"),
   e("h_wrap_lines", "wrapping with newlines", "up to 5 characters", "up to 6"),
   e("h_nowrap", "folding, clipping, ellipsis", "up to 5 characters, widths 1..4", "up to 6, widths 1..6"),
   e("h_link", "link looks", "symbolic styles and colours, hovered or not")],
  assumptions=HM, outside="longer texts, tabs, combining marks, width zero; runs of blanks inside plain wrapped text, which collapse")
TREE = "crates/textual/src/tree.rs"
prop("P15", "Focus visits every widget that can take it, once, in order; keys follow it",
  "Moving the focus forward or backward visits exactly the widgets that are shown, enabled and able to take focus, in document order and round again, with exactly one of them focused at a time and none when there is none. Keys go to the focused widget, and its message climbs from its parent to the root until one of them stops it.",
  ["inputs", "histories"], "every tree of the bounded shape, every choice of hidden and disabled widgets, every sequence of moves",
  "Tests walk one or two fixed trees; a skipped or doubly focused widget needs a particular place to be hidden or disabled.",
  [TREE, "crates/textual/src/containers", "crates/textual/src/widget.rs", "crates/textual/src/widget"], [("walk and path", TREE), ("containers' counting", "crates/textual/src/containers"), ("defaults and boxed widgets", "crates/textual/src/widget.rs")], "p15",
  [e("h_walk", "next and previous over a three-level tree, with keys sent to the focused widget", "four leaves in three nested boxes of eight container kinds, each leaf able or not, shown or not; two moves", "three moves"),
   e("h_widgets", "the same with buttons and switches", "four real widgets, enabled or not"),
   e("h_change", "widgets disabled, hidden and shown between moves", "one change and moves either side", "two changes"),
   e("h_bubble", "a message climbing from the focused widget", "every stopping place")],
  assumptions=HM, outside="deeper trees; where the next move starts after widgets were hidden or shown in between; keys when nothing can take focus; the command palette's inner input")
prop("P16", "A query finds exactly the matching widgets; bulk changes reach only those",
  "Finding widgets by id, type or any predicate yields exactly the matching ones in document order — all, first, last or counted — and changes made through a query reach all of these and no others. Adding, removing, toggling and setting classes treats them as a set, and hover, tooltips and pending actions are gathered from the whole tree.",
  ["inputs", "histories"], "every tree of the bounded shape, every assignment of names, types and classes, every sequence of class changes",
  "Tests query small fixed trees; wrong order or reach needs a particular shape and spread of matches.",
  [TREE, "crates/textual/src/widget.rs", "crates/textual/src/containers", "crates/textual/src/widget"], [("queries", TREE), ("classes", "crates/textual/src/widget"), ("gathering", "crates/textual/src/lib.rs")], "p16",
  [e("h_query", "every way of querying", "trees of five widgets of every shape chosen, each with one of two types and a class or none", "six widgets"),
   e("h_bulk", "changes through a query", "five widgets, ten operations", "six widgets"),
   e("h_selector", "reading a simple selector", "every ASCII text of five characters", "six characters"),
   e("h_collect", "hover, tooltips and actions", "five widgets", "six widgets"),
   e("h_classes", "class changes on the library's widgets", "nine widget kinds, three changes of three class names", "four changes")],
  assumptions=HM, outside="larger trees; widgets that ignore visibility or have no classes by design")
INP = "crates/textual/src/widget/input.rs"
prop("P17", "The text input edits at its cursor, one character at a time, shown as is",
  "Typing inserts at the cursor, backspace and delete remove the character before and after it, arrows, home and end move it, and it always stands within the value, a double-width or combined character counting as one. A disabled input takes no keys, and what is drawn is the value itself with the cursor's character marked when focused, or the placeholder when empty.",
  ["inputs", "histories"], "every value and every sequence of keys",
  "Tests type a few ASCII letters; an off-by-one needs the cursor at an end, a wide or combining character, or markup characters.",
  [INP], [("editing", INP), ("drawing", INP)], "p17",
  [e("h_edit", "editing", "three symbolic characters then any four keys, each symbolic", "five keys"),
   e("h_clusters", "wide and combining characters", "any five keys", "six keys"),
   e("h_set", "setting value and cursor", "four values, symbolic cursor (32 bits)"),
   e("h_show", "what is drawn", "up to three characters of brackets, backslashes, slashes and letters, every cursor, focused or not", "up to five"),
   e("h_show_long", "what is drawn, longer values", "four to nine symbolic letters, every cursor", "up to fifteen")],
  assumptions=HM, outside="longer histories, other clusters, values wider than the input")
CO, SCR, SB_, GR, IG = "crates/textual/src/containers/container.rs", "crates/textual/src/widget/screen.rs", "crates/textual/src/containers/scrollable.rs", "crates/textual/src/containers/grid.rs", "crates/textual/src/containers/item_grid.rs"
prop("P19", "The mouse reaches the child drawn under the pointer, and no other",
  "A press, release, drag or move anywhere over a container is given to the child that is drawn topmost at that cell, with the region that child is drawn in, and its answer is handed on; where no child is drawn, none is given it. This holds however far the content is scrolled, with borders, padding, docked, overlapping and hidden children, relative sizes, grids with gutters and spans, and scrollbars.",
  ["inputs"], "every pointer position, arrangement and scroll state",
  "Tests click on one child of a plain container; a wrong hit needs an overlap, a scrolled container, a border or a relative size.",
  [CO, SB_, SCR, GR, IG], [("hit testing of containers", CO), ("hit testing of scrolling containers", SB_), ("hit testing of the screen", SCR), ("hit testing of grids", GR), ("hit testing of item grids", IG)], "p19",
  [e("h_container", "container", "three children of three sizes, one of them docked, absolute, hidden or of relative size, row or column, border, padding, three overflow modes each way, scrolled by the wheel or not; symbolic pointer"),
   e("h_scrollable", "scrolling container", "as above"),
   e("h_screen", "screen", "as above"),
   e("h_grid", "grid", "three children, as above or spanning, two columns, declared and viewport-relative tracks, gutters, keylines, alignment; symbolic pointer"),
   e("h_item_grid", "item grid", "as above")],
  assumptions=HM, outside="children that decline the event, wheel events, screens smaller than the terminal, more children; a keyline lying over a child")
prop("P20", "Scrolling brings all content into view; scrollbars never cover it",
  "Content larger than its container is shown cut to the room the scrollbars leave and shifted by the scroll offset, so wheel, keys, presses on the scrollbar and dragging its thumb move it by their step and no further than its ends, in their own direction only, and every cell of it can be brought into view. A scrollbar is drawn exactly along each side that always scrolls or whose content overflows what is left of it.",
  ["inputs", "histories"], "every content size and sequence of scroll actions",
  "Tests scroll one plain column; a covered last row needs both scrollbars, a border, a margin or a particular size.",
  [CO, SB_, SCR, "crates/textual/src/scroll.rs"], [("scrolling of containers", CO), ("scrolling containers", SB_), ("scrolling of the screen", SCR)], "p20",
  [e("h_reach_container", "container: any cell of content of any size", "symbolic size 1..10 and symbolic cell, rows and columns, nine overflow modes, 0..3 wheel ticks", "size 1..30, two runs of 0..6 ticks"),
   e("h_reach_scrollable", "scrolling container: any cell", "as above", "as above"),
   e("h_reach_screen", "screen: any cell", "as above", "as above"),
   e("h_wheel_container", "container: whole picture with bars", "three pairs of children, margins, border, nine overflow modes, two wheel events of six kinds", "three events, two bar sizes"),
   e("h_wheel_scrollable", "scrolling container: whole picture", "as above", "as above"),
   e("h_wheel_screen", "screen: whole picture", "as above", "as above"),
   e("h_wheel_axis", "one-way scroll containers", "as above", "as above"),
   e("h_keys", "scroll keys", "eight keys, two presses", "three presses"),
   e("h_bar_scrollable", "scrollbar presses and drags", "every cell of either bar pressed, two drags to any cell, release, from two offsets", "with margins, border and rows"),
   e("h_bar_screen", "scrollbar of the screen", "as above", "as above")],
  assumptions=HM, outside="content sized relative to its container, hidden scrollbars and stable gutters, nested scrolling containers, larger screens; dragging a thumb need not reach the very end when it is longer than its share of the track")
OL, W = "crates/textual/src/widget/option_list.rs", "crates/textual/src/widget"
CON = "crates/textual/src/containers"
prop("P18", "An option list selects and chooses only options that are enabled",
  "The selection of a list with an enabled option always stands on an enabled one, and only it is highlighted; keys move it to the nearest enabled option in their direction, and selecting a disabled one from code or changing the options moves it to the next enabled one, or else the one before. A left click chooses the option drawn in the row under the pointer if it is enabled, however the list is scrolled, and nothing else does. A disabled or hidden list ignores keys and mouse, and option texts are shown as they are.",
  ["inputs", "histories"], "every list, choice of disabled options and sequence of keys and clicks",
  "Tests move through one list; a stuck highlight or a wrong choice needs particular options to be disabled, or a scrolled list.",
  [OL, "crates/textual/src/containers/scrollable.rs"], [("moving and choosing", OL)], "p18",
  [e("h_select", "keys", "up to four options, any of them disabled, two of: either key, selecting any 64-bit index, new options","three steps"),
   e("h_click", "clicks", "options of one to three lines, four choices of disabled ones, border, padding, three overflow modes, 0..2 wheel ticks; symbolic pointer"),
   e("h_off", "disabled and hidden lists", "either key and a release anywhere"),
   e("h_text", "texts of options", "up to three of eight characters that matter to markup","up to four")],
  assumptions=HM, outside="longer lists, scrolling to the selection, option texts wider than the list, changing the options of a scrolled list")
prop("P21", "A hidden widget leaves no trace; shown again, everything is as before",
  "A widget hidden from code or by its style takes no room, draws nothing, and gets no focus, keys or mouse: its parent looks and behaves as if it had never been given that child. Showing it again brings back the very picture it had before.",
  ["inputs", "histories"], "every kind of widget and container, every choice of hidden children, both ways of hiding",
  "Tests hide one widget of one kind in one container; leftovers need a kind of widget that ignores the flag or a container that counts hidden children.",
  [CON, W], [("leaving out hidden children", CON), ("hiding each widget", W), ("layouts", "crates/textual/src/layouts")], "p21",
  [e("h_container", "containers", "children of sixteen kinds, hidden either way, row or column; 12×9 screen; keys, focus and presses","up to three changes of visibility"),
   e("h_scrollable", "scrolling containers", "as above"),
   e("h_screen", "screens", "as above"),
   e("h_grid", "grids", "as above"),
   e("h_named", "the other containers", "as above"),
   e("h_single", "centering containers", "one child of sixteen kinds")],
  assumptions=HM, outside="visibility that keeps the room (not offered), larger trees and screens")
prop("P22", "After any change, restyling only what changed gives the fully restyled picture",
  "However a widget's classes, disabled state, visibility, hover, focus, own style or text are changed, restyling just the widgets reported as changed leaves every widget drawn exactly as if the whole tree had been restyled from nothing. So no change is ever drawn late, in part or with a stale style or layout.",
  ["inputs", "histories"], "every sequence of changes to every widget of the tree",
  "Tests make one change and look at one flag; a stale picture needs a particular change on a particular parent, or two changes in a row.",
  ["crates/textual/src/style_resolver.rs", CON, W], [("what is marked as changed", W), ("restyling", "crates/textual/src/style_resolver.rs"), ("layout caches", CON)], "p22",
  [e("h_boxes", "changes to containers and their children", "thirteen changes, eight container kinds, two steps", "and a symbolic colour byte"),
   e("h_leaves", "changes to widgets of every kind", "thirteen changes, seven kinds, two steps", "and a symbolic colour byte"),
   e("h_long", "longer histories", "three steps")],
  assumptions=HM, outside="longer histories, larger trees, replaced stylesheets, children replaced by recomposing (another property)")
FZ = "crates/textual/src/fuzzy.rs"
prop("P23", "Fuzzy search finds every text holding the query's letters in order",
  "A text matches a query exactly when it holds the query's letters in order, case aside unless it counts, and the positions reported are rising positions of those letters giving the best score; contiguous and whole-text matches rank above scattered ones. Highlighting changes no letter of the text and marks exactly the matched letters that are not blank.",
  ["inputs"], "every text and query",
  "Tests try a handful of words; a missed match needs letters in a particular place, such as the last position.",
  [FZ], [("search", FZ), ("highlighting", FZ)], "p23",
  [e("h_short", "short texts", "texts of up to five and queries of up to three characters of a mixed alphabet","texts of up to six"),
   e("h_long", "longer texts", "texts of four to six characters over three letters","up to seven"),
   e("h_marks", "highlighting", "texts of up to four characters that matter to markup","up to five")],
  assumptions=HM, outside="longer texts and queries, letters whose lower case is several letters")
BT, SW = "crates/textual/src/widget/button.rs", "crates/textual/src/widget/switch.rs"
prop("P24", "Buttons and switches act once per press, only while enabled",
  "A button fires, and a switch turns over and reports its new value, exactly once for each press and release of the left button on it and each Enter or Space it is given; a release elsewhere, other keys, and anything done while disabled (or a switch loading) do nothing. It looks hovered, pressed, focused and disabled exactly while it is, and what changes is drawn anew.",
  ["inputs", "histories"], "every sequence of mouse events, keys and enabling",
  "Tests click once; a double or lost press needs a drag, a disabling in between or a second button.",
  [BT, SW, W], [("buttons", BT), ("switches", SW), ("finding the pressed widget", CON)], "p24",
  [e("h_button", "buttons", "any three of twelve events and changes, symbolic region and pointer","four"),
   e("h_switch", "switches", "as above"),
   e("h_loading", "loading switch", "press, release and key at any place"),
   e("h_click", "clicks through a tree", "two widgets, one of them disabled or none, two rounds of move, press, drag and release anywhere","three rounds")],
  assumptions=HM, outside="longer histories; releases outside every widget that no pointer move follows")
prop("P25", "After any resizes, the screen looks as if started at that size",
  "Whatever sizes the terminal went through, the picture is the one a program started at the last size would show, and every widget was told that size. The size classes in force are exactly those of the last threshold reached across and down.",
  ["inputs", "histories"], "every sequence of sizes and every threshold list",
  "Tests resize once; a stale layout or class needs shrinking after growing, or a size exactly at a threshold.",
  [SCR, CON, "crates/textual/src/tree.rs"], [("breakpoints", SCR), ("telling widgets", CON), ("layouts", "crates/textual/src/layouts")], "p25",
  [e("h_boxes", "containers", "every container kind, two resizes among fifteen sizes","three resizes"),
   e("h_leaves", "widgets", "every widget kind, two resizes","three resizes"),
   e("h_classes", "size classes", "symbolic sizes (16 bits each) and thresholds"),
   e("h_told", "every widget told", "three-level trees, symbolic sizes")],
  assumptions=HM, outside="longer histories, larger screens, placeholders and rulers that show their own size history")
prop("P26", "Exported pictures show exactly the cells of the screen",
  "Playing the ANSI snapshot on a terminal puts every character of the screen in its cell with its colours and text attributes, and the SVG export shows every character at its cell's place with its colours, weight, slant and lines. No cell is lost, moved or given another's style.",
  ["inputs"], "every screen of the bounded size",
  "Tests compare a few pictures with stored ones; a lost or moved cell needs a wide character or a change of style at a particular place.",
  ["crates/textual/src/canvas.rs", "crates/textual/src/svg.rs"], [("ANSI snapshot", "crates/textual/src/canvas.rs"), ("SVG export", "crates/textual/src/svg.rs")], "p26",
  [e("h_ansi", "ANSI snapshot", "3×2 screens; per cell three characters (one double-width) and nine styles"),
   e("h_svg", "SVG export", "3×2 screens; per cell five characters (double-width and escaped ones) and five styles"), e("h_chars", "every character in the SVG export", "every printable ASCII character", "any two of them")],
  assumptions=HM, outside="larger screens; dim and reversed text in SVG; the drawn window around it")
RC, BRR, STW = "crates/textual/src/render_cache.rs", "crates/textual/src/border_render.rs", "crates/textual/src/widget/static_widget.rs"
prop("P27", "Borders are drawn edge by edge, inside the widget and around its content",
  "Each edge of a border or outline is drawn along its own side in its own kind and colour, whatever the other edges are, and everything stays within the widget's region however small it is. What is inside border and padding is drawn as the same content without them, padding is blank, and a title changes its edge's row only: it is shown whole when it fits and cut with an ellipsis otherwise, leaving the row's ends.",
  ["inputs"], "every combination of edges, sizes, padding and titles",
  "Tests draw one uniform border at a comfortable size; a blank or overflowing edge needs mixed kinds, a single edge or a narrow widget.",
  [RC, BRR, "crates/textual/src/border_box.rs", STW, "crates/textual/src/containers.rs"], [("lines of a box", RC), ("rows with titles", BRR), ("box characters", "crates/textual/src/border_box.rs")], "p27",
  [e("h_mixed", "mixed edges, borders and outlines", "four kinds on each of four edges of its own colour", "five kinds"),
   e("h_kinds", "one edge or all of one kind", "sixteen kinds; static text and containers; border and outline"),
   e("h_sizes", "sizes and padding", "1..7 by 1..5 cells, six borders, four paddings, static text and four containers"),
   e("h_title", "titles and subtitles", "width 1..9, five titles (double-width too), three alignments, four borders")],
  assumptions=HM, outside="corners where one side is missing, middle rows of boxes lower than three rows with top or bottom, content behind an outline, mixed kinds on containers")
