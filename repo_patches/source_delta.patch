From 7d44ddc72e42f69df528db9e1a17fe32595373af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:23 +0000
Subject: [PATCH 01/46] fix: compute the canvas cell count without u16 overflow

---
 crates/textual/src/canvas.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/textual/src/canvas.rs b/crates/textual/src/canvas.rs
index 0292538..4bc9cdb 100644
--- a/crates/textual/src/canvas.rs
+++ b/crates/textual/src/canvas.rs
@@ -140,7 +140,7 @@ impl Canvas {
             bg: None,
             attrs: TextAttributes::default(),
         };
-        let cell_count = (width * height) as usize;
+        let cell_count = width as usize * height as usize;
         Self {
             size: Size { width, height },
             cells: vec![blank_cell.clone(); cell_count],
-- 
2.43.0


From 75a8d30cddfef27b100b93742843e03d025af160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:19 +0000
Subject: [PATCH 02/46] fix: erase the other half when a wide glyph is partly
 overwritten

---
 crates/textual/src/canvas.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/crates/textual/src/canvas.rs b/crates/textual/src/canvas.rs
index 4bc9cdb..8ada345 100644
--- a/crates/textual/src/canvas.rs
+++ b/crates/textual/src/canvas.rs
@@ -293,6 +293,9 @@ impl Canvas {
             && attrs == TextAttributes::default();
 
         let index = (y as usize) * (self.size.width as usize) + (x as usize);
+        if !preserve_text {
+            self.erase_split_glyphs(index, width);
+        }
         let new_bg = resolve_background(bg, self.cells[index].bg);
         if preserve_text {
             if let Some(bg) = new_bg {
@@ -336,6 +339,30 @@ impl Canvas {
         }
     }
 
+    /// Blanks the remaining part of any wide glyph that is about to be partly
+    /// overwritten by `width` cells at `index`: a terminal cannot show half a glyph.
+    fn erase_split_glyphs(&mut self, index: usize, width: usize) {
+        let row_width = self.size.width as usize;
+        let row_start = index - index % row_width;
+
+        // The new glyph starts inside an older one: blank everything before it.
+        let mut before = index;
+        while before > row_start && self.cells[before].continuation {
+            before -= 1;
+        }
+        // The new glyph ends inside an older one: blank everything after it.
+        let mut after = index + width;
+        while after < row_start + row_width && self.cells[after].continuation {
+            after += 1;
+        }
+
+        for cell in self.cells[before..after].iter_mut() {
+            cell.symbol = " ".to_string();
+            cell.width = 1;
+            cell.continuation = false;
+        }
+    }
+
     /// Renders a Strip at the given position.
     ///
     /// Iterates through each segment in the strip and renders its text
-- 
2.43.0


From 6736945ba2cbdc1bec443c58c1ca9f480043c0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:04 +0000
Subject: [PATCH 03/46] fix: clamp relative scrolling at both ends

---
 crates/textual/src/scroll.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/crates/textual/src/scroll.rs b/crates/textual/src/scroll.rs
index f36607c..d464ca4 100644
--- a/crates/textual/src/scroll.rs
+++ b/crates/textual/src/scroll.rs
@@ -94,22 +94,34 @@ impl ScrollState {
 
     /// Scroll up by given amount (clamped to bounds).
     pub fn scroll_up(&mut self, amount: i32) {
-        self.offset_y = (self.offset_y - amount).max(0);
+        self.offset_y = self
+            .offset_y
+            .saturating_sub(amount)
+            .clamp(0, self.max_scroll_y());
     }
 
     /// Scroll down by given amount (clamped to bounds).
     pub fn scroll_down(&mut self, amount: i32) {
-        self.offset_y = (self.offset_y + amount).min(self.max_scroll_y());
+        self.offset_y = self
+            .offset_y
+            .saturating_add(amount)
+            .clamp(0, self.max_scroll_y());
     }
 
     /// Scroll left by given amount (clamped to bounds).
     pub fn scroll_left(&mut self, amount: i32) {
-        self.offset_x = (self.offset_x - amount).max(0);
+        self.offset_x = self
+            .offset_x
+            .saturating_sub(amount)
+            .clamp(0, self.max_scroll_x());
     }
 
     /// Scroll right by given amount (clamped to bounds).
     pub fn scroll_right(&mut self, amount: i32) {
-        self.offset_x = (self.offset_x + amount).min(self.max_scroll_x());
+        self.offset_x = self
+            .offset_x
+            .saturating_add(amount)
+            .clamp(0, self.max_scroll_x());
     }
 
     /// Scroll to absolute position (clamped to bounds).
-- 
2.43.0


From b38089b1741d0ff2ee9b145b46f2ad9699f0c87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:50 +0000
Subject: [PATCH 04/46] fix: share out a column's own height among fr children,
 not the viewport's

---
 crates/textual/src/layouts/vertical.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/crates/textual/src/layouts/vertical.rs b/crates/textual/src/layouts/vertical.rs
index 4571ff6..e958be7 100644
--- a/crates/textual/src/layouts/vertical.rs
+++ b/crates/textual/src/layouts/vertical.rs
@@ -130,9 +130,8 @@ impl Layout for VerticalLayout {
                         fixed_height_total += css_height as f64;
                     }
                     Unit::Percent | Unit::Height => {
-                        // Python uses parent.app.size (terminal size) for these units
-                        // So we use viewport, not available region
-                        let raw = (height.value / 100.0) * viewport.height as f64;
+                        // Percentages are of the region being filled, as in the second pass
+                        let raw = (height.value / 100.0) * available.height as f64;
                         fixed_height_total += raw;
                     }
                     Unit::Width => {
@@ -162,9 +161,9 @@ impl Layout for VerticalLayout {
         }
 
         // Calculate remaining space for fr units
-        // Use viewport.height to match Python's behavior (uses parent.app.size for all calculations)
+        // (what the region being filled has left, so padding and docked siblings are respected)
         let remaining_for_fr =
-            (viewport.height as f64 - fixed_height_total - total_margin).max(0.0);
+            (available.height as f64 - fixed_height_total - total_margin).max(0.0);
 
         // Calculate fraction_unit (size of 1fr)
         // When remaining_for_fr <= 0, use fraction_unit = 1.0 (matching Python Textual)
-- 
2.43.0


From 5d5a0f64aa9cbcacccfb3bd75e79b3825fcaf7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:13 +0000
Subject: [PATCH 05/46] fix: absorb floating-point error when flooring column
 positions

---
 crates/textual/src/layouts/vertical.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/textual/src/layouts/vertical.rs b/crates/textual/src/layouts/vertical.rs
index e958be7..1bccc77 100644
--- a/crates/textual/src/layouts/vertical.rs
+++ b/crates/textual/src/layouts/vertical.rs
@@ -22,6 +22,13 @@ use super::{Layout, LayoutChild, Viewport, WidgetPlacement};
 #[derive(Debug, Clone, Copy, Default)]
 pub struct VerticalLayout;
 
+/// Floor of an accumulated position, absorbing floating-point error: six thirds of
+/// a row add up to 1.9999999999999998, which is row 2.
+fn floor_position(y: f64) -> i32 {
+    const TOLERANCE: f64 = 1.0 / (1u32 << 20) as f64;
+    (y + TOLERANCE).floor() as i32
+}
+
 fn resolve_child_width(
     child_style: &ComputedStyle,
     desired_size: Size,
@@ -282,8 +289,8 @@ impl Layout for VerticalLayout {
             // Calculate next_y and region height using floor arithmetic
             // This matches Python: region.height = floor(next_y) - floor(y)
             let next_y = current_y + box_height;
-            let region_y = current_y.floor() as i32;
-            let region_height = (next_y.floor() as i32 - region_y).max(0);
+            let region_y = floor_position(current_y);
+            let region_height = (floor_position(next_y) - region_y).max(0);
 
             let new_region = Region {
                 x: available.x + margin_left,
-- 
2.43.0


From 9695f071709ad4310cfceb94fd97f4af306a4431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:39 +0000
Subject: [PATCH 06/46] fix: take the margins of fr children in a column off
 only once

---
 crates/textual/src/layouts/vertical.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/textual/src/layouts/vertical.rs b/crates/textual/src/layouts/vertical.rs
index 1bccc77..bf054e8 100644
--- a/crates/textual/src/layouts/vertical.rs
+++ b/crates/textual/src/layouts/vertical.rs
@@ -265,11 +265,12 @@ impl Layout for VerticalLayout {
             let margin_top = child_style.margin.top.value as f64;
             let margin_bottom = child_style.margin.bottom.value as f64;
 
-            // For percentage/fill heights, reduce by margins to fit within container
+            // For percentage heights, reduce by margins to fit within container
             // For explicit heights (cells), margins are outside the content box
+            // For fr/fill heights, the margins are already out of remaining_for_fr
             let should_reduce_by_margins = match &child_style.height {
-                Some(h) => matches!(h.unit, Unit::Percent | Unit::Height | Unit::Fraction),
-                None => desired_size.height == u16::MAX, // fill case
+                Some(h) => matches!(h.unit, Unit::Percent | Unit::Height),
+                None => false, // intrinsic or fill
             };
             let box_height = if should_reduce_by_margins {
                 (box_height - margin_top - margin_bottom).max(0.0)
-- 
2.43.0


From c4bdef57c044366eb2c4aeba7c097e14469811cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:44 +0000
Subject: [PATCH 07/46] fix: stack undeclared layers in child order and place
 each child once

---
 crates/textual/src/layouts/mod.rs | 37 +++++++++++++++++--------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/crates/textual/src/layouts/mod.rs b/crates/textual/src/layouts/mod.rs
index 5c559b5..fa6de4e 100644
--- a/crates/textual/src/layouts/mod.rs
+++ b/crates/textual/src/layouts/mod.rs
@@ -811,34 +811,37 @@ fn build_layers<'a>(
     children: &'a [LayoutChild],
     layer_order: &[String],
 ) -> Vec<(String, Vec<&'a LayoutChild<'a>>)> {
-    use std::collections::HashMap;
-
-    // Group children by their layer
-    let mut layer_map: HashMap<String, Vec<&LayoutChild>> = HashMap::new();
-
-    for child in children {
-        let layer_name = child
+    let layer_of = |child: &LayoutChild| {
+        child
             .style
             .layer
             .clone()
-            .unwrap_or_else(|| "default".to_string());
-        layer_map.entry(layer_name).or_default().push(child);
-    }
+            .unwrap_or_else(|| "default".to_string())
+    };
 
-    let mut result = Vec::new();
+    let mut result: Vec<(String, Vec<&'a LayoutChild<'a>>)> = Vec::new();
 
-    // First: add widgets on layers NOT in layer_order (they render at the bottom)
+    // First: add widgets on layers NOT in layer_order (they render at the bottom, in child order)
     // This matches Python where undefined layers default to index 0 (bottom-most)
-    for (name, widgets) in layer_map.iter() {
-        if !layer_order.contains(name) {
-            result.push((name.clone(), widgets.clone()));
+    for child in children {
+        let name = layer_of(child);
+        if layer_order.contains(&name) {
+            continue;
+        }
+        match result.iter_mut().find(|(n, _)| *n == name) {
+            Some((_, widgets)) => widgets.push(child),
+            None => result.push((name, vec![child])),
         }
     }
 
     // Then: add explicitly defined layers in order (later = on top)
     for name in layer_order {
-        if let Some(widgets) = layer_map.get(name) {
-            result.push((name.clone(), widgets.clone()));
+        if result.iter().any(|(n, _)| n == name) {
+            continue; // declared twice
+        }
+        let widgets: Vec<_> = children.iter().filter(|c| layer_of(c) == *name).collect();
+        if !widgets.is_empty() {
+            result.push((name.clone(), widgets));
         }
     }
 
-- 
2.43.0


From e7597df67ac99bf06d7c18a778b090eb9b05bbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:47 +0000
Subject: [PATCH 08/46] fix: create as many automatic grid rows as spanning
 children need

---
 crates/textual/src/layouts/grid.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/crates/textual/src/layouts/grid.rs b/crates/textual/src/layouts/grid.rs
index ba10c2d..65fa5e3 100644
--- a/crates/textual/src/layouts/grid.rs
+++ b/crates/textual/src/layouts/grid.rs
@@ -121,13 +121,22 @@ impl GridLayout {
     }
 
     /// Get the number of rows, either from CSS or calculated.
-    fn row_count(&self, grid: &GridStyle, cols: usize, child_count: usize) -> usize {
+    fn row_count(&self, grid: &GridStyle, cols: usize, children: &[LayoutChild]) -> usize {
         if let Some(rows) = grid.rows {
             rows as usize
         } else if cols == 0 {
             1
         } else {
-            (child_count + cols - 1) / cols
+            // As many rows as the children take up, spans included
+            let at_most = children
+                .iter()
+                .map(|child| (child.style.grid_placement.row_span as usize).max(1))
+                .sum();
+            Self::compute_cell_assignments(children, at_most, cols)
+                .iter()
+                .map(|(row, _, row_span, _)| row + row_span)
+                .max()
+                .unwrap_or(1)
         }
     }
 
@@ -436,7 +445,7 @@ impl GridLayout {
 
         let grid = &parent_style.grid;
         let cols = self.column_count(grid, available.width);
-        let rows = self.row_count(grid, cols, children.len());
+        let rows = self.row_count(grid, cols, children);
 
         let gutter_v = Self::resolve_scalar(&grid.gutter.0, available.height);
         let gutter_h = Self::resolve_scalar(&grid.gutter.1, available.width);
@@ -591,7 +600,7 @@ impl Layout for GridLayout {
 
         let grid = &parent_style.grid;
         let cols = self.column_count(grid, available.width);
-        let rows = self.row_count(grid, cols, children.len());
+        let rows = self.row_count(grid, cols, children);
 
         // Get gutter values
         let gutter_v = Self::resolve_scalar(&grid.gutter.0, available.height);
-- 
2.43.0


From 0ea0ceb53a224cdc93123b113f6023a2f4a16598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:25 +0000
Subject: [PATCH 09/46] fix: cropping a strip through a wide character keeps
 the exact width

---
 crates/textual/src/segment.rs | 35 +++++++++++++++++++++++++++++++++++
 crates/textual/src/strip.rs   | 23 +++++------------------
 2 files changed, 40 insertions(+), 18 deletions(-)

diff --git a/crates/textual/src/segment.rs b/crates/textual/src/segment.rs
index 054327b..1f3ef2c 100644
--- a/crates/textual/src/segment.rs
+++ b/crates/textual/src/segment.rs
@@ -291,6 +291,41 @@ impl Segment {
         )
     }
 
+    /// Returns the cells in the range [start, end) of this segment.
+    ///
+    /// A wide character cut by either edge is replaced with spaces, so the
+    /// result is never wider than the range.
+    pub(crate) fn crop(&self, start: usize, end: usize) -> Segment {
+        let mut text = String::new();
+        let mut cell_length = 0;
+        let mut pos = 0;
+
+        for (_, grapheme) in grapheme_indices(&self.text) {
+            let width = display_width(grapheme);
+            let next = pos + width;
+            if width == 0 {
+                if pos >= start && (pos < end || end == self.cell_length) {
+                    text.push_str(grapheme);
+                }
+            } else if pos >= start && next <= end {
+                text.push_str(grapheme);
+                cell_length += width;
+            } else {
+                let visible = next.min(end).saturating_sub(pos.max(start));
+                text.push_str(&" ".repeat(visible));
+                cell_length += visible;
+            }
+            pos = next;
+        }
+
+        Segment {
+            text,
+            cell_length,
+            style: self.style.clone(),
+            meta: self.meta.clone(),
+        }
+    }
+
     /// Applies a style layer on top of this segment's style.
     ///
     /// Creates a new segment with the combined styles. The new style's
diff --git a/crates/textual/src/strip.rs b/crates/textual/src/strip.rs
index 7057158..5b9836b 100644
--- a/crates/textual/src/strip.rs
+++ b/crates/textual/src/strip.rs
@@ -168,7 +168,8 @@ impl Strip {
 
     /// Extracts a portion of the strip from `start` to `end` cell positions.
     ///
-    /// The resulting strip contains cells in the range [start, end).
+    /// The resulting strip contains cells in the range [start, end). A wide
+    /// character cut by either edge leaves a space in its place.
     pub fn crop(&self, start: usize, end: usize) -> Strip {
         if start >= end || start >= self.cell_length {
             return Strip::new();
@@ -200,24 +201,10 @@ impl Strip {
             if local_start == 0 && local_end == seg_len {
                 // Include entire segment
                 result_segments.push(segment.clone());
-            } else if local_start == 0 {
-                // Take from start
-                let (left, _) = segment.split_at(local_end);
-                if !left.is_empty() {
-                    result_segments.push(left);
-                }
-            } else if local_end == seg_len {
-                // Take to end
-                let (_, right) = segment.split_at(local_start);
-                if !right.is_empty() {
-                    result_segments.push(right);
-                }
             } else {
-                // Take middle portion
-                let (_, temp) = segment.split_at(local_start);
-                let (middle, _) = temp.split_at(local_end - local_start);
-                if !middle.is_empty() {
-                    result_segments.push(middle);
+                let part = segment.crop(local_start, local_end);
+                if !part.is_empty() {
+                    result_segments.push(part);
                 }
             }
 
-- 
2.43.0


From 829677992ae7ff47f6f9eae3cb09854dc625a154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:25 +0000
Subject: [PATCH 10/46] fix: Strip::simplify keeps segment metadata

---
 crates/textual/src/strip.rs | 44 ++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/crates/textual/src/strip.rs b/crates/textual/src/strip.rs
index 5b9836b..7f47446 100644
--- a/crates/textual/src/strip.rs
+++ b/crates/textual/src/strip.rs
@@ -248,7 +248,7 @@ impl Strip {
         Strip::from_segments(segments)
     }
 
-    /// Merges adjacent segments with identical styles.
+    /// Merges adjacent segments with identical styles and metadata.
     ///
     /// This reduces memory usage and simplifies rendering.
     pub fn simplify(&self) -> Strip {
@@ -258,35 +258,35 @@ impl Strip {
 
         let mut result = SegmentVec::new();
         let mut current_text = String::new();
-        let mut current_style: Option<Style> = None;
-        let mut has_current = false;
+        let mut current: Option<&Segment> = None;
 
         for segment in &self.segments {
-            if !has_current {
-                current_text = segment.text().to_string();
-                current_style = segment.style().cloned();
-                has_current = true;
-            } else if segment.style() == current_style.as_ref() {
-                // Same style, merge text
-                current_text.push_str(segment.text());
-            } else {
-                // Different style, emit current and start new
-                if !current_text.is_empty() {
-                    match current_style {
-                        Some(s) => result.push(Segment::styled(current_text, s)),
-                        None => result.push(Segment::new(current_text)),
+            match current {
+                Some(first)
+                    if segment.style() == first.style() && segment.meta() == first.meta() =>
+                {
+                    // Same look and metadata, merge text
+                    current_text.push_str(segment.text());
+                }
+                _ => {
+                    // Different, emit current and start new
+                    if let Some(first) = current {
+                        if !current_text.is_empty() {
+                            let style = first.style().cloned();
+                            result.push(build_segment(&current_text, style, first.meta()));
+                        }
                     }
+                    current_text = segment.text().to_string();
+                    current = Some(segment);
                 }
-                current_text = segment.text().to_string();
-                current_style = segment.style().cloned();
             }
         }
 
         // Emit final segment
-        if !current_text.is_empty() {
-            match current_style {
-                Some(s) => result.push(Segment::styled(current_text, s)),
-                None => result.push(Segment::new(current_text)),
+        if let Some(first) = current {
+            if !current_text.is_empty() {
+                let style = first.style().cloned();
+                result.push(build_segment(&current_text, style, first.meta()));
             }
         }
 
-- 
2.43.0


From 529ad195f1d0a2db6349f998283bbfc025eafda3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:38:50 +0000
Subject: [PATCH 11/46] fix: word wrapping of styled text keeps every line
 within the width

---
 crates/textual/src/content.rs | 90 +++++++++++++++++++++--------------
 1 file changed, 55 insertions(+), 35 deletions(-)

diff --git a/crates/textual/src/content.rs b/crates/textual/src/content.rs
index 8df4ef1..1c0f7ef 100644
--- a/crates/textual/src/content.rs
+++ b/crates/textual/src/content.rs
@@ -679,50 +679,49 @@ impl Content {
 
         while i < words.len() {
             let word = words[i];
+            let (word_byte_start, word_byte_end) = word_positions[i];
             let word_width = display_width(word);
-
-            if current_width == 0 {
-                // Start of line
-                if word_width <= width {
-                    current_width = word_width;
-                    i += 1;
-                } else {
-                    // Word too long, need to break it - use the simple approach for now
-                    let (word_byte_start, word_byte_end) = word_positions[i];
-                    let segment_text = &line[word_byte_start..word_byte_end];
-                    let abs_start = line_start + word_byte_start;
-                    let abs_end = line_start + word_byte_end;
-                    let strip =
-                        self.render_line_with_spans(segment_text, abs_start, abs_end, spans);
-                    result.push(strip);
+            // Width of the line if this word joins it, including the whitespace before the word
+            let joined_width = display_width(&line[current_segment_start..word_byte_end]);
+
+            if joined_width <= width {
+                // Word fits
+                current_width = joined_width;
+                i += 1;
+            } else if current_width == 0 {
+                // Start of line: drop leading whitespace that leaves no room for the word
+                current_segment_start = word_byte_start;
+                if word_width > width {
+                    // Word too long, need to break it
+                    for (start, end) in break_word_ranges(word, width) {
+                        let abs_start = line_start + word_byte_start + start;
+                        let abs_end = line_start + word_byte_start + end;
+                        result.push(self.render_line_with_spans(
+                            &word[start..end],
+                            abs_start,
+                            abs_end,
+                            spans,
+                        ));
+                    }
                     current_segment_start = if i + 1 < word_positions.len() {
                         word_positions[i + 1].0
                     } else {
                         line.len()
                     };
-                    current_width = 0;
                     i += 1;
                 }
             } else {
-                let space_and_word = 1 + word_width;
-                if current_width + space_and_word <= width {
-                    // Word fits
-                    current_width += space_and_word;
-                    i += 1;
-                } else {
-                    // Word doesn't fit, emit current segment
-                    let segment_end = if i > 0 { word_positions[i - 1].1 } else { 0 };
-                    let segment_text = &line[current_segment_start..segment_end];
-                    let abs_start = line_start + current_segment_start;
-                    let abs_end = line_start + segment_end;
-                    let strip =
-                        self.render_line_with_spans(segment_text, abs_start, abs_end, spans);
-                    result.push(strip);
-
-                    // Start new segment at this word
-                    current_segment_start = word_positions[i].0;
-                    current_width = 0;
-                }
+                // Word doesn't fit, emit current segment
+                let segment_end = if i > 0 { word_positions[i - 1].1 } else { 0 };
+                let segment_text = &line[current_segment_start..segment_end];
+                let abs_start = line_start + current_segment_start;
+                let abs_end = line_start + segment_end;
+                let strip = self.render_line_with_spans(segment_text, abs_start, abs_end, spans);
+                result.push(strip);
+
+                // Start new segment at this word
+                current_segment_start = word_byte_start;
+                current_width = 0;
             }
         }
 
@@ -832,6 +831,27 @@ impl Content {
     }
 }
 
+/// Byte ranges of the pieces of a word that is longer than the available width.
+fn break_word_ranges(word: &str, width: usize) -> Vec<(usize, usize)> {
+    let mut ranges = Vec::new();
+    let mut start = 0;
+    let mut end = 0;
+    let mut current_width = 0;
+
+    for grapheme in graphemes(word) {
+        let grapheme_width = display_width(grapheme);
+        if current_width + grapheme_width > width && end > start {
+            ranges.push((start, end));
+            start = end;
+            current_width = 0;
+        }
+        end += grapheme.len();
+        current_width += grapheme_width;
+    }
+    ranges.push((start, end));
+    ranges
+}
+
 fn split_strip_by_width(strip: &Strip, width: usize) -> Vec<Strip> {
     if width == 0 {
         return vec![Strip::new()];
-- 
2.43.0


From 9a90e0390fcef4ef55ec0785e79c2e47e82d2575 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:38:50 +0000
Subject: [PATCH 12/46] fix: wrapping keeps lines that hold only whitespace

---
 crates/textual/src/content.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/textual/src/content.rs b/crates/textual/src/content.rs
index 1c0f7ef..11897b7 100644
--- a/crates/textual/src/content.rs
+++ b/crates/textual/src/content.rs
@@ -507,7 +507,8 @@ impl Content {
         for line in self.text.split('\n') {
             let line_end = line_start + line.len();
 
-            if line.is_empty() {
+            // A line with nothing to wrap still takes up a line
+            if line.is_empty() || (text_wrap == TextWrap::Wrap && line.trim().is_empty()) {
                 result.push(WrappedLine::new(Strip::new(), true));
                 line_start = line_end + 1;
                 continue;
-- 
2.43.0


From acd33de438b3653a7206e5099e749bec90332861 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:38:50 +0000
Subject: [PATCH 13/46] fix: folding a line without wrapping never cuts through
 a wide character

---
 crates/textual/src/content.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/textual/src/content.rs b/crates/textual/src/content.rs
index 11897b7..3acca1b 100644
--- a/crates/textual/src/content.rs
+++ b/crates/textual/src/content.rs
@@ -863,11 +863,19 @@ fn split_strip_by_width(strip: &Strip, width: usize) -> Vec<Strip> {
     }
     let mut parts = Vec::new();
     let mut start = 0;
-    while start < total {
-        let end = (start + width).min(total);
-        parts.push(strip.crop(start, end));
-        start = end;
+    let mut end = 0;
+    // Cut between graphemes, never through a wide one
+    for segment in strip.segments() {
+        for grapheme in graphemes(segment.text()) {
+            let grapheme_width = display_width(grapheme);
+            if end + grapheme_width > start + width && end > start {
+                parts.push(strip.crop(start, end));
+                start = end;
+            }
+            end += grapheme_width;
+        }
     }
+    parts.push(strip.crop(start, total));
     parts
 }
 
-- 
2.43.0


From 046ddc8fb99de63e51575b697ab5243fc4965e7d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:38:50 +0000
Subject: [PATCH 14/46] fix: the style of an inner markup tag overrides the
 outer one

---
 crates/rich/src/parser/markup.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/rich/src/parser/markup.rs b/crates/rich/src/parser/markup.rs
index ecd47d3..832c7ce 100644
--- a/crates/rich/src/parser/markup.rs
+++ b/crates/rich/src/parser/markup.rs
@@ -39,7 +39,12 @@ pub fn parse(input: &str) -> Result<ParsedMarkup, RichParseError> {
     // Close any remaining open tags
     parser.close_all_remaining();
 
-    Ok(ParsedMarkup::new(parser.output, parser.spans))
+    // Tags close inside out, but styles apply outside in: an inner tag overrides an outer one
+    let mut spans = parser.spans;
+    spans.reverse();
+    spans.sort_by_key(|span| span.start);
+
+    Ok(ParsedMarkup::new(parser.output, spans))
 }
 
 /// The main parser state.
-- 
2.43.0


From 711d1bd403b79bf848ee4f983e5b304a5cb9e35d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:38:50 +0000
Subject: [PATCH 15/46] fix: non-ASCII text after # in a markup colour is an
 error, not a panic

---
 crates/rich/src/color.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rich/src/color.rs b/crates/rich/src/color.rs
index a333573..70e23b3 100644
--- a/crates/rich/src/color.rs
+++ b/crates/rich/src/color.rs
@@ -53,7 +53,7 @@ impl Color {
 
     /// Parse a hex color (without the # prefix).
     fn parse_hex(hex: &str) -> Result<Self, ColorParseError> {
-        match hex.len() {
+        match hex.chars().count() {
             // #RGB
             3 => {
                 let r = Self::parse_hex_digit(hex.chars().nth(0).unwrap())?;
-- 
2.43.0


From 99a69a5d89d5afe760085d6acb721471a0bc1c05 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:55:18 +0000
Subject: [PATCH 16/46] fix: a descendant selector considers every matching
 ancestor

---
 crates/tcss/src/parser/cascade.rs | 86 ++++++++++---------------------
 1 file changed, 26 insertions(+), 60 deletions(-)

diff --git a/crates/tcss/src/parser/cascade.rs b/crates/tcss/src/parser/cascade.rs
index a4fb433..251b5bf 100644
--- a/crates/tcss/src/parser/cascade.rs
+++ b/crates/tcss/src/parser/cascade.rs
@@ -27,7 +27,8 @@ use bitflags::bitflags;
 
 use crate::{
     parser::{
-        Combinator, ComplexSelector, Declaration, Rule, RuleItem, Selector, Specificity, StyleSheet,
+        Combinator, ComplexSelector, Declaration, Rule, RuleItem, Selector, SelectorPart,
+        Specificity, StyleSheet,
     },
     types::{Border, ComputedStyle, RgbaColor, Theme},
 };
@@ -156,74 +157,39 @@ impl WidgetMeta {
             return false;
         }
 
-        // The rightmost part must match the widget itself.
-        let parts = &complex.parts;
-        let mut current_part_idx = parts.len() - 1;
-
-        if !parts[current_part_idx]
-            .compound
+        // The rightmost part must match the widget itself, the others its ancestors.
+        let (last, rest) = complex.parts.split_last().expect("parts is not empty");
+        last.compound
             .selectors
             .iter()
             .all(|s| self.matches_selector(s, ctx))
-        {
-            return false;
-        }
+            && Self::ancestors_match(rest, ancestors, ctx)
+    }
 
-        // If that was the only part, we matched.
-        if parts.len() == 1 {
+    /// Checks if the given parts match a chain of ancestors (immediate parent first).
+    /// A descendant combinator tries every ancestor, because the nearest one that
+    /// matches need not be the one whose own ancestors match the remaining parts.
+    fn ancestors_match(
+        parts: &[SelectorPart],
+        ancestors: &[WidgetMeta],
+        ctx: &SelectorContext,
+    ) -> bool {
+        let Some((part, rest)) = parts.split_last() else {
             return true;
-        }
-
-        // Match remaining parts against ancestors.
-        let mut ancestor_idx = 0;
-        current_part_idx -= 1;
-
-        while current_part_idx < parts.len() && ancestor_idx < ancestors.len() {
-            let part = &parts[current_part_idx];
-            let ancestor = &ancestors[ancestor_idx];
-
-            let matches = part
-                .compound
+        };
+        let matches_at = |idx: usize| {
+            part.compound
                 .selectors
                 .iter()
-                .all(|s| ancestor.matches_selector(s, ctx));
+                .all(|s| ancestors[idx].matches_selector(s, ctx))
+                && Self::ancestors_match(rest, &ancestors[idx + 1..], ctx)
+        };
 
-            match part.combinator {
-                Combinator::Child => {
-                    if matches {
-                        if current_part_idx == 0 {
-                            return true;
-                        }
-                        current_part_idx -= 1;
-                    } else {
-                        return false;
-                    }
-                    ancestor_idx += 1;
-                }
-                Combinator::Descendant | Combinator::None => {
-                    if matches {
-                        if current_part_idx == 0 {
-                            return true;
-                        }
-                        current_part_idx -= 1;
-                    }
-                    ancestor_idx += 1;
-                }
-                // FIX: Add explicit return to satisfy type checker
-                Combinator::AdjacentSibling | Combinator::GeneralSibling => {
-                    return false;
-                }
-            }
+        match part.combinator {
+            Combinator::Child => !ancestors.is_empty() && matches_at(0),
+            Combinator::Descendant | Combinator::None => (0..ancestors.len()).any(matches_at),
+            Combinator::AdjacentSibling | Combinator::GeneralSibling => false,
         }
-
-        current_part_idx == usize::MAX
-            || current_part_idx == 0
-                && ancestor_idx < ancestors.len()
-                && parts[0]
-                    .compound
-                    .selectors
-                    .iter()
-                    .all(|s| ancestors[ancestor_idx].matches_selector(s, ctx))
     }
 }
 
-- 
2.43.0


From fb59713977b777f7b54a50d9a66468f861db6049 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:55:18 +0000
Subject: [PATCH 17/46] fix: a rule takes the specificity of its most specific
 matching selector

---
 crates/tcss/src/parser/cascade.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/crates/tcss/src/parser/cascade.rs b/crates/tcss/src/parser/cascade.rs
index 251b5bf..5428d8b 100644
--- a/crates/tcss/src/parser/cascade.rs
+++ b/crates/tcss/src/parser/cascade.rs
@@ -205,16 +205,21 @@ pub fn compute_style(
 
     // 1. Find all matching rules
     for (idx, rule) in stylesheet.rules.iter().enumerate() {
-        for complex in &rule.selectors.selectors {
-            if widget.matches_complex(complex, ancestors, &ctx) {
-                matched_rules.push(MatchedRule {
-                    specificity: complex.specificity(),
-                    source_order: idx,
-                    rule,
-                });
-                // Once one selector in a rule matches, the whole rule applies.
-                break;
-            }
+        // Once one selector in a rule matches, the whole rule applies,
+        // with the specificity of the most specific selector that matches.
+        let specificity = rule
+            .selectors
+            .selectors
+            .iter()
+            .filter(|complex| widget.matches_complex(complex, ancestors, &ctx))
+            .map(|complex| complex.specificity())
+            .max();
+        if let Some(specificity) = specificity {
+            matched_rules.push(MatchedRule {
+                specificity,
+                source_order: idx,
+                rule,
+            });
         }
     }
 
-- 
2.43.0


From f288e5ec4ddef08316ba2032d75a0df534c11143 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:55:18 +0000
Subject: [PATCH 18/46] fix: a ')' before the '(' of a colour function is an
 error, not a panic

---
 crates/tcss/src/types/color.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/tcss/src/types/color.rs b/crates/tcss/src/types/color.rs
index f407041..f082d15 100644
--- a/crates/tcss/src/types/color.rs
+++ b/crates/tcss/src/types/color.rs
@@ -535,7 +535,9 @@ impl RgbaColor {
             message: "missing ')' in rgb function".to_string(),
         })?;
 
-        let content = &input[start + 1..end];
+        let content = input.get(start + 1..end).ok_or_else(|| ColorParseError {
+            message: "')' before '(' in rgb function".to_string(),
+        })?;
         let parts: Vec<&str> = content.split(',').map(|s| s.trim()).collect();
 
         if parts.len() < 3 {
@@ -566,7 +568,9 @@ impl RgbaColor {
             message: "missing ')' in hsl function".to_string(),
         })?;
 
-        let content = &input[start + 1..end];
+        let content = input.get(start + 1..end).ok_or_else(|| ColorParseError {
+            message: "')' before '(' in hsl function".to_string(),
+        })?;
         let parts: Vec<&str> = content.split(',').map(|s| s.trim()).collect();
 
         if parts.len() < 3 {
-- 
2.43.0


From e82ce638ee09c69e357307fc08e05fef359dfc85 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:55:19 +0000
Subject: [PATCH 19/46] fix: an unknown property without a semicolon ends at
 its rule's closing brace

---
 crates/tcss/src/parser/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/tcss/src/parser/mod.rs b/crates/tcss/src/parser/mod.rs
index 284b6ed..7abdaf5 100644
--- a/crates/tcss/src/parser/mod.rs
+++ b/crates/tcss/src/parser/mod.rs
@@ -407,7 +407,6 @@ fn take_until_balanced_braces(input: &str) -> IResult<&str, &str> {
 }
 
 fn take_until_semicolon_or_brace(input: &str) -> IResult<&str, &str> {
-    nom::bytes::complete::take_until(";")(input).or_else(|_: nom::Err<nom::error::Error<&str>>| {
-        nom::bytes::complete::take_until("}")(input)
-    })
+    // A value may end at the brace that closes the rule, with no semicolon
+    nom::bytes::complete::take_till(|c| c == ';' || c == '}')(input)
 }
-- 
2.43.0


From 9041d664f99c34ccc0bce032ba498c01379127d3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:59:16 +0000
Subject: [PATCH 20/46] fix: a stylesheet variable may be defined in terms of
 another

---
 crates/tcss/src/parser/variables.rs | 55 ++++++++++++++++-------------
 1 file changed, 31 insertions(+), 24 deletions(-)

diff --git a/crates/tcss/src/parser/variables.rs b/crates/tcss/src/parser/variables.rs
index c7bed1c..8dcdf94 100644
--- a/crates/tcss/src/parser/variables.rs
+++ b/crates/tcss/src/parser/variables.rs
@@ -55,6 +55,33 @@ impl StylesheetVariables {
     }
 }
 
+/// Replaces every known `$name` in a piece of text with its value.
+fn substitute(text: &str, vars: &StylesheetVariables) -> String {
+    let mut output = String::new();
+    let mut chars = text.chars().peekable();
+    while let Some(c) = chars.next() {
+        if c == '$' {
+            let mut name = String::new();
+            while let Some(&next) = chars.peek() {
+                if next.is_alphanumeric() || next == '-' || next == '_' {
+                    name.push(chars.next().unwrap());
+                } else {
+                    break;
+                }
+            }
+            if let Some(val) = vars.resolve(&name) {
+                output.push_str(&val);
+            } else {
+                output.push('$');
+                output.push_str(&name);
+            }
+        } else {
+            output.push(c);
+        }
+    }
+    output
+}
+
 pub fn resolve_variables(source: &str, vars: &StylesheetVariables) -> Result<String, TcssError> {
     let mut output = String::new();
 
@@ -83,29 +110,7 @@ pub fn resolve_variables(source: &str, vars: &StylesheetVariables) -> Result<Str
             continue;
         }
 
-        let mut resolved_line = String::new();
-        let mut line_chars = line.chars().peekable();
-        while let Some(c) = line_chars.next() {
-            if c == '$' {
-                let mut name = String::new();
-                while let Some(&next) = line_chars.peek() {
-                    if next.is_alphanumeric() || next == '-' || next == '_' {
-                        name.push(line_chars.next().unwrap());
-                    } else {
-                        break;
-                    }
-                }
-                if let Some(val) = vars.resolve(&name) {
-                    resolved_line.push_str(&val);
-                } else {
-                    resolved_line.push('$');
-                    resolved_line.push_str(&name);
-                }
-            } else {
-                resolved_line.push(c);
-            }
-        }
-        output.push_str(&resolved_line);
+        output.push_str(&substitute(line, vars));
         output.push('\n');
     }
 
@@ -135,7 +140,9 @@ pub fn extract_variables(source: &str) -> StylesheetVariables {
                 if value.ends_with(';') {
                     value = &value[..value.len() - 1];
                 }
-                vars.define(name, value.to_string());
+                // A value may use the variables defined before it
+                let value = substitute(value, &vars);
+                vars.define(name, value);
             }
         }
     }
-- 
2.43.0


From 7c5ff69fcc697deeb16a5368c480f8497fa070da Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 17:07:44 +0000
Subject: [PATCH 21/46] fix: the names of a layers list end at !important

---
 crates/tcss/src/parser/values.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/tcss/src/parser/values.rs b/crates/tcss/src/parser/values.rs
index e879304..940c57e 100644
--- a/crates/tcss/src/parser/values.rs
+++ b/crates/tcss/src/parser/values.rs
@@ -534,9 +534,9 @@ pub fn parse_layer(input: &str) -> IResult<&str, String> {
 pub fn parse_layers(input: &str) -> IResult<&str, Vec<String>> {
     let input = input.trim_start();
 
-    // Find where the value ends (at ; or })
+    // Find where the value ends (at ; or } or !important)
     let end = input
-        .find(|c: char| c == ';' || c == '}')
+        .find(|c: char| matches!(c, ';' | '}' | '!'))
         .unwrap_or(input.len());
     let value_str = input[..end].trim();
 
-- 
2.43.0


From ba576679e9f4c531269c93eca9c163fee3bc51f5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:07:29 +0000
Subject: [PATCH 22/46] fix: clear focus from hidden children as well, so that
 a widget shown again is not a second focused one

---
 crates/textual/src/containers/container.rs  | 5 ++---
 crates/textual/src/containers/grid.rs       | 5 ++---
 crates/textual/src/containers/item_grid.rs  | 5 ++---
 crates/textual/src/containers/scrollable.rs | 5 ++---
 crates/textual/src/widget/app_widget.rs     | 5 ++---
 crates/textual/src/widget/screen.rs         | 5 ++---
 6 files changed, 12 insertions(+), 18 deletions(-)

diff --git a/crates/textual/src/containers/container.rs b/crates/textual/src/containers/container.rs
index cc6529e..6eb917a 100644
--- a/crates/textual/src/containers/container.rs
+++ b/crates/textual/src/containers/container.rs
@@ -1577,10 +1577,9 @@ Container {
     }
 
     fn clear_focus(&mut self) {
+        // Hidden children lose focus too, or they would come back focused.
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_focus();
-            }
+            child.clear_focus();
         }
     }
 
diff --git a/crates/textual/src/containers/grid.rs b/crates/textual/src/containers/grid.rs
index 45082ba..c0d5706 100644
--- a/crates/textual/src/containers/grid.rs
+++ b/crates/textual/src/containers/grid.rs
@@ -426,10 +426,9 @@ Grid {
     }
 
     fn clear_focus(&mut self) {
+        // Hidden children lose focus too, or they would come back focused.
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_focus();
-            }
+            child.clear_focus();
         }
     }
 
diff --git a/crates/textual/src/containers/item_grid.rs b/crates/textual/src/containers/item_grid.rs
index 2c8e26f..47116ce 100644
--- a/crates/textual/src/containers/item_grid.rs
+++ b/crates/textual/src/containers/item_grid.rs
@@ -307,10 +307,9 @@ impl<M> Widget<M> for ItemGrid<M> {
     }
 
     fn clear_focus(&mut self) {
+        // Hidden children lose focus too, or they would come back focused.
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_focus();
-            }
+            child.clear_focus();
         }
     }
 
diff --git a/crates/textual/src/containers/scrollable.rs b/crates/textual/src/containers/scrollable.rs
index 28593e2..4d3746c 100644
--- a/crates/textual/src/containers/scrollable.rs
+++ b/crates/textual/src/containers/scrollable.rs
@@ -1386,10 +1386,9 @@ ScrollableContainer {
     }
 
     fn clear_focus(&mut self) {
+        // Hidden children lose focus too, or they would come back focused.
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_focus();
-            }
+            child.clear_focus();
         }
     }
 
diff --git a/crates/textual/src/widget/app_widget.rs b/crates/textual/src/widget/app_widget.rs
index 9c0ef37..6652f42 100644
--- a/crates/textual/src/widget/app_widget.rs
+++ b/crates/textual/src/widget/app_widget.rs
@@ -249,10 +249,9 @@ App {
     }
 
     fn clear_focus(&mut self) {
+        // Hidden children lose focus too, or they would come back focused.
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_focus();
-            }
+            child.clear_focus();
         }
     }
 }
diff --git a/crates/textual/src/widget/screen.rs b/crates/textual/src/widget/screen.rs
index af87e7d..a3eafc6 100644
--- a/crates/textual/src/widget/screen.rs
+++ b/crates/textual/src/widget/screen.rs
@@ -1194,10 +1194,9 @@ Screen {
     }
 
     fn clear_focus(&mut self) {
+        // Hidden children lose focus too, or they would come back focused.
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_focus();
-            }
+            child.clear_focus();
         }
     }
 }
-- 
2.43.0


From 721e6e7e0be527693459e940564bd7d0607436be Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:07:30 +0000
Subject: [PATCH 23/46] fix: do not count hidden widgets when caching the path
 to the focused widget

---
 crates/textual/src/tree.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/textual/src/tree.rs b/crates/textual/src/tree.rs
index 552e11c..6f08ae4 100644
--- a/crates/textual/src/tree.rs
+++ b/crates/textual/src/tree.rs
@@ -543,7 +543,8 @@ fn find_focus_path_recursive<M>(
     for i in 0..child_count {
         path.push(i);
         if let Some(child) = widget.get_child_mut(i) {
-            if find_focus_path_recursive(child, path, remaining) {
+            // Hidden widgets take no focus (as in `count_focusable` and `focus_nth`)
+            if child.participates_in_layout() && find_focus_path_recursive(child, path, remaining) {
                 return true; // Found in this subtree
             }
         }
-- 
2.43.0


From 5393434c0f7dd92d24782a02616fce60cbc854ba Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:07:30 +0000
Subject: [PATCH 24/46] fix: recompute the focus path when the same focus index
 is set again

---
 crates/textual/src/tree.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/textual/src/tree.rs b/crates/textual/src/tree.rs
index 6f08ae4..be511c1 100644
--- a/crates/textual/src/tree.rs
+++ b/crates/textual/src/tree.rs
@@ -128,6 +128,8 @@ impl<M> WidgetTree<M> {
         if !self.root.focus_nth(focus_index) {
             return false;
         }
+        // The nth focusable widget may be another one than when the path was cached
+        self.focus_path.clear();
         self.update_focus(focus_index);
         true
     }
-- 
2.43.0


From a8a4a2ac4c92f3bdb53896f0b21d09746c16b046 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:21:22 +0000
Subject: [PATCH 25/46] fix: removing a class removes it even if it was given
 twice

---
 crates/textual/src/containers/container.rs     | 4 ++--
 crates/textual/src/containers/scrollable.rs    | 4 ++--
 crates/textual/src/widget/loading_indicator.rs | 4 ++--
 crates/textual/src/widget/placeholder.rs       | 4 ++--
 crates/textual/src/widget/ruler.rs             | 4 ++--
 crates/textual/src/widget/static_widget.rs     | 4 ++--
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/crates/textual/src/containers/container.rs b/crates/textual/src/containers/container.rs
index 6eb917a..948176c 100644
--- a/crates/textual/src/containers/container.rs
+++ b/crates/textual/src/containers/container.rs
@@ -1656,8 +1656,8 @@ Container {
     }
 
     fn remove_class(&mut self, class: &str) {
-        if let Some(pos) = self.classes.iter().position(|c| c == class) {
-            self.classes.remove(pos);
+        if self.classes.iter().any(|c| c == class) {
+            self.classes.retain(|c| c != class);
             self.dirty = true;
         }
     }
diff --git a/crates/textual/src/containers/scrollable.rs b/crates/textual/src/containers/scrollable.rs
index 4d3746c..e960bca 100644
--- a/crates/textual/src/containers/scrollable.rs
+++ b/crates/textual/src/containers/scrollable.rs
@@ -870,8 +870,8 @@ ScrollableContainer {
     }
 
     fn remove_class(&mut self, class: &str) {
-        if let Some(pos) = self.classes.iter().position(|c| c == class) {
-            self.classes.remove(pos);
+        if self.classes.iter().any(|c| c == class) {
+            self.classes.retain(|c| c != class);
             self.dirty = true;
         }
     }
diff --git a/crates/textual/src/widget/loading_indicator.rs b/crates/textual/src/widget/loading_indicator.rs
index 4468b2b..c26a90f 100644
--- a/crates/textual/src/widget/loading_indicator.rs
+++ b/crates/textual/src/widget/loading_indicator.rs
@@ -209,8 +209,8 @@ LoadingIndicator {
     }
 
     fn remove_class(&mut self, class: &str) {
-        if let Some(pos) = self.classes.iter().position(|c| c == class) {
-            self.classes.remove(pos);
+        if self.classes.iter().any(|c| c == class) {
+            self.classes.retain(|c| c != class);
             self.dirty = true;
         }
     }
diff --git a/crates/textual/src/widget/placeholder.rs b/crates/textual/src/widget/placeholder.rs
index 27d73bc..0d8f027 100644
--- a/crates/textual/src/widget/placeholder.rs
+++ b/crates/textual/src/widget/placeholder.rs
@@ -636,8 +636,8 @@ Placeholder {
     }
 
     fn remove_class(&mut self, class: &str) {
-        if let Some(pos) = self.classes.iter().position(|c| c == class) {
-            self.classes.remove(pos);
+        if self.classes.iter().any(|c| c == class) {
+            self.classes.retain(|c| c != class);
             self.dirty = true;
         }
     }
diff --git a/crates/textual/src/widget/ruler.rs b/crates/textual/src/widget/ruler.rs
index 8d12a50..312afa8 100644
--- a/crates/textual/src/widget/ruler.rs
+++ b/crates/textual/src/widget/ruler.rs
@@ -288,8 +288,8 @@ Ruler.-horizontal {
     }
 
     fn remove_class(&mut self, class: &str) {
-        if let Some(pos) = self.classes.iter().position(|c| c == class) {
-            self.classes.remove(pos);
+        if self.classes.iter().any(|c| c == class) {
+            self.classes.retain(|c| c != class);
             self.dirty = true;
         }
     }
diff --git a/crates/textual/src/widget/static_widget.rs b/crates/textual/src/widget/static_widget.rs
index cb0365a..179ee04 100644
--- a/crates/textual/src/widget/static_widget.rs
+++ b/crates/textual/src/widget/static_widget.rs
@@ -1013,8 +1013,8 @@ Static {
     }
 
     fn remove_class(&mut self, class: &str) {
-        if let Some(pos) = self.classes.iter().position(|c| c == class) {
-            self.classes.remove(pos);
+        if self.classes.iter().any(|c| c == class) {
+            self.classes.retain(|c| c != class);
             self.dirty = true;
         }
     }
-- 
2.43.0


From 82461e99ed8c1a655832e50731d6037b5c00cbba Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:21:22 +0000
Subject: [PATCH 26/46] fix: adding a class to a Static twice keeps one and has
 it restyled

---
 crates/textual/src/widget/static_widget.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/textual/src/widget/static_widget.rs b/crates/textual/src/widget/static_widget.rs
index 179ee04..b018723 100644
--- a/crates/textual/src/widget/static_widget.rs
+++ b/crates/textual/src/widget/static_widget.rs
@@ -163,7 +163,11 @@ impl<M> Static<M> {
 
     /// Add a single CSS class.
     pub fn add_class(&mut self, class: impl Into<String>) {
-        self.classes.push(class.into());
+        let class = class.into();
+        if !self.classes.contains(&class) {
+            self.classes.push(class);
+            self.dirty = true;
+        }
     }
 
     /// Set whether the widget expands to fill available space.
-- 
2.43.0


From e1d734dbdc4c7d2d2b4302d20be6b9d1d224ad2f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:21:52 +0000
Subject: [PATCH 27/46] fix: Vertical, Horizontal and the scroll containers
 take class and title changes

---
 .../src/containers/horizontal_scroll.rs       | 27 ++++++++++++++
 .../textual/src/containers/vertical_scroll.rs | 27 ++++++++++++++
 crates/textual/src/macros.rs                  | 36 +++++++++++++++++++
 3 files changed, 90 insertions(+)

diff --git a/crates/textual/src/containers/horizontal_scroll.rs b/crates/textual/src/containers/horizontal_scroll.rs
index fa28381..2dd1945 100644
--- a/crates/textual/src/containers/horizontal_scroll.rs
+++ b/crates/textual/src/containers/horizontal_scroll.rs
@@ -247,4 +247,31 @@ HorizontalScroll {
     fn for_each_child(&mut self, f: &mut dyn FnMut(&mut dyn Widget<M>)) {
         self.inner.for_each_child(f)
     }
+
+    fn add_class(&mut self, class: &str) {
+        if !self.has_class(class) {
+            self.classes.push(class.to_string());
+            self.inner.mark_dirty();
+        }
+    }
+
+    fn remove_class(&mut self, class: &str) {
+        if self.has_class(class) {
+            self.classes.retain(|c| c != class);
+            self.inner.mark_dirty();
+        }
+    }
+
+    fn has_class(&self, class: &str) -> bool {
+        self.classes.iter().any(|c| c == class)
+    }
+
+    fn set_classes(&mut self, classes: &str) {
+        self.classes = classes.split_whitespace().map(String::from).collect();
+        self.inner.mark_dirty();
+    }
+
+    fn classes(&self) -> Vec<String> {
+        self.classes.clone()
+    }
 }
diff --git a/crates/textual/src/containers/vertical_scroll.rs b/crates/textual/src/containers/vertical_scroll.rs
index 8f8e83d..bd8cfa5 100644
--- a/crates/textual/src/containers/vertical_scroll.rs
+++ b/crates/textual/src/containers/vertical_scroll.rs
@@ -244,4 +244,31 @@ VerticalScroll {
     fn for_each_child(&mut self, f: &mut dyn FnMut(&mut dyn Widget<M>)) {
         self.inner.for_each_child(f)
     }
+
+    fn add_class(&mut self, class: &str) {
+        if !self.has_class(class) {
+            self.classes.push(class.to_string());
+            self.inner.mark_dirty();
+        }
+    }
+
+    fn remove_class(&mut self, class: &str) {
+        if self.has_class(class) {
+            self.classes.retain(|c| c != class);
+            self.inner.mark_dirty();
+        }
+    }
+
+    fn has_class(&self, class: &str) -> bool {
+        self.classes.iter().any(|c| c == class)
+    }
+
+    fn set_classes(&mut self, classes: &str) {
+        self.classes = classes.split_whitespace().map(String::from).collect();
+        self.inner.mark_dirty();
+    }
+
+    fn classes(&self) -> Vec<String> {
+        self.classes.clone()
+    }
 }
diff --git a/crates/textual/src/macros.rs b/crates/textual/src/macros.rs
index 4ed56fe..1e31b70 100644
--- a/crates/textual/src/macros.rs
+++ b/crates/textual/src/macros.rs
@@ -218,6 +218,42 @@ macro_rules! impl_widget_delegation {
             fn content_width_for_scroll(&self, available_width: u16) -> u16 {
                 self.$field.content_width_for_scroll(available_width)
             }
+
+            fn add_class(&mut self, class: &str) {
+                self.$field.add_class(class)
+            }
+
+            fn remove_class(&mut self, class: &str) {
+                self.$field.remove_class(class)
+            }
+
+            fn has_class(&self, class: &str) -> bool {
+                self.$field.has_class(class)
+            }
+
+            fn set_classes(&mut self, classes: &str) {
+                self.$field.set_classes(classes)
+            }
+
+            fn classes(&self) -> Vec<String> {
+                self.$field.classes()
+            }
+
+            fn set_border_title(&mut self, title: &str) {
+                self.$field.set_border_title(title)
+            }
+
+            fn set_border_subtitle(&mut self, subtitle: &str) {
+                self.$field.set_border_subtitle(subtitle)
+            }
+
+            fn border_title(&self) -> Option<&str> {
+                self.$field.border_title()
+            }
+
+            fn border_subtitle(&self) -> Option<&str> {
+                self.$field.border_subtitle()
+            }
         }
     };
 }
-- 
2.43.0


From 2873be6aa23d6e6dccbdef1014fdb1ec6c880671 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:21:52 +0000
Subject: [PATCH 28/46] fix: a boxed widget passes on focus, inline style,
 tooltip, type name and mouse blocking

---
 crates/textual/src/widget.rs | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/crates/textual/src/widget.rs b/crates/textual/src/widget.rs
index 5fe2d87..ac3411a 100644
--- a/crates/textual/src/widget.rs
+++ b/crates/textual/src/widget.rs
@@ -627,10 +627,42 @@ impl<M> Widget<M> for Box<dyn Widget<M>> {
         self.as_mut().mark_clean();
     }
 
+    fn set_inline_style(&mut self, style: StyleOverride) {
+        self.as_mut().set_inline_style(style);
+    }
+
+    fn inline_style(&self) -> Option<&StyleOverride> {
+        self.as_ref().inline_style()
+    }
+
+    fn clear_inline_style(&mut self) {
+        self.as_mut().clear_inline_style();
+    }
+
+    fn tooltip(&self) -> Option<String> {
+        self.as_ref().tooltip()
+    }
+
+    fn set_tooltip(&mut self, tooltip: Option<String>) {
+        self.as_mut().set_tooltip(tooltip);
+    }
+
     fn pre_layout(&mut self, layout: &mut dyn Layout) {
         self.as_mut().pre_layout(layout);
     }
 
+    fn set_focus(&mut self, is_focused: bool) {
+        self.as_mut().set_focus(is_focused);
+    }
+
+    fn is_focused(&self) -> bool {
+        self.as_ref().is_focused()
+    }
+
+    fn blocks_mouse_events(&self) -> bool {
+        self.as_ref().blocks_mouse_events()
+    }
+
     fn on_event(&mut self, key: KeyCode) -> Option<M> {
         self.as_mut().on_event(key)
     }
@@ -724,9 +756,7 @@ impl<M> Widget<M> for Box<dyn Widget<M>> {
     }
 
     fn type_name(&self) -> &'static str {
-        // Box<dyn Widget> should delegate to inner widget's type_name
-        // but we can't call it through trait object, so return generic name
-        "Widget"
+        self.as_ref().type_name()
     }
 
     fn sender_info(&self) -> SenderInfo {
-- 
2.43.0


From 4a675caf289acef235a3057a4e543081d776ae83 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:28:16 +0000
Subject: [PATCH 29/46] fix: show the input's cursor when it is at the end of
 the value

---
 crates/textual/src/widget/input.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/textual/src/widget/input.rs b/crates/textual/src/widget/input.rs
index 0957049..3842a0d 100644
--- a/crates/textual/src/widget/input.rs
+++ b/crates/textual/src/widget/input.rs
@@ -4,7 +4,7 @@
 
 use std::marker::PhantomData;
 
-use tcss::types::Visibility;
+use tcss::types::{TextWrap, Visibility};
 use tcss::{ComputedStyle, StyleOverride, WidgetMeta, WidgetStates};
 
 use crate::canvas::{Canvas, Region};
@@ -293,7 +293,9 @@ Input {
         states
     }
 
-    fn set_style(&mut self, style: ComputedStyle) {
+    fn set_style(&mut self, mut style: ComputedStyle) {
+        // A single line is never wrapped: wrapping drops the blank cell of a cursor at the end
+        style.text_wrap = TextWrap::NoWrap;
         self.inner.set_style(style);
     }
 
-- 
2.43.0


From 99b7f44ab39eca8ce32273e6754b7cd7836f25bf Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:28:16 +0000
Subject: [PATCH 30/46] fix: typing a combining character does not move the
 input's cursor past its end

---
 crates/textual/src/widget/input.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/textual/src/widget/input.rs b/crates/textual/src/widget/input.rs
index 3842a0d..4960706 100644
--- a/crates/textual/src/widget/input.rs
+++ b/crates/textual/src/widget/input.rs
@@ -170,7 +170,8 @@ impl<M> Input<M> {
         let cursor = self.cursor.min(grapheme_count(&self.value));
         let byte_index = grapheme_byte_index(&self.value, cursor);
         self.value.insert(byte_index, ch);
-        self.cursor = cursor + 1;
+        // A combining character joins the one before it: it moves the cursor by none
+        self.cursor = grapheme_count(&self.value[..byte_index + ch.len_utf8()]);
         self.refresh_display();
     }
 
-- 
2.43.0


From 5b74e84783ab7735ff7115d042b912233005c374 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:34:42 +0000
Subject: [PATCH 31/46] fix: containers send mouse events to the child drawn
 under the pointer

---
 crates/textual/src/containers/container.rs | 124 ++++++++++-----------
 crates/textual/src/containers/grid.rs      |  16 ++-
 crates/textual/src/containers/item_grid.rs |  16 ++-
 3 files changed, 76 insertions(+), 80 deletions(-)

diff --git a/crates/textual/src/containers/container.rs b/crates/textual/src/containers/container.rs
index 948176c..ca6e0c1 100644
--- a/crates/textual/src/containers/container.rs
+++ b/crates/textual/src/containers/container.rs
@@ -170,24 +170,50 @@ impl<M> Container<M> {
 
     /// Return true if any child occupies the given point within this container region.
     pub fn hit_test_children(&self, region: Region, column: i32, row: i32) -> bool {
-        if !region.contains_point(column, row) {
-            return false;
+        !self.children_at(region, column, row).is_empty()
+    }
+
+    /// The children drawn at the given point, topmost first, with the regions they are drawn in.
+    pub(crate) fn children_at(
+        &self,
+        region: Region,
+        column: i32,
+        row: i32,
+    ) -> Vec<(usize, Region)> {
+        let inner_region = crate::containers::inner_region_for_container(region, &self.style);
+        let content_region = self.content_region_for_scroll(inner_region);
+        if !content_region.contains_point(column, row) {
+            return Vec::new();
         }
-        let viewport = layouts::Viewport::from(region);
-        let placements = self.compute_child_placements(region, viewport);
-        let offset_y = self.scroll.borrow().offset_y;
-        for placement in placements {
-            let scrolled_region = Region {
-                x: placement.region.x,
-                y: placement.region.y - offset_y,
-                width: placement.region.width,
-                height: placement.region.height,
+
+        // Children are laid out as in render()
+        let layout_region =
+            if self.show_vertical_scrollbar() && content_region.width < inner_region.width {
+                content_region
+            } else {
+                inner_region
             };
-            if scrolled_region.contains_point(column, row) {
-                return true;
-            }
-        }
-        false
+        // The viewport is only available during render: approximate it as the region
+        let viewport = layouts::Viewport::from(region);
+        let (offset_x, offset_y) = {
+            let scroll = self.scroll.borrow();
+            (scroll.offset_x, scroll.offset_y)
+        };
+
+        self.compute_child_placements(layout_region, viewport)
+            .into_iter()
+            .rev()
+            .map(|placement| {
+                let scrolled_region = Region {
+                    x: placement.region.x - offset_x,
+                    y: placement.region.y - offset_y,
+                    width: placement.region.width,
+                    height: placement.region.height,
+                };
+                (placement.child_index, scrolled_region)
+            })
+            .filter(|(_, scrolled_region)| scrolled_region.contains_point(column, row))
+            .collect()
     }
 
     /// Get the effective layout direction (override takes precedence over CSS).
@@ -1471,32 +1497,12 @@ Container {
             _ => {}
         }
 
-        // Compute placements and dispatch mouse events
-        // For mouse handling, approximate viewport as region (only available during render)
-        let viewport = layouts::Viewport::from(region);
-        let placements = self.compute_child_placements(region, viewport);
-
-        // Get scroll offset to adjust mouse coordinates for children
-        let offset_y = self.scroll.borrow().offset_y;
-
-        for placement in placements {
-            // Adjust placement for scroll offset when checking hit
-            let scrolled_placement = Region {
-                x: placement.region.x,
-                y: placement.region.y - offset_y,
-                width: placement.region.width,
-                height: placement.region.height,
-            };
-
-            if scrolled_placement.contains_point(mx, my) {
-                if matches!(event.kind, MouseEventKind::Moved) {
-                    self.children[placement.child_index].set_hover(true);
-                }
-                if let Some(msg) =
-                    self.children[placement.child_index].on_mouse(event, scrolled_placement)
-                {
-                    return Some(msg);
-                }
+        for (child_index, child_region) in self.children_at(region, mx, my) {
+            if matches!(event.kind, MouseEventKind::Moved) {
+                self.children[child_index].set_hover(true);
+            }
+            if let Some(msg) = self.children[child_index].on_mouse(event, child_region) {
+                return Some(msg);
             }
         }
 
@@ -1536,32 +1542,14 @@ Container {
             _ => {}
         }
 
-        // Compute placements and dispatch mouse events
-        // For mouse handling, approximate viewport as region (only available during render)
-        let viewport = layouts::Viewport::from(region);
-        let placements = self.compute_child_placements(region, viewport);
-
-        // Get scroll offset to adjust mouse coordinates for children
-        let offset_y = self.scroll.borrow().offset_y;
-
-        for placement in placements {
-            // Adjust placement for scroll offset when checking hit
-            let scrolled_placement = Region {
-                x: placement.region.x,
-                y: placement.region.y - offset_y,
-                width: placement.region.width,
-                height: placement.region.height,
-            };
-
-            if scrolled_placement.contains_point(mx, my) {
-                if matches!(event.kind, MouseEventKind::Moved) {
-                    self.children[placement.child_index].set_hover(true);
-                }
-                if let Some(result) = self.children[placement.child_index]
-                    .on_mouse_with_sender(event, scrolled_placement)
-                {
-                    return Some(result);
-                }
+        for (child_index, child_region) in self.children_at(region, mx, my) {
+            if matches!(event.kind, MouseEventKind::Moved) {
+                self.children[child_index].set_hover(true);
+            }
+            if let Some(result) =
+                self.children[child_index].on_mouse_with_sender(event, child_region)
+            {
+                return Some(result);
             }
         }
 
diff --git a/crates/textual/src/containers/grid.rs b/crates/textual/src/containers/grid.rs
index c0d5706..27401d7 100644
--- a/crates/textual/src/containers/grid.rs
+++ b/crates/textual/src/containers/grid.rs
@@ -364,17 +364,19 @@ Grid {
         let mx = event.column as i32;
         let my = event.row as i32;
 
-        if !region.contains_point(mx, my) {
+        let inner_region = crate::containers::inner_region_for_container(region, &self.style);
+        if !inner_region.contains_point(mx, my) {
             return None;
         }
 
         // Compute placements first (borrows self immutably)
         // For mouse handling, approximate viewport as region
         let viewport = layouts::Viewport::from(region);
-        let placements = self.compute_child_placements(region, viewport);
+        let placements = self.compute_child_placements(inner_region, viewport);
 
         // Then iterate and dispatch mouse events (borrows self mutably)
-        for placement in placements {
+        // Later children are drawn over earlier ones, so they get the event first
+        for placement in placements.into_iter().rev() {
             if placement.region.contains_point(mx, my) {
                 if let Some(msg) =
                     self.children[placement.child_index].on_mouse(event, placement.region)
@@ -395,16 +397,18 @@ Grid {
         let mx = event.column as i32;
         let my = event.row as i32;
 
-        if !region.contains_point(mx, my) {
+        let inner_region = crate::containers::inner_region_for_container(region, &self.style);
+        if !inner_region.contains_point(mx, my) {
             return None;
         }
 
         // Compute placements first (borrows self immutably)
         // For mouse handling, approximate viewport as region
         let viewport = layouts::Viewport::from(region);
-        let placements = self.compute_child_placements(region, viewport);
+        let placements = self.compute_child_placements(inner_region, viewport);
 
-        for placement in placements {
+        // Later children are drawn over earlier ones, so they get the event first
+        for placement in placements.into_iter().rev() {
             if placement.region.contains_point(mx, my) {
                 if let Some(result) = self.children[placement.child_index]
                     .on_mouse_with_sender(event, placement.region)
diff --git a/crates/textual/src/containers/item_grid.rs b/crates/textual/src/containers/item_grid.rs
index 47116ce..c4f076e 100644
--- a/crates/textual/src/containers/item_grid.rs
+++ b/crates/textual/src/containers/item_grid.rs
@@ -248,15 +248,17 @@ impl<M> Widget<M> for ItemGrid<M> {
         let mx = event.column as i32;
         let my = event.row as i32;
 
-        if !region.contains_point(mx, my) {
+        let inner_region = crate::containers::inner_region_for_container(region, &self.style);
+        if !inner_region.contains_point(mx, my) {
             return None;
         }
 
         // For mouse handling, approximate viewport as region
         let viewport = layouts::Viewport::from(region);
-        let placements = self.compute_child_placements(region, viewport);
+        let placements = self.compute_child_placements(inner_region, viewport);
 
-        for placement in placements {
+        // Later children are drawn over earlier ones, so they get the event first
+        for placement in placements.into_iter().rev() {
             if placement.region.contains_point(mx, my) {
                 if let Some(msg) =
                     self.children[placement.child_index].on_mouse(event, placement.region)
@@ -277,15 +279,17 @@ impl<M> Widget<M> for ItemGrid<M> {
         let mx = event.column as i32;
         let my = event.row as i32;
 
-        if !region.contains_point(mx, my) {
+        let inner_region = crate::containers::inner_region_for_container(region, &self.style);
+        if !inner_region.contains_point(mx, my) {
             return None;
         }
 
         // For mouse handling, approximate viewport as region
         let viewport = layouts::Viewport::from(region);
-        let placements = self.compute_child_placements(region, viewport);
+        let placements = self.compute_child_placements(inner_region, viewport);
 
-        for placement in placements {
+        // Later children are drawn over earlier ones, so they get the event first
+        for placement in placements.into_iter().rev() {
             if placement.region.contains_point(mx, my) {
                 if let Some(result) = self.children[placement.child_index]
                     .on_mouse_with_sender(event, placement.region)
-- 
2.43.0


From d34e050d4b840e728c62e9e7049df3ed81687a28 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:35:49 +0000
Subject: [PATCH 32/46] fix: the screen sends mouse events to the child drawn
 under the pointer

---
 crates/textual/src/containers/scrollable.rs | 16 ++--
 crates/textual/src/widget/screen.rs         | 81 +++++----------------
 2 files changed, 26 insertions(+), 71 deletions(-)

diff --git a/crates/textual/src/containers/scrollable.rs b/crates/textual/src/containers/scrollable.rs
index e960bca..47b4616 100644
--- a/crates/textual/src/containers/scrollable.rs
+++ b/crates/textual/src/containers/scrollable.rs
@@ -1041,7 +1041,7 @@ ScrollableContainer {
                         let scroll = self.scroll.borrow();
                         (scroll.offset_x, scroll.offset_y)
                     };
-                    for placement in &layout.placements {
+                    for placement in layout.placements.iter().rev() {
                         let scrolled = Region {
                             x: placement.region.x - offset_x,
                             y: placement.region.y - offset_y,
@@ -1066,7 +1066,7 @@ ScrollableContainer {
                         let scroll = self.scroll.borrow();
                         (scroll.offset_x, scroll.offset_y)
                     };
-                    for placement in &layout.placements {
+                    for placement in layout.placements.iter().rev() {
                         let scrolled = Region {
                             x: placement.region.x - offset_x,
                             y: placement.region.y - offset_y,
@@ -1091,7 +1091,7 @@ ScrollableContainer {
                         let scroll = self.scroll.borrow();
                         (scroll.offset_x, scroll.offset_y)
                     };
-                    for placement in &layout.placements {
+                    for placement in layout.placements.iter().rev() {
                         let scrolled = Region {
                             x: placement.region.x - offset_x,
                             y: placement.region.y - offset_y,
@@ -1117,7 +1117,7 @@ ScrollableContainer {
                         let scroll = self.scroll.borrow();
                         (scroll.offset_x, scroll.offset_y)
                     };
-                    for placement in &layout.placements {
+                    for placement in layout.placements.iter().rev() {
                         let scrolled = Region {
                             x: placement.region.x - offset_x,
                             y: placement.region.y - offset_y,
@@ -1229,7 +1229,7 @@ ScrollableContainer {
                         let scroll = self.scroll.borrow();
                         (scroll.offset_x, scroll.offset_y)
                     };
-                    for placement in &layout.placements {
+                    for placement in layout.placements.iter().rev() {
                         let scrolled = Region {
                             x: placement.region.x - offset_x,
                             y: placement.region.y - offset_y,
@@ -1259,7 +1259,7 @@ ScrollableContainer {
                         let scroll = self.scroll.borrow();
                         (scroll.offset_x, scroll.offset_y)
                     };
-                    for placement in &layout.placements {
+                    for placement in layout.placements.iter().rev() {
                         let scrolled = Region {
                             x: placement.region.x - offset_x,
                             y: placement.region.y - offset_y,
@@ -1287,7 +1287,7 @@ ScrollableContainer {
                         let scroll = self.scroll.borrow();
                         (scroll.offset_x, scroll.offset_y)
                     };
-                    for placement in &layout.placements {
+                    for placement in layout.placements.iter().rev() {
                         let scrolled = Region {
                             x: placement.region.x - offset_x,
                             y: placement.region.y - offset_y,
@@ -1314,7 +1314,7 @@ ScrollableContainer {
                         let scroll = self.scroll.borrow();
                         (scroll.offset_x, scroll.offset_y)
                     };
-                    for placement in &layout.placements {
+                    for placement in layout.placements.iter().rev() {
                         let scrolled = Region {
                             x: placement.region.x - offset_x,
                             y: placement.region.y - offset_y,
diff --git a/crates/textual/src/widget/screen.rs b/crates/textual/src/widget/screen.rs
index a3eafc6..da04f8b 100644
--- a/crates/textual/src/widget/screen.rs
+++ b/crates/textual/src/widget/screen.rs
@@ -212,28 +212,14 @@ impl<M> Screen<M> {
             (scroll.offset_x, scroll.offset_y)
         };
 
-        for placement in placements {
+        // Regions are those the children are drawn in; the last one drawn is on top
+        for placement in placements.into_iter().rev() {
             let scrolled_region = Region {
-                x: placement.region.x,
-                y: placement.region.y,
+                x: placement.region.x - offset_x,
+                y: placement.region.y - offset_y,
                 width: placement.region.width,
                 height: placement.region.height,
             };
-            let scrolled_region = if let Some(child) = self.children.get(placement.child_index) {
-                let style = child.get_style();
-                if style.dock.is_none() && style.position != tcss::types::Position::Absolute {
-                    Region {
-                        x: scrolled_region.x - offset_x,
-                        y: scrolled_region.y - offset_y,
-                        width: scrolled_region.width,
-                        height: scrolled_region.height,
-                    }
-                } else {
-                    scrolled_region
-                }
-            } else {
-                scrolled_region
-            };
             if scrolled_region.contains_point(event.column as i32, event.row as i32) {
                 if let Some(child) = self.children.get_mut(placement.child_index) {
                     if matches!(event.kind, crossterm::event::MouseEventKind::Moved) {
@@ -823,7 +809,7 @@ Screen {
                     self.is_dirty = true;
                 }
 
-                if layout_region.contains_point(mx, my) {
+                if content_region.contains_point(mx, my) {
                     return self
                         .dispatch_mouse_to_children(event, layout_region, viewport)
                         .map(|(msg, _)| msg);
@@ -839,7 +825,7 @@ Screen {
                     self.handle_horizontal_scrollbar_click(event, h_region);
                     return None;
                 }
-                if layout_region.contains_point(mx, my) {
+                if content_region.contains_point(mx, my) {
                     return self
                         .dispatch_mouse_to_children(event, layout_region, viewport)
                         .map(|(msg, _)| msg);
@@ -851,7 +837,7 @@ Screen {
                     self.handle_scrollbar_drag(event, inner_region, vertical, grab_offset);
                     return None;
                 }
-                if layout_region.contains_point(mx, my) {
+                if content_region.contains_point(mx, my) {
                     return self
                         .dispatch_mouse_to_children(event, layout_region, viewport)
                         .map(|(msg, _)| msg);
@@ -863,7 +849,7 @@ Screen {
                     self.scrollbar_drag = None;
                     self.is_dirty = true;
                 }
-                if layout_region.contains_point(mx, my) {
+                if content_region.contains_point(mx, my) {
                     return self
                         .dispatch_mouse_to_children(event, layout_region, viewport)
                         .map(|(msg, _)| msg);
@@ -929,25 +915,10 @@ Screen {
             }
         }
 
-        // Compute placements and dispatch mouse events
-        let placements = self.compute_child_placements(layout_region, viewport);
-        let offset_y = self.scroll.borrow().offset_y;
-
-        for placement in placements {
-            let scrolled_region = Region {
-                x: placement.region.x,
-                y: placement.region.y - offset_y,
-                width: placement.region.width,
-                height: placement.region.height,
-            };
-            if scrolled_region.contains_point(mx, my) {
-                if let Some(child) = self.children.get_mut(placement.child_index) {
-                    if let Some((msg, _sender)) = child.on_mouse_with_sender(event, scrolled_region)
-                    {
-                        return Some(msg);
-                    }
-                }
-            }
+        if content_region.contains_point(mx, my) {
+            return self
+                .dispatch_mouse_to_children(event, layout_region, viewport)
+                .map(|(msg, _)| msg);
         }
 
         None
@@ -1012,7 +983,7 @@ Screen {
                     self.is_dirty = true;
                 }
 
-                if layout_region.contains_point(mx, my) {
+                if content_region.contains_point(mx, my) {
                     return self.dispatch_mouse_to_children(event, layout_region, viewport);
                 }
                 return None;
@@ -1026,7 +997,7 @@ Screen {
                     self.handle_horizontal_scrollbar_click(event, h_region);
                     return None;
                 }
-                if layout_region.contains_point(mx, my) {
+                if content_region.contains_point(mx, my) {
                     return self.dispatch_mouse_to_children(event, layout_region, viewport);
                 }
                 return None;
@@ -1036,7 +1007,7 @@ Screen {
                     self.handle_scrollbar_drag(event, inner_region, vertical, grab_offset);
                     return None;
                 }
-                if layout_region.contains_point(mx, my) {
+                if content_region.contains_point(mx, my) {
                     return self.dispatch_mouse_to_children(event, layout_region, viewport);
                 }
                 return None;
@@ -1046,7 +1017,7 @@ Screen {
                     self.scrollbar_drag = None;
                     self.is_dirty = true;
                 }
-                if layout_region.contains_point(mx, my) {
+                if content_region.contains_point(mx, my) {
                     return self.dispatch_mouse_to_children(event, layout_region, viewport);
                 }
                 return None;
@@ -1110,24 +1081,8 @@ Screen {
             }
         }
 
-        // Compute placements and dispatch mouse events
-        let placements = self.compute_child_placements(layout_region, viewport);
-        let offset_y = self.scroll.borrow().offset_y;
-
-        for placement in placements {
-            let scrolled_region = Region {
-                x: placement.region.x,
-                y: placement.region.y - offset_y,
-                width: placement.region.width,
-                height: placement.region.height,
-            };
-            if scrolled_region.contains_point(mx, my) {
-                if let Some(child) = self.children.get_mut(placement.child_index) {
-                    if let Some(result) = child.on_mouse_with_sender(event, scrolled_region) {
-                        return Some(result);
-                    }
-                }
-            }
+        if content_region.contains_point(mx, my) {
+            return self.dispatch_mouse_to_children(event, layout_region, viewport);
         }
 
         None
-- 
2.43.0


From 0648236faa8f306779efcff5b2438b29b4828005 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:04:25 +0000
Subject: [PATCH 33/46] fix: scrollbars of containers and the screen take their
 space from the content instead of covering it

---
 crates/textual/src/containers/container.rs | 137 ++++++---------------
 crates/textual/src/widget/screen.rs        | 119 ++++++------------
 2 files changed, 76 insertions(+), 180 deletions(-)

diff --git a/crates/textual/src/containers/container.rs b/crates/textual/src/containers/container.rs
index ca6e0c1..ce64ae1 100644
--- a/crates/textual/src/containers/container.rs
+++ b/crates/textual/src/containers/container.rs
@@ -3,7 +3,7 @@
 //! Container is the base for all layout containers. It dispatches to the
 //! appropriate layout algorithm based on the `layout` CSS property.
 
-use std::cell::RefCell;
+use std::cell::{Cell, RefCell};
 
 use tcss::types::Layout as LayoutDirection;
 use tcss::types::Overflow;
@@ -72,6 +72,8 @@ pub struct Container<M> {
     scroll: RefCell<ScrollState>,
     /// Which scrollbar is being hovered (Some(true) = vertical, Some(false) = horizontal).
     scrollbar_hover: Option<bool>,
+    /// Whether the content overflowed (vertically, horizontally) when it was last laid out.
+    scrollbars: Cell<(bool, bool)>,
     /// Scrollbar drag state: (is_vertical, grab_offset).
     scrollbar_drag: Option<(bool, i32)>,
 }
@@ -90,6 +92,7 @@ impl<M> Container<M> {
             border_subtitle: None,
             layout_override: None,
             viewport: Size::new(80, 24), // Default until on_resize is called
+            scrollbars: Cell::new((false, false)),
             cached_layout: RefCell::new(None),
             scroll: RefCell::new(ScrollState::default()),
             scrollbar_hover: None,
@@ -186,13 +189,6 @@ impl<M> Container<M> {
             return Vec::new();
         }
 
-        // Children are laid out as in render()
-        let layout_region =
-            if self.show_vertical_scrollbar() && content_region.width < inner_region.width {
-                content_region
-            } else {
-                inner_region
-            };
         // The viewport is only available during render: approximate it as the region
         let viewport = layouts::Viewport::from(region);
         let (offset_x, offset_y) = {
@@ -200,7 +196,7 @@ impl<M> Container<M> {
             (scroll.offset_x, scroll.offset_y)
         };
 
-        self.compute_child_placements(layout_region, viewport)
+        self.compute_child_placements(content_region, viewport)
             .into_iter()
             .rev()
             .map(|placement| {
@@ -225,10 +221,7 @@ impl<M> Container<M> {
     fn show_vertical_scrollbar(&self) -> bool {
         match self.style.overflow_y {
             Overflow::Scroll => true,
-            Overflow::Auto => {
-                let scroll = self.scroll.borrow();
-                scroll.can_scroll_y()
-            }
+            Overflow::Auto => self.scrollbars.get().0,
             Overflow::Hidden => false,
         }
     }
@@ -237,10 +230,7 @@ impl<M> Container<M> {
     fn show_horizontal_scrollbar(&self) -> bool {
         match self.style.overflow_x {
             Overflow::Scroll => true,
-            Overflow::Auto => {
-                let scroll = self.scroll.borrow();
-                scroll.can_scroll_x()
-            }
+            Overflow::Auto => self.scrollbars.get().1,
             Overflow::Hidden => false,
         }
     }
@@ -841,91 +831,40 @@ Container {
         // 5. Update scroll state and compute content region
         let viewport = canvas.viewport();
 
-        // First compute placements to determine virtual content height
-        let initial_placements = self.compute_child_placements(inner_region, viewport);
-
-        // Calculate virtual content dimensions from placements (max extent relative to inner_region)
-        let virtual_height = initial_placements
-            .iter()
-            .map(|p| {
-                let margin_bottom = self
-                    .children
-                    .get(p.child_index)
-                    .map(|child| child.get_style().margin.bottom.value as i32)
-                    .unwrap_or(0);
-                (p.region.y - inner_region.y) + p.region.height + margin_bottom
-            })
-            .max()
-            .unwrap_or(0);
-
-        let virtual_width = initial_placements
-            .iter()
-            .map(|p| {
-                let margin_right = self
-                    .children
-                    .get(p.child_index)
-                    .map(|child| child.get_style().margin.right.value as i32)
-                    .unwrap_or(0);
-                (p.region.x - inner_region.x) + p.region.width + margin_right
-            })
-            .max()
-            .unwrap_or(0);
-
-        // Update scroll state with virtual size and viewport
-        {
-            let mut scroll = self.scroll.borrow_mut();
-            scroll.set_virtual_size(virtual_width, virtual_height);
-            scroll.set_viewport(inner_region.width, inner_region.height);
-        }
-
-        // Determine if we need scrollbars and adjust content region
-        let show_v_scrollbar = self.show_vertical_scrollbar();
-        let content_region = self.content_region_for_scroll(inner_region);
+        // Lay the children out in the space the scrollbars leave, which are shown
+        // once the content overflows it: at most one more each time round
+        self.scrollbars.set((false, false));
+        let (content_region, placements) = loop {
+            let content_region = self.content_region_for_scroll(inner_region);
+            let placements = self.compute_child_placements(content_region, viewport);
+
+            // Calculate virtual content dimensions from placements (max extent relative to content_region)
+            let mut virtual_width = 0;
+            let mut virtual_height = 0;
+            for p in &placements {
+                let margin = self.children[p.child_index].get_style().margin;
+                virtual_width = virtual_width.max(
+                    (p.region.x - content_region.x) + p.region.width + margin.right.value as i32,
+                );
+                virtual_height = virtual_height.max(
+                    (p.region.y - content_region.y) + p.region.height + margin.bottom.value as i32,
+                );
+            }
 
-        // If scrollbar visibility changed the content width, we need to recompute placements
-        // and update virtual dimensions (important for width-based units like `w` in min-height: 40w)
-        let placements = if show_v_scrollbar && content_region.width < inner_region.width {
-            // Invalidate cache since we need to recalculate with smaller width
-            *self.cached_layout.borrow_mut() = None;
-            let new_placements = self.compute_child_placements(content_region, viewport);
-
-            // Recalculate virtual dimensions with the new placements (content_region based)
-            let new_virtual_height = new_placements
-                .iter()
-                .map(|p| {
-                    let margin_bottom = self
-                        .children
-                        .get(p.child_index)
-                        .map(|child| child.get_style().margin.bottom.value as i32)
-                        .unwrap_or(0);
-                    (p.region.y - content_region.y) + p.region.height + margin_bottom
-                })
-                .max()
-                .unwrap_or(0);
-
-            let new_virtual_width = new_placements
-                .iter()
-                .map(|p| {
-                    let margin_right = self
-                        .children
-                        .get(p.child_index)
-                        .map(|child| child.get_style().margin.right.value as i32)
-                        .unwrap_or(0);
-                    (p.region.x - content_region.x) + p.region.width + margin_right
-                })
-                .max()
-                .unwrap_or(0);
-
-            // Update scroll state with corrected virtual dimensions
-            {
+            let (vertical, horizontal) = self.scrollbars.get();
+            let overflows = (
+                vertical || virtual_height > content_region.height,
+                horizontal || virtual_width > content_region.width,
+            );
+            if overflows == (vertical, horizontal) {
+                // Update scroll state with virtual size and viewport
                 let mut scroll = self.scroll.borrow_mut();
-                scroll.set_virtual_size(new_virtual_width, new_virtual_height);
-                scroll.set_viewport(content_region.width, content_region.height);
+                scroll.viewport_width = content_region.width;
+                scroll.viewport_height = content_region.height;
+                scroll.set_virtual_size(virtual_width, virtual_height);
+                break (content_region, placements);
             }
-
-            new_placements
-        } else {
-            initial_placements
+            self.scrollbars.set(overflows);
         };
 
         // Get scroll offsets for rendering
diff --git a/crates/textual/src/widget/screen.rs b/crates/textual/src/widget/screen.rs
index da04f8b..458e2f2 100644
--- a/crates/textual/src/widget/screen.rs
+++ b/crates/textual/src/widget/screen.rs
@@ -14,7 +14,7 @@
 //!
 //! The last matching breakpoint wins (iterate in order).
 
-use std::cell::RefCell;
+use std::cell::{Cell, RefCell};
 
 use crate::canvas::{Canvas, Region, Size};
 use crate::layouts;
@@ -57,6 +57,8 @@ pub struct Screen<M> {
     scroll: RefCell<ScrollState>,
     /// Which scrollbar is being hovered (Some(true) = vertical, Some(false) = horizontal).
     scrollbar_hover: Option<bool>,
+    /// Whether the content overflowed (vertically, horizontally) when it was last laid out
+    scrollbars: Cell<(bool, bool)>,
     /// Active drag state: (vertical?, grab_offset)
     scrollbar_drag: Option<(bool, i32)>,
     horizontal_breakpoints: &'static [Breakpoint],
@@ -74,6 +76,7 @@ impl<M> Screen<M> {
             is_dirty: true,
             scroll: RefCell::new(ScrollState::default()),
             scrollbar_hover: None,
+            scrollbars: Cell::new((false, false)),
             scrollbar_drag: None,
             horizontal_breakpoints: DEFAULT_HORIZONTAL_BREAKPOINTS,
             vertical_breakpoints: DEFAULT_VERTICAL_BREAKPOINTS,
@@ -236,7 +239,7 @@ impl<M> Screen<M> {
     fn show_vertical_scrollbar(&self) -> bool {
         match self.style.overflow_y {
             Overflow::Scroll => true,
-            Overflow::Auto => self.scroll.borrow().can_scroll_y(),
+            Overflow::Auto => self.scrollbars.get().0,
             Overflow::Hidden => false,
         }
     }
@@ -244,7 +247,7 @@ impl<M> Screen<M> {
     fn show_horizontal_scrollbar(&self) -> bool {
         match self.style.overflow_x {
             Overflow::Scroll => true,
-            Overflow::Auto => self.scroll.borrow().can_scroll_x(),
+            Overflow::Auto => self.scrollbars.get().1,
             Overflow::Hidden => false,
         }
     }
@@ -491,65 +494,33 @@ Screen {
         // Use the canvas viewport (screen dimensions) for CSS vw/vh units
         let viewport = canvas.viewport();
 
-        let initial_placements = self.compute_child_placements(inner_region, viewport);
-        let (virtual_width, virtual_height, _) =
-            self.compute_virtual_size(&initial_placements, inner_region);
-
         // Do not pad virtual size here; padding can fabricate overflow and force
         // Screen-level scrollbars even when content fits (differs from Python Textual).
 
-        let show_v_scrollbar = match self.style.overflow_y {
-            Overflow::Scroll => true,
-            Overflow::Hidden => false,
-            Overflow::Auto => virtual_height > inner_region.height,
-        };
-        let show_h_scrollbar = match self.style.overflow_x {
-            Overflow::Scroll => true,
-            Overflow::Hidden => false,
-            Overflow::Auto => virtual_width > inner_region.width,
-        };
-
-        let style = &self.style.scrollbar;
-        let v_size = if show_v_scrollbar
-            || (style.gutter == ScrollbarGutter::Stable && self.style.overflow_y == Overflow::Auto)
-        {
-            style.size.vertical as i32
-        } else {
-            0
-        };
-        let h_size = if show_h_scrollbar {
-            style.size.horizontal as i32
-        } else {
-            0
-        };
-
-        let content_region = Region {
-            x: inner_region.x,
-            y: inner_region.y,
-            width: (inner_region.width - v_size).max(0),
-            height: (inner_region.height - h_size).max(0),
-        };
-
-        let (placements, recomputed) =
-            if show_v_scrollbar && content_region.width < inner_region.width {
-                let new_placements = self.compute_child_placements(content_region, viewport);
-                (new_placements, true)
-            } else {
-                (initial_placements, false)
-            };
-
-        let (final_virtual_width, final_virtual_height, _final_max_from_auto) = if recomputed {
-            self.compute_virtual_size(&placements, content_region)
-        } else {
-            (virtual_width, virtual_height, false)
+        // Lay the children out in the space the scrollbars leave, which are shown
+        // once the content overflows it: at most one more each time round
+        self.scrollbars.set((false, false));
+        let (content_region, placements) = loop {
+            let content_region = self.content_region_for_scroll(inner_region);
+            let placements = self.compute_child_placements(content_region, viewport);
+            let (virtual_width, virtual_height, _) =
+                self.compute_virtual_size(&placements, content_region);
+
+            let (vertical, horizontal) = self.scrollbars.get();
+            let overflows = (
+                vertical || virtual_height > content_region.height,
+                horizontal || virtual_width > content_region.width,
+            );
+            if overflows == (vertical, horizontal) {
+                let mut scroll = self.scroll.borrow_mut();
+                scroll.viewport_width = content_region.width;
+                scroll.viewport_height = content_region.height;
+                scroll.set_virtual_size(virtual_width, virtual_height);
+                break (content_region, placements);
+            }
+            self.scrollbars.set(overflows);
         };
 
-        {
-            let mut scroll = self.scroll.borrow_mut();
-            scroll.set_virtual_size(final_virtual_width, final_virtual_height);
-            scroll.set_viewport(content_region.width, content_region.height);
-        }
-
         let (offset_x, offset_y) = {
             let scroll = self.scroll.borrow();
             (scroll.offset_x, scroll.offset_y)
@@ -774,13 +745,6 @@ Screen {
         let on_vertical = render_vertical && v_region.contains_point(mx, my);
         let on_horizontal = render_horizontal && h_region.contains_point(mx, my);
 
-        let layout_region =
-            if self.show_vertical_scrollbar() && content_region.width < inner_region.width {
-                content_region
-            } else {
-                inner_region
-            };
-
         // Keep scroll viewport in sync with current content region so max scroll bounds
         // match the visible area (especially when scrollbars consume space).
         {
@@ -811,7 +775,7 @@ Screen {
 
                 if content_region.contains_point(mx, my) {
                     return self
-                        .dispatch_mouse_to_children(event, layout_region, viewport)
+                        .dispatch_mouse_to_children(event, content_region, viewport)
                         .map(|(msg, _)| msg);
                 }
                 return None;
@@ -827,7 +791,7 @@ Screen {
                 }
                 if content_region.contains_point(mx, my) {
                     return self
-                        .dispatch_mouse_to_children(event, layout_region, viewport)
+                        .dispatch_mouse_to_children(event, content_region, viewport)
                         .map(|(msg, _)| msg);
                 }
                 return None;
@@ -839,7 +803,7 @@ Screen {
                 }
                 if content_region.contains_point(mx, my) {
                     return self
-                        .dispatch_mouse_to_children(event, layout_region, viewport)
+                        .dispatch_mouse_to_children(event, content_region, viewport)
                         .map(|(msg, _)| msg);
                 }
                 return None;
@@ -851,7 +815,7 @@ Screen {
                 }
                 if content_region.contains_point(mx, my) {
                     return self
-                        .dispatch_mouse_to_children(event, layout_region, viewport)
+                        .dispatch_mouse_to_children(event, content_region, viewport)
                         .map(|(msg, _)| msg);
                 }
                 return None;
@@ -917,7 +881,7 @@ Screen {
 
         if content_region.contains_point(mx, my) {
             return self
-                .dispatch_mouse_to_children(event, layout_region, viewport)
+                .dispatch_mouse_to_children(event, content_region, viewport)
                 .map(|(msg, _)| msg);
         }
 
@@ -948,13 +912,6 @@ Screen {
         let on_vertical = render_vertical && v_region.contains_point(mx, my);
         let on_horizontal = render_horizontal && h_region.contains_point(mx, my);
 
-        let layout_region =
-            if self.show_vertical_scrollbar() && content_region.width < inner_region.width {
-                content_region
-            } else {
-                inner_region
-            };
-
         // Keep scroll viewport in sync with current content region so max scroll bounds
         // match the visible area (especially when scrollbars consume space).
         {
@@ -984,7 +941,7 @@ Screen {
                 }
 
                 if content_region.contains_point(mx, my) {
-                    return self.dispatch_mouse_to_children(event, layout_region, viewport);
+                    return self.dispatch_mouse_to_children(event, content_region, viewport);
                 }
                 return None;
             }
@@ -998,7 +955,7 @@ Screen {
                     return None;
                 }
                 if content_region.contains_point(mx, my) {
-                    return self.dispatch_mouse_to_children(event, layout_region, viewport);
+                    return self.dispatch_mouse_to_children(event, content_region, viewport);
                 }
                 return None;
             }
@@ -1008,7 +965,7 @@ Screen {
                     return None;
                 }
                 if content_region.contains_point(mx, my) {
-                    return self.dispatch_mouse_to_children(event, layout_region, viewport);
+                    return self.dispatch_mouse_to_children(event, content_region, viewport);
                 }
                 return None;
             }
@@ -1018,7 +975,7 @@ Screen {
                     self.is_dirty = true;
                 }
                 if content_region.contains_point(mx, my) {
-                    return self.dispatch_mouse_to_children(event, layout_region, viewport);
+                    return self.dispatch_mouse_to_children(event, content_region, viewport);
                 }
                 return None;
             }
@@ -1082,7 +1039,7 @@ Screen {
         }
 
         if content_region.contains_point(mx, my) {
-            return self.dispatch_mouse_to_children(event, layout_region, viewport);
+            return self.dispatch_mouse_to_children(event, content_region, viewport);
         }
 
         None
-- 
2.43.0


From 9aca1a406ffcb0fd9ecc0c3b9c28819f892323d3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:10:06 +0000
Subject: [PATCH 34/46] fix: mouse handling lays children out in the viewport
 they were drawn in

---
 crates/textual/src/containers/container.rs  | 10 ++++++++--
 crates/textual/src/containers/grid.rs       | 18 ++++++++++++++----
 crates/textual/src/containers/item_grid.rs  | 18 ++++++++++++++----
 crates/textual/src/containers/scrollable.rs | 16 +++++++++++++---
 4 files changed, 49 insertions(+), 13 deletions(-)

diff --git a/crates/textual/src/containers/container.rs b/crates/textual/src/containers/container.rs
index ce64ae1..d6b1b9e 100644
--- a/crates/textual/src/containers/container.rs
+++ b/crates/textual/src/containers/container.rs
@@ -51,6 +51,8 @@ pub struct Container<M> {
     style: ComputedStyle,
     inline_style: StyleOverride,
     dirty: bool,
+    /// The viewport of the last render, which mouse handling lays the children out in
+    drawn_viewport: Cell<Option<layouts::Viewport>>,
     id: Option<String>,
     /// CSS classes for styling.
     classes: Vec<String>,
@@ -86,6 +88,7 @@ impl<M> Container<M> {
             style: ComputedStyle::default(),
             inline_style: StyleOverride::default(),
             dirty: true,
+            drawn_viewport: Cell::new(None),
             id: None,
             classes: Vec::new(),
             border_title: None,
@@ -189,8 +192,10 @@ impl<M> Container<M> {
             return Vec::new();
         }
 
-        // The viewport is only available during render: approximate it as the region
-        let viewport = layouts::Viewport::from(region);
+        let viewport = self
+            .drawn_viewport
+            .get()
+            .unwrap_or_else(|| layouts::Viewport::from(region));
         let (offset_x, offset_y) = {
             let scroll = self.scroll.borrow();
             (scroll.offset_x, scroll.offset_y)
@@ -830,6 +835,7 @@ Container {
 
         // 5. Update scroll state and compute content region
         let viewport = canvas.viewport();
+        self.drawn_viewport.set(Some(viewport));
 
         // Lay the children out in the space the scrollbars leave, which are shown
         // once the content overflows it: at most one more each time round
diff --git a/crates/textual/src/containers/grid.rs b/crates/textual/src/containers/grid.rs
index 27401d7..5b7678e 100644
--- a/crates/textual/src/containers/grid.rs
+++ b/crates/textual/src/containers/grid.rs
@@ -25,6 +25,8 @@
 //! }
 //! ```
 
+use std::cell::Cell;
+
 use tcss::{
     ComputedStyle, StyleOverride, WidgetMeta, WidgetStates, types::Visibility,
     types::keyline::KeylineStyle,
@@ -45,6 +47,8 @@ pub struct Grid<M> {
     style: ComputedStyle,
     inline_style: StyleOverride,
     dirty: bool,
+    /// The viewport of the last render, which mouse handling lays the children out in
+    drawn_viewport: Cell<Option<layouts::Viewport>>,
     id: Option<String>,
 }
 
@@ -56,6 +60,7 @@ impl<M> Grid<M> {
             style: ComputedStyle::default(),
             inline_style: StyleOverride::default(),
             dirty: true,
+            drawn_viewport: Cell::new(None),
             id: None,
         }
     }
@@ -242,6 +247,7 @@ Grid {
 
         // 2. Render children in inner region using the canvas viewport
         let viewport = canvas.viewport();
+        self.drawn_viewport.set(Some(viewport));
         canvas.push_clip(inner_region);
         for placement in self.compute_child_placements(inner_region, viewport) {
             let child = &self.children[placement.child_index];
@@ -370,8 +376,10 @@ Grid {
         }
 
         // Compute placements first (borrows self immutably)
-        // For mouse handling, approximate viewport as region
-        let viewport = layouts::Viewport::from(region);
+        let viewport = self
+            .drawn_viewport
+            .get()
+            .unwrap_or_else(|| layouts::Viewport::from(region));
         let placements = self.compute_child_placements(inner_region, viewport);
 
         // Then iterate and dispatch mouse events (borrows self mutably)
@@ -403,8 +411,10 @@ Grid {
         }
 
         // Compute placements first (borrows self immutably)
-        // For mouse handling, approximate viewport as region
-        let viewport = layouts::Viewport::from(region);
+        let viewport = self
+            .drawn_viewport
+            .get()
+            .unwrap_or_else(|| layouts::Viewport::from(region));
         let placements = self.compute_child_placements(inner_region, viewport);
 
         // Later children are drawn over earlier ones, so they get the event first
diff --git a/crates/textual/src/containers/item_grid.rs b/crates/textual/src/containers/item_grid.rs
index c4f076e..c88059d 100644
--- a/crates/textual/src/containers/item_grid.rs
+++ b/crates/textual/src/containers/item_grid.rs
@@ -6,6 +6,8 @@
 //! - `stretch_height`: Force all cells in a row to equal height
 //! - `regular`: Ensure no partial rows (even distribution)
 
+use std::cell::Cell;
+
 use tcss::{ComputedStyle, StyleOverride, WidgetMeta, WidgetStates, types::Visibility};
 
 use crate::canvas::{Canvas, Region, Size};
@@ -34,6 +36,8 @@ pub struct ItemGrid<M> {
     style: ComputedStyle,
     inline_style: StyleOverride,
     dirty: bool,
+    /// The viewport of the last render, which mouse handling lays the children out in
+    drawn_viewport: Cell<Option<layouts::Viewport>>,
     id: Option<String>,
 
     // Runtime-configurable properties (passed to GridLayout via pre_layout)
@@ -52,6 +56,7 @@ impl<M> ItemGrid<M> {
             style: ComputedStyle::default(),
             inline_style: StyleOverride::default(),
             dirty: true,
+            drawn_viewport: Cell::new(None),
             id: None,
             min_column_width: None,
             max_column_width: None,
@@ -151,6 +156,7 @@ impl<M> Widget<M> for ItemGrid<M> {
 
         // 2. Render children in inner region using the canvas viewport
         let viewport = canvas.viewport();
+        self.drawn_viewport.set(Some(viewport));
         canvas.push_clip(inner_region);
         for placement in self.compute_child_placements(inner_region, viewport) {
             let child = &self.children[placement.child_index];
@@ -253,8 +259,10 @@ impl<M> Widget<M> for ItemGrid<M> {
             return None;
         }
 
-        // For mouse handling, approximate viewport as region
-        let viewport = layouts::Viewport::from(region);
+        let viewport = self
+            .drawn_viewport
+            .get()
+            .unwrap_or_else(|| layouts::Viewport::from(region));
         let placements = self.compute_child_placements(inner_region, viewport);
 
         // Later children are drawn over earlier ones, so they get the event first
@@ -284,8 +292,10 @@ impl<M> Widget<M> for ItemGrid<M> {
             return None;
         }
 
-        // For mouse handling, approximate viewport as region
-        let viewport = layouts::Viewport::from(region);
+        let viewport = self
+            .drawn_viewport
+            .get()
+            .unwrap_or_else(|| layouts::Viewport::from(region));
         let placements = self.compute_child_placements(inner_region, viewport);
 
         // Later children are drawn over earlier ones, so they get the event first
diff --git a/crates/textual/src/containers/scrollable.rs b/crates/textual/src/containers/scrollable.rs
index 47b4616..292d3fd 100644
--- a/crates/textual/src/containers/scrollable.rs
+++ b/crates/textual/src/containers/scrollable.rs
@@ -7,7 +7,7 @@
 //! - Mouse wheel support
 //! - CSS-configurable scrollbar styling
 
-use std::cell::RefCell;
+use std::cell::{Cell, RefCell};
 
 use crate::canvas::{Canvas, Region, Size};
 use crate::layouts::{self, Viewport};
@@ -46,6 +46,8 @@ pub struct ScrollableContainer<M> {
     inline_style: StyleOverride,
     /// Dirty flag
     dirty: bool,
+    /// The viewport of the last render, which mouse handling lays the children out in
+    drawn_viewport: Cell<Option<layouts::Viewport>>,
     /// Scrollbar interaction state: None, Some(vertical: bool)
     scrollbar_hover: Option<bool>,
     /// Scrollbar being dragged: None, Some((vertical, grab_offset))
@@ -74,6 +76,7 @@ impl<M> ScrollableContainer<M> {
             style: ComputedStyle::default(),
             inline_style: StyleOverride::default(),
             dirty: true,
+            drawn_viewport: Cell::new(None),
             scrollbar_hover: None,
             scrollbar_drag: None,
             id: None,
@@ -676,6 +679,7 @@ ScrollableContainer {
         };
 
         let viewport = canvas.viewport();
+        self.drawn_viewport.set(Some(viewport));
         let layout = self.compute_scroll_layout(inner_region, viewport);
         let content_region = layout.content_region;
 
@@ -981,7 +985,10 @@ ScrollableContainer {
         let my = event.row as i32;
 
         let inner_region = self.compute_inner_region(region);
-        let viewport = layouts::Viewport::from(region);
+        let viewport = self
+            .drawn_viewport
+            .get()
+            .unwrap_or_else(|| layouts::Viewport::from(region));
         let layout = self.compute_scroll_layout(inner_region, viewport);
         let content_region = layout.content_region;
 
@@ -1185,7 +1192,10 @@ ScrollableContainer {
         let my = event.row as i32;
 
         let inner_region = self.compute_inner_region(region);
-        let viewport = layouts::Viewport::from(region);
+        let viewport = self
+            .drawn_viewport
+            .get()
+            .unwrap_or_else(|| layouts::Viewport::from(region));
         let layout = self.compute_scroll_layout(inner_region, viewport);
         let content_region = layout.content_region;
 
-- 
2.43.0


From 768be1ea17c81b9baf448c0171fe26848fe0f1c9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:47:26 +0000
Subject: [PATCH 35/46] fix: a click on an option list chooses the option drawn
 there

---
 crates/textual/src/widget/option_list.rs | 25 +++---------------------
 1 file changed, 3 insertions(+), 22 deletions(-)

diff --git a/crates/textual/src/widget/option_list.rs b/crates/textual/src/widget/option_list.rs
index ab89dc6..592b66d 100644
--- a/crates/textual/src/widget/option_list.rs
+++ b/crates/textual/src/widget/option_list.rs
@@ -71,7 +71,6 @@ pub struct OptionList<M> {
     inner: Container<M>,
     items: Vec<String>,
     disabled: Vec<bool>,
-    line_counts: Vec<usize>,
     selected: usize,
     focused: bool,
     dirty: bool,
@@ -88,7 +87,6 @@ impl<M: 'static> OptionList<M> {
             inner,
             items,
             disabled: Vec::new(),
-            line_counts: Vec::new(),
             selected: 0,
             focused: false,
             dirty: true,
@@ -223,12 +221,6 @@ impl<M: 'static> OptionList<M> {
     }
 
     fn refresh_display(&mut self) {
-        self.line_counts = self
-            .items
-            .iter()
-            .map(|item| item.split('\n').count().max(1))
-            .collect();
-
         let mut children: Vec<Box<dyn Widget<M>>> = Vec::with_capacity(self.items.len().max(1));
         for (index, item) in self.items.iter().enumerate() {
             let content = if self.allow_markup {
@@ -278,17 +270,6 @@ impl<M: 'static> OptionList<M> {
             }
         }
     }
-
-    fn index_for_row(&self, row: usize) -> Option<usize> {
-        let mut remaining = row;
-        for (index, count) in self.line_counts.iter().enumerate() {
-            if remaining < *count {
-                return Some(index);
-            }
-            remaining = remaining.saturating_sub(*count);
-        }
-        None
-    }
 }
 
 impl<M: 'static> Widget<M> for OptionList<M> {
@@ -349,9 +330,9 @@ OptionList > .option-list--option {
 
         match event.kind {
             MouseEventKind::Up(crossterm::event::MouseButton::Left) => {
-                let local_y = (my - region.y) as usize;
-                if let Some(index) = self.index_for_row(local_y) {
-                    if !self.disabled_at(index) {
+                let clicked = self.inner.children_at(region, mx, my).first().copied();
+                if let Some((index, _)) = clicked {
+                    if index < self.items.len() && !self.disabled_at(index) {
                         if self.selected != index {
                             self.selected = index;
                             self.refresh_display();
-- 
2.43.0


From 9b2f488d62ba24d38c8c243e4f5092dc9979b4d3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:51:02 +0000
Subject: [PATCH 36/46] fix: an option list can be disabled

---
 crates/textual/src/widget/option_list.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/textual/src/widget/option_list.rs b/crates/textual/src/widget/option_list.rs
index 592b66d..3c83545 100644
--- a/crates/textual/src/widget/option_list.rs
+++ b/crates/textual/src/widget/option_list.rs
@@ -73,6 +73,7 @@ pub struct OptionList<M> {
     disabled: Vec<bool>,
     selected: usize,
     focused: bool,
+    list_disabled: bool,
     dirty: bool,
     allow_markup: bool,
     last_width: Option<u16>,
@@ -89,6 +90,7 @@ impl<M: 'static> OptionList<M> {
             disabled: Vec::new(),
             selected: 0,
             focused: false,
+            list_disabled: false,
             dirty: true,
             allow_markup: false,
             last_width: None,
@@ -435,11 +437,14 @@ OptionList > .option-list--option {
     }
 
     fn is_disabled(&self) -> bool {
-        self.inner.is_disabled()
+        self.list_disabled
     }
 
     fn set_disabled(&mut self, disabled: bool) {
-        self.inner.set_disabled(disabled);
+        if self.list_disabled != disabled {
+            self.list_disabled = disabled;
+            self.dirty = true;
+        }
     }
 
     fn handle_message(&mut self, envelope: &mut crate::MessageEnvelope<M>) -> Option<M> {
-- 
2.43.0


From 133537cf014c9f935416bb354c281dd9b5661556 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:51:02 +0000
Subject: [PATCH 37/46] fix: Center and Middle leave out a child with display
 none

---
 crates/textual/src/containers.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/crates/textual/src/containers.rs b/crates/textual/src/containers.rs
index 42cb4f6..b04f2d2 100644
--- a/crates/textual/src/containers.rs
+++ b/crates/textual/src/containers.rs
@@ -131,7 +131,7 @@ impl<M> Center<M> {
 
 impl<M> Widget<M> for Center<M> {
     fn desired_size(&self) -> Size {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return Size {
                 width: 0,
                 height: 0,
@@ -145,7 +145,7 @@ impl<M> Widget<M> for Center<M> {
     }
 
     fn render(&self, canvas: &mut Canvas, region: Region) {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return;
         }
         self.child().render(canvas, self.centered_region(region));
@@ -170,34 +170,34 @@ impl<M> Widget<M> for Center<M> {
     }
 
     fn on_event(&mut self, key: KeyCode) -> Option<M> {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return None;
         }
         self.child_mut().on_event(key)
     }
 
     fn count_focusable(&self) -> usize {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return 0;
         }
         self.child().count_focusable()
     }
 
     fn clear_focus(&mut self) {
-        if self.child().is_visible() {
+        if self.child().participates_in_layout() {
             self.child_mut().clear_focus();
         }
     }
 
     fn focus_nth(&mut self, n: usize) -> bool {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return false;
         }
         self.child_mut().focus_nth(n)
     }
 
     fn on_mouse(&mut self, event: MouseEvent, region: Region) -> Option<M> {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return None;
         }
         let centered = self.centered_region(region);
@@ -205,7 +205,7 @@ impl<M> Widget<M> for Center<M> {
     }
 
     fn clear_hover(&mut self) {
-        if self.child().is_visible() {
+        if self.child().participates_in_layout() {
             self.child_mut().clear_hover();
         }
     }
@@ -273,7 +273,7 @@ impl<M> Middle<M> {
 
 impl<M> Widget<M> for Middle<M> {
     fn desired_size(&self) -> Size {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return Size {
                 width: 0,
                 height: 0,
@@ -287,7 +287,7 @@ impl<M> Widget<M> for Middle<M> {
     }
 
     fn render(&self, canvas: &mut Canvas, region: Region) {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return;
         }
         self.child().render(canvas, self.middled_region(region));
@@ -312,34 +312,34 @@ impl<M> Widget<M> for Middle<M> {
     }
 
     fn on_event(&mut self, key: KeyCode) -> Option<M> {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return None;
         }
         self.child_mut().on_event(key)
     }
 
     fn count_focusable(&self) -> usize {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return 0;
         }
         self.child().count_focusable()
     }
 
     fn clear_focus(&mut self) {
-        if self.child().is_visible() {
+        if self.child().participates_in_layout() {
             self.child_mut().clear_focus();
         }
     }
 
     fn focus_nth(&mut self, n: usize) -> bool {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return false;
         }
         self.child_mut().focus_nth(n)
     }
 
     fn on_mouse(&mut self, event: MouseEvent, region: Region) -> Option<M> {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return None;
         }
         let middled = self.middled_region(region);
@@ -347,7 +347,7 @@ impl<M> Widget<M> for Middle<M> {
     }
 
     fn clear_hover(&mut self) {
-        if self.child().is_visible() {
+        if self.child().participates_in_layout() {
             self.child_mut().clear_hover();
         }
     }
-- 
2.43.0


From cc75f2bb013a41c2860de352b504eb3007bbbc13 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:51:03 +0000
Subject: [PATCH 38/46] fix: every widget can be hidden with set_visible

---
 crates/textual/src/containers/container.rs  | 15 +++++++++++++++
 crates/textual/src/containers/grid.rs       | 14 ++++++++++++++
 crates/textual/src/containers/item_grid.rs  | 14 ++++++++++++++
 crates/textual/src/containers/scrollable.rs | 14 ++++++++++++++
 crates/textual/src/widget/button.rs         | 13 ++++++++++++-
 crates/textual/src/widget/placeholder.rs    | 14 ++++++++++++++
 crates/textual/src/widget/ruler.rs          | 14 ++++++++++++++
 crates/textual/src/widget/static_widget.rs  | 14 ++++++++++++++
 8 files changed, 111 insertions(+), 1 deletion(-)

diff --git a/crates/textual/src/containers/container.rs b/crates/textual/src/containers/container.rs
index d6b1b9e..4b70b9f 100644
--- a/crates/textual/src/containers/container.rs
+++ b/crates/textual/src/containers/container.rs
@@ -51,6 +51,8 @@ pub struct Container<M> {
     style: ComputedStyle,
     inline_style: StyleOverride,
     dirty: bool,
+    /// Whether the widget takes part in layout, rendering and events
+    visible: bool,
     /// The viewport of the last render, which mouse handling lays the children out in
     drawn_viewport: Cell<Option<layouts::Viewport>>,
     id: Option<String>,
@@ -88,6 +90,7 @@ impl<M> Container<M> {
             style: ComputedStyle::default(),
             inline_style: StyleOverride::default(),
             dirty: true,
+            visible: true,
             drawn_viewport: Cell::new(None),
             id: None,
             classes: Vec::new(),
@@ -1366,6 +1369,18 @@ Container {
         *self.cached_layout.borrow_mut() = None;
     }
 
+    fn is_visible(&self) -> bool {
+        self.visible
+    }
+
+    fn set_visible(&mut self, visible: bool) {
+        if self.visible != visible {
+            self.visible = visible;
+            *self.cached_layout.borrow_mut() = None;
+            self.dirty = true;
+        }
+    }
+
     fn is_dirty(&self) -> bool {
         self.dirty
     }
diff --git a/crates/textual/src/containers/grid.rs b/crates/textual/src/containers/grid.rs
index 5b7678e..f3361ff 100644
--- a/crates/textual/src/containers/grid.rs
+++ b/crates/textual/src/containers/grid.rs
@@ -47,6 +47,8 @@ pub struct Grid<M> {
     style: ComputedStyle,
     inline_style: StyleOverride,
     dirty: bool,
+    /// Whether the widget takes part in layout, rendering and events
+    visible: bool,
     /// The viewport of the last render, which mouse handling lays the children out in
     drawn_viewport: Cell<Option<layouts::Viewport>>,
     id: Option<String>,
@@ -60,6 +62,7 @@ impl<M> Grid<M> {
             style: ComputedStyle::default(),
             inline_style: StyleOverride::default(),
             dirty: true,
+            visible: true,
             drawn_viewport: Cell::new(None),
             id: None,
         }
@@ -326,6 +329,17 @@ Grid {
         self.dirty = true;
     }
 
+    fn is_visible(&self) -> bool {
+        self.visible
+    }
+
+    fn set_visible(&mut self, visible: bool) {
+        if self.visible != visible {
+            self.visible = visible;
+            self.dirty = true;
+        }
+    }
+
     fn is_dirty(&self) -> bool {
         self.dirty
     }
diff --git a/crates/textual/src/containers/item_grid.rs b/crates/textual/src/containers/item_grid.rs
index c88059d..07bb7ba 100644
--- a/crates/textual/src/containers/item_grid.rs
+++ b/crates/textual/src/containers/item_grid.rs
@@ -36,6 +36,8 @@ pub struct ItemGrid<M> {
     style: ComputedStyle,
     inline_style: StyleOverride,
     dirty: bool,
+    /// Whether the widget takes part in layout, rendering and events
+    visible: bool,
     /// The viewport of the last render, which mouse handling lays the children out in
     drawn_viewport: Cell<Option<layouts::Viewport>>,
     id: Option<String>,
@@ -56,6 +58,7 @@ impl<M> ItemGrid<M> {
             style: ComputedStyle::default(),
             inline_style: StyleOverride::default(),
             dirty: true,
+            visible: true,
             drawn_viewport: Cell::new(None),
             id: None,
             min_column_width: None,
@@ -210,6 +213,17 @@ impl<M> Widget<M> for ItemGrid<M> {
         self.dirty = true;
     }
 
+    fn is_visible(&self) -> bool {
+        self.visible
+    }
+
+    fn set_visible(&mut self, visible: bool) {
+        if self.visible != visible {
+            self.visible = visible;
+            self.dirty = true;
+        }
+    }
+
     fn is_dirty(&self) -> bool {
         self.dirty
     }
diff --git a/crates/textual/src/containers/scrollable.rs b/crates/textual/src/containers/scrollable.rs
index 292d3fd..bc0d042 100644
--- a/crates/textual/src/containers/scrollable.rs
+++ b/crates/textual/src/containers/scrollable.rs
@@ -46,6 +46,8 @@ pub struct ScrollableContainer<M> {
     inline_style: StyleOverride,
     /// Dirty flag
     dirty: bool,
+    /// Whether the widget takes part in layout, rendering and events
+    visible: bool,
     /// The viewport of the last render, which mouse handling lays the children out in
     drawn_viewport: Cell<Option<layouts::Viewport>>,
     /// Scrollbar interaction state: None, Some(vertical: bool)
@@ -76,6 +78,7 @@ impl<M> ScrollableContainer<M> {
             style: ComputedStyle::default(),
             inline_style: StyleOverride::default(),
             dirty: true,
+            visible: true,
             drawn_viewport: Cell::new(None),
             scrollbar_hover: None,
             scrollbar_drag: None,
@@ -831,6 +834,17 @@ ScrollableContainer {
         self.dirty = true;
     }
 
+    fn is_visible(&self) -> bool {
+        self.visible
+    }
+
+    fn set_visible(&mut self, visible: bool) {
+        if self.visible != visible {
+            self.visible = visible;
+            self.dirty = true;
+        }
+    }
+
     fn is_dirty(&self) -> bool {
         self.dirty || self.children.iter().any(|c| c.is_dirty())
     }
diff --git a/crates/textual/src/widget/button.rs b/crates/textual/src/widget/button.rs
index 465a7cf..6cee979 100644
--- a/crates/textual/src/widget/button.rs
+++ b/crates/textual/src/widget/button.rs
@@ -527,7 +527,7 @@ Button {
     }
 
     fn is_focusable(&self) -> bool {
-        !self.inner.is_disabled()
+        self.inner.is_visible() && !self.inner.is_disabled()
     }
 
     fn focus_nth(&mut self, n: usize) -> bool {
@@ -550,6 +550,17 @@ Button {
         self.focused
     }
 
+    fn is_visible(&self) -> bool {
+        self.inner.is_visible()
+    }
+
+    fn set_visible(&mut self, visible: bool) {
+        if self.inner.is_visible() != visible {
+            self.inner.set_visible(visible);
+            self.dirty = true;
+        }
+    }
+
     fn is_disabled(&self) -> bool {
         self.inner.is_disabled()
     }
diff --git a/crates/textual/src/widget/placeholder.rs b/crates/textual/src/widget/placeholder.rs
index 0d8f027..01aed78 100644
--- a/crates/textual/src/widget/placeholder.rs
+++ b/crates/textual/src/widget/placeholder.rs
@@ -103,6 +103,8 @@ pub struct Placeholder {
     style: ComputedStyle,
     inline_style: StyleOverride,
     dirty: bool,
+    /// Whether the widget takes part in layout, rendering and events
+    visible: bool,
     id: Option<String>,
     classes: Vec<String>,
     variant: PlaceholderVariant,
@@ -122,6 +124,7 @@ impl Placeholder {
             style: ComputedStyle::default(),
             inline_style: StyleOverride::default(),
             dirty: true,
+            visible: true,
             id: None,
             classes: Vec::new(),
             variant: PlaceholderVariant::default(),
@@ -588,6 +591,17 @@ Placeholder {
         self.dirty = true;
     }
 
+    fn is_visible(&self) -> bool {
+        self.visible
+    }
+
+    fn set_visible(&mut self, visible: bool) {
+        if self.visible != visible {
+            self.visible = visible;
+            self.dirty = true;
+        }
+    }
+
     fn is_dirty(&self) -> bool {
         self.dirty
     }
diff --git a/crates/textual/src/widget/ruler.rs b/crates/textual/src/widget/ruler.rs
index 312afa8..59ba8d0 100644
--- a/crates/textual/src/widget/ruler.rs
+++ b/crates/textual/src/widget/ruler.rs
@@ -58,6 +58,8 @@ pub struct Ruler<M> {
     style: ComputedStyle,
     inline_style: StyleOverride,
     dirty: bool,
+    /// Whether the widget takes part in layout, rendering and events
+    visible: bool,
     _phantom: PhantomData<M>,
 }
 
@@ -70,6 +72,7 @@ impl<M> Default for Ruler<M> {
             style: ComputedStyle::default(),
             inline_style: StyleOverride::default(),
             dirty: true,
+            visible: true,
             _phantom: PhantomData,
         }
     }
@@ -248,6 +251,17 @@ Ruler.-horizontal {
         self.dirty = true;
     }
 
+    fn is_visible(&self) -> bool {
+        self.visible
+    }
+
+    fn set_visible(&mut self, visible: bool) {
+        if self.visible != visible {
+            self.visible = visible;
+            self.dirty = true;
+        }
+    }
+
     fn is_dirty(&self) -> bool {
         self.dirty
     }
diff --git a/crates/textual/src/widget/static_widget.rs b/crates/textual/src/widget/static_widget.rs
index b018723..cb21493 100644
--- a/crates/textual/src/widget/static_widget.rs
+++ b/crates/textual/src/widget/static_widget.rs
@@ -84,6 +84,8 @@ pub struct Static<M> {
     style: ComputedStyle,
     inline_style: StyleOverride,
     dirty: bool,
+    /// Whether the widget takes part in layout, rendering and events
+    visible: bool,
     /// Title displayed in the top border (supports markup).
     border_title: Option<String>,
     /// Subtitle displayed in the bottom border (supports markup).
@@ -116,6 +118,7 @@ impl<M> Default for Static<M> {
             style: ComputedStyle::default(),
             inline_style: StyleOverride::default(),
             dirty: true,
+            visible: true,
             border_title: None,
             border_subtitle: None,
             link_regions: RefCell::new(Vec::new()),
@@ -908,6 +911,17 @@ Static {
         self.dirty = true;
     }
 
+    fn is_visible(&self) -> bool {
+        self.visible
+    }
+
+    fn set_visible(&mut self, visible: bool) {
+        if self.visible != visible {
+            self.visible = visible;
+            self.dirty = true;
+        }
+    }
+
     fn is_dirty(&self) -> bool {
         self.dirty
     }
-- 
2.43.0


From 6744e2608fc1282a616d3892eef71e2da8b16b37 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:51:03 +0000
Subject: [PATCH 39/46] fix: a container lays its children out again after they
 were changed

---
 crates/textual/src/containers/container.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/textual/src/containers/container.rs b/crates/textual/src/containers/container.rs
index 4b70b9f..7348027 100644
--- a/crates/textual/src/containers/container.rs
+++ b/crates/textual/src/containers/container.rs
@@ -1400,6 +1400,8 @@ Container {
     }
 
     fn for_each_child(&mut self, f: &mut dyn FnMut(&mut dyn Widget<M>)) {
+        // The callback may change a child's size, style or visibility
+        *self.cached_layout.borrow_mut() = None;
         for child in &mut self.children {
             f(child.as_mut());
         }
@@ -1558,6 +1560,8 @@ Container {
     }
 
     fn get_child_mut(&mut self, index: usize) -> Option<&mut (dyn Widget<M> + '_)> {
+        // The caller may change the child's size, style or visibility
+        *self.cached_layout.borrow_mut() = None;
         if index < self.children.len() {
             Some(self.children[index].as_mut())
         } else {
-- 
2.43.0


From 8324b5b425949fcc13de4b4c7880f2bccdb64f34 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:00:26 +0000
Subject: [PATCH 40/46] fix: Center and Middle keep their child within their
 region

---
 crates/textual/src/containers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/textual/src/containers.rs b/crates/textual/src/containers.rs
index b04f2d2..60ac25b 100644
--- a/crates/textual/src/containers.rs
+++ b/crates/textual/src/containers.rs
@@ -118,7 +118,7 @@ impl<M> Center<M> {
     /// Calculate the centered region for the child within the given region.
     fn centered_region(&self, region: Region) -> Region {
         let child_size = self.child().desired_size();
-        let child_width = child_size.width as i32;
+        let child_width = (child_size.width as i32).min(region.width);
         let x_offset = (region.width - child_width).max(0) / 2;
         Region {
             x: region.x + x_offset,
@@ -260,7 +260,7 @@ impl<M> Middle<M> {
     /// Calculate the vertically centered region for the child within the given region.
     fn middled_region(&self, region: Region) -> Region {
         let child_size = self.child().desired_size();
-        let child_height = child_size.height as i32;
+        let child_height = (child_size.height as i32).min(region.height);
         let y_offset = (region.height - child_height).max(0) / 2;
         Region {
             x: region.x,
-- 
2.43.0


From f6b7565c2b9889cafa3c720e352e2795c653acfd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:28:17 +0000
Subject: [PATCH 41/46] fix: fuzzy search finds matches that end near the end
 of the text

---
 crates/textual/src/fuzzy.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/textual/src/fuzzy.rs b/crates/textual/src/fuzzy.rs
index d1858b0..e8c41e8 100644
--- a/crates/textual/src/fuzzy.rs
+++ b/crates/textual/src/fuzzy.rs
@@ -48,17 +48,15 @@ impl FuzzySearch {
         let mut position = 0usize;
 
         for (offset, letter) in query_chars.iter().enumerate() {
-            let last_index = candidate_len.saturating_sub(offset);
+            // Leave room for the letters of the query that follow this one
+            let last_index = candidate_len.saturating_sub(query_chars.len() - 1 - offset);
             let mut positions = Vec::new();
             let mut index = position;
-            while index < candidate_len {
+            while index < last_index {
                 if candidate_chars[index] == *letter {
                     positions.push(index);
                 }
                 index += 1;
-                if index >= last_index {
-                    break;
-                }
             }
             if positions.is_empty() {
                 return (0.0, Vec::new());
-- 
2.43.0


From 7b2251af267bdabec9c1cd58236621e8ba822515 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:31:55 +0000
Subject: [PATCH 42/46] fix: a button released elsewhere is no longer pressed
 once the mouse moves on

---
 crates/textual/src/widget/button.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/textual/src/widget/button.rs b/crates/textual/src/widget/button.rs
index 6cee979..801ad0a 100644
--- a/crates/textual/src/widget/button.rs
+++ b/crates/textual/src/widget/button.rs
@@ -514,6 +514,10 @@ Button {
             self.hovered = false;
             self.dirty = true;
         }
+        if self.active {
+            self.active = false;
+            self.dirty = true;
+        }
     }
 
     fn set_active(&mut self, is_active: bool) -> bool {
-- 
2.43.0


From b338c8c2a04bdf3b11b2111a48ff91a6a3e4227d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:43:43 +0000
Subject: [PATCH 43/46] fix: SVG export keeps text in the default style at the
 end of a line

---
 crates/textual/src/svg.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/textual/src/svg.rs b/crates/textual/src/svg.rs
index d34615d..5d10669 100644
--- a/crates/textual/src/svg.rs
+++ b/crates/textual/src/svg.rs
@@ -277,7 +277,9 @@ impl SvgRenderer {
 
                 // Check if we need to flush the current run
                 let style_changed = current_fg != run_fg || current_attrs != run_attrs;
-                if style_changed && !run_text.is_empty() {
+                // Text in the default style at the end of the line is not followed by a change
+                let text_at_end = x == width as i32 && !run_text.trim().is_empty();
+                if (style_changed || text_at_end) && !run_text.is_empty() {
                     let x_pos = (run_start as f32) * self.config.char_width;
                     let text_length = (run_cells as f32) * self.config.char_width;
                     let class_name = run_fg
-- 
2.43.0


From 6ec5bf940c727bbfbdd5b54022203ceca4949766 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:43:43 +0000
Subject: [PATCH 44/46] fix: the ANSI snapshot no longer widens wide characters
 by a cell

---
 crates/textual/src/canvas.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/textual/src/canvas.rs b/crates/textual/src/canvas.rs
index 8ada345..4caa70f 100644
--- a/crates/textual/src/canvas.rs
+++ b/crates/textual/src/canvas.rs
@@ -715,9 +715,8 @@ impl Canvas {
                     last_bg = cell.bg;
                 }
 
-                if cell.continuation {
-                    result.push(' ');
-                } else {
+                // A wide symbol already covers the cells that continue it
+                if !cell.continuation {
                     result.push_str(&cell.symbol);
                 }
             }
-- 
2.43.0


From 12dd4aa03fbde2e66f7139bac245bf0ce2eb5192 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:23:40 +0000
Subject: [PATCH 45/46] fix: every border and outline edge is drawn in its own
 kind and colour

---
 crates/textual/src/render_cache.rs | 103 +++++++++++++++++------------
 1 file changed, 62 insertions(+), 41 deletions(-)

diff --git a/crates/textual/src/render_cache.rs b/crates/textual/src/render_cache.rs
index 88f5598..dc498f8 100644
--- a/crates/textual/src/render_cache.rs
+++ b/crates/textual/src/render_cache.rs
@@ -75,14 +75,11 @@ impl RenderCache {
         };
         let has_border = has_top_border || has_right_border || has_bottom_border || has_left_border;
 
-        // Use top border kind as the primary style (for box character selection)
-        let border_kind = style.border.top.kind;
-
         // Use the centralized effective_background from ComputedStyle
         let effective_bg = style.effective_background();
 
         let border_box = if has_border {
-            let border_type = border_kind_to_str(border_kind);
+            let types = edge_types(&style.border);
             let effective_opacity = style.opacity * style.opacity;
             let resolve_edge_color =
                 |edge: &tcss::types::border::BorderEdge| -> Option<tcss::types::RgbaColor> {
@@ -115,14 +112,16 @@ impl RenderCache {
             let right_inner = make_style(right_color.clone(), effective_bg.clone());
             let right_outer = make_style(right_color.clone(), style.inherited_background.clone());
 
-            let uniform =
-                top_color == bottom_color && top_color == left_color && top_color == right_color;
+            let uniform = top_color == bottom_color
+                && top_color == left_color
+                && top_color == right_color
+                && types.iter().all(|kind| *kind == types[0]);
 
             if uniform {
-                Some(get_box(border_type, &top_inner, &top_outer))
+                Some(get_box(types[0], &top_inner, &top_outer))
             } else {
                 Some(build_border_box_per_edge(
-                    border_type,
+                    types,
                     &top_inner,
                     &top_outer,
                     &bottom_inner,
@@ -170,30 +169,36 @@ impl RenderCache {
 
         // Build outline box segments if any outline edge is visible
         let outline_box = if has_outline {
-            let outline_kind = style.outline.top.kind;
-            let outline_type = border_kind_to_str(outline_kind);
-            // Outline color, falling back to text color
-            let outline_color = style
-                .outline
-                .top
-                .color
-                .clone()
-                .or_else(|| style.color.clone());
-            let outline_inner_style = Style {
-                fg: outline_color.clone(),
-                bg: effective_bg.clone(),
-                ..Default::default()
-            };
-            // Outer style uses inherited/parent background
-            let outline_outer_style = Style {
-                fg: outline_color.clone(),
-                bg: style.inherited_background.clone(),
-                ..Default::default()
+            // Each edge has its own colour, falling back to text color
+            let edge_styles = |edge: &tcss::types::border::BorderEdge| {
+                let fg = edge.color.clone().or_else(|| style.color.clone());
+                let inner = Style {
+                    fg: fg.clone(),
+                    bg: effective_bg.clone(),
+                    ..Default::default()
+                };
+                // Outer style uses inherited/parent background
+                let outer = Style {
+                    fg,
+                    bg: style.inherited_background.clone(),
+                    ..Default::default()
+                };
+                (inner, outer)
             };
-            Some(get_box(
-                outline_type,
-                &outline_inner_style,
-                &outline_outer_style,
+            let (top_inner, top_outer) = edge_styles(&style.outline.top);
+            let (bottom_inner, bottom_outer) = edge_styles(&style.outline.bottom);
+            let (left_inner, left_outer) = edge_styles(&style.outline.left);
+            let (right_inner, right_outer) = edge_styles(&style.outline.right);
+            Some(build_border_box_per_edge(
+                edge_types(&style.outline),
+                &top_inner,
+                &top_outer,
+                &bottom_inner,
+                &bottom_outer,
+                &left_inner,
+                &left_outer,
+                &right_inner,
+                &right_outer,
             ))
         } else {
             None
@@ -757,8 +762,14 @@ fn border_kind_to_str(kind: BorderKind) -> &'static str {
     }
 }
 
+/// The border types of the top, right, bottom and left edges.
+fn edge_types(border: &tcss::types::border::Border) -> [&'static str; 4] {
+    [&border.top, &border.right, &border.bottom, &border.left]
+        .map(|edge| border_kind_to_str(edge.kind))
+}
+
 fn build_border_box_per_edge(
-    border_type: &str,
+    types: [&str; 4],
     top_inner: &Style,
     top_outer: &Style,
     bottom_inner: &Style,
@@ -768,8 +779,7 @@ fn build_border_box_per_edge(
     right_inner: &Style,
     right_outer: &Style,
 ) -> [BoxSegments; 3] {
-    let chars = get_border_chars(border_type);
-    let locations = get_border_locations(border_type);
+    let [top_type, right_type, bottom_type, left_type] = types;
 
     let style_for_zone = |zone: u8, inner: &Style, outer: &Style| -> Style {
         match zone {
@@ -791,7 +801,9 @@ fn build_border_box_per_edge(
         }
     };
 
+    // Each row takes its left, fill and right characters from the edges they belong to
     let build_row = |row_idx: usize,
+                     kinds: [&str; 3],
                      left_in: &Style,
                      left_out: &Style,
                      fill_in: &Style,
@@ -799,13 +811,13 @@ fn build_border_box_per_edge(
                      right_in: &Style,
                      right_out: &Style|
      -> BoxSegments {
-        let left_char = chars[row_idx][0];
-        let fill_char = chars[row_idx][1];
-        let right_char = chars[row_idx][2];
+        let left_char = get_border_chars(kinds[0])[row_idx][0];
+        let fill_char = get_border_chars(kinds[1])[row_idx][1];
+        let right_char = get_border_chars(kinds[2])[row_idx][2];
 
-        let left_loc = locations[row_idx][0];
-        let fill_loc = locations[row_idx][1];
-        let right_loc = locations[row_idx][2];
+        let left_loc = get_border_locations(kinds[0])[row_idx][0];
+        let fill_loc = get_border_locations(kinds[1])[row_idx][1];
+        let right_loc = get_border_locations(kinds[2])[row_idx][2];
 
         let left_style = style_for_zone(left_loc, left_in, left_out);
         let fill_style = style_for_zone(fill_loc, fill_in, fill_out);
@@ -819,10 +831,18 @@ fn build_border_box_per_edge(
     };
 
     let top_row = build_row(
-        0, top_inner, top_outer, top_inner, top_outer, top_inner, top_outer,
+        0,
+        [top_type; 3],
+        top_inner,
+        top_outer,
+        top_inner,
+        top_outer,
+        top_inner,
+        top_outer,
     );
     let middle_row = build_row(
         1,
+        [left_type, left_type, right_type],
         left_inner,
         left_outer,
         top_inner,
@@ -832,6 +852,7 @@ fn build_border_box_per_edge(
     );
     let bottom_row = build_row(
         2,
+        [bottom_type; 3],
         bottom_inner,
         bottom_outer,
         bottom_inner,
-- 
2.43.0


From 260812380fab58d9c0c359e34fbed033040625b5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:23:40 +0000
Subject: [PATCH 46/46] fix: borders, padding and titles keep to the width of
 their widget

---
 crates/textual/src/border_render.rs |  5 +++
 crates/textual/src/render_cache.rs  | 69 ++++++++++++++++++-----------
 2 files changed, 49 insertions(+), 25 deletions(-)

diff --git a/crates/textual/src/border_render.rs b/crates/textual/src/border_render.rs
index 2919ddc..92cc861 100644
--- a/crates/textual/src/border_render.rs
+++ b/crates/textual/src/border_render.rs
@@ -85,6 +85,11 @@ pub(crate) fn render_label_in_row(
     width: usize,
     align: AlignHorizontal,
 ) -> Strip {
+    // A label needs room for a fill character, its two spaces and an ellipsis
+    if width < 4 {
+        return repeat_segment(fill, width);
+    }
+
     // Python Textual adds 1 space on each side of the label text
     let label_len = label.cell_length() + 2; // +2 for spaces around label
 
diff --git a/crates/textual/src/render_cache.rs b/crates/textual/src/render_cache.rs
index dc498f8..82f479b 100644
--- a/crates/textual/src/render_cache.rs
+++ b/crates/textual/src/render_cache.rs
@@ -392,25 +392,28 @@ impl RenderCache {
                 // Content row - check if we have side borders
                 if self.has_left_border || self.has_right_border {
                     // For vertical keyline borders (no top/bottom), render titles in the first/last content rows
-                    if !self.has_top_border && is_first_content_row && title.is_some() {
-                        return self.render_labeled_middle_row(
+                    if let Some(title) =
+                        title.filter(|_| !self.has_top_border && is_first_content_row)
+                    {
+                        self.render_labeled_middle_row(
                             &box_segs[1],
                             width,
-                            title.unwrap(),
+                            title,
                             self.style.border_title_align,
-                        );
-                    }
-                    if !self.has_bottom_border && is_last_content_row && subtitle.is_some() {
-                        return self.render_labeled_middle_row(
+                        )
+                    } else if let Some(subtitle) =
+                        subtitle.filter(|_| !self.has_bottom_border && is_last_content_row)
+                    {
+                        self.render_labeled_middle_row(
                             &box_segs[1],
                             width,
-                            subtitle.unwrap(),
+                            subtitle,
                             self.style.border_subtitle_align,
-                        );
+                        )
+                    } else {
+                        // Has at least one side border
+                        self.render_partial_middle_row(&box_segs[1], content_line, width)
                     }
-
-                    // Has at least one side border
-                    self.render_partial_middle_row(&box_segs[1], content_line, width)
                 } else {
                     // No side borders - just content with padding
                     self.render_content_row(width, content_line)
@@ -422,39 +425,53 @@ impl RenderCache {
         };
 
         // Apply outline as final overlay (outline renders ON TOP of content)
-        self.apply_outline(base_strip, y, height, width)
+        let strip = self.apply_outline(base_strip, y, height, width);
+
+        // A widget too narrow for its borders still keeps to its width
+        if strip.cell_length() > width {
+            strip.crop(0, width)
+        } else {
+            strip
+        }
     }
 
     /// Renders a content row without any border (just padding and content).
     fn render_content_row(&self, width: usize, content_line: Option<&Strip>) -> Strip {
-        let content_width = width.saturating_sub(self.padding_left + self.padding_right);
+        let (padding_left, padding_right) = self.padding_within(width);
+        let content_width = width - padding_left - padding_right;
         let content_strip = match content_line {
             Some(strip) => strip.adjust_cell_length(content_width, self.pad_style()),
             None => Strip::blank(content_width, self.pad_style()),
         };
 
-        if self.padding_left == 0 && self.padding_right == 0 {
+        if padding_left == 0 && padding_right == 0 {
             return content_strip;
         }
 
         // Build: padding_left + content + padding_right
         let mut segments = Vec::new();
-        if self.padding_left > 0 {
+        if padding_left > 0 {
             segments.push(crate::segment::Segment::blank(
-                self.padding_left,
+                padding_left,
                 self.pad_style(),
             ));
         }
         segments.extend(content_strip.segments().iter().cloned());
-        if self.padding_right > 0 {
+        if padding_right > 0 {
             segments.push(crate::segment::Segment::blank(
-                self.padding_right,
+                padding_right,
                 self.pad_style(),
             ));
         }
         Strip::from_segments(segments)
     }
 
+    /// The left and right padding that fit in `width` cells.
+    fn padding_within(&self, width: usize) -> (usize, usize) {
+        let left = self.padding_left.min(width);
+        (left, self.padding_right.min(width - left))
+    }
+
     /// Renders a horizontal border row without corners (for partial borders).
     fn render_horizontal_border_row(
         &self,
@@ -469,7 +486,8 @@ impl RenderCache {
         let fill_char = fill.text().chars().next().unwrap_or('─');
         let fill_style = fill.style().cloned();
 
-        if let Some(label_strip) = label {
+        // A label needs room for at least a fill character and an ellipsis
+        if let Some(label_strip) = label.filter(|_| width >= 2) {
             // Render label with fill characters on either side
             // Note: Partial borders (no corners) do NOT add spaces around labels
             let label_len = label_strip.cell_length();
@@ -572,7 +590,8 @@ impl RenderCache {
         let left_border_width = if self.has_left_border { 1 } else { 0 };
         let right_border_width = if self.has_right_border { 1 } else { 0 };
         let inner_width = width.saturating_sub(left_border_width + right_border_width);
-        let content_width = inner_width.saturating_sub(self.padding_left + self.padding_right);
+        let (padding_left, padding_right) = self.padding_within(inner_width);
+        let content_width = inner_width - padding_left - padding_right;
 
         let mut segments = Vec::new();
 
@@ -582,8 +601,8 @@ impl RenderCache {
         }
 
         // Left padding
-        if self.padding_left > 0 {
-            segments.push(Segment::blank(self.padding_left, self.pad_style()));
+        if padding_left > 0 {
+            segments.push(Segment::blank(padding_left, self.pad_style()));
         }
 
         // Content
@@ -594,8 +613,8 @@ impl RenderCache {
         segments.extend(content_strip.segments().iter().cloned());
 
         // Right padding
-        if self.padding_right > 0 {
-            segments.push(Segment::blank(self.padding_right, self.pad_style()));
+        if padding_right > 0 {
+            segments.push(Segment::blank(padding_right, self.pad_style()));
         }
 
         // Right border if present
-- 
2.43.0

