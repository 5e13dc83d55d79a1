//! A small VT100 model (reference oracle): what a terminal shows after receiving a byte stream.
use crate::*;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct TCell { pub ch: u32, pub fg: u32, pub bg: u32, pub attrs: u8, pub cont: bool }
pub const BLANK: TCell = TCell { ch: 32, fg: 0, bg: 0, attrs: 0, cont: false };
/// bit order of attrs: bold dim italic underline strike reverse
pub struct Term { pub w: usize, pub h: usize, pub cells: Vec<TCell>, pub x: usize, pub y: usize, pub pending: bool, pub fg: u32, pub bg: u32, pub attrs: u8 }
impl Term {
    pub fn new(w: usize, h: usize) -> Term { Term { w, h, cells: vec![BLANK; w * h], x: 0, y: 0, pending: false, fg: 0, bg: 0, attrs: 0 } }
    fn print(&mut self, ch: u32, width: usize) {
        if self.pending || self.x + width > self.w {
            self.pending = false; self.x = 0;
            check(self.y + 1 < self.h, "output never scrolls the terminal");
            self.y += 1;
        }
        let i = self.y * self.w + self.x;
        // overwriting half of a wide glyph erases the other half
        if self.cells[i].cont { self.cells[i - 1] = TCell { ch: 32, ..self.cells[i - 1] }; }
        let last = i + width - 1;
        if self.x + width < self.w && self.cells[last + 1].cont { self.cells[last + 1] = TCell { ch: 32, cont: false, ..self.cells[last + 1] }; }
        self.cells[i] = TCell { ch, fg: self.fg, bg: self.bg, attrs: self.attrs, cont: false };
        for k in 1..width { self.cells[i + k] = TCell { ch: 32, fg: self.fg, bg: self.bg, attrs: self.attrs, cont: true }; }
        self.x += width;
        if self.x >= self.w { self.x = self.w - 1; self.pending = true; }
    }
    fn sgr(&mut self, p: &[u32]) {
        let mut i = 0;
        while i < p.len() {
            match concretize(p[i] as u64) as u32 {
                0 => { self.fg = 0; self.bg = 0; self.attrs = 0; }
                1 => self.attrs |= 1, 2 => self.attrs |= 2, 3 => self.attrs |= 4, 4 => self.attrs |= 8, 9 => self.attrs |= 16, 7 => self.attrs |= 32,
                39 => self.fg = 0,
                49 => self.bg = 0,
                k @ (38 | 48) => {
                    check(i + 4 < p.len() && p[i + 1] == 2, "well-formed colour sequence");
                    let c = 1 << 24 | (p[i + 2] & 255) << 16 | (p[i + 3] & 255) << 8 | (p[i + 4] & 255);
                    check(p[i + 2] < 256 && p[i + 3] < 256 && p[i + 4] < 256, "colour components are bytes");
                    if k == 38 { self.fg = c } else { self.bg = c }
                    i += 4;
                }
                _ => check(false, "only known style codes are sent"),
            }
            i += 1;
        }
    }
    /// width: display width of a code point
    pub fn feed(&mut self, b: &[u8], width: &dyn Fn(u32) -> usize) {
        let mut i = 0;
        while i < b.len() {
            let c = b[i];
            if c == 0x1b {
                check(i + 1 < b.len() && b[i + 1] == b'[', "only CSI sequences are sent");
                i += 2;
                let mut ps: Vec<u32> = vec![];
                let mut cur = 0u32; let mut any = false;
                loop {
                    check(i < b.len(), "sequence is terminated");
                    let k = b[i];
                    if k.wrapping_sub(b'0') < 10 { cur = cur * 10 + (k - b'0') as u32; any = true; i += 1; }
                    else if k == b';' { ps.push(cur); cur = 0; any = true; i += 1; }
                    else { break; }
                }
                if any { ps.push(cur); }
                let f = b[i]; i += 1;
                if f == b'm' { if ps.is_empty() { ps.push(0); } self.sgr(&ps); }
                else if f == b'H' {
                    check(ps.len() == 2, "cursor move has two parameters");
                    let (r, c) = (concretize(ps[0] as u64) as usize, concretize(ps[1] as u64) as usize);
                    check(r >= 1 && r <= self.h && c >= 1 && c <= self.w, "cursor stays on screen");
                    self.y = r - 1; self.x = c - 1; self.pending = false;
                }
                else { check(false, "only known control sequences are sent"); }
                continue;
            }
            let (cp, n) = if c < 0x80 { (c as u32, 1) } else if c < 0xe0 { (((c & 31) as u32) << 6 | (b[i + 1] & 63) as u32, 2) }
                else if c < 0xf0 { (((c & 15) as u32) << 12 | ((b[i + 1] & 63) as u32) << 6 | (b[i + 2] & 63) as u32, 3) }
                else { (((c & 7) as u32) << 18 | ((b[i + 1] & 63) as u32) << 12 | ((b[i + 2] & 63) as u32) << 6 | (b[i + 3] & 63) as u32, 4) };
            i += n;
            check(cp >= 32, "no raw control characters");
            let w = width(cp);
            self.print(cp, w);
        }
    }
}
pub fn utf8_cp(s: &str) -> u32 { let b = s.as_bytes(); if b.is_empty() { return 0; } let c = b[0];
    if c < 0x80 { c as u32 } else if c < 0xe0 { ((c & 31) as u32) << 6 | (b[1] & 63) as u32 } else if c < 0xf0 { ((c & 15) as u32) << 12 | ((b[1] & 63) as u32) << 6 | (b[2] & 63) as u32 } else { ((c & 7) as u32) << 18 | ((b[1] & 63) as u32) << 12 | ((b[2] & 63) as u32) << 6 | (b[3] & 63) as u32 } }
