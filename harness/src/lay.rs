//! Children for the layout harnesses.
use crate::*;
use tcss::types::{ComputedStyle, Scalar, Unit};
use textual::canvas::{Region, Size};
use textual::layouts::{LayoutChild, LayoutNode, WidgetPlacement};
/// A leaf widget: wants (dw, dh), and is `ih` rows tall at any width.
pub struct Leaf { pub dw: u16, pub dh: u16, pub ih: u16 }
impl LayoutNode for Leaf {
    fn desired_size(&self) -> Size { Size { width: self.dw, height: self.dh } }
    fn intrinsic_height_for_width(&self, _w: u16) -> u16 { self.ih }
}
pub struct Kid { pub leaf: Leaf, pub style: ComputedStyle }
impl Kid {
    pub fn new() -> Kid { Kid { leaf: Leaf { dw: 0, dh: 0, ih: 0 }, style: ComputedStyle::default() } }
    pub fn child(&self, index: usize) -> LayoutChild<'_> {
        LayoutChild { index, style: self.style.clone(), desired_size: Size { width: self.leaf.dw, height: self.leaf.dh }, node: &self.leaf }
    }
}
pub fn kids(v: &[Kid]) -> Vec<LayoutChild<'_>> { v.iter().enumerate().map(|(i, k)| k.child(i)).collect() }
pub fn cells(v: i64) -> Scalar { Scalar { value: v as f64, unit: Unit::Cells } }
pub fn unit(v: f64, unit: Unit) -> Scalar { Scalar { value: v, unit } }
pub fn find(p: &[WidgetPlacement], i: usize) -> Region {
    let mut n = 0; let mut r = Region::new(0, 0, 0, 0);
    for q in p { if q.child_index == i { n += 1; r = q.region; } }
    check(n == 1, "every child is placed exactly once");
    r
}
/// A signed maximum/minimum without a fork.
pub fn max(a: i64, b: i64) -> i64 { ite(a > b, a as u64, b as u64) as i64 }
pub fn min(a: i64, b: i64) -> i64 { ite(a < b, a as u64, b as u64) as i64 }
