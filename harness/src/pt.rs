//! The monitors' own points. The order, equality and hash of the library's points are part of
//! what is under test, so no oracle may lean on them.
use topogeo::geo;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Point(pub u32, pub u32);

impl Point {
    pub fn lib(&self) -> geo::Point {
        geo::Point(self.0, self.1)
    }
}

pub fn own(p: &geo::Point) -> Point {
    Point(p.0, p.1)
}

/// As the library's points.
pub fn to_lib(p: &[Point]) -> Vec<geo::Point> {
    p.iter().map(|p| p.lib()).collect()
}

/// From the library's points.
pub fn to_own(p: &[geo::Point]) -> Vec<Point> {
    p.iter().map(own).collect()
}
