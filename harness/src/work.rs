//! C23: one operation on one input of a chosen family and size, between the
//! two ends of `vmon_measured`, which callgrind counts the instructions of.

use crate::alloc;
use crate::files::*;
use crate::rng::Rng;
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use topogeo::clip::{clip_topology, ClipMask};
use topogeo::geo::{Edge, Point, Region, Ring};
use topogeo::read::shapefile::geo::ShapefileGeoIterator;
use topogeo::read::shapefile::shapefile::ShapefileReader;
use topogeo::topology::{Topology, TopologyBuilder};

#[no_mangle]
#[inline(never)]
pub extern "C" fn vmon_measured(f: &mut dyn FnMut()) {
    f();
    std::hint::black_box(0);
}

/// Memory in use before, at most during and after the operation.
static USED: [AtomicUsize; 3] = [AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0)];

fn measured(f: &mut dyn FnMut()) {
    USED[0].store(alloc::reset_peak(), SeqCst);
    vmon_measured(f);
    USED[1].store(alloc::peak(), SeqCst);
    USED[2].store(alloc::live(), SeqCst);
}

/// C27: what the operation took at most, beyond what was there before.
pub fn taken() -> String {
    let u = |i: usize| USED[i].load(SeqCst);
    format!("peak {} kept {}", u(1).saturating_sub(u(0)), u(2).saturating_sub(u(0)))
}

type Rs = Vec<(Vec<Vec<Point>>, Vec<Vec<Point>>)>;

fn rect(x0: u32, y0: u32, x1: u32, y1: u32) -> Vec<Point> {
    vec![Point(x0, y0), Point(x1, y0), Point(x1, y1), Point(x0, y1), Point(x0, y0)]
}

fn side(n: usize) -> u32 {
    (n as f64).sqrt().round() as u32
}

/// Point-list families. n is about the number of points given.
fn rings(family: &str, n: usize, rng: &mut Rng) -> Option<Rs> {
    let s = 64u32;
    Some(match family {
        // one ring of n points around a jagged disc
        "one-ring" => {
            let m = n as u32;
            let mut v = Vec::new();
            for i in 0..m / 2 {
                v.push(Point(1000 + i * 16, 1000 + (rng.below(500) as u32)));
            }
            for i in (0..m / 2).rev() {
                v.push(Point(1000 + i * 16, 3000 + (rng.below(500) as u32)));
            }
            let f = v[0];
            v.push(f);
            vec![(vec![v], vec![])]
        }
        // a grid of cells, each a region
        "cells" => {
            let k = side(n / 5);
            (0..k * k).map(|i| (vec![rect(i % k * s, i / k * s, (i % k + 1) * s, (i / k + 1) * s)], vec![])).collect()
        }
        // the same, one region: everything inside dissolves
        "one-region-cells" => {
            let k = side(n / 5);
            vec![((0..k * k).map(|i| rect(i % k * s, i / k * s, (i % k + 1) * s, (i / k + 1) * s)).collect(), vec![])]
        }
        // a chess board of two regions: every node touches four rings
        "chess" => {
            let k = side(n / 5);
            let c = |b: u32| -> Vec<Vec<Point>> { (0..k * k).filter(|i| (i % k + i / k) % 2 == b).map(|i| rect(i % k * s, i / k * s, (i % k + 1) * s, (i / k + 1) * s)).collect() };
            vec![(c(0), vec![]), (c(1), vec![])]
        }
        // rows of cells, a region per row
        "rows" => {
            let k = side(n / 5);
            (0..k).map(|j| ((0..k).map(|i| rect(i * s, j * s, (i + 1) * s, (j + 1) * s)).collect(), vec![])).collect()
        }
        // one region of many islands
        "islands" => {
            let k = side(n / 5);
            vec![((0..k * k).map(|i| rect(i % k * s, i / k * s, i % k * s + 32, i / k * s + 32)).collect(), vec![])]
        }
        // one region with many holes
        "holes" => {
            let k = side(n / 5);
            let h = (0..k * k).map(|i| { let mut r = rect(16 + i % k * s, 16 + i / k * s, 16 + i % k * s + 32, 16 + i / k * s + 32); r.reverse(); r }).collect();
            vec![(vec![rect(0, 0, k * s + 16, k * s + 16)], h)]
        }
        // every hole filled by a region of its own
        "enclaves" => {
            let k = side(n / 10);
            let f = |i: u32| rect(16 + i % k * s, 16 + i / k * s, 16 + i % k * s + 32, 16 + i / k * s + 32);
            let h = (0..k * k).map(|i| { let mut r = f(i); r.reverse(); r }).collect();
            let mut v = vec![(vec![rect(0, 0, k * s + 16, k * s + 16)], h)];
            v.extend((0..k * k).map(|i| (vec![f(i)], vec![])));
            v
        }
        // one big region with many small neighbours on one side
        "coast" => {
            let m = (n / 7) as u32;
            let mut big = vec![Point(0, 0), Point(m * 16, 0)];
            for i in (0..=m).rev() {
                big.push(Point(i * 16, 1000));
            }
            big.push(Point(0, 0));
            let mut v = vec![(vec![big], vec![])];
            v.extend((0..m).map(|i| (vec![vec![Point(i * 16, 1000), Point(i * 16 + 16, 1000), Point(i * 16 + 16, 1100), Point(i * 16 + 8, 1090 + i % 7), Point(i * 16, 1100), Point(i * 16, 1000)]], vec![])));
            v
        }
        // a strip of many regions in a row
        "strip" => {
            let m = (n / 5) as u32;
            (0..m).map(|i| (vec![rect(i * 16, 0, i * 16 + 16, 100)], vec![])).collect()
        }
        // triangles around one point
        "fan" => {
            let m = (n / 4).min(200_000) as u32;
            let c = Point(0, 0);
            let p = |i: u32| Point(i, 4_000_000 - i * 2);
            (0..m).map(|i| (vec![vec![c, p(i + 1), p(i), c]], vec![])).collect()
        }
        // a comb whose teeth cross the middle line
        "comb" => {
            let m = (n / 2) as u32;
            let mut v = Vec::new();
            for i in 0..m {
                v.push(Point(i * 16, 1000 + (rng.below(50) as u32)));
                v.push(Point(i * 16 + 8, 3000 + (rng.below(50) as u32)));
            }
            v.push(Point(m * 16, 9000));
            v.push(Point(0, 9000));
            let f = v[0];
            v.push(f);
            vec![(vec![v], vec![])]
        }
        // many regions above one another
        "column" => {
            let m = (n / 5) as u32;
            (0..m).map(|i| (vec![rect(0, i * 16, 100, i * 16 + 16)], vec![])).collect()
        }
        // regions around one another, each with a hole
        "onion" => {
            let m = (n / 10) as u32;
            let r = |i: u32| rect(i * 8, i * 8, m * 32 - i * 8, m * 32 - i * 8);
            (0..m).map(|i| { let mut h = r(i + 1); h.reverse(); (vec![r(i)], vec![h]) }).collect()
        }
        // a few real cells, and many rings and regions without area
        "flat" => {
            let m = (n / 4) as u32;
            let flat = |i: u32| vec![Point(i * 8, i), Point(i * 8 + 100, i + 7), Point(i * 8, i)];
            let mut v: Rs = (0..10u32).map(|i| (vec![rect(i * s, 0, i * s + s, s)], vec![])).collect();
            for i in 0..m {
                if i % 2 == 0 {
                    v.push((vec![flat(i)], vec![]));
                } else {
                    v[(i % 10) as usize].1.push(flat(i));
                }
            }
            v
        }
        // every point given several times
        "repeats" => {
            let k = side(n / 20);
            (0..k * k).map(|i| (vec![rect(i % k * s, i / k * s, (i % k + 1) * s, (i / k + 1) * s).into_iter().flat_map(|p| vec![p; 4]).collect()], vec![])).collect()
        }
        // one ring that comes back to the same point again and again
        "flower" => {
            let m = (n / 3).min(400_000) as u32;
            let mut v = vec![Point(0, 0)];
            for i in 0..m {
                v.extend_from_slice(&[Point(2 * i + 1, 4_000_000 - 4 * i), Point(2 * i, 4_000_000 - 4 * i), Point(0, 0)]);
            }
            vec![(vec![v], vec![])]
        }
        // one region of two rings with long coasts: they merge into one long ring
        "cut" => {
            let m = (n / 4) as u32;
            let mut side = |x0: u32| -> Vec<Point> {
                let mut v = vec![Point(x0, 1000)];
                v.extend((1..m).map(|i| Point(x0 + i * 16, 1000 + rng.below(500) as u32)));
                v.push(Point(x0 + m * 16, 1000));
                v.push(Point(x0 + m * 16, 3000));
                v.extend((1..m).rev().map(|i| Point(x0 + i * 16, 3000 + rng.below(500) as u32)));
                v.push(Point(x0, 3000));
                v.push(Point(x0, 1000));
                v
            };
            let (a, b) = (side(0), side(m * 16));
            vec![(vec![a, b], vec![])]
        }
        // one region of cells that touch in corners only, each in two parts: a walk
        // along it is long before it comes back to any point
        "chain" => {
            let m = (n / 8) as u32;
            let w = (m + 1) * s;
            let mut v = vec![
                vec![Point(0, w), Point(w / 2, w), Point(w / 2, w + s), Point(0, w + s), Point(0, w)],
                vec![Point(w / 2, w), Point(w, w), Point(w, w + s), Point(w / 2, w + s), Point(w / 2, w)],
            ];
            for i in 0..m {
                let (x0, y0, x1, y1) = (w - (i + 1) * s, w - (i + 1) * s, w - i * s, w - i * s);
                v.push(vec![Point(x0, y0), Point(x1, y0), Point(x0, y1), Point(x0, y0)]);
                v.push(vec![Point(x1, y0), Point(x1, y1), Point(x0, y1), Point(x1, y0)]);
            }
            vec![(v, vec![])]
        }
        // two combs whose teeth interlock: two regions, two long borders
        "zip" => {
            let m = (n / 4) as u32;
            let teeth: Vec<Point> = (0..m).flat_map(|i| vec![Point(i * 16, 1000 + i % 5), Point(i * 16 + 8, 3000 + i % 7)]).collect();
            let (f, l) = (teeth[0], teeth[teeth.len() - 1]);
            let mut a = teeth.clone();
            a.extend_from_slice(&[Point(l.0, 9000), Point(f.0, 9000), f]);
            let mut b: Vec<Point> = teeth.into_iter().rev().collect();
            b.extend_from_slice(&[Point(f.0, 0), Point(l.0, 0), l]);
            vec![(vec![a], vec![]), (vec![b], vec![])]
        }
        _ => return None,
    })
}

fn edges(family: &str, n: usize, rng: &mut Rng) -> Option<Vec<Vec<Point>>> {
    let n32 = n as u32;
    let near = |base: u32, d: u64, rng: &mut Rng| base + rng.below(d) as u32;
    Some(match family {
        "noise" => vec![(0..n32).map(|i| Point(i * 8, near(5000, 3000, rng))).collect()],
        "zigzag" => vec![(0..n32).map(|i| Point(i * 8, 5000 + i % 2 * 100)).collect()],
        // ever larger triangles
        "growing" => vec![(0..n32).map(|i| Point(i * 8, 5_000_000 + i % 2 * i)).collect()],
        "shrinking" => vec![(0..n32).map(|i| Point(i * 8, 5_000_000 + i % 2 * (n32 - i))).collect()],
        "straight" => vec![(0..n32).map(|i| Point(i * 8, 77)).collect()],
        "parabola" => vec![(0..n32).map(|i| Point(i, (i as u64 * i as u64 / 4096) as u32)).collect()],
        "many-edges" => (0..n32 / 16).map(|k| (0..16).map(|i| Point(k * 200 + i * 8, near(5000, 3000, rng))).collect()).collect(),
        _ => return None,
    })
}

fn regions(rs: &Rs) -> Vec<Region<u64>> {
    let ring = |v: &Vec<Point>| Ring::Points(v.clone().into_boxed_slice());
    rs.iter().enumerate().map(|(i, (o, h))| Region { data: i as u64, outer_rings: o.iter().map(ring).collect(), inner_rings: h.iter().map(ring).collect() }).collect()
}

fn make(rs: Vec<Region<u64>>) -> Topology<u64> {
    let mut b = TopologyBuilder::new();
    for r in rs {
        b.add_region(r);
    }
    b.into_topology()
}

/// Each edge is the jagged side of a region of its own.
fn with_edges(es: &[Vec<Point>]) -> Vec<Region<u64>> {
    es.iter()
        .enumerate()
        .map(|(i, e)| {
            let (f, l) = (e[0], e[e.len() - 1]);
            let back = vec![l, Point(l.0, 4_000_000_000), Point(f.0, 4_000_000_000), f];
            Region {
                data: i as u64,
                outer_rings: vec![Ring::Edges(vec![Edge(e.clone().into_boxed_slice()), Edge(back.into_boxed_slice())].into_boxed_slice())].into_boxed_slice(),
                inner_rings: Vec::new().into_boxed_slice(),
            }
        })
        .collect()
}

/// The line between the middle columns.
fn middle_x(t: &Topology<u64>, min: bool) -> ClipMask {
    let xs = || t.edges.iter().flat_map(|e| e.points.iter().map(|p| p.0));
    let (x0, x1) = (xs().min().unwrap(), xs().max().unwrap());
    let x = (x0 + (x1 - x0) / 2) | 1;
    if min { ClipMask::MinX(x) } else { ClipMask::MaxX(x) }
}

fn middle(t: &Topology<u64>, family: &str) -> ClipMask {
    let ys: BTreeSet<u32> = t.edges.iter().flat_map(|e| e.points.iter().map(|p| p.1)).collect();
    let (y0, y1) = (*ys.iter().next().unwrap(), *ys.iter().next_back().unwrap());
    // across the comb
    if family == "comb" || family == "zip" {
        ClipMask::MinY(2001)
    } else if y1 > 3_000_000_000 {
        ClipMask::MinY(6501)
    } else {
        ClipMask::MinY((y0 + (y1 - y0) / 2) | 1)
    }
}

fn pair(family: &str, n: usize, rng: &mut Rng) -> Option<(Vec<u8>, Vec<u8>)> {
    let ring = |k: usize, rng: &mut Rng| -> Vec<P> {
        let mut v: Vec<P> = (0..k - 1).map(|_| (rng.f64_unit() * 100., rng.f64_unit() * 100.)).collect();
        let f = v[0];
        v.push(f);
        v
    };
    let recs: Vec<ShpRec> = match family {
        "records" => (0..n / 5).map(|i| polygon(i as u32 + 1, vec![ring(5, rng)])).collect(),
        "rings" => vec![polygon(1, (0..n / 5).map(|_| ring(5, rng)).collect())],
        "points" => vec![polygon(1, vec![ring(n, rng)])],
        "no-rows" | "fields" => (0..n / 5).map(|i| polygon(i as u32 + 1, vec![ring(5, rng)])).collect(),
        "bad-records" => (0..n / 5).map(|i| gen_bad_rec(rng, i as u32 + 1)).collect(),
        _ => return None,
    };
    let (shp, _) = shp_file(&recs, (0., 0., 100., 100.));
    if family == "fields" {
        // wide rows, values that cannot be read among them
        let fields: Vec<Field> = (0..24).map(|i| Field::new(format!("f{}", i).as_bytes(), [b'C', b'N', b'+', b'L'][i % 4], 4)).collect();
        let rows: Vec<Vec<u8>> = (0..recs.len() / 8).map(|i| format!(" {:96}", i).into_bytes()).collect();
        let recs = &recs[..rows.len()];
        return Some((shp_file(recs, (0., 0., 100., 100.)).0, dbf_file(rng, &fields, &rows, &DbfShape::default()).0));
    }
    let (dbf, _) = id_table(rng, if family == "no-rows" { recs.len() / 2 } else { recs.len() }, 12);
    Some((shp, dbf))
}

/// Runs it; returns a line about what was done, or None for an unknown family.
pub fn work(op: &str, family: &str, n: usize, seed: u64) -> Option<String> {
    let mut rng = Rng::new(seed, "work", n as u64);
    let mut said = String::new();
    if op == "read" || op == "regions" || op == "print-records" {
        let (shp, dbf) = pair(family, n, &mut rng)?;
        let (mut items, mut chars) = (0u64, 0u64);
        measured(&mut || {
            let mut rd = ShapefileReader::new(&shp[..], &dbf[..], encoding::all::UTF_8).unwrap();
            let fields = rd.dbf_fields();
            if op == "regions" {
                for x in ShapefileGeoIterator::new(&mut rd) {
                    items += 1;
                    if let Ok(r) = x {
                        chars += (r.outer_rings.len() + r.inner_rings.len()) as u64;
                    }
                }
            } else {
                while let Some(x) = rd.next() {
                    items += 1;
                    if let Err(e) = &x {
                        chars += format!("{}", e).len() as u64;
                    }
                    if let Ok(rec) = x {
                        if op == "print-records" {
                            chars += format!("{}", rec).len() as u64;
                        }
                        for f in fields.iter() {
                            chars += rd.get_field(&f.name).is_some() as u64;
                            chars += f.read_string(&rec.data).map(|s| s.len()).unwrap_or(0) as u64;
                        }
                        chars += rec.rings.iter().map(|r| r.0.len()).sum::<usize>() as u64;
                    }
                }
            }
        });
        said.push_str(&format!("bytes {} items {} seen {}", shp.len() + dbf.len(), items, chars));
        return Some(said);
    }
    let mut rs = match rings(family, n, &mut rng) {
        Some(r) => regions(&r),
        None => with_edges(&edges(family, n, &mut rng)?),
    };
    let given: usize = rs.iter().map(|r| r.outer_rings.iter().chain(r.inner_rings.iter()).map(|g| g.points().len()).sum::<usize>()).sum();
    let mut result: Option<Topology<u64>> = None;
    match op {
        "build" => {
            let mut some = Some(std::mem::take(&mut rs));
            measured(&mut || result = Some(make(some.take().unwrap())));
        }
        "normalise" => {
            let t = make(rs);
            measured(&mut || result = Some(topogeo::normalize(&t)));
        }
        "simplify" => {
            let mut t = Some(make(rs));
            let th = 60_000;
            measured(&mut || result = Some(topogeo::simplify(t.take().unwrap(), th)));
        }
        "simplify-all" | "simplify-flat" => {
            let mut t = Some(make(rs));
            let th = if op == "simplify-all" { u64::max_value() } else { 0 };
            measured(&mut || result = Some(topogeo::simplify(t.take().unwrap(), th)));
        }
        "normalise-again" => {
            let t = topogeo::normalize(&make(rs));
            measured(&mut || result = Some(topogeo::normalize(&t)));
        }
        "ring-of-edges" => {
            // each ring cut into edges of two points
            let cut: Vec<Ring> = rs.iter().flat_map(|r| r.outer_rings.iter().chain(r.inner_rings.iter())).map(|g| Ring::Edges(g.edges())).collect();
            let mut sum = 0i64;
            measured(&mut || {
                for g in &cut {
                    if g.winding_order() == topogeo::geo::WindingOrder::Clockwise {
                        sum += 1;
                    }
                    sum += g.points().len() as i64;
                    sum += g.edges().len() as i64;
                }
            });
            said.push_str(&format!("sum {} ", sum));
        }
        "print" => {
            let mut sum = 0;
            measured(&mut || {
                for r in &rs {
                    sum += format!("{}", r).len();
                }
            });
            said.push_str(&format!("characters {} ", sum));
        }
        "simplify-normal" => {
            let mut t = Some(topogeo::normalize(&make(rs)));
            let th = 60_000;
            measured(&mut || result = Some(topogeo::simplify(t.take().unwrap(), th)));
        }
        "clip" | "clip-normal" | "clip-all" | "clip-none" | "clip-left" | "clip-right" | "clip-top" | "clip-along" => {
            let mut t = make(rs);
            if op == "clip-normal" {
                t = topogeo::normalize(&t);
            }
            let m = match op {
                "clip-all" => ClipMask::MaxX(0),
                "clip-none" => ClipMask::MinX(0),
                "clip-left" => middle_x(&t, false),
                "clip-right" => middle_x(&t, true),
                "clip-top" => match middle(&t, family) {
                    ClipMask::MinY(y) => ClipMask::MaxY(y),
                    m => m,
                },
                // along the borders of the map
                "clip-along" => match middle(&t, family) {
                    ClipMask::MinY(y) => ClipMask::MinY(y - y % 64),
                    m => m,
                },
                _ => middle(&t, family),
            };
            measured(&mut || result = Some(clip_topology(&t, &m)));
        }
        "drop" => {
            let t = make(rs);
            let mut some = Some(t);
            measured(&mut || drop(some.take()));
        }
        "area" => {
            let mut sum = 0i64;
            measured(&mut || {
                for r in &rs {
                    for g in r.outer_rings.iter().chain(r.inner_rings.iter()) {
                        if g.winding_order() == topogeo::geo::WindingOrder::Clockwise {
                            sum += 1;
                        }
                        sum += g.points().len() as i64;
                        sum += g.edges().len() as i64;
                    }
                }
            });
            said.push_str(&format!("sum {} ", sum));
        }
        _ => return None,
    }
    if let Some(t) = &result {
        said.push_str(&format!("points given {} regions {} edges {} points left {}", given, t.regions.len(), t.edges.len(), t.edges.iter().map(|e| e.points.len()).sum::<usize>()));
    } else {
        said.push_str(&format!("points given {}", given));
    }
    Some(said)
}
