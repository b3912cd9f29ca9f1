//! Workload: planar maps with known ground truth.
//!
//! A mesh is a list of faces, each a clockwise cycle of points; neighbouring
//! faces walk their common polyline in opposite directions. Faces are assigned
//! to regions (or to nothing); the map is then *presented* to the library as
//! rings in one of many equivalent ways (cell by cell, clusters traced to
//! outlines with holes, touching rings spliced into one, any start, direction
//! and order). The ground truth is always computed from the faces.

use crate::ctx::Ctx;
use crate::rng::Rng;
use crate::snap::area2;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use crate::pt::{to_lib, Point};
use topogeo::geo::{Edge, Region, Ring};

pub type Seg = (Point, Point);

#[derive(Clone)]
pub struct Map {
    pub faces: Vec<Vec<Point>>, // clockwise, first point not repeated
    pub assign: Vec<Option<usize>>,
    pub n_regions: usize,
    /// The whole mesh covers an axis-parallel rectangle with straight sides.
    pub straight: bool,
    pub kind: &'static str,
    /// Which part of its region each face belongs to, when regions are drawn in parts.
    pub part: Vec<usize>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Lattice {
    Quad,
    Brick,
    Tri,
    Hub,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Scale {
    Tiny,
    Medium,
    Large,
    Full,
}

pub struct MapOpts {
    pub max_w: usize,
    pub max_h: usize,
    pub max_mid: usize,
    pub lattice: Option<Lattice>,
    pub scale: Option<Scale>,
    pub all_assigned: bool,
    pub max_regions: usize,
    pub no_splice: bool,
}

pub fn opts(ctx: &Ctx) -> MapOpts {
    let m = if ctx.small { 3 } else if ctx.thorough { 9 } else { 6 };
    MapOpts { max_w: m, max_h: m, max_mid: if ctx.small { 2 } else { 3 }, lattice: None, scale: None, all_assigned: false, max_regions: 6, no_splice: false }
}

fn closed(face: &[Point]) -> Vec<Point> {
    let mut v = face.to_vec();
    v.push(face[0]);
    v
}

impl Map {
    pub fn face_area2(&self, i: usize) -> i128 {
        area2(&closed(&self.faces[i]))
    }
}

/// Builds the faces of a lattice.
fn gen_faces(rng: &mut Rng, o: &MapOpts, min: usize) -> (Vec<Vec<Point>>, Lattice, Scale, bool, bool) {
    loop {
        let lattice = o.lattice.unwrap_or(*rng.pick(&[Lattice::Quad, Lattice::Quad, Lattice::Brick, Lattice::Tri]));
        let scale = o.scale.unwrap_or(*rng.pick(&[Scale::Tiny, Scale::Medium, Scale::Large, Scale::Full]));
        let w = rng.usize(min, std::cmp::max(min, o.max_w));
        let h = rng.usize(min, std::cmp::max(min, o.max_h));
        // lattice size in vertices
        let (vw, vh) = match lattice {
            Lattice::Quad | Lattice::Tri | Lattice::Hub => (w, h),
            Lattice::Brick => (2 * w + 1, h),
        };
        let n = std::cmp::max(vw, vh) as u64;
        let max = u32::MAX as u64;
        let size = |rng: &mut Rng, scale: Scale| -> u64 {
            match scale {
                Scale::Tiny => rng.range(2, 12) as u64,
                Scale::Medium => rng.range(64, 2000) as u64,
                Scale::Large => rng.range(1 << 16, 1 << 24) as u64,
                Scale::Full => max / n,
            }
        };
        let s = size(rng, scale);
        let (mut sx, mut sy, mut full) = (s, s, scale == Scale::Full);
        // long drawn: another scale along one axis
        let narrow = w <= 24 && h <= 24 && o.max_mid <= 3 && rng.chance(1, 8);
        if narrow {
            // (diagonals cannot be rounded to a few units without touching other borders)
            let coarse = lattice == Lattice::Tri || rng.chance(1, 2);
            let other = *rng.pick(if coarse { &[Scale::Medium, Scale::Large, Scale::Full][..] } else { &[Scale::Tiny, Scale::Full][..] });
            if lattice == Lattice::Tri && scale == Scale::Tiny {
                continue;
            }
            full |= other == Scale::Full;
            let z = size(rng, other);
            if rng.chance(1, 2) {
                sx = z;
            } else {
                sy = z;
            }
        }
        let flat = rng.chance(1, 3);
        let jit_of = |s: u64| if flat { 0 } else if lattice == Lattice::Tri { s / 16 } else { s / 8 };
        let wig_of = |s: u64| if lattice == Lattice::Tri { s / 64 } else { s / 32 };
        let (jit_x, jit_y, wig_x, wig_y) = (jit_of(sx), jit_of(sy), wig_of(sx), wig_of(sy));
        let straight = rng.chance(1, 2) || full;
        let (margin_x, margin_y) = if straight { (0, 0) } else { (jit_x + wig_x + 1, jit_y + wig_y + 1) };
        let extent_x = sx * vw as u64;
        let extent_y = sy * vh as u64;
        if extent_x + 2 * margin_x > max || extent_y + 2 * margin_y > max {
            continue;
        }
        let off = |rng: &mut Rng, ext: u64, margin: u64| -> u64 {
            let room = max - ext - 2 * margin;
            margin
                + match rng.below(4) {
                    0 => 0,
                    1 => room,
                    2 => rng.below(room + 1),
                    _ => std::cmp::min(room, rng.below(1000)),
                }
        };
        let ox = off(rng, extent_x, margin_x);
        let oy = off(rng, extent_y, margin_y);
        let on_rim = |i: usize, j: usize| i == 0 || j == 0 || i == vw || j == vh;
        let mut vertex: HashMap<(usize, usize), Point> = HashMap::new();
        for i in 0..=vw {
            for j in 0..=vh {
                let mut x = (ox + sx * i as u64) as i64;
                let mut y = (oy + sy * j as u64) as i64;
                let (jx, jy) = (rng.range(-(jit_x as i64), jit_x as i64), rng.range(-(jit_y as i64), jit_y as i64));
                // A straight rim keeps its vertices on the rim.
                if !(straight && on_rim(i, j)) {
                    x += jx;
                    y += jy;
                }
                vertex.insert((i, j), Point(x as u32, y as u32));
            }
        }
        let mut cycles: Vec<Vec<(usize, usize)>> = Vec::new();
        match lattice {
            Lattice::Hub => unreachable!(),
            Lattice::Quad => {
                for i in 0..w {
                    for j in 0..h {
                        cycles.push(vec![(i, j), (i + 1, j), (i + 1, j + 1), (i, j + 1)]);
                    }
                }
            }
            Lattice::Tri => {
                for i in 0..w {
                    for j in 0..h {
                        let (a, b, c, d) = ((i, j), (i + 1, j), (i + 1, j + 1), (i, j + 1));
                        if rng.chance(1, 2) {
                            cycles.push(vec![a, b, c]);
                            cycles.push(vec![a, c, d]);
                        } else {
                            cycles.push(vec![a, b, d]);
                            cycles.push(vec![b, c, d]);
                        }
                    }
                }
            }
            Lattice::Brick => {
                for j in 0..h {
                    for i in 0..w {
                        let x = 2 * i + (j % 2);
                        cycles.push(vec![(x, j), (x + 1, j), (x + 2, j), (x + 2, j + 1), (x + 1, j + 1), (x, j + 1)]);
                    }
                }
            }
        }
        // polylines between lattice vertices, generated once per edge
        let mut used: HashSet<Point> = vertex.values().cloned().collect();
        if used.len() != vertex.len() {
            continue;
        }
        let mut mids: HashMap<((usize, usize), (usize, usize)), Vec<Point>> = HashMap::new();
        let mut faces = Vec::new();
        for cyc in &cycles {
            let mut face = Vec::new();
            for k in 0..cyc.len() {
                let a = cyc[k];
                let b = cyc[(k + 1) % cyc.len()];
                face.push(vertex[&a]);
                let (lo, hi) = if a < b { (a, b) } else { (b, a) };
                if !mids.contains_key(&(lo, hi)) {
                    let (pa, pb) = (vertex[&lo], vertex[&hi]);
                    let rim = on_rim(lo.0, lo.1) && on_rim(hi.0, hi.1) && (lo.0 == hi.0 && (lo.0 == 0 || lo.0 == vw) || lo.1 == hi.1 && (lo.1 == 0 || lo.1 == vh));
                    let m = rng.usize(0, o.max_mid) as i64;
                    let collinear = rng.chance(1, 4) || (straight && rim) || lattice == Lattice::Brick && straight && (on_rim(lo.0, lo.1) || on_rim(hi.0, hi.1));
                    let mut v = Vec::new();
                    for q in 1..=m {
                        let mut x = pa.0 as i64 + (pb.0 as i64 - pa.0 as i64) * q / (m + 1);
                        let mut y = pa.1 as i64 + (pb.1 as i64 - pa.1 as i64) * q / (m + 1);
                        if !collinear && m <= 12 {
                            x += rng.range(-(wig_x as i64), wig_x as i64);
                            y += rng.range(-(wig_y as i64), wig_y as i64);
                        } else if !collinear {
                            // many points: across the border only, less near its ends
                            let (dx, dy) = ((pb.0 as i64 - pa.0 as i64).abs(), (pb.1 as i64 - pa.1 as i64).abs());
                            let near = std::cmp::max(dx, dy) * std::cmp::min(q, m + 1 - q) / (m + 1);
                            let wig = std::cmp::min(std::cmp::min(wig_x, wig_y) as i64, near / 8);
                            let d = rng.range(-wig, wig);
                            if dx > dy {
                                y += d;
                            } else {
                                x += d;
                            }
                        }
                        if x < 0 || y < 0 || x > max as i64 || y > max as i64 {
                            continue;
                        }
                        let p = Point(x as u32, y as u32);
                        if used.insert(p) {
                            v.push(p);
                        }
                    }
                    mids.insert((lo, hi), v);
                }
                let v = &mids[&(lo, hi)];
                if a < b {
                    face.extend(v.iter());
                } else {
                    face.extend(v.iter().rev());
                }
            }
            faces.push(face);
        }
        // Every face must be clockwise with positive area and every directed
        // segment must be unique; otherwise draw again (rare: tiny scales).
        let mut dirs: HashSet<Seg> = HashSet::new();
        let ok = faces.iter().all(|f| {
            area2(&closed(f)) > 0 && closed(f).windows(2).all(|s| s[0] != s[1] && dirs.insert((s[0], s[1])))
        });
        if !ok {
            continue;
        }
        return (faces, lattice, scale, straight && lattice != Lattice::Brick, narrow);
    }
}

/// Triangles around one point: many borders meet there.
fn gen_hub(rng: &mut Rng, many: bool) -> (Vec<Vec<Point>>, Lattice, Scale, bool, bool) {
    // 258: as many as two, in eight bits
    let wrap = many && rng.chance(1, 2);
    let k = if wrap { 258 } else if many { rng.usize(250, 300) } else { rng.usize(4, 20) };
    let reach: i64 = if many { rng.range(20, 40) } else { rng.range(3, 9) };
    // which directions: all around, a half, or a quarter
    let (lx, ly) = match rng.below(4) {
        _ if wrap => (-reach, -reach),
        0 => (0, -reach),
        1 => (0, 0),
        _ => (-reach, -reach),
    };
    let gcd = |mut a: i64, mut b: i64| {
        while b != 0 {
            let t = a % b;
            a = b;
            b = t;
        }
        a.abs()
    };
    let mut all: Vec<(i64, i64)> = (lx..=reach).flat_map(|x| (ly..=reach).map(move |y| (x, y))).filter(|&(x, y)| gcd(x, y) == 1).collect();
    rng.shuffle(&mut all);
    all.truncate(k);
    // by angle, exactly
    let half = |d: &(i64, i64)| d.1 < 0 || d.1 == 0 && d.0 < 0;
    all.sort_by(|a, b| half(a).cmp(&half(b)).then((b.0 * a.1).cmp(&(a.0 * b.1))));
    let (scale, unit) = match rng.below(3) {
        0 => (Scale::Tiny, 1),
        1 => (Scale::Medium, rng.range(10, 300)),
        _ => (Scale::Full, (u32::MAX as i64 / 2 - 1) / (3 * reach)),
    };
    let room = 3 * reach * unit;
    let place = |rng: &mut Rng, lo: i64| {
        let (from, to) = (if lo < 0 { room } else { 0 }, u32::MAX as i64 - room);
        match rng.below(3) {
            0 => from,
            1 => to,
            _ => rng.range(from, to),
        }
    };
    let (cx, cy) = (place(rng, lx), place(rng, ly));
    let mids = rng.chance(1, 2);
    let rays: Vec<Vec<Point>> = all
        .iter()
        .map(|d| (1..=if mids { rng.range(1, 3) } else { 1 }).map(|t| Point((cx + d.0 * t * unit) as u32, (cy + d.1 * t * unit) as u32)).collect())
        .collect();
    let mut faces = Vec::new();
    for i in 0..all.len() {
        let j = (i + 1) % all.len();
        if all[i].0 * all[j].1 - all[i].1 * all[j].0 <= 0 {
            continue;
        }
        let mut f = vec![Point(cx as u32, cy as u32)];
        f.extend(rays[i].iter());
        f.extend(rays[j].iter().rev());
        assert!(area2(&closed(&f)) > 0);
        faces.push(f);
    }
    (faces, Lattice::Hub, scale, false, false)
}

/// Random faces -> regions.
fn gen_assign(rng: &mut Rng, faces: &[Vec<Point>], o: &MapOpts) -> (Vec<Option<usize>>, usize, &'static str) {
    let n = faces.len();
    let k = rng.usize(1, std::cmp::min(o.max_regions, std::cmp::max(1, n)));
    let mode = rng.below(6);
    let none = if o.all_assigned { 0 } else { *rng.pick(&[0u64, 0, 1, 3]) };
    let mut a: Vec<Option<usize>> = vec![None; n];
    let kind;
    match mode {
        0 => {
            kind = "random";
            for x in a.iter_mut() {
                *x = Some(rng.below(k as u64) as usize);
            }
        }
        1 => {
            kind = "one-per-face";
            for (i, x) in a.iter_mut().enumerate() {
                *x = Some(i);
            }
        }
        2 => {
            kind = "two-alternating";
            for (i, x) in a.iter_mut().enumerate() {
                *x = Some((i + i / std::cmp::max(1, rng.usize(1, 4))) % 2);
            }
        }
        3 => {
            kind = "mostly-one";
            for x in a.iter_mut() {
                *x = Some(if rng.chance(4, 5) { 0 } else { rng.below(k as u64) as usize });
            }
        }
        _ => {
            // blobs grown over face adjacency
            kind = "blobs";
            let (adj, _) = adjacency(faces);
            let mut frontier: Vec<usize> = Vec::new();
            for r in 0..k {
                let i = rng.usize(0, n - 1);
                if a[i].is_none() {
                    a[i] = Some(r);
                    frontier.push(i);
                }
            }
            while !frontier.is_empty() {
                let x = rng.usize(0, frontier.len() - 1);
                let i = frontier[x];
                let free: Vec<usize> = adj[i].iter().cloned().filter(|&j| a[j].is_none()).collect();
                if free.is_empty() {
                    frontier.swap_remove(x);
                    continue;
                }
                let j = *rng.pick(&free);
                a[j] = a[i];
                frontier.push(j);
            }
            if o.all_assigned {
                for x in a.iter_mut() {
                    if x.is_none() {
                        *x = Some(0);
                    }
                }
            }
        }
    }
    if none > 0 {
        for x in a.iter_mut() {
            if rng.chance(none, 10) {
                *x = None;
            }
        }
        if a.iter().all(|x| x.is_none()) {
            a[0] = Some(0);
        }
    }
    // compact the region numbers, in random order
    let mut names: Vec<usize> = a.iter().filter_map(|x| *x).collect::<BTreeSet<_>>().into_iter().collect();
    rng.shuffle(&mut names);
    let idx: HashMap<usize, usize> = names.iter().enumerate().map(|(i, &x)| (x, i)).collect();
    let nr = names.len();
    (a.into_iter().map(|x| x.map(|r| idx[&r])).collect(), nr, kind)
}

fn adjacency(faces: &[Vec<Point>]) -> (Vec<BTreeSet<usize>>, Vec<bool>) {
    let mut by_seg: HashMap<Seg, usize> = HashMap::new();
    for (i, f) in faces.iter().enumerate() {
        for w in closed(f).windows(2) {
            by_seg.insert((w[0], w[1]), i);
        }
    }
    let mut adj: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); faces.len()];
    let mut rim = vec![false; faces.len()];
    for (&(p, q), &i) in by_seg.iter() {
        match by_seg.get(&(q, p)) {
            Some(&j) => {
                adj[i].insert(j);
            }
            None => rim[i] = true,
        }
    }
    (adj, rim)
}

/// Regions with holes: enclaves (of other regions, of nothing, or of the same
/// region drawn as a part of its own) or regions nested like an onion.
fn gen_nested(rng: &mut Rng, faces: &[Vec<Point>], o: &MapOpts) -> (Vec<Option<usize>>, usize, &'static str, Vec<usize>) {
    let n = faces.len();
    let (adj, rim) = adjacency(faces);
    let mut layer: Vec<usize> = rim.iter().map(|&r| if r { 0 } else { usize::MAX }).collect();
    let mut depth = 0;
    while layer.iter().any(|&l| l == usize::MAX) {
        let next: Vec<usize> = (0..n).filter(|&i| layer[i] == usize::MAX && adj[i].iter().any(|&j| layer[j] == depth)).collect();
        depth += 1;
        for i in next {
            layer[i] = depth;
        }
        if depth > n {
            break;
        }
    }
    let k = std::cmp::max(2, o.max_regions);
    let mut a: Vec<Option<usize>> = vec![Some(0); n];
    let mut part = vec![0; n];
    let kind;
    if rng.chance(1, 3) {
        kind = "onion";
        let names: Vec<(Option<usize>, usize)> = (0..=depth)
            .map(|l| (if !o.all_assigned && rng.chance(1, 6) { None } else { Some(rng.usize(0, 2)) }, l))
            .collect();
        for i in 0..n {
            let (r, l) = names[std::cmp::min(layer[i], depth)];
            a[i] = r;
            part[i] = l;
        }
    } else {
        kind = "enclaves";
        let inside: Vec<usize> = (0..n).filter(|&i| layer[i] > 0).collect();
        for e in 0..rng.usize(1, 4) {
            if inside.is_empty() {
                break;
            }
            let what = match rng.below(4) {
                0 if !o.all_assigned => None,
                1 => Some(0),
                _ => Some(rng.usize(1, k - 1)),
            };
            let mut i = *rng.pick(&inside);
            for _ in 0..rng.usize(1, 3) {
                a[i] = what;
                part[i] = e + 1;
                let near: Vec<usize> = adj[i].iter().cloned().filter(|&j| layer[j] > 0).collect();
                if near.is_empty() {
                    break;
                }
                i = *rng.pick(&near);
            }
        }
    }
    if a.iter().all(|x| x.is_none()) {
        a[0] = Some(0);
    }
    let mut names: Vec<usize> = a.iter().filter_map(|x| *x).collect::<BTreeSet<_>>().into_iter().collect();
    rng.shuffle(&mut names);
    let idx: HashMap<usize, usize> = names.iter().enumerate().map(|(i, &x)| (x, i)).collect();
    (a.into_iter().map(|x| x.map(|r| idx[&r])).collect(), names.len(), kind, part)
}

pub fn gen_map(rng: &mut Rng, ctx: &mut Ctx, o: &MapOpts) -> Map {
    let nested = rng.chance(1, 4);
    // once in a while a large one: more edges, points or regions than 16 bits count
    let huge = ctx.large;
    let medium = !ctx.small && !huge && rng.chance(1, 150);
    let (min, max, max_mid) = match rng.below(5) {
        _ if medium => (8, 24, 3),
        4 => (1, 3, 40_000),
        0 => (258, 290, 0),
        1 | 2 => (100, 130, 4),
        _ => (30, 100, 3),
    };
    let large = MapOpts { max_w: max, max_h: max, max_mid, lattice: o.lattice, scale: o.scale, all_assigned: o.all_assigned, max_regions: o.max_regions, no_splice: o.no_splice };
    let o = if huge || medium { &large } else { o };
    // (a stream of its own, so that all other maps stay as they were)
    let mut other = rng.clone();
    let hub = !nested && !huge && !medium && o.lattice.is_none() && o.scale.is_none() && other.chance(1, 12);
    let (faces, lattice, scale, straight, narrow) = if hub {
        let many = !ctx.small && other.chance(1, 8);
        gen_hub(rng, many)
    } else {
        gen_faces(rng, o, if huge || medium { min } else if nested { 3 } else { 1 })
    };
    if narrow {
        ctx.ev("maps: scales differ along x and y", 1);
    }
    if huge {
        ctx.ev("maps: large", 1);
        ctx.ev("faces of large maps", faces.len() as u64);
    }
    let (assign, n_regions, kind, part) = if nested {
        gen_nested(rng, &faces, o)
    } else {
        let (a, n, k) = gen_assign(rng, &faces, o);
        (a, n, k, vec![0; faces.len()])
    };
    if nested {
        ctx.ev("maps: regions nested in one another", 1);
    }
    ctx.ev(
        match lattice {
            Lattice::Quad => "maps: quad lattice",
            Lattice::Brick => "maps: brick lattice",
            Lattice::Tri => "maps: triangle lattice",
            Lattice::Hub => "maps: many faces around one point",
        },
        1,
    );
    ctx.ev(
        match scale {
            Scale::Tiny => "maps: tiny coordinates",
            Scale::Medium => "maps: medium coordinates",
            Scale::Large => "maps: large coordinates",
            Scale::Full => "maps: full u32 range",
        },
        1,
    );
    for f in &faces {
        ctx.input.points(f);
    }
    for a in &assign {
        ctx.input.u64(a.map(|x| x as u64 + 1).unwrap_or(0));
    }
    Map { faces, assign, n_regions, straight, kind, part }
}

/// Directed boundary segments of a set of faces (inner ones cancelled).
pub fn boundary(faces: &[&Vec<Point>]) -> BTreeSet<Seg> {
    let mut s = BTreeSet::new();
    for f in faces {
        for k in 0..f.len() {
            let (a, b) = (f[k], f[(k + 1) % f.len()]);
            if !s.remove(&(b, a)) {
                s.insert((a, b));
            }
        }
    }
    s
}

/// Decomposes directed boundary segments into simple closed loops (closing
/// point repeated).
pub fn trace(rng: &mut Rng, segs: &BTreeSet<Seg>) -> Vec<Vec<Point>> {
    let mut out: BTreeMap<Point, Vec<Point>> = BTreeMap::new();
    for &(a, b) in segs {
        out.entry(a).or_insert_with(Vec::new).push(b);
    }
    let mut loops = Vec::new();
    while let Some((&start, _)) = out.iter().next() {
        let mut path = vec![start];
        let mut pos: HashMap<Point, usize> = HashMap::new();
        pos.insert(start, 0);
        loop {
            let here = *path.last().unwrap();
            let nexts = out.get_mut(&here).expect("boundary is not closed");
            let k = rng.usize(0, nexts.len() - 1);
            let next = nexts.swap_remove(k);
            if nexts.is_empty() {
                out.remove(&here);
            }
            path.push(next);
            if let Some(&i) = pos.get(&next) {
                let lp: Vec<Point> = path[i..].to_vec();
                for p in &path[i + 1..path.len() - 1] {
                    pos.remove(p);
                }
                path.truncate(i + 1);
                loops.push(lp);
                if i == 0 {
                    break;
                }
            } else {
                pos.insert(next, path.len() - 1);
            }
        }
    }
    loops
}

#[derive(Clone, Debug)]
pub struct Rings {
    pub outer: Vec<Vec<Point>>, // closed point lists
    pub inner: Vec<Vec<Point>>,
}

#[derive(Clone, Debug)]
pub struct Presentation {
    pub regions: Vec<Rings>,
    pub spliced: u64,
    pub clusters: u64,
    pub holes: u64,
}

fn rotate_closed(rng: &mut Rng, r: &[Point]) -> Vec<Point> {
    let n = r.len() - 1;
    let k = rng.usize(0, n - 1);
    let mut v: Vec<Point> = r[k..n].to_vec();
    v.extend_from_slice(&r[..k]);
    let f = v[0];
    v.push(f);
    v
}

/// Re-presents rings: any start, direction and order.
pub fn reshuffle(rng: &mut Rng, regions: &[Rings]) -> Vec<Rings> {
    regions
        .iter()
        .map(|r| {
            let mut f = |v: &Vec<Vec<Point>>| {
                let mut v: Vec<Vec<Point>> = v
                    .iter()
                    .map(|x| {
                        let mut y = rotate_closed(rng, x);
                        if rng.chance(1, 2) {
                            y.reverse();
                        }
                        y
                    })
                    .collect();
                rng.shuffle(&mut v);
                v
            };
            Rings { outer: f(&r.outer), inner: f(&r.inner) }
        })
        .collect()
}

/// Has every ring start at its leftmost, topmost point, so that rings along
/// the same closed border can be one and the same closed edge.
pub fn align_starts(regions: &mut [Rings]) {
    for r in regions.iter_mut() {
        for x in r.outer.iter_mut().chain(r.inner.iter_mut()) {
            x.pop();
            let k = (0..x.len()).min_by_key(|&i| x[i]).unwrap();
            x.rotate_left(k);
            let f = x[0];
            x.push(f);
        }
    }
}

/// Adds out-and-back lines to some rings: the ring walks each of their segments
/// twice, once each way, so the same region is on both sides.
pub fn add_spikes(rng: &mut Rng, ctx: &mut Ctx, regions: &mut [Rings]) {
    let mut taken: HashSet<Point> = HashSet::new();
    let (mut lo, mut hi) = (Point(u32::MAX, u32::MAX), Point(0, 0));
    for r in regions.iter() {
        for x in r.outer.iter().chain(r.inner.iter()) {
            for p in x {
                taken.insert(*p);
                lo = Point(lo.0.min(p.0), lo.1.min(p.1));
                hi = Point(hi.0.max(p.0), hi.1.max(p.1));
            }
        }
    }
    for r in regions.iter_mut() {
        for x in r.outer.iter_mut().chain(r.inner.iter_mut()) {
            if !rng.chance(1, 3) {
                continue;
            }
            let at = rng.usize(0, x.len() - 1);
            let mut out = vec![x[at]];
            for _ in 0..rng.usize(1, 3) {
                let p = Point(lo.0 + rng.below((hi.0 - lo.0) as u64 + 1) as u32, lo.1 + rng.below((hi.1 - lo.1) as u64 + 1) as u32);
                if taken.insert(p) {
                    out.push(p);
                }
            }
            if out.len() < 2 {
                continue;
            }
            let mut path = out.clone();
            path.extend(out[..out.len() - 1].iter().rev());
            x.splice(at..at + 1, path);
            ctx.ev("out-and-back lines added to rings", 1);
            if rng.chance(1, 3) {
                *x = rotate_closed(rng, x);
            }
        }
    }
}

/// How a region's faces are grouped into rings.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Grouping {
    Cells,
    Whole,
    Clusters,
    Mixed,
}

fn faces_of_regions(map: &Map) -> Vec<Vec<usize>> {
    let mut of = vec![vec![]; map.n_regions];
    for (i, a) in map.assign.iter().enumerate() {
        if let Some(r) = *a {
            of[r].push(i);
        }
    }
    of
}

pub fn present(rng: &mut Rng, map: &Map, grouping: Grouping, splice: bool) -> Option<Presentation> {
    let mut p = Presentation { regions: vec![], spliced: 0, clusters: 0, holes: 0 };
    let nested = map.part.iter().any(|&x| x > 0);
    let grouping = if nested && rng.chance(2, 3) { Grouping::Whole } else { grouping };
    for mine in faces_of_regions(map) {
        let g = if grouping == Grouping::Mixed { *rng.pick(&[Grouping::Cells, Grouping::Whole, Grouping::Clusters]) } else { grouping };
        let parts: BTreeSet<usize> = mine.iter().map(|&i| map.part[i]).collect();
        let in_parts = g == Grouping::Whole && parts.len() > 1 && rng.chance(1, 2);
        let nc = match g {
            Grouping::Cells => mine.len(),
            Grouping::Whole if in_parts => map.part.iter().max().unwrap() + 1,
            Grouping::Whole => 1,
            _ => rng.usize(1, mine.len()),
        };
        let mut clusters: Vec<Vec<&Vec<Point>>> = vec![vec![]; nc];
        for (k, &i) in mine.iter().enumerate() {
            let c = if in_parts {
                map.part[i]
            } else if nc == mine.len() {
                k
            } else {
                rng.usize(0, nc - 1)
            };
            clusters[c].push(&map.faces[i]);
        }
        let mut rings = Rings { outer: vec![], inner: vec![] };
        for c in clusters.iter().filter(|c| !c.is_empty()) {
            p.clusters += 1;
            let mut loops = trace(rng, &boundary(c));
            if splice && loops.len() > 1 && rng.chance(1, 2) {
                // join two loops of the cluster that touch in a point
                let mut first: HashMap<Point, usize> = HashMap::new();
                let mut found = None;
                'search: for (j, l) in loops.iter().enumerate() {
                    for (k, x) in l[..l.len() - 1].iter().enumerate() {
                        if let Some(&i) = first.get(x) {
                            if i < j {
                                found = Some((i, j, k));
                                break 'search;
                            }
                        }
                        first.entry(*x).or_insert(j);
                    }
                }
                if let Some((i, j, k)) = found {
                    let at = loops[j][k];
                    let lj = loops.swap_remove(j);
                    let mut turned: Vec<Point> = lj[k..lj.len() - 1].to_vec();
                    turned.extend_from_slice(&lj[..k]);
                    turned.push(at);
                    let m = loops[i].iter().position(|&x| x == at).unwrap();
                    let mut joined = loops[i][..m].to_vec();
                    joined.extend_from_slice(&turned);
                    joined.extend_from_slice(&loops[i][m + 1..]);
                    loops[i] = joined;
                    p.spliced += 1;
                }
            }
            for l in loops {
                let a = area2(&l);
                if a == 0 {
                    return None; // degenerate drawing
                }
                if a > 0 {
                    rings.outer.push(l);
                } else {
                    p.holes += 1;
                    rings.inner.push(l);
                }
            }
        }
        p.regions.push(rings);
    }
    Some(p)
}

pub fn to_region<D>(data: D, r: &Rings) -> Region<D> {
    Region {
        data,
        outer_rings: r.outer.iter().map(|x| Ring::Points(to_lib(x).into_boxed_slice())).collect(),
        inner_rings: r.inner.iter().map(|x| Ring::Points(to_lib(x).into_boxed_slice())).collect(),
    }
}

/// The same ring as edges, cut at the given points (and at its start).
pub fn cut_ring(r: &[Point], cuts: &HashSet<Point>) -> Vec<Vec<Point>> {
    let mut edges = Vec::new();
    let mut cur = vec![r[0]];
    for (i, p) in r.iter().enumerate().skip(1) {
        cur.push(*p);
        if i == r.len() - 1 || cuts.contains(p) {
            edges.push(std::mem::replace(&mut cur, vec![*p]));
        }
    }
    edges
}

pub fn edges_ring(edges: &[Vec<Point>]) -> Ring {
    Ring::Edges(edges.iter().map(|e| Edge(to_lib(e).into_boxed_slice())).collect())
}

/// Ground truth about borders, from the faces alone.
pub struct Truth {
    /// segment (smaller point first) -> regions on its two sides (sorted)
    pub sides: BTreeMap<Seg, (Option<usize>, Option<usize>)>,
    /// number of real borders at each point
    pub degree: HashMap<Point, usize>,
    /// directed border segments of each region
    pub of_region: Vec<BTreeSet<Seg>>,
    pub area2: Vec<i128>,
}

pub fn truth(map: &Map) -> Truth {
    let mut sides: BTreeMap<Seg, Vec<Option<usize>>> = BTreeMap::new();
    for (i, f) in map.faces.iter().enumerate() {
        for k in 0..f.len() {
            let (a, b) = (f[k], f[(k + 1) % f.len()]);
            let key = if a < b { (a, b) } else { (b, a) };
            sides.entry(key).or_insert_with(Vec::new).push(map.assign[i]);
        }
    }
    let mut t = Truth { sides: BTreeMap::new(), degree: HashMap::new(), of_region: vec![], area2: vec![0; map.n_regions] };
    for (k, mut v) in sides {
        while v.len() < 2 {
            v.push(None);
        }
        v.sort();
        if v[0] != v[1] {
            *t.degree.entry(k.0).or_insert(0) += 1;
            *t.degree.entry(k.1).or_insert(0) += 1;
            t.sides.insert(k, (v[0], v[1]));
        }
    }
    for mine in faces_of_regions(map) {
        let mine: Vec<&Vec<Point>> = mine.into_iter().map(|i| &map.faces[i]).collect();
        t.of_region.push(boundary(&mine));
    }
    for i in 0..map.faces.len() {
        if let Some(r) = map.assign[i] {
            t.area2[r] += map.face_area2(i);
        }
    }
    t
}

pub fn describe(map: &Map, regions: &[Rings]) -> String {
    let mut s = format!("map kind={} faces={} regions={}", map.kind, map.faces.len(), map.n_regions);
    s.push_str(&describe_rings(regions));
    s
}

pub fn describe_rings(regions: &[Rings]) -> String {
    let mut s = String::new();
    for (i, r) in regions.iter().enumerate() {
        for o in &r.outer {
            s.push_str(&format!("\nregion {} outer {}", i, crate::ctx::fmt_points(o)));
        }
        for o in &r.inner {
            s.push_str(&format!("\nregion {} inner {}", i, crate::ctx::fmt_points(o)));
        }
    }
    s
}
