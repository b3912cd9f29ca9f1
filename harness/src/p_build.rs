//! C01 (fidelity of building), C02 (one canonical edge per path),
//! C03 (cross-references), over builder inputs and chains of operations.

use crate::ctx::{fmt_points, lib, Ctx};
use crate::mesh::*;
use crate::rng::Rng;
use crate::snap::{self, area2, dedupe, Snap};
use std::collections::{HashMap, HashSet};
use topogeo::clip::{clip_topology, ClipMask};
use crate::pt::{to_lib, Point};
use topogeo::geo::{Edge, Region, Ring};
use topogeo::topology::{Topology, TopologyBuilder};

pub fn build<D>(regions: Vec<Region<D>>) -> Result<Topology<D>, String> {
    lib("building the topology", move || {
        let mut b = TopologyBuilder::<D>::new();
        for r in regions {
            b.add_region(r);
        }
        b.into_topology()
    })
}

/// One ring as handed to the builder.
#[derive(Clone, Debug)]
pub enum InRing {
    Points(Vec<Point>),
    Edges(Vec<Vec<Point>>),
}

impl InRing {
    pub fn to_ring(&self) -> Ring {
        match self {
            InRing::Points(p) => Ring::Points(to_lib(p).into_boxed_slice()),
            InRing::Edges(e) => edges_ring(e),
        }
    }
    pub fn area2(&self) -> i128 {
        match self {
            InRing::Points(p) => area2(p),
            InRing::Edges(e) => e.iter().map(|x| area2(x)).sum(),
        }
    }
    /// Points in walking order, repeats collapsed.
    pub fn path(&self) -> Vec<Point> {
        match self {
            InRing::Points(p) => dedupe(p),
            InRing::Edges(e) => {
                let all: Vec<Point> = e.iter().flat_map(|x| x.iter().cloned()).collect();
                dedupe(&all)
            }
        }
    }
}

#[derive(Clone, Debug)]
pub struct InRegion {
    pub outer: Vec<InRing>,
    pub inner: Vec<InRing>,
}

pub fn to_regions(v: &[InRegion]) -> Vec<Region<u64>> {
    v.iter()
        .enumerate()
        .map(|(i, r)| Region {
            data: tag(i),
            outer_rings: r.outer.iter().map(|x| x.to_ring()).collect(),
            inner_rings: r.inner.iter().map(|x| x.to_ring()).collect(),
        })
        .collect()
}

pub fn tag(i: usize) -> u64 {
    0x5A00_0000 + (i as u64) * 7919
}

fn rand_point(rng: &mut Rng, wide: u64) -> Point {
    match wide {
        0 => Point(rng.below(20) as u32, rng.below(20) as u32),
        1 => Point(rng.u32() >> 12, rng.u32() >> 12),
        2 => Point(rng.u32(), rng.u32()),
        _ => {
            let f = |rng: &mut Rng| *rng.pick(&[0u32, 1, u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1]);
            if rng.chance(1, 2) {
                Point(f(rng), rng.u32())
            } else {
                Point(rng.u32(), f(rng))
            }
        }
    }
}

/// Some ring of zero area.
fn flat_ring(rng: &mut Rng) -> Vec<Point> {
    let a = rand_point(rng, 1);
    let n = rng.usize(1, 5);
    let mut v: Vec<Point> = vec![a];
    match rng.below(3) {
        0 => {
            for _ in 0..n {
                v.push(Point(a.0, rng.u32() >> 2));
            }
            v.push(a);
        }
        1 => {
            // out and back along the same path
            for _ in 0..n {
                v.push(rand_point(rng, 2));
            }
            let back: Vec<Point> = v[..v.len() - 1].iter().rev().cloned().collect();
            v.extend(back);
        }
        _ => {
            v.push(a);
            v.push(a);
            v.push(a);
        }
    }
    v
}

fn with_repeats(rng: &mut Rng, r: &[Point]) -> Vec<Point> {
    let mut v = Vec::new();
    for p in r {
        v.push(*p);
        if rng.chance(1, 6) {
            v.push(*p);
            if rng.chance(1, 3) {
                v.push(*p);
            }
        }
    }
    v
}

/// A random builder input in which every edge is walked at most twice.
pub fn gen_input(rng: &mut Rng, ctx: &mut Ctx) -> Option<Vec<InRegion>> {
    let mut regions: Vec<InRegion> = Vec::new();
    if rng.chance(3, 4) {
        let o = opts(ctx);
        let map = gen_map(rng, ctx, &o);
        let p = present(rng, &map, Grouping::Mixed, true)?;
        let mut rings = if rng.chance(1, 2) { reshuffle(rng, &p.regions) } else { p.regions };
        if rng.chance(1, 4) {
            align_starts(&mut rings);
        }
        if rng.chance(1, 5) {
            add_spikes(rng, ctx, &mut rings);
        }
        // cut points shared by all rings
        let mut cuts: HashSet<Point> = HashSet::new();
        let density = rng.below(4);
        let mode = rng.below(3); // points, edges, mixed (2-point edges)
        for r in &rings {
            for x in r.outer.iter().chain(r.inner.iter()) {
                for p in x {
                    if density == 3 || rng.chance(density, 4) {
                        cuts.insert(*p);
                    }
                }
            }
        }
        for r in &rings {
            let mut conv = |rng: &mut Rng, x: &Vec<Point>| -> InRing {
                match mode {
                    0 => InRing::Points(with_repeats(rng, x)),
                    1 => {
                        let mut e = cut_ring(x, &cuts);
                        if rng.chance(1, 5) {
                            let k = rng.usize(0, e.len() - 1);
                            let q = e[k][0];
                            e.insert(k, if rng.chance(1, 2) { vec![q, q] } else { vec![q] });
                        }
                        InRing::Edges(e)
                    }
                    _ => {
                        if rng.chance(1, 2) {
                            InRing::Points(with_repeats(rng, x))
                        } else {
                            InRing::Edges(x.windows(2).map(|w| w.to_vec()).collect())
                        }
                    }
                }
            };
            regions.push(InRegion {
                outer: r.outer.iter().map(|x| conv(rng, x)).collect(),
                inner: r.inner.iter().map(|x| conv(rng, x)).collect(),
            });
        }
    } else {
        // unrelated random polygons, possibly crossing themselves
        let n = rng.usize(1, 5);
        let mut seen: HashMap<(Point, Point), u32> = HashMap::new();
        for _ in 0..n {
            let mut reg = InRegion { outer: vec![], inner: vec![] };
            for _ in 0..rng.usize(1, 3) {
                let wide = rng.below(4);
                let k = rng.usize(3, 12);
                let mut v: Vec<Point> = (0..k).map(|_| rand_point(rng, wide)).collect();
                v.dedup();
                let f = v[0];
                v.push(f);
                v.dedup();
                if v.len() < 4 || area2(&v) == 0 {
                    continue;
                }
                let mut ok = true;
                for w in v.windows(2) {
                    let key = if w[0] < w[1] { (w[0], w[1]) } else { (w[1], w[0]) };
                    let c = seen.entry(key).or_insert(0);
                    *c += 1;
                    ok &= *c <= 2;
                }
                if !ok {
                    return None;
                }
                if rng.chance(2, 3) {
                    reg.outer.push(InRing::Points(v));
                } else {
                    reg.inner.push(InRing::Points(v));
                }
            }
            regions.push(reg);
        }
    }
    // rings and regions that must vanish
    for r in regions.iter_mut() {
        while rng.chance(1, 5) {
            let f = flat_ring(rng);
            let f = if rng.chance(1, 2) { InRing::Points(f) } else { InRing::Edges(vec![f]) };
            let list = if rng.chance(1, 2) { &mut r.outer } else { &mut r.inner };
            let k = rng.usize(0, list.len());
            list.insert(k, f);
            ctx.ev("zero-area rings offered", 1);
        }
    }
    if rng.chance(1, 4) {
        let k = rng.usize(0, regions.len());
        let outer = if rng.chance(1, 2) { vec![InRing::Points(flat_ring(rng))] } else { vec![] };
        // its inner ring would be valid, but the region has no ground
        let q = rand_point(rng, 1);
        let inner = vec![InRing::Points(vec![q, Point(q.0 + 3, q.1), Point(q.0, q.1 + 4), q])];
        regions.insert(k, InRegion { outer, inner });
        ctx.ev("regions without ground offered", 1);
    }
    for r in &regions {
        for x in r.outer.iter().chain(r.inner.iter()) {
            ctx.input.points(&x.path());
            if let InRing::Edges(e) = x {
                ctx.input.u64(e.len() as u64);
            }
        }
    }
    ctx.say(|| {
        let mut s = String::new();
        for (i, r) in regions.iter().enumerate() {
            s.push_str(&format!("region {}: outer {:?} inner {:?}\n", i, r.outer, r.inner));
        }
        s
    });
    Some(regions)
}

/// The builder precondition: no edge walked more than twice.
fn at_most_twice(regions: &[InRegion]) -> bool {
    let mut n: HashMap<Vec<Point>, u32> = HashMap::new();
    for r in regions {
        if !r.outer.iter().any(|x| x.area2() != 0) {
            continue;
        }
        for x in r.outer.iter().chain(r.inner.iter()) {
            if x.area2() == 0 {
                continue;
            }
            let edges: Vec<Vec<Point>> = match x {
                InRing::Points(p) => p.windows(2).map(|w| w.to_vec()).collect(),
                InRing::Edges(e) => e.clone(),
            };
            for mut e in edges {
                if e.len() < 2 || (e.len() == 2 && e[0] == e[1]) {
                    continue;
                }
                let mut rev = e.clone();
                rev.reverse();
                if rev < e {
                    e = rev;
                }
                let c = n.entry(e).or_insert(0);
                *c += 1;
                if *c > 2 {
                    return false;
                }
            }
        }
    }
    true
}

fn check_fidelity(ctx: &mut Ctx, input: &[InRegion], data: &[u64], s: &Snap) -> Result<(), String> {
    let expect: Vec<(usize, &InRegion)> = input.iter().enumerate().filter(|(_, r)| r.outer.iter().any(|x| x.area2() != 0)).collect();
    if expect.len() != s.regions.len() {
        return Err(format!("{} regions have ground, topology has {} regions", expect.len(), s.regions.len()));
    }
    for (k, (i, r)) in expect.iter().enumerate() {
        if data[k] != tag(*i) {
            return Err(format!("region {} has the data of another region", k));
        }
        for (list, got, name) in [(&r.outer, &s.regions[k].outer, "outer"), (&r.inner, &s.regions[k].inner, "inner")] {
            let want: Vec<&InRing> = list.iter().filter(|x| x.area2() != 0).collect();
            if want.len() != got.len() {
                return Err(format!("region {}: {} {} rings with area, topology has {}", i, want.len(), name, got.len()));
            }
            for (a, (w, g)) in want.iter().zip(got.iter()).enumerate() {
                let pts = dedupe(&s.ring_points(g).map_err(|e| format!("region {} {} ring {}: {}", i, name, a, e))?);
                ctx.ev("ring points walked back", pts.len() as u64);
                if pts != w.path() {
                    return Err(format!("region {} {} ring {}: given {} but walks {}", i, name, a, fmt_points(&w.path()), fmt_points(&pts)));
                }
            }
        }
    }
    Ok(())
}

pub fn c01(rng: &mut Rng, ctx: &mut Ctx) -> Result<(), String> {
    let input = match gen_input(rng, ctx) {
        Some(i) if at_most_twice(&i) => i,
        _ => {
            ctx.ev("skipped (degenerate drawing)", 1);
            return Ok(());
        }
    };
    let t = build(to_regions(&input))?;
    let s = snap::walk(&t)?;
    let data: Vec<u64> = t.regions.iter().map(|r| r.data).collect();
    ctx.nontrivial = s.regions.len() >= 1 && s.edges.len() >= 4;
    ctx.ev("regions built", s.regions.len() as u64);
    s.digest(&mut ctx.output);
    check_fidelity(ctx, &input, &data, &s)
}

/// A closed path from p that encloses no area.
fn flat_loop(rng: &mut Rng, p: Point) -> Vec<Point> {
    let mut v = vec![p];
    match rng.below(3) {
        // back and forth along a line
        0 => {
            for _ in 0..rng.usize(1, 5) {
                v.push(Point(p.0 + rng.below(50) as u32, p.1));
            }
        }
        1 => {
            for _ in 0..rng.usize(1, 5) {
                v.push(Point(p.0, p.1 + rng.below(50) as u32));
            }
        }
        // a figure of eight, one lobe as big as the other
        _ => {
            let (a, b) = (1 + rng.below(30) as u32, rng.below(30) as u32);
            let (c, d) = (rng.below(30) as u32, 1 + rng.below(30) as u32);
            v.push(Point(p.0 + a, p.1 + b));
            v.push(Point(p.0 + c, p.1 + d));
            v.push(p);
            v.push(Point(p.0 - c, p.1 - d));
            v.push(Point(p.0 - a, p.1 - b));
            if rng.chance(1, 2) {
                v.truncate(4);
                v.push(Point(p.0 - a, p.1 - b));
                v.push(Point(p.0 - c, p.1 - d));
                v.swap(4, 5);
            }
        }
    }
    v.push(p);
    v.dedup();
    v
}

/// Two rings that both contain a closed edge without area, each walking it its
/// own way.
fn flat_loop_pair(rng: &mut Rng, ctx: &mut Ctx) -> Option<Vec<InRegion>> {
    let p = Point(1000, 1000);
    let l = flat_loop(rng, p);
    if l.len() < 3 || area2(&l) != 0 {
        return None;
    }
    let mut rev = l.clone();
    rev.reverse();
    let a = InRing::Edges(vec![vec![p, Point(3000, 1000), Point(3000, 3000), p], l.clone()]);
    let second = if rng.chance(1, 2) { rev } else { l.clone() };
    let mut e = vec![vec![Point(0, 3000), Point(0, 1000), p], second, vec![p, Point(0, 3000)]];
    if rng.chance(1, 2) {
        e.rotate_left(1);
    }
    ctx.ev("closed edges without area, walked twice", 1);
    let mut regs = vec![InRegion { outer: vec![a], inner: vec![] }, InRegion { outer: vec![InRing::Edges(e)], inner: vec![] }];
    if rng.chance(1, 2) {
        regs.reverse();
    }
    ctx.input.points(&l);
    ctx.say(|| format!("{:?}", regs));
    Some(regs)
}

/// C02 monitor.
pub fn check_canonical(ctx: &mut Ctx, s: &Snap) -> Result<(), String> {
    let mut seen: HashMap<Vec<Point>, usize> = HashMap::new();
    for (i, e) in s.edges.iter().enumerate() {
        ctx.ev("edges checked", 1);
        if e.len() < 2 {
            return Err(format!("edge {} has {} points", i, e.len()));
        }
        let (f, l) = (e[0], e[e.len() - 1]);
        if f > l {
            return Err(format!("edge {} runs from {:?} to the smaller {:?}", i, f, l));
        }
        if f == l {
            ctx.ev("closed edges", 1);
            if area2(e) < 0 {
                return Err(format!("closed edge {} runs counter-clockwise", i));
            }
        }
        let mut rev = e.clone();
        rev.reverse();
        let key = std::cmp::min(e.clone(), rev);
        if let Some(j) = seen.insert(key, i) {
            return Err(format!("edges {} and {} are the same path {}", j, i, fmt_points(e)));
        }
    }
    let mut uses = vec![0u32; s.edges.len()];
    for r in &s.regions {
        for (_, _, ring) in r.rings() {
            for &(e, _) in ring {
                uses[e] += 1;
            }
            s.ring_points(ring)?;
        }
    }
    ctx.ev("edges shared by two rings", uses.iter().filter(|&&u| u == 2).count() as u64);
    if uses.iter().any(|&u| u == 2) {
        ctx.nontrivial = true;
    }
    Ok(())
}

pub fn c02(rng: &mut Rng, ctx: &mut Ctx) -> Result<(), String> {
    match rng.below(3) {
        0 => {
            let drawn = if rng.chance(1, 4) { flat_loop_pair(rng, ctx) } else { gen_input(rng, ctx) };
            let input = match drawn {
                Some(i) if at_most_twice(&i) => i,
                _ => return Ok(()),
            };
            let t = build(to_regions(&input))?;
            let s = snap::walk(&t)?;
            s.digest(&mut ctx.output);
            check_canonical(ctx, &s)?;
            let data: Vec<u64> = t.regions.iter().map(|r| r.data).collect();
            check_fidelity(ctx, &input, &data, &s)
        }
        1 => {
            // islands in holes: the same closed path, both directions, as one
            // multi-point edge
            let n = rng.usize(3, 20);
            let c = Point(1 << 20, 1 << 20);
            let mut regs = Vec::new();
            let mut ring: Vec<Point> = Vec::new();
            for k in 0..n {
                let a = (k as f64) / (n as f64) * std::f64::consts::PI * 2.0;
                let rad = 1000.0 + rng.below(100_000) as f64;
                ring.push(Point((c.0 as f64 + rad * a.cos()) as u32, (c.1 as f64 + rad * a.sin()) as u32));
            }
            ring.dedup();
            if ring.len() > 1 && ring[0] == ring[ring.len() - 1] {
                ring.pop();
            }
            if ring.len() < 3 {
                return Ok(());
            }
            let f = ring[0];
            ring.push(f);
            if area2(&ring) == 0 {
                return Ok(());
            }
            let mut rev = ring.clone();
            rev.reverse();
            let mut isl = ring.clone();
            if rng.chance(1, 2) {
                isl = rev.clone();
            }
            let hole = if rng.chance(1, 2) { rev } else { ring.clone() };
            let far = vec![Point(0, 0), Point(4 << 20, 0), Point(4 << 20, 4 << 20), Point(0, 4 << 20), Point(0, 0)];
            regs.push(InRegion { outer: vec![InRing::Edges(vec![far])], inner: vec![InRing::Edges(vec![hole.clone()])] });
            regs.push(InRegion { outer: vec![InRing::Edges(vec![isl.clone()])], inner: vec![] });
            if rng.chance(1, 2) {
                regs.reverse();
            }
            ctx.input.points(&isl);
            ctx.input.points(&hole);
            ctx.say(|| format!("island {} hole {}", fmt_points(&isl), fmt_points(&hole)));
            let t = build(to_regions(&regs))?;
            let s = snap::walk(&t)?;
            s.digest(&mut ctx.output);
            ctx.ev("island/hole pairs", 1);
            if s.edges.len() != 2 {
                return Err(format!("outline and shared island border must be 2 edges, topology has {}", s.edges.len()));
            }
            check_canonical(ctx, &s)?;
            let data: Vec<u64> = t.regions.iter().map(|r| r.data).collect();
            check_fidelity(ctx, &regs, &data, &s)
        }
        _ => {
            let o = opts(ctx);
            let map = gen_map(rng, ctx, &o);
            let p = match present(rng, &map, Grouping::Mixed, true) {
                Some(p) => p,
                None => return Ok(()),
            };
            let rings = reshuffle(rng, &p.regions);
            ctx.say(|| describe(&map, &rings));
            let t = build(rings.iter().enumerate().map(|(i, r)| to_region(tag(i), r)).collect())?;
            let s = snap::walk(&t)?;
            check_canonical(ctx, &s)?;
            let n = lib("normalising", || topogeo::normalize(&t))?;
            let s = snap::walk(&n)?;
            s.digest(&mut ctx.output);
            ctx.ev("normalised topologies", 1);
            check_canonical(ctx, &s)
        }
    }
}

pub fn gen_mask(rng: &mut Rng, s: &Snap) -> ClipMask {
    // near the map: on a vertex, between vertices, outside, at the extremes
    let pts: Vec<Point> = s.edges.iter().flat_map(|e| e.iter().cloned()).collect();
    let horiz = rng.chance(1, 2);
    let v = |p: &Point| if horiz { p.0 } else { p.1 };
    let c = if pts.is_empty() {
        rng.u32()
    } else {
        let a = v(rng.pick(&pts));
        let b = v(rng.pick(&pts));
        match rng.below(8) {
            0 | 1 => a,
            2 => a.saturating_add(1),
            3 => a.saturating_sub(1),
            4 => *rng.pick(&[0u32, u32::MAX, 1 << 31]),
            _ => ((a as u64 + b as u64) / 2) as u32,
        }
    };
    match (horiz, rng.chance(1, 2)) {
        (true, true) => ClipMask::MinX(c),
        (true, false) => ClipMask::MaxX(c),
        (false, true) => ClipMask::MinY(c),
        (false, false) => ClipMask::MaxY(c),
    }
}

pub fn mask_name(m: &ClipMask) -> String {
    match m {
        ClipMask::MinX(v) => format!("MinX({})", v),
        ClipMask::MaxX(v) => format!("MaxX({})", v),
        ClipMask::MinY(v) => format!("MinY({})", v),
        ClipMask::MaxY(v) => format!("MaxY({})", v),
    }
}

pub fn gen_threshold(rng: &mut Rng) -> u64 {
    match rng.below(8) {
        0 => 0,
        1 => 1,
        2 => u64::MAX,
        3 => rng.below(100),
        _ => rng.u64() >> rng.below(64),
    }
}

/// Runs a chain of operations, checking cross-references after each step and
/// once more at the end for the topologies kept alive.
pub fn chain<D: Clone, F: Fn(usize) -> D>(rng: &mut Rng, ctx: &mut Ctx, mk: F) -> Result<(), String> {
    let o = opts(ctx);
    let map = gen_map(rng, ctx, &o);
    let p = match present(rng, &map, Grouping::Mixed, true) {
        Some(p) => p,
        None => return Ok(()),
    };
    let mut rings = reshuffle(rng, &p.regions);
    if rng.chance(1, 4) {
        align_starts(&mut rings);
    }
    if rng.chance(1, 4) {
        add_spikes(rng, ctx, &mut rings);
    }
    ctx.say(|| describe(&map, &rings));
    let mut cur = build(rings.iter().enumerate().map(|(i, r)| to_region(mk(i), r)).collect())?;
    let (mut s, n) = snap::full(&cur).map_err(|e| format!("after building: {}", e))?;
    ctx.ev("cross-references checked", n);
    ctx.nontrivial = s.regions.len() > 1;
    let mut kept: Vec<(Topology<D>, Snap, String)> = Vec::new();
    let steps = rng.usize(1, 5);
    let mut clipped = false;
    let mut simplified = false;
    for _ in 0..steps {
        let op = rng.below(3);
        let name;
        match op {
            0 if !clipped && !simplified => {
                name = "normalise".to_string();
                let next = lib("normalising", || topogeo::normalize(&cur))?;
                kept.push((cur, s, format!("input of {}", name)));
                cur = next;
                ctx.ev("normalise steps", 1);
            }
            1 | 0 => {
                let m = gen_mask(rng, &s);
                name = format!("clip {}", mask_name(&m));
                let next = lib("clipping", || clip_topology(&cur, &m))?;
                if next.regions.len() < cur.regions.len() {
                    ctx.ev("clips that dropped regions", 1);
                }
                kept.push((cur, s, format!("input of {}", name)));
                cur = next;
                clipped = true;
                ctx.ev("clip steps", 1);
            }
            _ => {
                let th = gen_threshold(rng);
                name = format!("simplify {}", th);
                cur = lib("simplifying", move || topogeo::simplify(cur, th))?;
                simplified = true;
                ctx.ev("simplify steps", 1);
            }
        }
        ctx.say(|| format!("step: {}", name));
        let r = snap::full(&cur).map_err(|e| format!("after {}: {}", name, e))?;
        s = r.0;
        ctx.ev("cross-references checked", r.1);
    }
    // moving the Topology value itself must not matter either
    let boxed = Box::new(cur);
    snap::full(&boxed).map_err(|e| format!("after moving the topology: {}", e))?;
    s.digest(&mut ctx.output);
    for (t, before, name) in kept.iter() {
        let (now, n) = snap::full(t).map_err(|e| format!("{}, at the end: {}", name, e))?;
        ctx.ev("cross-references checked", n);
        if &now != before {
            return Err(format!("{} was modified", name));
        }
    }
    Ok(())
}

#[derive(Clone)]
#[repr(align(64))]
pub struct Wide(#[allow(dead_code)] [u64; 8]);

pub fn c03(rng: &mut Rng, ctx: &mut Ctx) -> Result<(), String> {
    match rng.below(6) {
        0 => chain(rng, ctx, |_| ()),
        1 => chain(rng, ctx, |i| i as u8),
        2 => chain(rng, ctx, |i| format!("region {}", i)),
        3 => chain(rng, ctx, |i| [i as u64; 9]),
        4 => chain(rng, ctx, |i| Wide([i as u64; 8])),
        _ => chain(rng, ctx, |i| i as u64),
    }
}

#[allow(dead_code)]
pub fn edge(points: Vec<Point>) -> Edge {
    Edge(to_lib(&points).into_boxed_slice())
}
