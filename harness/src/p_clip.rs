//! C11 - C14: clipping.

use crate::ctx::{fmt_points, lib, Ctx};
use crate::mesh::*;
use crate::p_build::{gen_mask, gen_threshold, mask_name};
use crate::p_norm::{normalise, prepare};
use crate::rng::Rng;
use crate::snap::{self, area2, dedupe, Snap};
use std::collections::{BTreeSet, HashMap};
use topogeo::clip::clip_topology;
use topogeo::clip::edge::clip_edge;
use topogeo::clip::ClipMask;
use crate::pt::{own, to_lib, to_own, Point};
use topogeo::topology::Topology;

/// The mask as a half plane u >= 0, independent of the library's own test.
#[derive(Clone, Copy, Debug)]
pub struct Half {
    y_axis: bool,
    flip: bool,
    c: i128,
}

impl Half {
    pub fn new(m: &ClipMask) -> Half {
        match m {
            ClipMask::MinX(c) => Half { y_axis: false, flip: false, c: *c as i128 },
            ClipMask::MaxX(c) => Half { y_axis: false, flip: true, c: *c as i128 },
            ClipMask::MinY(c) => Half { y_axis: true, flip: false, c: *c as i128 },
            ClipMask::MaxY(c) => Half { y_axis: true, flip: true, c: *c as i128 },
        }
    }
    /// Distance from the line, positive inside.
    pub fn u(&self, p: &Point) -> i128 {
        let a = if self.y_axis { p.1 } else { p.0 } as i128;
        if self.flip {
            self.c - a
        } else {
            a - self.c
        }
    }
    /// Place along the line.
    pub fn v(&self, p: &Point) -> i128 {
        (if self.y_axis { p.0 } else { p.1 }) as i128
    }
    fn sign(&self) -> i128 {
        if self.y_axis == self.flip {
            1
        } else {
            -1
        }
    }
    /// Is `x` where the segment a - b crosses the line (within one unit)?
    pub fn is_crossing(&self, x: &Point, a: &Point, b: &Point) -> bool {
        let (ua, ub) = (self.u(a), self.u(b));
        if self.u(x) != 0 || (ua > 0) == (ub > 0) || ua == 0 || ub == 0 {
            return false;
        }
        let (va, vb, vx) = (self.v(a), self.v(b), self.v(x));
        if vx < va.min(vb) || vx > va.max(vb) {
            return false;
        }
        // exact place: va + ua * (vb - va) / (ua - ub)
        let num = (vx - va) * (ua - ub) - ua * (vb - va);
        num.abs() < (ua - ub).abs()
    }
    /// Exact 2 * signed area of the part of a closed ring inside, rounded, the
    /// allowance for rounding the crossings, and the number of crossings.
    pub fn clipped_area2(&self, ring: &[Point]) -> (i128, i128, u64) {
        let (mut a, mut tol, mut n) = (0i128, 0i128, 0u64);
        for w in ring.windows(2) {
            let (u1, u2) = (self.u(&w[0]), self.u(&w[1]));
            let dv = self.v(&w[1]) - self.v(&w[0]);
            if u1 >= 0 && u2 >= 0 {
                a += (u1 + u2) * dv;
            } else if u1 > 0 && u2 < 0 {
                a += u1 * u1 * dv / (u1 - u2);
                tol += u1 + 1;
                n += 1;
            } else if u1 < 0 && u2 > 0 {
                a += u2 * u2 * dv / (u2 - u1);
                tol += u2 + 1;
                n += 1;
            }
        }
        (a * self.sign(), tol, n)
    }
}

enum Token {
    Exact(Point),
    Cross(Point, Point),
}

/// What is left of a path, as a list of expected points.
fn expected(pts: &[Point], h: &Half) -> Vec<Token> {
    let mut out = Vec::new();
    if pts.len() < 2 {
        return out;
    }
    let at = |p: &Point, q: &Point| -> Token {
        // p is not strictly inside, q is
        if h.u(p) == 0 {
            Token::Exact(*p)
        } else {
            Token::Cross(*p, *q)
        }
    };
    for i in 0..pts.len() {
        if h.u(&pts[i]) <= 0 {
            continue;
        }
        if i > 0 && h.u(&pts[i - 1]) <= 0 {
            out.push(at(&pts[i - 1], &pts[i]));
        }
        out.push(Token::Exact(pts[i]));
        if i + 1 < pts.len() && h.u(&pts[i + 1]) <= 0 {
            out.push(at(&pts[i + 1], &pts[i]));
        }
    }
    out
}

fn check_path(ctx: &mut Ctx, pts: &[Point], out: &[Point], h: &Half) -> Result<(), String> {
    let want = expected(pts, h);
    let got = dedupe(out);
    let mut k = 0;
    for t in &want {
        let fits = |p: &Point| match t {
            Token::Exact(q) => p == q,
            Token::Cross(a, b) => h.is_crossing(p, a, b),
        };
        if k < got.len() && fits(&got[k]) {
            k += 1;
        } else if k > 0 && fits(&got[k - 1]) {
            // same place as the point before it
        } else {
            return Err(match t {
                Token::Exact(q) => format!("point {} should be {:?}, is {:?}", k, q, got.get(k)),
                Token::Cross(a, b) => format!("point {} should be where {:?} - {:?} crosses the line, is {:?}", k, a, b, got.get(k)),
            });
        }
        match t {
            Token::Exact(_) => ctx.ev("kept points matched", 1),
            Token::Cross(..) => ctx.ev("crossings matched", 1),
        }
    }
    if k != got.len() {
        return Err(format!("unexpected point {:?}", got[k]));
    }
    Ok(())
}

fn gen_path(rng: &mut Rng, ctx: &mut Ctx) -> Vec<Point> {
    let max = if ctx.small { 8 } else if rng.chance(1, 20) { 200 } else { 12 };
    let n = if ctx.large { rng.usize(66_000, 200_000) } else { rng.usize(0, max) };
    if ctx.large {
        ctx.ev("paths of more than 65536 points", 1);
    }
    let span: u64 = *rng.pick(&[2u64, 4, 10, 100, 1 << 16, 1 << 31, u32::MAX as u64, u32::MAX as u64]);
    let off = |rng: &mut Rng| -> u64 {
        let room = u32::MAX as u64 - span;
        *rng.pick(&[0, room, room / 2])
    };
    let (ox, oy) = (off(rng), off(rng));
    let mut v = Vec::new();
    for _ in 0..n {
        let c = |rng: &mut Rng| match rng.below(6) {
            0 => 0,
            1 => span,
            2 => span / 2,
            _ => rng.below(span + 1),
        };
        v.push(Point((ox + c(rng)) as u32, (oy + c(rng)) as u32));
    }
    if n > 2 && rng.chance(1, 3) {
        let f = v[0];
        v.push(f);
    }
    v
}

pub fn c11(rng: &mut Rng, ctx: &mut Ctx) -> Result<(), String> {
    let pts = gen_path(rng, ctx);
    let s = Snap { edges: vec![pts.clone()], regions: vec![] };
    let m = gen_mask(rng, &s);
    ctx.input.points(&pts);
    ctx.input.str(&mask_name(&m));
    ctx.say(|| format!("path {} mask {}", fmt_points(&pts), mask_name(&m)));
    let h = Half::new(&m);
    let given = to_lib(&pts);
    let out = to_own(&lib("clipping a path", || clip_edge(&given, &m))?);
    ctx.output.points(&out);
    ctx.nontrivial = pts.iter().any(|p| h.u(p) > 0) && pts.iter().any(|p| h.u(p) <= 0);
    check_path(ctx, &pts, &out, &h).map_err(|e| format!("{}: path {} became {}: {}", mask_name(&m), fmt_points(&pts), fmt_points(&out), e))?;
    ctx.ev("paths clipped", 1);
    // the mask itself, asked directly
    for w in pts.windows(2).take(50) {
        let want = match h.u(&w[0]) {
            0 => "OnEdge",
            u if u > 0 => "Inside",
            _ => "Outside",
        };
        let got = lib("ClipMask::test", || format!("{:?}", m.test(&w[0].lib())))?;
        if got != want {
            return Err(format!("{}: {:?} is called {}, should be {}", mask_name(&m), w[0], got, want));
        }
        if h.u(&w[0]) < 0 && h.u(&w[1]) > 0 {
            for (a, b) in [(&w[0], &w[1]), (&w[1], &w[0])] {
                let p = own(&lib("ClipMask::intersect", || m.intersect(&a.lib(), &b.lib()))?);
                if !h.is_crossing(&p, a, b) {
                    return Err(format!("{}: {:?} - {:?} is said to cross the line at {:?}", mask_name(&m), a, b, p));
                }
                ctx.ev("mask crossings asked directly", 1);
            }
        }
    }
    for w in pts.windows(2) {
        let (a, b) = (h.u(&w[0]), h.u(&w[1]));
        if (a == 0) != (b == 0) {
            ctx.ev("segments touching the line", 1);
        } else if a == 0 && b == 0 {
            ctx.ev("segments along the line", 1);
        }
    }
    Ok(())
}

pub fn same_cycle(a: &[Point], b: &[Point]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    if a.is_empty() {
        return true;
    }
    let n = a.len();
    (0..n).any(|k| b[k] == a[0] && (0..n).all(|i| a[i] == b[(k + i) % n]))
}

/// Points of a closed ring that satisfy f, cyclically without repeats.
fn inside_cycle<F: Fn(&Point) -> bool>(ring: &[Point], f: F) -> Vec<Point> {
    let mut v: Vec<Point> = ring[..ring.len() - 1].iter().filter(|p| f(p)).cloned().collect();
    v.dedup();
    while v.len() > 1 && v[0] == v[v.len() - 1] {
        v.pop();
    }
    v
}

pub type RingId = (usize, bool, usize);
type Plan = (bool, usize, Vec<Point>, i128, i128, Vec<Point>, bool, (BTreeSet<Point>, Vec<(Point, Point)>));

/// The cycle from its smallest point on.
fn from_least(c: &[Point]) -> Vec<Point> {
    let k = (0..c.len()).min_by_key(|&i| (c[i], c[(i + 1) % c.len()])).unwrap_or(0);
    c[k..].iter().chain(&c[..k]).cloned().collect()
}

/// Compares a clipped topology with its input; returns which output ring each
/// input ring became.
pub fn check_clip(ctx: &mut Ctx, s: &Snap, sdata: &[u64], o: &Snap, odata: &[u64], h: &Half) -> Result<Option<HashMap<RingId, RingId>>, String> {
    let mut ambiguous = false;
    let mut map = HashMap::new();
    let mut oi = 0;
    for (ri, r) in s.regions.iter().enumerate() {
        let there = oi < o.regions.len() && odata.get(oi) == sdata.get(ri);
        let mut must_stay = false;
        let mut ring_plan = Vec::new();
        for (inner, k, ring) in r.rings() {
            let pts = s.ring_points(ring)?;
            let (a, tol, n) = h.clipped_area2(&pts);
            let cyc = inside_cycle(&pts, |p| h.u(p) > 0);
            ctx.ev("rings compared", 1);
            if n > 0 {
                ctx.ev("rings cut by the line", 1);
            }
            let must = a.abs() > tol && !cyc.is_empty();
            if must && !inner {
                must_stay = true;
            }
            let meets = (
                pts.iter().filter(|p| h.u(p) == 0).cloned().collect::<BTreeSet<Point>>(),
                pts.windows(2).filter(|w| (h.u(&w[0]) > 0) != (h.u(&w[1]) > 0)).map(|w| (w[0], w[1])).collect::<Vec<_>>(),
            );
            ring_plan.push((inner, k, pts, a, tol, cyc, must, meets));
        }
        if !there {
            if must_stay {
                return Err(format!("region {} is gone although an outer ring has 2*area left inside", ri));
            }
            ctx.ev("regions gone", 1);
            continue;
        }
        let or = &o.regions[oi];
        if or.outer.is_empty() {
            return Err(format!("region {} is kept without an outer ring", ri));
        }
        for inner in [false, true] {
            let list = if inner { &or.inner } else { &or.outer };
            let kind = if inner { "inner" } else { "outer" };
            let plan: Vec<&Plan> = ring_plan.iter().filter(|p| p.0 == inner).collect();
            let mut ops = Vec::new();
            for r in list.iter() {
                ops.push(o.ring_points(r).map_err(|e| format!("region {} after clipping: {}", ri, e))?);
            }
            // is output ring `op` what is left of an input ring?
            let fits = |p: &Plan, op: &Vec<Point>| -> Result<u64, String> {
                let (_, k, pts, a, tol, cyc, _, meets) = p;
                let name = format!("region {} {} ring {}", ri, kind, k);
                if cyc.is_empty() {
                    return Err(format!("{} has no point inside", name));
                }
                if !same_cycle(&inside_cycle(op, |p| h.u(p) > 0), cyc) {
                    return Err(format!("{}: its points inside are {} but the clipped ring is {}", name, fmt_points(cyc), fmt_points(op)));
                }
                let got = area2(op);
                if got == 0 {
                    return Err(format!("{} is kept with no area", name));
                }
                if (got - a).abs() > *tol {
                    return Err(format!("{}: 2*area inside is {} but the clipped ring has {} (rounding allows {}): {} became {}", name, a, got, tol, fmt_points(pts), fmt_points(op)));
                }
                let mut on_line = 0;
                for p in op {
                    if h.u(p) < 0 {
                        return Err(format!("{}: {:?} is outside the mask", name, p));
                    }
                    if h.u(p) == 0 {
                        if !(meets.0.contains(p) || meets.1.iter().any(|w| h.is_crossing(p, &w.0, &w.1))) {
                            return Err(format!("{}: {:?} is on the line where the ring does not meet it", name, p));
                        }
                        on_line += 1;
                    }
                }
                Ok(on_line)
            };
            // ways[i][j]: ways to explain output rings j.. by input rings i..
            let (n, m) = (plan.len(), ops.len());
            if n * m > 10_000 {
                // many rings: in order, if that explains them all
                let (mut j, mut pairs) = (0, Vec::new());
                for p in &plan {
                    match ops.get(j).and_then(|op| fits(p, op).ok()) {
                        Some(on_line) => {
                            pairs.push((p.1, j, on_line));
                            j += 1;
                        }
                        None if p.6 => break,
                        None => {}
                    }
                }
                if j == m && plan.iter().filter(|p| p.6).all(|p| pairs.binary_search_by_key(&p.1, |x| x.0).is_ok()) {
                    let mut seen = BTreeSet::new();
                    if plan.iter().any(|p| !p.5.is_empty() && !seen.insert(from_least(&p.5))) {
                        ctx.ev("regions whose rings match in several ways", 1);
                        ambiguous = true;
                    }
                    ctx.ev("rings gone", (n - m) as u64);
                    for (k, j, on_line) in pairs {
                        ctx.ev("clipped areas compared", 1);
                        ctx.ev("points on the line explained", on_line);
                        map.insert((ri, inner, k), (oi, inner, j));
                    }
                    continue;
                }
            }
            let ok: Vec<Vec<Option<u64>>> = plan.iter().map(|p| ops.iter().map(|op| fits(p, op).ok()).collect()).collect();
            let mut ways = vec![vec![0u32; m + 1]; n + 1];
            ways[n][m] = 1;
            for i in (0..n).rev() {
                for j in (0..m + 1).rev() {
                    let mut w = if plan[i].6 { 0 } else { ways[i + 1][j] };
                    if j < m && ok[i][j].is_some() {
                        w = w.saturating_add(ways[i + 1][j + 1]);
                    }
                    ways[i][j] = w;
                }
            }
            if ways[0][0] == 0 {
                // say why, walking along as far as possible
                let (mut i, mut j) = (0, 0);
                while i < n {
                    if j < m && ok[i][j].is_some() {
                        i += 1;
                        j += 1;
                    } else if !plan[i].6 {
                        i += 1;
                    } else {
                        let why = if j < m { fits(plan[i], &ops[j]).err().unwrap_or_default() } else { String::from("no ring is left for it") };
                        return Err(format!("region {} {} ring {} has 2*area {} inside: {}", ri, kind, plan[i].1, plan[i].3, why));
                    }
                }
                let why = if j < m { fmt_points(&ops[j]) } else { String::from("rings do not match up") };
                let reason = plan.iter().filter_map(|p| ops.get(j).and_then(|op| fits(p, op).err())).filter(|e| !e.contains("no point inside")).next().unwrap_or_default();
                return Err(format!("region {} has {} {} rings after clipping; this one is not explained: {} ({})", ri, m, kind, why, reason));
            }
            if ways[0][0] > 1 {
                ctx.ev("regions whose rings match in several ways", 1);
                ambiguous = true;
            }
            let (mut i, mut j) = (0, 0);
            while i < n {
                if j < m && ok[i][j].is_some() && ways[i + 1][j + 1] > 0 {
                    ctx.ev("clipped areas compared", 1);
                    ctx.ev("points on the line explained", ok[i][j].unwrap());
                    map.insert((ri, inner, plan[i].1), (oi, inner, j));
                    i += 1;
                    j += 1;
                } else {
                    ctx.ev("rings gone", 1);
                    i += 1;
                }
            }
        }
        oi += 1;
    }
    if oi != o.regions.len() {
        return Err(format!("{} regions after clipping, {} of them explained by order and data", o.regions.len(), oi));
    }
    Ok(if ambiguous { None } else { Some(map) })
}

fn data_of(t: &Topology<u64>) -> Vec<u64> {
    t.regions.iter().map(|r| r.data).collect()
}

/// A topology to clip: as built, normalised, already clipped or simplified.
fn subject(rng: &mut Rng, ctx: &mut Ctx, may_simplify: bool) -> Result<Option<Topology<u64>>, String> {
    let mut o = opts(ctx);
    // A hole and an outline given as one ring: whether "outer" or "inner", such
    // a ring has ground of either sign, and no whole-region area follows from it.
    o.no_splice = !may_simplify;
    let p = match prepare(rng, ctx, &o)? {
        Some(p) => p,
        None => return Ok(None),
    };
    let mut t = p.topo;
    let norm = rng.chance(3, 4);
    if norm {
        t = normalise(&t)?;
    }
    ctx.say(|| format!("normalised: {}", norm));
    if may_simplify && rng.chance(1, 6) {
        let th = gen_threshold(rng);
        ctx.say(|| format!("simplify {}", th));
        t = lib("simplifying", move || topogeo::simplify(t, th))?;
        ctx.ev("simplified before clipping", 1);
    }
    if rng.chance(1, 3) {
        let m = gen_mask(rng, &snap::walk(&t)?);
        ctx.say(|| format!("first clip {}", mask_name(&m)));
        t = lib("clipping", || clip_topology(&t, &m))?;
        ctx.ev("clipped before clipping", 1);
    }
    Ok(Some(t))
}

pub fn c12(rng: &mut Rng, ctx: &mut Ctx) -> Result<(), String> {
    let t = match subject(rng, ctx, true)? {
        Some(t) => t,
        None => return Ok(()),
    };
    let s = snap::walk(&t)?;
    let data = data_of(&t);
    let refs = snap::edge_rings(&t)?;
    let m = gen_mask(rng, &s);
    ctx.say(|| format!("clip {}", mask_name(&m)));
    ctx.input.str(&mask_name(&m));
    let c = lib("clipping", || clip_topology(&t, &m))?;
    if snap::walk(&t)? != s || data_of(&t) != data || snap::edge_rings(&t)? != refs {
        return Err("the input topology was modified".into());
    }
    let o = snap::walk(&c)?;
    o.digest(&mut ctx.output);
    let h = Half::new(&m);
    let pts: Vec<&Point> = s.edges.iter().flatten().collect();
    ctx.nontrivial = pts.iter().any(|p| h.u(p) > 0) && pts.iter().any(|p| h.u(p) < 0);
    check_clip(ctx, &s, &data, &o, &data_of(&c), &h).map_err(|e| format!("{}: {}", mask_name(&m), e))?;
    Ok(())
}

pub fn c13(rng: &mut Rng, ctx: &mut Ctx) -> Result<(), String> {
    let t = match subject(rng, ctx, true)? {
        Some(t) => t,
        None => return Ok(()),
    };
    let s = snap::walk(&t)?;
    let data = data_of(&t);
    let m = gen_mask(rng, &s);
    ctx.say(|| format!("clip {}", mask_name(&m)));
    ctx.input.str(&mask_name(&m));
    let h = Half::new(&m);
    let c = lib("clipping", || clip_topology(&t, &m))?;
    let (o, _) = snap::full(&c)?; // every edge walked, every reference right
    o.digest(&mut ctx.output);
    for (ri, r) in o.regions.iter().enumerate() {
        for (_, k, ring) in r.rings() {
            if ring.is_empty() {
                return Err(format!("region {} ring {} has no edges", ri, k));
            }
            o.ring_points(ring).map_err(|e| format!("{}: region {} ring {}: {}", mask_name(&m), ri, k, e))?;
            ctx.ev("closed chains walked", 1);
            ctx.ev("joints checked", ring.len() as u64);
        }
    }
    // lines added along the mask: stored once for every two rings that walk them
    let mut along: HashMap<(Point, Point), (u32, u32)> = HashMap::new();
    let mut uses = vec![0u32; o.edges.len()];
    for r in &o.regions {
        for (_, _, ring) in r.rings() {
            for &(e, _) in ring {
                uses[e] += 1;
            }
        }
    }
    for (e, n) in o.edges.iter().zip(&uses) {
        if e.len() == 2 && h.u(&e[0]) == 0 && h.u(&e[1]) == 0 {
            let x = along.entry((e[0].min(e[1]), e[0].max(e[1]))).or_insert((0, 0));
            x.0 += 1;
            x.1 += n;
        }
    }
    for ((a, b), (stored, walked)) in &along {
        ctx.ev("lines along the mask", 1);
        if *walked >= 2 {
            ctx.ev("lines along the mask walked by two rings or more", 1);
        }
        if *stored > (walked + 1) / 2 {
            return Err(format!("{}: the line {:?} - {:?} along the mask is walked {} times and stored {} times", mask_name(&m), a, b, walked, stored));
        }
    }
    let map = match check_clip(ctx, &s, &data, &o, &data_of(&c), &h).map_err(|e| format!("{}: {}", mask_name(&m), e))? {
        Some(map) => map,
        None => return Ok(()), // which ring is which cannot be told
    };
    // who walks what, before and after
    let walkers = |s: &Snap| -> Vec<Vec<RingId>> {
        let mut w = vec![vec![]; s.edges.len()];
        for (ri, r) in s.regions.iter().enumerate() {
            for (inner, k, ring) in r.rings() {
                for &(e, _) in ring {
                    w[e].push((ri, inner, k));
                }
            }
        }
        w
    };
    let (wi, wo) = (walkers(&s), walkers(&o));
    // stretches left in the output: by an inside point and its neighbour
    let mut stretch: HashMap<Point, Vec<(Point, usize)>> = HashMap::new();
    for (ei, e) in o.edges.iter().enumerate() {
        let e = dedupe(e);
        for w in e.windows(2) {
            if h.u(&w[0]) > 0 {
                stretch.entry(w[0]).or_insert_with(Vec::new).push((w[1], ei));
            }
            if h.u(&w[1]) > 0 {
                stretch.entry(w[1]).or_insert_with(Vec::new).push((w[0], ei));
            }
        }
    }
    // stretches of the input, from each strictly inside point
    let mut from: HashMap<Point, Vec<(Point, usize)>> = HashMap::new();
    for (ei, e) in s.edges.iter().enumerate() {
        let e = dedupe(e);
        for w in e.windows(2) {
            for (a, b) in [(w[0], w[1]), (w[1], w[0])] {
                if h.u(&a) > 0 {
                    from.entry(a).or_insert_with(Vec::new).push((b, ei));
                }
            }
        }
    }
    let nothing = Vec::new();
    for (a, list) in &from {
        let left = stretch.get(a).unwrap_or(&nothing);
        for (k, (b, ei)) in list.iter().enumerate() {
            let fits = |x: &Point, b: &Point| if h.u(b) >= 0 { x == b } else { h.is_crossing(x, a, b) };
            // unique among the stretches at this point, or no telling
            let found: Vec<usize> = left.iter().filter(|(x, _)| fits(x, b)).map(|(_, e)| *e).collect();
            let rival = list.iter().enumerate().any(|(k2, (b2, _))| k2 != k && (b2 == b || left.iter().any(|(x, _)| fits(x, b) && fits(x, b2))));
            if rival {
                ctx.ev("border stretches that coincide with others", 1);
                continue;
            }
            let mut want: Vec<RingId> = wi[*ei].iter().filter_map(|r| map.get(r).cloned()).collect();
            want.sort();
            if want.is_empty() {
                if !found.is_empty() {
                    return Err(format!("stretch {:?} - {:?} is still stored though none of its rings is left", a, b));
                }
                continue;
            }
            if found.len() != 1 {
                return Err(format!("stretch {:?} - {:?} of edge {} is stored {} times", a, b, ei, found.len()));
            }
            let mut got = wo[found[0]].clone();
            got.sort();
            if got != want {
                return Err(format!("stretch {:?} - {:?} of edge {} was shared by rings that became {:?}, but its edge is walked by {:?}", a, b, ei, want, got));
            }
            ctx.ev("border stretches followed", 1);
            if want.len() == 2 {
                ctx.ev("shared border stretches followed", 1);
                ctx.nontrivial = true;
            }
        }
    }
    // pieces of one edge stay in one edge
    let mut piece: HashMap<usize, BTreeSet<usize>> = HashMap::new();
    let mut of_seg: HashMap<(Point, Point), Vec<usize>> = HashMap::new();
    for (ei, e) in s.edges.iter().enumerate() {
        for w in dedupe(e).windows(2) {
            if h.u(&w[0]) > 0 && h.u(&w[1]) > 0 {
                let key = (w[0].min(w[1]), w[0].max(w[1]));
                of_seg.entry(key).or_insert_with(Vec::new).push(ei);
            }
        }
    }
    for (oe, e) in o.edges.iter().enumerate() {
        for w in dedupe(e).windows(2) {
            if let Some(v) = of_seg.get(&(w[0].min(w[1]), w[0].max(w[1]))) {
                if v.len() == 1 {
                    piece.entry(v[0]).or_insert_with(BTreeSet::new).insert(oe);
                }
            }
        }
    }
    for (e, p) in &piece {
        ctx.ev("edges kept in one piece", 1);
        if p.len() != 1 {
            return Err(format!("edge {} was stored as {} edges", e, p.len()));
        }
    }
    Ok(())
}

fn deduped(s: &Snap) -> Snap {
    Snap { edges: s.edges.iter().map(|e| dedupe(e)).collect(), regions: s.regions.clone() }
}

/// The same up to the order of the list of edges, which means nothing: a ring
/// that vanishes may have been the first to need an edge along the mask.
fn alike(a: &Snap, b: &Snap) -> bool {
    let sorted = |s: &Snap| {
        let mut e = s.edges.clone();
        e.sort();
        e
    };
    let same_ring = |x: &Vec<(usize, bool)>, y: &Vec<(usize, bool)>| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.1 == q.1 && a.edges[p.0] == b.edges[q.0]);
    let same_rings = |x: &Vec<Vec<(usize, bool)>>, y: &Vec<Vec<(usize, bool)>>| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same_ring(p, q));
    a.regions.len() == b.regions.len()
        && a.regions.iter().zip(&b.regions).all(|(x, y)| same_rings(&x.outer, &y.outer) && same_rings(&x.inner, &y.inner))
        && sorted(a) == sorted(b)
}

fn opposite(m: &ClipMask) -> ClipMask {
    match m {
        ClipMask::MinX(c) => ClipMask::MaxX(*c),
        ClipMask::MaxX(c) => ClipMask::MinX(*c),
        ClipMask::MinY(c) => ClipMask::MaxY(*c),
        ClipMask::MaxY(c) => ClipMask::MinY(*c),
    }
}

fn clip(t: &Topology<u64>, m: &ClipMask) -> Result<Topology<u64>, String> {
    lib("clipping", || clip_topology(t, m))
}

/// What became of each ring of the input, through any number of clips.
#[derive(Clone)]
struct Trail {
    map: HashMap<RingId, RingId>,
}

/// Clips, checks the step, and follows every ring. None: which ring is which
/// cannot be told.
fn clip_followed(ctx: &mut Ctx, t: &Topology<u64>, m: &ClipMask, trail: Option<&Trail>) -> Result<(Topology<u64>, Option<Trail>), String> {
    let c = clip(t, m)?;
    let (s, o) = (snap::walk(t)?, snap::walk(&c)?);
    let step = check_clip(ctx, &s, &data_of(t), &o, &data_of(&c), &Half::new(m)).map_err(|e| format!("{}: {}", mask_name(m), e))?;
    let trail = match (step, trail) {
        (Some(map), None) => Some(Trail { map }),
        (Some(map), Some(tr)) => Some(Trail { map: tr.map.iter().filter_map(|(k, v)| map.get(v).map(|w| (*k, *w))).collect() }),
        _ => None,
    };
    Ok((c, trail))
}

/// 2 * area of what is left of a region: each ring counts with the sign it had
/// in the whole map (rings may be given in any direction).
fn area_left(s: &Snap, o: &Snap, ri: usize, trail: &Trail) -> Result<i128, String> {
    let mut a = 0;
    for (inner, k, ring) in s.regions[ri].rings() {
        let whole = area2(&s.ring_points(ring)?).signum();
        if let Some(id) = trail.map.get(&(ri, inner, k)) {
            let r = &o.regions[id.0];
            let ring = if inner { &r.inner[id.2] } else { &r.outer[id.2] };
            let x = area2(&o.ring_points(ring)?) * whole;
            a += if inner { -x } else { x };
        }
    }
    Ok(a)
}

/// Exact-ish area of a closed ring inside a rectangle (f64 clipping), with an
/// allowance for rounding crossings to whole units one mask after the other.
fn rect_area2(ring: &[Point], r: &[u32; 4]) -> (f64, f64) {
    let (cx, cy) = (r[0] as f64, r[1] as f64); // shift: keeps numbers small
    let mut p: Vec<(f64, f64)> = ring[..ring.len() - 1].iter().map(|p| (p.0 as f64 - cx, p.1 as f64 - cy)).collect();
    let lim = [0.0, 0.0, r[2] as f64 - cx, r[3] as f64 - cy];
    let mut crossings = 0.0;
    for side in 0..4 {
        let c = lim[side];
        let u = |q: &(f64, f64)| match side {
            0 => q.0 - c,
            1 => q.1 - c,
            2 => c - q.0,
            _ => c - q.1,
        };
        let mut out = Vec::new();
        for i in 0..p.len() {
            let (a, b) = (p[i], p[(i + 1) % p.len()]);
            let (ua, ub) = (u(&a), u(&b));
            if ua >= 0.0 {
                out.push(a);
            }
            if (ua > 0.0 && ub < 0.0) || (ua < 0.0 && ub > 0.0) {
                let t = ua / (ua - ub);
                out.push((a.0 + t * (b.0 - a.0), a.1 + t * (b.1 - a.1)));
                crossings += 1.0;
            }
        }
        p = out;
    }
    let mut a = 0.0;
    for i in 0..p.len() {
        let (q, w) = (p[i], p[(i + 1) % p.len()]);
        a += q.0 * w.1 - w.0 * q.1;
    }
    let (w, h) = (lim[2], lim[3]);
    // a moved crossing shifts the two segments next to it by at most one unit
    // (two, once the next mask cuts the shifted segment)
    let tol = crossings * 4.0 * (w + h + 2.0) + p.len() as f64 * (w * h * 1e-14 + 8.0);
    (a, tol)
}

pub fn c14(rng: &mut Rng, ctx: &mut Ctx) -> Result<(), String> {
    let t = match subject(rng, ctx, false)? {
        Some(t) => t,
        None => return Ok(()),
    };
    let s = snap::walk(&t)?;
    let data = data_of(&t);
    let pts: Vec<Point> = s.edges.iter().flatten().cloned().collect();
    if pts.is_empty() {
        return Ok(());
    }
    let m = gen_mask(rng, &s);
    ctx.input.str(&mask_name(&m));
    ctx.say(|| format!("mask {}", mask_name(&m)));
    let h = Half::new(&m);

    // a mask the whole map is strictly inside of
    if pts.iter().all(|p| h.u(p) > 0) {
        let c = clip(&t, &m)?;
        if !alike(&snap::walk(&c)?, &s) || data_of(&c) != data {
            return Err(format!("{} changed a map that is strictly inside", mask_name(&m)));
        }
        ctx.ev("maps strictly inside", 1);
    }

    // twice the same mask
    let c1 = clip(&t, &m)?;
    let s1 = snap::walk(&c1)?;
    s1.digest(&mut ctx.output);
    let c2 = clip(&c1, &m)?;
    let s2 = snap::walk(&c2)?;
    if data_of(&c1) != data_of(&c2) || !alike(&deduped(&s1), &deduped(&s2)) {
        return Err(format!("clipping twice with {} is not the same as once: {}", mask_name(&m), crate::p_norm::diff_snap(&deduped(&s1), &deduped(&s2)).unwrap_or_default()));
    }
    ctx.ev("second clips compared", 1);

    // both sides of one line
    let o = opposite(&m);
    let (c1, t1) = clip_followed(ctx, &t, &m, None)?;
    let (d1, td) = clip_followed(ctx, &t, &o, None)?;
    let (s1, sd, hd) = (snap::walk(&c1)?, snap::walk(&d1)?, Half::new(&o));
    if let (Some(t1), Some(td)) = (t1, td) {
        for ri in 0..data.len() {
            let mut signed = 0i128;
            let mut tol = 0i128;
            for (inner, _, ring) in s.regions[ri].rings() {
                let p = s.ring_points(ring)?;
                let a = area2(&p);
                signed += if inner { -a.abs() } else { a.abs() };
                tol += h.clipped_area2(&p).1 + hd.clipped_area2(&p).1 + 2;
            }
            let (a, b) = (area_left(&s, &s1, ri, &t1)?, area_left(&s, &sd, ri, &td)?);
            if (a + b - signed).abs() > tol {
                return Err(format!("region {}: 2*area {} split by {} into {} and {} (rounding allows {})", ri, signed, mask_name(&m), a, b, tol));
            }
            ctx.ev("regions split", 1);
            // and the halves fit together: they meet the line in the same points
            for (inner, k, ring) in s.regions[ri].rings() {
                let own: BTreeSet<Point> = s.ring_points(ring)?.into_iter().collect();
                if let (Some(i), Some(j)) = (t1.map.get(&(ri, inner, k)), td.map.get(&(ri, inner, k))) {
                    let on = |o: &Snap, id: &RingId| -> Result<BTreeSet<Point>, String> {
                        let r = &o.regions[id.0];
                        let ring = if inner { &r.inner[id.2] } else { &r.outer[id.2] };
                        Ok(o.ring_points(ring)?.into_iter().filter(|p| h.u(p) == 0 && !own.contains(p)).collect())
                    };
                    let (x, y) = (on(&s1, i)?, on(&sd, j)?);
                    ctx.ev("crossings met by both halves", x.intersection(&y).count() as u64);
                    if let Some(p) = x.symmetric_difference(&y).next() {
                        return Err(format!("region {}, ring {}: of its two halves along {} only one has the crossing {:?} ({:?}, {:?})", ri, k, mask_name(&m), p, x, y));
                    }
                }
            }
            if a > 0 && b > 0 {
                ctx.nontrivial = true;
                ctx.ev("regions with ground on both sides", 1);
            }
        }
    }

    // a rectangle, in two orders
    let mut xs = [rng.pick(&pts).0, rng.pick(&pts).0];
    let mut ys = [rng.pick(&pts).1, rng.pick(&pts).1];
    for v in xs.iter_mut().chain(ys.iter_mut()) {
        if rng.chance(1, 2) {
            *v = (*v as i64 + rng.range(-3, 3)).max(0).min(u32::MAX as i64) as u32;
        }
    }
    xs.sort();
    ys.sort();
    let rect = [xs[0], ys[0], xs[1], ys[1]];
    if xs[0] == xs[1] || ys[0] == ys[1] {
        return Ok(());
    }
    ctx.say(|| format!("rectangle {:?}", rect));
    let mut masks = vec![ClipMask::MinX(rect[0]), ClipMask::MinY(rect[1]), ClipMask::MaxX(rect[2]), ClipMask::MaxY(rect[3])];
    let strictly = |p: &Point| p.0 > rect[0] && p.0 < rect[2] && p.1 > rect[1] && p.1 < rect[3];
    for _ in 0..2 {
        rng.shuffle(&mut masks);
        ctx.say(|| format!("order {:?}", masks.iter().map(|m| mask_name(m)).collect::<Vec<_>>()));
        let (mut c, mut trail) = clip_followed(ctx, &t, &masks[0], None)?;
        for m in &masks[1..] {
            let before = match trail {
                Some(t) => t,
                None => return Ok(()),
            };
            let (next, tr) = clip_followed(ctx, &c, m, Some(&before))?;
            c = next;
            trail = tr;
        }
        let trail = match trail {
            Some(t) => t,
            None => return Ok(()),
        };
        let sc = snap::walk(&c)?;
        let dc = data_of(&c);
        sc.digest(&mut ctx.output);
        for e in &sc.edges {
            for p in e {
                if p.0 < rect[0] || p.0 > rect[2] || p.1 < rect[1] || p.1 > rect[3] {
                    return Err(format!("{:?} is outside the rectangle {:?}", p, rect));
                }
                ctx.ev("points inside the rectangle", 1);
            }
        }
        let mut last = 0;
        for (ri, tag) in data.iter().enumerate() {
            let (mut want, mut tol) = (0f64, 4f64);
            let mut inside = BTreeSet::new();
            for (inner, _, ring) in s.regions[ri].rings() {
                let p = s.ring_points(ring)?;
                let (a, t) = rect_area2(&p, &rect);
                let a = a * area2(&p).signum() as f64;
                want += if inner { -a } else { a };
                tol += t;
                inside.extend(p.iter().filter(|p| strictly(p)).cloned());
            }
            match dc.iter().position(|x| x == tag) {
                None => {
                    if want > tol {
                        return Err(format!("region {} is gone though it has 2*area {} in the rectangle (rounding allows {})", ri, want, tol));
                    }
                }
                Some(i) => {
                    if i < last {
                        return Err("the order of regions changed".into());
                    }
                    last = i;
                    let got = area_left(&s, &sc, ri, &trail)?;
                    if (got as f64 - want).abs() > tol {
                        return Err(format!("region {}: 2*area in the rectangle is {} but {} is left (rounding allows {})", ri, want, got, tol));
                    }
                    ctx.ev("regions in a rectangle compared", 1);
                    if want > 2.0 * tol {
                        ctx.ev("regions in a rectangle compared, area above twice the allowance", 1);
                    }
                    let mut have = BTreeSet::new();
                    for (_, _, ring) in sc.regions[i].rings() {
                        have.extend(sc.ring_points(ring)?.iter().filter(|p| strictly(p)).cloned());
                    }
                    if let Some(p) = have.difference(&inside).next() {
                        return Err(format!("region {}: {:?} is inside the rectangle but not a point of the region", ri, p));
                    }
                    if let Some(p) = inside.difference(&have).next() {
                        // its ring may be gone for lack of area
                        let lost_ok = s.regions[ri].rings().any(|(_, _, ring)| {
                            let q = s.ring_points(ring).unwrap_or_default();
                            let (a, t) = rect_area2(&q, &rect);
                            q.contains(p) && a.abs() <= t
                        });
                        if !lost_ok {
                            return Err(format!("region {}: point {:?} inside the rectangle is lost", ri, p));
                        }
                    }
                }
            }
        }
        ctx.ev("rectangles", 1);
    }
    Ok(())
}
