//! C09, C10: simplification.

use crate::ctx::{fmt_points, lib, Ctx};
use crate::mesh::*;
use crate::p_build::{gen_mask, gen_threshold, mask_name};
use crate::p_norm::{normalise, prepare};
use crate::rng::Rng;
use crate::snap;
use std::collections::BTreeSet;
use std::ptr;
use topogeo::clip::clip_topology;
use crate::pt::{to_lib, to_own, Point};
use topogeo::topology::{TopoEdge, Topology};

/// A threshold that matters for these edges: near the size of their triangles.
fn threshold_for(rng: &mut Rng, edges: &[Vec<Point>]) -> u64 {
    if edges.is_empty() || rng.chance(1, 4) {
        return gen_threshold(rng);
    }
    let e = rng.pick(edges);
    if e.len() < 3 {
        return gen_threshold(rng);
    }
    let i = rng.usize(1, e.len() - 2);
    let w = tri2(e[i - 1], e[i], e[i + 1]);
    match rng.below(5) {
        0 => w,
        1 => w.saturating_sub(1),
        2 => w.saturating_add(1),
        3 => w.saturating_mul(rng.range(2, 50) as u64),
        _ => w / 2,
    }
}

pub fn is_subsequence(small: &[Point], big: &[Point]) -> bool {
    let mut it = big.iter();
    small.iter().all(|p| it.any(|q| q == p))
}

pub fn c09(rng: &mut Rng, ctx: &mut Ctx) -> Result<(), String> {
    let mut o = opts(ctx);
    o.max_mid = if ctx.small { 4 } else { 12 };
    o.max_w = std::cmp::min(o.max_w, 5);
    o.max_h = std::cmp::min(o.max_h, 5);
    let p = match prepare(rng, ctx, &o)? {
        Some(p) => p,
        None => return Ok(()),
    };
    let mut t = p.topo;
    if rng.chance(3, 4) {
        t = normalise(&t)?;
    }
    let rounds = rng.usize(1, 3);
    for _ in 0..rounds {
        if rng.chance(1, 3) {
            let m = gen_mask(rng, &snap::walk(&t)?);
            ctx.say(|| format!("clip {}", mask_name(&m)));
            t = lib("clipping", || clip_topology(&t, &m))?;
        }
        let before = snap::walk(&t)?;
        let refs = snap::edge_rings(&t)?;
        let data: Vec<u64> = t.regions.iter().map(|r| r.data).collect();
        let th = threshold_for(rng, &before.edges);
        ctx.say(|| format!("simplify {}", th));
        t = lib("simplifying", move || topogeo::simplify(t, th))?;
        let (after, n) = snap::full(&t).map_err(|e| format!("after simplify {}: {}", th, e))?;
        ctx.ev("cross-references checked", n);
        if after.regions != before.regions {
            return Err("regions, rings, edge references or directions changed".into());
        }
        if snap::edge_rings(&t)? != refs {
            return Err("the rings edges refer to changed".into());
        }
        if t.regions.iter().map(|r| r.data).collect::<Vec<u64>>() != data {
            return Err("region data changed".into());
        }
        if after.edges.len() != before.edges.len() {
            return Err(format!("{} edges became {}", before.edges.len(), after.edges.len()));
        }
        for (i, (a, b)) in after.edges.iter().zip(before.edges.iter()).enumerate() {
            ctx.ev("edges compared", 1);
            let why = |m: &str| Err(format!("edge {} {} at {}: {} ({})", i, m, th, fmt_points(b), fmt_points(a)));
            if a.len() < 2 {
                return why("lost its ends");
            }
            if a[0] != b[0] || a[a.len() - 1] != b[b.len() - 1] {
                return why("moved an end");
            }
            if !is_subsequence(a, b) {
                return why("has points that are not a subsequence of the original");
            }
            if b[0] == b[b.len() - 1] {
                ctx.ev("closed edges compared", 1);
                if b.len() >= 4 && a.len() < 4 {
                    return why("is a closed edge cut to fewer than four points");
                }
                if b.len() > 4 && a.len() == 4 {
                    ctx.ev("closed edges cut to four points", 1);
                }
            }
            if a.len() < b.len() {
                ctx.nontrivial = true;
                ctx.ev("points removed", (b.len() - a.len()) as u64);
            }
            if a.len() == 2 && b.len() > 2 {
                ctx.ev("edges cut to their ends", 1);
            }
        }
        after.digest(&mut ctx.output);
        // every ring is still a closed chain
        for r in &after.regions {
            for (_, _, ring) in r.rings() {
                after.ring_points(ring)?;
            }
        }
    }
    Ok(())
}

pub fn tri2(a: Point, b: Point, c: Point) -> u64 {
    let f = |p: u32| p as i128;
    let v = (f(b.0) - f(a.0)) * (f(c.1) - f(a.1)) - (f(c.0) - f(a.0)) * (f(b.1) - f(a.1));
    v.abs() as u64
}

/// Linked list over the points of one edge.
struct Line<'a> {
    pts: &'a [Point],
    prev: Vec<usize>,
    next: Vec<usize>,
    alive: Vec<bool>,
    w: Vec<u64>,
    inner: usize,
}

impl<'a> Line<'a> {
    fn new(pts: &'a [Point]) -> Line<'a> {
        let n = pts.len();
        let mut l = Line {
            pts,
            prev: (0..n).map(|i| i.wrapping_sub(1)).collect(),
            next: (1..=n).collect(),
            alive: vec![true; n],
            w: vec![u64::MAX; n],
            inner: n - 2,
        };
        for i in 1..n - 1 {
            l.w[i] = tri2(pts[i - 1], pts[i], pts[i + 1]);
        }
        l
    }
    fn fix(&mut self, i: usize) {
        if i > 0 && i < self.pts.len() - 1 {
            self.w[i] = tri2(self.pts[self.prev[i]], self.pts[i], self.pts[self.next[i]]);
        }
    }
    fn remove(&mut self, i: usize) {
        let (a, b) = (self.prev[i], self.next[i]);
        self.next[a] = b;
        self.prev[b] = a;
        self.alive[i] = false;
        self.inner -= 1;
        self.fix(a);
        self.fix(b);
    }
    fn put_back(&mut self, i: usize) {
        let (a, b) = (self.prev[i], self.next[i]);
        self.next[a] = i;
        self.prev[b] = i;
        self.alive[i] = true;
        self.inner += 1;
        self.fix(a);
        self.fix(b);
        self.fix(i);
    }
    fn min(&self) -> Option<u64> {
        let mut m = None;
        let mut i = self.next[0];
        while i < self.pts.len() - 1 {
            if m.map_or(true, |x| self.w[i] < x) {
                m = Some(self.w[i]);
            }
            i = self.next[i];
        }
        m
    }
}

#[derive(PartialEq, Debug)]
pub enum Vw {
    Yes,
    No(String),
    Unsure,
}

/// Is `out` a result of removing, one at a time, the inner point of least
/// weight while that is at most `th`?  (Any choice among equal weights.)
pub fn explain(pts: &[Point], out: &[Point], th: u64, closed: bool, ties: &mut u64) -> Vw {
    let n = pts.len();
    if n <= 2 || (closed && n <= 3) {
        return if pts == out { Vw::Yes } else { Vw::No("an edge without removable points changed".into()) };
    }
    // first without guidance, as long as there is no choice
    let mut l = Line::new(pts);
    let mut tie = false;
    while l.inner > if closed { 2 } else { 0 } {
        let m = l.min().unwrap();
        if m > th {
            break;
        }
        let c: Vec<usize> = (1..n - 1).filter(|&i| l.alive[i] && l.w[i] == m).collect();
        if c.len() > 1 {
            tie = true;
            break;
        }
        l.remove(c[0]);
    }
    let floor = closed && l.inner == 2 && !tie && l.min().unwrap() <= th;
    if !tie && !floor {
        let want: Vec<Point> = (0..n).filter(|&i| l.alive[i]).map(|i| pts[i]).collect();
        return if want == out {
            Vw::Yes
        } else {
            let k = want.iter().zip(out.iter()).take_while(|(a, b)| a == b).count();
            Vw::No(format!("{} points should stay, {} did; they differ from point {} on: should be {} and is {}", want.len(), out.len(), k, fmt_points(&want[k.saturating_sub(1)..]), fmt_points(&out[k.saturating_sub(1)..])))
        };
    }
    *ties += 1;
    if closed && out.len() == 4 {
        return explain_floor(pts, out, th);
    }
    if out.len() < 2 {
        return Vw::No("too few points".into());
    }
    // local condition first: cheap and certain
    for k in 1..out.len() - 1 {
        if tri2(out[k - 1], out[k], out[k + 1]) <= th {
            return Vw::No(format!("point {} ({:?}) spans 2*area {} <= {} with its neighbours", k, out[k], tri2(out[k - 1], out[k], out[k + 1]), th));
        }
    }
    // which original points are left: need an unambiguous embedding
    let mut keep = vec![false; n];
    let mut at = 0;
    let mut lo = Vec::new();
    for p in out {
        while at < n && pts[at] != *p {
            at += 1;
        }
        if at == n {
            return Vw::No("the points left are not a subsequence".into());
        }
        lo.push(at);
        at += 1;
    }
    let mut at = n;
    for (k, p) in out.iter().enumerate().rev() {
        loop {
            at -= 1;
            if pts[at] == *p {
                break;
            }
        }
        if at != lo[k] {
            return Vw::Unsure; // repeated points: which one stayed cannot be seen
        }
    }
    for i in lo {
        keep[i] = true;
    }
    // search removal orders that never touch a kept point
    let mut l = Line::new(pts);
    let mut trail: Vec<(usize, Vec<usize>)> = Vec::new(); // removed, other candidates
    let mut budget = 3000 + 4 * n;
    loop {
        let m = l.min();
        let done = l.inner == out.len() - 2;
        if done && m.map_or(true, |m| m > th) {
            return Vw::Yes;
        }
        let mut c: Vec<usize> = match m {
            Some(m) if m <= th && !done => (1..n - 1).filter(|&i| l.alive[i] && !keep[i] && l.w[i] == m).collect(),
            _ => vec![],
        };
        if budget == 0 {
            return Vw::Unsure;
        }
        budget -= 1;
        match c.pop() {
            Some(i) => {
                l.remove(i);
                trail.push((i, c));
            }
            None => loop {
                match trail.pop() {
                    None => return Vw::No(format!("no order of removals leaves these points: {}", fmt_points(out))),
                    Some((i, mut rest)) => {
                        l.put_back(i);
                        if let Some(j) = rest.pop() {
                            l.remove(j);
                            trail.push((j, rest));
                            break;
                        }
                    }
                }
            },
        }
    }
}

/// The same question for edges too long for a search: the removals are replayed
/// with equal weights resolved from either end.
fn explain_long(pts: &[Point], out: &[Point], th: u64, closed: bool) -> Vw {
    let n = pts.len();
    let mut tied = false;
    for up in [true, false] {
        let mut l = Line::new(pts);
        let mut queue: BTreeSet<(u64, usize)> = (1..n - 1).map(|i| (l.w[i], i)).collect();
        while l.inner > if closed { 2 } else { 0 } {
            let (m, first) = *queue.iter().next().unwrap();
            if m > th {
                break;
            }
            let last = queue.range(..=(m, usize::MAX)).next_back().unwrap().1;
            tied |= first != last;
            let i = if up { first } else { last };
            let (a, b) = (l.prev[i], l.next[i]);
            queue.remove(&(m, i));
            queue.remove(&(l.w[a], a));
            queue.remove(&(l.w[b], b));
            l.remove(i);
            for j in [a, b] {
                if j > 0 && j < n - 1 {
                    queue.insert((l.w[j], j));
                }
            }
        }
        if closed && l.inner == 2 {
            return Vw::Unsure; // cut to the least a closed edge can have
        }
        if (0..n).filter(|&i| l.alive[i]).map(|i| &pts[i]).eq(out.iter()) {
            return Vw::Yes;
        }
        if !tied {
            return Vw::No(format!("{} points should stay, {} did", l.inner + 2, out.len()));
        }
    }
    Vw::Unsure
}

/// A closed edge cut to a triangle: besides the ends, two points stay that some
/// complete run of the algorithm ranks highest. Equal ranks may be resolved
/// either way; a point's rank is never below that of points removed before it.
fn explain_floor(pts: &[Point], out: &[Point], th: u64) -> Vw {
    let n = pts.len();
    if out[0] != pts[0] || out[3] != pts[n - 1] {
        return Vw::No("ends moved".into());
    }
    let mut l = Line::new(pts);
    let mut rank = vec![0u64; n];
    let mut budget = 20_000 + 2 * n * n;
    match floor_search(&mut l, &mut rank, 0, out, th, &mut budget) {
        Some(true) => Vw::Yes,
        Some(false) => Vw::No(format!("a closed edge was cut to {} although other points rank higher", fmt_points(out))),
        None => Vw::Unsure,
    }
}

fn floor_search(l: &mut Line, rank: &mut Vec<u64>, last: u64, out: &[Point], th: u64, budget: &mut usize) -> Option<bool> {
    let n = l.pts.len();
    if *budget < n {
        return None;
    }
    *budget -= n;
    let m = l.min();
    if l.inner == 0 || m.unwrap() > th {
        if l.inner > 2 {
            return Some(false); // those would all stay
        }
        let r: Vec<u64> = (0..n).map(|i| if i > 0 && i < n - 1 && l.alive[i] { u64::MAX } else { rank[i] }).collect();
        for i in 1..n - 1 {
            if l.pts[i] != out[1] {
                continue;
            }
            for j in i + 1..n - 1 {
                if l.pts[j] == out[2] {
                    let lesser = std::cmp::min(r[i], r[j]);
                    if (1..n - 1).all(|k| k == i || k == j || r[k] <= lesser) {
                        return Some(true);
                    }
                }
            }
        }
        return Some(false);
    }
    let m = m.unwrap();
    let c: Vec<usize> = (1..n - 1).filter(|&i| l.alive[i] && l.w[i] == m).collect();
    let last = std::cmp::max(last, m);
    for i in c {
        rank[i] = last;
        l.remove(i);
        let r = floor_search(l, rank, last, out, th, budget);
        l.put_back(i);
        match r {
            Some(false) => {}
            x => return x,
        }
    }
    Some(false)
}

fn gen_line(rng: &mut Rng, ctx: &mut Ctx) -> (Vec<Point>, &'static str) {
    let max = if ctx.small {
        12
    } else {
        match rng.below(60) {
            0 => 600,
            1..=8 => 120,
            9..=30 => 30,
            _ => 10,
        }
    };
    let max = if ctx.thorough && rng.chance(1, 200) { 3000 } else { max };
    let long = ctx.large && rng.chance(2, 3);
    let n = if long { rng.usize(66_000, 140_000) } else { rng.usize(2, max) };
    let span: u64 = if long && rng.chance(3, 4) { *rng.pick(&[1 << 30, 1 << 31, u32::MAX as u64]) } else { *rng.pick(&[3u64, 10, 60, 400, 1 << 12, 1 << 16, 1 << 20, 1 << 30, 1 << 31, u32::MAX as u64]) };
    let off = |rng: &mut Rng| -> u64 { *rng.pick(&[0, u32::MAX as u64 - span]) };
    let (ox, oy) = (off(rng), off(rng));
    let mut v: Vec<Point> = Vec::new();
    let kind = match rng.below(6) {
        0 => "random points",
        1 => "wave",
        2 => "spiral",
        3 => "staircase",
        4 => "walk",
        _ => "collinear runs",
    };
    let c = |x: f64| -> u64 { x.max(0.0).min(span as f64) as u64 };
    let (mut x, mut y) = (rng.below(span + 1), rng.below(span + 1));
    for i in 0..n {
        let f = i as f64 / n as f64;
        let (px, py) = match kind {
            "random points" => (rng.below(span + 1), rng.below(span + 1)),
            "wave" => (c(f * span as f64), c((0.5 + 0.5 * (f * 40.0).sin() * rng.f64_unit()) * span as f64)),
            "spiral" => {
                let r = f * span as f64 / 2.0;
                (c(span as f64 / 2.0 + r * (f * 30.0).cos()), c(span as f64 / 2.0 + r * (f * 30.0).sin()))
            }
            "staircase" => {
                if i % 2 == 0 {
                    x = std::cmp::min(span, x + rng.below(span / 8 + 2));
                } else {
                    y = std::cmp::min(span, y + rng.below(span / 8 + 2));
                }
                (x, y)
            }
            "walk" => {
                let s = (span / 16 + 1) as i64;
                x = (x as i64 + rng.range(-s, s)).max(0).min(span as i64) as u64;
                y = (y as i64 + rng.range(-s, s)).max(0).min(span as i64) as u64;
                (x, y)
            }
            _ => {
                if rng.chance(1, 3) {
                    x = rng.below(span + 1);
                } else {
                    y = rng.below(span + 1);
                }
                (x, y)
            }
        };
        v.push(Point((ox + px) as u32, (oy + py) as u32));
    }
    if rng.chance(5, 6) {
        v.dedup();
        if v.len() < 2 {
            v.push(Point((ox + span) as u32, (oy + span / 2) as u32));
        }
    }
    let n = v.len();
    if rng.chance(1, 3) && n >= 4 {
        let l = v.len() - 1;
        v[l] = v[0];
    }
    (v, kind)
}

fn simplify_lines(lines: &[Vec<Point>], th: u64) -> Result<Vec<Vec<Point>>, String> {
    let edges: Vec<TopoEdge<()>> = lines.iter().map(|l| TopoEdge { points: to_lib(l).into_boxed_slice(), rings: [ptr::null(), ptr::null()] }).collect();
    let t: Topology<()> = Topology { regions: Box::new([]), edges: edges.into_boxed_slice() };
    let t = lib("simplifying", move || topogeo::simplify(t, th))?;
    Ok(t.edges.iter().map(|e| to_own(&e.points)).collect())
}

pub fn c10(rng: &mut Rng, ctx: &mut Ctx) -> Result<(), String> {
    let k = rng.usize(1, 4);
    let mut lines = Vec::new();
    for _ in 0..k {
        let (l, kind) = gen_line(rng, ctx);
        ctx.say(|| format!("{} of {} points: {}", kind, l.len(), fmt_points(&l)));
        ctx.input.points(&l);
        lines.push(l);
    }
    let th = threshold_for(rng, &lines);
    ctx.input.u64(th);
    ctx.say(|| format!("threshold {}", th));
    let out = simplify_lines(&lines, th)?;
    if out.len() != lines.len() {
        return Err("the number of edges changed".into());
    }
    for (l, o) in lines.iter().zip(out.iter()) {
        ctx.output.points(o);
        let closed = l[0] == l[l.len() - 1];
        let mut ties = 0;
        let floor = closed && o.len() == 4;
        if o.len() < 2 {
            return Err("an edge lost its ends".into());
        }
        let verdict = if l.len() > 5000 { explain_long(l, o, th, closed) } else { explain(l, o, th, closed, &mut ties) };
        match verdict {
            Vw::Yes => {
                ctx.ev("edges explained", 1);
                if ties > 0 {
                    ctx.ev("edges explained with ties or a floor", 1);
                }
                if l.len() >= 100 {
                    ctx.ev("edges of 100 points or more explained", 1);
                }
                if l.len() > 65_536 {
                    ctx.ev("edges of more than 65536 points explained", 1);
                }
                if closed {
                    ctx.ev("closed edges explained", 1);
                }
            }
            Vw::Unsure => ctx.ev("edges with too many ties to decide", 1),
            Vw::No(m) => return Err(format!("threshold {}, edge of {} points: {}\n{}", th, l.len(), m, fmt_points(l))),
        }
        if !floor && !(closed && l.len() < 4) {
            for i in 1..o.len() - 1 {
                ctx.ev("triangles above the threshold", 1);
                if tri2(o[i - 1], o[i], o[i + 1]) <= th {
                    return Err(format!("threshold {}: {:?} is left although it spans {}", th, o[i], tri2(o[i - 1], o[i], o[i + 1])));
                }
            }
        }
        if o.len() < l.len() {
            ctx.nontrivial = true;
            ctx.ev("points removed", (l.len() - o.len()) as u64);
        }
    }
    let again = simplify_lines(&out, th)?;
    if again != out {
        return Err(format!("simplifying again with threshold {} changed the edges", th));
    }
    ctx.ev("idempotence checks", 1);
    Ok(())
}
