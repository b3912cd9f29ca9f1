//! C25 (a gap-free map stays gap-free), C22 (determinism), C04 (memory).

use crate::alloc;
use crate::ctx::{lib, Ctx, Fnv};
use crate::mesh::*;
use crate::p_build::{build, gen_mask, gen_threshold, mask_name, tag};
use crate::p_clip::Half;
use crate::p_norm::{consistent_cuts, diff_snap, normalise, to_region_cut};
use crate::rng::Rng;
use crate::snap::{self, RingId, Snap};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use topogeo::clip::{clip_topology, ClipMask};
use crate::pt::Point;
use topogeo::geo::Region;
use topogeo::topology::Topology;

type Seg = (Point, Point);

/// 2 * signed area along a path, about the origin.
fn path2(pts: &[Point], fwd: bool) -> i128 {
    let a: i128 = pts.windows(2).map(|w| w[0].0 as i128 * w[1].1 as i128 - w[1].0 as i128 * w[0].1 as i128).sum();
    if fwd {
        a
    } else {
        -a
    }
}

struct Seen {
    /// users of each edge: (region, forward?)
    users: Vec<Vec<(usize, bool)>>,
    total: i128,
}

/// Sum of the regions' areas against the area inside the single-sided edges.
///
/// On a line that was clipped along, and only there, pieces of a region hang
/// together by stretches of the line, and two regions may walk a stretch in the
/// same direction.
fn balance(ctx: &mut Ctx, s: &Snap, lines: &[Half], when: &str) -> Result<Seen, String> {
    let mut users: Vec<Vec<(usize, bool)>> = vec![vec![]; s.edges.len()];
    let mut total = 0i128;
    for (ri, reg) in s.regions.iter().enumerate() {
        for (_, _, ring) in reg.rings() {
            let pts = s.ring_points(ring).map_err(|e| format!("{}: region {}: {}", when, ri, e))?;
            total += path2(&pts, true);
            for &(e, f) in ring {
                users[e].push((ri, f));
            }
        }
    }
    let mut outline = 0i128;
    for (e, u) in users.iter().enumerate() {
        match u.len() {
            1 => outline += path2(&s.edges[e], u[0].1),
            2 => {
                if u[0].1 == u[1].1 && lines.iter().any(|h| s.edges[e].iter().all(|p| h.u(p) == 0)) {
                    outline += 2 * path2(&s.edges[e], u[0].1);
                    ctx.ev("stretches of a clip line walked twice the same way", 1);
                    continue;
                }
                if u[0].1 == u[1].1 {
                    return Err(format!("{}: edge {} is walked in the same direction by regions {} and {}: they cannot lie on its two sides", when, e, u[0].0, u[1].0));
                }
                ctx.ev("shared edges balanced", 1);
            }
            n => return Err(format!("{}: edge {} is walked {} times", when, e, n)),
        }
    }
    if outline != total {
        return Err(format!("{}: the regions cover {} (2*area), the outline encloses {}", when, total, outline));
    }
    ctx.ev("balances drawn", 1);
    Ok(Seen { users, total })
}

/// Regions on either side of every segment strictly inside the half plane.
fn sides(s: &Snap, seen: &Seen, data: &[u64], h: &Half) -> BTreeMap<Seg, Vec<u64>> {
    let mut m: BTreeMap<Seg, Vec<u64>> = BTreeMap::new();
    for (e, pts) in s.edges.iter().enumerate() {
        for w in pts.windows(2) {
            if w[0] != w[1] && h.u(&w[0]) > 0 && h.u(&w[1]) > 0 {
                let k = if w[0] < w[1] { (w[0], w[1]) } else { (w[1], w[0]) };
                let v = m.entry(k).or_insert_with(Vec::new);
                v.extend(seen.users[e].iter().map(|u| data[u.0]));
                v.push(u64::MAX); // one edge
            }
        }
    }
    for v in m.values_mut() {
        v.sort();
    }
    m
}

pub fn c25(rng: &mut Rng, ctx: &mut Ctx) -> Result<(), String> {
    let o = opts(ctx);
    let p = match crate::p_norm::prepare(rng, ctx, &o)? {
        Some(p) => p,
        None => return Ok(()),
    };
    let mut t = normalise(&p.topo)?;
    let mut s = snap::walk(&t)?;
    let mut seen = balance(ctx, &s, &[], "after normalising")?;
    let truth_total: i128 = p.truth.area2.iter().sum();
    if seen.total != truth_total {
        return Err(format!("normalised regions cover {} (2*area), the map {}", seen.total, truth_total));
    }
    let mut lines: Vec<Half> = Vec::new();
    let steps = rng.usize(1, if ctx.small { 3 } else { 6 });
    let mut trail = String::from("normalise");
    for _ in 0..steps {
        let data: Vec<u64> = t.regions.iter().map(|r| r.data).collect();
        if rng.chance(1, 2) {
            let m = gen_mask(rng, &s);
            trail.push_str(&format!(", clip {}", mask_name(&m)));
            ctx.say(|| format!("step: clip {}", mask_name(&m)));
            let n = lib("clipping", || clip_topology(&t, &m))?;
            let ns = snap::walk(&n)?;
            lines.push(Half::new(&m));
            let nseen = balance(ctx, &ns, &lines, &trail)?;
            let ndata: Vec<u64> = n.regions.iter().map(|r| r.data).collect();
            // what the outline held on this side of the line
            let h = Half::new(&m);
            let (mut want, mut tol, mut cuts) = (0i128, 4i128, 0u64);
            for (e, u) in seen.users.iter().enumerate() {
                if u.len() == 1 || u[0].1 == u[1].1 {
                    let mut pts = s.edges[e].clone();
                    if !u[0].1 {
                        pts.reverse();
                    }
                    let (a, t, c) = h.clipped_area2(&pts);
                    want += a * u.len() as i128;
                    tol += 2 * t + 1;
                    cuts += c;
                }
            }
            ctx.ev("outline crossings", cuts);
            // Simplified too far, a region's outline may have no ground left while
            // its holes do; such a region goes altogether.
            let lost = s.regions.iter().any(|reg| {
                let has = |ring: &Vec<(usize, bool)>| s.ring_points(ring).map_or(false, |pts| {
                    let (a, t, _) = h.clipped_area2(&pts);
                    a.abs() > t + 2
                });
                !reg.outer.iter().any(has) && reg.inner.iter().any(|r| s.ring_points(r).map_or(false, |pts| h.clipped_area2(&pts).0 != 0))
            });
            if lost {
                ctx.ev("clips of regions whose holes have outgrown them passed over", 1);
            } else if (nseen.total - want).abs() > tol {
                return Err(format!("{}: the regions cover {} (2*area), the outline held {} on this side of the line (rounding allows {})", trail, nseen.total, want, tol));
            }
            // borders away from the line keep both neighbours
            // (rings that hold next to no ground on this side may go altogether)
            let (mut a, mut b) = (sides(&s, &seen, &data, &h), sides(&ns, &nseen, &ndata, &h));
            for reg in &s.regions {
                for (_, _, ring) in reg.rings() {
                    let pts = s.ring_points(ring)?;
                    let (ar, tol, _) = h.clipped_area2(&pts);
                    if ar.abs() <= tol + 2 {
                        for w in pts.windows(2) {
                            let k = if w[0] < w[1] { (w[0], w[1]) } else { (w[1], w[0]) };
                            if a.remove(&k).is_some() {
                                ctx.ev("border segments of rings without ground passed over", 1);
                            }
                            b.remove(&k);
                        }
                    }
                }
            }
            if a != b && !lost {
                let k = a.iter().find(|(k, v)| b.get(k) != Some(v)).map(|(k, v)| (*k, v.clone(), b.get(k).cloned()));
                let l = b.iter().find(|(k, _)| !a.contains_key(k)).map(|(k, v)| (*k, v.clone()));
                return Err(format!("{}: the neighbours of a border segment changed: before/after {:?}, new {:?}", trail, k, l));
            }
            ctx.ev("border segments that kept their neighbours", a.len() as u64);
            if n.edges.len() != t.edges.len() {
                ctx.nontrivial = true;
            }
            t = n;
            s = ns;
            seen = nseen;
        } else {
            let th = gen_threshold(rng);
            trail.push_str(&format!(", simplify {}", th));
            ctx.say(|| format!("step: simplify {}", th));
            t = lib("simplifying", move || topogeo::simplify(t, th))?;
            let ns = snap::walk(&t)?;
            let nseen = balance(ctx, &ns, &lines, &trail)?;
            let ndata: Vec<u64> = t.regions.iter().map(|r| r.data).collect();
            if ndata != data || nseen.users != seen.users {
                return Err(format!("{}: edges changed neighbours", trail));
            }
            if ns.edges != s.edges {
                ctx.nontrivial = true;
                ctx.ev("simplifications that moved borders", 1);
            }
            s = ns;
            seen = nseen;
        }
    }
    s.digest(&mut ctx.output);
    Ok(())
}

// ---------------------------------------------------------------------- C22

pub enum Op {
    Normalise,
    Clip(ClipMask),
    Simplify(u64),
}

impl Clone for Op {
    fn clone(&self) -> Op {
        match self {
            Op::Normalise => Op::Normalise,
            Op::Simplify(t) => Op::Simplify(*t),
            Op::Clip(ClipMask::MinX(v)) => Op::Clip(ClipMask::MinX(*v)),
            Op::Clip(ClipMask::MaxX(v)) => Op::Clip(ClipMask::MaxX(*v)),
            Op::Clip(ClipMask::MinY(v)) => Op::Clip(ClipMask::MinY(*v)),
            Op::Clip(ClipMask::MaxY(v)) => Op::Clip(ClipMask::MaxY(*v)),
        }
    }
}

#[derive(Clone, PartialEq)]
pub struct Picture {
    snap: Snap,
    rings: Vec<[Option<RingId>; 2]>,
    data: Vec<u64>,
}

fn picture(t: &Topology<u64>) -> Result<Picture, String> {
    Ok(Picture { snap: snap::walk(t)?, rings: snap::edge_rings(t)?, data: t.regions.iter().map(|r| r.data).collect() })
}

pub fn run_ops(t: Topology<u64>, ops: &[Op]) -> Result<Vec<Picture>, String> {
    let mut t = t;
    let mut out = vec![picture(&t)?];
    for op in ops {
        t = match op {
            Op::Normalise => normalise(&t)?,
            Op::Clip(m) => lib("clipping", || clip_topology(&t, m))?,
            Op::Simplify(th) => {
                let th = *th;
                lib("simplifying", move || topogeo::simplify(t, th))?
            }
        };
        out.push(picture(&t)?);
    }
    Ok(out)
}

impl Clone for Prep {
    fn clone(&self) -> Prep {
        Prep { rings: self.rings.clone(), cuts: self.cuts.clone() }
    }
}
pub struct Prep {
    rings: Vec<Rings>,
    cuts: Option<Vec<Point>>,
}

impl Prep {
    fn regions<D, F: Fn(usize) -> D>(&self, mk: F) -> Vec<Region<D>> {
        match &self.cuts {
            None => self.rings.iter().enumerate().map(|(i, r)| to_region(mk(i), r)).collect(),
            Some(c) => {
                let set = c.iter().cloned().collect();
                self.rings.iter().enumerate().map(|(i, r)| to_region_cut(mk(i), r, &set)).collect()
            }
        }
    }
}

pub fn gen_prep(rng: &mut Rng, ctx: &mut Ctx) -> Option<Prep> {
    let o = opts(ctx);
    let map = gen_map(rng, ctx, &o);
    let p = present(rng, &map, Grouping::Mixed, true)?;
    let mut rings = reshuffle(rng, &p.regions);
    if rng.chance(1, 4) {
        align_starts(&mut rings);
    }
    ctx.say(|| describe(&map, &rings));
    for r in &rings {
        for x in r.outer.iter().chain(&r.inner) {
            ctx.input.points(x);
        }
    }
    let cuts = if rng.chance(1, 4) {
        let set: BTreeSet<Point> = consistent_cuts(rng, &rings).into_iter().collect();
        Some(set.into_iter().collect())
    } else {
        None
    };
    Some(Prep { rings, cuts })
}

/// A few columns whose borders have very many points.
pub fn long_prep(rng: &mut Rng, ctx: &mut Ctx) -> Prep {
    let (k, n) = (rng.usize(2, 4), rng.usize(100, if ctx.small { 150 } else { 900 }));
    let (width, height) = (1000 + rng.below(1 << 20) as u32, 1 + rng.below(1 << 20) as u32);
    let borders: Vec<Vec<Point>> = (0..=k)
        .map(|i| {
            let x = (i as u32 + 1) * width;
            (0..n as u32).map(|j| Point(if j == 0 || j as usize == n - 1 { x } else { x + rng.below(width as u64 / 2) as u32 }, 100 + j * height)).collect()
        })
        .collect();
    let mut corners = Vec::new();
    let mut rings = Vec::new();
    for w in borders.windows(2) {
        // y points down: up along the right border, down along the left one
        let mut r: Vec<Point> = w[1].iter().rev().cloned().collect();
        r.extend(w[0].iter().cloned());
        r.push(r[0]);
        ctx.input.points(&r);
        rings.push(Rings { outer: vec![r], inner: vec![] });
    }
    for b in &borders {
        corners.push(b[0]);
        corners.push(b[n - 1]);
    }
    ctx.ev("maps of very long borders", 1);
    Prep { rings, cuts: if rng.chance(3, 4) { Some(corners) } else { None } }
}

pub fn gen_ops(rng: &mut Rng, t: &Topology<u64>, max: usize) -> Result<Vec<Op>, String> {
    let s = snap::walk(t)?;
    let mut ops = Vec::new();
    let mut may_norm = true;
    for _ in 0..rng.usize(1, max) {
        ops.push(match rng.below(3) {
            0 if may_norm => Op::Normalise,
            0 | 1 => {
                may_norm = false;
                Op::Clip(gen_mask(rng, &s))
            }
            _ => {
                may_norm = false;
                Op::Simplify(gen_threshold(rng))
            }
        });
    }
    Ok(ops)
}

fn op_name(o: &Op) -> String {
    match o {
        Op::Normalise => "normalise".into(),
        Op::Clip(m) => format!("clip {}", mask_name(m)),
        Op::Simplify(t) => format!("simplify {}", t),
    }
}

pub fn digest_pictures(pictures: &[Picture], h: &mut Fnv) {
    for x in pictures {
        x.snap.digest(h);
        for r in &x.rings {
            for s in r {
                if let Some((a, b, c)) = s {
                    h.u64((*a as u64) << 20 | (*b as u64) << 19 | *c as u64);
                } else {
                    h.u64(u64::MAX);
                }
            }
        }
        for d in &x.data {
            h.u64(*d);
        }
    }
}

pub fn build_prep(p: &Prep) -> Result<Topology<u64>, String> {
    build(p.regions(tag))
}

pub fn c22(rng: &mut Rng, ctx: &mut Ctx) -> Result<(), String> {
    if rng.chance(1, 5) {
        return c22_read(rng, ctx);
    }
    let p = match gen_prep(rng, ctx) {
        Some(p) => p,
        None => return Ok(()),
    };
    let first = build(p.regions(tag))?;
    let ops = gen_ops(rng, &first, 5)?;
    ctx.say(|| ops.iter().map(op_name).collect::<Vec<_>>().join(", "));
    let a = run_ops(first, &ops)?;
    // shift the heap, so that addresses come out differently
    let ballast: Vec<Vec<u8>> = (0..rng.usize(1, 40)).map(|i| vec![0u8; 16 + i * 24]).collect();
    for rep in 0..3 {
        let p2 = p.clone();
        let ops2 = ops.clone();
        let b = if rep == 1 && !cfg!(miri) {
            // another thread has other hash seeds
            match std::thread::spawn(move || run_ops(build(p2.regions(tag))?, &ops2)).join() {
                Ok(x) => x?,
                Err(_) => return Err("panics in another thread".into()),
            }
        } else {
            run_ops(build(p2.regions(tag))?, &ops2)?
        };
        for (i, (x, y)) in a.iter().zip(&b).enumerate() {
            if x != y {
                let step = if i == 0 { "building".to_string() } else { op_name(&ops[i - 1]) };
                let d = diff_snap(&x.snap, &y.snap).unwrap_or_else(|| if x.data != y.data { "region data".into() } else { "order of an edge's ring references".into() });
                return Err(format!("{} gives another result when repeated: {}", step, d));
            }
            ctx.ev("repeated steps compared", 1);
        }
    }
    drop(ballast);
    digest_pictures(&a, &mut ctx.output);
    ctx.nontrivial = a.len() > 1 && a[0].snap.regions.len() > 1;
    Ok(())
}

fn c22_read(rng: &mut Rng, ctx: &mut Ctx) -> Result<(), String> {
    let (shp, dbf) = crate::p_read::gen_pair(rng, ctx);
    crate::p_read::hash_bytes(ctx, &shp);
    crate::p_read::hash_bytes(ctx, &dbf);
    ctx.nontrivial = true;
    ctx.say(|| format!("a pair of files of {} and {} bytes, read four times", shp.len(), dbf.len()));
    let a = crate::p_read::transcript(&shp, &dbf)?;
    for _ in 0..3 {
        let b = crate::p_read::transcript(&shp, &dbf)?;
        if a != b {
            return Err("reading the same bytes gives other items when repeated".into());
        }
        ctx.ev("repeated readings compared", 1);
    }
    ctx.output.str(&a);
    Ok(())
}

// ---------------------------------------------------------------------- C04

thread_local! {
    static ALIVE: RefCell<HashMap<u64, u64>> = RefCell::new(HashMap::new());
    static NEXT: RefCell<u64> = const { RefCell::new(0) };
    static FAULT: RefCell<Option<String>> = RefCell::new(None);
    static CLONES: RefCell<u64> = const { RefCell::new(0) };
}

const MAGIC: u64 = 0x0DA7_A0DA_7A0D_A7A0;

/// Region data that reports every birth and death.
struct Tracked<const N: usize> {
    magic: u64,
    serial: u64,
    id: u64,
    payload: Vec<u64>,
    pad: [u64; N],
}

impl<const N: usize> Tracked<N> {
    fn new(id: u64) -> Self {
        let serial = NEXT.with(|n| {
            *n.borrow_mut() += 1;
            *n.borrow()
        });
        ALIVE.with(|a| a.borrow_mut().insert(serial, id));
        Tracked { magic: MAGIC, serial, id, payload: vec![id; 3], pad: [id; N] }
    }
    fn check(&self, when: &str) {
        let ok = self.magic == MAGIC && self.payload.len() == 3 && self.payload.iter().all(|x| *x == self.id) && self.pad.iter().all(|x| *x == self.id);
        let alive = ok && ALIVE.with(|a| a.borrow().get(&self.serial) == Some(&self.id));
        if !alive {
            FAULT.with(|f| *f.borrow_mut() = Some(format!("a region's data is {} when {}", if ok { "already dropped" } else { "damaged" }, when)));
        }
    }
}
impl<const N: usize> Clone for Tracked<N> {
    fn clone(&self) -> Self {
        self.check("copied");
        CLONES.with(|c| *c.borrow_mut() += 1);
        Tracked::new(self.id)
    }
}
impl<const N: usize> Drop for Tracked<N> {
    fn drop(&mut self) {
        self.check("dropped");
        ALIVE.with(|a| a.borrow_mut().remove(&self.serial));
        self.magic = 0;
    }
}

/// One chain of operations over tracked data, everything dropped at the end in
/// the given order. Returns the regions and edges seen.
fn tracked_chain<D: Clone, F: Fn(usize) -> D, G: Fn(&D)>(p: &Prep, ops: &[Op], order: u64, mk: F, touch: G) -> Result<(u64, u64), String> {
    let mut t = build(p.regions(mk))?;
    let mut kept: Vec<Topology<D>> = Vec::new();
    let (mut regions, mut points) = (0u64, 0u64);
    for op in ops {
        let next = match op {
            Op::Normalise => {
                let n = lib("normalising", || topogeo::normalize(&t))?;
                kept.push(std::mem::replace(&mut t, n));
                continue;
            }
            Op::Clip(m) => lib("clipping", || clip_topology(&t, m))?,
            Op::Simplify(th) => {
                let th = *th;
                t = lib("simplifying", move || topogeo::simplify(t, th))?;
                continue;
            }
        };
        let old = std::mem::replace(&mut t, next);
        if order & 4 == 0 {
            kept.push(old);
        }
    }
    kept.push(t);
    for t in &kept {
        for r in t.regions.iter() {
            touch(&r.data);
            regions += 1;
            for ring in r.outer_rings.iter().chain(r.inner_rings.iter()) {
                for de in ring.directed_edges.iter() {
                    // follow the references the way users of the library do
                    let e = unsafe { &*de.edge };
                    points += e.points.len() as u64;
                    for &back in e.rings.iter() {
                        if !back.is_null() {
                            let region = unsafe { &*(*back).region };
                            touch(&region.data);
                        }
                    }
                }
            }
        }
    }
    if order & 1 == 1 {
        kept.reverse();
    }
    for t in kept {
        // some drop the regions first, some the edges
        if order & 2 == 2 {
            let Topology { regions, edges } = t;
            drop(edges);
            drop(regions);
        } else {
            drop(t);
        }
    }
    Ok((regions, points))
}

fn leaks<F: Fn() -> Result<(u64, u64), String>>(ctx: &mut Ctx, what: &str, f: F) -> Result<(), String> {
    CLONES.with(|c| *c.borrow_mut() = 0);
    let (regions, points) = f()?;
    ALIVE.with(|a| {
        let a = a.borrow();
        if a.is_empty() {
            Ok(())
        } else {
            Err(format!("{}: {} region data values are never dropped", what, a.len()))
        }
    })?;
    if let Some(m) = FAULT.with(|f| f.borrow_mut().take()) {
        return Err(format!("{}: {}", what, m));
    }
    ctx.ev("regions visited", regions);
    ctx.ev("edge points visited", points);
    ctx.ev("data copies tracked", CLONES.with(|c| *c.borrow()));
    if alloc::enabled() {
        // Again: now nothing is set up for the first time. The monitor's own table is
        // given back each time, since its size depends on chance.
        let balance = || -> Result<usize, String> {
            let before = alloc::live();
            f()?;
            ALIVE.with(|a| {
                let mut a = a.borrow_mut();
                if !a.is_empty() {
                    return Err(format!("{}: {} region data values are never dropped", what, a.len()));
                }
                *a = HashMap::new();
                Ok(())
            })?;
            Ok(alloc::live().saturating_sub(before))
        };
        ALIVE.with(|a| *a.borrow_mut() = HashMap::new());
        let mut left = balance()?;
        for _ in 0..2 {
            if left > 0 {
                left = balance()?;
            }
        }
        if left > 0 {
            return Err(format!("{}: {} bytes are still allocated after everything is dropped", what, left));
        }
        ctx.ev("leak balances drawn", 1);
    }
    Ok(())
}

pub fn c04(rng: &mut Rng, ctx: &mut Ctx) -> Result<(), String> {
    if rng.chance(1, 4) {
        // files, sound and damaged
        if rng.chance(1, 2) {
            let (shp, dbf) = crate::p_read::gen_pair(rng, ctx);
            crate::p_read::hash_bytes(ctx, &shp);
            crate::p_read::hash_bytes(ctx, &dbf);
            ctx.nontrivial = true;
            ctx.say(|| format!("a pair of files of {} and {} bytes", shp.len(), dbf.len()));
            let r = leaks(ctx, "reading", || crate::p_read::transcript(&shp, &dbf).map(|t| (0, t.len() as u64)));
            return r;
        }
        return crate::p_read::c19(rng, ctx);
    }
    if rng.chance(1, 3) {
        // long edges through the simplifier's heap and list
        return crate::p_simplify::c10(rng, ctx);
    }
    let p = match gen_prep(rng, ctx) {
        Some(p) => p,
        None => return Ok(()),
    };
    let probe = build(p.regions(tag))?;
    let ops = gen_ops(rng, &probe, if ctx.small { 3 } else { 5 })?;
    drop(probe);
    let order = rng.below(8);
    ctx.say(|| format!("{}; drop order {}", ops.iter().map(op_name).collect::<Vec<_>>().join(", "), order));
    ctx.nontrivial = p.rings.len() > 1;
    match rng.below(5) {
        0 => leaks(ctx, "chain", || tracked_chain(&p, &ops, order, |_| (), |_| ())),
        1 => leaks(ctx, "chain", || tracked_chain(&p, &ops, order, |i| i as u8, |_| ())),
        2 => leaks(ctx, "chain", || tracked_chain(&p, &ops, order, |i| Tracked::<0>::new(i as u64), |d| d.check("visited"))),
        3 => leaks(ctx, "chain", || tracked_chain(&p, &ops, order, |i| Tracked::<13>::new(i as u64), |d| d.check("visited"))),
        _ => leaks(ctx, "chain", || tracked_chain(&p, &ops, order, |i| Tracked::<1>::new(i as u64), |d| d.check("visited"))),
    }
}
