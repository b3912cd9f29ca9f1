//! C05 - C08: normalisation against the ground truth of the generated map.

use crate::ctx::{fmt_points, lib, Ctx};
use crate::mesh::*;
use crate::p_build::{build, tag};
use crate::rng::Rng;
use crate::snap::{self, area2, Snap};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use crate::pt::{to_lib, Point};
use topogeo::geo::{Region, Ring};
use topogeo::topology::Topology;

/// Points at which rings given as edges have to be cut so that neighbours cut
/// their common border alike.
pub fn consistent_cuts(rng: &mut Rng, rings: &[Rings]) -> HashSet<Point> {
    let mut walkers: HashMap<Seg, BTreeSet<usize>> = HashMap::new();
    let all: Vec<&Vec<Point>> = rings.iter().flat_map(|r| r.outer.iter().chain(r.inner.iter())).collect();
    let key = |a: Point, b: Point| if a < b { (a, b) } else { (b, a) };
    for (i, r) in all.iter().enumerate() {
        for w in r.windows(2) {
            walkers.entry(key(w[0], w[1])).or_insert_with(BTreeSet::new).insert(i);
        }
    }
    // where each ring that comes along a segment goes on to
    let mut onward: HashMap<(Point, Point), BTreeSet<Point>> = HashMap::new();
    for r in all.iter() {
        let n = r.len() - 1;
        for i in 0..n {
            let (a, p, b) = (r[(i + n - 1) % n], r[i], r[i + 1]);
            onward.entry((a, p)).or_insert_with(BTreeSet::new).insert(b);
            onward.entry((b, p)).or_insert_with(BTreeSet::new).insert(a);
        }
    }
    let extra = rng.below(4);
    let mut cuts: HashSet<Point> = HashSet::new();
    for r in all.iter() {
        cuts.insert(r[0]);
        let n = r.len() - 1;
        for i in 0..n {
            let before = &walkers[&key(r[(i + n - 1) % n], r[i])];
            let after = &walkers[&key(r[i], r[i + 1])];
            let forks = onward[&(r[(i + n - 1) % n], r[i])].len() > 1 || onward[&(r[i + 1], r[i])].len() > 1;
            let tip = r[(i + n - 1) % n] == r[i + 1];
            if before != after || forks || tip || rng.chance(extra, 8) {
                cuts.insert(r[i]);
            }
        }
    }
    cuts
}

pub fn to_region_cut<D>(data: D, r: &Rings, cuts: &HashSet<Point>) -> Region<D> {
    let f = |x: &Vec<Point>| -> Ring { edges_ring(&cut_ring(x, cuts)) };
    Region { data, outer_rings: r.outer.iter().map(f).collect(), inner_rings: r.inner.iter().map(f).collect() }
}

pub fn build_rings(rng: &mut Rng, ctx: &mut Ctx, rings: &[Rings]) -> Result<Topology<u64>, String> {
    if rng.chance(1, 4) {
        let cuts = consistent_cuts(rng, rings);
        ctx.ev("maps given as multi-point edges", 1);
        ctx.say(|| format!("given as edges, cut at {:?}", cuts.iter().collect::<BTreeSet<_>>()));
        build(rings.iter().enumerate().map(|(i, r)| to_region_cut(tag(i), r, &cuts)).collect())
    } else {
        build(rings.iter().enumerate().map(|(i, r)| to_region(tag(i), r)).collect())
    }
}

pub struct Prepared {
    pub map: Map,
    pub rings: Vec<Rings>,
    pub topo: Topology<u64>,
    pub truth: Truth,
}

fn features(ctx: &mut Ctx, map: &Map, truth: &Truth, p: &Presentation) {
    ctx.ev("rings spliced at a touching point", p.spliced);
    ctx.ev("holes presented", p.holes);
    ctx.ev("border segments in truth", truth.sides.len() as u64);
    let mut outs: HashMap<(usize, Point), u32> = HashMap::new();
    for (r, s) in truth.of_region.iter().enumerate() {
        for (a, _) in s {
            *outs.entry((r, *a)).or_insert(0) += 1;
        }
    }
    ctx.ev("points where a region touches itself", outs.values().filter(|&&n| n > 1).count() as u64);
    let mut by_point: HashMap<Point, BTreeSet<usize>> = HashMap::new();
    for ((r, p), n) in outs.iter() {
        if *n > 1 {
            by_point.entry(*p).or_insert_with(BTreeSet::new).insert(*r);
        }
    }
    ctx.ev("points where two regions alternate", by_point.values().filter(|s| s.len() > 1).count() as u64);
    let redundant: usize = map
        .faces
        .iter()
        .map(|f| f.len())
        .sum::<usize>();
    ctx.ev("face segments", redundant as u64);
}

pub fn prepare(rng: &mut Rng, ctx: &mut Ctx, o: &MapOpts) -> Result<Option<Prepared>, String> {
    let map = gen_map(rng, ctx, o);
    let g = *rng.pick(&[Grouping::Cells, Grouping::Whole, Grouping::Clusters, Grouping::Mixed, Grouping::Mixed]);
    let splice = rng.chance(1, 2) && !o.no_splice;
    let p = match present(rng, &map, g, splice) {
        Some(p) => p,
        None => {
            ctx.ev("skipped (degenerate drawing)", 1);
            return Ok(None);
        }
    };
    let truth = truth(&map);
    features(ctx, &map, &truth, &p);
    let mut rings = if rng.chance(3, 4) { reshuffle(rng, &p.regions) } else { p.regions };
    if rng.chance(1, 4) {
        align_starts(&mut rings);
        ctx.ev("maps whose rings start alike", 1);
    }
    if !o.no_splice && rng.chance(1, 6) {
        add_spikes(rng, ctx, &mut rings);
    }
    ctx.say(|| describe(&map, &rings));
    for r in &rings {
        for x in r.outer.iter().chain(r.inner.iter()) {
            ctx.input.points(x);
        }
    }
    let topo = build_rings(rng, ctx, &rings)?;
    Ok(Some(Prepared { map, rings, topo, truth }))
}

pub fn normalise<D: Clone>(t: &Topology<D>) -> Result<Topology<D>, String> {
    lib("normalising", || topogeo::normalize(t))
}

fn undirected(a: Point, b: Point) -> Seg {
    if a < b {
        (a, b)
    } else {
        (b, a)
    }
}

/// Ground of every region of a topology snapshot equals the truth.
pub fn check_ground(ctx: &mut Ctx, s: &Snap, data: &[u64], truth: &Truth) -> Result<(), String> {
    let n = truth.of_region.len();
    if s.regions.len() != n {
        return Err(format!("{} regions became {}", n, s.regions.len()));
    }
    for r in 0..n {
        if data[r] != tag(r) {
            return Err(format!("region {} has another region's data", r));
        }
        let mut want: BTreeMap<Seg, i32> = BTreeMap::new();
        for (a, b) in &truth.of_region[r] {
            *want.entry(undirected(*a, *b)).or_insert(0) += 1;
        }
        let mut area = 0i128;
        for (inner, k, ring) in s.regions[r].rings() {
            let pts = s.ring_points(ring).map_err(|e| format!("region {} ring {}: {}", r, k, e))?;
            let a = area2(&pts);
            area += if inner { -a.abs() } else { a.abs() };
            for w in pts.windows(2) {
                if w[0] == w[1] {
                    continue;
                }
                ctx.ev("border segments compared", 1);
                *want.entry(undirected(w[0], w[1])).or_insert(0) -= 1;
            }
        }
        for (seg, c) in &want {
            if *c != 0 {
                return Err(format!(
                    "region {}: border segment {:?}-{:?} {}",
                    r, seg.0, seg.1,
                    if *c > 0 { "is missing" } else { "does not belong to its border" }
                ));
            }
        }
        if area != truth.area2[r] {
            return Err(format!("region {}: twice its area was {} and is {}", r, truth.area2[r], area));
        }
    }
    Ok(())
}

pub fn c05(rng: &mut Rng, ctx: &mut Ctx) -> Result<(), String> {
    let o = opts(ctx);
    let p = match prepare(rng, ctx, &o)? {
        Some(p) => p,
        None => return Ok(()),
    };
    let before = snap::walk(&p.topo)?;
    let n = normalise(&p.topo)?;
    if snap::walk(&p.topo)? != before {
        return Err("the input topology was modified".into());
    }
    let s = snap::walk(&n)?;
    let data: Vec<u64> = n.regions.iter().map(|r| r.data).collect();
    ctx.nontrivial = s.edges.len() < before.edges.len();
    s.digest(&mut ctx.output);
    check_ground(ctx, &s, &data, &p.truth)?;
    // and again, on its own output
    let n2 = normalise(&n)?;
    let s2 = snap::walk(&n2)?;
    let data: Vec<u64> = n2.regions.iter().map(|r| r.data).collect();
    check_ground(ctx, &s2, &data, &p.truth)
}

pub fn check_minimal<D>(ctx: &mut Ctx, t: &Topology<D>, truth: &Truth) -> Result<(), String> {
    let s = snap::walk(t)?;
    let er = snap::edge_rings(t)?;
    // redundancy is judged by who walks the edge, not by its own references
    let mut walkers: Vec<Vec<usize>> = vec![vec![]; s.edges.len()];
    for (r, reg) in s.regions.iter().enumerate() {
        for (_, _, ring) in reg.rings() {
            for &(e, _) in ring {
                walkers[e].push(r);
            }
        }
    }
    for (i, e) in s.edges.iter().enumerate() {
        ctx.ev("edges checked", 1);
        let w = &walkers[i];
        if w.len() > 2 || (w.len() == 2 && w[0] == w[1]) {
            return Err(format!("edge {} {} is walked by regions {:?}", i, fmt_points(e), w));
        }
        if let [Some(a), Some(b)] = er[i] {
            if a.0 == b.0 {
                return Err(format!("edge {} has region {} on both sides", i, a.0));
            }
        }
        let deg = |p: &Point| truth.degree.get(p).cloned().unwrap_or(0);
        for p in &e[1..e.len() - 1] {
            if deg(p) != 2 {
                return Err(format!("edge {} {} runs through {:?}, where {} borders meet", i, fmt_points(e), p, deg(p)));
            }
        }
        let (f, l) = (e[0], e[e.len() - 1]);
        if f == l && deg(&f) == 2 {
            ctx.ev("islands and lakes", 1);
        } else {
            for p in [f, l] {
                if deg(&p) < 3 {
                    return Err(format!("edge {} {} ends at {:?}, where only {} borders meet", i, fmt_points(e), p, deg(&p)));
                }
                ctx.ev("edge ends at nodes", 1);
            }
        }
    }
    Ok(())
}

pub fn c06(rng: &mut Rng, ctx: &mut Ctx) -> Result<(), String> {
    let o = opts(ctx);
    let p = match prepare(rng, ctx, &o)? {
        Some(p) => p,
        None => return Ok(()),
    };
    let n = normalise(&p.topo)?;
    let s = snap::walk(&n)?;
    s.digest(&mut ctx.output);
    ctx.nontrivial = s.edges.len() >= 2;
    check_minimal(ctx, &n, &p.truth)
}

fn touching(truth: &Truth) -> bool {
    truth.of_region.iter().any(|s| {
        let mut seen = HashSet::new();
        s.iter().any(|(a, _)| !seen.insert(*a))
    })
}

fn check_form(ctx: &mut Ctx, s: &Snap, truth: &Truth) -> Result<(), String> {
    for (r, reg) in s.regions.iter().enumerate() {
        for (list, inner) in [(&reg.outer, false), (&reg.inner, true)] {
            let mut last: Option<Point> = None;
            for (k, ring) in list.iter().enumerate() {
                let pts = s.ring_points(ring)?;
                let a = area2(&pts);
                ctx.ev("rings checked", 1);
                if (a > 0) == inner || a == 0 {
                    return Err(format!("region {} {} ring {} has 2*area {}", r, if inner { "inner" } else { "outer" }, k, a));
                }
                let node = pts.iter().filter(|p| truth.degree.get(p).cloned().unwrap_or(0) != 2).min();
                let want = node.or(pts.iter().min()).unwrap();
                if &pts[0] != want {
                    return Err(format!("region {} ring {} starts at {:?}, not at {:?}: {}", r, k, pts[0], want, fmt_points(&pts)));
                }
                if let Some(l) = last {
                    if l > pts[0] {
                        return Err(format!("region {}: rings not ordered by start: {:?} before {:?}", r, l, pts[0]));
                    }
                    ctx.ev("ring order pairs", 1);
                    if l == pts[0] {
                        ctx.ev("rings starting at the same node", 1);
                    }
                }
                last = Some(pts[0]);
            }
        }
    }
    Ok(())
}

pub fn c07(rng: &mut Rng, ctx: &mut Ctx) -> Result<(), String> {
    let o = opts(ctx);
    let p = match prepare(rng, ctx, &o)? {
        Some(p) => p,
        None => return Ok(()),
    };
    let n = normalise(&p.topo)?;
    let s = snap::walk(&n)?;
    s.digest(&mut ctx.output);
    ctx.nontrivial = s.regions.len() >= 2 || s.regions.iter().any(|r| r.outer.len() + r.inner.len() > 1);
    check_form(ctx, &s, &p.truth)?;
    let again = snap::walk(&normalise(&n)?)?;
    if again != s {
        return Err("normalising a normalised topology changed it".into());
    }
    ctx.ev("idempotence checks", 1);
    for _ in 0..2 {
        let mut rings = reshuffle(rng, &p.rings);
        if rng.chance(1, 4) {
            align_starts(&mut rings);
        }
        ctx.say(|| format!("re-presented as:{}", describe_rings(&rings)));
        let t = build_rings(rng, ctx, &rings)?;
        let s2 = snap::walk(&normalise(&t)?)?;
        if s2 != s {
            return Err(diff_snap(&s, &s2).unwrap_or_else(|| "re-presented input normalises differently".into()));
        }
        ctx.ev("re-presentations compared", 1);
    }
    if !touching(&p.truth) {
        // rings are fully determined: any grouping of the faces must give them
        if let Some(q) = present(rng, &p.map, Grouping::Mixed, false) {
            let mut rings = reshuffle(rng, &q.regions);
            if rng.chance(1, 4) {
                align_starts(&mut rings);
            }
            ctx.say(|| format!("re-grouped as:{}", describe_rings(&rings)));
            let t = build_rings(rng, ctx, &rings)?;
            let s2 = snap::walk(&normalise(&t)?)?;
            if s2 != s {
                return Err(diff_snap(&s, &s2).unwrap_or_else(|| "re-grouped input normalises differently".into()));
            }
            ctx.ev("re-groupings compared", 1);
        }
    }
    Ok(())
}

pub fn diff_snap(a: &Snap, b: &Snap) -> Option<String> {
    if a.regions.len() != b.regions.len() {
        return Some(format!("{} regions vs {}", a.regions.len(), b.regions.len()));
    }
    for (r, (x, y)) in a.regions.iter().zip(b.regions.iter()).enumerate() {
        for (p, q, name) in [(&x.outer, &y.outer, "outer"), (&x.inner, &y.inner, "inner")] {
            if p.len() != q.len() {
                return Some(format!("region {}: {} {} rings vs {}", r, p.len(), name, q.len()));
            }
            for (k, (m, n)) in p.iter().zip(q.iter()).enumerate() {
                let (u, v) = (a.ring_points(m).ok()?, b.ring_points(n).ok()?);
                if u != v {
                    return Some(format!("region {} {} ring {} differs: {} vs {}", r, name, k, fmt_points(&u), fmt_points(&v)));
                }
                if m.len() != n.len() {
                    return Some(format!("region {} {} ring {}: {} edges vs {}", r, name, k, m.len(), n.len()));
                }
            }
        }
    }
    if a.edges != b.edges {
        return Some(format!("the lists of edges differ ({} vs {})", a.edges.len(), b.edges.len()));
    }
    if a != b {
        return Some("directions or edge references differ".into());
    }
    None
}

pub fn c08(rng: &mut Rng, ctx: &mut Ctx) -> Result<(), String> {
    let o = opts(ctx);
    let p = match prepare(rng, ctx, &o)? {
        Some(p) => p,
        None => return Ok(()),
    };
    let n = normalise(&p.topo)?;
    let s = snap::walk(&n)?;
    s.digest(&mut ctx.output);
    let er = snap::edge_rings(&n)?;
    let mut holder: BTreeMap<Seg, Vec<usize>> = BTreeMap::new();
    for (i, e) in s.edges.iter().enumerate() {
        for w in e.windows(2) {
            holder.entry(undirected(w[0], w[1])).or_insert_with(Vec::new).push(i);
        }
    }
    for (seg, &(a, b)) in &p.truth.sides {
        let h = match holder.get(seg) {
            Some(h) => h,
            None => return Err(format!("border {:?}-{:?} between {:?} and {:?} is in no edge", seg.0, seg.1, a, b)),
        };
        if h.len() != 1 {
            return Err(format!("border {:?}-{:?} between {:?} and {:?} is stored in {} edges", seg.0, seg.1, a, b, h.len()));
        }
        let mut want: Vec<usize> = vec![a, b].into_iter().flatten().collect();
        want.sort();
        let mut got: Vec<usize> = er[h[0]].iter().flatten().map(|x| x.0).collect();
        got.sort();
        if want != got {
            return Err(format!("border {:?}-{:?} separates {:?} but its edge refers to rings of {:?}", seg.0, seg.1, want, got));
        }
        // the rings referred to do walk it
        for id in er[h[0]].iter().flatten() {
            let reg = &s.regions[id.0];
            let ring = if id.1 { &reg.inner[id.2] } else { &reg.outer[id.2] };
            if !ring.iter().any(|&(e, _)| e == h[0]) {
                return Err(format!("edge {} refers to a ring of region {} that does not walk it", h[0], id.0));
            }
        }
        if want.len() == 2 {
            ctx.nontrivial = true;
            ctx.ev("shared border segments", 1);
        } else {
            ctx.ev("outer border segments", 1);
        }
    }
    Ok(())
}
