//! Safe view of a Topology: raw pointers become indices, without dereferencing
//! any of them. `walk` only needs the ring -> edge references; `full` is the
//! cross-reference monitor (C03).

use crate::ctx::Fnv;
use std::collections::HashMap;
use crate::pt::{to_own, Point};
use topogeo::topology::{Direction, TopoEdge, TopoRegion, TopoRing, Topology};

pub type RingId = (usize, bool, usize); // region, inner?, index

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SnapRegion {
    pub outer: Vec<Vec<(usize, bool)>>, // (edge index, forward?)
    pub inner: Vec<Vec<(usize, bool)>>,
}

impl SnapRegion {
    pub fn rings(&self) -> impl Iterator<Item = (bool, usize, &Vec<(usize, bool)>)> {
        self.outer
            .iter()
            .enumerate()
            .map(|(i, r)| (false, i, r))
            .chain(self.inner.iter().enumerate().map(|(i, r)| (true, i, r)))
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Snap {
    pub edges: Vec<Vec<Point>>,
    pub regions: Vec<SnapRegion>,
}

pub fn walk<D>(t: &Topology<D>) -> Result<Snap, String> {
    let size = std::mem::size_of::<TopoEdge<D>>();
    let base = t.edges.as_ptr() as usize;
    let n = t.edges.len();
    let conv = |ri: usize, inner: bool, k: usize, ring: &TopoRing<D>| -> Result<Vec<(usize, bool)>, String> {
        ring.directed_edges
            .iter()
            .map(|de| {
                let a = de.edge as usize;
                let off = a.wrapping_sub(base);
                if size == 0 || off % size != 0 || off / size >= n {
                    return Err(format!(
                        "region {} {} ring {}: directed edge refers to address outside the topology's {} edges",
                        ri, if inner { "inner" } else { "outer" }, k, n
                    ));
                }
                Ok((off / size, de.direction == Direction::Forward))
            })
            .collect()
    };
    let mut regions = Vec::new();
    for (ri, r) in t.regions.iter().enumerate() {
        let mut outer = Vec::new();
        for (k, ring) in r.outer_rings.iter().enumerate() {
            outer.push(conv(ri, false, k, ring)?);
        }
        let mut inner = Vec::new();
        for (k, ring) in r.inner_rings.iter().enumerate() {
            inner.push(conv(ri, true, k, ring)?);
        }
        regions.push(SnapRegion { outer, inner });
    }
    Ok(Snap { edges: t.edges.iter().map(|e| to_own(&e.points)).collect(), regions })
}

/// The ring references of every edge, resolved by address (None: null).
pub fn edge_rings<D>(t: &Topology<D>) -> Result<Vec<[Option<RingId>; 2]>, String> {
    let mut at: HashMap<usize, RingId> = HashMap::new();
    for (ri, r) in t.regions.iter().enumerate() {
        for (k, ring) in r.outer_rings.iter().enumerate() {
            at.insert(ring as *const TopoRing<D> as usize, (ri, false, k));
        }
        for (k, ring) in r.inner_rings.iter().enumerate() {
            at.insert(ring as *const TopoRing<D> as usize, (ri, true, k));
        }
    }
    let mut ret = Vec::new();
    for (ei, e) in t.edges.iter().enumerate() {
        let mut pair = [None, None];
        for s in 0..2 {
            if !e.rings[s].is_null() {
                match at.get(&(e.rings[s] as usize)) {
                    Some(id) => pair[s] = Some(*id),
                    None => return Err(format!("edge {}: ring reference {} points to no ring of the topology", ei, s)),
                }
            }
        }
        ret.push(pair);
    }
    Ok(ret)
}

/// Checks every cross-reference of the topology.
pub fn full<D>(t: &Topology<D>) -> Result<(Snap, u64), String> {
    let snap = walk(t)?;
    let mut checked = 0u64;
    for (ri, r) in t.regions.iter().enumerate() {
        let addr = r as *const TopoRegion<D>;
        for (k, ring) in r.outer_rings.iter().chain(r.inner_rings.iter()).enumerate() {
            checked += 1;
            if ring.region != addr {
                return Err(format!("region {} ring {}: region reference does not point to the region that holds the ring", ri, k));
            }
        }
    }
    let er = edge_rings(t)?;
    let mut uses: Vec<Vec<RingId>> = vec![vec![]; t.edges.len()];
    for (ri, r) in snap.regions.iter().enumerate() {
        for (inner, k, ring) in r.rings() {
            for &(e, _) in ring {
                uses[e].push((ri, inner, k));
                checked += 1;
            }
        }
    }
    for (ei, u) in uses.iter_mut().enumerate() {
        checked += 1;
        let mut have: Vec<RingId> = er[ei].iter().filter_map(|x| *x).collect();
        if er[ei][0].is_none() && er[ei][1].is_some() {
            return Err(format!("edge {}: first ring reference is null but second is not", ei));
        }
        have.sort();
        u.sort();
        if &have != u {
            return Err(format!("edge {}: ring references {:?} but it is walked by {:?}", ei, have, u));
        }
        if u.is_empty() {
            return Err(format!("edge {}: walked by no ring", ei));
        }
    }
    Ok((snap, checked))
}

impl Snap {
    /// Points of a ring in walking order, without repeating the joints; the
    /// closing point is included. Err if the chain is not continuous.
    pub fn ring_points(&self, ring: &[(usize, bool)]) -> Result<Vec<Point>, String> {
        let mut ret: Vec<Point> = Vec::new();
        for &(e, fwd) in ring {
            let pts = &self.edges[e];
            if pts.is_empty() {
                return Err("edge without points".into());
            }
            let first = if fwd { pts[0] } else { pts[pts.len() - 1] };
            if let Some(&l) = ret.last() {
                if l != first {
                    return Err(format!("ring not continuous: edge ends at {:?}, next starts at {:?}", l, first));
                }
                ret.pop();
            }
            if fwd {
                ret.extend(pts.iter());
            } else {
                ret.extend(pts.iter().rev());
            }
        }
        if ret.is_empty() || ret[0] != ret[ret.len() - 1] {
            return Err(format!("ring not closed: {:?} .. {:?}", ret.first(), ret.last()));
        }
        Ok(ret)
    }

    pub fn digest(&self, f: &mut Fnv) {
        f.u64(self.edges.len() as u64);
        for e in &self.edges {
            f.points(e);
        }
        f.u64(self.regions.len() as u64);
        for r in &self.regions {
            for (inner, _, ring) in r.rings() {
                f.u64(inner as u64 + 10);
                for &(e, d) in ring {
                    f.u64((e as u64) * 2 + d as u64);
                }
            }
        }
    }
}

/// Exact 2 * signed area (positive: clockwise, y down).
pub fn area2(pts: &[Point]) -> i128 {
    let mut a = 0i128;
    for w in pts.windows(2) {
        a += w[0].0 as i128 * w[1].1 as i128 - w[1].0 as i128 * w[0].1 as i128;
    }
    a
}

pub fn dedupe(pts: &[Point]) -> Vec<Point> {
    let mut v = pts.to_vec();
    v.dedup();
    v
}
