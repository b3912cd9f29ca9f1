//! C15: areas, winding and ring conversions.

use crate::ctx::{fmt_points, lib, Ctx};
use crate::rng::Rng;
use crate::snap;
use crate::pt::{to_lib, to_own, Point};
use topogeo::geo::{self, Edge, Ring, WindingOrder};

fn gen_ring(rng: &mut Rng, ctx: &Ctx) -> (Vec<Point>, &'static str) {
    let max = if ctx.small { 8 } else if rng.chance(1, 40) { 2000 } else { 24 };
    let n = if ctx.large { rng.usize(66_000, 200_000) } else { rng.usize(1, max) };
    let m = u32::MAX;
    let coord = |rng: &mut Rng, style: u64| -> u32 {
        match style {
            0 => rng.u32(),
            1 => *rng.pick(&[0, m]),
            2 => *rng.pick(&[0, 1, m - 1, m, 1 << 31, (1 << 31) - 1]),
            3 => rng.below(4) as u32,
            4 => m - rng.below(4) as u32,
            _ => (rng.u64() >> rng.range(32, 63)) as u32,
        }
    };
    let (sx, sy) = (rng.below(6), rng.below(6));
    let mut v: Vec<Point>;
    let kind;
    match rng.below(5) {
        0 => {
            kind = "whole square, walked in steps";
            let k = if ctx.large { rng.usize(16_500, 40_000) } else { rng.usize(1, 6) } as u64;
            v = Vec::new();
            let step = |i: u64| (m as u64 * i / k) as u32;
            for i in 0..k {
                v.push(Point(step(i), 0));
            }
            for i in 0..k {
                v.push(Point(m, step(i)));
            }
            for i in (1..=k).rev() {
                v.push(Point(step(i), m));
            }
            for i in (1..=k).rev() {
                v.push(Point(0, step(i)));
            }
        }
        1 => {
            kind = "there and back";
            v = (0..n).map(|_| Point(coord(rng, sx), coord(rng, sy))).collect();
            let mut w = v.clone();
            w.reverse();
            v.extend_from_slice(&w[1..]);
            if rng.chance(1, 2) {
                let i = rng.usize(0, v.len() - 1);
                v[i] = Point(coord(rng, sx), coord(rng, sy));
            }
        }
        2 => {
            kind = "many turns around the square";
            v = Vec::new();
            for _ in 0..rng.usize(1, 5) {
                v.extend_from_slice(&[Point(0, 0), Point(m, 0), Point(m, m), Point(0, m)]);
            }
        }
        _ => {
            kind = "random";
            v = (0..n).map(|_| Point(coord(rng, sx), coord(rng, sy))).collect();
        }
    }
    if rng.chance(1, 2) {
        v.reverse();
    }
    let f = v[0];
    v.push(f);
    (v, kind)
}

pub fn c15(rng: &mut Rng, ctx: &mut Ctx) -> Result<(), String> {
    let (pts, kind) = gen_ring(rng, ctx);
    ctx.say(|| format!("{}: {}", kind, fmt_points(&pts)));
    ctx.input.points(&pts);
    ctx.ev(kind, 1);
    if pts.len() > 65_536 {
        ctx.ev("rings of more than 65536 points", 1);
    }
    let want = snap::area2(&pts);
    ctx.nontrivial = want != 0;
    if want.abs() > i64::MAX as i128 {
        ctx.ev("areas that do not fit 64 bits signed", 1);
    }
    if want == 0 {
        ctx.ev("rings without area", 1);
    }
    let cw = want >= 0;
    let is_cw = |w: WindingOrder| w == WindingOrder::Clockwise;

    // cut anywhere into edges
    let mut edges: Vec<Vec<Point>> = Vec::new();
    let mut cur = vec![pts[0]];
    for (i, p) in pts.iter().enumerate().skip(1) {
        cur.push(*p);
        if i == pts.len() - 1 || rng.chance(1, 3) {
            edges.push(std::mem::replace(&mut cur, vec![*p]));
        }
    }
    ctx.say(|| format!("cut into {} edges", edges.len()));
    let given = to_lib(&pts);
    let as_points = Ring::Points(to_lib(&pts).into_boxed_slice());
    let as_edges = Ring::Edges(edges.iter().map(|e| Edge(to_lib(e).into_boxed_slice())).collect());
    let mut back = pts.clone();
    back.reverse();
    let reversed = Ring::Points(to_lib(&back).into_boxed_slice());

    let signed = lib("signed_area2", || geo::signed_area2(given.iter()))? as i128;
    ctx.output.u64(signed as u64);
    if signed != want {
        return Err(format!("signed 2*area is {} not {}", signed, want));
    }
    let mut sum = 0i128;
    for e in &edges {
        let a = lib("signed_area2", || geo::signed_area2(to_lib(e).iter()))? as i128;
        if a != snap::area2(e) {
            return Err(format!("signed 2*area of edge {} is {} not {}", fmt_points(e), a, snap::area2(e)));
        }
        sum += a;
    }
    if sum != want {
        return Err(format!("the edges' areas add up to {} not {}", sum, want));
    }
    ctx.ev("edges summed", edges.len() as u64);
    let (a, w) = lib("area2_and_winding_order", || geo::area2_and_winding_order(given.iter()))?;
    if a as i128 != want.abs() || is_cw(w) != cw {
        return Err(format!("2*area and winding are {} {:?}, should be {}", a, w, want));
    }
    let a = lib("area2", || geo::area2(given.iter()))?;
    let w = lib("winding_order", || geo::winding_order(given.iter()))?;
    if a as i128 != want.abs() || is_cw(w) != cw {
        return Err(format!("area2 and winding_order are {} {:?}, should be {}", a, w, want));
    }
    for (name, ring, cw) in [("points", &as_points, cw), ("edges", &as_edges, cw), ("reversed points", &reversed, want <= 0)] {
        let (a, w) = lib("Ring::area2_and_winding_order", || ring.area2_and_winding_order())?;
        let (a2, w2) = lib("Ring::area2", || (ring.area2(), ring.winding_order()))?;
        if a as i128 != want.abs() || a2 as i128 != want.abs() || is_cw(w) != cw || is_cw(w2) != cw {
            return Err(format!("ring as {}: 2*area {} ({}), {:?} ({:?}); should be {} and {}", name, a, a2, w, w2, want.abs(), if cw { "clockwise" } else { "counter-clockwise" }));
        }
        ctx.ev("rings measured", 1);
    }
    // conversions
    let p = to_own(&lib("Ring::points", || as_edges.points())?);
    if p[..] != pts[..] {
        return Err(format!("ring of edges {:?} as points is {}", edges.iter().map(|e| fmt_points(e)).collect::<Vec<_>>(), fmt_points(&p)));
    }
    let p = to_own(&lib("Ring::points", || as_points.points())?);
    if p[..] != pts[..] {
        return Err("points of a ring of points changed".into());
    }
    let e = lib("Ring::edges", || as_points.edges())?;
    if e.len() != pts.len() - 1 || e.iter().zip(pts.windows(2)).any(|(e, w)| to_own(&e.0)[..] != w[..]) {
        return Err(format!("edges of {} are {:?}", fmt_points(&pts), e));
    }
    let e2 = lib("Ring::edges", || as_edges.edges())?;
    if e2.len() != edges.len() || e2.iter().zip(edges.iter()).any(|(e, w)| to_own(&e.0)[..] != w[..]) {
        return Err("edges of a ring of edges changed".into());
    }
    let round = to_own(&lib("Ring::points", || Ring::Edges(e).points())?);
    if round[..] != pts[..] {
        return Err(format!("points to edges to points gave {}", fmt_points(&round)));
    }
    ctx.ev("conversions compared", 5);
    Ok(())
}
