//! C26: printed forms of values, also to a destination that fails.

use crate::ctx::{lib, Ctx};
use crate::files::*;
use crate::p_cli::{gen_table, gen_table_of};
use crate::rng::Rng;
use std::error::Error;
use std::fmt::{self, Display, Write};
use std::io;
use crate::pt::{own, to_own};
use topogeo::geo::{Edge, Point, Region, Ring};
use topogeo::read::shapefile::dbf::{DbfError, DbfReader};
use topogeo::read::shapefile::shp::{ShpError, ShpPoint, ShpPolygonRing};
use topogeo::read::shapefile::shapefile::{ShapefileError, ShapefileRecord};

/// Takes so many bytes, then fails; remembers whether it was written to after that.
struct Sink {
    got: String,
    room: usize,
    failed: bool,
    after: bool,
}

impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed {
            self.after = true;
            return Err(fmt::Error);
        }
        if self.got.len() + s.len() > self.room {
            self.failed = true;
            return Err(fmt::Error);
        }
        self.got.push_str(s);
        Ok(())
    }
}

fn short(s: &str) -> String {
    s.chars().take(300).collect()
}

/// Compares the printed form with `want`, then prints to failing destinations.
fn printed(rng: &mut Rng, ctx: &mut Ctx, what: &str, v: &dyn Display, want: &str) -> Result<(), String> {
    let mut sink = Sink { got: String::new(), room: usize::MAX, failed: false, after: false };
    lib(&format!("printing a {}", what), || write!(sink, "{}", v))?.map_err(|_| format!("printing a {} fails", what))?;
    ctx.ev("values printed", 1);
    ctx.output.str(&sink.got);
    if sink.got != want {
        let at = sink.got.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count();
        let cut = |s: &str| s.chars().skip(at.saturating_sub(30)).take(100).collect::<String>();
        return Err(format!("{} is printed as ...{}... and not as ...{}...", what, cut(&sink.got), cut(want)));
    }
    for k in 0..3 {
        let room = match k {
            0 => want.len() - rng.usize(1, std::cmp::min(3, want.len())),
            _ => rng.usize(0, want.len() - 1),
        };
        let mut sink = Sink { got: String::new(), room, failed: false, after: false };
        let r = lib(&format!("printing a {}", what), || write!(sink, "{}", v))?;
        ctx.ev("failing destinations", 1);
        if !sink.failed {
            return Err(format!("{}: {} bytes went into room for {}", what, want.len(), room));
        }
        if r.is_ok() {
            return Err(format!("printing a {} to a destination that fails after {} bytes is reported as a success", what, room));
        }
        if sink.after {
            return Err(format!("printing a {} goes on after the destination failed", what));
        }
        if !want.starts_with(&sink.got) {
            return Err(format!("{} printed to a failing destination starts with {}", what, short(&sink.got)));
        }
    }
    Ok(())
}

fn gen_points(rng: &mut Rng) -> Vec<Point> {
    let n = match rng.below(8) {
        0 => 0,
        1 => 1,
        2 => 2,
        7 => rng.usize(10, 60),
        _ => rng.usize(3, 9),
    };
    (0..n).map(|_| Point(rng.edge_u32(), rng.edge_u32())).collect()
}

fn point_text(p: &Point) -> String {
    format!("({},{})", p.0, p.1)
}

fn points_text(p: &[Point]) -> String {
    p.iter().map(point_text).collect::<Vec<_>>().join(",")
}

fn gen_ring(rng: &mut Rng) -> (Ring, String) {
    if rng.chance(1, 2) {
        let p = gen_points(rng);
        let t = format!("[{}]", points_text(&p));
        (Ring::Points(p.into_boxed_slice()), t)
    } else {
        let es: Vec<Vec<Point>> = (0..rng.usize(0, 5)).map(|_| gen_points(rng)).collect();
        let t = format!("[{}]", es.iter().map(|e| format!("Edge({})", points_text(e))).collect::<Vec<_>>().join(","));
        (Ring::Edges(es.into_iter().map(|e| Edge(e.into_boxed_slice())).collect()), t)
    }
}

fn gen_rings_of(rng: &mut Rng) -> (Box<[Ring]>, String) {
    let (r, t): (Vec<Ring>, Vec<String>) = (0..rng.usize(0, 4)).map(|_| gen_ring(rng)).unzip();
    (r.into_boxed_slice(), format!("[{}]", t.join(", ")))
}

/// Not Display: a region can be printed whatever its data is.
struct Opaque;

fn gen_message(rng: &mut Rng) -> String {
    (0..rng.usize(0, 30)).map(|_| *rng.pick(&['a', 'B', ' ', '{', '}', '%', '"', '\n', '\u{e9}', '\u{4e16}', '0'])).collect()
}

fn explained(rng: &mut Rng, ctx: &mut Ctx, what: &str, e: &dyn Error, text: &str, plain: Option<&str>, cause: Option<&str>) -> Result<(), String> {
    printed(rng, ctx, what, &e, text)?;
    #[allow(deprecated)]
    {
        if let Some(p) = plain {
            let d = lib("description", || e.description().to_string())?;
            if d != p {
                return Err(format!("{} describes itself as {:?} and not as {:?}", what, d, p));
            }
        }
        let c = lib("cause", || e.cause().map(|c| c.to_string()))?;
        if c.as_ref().map(|x| x.as_str()) != cause {
            return Err(format!("{}: its cause is {:?} and not {:?}", what, c, cause));
        }
    }
    Ok(())
}

/// Values that have very many parts.
fn many(rng: &mut Rng, ctx: &mut Ctx, m: usize) -> Result<(), String> {
    let few = |rng: &mut Rng, n: usize| -> Vec<Point> { (0..n).map(|_| Point(rng.below(100) as u32, rng.edge_u32())).collect() };
    ctx.input.u64(m as u64);
    ctx.ev("values of very many parts", 1);
    match rng.below(7) {
        0 => {
            let p = few(rng, m);
            let t = points_text(&p);
            ctx.input.str(&t);
            printed(rng, ctx, "edge of many points", &Edge(p.clone().into_boxed_slice()), &format!("Edge({})", t))?;
            printed(rng, ctx, "ring of many points", &Ring::Points(p.into_boxed_slice()), &format!("[{}]", t))
        }
        1 => {
            let es: Vec<Vec<Point>> = (0..m).map(|_| few(rng, 2)).collect();
            let t = format!("[{}]", es.iter().map(|e| format!("Edge({})", points_text(e))).collect::<Vec<_>>().join(","));
            ctx.input.str(&t);
            printed(rng, ctx, "ring of many edges", &Ring::Edges(es.into_iter().map(|e| Edge(e.into_boxed_slice())).collect()), &t)
        }
        2 | 3 => {
            let (r, t): (Vec<Ring>, Vec<String>) = (0..m)
                .map(|_| {
                    let p = few(rng, 3);
                    let t = format!("[{}]", points_text(&p));
                    (Ring::Points(p.into_boxed_slice()), t)
                })
                .unzip();
            let (mut outer, mut inner) = ((r.into_boxed_slice(), format!("[{}]", t.join(", "))), gen_rings_of(rng));
            if rng.chance(1, 2) {
                std::mem::swap(&mut outer, &mut inner);
            }
            let want = format!("Region([data], outer:{}, inner:{})", outer.1, inner.1);
            ctx.input.str(&want);
            printed(rng, ctx, "region of many rings", &Region { data: Opaque, outer_rings: outer.0, inner_rings: inner.0 }, &want)
        }
        k => {
            let nf = if k == 4 { rng.usize(200, std::cmp::min(m, 2000)) } else { 1 };
            let t = gen_table_of(rng, nf, 1);
            ctx.input.str(&t.lines[0]);
            let mut rd = lib("opening", || DbfReader::new(&t.bytes[..], encoding::all::WINDOWS_1252))?.map_err(|e| format!("a valid table of {} fields is refused: {}", nf, e))?;
            let data = rd.next().ok_or("no row")?.map_err(|e| format!("row: {}", e))?;
            printed(rng, ctx, "row", &data, &t.lines[0])?;
            let (n, each) = match k {
                4 => (1, 4),
                5 => (m, 4),
                _ => (1, m),
            };
            let (rs, texts): (Vec<ShpPolygonRing>, Vec<String>) = (0..n)
                .map(|_| {
                    let g: Vec<P> = (0..each).map(|_| (rng.below(1000) as f64 / 8., rng.below(100) as f64)).collect();
                    let t = format!("[{}]", g.iter().map(|p| format!("({},{})", p.0, p.1)).collect::<Vec<_>>().join(","));
                    (ShpPolygonRing(g.iter().map(|p| ShpPoint(p.0, p.1)).collect()), t)
                })
                .unzip();
            let want = format!("ShapefileRecord({}; rings: {})", t.lines[0], texts.join("; "));
            printed(rng, ctx, "shape record of many parts", &ShapefileRecord { rings: rs.into_boxed_slice(), data }, &want)
        }
    }
}

pub fn c26(rng: &mut Rng, ctx: &mut Ctx) -> Result<(), String> {
    ctx.nontrivial = true;
    if ctx.large || rng.chance(1, 200) {
        let m = if ctx.large { rng.usize(66_000, 70_000) } else { rng.usize(250, 1200) };
        return many(rng, ctx, m);
    }
    match rng.below(6) {
        0 => {
            let p = Point(rng.edge_u32(), rng.edge_u32());
            ctx.input.points(&[own(&p)]);
            ctx.say(|| format!("point {:?}", p));
            ctx.ev("points", 1);
            printed(rng, ctx, "point", &p, &point_text(&p))?;
            let ps = gen_points(rng);
            ctx.input.points(&to_own(&ps));
            ctx.say(|| format!("edge {:?}", ps));
            ctx.ev("edges", 1);
            printed(rng, ctx, "edge", &Edge(ps.clone().into_boxed_slice()), &format!("Edge({})", points_text(&ps)))
        }
        1 => {
            let (r, t) = gen_ring(rng);
            ctx.input.str(&t);
            ctx.say(|| format!("ring {:?}", r));
            ctx.ev("rings", 1);
            printed(rng, ctx, "ring", &r, &t)
        }
        2 => {
            let (outer, to) = gen_rings_of(rng);
            let (inner, ti) = gen_rings_of(rng);
            let want = format!("Region([data], outer:{}, inner:{})", to, ti);
            ctx.input.str(&want);
            ctx.say(|| format!("region {}", want));
            ctx.ev("regions", 1);
            printed(rng, ctx, "region", &Region { data: Opaque, outer_rings: outer, inner_rings: inner }, &want)
        }
        3 | 4 => {
            // rows of a table, with rings
            let n = rng.usize(1, 4);
            let t = gen_table(rng, n);
            ctx.input.str(&t.lines.join("\n"));
            ctx.say(|| format!("rows {:?}", t.lines));
            let rd = lib("opening", || DbfReader::new(&t.bytes[..], encoding::all::WINDOWS_1252))?.map_err(|e| format!("a valid table is refused: {}", e))?;
            for (i, row) in rd.enumerate() {
                let data = row.map_err(|e| format!("row {}: {}", i, e))?;
                let line = t.lines.get(i).ok_or("more rows than stored")?.clone();
                ctx.ev("rows", 1);
                printed(rng, ctx, "row", &data, &line)?;
                let style = rng.below(6);
                let rings: Vec<Vec<P>> = if rng.chance(1, 6) { vec![] } else { gen_rings(rng, style, false) };
                let mut texts = Vec::new();
                let mut rs = Vec::new();
                for g in &rings {
                    let pts: Vec<ShpPoint> = g.iter().map(|p| ShpPoint(p.0, p.1)).collect();
                    for (p, q) in pts.iter().zip(g) {
                        if rng.chance(1, 4) {
                            check_numbers(p, q)?;
                        }
                    }
                    let ring = ShpPolygonRing(pts.into_boxed_slice());
                    let text = format!("[{}]", g.iter().map(|p| format!("({},{})", p.0, p.1)).collect::<Vec<_>>().join(","));
                    printed(rng, ctx, "shape ring", &ring, &text)?;
                    texts.push(text);
                    rs.push(ring);
                }
                let want = format!("ShapefileRecord({}; rings: {})", line, texts.join("; "));
                ctx.ev("shape records", 1);
                printed(rng, ctx, "shape record", &ShapefileRecord { rings: rs.into_boxed_slice(), data }, &want)?;
            }
            Ok(())
        }
        _ => {
            let m = gen_message(rng);
            ctx.input.str(&m);
            ctx.say(|| format!("errors about {:?}", m));
            ctx.ev("errors", 7);
            let kind = *rng.pick(&[io::ErrorKind::NotFound, io::ErrorKind::UnexpectedEof, io::ErrorKind::Other, io::ErrorKind::PermissionDenied]);
            let io_err = || if m.is_empty() { io::Error::from(kind) } else { io::Error::new(kind, m.clone()) };
            let io_text = io_err().to_string();
            let parse = format!("Parse error: {}", m);
            if !io_text.is_empty() {
                explained(rng, ctx, "shape I/O error", &ShpError::IOError(io_err()), &io_text, None, Some(&io_text))?;
                explained(rng, ctx, "table I/O error", &DbfError::IOError(io_err()), &io_text, None, Some(&io_text))?;
                explained(rng, ctx, "wrapped shape I/O error", &ShapefileError::ShpError(ShpError::IOError(io_err())), &io_text, None, Some(&io_text))?;
                explained(rng, ctx, "wrapped table I/O error", &ShapefileError::DbfError(DbfError::IOError(io_err())), &io_text, None, Some(&io_text))?;
            }
            explained(rng, ctx, "shape parse error", &ShpError::ParseError(m.clone()), &parse, Some(&m), None)?;
            explained(rng, ctx, "table parse error", &DbfError::ParseError(m.clone()), &parse, Some(&m), None)?;
            explained(rng, ctx, "wrapped shape parse error", &ShapefileError::ShpError(ShpError::ParseError(m.clone())), &parse, Some(&m), Some(&parse))?;
            explained(rng, ctx, "wrapped table parse error", &ShapefileError::DbfError(DbfError::ParseError(m.clone())), &parse, Some(&m), Some(&parse))?;
            explained(rng, ctx, "join error", &ShapefileError::JoinError(m.clone()), &parse, Some(&m), None)
        }
    }
}

/// The printed numbers read back as the same numbers.
fn check_numbers(p: &ShpPoint, q: &P) -> Result<(), String> {
    let t = lib("printing a shape point", || p.to_string())?;
    let inner = t.strip_prefix('(').and_then(|t| t.strip_suffix(')')).ok_or_else(|| format!("a shape point is printed as {}", t))?;
    let v: Vec<f64> = inner.split(',').filter_map(|x| x.parse().ok()).collect();
    let same = |a: f64, b: f64| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan());
    if v.len() != 2 || !same(v[0], q.0) || !same(v[1], q.1) {
        return Err(format!("shape point ({:?},{:?}) is printed as {}", q.0, q.1, t));
    }
    Ok(())
}
