//! C24: the two programs, run as processes.

use crate::ctx::{lib, Ctx};
use crate::files::*;
use crate::mesh::{self, opts, Grouping, MapOpts, Rings, Truth};
use crate::p_build::{build, tag};
use crate::p_read::{gen_numeric, gen_text, hash_bytes, Enc, Scratch};
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::Path;
use std::process::{Command, Stdio};
use topogeo::clip::{clip_topology, ClipMask};
use crate::pt::Point;
use topogeo::topology::Topology;

extern "C" {
    fn setrlimit(resource: i32, lim: *const [u64; 2]) -> i32;
}

struct Outcome {
    code: Option<i32>,
    signal: Option<i32>,
    out: Vec<u8>,
    err: String,
}

fn run(tool: &str, args: &[&Path], cwd: &Path) -> Outcome {
    let exe = std::env::current_exe().unwrap().with_file_name(tool);
    let mut c = Command::new(&exe);
    c.args(args).current_dir(cwd).stdin(Stdio::null()).env("RUST_BACKTRACE", "0");
    unsafe {
        c.pre_exec(|| {
            setrlimit(0, &[60, 60]); // seconds of processor time
            setrlimit(9, &[4 << 30, 4 << 30]); // address space
            setrlimit(4, &[0, 0]); // no core files
            Ok(())
        });
    }
    let o = c.output().unwrap_or_else(|e| {
        eprintln!("cannot run {:?}: {}", exe, e);
        std::process::exit(3)
    });
    Outcome { code: o.status.code(), signal: o.status.signal(), out: o.stdout, err: String::from_utf8_lossy(&o.stderr).into_owned() }
}

fn ended(o: &Outcome) -> String {
    match (o.code, o.signal) {
        (Some(c), _) => format!("exits with {}", c),
        (_, Some(s)) => format!("is killed by signal {}", s),
        _ => "ends strangely".into(),
    }
}

fn clip_text(s: &str) -> String {
    s.chars().take(400).collect()
}

/// Success: exit status 0, exactly this on stdout, nothing on stderr.
fn expect_success(tool: &str, o: &Outcome, want: &str) -> Result<(), String> {
    if o.code != Some(0) {
        return Err(format!("{} {} on a valid pair of files: {}", tool, ended(o), clip_text(&o.err)));
    }
    if o.out != want.as_bytes() {
        let got = String::from_utf8_lossy(&o.out).into_owned();
        let (mut a, mut b) = (got.lines(), want.lines());
        let mut n = 1;
        loop {
            match (a.next(), b.next()) {
                (Some(x), Some(y)) if x == y => n += 1,
                (x, y) => return Err(format!("{} prints in line {} {:?}, expected {:?}", tool, n, x.map(clip_text), y.map(clip_text))),
            }
            if n > 1_000_000 {
                return Err(format!("{} prints something else than expected", tool));
            }
        }
    }
    if !o.err.is_empty() {
        return Err(format!("{} exits with 0 but complains: {}", tool, clip_text(&o.err)));
    }
    Ok(())
}

/// Failure: exit status 1, a message on stderr, on stdout no more than `prefix`.
fn expect_failure(tool: &str, o: &Outcome, prefix: &str, why: &str) -> Result<(), String> {
    if o.code != Some(1) {
        return Err(format!("{} {} on {}: {}", tool, ended(o), why, clip_text(&o.err)));
    }
    if o.err.trim().is_empty() {
        return Err(format!("{} says nothing about {}", tool, why));
    }
    if o.err.contains("panicked at") {
        return Err(format!("{} panics on {}: {}", tool, why, clip_text(&o.err)));
    }
    if o.out != prefix.as_bytes() {
        return Err(format!("{} on {} prints {:?}, expected {:?}", tool, why, clip_text(&String::from_utf8_lossy(&o.out)), clip_text(prefix)));
    }
    Ok(())
}

pub struct Dbf {
    pub bytes: Vec<u8>,
    pub lines: Vec<String>, // "{a:b; c:d}"
}

pub fn gen_table(r: &mut Rng, n: usize) -> Dbf {
    let nf = r.usize(0, 5);
    gen_table_of(r, nf, n)
}

pub fn gen_table_of(r: &mut Rng, nf: usize, n: usize) -> Dbf {
    let mut fields = Vec::new();
    for i in 0..nf {
        let t = *r.pick(&[b'C', b'C', b'N', b'+', b'|']);
        let len = if t == b'+' || t == b'|' { 4 } else { r.range(1, 14) as u8 };
        let name: Vec<u8> = match r.below(4) {
            0 => {
                let mut v: Vec<u8> = (0..r.usize(1, 11)).map(|_| r.range(33, 255) as u8).collect();
                v.truncate(11);
                v
            }
            _ => format!("f{}", i).into_bytes(),
        };
        fields.push(Field::new(&name, t, len));
    }
    let mut rows = Vec::new();
    let mut lines = Vec::new();
    for _ in 0..n {
        let mut row = vec![if r.chance(1, 8) { b'*' } else { b' ' }];
        let mut vals = Vec::new();
        for f in &fields {
            let len = f.len as usize;
            let v = match f.typ {
                b'N' => loop {
                    let (b, v) = gen_numeric(r, len);
                    if let Some(v) = v {
                        row.extend_from_slice(&b);
                        break v;
                    }
                },
                b'C' => {
                    let mut b = gen_text(r, Enc::W1252, len);
                    b.resize(len, b' ');
                    let mut k = b.len();
                    while k > 0 && b[k - 1] == b' ' {
                        k -= 1;
                    }
                    row.extend_from_slice(&b);
                    Enc::W1252.decode(&b[..k]).unwrap()
                }
                _ => {
                    let v = r.u32();
                    row.extend_from_slice(&v.to_le_bytes());
                    v.to_string()
                }
            };
            vals.push(format!("{}:{}", Enc::W1252.decode(f.name_bytes()).unwrap(), v));
        }
        rows.push(row);
        lines.push(format!("{{{}}}", vals.join("; ")));
    }
    let eof = r.chance(1, 2);
    let (bytes, _) = dbf_file(r, &fields, &rows, &DbfShape { eof_mark: eof, ..Default::default() });
    Dbf { bytes, lines }
}

fn record_line(rings: &[Vec<P>], row: &str) -> String {
    let rs: Vec<String> = rings
        .iter()
        .map(|g| format!("[{}]", g.iter().map(|p| format!("({},{})", p.0, p.1)).collect::<Vec<_>>().join(",")))
        .collect();
    format!("ShapefileRecord({}; rings: {})\n", row, rs.join("; "))
}

/// Ways in which a pair cannot be read completely.
struct Damage {
    shp: Option<Vec<u8>>,
    dbf: Option<Vec<u8>>,
    /// records before the failure
    good: usize,
    why: String,
}

fn damage(r: &mut Rng, recs: &[ShpRec], ends: &[usize], shp: &[u8], dbf: &[u8], row_ends: &dyn Fn(usize) -> usize) -> Damage {
    let n = recs.len();
    let mut d = Damage { shp: Some(shp.to_vec()), dbf: Some(dbf.to_vec()), good: 0, why: String::new() };
    match r.below(9) {
        0 => {
            d.shp = None;
            d.why = "a missing .shp".into();
        }
        1 => {
            d.dbf = None;
            d.why = "a missing .dbf".into();
        }
        2 => {
            let k = r.usize(0, 99);
            d.shp.as_mut().unwrap().truncate(k);
            d.why = format!("a .shp of {} bytes", k);
        }
        3 => {
            let k = r.usize(0, 31);
            d.dbf.as_mut().unwrap().truncate(k);
            d.why = format!("a .dbf of {} bytes", k);
        }
        4 if n > 0 => {
            let k = r.usize(100, shp.len() - 1);
            d.good = ends.iter().filter(|&&e| e <= k).count();
            d.shp.as_mut().unwrap().truncate(k);
            d.why = format!("a .shp cut after {} of {} bytes", k, shp.len());
        }
        5 if n > 0 => {
            // within the rows (end mark aside)
            let k = r.usize(row_ends(0), row_ends(n) - 1);
            d.good = (1..=n).filter(|&i| row_ends(i) <= k).count();
            d.dbf.as_mut().unwrap().truncate(k);
            d.why = format!("a .dbf cut after {} of {} bytes", k, dbf.len());
        }
        6 => {
            let more = r.chance(1, 2) || n == 0;
            let b = d.dbf.as_mut().unwrap();
            if more {
                // one row more than shapes
                let rl = u16::from_le_bytes([b[10], b[11]]) as usize;
                b.truncate(row_ends(n));
                b.extend(std::iter::repeat(b' ').take(rl));
                b[4..8].copy_from_slice(&(n as u32 + 1).to_le_bytes());
                d.good = n;
                d.why = "a .dbf with one row too many".into();
            } else {
                b[4..8].copy_from_slice(&(n as u32 - 1).to_le_bytes());
                d.good = n - 1;
                d.why = "a .dbf with one row too few".into();
            }
        }
        7 => {
            let b = d.shp.as_mut().unwrap();
            let (at, what) = *r.pick(&[(0usize, "magic number"), (28, "version"), (32, "shape type")]);
            b[at] = b[at].wrapping_add(1 + r.below(255) as u8);
            d.why = format!("a .shp with a wrong {}", what);
        }
        _ => {
            let k = r.usize(0, n);
            let mut rs = recs.to_vec();
            let bad = gen_bad_rec(r, k as u32 + 1);
            let what = bad.what;
            if k < n {
                rs[k] = bad;
            } else {
                rs.push(bad);
                let b = d.dbf.as_mut().unwrap();
                let rl = u16::from_le_bytes([b[10], b[11]]) as usize;
                b.truncate(row_ends(n));
                b.extend(std::iter::repeat(b' ').take(rl));
                b[4..8].copy_from_slice(&(n as u32 + 1).to_le_bytes());
            }
            d.shp = Some(shp_file(&rs, (0., 0., 1., 1.)).0);
            d.good = k;
            d.why = format!("a record that is {}", what);
        }
    }
    d
}

fn place(dir: &Path, shp: &Option<Vec<u8>>, dbf: &Option<Vec<u8>>, r: &mut Rng) -> std::path::PathBuf {
    let name = *r.pick(&["a.shp", "two words.shp", "dot.ted.shp", "\u{e9}t\u{e9}.shp", "UPPER.SHP", "all.shp/a.shp.shp", "no-extension", "x.dbf.shp", ".hidden.shp"]);
    let p = dir.join(name);
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    if let Some(b) = shp {
        std::fs::write(&p, b).unwrap();
    }
    if let Some(b) = dbf {
        std::fs::write(p.with_extension("dbf"), b).unwrap();
    }
    // sometimes given relative to the current directory
    if r.chance(1, 2) {
        p
    } else {
        Path::new(name).to_path_buf()
    }
}

fn dump(r: &mut Rng, cx: &mut Ctx) -> Result<(), String> {
    let n = match r.below(6) {
        0 => 0,
        1..=4 => r.usize(1, 6),
        _ => r.usize(7, 60),
    };
    let style = r.below(5);
    let recs: Vec<ShpRec> = (0..n)
        .map(|i| {
            let big = r.chance(1, 12);
            let rings = gen_rings(r, style, big);
            polygon(i as u32 + 1, rings)
        })
        .collect();
    let (shp, ends) = shp_file(&recs, (0., 0., 1., 1.));
    let t = gen_table(r, n);
    let head = u16::from_le_bytes([t.bytes[8], t.bytes[9]]) as usize;
    let rl = u16::from_le_bytes([t.bytes[10], t.bytes[11]]) as usize;
    hash_bytes(cx, &shp);
    hash_bytes(cx, &t.bytes);
    cx.nontrivial = true;
    let dir = Scratch::new();
    let lines: Vec<String> = recs.iter().zip(&t.lines).map(|(g, l)| record_line(g.rings.as_ref().unwrap(), l)).collect();
    if r.chance(2, 3) {
        let p = place(&dir.0, &Some(shp), &Some(t.bytes), r);
        cx.say(|| format!("cat-shp on {} records:\n{}", n, clip_text(&lines.concat())));
        let o = run("cat-shp", &[&p], &dir.0);
        expect_success("cat-shp", &o, &format!("{}Read {} records\n", lines.concat(), n))?;
        cx.ev("records dumped and compared", n as u64);
        cx.ev("complete dumps", 1);
    } else {
        let d = damage(r, &recs, &ends, &shp, &t.bytes, &|i| head + i * rl);
        hash_bytes(cx, d.why.as_bytes());
        cx.say(|| format!("cat-shp on {}; {} records, {} of them before it", d.why, n, d.good));
        let p = place(&dir.0, &d.shp, &d.dbf, r);
        let o = run("cat-shp", &[&p], &dir.0);
        expect_failure("cat-shp", &o, &lines[..d.good.min(n)].concat(), &d.why)?;
        cx.ev("records dumped and compared", d.good as u64);
        cx.ev("failures reported by cat-shp", 1);
    }
    Ok(())
}

#[derive(PartialEq, Debug, Clone)]
struct Counts {
    regions: usize,
    outer: usize,
    inner: usize,
    edges: usize,
    shared: usize,
    lone: usize,
    points: usize,
}

impl Counts {
    fn text(&self) -> String {
        format!(
            "  Regions:      {}\n  Outer rings:  {}\n  Inner rings:  {}\n  Edges:        {}\n  Shared edges: {}\n  Lone edges:   {}\n  Points:       {}\n",
            self.regions, self.outer, self.inner, self.edges, self.shared, self.lone, self.points
        )
    }
}

fn counts_of<D>(t: &Topology<D>) -> Counts {
    let shared = t.edges.iter().filter(|e| !e.rings[1].is_null()).count();
    Counts {
        regions: t.regions.len(),
        outer: t.regions.iter().map(|r| r.outer_rings.len()).sum(),
        inner: t.regions.iter().map(|r| r.inner_rings.len()).sum(),
        edges: t.edges.len(),
        shared,
        lone: t.edges.len() - shared,
        points: t.edges.iter().map(|e| e.points.len()).sum(),
    }
}

/// Points as given: one edge per segment.
fn counts_initial(rings: &[Rings]) -> Counts {
    let mut segs: BTreeMap<(Point, Point), usize> = BTreeMap::new();
    let (mut outer, mut inner) = (0, 0);
    for r in rings {
        outer += r.outer.len();
        inner += r.inner.len();
        for g in r.outer.iter().chain(&r.inner) {
            for w in g.windows(2) {
                let k = if w[0] < w[1] { (w[0], w[1]) } else { (w[1], w[0]) };
                *segs.entry(k).or_insert(0) += 1;
            }
        }
    }
    let shared = segs.values().filter(|&&n| n > 1).count();
    Counts { regions: rings.len(), outer, inner, edges: segs.len(), shared, lone: segs.len() - shared, points: 2 * segs.len() }
}

/// From the faces alone; None for rings where the region touches itself.
fn counts_normalised(t: &Truth) -> (Counts, bool) {
    // edges: chains of segments through points where two borders meet
    let mut at: HashMap<Point, Vec<(Point, Point)>> = HashMap::new();
    for (k, _) in &t.sides {
        at.entry(k.0).or_default().push(*k);
        at.entry(k.1).or_default().push(*k);
    }
    let mut done: BTreeSet<(Point, Point)> = BTreeSet::new();
    let (mut edges, mut shared, mut points) = (0, 0, 0);
    let mut walk = |start: Point, first: (Point, Point), done: &mut BTreeSet<(Point, Point)>| {
        let (mut p, mut s, mut n) = (start, first, 0);
        loop {
            done.insert(s);
            n += 1;
            p = if s.0 == p { s.1 } else { s.0 };
            if at[&p].len() != 2 || p == start {
                break;
            }
            s = if at[&p][0] == s { at[&p][1] } else { at[&p][0] };
        }
        n + 1
    };
    let mut starts: Vec<Point> = at.keys().filter(|p| at[p].len() != 2).cloned().collect();
    starts.extend(at.keys().filter(|p| at[p].len() == 2).cloned());
    for p in starts {
        for s in at[&p].clone() {
            if done.contains(&s) {
                continue;
            }
            points += walk(p, s, &mut done);
            edges += 1;
            let (a, b) = t.sides[&s];
            if a.is_some() && b.is_some() {
                shared += 1;
            }
        }
    }
    // rings
    let (mut outer, mut inner, mut clear) = (0, 0, true);
    for segs in &t.of_region {
        let mut next: BTreeMap<Point, Point> = BTreeMap::new();
        for (a, b) in segs {
            if next.insert(*a, *b).is_some() {
                clear = false;
            }
        }
        if !clear {
            break;
        }
        while let Some((&a, _)) = next.iter().next() {
            let mut ring = vec![a];
            while let Some(b) = next.remove(ring.last().unwrap()) {
                ring.push(b);
            }
            if crate::snap::area2(&ring) > 0 {
                outer += 1;
            } else {
                inner += 1;
            }
        }
    }
    (Counts { regions: t.of_region.len(), outer, inner, edges, shared, lone: edges - shared, points }, clear)
}

fn convert(r: &mut Rng, cx: &mut Ctx) -> Result<(), String> {
    let o = MapOpts { no_splice: true, ..opts(cx) };
    let map = mesh::gen_map(r, cx, &o);
    let g = *r.pick(&[Grouping::Cells, Grouping::Whole, Grouping::Clusters, Grouping::Mixed]);
    let pres = match mesh::present(r, &map, g, false) {
        Some(p) => p,
        None => {
            cx.ev("skipped (degenerate drawing)", 1);
            return Ok(());
        }
    };
    let truth = mesh::truth(&map);
    let rings = pres.regions;
    cx.say(|| mesh::describe(&map, &rings));
    // Points in the middle of their unit square of the file's box: they
    // quantise to just that square. Outer rings are clockwise already.
    const M: f64 = u32::MAX as f64;
    let (x0, y0, w, h) = *r.pick(&[(0., 0., 1., 1.), (0., 0., 2., 0.5), (-2147483648., -1024., 1., 1.), (1048576., -4294967296., 0.25, 4.)]);
    let at = |p: &Point| -> P { (x0 + (p.0 as f64 + 0.5).min(M) * w, y0 + (M - (p.1 as f64 + 0.5).min(M)) * h) };
    let recs: Vec<ShpRec> = rings
        .iter()
        .enumerate()
        .map(|(i, reg)| {
            let mut all: Vec<Vec<P>> = reg.outer.iter().chain(&reg.inner).map(|g| g.iter().map(&at).collect()).collect();
            r.shuffle(&mut all);
            polygon(i as u32 + 1, all)
        })
        .collect();
    let (shp, ends) = shp_file(&recs, (x0, y0, x0 + M * w, y0 + M * h));
    let n = recs.len();
    let t = gen_table(r, n);
    let head = u16::from_le_bytes([t.bytes[8], t.bytes[9]]) as usize;
    let rl = u16::from_le_bytes([t.bytes[10], t.bytes[11]]) as usize;
    hash_bytes(cx, &shp);
    cx.nontrivial = true;
    let dir = Scratch::new();
    if r.chance(1, 5) {
        let d = damage(r, &recs, &ends, &shp, &t.bytes, &|i| head + i * rl);
        cx.say(|| format!("shp-to-geo-data on {}", d.why));
        let p = place(&dir.0, &d.shp, &d.dbf, r);
        let o = run("shp-to-geo-data", &[&p], &dir.0);
        expect_failure("shp-to-geo-data", &o, "", &d.why)?;
        cx.ev("failures reported by shp-to-geo-data", 1);
        return Ok(());
    }
    let p = place(&dir.0, &Some(shp), &Some(t.bytes), r);
    let o = run("shp-to-geo-data", &[&p], &dir.0);
    let initial = counts_initial(&rings);
    let (mut normal, clear) = counts_normalised(&truth);
    // what is not determined by the map alone comes from the library, whose
    // results the other properties are about
    let topo = build(rings.iter().enumerate().map(|(i, g)| mesh::to_region(tag(i), g)).collect())?;
    let nt = lib("normalising", || topogeo::normalize(&topo))?;
    let nc = counts_of(&nt);
    if !clear {
        normal.outer = nc.outer;
        normal.inner = nc.inner;
        cx.ev("maps where a region touches itself", 1);
    } else {
        cx.ev("normalised ring counts known from the map", 1);
    }
    let ct = lib("clipping", || clip_topology(&nt, &ClipMask::MinX(1 << 31)))?;
    let want = format!(
        "Read {} regions\nFormed initial topology:\n{}Normalized topology:\n{}Clipped topology:\n{}",
        n,
        initial.text(),
        normal.text(),
        counts_of(&ct).text()
    );
    expect_success("shp-to-geo-data", &o, &want)?;
    cx.ev("topology descriptions compared", 3);
    Ok(())
}

fn usage(r: &mut Rng, cx: &mut Ctx) -> Result<(), String> {
    let dir = Scratch::new();
    let tool = *r.pick(&["cat-shp", "shp-to-geo-data"]);
    let sub = dir.0.join("d.shp");
    std::fs::create_dir(&sub).unwrap();
    let (args, why): (Vec<&Path>, &str) = match r.below(4) {
        0 => (vec![], "no arguments"),
        1 => (vec![Path::new("a.shp"), Path::new("b.shp")], "two arguments"),
        2 => (vec![Path::new("")], "an empty name"),
        _ => (vec![&sub], "a directory"),
    };
    cx.say(|| format!("{} with {}", tool, why));
    hash_bytes(cx, why.as_bytes());
    hash_bytes(cx, tool.as_bytes());
    let o = run(tool, &args, &dir.0);
    expect_failure(tool, &o, "", why)?;
    cx.ev("wrong usages reported", 1);
    Ok(())
}

pub fn c24(r: &mut Rng, cx: &mut Ctx) -> Result<(), String> {
    match r.below(20) {
        0 => usage(r, cx),
        1..=9 => dump(r, cx),
        _ => convert(r, cx),
    }
}
