//! C28: several threads at once. Each task is run together with others, all
//! let go at the same moment, and afterwards alone; the results must be the
//! same. The build with ThreadSanitizer watches for unsynchronised accesses.
//!
//! Nothing here synchronises the threads between the start and the end (times
//! are taken from the clock, not from a shared counter), so as not to hide a race.

use crate::ctx::{lib, Ctx, Fnv};
use crate::p_pipe::{build_prep, digest_pictures, gen_ops, gen_prep, long_prep, run_ops, Op, Prep};
use crate::p_read::{gen_pair, transcript};
use crate::rng::Rng;
use std::sync::{mpsc, Barrier};
use std::time::Instant;
use topogeo::geo::{Region, Ring};
use topogeo::read::shapefile::dbf::{DbfField, DbfRecord};
use topogeo::read::shapefile::geo::ShapefileGeoIterator;
use topogeo::read::shapefile::shapefile::ShapefileReader;

/// What is handed to other threads. These types are Send and Sync; should they
/// cease to be so, the accesses themselves show whether it matters.
struct Share<T>(T);
unsafe impl<T> Send for Share<T> {}
unsafe impl<T> Sync for Share<T> {}

enum Task {
    /// Build a map and go through operations.
    Map(Prep, Vec<Op>),
    /// Read a pair of files.
    Read(Vec<u8>, Vec<u8>),
    /// Decode and print rows that other threads use too, and drop copies of them.
    Rows(u64),
    /// Measure, convert and print rings that other threads use too.
    Rings,
    /// Read a pair of files, giving the records to two other threads, which
    /// decode, print and drop them.
    Relay(Vec<u8>, Vec<u8>),
}

struct Common {
    fields: Box<[DbfField]>,
    rows: Vec<DbfRecord>,
    regions: Vec<Region<DbfRecord>>,
}

fn name(t: &Task) -> &'static str {
    match t {
        Task::Map(..) => "building and changing a map",
        Task::Read(..) => "reading files",
        Task::Rows(..) => "decoding rows in common",
        Task::Rings => "measuring rings in common",
        Task::Relay(..) => "reading files, records going to other threads",
    }
}

fn show_row(fields: &[DbfField], row: &DbfRecord) -> Result<String, String> {
    let mut t = lib("printing a row", || format!("{}\n", row))?;
    for f in fields {
        t.push_str(&format!("{}={:?};", f.name, lib("read_string", || f.read_string(row).map_err(|e| e.to_string()))?));
    }
    Ok(t)
}

fn show_ring(r: &Ring) -> Result<String, String> {
    lib("a ring's methods", || format!("{} {:?} {} {}", r, r.area2_and_winding_order(), r.edges().len(), r.points().len()))
}

fn relay(shp: &[u8], dbf: &[u8]) -> Result<String, String> {
    let mut rd = match lib("ShapefileReader::new", || ShapefileReader::new(shp, dbf, encoding::all::WINDOWS_1252))? {
        Err(e) => return Ok(format!("refused: {}", e)),
        Ok(rd) => rd,
    };
    let (back, collect) = mpsc::channel::<(usize, Result<String, String>)>();
    let mut ways = Vec::new();
    let mut all: Vec<(usize, Result<String, String>)> = Vec::new();
    std::thread::scope(|s| -> Result<(), String> {
        for _ in 0..2 {
            let (tx, rx) = mpsc::channel();
            ways.push(tx);
            let fields = Share(rd.dbf_fields());
            let back = back.clone();
            s.spawn(move || {
                let fields = fields;
                while let Ok(Share((i, rec))) = rx.recv() {
                    let rec: topogeo::read::shapefile::shapefile::ShapefileRecord = rec;
                    let t = show_row(&fields.0, &rec.data).and_then(|a| Ok(a + &lib("printing a record", || format!("{}", rec))?));
                    drop(rec);
                    let _ = back.send((i, t));
                }
            });
        }
        let mut i = 0;
        let r = loop {
            match lib("ShapefileReader::next", || rd.next()) {
                Err(e) => break Err(e),
                Ok(None) => break Ok(()),
                Ok(Some(Ok(rec))) => {
                    let _ = ways[i % 2].send(Share((i, rec)));
                }
                Ok(Some(Err(e))) => {
                    let _ = back.send((i, Ok(e.to_string())));
                }
            }
            i += 1;
        };
        ways.clear();
        r
    })?;
    drop(back);
    all.extend(collect.iter());
    all.sort_by_key(|x| x.0);
    let mut t = String::new();
    for (_, x) in all {
        t.push_str(&x?);
        t.push('\n');
    }
    Ok(t)
}

fn perform(task: &Task, common: &Common) -> Result<u64, String> {
    let mut h = Fnv::new();
    match task {
        Task::Map(p, ops) => digest_pictures(&run_ops(build_prep(p)?, ops)?, &mut h),
        Task::Read(shp, dbf) => h.str(&transcript(shp, dbf)?),
        Task::Relay(shp, dbf) => h.str(&relay(shp, dbf)?),
        Task::Rows(k) => {
            let mut copies = Vec::new();
            for (i, row) in common.rows.iter().enumerate() {
                h.str(&show_row(&common.fields, row)?);
                if (i as u64 + k) % 2 == 0 {
                    copies.push(lib("copying a row", || row.clone())?);
                }
            }
            for c in &copies {
                h.str(&show_row(&common.fields, c)?);
            }
            drop(copies);
        }
        Task::Rings => {
            for r in &common.regions {
                h.str(&lib("printing a region", || format!("{}", r))?);
                for g in r.outer_rings.iter().chain(r.inner_rings.iter()) {
                    h.str(&show_ring(g)?);
                }
            }
        }
    }
    Ok(h.0)
}

fn gen_common(rng: &mut Rng, ctx: &Ctx) -> Result<Common, String> {
    for _ in 0..6 {
        let (shp, dbf) = gen_pair(rng, ctx);
        if let Ok(mut rd) = lib("ShapefileReader::new", || ShapefileReader::new(&shp[..], &dbf[..], encoding::all::WINDOWS_1252))? {
            let fields = rd.dbf_fields();
            let mut regions = Vec::new();
            let mut it = lib("ShapefileGeoIterator::new", || ShapefileGeoIterator::new(&mut rd))?;
            while let Some(x) = lib("ShapefileGeoIterator::next", || it.next())? {
                if let Ok(r) = x {
                    regions.push(r);
                }
            }
            if !regions.is_empty() {
                let rows = regions.iter().map(|r: &Region<DbfRecord>| r.data.clone()).collect();
                return Ok(Common { fields, rows, regions });
            }
        }
    }
    Ok(Common { fields: vec![].into_boxed_slice(), rows: vec![], regions: vec![] })
}

pub fn c28(rng: &mut Rng, ctx: &mut Ctx) -> Result<(), String> {
    let common = Share(gen_common(rng, ctx)?);
    let n = rng.usize(2, if ctx.small { 3 } else { 6 });
    // often all alike, so that they meet in the same code
    let alike = if rng.chance(1, 2) { Some(rng.below(5)) } else { None };
    let same_input = rng.chance(1, 3);
    let mut tasks: Vec<Task> = Vec::new();
    for k in 0..n {
        if same_input && alike.is_some() && k > 0 {
            tasks.push(match &tasks[0] {
                Task::Map(p, o) => Task::Map(p.clone(), o.clone()),
                Task::Read(a, b) => Task::Read(a.clone(), b.clone()),
                Task::Relay(a, b) => Task::Relay(a.clone(), b.clone()),
                Task::Rows(_) => Task::Rows(k as u64),
                Task::Rings => Task::Rings,
            });
            continue;
        }
        tasks.push(match alike.unwrap_or_else(|| rng.below(5)) {
            0 => match if rng.chance(1, 3) { Some(long_prep(rng, ctx)) } else { gen_prep(rng, ctx) } {
                Some(p) => {
                    let first = build_prep(&p)?;
                    let ops = gen_ops(rng, &first, 4)?;
                    Task::Map(p, ops)
                }
                None => Task::Rows(k as u64),
            },
            1 => {
                let (a, b) = gen_pair(rng, ctx);
                Task::Read(a, b)
            }
            2 => {
                let (a, b) = gen_pair(rng, ctx);
                Task::Relay(a, b)
            }
            3 => Task::Rings,
            _ => Task::Rows(rng.below(2)),
        });
    }
    for t in &tasks {
        if let Task::Read(a, b) | Task::Relay(a, b) = t {
            ctx.input.bytes(a);
            ctx.input.bytes(b);
        } else {
            ctx.input.str(name(t));
        }
    }
    for r in &common.0.rows {
        ctx.input.bytes(&r.bytes);
    }
    ctx.say(|| tasks.iter().map(name).collect::<Vec<_>>().join("\n"));
    let rounds = if ctx.small { 1 } else { rng.usize(1, 3) };
    let late: Vec<u32> = (0..n).map(|_| if rng.chance(1, 2) { 0 } else { rng.below(3000) as u32 }).collect();
    let mut got: Vec<(usize, Result<u64, String>)> = Vec::new();
    let mut overlaps = 0;
    for _ in 0..rounds {
        let gate = Barrier::new(n);
        let (gate, common, late, tasks) = (&gate, &common, &late, &tasks);
        let res: Vec<_> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..n)
                .map(|i| {
                    s.spawn(move || {
                        gate.wait();
                        for k in 0..late[i] {
                            std::hint::black_box(k);
                        }
                        let from = Instant::now();
                        let r = perform(&tasks[i], &common.0);
                        (r, from, Instant::now())
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join()).collect()
        });
        let mut times = Vec::new();
        for (i, r) in res.into_iter().enumerate() {
            match r {
                Ok((r, a, b)) => {
                    got.push((i, r));
                    times.push((a, b));
                }
                Err(_) => return Err(format!("{} panics when other threads work at the same time", name(&tasks[i]))),
            }
        }
        for i in 0..times.len() {
            for j in 0..i {
                if times[i].0 < times[j].1 && times[j].0 < times[i].1 {
                    overlaps += 1;
                }
            }
        }
    }
    ctx.ev("pairs of tasks that overlapped in time", overlaps);
    // afterwards, each alone
    let mut alone = Vec::new();
    for t in &tasks {
        alone.push(perform(t, &common.0)?);
    }
    for (i, g) in got {
        let g = g.map_err(|e| format!("{}, while other threads work: {}", name(&tasks[i]), e))?;
        if g != alone[i] {
            return Err(format!("{} gives another result when other threads work at the same time", name(&tasks[i])));
        }
        ctx.ev("results of threads compared", 1);
    }
    ctx.nontrivial = overlaps > 0;
    Ok(())
}
