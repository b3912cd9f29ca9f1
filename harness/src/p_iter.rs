//! C29: the readers as iterators. What they give must not depend on how it is
//! taken from them.

use crate::ctx::{lib, Ctx};
use crate::files::Fault;
use crate::p_read::{gen_fault, gen_pair, hash_bytes, source};
use crate::rng::Rng;
use std::fmt::Debug;
use topogeo::read::shapefile::dbf::DbfReader;
use topogeo::read::shapefile::geo::ShapefileGeoIterator;
use topogeo::read::shapefile::shapefile::ShapefileReader;
use topogeo::read::shapefile::shp::ShpReader;

const WAYS: [&str; 9] = ["size_hint before each", "a mixture", "count", "last", "collect", "fold", "a loop over a part, then the rest", "step by", "zipped with numbers"];
/// As the evidence names them.
const SEEN: [&str; 9] = [
    "items compared, taken by size_hint before each",
    "items compared, taken by a mixture",
    "items compared, taken by count",
    "items compared, taken by last",
    "items compared, taken by collect",
    "items compared, taken by fold",
    "items compared, taken by a loop over a part, then the rest",
    "items compared, taken by step by",
    "items compared, taken by zipped with numbers",
];

fn show<T: Debug>(x: &T) -> String {
    format!("{:?}", x)
}

/// One at a time until the end, and a few times after it.
fn plainly<I>(what: &str, mut it: I, most: usize) -> Result<Vec<String>, String>
where
    I: Iterator,
    I::Item: Debug,
{
    let mut v = Vec::new();
    while let Some(x) = lib("next", || it.next())? {
        v.push(show(&x));
        if v.len() > most {
            return Err(format!("{} does not end after {} items", what, most));
        }
    }
    for _ in 0..3 {
        if let Some(x) = lib("next", || it.next())? {
            return Err(format!("{} had ended after {} items, and then gives {}", what, v.len(), show(&x)));
        }
    }
    Ok(v)
}

fn same(what: &str, way: &str, i: usize, want: Option<&String>, got: Option<String>) -> Result<(), String> {
    if want != got.as_ref() {
        return Err(format!("{}, taken by {}: item {} is {:?} instead of {:?}", what, way, i, got, want));
    }
    Ok(())
}

fn hint<I: Iterator>(what: &str, it: &I, left: usize, cx: &mut Ctx) -> Result<(), String> {
    let (lo, hi) = lib("size_hint", || it.size_hint())?;
    if lo > left || hi.map_or(false, |h| h < left) {
        return Err(format!("{} promises {} to {:?} items, and {} are left", what, lo, hi, left));
    }
    cx.ev("promises of the number of items compared", 1);
    Ok(())
}

fn otherwise<I>(what: &str, mut it: I, base: &[String], way: usize, rng: &mut Rng, cx: &mut Ctx) -> Result<(), String>
where
    I: Iterator,
    I::Item: Debug,
{
    let n = base.len();
    let name = WAYS[way];
    match way {
        0 => {
            for i in 0..n {
                hint(what, &it, n - i, cx)?;
                same(what, name, i, base.get(i), lib("next", || it.next())?.map(|x| show(&x)))?;
            }
            hint(what, &it, 0, cx)?;
            same(what, name, n, None, lib("next", || it.next())?.map(|x| show(&x)))?;
            hint(what, &it, 0, cx)?;
        }
        1 => {
            let mut i = 0;
            let mut steps = String::from(name);
            while i <= n + 1 {
                match rng.below(6) {
                    0 | 1 => {
                        steps.push_str(", next");
                        same(what, &steps, i, base.get(i), lib("next", || it.next())?.map(|x| show(&x)))?;
                        i += 1;
                    }
                    2 => {
                        let k = rng.usize(0, 3);
                        steps.push_str(&format!(", nth({})", k));
                        same(what, &steps, i + k, base.get(i + k), lib("nth", || it.nth(k))?.map(|x| show(&x)))?;
                        i += k + 1;
                    }
                    3 => {
                        let k = rng.usize(0, 3);
                        steps.push_str(&format!(", take({})", k));
                        let got: Vec<_> = lib("take", || it.by_ref().take(k).collect())?;
                        let want: &[String] = &base[i.min(n)..(i + k).min(n)];
                        let got: Vec<String> = got.iter().map(show).collect();
                        if got != want {
                            return Err(format!("{}, taken by {}: from item {}: {:?} instead of {:?}", what, steps, i, got, want));
                        }
                        i += k;
                    }
                    4 => {
                        steps.push_str(", find");
                        let ask = rng.usize(0, 2);
                        let mut k = 0;
                        let got = lib("find", || {
                            it.find(|_| {
                                k += 1;
                                k > ask
                            })
                        })?;
                        same(what, &steps, i + ask, base.get(i + ask), got.map(|x| show(&x)))?;
                        i += ask + 1;
                    }
                    _ => {
                        steps.push_str(", size_hint");
                        hint(what, &it, n.saturating_sub(i), cx)?;
                    }
                }
                cx.ev("steps of mixtures", 1);
            }
        }
        2 => {
            let got = lib("count", || it.count())?;
            if got != n {
                return Err(format!("{} counts {} items, and has {}", what, got, n));
            }
        }
        3 => same(what, name, n, base.last(), lib("last", || it.last())?.map(|x| show(&x)))?,
        4 | 5 | 8 => {
            let got: Vec<String> = match way {
                4 => lib("collect", || it.collect::<Vec<_>>())?.iter().map(show).collect(),
                5 => lib("fold", || {
                    it.fold(vec![], |mut v, x| {
                        v.push(show(&x));
                        v
                    })
                })?,
                _ => lib("zip", || (0..n + 5).zip(it).collect::<Vec<_>>())?.iter().map(|x| show(&x.1)).collect(),
            };
            if got != base {
                let i = (0..n.max(got.len())).find(|&i| got.get(i) != base.get(i)).unwrap();
                return same(what, name, i, base.get(i), got.get(i).cloned());
            }
        }
        6 => {
            let k = rng.usize(0, n);
            let mut i = 0;
            if k > 0 {
                for x in it.by_ref() {
                    same(what, name, i, base.get(i), Some(show(&x)))?;
                    i += 1;
                    if i == k {
                        break;
                    }
                }
            }
            for x in it {
                same(what, name, i, base.get(i), Some(show(&x)))?;
                i += 1;
            }
            same(what, name, i, base.get(i), None)?;
        }
        _ => {
            let k = rng.usize(1, 4);
            let got: Vec<String> = lib("step_by", || it.step_by(k).collect::<Vec<_>>())?.iter().map(show).collect();
            let want: Vec<String> = base.iter().step_by(k).cloned().collect();
            if got != want {
                return Err(format!("{}, every {}th item: {:?} instead of {:?}", what, k, got, want));
            }
        }
    }
    cx.ev(SEEN[way], n as u64);
    Ok(())
}

pub fn c29(rng: &mut Rng, cx: &mut Ctx) -> Result<(), String> {
    let (mut shp, mut dbf) = gen_pair(rng, cx);
    for (b, counts) in [(&mut shp, 24..28), (&mut dbf, 4..8)] {
        if rng.chance(1, 5) && b.len() > 28 {
            let at = if rng.chance(2, 3) { rng.usize(counts.start, counts.end - 1) } else { rng.usize(0, b.len() - 1) };
            b[at] = *rng.pick(&[0, 1, 2, 5, 127, 255]);
        }
    }
    hash_bytes(cx, &shp);
    hash_bytes(cx, &dbf);
    let fault = |rng: &mut Rng, n: usize| -> Option<Fault> {
        if rng.chance(1, 6) {
            let at = rng.usize(0, n);
            Some(gen_fault(rng, at))
        } else {
            None
        }
    };
    let (fs, fd) = (fault(rng, shp.len()), fault(rng, dbf.len()));
    cx.say(|| format!(".shp of {} bytes ({:?}), .dbf of {} bytes ({:?})", shp.len(), fs, dbf.len(), fd));
    let most = 64 + shp.len() + dbf.len();
    let enc = encoding::all::WINDOWS_1252;
    let tries = if cx.small { 3 } else { 6 };

    // shapes
    let make = |rng: &mut Rng| lib("ShpReader::new", || ShpReader::new(source(rng, &shp, fs)));
    if let Ok(it) = make(rng)? {
        let base = plainly("the reader of shapes", it, most)?;
        for _ in 0..tries {
            let way = rng.usize(0, WAYS.len() - 1);
            if let Ok(it) = make(rng)? {
                otherwise("the reader of shapes", it, &base, way, rng, cx)?;
            }
        }
    }

    // rows
    let make = |rng: &mut Rng| lib("DbfReader::new", || DbfReader::new(source(rng, &dbf, fd), enc));
    if let Ok(it) = make(rng)? {
        let base = plainly("the reader of rows", it, most)?;
        for _ in 0..tries {
            let way = rng.usize(0, WAYS.len() - 1);
            if let Ok(it) = make(rng)? {
                otherwise("the reader of rows", it, &base, way, rng, cx)?;
            }
        }
    }

    // pairs, as they are and as regions
    let make = |rng: &mut Rng| lib("ShapefileReader::new", || ShapefileReader::new(source(rng, &shp, fs), source(rng, &dbf, fd), enc));
    let pairs = match make(rng)? {
        Err(_) => return Ok(()),
        Ok(it) => plainly("the reader of pairs", it, 2 * most)?,
    };
    cx.nontrivial = pairs.len() > 1;
    let mut regions = Vec::new();
    if let Ok(mut rd) = make(rng)? {
        regions = plainly("the reader of regions", lib("ShapefileGeoIterator::new", || ShapefileGeoIterator::new(&mut rd))?, 2 * most)?;
        if let Some(x) = lib("next", || rd.next())? {
            return Err(format!("the reader of regions has ended, but its reader of pairs still gives {:?}", x.map(|_| "a pair")));
        }
    }
    if regions.len() != pairs.len() {
        return Err(format!("{} pairs, but {} regions", pairs.len(), regions.len()));
    }
    for _ in 0..tries {
        let way = rng.usize(0, WAYS.len() - 1);
        if let Ok(it) = make(rng)? {
            otherwise("the reader of pairs", it, &pairs, way, rng, cx)?;
        }
        let way = rng.usize(0, WAYS.len() - 1);
        if let Ok(mut rd) = make(rng)? {
            otherwise("the reader of regions", ShapefileGeoIterator::new(&mut rd), &regions, way, rng, cx)?;
        }
    }

    // now as pairs, now as regions
    if let Ok(mut rd) = make(rng)? {
        let about = show(&(rd.bounding_box(), rd.dbf_fields().iter().map(|f| f.name.clone()).collect::<Vec<_>>()));
        let mut i = 0;
        while i <= pairs.len() {
            for _ in 0..rng.usize(0, 2) {
                same("the reader of pairs", "turns", i, pairs.get(i), lib("next", || rd.next())?.map(|x| show(&x)))?;
                i += 1;
            }
            let mut it = lib("ShapefileGeoIterator::new", || ShapefileGeoIterator::new(&mut rd))?;
            for _ in 0..rng.usize(0, 2) {
                same("the reader of regions", "turns", i, regions.get(i), lib("next", || it.next())?.map(|x| show(&x)))?;
                i += 1;
            }
            cx.ev("turns between pairs and regions", 1);
        }
        let now = show(&(rd.bounding_box(), rd.dbf_fields().iter().map(|f| f.name.clone()).collect::<Vec<_>>()));
        if now != about {
            return Err(format!("what the reader says about the file was {} and is {}", about, now));
        }
    }
    Ok(())
}
