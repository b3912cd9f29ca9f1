//! C16-C21: what the readers make of .shp and .dbf bytes.

use crate::alloc;
use crate::ctx::{lib, Ctx};
use crate::files::*;
use crate::rng::Rng;
use std::io::{self, Read};
use topogeo::geo::{Region, Ring};
use topogeo::read::shapefile::dbf::{DbfError, DbfReader, DbfRecord};
use topogeo::read::shapefile::shapefile::{ShapefileError, ShapefileReader};
use topogeo::read::shapefile::shp::{ShpError, ShpPolygonRing, ShpReader, ShpShapeType};
use topogeo::read::shapefile::ShapefileGeoIterator;

type Bits = Vec<Vec<(u64, u64)>>;

fn bits_of(rings: &[Vec<P>]) -> Bits {
    rings.iter().map(|r| r.iter().map(|p| (p.0.to_bits(), p.1.to_bits())).collect()).collect()
}
fn bits_read(rings: &[ShpPolygonRing]) -> Bits {
    rings.iter().map(|r| r.0.iter().map(|p| (p.0.to_bits(), p.1.to_bits())).collect()).collect()
}

pub fn hash_bytes(cx: &mut Ctx, b: &[u8]) {
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        cx.input.u64(u64::from_le_bytes(x));
    }
    cx.input.u64(b.len() as u64);
}

/// What the .shp reader is expected to yield.
#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Shape(u32, Bits),
    BadRecord,
    Io(io::ErrorKind),
}

impl Item {
    fn name(&self) -> String {
        match self {
            Item::Shape(n, r) => format!("record {} with {} rings ({} points)", n, r.len(), r.iter().map(|x| x.len()).sum::<usize>()),
            Item::BadRecord => "a parse error".into(),
            Item::Io(k) => format!("an I/O error {:?}", k),
        }
    }
}

fn expected(rec: &ShpRec) -> Item {
    match &rec.rings {
        Some(r) => Item::Shape(rec.number, bits_of(r)),
        None => Item::BadRecord,
    }
}

fn shp_err(e: &ShpError) -> Item {
    match e {
        ShpError::IOError(e) => Item::Io(e.kind()),
        ShpError::ParseError(_) => Item::BadRecord,
    }
}

fn diff(e: &Item, g: &Item) -> String {
    if let (Item::Shape(_, a), Item::Shape(_, b)) = (e, g) {
        for (i, (x, y)) in a.iter().zip(b.iter()).enumerate() {
            if x.len() != y.len() {
                return format!("ring {} has {} points, stored are {}", i, y.len(), x.len());
            }
            for (j, (p, q)) in x.iter().zip(y.iter()).enumerate() {
                if p != q {
                    return format!(
                        "ring {} point {} is {:?}, stored is {:?}",
                        i,
                        j,
                        (f64::from_bits(q.0), f64::from_bits(q.1)),
                        (f64::from_bits(p.0), f64::from_bits(p.1))
                    );
                }
            }
        }
    }
    format!("expected {}, got {}", e.name(), g.name())
}

/// Iterates to the end and two calls beyond; compares with what is stored.
fn follow_shp<R: Read>(reader: &mut ShpReader<R>, want: &[Item], cx: &mut Ctx) -> Result<(), String> {
    for (i, w) in want.iter().enumerate() {
        let got = lib("ShpReader::next", || reader.next())?;
        let got = match &got {
            None => return Err(format!("iteration ends after {} items of {} (next is {})", i, want.len(), w.name())),
            Some(Ok(rec)) => Item::Shape(rec.record_number, bits_read(&rec.rings)),
            Some(Err(e)) => {
                lib("error display", || format!("{} {:?}", e, e))?;
                shp_err(e)
            }
        };
        if *w != got {
            return Err(format!("item {} of {}: {}", i, want.len(), diff(w, &got)));
        }
        match got {
            Item::Shape(n, r) => {
                cx.ev("shapes compared", 1);
                cx.ev("rings compared", r.len() as u64);
                cx.output.u64(n as u64);
            }
            Item::BadRecord => cx.ev("bad records reported", 1),
            Item::Io(_) => cx.ev("I/O errors reported", 1),
        }
    }
    for _ in 0..3 {
        if let Some(x) = lib("ShpReader::next", || reader.next())? {
            return Err(format!("after all {} items, iteration goes on with {:?}", want.len(), x.map(|_| "a record")));
        }
    }
    cx.ev("ends of iteration", 1);
    Ok(())
}

fn scratch() -> std::path::PathBuf {
    std::env::temp_dir().join(format!("vmon-files-{}", std::process::id()))
}

pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        let d = scratch();
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

// ---------------------------------------------------------------------- C16

fn gen_recs(r: &mut Rng, cx: &Ctx, bad: u64) -> Vec<ShpRec> {
    if cx.large {
        // more points, parts or records than 16 bits count, between ordinary ones
        let style = r.below(4);
        let tiny = |r: &mut Rng, i: usize| polygon(i as u32 + 1, vec![gen_ring(r, 4, style)]);
        return match r.below(3) {
            0 => {
                let long = r.usize(66_000, 140_000);
                let rings = vec![gen_ring(r, 4, style), gen_ring(r, long, style), gen_ring(r, 5, style)];
                vec![tiny(r, 0), polygon(2, rings), tiny(r, 2)]
            }
            1 => {
                let rings = (0..r.usize(66_000, 72_000)).map(|_| { let n = r.usize(4, 6); gen_ring(r, n, style) }).collect();
                vec![tiny(r, 0), polygon(2, rings), tiny(r, 2)]
            }
            _ => (0..r.usize(66_000, 72_000)).map(|i| if bad > 0 && r.chance(1, 100) { gen_bad_rec(r, i as u32 + 1) } else { tiny(r, i) }).collect(),
        };
    }
    let big = !cx.small && r.chance(1, 12);
    let n = match r.below(10) {
        0 => 0,
        1..=2 => 1,
        3..=7 => r.usize(2, 6),
        _ => r.usize(7, if cx.small { 8 } else { 40 }),
    };
    let odd_numbers = r.chance(1, 4);
    let style = r.below(6);
    (0..n)
        .map(|i| {
            let number = if odd_numbers { r.u32() } else { i as u32 + 1 };
            if bad > 0 && r.below(8) < bad {
                gen_bad_rec(r, number)
            } else {
                let st = if r.chance(1, 5) { r.below(6) } else { style };
                polygon(number, gen_rings(r, st, big))
            }
        })
        .collect()
}

pub fn c16(r: &mut Rng, cx: &mut Ctx) -> Result<(), String> {
    let bad = if r.chance(1, 2) { r.below(4) } else { 0 };
    let recs = gen_recs(r, cx, bad);
    if cx.large {
        cx.ev("files of more than 65536 records, parts or points", 1);
    }
    let bb_style = r.below(6);
    let bbox = (gen_coord(r, bb_style), gen_coord(r, bb_style), gen_coord(r, bb_style), gen_coord(r, bb_style));
    let (mut bytes, ends) = shp_file(&recs, bbox);
    let mut want: Vec<Item> = recs.iter().map(expected).collect();
    let stated = bytes.len();
    cx.say(|| format!("{} records, {} bytes: {}", recs.len(), bytes.len(), recs.iter().map(|x| format!("#{} {} ({} bytes{})", x.number, x.what, x.content.len(), x.rings.as_ref().map(|r| format!(", {} rings", r.len())).unwrap_or_default())).collect::<Vec<_>>().join("; ")));

    // the 20 unused header bytes carry no meaning
    if r.chance(1, 3) {
        for x in bytes[4..24].iter_mut().chain([].iter_mut()) {
            *x = r.u32() as u8;
        }
        for x in bytes[68..100].iter_mut() {
            *x = r.u32() as u8;
        }
    }
    // files that are to be refused
    if r.chance(1, 16) {
        let (at, be, vals): (usize, bool, &[u32]) = match r.below(3) {
            0 => (0, true, &[9995, 0, 0x0a270000, 9994 << 8, 0xffffffff, 9993]),
            1 => (28, false, &[1001, 0, 999, 0xe8030000, 0xffffffff, 1000 << 8]),
            _ => (32, false, &[0, 1, 3, 8, 11, 13, 15, 18, 21, 23, 25, 28, 31, 2, 4, 6, 0x05000000, 0xffffffff, 55]),
        };
        let v = *r.pick(vals);
        bytes[at..at + 4].copy_from_slice(&if be { v.to_be_bytes() } else { v.to_le_bytes() });
        hash_bytes(cx, &bytes);
        cx.say(|| format!("header bytes {}.. set to {}", at, v));
        let res = lib("ShpReader::new", || ShpReader::new(&bytes[..]).map(|_| ()))?;
        cx.ev("foreign files offered", 1);
        cx.nontrivial = true;
        return match res {
            Ok(_) => Err(format!("a file with {} at header byte {} is accepted", v, at)),
            Err(ShpError::ParseError(_)) => Ok(()),
            Err(ShpError::IOError(e)) => Err(format!("a complete file with {} at header byte {} gives an I/O error: {}", v, at, e)),
        };
    }
    // the header's length decides where the file ends
    let mut stated_len = stated;
    if !recs.is_empty() && r.chance(1, 8) {
        match r.below(4) {
            3 => {
                // the rest of the file is missing: a failed copy, or a length of 2 GiB and more
                let words = match r.below(4) {
                    0 => 0x8000_0000 + (stated / 2) as u32 + r.below(4) as u32,
                    1 => 0xffff_ffff - r.below(3) as u32,
                    2 => 0x8000_0000 + r.below(0x7fff_ffff) as u32,
                    _ => (stated / 2) as u32 + r.range(500, 1_000_000) as u32,
                };
                stated_len = words as usize * 2;
                want.push(Item::Io(io::ErrorKind::UnexpectedEof));
                cx.ev("files shorter than their header states", 1);
            }
            0 => {
                let extra = 2 * r.usize(1, 60);
                bytes.extend((0..extra).map(|_| r.u32() as u8));
                cx.ev("files with bytes after the stated end", 1);
            }
            1 => {
                // ends exactly at a record boundary
                let k = r.usize(0, recs.len() - 1);
                stated_len = if k == 0 { 100 } else { ends[k - 1] };
                want.truncate(k);
                cx.ev("files stated to end before their last record", 1);
            }
            _ => {
                // ends within record k: that record is not (fully) in the file
                let k = r.usize(0, recs.len() - 1);
                let start = if k == 0 { 100 } else { ends[k - 1] };
                stated_len = start + 2 * r.usize(1, (ends[k] - start) / 2 - 1);
                want.truncate(k);
                want.push(Item::BadRecord);
                cx.ev("files stated to end within a record", 1);
            }
        }
        bytes[24..28].copy_from_slice(&((stated_len / 2) as u32).to_be_bytes());
        cx.say(|| format!("header states {} bytes", stated_len));
    }
    hash_bytes(cx, &bytes);
    cx.nontrivial = recs.iter().any(|x| x.rings.is_some());

    let check = |h: &topogeo::read::shapefile::shp::ShpHeader| -> Result<(), String> {
        if h.file_n_bytes != stated_len {
            return Err(format!("header length is {}, stated {}", h.file_n_bytes, stated_len));
        }
        match h.shape_type {
            ShpShapeType::Polygon => {}
            t => return Err(format!("header type is {:?}", t)),
        }
        let b = &h.bounding_box;
        if [b.0, b.1, b.2, b.3].map(f64::to_bits) != [bbox.0, bbox.1, bbox.2, bbox.3].map(f64::to_bits) {
            return Err(format!("header bounding box is {:?}, stored {:?}", b, bbox));
        }
        Ok(())
    };
    if r.chance(1, 40) && !cfg!(miri) {
        let dir = Scratch::new();
        let path = dir.0.join("a.shp");
        std::fs::write(&path, &bytes).unwrap();
        let mut rd = lib("shp::open", || topogeo::read::shapefile::shp::open(&path))?.map_err(|e| format!("a valid file is refused: {}", e))?;
        check(&rd.header)?;
        cx.ev("files opened by name", 1);
        follow_shp(&mut rd, &want, cx)
    } else {
        let mut rd = lib("ShpReader::new", || ShpReader::new(&bytes[..]))?.map_err(|e| format!("a valid file is refused: {}", e))?;
        check(&rd.header)?;
        follow_shp(&mut rd, &want, cx)
    }
}

// ---------------------------------------------------------------------- C17

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Enc {
    Ascii,
    Utf8,
    W1252,
}
impl Enc {
    fn lib(self) -> encoding::EncodingRef {
        match self {
            Enc::Ascii => encoding::all::ASCII,
            Enc::Utf8 => encoding::all::UTF_8,
            Enc::W1252 => encoding::all::WINDOWS_1252,
        }
    }
    pub fn decode(self, b: &[u8]) -> Option<String> {
        match self {
            Enc::Ascii => {
                if b.iter().all(|&x| x < 128) {
                    Some(b.iter().map(|&x| x as char).collect())
                } else {
                    None
                }
            }
            Enc::Utf8 => String::from_utf8(b.to_vec()).ok(),
            Enc::W1252 => {
                const HI: [u32; 32] = [
                    0x20AC, 0x81, 0x201A, 0x0192, 0x201E, 0x2026, 0x2020, 0x2021, 0x02C6, 0x2030, 0x0160, 0x2039, 0x0152, 0x8D, 0x017D, 0x8F, 0x90, 0x2018, 0x2019,
                    0x201C, 0x201D, 0x2022, 0x2013, 0x2014, 0x02DC, 0x2122, 0x0161, 0x203A, 0x0153, 0x9D, 0x017E, 0x0178,
                ];
                Some(
                    b.iter()
                        .map(|&x| match x {
                            0x80..=0x9f => char::from_u32(HI[x as usize - 0x80]).unwrap(),
                            x => x as char,
                        })
                        .collect(),
                )
            }
        }
    }
}

pub fn gen_text(r: &mut Rng, enc: Enc, max: usize) -> Vec<u8> {
    let n = r.usize(0, max);
    let mut v = Vec::new();
    let wild = r.chance(1, 6);
    while v.len() < n {
        if wild {
            v.push(r.u32() as u8);
            continue;
        }
        match enc {
            Enc::Ascii => v.push(if r.chance(1, 5) { b' ' } else { r.range(33, 126) as u8 }),
            Enc::W1252 => v.push(if r.chance(1, 5) { b' ' } else { r.range(33, 255) as u8 }),
            Enc::Utf8 => {
                let c = match r.below(6) {
                    0 => ' ',
                    1..=2 => r.range(33, 126) as u8 as char,
                    3 => char::from_u32(r.range(0xa0, 0x7ff) as u32).unwrap(),
                    4 => char::from_u32(r.range(0x800, 0xd7ff) as u32).unwrap(),
                    _ => char::from_u32(r.range(0x10000, 0x10ffff) as u32).unwrap(),
                };
                let mut b = [0; 4];
                v.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
            }
        }
    }
    v.truncate(n);
    if r.chance(1, 10) {
        // trailing bytes that look like padding but are not spaces
        for b in v.iter_mut().rev().take(2) {
            *b = *r.pick(&[0u8, 9, 10, 0x1a, b' ']);
        }
    }
    v
}

/// A plain decimal number, or something else; and which it is.
pub fn gen_numeric(r: &mut Rng, len: usize) -> (Vec<u8>, Option<String>) {
    let mut digits = |k: usize, r: &mut Rng| -> String { (0..k).map(|_| (b'0' + r.below(10) as u8) as char).collect() };
    let mut t = match r.below(3) {
        0 => {
            let k = r.usize(1, 12);
            digits(k, r)
        }
        1 => {
            let k = r.usize(1, 8);
            format!("-{}", digits(k, r))
        }
        _ => {
            let (a, b) = (r.usize(1, 8), r.usize(1, 8));
            format!("{}{}.{}", if r.chance(1, 2) { "-" } else { "" }, digits(a, r), digits(b, r))
        }
    };
    if r.chance(1, 3) {
        t = match r.below(14) {
            0 => String::new(),
            1 => format!("{} ", t),
            2 => format!("+{}", t),
            3 => format!("{}e5", t),
            4 => format!("-{}", t),
            5 => format!("{}.", t),
            6 => format!(".{}", t),
            7 => format!("{}\n", t),
            8 => format!("\t{}", t),
            9 => format!("{}\0", t),
            10 => "*".repeat(len),
            11 => format!("{},{}", t, 5),
            12 => format!("0x{}", t),
            _ => {
                let mut b: Vec<u8> = t.into_bytes();
                let i = r.usize(0, b.len() - 1);
                b[i] = *r.pick(&[b' ', b'.', b'-', b'a', b'/', b':', b'+', 0x0d]);
                String::from_utf8(b).unwrap()
            }
        };
    }
    if t.len() > len {
        t.truncate(len);
    }
    let mut b = vec![b' '; len - t.len()];
    b.extend_from_slice(t.as_bytes());
    if r.chance(1, 40) && len > 0 {
        let i = r.usize(0, len - 1);
        b[i] = r.range(128, 255) as u8;
    }
    let v = plain_decimal(&b);
    (b, v)
}

/// spaces, then an optional minus, digits and optionally a point and digits
fn plain_decimal(b: &[u8]) -> Option<String> {
    let mut i = 0;
    while i < b.len() && b[i] == b' ' {
        i += 1;
    }
    let start = i;
    if i < b.len() && b[i] == b'-' {
        i += 1;
    }
    let d = i;
    while i < b.len() && b[i].is_ascii_digit() {
        i += 1;
    }
    if i == d {
        return None;
    }
    if i < b.len() && b[i] == b'.' {
        i += 1;
        let d = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        if i == d {
            return None;
        }
    }
    if i != b.len() {
        return None;
    }
    Some(b[start..].iter().map(|&x| x as char).collect())
}

pub fn c17(r: &mut Rng, cx: &mut Ctx) -> Result<(), String> {
    let enc = *r.pick(&[Enc::Ascii, Enc::Utf8, Enc::W1252]);
    let n_fields = match r.below(8) {
        0 => 0,
        1..=2 => 1,
        3..=6 => r.usize(2, 6),
        _ if !cx.small && r.chance(1, 12) => r.usize(61, 300),
        _ => r.usize(7, if cx.small { 8 } else { 60 }),
    };
    // as many fields, or records, as there can be
    let wide = cx.large && r.chance(1, 2);
    let n_fields = if wide { r.usize(1000, 2038) } else if cx.large { r.usize(1, 4) } else { n_fields };
    let mut room: usize = 65_534 - 5;
    let mut fields: Vec<Field> = Vec::new();
    let mut bad_name = false;
    for i in 0..n_fields {
        let typ = *r.pick(&[b'C', b'C', b'C', b'N', b'N', b'+', b'|', b'L', b'D', b'F', b'@', b'O', b'M', b'c', b'n', b'I', b'B', 0u8, 0xff]);
        let len = match typ {
            b'+' | b'|' => {
                if r.chance(1, 8) {
                    r.below(4) as u8
                } else {
                    4
                }
            }
            b'N' => *r.pick(&[1u8, 2, 5, 9, 10, 18, 20, 40]),
            _ => match r.below(8) {
                0 => 0,
                1 => 255,
                2 => r.below(256) as u8,
                _ => r.range(1, 30) as u8,
            },
        };
        let len = std::cmp::min(len as usize, room) as u8;
        room -= len as usize;
        let mut name: Vec<u8> = match r.below(6) {
            0 if i > 0 => fields[r.usize(0, i - 1)].name_bytes().to_vec(),
            1 => gen_text(r, enc, 11),
            2 if i > 0 && r.chance(1, 2) => {
                // an earlier name in other letters: a name of its own
                let mut n = fields[r.usize(0, i - 1)].name_bytes().to_vec();
                for b in n.iter_mut().filter(|b| b.is_ascii_alphabetic()) {
                    *b ^= 0x20;
                }
                n
            }
            2 => (0..11).map(|_| r.range(65, 90) as u8).collect(),
            _ => format!("f{}", i).into_bytes(),
        };
        if let Some(k) = name.iter().position(|&b| b == 0) {
            name.truncate(k);
        }
        if name.first() == Some(&0x0d) {
            name[0] = b'x';
        }
        name.truncate(11);
        if enc.decode(&name).is_none() && (wide || !r.chance(1, 4)) {
            name = format!("g{}", i).into_bytes();
        }
        bad_name |= enc.decode(&name).is_none();
        let mut f = Field::new(&name, typ, len);
        if name.len() < 10 && r.chance(1, 3) {
            // garbage after the terminating zero
            for b in f.raw[name.len() + 1..].iter_mut() {
                *b = r.u32() as u8;
            }
        }
        f.decimals = r.below(16) as u8;
        fields.push(f);
    }
    let slack = if r.chance(1, 10) { r.usize(1, 5) } else { 0 };
    let n_rows = match r.below(6) {
        0 => 0,
        1..=4 => r.usize(1, 5),
        _ => r.usize(6, if cx.small { 8 } else { 50 }),
    };
    let n_rows = if wide { r.usize(1, 2) } else if cx.large { r.usize(66_000, 70_000) } else { n_rows };
    if cx.large {
        cx.ev(if wide { "tables of a thousand fields or more" } else { "tables of more than 65536 records" }, 1);
    }
    let mut rows: Vec<Vec<u8>> = Vec::new();
    let mut want: Vec<Vec<Option<String>>> = Vec::new();
    for _ in 0..n_rows {
        let mut row = vec![if r.chance(1, 8) { b'*' } else { b' ' }];
        let mut w = Vec::new();
        for f in &fields {
            let len = f.len as usize;
            match f.typ {
                b'N' => {
                    let (b, v) = gen_numeric(r, len);
                    row.extend_from_slice(&b);
                    w.push(v);
                }
                b'+' | b'|' => {
                    let v = match r.below(4) {
                        0 => r.below(300) as u32,
                        1 => *r.pick(&[0u32, 1, 0x7fffffff, 0x80000000, 0xffffffff]),
                        _ => r.u32(),
                    };
                    row.extend_from_slice(&v.to_le_bytes()[..len]);
                    w.push(if len < 4 { None } else { Some(v.to_string()) });
                }
                _ => {
                    let mut b = gen_text(r, enc, len);
                    b.resize(len, b' ');
                    let mut k = b.len();
                    while k > 0 && b[k - 1] == b' ' {
                        k -= 1;
                    }
                    w.push(if f.typ == b'C' { enc.decode(&b[..k]) } else { None });
                    row.extend_from_slice(&b);
                }
            }
        }
        for _ in 0..slack {
            row.push(r.u32() as u8);
        }
        rows.push(row);
        want.push(w);
    }
    let tail = match r.below(5) {
        0 => vec![0x0d, 0],
        1 => {
            let mut t = vec![0u8; 264];
            t[0] = 0x0d;
            if r.chance(1, 2) {
                for b in t[1..].iter_mut() {
                    *b = r.u32() as u8;
                }
            }
            t
        }
        _ => vec![0x0d],
    };
    let shape = DbfShape { tail, slack, eof_mark: r.chance(2, 3) };
    let (mut bytes, _) = dbf_file(r, &fields, &rows, &shape);
    cx.say(|| {
        format!(
            "{:?}, {} rows, slack {}, fields {}",
            enc,
            rows.len(),
            slack,
            fields.iter().map(|f| format!("{:?} type {:?} length {}", String::from_utf8_lossy(f.name_bytes()), f.typ as char, f.len)).collect::<Vec<_>>().join("; ")
        )
    });
    if r.chance(1, 30) {
        let (i, v) = if r.chance(1, 2) { (2, r.range(13, 255)) } else { (3, r.range(32, 255)) };
        bytes[i] = v as u8;
        cx.nontrivial = true;
        hash_bytes(cx, &bytes);
        cx.ev("tables with an impossible date offered", 1);
        return match lib("DbfReader::new", || DbfReader::new(&bytes[..], enc.lib()).map(|_| ()))? {
            Err(DbfError::ParseError(_)) => Ok(()),
            Ok(_) => Err(format!("a header with {} in its date byte {} is accepted", v, i)),
            Err(e) => Err(format!("a complete file with a wrong date gives {}", e)),
        };
    }
    hash_bytes(cx, &bytes);
    cx.nontrivial = n_fields > 0 && (n_rows > 0 || bad_name);
    let by_name = !bad_name && r.chance(1, 40) && !cfg!(miri);
    if by_name {
        let dir = Scratch::new();
        let path = dir.0.join("a.dbf");
        std::fs::write(&path, &bytes).unwrap();
        let mut rd = lib("dbf::open", || topogeo::read::shapefile::dbf::open(&path, enc.lib()))?.map_err(|e| format!("a valid table is refused: {}", e))?;
        cx.ev("tables opened by name", 1);
        return follow_dbf(&mut rd, enc, &fields, &rows, &want, cx);
    }
    match lib("DbfReader::new", || DbfReader::new(&bytes[..], enc.lib()))? {
        Ok(mut rd) => {
            if bad_name {
                return Err("a field name that is not valid in the encoding is accepted".into());
            }
            follow_dbf(&mut rd, enc, &fields, &rows, &want, cx)
        }
        Err(DbfError::ParseError(_)) if bad_name => {
            cx.ev("undecodable field names refused", 1);
            Ok(())
        }
        Err(e) => Err(format!("a {} table is refused: {}", if bad_name { "complete" } else { "valid" }, e)),
    }
}

fn follow_dbf<R: Read>(rd: &mut DbfReader<R>, enc: Enc, fields: &[Field], rows: &[Vec<u8>], want: &[Vec<Option<String>>], cx: &mut Ctx) -> Result<(), String> {
    let names: Vec<String> = fields.iter().map(|f| enc.decode(f.name_bytes()).unwrap()).collect();
    let got: Vec<String> = rd.meta.fields.iter().map(|f| f.name.clone()).collect();
    if names != got {
        return Err(format!("fields are {:?}, stored are {:?}", got, names));
    }
    if rd.meta.n_records != rows.len() {
        return Err(format!("n_records is {}, stored {}", rd.meta.n_records, rows.len()));
    }
    let meta = rd.meta.clone();
    for (i, row) in rows.iter().enumerate() {
        let rec = match lib("DbfReader::next", || rd.next())? {
            None => return Err(format!("iteration ends after {} of {} records", i, rows.len())),
            Some(Err(e)) => return Err(format!("record {}: {}", i, e)),
            Some(Ok(x)) => x,
        };
        if &rec.bytes[..] != &row[..] {
            return Err(format!("record {} is not the stored bytes", i));
        }
        for (k, f) in meta.fields.iter().enumerate() {
            let got = lib("read_string", || f.read_string(&rec))?;
            check_value(i, &names[k], fields[k].typ, &want[i][k], got, cx)?;
            // by name: the first field of that name
            let by = lib("get_field", || rd.get_field(&names[k]))?.ok_or_else(|| format!("get_field({:?}) finds nothing", names[k]))?;
            let first = names.iter().position(|n| *n == names[k]).unwrap();
            let got = lib("read_string", || by.read_string(&rec))?;
            check_value(i, &names[k], fields[first].typ, &want[i][first], got, cx)?;
        }
        // the record's own printout
        let text = lib("DbfRecord display", || format!("{}", rec))?;
        if want[i].iter().all(|v| v.is_some()) {
            let exp = format!("{{{}}}", names.iter().zip(&want[i]).map(|(n, v)| format!("{}:{}", n, v.as_ref().unwrap())).collect::<Vec<_>>().join("; "));
            if text != exp {
                return Err(format!("record {} prints as {:?}, expected {:?}", i, text, exp));
            }
            cx.ev("printed records compared", 1);
        }
    }
    if lib("get_field", || rd.get_field("no such\u{1} field name"))?.is_some() {
        return Err("get_field finds a field that is not there".into());
    }
    for _ in 0..3 {
        if lib("DbfReader::next", || rd.next())?.is_some() {
            return Err(format!("iteration goes on after all {} records", rows.len()));
        }
    }
    cx.ev("tables read to the end", 1);
    Ok(())
}

fn check_value(i: usize, name: &str, typ: u8, want: &Option<String>, got: Result<String, DbfError>, cx: &mut Ctx) -> Result<(), String> {
    match (want, got) {
        (Some(w), Ok(g)) if *w == g => {
            cx.ev(
                match typ {
                    b'C' => "text values compared",
                    b'N' => "numbers compared",
                    _ => "long values compared",
                },
                1,
            );
            Ok(())
        }
        (None, Err(DbfError::ParseError(_))) => {
            cx.ev("unreadable values reported", 1);
            Ok(())
        }
        (w, g) => Err(format!("record {} field {:?} of type {:?}: stored {:?}, read {:?}", i, name, typ as char, w, g.map_err(|e| e.to_string()))),
    }
}

// ---------------------------------------------------------------------- C18

#[derive(Clone, Debug, PartialEq)]
enum Pair {
    Ok(Bits, usize),
    Shp,
    Dbf,
    Join,
    /// an error from either file
    Either,
}

fn row_id(rec: &DbfRecord) -> Option<usize> {
    // "pqr" then the id field
    let t: String = rec.bytes[4..].iter().map(|&b| b as char).collect();
    t.trim_end().strip_prefix("row").and_then(|s| s.parse().ok())
}

fn pair_of(e: &ShapefileError) -> Pair {
    match e {
        ShapefileError::ShpError(_) => Pair::Shp,
        ShapefileError::DbfError(_) => Pair::Dbf,
        ShapefileError::JoinError(_) => Pair::Join,
    }
}

fn pair_name(p: &Pair) -> String {
    match p {
        Pair::Ok(b, i) => format!("a shape of {} rings with row {}", b.len(), i),
        Pair::Shp => "a shape error".into(),
        Pair::Dbf => "a table error".into(),
        Pair::Join => "a join error".into(),
        Pair::Either => "a shape or table error".into(),
    }
}

pub fn c18(r: &mut Rng, cx: &mut Ctx) -> Result<(), String> {
    let n = if cx.large { r.usize(66_000, 70_000) } else { r.usize(0, if cx.small { 5 } else { 12 }) };
    let m = match r.below(4) {
        0 | 1 => n,
        2 => r.usize(0, n + 3),
        _ => r.usize(n.saturating_sub(2), n + 2),
    };
    let bad = if r.chance(1, 2) { r.below(5) } else { 0 };
    let style = r.below(3);
    let recs: Vec<ShpRec> = (0..n)
        .map(|i| {
            if r.below(8) < bad {
                gen_bad_rec(r, i as u32 + 1)
            } else {
                let mut rings = if cx.large { vec![gen_ring(r, 4, style)] } else { gen_rings(r, style, false) };
                // each shape names itself
                rings[0][0].0 = i as f64;
                let l = rings[0].len() - 1;
                rings[0][l].0 = i as f64;
                polygon(i as u32 + 1, rings)
            }
        })
        .collect();
    let (shp, ends) = shp_file(&recs, (-180., -180., 180., 180.));
    let (dbf, dbf_ends) = id_table(r, m, 8);
    // one source may break off
    let mut shp_cut = shp.len();
    let mut dbf_cut = dbf.len();
    let (mut ns, mut nd) = (n, m); // records before the break
    let (mut bs, mut bd) = (false, false); // a break comes after them
    match r.below(6) {
        0 if n > 0 => {
            shp_cut = r.usize(100, shp.len() - 1);
            ns = ends.iter().filter(|&&e| e <= shp_cut).count();
            bs = true;
        }
        1 if m > 0 => {
            dbf_cut = r.usize(dbf_ends[0], dbf_ends[m] - 1);
            nd = dbf_ends[1..].iter().filter(|&&e| e <= dbf_cut).count();
            bd = true;
        }
        _ => {}
    }
    let items_s = ns + bs as usize;
    let items_d = nd + bd as usize;
    let mut want: Vec<Pair> = Vec::new();
    for i in 0..items_s.max(items_d) {
        want.push(if i >= items_s || i >= items_d {
            Pair::Join
        } else {
            let s_bad = i >= ns || recs[i].rings.is_none();
            let d_bad = i >= nd;
            match (s_bad, d_bad) {
                (false, false) => Pair::Ok(bits_of(recs[i].rings.as_ref().unwrap()), i),
                (true, false) => Pair::Shp,
                (false, true) => Pair::Dbf,
                (true, true) => Pair::Either,
            }
        });
    }
    hash_bytes(cx, &shp[..shp_cut]);
    hash_bytes(cx, &dbf[..dbf_cut]);
    cx.nontrivial = want.len() > 1;
    cx.say(|| {
        format!(
            "{} shapes ({}), {} rows; .shp cut at {} of {}, .dbf at {} of {}; expected: {}",
            n,
            recs.iter().map(|x| x.what).collect::<Vec<_>>().join(", "),
            m,
            shp_cut,
            shp.len(),
            dbf_cut,
            dbf.len(),
            want.iter().map(pair_name).collect::<Vec<_>>().join("; ")
        )
    });
    let enc = encoding::all::UTF_8;
    if r.chance(1, 40) && !cfg!(miri) {
        let dir = Scratch::new();
        let stem = *r.pick(&["a", "b.c", "map 1", "x.dbf"]);
        let ext = "shp";
        let path = dir.0.join(format!("{}.{}", stem, ext));
        std::fs::write(&path, &shp[..shp_cut]).unwrap();
        std::fs::write(dir.0.join(format!("{}.dbf", stem)), &dbf[..dbf_cut]).unwrap();
        let mut rd = lib("open", || match r.below(4) {
            0 => topogeo::read::shapefile::open(&path, enc),
            1 => topogeo::read::shapefile::open_utf8(&path),
            2 => topogeo::read::shapefile::open_windows1252(&path),
            _ => topogeo::read::shapefile::open_ascii(&path),
        })?
        .map_err(|e| format!("a readable pair is refused: {}", e))?;
        cx.ev("pairs opened by name", 1);
        follow_pairs(&mut rd, &want, cx)?;
    } else {
        let mut rd = lib("ShapefileReader::new", || ShapefileReader::new(&shp[..shp_cut], &dbf[..dbf_cut], enc))?.map_err(|e| format!("a readable pair is refused: {}", e))?;
        follow_pairs(&mut rd, &want, cx)?;
    }
    // the same pairing as regions
    let mut rd = lib("ShapefileReader::new", || ShapefileReader::new(&shp[..shp_cut], &dbf[..dbf_cut], enc))?.map_err(|e| format!("a readable pair is refused: {}", e))?;
    let mut it = lib("ShapefileGeoIterator::new", || ShapefileGeoIterator::new(&mut rd))?;
    for (i, w) in want.iter().enumerate() {
        let got = lib("ShapefileGeoIterator::next", || it.next())?;
        let ok = match (&got, w) {
            (Some(Ok(reg)), Pair::Ok(b, id)) => row_id(&reg.data) == Some(*id) && reg.outer_rings.len() + reg.inner_rings.len() == b.len(),
            (Some(Err(e)), w) => *w == pair_of(e) || (*w == Pair::Either && pair_of(e) != Pair::Join),
            _ => false,
        };
        if !ok {
            let g = match &got {
                None => "the end".into(),
                Some(Ok(reg)) => format!("a region of {} rings with row {:?}", reg.outer_rings.len() + reg.inner_rings.len(), row_id(&reg.data)),
                Some(Err(e)) => pair_name(&pair_of(e)),
            };
            return Err(format!("region item {}: expected {}, got {}", i, pair_name(w), g));
        }
        cx.ev("region items compared", 1);
    }
    for _ in 0..3 {
        if lib("ShapefileGeoIterator::next", || it.next())?.is_some() {
            return Err("region iteration goes on after the last pair".into());
        }
    }
    Ok(())
}

fn follow_pairs<R: Read, S: Read>(rd: &mut ShapefileReader<R, S>, want: &[Pair], cx: &mut Ctx) -> Result<(), String> {
    for (i, w) in want.iter().enumerate() {
        let got = lib("ShapefileReader::next", || rd.next())?;
        let g = match &got {
            None => return Err(format!("iteration ends after {} items, expected {}", i, pair_name(w))),
            Some(Ok(rec)) => Pair::Ok(bits_read(&rec.rings), row_id(&rec.data).ok_or("a row is damaged")?),
            Some(Err(e)) => {
                lib("error display", || format!("{} {:?}", e, e))?;
                pair_of(e)
            }
        };
        let ok = g == *w || (*w == Pair::Either && (g == Pair::Shp || g == Pair::Dbf));
        if !ok {
            return Err(format!("item {}: expected {}, got {}{}", i, pair_name(w), pair_name(&g), if matches!((w, &g), (Pair::Ok(_, a), Pair::Ok(_, b)) if a == b) { " of another shape" } else { "" }));
        }
        cx.ev(
            match g {
                Pair::Ok(..) => "pairs compared",
                Pair::Join => "join errors",
                _ => "file errors passed on",
            },
            1,
        );
    }
    for _ in 0..3 {
        if let Some(x) = lib("ShapefileReader::next", || rd.next())? {
            return Err(format!("iteration goes on after the last pair: {:?}", x.map(|_| "a record").map_err(|e| e.to_string())));
        }
    }
    cx.ev("ends of iteration", 1);
    Ok(())
}

// ---------------------------------------------------------------------- C19

/// Length of what a value prints as, without keeping it.
fn printed<T: std::fmt::Display>(t: &T) -> usize {
    struct Sink(usize);
    impl std::fmt::Write for Sink {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            self.0 += s.len();
            Ok(())
        }
    }
    let mut s = Sink(0);
    std::fmt::Write::write_fmt(&mut s, format_args!("{}", t)).expect("printing fails");
    s.0
}

fn warm_up() {
    use std::sync::Once;
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        let fields = [Field::new(b"n", b'N', 2)];
        let (b, _) = dbf_file(&mut Rng::new(0, "w", 0), &fields, &[b" 12".to_vec()], &DbfShape::default());
        let mut rd = DbfReader::new(&b[..], encoding::all::UTF_8).unwrap();
        let rec = rd.next().unwrap().unwrap();
        let f = rd.get_field("n").unwrap();
        let _ = f.read_string(&rec);
    });
}

const EXTREME: [u32; 24] = [
    0, 1, 2, 3, 4, 5, 7, 8, 31, 32, 33, 44, 100, 255, 256, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xfffffffc, 0xfffffffe, 0xffffffff, 0x40000000, 0x10000000,
];

fn mutate(r: &mut Rng, b: &mut Vec<u8>, hot: &[usize]) {
    for _ in 0..r.usize(1, 4) {
        if b.is_empty() {
            return;
        }
        match r.below(10) {
            0..=3 => {
                // an extreme value in a length or count field
                let at = *r.pick(hot);
                if at + 4 <= b.len() {
                    let v = if r.chance(1, 4) { r.u32() } else { *r.pick(&EXTREME) };
                    let w = if r.chance(1, 2) { v.to_be_bytes() } else { v.to_le_bytes() };
                    if r.chance(1, 4) {
                        b[at..at + 2].copy_from_slice(&w[..2]);
                    } else {
                        b[at..at + 4].copy_from_slice(&w);
                    }
                }
            }
            4 => {
                let i = r.usize(0, b.len() - 1);
                b[i] ^= 1 << r.below(8);
            }
            5 => {
                let i = r.usize(0, b.len() - 1);
                b[i] = *r.pick(&[0u8, 1, 5, 0x0d, 0x20, 0x7f, 0x80, 0xff]);
            }
            6 => {
                let n = r.usize(0, b.len());
                b.truncate(n);
            }
            7 => {
                let i = r.usize(0, b.len());
                let n = r.usize(1, 40);
                let ins: Vec<u8> = (0..n).map(|_| r.u32() as u8).collect();
                b.splice(i..i, ins);
            }
            8 => {
                let i = r.usize(0, b.len() - 1);
                let j = r.usize(i, (i + 64).min(b.len()));
                b.drain(i..j);
            }
            _ => {
                let i = r.usize(0, b.len() - 1);
                for x in b[i..].iter_mut().take(8) {
                    *x = r.u32() as u8;
                }
            }
        }
    }
}

fn random_bytes(r: &mut Rng) -> Vec<u8> {
    let n = r.usize(0, 400);
    (0..n).map(|_| r.u32() as u8).collect()
}

/// Peak of live memory during f, beyond what was live before, and f's result.
fn measured<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let before = alloc::reset_peak();
    let t = f();
    (t, alloc::peak().saturating_sub(before))
}

pub fn c19(r: &mut Rng, cx: &mut Ctx) -> Result<(), String> {
    warm_up();
    let bad = r.below(3);
    let recs = gen_recs(r, cx, bad);
    let (mut shp, ends) = shp_file(&recs, (-180., -90., 180., 90.));
    let mut hot = vec![0usize, 24, 28, 32, 36];
    let mut at = 100;
    for e in &ends {
        hot.extend([at, at + 4, at + 8, at + 44, at + 48, at + 52, at + 56].iter().filter(|&&x| x + 4 <= *e));
        hot.extend([at + 4, at + 44, at + 48].iter().filter(|&&x| x + 4 <= *e));
        at = *e;
    }
    let nf = if !cx.small && r.chance(1, 60) { r.usize(6, 2040) } else { r.usize(0, 5) };
    let fields: Vec<Field> = (0..nf).map(|i| {
        let t = *r.pick(&[b'C', b'N', b'+', b'|', b'L', b'D', b'F', b'@', b'O', 0u8]);
        let l = if r.chance(1, 2) { 4 } else { r.below(20) as u8 };
        Field::new(format!("f{}", i).as_bytes(), t, l)
    }).collect();
    let rl: usize = 1 + fields.iter().map(|f| f.len as usize).sum::<usize>();
    let n_rows = if r.chance(3, 4) { recs.len() } else { r.usize(0, 5) };
    let rows: Vec<Vec<u8>> = (0..n_rows).map(|_| (0..rl).map(|_| if r.chance(1, 3) { r.u32() as u8 } else { *r.pick(b" 0123456789.-") }).collect()).collect();
    let (mut dbf, _) = dbf_file(r, &fields, &rows, &DbfShape::default());
    let mut hot_d = vec![2usize, 4, 4, 8, 8, 10, 10];
    for i in 0..nf {
        hot_d.push(32 + 32 * i + 16);
        hot_d.push(32 + 32 * i + 11);
        hot_d.push(32 + 32 * i);
    }
    match r.below(12) {
        0 => shp = random_bytes(r),
        1 => dbf = random_bytes(r),
        2..=5 => mutate(r, &mut shp, &hot),
        6..=9 => mutate(r, &mut dbf, &hot_d),
        _ => {
            mutate(r, &mut shp, &hot);
            mutate(r, &mut dbf, &hot_d);
        }
    }
    hash_bytes(cx, &shp);
    hash_bytes(cx, &dbf);
    let hex = |b: &[u8]| b.iter().take(2000).map(|x| format!("{:02x}", x)).collect::<String>();
    cx.say(|| format!(".shp {} bytes {}\n.dbf {} bytes {}", shp.len(), hex(&shp), dbf.len(), hex(&dbf)));
    let enc = r.pick(&[Enc::Ascii, Enc::Utf8, Enc::W1252]).lib();

    let shp_items = shp.len().saturating_sub(100) / 8 + 1;
    const CAP: usize = 3000;
    let le16 = |b: &[u8], i: usize| if b.len() >= i + 2 { b[i] as usize | (b[i + 1] as usize) << 8 } else { 0 };
    let n_stated = if dbf.len() >= 8 { u32::from_le_bytes(dbf[4..8].try_into().unwrap()) as usize } else { 0 };
    let rl = le16(&dbf, 10);
    let dbf_items = if rl == 0 { n_stated } else { n_stated.min(dbf.len() / rl + 1) };

    // the .shp alone
    let (res, peak) = measured(|| -> Result<(usize, bool), String> {
        let mut rd = match lib("ShpReader::new", || ShpReader::new(Source::new(&shp)))? {
            Err(e) => {
                lib("error display", || format!("{} {:?}", e, e))?;
                return Ok((0, false));
            }
            Ok(x) => x,
        };
        let mut n = 0;
        while let Some(x) = lib("ShpReader::next", || rd.next())? {
            n += 1;
            if n > shp_items {
                return Err(format!("more than {} items from a .shp of {} bytes", shp_items, shp.len()));
            }
            match x {
                Ok(rec) => {
                    if rec.rings.is_empty() || rec.rings.iter().any(|g| g.0.len() < 4) {
                        return Err(format!("item {} has no rings or a ring of fewer than four points", n - 1));
                    }
                    lib("ring display", || rec.rings.iter().map(|g| printed(g)).sum::<usize>())?;
                }
                Err(e) => {
                    lib("error display", || format!("{} {:?}", e, e))?;
                }
            }
        }
        Ok((n, true))
    });
    let (n, opened) = res?;
    cx.ev("items read from damaged .shp", n as u64);
    cx.ev(if opened { "damaged .shp opened" } else { "damaged .shp refused" }, 1);
    memory("a .shp", peak, shp.len(), cx)?;

    // the .dbf alone
    let (res, peak) = measured(|| -> Result<(usize, usize, bool), String> {
        let mut rd = match lib("DbfReader::new", || DbfReader::new(Source::new(&dbf), enc))? {
            Err(e) => {
                lib("error display", || format!("{} {:?}", e, e))?;
                return Ok((0, 0, false));
            }
            Ok(x) => x,
        };
        lib("meta debug", || format!("{:?}", rd.meta).len())?;
        let (mut n, mut vals) = (0, 0);
        let meta = rd.meta.clone();
        while let Some(x) = lib("DbfReader::next", || rd.next())? {
            n += 1;
            if n > dbf_items {
                return Err(format!("more than {} items from a .dbf of {} bytes that states {} records of {} bytes", dbf_items, dbf.len(), n_stated, rl));
            }
            if n >= CAP {
                break;
            }
            match x {
                Ok(rec) => {
                    for f in meta.fields.iter().take(60) {
                        vals += lib("read_string", || f.read_string(&rec))?.is_ok() as usize;
                    }
                    if meta.fields.len() < 60 {
                        lib("record display", || printed(&rec))?;
                    }
                }
                Err(e) => {
                    lib("error display", || format!("{} {:?}", e, e))?;
                }
            }
        }
        Ok((n, vals, true))
    });
    let (nd, vals, opened_d) = res?;
    cx.ev("items read from damaged .dbf", nd as u64);
    cx.ev("values read from damaged .dbf", vals as u64);
    cx.ev(if opened_d { "damaged .dbf opened" } else { "damaged .dbf refused" }, 1);
    memory("a .dbf", peak, dbf.len(), cx)?;

    // together, as records and as regions
    for regions in [false, true] {
        let cap = CAP.max(shp_items) + 1;
        let (res, peak) = measured(|| -> Result<usize, String> {
            let mut rd = match lib("ShapefileReader::new", || ShapefileReader::new(Source::new(&shp), Source::new(&dbf), enc))? {
                Err(e) => {
                    lib("error display", || format!("{} {:?}", e, e))?;
                    return Ok(0);
                }
                Ok(x) => x,
            };
            let bound = shp_items.max(dbf_items);
            let mut n = 0;
            if regions {
                let mut it = lib("ShapefileGeoIterator::new", || ShapefileGeoIterator::new(&mut rd))?;
                while let Some(x) = lib("ShapefileGeoIterator::next", || it.next())? {
                    n += 1;
                    if n > bound {
                        return Err(format!("more than {} regions", bound));
                    }
                    if n >= cap {
                        break;
                    }
                    let _ = x;
                }
            } else {
                let fields = lib("dbf_fields", || rd.dbf_fields())?;
                while let Some(x) = lib("ShapefileReader::next", || rd.next())? {
                    n += 1;
                    if n > bound {
                        return Err(format!("more than {} records", bound));
                    }
                    if n >= cap {
                        break;
                    }
                    if fields.len() < 60 {
                        match x {
                            Ok(rec) => lib("record display", || printed(&rec))?,
                            Err(e) => lib("error display", || format!("{} {:?}", e, e).len())?,
                        };
                    }
                }
            }
            Ok(n)
        });
        let n = res?;
        cx.ev("items read from damaged pairs", n as u64);
        cx.nontrivial |= n > 0;
        memory("a pair", peak, shp.len() + dbf.len(), cx)?;
    }
    Ok(())
}

fn memory(what: &str, peak: usize, len: usize, cx: &mut Ctx) -> Result<(), String> {
    if !alloc::enabled() {
        return Ok(());
    }
    cx.ev("memory measurements", 1);
    let bound = 32 * len + (1 << 20);
    if peak > bound {
        return Err(format!("reading {} of {} bytes takes {} bytes of memory", what, len, peak));
    }
    Ok(())
}

// ---------------------------------------------------------------------- C20

const KINDS: [io::ErrorKind; 6] = [
    io::ErrorKind::Other,
    io::ErrorKind::TimedOut,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::InvalidData,
];

pub fn source<'a>(r: &mut Rng, data: &'a [u8], f: Option<Fault>) -> Source<'a> {
    let sizes = match r.below(4) {
        0 => Sizes::All,
        1 => Sizes::One,
        2 => Sizes::Random(3),
        _ => Sizes::Random(64),
    };
    let intr = if r.chance(1, 3) { r.below(5) } else { 0 };
    let s = Source::new(data).hostile(r, sizes, intr);
    match f {
        Some(f) => s.fault(f),
        None => s,
    }
}

pub fn gen_fault(r: &mut Rng, at: usize) -> Fault {
    Fault {
        at,
        kind: if r.chance(1, 3) { None } else { Some(*r.pick(&KINDS)) },
        then: *r.pick(&[Then::Same, Then::End, Then::Resume]),
    }
}

fn fault_kind(f: &Fault) -> io::ErrorKind {
    f.kind.unwrap_or(io::ErrorKind::UnexpectedEof)
}

pub fn c20(r: &mut Rng, cx: &mut Ctx) -> Result<(), String> {
    let n = r.usize(0, 4);
    let bad = if r.chance(1, 3) { 2 } else { 0 };
    let big = !cx.small && r.chance(1, 60);
    let recs: Vec<ShpRec> = (0..n)
        .map(|i| {
            if r.below(8) < bad {
                gen_bad_rec(r, i as u32 + 1)
            } else if big {
                // more than one internal buffer
                let k = r.usize(600, 3000);
                polygon(i as u32 + 1, vec![gen_ring(r, k, 1)])
            } else {
                let k = r.usize(4, 6);
                let mut rings = vec![gen_ring(r, k, 1)];
                if r.chance(1, 4) {
                    rings.push(gen_ring(r, 4, 1));
                }
                polygon(i as u32 + 1, rings)
            }
        })
        .collect();
    let (shp, ends) = shp_file(&recs, (-180., -180., 180., 180.));
    let m = if r.chance(2, 3) { n } else { r.usize(0, 4) };
    let (dbf, dends) = id_table(r, m, 6);
    hash_bytes(cx, &shp);
    hash_bytes(cx, &dbf);
    cx.nontrivial = n > 0;
    cx.say(|| format!("{} shapes, .shp of {} bytes, records end at {:?}; {} rows, .dbf of {} bytes, rows end at {:?}", n, shp.len(), ends, m, dbf.len(), dends));

    // no fault: splitting the bytes makes no difference
    let want: Vec<Item> = recs.iter().map(expected).collect();
    for _ in 0..2 {
        let s = source(r, &shp, None);
        let mut rd = lib("ShpReader::new", || ShpReader::new(s))?.map_err(|e| format!("a complete .shp, read in pieces, is refused: {}", e))?;
        follow_shp(&mut rd, &want, cx).map_err(|e| format!("complete .shp read in pieces: {}", e))?;
        let s = source(r, &dbf, None);
        check_dbf_fault(lib("DbfReader::new", || DbfReader::new(s, encoding::all::UTF_8))?, &dbf, &dends, m, None, cx).map_err(|e| format!("complete .dbf read in pieces: {}", e))?;
        cx.ev("complete files read in pieces", 2);
    }

    // a fault at every byte (long files: at and around every boundary, and at random)
    let positions = |r: &mut Rng, len: usize, ends: &[usize], head: usize| -> Vec<usize> {
        if len <= 900 {
            return (0..len).collect();
        }
        let mut v: Vec<usize> = vec![0, 1, head - 1, head, head + 4, head + 8];
        for &e in ends {
            for d in 0..6usize {
                v.push(e + d);
                v.push(e.saturating_sub(d));
            }
        }
        for _ in 0..40 {
            v.push(r.usize(0, len - 1));
        }
        v.retain(|&x| x < len);
        v.sort();
        v.dedup();
        v
    };
    for at in positions(r, shp.len(), &ends, 100) {
        let f = gen_fault(r, at);
        cx.ev("faults injected in .shp", 1);
        let s = source(r, &shp, Some(f));
        let fail = |m: String| format!(".shp with {:?}: {}", f, m);
        match lib("ShpReader::new", || ShpReader::new(s)).map_err(fail)? {
            Err(e) => {
                if at >= 100 {
                    return Err(fail(format!("the header is refused: {}", e)));
                }
                if shp_err(&e) != Item::Io(fault_kind(&f)) {
                    return Err(fail(format!("opening gives {}", e)));
                }
                cx.ev("faults in headers reported", 1);
            }
            Ok(mut rd) => {
                if at < 100 {
                    return Err(fail("a header of fewer than 100 bytes is accepted".into()));
                }
                let done = ends.iter().filter(|&&e| e <= at).count();
                let mut w: Vec<Item> = want[..done].to_vec();
                w.push(Item::Io(fault_kind(&f)));
                follow_shp(&mut rd, &w, cx).map_err(fail)?;
            }
        }
    }
    let last = *dends.last().unwrap();
    for at in positions(r, last, &dends, dends[0]) {
        let f = gen_fault(r, at);
        cx.ev("faults injected in .dbf", 1);
        let s = source(r, &dbf, Some(f));
        let fail = |m: String| format!(".dbf with {:?}: {}", f, m);
        let x = lib("DbfReader::new", || DbfReader::new(s, encoding::all::UTF_8)).map_err(fail)?;
        check_dbf_fault(x, &dbf, &dends, m, Some(f), cx).map_err(fail)?;
    }

    // the pair, one file failing
    for _ in 0..12 {
        let in_shp = r.chance(1, 2);
        let (fs, fd) = if in_shp {
            let at = r.usize(0, shp.len() - 1);
            (Some(gen_fault(r, at)), None)
        } else {
            let at = r.usize(0, last - 1);
            (None, Some(gen_fault(r, at)))
        };
        let fail = |m: String| format!("pair with .shp {:?}, .dbf {:?}: {}", fs, fd, m);
        let (a, b) = (source(r, &shp, fs), source(r, &dbf, fd));
        let opened = lib("ShapefileReader::new", || ShapefileReader::new(a, b, encoding::all::UTF_8)).map_err(fail)?;
        cx.ev("faults injected in pairs", 1);
        let in_header = fs.map_or(false, |f| f.at < 100) || fd.map_or(false, |f| f.at < dends[0]);
        let kind = fs.or(fd).map(|f| fault_kind(&f)).unwrap();
        let io_kind = |e: &ShapefileError| match e {
            ShapefileError::ShpError(ShpError::IOError(e)) if in_shp => Some(e.kind()),
            ShapefileError::DbfError(DbfError::IOError(e)) if !in_shp => Some(e.kind()),
            _ => None,
        };
        match opened {
            Err(e) => {
                if !in_header || io_kind(&e) != Some(kind) {
                    return Err(fail(format!("opening gives {}", e)));
                }
            }
            Ok(mut rd) => {
                if in_header {
                    return Err(fail("a damaged header is accepted".into()));
                }
                let ns = fs.map_or(n, |f| ends.iter().filter(|&&e| e <= f.at).count());
                let nd = fd.map_or(m, |f| dends[1..].iter().filter(|&&e| e <= f.at).count());
                let items_s = ns + fs.is_some() as usize;
                let items_d = nd + fd.is_some() as usize;
                let total = items_s.max(items_d);
                for i in 0..total {
                    let got = match lib("ShapefileReader::next", || rd.next()).map_err(fail)? {
                        None => return Err(fail(format!("ends after {} items of {}", i, total))),
                        Some(x) => x,
                    };
                    let ok = if i >= items_s || i >= items_d {
                        matches!(got, Err(ShapefileError::JoinError(_)))
                    } else if i >= ns || i >= nd {
                        let bad_shape = i < ns && recs[i].rings.is_none();
                        matches!(&got, Err(e) if io_kind(e) == Some(kind) || (bad_shape && pair_of(e) == Pair::Shp))
                    } else {
                        match (&got, &recs[i].rings) {
                            (Ok(x), Some(rings)) => bits_read(&x.rings) == bits_of(rings) && row_id(&x.data) == Some(i),
                            (Err(ShapefileError::ShpError(ShpError::ParseError(_))), None) => true,
                            _ => false,
                        }
                    };
                    if !ok {
                        return Err(fail(format!("item {} is {}", i, match got { Ok(_) => "a wrong record".to_string(), Err(e) => format!("{:?}", e) })));
                    }
                    cx.ev("items of failing pairs compared", 1);
                }
                for _ in 0..3 {
                    if lib("ShapefileReader::next", || rd.next()).map_err(fail)?.is_some() {
                        return Err(fail(format!("iteration goes on after {} items", total)));
                    }
                }
            }
        }
    }
    Ok(())
}

fn check_dbf_fault<R: Read>(x: Result<DbfReader<R>, DbfError>, bytes: &[u8], ends: &[usize], m: usize, f: Option<Fault>, cx: &mut Ctx) -> Result<(), String> {
    let at = f.map_or(usize::MAX, |f| f.at);
    match x {
        Err(e) => {
            if at >= ends[0] {
                return Err(format!("the header is refused: {}", e));
            }
            match e {
                DbfError::IOError(ref e) if e.kind() == fault_kind(&f.unwrap()) => {
                    cx.ev("faults in headers reported", 1);
                    Ok(())
                }
                e => Err(format!("opening gives {}", e)),
            }
        }
        Ok(mut rd) => {
            if at < ends[0] {
                return Err("an incomplete header is accepted".into());
            }
            let done = ends[1..].iter().filter(|&&e| e <= at).count();
            for i in 0..done {
                match lib("DbfReader::next", || rd.next())? {
                    Some(Ok(rec)) => {
                        if rec.bytes[..] != bytes[ends[i]..ends[i + 1]] {
                            return Err(format!("row {} is not the stored bytes", i));
                        }
                        cx.ev("rows compared", 1);
                    }
                    Some(Err(e)) => return Err(format!("row {} was completely readable, but gives {}", i, e)),
                    None => return Err(format!("ends after {} rows, {} were completely readable", i, done)),
                }
            }
            if done < m {
                let k = fault_kind(&f.unwrap());
                match lib("DbfReader::next", || rd.next())? {
                    Some(Err(DbfError::IOError(ref e))) if e.kind() == k => cx.ev("I/O errors reported", 1),
                    Some(Err(e)) => return Err(format!("row {} gives {}, expected {:?}", done, e, k)),
                    Some(Ok(_)) => return Err(format!("row {} is made up from incomplete bytes", done)),
                    None => return Err(format!("the failure in row {} is not reported", done)),
                }
            }
            for _ in 0..3 {
                if lib("DbfReader::next", || rd.next())?.is_some() {
                    return Err("iteration goes on after the failure or the last row".into());
                }
            }
            Ok(())
        }
    }
}

// ---------------------------------------------------------------------- C21

const M: f64 = u32::MAX as f64;

/// Twice the signed area in the y-down plane of the quantised points: positive = clockwise on the map.
fn area2(ps: &[topogeo::geo::Point]) -> i128 {
    let mut s = 0i128;
    for i in 0..ps.len() {
        let (a, b) = (&ps[i], &ps[(i + 1) % ps.len()]);
        s += a.0 as i128 * b.1 as i128 - b.0 as i128 * a.1 as i128;
    }
    s
}

pub fn c21(r: &mut Rng, cx: &mut Ctx) -> Result<(), String> {
    // a box: (x0, y0) lower left, w x h
    let style = r.below(8);
    let (x0, y0, x1, y1): (f64, f64, f64, f64) = match style {
        0 => (-180., -90., 180., 90.),
        1 => (0., 0., M, M),
        2 => {
            let (a, b) = ((r.f64_unit() - 0.5) * 360., (r.f64_unit() - 0.5) * 180.);
            (a, b, a + r.f64_unit() * 50. + 1e-6, b + r.f64_unit() * 50. + 1e-6)
        }
        3 => {
            let (a, b) = (r.range(-1000000, 1000000) as f64, r.range(-1000000, 1000000) as f64);
            (a, b, a + r.range(1, 2000) as f64, b + r.range(1, 3000000) as f64)
        }
        4 => (-1e300, -1e150, 1e300, 1e150),
        5 => {
            let (a, b) = ((r.f64_unit() - 0.5) * 1e-300, (r.f64_unit() - 0.5) * 1e-300);
            (a, b, a + 1e-290 * (1. + r.f64_unit()), b + 1e-290 * (1. + r.f64_unit()))
        }
        6 => {
            let (a, b) = (1e7 + r.f64_unit(), -3e6 - r.f64_unit());
            (a, b, a + 1e-3 * (1. + r.f64_unit()), b + 1e-3 * (1. + r.f64_unit()))
        }
        _ => {
            // no width or no height
            let (a, b) = (r.range(-10, 10) as f64, r.range(-10, 10) as f64);
            (a, b, if r.chance(1, 2) { a } else { a + 4. }, if r.chance(1, 2) { b } else { b + 4. })
        }
    };
    let many = cx.large && r.chance(1, 2);
    let n = if many { r.usize(66_000, 70_000) } else { r.usize(1, 4) };
    if cx.large {
        cx.ev("files of more than 65536 records or points", 1);
    }
    let mut recs = Vec::new();
    let mut shapes: Vec<Vec<Vec<P>>> = Vec::new();
    let coarse = r.chance(1, 3);
    for i in 0..n {
        let k = if many { 1 } else { r.usize(1, 5) };
        let rings: Vec<Vec<P>> = (0..k)
            .map(|_| {
                let m = if cx.large && !many && i == 0 { r.usize(66_000, 100_000) } else { r.usize(3, 9) };
                let outside = r.chance(1, 8);
                let kind = r.below(6);
                let mut v: Vec<P> = Vec::new();
                for j in 0..m {
                    let t = |r: &mut Rng, lo: f64, hi: f64| -> f64 {
                        let w = hi - lo;
                        match r.below(if outside { 9 } else { 7 }) {
                            0 => lo,
                            1 => hi,
                            2..=4 => {
                                let x = if coarse { lo + w * r.below(9) as f64 / 8. } else { lo + w * r.f64_unit() };
                                x.max(lo).min(hi)
                            }
                            5 => lo + (w / M * r.below(3) as f64),
                            6 => hi - (w / M * r.below(3) as f64),
                            7 => lo - w * (r.f64_unit() * 3. + 1e-6),
                            _ => hi + w * (r.f64_unit() * 3. + 1e-6),
                        }
                    };
                    let p = match kind {
                        // the whole box, walked around
                        0 => [(x0, y0), (x0, y1), (x1, y1), (x1, y0)][j.min(3)],
                        // points in line
                        1 => (t(r, x0, x1), y0),
                        _ => (t(r, x0, x1), t(r, y0, y1)),
                    };
                    v.push(p);
                }
                if r.chance(1, 2) {
                    v.reverse();
                }
                if r.chance(1, 6) && m >= 4 {
                    let q = v[0];
                    v[2] = q;
                }
                let f = v[0];
                v.push(f);
                v
            })
            .collect();
        shapes.push(rings.clone());
        recs.push(polygon(i as u32 + 1, rings));
    }
    let (shp, _) = shp_file(&recs, (x0, y0, x1, y1));
    let (dbf, _) = id_table(r, n, 8);
    hash_bytes(cx, &shp);
    cx.nontrivial = true;
    cx.say(|| format!("box {:?}; shapes {:?}", (x0, y0, x1, y1), shapes));
    let mut rd = lib("ShapefileReader::new", || ShapefileReader::new(&shp[..], &dbf[..], encoding::all::UTF_8))?.map_err(|e| format!("refused: {}", e))?;
    {
        let b = rd.bounding_box();
        if (b.0, b.1, b.2, b.3) != (x0, y0, x1, y1) {
            return Err("bounding_box() is not the stored box".into());
        }
    }
    let regions: Vec<Region<DbfRecord>> = {
        let it = lib("ShapefileGeoIterator::new", || ShapefileGeoIterator::new(&mut rd))?;
        lib("ShapefileGeoIterator::next", || it.collect::<Result<Vec<_>, _>>())?.map_err(|e| format!("regions: {}", e))?
    };
    if regions.len() != n {
        return Err(format!("{} regions from {} shapes", regions.len(), n));
    }
    let mut xs: Vec<(f64, u32)> = Vec::new();
    let mut ys: Vec<(f64, u32)> = Vec::new();
    for (i, reg) in regions.iter().enumerate() {
        if row_id(&reg.data) != Some(i) {
            return Err(format!("region {} carries row {:?}", i, row_id(&reg.data)));
        }
        let (no, nh) = (reg.outer_rings.len(), reg.inner_rings.len());
        if no + nh != shapes[i].len() {
            return Err(format!("region {} has {} + {} rings, the shape {}", i, no, nh, shapes[i].len()));
        }
        // Both lists keep the shape's order, but which list a ring went to is
        // not written on it: try every way to deal the rings out.
        let mut fitting: Vec<Dealt> = Vec::new();
        let mut complaint: Option<(usize, String)> = None;
        for mask in 0u32..1 << shapes[i].len() {
            if mask.count_ones() as usize != no {
                continue;
            }
            match deal(i, reg, &shapes[i], mask, (x0, y0, x1, y1), style == 7) {
                Ok(d) => fitting.push(d),
                // report the attempt that got furthest
                Err(e) => {
                    if complaint.as_ref().map_or(true, |c| e.0 > c.0) {
                        complaint = Some(e)
                    }
                }
            }
        }
        if fitting.is_empty() {
            return Err(complaint.unwrap().1);
        }
        if fitting.len() > 1 {
            cx.ev("regions whose rings can be told apart in several ways", 1);
            continue;
        }
        let d = fitting.pop().unwrap();
        for (name, n) in d.events {
            cx.ev(name, n);
        }
        xs.extend(d.xs);
        ys.extend(d.ys);
    }
    for (v, up, name) in [(&mut xs, true, "x"), (&mut ys, false, "y")] {
        v.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
        for w in v.windows(2) {
            let bad = if w[0].0 == w[1].0 {
                w[0].1 != w[1].1
            } else if up {
                w[0].1 > w[1].1
            } else {
                w[0].1 < w[1].1
            };
            if bad && style != 7 {
                return Err(format!("order along {} is lost: {:?} become {:?}", name, (w[0].0, w[1].0), (w[0].1, w[1].1)));
            }
            if w[0].0 == w[1].0 && w[0].1 != w[1].1 {
                return Err(format!("equal {} coordinates {} become {} and {}", name, w[0].0, w[0].1, w[1].1));
            }
            cx.ev("pairs in order", 1);
        }
    }
    Ok(())
}

#[derive(Default)]
struct Dealt {
    xs: Vec<(f64, u32)>,
    ys: Vec<(f64, u32)>,
    events: Vec<(&'static str, u64)>,
}

/// Bit k of the mask: ring k of the shape is the next outer ring.
fn deal(i: usize, reg: &Region<DbfRecord>, shape: &[Vec<P>], mask: u32, (x0, y0, x1, y1): (f64, f64, f64, f64), flat: bool) -> Result<Dealt, (usize, String)> {
    let (mut o, mut h) = (reg.outer_rings.iter(), reg.inner_rings.iter());
    let mut d = Dealt::default();
    for (k, ring) in shape.iter().enumerate() {
        let outer = mask >> k & 1 == 1;
        let kind = if outer { "outer" } else { "inner" };
        let given = if outer { o.next() } else { h.next() }.unwrap();
        let ps = given.points();
        if ps.len() != ring.len() {
            return Err((4 * k, format!("region {}: ring {} of {} points has {} points among the {} rings", i, k, ring.len(), ps.len(), kind)));
        }
        for (p, g) in ring.iter().zip(ps.iter()) {
            let q = ideal(p, x0, y0, x1, y1);
            if !near(g, &q, x0 == x1, y0 == y1) {
                return Err((4 * k + 1, format!("region {}: ring {}: point {:?} becomes {:?}, its place is {:?}", i, k, p, g, q)));
            }
        }
        let a = area2(&ps);
        if outer != (a >= 0) {
            return Err((4 * k + 3, format!("region {}: ring {} with doubled area {} (clockwise positive) is among the {} rings", i, k, a, kind)));
        }
        d.events.push((if a == 0 { "rings without area" } else if a > 0 { "clockwise rings" } else { "counter-clockwise rings" }, 1));
        // the orientation of the stored ring, where it is beyond doubt
        if !flat {
            let (w, hh) = (x1 - x0, y1 - y0);
            let un: Vec<(f64, f64)> = ring.iter().map(|p| (((p.0 - x0) / w).max(0.).min(1.), ((p.1 - y0) / hh).max(0.).min(1.))).collect();
            let s: f64 = (0..un.len() - 1).map(|j| un[j].0 * un[j + 1].1 - un[j + 1].0 * un[j].1).sum();
            if s.abs() > 1e-6 {
                // y up: negative = clockwise
                if outer != (s < 0.) {
                    return Err((4 * k + 3, format!("region {}: ring {} is {} on the map but is among the {} rings", i, k, if s < 0. { "clockwise" } else { "counter-clockwise" }, kind)));
                }
                d.events.push(("windings compared with the map", 1));
            }
        }
        for (p, g) in ring.iter().zip(ps.iter()) {
            d.xs.push((p.0, g.0));
            d.ys.push((p.1, g.1));
            d.events.push(("points compared", 1));
            if !flat {
                for (v, lo, hi, g, flip) in [(p.0, x0, x1, g.0, false), (p.1, y0, y1, g.1, true)] {
                    if v <= lo || v >= hi {
                        let want = if (v <= lo) != flip { 0 } else { u32::MAX };
                        if g != want {
                            return Err((4 * k + 2, format!("coordinate {} at or beyond the side of the box {}..{} becomes {}, expected {}", v, lo, hi, g, want)));
                        }
                        d.events.push(("points on or beyond the sides", 1));
                    }
                }
            }
        }
    }
    Ok(d)
}

fn ideal(p: &P, x0: f64, y0: f64, x1: f64, y1: f64) -> topogeo::geo::Point {
    let q = |v: f64, from: f64, to: f64| -> u32 {
        if from == to {
            return 0;
        }
        let t = (v - from) / (to - from);
        (t.max(0.).min(1.) * M).floor() as u32
    };
    topogeo::geo::Point(q(p.0, x0, x1), q(p.1, y1, y0))
}

fn near(a: &topogeo::geo::Point, b: &topogeo::geo::Point, any_x: bool, any_y: bool) -> bool {
    (any_x || a.0.abs_diff(b.0) <= 1) && (any_y || a.1.abs_diff(b.1) <= 1)
}

// ------------------------------------------------- for C04, C22: whole pairs

pub fn gen_pair(r: &mut Rng, cx: &Ctx) -> (Vec<u8>, Vec<u8>) {
    let bad = r.below(3);
    let recs = gen_recs(r, cx, bad);
    let (shp, _) = shp_file(&recs, (-180., -90., 180., 90.));
    let nf = r.usize(0, 5);
    let fields: Vec<Field> = (0..nf)
        .map(|i| {
            let t = *r.pick(&[b'C', b'C', b'N', b'+', b'|', b'L']);
            Field::new(format!("f{}", i).as_bytes(), t, if t == b'+' || t == b'|' { 4 } else { r.range(1, 12) as u8 })
        })
        .collect();
    let rl: usize = 1 + fields.iter().map(|f| f.len as usize).sum::<usize>();
    let n_rows = if r.chance(3, 4) { recs.len() } else { r.usize(0, 5) };
    let rows: Vec<Vec<u8>> = (0..n_rows).map(|_| (0..rl).map(|_| *r.pick(b" 0123456789.-abc")).collect()).collect();
    let (mut dbf, _) = dbf_file(r, &fields, &rows, &DbfShape::default());
    let mut shp = shp;
    if r.chance(1, 6) {
        let n = r.usize(0, shp.len());
        shp.truncate(n);
    }
    if r.chance(1, 6) {
        let n = r.usize(0, dbf.len());
        dbf.truncate(n);
    }
    (shp, dbf)
}

/// Everything the readers say about a pair, as text.
pub fn transcript(shp: &[u8], dbf: &[u8]) -> Result<String, String> {
    let mut t = String::new();
    for regions in [false, true] {
        match lib("ShapefileReader::new", || ShapefileReader::new(shp, dbf, encoding::all::WINDOWS_1252))? {
            Err(e) => t.push_str(&format!("refused: {:?}\n", e)),
            Ok(mut rd) => {
                let fields = rd.dbf_fields();
                if regions {
                    let mut it = lib("ShapefileGeoIterator::new", || ShapefileGeoIterator::new(&mut rd))?;
                    while let Some(x) = lib("ShapefileGeoIterator::next", || it.next())? {
                        match x {
                            Ok(reg) => t.push_str(&format!("{:?} {:?} {:?}\n", reg.data.bytes, reg.outer_rings, reg.inner_rings)),
                            Err(e) => t.push_str(&format!("{:?}\n", e)),
                        }
                    }
                } else {
                    while let Some(x) = lib("ShapefileReader::next", || rd.next())? {
                        match x {
                            Ok(rec) => {
                                lib("record display", || t.push_str(&format!("{}\n", rec)))?;
                                for f in fields.iter() {
                                    t.push_str(&format!("{}={:?} ", f.name, lib("read_string", || f.read_string(&rec.data))?));
                                }
                            }
                            Err(e) => t.push_str(&format!("{:?}\n", e)),
                        }
                    }
                }
            }
        }
    }
    Ok(t)
}
