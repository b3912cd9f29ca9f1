//! Writers for .shp and .dbf bytes, and hostile sources to read them from.
//! Nothing here uses the library's own idea of the formats.

use crate::rng::Rng;
use std::io::{self, Read};

pub type P = (f64, f64);

#[derive(Clone, Debug)]
pub struct ShpRec {
    pub number: u32,
    pub content: Vec<u8>,
    /// The rings stored, or None when the record cannot be read as a polygon.
    pub rings: Option<Vec<Vec<P>>>,
    pub what: &'static str,
}

pub fn polygon_content(rings: &[Vec<P>], bbox: (f64, f64, f64, f64)) -> Vec<u8> {
    let n: usize = rings.iter().map(|r| r.len()).sum();
    let mut c = Vec::with_capacity(44 + 4 * rings.len() + 16 * n);
    c.extend_from_slice(&5u32.to_le_bytes());
    for v in [bbox.0, bbox.1, bbox.2, bbox.3] {
        c.extend_from_slice(&v.to_bits().to_le_bytes());
    }
    c.extend_from_slice(&(rings.len() as u32).to_le_bytes());
    c.extend_from_slice(&(n as u32).to_le_bytes());
    let mut at = 0u32;
    for r in rings {
        c.extend_from_slice(&at.to_le_bytes());
        at += r.len() as u32;
    }
    for r in rings {
        for p in r {
            c.extend_from_slice(&p.0.to_bits().to_le_bytes());
            c.extend_from_slice(&p.1.to_bits().to_le_bytes());
        }
    }
    c
}

pub fn ring_bbox(rings: &[Vec<P>]) -> (f64, f64, f64, f64) {
    let mut b = (f64::INFINITY, f64::INFINITY, f64::NEG_INFINITY, f64::NEG_INFINITY);
    for r in rings {
        for p in r {
            b.0 = b.0.min(p.0);
            b.1 = b.1.min(p.1);
            b.2 = b.2.max(p.0);
            b.3 = b.3.max(p.1);
        }
    }
    b
}

pub fn polygon(number: u32, rings: Vec<Vec<P>>) -> ShpRec {
    let content = polygon_content(&rings, ring_bbox(&rings));
    ShpRec { number, content, rings: Some(rings), what: "polygon" }
}

/// A .shp file; returns the bytes and the offset at which each record ends.
pub fn shp_file(recs: &[ShpRec], bbox: (f64, f64, f64, f64)) -> (Vec<u8>, Vec<usize>) {
    let mut b = vec![0u8; 100];
    let mut ends = Vec::new();
    for r in recs {
        b.extend_from_slice(&r.number.to_be_bytes());
        b.extend_from_slice(&((r.content.len() / 2) as u32).to_be_bytes());
        b.extend_from_slice(&r.content);
        ends.push(b.len());
    }
    let len = (b.len() / 2) as u32;
    b[0..4].copy_from_slice(&9994u32.to_be_bytes());
    b[24..28].copy_from_slice(&len.to_be_bytes());
    b[28..32].copy_from_slice(&1000u32.to_le_bytes());
    b[32..36].copy_from_slice(&5u32.to_le_bytes());
    for (i, v) in [bbox.0, bbox.1, bbox.2, bbox.3].iter().enumerate() {
        b[36 + 8 * i..44 + 8 * i].copy_from_slice(&v.to_bits().to_le_bytes());
    }
    (b, ends)
}

pub fn gen_coord(r: &mut Rng, style: u64) -> f64 {
    match style {
        0 => r.range(-180, 180) as f64,
        1 => (r.f64_unit() - 0.5) * 360.0,
        2 => (r.f64_unit() - 0.5) * 2e7,
        3 => f64::from_bits(r.u64()),
        4 => *r.pick(&[0.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, 5e-324, f64::MAX, f64::MIN, 1.0, -1.0]),
        _ => f64::from_bits(0x7ff8_0000_0000_0000 | (r.u64() & 0x8007_ffff_ffff_ffff)), // NaNs with payloads
    }
}

/// A closed ring of n points (n >= 4).
pub fn gen_ring(r: &mut Rng, n: usize, style: u64) -> Vec<P> {
    let mut v: Vec<P> = (0..n - 1).map(|_| (gen_coord(r, style), gen_coord(r, style))).collect();
    let f = v[0];
    v.push(f);
    v
}

pub fn gen_rings(r: &mut Rng, style: u64, big: bool) -> Vec<Vec<P>> {
    let k = match r.below(10) {
        0..=4 => 1,
        5..=7 => r.usize(2, 4),
        8 => r.usize(5, 12),
        _ => if big { r.usize(13, 120) } else { r.usize(2, 20) },
    };
    (0..k)
        .map(|_| {
            let n = match r.below(8) {
                0..=3 => r.usize(4, 6),
                4..=6 => r.usize(7, 20),
                _ => if big { r.usize(21, 900) } else { r.usize(4, 40) },
            };
            gen_ring(r, n, style)
        })
        .collect()
}

/// A record the reader has to refuse, with its length stated correctly.
pub fn gen_bad_rec(r: &mut Rng, number: u32) -> ShpRec {
    let style = r.below(3);
    let mut rings = gen_rings(r, style, false);
    let which = r.below(12);
    let (content, what): (Vec<u8>, &'static str) = match which {
        0 => (0u32.to_le_bytes().to_vec(), "null shape"),
        1 => {
            let mut c = polygon_content(&rings, ring_bbox(&rings));
            let t = *r.pick(&[0u32, 1, 3, 8, 11, 13, 15, 18, 21, 23, 25, 28, 31, 2, 4, 6, 7, 0x0500_0000, 0xffff_ffff, 261]);
            c[0..4].copy_from_slice(&t.to_le_bytes());
            (c, "other shape type")
        }
        2 => {
            let c = polygon_content(&rings, ring_bbox(&rings));
            let n = 2 * r.usize(0, 21);
            (c[..n].to_vec(), "cut before the counts end")
        }
        3 => {
            let mut c = polygon_content(&rings, ring_bbox(&rings));
            let n = 2 * r.usize(1, 20);
            c.extend(std::iter::repeat(r.u32() as u8).take(n));
            (c, "longer than its counts say")
        }
        4 => {
            let c = polygon_content(&rings, ring_bbox(&rings));
            let n = c.len() - 2 * r.usize(1, (c.len() - 44) / 2);
            (c[..n].to_vec(), "shorter than its counts say")
        }
        5 => {
            let mut c = polygon_content(&[], (0., 0., 0., 0.));
            if r.chance(1, 2) {
                // points but no parts
                let pts = gen_ring(r, 5, style);
                c[40..44].copy_from_slice(&5u32.to_le_bytes());
                for p in pts {
                    c.extend_from_slice(&p.0.to_bits().to_le_bytes());
                    c.extend_from_slice(&p.1.to_bits().to_le_bytes());
                }
            }
            (c, "no parts")
        }
        6 => {
            let n = r.usize(0, 3);
            let i = r.usize(0, rings.len());
            rings.insert(i, gen_ring(r, 4, style)[..n].to_vec());
            (polygon_content(&rings, ring_bbox(&rings)), "ring of fewer than four points")
        }
        7 => {
            // a part index past the end
            if rings.len() < 2 {
                rings.push(gen_ring(r, 4, style));
            }
            let n: usize = rings.iter().map(|x| x.len()).sum();
            let mut c = polygon_content(&rings, ring_bbox(&rings));
            let i = r.usize(1, rings.len() - 1);
            let v = *r.pick(&[n as u32, n as u32 + 1, n as u32 + 1000, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0xffff_fffd]);
            c[44 + 4 * i..48 + 4 * i].copy_from_slice(&v.to_le_bytes());
            (c, "part index past the last point")
        }
        8 => {
            // part indices that go backwards
            while rings.len() < 3 {
                rings.push(gen_ring(r, 4, style));
            }
            let mut c = polygon_content(&rings, ring_bbox(&rings));
            let i = r.usize(1, rings.len() - 2);
            let a: [u8; 4] = c[44 + 4 * i..48 + 4 * i].try_into().unwrap();
            let b: [u8; 4] = c[48 + 4 * i..52 + 4 * i].try_into().unwrap();
            c[44 + 4 * i..48 + 4 * i].copy_from_slice(&b);
            c[48 + 4 * i..52 + 4 * i].copy_from_slice(&a);
            (c, "part indices going backwards")
        }
        9 => {
            let mut c = polygon_content(&rings, ring_bbox(&rings));
            let k = rings.len() as u32;
            let v = *r.pick(&[0u32, 1, 0xffff_ffff, 0x4000_0000 + k, 0x8000_0000 + k, 0x1000_0000]);
            c[36..40].copy_from_slice(&v.to_le_bytes());
            if v == 1 && rings.len() == 1 {
                c[40..44].copy_from_slice(&0xffff_ffffu32.to_le_bytes());
            }
            (c, "wrong part count")
        }
        10 => {
            let mut c = polygon_content(&rings, ring_bbox(&rings));
            let n: u32 = rings.iter().map(|x| x.len() as u32).sum();
            let v = *r.pick(&[0u32, n - 1, n + 1, 0xffff_ffff, 0x1000_0000u32.wrapping_add(n), 0x8000_0000]);
            c[40..44].copy_from_slice(&v.to_le_bytes());
            (c, "wrong point count")
        }
        _ => {
            // two parts starting at the same point
            let mut c = polygon_content(&rings, ring_bbox(&rings));
            if rings.len() < 2 {
                rings.push(gen_ring(r, 4, style));
                c = polygon_content(&rings, ring_bbox(&rings));
            }
            let a: [u8; 4] = c[44..48].try_into().unwrap();
            c[48..52].copy_from_slice(&a);
            (c, "two parts starting at the same point")
        }
    };
    ShpRec { number, content, rings: None, what }
}

// ---------------------------------------------------------------------- dbf

#[derive(Clone, Debug)]
pub struct Field {
    /// The 11 bytes of the descriptor.
    pub raw: [u8; 11],
    pub typ: u8,
    pub len: u8,
    pub decimals: u8,
}

impl Field {
    pub fn new(name: &[u8], typ: u8, len: u8) -> Field {
        let mut raw = [0u8; 11];
        raw[..name.len()].copy_from_slice(name);
        Field { raw, typ, len, decimals: 0 }
    }
    pub fn name_bytes(&self) -> &[u8] {
        let n = self.raw.iter().position(|&b| b == 0).unwrap_or(11);
        &self.raw[..n]
    }
}

pub struct DbfShape {
    /// Bytes after the last field descriptor (starts with the terminator).
    pub tail: Vec<u8>,
    pub slack: usize,
    pub eof_mark: bool,
}

impl Default for DbfShape {
    fn default() -> DbfShape {
        DbfShape { tail: vec![0x0d], slack: 0, eof_mark: true }
    }
}

/// Rows hold the deletion flag, all fields and the slack.
pub fn dbf_file(r: &mut Rng, fields: &[Field], rows: &[Vec<u8>], s: &DbfShape) -> (Vec<u8>, Vec<usize>) {
    let record_len = 1 + fields.iter().map(|f| f.len as usize).sum::<usize>() + s.slack;
    let header_len = 32 + 32 * fields.len() + s.tail.len();
    let mut b = vec![0u8; 32];
    b[0] = *r.pick(&[3u8, 0x83, 0x30, 4]);
    b[1] = r.u32() as u8;
    b[2] = r.below(13) as u8;
    b[3] = r.below(32) as u8;
    b[4..8].copy_from_slice(&(rows.len() as u32).to_le_bytes());
    b[8..10].copy_from_slice(&(header_len as u16).to_le_bytes());
    b[10..12].copy_from_slice(&(record_len as u16).to_le_bytes());
    for x in b[12..32].iter_mut() {
        *x = if r.chance(1, 2) { 0 } else { r.u32() as u8 };
    }
    let mut at = 1u32;
    for f in fields {
        let mut d = [0u8; 32];
        d[..11].copy_from_slice(&f.raw);
        d[11] = f.typ;
        // FoxPro keeps the displacement here; others leave it zero or random
        if r.chance(1, 2) {
            d[12..16].copy_from_slice(&at.to_le_bytes());
        }
        d[16] = f.len;
        d[17] = f.decimals;
        for x in d[18..32].iter_mut() {
            *x = if r.chance(3, 4) { 0 } else { r.u32() as u8 };
        }
        b.extend_from_slice(&d);
        at += f.len as u32;
    }
    b.extend_from_slice(&s.tail);
    let mut ends = vec![b.len()];
    for row in rows {
        assert_eq!(row.len(), record_len);
        b.extend_from_slice(row);
        ends.push(b.len());
    }
    if s.eof_mark {
        b.push(0x1a);
    }
    (b, ends)
}

/// One text field "id" of `width` bytes and rows "0", "1", ...: a table whose rows name themselves.
pub fn id_table(r: &mut Rng, n: usize, width: u8) -> (Vec<u8>, Vec<usize>) {
    let fields = vec![Field::new(b"pad", b'C', 3), Field::new(b"id", b'C', width)];
    let rows: Vec<Vec<u8>> = (0..n)
        .map(|i| {
            let mut v = vec![b' ', b'p', b'q', b'r'];
            let t = format!("row{}", i);
            v.extend_from_slice(t.as_bytes());
            v.resize(4 + width as usize, b' ');
            v
        })
        .collect();
    let eof = r.chance(1, 2);
    dbf_file(r, &fields, &rows, &DbfShape { eof_mark: eof, ..Default::default() })
}

// ------------------------------------------------------------------ sources

/// A byte source with chosen read sizes, interruptions and a fault.
pub struct Source<'a> {
    data: &'a [u8],
    pos: usize,
    sizes: Sizes,
    rng: Rng,
    interrupt: u64, // out of 8 reads
    fault: Option<Fault>,
    pub reads: u64,
    limit: u64,
    after_fault: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Sizes {
    All,
    One,
    Random(usize),
}

#[derive(Clone, Copy, Debug)]
pub struct Fault {
    pub at: usize,
    /// None: the source ends here.
    pub kind: Option<io::ErrorKind>,
    /// What a reader that asks again after the error gets.
    pub then: Then,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Then {
    Same,
    End,
    Resume,
}

impl<'a> Source<'a> {
    pub fn new(data: &'a [u8]) -> Source<'a> {
        Source { data, pos: 0, sizes: Sizes::All, rng: Rng::new(0, "src", 0), interrupt: 0, fault: None, reads: 0, limit: 64 + 24 * data.len() as u64, after_fault: false }
    }
    pub fn hostile(mut self, r: &mut Rng, sizes: Sizes, interrupt: u64) -> Source<'a> {
        self.rng = Rng::new(r.u64(), "src", 1);
        self.sizes = sizes;
        self.interrupt = interrupt;
        self
    }
    pub fn fault(mut self, f: Fault) -> Source<'a> {
        self.fault = Some(f);
        self
    }
}

impl<'a> Read for Source<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.reads += 1;
        if self.reads > self.limit {
            panic!("the library keeps reading: {} reads of a source of {} bytes (in /repo/ code)", self.reads, self.data.len());
        }
        if self.interrupt > 0 && self.rng.below(8) < self.interrupt && !buf.is_empty() {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        let mut end = self.data.len();
        if let Some(f) = self.fault {
            if !self.after_fault || f.then != Then::Resume {
                end = end.min(f.at);
            }
            if self.pos >= end && f.at <= self.data.len() && end == f.at {
                if self.after_fault && f.then == Then::End {
                    return Ok(0);
                }
                if !buf.is_empty() {
                    if let Some(k) = f.kind {
                        self.after_fault = true;
                        return Err(io::Error::new(k, "injected fault"));
                    }
                }
                return Ok(0);
            }
        }
        let want = match self.sizes {
            Sizes::All => buf.len(),
            Sizes::One => 1,
            Sizes::Random(m) => 1 + self.rng.below(m as u64) as usize,
        };
        let n = want.min(buf.len()).min(end - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
