//! Per-case context: what the monitors observed, and how a case is described.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{self, AssertUnwindSafe};
use crate::pt::Point;

#[derive(Clone, Copy)]
pub struct Fnv(pub u64);
impl Fnv {
    pub fn new() -> Fnv {
        Fnv(0xcbf29ce484222325)
    }
    pub fn u64(&mut self, v: u64) {
        self.0 = (self.0 ^ v).wrapping_mul(0x100000001b3);
        self.0 ^= self.0 >> 29;
    }
    pub fn bytes(&mut self, b: &[u8]) {
        self.u64(b.len() as u64);
        for &x in b {
            self.u64(x as u64);
        }
    }
    pub fn str(&mut self, s: &str) {
        self.bytes(s.as_bytes())
    }
    pub fn point(&mut self, p: &Point) {
        self.u64(((p.0 as u64) << 32) | p.1 as u64)
    }
    pub fn points(&mut self, ps: &[Point]) {
        self.u64(ps.len() as u64);
        for p in ps {
            self.point(p)
        }
    }
}

pub struct Ctx {
    pub thorough: bool,
    /// Smaller inputs (Miri, valgrind).
    pub small: bool,
    /// An unusually large input: counts beyond 16 bits.
    pub large: bool,
    pub index: u64,
    pub events: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    pub input: Fnv,
    pub output: Fnv,
    pub describe: bool,
    pub desc: String,
}

impl Ctx {
    pub fn new(thorough: bool, small: bool) -> Ctx {
        Ctx {
            thorough,
            small,
            large: false,
            index: 0,
            events: BTreeMap::new(),
            nontrivial: false,
            input: Fnv::new(),
            output: Fnv::new(),
            describe: false,
            desc: String::new(),
        }
    }
    pub fn begin(&mut self) {
        self.nontrivial = false;
        self.input = Fnv::new();
        self.output = Fnv::new();
        self.desc.clear();
    }
    /// Counts something a monitor observed.
    pub fn ev(&mut self, name: &'static str, n: u64) {
        *self.events.entry(name).or_insert(0) += n;
    }
    pub fn say<F: FnOnce() -> String>(&mut self, f: F) {
        if self.describe && self.desc.len() < 20_000 {
            let s = f();
            if !self.desc.is_empty() {
                self.desc.push('\n');
            }
            self.desc.push_str(&s);
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    static IN_LIB: RefCell<bool> = RefCell::new(false);
}

pub fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
        if !IN_LIB.with(|b| *b.borrow()) {
            eprintln!("harness panic: {} at {}", msg, loc);
        }
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Runs library code; a panic in it becomes Err(description).
pub fn lib<T, F: FnOnce() -> T>(what: &str, f: F) -> Result<T, String> {
    IN_LIB.with(|b| *b.borrow_mut() = true);
    let r = panic::catch_unwind(AssertUnwindSafe(f));
    IN_LIB.with(|b| *b.borrow_mut() = false);
    r.map_err(|_| format!("{} panicked: {}", what, LAST_PANIC.with(|p| p.borrow().clone())))
}

pub fn fmt_points(ps: &[Point]) -> String {
    let mut s = String::from("[");
    for (i, p) in ps.iter().enumerate() {
        if i > 0 {
            s.push(' ');
        }
        s.push_str(&format!("{},{}", p.0, p.1));
        if i > 400 {
            s.push_str(" ...");
            break;
        }
    }
    s.push(']');
    s
}
