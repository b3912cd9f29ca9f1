
//! vmon: runs the real library under generated workloads while monitors watch.
//!
//!   vmon run  --prop C05 --seed 1 --from 0 --step 8 --count 1000 --out PREFIX
//!             [--thorough] [--small] [--secs N] [--cpu N]
//!   vmon case --prop C05 --seed 1 --index 17 [--thorough] [--small]
//!
//! Exit: 0 held, 1 violation, 3 harness error, 77 runaway allocation,
//! 78 one case used more processor time than allowed.

#![allow(dead_code)]

mod alloc;
mod ctx;
mod files;
mod mesh;
mod p_build;
mod p_cli;
mod p_clip;
mod p_geo;
mod p_norm;
mod p_simplify;
mod p_threads;
mod p_iter;
mod p_pipe;
mod p_print;
mod p_read;
mod pt;
mod registry;
mod rng;
mod snap;
mod work;

use std::fs::File;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

#[cfg(not(feature = "plainalloc"))]
#[global_allocator]
static GLOBAL: alloc::Hostile = alloc::Hostile;

static CASE: AtomicU64 = AtomicU64::new(u64::MAX);
static CASE_START_CPU_MS: AtomicU64 = AtomicU64::new(0);

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
}
fn cpu_ms() -> u64 {
    if cfg!(miri) {
        return 0;
    }
    let mut t = Timespec { sec: 0, nsec: 0 };
    unsafe {
        clock_gettime(2, &mut t); // CLOCK_PROCESS_CPUTIME_ID
    }
    t.sec as u64 * 1000 + t.nsec as u64 / 1_000_000
}

fn watchdog(limit_ms: u64) {
    if cfg!(miri) {
        return;
    }
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let c = CASE.load(SeqCst);
        let start = CASE_START_CPU_MS.load(SeqCst);
        let now = cpu_ms();
        if c != u64::MAX && now > start && now - start > limit_ms && CASE.load(SeqCst) == c {
            eprintln!("CPU-BUDGET case {} used more than {} ms of processor time", c, limit_ms);
            std::process::exit(78);
        }
    });
}

struct Args {
    m: std::collections::HashMap<String, String>,
}
impl Args {
    fn parse() -> (String, Args) {
        let mut it = std::env::args().skip(1);
        let cmd = it.next().unwrap_or_default();
        let mut m = std::collections::HashMap::new();
        let rest: Vec<String> = it.collect();
        let mut i = 0;
        while i < rest.len() {
            let k = rest[i].trim_start_matches("--").to_string();
            if i + 1 < rest.len() && !rest[i + 1].starts_with("--") {
                m.insert(k, rest[i + 1].clone());
                i += 2;
            } else {
                m.insert(k, "1".into());
                i += 1;
            }
        }
        (cmd, Args { m })
    }
    fn u64(&self, k: &str, d: u64) -> u64 {
        self.m.get(k).map(|v| v.parse().expect("number")).unwrap_or(d)
    }
    fn has(&self, k: &str) -> bool {
        self.m.contains_key(k)
    }
    fn str(&self, k: &str) -> String {
        self.m.get(k).cloned().unwrap_or_default()
    }
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

fn one(f: registry::CaseFn, prop: &str, seed: u64, index: u64, ctx: &mut ctx::Ctx) -> Result<(), String> {
    ctx.begin();
    ctx.index = index;
    let every = registry::large_every(prop);
    ctx.large = !ctx.small && every > 0 && index % every == 7;
    CASE_START_CPU_MS.store(cpu_ms(), SeqCst);
    CASE.store(index, SeqCst);
    let mut r = rng::Rng::new(seed, prop, index);
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut r, ctx)));
    CASE.store(u64::MAX, SeqCst);
    match res {
        Ok(x) => x,
        Err(_) => {
            // a panic raised in the library itself, outside a monitored call
            let m = ctx::last_panic();
            if m.contains("/repo/") {
                return Err(format!("the library panicked: {}", m));
            }
            eprintln!("harness error in property {} case {}: {}", prop, index, m);
            std::process::exit(3);
        }
    }
}

fn main() {
    ctx::install_hook();
    let (cmd, a) = Args::parse();
    if cmd == "work" {
        match work::work(&a.str("op"), &a.str("family"), a.u64("n", 1000) as usize, a.u64("seed", 1)) {
            Some(s) => {
                println!("{}\n{}", s, work::taken());
                return;
            }
            None => {
                eprintln!("unknown operation or family");
                std::process::exit(3);
            }
        }
    }
    let prop = a.str("prop");
    let f = match registry::find(&prop) {
        Some(f) => f,
        None => {
            eprintln!("unknown property {:?}", prop);
            std::process::exit(3);
        }
    };
    let seed = a.u64("seed", 1);
    watchdog(a.u64("cpu", 60) * 1000);
    let mut c = ctx::Ctx::new(a.has("thorough"), a.has("small"));
    match cmd.as_str() {
        "run" => {
            let out = a.str("out");
            let (from, step, count) = (a.u64("from", 0), a.u64("step", 1), a.u64("count", 1));
            let secs = a.u64("secs", 0);
            let cur = if out.is_empty() { None } else { Some(File::create(format!("{}.cur", out)).unwrap()) };
            let keep_digests = a.has("digests");
            let t0 = Instant::now();
            let mut hashes: Vec<u8> = Vec::new();
            let mut digests: Vec<u8> = Vec::new();
            let (mut cases, mut nontrivial) = (0u64, 0u64);
            let mut viol: Option<(u64, String)> = None;
            for k in 0..count {
                if secs > 0 && t0.elapsed().as_secs() >= secs {
                    break;
                }
                let index = from + k * step;
                if let Some(f) = &cur {
                    f.write_all_at(&index.to_le_bytes(), 0).unwrap();
                }
                let r = one(f, &prop, seed, index, &mut c);
                cases += 1;
                if c.nontrivial {
                    nontrivial += 1;
                    // enough to count distinct cases; a long run counts a lower bound
                    if hashes.len() < 8_000_000 {
                        hashes.extend_from_slice(&c.input.0.to_le_bytes());
                    }
                }
                if keep_digests {
                digests.extend_from_slice(&index.to_le_bytes());
                digests.extend_from_slice(&c.output.0.to_le_bytes());
                }
                if let Err(m) = r {
                    viol = Some((index, m));
                    break;
                }
            }
            let mut s = String::from("{");
            s.push_str(&format!("\"cases\":{},\"nontrivial\":{},\"allocs\":{},\"moves\":{},\"events\":{{", cases, nontrivial, alloc::COUNT.load(SeqCst), alloc::MOVES.load(SeqCst)));
            for (i, (k, v)) in c.events.iter().enumerate() {
                if i > 0 {
                    s.push(',');
                }
                s.push_str(&format!("\"{}\":{}", esc(k), v));
            }
            s.push_str("}");
            if let Some((i, m)) = &viol {
                s.push_str(&format!(",\"violation\":{{\"index\":{},\"message\":\"{}\"}}", i, esc(m)));
            }
            s.push_str("}\n");
            if out.is_empty() {
                print!("{}", s);
            } else {
                File::create(format!("{}.hashes", out)).unwrap().write_all(&hashes).unwrap();
                File::create(format!("{}.digests", out)).unwrap().write_all(&digests).unwrap();
                File::create(format!("{}.json", out)).unwrap().write_all(s.as_bytes()).unwrap();
            }
            std::process::exit(if viol.is_some() { 1 } else { 0 });
        }
        "case" => {
            c.describe = true;
            let index = a.u64("index", 0);
            let r = one(f, &prop, seed, index, &mut c);
            println!("property {} seed {} case {}", prop, seed, index);
            println!("input:\n{}", c.desc);
            println!("observed: {:?}", c.events);
            println!("nontrivial: {}", c.nontrivial);
            match r {
                Ok(()) => println!("result: held"),
                Err(m) => {
                    println!("result: VIOLATED: {}", m);
                    std::process::exit(1);
                }
            }
        }
        _ => {
            eprintln!("usage: vmon run|case ...");
            std::process::exit(3);
        }
    }
}
