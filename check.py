#!/usr/bin/env python3
"""Runs one property's check.

  check.py C05            tier from VERIF_TIER (quick), seed from VERIF_SEED (1)
  check.py setup          builds everything once

Exit 0: held on everything observed. Exit 1 and a VIOLATION line: broken.
Exit 3: no verdict (build failure, tool failure, out of memory, ...).
"""
import hashlib, json, os, re, shutil, signal, struct, subprocess, sys, time
import concurrent.futures as cf

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(ROOT, "harness")
TARGET = os.path.join(ROOT, "build", "t")
RUNS = os.path.join(ROOT, "build", "runs")
REPLAYS = os.path.join(ROOT, "replays")
EVIDENCE = os.path.join(ROOT, "evidence")
FINDINGS = os.path.join(ROOT, "known-findings.txt")
STABLE = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
TRIPLE = "x86_64-unknown-linux-gnu"
CRASH_SIGNALS = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
CORES = min(8, os.cpu_count() or 8)


class NoVerdict(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# --------------------------------------------------------------------- build

def source_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "src"), os.path.join(REPO, "examples")):
        for d, dirs, files in os.walk(base):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    with open(os.path.join(REPO, "Cargo.toml"), "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()


def cargo_env(toolchain, target_dir, **extra):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "MIRIFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTDOCFLAGS"):
        e.pop(k, None)
    e.update(HOME=os.environ.get("HOME", "/root"), RUSTUP_TOOLCHAIN=toolchain, CARGO_NET_OFFLINE="true",
             CARGO_TARGET_DIR=target_dir, CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    e["PATH"] = e.get("PATH", "") + ":/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin"
    e.update(extra)
    return e


VARIANTS = {
    # name: (toolchain, cargo arguments, environment, path below the target dir)
    "checked": (STABLE, [], {}, "debug"),
    "release": (STABLE, ["--release"], {}, "release"),
    "plain": (STABLE, ["--release", "--features", "plainalloc"], {}, "release"),
    "asan": (NIGHTLY, ["--release", "--features", "plainalloc", "--target", TRIPLE],
             {"RUSTFLAGS": "-Zsanitizer=address -Cdebug-assertions=off"}, TRIPLE + "/release"),
    # the standard library too: it synchronises threads
    "tsan": (NIGHTLY, ["--release", "--features", "plainalloc", "--target", TRIPLE, "-Zbuild-std"],
             {"RUSTFLAGS": "-Zsanitizer=thread -Cdebug-assertions=off -Cunsafe-allow-abi-mismatch=sanitizer"}, TRIPLE + "/release"),
}


def target_dir(variant):
    return TARGET if variant in ("checked", "release") else TARGET + "-" + variant


def build(variant, bins=("vmon",)):
    tc, args, env, sub = VARIANTS[variant]
    td = target_dir(variant)
    os.makedirs(td, exist_ok=True)
    e = cargo_env(tc, td, **env)
    stamp = os.path.join(td, ".source-hash-" + variant)
    h = source_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old is not None and old != h:
        subprocess.run(["cargo", "clean", "-p", "topogeo"] + [a for a in args if a.startswith("--rel")], cwd=HARNESS, env=e,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    cmd = ["cargo", "build", "--offline", "-q"] + args
    for b in bins:
        cmd += ["--bin", b]
    p = subprocess.run(cmd, cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise NoVerdict("build %s failed:\n%s" % (variant, p.stdout[-4000:]))
    with open(stamp, "w") as f:
        f.write(h)
    return os.path.join(td, sub)


def build_all(variants, bins=("vmon",)):
    """checked and release share a target directory (cargo locks it)."""
    out = {}
    groups = {}
    for v in variants:
        groups.setdefault(target_dir(v), []).append(v)

    def group(vs):
        return [(v, build(v, bins)) for v in vs]
    with cf.ThreadPoolExecutor(8) as ex:
        for r in ex.map(group, groups.values()):
            out.update(dict(r))
    return out


# ----------------------------------------------------------------- processes

def run(cmd, timeout, env=None, cwd=None, mem_gb=None):
    """-> (returncode or None when the wall clock ran out, output)"""
    if mem_gb:
        cmd = ["prlimit", "--as=%d" % (mem_gb << 30)] + cmd
    e = dict(os.environ)
    e["RUST_BACKTRACE"] = "0"
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=cwd, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        return None, ""


class Violation:
    def __init__(self, message, replay_cmd=None, index=None, detail=""):
        self.message, self.replay_cmd, self.index, self.detail = message, replay_cmd, index, detail


class Tally:
    """What the monitors observed, over all processes of this run."""

    def __init__(self):
        self.cases = 0
        self.nontrivial = 0
        self.hashes = set()
        self.events = {}
        self.allocs = self.moves = 0
        self.variants = {}
        self.samples = []
        self.notes = []
        self.digests = {}

    def add_json(self, d, variant):
        self.cases += d["cases"]
        self.nontrivial += d["nontrivial"]
        self.allocs += d["allocs"]
        self.moves += d["moves"]
        self.variants[variant] = self.variants.get(variant, 0) + d["cases"]
        for k, v in d["events"].items():
            self.events[k] = self.events.get(k, 0) + v


def read_u64s(path):
    if not os.path.exists(path):
        return []
    b = open(path, "rb").read()
    return struct.unpack("<%dQ" % (len(b) // 8), b[: len(b) // 8 * 8])


def confirm(prop, binary, index, flags, why, wrap=(), env=None):
    """A worker died in a case: does that case do it again on its own?"""
    cmd = list(wrap) + [binary, "case", "--prop", prop, "--seed", str(SEED), "--index", str(index)] + flags
    big = [x for x in cmd]
    big += ["--cpu", "120"]
    rc, out = run(big, 400, env)
    if rc == 0:
        return None
    if rc is None or rc == 3 or rc == -signal.SIGKILL:
        raise NoVerdict("%s; re-running the case gave no verdict (%r)\n%s" % (why, rc, out[-2000:]))
    return Violation("%s (again when run alone: %s)" % (why, status_name(rc)), cmd, index, out)


def status_name(rc):
    if rc is None:
        return "timed out"
    if rc < 0:
        try:
            return "signal " + signal.Signals(-rc).name
        except ValueError:
            return "signal %d" % -rc
    return {0: "held", 1: "violated", 3: "harness error", 77: "runaway allocation", 78: "does not terminate"}.get(rc, "exit status %d" % rc)


def shard(prop, variant, binary, start, per, w, secs, flags, wrap=(), env=None):
    os.makedirs(RUNS, exist_ok=True)
    prefix = os.path.join(RUNS, "%s-%s-%d" % (prop, variant, w))
    for ext in (".json", ".hashes", ".digests", ".cur"):
        if os.path.exists(prefix + ext):
            os.remove(prefix + ext)
    cmd = list(wrap) + [binary, "run", "--prop", prop, "--seed", str(SEED), "--from", str(start + w), "--step", str(CORES),
                        "--count", str(per), "--out", prefix] + flags
    if secs:
        cmd += ["--secs", str(secs)]
    rc, out = run(cmd, (secs or 300) + 400, env)
    cur = read_u64s(prefix + ".cur")
    return w, rc, out, prefix, (cur[0] if cur else None), cmd


def drive(prop, tally, dirs, counts, secs, flags=(), want_digests=False):
    """Runs the sharded workload in each build variant. -> Violation or None"""
    flags = list(flags) + (["--thorough"] if THOROUGH else [])
    run_flags = flags + (["--digests"] if want_digests else [])
    start = 0
    for variant, n in counts:
        binary = os.path.join(dirs[variant], "vmon")
        per = (n + CORES - 1) // CORES
        res = []
        with cf.ThreadPoolExecutor(CORES) as ex:
            futs = [ex.submit(shard, prop, variant, binary, start, per, w, secs, run_flags) for w in range(CORES)]
            for f in futs:
                res.append(f.result())
        start += per * CORES
        bad = []
        unsure = []
        for w, rc, out, prefix, cur, cmd in res:
            if os.path.exists(prefix + ".json"):
                d = json.load(open(prefix + ".json"))
                tally.add_json(d, variant)
                hs = read_u64s(prefix + ".hashes")
                tally.hashes.update(hs)
                if want_digests:
                    dg = read_u64s(prefix + ".digests")
                    tally.digests.setdefault(variant, {}).update(zip(dg[0::2], dg[1::2]))
                if "violation" in d:
                    bad.append((d["violation"]["index"], d["violation"]["message"], binary))
            if rc in (0, 1):
                continue
            why = "build %s, case %s: %s" % (variant, cur, status_name(rc))
            if cur is not None and rc is not None and (rc in (77, 78) or (rc < 0 and signal.Signals(-rc) in CRASH_SIGNALS)):
                v = confirm(prop, binary, cur, flags, why)
                if v is None and rc < 0:
                    # depends on earlier cases of the same process
                    rc2, out2 = run(cmd, (secs or 300) + 400)
                    if rc2 == rc:
                        v = Violation(why + " (again in the same sequence of cases)", cmd, cur, out2)
                if v is not None:
                    return v
                unsure.append(why + " but not again")
            else:
                unsure.append(why + "\n" + out[-1500:])
        if bad:
            bad.sort()
            index, message, binary = bad[0]
            cmd = [binary, "case", "--prop", prop, "--seed", str(SEED), "--index", str(index)] + flags
            rc, out = run(cmd, 400)
            return Violation("build %s, case %d: %s" % (variant, index, message), cmd, index, out)
        if unsure:
            raise NoVerdict("; ".join(unsure))
    return None


def sample(prop, tally, binary, flags=(), n=2):
    flags = list(flags) + (["--thorough"] if THOROUGH else [])
    for i in range(0, 40):
        if len(tally.samples) >= n:
            break
        rc, out = run([binary, "case", "--prop", prop, "--seed", str(SEED), "--index", str(i)] + flags, 120)
        if rc == 0 and "nontrivial: true" in out:
            tally.samples.append(out[:1500])


# ------------------------------------------------------------------ verdicts

def known_findings(prop):
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            m = re.match(r"known: property=(\S+) signature=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def write_evidence(prop, cfg, tally, t0, violations):
    os.makedirs(EVIDENCE, exist_ok=True)
    cov = {
        "evaluations": tally.cases,
        "distinct_nontrivial": len(tally.hashes),
        "rule": cfg["rule"],
        "samples": tally.samples or ["none"],
        "cases_by_build": tally.variants,
        "observed": dict(sorted(tally.events.items())),
    }
    if tally.allocs:
        cov["allocations_watched"] = tally.allocs
        cov["blocks_moved_on_resize"] = tally.moves
    if tally.notes:
        cov["notes"] = tally.notes
    ev = {"property": prop, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": cfg.get("level", "exploration"),
          "coverage": cov, "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": violations}
    tmp = os.path.join(EVIDENCE, prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVIDENCE, prop + ".json"))


def report(prop, v):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-seed%d-%s.txt" % (prop, SEED, "x" if v.index is None else v.index))
    with open(path, "w") as f:
        f.write("property %s\n%s\n" % (prop, v.message))
        if v.replay_cmd:
            f.write("replay: %s\n" % " ".join(v.replay_cmd))
        f.write("\n" + v.detail + "\n")
    log(v.message[:1500])
    log("VIOLATION property=%s replay=%s" % (prop, path))


def main():
    sys.path.insert(0, ROOT)
    import props
    what = sys.argv[1] if len(sys.argv) > 1 else ""
    if what == "setup":
        try:
            build_all(["checked", "release"], ("vmon", "cat-shp", "shp-to-geo-data"))
            build_all(["plain", "asan", "tsan"])
        except NoVerdict as e:
            log(str(e))
            sys.exit(3)
        sys.exit(0)
    if what not in props.PROPS:
        log("unknown property %r" % what)
        sys.exit(3)
    t0 = time.time()
    cfg = props.PROPS[what]
    tally = Tally()
    try:
        v = cfg["run"](what, cfg, tally)
        if v is None:
            for name, least in cfg.get("must", {}).items():
                if tally.events.get(name, 0) < least:
                    raise NoVerdict("the monitors saw too little: %r %d times, at least %d expected" % (name, tally.events.get(name, 0), least))
            if tally.cases == 0 or not tally.hashes:
                raise NoVerdict("nothing was observed")
    except NoVerdict as e:
        log("NO VERDICT property=%s: %s" % (what, e))
        write_evidence(what, cfg, tally, t0, 0)
        sys.exit(3)
    finally:
        shutil.rmtree(RUNS, ignore_errors=True)
    for sig, text in known_findings(what):
        log("KNOWN-FINDING: property=%s %s" % (what, text))
    write_evidence(what, cfg, tally, t0, 0 if v is None else 1)
    if v is not None:
        report(what, v)
        sys.exit(1)
    log("property %s held: %d cases (%d distinct non-trivial) in %.1f s" % (what, tally.cases, len(tally.hashes), time.time() - t0))
    log("observed: %s" % json.dumps(dict(sorted(tally.events.items()))))
    sys.exit(0)


if __name__ == "__main__":
    # props.py imports this module by name
    sys.modules.setdefault("check", sys.modules["__main__"])
    main()
