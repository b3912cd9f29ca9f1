"""What each property's check runs, and how much of it."""
import os
import check as C


def generic(prop, cfg, tally):
    dirs = C.build_all([v for v, _ in cfg["quick"]], cfg.get("bins", ("vmon",)))
    counts = cfg["thorough"] if C.THOROUGH else cfg["quick"]
    secs = cfg.get("thorough_secs", 300) if C.THOROUGH else 60
    v = C.drive(prop, tally, dirs, counts, secs)
    if v is None:
        C.sample(prop, tally, os.path.join(dirs[counts[0][0]], "vmon"))
    return v


def both(n, factor=1):
    return [("checked", n), ("release", n * factor)]


BIG = 10 ** 9

MAPS = ("Case i of seed s draws a random planar map (quad, brick or triangle mesh, coordinates from a few units to the "
        "full u32 range, wiggly or collinear borders), assigns its faces to regions or to nothing, and presents it to the "
        "library as rings in one of many equivalent ways. ")

PROPS = {}


def prop(pid, quick, rule, thorough_secs=300, run=generic, **kw):
    PROPS[pid] = dict(quick=both(*quick) if isinstance(quick, tuple) else quick,
                      thorough=both(BIG), thorough_secs=thorough_secs, rule=rule, run=run, **kw)


prop("C01", (60000, 2), MAPS + "Non-trivial: at least one ring was kept and one edge is shared or dropped.")
prop("C02", (80000, 2), MAPS + "Non-trivial: some edge is walked by two rings.")
prop("C03", (50000, 2), MAPS + "Non-trivial: references of at least one shared edge were resolved, in the built, normalised, clipped and simplified topology.")
prop("C05", (60000, 2), MAPS + "Non-trivial: normalising removed or joined edges.")
prop("C06", (60000, 2), MAPS + "Non-trivial: the normalised map has at least two edges.")
prop("C07", (40000, 2), MAPS + "Non-trivial: at least two regions or a region of several rings.")
prop("C08", (60000, 2), MAPS + "Non-trivial: at least one border stretch is shared by two regions.")
prop("C09", (50000, 2), MAPS + "The map is normalised and simplified at a threshold drawn near the triangle areas that occur. Non-trivial: simplification removed points.")
prop("C10", (800000, 2), "Case i of seed s draws edges (random walks, spirals, combs, grids with ties, full-range u32, long ones) and a threshold, and replays the removal order against an exact model. Non-trivial: points were removed and points were kept.")
prop("C11", (1500000, 2), "Case i of seed s draws polylines (crossing, touching, running along the line, full-range u32) and a mask near their points. Non-trivial: the mask cuts the path.")
prop("C12", (50000, 2), MAPS + "The map is clipped by one mask near its points. Non-trivial: some region is cut in two by the line.")
prop("C13", (50000, 2), MAPS + "The map is clipped by one mask near its points. Non-trivial: some region is cut by the line.")
prop("C14", (30000, 2), MAPS + "The map is clipped by the four sides of a rectangle in random order, by opposite masks and twice by the same mask. Non-trivial: a clip changed the map.")
prop("C15", (1000000, 2), "Case i of seed s draws rings (simple, self-touching, slivers, full-range u32, up to thousands of points) as points and as edge lists. Non-trivial: the ring has at least three distinct points.")

FILES = "Case i of seed s writes a shapefile and/or dbf table byte by byte from a random model. "

prop("C16", (200000, 2), FILES + "The reader's items are compared with the model. Non-trivial: at least one record was stored.")
prop("C17", (120000, 2), FILES + "Every field of every record is read and compared with an independent decoder. Non-trivial: at least one record and one field.")
prop("C18", (200000, 2), FILES + "Files of equal or different record counts, with broken shapes in between, are read as a pair. Non-trivial: both files have records.")
prop("C19", (80000, 2), FILES + "It is then damaged (bytes flipped, lengths and counts replaced, truncated, spliced, or random bytes throughout) and everything is read and printed under a counting allocator. Non-trivial: the files differ from a well-formed one.")
prop("C20", (3000, 2), FILES + "The same bytes are read through sources that split reads, interrupt, end early or fail at every byte position in turn (large files: positions around every structure boundary and a random sample). Non-trivial: a fault was delivered.",
     level="fault_enumeration")
prop("C21", (300000, 2), FILES + "Records are turned into regions and compared with exact rational arithmetic. Non-trivial: at least one region with a ring.")
prop("C26", (60000, 2), "Case i of seed s draws points, edges, rings, regions, rows of a generated table with shape rings, or errors; prints them, and prints them again to destinations that fail after a random number of bytes. Non-trivial: all.")
prop("C25", (40000, 2), MAPS + "The map is normalised, then simplified and clipped in random order, and balanced after each step. Non-trivial: a step changed the map.")


# ------------------------------------------------------------- C22: repeats

def c22(pid, cfg, tally):
    """The same cases in the debug and release builds and in a second process,
    each process with its own hash seeds and address layout; in every process
    each case is also repeated."""
    dirs = C.build_all(["checked", "release"])
    n = 400000 if C.THOROUGH else 16000
    secs = 240 if C.THOROUGH else 60
    pictures = []
    for name, variant, count in (("checked", "checked", n), ("release", "release", n), ("second process", "release", n // 2)):
        tally.digests = {}
        v = C.drive(pid, tally, dirs, [(variant, count)], secs, want_digests=True)
        if v is not None:
            return v
        pictures.append((name, tally.digests.get(variant, {})))
    base_name, base = pictures[0]
    compared = 0
    for name, other in pictures[1:]:
        for i in sorted(set(base) & set(other)):
            compared += 1
            if base[i] != other[i]:
                cmd = [os.path.join(dirs["checked"], "vmon"), "case", "--prop", pid, "--seed", str(C.SEED), "--index", str(i)]
                rc, out = C.run(cmd, 200)
                return C.Violation("case %d gives another result in the %s run than in the %s run" % (i, name, base_name), cmd, i, out)
    tally.events["results compared across processes and builds"] = compared
    C.sample(pid, tally, os.path.join(dirs["checked"], "vmon"))
    return None


prop("C22", (16000, 1), MAPS + "It goes through a random sequence of operations several times, in one process with memory moved about and in another thread, and in separate processes of the debug and the release build; complete results are compared. A quarter of the cases read a generated pair of files instead. Non-trivial: at least two regions or a pair of files.", run=c22)


# ------------------------------------------------------------- C04: memory

ASAN_ENV = {"ASAN_OPTIONS": "exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1"}
VALGRIND = ["valgrind", "--tool=memcheck", "--error-exitcode=98", "--leak-check=no", "-q", "--expensive-definedness-checks=yes"]


def tool_runs(pid, tally, name, binary, start, n, secs, flags, wrap, env, bad_rc, workers=8):
    """Cases under a tool that ends the process with status bad_rc on an error."""
    import concurrent.futures as cf
    flags = flags + ["--cpu", "600"] + (["--thorough"] if C.THOROUGH else [])
    per = (n + C.CORES - 1) // C.CORES
    with cf.ThreadPoolExecutor(workers) as ex:
        res = list(ex.map(lambda w: C.shard(pid, name, binary, start, per, w, secs, flags, wrap, env), range(C.CORES)))
    for w, rc, out, prefix, cur, cmd in res:
        if os.path.exists(prefix + ".json"):
            import json
            d = json.load(open(prefix + ".json"))
            tally.add_json(d, name)
            tally.hashes.update(C.read_u64s(prefix + ".hashes"))
            if "violation" in d:
                i = d["violation"]["index"]
                c = [binary, "case", "--prop", pid, "--seed", str(C.SEED), "--index", str(i)] + flags
                return C.Violation("build %s, case %d: %s" % (name, i, d["violation"]["message"]), c, i, out)
        if rc == bad_rc or (rc is not None and rc < 0 and -rc in [int(x) for x in C.CRASH_SIGNALS]):
            # once more from the same start
            rc2, out2 = C.run(cmd, secs + 400, env)
            if rc2 == rc:
                return C.Violation("%s reports a memory error in or before case %s" % (name, cur), cmd, cur, out2[-6000:])
            tally.notes.append("%s: status %r at case %r, not again" % (name, rc, cur))
        elif rc not in (0, 1):
            tally.notes.append("%s: %s at case %r gave no verdict: %s" % (name, C.status_name(rc), cur, out[-300:]))
    return None


def miri_runs(pid, tally, n, secs, start):
    import concurrent.futures as cf, time
    td = C.TARGET + "-miri"
    env = C.cargo_env(C.NIGHTLY, td, MIRIFLAGS="-Zmiri-disable-stacked-borrows -Zmiri-disable-isolation -Zmiri-ignore-leaks")
    base = ["cargo", "miri", "run", "--offline", "-q", "--features", "plainalloc", "--bin", "vmon", "--"]

    def one(cmd, timeout):
        import subprocess, signal
        p = subprocess.Popen(cmd, cwd=C.HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout)
            return p.returncode, out.decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.communicate()
            return None, ""

    def case(k):
        cmd = base + ["case", "--prop", pid, "--seed", str(C.SEED), "--small", "--index", str(k)]
        return k, cmd, one(cmd, secs)

    # the first one builds
    results = [case(start)]
    t0 = time.time()
    with cf.ThreadPoolExecutor(C.CORES) as ex:
        def later(k):
            if time.time() - t0 > secs:
                return None
            return case(k)
        results += [r for r in ex.map(later, range(start + 1, start + n)) if r]
    done = 0
    for k, cmd, (rc, out) in results:
        if rc == 0:
            done += 1
        elif "Undefined Behavior" in out:
            return C.Violation("Miri: undefined behaviour in case %d" % k, ["env", "MIRIFLAGS=" + env["MIRIFLAGS"], "CARGO_TARGET_DIR=" + td, "RUSTUP_TOOLCHAIN=" + C.NIGHTLY] + cmd, k, out[-6000:])
        elif rc == 1 and "result: VIOLATED" in out:
            return C.Violation("Miri build, case %d: %s" % (k, out.split("result: VIOLATED: ", 1)[1][:500]), cmd, k, out[-6000:])
        else:
            tally.notes.append("Miri: case %d gave no verdict (%r): %s" % (k, rc, out[-300:]))
    tally.cases += done
    tally.variants["miri"] = done
    tally.events["cases interpreted by Miri"] = done
    return None


def c04(pid, cfg, tally):
    dirs = C.build_all(["checked", "release", "plain", "asan"])
    counts = [("checked", C10_9 if C.THOROUGH else 60000), ("release", C10_9 if C.THOROUGH else 80000)]
    v = C.drive(pid, tally, dirs, counts, 150 if C.THOROUGH else 60)
    if v is not None:
        return v
    C.sample(pid, tally, os.path.join(dirs["checked"], "vmon"))
    v = tool_runs(pid, tally, "AddressSanitizer", os.path.join(dirs["asan"], "vmon"), 10 ** 7, C10_9 if C.THOROUGH else 60000,
                  200 if C.THOROUGH else 60, [], [], ASAN_ENV, 99)
    if v is not None:
        return v
    v = tool_runs(pid, tally, "memcheck", os.path.join(dirs["plain"], "vmon"), 2 * 10 ** 7, 40000 if C.THOROUGH else 1200,
                  200 if C.THOROUGH else 60, ["--small"], VALGRIND, {}, 98)
    if v is not None:
        return v
    return miri_runs(pid, tally, 400 if C.THOROUGH else 24, 240 if C.THOROUGH else 90, 3 * 10 ** 7)


C10_9 = BIG
prop("C04", (60000, 2), MAPS + "It goes through a random sequence of operations over region data that counts its births and deaths, and everything is dropped in a random order; a quarter of the cases read sound and damaged files, others simplify long edges. Run with an allocator that moves, poisons and checks every block, under AddressSanitizer, under valgrind memcheck and (few, small) in Miri. Non-trivial: several rings, or files, or points removed.", run=c04)


# ------------------------------------------------------------- C23: work

RINGS = ["one-ring", "cells", "one-region-cells", "chess", "rows", "islands", "holes", "enclaves", "coast", "strip", "fan", "comb",
         "column", "onion", "flat", "repeats", "flower", "zip"]
EDGES = ["noise", "zigzag", "growing", "shrinking", "straight", "parabola", "many-edges"]
READS = ["records", "rings", "points", "bad-records", "no-rows", "fields"]
WORK = ([("build", f) for f in RINGS + ["noise", "many-edges"]] + [("normalise", f) for f in RINGS + ["noise", "many-edges", "cut", "chain"]] +
        [("clip", f) for f in RINGS + ["noise", "many-edges"]] + [("clip-normal", f) for f in RINGS] +
        [("clip-all", "cells"), ("clip-none", "cells"), ("clip-none", "one-ring"), ("clip-none", "coast")] +
        [("clip-left", f) for f in ("cells", "column", "zip")] + [("clip-right", "chess"), ("clip-top", "comb"), ("clip-top", "cells"), ("clip-along", "cells"), ("clip-along", "one-region-cells"), ("clip", "chain")] +
        [("simplify-all", "noise"), ("simplify-flat", "straight"), ("simplify-flat", "noise"), ("normalise-again", "cells"), ("normalise-again", "enclaves"), ("normalise-again", "zip")] +
        [("ring-of-edges", "one-ring"), ("ring-of-edges", "cells"), ("print", "one-ring"), ("print", "islands"), ("print-records", "records"), ("print-records", "rings"), ("print-records", "fields")] +
        [("simplify", f) for f in EDGES] + [("simplify-normal", f) for f in ("one-ring", "coast", "comb", "cells")] +
        [("drop", "cells"), ("drop", "islands"), ("area", "one-ring"), ("area", "cells"), ("area", "noise")] +
        [("read", f) for f in READS] + [("regions", f) for f in READS])
# measured up to 64000 points only in the quick tier
UPTO64 = [j for j in WORK if j[0] in ("clip-normal", "clip-left", "clip-right", "clip-top", "clip-along", "simplify-all", "simplify-flat", "normalise-again", "ring-of-edges", "print", "print-records")
          or j[1] in ("column", "onion", "flat", "repeats", "flower", "rows", "chess", "no-rows", "fields", "cut", "chain")]
GROWTH = 5.2   # allowed for four times the input; n log n gives 4.6, n^1.2 gives 5.3, n^2 gives 16


def callgrind(binary, op, family, n, timeout=300):
    import re, time
    cmd = ["valgrind", "--tool=callgrind", "--callgrind-out-file=/dev/null", "--collect-atstart=no", "--toggle-collect=vmon_measured",
           binary, "work", "--op", op, "--family", family, "--n", str(n), "--seed", str(C.SEED)]
    t0 = time.time()
    rc, out = C.run(cmd, timeout)
    m = re.search(r"Collected : (\d+)", out)
    return cmd, rc, (int(m.group(1)) if m else None), out, time.time() - t0


def c23(pid, cfg, tally):
    """Sizes in stages, so that runaway growth shows before it takes forever."""
    import concurrent.futures as cf
    dirs = C.build_all(["plain"])
    binary = os.path.join(dirs["plain"], "vmon")
    sizes = [1000, 4000, 16000, 64000, 256000] + ([1024000] if C.THOROUGH else [])
    worst = 0
    last = {}
    for n in sizes:
        jobs = [j for j in WORK if n <= 64000 or C.THOROUGH or j not in UPTO64]
        with cf.ThreadPoolExecutor(C.CORES) as ex:
            res = dict(zip(jobs, ex.map(lambda j: callgrind(binary, j[0], j[1], n), jobs)))
        for op, f in jobs:
            cmd, rc, ir, out, secs = res[(op, f)]
            if rc is None:
                if n == sizes[0]:
                    return C.Violation("%s of %s does not end with %d points" % (op, f, n), cmd, None, out)
                n0, a, secs0 = last[(op, f)]
                if secs > 20 * secs0 + 30:
                    return C.Violation("%s of %s: %d points take more than %d s, %d points %d instructions and %.1f s" % (op, f, n, secs, n0, a, secs0), cmd, None, out)
                raise C.NoVerdict("%s of %s with %d points took over %d s" % (op, f, n, secs))
            if rc != 0 or ir is None:
                if "panicked at /repo" in out or (rc < 0 and -rc in [int(x) for x in C.CRASH_SIGNALS]) or "SIGSEGV" in out:
                    return C.Violation("%s of %s with %d points fails: %s" % (op, f, n, out[-800:]), cmd, None, out)
                raise C.NoVerdict("callgrind on %s of %s: status %r\n%s" % (op, f, rc, out[-1500:]))
            tally.cases += 1
            tally.nontrivial += 1
            tally.hashes.add(hash((op, f, n)) & (2 ** 64 - 1))
            tally.events["instructions counted"] = tally.events.get("instructions counted", 0) + ir
            if (op, f) in last:
                n0, a, _ = last[(op, f)]
                ratio = ir / max(a, 1)
                if n0 >= 16000 and ratio > worst:
                    worst = ratio
                    tally.notes = ["largest growth seen above 16000 points: %.2f times the work for 4 times the points (%s of %s)" % (ratio, op, f)]
                if os.environ.get("SHOW"):
                    print("%-16s %-18s %8d %12d %8.2f" % (op, f, n, ir, ratio))
                # small inputs: fixed costs, table sizes and cache lines make the ratio uneven
                if ratio > (GROWTH if n0 >= 16000 else 10) and ir > 300 * n:
                    return C.Violation("%s of %s: %d points take %d instructions, %d points %d: %.1f times the work for 4 times the input" % (op, f, n0, a, n, ir, ratio), cmd, None, out[-1500:])
                tally.events["growth ratios checked"] = tally.events.get("growth ratios checked", 0) + 1
            last[(op, f)] = (n, ir, secs)
            if len(tally.samples) < 6 and n == sizes[-1]:
                tally.samples.append("%s of %s, %d points: %d instructions" % (op, f, n, ir))
    tally.variants["callgrind"] = tally.cases
    return None


prop("C23", [("plain", 1)], "For each operation and family of inputs (one long ring, grids of many regions, one region of many cells, chess boards, islands, holes, enclaves, a coast with many neighbours, fans, combs, long rings that merge, chains of cells that touch; long edges with noise, ties, growing and shrinking triangles; files of many records, rings or points) the instructions executed are counted at sizes growing fourfold. A case is one operation on one input; all are non-trivial.", run=c23)
# ------------------------------------------------------------- C27: memory

# read one record at a time: no more memory than the largest record needs
STREAMED = [(op, f) for op in ("read", "regions", "print-records") for f in ("records", "bad-records", "no-rows", "fields")]
SPARE = 3.5    # tables double their size and keep the old one for a moment


def memory(binary, op, family, n, timeout=200):
    import re, time
    cmd = [binary, "work", "--op", op, "--family", family, "--n", str(n), "--seed", str(C.SEED)]
    t0 = time.time()
    rc, out = C.run(cmd, timeout)
    m = re.search(r"peak (\d+) kept (\d+)", out)
    return cmd, rc, (tuple(int(x) for x in m.groups()) if m else None), out, time.time() - t0


def c27(pid, cfg, tally):
    import concurrent.futures as cf
    dirs = C.build_all(["release"])
    binary = os.path.join(dirs["release"], "vmon")
    sizes = [1000, 8000, 64000, 256000] + ([1024000, 4096000] if C.THOROUGH else [])
    first = {}
    worst = {}
    for n in sizes:
        with cf.ThreadPoolExecutor(C.CORES if n < 1000000 else 4) as ex:
            res = dict(zip(WORK, ex.map(lambda j: memory(binary, j[0], j[1], n), WORK)))
        for op, f in WORK:
            cmd, rc, got, out, secs = res[(op, f)]
            if rc == 77:
                return C.Violation("%s of %s with %d points takes more than 3 GB of memory" % (op, f, n), cmd, None, out)
            if rc is None:
                raise C.NoVerdict("%s of %s with %d points took over %d s" % (op, f, n, secs))
            if rc != 0 or got is None:
                if "panicked at /repo" in out or (rc < 0 and -rc in [int(x) for x in C.CRASH_SIGNALS]):
                    return C.Violation("%s of %s with %d points fails: %s" % (op, f, n, out[-800:]), cmd, None, out)
                raise C.NoVerdict("%s of %s: status %r\n%s" % (op, f, rc, out[-1500:]))
            tally.cases += 1
            tally.nontrivial += 1
            tally.hashes.add(hash((op, f, n)) & (2 ** 64 - 1))
            peak, kept = got
            tally.events["bytes in use at most, summed"] = tally.events.get("bytes in use at most, summed", 0) + peak
            if n == sizes[0]:
                first[(op, f)] = got
                continue
            for what, now, then in (("at most", peak, first[(op, f)][0]), ("for its result", kept, first[(op, f)][1])):
                streamed = (op, f) in STREAMED
                allowed = SPARE * (max(then, 20000) if streamed else max(then, 4000) * (n / sizes[0]))
                if os.environ.get("SHOW"):
                    print("%-16s %-18s %8d %12d %12d %6.2f" % (op, f, n, now, then, now / max(then, 1) / (1 if streamed else n / sizes[0])))
                if now > allowed:
                    return C.Violation("%s of %s needs %d bytes %s with %d points, but %d bytes with %d points%s" %
                                       (op, f, now, what, n, then, sizes[0], " (all records being alike, it should be the same)" if streamed else ""), cmd, None, out[-1500:])
                tally.events["growth of memory checked" if not streamed else "memory of streamed files checked"] = tally.events.get("growth of memory checked" if not streamed else "memory of streamed files checked", 0) + 1
                k = "streamed" if streamed else "others"
                x = now / allowed * SPARE
                if x > worst.get(k, (0,))[0]:
                    worst[k] = (x, op, f, n)
            if len(tally.samples) < 6 and n == sizes[-1]:
                tally.samples.append("%s of %s, %d points: %d bytes at most, %d kept" % (op, f, n, peak, kept))
    tally.notes = ["largest growth of memory relative to that of the input (%s): %.2f (%s of %s, %d points)" % ((k,) + w) for k, w in sorted(worst.items())]
    tally.variants["release"] = tally.cases
    return None


prop("C27", [("release", 1)], "For each operation and family of inputs of C23 the bytes in use (at most during the operation, and for its result) are counted by the allocator at growing sizes. A case is one operation on one input; all are non-trivial.", run=c27)


prop("C29", (16000, 2), "Random pairs of files (sound, with bad records, cut short, with wrong counts, from sources that fail) are read by each of the four readers one item at a time, and then in other ways (see observed). Non-trivial: at least two pairs.")


# ------------------------------------------------------------- C28: threads

def tsan_env():
    return {"TSAN_OPTIONS": "exitcode=66:halt_on_error=1:report_thread_leaks=0:suppressions=" + os.path.join(C.HARNESS, "tsan.supp")}


def c28(pid, cfg, tally):
    import concurrent.futures as cf, json, time
    dirs = C.build_all(["checked", "release", "tsan"])
    binary = os.path.join(dirs["tsan"], "vmon")
    t0 = time.time()
    # many short processes: what is set up at first use is set up often
    rounds, per, secs = (60, 60, 400) if C.THOROUGH else (9, 36, 110)
    flags = ["--cpu", "900"] + (["--thorough"] if C.THOROUGH else [])
    lost = []

    def one(k):
        if time.time() - t0 > secs:
            return None
        return C.shard(pid, "tsan%d" % k, binary, 10 ** 7 + k * per * C.CORES, per, 0, 0, flags, (), tsan_env())
    with cf.ThreadPoolExecutor(C.CORES) as ex:
        res = [r for r in ex.map(one, range(rounds * C.CORES)) if r is not None]
    for w, rc, out, prefix, cur, cmd in res:
        if os.path.exists(prefix + ".json"):
            d = json.load(open(prefix + ".json"))
            tally.add_json(d, "ThreadSanitizer")
            tally.hashes.update(C.read_u64s(prefix + ".hashes"))
            if "violation" in d:
                return C.Violation("build ThreadSanitizer, case %d: %s" % (d["violation"]["index"], d["violation"]["message"]), cmd, d["violation"]["index"], out)
        if "WARNING: ThreadSanitizer: data race" in out:
            return C.Violation("ThreadSanitizer reports a data race in case %s" % cur, cmd, cur, out[:6000])
        if rc not in (0, 1):
            again = [C.run(cmd, 400, tsan_env())[0] for _ in range(4)] if rc is not None and rc < 0 else []
            if any(r is not None and r < 0 for r in again):
                return C.Violation("threads working at the same time: %s in case %s" % (C.status_name(rc), cur), cmd, cur, out[-6000:])
            lost.append("ThreadSanitizer: %s at case %r gave no verdict: %s" % (C.status_name(rc), cur, out[-300:]))
    tally.events["processes watched by ThreadSanitizer"] = len(res) - len(lost)
    tally.notes.extend(lost[:3])
    counts = [("checked", BIG if C.THOROUGH else 4000), ("release", BIG if C.THOROUGH else 12000)]
    v = C.drive(pid, tally, dirs, counts, 150 if C.THOROUGH else 45)
    if v is not None:
        return v
    C.sample(pid, tally, os.path.join(dirs["checked"], "vmon"))
    return None


prop("C28", [("release", 1)], "Two to six tasks (build a map and change it; read sound and damaged files; decode and print rows in common; measure and print rings in common; read files and hand the records to two other threads) are let go at the same moment in threads of their own, up to three times, then repeated alone, and the results compared. Run in many short processes under ThreadSanitizer (standard library included), then in the ordinary builds. Non-trivial: at least two tasks overlapped in time.",
     must={"processes watched by ThreadSanitizer": 20, "pairs of tasks that overlapped in time": 1000}, run=c28)
prop("C24", (5000, 1), "Case i of seed s writes a pair of files (random records and fields; or a random planar map), sometimes damaged or missing, runs the two programs on it as processes and compares output and exit status. Non-trivial: files were written.", bins=("vmon", "cat-shp", "shp-to-geo-data"))
