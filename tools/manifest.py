#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered properties."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import check  # noqa
sys.modules["check"] = check
import props

NOTES = {
 "C01": ("online monitor comparing the built topology with the rings given, over generated maps and ring soups", "The oracle is the list of rings handed in; trusts only the harness's own area sum."),
 "C02": ("trace monitor over stored edges (duplicate paths, canonical direction), generated maps", "Checked on every edge of built and normalised topologies."),
 "C03": ("shadow-heap monitor resolving every raw cross-reference after each operation, with an allocator that moves and poisons every block", "References are compared with the addresses of the live regions, rings and edges; the hostile allocator makes dangling ones visible."),
 "C04": ("AddressSanitizer, valgrind memcheck, Miri (aliasing model off), poisoning allocator and drop-counting region data under random operation sequences", "Rust's (experimental) aliasing models are not decided: Miri runs without Stacked/Tree Borrows because the library's raw pointers into boxes break them by design. Miri runs few small cases."),
 "C05": ("conservation monitor: ground truth of a generated planar map against the normalised map", "Truth comes from the map generator's faces, never from the library."),
 "C06": ("invariant monitor on node degrees and edge sides of normalised maps", "Degrees are recomputed from the map's segments."),
 "C07": ("metamorphic monitor: equivalent presentations must normalise alike; normal-form invariants", "Ambiguous (pinched) rings are compared by ground and counted."),
 "C08": ("invariant monitor: each border stretch in one edge with both neighbours", "Neighbour pairs come from the map generator."),
 "C09": ("before/after trace monitor on simplify over maps", "Compares complete snapshots."),
 "C10": ("online reference monitor: exact-arithmetic Visvalingam model validates the result", "Ties are explored by a bounded search and given up (counted) beyond it."),
 "C11": ("online monitor of clip_edge against exact rational crossings", "Exact i128 arithmetic in the harness."),
 "C12": ("conservation monitor: every ring's area and points against exact half-plane clipping", "Tolerance: one unit of rounding per crossing."),
 "C13": ("invariant monitor on ring closure and edge sharing before/after clip", "Sharing is derived from the input snapshot."),
 "C14": ("metamorphic monitors over four-side, opposite and repeated clips", "Area tolerance grows with the number of crossings."),
 "C15": ("differential monitor of area/winding/points/edges against exact i128 arithmetic", "Rings up to thousands of points."),
 "C16": ("differential monitor of the reader against the model the file was written from", "The writer follows the ESRI paper, not the library."),
 "C17": ("differential monitor of the reader against an independent decoder", "Long fields are generated with their documented width of four bytes."),
 "C18": ("ordering/exactly-once monitor over the joined iterator's items", "Includes broken shapes and unequal counts."),
 "C19": ("crash, hang and allocation monitors under mutated and random bytes", "Allocation bound: proportional to bytes present plus a constant."),
 "C20": ("fault injection at every byte position with an item-prefix monitor; chunking and interruption variations", "Every position of small files; structure boundaries plus a sample of large ones."),
 "C21": ("differential monitor of quantisation against exact rational arithmetic", "One unit of tolerance for floating point."),
 "C22": ("digest comparison across repetitions, threads, processes and build profiles", "Observes the standard library's per-process hash seeds and address randomisation."),
 "C23": ("callgrind instruction counts at growing sizes against an n log n envelope", "A finite number of families and sizes; the constant is generous enough for hash tables."),
 "C24": ("black-box monitor of the two programs' output and exit status against the model of the files", "Programs are run as processes in a scratch directory."),
 "C26": ("differential monitor of printed text against an independent formatter, with destinations that fail at any byte", "Format flags (width, fill) are not varied."),
 "C27": ("counting allocator around each operation at growing sizes, against a proportional limit (streamed reading: a constant one)", "A finite number of families and sizes; a factor 3.5 is left for tables that double."),
 "C28": ("ThreadSanitizer (library, dependencies and standard library instrumented) and comparison of results together and alone, under barrier-released threads", "Sampled schedules; the race detector also sees races of schedules that did not go wrong. Races inside the dependencies regex and thread_local are suppressed."),
 "C29": ("differential monitor of nine ways to consume each reader against taking items one by one, over hostile and failing sources", "Items are compared as printed for debugging; the content itself is judged by C16 to C21."),
 "C25": ("area-balance and neighbour conservation monitor along random operation sequences", "Starts from maps that tile; stretches of a clip line may be walked twice."),
}

LEVELS = {"C20": "fault_enumeration"}
titles = {}
for line in open(os.path.join(ROOT, "properties.jsonl")):
    d = json.loads(line)
    titles[d["id"]] = d["title"]
checks = []
for pid in sorted(props.PROPS):
    tech, note = NOTES[pid]
    checks.append({
        "property": pid,
        "quick_cmd": "python3 check.py %s" % pid,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": tech,
        "level": LEVELS.get(pid, "exploration"),
        "level_note": "Runtime monitoring of the real code on generated workloads: a violation shown is real, silence covers only what was run. " + note,
    })
na = [{"property": p, "reason": "check not built yet"} for p in sorted(titles) if p not in props.PROPS]
json.dump({"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every monitor works on the crate's public interface, the allocator and the process boundary."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
