#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
T = "deterministic simulation with fault injection: seeded search over "
WHAT = {
 "P01": ("histories of deliveries, executed under different cuts of the same stream", "differential: the same real code under another delivery schedule"),
 "P02": ("histories with queries between all operations", "an independent executable reference model of the K-weighted window loudness"),
 "P03": ("histories with integrated loudness", "an independent executable BS.1770 gating model"),
 "P04": ("histories with loudness range", "an independent executable Tech 3342 model"),
 "P05": ("histories with peaks", "an independent executable model of sample and true peaks"),
 "P06": ("chunk layouts, thread schedules and worker crashes", "one sequential pass over the same stream, on the real code and in the model"),
 "P07": ("sets of analyzers, source iterators that interfere or unwind, and thread schedules", "the reference model over the union of the stored blocks"),
 "P08": ("thread schedules with preemption inside library calls, moves between threads and crashes of other tasks", "every analyzer executed alone"),
 "P09": ("histories with resets at any point, also after corrupt samples", "a freshly created twin"),
 "P10": ("histories of reconfigurations", "the reference model"),
 "P11": ("histories with changing history limits", "the reference model"),
 "P12": ("histories with rejected requests", "a twin that never received them"),
 "P13": ("histories with failing allocations", "a twin that never made the failing request"),
 "P14": ("histories with corrupted deliveries", "uncorrupted twins of the unaffected parts, and a fresh twin after reset"),
 "P15": ("floating-point environments changing during the run, and thread schedules", "the control register around every call, and a twin in the default environment"),
 "P16": ("histories of C calls with extreme arguments and failing allocations", "a twin driven through the Rust API"),
 "P17": ("long histories, rejected and failing calls, and crashes at any preemption point", "a ledger of every allocation of the library"),
 "P18": ("histories with queries inserted anywhere, also from concurrent tasks", "a twin that is not queried, and repeated answers"),
 "P19": ("configurations and histories moving between them", "the table of which call must succeed, panics, and a watchdog"),
 "P20": ("histories switching between sample formats and layouts", "a twin fed interleaved doubles, one twin per channel, and the model"),
}
checks = []
for p in props:
    i = p["id"]
    if i not in WHAT:
        continue
    a, b = WHAT[i]
    checks.append({
        "property": i,
        "quick_cmd": "./run.sh check " + i,
        "thorough_cmd": "VERIF_TIER=thorough ./run.sh check " + i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": T + a,
        "level": "exploration",
        "level_note": "Oracle: " + b + ". The whole library is real code; threads, allocator, audio and clients are simulated. Assurance is that of the runs explored: a fixed number of seeded scenarios, each exactly repeatable from (property, VERIF_SEED, tier, run number). Assumes x86-64 and that rounding differences stay below the stated tolerances.",
    })
na = [
 {"property": "P21", "reason": "Accuracy against the ideal analogue definitions is a numeric property of pure functions (filter design, interpolation kernel): no schedule, clock, I/O, fault or history takes part, so simulation decides nothing that evaluating the functions would not. That every history yields the values of the digital filter as specified is claimed in P02 to P05."},
 {"property": "P22", "reason": "A property of pure, stateless conversion functions and constant tables with no nondeterminism to put behind a seam. Their use in every history is covered by P03, P04 and P11."},
 {"property": "P23", "reason": "The simulator runs one task at a time, which makes executions sequentially consistent; races under the weak memory model are invisible to it by construction. The crate has no interior mutability and no unsafe sharing; interleavings at the level of library-internal preemption points are covered by P08 and P18."},
]
m = {
 "version": 1,
 "setup_cmd": "./run.sh build",
 "hooks": {
  "guard": "--cfg ebur128_sim",
  "enable": "sim/.cargo/config.toml passes --cfg ebur128_sim to rustc when the simulator (sim/) is built; the crate of /repo is a path dependency of it",
  "source_commits": ["d997d7040cc76a062f5c5af76c6256bec9925d2d"],
 },
 "checks": checks,
 "not_applicable": na,
 "notes": "run.sh rebuilds from /repo's working tree before every check. Violations are minimised and written to replays/; './run.sh replay FILE' repeats one exactly. './run.sh determinism' executes the same seeds with 1, 5 and 8 processes and compares the digests of everything observed. KNOWN_FINDINGS.txt lists the defects that were found and repaired.",
}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
