#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of properties."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
NA = {
 "C21": "A fixed mapping from field values to bytes, with no schedule, clock, fault or second party that it could depend on; deterministic simulation has nothing to vary. What can go wrong on a link is decided by C13 and C20 against the layout this codebase uses. (DESIGN.md notes where that layout differs from the RSocket specification.)",
 "C22": "A pure conversion table: no concurrency, time, I/O or other party to simulate.",
 "C23": "Pure classification and formatting of an error value: no concurrency, time, I/O or other party to simulate.",
 "C24": "A pure iterator and accessors, used by one owner: nothing to schedule and no fault to inject. The parts of it that reach the transport are decided by C07 and C09.",
 "C25": "Pure comparisons and conversions: nothing to schedule and no fault to inject.",
 "C26": "Not implemented in this codebase: request_response, request_stream and request_channel consist of unimplemented!(), so there is nothing to run.",
}
THREADS = "deterministic simulation: seeded search over thread schedules of the real code"
LINK = "deterministic simulation with fault injection: seeded search over link faults, real codec at every hop"
TIME = "deterministic simulation with fault injection: seeded search over schedules, simulated time and transport faults"
TECH = {}
for i in (1, 2, 3, 4): TECH["C%02d" % i] = (THREADS, "recorded histories checked for the property")
for i in (5, 6): TECH["C%02d" % i] = (THREADS, "recorded histories checked for linearizability against a sequential counter")
TECH["C07"] = (THREADS, "frames given to the simulated transport checked against the requests made")
TECH["C08"] = (TIME, "frames and refusals recorded by the simulated transport checked against the callers' results")
TECH["C09"] = (TIME, "requests received checked against those sent, over a link that segments and may break off")
for i in (10, 11, 12, 13, 15, 20): TECH["C%02d" % i] = (LINK, "independent reference model of frames")
TECH["C14"] = ("deterministic simulation: seeded search over deliveries and reads", "checked against a queue of bytes after every step")
for i in (16, 17, 18): TECH["C%02d" % i] = (TIME, "real tokio runtime and timers on a simulated clock, transport simulated")
TECH["C19"] = (TIME, "frames and outcomes recorded by the simulated transport checked against the callers' results")
checks = []
for p in props:
    if p["id"] in NA: continue
    t, n = TECH[p["id"]]
    checks.append({"property": p["id"], "quick_cmd": "./check.sh %s" % p["id"], "thorough_cmd": "VERIF_TIER=thorough ./check.sh %s" % p["id"],
      "technique": t, "level": "exploration",
      "level_note": "Seeded search over whole simulated runs of the real code (%s); what no run reached is not decided. Every run is reproducible from its seed, failures are minimised to a replay file. Trusts rustc's instrumentation and the simulator; sequentially consistent memory." % n})
m = {"version": 1, "setup_cmd": "./check.sh build",
 "hooks": {"guard": "--cfg binate_sim", "enable": "RUSTFLAGS contains --cfg binate_sim (see check.sh)", "source_commits": ["ad2358801f79891848762dc0cd04bda14a5b8ef9"]},
 "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
 "notes": "check.sh rebuilds the simulator whenever the contents of /repo/binate or of sim/ changed. Replay a failure: ./check.sh replay FILE. Self-test of determinism: ./check.sh selftest."}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(here + "/MANIFEST.json", "a").write("\n")
