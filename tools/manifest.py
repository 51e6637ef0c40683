#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks the harness registers."""
import json, re, glob, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl") if l.strip()]
have = set()
for f in glob.glob(here + "/harness/*.go"):
    have |= set(re.findall(r'register\(&Check\{\s*ID:\s*"(C\d+)"', open(f).read()))
TECH = {
 "C12": "Go race detector plus a sequential-equivalence monitor over concurrent executions with injected yields",
 "C13": "history monitor: result digests of permuted and interleaved call histories compared across processes",
 "C14": "call-log monitor: recorded codec calls checked against a trace specification, with injected faults",
 "C18": "runtime monitor comparing evaluations with compiled Go operators on the same operands",
 "C08": "process-level crash, hang and allocation monitor over hostile inputs",
 "C20": "process-level crash, hang and mutation monitor over generated expression texts",
}
NOTE = {}
DEF_T = "runtime monitor: executions of generated definitions judged by an independent reference oracle"
DEF_N = ("Observes executions of the real code on generated and hostile workloads; the oracle is written from the documentation, "
         "independently of the code. Trusts the oracle, the generator's stated domain (DESIGN.md) and the Go toolchain; "
         "it says nothing about definitions the generator cannot express.")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo are needed: the harness observes through the public API, custom codecs and resolvers, the race detector and process-level monitors."}
for p in props:
    i = p["id"]
    if i in have:
        m["checks"].append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
                            "technique": TECH.get(i, DEF_T), "level": "exploration", "level_note": NOTE.get(i, DEF_N)})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
