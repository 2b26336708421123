#!/usr/bin/env python3
"""Writes checks.json (bounds of every check) and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = {}
def check(pid, *entries, outside=()):
    C[pid] = {"entries": list(entries), "outside": list(outside)}
def e(entry, what, params=None, thorough=None, time=60, timeT=0, labels=(), onlyT=False):
    d = {"entry": entry, "what": what, "params": params or {}, "time": time}
    if thorough: d["thorough"] = thorough
    if timeT: d["timeT"] = timeT
    if labels: d["labels"] = list(labels)
    if onlyT: d["thoroughOnly"] = True
    return d

exec(open(os.path.join(V, "tools", "checks.py")).read())

json.dump(C, open(os.path.join(V, "checks.json"), "w"), indent=1, sort_keys=True)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p["id"] not in C: continue
    c = C[p["id"]]
    checks.append({
        "property": p["id"], "quick_cmd": "bash check.sh %s quick" % p["id"], "thorough_cmd": "bash check.sh %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "symbolic execution of the Go source with SMT-decided paths and assertions",
        "level": "model_checking",
        "level_note": "Bounded: " + "; ".join(x["what"] for x in c["entries"] if not x.get("thoroughOnly")) + ". Outside: " + ("; ".join(c["outside"]) or "larger inputs") + ".",
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo. Harnesses are overlaid as virtual packages; the encoding is rebuilt from /repo's source on every run. KNOWN_FINDINGS lists findings and repairs."}
missing = [p["id"] for p in props if p["id"] not in C]
if missing: print("no check yet:", missing)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
