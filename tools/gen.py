#!/usr/bin/env python3
"""Writes checks/*.json and MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {}
COMMON = ["the Go compiler, z3 and the Go standard library are trusted; fmt, sync, gob and reflect are modelled by the engine (validated by native replay of sampled paths on every run)"]

def H(fn, quick=None, thorough=None, reach=(), bounds="", quick_s=0, thorough_s=0, only="", no_trace=False):
    d = {"fn": fn, "quick": quick or {}, "thorough": thorough if thorough is not None else (quick or {}), "bounds": bounds}
    if reach: d["reach"] = list(reach)
    if quick_s: d["quick_s"] = quick_s
    if thorough_s: d["thorough_s"] = thorough_s
    if only: d["only"] = only
    if no_trace: d["no_trace"] = True
    return d

def check(id, outside, note, harnesses, assumptions=()):
    CHECKS[id] = {"property": id, "harnesses": harnesses, "assumptions": COMMON + list(assumptions), "outside": outside, "_note": note}

exec(open(os.path.join(ROOT, "tools", "checks.py")).read())

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
os.makedirs(os.path.join(ROOT, "checks"), exist_ok=True)
for f in os.listdir(os.path.join(ROOT, "checks")):
    if f.endswith(".json"):
        os.remove(os.path.join(ROOT, "checks", f))
man = {"version": 1, "setup_cmd": "./run.sh --setup", "checks": [], "not_applicable": []}
for p in props:
    id = p["id"]
    c = CHECKS.get(id)
    if not c:
        man["not_applicable"].append({"property": id, "reason": NA.get(id, "check under construction")})
        continue
    note = c.pop("_note")
    json.dump(c, open(os.path.join(ROOT, "checks", id + ".json"), "w"), indent=1)
    man["checks"].append({"property": id, "quick_cmd": f"./run.sh {id} quick", "thorough_cmd": f"./run.sh {id} thorough",
        "technique": "symbolic execution of the Go SSA of the real code, every branch and assertion decided by z3 within stated bounds, counterexamples replayed natively",
        "level": "model_checking", "level_note": note})
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(man["checks"]), "checks", len(man["not_applicable"]), "not applicable")
