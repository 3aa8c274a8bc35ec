#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the rule modules' META and tools/na.py."""
import importlib, json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R); sys.path.insert(0, os.path.join(R, "tools"))
from na import NA
from check import ids

def clean(s): return " ".join(s.split())

props, checks = [], []
for i in ids():
    m = importlib.import_module(f"rxnsa.rules.{i.lower()}").META
    assert len(m["title"]) <= 80, (i, len(m["title"]))
    props.append({"id": i, "title": m["title"], "statement": clean(m["statement"]),
        "quantifier": {"over": m["over"], "text": m["quant"]},
        "why_tests_cant": m["why"],
        "anchors": {"files": m["files"], "mechanism": [{"name": a, "where": b} for a, b in m["mech"]], "hook_needed": None}})
    checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": m.get("technique", "static analysis: gated value-numbering of the source, path-by-path comparison with a specification"),
        "level": "other",
        "level_note": clean(m.get("note", "Decided from the source on every run: each obligation compares the canonical value/effect summary of a function "
            "(all paths, calls inlined, loops as comprehensions/folds) with the specified one. Exact modulo the listed library semantics; "
            "constructs outside the fragment are reported inconclusive in the evidence, never as violations."))})
na = []
for n in NA:
    props.append({"id": n["id"], "title": n["title"], "statement": clean(n["statement"]),
        "quantifier": {"over": n["over"], "text": n["quant"]}, "why_tests_cant": n["why"],
        "anchors": {"files": n["files"], "mechanism": [{"name": a, "where": b} for a, b in n["mech"]], "hook_needed": None}})
    na.append({"property": n["id"], "reason": clean(n["reason"])})
props.sort(key=lambda p: p["id"])
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
man = {"version": 1, "setup_cmd": "python3 -m compileall -q rxnsa check.py", "checks": checks, "not_applicable": na,
    "notes": "Pure static analysis: checks parse /repo/src on every run with the Python standard library only and never import or run it. No hooks. See DESIGN.md."}
json.dump(man, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
for p in props:
    n = p["statement"].count(". ") + 1
    if n > 3: print("statement too long", p["id"], n)
print(len(props), "properties", len(checks), "checks")
