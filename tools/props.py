#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []

def p(id, title, statement, over, quant, why, files, mech, bounds, state=None):
    a = {"files": files, "mechanism": mech}
    if state:
        a["state"] = state
    P.append(({"id": id, "title": title, "statement": statement,
               "quantifier": {"over": over, "text": quant}, "why_tests_cant": why, "anchors": a}, bounds))

def na(id, title, statement, over, quant, why, files, mech, reason):
    p(id, title, statement, over, quant, why, files, mech, None)
    NA.append({"property": id, "reason": reason})

exec(open(os.path.join(here, "tools", "list.py")).read())

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d, _ in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [{
        "property": d["id"],
        "quick_cmd": "bash check.sh %s quick" % d["id"],
        "thorough_cmd": "bash check.sh %s thorough" % d["id"],
        "technique": "bounded symbolic execution of the Go SSA of the real code, assertions decided by an SMT solver (z3), counterexamples replayed natively",
        "level": "model_checking",
        "level_note": "Every path and value within the bounds is decided by the solver; nothing is claimed outside them. Bounds: " + b,
    } for d, b in P if b],
    "not_applicable": NA,
    "notes": "check.sh builds the engine (engine/), loads /repo's current source, compiles it to SSA and explores the harness of the property (harness/<id>). The fault, crash and chunk hooks of native replays are put in by an overlay (hooks/), not by commits in /repo.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
