#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from goals.py and properties.jsonl (run by hand)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import goals
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in goals.PROPS:
        na.append(dict(property=i, reason=goals.NOT_APPLICABLE[i]))
        continue
    g = goals.PROPS[i]
    full = sorted({f.split("/")[0] for x in g["goals"] if not x.bounded for f in x.fns})
    bnd = {}
    for x in g["goals"]:
        if x.bounded:
            bnd.setdefault(x.bounded, set()).update(f.split("/")[0] for f in x.fns)
    note = "Contracts discharged for all inputs: %s." % (", ".join(full) or "none")
    if bnd:
        note += " Bounded stand-ins, not counted as proved: " + "; ".join(
            "%s (%s)" % (", ".join(sorted(f)), b) for b, f in bnd.items()) + "."
    if g.get("assumptions"):
        note += " Assumes: " + "; ".join(g["assumptions"]) + "."
    note += " Trusted: goto-cc/dfcc/cbmc, the SAT/SMT back end, the contracts in harness/."
    checks.append(dict(
        property=i,
        quick_cmd="python3 tools/vp.py %s --tier quick" % i,
        thorough_cmd="python3 tools/vp.py %s --tier thorough" % i,
        evidence_file="evidence/%s.json" % i,
        technique="deductive verification: function contracts on the /repo sources "
                  "(goto-instrument --dfcc), obligations discharged by cbmc with SAT/cvc5",
        level="proof" if full else "other", level_note=note))
m = dict(version=1, setup_cmd="python3 tools/vp.py --selftest", checks=checks,
         not_applicable=na,
         notes="No hooks in /repo: contracts live in /verif/harness and are attached "
               "to the unmodified sources by goto-cc, so no guard is needed.")
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
