#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py (claimed) and NA below (not claimed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "lib")]
import checks
NA = {}
na_file = os.path.join(V, "tools", "na.json")
if os.path.exists(na_file): NA = json.load(open(na_file))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
cs, na = [], []
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        cs.append(dict(property=i, quick_cmd="python3 run.py %s --tier quick" % i, thorough_cmd="python3 run.py %s --tier thorough" % i,
                       evidence_file="evidence/%s.json" % i, technique=c.technique, level=c.level, level_note=c.note or
                       "Every obligation CBMC generates from the current source of the functions under contract is discharged for all inputs in the stated precondition, loops unrolled to their operand-width bound with unwinding assertions (complete). Trusts CBMC/CaDiCaL, the specification functions in harness/, and the callee contracts named in the evidence file."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no contract check built yet in this framework; nothing is claimed for it")))
m = dict(version=1, setup_cmd="python3 -m py_compile run.py checks.py lib/engine.py && cbmc --version && gcc --version",
         hooks=dict(guard="none", enable="no hooks: the checks compile /repo's sources unchanged (goto-cc / gcc)", source_commits=[]),
         checks=cs, not_applicable=na,
         notes="One driver (run.py) decides every property with contract harnesses over the real C code; see DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(cs), "claimed;", len(na), "not claimed")
