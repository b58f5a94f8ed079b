#!/usr/bin/env python3
"""Writes MANIFEST.json from check.py's PLAN."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.join(here, "check.py")).read()
plan = eval(re.search(r"PLAN = (\{.*?\n\})", src, re.S).group(1))
NA = {
    "C24": "the Rust engine cannot be built here (no numpy/pyo3 crates, nothing may be fetched), so there is no second implementation to put under contract",
    "C25": "a distribution over draws is not a postcondition of a call; no contract within reach expresses it",
    "C26": "indexing and caching run through pandas and dynamic attribute machinery (descriptors, decorators, metaclasses) that the verifier's Python subset does not include; no function-level contract within reach decides it",
}
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
for p in props:
    if p not in plan and p not in NA:
        NA[p] = "no check yet"
note = ("Contracts on the real kernels are discharged function by function for all inputs and iterations (floats as mathematical "
        "reals with NaN and infinities, unbounded integers, Numba assumed to compile what the Python source means; a few contracts of "
        "NumPy primitives assumed; see the evidence file). The functions named under bounded_not_proved in the evidence are only "
        "compared with independent oracles on random small inputs: bounded, not proved.")
m = {"version": 1, "setup_cmd": "true",
     "checks": [{"property": p, "quick_cmd": "./check.sh %s" % p, "thorough_cmd": "./check.sh %s thorough" % p,
                 "evidence_file": "evidence/%s.json" % p,
                 "technique": "contract-based deductive verification of the kernels' source (verification conditions discharged by z3/cvc5), contracts and oracles also run on concrete inputs",
                 "level": "proof", "level_note": note} for p in props if p in plan],
     "not_applicable": [{"property": p, "reason": NA[p]} for p in props if p in NA and p not in plan],
     "notes": "See DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), [x["property"] for x in m["not_applicable"]])
