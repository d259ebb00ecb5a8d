#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
NA = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
cs, na = [], []
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        spec = checks.CHECKS[i]
        note = ("Every assertion of every query is decided by the SAT solver for all inputs within the stated bounds, with unwinding assertions; "
                "counterexamples and reachability witnesses are replayed on the real code under ASan/UBSan. Outside the bounds: %s. "
                "Trusts CBMC's C semantics and the environment models of lib/." % (spec.get("outside") or "nothing known"))
        cs.append(dict(property=i, quick_cmd="python3 vp.py check %s" % i, thorough_cmd="VERIF_TIER=thorough python3 vp.py check %s" % i,
                       evidence_file="evidence/%s.json" % i, level="model_checking", level_note=note,
                       technique="bounded symbolic execution of /repo's C code with CBMC, decided by a SAT/SMT solver"))
    else:
        na.append(dict(property=i, reason=NA.get(i, "its check is not built yet")))
m = dict(version=1, setup_cmd="python3 vp.py list", checks=cs, not_applicable=na,
         notes="No hooks in /repo: the encoding redirects the library's environment with a forced include (lib/vp_env.h).")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(cs), "claimed,", len(na), "not")
