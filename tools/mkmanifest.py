#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import jobs as J
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in J.PROPS:
        checks.append(dict(property=i, quick_cmd="python3 tools/check.py %s" % i,
            thorough_cmd="python3 tools/check.py %s --thorough" % i,
            technique="symbolic execution of the compiled crate's LLVM IR, Z3 deciding every branch and assertion",
            level="model_checking",
            level_note=J.PROPS[i].get("note", "Holds for every value of the symbolic bytes within the listed templates; counterexamples are replayed natively. Trusts the engine's model of LLVM IR (validated natively on sampled paths), Z3 and rustc.")))
    else:
        na.append(dict(property=i, reason=J.NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 tools/check.py --setup", checks=checks, not_applicable=na,
         notes="Every check compiles /repo's current sources to LLVM IR and explores them symbolically; see DESIGN.md.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
