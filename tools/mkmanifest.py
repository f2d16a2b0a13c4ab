#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS
import props
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = getattr(props, "NOT_APPLICABLE", {})
NOTE = "Bounded symbolic execution of the compiled real code: within the bounds given in DESIGN.md and the evidence, z3 decides every assertion for all values; counterexamples are replayed natively before they are reported. Trusts clang's front end, the executor in /verif/engine, z3, and the runtime models in /verif/rt (cross-validated by native replay of sampled paths)."
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "hooks": {"guard": "none", "enable": "no hooks are needed: the checks compile /repo's sources unmodified", "source_commits": []},
     "checks": [{"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i, "technique": "SMT-based symbolic execution of LLVM IR (own executor over z3), bounded, with native replay", "level": "model_checking",
                 "level_note": (PROPS[i].get("note", "") + " " + NOTE).strip()} for i in ids if i in PROPS],
     "not_applicable": [{"property": i, "reason": NA.get(i, "no check has been built for this property yet")} for i in ids if i not in PROPS]}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
