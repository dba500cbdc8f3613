#!/usr/bin/env python3
"""MANIFEST.json from checks.py and properties.jsonl."""
import json, os, subprocess, checks
R = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
m = dict(version=1,
         setup_cmd="python3-vt check.py --setup",
         checks=[dict(property=i, quick_cmd="python3-vt check.py %s quick" % i, thorough_cmd="python3-vt check.py %s thorough" % i,
                      technique="solver-based: symbolic execution of the crate's LLVM IR, every path condition and assertion decided by an SMT solver (z3, cvc5 as fallback) over linear integer terms",
                      level="model_checking",
                      level_note="holds for every input within: " + "; ".join(checks.CHECKS[i]["bounds"]) + ". Outside: " + checks.CHECKS[i].get("outside", "nothing further"))
                 for i in ids if i in checks.CHECKS],
         hooks=dict(guard="cfg(momentous_verif)", enable='RUSTFLAGS="--cfg momentous_verif"', source_commits=checks.HOOK_COMMITS),
         not_applicable=[dict(property=i, reason=checks.NOT_APPLICABLE.get(i, "not built yet")) for i in ids if i not in checks.CHECKS])
with open(os.path.join(R, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
