#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    "C06": "All lengths: n = 0, 1, 2 run symbolically, every n >= 3 by induction over the loop the compiler generated (an invariant at one loop head, found and re-established per configuration); where the induction is not found the unrolled lengths are reported as bounded.",
    "C11": "Every load, store, pointer step, intrinsic precondition and panic site of the IR reached from the public API; the sources' behaviour under optimisation is not looked at. Text contracts in three configurations in the quick tier.",
    "C12": "At the level of unoptimised LLVM IR with each CPU instruction taken as one constant-time step; back ends may still introduce branches. Table-based configurations are outside the property.",
    "C14": "Same contracts, every configuration, and every configuration must compile. Equality of configurations follows from each meeting the one contract.",
}
GEN = "All inputs, no bound, in every configuration of engine/build.py that compiles; proved on the LLVM IR the pinned rustc emits for the crate (opt-level 0), with CPU instructions modelled from their manuals. Functions the engine cannot take are decided by bounded runs of the real code, reported as bounded."
checks = []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)["id"]
    checks.append({"property": p, "quick_cmd": "python3-vt check.py %s quick" % p, "thorough_cmd": "python3-vt check.py %s thorough" % p,
                   "technique": "contract-based deductive verification of the crate's own LLVM IR (symbolic execution against contracts, normal forms and z3)",
                   "level": "proof", "level_note": NOTE.get(p, GEN)})
json.dump({"version": 1, "setup_cmd": "python3-vt check.py --setup", "checks": checks, "not_applicable": []}, open(V + "/MANIFEST.json", "w"), indent=1)
