#!/usr/bin/env python3
"""Writes MANIFEST.json: which properties are claimed."""
import json
claimed = "H01 H02 H03 H04 H05 H06 H07 H08 H09 C01 C02 C03 C04 C05 C06 C07 J01 J02 X01 X02".split()
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
why = {}
note = ("Every obligation generated from the contracts and the current source is discharged by an SMT solver or by evaluation, "
        "for all inputs and all iterations. Trusted: the verifier /verif/vc, go/ssa, the solvers, the sequence axioms, the reference "
        "files. See DESIGN.md and the evidence file for assumptions.")
m = {"version": 1, "setup_cmd": "./run.sh build",
     "checks": [{"property": p, "quick_cmd": f"./run.sh check {p} quick", "thorough_cmd": f"./run.sh check {p} thorough",
                 "technique": "deductive verification: contracts on the real functions, obligations generated from Go SSA of the current tree, discharged by z3/cvc5",
                 "level": "proof", "level_note": note} for p in ids if p in claimed],
     "not_applicable": [{"property": p, "reason": why.get(p, "not built yet")} for p in ids if p not in claimed]}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
