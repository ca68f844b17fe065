#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties that have a check."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "property-based testing: random data sets, limits and options against an exhaustive dynamic program",
    "C02": "property-based testing: random data sets against an exhaustive Pareto front of error counts",
    "C03": "property-based testing: random data sets against an exhaustive table of group difference and errors",
    "C04": "property-based testing: random costs and data sets against an exhaustive program over paid tests",
    "C05": "property-based testing: random instance costs and policies against an exhaustive dynamic program",
    "C06": "property-based testing: random regression data against an exhaustive dynamic program",
    "C07": "property-based testing: random linear-leaf data against enumerated trees and an independent leaf fit",
    "C08": "property-based testing: random censored data against an exhaustive program over the survival loss",
    "C09": "property-based testing: random limits on every task against a structural validity predicate",
    "C10": "property-based testing: random trees and data against direct evaluation of the returned tree",
    "C11": "property-based differential testing of search options and upper bounds",
    "C12": "property-based metamorphic testing of data transformations and limits",
    "C13": "stateful property-based testing: random call sequences against a fresh estimator",
    "C14": "property-based testing with random time limits against validity predicates",
    "C15": "property-based testing of hyper-tuning against validity predicates and a reference run",
    "C16": "property-based testing of binarisation against an independent description of the columns",
    "C17": "property-based differential testing of the command line program against the library and the exhaustive oracle",
    "C18": "fuzzing under address and undefined-behaviour sanitizers",
    "C19": "fuzzing of invalid arguments against the rule that a Python exception is raised",
    "C20": "property-based round trip: printed and exported trees parsed back and compared",
    "C21": "property-based testing of probabilities, parameters and clones against direct computation",
}
NOT = {}
DRAFT = set()          # not registered yet
have = sorted(k for k in TECH if k not in DRAFT and os.path.exists(os.path.join(ROOT, "pbt", "checks", k.lower() + ".py")))
m = {"version": 1,
     "setup_cmd": "/verif/run.py --setup",
     "checks": [{"property": k,
                 "quick_cmd": "/verif/run.py %s --tier quick" % k,
                 "thorough_cmd": "/verif/run.py %s --tier thorough" % k,
                 "evidence_file": "evidence/%s.json" % k,
                 "technique": TECH[k], "level": "exploration",
                 "level_note": "generated cases up to the stated bounds; the oracle shares no code with the solver"} for k in have],
     "not_applicable": [{"property": k, "reason": r} for k, r in NOT.items()],
     "notes": "Checks rebuild from /repo's working tree. All randomness comes from VERIF_SEED."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
print(len(have), "checks")
