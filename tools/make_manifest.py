"""Writes MANIFEST.json from checks/meta.py."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
import meta  # noqa: E402

TECH = {
 "C01": "property-based round-trip of generated instance files",
 "C02": "property-based testing against a reference feasibility model",
 "C03": "stateful property-based testing against a reference aggregation model",
 "C04": "property-based testing against enumerated / LP-branching maxima",
 "C05": "differential fuzzing against exact rational arithmetic, with AddressSanitizer",
 "C06": "property-based testing against enumerated / LP-branching maxima",
 "C07": "differential property-based testing (enumeration, LP) and metamorphic requests",
 "C08": "stateful property-based testing: edited model vs rebuilt model",
 "C09": "property-based testing of invariants and a ranking oracle",
 "C10": "property-based testing of refinement histories against a reference model",
 "C11": "stateful property-based testing of merge histories against a reference model",
 "C12": "property-based testing against enumeration of all divisions",
 "C13": "property-based testing against sorting and the exact optimum",
 "C14": "property-based testing against a reference model and exact optima",
 "C15": "metamorphic and differential property-based testing of formulations and refinements",
 "C16": "property-based testing against the exact optimum",
 "C17": "property-based testing of whole solves against the exact optimum, virtual clock",
 "C18": "property-based testing: invariants over logged histories, exact optimum",
 "C19": "fault-injecting property-based testing: generated expiry and interrupt points",
 "C20": "stateful property-based testing against a reference model, also of the hints within generated solves",
 "C21": "property-based testing of command-line runs with read-back and the exact optimum",
 "C22": "property-based testing of table export against independent aggregation",
 "C23": "property-based testing of generated files against their source",
 "C26": "metamorphic property-based testing: solves of transformed problems compared",
 "C27": "property-based testing: invariants over the states of whole solves, exact subset optima",
 "C28": "property-based testing with fault injection: histories of experiment runs stopped at generated points",
 "C30": "stateful property-based testing: snapshots of arguments and results along histories of operations",
 "C29": "property-based testing: printed output parsed and judged against exact optima",
 "C25": "fault-injecting property-based testing: generated durations on a virtual clock",
 "C24": "metamorphic property-based testing: solve, disturb, solve again",
}
checks = []
for p in sorted(meta.META):
    m = meta.META[p]
    note = ("Random generated-input search with a fixed seed and a bounded number of cases: no "
            "proof. Cases: " + m["rule"] + ".")
    if m.get("assumptions"):
        note += " Assumes: " + "; ".join(m["assumptions"]) + "."
    note += " Trusts Gurobi only where its answer is checked against an independent oracle."
    checks.append(dict(property=p, quick_cmd="/opt/venv/bin/python run.py " + p,
                       thorough_cmd="VERIF_TIER=thorough /opt/venv/bin/python run.py " + p,
                       evidence_file="evidence/%s.json" % p,
                       technique=TECH[p], level=m["level"], level_note=note))
man = dict(version=1,
           setup_cmd="/opt/venv/bin/python -c \"from vlib import env; env.build_ext(); "
                     "env.build_ext(True)\"",
           checks=checks, not_applicable=[],
           notes="No hooks in /repo. See DESIGN.md.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
