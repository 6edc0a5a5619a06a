#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (the committed file is this script's output)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PBT = "property-based testing (Hypothesis): "
TECH = {
    "C01": PBT + "model-based operation histories against a reference ledger",
    "C02": PBT + "stateful histories with reopen at generated points, differential against a never-closed model; format round-trip",
    "C03": PBT + "stateful schedule/poll histories with a controlled pool against a counting model",
    "C04": PBT + "generated estimates and starting states, invariants over the call history",
    "C05": PBT + "interrupt/reopen/renew histories with injected crashes at storage operations, model oracle",
    "C06": PBT + "generated interleavings of completions injected at every line of the polling code, exactly-once oracle",
    "C07": PBT + "differential over pools and orders against a pure function of id and level; closed-form oracle for the synthetic simulation",
    "C08": PBT + "generated fault assignments per sample and pool, per-sample outcome oracle",
    "C09": PBT + "generated run histories, file tree compared with a model",
    "C10": PBT + "generated poll splits with a controlled clock, closed-form oracle",
    "C11": PBT + "job histories with kills and command failures on a stub batch system, exactly-once model",
    "C12": PBT + "restart histories with interruptions on a stub batch system, exactly-once model",
    "C13": PBT + "generated formats and index paths against a reference indexer",
    "C14": PBT + "generated expression programs against NumPy evaluation",
    "C15": PBT + "generated condition programs against a per-sample reference selection",
    "C16": PBT + "generated sample arrays against a reference estimator",
    "C17": PBT + "metamorphic index/estimate commutation and reference moment estimator",
    "C18": PBT + "stateful histories on one or two storages; differential over backends and chunkings",
    "C19": PBT + "generated sample arrays and subsample sizes, membership and count oracle, statistics of repeated draws",
    "C20": PBT + "generated moment families and points against textbook functions; differential between evaluation forms",
    "C21": PBT + "generated distributions, linear-algebra invariants of the returned moments",
    "C22": PBT + "generated densities, invariants by independent quadrature",
    "C23": PBT + "generated variances and costs against the closed-form allocation; metamorphic scaling",
    "C24": PBT + "generated inputs against reference formulas; metamorphic scaling",
    "C25": PBT + "generated points and parameters against closed-form covariance; stateful set_points/sample histories",
    "C26": PBT + "generated field graphs and regions against a reference evaluator",
    "C27": PBT + "round-trip of generated meshes and field data",
    "C29": PBT + "generated densities and moments against composite Gauss quadrature",
    "C30": PBT + "generated complete runs against the simulation function evaluated over the ids",
    "C31": PBT + "generated stored samples against reference moments, independent quadrature and the empirical distribution",
    "C32": PBT + "generated scheduling histories and settings against a packing model, the submitted scripts parsed and executed",
    "C33": PBT + "generated data sets, the drawn figure read back and compared with the data",
    "C28": PBT + "generated meshes, fields, templates and balance files with a recording stub solver",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(ROOT, "vlib", "props", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd="./check.py {} --tier quick".format(i), thorough_cmd="./check.py {} --tier thorough".format(i),
                           evidence_file="evidence/{}.json".format(i), technique=TECH[i], level="exploration",
                           level_note="Held on every generated case of the bounded domain described in DESIGN.md and in the evidence file; "
                                      "search, not proof. Trusts the oracle in vlib/props/{}.py, Hypothesis, NumPy/SciPy and h5py.".format(i.lower())))
    else:
        na.append(dict(property=i, reason="no check built yet"))
m = dict(version=1, setup_cmd="chmod +x check.py && ./check.py --selftest", checks=checks, not_applicable=na,
         notes="No hooks in /repo. All checks run the code of /repo's working tree directly (Python, no build step).")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
