#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the modules in rt/props."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
TECH = "runtime monitoring: randomized workloads on the real code; deciding oracle: "
ORACLE = {
    "C01": "direct evaluation of the definition of PDP/ICE, plus a monitor of every model query",
    "C02": "direct evaluation of the definition of d-PDP/d-ICE, plus a monitor of every Jacobian query",
    "C03": "reference accumulation of per-instance bin differences, plus a locality monitor of model queries",
    "C04": "reference per-bin statistics of the derivatives and their integral",
    "C05": "validity checker of every bin layout returned, and a feasibility checker of every refusal",
    "C06": "independent dynamic program for the optimum; independent replay of the merge rule",
    "C07": "offline checker over recorded centred / uncentred curve pairs",
    "C08": "state-machine workload, every answer compared with a fresh object's",
    "C09": "brute-force Shapley values over all coalitions; re-fitted splines",
    "C10": "membership of every node recomputed from the conditions on its path",
    "C11": "independent exhaustive split search and pruning rule on public heterogeneities",
    "C12": "global method on the node's instances, recomputed from the tree's conditions",
    "C13": "fingerprints of caller arrays around every call; recording black box",
    "C14": "recording black box and object contents against the caller's rows; seed replay",
    "C15": "metamorphic pairs of runs on re-represented data",
    "C16": "closed-form effects of additive and linear models",
    "C17": "artists of the produced figures against evaluated quantities",
    "C18": "direct evaluation of the index definitions",
    "C19": "metamorphic pairs of runs under exact power-of-two rescaling",
    "C20": "row-by-row interpreter of the split conditions",
    "C21": "parser of the printed reports against the trees",
    "C22": "fault injection into the black box at every call; undisturbed twin object as oracle",
    "C24": "twin object with every default spelled out; problems straddling the default thresholds",
    "C25": "interleaved, nested and threaded scripts against each script alone; snapshots of process state around every call",
    "C23": "finiteness/shape/sign monitors on degenerate and extreme workloads",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "rt", "props", i.lower() + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": "VERIF_TIER=quick /opt/venv/bin/python run.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough /opt/venv/bin/python run.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": TECH + ORACLE[i],
            "level": "exploration",
            "level_note": "held on every execution observed; inputs are sampled, not enumerated (see DESIGN.md)",
        })
    else:
        na.append({"property": i, "reason": "its monitor is not built yet"})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import numpy, scipy, shap, matplotlib'",
           "checks": checks, "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
