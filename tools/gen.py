#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (checks are listed once their monitor exists)."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
O = "stochopy/optimize/"
S = "stochopy/sample/"
COMMON, DE, CPSO, PSO, NA = O + "_common.py", O + "de/_de.py", O + "cpso/_cpso.py", O + "pso/_pso.py", O + "na/_na.py"
CMA, VD, MC, HMC = O + "cmaes/_cmaes.py", O + "vdcma/_vdcma.py", S + "mcmc/_mcmc.py", S + "hmc/_hmc.py"
SHR, PEN, RND, REJ = O + "cpso/_constraints.py", O + "cmaes/_constraints.py", O + "de/_constraints.py", S + "_common.py"
STRAT = O + "de/_strategy.py"
BENCH = "stochopy/factory/benchmark.py"
BASE = "stochopy/_common.py"
OH, SH = O + "_helpers.py", S + "_helpers.py"
ALLOPT = [COMMON, DE, CPSO, PSO, NA, CMA, VD]

P = []


def prop(id, title, statement, over, quant, why, files, mech, technique, note, level="exploration", observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  technique=technique, note=note, level=level, observe=observe, state=state))


exec((pathlib.Path(__file__).parent / "props_table.py").read_text())

with open(ROOT / "properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        d = {
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"] or ["calls of the user's objective", "callback", "returned result"],
                        "hook_needed": None},
        }
        if p["state"]:
            d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        f.write(json.dumps(d) + "\n")

checks, na = [], []
for p in P:
    if (ROOT / "vf" / "props" / (p["id"].lower() + ".py")).exists():
        checks.append({
            "property": p["id"],
            "quick_cmd": "./check.sh " + p["id"],
            "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
            "technique": p["technique"], "level": p["level"], "level_note": p["note"],
        })
    else:
        na.append({"property": p["id"], "reason": "monitor not built yet"})
(ROOT / "MANIFEST.json").write_text(json.dumps({
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "Monitors observe the unmodified library at its public boundary (objective, jac, callback, result, RNG seed, "
             "MPI/joblib processes); no hooks in /repo are needed. See DESIGN.md. Exit 2 of a check means inconclusive.",
}, indent=1) + "\n")
print(len(P), "properties,", len(checks), "checks")
