#!/usr/bin/env python3
"""Writes DESIGN.md: hand-written sections plus one section per property assembled from its table entry and monitor."""
import ast
import json
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT / "tools"))
from design_oracles import ORACLE
from design_text import HEAD, TAIL

P = [json.loads(l) for l in open(ROOT / "properties.jsonl")]
CHECKS = {c["property"]: c for c in json.load(open(ROOT / "MANIFEST.json"))["checks"]}


def consts(pid):
    out = {}
    for n in ast.parse((ROOT / "vf" / "props" / (pid.lower() + ".py")).read_text()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("RULE", "MINIMA"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


out = [HEAD.strip(), "", "## The properties and how each is decided", ""]
for p in P:
    c = consts(p["id"])
    out += ["### %s %s" % (p["id"], p["title"]), "",
            p["statement"], "",
            "*Technique* (%s): %s." % (CHECKS[p["id"]]["level"], CHECKS[p["id"]]["technique"]), "",
            "*Oracle.* " + ORACLE[p["id"]], "",
            "*Workload.* " + c["RULE"] + ".", "",
            "*Quick tier must observe at least* " + ", ".join("%s %s" % (v, k.replace("_", " ")) for k, v in c.get("MINIMA", {}).items()) + " (else inconclusive).", "",
            "*Why tests do not reach it.* " + p["why_tests_cant"], ""]

seeded = []
for d in sorted((ROOT / "seeded").iterdir()):
    m = json.load(open(d / "meta.json"))
    seeded.append("| %s | %s | %s | %s |" % (d.name, m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
out.append(TAIL.strip().replace("@SEEDED@", "\n".join(seeded)).replace("@NSEEDED@", str(len(seeded))))
(ROOT / "DESIGN.md").write_text("\n".join(out) + "\n")
