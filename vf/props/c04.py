"""C04 - feasibility: nothing outside the bounds once a constraint is active (and never for NA and initial populations)."""
import numpy as np

from .. import configs, trace
from ..objectives import random_spec

LEVEL = "exploration"
RULE = ("constrained runs of every method (Shrink, Random, Penalize, Reject; NA always; initial populations also without "
        "constraint) with optima inside, on faces and outside of boxes of many scales, incl. long collapsed swarms and inertia 0; "
        "every evaluated point, callback population, xall row, sample and result is tested; non-trivial: a point was tested")
MINIMA = {"points": 20000, "points_on_bound": 500, "samples": 2000, "accepted_moves": 200}


def cases(ctx):
    out = []
    for i in range(ctx.n(3300, 13200)):
        rng = ctx.rng(i)
        k = i % 10
        if k < 2:  # long PSO runs: particles glued to faces, tiny or zero velocities
            cfg = configs.gen_opt(rng, method=str(rng.choice(["pso", "cpso"])), constrained=True, popmax=6,
                                  kinds=["sphere", "abs", "linear"], where=str(rng.choice(["face", "out", "mixed", "out"])),
                                  ftol=configs.NO_FTOL, maxiter=int(rng.choice([60, 200, 400])), ndim=int(rng.randint(1, 5)), fixed=False)
            cfg["options"]["inertia"] = float(rng.choice([0.0, 0.0, 0.1, 0.4, 0.91, 1.0]))
            cfg["options"]["xtol"] = 0.0
        elif k < 3:
            cfg = configs.gen_smp(rng, constrained=True, maxiter=int(rng.choice([30, 80])))
        elif k < 4:
            cfg = configs.gen_opt(rng, constrained=False)
        else:
            cfg = configs.gen_opt(rng, constrained=True, ftol=configs.NO_FTOL if rng.rand() < 0.7 else None,
                                  where=str(rng.choice(["in", "face", "out", "out", "mixed"])),
                                  maxiter=int(rng.choice([1, 2, 5, 20, 60])), popmax=14)
            if cfg["method"] in ("cmaes", "vdcma"):
                cfg["options"]["sigma"] = float(rng.choice([0.1, 0.5, 1.0, 3.0]))
        out.append(cfg)
    return out


def test(obs, P, lo, up, what, **kw):
    P = np.atleast_2d(np.asarray(P, dtype=float))
    bad = trace.outside(P, lo, up)
    if bad.any():
        i = int(np.flatnonzero(bad)[0])
        obs.violation(what, index=i, point=P[i], lower=lo, upper=up, **kw)


def run_case(case, obs):
    t = trace.run(case)
    lo, up = trace.lo_up(case)
    tol = trace.box_tol(lo, up)
    o = case["options"]
    if case["kind"] == "smp":
        S = np.array([c["X"] for c in t.cb])
        obs.count("samples", len(S))
        obs.count("accepted_moves", int((np.diff(S, axis=0) != 0).any(axis=1).sum()))
        if o.get("constraints") == "Reject":
            test(obs, S, lo, up, "sample outside the bounds")
            test(obs, t.rx["x"], lo, up, "best sample outside the bounds")
            if "xall" in t.rx:
                test(obs, t.rx["xall"], lo, up, "stored sample outside the bounds")
        test(obs, S[:1], lo, up, "initial sample outside the bounds")
        obs.nontrivial = True
        return
    P = o["popsize"]
    always = case["method"] == "na" or o.get("constraints") is not None
    X = t.X
    if always:
        obs.count("points", len(X))
        obs.count("points_on_bound", int(((X <= lo + tol) | (X >= up - tol)).any(axis=1).sum()))
        test(obs, X, lo, up, "objective evaluated outside the bounds", popsize=P)
        for k, c in enumerate(t.cb):
            test(obs, c["X"], lo, up, "callback population outside the bounds", k=k)
            test(obs, c["state"]["x"], lo, up, "intermediate solution outside the bounds", k=k)
        test(obs, t.rx["x"], lo, up, "result outside the bounds")
        if "xall" in t.rx:
            test(obs, t.rx["xall"].reshape(-1, len(lo)), lo, up, "xall row outside the bounds")
    elif case["method"] in configs.POPULATION:
        test(obs, X[:P], lo, up, "initial population outside the bounds")
        obs.count("points", P)
    obs.nontrivial = True
