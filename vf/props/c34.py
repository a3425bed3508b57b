"""C34 - budgets and tolerances only cut a run."""
import copy

import numpy as np

from .. import configs, trace

LEVEL = "exploration"
RULE = ("seeded runs of every method repeated with a smaller maxiter, a larger or smaller ftol and another xtol; the evaluated points, callbacks and "
        "result of the shorter run against the beginning of the longer one, bitwise; non-trivial: a pair with a proper cut was compared")
MINIMA = {"pairs": 5000, "cut_by_maxiter": 2000, "cut_by_ftol": 300, "xtol": 800, "samplers": 300}


def cases(ctx):
    out = []
    for i in range(ctx.n(2200, 12000)):
        rng = ctx.rng(i)
        if i % 5 == 4:
            cfg = configs.gen_smp(rng, maxiter=int(rng.choice([4, 9, 25, 60])))
        else:
            cfg = configs.gen_opt(rng, ftol=configs.NO_FTOL if i % 2 else None, maxiter=int(rng.choice([4, 7, 12, 20, 40])), popmax=12)
            if i % 33 == 6:  # long runs
                cfg = configs.gen_opt(rng, ftol=configs.NO_FTOL if i % 2 else None, ndim=int(rng.choice([1, 2, 3, 5])), popmax=8,
                                      maxiter=int(rng.choice([220, 260, 450, 1100], p=[.4, .3, .2, .1])))
                if cfg["method"] == "na":
                    cfg["options"]["maxiter"] = min(260, cfg["options"]["maxiter"])
            if i % 30 == 7:
                cfg["options"].update(workers=2, backend="threading")
            if i % 50 == 8:
                cfg["options"].pop("ftol", None)
        out.append({"cfg": cfg, "cuts": sorted({int(v) for v in rng.randint(1, cfg["options"]["maxiter"], size=2)} | ({1} if rng.rand() < 0.2 else set())),
                    "q": float(rng.rand()), "xtol": float(rng.choice([0.0, 1e-8, 1e-3, 0.5, 10.0]))})
    return out


def against(a, b, m):
    """First difference between run `b` of `m` iterations and the beginning of `a`."""
    serial = a.cfg["options"].get("workers", 1) < 2
    if serial:
        k = b.X.shape[0]
        if k > a.X.shape[0] or not trace.same(a.X[:k], b.X) or not trace.same(a.V[:k], b.V):
            return "evaluated points"
    if len(b.cb) != m or m > len(a.cb):
        return "number of iterations"
    for g, (c, d) in enumerate(zip(a.cb, b.cb)):
        bad = trace.same_result(c["state"], d["state"]) or (None if trace.same(c["X"], d["X"]) else "population")
        if bad or c["neval"] != d["neval"]:
            return "iteration %d: %s" % (g + 1, bad or "evaluations")
    s = a.cb[m - 1]["state"]
    r = {k: v for k, v in b.rx.items() if k in s}
    s = {k: v for k, v in s.items() if k in r}
    if m == 1 and "accept_ratio" in s:  # (1.0 in the first state)
        s.pop("accept_ratio")
        r.pop("accept_ratio")
    return trace.same_result(s, r)


def run_case(case, obs):
    cfg = case["cfg"]
    a = trace.run(cfg)
    if trace.overflowed(a) < len(a.V):
        obs.count("overflowed")
        return
    o = cfg["options"]
    whole = len(a.cb)
    smp = cfg["kind"] == "smp"
    obs.count("samplers", smp)
    info = dict(method=cfg["method"], options=o)

    def pair(change, what, cut=None):
        c = copy.deepcopy(cfg)
        c["options"].update(change)
        b = trace.run(c)
        m = len(b.cb)
        obs.count("pairs")
        bad = against(a, b, m) if m <= whole else against(b, a, whole)
        if bad is None and cut is not None and m != cut:
            bad = "iterations: %d, expected %d" % (m, cut)
        if bad:
            obs.violation("a run with another %s is not a part of the same run" % what, change=change, difference=bad, nit=[whole, m], **info)
        return b, m

    if not (cfg["method"] == "cpso" and o.get("competitivity", 1.0)):  # (maxiter is a parameter of the restarts)
        for m in case["cuts"]:
            b, n = pair({"maxiter": m}, "maxiter", min(m, whole))
            obs.count("cut_by_maxiter", n < whole)
            if obs.violations:
                return
        obs.nontrivial = True
    if smp:
        return
    best = np.array([c["state"]["fun"] for c in a.cb], dtype=float)
    if cfg["options"].get("ftol", 0.0) < best.min() and np.isfinite(best).all() and whole > 1:
        k = int(case["q"] * whole)
        ftol = float(best[k])
        hit = np.flatnonzero(best <= ftol)
        hit = hit[hit > 0] if cfg["method"] not in ("cmaes", "vdcma") else hit
        b, n = pair({"ftol": ftol}, "ftol", int(hit[0]) + 1 if len(hit) else whole)
        obs.count("cut_by_ftol", n < whole)
        obs.nontrivial = True
        if obs.violations:
            return
    if cfg["method"] not in ("cmaes", "vdcma"):
        b, n = pair({"xtol": case["xtol"]}, "xtol", whole)
        obs.count("xtol")
        obs.nontrivial = True
    else:
        pair({"xtol": case["xtol"]}, "xtol")
