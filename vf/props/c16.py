"""C16 - NA resamples inside the Voronoi cells of its best models."""
import numpy as np

from .. import configs, stats, trace
from ..replay import generations

LEVEL = "exploration"
RULE = ("serial NA runs in boxes of all scales incl. fixed variables; every new sample is assigned to its nearest previous sample by brute "
        "force and its position between the walls of that cell computed from the bisecting planes; non-trivial: a new sample was assigned")
MINIMA = {"assigned": 20000, "fractions": 10000, "fixed_runs": 30, "wall_at_bound": 300, "best_sets": 2000}


def cases(ctx):
    out = []
    for i in range(ctx.n(700, 8000)):
        rng = ctx.rng(i)
        cfg = configs.gen_opt(rng, method="na", ndim=int(rng.choice([1, 2, 2, 3, 5, 9])), ftol=configs.NO_FTOL, popmax=14,
                              kinds=["sphere", "ellipsoid", "rastrigin", "abs", "hash", "rosenbrock", "linear"], offset=0.0,
                              fixed=bool(i % 5 == 4), maxiter=int(rng.choice([2, 3, 5, 10, 20])))
        cfg["args"] = []
        o = cfg["options"]
        if i % 3 == 1:
            o["nrperc"] = float(rng.uniform(0.01, 1.0))
        if i % 11 == 5:
            o["popsize"] = int(rng.randint(20, 60))
            if cfg["x0"] is not None:
                cfg["x0"] = configs.feasible_x0(rng, cfg)
        if i % 25 == 8:  # many variables
            cfg = configs.gen_opt(rng, method="na", ndim=int(rng.choice([16, 33, 70])), ftol=configs.NO_FTOL, popmax=14, kinds=["sphere", "abs", "hash", "linear"], offset=0.0,
                                  fixed=bool(i % 2), maxiter=int(rng.choice([2, 4, 8])))
            cfg["args"] = []
        if i % 70 == 17:  # many models, of which old ones stay the best
            cfg = configs.gen_opt(rng, method="na", ndim=int(rng.choice([1, 2, 3])), ftol=configs.NO_FTOL, kinds=["hash"], offset=0.0,
                                  x0=False, fixed=False)
            cfg["args"] = []
            cfg["options"].update(popsize=40, maxiter=int(rng.choice([40, 70])), nrperc=float(rng.choice([0.01, 0.05, 0.3])))
        if i % 140 == 29:  # long runs
            cfg = configs.gen_opt(rng, method="na", ndim=int(rng.choice([9, 12, 16])), ftol=configs.NO_FTOL, kinds=["hash"], offset=0.0, fixed=False, maxiter=270)
            cfg["args"] = []
            cfg["options"].update(popsize=int(rng.randint(4, 7)), nrperc=float(rng.choice([0.5, 1.0])))
            if cfg["x0"] is not None:
                cfg["x0"] = configs.feasible_x0(rng, cfg)
        out.append(cfg)
    return out


def walls(y, j, c, U, err):
    """Interval of coordinate j (others as in y) in which c is nearest of all U; each wall as its (lowest, highest) possible place."""
    D = U - c
    M = 0.5 * (U + c) - y
    ok = D[:, j] != 0.0
    D, M, dj = D[ok], M[ok], D[ok, j]
    t = y[j] + (D * M).sum(axis=1) / dj
    size = np.sqrt((D * D).sum(axis=1))
    e = 4 * err * (1.0 + size / np.abs(dj)) + 1e-14 * (((M + 0.5 * D) ** 2).sum(axis=1) + ((M - 0.5 * D) ** 2).sum(axis=1)) / np.abs(dj)
    right = dj > 0.0
    low = [(t - e)[~right].max(), (t + e)[~right].max()] if (~right).any() else [-np.inf, -np.inf]
    high = [(t - e)[right].min(), (t + e)[right].min()] if right.any() else [np.inf, np.inf]
    return low, high


def run_case(case, obs):
    t = trace.run(case)
    o = case["options"]
    P, n = o["popsize"], len(case["bounds"])
    lo, up = trace.lo_up(case)
    free = up > lo
    span = np.where(free, up - lo, 1.0)
    G, V = generations(case, t)
    nr = max(1, int(o["nrperc"] * P))
    if not free.all():
        obs.count("fixed_runs")
        bad = np.argwhere((G != up) & ~free)
        if len(bad):
            obs.violation("a variable fixed by equal bounds was changed", generation=bad[0][0], member=bad[0][1], got=G[bad[0][0], bad[0][1]])
            return
    if not free.any():
        return
    N = (G - lo) / span * free
    err = 1e-13 * (1.0 + (np.maximum(np.abs(lo), np.abs(up)) / span)[free].max())
    for g in range(1, len(G)):
        old = N[:g].reshape(-1, n)
        val = V[:g].reshape(-1)
        order = np.argsort(val, kind="stable")
        cut = val[order[nr - 1]]
        allowed = np.flatnonzero(val <= cut)
        tied = len(allowed) != nr
        obs.count("best_sets")
        got = np.zeros(len(old), dtype=int)
        sure = not tied
        prev = None
        for i in range(P):
            y = N[g, i]
            obs.count("assigned")
            d = np.sqrt(((old - y) ** 2).sum(axis=1))
            near = np.flatnonzero(d <= d.min() + 20 * err)
            mine = np.intersect1d(near, allowed)
            if not len(mine):
                k = int(d.argmin())
                obs.violation("new sample is not in the cell of one of the best previous samples", generation=g, member=i, sample=G[g, i],
                              nearest=G[:g].reshape(-1, n)[k], its_rank=int((val < val[k]).sum()), number_of_cells=nr)
                return
            # coinciding samples are one cell
            if len(near) > 1:
                sure = False
                prev = None
                continue
            k = int(mine[0])
            got[k] += 1
            pos = old[k].copy()
            us = []
            for j in np.flatnonzero(free):
                low, high = walls(pos, j, old[k], np.delete(old, k, axis=0), err)
                obs.count("wall_at_bound", low[1] < 0.0)
                low = [max(v, 0.0) for v in low]
                high = [min(v, 1.0) for v in high]
                if not low[0] - 10 * err <= y[j] <= high[1] + 10 * err:
                    obs.violation("new coordinate is not between the walls of its cell", generation=g, member=i, axis=j, low=low, high=high,
                                  at=y[j])
                    return
                w = high[0] - low[1]
                if w > 0.0 and low[1] - low[0] + high[1] - high[0] + err < 1e-3 * w:
                    us.append((y[j] - 0.5 * (low[0] + low[1])) / w)
                pos[j] = y[j]
            obs.count("fractions", len(us))
            obs.sample("u", us)
            us = np.array(us) - 0.5
            obs.sample("axes", 12.0 * us[1:] * us[:-1])
            if prev is not None and len(prev) == len(us):
                obs.sample("samples", 12.0 * us * prev)
            prev = us
        if sure:
            c = got[allowed]
            if c.max() - c.min() > 1:
                obs.violation("the best cells do not receive equal numbers of new samples", generation=g, counts=c, popsize=P, cells=nr)
                return
    obs.nontrivial = len(G) > 1


def finish(ctx, data, total, obs):
    z, what = stats.uniform(data.get("u", []))
    stats.check(obs, z, "coordinates uniform between the walls", what)
    for k in ("axes", "samples"):
        v = data.get(k, [])
        if len(v) > 300:
            stats.check(obs, stats.z_mean(v, 0.0, 1.0), "draws independent across " + k)
