"""Following CMA-ES and VD-CMA runs with the reference models."""
import math

import numpy as np

from . import configs, objectives, stats, trace
from .refcma import CMA, VD, Penalty, Unsure
from .replay import generations

EPS = np.finfo(float).eps


def cases(ctx, method, quick, thorough):
    out = []
    for i in range(ctx.n(quick, thorough)):
        rng = ctx.rng(i)
        dims = [1, 2, 3, 4, 6, 9] if method == "cmaes" else [1, 2, 5, 6, 7, 9, 12]
        n = int(rng.choice(dims)) if i % 8 else int(rng.choice([16, 25] if i % 64 else [45, 80]))
        pen = bool(i % 2)
        large = i % 40 == 18
        if large and i % 80 == 18:
            n = int(rng.choice([12, 16, 25]))
        cfg = configs.gen_opt(rng, method=method, ndim=n, constrained=pen, popmax=12 if i % 5 else 40, ftol=configs.NO_FTOL,
                              kinds=["sphere", "ellipsoid", "rastrigin", "abs", "rosenbrock", "linear", "hash", "sphere"],
                              maxiter=int(rng.choice([2, 3, 6, 15, 40, 100])), offset=0.0, fixed=False,
                              where=str(rng.choice(["in", "in", "face", "out", "mixed"])))
        o = cfg["options"]
        cfg["args"] = []
        o["xtol"] = 0.0
        if i % 3 == 0:
            o["muperc"] = float(rng.uniform(0.05, 1.0))
        if i % 3 == 1:
            o["muperc"] = 0.5
        o["sigma"] = float(rng.choice([0.02, 0.1, 0.3, 1.0, rng.uniform(0.05, 2.0)]))
        if i % 64 == 0:
            o["popsize"] = int(rng.choice([6, 12, 40]))
            o["maxiter"] = int(rng.choice([15, 60]))
        if i % 100 == 50:  # (as far as the reference can follow)
            o["maxiter"] = int(rng.choice([250, 600]))
        if i % 7 == 3:
            o["popsize"] = int(rng.randint(20, 60))
        if i % 16 == 9:  # start at the boundary with a large step: weights are set and grow
            cfg["x0"] = [float(b[0] + (b[1] - b[0]) * rng.choice([0.02, 0.97])) for b in cfg["bounds"]]
            cfg["x0_form"] = "array"
        if large:  # large populations learn fast: limits on the change per generation bind
            o["popsize"] = int(rng.choice([120, 250, 500]))
            o["muperc"] = float(rng.choice([0.1, 0.5, 1.0]))
            o["maxiter"] = 25
            if i % 80 == 18:
                o["popsize"], o["muperc"], o["maxiter"], o["sigma"] = 500, float(rng.choice([0.1, 0.3, 0.5, 1.0])), 15, float(rng.choice([0.002, 0.02]))
                cfg["objective"].update(kind="cigar", cond=float(rng.choice([2.0, 3.0, 5.0])))
        if i % 32 == 21:  # most points of a generation on a plateau, its best ones not
            cfg["objective"].update(objectives.random_spec(rng, cfg["bounds"], where=str(rng.choice(["face", "out", "mixed"])), offset=0.0))
            cfg["objective"].update(kind="capped", offset=0.0, cap=float(n * rng.choice([0.02, 0.1, 0.4, 1.0])))
            o["popsize"], o["muperc"] = int(rng.choice([20, 30, 60])), float(rng.choice([0.05, 0.1, 0.2]))
        if i % 16 == 5:  # the mean leaves the box only after the history of values is full: the weights are set from it then
            out_x, in_x = [[b[0] + (b[1] - b[0]) * u for b in cfg["bounds"]] for u in (rng.uniform(1.1, 1.6), 0.5)]
            cfg["objective"] = {"kind": "cigar", "cond": float(rng.choice([2.0, 4.0])) if n > 1 else 0.0, "c": out_x[:1] + in_x[1:], "s": [b[1] - b[0] for b in cfg["bounds"]],
                                "offset": 0.0}
            cfg["x0"] = [b[0] + (b[1] - b[0]) * rng.uniform(0.1, 0.4) for b in cfg["bounds"]]
            cfg["x0_form"] = "array"
            o["sigma"] = float(rng.choice([0.003, 0.01, 0.03]))
            o["maxiter"] = int(rng.choice([60, 100, 160]))
            o["popsize"] = min(o["popsize"], int(rng.choice([5, 8, 12])))
        out.append(cfg)
    return out


def follow(case, obs, t=None, watch=None):
    """Without `watch` every generation is judged; with it, `watch(g, ref, fit)` is told the state after each generation followed."""
    t = t or trace.run(case)
    o = case["options"]
    P, n = o["popsize"], len(case["bounds"])
    lo, up = trace.lo_up(case)
    mid, half = 0.5 * (lo + up), 0.5 * (up - lo)
    G, V = generations(case, t)
    vd = case["method"] == "vdcma"
    pen = trace.penalized(case)
    rs = np.random.RandomState(o["seed"])
    if case.get("x0") is None:
        mean = rs.uniform(-1.0, 1.0, n)
    else:
        mean = (np.array(case["x0"], dtype=float) - mid) / half
    if vd:
        ref = VD(n, P, o["sigma"], o["muperc"], mean, rs.normal(0.0, 1.0, n) / math.sqrt(n))
    else:
        ref = CMA(n, P, o["sigma"], o["muperc"], mean)
    penalty = Penalty(n, P, ref.mueff) if pen else None
    if watch is not None:
        ref.worst = 1e-15
    grid = 8 * EPS * (np.abs(mid) / half)
    stop = None
    for g in range(len(G)):
        if not np.isfinite(V[g]).all():
            stop = "non-finite values"
            break
        z = rs.randn(P, n)
        length = np.linalg.norm(rs.randn(n)) if vd and g else None
        y = (G[g] - mid) / half
        big = np.abs(y).max() + (1.0 if watch is None or pen or mid.any() else 0.0)
        res = (grid + 8 * EPS * big).max() / ref.scale()
        tol = 1e-7 + 100 * res
        if not tol < 1e-4 or not np.isfinite(ref.sigma):
            stop = "resolution"
            break
        obs.count("generations")
        obs.count("adapted", g > 0)
        obs.count("penalized", pen and g > 0)
        obs.nontrivial = obs.nontrivial or g > 0
        try:
            x = ref.draw(z, length) if vd else ref.draw(z)
        except Unsure as e:
            stop = str(e)
            break
        info = dict(generation=g + 1, sigma=ref.sigma, mean=ref.mean * half + mid, x0=case.get("x0") is not None, penalize=pen,
                    popsize=P, muperc=o["muperc"], ndim=n, seed=o["seed"])
        shown = np.clip(x, -1.0, 1.0) if pen else x
        # what one unit of the normal variables amounts to in each coordinate
        unit = ref.sigma * np.sqrt(ref.diag())
        dev = np.abs(y - shown) / unit
        fits = bool((dev <= tol * 10 * (1 + np.sqrt(n))).all())
        if not vd and not fits:
            # the square root of C is only determined up to a rotation
            inside = (np.abs(y) < 1.0 - 1e-9).all(axis=1) if pen else np.ones(P, dtype=bool)
            w = ref.whiten(y[inside])
            zz = z[inside]
            size = np.sqrt((zz * zz).sum(axis=1)) + 1.0
            err = np.abs(w @ w.T - zz @ zz.T) / (size[:, None] + size[None, :])
            cond = float(ref.D.max() / ref.D.min())
            if inside.any() and (err > 10 * tol * (1 + cond)).any():
                if watch is not None:
                    stop = "not as prescribed"
                    break
                fail(obs, g, case, "generation does not come from the distribution the algorithm prescribes",
                     squared_norms=(w * w).sum(axis=1), prescribed=(zz * zz).sum(axis=1), **info)
                return
            if pen:
                # enough unclipped points determine the rotation
                u, sv, vt = np.linalg.svd(zz.T @ w) if inside.sum() >= n else (None, [0.0], None)
                if not sv[-1] > 1e-3 * sv[0] or not cond < 1e3:
                    stop = "rotation"
                    break
                xr = ref.draw(z @ (u @ vt))
                dev = np.abs(y - np.clip(xr, -1.0, 1.0)) / unit
                if not (dev <= 1e-4).all():
                    if watch is not None:
                        stop = "not as prescribed"
                        break
                    fail(obs, g, case, "clipped points do not come from the distribution the algorithm prescribes", worst=float(dev.max()),
                         **info)
                    return
                x = xr
                obs.count("rotated_penalized")
            else:
                x = y
            obs.count("rotated")
        elif not fits:
            if watch is not None:
                stop = "not as prescribed"
                break
            fail(obs, g, case, "generation does not come from the distribution the algorithm prescribes",
                 worst=float(dev.max()), member=int(dev.max(axis=1).argmax()), **info)
            return
        elif pen and not vd and g and n > 1 and (np.abs(y) < 1.0 - 1e-9).sum() < 2:
            # (nearly) everything is clipped: nothing shows which square root of C was used
            stop = "rotation"
            break
        if g == 0:
            obs.sample("first", [1.0])
        if not pen:
            x = y
            if not vd:
                w = ref.whiten(y)
                obs.sample("chi2", [((w * w).sum() - P * n) / math.sqrt(2.0 * P * n)])
        else:
            out = (np.abs(x) > 1.0).any(axis=1)
            obs.count("clipped_points", out.sum())
            x = np.where(np.abs(y) < 1.0 - 1e-9, y, x)
        try:
            fit = penalty.fitness(x, V[g], ref.mean, ref.old, ref.sigma, ref.diag()) if pen else V[g]
            if pen:
                obs.count("penalties", (fit > V[g]).sum())
                obs.count("flat_penalized", penalty.flat and bool((fit > V[g]).any()))
                best = float(t.cb[g]["state"]["fun"])
                spread = np.abs(fit).max() + np.abs(V[g]).max()
                if abs(best - fit.min()) > 1e-5 * abs(fit.min()) + 1e-10 * spread:
                    if watch is not None:
                        stop = "not as prescribed"
                        break
                    obs.violation("best value of the generation is not the smallest penalized value", reported=best, expected=float(fit.min()),
                                  smallest_raw=float(V[g].min()), weights=penalty.weights, **info)
                    return
            before = ref.diag()
            ref.tell(x, fit)
            if watch is not None:
                watch(g, ref, fit, before)
        except Unsure as e:
            stop = str(e)
            break
    obs.count("followed_to_the_end" if stop is None else "left: " + stop)


def fail(obs, g, case, what, **info):
    if g == 0:
        # either the law of the first generation or the order in which random numbers are drawn: decided over all runs
        obs.sample("first", [0.0])
        obs.count("first_generation_differs")
    else:
        obs.violation(what, **info)


def finish(ctx, data, total, obs):
    first = np.array(data.get("first", [1.0]))
    if 0.0 < first.mean() < 1.0 and first.mean() > 0.2:
        obs.violation("first generation is not normal around x0 (or a uniform point) with deviation sigma times half the range in some runs",
                      runs=int((first == 0).sum()), of=len(first))
    elif first.mean() <= 0.2:
        obs.inconclusive = "random numbers are drawn in another order than the reference expects"
    v = data.get("chi2", [])
    if len(v) > 300:
        stats.check(obs, stats.z_mean(v, 0.0, 1.0), "spread of the generations")
