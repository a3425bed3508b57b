"""C19 - initial populations are as documented."""
import numpy as np

from .. import configs, stats, trace
from ..replay import generations

LEVEL = "exploration"
RULE = ("short runs of every method with and without x0, in boxes of all scales; first generations compared with x0 bitwise (NA: round-off), "
        "sorted into strata, or pooled for z-tests; non-trivial: an initial population was examined")
MINIMA = {"given": 300, "strata": 1000, "gaussian_starts": 300, "random_means": 150, "sampler_starts": 300}


def cases(ctx):
    out = []
    for i in range(ctx.n(4800, 40000)):
        rng = ctx.rng(i)
        k = i % 8
        n = int(rng.choice([1, 2, 3, 5, 12])) if rng.rand() < 0.8 else int(rng.choice([14, 20, 40, 90]))
        if k < 4:
            cfg = configs.gen_opt(rng, method=configs.POPULATION[k], ndim=n, maxiter=int(rng.choice([1, 1, 2])), popmax=30, ftol=configs.NO_FTOL,
                                  x0=bool(rng.rand() < 0.35))
        elif k < 6:
            cfg = configs.gen_opt(rng, method=["cmaes", "vdcma"][k - 4], ndim=n, maxiter=int(rng.choice([1, 1, 2])), popmax=30,
                                  ftol=configs.NO_FTOL, x0=bool(rng.rand() < 0.4), constrained=bool(rng.rand() < 0.2))
            o = cfg["options"]
            o["sigma"] = float(rng.choice([0.05, 0.3, 2.0])) if cfg["x0"] is not None else float(rng.choice([1e-9, 1e-9, 0.3]))
        else:
            cfg = configs.gen_smp(rng, method=["mcmc", "hmc"][k - 6], ndim=n, maxiter=int(rng.choice([1, 1, 3])))
        cfg["args"] = []
        out.append(cfg)
    for i in range(ctx.n(400, 2000)):  # every population size once
        rng = ctx.rng(10**6 + i)
        cfg = configs.gen_opt(rng, method=configs.POPULATION[(i // 7) % 4], ndim=int(rng.choice([1, 2, 3])), maxiter=1, ftol=configs.NO_FTOL, x0=False,
                              kinds=["sphere", "plateau"])
        cfg["options"]["popsize"] = 6 + i
        cfg["args"] = []
        out.append(cfg)
    for i in range(ctx.n(600, 3000)):  # random means
        rng = ctx.rng(2 * 10**6 + i)
        cfg = configs.gen_opt(rng, method=["cmaes", "vdcma"][i % 2], ndim=int(rng.choice([2, 6, 12, 24, 50])), maxiter=1, popmax=5, ftol=configs.NO_FTOL, x0=False,
                              constrained=False, kinds=["sphere", "plateau"])
        cfg["options"]["sigma"] = 1e-9
        cfg["args"] = []
        out.append(cfg)
    return out


def run_case(case, obs):
    t = trace.run(case)
    o = case["options"]
    lo, up = trace.lo_up(case)
    span = up - lo
    n = len(lo)
    x0 = None if case.get("x0") is None else np.array(case["x0"], dtype=float)
    obs.nontrivial = True
    if case["kind"] == "smp":
        obs.count("sampler_starts")
        first = t.cb[0]["X"]
        if x0 is not None:
            if not (first == x0).all() or not (t.X[0] == x0).all():
                obs.violation("chain does not start at x0", method=case["method"], x0=x0, sample=first, evaluated=t.X[0])
        else:
            if trace.outside(first, lo, up).any():
                obs.violation("chain starts outside the bounds", method=case["method"], sample=first)
            u = (first - lo) / span
            obs.sample("sampler " + case["method"], u)
            obs.sample("sampler coordinates", 12.0 * (u[1:] - 0.5) * (u[:-1] - 0.5))
        return
    G, _ = generations(case, t)
    X = G[0]
    P = len(X)
    if case["method"] in configs.POPULATION:
        if x0 is not None:
            obs.count("given")
            tol = 16 * np.finfo(float).eps * np.maximum(np.abs(lo), np.abs(up)) if case["method"] == "na" else 0.0
            bad = np.argwhere(~(np.abs(X - x0) <= tol))
            if len(bad):
                i = bad[0][0]
                obs.violation("first iteration is not x0", method=case["method"], member=i, x0=x0[i], evaluated=X[i])
            return
        free = span > 0.0
        if ((X != lo) & ~free).any():
            obs.violation("fixed variable not at its bound in the initial population", method=case["method"])
            return
        if not free.any():
            return
        u = (X - lo)[:, free] / span[free] * P
        err = 1e-9 + 64 * np.finfo(float).eps * P * (np.maximum(np.abs(lo), np.abs(up))[free] / span[free]).max()
        if err > 0.1:
            return
        ranks = np.empty_like(u)
        for j in range(u.shape[1]):
            obs.count("strata")
            order = np.argsort(u[:, j])
            s = u[order, j]
            k = np.arange(P)
            if ((s < k - err) | (s > k + 1 + err)).any():
                obs.violation("a stratum of the bounds does not contain exactly one initial member", method=case["method"], dimension=j,
                              popsize=P, strata=np.floor(s), bounds=case["bounds"])
                return
            ranks[order, j] = k
        if P > 2:
            r = (ranks - (P - 1) / 2.0) / np.sqrt((P * P - 1) / 12.0)
            sd = P / np.sqrt(P - 1.0)
            obs.sample("pairing", (r[:, 1:] * r[:, :-1]).sum(axis=0) / sd)
            if u.shape[1] > 2:
                obs.sample("pairing", [(r[:, 0] * r[:, -1]).sum() / sd])
            obs.sample("first member", r[0])
            obs.sample("last member", r[-1])
            order = np.arange(P) - (P - 1) / 2.0
            order /= np.sqrt((P * P - 1) / 12.0)
            obs.sample("order", (r * order[:, None]).sum(axis=0) / sd)
        return
    # CMA-ES and VD-CMA
    if trace.penalized(case):
        return
    half = 0.5 * span
    if x0 is not None:
        obs.count("gaussian_starts")
        z = (X - x0) / (o["sigma"] * half)
        if case["method"] == "cmaes":
            obs.sample("cma z", z)
            obs.sample("cma zz", (z[1:] * z[:-1]))
            obs.sample("cma zz", (z[:, 1:] * z[:, :-1]))
            w = (z * z).sum()
            if abs(w - z.size) / np.sqrt(2.0 * z.size) > 40.0:
                obs.violation("first generation is not spread by sigma times half the range around x0", ratio=float(w / z.size), x0=x0, first=X[0],
                              sigma=o["sigma"])
        else:
            obs.sample("vd sign", np.sign(z))
            obs.sample("vd bounded", z / np.sqrt(1.0 + z * z))
            w = float((z * z).mean())
            if not 1e-4 < w < 1e4 and z.size > 3:
                obs.violation("first generation is not spread by sigma times half the range around x0", ratio=w, x0=x0, first=X[0], sigma=o["sigma"])
    elif o["sigma"] < 1e-6:
        obs.count("random_means")
        u = (X[0] - lo) / span
        obs.sample("mean " + case["method"], u)
        if ((X - X[0]) / half > 1e-6).any():
            obs.violation("first generation is not spread by sigma times half the range", first=X[:3], sigma=o["sigma"])


def finish(ctx, data, total, obs):
    for k in ("pairing", "first member", "last member", "order", "cma zz"):
        v = data.get(k, [])
        if len(v) > 100:
            stats.check(obs, stats.z_mean(v, 0.0, 1.0), "initial population: " + k)
    v = np.array(data.get("pairing", []))
    if len(v) > 300:
        stats.check(obs, (np.mean(v**2) - 1.0) * np.sqrt(len(v) / 4.0), "initial population: random pairing")
    for k in ("sampler mcmc", "sampler hmc", "mean cmaes", "mean vdcma"):
        z, what = stats.uniform(data.get(k, []))
        stats.check(obs, z, "uniform start: " + k, what)
    v = data.get("sampler coordinates", [])
    if len(v) > 100:
        stats.check(obs, stats.z_mean(v, 0.0, 1.0), "uniform start: coordinates independent")
    z, what = stats.normal(data.get("cma z", []))
    stats.check(obs, z, "CMA-ES starts with standard deviation sigma times half the range", what)
    v = data.get("vd sign", [])
    if len(v) > 100:
        # signs of one generation are correlated through v only in pairs; variance per sign is one
        stats.check(obs, stats.z_mean(v, 0.0, 1.0) / 2.0, "VD-CMA starts around x0")
