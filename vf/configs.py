"""Random run configurations (JSON-able dicts) for optimizers and samplers."""
import copy

import numpy as np

from .objectives import random_spec

OPTIMIZERS = ["cmaes", "cpso", "de", "na", "pso", "vdcma"]
POPULATION = ["cpso", "de", "na", "pso"]
STRATEGY_MIN = {"rand1bin": 4, "rand2bin": 6, "best1bin": 3, "best2bin": 5}
CONSTRAINT = {"cmaes": "Penalize", "vdcma": "Penalize", "cpso": "Shrink", "pso": "Shrink", "de": "Random"}
NO_FTOL = -1.0e300


def random_bounds(rng, ndim, fixed=False, extreme=False):
    kind = rng.choice(["sym", "unit", "scaled", "far", "ints", "mixed"])
    if kind == "sym":
        h = rng.uniform(0.5, 6.0)
        b = [[-h, h]] * ndim
    elif kind == "unit":
        b = [[0.0, 1.0]] * ndim
    elif kind == "ints":
        lo = rng.randint(-6, 5, ndim)
        b = [[int(l), int(l + w)] for l, w in zip(lo, rng.randint(1, 9, ndim))]
    elif kind == "far":
        lo = rng.uniform(100.0, 1000.0, ndim) * rng.choice([-1.0, 1.0], ndim)
        b = [[l, l + w] for l, w in zip(lo, rng.uniform(0.5, 20.0, ndim))]
    elif kind == "scaled":
        e = 4 if not extreme or rng.rand() < 0.6 else 12
        sc = 10.0 ** rng.randint(-e, e + 1, ndim)
        b = [[-s * rng.uniform(0.1, 1.0), s * rng.uniform(0.1, 1.0)] for s in sc]
    else:
        lo = rng.uniform(-10.0, 10.0, ndim)
        b = [[l, l + w] for l, w in zip(lo, rng.uniform(0.1, 15.0, ndim))]
    b = [[v.item() if isinstance(v, np.generic) else v for v in p] for p in b]
    if fixed and ndim > 1:
        for j in range(ndim):
            if rng.rand() < 0.3:
                v = float(rng.uniform(-3.0, 3.0))
                b[j] = [v, v]
    return b


def random_args(rng):
    k = rng.randint(4)
    if k < 2:
        return []
    return [float(v) for v in rng.randint(0, 3, size=k - 1)] + (["tag"] if rng.rand() < 0.3 else [])


def gen_opt(rng, method=None, maxiter=None, ndim=None, kinds=None, constrained=None, x0=None,
            ftol=None, fixed=None, popmax=14, workers=(0, 1), updating=None, seeded=True,
            bounds=None, where=None, offset=None):
    """A random optimizer run; keyword arguments pin aspects of it."""
    method = method or str(rng.choice(OPTIMIZERS))
    big = str(rng.choice(["no"] * 11 + ["wide", "crowd", "long"]))
    huge = rng.rand() < 0.06
    if big == "wide" and ndim is None:
        ndim = int(rng.choice([10, 16, 23, 40] if method != "na" else [10, 16])) if not huge else 40 if method == "na" else 110
    if big == "crowd" and popmax >= 12:
        popmax = (int(rng.choice([40, 70, 130])) if not huge else 600) if method != "na" else 40 if not huge else 130
    if big == "long" and maxiter is None:
        maxiter = (int(rng.choice([150, 400])) if not huge else 1500) if method != "na" else 100 if not huge else 300
    ndim = ndim or int(rng.choice([1, 2, 2, 3, 4, 5, 8]))
    if bounds is None:
        fixed = (method in ("na", "de", "pso") and rng.rand() < 0.15) if fixed is None else fixed
        bounds = random_bounds(rng, ndim, fixed, extreme=True)
    opts = {}
    maxiter = maxiter or int(rng.choice([1, 2, 3, 5, 8, 12, 20, 30]))
    opts["maxiter"] = maxiter
    if seeded:
        opts["seed"] = int(rng.randint(0, 2**31 - 1)) if rng.rand() < 0.95 else 0
    pmin = 2
    if method == "de":
        opts["strategy"] = str(rng.choice(list(STRATEGY_MIN)))
        pmin = STRATEGY_MIN[opts["strategy"]]
        opts["mutation"] = float(rng.choice([0.0, 0.5, 0.8, 2.0, rng.uniform(0, 2)]))
        opts["recombination"] = float(rng.choice([0.0, 0.1, 0.9, 1.0, rng.uniform(0, 1)]))
    elif method in ("pso", "cpso"):
        opts["inertia"] = float(rng.choice([0.0, 0.4, 0.7298, 0.91, 1.0]))
        opts["cognitivity"] = float(rng.choice([0.0, 1.49618, 1.49618, 4.0, rng.uniform(0, 4)]))
        opts["sociability"] = float(rng.choice([0.0, 1.49618, 1.49618, 4.0, rng.uniform(0, 4)]))
        if method == "cpso":
            opts["competitivity"] = float(rng.choice([0.0, 0.5, 1.0, 1.0, 2.0]))
    elif method == "na":
        opts["nrperc"] = float(rng.choice([0.05, 0.25, 0.5, 1.0]))
    else:
        opts["sigma"] = float(rng.choice([0.01, 0.1, 0.3, 1.0]))
        opts["muperc"] = float(rng.choice([0.05, 0.3, 0.5, 1.0]))
    opts["popsize"] = int(rng.randint(pmin, popmax + 1)) if big != "crowd" else int(rng.randint(max(pmin, popmax // 2), popmax + 1))
    opts["xtol"] = float(rng.choice([0.0, 1.0e-8, 1.0e-2, 10.0]))
    opts["ftol"] = (float(rng.choice([NO_FTOL, 1.0e-8, 0.05, 0.5, 2.0])) if ftol is None else ftol)
    if method in ("de", "pso", "cpso"):
        opts["updating"] = updating or str(rng.choice(["immediate", "deferred"]))
    if method in CONSTRAINT:
        use = rng.rand() < 0.5 if constrained is None else constrained
        if use:
            opts["constraints"] = CONSTRAINT[method]
        elif rng.rand() < 0.3:
            opts["constraints"] = None
    opts["workers"] = int(rng.choice(list(workers)))
    return_all = bool(rng.rand() < 0.6)
    if return_all:
        opts["return_all"] = True
        opts["verbosity"] = float(rng.choice([0.0, 1.0, 1.0, 0.5, 0.3, rng.uniform(0.01, 0.99)]))
    cfg = {"kind": "opt", "method": method, "bounds": bounds, "options": opts,
           "objective": None, "args": random_args(rng), "x0": None}
    penal = opts.get("constraints") == "Penalize"
    if kinds is None and penal:
        from .objectives import KINDS
        kinds = [k for k in KINDS if k != "barrier"]
    cfg["objective"] = random_spec(rng, bounds, kinds=kinds, where=where, offset=offset)
    use_x0 = (rng.rand() < 0.4) if x0 is None else x0
    if use_x0:
        cfg["x0"] = feasible_x0(rng, cfg)
        if cfg["x0"] is not None and rng.rand() < 0.5:
            cfg["x0_form"] = str(rng.choice(["array", "list", "fortran", "strided"]))
    return cfg


def feasible_x0(rng, cfg):
    b = np.array(cfg["bounds"], dtype=float)
    lo, up = b[:, 0], b[:, 1]
    n = len(lo)
    if cfg["method"] in ("cmaes", "vdcma") or cfg["kind"] == "smp":
        x = lo + rng.rand(n) * (up - lo)
        k = rng.randint(12)
        if k == 0:  # the origin
            x = np.zeros(n)
        elif k == 1:  # the centre
            x = 0.5 * (lo + up)
        elif k == 2:  # a corner
            x = np.where(rng.rand(n) < 0.5, lo, up)
        return np.clip(x, lo, up).tolist()
    P = cfg["options"]["popsize"]
    x = lo + rng.rand(P, n) * (up - lo)
    if rng.rand() < 0.2:  # duplicates and corners
        x[rng.randint(P)] = x[0]
        x[rng.randint(P)] = np.where(rng.rand(n) < 0.5, lo, up)
    elif rng.rand() < 0.1:  # the origin, or everything there
        x[rng.randint(P) if rng.rand() < 0.7 else slice(None)] = 0.0
    return np.clip(x, lo, up).tolist()


def gen_smp(rng, method=None, maxiter=None, ndim=None, kinds=None, constrained=None, jac=None,
            seeded=True, bounds=None, where=None):
    method = method or str(rng.choice(["mcmc", "hmc"]))
    big = rng.rand()
    if big < 0.01 and maxiter is None:
        maxiter = 1500 if method == "mcmc" else 300
    elif big > 0.98 and ndim is None:
        ndim = int(rng.choice([24, 60])) if method == "mcmc" else 24
    ndim = ndim or int(rng.choice([1, 2, 2, 3, 4, 6, 6, 11]))
    bounds = bounds if bounds is not None else random_bounds(rng, ndim, extreme=method == "mcmc" or jac is True)
    opts = {"maxiter": maxiter or int(rng.choice([1, 2, 3, 5, 10, 25, 60]))}
    if seeded:
        opts["seed"] = int(rng.randint(0, 2**31 - 1)) if rng.rand() < 0.95 else 0
    step = rng.choice(["default", "scalar", "array"])
    base = 0.3 if method == "mcmc" else 0.08
    if step == "scalar":
        opts["stepsize"] = float(base * 10.0 ** rng.uniform(-1, 0.5))
    elif step == "array":
        opts["stepsize"] = [float(base * 10.0 ** rng.uniform(-1, 0.5)) for _ in range(ndim)]
    if method == "mcmc":
        opts["perc"] = float(rng.choice([0.0, 0.25, 0.5, 0.7, 1.0]))
    else:
        opts["nleap"] = int(rng.choice([1, 2, 5, 10])) if rng.rand() > 0.03 else 90
        if rng.rand() < 0.3:
            opts["finite_diff_abs_step"] = float(10.0 ** rng.uniform(-6, -3))
    use = rng.rand() < 0.5 if constrained is None else constrained
    if use:
        opts["constraints"] = "Reject"
    if rng.rand() < 0.5:
        opts["return_all"] = bool(rng.rand() < 0.6)
    cfg = {"kind": "smp", "method": method, "bounds": bounds, "options": opts,
           "args": random_args(rng), "x0": None}
    cfg["objective"] = random_spec(rng, bounds, kinds=kinds or (
        ["sphere", "ellipsoid", "rastrigin", "abs", "linear", "sphere"] if method == "hmc"
        else ["sphere", "ellipsoid", "rosenbrock", "rastrigin", "abs", "linear", "plateau", "integer", "hash", "barrier"]),
        where=where)
    if method == "hmc" and cfg["objective"]["kind"] in ("sphere", "ellipsoid"):
        cfg["jac"] = bool(rng.rand() < 0.5) if jac is None else jac
    if rng.rand() < 0.5:
        cfg["x0"] = feasible_x0(rng, cfg)
        if rng.rand() < 0.5:
            cfg["x0_form"] = str(rng.choice(["array", "list"]))
    return cfg


def relative(rng, cfg):
    """The same run with some of its options changed: whatever is kept between runs of equal sizes would fit both."""
    cfg = copy.deepcopy(cfg)
    o = cfg["options"]
    new = (gen_smp if cfg["kind"] == "smp" else gen_opt)(rng, method=cfg["method"], ndim=len(cfg["bounds"]))
    if rng.rand() < 0.5:
        o["seed"] = int(rng.randint(2**31 - 1))
    names = ["muperc", "sigma", "inertia", "cognitivity", "sociability", "competitivity", "nrperc", "mutation", "recombination", "stepsize",
             "perc", "nleap", "updating", "maxiter", "xtol", "ftol", "finite_diff_abs_step"]
    for k in names:
        if k in o and k in new["options"] and rng.rand() < 0.5:
            o[k] = new["options"][k]
    if rng.rand() < 0.5 and o.get("constraints") is None and cfg["x0"] is None:
        cfg["bounds"], cfg["objective"] = new["bounds"], new["objective"]
        cfg.pop("jac", None)
    return cfg


def crowd(rng, cfg, sizes):
    """Gives a run a large population."""
    o = cfg["options"]
    o["popsize"] = int(rng.choice(sizes))
    o["maxiter"] = min(o["maxiter"], 3)
    if cfg["x0"] is not None and cfg["method"] in POPULATION:
        cfg["x0"] = feasible_x0(rng, cfg)
