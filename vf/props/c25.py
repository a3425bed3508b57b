"""C25 - the front ends and defaults are interchangeable."""
import copy
import inspect

import numpy as np

import stochopy
from stochopy.optimize import minimize
from stochopy.sample import sample

from .. import configs, trace

LEVEL = "exploration"
RULE = ("pairs of runs that the documentation declares equivalent (front end and direct call, omitted and spelled-out defaults, default "
        "methods, options None and {}, pso and cpso without competition, workers 0 and 1, backend names on serial runs); evaluation logs, "
        "callback states and results are compared bitwise; non-trivial: a pair was compared")
MINIMA = {"front": 300, "positional": 100, "defaults": 400, "default_values": 1500, "default_method": 60, "no_options": 40, "pso": 200, "serial": 300, "signature": 60}

COMMON = {"maxiter": 100, "popsize": 10, "xtol": 1.0e-8, "ftol": 1.0e-8, "workers": 1, "backend": "threading",
          "return_all": False, "verbosity": 1.0}
SWARM = {"inertia": 0.7298, "cognitivity": 1.49618, "sociability": 1.49618, "constraints": None, "updating": "immediate"}
DEFAULTS = {
    "cmaes": dict(COMMON, sigma=0.1, muperc=0.5, constraints=None),
    "vdcma": dict(COMMON, sigma=0.1, muperc=0.5, constraints=None),
    "cpso": dict(COMMON, competitivity=1.0, **SWARM),
    "pso": dict(COMMON, **SWARM),
    "de": dict(COMMON, mutation=0.5, recombination=0.9, strategy="best1bin", constraints=None, updating="immediate"),
    "na": dict(COMMON, nrperc=0.5),
    "mcmc": dict(maxiter=100, stepsize=0.1, perc=1.0, constraints=None, return_all=True),
    "hmc": dict(maxiter=100, nleap=10, stepsize=0.01, jac=None, finite_diff_abs_step=1.0e-4, constraints=None, return_all=True),
}


def cases(ctx):
    out = []
    plan = ["front", "front", "defaults", "defaults", "defaults", "pso", "serial", "method", "none"]
    for i in range(ctx.n(2700, 10800)):
        rng = ctx.rng(i)
        kind = plan[i % len(plan)]
        if kind == "front":
            cfg = configs.gen_smp(rng) if rng.rand() < 0.3 else configs.gen_opt(rng, popmax=10)
        elif kind == "defaults":
            m = list(DEFAULTS)[(i // len(plan)) % len(DEFAULTS)]
            if m in configs.OPTIMIZERS:
                cfg = configs.gen_opt(rng, method=m, popmax=10, x0=False, ndim=int(rng.choice([1, 2, 3])), bounds=None,
                                      kinds=configs_kinds(rng), fixed=False, constrained=bool(rng.rand() < 0.2), offset=0.0, maxiter=20)
                n = len(cfg["bounds"])
                shrink = 10.0 ** rng.choice([0.0, 0.0, -3.0, -5.0, -7.0])
                for k in range(n):
                    cfg["bounds"][k] = [float(v) * shrink for v in cfg["bounds"][k]]
                for k in ("c", "s"):
                    cfg["objective"][k] = (np.array(cfg["objective"][k]) * shrink).tolist()
            else:
                cfg = configs.gen_smp(rng, method=m, ndim=int(rng.choice([1, 2, 3])), jac=False, maxiter=8)
            o = cfg["options"]
            cfg["omit"] = [k for k in DEFAULTS[m] if rng.rand() < 0.45] or ["maxiter"]
            if m == "hmc" and "maxiter" in cfg["omit"] and rng.rand() < 0.5:
                cfg["omit"].remove("maxiter")
            if m == "na" and {"maxiter", "popsize"} <= set(cfg["omit"]):
                cfg["omit"].remove("maxiter")
            for k in cfg["omit"]:
                o.pop(k, None)
        elif kind == "pso":
            cfg = configs.gen_opt(rng, method="pso", popmax=12)
        elif kind == "serial":
            cfg = configs.gen_opt(rng, method=str(rng.choice(configs.OPTIMIZERS)), popmax=9)
        else:
            smp = rng.rand() < 0.5
            cfg = configs.gen_smp(rng, method="mcmc", maxiter=20) if smp else configs.gen_opt(rng, method="de", maxiter=12)
        cfg["pair"] = kind
        out.append(cfg)
    out += [{"pair": "signature", "method": m} for m in DEFAULTS]
    return out


def signature(case, obs):
    """Advertised defaults (None stands for a default resolved inside)."""
    m = case["method"]
    f = getattr(stochopy.optimize if m in configs.OPTIMIZERS else stochopy.sample, m)
    for k, p in inspect.signature(f).parameters.items():
        d = DEFAULTS[m].get(k)
        if d is None or p.default is p.empty or p.default is None:
            continue
        obs.count("signature")
        obs.nontrivial = True
        obs.require(p.default == d, "advertised default is not the documented one", method=m, argument=k, default=p.default, documented=d)


def configs_kinds(rng):
    return ["sphere", "ellipsoid", "abs", "rosenbrock", "plateau"]


def compare(obs, a, b, what, **info):
    bad = None
    if not (trace.same(a.X, b.X) and trace.same(a.V, b.V)):
        bad = "evaluations"
    elif len(a.cb) != len(b.cb):
        bad = "number of callbacks"
    else:
        for k, (c, d) in enumerate(zip(a.cb, b.cb)):
            bad = trace.same_result(c["state"], d["state"]) or (None if trace.same(c["X"], d["X"]) else "population")
            if bad:
                bad = "callback %d: %s" % (k + 1, bad)
                break
    bad = bad or trace.same_result(a.rx, b.rx)
    if bad:
        obs.violation(what, difference=bad, nit=[a.rx["nit"], b.rx["nit"]], **info)
    obs.nontrivial = True
    return not bad



def with_options(cfg, **kw):
    c = copy.deepcopy(cfg)
    c["options"].update(kw)
    return c


def run(cfg, call=None):
    """trace.run with the guard of default sizes; `call` replaces the library call."""
    g = copy.deepcopy(cfg)
    o = g["options"]
    full = dict(DEFAULTS[g["method"]], **o)
    t = trace.Trace()
    t.cb = []
    rec = trace.Recorder(dict(g, options=full))

    def cb(X, state):
        t.cb.append({"X": np.array(X, dtype=float, copy=True), "state": trace.snapshot_result(state)})

    opts = trace.build_options(g)
    if g.get("jac"):
        grad = trace.Gradient(g["objective"])
        opts["jac"] = lambda x, *a: grad(x)
    args = tuple(g.get("args", ()))
    x0 = trace.build_x0(g)
    if call is None:
        res = trace.call(g, rec, g["bounds"], x0, args, opts, cb)
    else:
        res = call(rec, g["bounds"], x0, args, opts, cb)
    t.rx = trace.snapshot_result(res)
    t.X = np.array(rec.x)
    t.V = np.array(rec.v, dtype=float)
    return t


def run_case(case, obs):
    if case["pair"] == "signature":
        return signature(case, obs)
    m = case["method"]
    front = minimize if case["kind"] == "opt" else sample
    direct = getattr(stochopy.optimize if case["kind"] == "opt" else stochopy.sample, m)
    kind = case["pair"]
    info = dict(method=m, options=case["options"])
    if kind == "front":
        a = run(case)
        b = run(case, lambda f, bd, x0, args, o, cb: direct(f, bd, x0=x0, args=args, callback=cb, **o))
        obs.count("front")
        if compare(obs, a, b, "calling the method directly gives another run", **info):
            c = run(case, lambda f, bd, x0, args, o, cb: front(f, bd, x0, args, m, o, cb))
            obs.count("positional")
            compare(obs, a, c, "positional arguments of the front end give another run", **info)
    elif kind == "defaults":
        d = {k: DEFAULTS[m][k] for k in case["omit"]}
        a = run(case)
        b = run(with_options(case, **d))
        obs.count("defaults")
        obs.count("default_values", len(d))
        compare(obs, a, b, "spelling out documented defaults gives another run", spelled_out=d, **info)
    elif kind == "pso":
        a = run(case)
        for g in (None, 0, 0.0):
            c = with_options(case, competitivity=g)
            c["method"] = "cpso"
            obs.count("pso")
            if not compare(obs, a, run(c), "pso differs from cpso with competitivity %r" % (g,), **info):
                return
        f = run(dict(case, method="cpso", options=dict(case["options"], competitivity=0.0)),
                lambda f, bd, x0, args, o, cb: stochopy.optimize.cpso(f, bd, x0=x0, args=args, callback=cb, **o))
        compare(obs, a, f, "pso differs from a direct call of cpso with competitivity 0", **info)
    elif kind == "serial":
        a = run(with_options(case, workers=1))
        for w in (0, 1):
            for bk in (None, "threading", "loky"):
                obs.count("serial")
                if not compare(obs, a, run(with_options(case, workers=w, backend=bk)),
                               "workers or backend name changed a serial run", workers=w, backend=bk, **info):
                    return
    elif kind == "method":
        a = run(case)
        b = run(case, lambda f, bd, x0, args, o, cb: front(f, bd, x0=x0, args=args, options=o, callback=cb))
        obs.count("default_method")
        compare(obs, a, b, "the default method is not '%s'" % m, **info)
    else:
        base = dict(case, options={})

        def call(o, **kw):
            def f(fun, bd, x0, args, _, cb):
                np.random.seed(case["options"]["seed"])
                return front(fun, bd, x0=x0, args=args, method=m, callback=cb, **dict(kw, **({} if o is Ellipsis else {"options": o})))
            return run(base, f)

        if case["x0"] is not None and case["kind"] == "opt":
            base["x0"] = None
        a, b = call({}), call({})
        if trace.same(a.X, b.X):  # unseeded runs follow NumPy's generator
            obs.count("no_options")
            compare(obs, a, call(None), "options=None gives another run than {}", **info)
            if not obs.violations:
                compare(obs, a, call(Ellipsis), "omitting options gives another run than {}", **info)
        else:
            obs.count("no_options")
            c = call(None)
            obs.require(c.rx["nit"] == a.rx["nit"] or case["kind"] == "opt", "options=None gives another number of iterations")
            obs.require(set(c.rx) == set(a.rx), "options=None gives other fields")
            obs.nontrivial = True
