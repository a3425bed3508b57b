"""C26 - invalid arguments are rejected before any evaluation, boundary values accepted."""
import copy

import numpy as np

from .. import configs, trace

LEVEL = "exploration"
RULE = ("one invalid argument injected into a random valid configuration (both front ends, serial and parallel settings), calls of user "
        "code counted; and valid configurations at the ends of the documented ranges; non-trivial: the invalid call raised before any "
        "user code ran, or the boundary run completed")
MINIMA = {"rejected": 1000, "accepted": 300, "kinds": 1000}

NAN = float("nan")
RANGES = {  # documented closed ranges
    "inertia": (0.0, 1.0), "cognitivity": (0.0, 4.0), "sociability": (0.0, 4.0), "competitivity": (0.0, 2.0),
    "mutation": (0.0, 2.0), "recombination": (0.0, 1.0), "perc": (0.0, 1.0),
}
PARAMS = {
    "pso": ["inertia", "cognitivity", "sociability"], "cpso": ["inertia", "cognitivity", "sociability", "competitivity"],
    "de": ["mutation", "recombination"], "mcmc": ["perc"], "na": [], "cmaes": [], "vdcma": [], "hmc": [],
}
METHODS = ["cmaes", "cpso", "de", "na", "pso", "vdcma", "mcmc", "hmc"]


def table(m):
    """(argument, value index) pairs that are invalid for method m."""
    T = [("fun", k) for k in range(4)] + [("callback", k) for k in range(4)] + [("bounds", k) for k in range(7)]
    T += [("x0", k) for k in range(6)] + [("method", k) for k in range(3)] + [("option", 0)]
    T += [(p, k) for p in PARAMS[m] for k in range(6)]
    if m in configs.POPULATION:
        T += [("popsize", k) for k in range(3)]
    if m == "na":
        T += [("nrperc", k) for k in range(5)]
    if m in ("cmaes", "vdcma"):
        T += [("muperc", k) for k in range(5)] + [("sigma", k) for k in range(2)]
    if m in ("de", "pso", "cpso"):
        T += [("updating", k) for k in range(4)]
    if m == "de":
        T += [("strategy", k) for k in range(4)]
    if m in configs.CONSTRAINT:
        T += [("constraints", k) for k in range(4)]
    if m in configs.OPTIMIZERS:
        T += [("backend", k) for k in range(3)]
    else:
        T += [("stepsize", k) for k in range(3)]
    if m == "hmc":
        T += [("jac", k) for k in range(3)] + [("nleap", k) for k in range(2)]
    return T


def edges(m):
    E = [(p, v) for p in PARAMS[m] for v in RANGES[p]] + [("maxiter", 1), ("seed", 0), ("seed", 2**32 - 1)]
    E += [(p, int(v)) for p in PARAMS[m] for v in RANGES[p]]
    if m in ("pso", "cpso", "na"):
        E += [("popsize", 2)]
    if m == "cpso":
        E += [("competitivity", None)]
    if m == "de":
        E += [("strategy", s) for s in configs.STRATEGY_MIN]
    if m == "na":
        E += [("nrperc", 1.0), ("nrperc", 1), ("nrperc", 1e-6)]
    if m in ("cmaes", "vdcma"):
        E += [("muperc", 1.0), ("muperc", 1), ("muperc", 1e-6), ("sigma", 1e-6), ("sigma", 1), ("popsize", 2)]
    if m in configs.OPTIMIZERS:
        E += [("verbosity", 0.0), ("verbosity", 1.0), ("verbosity", 0), ("verbosity", 1), ("xtol", 0.0), ("x0", None), ("constraints", None)]
        E += [("backend", "threading"), ("backend", "loky"), ("backend", None), ("workers", 0)]
    if m == "hmc":
        E += [("nleap", 1)]
    if m in ("hmc", "mcmc"):
        E += [("constraints", None), ("stepsize", 0.0)]
    if m == "na":
        E = [e for e in E if e[0] != "constraints"]
    return E


def cases(ctx):
    out = []
    i = 0
    for rep in range(ctx.n(10, 40)):
        for m in METHODS:
            for what, vals in (("bad", table(m)), ("edge", edges(m))):
                for arg, k in vals:
                    rng = ctx.rng(i)
                    i += 1
                    n = int(rng.choice([1, 2, 3, 4]))
                    cfg = (configs.gen_smp(rng, method=m, ndim=n, maxiter=6) if m in ("mcmc", "hmc")
                           else configs.gen_opt(rng, method=m, ndim=n, popmax=8, maxiter=4))
                    cfg.update({what: [arg, k], "front": bool(rng.rand() < 0.5)})
                    if what == "bad" and cfg["kind"] == "opt" and rng.rand() < 0.3:
                        cfg["options"].update(workers=2, backend="threading")
                    out.append(cfg)
    return out


def invalid(case, arg, k):
    """Returns keyword changes {name: value} making the call invalid, or None if it does not apply."""
    n, m, o = len(case["bounds"]), case["method"], case["options"]
    lo, up = trace.lo_up(case)
    P = o.get("popsize")
    if arg == "fun":
        return {"fun": [None, 3.0, "f", [1]][k]}
    if arg == "callback":
        return {"callback": [3, "print", [], False][k]}
    if arg == "jac":
        return {"jac": [3.0, "2-point", [1.0]][k]}
    if arg == "bounds":
        return {"bounds": [lo.tolist(), [], 1.0, None, [[a, b, b] for a, b in zip(lo, up)], [[[a, b]] for a, b in zip(lo, up)],
                           [[a] for a in lo]][k]}
    if arg == "x0":
        if m in configs.POPULATION:
            x = np.tile(0.5 * (lo + up), (P, 1))
            return {"x0": [x[0], x[:-1], np.vstack([x, x[:1]]), x[None], np.hstack([x, x[:, :1]]), x[:, :-1] if n > 1 else np.ones((P, 2))][k]}
        x = 0.5 * (lo + up)
        bad = [np.append(x, x[0]), x[:-1], 1.0, np.append(x, x).tolist(), np.tile(x, (2, 1)), np.tile(x, (3, 1))]
        if m in ("cmaes", "vdcma"):
            bad[5] = x[None]
        return {"x0": bad[k]} if not (m in ("mcmc", "hmc") and np.shape(bad[k])[:1] == (n,)) or n > 1 else None
    if arg == "method":
        return {"method": ["nelder-mead", m.upper(), ""][k]}
    if arg == "option":
        return {"no_such_option": 1}
    if arg in RANGES:
        a, b = RANGES[arg]
        return {arg: [a - 1e-9, b + 1e-9, -1.0, b + 3.0, NAN, -float("inf")][k]}
    if arg == "popsize":
        return {arg: [1, 0, -5][k], "x0": None}
    if arg in ("nrperc", "muperc"):
        return {arg: [0.0, -0.1, 1.0 + 1e-9, 7.0, NAN][k]}
    if arg == "sigma":
        return {arg: [0.0, -0.3][k]}
    if arg == "nleap":
        return {arg: [0, -2][k]}
    if arg == "updating":
        return {arg: ["sync", "", None, "Immediate"][k]}
    if arg == "strategy":
        return {arg: ["best3bin", "rand1exp", "", None][k]}
    if arg == "constraints":
        return {arg: ["none", "Reject", "" if m != "x" else None,
                      {"de": "Shrink", "pso": "Penalize", "cpso": "Random", "cmaes": "Shrink", "vdcma": "Random"}[m]][k]}
    if arg == "backend":
        return {arg: ["multiprocess", "Threading", "MPI"][k], "workers": 2}
    if arg == "stepsize":
        return {arg: [[0.1] * (n + 1), [], np.full(n + 2, 0.1)][k]}
    raise KeyError(arg)


def run_case(case, obs):
    base = copy.deepcopy(case)
    if "edge" in case:
        arg, v = case["edge"]
        if arg == "x0":
            base["x0"] = v
        else:
            if arg == "popsize" or arg == "strategy":
                base["x0"] = None
            base["options"][arg] = v
            if arg == "strategy":
                base["options"]["popsize"] = configs.STRATEGY_MIN[v]
        t = trace.run(base, front="minimize" if case["front"] else "direct")
        obs.count("accepted")
        obs.count("kinds")
        obs.nontrivial = len(t.V) > 0 and t.rx["nit"] >= 1
        return
    arg, k = case["bad"]
    kw = invalid(case, arg, k)
    if kw is None:
        return
    if kw.get("workers"):
        pass
    calls = []
    rec = trace.Recorder(base)

    def fun(x, *a):
        calls.append("objective")
        return rec(x, *a)

    def callback(X, s):
        calls.append("callback")

    o = trace.build_options(base)
    if base.get("jac"):
        g = trace.Gradient(base["objective"])

        def jac(x, *a):
            calls.append("jac")
            return g(x)

        o["jac"] = jac
    c = dict(fun=fun, bounds=base["bounds"], x0=trace.build_x0(base), callback=callback)
    method = base["method"]
    front = case["front"]
    for name, v in kw.items():
        if name == "method":
            method, front = v, True
        elif name in c:
            c[name] = v
        else:
            o[name] = v
    args = tuple(base.get("args", ()))
    obs.count("kinds")
    try:
        if front:
            f = trace.minimize if base["kind"] == "opt" else trace.sample
            r = f(c["fun"], c["bounds"], x0=c["x0"], args=args, method=method, options=o, callback=c["callback"])
        else:
            mod = trace.stochopy.optimize if base["kind"] == "opt" else trace.stochopy.sample
            r = getattr(mod, method)(c["fun"], c["bounds"], x0=c["x0"], args=args, callback=c["callback"], **o)
    except Exception as e:
        if calls:
            obs.violation("an invalid %s was rejected only after user code ran" % arg, value=repr(kw), method=base["method"], calls=calls[:5],
                          error=repr(e)[:200])
            return
        obs.count("rejected")
        obs.nontrivial = True
        return
    obs.violation("an invalid %s was accepted" % arg, value=repr(kw), method=base["method"], calls=len(calls), nit=r.get("nit"))
