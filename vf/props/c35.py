"""C35 - variables fixed by equal bounds stay at their value."""
import numpy as np

from .. import configs, trace

LEVEL = "exploration"
RULE = ("runs of every method whose bounds are equal for one, several or all variables (values of many magnitudes, zero included), with and without x0, "
        "constraints, threads; every evaluated point, callback population, state, history and result is watched; non-trivial: fixed coordinates were seen")
MINIMA = {"runs": 1200, "all_fixed": 120, "with_x0": 350, "fixed_coordinates": 100000, "restarted": 10}


def cases(ctx):
    out = []
    for i in range(ctx.n(4000, 20000)):
        rng = ctx.rng(i)
        m = (configs.OPTIMIZERS + ["mcmc", "hmc"])[i % 8]
        n = int(rng.choice([1, 2, 3, 4, 7, 12]))
        b = configs.random_bounds(rng, n)
        k = int(rng.choice([1, 1, (n + 1) // 2, n])) if n > 1 else 1
        for j in rng.permutation(n)[:k]:
            v = float(rng.choice([0.0, 0.0, 1.0, -2.5, 0.1, -1e-7, 123456.789, -1e9, rng.uniform(-3, 3)]))
            b[j] = [v, v]
        if m in ("mcmc", "hmc"):
            cfg = configs.gen_smp(rng, method=m, bounds=b, ndim=n)
        else:
            kw = {}
            if m == "cpso" and rng.rand() < 0.5:
                kw = {"maxiter": 40, "kinds": ["sphere", "abs"], "ftol": configs.NO_FTOL}
            cfg = configs.gen_opt(rng, method=m, bounds=b, ndim=n, **kw)
            if kw:
                cfg["options"].update(inertia=0.4, cognitivity=1.0, sociability=1.5, competitivity=1.0)
            if i // 8 % 20 == 3:
                cfg["options"].update(workers=2, backend="threading")
        out.append({"cfg": cfg})
    return out


def run_case(case, obs):
    cfg = case["cfg"]
    t = trace.run(cfg)
    b = np.array(cfg["bounds"], dtype=float)
    fx = b[:, 0] == b[:, 1]
    v = b[fx, 0]
    obs.count("runs")
    obs.count("all_fixed", fx.all())
    obs.count("with_x0", cfg["x0"] is not None)
    end = trace.overflowed(t)
    pieces = []
    if cfg["method"] != "hmc":
        pieces.append(("evaluated points", t.X[:end]))
    elif t.jac is not None:
        pieces.append(("gradient points", np.array([j[1] for j in t.jac]) if t.jac else np.empty((0, len(b)))))
    if end == len(t.V):
        for c in t.cb:
            pieces.append(("callback population", c["X"]))
            pieces.append(("state's x", c["state"]["x"]))
        pieces.append(("solution", t.rx["x"]))
        if "xall" in t.rx:
            pieces.append(("history", t.rx["xall"].reshape(-1, len(b))))
        if cfg["kind"] == "opt" and t.cb and "xall" in t.cb[-1]["state"]:
            pieces.append(("history of a state", t.cb[-1]["state"]["xall"].reshape(-1, len(b))))
    else:
        obs.count("overflowed")
    for what, P in pieces:
        P = np.atleast_2d(P)
        obs.count("fixed_coordinates", P.shape[0] * int(fx.sum()))
        bad = ~(P[:, fx] == v)
        if bad.any():
            k, j = np.argwhere(bad)[0]
            obs.violation("a fixed variable moved", where=what, value=float(P[k, np.flatnonzero(fx)[j]]), fixed_at=float(v[j]), method=cfg["method"],
                          options=cfg["options"], x0=cfg["x0"] is not None)
            return
        if not np.isfinite(P).all():
            obs.violation("a fixed variable made others not finite", where=what, method=cfg["method"], options=cfg["options"])
            return
    if cfg["method"] == "cpso":
        P = cfg["options"]["popsize"]
        free = ~fx
        if free.any() and len(t.X) >= 3 * P and end == len(t.V):
            X = t.X.reshape(-1, P, len(b))[:, :, free] / (b[free, 1] - b[free, 0])
            jump = np.abs(np.diff(X, axis=0)).max(axis=2)
            obs.count("restarted", bool((jump[len(jump) // 2:] > 0.2).any()))
    obs.nontrivial = bool(fx.any())
