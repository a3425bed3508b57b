"""C01 - returned and intermediate solutions are real evaluations with their real values."""
import numpy as np

from .. import configs, trace

LEVEL = "exploration"
RULE = ("random optimizer runs (6 methods x objective families incl. ties, integer-valued, +inf, constant, hashed x "
        "constraints x updating x x0 x maxiter 1..30); non-trivial: at least one reported (x, fun) pair was looked up in the "
        "log of objective calls; distinct: by configuration")
MINIMA = {"pairs": 500, "penalized_boundary_pairs": 20}


def cases(ctx):
    out = []
    for i in range(ctx.n(2700, 15000)):
        rng = ctx.rng(i)
        out.append(configs.gen_opt(rng, popmax=12 if i % 5 else 40))
    return out


def check_pair(obs, cfg, t, x, f, neval, where):
    lo, up = trace.lo_up(cfg)
    x = np.asarray(x, dtype=float)
    if not obs.require(x.shape == lo.shape, "reported x has wrong shape", where=where, shape=x.shape):
        return
    if not obs.require(np.ndim(f) == 0, "reported fun is not a scalar", where=where):
        return
    X, V = t.X[:neval], t.V[:neval]
    obs.count("pairs")
    near = (X == x).all(axis=1)
    if not obs.require(near.any(), "reported solution was never evaluated", where=where, x=x, fun=f):
        return
    vals = V[near]
    if (vals == f).any():
        return
    if trace.penalized(cfg):
        tol = 1e-9 * (up - lo)
        on_bound = (x <= lo + tol) | (x >= up - tol)
        if on_bound.any():
            obs.count("penalized_boundary_pairs")
            obs.require(
                bool((f >= vals - 1e-12 * np.abs(vals)).any()),
                "penalized value is below the objective's own value", where=where, x=x, fun=f, values=vals)
            return
    obs.violation("reported value is not what the objective returned there", where=where, x=x, fun=f, values=vals[:3])


def run_case(case, obs):
    t = trace.run(case)
    good = trace.overflowed(t)  # unconstrained swarms may diverge beyond the floats
    for k, c in enumerate(t.cb):
        if c["neval"] > good:
            obs.count("overflowed")
            return
        check_pair(obs, case, t, c["state"]["x"], c["state"]["fun"], c["neval"], "callback %d" % k)
    if good < len(t.V):
        return
    check_pair(obs, case, t, t.rx["x"], t.rx["fun"], len(t.V), "result")
    # The result must describe the same solution without an observer too.
    t2 = trace.run(case, callback=False)
    check_pair(obs, case, t2, t2.rx["x"], t2.rx["fun"], len(t2.V), "result without callback")
    obs.nontrivial = obs.n["pairs"] > 0
