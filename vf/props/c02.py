"""C02 - best-so-far is never lost (PSO, CPSO, DE, NA); CMA-ES and VD-CMA report the best of their last generation."""
import numpy as np

from .. import configs, trace

LEVEL = "exploration"
RULE = ("random optimizer runs over objective families with ties, plateaus, +inf regions and hostile (hashed) values; "
        "the running minimum over the log of objective calls is compared with every reported value; non-trivial: >= 2 "
        "generations were observed")
MINIMA = {"states": 1000, "improvements": 200, "cpso_generations": 500}


def cases(ctx):
    out = []
    for i in range(ctx.n(3000, 16000)):
        rng = ctx.rng(i)
        m = None
        kw = {}
        if i % 3 == 0:  # CPSO with swarms that collapse, so that restarts happen
            m = "cpso"
            kw = dict(kinds=["hash", "sphere", "abs", "barrier", "plateau", "integer"], ftol=configs.NO_FTOL)
        cfg = configs.gen_opt(rng, method=m, popmax=12 if i % 4 else 40, **kw)
        if i % 6 == 0:
            cfg["options"].update(maxiter=int(rng.choice([30, 60])), competitivity=float(rng.choice([1.0, 2.0, 1.5])))
            if rng.rand() < 0.6:  # small boxes: swarm radius always under the restart threshold
                lo = np.array(cfg["bounds"], dtype=float)[:, 0]
                scale = rng.choice([0.05, 0.3])
                cfg = rebox(rng, cfg, [[float(l), float(l + scale)] for l in lo])
        out.append(cfg)
    return out


def rebox(rng, cfg, bounds):
    from ..objectives import random_spec
    cfg["bounds"] = bounds
    cfg["objective"] = random_spec(rng, bounds, kinds=[cfg["objective"]["kind"]])
    if cfg["x0"] is not None:
        cfg["x0"] = configs.feasible_x0(rng, cfg)
    return cfg


def run_case(case, obs):
    t = trace.run(case)
    if trace.overflowed(t) < len(t.V):  # an unconstrained swarm diverged beyond the floats
        obs.count("overflowed")
        return
    V = t.V
    P = case["options"]["popsize"]
    res = t.rx
    if case["method"] in configs.POPULATION:
        best = np.minimum.accumulate(V)
        prev = np.inf
        for k, c in enumerate(t.cb):
            f = c["state"]["fun"]
            obs.count("states")
            if case["method"] == "cpso":
                obs.count("cpso_generations")
            obs.require(f == best[c["neval"] - 1], "intermediate best is not the minimum over all evaluations so far",
                        k=k, fun=f, best=best[c["neval"] - 1])
            obs.require(f <= prev, "best value got worse from one iteration to the next", k=k, fun=f, prev=prev)
            if f < prev:
                obs.count("improvements")
            prev = f
        obs.require(res["fun"] == best[-1], "final value is not the minimum over all evaluations",
                    fun=res["fun"], best=best[-1])
        i = np.flatnonzero(V == res["fun"])
        lo, up = trace.lo_up(case)
        obs.require(any(trace.close_x(t.X[j], res["x"], lo, up) for j in i),
                    "final solution is not a minimizer among the evaluations", x=res["x"])
    else:
        last = V[-P:]
        obs.count("states")
        if trace.penalized(case):
            obs.require(res["fun"] >= last.min() - 1e-12 * abs(last.min()), "final value below the best of the last generation")
            if case["options"].get("return_all") and case["options"]["verbosity"] in (0.0, 1.0):
                obs.require(res["fun"] == np.min(res["funall"][-1]), "final value is not the best of the last generation",
                            fun=res["fun"], last=res["funall"][-1])
        else:
            obs.require(res["fun"] == last.min(), "final value is not the best of the last generation",
                        fun=res["fun"], best=last.min())
            for k, c in enumerate(t.cb):
                g = V[c["neval"] - P:c["neval"]]
                obs.count("states")
                obs.require(c["state"]["fun"] == g.min(), "intermediate value is not the best of its generation", k=k)
    if t.cb:
        s = t.cb[-1]["state"]
        obs.require(trace.same(s["x"], res["x"]) and s["fun"] == res["fun"], "last state and result disagree")
    obs.nontrivial = len(V) >= 2 * P
