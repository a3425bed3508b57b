"""C09 - stored histories are exactly what happened."""
import numpy as np

from .. import configs, trace
from ..replay import Greedy, generations

LEVEL = "exploration"
RULE = ("random optimizer runs with return_all and verbosities incl. 0, 1 and fractions whose product with popsize is (not) integral; "
        "every xall/funall entry is compared with the evaluation log or the replayed greedy selection; non-trivial: >= 2 iterations")
MINIMA = {"rows": 10000, "de_rows": 1000, "best_rows": 300, "prefixes": 1000, "penalized_rows": 200, "without_history": 100}


def cases(ctx):
    out = []
    for i in range(ctx.n(2700, 10800)):
        rng = ctx.rng(i)
        cfg = configs.gen_opt(rng, popmax=12, maxiter=int(rng.choice([1, 2, 3, 5, 9, 20])))
        if i % 30 == 13:  # long runs that go on improving
            cfg = configs.gen_opt(rng, method="de" if rng.rand() < 0.3 else None, popmax=6, ndim=int(rng.choice([1, 2, 5, 10])), constrained=False, ftol=configs.NO_FTOL, kinds=["linear", "rosenbrock", "hash"],
                                  maxiter=int(rng.choice([260, 600, 1100, 2100], p=[.2, .3, .4, .1])), updating="immediate" if rng.rand() < 0.7 else None)
            if cfg["method"] == "na":
                cfg["options"]["maxiter"] = 260
            if cfg["method"] == "de":
                cfg["options"].update(mutation=float(rng.uniform(0.45, 0.6)), recombination=0.9)
        o = cfg["options"]
        if i % 8:
            o["return_all"] = True
            P = o["popsize"]
            o["verbosity"] = float(rng.choice([0.0, 1.0, 0.5, 1.0 / P, (P - 1.0) / P, 0.3, rng.uniform(0.01, 0.99), 1e-9]))
            if i % 30 == 13 and rng.rand() < 0.4:
                o["verbosity"] = 0.0
            if rng.rand() < 0.15:
                o.pop("verbosity")
        else:
            o.pop("return_all", None)
            if rng.rand() < 0.5:
                o["return_all"] = False
            o["verbosity"] = float(rng.choice([0.0, 1.0, 0.5]))
        out.append(cfg)
    return out


def run_case(case, obs):
    t = trace.run(case)
    o = case["options"]
    P, n = o["popsize"], len(case["bounds"])
    r = t.rx
    nit = r["nit"]
    if not o.get("return_all"):
        obs.count("without_history")
        for d in [r] + [c["state"] for c in t.cb]:
            obs.require("xall" not in d and "funall" not in d, "histories delivered without return_all")
        return
    v = o.get("verbosity", 1.0)
    nout = int(np.ceil(v * P))
    rows = max(1, nout)
    if not (obs.require("xall" in r and "funall" in r, "histories missing from the result")
            and obs.require(r["xall"].shape == (nit, rows, n) and r["funall"].shape == (nit, rows),
                            "histories have wrong shapes", xall=r["xall"].shape, funall=r["funall"].shape,
                            expected=(nit, rows, n), verbosity=v, popsize=P)):
        return
    G, V = generations(case, t)
    if not obs.require(len(G) == nit, "log and nit disagree"):
        return
    lo, up = trace.lo_up(case)
    de = case["method"] == "de"
    pen = trace.penalized(case)
    pop = Greedy(G[0], V[0]) if de else None
    tol = np.zeros(n)
    for g in range(nit):
        if de and g:
            for i in range(P):
                pop.offer(i, G[g, i], V[g, i])
        xa, fa = r["xall"][g], r["funall"][g]
        obs.count("rows", rows)
        obs.count("de_rows", rows * de)
        if nout == 0:
            obs.count("best_rows")
            if de:
                m = pop.V.min()
                obs.require(fa[0] == m, "stored value is not the best of the population", g=g, got=fa[0], best=m)
                obs.require(any(pop.holds(i, xa[0], tol) for i in range(P) if pop.V[i] == m),
                            "stored solution is not the best of the population", g=g, got=xa[0])
            elif pen:
                hit = [i for i in range(P) if (np.abs(G[g, i] - xa[0]) <= tol).all()]
                obs.require(hit and any(fa[0] >= V[g, i] - 1e-12 * abs(V[g, i]) for i in hit), "stored best is no evaluation of its iteration", g=g)
                obs.require(t.cb[g]["state"]["fun"] == fa[0], "stored best differs from the iteration's best", g=g)
                obs.count("penalized_rows")
            else:
                m = V[g].min()
                obs.require(fa[0] == m, "stored value is not the best of its iteration", g=g, got=fa[0], best=m)
                obs.require(any((np.abs(G[g, i] - xa[0]) <= tol).all() for i in range(P) if V[g, i] == m),
                            "stored solution is not the best of its iteration", g=g, got=xa[0])
        else:
            for i in range(nout):
                if de:
                    ok = pop.holds(i, xa[i], tol) and fa[i] == pop.V[i]
                elif pen:
                    near = (np.abs(G[g, i] - xa[i]) <= tol).all()
                    span = 1e-9 * (up - lo)
                    inside = ((G[g, i] > lo + span) & (G[g, i] < up - span)).all()
                    ok = near and (fa[i] == V[g, i] if inside else fa[i] >= V[g, i] - 1e-12 * abs(V[g, i]))
                    obs.count("penalized_rows")
                else:
                    ok = (np.abs(G[g, i] - xa[i]) <= tol).all() and fa[i] == V[g, i]
                if not ok:
                    obs.violation("stored row is not the member of its iteration", g=g, i=i, method=case["method"], x=xa[i],
                                  fun=fa[i], evaluated=G[g, i], value=V[g, i])
                    return
            if pen and nout == P:
                obs.require(t.cb[g]["state"]["fun"] == fa.min(), "reported best is not the best stored value", g=g)
    for c in t.cb:
        s = c["state"]
        k = s["nit"]
        obs.count("prefixes")
        if not obs.require("xall" in s and "funall" in s, "histories missing from a callback state", k=k):
            break
        if not obs.require(trace.same(s["xall"], r["xall"][:k]) and trace.same(s["funall"], r["funall"][:k]),
                           "history in the callback state is not the prefix of the final one", k=k):
            break
    # states kept by the caller stay as they were delivered
    if len(kept := keep(case)) and not obs.violations:
        for k, (before, s) in enumerate(kept):
            bad = trace.same_result(before, trace.snapshot_result(s))
            if bad:
                obs.violation("a state kept by the caller changed later", k=k, field=bad, method=case["method"])
                break
        obs.count("kept_states", len(kept))
    obs.nontrivial = nit >= 2


def keep(case):
    """States as delivered (snapshot taken in the callback) next to the live objects after the run."""
    from ..objectives import Objective
    kept = []
    trace.call(case, Objective(case["objective"]), case["bounds"], trace.build_x0(case), tuple(case["args"]),
               trace.build_options(case), lambda X, s: kept.append((trace.snapshot_result(s), s)))
    return kept
