"""C15 - CPSO restarts exactly the worst particles, exactly when the swarm has collapsed."""
import math

import numpy as np

from .. import configs, stats, trace
from ..replay import generations
from .c14 import Swarm, envelope, judge, tolerance

LEVEL = "exploration"
RULE = ("serial CPSO runs in boxes around the collapse threshold or from clustered x0: 'still' runs (sociability 0) where only restarted "
        "particles move, so the restarted set is observed exactly, and 'moving' runs (small sociability) where all others must obey the "
        "velocity law; non-trivial: a restart decision was due")
MINIMA = {"decisions": 4000, "restarts": 800, "restarted": 3000, "withheld": 800, "moving_restarts": 300, "zero_expected": 100, "ties_judged": 20}


def cases(ctx):
    out = []
    for i in range(ctx.n(1800, 9000)):
        rng = ctx.rng(i)
        n = int(rng.choice([1, 2, 3, 5, 8] if i % 16 != 6 else [20, 60]))
        moving = i % 3 == 2
        P = int(rng.randint(2, 26)) if i % 7 else int(rng.randint(40, 90))
        maxiter = int(rng.choice([6, 12, 25, 40])) if i % 9 else int(rng.choice([150, 400, 800, 2500]))
        if maxiter > 100:
            P = min(P, 10 if maxiter < 500 else 5)
        delta = math.log(1 + 0.003 * P) / max(0.2, math.log(0.01 * maxiter))
        mode = rng.choice(["straddle", "small", "cluster", "large"], p=[0.55, 0.2, 0.2, 0.05])
        h = {"straddle": 3.0 * delta * rng.uniform(0.6, 1.5), "small": delta * rng.uniform(0.1, 1.0), "cluster": rng.uniform(2.0, 20.0) * delta,
             "large": rng.uniform(10.0, 100.0) * delta}[str(mode)]
        lo = rng.uniform(-3.0, 3.0, n)
        wd = h * (rng.uniform(0.5, 1.5, n) if i % 2 else np.ones(n))
        bounds = [[float(a), float(a + b)] for a, b in zip(lo, wd)]
        cfg = configs.gen_opt(rng, method="cpso", bounds=bounds, ndim=n, maxiter=maxiter, constrained=bool(rng.rand() < 0.3) and not moving,
                              kinds=["sphere", "ellipsoid", "rastrigin", "abs", "hash"] + 3 * ["mixed"] * (not moving), ftol=configs.NO_FTOL, x0=False, offset=0.0)
        cfg["args"] = cfg["args"] if i % 3 == 0 else []
        o = cfg["options"]
        o["popsize"] = P
        o["competitivity"] = float(rng.choice([0.5, 1.0, 1.0, 1.5, 2.0, rng.uniform(0.3, 2.0)]))
        o["xtol"] = 0.0
        if moving:
            o.update(sociability=float(rng.choice([0.02, 0.1, 0.3])), cognitivity=float(rng.choice([0.0, 0.5, 1.49618])),
                     inertia=float(rng.choice([0.5, 0.9, 1.0])))
        else:
            o["sociability"] = 0.0
        if str(mode) == "cluster":
            c = lo + wd * rng.uniform(0.3, 0.7, n)
            r = delta * rng.uniform(0.05, 1.2)
            cfg["x0"] = np.clip(c + r * rng.uniform(-1, 1, (P, n)), lo, lo + wd).tolist()
        out.append(cfg)
    return out


def due(o, n, it, X, gbest):
    """(swarm is collapsed or None if round-off decides, number of particles to restart, could round-off make it one less)."""
    P = o["popsize"]
    delta = math.log(1.0 + 0.003 * P) / max(0.2, math.log(0.01 * o["maxiter"]))
    radius = max(math.sqrt(sum((a - b) ** 2 for a, b in zip(x, gbest))) for x in X) / math.sqrt(4.0 * n)
    v = (P - 1.0) / (1.0 + math.exp((it / o["maxiter"] - o["competitivity"] + 0.5) / 0.09))
    unsure = abs(v - round(v)) < 1e-9 and round(v) > 0
    nw = int(round(v)) if unsure else int(v)
    if abs(radius - delta) < 1e-9 * delta:
        return None, nw, unsure
    return radius < delta, nw, unsure


def run_case(case, obs):
    t = trace.run(case)
    o = case["options"]
    P, n = o["popsize"], len(case["bounds"])
    w, c1, c2 = o["inertia"], o["cognitivity"], o["sociability"]
    sync = o["updating"] == "deferred"
    shrink = o.get("constraints") == "Shrink"
    lo, up = trace.lo_up(case)
    G, V = generations(case, t)
    if not np.isfinite(G).all() or np.abs(G).max() > 1e100:
        return
    tol = tolerance(case, G)
    S = Swarm(G[0], V[0])
    zero = np.zeros((P, n))
    prev = (zero, zero)  # interval of the last velocity of each particle
    for g in range(1, len(G)):
        it = g  # number of the iteration that ended before these moves
        expected = np.zeros(P, dtype=bool)
        either = -1
        tie, free = np.zeros(P, dtype=bool), 0
        collapsed = False
        if it >= 2:
            obs.count("decisions")
            obs.nontrivial = True
            collapsed, nw, unsure = due(o, n, it, G[g - 1], S.gb)
            if collapsed is None:
                obs.count("on_the_threshold")
                return
            if collapsed and nw > 0:
                order = np.argsort(S.pf, kind="stable")
                m = S.pf[order[P - nw - 1:][: 3 if unsure else 2]]
                if len(set(m)) < len(m):
                    # several particles are equally bad: any of them, but as many as due
                    if unsure or c2 > 0.0:
                        obs.count("tied_memory")
                        return
                    obs.count("ties_judged")
                    tie = S.pf == S.pf[order[P - nw]]
                    free = nw - int((S.pf > S.pf[order[P - nw]]).sum())
                    expected[S.pf > S.pf[order[P - nw]]] = True
                else:
                    expected[order[P - nw:]] = True
                if unsure and c2 > 0.0:
                    obs.count("unsure_number")
                    return
                either = order[P - nw] if unsure else -1
                obs.count("restarts")
                obs.count("restarted", nw)
                obs.count("moving_restarts", c2 > 0)
            elif collapsed:
                obs.count("zero_expected")
            else:
                obs.count("withheld")
        pb0, gb0 = S.pb.copy(), S.gb.copy()
        nlo, nhi = np.zeros((P, n)), np.zeros((P, n))
        for i in range(P):
            x, new = G[g - 1, i], G[g, i]
            pb, gb = (pb0[i], gb0) if sync else (S.pb[i], S.gb)
            e1, _ = envelope(x, prev[0][i], pb, gb, w, c1, c2)
            _, e2 = envelope(x, prev[1][i], pb, gb, w, c1, c2)
            obeys, _ = judge(x, new, e1, e2, tol, lo if shrink else None, up)
            info = dict(generation=g, member=i, x=x, new=new, low=x + e1, high=x + e2, collapsed=collapsed,
                        expected=np.flatnonzero(expected), memory=S.pf, options=o)
            if S.tied:
                obs.count("tied")
                return
            if i == either:
                obs.count("either")
                expected[i] = not obeys
            if tie[i] and not obeys:
                free -= 1
                if free < 0:
                    obs.violation("more particles were restarted than due among equally bad ones", **info)
                    return
                expected[i] = True
            if not expected[i]:
                if not obeys:
                    obs.violation("a particle was displaced that was not due for a restart" if it >= 2 else "a particle jumped in the first move",
                                  **info)
                    return
                nlo[i] = nhi[i] = new - x
            else:
                if c2 == 0.0:
                    if obeys:
                        obs.violation("a particle due for a restart was not reinitialized", **info)
                        return
                    if trace.outside(new, lo, up).any():
                        obs.violation("restarted outside the bounds", **info)
                        return
                    u = (new - lo) / (up - lo)
                    obs.sample("restart", u)
                    if n > 1:
                        obs.sample("coordinates", (u[1:] - 0.5) * (u[:-1] - 0.5) * 12.0)
                    if i and expected[i - 1]:
                        q = (G[g, i - 1] - lo) / (up - lo)
                        obs.sample("particles", (u - 0.5) * (q - 0.5) * 12.0)
                else:
                    p = float(np.prod(np.minimum(1.0, (e2 - e1 + 2 * tol) / ((1.0 - c2) * (up - lo)))))
                    obs.sample("stayed", [float(obeys) - p])
                    obs.sample("stayed_var", [p * (1 - p)])
                    # between a point of the box and the best position
                    a, b = np.minimum(lo, gb), np.maximum(up, gb)
                    if ((new < a - tol) | (new > b + tol)).any():
                        obs.violation("restarted particle outside the box spanned by the bounds and the best position", **info)
                        return
                    # new = y + v with v = c2 r (gb - y), so v is a share of what remains
                    r = c2 / (1.0 - c2) * (gb - new)
                    nlo[i], nhi[i] = np.minimum(0.0, r), np.maximum(0.0, r)
                S.pf[i] = np.inf
            if not sync:
                S.offer(i, new, V[g, i])
        if free > 0:
            obs.violation("fewer particles were restarted than due among equally bad ones", generation=g, missing=free, memory=S.pf, options=o)
            return
        prev = (nlo, nhi)
        if sync:
            for i in range(P):
                S.offer(i, G[g, i], V[g, i], glob=False)
            S.settle()


def finish(ctx, data, total, obs):
    z, what = stats.uniform(data.get("restart", []))
    stats.check(obs, z, "restart positions uniform in the bounds", what)
    for k in ("coordinates", "particles"):
        v = data.get(k, [])
        if len(v) > 300:
            stats.check(obs, stats.z_mean(v, 0.0, 1.0), "restart positions independent between " + k)
    v = sum(data.get("stayed_var", []))
    if v > 0:
        # one-sided: p bounds the chance that a restarted particle looks like a moved one
        stats.check(obs, max(0.0, sum(data["stayed"]) - 3.0) / math.sqrt(v + 1.0), "particles due for a restart are reinitialized")
