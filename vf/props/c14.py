"""C14 - swarm moves obey the PSO velocity law (also the velocity scaling of 'Shrink')."""
import numpy as np

from .. import configs, stats, trace
from ..replay import generations

LEVEL = "exploration"
RULE = ("serial PSO runs (and CPSO with competitivity 0/None), both updatings, with and without 'Shrink'; each move is tested against the "
        "componentwise envelope of the law given the replayed personal and global bests; r1/r2 recovered where identifiable are pooled; "
        "non-trivial: a move was tested")
MINIMA = {"moves": 20000, "shrunk": 1500, "immediate_moves": 5000, "r1": 3000, "r2": 3000}


def cases(ctx):
    out = []
    for i in range(ctx.n(2700, 10800)):
        rng = ctx.rng(i)
        m = "pso" if i % 4 else "cpso"
        cfg = configs.gen_opt(rng, method=m, popmax=10, ndim=int(rng.choice([1, 2, 3, 5, 9] if i % 16 != 6 else [24, 70, 150])), constrained=bool(i % 2),
                              kinds=["sphere", "ellipsoid", "rastrigin", "abs", "hash", "hash", "linear"], ftol=configs.NO_FTOL,
                              maxiter=int(rng.choice([2, 3, 5, 10, 25])), fixed=False, offset=0.0)
        cfg["args"] = cfg["args"] if i % 3 == 0 else []
        o = cfg["options"]
        if m == "cpso":
            o["competitivity"] = 0.0 if i % 8 else None
        k = (i // 2) % 5
        if k == 0:
            o["cognitivity"] = 0.0
        elif k == 1:
            o.update(cognitivity=4.0, sociability=0.08, inertia=float(rng.choice([0.8, 0.95])), maxiter=60)
        elif k == 2:
            o.update(cognitivity=1.49618, sociability=1.49618, inertia=0.7298)
        if i % 32 == 13:
            o["popsize"] = int(rng.choice([60, 150, 300]))
            o["maxiter"] = int(rng.choice([3, 8]))
        elif i % 100 == 51:
            o["maxiter"] = int(rng.choice([200, 600]))
        if cfg["x0"] is not None and len(cfg["x0"]) != o["popsize"]:
            cfg["x0"] = configs.feasible_x0(rng, cfg)
        out.append(cfg)
    return out


class Swarm:
    """Personal and global bests replayed from evaluations."""

    def __init__(self, X, V):
        self.pb, self.pf = X.copy(), V.copy()
        i = int(np.argmin(V))
        self.gb, self.gf = X[i].copy(), V[i]
        self.tied = bool(((V == V[i]) & (X != X[i]).any(axis=1)).any())  # equally good positions: which one is remembered is not specified

    def offer(self, i, x, v, glob=True):
        if v == self.pf[i] and (x != self.pb[i]).any() or v == self.gf and (x != self.gb).any():
            self.tied = True
        if v <= self.pf[i]:
            self.pb[i], self.pf[i] = x, v
            if glob and v <= self.gf:
                self.gb, self.gf = x.copy(), v

    def settle(self):
        i = int(np.argmin(self.pf))
        if self.pf[i] <= self.gf:
            self.gb, self.gf = self.pb[i].copy(), self.pf[i]


def envelope(x, prev, pb, gb, w, c1, c2):
    a, b = c1 * (pb - x), c2 * (gb - x)
    base = w * prev
    return base + np.minimum(0, a) + np.minimum(0, b), base + np.maximum(0, a) + np.maximum(0, b)


def judge(x, new, e1, e2, tol, lo=None, up=None):
    """Is the move from x to `new` allowed? Returns (ok, shrunk)."""
    d = new - x
    if ((d >= e1 - tol) & (d <= e2 + tol)).all():
        return True, False
    if lo is None:
        return False, False
    # a common factor beta in [0, 1] with beta*e1 - tol <= d <= beta*e2 + tol
    bmin, bmax = 0.0, 1.0
    for dj, l, h, tj in zip(d, e1, e2, tol):
        # beta * l <= dj + tj
        r = dj + tj
        if l > 0:
            bmax = min(bmax, r / l)
        elif l < 0:
            bmin = max(bmin, r / l) if r < 0 else bmin
        elif r < 0:
            return False, True
        # beta * h >= dj - tj
        r = dj - tj
        if h > 0:
            bmin = max(bmin, r / h) if r > 0 else bmin
        elif h < 0:
            bmax = min(bmax, r / h)
        elif r > 0:
            return False, True
    if not bmin <= bmax * (1 + 1e-9) + 1e-300:
        return False, True
    at_bound = ((new <= lo + tol) | (new >= up - tol)).any()
    return bool(at_bound), True


def tolerance(case, G):
    lo, up = trace.lo_up(case)
    mag = np.maximum(np.maximum(np.abs(lo), np.abs(up)), np.abs(G).max(axis=(0, 1)))
    return 400.0 * np.finfo(float).eps * mag


def run_case(case, obs):
    t = trace.run(case)
    o = case["options"]
    P = o["popsize"]
    w, c1, c2 = o["inertia"], o["cognitivity"], o["sociability"]
    sync = o["updating"] == "deferred"
    shrink = o.get("constraints") == "Shrink"
    lo, up = trace.lo_up(case)
    G, V = generations(case, t)
    if not np.isfinite(G).all() or np.abs(G).max() > 1e100:
        return
    tol = tolerance(case, G)
    S = Swarm(G[0], V[0])
    last = {}
    for g in range(1, len(G)):
        pb0, gb0 = S.pb.copy(), S.gb.copy()
        for i in range(P):
            x, new = G[g - 1, i], G[g, i]
            prev = G[g - 1, i] - G[g - 2, i] if g >= 2 else np.zeros(len(x))
            pb, gb = (pb0[i], gb0) if sync else (S.pb[i], S.gb)
            e1, e2 = envelope(x, prev, pb, gb, w, c1, c2)
            # a move is what remains after round-off at the bounds
            ok, shrunk = judge(x, new, e1, e2, tol, lo if shrink else None, up)
            if S.tied:
                obs.count("tied")
                return
            obs.count("moves")
            obs.count("immediate_moves", not sync)
            obs.count("shrunk", shrunk)
            if not ok:
                obs.violation("move is not inertia plus attractions to own and global best", generation=g, member=i,
                              x=x, new=new, low=x + e1, high=x + e2, previous_move=prev, own=pb, best=gb,
                              updating=o["updating"], shrink=shrink, options=o)
                return
            if not shrink:
                pool(obs, x, new, prev, pb, gb, w, c1, c2, tol, last, i)
            if not sync:
                S.offer(i, new, V[g, i])
        if sync:
            for i in range(P):
                S.offer(i, G[g, i], V[g, i], glob=False)
            S.settle()
    obs.nontrivial = len(G) > 1


def pool(obs, x, new, prev, pb, gb, w, c1, c2, tol, last, i):
    d = new - x - w * prev
    a, b = c1 * (pb - x), c2 * (gb - x)
    big = 1e5 * tol
    for name, u, v in (("r1", a, b), ("r2", b, a)):
        good = (np.abs(u) > big) & (np.abs(v) < 0.02 * np.abs(u))
        if good.any():
            r = (d[good] - 0.5 * v[good]) / u[good]
            obs.count(name, len(r))
            obs.sample(name, r)
            if good.all() and len(r) > 1:
                obs.sample(name + " across coordinates", (r[1:] - 0.5) * (r[:-1] - 0.5))
            if good.all():
                j = last.get(name)
                if j is not None and len(j) == len(r):
                    obs.sample(name + " across moves", (r - 0.5) * (j - 0.5))
                last[name] = r
    both = (np.abs(a) > big) & (np.abs(b) > big)
    if both.any():
        e = (a**2 + b**2)[both]
        s = 12.0 * (d - 0.5 * (a + b))[both] ** 2
        obs.sample("r1 with r2", (s / e - 1.0) * np.sign(a * b)[both])
        obs.sample("spread", s / e - 1.0)
        q = ((d - 0.5 * (a + b))[both]) / np.sqrt(e / 12.0)
        obs.sample("mean", q)
        if len(q) > 1:
            obs.sample("coordinates", q[1:] * q[:-1])


def finish(ctx, data, total, obs):
    for name in ("r1", "r2"):
        z, what = stats.uniform(data.get(name, []))
        stats.check(obs, z, name + " uniform in [0, 1]", what)
        for k in (" across coordinates", " across moves"):
            v = data.get(name + k, [])
            if len(v) > 300:
                stats.check(obs, stats.z_mean(v, 0.0, 1.0 / 144.0), name + " independent" + k)
    for key, what in (("r1 with r2", "r1 independent of r2"), ("spread", "spread of r1 and r2"), ("mean", "mean of r1 and r2"),
                      ("coordinates", "draws independent across coordinates")):
        v = np.array(data.get(key, []))
        if len(v) > 1000:
            stats.check(obs, v.mean() / np.sqrt(v.var() / len(v)), what)
