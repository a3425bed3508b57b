"""C23 - mcmc and hmc leave the target distribution invariant."""
import numpy as np

import stochopy

from .. import stats

LEVEL = "exploration"
RULE = ("batches of chains of the real samplers, each started from an exact draw of its target (normal, correlated normal, Laplace, bimodal, "
        "box-restricted linear/normal/plateau/constant targets); bounded statistics of the sample delivered after several numbers of iterations "
        "are compared with those of the chain's own exact start (paired z-tests, per batch and pooled by target); non-trivial: the "
        "chains of the batch moved")
MINIMA = {"chains": 100000, "moved": 100000, "stat_tests": 500}
ASSUMPTIONS = ["a violation is a |z| above 6.5, which exact invariance produces with probability below 1e-10 per test"]

TARGETS = ["normal", "correlated", "laplace", "bimodal", "box-linear", "box-normal", "box-constant", "box-plateau"]


def cases(ctx):
    out = []
    for i in range(ctx.n(192, 1600)):
        rng = ctx.rng(i)
        method = ["mcmc", "hmc"][i % 2]
        kind = TARGETS[(i // 2) % len(TARGETS)]
        n = int(rng.choice([1, 2, 3, 5])) if kind != "correlated" else int(rng.choice([2, 3, 4]))
        case = {"method": method, "target": kind, "ndim": n, "seed": int(rng.randint(2**31 - 1)), "chains": 900,
                "maxiter": int(rng.choice([2, 3, 5, 9, 16])), "seeded": bool(rng.rand() < 0.3), "ints": bool(rng.rand() < 0.3),
                "step": float(10.0 ** rng.uniform(-0.5, 0.6)), "array": bool(rng.rand() < 0.5)}
        if method == "mcmc":
            case["perc"] = float(rng.choice([0.0, 0.5, 1.0, rng.uniform()]))
        else:
            case["nleap"] = int(rng.choice([1, 2, 4]))
            # any gradient leaves the target invariant
            case["grad"] = str(rng.choice(["fd", "exact", "wrong"])) if kind not in ("box-plateau", "box-constant") else "fd"
        out.append(case)
    return out


class Target:
    """Density exp(-f) with an exact sampler; scale-free coordinates u = (x - c) / s."""

    def __init__(self, case, rng):
        self.kind = k = case["target"]
        n = case["ndim"]
        self.n = n
        self.s = 10.0 ** rng.uniform(-1.0, 1.0, n)
        self.c = rng.uniform(-3.0, 3.0, n) * self.s
        self.box = k.startswith("box")
        if self.box:
            w = rng.uniform(0.3, 1.5, (2, n)) if k != "box-linear" else rng.uniform(0.5, 2.5, (2, n))
            self.lo, self.up = self.c - w[0] * self.s, self.c + w[1] * self.s
            if case["ints"]:
                self.lo, self.up = np.floor(self.lo), np.ceil(self.up)
        else:
            self.lo, self.up = self.c - 4.0 * self.s, self.c + 4.0 * self.s
        if k == "correlated":
            A = rng.randn(n, n)
            C = np.dot(A, A.T) + 0.1 * np.eye(n)
            d = np.sqrt(np.diag(C))
            self.C = C / np.outer(d, d)
            self.L = np.linalg.cholesky(self.C)
            self.P = np.linalg.inv(self.C)

    def f(self, x):
        u = (x - self.c) / self.s
        k = self.kind
        if k in ("normal", "box-normal"):
            return 0.5 * float(np.dot(u, u))
        if k == "correlated":
            return 0.5 * float(np.dot(u, np.dot(self.P, u)))
        if k == "laplace":
            return float(np.abs(u).sum())
        if k == "bimodal":
            return float(-np.logaddexp(np.log(0.3) - 0.5 * (u + 1.5) ** 2, np.log(0.7) - 0.5 * (u - 1.0) ** 2).sum())
        if k == "box-linear":
            return float(u.sum())
        if k == "box-plateau":
            return 0.7 * float((np.floor(2.0 * u) % 2).sum())
        return 0.0

    def grad(self, x):
        u = (x - self.c) / self.s
        k = self.kind
        if k in ("normal", "box-normal"):
            g = u
        elif k == "correlated":
            g = np.dot(self.P, u)
        elif k == "laplace":
            g = np.sign(u)
        elif k == "bimodal":
            a, b = 0.3 * np.exp(-0.5 * (u + 1.5) ** 2), 0.7 * np.exp(-0.5 * (u - 1.0) ** 2)
            g = (a * (u + 1.5) + b * (u - 1.0)) / (a + b + 1e-300)
        else:
            g = np.ones_like(u)
        return g / self.s

    def draw(self, rng, N):
        k, n = self.kind, self.n
        if k == "normal":
            u = rng.randn(N, n)
        elif k == "correlated":
            u = np.dot(rng.randn(N, n), self.L.T)
        elif k == "laplace":
            u = rng.exponential(size=(N, n)) * rng.choice([-1.0, 1.0], (N, n))
        elif k == "bimodal":
            u = rng.randn(N, n) + np.where(rng.rand(N, n) < 0.3, -1.5, 1.0)
        else:
            a, b = (self.lo - self.c) / self.s, (self.up - self.c) / self.s
            u = np.empty((N, n))
            for j in range(n):
                if k == "box-linear":
                    p = rng.rand(N)
                    u[:, j] = a[j] - np.log1p(-p * (1.0 - np.exp(a[j] - b[j])))
                else:  # rejection: all other densities are at most 1 (relative)
                    todo = np.arange(N)
                    while len(todo):
                        v = rng.uniform(a[j], b[j], len(todo))
                        if k == "box-normal":
                            p = np.exp(-0.5 * v * v)
                        elif k == "box-plateau":
                            p = np.exp(-0.7 * (np.floor(2.0 * v) % 2))
                        else:
                            p = np.ones(len(todo))
                        ok = rng.rand(len(todo)) < p
                        u[todo[ok], j] = v[ok]
                        todo = todo[~ok]
        x = self.c + self.s * u
        return np.clip(x, self.lo, self.up) if self.box else x

    def statistics(self, X):
        """Bounded statistics, one row per chain; columns named."""
        U = (X - self.c) / self.s
        T = {"location": np.clip(U, -4, 4), "spread": np.clip(U**2, 0, 12), "right": U > 0.5, "centre": np.abs(U) < 0.6,
             "quarter": (U > -0.7) & (U < 0.1)}
        if self.box:
            V = (X - self.lo) / (self.up - self.lo)
            T.update({"low edge": V < 0.1, "high edge": V > 0.9, "middle": np.abs(V - 0.5) < 0.2})
        out = {k: v.astype(float).sum(axis=1) for k, v in T.items()}
        if self.n > 1:
            out["product"] = np.clip(U[:, 1:] * U[:, :-1], -8, 8).sum(axis=1)
            out["corner"] = (U > 0.3).all(axis=1).astype(float)
        out["value"] = np.clip([self.f(x) for x in X], -10.0, 10.0 * self.n)
        return out


def run_case(case, obs):
    rng = np.random.RandomState(case["seed"])
    t = Target(case, rng)
    n, N, M = t.n, case["chains"], case["maxiter"]
    half = 0.5 * (t.up - t.lo)
    width = np.minimum(t.s, t.up - t.lo)
    base = case["step"] * width / half * (0.35 if case["method"] == "hmc" else 1.0)
    opts = {"maxiter": M, "stepsize": base if case["array"] else float(base.min())}
    if t.box:
        opts["constraints"] = "Reject"
    bounds = np.transpose([t.lo, t.up])
    if t.box and case["ints"]:
        bounds = bounds.astype(int)
    if case["method"] == "mcmc":
        opts["perc"] = case["perc"]
    else:
        opts["nleap"] = case["nleap"]
        if case["grad"] == "fd":
            opts["finite_diff_abs_step"] = float(1e-4 * width.min())
        else:
            z = 1.0 if case["grad"] == "exact" else rng.choice([-0.5, 0.5, 1.4])
            opts["jac"] = lambda x: z * t.grad(x)
    fun = getattr(stochopy.sample, case["method"])
    X0 = t.draw(rng, N)
    Y = np.empty((N, M, n))
    np.random.seed(case["seed"] ^ 0x5F)
    for i in range(N):
        if case["seeded"]:
            opts["seed"] = int(rng.randint(2**31 - 1))
        Y[i] = fun(t.f, bounds, x0=X0[i], **opts).xall
    if not (Y[:, 0] == X0).all():
        obs.violation("the chain does not start at x0")
        return
    obs.count("chains", N)
    moved = (Y[:, 1:] != Y[:, :-1]).any(axis=2).sum()
    obs.count("moved", moved)
    obs.nontrivial = bool(moved > N // 20)
    if t.box and ((Y < t.lo) | (Y > t.up)).any():
        obs.violation("a sample left the bounds")
        return
    S0 = t.statistics(X0)
    for k in sorted({1, 2, M // 2, M - 1} - {0}):
        if k >= M:
            continue
        S = t.statistics(Y[:, k])
        for name in S0:
            D = S[name] - S0[name]
            v = float((D * D).sum())
            nz = int((D != 0).sum())
            if nz >= 150:
                z = D.sum() / np.sqrt(v)
                obs.count("stat_tests")
                if not abs(z) <= stats.Z:
                    obs.violation("samples are not distributed like the target: %s after %d iterations, z = %.1f" % (name, k, z),
                                  mechanism="stat:" + case["method"], statistic=name)
            if k == M - 1:
                for key in ("%s|%s|%s" % (case["method"], case["target"], name), "%s|%s" % (case["method"], name)):
                    sc = 1.0 / np.sqrt(np.mean(S0[name] ** 2) + 1e-12)
                    obs.sample("s|" + key, [D.sum() * sc])
                    obs.sample("v|" + key, [v * sc * sc])


def finish(ctx, data, total, obs):
    for key in sorted(data):
        if key.startswith("s|"):
            v = sum(data["v" + key[1:]])
            if v > 0:
                stats.check(obs, sum(data[key]) / np.sqrt(v), "samples are distributed like the target", key[2:])
