"""C13 - every DE trial obeys the mutation, crossover and selection law."""
import itertools

import numpy as np

from .. import configs, stats, trace
from ..replay import Greedy, generations

LEVEL = "exploration"
RULE = ("serial DE runs of all strategies, both updatings, with and without 'Random'; each trial is explained by enumerating member tuples "
        "of the replayed population; crossover counts, member choices and redrawn components are pooled and z-tested; non-trivial: a "
        "trial was resolved")
MINIMA = {"trials": 8000, "unique": 3000, "immediate_trials": 3000, "resampled": 300, "wide": 200, "bases_in_crowds": 300}


def cases(ctx):
    out = []
    for i in range(ctx.n(4800, 16000)):
        rng = ctx.rng(i)
        cfg = configs.gen_opt(rng, method="de", popmax=8, ndim=int(rng.choice([1, 2, 3, 4, 6, 12] if i % 16 != 6 else [30, 70, 120, 300])), constrained=bool(i % 2),
                              kinds=["sphere", "ellipsoid", "rastrigin", "abs", "hash", "hash"], ftol=configs.NO_FTOL,
                              maxiter=int(rng.choice([2, 3, 5, 8, 12])), fixed=False, offset=0.0,
                              where=str(rng.choice(["in", "face", "out"])))
        o = cfg["options"]
        s = o["strategy"] = ["rand1bin", "rand2bin", "best1bin", "best2bin"][(i // 2) % 4]
        o["popsize"] = int(rng.randint(configs.STRATEGY_MIN[s], 8))
        if i % 10 == 7 and s in ("rand1bin", "best1bin"):
            o["popsize"] = int(rng.randint(12, 18))
        if i % 16 == 6:
            o["recombination"] = float(rng.choice([0.0, 0.01, 0.1, 0.9]))
        if i % 3:
            o["mutation"] = float(rng.choice([0.3, 0.5, 0.9, 1.5, 2.0]))
        if i % 20 == 9:  # large populations, where the mutants can still be enumerated
            s = o["strategy"] = ["rand1bin", "best1bin", "rand2bin", "best2bin"][(i // 20) % 4]
            o["popsize"] = int(rng.randint(18, [24, 45, 60, 60][(i // 20) % 4]))
            if s not in ("rand1bin", "best1bin") or rng.rand() < 0.3:
                o["mutation"] = 0.0
            o["maxiter"] = int(rng.choice([2, 3, 4]))
        if i % 300 == 28:  # crowds: without mutation, the base can be told
            s = o["strategy"] = ["rand1bin", "rand2bin"][i // 300 % 2]
            o["popsize"], o["mutation"], o["maxiter"] = int(rng.choice([130, 260, 300, 500])), 0.0, int(rng.choice([2, 3]))
            cfg["x0"] = None
        if i % 95 == 13:  # long runs
            o["popsize"] = configs.STRATEGY_MIN[s] + int(rng.randint(2))
            o["maxiter"] = int(rng.choice([150, 400]))
        if cfg["x0"] is not None:
            cfg["x0"] = configs.feasible_x0(rng, cfg)
            if len({tuple(r) for r in cfg["x0"]}) < len(cfg["x0"]):  # duplicates make members interchangeable
                cfg["x0"] = None
        cfg["x0_form"] = "array"
        out.append(cfg)
    return out


def tuples(strategy, others, F=1.0):
    """Member tuples with + and - roles; symmetric duplicates removed (without mutation: one for every base)."""
    if F == 0.0:
        k = {"rand1bin": 3, "best1bin": 2, "rand2bin": 5, "best2bin": 4}[strategy]
        o = np.array(others)
        return o[(np.arange(len(o) if strategy.startswith("rand") else 1)[:, None] + np.arange(k)) % len(o)]
    if strategy == "rand1bin":
        return np.array(list(itertools.permutations(others, 3)))
    if strategy == "best1bin":
        return np.array(list(itertools.permutations(others, 2)))
    k = 5 if strategy == "rand2bin" else 4
    out = [p for p in itertools.permutations(others, k) if p[-4] < p[-3] and p[-2] < p[-1]]
    return np.array(out)


def mutants(strategy, idx, X, best, F):
    if strategy == "rand1bin":
        return X[idx[:, 0]] + F * (X[idx[:, 1]] - X[idx[:, 2]])
    if strategy == "best1bin":
        return best + F * (X[idx[:, 0]] - X[idx[:, 1]])
    d = X[idx[:, -4]] + X[idx[:, -3]] - X[idx[:, -2]] - X[idx[:, -1]]
    return (X[idx[:, 0]] if strategy == "rand2bin" else best) + F * d


def run_case(case, obs):
    t = trace.run(case)
    o = case["options"]
    P, n = o["popsize"], len(case["bounds"])
    F, CR, strat = o["mutation"], o["recombination"], o["strategy"]
    sync = o["updating"] == "deferred"
    cons = o.get("constraints") == "Random"
    lo, up = trace.lo_up(case)
    G, V = generations(case, t)
    pop = Greedy(G[0], V[0])
    ib = int(np.argmin(V[0]))
    best, fbest = G[0][ib].copy(), V[0][ib]
    uses_best = strat.startswith("best")
    if uses_best and ((V[0] == fbest) & (G[0] != best).any(axis=1)).any():
        obs.count("tied")
        return
    cache = {i: tuples(strat, [k for k in range(P) if k != i], F) for i in range(P)}
    for g in range(1, len(G)):
        snap = pop.X.copy()
        prev_rank = None
        tied = False
        for i in range(P):
            X = snap if sync else pop.X
            U = G[g, i]
            obs.count("trials")
            obs.count("immediate_trials", not sync)
            obs.count("wide", P >= 12)
            r = resolve(obs, case, X, i, U, best, cache[i], strat, F, CR, cons, lo, up)
            if r is None:
                obs.violation("trial is no recombination of its target with a mutant of the population", generation=g, member=i,
                              strategy=strat, trial=U, target=X[i], best=best, updating=o["updating"], F=F)
                return
            if r != "ambiguous":
                rank = r
                if prev_rank is not None:
                    obs.sample("serial", prev_rank * rank)
                prev_rank = rank
            # equal values at different places (values absorbed in a sum): which one is kept or best is not prescribed
            if (V[g, i] == pop.V[i] and (U != pop.X[i]).any()) or (uses_best and V[g, i] == fbest and (U != best).any()):
                tied = True
            if sync:
                continue
            if tied:
                break
            pop.offer(i, U, V[g, i])
            if V[g, i] <= fbest:
                best, fbest = U.copy(), V[g, i]
        if tied or (sync and uses_best and V[g].min() < fbest and (V[g] == V[g].min()).sum() > 1):
            obs.count("tied")
            break
        if sync:
            for i in range(P):
                pop.offer(i, G[g, i], V[g, i])
            ib = int(np.argmin(pop.V))
            if pop.V[ib] < fbest:
                best, fbest = pop.X[ib].copy(), pop.V[ib]
        c = t.cb[g]["X"]
        for i in range(P):
            if not pop.holds(i, c[i]):
                obs.violation("population is not the outcome of greedy selection", generation=g, member=i, got=c[i], expected=pop.X[i])
                return
    obs.nontrivial = len(G) > 1


def resolve(obs, case, X, i, U, best, idx, strat, F, CR, cons, lo, up):
    n = len(U)
    T = X[i]
    M = mutants(strat, idx, X, best, F)
    mag = np.abs(X).max(axis=0) * (1.0 + 4.0 * F) + np.abs(best)
    tol = 1e-13 * mag + 1e-300
    isT = np.abs(U - T) <= tol
    isM = np.abs(U - M) <= tol
    if cons:
        outM = (M < lo - tol) | (M > up + tol)
        edge = ((M < lo + tol) | (M > up - tol)) & ~outM
        inU = (U >= lo - tol) & (U <= up + tol)
        isR = (outM | edge) & inU  # redrawn; on the very edge either way
        isM = isM & ~outM
    else:
        isR = np.zeros_like(isM)
    ok = (isT | isM | isR).all(axis=1) & (isM | isR).any(axis=1)
    if CR == 1.0:
        ok &= (isM | isR).all(axis=1)
    if not ok.any():
        return None
    # redrawn components fit any tuple: prefer tuples explaining the most components by target or mutant
    k = np.flatnonzero(ok)
    score = (isT | isM)[k].sum(axis=1)
    k = k[score == score.max()]
    if cons and isR[k].any():
        kk = k[0]
        r = isR[kk] & ~isM[kk] & ~isT
        if len(k) == 1 and score.max() >= 2 and isM[kk].any():
            obs.count("resampled", r.sum())
            w = ((U - lo) / (up - lo))[r]
            obs.sample("redrawn", w)
            return "ambiguous"
        if n == 1 and r.any() and outM.all():
            # every possible mutant leaves the box: the component was certainly redrawn
            obs.count("resampled")
            obs.sample("redrawn", ((U - lo) / (up - lo))[r])
        return "ambiguous"
    if F == 0.0 and strat.startswith("rand") and not cons and len(k) == 1 and (np.diff(np.sort(X, axis=0), axis=0) > 100 * tol).all():
        N, b = len(X) - 1, idx[k[0], 0]
        obs.count("bases_in_crowds", N > 100)
        obs.sample("base_crowd" if N > 100 else "base", [(b - (b > i) - 0.5 * (N - 1)) / np.sqrt((N * N - 1.0) / 12.0)])
    if len(k) != 1 or F == 0.0:
        return "ambiguous"
    k = k[0]
    clear = np.abs(M[k] - T) > 100 * tol
    if not clear.all():
        return "ambiguous"
    if cons:
        # a mutant component outside the box would have been redrawn: condition-free only if none could leave
        if ((M < lo) | (M > up)).any():
            return "ambiguous"
    obs.count("unique")
    took = isM[k]
    m = int(took.sum())
    if n > 1:
        obs.sample("cr_num", [m - 1 - (n - 1) * CR])
        obs.sample("cr_var", [(n - 1) * CR * (1 - CR)])
        p = 1.0 / n + (1.0 - 1.0 / n) * CR
        obs.sample("first", [(took[0] - p) / np.sqrt(p * (1 - p))] if 0 < p < 1 else [])
        obs.sample("last", [(took[-1] - p) / np.sqrt(p * (1 - p))] if 0 < p < 1 else [])
        if m < n:  # any set of m components is as likely as another
            sd = np.sqrt(m * (n * n - 1) / 12.0 * (1.0 - (m - 1.0) / (n - 1.0)))
            obs.sample("position" if n < 30 else "position_wide", [(np.flatnonzero(took) - 0.5 * (n - 1)).sum() / sd])
    N = len(X) - 1
    rank = np.where(idx[k] > i, idx[k] - 1, idx[k])
    u = ((rank + 0.5) / N - 0.5) / np.sqrt((N * N - 1.0) / (12.0 * N * N))
    if strat in ("rand1bin", "best1bin"):
        for s in range(len(u)):
            obs.sample("slot%d" % s, [u[s]])
        return float(u[-1])
    if strat == "rand2bin":
        obs.sample("slot0", [u[0]])
    pair = u[-4:-2].sum() / np.sqrt(2.0 * (1.0 - 1.0 / (N - 1.0))) if N > 2 else 0.0
    obs.sample("pair+", [pair])
    return float(pair)


def finish(ctx, data, total, obs):
    num, var = data.get("cr_num", []), data.get("cr_var", [])
    if sum(var) > 0:
        stats.check(obs, sum(num) / np.sqrt(sum(var)), "rate of components taken from the mutant")
    # exactly determined cases (CR 0 or 1)
    for a, b in zip(num, var):
        if b == 0.0 and abs(a) > 1e-9:
            obs.violation("recombination 0 or 1 not respected", excess=a)
            break
    for k in ("first", "last", "slot0", "slot1", "slot2", "pair+", "serial", "position", "position_wide", "base", "base_crowd"):
        v = data.get(k, [])
        if len(v) > 200:
            stats.check(obs, stats.z_mean(v, 0.0, 1.0), "uniform choice (%s)" % k)
    z, what = stats.uniform(data.get("redrawn", []))
    stats.check(obs, z, "redrawn components uniform in the bounds", what)
