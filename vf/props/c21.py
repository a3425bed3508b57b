"""C21 - mcmc runs the Metropolis algorithm."""
import math

import numpy as np

from .. import configs, stats, trace

LEVEL = "exploration"
RULE = ("mcmc chains on smooth, discontinuous and random targets, recorded through fun and callback; every step is checked for its block and "
        "its outcome, steps and acceptances are pooled for z-tests (acceptances in bins of the change of f); non-trivial: a proposal was judged")
MINIMA = {"proposals": 30000, "uphill": 8000, "downhill": 4000, "refused_outside": 2000, "blocks": 3000, "short_last_block": 200, "pooled_steps": 20000}


def cases(ctx):
    out = []
    for i in range(ctx.n(5400, 21600)):
        rng = ctx.rng(i)
        cfg = configs.gen_smp(rng, method="mcmc", ndim=int(rng.choice([1, 2, 3, 4, 5, 7] if i % 16 != 6 else [20, 45, 100])),
                              maxiter=int(rng.choice([20, 60, 200] if i % 50 != 31 else [1500])),
                              constrained=bool(i % 2))
        o = cfg["options"]
        if i % 3 == 0:
            o["perc"] = float(rng.uniform(0.0, 1.0))
        # steep and flat targets
        cfg["objective"]["s"] = (np.array(cfg["objective"]["s"]) * 10.0 ** rng.uniform(-0.7, 1.0)).tolist()
        if i % 120 == 50:  # long chains that seldom move
            cfg = configs.gen_smp(rng, method="mcmc", ndim=int(rng.choice([1, 2, 3])), maxiter=3000, constrained=False)
            cfg["options"]["stepsize"] = float(rng.choice([0.1, 0.5]))
            cfg["objective"]["s"] = (np.array(cfg["objective"]["s"]) * 0.003).tolist()
            o = cfg["options"]
        if i % 2 and rng.rand() < 0.4:
            o["stepsize"] = float(rng.choice([0.5, 1.0, 3.0]))
        out.append(cfg)
    return out


def cdf(z):
    return 0.5 * (1.0 + math.erf(z / math.sqrt(2.0)))


BINS = [0.0, 0.05, 0.3, 0.8, 1.5, 3.0, 6.0, 700.0]


def judge(obs, accepted, delta, info, slack=1e-9):
    """The Metropolis rule for one proposal with a change `delta` of the energy."""
    if not np.isfinite(delta):
        if delta > 0 and accepted:
            obs.violation("a proposal of infinite energy was accepted", **info)
        return
    if delta <= -slack:
        obs.count("downhill")
        if not accepted:
            obs.violation("a proposal that is not uphill was refused", delta=delta, **info)
    elif delta > slack:
        obs.count("uphill")
        if delta > 60.0:
            if accepted:
                obs.violation("a proposal of vanishing probability was accepted", delta=delta, **info)
            return
        p = math.exp(-delta)
        k = int(np.searchsorted(BINS, delta)) - 1
        obs.sample("a%d" % k, [accepted - p])
        obs.sample("v%d" % k, [p * (1 - p)])
    elif slack < 1e-8 and delta <= 0 and not accepted:
        obs.violation("a proposal that is not uphill was refused", delta=delta, **info)


def acceptance(data, obs, what):
    num = var = 0.0
    for k in range(len(BINS)):
        a, v = data.get("a%d" % k, []), data.get("v%d" % k, [])
        num, var = num + sum(a), var + sum(v)
        if sum(v) > 30.0:
            stats.check(obs, sum(a) / math.sqrt(sum(v)), "acceptance probability" + what, "energy change above %g" % BINS[k])
    if var > 30.0:
        stats.check(obs, num / math.sqrt(var), "acceptance probability" + what)


def run_case(case, obs):
    t = trace.run(case)
    o = case["options"]
    lo, up = trace.lo_up(case)
    n = len(lo)
    half = 0.5 * (up - lo)
    sd = np.array(o.get("stepsize", 0.1), dtype=float) * half
    reject = o.get("constraints") == "Reject"
    size = max(1, int(o.get("perc", 1.0) * n))
    starts = list(range(0, n, size))
    obs.count("short_last_block", len(starts) > 1 and n % size != 0)
    k = 1
    cur, fcur = t.cb[0]["X"], t.V[0]
    last = None
    for i in range(1, len(t.cb)):
        b = starts[(i - 1) % len(starts)]
        blk = np.zeros(n, dtype=bool)
        blk[b:b + size] = True
        obs.count("blocks", len(starts) > 1)
        new = t.cb[i]["X"]
        m = t.cb[i]["neval"]
        info = dict(iteration=i + 1, current=cur, f_current=fcur, next=new, block=[b, min(n, b + size)], options=o)
        if m - k > 1 or (m - k < 1 and not reject):
            obs.violation("%d evaluations in one iteration" % (m - k), **info)
            return
        s = sd * blk
        if reject and m > 0:
            pin = 1.0
            for j in np.flatnonzero(blk):
                pin *= cdf((up[j] - cur[j]) / sd[j]) - cdf((lo[j] - cur[j]) / sd[j])
            if 1e-12 < pin < 1 - 1e-12:
                obs.sample("inside", [(m > k) - pin])
                obs.sample("inside_var", [pin * (1 - pin)])
            elif pin >= 1 - 1e-12 and m == k:
                obs.violation("a proposal certainly inside the bounds was refused unevaluated", **info)
                return
        if m == k:
            obs.count("refused_outside")
            if not (new == cur).all():
                obs.violation("the chain moved to a point that was not evaluated", **info)
                return
        else:
            y, fy = t.X[k], t.V[k]
            info.update(proposal=y, f_proposal=fy)
            obs.count("proposals")
            obs.nontrivial = True
            if (y != cur)[~blk].any():
                obs.violation("a proposal changes coordinates outside the current block", **info)
                return
            if reject and trace.outside(y, lo, up).any():
                obs.violation("a proposal outside the bounds was evaluated", **info)
                return
            stay, go = (new == cur).all(), (new == y).all()
            if not (stay or go):
                obs.violation("the next sample is neither the proposal nor the current sample", **info)
                return
            res = np.finfo(float).eps * (np.abs(cur) + np.abs(y))[blk] / sd[blk]
            deep = not reject or (((up - cur)[blk] > 7.5 * sd[blk]) & ((cur - lo)[blk] > 7.5 * sd[blk])).all()
            z = (y - cur)[blk] / sd[blk]
            if (np.abs(z) > 8.5).any():
                obs.violation("a step is far too large for its standard deviation", z=z, **info)
                return
            if deep and (res < 1e-6).all():
                obs.count("pooled_steps", len(z))
                obs.sample("z", z)
                obs.sample("zz", z[1:] * z[:-1])
                obs.sample("zz2", z[2:] * z[:-2])
                if len(z) > 3:
                    obs.sample("zz2", [z[0] * z[-1]])
                if last is not None:
                    obs.sample("zt", z * np.resize(last, len(z)))
                obs.sample("first z", z[:1])
                obs.sample("last z", z[-1:])
                if i > 900:
                    obs.sample("late z", z)
                last = z
            else:
                last = None
            if not (stay and go) and np.isfinite(fcur):
                judge(obs, bool(go), fy - fcur, info, slack=0.0)
                if obs.violations:
                    return
            if go and not stay:
                cur, fcur = y, fy
        k = m


def finish(ctx, data, total, obs):
    for k in ("z", "first z", "last z", "late z"):
        z, what = stats.normal(data.get(k, []))
        stats.check(obs, z, "steps are normal with the documented standard deviation", k + " " + what)
    for k in ("zz", "zz2", "zt"):
        v = data.get(k, [])
        if len(v) > 300:
            what = "iterations" if k == "zt" else "coordinates"
            stats.check(obs, stats.z_mean(v, 0.0, 1.0), "steps of different %s are independent" % what)
            v = np.asarray(v) ** 2 - 1.0  # products of independent normals: variance of the square is 8
            stats.check(obs, float(v.mean()) * np.sqrt(len(v) / 8.0) / 3.0, "steps of different %s are independent (sizes)" % what)
    v = sum(data.get("inside_var", []))
    if v > 30:
        stats.check(obs, sum(data["inside"]) / math.sqrt(v), "proposals inside the bounds are evaluated with the probability of the normal step")
    acceptance(data, obs, " exp(f(current) - f(proposal))")
