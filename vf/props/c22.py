"""C22 - hmc runs leapfrog trajectories with an exact Metropolis correction."""
import numpy as np

from .. import configs, stats, trace
from . import c21

LEVEL = "exploration"
RULE = ("hmc chains with recorded gradient calls (or finite-difference stencils recovered from the evaluations); every trajectory is replayed "
        "by its second differences, momenta and energies are recovered from it, acceptances pooled for z-tests in bins of the energy "
        "change; non-trivial: a trajectory was judged")
MINIMA = {"trajectories": 5000, "with_jac": 2500, "stencils": 10000, "uphill": 2000, "downhill": 2000, "refused_outside": 300, "momenta": 8000}


def cases(ctx):
    out = []
    for i in range(ctx.n(2100, 8400)):
        rng = ctx.rng(i)
        jac = bool(i % 2)
        cfg = configs.gen_smp(rng, method="hmc", ndim=int(rng.choice([1, 2, 3, 5] if i % 32 != 6 and i % 32 != 17 else [12, 30, 70])), maxiter=int(rng.choice([8, 25, 60])),
                              constrained=bool((i // 2) % 2), jac=jac,
                              kinds=["sphere", "ellipsoid"] if jac or i % 4 else ["sphere", "rastrigin", "rosenbrock", "ellipsoid", "abs"])
        o = cfg["options"]
        o["nleap"] = int(rng.choice([1, 2, 3, 6, 11]))
        if i % 23 == 7:  # long trajectories
            o["nleap"] = int(rng.choice([40, 70, 150, 400]))
            o["maxiter"] = 8
            step = np.array(o.get("stepsize", 0.01)) / 8.0
            o["stepsize"] = step.tolist()
        if not jac and i % 6 == 0:
            o["finite_diff_abs_step"] = float(10.0 ** rng.uniform(-5, -1))
        cfg["objective"]["s"] = (np.array(cfg["objective"]["s"]) * 10.0 ** rng.uniform(-0.9, 0.5)).tolist()
        cfg["jac"] = jac
        out.append(cfg)
    return out


def stencil(X, V, k, n, h, scale):
    """Is X[k:k+2n] a set of central differences? Returns (position, gradient) or None."""
    if k + 2 * n > len(X):
        return None
    S = X[k:k + 2 * n]
    c = S[0] + (S - S[0]).mean(axis=0)  # (accurate for many variables)
    D = S - c
    tol = 16 * np.finfo(float).eps * np.maximum(scale, np.abs(S).max(axis=0))
    if (tol > 0.02 * h).any():
        return None
    g = np.full(n, np.nan)
    off = np.abs(D) > 0.25 * h
    if (off.sum(axis=1) != 1).any():
        return None
    ax = off.argmax(axis=1)
    for j in range(n):
        r = np.flatnonzero(ax == j)
        if len(r) != 2:
            return None
        d = D[r, j]
        if not (np.abs(np.abs(d) - h) <= tol[j]).all() or d[0] * d[1] > 0:
            return None
        g[j] = (V[k + r[0]] - V[k + r[1]]) / (2.0 * h) * np.sign(d[0])
    if (np.abs(D) > h + tol).any() or (np.abs(D[~off]) > np.broadcast_to(tol, D.shape)[~off]).any():
        return None
    return c, g


def run_case(case, obs):
    t = trace.run(case)
    o = case["options"]
    lo, up = trace.lo_up(case)
    n = len(lo)
    s = np.array(o.get("stepsize", 0.01), dtype=float) * 0.5 * (up - lo)
    nleap = o["nleap"]
    h = o.get("finite_diff_abs_step", 1.0e-4)
    reject = o.get("constraints") == "Reject"
    scale = np.maximum(np.abs(lo), np.abs(up))
    cur, fcur = t.cb[0]["X"], t.V[0]
    k = t.cb[0]["neval"]
    if k != 1:
        obs.violation("%d evaluations before the first trajectory" % k)
        return
    length = None
    jk = sum(1 for c in t.jac if c[3] == 0) if t.jac is not None else 0
    for i in range(1, len(t.cb)):
        new = t.cb[i]["X"]
        m = t.cb[i]["neval"]
        info = dict(iteration=i + 1, current=cur, next=new, options={a: b for a, b in o.items() if a != "jac"}, jac=t.jac is not None)
        # gradient calls and other evaluations of this iteration
        Q, Gr, single = [], [], []
        if t.jac is not None:
            while jk < len(t.jac) and t.jac[jk][3] == i:
                Q.append(t.jac[jk][1])
                jk += 1
            grad = trace.Gradient(case["objective"])
            Gr = [grad(q) for q in Q]
            single = list(range(k, m))
        else:
            e = k
            Z = t.X[k:m]
            if not np.isfinite(Z).all() or (16 * np.finfo(float).eps * np.maximum(scale, np.abs(Z).max(axis=0)) > 0.002 * h).any():
                obs.count("diverged")  # the differences drown in round-off
                return
            while e < m:
                st = stencil(t.X, t.V, e, n, h, scale)
                if st is not None and e + 2 * n <= m:
                    Q.append(st[0])
                    Gr.append(st[1])
                    e += 2 * n
                    obs.count("stencils")
                else:
                    single.append(e)
                    e += 1
            if len(single) > 2 + 2 * n:
                obs.violation("gradient is not a central difference with the given absolute step", evaluations=t.X[k:k + 4 * n], step=h, **info)
                return
        if not np.isfinite(Q).all() or not np.isfinite(Gr).all() or (len(Q) and np.abs(Q).max() > 1e60):
            obs.count("diverged")
            return
        Q, Gr = list(Q), list(Gr)
        tolx = 1e-13 * (scale + np.abs(np.array(Q + [cur])).max(axis=0)) + (0.0 if t.jac is not None else 64 * np.finfo(float).eps * h)  # (going back and forth by h)
        if not Q or not (np.abs(Q[0] - cur) <= 4 * tolx).all():
            # the gradient at the current sample may have been kept
            if t.jac is None or len(Q) < 2:
                obs.violation("a trajectory does not start at the current sample", first=Q[0] if Q else None, **info)
                return
            Q.insert(0, cur)
            Gr.insert(0, trace.Gradient(case["objective"])(cur))
        L = len(Q) - 1
        if length is None:
            length = L
        if L != length or not nleap <= L <= nleap + 1:
            obs.violation("a trajectory has another number of leapfrog steps", steps=L, before=length, **info)
            return
        obs.count("trajectories")
        obs.count("with_jac", t.jac is not None)
        obs.nontrivial = True
        Q, Gr = np.array(Q), np.array(Gr)
        force = s * s * Gr
        ok = np.abs(Q[2:] - 2 * Q[1:-1] + Q[:-2] + force[1:-1]) <= 8 * tolx + 1e-9 * np.abs(force[1:-1])
        if not ok.all():
            j = int(np.argmin(ok.all(axis=1))) + 1
            obs.violation("a leapfrog step is not stepsize squared times minus the gradient", step=j, second_difference=Q[j + 1] - 2 * Q[j] + Q[j - 1],
                          expected=-force[j], **info)
            return
        p0 = (Q[1] - Q[0]) / s + 0.5 * s * Gr[0]
        p1 = (Q[-1] - Q[-2]) / s - 0.5 * s * Gr[-1]
        res = 4 * tolx / s
        if (res < 1e-4).all():
            obs.count("momenta", n)
            if (np.abs(p0) > 8.5 + 0.5 * 1e-9 * np.abs(s * Gr[0])).any():
                obs.violation("an initial momentum is far too large", momentum=p0, **info)
                return
            obs.sample("p", p0)
            obs.sample("pp", p0[1:] * p0[:-1])
            obs.sample("last p", p0[-1:])
            # fresh momenta: unrelated to where the last trajectory ended
            if i > 1:
                obs.sample("fresh", p0 * np.clip(last, -3, 3))
                obs.sample("fresh_var", np.clip(last, -3, 3) ** 2)
        last = p1
        end = Q[-1]
        out = trace.outside(end, lo, up)[0] if reject else False
        near = [e for e in single if (np.abs(t.X[e] - end) <= 8 * tolx).all()]
        for e in single:
            if e not in near and not (t.X[e] == cur).all():
                obs.violation("the objective was evaluated away from the ends of the trajectory", point=t.X[e], end=end, **info)
                return
        stay = (new == cur).all()
        go = (np.abs(new - end) <= 8 * tolx).all()
        if not stay and not go:
            obs.violation("the next sample is neither the end of the trajectory nor the current sample", end=end, **info)
            return
        if out:
            obs.count("refused_outside")
            if not stay:
                obs.violation("a proposal outside the bounds was accepted", end=end, **info)
                return
        elif reject and ((end < lo + 8 * tolx) | (end > up - 8 * tolx)).any():
            pass
        else:
            if near:
                fend = t.V[near[-1]]
            else:
                obs.violation("the end of a trajectory inside the bounds was not evaluated", end=end, **info)
                return
            dH = fend - fcur + 0.5 * float((p1 * p1).sum() - (p0 * p0).sum())
            err = float((res * (np.abs(p0) + np.abs(p1))).sum()) + 1e-12 * (abs(fend) + abs(fcur))
            if not (stay and go) and err < 1e-6:
                c21.judge(obs, not stay, dH, dict(info, end=end, f_end=fend, f_current=fcur, energy_change=dH), slack=1e-7 + 10 * err)
                if obs.violations:
                    return
            if not stay:
                cur, fcur = t.X[near[-1]], fend
                if not (new == cur).all():
                    obs.violation("the delivered sample is not the evaluated proposal", evaluated=cur, **info)
                    return
        k = m


def finish(ctx, data, total, obs):
    for k in ("p", "last p"):
        z, what = stats.normal(data.get(k, []))
        stats.check(obs, z, "initial momenta are standard normal", k + " " + what)
    v = data.get("pp", [])
    if len(v) > 300:
        stats.check(obs, stats.z_mean(v, 0.0, 1.0), "momenta of different coordinates are independent")
    v = sum(data.get("fresh_var", []))
    if v > 300:
        stats.check(obs, sum(data["fresh"]) / np.sqrt(v), "momenta are drawn afresh")
    c21.acceptance(data, obs, " exp(-energy change)")
