"""C24 - sampler results, histories and acceptance ratios are truthful."""
import numpy as np

from .. import configs, trace
from .c09 import keep

LEVEL = "exploration"
RULE = ("random mcmc and hmc chains with and without constraint, x0, histories and callback; the samples delivered to the callback are matched "
        "with the evaluation log and the best, the histories and the acceptance ratio are recomputed from them; non-trivial: the chain "
        "moved and also stayed")
MINIMA = {"samples": 15000, "states": 10000, "accepted": 3000, "refused": 2000, "prefixes": 5000, "initial_best": 50, "late_best": 300, "kept_states": 1500,
          "no_callback": 100}


def cases(ctx):
    out = []
    for i in range(ctx.n(3600, 15000)):
        rng = ctx.rng(i)
        cfg = configs.gen_smp(rng, maxiter=int(rng.choice([1, 2, 3, 7, 20, 60])))
        if i % 150 == 77:  # long chains
            cfg = configs.gen_smp(rng, maxiter=2100 if i % 4 else 1100, ndim=int(rng.choice([1, 2, 3])))
            if cfg["method"] == "hmc":
                cfg["options"]["nleap"] = 1
        cfg["objective"]["s"] = (np.array(cfg["objective"]["s"]) * 10.0 ** rng.uniform(-0.9, 0.3)).tolist()
        cfg["observe"] = bool(i % 6)
        if i % 5 == 0:  # initial sample is the best: a needle at the start
            cfg["x0"] = cfg["objective"]["c"] if not cfg["options"].get("constraints") else configs.feasible_x0(rng, cfg)
            cfg.pop("x0_form", None)
            if cfg["x0"] is not None:
                cfg["objective"]["c"] = cfg["x0"]
        out.append(cfg)
    return out


def run_case(case, obs):
    t = trace.run(case)
    o = case["options"]
    r = t.rx
    M = o["maxiter"]
    ra = o.get("return_all", True)
    value = {(x + 0.0).tobytes(): v for x, v in zip(t.X, t.V)}
    if len(t.cb) != M:
        obs.violation("not one callback per sample", calls=len(t.cb), maxiter=M)
        return
    S = np.array([c["X"] for c in t.cb])
    F = np.empty(M)
    for k in range(M):
        v = value.get((S[k] + 0.0).tobytes())
        if v is None:
            obs.violation("a sample was never evaluated", k=k, sample=S[k])
            return
        F[k] = v
    obs.count("samples", M)
    moved = (S[1:] != S[:-1]).any(axis=1)
    # proposals equal to the current sample may count either way
    lo_acc = np.concatenate([[0], np.cumsum(moved)])
    amb = np.zeros(M, dtype=int)
    for k in range(1, M):
        if not moved[k - 1]:
            E = t.X[t.cb[k - 1]["neval"]:t.cb[k]["neval"]]
            if case["method"] == "mcmc":
                amb[k] = int(len(E) > 0 and (E[-1] == S[k - 1]).all())
            else:
                scale = np.finfo(float).eps * 64 * np.abs(S[k - 1])
                amb[k] = int(len(E) > 0 and (np.abs(E[-1] - S[k - 1]) <= scale).all())
    hi_acc = lo_acc + np.cumsum(amb)
    obs.count("accepted", moved.sum())
    obs.count("refused", M - 1 - moved.sum())

    def judge(d, m, what):
        """State or result `d` after m samples."""
        best = F[:m].min()
        info = dict(nit=m, method=case["method"], fun=d["fun"], best=best)
        if not d["fun"] == best:
            obs.violation("%s.fun is not the lowest value of the samples" % what, **info)
            return False
        if not ((S[:m] == d["x"]).all(axis=1) & (F[:m] == best)).any():
            obs.violation("%s.x is not a sample with the lowest value" % what, x=d["x"], **info)
            return False
        if m >= 2:
            a = d["accept_ratio"] * m
            if not lo_acc[m - 1] - 1e-6 <= a <= hi_acc[m - 1] + 1e-6:
                obs.violation("%s.accept_ratio is not accepted proposals / nit" % what, ratio=d["accept_ratio"], accepted=lo_acc[m - 1], **info)
                return False
            obs.count("initial_best" if (F[0] == best and moved[:m - 1].any()) else "late_best" if F[0] > best else "flat")
        if not obs.require(("xall" in d) == ra and ("funall" in d) == ra, "histories do not follow return_all", delivered=what):
            return False
        if ra:
            obs.count("prefixes")
            if not (trace.same(d["xall"], S[:m]) and trace.same(d["funall"], F[:m])):
                obs.violation("histories in the %s are not the delivered samples and their values" % what, **info)
                return False
        return True

    for k, c in enumerate(t.cb):
        obs.count("states")
        if not judge(c["state"], k + 1, "state"):
            return
    if not judge(r, M, "result"):
        return
    if not case["observe"]:
        u = trace.run(case, callback=False)
        obs.count("no_callback")
        obs.require(trace.same_result(u.rx, r) is None, "the result differs without a callback", field=trace.same_result(u.rx, r))
    if not case.get("jac"):
        for k, (before, s) in enumerate(keep(case)):
            obs.count("kept_states")
            bad = trace.same_result(before, trace.snapshot_result(s))
            if bad:
                obs.violation("a state kept by the caller changed later", k=k, field=bad)
                return
    obs.nontrivial = bool(moved.any() and not moved.all())

