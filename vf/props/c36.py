"""C36 - CMA-ES and VD-CMA stop for numerical reasons exactly when the published criteria say."""
import math

import numpy as np

from .. import cmacheck, configs, trace
from ..objectives import random_spec

LEVEL = "exploration"
RULE = ("serial CMA-ES and VD-CMA runs towards every numerical end (tiny and huge steps, bad conditioning, flat values, also clipped by 'Penalize'); after every "
        "generation each criterion is evaluated from the logged values and the state of a reference model; non-trivial: a criterion was decided")
MINIMA = {"decided_sigma": 20000, "decided_flat": 30000, "st_-2": 15, "st_-3": 15, "st_-4": 15, "st_-5": 15, "st_-6": 15, "st_-7": 15, "st_-8": 8,
          "st_0": 15, "st_1": 15, "kept_running": 20}
NAMES = {-2: "NoEffectAxis", -3: "NoEffectCoord", -4: "ConditionCov", -5: "EqualFunValues", -6: "TolXUp", -7: "TolFun", -8: "TolX",
         0: "xtol"}


def cases(ctx):
    out = []
    for i in range(ctx.n(1500, 12000)):
        rng = ctx.rng(i)
        method = "vdcma" if i % 3 == 2 else "cmaes"
        dims = [1, 2, 2, 3, 4, 6] if method == "cmaes" else [2, 3, 5, 6, 7, 9]
        n = int(rng.choice(dims))
        k = i % 10
        pen = k == 9 or (k in (0, 4) and rng.rand() < 0.4)
        cfg = configs.gen_opt(rng, method=method, ndim=n, constrained=pen, popmax=12, ftol=configs.NO_FTOL, kinds=["sphere"], maxiter=3, offset=0.0,
                              fixed=False, x0=bool(rng.rand() < 0.5), where="in", workers=(1,))
        o = cfg["options"]
        o["popsize"] = int(rng.randint(4, 16))
        o["maxiter"] = int(rng.choice([40, 400, 900] if k in (4, 5) else [900]))
        o["muperc"] = 0.5
        o["xtol"] = 0.0
        o["sigma"] = float(rng.choice([0.02, 0.3, 1.0]))
        o.pop("return_all", None)
        o.pop("verbosity", None)
        cfg["args"] = []
        b = float(10.0 ** rng.randint(-2, 4))
        if k in (0, 1, 2, 3, 7, 8):  # centred boxes resolve the smallest steps
            cfg["bounds"] = [[-b, b] for _ in range(n)]
            ob = {"kind": "sphere", "c": [0.0] * n, "s": [b] * n, "offset": 0.0}
            cfg["objective"] = ob
            if cfg["x0"] is not None:
                cfg["x0"] = rng.uniform(-0.9 * b, 0.9 * b, n).tolist()
            if k == 0:
                ob["kind"] = str(rng.choice(["sphere", "ellipsoid", "abs"]))
            elif k == 1:
                ob.update(kind="cigar", cond=float(rng.choice([2.0, 4.0, 12.0, 16.0])))
            elif k == 2 or k == 7:
                ob.update(kind="ridge", cond=float(rng.choice([2.0, 6.0, 8.0, 10.0])), axis=bool(rng.rand() < 0.5) or n == 1)
            elif k == 3:
                o["sigma"] = float(rng.choice([60.0, 400.0, 1e4]))
            elif k == 8:
                o["sigma"] = float(10.0 ** rng.uniform(-11, -7))
                if rng.rand() < 0.6:  # every thinkable order of the criteria
                    ob.update(kind="cigar", cond=float(rng.choice([-6.0, 4.0])))
            if k in (0, 1, 3, 8) and rng.rand() < (0.9 if k == 1 else 0.6):
                ob.update(kind="log", cond=float(rng.choice([0.0, 3.0]) if k != 1 else rng.choice([14.0, 18.0, 24.0])), axis=bool(rng.rand() < 0.6))
                if k == 1:
                    o["sigma"] = float(rng.choice([1.0, 30.0, 1e4]))
        else:
            cfg["objective"] = random_spec(rng, cfg["bounds"], kinds=["sphere"], where="in", offset=0.0)
            ob = cfg["objective"]
            if k == 4:
                u = rng.rand()
                if u < 0.4:  # (also values within the tolerance of each other, and all but the worst equal)
                    ob.update(kind="dips", every=int(rng.choice([1, 20, 90, 300])), depth=float(rng.choice([3e-10, 0.1, 5e-11, 5e-13])),
                              rough=float(rng.choice([0.0, 1e-13, 1e-11, 1e-3])))
                elif u < 0.7:
                    ob.update(kind="step", floor=float(10.0 ** rng.uniform(-2, 0)))
                else:
                    ob.update(kind="small", scale=float(10.0 ** rng.uniform(-11.5, -9)))
            elif k == 5:
                ob.update(kind="small", scale=float(10.0 ** rng.uniform(-16, -11)))
            elif k == 6:
                o["ftol"] = float(10.0 ** rng.uniform(-6, -1))
                o["xtol"] = float(10.0 ** rng.uniform(-4, 0))
            elif k == 9:
                ob.update(random_spec(rng, cfg["bounds"], kinds=["sphere", "ellipsoid"], where=str(rng.choice(["in", "face", "out"])), offset=0.0))
        out.append(cfg)
    for i in range(ctx.n(400, 4000)):  # the first or last of the generations compared by EqualFunValues is the odd one
        rng = ctx.rng("dips", i)
        n = int(rng.choice([2, 3])) if i % 3 == 2 else int(rng.choice([1, 2]))
        cfg = configs.gen_opt(rng, method="vdcma" if i % 3 == 2 else "cmaes", ndim=n, constrained=False, popmax=12, ftol=configs.NO_FTOL, kinds=["sphere"], maxiter=60,
                              offset=0.0, fixed=False, x0=False, where="in", workers=(1,))
        o = cfg["options"]
        o["popsize"] = P = int(rng.randint(8, 16))
        o["muperc"], o["xtol"], o["sigma"] = 0.5, 0.0, 0.1
        o.pop("return_all", None)
        o.pop("verbosity", None)
        cfg["args"] = []
        cfg["objective"].update(kind="dips", every=P * int(10 + 30 * n / P), depth=float(rng.choice([3e-10, 0.1])), rough=5e-12)
        out.append(cfg)
    return out


class Watch:
    """Which criteria hold after each generation: True, False, or None within round-off of the threshold."""

    def __init__(self, case):
        self.o = case["options"]
        self.n = len(case["bounds"])
        self.rows = {}

    def __call__(self, g, ref, fit, before):
        n, it, s, s0 = self.n, g + 1, ref.sigma, self.o["sigma"]
        cond = getattr(ref, "D", None)
        cond = 1.0 if cond is None else float(ref.D.max() / ref.D.min())
        m = 1e-3 if cond < 1e5 else 3.0
        row = {}
        sds = [np.sqrt(ref.diag())] + ([np.sqrt(before)] if hasattr(ref, "v") else [])  # (VD-CMA: of this or the next generation)
        if hasattr(ref, "D"):
            i = it % n
            a = 0.1 * s * ref.D[i]
            gaps = [abs(ref.D[j] / ref.D[i] - 1) for j in range(n) if j != i]
            lo = hi = a * np.abs(ref.B[:, i]).max()
            if m > 1 or (gaps and min(gaps) < 1e-3):  # the axis is not determined
                lo, hi = a / math.sqrt(n), a
            row[-2] = below(hi, 1e-10, m) is True or (False if below(lo, 1e-10, m) is False else None)
            row[-4] = below(1e7, cond, m)
        else:
            row[-2] = row[-4] = False  # (criteria of CMA-ES)
        # (the short axes of a badly conditioned matrix are only known relative to the long ones)
        row[-3] = every(below((0.2 * s * sd).min(), 1e-10, 3.0 if m > 1 else m) for sd in sds)
        row[-6] = every(below(1e3 * s0, (s * sd).max(), 1e-3) for sd in sds)
        row[-8] = every(below(s * max(np.abs(ref.pc).max(), sd.max()), 1e-11 * s0, 1e-3) for sd in sds)
        move = float(np.linalg.norm(ref.mean - ref.old))
        xt = self.o["xtol"]
        row[0] = None if xt == 0 and move < 1e-300 else below(move, xt, 1e-3) if xt else False
        row["fit"] = np.array(fit)
        self.rows[it] = row


def below(a, b, m):
    """a < b beyond a relative margin."""
    if not (np.isfinite(a) and np.isfinite(b)):
        return None
    if a * (1 + m) < b:
        return True
    return False if a > b * (1 + m) else None


def every(values):
    v = set(values)
    return v.pop() if len(v) == 1 else None


def run_case(case, obs):
    t = trace.run(case)
    watch = Watch(case)
    o = case["options"]
    P, M, n = o["popsize"], o["maxiter"], len(case["bounds"])
    pen = trace.penalized(case)
    cmacheck.follow(case, obs, t=t, watch=watch)
    st, nit = t.rx["status"], t.rx["nit"]
    obs.count("st_%d" % st)
    gen = np.array([c["state"]["fun"] for c in t.cb])
    if len(gen) != nit or not np.isfinite(t.V).all():
        return
    ilim = int(10 + 30 * n / P)
    info = dict(nit=nit, maxiter=M, popsize=P, ndim=n, sigma=o["sigma"], method=case["method"], penalize=pen)
    for it in range(1, nit + 1):
        row = dict(watch.rows.get(it, {}))
        obs.count("decided_sigma", sum(1 for k, v in row.items() if k not in ("fit", 0) and v is not None))
        row[-5] = bool(it >= ilim and np.ptp(gen[it - ilim:it]) < 1e-10)
        fit = t.V[(it - 1) * P:it * P] if not pen else row.get("fit")
        obs.count("decided_flat", 1 + (fit is not None))
        if it <= 2:
            row[-7] = False
        elif fit is not None:
            r = np.ptp(np.append(fit, gen[:it]))
            row[-7] = below(r, 1e-12, 1e-3 + (1e-4 * np.abs(fit).max() / 1e-12 if pen else 0.0))
        else:
            row[-7] = None
        obs.nontrivial = True
        if it < nit:
            held = [k for k, v in row.items() if v is True and k not in (0, "fit")]
            if held:
                obs.violation("kept running although %s held" % NAMES[held[0]], generation=it, all_held=held, **info)
                return
        elif st == -1:
            obs.require(nit == M, "the iteration limit reported although it was not reached", **info)
        elif st < -1:
            obs.count("reason_decided", row.get(st) is not None)
            obs.require(row.get(st) is not False, "%s reported although it does not hold" % NAMES[st], generation=it, **info)
        elif st in (0, 1):
            if row.get(0) is not None:
                obs.count("xtol_decided")
                obs.require(row[0] == (st == 0), "status %d although the mean moved by %s than xtol" % (st, "less" if row[0] else "more"),
                            xtol=o["xtol"], **info)
    obs.count("kept_running", st == -1 and nit > 20)
