"""C20 - runs are covariant with the problem's units."""
import copy
import math

import numpy as np

from .. import configs, trace
from ..objectives import Objective

LEVEL = "exploration"
RULE = ("pairs of seeded runs of a problem and its transform: variables rescaled by individual powers of two (bitwise), translated "
        "(round-off, few iterations), values shifted exactly or mapped increasingly (bitwise prefix); non-trivial: the pair was compared "
        "beyond the first iteration")
MINIMA = {"scaled_points": 15000, "translated_points": 3000, "shifted_points": 15000, "monotone_points": 15000}
KINDS = ["sphere", "ellipsoid", "rosenbrock", "rastrigin", "abs", "linear", "plateau", "integer", "mixed", "quantized"]
HMC = ["sphere", "ellipsoid"]


class Mapped:
    """A transform of the values of an objective."""

    def __init__(self, spec, how):
        self.f = Objective(spec)
        self.how = how

    def __call__(self, x, *args):
        v = self.f(x, *args)
        k, a = self.how
        if k == "shift":
            return v + a
        if k == "times":
            return v * a
        if k == "sqrt":
            return math.sqrt(v + 2000.0)
        if k == "log":
            return math.log(v + 2000.0)
        if k == "square":
            return v + v * v / 1000.0
        if k == "exp":
            return math.exp(v / 100.0)
        raise KeyError(k)


def cases(ctx):
    out = []
    for i in range(ctx.n(4500, 18000)):
        rng = ctx.rng(i)
        what = ["scale", "scale", "translate", "shift", "monotone"][i % 5]
        smp = what in ("scale", "translate", "shift") and rng.rand() < 0.25
        if smp:
            m = "mcmc" if what == "shift" or rng.rand() < 0.5 else "hmc"
            cfg = configs.gen_smp(rng, method=m, jac=True, kinds=HMC if m == "hmc" else None if what == "x" else
                                  (["quantized"] if what == "shift" else ["sphere", "ellipsoid", "rosenbrock", "rastrigin", "abs", "linear"]),
                                  maxiter=int(rng.choice([3, 8, 20])) if what == "translate" else int(rng.choice([10, 40])))
        else:
            kinds = ["quantized"] if what in ("shift", "monotone") else (["sphere", "ellipsoid", "rastrigin"] if what == "translate" else KINDS)
            kw = dict(kinds=kinds, offset=0.0)
            if what == "translate":
                kw.update(maxiter=int(rng.choice([2, 3, 4])), ftol=configs.NO_FTOL)
            if what == "monotone":
                kw.update(ftol=configs.NO_FTOL)
            cfg = configs.gen_opt(rng, popmax=12, **kw)
            o = cfg["options"]
            if what in ("shift", "monotone") and o.get("constraints") == "Penalize":
                del o["constraints"]
            if what == "scale":
                o["xtol"] = 0.0
            if what in ("shift", "monotone"):
                o["xtol"] = 0.0 if rng.rand() < 0.5 else o["xtol"]
                if what == "shift" and o["ftol"] > -1e200:
                    o["ftol"] = round(o["ftol"] * 2.0**20) / 2.0**20
            if cfg["method"] == "cpso":
                o["competitivity"] = None if rng.rand() < 0.3 else 0.0
                if what in ("shift", "monotone"):
                    o["competitivity"] = float(rng.choice([0.0, 1.0]))
        cfg["args"] = []
        cfg["x0_form"] = "array"
        n = len(cfg["bounds"])
        t = {"what": what}
        if what == "scale":
            e = rng.randint(-12, 13, n)
            if not smp and i % 3 == 0:  # a change of the unit of all variables
                e = e + rng.randint(-100, 101)
            t["factor"] = (2.0 ** e).tolist()
        elif what == "translate":
            far = 1.9e5 if i % 10 == 2 else 1.0  # an offset that is large compared with the box
            t["by"] = (rng.uniform(-5.0, 5.0, n) * far * [1.0 if b[1] == b[0] else b[1] - b[0] for b in cfg["bounds"]]).tolist()
        elif what == "shift":
            t["how"] = ["shift", float(rng.randint(-(2**20), 2**20)) / 2.0**10]
        else:
            t["how"] = [str(rng.choice(["times", "sqrt", "log", "square", "exp"])), float(2.0 ** rng.randint(-20, 20))]
        cfg["transform"] = t
        out.append(cfg)
    return out


def mapped(case):
    """The transformed problem."""
    c = copy.deepcopy(case)
    t = case["transform"]
    b = np.array(case["bounds"], dtype=float)
    spec = c["objective"]
    if t["what"] == "scale":
        k = np.array(t["factor"])
        c["bounds"] = (b * k[:, None]).tolist()
        spec["c"] = (np.array(spec["c"]) * k).tolist()
        spec["s"] = (np.array(spec["s"]) * k).tolist()
        if c.get("x0") is not None:
            c["x0"] = (np.array(c["x0"]) * k).tolist()
    elif t["what"] == "translate":
        k = np.array(t["by"])
        c["bounds"] = (b + k[:, None]).tolist()
        spec["c"] = (np.array(spec["c"]) + k).tolist()
        if c.get("x0") is not None:
            nb = np.array(c["bounds"])
            c["x0"] = np.clip(np.array(c["x0"]) + k, nb[:, 0], nb[:, 1]).tolist()
    elif t["what"] == "shift":
        if "ftol" in c["options"] and c["options"]["ftol"] > -1e200:
            c["options"]["ftol"] += t["how"][1]
    return c


def run_case(case, obs):
    t = case["transform"]
    what = t["what"]
    a = trace.run(case)
    c2 = mapped(case)
    if what in ("scale", "translate"):
        b = trace.run(c2)
    else:
        b = trace.run(c2, fun=Mapped(case["objective"], t["how"]))
    P = case["options"].get("popsize", 1)
    info = dict(method=case["method"], options=case["options"], transform=t)
    if what == "scale":
        k = np.array(t["factor"])
        if not (np.abs(a.X) < 1e200).all():  # diverging swarms overflow sooner in larger units
            k = 0.0 * k
        elif len(a.X) != len(b.X):
            obs.violation("rescaled run has another length", lengths=[len(a.X), len(b.X)], **info)
            return
        if not k.any():
            k = np.array(t["factor"])
            m = int(np.argmin((np.abs(a.X) < 1e200).all(axis=1)))
            a.X, b.X, a.rx, b.rx = a.X[:m], b.X[:m], {"x": a.X[0]}, {"x": a.X[0] * k}
        obs.count("scaled_points", len(a.X))
        bad = np.flatnonzero(~(a.X * k == b.X).all(axis=1))
        if len(bad):
            g = int(bad[0])
            obs.violation("rescaling the variables changes the run", evaluation=g, iteration=g // P + 1, point=a.X[g], rescaled=b.X[g] / k, **info)
            return
        if not trace.same(a.rx["x"] * k, b.rx["x"]) or ("xall" in a.rx and not trace.same(a.rx["xall"] * k, b.rx["xall"])):
            obs.violation("rescaling the variables changes the result", x=a.rx["x"], rescaled=b.rx["x"] / k, **info)
        obs.nontrivial = len(a.X) > P
    elif what == "translate":
        k = np.array(t["by"])
        lo, up = trace.lo_up(case)
        lo2, up2 = trace.lo_up(c2)
        span = np.where(up > lo, up - lo, 1.0)
        mag = np.maximum(np.maximum(np.abs(lo), np.abs(up)), np.maximum(np.abs(lo2), np.abs(up2))) / span
        if mag.max() > 1e6:
            return
        m = min(len(a.X), len(b.X))
        if case["method"] == "cmaes":
            m = P  # later ones depend on which eigenvectors LAPACK picks
        if case["options"].get("constraints") is not None:
            # at a bound, round-off decides whether the constraint acts
            edge = np.flatnonzero(((np.abs(a.X - lo) < 1e-9 * span) | (np.abs(a.X - up) < 1e-9 * span)).any(axis=1))
            if len(edge) and case["method"] != "vdcma":
                m = min(m, int(edge[0]) + 1)
            if case["method"] == "vdcma" and case.get("x0") is not None:
                x = np.array(case["x0"])  # a mean on a bound: likewise
                if ((np.abs(x - lo) < 1e-9 * span) | (np.abs(x - up) < 1e-9 * span)).any():
                    m = P
        obs.count("translated_points", m)
        size = np.maximum(1.0, np.abs((a.X[:m] - lo) / span).max(axis=0))
        tol = 1e-6 * span * size
        bad = np.flatnonzero(~(np.abs(a.X[:m] + k - b.X[:m]) <= tol).all(axis=1)) if np.isfinite(size).all() else []
        if len(bad):
            g = int(bad[0])
            obs.violation("translating the problem changes the run", evaluation=g, iteration=g // P + 1, point=a.X[g], translated_back=b.X[g] - k, **info)
            return
        if case["kind"] == "smp" and m == len(a.X):
            obs.require(len(a.X) == len(b.X), "translated chain makes another number of evaluations", **info)
        obs.nontrivial = m > P
    else:
        m = min(len(a.X), len(b.X))
        obs.count("shifted_points" if what == "shift" else "monotone_points", m)
        bad = np.flatnonzero(~((a.X[:m] == b.X[:m]).all(axis=1)))
        if len(bad):
            g = int(bad[0])
            obs.violation("adding a constant changes the evaluated points" if what == "shift" else
                          "an increasing transformation of the values changes the evaluated points", evaluation=g, iteration=g // P + 1,
                          point=a.X[g], other=b.X[g], **info)
            return
        if case["kind"] == "smp" or (what == "shift" and case["method"] in configs.POPULATION):
            obs.require(len(a.X) == len(b.X), "adding a constant changes the length of the run", lengths=[len(a.X), len(b.X)], **info)
        obs.nontrivial = m > P
