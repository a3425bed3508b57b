"""C32 - the number type of the objective's values does not matter."""
import copy
import numbers

import numpy as np

from .. import configs, trace
from ..objectives import Objective

LEVEL = "exploration"
RULE = ("every optimizer and sampler on objectives whose values come as Python or NumPy integers of every width and sign, booleans, floats of other "
        "widths, zero-dimensional arrays, and in alternation; compared with the run on floats of equal value; gradients as lists, tuples and "
        "narrow floats; non-trivial: a pair was compared")
MINIMA = {"pairs": 900, "narrow": 250, "hmc_gradients": 40, "jac_forms": 60, "parallel": 150}

INT = {"int8": (-128, 127), "uint8": (0, 255), "int16": (-32768, 32767), "uint16": (0, 65535), "int32": (-2**31, 2**31 - 1), "uint32": (0, 2**32 - 1),
       "int64": (-2**62, 2**62), "uint64": (0, 2**63)}
FORMS = ["int", "big", "bool", "np.bool", "float32", "float16", "longdouble", "float64", "0d", "0d int", "alternating", "integer/float"] + list(INT)


class Typed:
    """The objective's value in another type; `plain` gives the float of equal value instead."""

    def __init__(self, spec, form, scale, plain):
        self.f, self.form, self.scale, self.plain = Objective(spec), form, scale, plain
        self.k = 0

    def __call__(self, x, *args):
        v = float(self.f(x, *args))
        self.k = int(np.asarray(x, dtype=float).view(np.uint64).sum() >> np.uint64(20)) % 60  # (depends on the point: calls may come in any order)
        if not np.isfinite(v):
            v = 1e9
        v = min(max(v, -1e15), 1e15)  # (values of diverging runs must stay in the range of int64)
        w = self.typed(v)
        return float(w) if self.plain else w

    def typed(self, v):
        form = self.form
        if form in INT:
            lo, up = INT[form]
            mid = 0 if lo < 0 else up // 3
            return np.dtype(form).type(int(min(max(np.floor(v * self.scale) + mid, lo), up)))
        if form == "int":
            return int(np.floor(v * self.scale))
        if form == "big":
            return int(np.floor(v * self.scale)) * 2**40 + self.k % 3
        if form == "bool":
            return v * self.scale > 30.0
        if form == "np.bool":
            return np.bool_(v * self.scale > 30.0)
        if form == "float16":
            return np.float16(min(max(v, -6e4), 6e4))
        if form == "float32":
            return np.float32(v)
        if form == "longdouble":
            return np.longdouble(v)
        if form == "float64":
            return np.float64(v)
        if form == "0d":
            return np.array(v)
        if form == "0d int":
            return np.array(int(np.floor(v * self.scale)), dtype=np.int32 if abs(v * self.scale) < 2e9 else np.int64)
        if form == "alternating":
            n = int(np.floor(v * self.scale))
            return [n, float(n), np.float32(n % 1000), np.array(n), np.float64(n)][self.k % 5]
        return int(np.floor(v * self.scale)) if self.k % 2 else float(v)


class Jac:
    def __init__(self, spec, form):
        self.g, self.form = trace.Gradient(spec), form

    def __call__(self, x, *args):
        g = np.float32(self.g(x)).astype(float)
        f = self.form
        if f == "list":
            return g.tolist()
        if f == "tuple":
            return tuple(g.tolist())
        if f == "float32":
            return g.astype(np.float32)
        if f == "strided":
            b = np.zeros(2 * len(g))
            b[::2] = g
            return b[::2]
        if f == "readonly":
            g.setflags(write=False)
        return g


def cases(ctx):
    out = []
    for i in range(ctx.n(1000, 8000)):
        rng = ctx.rng(i)
        if i % 4 == 3:
            m = ["hmc", "mcmc"][i // 4 % 2]
            cfg = configs.gen_smp(rng, method=m, maxiter=int(rng.choice([3, 8, 20])), jac=False, kinds=["sphere", "ellipsoid", "abs", "linear"])
            if m == "hmc":
                cfg["options"]["finite_diff_abs_step"] = float(0.05 * min(b[1] - b[0] for b in cfg["bounds"]))
        else:
            cfg = configs.gen_opt(rng, popmax=10, kinds=["sphere", "ellipsoid", "rastrigin", "abs", "linear", "rosenbrock"])
            if i % 12 == 5:
                cfg["options"].update(workers=2, backend=["threading", None][i // 12 % 2])
        cfg["args"] = []
        out.append({"cfg": cfg, "form": FORMS[rng.randint(len(FORMS))] if i % 3 else list(INT)[rng.randint(len(INT))], "scale": float(rng.choice([1.0, 7.0, 40.0]))})
    for i in range(ctx.n(160, 1000)):  # mixed types in one generation
        rng = ctx.rng("mixed", i)
        cfg = configs.gen_opt(rng, popmax=10, kinds=["sphere", "ellipsoid", "rastrigin", "abs", "linear", "rosenbrock"])
        cfg["args"] = []
        if i % 4:
            cfg["options"].update(workers=2, backend=["threading", None][i % 2], updating="deferred")
            if cfg["method"] in ("cmaes", "vdcma", "na"):
                cfg["options"].pop("updating", None)
        out.append({"cfg": cfg, "form": ["alternating", "integer/float", "big"][i % 3], "scale": float(rng.choice([1.0, 7.0, 40.0]))})
    for i in range(ctx.n(80, 600)):
        rng = ctx.rng("jac", i)
        cfg = configs.gen_smp(rng, method="hmc", maxiter=int(rng.choice([3, 8, 20])), jac=True, kinds=["sphere", "ellipsoid"])
        cfg["jac"] = False
        cfg["args"] = []
        out.append({"cfg": cfg, "jac": ["list", "tuple", "float32", "strided", "readonly"][i % 5]})
    return out


def differ(a, b):
    """First difference in value between two runs (types aside)."""
    if a.X.shape != b.X.shape or not trace.same(a.X, b.X):
        return "evaluated points"
    for k, (c, d) in enumerate(zip(a.cb, b.cb)):
        bad = trace.same_result(c["state"], d["state"])
        if bad or not trace.same(c["X"], d["X"]):
            return "callback %d: %s" % (k + 1, bad or "population")
    if len(a.cb) != len(b.cb):
        return "number of callbacks"
    return trace.same_result(a.rx, b.rx)


def with_jac(cfg, form):
    o = trace.build_options(cfg)
    o["jac"] = Jac(cfg["objective"], form)
    return o


def run_case(case, obs):
    cfg = case["cfg"]
    if "jac" in case:
        a = trace.run(cfg, options=with_jac(cfg, "array"))
        b = trace.run(cfg, options=with_jac(cfg, case["jac"]))
        obs.count("jac_forms")
        what = "form of the gradient"
        form = case["jac"]
    else:
        form = case["form"]
        a = trace.run(cfg, fun=Typed(cfg["objective"], form, case["scale"], True))
        b = trace.run(cfg, fun=Typed(cfg["objective"], form, case["scale"], False))
        obs.count("pairs")
        obs.count("narrow", form in INT)
        obs.count("hmc_gradients", cfg["method"] == "hmc")
        obs.count("parallel", cfg["options"].get("workers") == 2)
        what = "number type of the values"
    obs.nontrivial = True
    bad = None
    if cfg["options"].get("workers") == 2:
        # evaluations end in any order: the deliveries are compared
        a.X = b.X = a.X[:0]
        bad = differ(a, b)
    else:
        bad = differ(a, b)
    if bad:
        obs.violation("the %s changed the run" % what, form=form, difference=bad, method=cfg["method"], options=cfg["options"],
                      fun=[a.rx["fun"], b.rx["fun"]])
        return
    for where, d in [("result", b.res)] + [("state", c["state"]) for c in b.cb]:
        obs.require(isinstance(d["fun"], numbers.Real), "fun is not a real number", where=where, type=type(d["fun"]).__name__, form=form)
