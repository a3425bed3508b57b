"""Running the real library under a recorder placed at its boundary (objective, jac, callback, return)."""
import copy
import threading

import numpy as np

import stochopy
from stochopy.optimize import minimize
from stochopy.sample import sample

from .harness import BudgetExceeded
from .objectives import Objective

NDIM_SLACK = 4


class Trace:
    pass


def build_x0(cfg):
    x0 = cfg.get("x0")
    if x0 is None:
        return None
    form = cfg.get("x0_form", "array")
    a = np.array(x0, dtype=float)
    if form == "list":
        return copy.deepcopy(x0)
    if form == "fortran":
        return np.asfortranarray(a)
    if form == "strided":
        big = np.full(tuple(2 * n for n in a.shape), 7.0)
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    return a


def build_options(cfg):
    o = copy.deepcopy(cfg["options"])
    if isinstance(o.get("stepsize"), list) and cfg.get("stepsize_form", "array") == "array":
        o["stepsize"] = np.array(o["stepsize"])
    return o


class Gradient:
    """Analytic gradient of the quadratic objectives."""

    def __init__(self, spec):
        self.c = np.array(spec["c"], dtype=float)
        self.s = np.array(spec["s"], dtype=float)
        n = len(self.c)
        self.w = np.ones(n) if spec["kind"] == "sphere" else 10.0 ** (2.0 * np.arange(n) / max(1, n - 1))

    def __call__(self, x, *args):
        return 2.0 * self.w * (np.asarray(x) - self.c) / self.s**2


def budget(cfg):
    o = cfg["options"]
    if cfg["kind"] == "opt":
        return o["popsize"] * (o["maxiter"] + 3) + 10
    n = len(cfg["bounds"])
    if cfg["method"] == "mcmc":
        return o["maxiter"] * (n + 2) + 10
    return (o["maxiter"] + 1) * (2 * n * (o.get("nleap", 10) + 4) + 4) + 10


class Recorder:
    """Wraps fun: logs every call at the client boundary."""

    def __init__(self, cfg, fun=None, fault=None):
        self.cfg = cfg
        self.f = fun or Objective(cfg["objective"])
        self.ndim = len(cfg["bounds"])
        self.args = tuple(cfg.get("args", ()))
        self.limit = budget(cfg)
        self.lock = threading.Lock()
        self.x = []
        self.v = []
        self.threads = []
        self.protocol = []
        self.fault = fault

    def __call__(self, x, *args, **kwargs):
        with self.lock:
            k = len(self.x)
            bad = self.check(x, args, kwargs)
            if bad and len(self.protocol) < 5:
                self.protocol.append((k, bad))
            xc = np.array(x, dtype=float, copy=True)
            self.x.append(xc)
            self.v.append(None)
            self.threads.append(threading.get_ident())
        if k >= self.limit:
            raise BudgetExceeded("more than %d evaluations" % self.limit)
        if self.fault is not None:
            self.fault(k)
        v = self.f(xc, *args)
        self.v[k] = float(v)
        return v

    def check(self, x, args, kwargs):
        if kwargs:
            return "keyword arguments %r" % sorted(kwargs)
        if not isinstance(x, np.ndarray):
            return "x is a %s" % type(x).__name__
        if x.ndim != 1 or x.shape[0] != self.ndim:
            return "x has shape %r, expected (%d,)" % (x.shape, self.ndim)
        if x.dtype != np.float64:
            return "x has dtype %s" % x.dtype
        if len(args) != len(self.args) or any(a is not b and a != b for a, b in zip(args, self.args)):
            return "args are %r, expected %r" % (args, self.args)
        return None


def snapshot_result(r):
    """A deep copy as a plain dict (keeps no reference to live buffers)."""
    return {k: (np.array(v, copy=True) if isinstance(v, np.ndarray) else copy.deepcopy(v)) for k, v in r.items()}


def run(cfg, callback=True, front="minimize", fun=None, fault=None, x0=None, bounds=None,
        cb_fault=None, options=None, drop=()):
    """Run one configuration; returns a Trace. Exceptions of the run propagate."""
    t = Trace()
    t.cfg = cfg
    rec = Recorder(cfg, fun=fun, fault=fault)
    t.rec = rec
    t.cb = []

    def cb(X, state):
        t.cb.append(
            {
                "neval": len(rec.x),
                "X": np.array(X, dtype=float, copy=True),
                "Xtype": type(X),
                "type": type(state),
                "state": snapshot_result(state),
            }
        )
        if cb_fault is not None:
            cb_fault(len(t.cb) - 1)

    o = build_options(cfg) if options is None else options
    for k in drop:
        o.pop(k, None)
    t.options = o
    t.x0 = build_x0(cfg) if x0 is None else x0
    t.bounds = copy.deepcopy(cfg["bounds"]) if bounds is None else bounds
    t.jac = None
    if cfg.get("jac"):
        g = Gradient(cfg["objective"])
        t.jac = []

        def jac(x, *args):
            t.jac.append((len(rec.x), np.array(x, copy=True), rec.check(x, args, {}), len(t.cb)))
            return g(x)

        o["jac"] = jac
    args = tuple(cfg.get("args", ()))
    c = cb if callback else None
    t.res = call(cfg, rec, t.bounds, t.x0, args, o, c, front)
    t.rx = snapshot_result(t.res)
    t.X = np.array(rec.x) if rec.x else np.empty((0, rec.ndim))
    t.V = np.array(rec.v, dtype=float)
    return t


def call(cfg, fun, bounds, x0, args, options, callback, front="minimize"):
    if front == "minimize":
        if cfg["kind"] == "opt":
            return minimize(fun, bounds, x0=x0, args=args, method=cfg["method"], options=options, callback=callback)
        return sample(fun, bounds, x0=x0, args=args, method=cfg["method"], options=options, callback=callback)
    mod = stochopy.optimize if cfg["kind"] == "opt" else stochopy.sample
    return getattr(mod, cfg["method"])(fun, bounds, x0=x0, args=args, callback=callback, **options)


# ---------------------------------------------------------------------------------------------
# Shared facts


def lo_up(cfg):
    b = np.array(cfg["bounds"], dtype=float)
    return b[:, 0], b[:, 1]


def box_tol(lo, up):
    """Round-off allowance: a few ulps of the numbers the box is made of."""
    return 16.0 * np.finfo(float).eps * np.maximum(np.abs(lo), np.abs(up))


def outside(P, lo, up):
    """Boolean per row: not inside the box (NaNs count as outside)."""
    P = np.atleast_2d(P)
    t = box_tol(lo, up)
    return ~((P >= lo - t) & (P <= up + t)).all(axis=1)


def penalized(cfg):
    return cfg["options"].get("constraints") == "Penalize"


def overflowed(t):
    """Number of evaluations before a diverging population's first position beyond the floats (all, if there is none)."""
    if t.cfg["method"] not in ("pso", "cpso", "de") or t.cfg["options"].get("constraints") is not None:
        return len(t.V)
    bad = ~np.isfinite(t.X).all(axis=1) | np.isnan(t.V)
    k = int(np.argmax(bad)) if bad.any() else len(t.V)
    return k if k and np.abs(t.X[:k]).max() > 1e150 else len(t.V)


def same(a, b):
    """Bitwise equality of numbers/arrays (NaN equals NaN)."""
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))


def same_result(r1, r2):
    """First differing field of two result dicts, or None."""
    if set(r1) != set(r2):
        return "fields %r" % sorted(set(r1) ^ set(r2))
    for k in sorted(r1):
        v1, v2 = r1[k], r2[k]
        if isinstance(v1, (str, bool)) or v1 is None:
            if v1 != v2:
                return k
        elif not same(v1, v2):
            return k
    return None


def close_x(a, b, lo, up):
    scale = np.maximum(np.maximum(np.abs(lo), np.abs(up)), np.maximum(np.abs(a), np.abs(b)))
    return bool(np.all((np.abs(a - b) <= 1e-10 * scale) | (a == b) | ((a != a) & (b != b))))
