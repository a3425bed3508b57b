"""C28 - benchmark functions compute their published formulas."""
import math
import pickle

import numpy as np

from stochopy import factory

LEVEL = "exploration"
RULE = ("every benchmark at random, special and minimizing points of 1 to 200 variables over many magnitudes, dtypes and containers, compared with "
        "term-by-term evaluation in extended precision (fractions or math.fsum); non-trivial: a finite value was compared")
MINIMA = {"compared": 8000, "minima": 60, "near_minima": 2000, "integers": 1500, "containers": 5000}

NAMES = ["ackley", "griewank", "quartic", "rastrigin", "rosenbrock", "sphere", "styblinski_tang"]
MINIMIZER = {"rosenbrock": 1.0, "styblinski_tang": -2.903534027771178}
FORMS = ["list", "tuple", "array", "strided", "int list", "int64", "int32", "int16", "uint8", "float32", "readonly", "numpy scalars", "fortran"]


def cases(ctx):
    out = []
    for i in range(ctx.n(3600, 20000)):
        rng = ctx.rng(i)
        n = int(rng.choice([1, 2, 3, 4, 7, 20, 200, rng.randint(1, 60)]))
        form = FORMS[i % len(FORMS)]
        out.append({"n": n, "form": form, "seed": int(rng.randint(2**31 - 1)), "kind": str(rng.choice(["box", "magnitude", "special", "near", "minimizer"]))})
    return out


def point(case, name):
    rng = np.random.RandomState(case["seed"])
    n, k = case["n"], case["kind"]
    m = MINIMIZER.get(name, 0.0)
    if k == "box":
        x = rng.uniform(-5.12, 5.12, n)
    elif k == "magnitude":
        x = rng.randn(n) * 10.0 ** rng.uniform(-12, 12, n) if rng.rand() < 0.3 else rng.randn(n) * 10.0 ** rng.uniform(-8, 4)
    elif k == "special":
        x = rng.choice([0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -0.0, 0.25, 1e-300, 100.0], n)
    elif k == "near":
        x = m + rng.randn(n) * 10.0 ** rng.uniform(-9, -0.5)
    else:
        x = np.full(n, m)
    f = case["form"]
    if f.startswith("int") or f == "uint8":
        top = {"int list": 10**6, "int64": 10**6, "int32": 40000, "int16": 3000, "uint8": 255}[f]
        x = np.clip(np.round(x * rng.choice([1, 1, 10, 300])), 0 if f == "uint8" else -top, top).astype(int)
    if f == "float32":
        x = np.float32(x)
    v = [x_.item() for x_ in x]
    if f == "list" or f == "int list":
        return v, list(v)
    if f == "tuple":
        return v, tuple(v)
    if f == "numpy scalars":
        return v, [np.float64(w) for w in v]
    a = np.array(v, dtype=f if f in ("int64", "int32", "int16", "uint8", "float32") else float)
    if f == "strided":
        b = np.full(3 * len(v), np.nan)
        b[::3] = a
        a = b[::3]
    elif f == "fortran":
        a = np.asfortranarray(a)[::-1][::-1]
    elif f == "readonly":
        a.setflags(write=False)
    return v, a


def reference(name, v):
    """(value, error allowance) evaluated term by term."""
    n = len(v)
    v = [float(w) for w in v]
    eps = 2.0**-52
    if name == "sphere":
        t = [w * w for w in v]
        return math.fsum(t), 8 * eps * math.fsum(map(abs, t)) * max(1, math.log2(n + 1)) + 1e-310
    if name == "quartic":
        t = [(i + 1) * w**4 for i, w in enumerate(v)]
        return math.fsum(t), 16 * eps * math.fsum(map(abs, t)) * max(1, math.log2(n + 1)) + 1e-310
    if name == "rastrigin":
        t = [w * w - 10.0 * cos2pi(w) + 10.0 for w in v]
        s = math.fsum(w * w + 20.0 for w in v)
        return math.fsum(t), 32 * eps * (s + 20 * math.pi * sum(map(abs, v)))
    if name == "styblinski_tang":
        t = [0.5 * (w**4 - 16.0 * w * w + 5.0 * w) for w in v]
        s = math.fsum(0.5 * (w**4 + 16.0 * w * w + 5.0 * abs(w)) for w in v)
        return math.fsum(t) + 39.16616570377142 * n, 32 * eps * (s + 40.0 * n) + 2.5e-4 * n
    if name == "rosenbrock":
        t = [100.0 * (b - a * a) ** 2 + (1.0 - a) ** 2 for a, b in zip(v, v[1:])]
        s = math.fsum(100.0 * (abs(b) + a * a) ** 2 + (1.0 + abs(a)) ** 2 for a, b in zip(v, v[1:]))
        # condition: error of b - a^2 relative to its magnitude
        e = math.fsum(200.0 * abs(b - a * a) * (abs(b) + a * a) + 2 * abs(1 - a) * (1 + abs(a)) for a, b in zip(v, v[1:]))
        return math.fsum(t), 8 * eps * (e + math.fsum(t) * math.log2(n + 2)) + 64 * eps * eps * s
    if name == "ackley":
        r = math.sqrt(math.fsum(w * w for w in v) / n)
        c = math.fsum(cos2pi(w) for w in v) / n
        cond = 2 * math.pi * math.fsum(map(abs, v)) / n
        return -20.0 * math.exp(-0.2 * r) - math.exp(c) + 20.0 + math.e, 64 * eps * (50.0 + 3 * cond + 4 * r)
    if name == "griewank":
        s = math.fsum(w * w for w in v) / 4000.0
        p = 1.0
        cond = 0.0
        for i, w in enumerate(v):
            p *= math.cos(w / math.sqrt(i + 1.0))
            cond += abs(w) / math.sqrt(i + 1.0)
        return s - p + 1.0, 16 * eps * (s * math.log2(n + 2) + n + 2.0 + cond)
    raise KeyError(name)


def cos2pi(w):
    """cos(2 pi w), exact reduction."""
    return math.cos(2.0 * math.pi * math.fmod(w, 1.0))


def run_case(case, obs):
    for name in NAMES:
        f = getattr(factory, name)
        v, a = point(case, name)
        before = pickle.dumps(a)
        got = f(a)
        info = dict(function=name, point=v[:6], n=len(v), form=case["form"])
        if pickle.dumps(a) != before:
            obs.violation("a benchmark modified its argument", **info)
            return
        want, err = reference(name, v)
        if np.ndim(got) != 0 or not math.isfinite(want):
            if np.ndim(got) != 0:
                obs.violation("a benchmark does not return a number", got=got, **info)
                return
            continue
        obs.nontrivial = True
        obs.count("compared")
        obs.count("containers", case["form"] not in ("array", "list"))
        obs.count("integers", case["form"].startswith("int") or case["form"] == "uint8")
        if not abs(float(got) - want) <= err:
            obs.violation("%s differs from its published formula" % name, got=float(got), expected=want, allowance=err, **info)
            return
        # the published minimum is 0 everywhere (constants of Styblinski-Tang are rounded)
        floor = 2e-4 * len(v) if name == "styblinski_tang" else 64 * 2.0**-52 * (len(v) + 50) * (1 + max(map(abs, v)))
        if not got >= -floor:
            obs.violation("%s is lower than its published minimum" % name, got=float(got), **info)
            return
        if case["kind"] in ("near", "minimizer"):
            obs.count("near_minima")
        if case["kind"] == "minimizer" and case["form"] in ("list", "tuple", "array", "strided", "readonly", "fortran", "numpy scalars"):
            obs.count("minima")
            if not abs(float(got)) <= floor + 1e-12 * len(v):
                obs.violation("%s does not take its published minimum at the minimizer" % name, got=float(got), **info)
                return
