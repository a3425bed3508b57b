"""C11 - arguments are left untouched and their representation does not matter."""
import copy

import numpy as np

from .. import configs, digest, trace
from ..objectives import random_spec

LEVEL = "exploration"
RULE = ("seeded runs of every method with the same numbers passed as lists, tuples, C/Fortran/strided/read-only arrays and integers; "
        "deep snapshots of all arguments before and after, memory sharing of results with x0, bitwise comparison of traces; "
        "non-trivial: >= 3 representations were compared")
MINIMA = {"comparisons": 1500, "integer_forms": 100, "x0_forms": 500, "stepsize_forms": 80}

FORMS = ["list", "tuple", "array", "fortran", "strided", "readonly", "int", "intarray", "int32", "mixed", "object_free_list"]


def cases(ctx):
    out = []
    for i in range(ctx.n(900, 5000)):
        rng = ctx.rng(i)
        ints = i % 3 == 0
        if rng.rand() < 0.3:
            cfg = configs.gen_smp(rng)
        else:
            cfg = configs.gen_opt(rng, popmax=10, fixed=False)
        n = len(cfg["bounds"])
        if ints:
            lo = rng.randint(-6, 5, n)
            cfg["bounds"] = [[int(l), int(l + w)] for l, w in zip(lo, rng.randint(1, 9, n))]
            if cfg.get("jac"):
                cfg["objective"] = random_spec(rng, cfg["bounds"], kinds=["sphere"])
            else:
                cfg["objective"] = random_spec(rng, cfg["bounds"], kinds=["sphere", "abs", "rastrigin"])
        if rng.rand() < 0.8 or ints:
            cfg["x0"] = configs.feasible_x0(rng, cfg)
            if ints:
                cfg["x0"] = np.round(np.array(cfg["x0"])).tolist()
        cfg.pop("x0_form", None)
        if cfg["kind"] == "smp" and ints and rng.rand() < 0.5:
            cfg["options"]["stepsize"] = [1.0] * n if rng.rand() < 0.5 else 1.0
        out.append({"cfg": cfg, "ints": ints, "forms": [str(f) for f in rng.permutation(FORMS)[:6]]})
    return out


def form(v, how):
    """The same numbers in another container, or None where impossible."""
    if v is None:
        return None
    a = np.array(v, dtype=float)
    if how in ("list", "object_free_list"):
        return a.tolist()
    if how == "tuple":
        return tuple(map(tuple, a.tolist())) if a.ndim == 2 else tuple(a.tolist())
    if how == "array":
        return a
    if how == "fortran":
        return np.asfortranarray(a)
    if how == "strided":
        big = np.full(tuple(2 * s + 1 for s in a.shape), np.nan)
        view = big[tuple(slice(1, None, 2) for _ in a.shape)]
        view[...] = a
        return view
    if how == "readonly":
        a.flags.writeable = False
        return a
    if not (a == np.round(a)).all():
        return None
    if how == "int":
        return a.astype(int).tolist()
    if how == "intarray":
        return a.astype(np.int64)
    if how == "int32":
        return a.astype(np.int32)
    if how == "mixed":
        return [[int(x) if (j + k) % 2 else float(x) for k, x in enumerate(r)] for j, r in enumerate(a)] if a.ndim == 2 else [
            int(x) if j % 2 else float(x) for j, x in enumerate(a)]
    raise KeyError(how)


def freeze(v):
    if isinstance(v, np.ndarray):
        return ("array", v.dtype.str, v.shape, v.strides, v.flags.writeable, v.tobytes())
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [freeze(w) for w in v])
    if isinstance(v, dict):
        return ("dict", [(k, freeze(v[k])) for k in v])
    return (type(v).__name__, repr(v) if not callable(v) else id(v))


def arrays(v):
    if isinstance(v, np.ndarray):
        yield v
    elif isinstance(v, dict):
        for w in v.values():
            yield from arrays(w)


def run_once(cfg, b, x0, step, obs, how, front):
    rec = trace.Recorder(cfg)
    o = trace.build_options(cfg)
    if step is not None:
        o["stepsize"] = step
    if cfg.get("jac"):
        g = trace.Gradient(cfg["objective"])
        o["jac"] = lambda x, *a: g(x)
    args = tuple(cfg["args"])
    before = [freeze(v) for v in (b, x0, o, args)]
    states = []
    kept = []

    def cb(X, s):
        states.append([np.array(X, copy=True), trace.snapshot_result(s)])
        kept.append(s)

    res = trace.call(cfg, rec, b, x0, args, o, cb, front)
    after = [freeze(v) for v in (b, x0, o, args)]
    for name, p, q in zip(("bounds", "x0", "options", "args"), before, after):
        if p != q:
            obs.violation("run modified its argument " + name, form=how, method=cfg["method"])
    snap = trace.snapshot_result(res)
    if isinstance(x0, np.ndarray):
        for r in [res] + kept:
            for a in arrays(r):
                if np.shares_memory(a, x0):
                    obs.violation("result shares memory with x0", form=how, method=cfg["method"])
                    break
        if x0.flags.writeable:
            x0 += 1000.0 if x0.dtype.kind == "f" else 1000
            bad = trace.same_result(snap, trace.snapshot_result(res))
            obs.require(bad is None, "result changes when the caller reuses x0", field=bad, form=how)
    if rec.protocol:
        obs.violation("objective called wrongly", form=how, what2=rec.protocol[0])
    return digest.of([np.array(rec.x), rec.v, states, snap])


def run_case(case, obs):
    cfg = case["cfg"]
    step = cfg["options"].get("stepsize")
    ref = run_once(cfg, form(cfg["bounds"], "list"), form(cfg["x0"], "array"),
                   np.array(step) if isinstance(step, list) else step, obs, "reference", "minimize")
    n = 0
    for how in case["forms"]:
        b = form(cfg["bounds"], how)
        x0 = form(cfg["x0"], how)
        st = step
        if isinstance(step, list):
            st = form(step, how)
            st = np.array(step) if st is None else st
            obs.count("stepsize_forms")
        elif step is not None and how == "int" and step == int(step):
            st = int(step)
        if b is None:
            b = form(cfg["bounds"], "tuple")
        if x0 is None and cfg["x0"] is not None:
            x0 = form(cfg["x0"], "tuple")
        if cfg["x0"] is not None:
            obs.count("x0_forms")
        if how.startswith("int"):
            obs.count("integer_forms", case["ints"])
        d = run_once(cfg, b, x0, st, obs, how, "direct" if n % 2 else "minimize")
        obs.count("comparisons")
        n += 1
        if d != ref:
            obs.violation("equal arguments in another representation gave another run", form=how, method=cfg["method"],
                          bounds=cfg["bounds"], x0=cfg["x0"], options=cfg["options"])
            return
    obs.nontrivial = n >= 3
