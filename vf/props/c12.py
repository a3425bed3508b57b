"""C12 - objective, gradient and callback are called as documented."""
import numbers

import numpy as np

from .. import configs, trace
from ..replay import generations
from stochopy.optimize import OptimizeResult
from stochopy.sample import SampleResult

LEVEL = "exploration"
RULE = ("random runs of every method incl. dimension 1, args tuples (also with mutable and non-numeric entries), extreme valid parameters "
        "and wide boxes; each call of fun, jac and callback and the result are checked; non-trivial: a call was checked")
MINIMA = {"fun_calls": 20000, "jac_calls": 2000, "callbacks": 3000, "args_calls": 5000, "parallel_calls": 2000}


def cases(ctx):
    out = []
    for i in range(ctx.n(3000, 12000)):
        rng = ctx.rng(i)
        if i % 4 == 3:
            cfg = configs.gen_smp(rng, method="hmc" if i % 8 == 3 else None, jac=True if i % 16 == 3 else None,
                                  kinds=["sphere", "ellipsoid"] if i % 16 == 3 else None)
        else:
            cfg = configs.gen_opt(rng, popmax=12)
            if cfg["method"] in ("cmaes", "vdcma") and rng.rand() < 0.5:
                cfg["options"]["muperc"] = float(rng.choice([1e-9, 0.01, 1.0, 0.999]))
                cfg["options"]["sigma"] = float(rng.choice([1e-6, 0.1, 5.0]))
            if rng.rand() < 0.1:
                cfg["bounds"] = [[-1e150, 1e150] for _ in cfg["bounds"]] if cfg["method"] != "na" else [[-1e70, 1e70] for _ in cfg["bounds"]]
                from ..objectives import random_spec
                cfg["objective"] = random_spec(rng, cfg["bounds"], kinds=["hash", "abs"], where="in", offset=0.0)
                cfg["x0"] = None
            if i % 10 == 5:
                cfg["options"]["workers"] = int(rng.choice([2, 3]))
                cfg["options"]["backend"] = [None, "threading"][i % 4 // 2]
                if cfg["method"] in ("de", "pso", "cpso"):
                    cfg["options"]["updating"] = "deferred"
        cfg["args"] = [[], [1.5], [0.0, 2.0], [1.0, "tag", None], [{"k": 1}], [[1, 2, 3]], [True, 0.5, 2, 3, 4]][i % 7]
        out.append(cfg)
    return out


def fields(cfg, final):
    f = {"x", "fun", "nit"}
    if cfg["kind"] == "opt":
        f |= {"nfev"}
        if final:
            f |= {"success", "status", "message"}
        if cfg["options"].get("return_all"):
            f |= {"xall", "funall"}
    else:
        f |= {"accept_ratio"}
        if cfg["method"] == "hmc":
            f |= {"nfev"}
        if cfg["options"].get("return_all", True):
            f |= {"xall", "funall"}
    return f


def check_fields(obs, cfg, d, final, where):
    n = len(cfg["bounds"])
    want = fields(cfg, final)
    if not obs.require(set(d) == want, "result/state has other fields than documented", where=where, method=cfg["method"],
                       missing=sorted(want - set(d)), extra=sorted(set(d) - want)):
        return
    obs.require(isinstance(d["x"], np.ndarray) and d["x"].shape == (n,) and d["x"].dtype == np.float64, "x is not a float vector",
                where=where, x=d["x"])
    obs.require(isinstance(d["fun"], numbers.Real) and not isinstance(d["fun"], bool), "fun is not a real scalar", where=where,
                type=type(d["fun"]).__name__)
    for k in ("nit", "nfev", "status"):
        if k in d:
            obs.require(isinstance(d[k], numbers.Integral), k + " is not an integer", where=where, type=type(d[k]).__name__)
    if "accept_ratio" in d:
        obs.require(isinstance(d["accept_ratio"], numbers.Real) and 0.0 <= d["accept_ratio"] <= 1.0, "accept_ratio outside [0, 1]", where=where)
    if final and cfg["kind"] == "opt":
        obs.require(isinstance(d["success"], (bool, np.bool_)), "success is not a bool", where=where)
        obs.require(isinstance(d["message"], str) and d["message"], "message is not a text", where=where)


def run_case(case, obs):
    t = trace.run(case)
    n = len(case["bounds"])
    o = case["options"]
    obs.count("fun_calls", len(t.X))
    obs.count("args_calls", len(t.X) * bool(case["args"]))
    if t.rec.protocol:
        obs.violation("objective not called as f(x, *args) with a float vector", method=case["method"], call=t.rec.protocol[0][0],
                      problem=t.rec.protocol[0][1])
    long = case["kind"] == "opt" and o.get("constraints") is None and case["method"] in ("pso", "cpso") and len(t.X) > 60 * o["popsize"]
    # values that overflow legitimately feed NaN/inf back into adaptive optimizers: only judge finiteness on finite values
    if not long and np.isfinite(t.V).all():
        obs.require(np.isfinite(t.X).all(), "objective called with non-finite numbers", method=case["method"],
                    at=np.flatnonzero(~np.isfinite(t.X).all(axis=1))[:3], options=o)
    if t.jac is not None:
        obs.count("jac_calls", len(t.jac))
        for k, (_, x, bad, _) in enumerate(t.jac):
            if bad:
                obs.violation("jac not called as jac(x, *args) with a float vector", call=k, problem=bad)
                break
    cls = OptimizeResult if case["kind"] == "opt" else SampleResult
    obs.require(type(t.res) is cls, "result has another type", type=type(t.res).__name__)
    check_fields(obs, case, t.rx, True, "result")
    if case["kind"] == "opt":
        P = o["popsize"]
        G, _ = generations(case, t)
        parallel = o.get("workers", 1) > 1
        obs.count("parallel_calls", parallel * len(t.X))
        for k, c in enumerate(t.cb):
            obs.count("callbacks")
            obs.require(c["type"] is cls, "state has another type", type=c["type"].__name__)
            check_fields(obs, case, c["state"], False, "state %d" % k)
            obs.require(issubclass(c["Xtype"], np.ndarray) and c["X"].shape == (P, n), "callback population has another shape",
                        shape=c["X"].shape, expected=(P, n))
            if k < len(G) and c["X"].shape == (P, n):
                if case["method"] == "de":
                    # the population is made of points evaluated so far
                    seen = set(map(bytes, np.ascontiguousarray(G[: k + 1].reshape(-1, n) + 0.0)))
                    ok = all(bytes(x) in seen for x in np.ascontiguousarray(c["X"] + 0.0))
                else:
                    a, b = c["X"], G[k]
                    if parallel:  # in the order of completion: match the members
                        b = b[[int(np.abs((b - x) / (np.abs(b) + np.abs(x) + 1e-300)).sum(axis=1).argmin()) for x in a]]
                    ok = not np.isfinite(b).all() or (a == b).all()
                if not obs.require(ok, "callback population is not that of the iteration", k=k, method=case["method"]):
                    break
    else:
        for k, c in enumerate(t.cb):
            obs.count("callbacks")
            obs.require(c["type"] is cls, "state has another type", type=c["type"].__name__)
            check_fields(obs, case, c["state"], False, "state %d" % k)
            obs.require(issubclass(c["Xtype"], np.ndarray) and c["X"].shape == (n,), "callback sample has another shape", shape=c["X"].shape)
            if len(obs.violations) > 2:
                break
    obs.nontrivial = True
