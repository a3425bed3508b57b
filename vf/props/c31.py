"""C31 - runs do not corrupt each other when nested or concurrent."""
import copy
import sys
import threading
import time

import numpy as np

from .. import configs, trace
from ..harness import Obs
from ..objectives import Objective
from . import c01

LEVEL = "exploration"
RULE = ("groups of runs executed concurrently in threads with a tiny switch interval and yields inside the objectives, and runs whose objective or "
        "callback executes further runs (same and other methods, to depth 2); every run's report is checked against its own log of calls; "
        "non-trivial: runs really interleaved (evaluations of two runs alternated) or nested")
MINIMA = {"runs": 1500, "concurrent_runs": 600, "nested_runs": 500, "alternations": 5000, "pairs": 2000, "states": 3000}
CASE_TIMEOUT = 240.0


def cases(ctx):
    out = []
    for i in range(ctx.n(960, 3840)):
        rng = ctx.rng(i)
        same = bool(rng.rand() < 0.5)
        m = str(rng.choice(configs.OPTIMIZERS + ["mcmc", "hmc"]))
        k = int(rng.choice([2, 3, 4, 8]))
        out.append({"mode": "threads", "runs": twins(rng, [small(rng, m if same else None) for _ in range(k)]), "pool": bool(i % 4 == 0)})
    for i in range(ctx.n(720, 2880)):
        rng = ctx.rng("n", i)
        same = bool(rng.rand() < 0.5)
        outer = small(rng, None)
        outer, *inner = twins(rng, [outer] + [small(rng, outer["method"] if same else None) for _ in range(4)])
        out.append({"mode": "nested", "outer": outer, "inner": inner, "site": str(rng.choice(["objective", "callback"])),
                    "every": int(rng.choice([1, 3, 7]))})
    return out


def twins(rng, runs):
    """Often give runs of one method equal shapes (any buffer they share would fit both)."""
    if rng.rand() < 0.5:
        for k in range(1, len(runs)):
            a, b = runs[0], runs[k]
            if a["method"] == b["method"] and rng.rand() < 0.7:
                seed = b["options"].get("seed")
                b = runs[k] = copy.deepcopy(a)
                b["objective"]["offset"] += 1.0 + k
                b["options"].pop("seed", None)
                if seed is not None:
                    b["options"]["seed"] = seed
    return runs


def small(rng, method):
    seeded = bool(rng.rand() < 0.5)
    if method in ("mcmc", "hmc") or (method is None and rng.rand() < 0.25):
        cfg = configs.gen_smp(rng, method=method, maxiter=int(rng.choice([3, 8, 20])), ndim=int(rng.choice([1, 2, 3])), jac=False, seeded=seeded)
    else:
        cfg = configs.gen_opt(rng, method=method, maxiter=int(rng.choice([2, 5, 9])), popmax=8, ndim=int(rng.choice([1, 2, 3])), seeded=seeded)
    return cfg


def inspect(obs, cfg, t):
    """What the run reports against its own log."""
    late = trace.same_result(trace.snapshot_result(t.res), t.rx)
    if late:
        obs.violation("a delivered result changed while other runs went on", field=late, method=cfg["method"])
        return
    o = cfg["options"]
    obs.count("runs")
    info = dict(method=cfg["method"], options=o)
    if t.rec.protocol:
        obs.violation("user code of a run was called wrongly", bad=t.rec.protocol[0], **info)
        return
    V = t.V
    if cfg["kind"] == "smp":
        S = np.array([c["X"] for c in t.cb])
        value = {(x + 0.0).tobytes(): v for x, v in zip(t.X, V)}
        F = [value.get((s + 0.0).tobytes()) for s in S]
        if len(S) != o["maxiter"] or None in F:
            obs.violation("a sample of the run was never evaluated by it, or samples are missing", samples=len(S), **info)
            return
        for k, c in enumerate(t.cb):
            obs.count("states")
            if c["state"]["fun"] != min(F[:k + 1]) or c["state"]["nit"] != k + 1 or not ((S[:k + 1] == c["state"]["x"]).all(axis=1)).any():
                obs.violation("a sampler state is not the best of the run's samples", k=k, fun=c["state"]["fun"], best=min(F[:k + 1]), **info)
                return
        r = t.rx
        if r["fun"] != min(F) or value.get((r["x"] + 0.0).tobytes()) != r["fun"] or r["nit"] != o["maxiter"]:
            obs.violation("the sampler's result is not the best of the run's samples", **info)
        elif "xall" in r and not (trace.same(r["xall"], S) and trace.same(r["funall"], np.array(F))):
            obs.violation("the sampler's histories are not the run's samples", **info)
        elif cfg["method"] == "hmc" and r["nfev"] != len(V):
            obs.violation("nfev is not the number of the run's evaluations", nfev=r["nfev"], calls=len(V), **info)
        return
    P = o["popsize"]
    r = t.rx
    if r["nfev"] != len(V) or len(V) != P * r["nit"] or len(t.cb) != r["nit"] or not 1 <= r["nit"] <= o["maxiter"]:
        obs.violation("evaluations or iterations of the run are miscounted", nfev=r["nfev"], nit=r["nit"], calls=len(V), callbacks=len(t.cb), **info)
        return
    for k, d in enumerate([c["state"] for c in t.cb] + [r]):
        n = len(V) if d is r else P * (k + 1)
        obs.count("states")
        if d is not r and (d["nfev"] != n or d["nit"] != k + 1 or t.cb[k]["neval"] != n):
            obs.violation("a state miscounts evaluations or iterations", k=k, nfev=d["nfev"], nit=d["nit"], calls=t.cb[k]["neval"], **info)
            return
        c01.check_pair(obs, cfg, t, d["x"], d["fun"], n, "state %d" % k)
        best = V[:n].min() if cfg["method"] in configs.POPULATION else V[n - P:n].min()
        if not trace.penalized(cfg) and d["fun"] != best or d["fun"] < best - 1e-12 * abs(best):
            obs.violation("the best value is not that of the run's own evaluations", fun=d["fun"], best=best, k=k, **info)
        if obs.violations:
            return
    if o.get("constraints") and trace.outside(t.X, *trace.lo_up(cfg)).any():
        obs.violation("a candidate of the run left the bounds", **info)
    if "xall" in r and (len(r["xall"]) != r["nit"] or len(r["funall"]) != r["nit"]):
        obs.violation("histories have wrong lengths", **info)


class Yielding:
    def __init__(self, spec, log, me):
        self.f = Objective(spec)
        self.log, self.me = log, me

    def __call__(self, x, *args):
        self.log.append(self.me)
        if len(self.log) % 3 == 0:
            time.sleep(0)
        v = self.f(x, *args)
        if len(self.log) % 7 == 0:
            time.sleep(1e-5)
        return v


def run_case(case, obs):
    old = sys.getswitchinterval()
    sys.setswitchinterval(2e-6)
    try:
        threads(case, obs) if case["mode"] == "threads" else nested(case, obs)
    finally:
        sys.setswitchinterval(old)


def threads(case, obs):
    log, got, errors = [], [None] * len(case["runs"]), []
    gate = threading.Barrier(len(case["runs"]))

    def work(i, cfg):
        try:
            gate.wait(30.0)
            o = trace.build_options(cfg)
            if case["pool"] and cfg["kind"] == "opt" and i % 2:
                o.update(workers=2, backend="threading")
            got[i] = trace.run(cfg, fun=Yielding(cfg["objective"], log, i), options=o)
        except BaseException as e:
            errors.append((i, e))

    T = [threading.Thread(target=work, args=(i, cfg)) for i, cfg in enumerate(case["runs"])]
    for t in T:
        t.start()
    for t in T:
        t.join()
    if errors:
        i, e = errors[0]
        raise e
    alt = sum(a != b for a, b in zip(log, log[1:]))
    obs.count("alternations", alt)
    for cfg, t in zip(case["runs"], got):
        obs.count("concurrent_runs")
        inspect(obs, cfg, t)
        if obs.violations:
            return
    obs.nontrivial = alt > 0


def nested(case, obs):
    outer = case["outer"]
    f = Objective(outer["objective"])
    state = {"n": 0, "depth": 0}
    inner = []

    def launch():
        state["n"] += 1
        if state["n"] % case["every"] or len(inner) >= 25 or state["depth"] >= 2:
            return
        cfg = case["inner"][(state["n"] // case["every"]) % len(case["inner"])]
        state["depth"] += 1
        g = Objective(cfg["objective"])

        def fun(x, *a):
            v = g(x, *a)
            if state["depth"] < 2 and len(inner) % 5 == 4:
                launch()
            return v

        t = trace.run(cfg, fun=fun)
        state["depth"] -= 1
        inner.append((cfg, t))

    def fun(x, *a):
        v = f(x, *a)
        if case["site"] == "objective":
            launch()
        return v

    t = trace.run(outer, fun=fun, cb_fault=(lambda k: launch()) if case["site"] == "callback" else None)
    inspect(obs, outer, t)
    for cfg, u in inner:
        obs.count("nested_runs")
        inspect(obs, cfg, u)
        if obs.violations:
            return
    obs.nontrivial = bool(inner)
