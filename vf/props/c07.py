"""C07 - process/thread parallel evaluation gives the serial deferred result, each candidate evaluated exactly once."""
import copy
import hashlib
import os
import struct
import tempfile
import threading
import time

import joblib
import numpy as np

from .. import configs, trace
from ..objectives import Objective

LEVEL = "exploration"
RULE = ("deferred runs of every optimizer with workers 2..8, -1, -2 and backends None/threading/loky, completion order scrambled by "
        "per-candidate delays, compared bitwise with the serial deferred run; non-trivial: a parallel run with >= 2 generations' "
        "worth of evaluations was compared; distinct interleavings = distinct (start, finish) event orders observed")
MINIMA = {"threading_runs": 100, "loky_runs": 10, "overlapping_evaluations": 200, "reordered_completions": 100}
CASE_TIMEOUT = 240.0


class Delayed:
    """Objective that finishes out of order and records start/finish events (threads)."""

    def __init__(self, cfg, salt, delay):
        self.f = Objective(cfg["objective"])
        self.salt = salt
        self.delay = delay
        self.lock = threading.Lock()
        self.events = []
        self.active = 0
        self.peak = 0
        self.overlap = 0
        self.x = []
        self.v = []
        self.meet = None
        self.met = None

    def __call__(self, x, *args):
        xc = np.array(x, dtype=float, copy=True)
        with self.lock:
            k = len(self.x)
            self.x.append(xc)
            self.v.append(None)
            self.events.append(k)
            self.active += 1
            self.peak = max(self.peak, self.active)
            if self.active > 1:
                self.overlap += 1
        if self.meet is not None and k < 2:
            try:
                self.meet.wait(20.0)
                self.met = True
            except threading.BrokenBarrierError:
                self.met = False
        h = hashlib.md5(xc.tobytes() + struct.pack("<q", self.salt)).digest()
        d = h[0] / 255.0 * self.delay
        if h[1] < 24:
            d *= 4.0
        if d:
            time.sleep(d)
        v = self.f(xc, *args)
        with self.lock:
            self.v[k] = float(v)
            self.events.append(-k - 1)
            self.active -= 1
        return v


class Logged:
    """Picklable objective for worker processes: appends one record per call to a file."""

    def __init__(self, spec, path, salt, delay):
        self.spec, self.path, self.salt, self.delay = spec, path, salt, delay

    def __call__(self, x, *args):
        f = Objective(self.spec)
        xc = np.array(x, dtype=float, copy=True)
        h = hashlib.md5(xc.tobytes() + struct.pack("<q", self.salt)).digest()
        time.sleep(h[0] / 255.0 * self.delay)
        v = f(xc, *args)
        rec = struct.pack("<q", os.getpid()) + xc.tobytes() + struct.pack("<d", float(v))
        fd = os.open(self.path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, rec)
        os.close(fd)
        return v


def cases(ctx):
    out = []
    for i in range(ctx.n(170, 1500)):
        rng = ctx.rng("thr", i)
        cfg = gen(rng)
        out.append({"mode": "threading", "cfg": cfg, "workers": int(rng.choice([2, 2, 3, 4, 8, 16, -1, -2])),
                    "backend": str(rng.choice(["", "threading", "threading"])), "salt": i,
                    "updating": str(rng.choice(["deferred", "immediate", "absent"])),
                    "delay": float(rng.choice([0.0, 0.0005, 0.002])) / (10.0 if cfg["options"]["popsize"] > 60 else 1.0), "meet": bool(i % 3 == 0)})
    for i in range(ctx.n(24, 150)):
        rng = ctx.rng("loky", i)
        cfg = gen(rng)
        cfg["options"]["maxiter"] = min(cfg["options"]["maxiter"], 6)
        out.append({"mode": "loky", "cfg": cfg, "workers": int(rng.choice([2, 2, 3, 4])), "salt": i,
                    "updating": str(rng.choice(["deferred", "immediate", "absent"])),
                    "delay": float(rng.choice([0.0, 0.001]))})
    return out


def gen(rng):
    cfg = configs.gen_opt(rng, popmax=10, maxiter=int(rng.choice([1, 2, 3, 5, 8])), workers=(1,),
                          ftol=configs.NO_FTOL if rng.rand() < 0.7 else None)
    cfg["options"].pop("updating", None)
    if rng.rand() < 0.1:
        configs.crowd(rng, cfg, [70, 130, 300])
    if cfg["options"]["popsize"] > 30:
        cfg["options"]["maxiter"] = min(3, cfg["options"]["maxiter"])
    return cfg


def run_case(case, obs):
    cfg = case["cfg"]
    o = cfg["options"]
    P = o["popsize"]
    serial = copy.deepcopy(cfg)
    if cfg["method"] in ("pso", "cpso", "de"):
        serial["options"]["updating"] = "deferred"
    serial["options"]["workers"] = 1
    ref = trace.run(serial)

    opts = trace.build_options(cfg)
    opts["workers"] = case["workers"]
    if cfg["method"] in ("pso", "cpso", "de") and case["updating"] != "absent":
        opts["updating"] = case["updating"]  # overridden by workers, as documented
    if case["mode"] == "loky":
        opts["backend"] = "loky"
    elif case["backend"]:
        opts["backend"] = case["backend"]

    cb = []
    scratch = None
    if case["mode"] == "threading":
        fun = Delayed(cfg, case["salt"], case["delay"])
        if case["meet"] and P >= 2:
            fun.meet = threading.Barrier(2)
        calls = lambda: len(fun.x)
    else:
        import multiprocessing
        multiprocessing.current_process()._config["daemon"] = False  # worker processes of our own are wanted here
        fd, scratch = tempfile.mkstemp(dir=os.environ.get("VF_SCRATCH"))
        os.close(fd)
        fun = Logged(cfg["objective"], scratch, case["salt"], case["delay"])
        size = 8 * (2 + len(cfg["bounds"]))
        calls = lambda: os.path.getsize(scratch) // size

    def callback(X, state):
        cb.append([calls(), np.array(X, dtype=float, copy=True), trace.snapshot_result(state)])

    try:
        res = trace.call(cfg, fun, copy.deepcopy(cfg["bounds"]), trace.build_x0(cfg), tuple(cfg["args"]), opts, callback)
        if case["mode"] == "loky":
            raw = np.fromfile(scratch, dtype=np.uint8).reshape(-1, size)
            X = raw[:, 8:-8].copy().view(float).reshape(len(raw), -1)
            V = raw[:, -8:].copy().view(float).ravel()
            pids = set(raw[:, :8].copy().view(np.int64).ravel().tolist())
        else:
            X, V = np.array(fun.x), np.array(fun.v, dtype=float)
    finally:
        if scratch:
            from joblib.externals.loky import get_reusable_executor
            get_reusable_executor().shutdown(wait=True, kill_workers=True)
            os.unlink(scratch)

    if case["mode"] == "threading":
        obs.count("threading_runs")
        obs.count("overlapping_evaluations", fun.overlap)
        fin = [-e - 1 for e in fun.events if e < 0]
        obs.count("reordered_completions", sum(a > b for a, b in zip(fin, fin[1:])))
        n_jobs = case["workers"] if case["workers"] > 0 else max(1, joblib.cpu_count() + 1 + case["workers"])
        obs.require(fun.peak <= n_jobs, "more evaluations in flight than workers", peak=fun.peak, workers=case["workers"])
        if fun.meet is not None and n_jobs > 1:
            obs.require(fun.met is True, "no two evaluations were ever in flight together", workers=case["workers"])
    else:
        obs.count("loky_runs")
        obs.require(os.getpid() not in pids, "backend 'loky' evaluated in the calling process")
        obs.count("loky_processes", len(pids))
    # exactly once: per generation, the multiset of evaluated candidates is the serial one
    obs.require(len(X) == len(ref.X), "number of evaluations differs from the serial run", parallel=len(X), serial=len(ref.X))
    if len(X) == len(ref.X):
        for g in range(len(X) // P):
            a, b = np.column_stack([X, V])[g * P:(g + 1) * P], np.column_stack([ref.X, ref.V])[g * P:(g + 1) * P]
            if not trace.same(a[np.lexsort(a.T)], b[np.lexsort(b.T)]):
                obs.violation("evaluated candidates differ from the serial run", generation=g, parallel=a[:3], serial=b[:3])
                break
        obs.count("evaluations", len(X))
    bad = trace.same_result(trace.snapshot_result(res), ref.rx)
    if bad:
        obs.violation("parallel result differs from the serial deferred result", field=bad, method=cfg["method"],
                      parallel=res.get(bad), serial=ref.rx.get(bad))
    obs.require(len(cb) == len(ref.cb), "callback calls differ from the serial run", parallel=len(cb), serial=len(ref.cb))
    for k, (c, r) in enumerate(zip(cb, ref.cb)):
        bad = trace.same_result(c[2], r["state"])
        if bad or not trace.same(c[1], r["X"]):
            obs.violation("callback state differs from the serial run", k=k, field=bad)
            break
        if c[0] != r["neval"]:
            obs.violation("callback ran before its generation was evaluated, or after the next began", k=k,
                          calls=c[0], expected=r["neval"])
            break
    obs.nontrivial = len(X) >= 2 * P
