"""C33 - a run leaves nothing behind in the process."""
import contextlib
import copy
import gc
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import warnings
import weakref

import numpy as np

from .. import configs, harness, trace
from ..objectives import Objective, random_spec

LEVEL = "exploration"
RULE = ("runs of every method (serial, threads; ended normally, by a failing objective, callback or gradient, or refused for an invalid option) "
        "between two inventories of the process: threads, children, file descriptors, working directory, output, warning filters, floating-point "
        "error modes, print options, Python's generator, signal handlers, environment, switch interval; weak references to user objects; "
        "allocations of repeated runs; non-trivial: a run was between two inventories")
MINIMA = {"inventories": 400, "failed_runs": 150, "threaded": 60, "process_runs": 15, "refs": 1000, "growth": 20}
CASE_TIMEOUT = 260.0


class Fun:
    def __init__(self, cfg, at):
        self.f = Objective(cfg["objective"])
        self.k = 0
        self.at = at
        self.lock = threading.Lock()

    def __call__(self, x, *args):
        with self.lock:
            self.k += 1
            if self.k == self.at:
                raise ZeroDivisionError("planned")
        return self.f(np.array(x), *[a for a in args if isinstance(a, (int, float))])


class Callback:
    def __init__(self, at):
        self.k, self.at = 0, at

    def __call__(self, X, state):
        self.k += 1
        if self.k == self.at:
            raise ZeroDivisionError("planned")


class Jac(trace.Gradient):
    at = -1
    k = 0

    def __call__(self, x, *args):
        self.k += 1
        if self.k == self.at:
            raise ZeroDivisionError("planned")
        return super().__call__(x)


class Arg:
    pass


def cases(ctx):
    out = []
    ends = ["normal", "normal", "objective", "callback", "refused"]
    for i in range(ctx.n(520, 4000)):
        rng = ctx.rng(i)
        cfg = configs.gen_smp(rng, jac=bool(rng.rand() < 0.5), seeded=bool(i % 3)) if i % 5 == 4 else configs.gen_opt(rng, popmax=8, seeded=bool(i % 3))
        if i % 5 == 4 and cfg["method"] == "mcmc" and i % 3 == 0 or i % 5 != 4 and i % 17 == 3 and cfg["options"].get("constraints") != "Penalize":
            cfg["objective"] = random_spec(rng, cfg["bounds"], kinds=["barrier"])
            cfg["objective"]["wall"] = float(rng.choice([0.25, -0.3, -10.0]))  # (infinite values, perhaps nothing else)
        o = cfg["options"]
        o["maxiter"] = min(o["maxiter"], 30)
        if cfg["kind"] == "opt" and i % 4 == 1:
            o.update(workers=int(rng.choice([2, 3, 5])), backend="threading")
        cfg["args"] = []
        out.append({"cfg": cfg, "end": ends[i // 5 % 5], "at": int(rng.choice([1, 2, 5, 11, 30])), "odd": bool(rng.rand() < 0.5), "mode": "inventory"})
    for i in range(ctx.n(24, 120)):
        rng = ctx.rng("g", i)
        m = (configs.OPTIMIZERS + ["mcmc", "hmc"])[i % 8]
        cfg = (configs.gen_smp(rng, method=m, ndim=3, maxiter=20, jac=False) if i % 8 > 5 else
               configs.gen_opt(rng, method=m, ndim=3, maxiter=8, popmax=8, ftol=configs.NO_FTOL))
        cfg["args"] = []
        if cfg["kind"] == "opt" and i // 8 % 3 == 2:
            cfg["options"].update(workers=2, backend="threading")
        out.append({"cfg": cfg, "mode": "growth"})
    for i in range(ctx.n(4, 24)):
        rng = ctx.rng("p", i)
        runs = []
        for j in range(5):
            cfg = configs.gen_opt(rng, maxiter=3, popmax=8, seeded=bool(j % 2))
            cfg["args"] = []
            cfg["options"].update(workers=2, backend="loky")
            runs.append(cfg)
        out.append({"cfgs": runs, "mode": "processes"})
    return out


def processes(case, obs):
    """Runs with process workers, in an interpreter of their own."""
    with tempfile.TemporaryDirectory(dir=os.environ.get("VF_SCRATCH")) as scratch:
        env = {k: v for k, v in os.environ.items() if k not in THREAD_LIMITS}
        env["PYTHONPATH"] = os.pathsep.join([str(harness.ROOT), env.get("PYTHONPATH", "")])
        p = subprocess.run([sys.executable, "-m", "vf.props.c33"], input=json.dumps(case["cfgs"]), text=True, capture_output=True, env=env, cwd=scratch,
                           timeout=220)
    if p.returncode != 0 or not p.stdout.strip():
        obs.inconclusive = "interpreter failed: " + p.stderr[-500:]
        return
    for cfg, (bad, before, after) in zip(case["cfgs"], json.loads(p.stdout.splitlines()[-1])):
        obs.count("process_runs")
        obs.nontrivial = True
        if bad:
            obs.violation("a run changed the process: " + bad, before=before, after=after, method=cfg["method"], options=cfg["options"])
            return


def child():
    """Reads configurations, writes what each of the runs changed."""
    import joblib
    joblib.Parallel(n_jobs=2, prefer="processes")(joblib.delayed(abs)(k) for k in range(4))  # (what joblib itself sets up once)
    out = []
    for cfg in json.load(sys.stdin):
        before = inventory()
        trace.call(cfg, Objective(cfg["objective"]), cfg["bounds"], trace.build_x0(cfg), (), trace.build_options(cfg), None)
        after = inventory()
        bad = [k for k in before if k not in SLOW + ["children"] and before[k] != after[k]]
        out.append([bad[0], repr(before[bad[0]])[-300:], repr(after[bad[0]])[-300:]] if bad else [None, None, None])
    print(json.dumps(out))


def inventory():
    return {
        "threads": sorted(t.name for t in threading.enumerate()),
        "file descriptors": sorted(os.listdir("/proc/self/fd")),
        "children": open("/proc/self/task/%d/children" % os.getpid()).read() if os.path.exists("/proc/self/task/%d/children" % os.getpid()) else "",
        "working directory": os.getcwd(),
        "files in the working directory": sorted(os.listdir(".")),
        "warning filters": list(map(repr, warnings.filters)),
        "warning hook": repr(warnings.showwarning),
        "floating-point error modes": sorted(np.geterr().items()),
        "floating-point error callback": repr(np.geterrcall()),
        "print options": sorted((k, repr(v)) for k, v in np.get_printoptions().items()),
        "Python's random generator": hash(random.getstate()),
        "signal handlers": [repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGCHLD, signal.SIGUSR1)],
        "environment": sorted(os.environ.items()),
        "switch interval": sys.getswitchinterval(),
        "recursion limit": sys.getrecursionlimit(),
        "import path": list(sys.path),
        "streams": [id(sys.stdout), id(sys.stderr), id(sys.excepthook)],
        "trace functions": [repr(sys.gettrace()), repr(sys.getprofile())],
        "garbage collector": gc.isenabled(),
        "numpy generator": [type(np.random.mtrand._rand).__name__, id(np.random.mtrand._rand), id(np.random.seed), id(np.random.rand)],
    }


MODES = {False: {"all": "warn", "under": "ignore"}, True: {"divide": "ignore", "over": "print", "under": "ignore", "invalid": "ignore"}}
SLOW = ["threads", "file descriptors"]
THREAD_LIMITS = ["OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"]


def settle():
    """Waits until threads and pipes of earlier runs are gone."""
    last = None
    for _ in range(60):
        now = sorted(t.ident for t in threading.enumerate())
        if len(now) == 1 or (now == last and not any("worker" in t.name for t in threading.enumerate())):
            break
        last = now
        threading.Event().wait(0.05)
    gc.collect()


@contextlib.contextmanager
def captured(box):
    """File descriptors 1 and 2 diverted to a file."""
    sys.stdout.flush()
    sys.stderr.flush()
    with tempfile.TemporaryFile() as f:
        old = [os.dup(1), os.dup(2)]
        try:
            os.dup2(f.fileno(), 1)
            os.dup2(f.fileno(), 2)
            yield
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            for k in (1, 2):
                os.dup2(old[k - 1], k)
                os.close(old[k - 1])
            f.seek(0)
            box.append(f.read().decode(errors="replace"))


INVALID = {"cmaes": {"muperc": -1.0}, "vdcma": {"muperc": -1.0}, "de": {"mutation": -1.0}, "pso": {"inertia": 2.0}, "cpso": {"inertia": 2.0},
           "na": {"nrperc": -1.0}, "mcmc": {"perc": 2.0}, "hmc": {"nleap": 0}}


def one(case, obs, refs=None):
    cfg = case["cfg"]
    end = case.get("end", "normal")
    o = trace.build_options(cfg)
    fun = Fun(cfg, case["at"] if end == "objective" else -1)
    cb = Callback(case["at"] if end == "callback" else -1)
    arg = Arg()
    x0 = trace.build_x0(cfg)
    if cfg.get("jac"):
        o["jac"] = Jac(cfg["objective"])
        if end == "objective" and case["at"] > 2:
            fun.at, o["jac"].at = -1, case["at"]
    if end == "refused":
        o.update(INVALID[cfg["method"]])
    failed = False
    res = None
    try:
        res = trace.call(cfg, fun, copy.deepcopy(cfg["bounds"]), x0, (arg,), o, cb, front="direct" if case.get("at", 0) == 2 else "minimize")
    except (ZeroDivisionError, ValueError):
        failed = True
    if refs is not None:
        refs += [("objective", weakref.ref(fun)), ("callback", weakref.ref(cb)), ("argument", weakref.ref(arg))]
        if isinstance(x0, np.ndarray):
            refs.append(("x0", weakref.ref(x0)))
        if res is not None:
            refs.append(("solution", weakref.ref(res["x"])))
            if "xall" in res:
                refs.append(("history", weakref.ref(res["xall"])))
    return failed


def run_case(case, obs):
    if case["mode"] == "growth":
        return growth(case, obs)
    if case["mode"] == "processes":
        return processes(case, obs)
    limits = {k: os.environ.pop(k) for k in THREAD_LIMITS if k in os.environ}  # (set for the checks only)
    try:
        inspect(case, obs)
    finally:
        os.environ.update(limits)


def inspect(case, obs):
    home = os.getcwd()
    scratch = tempfile.mkdtemp(dir=os.environ.get("VF_SCRATCH"))
    threaded = case["cfg"]["options"].get("workers", 1) > 1
    info = dict(method=case["cfg"]["method"], end=case["end"], at=case["at"], options=case["cfg"]["options"])
    printed, refs = [], []
    try:
        os.chdir(scratch)
        if threaded and not getattr(inspect, "warm", False):
            import joblib
            joblib.Parallel(n_jobs=2, prefer="threads")(joblib.delayed(abs)(k) for k in range(4))  # (what joblib itself sets up once)
            inspect.warm = True
        # (odd cases start from settings other than the defaults, so that a reset to the defaults shows as well)
        odd = case.get("odd", False)
        with warnings.catch_warnings(), np.errstate(**MODES[odd]), np.printoptions(**({"precision": 5, "threshold": 50} if odd else {})):
            warnings.simplefilter("ignore")
            if odd:
                warnings.filterwarnings("once", message="nothing of this kind")
            with captured(printed):
                settle()
                before = inventory()
                failed = one(case, obs, refs)
                after = inventory()
                deadline = 60
                while threaded and deadline and any(before[k] != after[k] for k in SLOW):  # joblib's pool may be winding down
                    gc.collect()
                    threading.Event().wait(0.1)
                    deadline -= 1
                    now = inventory()
                    after.update({k: now[k] for k in SLOW})
    finally:
        os.chdir(home)
        shutil.rmtree(scratch, ignore_errors=True)
    obs.count("inventories")
    obs.count("failed_runs", failed)
    obs.count("threaded", threaded)
    obs.nontrivial = True
    for k in before:
        a, b = before[k], after[k]
        if a != b:
            obs.violation("a run changed the process: " + k, before=a, after=b, **info)
            return
    if printed[0]:
        obs.violation("a run printed something", text=printed[0][:300], **info)
        return
    if any(r() is not None for _, r in refs):
        gc.collect()
    obs.count("refs", len(refs))
    kept = [k for k, r in refs if r() is not None]
    if kept:
        obs.violation("the library keeps user objects alive after the run", kept=kept, **info)


def growth(case, obs):
    """The interpreter's allocated blocks must not grow from run to run."""
    dummy = type("O", (), {"count": lambda *a: None})()

    def size():
        settle()
        gc.collect()
        return sys.getallocatedblocks()

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for _ in range(10):
            one(case, dummy)
        at = [size()]
        for _ in range(4):
            for _ in range(10):
                one(case, dummy)
            at.append(size())
        if np.diff(at).min() >= 9:  # caches of the interpreter fill up more and more slowly; a leak goes on for ever
            for _ in range(300):
                one(case, dummy)
            at = [size()]
            for _ in range(3):
                for _ in range(40):
                    one(case, dummy)
                at.append(size())
    obs.count("growth")
    obs.nontrivial = True
    d = np.diff(at)
    obs.sample("blocks per run", float(np.median(d)) / (40 if len(at) == 4 else 10))
    if len(at) == 4 and d.min() >= 40:  # in each of three lots of forty runs
        obs.violation("memory grows with every run", method=case["cfg"]["method"], options=case["cfg"]["options"], blocks=at)


if __name__ == "__main__":
    child()
