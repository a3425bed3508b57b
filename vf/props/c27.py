"""C27 - an exception in user code ends the run cleanly and unchanged."""
import copy

import numpy as np

from .. import configs, trace
from ..objectives import Objective

LEVEL = "fault_enumeration"
RULE = ("for each small configuration an exception is injected at every single call of objective, jac and callback in turn (serial and "
        "threading: every call index; loky: sampled candidates), with many exception types; the exception that comes out, the calls after it, "
        "the floating-point error state and later runs are observed; non-trivial: a fault was injected and came out")
MINIMA = {"faults": 4000, "objective_faults": 2500, "callback_faults": 500, "jac_faults": 60, "gradient_faults": 80, "threading_faults": 150, "loky_faults": 8, "later_runs": 500,
          "all_indices": 50}
CASE_TIMEOUT = 240.0


class Trouble(Exception):
    def __init__(self, a, b=0):
        super().__init__(a, b)
        self.a = a


class Stop(BaseException):
    pass


class Falsy(ValueError):
    def __bool__(self):
        return False

    def __eq__(self, other):
        return NotImplemented

    __hash__ = ValueError.__hash__


MAKERS = [
    lambda: Trouble("k", 3), lambda: ValueError("bad value"), lambda: TypeError(), lambda: KeyError("x"), lambda: IndexError("i"),
    lambda: AttributeError("no"), lambda: ImportError("mod"), lambda: np.linalg.LinAlgError("singular"), lambda: FloatingPointError("fp"),
    lambda: ZeroDivisionError(), lambda: StopIteration(7), lambda: RuntimeError(), lambda: AssertionError("a"), lambda: MemoryError(),
    lambda: OSError(5, "io"), lambda: UserWarning("w"), lambda: NotImplementedError(), lambda: OverflowError("o"), lambda: Falsy("f"),
    lambda: TimeoutError("late"), lambda: KeyboardInterrupt(), lambda: SystemExit(3), lambda: GeneratorExit(), lambda: Stop("s"),
]
PLAIN = [k for k in range(20) if k != 10]  # survive a worker thread
PICKLES = [1, 2, 3, 4, 7, 8, 9, 13, 14]


class RaiseAt:
    """Picklable objective for worker processes failing on one candidate."""

    def __init__(self, spec, x, maker):
        self.spec, self.x, self.maker = spec, x.tobytes(), maker

    def __call__(self, x, *args):
        if np.array(x, dtype=float).tobytes() == self.x:
            raise MAKERS[self.maker]()
        return Objective(self.spec)(x, *args)


def cases(ctx):
    out = []
    for i in range(ctx.n(400, 3000)):
        rng = ctx.rng(i)
        if i % 3 == 2:
            cfg = configs.gen_smp(rng, ndim=int(rng.choice([1, 2, 3])), maxiter=int(rng.choice([1, 2, 4, 9])), jac=bool(i % 2),
                                  method="hmc" if i % 12 == 5 else None, kinds=["sphere"] if i % 12 == 5 else None)
            if cfg["method"] == "hmc":
                cfg["options"]["nleap"] = int(rng.choice([1, 2]))
                cfg["options"]["maxiter"] = min(4, cfg["options"]["maxiter"])
        else:
            cfg = configs.gen_opt(rng, method=configs.OPTIMIZERS[i // 3 % 6], popmax=6, ndim=int(rng.choice([1, 2, 3])),
                                  maxiter=int(rng.choice([1, 2, 3, 4])))
        out.append({"mode": "serial", "cfg": cfg, "i": i})
    for i in range(ctx.n(24, 240)):
        rng = ctx.rng("t", i)
        cfg = configs.gen_opt(rng, method=configs.OPTIMIZERS[i % 6], popmax=6, ndim=2, maxiter=int(rng.choice([1, 3])))
        out.append({"mode": "threading", "cfg": cfg, "i": i, "workers": int(rng.choice([2, 3, 8]))})
    for i in range(ctx.n(6, 36)):
        rng = ctx.rng("l", i)
        cfg = configs.gen_opt(rng, method=configs.OPTIMIZERS[i % 6], popmax=6, ndim=2, maxiter=3, ftol=configs.NO_FTOL)
        out.append({"mode": "loky", "cfg": cfg, "i": i, "workers": 2})
    return out


class Run:
    """One run with a fault armed at call number `k` of `site`."""

    def __init__(self, cfg, site=None, k=None, exc=None, persistent=False, **options):
        self.log = []
        self.raised = 0
        self.fired = None
        self.n = {"objective": 0, "jac": 0, "callback": 0}
        f = Objective(cfg["objective"])
        o = trace.build_options(cfg)
        o.update(options)

        def hit(where):
            j = self.n[where]
            self.n[where] += 1
            if where == site and (j == k or (persistent and j > k)):
                self.raised += 1
                self.fired = exc
                raise exc
            self.after = self.raised

        def fun(x, *a):
            self.log.append(("objective", np.array(x, copy=True)))
            hit("objective")
            return f(x, *a)

        def callback(X, s):
            self.log.append(("callback", np.array(X, copy=True)))
            hit("callback")

        if cfg.get("jac"):
            g = trace.Gradient(cfg["objective"])

            def jac(x, *a):
                self.log.append(("jac", np.array(x, copy=True)))
                hit("jac")
                return g(x)

            o["jac"] = jac
        self.error = self.result = None
        try:
            self.result = trace.call(cfg, fun, copy.deepcopy(cfg["bounds"]), trace.build_x0(cfg), tuple(cfg["args"]), o, callback)
        except BaseException as e:
            if type(e).__module__.startswith("vf.harness"):
                raise
            self.error = e


def same_run(a, b):
    return len(a.log) == len(b.log) and all(p[0] == q[0] and trace.same(p[1], q[1]) for p, q in zip(a.log, b.log)) and \
        trace.same_result(trace.snapshot_result(a.result), trace.snapshot_result(b.result)) is None


def judge(obs, r, exc, info, identical):
    obs.count("faults")
    obs.nontrivial = True
    if r.error is None:
        obs.violation("an exception of user code was swallowed", **info)
    elif type(r.error) is not type(exc) or r.error.args != exc.args:
        obs.violation("another exception came out", got=repr(r.error)[:300], **info)
    elif identical and r.error is not exc:
        obs.violation("a copy of the exception came out", **info)
    return not obs.violations


def run_case(case, obs):
    cfg = case["cfg"]
    mode = case["mode"]
    opts = {}
    if cfg["kind"] == "opt":
        opts = {"workers": 1 if mode == "serial" else case["workers"]}
        if mode != "serial":
            opts["backend"] = mode
    if mode == "loky":
        return loky(case, obs)
    ref = Run(cfg, **opts)
    if ref.error is not None:
        raise ref.error
    err = np.geterr()
    salt = case["i"]
    for site in ("objective", "jac", "callback"):
        for k in range(ref.n[site]):
            if mode == "serial":
                kind = (7 * salt + 5 * k) % len(MAKERS)
            else:
                kind = PLAIN[(salt + k) % len(PLAIN)]
            exc = MAKERS[kind]()
            persistent = bool((salt + k) % 3 == 0)
            r = Run(cfg, site, k, exc, persistent, **opts)
            info = dict(method=cfg["method"], mode=mode, site=site, call=k, exception=repr(exc), options=cfg["options"])
            if r.fired is None:
                if mode == "serial":
                    obs.violation("a faulty run differs before the fault", **info)
                    return
                continue
            obs.count(site + "_faults")
            obs.count(mode + "_faults")
            if cfg["method"] == "hmc" and site == "objective" and not cfg.get("jac"):
                obs.count("gradient_faults")
            if not judge(obs, r, exc, info, True):
                return
            if mode == "serial":
                m = r.n["objective"] + r.n["jac"] + r.n["callback"]
                if m != len(ref.log[:m]) or r.n[site] != k + 1 or not all(
                        p[0] == q[0] and trace.same(p[1], q[1]) for p, q in zip(r.log, ref.log)) or r.log[-1][0] != site:
                    obs.violation("user code was called again after it raised, or differently before", calls=r.n, **info)
                    return
            if np.geterr() != err:
                obs.violation("floating-point error state was left changed", before=err, after=np.geterr(), **info)
                return
            if (k + salt) % 4 == 0 or k < 2:
                obs.count("later_runs")
                again = Run(cfg, **opts)
                if again.error is not None:
                    obs.violation("a run after a failed one fails", error=repr(again.error)[:300], **info)
                    return
                if mode == "serial" and not same_run(again, ref) or mode != "serial" and trace.same_result(
                        trace.snapshot_result(again.result), trace.snapshot_result(ref.result)):
                    obs.violation("a run after a failed one differs", **info)
                    return
    obs.count("all_indices")


def loky(case, obs):
    import multiprocessing
    multiprocessing.current_process()._config["daemon"] = False
    cfg = copy.deepcopy(case["cfg"])
    if cfg["method"] in ("pso", "cpso", "de"):
        cfg["options"]["updating"] = "deferred"
    ref = Run(cfg, workers=1)
    X = [x for site, x in ref.log if site == "objective"]
    V = [x.tobytes() for x in X]
    try:
        for k in sorted({0, len(X) // 2, len(X) - 1}):
            if V.index(V[k]) != k:
                continue
            kind = PICKLES[(case["i"] + k) % len(PICKLES)]
            r = Run.__new__(Run)
            r.error = r.result = None
            o = trace.build_options(cfg)
            o.update(workers=case["workers"], backend="loky")
            try:
                r.result = trace.call(cfg, RaiseAt(cfg["objective"], X[k], kind), cfg["bounds"], trace.build_x0(cfg), tuple(cfg["args"]), o, None)
            except Exception as e:
                r.error = e
            obs.count("loky_faults")
            if not judge(obs, r, MAKERS[kind](), dict(method=cfg["method"], mode="loky", call=k), False):
                return
        obs.count("later_runs")
        if not same_run(Run(cfg, workers=1), ref):
            obs.violation("a run after a failed one differs", method=cfg["method"], mode="loky")
    finally:
        from joblib.externals.loky import get_reusable_executor
        get_reusable_executor().shutdown(wait=True, kill_workers=True)
