"""C29 - results behave as dictionaries with attribute access."""
import copy
import pickle

import numpy as np

from stochopy.optimize import OptimizeResult
from stochopy.sample import SampleResult

from .. import configs, trace
from ..objectives import Objective
from .c33 import inventory

LEVEL = "exploration"
RULE = ("random sequences of item, attribute and whole-container operations on results and states of real runs and on fresh containers, each "
        "step compared with a plain dict model; non-trivial: at least 20 operations were compared")
MINIMA = {"operations": 30000, "inventories": 1000, "real": 400, "states": 1000, "pickles": 1500, "copies": 1500, "reprs": 3000, "unknown": 1500}

NAMES = ["x", "fun", "nit", "nfev", "status", "message", "success", "xall", "funall", "accept_ratio", "extra", "note", "_private", "X", "fun2", "total"]


def cases(ctx):
    out = []
    for i in range(ctx.n(1500, 6000)):
        rng = ctx.rng(i)
        if i % 5 == 4:
            out.append({"cfg": None, "seed": int(rng.randint(2**31 - 1)), "cls": i % 2})
        else:
            cfg = configs.gen_smp(rng, maxiter=4) if i % 5 == 3 else configs.gen_opt(rng, maxiter=3, popmax=8)
            cfg["options"]["return_all"] = bool(rng.rand() < 0.6)
            out.append({"cfg": cfg, "seed": int(rng.randint(2**31 - 1))})
    return out


def eq(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and trace.same(a, b)
    return type(a) is type(b) and (a == b or a != a)


def agree(obs, r, model, what):
    ok = (list(r.keys()) == list(model) and len(r) == len(model) and list(r) == list(model)
          and all(eq(r[k], model[k]) and eq(getattr(r, k), model[k]) and k in r and hasattr(r, k) and eq(r.get(k), model[k]) for k in model)
          and all(eq(a, b) for a, b in zip(r.values(), model.values())) and isinstance(r, dict))
    if not ok:
        obs.violation("a result and a dictionary differ after %s" % what, result=dict(r), model=model)
    return ok


def exercise(obs, r, rng, steps):
    cls = type(r)
    model = dict(r)
    if not agree(obs, r, model, "delivery"):
        return
    for _ in range(steps):
        op = rng.choice(["setitem", "setattr", "setattr", "delitem", "delattr", "unknown", "update", "pop", "setdefault", "copy", "deepcopy",
                         "pickle", "repr", "dir", "dict", "clear"], p=[.12, .1, .08, .05, .08, .08, .08, .04, .04, .06, .06, .06, .08, .05, .018, .002])
        k = str(rng.choice(NAMES))
        v = [rng.randn(3), float(rng.randn()), int(rng.randint(9)), "text", None, True, [1, 2]][rng.randint(7)]
        obs.count("operations")
        if op == "setitem":
            r[k] = v
            model[k] = v
        elif op == "setattr":
            setattr(r, k, v)
            model[k] = v
        elif op == "update":
            r.update({k: v})
            model.update({k: v})
        elif op == "setdefault":
            r.setdefault(k, v)
            model.setdefault(k, v)
        elif op == "pop":
            a, b = r.pop(k, None), model.pop(k, None)
            if not eq(a, b):
                obs.violation("pop returns something else", key=k)
        elif op in ("delitem", "delattr"):
            if k in model:
                if op == "delitem":
                    del r[k]
                else:
                    delattr(r, k)
                del model[k]
            else:
                try:
                    if op == "delitem":
                        del r[k]
                    else:
                        delattr(r, k)
                    obs.violation("deleting a missing item succeeded", key=k)
                except (KeyError, AttributeError):
                    pass
        elif op == "unknown":
            obs.count("unknown")
            for name in (k, "no_such_field", "__array_interface__", "__no__"):
                if name in model:
                    continue
                try:
                    got = getattr(r, name)
                    obs.violation("an unknown attribute was readable", name=name, got=repr(got))
                except AttributeError:
                    pass
                except Exception as e:
                    obs.violation("an unknown attribute raises %s" % type(e).__name__, name=name)
                if hasattr(r, name) or getattr(r, name, 5) != 5 or name in r:
                    obs.violation("an unknown attribute seems to exist", name=name)
        elif op in ("copy", "deepcopy", "pickle"):
            obs.count("pickles" if op == "pickle" else "copies")
            s = (copy.copy(r) if op == "copy" else copy.deepcopy(r) if op == "deepcopy"
                 else pickle.loads(pickle.dumps(r, protocol=int(rng.randint(pickle.HIGHEST_PROTOCOL + 1)))))
            if type(s) is not cls:
                obs.violation("%s changes the type" % op, got=type(s).__name__)
            elif agree(obs, s, model, op) and s is not r:
                for n in model:
                    if isinstance(model[n], np.ndarray) and (s[n] is r[n]) != (op == "copy"):
                        obs.violation("%s shares items wrongly" % op, key=n)
                s["only_here"] = 1
                if "only_here" in r:
                    obs.violation("%s is not independent" % op)
                s.pop("only_here")
                if op != "copy":
                    r = s
                    model = dict(s)
        elif op == "repr":
            obs.count("reprs")
            t = repr(r)
            flat = "".join(t.split())
            shown = {n: v_ for n, v_ in model.items() if n not in ("xall", "funall")}
            for n, v_ in shown.items():
                if n not in t or "".join(repr(v_).split()) not in flat:
                    obs.violation("repr does not show an item", key=n, text=t[:500])
            for n in ("xall", "funall"):
                if any(line.strip().startswith(n + ":") for line in t.splitlines()):
                    obs.violation("repr shows a history", key=n)
            if not model and not t:
                obs.violation("repr of an empty result is empty")
            str(r)
        elif op == "dir":
            if not set(model) <= set(dir(r)):
                obs.violation("dir() does not list the items", got=dir(r))
        elif op == "dict":
            if not all(eq(a, b) for a, b in zip(dict(**r).values(), model.values())) or bool(r) != bool(model):
                obs.violation("unpacking differs from the dictionary")
        elif op == "clear":
            r.clear()
            model.clear()
        if obs.violations or not agree(obs, r, model, op):
            return
    obs.nontrivial = steps >= 20


def run_case(case, obs):
    before = inventory()
    inspect(case, obs)
    after = inventory()
    obs.count("inventories")
    bad = [k for k in before if before[k] != after[k]]
    if bad and not obs.violations:
        obs.violation("looking at a result changed the process: " + bad[0], before=before[bad[0]], after=after[bad[0]])


def inspect(case, obs):
    rng = np.random.RandomState(case["seed"])
    if case["cfg"] is None:
        cls = [OptimizeResult, SampleResult][case["cls"]]
        n = rng.randint(4)
        d = {str(k): 1.5 * j for j, k in enumerate(rng.choice(NAMES, n, replace=False))}
        r = cls(**d) if rng.rand() < 0.5 else cls(d)
        exercise(obs, r, rng, 120)
        return
    cfg = case["cfg"]
    states = []
    r = trace.call(cfg, Objective(cfg["objective"]), cfg["bounds"], trace.build_x0(cfg), tuple(cfg["args"]), options(cfg), lambda X, s: states.append(s))
    want = OptimizeResult if cfg["kind"] == "opt" else SampleResult
    obs.count("real")
    for s in [r] + states:
        if not isinstance(s, want):
            obs.violation("result or state is not a %s" % want.__name__, got=type(s).__name__)
            return
        obs.count("states", s is not r)
        exercise(obs, s, rng, 40 if s is r else 20)
        if obs.violations:
            return


def options(cfg):
    o = trace.build_options(cfg)
    if cfg.get("jac"):
        g = trace.Gradient(cfg["objective"])
        o["jac"] = lambda x, *a: g(x)
    return o
