"""C10 - observing a run does not change it."""
import copy

import numpy as np

from .. import configs, trace

LEVEL = "exploration"
RULE = ("seeded runs of every optimizer and sampler repeated under return_all x verbosity x callback settings; evaluation logs and all "
        "non-history fields are compared bitwise; non-trivial: at least 3 settings of one configuration were compared")
MINIMA = {"comparisons": 2000}


def cases(ctx):
    out = []
    for i in range(ctx.n(1200, 6000)):
        rng = ctx.rng(i)
        cfg = configs.gen_smp(rng) if i % 3 == 2 else configs.gen_opt(rng, popmax=12)
        for k in ("return_all", "verbosity"):
            cfg["options"].pop(k, None)
        vs = [0.0, 1.0, float(rng.choice([0.5, 0.25, 1.0 / cfg["options"].get("popsize", 3), rng.uniform(0.01, 0.99)]))]
        out.append({"cfg": cfg, "verbosities": vs})
    return out


def run_case(case, obs):
    base = case["cfg"]
    ref = trace.run(base, callback=False)
    settings = []
    vs = case["verbosities"] if base["kind"] == "opt" else [None]
    for cb in (False, True):
        for ra in (None, True, False):
            for v in (vs if ra else [None]):
                settings.append((cb, ra, v))
    for cb, ra, v in settings[1:]:
        cfg = copy.deepcopy(base)
        if ra is not None:
            cfg["options"]["return_all"] = ra
        if v is not None:
            cfg["options"]["verbosity"] = v
        t = trace.run(cfg, callback=cb)
        obs.count("comparisons")
        a, b = dict(t.rx), dict(ref.rx)
        for d in (a, b):
            d.pop("xall", None)
            d.pop("funall", None)
        bad = None
        if not (trace.same(t.X, ref.X) and trace.same(t.V, ref.V)):
            bad = "evaluations"
        bad = bad or trace.same_result(a, b)
        if bad:
            obs.violation("an observer changed the run", field=bad, callback=cb, return_all=ra, verbosity=v,
                          method=base["method"])
            return
        if base["kind"] == "smp" and ra is not None:
            obs.require(("xall" in t.rx) == ra, "histories do not follow return_all", return_all=ra)
    obs.nontrivial = True
