"""C30 - optimizers make bounded progress on easy problems."""
import numpy as np

from .. import configs, trace

LEVEL = "exploration"
RULE = ("100 iterations of 20 candidates (200 of 30 for the rotated problems) with default parameters on spheres and ellipsoids with the optimum at a "
        "random place inside boxes of random scale and location; log10(best / best of the first population) is pooled by method, "
        "number of variables, updating and constraint and its median and 80% quantile are compared with calibrated floors; non-trivial: the run made progress")
MINIMA = {"runs": 2000, "groups": 50}
ASSUMPTIONS = ["floors were calibrated on the unchanged tree with 400 runs per group; a sound run misses its floor with probability of about 1%, the check "
               "fires when more than 20% of a group do or the group's median is 35% (in orders of magnitude) worse"]

# (method, variables, updating, constrained) -> (floor for 80% of the runs, floor for the median), in log10
FLOORS = {
    ('cmaes', 1, None, False): (-9.1, -10.1),
    ('cmaes', 1, None, True): (-9.1, -10.1),
    ('cmaes', 2, None, False): (-10.1, -9.4),
    ('cmaes', 2, None, True): (-10.1, -9.3),
    ('cmaes', 3, None, False): (-9.9, -8.7),
    ('cmaes', 3, None, True): (-9.9, -8.8),
    ('cmaes', 5, None, False): (-9.7, -8.5),
    ('cmaes', 5, None, True): (-9.8, -8.5),
    ('cpso', 1, 'immediate', False): (-8.0, -8.4),
    ('cpso', 1, 'immediate', True): (-8.0, -8.6),
    ('cpso', 1, 'deferred', False): (-7.7, -8.3),
    ('cpso', 1, 'deferred', True): (-8.0, -8.3),
    ('cpso', 2, 'immediate', False): (-6.0, -6.4),
    ('cpso', 2, 'immediate', True): (-6.2, -6.5),
    ('cpso', 2, 'deferred', False): (-6.0, -6.3),
    ('cpso', 2, 'deferred', True): (-6.0, -6.4),
    ('cpso', 3, 'immediate', False): (-4.8, -5.3),
    ('cpso', 3, 'immediate', True): (-5.0, -5.3),
    ('cpso', 3, 'deferred', False): (-4.8, -5.3),
    ('cpso', 3, 'deferred', True): (-4.9, -5.3),
    ('cpso', 5, 'immediate', False): (-3.7, -4.3),
    ('cpso', 5, 'immediate', True): (-4.2, -4.4),
    ('cpso', 5, 'deferred', False): (-3.9, -4.2),
    ('cpso', 5, 'deferred', True): (-4.1, -4.2),
    ('de', 1, 'immediate', False): (-20.0, -20.0),
    ('de', 1, 'immediate', True): (-20.0, -20.0),
    ('de', 1, 'deferred', False): (-20.0, -20.0),
    ('de', 1, 'deferred', True): (-20.0, -20.0),
    ('de', 2, 'immediate', False): (-20.0, -20.0),
    ('de', 2, 'immediate', True): (-20.0, -20.0),
    ('de', 2, 'deferred', False): (-20.0, -20.0),
    ('de', 2, 'deferred', True): (-20.0, -20.0),
    ('de', 3, 'immediate', False): (-20.0, -20.0),
    ('de', 3, 'immediate', True): (-20.0, -20.0),
    ('de', 3, 'deferred', False): (-1.9, -20.0),
    ('de', 3, 'deferred', True): (-5.5, -20.0),
    ('de', 5, 'immediate', False): (-12.5, -15.6),
    ('de', 5, 'immediate', True): (-13.7, -15.6),
    ('na', 1, None, False): (-20.0, -20.0),
    ('na', 2, None, False): (-12.9, -19.8),
    ('na', 3, None, False): (-9.4, -15.0),
    ('na', 5, None, False): (-5.8, -6.9),
    ('pso', 1, 'immediate', False): (-8.2, -8.5),
    ('pso', 1, 'immediate', True): (-8.2, -8.6),
    ('pso', 1, 'deferred', False): (-8.3, -8.5),
    ('pso', 1, 'deferred', True): (-8.4, -8.5),
    ('pso', 2, 'immediate', False): (-7.4, -7.2),
    ('pso', 2, 'immediate', True): (-7.6, -7.2),
    ('pso', 2, 'deferred', False): (-7.6, -7.0),
    ('pso', 2, 'deferred', True): (-7.8, -7.2),
    ('pso', 3, 'immediate', False): (-6.6, -6.2),
    ('pso', 3, 'immediate', True): (-7.0, -6.4),
    ('pso', 3, 'deferred', False): (-6.6, -6.2),
    ('pso', 3, 'deferred', True): (-6.8, -6.4),
    ('pso', 5, 'immediate', False): (-5.6, -5.0),
    ('pso', 5, 'immediate', True): (-5.9, -5.3),
    ('pso', 5, 'deferred', False): (-5.4, -4.9),
    ('pso', 5, 'deferred', True): (-5.7, -5.2),
    ('vdcma', 1, None, False): (-5.0, -6.1),
    ('vdcma', 1, None, True): (-5.0, -6.0),
    ('vdcma', 2, None, False): (-4.2, -4.7),
    ('vdcma', 2, None, True): (-4.1, -4.7),
    ('vdcma', 3, None, False): (-3.9, -4.7),
    ('vdcma', 3, None, True): (-3.8, -4.6),
    ('vdcma', 5, None, False): (-3.4, -4.3),
    ('vdcma', 5, None, True): (-3.5, -4.2),
    ('cmaes', 4, 'rotated', False): (-9.1, -8.1),
    ('vdcma', 8, 'rotated', False): (-2.8, -3.5),
    ('cmaes', 4, 'rotated', True): (-8.8, -8.1),
    ('vdcma', 8, 'rotated', True): (-2.8, -3.6),
}


def groups():
    for m in configs.OPTIMIZERS:
        for n in (1, 2, 3, 5):
            for upd in (["immediate", "deferred"] if m in ("pso", "cpso", "de") else [None]):
                for con in ([False, True] if m in configs.CONSTRAINT else [False]):
                    if m == "de" and upd == "deferred" and n > 3:
                        continue
                    yield m, n, upd, con
    for con in (False, True):
        yield "cmaes", 4, "rotated", con
        yield "vdcma", 8, "rotated", con


def cases(ctx):
    out = []
    for g in groups():
        for i in range(ctx.n(36, 300)):
            rng = ctx.rng(g, i)
            out.append(make(rng, *g))
    return out


def make(rng, m, n, upd, con):
    s = 10.0 ** rng.uniform(-4, 4)
    mid = rng.uniform(-1, 1, n) * s * rng.choice([0, 1, 100])
    lo, up = mid - s * rng.uniform(.5, 1, n), mid + s * rng.uniform(.5, 1, n)
    c = lo + (up - lo) * rng.uniform(.15, .85, n)
    o = {"maxiter": 100, "popsize": 20, "ftol": -1e300, "seed": int(rng.randint(2**31))}
    spec = {"kind": str(rng.choice(["sphere", "ellipsoid"])), "c": c.tolist(), "s": (up - lo).tolist(), "offset": 0.0}
    if upd == "rotated":
        o.update(maxiter=200, popsize=30)
        v = rng.randn(n)
        spec["axis"] = (v / np.linalg.norm(v)).tolist()
    elif upd:
        o["updating"] = upd
    if con:
        o["constraints"] = configs.CONSTRAINT[m]
    return {"kind": "opt", "method": m, "bounds": np.transpose([lo, up]).tolist(), "options": o, "args": [], "x0": None,
            "objective": spec, "group": [m, n, upd, con]}


def progress(case):
    spec = case["objective"]
    fun = None
    if "axis" in spec:  # one long valley along a diagonal
        a, c, s = (np.array(spec[k]) for k in ("axis", "c", "s"))

        def fun(x, *args):
            z = (x - c) / s
            d = float(np.dot(a, z))
            return 1e-3 * d * d + float(np.dot(z, z)) - d * d if case["method"] == "cmaes" else 1e3 * d * d + float(np.dot(z, z))

    t = trace.run(case, callback=False, fun=fun)
    P = case["options"]["popsize"]
    return float(np.log10((max(t.V.min(), 0.0) + 1e-300) / t.V[:P].min()))


def run_case(case, obs):
    p = progress(case)
    obs.count("runs")
    obs.nontrivial = p < 0
    obs.sample(repr(tuple(case["group"])), [p])


def finish(ctx, data, total, obs):
    for key in sorted(data):
        v = np.array(data[key])
        obs.count("groups")
        tail, med = FLOORS[eval(key)]
        bad = (v > tail).mean()
        if bad > 0.2:
            obs.violation("%d%% of the runs of %s make less than %.1f orders of magnitude of progress" % (round(100 * bad), key, -tail),
                          mechanism="progress", quantiles=np.percentile(v, [50, 80, 90, 100]))
        if np.median(v) > med:
            obs.violation("median progress of %s is less than %.1f orders of magnitude" % (key, -med), mechanism="progress",
                          quantiles=np.percentile(v, [50, 80, 90, 100]))
