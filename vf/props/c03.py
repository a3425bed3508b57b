"""C03 - evaluation and iteration accounting: exactly one evaluation per member per iteration, truthfully reported."""
from .. import configs, trace

LEVEL = "exploration"
RULE = ("random optimizer runs incl. maxiter 1 and 2, early termination, both updatings, with and without callback; calls of "
        "the objective are counted at the boundary against nfev, nit, popsize and the callback sequence; hmc's nfev against "
        "its calls; non-trivial: at least one iteration was counted")
MINIMA = {"iterations": 2000, "evaluations": 5000, "hmc_evaluations": 500}


def cases(ctx):
    out = []
    for i in range(ctx.n(3000, 15000)):
        rng = ctx.rng(i)
        if i % 10 == 9:
            out.append(configs.gen_smp(rng, method="hmc" if i % 20 == 9 else None))
        else:
            out.append(configs.gen_opt(rng, popmax=12 if i % 4 else 30))
    return out


def run_case(case, obs):
    t = trace.run(case)
    n = len(t.V)
    o = case["options"]
    if case["kind"] == "smp":
        obs.require(t.rx["nit"] == o["maxiter"], "number of samples differs from maxiter", nit=t.rx["nit"])
        obs.require([c["state"]["nit"] for c in t.cb] == list(range(1, o["maxiter"] + 1)),
                    "callback was not called once per sample with nit = 1, 2, ...",
                    nits=[c["state"]["nit"] for c in t.cb][:50])
        if case["method"] == "hmc":
            obs.require(t.rx["nfev"] == n, "nfev differs from the number of objective calls", nfev=t.rx["nfev"], calls=n)
            for c in t.cb:
                if "nfev" in c["state"]:
                    obs.require(c["state"]["nfev"] == c["neval"], "state's nfev differs from the calls so far",
                                nfev=c["state"]["nfev"], calls=c["neval"])
            obs.count("hmc_evaluations", n)
        obs.nontrivial = True
        return
    P, M = o["popsize"], o["maxiter"]
    r = t.rx
    obs.count("iterations", r["nit"])
    obs.count("evaluations", n)
    obs.require(1 <= r["nit"] <= M, "number of iterations outside 1..maxiter", nit=r["nit"], maxiter=M)
    obs.require(r["nfev"] == n, "nfev differs from the number of objective calls", nfev=r["nfev"], calls=n)
    obs.require(n == P * r["nit"], "not exactly one evaluation per member and iteration", calls=n, nit=r["nit"], popsize=P)
    obs.require(len(t.cb) == r["nit"], "callback calls differ from the number of iterations", calls=len(t.cb), nit=r["nit"])
    for k, c in enumerate(t.cb):
        s = c["state"]
        obs.require(s["nit"] == k + 1, "state's nit is not the iteration number", k=k, nit=s["nit"])
        obs.require(c["neval"] == P * (k + 1), "evaluations so far are not popsize per iteration", k=k, calls=c["neval"])
        obs.require(s["nfev"] == c["neval"], "state's nfev differs from the calls so far", nfev=s["nfev"], calls=c["neval"])
    t2 = trace.run(case, callback=False)
    obs.require(t2.rx["nfev"] == len(t2.V) == P * t2.rx["nit"], "accounting differs without a callback",
                nfev=t2.rx["nfev"], calls=len(t2.V), nit=t2.rx["nit"])
    obs.nontrivial = True
