"""C05 - termination: status, message, success tell the truth and the run stops when it has to."""
import numpy as np

from .. import configs, trace

LEVEL = "exploration"
RULE = ("random optimizer runs with reachable, unreachable and already-reached ftol/xtol; the logged values decide when the "
        "run had to stop and which reason is true; non-trivial: the stopping rule was evaluated on the log")
MINIMA = {"status_0": 15, "status_1": 60, "status_-1": 60, "cma_negative": 10, "last_iteration_ftol": 5, "ftol_met_exactly": 200, "last_improved_little": 20}

MESSAGES = {
    -8: "TolX", -7: "TolFun", -6: "TolXUp", -5: "EqualFunValues", -4: "ConditionCov", -3: "NoEffectCoord",
    -2: "NoEffectAxis", -1: "maximum number of iterations is reached",
    0: "best solution changes less than xtol", 1: "best solution value is lower than ftol",
}


def cases(ctx):
    out = []
    for i in range(ctx.n(3300, 16000)):
        rng = ctx.rng(i)
        kw = {}
        k = i % 5
        if k < 3:
            kw = dict(kinds=["sphere", "abs", "ellipsoid", "integer", "plateau", "constant", "mixed", "sphere"],
                      offset=0.0 if k < 2 else None)
        cfg = configs.gen_opt(rng, popmax=12, **kw)
        o = cfg["options"]
        if k < 3:
            o["maxiter"] = int(rng.choice([1, 2, 3, 6, 12, 30, 60, 150]))
            o["ftol"] = float(rng.choice([0.0, 1e-8, 1e-3, 1e-1, 1.0, configs.NO_FTOL]))
        if k == 4 and cfg["method"] in ("cmaes", "vdcma"):
            o["ftol"] = configs.NO_FTOL
            o["maxiter"] = int(rng.choice([60, 300]))
        out.append(cfg)
        if k == 1:  # re-run the same problem so that ftol is met in the very last iteration allowed
            import copy
            c2 = copy.deepcopy(cfg)
            c2["probe_last"] = True
            out.append(c2)
        elif k in (0, 2):  # re-run with an ftol that is exactly one of the best values met
            import copy
            c2 = copy.deepcopy(cfg)
            c2["probe_equal"] = float(rng.rand())
            if rng.rand() < 0.2:
                c2["options"]["maxiter"] = 1
            c2["options"]["ftol"] = configs.NO_FTOL
            out.append(c2)
    for i in range(ctx.n(750, 3000)):  # small populations moving one after the other: which update of the best ended the run
        rng = ctx.rng("small", i)
        cfg = configs.gen_opt(rng, method=str(rng.choice(["pso", "cpso", "de"])), kinds=["sphere", "abs", "ellipsoid"], offset=0.0, where="in", popmax=6,
                              updating="immediate", ndim=int(rng.choice([1, 2, 3])), maxiter=60, fixed=False, x0=False)
        o = cfg["options"]
        o["popsize"] = min(o["popsize"], int(rng.choice([2, 3, 4]))) if cfg["method"] != "de" else o["popsize"]
        o["ftol"] = float(rng.choice([1e-4, 1e-2, 0.1]))
        o["xtol"] = float(10.0 ** rng.uniform(-2, 0.5) * max(b[1] - b[0] for b in cfg["bounds"]))
        if cfg["method"] != "de":
            o.update(inertia=0.7298, cognitivity=1.49618, sociability=1.49618)
        out.append(cfg)
    return out


def flat_history_range(best, gen=None):
    return float(max(best) - min(best))


def run_case(case, obs):
    t = trace.run(case)
    if case.get("probe_last"):
        n = int(t.rx["nit"])
        if n < 2 or t.rx["status"] not in (0, 1):
            return
        import copy
        case = copy.deepcopy(case)
        case["options"]["maxiter"] = n
        if case["method"] == "cpso":  # its restarts depend on maxiter
            case["options"]["competitivity"] = 0.0
        t = trace.run(case)
        obs.count("last_iteration_ftol")
    if "probe_equal" in case:
        import copy
        case = copy.deepcopy(case)
        vals = np.array([c["state"]["fun"] for c in t.cb])
        v = float(vals[int(case["probe_equal"] * len(vals))])
        if not np.isfinite(v):
            return
        case["options"]["ftol"] = v
        t = trace.run(case)
        obs.count("ftol_met_exactly", bool((t.V == v).any()))
        if case["method"] in ("cmaes", "vdcma"):
            obs.require(t.rx["status"] in (0, 1) or t.rx["nit"] == case["options"]["maxiter"], "ftol was met exactly but the run did not stop for it",
                        status=t.rx["status"])
        else:
            obs.require(t.rx["status"] in (0, 1), "ftol was met exactly but failure is reported", status=t.rx["status"], ftol=v, fun=t.rx["fun"])
    o = case["options"]
    P, M, ftol, xtol = o["popsize"], o["maxiter"], o["ftol"], o["xtol"]
    r = t.rx
    st, nit = r["status"], r["nit"]
    obs.count("status_%d" % st)
    if st < -1:
        obs.count("cma_negative")
    obs.require(r["success"] in (True, False) and bool(r["success"]) == (st >= 0), "success is not (status >= 0)",
                success=r["success"], status=st)
    obs.require(MESSAGES.get(st) == r["message"], "message does not belong to status", status=st, message=r["message"])
    obs.require(nit <= M, "more iterations than maxiter", nit=nit, maxiter=M)
    obs.require((st >= 0) <= (r["fun"] <= ftol), "success reported although fun > ftol", fun=r["fun"], ftol=ftol, status=st)
    if st == -1:
        obs.require(nit == M, "maxiter reported as the cause before maxiter iterations", nit=nit, maxiter=M)
    lo, up = trace.lo_up(case)
    if case["method"] in configs.POPULATION:
        obs.require(st in (-1, 0, 1), "unexpected status", status=st)
        best = np.minimum.accumulate(t.V)[P - 1::P]  # after each iteration
        hit = [g for g in range(1, len(best)) if best[g] <= ftol]
        must = (hit[0] + 1) if hit else M
        if M == 1:
            must = 1
        early = nit == 1 and best[0] <= ftol  # stopping at once on a good initial population is fine too
        obs.require(nit == must or early, "did not stop at the first iteration whose best reached ftol",
                    nit=nit, expected=must, ftol=ftol, best=best[:10])
        if st == -1:
            obs.require(not best[-1] <= ftol, "failure reported although ftol was reached", fun=r["fun"], ftol=ftol)
        if st == 0:
            check_move(obs, case, t, nit, P, xtol, ftol, lo, up)
        if st in (0, 1) and o.get("updating", "deferred") == "immediate" and nit >= 2 and len(t.cb) >= 2:
            xb, fb, x, v = t.cb[-2]["state"]["x"], best[nit - 2], t.X[-1], t.V[-1]
            f1 = min([fb] + list(t.V[-P:-1]))
            x1 = [xb] + [y for y, w in zip(t.X[-P:-1], t.V[-P:-1]) if w == f1] if f1 < fb else [xb]
            # the very last evaluation improved the best solution, by little, and little happened before
            if v < f1 and v <= ftol:
                near = all(np.linalg.norm(x - y) < xtol * (1 - 1e-9) for y in x1 + [xb])
                obs.count("last_improved")
                obs.count("last_improved_little", near)
                obs.require(st == 0 or not near, "the last improvement was within xtol but this was not reported", xtol=xtol)
        if st == 1 and o.get("updating", "deferred") == "deferred" and nit >= 2 and case["method"] != "na" and len(t.cb) >= 2:
            a, b = t.cb[-2]["state"]["x"], t.cb[-1]["state"]["x"]
            obs.require(not np.linalg.norm(a - b) < xtol * (1 - 1e-9), "xtol was met but not reported",
                        move=np.linalg.norm(a - b), xtol=xtol)
    else:
        gen = [c["state"]["fun"] for c in t.cb]
        hit = [g for g in range(len(gen)) if gen[g] <= ftol]
        if hit:
            obs.require(nit == hit[0] + 1, "did not stop at the first generation whose best reached ftol",
                        nit=nit, expected=hit[0] + 1)
            if nit < M:
                obs.require(st in (0, 1), "ftol reached but another cause reported", status=st)
        ilim = int(10 + 30 * len(lo) / P)
        if st == -5:
            obs.require(nit >= ilim and flat_history_range(gen[-ilim:]) < 1e-10, "EqualFunValues without equal values",
                        values=gen[-ilim:])
        if st == -7 and not trace.penalized(case):
            vals = list(t.V[-P:]) + gen
            obs.require(flat_history_range(vals) < 1e-12, "TolFun although function values differ", range=flat_history_range(vals))
        if nit < M and not hit and not trace.penalized(case):
            obs.require(st < -1, "stopped early without a cause", status=st)
        # values that stay exactly the same must not keep the run going
        flat = len(set(t.V)) == 1 and not trace.penalized(case)
        if flat and np.isfinite(t.V[0]) and not hit and M > max(3, ilim):
            obs.count("flat_runs")
            obs.require(nit <= max(3, ilim), "kept running although all function values are equal", nit=nit, limit=max(3, ilim))
    obs.nontrivial = True


def check_move(obs, case, t, nit, P, xtol, ftol, lo, up):
    """status 0: the best solution moved by no more than xtol when it reached ftol."""
    span = np.where(up > lo, up - lo, 1.0) if case["method"] == "na" else np.ones(len(lo))
    obs.count("xtol_checked")
    slack = xtol * (1 + 1e-9) + 1e-12 * np.max(np.maximum(np.abs(lo), np.abs(up)) / span)
    if case["options"].get("updating", "deferred") == "deferred":
        a, b = t.cb[-2]["state"]["x"], t.cb[-1]["state"]["x"]
        move = np.linalg.norm((a - b) / span)
        obs.require(move <= slack, "xtol reported as met but the best solution moved more", move=move, xtol=xtol)
        return
    # immediate: some member of the last iteration improved the best by a move <= xtol while at or below ftol
    n0 = (nit - 1) * P
    xb, fb = t.cb[-2]["state"]["x"], t.cb[-2]["state"]["fun"]
    ok = False
    for k in range(n0, n0 + P):
        if t.V[k] <= fb:
            if t.V[k] <= ftol and np.linalg.norm(t.X[k] - xb) <= slack:
                ok = True
            xb, fb = t.X[k], t.V[k]
    obs.require(ok, "xtol reported as met but no improvement of the last iteration moved that little", xtol=xtol)
