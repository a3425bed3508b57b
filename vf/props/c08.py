"""C08 - MPI: every process gets the same result, equal to the serial one, and each candidate is evaluated exactly once."""
import copy
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

import numpy as np

from .. import configs, digest, harness, trace

LEVEL = "exploration"
RULE = ("real mpirun launches with 1..6 processes that arrive with unrelated generator states, with and without seed, rank-"
        "dependent delays, population sizes below / not divisible by the number of processes; per-rank logs are checked offline "
        "against each other and against the serial run; non-trivial: a multi-process run was compared on every rank")
MINIMA = {"runs": 60, "rank_results": 150, "seeded": 20, "unseeded": 20}
CASE_TIMEOUT = 400.0
PROCS = 4

MPIRUN = ["mpirun", "--oversubscribe", "--mca", "btl", "self,vader", "--mca", "btl_vader_single_copy_mechanism", "none",
          "--mca", "plm", "isolated", "--mca", "pml", "ob1"]


def gen(rng, seeded):
    cfg = configs.gen_opt(rng, popmax=10, maxiter=int(rng.choice([1, 2, 3, 5, 8, 12])), seeded=seeded,
                          ftol=configs.NO_FTOL if rng.rand() < 0.6 else None)
    if rng.rand() < 0.07:
        configs.crowd(rng, cfg, [150, 400, 1000])
    cfg["options"].pop("workers", None)
    return cfg


def cases(ctx):
    out = []
    for i in range(ctx.n(12, 60)):
        rng = ctx.rng(i)
        runs = []
        for k in range(10):
            cfg = gen(rng, bool(k % 2))
            runs.append({"cfg": cfg, "workers": int(rng.choice([1, 1, 0, 2, -1])),
                         "delay": float(rng.choice([0.0, 0.0, 0.001])) / (10.0 if cfg["options"]["popsize"] > 60 else 1.0), "callback": bool(rng.rand() < 0.7)})
        out.append({"np": [2, 3, 4, 5, 3, 2, 6, 1][i % 8], "runs": runs, "salt": i})
    return out


def launch(case, obs):
    """Run mpirun; returns the list of per-rank event lists, or None when inconclusive."""
    d = tempfile.mkdtemp(dir=os.environ.get("VF_SCRATCH"))
    try:
        path = os.path.join(d, "cases.json")
        json.dump(case["runs"], open(path, "w"))
        env = dict(os.environ, TMPDIR=d, OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1")
        p = subprocess.Popen(MPIRUN + ["-np", str(case["np"]), sys.executable, "-m", "vf.mpi_worker", path, d],
                             cwd=str(harness.ROOT), env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                             stderr=open(os.path.join(d, "err"), "w"), start_new_session=True)
        logs = [os.path.join(d, "rank%d.log" % r) for r in range(case["np"])]
        size, quiet = -1, time.time()
        stuck = False
        while p.poll() is None:
            time.sleep(0.05)
            s = sum(os.path.getsize(l) for l in logs if os.path.exists(l))
            if s != size:
                size, quiet = s, time.time()
            elif time.time() - quiet > 30.0:  # no event from any rank: only a stall, judged below
                stuck = True
                break
        if p.poll() is None:
            os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        ranks = []
        for l in logs:
            ev = []
            if os.path.exists(l):
                for line in open(l):
                    try:
                        ev.append(json.loads(line))
                    except ValueError:
                        pass
            ranks.append(ev)
        return ranks, stuck, p.returncode, open(os.path.join(d, "err")).read()[-600:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_case(case, obs):
    ranks, stuck, rc, err = launch(case, obs)
    size = case["np"]
    if any(not r for r in ranks):
        obs.inconclusive = "mpirun did not start every process (rc %r): %s" % (rc, err)
        return
    if any(r[0]["size"] != size for r in ranks):
        obs.inconclusive = "mpi4py did not see %d processes" % size
        return
    ends = [{e["k"]: e for e in r if e["event"] == "end"} for r in ranks]
    errors = [e for r in ranks for e in r if e["event"] == "error"]
    if errors:
        obs.violation("MPI run raised: " + errors[0]["error"], mechanism="crash:mpi", tb=errors[0]["tb"],
                      cfg=case["runs"][errors[0]["k"]]["cfg"])
        return
    for k, run in enumerate(case["runs"]):
        done = [k in e for e in ends]
        if all(done):
            check_run(obs, run, [e[k] for e in ends], size)
            continue
        if any(done) and stuck:
            obs.violation("processes diverge: some finished the run, others wait in it forever", mechanism="divergence",
                          finished=[r for r in range(size) if done[r]], cfg=run["cfg"])
        elif not obs.violations:
            # Nobody finished. Once is no verdict; a second launch that stalls in the same logical state is a deadlock.
            n = [len([e for e in r if e["event"] in ("begin", "eval")]) for r in ranks]
            if stuck:
                ranks2, stuck2, _, _ = launch({"np": size, "runs": case["runs"][: k + 1]}, obs)
                n2 = [len([e for e in r if e["event"] in ("begin", "eval")]) for r in ranks2]
                if stuck2 and n2 == n:
                    obs.violation("processes wait for each other forever", mechanism="divergence", events=n, cfg=run["cfg"])
                    break
            obs.inconclusive = "MPI run %d did not end (stuck=%r, rc=%r, begun=%r): %s" % (k, stuck, rc, n, err)
        break
    obs.nontrivial = obs.n["rank_results"] > 0


def check_run(obs, run, ev, size):
    cfg = run["cfg"]
    P = cfg["options"]["popsize"]
    obs.count("runs")
    obs.count("rank_results", size)
    for field in ("result", "states", "nit", "status", "fun", "x", "nfev"):
        vals = [e[field] for e in ev]
        if any(v != vals[0] and not (v != v and vals[0] != vals[0]) for v in vals):
            obs.violation("processes returned different results", mechanism="ranks-differ", field=field,
                          method=cfg["method"], seeded=ev[0]["seeded"], nit=[e["nit"] for e in ev],
                          fun=[e["fun"] for e in ev], x=[e["x"] for e in ev])
            return
    nit = ev[0]["nit"]
    calls = [c for e in ev for c in e["calls"]]
    obs.count("evaluations", len(calls))
    if not obs.require(len(calls) == P * nit == ev[0]["nfev"], "candidates were not evaluated exactly once over all processes",
                       calls=len(calls), popsize=P, nit=nit, nfev=ev[0]["nfev"]):
        return
    if run["callback"]:
        for g in range(nit):
            tot = sum(e["percb"][g] for e in ev)
            obs.require(tot == P * (g + 1), "evaluations so far over all processes are not popsize per iteration",
                        generation=g, total=tot)
    if size <= P and size > 1:
        obs.require(all(len(e["calls"]) > 0 for e in ev), "a process evaluated nothing", calls=[len(e["calls"]) for e in ev])
    X = np.array([c[0] for c in calls])
    V = np.array([c[1] for c in calls])
    if ev[0]["seeded"]:
        obs.count("seeded")
        serial = copy.deepcopy(cfg)
        serial["options"]["workers"] = 1
        if cfg["method"] in ("pso", "cpso", "de"):
            serial["options"]["updating"] = "deferred"
        t = trace.run(serial, callback=run["callback"])
        a, b = np.column_stack([X, V]), np.column_stack([t.X, t.V])
        if not trace.same(a[np.lexsort(a.T)], b[np.lexsort(b.T)]):
            obs.violation("MPI evaluated other candidates than the serial deferred run", mechanism="mpi-vs-serial",
                          method=cfg["method"], mpi=len(a), serial=len(b))
        elif ev[0]["result"] != digest.of(t.rx):
            obs.violation("MPI result differs from the serial deferred result", mechanism="mpi-vs-serial",
                          method=cfg["method"], mpi=ev[0]["fun"], serial=t.rx["fun"])
        elif run["callback"]:
            obs.require(ev[0]["states"] == digest.of([[c["X"], c["state"]] for c in t.cb]),
                        "MPI callback states differ from the serial run", method=cfg["method"])
    else:
        obs.count("unseeded")
        lo, up = trace.lo_up(cfg)
        x, f = np.array(ev[0]["x"]), ev[0]["fun"]
        near = [trace.close_x(r, x, lo, up) for r in X]
        ok = any(near) and (trace.penalized(cfg) or bool((V[near] == f).any()))
        obs.require(ok, "MPI result is not an evaluated candidate with its value", method=cfg["method"], x=x, fun=f)
        if cfg["method"] in configs.POPULATION:
            obs.require(f == V.min(), "MPI result is not the best evaluation over all processes", fun=f, best=V.min())
