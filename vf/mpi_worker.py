"""One MPI process of a C08 run: executes every configuration with backend='mpi' and logs what this rank saw.

Usage: python -m vf.mpi_worker CASES.json OUTDIR      (under mpirun)
Rank r appends one JSON line per event to OUTDIR/rank<r>.log.
"""
import json
import os
import sys
import time
import warnings

import numpy as np

warnings.simplefilter("ignore")
np.seterr(all="ignore")


def main():
    from mpi4py import MPI

    from . import digest, trace
    from .objectives import Objective

    comm = MPI.COMM_WORLD
    rank, size = comm.Get_rank(), comm.Get_size()
    cases = json.load(open(sys.argv[1]))
    log = open(os.path.join(sys.argv[2], "rank%d.log" % rank), "w")

    def emit(**kw):
        log.write(json.dumps(kw) + "\n")
        log.flush()

    emit(event="start", rank=rank, size=size)
    for k, case in enumerate(cases):
        cfg = case["cfg"]
        opts = trace.build_options(cfg)
        opts["backend"] = "mpi"
        opts["workers"] = case["workers"]
        f = Objective(cfg["objective"])
        calls = []

        def fun(x, *args):
            xc = np.array(x, dtype=float, copy=True)
            j = len(calls)
            calls.append(None)
            if len(calls) > trace.budget(cfg):
                raise RuntimeError("runaway")
            if case["delay"] and (j + rank + k) % 5 == 0:
                time.sleep(case["delay"] * (rank + 1))
            v = f(xc, *args)
            emit(event="eval", k=k, j=j)
            calls[j] = [xc.tolist(), float(v)]
            return v

        states = []

        def cb(X, state):
            states.append([len(calls), np.array(X, dtype=float, copy=True), trace.snapshot_result(state)])

        # the processes arrive with unrelated generator states
        np.random.seed(1000 * k + 17 * rank + 5)
        np.random.randn(1 + rank % 2)
        seeded = opts.get("seed") is not None
        emit(event="begin", k=k)
        try:
            res = trace.call(cfg, fun, cfg["bounds"], trace.build_x0(cfg), tuple(cfg["args"]), opts,
                             cb if case["callback"] else None)
            out = trace.snapshot_result(res)
            emit(event="end", k=k, calls=calls, result=digest.of(out), seeded=seeded,
                 states=digest.of([[X, s] for _, X, s in states]), percb=[n for n, _, _ in states],
                 fun=float(out["fun"]), x=np.asarray(out["x"], dtype=float).tolist(), nit=int(out["nit"]),
                 nfev=int(out["nfev"]), status=int(out["status"]))
        except Exception as e:
            import traceback
            emit(event="error", k=k, error="%s: %s" % (type(e).__name__, e), tb=traceback.format_exc()[-800:])
            time.sleep(0.2)
            comm.Abort(3)
        comm.Barrier()
    emit(event="finish")


if __name__ == "__main__":
    main()
