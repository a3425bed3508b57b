"""C06 - seeded runs are reproducible and depend on nothing but their arguments."""
import copy
import json
import os
import subprocess
import sys

import numpy as np

from .. import configs, digest, harness, trace

LEVEL = "exploration"
RULE = ("random seeded runs of all optimizers and samplers (serial, threads) repeated bitwise: after other draws from the "
        "global generator (incl. a cached Gaussian), after other runs, and in fresh interpreters with another hash seed; plus "
        "runs with other seeds and without (after NumPy's own seed was set; successively); non-trivial: at least two executions of the same configuration were compared")
MINIMA = {"repeats": 400, "fresh_interpreter": 60, "seed_pairs": 100, "unseeded": 150}
CASE_TIMEOUT = 300.0


def gen(rng):
    if rng.rand() < 0.25:
        cfg = configs.gen_smp(rng)
    else:
        cfg = configs.gen_opt(rng, popmax=12)
        if rng.rand() < 0.1:
            cfg["options"].update(workers=2, backend=str(rng.choice(["threading", ""])) or None, maxiter=min(4, cfg["options"]["maxiter"]))
    cfg["options"]["seed"] = int(rng.choice([0, 1, 42, 2**31 - 1, 2**32 - 1, rng.randint(2**31 - 1), rng.randint(2**31 - 1)]))
    return cfg


def family(rng):
    """Runs of equal sizes with other options next to each other."""
    out = []
    for _ in range(9):
        out.append(gen(rng))
        out += [configs.relative(rng, out[-1]) for _ in range(2)]
    return out


def cases(ctx):
    out = []
    for i in range(ctx.n(500, 6000)):
        rng = ctx.rng("repeat", i)
        out.append({"mode": "repeat", "cfg": gen(rng), "other": gen(rng), "noise": int(rng.randint(2**31 - 1)),
                    "form": str(rng.choice(["int", "int64", "uint32"]))})
    for i in range(ctx.n(6, 40)):
        rng = ctx.rng("fresh", i)
        out.append({"mode": "fresh", "cfgs": family(rng), "noise": int(rng.randint(2**31 - 1))})
    for i in range(ctx.n(150, 1500)):
        rng = ctx.rng("seeds", i)
        cfg = gen(rng)
        s = cfg["options"]["seed"]
        out.append({"mode": "seeds", "cfg": cfg, "s2": int((s + rng.choice([1, 2, 256, 65536])) % 2**32)})
    for i in range(ctx.n(200, 2000)):
        rng = ctx.rng("unseeded", i)
        out.append({"mode": "unseeded", "cfg": gen(rng), "explicit": bool(rng.rand() < 0.5)})
    return out


def compare(obs, d1, d2, how, cfg):
    for k in sorted(d1):
        if d1[k] != d2.get(k):
            obs.violation("same seed, different %s: %s" % (k, how), mechanism="irreproducible", where=how,
                          method=cfg["method"], seed=cfg["options"]["seed"], got=d2)
            return


def run_case(case, obs):
    if case["mode"] == "repeat":
        cfg = case["cfg"]
        np.random.seed(123)
        d1, _ = digest.run_digests(cfg)
        # every seed-independent source of state is moved between the two executions
        np.random.seed(case["noise"] % 2**32)
        np.random.rand(case["noise"] % 7)
        np.random.randn(1 + case["noise"] % 2)  # may leave a cached Gaussian behind
        if case["noise"] % 3:
            trace.run(case["other"])
        if case["noise"] % 5 == 0:
            c2 = copy.deepcopy(case["other"])
            c2["options"].pop("seed")
            trace.run(c2)
        cfg2 = copy.deepcopy(cfg)
        s = cfg["options"]["seed"]
        cfg2["options"]["seed"] = {"int": int, "int64": np.int64, "uint32": np.uint32}[case["form"]](s)
        d2, _ = digest.run_digests(cfg2)
        compare(obs, d1, d2, "after other draws and runs in the process", cfg)
        obs.count("repeats")
        obs.nontrivial = True
    elif case["mode"] == "unseeded":
        cfg = case["cfg"]
        d1, t1 = digest.run_digests(cfg)
        c2 = copy.deepcopy(cfg)
        c2["options"].pop("seed")
        if case["explicit"]:
            c2["options"]["seed"] = None
        np.random.seed(cfg["options"]["seed"])
        d2, _ = digest.run_digests(c2)
        compare(obs, d1, d2, "as NumPy's own seed", cfg)
        obs.count("unseeded")
        c2["x0"] = None
        if c2["kind"] == "smp":
            c2["options"]["maxiter"] = max(2, c2["options"]["maxiter"])
        _, t2 = digest.run_digests(c2)
        _, t3 = digest.run_digests(c2)
        b = np.array(cfg["bounds"], dtype=float)
        free = b[:, 1] > b[:, 0]
        m = min(len(t2.X), len(t3.X))
        if free.any() and c2["options"].get("constraints") != "Penalize":
            obs.require(not trace.same(t2.X[:m, free], t3.X[:m, free]), "two successive runs without a seed gave the same candidates", method=cfg["method"])
        obs.nontrivial = True
    elif case["mode"] == "fresh":
        env = dict(os.environ, PYTHONHASHSEED=str(case["noise"] % 2**32))
        p = subprocess.run([sys.executable, "-m", "vf.worker"], input=json.dumps(case["cfgs"]), text=True,
                           capture_output=True, env=env, cwd=str(harness.ROOT), timeout=280)
        if p.returncode != 0:
            obs.inconclusive = "fresh interpreter failed: " + p.stderr[-500:]
            return
        np.random.seed(case["noise"] % 2**32)
        for cfg, d2 in list(zip(case["cfgs"], json.loads(p.stdout)))[::-1]:  # in another order
            d1, _ = digest.run_digests(cfg)
            compare(obs, d1, d2, "in a fresh interpreter", cfg)
            obs.count("fresh_interpreter")
        obs.nontrivial = True
    else:
        cfg = copy.deepcopy(case["cfg"])
        if cfg["kind"] == "smp" and cfg["options"]["maxiter"] < 2:
            cfg["options"]["maxiter"] = 2
        cfg["x0"] = None
        _, t1 = digest.run_digests(cfg)
        cfg["options"]["seed"] = case["s2"]
        _, t2 = digest.run_digests(cfg)
        m = min(len(t1.X), len(t2.X))
        b = np.array(cfg["bounds"], dtype=float)
        free = b[:, 1] > b[:, 0]
        if free.any() and cfg["options"].get("constraints") != "Penalize":
            obs.count("seed_pairs")
            obs.require(not trace.same(t1.X[:m, free], t2.X[:m, free]), "different seeds gave the same candidates",
                        method=cfg["method"], s1=case["cfg"]["options"]["seed"], s2=case["s2"])
        obs.nontrivial = True
