"""Running a property's cases, collecting the monitors' observations, verdicts and evidence.

A property module defines

    LEVEL        evidence level ("exploration", "fault_enumeration", ...)
    RULE         how cases are made and what makes one non-trivial
    cases(ctx)   -> iterable of JSON-able case dicts
    run_case(case, obs)  runs the real code for one case under the monitors; reports through obs

and optionally

    MINIMA       {counter: minimum total} below which the run is inconclusive (exit 2)
    finish(ctx, total)  verdicts over the pooled observations (e.g. statistics)
    CASE_TIMEOUT, PROCS

Verdicts are three-valued: violation (exit 1), held on what was observed (exit 0), inconclusive (exit 2).
"""
import hashlib
import json
import multiprocessing as mp
import os
import pathlib
import signal
import time
import traceback
from collections import Counter

import numpy as np

ROOT = pathlib.Path(__file__).resolve().parent.parent
EVIDENCE = ROOT / "evidence"
REPLAYS = ROOT / "replays"
MAX_REPORTED = 5


class Hang(BaseException):
    """The wall-clock watchdog fired: inconclusive, never a violation by itself."""


class BudgetExceeded(BaseException):
    """The run asked for far more evaluations than it may."""


class Obs:
    """What the monitors of one case saw."""

    def __init__(self):
        self.n = Counter()
        self.violations = []
        self.findings = []
        self.data = {}
        self.nontrivial = False
        self.inconclusive = None
        self.repeated = False  # runs sharing their random numbers with other cases do not enter pooled tests

    def count(self, key, k=1):
        self.n[key] += int(k)

    def violation(self, what, mechanism=None, **details):
        """Record a violation; `mechanism` is the stable key a known-findings entry matches."""
        if len(self.violations) < 3:
            self.violations.append(
                {"what": what, "mechanism": mechanism or what, "details": jsonable(details)}
            )

    def require(self, cond, what, **details):
        if not cond:
            self.violation(what, **details)
        return bool(cond)

    def sample(self, key, values):
        if self.repeated:
            return
        self.data.setdefault(key, []).extend(np.ravel(values).tolist())


def jsonable(o):
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, np.generic):
        return jsonable(o.item())
    if isinstance(o, float):
        return o if np.isfinite(o) else repr(o)
    if isinstance(o, (str, int, bool)) or o is None:
        return o
    return repr(o)


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.thorough = self.tier == "thorough"

    def rng(self, *key):
        h = hashlib.sha256(repr((self.seed, self.pid) + key).encode()).digest()
        return np.random.RandomState(np.frombuffer(h[:16], dtype=np.uint32))

    def n(self, quick, thorough=None):
        return (thorough if thorough is not None else 12 * quick) if self.thorough else quick


_MOD = None


def _one(item):
    index, case, timeout = item
    obs = Obs()
    obs.repeated = isinstance(case.get("options"), dict) and case["options"].get("seed") == 0

    def alarm(signum, frame):
        raise Hang()

    old = signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    state = np.random.get_state()
    try:
        _MOD.run_case(case, obs)
    except Hang:
        obs.inconclusive = "watchdog after %gs" % timeout
    except BudgetExceeded as e:
        obs.violation("run does not stop: %s" % e, mechanism="runaway")
    except (MemoryError, OSError, ImportError):
        obs.inconclusive = "resource error: " + traceback.format_exc()[-1500:]
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inlib = any("/stochopy/" in f.filename for f in tb)
        if inlib:
            obs.violation(
                "valid run raised %s: %s" % (type(e).__name__, str(e)[:200]),
                mechanism="crash:" + type(e).__name__,
                where=["%s:%d" % (f.filename, f.lineno) for f in tb][-4:],
            )
        else:
            # What the run delivered does not have the documented form the monitor reads.
            obs.violation(
                "monitor cannot read what the run delivered (%s: %s)" % (type(e).__name__, str(e)[:200]),
                mechanism="malformed:" + type(e).__name__,
                where=["%s:%d" % (f.filename, f.lineno) for f in tb][-4:],
            )
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        np.random.set_state(state)
    return index, obs


def _many(items):
    return [_one(item) for item in items]


def _init(mod):
    global _MOD
    import warnings

    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    _MOD = mod


def load_known():
    """Known findings: lines 'property=<id> mechanism=<key> :: <what fails>' ('fixed:' lines suppress nothing)."""
    out = []
    p = ROOT / "known_findings.txt"
    if p.exists():
        for line in p.read_text().splitlines():
            line = line.strip()
            if line.startswith("finding: "):
                head, _, what = line[len("finding: "):].partition(" :: ")
                kv = dict(t.split("=", 1) for t in head.split(" ", 1))
                out.append((kv["property"], kv["mechanism"], what))
    return out


def run(mod, pid):
    t0 = time.time()
    ctx = Ctx(pid)
    _init(mod)
    cases = list(mod.cases(ctx))
    timeout = getattr(mod, "CASE_TIMEOUT", 120.0)
    procs = min(getattr(mod, "PROCS", os.cpu_count() or 1), max(1, len(cases)))
    deadline = t0 + (600 if not ctx.thorough else 3 * 3600)

    total = Counter()
    data = {}
    violations = []
    inconclusive = []
    distinct = set()
    samples = []
    done = 0

    items = ((i, c, timeout) for i, c in enumerate(cases))
    pool = None
    if procs > 1:
        pool = mp.get_context("fork").Pool(procs, initializer=_init, initargs=(mod,))
        chunk = max(1, min(16, len(cases) // (procs * 4) or 1))
        items = list(items)
        it = pool.imap_unordered(_many, [items[k:k + chunk] for k in range(0, len(items), chunk)])
    else:
        it = ([_one(item)] for item in items)
    truncated = False
    try:
        while True:
            try:
                if pool is not None:
                    batch = it.next(timeout=max(1.0, deadline - time.time()))
                else:
                    batch = next(it)
            except StopIteration:
                break
            except mp.TimeoutError:
                truncated = True
                break
            for index, obs in batch:
                done += 1
                total.update(obs.n)
                for k, v in obs.data.items():
                    data.setdefault(k, []).append((index, v))
                if obs.inconclusive:
                    inconclusive.append((index, obs.inconclusive))
                for v in obs.violations:
                    violations.append((index, v))
                if obs.nontrivial:
                    text = json.dumps(jsonable(cases[index]), sort_keys=True)
                    key = hashlib.md5(text.encode()).hexdigest()
                    if key not in distinct:
                        distinct.add(key)
                        if len(samples) < 3:
                            samples.append(jsonable({"case": cases[index], "observed": dict(obs.n)}))
            if time.time() > deadline:
                truncated = True
                break
    finally:
        if pool is not None:
            pool.terminate()
            pool.join()

    # Pooled verdicts (order-independent: sorted by case index)
    total_obs = Obs()
    if hasattr(mod, "finish") and not violations:
        flat = {k: [x for _, v in sorted(vs, key=lambda t: t[0]) for x in v] for k, vs in data.items()}
        mod.finish(ctx, flat, total, total_obs)
        for v in total_obs.violations:
            violations.append((-1, v))
        if total_obs.inconclusive:
            inconclusive.append((-1, total_obs.inconclusive))
        total.update(total_obs.n)

    known = {(p, m): w for p, m, w in load_known()}
    seen_known = {}
    fresh = []
    violations.sort(key=lambda t: t[0])
    for index, v in violations:
        if (pid, v["mechanism"]) in known:
            seen_known[v["mechanism"]] = known[(pid, v["mechanism"])]
        else:
            fresh.append((index, v))

    coverage = {
        "evaluations": done,
        "distinct_nontrivial": len(distinct),
        "rule": mod.RULE,
        "samples": samples or [jsonable(c) for c in cases[:1]],
        "observed": {k: total[k] for k in sorted(total)},
        "truncated_by_deadline": truncated,
        "inconclusive_cases": len(inconclusive),
    }
    short = [
        (k, total[k], m) for k, m in getattr(mod, "MINIMA", {}).items() if total[k] < m
    ]
    ev = {
        "property": pid,
        "tier": ctx.tier,
        "seed": ctx.seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": coverage,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(fresh),
    }
    EVIDENCE.mkdir(exist_ok=True)
    (EVIDENCE / (pid + ".json")).write_text(json.dumps(ev, indent=1) + "\n")

    for mech, what in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    if fresh:
        REPLAYS.mkdir(exist_ok=True)
        for k, (index, v) in enumerate(fresh[:MAX_REPORTED]):
            path = REPLAYS / ("%s-%d.json" % (pid, k))
            path.write_text(
                json.dumps(
                    jsonable(
                        {
                            "property": pid,
                            "seed": ctx.seed,
                            "tier": ctx.tier,
                            "case": cases[index] if index >= 0 else None,
                            "violation": v,
                        }
                    ),
                    indent=1,
                )
            )
            print("  %s: %s" % (pid, v["what"]), json.dumps(v["details"])[:600])
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if inconclusive:
        for index, why in inconclusive[:3]:
            print("INCONCLUSIVE property=%s case %d: %s" % (pid, index, why))
        return 2
    if truncated and done < 0.5 * len(cases):
        print("INCONCLUSIVE property=%s deadline reached after %d of %d cases" % (pid, done, len(cases)))
        return 2
    if short:
        for k, got, m in short:
            print("INCONCLUSIVE property=%s monitor counter %s = %d < %d" % (pid, k, got, m))
        return 2
    print(
        "HELD property=%s tier=%s seed=%d cases=%d distinct=%d wall=%.1fs %s"
        % (pid, ctx.tier, ctx.seed, done, len(distinct), time.time() - t0, dict(total))
    )
    return 0


def replay(mod, pid, path):
    _init(mod)
    doc = json.loads(pathlib.Path(path).read_text())
    if doc["case"] is None:
        os.environ["VERIF_SEED"] = str(doc["seed"])
        os.environ["VERIF_TIER"] = doc["tier"]
        return run(mod, pid)
    _, obs = _one((0, doc["case"], 600.0))
    for v in obs.violations:
        print("  %s: %s" % (pid, v["what"]), json.dumps(v["details"])[:2000])
    if obs.violations:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if obs.inconclusive:
        print("INCONCLUSIVE", obs.inconclusive)
        return 2
    print("HELD on replay", dict(obs.n))
    return 0
