"""Canonical digests of everything a run lets its caller observe (bitwise)."""
import hashlib

import numpy as np

from . import trace


def feed(h, v):
    if isinstance(v, dict):
        for k in sorted(v):
            h.update(str(k).encode())
            feed(h, v[k])
    elif isinstance(v, (list, tuple)):
        h.update(b"l%d" % len(v))
        for w in v:
            feed(h, w)
    elif isinstance(v, str) or v is None or isinstance(v, (bool, np.bool_)):
        h.update(repr(str(v)).encode())
    else:
        a = np.ascontiguousarray(np.asarray(v, dtype=float)) + 0.0
        h.update(repr(a.shape).encode() + a.tobytes())


def of(v):
    h = hashlib.sha256()
    feed(h, v)
    return h.hexdigest()


def run_digests(cfg, **kw):
    """Separate digests, so that a mismatch says where it is."""
    t = trace.run(cfg, **kw)
    ev = np.column_stack([t.X, t.V])
    if cfg["options"].get("workers", 1) not in (0, 1):  # calls complete in any order: compare as a multiset
        ev = ev[np.lexsort(ev.T)]
    return {
        "evaluations": of(ev),
        "callbacks": of([[c["neval"], c["X"], c["state"]] for c in t.cb]),
        "result": of(t.rx),
    }, t
