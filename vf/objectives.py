"""Deterministic, pure, picklable objectives described by JSON-able dicts."""
import math
import struct
import zlib

import numpy as np


class Objective:
    """f(x, *args) built from a spec; extra args are added to the value (numbers only)."""

    def __init__(self, spec):
        self.spec = spec
        self.kind = spec["kind"]
        self.c = np.array(spec["c"], dtype=float)
        self.s = np.array(spec["s"], dtype=float)
        self.offset = float(spec.get("offset", 0.0))

    def __call__(self, x, *args):
        v = self.value(np.array(x, dtype=float))
        for a in args:
            if isinstance(a, (int, float)):
                v = v + a
        return v

    def value(self, x):
        z = (x - self.c) / self.s
        k = self.kind
        n = len(z)
        if k == "sphere":
            v = float(np.dot(z, z))
        elif k == "ellipsoid":
            w = 10.0 ** (2.0 * np.arange(n) / max(1, n - 1))
            v = float(np.dot(w, z * z))
        elif k == "rosenbrock":
            z = z + 1.0
            v = float(100.0 * ((z[1:] - z[:-1] ** 2) ** 2).sum() + ((1.0 - z[:-1]) ** 2).sum()
                      + (0.0 if n > 1 else (1.0 - z[0]) ** 2))
        elif k == "rastrigin":
            v = float((z * z - np.cos(2 * np.pi * z) + 1.0).sum())
        elif k == "abs":
            v = float(np.abs(z).sum())
        elif k == "linear":
            v = float(z.sum())
        elif k == "plateau":  # many exact ties
            v = float(np.floor(2.0 * np.abs(z)).sum())
        elif k == "integer":  # returns Python ints, with ties
            v = np.floor(4.0 * np.abs(z)).sum()
            return int(v if v < 2.0**60 else 2.0**60) + int(self.offset)
        elif k == "mixed":  # integer penalty far away, float near the centre
            r = float(np.dot(z, z))
            return 7 if r > 0.5 else r + self.offset
        elif k == "cigar":  # badly conditioned by 10**cond
            v = float(np.dot(10.0 ** (self.spec["cond"] * np.arange(n) / max(1, n - 1)), z * z))
        elif k == "log":  # as "cigar", with differences that never vanish
            w = 10.0 ** (self.spec["cond"] * np.arange(n) / max(1, n - 1))
            z = z if self.spec.get("axis", True) else turn(z)
            v = math.log(float(np.dot(w, z * z)) + 1e-300)
        elif k == "capped":  # flat far away
            v = min(float(np.dot(z, z)), self.spec["cap"])
        elif k == "ridge":  # unbounded below along a narrow ridge
            u = z if self.spec.get("axis", True) else turn(z)
            v = float(u[0] + 10.0 ** self.spec["cond"] * np.dot(u[1:], u[1:]))
        elif k == "step":  # the best values repeat, the others do not
            r = float(np.dot(z, z))
            v = max(r, self.spec["floor"])
        elif k == "dips":  # flat except for rare, shallow dips
            h = zlib.crc32(struct.pack("<%dd" % n, *x))
            v = 1.0 + (0.0 if h % self.spec["every"] else -1.0 if h % 2 else -0.5) * self.spec["depth"] + (h % 7) * self.spec["rough"]
        elif k == "small":  # differences below any tolerance
            v = self.spec["scale"] * float(np.dot(z, z))
        elif k == "constant":
            v = 0.0
        elif k == "barrier":  # +inf on part of the domain
            r = float(np.dot(z, z))
            v = math.inf if z[0] > self.spec.get("wall", 0.25) else r
        elif k == "hash":  # maximally hostile: value unrelated to position
            v = zlib.crc32(struct.pack("<%dd" % n, *x)) / 2.0**32
        elif k == "quantized":  # dyadic rationals: shifts and power-of-two factors are exact
            r = min(float(np.abs(z).sum() + np.dot(z, z)), 1000.0)
            v = math.floor(r * 2.0**20) / 2.0**20
        else:
            raise KeyError(k)
        return v + self.offset


def turn(z):
    """A fixed rotation."""
    n = len(z)
    h = np.ones(n) / math.sqrt(n)
    h[0] += 1.0
    return z - 2.0 * h * float(np.dot(h, z)) / float(np.dot(h, h))


KINDS = ["sphere", "ellipsoid", "rosenbrock", "rastrigin", "abs", "linear", "plateau",
         "integer", "mixed", "constant", "barrier", "hash"]
SMOOTH = ["sphere", "ellipsoid", "rosenbrock", "rastrigin", "abs"]


def random_spec(rng, bounds, kinds=None, where=None, offset=None):
    """An objective adapted to the box: its centre inside, at a face or outside of it."""
    b = np.array(bounds, dtype=float)
    lo, up = b[:, 0], b[:, 1]
    span = np.where(up > lo, up - lo, 1.0)
    n = len(lo)
    where = where or rng.choice(["in", "in", "face", "out", "mixed"])
    u = rng.uniform(0.05, 0.95, n)
    if where == "face":
        u = np.where(rng.rand(n) < 0.5, rng.choice([0.0, 1.0], n), u)
    elif where == "out":
        u = np.where(rng.rand(n) < 0.5, -rng.uniform(0.05, 1.0, n), 1.0 + rng.uniform(0.05, 1.0, n))
    elif where == "mixed":
        u = np.where(rng.rand(n) < 0.3, rng.uniform(-0.5, 1.5, n), u)
    c = lo + u * span
    s = span * (10.0 ** rng.uniform(-0.5, 0.3) if rng.rand() < 0.7 else 1.0)
    if offset is None:
        offset = float(rng.choice([0.0, 0.0, 0.0, 3.0, -2.0, 1000.0]))
    kind = str(rng.choice(kinds or KINDS))
    spec = {"kind": kind, "c": c.tolist(), "s": np.broadcast_to(s, (n,)).tolist(), "offset": offset}
    if kind == "barrier" and rng.rand() < 0.25:
        spec["wall"] = float(rng.choice([-0.3, -10.0]))  # (finite values far away, or none)
    return spec
