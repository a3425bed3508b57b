"""Pooled tests with conservative thresholds (|z| > 6.5 has probability below 1e-10 for a normal statistic)."""
import math

import numpy as np

Z = 6.5


def z_mean(values, mean, var):
    """z of the sample mean of independent values with known mean and variance."""
    v = np.asarray(values, dtype=float)
    if len(v) == 0:
        return 0.0
    return float((v.mean() - mean) / math.sqrt(var / len(v)))


def uniform(values):
    """Largest |z| of mean, second central moment and decile counts of supposed U(0,1) draws."""
    u = np.asarray(values, dtype=float)
    if len(u) < 200:
        return 0.0, "few"
    zs = {
        "mean": z_mean(u, 0.5, 1 / 12.0),
        "variance": z_mean((u - 0.5) ** 2, 1 / 12.0, 1 / 180.0),
    }
    c = np.bincount(np.clip((u * 10).astype(int), 0, 9), minlength=10)
    for k in range(10):
        zs["decile %d" % k] = float((c[k] - len(u) / 10.0) / math.sqrt(len(u) * 0.09))
    if len(u) > 1000:
        zs["lower end"] = float(((u < 0.02).sum() - 0.02 * len(u)) / math.sqrt(len(u) * 0.0196))
        zs["upper end"] = float(((u > 0.98).sum() - 0.02 * len(u)) / math.sqrt(len(u) * 0.0196))
    k = max(zs, key=lambda k: abs(zs[k]))
    return abs(zs[k]), k


def normal(values):
    """Largest |z| of mean, variance, third and fourth moment of supposed N(0,1) draws."""
    x = np.asarray(values, dtype=float)
    if len(x) < 200:
        return 0.0, "few"
    zs = {
        "mean": z_mean(x, 0.0, 1.0),
        "variance": z_mean(x**2, 1.0, 2.0),
        "skew": z_mean(np.clip(x, -6, 6) ** 3, 0.0, 15.0),
        "kurtosis": z_mean(np.clip(x, -6, 6) ** 4, 3.0, 96.0) * 0.7,
    }
    k = max(zs, key=lambda k: abs(zs[k]))
    return abs(zs[k]), k


def check(obs, z, what, detail=""):
    obs.count("stat_tests")
    if not abs(z) <= Z:
        obs.violation("%s: z = %.1f %s" % (what, z, detail), mechanism="stat:" + what)
