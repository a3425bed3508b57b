"""Reference CMA-ES, VD-CMA and boundary penalty, written from the publications (Hansen's tutorial, Akimoto et al. 2014, Hansen et al. 2009).

They own no random numbers and evaluate nothing: told the points and values of a generation, they say from which
normal distribution the next one has to be drawn.
"""
import math

import numpy as np


class Unsure(Exception):
    """Round-off may decide a branch (tie, threshold): the run is not followed further."""


def log_weights(popsize, muperc):
    mu = max(1, int(muperc * popsize))
    w = np.array([math.log(mu + 0.5) - math.log(i + 1.0) for i in range(mu)])
    w = w / w.sum()
    return mu, w, 1.0 / float((w * w).sum())


def ranking(fit, mu, all_of=False):
    """Order of the values; ties within what matters are not decided here."""
    order = np.argsort(fit, kind="stable")
    top = fit[order[: (len(fit) if all_of else mu + 1)]]
    gap = np.diff(top)
    if (gap <= 1e-11 * np.maximum(np.abs(top[1:]), np.abs(top[:-1]))).any():
        raise Unsure("tie")
    return order


class CMA:
    def __init__(self, n, popsize, sigma, muperc, mean):
        self.n, self.P = n, popsize
        self.mu, self.w, self.mueff = log_weights(popsize, muperc)
        m = self.mueff
        self.cc = (4 + m / n) / (n + 4 + 2 * m / n)
        self.cs = (m + 2) / (n + m + 5)
        self.c1 = 2 / ((n + 1.3) ** 2 + m)
        self.cmu = min(1 - self.c1, 2 * (m - 2 + 1 / m) / ((n + 2) ** 2 + m))
        self.damps = 1 + 2 * max(0.0, math.sqrt((m - 1) / (n + 1)) - 1) + self.cs
        self.chi = math.sqrt(n) * (1 - 1 / (4.0 * n) + 1 / (21.0 * n * n))
        self.mean, self.old, self.sigma = np.array(mean, dtype=float), None, float(sigma)
        self.C = np.eye(n)
        self.B, self.D = np.eye(n), np.ones(n)  # decomposition in use
        self.pc, self.ps = np.zeros(n), np.zeros(n)
        self.gen = 0
        self.last_eig = 0
        self.worst = 1e-10  # smallest ratio of eigenvalues that is still followed

    def whiten(self, y):
        """Standard normal coordinates of points, up to a rotation."""
        return ((y - self.mean) @ self.B) / self.D / self.sigma

    def draw(self, z):
        return self.mean + self.sigma * (z * self.D) @ self.B.T

    def scale(self):
        return self.sigma * float(self.D.min())

    def diag(self):
        return np.diag(self.C).copy()

    def tell(self, x, fit):
        order = ranking(fit, self.mu)
        sel = x[order[: self.mu]]
        self.gen += 1
        self.old = self.mean
        self.mean = self.w @ sel
        step = (self.mean - self.old) / self.sigma
        white = self.B @ ((self.B.T @ step) / self.D)
        self.ps = (1 - self.cs) * self.ps + math.sqrt(self.cs * (2 - self.cs) * self.mueff) * white
        norm = float(np.sqrt((self.ps**2).sum()))
        lhs = norm / math.sqrt(1 - (1 - self.cs) ** (2 * self.gen)) / self.chi
        rhs = 1.4 + 2 / (self.n + 1.0)
        if abs(lhs - rhs) < 1e-8:
            raise Unsure("hsig")
        h = 1.0 if lhs < rhs else 0.0
        self.pc = (1 - self.cc) * self.pc + h * math.sqrt(self.cc * (2 - self.cc) * self.mueff) * step
        Y = (sel - self.old) / self.sigma
        rank_mu = sum(w * np.outer(v, v) for w, v in zip(self.w, Y))
        self.C = ((1 - self.c1 - self.cmu) * self.C + self.c1 * (np.outer(self.pc, self.pc) + (1 - h) * self.cc * (2 - self.cc) * self.C)
                  + self.cmu * rank_mu)
        self.sigma *= math.exp(self.cs / self.damps * (norm / self.chi - 1))
        lag = 1.0 / (self.c1 + self.cmu) / self.n / 10.0
        if abs(self.gen - self.last_eig - lag) < 1e-9:
            raise Unsure("lag")
        if self.gen - self.last_eig > lag:
            self.last_eig = self.gen
            self.C = np.triu(self.C) + np.triu(self.C, 1).T
            d2, self.B = np.linalg.eigh(self.C)
            if not (d2 > self.worst * d2.max()).all():
                raise Unsure("conditioning")
            self.D = np.sqrt(d2)


class VD:
    def __init__(self, n, popsize, sigma, muperc, mean, v):
        self.n, self.P = n, popsize
        self.mu, self.w, self.mueff = log_weights(popsize, muperc)
        m = self.mueff
        self.cc = (4 + m / n) / (n + 4 + 2 * m / n)
        f = (n - 5.0) / 6.0
        self.c1 = f * 2 / ((n + 1.3) ** 2 + m)
        self.cmu = min(1 - self.c1, f * 2 * (m - 2 + 1 / m) / ((n + 2) ** 2 + m))
        self.mean, self.old, self.sigma = np.array(mean, dtype=float), None, float(sigma)
        self.v, self.d = np.array(v, dtype=float), np.ones(n)
        self.pc = np.zeros(n)
        self.s = 0.0
        self.dx = None

    def diag(self):
        return self.d**2 * (1 + self.v**2)

    def shape(self, z):
        """y ~ N(0, D (I + v v') D) from standard normal rows."""
        n2 = float(self.v @ self.v)
        u = self.v / math.sqrt(n2)
        return (z + (math.sqrt(1 + n2) - 1) * np.outer(z @ u, u)) * self.d

    def draw(self, z, length=None):
        """Points of the generation; `length` of the injected mean shift (from the second generation on)."""
        y = self.shape(z)
        if self.dx is not None:
            q = self.dx / self.d
            m = float(q @ q) - float(q @ self.v) ** 2 / (1 + float(self.v @ self.v))
            if not m > 0:
                raise Unsure("no shift")
            y[0] = length / math.sqrt(m) * self.dx
            y[1] = -y[0]
        return self.mean + self.sigma * y

    def scale(self):
        return self.sigma * float(self.d.min())

    def tell(self, x, fit):
        order = ranking(fit, self.mu, all_of=self.dx is not None)
        y = (x - self.mean) / self.sigma
        sel = y[order[: self.mu]]
        self.old = self.mean
        shift = self.sigma * (self.w @ sel)
        self.mean = self.mean + shift
        if self.dx is None:
            h = True
        else:
            rank = np.empty(self.P)
            rank[order] = np.arange(self.P)
            self.s += 0.3 * ((rank[1] - rank[0]) / (self.P - 1.0) - self.s)
            self.sigma *= math.exp(self.s / math.sqrt(self.n))
            if abs(self.s - 0.5) < 1e-9:
                raise Unsure("hsig")
            h = self.s < 0.5
        self.dx = shift
        self.pc = (1 - self.cc) * self.pc + (math.sqrt(self.cc * (2 - self.cc) * self.mueff) * (self.w @ sel) if h else 0.0)
        if not self.c1 + self.cmu > 0:
            return
        v2 = float(self.v @ self.v)
        nv = math.sqrt(v2)
        u = self.v / nv
        uu = u * u
        top = float(uu.max())
        g = 1 / math.sqrt(1 + v2)
        a = math.sqrt(v2**2 + (1 + v2) / top * (2 - g)) / (2 + v2)
        if a < 1:
            b = (4 - (2 - g) / top) / (1 + 2 / v2) ** 2
        else:
            a, b = 1.0, 0.0
        bb = 2 * a * a - b
        A = 2 - (bb + 2 * a * a) * uu
        iA = uu / A

        def pq(r):
            ru = float(r @ u)
            return r * r - v2 / (1 + v2) * ru * r * u - 1, ru * r - 0.5 * (ru * ru + 1 + v2) * u

        p, q = np.zeros(self.n), np.zeros(self.n)
        for w, r in zip(self.w, sel / self.d):
            pi, qi = pq(r)
            p += self.cmu * w * pi
            q += self.cmu * w * qi
        if h:
            pi, qi = pq(self.pc / self.d)
            p += self.c1 * pi
            q += self.c1 * qi
        r = p - a / (1 + v2) * ((2 + v2) * q * u - v2 * float(u @ q) * uu)
        s = r / A - bb * float(r @ iA) / (1 + bb * float(uu @ iA)) * iA
        gv = q / nv - a / nv * ((2 + v2) * u * s - float(s @ uu) * u)
        gd = self.d * s
        f = 1.0  # at most 70 percent change
        if gv.any():
            f = min(f, 0.7 * nv / math.sqrt(float(gv @ gv)))
        if gd.any():
            f = min(f, 0.7 / float((np.abs(gd) / self.d).max()))
        self.v = self.v + f * gv
        self.d = self.d + f * gd


class Penalty:
    """Adaptive quadratic boundary penalty of a box [-1, 1]."""

    def __init__(self, n, popsize, mueff):
        self.n, self.P, self.mueff = n, popsize, mueff
        self.weights = np.zeros(n)
        self.hist = [1.0]
        self.valid = False
        self.initial = True
        self.gen = 0

    def fitness(self, x, raw, mean, old, sigma, diag):
        self.gen += 1
        n = self.n
        q1, q3 = np.percentile(raw, 25), np.percentile(raw, 75)
        delta = (q3 - q1) / n / diag.mean() / sigma**2
        self.flat = delta == 0
        if delta == 0:
            delta = min(h for h in self.hist if h > 0)
        elif not self.valid:
            self.hist = []
            self.valid = True
        if len(self.hist) >= 20 + 3.0 * n / self.P:
            self.hist = self.hist[1:]
        self.hist = self.hist + [delta]
        out = mean - np.clip(mean, -1, 1)
        if (np.abs(np.abs(mean) - 1) < 1e-11).any():
            raise Unsure("mean on the boundary")
        if (out != 0).any():
            if self.initial:
                self.weights = np.full(n, 2.0002 * float(np.median(self.hist)))
                if self.valid and self.gen > 2:
                    self.initial = False
            far = 3 * max(1.0, math.sqrt(n / self.mueff)) * sigma * np.sqrt(diag)
            if old is not None:
                if (np.abs(np.abs(out) - far) < 1e-9 * far).any():
                    raise Unsure("distance")
                grow = (out != 0) & (np.abs(out) > far) & (np.sign(out) == np.sign(mean - old))
                self.weights = np.where(grow, self.weights * 1.2 ** min(1.0, self.mueff / 10.0 / n), self.weights)
            elif (np.abs(out) > far).any():
                raise Unsure("first generation far outside")
        logd = np.log(diag)
        scale = np.exp(0.9 * (logd - logd.mean()))
        return raw + ((x - np.clip(x, -1, 1)) ** 2 * (self.weights / scale)).sum(axis=1)
