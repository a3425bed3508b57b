"""Replaying population state from the log of evaluations (member i of an iteration is its i-th evaluation)."""
import numpy as np


def generations(cfg, t):
    P = cfg["options"]["popsize"]
    n = len(t.V) // P
    return t.X[: n * P].reshape(n, P, -1), t.V[: n * P].reshape(n, P)


class Greedy:
    """Personal bests (DE: the population) under greedy selection; ties may go either way, so both are kept."""

    def __init__(self, X, V):
        self.X = X.copy()
        self.V = V.copy()
        self.alt = [[x.copy()] for x in X]  # equally good positions each member may hold

    def offer(self, i, x, v):
        if v < self.V[i]:
            self.X[i], self.V[i] = x, v
            self.alt[i] = [x.copy()]
            return True
        if v == self.V[i] and not any((a == x).all() for a in self.alt[i]):
            self.alt[i].append(x.copy())
        return False

    def tied(self):
        return any(len(a) > 1 for a in self.alt)

    def holds(self, i, x, tol=0.0):
        return any((np.abs(a - x) <= tol).all() for a in self.alt[i])
