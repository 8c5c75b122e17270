"""Model of the bbob-noisy suite: noise-free value, noise draw sequence, noise model, boundary penalty."""
import math
import numpy as np
import bbobref

DIMS = [2, 3, 5, 10, 20, 40]


class Noise:
    """The two global draw sequences."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.u = self.n = 30

    def unif(self):
        self.u = self.u + 1 if self.u < 10 ** 9 else 1
        return float(bbobref.unif(1, self.u)[0])

    def gauss(self):
        self.n = self.n + 1 if self.n < 10 ** 9 else 1
        return float(bbobref.gauss(1, self.n)[0])

    def draw(self, function, D):
        kind, p = bbobref.noise_params(function, D)
        if kind == "gauss":
            return kind, p, (self.gauss(),)
        if kind == "uniform":
            a = self.unif()
            return kind, p, (a, self.unif())
        u = self.unif()
        a = self.gauss()
        return kind, p, (u, a, self.gauss())


def unif_first(n, seeds):
    """The first n numbers of the legacy generator for every seed of an array, (len(seeds), n)."""
    s = np.array(seeds, dtype=np.int64)

    def step(s):
        q = s // 127773
        s = 16807 * (s - q * 127773) - 2836 * q
        return np.where(s < 0, s + bbobref.M31, s)
    table = np.zeros((len(s), 32), dtype=np.int64)
    for i in range(39, -1, -1):
        s = step(s)
        if i < 32:
            table[:, i] = s
    r = table[:, 0].copy()
    rows = np.arange(len(s))
    out = np.empty((len(s), n))
    for i in range(n):
        s = step(s)
        k = r // 67108865
        r = table[rows, k]
        table[rows, k] = s
        out[:, i] = r / 2.147483647e9
    out[out == 0.0] = 1e-99
    return out


def gauss_first(seeds):
    u = unif_first(2, seeds)
    g = np.sqrt(-2.0 * np.log(u[:, 0])) * np.cos(2.0 * math.pi * u[:, 1])
    g[g == 0.0] = 1e-99
    return g


def draws(noise, function, D, n):
    """The draws of the next n evaluations, (kind, parameters, (array, ...)); advances the sequences."""
    kind, p = bbobref.noise_params(function, D)
    nu, ng = {"gauss": (0, 1), "uniform": (2, 0)}.get(kind, (1, 2))
    r = []
    if nu:
        u = unif_first(1, noise.u + 1 + np.arange(nu * n))[:, 0].reshape(n, nu)
        r += [u[:, k] for k in range(nu)]
    if ng:
        g = gauss_first(noise.n + 1 + np.arange(ng * n)).reshape(n, ng)
        r += [g[:, k] for k in range(ng)]
    noise.u += nu * n
    noise.n += ng * n
    return kind, p, r


def apply(draw, v, fopt, pen):
    kind, p, r = draw
    if kind == "gauss":
        return (v - fopt) * math.exp(p["beta"] * r[0]) + 1.01e-8 + fopt + pen
    if kind == "uniform":
        d = v - fopt
        q = 1e9 / (d + 1e-99)
        try:
            s = q ** (p["alpha"] * r[1]) if q > 0 else 1.0
        except OverflowError:
            s = float("inf")
        return d * r[0] ** p["beta"] * max(1.0, s) + 1.01e-8 + fopt + pen
    c = 1000.0 + (r[1] / abs(r[2] + 1e-199) if r[0] < p["p"] else 0.0)
    return v + max(0.0, p["alpha"] * c) + 1.01e-8 + pen


def expected(draw, ref, X, V, T):
    """(value, tolerance) for one point."""
    pen = 100.0 * float(bbobref.pen(X[None, :])[0])
    y = apply(draw, V, ref.fopt, pen)
    tol = 1e-9 * abs(y - ref.fopt) + 1e-11 + 1e-12 * abs(ref.fopt)
    for e in (-1.0, -0.5, -0.1, -0.01, 0.01, 0.1, 0.5, 1.0):
        tol = max(tol, 3 * abs(apply(draw, V + e * T, ref.fopt, pen) - y))
    return y, tol
