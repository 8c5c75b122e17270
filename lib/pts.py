"""Deterministic point generators: a point is described by [kind, seed], so cases stay small and shrinkable."""
import numpy as np

KINDS = ["box", "box", "wide", "near", "near", "near", "sparse", "axis", "corner", "edge", "grid", "opt", "far", "int", "zero",
         "beyond", "mirror", "onecoord"]


def specs(rng, n, kinds=KINDS):
    return [[rng.choice(kinds), rng.randrange(1 << 30)] for _ in range(n)]


def point(spec, D, lo=-5.0, hi=5.0, xopt=None):
    kind, seed = spec
    g = np.random.default_rng(seed)
    lo = np.broadcast_to(np.asarray(lo, float), (D,))
    hi = np.broadcast_to(np.asarray(hi, float), (D,))
    w = hi - lo
    xo = np.asarray(xopt, float) if xopt is not None else (lo + hi) / 2
    if kind == "box":
        return lo + w * g.random(D)
    if kind == "wide":
        return lo - w + 3 * w * g.random(D)
    if kind == "near":
        return xo + 10.0 ** g.uniform(-7, 0.3) * g.standard_normal(D)
    if kind == "sparse":
        x = xo.copy()
        k = g.integers(1, min(D, 3) + 1)
        j = g.choice(D, k, replace=False)
        x[j] += 10.0 ** g.uniform(-5, 0.5, k) * g.choice([-1, 1], k)
        return x
    if kind == "axis":
        x = xo.copy()
        x[g.integers(D)] += g.choice([-1, 1]) * 10.0 ** g.uniform(-3, 0.5)
        return x
    if kind == "corner":
        return np.where(g.random(D) < 0.5, lo, hi)
    if kind == "edge":
        x = lo + w * g.random(D)
        m = g.random(D) < 0.4
        m[g.integers(D)] = True
        x[m] = np.where(g.random(D) < 0.5, lo, hi)[m]
        return x
    if kind == "grid":
        return np.round(lo + w * g.random(D), 1)
    if kind == "opt":
        return xo.copy()
    if kind == "far":
        return g.standard_normal(D) * 10.0 ** g.uniform(1, 4)
    if kind == "int":
        return np.round(lo + w * g.random(D))
    if kind == "zero":
        x = np.zeros(D)
        if seed % 2:
            x[g.integers(D)] = 1.0
        return x
    if kind == "beyond":
        x = lo + w * g.random(D)
        j = g.integers(D)
        e = 10.0 ** g.uniform(-12, 1)
        x[j] = hi[j] + e if g.random() < 0.5 else lo[j] - e
        return x
    if kind == "mirror":
        return 2 * ((lo + hi) / 2) - xo + 0.1 * g.standard_normal(D)
    if kind == "onecoord":
        x = np.full(D, lo + w * g.random(D)[0])
        x = x + 0.0
        x[g.integers(D)] = lo[0] + w[0] * g.random()
        return x
    raise ValueError(kind)


def points(sp, D, lo=-5.0, hi=5.0, xopt=None):
    return np.array([point(s, D, lo, hi, xopt) for s in sp])
