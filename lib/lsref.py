"""Reference model of the bbob-largescale functions (Varelas et al., PPSN 2018): the rotations of the bbob functions are
replaced by P_left * block-diagonal * P_right, and the raw value is scaled by min(1, 40/D)."""
import math
from functools import lru_cache
import numpy as np
from bbobref import (Ref, FOPT_SEED, build, expo, fopt_value, gauss, lam, pen, r_different_powers, r_ellipsoid,
                     r_griewank_rosenbrock, r_katsuura, r_rastrigin, r_rosenbrock, r_schaffers, r_weierstrass, rnd, rotation,
                     seed_of, t_asy, t_osz, unif, xopt_uniform)

BLOCK = 40


@lru_cache(maxsize=256)
def perm(D, seed):
    """Truncated uniform swaps: D swaps of range D/3 (identity up to 40 variables)."""
    P = np.arange(D)
    if D > 40:
        reach = D // 3
        for n, a in enumerate(np.argsort(unif(D, seed), kind="stable")):
            lo, hi = max(0, a - reach), min(D - 1, a + reach)
            b = lo + int(unif(1, seed + 1000 * (n + 1))[0] * (hi - lo))
            if b >= a:
                b += 1
            P[a], P[b] = P[b], P[a]
    P.flags.writeable = False
    return P


@lru_cache(maxsize=64)
def blocks(D, seed):
    n = min(D, BLOCK)
    out = []
    for k, start in enumerate(range(0, D, n)):
        size = min(n, D - start)
        out.append((start, size, rotation(size, seed + 1000000 * k)))
    return out


def rotate(X, D, seed, left=None, right=None):
    """x -> permute by `left`, block-rotate, permute by `right`."""
    if left is not None:
        X = X[:, perm(D, left)]
    Y = np.empty_like(X)
    for start, size, B in blocks(D, seed):
        Y[:, start:start + size] = X[:, start:start + size] @ B.T
    if right is not None:
        Y = Y[:, perm(D, right)]
    return Y


M = 1000000


def build_ls(kind, D, seed):
    norm = min(1.0, 40.0 / D)
    xo = xopt_uniform(D, seed)
    n40 = -(-D // 40)
    c = max(1.0, math.sqrt(min(D, BLOCK)) / 8.0)

    def R(X, l, r):
        return rotate(X, D, seed + M, seed + l * M, seed + r * M)

    def Q(X, l, r):
        return rotate(X, D, seed, seed + l * M, seed + r * M)

    if kind in (1, 2, 3, 5):
        raw, xo = build(kind, D, seed)
        return (lambda X: norm * raw(X)), xo
    if kind == 4:
        raw, xo = build(4, D, seed)
        return (lambda X: norm * (raw(X) - 100.0 * pen(X)) + 100.0 * pen(X)), xo
    if kind == 8:
        xr = 0.75 * xo
        return (lambda X: norm * r_rosenbrock(c * (X - xr) + 1.0)), xr
    if kind == 6:
        def f6(X):
            z = R(Q(X - xo, 2, 3) * lam(D, 10), 4, 5)
            return t_osz(norm * np.sum((np.where(z * xo > 0, 100.0, 1.0) * z) ** 2, axis=1)) ** 0.9
        return f6, xo
    if kind == 7:
        def f7(X):
            zh = Q(X - xo, 2, 3) * lam(D, 10)
            zt = np.where(np.abs(zh) > 0.5, rnd(zh), rnd(10.0 * zh) / 10.0)
            return norm * 0.1 * np.maximum(D * np.abs(zh[:, 0]) * 1e-4, r_ellipsoid(R(zt, 4, 5), 100.0)) + pen(X)
        return f7, xo
    if kind == 9:
        xr = 0.75 * xo
        return (lambda X: norm * r_rosenbrock(c * Q(X - xr, 2, 3) + 1.0)), xr
    if kind == 10:
        return (lambda X: norm * r_ellipsoid(t_osz(R(X - xo, 2, 3)), 1e6)), xo
    if kind == 11:
        def f11(X):
            z = t_osz(R(X - xo, 2, 3))
            return norm * (1e6 * np.sum(z[:, :n40] ** 2, axis=1) + np.sum(z[:, n40:] ** 2, axis=1))
        return f11, xo
    if kind == 12:
        xo = xopt_uniform(D, seed + M)

        def f12(X):
            z = R(t_asy(R(X - xo, 2, 3), 0.5), 2, 3)
            return norm * (np.sum(z[:, :n40] ** 2, axis=1) + 1e6 * np.sum(z[:, n40:] ** 2, axis=1))
        return f12, xo
    if kind == 13:
        def f13(X):
            z = R(Q(X - xo, 5, 6) * lam(D, 10), 3, 4)
            return norm * (np.sum(z[:, :n40] ** 2, axis=1) + 100.0 * np.sqrt(np.sum(z[:, n40:] ** 2, axis=1)))
        return f13, xo
    if kind == 14:
        return (lambda X: norm * r_different_powers(R(X - xo, 2, 3))), xo
    if kind == 15:
        return (lambda X: norm * r_rastrigin(R(Q(t_asy(t_osz(R(X - xo, 3, 4)), 0.2), 5, 6) * lam(D, 10), 3, 4))), xo
    if kind == 16:
        return (lambda X: r_weierstrass(R(Q(t_osz(R(X - xo, 5, 6)), 3, 4) * lam(D, 0.01), 5, 6)) + 10.0 / D * pen(X)), xo
    if kind in (17, 18):
        al = 10.0 if kind == 17 else 1000.0
        return (lambda X: r_schaffers(Q(t_asy(R(X - xo, 5, 6), 0.5), 3, 4) * lam(D, al)) + 10.0 * pen(X)), xo
    if kind == 19:
        z = (0.5 / c) * np.ones(D)
        y = np.empty(D)
        y[perm(D, seed + 3 * M)] = z
        w = np.empty(D)
        for start, size, B in blocks(D, seed):
            w[start:start + size] = B.T @ y[start:start + size]
        xb = np.empty(D)
        xb[perm(D, seed + 2 * M)] = w
        return (lambda X: r_griewank_rosenbrock(c * Q(X, 2, 3) + 0.5, 10.0)), xb
    if kind == 20:
        return build(20, D, seed)
    if kind in (21, 22):
        peaks = 101 if kind == 21 else 21
        b, cc, a0 = (10.0, 5.0, math.sqrt(1000.0)) if peaks == 101 else (9.8, 4.9, 1000.0)
        order = np.argsort(unif(peaks - 1, seed), kind="stable")
        alpha = np.concatenate([[a0], 1000.0 ** (order / (peaks - 2.0))])
        w = np.concatenate([[10.0], 1.1 + 8.0 * np.arange(peaks - 1) / (peaks - 2.0)])
        C = np.empty((peaks, D))
        for i in range(peaks):
            p = np.argsort(unif(D, seed + 1000 * i), kind="stable")
            C[i] = alpha[i] ** (p / (D - 1.0) - 0.5)
        Y = (b * unif(D * peaks, seed) - cc).reshape(peaks, D).copy()
        Y[0] *= 0.8
        L = rotate(Y, D, seed)

        def f21(X):
            tx = rotate(X, D, seed)
            v = np.stack([w[i] * np.exp(-0.5 / D * np.sum(C[i] * (tx - L[i]) ** 2, axis=1)) for i in range(peaks)], axis=1)
            return t_osz(10.0 - np.max(v, axis=1)) ** 2 + pen(X)
        return f21, Y[0].copy()
    if kind == 23:
        return (lambda X: r_katsuura(R(Q(X - xo, 3, 4) * lam(D, 100), 5, 6)) + pen(X)), xo
    if kind == 24:
        mu0, d = 2.5, 1.0
        s = 1.0 - 0.5 / (math.sqrt(D + 20.0) - 4.1)
        mu1 = -math.sqrt((mu0 * mu0 - d) / s)
        sg = np.where(gauss(D, seed) < 0.0, -1.0, 1.0)

        def f24(X):
            xh = 2.0 * sg * X
            z = R(Q(xh - mu0, 3, 4) * lam(D, 100), 5, 6)
            return (norm * (np.minimum(np.sum((xh - mu0) ** 2, axis=1), d * D + s * np.sum((xh - mu1) ** 2, axis=1))
                            + 10.0 * (D - np.sum(np.cos(2 * math.pi * z), axis=1))) + 1e4 * pen(X))
        return f24, sg * mu0 / 2.0
    raise ValueError(kind)


@lru_cache(maxsize=64)
def largescale(function, D, instance):
    raw, xo = build_ls(function, D, seed_of(function, instance))
    return Ref(D, raw, xo, fopt_value(function, instance))
