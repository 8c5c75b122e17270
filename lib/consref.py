"""Reference model of the bbob-constrained suites (Dufosse et al.): objective g, linear constraints through the origin in u-space,
u = T(x - xopt) with T the identity, T_osz, T_asy or their composition."""
import math
from functools import lru_cache
import numpy as np
from bbobref import expo, fopt_value, r_different_powers, r_ellipsoid, r_rastrigin, rotation, t_asy, t_osz, unif, xopt_uniform
from rngmodel import Model
from suites import cons_counts

SCALE = [10.0, 1e-4, 10.0, 1e-4, 1e-4, 1e-4, 1e2, 10.0, 10.0]
TRANS = ["id", "osz", "id", "osz", "osz", "asy", "id", "both", "both"]


class Cons:
    def __init__(self, suite, f, D, i):
        self.suite, self.f, self.D, self.i = suite, f, D, i
        self.kind = k = (f - 1) // 6
        self.scale, self.trans = SCALE[k], TRANS[k]
        self.xopt = xopt_uniform(D, f + 10000 * i)
        seed = f + 20000 * i
        self.fopt = fopt_value(f, i)
        self.raw, grad = self._objective(seed)
        d = grad
        with np.errstate(all="ignore"):
            rel = max(0.0, float(np.max(d / (5.0 - self.xopt))), float(np.max(d / (-5.0 - self.xopt))))
        self.dir = d * (0.75 + 0.25 * unif(1, seed + 412)[0]) / rel
        self._constraints()
        self.best = self(self.xopt[None])[0]

    def _objective(self, seed):
        D, k = self.D, self.kind
        xo = xopt_uniform(D, seed + (1000000 if k == 5 else 0))
        R = rotation(D, seed + 1000000) if k in (3, 4, 5, 6, 8) else None
        ex = 1e6 ** expo(D)
        if k == 0:
            return (lambda u: np.sum((u - xo) ** 2, axis=1)), -2 * xo
        if k == 1:
            return (lambda u: r_ellipsoid(u - xo)), -2 * ex * xo
        if k == 2:
            xb = np.where(xo < 0, -5.0, 5.0)
            s = np.sign(xb) * 10.0 ** expo(D)
            return (lambda u: np.sum(5.0 * np.abs(s) - s * np.where(u * xb < 25.0, u, xb), axis=1)), -s
        if k == 3:
            return (lambda u: r_ellipsoid((u - xo) @ R.T)), R.T @ (2 * ex * (R @ -xo))
        if k in (4, 5):
            w = np.ones(D)
            if k == 4:
                w[0] = 1e6
            else:
                w[1:] = 1e6
            return (lambda u: np.sum(w * ((u - xo) @ R.T) ** 2, axis=1)), R.T @ (2 * w * (R @ -xo))
        if k == 6:
            xs = xo * (1e-2 / math.sqrt(float(np.sum(xo * xo))))
            z = R @ -xs
            p = 2.0 + 4.0 * expo(D)
            return (lambda u: r_different_powers((u - xs) @ R.T)), R.T @ (p * np.abs(z) ** (p - 1) * np.sign(z))
        xr = np.trunc(10 * unif(D, seed) - 5)
        if not xr.any():
            xr = np.arange(D) % 9 - 4.0
        z = -xr
        g = 2 * (10 * math.pi * np.sin(2 * math.pi * z) + z)
        if k == 7:
            return (lambda u: r_rastrigin(u - xr)), g
        return (lambda u: r_rastrigin(u @ R.T - xr)), R.T @ g

    def _constraints(self):
        f, D, i = self.f, self.D, self.i
        act, total = cons_counts(f, D)
        if self.suite == "bbob-constrained-active-only":
            total = act
        left = total - act
        r1, r2 = Model(f + 10000 * i), Model(f + 10000 * i)
        fac1 = 100.0 * 10.0 ** r1.uniform()
        G, S, self.active = [], [], []
        comb = np.zeros(D)
        first = None
        a = 0
        for j in range(1, total + 1):
            if j == 1 or (a < act and r1.uniform() + 1e-23 > left / total):
                a += 1
                own, shift = (a - 1 + i) % act == 0, 0.0
            else:
                left -= 1
                own, shift = False, 0.01 + 2.0 * r1.uniform()
            r = Model(f + 10000 * i + 50000 * a)
            fac2 = 100.0 ** r.uniform()
            if own:
                g = -self.dir
                g = g * (fac1 * fac2 / math.sqrt(float(g @ g)))
            else:
                g = np.array([fac1 * r.normal() * fac2 / math.sqrt(D) for _ in range(D)])
            if g @ self.dir - shift * math.sqrt(float(g @ g)) > 0:
                g = -g
            G.append(g)
            S.append(shift * math.sqrt(float(g @ g)))
            self.active.append(shift == 0.0)
            if shift == 0.0:
                if own:
                    first = j - 1
                else:
                    comb = comb + r2.uniform() * g
        if act > 1 and self.suite != "bbob-constrained-no-disguise":
            g = G[first]
            n = math.sqrt(float(g @ g))
            q = float(comb @ g)
            c = D if q <= 0 else min(float(D), n * n / q)
            c *= (1 + r2.uniform()) / (2 + 1.0 / D)
            g = g - c * comb
            G[first] = g * (n / math.sqrt(float(g @ g)))
        self.G, self.S, self.first = np.array(G), np.array(S), first

    def T(self, V):
        if self.trans == "id":
            return V
        if self.trans == "osz":
            return t_osz(V)
        if self.trans == "asy":
            return t_asy(V, 0.2)
        return t_asy(t_osz(V), 0.2)

    def Tinv(self, U):
        """Coordinate-wise inverse by bisection (T is increasing and fixes 0)."""
        if self.trans == "id":
            return U
        U = np.asarray(U, float)
        lo, hi = np.minimum(U * 4, 0) - 1e-300, np.maximum(U * 4, 0) + np.where(U > 0, 4.0, 0) * (U > 0)
        for _ in range(200):
            mid = (lo + hi) / 2
            big = self.T(mid) > U
            hi = np.where(big, mid, hi)
            lo = np.where(big, lo, mid)
        return np.where(U == 0, 0.0, (lo + hi) / 2)

    def value_u(self, U):
        with np.errstate(all="ignore"):
            return self.scale * (self.raw(U) + self.fopt)

    def __call__(self, X):
        with np.errstate(all="ignore"):
            if self.kind == 2:      # linear slope: only the constraints are shifted
                return self.value_u(np.asarray(X, float))
            return self.value_u(self.T(np.asarray(X, float) - self.xopt))

    def cons(self, X):
        """(constraint values, tolerances), (n, m) arrays"""
        with np.errstate(all="ignore"):
            U = self.T(np.asarray(X, float) - self.xopt)
            C = U @ self.G.T - self.S
            mag = np.abs(U) @ np.abs(self.G).T + self.S
            # T amplifies rounding errors of its argument (relative to the size of x)
            h = 2.0 ** -46 * np.maximum(np.max(np.abs(X), axis=1, keepdims=True), 1.0)
            s = np.maximum(np.abs(self.T(X - self.xopt + h) - U), np.abs(self.T(X - self.xopt - h) - U))
            return C, 1e-10 * mag + 20 * (s @ np.abs(self.G).T) + 2e-11 * self.D


@lru_cache(maxsize=64)
def cons(suite, f, D, i):
    return Cons(suite, f, D, i)
