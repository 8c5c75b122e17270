"""Independent reference model of the BBOB benchmark functions, written from the published definitions
(Hansen et al., RR-6829 / RR-6869; Varelas et al. for the large-scale variants), vectorised over points with numpy.

Every builder returns a Ref object: f(X) -> values for an (n, D) array, xopt (or None), fopt."""
import math
from functools import lru_cache
import numpy as np

M31 = 2147483647


# ------------------------------------------------------------------ the legacy pseudo-random generator
@lru_cache(maxsize=4096)
def _unif(n, seed):
    """Park-Miller generator with a 32-entry Bays-Durham shuffle."""
    s = abs(int(seed))
    if s < 1:
        s = 1
    table = [0] * 32
    for i in range(39, -1, -1):
        s = (16807 * s) % M31 if False else _step(s)
        if i < 32:
            table[i] = s
    r = table[0]
    out = np.empty(n)
    for i in range(n):
        s = _step(s)
        k = r // 67108865
        r = table[k]
        table[k] = s
        out[i] = r / 2.147483647e9
    out[out == 0.0] = 1e-99
    out.flags.writeable = False
    return out


def _step(s):
    q = s // 127773
    s = 16807 * (s - q * 127773) - 2836 * q
    return s + M31 if s < 0 else s


def unif(n, seed):
    return _unif(int(n), int(seed))


def gauss(n, seed):
    u = unif(2 * n, seed)
    g = np.sqrt(-2.0 * np.log(u[:n])) * np.cos(2.0 * math.pi * u[n:2 * n])
    g[g == 0.0] = 1e-99
    return g


def orthonormal(D, seed_or_vec):
    """Gram-Schmidt on the columns of the column-major D x D Gaussian matrix."""
    g = gauss(D * D, seed_or_vec) if np.isscalar(seed_or_vec) else seed_or_vec
    B = g.reshape(D, D).T.copy()
    for i in range(D):
        for j in range(i):
            B[:, i] -= (B[:, i] @ B[:, j]) * B[:, j]
        B[:, i] /= math.sqrt(B[:, i] @ B[:, i])
    return B


@lru_cache(maxsize=512)
def rotation(D, seed):
    B = orthonormal(D, seed)
    B.flags.writeable = False
    return B


def xopt_uniform(D, seed, half=4.0):
    u = unif(D, seed)
    x = 2.0 * half * np.floor(1e4 * u) / 1e4 - half
    x[x == 0.0] = -1e-5
    return x


FOPT_SEED = {4: 3, 18: 17}
for _fs, _s in (((101, 102, 103, 107, 108, 109), 1), ((104, 105, 106, 110, 111, 112), 8), ((113, 114, 115), 7),
                ((116, 117, 118), 10), ((119, 120, 121), 14), ((122, 123, 124), 17), ((125, 126, 127), 19),
                ((128, 129, 130), 21)):
    for _f in _fs:
        FOPT_SEED[_f] = _s


def fopt_value(function, instance):
    s = FOPT_SEED.get(function, function) + 10000 * instance
    a, b = gauss(1, s)[0], gauss(1, s + 1)[0]
    return min(1000.0, max(-1000.0, math.floor(100.0 * 100.0 * a / b + 0.5) / 100.0))


# ------------------------------------------------------------------ transformations
def t_osz(v):
    v = np.asarray(v, float)
    out = np.zeros_like(v)
    p = v > 0
    if p.any():
        h = np.log(v[p]) / 0.1
        out[p] = np.exp(0.1 * (h + 0.49 * (np.sin(h) + np.sin(0.79 * h))))
    m = v < 0
    if m.any():
        h = np.log(-v[m]) / 0.1
        out[m] = -np.exp(0.1 * (h + 0.49 * (np.sin(0.55 * h) + np.sin(0.31 * h))))
    return out


def expo(D):
    return np.arange(D) / (D - 1.0)


def t_asy(v, beta):
    v = np.asarray(v, float)
    D = v.shape[-1]
    out = v.copy()
    p = v > 0
    e = np.broadcast_to(beta * expo(D), v.shape)
    out[p] = v[p] ** (1.0 + e[p] * np.sqrt(v[p]))
    return out


def lam(D, alpha):
    return alpha ** (0.5 * expo(D))


def pen(X, lo=-5.0, hi=5.0):
    a = np.maximum(X - hi, 0.0)
    b = np.maximum(lo - X, 0.0)
    return np.sum(a * a + b * b, axis=1)


def rnd(v):
    return np.floor(v + 0.5)


# ------------------------------------------------------------------ raw functions (on z)
def r_sphere(z):
    return np.sum(z * z, axis=1)


def r_ellipsoid(z, cond=1e6):
    return np.sum(cond ** expo(z.shape[1]) * z * z, axis=1)


def r_rastrigin(z):
    D = z.shape[1]
    return 10.0 * (D - np.sum(np.cos(2 * math.pi * z), axis=1)) + np.sum(z * z, axis=1)


def r_rosenbrock(z):
    a, b = z[:, :-1], z[:, 1:]
    return np.sum(100.0 * (a * a - b) ** 2 + (a - 1.0) ** 2, axis=1)


def r_different_powers(z):
    return np.sqrt(np.sum(np.abs(z) ** (2.0 + 4.0 * expo(z.shape[1])), axis=1))


def r_weierstrass(z):
    D = z.shape[1]
    k = np.arange(12)
    ak, bk = 0.5 ** k, 3.0 ** k
    f0 = np.sum(ak * np.cos(math.pi * bk))
    s = np.sum(ak * np.cos(2 * math.pi * bk * (z[:, :, None] + 0.5)), axis=(1, 2)) / D
    return 10.0 * (s - f0) ** 3


def r_schaffers(z):
    s2 = z[:, :-1] ** 2 + z[:, 1:] ** 2
    t = s2 ** 0.25 * (1.0 + np.sin(50.0 * s2 ** 0.1) ** 2)
    return np.mean(t, axis=1) ** 2


def r_griewank_rosenbrock(z, fac=10.0):
    a, b = z[:, :-1], z[:, 1:]
    s = 100.0 * (a * a - b) ** 2 + (a - 1.0) ** 2
    return fac * np.mean(s / 4000.0 - np.cos(s), axis=1) + fac


def r_schwefel(z):
    D = z.shape[1]
    p = np.sum(np.maximum(np.abs(z) - 500.0, 0.0) ** 2, axis=1)
    s = np.sum(z * np.sin(np.sqrt(np.abs(z))), axis=1)
    return 0.01 * (p + 418.9828872724339 - s / D)


def r_katsuura(z):
    D = z.shape[1]
    j = 2.0 ** np.arange(1, 33)
    w = z[:, :, None] * j
    t = np.sum(np.abs(w - rnd(w)) / j, axis=2)
    prod = np.prod((1.0 + np.arange(1, D + 1) * t) ** (10.0 / D ** 1.2), axis=1)
    return 10.0 / D / D * (prod - 1.0)


class Ref:
    """f(X) without noise; fopt included."""

    def __init__(self, D, raw, xopt, fopt):
        self.D, self.raw, self.xopt, self.fopt = D, raw, xopt, fopt

    def __call__(self, X):
        with np.errstate(all="ignore"):
            return self.raw(np.asarray(X, float)) + self.fopt


def build(kind, D, seed, boxed=False, cond=1e6, penalty=None, fac=10.0, peaks=101):
    """Returns (raw(X), xopt) of base function `kind` (1..24) without the value offset."""
    half = 5.0 if boxed else 4.0
    xo = xopt_uniform(D, seed, half)
    R = (lambda: rotation(D, seed + 1000000))
    Q = (lambda: rotation(D, seed))
    if kind == 1:
        return (lambda X: r_sphere(X - xo)), xo
    if kind == 2:
        return (lambda X: r_ellipsoid(t_osz(X - xo), 1e6)), xo
    if kind == 3:
        return (lambda X: r_rastrigin(lam(D, 10) * t_asy(t_osz(X - xo), 0.2))), xo
    if kind == 4:
        xo = xo.copy()
        xo[::2] = np.abs(xo[::2])

        def f4(X):
            z = t_osz(X - xo)
            s = np.broadcast_to(lam(D, 10), z.shape).copy()
            odd = np.zeros(D, bool)
            odd[::2] = True
            s[(z > 0) & odd] *= 10.0
            return r_rastrigin(s * z) + 100.0 * pen(X)
        return f4, xo
    if kind == 5:
        xb = np.where(xo < 0, -5.0, 5.0)

        def f5(X):
            s = np.sign(xb) * 10.0 ** expo(D)
            z = np.where(X * xb < 25.0, X, xb)
            return np.sum(5.0 * np.abs(s) - s * z, axis=1)
        return f5, xb
    if kind == 6:
        A = R() @ (lam(D, 10)[:, None] * Q())

        def f6(X):
            z = (X - xo) @ A.T
            s = np.where(z * xo > 0, 100.0, 1.0)
            return t_osz(np.sum((s * z) ** 2, axis=1)) ** 0.9
        return f6, xo
    if kind == 7:
        pf = 1.0 if penalty is None else penalty

        def f7(X):
            zh = ((X - xo) @ Q().T) * lam(D, 10)
            zt = np.where(np.abs(zh) > 0.5, rnd(zh), rnd(10.0 * zh) / 10.0)
            z = zt @ R().T
            return 0.1 * np.maximum(np.abs(zh[:, 0]) / 1e4, r_ellipsoid(z, 100.0)) + pf * pen(X)
        return f7, xo
    if kind == 8:
        xr = 0.75 * xo
        c = max(1.0, math.sqrt(D) / 8.0)
        return (lambda X: r_rosenbrock(c * (X - xr) + 1.0)), xr
    if kind == 9:
        c = max(1.0, math.sqrt(D) / 8.0)
        return (lambda X: r_rosenbrock(c * (X @ Q().T) + 0.5)), (Q().T @ np.ones(D)) / (2.0 * c)
    if kind == 10:
        return (lambda X: r_ellipsoid(t_osz((X - xo) @ R().T), cond)), xo
    if kind == 11:
        def f11(X):
            z = t_osz((X - xo) @ R().T)
            return 1e6 * z[:, 0] ** 2 + np.sum(z[:, 1:] ** 2, axis=1)
        return f11, xo
    if kind == 12:
        xo = xopt_uniform(D, seed + 1000000, half)

        def f12(X):
            z = t_asy((X - xo) @ R().T, 0.5) @ R().T
            return z[:, 0] ** 2 + 1e6 * np.sum(z[:, 1:] ** 2, axis=1)
        return f12, xo
    if kind == 13:
        A = R() @ (lam(D, 10)[:, None] * Q())

        def f13(X):
            z = (X - xo) @ A.T
            return z[:, 0] ** 2 + 100.0 * np.sqrt(np.sum(z[:, 1:] ** 2, axis=1))
        return f13, xo
    if kind == 14:
        return (lambda X: r_different_powers((X - xo) @ R().T)), xo
    if kind == 15:
        A = R() @ (lam(D, 10)[:, None] * Q())
        return (lambda X: r_rastrigin(t_asy(t_osz((X - xo) @ R().T), 0.2) @ A.T)), xo
    if kind == 16:
        A = R() @ (lam(D, 0.01)[:, None] * Q())
        return (lambda X: r_weierstrass(t_osz((X - xo) @ R().T) @ A.T) + 10.0 / D * pen(X)), xo
    if kind in (17, 18):
        al = (10.0 if kind == 17 else 1000.0)
        pf = 10.0 if penalty is None else penalty
        return (lambda X: r_schaffers((t_asy((X - xo) @ R().T, 0.5) @ Q().T) * lam(D, al)) + pf * pen(X)), xo
    if kind == 19:
        c = max(1.0, math.sqrt(D) / 8.0)
        return (lambda X: r_griewank_rosenbrock(c * (X @ Q().T) + 0.5, fac)), (Q().T @ np.ones(D)) / (2.0 * c)
    if kind == 20:
        sg = np.where(unif(D, seed) < 0.5, -1.0, 1.0)
        mu = 4.2096874637
        xb = sg * mu / 2.0

        def f20(X):
            xh = 2.0 * sg * X
            zh = xh.copy()
            zh[:, 1:] = xh[:, 1:] + 0.25 * (xh[:, :-1] - mu)
            z = 100.0 * (lam(D, 10) * (zh - mu) + mu)
            return r_schwefel(z)
        return f20, xb
    if kind in (21, 22):
        if kind == 22:
            peaks = 21
        b, c, a0 = (10.0, 5.0, math.sqrt(1000.0)) if peaks == 101 else (9.8, 4.9, 1000.0)
        rot = Q()
        order = np.argsort(unif(peaks - 1, seed), kind="stable")
        alpha = np.concatenate([[a0], 1000.0 ** (order / (peaks - 2.0))])
        w = np.concatenate([[10.0], 1.1 + 8.0 * np.arange(peaks - 1) / (peaks - 2.0)])
        C = np.empty((peaks, D))
        for i in range(peaks):
            p = np.argsort(unif(D, seed + 1000 * i), kind="stable")
            C[i] = alpha[i] ** (p / (D - 1.0) - 0.5)
        Y = (b * unif(D * peaks, seed) - c).reshape(peaks, D).copy()
        Y[0] *= 1.0 if boxed else 0.8
        L = Y @ rot.T
        pf = 1.0 if penalty is None else penalty

        def f21(X):
            tx = X @ rot.T
            d = tx[:, None, :] - L[None, :, :]
            v = w * np.exp(-0.5 / D * np.sum(C * d * d, axis=2))
            return t_osz(10.0 - np.maximum(np.max(v, axis=1), 0.0)) ** 2 + pf * pen(X)
        return f21, Y[0].copy()
    if kind == 23:
        A = R() @ (lam(D, 100)[:, None] * Q())
        return (lambda X: r_katsuura((X - xo) @ A.T) + pen(X)), xo
    if kind == 24:
        mu0, d = 2.5, 1.0
        s = 1.0 - 0.5 / (math.sqrt(D + 20.0) - 4.1)
        mu1 = -math.sqrt((mu0 * mu0 - d) / s)
        sg = np.where(gauss(D, seed) < 0.0, -1.0, 1.0)
        A = R() @ (lam(D, 100)[:, None] * Q())

        def f24(X):
            xh = 2.0 * sg * X
            z = (xh - mu0) @ A.T
            return (np.minimum(np.sum((xh - mu0) ** 2, axis=1), d * D + s * np.sum((xh - mu1) ** 2, axis=1))
                    + 10.0 * (D - np.sum(np.cos(2 * math.pi * z), axis=1)) + 1e4 * pen(X))
        return f24, sg * mu0 / 2.0
    raise ValueError(kind)


def seed_of(function, instance):
    return FOPT_SEED.get(function, function) + 10000 * instance


@lru_cache(maxsize=256)
def bbob(function, D, instance, boxed=False):
    raw, xo = build(function, D, seed_of(function, instance), boxed=boxed)
    return Ref(D, raw, xo, fopt_value(function, instance))


NOISY_BASE = [(1, {}), (8, {}), (1, {}), (8, {}), (7, dict(penalty=0.0)), (10, dict(cond=1e4)), (14, {}),
              (17, dict(penalty=0.0)), (19, dict(fac=1.0)), (21, dict(penalty=0.0))]
NOISE_KINDS = ["gauss", "uniform", "cauchy"]


def noise_params(function, D):
    k = function - 101
    group, kind = divmod(k, 3)
    small = group < 2
    if kind == 0:
        return "gauss", dict(beta=0.01 if small else 1.0)
    if kind == 1:
        a = 0.49 + 1.0 / D
        return "uniform", dict(alpha=0.01 * a if small else a, beta=0.01 if small else 1.0)
    return "cauchy", dict(alpha=0.01 if small else 1.0, p=0.05 if small else 0.2)


@lru_cache(maxsize=256)
def noisy_base(function, D, instance):
    kind, kw = NOISY_BASE[(function - 101) // 3]
    raw, xo = build(kind, D, seed_of(function, instance), **kw)
    return Ref(D, raw, xo, fopt_value(function, instance))


def tolerance(ref, X, v, rel=2.0 ** -42, amplify=2000.0, n=6):
    """Absolute tolerance from the model's own conditioning: rounding differences in the evaluation act like small
    perturbations of the coordinates, relative to the size of the point (rotations mix the coordinates)."""
    rng = np.random.default_rng(12345)
    with np.errstate(all="ignore"):
        t = 1e-9 * np.abs(v - ref.fopt) + 1e-12 * abs(ref.fopt) + 1e-11
        size = np.maximum(np.max(np.abs(X), axis=1, keepdims=True), 1.0)
        m = np.zeros(len(X))
        for k in range(n):
            e = rel if k % 2 else rel / 16
            dv = np.abs(ref(X + e * size * rng.uniform(-1, 1, X.shape)) - v)
            dv[~np.isfinite(dv)] = np.inf
            m = np.maximum(m, dv)
        return t + amplify * m
