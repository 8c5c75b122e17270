"""Random references to problems of all suites, and histories over several of them."""
import os, shutil
import numpy as np
import pts, suites

SMALL = {"bbob-largescale": [20, 40, 80], "bbob-mixint": [5, 10, 20], "bbob-biobj-mixint": [5, 10, 20]}


def ref(rng, names=None, maxdim=40, maxinst=60):
    """[suite, function, dimension, instance]"""
    n = rng.choice(names or suites.NAMES)
    S = suites.SUITES[n]
    dims = [d for d in SMALL.get(n, S["dims"]) if d <= maxdim] or S["dims"][:1]
    if rng.random() < 0.6:
        dims = dims[:3]
    top = 1 if n == "toy" else 15 if "biobj" in n else maxinst if rng.random() < 0.6 else 15
    return [n, rng.choice(S["functions"]), rng.choice(dims), rng.randint(1, top)]


def open_suite(L, r):
    return L.suite(r[0], "instances: %d" % r[3], "dimensions: %d" % r[2])


def open_problem(L, r):
    """The suite and the problem (the caller frees both)."""
    s = open_suite(L, r)
    return s, s.by(r[1], r[2], r[3])


def best_point(L, r):
    """Advertised optimum, from a throw-away copy (None where there is none)."""
    s, p = open_problem(L, r)
    try:
        if p.m != 1:
            return None
        return p.best_parameter()
    finally:
        p.free()
        s.free()


def nonfinite(kind, seed, D, lo, hi):
    g = np.random.default_rng(seed)
    x = lo + (hi - lo) * g.random(D)
    k = g.integers(1, D + 1) if g.random() < 0.3 else 1
    j = g.choice(D, k, replace=False)
    if kind == "nan":
        x[j] = np.nan
    elif kind == "inf":
        x[j] = np.inf
    elif kind == "ninf":
        x[j] = -np.inf
    else:
        x[j] = np.nan
        x[g.integers(D)] = g.choice([np.inf, -np.inf])
    return x


def make_point(spec, D, lo, hi, xopt=None):
    if spec[0] in ("nan", "inf", "ninf", "naninf"):
        return nonfinite(spec[0], spec[1], D, lo, hi)
    return pts.point(spec, D, lo, hi, xopt)


ONE = ["bbob", "rw", "toy", "bbob-noisy", "bbob-constrained", "bbob-mixint"]
TWO = ["bbob-biobj", "rw"]


class Watched:
    """A stack of observers on one problem, added and removed in the middle of a history."""

    def __init__(self, L, p, tag="watch"):
        self.L, self.p, self.tag, self.obs = L, p, tag, []

    def add(self, k):
        if len(self.obs) < 2:
            names = ONE if self.p.m == 1 else TWO
            o = self.L.observer(names[k % len(names)], "outer_folder: . result_folder: " + self.tag)
            self.p.observe(o)
            self.p.refresh()
            self.obs.append(o)

    def remove(self):
        if self.obs:
            o = self.obs.pop()
            self.p.unobserve(o)
            self.p.refresh()
            o.free()

    def close(self):
        while self.obs:
            self.remove()
        for d in os.listdir("."):
            if d.startswith(self.tag):
                shutil.rmtree(d, ignore_errors=True)
