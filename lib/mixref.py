"""Reference model of the mixed-integer problems (Tusar, Brockhoff, Hansen, GECCO 2019): 4/5 of the variables take 2, 4, 8, 16
equidistant levels, shifted so that the optimum of the continuous function lies on the grid; the value is scaled."""
from functools import lru_cache
import numpy as np
import bbobref, lsref
from suites import levels

SCALE = [1, 1e-3, 1e-1, 1e-1, 1, 1e-2, 1, 1e-2, 1e-2, 1e-3, 1e-2, 1e-4, 1e-1, 1, 1e-1, 1, 10, 1, 10, 1e-1, 1, 1, 10, 1e-1]


class Mix:
    def __init__(self, function, D, instance):
        self.ref = (bbobref.bbob if D < 50 else lsref.largescale)(function, D, instance)
        self.D, self.scale, self.function = D, SCALE[function - 1], function
        self.n = np.array(levels(D))
        self.int = self.n > 0
        self.xopt = self.ref.xopt.copy()
        n = self.n[self.int].astype(float)
        self.lo_in, self.hi_in = -4 + 8 / (n + 1), 4 - 8 / (n + 1)
        o = (n - 1) * (self.ref.xopt[self.int] - self.lo_in) / (self.hi_in - self.lo_in)
        self.xopt[self.int] = np.clip(np.floor(o + 0.5 + 1e-7), 0, n - 1)
        self.nm1 = n - 1
        self.off = self.lo_in + (self.hi_in - self.lo_in) * self.xopt[self.int] / self.nm1 - self.ref.xopt[self.int]

    def snap(self, X):
        Y = np.array(X, float)
        Y[:, self.int] = np.clip(np.floor(Y[:, self.int] + 0.5), 0, self.nm1) + 0.0
        return Y

    def inner(self, X):
        Y = self.snap(X)
        Y[:, self.int] = self.lo_in + (self.hi_in - self.lo_in) * Y[:, self.int] / self.nm1 - self.off
        return Y

    def values(self, X):
        """(values, tolerances)"""
        Z = self.inner(X)
        v = self.ref(Z)
        t = bbobref.tolerance(self.ref, Z, v)
        if self.function == 20:
            # the optimum of the Schwefel function is known to 10 digits only (4.2096874633 / 2 or 4.2096874637 / 2), and the
            # grid hangs on it
            for e in (-3e-10, 3e-10):
                t = t + np.abs(self.ref(Z + np.where(self.int, e * np.sign(self.ref.xopt), 0.0)) - v)
        return self.scale * v, self.scale * t


@lru_cache(maxsize=32)
def mix(function, D, instance):
    return Mix(function, D, instance)
