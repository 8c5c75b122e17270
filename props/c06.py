"""C06: bi-objective problems pair the defined single-objective problems; reference point from the two optima."""
import os, shutil
from functools import lru_cache
import numpy as np
import bbobref, build, coco, lsref, mixref, pts
from engine import Prop, check
from suites import BIOBJ_INST, D6, DM, PAIRS, SEL

NAMES = ["bbob-biobj", "bbob-biobj-ext", "bbob-biobj-mixint"]


class Plain:
    """Same interface as mixref.Mix for a continuous function."""

    def __init__(self, f, D, i):
        self.ref = bbobref.bbob(f, D, i)
        self.xopt, self.scale = self.ref.xopt, 1.0

    def values(self, X):
        v = self.ref(X)
        return v, bbobref.tolerance(self.ref, X, v)


@lru_cache(maxsize=200)
def plain(f, D, i):
    return Plain(f, D, i)


def pair_ok(d, f1, i1, f2, i2):
    """None when too close to a threshold to be decided."""
    get = bbobref.bbob if d < 50 else lsref.largescale
    a, b = get(f1, d, i1), get(f2, d, i2)
    n = np.array([a(b.xopt[None, :])[0] - a.fopt, b(a.xopt[None, :])[0] - b.fopt])
    norm, gap = float(np.linalg.norm(n)), float(np.linalg.norm(a.xopt - b.xopt))
    if abs(norm - 0.1) < 1e-6 or abs(gap - 1e-4) < 1e-9:
        return None
    return norm >= 0.1 and gap >= 1e-4


@lru_cache(maxsize=64)
def instances(i, dims):
    """Instances of the two single-objective problems (documented formula and search)."""
    if i in BIOBJ_INST:
        return BIOBJ_INST[i]
    i1 = 2 * i + 1
    pairs = [(a, b) for a in range(1, 25) for b in range(a + 1, 25)] + [(a, a) for a in SEL]
    for i2 in range(i1 + 1, i1 + 1000):
        good = True
        for d in dims:
            for a, b in pairs:
                r = pair_ok(d, a, i1, b, i2)
                if r is None:
                    return None
                if not r:
                    good = False
                    break
            if not good:
                break
        if good:
            return i1, i2
    return None


class C06(Prop):
    id = "C06"
    rule = ("a case (suite, function, dimension, instance, points) is non-trivial when at least half of its points differ from the "
            "ideal point in both objectives by more than the comparison tolerance")
    assumptions = ["the reference models of the single-objective functions (lib/bbobref.py, lib/lsref.py, lib/mixref.py)",
                   "instances beyond 15 follow the documented search over the dimensions of the suite that are not filtered out"]
    quick_cases = 12000
    thorough_cases = 30000
    chunk = 12

    def setup(self, tier):
        self.path = build.shared_lib("plain")

    def gen(self, rng, i, tier):
        name = NAMES[0] if i % 5 == 0 else NAMES[1] if i % 5 < 4 else NAMES[2]
        f = (i // 5) % 55 + 1 if name == NAMES[0] else rng.randint(1, 92) if rng.random() < 0.6 else rng.randint(56, 92)
        new = i % 25 == 1
        mixed = name == NAMES[2]
        if new:
            dims = rng.choice([[2], [2], [3], [5], [2, 3], [2, 5]])
            d = rng.choice(dims)
            inst = rng.randint(16, 60) if rng.random() < 0.7 else rng.randint(61, 700)
            also = rng.sample(range(1, 60), rng.choice([0, 0, 1, 2, 3]))
            if rng.random() < 0.4:
                also.append(abs(inst + rng.choice([-1, 1]) * rng.choice([8, 10, 16, 32, 50, 64, 100, 128, 256, 512])) + 1)
                also[-1] -= also[-1] > 1
            if i % 250 == 1:
                name, mixed, f = NAMES[2], True, rng.randint(1, 92)
                dims = rng.choice([[80], [5, 80]])
                d = rng.choice(dims)
        else:
            d = rng.choice([5, 5, 10, 20, 40, 80] if mixed else [2, 2, 3, 3, 5, 5, 10, 20, 40])
            dims = [d] if rng.random() < 0.7 else None
            inst = rng.randint(1, 15)
        n = 16 if d <= 20 else 8
        c = {"s": name, "f": f, "d": d, "i": inst, "dims": dims, "pts": pts.specs(rng, n)}
        if new and also and not mixed:
            # other instances of the same suite are asked for before
            c["also"] = [v for v in also if v != inst]
        return c

    def simplify(self, case):
        for i in (1, 2):
            if i < case["i"]:
                yield dict(case, i=i)

    def run(self, case):
        f, d, i = case["f"], case["d"], case["i"]
        L = coco.Lib(self.path)
        mixed = case["s"] == NAMES[2]
        also = case.get("also", [])
        s = L.suite(case["s"], "instances: %s" % ",".join(map(str, also + [i])),
                    "dimensions: %s" % ",".join(map(str, case["dims"])) if case["dims"] else "")
        for k in also:
            s.by(f, d, k).free()
        p = s.by(f, d, i)
        who = "%s f%d d=%d instance=%d" % (case["s"], f, d, i)
        check(p is not None and p.d == d and p.m == 2, "no bi-objective problem delivered for %s", who)
        ii = instances(i, tuple(case["dims"] or (DM if mixed else D6)))
        if ii is None:
            p.free()
            s.free()
            return dict(nontrivial=False, tags=["undecided"])
        refs = [(mixref.mix if mixed else plain)(PAIRS[f - 1][k], d, ii[k]) for k in (0, 1)]
        X = np.array([pts.point(q, d, xopt=refs[q[1] % 2].xopt) for q in case["pts"]])
        if mixed:
            X = refs[0].snap(X)
        Y = p.F(X)
        far = np.ones(len(X), bool)
        nad = p.nadir
        for o, r in enumerate(refs):
            V, T = r.values(X)
            best = r.scale * r.ref.fopt
            for k in range(len(X)):
                if not np.isfinite(V[k]) or abs(V[k]) > 1e200:
                    continue
                check(np.isfinite(Y[k, o]) and abs(Y[k, o] - V[k]) <= T[k],
                      "%s objective %d point %s: value %r, the single-objective problem (f%d, instance %d) gives %r", who, o,
                      case["pts"][k], Y[k, o], PAIRS[f - 1][o], ii[o], V[k])
                check(Y[k, o] >= best - 1e-8, "%s objective %d point %s: value %r below the ideal value %r", who, o, case["pts"][k],
                      Y[k, o], best)
            far &= np.abs(V - best) > T
            v, t = r.values(refs[1 - o].xopt[None, :])
            check(abs(nad[o] - v[0]) <= t[0] + 1e-7 * abs(v[0] - best),
                  "%s: reference point component %d is %r, the value at the other optimum is %r", who, o, nad[o], v[0])
            if not mixed:
                check(nad[o] > best, "%s: reference point component %d is %r, not above the ideal %r", who, o, nad[o], best)
        check(abs(p.best_value - refs[0].scale * refs[0].ref.fopt) <= 1e-9, "%s: ideal value %r", who, p.best_value)
        if not mixed and case["pts"][0][1] % 4 == 0:
            fn = "._bbob_biobj_problem_best_parameter.txt"
            L.bbob_biobj_problem_best_parameter_print(p.p)
            w = [np.array(l.split(), float) for l in open(fn).read().split("\n")]
            check(len(w) == 2 and all(len(a) == d for a in w), "%s: the file of best parameters holds %s values", who, [len(a) for a in w])
            for o, r in enumerate(refs):
                y = p.f(w[o])[o]
                best = r.scale * r.ref.fopt
                check(abs(y - best) <= 1e-7, "%s: objective %d is %r at the best parameters written for it, the ideal value is %r", who, o, y, best)
            o = L.observer("bbob-biobj", "outer_folder: . result_folder: dave")
            folder = o.folder
            p.observe(o)
            L.bbob_biobj_problem_best_parameter_print(p.p)
            check(open(fn).read() == "", "%s: the best parameters of an observed problem are written", who)
            os.remove(fn)
            p.free()
            o.free()
            shutil.rmtree(folder, ignore_errors=True)
            s.free()
            return dict(nontrivial=2 * int(far.sum()) >= len(X), evals=len(X), tags=[case["s"], "d%03d" % d, "written"])
        p.free()
        s.free()
        return dict(nontrivial=2 * int(far.sum()) >= len(X), evals=len(X),
                    tags=[case["s"], "d%03d" % d, "new" if i > 15 else "table", "i1=i2-%d" % (ii[1] - ii[0])])


PROP = C06()
