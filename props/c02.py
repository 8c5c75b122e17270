"""C02: bbob-boxed values inside the box, infinity outside."""
import numpy as np
import bbobref, build, coco, pts
from engine import Prop, check

DIMS = [2, 3, 5, 10, 20, 40]
KINDS = ["box", "box", "near", "near", "sparse", "axis", "corner", "edge", "edge", "grid", "opt", "int", "zero", "beyond", "beyond",
         "wide", "tick", "tick", "out1", "ulp", "optedge"]


def point(spec, D, xopt):
    kind, seed = spec
    g = np.random.default_rng(seed)
    if kind == "tick":      # exactly one coordinate one ulp beyond the box, the others inside
        x = g.uniform(-5, 5, D)
        s = g.choice([-1.0, 1.0])
        x[g.integers(D)] = s * np.nextafter(5.0, 6.0)
        return x
    if kind == "ulp":       # one ulp inside the box
        x = g.uniform(-5, 5, D)
        x[g.integers(D)] = g.choice([-1.0, 1.0]) * np.nextafter(5.0, 0.0)
        return x
    if kind == "out1":      # the optimum with one coordinate far outside
        x = xopt.copy()
        x[g.integers(D)] = g.choice([-1.0, 1.0]) * 10.0 ** g.uniform(0.7, 300)
        return x
    if kind == "optedge":
        x = xopt.copy()
        x[g.integers(D)] = g.choice([-5.0, 5.0])
        return x
    return pts.point(spec, D, xopt=xopt)


class C02(Prop):
    id = "C02"
    rule = ("a case is non-trivial when it has at least one point outside the box (where the value must be infinite) and at least "
            "one point inside it whose value differs from the optimal value by more than the tolerance")
    assumptions = ["the reference model of lib/bbobref.py is a faithful transcription of the definition"]
    quick_cases = 24000
    thorough_cases = 150000
    chunk = 24

    def setup(self, tier):
        self.path = build.shared_lib("plain")

    def gen(self, rng, i, tier):
        r = rng.random()
        inst = rng.randint(1, 15) if r < 0.4 else rng.randint(1, 110) if r < 0.8 else rng.randint(111, 3000)
        return {"f": i % 24 + 1, "d": DIMS[(i // 24) % 6], "i": inst, "pts": pts.specs(rng, 20, KINDS)}

    def simplify(self, case):
        for i in (1, 2, 3):
            if i < case["i"]:
                yield dict(case, i=i)
        for d in DIMS:
            if d < case["d"]:
                yield dict(case, d=d)

    def run(self, case):
        L = coco.Lib(self.path)
        D = case["d"]
        ref = bbobref.bbob(case["f"], D, case["i"], boxed=True)
        s = L.suite("bbob-boxed", "instances: %d" % case["i"], "dimensions: %d function_indices: %d" % (D, case["f"]))
        p = s.next()
        check(p is not None and p.d == D, "no problem delivered")
        lo, hi = p.lower, p.upper
        check(np.all(lo == -5) and np.all(hi == 5), "bounds are not [-5, 5]: %s %s", lo, hi)
        X = np.array([point(q, D, ref.xopt) for q in case["pts"]])
        Y = p.F(X)[:, 0]
        V = ref(X)
        T = bbobref.tolerance(ref, np.clip(X, -5, 5), ref(np.clip(X, -5, 5)))
        nout = nin = 0
        for k in range(len(X)):
            if np.any(X[k] < -5) or np.any(X[k] > 5):
                nout += 1
                check(Y[k] == np.inf, "f%d d=%d i=%d: point %s outside the box has value %r instead of infinity", case["f"], D,
                      case["i"], case["pts"][k], Y[k])
                continue
            check(np.isfinite(Y[k]) and abs(Y[k] - V[k]) <= T[k], "f%d d=%d i=%d point %s inside the box: value %r, definition gives %r "
                  "(tolerance %.2g)", case["f"], D, case["i"], case["pts"][k], Y[k], V[k], T[k])
            nin += abs(V[k] - ref.fopt) > T[k]
        s.free()
        return dict(nontrivial=nout > 0 and nin > 0, evals=len(X), tags=["f%02d" % case["f"], "d%02d" % D])


PROP = C02()
