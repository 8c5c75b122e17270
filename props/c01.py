"""C01: bbob values equal the published definition (differential against an independent numpy model)."""
import numpy as np
import bbobref, build, coco, pts
from engine import Prop, check

DIMS = [2, 3, 5, 10, 20, 40]


class C01(Prop):
    id = "C01"
    rule = ("a case (function, dimension, instance, list of points) is non-trivial when at least half of its points give a value "
            "differing from the optimal value by more than the comparison tolerance")
    assumptions = ["the reference model in lib/bbobref.py is a faithful transcription of RR-6829 with the legacy random generator",
                   "rounding differences are bounded by the model's own sensitivity to perturbations of a few hundred ulps"]
    quick_cases = 7200
    thorough_cases = 24000
    chunk = 12

    def setup(self, tier):
        self.path = build.shared_lib("plain")

    def gen(self, rng, i, tier):
        f = i % 24 + 1
        k = i // 24
        via = "suite" if k % 3 != 2 else "bare"
        d = DIMS[k % 6] if via == "suite" else rng.choice([rng.randint(2, 40), rng.randint(2, 12)])
        r = rng.random()
        inst = rng.randint(1, 15) if r < 0.4 else rng.randint(1, 110) if r < 0.8 else rng.randint(111, 1000) if r < 0.95 \
            else rng.randint(1001, 99999)
        if via == "suite" and rng.random() < 0.3:
            inst = rng.randint(1, 15)
        n = 24 if d <= 20 else 16
        return {"f": f, "d": d, "i": inst, "via": via, "pts": pts.specs(rng, n)}

    def simplify(self, case):
        for i in (1, 2, 3):
            if i < case["i"]:
                yield dict(case, i=i)
        for d in (2, 3, 5, 10, 20):
            if d < case["d"]:
                yield dict(case, d=d)

    def get(self, L, case):
        if case["via"] == "bare":
            return None, L.bare_bbob(case["f"], case["d"], case["i"])
        s = L.suite("bbob", "instances: %d" % case["i"], "dimensions: %d function_indices: %d" % (case["d"], case["f"]))
        return s, s.next()

    def reference(self, case):
        return bbobref.bbob(case["f"], case["d"], case["i"])

    def run(self, case):
        L = coco.Lib(self.path)
        ref = self.reference(case)
        s, p = self.get(L, case)
        check(p is not None and p.d == case["d"], "no problem delivered for f%d d%d i%d", case["f"], case["d"], case["i"])
        X = pts.points(case["pts"], case["d"], xopt=ref.xopt)
        Y = p.F(X)[:, 0]
        V = ref(X)
        T = bbobref.tolerance(ref, X, V)
        for k in range(len(X)):
            if not np.isfinite(V[k]) or abs(V[k]) > 1e200:
                continue  # the definition itself overflows: no value to compare with
            ok = np.isfinite(Y[k]) and abs(Y[k] - V[k]) <= T[k]
            check(ok, "f%d d=%d instance=%d point %s: value %r, definition gives %r (tolerance %.2g)", case["f"], case["d"],
                  case["i"], case["pts"][k], Y[k], V[k], T[k])
        if s is None:
            p.free()
        else:
            s.free()
        n = int(np.sum(np.abs(V - ref.fopt) > T))
        return dict(nontrivial=2 * n >= len(X), evals=len(X), tags=["f%02d" % case["f"], "d%02d" % case["d"], case["via"]])


PROP = C01()
