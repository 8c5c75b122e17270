"""C05: mixed-integer problems: integer grid, clipping, rounding, scaling, optimum on the grid."""
import numpy as np
import build, coco, mixref, pts
from engine import Prop, check
from suites import BIOBJ_INST, PAIRS, levels

DIMS = [5, 10, 20, 40, 80, 160]
IK = ["level", "level", "real", "half", "nearhalf", "out", "wayout", "opt", "optstep", "onestep", "corner"]
CK = ["box", "near", "near", "wide", "opt", "edge", "far", "int"]


def point(spec, D, xopt):
    ik, ck, seed = spec
    g = np.random.default_rng(seed)
    n = np.array(levels(D))
    m = n > 0
    x = pts.point([ck, seed ^ 0x5a5a], D, xopt=np.where(m, 0.0, xopt))
    k = int(m.sum())
    top = n[m] - 1.0
    lv = np.floor(g.random(k) * (top + 1))
    if ik == "level":
        v = lv
    elif ik == "real":
        v = g.random(k) * (top + 1) - 0.5
    elif ik == "half":
        v = lv + g.choice([-0.5, 0.5], k)
    elif ik == "nearhalf":
        v = lv + g.choice([-0.5, 0.5], k) + g.choice([-1, 1], k) * 10.0 ** g.uniform(-9, -2, k)
    elif ik == "out":
        v = lv + g.integers(-20, 21, k)
    elif ik == "wayout":
        v = g.standard_normal(k) * 10.0 ** g.uniform(1, 30, k)
    elif ik == "opt":
        v = xopt[m].copy()
    elif ik == "optstep":
        v = xopt[m] + np.where(g.random(k) < 2.0 / k, g.choice([-1, 1], k), 0) + g.uniform(-0.45, 0.45, k)
    elif ik == "onestep":
        v = xopt[m].copy()
        j = g.integers(k)
        v[j] = lv[j]
    else:
        v = np.where(g.random(k) < 0.5, 0, top)
    x[m] = v
    return x


class C05(Prop):
    id = "C05"
    rule = ("a case is non-trivial when at least half of its points give a value differing from the optimal value by more than the "
            "comparison tolerance")
    assumptions = ["the reference models of the continuous functions (lib/bbobref.py, lib/lsref.py)",
                   "halves round up, as documented for coco_double_round"]
    quick_cases = 9000
    thorough_cases = 30000
    chunk = 12

    def setup(self, tier):
        self.path = build.shared_lib("plain")

    def gen(self, rng, i, tier):
        bi = i % 3 == 2
        k = i // 3
        f = (i - k) % 24 + 1 if not bi else k % 92 + 1
        d = rng.choice([5, 5, 10, 10, 20, 20, 40, 80] + ([160] if rng.random() < 0.3 else []))
        inst = rng.randint(1, 15) if bi or rng.random() < 0.7 else rng.randint(16, 2000)
        n = 20 if d <= 20 else 12 if d <= 40 else 8
        return {"f": f, "d": d, "i": inst, "bi": bi,
                "pts": [[rng.choice(IK), rng.choice(CK), rng.randrange(1 << 30)] for _ in range(n)]}

    def simplify(self, case):
        for i in (1, 2):
            if i < case["i"]:
                yield dict(case, i=i)
        for d in DIMS:
            if d < case["d"]:
                yield dict(case, d=d)

    def run(self, case):
        f, d, i = case["f"], case["d"], case["i"]
        L = coco.Lib(self.path)
        s = L.suite("bbob-biobj-mixint" if case["bi"] else "bbob-mixint", "instances: %d" % i,
                    "dimensions: %d function_indices: %d" % (d, f))
        p = s.next()
        check(p is not None and p.d == d, "no problem delivered for f%d d%d i%d", f, d, i)
        who = "%s f%d d=%d instance=%d" % ("bbob-biobj-mixint" if case["bi"] else "bbob-mixint", f, d, i)
        if case["bi"]:
            refs = [mixref.mix(PAIRS[f - 1][k], d, BIOBJ_INST[i][k]) for k in (0, 1)]
        else:
            refs = [mixref.mix(f, d, i)]
        n = np.array(levels(d))
        m = n > 0
        check(p.ni == int(m.sum()), "%s: %d integer variables declared, %d expected", who, p.ni, int(m.sum()))
        check((p.lower[m] == 0).all() and (p.upper[m] == n[m] - 1).all(), "%s: bounds of the integer variables %s %s", who,
              p.lower[m], p.upper[m])
        X = np.array([point(q, d, refs[q[2] % len(refs)].xopt) for q in case["pts"]])
        Y = p.F(X)
        Z = p.F(refs[0].snap(X))
        check(Y.tobytes() == Z.tobytes(), "%s: value changes when the integer variables are rounded and clipped: %s", who,
              [case["pts"][k] for k in range(len(X)) if Y[k].tobytes() != Z[k].tobytes()][:1])
        nt = 0
        for o, r in enumerate(refs):
            V, T = r.values(X)
            for k in range(len(X)):
                if not np.isfinite(V[k]) or abs(V[k]) > 1e200:
                    continue
                check(np.isfinite(Y[k, o]) and abs(Y[k, o] - V[k]) <= T[k],
                      "%s objective %d point %s: value %r, definition gives %r (tolerance %.2g)", who, o, case["pts"][k], Y[k, o],
                      V[k], T[k])
            nt += int(np.sum(np.abs(V - r.scale * r.ref.fopt) > T))
            y = p.F(r.xopt[None, :])[0, o]
            v, t = r.values(r.xopt[None, :])
            check(abs(y - r.scale * r.ref.fopt) <= 1e-8 + t[0], "%s: value %r at the optimum of objective %d, expected %r", who, y, o,
                  r.scale * r.ref.fopt)
        if not case["bi"]:
            b = p.best_parameter()
            check((b[m] == refs[0].xopt[m]).all(), "%s: declared optimum %s is not the grid point %s", who, b[m], refs[0].xopt[m])
            check(abs(p.best_value - refs[0].scale * refs[0].ref.fopt) <= 1e-9, "%s: optimal value %r, expected %r", who,
                  p.best_value, refs[0].scale * refs[0].ref.fopt)
        s.free()
        return dict(nontrivial=2 * nt >= len(X) * len(refs), evals=len(X), tags=["d%03d" % d, "bi" if case["bi"] else "f%02d" % f])


PROP = C05()
