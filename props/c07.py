"""C07: constrained problems: defined constraints and objective, feasible start, known optimum, independent evaluation of the two."""
import numpy as np
import build, coco, probs, pts
from consref import cons
from engine import Prop, check
from suites import cons_counts

SUITES = ["bbob-constrained", "bbob-constrained", "bbob-constrained-active-only", "bbob-constrained-no-disguise"]


class C07(Prop):
    id = "C07"
    rule = "a case is non-trivial when at least 5 of its points differ from the optimum and at least one is feasible and one infeasible"
    assumptions = ["libm's exp, log, sin, pow within 1e-12 relative"]
    quick_cases = 7200
    thorough_cases = 40000
    chunk = 20

    def setup(self, tier):
        self.path = build.shared_lib("plain")

    def gen(self, rng, i, tier):
        s = rng.choice(SUITES)
        big = rng.random() < 0.08
        D = rng.choice([20, 40]) if big else rng.choice([2, 3, 5, 10])
        f = i % 54 + 1
        r = rng.random()
        inst = rng.randint(1, 15) if r < 0.6 else rng.randint(16, 200) if r < 0.85 else rng.randint(201, 20000)
        ops = []
        for _ in range(rng.randint(4, 14)):
            k = rng.choice(["cone", "cone", "edge", "near", "ray", "box", "wide", "init", "opt"])
            ops.append([rng.choice(["f", "c", "fc", "cf"]), k, rng.randrange(1 << 30)])
        return {"suite": s, "f": f, "D": D, "inst": inst, "ops": ops}

    def point(self, m, kind, seed, x0, xo):
        g = np.random.default_rng(seed)
        D = m.D
        if kind == "opt":
            return xo.copy()
        if kind == "init":
            return x0.copy()
        if kind == "box":
            return g.uniform(-5, 5, D)
        if kind == "wide":
            return g.standard_normal(D) * 10 ** g.uniform(-2, 3)
        if kind == "ray":
            return xo + m.Tinv(m.dir * 10 ** g.uniform(-9, 0.5))
        if kind == "near":
            return xo + g.standard_normal(D) * 10 ** g.uniform(-10, 0)
        u = g.standard_normal(D) * 10 ** g.uniform(-5, 0.7)
        # project into the feasible cone (Dykstra-free: repeated reflection), or onto one of its faces
        G, S = m.G, m.S
        n2 = np.sum(G * G, axis=1)
        for _ in range(300):
            v = (G @ u - S) / n2
            j = int(np.argmax(v * np.sqrt(n2)))
            if v[j] <= 0:
                break
            u = u - v[j] * (1 + 0.3 * (kind == "cone")) * G[j]
        if kind == "edge":      # to the boundary of a random active constraint, keeping the others if possible
            j = int(g.integers(len(S)))
            u = u - (G[j] @ u - S[j]) / n2[j] * G[j]
        return xo + m.Tinv(u)

    def run(self, case):
        L = coco.Lib(self.path)
        sn, f, D, inst = case["suite"], case["f"], case["D"], case["inst"]
        m = cons(sn, f, D, inst)
        s = coco.Suite(L, sn, "instances: %d" % inst, "dimensions: %d function_indices: %d" % (D, f))
        p = s.by(f, D, inst)
        check(p is not None, "%s f%d d%d i%d: no problem", sn, f, D, inst)
        who = p.id
        act, total = cons_counts(f, D)
        if sn == "bbob-constrained-active-only":
            total = act
        check(p.nc == total, "%s: %d constraints, defined are %d", who, p.nc, total)
        xo = m.xopt
        bv = p.best_value
        mtol = 1e-10 * max(abs(m.best), 1.0)
        check(abs(bv - m.best) <= mtol, "%s: best value %r, the definition gives %r", who, bv, m.best)
        bp = p.best_parameter()
        check(np.allclose(bp, xo, rtol=1e-12, atol=1e-12), "%s: best parameter %s, defined %s", who, bp, xo)
        x0 = p.initial()
        check(np.all(np.abs(x0) <= 5), "%s: initial solution %s outside the region of interest", who, x0)
        c0 = p.c(x0)
        check(np.all(c0 < 0), "%s: the initial solution violates a constraint: %s", who, c0)
        u0 = m.T((x0 - xo)[None])[0]
        k = float(m.dir @ m.dir) / max(float(m.dir @ u0), 1e-300)
        j = int(round(np.log2(k))) if k > 0 else -1
        check(0 <= j <= 60 and np.allclose(u0 * 2.0 ** j, m.dir, rtol=1e-6, atol=1e-6 * np.abs(m.dir).max()),
              "%s: the initial solution does not lie on the defined feasible direction", who)
        co = p.c(xo)
        C, tol = m.cons(xo[None])
        for a in range(total):
            if m.active[a]:
                check(abs(co[a]) <= tol[0, a], "%s: active constraint %d is %r at the optimum", who, a, co[a])
            else:
                check(co[a] < 0, "%s: inactive constraint %d is %r at the optimum", who, a, co[a])
        yo = p.f(xo)[0]
        check(abs(yo - bv) <= mtol, "%s: value at the optimum %r, best value %r", who, yo, bv)
        nf, nc, nfe, ninf = p.evals, p.cevals, 0, 0
        for op, kind, seed in case["ops"]:
            x = self.point(m, kind, seed, x0, xo)
            X = x[None]
            C, tol = m.cons(X)
            F = m(X)[0]
            V = m.T(X - xo)
            h = 2.0 ** -46 * max(1.0, float(np.abs(x).max()))
            ftol = 1e-9 * (abs(F) + abs(m.best)) + 20 * max(abs(m(X + h)[0] - F), abs(m(X - h)[0] - F))
            # coordinate-wise sensitivity of the objective
            E = np.vstack([X + h * e for e in np.eye(D)] + [X - h * e for e in np.eye(D)])
            ftol += 20 * float(np.sum(np.abs(m(E) - F)))
            y = c = None
            for o in op:
                if o == "f":
                    y = p.f(x)[0]
                    nf += 1
                    check(abs(y - F) <= ftol, "%s at %s (%s): objective %r, the definition gives %r (tolerance %g)", who, list(x), kind,
                          y, F, ftol)
                else:
                    c = p.c(x)
                    nc += 1
                    bad = np.abs(c - C[0]) > tol[0]
                    check(not bad.any(), "%s at %s (%s): constraint %s is %s, the definition gives %s (tolerance %s)", who, list(x), kind,
                          np.nonzero(bad)[0], c[bad], C[0][bad], tol[0][bad])
                check(p.evals == nf and p.cevals == nc, "%s: counters (%d, %d), true numbers (%d, %d)", who, p.evals, p.cevals, nf, nc)
            if c is None:
                c = p.c(x)
                nc += 1
            if y is None:
                y = p.f(x)[0]
                nf += 1
            if np.all(c <= 0):
                nfe += 1
                check(y >= bv - mtol, "%s: the feasible point %s has value %r below the best value %r", who, list(x), y, bv)
            else:
                ninf += 1
        p.free()
        s.free()
        return dict(nontrivial=nfe > 0 and ninf > 0 and len(case["ops"]) >= 5, evals=nf + nc, tags=[sn, "obj%d" % ((f - 1) // 6), "D%d" % D])

    def simplify(self, case):
        for D in (2, 3, 5):
            if D < case["D"]:
                yield dict(case, D=D)
        for i in (1, 2):
            if i < case["inst"]:
                yield dict(case, inst=i)


PROP = C07()
