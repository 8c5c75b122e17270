"""C10: counters, best observed value and non-finite inputs, over random histories on several problems at once."""
import os, sys
import numpy as np
import build, coco, probs, pts
from engine import Prop, check

DBL_MAX = sys.float_info.max
HUGE = [["bbob", 6, 2, 1], ["bbob", 19, 2, 1], ["bbob", 23, 5, 1], ["bbob", 1, 3, 2], ["bbob", 8, 5, 3], ["bbob", 15, 3, 3],
        ["bbob-largescale", 19, 20, 1], ["bbob-noisy", 113, 2, 1], ["bbob-mixint", 6, 5, 1], ["bbob-biobj", 3, 2, 1], ["bbob", 20, 3, 5],
        ["bbob-constrained", 2, 2, 1], ["bbob-boxed", 6, 2, 1], ["toy", 2, 2, 1]]


class C10(Prop):
    id = "C10"
    rule = "a case is non-trivial when it has at least 6 counted evaluations and at least one non-finite point or constraint evaluation"
    assumptions = ["magnitudes of finite coordinates stay below 1e60 except in the dedicated overflow cases"]
    quick_cases = 20000
    thorough_cases = 80000
    chunk = 20

    def setup(self, tier):
        self.path = build.shared_lib("plain")

    def gen(self, rng, i, tier):
        if i % 150 == 149:
            return {"huge": HUGE[i // 150 % len(HUGE)], "mag": rng.choice([1e100, 1e155, 1e300]), "seed": rng.randrange(1 << 30)}
        n = rng.choice([1, 1, 2, 3])
        refs = [probs.ref(rng) if rng.random() < 0.7 else probs.ref(rng, ["bbob-constrained", "bbob-constrained-active-only", "bbob"])
                for _ in range(n)]
        kinds = pts.KINDS + ["nan", "inf", "ninf", "naninf", "init", "seg", "seg", "repeat", "opt", "opt"]
        ops = [[rng.choice("fffffffffffcccad"), rng.randrange(n), rng.choice(kinds), rng.randrange(1 << 30)] for _ in range(rng.randint(4, 40))]
        return {"refs": refs, "ops": ops}

    def run_huge(self, case):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                e = os.open("err", os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                os.dup2(e, 2)
                L = coco.Lib(self.path)
                s, p = probs.open_problem(L, case["huge"])
                g = np.random.default_rng(case["seed"])
                n = 0
                for k in range(12):
                    x = g.standard_normal(p.d) * min(case["mag"], 1e307) if k % 3 else np.full(p.d, case["mag"] * (-1) ** k)
                    p.f(x)
                    n += 1
                    if p.evals != n:
                        os.write(2, b"finite point of huge magnitude not counted")
                        os._exit(3)
                os._exit(0)
            finally:
                os._exit(9)
        _, st = os.waitpid(pid, 0)
        check(st == 0, "overflow case %s: finite points of magnitude %g: status %d: %s", case["huge"], case["mag"], st,
              open("err").read()[-600:])
        return dict(nontrivial=True, evals=12, tags=["huge"])

    def run(self, case):
        if "huge" in case:
            return self.run_huge(case)
        L = coco.Lib(self.path)
        open_ = [probs.open_problem(L, r) for r in case["refs"]]
        twin = [probs.open_problem(L, r) for r in case["refs"]]
        P = [p for _, p in open_]
        T = [p for _, p in twin]
        B = [probs.best_point(L, r) for r in case["refs"]]
        W = [probs.Watched(L, p) for p in P]
        M = [dict(n=0, c=0, best=DBL_MAX, last=None) for _ in P]
        nf = nn = 0

        def verify(when):
            for k, (p, m) in enumerate(zip(P, M)):
                r = case["refs"][k]
                check(p.evals == m["n"], "%s, %s: %d evaluations counted, %d made", r, when, p.evals, m["n"])
                check(p.cevals == m["c"], "%s, %s: %d constraint evaluations counted, %d made", r, when, p.cevals, m["c"])
                check(p.best_observed == m["best"], "%s, %s: best observed value is %r, the best (feasible) value returned so far is %r", r,
                      when, p.best_observed, m["best"])
                if p.m == 1:
                    t = p.best_value + 1e-8
                    check(p.hit == int(m["n"] > 0 and m["best"] <= t), "%s, %s: final target hit is %d with best value %r and target %r", r,
                          when, p.hit, m["best"], t)
                else:
                    check(p.hit == 0, "%s, %s: final target hit reported for a multi-objective problem", r, when)
        verify("at the start")
        for q, (op, k, kind, seed) in enumerate(case["ops"]):
            if k >= len(P):
                continue
            p, m = P[k], M[k]
            if op in "ad":      # an observer is added or removed in the middle: the history goes on
                if op == "a":
                    W[k].add(seed)
                else:
                    W[k].remove()
                verify("operation %d (%s)" % (q, "observer added" if op == "a" else "observer removed"))
                continue
            lo, hi = p.lower, p.upper
            if kind == "init":
                x = p.initial()
            elif kind == "repeat" and m["last"] is not None:
                x = m["last"].copy()
            elif kind == "seg":   # between the feasible start and the optimum, shrinking
                g = np.random.default_rng(seed)
                a = B[k] if B[k] is not None else (lo + hi) / 2
                x = a + 10 ** g.uniform(-9, 0) * (p.initial() - a)
            else:
                x = probs.make_point([kind if kind != "repeat" else "box", seed], p.d, lo, hi, B[k])
            when = "operation %d (%s %s)" % (q, op, kind)
            inf, nan = bool(np.any(np.isinf(x))), bool(np.any(np.isnan(x)))
            x0 = x.copy()
            if op == "c" and p.nc == 0:
                op = "f"
            y = p.f(x) if op == "f" else p.c(x)
            check(np.array_equal(x, x0, equal_nan=True), "%s, %s: the caller's point was modified", case["refs"][k], when)
            m["last"] = x0
            if inf:
                check(np.all(y == np.inf), "%s, %s: point with an infinite coordinate yields %s", case["refs"][k], when, y)
                nn += 1
            elif nan:
                check(np.all(np.isnan(y)), "%s, %s: point with a NaN coordinate yields %s", case["refs"][k], when, y)
                nn += 1
            elif op == "c":
                m["c"] += 1
                nn += 1
            else:
                m["n"] += 1
                nf += 1
                if y[0] < m["best"] and (p.nc == 0 or np.all(T[k].c(x) <= 0)):
                    m["best"] = float(y[0])
            verify(when)
        for w in W:
            w.close()
        for s, p in open_ + twin:
            p.free()
            s.free()
        return dict(nontrivial=nf >= 6 and nn >= 1, evals=len(case["ops"]), tags=sorted({r[0] for r in case["refs"]}))


PROP = C10()
