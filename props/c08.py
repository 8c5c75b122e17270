"""C08: the advertised optimum is attained, lies in the region of interest, and no admissible point found by search beats it."""
import os, shutil
import numpy as np
import build, coco, probs, pts, suites
from engine import Prop, check

NAMES = [n for n in suites.NAMES if "biobj" not in n and n != "bbob-noisy"]
DIMS = dict(probs.SMALL, **{"bbob-largescale": [20, 40, 80, 160], "bbob-mixint": [5, 10, 20, 40, 80]})


class C08(Prop):
    id = "C08"
    rule = "a case is non-trivial when at least 30 admissible points other than the optimum were evaluated"
    assumptions = ["rounding of values is below 1e-11 relative to max(1, |best value|)"]
    quick_cases = 12000
    thorough_cases = 60000
    chunk = 12

    def setup(self, tier):
        self.path = build.shared_lib("plain")

    def gen(self, rng, i, tier):
        n = NAMES[i % len(NAMES)]
        S = suites.SUITES[n]
        k = i // len(NAMES)
        f = S["functions"][k % len(S["functions"])]
        d = rng.choice(DIMS.get(n, S["dims"]))
        if n == "bbob-largescale" and k % 40 == 0:
            d = rng.choice([320, 640])
        if n == "bbob-mixint" and k % 20 == 0:
            d = 160
        inst = 1 if n == "toy" else rng.choice([rng.randint(1, 15), rng.randint(1, 110), rng.randint(1, 5000)])
        if n != "toy" and rng.random() < 0.1:
            inst = rng.randint(1, 100000)
        return {"ref": [n, f, d, inst], "pts": [[rng.choice(["near", "near", "toward", "toward", "axis", "sparse", "box", "edge", "corner", "wide",
                                                             "grid", "far", "mirror", "signed", "nbr", "beyond"]), rng.randrange(1 << 30)]
                                                for _ in range(60)], "walk": rng.randrange(1 << 30), "obs": rng.choice([-1, -1, rng.randrange(100)]), "taint": rng.choice(["", "", "", "before", "observed", "fresh"])}

    def point(self, spec, p, xo, x0, lo, hi):
        kind, seed = spec
        g = np.random.default_rng(seed)
        if kind == "toward":   # between the optimum and a feasible point, perturbed less than the distance
            t = 10 ** g.uniform(-8, 0)
            e = g.standard_normal(p.d) * (10 ** g.uniform(-4, -0.5) if g.random() < 0.8 else 0)
            return xo + t * ((x0 - xo) + e)
        if kind == "signed":   # equal displacements of the optimum in all or some coordinates
            return xo + 10 ** g.uniform(-8, 0.5) * g.choice([-1, 0, 1], p.d)
        if kind == "nbr":
            x = xo.copy()
            j = g.integers(p.d)
            x[j] += g.choice([-1, 1]) * (1 if j < p.ni else 10 ** g.uniform(-6, 0))
            return x
        return pts.point(spec, p.d, lo, hi, xo)

    def indicator(self, L, ref, case, xo, x0, lo, hi, bv):
        """The final-target indicator follows the best feasible value, point by point."""
        s, p = probs.open_problem(L, ref)
        s2, q = probs.open_problem(L, ref)
        check(p.hit == 0, "%s: final target hit before any evaluation", ref)
        best = np.inf
        t = np.linspace(0, -11, 23)
        e = np.random.default_rng(case["walk"] + 1).standard_normal(p.d) * 0.1
        X = [self.point(sp, p, xo, x0, lo, hi) for sp in case["pts"][:8]] + [xo + 10.0 ** a * ((x0 - xo) + (e if p.nc == 0 else 0)) for a in t]
        X += [xo, x0]
        w = probs.Watched(L, p)
        for k, x in enumerate(X):
            if case.get("obs", -1) >= 0 and (k * 7 + case["obs"]) % 9 == 0:
                w.add(case["obs"] + k) if not w.obs or k % 2 else w.remove()
                check(p.hit == int(best <= bv + 1e-8), "%s: final target hit is %d after adding or removing an observer, with best feasible value %r, "
                      "best value %r (+ 1e-8)", ref, p.hit, best, bv)
            y = p.f(x)[0]
            if y < best and (p.nc == 0 or np.all(q.c(x) <= 0)):
                best = y
            check(p.hit == int(best <= bv + 1e-8), "%s: final target hit is %d with best feasible value %r, best value %r (+ 1e-8)", ref, p.hit, best, bv)
        w.close()
        for z in (p, q, s, s2):
            z.free()

    def tainting(self, L, ref, how, xo):
        """Who has retrieved the optimum is marked, and cannot produce benchmark data under a bbob observer any more."""
        s, p = probs.open_problem(L, ref)
        check(L.coco_problem_is_tainted(p.p) == 0, "%s: marked as tainted from the start", ref)
        o = L.observer("bbob", "outer_folder: . result_folder: taint")
        folder = o.folder
        if how != "before":
            p.observe(o)
            check(L.coco_problem_is_tainted(p.p) == 0, "%s: marked as tainted by observing it", ref)
        if how != "fresh":
            p.best_parameter()
            check(L.coco_problem_is_tainted(p.p) != 0, "%s: not tainted after its best parameters were retrieved", ref)
        if how == "before":
            p.observe(o)
            check(L.coco_problem_is_tainted(p.p) != 0, "%s: no longer tainted after an observer was added", ref)
        pid = os.fork()
        if pid == 0:
            p.f(xo)
            os._exit(77)
        st = os.waitpid(pid, 0)[1]
        if how == "fresh":
            check(os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77, "%s: evaluating the observed problem ends the process (status %d)", ref, st)
        else:
            check(os.WIFEXITED(st) and os.WEXITSTATUS(st) not in (0, 77), "%s: evaluating the tainted observed problem is not refused (status %d)", ref, st)
        p.free()
        o.free()
        s.free()
        shutil.rmtree(folder, ignore_errors=True)

    def run(self, case):
        L = coco.Lib(self.path)
        ref = case["ref"]
        s, p = probs.open_problem(L, ref)
        bv = p.best_value
        xo = p.best_parameter()
        lo, hi = p.lower, p.upper
        check(np.all(np.isfinite(xo)) and np.all(xo >= lo) and np.all(xo <= hi), "%s: best parameter %s outside the region of interest", ref, xo)
        check(np.array_equal(xo[:p.ni], np.round(xo[:p.ni])), "%s: best parameter %s is not integer in the integer variables", ref, xo)
        tol = 1e-11 * max(1.0, abs(bv))
        ft = L.coco_problem_get_final_target_fvalue1(p.p)
        check(abs(ft - (bv + 1e-8)) <= 1e-15 * max(1.0, abs(bv)), "%s: the final target is %r with best value %r", ref, ft, bv)
        if case["walk"] % 4 == 0:
            L.bbob_problem_best_parameter_print(p.p)
            w = np.array(open("._bbob_problem_best_parameter.txt").read().split(), float)
            os.remove("._bbob_problem_best_parameter.txt")
            check(w.shape == xo.shape and np.all(np.abs(w - xo) <= 1e-15 * np.maximum(1, np.abs(xo))), "%s: the best parameters written to file are %s, "
                  "those retrieved %s", ref, w, xo)
        y = p.f(xo)[0]
        check(abs(y - bv) <= tol, "%s: value at the best parameter is %r, the best value is %r", ref, y, bv)
        check(p.hit == 1, "%s: final target not hit at the optimum", ref)
        if p.nc:
            c = p.c(xo)
            check(np.all(c <= 1e-9), "%s: the best parameter violates a constraint by %g", ref, c.max())
        x0 = p.initial()
        n = 0

        def admissible(x):
            return p.nc == 0 or np.all(p.c(x) <= 0)
        for sp in case["pts"]:
            x = self.point(sp, p, xo, x0, lo, hi)
            y = p.f(x)[0]
            if y < bv - tol:
                check(not admissible(x), "%s: the admissible point %s (%s) has value %r, below the best value %r", ref, x, sp, y, bv)
            if p.nc == 0 or admissible(x):
                n += int(not np.array_equal(x, xo))
        # evolution-strategy walk from a random start with step-size adaptation: local search for anything better
        g = np.random.default_rng(case["walk"])
        x = xo + 10 ** g.uniform(-6, 0) * g.standard_normal(p.d) if p.nc == 0 else x0.copy()
        fx, sig = p.f(x)[0], 10 ** g.uniform(-4, 0)
        for _ in range(60):
            z = x + sig * g.standard_normal(p.d)
            if g.random() < 0.3:
                z = xo + (z - xo) * 0.5
            fz = p.f(z)[0]
            if fz <= fx and admissible(z):
                x, fx, sig = z, fz, sig * 1.5
                check(fz >= bv - tol, "%s: search reached the admissible point %s with value %r, below the best value %r", ref, z, fz, bv)
                n += 1
            else:
                sig *= 0.8
        p.free()
        s.free()
        self.indicator(L, ref, case, xo, x0, lo, hi, bv)
        if case.get("taint"):
            self.tainting(L, ref, case["taint"], xo)
        return dict(nontrivial=n >= 30, evals=len(case["pts"]) + 61, tags=[ref[0], "f%02d" % ref[1]])


PROP = C08()
