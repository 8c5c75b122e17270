"""C12: every descriptor of a delivered problem agrees with the suite definition; initial solutions are legal and stable."""
import numpy as np
import build, coco, probs, suites
from engine import Prop, check


class C12(Prop):
    id = "C12"
    rule = "a case is non-trivial when all problems it requests are delivered and it looks at two or more problems"
    assumptions = ["suite definitions transcribed in lib/suites.py"]
    quick_cases = 6000
    thorough_cases = 40000
    chunk = 12

    def setup(self, tier):
        self.path = build.shared_lib("plain")

    def gen(self, rng, i, tier):
        suite = suites.NAMES[i % len(suites.NAMES)]
        S = suites.SUITES[suite]
        top = 15 if "biobj" in suite else 1 if suite == "toy" else rng.choice([15, 120, 3000])
        n = 3 if suite == "bbob-largescale" else 8
        k = i // len(suites.NAMES)
        if suite == "toy":
            n = 20
        pr = []
        for j in range(n):  # systematic over (function, dimension), random instances
            q = k * n + j
            pr.append([S["functions"][q % len(S["functions"])], S["dims"][q // len(S["functions"]) % len(S["dims"])] if rng.random() < 0.5
                       else rng.choice(S["dims"]), rng.randint(1, top)])
        return {"suite": suite, "problems": pr, "order": rng.randrange(5), "seed": rng.randrange(1 << 30)}

    def run(self, case):
        L = coco.Lib(self.path)
        rng = np.random.default_rng(case["seed"])
        name = case["suite"]
        inst = sorted({p[2] for p in case["problems"]})
        s = L.suite(name, "instances: " + ",".join(map(str, inst)), "")
        for f, d, i in case["problems"]:
            p = s.by(f, d, i)
            e = suites.descriptor(name, f, d, i)
            check(p is not None, "%s: no problem for function %d, dimension %d, instance %d", name, f, d, i)
            if case["order"] == 1:   # descriptors must not depend on use
                p.f(e["lo"])
            if case["order"] == 2 and p.nc:
                p.c(e["hi"])
            w = probs.Watched(L, p)
            if case["order"] == 4:
                for k in range(int(rng.integers(1, 3))):
                    w.add(int(rng.integers(100)))
            nm = p.name if not w.obs else e["name"]   # the name may tell that the problem is observed
            got = dict(id=p.id, name=nm, type=p.type, d=p.d, m=p.m, nc=p.nc, ni=p.ni)
            for k, v in got.items():
                if e[k] is not None:
                    check(v == e[k], "%s: %s is %r, expected %r", e["id"], k, v, e[k])
            lo, hi = p.lower, p.upper
            check(lo is not None and np.array_equal(lo, e["lo"]), "%s: lower bounds %s, expected %s", e["id"], lo, e["lo"])
            check(hi is not None and np.array_equal(hi, e["hi"]), "%s: upper bounds %s, expected %s", e["id"], hi, e["hi"])
            x = p.initial()
            check(np.all(x >= lo) and np.all(x <= hi), "%s: initial solution %s outside the bounds", e["id"], x)
            check(np.array_equal(x[:p.ni], np.round(x[:p.ni])), "%s: initial solution %s not integer in the first %d variables", e["id"], x, p.ni)
            if not name.startswith("bbob-constrained"):
                c = (np.array(e["lo"]) + np.array(e["hi"])) / 2
                c[:p.ni] = np.floor(c[:p.ni] + 0.5)
                check(np.array_equal(x, c), "%s: initial solution %s is not the (rounded) centre %s of the region of interest", e["id"], x, c)
            p.f(lo + (hi - lo) * rng.random(d))
            x2 = p.initial()
            check(np.array_equal(x, x2), "%s: initial solution changes from %s to %s", e["id"], x, x2)
            q = s.by(f, d, i)
            check(np.array_equal(x, q.initial()), "%s: another copy of the problem has initial solution %s, not %s", e["id"], q.initial(), x)
            q.free()
            w.close()
            p.refresh()
            if nm is None:
                got["name"] = p.name
            for k, v in dict(id=p.id, name=p.name, type=p.type, d=p.d, m=p.m, nc=p.nc, ni=p.ni).items():
                check(v == got[k], "%s: %s changes from %r to %r after use", e["id"], k, got[k], v)
            check(np.array_equal(p.lower, lo) and np.array_equal(p.upper, hi), "%s: bounds change after use", e["id"])
            p.free()
        s.free()
        return dict(nontrivial=len(case["problems"]) >= 2, evals=len(case["problems"]), tags=[name])


PROP = C12()
