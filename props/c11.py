"""C11: suite enumeration, filtering and index arithmetic against a reference model of the selection language."""
import ctypes as C
import build, coco, suites
from engine import Prop, check

COST = {"bbob": 0.6, "bbob-boxed": 0.6, "bbob-largescale": 8, "bbob-noisy": 0.6, "bbob-biobj": 1.3, "bbob-biobj-ext": 1.3,
        "bbob-mixint": 2, "bbob-biobj-mixint": 5, "toy": 0.02}


def ranges(rng, lo, hi, n=None):
    """A well-formed range list over [lo, hi], with redundant, open and out-of-range items."""
    def item():
        r = rng.random()
        a, b = sorted((rng.randint(lo, hi), rng.randint(lo, hi)))
        if r < 0.45:
            return str(a)
        if r < 0.8:
            return "%d-%d" % (a, b)
        if r < 0.86:
            return "-%d" % a
        if r < 0.92:
            return "%d-" % b
        if r < 0.95:
            return "-"
        if r < 0.98:
            return "%d-%d" % (b, hi + rng.randint(1, 50))
        return "%d" % (hi + rng.randint(1, 9))
    out = ",".join(item() for _ in range(n or rng.choice([1, 1, 1, 2, 2, 3, 5, 1, 2, 3, 8 if hi > 20 else 30])))
    if len(suites.parse_ranges(out, lo, hi) or []) > 999:       # more numbers in total than a list may have
        return out.split(",")[0]
    return out


class C11(Prop):
    id = "C11"
    rule = "a case is non-trivial when the selection is a proper non-empty subset with at least two problems, or a whole suite"
    assumptions = ["the number and order of the functions, dimensions and instances of each suite are those in lib/suites.py, taken from "
                   "the documentation of the suites"]
    quick_cases = 3200
    thorough_cases = 16000
    chunk = 8
    case_timeout = 240.0

    def setup(self, tier):
        self.path = build.shared_lib("plain")

    def gen(self, rng, i, tier):
        suite = suites.NAMES[i % len(suites.NAMES)]
        S = suites.SUITES[suite]
        biobj = "biobj" in suite
        r = rng.random()
        instance = []
        ys = [y for y in [0] + list(range(2009, 2027)) if S["year"](y)]
        if r < 0.25:
            pass
        elif r < 0.5:
            if ys:
                instance = [["year", str(rng.choice(ys))]]
        else:
            top = 15 if biobj else rng.choice([15, 30, 120, 2000])
            k = rng.choice([1, 1, 2, 2, 3, 5])
            its = []
            for _ in range(k):
                a = rng.randint(1, top)
                q = rng.random()
                its.append(str(a) if q < 0.55 else "%d-%d" % (a, min(top, a + rng.randint(0, 6))) if q < 0.9 else "-%d" % min(a, 12))
            if rng.random() < 0.04:
                its[rng.randrange(k)] = rng.choice(["9-3", "0", "4--6", "7-"])
            if rng.random() < 0.08:      # long lists, up to the largest number of instances
                left, its = rng.choice([40, 200, 999, 999]), []
                while left > 0 and len(its) < 300:
                    a = rng.randint(1, 15 if biobj else 3000)
                    b = a + rng.choice([0, 0, 3, 20, 400, 998]) if not biobj else rng.randint(a, 15)
                    b = min(b, a + left - 1)
                    its.append("%d-%d" % (a, b) if b > a or rng.random() < 0.1 else str(a))
                    left -= b - a + 1
            instance = [["instances", ",".join(its)]]
            if rng.random() < 0.12 and ys:
                instance.insert(rng.randrange(2), ["year", str(rng.choice(ys))])
        opts = []
        if rng.random() < 0.9:
            r = rng.random()
            if r < 0.35:
                opts.append(["dimension_indices", ranges(rng, 1, len(S["dims"]))])
            elif r < 0.75:
                opts.append(["dimensions", ",".join(str(rng.choice(S["dims"]) if rng.random() < 0.85 else
                                                        rng.randint(S["dims"][0], S["dims"][-1])) for _ in range(rng.choice([1, 1, 2, 3, 5, 1, 2, 3, 40])))])
            if r < 0.05:
                opts.append(["dimensions", str(rng.choice(S["dims"]))])
            if 0.35 < r < 0.4:
                opts.append(["dimension_indices", ranges(rng, 1, len(S["dims"]))])
            if rng.random() < 0.75:
                opts.append(["function_indices", ranges(rng, 1, len(S["functions"]))])
            if rng.random() < 0.5:
                n = len((suites.model_selection(suite, instance, []) or (0, 0, [1]))[2])
                opts.append(["instance_indices", ranges(rng, 1, n)])
            rng.shuffle(opts)
        return {"suite": suite, "instance": instance, "options": opts, "style": rng.randrange(5), "probe": rng.randrange(1 << 30),
                "limit": 40 if tier == "quick" else 200}

    @staticmethod
    def text(items, style):
        sep = [": ", ":", " : ", ":  ", ": "][style]
        return (" " if style < 4 else "\t").join(k + sep + v for k, v in items)

    def run(self, case):
        import random
        rng = random.Random(case["probe"])
        L = coco.Lib(self.path)
        name = case["suite"]
        inst_text, opt_text = self.text(case["instance"], case["style"]), self.text(case["options"], case["style"])
        model = suites.model_selection(name, case["instance"], case["options"])
        s = L.suite(name, inst_text, opt_text)
        what = "%s | %s | %s" % (name, inst_text, opt_text)
        if model is None:
            check(s.p is None, "%s: a suite although no dimension is selected", what)
            return dict(nontrivial=False, evals=1, tags=["none"])
        check(s.p is not None, "%s: no suite delivered", what)
        F, D, I = model
        nf, nd, ni = len(F), len(D), len(I)
        check(len(s) == nf * nd * ni, "%s: %d problems reported, expected %d", what, len(s), nf * nd * ni)
        for k in range(nf):
            v = L.coco_suite_get_function_from_function_index(s.p, k)
            check(v == F[k], "%s: function at index %d is %d, expected %d", what, k, v, F[k])
        for k in range(nd):
            v = L.coco_suite_get_dimension_from_dimension_index(s.p, k)
            check(v == D[k], "%s: dimension at index %d is %d, expected %d", what, k, v, D[k])
        for k in range(ni):
            v = L.coco_suite_get_instance_from_instance_index(s.p, k)
            check(v == I[k], "%s: instance at index %d is %d, expected %d", what, k, v, I[k])
        sel = [(a, b, c) for b in range(nd) if D[b] for a in range(nf) if F[a] for c in range(ni) if I[c]]
        index = lambda t: t[2] + t[0] * ni + t[1] * ni * nf
        # iterate: everything when cheap enough, otherwise the leading part
        cost = COST.get(name, 8)
        limit = len(sel) if len(sel) * cost < (600 if name != "bbob-largescale" else 2000) or case["limit"] > 100 and \
            len(sel) * cost < 6000 else case["limit"]
        seen = {}
        n = 0
        for t in sel[:limit]:
            p = s.next()
            exp = suites.problem_id(name, F[t[0]], D[t[1]], I[t[2]])
            check(p is not None, "%s: iteration ends after %d problems, expected %s next", what, n, exp)
            check(p.id == exp, "%s: problem number %d of the iteration is %s, expected %s", what, n, p.id, exp)
            check(p.index == index(t), "%s: %s has index %d, expected %d", what, p.id, p.index, index(t))
            check(p.d == D[t[1]], "%s: %s has dimension %d", what, p.id, p.d)
            if name != "toy" and len(set(I)) == len(I):
                check(p.id not in seen, "%s: identifier %s delivered twice", what, p.id)
            seen[p.id] = 1
            n += 1
        if limit >= len(sel):
            p = s.next()
            check(p is None, "%s: iteration goes on after all %d problems with %s", what, n, p and p.id)
        a, b, c = C.c_size_t(), C.c_size_t(), C.c_size_t()
        probes = [0, len(s) - 1] + [rng.randrange(len(s)) for _ in range(12)] + [index(rng.choice(sel)) for _ in range(6) if sel]
        for q in probes:
            L.coco_suite_decode_problem_index(s.p, q, C.byref(a), C.byref(b), C.byref(c))
            t = (a.value, b.value, c.value)
            e = (q // ni % nf, q // ni // nf, q % ni)
            check(t == e, "%s: index %d decodes to (function, dimension, instance) indices %s, expected %s", what, q, t, e)
            e2 = L.coco_suite_encode_problem_index(s.p, *t)
            check(e2 == q, "%s: index %d decodes to %s, which encodes to %d", what, q, t, e2)
            fdi = F[t[0]], D[t[1]], I[t[2]]
            p = s.get(q)
            if 0 in fdi:
                check(p is None, "%s: index %d is not selected but yields %s", what, q, p and p.id)
                continue
            exp = suites.problem_id(name, *fdi)
            check(p is not None, "%s: index %d yields no problem, expected %s", what, q, exp)
            check(p.id == exp and p.index == q and p.d == fdi[1], "%s: index %d yields %s with index %d and dimension %d, expected %s",
                  what, q, p.id, p.index, p.d, exp)
            g = s.by(*fdi)
            first = index((F.index(fdi[0]), D.index(fdi[1]), I.index(fdi[2])))
            check(g is not None and g.id == exp and g.index == first and g.d == fdi[1], "%s: (function, dimension, instance) %s yields %s, "
                  "expected %s with index %d", what, fdi, g and (g.id, g.index), exp, first)
            p.free(), g.free()
        for fdi in [(max(suites.SUITES[name]["functions"]) + 1, max(D), max(I) or 1), (max(F) or 1, 7, max(I) or 1), (max(F) or 1, max(D), 99999)]:
            p = s.by(*fdi)
            check(p is None, "%s: %s is not in the suite but yields %s", what, fdi, p and p.id)
        for q in (len(s), len(s) + 1, len(s) + rng.randrange(10000)):
            p = s.get(q)
            check(p is None, "%s: index %d is beyond the suite but yields %s", what, q, p and p.id)
        s.free()
        return dict(nontrivial=len(sel) >= 2, evals=n + len(probes), tags=[name, "full" if limit >= len(sel) else "prefix"] +
                    [k for k, _ in case["instance"]] + [k for k, _ in case["options"]])


PROP = C11()
