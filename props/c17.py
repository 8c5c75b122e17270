"""C17: archive API against a naive non-dominated-set model with exact cell arithmetic."""
import math
from fractions import Fraction
import build, coco
from engine import Prop, check

CELL = 5e-13        # documented resolution of normalised objective values
UNIT = round(1 / CELL)

SUITES = [("bbob-biobj", 55, [2, 3, 5, 10, 20, 40]), ("bbob-biobj-ext", 92, [2, 3, 5, 10, 20, 40]),
          ("bbob-biobj-mixint", 92, [5, 10, 20])]


class C17(Prop):
    id = "C17"
    rule = ("a history is non-trivial when at least 5 additions are accepted and at least one accepted addition removes a solution or "
            "at least one addition is rejected")
    assumptions = ["normalised objective values are compared at the documented resolution of 5e-13"]
    quick_cases = 6000
    thorough_cases = 60000
    chunk = 20

    def setup(self, tier):
        self.path = build.shared_lib("plain")

    def gen(self, rng, i, tier):
        name, nf, dims = SUITES[i % 3]
        style = rng.choice(["grid", "fine", "front", "random", "coarse", "mix", "mix"])
        n = rng.choice([rng.randint(1, 12), rng.randint(10, 60), rng.randint(10, 60), rng.randint(60, 300)])
        pool = []

        def coord(st):
            if st == "coarse":
                return rng.randint(-1, 8) * (UNIT // 7)
            if st == "grid":
                return rng.randint(-2, 55) * (UNIT // 50)
            if st == "fine":
                return rng.choice([UNIT // 4, UNIT // 3, 0, UNIT, UNIT // 2]) + rng.randint(-4, 4)
            return int(rng.random() ** 2 * 1.2 * UNIT)

        def pt():
            st = style if style != "mix" else rng.choice(["grid", "fine", "front", "random", "coarse"])
            if st == "front":
                a = rng.random()
                s = rng.choice([1.0, 1.0, 0.9, 1.1])
                return [int(a * s * UNIT), int((1 - a ** 0.5) ** 2 * s * UNIT)]
            return [coord(st), coord(st)]
        ops = []
        for _ in range(n):
            r = rng.random()
            if r < 0.70 or not pool:
                q = pt()
                pool.append(q)
                ops.append(["add", q[0], q[1], rng.choice([0, 0, 1, 2])])
            elif r < 0.80:
                q = rng.choice(pool)
                ops.append(["add", q[0], q[1], rng.choice([0, 1, 2])])
            elif r < 0.86:
                q, w = rng.choice(pool), rng.choice(pool)
                ops.append(["add", q[0], w[1], 0])
            elif r < 0.90:
                ops.append(["hv"])
            elif r < 0.93:
                ops.append(["count"])
            elif r < 0.97:
                ops.append(["next", rng.randint(1, 6)])
            else:
                ops.append(["iter"])
        ops.append(["iter"])
        return {"suite": name, "f": rng.randint(1, nf), "d": rng.choice(dims[:3]) if rng.random() < 0.8 else rng.choice(dims),
                "i": rng.choice([rng.randint(1, 15), rng.randint(1, 60)]), "ops": ops}

    def shrink(self, case):
        ops = case["ops"]
        n, size = len(ops), max(1, len(ops) // 2)
        while size >= 1:
            for s in range(0, n, size):
                yield dict(case, ops=ops[:s] + ops[s + size:])
            size //= 2

    def run(self, case):
        L = coco.Lib(self.path)
        a = L.coco_archive(case["suite"].encode(), case["f"], case["d"], case["i"])
        check(bool(a), "no archive")
        t1 = L.coco_archive_get_next_solution_text(a).decode()
        t2 = L.coco_archive_get_next_solution_text(a).decode()
        e1 = [float(v) for v in t1.split("\t")[1:]]
        e2 = [float(v) for v in t2.split("\t")[1:]]
        nadir, ideal = (e1[0], e2[1]), (e2[0], e1[1])
        check(nadir[0] > ideal[0] and nadir[1] > ideal[1], "the extremes %s and %s do not span a region", e1, e2)
        s = L.suite(case["suite"], "instances: %d" % case["i"], "dimensions: %d function_indices: %d" % (case["d"], case["f"]))
        p = s.next()
        nd = p.nadir
        check(abs(nd[0] - nadir[0]) <= 1e-12 * abs(nd[0]) and abs(nd[1] - nadir[1]) <= 1e-12 * abs(nd[1]),
              "the extremes' nadir %s differs from the problem's %s", nadir, list(nd))
        ext1, ext2 = (UNIT, 0), (0, UNIT)
        model = {ext1: t1, ext2: t2}           # cell -> text
        it, stale = 2, False                    # position of the running iteration
        acc = rej = rem = 0

        def order():
            rest = sorted((q for q in model if q not in (ext1, ext2)), key=lambda q: q[1])
            return [ext1, ext2] + rest

        def nxt():
            nonlocal it, stale
            if stale:
                it, stale = 0, False
            got = L.coco_archive_get_next_solution_text(a).decode()
            o = order()
            want = model[o[it]] if it < len(o) else ""
            if it < len(o):
                it += 1
            check(got == want, "iteration over the archive returned %r instead of %r", got, want)
            return got

        def hv():
            nonlocal stale, it
            if stale:
                it, stale = 0, False
            o = sorted(model, key=lambda q: q[1])
            tot = 0
            for l, r in zip(o, o[1:]):
                tot += (l[0] - r[0]) * (UNIT - r[1])
            want = tot / UNIT / UNIT
            got = L.coco_archive_get_hypervolume(a)
            check(abs(got - want) <= 1e-9 * want + 1e-13, "hypervolume %r, the solutions give %r", got, want)

        for k, op in enumerate(case["ops"]):
            if op[0] == "add":
                c = [op[1], op[2]]
                y, skip = [], False
                for j in (0, 1):
                    off = (0, 0.2, -0.2)[op[3]]
                    y.append(ideal[j] + (c[j] + off) / UNIT * (nadir[j] - ideal[j]))
                    # the cell the point really falls into; skip points too close to a cell border to tell
                    z = (Fraction(y[j]) - Fraction(ideal[j])) / (Fraction(nadir[j]) - Fraction(ideal[j])) * UNIT
                    c[j] = round(z)
                    err = 8 * math.ulp(max(abs(ideal[j]), abs(nadir[j]), abs(y[j]))) / (nadir[j] - ideal[j]) * UNIT
                    skip = skip or abs(z - c[j]) > 0.45 - err
                if skip:
                    continue
                # a point at or below the ideal value in one objective counts as (at best) the extreme solution there
                c = [max(v, 0) for v in c]
                for j in (0, 1):
                    if c[j] == 0 and c[1 - j] < UNIT:
                        c[1 - j] = UNIT
                c = tuple(c)
                text = "%d\t%r\t%r%s\n" % (k, y[0], y[1], "\t%s-%d" * (k % 11 * 40 if k % 5 == 3 else 0))
                want = int(not any(q[0] <= c[0] and q[1] <= c[1] for q in model))
                got = L.coco_archive_add_solution(a, y[0], y[1], text.encode())
                check(got == want, "operation %d: adding %s (cells %s) returned %d, the non-dominated set says %d", k, y, c, got, want)
                if want:
                    acc += 1
                    for q in [q for q in model if c[0] <= q[0] and c[1] <= q[1]]:
                        del model[q]
                        rem += 1
                    model[c] = text
                    stale = True
                else:
                    rej += 1
            elif op[0] == "hv":
                hv()
            elif op[0] == "count":
                n = L.coco_archive_get_number_of_solutions(a)
                if stale:
                    it, stale = 0, False
                check(n == len(model), "the archive reports %d solutions, the non-dominated set has %d", n, len(model))
            elif op[0] == "next":
                for _ in range(op[1]):
                    nxt()
            else:
                n = 0
                while nxt() != "" and n < 10000:
                    n += 1
        n = L.coco_archive_get_number_of_solutions(a)
        check(n == len(model), "the archive reports %d solutions, the non-dominated set has %d", n, len(model))
        hv()
        s.free()
        L.coco_archive_free(a)
        return dict(nontrivial=acc >= 5 and (rem > 0 or rej > 0), evals=len(case["ops"]), tags=[case["suite"]])


PROP = C17()
