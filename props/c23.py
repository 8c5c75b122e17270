"""C23: pseudo-random states follow the documented lagged-Fibonacci generator, in range, independent of each other."""
import math
import build, coco
from engine import Prop, check

from rngmodel import FIRST, INV, LONG, M, Model


# seeds with two state words that sum to one exactly in the first refill (found by search)
SUM_ONE = [1651631, 8460412, 515884017, 1016751451, 2008870968, 2515652448, 3010927991, 3513959189]


def seed_reaching(value, k):
    """The seed whose k-th expanded state word is `value`."""
    s = value
    for i in range(k - 1, -1, -1):
        t = ((s - i - 1) * INV) & M
        s = t ^ (t >> 30)
    return s


class C23(Prop):
    id = "C23"
    rule = "a case is non-trivial when it draws at least 20 numbers and interleaves at least two states or refills a state"
    assumptions = ["IEEE double arithmetic; libm's log, cos and sqrt within 1e-13 relative"]
    quick_cases = 4000
    thorough_cases = 60000
    chunk = 50

    def setup(self, tier):
        self.path = build.shared_lib("plain")

    def gen(self, rng, i, tier):
        def seed():
            r = rng.random()
            if r < 0.1:
                return rng.choice([0, 1, 2, M, M - 1, 1 << 31, (1 << 31) - 1, 1 << 30, (1 << 30) - 1])
            if r < 0.4:   # extreme state words at chosen positions
                return seed_reaching(rng.choice([0, M, M, 0, 1, M - 1, 1 << 30, (1 << 30) - 1]), rng.randrange(LONG))
            if r < 0.6:
                return rng.randrange(100000)
            return rng.randrange(1 << 32)
        if i % 40 == 7:
            return {"seeds": [SUM_ONE[i // 40 % len(SUM_ONE)]], "ops": [[rng.choice("uun"), 0, rng.choice([1, 7, 50])] for _ in range(rng.randint(1, 6))] + [["u", 0, 1300]]}
        n = rng.choice([1, 1, 2, 3])
        seeds = [seed() for _ in range(n)]
        if n > 1 and rng.random() < 0.3:
            seeds[1] = seeds[0]
        ops = []
        for _ in range(rng.randint(5, 25)):
            r = rng.random()
            if r < 0.08:
                ops.append(["new", rng.randrange(n)])
            else:
                ops.append([rng.choice(["u", "u", "n"]), rng.randrange(n), rng.choice([1, 1, 2, 3, 7, 50, 100, 300, 607])])
        return {"seeds": seeds, "ops": ops}

    def run(self, case):
        L = coco.Lib(self.path)
        st = [L.coco_random_new(s) for s in case["seeds"]]
        mo = [Model(s) for s in case["seeds"]]
        nd = 0
        for k, op in enumerate(case["ops"]):
            j = op[1]
            if j >= len(st):
                continue
            if op[0] == "new":
                L.coco_random_free(st[j])
                st[j], mo[j] = L.coco_random_new(case["seeds"][j]), Model(case["seeds"][j])
                continue
            for t in range(op[2]):
                nd += 1
                if op[0] == "u":
                    v, w = L.coco_random_uniform(st[j]), mo[j].uniform()
                    check(0.0 <= v < 1.0, "seed %d: uniform draw %r outside [0, 1)", case["seeds"][j], v)
                    check(v == w, "seed %d, operation %d, draw %d: uniform draw %r, the defined generator gives %r", case["seeds"][j],
                          k, t, v, w)
                else:
                    v, w = L.coco_random_normal(st[j]), mo[j].normal()
                    check(math.isfinite(v), "seed %d, operation %d, draw %d: normal draw is %r", case["seeds"][j], k, t, v)
                    check(abs(v - w) <= 1e-12 * (1 + abs(w)), "seed %d, operation %d, draw %d: normal draw %r, the defined generator gives "
                          "%r", case["seeds"][j], k, t, v, w)
        for s in st:
            L.coco_random_free(s)
        return dict(nontrivial=nd >= 20 and (len(st) > 1 or nd > LONG - FIRST), evals=nd, tags=["states%d" % len(st)])


PROP = C23()
