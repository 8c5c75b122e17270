"""C03: bbob-largescale values equal the published permuted block-diagonal definition."""
import bbobref, lsref, pts
from props.c01 import C01

DIMS = [20, 40, 80, 160, 320, 640]


class C03(C01):
    id = "C03"
    quick_cases = 6000
    thorough_cases = 24000
    chunk = 6
    assumptions = ["the reference model in lib/lsref.py is a faithful transcription of the large-scale definition (PPSN 2018)",
                   "rounding differences are bounded by the model's own sensitivity to perturbations of a few hundred ulps"]

    def gen(self, rng, i, tier):
        f = i % 24 + 1
        w = [20, 40, 80, 80, 80, 160, 160, 80, 320, 640] if tier == "quick" else [20, 40, 80, 80, 160, 160, 320, 320, 640]
        d = w[(i // 24) % len(w)]
        inst = rng.randint(1, 15) if rng.random() < 0.5 else rng.randint(1, 1000)
        if tier == "quick" and d >= 320:
            inst = rng.randint(1, 15)
        n = {20: 20, 40: 16, 80: 12, 160: 8, 320: 6, 640: 5}[d]
        return {"f": f, "d": d, "i": inst, "via": "suite", "pts": pts.specs(rng, n)}

    def simplify(self, case):
        for i in (1, 2):
            if i < case["i"]:
                yield dict(case, i=i)
        for d in DIMS:
            if d < case["d"]:
                yield dict(case, d=d)

    def get(self, L, case):
        s = L.suite("bbob-largescale", "instances: %d" % case["i"], "dimensions: %d function_indices: %d" % (case["d"], case["f"]))
        return s, s.next()

    def reference(self, case):
        return lsref.largescale(case["f"], case["d"], case["i"])


PROP = C03()
