"""C15: .rdat and .mdat record restarts and recommendations; recommendations leave no trace in the problem (model-based)."""
import shutil
import numpy as np
import bboblog, build, coco
from engine import Prop, check


class C15(Prop):
    id = "C15"
    rule = "a case is non-trivial when its files hold at least one .rdat line and at least two .mdat lines"
    assumptions = ["values within a rounding error of a target may be taken to reach it or not"]
    quick_cases = 10000
    thorough_cases = 40000
    chunk = 10

    def setup(self, tier):
        self.path = build.shared_lib("plain")

    def gen(self, rng, i, tier):
        c = bboblog.gen_scenario(rng, rng.choice([1, 1, 2, 3]), nops=(4, 30))
        for r in c["runs"]:
            for k in range(rng.randint(0, 6)):
                at = rng.randint(0, len(r["ops"]))
                r["ops"].insert(at, rng.choice([["r"], ["m", rng.choice(["seg", "near", "repeat", "bestrep"]), rng.randrange(1 << 30)]]))
        return c

    def run(self, case):
        L = coco.Lib(self.path)
        o = bboblog.opts(case["opts"])
        nrec = 0

        class Watch(bboblog.Run):
            def do(self, op):
                if op[0] in "rm":
                    a = (self.p.evals, self.p.cevals, self.p.best_observed, self.p.hit)
                    bboblog.Run.do(self, op)
                    b = (self.p.evals, self.p.cevals, self.p.best_observed, self.p.hit)
                    check(a == b, "%s: %s changes (evaluations, constraint evaluations, best observed value, target hit) from %s to %s",
                          self.ref, "recommending a solution" if op[0] == "m" else "signalling a restart", a, b)
                else:
                    bboblog.Run.do(self, op)

        def before(R, p, obs, k):
            # the counters of the observed problem agree with the number of evaluations asked for, before and after recommendations
            check(p.evals == R.fe and p.cevals == R.ge, "%s: %d evaluations (%d of constraints) counted, %d (%d) made", R.ref, p.evals, p.cevals,
                  R.fe, R.ge)
            R.state = (p.evals, p.cevals, p.best_observed, p.hit)

        def removed(R, p):
            # without the observer, the problem has no trace of the recommendations either
            now = (p.evals, p.cevals, p.best_observed, p.hit)
            check(now == R.state, "%s: (evaluations, constraint evaluations, best observed value, target hit) are %s when the observer is "
                  "removed, %s with it", R.ref, now, R.state)
        bboblog.RunClass = Watch
        folder, runs = bboblog.play(L, case, before=before, removed=removed)
        for r in runs:
            nrec += sum(1 for e in r.h if e[0] == "m")
        n = bboblog.check_folder(folder, runs, o, case["obs"], ("rdat", "mdat"))
        shutil.rmtree(folder, ignore_errors=True)
        return dict(nontrivial=n["rdat"] >= 1 and n["mdat"] >= 2, evals=sum(len(r.h) for r in runs),
                    tags=[case["suite"]] + (["final mdat"] if n["mdat"] else []))


PROP = C15()
