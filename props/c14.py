"""C14: .dat, .tdat and .info of the bbob-style observers record the run exactly (model-based, over random observed histories)."""
import shutil
import bboblog, build, coco
from engine import Prop, check


class C14(Prop):
    id = "C14"
    rule = "a case is non-trivial when its files hold at least 6 .dat lines and 6 .tdat lines"
    assumptions = ["base evaluation triggers are sorted and span at most one decade",
                   "values within a rounding error of a target may be taken to reach it or not"]
    quick_cases = 10000
    thorough_cases = 40000
    chunk = 10

    def setup(self, tier):
        self.path = build.shared_lib("plain")

    def gen(self, rng, i, tier):
        if i % 60 == 11:        # many short runs that come back to the same functions and dimensions
            c = bboblog.gen_scenario(rng, rng.randint(5, 24), nops=(1, 3), maxdim=5, restarts=False, recs=False)
            refs = [r["ref"] for r in c["runs"][:rng.choice([2, 2, 3])]]
            for k, r in enumerate(c["runs"]):
                r["ref"] = refs[k % len(refs)] if rng.random() < 0.9 else r["ref"]
            return c
        c = bboblog.gen_scenario(rng, rng.choice([1, 1, 2, 3]), restarts=rng.random() < 0.3, recs=rng.random() < 0.3)
        if rng.random() < 0.05 and c["runs"][0]["ref"][2] <= 10:
            c["runs"][0]["ops"].insert(rng.randrange(3), ["F", rng.choice([1000, 3000]), rng.randrange(1 << 30)])
        return c

    def run(self, case):
        L = coco.Lib(self.path)
        o = bboblog.opts(case["opts"])
        folder, runs = bboblog.play(L, case)
        n = bboblog.check_folder(folder, runs, o, case["obs"], ("dat", "tdat", "info"))
        shutil.rmtree("exp", ignore_errors=True)
        shutil.rmtree(folder, ignore_errors=True)
        return dict(nontrivial=n["dat"] >= 6 and n["tdat"] >= 6, evals=sum(r.fe for r in runs), tags=[case["suite"]])


PROP = C14()
