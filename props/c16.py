"""C16: the bi-objective observer's files hold the exact archive and hypervolume indicator (model-based, over random histories)."""
import os, shutil
import biobjlog, build, coco
from engine import Prop, check


class C16(Prop):
    id = "C16"
    rule = "a case is non-trivial when its .dat files hold at least 5 lines and some archive has at least 4 points"
    assumptions = ["ideal and nadir point as advertised by the library (decided by C06)",
                   "the published table of reference hypervolumes (data/biobj_hyp.txt)",
                   "indicator values within 1e-11 of a target may be taken to reach it or not"]
    quick_cases = 8000
    thorough_cases = 60000
    chunk = 10

    def setup(self, tier):
        self.path = build.shared_lib("plain")

    def gen(self, rng, i, tier):
        if i % 4 == 1 and i // 4 < 92 * 15:      # sweep over the table of reference values
            f, k = divmod(i // 4, 15)
            name = "bbob-biobj" if f < 55 and rng.random() < 0.5 else "bbob-biobj-ext"
            return dict(suite=name, obs=name, opts=dict(log_nondominated="none"), last="normal",
                        runs=[dict(ref=[name, f + 1, d, k + 1], ops=[["f", rng.choice(["init", "box"]), rng.randrange(1 << 30)]], how="free") for d in (2, 3, 5, 10, 20, 40)])
        c = biobjlog.gen_scenario(rng, rng.choice([1, 1, 2, 3]))
        if rng.random() < 0.05:
            c["runs"][0]["ops"].insert(rng.randrange(3), ["F", rng.choice([500, 1000]), rng.randrange(1 << 30)])
        return c

    def run(self, case):
        L = coco.Lib(self.path)
        o = biobjlog.opts(case["opts"])
        folder, runs, active = biobjlog.play(L, case)
        if not active:
            n = sum(len(f) for _, _, f in os.walk(folder))
            check(n == 0, "the observer is configured to log nothing but wrote %d files", n)
            shutil.rmtree(folder, ignore_errors=True)
            return dict(nontrivial=False, evals=sum(r.fe for r in runs), tags=["inactive"])
        n = biobjlog.check_folder(folder, runs, o, case["suite"])
        shutil.rmtree(folder, ignore_errors=True)
        return dict(nontrivial=n["dat"] >= 5 and n["arch"] >= 4, evals=sum(r.fe for r in runs),
                    tags=[case["suite"], "archive:" + o["log_nondominated"]])


PROP = C16()
