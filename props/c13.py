"""C13: observers are transparent (metamorphic, stateful: the same history with and without observers, bitwise)."""
import os, shutil
import numpy as np
import bboblog, build, coco, probs, pts, suites
from engine import Prop, check

ONE = ["bbob", "bbob-old", "rw", "toy", "bbob-boxed", "bbob-largescale", "bbob-noisy", "bbob-mixint", "bbob-constrained"]
TWO = ["bbob-biobj", "bbob-biobj-ext", "bbob-biobj-mixint", "rw"]


def gen_obs(rng, two):
    n = rng.choice(TWO if two else ONE)
    o = bboblog.gen_options(rng)
    for k in ("prefix", "algorithm_name"):
        o.pop(k, None)
    if n in ("toy", "bbob-old"):
        o.pop("number_target_triggers", None)
    if "biobj" in n:
        o["log_nondominated"] = rng.choice(["all", "final", "none"])
        o["compute_indicators"] = rng.choice([0, 1])
    if n == "rw":
        o["log_only_better"] = rng.choice([0, 1])
        o["log_variables"] = rng.choice(["all", "none", "low_dim"])
        o["log_constraints"] = rng.choice(["all", "none", "low_dim"])
    return [n, o]


class C13(Prop):
    id = "C13"
    rule = "a history is non-trivial when at least 5 evaluations are made under an observer and it contains a recommendation, a restart or a removal"
    assumptions = ["the coordinates stay below 1e5 in magnitude (see the known finding of C10)"]
    quick_cases = 8000
    thorough_cases = 80000
    chunk = 10

    def setup(self, tier):
        self.path = build.shared_lib("plain")

    def gen(self, rng, i, tier):
        ref = probs.ref(rng, maxdim=20)
        if rng.random() < 0.2:
            ref = probs.ref(rng, ["bbob-noisy", "bbob-constrained"], maxdim=20)
        two = "biobj" in ref[0]
        kinds = pts.KINDS + ["init", "seg", "seg", "repeat", "nan", "inf", "opt0"]
        ops, depth, old = [], 0, False
        stackrec = rng.random() < 0.01
        if rng.random() < 0.7:
            ops.append(["add", gen_obs(rng, two)])
            depth, old = 1, ops[-1][1][0] == "bbob-old"
        for _ in range(rng.randint(4, 40)):
            r = rng.random()
            if r < 0.08 and depth < 3:
                o = gen_obs(rng, two)
                if o[0] == "bbob-old" and old:
                    o = ["rw", {}]
                old = old or o[0] == "bbob-old"
                ops.append(["add", o])
                depth += 1
            elif r < 0.13 and depth:
                ops.append(["rem"])
                depth -= 1
            elif r < 0.25 and depth and (depth == 1 or stackrec):
                ops.append(["m", rng.choice(kinds), rng.randrange(1 << 30)])
            elif r < 0.32 and depth:
                ops.append(["r"])
            elif r < 0.34:
                ops.append(["i"])
            elif r < 0.36:
                ops.append(["w"])
            elif r < 0.48 and "constrained" in ref[0]:
                ops.append(["c", rng.choice(kinds), rng.randrange(1 << 30)])
            else:
                ops.append(["f", rng.choice(kinds), rng.randrange(1 << 30)])
        return dict(ref=ref, ops=ops, end=rng.choice(["problem", "observers"]), stackrec=stackrec)

    def points(self, case, p, best):
        """The points of all operations (independent of what is observed)."""
        out, last = [], None
        lo, hi, init = p.lower, p.upper, p.initial()
        for op in case["ops"]:
            if op[0] not in "fcm":
                out.append(None)
                continue
            kind, seed = op[1], op[2]
            if kind == "init":
                x = init.copy()
            elif kind == "repeat" and last is not None:
                x = last.copy()
            elif kind == "opt0" and best is not None:
                x = best.copy()
            elif kind == "seg":
                g = np.random.default_rng(seed)
                a = best if best is not None else (lo + hi) / 2
                x = a + 10 ** g.uniform(-9, 0) * (init - a)
            else:
                x = probs.make_point([kind if kind not in ("repeat", "opt0") else "box", seed], p.d, lo, hi, best)
            if not np.all(np.abs(x[np.isfinite(x)]) < 1e5):
                x = np.clip(x, -1e4, 1e4)
            last = x
            out.append(x)
        return out

    def view(self, p):
        v = [p.id, p.type, p.index, p.d, p.m, p.nc, p.ni, p.evals, p.cevals, p.hit, p.best_observed, list(p.lower), list(p.upper)]
        if p.m > 1:
            v += [list(p.nadir)]
        return v

    def wrong_removal(self, p, o, when):
        pid = os.fork()
        if pid == 0:
            try:
                null = os.open("/dev/null", os.O_WRONLY)
                os.dup2(null, 2)
                os.dup2(null, 1)
                was = p.p
                p.unobserve(o)
                os._exit(77 if p.p == was else 78)
            finally:
                os._exit(79)
        st = os.waitpid(pid, 0)[1]
        check(os.WIFEXITED(st) and (os.WEXITSTATUS(st) == 1 if o.folder else os.WEXITSTATUS(st) == 77),
              "%s: removing %s, which is not the outermost observer, ended with %s instead of an error", when, o.nm, st)

    def run(self, case):
        L = coco.Lib(self.path)
        best = probs.best_point(L, case["ref"])
        # without observers
        L.coco_reset_seeds()
        s, p = probs.open_problem(L, case["ref"])
        name = p.name
        X = self.points(case, p, best)
        plain = [(None, self.view(p))]
        for op, x in zip(case["ops"], X):
            y = None
            if op[0] == "f" or (op[0] == "c" and p.nc == 0):
                y = p.f(x)
            elif op[0] == "c":
                y = p.c(x)
            elif op[0] == "i":
                y = p.initial()
            plain.append((y, self.view(p)))
        p.free()
        s.free()
        # with observers
        L.coco_reset_seeds()
        s, p = probs.open_problem(L, case["ref"])
        obs, ptr, allobs = [], [p.p], []
        ev = special = 0
        recs_stacked = False
        fields = ["id", "type", "index", "dimension", "objectives", "constraints", "integer variables", "evaluations",
                  "constraint evaluations", "target hit", "best observed value", "lower bounds", "upper bounds", "nadir"]
        for k, (op, x) in enumerate(zip(case["ops"], X)):
            y = None
            when = "%s, operation %d (%s) under %s" % (case["ref"], k, op[0], [o.nm for o in obs])
            x0 = x.copy() if x is not None else None
            if op[0] == "add":
                o = L.observer(op[1][0], bboblog.fmt_options(op[1][1]) + " outer_folder: . result_folder: c13")
                o.nm = op[1][0]
                allobs.append(o)
                p.observe(o)
                p.refresh()
                obs.append(o)
                ptr.append(p.p)
            elif op[0] == "rem":
                if obs:
                    o = obs.pop()
                    p.unobserve(o)
                    p.refresh()
                    ptr.pop()
                    check(p.p == ptr[-1], "%s: removing the observer does not give the inner problem back", when)
                    o.free()
                    allobs.remove(o)
                    special += 1
                    check(obs or p.name == name, "%s: name is %r, was %r", when, p.name, name)
            elif op[0] == "f" or (op[0] == "c" and p.nc == 0):
                y = p.f(x)
                ev += bool(obs)
            elif op[0] == "c":
                y = p.c(x)
            elif op[0] == "i":
                y = p.initial()
            elif op[0] == "r":
                if obs:
                    # the problem handed over is the one returned when that observer was added
                    j = (k * 7) % len(obs)
                    L.coco_observer_signal_restart(obs[j].p, ptr[j + 1])
                    special += 1
            elif op[0] == "w":
                # only the outermost observer can be removed
                act = [o.nm for o in obs if o.folder]
                other = [o for o in allobs if not act or o.nm != act[-1]]
                if other:
                    self.wrong_removal(p, other[k % len(other)], when)
                    special += 1
            elif op[0] == "m" and np.all(np.isfinite(x)) and obs:
                if len(obs) > 1 and not case["stackrec"]:
                    continue
                recs_stacked = recs_stacked or len(obs) > 1
                p.recommend(x)
                special += 1
            tag = "recommendation through stacked observers: " if recs_stacked else ""
            check(x is None or np.array_equal(x, x0, equal_nan=True), "%s: the caller's point was changed", when)
            py, pv = plain[k + 1]
            if y is not None or py is not None:
                check(y is not None and y.tobytes() == py.tobytes() or np.array_equal(y, py, equal_nan=True),
                      "%s%s: result %s, without observer %s", tag, when, y, py)
            v = self.view(p)
            for a, b, n in zip(v, pv, fields):
                check(a == b, "%s%s: %s is %s, without observer %s", tag, when, n, a, b)
        if case["end"] == "observers":
            for o in reversed(allobs):
                o.free()
            p.free()
        else:
            p.free()
            for o in allobs:
                o.free()
        s.free()
        for d in os.listdir("."):
            if d.startswith("c13"):
                shutil.rmtree(d, ignore_errors=True)
        return dict(nontrivial=ev >= 5 and special > 0, evals=len(case["ops"]), tags=sorted({op[1][0] for op in case["ops"] if op[0] == "add"}))


PROP = C13()
