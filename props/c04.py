"""C04: bbob-noisy evaluations follow the defined noise model and draw sequence (model-based, over histories)."""
import shutil
import numpy as np
import bbobref, bboblog, build, coco, noisymodel, pts
from engine import Prop, check

FRESH = [True]


class C04(Prop):
    id = "C04"
    rule = ("a history is non-trivial when it evaluates at least two different noisy problems or contains a seed reset, and at least "
            "ten finite evaluations")
    assumptions = ["reference model of the noise-free functions as in C01",
                   "the draw sequence is global to the process and starts at the same place in every process"]
    quick_cases = 6000
    thorough_cases = 80000
    chunk = 10

    def setup(self, tier):
        self.path = build.shared_lib("plain")

    def gen(self, rng, i, tier):
        if i % 8 == 7:
            c = bboblog.gen_scenario(rng, rng.choice([1, 2]), names=["bbob-noisy"], restarts=False, recs=False)
            c["opts"].pop("number_evaluation_triggers", None)      # known finding of C14, not judged here
            return {"log": c}
        if i % 400 == 5:
            # long streams: far along the draw sequences, rare draws included (Cauchy terms below zero)
            ops = [["reset"]] if rng.random() < 0.5 else []
            np_ = rng.choice([1, 1, 2])
            for _ in range(rng.choice([1, 2, 3])):
                ops.append(["burst", rng.randrange(np_), int(10 ** rng.uniform(2.5, 4.85)), rng.choice(pts.KINDS), rng.randrange(1 << 30)])
            return {"probs": [[101 + (i // 400 * (1 if k else 3) + 2) % 30, rng.choice([2, 3, 5]), rng.randint(1, 15)] for k in range(np_)], "ops": ops}
        np_ = rng.choice([1, 2, 2, 3])
        probs = []
        for k in range(np_):
            f = 101 + (i + 7 * k) % 30
            d = noisymodel.DIMS[rng.randrange(6)] if rng.random() < 0.5 else rng.choice([2, 3, 5])
            probs.append([f, d, rng.choice([rng.randint(1, 15), rng.randint(1, 15), rng.randint(1, 300)])])
        ops = []
        for _ in range(rng.randint(8, 40)):
            r = rng.random()
            if r < 0.04:
                ops.append(["reset"])
            elif r < 0.10:
                ops.append(["nan", rng.randrange(np_)])
            elif r < 0.14:
                ops.append(["inf", rng.randrange(np_)])
            elif r < 0.20:
                ops.append(["reopen", rng.randrange(np_)])
            elif r < 0.24:
                ops.append(["init", rng.randrange(np_)])
            else:
                ops.append(["eval", rng.randrange(np_), rng.choice(pts.KINDS), rng.randrange(1 << 30)])
        return {"probs": probs, "ops": ops}

    def run_log(self, case):
        """Observed runs: the values returned follow the noise model as without observer, what is logged is the noise-free value."""
        L = coco.Lib(self.path)
        noise = noisymodel.Noise()
        if not FRESH[0]:
            L.coco_reset_seeds()
        FRESH[0] = False

        class Run(bboblog.Run):
            def note_eval(self, x, y):
                V = self.noisy(x[None, :])
                dr = noise.draw(self.ref[1], self.d)
                if np.isfinite(V[0]) and abs(V[0]) < 1e200:
                    T = bbobref.tolerance(self.noisy, x[None, :], V)
                    want, tol = noisymodel.expected(dr, self.noisy, x, float(V[0]), float(T[0]))
                    check(abs(y - want) <= tol, "%s observed, evaluation %d: value %r, noise model gives %r (tolerance %.2g)", self.ref, self.fe + 1,
                          y, want, tol)
                bboblog.Run.note_eval(self, x, y)
        bboblog.RunClass = Run
        c = case["log"]
        for r in c["runs"]:
            r["how"] = "free"
        o = bboblog.opts(c["opts"])
        folder, runs = bboblog.play(L, c)
        bboblog.check_folder(folder, runs, o, c["obs"], ("dat", "tdat", "info"))
        shutil.rmtree(folder, ignore_errors=True)
        return dict(nontrivial=sum(r.fe for r in runs) >= 10, evals=sum(r.fe for r in runs), tags=["observed"])

    def shrink(self, case):
        if "log" in case:
            yield from Prop.shrink(self, case)
            return
        ops = case["ops"]
        n = len(ops)
        size = max(1, n // 2)
        while size >= 1:
            for s in range(0, n, size):
                yield dict(case, ops=ops[:s] + ops[s + size:])
            size //= 2
        for k, op in enumerate(ops):
            if op[0] == "burst":
                for m in (op[2] // 2, op[2] * 9 // 10, op[2] - 1):
                    if 0 < m < op[2]:
                        yield dict(case, ops=ops[:k] + [op[:2] + [m] + op[3:]] + ops[k + 1:])
        for k, (f, d, i) in enumerate(case["probs"]):
            for d2 in noisymodel.DIMS:
                if d2 < d:
                    yield dict(case, probs=case["probs"][:k] + [[f, d2, i]] + case["probs"][k + 1:])

    def run(self, case):
        if "log" in case:
            return self.run_log(case)
        L = coco.Lib(self.path)
        noise = noisymodel.Noise()
        if not FRESH[0]:
            L.coco_reset_seeds()
        FRESH[0] = False
        suites, probs, refs = [], [], []
        for f, d, i in case["probs"]:
            s = L.suite("bbob-noisy", "instances: %d" % i, "dimensions: %d function_indices: %d" % (d, f - 100))
            p = s.next()
            check(p is not None and p.d == d, "no problem delivered for f%d d%d i%d", f, d, i)
            suites.append(s); probs.append(p); refs.append(bbobref.noisy_base(f, d, i))
        nev, used, resets = 0, set(), 0
        for k, op in enumerate(case["ops"]):
            if op[0] == "reset":
                L.coco_reset_seeds()
                noise.reset()
                resets += 1
                continue
            j = op[1]
            f, d, i = case["probs"][j]
            p, ref = probs[j], refs[j]
            if op[0] == "init":
                p.initial()
                continue
            if op[0] == "reopen":
                suites[j].free()
                suites[j] = L.suite("bbob-noisy", "instances: %d" % i, "dimensions: %d function_indices: %d" % (d, f - 100))
                probs[j] = suites[j].next()
                continue
            if op[0] in ("nan", "inf"):
                x = np.zeros(d)
                x[k % d] = np.nan if op[0] == "nan" else np.inf
                y = p.f(x)[0]
                check(np.isnan(y) if op[0] == "nan" else np.isinf(y), "f%d: value %r at a point with a %s coordinate", f, y, op[0])
                continue
            if op[0] == "burst":
                n = op[2]
                x = pts.point([op[3], op[4]], d, xopt=ref.xopt)
                V = ref(x[None, :])
                got = np.array([p.f(x)[0] for _ in range(n)])
                kind, prm, r = noisymodel.draws(noise, f, d, n)
                nev += n
                used.add(j)
                if not np.isfinite(V[0]) or abs(V[0]) > 1e200:
                    continue
                pen = 100.0 * float(bbobref.pen(x[None, :])[0])
                T = bbobref.tolerance(ref, x[None, :], V)
                for m in range(n):
                    dr = (kind, prm, tuple(float(c[m]) for c in r))
                    want = noisymodel.apply(dr, float(V[0]), ref.fopt, pen)
                    if abs(got[m] - want) > 1e-9 * abs(want - ref.fopt) + 1e-11 + 1e-12 * abs(ref.fopt):
                        want, tol = noisymodel.expected(dr, ref, x, float(V[0]), float(T[0]))
                        check(abs(got[m] - want) <= tol, "operation %d, evaluation %d of %d: f%d d=%d i=%d point %s: value %r, noise model gives %r (tolerance "
                              "%.2g, noise-free %r, draws %s)", k, m + 1, n, f, d, i, op[3:], got[m], want, tol, V[0], dr)
                continue
            x = pts.point([op[2], op[3]], d, xopt=ref.xopt)
            V = ref(x[None, :])
            if not np.isfinite(V[0]) or abs(V[0]) > 1e200:
                noise.draw(f, d)
                p.f(x)
                continue
            T = bbobref.tolerance(ref, x[None, :], V)
            dr = noise.draw(f, d)
            want, tol = noisymodel.expected(dr, ref, x, float(V[0]), float(T[0]))
            got = p.f(x)[0]
            check(abs(got - want) <= tol, "operation %d: f%d d=%d i=%d point %s: value %r, noise model gives %r (tolerance %.2g, noise-free "
                  "%r, draws %s)", k, f, d, i, op[2:], got, want, tol, V[0], dr)
            nev += 1
            used.add(j)
        for s in suites:
            s.free()
        return dict(nontrivial=nev >= 10 and (len(used) > 1 or resets > 0), evals=nev,
                    tags=sorted({"f%d" % q[0] for q in case["probs"]}) + (["reset"] if resets else []) + (["long stream"] if any(o[0] == "burst" for o in case["ops"]) else []))


PROP = C04()
