"""C09: evaluation is pure: values in a long shared history equal, bit for bit, those of a fresh problem in another process."""
import os, pickle
import numpy as np
import build, coco, probs, pts, suites
from engine import Prop, check

NAMES = [n for n in suites.NAMES if n != "bbob-noisy"]
GUARD = 7.25e289


def observer_for(name):
    return "toy" if name == "toy" else "bbob-biobj" if "biobj" in name else "bbob"


def guarded(p, x, op):
    n = p.m if op == "f" else p.nc
    y = np.full(n + 8, GUARD)
    x0 = x.tobytes()
    fn = p.lib.coco_evaluate_function if op == "f" else p.lib.coco_evaluate_constraint
    fn(p.p, x.ctypes.data, y.ctypes.data + 32)
    check(x.tobytes() == x0, "%s: evaluation modified the caller's point", p.id)
    check(np.all(y[:4] == GUARD) and np.all(y[4 + n:] == GUARD), "%s: evaluation wrote outside the result array", p.id)
    return y[4:4 + n].tobytes()


def related(last, seed):
    """A point that shares coordinates, sums or almost everything with the one before."""
    g = np.random.default_rng(seed)
    x, d = last.copy(), len(last)
    k = g.integers(8)
    if k == 0:
        x[g.integers(d)] += g.standard_normal()
    elif k == 1:
        x[:d // 2] += g.standard_normal(d // 2)
    elif k == 2:
        x[(d + 1) // 2:] += g.standard_normal(d - (d + 1) // 2)
    elif k == 3:
        m = g.random(d) < 0.5
        x[m] = g.uniform(-5, 5, m.sum())
    elif k == 4:
        x = x[g.permutation(d)]
    elif k == 5:
        j = g.integers(d)
        x[j] = np.nextafter(x[j], 10)
    elif k == 6:
        x[g.integers(d)] *= -1
    else:
        x = x * (1 + g.choice([1e-15, 1e-12, 1e-9, 1e-6]))
    return x


class C09(Prop):
    id = "C09"
    rule = "a case is non-trivial when values were compared on at least two problems open at the same time, or on one problem at least 8 times"
    assumptions = ["same machine and same build in both processes"]
    quick_cases = 20000
    thorough_cases = 50000
    chunk = 20

    def setup(self, tier):
        self.path = build.shared_lib("plain")

    def gen(self, rng, i, tier):
        slots = rng.choice([1, 2, 3, 4])
        pool = [probs.ref(rng, NAMES) for _ in range(rng.choice([1, 2, 3]))]
        if rng.random() < 0.5:   # close relatives: same function or same instance in another dimension or suite
            r = list(pool[0])
            S = suites.SUITES[r[0]]
            r[rng.choice([1, 2, 3])] = 0
            r[1] = r[1] or rng.choice(S["functions"])
            r[2] = r[2] or rng.choice(probs.SMALL.get(r[0], S["dims"]))
            r[3] = r[3] or (1 if r[0] == "toy" else rng.randint(1, 15))
            pool.append(r)
        if i % 4 == 0:           # one problem, every function and dimension in turn, evaluated at related points
            S = suites.SUITES[NAMES[i // 4 % len(NAMES)]]
            k = i // 4 // len(NAMES)
            F = S["functions"]
            dims = [d for d in S["dims"] if d <= 80]
            slots, pool = 1, [[NAMES[i // 4 % len(NAMES)], F[k % len(F)], rng.choice(dims), 1 if NAMES[i // 4 % len(NAMES)] == "toy" else rng.randint(1, 15)]]
        specs = [[rng.choice(pts.KINDS), rng.randrange(1 << 30)] for _ in range(rng.choice([2, 4, 8]))]
        ops = [["open", k, rng.choice(pool)] for k in range(slots)]
        for _ in range(rng.randint(5, 30)):
            k = rng.randrange(slots)
            q = rng.random()
            if q < 0.1:
                ops.append(["open", k, rng.choice(pool)])
            elif q < 0.15:
                ops.append(["free", k])
            elif q < 0.2:
                ops.append(["observe", k])
            elif q < 0.25:
                ops.append([rng.choice(["init", "best", "rec", "reset"]), k, rng.choice(specs)])
            elif q < 0.4:
                ops.append(["c", k, rng.choice(specs) if rng.random() < 0.7 else ["last", rng.randrange(1 << 30)]])
            else:
                ops.append(["f", k, rng.choice(specs) if rng.random() < 0.6 else ["last", rng.randrange(1 << 30)]])
        return {"ops": ops, "seed": rng.randrange(1 << 30)}

    def fresh(self, queries, seed):
        """Values of a fresh problem per query, in another process, in another order."""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                L = coco.Lib(self.path)
                keys = list(queries)
                np.random.default_rng(seed).shuffle(keys)
                out = {}
                for k in keys:
                    ref, op, xb = k
                    s, p = probs.open_problem(L, list(ref))
                    x = np.frombuffer(xb).copy()
                    out[k] = guarded(p, x, op)
                    p.free()
                    s.free()
                with os.fdopen(w, "wb") as f:
                    pickle.dump(out, f)
                os._exit(0)
            finally:
                os._exit(9)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            d = f.read()
        os.waitpid(pid, 0)
        return pickle.loads(d)

    def run(self, case):
        L = coco.Lib(self.path)
        slots, queries, got, opened, last = {}, {}, [], 0, {}
        obs = []

        def close(k):
            if k in slots:
                s, p, _ = slots.pop(k)
                p.free()
                s.free()
        for n, op in enumerate(case["ops"]):
            k = op[1]
            if op[0] == "open":
                close(k)
                s, p = probs.open_problem(L, op[2])
                slots[k] = (s, p, tuple(op[2]))
                opened = max(opened, len(slots))
                continue
            if k not in slots:
                continue
            s, p, ref = slots[k]
            if op[0] == "free":
                close(k)
            elif op[0] == "observe":
                o = L.observer(observer_for(ref[0]), "result_folder: c09")
                obs.append(o)
                p.observe(o)
            elif op[0] == "init":
                p.initial()
            elif op[0] == "reset":
                L.coco_reset_seeds()
            elif op[0] in ("best", "rec"):
                q = s.by(*ref[1:])
                if op[0] == "best":
                    q.best_parameter()
                else:
                    q.recommend(pts.point(op[2], q.d, q.lower, q.upper))
                q.free()
            else:
                if op[2][0] == "opt":
                    x = p.initial()
                elif op[2][0] == "last":
                    x = related(last[k] if k in last and len(last[k]) == p.d else p.initial(), op[2][1])
                else:
                    x = pts.point(op[2], p.d, p.lower, p.upper)
                last[k] = x
                what = "c" if op[0] == "c" and p.nc else "f"
                key = (ref, what, x.tobytes())
                queries[key] = 1
                got.append((n, key, guarded(p, x, what)))
        want = self.fresh(queries, case["seed"])
        for n, key, v in got:
            check(v == want[key], "%s, operation %d (%s): value %s, a fresh problem in another process gives %s at the same point",
                  list(key[0]), n, key[1], np.frombuffer(v), np.frombuffer(want[key]))
        for k in list(slots):
            close(k)
        for o in obs:
            o.free()
        return dict(nontrivial=(opened > 1 and len(got) >= 2) or len(got) >= 8, evals=len(got), tags=sorted({k[0][0] for k in queries}))


PROP = C09()
