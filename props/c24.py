"""C24: the Python package against the C library: random sequences of Python calls mirrored by C calls."""
import os, shutil, tempfile
import numpy as np
import build, coco, pyrun, suites
from engine import Prop, Violation, check

NAMES = ["bbob", "bbob-biobj", "bbob-biobj-ext", "bbob-boxed", "bbob-constrained", "bbob-largescale", "bbob-mixint", "bbob-biobj-mixint", "bbob-noisy"]
GOOD = ["list", "tuple", "f8", "f4", "f2", "ld", "swap", "strided", "reversed", "column", "frow", "readonly", "object", "unaligned", "bytesub", "mixed"]
INTS = ["ints", "i8", "i4", "i1", "swapi"]
BAD = ["none", "text", "words", "dict", "ragged", "short", "long", "empty", "scalar"]
DEAD = ["evaluations", "evaluations_constraints", "initial_solution", "final_target_hit", "best_observed_fvalue1", "largest_fvalues_of_interest"]
LIVE = DEAD + ["id", "name", "index", "dimension", "number_of_variables", "number_of_objectives", "number_of_constraints", "number_of_integer_variables",
               "lower_bounds", "upper_bounds", "id_function", "id_instance", "id_triple", "is_observed", "suite"]
SKIP = object()
ANY = ["any"]
EXC = ["exc"]


def hx(v):
    v = float(v)
    return "nan" if v != v else v.hex()


def rnd(form, v):
    """The values that the argument of that form really carries."""
    if form in ("f4", "f2"):
        with np.errstate(over="ignore"):
            return np.asarray(v, float).astype(np.float32 if form == "f4" else np.float16).astype(float)
    return np.asarray(v, float)


class Model:
    """Executes the sequence with C calls; yields for each legal operation the operation as sent to Python and the expected outcome."""

    def __init__(self, L):
        self.L = L
        self.s, self.p, self.o, self.b = {}, {}, {}, {}
        self.level = "error"
        self.evals = self.n_ok = self.n_exc = 0

    def live(self, k):
        q = self.p.get(k)
        return q if q and q["p"] else None

    def close(self, k):
        q = self.p.get(k)
        if q and q["p"]:
            q["p"].free()
            q["p"] = None
            for o in q["obs"]:
                self.o[o]["open"] = None

    def forget(self, k):
        """The slot is about to be reused: the old object is finalized."""
        self.close(k)
        for s in self.s.values():
            if s["cur"] == k:
                s["cur"] = None     # the suite still holds its own reference, but nobody can use it any more
        self.p.pop(k, None)

    def attach(self, o, k):
        q, ob = self.p[k], self.o[o]
        if ob["c"].p:
            q["p"].observe(ob["c"])
            q["obs"].append(o)
            ob["open"] = k
        q["n_obs"] += 1

    def can_attach(self, o, slot=None):
        ob = self.o.get(o)
        return ob is not None and not ob["freed"] and ob["open"] is None

    def new(self, slot, s, cp):
        self.p[slot] = dict(p=cp, s=s, obs=[], n_obs=0, m=cp.m, nc=cp.nc, d=cp.d, calls=0, lo=cp.lower, hi=cp.upper, index=cp.index)

    def vec(self, q, form, x):
        """(x as sent, values or None if not acceptable)"""
        d = q["d"]
        if x == "opt":
            s = self.s.get(q.get("s"))
            x = suites.optimum(self.L, s["args"], q["index"]) if s and s["name"] != "bbob-noisy" else None
            x = [1.0] if x is None else x
        if form in ("short", "long", "empty"):
            n = max(d - 1, 0) if form == "short" else d + 1 if form == "long" else 0
            return "f8", [hx(v) for v in np.resize(np.asarray(x, float), n)], None
        x = np.resize(np.asarray(x, float), d)
        if form == "scalar" or form == "text" or form == "none" or form in BAD:
            return form, [hx(v) for v in x], None
        if form in INTS:
            x = np.clip(np.round(np.nan_to_num(x)), -100, 100) + 0.0
        elif form == "mixed" and not np.all(np.isfinite(x)):
            form = "list"
        else:
            x = rnd(form, x)
            if form == "mixed":
                x = x + 0.0     # integers have no negative zero
        return form, [hx(v) for v in x], x

    def op(self, o):
        k, a = o[0], list(o[1:])
        L = self.L
        if k == "suite":
            s = self.s.get(a[0])
            if s:
                return SKIP
            L.coco_reset_seeds()
            c = L.suite(a[1], a[2], a[3])
            if not c.p:
                return ["badsuite"] + a[1:], EXC
            rows = []
            while True:
                q = c.next()
                if q is None:
                    break
                rows.append((q.id, q.name, q.d, q.m, q.index))
            c.free()
            if not rows or len(rows) > 4000:
                return SKIP
            self.s[a[0]] = dict(c=L.suite(a[1], a[2], a[3]), rows=rows, cur=None, idx=None, freed=False, name=a[1], args=a[1:4])
            return o, ["ok", [len(rows), [r[0] for r in rows], [r[1] for r in rows], sorted({r[2] for r in rows}), sorted({r[3] for r in rows}),
                              [r[4] for r in rows], a[1], a[2], a[3]]]
        if k == "badsuite":
            return o, EXC
        if k in ("next", "reset", "iter", "get", "fdi", "ids", "frees"):
            s = self.s.get(a[0])
            if s is None:
                return SKIP
        if k == "next":
            if s["freed"]:
                return ["next", a[0], None, a[2]], EXC
            if a[1] is not None and not self.can_attach(a[1]) and not (self.o.get(a[1]) and s["cur"] is not None and self.o[a[1]]["open"] == s["cur"]):
                a[1] = None
            if self.p.get(a[2]) and s["cur"] != a[2]:
                return SKIP
            if s["cur"] is not None:
                self.close(s["cur"])
            self.p.pop(a[2], None)
            s["idx"] = 0 if s["idx"] is None else s["idx"] + 1
            if s["idx"] >= len(s["rows"]):
                s["cur"] = None
                return ["next"] + a, ["ok", [None, ANY, True]]
            self.new(a[2], a[0], s["c"].get(s["rows"][s["idx"]][4]))
            s["cur"] = a[2]
            if a[1] is not None:
                self.attach(a[1], a[2])
            return ["next"] + a, ["ok", [s["rows"][s["idx"]][0], s["idx"], True]]
        if k == "reset":
            if s["cur"] is not None:
                self.close(s["cur"])
            s["cur"] = s["idx"] = None
            return o, ["ok", [None, None]]
        if k == "iter":
            if s["freed"] or (self.p.get(a[3]) and s["cur"] != a[3]):
                return SKIP
            if s["cur"] is not None:
                self.close(s["cur"])
            self.p.pop(a[3], None)
            n = min(a[2], len(s["rows"]), 40)
            a[2] = n
            rows = []
            for j in range(n):
                e = [s["rows"][j][0], 0, j]
                if a[1] is not None:
                    e.append(1)
                    if s["name"] == "bbob-noisy" or j == n - 1:
                        q = s["c"].get(s["rows"][j][4])
                        q.f([0.5] * q.d)
                        if j < n - 1:
                            q.free()
                rows.append(e)
            if a[1] is None:
                q = s["c"].get(s["rows"][n - 1][4])
            self.new(a[3], a[0], q)
            s["cur"], s["idx"] = a[3], n - 1
            return ["iter"] + a, ["ok", rows]
        if k == "get":
            if s["freed"]:
                return ["get", a[0], 0, a[2], a[3], None], EXC
            if a[4] is not None and not self.can_attach(a[4]):
                a[4] = None
            if self.p.get(a[3]):
                return SKIP
            key = a[1]
            n = len(s["rows"])
            if a[2] == "id":
                key = s["rows"][key % n][0]
                row = next(r for r in s["rows"] if r[0] == key)
            elif a[2] == "badid":
                key, row = [s["rows"][key % n][0] + "x", "", s["rows"][key % n][0][:-1] + "?", "f001", None, str(key // 8 % n),
                            key // 8 % n + 0.5, s["rows"][key % n][0].upper() + " "][key % 8], None
            elif a[2] == "big":
                key, row = n + key % 5, None
            else:
                key = key % n
                row = s["rows"][key]
            op = ["get", a[0], key, a[2], a[3], a[4]]
            if row is None:
                op[5] = None
                return op, EXC
            self.new(a[3], a[0], s["c"].get(row[4]))
            if a[4] is not None:
                self.attach(a[4], a[3])
            return op, ["ok", [row[0], s["idx"]]]
        if k == "fdi":
            if s["freed"]:
                return ["fdi", a[0], 1, 2, 1, a[4], None], EXC
            if a[5] is not None and not self.can_attach(a[5]):
                a[5] = None
            if self.p.get(a[4]):
                return SKIP
            if min(a[1:4]) < 0:
                return ["fdi"] + a[:5] + [None], EXC
            q = s["c"].by(*a[1:4])
            if q is None:
                return ["fdi"] + a[:5] + [None], EXC
            self.new(a[4], a[0], q)
            if a[5] is not None:
                self.attach(a[5], a[4])
            return ["fdi"] + a, ["ok", [q.id, s["idx"]]]
        if k == "ids":
            if a[1] and a[1][0] == "^":      # the beginning of an identifier
                a[1] = [s["rows"][a[1][1] % len(s["rows"])][0][:a[1][2]]]
                o = ["ids", a[0], a[1]]
            return o, ["ok", [r[0] for r in s["rows"] if all(x in r[0] for x in a[1])]]
        if k == "frees":
            if any(q["s"] == a[0] and q["p"] and q["obs"] for q in self.p.values()):
                return SKIP         # an observed problem of the suite is still open
            s["freed"] = True
            return o, ["ok", None]
        if k == "drop":
            if a[0] == "s":
                s = self.s.get(a[1])
                if s is None:
                    return SKIP
                if s["cur"] is not None:
                    pass            # the problem stays with its own slot
                self.s["gone%d" % len(self.s)] = self.s.pop(a[1])
                for q in self.p.values():
                    if q["s"] == a[1]:
                        q["s"] = None
                return o, ["ok", None]
            if a[0] == "p":
                q = self.p.get(a[1])
                if q is None or any(s["cur"] == a[1] for s in self.s.values()):
                    return SKIP
                self.forget(a[1])
                return o, ["ok", None]
            if a[0] == "o":
                ob = self.o.get(a[1])
                if ob is None or ob["open"] is not None:
                    return SKIP
                del self.o[a[1]]
                for q in self.p.values():
                    q["obs"] = [x for x in q["obs"] if x != a[1]]
                return o, ["ok", None]
            if self.b.pop(a[1], None) is None:
                return SKIP
            return o, ["ok", None]
        if k in ("call", "con", "rec", "attr", "mutate", "keep", "argkeep", "prop", "freep", "with", "feed"):
            q = self.p.get(a[0])
            if q is None:
                return SKIP
            cp = q["p"]
        if k in ("call", "con", "rec"):
            if k == "con" and q["nc"] == 0 and not cp:
                return SKIP
            form, sent, x = self.vec(q, a[1], a[2])
            op = [k, a[0], form, sent]
            if cp is None:
                return op, EXC
            if k == "con" and q["nc"] == 0:
                return op, ["ok", None]
            if x is None:
                return op, EXC
            self.evals += 1
            if k == "call":
                y = cp.f(x)
                return op, ["ok", hx(y[0]) if q["m"] == 1 else [hx(v) for v in y]]
            if k == "con":
                return op, ["ok", [hx(v) for v in cp.c(x)]]
            if q["m"] > 1 or q["n_obs"] > 1:
                return SKIP
            cp.recommend(x)
            return op, ["ok", None]
        if k == "feed":
            return SKIP
        if k == "attr":
            if cp is None:
                return (o, EXC) if a[1] in DEAD else SKIP
            v = self.attr(q, cp, a[1])
            return SKIP if v is SKIP else (o, ["ok", v])
        if k == "mutate":
            if cp is None or (a[1] == "con" and not q["nc"]) or (a[1] in ("lower_bounds", "upper_bounds", "largest_fvalues_of_interest")):
                return SKIP
            if a[1] == "call":
                cp.f([1.0] * q["d"])
            elif a[1] == "con":
                cp.c([1.0] * q["d"])
            return o, ["ok", None]
        if k == "keep":
            if cp is None or (a[1] == "con" and not q["nc"]):
                return SKIP
            f, x1, v1 = self.vec(q, "f8", a[3])
            f, x2, v2 = self.vec(q, "f8", a[4])
            g = cp.f if a[1] == "call" else cp.c
            y1 = g(v1)
            g(v2)
            e = hx(y1[0]) if a[1] == "call" and q["m"] == 1 else [hx(v) for v in y1]
            return ["keep", a[0], a[1], "f8", x1, x2], ["ok", [[e] if 0 else e, e]]
        if k == "argkeep":
            if cp is None:
                return SKIP
            form, sent, x = self.vec(q, a[1], a[2])
            if x is None:
                return SKIP
            y = cp.f(x)
            return ["argkeep", a[0], form, sent], ["ok", [hx(y[0]) if q["m"] == 1 else [hx(v) for v in y], True]]
        if k == "prop":
            if cp is None:
                return SKIP
            first = q["calls"] if a[1] is None else a[1]
            if a[1] is None:
                q["calls"] += a[3]
            return o, ["prop", first, a[3], [hx(v) for v in cp.initial()], [hx(v) for v in q["lo"]], [hx(v) for v in q["hi"]], q["nc"], cp.ni]
        if k == "freep":
            self.close(a[0])
            return o, ["ok", None]
        if k == "with":
            if cp is None:
                return SKIP
            n = cp.evals
            self.close(a[0])
            return o, ["ok", n]
        if k == "observer":
            if a[0] in self.o:
                return SKIP
            text = a[2]
            if isinstance(text, dict):
                text = " ".join('%s: "%s"' % (n, v) if " " in str(v) else "%s: %s" % (n, v) for n, v in text.items())
            c = L.observer(a[1], text)
            self.o[a[0]] = dict(c=c, open=None, freed=False)
            return o, ["ok", [c.folder if c.p else "", "initialized", a[1]]]
        if k == "observe":
            ob, q = self.o.get(a[0]), self.p.get(a[1])
            if ob is None or q is None:
                return SKIP
            if q["p"] is None or ob["freed"]:
                return o, EXC
            if ob["open"] is not None or q["n_obs"] >= 2:
                return SKIP
            if q["s"] is not None and self.s[q["s"]]["freed"]:
                return o, EXC
            self.attach(a[0], a[1])
            return o, ["ok", True]
        if k == "restart":
            ob, q = self.o.get(a[0]), self.p.get(a[1])
            if ob is None or q is None:
                return SKIP
            if q["p"] is None or ob["freed"]:
                return o, EXC
            if not ob["c"].p or ob["open"] != a[1] or q["obs"][-1] != a[0]:
                return SKIP
            ob["c"].restart(q["p"])
            return o, ["ok", None]
        if k == "folder":
            ob = self.o.get(a[0])
            if ob is None:
                return SKIP
            return o, EXC if ob["freed"] else ["ok", ob["c"].folder if ob["c"].p else ""]
        if k == "freeo":
            ob = self.o.get(a[0])
            if ob is None or ob["open"] is not None:
                return SKIP
            ob["freed"] = True
            return o, ["ok", None]
        if k == "level":
            old = self.level
            if a[0]:
                self.level = a[0]
            return o, ["ok", old]
        if k == "bare":
            if a[0] in self.b:
                return SKIP
            if a[1] != "bbob" or not (1 <= a[2] <= 24) or not (1 <= a[3] <= 40) or a[4] < 0:
                return o, EXC
            q = L.bare_bbob(a[2], a[3], a[4])
            self.b[a[0]] = q
            r = [q.id, q.id, a[2], a[3], a[4], "bbob", "BareProblem('bbob', %d, %d, %d)" % tuple(a[2:5]), hx(q.best_value), False, 3]
            return o, ["ok", r]
        if k in ("bcall", "bmat", "bbest", "btaint"):
            q = self.b.get(a[0])
            if q is None:
                return SKIP
        if k == "bcall":
            form, sent, x = self.vec(dict(d=q.d), a[1], a[2])
            if x is None:
                return ["bcall", a[0], form, sent], EXC
            return ["bcall", a[0], form, sent], ["either", hx(q.f(x)[0])]
        if k == "bmat":
            n = a[2]
            w = q.d + a[4]
            X = np.resize(np.asarray(a[3], float), (n, max(w, 0)))
            if a[1] in ("i8",):
                X = np.clip(np.round(X), -100, 100) + 0.0
            elif a[1] == "f4":
                X = rnd("f4", X)
            op = ["bmat", a[0], a[1], [[hx(v) for v in r] for r in X]]
            if a[1] == "3d":
                return op, ANY
            if a[4] != 0:
                return op, EXC
            return op, ["either", [hx(q.f(x)[0]) for x in X]]
        if k == "bbest":
            x = q.best_parameter()
            return o, ["ok", [hx(v) for v in x]]
        if k == "btaint":
            return o, ["ok", bool(q.lib.coco_problem_is_tainted(q.p))]
        raise KeyError(k)

    def attr(self, q, cp, n):
        vec = lambda v: None if v is None else [hx(x) for x in v]
        if n == "id":
            return cp.id
        if n == "name":
            return cp.name
        if n == "index":
            return cp.index
        if n in ("dimension", "number_of_variables"):
            return cp.d
        if n == "number_of_objectives":
            return cp.m
        if n == "number_of_constraints":
            return cp.nc
        if n == "number_of_integer_variables":
            return cp.ni
        if n == "lower_bounds":
            return vec(cp.lower)
        if n == "upper_bounds":
            return vec(cp.upper)
        if n == "initial_solution":
            return vec(cp.initial())
        if n == "evaluations":
            return cp.evals
        if n == "evaluations_constraints":
            return cp.cevals
        if n == "final_target_hit":
            return bool(cp.hit) if cp.m == 1 else SKIP
        if n == "best_observed_fvalue1":
            return hx(cp.best_observed)
        if n == "largest_fvalues_of_interest":
            return vec(cp.nadir) if cp.m > 1 else None
        f, i = int(cp.id.split("_f")[1].split("_")[0]), int(cp.id.split("_i")[1].split("_")[0])
        if n == "id_function":
            return f
        if n == "id_instance":
            return i
        if n == "id_triple":
            return [f, cp.d, i]
        if n == "is_observed":
            return q["n_obs"]
        if n == "suite":
            return self.s[q["s"]]["name"] if q["s"] is not None else SKIP
        raise KeyError(n)

    def finish(self):
        for k in list(self.p):
            self.close(k)
        for ob in self.o.values():
            if ob["c"].p:
                ob["c"].free()
        for s in self.s.values():
            s["c"].free()


def match(e, g):
    if e == ANY:
        return True
    if isinstance(e, list) and isinstance(g, list):
        return len(e) == len(g) and all(match(a, b) for a, b in zip(e, g))
    return type(e) is type(g) and e == g


class C24(Prop):
    id = "C24"
    rule = "a case is non-trivial when Python executed at least five operations of the sequence, one of them on a problem"
    assumptions = ["the C library itself is judged by the other properties; here it is the reference (same sources, different build)",
                   "sequences keep the documented rules: an observer watches one open problem at a time and outlives it; recommendations on single-objective problems"]
    quick_cases = 3600
    thorough_cases = 60000
    chunk = 60
    case_timeout = 120

    def setup(self, tier):
        self.pkg = build.python_package("asan")
        self.lib = build.shared_lib("ndebug")

    # -------------------------------------------------------------- generation
    def gen_suite(self, r):
        n = r.choice(NAMES)
        S = suites.SUITES[n]
        inst = r.choice(["", "instances: 1", "instances: 1-3", "instances: 2,5", "instances: %d" % r.randint(1, 15), "instances: 7,%d" % r.choice([100, 128, 300, 999, 1000, 1001, 4321]), "year: 2009", "year: 2016", "year: 2023"])
        if n == "bbob-boxed" and inst.startswith("year"):
            inst = "year: 2023"
        if n == "bbob-noisy" and inst.startswith("year"):
            inst = "year: 2009"
        dims = [d for d in S["dims"] if d <= 20] or S["dims"][:1]
        o = ["dimensions: " + ",".join(map(str, sorted(r.sample(dims, r.randint(1, min(2, len(dims)))))))]
        nf = len(S["functions"])
        a = r.randint(1, nf)
        o.append("function_indices: " + r.choice(["%d-%d" % (a, min(nf, a + r.randint(0, 5))), "%d" % a, "%d,%d" % (a, r.randint(1, nf))]))
        if r.random() < 0.3:
            o.append("instance_indices: " + r.choice(["1", "1-2", "2", "1,3"]))
        r.shuffle(o)
        return [n, inst, " ".join(o)]

    def x(self, r):
        n = r.choice([1, 2, 3, 7])
        k = r.random()
        if k < 0.6:
            return [round(r.uniform(-5, 5), r.choice([0, 1, 3, 9])) for _ in range(n)]
        if k < 0.75:
            return [float(r.randint(-5, 5)) for _ in range(n)]
        if k < 0.9:
            return [r.choice([0.0, 1e-9, 1e3, -7.25, 6.5, 100.0]) for _ in range(n)]
        return [r.choice([1e30, -1e30, 1e-300, float("inf"), float("nan"), 4.0]) for _ in range(n)]

    def gen(self, rng, i, tier):
        r = rng
        ops = []
        if i % 6 == 5:
            for b in range(r.randint(1, 3)):
                ops.append(["bare", b, "bbob" if r.random() < 0.93 else r.choice(["bbob-biobj", "", "BBOB"]),
                            r.randint(1, 24) if r.random() < 0.9 else r.choice([0, 25, 99, -1, 101]), r.choice([1, 2, 3, 5, 13, 40]) if r.random() < 0.9 else r.choice([0, -2, 41, 100]),
                            r.choice([1, 2, 5, 99, 0, 1000]) if r.random() < 0.95 else -3])
            for _ in range(r.randint(2, 14)):
                b = r.randrange(3)
                k = r.random()
                if k < 0.5:
                    ops.append(["bcall", b, r.choice(GOOD + INTS) if r.random() < 0.75 else r.choice(BAD), self.fin(r)])
                elif k < 0.85:
                    ops.append(["bmat", b, r.choice(["lists", "f8", "F", "cut", "i8", "f4", "swap", "readonly", "3d"]), r.choice([1, 2, 3, 4, 4, r.randint(5, 40), r.choice([64, 101, 129, 257])]), self.fin(r),
                                0 if r.random() < 0.75 else r.choice([-1, 1, 2])])
                elif k < 0.92:
                    ops.append(["btaint", b])
                elif k < 0.97:
                    ops.append(["bbest", b])
                else:
                    ops.append(["drop", "b", b])
            return dict(ops=ops)
        su = [self.gen_suite(r) for _ in range(r.choice([1, 1, 2]))]
        for k, s in enumerate(su):
            ops.append(["suite", k] + s)
        if r.random() < 0.04:
            ops.append(["badsuite"] + r.choice([["bbob2", "", ""], ["bbob", "", "dimensions: 7"], ["", "", ""], ["bbob", "", "dimensions: 2 instance_indices: 99"]]))
            ops[-1][3] = "dimensions: 7" if ops[-1][1] == "bbob" else ops[-1][3]
        no = r.choice([0, 1, 1, 2])
        for k in range(no):
            bi = any("biobj" in s[0] for s in su)
            name = r.choice(["bbob-biobj" if bi else "bbob", "bbob-biobj" if bi else "bbob", "bbob", "no_observer", "toy", "rw"]) if len({("biobj" in s[0]) for s in su}) == 1 else "no_observer"
            if name == "bbob" and bi:
                name = "bbob-biobj"
            opt = {"result_folder": r.choice(["exp", "res", "a/b"])}
            if r.random() < 0.5:
                opt["algorithm_name"] = r.choice(["ALG", "my algorithm", "CMA-ES"])
            if r.random() < 0.4:
                opt["algorithm_info"] = r.choice(["a simple info", "x", "it's fine, really"])
            if name in ("bbob", "bbob-biobj"):
                if r.random() < 0.4:
                    opt["precision_x"] = r.choice([3, 5, 12])
                if r.random() < 0.3:
                    opt["base_evaluation_triggers"] = r.choice(["1,3", "1,2,5", "7"])
                if r.random() < 0.3:
                    opt["number_target_triggers"] = r.choice([1, 5, 20])
            if r.random() < 0.5:
                items = ['%s: "%s"' % (n, v) if " " in str(v) else "%s: %s" % (n, v) for n, v in opt.items()]
                opt = " ".join(items)
            ops.append(["observer", k, name, opt])
        P = 6
        def ob():
            return r.randrange(no) if no and r.random() < 0.5 else None
        if r.random() < 0.15:
            ops.insert(r.randint(0, len(ops)), ["level", r.choice(["warning", "info", "debug"])])
        for _ in range(r.randint(4, 40)):
            k = r.random()
            s = r.randrange(len(su))
            p = r.randrange(P)
            if k < 0.09:
                ops.append(["next", s, ob(), 10 + s])
            elif k < 0.11:
                ops.append(["reset", s])
            elif k < 0.13:
                ops.append(["iter", s, r.choice([None, 1]), r.choice([1, 2, 5]), 10 + s])
            elif k < 0.22:
                ops.append(["get", s, r.randrange(4000), r.choice(["int", "np", "id", "call", "int", "id", "big", "badid"]), p, ob()])
            elif k < 0.28:
                S = suites.SUITES[su[s][0]]
                dm = su[s][2].split("dimensions: ")[1].split(" ")[0].split(",")
                f = r.choice(S["functions"]) if r.random() < 0.9 else r.choice([-1, 0, 999])
                ops.append(["fdi", s, f, int(r.choice(dm)) if r.random() < 0.85 else r.choice([7, 0, -2, 1000]), self.inst(r, su[s][1]), p, ob()])
            elif k < 0.30:
                ops.append(["ids", s, r.choice([[], ["f00"], ["i01"], ["d02", "i01"], ["d10"], ["zzz"], ["f001", "i02", "d05"], ["^", r.randrange(1000), r.randint(1, 40)]])])
            else:
                if r.random() < 0.35:
                    p = 10 + s
                if k < 0.55:
                    if r.random() < 0.08:
                        ops.append(["call", p, r.choice(["f8", "list", "strided"]), "opt"])
                        ops.append(["attr", p, r.choice(["final_target_hit", "best_observed_fvalue1"])])
                    else:
                        ops.append(["call", p, r.choice(GOOD + INTS) if r.random() < 0.85 else r.choice(BAD), self.x(r)])
                elif k < 0.60:
                    ops.append(["con", p, r.choice(GOOD + INTS) if r.random() < 0.85 else r.choice(BAD), self.x(r)])
                elif k < 0.63:
                    ops.append(["rec", p, r.choice(GOOD + INTS) if r.random() < 0.85 else r.choice(BAD), self.x(r)])
                elif k < 0.78:
                    ops.append(["attr", p, r.choice(LIVE) if r.random() < 0.7 else r.choice(DEAD)])
                elif k < 0.80:
                    ops.append(["mutate", p, r.choice(["call", "con", "initial_solution"])])
                elif k < 0.82:
                    ops.append(["keep", p, r.choice(["call", "con"]), "f8", self.fin(r), self.fin(r)])
                elif k < 0.84:
                    ops.append(["argkeep", p, r.choice(["f8", "strided", "list", "readonly", "swap"]), self.fin(r)])
                elif k < 0.86:
                    ops.append(["prop", p, r.choice([None, None, 0, 1, 3]), r.randrange(1 << 30), r.randint(1, 4)])
                elif k < 0.90:
                    ops.append(["freep", p] if r.random() < 0.8 else ["with", p])
                elif k < 0.94 and no:
                    ops.append(["observe", r.randrange(no), p, r.randrange(2)])
                elif k < 0.96 and no:
                    ops.append(["restart", r.randrange(no), p])
                elif k < 0.965 and no:
                    ops.append(["folder", r.randrange(no)])
                elif k < 0.975 and no:
                    ops.append(["freeo", r.randrange(no)])
                elif k < 0.98:
                    ops.append(["frees", s])
                elif k < 0.985:
                    ops.append(["drop", "s", s])
                elif k < 0.995:
                    ops.append(["drop", "p", p])
                else:
                    ops.append(["level", r.choice(["", "", "error", "warning", "info", "debug"])])
        return dict(ops=ops)

    def inst(self, r, t):
        """An instance number for the request, mostly one of the suite."""
        n = [int(v) for v in t.split(": ")[1].split(",") if v.isdigit()] if t.startswith("instances") else []
        if n and r.random() < 0.6:
            return r.choice(n)
        return r.choice([1, 1, 2, 3, 5]) if r.random() < 0.9 else r.choice([0, -1, 77])

    def fin(self, r):
        return [v if abs(v) < 1e9 else 1.0 for v in self.x(r)]

    # -------------------------------------------------------------- execution
    def run(self, case):
        d = tempfile.mkdtemp(prefix="c24-")
        here = os.getcwd()
        try:
            os.makedirs(d + "/c")
            os.makedirs(d + "/py")
            os.chdir(d + "/c")
            M = Model(coco.Lib(self.lib))
            plan = []
            for o in case["ops"]:
                try:
                    t = M.op(o)
                except KeyError:
                    raise
                if t is not SKIP:
                    plan.append(t)
            M.finish()
            os.chdir(here)
            res, done, how = pyrun.run(self.pkg, "asan", dict(ops=[p[0] for p in plan]), d + "/py")
            for n, (op, e) in enumerate(plan):
                what = "operation %d %s" % (n, str(op)[:160])
                check(n < len(res), "%s: the interpreter ended (%s), expected %s", what, how, str(e)[:100])
                self.judge(what, op, e, res[n])
            check(done, "after the last operation: the interpreter ended (%s)", how)
            a, b = pyrun.tree(d + "/c"), pyrun.tree(d + "/py/run")
            check(sorted(a) == sorted(b), "files written: Python %s, C %s", sorted(b), sorted(a))
            for f in a:
                if a[f] != b[f]:
                    la, lb = a[f].splitlines(), b[f].splitlines()
                    j = next((j for j in range(min(len(la), len(lb))) if la[j] != lb[j]), min(len(la), len(lb)))
                    raise Violation("%s line %d: Python %r, C %r" % (f, j + 1, lb[j:j + 1], la[j:j + 1]))
            return dict(nontrivial=len(plan) >= 5 and any(p[0][0] in ("call", "con", "rec", "bcall", "bmat", "attr") for p in plan), evals=len(plan),
                        tags=sorted({"op:" + p[0][0] for p in plan} | {"raises" for p in plan if p[1] == EXC} | {"files" for _ in [0] if a} |
                                    {o[2] for o in case["ops"] if o[0] == "suite"}))
        finally:
            os.chdir(here)
            shutil.rmtree(d, ignore_errors=True)

    def judge(self, what, op, e, g):
        if e == ANY:
            return
        if e == EXC:
            check(g[0] == "exc", "%s: returned %s instead of raising an exception", what, str(g[1])[:100])
            return
        if e[0] == "either":       # accepted with the right value, or refused with an exception
            check(g[0] == "exc" and op[1] is not None and op[2] not in ("f8", "list", "lists", "readonly" if op[0] == "bcall" else "f8") or g[0] == "ok" and match(e[1], g[1]),
                  "%s: result %s, expected %s", what, str(g)[:200], str(e[1])[:200])
            return
        check(g[0] == "ok", "%s: raised %s, expected %s", what, g[1:], str(e[1])[:100])
        if e[0] == "prop":
            _, first, n, ini, lo, hi, nc, ni = e
            fl = lambda v: np.array([float.fromhex(t) for t in v])
            ini, lo, hi = fl(ini), fl(lo), fl(hi)
            for j, v in enumerate(g[1]):
                v = fl(v)
                check(len(v) == len(ini), "%s: proposal of size %d", what, len(v))
                if first + j == 0:
                    check(np.array_equal(v, ini), "%s: the first proposal %s is not the initial solution %s", what, v, ini)
                check(np.all(v[:ni] == np.round(v[:ni])) and np.all(v[:ni] >= lo[:ni]) and np.all(v[:ni] <= hi[:ni]), "%s: proposal %s has discrete variables outside their domain", what, v)
                if nc == 0:
                    check(np.all(v >= lo) and np.all(v <= hi), "%s: proposal %s outside the domain", what, v)
                else:
                    check(np.all(np.abs(v - ini)[ni:] <= 1 + 1e-12), "%s: proposal %s farther than 1 from the initial solution", what, v)
            return
        check(match(e[1], g[1]), "%s: result %s, expected %s", what, str(g[1])[:300], str(e[1])[:300])


PROP = C24()
