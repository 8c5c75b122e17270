"""C28: the MATLAB/Octave gateway against the C library: random sequences of interface calls mirrored by C calls."""
import os, random, shutil, struct, tempfile
import numpy as np
import build, coco, matrun, pyrun, suites
from engine import Prop, Violation, check

SKIP = object()
ERR = object()
LEVELS = ["error", "warning", "info", "debug"]
GET = ["Dimension", "NumberOfObjectives", "NumberOfConstraints", "NumberOfIntegerVariables", "Evaluations", "EvaluationsConstraints", "Id", "Name",
       "InitialSolution", "SmallestValuesOfInterest", "LargestValuesOfInterest", "LargestFValuesOfInterest", "BestValue"]


def num(cls, m, n, vals):
    return "=%s %dx%d %s" % (cls, m, n, struct.pack("<%d%s" % (len(vals), {"double": "d", "int32": "i"}[cls]), *vals).hex())


def row(v):
    return num("double", 1, len(v), [float(x) for x in v])


def text(s):
    b = s.encode("utf-8", "surrogateescape")
    return "=char %dx%d %s" % (1 if b else 0, len(b), b.hex())


class Model:
    """Turns operations into calls with the results that the C library gives."""

    def __init__(self, L, d):
        self.L, self.dir = L, d
        self.s, self.o, self.p = {}, {}, {}
        self.level = "info"

    def live(self, k):
        q = self.p.get(k)
        return q if q and q["c"] else None

    def gone(self, k):
        q = self.p.get(k)
        if q and q["c"]:
            q["c"] = None
            for o in q["obs"]:
                if o in self.o:
                    self.o[o]["open"] = None

    def fits(self, sn, on):
        bi = "biobj" in sn
        return on in ("no_observer", "rw", "toy") or bi == ("biobj" in on)

    def op(self, o):
        """(out slot, function, arguments, expected result) or SKIP"""
        k, a = o[0], o[1:]
        L = self.L
        if k == "level":
            old, self.level = self.level, a[0] if a[0] in LEVELS else self.level
            return "", "cocoSetLogLevel", [("s", a[0])], text(old)
        if k == "suite":
            if a[0] in self.s:
                return SKIP
            c = L.suite(*a[1:4])
            n, c2 = 0, L.suite(*a[1:4])
            while c2.next() is not None:
                n += 1
            c2.free()
            self.s[a[0]] = dict(c=c, cur=None, left=n, name=a[1], args=a[1:4])
            return a[0], "cocoSuite", [("s", x) for x in a[1:4]], "=handle int64 1x1 1"
        if k == "observer":
            if a[0] in self.o:
                return SKIP
            c = L.observer(a[1], a[2].replace("@", self.dir + "/c"))
            self.o[a[0]] = dict(c=c, open=None, name=a[1])
            return a[0], "cocoObserver", [("s", a[1]), ("s", a[2].replace("@", self.dir + "/mat"))], "=handle int64 1x1 %d" % bool(c.p)
        if k == "next":
            if a[0] not in self.s or a[1] not in self.o or not self.fits(self.s[a[0]]["name"], self.o[a[1]]["name"]):
                return SKIP
            s, ob = self.s[a[0]], self.o[a[1]]
            if s["left"] < 0 or (ob["open"] is not None and ob["open"] != s["cur"]):
                return SKIP
            slot = "n" + a[0]
            s["left"] -= 1
            c = s["c"].next(ob["c"])
            if c is None:           # the last problem stays open
                s["left"] = -1
                return "none", "cocoSuiteGetNextProblem", [("h", a[0]), ("h", a[1])], "=handle int64 1x1 0"
            self.gone(slot)
            self.p[slot] = dict(c=c, s=a[0], obs=[a[1]] if ob["c"].p else [], owned=True)
            if ob["c"].p:
                ob["open"] = slot
            s["cur"] = slot
            return slot, "cocoSuiteGetNextProblem", [("h", a[0]), ("h", a[1])], "=handle int64 1x1 1"
        if k == "get":
            if a[0] not in self.s or self.live(a[2]):
                return SKIP
            j = a[1] % len(self.s[a[0]]["c"])
            c = self.s[a[0]]["c"].get(j)
            self.p[a[2]] = dict(c=c, s=a[0], obs=[], owned=False)
            arg = ("d", 1, 1, [float(j)]) if a[3] == 0 else ("i", 1, 1, [j]) if a[3] == 1 else ("d", 1, 2, [float(j), 7.0])
            return a[2], "cocoSuiteGetProblem", [("h", a[0]), arg], "=handle int64 1x1 %d" % (c is not None)
        if k == "add":
            q, ob = self.live(a[0]), self.o.get(a[1])
            if q is None or ob is None or ob["open"] is not None or q["owned"] or len(q["obs"]) >= 2 or not ob["c"].p or not self.fits(self.s[q["s"]]["name"], ob["name"]):
                return SKIP
            q["c"].observe(ob["c"])
            q["obs"].append(a[1])
            ob["open"] = a[0]
            return a[0], "cocoProblemAddObserver", [("h", a[0]), ("h", a[1])], "=handle int64 1x1 1"
        if k == "rem":
            q = self.live(a[0])
            if q is None or q["owned"] or not q["obs"]:
                return SKIP
            on = q["obs"].pop()
            q["c"].unobserve(self.o[on]["c"])
            self.o[on]["open"] = None
            return a[0], "cocoProblemRemoveObserver", [("h", a[0]), ("h", on)], "=handle int64 1x1 1"
        if k == "restart":
            q = self.live(a[0])
            if q is None or len(q["obs"]) != 1:
                return SKIP
            self.o[q["obs"][0]]["c"].restart(q["c"])
            return "", "cocoObserverSignalRestart", [("h", q["obs"][0]), ("h", a[0])], "=none"
        if k in ("eval", "con", "rec"):
            q = self.live(a[0])
            if q is None:
                return SKIP
            c = q["c"]
            if (k == "con" and c.nc == 0) or (k == "rec" and (c.m > 1 or len(q["obs"]) > 1)):
                return SKIP
            fn = {"eval": "cocoEvaluateFunction", "con": "cocoEvaluateConstraint", "rec": "cocoRecommendSolution"}[k]
            xs = suites.optimum(L, self.s[q["s"]]["args"], c.index) if a[2] == "opt" and a[1] in ("row", "col") else [1.0] if a[2] == "opt" else a[2]
            v = np.resize(np.asarray([1.0] if xs is None else xs, float), c.d)
            n, form = c.d, a[1]
            good = {"row": ("d", 1, n, list(v)), "col": ("d", n, 1, list(v))}
            if form in good:
                if self.s[q["s"]]["name"] == "bbob-noisy" and k == "eval":
                    return SKIP
                if k == "rec":
                    c.recommend(v)
                    return "", fn, [("h", a[0]), good[form]], "=none"
                return "", fn, [("h", a[0]), good[form]], row(c.f(v) if k == "eval" else c.c(v))
            w = np.where(np.isfinite(v), v, 1.0)
            bad = {"short": ("d", 1, n - 1, list(v[1:])), "long": ("d", n + 1, 1, list(v) + [0.0]), "empty": ("d", 0, 0, []), "emptyrow": ("d", 1, 0, []),
                   "matrix": ("d", 2, n, list(v) * 2), "tall": ("d", n, 2, list(v) * 2), "int32": ("i", 1, n, [int(max(-1e9, min(1e9, x))) for x in w]),
                   "string": ("s", "x" * n), "scalar": ("d", 1, 1, [1.0]), "emptycol": ("d", 0, 1, []), "wide": ("d", 0, n, [])}
            return "", fn, [("h", a[0]), bad[form]], ERR
        if k == "attr":
            q = self.live(a[0])
            if q is None:
                return SKIP
            c, g = q["c"], a[1]
            if (g == "LargestFValuesOfInterest" and c.m == 1) or (g == "BestValue" and c.m > 1):
                return SKIP
            v = {"Dimension": lambda: num("int32", 1, 1, [c.d]), "NumberOfObjectives": lambda: num("int32", 1, 1, [c.m]), "NumberOfConstraints": lambda: num("int32", 1, 1, [c.nc]),
                 "NumberOfIntegerVariables": lambda: num("int32", 1, 1, [c.ni]), "Evaluations": lambda: num("int32", 1, 1, [c.evals]),
                 "EvaluationsConstraints": lambda: num("int32", 1, 1, [c.cevals]), "Id": lambda: text(c.id), "Name": lambda: text(c.name), "InitialSolution": lambda: row(c.initial()),
                 "SmallestValuesOfInterest": lambda: row(c.lower), "LargestValuesOfInterest": lambda: row(c.upper), "LargestFValuesOfInterest": lambda: row(c.nadir),
                 "BestValue": lambda: row([c.best_value])}[g]()
            return "", "cocoProblemGet" + g, [("h", a[0])], v
        if k == "hit":
            q = self.live(a[0])
            return SKIP if q is None else ("", "cocoProblemFinalTargetHit", [("h", a[0])], num("int32", 1, 1, [q["c"].hit]))
        if k == "valid":
            if a[0] == "none":
                return "", "cocoProblemIsValid", [("h", "nosuch")], "=logical 1x1 00"
            return SKIP if self.live(a[0]) is None else ("", "cocoProblemIsValid", [("h", a[0])], "=logical 1x1 01")
        if k == "free":
            q = self.live(a[0])
            if q is None or q["owned"]:
                return SKIP
            q["c"].free()
            self.gone(a[0])
            return "", "cocoProblemFree", [("h", a[0])], "=none"
        if k == "frees":
            if a[0] not in self.s or any(q["c"] and q["s"] == a[0] and not q["owned"] for q in self.p.values()):
                return SKIP
            s = self.s[a[0]]
            if s["cur"] is not None:
                self.gone(s["cur"])
            s["c"].free()
            del self.s[a[0]]
            return "", "cocoSuiteFree", [("h", a[0])], "=none"
        if k == "freeo":
            if a[0] not in self.o or self.o[a[0]]["open"] is not None or not self.o[a[0]]["c"].p:
                return SKIP
            self.o[a[0]]["c"].free()
            del self.o[a[0]]
            return "", "cocoObserverFree", [("h", a[0])], "=none"
        if k == "unknown":          # not a function of the interface: a warning, nothing else
            return "", a[0], [("d", 1, 1, [0.0])], "=none"
        if k == "nargs":            # a wrong number of arguments is refused
            q = self.live(a[0])
            if q is None:
                return SKIP
            fn, n = a[1]
            args = [("h", a[0])] + [("d", 1, q["c"].d, [1.0] * q["c"].d)] * 4
            m = n + a[2] if a[2] > 0 or n > 1 else n + 1
            return "", fn, args[:m], ERR
        raise KeyError(k)

    def ending(self):
        r = [["rem", k] for k in list(self.p) for _ in range(2)] + [["free", k] for k in self.p]
        return r + [["frees", s] for s in list(self.s)] + [["freeo", o] for o in list(self.o)]


NARGS = [["cocoEvaluateFunction", 2], ["cocoEvaluateConstraint", 2], ["cocoRecommendSolution", 2], ["cocoProblemFinalTargetHit", 1], ["cocoProblemIsValid", 1],
         ["cocoProblemFree", 1], ["cocoObserverSignalRestart", 2], ["cocoProblemAddObserver", 2], ["cocoProblemRemoveObserver", 2], ["cocoSuiteGetNextProblem", 2],
         ["cocoSuiteGetProblem", 2], ["cocoSuiteFree", 1], ["cocoObserverFree", 1], ["cocoSuite", 3], ["cocoObserver", 2], ["cocoSetLogLevel", 1]] + \
        [["cocoProblemGet" + g, 1] for g in GET]


class C28(Prop):
    id = "C28"
    rule = "a case is non-trivial when at least five calls were executed, one of them an evaluation or a query of a problem"
    assumptions = ["MATLAB and Octave are not installed: the gateway runs against a stand-in for their C interface with arrays of exact size, under AddressSanitizer; "
                   "the .m files are interpreted where they consist of one call of the gateway",
                   "sequences keep the documented rules: an observer watches one open problem at a time; handles of freed objects are not used"]
    quick_cases = 6000
    thorough_cases = 60000
    chunk = 60
    case_timeout = 120

    def setup(self, tier):
        self.exe = build.matlab_worker()
        self.lib = build.shared_lib("plain")

    def gen(self, r, i, tier):
        ops = [["level", r.choice(["error", "error", "error", "warning", "info"])]]
        names = []
        for k in range(r.choice([1, 1, 2])):
            n = r.choice(suites.NAMES)
            S = suites.SUITES[n]
            inst = "" if n == "toy" else r.choice(["", "instances: 1", "instances: 1-3", "instances: 2,5", "instances: %d" % r.randint(1, 15), "instances: 7,%d" % r.choice([100, 128, 300, 999, 1000])])
            dims = [d for d in S["dims"] if d <= 20] or S["dims"][:1]
            nf = len(S["functions"])
            f = r.randint(1, nf)
            o = ["dimensions: " + ",".join(map(str, sorted(r.sample(dims, r.randint(1, min(2, len(dims))))))),
                 "function_indices: " + r.choice(["%d-%d" % (f, min(nf, f + r.randint(0, 4))), "%d" % f])]
            if r.random() < 0.5:
                o.append("instance_indices: 1")
            r.shuffle(o)
            ops.append(["suite", "s%d" % k, n, inst, " ".join(o)])
            names.append(n)
        no = r.choice([1, 2, 2])
        for k in range(no):
            bi = "biobj" in names[min(k, len(names) - 1)]
            t = "outer_folder: @ result_folder: %s" % r.choice(["exp", "res", "é", "r%d-%s", "x" * r.choice([50, 120, 200]), "100%n"])
            if r.random() < 0.4:
                t += ' algorithm_name: "%s"' % r.choice(["A B", "ALG", "100%s"])
            if r.random() < 0.3:
                t += " number_target_triggers: 5 base_evaluation_triggers: 1,3"
            ops.append(["observer", "o%d" % k, r.choice(["bbob-biobj" if bi else "bbob"] * 4 + ["no_observer", "rw", "toy"]), t])
        P = ["ns0", "ns0", "ns1", "g0", "g0", "g1"]
        for _ in range(r.randint(5, 40)):
            k = r.random()
            s, p, o = "s%d" % r.randrange(len(names)), r.choice(P), "o%d" % r.randrange(no)
            if k < 0.15:
                ops.append(["next", s, o])
            elif k < 0.23:
                ops.append(["get", s, r.randrange(10000), r.choice(["g0", "g1", "g2"]), r.choice([0, 0, 0, 1])])
            elif k < 0.45:
                ops.append([r.choice(["eval", "eval", "eval", "con", "rec"]), p, r.choice(["row", "col"]), self.x(r)])
                if ops[-1][3] == "opt":
                    ops.append(["hit", p])
            elif k < 0.52:
                ops.append([r.choice(["eval", "con", "rec"]), p, r.choice(["short", "long", "empty", "emptyrow", "emptycol", "matrix", "tall", "int32", "string", "scalar", "wide"]),
                            self.x(r)])
            elif k < 0.78:
                ops.append(["attr", p, r.choice(GET)])
            elif k < 0.80:
                ops.append(["hit", p])
            elif k < 0.82:
                ops.append(["valid", r.choice(P + ["none"])])
            elif k < 0.87:
                ops.append(["add", r.choice(["g0", "g1", "g2"]), o])
            elif k < 0.89:
                ops.append(["rem", r.choice(["g0", "g1", "g2"])])
            elif k < 0.92:
                ops.append(["restart", p])
            elif k < 0.94:
                ops.append(["free", r.choice(["g0", "g1", "g2"])])
            elif k < 0.96:
                ops.append(["nargs", p, r.choice(NARGS), r.choice([-1, 1, 2])])
            elif k < 0.98:
                ops.append(["level", r.choice(["error", "warning", "error", "nolevel", "ERROR"])])
            elif k < 0.983:
                ops.append(["unknown", r.choice(["cocoUnknown", "coco%s%n%d", "y" * r.choice([100, 450, 480, 600, 3000]), "cocoEvaluateFunctio", "cocoEvaluateFunctionX"])])
            elif k < 0.987:
                ops.append(["frees", s])
            elif k < 0.99:
                ops.append(["freeo", o])
        return dict(ops=ops, case=r.randrange(1 << 30), how=r.choice(["m", "m", "direct", "case"]))

    def x(self, r):
        if r.random() < 0.1:
            return "opt"
        n = r.choice([1, 2, 3, 7])
        if r.random() < 0.8:
            return [round(r.uniform(-5, 5), r.choice([0, 1, 3, 9])) for _ in range(n)]
        return [r.choice([0.0, -0.0, 1e-9, 1e3, -7.25, 1e30, -1e30, 1e-300, float("inf"), float("nan"), 4.0]) for _ in range(n)]

    def run(self, case):
        d = tempfile.mkdtemp(prefix="c28-")
        here = os.getcwd()
        g = random.Random(case["case"])
        try:
            M = Model(coco.Lib(self.lib), d)
            plan, levels = [], []
            for o in case["ops"]:
                lv = M.level
                t = M.op(o)
                if t is not SKIP:
                    plan.append((o, t))
                    levels.append(lv)
            for o in M.ending():
                t = M.op(o)
                if t is not SKIP:
                    plan.append((o, t))
                    levels.append(M.level)
            calls = []
            for o, (slot, fn, args, e) in plan:
                w = matrun.wrapper(fn) if case["how"] == "m" and o[0] != "nargs" else None
                name, a, out = fn, args, e is ERR or e != "=none"
                if w:
                    name, a, out = w[0], [args[j] for j in w[1] if j < len(args)], w[2]
                elif case["how"] == "case":
                    name = "".join(g.choice([c.lower(), c.upper()]) for c in name)
                calls.append((slot, int(out), name, a))
            res, how = matrun.run(self.exe, calls, d)
            for n, ((o, (slot, fn, args, e)), c) in enumerate(zip(plan, calls)):
                what = "call %d %s%s" % (n, c[2], str(o)[:140])
                check(n < len(res), "%s: the process ended (%s), expected %s", what, how, "an error" if e is ERR else e[:100])
                v, changed, printed = res[n]
                check(not changed, "%s: an argument was modified", what)
                if e is ERR:
                    check(v[0] == "!", "%s: returned %s instead of raising an error", what, v[:100])
                else:
                    check(v == e, "%s: result %s, expected %s", what, v[:200], e[:200])
                lv = levels[n]
                check("\001" not in printed, "%s: prints %r past the interface", what, printed[printed.find("\001"):][:100])
                check(lv != "error" or o[0] == "level" or not printed, "%s: prints %r at verbosity error", what, printed[:100])
                if o[0] == "unknown" and lv != "error":
                    check(o[1].lower()[:60] in printed, "%s: no warning with the name, printed is %r", what, printed[:100])
                if o[0] == "observer" and lv in ("info", "debug") and e.endswith("1"):
                    fo = d + "/mat/" + o[3].split("result_folder: ")[1].split()[0]
                    check(fo in printed.encode("latin1").decode("utf-8", "replace"), "%s: the message %r does not name the folder %s", what, printed[:300], fo)
            check(not how, "after the last call: the process ended (%s)", how)
            a, b = pyrun.tree(d + "/c"), pyrun.tree(d + "/mat")
            check(sorted(a) == sorted(b), "files written: gateway %s, C %s", sorted(b), sorted(a))
            for f in a:
                if a[f] != b[f]:
                    la, lb = a[f].splitlines(), b[f].splitlines()
                    j = next((j for j in range(min(len(la), len(lb))) if la[j] != lb[j]), min(len(la), len(lb)))
                    raise Violation("%s line %d: gateway %r, C %r" % (f, j + 1, lb[j:j + 1], la[j:j + 1]))
            return dict(nontrivial=len(plan) >= 5 and any(p[0][0] in ("eval", "con", "rec", "attr", "hit") for p in plan), evals=len(plan),
                        tags=sorted({"op:" + p[0][0] for p in plan} | {"error" for p in plan if p[1][3] is ERR} | {"files" for _ in [0] if a} | {case["how"]}))
        finally:
            os.chdir(here)
            shutil.rmtree(d, ignore_errors=True)


PROP = C28()
