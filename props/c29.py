"""C29: the Rust crate against the C library: random sequences of calls of its types mirrored by C calls."""
import ctypes, os, shutil, struct, tempfile
import numpy as np
import build, coco, pyrun, rustrun, suites
from engine import Prop, Violation, check

SKIP = object()
PANIC = object()
SUITE = {"Bbob": "bbob", "BbobBiobj": "bbob-biobj", "BbobBiobjExt": "bbob-biobj-ext", "BbobLargescale": "bbob-largescale", "BbobConstrained": "bbob-constrained",
         "BbobMixint": "bbob-mixint", "BbobBiobjMixint": "bbob-biobj-mixint", "SboxCost": "bbob-boxed", "Toy": "toy"}
OBS = {"Bbob": "bbob", "BbobBiobj": "bbob-biobj", "Toy": "toy", "None": "no_observer"}


def hx(v):
    v = float(v)
    return "nan" if v != v else "%x" % struct.unpack("<Q", struct.pack("<d", v))[0]


def arr(v):
    return "[" + ",".join(hx(x) for x in v) + "]"


def enc(v):
    return ",".join("%x" % struct.unpack("<Q", struct.pack("<d", float(t)))[0] for t in v)


class Model:
    """Turns operations into lines for the worker with the results the C library gives; an operation that breaks a rule of the language or interface is skipped."""

    def __init__(self, L, d):
        self.L, self.dir = L, d
        self.s, self.o, self.p, self.r = {}, {}, {}, {}
        for n, a, r in (("coco_random_new", [ctypes.c_uint32], ctypes.c_void_p), ("coco_random_uniform", [ctypes.c_void_p], ctypes.c_double),
                        ("coco_random_normal", [ctypes.c_void_p], ctypes.c_double), ("coco_random_free", [ctypes.c_void_p], None),
                        ("coco_problem_get_final_target_fvalue1", [ctypes.c_void_p], ctypes.c_double)):
            f = getattr(L.l, n)
            f.argtypes, f.restype = a, r

    def all(self, c):
        return "|".join([c.id, c.name, c.type] + [str(x) for x in (c.d, c.m, c.nc, c.ni, c.index)] + [arr(c.lower), arr(c.upper), arr(c.initial())])

    def live(self, k):
        return self.p.get(k)

    def busy(self, s):
        return any(q["s"] == s for q in self.p.values())

    def fits(self, sn, on):
        return on in ("no_observer", "toy") or ("biobj" in sn) == ("biobj" in on)

    def dims(self, S, w):
        """The indices of functions, dimensions or instances of the suite."""
        r, k = set(), {"function": 0, "dimension": 1, "instance": 2}[w]
        z = [ctypes.c_size_t() for _ in range(3)]
        f = self.L.l.coco_suite_decode_problem_index
        f.argtypes, f.restype = [ctypes.c_void_p, ctypes.c_size_t] + [ctypes.c_void_p] * 3, None
        for i in range(len(S["c"])):
            f(S["c"].p, i, *[ctypes.addressof(t) for t in z])
            r.add(z[k].value)
        return r

    def close(self, k):
        q = self.p.pop(k)
        q["c"].free()
        for o in q["obs"]:
            self.o[o]["open"] = None

    def op(self, o):
        k, a = o[0], list(o[1:])
        L = self.L
        if k in ("level", "version"):
            return o, "ok" if k == "level" else build.version_text().split('"')[1]
        if k == "suite":
            if a[0] in self.s:
                return SKIP
            args = (SUITE[a[1]], a[2], a[3])
            self.s[a[0]] = dict(c=L.suite(*args), it=L.suite(*args), args=args, left=True, cur=None)
            return o, str(len(self.s[a[0]]["c"]))
        if k == "clone":
            if a[0] not in self.s or a[1] in self.s or self.busy(a[0]):
                return SKIP
            args = self.s[a[0]]["args"]
            self.s[a[1]] = dict(c=L.suite(*args), it=L.suite(*args), args=args, left=True, cur=None)
            return o, str(len(self.s[a[1]]["c"]))
        if k == "observer":
            if a[0] in self.o:
                return SKIP
            c = L.observer(OBS[a[1]], a[2].replace("@", self.dir + "/c"))
            line = [k, a[0], a[1], a[2].replace("@", self.dir + "/rust")]
            if not c.p:
                return line, "none"
            self.o[a[0]] = dict(c=c, open=None, name=OBS[a[1]])
            return line, c.folder.replace(self.dir + "/c", self.dir + "/rust")
        if k == "index":
            if a[0] not in self.s or self.busy(a[0]):
                return SKIP
            S = self.s[a[0]]
            w = {"f": "function", "d": "dimension", "i": "instance"}[a[1]]
            n = getattr(L.l, "coco_suite_get_%s_from_%s_index" % (w, w))
            n.argtypes, n.restype = [ctypes.c_void_p, ctypes.c_size_t], ctypes.c_size_t
            j = a[2] % len(self.dims(S, w))
            return [k, a[0], a[1], j], str(n(S["c"].p, j))
        if k == "next":
            s, slot = self.s.get(a[0]), a[2]
            if s is None or not s["left"]:
                return SKIP
            if slot in self.p and self.p[slot]["s"] == a[0]:
                self.close(slot)            # the worker drops what is in the slot first
            if self.busy(a[0]) or slot in self.p:
                return SKIP
            ob = self.o.get(a[1])
            if ob is not None and (ob["open"] is not None or not self.fits(s["args"][0], ob["name"])):
                ob = None
            line = [k, a[0], a[1] if ob else "-", slot]
            i = s["it"].next()
            if i is None:
                s["left"] = False
                return line, "none"
            c = s["c"].get(i.index)
            if ob:
                c.observe(ob["c"])
                ob["open"] = slot
            self.p[slot] = dict(c=c, s=a[0], obs=[a[1]] if ob else [])
            return line, self.all(c)
        if k in ("get", "fdi"):
            s, slot = self.s.get(a[0]), a[-1]
            if s is None:
                return SKIP
            if slot in self.p and self.p[slot]["s"] == a[0]:
                self.close(slot)
            if self.busy(a[0]) or slot in self.p:
                return SKIP
            if k == "get":
                a[1] %= len(s["c"])
                c = s["c"].get(a[1])
            else:
                c = s["c"].by(*a[1:4])
            if c is None:
                return [k] + a, "none"
            self.p[slot] = dict(c=c, s=a[0], obs=[])
            return [k] + a, self.all(c)
        if k == "add":
            q, ob = self.live(a[0]), self.o.get(a[1])
            if q is None or ob is None or ob["open"] is not None or len(q["obs"]) > 1 or not self.fits(self.s[q["s"]]["args"][0], ob["name"]):
                return SKIP
            q["c"].observe(ob["c"])
            q["obs"].append(a[1])
            ob["open"] = a[0]
            return o, self.all(q["c"])
        if k == "rem":
            q = self.live(a[0])
            if q is None or not q["obs"]:
                return SKIP
            on = q["obs"].pop()
            q["c"].unobserve(self.o[on]["c"])
            self.o[on]["open"] = None
            return [k, a[0], on], self.all(q["c"])
        if k == "restart":
            q = self.live(a[0])
            if q is None or len(q["obs"]) != 1:
                return SKIP
            self.o[q["obs"][0]]["c"].restart(q["c"])
            return [k, q["obs"][0], a[0]], "ok"
        if k in ("eval", "con"):
            q = self.live(a[0])
            if q is None:
                return SKIP
            c = q["c"]
            if k == "con" and c.nc == 0:
                return SKIP
            dx, dy = a[2], a[3]
            ny = c.m if k == "eval" else c.nc
            if dx == 0 and dy == 0:
                x = suites.optimum(L, self.s[q["s"]]["args"], c.index) if a[1] == "opt" else None
                if x is None:
                    x = np.resize(np.asarray([1.0] if a[1] == "opt" else a[1], float), c.d)
                return [k, a[0], enc(x), ny], arr(c.f(x) if k == "eval" else c.c(x))
            x = np.resize(np.asarray([1.0] if a[1] == "opt" else a[1], float), max(0, c.d + dx))
            if ny + dy < 0:
                dy = 1
            return [k, a[0], enc(x), ny + dy], PANIC
        if k == "init":
            q = self.live(a[0])
            if q is None:
                return SKIP
            n = q["c"].d + a[1]
            return [k, a[0], n], arr(q["c"].initial()) if a[1] == 0 else PANIC
        if k == "state":
            q = self.live(a[0])
            if q is None:
                return SKIP
            c = q["c"]
            return o, "%d|%d|%s|%s" % (c.evals, c.cevals, "true" if c.hit else "false", hx(c.best1))
        if k == "target":
            q = self.live(a[0])
            if q is None or q["c"].m > 1:
                return SKIP
            return o, "%s|%s" % (hx(q["c"].best_value), hx(L.l.coco_problem_get_final_target_fvalue1(q["c"].p)))
        if k == "info":
            return SKIP if self.live(a[0]) is None else (o, self.all(self.p[a[0]]["c"]))
        if k == "random":
            if a[0] in self.r:
                L.l.coco_random_free(self.r[a[0]])
            self.r[a[0]] = L.l.coco_random_new(a[1])
            return o, "ok"
        if k == "draw":
            if a[0] not in self.r:
                return SKIP
            return o, arr([(L.l.coco_random_uniform if t == "u" else L.l.coco_random_normal)(self.r[a[0]]) for t in a[1]])
        if k == "drop":
            if a[0][0] == "p":
                if a[0] not in self.p:
                    return SKIP
                self.close(a[0])
            elif a[0][0] == "s":
                if a[0] not in self.s or self.busy(a[0]):
                    return SKIP
                s = self.s.pop(a[0])
                s["c"].free()
                s["it"].free()
            elif a[0][0] == "o":
                if a[0] not in self.o or self.o[a[0]]["open"] is not None:
                    return SKIP
                self.o.pop(a[0])["c"].free()
            else:
                if a[0] not in self.r:
                    return SKIP
                L.l.coco_random_free(self.r.pop(a[0]))
            return o, "ok"
        raise KeyError(k)

    def ending(self):
        return [["drop", k] for k in list(self.p) + list(self.s) + list(self.o) + list(self.r)]


class C29(Prop):
    id = "C29"
    rule = "a case is non-trivial when the crate executed at least five operations of the sequence, one of them an evaluation, a query of a problem or a random draw"
    assumptions = ["cargo's bindgen step cannot run offline: the declarations of the C functions come from a translation of wrapper.h that the check makes itself",
                   "sequences keep Rust's borrow rules (one open problem per suite, no use of the suite meanwhile) and the documented rule that an observer watches one open problem and outlives it"]
    quick_cases = 6000
    thorough_cases = 80000
    chunk = 60
    case_timeout = 120

    def setup(self, tier):
        self.exe = build.rust_worker()
        self.lib = build.shared_lib("plain")

    def gen(self, r, i, tier):
        ops = [["level", r.choice(["error", "error", "error", "warning"])]]
        su = []
        for k in range(r.choice([1, 1, 2])):
            n = r.choice(list(SUITE))
            S = suites.SUITES[SUITE[n]]
            inst = "" if n == "Toy" else r.choice(["", "instances: 1", "instances: 1-3", "instances: 2,5", "instances: %d" % r.randint(1, 15), "instances: 7,%d" % r.randint(100, 1100)])
            dims = [d for d in S["dims"] if d <= 20] or S["dims"][:1]
            nf = len(S["functions"])
            f = r.randint(1, nf)
            dm = sorted(r.sample(dims, r.randint(1, min(2, len(dims)))))
            o = ["dimensions: " + ",".join(map(str, dm)), "function_indices: " + r.choice(["%d-%d" % (f, min(nf, f + r.randint(0, 4))), "%d" % f])]
            if r.random() < 0.3:
                o.append("instance_indices: 1")
            r.shuffle(o)
            ops.append(["suite", "s%d" % k, n, inst, " ".join(o)])
            su.append((n, S, dm, inst))
        no = r.choice([1, 2, 2])
        for k in range(no):
            bi = "Biobj" in su[min(k, len(su) - 1)][0]
            t = "outer_folder: @ result_folder: %s" % r.choice(["exp", "res", "é", "x" * r.choice([50, 200])])
            if r.random() < 0.4:
                t += ' algorithm_name: "%s"' % r.choice(["A B", "ALG", "ü%s"])
            if r.random() < 0.3:
                t += " number_target_triggers: 5 base_evaluation_triggers: 1,3"
            ops.append(["observer", "o%d" % k, r.choice(["BbobBiobj" if bi else "Bbob"] * 4 + ["None", "Toy"]), t])
        P = ["p0", "p0", "p1", "p2"]
        ns = len(su)
        for _ in range(r.randint(5, 40)):
            k = r.random()
            j = r.randrange(ns)
            s, p, o = "s%d" % j, r.choice(P), "o%d" % r.randrange(no)
            if k < 0.16:
                ops.append(["next", s, r.choice([o, o, "-"]), "p%d" % j])
            elif k < 0.22:
                ops.append(["get", s, r.randrange(100000), "p%d" % j])
            elif k < 0.29:
                ins = [int(t) for t in su[j][3].split(": ")[1].split(",") if t.isdigit()] if ": " in su[j][3] else []
                ops.append(["fdi", s, r.choice(su[j][1]["functions"]) if r.random() < 0.9 else 999, r.choice(su[j][2]) if r.random() < 0.9 else 7,
                            r.choice(ins) if ins and r.random() < 0.7 else r.choice([1, 1, 2, 3, 5, 300]), "p%d" % j])
            elif k < 0.52:
                ops.append([r.choice(["eval", "eval", "eval", "con"]), p, self.x(r), 0, 0])
                if ops[-1][2] == "opt":
                    ops.append(["state", p])
            elif k < 0.57:
                dx, dy = r.choice([(-1, 0), (1, 0), (0, 1), (0, -1), (-1, 1), (-99, 0), (5, -1), (1, 1)])
                ops.append([r.choice(["eval", "con"]), p, self.x(r), dx, dy])
                ops.append(["state", p])
            elif k < 0.60:
                ops.append(["init", p, r.choice([0, 0, 0, 1, -1])])
            elif k < 0.70:
                ops.append(["state", p])
            elif k < 0.75:
                ops.append([r.choice(["target", "info"]), p])
            elif k < 0.80:
                ops.append(["add", p, o])
            elif k < 0.83:
                ops.append(["rem", p])
            elif k < 0.86:
                ops.append(["restart", p])
            elif k < 0.90:
                ops.append(["drop", r.choice([p, p, p, s, o, "r0"])])
            elif k < 0.92:
                ops.append(["index", s, r.choice("fdi"), r.randrange(10000)])
            elif k < 0.93:
                ops.append(["clone", s, "s%d" % ns])
                su.append(su[j])
                ns += 1
                P += ["p%d" % (ns - 1)]
            elif k < 0.94:
                ops.append([r.choice(["level", "version"]), "error"])
            elif k < 0.96:
                ops.append(["random", r.choice(["r0", "r1"]), r.choice([r.randrange(1 << 32), r.randrange(100), (1 << 32) - 1])])
            else:
                ops.append(["draw", r.choice(["r0", "r1"]), "".join(r.choice("un") for _ in range(r.randint(1, 30)))])
        return dict(ops=ops)

    def x(self, r):
        if r.random() < 0.1:
            return "opt"
        n = r.choice([1, 2, 3, 7])
        if r.random() < 0.8:
            return [round(r.uniform(-5, 5), r.choice([0, 1, 3, 9])) for _ in range(n)]
        return [r.choice([0.0, -0.0, 1e-9, 1e3, -7.25, 1e30, -1e30, 1e-300, float("inf"), float("nan"), 4.0]) for _ in range(n)]

    def run(self, case):
        d = tempfile.mkdtemp(prefix="c29-")
        try:
            M = Model(coco.Lib(self.lib), d)
            plan = []
            for o in case["ops"]:
                t = M.op(o)
                if t is not SKIP:
                    plan.append(t)
            for o in M.ending():
                t = M.op(o)
                if t is not SKIP:
                    plan.append(t)
            res, how = rustrun.run(self.exe, [t[0] for t in plan], d)
            for n, (o, e) in enumerate(plan):
                what = "operation %d %s" % (n, str(o)[:140])
                check(n < len(res), "%s: the process ended (%s), expected %s", what, how, "a panic" if e is PANIC else e[:100])
                if e is PANIC:
                    check(res[n] == "!", "%s: returned %s instead of refusing the length", what, res[n][:100])
                else:
                    check(res[n] == "=" + e, "%s: result %s, expected =%s", what, res[n][:300], e[:300])
            check(not how, "after the last operation: the process ended (%s)", how)
            a, b = pyrun.tree(d + "/c"), pyrun.tree(d + "/rust")
            check(sorted(a) == sorted(b), "files written: Rust %s, C %s", sorted(b), sorted(a))
            for f in a:
                if a[f] != b[f]:
                    la, lb = a[f].splitlines(), b[f].splitlines()
                    j = next((j for j in range(min(len(la), len(lb))) if la[j] != lb[j]), min(len(la), len(lb)))
                    raise Violation("%s line %d: Rust %r, C %r" % (f, j + 1, lb[j:j + 1], la[j:j + 1]))
            k = [p[0][0] for p in plan]
            return dict(nontrivial=len(plan) >= 5 and any(x in ("eval", "con", "state", "target", "info", "draw") for x in k), evals=len(plan),
                        tags=sorted({"op:" + x for x in k} | {"panic" for p in plan if p[1] is PANIC} | {"files" for _ in [0] if a} |
                                    {"suite:" + p[0][2] for p in plan if p[0][0] == "suite"}))
        finally:
            shutil.rmtree(d, ignore_errors=True)


PROP = C29()
