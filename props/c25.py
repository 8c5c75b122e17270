"""C25: the Java classes against the C library: random sequences of Java calls mirrored by C calls."""
import os, shutil, struct, tempfile
import numpy as np
import build, coco, javarun, pyrun, suites
from engine import Prop, Violation, check

NAMES = [n for n in suites.NAMES]
SKIP = object()
EXC = object()


def hx(v):
    v = float(v)
    return "nan" if v != v else "%x" % struct.unpack("<Q", struct.pack("<d", v))[0]


def arr(v):
    return "null" if v is None else "[" + ",".join(hx(x) for x in v) + "]"


class Model:
    def __init__(self, L):
        self.L = L
        self.s, self.o, self.b, self.p = {}, {}, {}, {}
        self.args = {}

    def all(self, q):
        return "|".join(map(str, [q.id, q.name, q.d, q.m, q.nc, q.ni, q.index, arr(q.lower), arr(q.upper), q.id]))

    def x(self, q, a, kind):
        n = q["c"].d + (0 if kind == "ok" else -1 if kind == "short" else 2 if kind == "long" else 0)
        if kind == "null":
            return "null", None
        if kind == "empty":
            n = 0
        if a == "opt":
            a = suites.optimum(self.L, self.args[q["s"]], q["c"].index) if kind == "ok" else None
            a = [1.0] if a is None else a
        v = np.resize(np.asarray(a, float), n)
        return ",".join("%x" % struct.unpack("<Q", struct.pack("<d", t))[0] for t in v), v if kind == "ok" else None

    def live(self, k):
        q = self.p.get(k)
        return q if q and q["c"] else None

    def gone(self, k):
        q = self.p.get(k)
        if q:
            q["c"] = None
            for o in q["obs"]:
                if o in self.o:
                    self.o[o]["open"] = None

    def op(self, o):
        k, a = o[0], list(o[1:])
        L = self.L
        if k == "level":
            return o, "ok"
        if k == "gc":
            return o, "ok"
        if k == "suite":
            if a[0] in self.s:
                return SKIP
            c = L.suite(*a[1:4])
            self.args[a[0]] = a[1:4]
            if not c.p:
                return o, "none"
            self.s[a[0]] = dict(c=c, cur=None, left=None, name=a[1])
            n = 0
            c2 = L.suite(*a[1:4])
            while c2.next() is not None:
                n += 1
            c2.free()
            self.s[a[0]]["left"] = n
            return o, "%d|%s|%s" % (len(c), a[1], a[1])
        if k == "observer":
            if a[0] in self.o:
                return SKIP
            c = L.observer(a[1], a[2].replace("@", os.getcwd() + "/c"))
            self.o[a[0]] = dict(c=c, open=None, name=a[1])
            return [k, a[0], a[1], a[2].replace("@", os.getcwd() + "/java")], "%s|%s|%s" % ("false" if c.p else "true", a[1], a[1])
        if k == "bench":
            if a[0] in self.b or a[1] not in self.s or a[2] not in self.o:
                return SKIP
            if ("biobj" in self.s[a[1]]["name"]) != ("biobj" in self.o[a[2]]["name"]) and self.o[a[2]]["name"] not in ("no_observer", "rw", "toy"):
                return SKIP
            self.b[a[0]] = (a[1], a[2])
            return o, "ok"
        if k == "next":
            if a[0] not in self.b:
                return SKIP
            sn, on = self.b[a[0]]
            if sn not in self.s or on not in self.o:
                return SKIP
            s, ob = self.s[sn], self.o[on]
            if s["left"] < 0 or (ob["open"] is not None and ob["open"] != s["cur"]) or (a[1] in self.p and self.p[a[1]]["c"] and s["cur"] != a[1]):
                return SKIP
            s["left"] -= 1
            c = s["c"].next(ob["c"])
            if c is None:      # the last problem stays open
                s["left"] = -1
                return o, "null"
            if s["cur"] is not None:
                self.gone(s["cur"])
            self.p.pop(a[1], None)
            self.p[a[1]] = dict(c=c, s=sn, obs=[on] if ob["c"].p else [], owned=True)
            if ob["c"].p:
                ob["open"] = a[1]
            s["cur"] = a[1]
            return o, self.all(c)
        if k in ("fdi", "get"):
            slot = a[-1]
            if a[0] not in self.s or self.live(slot):
                return SKIP
            s = self.s[a[0]]
            if k == "get":
                n = len(s["c"])
                a[1] = a[1] % n
                c = s["c"].get(a[1])
            else:
                c = s["c"].by(*a[1:4])
            self.p[slot] = dict(c=c, s=a[0], obs=[], owned=False)
            return [k] + a, "null" if c is None else self.all(c)
        if k == "add":
            q, ob = self.live(a[0]), self.o.get(a[1])
            if q is None or ob is None or ob["open"] is not None or q["owned"] or q["obs"] or not ob["c"].p or q["s"] not in self.s:
                return SKIP
            if ("biobj" in self.s[q["s"]]["name"]) != ("biobj" in ob["name"]) and ob["name"] not in ("no_observer", "rw", "toy"):
                return SKIP
            q["c"].observe(ob["c"])
            q["obs"].append(a[1])
            ob["open"] = a[0]
            return o, self.all(q["c"])
        if k == "rem":
            q, ob = self.live(a[0]), self.o.get(a[1])
            if q is None or ob is None or q["owned"] or q["obs"] != [a[1]]:
                return SKIP
            q["c"].unobserve(ob["c"])
            q["obs"] = []
            ob["open"] = None
            return o, self.all(q["c"])
        if k == "restart":
            q, ob = self.live(a[1]), self.o.get(a[0])
            if q is None or ob is None or q["obs"] != [a[0]]:
                return SKIP
            ob["c"].restart(q["c"])
            return o, "ok"
        if k in ("eval", "con", "rec"):
            q = self.live(a[0])
            if q is None or (q["s"] in self.s and self.s[q["s"]]["name"] == "bbob-noisy" and a[1] == "ok"):
                return SKIP
            c = q["c"]
            if (k == "con" and c.nc == 0) or (k == "rec" and c.m > 1):
                return SKIP
            t, v = self.x(q, a[2], a[1])
            if v is None:
                return [k, a[0], t], EXC
            if k == "rec":
                c.recommend(v)
                return [k, a[0], t], "ok"
            return [k, a[0], t], arr(c.f(v) if k == "eval" else c.c(v)) + "|true"
        if k in ("count", "hit", "nadir", "info", "bound"):
            q = self.live(a[0])
            if q is None:
                return SKIP
            c = q["c"]
            if k == "count":
                return o, "%d|%d" % (c.evals, c.cevals)
            if k == "hit":
                return (o, "true" if c.hit else "false") if c.m == 1 else SKIP
            if k == "nadir":
                return o, arr(c.nadir) if c.m > 1 else "null"
            if k == "info":
                return o, self.all(c)
            j = a[1] % c.d
            return ["bound", a[0], j], arr([c.lower[j], c.upper[j]])
        if k in ("freeb", "freeo", "frees"):
            if k == "freeb":
                if a[0] not in self.b:
                    return SKIP
                sn, on = self.b[a[0]]
            else:
                sn, on = (a[0] if k == "frees" else None), (a[0] if k == "freeo" else None)
            if (sn is not None and sn not in self.s) or (on is not None and on not in self.o):
                return SKIP
            if on is not None and self.o[on]["open"] is not None:
                # only the pair of suite and observer may be closed with a problem open
                q = self.p[self.o[on]["open"]]
                if k == "freeo" or not q["owned"] or q["s"] != sn:
                    return SKIP
            if sn is not None and any(q["c"] and q["s"] == sn and (not q["owned"]) and q["obs"] for q in self.p.values()):
                return SKIP
            if on is not None:
                if self.o[on]["c"].p:
                    self.o[on]["c"].free()
            if sn is not None:
                self.s[sn]["c"].free()
                if self.s[sn]["cur"] is not None:
                    self.gone(self.s[sn]["cur"])
                del self.s[sn]
            if on is not None:
                del self.o[on]
            return o, "ok"
        raise KeyError(k)

    def ending(self, order):
        """Operations that close what is open."""
        r = []
        for k, q in self.p.items():
            if q["c"] and not q["owned"] and q["obs"]:
                r.append(["rem", k, q["obs"][0]])
        if order % 2 == 0:
            r += [["freeb", b] for b in self.b]
        if order % 4 < 2:
            r += [["frees", s] for s in self.s]
            r += [["freeo", x] for x in self.o]
        else:
            r += [["freeo", x] for x in self.o] + [["frees", s] for s in self.s] + [["freeo", x] for x in self.o]
        return r

    def drop(self):
        for q in self.p.values():
            if q["c"] and not q["owned"]:
                q["c"].free()


class C25(Prop):
    id = "C25"
    rule = "a case is non-trivial when Java executed at least five operations of the sequence, one of them on a problem"
    assumptions = ["the C library itself is judged by the other properties; here it is the reference (same sources, different build)",
                   "sequences keep the documented rules: an observer watches one open problem at a time; problems of a closed suite are not used"]
    quick_cases = 12000
    thorough_cases = 50000
    chunk = 80
    case_timeout = 120

    def setup(self, tier):
        self.cls = build.java_classes("asan")
        self.lib = build.shared_lib("plain")

    def gen(self, rng, i, tier):
        r = rng
        ops = [["level", "error"]]
        su = []
        for k in range(r.choice([1, 1, 2])):
            n = r.choice(NAMES)
            S = suites.SUITES[n]
            inst = r.choice(["", "instances: 1", "instances: 1-3", "instances: 2,5", "instances: %d" % r.randint(1, 15), "instances: 7,%d" % r.choice([100, 128, 129, 300, 999, 1000, 4321]), "year: 2009"])
            if n == "toy":
                inst = ""
            if n == "bbob-boxed" and inst.startswith("year"):
                inst = "year: 2023"
            dims = [d for d in S["dims"] if d <= 20] or S["dims"][:1]
            nf = len(S["functions"])
            f = r.randint(1, nf)
            o = ["dimensions: " + ",".join(map(str, sorted(r.sample(dims, r.randint(1, min(2, len(dims))))))),
                 "function_indices: " + r.choice(["%d-%d" % (f, min(nf, f + r.randint(0, 4))), "%d" % f])]
            if r.random() < 0.3:
                o.append("instance_indices: 1")
            r.shuffle(o)
            ops.append(["suite", "s%d" % k, n, inst, " ".join(o)])
            su.append((n, S, o, inst))
        no = r.choice([1, 1, 2])
        for k in range(no):
            bi = "biobj" in su[min(k, len(su) - 1)][0]
            name = r.choice(["bbob-biobj" if bi else "bbob"] * 4 + ["no_observer", "rw", "toy"])
            t = "outer_folder: @ result_folder: %s" % r.choice(["exp", "res", "é"])
            if r.random() < 0.4:
                t += ' algorithm_name: "%s"' % r.choice(["A B", "ALG", "ü-opt"])
            if r.random() < 0.3:
                t += " number_target_triggers: 5 base_evaluation_triggers: 1,3"
            if r.random() < 0.3:
                t += " precision_x: 4"
            ops.append(["observer", "o%d" % k, name, t])
        for k in range(r.choice([1, 1, 2])):
            ops.append(["bench", "b%d" % k, "s%d" % (k % len(su)), "o%d" % (k % no)])
        for _ in range(r.randint(5, 40)):
            k = r.random()
            b = "b%d" % r.randrange(2)
            s = r.randrange(len(su))
            P = ["n0", "n1", "g0", "g1", "g2"]
            p = r.choice(["n0", "n0", "n0", "n1", "g0", "g0", "g1"])
            if k < 0.16:
                ops.append(["next", b, "n" + b[1]])
            elif k < 0.22:
                ops.append(["get", "s%d" % s, r.randrange(10000), r.choice(["g0", "g1", "g2"])])
            elif k < 0.30:
                ds = su[s][2]
                dm = next(x for x in ds if x.startswith("dim")).split(": ")[1].split(",")
                ops.append(["fdi", "s%d" % s, r.choice(su[s][1]["functions"]) if r.random() < 0.9 else 999, int(r.choice(dm)) if r.random() < 0.9 else 7,
                            int(su[s][3].split(",")[1]) if "7," in su[s][3] and r.random() < 0.7 else r.choice([1, 1, 2, 3, 5]), r.choice(["g0", "g1", "g2"])])
            elif k < 0.60:
                ops.append(["eval", p, "ok" if r.random() < 0.92 else r.choice(["short", "long", "empty", "null"]), self.x(r)])
                if ops[-1][3] == "opt":
                    ops.append(["hit", p])
            elif k < 0.68:
                ops.append(["con", p, "ok" if r.random() < 0.9 else r.choice(["short", "long", "empty", "null"]), self.x(r)])
            elif k < 0.72:
                ops.append(["rec", p, "ok" if r.random() < 0.9 else r.choice(["short", "long"]), self.x(r)])
            elif k < 0.80:
                ops.append(["count", p])
            elif k < 0.86:
                ops.append([r.choice(["hit", "nadir", "info"]), p])
            elif k < 0.88:
                ops.append(["bound", p, r.randrange(100)])
            elif k < 0.92:
                ops.append(["add", r.choice(["g0", "g1", "g2"]), "o%d" % r.randrange(no)])
            elif k < 0.94:
                ops.append(["rem", r.choice(["g0", "g1", "g2"]), "o%d" % r.randrange(no)])
            elif k < 0.97:
                ops.append(["restart", "o%d" % r.randrange(no), p])
            elif k < 0.975:
                ops.append(["gc"])
            elif k < 0.98:
                ops.append([r.choice(["freeb"]), b])
        return dict(ops=ops, order=r.randrange(4))

    def x(self, r):
        if r.random() < 0.1:
            return "opt"
        n = r.choice([1, 2, 3, 7])
        if r.random() < 0.8:
            return [round(r.uniform(-5, 5), r.choice([0, 1, 3, 9])) for _ in range(n)]
        return [r.choice([0.0, -0.0, 1e-9, 1e3, -7.25, 1e30, -1e30, 1e-300, float("inf"), float("nan"), 4.0]) for _ in range(n)]

    def run(self, case):
        d = tempfile.mkdtemp(prefix="c25-")
        here = os.getcwd()
        try:
            os.chdir(d)
            M = Model(coco.Lib(self.lib))
            plan = []
            for o in case["ops"]:
                t = M.op(o)
                if t is not SKIP:
                    plan.append(t)
            for o in M.ending(case["order"]):
                t = M.op(o)
                if t is not SKIP:
                    plan.append(t)
            M.drop()
            os.chdir(here)
            res, how = javarun.run(self.cls, "asan", [p[0] for p in plan])
            for n, (op, e) in enumerate(plan):
                what = "operation %d %s" % (n, str(op)[:160])
                check(n < len(res), "%s: the virtual machine ended (%s), expected %s", what, how, "an exception" if e is EXC else e[:100])
                if e is EXC:
                    check(res[n][0] == "!", "%s: returned %s instead of throwing an exception", what, res[n][:100])
                else:
                    check(res[n] == "=" + e, "%s: result %s, expected %s", what, res[n][:300], e[:300])
            check(not how, "after the last operation: the virtual machine ended (%s)", how)
            a, b = pyrun.tree(d + "/c"), pyrun.tree(d + "/java")
            check(sorted(a) == sorted(b), "files written: Java %s, C %s", sorted(b), sorted(a))
            for f in a:
                if a[f] != b[f]:
                    la, lb = a[f].splitlines(), b[f].splitlines()
                    j = next((j for j in range(min(len(la), len(lb))) if la[j] != lb[j]), min(len(la), len(lb)))
                    raise Violation("%s line %d: Java %r, C %r" % (f, j + 1, lb[j:j + 1], la[j:j + 1]))
            return dict(nontrivial=len(plan) >= 5 and any(p[0][0] in ("eval", "con", "rec", "count") for p in plan), evals=len(plan),
                        tags=sorted({"op:" + p[0][0] for p in plan} | {"throws" for p in plan if p[1] is EXC} | {"files" for _ in [0] if a} |
                                    {o[2] for o in case["ops"] if o[0] == "suite"}))
        finally:
            os.chdir(here)
            shutil.rmtree(d, ignore_errors=True)


PROP = C25()
