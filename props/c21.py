"""C21: random legal sequences of API calls under address/undefined, memory and allocation-counting instrumentation."""
import os, shutil, subprocess
import bboblog, biobjlog, build, suites
from engine import Prop, Violation, check

BBOB = ["bbob", "bbob-boxed", "bbob-largescale", "bbob-noisy", "bbob-mixint", "bbob-constrained", "bbob-constrained-active-only", "bbob-old"]
BIOBJ = biobjlog.NAMES
MODES = ["asan", "msan", "leak"]


def legal(obs, two):
    return obs == "rw" or (obs in BIOBJ) == two and (obs != "toy" or not two)


class Gen:
    """Generates a legal script."""

    def __init__(self, rng):
        self.r, self.out = rng, []
        self.S, self.O, self.P, self.A = {}, {}, {}, {}
        self.k = 0

    def put(self, *f):
        self.out.append("\t".join(map(str, f)))

    def free_slot(self, d):
        s = [i for i in range(16) if i not in d]
        return self.r.choice(s) if s else None

    def suite(self):
        r, s = self.r, self.free_slot(self.S)
        if s is None or len(self.S) >= 4:
            return
        name = r.choice(suites.NAMES)
        C = suites.SUITES[name]
        small = [d for d in C["dims"] if d <= 40]
        dims = sorted(r.sample(small, min(len(small), r.choice([1, 1, 2, 3]))))
        inst = sorted(r.sample(range(1, 16), r.choice([1, 1, 2, 5])))
        big = [d for d in C["dims"] if d > 40]
        if r.random() < 0.06 and big:
            dims = [r.choice(big)]
        if r.random() < 0.1 and "biobj" not in name:
            inst = sorted(set(inst) | {r.choice([r.randint(16, 200), r.randint(16, 99999)])})
        ins = "instances: " + ",".join(map(str, inst))
        opt = "dimensions: " + ",".join(map(str, dims))
        fun = C["functions"]
        if r.random() < 0.3:
            if r.random() < 0.5:
                fun = sorted(r.sample(fun, min(len(fun), r.randint(1, 5))))
                opt += " function_indices: " + ",".join(str(C["functions"].index(f) + 1) for f in fun)
        elif "biobj" in name and r.random() < 0.2:
            inst = sorted({r.randint(16, 40) for _ in range(r.choice([1, 1, 2, 3]))} | set(r.sample(range(1, 16), r.choice([0, 0, 1, 2]))))
            dims = [C["dims"][0]]
            ins, opt = "instances: " + ",".join(map(str, inst)), "dimensions: %d" % dims[0]
        elif r.random() < 0.2 and name not in ("toy",):
            y = r.choice([2009, 2012, 2016, 2018, 2023])
            Y = C["year"](y)
            if Y:
                inst, ins = Y, "year: %d" % y
        if r.random() < 0.08 and len(dims) == 1 and max(inst) <= 15:
            opt = ""
            dims = C["dims"]
            if r.random() < 0.5:
                ins, inst = "", C["default"]
        if r.random() < 0.1:
            ins, opt = (ins, opt) if r.random() < 0.5 else (ins + " unknown_key: 3", opt)
        n = len(fun) * len(dims) * len(inst)
        self.S[s] = dict(name=name, fun=fun, dims=[d for d in dims if d <= 40] or dims, inst=inst, cur=None, left=n, total=n)
        self.put("S", s, name, ins, opt)

    def options(self, name):
        r = self.r
        if name in BIOBJ:
            o = biobjlog.gen_options(r)
        elif name == "rw":
            o = dict(log_variables=r.choice(["all", "none", "low_dim"]), log_constraints=r.choice(["all", "none", "low_dim"]), log_only_better=r.choice([0, 1]),
                     log_time=r.choice([0, 1]), log_discrete_as_int=r.choice([0, 1]))
        else:
            o = bboblog.gen_options(r)
            if name in ("toy", "bbob-old") and o.get("number_target_triggers") == 0:
                del o["number_target_triggers"]
        if name == "toy":
            o = {k: v for k, v in o.items() if "base" not in k}
        if r.random() < 0.1:
            o["algorithm_info"] = r.choice(['"some words here"', '"x"'])
        if r.random() < 0.05:
            o["no_such_option"] = 1
        return o

    def observer(self):
        r, s = self.r, self.free_slot(self.O)
        if s is None or len(self.O) >= 4:
            return
        if r.random() < 0.02:
            self.put("O", s, "nonsense", "")
            return
        name = r.choice(BBOB * 2 + BIOBJ * 3 + ["rw", "rw", "toy"])
        o = self.options(name)
        self.k += 1
        folder = r.choice(["e%d" % self.k, "e", "e/f", "x%d/y" % self.k, "a" * r.choice([1, 50, 150])])
        text = bboblog.fmt_options(o) + (" result_folder: " + folder if r.random() < 0.9 else "") + (" outer_folder: o%d" % (self.k % 2) if r.random() < 0.5 else "")
        active = name not in BIOBJ or biobjlog.opts(o)["compute_indicators"] or biobjlog.opts(o)["log_nondominated"] != "none"
        self.O[s] = dict(name=name, busy=0, read=name in BIOBJ and biobjlog.opts(o)["log_nondominated"] == "read", active=active)
        self.put("O", s, name, text)

    def usable(self, two):
        old = any(o["name"] == "bbob-old" and o["busy"] for o in self.O.values()) or any(p.get("old") for p in self.P.values())
        c = [k for k, o in self.O.items() if legal(o["name"], two) and (o["name"] in ("rw", "toy") or not o["busy"]) and not (o["name"] == "bbob-old" and old)]
        return self.r.choice(c) if c else None

    def problem(self):
        r, q = self.r, self.free_slot(self.P)
        if q is None or not self.S or len(self.P) >= 6:
            return
        s = r.choice(list(self.S))
        S = self.S[s]
        two = "biobj" in S["name"]
        how = r.random()
        if how < 0.35:
            if S["left"] <= 0:          # the end of the iteration; the last problem stays open
                if S["left"] == 0:
                    self.put("N", s, q, -1)
                S["left"] = -1          # what follows after the end is not specified
                return
            o = self.usable(two) if r.random() < 0.7 else None
            if S["cur"] is not None:        # the suite frees its current problem; the observer of that one becomes free as well
                c = self.P[S["cur"]]
                if any(o2 not in self.O for o2 in c["stack"]):
                    return
                while c["stack"]:
                    o2 = c["stack"].pop()
                    self.put("R", S["cur"], o2)
                    self.O[o2]["busy"] -= 1
                self.P.pop(S["cur"])
                if c["base"] is not None and c["base"] in self.O:
                    self.O[c["base"]]["busy"] -= 1
                self.put("X", S["cur"])
                o = self.usable(two) if r.random() < 0.7 else None
            q = self.free_slot(self.P)
            S["left"] -= 1
            self.put("N", s, q, -1 if o is None else o)
            self.P[q] = dict(suite=s, two=two, stack=[], base=o, owned=True, dead=False, fe=0, old=o is not None and self.O[o]["name"] == "bbob-old")
            if o is not None:
                self.O[o]["busy"] += 1
            S["cur"] = q
            return
        if how < 0.6:
            self.put("G", s, r.randrange(10000), q)
        else:
            self.put("B", s, r.choice(S["fun"]), r.choice(S["dims"]), r.choice(S["inst"]), q)
        self.P[q] = dict(suite=s, two=two, stack=[], base=None, owned=False, dead=False, fe=0, old=False)

    def bare(self):
        r, q = self.r, self.free_slot(self.P)
        if q is None:
            return
        self.put("D", r.randint(1, 24), r.choice([2, 3, 5, 10, 7]), r.randint(1, 50), q)
        self.P[q] = dict(suite=None, two=False, stack=[], base=None, owned=False, dead=False, fe=0, old=False)

    def pick(self, f=lambda p: True):
        c = [k for k, p in self.P.items() if f(p)]
        return self.r.choice(c) if c else None

    def add(self):
        q = self.pick(lambda p: not p["dead"] and p["suite"] is not None and len(p["stack"]) < 3 and not p.get("taint"))
        if q is None:
            return
        p = self.P[q]
        o = self.usable(p["two"])
        if o is None or (p["stack"] or p["base"] is not None) and self.r.random() < 0.6:
            return
        below = p["stack"] + ([p["base"]] if p["base"] is not None else [])
        if below and any(self.O[b]["read"] for b in below + [o]):
            return
        self.put("A", q, o)
        p["stack"].append(o)
        self.O[o]["busy"] += 1
        if self.O[o]["name"] == "bbob-old":
            p["old"] = True

    def remove(self):
        q = self.pick(lambda p: p["stack"] and not p["dead"])
        if q is None:
            return
        p = self.P[q]
        o = p["stack"].pop()
        self.put("R", q, o)
        self.O[o]["busy"] -= 1
        if self.O[o]["name"] == "bbob-old":
            p["old"] = False

    def release(self, q=None):
        if q is None:
            q = self.pick(lambda p: not p["owned"])
        if q is None or self.P[q]["owned"]:
            return
        p = self.P.pop(q)
        self.put("F", q)
        for o in p["stack"]:
            if o in self.O:
                self.O[o]["busy"] -= 1

    def free_observer(self, o=None):
        if not self.O:
            return
        o = self.r.choice(list(self.O)) if o is None else o
        if self.O[o]["busy"] and self.O[o]["name"] == "toy" and False:
            return
        for p in self.P.values():
            if o in p["stack"] or p["base"] == o:
                p["dead"] = True
                p["stack"] = ["gone" if k == o else k for k in p["stack"]]
                p["base"] = "gone" if p["base"] == o else p["base"]
        self.put("o", o)
        del self.O[o]

    def free_suite(self, s=None):
        if not self.S:
            return
        s = self.r.choice(list(self.S)) if s is None else s
        for q in [k for k, p in self.P.items() if p["suite"] == s and not p["owned"]]:
            self.release(q)
        S = self.S.pop(s)
        if S["cur"] is not None:
            p = self.P[S["cur"]]
            while p["stack"]:
                o = p["stack"].pop()
                if o not in self.O:     # cannot be removed any more
                    self.S[s] = S
                    p["stack"].append(o)
                    return
                self.put("R", S["cur"], o)
                self.O[o]["busy"] -= 1
            self.P.pop(S["cur"])
            if p["base"] is not None and p["base"] in self.O:
                self.O[p["base"]]["busy"] -= 1
            self.put("X", S["cur"])
        self.put("s", s)

    def use(self):
        r = self.r
        q = self.pick(lambda p: not p["dead"])
        if q is None:
            return
        p = self.P[q]
        top = p["stack"][-1] if p["stack"] else p["base"]
        if top is not None and self.O[top]["read"] and self.O[top]["active"]:
            p["fe"] += r.choice([1, 1, 2, 50])
            self.put("f", q, p["fe"], r.randrange(1 << 20))
            return
        kind = r.choice([0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9])
        k = r.random()
        if k < 0.6:
            self.put("e", q, r.choice([1, 1, 3, 10, 40]), kind, r.randrange(1 << 20))
        elif k < 0.7:
            self.put("c", q, r.choice([1, 3]), kind, r.randrange(1 << 20))
        elif k < 0.8:
            # recommendations reach the innermost logger that handles them; see C13
            if len(p["stack"]) + (p["base"] is not None) <= 1 and p["suite"] is not None:
                self.put("m", q, 1, kind if kind not in (6, 7) else 0, r.randrange(1 << 20))
        elif k < 0.9:
            if top is not None:
                self.put("r", top, q)
        else:
            # asking for the optimum taints the problem: it must not be observed then
            if top is None and r.random() < 0.4:
                p["taint"] = True
                self.put("g", q, 1)
            else:
                self.put("g", q, 0)

    def archive(self):
        r = self.r
        if self.A and r.random() < 0.85:
            a = r.choice(list(self.A))
            k = r.random()
            lo, hi = (-1e3, 1e3) if r.random() < 0.3 else (0, 2e2)
            if k < 0.7:
                y = [r.uniform(lo, hi), r.uniform(lo, hi)]
                self.put("v", a, repr(y[0] + 1500), repr(y[1] + 1500), "t" * r.choice([0, 1, 5, 500]))
            elif k < 0.8:
                self.put("h", a)
            elif k < 0.95:
                self.put("t", a, r.randint(1, 6))
            else:
                self.put("x", a)
                del self.A[a]
            return
        a = self.free_slot(self.A)
        n = r.choice(BIOBJ[:2])
        self.put("V", a, n, r.randint(1, 55), r.choice([2, 3, 5, 10]), r.randint(1, 10))
        self.A[a] = 1

    def finish(self):
        r = self.r
        while self.S or self.O or self.P or self.A:
            k = r.random()
            if k < 0.3 and self.O:
                o = r.choice(list(self.O))
                blocked = any(p["owned"] and o in p["stack"] for p in self.P.values())
                if not blocked:
                    self.free_observer(o)
            elif k < 0.6:
                self.release()
            elif k < 0.8:
                self.free_suite()
            elif self.A:
                a = r.choice(list(self.A))
                self.put("x", a)
                del self.A[a]
        if r.random() < 0.2:
            self.put("Z")

    def make(self, n):
        r = self.r
        if r.random() < 0.2:
            self.put("L", r.choice(["debug", "info", "warning", "error"]))
        else:
            self.put("L", "error")
        acts = [self.suite] * 2 + [self.observer] * 3 + [self.problem] * 5 + [self.add] * 4 + [self.remove] + [self.release] * 2 + [self.use] * 14
        if r.random() < 0.3:
            acts += [self.archive] * 6
        if r.random() < 0.2:
            acts += [self.bare]
        if r.random() < 0.2:
            acts += [lambda: self.put("U", r.randrange(1 << 32), r.choice([1, 10, 3000]))]
        if r.random() < 0.3:
            acts += [lambda: self.S and self.put("K", r.choice(list(self.S)), r.randrange(10000))]
        self.suite()
        self.observer()
        for _ in range(n):
            a = r.choice(acts)
            a()
            if r.random() < 0.01:
                self.free_suite()
            if r.random() < 0.03:
                c = [o for o in self.O if not any(p["owned"] and o in p["stack"] for p in self.P.values())]
                if c:
                    self.free_observer(r.choice(c))
        self.finish()
        return self.out


class C21(Prop):
    id = "C21"
    rule = "a case (a script of API calls, one instrumented build) is non-trivial when it evaluates an observed problem at least 5 times"
    assumptions = ["problems are freed before the suite they come from; once its observer has been freed an observed problem is only freed, not used",
                   "a problem got from the suite iteration is owned by the suite, which frees it; iteration is not continued after its end",
                   "a problem whose optimum was asked for is not observed; one bbob-style observer watches one open problem at a time"]
    quick_cases = 12000
    thorough_cases = 120000
    chunk = 8
    case_timeout = 420

    def setup(self, tier):
        self.exe = {"asan": build.executable("driver", ["driver.c"], "asan"), "msan": build.executable("driver", ["driver.c"], "msan"),
                    "leak": build.executable("driver", ["driver.c"], "debug", ["-O1", "-DCOUNT", "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"])}

    def gen(self, rng, i, tier):
        return dict(mode=MODES[i % 3], ops=Gen(rng).make(rng.choice([10, 20, 40, 80])))

    def simplify(self, case):
        ops = case["ops"]
        soft = "ecmgrKUhtvfZ"
        n = len(ops)
        k = n // 2
        while k >= 1:
            for a in range(0, n, k):
                rest = [o for j, o in enumerate(ops) if not (a <= j < a + k and o[0] in soft)]
                if len(rest) < n:
                    yield dict(case, ops=rest)
            k //= 2

    def run(self, case):
        d = os.path.abspath("w")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with open(os.path.join(d, "script"), "w") as f:
            f.write("\n".join(case["ops"]) + "\n")
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=43:detect_stack_use_after_return=1",
                   UBSAN_OPTIONS="print_stacktrace=1", MSAN_OPTIONS="exitcode=43")
        try:
            p = subprocess.run([self.exe[case["mode"]], "script", "2" if case["mode"] == "leak" else "1"], cwd=d, env=env, stdout=subprocess.DEVNULL,
                               stderr=subprocess.PIPE, timeout=400)
        except subprocess.TimeoutExpired:
            check(False, "%s build: the script does not end within 400 s", case["mode"])
        err = p.stderr.decode(errors="replace")
        shutil.rmtree(d, ignore_errors=True)
        if p.returncode != 0:
            L = [l for l in err.split("\n") if "ERROR:" in l or "error:" in l or "LEAK" in l or "Assertion" in l or "WARNING: MemorySan" in l or "driver:" in l]
            fr = [l.strip() for l in err.split("\n") if l.strip().startswith("#")][:4]
            raise Violation("%s build: exit status %d: %s %s" % (case["mode"], p.returncode, (L or err.strip().split("\n")[-3:])[:2], fr))
        n = sum(int(o.split("\t")[2]) for o in case["ops"] if o[0] == "e")
        return dict(nontrivial=n >= 5 and any(o[0] == "O" for o in case["ops"]), evals=n, tags=[case["mode"]])


PROP = C21()
