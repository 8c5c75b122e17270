"""C26: the Python helpers (batches, repetitions, settings, option strings, budgeted problems, random search, progress output) against models of their documentation."""
import ast, contextlib, importlib.util, io, os, re, shutil, struct, tempfile, warnings
import numpy as np
import build, coco, pyrun, suites
from engine import Prop, Violation, check

SRC = os.path.join(build.REPO, "build/python/src/cocoex")
_mod = {}


def mod(name):
    if name not in _mod:
        s = importlib.util.spec_from_file_location("cocoex_" + name, os.path.join(SRC, name + ".py"))
        m = importlib.util.module_from_spec(s)
        s.loader.exec_module(m)
        _mod[name] = m
    return _mod[name]


class Fake:
    """What the helpers may ask a problem."""
    def __init__(self, f, d, i, index=0, evaluations=0, hit=0):
        self.id_function, self.dimension, self.id_instance, self.index = f, d, i, index
        self.number_of_variables = d
        self.evaluations, self.final_target_hit = evaluations, hit
        self.evaluations_constraints = 0
        self.id = "bbob_f%03d_i%02d_d%02d" % (f, i, d)
        self.name = "BBOB suite problem f%d instance %d in %dD" % (f, i, d)
        self.info = self.name
        self.suite = "bbob"
        self.id_triple = (f, d, i)
        self.number_of_objectives, self.number_of_constraints = 1, 0
        self.lower_bounds, self.upper_bounds = np.full(d, -5.0), np.full(d, 5.0)
        self.asked = []

    def __call__(self, x):
        self.evaluations += 1
        return 0.0

    def initial_solution_proposal(self, n=None):
        self.asked.append(n)
        return ("proposal", n)


def raises(f, *a, **k):
    try:
        return ("value", f(*a, **k))
    except ValueError:
        return ("ValueError", None)


def problems(r, nmax=6):
    """An order of appearance: dimensions, functions, instances as in a suite; or a selection of it."""
    ds = sorted(r.sample([2, 3, 5, 10, 20, 40], r.randint(1, 3)))
    fs = sorted(r.sample(range(1, 56), r.randint(1, nmax)))
    ins = sorted(r.sample(range(1, 30), r.randint(1, 5)))
    L = [[f, d, i] for d in ds for f in fs for i in ins]
    if r.random() < 0.3:
        L = [q for q in L if r.random() < 0.7] or L[:1]
    return L


def literal(r, depth=2):
    k = r.random()
    if k < 0.3:
        return r.choice([0, 1, -3, 10**20, True, False, None, r.randint(-1000, 1000)])
    if k < 0.5:
        return r.choice([0.1, 1e-300, 1.5e300, -0.0, r.uniform(-10, 10), 1 / 3])
    if k < 0.75 or depth == 0:
        return r.choice(["", "a b", "it's", 'say "x"', "1", "None", "ü{}", "a,b:c", "\n\t", "x" * 50, "bbob", "\\d"])
    if k < 0.85:
        return {"list": [literal(r, depth - 1) for _ in range(r.randint(0, 3))]}
    if k < 0.93:
        return {"tuple": [literal(r, depth - 1) for _ in range(r.randint(0, 3))]}
    return {"dict": [[r.choice(["a", "b", "_c", 3]), literal(r, depth - 1)] for _ in range(r.randint(0, 3))]}


def mk(v):
    if isinstance(v, dict):
        k, w = next(iter(v.items()))
        if k == "list":
            return [mk(x) for x in w]
        if k == "tuple":
            return tuple(mk(x) for x in w)
        if k == "dict":
            return {a: mk(x) for a, x in w}
        return {"function": len, "inf": float("inf"), "nan": float("nan"), "array": np.zeros(3), "object": Fake(1, 2, 3), "type": int, "listf": [1, len], "np": np.float64(2.5)}[k]
    return v


def same(a, b):
    return type(a) is type(b) and repr(a) == repr(b)


# ------------------------------------------------------------------ model of ExperimentRepeater
class Rep:
    def __init__(self, mult, succ):
        self.mult, self.succ, self.sweeps, self.max = mult, succ, 0, 1e4
        self.data = {}

    def track(self, f, d, i, e, h):
        self.data.setdefault((f, d), {}).setdefault(i, []).append((e, h))

    def of(self, f, d):
        return self.data.get((f, d), {})

    def trials(self, f, d):
        q = self.of(f, d)
        return [len(q[i]) for i in sorted(q)]

    def evals(self, f, d):
        q = self.of(f, d)
        return [sum(t[0] for t in q[i]) for i in sorted(q)]

    def succs(self, f, d):
        q = self.of(f, d)
        return [sum(1 for t in q[i] if t[1]) for i in sorted(q)]

    def exhausted(self, f, d):
        return sum(self.evals(f, d)) >= max(1, len(self.of(f, d))) * d * self.mult

    def succeeded(self, f, d):
        return sum(self.succs(f, d)) >= self.succ

    def missing(self, f, d, i):
        return max([1] + self.trials(f, d)) - len(self.of(f, d).get(i, []))

    def done1(self, f, d, i):
        return self.sweeps > 1 and not self.missing(f, d, i) and (self.succeeded(f, d) or self.exhausted(f, d))

    def remaining(self):
        return sorted((f, d, i) for (f, d), q in self.data.items() for i in q if not self.done1(f, d, i))

    def done(self):
        self.sweeps += 1
        r = self.sweeps >= self.max or (self.sweeps > 1 and not self.data) or (bool(self.data) and not self.remaining())
        self.sweeps -= r
        return bool(r)


class C26(Prop):
    id = "C26"
    rule = "a case is non-trivial when the helper was used on at least two problems, options, arguments or budgets, or (numbers) on a non-zero value"
    assumptions = ["the pure Python helpers run on stand-ins that have the attributes of a problem; the rest runs on the built package"]
    quick_cases = 16000
    thorough_cases = 400000
    chunk = 100
    case_timeout = 120

    def setup(self, tier):
        self.pkg = build.python_package("asan")
        self.lib = build.shared_lib("plain")

    def gen(self, rng, i, tier):
        kind = rng.choice(["batch"] * 3 + ["args"] * 3 + ["setting"] * 3 + ["options"] * 2 + ["same"] + ["mini", "short"] + ["time", "about"] + ["repeater"] * 4 + ["nonanytime"] * 3 + ["walk", "search"])
        return dict(kind=kind, **getattr(self, "gen_" + kind)(rng))

    def run(self, case):
        d = tempfile.mkdtemp(prefix="c26-")
        here = os.getcwd()
        try:
            os.chdir(d)
            with warnings.catch_warnings(record=True) as W:
                warnings.simplefilter("always")
                self.W = W
                n, nt, tags = getattr(self, "run_" + case["kind"])(case)
            return dict(nontrivial=nt, evals=n, tags=["kind:" + case["kind"]] + tags)
        finally:
            os.chdir(here)
            shutil.rmtree(d, ignore_errors=True)

    # -------------------------------------------------------------- batches
    def gen_batch(self, r):
        L = problems(r)
        return dict(problems=L, batches=r.choice([1, 2, 3, 4, 5, 7, 8, 13, r.randint(1, 60)]), sweeps=r.choice([1, 1, 2, 3]), bad=r.choice([-1, 0, 1, 5]))

    def run_batch(self, c):
        u = mod("utilities")
        n = c["batches"]
        with contextlib.redirect_stdout(io.StringIO()):
            B = [u.BatchScheduler(n, k) for k in range(n)]
            for k in (-1 - abs(c["bad"]), n + abs(c["bad"])):
                if not (n == 1 and k in (0, 1)):
                    check(raises(u.BatchScheduler, n, k)[0] == "ValueError", "BatchScheduler(%d, %d) was accepted", n, k)
            if n == 1:
                B = [u.BatchScheduler(1, k) for k in (0, 1, None)]
        first = None
        size = [0] * n
        for sw in range(c["sweeps"]):
            now, group, g = [], None, -1
            for q in c["problems"]:
                p = Fake(*q)
                a = [bool(b.is_in_batch(p)) for b in B]
                if n == 1:
                    check(all(a), "one batch: problem %s is not in the batch", q)
                    k = 0
                else:
                    check(sum(a) == 1, "sweep %d, problem (function, dimension, instance) = %s is in the batches %s of %d", sw, q, [j for j in range(n) if a[j]], n)
                    k = a.index(True)
                if tuple(q[:2]) != group:
                    group, g = tuple(q[:2]), g + 1
                    if sw == 0:
                        size[k] += 1
                check(k == g % n, "sweep %d, problem %s (%d. pair of function and dimension) is in batch %d of %d", sw, q, g, k, n)
                now.append(k)
            first = first or now
            check(now == first, "the batches of sweep %d differ from those of the first", sw)
        check(max(size) - min(size) <= 1, "batch sizes %s", size)
        return len(c["problems"]) * n, len(c["problems"]) > 1 and n > 1, ["batches>1"] if n > 1 else []

    # -------------------------------------------------------------- command line arguments
    def gen_args(self, r):
        names = r.sample(["budget_multiplier", "budget", "suite_name", "suite", "number_of_batches", "current_batch", "x", "xx", "name", "observer", "algorithm", "a"], r.randint(1, 8))
        args = []
        for _ in range(r.randint(1, 4)):
            n = r.choice(names) if r.random() < 0.9 else r.choice(["zz", "unknown", "q"])
            if r.random() < 0.4:
                n = n[:r.randint(1, len(n))]
            args.append([n, r.choice(["1", "2.5", "1e3", "bbob", "bbob-biobj", "[1,2]", "None", "True", "'q'", "a b", "", "{'a':1}", "1,2", "x(", "é", "007", "-3"])])
        batch = r.choice([None, None, "1/4", "3/3", "0/7", "2", "1/2/3", "a/b"])
        return dict(args=args, names=names if r.random() < 0.85 else None, batch=batch, at=r.randint(0, 4), form=r.choice(["list", "dict", "tuple"]), split=r.choice(["=", "=", ":"]))

    def run_args(self, c):
        u = mod("utilities")
        names, sp = c["names"], c["split"]
        arg = [a + sp + v for a, v in c["args"]]
        special = {"batch": "current_batch/number_of_batches"}
        if c["batch"] is not None:
            arg.insert(min(c["at"], len(arg)), "batch" + sp + c["batch"])
        if any(a.count(sp) != 1 for a in arg):
            return 0, False, []
        exp, err = {}, False
        for a in arg:
            n, v = a.split(sp)
            if n == "batch":
                t = v.split("/")
                if len(t) != 2 or not all(re.fullmatch("[0-9]+", x) for x in t):
                    err = True
                    break
                exp["current_batch"], exp["number_of_batches"] = int(t[0]), int(t[1])
                continue
            try:
                w = ast.literal_eval(v)
            except Exception:
                w = v
            full = [n] if names is None or n in names else [k for k in names if k.startswith(n)]
            if len(full) != 1 or (full[0] in exp and exp[full[0]] != w):
                err = True
                break
            exp.setdefault(full[0], w)
        kn = names if names is None else {"list": list, "tuple": tuple, "dict": dict.fromkeys}[c["form"]](names)
        kind, got = raises(u.args_to_dict, arg, kn, specials=special, split=sp)
        check((kind == "ValueError") == err, "args_to_dict(%s, %s): %s, expected %s", arg, names, got if kind == "value" else kind, "ValueError" if err else exp)
        if not err:
            check(list(got) == list(exp) and all(same(got[k], exp[k]) for k in exp), "args_to_dict(%s, %s) == %s, expected %s", arg, names, got, exp)
        return 1, len(arg) > 1, ["ValueError"] if err else []

    # -------------------------------------------------------------- settings
    def gen_setting(self, r):
        d = []
        for _ in range(r.randint(0, 6)):
            k = r.choice(["a", "b", "_hidden", "self", "selfish", "budget", "x_y", 3, "ignored", "é", "x_", "max_", "Self", "b2", "un_der__", "mySelf", "a b", "", "_"])
            v = literal(r) if r.random() < 0.75 else {r.choice(["function", "inf", "nan", "array", "object", "type", "listf", "np"]): 0}
            d.append([k, v])
        return dict(items=d, second=[["other", 1]], ignore=r.choice([None, None, "ign", ["b", "x_"], ["_"]]), path=r.choice([0, 1]))

    def run_setting(self, c):
        u = mod("utilities")
        d = {k: mk(v) for k, v in c["items"]}
        bad = {k for k, v in {k: v for k, v in c["items"]}.items() if isinstance(v, dict) and next(iter(v)) not in ("list", "tuple", "dict")}
        ign = c["ignore"] if not isinstance(c["ignore"], list) else tuple(c["ignore"])
        pre = ("_", "self") if ign is None else ign
        exp = {k: d[k] for k in d if k not in bad and not str(k).startswith(pre)}
        before = repr(d) if not bad else None
        os.mkdir("sub")
        name = os.path.join("sub", "p.pydat")
        u.write_setting(d, ("sub", "p.pydat") if c["path"] else name, *([] if ign is None else [ign]))
        check(before is None or repr(d) == before, "write_setting changed its argument")
        check(os.path.exists(name), "write_setting(%s) wrote no file", c["items"])
        got = u.read_setting(name)
        check(isinstance(got, dict) and list(got) == list(exp) and all(same(got[k], exp[k]) for k in exp), "written %s (ignoring %s), read %s, expected %s", c["items"], pre, got, exp)
        text = open(name, "rb").read()
        u.write_setting({k: mk(v) for k, v in c["second"]}, name)
        check(open(name, "rb").read() == text, "write_setting replaced a file that existed")
        check(any("exists already" in str(w.message) or "nothing written" in str(w.message) for w in self.W), "no warning when the file exists already")
        m = len(self.W)
        check(u.read_setting("sub/none", warn=False) is None and len(self.W) == m, "read_setting of a missing file")
        check(u.read_setting("sub/none") is None and len(self.W) > m, "read_setting of a missing file gave no warning")
        g2 = u.dict_to_eval(d, *([] if ign is None else [ign]))
        check(list(g2) == list(exp) and all(same(g2[k], exp[k]) for k in exp), "dict_to_eval(%s) == %s", c["items"], g2)
        return 3, len(exp) > 1, ["dropped"] if len(exp) < len(d) else []

    # -------------------------------------------------------------- observer options
    def gen_options(self, r):
        pool = [["result_folder", ["exp", "my-exp_1", "a{b}", "sun's", "u1", "x,y"]], ["algorithm_name", ["ALG", "CMA-ES", '"two words"', "three short words", "u'v"]],
                ["algorithm_info", ["two words", '"with, comma"', "x", "it's {fine}, really"]], ["number_target_triggers", [1, 5, 20, "10"]], ["base_evaluation_triggers", ["1,2,5", "1", "1,3,7,9"]],
                ["precision_x", [2, 5, "12"]], ["precision_f", [3, 15]], ["log_discrete_as_int", [0, 1]], ["precision_g", [0, 3]], ["log_target_precision", [1e-4, "1e-3", 0.5]], ["lin_target_precision", [1e-4, 0.01]]]
        its = [[k, r.choice(v)] for k, v in r.sample(pool, r.randint(1, 5))]
        return dict(items=its, more=[[k, r.choice(v)] for k, v in r.sample(pool, r.randint(0, 2))], grace=[[k, r.choice(v)] for k, v in r.sample(pool, r.randint(0, 3))],
                    xs=[[round(r.uniform(-5, 5), 3) for _ in range(2)] for _ in range(r.randint(1, 25))], f=r.randint(1, 24))

    def run_options(self, c):
        u = mod("utilities")
        o = u.ObserverOptions(dict(c["items"]))
        e = dict(c["items"])
        check(o.update(dict(c["more"])) is o, "ObserverOptions.update does not return the options")
        e.update(dict(c["more"]))
        check(o.update_gracefully(dict(c["grace"])) is o, "ObserverOptions.update_gracefully does not return the options")
        for k, v in c["grace"]:
            e.setdefault(k, v)
        check(dict(o) == e, "options %s, expected %s", dict(o), e)
        check(u.ObserverOptions() == {}, "new options are not empty: %s", dict(u.ObserverOptions()))
        ref = " ".join('%s: %s' % (k, v if '"' in str(v) else '"%s"' % v if " " in str(v) else v) for k, v in e.items())
        for where, t in (("a", o.as_string), ("b", ref)):
            os.mkdir(where)
            os.chdir(where)
            L = coco.Lib(self.lib)
            s = L.suite("bbob", "instances: 1", "dimensions: 2")
            ob = L.observer("bbob", t)
            p = s.by(c["f"], 2, 1)
            p.observe(ob)
            for x in c["xs"]:
                p.f(np.array(x))
            p.free()
            ob.free()
            s.free()
            os.chdir("..")
        a, b = pyrun.tree("a"), pyrun.tree("b")
        bad = sorted(f for f in set(a) | set(b) if a.get(f) != b.get(f))
        check(not bad, "the observer made from the options %s (as_string %r) writes other files than with %r: %s", e, o.as_string, ref, bad[:3])
        return len(c["xs"]), len(e) > 1, []

    # -------------------------------------------------------------- SameFunction
    def gen_same(self, r):
        if r.random() < 0.5:
            n = r.choice(suites.NAMES)
            return dict(suite=n, ids=None, opt="dimensions: %d" % suites.SUITES[n]["dims"][0], inst="" if n == "toy" else "instances: 1-%d" % r.randint(1, 4))
        return dict(suite=None, ids=[r.choice(["f001", "f002", "bbob_f1"]) + "_i%d" % r.randint(1, 12) + r.choice(["", "_d02", "_d03"]) for _ in range(r.randint(1, 20))])

    def run_same(self, c):
        u = mod("utilities")
        ids = c["ids"]
        if ids is None:
            s = coco.Lib(self.lib).suite(c["suite"], c["inst"], c["opt"])
            ids = []
            while True:
                p = s.next()
                if p is None:
                    break
                ids.append(p.id)
            s.free()
        f, last, n = u.SameFunction(), None, 0
        for i in ids:
            key = re.sub(r"_i\d+", "", i)
            n = n + 1 if key == last else 0
            last = key
            g = f(i)
            check(g == n, "SameFunction: %d problems of the same function before %s, expected %d", g, i, n)
            check(f.count == n + 1, "SameFunction.count == %s after %s, expected %d", f.count, i, n + 1)
        return len(ids), len(ids) > 1, []

    # -------------------------------------------------------------- progress output
    def gen_mini(self, r):
        L = problems(r)
        return dict(calls=[[q, k, r.random() < 0.3, r.random() < 0.3] for _ in range(r.choice([1, 1, 2])) for k, q in enumerate(L)])

    def run_mini(self, c):
        u = mod("utilities")
        m, dim, fun, last = u.MiniPrint(), None, None, -1
        for q, k, hit, res in c["calls"]:
            b = io.StringIO()
            with contextlib.redirect_stdout(b):
                m(Fake(*q, index=k, hit=int(hit)), restarted=res)
            t = re.sub(r"\s", "", re.sub(r"(\dD) \d+h\d\d:\d\d(\+\d+d)?", r"\1", b.getvalue()))
            e = ""
            nd = q[1] != dim or k < last
            if nd:
                e += "%dD" % q[1]
            if nd or q[0] != fun:
                e += "f%d" % q[0]
            dim, fun, last = q[1], q[0], k
            e += "|" if hit else ":" if res else "."
            check(t == e, "MiniPrint for problem %s printed %r (without blanks), expected %r", q, t, e)
        return len(c["calls"]), len(c["calls"]) > 1, []

    def gen_short(self, r):
        return dict(calls=[[q, r.choice([1, 7, 1000]), r.choice([1, 2, 15, 200])] for q in problems(r)])

    def run_short(self, c):
        u = mod("utilities")
        m, dim, fun, runs, dims = u.ShortInfo(), None, None, 0, []
        for q, ev, rn in c["calls"]:
            t = m(Fake(*q))
            t = re.sub(r"\w{3}\d+ \d+h\d\d:\d\d", "T", t)
            t = re.sub(r"done in \S+ seconds/evaluation", "done", t).split()
            e = []
            new = (q[0], q[1]) != (fun, dim)
            if new and fun is not None:
                e.append("(%d)" % runs)
                runs = 0
            if q[1] != dim:
                if dim is not None:
                    e += ["%d-D" % dim, "done"]
                    dims.append(dim)
                e += ["T,", "d=%d," % q[1], "running:"]
            if new:
                e.append("f%03d" % q[0])
            fun, dim = q[0], q[1]
            check(t == e, "ShortInfo for problem %s returned %s, expected %s", q, t, e)
            check(sorted(m.evals_by_dimension) == sorted(dims), "ShortInfo.evals_by_dimension has %s, expected %s", sorted(m.evals_by_dimension), dims)
            m.add_evals(ev, rn)
            runs += rn
        return len(c["calls"]), len(c["calls"]) > 1, []

    # -------------------------------------------------------------- numbers
    def gen_time(self, r):
        return dict(secs=[r.choice([r.randint(0, 10000), r.randint(0, 10**7), 60 * r.randint(0, 5000), 3600 * r.randint(0, 100)]) for _ in range(20)],
                    frac=[round(r.uniform(0, 5000), r.choice([1, 2, 6])) for _ in range(5)] + [r.choice([1e-7, 99.5, 99.999, 100.25, 59.96])], decimals=r.choice([1, 2, 3]))

    def run_time(self, c):
        u = mod("utilities")
        for s in c["secs"]:
            for v in (s, float(s), s + 0.25):
                t = u.ascetime(v)
                check(t == "%dh%02d:%02d" % (s // 3600, s // 60 % 60, s % 60), "ascetime(%r) == %r", v, t)
        n = c["decimals"]
        for v in c["frac"]:
            t = u.ascetime(v, n)
            m = re.fullmatch(r"(\d+)(\.\d{0,%d})? sec" % n, t) if v < 100 else re.fullmatch(r"(\d+)h(\d\d):(\d\d)(\.\d{0,%d})?" % n, t)
            check(m, "ascetime(%r, %d) == %r", v, n, t)
            g = m.groups()
            w = (int(g[0]) if v < 100 else int(g[0]) * 3600 + int(g[1]) * 60 + int(g[2])) + float("0" + (g[-1] or "."). rstrip(".") if g[-1] not in (None, ".") else 0)
            check(-1e-9 <= v - w < 10.0 ** -n + 1e-9, "ascetime(%r, %d) == %r", v, n, t)
        return len(c["secs"]) * 3, any(c["secs"]), []

    def gen_about(self, r):
        k = r.random()
        a = r.choice([r.uniform(-1, 1), r.gauss(0, 1e6), 10.0 ** r.randint(-300, 300), 0.0, -0.0, 1e-310])
        b = a * (1 + r.choice([0, 1e-16, 1e-9, 9e-7, 1.2e-6, 1e-3, -5e-7, -2e-6, -2])) if k < 0.8 else r.choice([0.0, -a, a + 1e-300, 1.0])
        p = r.choice([None, 1e-6, 1e-3, 1e-12])
        if r.random() < 0.3 and abs(a) < 1e200:
            p = r.choice([0.1, 0.3, 0.5, 0.9, 1.5])
            b = a * r.choice([1 - p * 0.99, 1 - p * 1.01, 1 / (1 - p * 0.99) if p < 1 else 2.2, 1 / (1 - p * 1.01) if p < 0.95 else -0.4, r.uniform(-2, 4)])
        return dict(a=a, b=b, p=p)

    def run_about(self, c):
        from fractions import Fraction as Q
        u = mod("utilities")
        a, b, p = c["a"], c["b"], c["p"]
        k = {} if p is None else dict(precision=p)
        g = bool(u.about_equal(a, b, **k))
        check(g == bool(u.about_equal(b, a, **k)), "about_equal(%r, %r) is not symmetric", a, b)
        check(u.about_equal(a, a, **k) and u.about_equal(b, b, **k), "about_equal(%r, %r) is not reflexive", a, b)
        m = max(abs(Q(a)), abs(Q(b)))
        if m > Q(1e-300):
            rel = abs(Q(a) - Q(b)) / m
            t = Q(p or 1e-6)
            if rel < t * Q(0.9999):
                check(g, "about_equal(%r, %r, %s) is False", a, b, p)
            if rel > t * Q(1.0001):
                check(not g, "about_equal(%r, %r, %s) is True", a, b, p)
        return 1, a != 0, ["equal"] if g else ["different"]

    # -------------------------------------------------------------- repetitions
    def gen_repeater(self, r):
        L = problems(r, 3)
        ops = []
        mode = r.random()
        for _ in range(r.randint(0, 40)):
            k = r.random()
            q = r.choice(L)
            if k < 0.45:
                ops.append(["track", q, r.choice([0, 1, 5, r.randint(1, 400)]), r.choice([0, 0, 1, 1])])
            elif k < 0.55:
                ops.append(["done"])
            elif k < 0.75:
                ops.append([r.choice(["done1", "missing", "trial1", "prop", "ofinst"]), q, r.choice(["tuple", "problem"]), r.choice([14, 0, 1, 2, 5])])
            elif k < 0.78:
                ops.append(["prop", q, "problem", r.choice([0.5, 1.5])])
            else:
                ops.append([r.choice(["evaluations", "successes", "trials", "instances", "exhausted", "succeeded", "n", "remaining", "all", "remaining2", "budget"]), q, r.choice(["pair", "tuple", "list", "problem"])])
        return dict(mult=r.choice([0, 1, 2, 10, 0.5, 1e3]), succ=r.choice([None, 1, 3, 11]), problems=L, ops=ops, loop=mode < 0.5,
                    work=[[r.choice([1, 3, 20, r.randint(1, 300)]), r.choice([0, 0, 1])] for _ in range(r.randint(1, 7))], maxs=r.choice([None, None, 3, 6]))

    def run_repeater(self, c):
        u = mod("utilities")
        a = [c["mult"]] + ([] if c["succ"] is None else [c["succ"]])
        M, R = Rep(c["mult"], 11 if c["succ"] is None else c["succ"]), u.ExperimentRepeater(*a)
        if c["maxs"] is not None:
            M.max = R.max_sweeps = c["maxs"]

        def eq(what, got, exp):
            check(got == exp, "%s: %s, expected %s (after %s)", what, got, exp, {str(k): v for k, v in M.data.items()})

        def view(q, form):
            return tuple(q[:2]) if form == "pair" else tuple(q) if form == "tuple" else list(q) if form == "list" else Fake(*q)
        n = 0
        for o in c["ops"]:
            k = o[0]
            n += 1
            if k == "track":
                q = o[1]
                R.track(Fake(*q, evaluations=o[2], hit=o[3]))
                M.track(*q, o[2], o[3])
            elif k == "done":
                eq("done()", bool(R.done(message=False)), M.done())
            elif k == "all":
                for name, f in (("evaluations", M.evals), ("successes", M.succs), ("trials", M.trials), ("budget_exhausted", M.exhausted)):
                    e = {t: f(*t) for t in M.data}
                    eq("all(%s)" % name, dict(R.all(name)), e)
                    eq("all(method %s)" % name, dict(R.all(getattr(R, name))), e)
            elif k == "remaining":
                eq("remaining_problems()", sorted(map(tuple, R.remaining_problems())), M.remaining())
            elif k == "remaining2":
                eq("remaining_problems(suite)", [tuple(t) for t in R.remaining_problems([Fake(*q) for q in c["problems"]])], [tuple(q) for q in c["problems"] if not M.done1(*q)])
            else:
                q = o[1]
                p = view(q, o[2])
                if k == "done1":
                    eq("done(%s)" % q, bool(R.done(p)), M.done1(*q))
                elif k == "missing":
                    eq("missing_trials(%s)" % q, R.missing_trials(p), M.missing(*q))
                elif k == "trial1":
                    eq("trials(%s, instance)" % q, R.trials(p, q[2]), len(M.of(*q[:2]).get(q[2], [])))
                elif k == "ofinst":
                    eq("data_of_instance(%s)" % q, [tuple(t) for t in R.data_of_instance(p)], M.of(*q[:2]).get(q[2], []))
                elif k == "prop":
                    p = Fake(*q)
                    if o[3] != int(o[3]):
                        check(raises(R.initial_solution_proposal, p, o[3])[0] == "ValueError", "nonzero_odds=%s was accepted", o[3])
                        continue
                    t = sum(M.trials(*q[:2]))
                    e = t + 1 if o[3] == 0 else t if t % (o[3] + 1) else 0
                    g = R.initial_solution_proposal(p, o[3])
                    eq("initial_solution_proposal(%s, %s)" % (q, o[3]), tuple(g), ("proposal", e))
                elif k == "evaluations":
                    eq("evaluations(%s)" % q, list(R.evaluations(p)), M.evals(*q[:2]))
                elif k == "successes":
                    eq("successes(%s)" % q, list(R.successes(p)), M.succs(*q[:2]))
                elif k == "trials":
                    eq("trials(%s)" % q, list(R.trials(p)), M.trials(*q[:2]))
                elif k == "instances":
                    eq("instances(%s)" % q, list(R.instances(p)), sorted(M.of(*q[:2])))
                elif k == "exhausted":
                    eq("budget_exhausted(%s)" % q, bool(R.budget_exhausted(p)), M.exhausted(*q[:2]))
                elif k == "succeeded":
                    eq("succeeded(%s)" % q, bool(R.succeeded(p)), M.succeeded(*q[:2]))
                elif k == "budget":
                    eq("budget_from_dimension(%s)" % q, [R.budget_from_dimension(p), R.budget_from_dimension(q[1])], [q[1] * c["mult"]] * 2)
                elif k == "n":
                    tr = M.trials(*q[:2])
                    eq("numbers of trials, problems and instances for %s" % q, [R.n_trials(p), R.n_trials(), R.n_problems, R.n_problem_instances(p), R.n_problem_instances()],
                       [sum(tr), sum(sum(M.trials(*t)) for t in M.data), len(M.data), len(tr), sum(len(M.trials(*t)) for t in M.data)])
        if c["loop"] and c["problems"] and c["work"]:
            b = io.StringIO()
            L = c["problems"]
            M, R = Rep(c["mult"], 11 if c["succ"] is None else c["succ"]), u.ExperimentRepeater(*a)
            if c["maxs"] is not None:
                M.max = R.max_sweeps = c["maxs"]
            w = 0
            msgs = []
            if R.message_sweep() != "":
                check(False, "a new ExperimentRepeater reports %r", R.message_sweep())
            e = u.ExperimentRepeater(*a)
            eq("first done() of a new ExperimentRepeater", bool(e.done(message=False)), False)
            check(e.message_sweep() == "", "an ExperimentRepeater in its first sweep reports %r before anything was tracked", e.message_sweep())

            def stats():
                sm = [sum(M.succs(*t)) for t in M.data]
                ok = [x >= M.succ for x in sm]
                return [M.sweeps, sum(sm), len(sm), sum(x > 0 for x in sm), sum(ok), M.succ, sum(M.exhausted(*t) and not k for t, k in zip(M.data, ok))]
            with contextlib.redirect_stdout(b):
                while True:
                    if M.data:
                        msgs.append(stats())
                    d = R.done()
                    eq("done() before sweep %d" % M.sweeps, bool(d), M.done())
                    if d or w > 3000:
                        break
                    for q in L:
                        dp = bool(R.done(Fake(*q)))
                        eq("sweep %d, done(%s)" % (M.sweeps, q), dp, M.done1(*q))
                        if dp:
                            continue
                        e, h = c["work"][w % len(c["work"])]
                        w += 1
                        R.track(Fake(*q, evaluations=e, hit=h))
                        M.track(*q, e, h)
                        n += 1
            for f, d_ in M.data:
                eq("evaluations((%d, %d))" % (f, d_), list(R.evaluations((f, d_))), M.evals(f, d_))
                eq("successes((%d, %d))" % (f, d_), list(R.successes((f, d_, None))), M.succs(f, d_))
                if w <= 3000 and c["maxs"] is None:
                    check(M.exhausted(f, d_) or M.succeeded(f, d_), "the loop ended before function %d, dimension %d was done", f, d_)
            s = re.findall(r"Sweep (\d+) done \((\d+) success(?:es)? on (\d+) problems? where (\d+) had >= 1 success and (\d+) had >= (\d+) successes and (\d+) exhausted the budget\)", b.getvalue())
            eq("messages of the sweeps", [[int(v) for v in t] for t in s], msgs)
            check(s, "no message about the sweeps in %r", b.getvalue()[:100])
        check(not [x for x in self.W if "empty data" in str(x.message)], "warning: %s", str(self.W[0].message)[:200] if self.W else "")
        return n, n > 1, ["loop"] if c["loop"] else []

    # -------------------------------------------------------------- with real problems
    def call(self, job):
        d = tempfile.mkdtemp(prefix="w", dir=".")
        res, ok, how = pyrun.run(self.pkg, "asan", dict(helpers=job), os.path.abspath(d))
        check(ok and res, "%s: the interpreter ended: %s", job["kind"], how)
        return res[0], os.path.abspath(d)

    def gen_nonanytime(self, r):
        d = r.choice([2, 3, 5])
        name = r.choice(["bbob", "bbob", "bbob-mixint"])
        if name == "bbob-mixint":
            d = 5
        P = []
        for _ in range(r.randint(1, 2)):
            ops, pts, n = [], [], 0
            for bud in range(r.randint(1, 4)):
                m = n + r.choice([0, 1, 2, 5]) if r.random() < 0.8 else r.randint(0, 6)
                for _ in range(m):
                    if pts and r.random() < 0.4:
                        x = r.choice(pts)
                    elif r.random() < 0.04:
                        x = "opt"
                    else:
                        x = [round(r.uniform(-5, 5), r.choice([0, 2])) for _ in range(d)]
                    pts.append(x)
                    ops.append(["call", x])
                n = max(n, m)
                x = r.choice(pts) if pts and r.random() < 0.7 else [round(r.uniform(-5, 5), 1) for _ in range(d)]
                ops.append(r.choice([["deliver", x]] * 5 + [["reset"], ["random"]]))
                n += 1
            P.append([r.randrange(24), ops])
        return dict(suite=[name, "instances: %d" % r.randint(1, 5), "dimensions: %d" % d], problems=P)

    def run_nonanytime(self, c):
        L = coco.Lib(self.lib)
        s = L.suite(*c["suite"])
        os.mkdir("c")
        os.chdir("c")
        ob = L.observer("bbob", "result_folder: e")
        exp, job = [], []
        for idx, ops in c["problems"]:
            f, d_, i_ = idx + 1, int(c["suite"][2].split()[-1]), int(c["suite"][1].split()[-1])
            p, un, op = s.by(f, d_, i_), s.by(f, d_, i_), s.by(f, d_, i_)
            p.observe(ob)
            exp.append([p.id, p.index, p.d, p.name, [v.hex() for v in map(float, p.initial())], [v.hex() for v in map(float, p.lower)], [v.hex() for v in map(float, p.upper)], p.nc, p.m, p.d])
            ev, obs, cur, jo = 0, 0, "o", []
            for o in ops:
                x = None
                if len(o) > 1:
                    x = np.array(op.best_parameter() if o[1] == "opt" else o[1], float)
                    o = [o[0], [float(v).hex() for v in x]]
                jo.append(o)
                if o[0] == "call":
                    if ev > obs:
                        r = "ValueError"
                    else:
                        if ev >= obs:
                            cur = "o"
                        ev += 1
                        y = float((p if cur == "o" else un).f(x)[0])
                        obs += cur == "o"
                        r = "nan" if y != y else y.hex()
                elif o[0] == "deliver":
                    if ev < obs:
                        r = "ValueError"
                    else:
                        r = None
                        if float(un.f(x)[0]) != p.best1:
                            p.f(x)
                            obs += 1
                        ev, cur = 0, "u"
                elif o[0] == "reset":
                    r, ev, cur = None, 0, "u"
                else:
                    r = True
                exp.append([r, ev, float(p.best1).hex(), bool(p.hit)])
            p.free()
            un.free()
            op.free()
            job.append([idx, jo])
        ob.free()
        s.free()
        os.chdir("..")
        got, d = self.call(dict(kind="nonanytime", suite=c["suite"], observer="result_folder: e", problems=job))
        flat = []
        for idx, ops in job:
            flat.append(["problem", idx])
            flat += ops
        for k, (g, e) in enumerate(zip(got, exp)):
            check(g == e, "step %d %s: (value, evaluations, best observed, target hit) = %s, expected %s", k, str(flat[k])[:120], g, e)
        check(len(got) == len(exp), "%d results, expected %d", len(got), len(exp))
        a, b = pyrun.tree("c"), pyrun.tree(os.path.join(d, "run"))
        bad = sorted(f for f in set(a) | set(b) if a.get(f) != b.get(f))
        check(not bad, "the log of the observed evaluations differs: %s", bad[:3])
        return len(exp), len(exp) > 3, []

    def gen_walk(self, r):
        n = r.choice([x for x in suites.NAMES if x not in ("toy", "bbob-noisy", "bbob-largescale") and "no-disguise" not in x and "active-only" not in x])
        S = suites.SUITES[n]
        nf = len(S["functions"])
        fs = sorted(r.sample(range(1, nf + 1), r.randint(1, 3)))
        ds = sorted(r.sample([x for x in S["dims"] if x <= 20], r.randint(1, 2)))
        return dict(suite=[n, "instances: " + ",".join(map(str, sorted(r.sample(range(1, 8), r.randint(1, 3))))), "dimensions: %s function_indices: %s" % (",".join(map(str, ds)), ",".join(map(str, fs)))],
                    batches=r.choice([1, 2, 3, 5]), multiplier=r.choice([0, 1, 5]), successes=r.choice([1, 2, 5]), work=[[r.choice([1, 4, 12]), r.choice([0, 1])] for _ in range(r.randint(1, 5))])

    def run_walk(self, c):
        s = coco.Lib(self.lib).suite(*c["suite"])
        ids, opt, trip = [], {}, []
        while True:
            p = s.next()
            if p is None:
                break
            ids.append(p.id)
            f, i, d = [int(t) for t in re.fullmatch(r".*_f(\d+)_i(\d+)_d(\d+)", p.id).groups()]
            trip.append((f, d, i))
            if p.m == 1:
                opt[p.id] = [float(v).hex() for v in p.best_parameter()]
        s.free()
        g, _ = self.call(dict(c, opt=opt))
        n = c["batches"]
        for k, id in enumerate(ids):
            for sw in range(2):
                w = [b for b in range(n) if id in g["batches"][b][sw]]
                check(len(w) == 1, "sweep %d: problem %s is in the batches %s of %d", sw, id, w, n)
        for b in range(n):
            check(g["batches"][b][0] == g["batches"][b][1], "batch %d of %d differs between two sweeps", b, n)
        last, m = None, 0
        for k, (t, (id, got)) in enumerate(zip(trip, g["same"])):
            m = m + 1 if t[:2] == last else 0
            last = t[:2]
            check(got == m and id == ids[k], "SameFunction for %s: %s, expected %d", id, got, m)
        M = Rep(c["multiplier"], c["successes"])
        w = 0
        for sw in g["sweeps"]:
            check(not M.done(), "sweep %d was run although all problems were done", M.sweeps + 1)
            j = 0
            for t in trip:
                if M.done1(*t):
                    continue
                check(j < len(sw), "sweep %d: problem %s was not run", M.sweeps, t)
                e = list(t) + [c["work"][w % len(c["work"])][0]]
                check(sw[j][:4] == e, "sweep %d: run (function, dimension, instance, evaluations) = %s, expected %s", M.sweeps, sw[j][:4], e)
                M.track(*t, *sw[j][3:])
                w += 1
                j += 1
            check(j == len(sw), "sweep %d: additional runs %s", M.sweeps, sw[j:][:2])
        check(w >= 500 or M.done(), "the repetitions ended before all problems were done")
        for name, f in (("end", M.evals), ("trials", M.trials), ("suc", M.succs)):
            e = {"%d,%d" % t: f(*t) for t in M.data}
            check(g[name] == e, "tracked data %s: %s, expected %s", name, g[name], e)
        return w + len(ids), len(ids) > 1, []

    def gen_search(self, r):
        n = r.choice(["bbob", "bbob-constrained", "bbob-constrained", "bbob-biobj", "bbob-mixint"])
        d = r.choice([2, 5]) if n != "bbob-mixint" else 5
        big = r.random() < 0.05
        return dict(suite=[n, "instances: %d" % r.randint(1, 5), "dimensions: %d" % d], index=r.randrange(24), budget=r.choice([8002, 20003, 25000]) if big else r.choice([0, 1, 2, 10, 60, 200]),
                    seed=r.randrange(10**6))

    def run_search(self, c):
        g, _ = self.call(dict(c, kind="search"))
        check(g["inside"], "random_search evaluated a point outside of the bounds")
        if not g["constraints"]:
            check(g["n"] == c["budget"], "random_search with budget %d evaluated %d points", c["budget"], g["n"])
            check(g["distinct"] == g["n"], "random_search evaluated a point twice")
        else:
            check(g["n"] == g["c"] and (g["n"] > 0) == (c["budget"] > 0), "random_search evaluated %d times the function, %d times the constraints, budget %d", g["n"], g["c"], c["budget"])
        if g["objectives"] == 1:
            check(g["best"], "random_search did not return the best %spoint it evaluated (returned None: %s)", "feasible " if g["constraints"] else "", g["none"])
        return g["n"], g["n"] > 1, ["constrained"] if g["constraints"] else []


PROP = C26()
