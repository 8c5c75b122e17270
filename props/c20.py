"""C20: the rw, toy and legacy observers write what happened (model-based, over random observed histories)."""
import os, re, shutil
import numpy as np
import bboblog, build, coco, probs, suites
from biobjlog import num
from bboblog import Targets, check_line, quality, parse_lines
from engine import Prop, Violation, check

OLD = ["bbob", "bbob-boxed", "bbob-largescale", "bbob-mixint", "bbob-constrained", "bbob-constrained-active-only", "toy"]


def plus(text, v, prec, what):
    check(text[:1] in "+-" and (text[0] == "-") == (np.signbit(v)), "%s: file has %r, run has %r", what, text, v)
    if not np.isfinite(v):
        check(text.lstrip("+-") == ("nan" if np.isnan(v) else "inf"), "%s: file has %r, run has %r", what, text, v)
        return
    num(text.lstrip("+"), v, prec, 1e-15 * abs(v), what)


def files(folder):
    return sorted(os.path.relpath(os.path.join(r, f), folder) for r, _, fs in os.walk(folder) for f in fs)


class Run:
    """An observed problem with its plain history [x, y, constraint values, constraint evaluations]."""

    def __init__(self, L, ref, p, twin, best, obs):
        self.p, self.t, self.best, self.obs, self.ref = p, twin, best, obs, ref
        self.lo, self.hi, self.d, self.init = twin.lower, twin.upper, twin.d, twin.initial()
        self.h, self.ge, self.last = [], 0, None

    def do(self, op):
        k = op[0]
        if k == "r":
            self.obs.restart(self.p)
        elif k == "F":
            for s in range(op[1]):
                self.do(["f", "box", op[2] + s])
        elif k == "w":
            g = np.random.default_rng(op[2])
            a = self.best if self.best is not None else (self.lo + self.hi) / 2
            s = self.lo + (self.hi - self.lo) * g.random(self.d)
            for t in np.linspace(0, g.uniform(-9, -1), op[1]):
                self.one(a + 10 ** t * (s - a))
        else:
            if op[1] == "init":
                x = self.init.copy()
            elif op[1] in ("repeat", "bestrep"):
                x = self.init if self.last is None else self.last
            elif op[1] in ("opt0", "seg"):
                x = self.init if self.best is None else self.best + 10 ** np.random.default_rng(op[2]).uniform(-9, 0) * (
                    self.init - self.best) * (op[1] == "seg")
            else:
                x = probs.make_point([op[1], op[2]], self.d, self.lo, self.hi, self.best)
            if np.any(np.abs(x[np.isfinite(x)]) > 1e5) or (self.ref[0] == "bbob-noisy" and np.any(np.abs(x[np.isfinite(x)]) > 100)):
                return
            if k == "m":
                self.p.recommend(x)
            elif k == "c":
                if self.p.nc:
                    for _ in range(op[3]):
                        self.p.c(x)
                        if np.all(np.isfinite(x)):
                            self.ge += 1
            else:
                self.one(x)

    def one(self, x):
        y = self.p.f(x)
        if np.all(np.isfinite(x)):
            self.h.append((x, y, self.t.c(x) if self.t.nc else None, self.ge))
            self.last = x


class C20(Prop):
    id = "C20"
    rule = "a case is non-trivial when its files hold at least 5 data lines"
    assumptions = ["base evaluation triggers are sorted and span at most one decade",
                   "legacy observer: the problems are observed in suite order and are noise-free; one experiment after another in a process",
                   "values within a rounding error of a target may be taken to reach it or not"]
    quick_cases = 9000
    thorough_cases = 60000
    chunk = 1

    def setup(self, tier):
        self.path = build.shared_lib("plain")

    def gen(self, rng, i, tier):
        kind = ["rw", "toy", "old"][i % 3]
        if kind == "old":
            return dict(kind=kind, exps=[self.gen_old(rng) for _ in range(rng.choice([1, 1, 2, 3]))])
        names = suites.NAMES if kind == "rw" else [n for n in bboblog.SINGLE if n != "bbob-noisy"]
        o = {}
        if rng.random() < 0.4:
            o["precision_f"] = rng.choice([1, 3, 8, 16, 17, 32])
        if rng.random() < 0.4:
            o["precision_x"] = rng.choice([1, 4, 12, 17, 32])
        if kind == "rw":
            if rng.random() < 0.4:
                o["precision_g"] = rng.choice([1, 6, 15, 31, 32])
            if rng.random() < 0.5:
                o["log_variables"] = rng.choice(["none", "low_dim", "low_dim", "all"])
            if rng.random() < 0.5:
                o["log_constraints"] = rng.choice(["none", "low_dim", "low_dim", "all"])
            if rng.random() < 0.4:
                o["low_dim_vars"] = rng.choice([1, 2, 3, 5, 9, 20])
            if rng.random() < 0.4:
                o["low_dim_cons"] = rng.choice([1, 2, 3, 5, 8, 9, 20])
            if rng.random() < 0.5:
                o["log_only_better"] = rng.choice([0, 1, 1])
            if rng.random() < 0.2:
                o["log_time"] = rng.choice([0, 1])
            if rng.random() < 0.4:
                o["log_discrete_as_int"] = rng.choice([0, 1])
        else:
            if rng.random() < 0.5:
                o["number_target_triggers"] = rng.choice([1, 2, 3, 5, 10, 50, 1000])
            if rng.random() < 0.4:
                o["log_target_precision"] = rng.choice([1e-8, 1e-5, 1e-3, 0.1, 1.0])
            if rng.random() < 0.2:
                o["file_name"] = rng.choice(["a.txt", "times", "x-1.dat"])
        runs, prev = [], None
        for _ in range(rng.choice([1, 1, 2, 3])):
            r = prev if prev and rng.random() < 0.4 else bboblog.gen_ref(rng, names)
            if r[0] == "bbob-largescale" and r[2] > 40:
                r[2] = 20
            prev = r
            runs.append(dict(ref=list(r), ops=bboblog.gen_ops(rng, rng.randint(2, 25), cons="constrained" in r[0], restarts=rng.random() < 0.2),
                             how=rng.choice(["free", "free", "remove"])))
        return dict(kind=kind, opts=o, runs=runs, last=rng.choice(["normal", "observer_first"]), mix=rng.random() < 0.3 and kind == "rw")

    def gen_old(self, rng):
        name = rng.choice(OLD)
        S = suites.SUITES[name]
        F = sorted(rng.sample(S["functions"], rng.choice([1, 1, 2, 3])))
        dims = [d for d in S["dims"] if d <= 40]
        D = sorted(rng.sample(dims, min(len(dims), rng.choice([1, 1, 2, 3]))))
        I = [1] if name == "toy" else sorted(rng.sample(range(1, 30), rng.choice([1, 2, 3])))
        o = {k: v for k, v in bboblog.gen_options(rng).items() if k in ("number_target_triggers", "log_target_precision", "base_evaluation_triggers",
                                                                        "log_discrete_as_int", "algorithm_name", "number_evaluation_triggers")}
        if o.get("number_target_triggers") == 0:
            o["number_target_triggers"] = 7
        runs = [dict(ref=[name, f, d, i], ops=bboblog.gen_ops(rng, rng.randint(1, 20), cons="constrained" in name, restarts=False, recs=rng.random() < 0.2),
                     how="free") for d in D for f in F for i in I if rng.random() < 0.7]
        return dict(suite=name, obs="bbob-old", opts=o, runs=runs, last=rng.choice(["normal", "observer_first"]))

    def simplify(self, case):
        if case["kind"] == "old":
            for k in range(len(case["exps"])):
                if len(case["exps"]) > 1:
                    yield dict(case, exps=case["exps"][:k] + case["exps"][k + 1:])
                e = case["exps"][k]
                for j in range(len(e["runs"])):
                    yield dict(case, exps=case["exps"][:k] + [dict(e, runs=e["runs"][:j] + e["runs"][j + 1:])] + case["exps"][k + 1:])

    # ------------------------------------------------------------ rw and toy
    def play(self, L, case):
        obs = L.observer(case["kind"], case.get("text") or bboblog.fmt_options(case["opts"]) + " outer_folder: . result_folder: exp")
        folder = obs.folder
        runs, S = [], []
        todo = []
        for r in case["runs"]:
            ref = r["ref"]
            best = probs.best_point(L, ref)
            s1, p = probs.open_problem(L, ref)
            s2, twin = probs.open_problem(L, ref)
            S.append((s1, s2))
            R = Run(L, ref, p, twin, best, obs)
            R.pid, R.name, R.p0, R.m, R.ni, R.nc = twin.id, twin.name, p.p, twin.m, twin.ni, twin.nc
            todo.append((R, p, r))
        if case["mix"] and len({t[0].pid for t in todo}) == len(todo):
            for R, p, r in todo:
                p.observe(obs)
                runs.append(R)
            ops = [list(r["ops"]) for _, _, r in todo]
            k = 0
            while any(ops):
                k = (k + 1) % len(ops)
                for _ in range(min(len(ops[k]), 1 + k)):
                    todo[k][0].do(ops[k].pop(0))
            for R, p, r in todo:
                self.close(R, p, r, obs, False)
        else:
            for k, (R, p, r) in enumerate(todo):
                p.observe(obs)
                runs.append(R)
                for op in r["ops"]:
                    R.do(op)
                self.close(R, p, r, obs, k == len(todo) - 1 and case["last"] == "observer_first")
        if obs.p:
            obs.free()
        for R in runs:
            R.t.free()
        for a, b in S:
            a.free()
            b.free()
        return folder, runs

    def close(self, R, p, r, obs, first):
        if first:
            obs.free()
        elif r["how"] == "remove":
            p.unobserve(obs)
            check(p.p == R.p0, "removing the observer does not give the problem back")
            p.f(R.init)
        p.free()

    def rw(self, case):
        L = coco.Lib(self.path)
        o = dict(precision_x=8, precision_f=15, precision_g=3, log_variables="all", log_constraints="all", low_dim_vars=10, low_dim_cons=10,
                 log_only_better=0, log_time=0, log_discrete_as_int=0, **{})
        o.update(case["opts"])
        folder, runs = self.play(L, case)
        byfile = {}
        for r in runs:
            byfile.setdefault(r.pid + "_rw.txt", []).append(r)
        check(files(folder) == sorted(byfile), "result files %s, expected %s", files(folder), sorted(byfile))
        n = 0
        for f, rs in byfile.items():
            text = open(os.path.join(folder, f)).read()
            seg = re.split(r"\n(?=% suite = )", text)
            check(seg[0] == "" and len(seg) == 1 + len(rs) and text.endswith("\n"), "%s: %d runs in the file, %d were made", f, len(seg) - 1, len(rs))
            for k, (r, s) in enumerate(zip(rs, seg[1:])):
                what = "%s run %d" % (f, k + 1)
                lines = s.split("\n")
                check(lines[-1] == "", "%s: incomplete line", what)
                lines = lines[:-1]
                if lines[-1:] == [""] and k < len(rs) - 1:
                    lines = lines[:-1]
                m = re.match(r"^% suite = '(.*)', problem_id = '(.*)', problem_name = '(.*)', coco_version = '.*'$", lines[0])
                check(m and m.group(1) == r.ref[0] and m.group(2) == r.pid and m.group(3) == r.name, "%s: header %r", what, lines[0])
                check(len(lines) > 1 and lines[1].startswith("%% f-evaluations | g-evaluations | %d objective" % r.m), "%s: column header %r", what,
                      lines[1:2])
                lv = o["log_variables"] == "all" or o["log_variables"] == "low_dim" and r.d <= o["low_dim_vars"]
                lc = r.nc and (o["log_constraints"] == "all" or o["log_constraints"] == "low_dim" and r.nc <= o["low_dim_cons"])
                want, best = [], None
                for e, (x, y, c, ge) in enumerate(r.h, 1):
                    if e == 1 or r.m > 1 or not o["log_only_better"] or y[0] < best:
                        want.append((e, x, y, c, ge))
                    best = y[0] if best is None else min(best, y[0])
                data = lines[2:]
                nums = [l.split("\t")[0] for l in data]
                check(nums == [str(w[0]) for w in want], "%s: lines for evaluations %s, expected %s", what, nums[:15], [w[0] for w in want][:15])
                n += len(data)
                for l, (e, x, y, c, ge) in zip(data, want):
                    w = "%s, evaluation %d" % (what, e)
                    q = l.split("\t")
                    check(q[-1] == "" and len(q) - 1 == 2 + r.m + (r.d if lv else 0) + (r.nc if lc else 0) + (1 if o["log_time"] else 0),
                          "%s: %d fields", w, len(q) - 1)
                    check(q[1] == str(ge), "%s: constraint evaluations %s, %d were made", w, q[1], ge)
                    for j in range(r.m):
                        plus(q[2 + j], y[j], o["precision_f"], w + ", objective %d" % j)
                    p = 2 + r.m
                    if lv:
                        for j in range(r.d):
                            if j < r.ni and o["log_discrete_as_int"]:
                                check(re.match(r"^-?\d+$", q[p + j]) is not None and abs(int(q[p + j]) - x[j]) <= 0.5 + 1e-9,
                                      "%s: integer variable %d printed as %s, is %r", w, j, q[p + j], x[j])
                            else:
                                plus(q[p + j], x[j], o["precision_x"], w + ", variable %d" % j)
                        p += r.d
                    if lc:
                        for j in range(r.nc):
                            plus(q[p + j], c[j], o["precision_g"], w + ", constraint %d" % j)
        shutil.rmtree(folder, ignore_errors=True)
        return dict(nontrivial=n >= 5, evals=sum(len(r.h) for r in runs), tags=["rw"])

    def toy(self, case):
        L = coco.Lib(self.path)
        o = dict(precision_x=8, precision_f=15, number_target_triggers=100, log_target_precision=1e-8, file_name="first_hitting_times.dat")
        o.update(case["opts"])
        folder, runs = self.play(L, case)
        check(files(folder) == [o["file_name"]], "result files %s, expected %s", files(folder), o["file_name"])
        text = open(os.path.join(folder, o["file_name"])).read()
        seg = re.split(r"\n(?=suite = )", text)
        check(seg[0] == "" and len(seg) == 1 + len(runs) and text.endswith("\n"), "%d runs in the file, %d were made", len(seg) - 1, len(runs))
        n = 0
        for k, (r, s) in enumerate(zip(runs, seg[1:])):
            what = "run %d (%s)" % (k + 1, r.pid)
            lines = s.split("\n")
            if k == len(runs) - 1:
                lines = lines[:-1]
            m = re.match(r"^suite = '(.*)', problem_id = '(.*)', problem_name = '(.*)', coco_version = '.*'$", lines[0])
            check(m and m.group(1) == r.ref[0] and m.group(2) == r.pid and m.group(3) == r.name, "%s: header %r", what, lines[0])
            check(len(lines) > 1 and lines[1].startswith("% evaluation number | function value | target hit | "), "%s: column header %r", what, lines[1:2])
            T = Targets(o["number_target_triggers"], o["log_target_precision"], 1, lin=False)
            data = [l for l in lines[2:] if l]
            d, prev = {}, 0
            for l in data:
                q = l.split("\t")
                check(q[0].isdigit() and int(q[0]) > prev, "%s: line %r", what, l[:80])
                prev = int(q[0])
                d[prev] = q
            n += len(d)
            check(prev <= len(r.h), "%s: line for evaluation %d, %d were made", what, prev, len(r.h))
            for e, (x, y, c, ge) in enumerate(r.h, 1):
                w = "%s, evaluation %d" % (what, e)
                check(T.step(float(y[0]), 0.0, e in d), "%s: value %r %s a new target but %s", w, y[0], "reaches no" if e in d else "reaches",
                      "there is a line" if e in d else "no line is there")
                if e in d:
                    q = d[e]
                    check(len(q) == 3 + r.d, "%s: %d fields", w, len(q))
                    num(q[1], y[0], o["precision_f"], 1e-15 * abs(y[0]), w + ", value")
                    t = float(q[2])
                    check(any(abs(t - v) <= (1e-9 + 10.0 ** -o["precision_f"]) * abs(v) for v in T.last_targets()), "%s: target %s, expected %s", w, q[2],
                          T.last_targets()[:3])
                    for j in range(r.d):
                        num(q[3 + j], x[j], o["precision_x"], 1e-15 * abs(x[j]), w + ", variable %d" % j)
        shutil.rmtree(folder, ignore_errors=True)
        return dict(nontrivial=n >= 5, evals=sum(len(r.h) for r in runs), tags=["toy"])

    # ------------------------------------------------------------ legacy
    def old(self, case):
        L = coco.Lib(self.path)
        n = ev = 0
        bad = None
        for k, exp in enumerate(case["exps"]):
            o = bboblog.opts(exp["opts"])
            folder, runs = bboblog.play(L, exp, "exp%d" % k)
            ev += sum(r.fe for r in runs)
            try:
                n += self.check_old(folder, runs, o, "experiment %d, " % (k + 1))
            except Violation as e:
                if "number_evaluation_triggers ignored" not in str(e):
                    raise
                bad = bad or e
            shutil.rmtree(folder, ignore_errors=True)
        if bad:
            raise bad
        return dict(nontrivial=n >= 5, evals=ev, tags=["old"])

    def check_old(self, folder, runs, o, pre):
        runs = [r for r in runs if r.fe]
        B = {}
        for f in files(folder):
            if f.endswith(".info"):
                for b in bboblog.read_info(os.path.join(folder, f)):
                    check((b["f"], b["d"]) not in B, "%s%s: f%d d%d listed twice", pre, f, b["f"], b["d"])
                    B[b["f"], b["d"]] = b
        want = {}
        for r in runs:
            want.setdefault((r.ref[1], r.ref[2]), []).append(r)
        check(set(B) == set(want), "%sindex files list %s, run were %s", pre, sorted(B), sorted(want))
        n, ignored = 0, False
        for key, rs in want.items():
            b = B[key]
            check(b["suite"] == rs[0].ref[0] and b["alg"] == o["algorithm_name"], "%sheader of f%d d%d names %r, %r", pre, key[0], key[1], b["suite"], b["alg"])
            check([x[0] for x in b["runs"]] == [r.ref[3] for r in rs], "%sf%d d%d: instances %s listed, %s were run", pre, key[0], key[1],
                  [x[0] for x in b["runs"]], [r.ref[3] for r in rs])
            for ext in ("dat", "tdat"):
                path = os.path.join(folder, b["dat"][:-4] + "." + ext)
                check(os.path.isfile(path), "%sf%d d%d: the data file %s named in the index does not exist", pre, key[0], key[1], b["dat"])
                seg = self.segments(path)
                check(len(seg) == len(rs), "%s%s: %d runs in the file, %d were made", pre, path, len(seg), len(rs))
                for k, r in enumerate(rs):
                    what = "%s%s.%s run %d" % (pre, b["dat"][:-4], ext, k + 1)
                    check(abs(float(seg[k][0]) - r.opt) <= 1e-12 * abs(r.opt) + 1e-300, "%s: header gives the optimum %s, it is %r", what, seg[k][0], r.opt)
                    be = min(quality(e[2], e[4], r.opt)[1] for e in r.h if e[0] == "f")
                    _, evs, pr = b["runs"][k]
                    check(evs == r.fe, "%s: %s evaluations in the index, %d were made", what, evs, r.fe)
                    check(pr is not None and bboblog.info_precision(pr, be - r.opt, 1e-15 * abs(be)), "%s: final precision %s in the index, %r was reached",
                          what, pr, be - r.opt)
                    if ext == "dat":
                        n += self.old_dat(r, seg[k][1], o, what)
                    else:
                        a, ig = bboblog.check_tdat(Wide(r), seg[k][1], o, what)
                        ignored = ignored or ig
        if ignored:
            check(False, "option number_evaluation_triggers ignored: the evaluation-triggered lines are those of the default 20, not of %d",
                  o["number_evaluation_triggers"])
        return n

    def segments(self, path):
        out = []
        text = open(path).read()
        check(text.endswith("\n"), "%s: incomplete line", path)
        for l in text.split("\n")[:-1]:
            if l.startswith("%"):
                m = re.match(r"^% f evaluations \| g evaluations \| best noise-free fitness - Fopt \((\S+)\) \+ sum g_i\+ \| measured fitness", l)
                check(m, "%s: malformed header %r", path, l)
                out.append((m.group(1), []))
            else:
                check(out, "%s: data before the first header", path)
                out[-1][1].append(l)
        return out

    def old_dat(self, run, lines, o, what):
        d = parse_lines(lines, what)
        W = Wide(run)
        T = Targets(o["number_target_triggers"], o["log_target_precision"], 1, lin=False)
        best, fe = None, 0
        for e in run.h:
            if e[0] != "f":
                continue
            fe += 1
            _, x, y, tol, c, ge = e
            y, q = quality(y, c, run.opt)
            w = "%s, evaluation %d" % (what, fe)
            seen = fe in d
            if best is not None and not q < best:
                check(not seen, "%s: line for an evaluation that does not improve (%r, best %r)", w, q, best)
                continue
            sl = 1e-15 * abs(q)
            ok = T.step(q - run.opt, sl, seen if fe > 1 else None)
            check(ok and (fe > 1 or seen), "%s: %s although %r (before: %r) %s", w, "line" if seen else "no line", q - run.opt, best,
                  "reaches no new target" if seen else "reaches a new target")
            best = q
            if seen:
                check_line(d[fe], fe, ge, best, sl, y, tol, c, x, W, o["log_discrete_as_int"], w)
        check(not d or max(d) <= fe, "%s: line for evaluation %s, %d were made", what, max(d or [0]), fe)
        return len(d)

    def run(self, case):
        return getattr(self, case["kind"])(case)


class Wide:
    """The legacy format prints all variables unless more than 21 of them are continuous."""

    def __init__(self, r):
        self.__dict__.update(r.__dict__)
        self.shown = r.d - r.t.ni < 22


PROP = C20()
