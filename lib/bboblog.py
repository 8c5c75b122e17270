"""Driving observed runs of single-objective problems, and the model of what the bbob observer's files must contain."""
import math, os, re, shutil
import numpy as np
import bbobref, coco, probs, pts, suites
from engine import Violation, check

SINGLE = ["bbob", "bbob-boxed", "bbob-largescale", "bbob-noisy", "bbob-mixint", "bbob-constrained", "bbob-constrained-active-only",
          "bbob-constrained-no-disguise", "toy"]
OBSERVERS = {n: [n, "bbob"] if n not in ("toy", "bbob-constrained-active-only", "bbob-constrained-no-disguise") else ["bbob"] for n in SINGLE}
OBSERVERS["bbob-constrained-active-only"] = ["bbob-constrained", "bbob-constrained-active-only"]
OBSERVERS["bbob"] = ["bbob"]
HEADER = re.compile(r"^%% f evaluations \| g evaluations \| best noise-free fitness - (Fopt|Fref) \(([-+0-9.einfna]+)\) \+ sum g_i\+ \| "
                    r"measured fitness \| best measured fitness or single-digit g-values \| x1 \| x2\.\.\.$".replace("%%", "%"))
NUM9 = re.compile(r"^[+-]\d\.\d{9}e[+-]\d\d+$")
NUM4 = re.compile(r"^[+-]\d\.\d{4}e[+-]\d\d+$")
NAN_LOG, INF_LOG = 2e21, 3e21


# ---------------------------------------------------------------- triggers
def log_step(state, v, n, prec):
    """One step of the logarithmic targets: (triggered, new state, target value)."""
    if not math.isfinite(v):
        return False, state
    if v >= 0:
        w = prec / 10 if v == 0 else max(v, prec)
        e = math.ceil(math.log10(w) * n)
        val = 0.0 if v == 0 else 10.0 ** (e / n)
    else:
        w = max(-v, prec)
        k = math.floor(math.log10(w) * n)
        e = 2 * math.ceil(math.log10(prec / 10) * n) - k - 1
        val = -(10.0 ** (k / n))
    if state is None or e < state[0]:
        return True, (e, val)
    return False, state


def lin_step(state, v, p):
    up = math.ceil(v / p) * p
    near = math.floor(v / p + 0.5) * p
    t = up
    if abs(near - up) >= p * 0.999999 and abs(v - near) < 1.000001e-12:
        t = near
    if state is None or t < state:
        return True, t
    return False, state


class Targets:
    """All states compatible with what was seen so far (values within rounding of a target may go either way)."""

    def __init__(self, n, logprec, linprec, known=True, lin=True):
        self.n, self.lp, self.p, self.lin = n, logprec, linprec, lin
        self.use_log = n > 0 and known
        self.S = {(None, None)}

    def _steps(self, v, tol):
        d = max(4e-16 * abs(v), tol)
        out = set()
        for c in ((v, v - d, v + d, 0.0) if d >= abs(v) > 0 else (v, v - d, v + d) if d > 0 else (v,)):
            for s in self.S:
                a, la = log_step(s[0], c, self.n, self.lp) if self.use_log else (False, None)
                b, li = lin_step(s[1], c, self.p) if self.lin else (False, math.inf)
                out.add((a or b, (la, li)))
        return out

    def step(self, v, tol, seen):
        """seen: True/False whether a line was written, None if unknown (accept any). Returns False if that is impossible."""
        out = self._steps(v, tol)
        if seen is not None:
            out = {o for o in out if o[0] == seen}
        if not out:
            return False
        self.S = set(sorted((o[1] for o in out), key=repr)[:64])
        return True

    def last_targets(self):
        r = []
        for la, li in self.S:
            v = li
            if self.use_log and la[1] < v:
                v = la[1]
            r.append(v)
        return r


class EvalTrigger:
    def __init__(self, n, base, dim):
        self.n, self.v1, self.e1 = n, 1, 0
        self.base, self.dim, self.i, self.e2 = base, dim, 0, 0
        self.v2 = dim * base[0]

    def step(self, e):
        r = False
        if e >= self.v1:
            while math.floor(10.0 ** (self.e1 / self.n)) <= self.v1:
                self.e1 += 1
            self.v1 = math.floor(10.0 ** (self.e1 / self.n))
            r = True
        if e >= self.v2:
            if self.i < len(self.base) - 1:
                self.i += 1
            else:
                self.i, self.e2 = 0, self.e2 + 1
            self.v2 = 10 ** self.e2 * self.dim * self.base[self.i]
            r = True
        return r


# ---------------------------------------------------------------- options
def gen_options(rng, known=True):
    o = {}
    if rng.random() < 0.5:
        o["number_target_triggers"] = rng.choice([0, 1, 2, 3, 5, 10, 20, 50, 100, 1000, 1000, 2500, 100000, 1000000])
    if rng.random() < 0.4:
        o["log_target_precision"] = rng.choice([1e-8, 1e-5, 1e-3, 0.1, 1.0, 1e-10, 3e-7, 1e-2, 1e-12])
    if rng.random() < 0.5:
        o["lin_target_precision"] = rng.choice([1e-5, 1e-3, 0.1, 1.0, 10.0, 1000.0, 1e-7, 0.5, 1e6, 1e-2])
    if rng.random() < 0.08:
        o["number_evaluation_triggers"] = rng.choice([4, 5, 10, 40, 100])
    if rng.random() < 0.5:
        k = rng.randint(1, 4)
        top = rng.choice([9, 9, 90])
        o["base_evaluation_triggers"] = sorted(rng.sample(range(1, top + 1), k)) if top == 9 else sorted(rng.sample(range(10, 100), k))
    if rng.random() < 0.3:
        o["log_discrete_as_int"] = rng.choice([0, 1])
    if rng.random() < 0.3:
        o["algorithm_name"] = rng.choice(["CMA-ES", "x", "RANDOM_SEARCH-2", "a.b"])
    if rng.random() < 0.3:
        o["prefix"] = rng.choice(["exp", "bbobexp", "my-prefix"])
    if rng.random() < 0.3:
        o["precision_x"] = rng.choice([1, 5, 12, 32])
    return o


def fmt_options(o, rng=None):
    def val(v):
        if isinstance(v, list):
            return ",".join(map(str, v))
        return repr(v) if isinstance(v, float) else str(v)
    return " ".join("%s: %s" % (k, val(v)) for k, v in o.items())


DEFAULTS = dict(number_target_triggers=100, log_target_precision=1e-8, lin_target_precision=1e-5, number_evaluation_triggers=20,
                base_evaluation_triggers=[1, 2, 5], log_discrete_as_int=0, algorithm_name="ALG", prefix="bbobexp", precision_x=8,
                precision_f=15, precision_g=3)


# ---------------------------------------------------------------- operations
def gen_ops(rng, n, cons=False, restarts=True, recs=True, batch=True):
    ops = []
    kinds = ["box", "box", "near", "near", "near", "sparse", "axis", "opt", "far", "wide", "edge", "init", "seg", "seg", "seg", "repeat",
             "grid", "int", "zero", "bestrep", "opt0"]
    if rng.random() < 0.3:
        kinds += ["nan", "inf"]
    for _ in range(n):
        r = rng.random()
        if r < 0.07 and batch:
            ops.append(["F", rng.choice([3, 10, 10, 30, 100]), rng.randrange(1 << 30)])
        elif r < 0.19:
            ops.append(["w", rng.choice([3, 8, 8, 20]), rng.randrange(1 << 30)])
        elif r < 0.29 and cons:
            ops.append(["c", rng.choice(kinds), rng.randrange(1 << 30), rng.choice([1, 1, 1, 2, 7, 40])])
        elif r < 0.39 and restarts:
            ops.append(["r"])
        elif r < 0.54 and recs:
            ops.append(["m", rng.choice(kinds), rng.randrange(1 << 30)])
        else:
            ops.append(["f", rng.choice(kinds), rng.randrange(1 << 30)])
    return ops


def gen_ref(rng, names=SINGLE, maxdim=40):
    n = rng.choice(names)
    if n == "bbob-largescale" and rng.random() < 0.5:
        n = "bbob"
    return probs.ref(rng, [n], maxdim=maxdim)


class Run:
    """One observed problem: performs operations and keeps the history."""

    def __init__(self, L, ref, p, twin, best, obs=None):
        self.L, self.ref, self.p, self.t, self.best, self.obs = L, ref, p, twin, best, obs
        self.lo, self.hi, self.d, self.nc = twin.lower, twin.upper, twin.d, twin.nc
        self.init = twin.initial()
        self.opt = float(twin.best_value)
        self.noisy = bbobref.noisy_base(ref[1], ref[2], ref[3]) if ref[0] == "bbob-noisy" else None
        self.h = []          # ["f", x, y_noise_free, tol, cons, gevals] ["r"] ["m", x, y, tol, cons]
        self.fe = self.ge = 0
        self.last = self.bx = None
        self.bv = None

    def point(self, kind, seed):
        if kind == "init":
            return self.init.copy()
        if kind == "repeat" and self.last is not None:
            return self.last.copy()
        if kind == "bestrep" and self.bx is not None:
            return self.bx.copy()
        if kind == "opt0" and self.best is not None:
            return self.best.copy()
        if kind == "seg":
            g = np.random.default_rng(seed)
            a = self.best if self.best is not None else (self.lo + self.hi) / 2
            return a + 10 ** g.uniform(-9, 0) * (self.init - a)
        if kind in ("repeat", "bestrep", "opt0"):
            kind = "box"
        return probs.make_point([kind, seed], self.d, self.lo, self.hi, self.best)

    def free_value(self, x, y):
        """The value that counts for logging, and its uncertainty."""
        if self.noisy is None:
            return float(y), 0.0
        V = self.noisy(x[None, :])
        return float(V[0]), float(bbobref.tolerance(self.noisy, x[None, :], V)[0])

    def cons(self, x):
        return self.t.c(x) if self.nc else None

    def note_eval(self, x, y):
        v, tol = self.free_value(x, y)
        self.fe += 1
        c = self.cons(x)
        self.h.append(["f", x, v, tol, c, self.ge])
        if self.bv is None or v < self.bv:
            self.bv, self.bx = v, x
        self.last = x

    def usable(self, x):
        """Very large magnitudes overflow to NaN on some functions (known finding of C10); kept out of these histories."""
        return bool(np.all(np.abs(x[np.isfinite(x)]) < (1e5 if self.noisy is None else 100)))

    def do(self, op):
        k = op[0]
        if k == "f":
            x = self.point(op[1], op[2])
            if not self.usable(x):
                return
            y = self.p.f(x)
            if np.all(np.isfinite(x)):
                self.note_eval(x, y[0])
        elif k == "F":
            g = np.random.default_rng(op[2])
            X = self.lo + (self.hi - self.lo) * g.random((op[1], self.d))
            Y = self.p.F(X)
            for x, y in zip(X, Y):
                self.note_eval(x, y[0])
        elif k == "w":
            g = np.random.default_rng(op[2])
            a = self.best if self.best is not None else (self.lo + self.hi) / 2
            e1 = g.uniform(-9, -1)
            s = self.init if g.random() < 0.5 else self.lo + (self.hi - self.lo) * g.random(self.d)
            for t in np.linspace(0, e1, op[1]):
                x = a + 10 ** t * (s - a)
                self.note_eval(x, self.p.f(x)[0])
        elif k == "c":
            if self.nc == 0:
                return
            x = self.point(op[1], op[2])
            if not self.usable(x):
                return
            for _ in range(op[3]):
                self.p.c(x)
                if np.all(np.isfinite(x)):
                    self.ge += 1
        elif k == "r":
            if self.obs is not None:
                self.obs.restart(self.p)
                self.h.append(["r"])
        elif k == "m":
            x = self.point(op[1], op[2])
            if not self.usable(x) or not np.all(np.isfinite(x)):
                return
            self.p.recommend(x)
            if np.any(np.isinf(x)):
                v, tol = math.inf, 0.0
            elif np.any(np.isnan(x)):
                v, tol = math.nan, 0.0
            elif self.noisy is not None:
                v, tol = self.free_value(x, None)
            else:
                v, tol = float(self.t.f(x)[0]), 0.0
            self.h.append(["m", x, v, tol, self.cons(x), self.ge])
        else:
            raise ValueError(k)


# ---------------------------------------------------------------- model of the files
def quality(y, c, opt):
    """(logged value, value + penalty)"""
    if math.isnan(y):
        y = NAN_LOG
    elif math.isinf(y):
        y = INF_LOG
    s = 0.0
    if c is not None:
        for g in c:
            if g > 0:
                s += float(g)
    return y, max(y, opt) + s


def digit(c):
    for i, l in enumerate([0, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 1e-1, 1]):
        if c <= l:
            return i
    return 9


def near(text, v, tol, what, rx=NUM9, rel=6e-10):
    check(rx.match(text) is not None, "%s: malformed number %r", what, text)
    check(abs(float(text) - v) <= rel * abs(v) + tol + 1e-300, "%s: file has %s, run has %r", what, text, v)


def check_line(line, fe, ge, best, btol, y, ytol, c, x, run, as_int, what):
    """ge may be a tuple of admissible values."""
    f = line.split(" ")
    check(len(f) >= 5, "%s: malformed line %r", what, line)
    check(f[0] == str(fe), "%s: function evaluations %s in the file, %d made", what, f[0], fe)
    check(f[1] in [str(g) for g in (ge if isinstance(ge, tuple) else (ge,))], "%s: constraint evaluations %s in the file, %s made", what,
          f[1], ge)
    o = 2e-15 * (abs(best) + abs(run.opt))
    near(f[2], best - run.opt, btol + o, what + ", best value relative to the optimum")
    near(f[3], y, ytol + 1e-15 * abs(y), what + ", current value")
    if run.nc and c is not None:
        want = "".join(str(digit(v)) for v in c)
        amb = [{digit(v), digit(v * (1 + 1e-12)), digit(v * (1 - 1e-12))} for v in c]
        check(len(f[4]) == len(want) and all(a.isdigit() and int(a) in s for a, s in zip(f[4], amb)), "%s: constraint digits %s in the file, expected %s",
              what, f[4], want)
    else:
        near(f[4], best, btol + 1e-15 * abs(best), what + ", best value")
    if not getattr(run, "shown", run.d < 22):
        check(len(f) == 5, "%s: variables printed for dimension %d", what, run.d)
        return
    check(len(f) == 5 + run.d, "%s: %d variables printed, dimension is %d", what, len(f) - 5, run.d)
    for i, (t, v) in enumerate(zip(f[5:], x)):
        if i < run.t.ni and as_int:
            check(re.match(r"^-?\d+$", t) is not None and abs(int(t) - v) <= 0.5 + 1e-9, "%s: integer variable %d printed as %s, is %r",
                  what, i, t, v)
        else:
            near(t, v, 1e-300, "%s, variable %d" % (what, i), NUM4, 6e-5)


def parse_lines(lines, what):
    d = {}
    prev = -1
    for l in lines:
        check(re.match(r"^\d+ \d+ ", l) is not None, "%s: malformed line %r", what, l[:100])
        n = int(l.split(" ", 1)[0])
        check(n > prev, "%s: line for evaluation %d follows the one for evaluation %d", what, n, prev)
        prev = n
        d[n] = l
    return d


def opts(o):
    return dict(DEFAULTS, **o)


def check_dat(run, lines, o, what):
    """.dat: first evaluation, improvements reaching a new target, final state."""
    d = parse_lines(lines, what)
    T = Targets(o["number_target_triggers"], o["log_target_precision"], o["lin_target_precision"])
    best = btol = bx = None
    fe, ge, forms = 0, 0, "cf"
    for e in run.h:
        if e[0] != "f":
            continue
        fe += 1
        _, x, y, tol, c, ge = e
        y, q = quality(y, c, run.opt)
        w = "%s, evaluation %d" % (what, fe)
        sl = tol + 1e-15 * abs(q)
        cand = [False, True] if run.noisy is not None and best is not None and abs(q - best) <= sl + btol else [best is None or q < best]
        seen = fe in d
        if fe == run.fe and fe in d and cand == [False]:
            seen, forms = False, "f"    # the final line
        if cand == [False]:
            check(not seen, "%s: line for an evaluation that does not improve (%r, best %r)", w, q, best)
            continue
        if len(cand) == 1 or (seen and fe < run.fe):
            prev = best
            v = q - run.opt
            if fe == 1:
                T.step(v, sl, None)
                check(fe in d, "%s: no line for the first evaluation", w)
                seen = True
            else:
                # the last evaluation may carry the final line instead of a triggered one
                ok = T.step(v, sl, seen if fe < run.fe else None)
                check(ok, "%s: %s although %r (before: %r) %s (triggers %s, precision %g, linear %g)", w,
                      "line" if seen else "no line", v, prev - run.opt, "reaches no new target" if seen else "reaches a new target",
                      o["number_target_triggers"], o["log_target_precision"], o["lin_target_precision"])
            best, btol, bx = q, sl, x
            if seen and fe < run.fe or fe == 1:
                check_line(d[fe], fe, ge, best, btol, y, tol, c, x, run, o["log_discrete_as_int"], w)
        else:                           # indistinguishable from the best value: both are possible, nothing was written
            best = min(best, q)
            btol = max(btol, sl)
    check_final(run, d, o, what, best, btol, bx, forms)
    return len(d)


def check_final(run, d, o, what, best, btol, bx, forms="cf"):
    """The last evaluation is always recorded, either by the trigger or by the final line."""
    if run.fe == 0:
        check(not d, "%s: lines without any evaluation", what)
        return
    check(max(d) == run.fe, "%s: last line is for evaluation %d, the run had %d", what, max(d), run.fe)
    e = [e for e in run.h if e[0] == "f"][-1]
    _, x, y, tol, c, ge = e
    y, q = quality(y, c, run.opt)
    w = what + ", last evaluation"
    why = []
    if "c" in forms:
        try:
            return check_line(d[run.fe], run.fe, ge, best, btol, y, tol, c, x, run, o["log_discrete_as_int"], w)
        except Violation as e:
            why.append("as line of that evaluation: %s" % e)
    if "f" in forms:
        cands = [bx]
        if run.noisy is not None:       # the model cannot tell which of several equally good points is the best one
            E = [(quality(e[2], e[4], run.opt)[1], e[3], e[1]) for e in run.h if e[0] == "f"]
            m = min(E, key=lambda t: t[0])
            cands += [x for q, tol, x in E if q - m[0] <= tol + m[1]]
            btol = max(btol, m[1])
        for bx in cands:
            try:
                return check_line(d[run.fe], run.fe, tuple({ge, run.ge}), best, btol, best, btol, None, bx, run, o["log_discrete_as_int"], w)
            except Violation as e:
                why.append("as final line: %s" % e)
    raise Violation("; ".join(why))


def check_tdat(run, lines, o, what):
    """.tdat; returns the number of lines and whether the option number_evaluation_triggers was ignored."""
    d = parse_lines(lines, what)
    sets, forms = {}, {}
    for n in {20, o["number_evaluation_triggers"]}:
        E = EvalTrigger(n, o["base_evaluation_triggers"], run.d)
        s, fe = set(), 0
        for e in run.h:
            if e[0] == "f":
                fe += 1
                if E.step(fe + e[5]):
                    s.add(fe)
        form = "c" if run.fe in s else "f"
        if run.fe:
            s.add(run.fe)
        sets[n] = s
        forms[n] = form
    got = set(d)
    ignored = False
    if got != sets[o["number_evaluation_triggers"]]:
        if got == sets[20]:
            ignored = True
        else:
            w = sets[20]
            check(False, "%s: lines at evaluations %s missing, unexpected lines at %s (of %d, base triggers %s, dimension %d)", what,
                  sorted(w - got)[:8], sorted(got - w)[:8], run.fe, o["base_evaluation_triggers"], run.d)
    best = bx = None
    btol, fe = 0.0, 0
    for e in run.h:
        if e[0] != "f":
            continue
        fe += 1
        _, x, y, tol, c, ge = e
        y, q = quality(y, c, run.opt)
        if best is None or q < best:
            best, bx = q, x
            btol = max(btol if best is not None and tol else 0.0, tol + 1e-15 * abs(q))
        if fe in d and fe < run.fe:
            check_line(d[fe], fe, ge, best, btol, y, tol, c, x, run, o["log_discrete_as_int"], "%s, evaluation %d" % (what, fe))
    check_final(run, d, o, what, best, btol, bx, forms[20 if ignored else o["number_evaluation_triggers"]] if len(forms) == 1 else "cf")
    return len(d), ignored


def check_rdat(run, lines, o, what):
    d = parse_lines(lines, what)
    want, fe, pend = {}, 0, False
    best, btol = None, 0.0
    for e in run.h:
        if e[0] == "r":
            pend = fe > 0
        elif e[0] == "f":
            fe += 1
            _, x, y, tol, c, ge = e
            y, q = quality(y, c, run.opt)
            if best is None or q < best:
                best = q
                btol = max(btol, tol + 1e-15 * abs(q))
            if pend:
                want[fe] = (ge, best, btol, y, tol, c, x)
                pend = False
    check(set(d) == set(want), "%s: lines at evaluations %s, restarts were followed by evaluations %s", what, sorted(d)[:10],
          sorted(want)[:10])
    for n, (ge, b, bt, y, tol, c, x) in want.items():
        check_line(d[n], n, ge, b, bt, y, tol, c, x, run, o["log_discrete_as_int"], "%s, evaluation %d" % (what, n))
    return len(d)


def check_mdat(run, lines, o, what):
    """.mdat: recommendations that improve and newly reach a target; then the final state."""
    T = Targets(o["number_target_triggers"], o["log_target_precision"], o["lin_target_precision"])
    best, btol, bx = INF_LOG, 0.0, None
    fe = pos = 0
    lastge = 0
    logged_at = None
    for k, e in enumerate(run.h):
        if e[0] == "f":
            fe, lastge = fe + 1, e[5]
        if e[0] != "m":
            continue
        _, x, y, tol, c, ge = e
        y, q = quality(y, c, run.opt)
        w = "%s, recommendation (event %d)" % (what, k)
        sl = tol + 1e-15 * abs(q) if tol else 0.0
        amb = run.noisy is not None and abs(q - best) <= sl + btol
        if not amb and not q < best:
            continue

        def fits():
            if pos >= len(lines):
                return "no further line"
            try:
                check_line(lines[pos], fe, tuple({lastge, ge}), q, sl + 1e-15 * abs(q), y, tol, c, x, run, o["log_discrete_as_int"], w)
            except Exception as ex:
                return str(ex)
            return None
        why = fits()
        seen = why is None
        if amb and not seen:
            best, btol = min(best, q), max(btol, sl)
            continue
        ok = T.step(q - run.opt, sl, seen)
        if not ok and seen:             # the line may be that of a later recommendation that reads the same, or the final line
            seen, ok = False, T.step(q - run.opt, sl, False)
        check(ok, "%s: value %r (before: %r) %s a new target, %s", w, q - run.opt, best - run.opt,
              "reaches no" if seen else "reaches", "but a line is there" if seen else "but there is no such line (%s)" % why)
        best, btol, bx = q, sl, x
        if seen:
            pos += 1
            logged_at = fe
    rest = lines[pos:]
    if not rest:
        check(logged_at is None or logged_at in (0, run.fe), "%s: the final state (after %d evaluations) is missing", what, run.fe)
    else:
        check(len(rest) == 1, "%s: %d unexpected lines, the first is %r", what, len(rest), rest[0][:120])
        check(bx is not None and logged_at is not None and logged_at != run.fe, "%s: unexpected line %r", what, rest[0][:120])
        cands = [bx]
        if run.noisy is not None:
            cands += [e[1] for e in run.h if e[0] == "m" and quality(e[2], e[4], run.opt)[1] - best <= e[3] + btol]
        for k, bx in enumerate(cands):
            try:
                check_line(rest[0], run.fe, tuple({lastge, run.ge}), best, btol, best, btol, None, bx, run, o["log_discrete_as_int"],
                           what + ", final line")
                break
            except Violation:
                if k == len(cands) - 1:
                    raise
    return len(lines)


# ---------------------------------------------------------------- reading an experiment folder
INFO_HEAD = re.compile(r"^suite = '([^']*)', funcId = (\d+), DIM = (\d+), Precision = ([0-9.e+-]+), algId = '(.*)', coco_version = '([^']*)', "
                       r"logger = '([^']*)', data_format = '([^']*)'$")


def read_info(path):
    """List of dict(suite, f, d, alg, logger, dat, runs=[(inst, text after ':')])"""
    text = open(path).read()
    lines = text.split("\n")
    blocks, i = [], 0
    while i < len(lines):
        if lines[i] == "" and i == len(lines) - 1:
            break
        m = INFO_HEAD.match(lines[i])
        check(m is not None, "%s, line %d: no header line: %r", os.path.basename(path), i + 1, lines[i][:200])
        check(i + 2 < len(lines) and lines[i + 1].startswith("%"), "%s: incomplete block after line %d", os.path.basename(path), i + 1)
        parts = lines[i + 2].split(", ")
        runs = []
        for r in parts[1:]:
            q = re.match(r"^(\d+)(?::(\d+)\|([-+0-9.einfa]+))?$", r)
            check(q is not None, "%s: malformed run entry %r", os.path.basename(path), r)
            runs.append((int(q.group(1)), None if q.group(2) is None else int(q.group(2)), q.group(3)))
        blocks.append(dict(suite=m.group(1), f=int(m.group(2)), d=int(m.group(3)), prec=m.group(4), alg=m.group(5), version=m.group(6),
                           logger=m.group(7), fmt=m.group(8), dat=parts[0], runs=runs))
        i += 3
    return blocks


def segments(path, what):
    """Data lines of the runs in a data file: [(optimum text, [lines])]."""
    text = open(path).read()
    check(text == "" or text.endswith("\n"), "%s: the last line is incomplete", what)
    out = []
    for l in text.split("\n")[:-1]:
        if l.startswith("%"):
            m = HEADER.match(l)
            check(m is not None, "%s: malformed header %r", what, l)
            out.append((m.group(2), []))
        else:
            check(out, "%s: data before the first header", what)
            out[-1][1].append(l)
    return out


def expected_blocks(runs):
    """Groups of consecutive runs of the same function and dimension (runs without evaluation or recommendation leave no trace)."""
    out = []
    for r in runs:
        if not any(e[0] in "fm" for e in r.h):
            continue
        key = (r.ref[1], r.ref[2])
        if out and out[-1][0] == key:
            out[-1][1].append(r)
        else:
            out.append((key, [r]))
    return out


def info_precision(text, v, tol):
    c = {"%.1e" % w for w in (v, v - tol - 1e-12 * abs(v), v + tol + 1e-12 * abs(v))}
    if text in c:
        return True
    lo, hi = sorted((v - tol, v + tol))
    t = float(text)
    return lo - 0.0501 * 10 ** math.floor(math.log10(abs(lo) + 1e-300) + 1e-9) <= t <= hi + 0.0501 * 10 ** math.floor(
        math.log10(abs(hi) + 1e-300) + 1e-9) if tol else False


def check_folder(folder, runs, o, obsname, sel=("dat", "tdat", "info"), live=None):
    """Checks the result folder against the runs (in order). Returns counters. live: a run that is still open (no final lines yet)."""
    B = expected_blocks(runs)
    n = dict(dat=0, tdat=0, rdat=0, mdat=0, runs=0)
    ignored = False
    byfun = {}
    for key, rs in B:
        byfun.setdefault(key[0], []).append((key, rs))
    want = {"%s_f%d.info" % (o["prefix"], f) for f in byfun}
    have = {f for f in os.listdir(folder) if f.endswith(".info")}
    check(want == have, "index files %s, expected %s", sorted(have), sorted(want))
    used = set()
    for f, blocks in sorted(byfun.items()):
        name = "%s_f%d.info" % (o["prefix"], f)
        got = read_info(os.path.join(folder, name))
        check(len(got) == len(blocks), "%s: %d blocks, expected %d (%s)", name, len(got), len(blocks), [b["dat"] for b in got])
        for b, ((ff, dd), rs) in zip(got, blocks):
            check((b["f"], b["d"]) == (ff, dd), "%s: block of function %d, dimension %d where f%d, d%d was run", name, b["f"], b["d"], ff, dd)
            check(b["suite"] == rs[0].ref[0] and b["alg"] == o["algorithm_name"] and b["logger"] == obsname,
                  "%s: header names suite %r, algorithm %r, logger %r; expected %r, %r, %r", name, b["suite"], b["alg"], b["logger"],
                  rs[0].ref[0], o["algorithm_name"], obsname)
            check([r[0] for r in b["runs"]] == [r.ref[3] for r in rs], "%s: instances %s listed, %s were run (f%d, d%d)", name,
                  [r[0] for r in b["runs"]], [r.ref[3] for r in rs], ff, dd)
            base = b["dat"]
            check(base.endswith(".dat") and base.startswith("data_f%d/" % ff) and base not in used, "%s: data file name %r", name, base)
            used.add(base)
            segs = {}
            for ext in ("dat", "tdat", "rdat", "mdat"):
                path = os.path.join(folder, base[:-4] + "." + ext)
                check(os.path.isfile(path), "%s: file %s is missing", name, base[:-4] + "." + ext)
                segs[ext] = segments(path, base[:-4] + "." + ext)
                check(len(segs[ext]) == len(rs), "%s: %d runs in the file, %d were made", base[:-4] + "." + ext, len(segs[ext]), len(rs))
            for k, r in enumerate(rs):
                n["runs"] += 1
                what = "%s run %d (%s)" % (base[:-4], k + 1, r.ref)
                for ext in segs:
                    near_opt = abs(float(segs[ext][k][0]) - r.opt) <= 1e-12 * abs(r.opt) + 1e-300
                    check(near_opt, "%s.%s: header gives the optimum %s, it is %r", what, ext, segs[ext][k][0], r.opt)
                if "info" in sel and r.fe:
                    be = [quality(e[2], e[4], r.opt)[1] for e in r.h if e[0] == "f"]
                    tol = max([e[3] for e in r.h if e[0] == "f"] or [0])
                    inst, ev, pr = b["runs"][k]
                    check(ev == r.fe, "%s: run %d (instance %d) has %s evaluations in the index file, %d were made", name, k + 1, inst, ev,
                          r.fe)
                    check(pr is not None and info_precision(pr, min(be) - r.opt, tol + 1e-15 * abs(min(be))),
                          "%s: run %d (instance %d) has final precision %s in the index file, %r was reached", name, k + 1, inst, pr,
                          min(be) - r.opt)
                if "dat" in sel:
                    n["dat"] += check_dat(r, segs["dat"][k][1], o, what + " .dat")
                if "tdat" in sel:
                    a, ig = check_tdat(r, segs["tdat"][k][1], o, what + " .tdat")
                    n["tdat"] += a
                    ignored = ignored or ig
                if "rdat" in sel:
                    n["rdat"] += check_rdat(r, segs["rdat"][k][1], o, what + " .rdat")
                if "mdat" in sel:
                    n["mdat"] += check_mdat(r, segs["mdat"][k][1], o, what + " .mdat")
    if ignored:
        check(False, "option number_evaluation_triggers ignored: the evaluation-triggered lines are those of the default 20, not of %d",
              o["number_evaluation_triggers"])
    return n


# ---------------------------------------------------------------- scenarios
RunClass = None


def gen_scenario(rng, nruns, names=SINGLE, nops=(3, 25), maxdim=40, **kw):
    """dict(suite, obs, opts, runs=[dict(ref, ops, how)])"""
    name = rng.choice(names)
    if name == "bbob-largescale" and rng.random() < 0.5:
        name = "bbob"
    o = gen_options(rng)
    S = suites.SUITES[name]
    F = rng.sample(S["functions"], min(len(S["functions"]), rng.choice([1, 2, 2, 3])))
    dims = [d for d in probs.SMALL.get(name, S["dims"]) if d <= maxdim] or S["dims"][:1]
    D = rng.sample(dims[:4] if rng.random() < 0.75 else dims, min(len(dims), rng.choice([1, 1, 2])))
    I = [1] if name == "toy" else rng.sample(range(1, 16), rng.choice([1, 2, 3]))
    runs = []
    for _ in range(nruns):
        f, d, i = rng.choice(F), rng.choice(D), rng.choice(I)
        runs.append(dict(ref=[name, f, d, i], ops=gen_ops(rng, rng.randint(*nops), cons="constrained" in name, **kw),
                         how=rng.choice(["free", "free", "remove"])))
        if rng.random() < 0.1:
            runs[-1]["under"] = rng.randrange(60)
    return dict(suite=name, obs=rng.choice(OBSERVERS[name]), opts=o, runs=runs, last=rng.choice(["normal", "observer_first"]))


def play(L, case, folder="exp", before=None, removed=None):
    """Runs the scenario; returns (result folder, runs)."""
    name = case["suite"]
    insts = sorted({r["ref"][3] for r in case["runs"]})
    dims = sorted({r["ref"][2] for r in case["runs"]})
    S = L.suite(name, "instances: " + ",".join(map(str, insts)), "dimensions: " + ",".join(map(str, dims)))
    S2 = L.suite(name, "instances: " + ",".join(map(str, insts)), "dimensions: " + ",".join(map(str, dims)))
    obs = L.observer(case["obs"], case.get("text") or fmt_options(case["opts"]) + " outer_folder: . result_folder: %s" % folder)
    res = obs.folder
    runs = []
    for k, r in enumerate(case["runs"]):
        f, d, i = r["ref"][1:]
        twin = S2.by(f, d, i)
        t3 = S2.by(f, d, i)
        best = t3.best_parameter()
        t3.free()
        inner = S.by(f, d, i)
        check(inner is not None, "no problem %s", r["ref"])
        under = probs.Watched(L, inner, "under")     # another observer may already watch the problem
        if r.get("under") is not None and not any(op[0] == "m" for op in r["ops"]):
            under.add(r["under"])
        p0 = inner.p
        p = inner.observe(obs)
        R = (RunClass or Run)(L, r["ref"], p, twin, best, obs)
        runs.append(R)
        for op in r["ops"]:
            R.do(op)
        if before:
            before(R, p, obs, k)
        last = k == len(case["runs"]) - 1
        if last and case.get("last") == "observer_first":
            obs.free()
            p.free()
        elif r["how"] == "remove":
            p.unobserve(obs)
            check(p.p == p0, "removing the observer does not give the problem back")
            if removed:
                removed(R, p)
            p.f(R.init)
            p.free()
        else:
            p.free()
        for o in under.obs:
            o.free()
        twin.free()
    if obs.p:
        obs.free()
    S.free()
    S2.free()
    for d in os.listdir("."):
        if d.startswith("under"):
            shutil.rmtree(d, ignore_errors=True)
    return res, runs
