"""Driving observed runs of bi-objective problems, and the model of what the bi-objective observer's files must contain."""
import bisect, math, os, re
import numpy as np
import bboblog, coco, probs, suites
from engine import Violation, check
from suites import BIOBJ_INST, PAIRS

NAMES = ["bbob-biobj", "bbob-biobj-ext", "bbob-biobj-mixint"]
DISC = 5e-13
_REF = {}


def reference(pid):
    if not _REF:
        for l in open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "biobj_hyp.txt")):
            k, v = l.split()
            _REF[k] = float(v)
    return _REF.get(pid, 1.0)


# ---------------------------------------------------------------- reference model
def normalise(y, ideal, nadir):
    n = []
    for k in (0, 1):
        v = (y[k] - ideal[k]) / (nadir[k] - ideal[k])
        v = math.floor(v / DISC + 0.5) * DISC
        n.append(max(v, 0.0))
    for k in (0, 1):
        if n[k] < 1e-13 and n[1 - k] < 1:
            n[1 - k] = 1.0
    return tuple(n)


def tol(v):
    return 1e-11 + 4e-15 * abs(v)


def inside(n):
    return n[0] <= 1 + 1e-13 and n[1] <= 1 + 1e-13


class Archive:
    """Non-dominated points by brute force."""

    def __init__(self):
        self.P = []                 # (n0, n1, tag)
        self.dist = math.inf
        self.hv = 0.0

    def add(self, n, tag):
        """True when no point so far is at least as good in both objectives."""
        dx, dy = max(n[0] - 1, 0.0), max(n[1] - 1, 0.0)
        if inside(n):
            dx = dy = 0.0
        self.dist = min(self.dist, math.hypot(dx, dy))
        for p in self.P:
            if p[0] <= n[0] + 1e-13 and p[1] <= n[1] + 1e-13:
                return False
        self.P = [p for p in self.P if not (n[0] <= p[0] + 1e-13 and n[1] <= p[1] + 1e-13)]
        self.P.append((n[0], n[1], tag))
        self.hv = self.hypervolume()
        return True

    def hypervolume(self):
        pts = sorted((min(p[0], 1.0), min(p[1], 1.0)) for p in self.P if inside(p))
        hv, level = 0.0, 1.0
        for a, b in pts:
            if b < level:
                hv += (1 - a) * (level - b)
                level = b
        return hv

    def indicator(self, ref):
        return ref - self.hv + self.dist


# ---------------------------------------------------------------- running
class Run:
    def __init__(self, L, ref, p, twin, singles, obs, mode):
        self.L, self.ref, self.p, self.t, self.obs, self.mode = L, ref, p, twin, obs, mode
        self.d, self.lo, self.hi, self.ni = twin.d, twin.lower, twin.upper, twin.ni
        self.opt = [s.best_parameter() for s in singles]
        self.ideal = [float(s.best_value) for s in singles]
        self.nadir = [float(v) for v in twin.nadir]
        self.pid = twin.id
        self.rv = reference(self.pid) if ref[0] != "bbob-biobj-mixint" else 1.0
        self.known = ref[0] != "bbob-biobj-mixint"
        self.init = twin.initial()
        self.h = []                  # ["f", evaluation, x, y] ["r"] ["m", x, y]
        self.fe = 0
        self.X = []

    def point(self, kind, seed):
        g = np.random.default_rng(seed)
        if kind == "init":
            return self.init.copy()
        if kind == "repeat" and self.X:
            return self.X[int(g.integers(len(self.X)))].copy()
        if kind == "o0" or kind == "o1":
            return self.opt[int(kind[1])].copy()
        if kind == "between":
            return self.opt[0] + g.random() * (self.opt[1] - self.opt[0])
        if kind == "between0":      # close to one end
            k = int(g.integers(2))
            return self.opt[k] + 10 ** g.uniform(-9, 0) * (self.opt[1 - k] - self.opt[k])
        if kind == "noise":
            return self.opt[0] + g.random() * (self.opt[1] - self.opt[0]) + 10 ** g.uniform(-6, 0.3) * g.standard_normal(self.d)
        if kind == "tiny" and self.X:
            return self.X[int(g.integers(len(self.X)))] + 10 ** g.uniform(-13, -5) * g.standard_normal(self.d)
        if kind in ("nan", "inf", "far", "wide", "edge", "int", "grid", "zero", "axis"):
            return probs.make_point([kind, seed], self.d, self.lo, self.hi, self.opt[0])
        if kind == "out":
            return (self.lo + self.hi) / 2 + (self.hi - self.lo) * g.uniform(0.5, 4) * g.standard_normal(self.d)
        return self.lo + (self.hi - self.lo) * g.random(self.d)

    def do(self, op):
        k = op[0]
        if k in "fm":
            x = self.point(op[1], op[2])
            if np.any(np.abs(x[np.isfinite(x)]) > 1e5):
                return
            if self.ni and self.ref[2] and np.all(np.isfinite(x)):
                pass
            if k == "m":
                if np.all(np.isfinite(x)):
                    self.p.recommend(x)
                    self.h.append(["m", x, self.t.f(x)])
                return
            if self.mode == "read":
                if np.all(np.isfinite(x)):
                    self.feed(x, 1 + (op[2] % 3 and op[2] % 7))
                return
            y = self.p.f(x)
            if np.all(np.isfinite(x)):
                self.fe += 1
                self.h.append(["f", self.fe, x, y])
                self.X.append(x)
        elif k == "F":
            g = np.random.default_rng(op[2])
            X = self.lo + (self.hi - self.lo) * g.random((op[1], self.d))
            if g.random() < 0.6:
                X = self.opt[0] + g.random((op[1], 1)) * (self.opt[1] - self.opt[0]) + 10 ** g.uniform(-4, 0) * g.standard_normal(X.shape)
            for x in X:
                if self.mode == "read":
                    self.feed(x, 1 + int(g.integers(3)))
                    continue
                y = self.p.f(x)
                self.fe += 1
                self.h.append(["f", self.fe, x, y])
            self.X.append(X[-1])
        elif k == "r":
            self.obs.restart(self.p)
            self.h.append(["r"])
        elif k == "g" and self.mode == "read":
            self.feed(self.point("box", op[2]), op[1])

    def feed(self, x, inc):
        y = np.ascontiguousarray(self.t.f(x))
        self.fe += inc
        r = self.L.coco_logger_biobj_feed_solution(self.p.p, self.fe, y.ctypes.data)
        self.h.append(["f", self.fe, x, y, r])
        self.X.append(x)


# ---------------------------------------------------------------- files
def num(text, v, prec, tol, what):
    check(re.match(r"^-?\d(\.\d{%d})?e[+-]\d\d+$" % prec if prec else r"^-?\de[+-]\d\d+$", text) is not None, "%s: malformed number %r", what, text)
    check(abs(float(text) - v) <= 0.51 * 10.0 ** -prec * 10 ** math.floor(math.log10(abs(v) + 1e-300) + 1e-9) * 1.0001 + tol, "%s: file has %s, run has %r", what,
          text, v)


def check_run(run, seg, o, what):
    """seg: dict of data lines (dat, tdat, rdat, mdat) or None where no file is expected. Returns number of .dat lines."""
    A = Archive()
    pf = o["precision_f"]
    T = bboblog.Targets(o["number_target_triggers"], o["log_target_precision"], o["lin_target_precision"], run.known)
    ind = seg["dat"] is not None
    rows = {}
    n = 0
    if ind:
        for ext in ("dat", "tdat", "rdat"):
            rows[ext], prev = {}, -1
            for l in seg[ext]:
                f = l.split("\t")
                check(len(f) == (3 if ext == "dat" else 2) and f[0].isdigit(), "%s.%s: malformed line %r", what, ext, l[:120])
                check(int(f[0]) > prev, "%s.%s: line for evaluation %s after the one for %d", what, ext, f[0], prev)
                prev = int(f[0])
                rows[ext][prev] = f
        n = len(rows["dat"])
    E = {k: bboblog.EvalTrigger(k, o["base_evaluation_triggers"], run.d) for k in {20, o["number_evaluation_triggers"]}}
    trig = {k: {} for k in E}
    upd = []
    val, pend, wr, prev = None, False, {}, 0
    lastdat = False
    expect_dat = set()
    for e in run.h:
        if e[0] == "r":
            pend = pend or prev > 0
            continue
        if e[0] != "f":
            continue
        fe, x, y = e[1:4]
        w = "%s, evaluation %d" % (what, fe)
        old = val
        up = A.add(normalise(y, run.ideal, run.nadir), (fe, x, y))
        if len(e) > 4:
            check(bool(e[4]) == up, "%s: feeding the solution returned %d, archive %s", w, e[4], "updated" if up else "not updated")
        lastdat = False
        if up:
            upd.append((fe, x, y))
            val = A.indicator(run.rv)
        if ind:
            seen = fe in rows["dat"]
            final = fe == run.fe
            if up:
                ok = T.step(val, tol(val), seen)
                if not ok and seen and final:            # the final line
                    ok, seen = T.step(val, tol(val), False), False
                check(ok, "%s .dat: indicator value %r (before: %r) %s a new target, %s", w, val, old, "reaches no" if seen else "reaches",
                      "but a line is there" if seen else "but there is no line")
                lastdat = seen
            else:
                check(not seen or final, "%s .dat: line although the archive did not change", w)
            if fe in rows["dat"]:
                num(rows["dat"][fe][1], val, pf, tol(val), w + " .dat indicator value")
                t = float(rows["dat"][fe][2])
                L = T.last_targets()
                check(any(abs(t - v) <= 1e-9 * abs(v) + 10.0 ** -pf * abs(v) + 1e-14 for v in L), "%s .dat: target %s, expected %r", w, rows["dat"][fe][2],
                      sorted(L)[:3])
                expect_dat.add(fe)
        for k in E:
            for j in range(prev + 1, fe):
                if E[k].step(j):
                    trig[k][j] = old if old is not None else 0.0
            if E[k].step(fe):
                trig[k][fe] = val
        if pend:
            wr[fe] = val
            pend = False
        prev = fe
    ignored = False
    if ind and run.fe:
        check(run.fe in rows["dat"], "%s .dat: no line for the last evaluation %d", what, run.fe)
        check(set(rows["dat"]) == expect_dat, "%s .dat: lines for evaluations %s that were not made", what, sorted(set(rows["dat"]) - expect_dat)[:5])
        for k in trig:
            trig[k][run.fe] = val
        k = o["number_evaluation_triggers"]
        if set(rows["tdat"]) != set(trig[k]):
            if set(rows["tdat"]) == set(trig[20]):
                ignored, k = True, 20
            else:
                a, b = set(rows["tdat"]), set(trig[20])
                check(False, "%s .tdat: lines at evaluations %s missing, unexpected lines at %s", what, sorted(b - a)[:8], sorted(a - b)[:8])
        for j, v in trig[k].items():
            num(rows["tdat"][j][1], v, pf, tol(v), "%s .tdat evaluation %d" % (what, j))
        check(set(rows["rdat"]) == set(wr), "%s .rdat: lines at %s, restarts were followed by evaluations %s", what, sorted(rows["rdat"])[:8],
              sorted(wr)[:8])
        for j, v in wr.items():
            num(rows["rdat"][j][1], v, pf, tol(v), "%s .rdat evaluation %d" % (what, j))
    # recommendations
    M = [(k, e) for k, e in enumerate(run.h) if e[0] == "m"]
    check(len(M) == len(seg["mdat"]), "%s .mdat: %d lines, %d recommendations were made", what, len(seg["mdat"]), len(M))
    for (k, e), l in zip(M, seg["mdat"]):
        fe = max([0] + [h[1] for h in run.h[:k] if h[0] == "f"])
        solution(l, fe, e[1], e[2], run, o, "%s .mdat" % what)
    # archive
    if seg["adat"] is not None:
        S = upd if o["log_nondominated"] == "all" else sorted((p[2] for p in A.P), key=lambda t: t[0])
        check(len(S) == len(seg["adat"]), "%s archive (%s): %d lines, expected the %d solutions of evaluations %s", what, o["log_nondominated"],
              len(seg["adat"]), len(S), [s[0] for s in S][:12])
        for (fe, x, y), l in zip(S, seg["adat"]):
            solution(l, fe, x, y, run, o, "%s archive" % what)
    return n, len(A.P), ignored


def logs_vars(run, o):
    return o["log_decision_variables"] == "all" or (o["log_decision_variables"] == "low_dim" and run.d <= 5)


def solution(line, fe, x, y, run, o, what):
    f = line.split("\t")
    check(f[-1] == "", "%s: malformed line %r", what, line[:120])
    f = f[:-1]
    check(f and f[0] == str(fe), "%s: line of evaluation %s, expected %d", what, f[:1], fe)
    lv = logs_vars(run, o)
    check(len(f) == 3 + (run.d if lv else 0), "%s: %d fields for evaluation %d", what, len(f), fe)
    for k in (0, 1):
        num(f[1 + k], y[k], o["precision_f"], 1e-15 * abs(y[k]), "%s, evaluation %d, objective %d" % (what, fe, k))
    if lv:
        for k, (t, v) in enumerate(zip(f[3:], x)):
            if k < run.ni and o["log_discrete_as_int"]:
                check(re.match(r"^-?\d+$", t) is not None and abs(int(t) - v) <= 0.5 + 1e-9, "%s: integer variable printed as %s, is %r", what, t, v)
            else:
                num(t, v, o["precision_x"], 1e-15 * abs(v), "%s, evaluation %d, variable %d" % (what, fe, k))


def read_segments(path, what, kind):
    """Runs in a data file: [(header fields, data lines)]"""
    text = open(path).read()
    check(text == "" or text.endswith("\n"), "%s: the last line is incomplete", what)
    out, L, i = [], text.split("\n")[:-1], 0
    while i < len(L):
        l = L[i]
        if kind == "ind":
            if l == "%":
                m = re.match(r"^% index = (\d+), name = (.*)$", L[i + 1] if i + 1 < len(L) else "")
                q = re.match(r"^% instance = (\d+), reference value = (\S+)$", L[i + 2] if i + 2 < len(L) else "")
                check(m and q and i + 3 < len(L) and L[i + 3].startswith("% function evaluation | indicator value"), "%s: malformed header at line %d",
                      what, i + 1)
                out.append((dict(index=int(m.group(1)), name=m.group(2), inst=int(q.group(1)), ref=q.group(2)), []))
                i += 4
                continue
        elif l.startswith("% instance = "):
            m = re.match(r"^% instance = (\d+), name = (.*)$", l)
            check(m and i + 1 < len(L) and L[i + 1].startswith("% function evaluation | 2 objectives"), "%s: malformed header at line %d", what, i + 1)
            out.append((dict(name=m.group(2), inst=int(m.group(1)), vars="variables" in L[i + 1], end=None), []))
            i += 2
            continue
        elif l.startswith("% evaluations = ") and kind == "adat":
            check(out and out[-1][0]["end"] is None, "%s: stray line %r", what, l)
            out[-1][0]["end"] = int(l[16:])
            i += 1
            continue
        check(out and re.match(r"^\d+\t", l), "%s, line %d: unexpected line %r", what, i + 1, l[:100])
        out[-1][1].append(l)
        i += 1
    return out


def check_folder(folder, runs, o, suite):
    """Checks all files. Returns counters."""
    ind, nd = o["compute_indicators"], o["log_nondominated"]
    have = set()
    for root, _, files in os.walk(folder):
        for f in files:
            have.add(os.path.relpath(os.path.join(root, f), folder))
    want, queue, infos = set(), {}, {}
    for r in runs:
        pre = r.type + "/" + re.sub(r"_i\d+_d", "_d", r.pid)
        exts = [(pre + ".mdat", "mdat")]
        if ind:
            exts += [(pre + "_hyp." + e, e) for e in ("dat", "tdat", "rdat")]
            infos.setdefault(r.type + "_hyp.info", []).append(r)
        if nd in ("all", "final"):
            exts += [("archive/%s_nondom_%s.adat" % (r.pid, nd), "adat")]
        r.files = exts
        want |= {e[0] for e in exts}
    want |= set(infos)
    check(have == want, "result files: missing %s, unexpected %s", sorted(want - have)[:5], sorted(have - want)[:5])
    for f in want - set(infos):
        queue[f] = read_segments(os.path.join(folder, f), f, "ind" if "_hyp." in f else "adat" if f.endswith(".adat") else "mdat")
    tot = dict(dat=0, arch=0, runs=len(runs))
    ignored = False
    for k, r in enumerate(runs):
        seg = dict(dat=None, tdat=None, rdat=None, adat=None)
        what = "run %d (%s)" % (k + 1, r.pid)
        for f, e in r.files:
            check(queue[f], "%s: no entry in %s", what, f)
            h, seg[e] = queue[f].pop(0)
            check(h["name"] == r.name and h["inst"] == r.ref[3], "%s: entry of %s names %r instance %d", what, f, h["name"], h["inst"])
            if "ref" in h:
                check(h["index"] == r.index and abs(float(h["ref"]) - r.rv) <= 10.0 ** -o["precision_f"] * r.rv + 1e-15,
                      "%s: header of %s has index %d and reference value %s, expected %d and %r", what, f, h["index"], h["ref"], r.index, r.rv)
            else:
                check(h["vars"] == logs_vars(r, o), "%s: header of %s", what, f)
            if "end" in h and e == "adat":
                check(h["end"] == r.fe, "%s: %s ends with %s evaluations, %d were made", what, f, h["end"], r.fe)
        if r.fe == 0:
            continue
        a, b, ig = check_run(r, seg, o, what)
        tot["dat"] += a
        tot["arch"] = max(tot["arch"], b)
        ignored = ignored or ig
    for f, q in queue.items():
        check(not q, "%s: %d more entries than runs", f, len(q))
    if ind:
        prev = None
        text = {f: [] for f in infos}
        for r in runs:
            f = r.type + "_hyp.info"
            if prev != (r.ref[1], r.ref[2]):
                text[f].append(dict(f=r.ref[1], d=r.ref[2], dat=re.sub(r"_i\d+_d", "_d", r.pid) + "_hyp.dat", runs=[]))
            prev = (r.ref[1], r.ref[2])
            text[f][-1]["runs"].append(r)
        for f, B in text.items():
            L = open(os.path.join(folder, f)).read().split("\n")
            m = re.match(r"^suite = '([^']*)', algorithm = '([^']*)', indicator = 'hyp', folder = '([^']*)', coco_version = '[^']*'$", L[0])
            check(m and m.group(1) == suite and m.group(2) == o["algorithm_name"] and m.group(3) == f[:-9], "%s: first line %r", f, L[0][:200])
            check(len(L) >= 2 and L[1].startswith("% " + o.get("algorithm_info", "")), "%s: second line %r", f, L[1:2])
            check(len(L) == 2 + len(B), "%s: %d blocks, expected %d", f, len(L) - 2, len(B))
            for l, bl in zip(L[2:], B):
                q = l.split(", ")
                mm = re.match(r"^function = +(\d+)$", q[0])
                dd = re.match(r"^dim = +(\d+)$", q[1]) if len(q) > 2 else None
                check(mm and dd and int(mm.group(1)) == bl["f"] and int(dd.group(1)) == bl["d"] and q[2] == bl["dat"], "%s: block %r, expected f%d d%d",
                      f, l[:100], bl["f"], bl["d"])
                check(len(q) - 3 == len(bl["runs"]), "%s: %d runs listed for f%d d%d, %d were made", f, len(q) - 3, bl["f"], bl["d"], len(bl["runs"]))
                for t, r in zip(q[3:], bl["runs"]):
                    g = re.match(r"^(\d+):(\d+)\|(\S+)$", t)
                    check(g and int(g.group(1)) == r.ref[3] and int(g.group(2)) == r.fe, "%s: run entry %r, expected instance %d with %d evaluations", f, t,
                          r.ref[3], r.fe)
                    if r.fe:
                        A = Archive()
                        for e in r.h:
                            if e[0] == "f":
                                A.add(normalise(e[3], r.ideal, r.nadir), 0)
                        v = A.indicator(r.rv)
                        check(bboblog.info_precision(g.group(3), v, tol(v)), "%s: final indicator value %s, is %r", f, g.group(3), v)
    if ignored:
        check(False, "option number_evaluation_triggers ignored: the evaluation-triggered lines are those of the default 20, not of %d",
              o["number_evaluation_triggers"])
    return tot


# ---------------------------------------------------------------- scenarios
DEFAULTS = dict(bboblog.DEFAULTS, log_nondominated="all", log_decision_variables="low_dim", compute_indicators=1, precision_f=15)


def gen_options(rng):
    o = bboblog.gen_options(rng)
    o.pop("prefix", None)
    if rng.random() < 0.5:
        o["log_nondominated"] = rng.choice(["all", "final", "final", "none", "read"])
    if rng.random() < 0.5:
        o["log_decision_variables"] = rng.choice(["all", "none", "low_dim"])
    if rng.random() < 0.15:
        o["compute_indicators"] = rng.choice([0, 1])
    if rng.random() < 0.1:
        o["produce_all_data"] = rng.choice([0, 1, 1])
    if rng.random() < 0.2:
        o["precision_f"] = rng.choice([1, 3, 8, 16, 17, 32])
    if rng.random() < 0.3:
        o["precision_x"] = rng.choice([1, 4, 12, 17, 32])
    return o


def opts(o):
    r = dict(DEFAULTS, **o)
    if r.get("produce_all_data"):
        r.update(compute_indicators=1, log_nondominated="all", log_decision_variables="low_dim")
    return r


KINDS = ["between", "between", "between0", "noise", "noise", "noise", "box", "box", "box", "out", "repeat", "repeat", "tiny", "o0", "o1", "init", "int", "edge",
         "wide", "nan"]


def gen_ops(rng, n):
    ops = []
    for _ in range(n):
        r = rng.random()
        if r < 0.1:
            ops.append(["F", rng.choice([3, 10, 30, 100]), rng.randrange(1 << 30)])
        elif r < 0.17:
            ops.append(["r"])
        elif r < 0.25:
            ops.append(["m", rng.choice(KINDS), rng.randrange(1 << 30)])
        elif r < 0.3:
            ops.append(["g", rng.choice([1, 10, 100, 1000, 10000]), rng.randrange(1 << 30)])
        else:
            ops.append(["f", rng.choice(KINDS), rng.randrange(1 << 30)])
    return ops


def gen_scenario(rng, nruns):
    name = rng.choice(NAMES)
    S = suites.SUITES[name]
    F = rng.sample(S["functions"], rng.choice([1, 2, 2, 3]))
    dims = [d for d in S["dims"] if d <= 40]
    D = rng.sample(dims[:4] if rng.random() < 0.8 else dims, rng.choice([1, 1, 2]))
    I = rng.sample(range(1, 16), rng.choice([1, 2, 3]))
    runs = []
    for _ in range(nruns):
        runs.append(dict(ref=[name, rng.choice(F), rng.choice(D), rng.choice(I)], ops=gen_ops(rng, rng.randint(3, 40)),
                         how=rng.choice(["free", "free", "remove"])))
    return dict(suite=name, obs=rng.choice(NAMES), opts=gen_options(rng), runs=runs, last=rng.choice(["normal", "observer_first"]))


def play(L, case, folder="exp"):
    name = case["suite"]
    o = opts(case["opts"])
    insts = ",".join(map(str, sorted({r["ref"][3] for r in case["runs"]})))
    dims = ",".join(map(str, sorted({r["ref"][2] for r in case["runs"]})))
    S = L.suite(name, "instances: " + insts, "dimensions: " + dims)
    S2 = L.suite(name, "instances: " + insts, "dimensions: " + dims)
    single = "bbob-mixint" if "mixint" in name else "bbob"
    obs = L.observer(case["obs"], case.get("text") or bboblog.fmt_options(case["opts"]) + " outer_folder: . result_folder: %s" % folder)
    active = o["compute_indicators"] or o["log_nondominated"] != "none"
    runs = []
    res = obs.folder
    for k, r in enumerate(case["runs"]):
        f, d, i = r["ref"][1:]
        twin = S2.by(f, d, i)
        ii = BIOBJ_INST[i]
        SS = L.suite(single, "instances: %d,%d" % ii, "dimensions: %d" % d)
        singles = [SS.by(PAIRS[f - 1][k], d, ii[k]) for k in (0, 1)]
        inner = S.by(f, d, i)
        p0 = inner.p
        p = inner.observe(obs)
        R = Run(L, r["ref"], p, twin, singles, obs, o["log_nondominated"] if active else "all")
        R.name, R.type, R.index = twin.name, twin.type, twin.index
        runs.append(R)
        for op in r["ops"]:
            if op[0] == "r" and not active:
                continue
            R.do(op)
        if k == len(case["runs"]) - 1 and case.get("last") == "observer_first":
            obs.free()
            p.free()
        elif r["how"] == "remove":
            p.unobserve(obs)
            check(p.p == p0 or not active, "removing the observer does not give the problem back")
            p.f(R.init)
            p.free()
        else:
            p.free()
        for q in singles + [twin]:
            q.free()
        SS.free()
    if obs.p:
        obs.free()
    S.free()
    S2.free()
    return res, runs, active
