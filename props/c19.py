"""C19: logged data survive a crash at any point between two operations (fault enumeration over generated histories).

Every operation boundary of a history is a crash point: what is on disk there (and would survive the death of the process) must hold every
complete data line that has been produced so far; the lines still in the process are found by flushing all streams afterwards. One crash point
per history is also exercised by really killing a process that has done the same."""
import ctypes, os, re, shutil, signal
import numpy as np
import bboblog, build, coco, probs, pts, suites
from engine import Prop, Violation, check

OBS = {"bbob": ["bbob", "bbob-old", "rw", "toy"], "bbob-boxed": ["bbob-boxed", "rw", "toy"], "bbob-largescale": ["bbob-largescale"],
       "bbob-noisy": ["bbob-noisy", "bbob-old", "rw"], "bbob-mixint": ["bbob-mixint", "rw"], "bbob-constrained": ["bbob-constrained", "rw"],
       "toy": ["toy", "bbob"], "bbob-biobj": ["bbob-biobj", "bbob-biobj", "rw"], "bbob-biobj-ext": ["bbob-biobj-ext"],
       "bbob-biobj-mixint": ["bbob-biobj-mixint"]}


def read(folder):
    out = {}
    for d, _, fs in os.walk(folder):
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, folder)] = open(p, "rb").read().decode("latin1")
    return out


def data_lines(text):
    """Data lines with the number of the header they follow; headers and empty lines only count once data follow."""
    out, h, part = [], 0, ""
    ls = text.split("\n")
    if ls[-1] != "":
        part = ls[-1]
    for l in ls[:-1]:
        if l.startswith("%") or l.startswith("suite =") or l == "":
            h += l.startswith("%")
        else:
            out.append((h, l))
    return out, part


def compare(disk, full, when):
    for f, t in full.items():
        if f.endswith(".info"):
            closed = re.findall(r"\d+:\d+\|[^,\n]+", t)
            check(re.findall(r"\d+:\d+\|[^,\n]+", disk.get(f, "")) == closed, "%s: index file %s on disk lists %s, %s are finished", when, f,
                  re.findall(r"\d+:\d+\|[^,\n]+", disk.get(f, "")), closed)
            continue
        a, pa = data_lines(disk.get(f, ""))
        b, pb = data_lines(t)
        check(not (re.match(r"^[0-9]", pa)), "%s: %s ends with a torn line on disk: %r", when, f, pa[:80])
        check(a == b, "%s: %s has %d data lines on disk, %d were produced; the first missing or different one is %r", when, f, len(a), len(b),
              next((y for x, y in zip(a + [None] * len(b), b) if x != y), None))
    return sum(len(data_lines(t)[0]) for f, t in full.items() if not f.endswith(".info"))


class C19(Prop):
    id = "C19"
    level = "fault_enumeration"
    rule = "a history is non-trivial when at least 8 data lines were produced before its last crash point"
    assumptions = ["a crash is the death of the process (the operating system survives): what has been written to the file stays",
                   "crash points lie between API calls"]
    quick_cases = 5000
    thorough_cases = 30000
    chunk = 10

    def setup(self, tier):
        self.path = build.shared_lib("plain")

    def gen(self, rng, i, tier):
        name = rng.choice(list(OBS))
        obs = rng.choice(OBS[name])
        o = bboblog.gen_options(rng)
        if obs in ("toy", "bbob-old"):
            o.pop("number_target_triggers", None)
        for k in ("algorithm_name", "prefix"):
            o.pop(k, None)
        if "biobj" in obs:
            o["log_nondominated"] = rng.choice(["all", "all", "final", "none", "read"])
            o["log_decision_variables"] = rng.choice(["all", "none", "low_dim"])
            o["compute_indicators"] = rng.choice([1, 1, 1, 0])
        feed = "biobj" in obs and o["log_nondominated"] == "read" and (o["compute_indicators"] or "produce_all_data" in o)
        if "biobj" in obs and o["log_nondominated"] == "read" and not feed:
            o["log_nondominated"] = "all"
        if obs == "rw":
            o["log_only_better"] = rng.choice([0, 1])
        runs = []
        f, d = None, None
        for _ in range(rng.choice([1, 1, 2, 3])):
            r = probs.ref(rng, [name], maxdim=20)
            if f is not None and rng.random() < 0.5:
                r[1], r[2] = f, d
            f, d = r[1], r[2]
            if feed:
                ops = [["r"] if rng.random() < 0.1 else ["g", rng.choice([1, 1, 2, 5, 20, 100, 1000]), rng.choice(pts.KINDS), rng.randrange(1 << 30)] for _ in range(rng.randint(2, 14))]
                runs.append(dict(ref=r, ops=ops))
                continue
            runs.append(dict(ref=r, ops=bboblog.gen_ops(rng, rng.randint(2, 14), cons="constrained" in name, recs=obs in bboblog.OBSERVERS or "biobj" in obs)))
        return dict(suite=name, obs=obs, opts=o, runs=runs, kill=rng.randrange(30))

    def play(self, L, case, folder, step):
        obs = L.observer(case["obs"], bboblog.fmt_options(case["opts"]) + " outer_folder: . result_folder: " + folder)
        n = 0
        ks = []
        for r in case["runs"]:
            ks.append(0)
            s, p = probs.open_problem(L, r["ref"])
            s2, t = probs.open_problem(L, r["ref"])
            best = probs.best_point(L, r["ref"])
            p.observe(obs)
            R = bboblog.Run(L, r["ref"], p, t, best, obs)
            for op in r["ops"]:
                if op[0] == "g":
                    y = np.ascontiguousarray(t.f(pts.point(op[2:], p.d, p.lower, p.upper, best)))
                    R.fe += op[1]
                    L.coco_logger_biobj_feed_solution(p.p, R.fe, y.ctypes.data)
                elif op[0] in "FwfcM" or "biobj" not in case["suite"] or op[0] in "rm":
                    R.do(op)
                n += 1
                step(n, obs, len(ks) - 1, R.fe)
            p.free()
            t.free()
            s.free()
            s2.free()
            n += 1
            step(n, obs, len(ks) - 1, None)
        return n

    def run(self, case):
        L = coco.Lib(self.path)
        libc = ctypes.CDLL(None)
        for d in ("a", "b", "a-0001", "b-0001"):
            shutil.rmtree(d, ignore_errors=True)
        produced = [0]
        total = sum(len(r["ops"]) + 1 for r in case["runs"])
        kill_at = 1 + case["kill"] % total
        ref = {}

        hist, ends = [], []      # what was on disk at every crash point; number of data lines at the end of every run

        def step(n, obs, k, fe):
            disk = read(obs.folder)
            hist.append((n, k, fe, {f: [l for _, l in data_lines(t)[0]] for f, t in disk.items() if not f.endswith(".info")}))
            if fe is None:
                ends.append({f: len(v) for f, v in hist[-1][3].items()})
            libc.fflush(None)
            full = read(obs.folder)
            produced[0] = max(produced[0], compare(disk, full, "crash after operation %d" % n))
            if n == kill_at:
                ref.update(full)

        # the same history in a process that is killed
        pid = os.fork()
        if pid == 0:
            try:
                L.coco_reset_seeds()
                def stop(n, obs, k, fe):
                    if n == kill_at:
                        os.kill(os.getpid(), signal.SIGKILL)
                self.play(L, case, "b", stop)
            finally:
                os._exit(5)
        _, st = os.waitpid(pid, 0)
        check(os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGKILL, "the process to be killed ended with status %d", st)
        left = read("b")
        L.coco_reset_seeds()
        self.play(L, case, "a", step)
        compare(left, ref, "process killed after operation %d" % kill_at)
        final = hist[-1][3]
        for n, k, fe, now in hist:
            for f, a in now.items():
                b = final.get(f, [])
                check(b[:len(a)] == a, "%s: data lines on disk after operation %d are lost or changed at the end: %d lines then, %d in the end", f, n, len(a), len(b))
            if fe is None:
                continue
            for f, b in final.items():      # every line of an earlier evaluation of this run is there already
                if f.endswith(".adat") and case["opts"].get("log_nondominated") == "final":
                    continue
                lo = ends[k - 1].get(f, 0) if k else 0
                for j in range(max(lo, len(now.get(f, []))), ends[k].get(f, 0)):
                    m = re.match(r"\s*(\d+)\s", b[j])
                    check(not m or int(m.group(1)) >= fe or int(m.group(1)) == 0, "crash after operation %d (%d evaluations): %s lacks the line %r of an earlier evaluation", n,
                          fe, f, b[j])
        shutil.rmtree("a", ignore_errors=True)
        shutil.rmtree("b", ignore_errors=True)
        return dict(nontrivial=produced[0] >= 8, evals=total, tags=[case["obs"]])

    def coverage(self):
        return {"crash_points": "every operation boundary of every history, one of them with a killed process"}


PROP = C19()
