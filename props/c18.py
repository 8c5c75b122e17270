"""C18: fresh result folders and complete records of experiments (model-based: generated folder trees, option strings, run orders, races)."""
import hashlib, os, re, shutil
import numpy as np
import biobjlog, bboblog, build, coco, probs
from engine import Prop, check

OBS = ["bbob", "bbob-biobj", "toy", "rw", "bbob-old", "bbob-constrained", "bbob-largescale", "bbob-mixint", "bbob-noisy", "bbob-boxed",
       "bbob-biobj-ext", "bbob-biobj-mixint"]
NAMES = ["res", "res-0001", "A_on_bbob", "x.y", "r-0002", "f%d", "Z" * 60]


def suite_for(obs):
    if "biobj" in obs:
        return obs
    if obs in ("toy",):
        return "toy"
    if obs in ("rw", "bbob-old", "bbob"):
        return "bbob"
    return obs


def tree(root):
    """path -> digest of everything below root."""
    out = {}
    for d, ds, fs in os.walk(root):
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), root)] = "dir"
        for x in fs:
            p = os.path.join(d, x)
            out[os.path.relpath(p, root)] = hashlib.sha1(open(p, "rb").read()).hexdigest()
    return out


class C18(Prop):
    id = "C18"
    rule = ("a case is non-trivial when a requested folder name is already taken at least once, or when an experiment has runs in at least "
            "two blocks of the index files")
    assumptions = ["races are sampled: several processes create observers for the same folder at the same time"]
    quick_cases = 10000
    thorough_cases = 40000
    chunk = 10

    def setup(self, tier):
        self.path = build.shared_lib("plain")

    def gen(self, rng, i, tier):
        kind = ["folders", "folders", "runs", "runs", "biruns", "next", "next"][i % 7]
        if i % 60 == 59:
            return dict(kind="race", n=rng.choice([2, 4, 8]), obs=rng.choice(OBS), name=rng.choice(NAMES), deep=rng.random() < 0.5)
        if kind == "folders":
            pre = [[rng.choice(["exdata", "exdata", "out", "out/deep", "."]), rng.choice(NAMES), rng.choice(["dir", "dir", "file"]),
                    rng.randint(0, 3)] for _ in range(rng.randint(0, 4))]
            obs = []
            for _ in range(rng.randint(1, 5)):
                name = rng.choice(NAMES[:3] + [rng.choice(NAMES)])
                if rng.random() < 0.2:
                    name = rng.choice(["sub/", "a/b/"]) + name
                if rng.random() < 0.2:
                    name += "/"
                obs.append([rng.choice(OBS), rng.choice(["exdata", None, "out", "out/deep", "out/deep/er", "ABS", "."]),
                            name if rng.random() < 0.9 else None, rng.randint(0, 4), rng.random() < 0.3])
                if obs[-1][0] == "bbob-old":
                    obs[-1][4] = False      # only one legacy observer can be active at a time
            return dict(kind=kind, pre=pre, obs=obs)
        if kind == "runs":
            if i % 21 == 2:         # short runs that come back to the same functions and dimensions many times
                c = bboblog.gen_scenario(rng, rng.randint(8, 30), nops=(0, 3), maxdim=5, batch=False, restarts=False, recs=False)
                refs = [r["ref"] for r in c["runs"][:rng.choice([2, 2, 3, 4])]]
                for k, r in enumerate(c["runs"]):
                    r["ref"] = refs[k % len(refs)] if rng.random() < 0.9 else r["ref"]
            else:
                c = bboblog.gen_scenario(rng, rng.randint(2, 9), nops=(0, 4), batch=False)
            c["opts"].pop("number_evaluation_triggers", None)      # known finding of C14, not judged here
            c["kind"] = kind
            return c
        if kind == "biruns":
            c = biobjlog.gen_scenario(rng, rng.randint(2, 6))
            for r in c["runs"]:
                r["ops"] = [op for op in r["ops"] if op[0] != "F"][:rng.randint(0, 4)]
            c["opts"].pop("number_evaluation_triggers", None)      # known finding of C16, not judged here
            c["kind"] = kind
            return c
        name = rng.choice(bboblog.SINGLE)
        S = probs.suites.SUITES[name]
        dims = probs.SMALL.get(name, S["dims"])[:3]
        return dict(kind="next", suite=name, obs=rng.choice(bboblog.OBSERVERS[name]),
                    f=sorted(rng.sample(range(1, len(S["functions"]) + 1), rng.randint(1, 3))), d=sorted(rng.sample(dims, rng.randint(1, 2))),
                    i=[1] if name == "toy" else sorted(rng.sample(range(1, 16), rng.randint(1, 3))), skip=[rng.random() < 0.2 for _ in range(30)],
                    ev=[rng.randint(1, 3) for _ in range(30)], loops=rng.choice([1, 1, 2]))

    def run(self, case):
        L = coco.Lib(self.path)
        d = os.path.join(os.getcwd(), "w")
        shutil.rmtree(d, ignore_errors=True)
        os.mkdir(d)
        here = os.getcwd()
        os.chdir(d)
        try:
            return getattr(self, "run_" + case["kind"])(L, case, d)
        finally:
            os.chdir(here)

    def run_folders(self, L, case, d):
        for k, (outer, name, kind, nf) in enumerate(case["pre"]):
            p = os.path.join(outer, name)
            if os.path.lexists(p):
                continue
            os.makedirs(outer, exist_ok=True)
            if kind == "file":
                open(p, "w").write("not a folder %d" % k)
            else:
                os.mkdir(p)
                for q in range(nf):
                    open(os.path.join(p, ["bbobexp_f1.info", "data.dat", "first_hitting_times.dat"][q]), "w").write("earlier %d" % k)
        taken = 0
        live = []
        for name, outer, res, ev, keep in case["obs"]:
            before = tree(d)
            o = ""
            eff_outer, eff_res = outer, res
            if outer == "ABS":
                eff_outer = d + "/abs"
            if outer is not None:
                o += "outer_folder: %s " % eff_outer
            if res is not None:
                o += "result_folder: %s" % res
            # a path component that is a regular file cannot be used; such requests end with an error message instead
            comps = os.path.join(eff_outer or "exdata", (eff_res or "default")).split("/")
            path, bad = "", False
            for cpt in comps[:-1] if comps[-1] else comps[:-2]:
                path = path + cpt + "/"
                if cpt and os.path.isfile(path[:-1]):
                    bad = True
            if bad:
                continue
            ob = L.observer(name, o)
            want = os.path.normpath(os.path.join(eff_outer or "exdata", eff_res or "default"))
            got = os.path.normpath(ob.folder)
            rel = lambda p: os.path.relpath(os.path.join(d, p), d)
            check(os.path.isdir(got), "observer %s, options %r: result folder %r does not exist", name, o, ob.folder)
            check(rel(got) not in before, "observer %s, options %r: the result folder %r existed before", name, o, ob.folder)
            if rel(want) in before:
                taken += 1
                m = re.match(re.escape(want) + r"-(\d{4})$", got)
                check(m is not None, "observer %s, options %r: result folder %r is not derived from %r", name, o, ob.folder, want)
                k = 1
                while rel(want + "-%04d" % k) in before:
                    k += 1
                check(int(m.group(1)) == k, "observer %s, options %r: result folder %r, the first free name is %s-%04d", name, o, ob.folder, want,
                      k)
            else:
                check(got == want, "observer %s, options %r: result folder %r although %r was free", name, o, ob.folder, want)
            if ev:
                s = L.suite(suite_for(name), "instances: 1", "dimensions: %d" % (5 if "mixint" in name else 20 if "large" in name else 2))
                p = s.next(ob)
                for q in range(ev):
                    p.f(p.initial() + 0.01 * q)
                if keep:
                    live.append((s, ob))
                else:
                    s.free()
                    ob.free()
            elif keep:
                live.append((None, ob))
            else:
                ob.free()
            after = tree(d)
            g = rel(got)
            for x, h in before.items():
                if any(x == rel(o2.folder) or x.startswith(rel(o2.folder) + os.sep) for _, o2 in live):
                    continue
                check(after.get(x) == h, "observer %s, options %r: %r, which existed before, was %s", name, o, x,
                      "removed" if x not in after else "changed")
            for x in after:
                if x not in before:
                    check(x == g or x.startswith(g + os.sep) or g.startswith(x + os.sep), "observer %s, options %r: %r appeared outside the "
                          "result folder %r", name, o, x, g)
            if ev:
                check(any(x.startswith(g + os.sep) for x in after), "observer %s, options %r: no data in the result folder", name, o)
        for s, ob in live:
            if s:
                s.free()
            ob.free()
        return dict(nontrivial=taken > 0, evals=len(case["obs"]), tags=["folders"])

    def run_race(self, L, case, d):
        r, w = os.pipe()
        gate_r, gate_w = os.pipe()
        kids = []
        for k in range(case["n"]):
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(gate_w)
                    os.read(gate_r, 1)
                    out = []
                    for q in range(4):
                        ob = L.observer(case["obs"], "%sresult_folder: %s" % ("outer_folder: a/b/c/e " if case["deep"] else "", case["name"]))
                        out.append(os.path.normpath(ob.folder))
                    os.write(w, ("\n".join(out) + "\n").encode())
                    os._exit(0)
                finally:
                    os._exit(7)
            kids.append(pid)
        os.close(w)
        os.close(gate_r)
        os.close(gate_w)
        text = b""
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            text += b
        os.close(r)
        for pid in kids:
            _, st = os.waitpid(pid, 0)
            check(st == 0, "a process creating an observer failed (status %d)", st)
        F = text.decode().split()
        check(len(F) == 4 * case["n"] and len(set(F)) == len(F), "%d observers share result folders: %s", len(F),
              sorted(f for f in set(F) if F.count(f) > 1))
        return dict(nontrivial=True, evals=len(F), tags=["race"])

    def run_runs(self, L, case, d):
        o = bboblog.opts(case["opts"])
        bboblog.RunClass = None
        folder, runs = bboblog.play(L, case)
        n = bboblog.check_folder(folder, runs, o, case["obs"], ("dat", "tdat", "info"))
        B = len(bboblog.expected_blocks(runs))
        have = {os.path.relpath(os.path.join(a, f), folder) for a, _, fs in os.walk(folder) for f in fs}
        check(len([f for f in have if f.endswith("dat")]) == 4 * B, "%d data files, expected %d: %s", len([f for f in have if f.endswith("dat")]),
              4 * B, sorted(have))
        return dict(nontrivial=B >= 2, evals=n["runs"], tags=["runs"])

    def run_biruns(self, L, case, d):
        folder, runs, active = biobjlog.play(L, case)
        if not active:
            return dict(nontrivial=False, tags=["biruns"])
        biobjlog.check_folder(folder, runs, biobjlog.opts(case["opts"]), case["suite"])
        return dict(nontrivial=len({(r.ref[1], r.ref[2]) for r in runs}) >= 2, evals=len(runs), tags=["biruns"])

    def run_next(self, L, case, d):
        """The usual experiment loop over a suite; some problems are not evaluated at all."""
        name = case["suite"]
        sopt = ("instances: " + ",".join(map(str, case["i"])), "dimensions: %s function_indices: %s" % (
            ",".join(map(str, case["d"])), ",".join(map(str, case["f"]))))
        ob = L.observer(case["obs"], "outer_folder: . result_folder: exp")
        folder = ob.folder
        runs, k = [], 0

        class Fake:
            pass
        for loop in range(case["loops"]):
            s = L.suite(name, *sopt)
            t = L.suite(name, *sopt)
            while True:
                p = s.next(ob)
                q = t.next()
                check((p is None) == (q is None), "observed and unobserved suite differ in length")
                if p is None:
                    break
                ev = 0 if case["skip"][k % 30] else case["ev"][k % 30]
                m = re.match(r".*_f(\d+)_i(\d+)_d(\d+)$", q.id)
                if m:
                    f, i, dd = map(int, m.groups())
                else:                       # toy: no instance in the identifier
                    f, i, dd = case["f"][k % (len(case["f"]) * len(case["d"])) % len(case["f"])], 1, q.d
                r = Fake()
                r.ref = [name, f, dd, i]
                r.h, r.fe, r.nc, r.opt = [], 0, q.nc, float(q.best_value)
                for e in range(ev):
                    x = p.initial() * (1 - 0.1 * e)
                    y = p.f(x)[0]
                    r.fe += 1
                    r.h.append(["f", x, float(y), 0.0, q.c(x) if q.nc else None, 0])
                r.noisy = name == "bbob-noisy" or None
                if r.noisy and r.h:         # noise: the index file carries the noise-free value, which is not modelled here
                    r.skipinfo = True
                runs.append(r)
                k += 1
            s.free()
            t.free()
        ob.free()
        if name == "bbob-noisy":
            bboblog.check_folder(folder, runs, bboblog.opts({}), case["obs"], ())
        else:
            bboblog.check_folder(folder, runs, bboblog.opts({}), case["obs"], ("info",))
        return dict(nontrivial=len(bboblog.expected_blocks(runs)) >= 2, evals=len(runs), tags=["next"])


PROP = C18()
