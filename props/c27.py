"""C27: verbosity levels and removal of folders (metamorphic over log levels; model-based over generated folder trees)."""
import ctypes, hashlib, os, pwd, re, shutil, stat, tempfile
import numpy as np
import build, coco, probs, pts, suites
from engine import Prop, check

LEVELS = ["error", "warning", "info", "debug"]
NAMES = [n for n in suites.NAMES if n != "bbob-largescale"]
TIME = re.compile(r"\d\d\.\d\d\.\d\d \d\d:\d\d:\d\d")
FILES = ["a", "b.txt", ".hidden", "with space", "x-0001", "data_f1", "ä", "..x", "...", "%d", "-rf", "*", "n" * 120]


def snapshot(root):
    out = {}
    for d, ds, fs in os.walk(root, followlinks=False):
        for x in ds + fs:
            p = os.path.join(d, x)
            st = os.lstat(p)
            r = os.path.relpath(p, root)
            if stat.S_ISLNK(st.st_mode):
                out[r] = "link " + os.readlink(p)
            elif stat.S_ISDIR(st.st_mode):
                out[r] = "dir"
            elif not stat.S_ISREG(st.st_mode):
                out[r] = "special"
            else:
                out[r] = "file " + hashlib.sha1(open(p, "rb").read()).hexdigest()
    return out


class C27(Prop):
    id = "C27"
    rule = ("a case is non-trivial when a removal meets at least three entries, or when the same history printed something at the levels "
            "warning, info or debug")
    assumptions = ["folder removals run as an unprivileged user inside a scratch folder of its own"]
    quick_cases = 4000
    thorough_cases = 40000
    chunk = 10

    def setup(self, tier):
        self.path = build.shared_lib("plain")
        self.uid = pwd.getpwnam("nobody").pw_uid if any(u.pw_name == "nobody" for u in pwd.getpwall()) else 65534

    # ------------------------------------------------------------ generation
    def gen(self, rng, i, tier):
        if i % 2 == 0:
            return self.gen_rm(rng)
        return self.gen_log(rng)

    def gen_rm(self, rng):
        """A tree: [parent index (-1 = the target, -2 = beside it), kind, name, ...]"""
        ent = []
        for _ in range(rng.choice([0, 1, 3, 8, 20, 60])):
            dirs = [-1, -1, -2] + [k for k, e in enumerate(ent) if e[1] == "dir"]
            kind = rng.choice(["file", "file", "file", "dir", "dir", "link", "fifo", "robin"] if rng.random() < 0.4 else ["file", "file", "dir"])
            ent.append([rng.choice(dirs), kind, rng.choice(FILES), rng.choice(["out-file", "out-dir", "in-file", "nowhere", "parent", "self"])])
        return dict(kind="rm", ent=ent, how=rng.choice(["rel", "rel", "abs", "slash", "dot", "sub", "missing", "file"]),
                    locked=rng.choice([-1] * 5 + [rng.randrange(len(ent))]) if ent else -1, twice=rng.random() < 0.3)

    def gen_log(self, rng):
        n = rng.choice(NAMES)
        S = suites.SUITES[n]
        dims = sorted(rng.sample([d for d in probs.SMALL.get(n, S["dims"]) if d <= 40], rng.choice([1, 2])))
        k = len(S["functions"])
        fi = sorted(rng.sample(range(1, k + 1), min(k, rng.choice([1, 2, 3, 5]))))
        inst = [1] if n == "toy" else rng.sample(range(1, 16), rng.choice([1, 1, 2, 3]))
        o = "dimensions: %s function_indices: %s" % (",".join(map(str, dims)), ",".join(map(str, fi)))
        if rng.random() < 0.3:
            o += rng.choice([" unknown_key: 3", " functions: 2", " bla: a bli: b"])
        obs = rng.choice(["bbob-biobj" if "biobj" in n else "bbob", "rw", "toy" if "biobj" not in n else "rw", "no_observer", ""])
        oo = "result_folder: r" + rng.choice(["", "", " precision_x: 99", " no_such_key: 1", " log_target_precision: -1", " number_target_triggers: 7"])
        ops = []
        for _ in range(rng.randint(1, 12)):
            ops.append(rng.choice([["next"], ["next"], ["eval", rng.randint(1, 5), rng.randrange(1 << 30)], ["restart"], ["rec", rng.randrange(1 << 30)],
                                   ["level", rng.choice(["", "bla", "Error", "warn", "INFO"])], ["nan"]]))
        if rng.random() < 0.5:
            ops.append(["all"])
        return dict(kind="log", suite=n, inst=inst, opts=o, obs=obs, oopts=oo, ops=ops, tail=rng.choice(["", "", "", "bad suite", "bad observer"]),
                    set=[rng.choice(LEVELS + ["", "none", "errors"]) for _ in range(4)])

    # ------------------------------------------------------------ folder removal
    def run_rm(self, case):
        os.chmod(os.environ["VERIF_SCRATCH"], 0o711)
        root = tempfile.mkdtemp(prefix="rm-", dir=os.environ["VERIF_SCRATCH"])
        try:
            os.chmod(root, 0o755)
            return self.do_rm(case, root)
        finally:
            for d, ds, fs in os.walk(root):
                for x in ds:
                    if not os.path.islink(os.path.join(d, x)):
                        os.chmod(os.path.join(d, x), 0o700)
            shutil.rmtree(root, ignore_errors=True)

    def do_rm(self, case, root):
        target = os.path.join(root, "target")
        side = os.path.join(root, "side")
        for d in (target, side, os.path.join(side, "deep")):
            os.mkdir(d)
        for f in ("keep", "deep/keep2", "target"):
            open(os.path.join(side, f), "w").write("precious " + f)
        open(os.path.join(root, "target.txt"), "w").write("sibling")
        os.mkdir(os.path.join(root, "target-0001"))
        paths, n = [], 0
        for par, kind, name, dest in case["ent"]:
            base = target if par == -1 else side if par == -2 else paths[par] if 0 <= par < len(paths) else target
            if base is None or not os.path.isdir(base) or os.path.islink(base):
                base = target
            p = os.path.join(base, name)
            if os.path.lexists(p) or len(p) > 900:
                paths.append(None)
                continue
            if kind == "dir":
                os.mkdir(p)
            elif kind == "link":
                os.symlink({"out-file": os.path.join(side, "keep"), "out-dir": os.path.join(side, "deep"), "in-file": "a", "nowhere": "/nonexistent/x",
                            "parent": "..", "self": name}[dest], p)
            elif kind == "fifo":
                os.mkfifo(p)
            else:
                open(p, "w").write("content of " + name)
                if kind == "robin":
                    os.chmod(p, 0o400)
            paths.append(p)
            n += base != side
        lock = paths[case["locked"]] if 0 <= case["locked"] < len(paths) else None
        locked = bool(lock and os.path.isdir(lock) and not os.path.islink(lock) and lock.startswith(target) and os.listdir(lock))
        for d, ds, fs in os.walk(root):
            for x in [d] + [os.path.join(d, y) for y in ds + fs]:
                os.chown(x, self.uid, self.uid, follow_symlinks=False)
        if locked:
            os.chmod(lock, 0o500)
        how = case["how"]
        arg = {"rel": "target", "abs": target, "slash": "target/", "dot": "./target", "sub": "side/../target", "missing": "no/such", "file": "target.txt"}[how]
        snap = {k: v for k, v in snapshot(root).items()}
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                L = coco.Lib(self.path)
                L.l.coco_remove_directory.argtypes = [ctypes.c_char_p]
                os.chdir(root)
                os.setgroups([])
                os.setgid(self.uid)
                os.setuid(self.uid)
                if os.getuid() == 0:
                    os._exit(88)
                before = len(os.listdir("/proc/self/fd"))
                res = [L.l.coco_remove_directory(arg.encode())]
                if case["twice"]:
                    res.append(L.l.coco_remove_directory(arg.encode()))
                res.append(len(os.listdir("/proc/self/fd")) - before)
                os.write(w, repr(res).encode())
                os._exit(0)
            except OSError:
                os._exit(88)
            finally:
                os._exit(99)
        os.close(w)
        out = os.read(r, 1000).decode()
        os.close(r)
        st = os.waitpid(pid, 0)[1]
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 88:
            return dict(nontrivial=False, tags=["skipped: no unprivileged user"])
        check(os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0, "removing %s: the process died (status %d)", arg, st)
        res = eval(out)
        if locked:
            os.chmod(lock, 0o700)
        now = snapshot(root)
        inside = lambda k: k == "target" or k.startswith("target/")
        for k, v in snap.items():
            if not inside(k) or how in ("missing", "file"):
                check(k in now, "removing %s also removed %s (%s)", arg, k, v)
                check(now[k] == v, "removing %s changed %s from %s to %s", arg, k, v, now[k])
        for k in now:
            check(k in snap, "removing %s created %s", arg, k)
        if how not in ("missing", "file"):
            if locked:
                check(res[0] != 0, "removing %s reports success although %s could not be removed", arg, os.path.relpath(lock, root))
                check("target" in now, "the folder is gone although it was not removable")
            else:
                check("target" not in now, "after removing %s there still is %s (result %d)", arg, sorted(k for k in now if inside(k))[:5], res[0])
                check(res[0] == 0, "removing %s succeeded and reports %d", arg, res[0])
        elif how == "missing":
            check(res[0] == 0, "removing a folder that does not exist reports %d", res[0])
        check(res[-1] == 0, "removing %s left %d files open", arg, res[-1])
        return dict(nontrivial=n >= 3, tags=["remove", how] + (["locked"] if locked else []) + (["link"] if any(e[1] == "link" for e in case["ent"]) else []))

    # ------------------------------------------------------------ log levels
    def history(self, case, level, folder):
        """Runs the history at the level in a child; (stdout, stderr, transcript, status, files)."""
        os.makedirs(folder)
        pid = os.fork()
        if pid == 0:
            os.chdir(folder)
            for fd, f in ((1, "../%s.out" % folder), (2, "../%s.err" % folder)):
                os.dup2(os.open(f, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600), fd)
            T = open("../%s.txt" % folder, "w")
            try:
                self.play(case, level, T)
            finally:
                T.flush()
            ctypes.CDLL(None).fflush(None)
            os._exit(0)
        st = os.waitpid(pid, 0)[1]
        rd = lambda x: open("%s.%s" % (folder, x), errors="replace").read()
        return TIME.sub("TIME", rd("out")), TIME.sub("TIME", rd("err")), rd("txt"), st, snapshot(folder)

    def play(self, case, level, T):
        def say(*a):
            T.write(" ".join(map(str, a)) + "\n")
            T.flush()
        L = coco.Lib(self.path)
        prev = L.coco_set_log_level(level.encode()).decode()
        cur = level
        # Lib() sets "error" first
        check(prev == "error", "level before is reported as %r, it was error", prev)
        S = L.suite(case["suite"], "instances: " + ",".join(map(str, case["inst"])), case["opts"])
        say("problems", len(S))
        O = L.observer(case["obs"], case["oopts"])
        ob = O if O.p else None
        if case["obs"] in ("", "no_observer"):
            ob = None
        p = None
        seq = []

        def nxt():
            q = S.next(ob)
            if q is not None:
                f, d, i = (ctypes.c_size_t() for _ in range(3))
                L.coco_suite_decode_problem_index(S.p, q.index, ctypes.byref(f), ctypes.byref(d), ctypes.byref(i))
                seq.append((q.d, L.coco_suite_get_function_from_function_index(S.p, f.value)))
                say("problem", q.id, q.d, seq[-1][1])
            return q
        ended = False
        for op in case["ops"]:
            if op[0] == "next" and not ended:
                p = nxt()
                ended = p is None
            elif op[0] == "all":
                while not ended:
                    p = nxt()
                    ended = p is None
            elif op[0] == "level":
                r = L.coco_set_log_level(op[1].encode()).decode()
                say("level")
                if r != cur:
                    say("WRONG level", r, "expected", cur)
            elif p is None:
                continue
            elif op[0] == "eval":
                g = np.random.default_rng(op[2])
                for _ in range(op[1]):
                    say(*[float(v).hex() for v in p.f(p.lower + (p.upper - p.lower) * g.random(p.d))])
            elif op[0] == "nan":
                say(p.f(np.full(p.d, np.nan)))
            elif op[0] == "restart" and ob is not None:
                ob.restart(p)
            elif op[0] == "rec" and ob is not None and p.m == 1:
                p.recommend(p.lower + (p.upper - p.lower) * np.random.default_rng(op[1]).random(p.d))
        say("sequence", seq)
        S.free()
        if O.p:
            O.free()
        if case["tail"] == "bad suite":
            say("suite", L.suite("no_such_suite", "", "").p)
        elif case["tail"] == "bad observer":
            say("observer", L.observer("no_such_observer", "").p)
        say("end")

    def run_log(self, case):
        base = os.getcwd()
        d = tempfile.mkdtemp(dir=base)
        os.chdir(d)
        try:
            R = {l: self.history(case, l, l) for l in LEVELS}
            self.levels(case)
        finally:
            os.chdir(base)
            shutil.rmtree(d, ignore_errors=True)
        for l in LEVELS:
            check("WRONG" not in R[l][2], "coco_set_log_level: %s", re.findall("WRONG.*", R[l][2]))
            check(R[l][3] == R["error"][3], "the history ends with status %d at level %s, %d at level error", R[l][3], l, R["error"][3])
            check(R[l][2] == R["error"][2], "the results of the history differ between the levels error and %s", l)
            check(R[l][4] == R["error"][4], "the files written differ between the levels error and %s: %s", l,
                  sorted(set(R[l][4].items()) ^ set(R["error"][4].items()))[:4])
        fatal = R["error"][3] != 0
        E = R["error"]
        check(E[0] == "", "printed on the standard output at level error: %r", E[0][:300])
        check(R["warning"][0] == "", "printed on the standard output at level warning: %r", R["warning"][0][:300])
        dbg = re.sub(r"COCO DEBUG: [^\n]*\n", "", R["debug"][0])
        # debug messages may end with an empty line of their own
        check(dbg.replace("\n", "") == R["info"][0].replace("\n", ""), "the standard output at level info is not that of level debug without the debug messages:\n%r\n%r", R["info"][0][-400:],
              dbg[-400:])
        for l in ("info", "debug"):
            check(R[l][1] == R["warning"][1], "the error output at level %s differs from the one at level warning:\n%r\n%r", l, R[l][1][-300:],
                  R["warning"][1][-300:])
        lines = E[1].splitlines()
        if fatal:
            check(len(lines) >= 1 and lines[0].startswith("COCO FATAL ERROR: ") and R["warning"][1].endswith(E[1]),
                  "after a failure the error output at level error is %r, at level warning %r", E[1][:300], R["warning"][1][-300:])
        else:
            check(E[1] == "", "error output at level error: %r", E[1][:300])
            check(R["warning"][1] == "" or R["warning"][1].startswith("COCO WARNING: "), "error output at level warning: %r", R["warning"][1][:300])
        # the progress report lists every delivered problem
        m = re.search(r"^sequence (.*)$", E[2], re.M)
        if m:
            want = []
            for dd, f in eval(m.group(1)):
                if want and want[-1][:2] == [dd, f]:
                    want[-1][2] += 1
                else:
                    want.append([dd, f, 1])
            got = []
            for t in re.finditer(r"COCO INFO: TIME, d=(\d+), running: ((?:f\d+\.+)*)|((?:f\d+\.+|\.+))", R["info"][0]):
                if t.group(1):
                    dd, body = int(t.group(1)), t.group(2)
                else:
                    body = t.group(3)
                    if not got:
                        continue
                for f, dots in re.findall(r"(f\d+)?(\.+)", body):
                    if f:
                        got.append([dd, int(f[1:]), len(dots)])
                    elif got:
                        got[-1][2] += len(dots)
            if "COCO WARNING" not in R["info"][1] and re.search(r"COCO INFO: (?!TIME, d=)", R["info"][0]) is None:
                check(got == want, "the progress report lists (dimension, function, instances) %s, delivered were %s", got, want)
        some = R["debug"][0] + R["debug"][1] != ""
        return dict(nontrivial=some, tags=["levels", case["suite"]] + (["fatal"] if fatal else []) + (["warning"] if R["warning"][1] else []))

    def levels(self, case):
        """coco_set_log_level returns the level before and ignores unknown words."""
        L = coco.Lib(self.path)
        cur = "error"
        for x in case["set"]:
            fd = os.dup(2)
            r = L.coco_set_log_level(x.encode()).decode()
            os.close(fd)
            check(r == cur, "coco_set_log_level(%r) returned %r, the level was %r", x, r, cur)
            if x in LEVELS:
                cur = x
        L.coco_set_log_level(b"error")

    def run(self, case):
        return self.run_rm(case) if case["kind"] == "rm" else self.run_log(case)


PROP = C27()
