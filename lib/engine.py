"""A small property-based testing engine: deterministic generation, isolated execution, shrinking, replay, evidence."""
import argparse, copy, hashlib, json, os, random, re, select, shutil, signal, struct, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NCPU = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 4)


class Violation(Exception):
    """Raised by Prop.run when the property does not hold for the case."""


def check(cond, fmt, *args):
    if not cond:
        raise Violation(fmt % args if args else fmt)


class Prop:
    id = "C00"
    level = "exploration"
    rule = ""                       # what makes a case non-trivial
    assumptions = []
    quick_cases = 100
    thorough_cases = 1000
    chunk = 8                       # cases per forked process
    case_timeout = 120.0            # seconds; a hang is a failure of the case
    max_shrink = 250

    def setup(self, tier):          # build etc.; runs once in the parent, before forking
        pass

    def gen(self, rng, i, tier):    # -> JSON-able case
        raise NotImplementedError

    def run(self, case):            # raise Violation; return dict(nontrivial=bool, tags=[...], evals=int)
        raise NotImplementedError

    def shrink(self, case):         # yield simpler candidates
        yield from list_shrink(case)
        yield from self.simplify(case)

    def simplify(self, case):       # property-specific simplifications; must stay within the generated domain
        return ()

    def summary(self, case):        # short sample for the evidence
        return trim(case)

    def coverage(self):             # extra fields for the evidence coverage
        return {}


def trim(v, depth=0):
    if isinstance(v, dict):
        return {k: trim(x, depth + 1) for k, x in v.items()}
    if isinstance(v, list):
        r = [trim(x, depth + 1) for x in v[:6]]
        if len(v) > 6:
            r.append("... %d items" % len(v))
        return r
    if isinstance(v, str) and len(v) > 160:
        return v[:160] + "... %d chars" % len(v)
    return v


def list_shrink(case):
    """Deletes chunks of every list whose elements are lists or objects (operation and point sequences)."""
    def paths(v, p):
        if isinstance(v, dict):
            for k in v:
                if not k.startswith("_"):
                    yield from paths(v[k], p + [k])
        elif isinstance(v, list):
            if v and isinstance(v[0], (list, dict)):
                yield p, v
                for i, x in enumerate(v[:64]):
                    yield from paths(x, p + [i])

    def put(p, x):
        c = copy.deepcopy(case)
        t = c
        for k in p[:-1]:
            t = t[k]
        t[p[-1]] = x
        return c

    for p, v in list(paths(case, [])):
        n = len(v)
        size = (n + 1) // 2
        while size >= 1:
            for s in range(0, n, size):
                if n - size >= 0 and len(v[:s] + v[s + size:]) < n:
                    yield put(p, v[:s] + v[s + size:])
            size //= 2


def case_rng(seed, pid, i):
    return random.Random("%s:%s:%d" % (seed, pid, i))


def case_hash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def _child(prop, cases, wfd, scratch):
    """Runs the cases in order; writes one JSON line per event."""
    w = os.fdopen(wfd, "w", buffering=1)
    err = os.open(os.path.join(scratch, "stderr"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
    os.dup2(err, 2)
    dn = os.open(os.path.join(scratch, "stdout"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
    os.dup2(dn, 1)
    os.chdir(scratch)
    os.environ["VERIF_SCRATCH"] = scratch
    for k, case in enumerate(cases):
        w.write(json.dumps({"start": k}) + "\n")
        try:
            r = prop.run(copy.deepcopy(case)) or {}
            w.write(json.dumps({"done": k, "nontrivial": bool(r.get("nontrivial", True)), "tags": r.get("tags", []),
                                "evals": int(r.get("evals", 1))}) + "\n")
        except Violation as e:
            w.write(json.dumps({"fail": k, "msg": str(e)[:3000]}) + "\n")
            break
        except Exception as e:  # the code under test delivered something the harness cannot even parse
            w.write(json.dumps({"fail": k, "msg": "exception while checking: " + "".join(
                traceback.format_exception_only(type(e), e)).strip() + " at " + traceback.format_exc()[-800:]}) + "\n")
            break
    w.flush()
    os._exit(0)


class Task:
    def __init__(self, prop, cases, ids):
        self.prop, self.cases, self.ids = prop, cases, ids
        self.scratch = tempfile.mkdtemp(prefix="vf-%s-" % prop.id, dir=os.environ.get("VERIF_TMP", "/tmp"))
        r, w = os.pipe()
        sys.stdout.flush(); sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(r)
                os.setpgid(0, 0)
                _child(prop, cases, w, self.scratch)
            finally:
                os._exit(97)
        os.close(w)
        self.fd, self.buf, self.events = r, b"", []
        self.cur, self.t0 = -1, time.time()
        self.fail = None

    def feed(self):
        d = os.read(self.fd, 1 << 16)
        if not d:
            return False
        self.buf += d
        while b"\n" in self.buf:
            line, self.buf = self.buf.split(b"\n", 1)
            e = json.loads(line)
            if "start" in e:
                self.cur, self.t0 = e["start"], time.time()
            else:
                self.events.append(e)
                if "fail" in e:
                    self.fail = (e["fail"], e["msg"])
        return True

    def timed_out(self):
        return time.time() - self.t0 > self.prop.case_timeout

    def kill(self):
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except OSError:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except OSError:
                pass

    def finish(self, hung=False):
        if hung:
            self.kill()
        os.close(self.fd)
        _, st = os.waitpid(self.pid, 0)
        self.kill()
        if self.fail is None:
            ndone = len([e for e in self.events if "done" in e])
            if hung:
                self.fail = (max(self.cur, 0), "hang: no result within %g s" % self.prop.case_timeout)
            elif ndone < len(self.cases):
                try:
                    tail = open(os.path.join(self.scratch, "stderr"), errors="replace").read()[-1500:]
                    tail = tail or open(os.path.join(self.scratch, "stdout"), errors="replace").read()[-600:]
                except OSError:
                    tail = ""
                how = "signal %d" % os.WTERMSIG(st) if os.WIFSIGNALED(st) else "exit status %d" % os.WEXITSTATUS(st)
                self.fail = (max(self.cur, 0), "the process died (%s): %s" % (how, tail))
        shutil.rmtree(self.scratch, ignore_errors=True)


def run_isolated(prop, cases):
    """Runs the cases in one fresh process; returns (index, msg) of the failure or None."""
    t = Task(prop, cases, None)
    while True:
        r, _, _ = select.select([t.fd], [], [], 1.0)
        if r:
            if not t.feed():
                t.finish()
                break
        elif t.timed_out():
            t.finish(hung=True)
            break
    return t.fail


def kind_of(msg):
    """Failure class: while shrinking we stay in it."""
    if msg.startswith("the process died"):
        return "died"
    if msg.startswith("hang"):
        return "hang"
    if msg.startswith("exception"):
        return "exc"
    return "violation " + re.sub(r"[^A-Za-z].*", "", msg.strip(), flags=re.S)


def shrink_failure(prop, cases, msg, deadline):
    k = kind_of(msg)
    best, bestmsg = cases, msg
    n = 0

    def still(cs):
        nonlocal n
        n += 1
        f = run_isolated(prop, cs)
        if f is not None and kind_of(f[1]) == k:
            return f
        return None

    if len(best) > 1:  # histories over several cases: drop earlier cases
        i = 0
        while i < len(best) - 1 and time.time() < deadline:
            c = best[:i] + best[i + 1:]
            f = still(c)
            if f:
                best, bestmsg = c[:f[0] + 1], f[1]
            else:
                i += 1
    improved = True
    while improved and n < prop.max_shrink and time.time() < deadline:
        improved = False
        for cand in prop.shrink(best[-1]):
            if n >= prop.max_shrink or time.time() > deadline:
                break
            try:
                f = still(best[:-1] + [cand])
            except Exception:
                continue
            if f and f[0] == len(best) - 1:
                best, bestmsg = best[:-1] + [cand], f[1]
                improved = True
                break
    return best, bestmsg, n


def load_known(pid):
    try:
        d = json.load(open(os.path.join(VERIF, "known_findings.json")))
    except OSError:
        return []
    return [e for e in d.get("known", []) if e["property"] == pid]


def main(prop, argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--cases", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--case", type=int, default=None, help="run only this case index")
    ap.add_argument("--no-shrink", action="store_true")
    a = ap.parse_args(argv)
    t0 = time.time()
    for st in getattr(prop, "env", {}).items():
        os.environ[st[0]] = st[1]
    try:
        prop.setup(a.tier)
    except Exception as e:
        if type(e).__name__ == "BuildError":
            print("BUILD FAILED: %s" % e, file=sys.stderr)
            return 2
        raise
    if a.replay:
        d = json.load(open(a.replay))
        f = run_isolated(prop, d["cases"])
        print("replay: %s" % ("FAILS: " + f[1] if f else "passes"))
        if f:
            print("VIOLATION property=%s replay=%s" % (prop.id, os.path.abspath(a.replay)))
        return 1 if f else 0
    total = a.cases or (prop.quick_cases if a.tier == "quick" else prop.thorough_cases)
    idx = [a.case] if a.case is not None else list(range(total))
    known = load_known(prop.id)
    known_hits = {}
    chunk = max(1, min(prop.chunk, (len(idx) + NCPU - 1) // NCPU))
    chunks = [idx[i:i + chunk] for i in range(0, len(idx), chunk)]
    running, failures = {}, []
    stats = dict(done=0, evals=0, nontrivial=set(), tags={}, samples=[])
    pos = 0
    max_fail = 3

    def harvest(t):
        for e in t.events:
            if "done" in e:
                c = t.cases[e["done"]]
                stats["done"] += 1
                stats["evals"] += e["evals"]
                for g in e["tags"]:
                    stats["tags"][g] = stats["tags"].get(g, 0) + 1
                if e["nontrivial"]:
                    h = case_hash(c)
                    if h not in stats["nontrivial"]:
                        stats["nontrivial"].add(h)
                        if len(stats["samples"]) < 6:
                            stats["samples"].append(prop.summary(c))
        if t.fail is not None:
            k, msg = t.fail
            for e in known:
                if re.search(e["match"], msg, re.S):
                    known_hits.setdefault(e["what"], 0)
                    known_hits[e["what"]] += 1
                    stats["done"] += 1
                    rest = t.ids[k + 1:]
                    if rest:
                        chunks.append(rest)
                    return
            failures.append((t.cases, k, msg, t.ids))

    while (pos < len(chunks) and len(failures) < max_fail) or running:
        while pos < len(chunks) and len(running) < NCPU and len(failures) < max_fail:
            ids = chunks[pos]
            pos += 1
            cases = [prop.gen(case_rng(a.seed, prop.id, i), i, a.tier) for i in ids]
            t = Task(prop, cases, ids)
            running[t.fd] = t
        if not running:
            break
        r, _, _ = select.select(list(running), [], [], 1.0)
        for fd in r:
            t = running[fd]
            if not t.feed():
                del running[fd]
                t.finish()
                harvest(t)
        for fd, t in list(running.items()):
            if t.timed_out():
                del running[fd]
                t.finish(hung=True)
                harvest(t)
    rc, viol = 0, []
    for cases, k, msg, ids in failures:
        single = [cases[k]]
        f = run_isolated(prop, single)
        if f is None and k > 0:
            single = cases[:k + 1]
            f = run_isolated(prop, single)
        if f is None:
            # not reproducible in a fresh process with the same inputs: try the whole prefix some more
            for _ in range(3):
                f = run_isolated(prop, cases[:k + 1])
                if f:
                    single = cases[:k + 1]
                    break
        if f is None:
            print("note: failure of case %s did not reproduce and is not reported: %s" % (ids[k], msg[:500]), file=sys.stderr)
            continue
        single = single[:f[0] + 1]
        msg = f[1]
        if not a.no_shrink:
            single, msg, n = shrink_failure(prop, single, msg, time.time() + 90)
        if not all(run_isolated(prop, single) for _ in range(3)):
            print("note: failure of case %s is not stable and is not reported: %s" % (ids[k], msg[:500]), file=sys.stderr)
            continue
        if any(re.search(e["match"], msg, re.S) for e in known):
            for e in known:
                if re.search(e["match"], msg, re.S):
                    known_hits[e["what"]] = known_hits.get(e["what"], 0) + 1
            continue
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop.id, case_hash(single)))
        with open(path, "w") as fo:
            json.dump({"property": prop.id, "message": msg, "seed": a.seed, "case_index": ids[k], "cases": single}, fo, indent=1)
        print(msg[:2500])
        print("case: " + json.dumps(trim(single[-1]))[:1500])
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
        viol.append(msg[:400])
        rc = 1
        break
    for w, n in known_hits.items():
        print("KNOWN-FINDING: property=%s %s" % (prop.id, w))
    cov = {"evaluations": stats["evals"], "cases": stats["done"], "distinct_nontrivial": len(stats["nontrivial"]),
           "rule": prop.rule, "samples": stats["samples"], "distribution": dict(sorted(stats["tags"].items()))}
    cov.update(prop.coverage())
    ev = {"property": prop.id, "tier": a.tier, "seed": a.seed, "level": prop.level, "coverage": cov,
          "assumptions": prop.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop.id + ".json"), "w") as fo:
        json.dump(ev, fo, indent=1)
    print("%s %s seed=%d: %d cases, %d evaluations, %d distinct non-trivial, %.1f s, %d violation(s)" % (
        prop.id, a.tier, a.seed, stats["done"], stats["evals"], len(stats["nontrivial"]), time.time() - t0, len(viol)))
    return rc
