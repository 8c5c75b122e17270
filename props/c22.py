"""C22: option strings: structured fuzzing under sanitizers; hostile but well-formed texts against the models of C11, C14, C16, C20."""
import os, re, shutil, subprocess
import bboblog, biobjlog, build, suites
from engine import Prop, Violation, check
import c11, c14, c16, c20

OBS = ["bbob", "bbob-biobj", "bbob-biobj-ext", "bbob-biobj-mixint", "bbob-old", "rw", "toy", "bbob-constrained", "bbob-mixint"]
COMMON = ["outer_folder", "result_folder", "algorithm_name", "algorithm_info", "number_target_triggers", "log_target_precision", "lin_target_precision",
          "number_evaluation_triggers", "base_evaluation_triggers", "precision_x", "precision_f", "precision_g", "log_discrete_as_int"]
EXTRA = {"rw": ["log_variables", "log_constraints", "low_dim_vars", "low_dim_cons", "log_only_better", "log_time"], "toy": ["file_name"],
         "biobj": ["log_nondominated", "log_decision_variables", "compute_indicators", "produce_all_data"], "bbob": ["prefix"], "bbob-old": []}
SUITE_KEYS = ["dimensions", "dimension_indices", "function_indices", "instance_indices"]
INST_KEYS = ["year", "instances"]


def extra(obs):
    return EXTRA.get(obs) or EXTRA["biobj" if "biobj" in obs else "bbob-old" if obs == "bbob-old" else "bbob"]


def esc(b):
    return "".join(chr(c) if 32 <= c < 127 and c != 92 else "\\x%02x" % c for c in b)


def safe_path(b):
    """Keeps whatever the text may name as a file or folder inside the working directory."""
    b = b.replace(b"\0", b"\1").replace(b"..", b"._")
    return re.sub(rb"(?<![A-Za-z0-9])/", b"_", b)


# ------------------------------------------------------------------ raw texts
def junk(r):
    k = r.random()
    if k < 0.2:
        return bytes(r.randrange(1, 256) for _ in range(r.choice([1, 3, 10, 60])))
    if k < 0.4:
        return "".join(r.choice('":,- \t%snd0123456789aez.') for _ in range(r.choice([1, 2, 5, 20, 80]))).encode()
    if k < 0.5:
        return r.choice([b"%s%s%s%n", b"%1000000d", b"%*d%p", b'"', b'""', b'"""', b'"%s', b"::", b": :", b"\\", b"{}", b"$(x)", b"`x`", b"'"])
    if k < 0.75:
        return r.choice(["0", "-1", "-", "--", ",", ",,", "1-", "-5", "5-1", "1-3-5", "1,,2", "0-0", "99999999999999999999", "-99999999999999999999", "18446744073709551615",
                         "18446744073709551616", "4294967297", "2147483648", "-2147483649", "1e400", "-1e400", "nan", "inf", "-inf", "1e-320", "0x10", "1.5", "1e5", "1-1000000000000",
                         "1-5000", "0,1,2", "3,2,1", "1 2 3", "1e-13", "1e-300", "1e300", "33", "32", "1000000"]).encode()
    if k < 0.85:
        n = r.choice([200, 300, 998, 999, 1000, 1001, 1100, 4095, 4096, 4097, 5000, 21000])
        return (r.choice("ax_1,") * n).encode()
    if k < 0.9:
        n = r.choice([300, 400, 1001, 2100])
        return ",".join(str(r.randint(1, 99)) for _ in range(n)).encode()
    return r.choice([b"all", b"none", b"final", b"read", b"low_dim", b"yes", b"2009", b"2016", b"2,3", b"1-5", b"5", b"100", b"1e-8"])


def deep(r):
    """Folders nested up to the longest path the system allows."""
    n = r.choice([r.randint(4000, 4100), r.randint(3900, 4200), r.randint(500, 5000)])
    w = r.choice([100, 200, 255])
    path = ("/".join(["d" * w] * (n // (w + 1) + 1)))[:n].rstrip("/")
    a = r.choice([0, 0, n // 2, n - 20])
    if a == 0:
        return ("outer_folder: %s result_folder: r" % path).encode()
    return ("result_folder: %s outer_folder: %s" % (path[a:].strip("/"), path[:a].strip("/"))).encode()


def raw(r, keys):
    k = r.random()
    if k < 0.1:
        t = b"".join(junk(r) for _ in range(r.choice([0, 1, 2, 5])))
    else:
        parts = []
        for _ in range(r.choice([1, 1, 2, 3, 6])):
            key = r.choice(keys) if r.random() < 0.85 else r.choice([r.choice(keys)[:-1], "x" + r.choice(keys), r.choice(keys) + "x", "", "unknown", "Result_Folder"])
            v = junk(r)
            if r.random() < 0.2:
                v = b'"' + v + b'"'
            parts.append(key.encode() + r.choice([b": ", b":", b" : ", b" ", b"", b"::", b":\t", b":\n"]) + v)
        t = r.choice([b" ", b" ", b"  ", b"", b", ", b"\n"]).join(parts)
    if r.random() < 0.3 and t:
        t = bytearray(t)
        for _ in range(r.choice([1, 2, 5])):
            a = r.randrange(len(t))
            q = r.random()
            if q < 0.4:
                t[a] = r.choice(b'":,- %\\0a') if r.random() < 0.7 else r.randrange(1, 256)
            elif q < 0.7:
                del t[a:a + r.choice([1, 2, 8])]
                if not t:
                    break
            else:
                t[a:a] = bytes(r.choice(b'":,- %\\0a') for _ in range(r.choice([1, 2])))
        t = bytes(t)
    return safe_path(t)


# ------------------------------------------------------------------ well-formed but hostile texts
WORDS = ["uses", "CMA-ES", "100%", "%s", "%d%n", "a,b", "(x)", "#", "it's", "50:50", "\\n", "ü"]


def quoted(r, keys, vals):
    w = []
    for _ in range(r.randint(1, 8)):
        w.append(r.choice(WORDS) if r.random() < 0.5 else "%s: %s" % (r.choice(keys), r.choice(vals)) if r.random() < 0.7 else r.choice(keys))
    return " ".join(w)


def items_text(r, items, keys, noise=True):
    """items: list of (key, text). Returns (text, unknown keys used)."""
    items = list(items)
    unknown = []
    if noise:
        for _ in range(r.choice([0, 0, 1, 2])):
            k = r.choice(keys)
            u = r.choice(["my_" + k, "x" + k, k + "2", k + "_", "no_" + k, k.upper(), "some_key", "my-" + k, "v1." + k, k + "-x"])
            if u not in keys and u not in unknown:
                unknown.append(u)
                items.insert(r.randrange(len(items) + 1), (u, r.choice(["3", "7", "1e-2", "zzz", "1-2"])))
    sep = r.choice([": ", ":", " : ", ":  ", ":\t", ":\n"])
    gap = r.choice([" ", " ", "  ", "\t", "\n"])
    return r.choice(["", "", "", " ", "\t", "\n "]) + gap.join(k + sep + v for k, v in items) + r.choice(["", "", " "]), unknown


class C22(Prop):
    id = "C22"
    rule = ("a case is non-trivial when the text has at least two items (well-formed texts) or when it is not empty and the call returned or stopped with an error "
            "message (raw texts)")
    assumptions = ["the reference models of C11, C14, C16, C20 for the effect of the options; a difference that shows with the plain form of the options too is left to those",
                   "texts name no folder outside the working directory"]
    quick_cases = 14000
    thorough_cases = 150000
    chunk = 16
    case_timeout = 240

    def setup(self, tier):
        self.exe = build.executable("driver", ["driver.c"], "asan")
        self.sub = {"suite": c11.C11(), "bbob": c14.C14(), "biobj": c16.C16(), "other": c20.C20()}
        for s in self.sub.values():
            s.setup(tier)

    # -------------------------------------------------------------- generation
    def gen(self, rng, i, tier):
        k = i % 10
        if k < 4:
            return self.gen_raw(rng)
        if k < 5:
            return self.gen_warn(rng)
        if k < 7:
            c = self.sub["suite"].gen(rng, i, "quick")
            c["limit"] = 3
            c["texts"] = [items_text(rng, [tuple(x) for x in c["instance"]], INST_KEYS)[0], items_text(rng, [tuple(x) for x in c["options"]], SUITE_KEYS)[0]]
            return dict(kind="suite", case=c)
        kind = ["bbob", "biobj", "other"][k - 7]
        while True:
            if kind == "bbob":
                c = bboblog.gen_scenario(rng, 1, restarts=False, recs=False)
            elif kind == "biobj":
                c = biobjlog.gen_scenario(rng, 1)
            else:
                c = self.sub["other"].gen(rng, rng.randrange(1 << 20), "quick")
                if c["kind"] == "old":
                    continue
            if "number_evaluation_triggers" not in c.get("opts", {}):
                break
        self.hostile(rng, c, c["obs"] if kind != "other" else c["kind"])
        return dict(kind=kind, case=c)

    def hostile(self, r, c, obs):
        o = c["opts"]
        keys = COMMON + extra(obs)
        vals = ["3", "1", "none", "zzz", "1e-1", "7"]
        def val(v):
            return ",".join(map(str, v)) if isinstance(v, list) else repr(v) if isinstance(v, float) else str(v)
        items = [(k, val(v)) for k, v in o.items()]
        items = [(k, '"%s"' % v if k in ("algorithm_name", "prefix", "file_name", "base_evaluation_triggers", "log_nondominated", "log_variables") and
                  r.random() < 0.3 else v) for k, v in items]
        items += [("outer_folder", "."), ("result_folder", r.choice(["exp", "exp", '"exp"']))]
        if r.random() < 0.6:
            q = quoted(r, keys, vals)
            items.append(("algorithm_info", '"%s"' % q))
            if "biobj" in obs:
                c["opts"] = dict(o, algorithm_info=q)
        for k, vs in (("precision_x", ["0", "33", "-1", "99"]), ("precision_f", ["0", "33", "-4"]), ("precision_g", ["0", "64"]), ("log_target_precision", ["0", "-1e-3"]),
                      ("lin_target_precision", ["-1", "0.0"]), ("log_discrete_as_int", ["2", "-1"]), ("number_target_triggers", ["-1", "-20"]),
                      ("number_evaluation_triggers", ["3", "0"]), ("low_dim_vars", ["-1", "-3"]), ("low_dim_cons", ["-2", "-1"])):
            if k not in o and k in keys and r.random() < (0.25 if obs == "rw" and k.startswith("low") else 0.06):
                items.append((k, r.choice(vs)))     # outside the documented range: the default stays
        r.shuffle(items)
        c["text"] = items_text(r, items, keys)[0]

    def gen_raw(self, r):
        if r.random() < 0.45:
            name = r.choice(suites.NAMES)
            return dict(kind="raw", ops=["L\t" + r.choice(["error", "warning"]),
                                         "S\t1\t%s\t%s\t%s" % (name, esc(raw(r, INST_KEYS)) if r.random() < 0.7 else "", esc(raw(r, SUITE_KEYS)) if r.random() < 0.7 else ""),
                                         "K\t1\t%d" % r.randrange(1000), "B\t1\t%d\t%d\t%d\t1" % (r.randint(1, 30), r.choice([2, 5, 10, 40, 80]), r.randint(1, 9)),
                                         "e\t1\t2\t0\t1", "F\t1", "s\t1"])
        obs = r.choice(OBS)
        suite = "bbob-biobj" if "biobj" in obs else r.choice(["bbob", "bbob-mixint", "bbob-constrained", "toy"])
        text = raw(r, COMMON * 2 + extra(obs) * 4)
        if r.random() < 0.06:
            text = deep(r)
        ops = ["L\t" + r.choice(["error", "warning"]), "S\t1\t%s\tinstances: 1\tdimensions: %d" % (suite, 5 if "mixint" in suite else 2),
               "O\t1\t%s\t%s" % (obs, esc(text)), "N\t1\t1\t1", "e\t1\t30\t0\t%d" % r.randrange(9999), "c\t1\t2\t0\t1",
               "e\t1\t3\t1\t5", "X\t1", "s\t1", "o\t1"]
        if "biobj" in obs and re.search(r"read", ops[2]):
            del ops[4:7]
        return dict(kind="raw", ops=ops)

    def gen_warn(self, r):
        what = r.choice(["suite", "inst", "obs"])
        if what == "obs":
            obs = r.choice(OBS)
            keys = COMMON + extra(obs)
            given = {"precision_x": "4", "result_folder": "r", "algorithm_name": "A", "number_target_triggers": "5", "log_target_precision": "1e-3", "base_evaluation_triggers": "1,2",
                     "algorithm_info": '"%s"' % quoted(r, keys, ["1"])}
        else:
            obs = None
            keys = SUITE_KEYS if what == "suite" else INST_KEYS
            given = {"dimension_indices": "1", "function_indices": "1-2", "instance_indices": "1"} if what == "suite" else {r.choice(INST_KEYS): "2009"}
        items = r.sample(sorted(given.items()), r.randint(1, len(given)))
        t, unknown = items_text(r, items, keys)
        t = esc(t.encode())
        op = "O\t1\t%s\t%s" % (obs, t) if obs else "S\t1\tbbob\t%s\t%s" % (("", t) if what == "suite" else (t, ""))
        return dict(kind="warn", ops=["L\twarning", op, "o\t1" if obs else "s\t1"], unknown=unknown, given=[k for k, _ in items])

    def simplify(self, case):
        if case["kind"] == "raw":
            for j, l in enumerate(case["ops"]):
                if l[0] in "KBecNF" and len(case["ops"]) > 3:
                    yield dict(case, ops=case["ops"][:j] + case["ops"][j + 1:])
            j = next(j for j, l in enumerate(case["ops"]) if l[0] == ("O" if any(x[0] == "O" for x in case["ops"]) else "S"))
            f = case["ops"][j].split("\t")
            for a in range(3, len(f)):
                toks = re.findall(r"\\x..|.", f[a])
                k = len(toks) // 2
                while k:
                    for b in range(0, len(toks), k):
                        g = list(f)
                        g[a] = "".join(toks[:b] + toks[b + k:])
                        yield dict(case, ops=case["ops"][:j] + ["\t".join(g)] + case["ops"][j + 1:])
                    k //= 2
        elif case["kind"] != "warn":
            for c in self.sub[case["kind"]].simplify(case["case"]):
                yield dict(case, case=c)

    # -------------------------------------------------------------- execution
    def drive(self, ops):
        d = os.path.abspath("w")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with open(os.path.join(d, "script"), "w") as f:
            f.write("\n".join(ops) + "\n")
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=43:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1")
        try:
            p = subprocess.run([self.exe, "script"], cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=200)
        except subprocess.TimeoutExpired:
            check(False, "the calls do not return within 200 s")
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return p.returncode, p.stderr.decode(errors="replace")

    def model(self, k, c):
        P = self.sub[k]
        shutil.rmtree("exp", ignore_errors=True)
        P.text = c11.C11.text
        if "texts" in c:
            it = iter(c["texts"])
            P.text = lambda items, style: next(it)
        try:
            return P.run(c)
        finally:
            shutil.rmtree("exp", ignore_errors=True)

    def run(self, case):
        k = case["kind"]
        if k in ("raw", "warn"):
            rc, err = self.drive(case["ops"])
            if rc != 0 and not (rc == 1 and "COCO FATAL ERROR" in err):
                L = [l for l in err.split("\n") if "ERROR:" in l or "error:" in l or "Assertion" in l]
                fr = [l.strip() for l in err.split("\n") if l.strip().startswith("#")][:4]
                raise Violation("exit status %d: %s %s" % (rc, (L or err.strip().split("\n")[-3:])[:2], fr))
            if k == "warn":
                check(rc == 0, "a well-formed text stops the program: %s", err[-300:])
                ign = "".join(re.findall(r"were ignored:\n(.*?)Valid keys", err, re.S)).split()
                check(sorted(ign) == sorted(case["unknown"]), "keys reported as ignored: %s, unknown keys given: %s", sorted(ign), sorted(case["unknown"]))
                return dict(nontrivial=len(case["given"]) + len(case["unknown"]) > 1, evals=1, tags=["warn"])
            return dict(nontrivial=True, evals=1, tags=["raw:" + ("stopped" if rc else "returned")])
        c = case["case"]
        text = c.get("text") or " | ".join(c.get("texts", []))
        try:
            r = self.model(k, c)
        except Violation as e:
            plain = {a: b for a, b in c.items() if a not in ("text", "texts")}
            try:
                self.model(k, plain)
            except Violation:
                return dict(nontrivial=False, evals=1, tags=["fails with the plain text as well"])
            raise Violation("%s  [options: %r; all is well with the plain form of the same options]" % (e, text))
        return dict(nontrivial=text.count(":") >= 2, evals=r.get("evals", 1), tags=["text:" + k])


PROP = C22()
