#!/usr/bin/env python3
"""tools/automut.py SEED N [file patterns...]: random operator, constant and deletion mutants of the sources; each is run through the checks that could see it (until
one does); prints the survivors with their line, to be judged by hand. Scratch copy in $MW, build cache in $MB."""
import fnmatch, glob, os, random, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W, B = os.environ.get("MW", "/tmp/aw"), os.environ.get("MB", "/tmp/ab")
R = "/repo"
VALUES = ["C01", "C03", "C02", "C06", "C05", "C04", "C07", "C08", "C12", "C09"]
MAP = [("src/f_*", VALUES), ("src/transform_obj_*noise*", ["C04"]), ("src/transform_*", VALUES), ("src/brentq.c", VALUES), ("src/c_linear.c", ["C07", "C10", "C12", "C21"]),
       ("src/suite_cons*", ["C07", "C12", "C11", "C21"]), ("src/suite_bbob_noisy*", ["C04", "C12", "C11"]), ("src/suite_biobj*", ["C06", "C16", "C12", "C11", "C05", "C17", "C21"]),
       ("src/suite_*", ["C11", "C12", "C01", "C03", "C02", "C05", "C08", "C06", "C21"]), ("src/logger_biobj*", ["C16", "C19", "C20", "C13", "C18", "C21"]),
       ("src/observer_biobj*", ["C16", "C22", "C20"]), ("src/logger_bbob_old*", ["C20", "C13", "C21"]), ("src/logger_bbob*", ["C14", "C15", "C18", "C13", "C19", "C21"]),
       ("src/logger_*", ["C20", "C13", "C21", "C22"]), ("src/observer_*", ["C14", "C20", "C22", "C18", "C21"]), ("src/mo_*", ["C17", "C16"]), ("src/coco_archive*", ["C17", "C21"]),
       ("src/coco_random*", ["C23"]), ("src/coco_observer.c", ["C14", "C16", "C20", "C22", "C18", "C13", "C21", "C27"]),
       ("src/coco_suite.c", ["C11", "C12", "C22", "C10", "C16", "C21", "C24"]), ("src/coco_problem.c", ["C10", "C12", "C08", "C13", "C06", "C21", "C09"]),
       ("src/coco_string.c", ["C22", "C11", "C18", "C21", "C27"]), ("src/coco_utilities.c", ["C22", "C27", "C18", "C11", "C14", "C05", "C10", "C21"]),
       ("src/coco_runtime_c.c", ["C27", "C22"]), ("build/rust/*", ["C29"]), ("build/java/*", ["C25"]), ("build/matlab/*", ["C28"]), ("src/coco_runtime_matlab.c", ["C28"]),
       ("build/python/src/cocoex/utilities.py", ["C26"]), ("build/python/src/cocoex/solvers.py", ["C26"]), ("build/python/src/*", ["C24", "C26"])]
SKIP = re.compile(r"^\s*(//|/\*|\*|#|assert\(|coco_debug|coco_warning|coco_info|coco_error|from |import |use |pub mod|\"|'|>>>|static const double|static const size_t)|^\s*$|^[a-z].*\)\s*\{\s*$|^\s*[}\])]*[;,]?\s*$")
OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "),
       (r" - ", " + "), (r" \* ", " / "), (r" and ", " or "), (r" or ", " and "), (r"\bi\+\+", "i += 2"), (r" = 0;", " = 1;"), (r" = 1;", " = 0;"), (r"\bif \(", "if (0 && "),
       (r"\b(\d+)\b(?!\.)", None), (r"\b\d+\.\d*(?:e-?\d+)?\b", None), (r"\btrue\b", "false"), (r"\bTrue\b", "False"), (r"\bFalse\b", "True")]


def mutants(files, rng):
    out = []
    for f in files:
        src = open(os.path.join(R, f), "rb").read().decode(errors="surrogateescape").split("\n")
        doc = False
        com = False
        for n, l in enumerate(src):
            if l.count('"""') % 2 or l.count("'''") % 2:
                doc = not doc
                continue
            if "/*" in l and "*/" not in l:
                com = True
            if "*/" in l:
                com = False
                continue
            if doc or com or SKIP.match(l) or ("coco_" in l and ("_warning(" in l or "_debug(" in l or "_info(" in l)):
                continue
            code = re.sub(r'"(?:[^"\\]|\\.)*"', lambda m: "\x00" * len(m.group()), l)
            code = re.sub(r"(//|/\*|\s# ).*$" if f.endswith((".c", ".java", ".rs")) else r"(^|\s)[#%].*$", lambda m: "\x00" * len(m.group()), code)
            for a, b in OPS:
                for m in re.finditer(a, code):
                    if b is None:
                        t = m.group()
                        r = str(int(t) + 1) if t.isdigit() else repr(float(t) * 1.01 + (0.01 if float(t) == 0 else 0))
                    else:
                        r = b
                    out.append((f, n, l[:m.start()] + r + l[m.end():]))
            if re.match(r"^\s+[\w>\-\[\]\.\*\(\), ]+( [+*/-]?= .*|\(.*\));\s*$", l) and not re.match(r"^\s+(const |double |size_t |int |char |FILE |return)", l):
                out.append((f, n, re.match(r"\s*", l).group() + ";"))
    rng.shuffle(out)
    return out


def main():
    rng = random.Random(int(sys.argv[1]))
    n = int(sys.argv[2])
    pats = sys.argv[3:] or ["src/*.c"]
    files = sorted({os.path.relpath(f, R) for p in pats for f in glob.glob(os.path.join(R, p)) if not re.search("best_values|/test|LICENSE|README|VERSION|Example|Timing|Benchmark|CMake", f) and os.path.isfile(f)})
    per = {}
    todo = []
    for m in mutants(files, rng):
        if per.setdefault(m[0], 0) < max(1, -(-n // len(files))):
            per[m[0]] += 1
            todo.append(m)
    rng.shuffle(todo)
    os.makedirs(B, exist_ok=True)
    if not os.path.isdir(W):
        subprocess.run(["git", "clone", "-q", R, W], check=True)
    for f, ln, new in todo[:n]:
        subprocess.run(["git", "-C", W, "checkout", "-q", "--", "."], check=True)
        subprocess.run("git -C %s fetch -q && git -C %s reset -q --hard origin/HEAD" % (W, W), shell=True)
        p = os.path.join(W, f)
        t = open(p, "rb").read().decode(errors="surrogateescape").split("\n")
        old = t[ln]
        t[ln] = new
        open(p, "wb").write("\n".join(t).encode(errors="surrogateescape"))
        checks = next(c for pat, c in MAP if fnmatch.fnmatch(f, pat))
        res, t0 = "SURVIVED", time.time()
        for c in checks:
            q = subprocess.run(["timeout", "600", os.path.join(V, "check.py"), c], env=dict(os.environ, VERIF_REPO=W, VERIF_BUILD=B, VERIF_SEED="1"), capture_output=True, text=True, errors="replace")
            if q.returncode == 1 and "VIOLATION" in q.stdout:
                res = "caught " + c
                break
            if q.returncode not in (0, 1):
                res = "no build (%s: %d)" % (c, q.returncode)
                break
        print("%s %s:%d %ds\n  - %s\n  + %s" % (res, f, ln + 1, time.time() - t0, old.strip(), new.strip()), flush=True)
        if os.path.getsize("/proc/mounts") >= 0 and sum(os.path.getsize(os.path.join(d, x)) for d, _, xs in os.walk(B) for x in xs if os.path.exists(os.path.join(d, x))) > 3e9:
            shutil.rmtree(B)
            os.makedirs(B)


main()
