"""Builds what the checks need from /repo's current working tree, into /verif/build/<content hash>/."""
import hashlib, os, re, shutil, subprocess, sys, tempfile, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CORE_DEFAULT = ["src/coco_random.c", "src/coco_suite.c", "src/coco_observer.c", "src/coco_archive.c",
                "src/coco_version.c"]
RUNTIME = "src/coco_runtime_c.c"


class BuildError(Exception):
    pass


def core_files():
    """The list of root files that the project's own amalgamation script uses."""
    try:
        txt = open(os.path.join(REPO, "scripts/fabricate")).read()
        m = re.search(r"CORE_FILES\s*=\s*\[(.*?)\]", txt, re.S)
        fs = re.findall(r"[\"']([^\"']+\.c)[\"']", m.group(1))
        return fs or CORE_DEFAULT
    except Exception:
        return CORE_DEFAULT


def amalgamate(roots, keep_lines=True):
    done, out = set(), []

    def proc(path):
        path = os.path.normpath(path)
        if path in done:
            return
        done.add(path)
        if os.path.basename(path) == "coco_version.c":
            out.append(version_text())
            return
        if keep_lines:
            out.append('#line 1 "%s"\n' % os.path.basename(path))
        with open(path, encoding="utf-8", errors="surrogateescape") as f:
            for n, line in enumerate(f, 1):
                m = re.match(r'#include "(.*)"', line)
                if m:
                    inc = os.path.join(os.path.dirname(path), m.group(1))
                    proc(inc)
                    if keep_lines:
                        out.append('#line %d "%s"\n' % (n + 1, os.path.basename(path)))
                else:
                    out.append(line if line.endswith("\n") else line + "\n")

    for r in roots:
        proc(os.path.join(REPO, r))
    return "".join(out)


def version_text():
    return 'const char *coco_version = "99.0.1-verif";\n'


def _run(cmd, cwd=None, env=None):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))
    return r.stdout.decode(errors="replace")


def coco_c():
    return amalgamate(core_files() + [RUNTIME])


def _hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode("utf-8", "surrogateescape"))
        h.update(b"\0")
    return h.hexdigest()[:16]


def _artifact(kind, key, make):
    """make(tmpdir) fills tmpdir; the result is moved to BUILD/kind-key atomically."""
    dst = os.path.join(BUILD, "%s-%s" % (kind, key))
    if os.path.isdir(dst):
        return dst
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=".tmp-" + kind, dir=BUILD)
    try:
        make(tmp)
        try:
            os.rename(tmp, dst)
        except OSError:
            if not os.path.isdir(dst):
                raise
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return dst


BASE = ["-std=gnu11", "-g", "-fPIC", "-w", "-ffp-contract=off"]
FLAVOURS = {
    "plain": (["gcc"], ["-O2"]),
    "ndebug": (["gcc"], ["-O2", "-DNDEBUG"]),
    "asan": (["gcc"], ["-O1", "-fsanitize=address,undefined", "-fsanitize=float-cast-overflow", "-fno-sanitize=float-divide-by-zero",
                       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]),
    "msan": (["clang"], ["-O1", "-fsanitize=memory", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]),
    "debug": (["gcc"], ["-O0"]),
}


def _write_sources(d):
    with open(os.path.join(d, "coco.c"), "w", encoding="utf-8", errors="surrogateescape") as f:
        f.write(coco_c())
    for h in ("coco.h",):
        shutil.copy(os.path.join(REPO, "src", h), os.path.join(d, h))


def csrc(name):
    return os.path.join(VERIF, "csrc", name)


def shared_lib(flavour="plain"):
    """libcoco + batch helper as a shared library; returns its path."""
    cc, fl = FLAVOURS[flavour]
    helper = open(csrc("helper.c")).read()
    src = coco_c()
    key = _hash("lib", flavour, " ".join(cc + fl + BASE), src, open(os.path.join(REPO, "src/coco.h")).read(), helper)

    def make(t):
        _write_sources(t)
        shutil.copy(csrc("helper.c"), t)
        _run(cc + BASE + fl + ["-shared", "-o", "libcoco.so", "coco.c", "helper.c", "-lm"], cwd=t)
    return os.path.join(_artifact("lib", key, make), "libcoco.so")


def executable(name, sources, flavour="asan", extra=()):
    """Executable from csrc/<sources> and the amalgamated library."""
    cc, fl = FLAVOURS[flavour]
    texts = [open(csrc(s)).read() for s in sources]
    src = coco_c()
    key = _hash("exe", name, flavour, " ".join(list(cc) + fl + BASE + list(extra)), src,
                open(os.path.join(REPO, "src/coco.h")).read(), *texts)

    def make(t):
        _write_sources(t)
        for s in sources:
            shutil.copy(csrc(s), t)
        _run(cc + BASE + fl + list(extra) + ["-o", name, "coco.c"] + list(sources) + ["-lm"], cwd=t)
    return os.path.join(_artifact("exe-" + name, key, make), name)


VENV = "/opt/vp/venv/bin/"
PYFLAGS = {"asan": ["-O1", "-g", "-DNDEBUG", "-fsanitize=address", "-fno-omit-frame-pointer"], "ndebug": ["-O2", "-DNDEBUG"]}


def python_package(flavour="asan"):
    """The cocoex package built from the working tree; returns the folder to put on sys.path."""
    src = os.path.join(REPO, "build/python/src/cocoex")
    names = sorted(n for n in os.listdir(src) if n.endswith((".py", ".pyx", ".pxd")) and n != "_version.py")
    texts = [open(os.path.join(src, n), "rb").read() for n in names]
    key = _hash("py", flavour, " ".join(PYFLAGS[flavour]), coco_c(), open(os.path.join(REPO, "src/coco.h")).read(), *(list(names) + texts))

    def make(t):
        pk = os.path.join(t, "cocoex")
        os.mkdir(pk)
        _write_sources(pk)
        for n, x in zip(names, texts):
            with open(os.path.join(pk, n), "wb") as f:
                f.write(x)
        with open(os.path.join(pk, "_version.py"), "w") as f:
            f.write("__version__ = '99.0.1'\n")
        inc = _run([VENV + "python", "-c", "import sysconfig, numpy; print(sysconfig.get_paths()['include']); print(numpy.get_include())"]).split()
        base = ["gcc", "-w", "-fPIC", "-ffp-contract=off"] + PYFLAGS[flavour]
        jobs = [subprocess.Popen(base + ["-std=gnu11", "-c", "coco.c", "-o", "coco.o"], cwd=pk, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)]
        mods = [n[:-4] for n in names if n.endswith(".pyx")]
        for m in mods:
            cmd = "%scython -3 %s.pyx -o %s.c && %s" % (VENV, m, m, " ".join(base + ["-DNPY_NO_DEPRECATED_API=NPY_1_23_API_VERSION", "-I" + inc[0], "-I" + inc[1],
                                                                                  "-I.", "-c", m + ".c", "-o", m + ".o"]))
            jobs.append(subprocess.Popen(["bash", "-c", cmd], cwd=pk, stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
        for j in jobs:
            o, _ = j.communicate()
            if j.returncode:
                raise BuildError("building the Python package: " + o.decode(errors="replace")[-3000:])
        suf = _run([VENV + "python", "-c", "import sysconfig; print(sysconfig.get_config_var('EXT_SUFFIX'))"]).strip()
        for m in mods:
            _run(base + ["-shared", "-o", m + suf, m + ".o", "coco.o", "-lm"], cwd=pk)
    return _artifact("py-" + flavour, key, make)


JAVA_HOME = "/usr/lib/jvm/java-17-openjdk-amd64"
JFLAGS = {"asan": ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"], "plain": ["-O1", "-g"]}


def java_classes(flavour="asan"):
    """Classes of the Java interface, the worker of the check and the native library; returns their folder."""
    src = os.path.join(REPO, "build/java")
    names = sorted(n for n in os.listdir(src) if n.endswith(".java") or (n.endswith((".c", ".h")) and n not in ("coco.c", "coco.h")))
    texts = [open(os.path.join(src, n), "rb").read() for n in names]
    worker = open(os.path.join(VERIF, "workers", "JavaWorker.java"), "rb").read()
    key = _hash("java", flavour, " ".join(JFLAGS[flavour]), coco_c(), open(os.path.join(REPO, "src/coco.h")).read(), worker, *(list(names) + texts))

    def make(t):
        _write_sources(t)
        for n, x in list(zip(names, texts)) + [("JavaWorker.java", worker)]:
            with open(os.path.join(t, n), "wb") as f:
                f.write(x)
        _run(["javac", "-nowarn", "-d", ".", "-h", ".", "JavaWorker.java"] + [n for n in names if n.endswith(".java") and n != "Timing.java"], cwd=t)
        _run(["gcc", "-w", "-fPIC", "-shared", "-ffp-contract=off", "-I.", "-I" + JAVA_HOME + "/include", "-I" + JAVA_HOME + "/include/linux"] + JFLAGS[flavour] +
             ["-o", "libCocoJNI.so", "CocoJNI.c", "-lm"], cwd=t)
    return _artifact("java-" + flavour, key, make)


def matlab_worker():
    """The MATLAB/Octave gateway with a stand-in for the MEX interface, as an executable under AddressSanitizer; returns its path."""
    gate = open(os.path.join(REPO, "build/matlab/cocoCall.c"), encoding="utf-8", errors="surrogateescape").read()
    src = amalgamate(core_files() + ["src/coco_runtime_matlab.c"])
    fl = ["-std=gnu11", "-g", "-O1", "-w", "-ffp-contract=off", "-fsanitize=address", "-fno-omit-frame-pointer"]
    stub = [open(csrc("mexstub/" + n)).read() for n in ("mex.h", "mexworker.c")]
    key = _hash("mat", " ".join(fl), gate, src, open(os.path.join(REPO, "src/coco.h")).read(), *stub)

    def make(t):
        for n, x in (("cocoCall.c", gate), ("coco.c", src), ("mex.h", stub[0]), ("mexworker.c", stub[1])):
            with open(os.path.join(t, n), "w", encoding="utf-8", errors="surrogateescape") as f:
                f.write(x)
        shutil.copy(os.path.join(REPO, "src", "coco.h"), t)
        _run(["gcc"] + fl + ["-I.", "-o", "mexworker", "cocoCall.c", "mexworker.c", "-lm"], cwd=t)
    return os.path.join(_artifact("mat", key, make), "mexworker")


def coco_sys_rs(header):
    """Declarations of the C functions in the preprocessed header, as bindgen makes them (bindgen itself is not available)."""
    types, fns = set(), []

    def conv(t):
        t = re.sub(r"\bstruct\b", "", t).strip()
        const = bool(re.search(r"\bconst\b", t))
        base = re.sub(r"\bconst\b", "", t)
        stars = base.count("*")
        base = base.replace("*", "").strip()
        m = {"void": "::std::os::raw::c_void", "char": "::std::os::raw::c_char", "int": "::std::os::raw::c_int", "double": "f64", "size_t": "usize", "uint32_t": "u32",
             "unsigned int": "::std::os::raw::c_uint", "long": "::std::os::raw::c_long", "unsigned long": "::std::os::raw::c_ulong", "int64_t": "i64",
             "uint64_t": "u64", "float": "f32"}
        if base in m:
            r = m[base]
        elif re.fullmatch(r"coco_\w+", base):
            types.add(base)
            r = base
        else:
            raise KeyError(t)
        if base == "void" and not stars:
            return None
        for k in range(stars):
            r = ("*const " if const and k == 0 else "*mut ") + r
        return r
    text = " ".join(header.split())
    for m in re.finditer(r"(?:^|[;{}])\s*(?:extern\s+)?((?:const\s+)?\w+[\w\s]*?[\s*]+)(coco_\w+)\s*\(([^()]*)\)\s*(?=;)", text):
        try:
            ret = conv(m.group(1))
            args = []
            for k, a in enumerate(x.strip() for x in m.group(3).split(",")):
                if a == "void" or a == "":
                    continue
                if a == "...":
                    args.append("...")
                    continue
                t = re.match(r"(.*?[\s*])(\w+)?$", a)
                args.append("a%d: %s" % (k, conv(t.group(1) if t.group(2) and not re.fullmatch(r"(const\s+)?(int|double|size_t|char)", a) else a)))
            fns.append("    pub fn %s(%s)%s;" % (m.group(2), ", ".join(args), " -> " + ret if ret else ""))
        except (KeyError, AttributeError):
            continue
    return "#![allow(non_camel_case_types)]\n" + "".join("#[repr(C)] pub struct %s { _p: [u8; 0] }\n" % t for t in sorted(types)) + \
        'extern "C" {\n    pub static coco_version: *const ::std::os::raw::c_char;\n' + "\n".join(dict.fromkeys(fns)) + "\n}\n"


def rust_worker():
    """The Rust crate with the worker of the check, linked with the library under AddressSanitizer; returns the executable's path."""
    src = os.path.join(REPO, "build/rust")
    names = sorted(os.path.relpath(os.path.join(d, f), src) for d, _, fs in os.walk(os.path.join(src, "src")) for f in fs if f.endswith(".rs"))
    names += ["coco-sys/wrapper.c", "coco-sys/wrapper.h"]
    texts = [open(os.path.join(src, n), "rb").read() for n in names]
    worker = open(os.path.join(VERIF, "workers", "rustworker.rs"), "rb").read()
    heads = [open(os.path.join(REPO, "src", h), "rb").read() for h in ("coco.h", "coco_internal.h")]
    key = _hash("rust3", coco_c(), worker, *(names + texts + heads))

    def make(t):
        v = os.path.join(t, "coco-sys", "vendor")
        os.makedirs(v)
        _write_sources(v)
        shutil.copy(os.path.join(REPO, "src", "coco_internal.h"), v)
        for n, x in list(zip(names, texts)) + [("worker.rs", worker)]:
            p = os.path.join(t, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(x)
        with open(os.path.join(t, "coco_sys.rs"), "w") as f:
            f.write(coco_sys_rs(_run(["gcc", "-E", "-P", "coco-sys/wrapper.h"], cwd=t)))
        cf = ["gcc", "-w", "-g", "-O1", "-ffp-contract=off", "-fsanitize=address", "-fno-omit-frame-pointer", "-fPIC", "-c"]
        env = dict(os.environ, HOME=os.environ.get("HOME", "/root"))
        _run(cf + ["coco-sys/vendor/coco.c", "-o", "coco.o"], cwd=t)
        _run(cf + ["coco-sys/wrapper.c", "-o", "wrapper.o"], cwd=t)
        _run(["rustc", "--edition", "2021", "--crate-type", "rlib", "--crate-name", "coco_sys", "-Awarnings", "coco_sys.rs", "-o", "libcoco_sys.rlib"], cwd=t, env=env)
        _run(["rustc", "--edition", "2021", "--crate-type", "rlib", "--crate-name", "coco_rs", "-Awarnings", "--extern", "coco_sys=libcoco_sys.rlib", "-L", ".", "src/lib.rs",
              "-o", "libcoco_rs.rlib"], cwd=t, env=env)
        _run(["rustc", "--edition", "2021", "-Awarnings", "--extern", "coco_rs=libcoco_rs.rlib", "-L", ".", "-C", "linker=gcc", "-C", "link-arg=coco.o", "-C", "link-arg=wrapper.o",
              "-C", "link-arg=-fsanitize=address", "-C", "link-arg=-lasan", "-C", "link-arg=-lm", "worker.rs", "-o", "worker"], cwd=t, env=env)
    return os.path.join(_artifact("rust", key, make), "worker")


if __name__ == "__main__":
    for f in sys.argv[1:] or ["plain"]:
        print(shared_lib(f))
