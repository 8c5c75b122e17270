"""Client of workers/pyworker.py (the cocoex package under AddressSanitizer); one server per process, one forked child per script."""
import json, os, shutil, signal, subprocess, tempfile
import build

_servers = {}


def server(pkg, flavour):
    key = (os.getpid(), pkg)
    if key not in _servers:
        env = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "LANG": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1", "OPENBLAS_NUM_THREADS": "1",
               "PYTHONPATH": os.path.join(build.VERIF, "workers"), "PYTHONHASHSEED": "0"}
        if flavour == "asan":
            env["LD_PRELOAD"] = "/usr/lib/gcc/x86_64-linux-gnu/13/libasan.so"
            env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_segv=1"
            env["PYTHONMALLOC"] = "malloc"
        _servers[key] = subprocess.Popen([build.VENV + "python", os.path.join(build.VERIF, "workers", "pyworker.py"), pkg], stdin=subprocess.PIPE,
                                         stdout=subprocess.PIPE, env=env, cwd="/")
    return _servers[key]


def run(pkg, flavour, job, d):
    """Runs the job in the directory d; returns (list of results, finished, description of how the interpreter ended)."""
    s = server(pkg, flavour)
    s.stdin.write((json.dumps(dict(job, dir=d)) + "\n").encode())
    s.stdin.flush()
    line = s.stdout.readline()
    if not line:
        raise RuntimeError("the Python worker ended")
    st = json.loads(line)["status"]
    try:
        res = [json.loads(x) for x in open(os.path.join(d, "out.txt"))]
    except (OSError, ValueError):
        res = []
    done = bool(res) and res[-1] == "end"
    if done:
        res.pop()
    err = ""
    try:
        err = open(os.path.join(d, "stderr.txt"), errors="replace").read()
    except OSError:
        pass
    how = ""
    if not done or st:
        how = "signal %d" % os.WTERMSIG(st) if os.WIFSIGNALED(st) else "status %d" % os.WEXITSTATUS(st)
        t = [l for l in err.splitlines() if l.startswith(("SUMMARY", "COCO FATAL", "==")) and ("SUMMARY" in l or "ERROR" in l)]
        how += "".join("; " + x.strip()[:200] for x in t[:2]) or "; " + err.strip()[-300:]
    return res, done and st == 0, how


def tree(d):
    r = {}
    for root, dirs, files in os.walk(d):
        dirs.sort()
        for f in sorted(files):
            q = os.path.join(root, f)
            r[os.path.relpath(q, d)] = open(q, "rb").read()
        for x in dirs:
            r[os.path.relpath(os.path.join(root, x), d) + "/"] = b""
    return r
