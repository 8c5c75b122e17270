"""Client of workers/JavaWorker.java (native library under AddressSanitizer); one JVM per process, restarted when it ends."""
import os, subprocess, tempfile
import build

_jvm = {}


def start(cls, flavour):
    env = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "LANG": "C.UTF-8"}
    if flavour == "asan":
        env["LD_PRELOAD"] = "/usr/lib/gcc/x86_64-linux-gnu/13/libasan.so"
        env["ASAN_OPTIONS"] = "handle_segv=0:detect_leaks=0:exitcode=99:allocator_may_return_null=1"
    err = tempfile.TemporaryFile()
    p = subprocess.Popen(["java", "-Xint", "-XX:+UseSerialGC", "-Xmx256m", "-XX:-UsePerfData", "-XX:-CreateCoredumpOnCrash", "-XX:ErrorFile=/dev/null", "-Dfile.encoding=UTF-8",
                          "-Djava.library.path=" + cls, "-cp", cls, "JavaWorker"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=err, env=env, cwd="/")
    return p, err


def run(cls, flavour, ops):
    """Returns (results, how it ended or "")."""
    key = (os.getpid(), cls)
    if key not in _jvm:
        _jvm[key] = start(cls, flavour)
    p, err = _jvm[key]
    res = []
    try:
        p.stdin.write(b"begin\n")
        for o in ops:
            p.stdin.write(("\t".join(map(str, o)) + "\n").encode())
            p.stdin.flush()
            while True:
                line = p.stdout.readline()
                if not line:
                    raise EOFError
                if line[:1] in b"=!":       # anything else is printed by the library
                    break
            res.append(line.decode("utf-8", "replace").rstrip("\n"))
        return res, ""
    except (EOFError, OSError):
        _jvm.pop(key, None)
        st = p.wait()
        err.seek(0)
        t = [l for l in err.read().decode(errors="replace").splitlines() if "ERROR: AddressSanitizer" in l or l.startswith(("SUMMARY", "COCO FATAL", "# Problematic", "#  SIG"))]
        return res, "status %d; %s" % (st, "; ".join(t[:3])[:400])
