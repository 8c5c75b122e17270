"""Client of workers/rustworker.rs (one process per sequence; the library is compiled with AddressSanitizer)."""
import subprocess, tempfile


def run(exe, ops, cwd):
    """Returns (results, printed text before each result, how the process ended or "")."""
    err = tempfile.TemporaryFile()
    p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=err, cwd=cwd,
                         env={"PATH": "/usr/bin:/bin", "LANG": "C.UTF-8", "LD_PRELOAD": "/usr/lib/gcc/x86_64-linux-gnu/13/libasan.so",
                              "ASAN_OPTIONS": "detect_leaks=0:exitcode=99"})
    try:
        out, _ = p.communicate("".join("\t".join(map(str, o)) + "\n" for o in ops).encode("utf-8", "surrogateescape"), timeout=100)
    except subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
    res = [l for l in out.decode("utf-8", "surrogateescape").split("\n") if l[:1] in ("=", "!")]
    how = ""
    if p.returncode:
        err.seek(0)
        w = [l for l in err.read().decode(errors="replace").splitlines() if "ERROR: AddressSanitizer" in l or l.startswith(("SUMMARY", "COCO FATAL"))]
        how = "status %d; %s" % (p.returncode, "; ".join(w[:3])[:400])
    err.close()
    return res, how
