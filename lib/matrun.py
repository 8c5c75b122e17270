"""Client of csrc/mexstub/mexworker.c; understands the one-statement .m files of the interface."""
import os, re, struct, subprocess, tempfile
import build

_proc = {}
_wrap = {}


def wrapper(name):
    """(function called, positions of the arguments, whether something is returned) of build/matlab/<name>.m, None where it is not a plain call."""
    if name not in _wrap:
        _wrap[name] = _read(name)
    return _wrap[name]


def _read(name):
    try:
        t = open(os.path.join(build.REPO, "build/matlab", name + ".m"), encoding="latin1").read()
    except OSError:
        return None
    t = "\n".join(l.split("%")[0] for l in t.splitlines()).strip()
    m = re.match(r"function\s+(?:\[?\s*(\w+)\s*\]?\s*=\s*)?(\w+)\s*\(([^)]*)\)\s*(?:\[?\s*(\w+)\s*\]?\s*=\s*)?cocoCall\(\s*'([^']*)'\s*((?:,\s*\w+\s*)*)\)\s*;?\s*(?:end)?\s*;?\s*$", t)
    if not m:
        return None
    par = [x.strip() for x in m.group(3).split(",") if x.strip()]
    arg = [x.strip() for x in m.group(6).split(",") if x.strip()]
    if any(x not in par for x in arg) or (m.group(1) and m.group(1) != m.group(4)):
        return None
    return m.group(5), [par.index(x) for x in arg], bool(m.group(1))


def enc(a):
    k = a[0]
    if k == "s":
        return "s:" + a[1].encode("utf-8", "surrogateescape").hex()
    if k == "h":
        return "h:" + a[1]
    fmt = {"d": "d", "i": "i", "l": "q"}[k]
    return "%s:%dx%d:%s" % (k, a[1], a[2], struct.pack("<%d%s" % (len(a[3]), fmt), *a[3]).hex())


def run(exe, calls, cwd):
    """calls: (out slot, nlhs, name, args); returns (results, how the worker ended or "")."""
    key = (os.getpid(), exe)
    err = tempfile.TemporaryFile()
    # the working directory matters only through absolute folder names; one process per sequence keeps them apart
    p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=err, cwd=cwd,
                         env={"PATH": "/usr/bin:/bin", "LANG": "C.UTF-8", "ASAN_OPTIONS": "detect_leaks=0:exitcode=99"})
    t = "".join("\t".join([c[0], str(c[1]), "s:" + c[2].encode().hex()] + [enc(a) for a in c[3]]) + "\n" for c in calls)
    out, _ = p.communicate(t.encode(), timeout=100)
    res = []
    for l in out.decode("latin1").splitlines():
        v, ch, pr = l.rsplit("|", 2)
        res.append((v, int(ch), bytes.fromhex(pr).decode("latin1")))
    how = ""
    if p.returncode:
        err.seek(0)
        w = [l for l in err.read().decode(errors="replace").splitlines() if "ERROR: AddressSanitizer" in l or l.startswith("SUMMARY")]
        how = "status %d; %s" % (p.returncode, "; ".join(w[:3])[:400])
    err.close()
    return res, how
