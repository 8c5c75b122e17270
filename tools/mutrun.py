#!/usr/bin/env python3
"""tools/mutrun.py FILE [names...]: applies each planted change of FILE (a Python file with a list M of
(name, [check ids], file, old, new[, old, new...])) to a scratch copy and runs the checks on it. Nothing else reads these files."""
import os, subprocess, sys, time
W = os.environ.get("MW", "/tmp/mw")
if not os.path.exists(W):
    subprocess.check_call(["cp", "-a", "/repo", W])
ns = {}
exec(open(sys.argv[1]).read(), ns)
sel = sys.argv[2:]
for m in ns["M"]:
    name, checks, f = m[:3]
    if sel and name not in sel:
        continue
    subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
    p = os.path.join(W, f)
    s = open(p).read()
    bad = False
    for a, b in zip(m[3::2], m[4::2]):
        if s.count(a) != 1:
            print("%-28s BAD PATTERN (%d): %s" % (name, s.count(a), a[:60]), flush=True)
            bad = True
            break
        s = s.replace(a, b)
    if bad:
        continue
    open(p, "w").write(s)
    out = []
    for c in checks:
        t = time.time()
        r = subprocess.run(["/verif/check.py", c, "--no-shrink"], cwd="/verif", capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=W, VERIF_BUILD=os.environ.get("MB", "/tmp/mb")))
        v = {0: "MISSED", 1: "caught"}.get(r.returncode, "rc%d" % r.returncode)
        msg = [l for l in r.stdout.splitlines() if not l.startswith(("case:", "VIOLATION", "KNOWN"))]
        out.append("%s %s %.0fs%s" % (c, v, time.time() - t, " [%s]" % msg[0][:110] if r.returncode and msg else ""))
    print("%-28s %s" % (name, "; ".join(out)), flush=True)
subprocess.call(["git", "-C", W, "checkout", "-q", "--", "."])
