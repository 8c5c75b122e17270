#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the per-property sections, tools/design_tail.md and the lists of planted bugs and mutants."""
import importlib.util, json, os, re
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)


def load(n):
    s = importlib.util.spec_from_file_location("m", os.path.join(H, n))
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m


out = [open(H + "/design_head.md").read().rstrip(), "", "## Properties", ""]
S = load("design_sections.py").S
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    src = open(V + "/props/%s.py" % p["id"].lower()).read()
    q, t = (int(re.search(k + r"_cases = (\d+)", src).group(1)) for k in ("quick", "thorough"))
    g, o, b, w = S[p["id"]]
    out += ["### %s %s" % (p["id"], p["title"]), "", "* Generated: %s." % g, "* Oracle: %s." % o,
            "* Bounds and cost: %s; quick %d cases, thorough %d." % (b, q, t), "* Why beyond the tests: %s." % w, ""]
out += [open(H + "/design_tail.md").read().rstrip(), "", "### Planted bugs (seeded/)", "",
        "Each was confirmed in a scratch copy (`tools/tryseed.sh`): the demonstration passes without and fails with the change, the stable tests pass with it.", "",
        "| bug | check that catches it | needs |", "|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    out.append("| %s | %s | %s |" % (d, m["property"], m["needs"]))
out += ["", "### Further mutants (tools/mutants, run by tools/mutrun.py in scratch copies)", "",
        "| mutant | checks that were run on it (it is caught unless listed as equivalent above) |", "|---|---|"]
for f in sorted(os.listdir(H + "/mutants")):
    if f.endswith(".py"):
        for m in load("mutants/" + f).M:
            out.append("| %s | %s |" % (m[0], ", ".join(m[1])))
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
