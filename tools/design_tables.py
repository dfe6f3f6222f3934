#!/usr/bin/env python3
"""Rewrites the generated tables of DESIGN.md (repairs, findings, planted bugs) between their markers."""
import json, os, re, glob
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
k = json.load(open(os.path.join(R, "known_findings.json")))
def one(s): return re.sub(r"\s+", " ", s).replace("|", "\\|").strip()
F = ["| property | commit | what failed |", "|---|---|---|"]
for t in k["fixed"]:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", t, re.S)
    F.append("| %s | `%s` | %s |" % (m[1], m[2], one(m[3])))
K = ["| id | property | what fails |", "|---|---|---|"] + ["| `%s` | %s | %s |" % (f["id"], f["property"], one(f["what"])) for f in k["findings"]]
caught = {}
p = os.path.join(R, "tools/caught.json")
if os.path.exists(p): caught = json.load(open(p))
B = ["| id | property | needs | breaks | caught by (quick) |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(R, "seeded/*/meta.json"))):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    B.append("| `%s` | %s | %s | %s | %s |" % (i, m["property"], one(m["needs"]), one(m["what_it_breaks"]), caught.get(i, "")))
s = open(os.path.join(R, "DESIGN.md")).read()
for n, t in (("fixes", F), ("findings", K), ("bugs", B)):
    s = re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (n, n), lambda m: m[1] + "\n".join(t) + "\n" + m[2], s, flags=re.S)
open(os.path.join(R, "DESIGN.md"), "w").write(s)
print(len(F) - 2, "fixes", len(K) - 2, "findings", len(B) - 2, "bugs")
