"""rewrites the lists at the end of DESIGN.md (planted bugs, defects found)"""
import glob
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md")
s = open(p).read().split("<!-- lists -->")[0].rstrip() + "\n\n<!-- lists -->\n"
s += "## Planted bugs (`seeded/`)\n\nEach is caught by the check of the property it was planted for (confirmed with\n`check.py` against a patched tree); none is special-cased.\n\n"
rows = sorted((json.load(open(m))["property"], m.split("/")[-2], json.load(open(m))) for m in glob.glob(V + "/seeded/*/meta.json"))
for pid, n, m in rows:
    s += "- %s `%s`: %s. Needs: %s.\n" % (pid, n, m["what_it_breaks"], m["needs"])
fixed, opened = [], []
for l in open(V + "/known_findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        fixed.append(m.groups())
    m = re.match(r"open: property=(\S+) key=(\S+) (.*)", l)
    if m:
        opened.append(m.groups())
s += "\n## Defects of the library found by the checks and repaired\n\n"
for pid, c, t in sorted(fixed):
    s += "- %s %s: %s\n" % (pid, c, t)
s += "\n## Defects recorded, not repaired (`known_findings.txt`)\n\n"
for pid, k, t in sorted(opened):
    s += "- %s `%s`: %s\n" % (pid, k, t)
open(p, "w").write(s)
