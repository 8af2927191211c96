"""Rewrites the tables of DESIGN.md (findings and planted bugs) in place."""
import glob
import json
import os
import re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# planted bugs that a check missed at first, and what was added
MISSED = json.load(open(os.path.join(VERIF, "tools", "missed.json")))


def between(text, mark, body):
    return re.sub(r"(<!-- %s -->\n).*?(<!-- end -->)" % mark, lambda m: m.group(1) + body + "\n" + m.group(2), text, flags=re.S)


def cell(s):
    return s.replace("|", "\\|").replace("<", "&lt;")


rows = []
for line in open(os.path.join(VERIF, "known-findings.txt")):
    if line.startswith("fixed: property="):
        rows.append(line[16:].rstrip().split(" ", 2))
findings = ["| property | commit | what failed |", "|---|---|---|"] + ["| %s | %s | %s |" % (p, c, cell(w)) for p, c, w in sorted(rows)]
bugs = ["| bug | check | needs | result |", "|---|---|---|---|"]
for path in sorted(glob.glob(os.path.join(VERIF, "seeded", "*", "meta.json"))):
    name = os.path.basename(os.path.dirname(path))
    m = json.load(open(path))
    bugs.append("| %s | %s | %s | %s |" % (name, m["property"], cell(m["needs"]), cell(MISSED.get(name, "caught"))))
path = os.path.join(VERIF, "DESIGN.md")
text = open(path).read()
text = between(text, "findings", "\n".join(findings))
text = between(text, "bugs", "\n".join(bugs))
with open(path, "w") as f:
    f.write(text)
