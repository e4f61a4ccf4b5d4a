"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set(open(os.path.join(TOP, "tools", "missed.txt")).read().split())
rows = []
for f in glob.glob(os.path.join(TOP, "seeded", "*", "meta.json")):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    rows.append((m["property"], i + ("*" if i in MISSED else ""),
                 m["needs"].strip()))
t = "| Caught by | Change | Needs |\n|---|---|---|\n" + "".join(
    "| %s | %s | %s |\n" % r for r in sorted(rows))
p = os.path.join(TOP, "DESIGN.md")
s = open(p).read()
s = re.sub(r"\| Caught by \| Change.*?\n\n", lambda _: t + "\n", s,
           flags=re.S)
open(p, "w").write(s)
print(len(rows), "changes")
