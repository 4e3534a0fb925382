"""Rewrite the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# first missed by the machinery as it was when the change was written
MISSED = json.load(open(os.path.join(V, "tools", "missed.json")))
rows = ["| change | needs | first missed, then |", "|---|---|---|"]
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    rows.append(f"| {i} | {m['needs']} | {MISSED.get(i, '')} |")
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
head = "## Planted changes\n"
text = head + """
Every change in `seeded/` is caught by the check of its own property (`C04-b` by C04 and so on).  The last column says
what was added for those that were missed at first.

""" + "\n".join(rows) + "\n"
if head in s:
    a = s.index(head)
    b = s.find("\n## ", a + 1)
    s = s[:a] + text + (s[b:] if b > 0 else "")
else:
    s = s.rstrip("\n") + "\n\n" + text
open(p, "w").write(s)
