"""Rewrites the table of planted changes at the end of DESIGN.md."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head = "## Planted changes and the check that reports them\n"
rows = []
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    rows.append((m["property"], d, m["needs"]))
s = open(root + "/DESIGN.md").read().split(head)[0] + head + "\n| check | change | needs |\n|---|---|---|\n"
s += "".join(f"| {a} | `{b}` | {c} |\n" for a, b, c in sorted(rows))
open(root + "/DESIGN.md", "w").write(s)
