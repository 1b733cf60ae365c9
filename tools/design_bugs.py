"""Append the table of planted bugs to DESIGN.md: design_bugs.py LOG (lines '<id> <prop> rc=.. ..s ...')"""
import json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
took = {}
for line in open(sys.argv[1]):
    w = line.split()
    if len(w) >= 4 and w[2].startswith("rc="):
        took[w[0]] = ("caught" if w[2] == "rc=1" else "missed", w[3])
out = [open(f"{HERE}/tools/design_head.md").read().rstrip(), "", "## 6. Planted bugs and the checks that catch them", "",
       "Each was written from a property and the code, verified to pass the existing tests and to",
       "fail its demonstration (`seeded/<id>`); the last column is the outcome of that property's",
       "quick check at seed 1.", "",
       "| bug | property | needs | outcome |", "|---|---|---|---|"]
for i in sorted(os.listdir(f"{HERE}/seeded")):
    m = json.load(open(f"{HERE}/seeded/{i}/meta.json"))
    r = took.get(i, ("not run", ""))
    out.append(f"| {i} | {m['property']} | {m['needs']} | {r[0]} ({r[1]}) |")
tail = f"{HERE}/tools/design_tail.md"
if os.path.exists(tail):
    out += ["", open(tail).read().rstrip()]
open(f"{HERE}/DESIGN.md", "w").write("\n".join(out) + "\n")
