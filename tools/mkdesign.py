#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/design_*.md and the planted bugs (seeded/*/meta.json, tools/caught.txt: lines of id and rc)."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda f: open(f"{R}/tools/{f}").read()
caught = {}
for l in rd("caught.txt").splitlines():
    m = re.match(r"(\S+) (C\d\d) rc=(\d+) (\d+)s", l)
    if m: caught[m[1]] = m[3] == "1"
st = json.loads(rd("strengthened.json"))
rows = ["| bug | property | needs | caught | remark |", "|---|---|---|---|---|"]
for b in sorted(os.listdir(f"{R}/seeded")):
    m = json.load(open(f"{R}/seeded/{b}/meta.json"))
    c = {True: "yes", False: "**no**", None: "?"}[caught.get(b)]
    rows.append(f"| {b} | {m['property']} | {m['needs'].replace('|', '/')} | {c} | {st.get(b, '')} |")
open(f"{R}/DESIGN.md", "w").write(rd("design_head.md") + rd("design_props.md") + "\n" + rd("design_tail.md") + "\n".join(rows) + "\n")
