#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md (the text), props.py (harnesses and bounds), catalogue.py (titles), known-findings.json and seeded/*/meta.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import props
titles = {}
def P(i, t, *a): titles[i] = t
exec(open(V + "/tools/catalogue.py").read())
t = open(V + "/tools/design.md").read()
how = {}; cur = None
for l in open(V + "/tools/design_props.md"):
    if l.startswith("## "): cur = l[3:].strip(); how[cur] = ""
    elif cur: how[cur] += l
s = ""
for k in sorted(titles):
    p = props.PROPS[k]
    s += f"### {k} — {titles[k]}\n\n{how[k].strip()}\n\n- Harnesses: {', '.join('`'+h+'`' for h in p['quick'] + p.get('thorough', []))}\n- Bounds: {p['bounds']}.\n- Outside: {p.get('outside', '-')}.\n\n"
b = "| change | property | caught by its check | needs |\n|---|---|---|---|\n"
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json")); b += f"| {i} | {m['property']} | {m.get('caught', 'yes')} | {m['needs']} |\n"
f = "".join("- " + x.split("fixed: ", 1)[1] + "\n" for x in json.load(open(V + "/known-findings.json"))["fixed"])
open(V + "/DESIGN.md", "w").write(t.replace("@PROPS@", s.strip()).replace("@BUGS@", b.strip()).replace("@FIXED@", f.strip()))
