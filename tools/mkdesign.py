#!/usr/bin/env python3
"""DESIGN.md from tools/design.tmpl.md, tools/props.py, the check modules, known_findings.json, tools/notes.md and the seed table."""
import ast, glob, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
from props import PROPS, NOT_APPLICABLE


def const(path, names):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in names:
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


def sent(s):
    return " ".join(s.split()) if isinstance(s, str) else "; ".join(s)


P = []
for p in PROPS:
    f = f"{H}/checks/{p['id'].lower()}.py"
    c = const(f, ("BOUNDS", "OUTSIDE", "ASSUMPTIONS")) if os.path.exists(f) else {}
    P.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n"
             f"* How: {p.get('how', 'the functions below run symbolically on the inputs within the bounds; the oracle is the documented meaning written as solver terms.')}\n"
             f"* Code: {'; '.join(n + ' (`' + w + '`)' for n, w in p['mech'])}\n"
             f"* Bounds: {sent(c.get('BOUNDS', ''))}\n* Outside: {sent(c.get('OUTSIDE', ''))}\n"
             + (f"* Assumed: {sent(c['ASSUMPTIONS'])}\n" if c.get("ASSUMPTIONS") else "")
             + f"* Why tests cannot settle it: {p['why']}\n")
for n in NOT_APPLICABLE:
    P.append(f"### {n['property']} not applicable\n\n{n['reason']}\n")
k = json.load(open(f"{H}/known_findings.json"))
res = json.load(open(f"{H}/tools/seedresults.json")) if os.path.exists(f"{H}/tools/seedresults.json") else {}
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(f"{H}/seeded/*/meta.json")):
    i = d.split("/")[-2]
    m = json.load(open(d))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {res.get(i, '?')} |")
s = open(f"{H}/tools/design.tmpl.md").read()
s = (s.replace("@@PROPS@@", "\n".join(P)).replace("@@FIXED@@", "\n".join("* " + x for x in k["fixed"]))
     .replace("@@KNOWN@@", "\n".join(f"* {x['id']}: {x['what']}" for x in k["known"]))
     .replace("@@NOTES@@", open(f"{H}/tools/notes.md").read()).replace("@@SEEDS@@", "\n".join(rows)))
open(f"{H}/DESIGN.md", "w").write(s)
