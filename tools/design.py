#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md, the property list, the harness bounds and the last evidence."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []
def prop(*a): P.append(a)
src = open(V + "/tools/props.py").read()
m = re.search(r"^NA = .*?(?=^def )", src, re.S | re.M)
if m: exec(m.group(0))
exec(open(V + "/tools/proplist.py").read())
seeds = {}
for d in sorted(os.listdir(V + "/seeded")):
    mp = f"{V}/seeded/{d}/meta.json"
    if os.path.exists(mp): seeds[d] = json.load(open(mp))
def bounds(pid):
    out = []
    for h in ("harness", "harness2"):
        f = f"{V}/{h}/src"
        for n in sorted(os.listdir(f)):
            if n.startswith(pid.lower()) and n.endswith(".rs"):
                out += [l[len("//! bounds: "):].strip() for l in open(f"{f}/{n}") if l.startswith("//! bounds: ")]
    return "; ".join(out)
o = []
for id, title, st, over, text, why, files, mech, note in P:
    ev = {}
    f = f"{V}/evidence/{id}.json"
    if os.path.exists(f): ev = json.load(open(f))
    c = ev.get("coverage", {})
    o.append(f"### {id} {title}\n\n{st}\n")
    o.append("*Code*: " + ", ".join(f"`{n}` ({w})" for n, w in mech) + f".\n*For all*: {text}.\n*Bounds*: {bounds(id)}.\n*Why not tests*: {why}")
    if c.get("entries"):
        e = c["entries"]
        o.append(f"*Cost (quick)*: {len(e)} entries ({', '.join(e)}), {c['states']} paths, {sum(x['queries'] for x in e.values())} queries, {sum(x['solver_seconds'] for x in e.values()):.0f} s of solver, {ev['wall_s']:.0f} s in all.")
    s = [d for d, m in seeds.items() if m["property"] == id]
    if s: o.append("*Planted*: " + ", ".join(s) + ".")
    o.append("")
for i, r in NA: o.append(f"* {i}: not applicable: {r}")
fnd = [json.loads(l) for l in open(V + "/known_findings.jsonl") if l.strip()]
fs = [f"* {k['id']} ({k['property']}, {k['status']}): {k['what']}" for k in fnd]
res = json.load(open(V + "/tools/seed_results.json")) if os.path.exists(V + "/tools/seed_results.json") else {}
ss = ["| id | property | what it breaks | needs | caught by its check |", "|---|---|---|---|---|"]
for d, m in seeds.items(): ss.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {res.get(d, 'yes')} |")
t = open(V + "/tools/design.md").read()
t = t.replace("@PROPERTIES@", "\n".join(o)).replace("@FINDINGS@", "\n".join(fs)).replace("@SEEDED@", "\n".join(ss))
open(V + "/DESIGN.md", "w").write(t)
