#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []   # (id, title, statement, over, quantifier text, why tests cannot, files, mechanism[(name, where)], level note)
NA = []  # (id, reason)


def prop(id, title, statement, over, text, why, files, mech, note):
    assert len(title) <= 80, title
    P.append((id, title, statement, over, text, why, files, mech, note))


exec(open(os.path.join(V, "tools", "proplist.py")).read())

with open(V + "/properties.jsonl", "w") as f:
    for id, title, st, over, text, why, files, mech, note in P:
        f.write(json.dumps({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}}) + "\n")
na = {i for i, _ in NA}
M = {"version": 1, "setup_cmd": "python3 vf.py setup",
     "checks": [{"property": p[0], "quick_cmd": f"python3 vf.py check {p[0]} --tier quick", "thorough_cmd": f"python3 vf.py check {p[0]} --tier thorough",
                 "technique": "symbolic execution of rustc's LLVM bitcode of the real code, assertions decided by z3 (cvc5 on hard queries)",
                 "level": "model_checking", "level_note": p[8]} for p in P if p[0] not in na],
     "not_applicable": [{"property": i, "reason": r} for i, r in NA],
     "notes": "No hooks in /repo: each check mirrors /repo's tree, makes items public, compiles it with a harness to LLVM bitcode and executes that symbolically. Counterexamples are replayed against a native build before they are reported."}
json.dump(M, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(P), "properties,", len(M["checks"]), "checks")
