#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the check modules (their docstrings, LEVEL and ASSUMPTIONS)."""
import ast, json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"), encoding="utf-8")]
checks, na = [], []
for p in props:
    f = os.path.join(here, "mon", "checks", p["id"].lower() + ".py")
    if not os.path.exists(f):
        na.append(dict(property=p["id"], reason="check not built yet (work in progress)"))
        continue
    tree = ast.parse(open(f, encoding="utf-8").read())
    c = {t.id: n.value for n in tree.body if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name)}
    doc = ast.get_docstring(tree).split("\n\n")
    lit = lambda k, d: ast.literal_eval(c[k]) if k in c else d
    level = lit("LEVEL", "exploration")
    note = " ".join((doc[1] if len(doc) > 1 else doc[0]).split())
    ass = lit("ASSUMPTIONS", [])
    checks.append(dict(
        property=p["id"], quick_cmd=f"python3 run.py {p['id']}", thorough_cmd=f"VERIF_TIER=thorough python3 run.py {p['id']}",
        evidence_file=f"evidence/{p['id']}.json", technique="runtime monitoring: " + " ".join(doc[0].split()).split(" ", 1)[1],
        level=level,
        level_note=("Every execution of the real code made by the run was judged by the monitor; inputs, histories and schedules not generated are not covered. "
                    + note + (" Assumes: " + "; ".join(ass) + "." if ass else ""))))
m = dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=na,
         notes="No hooks are needed in /repo: all monitors attach from outside (oracles, interpreter hooks, library interposition). "
               "known_findings.txt lists repaired and recorded defects.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w", encoding="utf-8"), indent=1, ensure_ascii=False)
print(len(checks), "checks", len(na), "not yet")
