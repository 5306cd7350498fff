#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the contract modules present."""
import json, os, re, ast
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{H}/properties.jsonl')]
NA = {
 'C25': 'set_alias works by installing attributes into module namespaces found at run time and by renaming classes and documentation dynamically; no function contract over a fixed program text can state the result, and a run-time comparison would be a different technique',
}
checks, na = [], []
for p in props:
    i = p['id']
    f = f'{H}/contracts/{i.lower()}.py'
    if i in NA or not os.path.exists(f):
        na.append(dict(property=i, reason=NA.get(i, 'contracts for the functions this property depends on are not written yet')))
        continue
    t = ast.parse(open(f).read())
    c = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('LEVEL', 'NOTE'):
            c[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append(dict(property=i, quick_cmd=f'python3-vt check.py {i} --tier quick', thorough_cmd=f'python3-vt check.py {i} --tier thorough',
        technique='contract-based deductive verification: verification conditions generated from the parsed source of /repo on every run, discharged by z3/cvc5; failing inputs by evaluating the same contracts on the real code',
        level=c.get('LEVEL', 'proof'), level_note=c.get('NOTE', '')))
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3, cvc5" && /opt/venv/bin/python -c "import networkx, pint"', checks=checks, not_applicable=na,
   notes='Each check regenerates and discharges its proof obligations from /repo/src/graph_scheduler as it is now; /verif/DESIGN.md describes contracts, assumptions and the bounded stand-in.'),
   open(f'{H}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
