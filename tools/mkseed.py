#!/usr/bin/env python3
"""Build and confirm planted bugs: mkseed.py FILE.py  (FILE defines SEEDS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)])."""
import json, os, runpy, shutil, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedwork'
base = json.load(open('/opt/vp/BASELINE.json'))
def stable():
    for k in ('stable', 'passed', 'pass', 'tests'):
        if k in base: return set(base[k])
    raise SystemExit(list(base)[:5])
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
only = set(sys.argv[2:])
for s in runpy.run_path(sys.argv[1])['SEEDS']:
    if only and s['id'] not in only: continue
    d = f"{W}/repo"
    shutil.rmtree(d, ignore_errors=True)
    sh(f'cp -a /repo {d}; git -C {d} commit -qam base')
    ok = True
    for f, a, b in s['edits']:
        p = f'{d}/src/graph_scheduler/{f}'
        t = open(p).read()
        if t.count(a) != 1:
            print(s['id'], 'EDIT does not match', t.count(a), repr(a[:60])); ok = False; break
        open(p, 'w').write(t.replace(a, b))
    if not ok: continue
    diff = sh(f'git -C {d} diff').stdout
    dd = f"{W}/demo"; shutil.rmtree(dd, ignore_errors=True); os.makedirs(dd)
    open(f'{dd}/demo.py', 'w').write(s['demo'].lstrip())
    open(f'{dd}/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src"\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(f'{dd}/demo.sh', 0o755)
    r0 = sh(f'bash {dd}/demo.sh', cwd='/repo'); r1 = sh(f'bash {dd}/demo.sh', cwd=d)
    if r0.returncode != 0 or r1.returncode == 0:
        print(s['id'], 'DEMO wrong', r0.returncode, r1.returncode, r0.stdout[-500:], '|', r1.stdout[-200:]); continue
    t = open('/opt/vp/test.sh').read().replace('cd /repo', f'cd {d}; export PYTHONPATH={d}/src')
    open(f'{W}/test.sh', 'w').write(t)
    sh(f'bash {W}/test.sh {W}/out.json')
    o = json.load(open(f'{W}/out.json'))
    passed = set(o.get('passed') or o.get('pass') or [k for k, v in o.get('tests', {}).items() if v in ('passed', 'pass')])
    miss = stable() - passed
    if miss:
        print(s['id'], 'TESTS catch it:', len(miss), sorted(miss)[:2]); continue
    out = f"{H}/seeded/{s['id']}"
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    open(f'{out}/patch.diff', 'w').write(diff)
    for f in ('demo.py', 'demo.sh'): shutil.copy(f'{dd}/{f}', out)
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(f'{out}/meta.json', 'w'), indent=1)
    print(s['id'], s['prop'], 'kept;', r1.stdout.strip().splitlines()[-1][:150])
