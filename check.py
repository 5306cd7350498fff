#!/usr/bin/env python3-vt
"""Decide one property: discharge its proof obligations on /repo's current source; replay / search failing inputs.

usage: check.py ID [--tier quick|thorough]
"""
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = '/opt/venv/bin/python'
from contracts import relies  # noqa: E402


def run_task(modname, name, limit, timeout, q):
    t0 = time.time()
    res = dict(task=name, obligs=[], unsupported=None, t=0)
    try:
        sys.setrecursionlimit(20000)
        from pyvc.core import Engine, Unsupported
        from pyvc.loader import load_all
        from pyvc.solver import Solver
        m = importlib.import_module('contracts.' + modname)
        dep = relies.find(modname.upper(), name)
        fn, texts = dep or (dict(m.TASKS)[name], ())
        E = None
        try:
            E = Engine(load_all(), Solver(timeout), task=name, deadline=t0 + limit)
            E.run(fn)
        except Unsupported as e:
            res['unsupported'] = f'{e} (at {getattr(E, "cur_line", "?")})'
        except (SyntaxError, RecursionError, KeyError, AttributeError, TypeError, ValueError, IndexError, AssertionError, NotImplementedError) as e:
            res['unsupported'] = f'{type(e).__name__}: {e}; ' + ' <- '.join(f'{x.name}:{x.lineno}' for x in traceback.extract_tb(e.__traceback__)[-4:])
        except Exception as e:
            res['unsupported'] = f'{type(e).__name__}: {e}'
        if E is not None:
            for o in E.obligs.values():
                if texts and not any(x in o.name for x in texts):
                    continue
                res['obligs'].append(dict(name=o.name, n=o.n, ok=o.ok, backend=o.backend, fails=o.fails[:3], unknown=o.unknown[:3]))
            res.update(paths=E.paths, funcs=sorted(E.funcs_seen), contracts=sorted(map(str, E.contract_used)), assumptions=sorted(E.assumptions),
                       solver=E.solver.n, solver_t=E.solver.time, slow=E.solver.slow[:5])
    except BaseException as e:
        res['unsupported'] = f'engine error {type(e).__name__}: {e}'
    res['t'] = time.time() - t0
    q.put(res)


class Falsifier:
    def __init__(self, pid, seed, budget, n, tag):
        self.jobs = []
        os.makedirs(f'{HERE}/evidence/tmp', exist_ok=True)
        for i in range(n):
            out = f'{HERE}/evidence/tmp/{pid}.{tag}.{i}.json'
            if os.path.exists(out):
                os.remove(out)
            sd = seed * 1000 + i
            env = dict(os.environ, PYTHONHASHSEED=str((sd * 7919) % 4294967295), PYTHONDONTWRITEBYTECODE='1')
            p = subprocess.Popen(['timeout', '-k', '5', str(int(budget * 2 + 60)), PY, f'{HERE}/falsify/main.py', pid, '--seed', str(sd), '--budget', str(budget), '--out', out],
                                 env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=HERE)
            self.jobs.append((p, out))

    def wait(self):
        cases, fails, errors = {}, [], []
        for p, out in self.jobs:
            p.wait()
            try:
                d = json.load(open(out))
                os.remove(out)
            except Exception:
                errors.append(f'falsifier process ended with {p.returncode} and no result')
                continue
            for k, v in d['cases'].items():
                cases[k] = cases.get(k, 0) + v
            for f in d['fails']:
                f['hashseed'] = int(d.get('hashseed') or 0)
                f['of'] = d['pid']
                fails.append(f)
            errors += d['errors']
        return cases, fails, errors


def run_tasks(modname, tasks, limit, timeout, workers):
    """Run every task in a process of its own; -> results in the order of tasks."""
    ctx = mp.get_context('fork')
    results, pending, running = [], list(tasks), {}
    while pending or running:
        while pending and len(running) < workers:
            n = pending.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=run_task, args=(modname, n, limit, timeout, q))
            p.start()
            running[n] = (p, q, time.time())
        for n, (p, q, ts) in list(running.items()):
            r = None
            try:
                r = q.get(timeout=0.05)
            except Exception:
                if not p.is_alive():
                    try:
                        r = q.get(timeout=1)
                    except Exception:
                        r = dict(task=n, obligs=[], unsupported=f'verifier process died ({p.exitcode})', t=time.time() - ts)
                elif time.time() - ts > limit + 60:
                    p.kill()
                    r = dict(task=n, obligs=[], unsupported='verifier ran out of time', t=time.time() - ts)
            if r is not None:
                results.append(r)
                p.join(5)
                if p.is_alive():
                    p.kill()
                del running[n]
    results.sort(key=lambda r: tasks.index(r['task']))
    return results


def unproved(r):
    """Obligations of a task that the solver did not accept."""
    out = []
    for o in r['obligs']:
        for f in o['fails']:
            if isinstance(f, str):
                f = dict(where='', why=f, model=None, inexact='vacuity')
            out.append(dict(task=r['task'], obligation=o['name'], verdict='refuted' if not f.get('inexact') else 'not proved (countermodel of an abstraction)', **f))
        for f in o['unknown']:
            out.append(dict(task=r['task'], obligation=o['name'], verdict='not proved', **f))
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[sys.argv.index('--tier') + 1] if '--tier' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    quick = tier != 'thorough'
    t0 = time.time()
    modname = pid.lower()
    try:
        M = importlib.import_module('contracts.' + modname)
    except ModuleNotFoundError:
        M = None
    tasks = [n for n, _ in getattr(M, 'TASKS', [])] + (relies.tasks(pid) if M else [])
    limit = getattr(M, 'LIMIT', 120) * (1 if quick else 3)
    nf = 3 if quick else 6
    budget = getattr(M, 'BUDGET', 14) if quick else 120
    fals = Falsifier(pid, seed, budget, nf, 'a')
    results = run_tasks(modname, tasks, limit, 8000 if quick else 30000, 8)
    cases, fails, errors = fals.wait()

    def undecided_tasks():
        return [r for r in results if r['unsupported'] or unproved(r)]
    # anything not proved is looked at again: the contracts are evaluated on the real code for longer, and
    # obligations the solver did not accept get another try with more time
    if undecided_tasks() and not fails:
        # a contract of a callee is looked at by the falsifier of the property that owns it
        owners = sorted({r['task'].split()[2].rstrip(':') for r in undecided_tasks() if r['task'].startswith('relies on ')})
        f2 = Falsifier(pid, seed + 17, 45 if quick else 240, 4, 'b')
        f3 = [Falsifier(o, seed + 17, 45 if quick else 240, 2, 'b') for o in owners]
        again = [r['task'] for r in results if unproved(r) and not r['unsupported']]
        if again:
            left = max(120, (780 if quick else 7200) - (time.time() - t0))
            better = {r['task']: r for r in run_tasks(modname, again, min(left, 2 * limit), 24000 if quick else 90000, 4)}
            results = [better[r['task']] if r['task'] in better and not better[r['task']]['unsupported'] else r for r in results]
        c2, fails, e2 = f2.wait()
        for k, v in c2.items():
            cases[k] = cases.get(k, 0) + v
        errors += e2
        for f in f3:
            c3, fl3, e3 = f.wait()
            fails += fl3
            errors += e3

    total = discharged = 0
    refuted, undecided, backends, samples = [], [], {}, []
    for r in results:
        if r['unsupported']:
            undecided.append(f"{r['task']}: {r['unsupported']}")
        refuted += unproved(r)
        for o in r['obligs']:
            total += o['n']
            discharged += o['ok']
            for k, v in o['backend'].items():
                backends[k] = backends.get(k, 0) + v
            if len(samples) < 12:
                samples.append(f"{r['task']}: {o['name']} ({o['ok']}/{o['n']})")
    refuted.sort(key=lambda f: f['verdict'] != 'refuted')
    violations = []
    os.makedirs(f'{HERE}/evidence', exist_ok=True)
    rp = f'{HERE}/evidence/{pid}.replay.json'
    if os.path.exists(rp):
        os.remove(rp)
    kf = load_known(pid)
    knownhits = []
    fresh = []
    for f in fails:
        k = [x for x in kf if x in ' '.join(f['messages'])]
        (knownhits if k else fresh).append((f, k))
    for x in sorted({x for _, k in knownhits for x in k} | set(kf)):
        print(f'KNOWN-FINDING: property={pid} {x}')
    if fresh or refuted:
        d = dict(property=pid, failed_obligations=refuted[:5] + undecided[:5])
        if fresh:
            f = fresh[0][0]
            d['failing_input'] = dict(suite=f['suite'], case=f['case'], seed=f['seed'], hashseed=f['hashseed'])
            d['observed'] = f['messages']
            if f['of'] != pid:
                d['contract_of'] = f['of']
            d['trace'] = f['trace']
            d['replay_cmd'] = f'cd {HERE} && {PY} falsify/main.py {f["of"]} --replay {rp}'
        json.dump(d, open(rp, 'w'), indent=1, default=str)
        violations.append(rp)
        for x in (refuted[:3]):
            print(f"failed obligation: {x['task']}: {x['obligation']} at {x.get('where')}: {x['verdict']}: {str(x.get('why'))[:300]}")
        if fresh:
            print('failing input:', fresh[0][0]['suite'], 'case', fresh[0][0]['case'], '-', '; '.join(fresh[0][0]['messages'])[:600])
        print(f'VIOLATION property={pid} replay={rp}' + ('' if fresh else ' no-failing-input-found'))
    used = {x for r in results for x in r.get('contracts', [])}
    level = getattr(M, 'LEVEL', 'exploration')
    ncases = sum(cases.values())
    ev = dict(property=pid, tier='quick' if quick else 'thorough', seed=seed, level=level, coverage=dict(
        obligations=total, discharged=discharged,
        checker_cmd=f'python3-vt {HERE}/check.py {pid} --tier {tier}',
        trusted_base=sorted({'pyvc (verification-condition generator, /verif/pyvc) and its model of Python builtins', 'z3 (and cvc5 where z3 answers unknown)'} | {'assumed contract: ' + x for x in used if x not in relies.PROVED}),
        contracts_used_and_discharged_elsewhere=sorted(f'{x}: its contract is discharged on its body by the check of {", ".join(relies.PROVED[x])}' for x in used if x in relies.PROVED),
        functions_under_contract=sorted({f for r in results for f in r.get('funcs', [])}),
        backends=backends, solver_time_s=round(sum(sum(r.get('solver_t', {}).values()) for r in results), 2),
        solver_queries=sum(sum(r.get('solver', {}).values()) for r in results),
        paths=sum(r.get('paths', 0) for r in results),
        tasks=[dict(task=r['task'], seconds=round(r['t'], 2), paths=r.get('paths'), obligations=sum(o['n'] for o in r['obligs']), discharged=sum(o['ok'] for o in r['obligs']), not_decided=r['unsupported']) for r in results],
        not_proved=[str(x)[:400] for x in refuted + undecided][:20],
        bounded=dict(cases=cases, note='the contracts evaluated on runs of the real code; bounded, not counted as proved' + ('; stands in for the obligations under not_proved' if undecided else '')),
        samples=samples,
        explanation=getattr(M, '__doc__', None) or ''),
        assumptions=sorted({a for r in results for a in r.get('assumptions', [])} | set(getattr(M, 'ASSUME', []))),
        wall_s=round(time.time() - t0, 2), violations=len(violations))
    if errors:
        ev['coverage']['harness_errors'] = errors[:5]
    json.dump(ev, open(f'{HERE}/evidence/{pid}.json', 'w'), indent=1, default=str)
    print(f'{pid} {tier}: {discharged}/{total} obligations discharged in {len(tasks)} tasks, {len(undecided)} not decided; {ncases} bounded cases; {ev["wall_s"]} s')
    for u in undecided[:3]:
        print('  not decided:', str(u)[:300])
    for e in errors[:3]:
        print('  harness:', e[:300])
    sys.exit(1 if violations else 0)


def load_known(pid):
    out = []
    try:
        for line in open(f'{HERE}/known-findings.txt'):
            if line.startswith(f'known: property={pid} '):
                out.append(line.split(' ', 2)[2].strip())
    except FileNotFoundError:
        pass
    return out


if __name__ == '__main__':
    if __debug__:
        # assertions of the z3 bindings cost half of the time
        os.execv(sys.executable, [sys.executable, '-O', *sys.argv])
    main()
