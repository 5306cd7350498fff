"""Runtime evaluation of the contracts on the real code: seeded, replayable cases.

A suite is a function case(rng, report) run with rng = Random(f'{seed}:{suite}:{k}'); `report(pid, message)` records that the
property `pid` was observed broken.  A case is replayed from its suite name, seed and number alone.
"""
import json
import os
import random
import sys
import time
import traceback
import warnings
import logging

SUITES = {}


def suite(name, props):
    def deco(f):
        SUITES[name] = (f, props)
        return f
    return deco


class Report:
    def __init__(self, pid):
        self.pid, self.bad, self.log = pid, [], []

    def __call__(self, pid, msg):
        if pid == self.pid or self.pid is None:
            self.bad.append(msg if self.pid else f'{pid}: {msg}')

    def note(self, *a):
        if len(self.log) < 4000:
            self.log.append(' '.join(map(str, a)))


def run_case(name, pid, seed, k):
    f, props = SUITES[name]
    rng = random.Random(f'{seed}:{name}:{k}')
    rep = Report(pid)
    f(rng, rep)
    return rep


def campaign(pid, seed, budget, only=None):
    """Round-robin over the suites that speak about pid, for `budget` seconds."""
    names = [n for n, (f, props) in SUITES.items() if pid in props]
    ks = {n: 0 for n in names}
    t0 = time.time()
    fails, seen, errors = [], set(), []
    while names and time.time() - t0 < budget and len(fails) < 3:
        for n in list(names):
            k = ks[n]
            ks[n] += 1
            try:
                rep = run_case(n, pid, seed, k)
            except Exception as e:   # an exception no contract allows
                tb = traceback.extract_tb(e.__traceback__)
                src = [x for x in tb if 'graph_scheduler' in x.filename and 'falsify' not in x.filename]
                msg = f'unexpected {type(e).__name__}: {e} at ' + (f'{os.path.basename(src[-1].filename)}:{src[-1].name}' if src else f'harness {tb[-1].filename}:{tb[-1].lineno}')
                if not src:
                    errors.append(f'{n}:{k}: {msg}')
                    if len(errors) > 5:
                        names.remove(n)
                    continue
                rep = Report(pid)
                rep.bad.append(msg)
            if rep.bad:
                key = (n, rep.bad[0][:60])
                if key not in seen:
                    seen.add(key)
                    fails.append(dict(suite=n, case=k, seed=seed, messages=rep.bad[:5], trace=rep.log[-60:]))
                if len(fails) >= 3:
                    break
            if time.time() - t0 >= budget:
                break
    return dict(pid=pid, seed=seed, cases=ks, fails=fails, errors=errors, wall=time.time() - t0)


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--seed', default='1')
    ap.add_argument('--budget', type=float, default=10)
    ap.add_argument('--out')
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.replay:
        d = json.load(open(a.replay))['failing_input']
        if os.environ.get('PYTHONHASHSEED') != str(d['hashseed']):
            os.environ['PYTHONHASHSEED'] = str(d['hashseed'])
            os.execv(sys.executable, [sys.executable] + sys.argv)
    src = os.environ.get('GS_SRC', '/repo/src/graph_scheduler')
    sys.path.insert(0, os.path.dirname(src))
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    try:
        import graph_scheduler
        assert os.path.dirname(graph_scheduler.__file__) == os.path.realpath(src), graph_scheduler.__file__
        import suites  # noqa
    except Exception as e:
        traceback.print_exc()
        res = dict(pid=a.pid, seed=a.seed, cases={}, fails=[dict(suite='import', case=0, seed=a.seed, messages=[f'importing graph_scheduler failed: {type(e).__name__}: {e}'], trace=[])], errors=[], wall=0)
        if a.out:
            json.dump(res, open(a.out, 'w'))
        sys.exit(3)
    if a.replay:
        try:
            rep = run_case(d['suite'], a.pid, d['seed'], d['case'])
            bad = rep.bad
            print('\n'.join(rep.log[-60:]))
        except Exception:
            bad = [traceback.format_exc()]
        print('replayed:', 'FAILS' if bad else 'passes')
        for b in bad[:5]:
            print('  ', b)
        sys.exit(1 if bad else 0)
    res = campaign(a.pid, a.seed, a.budget)
    res['hashseed'] = os.environ.get('PYTHONHASHSEED')
    if a.out:
        json.dump(res, open(a.out, 'w'))
    else:
        print(json.dumps({k: v for k, v in res.items() if k != 'fails'}))
        for f in res['fails']:
            print(f['suite'], f['case'], *f['messages'], sep='\n   ')
            print('      ' + '\n      '.join(x[:200] for x in f['trace'][-6:]))
