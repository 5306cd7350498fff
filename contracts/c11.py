"""Each time condition against the number of units elapsed on the clock of the evaluated context (the clock: contract proved by C10)."""
from .conds import *

LEVEL = 'proof'
LIMIT = 300
NOTE = 'every time condition class, every time scale it accepts, symbolic n, any clock state, with and without default arguments; clock queries by their contract (C10)'

REL = dict(Before=lambda x, n: x < n, At=lambda x, n: x == n, After=lambda x, n: x > n, AfterN=lambda x, n: x >= n, EveryN=lambda x, n: x % n == 0)
M = dict(CSE='CONSIDERATION_SET_EXECUTION', PASS='PASS', ESU='ENVIRONMENT_STATE_UPDATE', ES='ENVIRONMENT_SEQUENCE', LIFE='LIFE')


def scaled(cls, rel, unit, scales):
    def f(E):
        E.hooks.clear()
        W = World(E)
        n = E.fresh(I, 'n')
        if rel == 'EveryN':
            E.assume(n >= 1)
        k = E.choose(len(scales) + 1)
        scale = tsm(E, M[scales[max(k - 1, 0)]])
        args = [V(n)]
        kw = {}
        if k:
            if E.choose(2):
                kw = dict(time_scale=scale)
            else:
                args.append(scale)
        c = E.call(E.cls('condition.' + cls), args, kw)
        if E.choose(2):
            W.no_scheduler('C11', cls, c)
            return
        W.exactly('C11', cls, c, lambda: REL[rel](W.elapsed(tsm(E, M[unit]), scale), n))
    return f


def sequence(cls, rel):
    def f(E):
        E.hooks.clear()
        W = World(E)
        n = E.fresh(I, 'n')
        c = E.call(E.cls('condition.' + cls), [V(n)], {})
        if E.choose(2):
            W.no_scheduler('C11', cls, c)
            return
        W.exactly('C11', cls, c, lambda: REL[rel](W.elapsed(tsm(E, M['ES']), tsm(E, M['LIFE'])), n))
    return f


def start(cls, want, nargs, scales=()):
    def f(E):
        E.hooks.clear()
        W = World(E)
        n = E.fresh(I, 'n')
        el = lambda u, w: W.elapsed(tsm(E, M[u]), tsm(E, M[w]))
        args = [V(n)] * nargs
        sc = 'ES'
        if scales:
            k = E.choose(len(scales) + 1)
            if k:
                sc = scales[k - 1]
                args.append(tsm(E, M[sc]))
        c = E.call(E.cls('condition.' + cls), args, {})
        if E.choose(2):
            W.no_scheduler('C11', cls, c)
            return
        W.exactly('C11', cls, c, lambda: want(el, n, sc))
    return f


LOW, HIGH = ['ESU', 'ES', 'LIFE'], ['ES', 'LIFE']
TASKS = [(c, scaled(c, r, u, s)) for c, r, u, s in [
    ('BeforeConsiderationSetExecution', 'Before', 'CSE', LOW), ('AtConsiderationSetExecution', 'At', 'CSE', LOW),
    ('AfterConsiderationSetExecution', 'After', 'CSE', LOW), ('AfterNConsiderationSetExecutions', 'AfterN', 'CSE', LOW),
    ('BeforePass', 'Before', 'PASS', LOW), ('AtPass', 'At', 'PASS', LOW), ('AfterPass', 'After', 'PASS', LOW), ('AfterNPasses', 'AfterN', 'PASS', LOW),
    ('EveryNPasses', 'EveryN', 'PASS', LOW),
    ('BeforeEnvironmentStateUpdate', 'Before', 'ESU', HIGH), ('AtEnvironmentStateUpdate', 'At', 'ESU', HIGH),
    ('AfterEnvironmentStateUpdate', 'After', 'ESU', HIGH), ('AfterNEnvironmentStateUpdates', 'AfterN', 'ESU', HIGH)]]
TASKS += [(c, sequence(c, r)) for c, r in [('AtEnvironmentSequence', 'At'), ('AfterEnvironmentSequence', 'After'), ('AfterNEnvironmentSequences', 'AfterN')]]
TASKS += [
    ('AtEnvironmentStateUpdateStart', start('AtEnvironmentStateUpdateStart', lambda el, n, s: el('PASS', 'ESU') == 0, 0)),
    ('AtEnvironmentStateUpdateNStart', start('AtEnvironmentStateUpdateNStart', lambda el, n, s: z3.And(el('PASS', 'ESU') == 0, el('ESU', s) == n), 1, HIGH)),
    ('AtEnvironmentSequenceStart', start('AtEnvironmentSequenceStart', lambda el, n, s: el('ESU', 'ES') == 0, 0)),
    ('AtEnvironmentSequenceNStart', start('AtEnvironmentSequenceNStart', lambda el, n, s: z3.And(el('ESU', 'ES') == 0, el('ES', 'LIFE') == n), 1))]
