"""C12-C14, C22-C24: conditions, thresholds, absolute time and termination conditions on the real code."""
import copy
import inspect
import itertools
import math
import types
from fractions import Fraction

import numpy as np
from base import suite
import graph_scheduler as gs
from graph_scheduler import condition as C
from graph_scheduler.scheduler import Scheduler, SchedulerError, SchedulingMode
from graph_scheduler.time import TimeScale
from s_sched import Node, rdag, has_cycle, CSE, PASS, ESU, ES, LIFE

UR = gs._unit_registry


# ------------------------------------------------------------------------------------------------ C12, C04
class Fin(Node):
    pass


def counted(rng, rep):
    """Random runs in several contexts; at every yield the conditions are compared with our own history."""
    n = rng.randrange(1, 5)
    nodes = [Node('N%d' % i, rng) for i in range(n)]
    graph = {b: {a for a in nodes[:i] if rng.random() < .3} for i, b in enumerate(nodes)}
    s = Scheduler(graph)
    dense = rng.choice([.3, .6, .9])
    for x in nodes:
        s.add_condition(x, C.Condition(lambda: rng.random() < dense))
    eids = [None, 'a', ('b', 1)]
    hist = {}       # context -> {scale: {node: count}}, list of sets
    gens = {}

    def zero(e, *scales):
        for t in scales:
            hist[e][0][t] = {x: 0 for x in nodes}
    for _ in range(40):
        e = rng.choice(eids)
        if e not in gens:
            if rng.random() < .5:
                continue
            if e not in hist:
                hist[e] = ({}, [])
                zero(e, PASS, ESU, ES, LIFE)
            zero(e, PASS, ESU)
            gens[e] = [s.run(execution_id=e, termination_conds={ESU: C.AfterNPasses(rng.randrange(1, 5))}), None]
        try:
            got = next(gens[e][0])
        except StopIteration:
            del gens[e]
            continue
        p = s.get_clock(e).time.pass_
        if gens[e][1] != p:
            zero(e, PASS)
            gens[e][1] = p
        cnt, sets = hist[e]
        sets.append(set(got))
        for t in cnt:
            for x in got:
                cnt[t][x] += 1
        rep.note('context', repr(e), 'yields', got)
        for x in nodes:
            if rng.random() < .3:
                x.fin[e] = not x.fin.get(e, False)
        for _ in range(4):
            check_counts(rng, rep, s, nodes, rng.choice(list(gens)), hist)


def check_counts(rng, rep, s, nodes, e, hist):
    cnt, sets = hist[e]
    if not sets:
        return
    ts = rng.choice([PASS, ESU, ESU, ES, LIFE])
    dflt = rng.random() < .3
    kw = {} if dflt else {'time_scale': ts}
    t = ESU if dflt else ts
    n = rng.choice([0, 1, 1, 2, 3, 5])
    d = rng.choice(nodes)
    ds = [x for x in nodes if rng.random() < .6]
    if ds and rng.random() < .4:
        ds += rng.choices(ds, k=rng.randrange(1, 4))        # a dependency may be named more than once
    rng.shuffle(ds)
    v = cnt[t][d]
    fin = lambda x: x.is_finished(e)
    over = lambda xs: xs or list(s.nodes)
    for c, want in [
        (C.BeforeNCalls(d, n, **kw), v < n),
        (C.AtNCalls(d, n, **kw), v == n),
        (C.AfterCall(d, n, **kw), v > n),
        (C.AfterNCalls(d, n, **kw), v >= n),
        (C.AfterNCallsCombined(*(ds or [d]), n=n, **kw), sum(cnt[t][x] for x in (ds or [d])) >= n),
        (C.AllHaveRun(*ds, **kw), all(cnt[t][x] >= 1 for x in over(ds))),
        (C.JustRan(d), d in sets[-1]),
        (C.WhenFinished(d), fin(d)),
        (C.WhenFinishedAny(*ds), any(fin(x) for x in over(ds))),
        (C.WhenFinishedAll(*ds), all(fin(x) for x in over(ds))),
    ]:
        c.owner = rng.choice([x for x in nodes])
        try:
            r = c.is_satisfied(scheduler=s, execution_id=e)
        except Exception as x:
            rep('C12', f'{c} raised {type(x).__name__}: {x}')
            continue
        if bool(r) != want:
            rep('C12', f'{c} with {kw} is {r} in context {e!r}: counts {cnt[t]}, last set {sets[-1]}, finished {[x for x in nodes if fin(x)]}')


@suite('counted', ['C12'])
def counted_case(rng, rep):
    s = Scheduler({'A': set(), 'B': {'A'}})
    for d in 'AB':
        r = C.JustRan(d)
        try:
            if r.is_satisfied(scheduler=s, execution_id=None):
                rep('C12', f'JustRan({d}) is satisfied before anything ran')
        except Exception as e:
            rep('C12', f'JustRan({d}) raised {type(e).__name__} before anything ran')
    counted(rng, rep)


# ------------------------------------------------------------------------------------------------ C13
class Tree:
    """A random composite condition, what its leaves say and what they were asked with."""

    def __init__(self, rng, rep):
        self.rng, self.rep, self.calls, self.value, self.leaves, self.nwhens = rng, rep, [], {}, [], []
        self.root = self.make(3)

    def leaf(self):
        k = len(self.leaves)
        if self.rng.random() < .5:
            def f(scheduler, execution_id, foo=None, self_=None):
                self.calls.append((k, scheduler, execution_id, foo))
                return self.value[execution_id][k]
        else:
            def f(**kw):
                self.calls.append((k, kw.get('scheduler'), kw.get('execution_id'), kw.get('foo')))
                return self.value[kw.get('execution_id')][k]
        c = C.Condition(f)
        self.leaves.append(c)
        return ('leaf', c, k)

    def make(self, depth):
        r = self.rng.random()
        if depth == 0 or r < .2:
            return self.leaf()
        if r < .65:
            kids = [self.make(depth - 1) for _ in range(self.rng.randrange(0, 4))]
            cls = self.rng.choice([C.All, C.Any, C.And, C.Or])
            kw = {}
            if kids and self.rng.random() < .2:
                kw = {'dependencies': [kids[-1][1]]}
            return ('all' if cls is C.All else 'any', cls(*[x[1] for x in (kids[:-1] if kw else kids)], **kw), kids)
        kid = self.make(depth - 1)
        if r < .85:
            return ('not', C.Not(kid[1]), kid)
        n = self.rng.choice([0, 1, 1, 2, 3])
        c = C.NWhen(kid[1]) if n == 1 and self.rng.random() < .5 else C.NWhen(kid[1], n)
        count = {}
        real = c.is_satisfied

        def watched(*a, **kw):
            res = real(*a, **kw)
            e = kw.get('execution_id')
            if res:
                count[e] = count.get(e, 0) + 1
            return res
        c.is_satisfied = watched
        return ('nwhen', c, kid, n, count)

    def want(self, t, e):
        if t[0] == 'leaf':
            return bool(self.value[e][t[2]])
        if t[0] == 'all':
            return all([self.want(x, e) for x in t[2]])
        if t[0] == 'any':
            return any([self.want(x, e) for x in t[2]])
        if t[0] == 'not':
            return not self.want(t[2], e)
        return t[4].get(e, 0) < t[3] and self.want(t[2], e)

    def owners(self, t, expect):
        """Expected owners by condition, in order of the tree; `expect` is what is given from above."""
        c = t[1]
        if t[0] in ('all', 'any'):
            for x in t[2]:
                if x[1]._was is None:
                    yield x[1], expect
                    yield from self.owners(x, expect)
                else:
                    yield x[1], x[1]._was
                    yield from self.keep(x)
        elif t[0] in ('not', 'nwhen'):
            yield t[2][1], expect
            yield from self.owners(t[2], expect)

    def keep(self, t):
        for x in (t[2] if t[0] in ('all', 'any') else [t[2]] if t[0] != 'leaf' else []):
            yield x[1], x[1]._was
            yield from self.keep(x)

    def every(self, t=None):
        t = t or self.root
        yield t
        for x in (t[2] if t[0] in ('all', 'any') else [t[2]] if t[0] != 'leaf' else []):
            yield from self.every(x)


def show(t):
    if t[0] == 'leaf':
        return f'leaf{t[2]}'
    if t[0] in ('all', 'any'):
        return f'{t[0]}({", ".join(map(show, t[2]))})'
    return f'{t[0]}({show(t[2])}{"" if t[0] == "not" else f", n={t[3]}"})'


@suite('composites', ['C13'])
def composites(rng, rep):
    T = Tree(rng, rep)
    root = T.root
    rep.note(show(root))
    # owners
    for t in T.every():
        if rng.random() < .25:
            t[1]._owner = rng.choice(['X', 'Y'])
        t[1]._was = t[1].owner
    want = list(T.owners(root, 'OWNER'))
    root[1].owner = 'OWNER'
    if root[1].owner != 'OWNER':
        rep('C13', f'the owner of {show(root)} is {root[1].owner!r} after it was set')
    for c, o in want:
        if c.owner != o:
            rep('C13', f'{show(root)}: a component has owner {c.owner!r} instead of {o!r}')
    sched = object()
    for k in range(12):
        e = rng.choice([None, 'a', 'b'])
        T.value[e] = [rng.choice([True, True, 3, 'x', [1]]) if rng.random() < .6 else rng.choice([False, False, 0, '', None, []])
                      for _ in T.leaves]
        kw = {'foo': object()} if rng.random() < .5 else {}
        w = T.want(root, e)
        T.calls.clear()
        rep.note('evaluate in', repr(e), 'leaves', T.value[e])
        try:
            r = root[1].is_satisfied(scheduler=sched, execution_id=e, **kw)
        except Exception as x:
            rep('C13', f'{show(root)} raised {type(x).__name__}: {x}')
            return
        if bool(r) != w:
            rep('C13', f'{show(root)} is {r} in context {e!r} with leaves {T.value[e]} (evaluation {k})')
            return
        for j, s, ee, f in T.calls:
            if s is not sched or ee != e or f is not kw.get('foo'):
                rep('C13', f'{show(root)}: leaf {j} was evaluated with scheduler {s is sched}, context {ee!r} (of {e!r}), foo {f!r}')


# ------------------------------------------------------------------------------------------------ C14
class Unhashable:
    __hash__ = None

    def __init__(self, f):
        self.f = f
        self.__signature__ = inspect.signature(f)

    def __eq__(self, o):
        return self is o

    def __call__(self, *a, **k):
        return self.f(*a, **k)


class Slots:
    __slots__ = ('f', '__signature__')

    def __init__(self, f):
        self.f = f
        self.__signature__ = inspect.signature(f)

    def __call__(self, *a, **k):
        return self.f(*a, **k)


NAMES = ['a', 'b', 'c', 'd', 'scheduler', 'foo', 'execution_id']


def rsignature(rng):
    names = NAMES[:]
    rng.shuffle(names)
    names = names[:rng.randrange(0, 6)]
    po, pk, ko = [], [], []
    for x in names:
        k = rng.randrange(4)
        if x in ('scheduler', 'execution_id', 'foo'):
            k = rng.choice([1, 2, 2, 3])
        (po if k == 0 else pk if k < 3 else ko).append(x)
    have_default = False
    parts = []
    for x in po + pk:
        if have_default or rng.random() < .3 or x in ('scheduler', 'execution_id', 'foo'):
            have_default = True
            parts.append(f'{x}=DEFAULT')
        else:
            parts.append(x)
        if po and x == po[-1]:
            parts.append('/')
    star = rng.random() < .3
    if star:
        parts.append('*rest')
    elif ko:
        parts.append('*')
    for x in ko:
        parts.append(f'{x}=DEFAULT' if rng.random() < .5 or x not in ('a', 'b', 'c', 'd') else x)
    if rng.random() < .3:
        parts.append('**more')
    return ', '.join(parts)


def rfunction(rng, calls):
    """A random callable that records how it was called, and its signature."""
    src = rsignature(rng)
    kind = rng.choice(['plain', 'plain', 'unhashable', 'slots', 'method', 'codetwin'])
    default = object()
    ns = {'DEFAULT': default, 'calls': calls}
    head = 'self, ' if kind == 'method' and not src.startswith('*') else ''
    if kind == 'method' and src.startswith('*'):
        kind = 'plain'
    exec(f'def f({head}{src}):\n    loc = dict(locals())\n    loc.pop("self", None)\n    calls.append(loc)\n    return RESULT', ns)
    f = ns['f']
    ns['RESULT'] = object()
    if kind == 'method':
        holder = type('Holder', (), {'f': f})()
        return holder.f, src, kind, ns
    if kind == 'codetwin' and '/' not in src:
        # the same code with all, or none, of its defaults
        npos = f.__code__.co_argcount
        f.__defaults__ = tuple([default] * rng.randrange(0, npos + 1)) or None
        return f, str(inspect.signature(f)), kind, ns
    if kind == 'unhashable':
        return Unhashable(f), src, kind, ns
    if kind == 'slots':
        return Slots(f), src, kind, ns
    return f, src, kind, ns


def expected_call(f, args, kwargs):
    ps = inspect.signature(f).parameters.values()
    P = inspect.Parameter
    req = sum(p.kind in (P.POSITIONAL_ONLY, P.POSITIONAL_OR_KEYWORD) and p.default is P.empty for p in ps)
    if not any(p.kind is P.VAR_POSITIONAL for p in ps):
        args = args[:req]
    if not any(p.kind is P.VAR_KEYWORD for p in ps):
        ok = {p.name for p in ps if p.kind in (P.POSITIONAL_OR_KEYWORD, P.KEYWORD_ONLY)}
        kwargs = {k: v for k, v in kwargs.items() if k in ok}
    try:
        b = inspect.signature(f).bind(*args, **kwargs)
    except TypeError:
        return None
    b.apply_defaults()
    return dict(b.arguments)


@suite('calls', ['C14'])
def calls_case(rng, rep):
    made = []
    for _ in range(rng.randrange(1, 5)):
        calls = []
        f, src, kind, ns = rfunction(rng, calls)
        if made and rng.random() < .3 and isinstance(made[-1][0], types.FunctionType):
            # another function object with the code of the previous one
            g, ns = made[-1][0], dict(made[-1][5])
            calls = []
            ns.update(calls=calls, RESULT=object())
            npos = g.__code__.co_argcount
            f = types.FunctionType(g.__code__, ns, 'twin', tuple([ns['DEFAULT']] * rng.randrange(0, npos + 1)) or None)
            f.__kwdefaults__ = g.__kwdefaults__
            src, kind = str(inspect.signature(f)), 'twin'
        sargs = [object() for _ in range(rng.randrange(0, 4))]
        skw = {k: [object()] for k in ('a', 'b', 'foo', 'c', 'zzz') if rng.random() < .25}
        c = C.Condition(f, *sargs, **skw)
        made.append((f, src, kind, calls, (c, sargs, skw), ns))
    for _ in range(10):
        f, src, kind, calls, (c, sargs, skw), ns = rng.choice(made)
        eargs = [object() for _ in range(rng.choice([0, 0, 1, 2, 3]))]
        ekw = {k: object() for k in ('a', 'b', 'foo', 'd', 'other') if rng.random() < .25}
        sched, eid = object(), rng.choice([None, 'e', ('x', 1)])
        if rng.random() < .8:
            ekw['scheduler'] = sched
        want = expected_call(f, sargs + eargs, {**skw, **ekw, 'execution_id': eid})
        if want is None:
            continue
        stored = list(c.args), dict(c.kwargs)
        calls.clear()
        try:
            r = c.is_satisfied(*eargs, execution_id=eid, **ekw)
        except Exception as e:
            rep('C14', f'a {kind} function ({src}) with stored {len(sargs)} positional and {sorted(skw)}, evaluated with {len(eargs)} and {sorted(ekw)}, raised {type(e).__name__}: {e}')
            continue
        what = f'a {kind} function ({src}) with stored {len(sargs)} positional and {sorted(skw)}, evaluated with {len(eargs)} and {sorted(ekw)}'
        if len(calls) != 1:
            rep('C14', f'{what} was called {len(calls)} times')
        elif set(calls[0]) != set(want) or any(not same(calls[0][k], want[k]) for k in want):
            bad = [k for k in want if k not in calls[0] or not same(calls[0][k], want[k])]
            rep('C14', f'{what} received other values for {bad or set(calls[0]) - set(want)}')
        if r is not ns['RESULT']:
            rep('C14', f'{what} did not give the result of the function')
        if (list(c.args), dict(c.kwargs)) != stored or list(c.args) != sargs or dict(c.kwargs) != skw:
            rep('C14', f'{what} changed the stored arguments')


def same(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(x is y or x == y for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    return a is b or a == b


# ------------------------------------------------------------------------------------------------ C22
def unit_value(u):
    x = float((1 * u).to(UR.s).m)
    k = math.log10(x)
    if abs(k - round(k)) < 1e-9:
        return Fraction(10) ** round(k)
    return Fraction(x).limit_denominator(10 ** 12)


def exact(q):
    """Seconds, exactly."""
    m = q.m
    if isinstance(m, Fraction):
        f = m
    elif isinstance(m, (int, np.integer)):
        f = Fraction(int(m))
    else:
        f = Fraction(repr(round(float(m), 9)))
    return f * unit_value(q.u)


US = {'ns': Fraction(1, 10 ** 9), 'us': Fraction(1, 10 ** 6), 'ms': Fraction(1, 1000), 's': Fraction(1), 'minute': Fraction(60), 'hour': Fraction(3600), 'ds': Fraction(1, 10)}


def rtime(rng, units=('us', 'ms', 'ms', 's'), zero=False, small=True):
    """(argument, default unit argument, exact value)"""
    u = rng.choice(units)
    n = rng.choice([0] if zero and rng.random() < .15 else [1, 2, 3, 4, 5, 6, 10, 12, 15])
    if rng.random() < .15:
        n = Fraction(rng.choice([1, 5, 15, 25]), 10)
    return n, u


def spell(rng, n, u, default):
    """Some way of writing n u when the default unit is `default` (None: the library's, ms)."""
    num = int(n) if n == int(n) else float(n)
    ways = [f'{num}{u}', f'{num} {u}', num * getattr(UR, u)]
    if u == (default or 'ms'):
        ways += [num, num, str(num)]
    return rng.choice(ways)


class FakeSched:
    def __init__(self, time, interval, queue, exact):
        self.clock = types.SimpleNamespace(time=types.SimpleNamespace(absolute=time, absolute_interval=interval))
        self.consideration_queue, self._in_exact_time_mode = queue, exact

    def get_clock(self, e):
        return self.clock


def rinterval(rng, units, dflt):
    """(condition, repeat, start, end, start_inclusive, end_inclusive) or None if it must be refused."""
    while True:
        vals = [rtime(rng, units) if rng.random() < p else None for p in (.7, .5, .35)]
        if vals[0] and vals[0][0] == 0:
            continue
        if any(vals):
            break
    if vals[1] and rng.random() < .2:
        vals[1] = (0, vals[1][1])
    ex = [v and v[0] * US[v[1]] for v in vals]
    if ex[1] is not None and ex[2] is not None and ex[1] > ex[2]:
        vals[1], vals[2], ex[1], ex[2] = vals[2], vals[1], ex[2], ex[1]
    kw = {k: spell(rng, *v, dflt) for k, v in zip(('repeat', 'start', 'end'), vals) if v}
    si, ei = rng.random() < .7, rng.random() < .7
    if not si or rng.random() < .3:
        kw['start_inclusive'] = si
    if not ei or rng.random() < .3:
        kw['end_inclusive'] = ei
    if dflt:
        kw['unit'] = rng.choice([dflt, getattr(UR, dflt)])
    return C.TimeInterval(**kw), ex[0], ex[1], ex[2], si, ei, kw


def satisfied(iv, now, ref):
    c, rpt, st, en, si, ei, kw = iv
    if st is not None and (now < st or (now == st and not si)):
        return False
    if en is not None and (now > en or (now == en and not ei)):
        return False
    return rpt is None or ((now - ref) / rpt).denominator == 1


@suite('absolute_values', ['C22'])
def absolute_values(rng, rep):
    """Ways of writing a time, and satisfaction at given instants."""
    units = rng.choice([('ms',), ('us', 'ms', 's'), ('ns', 'us', 'ms', 's'), ('ms', 's', 'ds'), ('s', 'minute', 'hour')])
    n, u = rtime(rng, units)
    for d in (None, 's', 'us'):
        want = n * US[u]
        for _ in range(4):
            arg = spell(rng, n, u, d)
            kw = {'unit': d} if d else {}
            t = C.TimeTermination(arg, **kw)
            if abs(exact(t.t) - want) > want * Fraction(1, 10 ** 8):
                rep('C22', f'TimeTermination({arg!r}, {kw}) is stored as {t.t}')
            i = C.TimeInterval(repeat=arg, start=arg, end=arg, **kw)
            for a in 'repeat', 'start', 'end':
                if abs(exact(getattr(i, a)) - want) > want * Fraction(1, 10 ** 8):
                    rep('C22', f'{a}={arg!r} ({kw}) is stored as {getattr(i, a)}')
    dec = [x for x in units if x not in ('minute', 'hour')]
    iv = rinterval(rng, dec, rng.choice([None, None, 'us', 's']))
    c, rpt, st, en, si, ei, kw = iv
    layers = rng.randrange(1, 4)
    queue = [{f'x{k}', f'y{k}'} for k in range(layers)]
    owner = rng.choice([None, 'x0', f'y{layers - 1}', 'nowhere'])
    if owner:
        c.owner = owner
    ex = rng.random() < .5 or layers == 1
    unit = rng.choice(dec)
    # instants at and around every boundary, in the step's unit
    marks = [x for x in (rpt, st, en) if x is not None]
    step = min(x for x in marks if x) if any(marks) else US[unit]
    step = step / rng.choice([1, 1, 2, 5])
    for _ in range(6):
        now = rng.choice(marks + [Fraction(0)]) + step * rng.choice([-1, 0, 0, 0, 1, 2, 5])
        if rpt is not None and rng.random() < .5:
            now += rpt * rng.randrange(0, 4)
        if now < 0:
            continue
        q = lambda x: (int(x / US[unit]) if (x / US[unit]).denominator == 1 else x / US[unit]) * getattr(UR, unit)
        pos = next((k for k, l in enumerate(queue) if owner in l), 0)
        single = ex or layers == 1
        ref = st if single and st is not None else pos * step
        if (now / US[unit]).denominator > 10 ** 6 or (step / US[unit]).denominator > 10 ** 6:
            continue
        s = FakeSched(q(now), q(step), queue, single)
        try:
            got = bool(c.func(scheduler=s, execution_id=None)) if rng.random() < .3 else bool(c.is_satisfied(scheduler=s, execution_id=None))
        except Exception as e:
            rep('C22', f'TimeInterval({kw}) of {owner!r} raised {type(e).__name__}: {e} at {q(now)}')
            continue
        w = satisfied(iv, now, ref)
        if got != w:
            rep('C22', f'TimeInterval({kw}) of {owner!r} in {queue} ({"exact" if single else "standard"}, step {q(step)}) is {got} at {q(now)}')
    t = C.TimeTermination(spell(rng, n, u, None), *([] if rng.random() < .5 else [rng.random() < .5]))
    inc = t.kwargs['inclusive']
    for d in (-1, 0, 1):
        now = n * US[u] + d * US[u] / 2
        if now >= 0 and u not in ('minute', 'hour'):
            x = now / US[u]
            s = FakeSched((int(x) if x.denominator == 1 else x) * getattr(UR, u), 1 * UR.ms, queue, ex)
            if bool(t.is_satisfied(scheduler=s, execution_id=None)) != (now >= n * US[u] if inc else now > n * US[u]):
                rep('C22', f'TimeTermination({t.t}, inclusive={inc}) is wrong at {s.clock.time.absolute}')


@suite('absolute_runs', ['C22'])
def absolute_runs(rng, rep):
    """Step, start and hits of real runs."""
    nodes = list('ABCD'[:rng.randrange(1, 5)])
    graph = {b: {a for a in nodes[:i] if rng.random() < rng.choice([0, .4, 1])} for i, b in enumerate(nodes)}
    mode = rng.choice([SchedulingMode.STANDARD, SchedulingMode.EXACT_TIME, SchedulingMode.EXACT_TIME])
    s = Scheduler(graph, mode=mode)
    units = rng.choice([('ms',), ('us', 'ms'), ('ms', 's'), ('ms',)])
    conds = {}

    def wrapped():
        iv = rinterval(rng, units, None)
        c = iv[0]
        k = rng.random()
        if k < .25:
            c = rng.choice([C.All, C.Any])(*rng.sample([iv[0], C.Always()], 2))
        return c, [iv]
    for x in nodes:
        if rng.random() < .8:
            c, ivs = wrapped()
            if rng.random() < .2:
                c2, iv2 = wrapped()
                c, ivs = rng.choice([C.All, C.Any])(c, c2), ivs + iv2
            s.add_condition(x, c)
            conds[x] = c, ivs
            rep.note('condition of', x, [i[-1] for i in ivs], type(c).__name__)
        else:
            s.add_condition(x, C.Always())
    rep.note('graph', graph, mode)
    clock = s.get_clock(None)
    exact_mode = mode is SchedulingMode.EXACT_TIME
    for run in range(rng.randrange(1, 3)):
        term = {ESU: C.AfterNPasses(rng.randrange(1, 8))}
        tt = None
        if rng.random() < .6 or not conds:
            n, u = rtime(rng, units)
            inc = rng.random() < .7
            tt = (n * US[u], inc)
            tc = C.TimeTermination(spell(rng, n, u, None), inc)
            term = {ESU: C.Any(tc, C.AfterNPasses(50)) if rng.random() < .5 else tc}
        rep.note('run', {k.name: str(v) for k, v in term.items()}, tt)
        ivs = [i for c, l in conds.values() for i in l]
        before = exact(clock.time.absolute) if run else Fraction(0)
        times = []
        seen = {x: [] for x in nodes}
        gen = s.run(termination_conds=term)
        k = 0
        step = None
        for got in gen:
            now = exact(clock.time.absolute)
            if step is None:
                step = exact(clock.time.absolute_interval)
                check_step(rep, s, ivs, tt, step, now, before, exact_mode)
                if step <= 0:
                    return
            times.append((now, set(got)))
            k += 1
            if k > 60:
                break
        gen.close()
        if step is None or k > 60:
            return
        # satisfaction during the run, for nodes with one interval
        queue = s.consideration_queue
        single = exact_mode or len(queue) == 1
        for j, (now, got) in enumerate(times):
            layer = queue[j % len(queue)]
            for x in layer:
                if x in conds and type(conds[x][0]) is C.TimeInterval:
                    iv = conds[x][1][0]
                    pos = next(i for i, l in enumerate(queue) if x in l)
                    ref = iv[2] if single and iv[2] is not None else pos * step
                    if (x in got) != satisfied(iv, now, ref):
                        rep('C22', f'{x} with TimeInterval({iv[-1]}) {"is" if x in got else "is not"} in the set at {now}s (step {step}s, {mode}, queue {queue})')
        if exact_mode and times:
            visited = {t for t, g in times}
            need = [x for i in ivs for x in needed(i)]
            for x in need:
                if times[0][0] <= x <= times[-1][0] and x not in visited:
                    rep('C22', f'an exact time run from {times[0][0]}s to {times[-1][0]}s with step {step}s skips {x}s')


def needed(iv):
    c, rpt, st, en, si, ei, kw = iv
    if st is not None and (si or rpt is not None):
        yield st
    if en is not None and ei:
        yield en


def divides(step, x):
    return (x / step).denominator == 1


def check_step(rep, s, ivs, tt, step, now, before, exact_mode):
    if step <= 0:
        rep('C22', f'the step is {step}s')
        return
    layers = 1 if exact_mode else len(s.consideration_queue)
    for i in ivs:
        if i[1] is not None and not divides(step * layers, i[1]):
            rep('C22', f'passes of {layers} steps of {step}s do not divide the repeat interval {i[1]}s')
        if exact_mode:
            for x in needed(i):
                if not divides(step, x):
                    rep('C22', f'the step {step}s does not divide {x}s of TimeInterval({i[-1]})')
    if exact_mode and tt and tt[1] and not divides(step, tt[0]):
        rep('C22', f'the step {step}s does not divide the termination time {tt[0]}s')
    if now < before:
        rep('C22', f'the run starts at {now}s, the clock was at {before}s')
    if exact_mode:
        if not divides(step, now):
            rep('C22', f'an exact time run starts at {now}s with a step of {step}s')
        # the first instant anything needs
        first = []
        for i in ivs:
            first.append(i[2] if i[2] is not None and i[4] else Fraction(0))
        if tt:
            first.append(tt[0] if tt[1] else Fraction(0))
        grid = -(-before // step) * step
        if first and now > max(min(first), grid):
            rep('C22', f'an exact time run starts at {now}s, after {min(first)}s (clock {before}s, step {step}s)')


# ------------------------------------------------------------------------------------------------ C23
class Thing:
    pass


@suite('threshold', ['C23'])
def threshold(rng, rep):
    values = [0, 1, 1.0, -1, 2, .5, 1.05, 1.1, 1.15, 0.95, 100, 105, 95, -100, -105, 1e-9, float(rng.randrange(-20, 20)) / 4]
    for _ in range(6):
        thr = rng.choice(values)
        op = rng.choice(list(C.comparison_operators))
        tol = {}
        if rng.random() < .6:
            tol['atol'] = rng.choice([0, .1, .5, 10])
        if rng.random() < .6:
            tol['rtol'] = rng.choice([0, .1, .5, 1])
        dep = Thing()
        how = rng.choice(['attr', 'attr', 'getter', 'getter_id'])
        idx = rng.choice([None, None, 0, 1, [1], [1, 0], ('k',), [0, 'k', 1], TimeScale.PASS])
        kw = dict(tol)
        if idx is not None:
            kw['indices'] = idx
        store = {}
        if how == 'attr':
            dep.p = 0.
        elif how == 'getter':
            kw.update(custom_parameter_getter=lambda d, p: store[id(d), p], custom_parameter_validator=lambda d, p: None)
        else:
            kw.update(custom_parameter_getter=lambda d, p, execution_id=None: store[id(d), p, execution_id], custom_parameter_validator=lambda d, p: None)
        try:
            c = C.Threshold(dep, 'p', thr, op, **kw)
        except Exception as e:
            rep('C23', f'Threshold({thr}, {op!r}, {kw}) was refused: {type(e).__name__}: {e}')
            continue
        for _ in range(6):
            v = rng.choice(values + [thr, thr + .05, thr * 1.05, thr - .5, thr * 1.5])
            eid = rng.choice([None, 'x'])
            path = idx
            if isinstance(path, TimeScale):
                path = [path.value]
            elif path is not None and not isinstance(path, (list, tuple)):
                path = [path]
            box = v if rng.random() < .7 or path is not None else np.array(v)
            for i in reversed(path or []):
                wrong = object()
                box = {i: box} if isinstance(i, str) else [wrong] * i + [box, wrong]
            if how == 'attr':
                dep.p = box
            elif how == 'getter':
                store[id(dep), 'p'] = box
            else:
                store[id(dep), 'p', eid] = box
                store[id(dep), 'p', 'x' if eid is None else None] = object()
            try:
                r = bool(c.is_satisfied(scheduler=None, execution_id=eid))
            except Exception as e:
                rep('C23', f'Threshold({thr}, {op!r}, {kw}) raised {type(e).__name__}: {e} with value {box!r}')
                break
            margin = tol.get('atol', 0) + tol.get('rtol', 0) * abs(thr)
            dist = abs(v - thr)
            if abs(dist - margin) < 1e-9 and (margin or dist) and op in ('==', '!='):
                continue    # at the tolerance, up to rounding
            w = {'<': v < thr, '<=': v <= thr, '>': v > thr, '>=': v >= thr, '==': dist <= margin, '!=': dist > margin}[op]
            if r != w:
                rep('C23', f'{v} {op} {thr} with {tol or "no tolerance"} is {r}')
    for bad in ('=', '<>', '=>', '', 'is', None):
        dep = Thing()
        dep.p = 1
        try:
            C.Threshold(dep, 'p', 1, bad)
            rep('C23', f'comparator {bad!r} was accepted')
        except C.ConditionError:
            pass
        except Exception as e:
            rep('C23', f'comparator {bad!r}: {type(e).__name__} instead of ConditionError')
    try:
        C.Threshold(Thing(), 'q', 1, '<')
        rep('C23', 'a missing parameter was accepted')
    except C.ConditionError:
        pass


# ------------------------------------------------------------------------------------------------ C24
@suite('terminations', ['C24'])
def terminations(rng, rep):
    names = {}
    asked = []

    def cond(name, at):
        box = itertools.count()

        def f(scheduler, execution_id):
            asked.append(name)
            return next(box) >= at
        c = C.Condition(f)
        names[id(c)] = name
        return c

    def rdict(kind, n):
        d, exp = {}, {}
        for ts in (ESU, ES):
            if rng.random() < .5:
                c = cond(f'{kind}{n}.{ts.name}', rng.choice([0, 1, 3, 6]))
                d[ts if rng.random() < .5 else rng.choice([ts.name, ts.name.lower(), ts.name.title()])] = c
                exp[ts] = c
        if rng.random() < .1:
            c = cond(f'{kind}{n}.PASS', 0)
            d['pass' if rng.random() < .5 else PASS] = c
            exp[PASS] = c
        return d, exp

    def same_conds(got, want):
        return set(got) == set(want) and all(got[k] is want[k] for k in want)
    graph = {'A': set(), 'B': {'A'}}
    given, exp = rdict('init', 0)
    keep = dict(given)
    use = rng.random() < .6
    s = Scheduler(graph, termination_conds=given) if use else Scheduler(graph)
    if given != keep:
        rep('C24', f'the constructor changed {keep} into {given}')
    base = dict(s.termination_conds)
    cur = dict(base)
    if use:
        for k, v in exp.items():
            if cur.get(k) is not v:
                rep('C24', f'the constructor was given {names[id(v)]} for {k.name}, the scheduler has {cur.get(k)}')
    for k, t in ((ESU, C.AllHaveRun), (ES, C.Never)):
        if (not use or k not in exp) and not type(cur.get(k)) is t:
            rep('C24', f'the default for {k.name} is {cur.get(k)}')
    if set(cur) != {ESU, ES} | set(exp if use else ()):
        rep('C24', f'the scheduler has termination conditions {cur}')
    s.add_condition('A', C.Always())
    s.add_condition('B', C.Always())
    for n in range(rng.randrange(2, 8)):
        k = rng.random()
        if k < .3:
            d, e = rdict('set', n)
            before = dict(d)
            rep.note('assign', {str(a): names[id(b)] for a, b in d.items()})
            s.termination_conds = d
            if d != before:
                rep('C24', f'assignment changed {before} into {d}')
            cur.update(e)
        elif k < .38:
            s.termination_conds = None
            cur = dict(base)
        elif k < .55:
            bad = rng.choice([{ESU: C.AddEdgeTo('B')}, {ESU: 5}, {'nope': C.Always()}, {3: C.Always()}, {ES: C.Never(), ESU: 'x'}, {ESU: None},
                              {'environment_state_update': 3}, [C.Always()], 5])
            where = rng.choice(['set', 'run', 'init'])
            try:
                if where == 'set':
                    s.termination_conds = bad
                elif where == 'run':
                    next(s.run(termination_conds=bad))
                elif isinstance(bad, dict):
                    Scheduler(graph, termination_conds=bad)
                else:
                    continue
                rep('C24', f'{bad} was accepted ({where})')
            except StopIteration:
                rep('C24', f'{bad} was accepted ({where})')
            except Exception:
                pass
        else:
            d, e = rdict('run', n)
            before = dict(d)
            eff = {**cur, **e}
            rep.note('run', {str(a): names[id(b)] for a, b in d.items()})
            asked.clear()
            given = d if d or rng.random() < .5 else None
            gen = s.run(termination_conds=given)
            for i, _ in enumerate(gen):
                if not same_conds(s.termination_conds, cur):
                    rep('C24', f'during a run with {before} the scheduler has {s.termination_conds} instead of {cur}')
                if i > 30:
                    break
            gen.close()
            if d != before:
                rep('C24', f'a run changed {before} into {d}')
            wrong = {a for a in asked if a not in {names.get(id(eff[t])) for t in (ESU, ES)}}
            if wrong:
                rep('C24', f'a run with {before} evaluated {wrong}')
            if id(eff[ESU]) in names and names[id(eff[ESU])] not in asked:
                rep('C24', f'a run with {before} never evaluated {names[id(eff[ESU])]}')
        if not same_conds(s.termination_conds, cur):
            rep('C24', f'the scheduler has {s.termination_conds} instead of {cur}')
            cur = dict(s.termination_conds)
