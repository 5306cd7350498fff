"""Absolute-time conditions and the absolute step size."""
from .conds import *

LEVEL = 'proof'
LIMIT = 300
NOTE = 'Proved for all times, repeats, queues, modes and owners: satisfaction of TimeInterval (all argument combinations) and TimeTermination; the points and intervals they and composite conditions report; the collection of absolute conditions; the step (positive, divides every repeat per pass and every fixed point in exact-time mode; loop invariants inferred); the time at which a run starts; parsing of numbers, texts and quantities and their reduction to whole numbers of decimal units. Assumed: pint quantities are exact magnitude-and-unit pairs, log10 exact at powers of ten, numpy gcd, every given time is a whole number of some decimal time unit.'

STEP = 'scheduler.Scheduler._get_absolute_consideration_set_execution_unit'


# ------------------------------------------------------------------ satisfaction
class InUnit(V):
    """A quantity kept in a unit (a name; others are in the unit of the clock), with floating point error unless exact."""
    __slots__ = ('u', 'exact')

    def __init__(self, t, u, exact=True):
        super().__init__(t, QCLS)
        self.u, self.exact = u, exact


class FloatingUnits:
    """pint converts and compares quantities in different units with floating point error: nothing is known about a comparison of
    equal times in different units, nor about a remainder of them.  In one unit arithmetic is exact (integers and fractions)."""

    def __init__(self, E):
        H = E.hooks
        E.assumptions.add('quantities in one unit are exact (whole numbers and fractions); those in different units are compared by pint with an error that matters only for equal times')
        self.consts = {}
        old = H['binop'], H['ref_attr'], H['round']
        isq = lambda v: isinstance(v, V) and v.cls is QCLS
        unit = lambda v: getattr(v, 'u', 'clock')
        exact = lambda v: getattr(v, 'exact', True)

        def binop(E, op, a, b):
            r = old[0](E, op, a, b)
            if isq(r):
                x = [v for v in (a, b) if isq(v)]
                if x:
                    ok = all(map(exact, x)) and len({unit(v) for v in x}) == 1
                    return InUnit(r.t if ok or op != 'Mod' else E.fresh(R, 'inexact remainder'), unit(x[0]), ok)
            return r

        def ref_attr(E, v, name):
            if isq(v) and name in ('u', 'units'):
                c = self.consts.setdefault(unit(v), E.fresh(R, f'unit of {unit(v)}'))
                return V(c, UCLS)
            r = old[1](E, v, name)
            if isq(v) and name == 'to':
                def to(a, k):
                    u = self.name_of(a[0])
                    return InUnit(v.t, u, exact(v) and u == unit(v))
                return Builtin('Quantity.to', to)
            return r

        def rnd(E, a):
            r = old[2](E, a)
            return InUnit(r.t, unit(a[0]), exact(a[0])) if isq(a[0]) and isq(r) else r

        def convert(E, f, a, k):
            a = dict(zip(f.params() if hasattr(f, 'params') else ('q', 'unit'), a), **k)
            x, u = list(a.values())
            return InUnit(x.t, self.name_of(u), exact(x))

        def cmp(E, op, a, b):
            if not (isq(a) or isq(b)):
                return None
            zero = lambda v: isinstance(v, int) and not isinstance(v, bool) and v == 0
            x = [v for v in (a, b) if isq(v)]
            if all(map(exact, x)) and (len({unit(v) for v in x}) == 1):
                return None
            s, t = E.to_term(a, R), E.to_term(b, R)
            r = E.fresh(B, 'inexact comparison')
            f = {'==': s == t, '!=': s != t, '<': s < t, '<=': s <= t, '>': s > t, '>=': s >= t}[op]
            E.assume(z3.Implies(s != t, r == f))
            return V(r)
        H['binop'], H['ref_attr'], H['round'], H['num_cmp'] = binop, ref_attr, rnd, cmp
        E.contracts['condition._convert_exactly'] = convert

    def name_of(self, u):
        for n, c in self.consts.items():
            if isinstance(u, V) and u.t.eq(c):
                return n
        raise Unsupported('conversion to an unknown unit')


class Timed(World):
    """A scheduler with any consideration queue, in either mode, at any absolute time."""

    def __init__(self, E):
        super().__init__(E)
        s, N = self.s, self.N
        lq = self.lq = E.fresh(I, 'len_queue')
        lay = self.lay = z3.Function('layer', Val, I)
        E.assume(lq >= 0)
        E.assume(forall([Val], lambda n: z3.Implies(N(n), z3.And(0 <= lay(n), lay(n) < lq))))
        Q = E.new_root(TList(TSet(Val)), 'consideration_queue', leaves={('len',): lambda: lq, ('e', 'mem'): lambda i, n: z3.And(N(n), lay(n) == i)})
        D = E.new_root(TDict(Val, TS(I)), 'consideration_queue_indices', leaves={('dom',): lambda n: N(n), ('v',): lambda n: lay(n)})
        Q.frozen = D.frozen = True
        E.contracts['scheduler.Scheduler.consideration_queue'] = lambda E, f, a, k: E.view(Q)
        E.contracts['scheduler.Scheduler.consideration_queue_indices'] = lambda E, f, a, k: E.view(D)
        E.contracts['condition._parse_absolute_unit'] = self.parse
        self.modes = E.cls('scheduler.SchedulingMode').members
        s.attrs['mode'] = self.mode = E.pick(list(self.modes.values()))
        self.meaning = z3.Function('meaning', Val, Val, R)
        E.inv_pool[:] = [self.pool]
        self.owner = None
        FloatingUnits(E)

    def parse(self, E, f, a, k):
        k = dict(zip(('n', 'unit'), a), **k)
        n = k['n']
        if n is None:
            return None
        if isinstance(n, V) and n.cls is QCLS:
            return n
        return InUnit(self.meaning(E.to_term(n, Val), E.to_term(k.get('unit'), Val)), 'argument ' + str(n.t if isinstance(n, V) else n))

    def pool(self, E, L):
        if L.i is None or self.owner is None:
            return []
        return [(f'{n} is the time of the owner\'s consideration set', v.t == z3.If(z3.And(self.N(self.owner), self.lay(self.owner) < L.i), z3.ToReal(self.lay(self.owner)) * self.absi(self.eid), z3.RealVal(0)))
                for n, v in L.locals() if isinstance(v, V) and v.t.sort() == R]

    def exact(self):
        return z3.Or(z3.BoolVal(self.mode is self.modes['EXACT_TIME']), self.lq == 1)


def args_of(E, T, names):
    """Raw arguments and the times they mean."""
    unit = E.fresh(Val, 'unit')
    raw, val = {}, {}
    for n in names:
        x = E.fresh(Val, n)
        E.assume(x != E.to_term(None, Val))
        raw[n] = V(x)
        val[n] = T.meaning(x, unit)
    return raw, val, V(unit)


def interval(given):
    def f(E):
        E.hooks.clear()
        T = Timed(E)
        raw, val, unit = args_of(E, T, given)
        incl = {n: E.choose(2) == 0 for n in ('start_inclusive', 'end_inclusive')}
        if 'repeat' in val:
            E.assume(val['repeat'] > 0)
        E.declare_cover('TimeInterval is constructed')
        try:
            c = E.call(E.cls('condition.TimeInterval'), [], dict(raw, unit=unit, **incl))
        except PyRaise as e:
            E.prove('C22: TimeInterval is refused only if start is later than end', z3.And(val['start'] > val['end'], e.cname == 'ConditionError') if {'start', 'end'} <= set(given) else False)
            return
        E.cover('TimeInterval is constructed')
        T.owner = E.fresh(Val, 'owner')
        E.setattr(c, 'owner', V(T.owner))

        def want():
            now = T.absf(T.eid)
            ref = z3.If(z3.And(T.N(T.owner)), z3.ToReal(T.lay(T.owner)) * T.absi(T.eid), z3.RealVal(0))
            if 'start' in val:
                ref = z3.If(T.exact(), val['start'], ref)
            w = []
            if 'repeat' in val:
                w.append(z3.IsInt((now - ref) / val['repeat']))
            if 'start' in val:
                w.append(now >= val['start'] if incl['start_inclusive'] else now > val['start'])
            if 'end' in val:
                w.append(now <= val['end'] if incl['end_inclusive'] else now < val['end'])
            return z3.And(w)
        T.exactly('C22', 'TimeInterval', c, want)
    return f


def no_arguments(E):
    E.hooks.clear()
    T = Timed(E)
    try:
        E.call(E.cls('condition.TimeInterval'), [], {})
    except PyRaise as e:
        E.prove('C22: TimeInterval without repeat, start and end is a condition error', e.cname == 'ConditionError')
        return
    E.fail('C22: TimeInterval without repeat, start and end is refused')


def termination(E):
    E.hooks.clear()
    T = Timed(E)
    raw, val, unit = args_of(E, T, ['t'])
    incl = E.choose(2) == 0
    c = E.call(E.cls('condition.TimeTermination'), [raw['t']], dict(inclusive=incl, unit=unit))
    T.owner = E.fresh(Val, 'owner')
    E.setattr(c, 'owner', V(T.owner))
    T.exactly('C22', 'TimeTermination', c, lambda: T.absf(T.eid) >= val['t'] if incl else T.absf(T.eid) > val['t'])


from itertools import combinations
COMBOS = [c for n in (1, 2, 3) for c in combinations(('repeat', 'start', 'end'), n)]
TASKS = [('interval_' + '_'.join(c), interval(c)) for c in COMBOS] + [('interval_no_arguments', no_arguments), ('termination', termination)]


def subterms(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() not in seen:
            seen.add(x.get_id())
            yield x
            todo.extend(x.children())


# ------------------------------------------------------------------ quantities with their units
class Units:
    """Quantities as a magnitude in a unit; units as a positive number of milliseconds, possibly a power of ten apart."""

    plain = None        # a quantity that is only a number

    def __init__(self, E):
        self.E = E
        H = E.hooks
        E.assumptions.add('pint quantities of time are a magnitude and a unit; conversion between units, arithmetic and rounding to the registry precision are exact')
        E.assumptions.add('numpy.log10 is exact at powers of ten; numpy.gcd.reduce is the greatest common divisor of integers (nonnegative, 0 only for zeros)')
        self.val, self.mag, self.unit = z3.Function('value', RefS, R), z3.Function('magnitude', RefS, R), z3.Function('unit', RefS, R)
        self.mk = z3.Function('quantity', R, R, RefS)
        self.dec, self.ex = z3.Function('decimal', R, B), z3.Function('exponent', R, I)
        self.p10, self.p10i, self.lg = z3.Function('ten_to', I, R), z3.Function('ten_to_int', I, I), z3.Function('log10', R, R)
        val, mag, unit, mk, dec, ex, p10, p10i, lg = self.val, self.mag, self.unit, self.mk, self.dec, self.ex, self.p10, self.p10i, self.lg
        def ax(sorts, body, *pats, nl=False):
            xs = [z3.Const(f'x{k}', t) for k, t in enumerate(sorts)]
            f = z3.ForAll(xs, body(*xs), patterns=[p(*xs) for p in pats])
            E.assume(f)
            if nl:
                self.nonlinear[f.get_id()] = f
        self.nonlinear = {}
        # whole numbers and rounding down (z3 is weak at to_int)
        fl, whole = self.floor, self.whole = z3.Function('floor', R, I), z3.Function('whole', R, B)
        H['floor'] = fl
        ax([I], lambda n: fl(z3.ToReal(n)) == n, lambda n: z3.ToReal(n))
        ax([R], lambda x: z3.And(z3.ToReal(fl(x)) <= x, x < z3.ToReal(fl(x)) + 1), fl)
        ax([R], lambda x: whole(x) == (x == z3.ToReal(fl(x))), whole)
        ratio = self.ratio = z3.Function('ratio', R, R, R)
        ax([R, R], lambda m, u: z3.Implies(u > 0, z3.And(mag(mk(m, u)) == m, unit(mk(m, u)) == u)), mk)
        ax([RefS], lambda x: unit(x) > 0, unit)
        ax([RefS], lambda x: val(x) == mag(x) * unit(x), val, nl=True)
        ax([I], lambda n: z3.And(p10(n) > 0, z3.Implies(n >= 0, z3.And(p10(n) == z3.ToReal(p10i(n)), p10i(n) >= 1)), z3.Implies(n < 0, p10(n) < 1)), p10, p10i)
        ax([I], lambda n: z3.Implies(n < 0, p10(n) * z3.ToReal(p10i(-n)) == 1), p10, nl=True)
        ax([R, R], lambda f, t: z3.Implies(z3.And(f > 0, t > 0), z3.And(ratio(f, t) > 0, z3.Implies(z3.And(dec(f), dec(t)), dec(ratio(f, t))), z3.Implies(f >= t, ratio(f, t) >= 1))), ratio)
        ax([R, R], lambda f, t: z3.Implies(z3.And(f > 0, t > 0), ratio(f, t) * t == f), ratio, nl=True)
        times = self.times = z3.Function('times', I, I, I)      # the product of integers; an integer without nonlinear reasoning
        ax([I, I], lambda a, b: z3.ToReal(times(a, b)) == z3.ToReal(a) * z3.ToReal(b), times, nl=True)
        ax([R], lambda x: z3.Implies(dec(x), z3.And(x == p10(ex(x)), lg(x) == z3.ToReal(ex(x)))), dec, lg)
        H['binop'], H['ref_attr'], H['isinstance'], H['round'], H['compare'] = self.binop, self.ref_attr, self.isinst, self.round, self.compare
        H['val_eq'] = self.eq
        X = E.B.ext
        X['_unit_registry.precision'] = PRECISION
        X['_unit_registry.Quantity'], X['_unit_registry.Unit'] = QCLS, UCLS
        for n, ms in UNIT_MS.items():
            X['_unit_registry.' + n] = V(z3.RealVal(ms), UCLS)
        E.contracts['time._get_pint_unit'] = lambda E, f, a, k: E.binop('Mult', a[0], X['_unit_registry.' + a[1]])
        H.setdefault('globals', {})['condition._pint_all_time_units'] = lambda E: Opaque('units')
        X['np.log10'] = Builtin('log10', lambda a, k: V(lg(E.to_term(a[0], R))))
        X['np.gcd'] = C.ModVal('np.gcd')
        X['np.gcd.reduce'] = Builtin('gcd', self.gcd)
        E.contracts['np.gcd.reduce'] = lambda E, a, k: self.gcd(a, k)
        X['fractions.Fraction'] = Builtin('Fraction', self.fraction)

    def unit_(self, t):
        if self.plain is not None and t.eq(self.plain):
            return z3.RealVal(-1)
        return t.arg(1) if t.decl().eq(self.mk) else self.unit(t)

    def mag_(self, t):
        return t.arg(0) if t.decl().eq(self.mk) else self.mag(t)

    def isq(self, v):
        return isinstance(v, V) and v.cls is QCLS

    def isu(self, v):
        return isinstance(v, V) and v.cls is UCLS

    def q(self, m, u):
        return V(self.mk(m, u), QCLS)

    def fraction(self, a, k):
        E = self.E
        k = dict(zip(('numerator', 'denominator'), a), **k)
        return V(E.to_term(E.binop('Div', k['numerator'], k.get('denominator', 1)), R))

    def gcd(self, a, k):
        E = self.E
        it = E.iterate(a[0])
        if isinstance(it, list):
            xs = [E.to_term(x, R) for x in it]
            E.prove('C22: the greatest common divisor is that of integers', z3.And([self.whole(x) for x in xs]))
            g = E.fresh(I, 'gcd')
            for x in xs:
                E.assume(x == z3.ToReal(E.fresh(I, 'k')) * z3.ToReal(g))
            E.assume(z3.And(g >= 0, z3.Implies(z3.Or([x != 0 for x in xs]), g > 0)))
            return V(g)
        c = [E.fresh(t, 'element') for t in it.sorts]
        v = E.to_term(it.val(*c), R)
        E.prove('C22: the greatest common divisor is that of integers', z3.Implies(it.mem(*c), self.whole(v)), keep=False)
        g = E.fresh(I, 'gcd')
        kf = E.fresh_fn(it.sorts, I, 'quotient')
        E.assume(forall(it.sorts, lambda *q: z3.Implies(it.mem(*q), E.to_term(it.val(*q), R) == z3.ToReal(kf(*q)) * z3.ToReal(g))))
        E.assume(z3.And(g >= 0, z3.Implies(exists(it.sorts, lambda *q: z3.And(it.mem(*q), E.to_term(it.val(*q), R) != 0)), g > 0)))
        self.convert(it, c, v, kf(*c), z3.ToReal(g))
        return V(g)

    def convert(self, it, c, v, k, g):
        """A proof hint: element c of a sequence is the magnitude v, in another unit, of a quantity X(c); remembered where that is so."""
        self.elements = []
        for r in subterms(v):
            if z3.is_app(r) and r.decl().eq(self.ratio) and z3.is_app(r.arg(0)) and r.arg(0).decl().eq(self.unit):
                X, t = r.arg(0).arg(0), r.arg(1)
                if any(x.eq(y) for x in c for y in subterms(X)) and not any(x.eq(y) for x in c for y in subterms(t)):
                    m = self.mag(X)
                    p = z3.ToReal(self.p10i(self.ex(r)))
                    n, e = self.floor(m), self.p10i(self.ex(r))
                    ok = self.chain([z3.Implies(it.mem(*c), f) for f in (self.val(X) == m * self.unit(X), r * t == self.unit(X), r == p, m == z3.ToReal(n), v == z3.ToReal(self.times(n, e)), z3.ToReal(self.times(n, e)) == z3.ToReal(n) * z3.ToReal(e))],
                                    z3.Implies(it.mem(*c), v * t == self.val(X)))
                    if ok:
                        xs = [self.E.fresh_bound(x.sort()) for x in c]
                        sub = lambda f: z3.substitute(f, *zip(c, xs))
                        self.E.assume(z3.ForAll(xs, sub(z3.Implies(it.mem(*c), z3.And(v * t == self.val(X), v == z3.ToReal(k) * g))), patterns=[sub(X)]))
                        self.elements.append((it, c, v, X, t, k, g))
                    return

    def chain(self, premises, goal):
        """A lemma, from premises that hold and nothing else."""
        s = z3.Solver()
        s.set('timeout', 3000)
        s.add(premises + [z3.Not(goal)])
        if s.check() != z3.unsat:
            return False
        for p in premises:
            E = self.E
            linear = [f for f in E.base() + E.pc if f.get_id() not in self.nonlinear]
            if E.solver.check(linear + [z3.Not(p)], timeout=2000, quick=True) != 'unsat' and not E.holds(p, timeout=15000):
                return False
        self.E.assume(goal)
        return True

    def divide(self, x, total):
        """A proof hint: how many steps of total / number of sets make up a quantity."""
        E = self.E
        for it, c, v, X, t, k, g in getattr(self, 'elements', ()):
            m = [E.fresh(y.sort(), 'm') for y in c]
            at = lambda f: z3.substitute(f, *zip(c, m))
            qs = [E.fresh_bound(y.sort()) for y in c]
            f = z3.And(it.mem(*c), X == x)
            E.assume(z3.Implies(z3.Exists(qs, z3.substitute(f, *zip(c, qs))), at(f)))
            self.chain([at(f), at(v * t == self.val(X)), at(v == z3.ToReal(k) * g), total == g * t, g > 0, t > 0], self.val(x) / total == at(z3.ToReal(k)))

    def binop(self, E, op, a, b):
        isq, isu = self.isq, self.isu
        if op == 'Pow' and isinstance(a, int) and a == 10 and isinstance(b, V):
            n = E.to_term(b, I)
            return V(self.p10i(n)) if E.branch(n >= 0) else V(self.p10(n))
        if op == 'Mult' and all(isinstance(x, V) and x.t.sort() == I for x in (a, b)):
            return V(self.times(a.t, b.t))
        if not any(f(x) for f in (isq, isu) for x in (a, b)):
            return None
        num = lambda x: E.to_term(x, R)
        if op == 'Mult' and isu(b) and not (isq(a) or isu(a)):
            return self.q(num(a), b.t)
        if op == 'Mult' and isu(a) and not (isq(b) or isu(b)):
            return self.q(num(b), a.t)
        if op == 'Mult' and isq(a) and not (isq(b) or isu(b)):
            return self.q(self.mag_(a.t) * num(b), self.unit_(a.t))
        raise Unsupported(f'quantity {op}')

    def ref_attr(self, E, v, name):
        if v.cls is QCLS:
            if name in ('u', 'units'):
                return V(self.unit_(v.t), UCLS)
            if name in ('m', 'magnitude'):
                return V(self.mag_(v.t))
            if name == 'to':
                def to(a, k):
                    if len(a) != 1 or not self.isu(a[0]):
                        raise Unsupported('Quantity.to')
                    f, t = self.unit_(v.t), a[0].t
                    return self.q(self.mag_(v.t) * self.ratio(f, t), t)
                return Builtin('Quantity.to', to)
        o = E.hooks.get('ref_attr2')
        return o(E, v, name) if o else None

    def isinst(self, E, v, c):
        if isinstance(v, V) and v.cls in (QCLS, UCLS):
            return getattr(c, 'name', '').split('.')[-1] == v.cls.name.split('.')[-1]
        o = E.hooks.get('isinstance2')
        return o(E, v, c) if o else None

    def round(self, E, a):
        x = a[0]
        if len(a) == 2 and a[1] is PRECISION:
            return x
        if len(a) == 1 and isinstance(x, V) and x.t.sort() == I:
            return x
        if len(a) == 1 and isinstance(x, V) and x.t.sort() == R:
            return V(self.floor(x.t + z3.RealVal('1/2')))     # ties differ
        raise Unsupported('round')

    def compare(self, E, op, a, b):
        f = self.val if self.isq(a) else (lambda t: t)
        t = [x.t if self.isu(x) else self.val(x.t) if self.isq(x) else E.to_term(x, R) if isinstance(x, int) and x == 0 else None for x in (a, b)]
        if None in t:
            return None
        x, y = t
        return E.mkbool({'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op])

    def eq(self, E, a, b):
        if self.isq(a) and self.isq(b):
            return E.mkbool(self.val(a.t) == self.val(b.t))
        return None


# ------------------------------------------------------------------ the step of a run
def step(mode):
    """The step divides every repeat (and in exact-time mode every fixed point) of the absolute conditions in use."""
    def f(E):
        E.hooks.clear()
        U = Units(E)
        E.hooks['unroll'] = lambda E, st, fr: False
        E.hooks['sequences'] = True
        modes = E.cls('scheduler.SchedulingMode').members
        cond = E.cls('condition.Condition')
        lists = {}
        for name in ('absolute_intervals', 'absolute_fixed_points'):
            ln, el = z3.Function(name + '.len', RefS, I), z3.Function(name + '.e', RefS, I, RefS)
            E.assume(forall([RefS], lambda c: ln(c) >= 0))
            # quantities as stored by conditions (see the parse tasks)
            E.assume(forall([RefS, I], lambda c, i: z3.And(U.whole(U.mag(el(c, i))), U.dec(U.unit(el(c, i))), U.val(el(c, i)) > 0 if name == 'absolute_intervals' else U.val(el(c, i)) >= 0)))
            lists[name] = ln, el

        def ref_attr(E, v, name):
            if v.t.sort() == RefS and name in lists:
                ln, el = lists[name]
                r = E.new_root(TList(TS(RefS, QCLS)), name, leaves={('len',): lambda: ln(v.t), ('e',): lambda i: el(v.t, i)})
                r.frozen = True
                return E.view(r)
            raise Unsupported(f'{name} of a condition')
        E.hooks['ref_attr2'] = ref_attr
        conds = E.new_root(TDict(Val, TS(RefS, cond)), 'absolute_conditions')
        conds.frozen = True
        dom, cv = conds.leaves[('dom',)], conds.leaves[('v',)]
        tc = E.new_root(TDict(Val, TS(RefS, cond)), 'termination')
        tc.frozen = True
        given = E.choose(2) == 0

        def get(E, f, a, k):
            x = k.get('termination_conds', a[1] if len(a) > 1 else None)
            E.prove('C22: the step is that of the conditions of the run', (x is None and not given) or (x is not None and E.norm(x) is E.norm(tcv)))
            return E.view(conds)
        E.contracts['scheduler.Scheduler.get_absolute_conditions'] = get
        E.contracts['scheduler.Scheduler.termination_conds'] = lambda E, f, a, k: tcv
        tcv = E.view(tc)
        lq = E.fresh(I, 'len_queue')
        E.assume(lq >= 1)
        if mode == 'EXACT_TIME':
            E.assume(lq == 1)
        Q = E.new_root(TList(TSet(Val)), 'consideration_queue', leaves={('len',): lambda: lq, ('e', 'mem'): E.fresh_fn([I, Val], B, 'in_set')})
        Q.frozen = True
        E.contracts['scheduler.Scheduler.consideration_queue'] = lambda E, f, a, k: E.view(Q)
        s = E.new_obj(E.cls('scheduler.Scheduler'))
        default = V(E.fresh(RefS, 'default_unit'), QCLS)
        E.assume(U.val(default.t) > 0)
        s.attrs.update(mode=modes[mode], default_absolute_time_unit=default)
        used = ['absolute_intervals'] + (['absolute_fixed_points'] if mode == 'EXACT_TIME' else [])

        def pool(E, L):
            out = []
            if L.visited is None:
                return out
            for n, v in L.lists(TList(TS(RefS, QCLS))):
                l, e = v[('len',)], v[('e',)]
                for what, g in (('whole numbers', lambda x: U.whole(U.mag(x))), ('decimal units', lambda x: U.dec(U.unit(x))), ('no negative times', lambda x: U.val(x) >= 0)):
                    out.append((f'{n} has {what}', lambda g=g, l=l, e=e: forall([I], lambda m: z3.Implies(z3.And(0 <= m, m < l()), g(e(m))))))
                for name in used:
                    ln, el = lists[name]
                    out.append((f'{n} has the {name} so far', lambda l=l, e=e, ln=ln, el=el: forall([Val, I], lambda o, j: z3.Implies(z3.And(L.visited(o), 0 <= j, j < ln(cv(o))), exists([I], lambda m: z3.And(0 <= m, m < l(), e(m) == el(cv(o), j)))))))
            return out
        E.inv_pool[:] = [pool]
        E.declare_cover('the step is computed')
        res = E.call(E.getattr(s, STEP.split('.')[-1]), [tcv] if given else [], {})
        if not U.isq(res):
            raise Unsupported('the step is not a quantity')
        E.cover('the step is computed')
        E.prove('C22: the step is positive', U.val(res.t) > 0)
        for name in used:
            ln, el = lists[name]
            o, j, k = E.fresh(Val, 'owner'), E.fresh(I, 'j'), E.fresh(I, 'k')
            E.assume(z3.And(dom(o), 0 <= j, j < ln(cv(o))))
            U.divide(el(cv(o), j), z3.ToReal(lq) * U.val(res.t))
            E.prove(f'C22: a whole number of steps make up each of the {name}', U.whole(U.val(el(cv(o), j)) / (z3.ToReal(lq) * U.val(res.t))))
    return f


TASKS += [(f'step_{m.lower()}', step(m)) for m in ('STANDARD', 'EXACT_TIME')]


from . import runs
TASKS += runs.tasks('G', 'C22')


# ------------------------------------------------------------------ what conditions tell the scheduler
def stored_points(given):
    """The intervals and points a TimeInterval reports cover everything its satisfaction depends on; nothing before its first point satisfies it."""
    def f(E):
        E.hooks.clear()
        T = Timed(E)
        raw, val, unit = args_of(E, T, given)
        incl = {n: E.choose(2) == 0 for n in ('start_inclusive', 'end_inclusive')}
        if {'start', 'end'} <= set(given):
            E.assume(val['start'] <= val['end'])
        c = E.call(E.cls('condition.TimeInterval'), [], dict(raw, unit=unit, **incl))
        need = {'absolute_intervals': [n for n in ('repeat',) if n in given], 'absolute_fixed_points': [n for n in ('start', 'end') if n in given and (incl[n + '_inclusive'] or n == 'start' and 'repeat' in given)]}
        points(E, 'TimeInterval', c, {k: [val[n] for n in v] for k, v in need.items()}, val.get('start'))
    return f


def points(E, name, c, need, first):
    E.prove(f'C22: {name} is an absolute condition', E.truth(E.getattr(c, 'is_absolute')) is True)
    for attr, ts in need.items():
        l = E.iterate(E.getattr(c, attr))
        if not isinstance(l, list):
            raise Unsupported(attr)
        for t in ts:
            E.prove(f'C22: {attr} of {name} cover its times', disj([E.to_term(x, R) == t for x in l]))
        E.prove(f'C22: {attr} of {name} are quantities', all(isinstance(x, V) and x.cls is QCLS for x in l))
    p = E.getattr(c, 'absolute_first_point')
    E.prove(f'C22: {name} is not satisfied before its first point', E.to_term(p, R) <= (first if first is not None else z3.RealVal(0)) if not (isinstance(p, int) and p == 0) else True)


def termination_points(E):
    E.hooks.clear()
    T = Timed(E)
    raw, val, unit = args_of(E, T, ['t'])
    incl = E.choose(2) == 0
    c = E.call(E.cls('condition.TimeTermination'), [raw['t']], dict(inclusive=incl, unit=unit))
    points(E, 'TimeTermination', c, {'absolute_intervals': [], 'absolute_fixed_points': [val['t']] if incl else []}, val['t'])


def composite(name):
    """All and Any pass on the intervals and points of the absolute conditions they hold."""
    def f(E):
        E.hooks.clear()
        pint_model(E)
        E.hooks['unroll'] = lambda E, st, fr: False
        cond = E.cls('condition.Condition')
        isabs, fp = z3.Function('is_absolute', RefS, B), z3.Function('absolute_first_point', RefS, R)
        fns = {n: (z3.Function(n + '.len', RefS, I), z3.Function(n + '.e', RefS, I, R)) for n in ('absolute_intervals', 'absolute_fixed_points')}
        for ln, el in fns.values():
            E.assume(forall([RefS], lambda c, ln=ln: ln(c) >= 0))

        def ref_attr(E, v, a):
            if v.t.sort() != RefS:
                return None
            if a == 'is_absolute':
                return E.mkbool(isabs(v.t))
            if a == 'absolute_first_point':
                return q(fp(v.t))
            if a in fns:
                ln, el = fns[a]
                r = E.new_root(TList(TS(R, QCLS)), a, leaves={('len',): lambda: ln(v.t), ('e',): lambda i: el(v.t, i)})
                r.frozen = True
                return E.view(r)
            raise Unsupported(f'{a} of a condition')
        E.hooks['ref_attr2'] = ref_attr
        args = E.new_root(TList(TS(RefS, cond), 'tuple'), 'args')
        args.frozen = True
        n, el = args.leaves[('len',)](), args.leaves[('e',)]
        E.assume(n >= 0)
        c = E.new_obj(E.cls('condition.' + name))
        c.attrs['args'] = E.view(args)
        i, j = E.fresh(I, 'i'), E.fresh(I, 'j')
        x = el(i)
        inside = z3.And(0 <= i, i < n, isabs(x))
        r = E.truth(E.getattr(c, 'is_absolute'))
        E.prove(f'C22: {name} is absolute if and only if a condition it holds is', exists([I], lambda m: z3.And(0 <= m, m < n, isabs(el(m)))) if r else forall([I], lambda m: z3.Implies(z3.And(0 <= m, m < n), z3.Not(isabs(el(m))))))
        for a in fns:
            l, e = fns[a]
            got = E.iterate(E.getattr(c, a))
            want = z3.And(inside, 0 <= j, j < l(x))
            if isinstance(got, list):
                f = disj([E.to_term(y, R) == e(x, j) for y in got])
            else:
                f = exists(got.sorts, lambda *qs: z3.And(got.mem(*qs), E.to_term(got.val(*qs), R) == e(x, j)))
            E.prove(f'C22: {a} of {name} include those of the absolute conditions it holds', z3.Implies(want, f))
        p = E.getattr(c, 'absolute_first_point')
        E.prove(f'C22: the first point of {name} is not later than those of the absolute conditions it holds', z3.Implies(inside, E.to_term(p, R) <= fp(x)))
    return f


def absolute_conditions(E):
    """The absolute conditions of a run: those of nodes and those that end it."""
    E.hooks.clear()
    pint_model(E)
    E.hooks['unroll'] = lambda E, st, fr: False
    cond = E.cls('condition.Condition')
    isabs = z3.Function('is_absolute', RefS, B)
    E.hooks['ref_attr2'] = lambda E, v, a: E.mkbool(isabs(v.t)) if v.t.sort() == RefS and a == 'is_absolute' else None
    basic, own, tc = (E.new_root(TDict(Val, TS(RefS, cond)), n) for n in ('conditions_basic', 'own', 'given'))
    for r in (basic, own, tc):
        r.frozen = True
    views = {r: E.view(r) for r in (basic, own, tc)}
    E.contracts['scheduler.Scheduler.termination_conds'] = lambda E, f, a, k: views[own]
    given = E.choose(2) == 0
    used = tc if given else own
    s = E.new_obj(E.cls('scheduler.Scheduler'))
    s.attrs['conditions'] = E.new_obj(E.cls('condition.ConditionSet'), dict(conditions_basic=views[basic]))
    E.assume(forall([Val], lambda n: z3.Not(z3.And(basic.leaves[('dom',)](n), used.leaves[('dom',)](n)))))      # nodes are not time scales
    E.assumptions.add('nodes are not time scales')
    r = E.call(E.getattr(s, 'get_absolute_conditions'), [views[tc]] if given else [], {})
    lv = E.leaves_of(r, TDict(Val, TS(RefS, cond)))
    dom, v = lv[('dom',)], lv[('v',)]
    n = E.fresh(Val, 'owner')
    for what, d in (('nodes', basic), ('termination', used)):
        here = z3.And(d.leaves[('dom',)](n), isabs(d.leaves[('v',)](n)))
        E.prove(f'C22: the absolute conditions of {what} are found', z3.Implies(here, z3.And(dom(n), v(n) == d.leaves[('v',)](n))))
    E.prove('C22: only absolute conditions of nodes and termination are found', z3.Implies(dom(n), disj([z3.And(d.leaves[('dom',)](n), isabs(d.leaves[('v',)](n)), v(n) == d.leaves[('v',)](n)) for d in (basic, used)])))


TASKS += [('points_' + '_'.join(c), stored_points(c)) for c in COMBOS] + [('points_termination', termination_points)]
TASKS += [(f'composite_{n}', composite(n)) for n in ('All', 'Any')] + [('absolute_conditions', absolute_conditions)]


# ------------------------------------------------------------------ units
def decimal_unit(E):
    """Only units a power of ten apart from seconds are called decimal."""
    E.hooks.clear()
    U = Units(E)
    u = E.fresh(R, 'unit')
    E.assume(u > 0)
    s = UNIT_MS['s']
    # a power of ten of seconds is one of milliseconds; the logarithm is whole for powers of ten only
    r = U.ratio(u, z3.RealVal(s))
    E.assume(z3.Implies(U.whole(U.lg(r)), U.dec(u)))
    E.declare_cover('a unit is tested')
    t = E.truth(E.call(E.fn('condition._is_decimal_time_unit'), [V(u, UCLS)], {}))
    E.cover('a unit is tested')
    if t:
        E.prove('C22: a decimal unit is a power of ten of milliseconds', U.dec(u))
    else:
        E.prove('C22: a unit that is not decimal is not a power of ten of seconds', z3.Not(U.whole(U.lg(r))))


def convert(E):
    """Conversion without floating point error."""
    E.hooks.clear()
    U = Units(E)
    if 'def _convert_exactly(' not in E.mods['graph_scheduler.condition'].src:
        E.prove('C22: nothing to convert', True)
        return
    x, u = E.fresh(RefS, 'quantity'), E.fresh(R, 'unit')
    E.assume(z3.And(u > 0, U.dec(u), U.dec(U.unit(x))))
    E.declare_cover('a quantity is converted')
    r = E.call(E.fn('condition._convert_exactly'), [V(x, QCLS), V(u, UCLS)], {})
    E.cover('a quantity is converted')
    E.prove('C22: conversion gives a quantity in the unit', U.unit_(r.t) == u if U.isq(r) else False)
    k = U.ratio(U.unit(x), u)
    n = U.ex(k)
    m = U.mag_(r.t)
    if E.branch(n >= 0):
        U.chain([U.val(x) == U.mag(x) * U.unit(x), k * u == U.unit(x), k == z3.ToReal(U.p10i(n)), m == U.mag(x) * z3.ToReal(U.p10i(n))], m * u == U.val(x))
    else:
        U.chain([U.val(x) == U.mag(x) * U.unit(x), k * u == U.unit(x), k == U.p10(n), U.p10(n) * z3.ToReal(U.p10i(-n)) == 1, m == U.mag(x) / z3.ToReal(U.p10i(-n)), z3.ToReal(U.p10i(-n)) >= 1], m * u == U.val(x))
    E.prove('C22: conversion keeps the value', m * u == U.val(x))


class Parsing(Units):
    """Quantities that can be expressed as a whole number of some smaller decimal unit."""

    def __init__(self, E):
        super().__init__(E)
        E.hooks['unroll'] = lambda E, st, fr: False
        us = E.new_root(TList(TS(R, UCLS)), 'all_time_units')
        us.frozen = True
        n, e = us.leaves[('len',)](), us.leaves[('e',)]
        E.assume(n >= 0)
        E.assume(forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < n), z3.And(e(i) > 0, self.dec(e(i))))))
        E.assumptions.add('every given time is a whole number of some unit among the decimal time units of pint that is not larger than its own')
        E.hooks['globals']['condition._pint_all_time_units'] = lambda E: E.view(us)
        self.small = lambda x: exists([I], lambda i: z3.And(0 <= i, i < n, e(i) <= self.unit(x), self.whole(self.mag(x) * self.ratio(self.unit(x), e(i)))))

    def stored(self, name, r, val):
        E = self.E
        E.prove(f'C22: {name} is stored as a quantity', self.isq(r))
        E.prove(f'C22: {name} keeps its value', self.val(r.t) == val)
        E.prove(f'C22: {name} is a whole number of its unit', self.whole(self.mag_(r.t)))
        E.prove(f'C22: {name} is in a decimal unit', self.dec(self.unit_(r.t)))


def reduce(E):
    E.hooks.clear()
    U = Parsing(E)
    x = E.fresh(RefS, 'quantity')
    E.assume(U.small(x))
    E.declare_cover('a quantity is reduced')
    r = E.call(E.fn('condition._reduce_quantity_to_integer'), [V(x, QCLS)], {})
    E.cover('a quantity is reduced')
    U.stored('a time', r, U.val(x))


TASKS += [('decimal_unit', decimal_unit), ('convert', convert), ('reduce', reduce)]


def parse(kind, unit):
    """A time means the same however it is given; None stays None."""
    def f(E):
        E.hooks.clear()
        U = Parsing(E)
        H, K = E.hooks, E.contracts
        num, qty, named = z3.Function('number', Val, R), z3.Function('quantity_of_text', Val, RefS), z3.Function('unit_of_text', Val, R)
        isint = z3.Function('is_integer_text', Val, B)
        E.assume(forall([Val], lambda x: z3.And(named(x) > 0, z3.Implies(isint(x), U.whole(num(x))))))
        U.plain = E.fresh(RefS, 'plain')
        H['isinstance2'] = lambda E, v, c: getattr(c, 'name', '') == 'str' if v.t.sort() == Val else None
        H['getattr_dyn'] = lambda E, a: V(named(a[1].t), UCLS) if isinstance(a[1], V) and a[1].t.sort() == Val and len(a) == 2 else E.raise_('TypeError', 'attribute name must be string')
        undefined = BuiltinClass(type('UndefinedUnitError', (AttributeError,), {}), 'UndefinedUnitError')
        E.B.ext['pint.errors'] = C.ModVal('pint.errors')
        E.B.ext['pint.errors.UndefinedUnitError'] = undefined
        E.assumptions.add('pint reads a text as a quantity or as a plain number; int and float read plain numbers; attributes of the registry named by a unit are that unit')
        x = E.fresh(Val, 'text')
        E.assume(x != E.to_term(None, Val))
        how = {'text number': 'plain', 'text quantity': 'full'}.get(kind)

        def quantity(E, a, k):
            if len(a) == 1 and isinstance(a[0], V) and a[0].t.eq(x):
                if how == 'plain':
                    return V(U.plain, QCLS)
                return V(qty(x), QCLS)
            raise Unsupported('construction of a quantity')
        K['pint.Quantity'] = quantity
        K['pint.Unit'] = lambda E, a, k: V(z3.RealVal(-1), UCLS) if list(a) == ['dimensionless'] else E.raise_('ValueError', 'unit')

        def to_int(E, v):
            if not E.branch(isint(v.t)):
                E.raise_('ValueError', 'not an integer')
            return V(U.floor(num(v.t)))
        H['int'] = to_int
        H['float'] = lambda E, v: V(num(v.t))
        uname = E.fresh(Val, 'unit_name')
        if unit == 'name':
            uv, ut = V(uname), named(uname)
        else:
            ut = E.fresh(R, 'unit')
            E.assume(ut > 0)
            uv = V(ut, UCLS)
        m = E.fresh(R, 'number')
        given, want = {'number': (V(m), m * ut), 'text number': (V(x), num(x) * ut), 'text quantity': (V(x), U.val(qty(x)))}.get(kind, (None, None))
        if kind == 'quantity':
            y = E.fresh(RefS, 'given')
            given, want = V(y, QCLS), U.val(y)
        got = []

        def reduce_(E, f, a, k):
            (z,) = list(a) + list(k.values())
            if z.t.eq(U.plain):
                raise Unsupported('a plain number is reduced')
            E.prove('C22: the time that is stored is the one given', U.val(z.t) == want)
            r = V(E.fresh(RefS, 'reduced'), QCLS)
            E.assume(z3.And(U.val(r.t) == U.val(z.t), U.whole(U.mag(r.t)), U.dec(U.unit(r.t))))     # (the reduce task)
            return r
        K['condition._reduce_quantity_to_integer'] = reduce_
        E.declare_cover('a time is read')
        try:
            r = E.call(E.fn('condition._parse_absolute_unit'), [given, uv], {})
        except PyRaise as e:
            E.prove('C22: no time is refused', False, why=e.cname)
            return
        E.cover('a time is read')
        if kind == 'None':
            E.prove('C22: no time stays no time', r is None)
            return
        U.stored(f'a time given as {kind}', r, want)
    return f


TASKS += [(f'parse {k}, unit by {u}', parse(k, u)) for k in ('None', 'number', 'quantity', 'text number', 'text quantity') for u in ('name', 'object')]
