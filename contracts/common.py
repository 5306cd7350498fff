"""Shared contract vocabulary: abstract quantities, times, clocks, schedulers."""
import z3
from pyvc.core import *
from pyvc.values import *
from pyvc import core as C

TSN = ['CONSIDERATION_SET_EXECUTION', 'PASS', 'ENVIRONMENT_STATE_UPDATE', 'ENVIRONMENT_SEQUENCE', 'LIFE']


def tsm(E, name):
    return E.cls('time.TimeScale').members[name]


def tterm(E, v, sort=None):
    return E.to_term(v, sort)


# ------------------------------------------------------------------ quantities (pint)
QCLS = BuiltinClass(type('Quantity', (), {}), 'pint.Quantity')
UCLS = BuiltinClass(type('Unit', (), {}), 'pint.Unit')
UNIT_MS = {'ns': '1/1000000', 'us': '1/1000', 'ms': '1', 's': '1000', 'min': '60000', 'minute': '60000', 'h': '3600000', 'hour': '3600000',
           'day': '86400000', 'second': '1000', 'millisecond': '1', 'microsecond': '1/1000'}


def q(t):
    return V(t, QCLS)


def pint_model(E):
    """Quantities of time are real numbers (of milliseconds); floating point and unit prefixes are mathematical."""
    E.assumptions.add('pint quantities of time behave as real numbers of milliseconds (conversions, rounding to the registry precision and floating point are exact)')
    H = E.hooks
    B = E.B

    def isq(v):
        return isinstance(v, V) and v.cls is QCLS

    def isu(v):
        return isinstance(v, V) and v.cls is UCLS

    def unit(name):
        if name not in UNIT_MS:
            return None
        return V(z3.RealVal(UNIT_MS[name]), UCLS)

    def binop(E, op, a, b):
        if not (isq(a) or isq(b) or isu(a) or isu(b)):
            return None
        for x in (a, b):
            if x is None or isinstance(x, (str, EnumMember)):
                E.raise_('TypeError', 'unsupported operand for a quantity')
        ar = lambda: B.arith(op, V(a.t) if isinstance(a, V) else a, V(b.t) if isinstance(b, V) else b)
        if op in ('Add', 'Sub', 'Mod') and (isq(a) or isq(b)):
            if not (isq(a) and isq(b)):
                # pint: a bare zero is accepted by + and -
                if op != 'Mod' and any(isinstance(x, int) and x == 0 for x in (a, b)):
                    return a if isq(a) else b
                E.raise_('AttributeError' if False else 'ValueError', 'DimensionalityError')
            return q(E.to_term(ar(), R))
        if op == 'Mult' and (isq(a) or isu(a)) != (isq(b) or isu(b)):
            return q(E.to_term(ar(), R))
        if op == 'Div':
            if (isq(a) or isu(a)) and not (isq(b) or isu(b)):
                return q(E.to_term(ar(), R))
            if isq(a) and isq(b):
                return V(E.to_term(ar(), R))
        raise Unsupported(f'quantity {op}')

    def ref_attr(E, v, name):
        if v.cls is QCLS:
            if name in ('u', 'units'):
                return V(E.fresh(R, 'unit'), UCLS) if not H.get('unit_of') else H['unit_of'](E, v)
            if name in ('m', 'magnitude'):
                return MAG(v)
            if name == 'to':
                def to(a, k):
                    if len(a) != 1:
                        raise Unsupported('Quantity.to')
                    return v
                return Builtin('Quantity.to', to)
            raise Unsupported(f'Quantity.{name}')
        if v.cls is UCLS:
            raise Unsupported(f'Unit.{name}')
        o = H.get('ref_attr2')
        return o(E, v, name) if o else None

    def isinst(E, v, c):
        if isinstance(v, MAG):
            if getattr(c, 'name', '') in ('float', 'int'):
                return V(E.fresh(B, 'magkind'))
            return False
        if isinstance(v, V) and v.cls in (QCLS, UCLS):
            return getattr(c, 'name', '').split('.')[-1] == v.cls.name.split('.')[-1]
        o = H.get('isinstance2')
        return o(E, v, c) if o else None

    def rnd(E, a):
        if len(a) == 2 and isinstance(a[0], V) and isinstance(a[1], C.Opaque if False else object) and a[1] is PRECISION:
            return a[0]
        if isinstance(a[0], V) and a[0].t.sort() == I and len(a) == 1:
            return a[0]
        if isinstance(a[0], V) and a[0].t.sort() == R and len(a) == 1:
            # nearest integer, ties to even: only |r - x| <= 1/2 is used
            r = E.fresh(I, 'rounded')
            E.assume(z3.And(z3.ToReal(r) - a[0].t <= z3.RealVal('1/2'), a[0].t - z3.ToReal(r) <= z3.RealVal('1/2')))
            return V(r)
        if isinstance(a[0], V):
            # rounding at another precision: some value within half a unit of the last place; nothing is known about the precision
            f = z3.Function('round_other', R, R)
            return V(f(a[0].t), a[0].cls)
        raise Unsupported('round')
    H['binop'] = binop
    H['ref_attr'] = ref_attr
    H['isinstance'] = isinst
    H['round'] = rnd
    E.B.ext['_unit_registry.precision'] = PRECISION
    for n in UNIT_MS:
        E.B.ext['_unit_registry.' + n] = unit(n)
    E.B.ext['_unit_registry.Quantity'] = QCLS
    E.B.ext['_unit_registry.Unit'] = UCLS
    E.hooks.setdefault('globals', {})
    E.hooks['globals']['condition._pint_all_time_units'] = lambda E: Opaque('units')
    E.contracts['condition._convert_exactly'] = lambda E, f, a, k: a[0]      # the same time in another unit: C22, task convert
    E.contracts['time._get_pint_unit'] = lambda E, f, a, k: pint_unit(E, a, unit)


def pint_unit(E, a, unit):
    if isinstance(a[1], str) and unit(a[1]) is not None:
        return E.binop('Mult', a[0], unit(a[1]))
    raise Unsupported('unknown unit')


class _Prec:
    def __repr__(self):
        return 'registry precision'


PRECISION = _Prec()


class MAG:
    """Magnitude of a quantity (in its own unit)."""
    def __init__(self, q):
        self.q = q


# ------------------------------------------------------------------ times
def attr_of(E, ts):
    return ts.name.lower() if ts.name != 'PASS' else 'pass_'


def time_fields(E, absolute=True):
    f = {attr_of(E, ts): TS(I) for ts in E.TSs()}
    f.update(absolute=TS(R, QCLS), absolute_interval=TS(R, QCLS), absolute_enabled=TS(B),
             absolute_time_unit_scale=TConst(tsm(E, 'CONSIDERATION_SET_EXECUTION')))
    return f


def sym_time(E, name='t'):
    """A time object with arbitrary counters."""
    t = E.new_obj(E.cls('time.Time'))
    for ts in E.TSs():
        t.attrs[attr_of(E, ts)] = V(E.fresh(I, f'{name}.{ts.name}'))
    t.attrs.update(absolute=q(E.fresh(R, name + '.absolute')), absolute_interval=q(E.fresh(R, name + '.interval')),
                   absolute_enabled=V(E.fresh(B, name + '.abs_enabled')), absolute_time_unit_scale=E.pick(E.TSs()))
    return t


def induction(E, name, P, n):
    """Lemma: P(i) for 0 <= i <= n, proved by induction and then assumed."""
    E.prove(f'lemma: {name}: base', P(z3.IntVal(0)))
    i = E.fresh(I, 'i')
    E.prove(f'lemma: {name}: step', z3.Implies(z3.And(0 <= i, i < n, P(i)), P(i + 1)))
    E.assume(forall([I], lambda i: z3.Implies(z3.And(0 <= i, i <= n), P(i))))
