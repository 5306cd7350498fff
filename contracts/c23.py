"""Threshold against the current value of the parameter."""
from .conds import *
from .c14 import Function, ARGS

LEVEL = 'proof'
LIMIT = 300
NOTE = 'any dependency, parameter, threshold, tolerances and comparator, any number of indices, with and without custom getter and validator; floating point as real numbers; numpy.isclose by its documented contract'

CMP = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b}


class Params:
    """Attributes of nodes: current values, changing over time."""

    def __init__(self, E):
        self.E = E
        pint_model(E)
        E.assumptions.add('numpy.isclose(a, b, rtol, atol) is |a - b| <= atol + rtol * |b| (documented; over real numbers)')
        E.assumptions.add('float() of a parameter value is its numeric value')
        self.val = z3.Function('value', Val, Val, Val)
        self.has = z3.Function('has_parameter', Val, Val, B)
        self.num = z3.Function('numeric_value', Val, R)
        self.index = z3.Function('index', Val, Val, Val)
        E.hooks['getattr_dyn'] = self.getattr
        E.hooks['float'] = lambda E, v: V(self.num(v.t))
        E.hooks['getitem'] = self.getitem
        E.hooks['val_attr'] = self.no_attr
        E.contracts['np.isclose'] = self.isclose
        E.contracts['numpy.isclose'] = self.isclose
        E.hooks['unroll'] = lambda E, st, fr: True

    def no_attr(self, E, v, name):
        raise Unsupported(f'attribute {name} of a node')

    def getattr(self, E, a):
        d, p = E.to_term(a[0], Val), E.to_term(a[1], Val)
        if not E.branch(self.has(d, p)):
            if len(a) == 3:
                return a[2]
            E.raise_('AttributeError', 'parameter')
        return V(self.val(d, p))

    def getitem(self, E, c, k):
        if isinstance(c, V) and c.t.sort() == Val:
            return V(self.index(c.t, E.to_term(k, Val)))

    def isclose(self, E, a, k):
        k = dict(zip(('a', 'b', 'rtol', 'atol'), a), **k)
        x, y = E.to_term(k['a'], R), E.to_term(k['b'], R)
        rtol = E.to_term(k.get('rtol', Fraction(1, 100000)), R)
        atol = E.to_term(k.get('atol', Fraction(1, 100000000)), R)
        ab = lambda t: z3.If(t >= 0, t, -t)
        return V(ab(x - y) <= atol + rtol * ab(y))


def want(op, x, th, atol, rtol):
    ab = lambda t: z3.If(t >= 0, t, -t)
    close = ab(x - th) <= atol + rtol * ab(th)
    return {'==': close, '!=': z3.Not(close)}.get(op) if op in ('==', '!=') else CMP[op](x, th)


def satisfied(indices, getter):
    def f(E):
        E.hooks.clear()
        P = Params(E)
        d, p = E.fresh(Val, 'dependency'), E.fresh(Val, 'parameter')
        th, atol, rtol = E.fresh(R, 'threshold'), E.fresh(R, 'atol'), E.fresh(R, 'rtol')
        eid = E.fresh(Val, 'execution_id')
        E.assume(z3.And(atol >= 0, rtol >= 0))
        ops = list(CMP) + ['==', '!=']
        op = ops[E.choose(len(ops))]
        kw = {}
        tol = E.choose(2)
        if tol:
            kw.update(atol=V(atol), rtol=V(rtol))
        else:
            E.assume(z3.And(atol == 0, rtol == 0))
        ln = el = None
        if indices == 'list':
            r = E.new_root(TList(TS(Val)), 'indices')
            r.frozen = True
            ln, el = r.leaves[('len',)](), r.leaves[('e',)]
            E.assume(ln >= 0)
            kw['indices'] = E.view(r)
        elif indices == 'one':
            ix = E.fresh(I, 'index')
            kw['indices'] = V(ix)
            ln, el = z3.IntVal(1), lambda i: E.to_term(V(ix), Val)
        elif indices == 'scale':
            ts = E.pick(E.TSs())
            kw['indices'] = ts
            ln, el = z3.IntVal(1), lambda i: E.to_term(ts.value, Val)
        else:
            ln, el = z3.IntVal(0), lambda i: E.to_term(0, Val)
        gval = z3.Function('getter_value', Val, Val, Val, Val)
        if getter:
            k = E.choose(3)
            sig = [[('dependency', 'POSITIONAL_OR_KEYWORD', False), ('parameter', 'POSITIONAL_OR_KEYWORD', False)] + x for x in (
                [], [('execution_id', 'POSITIONAL_OR_KEYWORD', True)], [('kwargs', 'VAR_KEYWORD', False)])][k]

            def get(E, a, kk):
                E.prove('C23: the custom getter is asked about the dependency and the parameter', z3.And(E.to_term(a[0], Val) == d, E.to_term(a[1], Val) == p) if len(a) == 2 else False)
                if k:
                    E.prove('C23: the custom getter gets the context', E.to_term(kk.get('execution_id'), Val) == eid)
                return V(gval(d, p, eid))
            kw['custom_parameter_getter'] = AbstractFunc('getter', get, sig)
        if E.choose(2):
            kw['custom_parameter_validator'] = AbstractFunc('validator', lambda E, a, k: None, [('dependency', 'POSITIONAL_OR_KEYWORD', False), ('parameter', 'POSITIONAL_OR_KEYWORD', False)])
            if not getter:
                E.assume(P.has(d, p))
        else:
            E.assume(P.has(d, p))
        c = E.call(E.cls('condition.Threshold'), [V(d), V(p), V(th), op], kw)

        def value():
            """The value reached through the first k indices."""
            v0 = gval(d, p, eid) if getter else P.val(d, p)
            if indices in ('one', 'scale'):
                return P.index(v0, el(z3.IntVal(0))), None
            if ln.eq(z3.IntVal(0)):
                return v0, None
            G = E.fresh_fn([I], Val, 'reached')
            E.assume(G(z3.IntVal(0)) == v0)
            E.assume(forall([I], lambda k: z3.Implies(z3.And(0 <= k, k < ln), G(k + 1) == P.index(G(k), el(k)))))
            return G(ln), G
        # the value may have changed since construction
        P.val = z3.Function('value_now', Val, Val, Val)
        E.declare_cover('Threshold is evaluated')
        x, G = value()

        def pool(E, L):
            if L.i is None or G is None:
                return []
            return [(f'{n} is the value reached so far', v.t == G(L.i)) for n, v in L.locals() if isinstance(v, V) and v.t.sort() == Val]
        E.inv_pool[:] = [pool]
        rec = C.Recorder(E.uidc)
        E.recorders.append(rec)
        try:
            t = E.truth(E.call(E.getattr(c, 'is_satisfied'), [], dict(execution_id=V(eid), scheduler=None)))
        finally:
            E.recorders.pop()
        E.cover('Threshold is evaluated')
        E.prove('C23: Threshold compares the current value as documented', want(op, P.num(x), th, atol, rtol) == (t if not isinstance(t, bool) else z3.BoolVal(t)))
        if rec.writes or rec.hostw:
            P.val = z3.Function('value_later', Val, Val, Val)
            gval = z3.Function('getter_value_later', Val, Val, Val, Val)
            x, G = value()
            t = E.truth(E.call(E.getattr(c, 'is_satisfied'), [], dict(execution_id=V(eid), scheduler=None)))
            E.prove('C23: Threshold compares the current value as documented when evaluated again', want(op, P.num(x), th, atol, rtol) == (t if not isinstance(t, bool) else z3.BoolVal(t)))
    return f


def refusals(E):
    """Construction refuses exactly unknown comparators and missing parameters."""
    E.hooks.clear()
    P = Params(E)
    d, p, op = E.fresh(Val, 'dependency'), E.fresh(Val, 'parameter'), E.fresh(Val, 'comparator')
    known = z3.Or([op == E.to_term(x, Val) for x in list(CMP) + ['==', '!=']])
    mode = E.choose(3)
    kw = {}
    ok = P.has(d, p)
    if mode:
        def validate(E, a, k):
            E.prove('C23: the custom validator is asked about the dependency and the parameter', z3.And(E.to_term(a[0], Val) == d, E.to_term(a[1], Val) == p) if len(a) == 2 else False)
            if mode == 2:
                E.raise_('ValueError', 'no such parameter')
        kw['custom_parameter_validator'] = AbstractFunc('validator', validate, [('dependency', 'POSITIONAL_OR_KEYWORD', False), ('parameter', 'POSITIONAL_OR_KEYWORD', False)])
        ok = z3.BoolVal(mode == 1)
    try:
        E.call(E.cls('condition.Threshold'), [V(d), V(p), V(E.fresh(R, 'threshold')), V(op)], kw)
    except PyRaise as e:
        E.prove('C23: construction is refused only for unknown comparators and missing parameters', z3.Not(z3.And(known, ok)))
        E.prove('C23: unknown comparators and missing parameters are condition errors', z3.BoolVal(e.cname == 'ConditionError' or (mode == 2 and e.cname == 'ValueError')))
        return
    E.prove('C23: unknown comparators and missing parameters are refused', z3.And(known, ok))


TASKS = [(f'satisfied_{i}{"_getter" if g else ""}', satisfied(i, g)) for i in ('none', 'one', 'scale', 'list') for g in (False, True)] + [('refusals', refusals)]
