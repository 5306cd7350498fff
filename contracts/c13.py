"""Composite conditions over arbitrary components; NWhen's counters; owners."""
from .conds import *
from .c14 import Function, KW, ARGS

LEVEL = 'proof'
LIMIT = 300
NOTE = 'any number of components with any truth values, any context and keyword arguments; NWhen for any history; nesting by composition of the contracts (a component is any condition)'


class Components:
    """Arbitrary conditions: truth in a situation is a predicate of the condition; owners are mutable."""

    def __init__(self, E, pid='C13'):
        self.E = E
        pint_model(E)
        self.later('')
        self.owners = E.new_root(TDict(Val, TS(Val)), 'owners')
        self.eid = E.fresh(Val, 'execution_id')
        self.sch = E.fresh(Val, 'scheduler')
        self.kw = E.new_root(KW, 'keywords')
        self.kw.frozen = True
        for r in ('self', 'func', 'execution_id', 'scheduler', 'condition', 'n'):
            E.assume(z3.Not(self.kw.leaves[('dom',)](E.to_term(r, Val))))
        self.truthy = z3.Function('truthy', Val, B)
        E.hooks['truth_term'] = self.truthy
        E.hooks['int'] = lambda E, v: V(z3.Function('int of', Val, I)(v.t))
        E.hooks['val_attr'] = self.attr
        E.hooks['ref_setattr'] = self.setattr
        E.hooks['val_truth'] = lambda E, v: E.branch(self.truthy(v.t))
        E.hooks['unroll'] = lambda E, st, fr: True

    def later(self, when):
        # the answers of conditions are arbitrary values
        answer = self.answer = z3.Function('component_answer' + when, Val, Val)
        self.sat = lambda x: self.truthy(answer(x))

    def attr(self, E, v, name):
        if name == 'owner':
            return V(E.leaf_at(E.view(self.owners), 'v', v.t))
        if name == 'is_satisfied':
            return AbstractFunc('is_satisfied', lambda E, a, k: self.evaluate(v, a, k), [('args', 'VAR_POSITIONAL', False), ('execution_id', 'KEYWORD_ONLY', True), ('kwargs', 'VAR_KEYWORD', False)])
        raise Unsupported(f'attribute {name} of a component')

    def setattr(self, E, v, name, val):
        if name == 'owner':
            E.put_leaf(E.view(self.owners), 'v', (v.t,), E.to_term(val, Val))
            return True
        return False

    def evaluate(self, v, a, k):
        E = self.E
        E.prove('C13: components get no positional arguments', not a)
        dom, val = kw_leaves13(E, k)
        sd, sv = self.kw.leaves[('dom',)], self.kw.leaves[('v',)]
        c, s = E.to_term('execution_id', Val), E.to_term('scheduler', Val)
        E.prove('C13: components are evaluated with the same scheduler', z3.And(dom(s), val(s) == self.sch))
        E.prove('C13: components are evaluated in the same context', z3.And(dom(c), val(c) == self.eid))
        E.prove('C13: components are evaluated with the same keyword arguments',
                forall([Val], lambda x: z3.Implies(z3.And(x != c, x != s), z3.And(dom(x) == sd(x), z3.Implies(sd(x), val(x) == sv(x))))))
        return V(self.answer(v.t))

    def satisfied(self, c):
        E = self.E
        r = E.call(E.getattr(c, 'is_satisfied'), [], {'execution_id': V(self.eid), 'scheduler': V(self.sch), '**': SymKw(E.view(self.kw))})
        t = E.truth(r)
        return t if not isinstance(t, bool) else z3.BoolVal(t)


def kw_leaves13(E, kw):
    from .c14 import kw_leaves
    return kw_leaves(E, kw)


def several(E):
    r = E.new_root(ARGS, 'components')
    r.frozen = True
    ln, el = r.leaves[('len',)](), r.leaves[('e',)]
    E.assume(ln >= 0)
    return [SymStar(E.view(r))], ln, el


def all_any(cls):
    def f(E):
        E.hooks.clear()
        K = Components(E)
        args, ln, el = several(E)
        c = E.call(E.cls('condition.' + cls), args, {})
        E.declare_cover(f'{cls} is evaluated')
        for again in (False, True):
            rec = C.Recorder(E.uidc)
            E.recorders.append(rec)
            try:
                t = K.satisfied(c)
            finally:
                E.recorders.pop()
            E.cover(f'{cls} is evaluated')
            want = {'All': forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < ln), K.sat(el(i)))),
                    'Any': exists([I], lambda i: z3.And(0 <= i, i < ln, K.sat(el(i))))}[{'And': 'All', 'Or': 'Any'}.get(cls, cls)]
            E.prove(f'C13: {cls} is satisfied exactly when its components are' + (' when evaluated again' if again else ''), t == want)
            if not (rec.writes or rec.hostw or any(fu <= rec.uid for fu, _ in rec.lw)):
                break
            K.later(' later')
            K.eid = E.fresh(Val, 'execution_id2')
    return f


def owner_all_any(cls):
    def f(E):
        E.hooks.clear()
        K = Components(E)
        args, ln, el = several(E)
        c = E.call(E.cls('condition.' + cls), args, {})
        o = E.fresh(Val, 'owner')
        E.assume(o != E.to_term(None, Val))
        before = K.owners.leaves[('v',)]
        none = E.to_term(None, Val)
        upto = lambda x, k: exists([I], lambda i: z3.And(0 <= i, i < k, el(i) == x))

        def pool(E, L):
            if L.i is None:
                return []
            now = K.owners.leaves[('v',)]
            return [('components so far have an owner', forall([Val], lambda x: now(x) == z3.If(z3.And(upto(x, L.i), before(x) == none), o, before(x))))]
        E.inv_pool[:] = [pool]
        E.declare_cover('owner set')
        E.setattr(c, 'owner', V(o))
        E.cover('owner set')
        after = K.owners.leaves[('v',)]
        part = lambda x: exists([I], lambda i: z3.And(0 <= i, i < ln, el(i) == x))
        E.prove(f'C13: {cls} has the owner it was given', E.to_term(E.getattr(c, 'owner'), Val) == o)
        E.prove(f'C13: an owner given to {cls} goes to exactly the components without one',
                forall([Val], lambda x: after(x) == z3.If(z3.And(part(x), before(x) == none), o, before(x))))
    return f


def negation(E):
    E.hooks.clear()
    K = Components(E)
    x = E.fresh(Val, 'component')
    c = E.call(E.cls('condition.Not'), [V(x)], {})
    E.declare_cover('Not is evaluated')
    t = K.satisfied(c)
    E.cover('Not is evaluated')
    E.prove('C13: Not is satisfied exactly when its component is not', t != K.sat(x))


def nwhen_state(E, K, c):
    """Give NWhen an arbitrary history: times satisfied per context."""
    s = c.attrs.get('satisfactions')
    if s is None or E.ckind(s) != 'dict':
        raise Unsupported('NWhen.satisfactions is not a dictionary')
    r = E.new_root(TDict(Val, TS(I)), 'satisfactions')
    c.attrs['satisfactions'] = E.view(r)
    cnt = z3.Function('times_satisfied', Val, I)
    E.assume(forall([Val], lambda e: cnt(e) >= 0))
    d, v = r.leaves[('dom',)], r.leaves[('v',)]
    E.assume(forall([Val], lambda e: z3.If(d(e), v(e) == cnt(e), cnt(e) == 0)))
    return r, cnt


def nwhen(E):
    E.hooks.clear()
    K = Components(E)
    x, n = E.fresh(Val, 'component'), E.fresh(I, 'n')
    k = E.choose(3)
    if k == 2:
        n = z3.IntVal(1)
        c = E.call(E.cls('condition.NWhen'), [V(x)], {})
    else:
        c = E.call(E.cls('condition.NWhen'), [V(x)] + ([V(n)] if k else []), {} if k else dict(n=V(n)))
    s0 = E.norm(c.attrs['satisfactions']) if 'satisfactions' in c.attrs else None
    if s0 is not None and E.ckind(s0) == 'dict':
        E.prove('C13: a new NWhen has not been satisfied in any context', E.to_term(E.length(s0), I) == 0)
    r, cnt = nwhen_state(E, K, c)
    E.declare_cover('NWhen is evaluated')
    t = K.satisfied(c)
    E.cover('NWhen is evaluated')
    want = z3.And(K.sat(x), cnt(K.eid) < n)
    E.prove('C13: NWhen is satisfied exactly when its component is and fewer than n satisfactions are counted in the context', t == want)
    d, v = r.leaves[('dom',)], r.leaves[('v',)]
    new = lambda e: cnt(e) + z3.If(z3.And(e == K.eid, want), z3.IntVal(1), z3.IntVal(0))
    E.prove('C13: NWhen counts its satisfactions, each context separately', forall([Val], lambda e: z3.If(d(e), v(e) == new(e), new(e) == 0)))


def owner_single(cls):
    def f(E):
        E.hooks.clear()
        K = Components(E)
        x, o = E.fresh(Val, 'component'), E.fresh(Val, 'owner')
        c = E.call(E.cls('condition.' + cls), [V(x)], {})
        before = K.owners.leaves[('v',)]
        E.setattr(c, 'owner', V(o))
        after = K.owners.leaves[('v',)]
        E.prove(f'C13: {cls} has the owner it was given', E.to_term(E.getattr(c, 'owner'), Val) == o)
        E.prove(f'C13: an owner given to {cls} goes to its component', after(x) == o)
        E.prove(f'C13: an owner given to {cls} goes to no other condition', forall([Val], lambda y: z3.Implies(y != x, after(y) == before(y))))
    return f


def constant(cls, val):
    def f(E):
        E.hooks.clear()
        K = Components(E)
        c = E.call(E.cls('condition.' + cls), [], {})
        t = K.satisfied(c)
        E.prove(f'C13: {cls} is {"always" if val else "never"} satisfied', t == z3.BoolVal(val))
    return f


TASKS = [(c, all_any(c)) for c in ('All', 'Any', 'And', 'Or')] + [('owner_' + c, owner_all_any(c)) for c in ('All', 'Any')]
TASKS += [('Not', negation), ('NWhen', nwhen), ('owner_Not', owner_single('Not')), ('owner_NWhen', owner_single('NWhen')), ('Always', constant('Always', True)), ('Never', constant('Never', False))]
