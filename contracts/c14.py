"""Condition functions are called once with exactly the arguments they accept, for any signature and any arguments."""
from .conds import *

LEVEL = 'proof'
LIMIT = 400
NOTE = 'any signature, any number of positional and keyword arguments stored and given (symbolic sequences and dictionaries); construction with concrete argument lists'

KINDS = ['POSITIONAL_ONLY', 'POSITIONAL_OR_KEYWORD', 'VAR_POSITIONAL', 'KEYWORD_ONLY', 'VAR_KEYWORD']
ARGS = TList(TS(Val), 'tuple')
KW = TDict(Val, TS(Val))
RESERVED = ('func', 'execution_id', 'self')


class Function:
    """An arbitrary function: any signature Python allows; what it returns depends on nothing we look at."""

    def __init__(self, E, name='function', pid='C14'):
        self.E, self.pid = E, pid
        self.n = E.fresh(I, name + '.params')
        self.name = E.fresh_fn([I], Val, name + '.param_name')
        self.kind = E.fresh_fn([I], Val, name + '.param_kind')
        self.default = E.fresh_fn([I], Val, name + '.param_default')
        P = self.P = lambda x: E.to_term(E.B.ext['inspect.Parameter.' + x], Val)
        n, nm, kd, df = self.n, self.name, self.kind, self.default
        rng = lambda i: z3.And(0 <= i, i < n)
        E.assume(n >= 0)
        E.assume(forall([I], lambda i: z3.Implies(rng(i), z3.Or([kd(i) == P(x) for x in KINDS]))))
        E.assume(z3.Distinct([P(x) for x in KINDS]))
        E.assume(forall([I, I], lambda i, j: z3.Implies(z3.And(rng(i), rng(j), i != j), nm(i) != nm(j))))
        # number of positional parameters without default among the first i
        self.C = E.fresh_fn([I], I, name + '.required')
        E.assume(self.C(z3.IntVal(0)) == 0)
        E.assume(forall([I], lambda i: z3.Implies(rng(i), self.C(i + 1) == self.C(i) + z3.If(self.required(i), z3.IntVal(1), z3.IntVal(0)))))
        induction(E, 'the number of required positional parameters is not negative', lambda i: self.C(i) >= 0, n)
        self.calls = []
        self.result = E.fresh(Val, 'result')
        self.val = AbstractFunc(name, self.called, self.signature)

    def required(self, i):
        P = self.P
        return z3.And(z3.Or(self.kind(i) == P('POSITIONAL_ONLY'), self.kind(i) == P('POSITIONAL_OR_KEYWORD')), self.default(i) == P('empty'))

    def named(self, i):
        return z3.Or(self.kind(i) == self.P('POSITIONAL_OR_KEYWORD'), self.kind(i) == self.P('KEYWORD_ONLY'))

    def exists(self, p, upto=None):
        return exists([I], lambda i: z3.And(0 <= i, i < (self.n if upto is None else upto), p(i)))

    def accepts(self, k, upto=None):
        return self.exists(lambda i: z3.And(self.named(i), self.name(i) == k), upto)

    def has(self, kind, upto=None):
        return self.exists(lambda i: self.kind(i) == self.P(kind), upto)

    def signature(self, E):
        K = BuiltinClass(type('Parameter', (), {}), 'Parameter')
        ref = E.fresh_fn([I], RefS, 'param')
        inv = E.fresh_fn([RefS], I, 'param_index')
        E.assume(forall([I], lambda i: inv(ref(i)) == i))
        old = E.hooks.get('ref_attr')

        def attr(E, v, name):
            if v.cls is K:
                i = z3.simplify(inv(v.t))
                if v.t.decl().eq(ref(z3.IntVal(0)).decl()):
                    i = v.t.arg(0)
                if name == 'kind':
                    return V(self.kind(i))
                if name == 'default':
                    return V(self.default(i))
                if name == 'name':
                    return V(self.name(i))
                raise Unsupported(f'Parameter.{name}')
            return old(E, v, name) if old else None
        E.hooks['ref_attr'] = attr
        mem = lambda i: z3.And(0 <= i, i < self.n)
        it = lambda f: lambda a, k: SymIter((I,), mem, f, ordered=True, length=self.n)
        ps = E.new_obj(BuiltinClass(type('Parameters', (), {}), 'Parameters'), dict(
            items=Builtin('items', it(lambda i: (V(self.name(i)), V(ref(i), K)))), values=Builtin('values', it(lambda i: V(ref(i), K))), keys=Builtin('keys', it(lambda i: V(self.name(i))))))
        E.hooks['iterate'] = lambda E, v: it(lambda i: V(self.name(i)))(None, None) if v is ps else None
        E.hooks['contains'] = lambda E, c, x: V(self.exists(lambda i: self.name(i) == E.to_term(x, Val))) if c is ps else None
        return E.new_obj(BuiltinClass(type('Signature', (), {}), 'Signature'), {'parameters': ps})

    def called(self, E, args, kwargs):
        self.calls.append((list(args), dict(kwargs)))
        return V(self.result)

    def pool(self, E, L):
        out = []
        if L.i is None:
            return out
        i = L.i
        for v, t in L.bools():
            for k in KINDS:
                out.append((f'{v}: seen {k}', t == self.has(k, i)))
        for v, t in L.ints():
            out.append((f'{v}: positional parameters without default so far', t == self.C(i)))
        for v, m in L.sets():
            out.append((f'{v}: names that can be given by keyword so far', forall([Val], lambda x: m(x) == self.accepts(x, i))))
        return out

    def pos_spec(self, E, ln, el):
        """(length, element) of the positional arguments that are passed on."""
        n = self.C(self.n)
        return z3.If(z3.Or(self.has('VAR_POSITIONAL'), ln <= n), ln, n), el

    def kw_spec(self, dom, val):
        return lambda k: z3.And(dom(k), z3.Or(self.has('VAR_KEYWORD'), self.accepts(k))), val


def seq_leaves(E, v):
    """(length, element) of a possibly symbolic argument list."""
    parts = []
    if isinstance(v, list) and len(v) == 1 and isinstance(v[0], SymStar):
        v = v[0].seq
    elif isinstance(v, list) and any(isinstance(x, SymStar) for x in v):
        acc = tuple(x for x in v if not isinstance(x, SymStar))
        for x in v:
            if isinstance(x, SymStar):
                acc = E.B.concat_seq(acc, x.seq)
        v = acc
    elif isinstance(v, list):
        v = tuple(v)
    lv = E.leaves_of(v, ARGS)
    return E.to_term(E.length(v), I), lv[('e',)]


def kw_leaves(E, kw):
    kw = dict(kw)
    s = kw.pop('**', None)
    d = E.new_cont('dict', [])
    if s is not None:
        d = E.new_sym('dict', KW, dict(E.leaves_of(s.view, KW)))
    for k, v in kw.items():
        E.setitem(d, k, v)
    lv = E.leaves_of(d, KW)
    return lv[('dom',)], lv[('v',)]


def same_args(E, what, got, want, gotk, wantk):
    ln, el = got
    wl, we = want
    E.prove(f'C14: {what}: the number of positional arguments', ln == wl)
    E.prove(f'C14: {what}: the positional arguments', forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < wl), el(i) == we(i))))
    dom, val = gotk
    wd, wv = wantk
    E.prove(f'C14: {what}: which keyword arguments', forall([Val], lambda k: dom(k) == wd(k)))
    E.prove(f'C14: {what}: the values of the keyword arguments', forall([Val], lambda k: z3.Implies(wd(k), val(k) == wv(k))))


def inputs(E, tag, reserved=()):
    a = E.new_root(ARGS, tag + '.args')
    k = E.new_root(KW, tag + '.kwargs')
    a.frozen = k.frozen = True
    E.assume(a.leaves[('len',)]() >= 0)
    for r in reserved:
        E.assume(z3.Not(k.leaves[('dom',)](E.to_term(r, Val))))
    return a, k


def prune(E):
    """prune_unused_args(f, args, kwargs) for any f, args, kwargs."""
    E.hooks.clear()
    pint_model(E)
    F = Function(E)
    E.inv_pool[:] = [F.pool]
    # another function with another signature was asked about before
    G = AbstractFunc('other', lambda E, a, k: None, [('x', 'POSITIONAL_OR_KEYWORD', False), ('y', 'POSITIONAL_OR_KEYWORD', True), ('z', 'KEYWORD_ONLY', True)])
    r = E.call(E.fn('utilities.prune_unused_args'), [G, (1, 2), E.new_cont('dict', [['z', 3], ['w', 4]])], {})
    args, kwargs = E.iterate(r)
    E.prove('C14: arguments of a function with a fixed signature', E.iterate(args) == [1] and [tuple(x) for x in E.norm(kwargs).items] == [('z', 3)])
    a, k = inputs(E, 'given')
    E.declare_cover('arguments are pruned')
    r = E.call(E.fn('utilities.prune_unused_args'), [F.val, E.view(a), E.view(k)], {})
    E.cover('arguments are pruned')
    args, kwargs = E.iterate(r)
    lv = E.leaves_of(kwargs, KW)
    same_args(E, 'prune_unused_args', seq_leaves(E, args), F.pos_spec(E, a.leaves[('len',)](), a.leaves[('e',)]),
              (lv[('dom',)], lv[('v',)]), F.kw_spec(k.leaves[('dom',)], k.leaves[('v',)]))
    E.prove('C14: prune_unused_args does not call the function', len(F.calls) == 0)


def c_prune(F):
    """Contract of prune_unused_args."""
    def h(E, f, a, k):
        a = dict(zip(('func', 'args', 'kwargs'), a), **k)
        G = F.get(id(a['func']))
        if G is None:
            return E.call_body(f, [], a)
        ln, el = seq_leaves(E, a['args']) if not isinstance(a['args'], type(None)) else (z3.IntVal(0), None)
        lv = E.leaves_of(a['kwargs'], KW) if a['kwargs'] is not None else None
        wl, we = G.pos_spec(E, ln, el)
        wd, wv = G.kw_spec(lv[('dom',)], lv[('v',)])
        n = E.fresh(I, 'passed')
        E.assume(n == wl)
        D = E.fresh_fn([Val], B, 'passed_kw')
        E.assume(forall([Val], lambda x: D(x) == wd(x)))
        return (E.new_sym('list', TList(TS(Val)), {('len',): lambda: n, ('e',): we}), E.new_sym('dict', KW, {('dom',): D, ('v',): wv}))
    return h


def evaluation(cls):
    def f(E):
        """Condition.is_satisfied for any function, any stored and given arguments."""
        E.hooks.clear()
        pint_model(E)
        F = Function(E)
        E.contracts['utilities.prune_unused_args'] = c_prune({id(F.val): F})
        sa, sk = inputs(E, 'stored', RESERVED)
        ea, ek = inputs(E, 'given', RESERVED)
        eid = E.fresh(Val, 'execution_id')
        given_ctx = cls != 'no context'
        c = E.call(E.cls('condition.' + ('WhileNot' if cls == 'WhileNot' else 'Condition')), [F.val], {})
        c.attrs['args'], c.attrs['kwargs'] = E.view(sa), E.view(sk)
        truthy = z3.Function('truthy', Val, B)
        E.hooks['val_truth'] = lambda E, v: E.branch(truthy(v.t))
        E.declare_cover('a condition is evaluated')
        kw = {'**': SymKw(E.view(ek))}
        if given_ctx:
            kw['execution_id'] = V(eid)
        r = E.call(E.getattr(c, 'is_satisfied'), [SymStar(E.view(ea))], kw)
        E.cover('a condition is evaluated')
        E.prove('C14: the function is called exactly once', len(F.calls) == 1)
        e = eid if given_ctx else E.to_term(None, Val)
        ls, es = sa.leaves[('len',)](), sa.leaves[('e',)]
        le, ee = ea.leaves[('len',)](), ea.leaves[('e',)]
        sd, sv, gd, gv = sk.leaves[('dom',)], sk.leaves[('v',)], ek.leaves[('dom',)], ek.leaves[('v',)]
        cx = E.to_term('execution_id', Val)
        dom = lambda k: z3.Or(sd(k), gd(k), k == cx)
        val = lambda k: z3.If(k == cx, e, z3.If(gd(k), gv(k), sv(k)))
        same_args(E, 'the call of the function', seq_leaves(E, F.calls[0][0]), F.pos_spec(E, ls + le, lambda i: z3.If(i < ls, es(i), ee(i - ls))),
                  kw_leaves(E, F.calls[0][1]), F.kw_spec(dom, val))
        if cls == 'WhileNot':
            t = E.truth(r)
            E.prove('C14: WhileNot is the negation of what the function returned', truthy(F.result) != t)
        else:
            E.prove('C14: the result is what the function returned', E.to_term(r, Val) == F.result)
        E.prove('C14: the stored arguments are the same objects', E.same_loc(c.attrs['args'], E.view(sa)) and E.same_loc(c.attrs['kwargs'], E.view(sk)))
    return f


def construct(E):
    """Condition(func, *args, **kwargs) keeps exactly these."""
    E.hooks.clear()
    pint_model(E)
    F = Function(E)
    na, nk = E.choose(4), E.choose(3)
    vs = [V(E.fresh(Val, f'arg{i}')) for i in range(na)]
    ks = {f'key{i}': V(E.fresh(Val, f'kw{i}')) for i in range(nk)}
    c = E.call(E.cls('condition.Condition'), [F.val] + vs, dict(ks))
    E.prove('C14: a condition keeps its function', c.attrs['func'] is F.val)
    a = E.iterate(c.attrs['args'])
    E.prove('C14: a condition keeps its positional arguments in order', isinstance(a, list) and len(a) == na and all(x.t.eq(y.t) for x, y in zip(a, vs)))
    d, v = kw_leaves(E, {})[0], None
    lv = E.leaves_of(c.attrs['kwargs'], KW)
    E.prove('C14: a condition keeps its keyword arguments', forall([Val], lambda k: lv[('dom',)](k) == z3.Or([k == E.to_term(x, Val) for x in ks] + [z3.BoolVal(False)])))
    for x, y in ks.items():
        E.prove('C14: a condition keeps the values of its keyword arguments', lv[('v',)](E.to_term(x, Val)) == y.t)
        E.prove('C14: keyword arguments are attributes of the condition', E.getattr(c, x).t.eq(y.t))
    E.prove('C14: construction does not call the function', len(F.calls) == 0)


TASKS = [('prune', prune), ('evaluate', evaluation('')), ('evaluate_no_context', evaluation('no context')), ('evaluate_WhileNot', evaluation('WhileNot')), ('construct', construct)]
