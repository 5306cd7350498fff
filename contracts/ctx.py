"""The per-context state of a scheduler: creation, copying, deletion."""
from .common import *

NAMES = ['counts_total', 'counts_useable', 'execution_list', 'execution_timestamps', 'clocks']


class Ctx:
    """A scheduler with arbitrarily many contexts. Clocks are opaque states (their content is the subject of C09 and C10)."""

    def __init__(self, E):
        self.E = E
        pint_model(E)
        E.hooks['unroll'] = lambda E, st, fr: True
        E.hooks['shallow'] = lambda E, v: E.new_sym(E.ckind(v), v.typ, E.leaves_of(v, v.typ), 'copy')
        E.hooks['alias'] = self.alias
        E.hooks['val_attr'] = self.val_attr
        ts = E.TSs()
        s = self.s = E.new_obj(E.cls('scheduler.Scheduler'))
        N = self.N = z3.Function('node', Val, B)
        nodes = E.new_root(TList(TS(Val)), 'nodes')
        ln, el = nodes.leaves[('len',)], nodes.leaves[('e',)]
        pos = z3.Function('pos', Val, I)
        E.assume(ln() >= 0)
        E.assume(forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < ln()), z3.And(N(el(i)), pos(el(i)) == i))))
        E.assume(forall([Val], lambda n: z3.Implies(N(n), z3.And(0 <= pos(n), pos(n) < ln(), el(pos(n)) == n))))
        nodes.frozen = True
        cnt = TDict(Val, TS(I))
        clk = TObj(E.cls('time.Clock'), dict(state=TS(Val)))
        self.fresh_clock = z3.Const('state of a new clock', Val)
        E.contracts['time.Clock.__init__'] = lambda E, f, a, k: a[0].attrs.__setitem__('state', V(self.fresh_clock))
        self.roots = {}
        types = dict(counts_total=TDict(Val, TFix({t: cnt for t in ts})), counts_useable=TDict(Val, TDict(Val, cnt)),
                     execution_list=TDict(Val, TList(TSet(Val))), execution_timestamps=TDict(Val, TList(TS(Val))), clocks=TDict(Val, clk))
        for name in NAMES:
            r = self.roots[name] = E.new_root(types[name], name)
            s.attrs[name] = E.view(r)
        s.attrs.update(nodes=E.view(nodes), default_execution_id=V(E.fresh(Val, 'default_execution_id')))
        for name in ('execution_list', 'execution_timestamps'):
            f = self.roots[name].leaves[('v', 'len')]
            E.assume(forall([Val], lambda e, f=f: f(e) >= 0))
        for n, f in self.inv():
            E.assume(f)
        self.old = {n: dict(r.leaves) for n, r in self.roots.items()}

    def val_attr(self, E, v, name):
        if v.t.sort() == Val:
            E.raise_('AttributeError', name)
        raise Unsupported(f'attribute {name} of a value')

    def alias(self, E, v, dest):
        E.prove('C08: contexts do not share mutable state', False)

    def inv(self):
        """Representation invariant of the context structures."""
        N = self.N
        dom = {n: r.leaves[('dom',)] for n, r in self.roots.items()}
        for n in NAMES[1:4]:
            yield f'the same contexts have {n} and counts', forall([Val], lambda e, n=n: dom['counts_total'](e) == dom[n](e))
        yield 'every context has a clock', forall([Val], lambda e: z3.Implies(dom['counts_total'](e), dom['clocks'](e)))
        for t in self.E.TSs():
            d = self.roots['counts_total'].leaves[('v', t, 'dom')]
            yield f'every node has a count ({t.name})', forall([Val, Val], lambda e, n, d=d: z3.Implies(dom['counts_total'](e), d(e, n) == N(n)))
        d1, d2 = self.roots['counts_useable'].leaves[('v', 'dom')], self.roots['counts_useable'].leaves[('v', 'v', 'dom')]
        yield 'every node has useable counts', forall([Val, Val], lambda e, n: z3.Implies(dom['counts_useable'](e), d1(e, n) == N(n)))
        yield 'every pair of nodes has a useable count', forall([Val, Val, Val], lambda e, n, m: z3.Implies(z3.And(dom['counts_useable'](e), N(n)), d2(e, n, m) == N(m)))

    def prove_inv(self, pid):
        for n, f in self.inv():
            self.E.prove(f'{pid}: {n}', f)

    def unchanged_except(self, pid, eid):
        E = self.E
        for name, r in self.roots.items():
            for p, i, o in leafspecs(r.typ):
                f, g = self.old[name][p], r.leaves[p]
                if f is g:
                    continue
                E.prove(f'{pid}: the {name} of other contexts are unchanged', forall(i, lambda e, *x: z3.Implies(e != eid, f(e, *x) == g(e, *x))) if eid is not None else forall(i, lambda e, *x: f(e, *x) == g(e, *x)))

    def empty(self, name, e):
        E, N, L = self.E, self.N, self.roots[name].leaves
        if name == 'counts_total':
            return conj([forall([Val], lambda n, t=t: z3.Implies(N(n), L[('v', t, 'v')](e, n) == 0)) for t in E.TSs()])
        if name == 'counts_useable':
            return forall([Val, Val], lambda n, m: z3.Implies(z3.And(N(n), N(m)), L[('v', 'v', 'v')](e, n, m) == 0))
        if name == 'clocks':
            return L[('v', 'state')](e) == self.fresh_clock
        return L[('v', 'len')](e) == 0

    def equal(self, name, e, b):
        """The state of context e is now the former state of context b."""
        E, N, L, O = self.E, self.N, self.roots[name].leaves, self.old[name]
        if name == 'counts_total':
            return conj([forall([Val], lambda n, t=t: z3.Implies(N(n), L[('v', t, 'v')](e, n) == O[('v', t, 'v')](b, n))) for t in E.TSs()])
        if name == 'counts_useable':
            return forall([Val, Val], lambda n, m: z3.Implies(z3.And(N(n), N(m)), L[('v', 'v', 'v')](e, n, m) == O[('v', 'v', 'v')](b, n, m)))
        if name == 'clocks':
            return L[('v', 'state')](e) == O[('v', 'state')](b)
        fs = [L[('v', 'len')](e) == O[('v', 'len')](b)]
        for p, i, o in leafspecs(self.roots[name].typ.v):
            if p != ('len',):
                f, g = L[('v',) + p], O[('v',) + p]
                fs.append(forall(i, lambda *x: z3.Implies(z3.And(0 <= x[0], x[0] < O[('v', 'len')](b)), f(e, *x) == g(b, *x))))
        return conj(fs)

    def same(self, name, e):
        L, O = self.roots[name].leaves, self.old[name]
        return conj([forall(i[1:], lambda *x, f=L[p], g=O[p]: f(e, *x) == g(e, *x)) for p, i, o in leafspecs(self.roots[name].typ) if L[p] is not O[p]])


def new_context(based):
    def f(E):
        E.hooks.clear()
        C = Ctx(E)
        eid = E.fresh(Val, 'execution_id')
        base = E.fresh(Val, 'base') if based else None
        if based:
            E.assume(base != E.to_term(NOTIMPL, Val))
        E.declare_cover('a context is created')
        kw = dict(base_execution_id=V(base)) if based else {}
        try:
            E.call_body(E.fn('scheduler.Scheduler._init_counts'), [C.s, V(eid)], kw)
        except PyRaise as e:
            ok = based and e.cname == 'SchedulerError'
            E.prove('C08: a context is refused only because its base context does not exist', neg(C.old['counts_total'][('dom',)](base)) if ok else False)
            E.prove('C08: a context is refused only when it does not exist yet', neg(C.old['counts_total'][('dom',)](eid)))
            C.unchanged_except('C08', None)
            return
        E.cover('a context is created')
        C.unchanged_except('C08', eid)
        C.prove_inv('C08')
        for name in NAMES:
            had = C.old[name][('dom',)](eid)
            E.prove(f'C08: the context has {name}', C.roots[name].leaves[('dom',)](eid))
            E.prove(f'C08: existing {name} of the context are kept', z3.Implies(had, C.same(name, eid)))
            if based:
                E.prove(f'C08: a context started from a base context has the {name} of the base', z3.Implies(neg(had), C.equal(name, eid, base)))
            else:
                E.prove(f'C08: a context without a base starts with empty {name}', z3.Implies(neg(had), C.empty(name, eid)))
    return f


def clock_of(E):
    E.hooks.clear()
    C = Ctx(E)
    eid = E.fresh(Val, 'execution_id')
    named = E.choose(2)
    E.assume(eid != E.to_term(NOTIMPL, Val))
    if not named:
        eid = C.s.attrs['default_execution_id'].t
    E.declare_cover('a clock is returned')
    r = E.norm(E.call_body(E.fn('scheduler.Scheduler.get_clock'), [C.s] + ([V(eid)] if named else []), {}))
    E.cover('a clock is returned')
    E.prove('C08: get_clock returns the clock of the context', isinstance(r, View) and r.root is C.roots['clocks'] and r.prefix == ('v',) and len(r.idx) == 1)
    E.prove('C08: get_clock returns the clock of the context', eqt(r.idx[0], eid))
    C.unchanged_except('C08', eid)
    had = C.old['clocks'][('dom',)](eid)
    for name in NAMES[:4]:
        E.prove(f'C08: reading a clock does not change the {name} of its context', C.same(name, eid))
    E.prove('C08: an existing clock is kept', z3.Implies(had, C.same('clocks', eid)))
    E.prove('C08: a new clock starts empty', z3.Implies(neg(had), C.empty('clocks', eid)))


def delete(E):
    E.hooks.clear()
    C = Ctx(E)
    eid = E.fresh(Val, 'execution_id')
    E.call_body(E.fn('scheduler.Scheduler._delete_counts'), [C.s, V(eid)], {})
    C.unchanged_except('C08', eid)
    C.prove_inv('C08')
    for name in NAMES:
        E.prove(f'C08: a deleted context has no {name}', neg(C.roots[name].leaves[('dom',)](eid)))


def resets(pid):
    def f(E):
        E.hooks.clear()
        C = Ctx(E)
        eid = E.fresh(Val, 'execution_id')
        E.assume(C.roots['counts_total'].leaves[('dom',)](eid))
        scale = E.pick(E.TSs())
        E.call_body(E.fn('scheduler.Scheduler._reset_counts_total'), [C.s, scale, V(eid)], {})
        C.unchanged_except(pid, eid)
        C.prove_inv(pid)
        L, O = C.roots['counts_total'].leaves, C.old['counts_total']
        for t in E.TSs():
            f, g = L[('v', t, 'v')], O[('v', t, 'v')]
            if t.value <= scale.value:
                E.prove(f'{pid}: a reset zeroes the counts of the scale and finer scales', forall([Val], lambda n: z3.Implies(C.N(n), f(eid, n) == 0)))
            else:
                E.prove(f'{pid}: a reset leaves the counts of coarser scales alone', forall([Val], lambda n: f(eid, n) == g(eid, n)))
        for name in NAMES[1:]:
            E.prove(f'{pid}: a reset of counts changes nothing else', C.same(name, eid))
    return f


def reset_useable(pid):
    def f(E):
        E.hooks.clear()
        C = Ctx(E)
        eid = E.fresh(Val, 'execution_id')
        E.assume(C.roots['counts_useable'].leaves[('dom',)](eid))
        E.call_body(E.fn('scheduler.Scheduler._reset_counts_useable'), [C.s, V(eid)], {})
        C.unchanged_except(pid, eid)
        C.prove_inv(pid)
        E.prove(f'{pid}: a run starts with zero useable counts', C.empty('counts_useable', eid))
        for name in NAMES:
            if name != 'counts_useable':
                E.prove(f'{pid}: a reset of useable counts changes nothing else', C.same(name, eid))
    return f


def counts_start(pid, based):
    """A new context starts with zero counts, or those of its base."""
    def f(E):
        E.hooks.clear()
        C = Ctx(E)
        eid = E.fresh(Val, 'execution_id')
        base = E.fresh(Val, 'base')
        E.assume(base != E.to_term(NOTIMPL, Val))
        E.assume(C.old['counts_total'][('dom',)](base))
        E.call_body(E.fn('scheduler.Scheduler._init_counts'), [C.s, V(eid)], dict(base_execution_id=V(base)) if based else {})
        had = C.old['counts_total'][('dom',)](eid)
        E.prove(f'{pid}: existing counts are kept', z3.Implies(had, C.same('counts_total', eid)))
        E.prove(f'{pid}: a new context starts with {"the counts of its base" if based else "zero counts"}', z3.Implies(neg(had), C.equal('counts_total', eid, base) if based else C.empty('counts_total', eid)))
        C.unchanged_except(pid, eid)
    return f


TASKS = [('context/without base', new_context(0)), ('context/with base', new_context(1)), ('context/clock', clock_of), ('context/delete', delete),
         ('context/reset', resets('C08')), ('context/reset useable', reset_useable('C08'))]
