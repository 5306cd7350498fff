"""Evaluation of conditions against an arbitrary scheduler state."""
from .common import *


class World:
    """A scheduler with arbitrary counts, histories and clocks in every context; evaluation must not change any of it."""

    def __init__(self, E):
        self.E = E
        pint_model(E)
        E.hooks['unroll'] = lambda E, st, fr: True
        ts = self.ts = E.TSs()
        s = self.s = E.new_obj(E.cls('scheduler.Scheduler'))
        N = self.N = z3.Function('node', Val, B)
        cnt = TDict(Val, TS(I))
        self.roots = {}
        types = dict(counts_total=TDict(Val, TFix({t: cnt for t in ts})), counts_useable=TDict(Val, TDict(Val, cnt)), execution_list=TDict(Val, TList(TSet(Val))),
                     execution_timestamps=TDict(Val, TList(TS(Val))))
        for n, t in types.items():
            r = self.roots[n] = E.new_root(t, n)
            r.frozen = True
            s.attrs[n] = E.view(r)
        self.nodes = E.new_root(TList(TS(Val)), 'nodes')
        self.nodes.frozen = True
        ln, el = self.nodes.leaves[('len',)], self.nodes.leaves[('e',)]
        pos = z3.Function('pos', Val, I)
        E.assume(ln() >= 0)
        E.assume(forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < ln()), z3.And(N(el(i)), pos(el(i)) == i))))
        E.assume(forall([Val], lambda n: z3.Implies(N(n), z3.And(0 <= pos(n), pos(n) < ln(), el(pos(n)) == n))))
        self.eid = E.fresh(Val, 'execution_id')
        s.attrs.update(nodes=E.view(self.nodes), default_execution_id=V(E.fresh(Val, 'default_execution_id')))
        self.facts()
        # clocks: the contract of C10
        self.el, self.absf, self.absi = z3.Function('elapsed', Val, I, I, I), z3.Function('absolute', Val, R), z3.Function('absolute_interval', Val, R)
        self.clk = E.cls('time.Clock')
        E.contracts['scheduler.Scheduler.get_clock'] = self.c_clock
        E.contracts['time.Clock.get_total_times_relative'] = self.c_total
        E.contracts['time.Clock.time'] = lambda E, f, a, k: a[0].attrs['_time']
        self.clocks = []
        self.known = {}

    def facts(self):
        """The context exists, with counts for every node."""
        E, e, N = self.E, self.eid, self.N
        for n, r in self.roots.items():
            E.assume(r.leaves[('dom',)](e))
        for t in self.ts:
            d = self.roots['counts_total'].leaves[('v', t, 'dom')]
            E.assume(forall([Val], lambda n, d=d: d(e, n) == N(n)))
        d1, d2 = self.roots['counts_useable'].leaves[('v', 'dom')], self.roots['counts_useable'].leaves[('v', 'v', 'dom')]
        E.assume(forall([Val], lambda n: d1(e, n) == N(n)))
        E.assume(forall([Val, Val], lambda n, m: z3.Implies(z3.And(N(n)), d2(e, n, m) == N(m))))
        f = self.roots['execution_list'].leaves[('v', 'len')]
        E.assume(f(e) >= 0)

    def later(self):
        """Anything may have happened in any context since."""
        E = self.E
        self.eid = E.fresh(Val, 'execution_id2')
        for n, r in self.roots.items():
            r.leaves = dict(E.new_root(r.typ, n + '2').leaves)
        self.facts()
        self.el, self.absf, self.absi = z3.Function('elapsed2', Val, I, I, I), z3.Function('absolute2', Val, R), z3.Function('absolute_interval2', Val, R)
        for o, e in self.clocks:
            self.set_time(o.attrs['_time'], e)

    def elapsed(self, unit, within, eid=None):
        t = self.el(self.eid if eid is None else eid, z3.IntVal(unit.value), z3.IntVal(within.value))
        if not t.get_id() in self.known:
            self.known[t.get_id()] = t
            self.E.assume(t >= 0)
        return t

    def set_time(self, tm, e):
        ts = self.ts
        par = {t: next((p for p in ts if p.value == t.value + 1), None) for t in ts}
        for t in ts:
            tm.attrs[attr_of(self.E, t)] = V(self.elapsed(t, par[t], e)) if par[t] is not None else 0
        tm.attrs.update(absolute=q(self.absf(e)), absolute_interval=q(self.absi(e)))

    def c_clock(self, E, f, a, k):
        x = k.get('execution_id', a[1] if len(a) > 1 else None)
        if x is None:
            raise Unsupported('get_clock without a context')
        e = E.to_term(x, Val)
        for o, t in self.clocks:
            if t.eq(e):
                return o
        M = {t.name: t for t in self.ts}
        tm = E.new_obj(E.cls('time.Time'))
        self.set_time(tm, e)
        tm.attrs.update(absolute_enabled=V(z3.Function('absolute_enabled', Val, B)(e)), absolute_time_unit_scale=M['CONSIDERATION_SET_EXECUTION'])
        o = E.new_obj(self.clk, dict(_time=tm, _ctx=V(e)))
        self.clocks.append((o, e))
        return o

    def c_total(self, E, f, a, k):
        k = dict(zip(('self', 'query_time_scale', 'base_time_scale', 'base_index'), a), **k)
        if 'base_index' in k and k['base_index'] is not None:
            raise Unsupported('query of an earlier unit')
        u, w = k['query_time_scale'], k['base_time_scale']
        if not (isinstance(u, EnumMember) and isinstance(w, EnumMember)):
            raise Unsupported('time scale of a query')
        if u.value >= w.value:
            raise Unsupported('query outside its domain')
        return V(self.el(k['self'].attrs['_ctx'].t, z3.IntVal(u.value), z3.IntVal(w.value)))

    def sat(self, c, **kw):
        """Value of c.is_satisfied as a Bool term."""
        E = self.E
        args = dict(scheduler=self.s, execution_id=V(self.eid), **kw)
        r = E.call(E.getattr(c, 'is_satisfied'), [], args)
        t = E.truth(r)
        return t if not isinstance(t, bool) else z3.BoolVal(t)

    def exactly(self, pid, name, c, want, **kw):
        """c is satisfied exactly when want(), whatever was evaluated before."""
        E = self.E
        E.declare_cover(f'{name} is evaluated')
        rec = C.Recorder(E.uidc)
        E.recorders.append(rec)
        try:
            t = self.sat(c, **kw)
        finally:
            E.recorders.pop()
        E.cover(f'{name} is evaluated')
        E.prove(f'{pid}: {name} is satisfied exactly as documented', t == want())
        if rec.writes or rec.hostw or any(fu <= rec.uid for fu, _ in rec.lw):
            # the condition remembers something: it must not matter later
            E.assumptions.add(f'{name} keeps state between evaluations: two evaluations in a row were considered')
            self.later()
            E.prove(f'{pid}: {name} is satisfied exactly as documented when evaluated again later', self.sat(c, **kw) == want())

    def no_scheduler(self, pid, name, c):
        """Evaluating without a scheduler is a condition error."""
        E = self.E
        kw = [{}, dict(scheduler=None)][E.choose(2)]
        try:
            E.call(E.getattr(c, 'is_satisfied'), [], dict(execution_id=V(self.eid), **kw))
        except PyRaise as e:
            E.prove(f'{pid}: {name} evaluated without a scheduler is a condition error', e.cname == 'ConditionError')
            return
        E.prove(f'{pid}: {name} evaluated without a scheduler is a condition error', False)


def every_n_calls(pid):
    def f(E):
        E.hooks.clear()
        W = World(E)
        d, o, n = (E.fresh(s, x) for s, x in ((Val, 'dependency'), (Val, 'owner'), (I, 'n')))
        E.assume(z3.And(W.N(d), W.N(o)))
        c = E.call(E.cls('condition.EveryNCalls'), [V(d), V(n)], {})
        c.attrs['_owner'] = V(o)
        if E.choose(2):
            W.no_scheduler(pid, 'EveryNCalls', c)
            return
        W.exactly(pid, 'EveryNCalls', c, lambda: W.roots['counts_useable'].leaves[('v', 'v', 'v')](W.eid, d, o) >= n)
    return f
