"""Ghost monitor over Scheduler.run: the events of a run (condition evaluations, yields, clock ticks, writes) against its specification."""
from .common import *

GB = ['open', 'anyY', 'began', 'chkE', 'chkS', 'satT', 'passY', 'emptied']


class Run:
    """One symbolic run. `parts` selects which ghosts and obligations are active: A structure, B counts, C useable, D history, F frame."""

    def __init__(self, E, parts, only, named, given, based):
        self.E, self.parts, self.only, self.named, self.given, self.based = E, parts, only, named, given, based
        E.cand_quick = True
        pint_model(E)
        E.hooks['unroll'] = lambda E, st, fr: False
        self.state()
        self.contracts()
        E.inv_pool[:] = [self.pool]

    # ---- obligations of other properties are neither proved nor used
    def prove(self, pid, name, f):
        if self.only is None or pid in self.only:
            self.E.prove(f'{pid}: {name}', f)

    # ------------------------------------------------------------ state
    def state(self):
        E = self.E
        ts = E.TSs()
        self.ESU, self.ES, self.PASS, self.CSE = (tsm(E, n) for n in ('ENVIRONMENT_STATE_UPDATE', 'ENVIRONMENT_SEQUENCE', 'PASS', 'CONSIDERATION_SET_EXECUTION'))
        s = self.s = E.new_obj(E.cls('scheduler.Scheduler'))
        # nodes and layers (the layering itself is the subject of C01's own tasks)
        N = z3.Function('node', Val, B)
        lay = z3.Function('layer', Val, I)
        pos = z3.Function('pos', Val, I)
        rep = z3.Function('rep', I, Val)
        self.N, self.lay, self.rep = N, lay, rep
        nodes = E.new_root(TList(TS(Val)), 'nodes')
        ln, el = nodes.leaves[('len',)], nodes.leaves[('e',)]
        E.assume(ln() >= 0)
        E.assume(forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < ln()), z3.And(N(el(i)), pos(el(i)) == i))))
        E.assume(forall([Val], lambda n: z3.Implies(N(n), z3.And(0 <= pos(n), pos(n) < ln(), el(pos(n)) == n))))
        nodes.frozen = True
        lq = self.lq = E.fresh(I, 'len_queue')
        Q = E.new_root(TList(TSet(Val)), 'consideration_queue', leaves={('len',): lambda: lq, ('e', 'mem'): lambda i, n: z3.And(N(n), lay(n) == i)})
        Q.frozen = True
        E.assume(lq >= 0)
        E.assume(forall([Val], lambda n: z3.Implies(N(n), z3.And(0 <= lay(n), lay(n) < lq))))
        E.assume(forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < lq), z3.And(N(rep(i)), lay(rep(i)) == i))))
        self.Q = E.view(Q)
        # per-context state
        cnt = TDict(Val, TS(I))
        self.timet = TObj(E.cls('time.Time'), time_fields(E))
        clk = TObj(E.cls('time.Clock'), dict(history=TObj(E.cls('time.TimeHistoryTree'), dict(current_time=self.timet, previous_time=TPoison())), simple_time=TPoison()))
        self.roots = {}
        for name, typ in (('counts_total', TDict(Val, TFix({t: cnt for t in ts}))), ('counts_useable', TDict(Val, TDict(Val, cnt))),
                          ('execution_list', TDict(Val, TList(TSet(Val)))), ('execution_timestamps', TDict(Val, TList(self.timet))),
                          ('clocks', TDict(Val, clk))):
            r = E.new_root(typ, name)
            self.roots[name] = r
            s.attrs[name] = E.view(r)
        for name in ('execution_list', 'execution_timestamps'):
            f = self.roots[name].leaves[('v', 'len')]
            E.assume(forall([Val], lambda e, f=f: f(e) >= 0))
        self.basic = E.new_root(TDict(Val, TS(RefS, E.cls('condition.Condition'))), 'conditions_basic')
        self.basic.frozen = True
        self.condfn = self.basic.leaves[('v',)](z3.Const('x', Val)).decl()
        cs = E.new_obj(E.cls('condition.ConditionSet'), dict(conditions_basic=E.view(self.basic)))
        self.dei = E.fresh(Val, 'default_execution_id')
        s.attrs.update(conditions=cs, nodes=E.view(nodes), default_execution_id=V(self.dei), date_last_run_end=None, date_creation=None)
        self.eid = E.fresh(Val, 'execution_id') if self.named else self.dei
        E.assume(self.eid != E.to_term(NOTIMPL, Val))
        self.own = {t: E.fresh(RefS, 'own_' + t.name) for t in (self.ESU, self.ES)}
        self.merged = {t: E.fresh(RefS, 'merged_' + t.name) for t in (self.ESU, self.ES)} if self.given else None
        self.term = self.merged or self.own
        s.attrs['_termination_conds'] = self.own_dict = self.terms(self.own)
        s.attrs['default_termination_conds'] = self.default_dict = self.terms({t: E.fresh(RefS, 'default_' + t.name) for t in self.own})
        self.skip = E.fresh(B, 'skip')
        absd = E.new_root(TDict(Val, TS(RefS, E.cls('condition.Condition'))), 'absolute_conditions')
        absd.frozen = True
        self.absd = E.view(absd)
        self.abs = exists([Val], lambda n: absd.leaves[('dom',)](n))
        absb = E.fresh(B, 'absolute_mode')
        E.assume(absb == self.abs)
        self.abs = absb
        self.quiet = self.validated = False
        # ghosts
        F = {b: TS(B) for b in GB}
        F.update(cur=TS(I), cse=TS(I), esuT=TS(I), inited=TS(B), S=TSet(Val), F=TSet(Val), Ev=TSet(Val))
        if 'B' in self.parts:
            F['cnt'] = TFix({t: TDict(Val, TS(I)) for t in ts})
        if 'C' in self.parts:
            F['use'] = TDict(Val, TDict(Val, TS(I)))
        if 'D' in self.parts:
            F['H'] = TList(TSet(Val))
            F['T'] = TList(self.timet)
        self.g = E.new_root(TObj(None, F), 'ghost')
        self.g.ghost = True
        for b in GB + ['inited']:
            self.put(b, z3.BoolVal(False))
        self.put('cur', z3.IntVal(-1))
        self.put('cse', z3.IntVal(0))
        self.put('esuT', z3.IntVal(0))
        for k in ('S', 'F', 'Ev'):
            self.setset(k, lambda n: z3.BoolVal(False))

    def get(self, f):
        return self.g.leaves[(f,)]()

    def put(self, f, t):
        self.E.write_leaf(self.g, (f,), (), lambda: t)

    def mem(self, f):
        return self.g.leaves[(f, 'mem')]

    def setset(self, f, fn):
        self.E.write_leaf(self.g, (f, 'mem'), (), fn)

    # ------------------------------------------------------------ contracts of the callees and events
    def contracts(self):
        E, K, H = self.E, self.E.contracts, self.E.hooks
        K['scheduler.Scheduler.consideration_queue'] = lambda E, f, a, k: self.Q
        K['scheduler.Scheduler._validate_run_state'] = self.c_validate
        K['scheduler.Scheduler._init_counts'] = self.c_init
        K['scheduler.Scheduler.get_absolute_conditions'] = self.c_absolute
        K['scheduler.Scheduler._get_absolute_consideration_set_execution_unit'] = self.c_step
        K['condition._quantity_as_integer'] = self.c_qint
        K['scheduler.Scheduler._combine_termination_conditions'] = self.c_combine
        K['scheduler.Scheduler.termination_conds'] = self.c_own
        K['time.Clock._increment_time'] = self.c_tick
        E.B.ext['datetime.datetime.now'] = Builtin('now', lambda a, k: Opaque('now'))
        H['ref_attr2'] = self.ref_attr
        H['val_attr'] = self.val_attr
        H['obj_attr'] = self.obj_attr
        H['if_convert'] = lambda E, v: v.cls is QCLS
        H['yield'] = self.on_yield
        H['write'] = self.on_write
        E.assumptions.add('conditions and the consumer of a run do not themselves modify the scheduler in the running context; between yields other contexts may change arbitrarily')
        E.assumptions.add('context ids have no attribute default_execution_id (the delegation of get_clock to another object is not specified)')
        E.assumptions.add('additional keyword arguments of a run are represented by one arbitrary argument')

    def terms(self, refs):
        E = self.E
        return E.new_cont('dict', [[k, V(v, E.cls('condition.Condition'))] for k, v in refs.items()])

    def is_terms(self, d, refs):
        d = self.E.norm(d)
        return isinstance(d, Cont) and d.items is not None and {k: str(v.t) for k, v in d.items} == {k: str(v) for k, v in refs.items()}

    def c_own(self, E, f, a, k):
        if len(a) + len(k) > 1:
            self.prove('C24', 'a run does not change the termination conditions of the scheduler', False)
            raise Unsupported('a run assigns termination conditions')
        return self.own_dict

    def c_combine(self, E, f, a, k):
        d = E.norm((list(a[1:]) + list(k.values()))[0])
        self.prove('C24', 'the termination conditions given to the run are merged', self.given and d is self.given_dict)
        return self.terms(self.merged)

    def c_terms(self, what, a, k):
        x = k.get('termination_conds', a[1] if len(a) > 1 else None)
        if x is None:
            ok = not self.given
        else:
            ok = self.is_terms(x, self.term)
        self.prove('C24', f'{what} is that of the termination conditions of the run', ok)

    def c_absolute(self, E, f, a, k):
        self.c_terms('absolute-time mode', a, k)
        return self.absd

    def c_step(self, E, f, a, k):
        self.c_terms('the absolute step', a, k)
        r = E.fresh(R, 'step')
        E.assume(r > 0)     # (C22)
        self.step = r
        return q(r)

    def c_validate(self, E, f, a, k):
        self.validated = True
        dom = self.basic.leaves[('dom',)]
        E.assume(forall([Val], lambda n: z3.Implies(self.N(n), dom(n))))
        return None

    def c_init(self, E, f, a, k):
        k = dict(zip(('execution_id', 'base_execution_id'), a[1:]), **k)
        eid = E.to_term(k['execution_id'], Val)
        self.prove('C15', 'conditions are validated when a run starts', self.validated)
        self.prove('C08', 'state is initialised for the context of the run', eid == self.eid)
        self.prove('C08', 'state is initialised from the base context of the run', E.eq(k.get('base_execution_id', NOTIMPL), self.base) if not (k.get('base_execution_id', NOTIMPL) is NOTIMPL and self.base is NOTIMPL) else True)
        E.event('init')
        self.quiet = True
        # every structure has an entry for the context; an entry that existed is unchanged
        for name, r in self.roots.items():
            had = r.leaves[('dom',)](self.eid)
            for p, i, o in leafspecs(r.typ):
                if p[0] == 'v':
                    fn = E.fresh_fn(i[1:], o, 'init')
                    E.write_leaf(r, p, (self.eid,), lambda *x, old=r.leaves[p], fn=fn, had=had: ite(had, old(self.eid, *x), fn(*x)))
                    if p[-1] == 'len':
                        E.assume(fn() >= 0)
            E.write_leaf(r, ('dom',), (self.eid,), lambda: z3.BoolVal(True))
        N, e = self.N, self.eid
        ct, cu = self.roots['counts_total'], self.roots['counts_useable']
        for t in E.TSs():
            d = ct.leaves[('v', t, 'dom')]
            E.assume(forall([Val], lambda n, d=d: d(e, n) == N(n)))
        d = cu.leaves[('v', 'dom')]
        E.assume(forall([Val], lambda n: d(e, n) == N(n)))
        d2 = cu.leaves[('v', 'v', 'dom')]
        E.assume(forall([Val, Val], lambda n, m: z3.Implies(N(n), d2(e, n, m) == N(m))))
        self.put('inited', z3.BoolVal(True))
        self.quiet = False
        self.start_ghosts()
        return None

    def c_qint(self, E, f, a, k):
        if E.choose(2):
            E.raise_('ValueError', 'not an integer')
        return a[0]

    def start_ghosts(self):
        E, e = self.E, self.eid
        if 'G' in self.parts:
            self.before = self.roots['clocks'].leaves[('v', 'history', 'current_time', 'absolute')](e)
        if 'B' in self.parts:
            for t in E.TSs():
                c = self.roots['counts_total'].leaves[('v', t, 'v')]
                if t.value >= self.ES.value:
                    E.write_leaf(self.g, ('cnt', t, 'v'), (), lambda n, c=c: c(e, n))
                else:
                    E.write_leaf(self.g, ('cnt', t, 'v'), (), lambda n: z3.IntVal(0))
        if 'C' in self.parts:
            E.write_leaf(self.g, ('use', 'v', 'v'), (), lambda a, b: z3.IntVal(0))
        if 'D' in self.parts:
            for gname, rname in (('H', 'execution_list'), ('T', 'execution_timestamps')):
                r = self.roots[rname]
                for p, i, o in leafspecs(self.g.typ.fields[gname]):
                    f = r.leaves[('v',) + p]
                    E.write_leaf(self.g, (gname,) + p, (), lambda *x, f=f: f(e, *x))

    def val_attr(self, E, v, name):
        if v.t.sort() == Val:
            E.raise_('AttributeError', name)
        raise Unsupported(f'attribute {name} of a value')

    def ref_attr(self, E, v, name):
        c = E.class_lookup(v.cls, name) if isinstance(v.cls, ClassVal) else None
        if v.t.sort() == RefS and name == 'is_satisfied':
            return AbstractFunc('is_satisfied', lambda E, a, k: self.on_eval(v, a, k))
        if v.t.sort() == RefS and name in ('absolute_fixed_points', 'absolute_intervals'):
            ln, el = z3.Function(name + '.len', RefS, I), z3.Function(name + '.e', RefS, I, R)
            r = E.new_root(TList(TS(R, QCLS)), name, leaves={('len',): lambda: ln(v.t), ('e',): lambda i: el(v.t, i)})
            r.frozen = True
            E.assume(forall([RefS], lambda c: ln(c) >= 0))
            return E.view(r)
        if v.t.sort() == RefS and name == 'absolute_first_point':
            return q(z3.Function('absolute_first_point', RefS, R)(v.t))
        return None

    def obj_attr(self, E, o, name):
        if o is self.s and name == 'mode':
            o.attrs['mode'] = E.pick(list(E.cls('scheduler.SchedulingMode').members.values()))
            return o.attrs['mode']

    def on_write(self, E, root, prefix, idx):
        if self.quiet or getattr(E, 'havocking', False) or root.ghost:
            return
        for name, r in self.roots.items():
            if r is root:
                ok = bool(idx) and eqt(idx[0], self.eid)
                self.prove('C08', 'a run changes only the state of its own context', ok if not isinstance(ok, bool) else z3.BoolVal(ok))
                self.prove('C08', 'a run changes its context only after it is initialised', self.get('inited'))

    def check_kwargs(self, pid, what, a, k):
        E = self.E
        want = dict(scheduler=self.s, execution_id=V(self.eid), **self.extra)
        self.prove(pid, f'{what} is evaluated with the scheduler, context and keyword arguments of the run', not a and set(k) == set(want))
        for n in want:
            if n in k:
                self.prove(pid, f'{what} is evaluated with the scheduler, context and keyword arguments of the run',
                           k[n] is want[n] if n == 'scheduler' else E.to_term(E.eq(k[n], want[n]), B))

    def close(self):
        """The consideration of a layer ends without a yield."""
        E, N, lay = self.E, self.N, self.lay
        if 'A' not in self.parts:
            return
        op, cur, S, F = self.get('open'), self.get('cur'), self.mem('S'), self.mem('F')
        self.prove('C02', 'satisfied nodes are yielded', forall([Val], lambda n: neg(S(n))))
        self.prove('C02', 'a node left out was evaluated unsatisfied after the last execution of the set',
                   z3.Implies(op, forall([Val], lambda n: z3.Implies(z3.And(N(n), lay(n) == cur), z3.Or(S(n), F(n))))))
        self.prove('C06', 'with absolute-time conditions every considered layer yields a set', neg(z3.And(self.abs, op)))
        self.put('open', z3.BoolVal(False))

    def on_eval(self, v, a, k):
        E = self.E
        if 'G' in self.parts:
            return self.on_start()
        E.event('is_satisfied')
        t = v.t
        for ts, r in self.term.items():
            if t.eq(r):
                return self.on_term(ts, a, k)
        if self.given and any(t.eq(r) for r in self.own.values()):
            self.prove('C24', 'a run is ended by the termination conditions given to it', False)
        if z3.is_app(t) and t.decl().eq(self.condfn):
            return self.on_node(t.arg(0), a, k)
        raise Unsupported(f'evaluation of an unknown condition {t}')

    def on_term(self, ts, a, k):
        E = self.E
        r = E.fresh(B, 'term')
        self.prove('C24', 'a run is ended by the conditions of its termination conditions', True)
        if 'A' not in self.parts:
            return V(r)
        self.check_kwargs('C05', 'a termination condition', a, k)
        self.close()
        r = E.branch(r)
        if r:
            self.put('chkE', z3.BoolVal(False))
            self.put('chkS', z3.BoolVal(False))
            self.put('satT', z3.BoolVal(True))
        else:
            self.put('chkE' if ts is self.ESU else 'chkS', z3.BoolVal(True))
            both = z3.And(self.get('chkE'), self.get('chkS'))
            self.put('began', z3.simplify(z3.Or(self.get('began'), both)))
            self.put('satT', z3.simplify(z3.And(self.get('satT'), z3.Not(both))))
        return r

    def on_node(self, n, a, k):
        E, N, lay = self.E, self.N, self.lay
        r = E.fresh(B, 'sat')
        self.prove('C15', 'conditions are validated before nodes are considered', self.validated)
        self.counts_agree('a node condition is evaluated')
        if 'A' in self.parts:
            self.check_kwargs('C02', 'a node condition', a, k)
            op, cur = self.get('open'), self.get('cur')
            S, F, Ev = self.mem('S'), self.mem('F'), self.mem('Ev')
            self.prove('C05', 'no layer is considered unless both termination conditions were just evaluated unsatisfied', z3.Or(op, z3.And(self.get('chkE'), self.get('chkS'))))
            self.prove('C01', 'the nodes of one consideration belong to one layer', z3.Implies(op, lay(n) == cur))
            self.prove('C01', 'layers strictly increase within a pass', z3.Or(op, lay(n) > cur))
            self.prove('C06', 'an empty set ends its pass', neg(self.get('emptied')))
            self.prove('C02', 'a satisfied node is not evaluated again in the same execution set', neg(S(n)))
            self.prove('C02', 'only nodes of the graph are considered', N(n))
            self.put('cur', ite(op, cur, lay(n)))
            self.put('open', z3.BoolVal(True))
            self.put('chkE', z3.BoolVal(False))
            self.put('chkS', z3.BoolVal(False))
            self.put('satT', z3.BoolVal(False))
            self.setset('Ev', lambda m: z3.Or(Ev(m), m == n))
        if E.branch(r):
            if 'A' in self.parts:
                self.setset('S', lambda m: z3.Or(S(m), m == n))
                self.setset('F', lambda m: z3.BoolVal(False))
            self.executed(n)
            return True
        if 'A' in self.parts:
            self.setset('F', lambda m: z3.Or(m == n, z3.And(op, F(m))))
        return False

    def executed(self, n):
        E = self.E
        if 'B' in self.parts:
            for t in E.TSs():
                c = self.g.leaves[('cnt', t, 'v')]
                E.write_leaf(self.g, ('cnt', t, 'v'), (n,), lambda c=c: c(n) + 1)
        if 'C' in self.parts:
            u = self.g.leaves[('use', 'v', 'v')]
            E.write_leaf(self.g, ('use', 'v', 'v'), (), lambda a, b: ite(b == n, z3.IntVal(0), ite(a == n, u(a, b) + 1, u(a, b))))

    def counts_agree(self, when):
        E, e = self.E, self.eid
        if 'B' in self.parts:
            for t in E.TSs():
                if t.value >= self.PASS.value:
                    c, g = self.roots['counts_total'].leaves[('v', t, 'v')], self.g.leaves[('cnt', t, 'v')]
                    self.prove('C03', f'whenever {when}, the {t.name} counts are the executions of the unit', forall([Val], lambda n: z3.Implies(self.N(n), c(e, n) == g(n))))
        if 'C' in self.parts:
            c, g = self.roots['counts_useable'].leaves[('v', 'v', 'v')], self.g.leaves[('use', 'v', 'v')]
            self.prove('C04', f'whenever {when}, useable counts are the executions since the consumer last executed',
                       forall([Val, Val], lambda a, b: z3.Implies(z3.And(self.N(a), self.N(b), a != b), c(e, a, b) == g(a, b))))

    def list_agree(self, gname, rname, pid, what):
        e = self.eid
        r = self.roots[rname]
        n = self.g.leaves[(gname, 'len')]()
        self.prove(pid, what, r.leaves[('v', 'len')](e) == n)
        for p, i, o in leafspecs(self.g.typ.fields[gname]):
            if p == ('len',):
                continue
            f, g = r.leaves[('v',) + p], self.g.leaves[(gname,) + p]
            self.prove(pid, what, forall(i, lambda *x: z3.Implies(z3.And(0 <= x[0], x[0] < n), f(e, *x) == g(*x))))

    def hint(self):
        """Instances of the fact that layers are not empty, for the indices in scope."""
        for n, v in self.E.visible_locals():
            if isinstance(v, V) and v.t.sort() == I:
                r = self.rep(v.t)
                self.E.assume(z3.Implies(z3.And(0 <= v.t, v.t < self.lq), z3.And(self.N(r), self.lay(r) == v.t)))

    def on_yield(self, E, v):
        E.event('yield')
        if 'A' in self.parts:
            self.hint()
        N, lay = self.N, self.lay
        if E.ckind(v) != 'set':
            for pid in ('C01', 'C02', 'C06', 'C07'):
                self.prove(pid, 'sets are yielded', False)
        vm = E.set_mem(v, Val)
        self.counts_agree('an execution set is yielded')
        if 'D' in self.parts:
            n = self.g.leaves[('H', 'len')]()
            E.write_leaf(self.g, ('H', 'e', 'mem'), (n,), vm)
            E.write_leaf(self.g, ('H', 'len'), (), lambda n=n: n + 1)
            self.list_agree('H', 'execution_list', 'C07', 'at a yield the execution list is the list before the run followed by the sets yielded')
            if E.branch(self.abs):
                n = self.g.leaves[('T', 'len')]()
                clk = self.roots['clocks']
                for p, i, o in leafspecs(self.timet):
                    E.write_leaf(self.g, ('T', 'e') + p, (n,), lambda f=clk.leaves[('v', 'history', 'current_time') + p]: f(self.eid))
                E.write_leaf(self.g, ('T', 'len'), (), lambda n=n: n + 1)
                self.list_agree('T', 'execution_timestamps', 'C07', 'each yielded set has one timestamp, the time of its yield, and earlier ones do not change')
        if 'A' in self.parts:
            op, cur, S, F, Ev = self.get('open'), self.get('cur'), self.mem('S'), self.mem('F'), self.mem('Ev')
            self.prove('C02', 'the yielded set is the set of nodes evaluated satisfied', forall([Val], lambda n: vm(n) == S(n)))
            self.prove('C02', 'a node left out was evaluated unsatisfied after the last execution of the set',
                       z3.Implies(op, forall([Val], lambda n: z3.Implies(z3.And(N(n), lay(n) == cur), z3.Or(S(n), F(n))))))
            self.prove('C01', 'a yielded set lies within one layer', forall([Val], lambda n: z3.Implies(vm(n), z3.And(N(n), lay(n) == cur))))
            self.prove('C06', 'with absolute-time conditions one set is yielded per considered layer', z3.Implies(self.abs, op))
            self.prove('C06', 'one consideration set execution tick lies between two yields', self.get('cse') == z3.If(self.get('anyY'), z3.IntVal(1), z3.IntVal(0)))
            ne = exists([Val], lambda n: S(n))
            if not E.branch(ne):
                if not E.branch(self.abs):
                    self.prove('C06', 'an empty set is yielded only once, for a pass in which nothing executed', neg(self.get('passY')))
                    self.prove('C06', 'an empty set is yielded only at the end of a pass', z3.Or(self.get('satT'), forall([Val], lambda n: z3.Implies(N(n), Ev(n)))))
                    self.put('emptied', z3.BoolVal(True))
            self.put('passY', z3.BoolVal(True))
            self.put('anyY', z3.BoolVal(True))
            self.put('cse', z3.IntVal(0))
            self.put('open', z3.BoolVal(False))
            self.setset('S', lambda n: z3.BoolVal(False))
        # the consumer may run other contexts before it resumes this run
        self.quiet = True
        for name, r in self.roots.items():
            for p, i, o in leafspecs(r.typ):
                f, h = r.leaves[p], E.fresh_fn(i, o, 'other')
                E.write_leaf(r, p, (), lambda x, *z, f=f, h=h: ite(eqt(x, self.eid), f(x, *z), h(x, *z)))
        self.quiet = False
        return None

    def c_tick(self, E, f, a, k):
        k = dict(zip(('self', 'time_scale'), a), **k)
        E.event('tick')
        c, ts = E.norm(k['self']), k['time_scale']
        if not (isinstance(c, View) and c.root is self.roots['clocks'] and c.prefix == ('v',)):
            self.prove('C06', 'the clock of the running context is advanced', False)
            raise Unsupported('another clock is advanced')
        self.prove('C06', 'the clock of the running context is advanced', eqt(c.idx[0], self.eid))
        self.prove('C08', 'a run advances only the clock of its own context', eqt(c.idx[0], self.eid))
        r = c.root
        pre = c.prefix + ('history', 'current_time')
        for t in E.TSs():
            p = pre + (attr_of(E, t),)
            old = r.leaves[p](*c.idx)
            if t is ts:
                E.write_leaf(r, p, c.idx, lambda old=old: old + 1)
            elif t.value < ts.value:
                E.write_leaf(r, p, c.idx, lambda: z3.IntVal(0))
        x = E.fresh(R, 'absolute')
        E.write_leaf(r, pre + ('absolute',), c.idx, lambda: x)
        if 'B' in self.parts and ts is self.PASS:
            E.write_leaf(self.g, ('cnt', self.PASS, 'v'), (), lambda n: z3.IntVal(0))
        if 'A' not in self.parts:
            return None
        one = self.get('cse') == z3.If(self.get('anyY'), z3.IntVal(1), z3.IntVal(0))
        if ts is self.CSE:
            self.prove('C06', 'each consideration set execution tick follows its own yield', z3.And(self.get('anyY'), self.get('cse') == 0))
            self.put('cse', z3.IntVal(1))
        elif ts is self.PASS:
            self.close()
            Ev, N = self.mem('Ev'), self.N
            self.prove('C06', 'a pass tick ends a pass', self.get('began'))
            self.prove('C06', 'the clock has ticked for the last set when the pass ends', one)
            self.prove('C02', 'a pass that is not cut short considers every node', z3.Or(self.get('satT'), forall([Val], lambda n: z3.Implies(N(n), Ev(n)))))
            self.prove('C06', 'a pass in which nothing executed yields an empty set', z3.Or(self.abs, self.get('passY')))
            self.put('cur', z3.IntVal(-1))
            for b in ('began', 'passY', 'emptied', 'chkE', 'chkS'):
                self.put(b, z3.BoolVal(False))
            self.setset('Ev', lambda n: z3.BoolVal(False))
        elif ts is self.ESU:
            self.close()
            self.prove('C06', 'the update tick is given at the end of a run unless told not to', z3.And(neg(self.skip), self.get('esuT') == 0, neg(self.get('began')), self.get('satT'), one))
            self.put('esuT', z3.IntVal(1))
        else:
            self.prove('C06', 'a run ticks only consideration set executions, passes and one environment state update', False)
        return None

    # ------------------------------------------------------------ candidate invariants
    def pool(self, E, L):
        out = []
        e, N, lay = self.eid, self.N, self.lay

        def c(name, f):
            out.append((name, f))
        ct, cu = self.roots['counts_total'], self.roots['counts_useable']
        for name, r in self.roots.items():
            c(f'{name} has the context', lambda r=r: r.leaves[('dom',)](e))
        for t in E.TSs():
            d = ct.leaves[('v', t, 'dom')]
            c(f'counts {t.name} dom', lambda d=d: forall([Val], lambda n, d=d: d(e, n) == N(n)))
        d = cu.leaves[('v', 'dom')]
        c('useable dom', lambda d=d: forall([Val], lambda n: d(e, n) == N(n)))
        d2 = cu.leaves[('v', 'v', 'dom')]
        c('useable dom2', lambda d2=d2: forall([Val, Val], lambda n, m: z3.Implies(N(n), d2(e, n, m) == N(m))))
        c('inited', lambda: self.get('inited'))
        for name in ('execution_list', 'execution_timestamps'):
            c(f'{name} length', lambda name=name: self.roots[name].leaves[('v', 'len')](e) >= 0)
        ints, sets = L.ints(), L.sets()
        params = {x.arg for x in E.fn('scheduler.Scheduler.run').node.args.args}
        bools = [(n, t) for n, t in L.bools() if n.split('.', 1)[1] not in params]
        for n, i in ints:
            c(f'{n}>=0', lambda i=i: i >= 0)
            c(f'{n}<=queue', lambda i=i: i <= self.lq)
            c(f'{n}<queue', lambda i=i: i < self.lq)
        for n, i in bools:
            c(f'{n}=abs', lambda i=i: i == self.abs)
        for n, m in sets:
            for k, i in ints:
                c(f'{n} in layer {k}', lambda m=m, i=i: forall([Val], lambda x, m=m, i=i: z3.Implies(m(x), z3.And(N(x), lay(x) == i))))
        if 'B' in self.parts:
            for t in E.TSs():
                f, g = ct.leaves[('v', t, 'v')], self.g.leaves[('cnt', t, 'v')]
                c(f'no executions {t.name}', lambda g=g: forall([Val], lambda n, g=g: g(n) == 0))
                c(f'counts {t.name}', lambda f=f, g=g: forall([Val], lambda n, f=f, g=g: z3.Implies(N(n), f(e, n) == g(n))))
        if 'C' in self.parts:
            f, g = cu.leaves[('v', 'v', 'v')], self.g.leaves[('use', 'v', 'v')]
            c('useable', lambda f=f, g=g: forall([Val, Val], lambda a, b: z3.Implies(z3.And(N(a), N(b), a != b), f(e, a, b) == g(a, b))))
        if 'D' in self.parts:
            for gname, rname in (('H', 'execution_list'), ('T', 'execution_timestamps')):
                r = self.roots[rname]
                n = self.g.leaves[(gname, 'len')]()
                c(f'{gname} len', lambda n=n, r=r: r.leaves[('v', 'len')](e) == n)
                c(f'{gname} len>=0', lambda n=n: n >= 0)
                for p, i, o in leafspecs(self.g.typ.fields[gname]):
                    if p != ('len',):
                        f, g = r.leaves[('v',) + p], self.g.leaves[(gname,) + p]
                        c(f'{gname} {p}', lambda n=n, i=i, f=f, g=g: forall(i, lambda *x, f=f, g=g, n=n: z3.Implies(z3.And(0 <= x[0], x[0] < n), f(e, *x) == g(*x))))
        if 'A' in self.parts:
            self.pool_a(E, L, c, ints, sets, bools)
        return out

    def pool_a(self, E, L, c, ints, sets, bools):
        N, lay = self.N, self.lay
        G = {b: self.get(b) for b in GB}
        cur, S, F, Ev = self.get('cur'), self.mem('S'), self.mem('F'), self.mem('Ev')
        lits = [(b, t) for b, t in G.items()]
        for b, t in lits:
            c(b, t)
            c('not ' + b, lambda t=t: neg(t))
        allb = lits + [(n, t) for n, t in bools]
        for x, (a, s) in enumerate(allb):
            for b, t in allb[x + 1:]:
                c(f'{a} -> {b}', lambda t=t, s=s: z3.Implies(s, t))
                c(f'{b} -> {a}', lambda t=t, s=s: z3.Implies(t, s))
                c(f'{a} -> not {b}', lambda t=t, s=s: z3.Implies(s, neg(t)))
                c(f'{a} or {b}', lambda t=t, s=s: z3.Or(s, t))
        c('cse', lambda: self.get('cse') == z3.If(G['anyY'], z3.IntVal(1), z3.IntVal(0)))
        c('esuT', lambda: self.get('esuT') == 0)
        c('cur<0', lambda: cur < 0)
        op = G['open']
        for n, i in ints:
            c(f'cur<{n}', lambda i=i: cur < i)
            c(f'open -> cur={n}', lambda i=i: z3.Implies(op, cur == i))
            c(f'closed -> cur<{n}', lambda i=i: z3.Or(op, cur < i))
            c(f'layers below {n} evaluated', lambda i=i: forall([Val], lambda x, i=i: z3.Implies(z3.And(N(x), lay(x) < i), Ev(x))))
        c('S empty', lambda: forall([Val], lambda x: neg(S(x))))
        c('S in layer', lambda: forall([Val], lambda x: z3.Implies(S(x), z3.And(N(x), lay(x) == cur))))
        c('S -> open', lambda: forall([Val], lambda x: z3.Implies(S(x), op)))
        c('S in Ev', lambda: forall([Val], lambda x: z3.Implies(S(x), Ev(x))))
        c('open -> layer decided', lambda: z3.Implies(op, forall([Val], lambda x: z3.Implies(z3.And(N(x), lay(x) == cur), z3.Or(S(x), F(x))))))
        c('closed or S empty and not abs', lambda: z3.Implies(op, z3.And(forall([Val], lambda x: neg(S(x))), neg(self.abs))))
        c('open -> not abs', lambda: z3.Implies(op, neg(self.abs)))
        for n, m in sets:
            c(f'{n}=S', lambda m=m: forall([Val], lambda x, m=m: m(x) == S(x)))
        for n, t in bools:
            c(f'S -> {n}', lambda t=t: forall([Val], lambda x, t=t: z3.Implies(S(x), t)))
            for g in ('passY', 'anyY'):
                c(f'{n} -> {g} or S', lambda t=t, g=g: z3.Implies(t, z3.Or(G[g], exists([Val], lambda x: S(x)))))
                c(f'{n} <- {g}', lambda t=t, g=g: z3.Implies(G[g], t))
                c(f'{n} or abs <- {g}', lambda t=t, g=g: z3.Implies(z3.And(G[g], neg(self.abs)), t))
            c(f'not {n} -> layer decided', lambda t=t: z3.Or(t, z3.Implies(op, forall([Val], lambda x: z3.Implies(z3.And(N(x), lay(x) == cur), z3.Or(S(x), F(x)))))))
        if L.visited is not None and L.it is not None and list(L.it.sorts) == [Val]:
            vis = L.visited
            c('visited -> open', lambda: forall([Val], lambda x: z3.Implies(vis(x), op)))
            c('visited in Ev', lambda: forall([Val], lambda x: z3.Implies(vis(x), Ev(x))))
            c('visited decided', lambda: forall([Val], lambda x: z3.Implies(vis(x), z3.Or(S(x), F(x)))))
            for n, t in bools:
                c(f'not {n} -> visited decided', lambda t=t: z3.Or(t, forall([Val], lambda x: z3.Implies(vis(x), z3.Or(S(x), F(x))))))

    def on_start(self):
        """The first evaluation of a run: its time is set."""
        E, e = self.E, self.eid
        E.cover('a run starts')
        if E.branch(self.abs):
            t = self.roots['clocks'].leaves[('v', 'history', 'current_time', 'absolute')](e)
            exact = getattr(E.getattr(self.s, 'mode'), 'name', None) == 'EXACT_TIME'
            step = getattr(self, 'step', None)
            self.prove('C22', 'the step of a run with absolute conditions is computed', step is not None)
            i = self.roots['clocks'].leaves[('v', 'history', 'current_time', 'absolute_interval')](e)
            self.prove('C22', 'the clock advances by the step', i == step)
            self.prove('C22', 'time does not go back when a run starts', t >= self.before)
            c = E.fresh(Val, 'owner')
            d = E.norm(self.absd).root
            E.assume(d.leaves[('dom',)](c))
            fp = z3.Function('absolute_first_point', RefS, R)(d.leaves[('v',)](c))
            later = z3.If(fp > self.before, fp, self.before)
            if exact:
                self.prove('C22', 'an exact time run starts before the next step after the first point of each condition', t < later + step)
                self.prove('C22', 'an exact time run starts at a multiple of its step', z3.IsInt(t / step))
            else:
                self.prove('C22', 'a run starts no later than the first point of each condition', t <= later)
        raise C.PathEnd()

    # ------------------------------------------------------------ the run
    def go(self):
        E = self.E
        kw = {}
        self.extra = {'anything': V(E.fresh(Val, 'extra'))}
        args = [self.s]
        # the context is named or the scheduler's default
        if self.named:
            kw['execution_id'] = V(self.eid)
        self.base = NOTIMPL
        if self.based:
            self.base = V(E.fresh(Val, 'base'))
            E.assume(self.base.t != E.to_term(NOTIMPL, Val))
            kw['base_execution_id'] = self.base
        kw['skip_environment_state_update_time_increment'] = V(self.skip)
        if self.given:
            kw['termination_conds'] = self.given_dict = E.new_cont('dict', [])
        E.declare_cover('a run starts' if 'G' in self.parts else 'a run can finish')
        r = E.call_body(E.fn('scheduler.Scheduler.run'), args, {**kw, **self.extra})
        E.cover('a run can finish')
        self.finish(r)

    def finish(self, r):
        E = self.E
        s = self.s
        self.prove('C24', 'a run does not change the termination conditions of the scheduler',
                   s.attrs['_termination_conds'] is self.own_dict and self.is_terms(self.own_dict, self.own) and s.attrs['default_termination_conds'] is self.default_dict)
        self.prove('C24', 'a run does not change the dictionary it is given', not self.given or self.given_dict.items == [])
        if 'A' in self.parts:
            self.close()
            self.prove('C05', 'a run ends only because a termination condition was satisfied', self.get('satT'))
            self.prove('C06', 'a finished run has added one environment state update tick unless told not to', self.get('esuT') == z3.If(self.skip, z3.IntVal(0), z3.IntVal(1)))
            self.prove('C06', 'every pass has ended with its tick', neg(self.get('began')))
            self.prove('C06', 'the clock has ticked for every set', self.get('cse') == z3.If(self.get('anyY'), z3.IntVal(1), z3.IntVal(0)))
        if 'D' in self.parts:
            self.list_agree('H', 'execution_list', 'C07', 'when a run returns the execution list is the list before the run followed by the sets yielded')
            if E.branch(self.abs):
                self.list_agree('T', 'execution_timestamps', 'C07', 'when a run returns every yielded set has its timestamp')
        self.counts_agree('a run returns') if False else None


def tasks(parts, *only):
    def one(named, given, based):
        def f(E):
            E.hooks.clear()
            Run(E, parts, set(only) or None, named, given, based).go()
        return f
    return [(f'run/{parts}/{"named" if n else "default"} context/{"given" if g else "own"} termination/{"with" if b else "no"} base', one(n, g, b)) for n in (0, 1) for g in (0, 1) for b in (0, 1)]


TASKS = [t for p in 'ABCDF' for t in tasks(p)]
