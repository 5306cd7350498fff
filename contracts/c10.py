"""C10: the history tree of a clock agrees with the tick history."""
from .common import *

LEVEL = 'proof'
NOTE = 'The representation invariant of the history tree is proved inductive over one arbitrary tick from an arbitrary tree, and queries are proved to read it correctly, so the claim holds for every tick sequence. Assumed: pint model as for C09; Python builtins as modelled by pyvc; copy.deepcopy of a Time copies its fields.'


def tree_types(E, life):
    TH = E.cls('time.TimeHistoryTree')
    ts = {n: tsm(E, n) for n in TSN}
    md = TConst(ts['ENVIRONMENT_STATE_UPDATE'])

    def tot(n):
        return TFix({t: TS(I) for t in E.TSs() if t.value < ts[n].value})
    esu = TObj(TH, dict(index=TS(I), time_scale=TConst(ts['ENVIRONMENT_STATE_UPDATE']), max_depth=md, parent=TParent(),
                        child_time_scale=TConst(ts['PASS']), children=TList(TPoison()), total_times=tot('ENVIRONMENT_STATE_UPDATE')), True)
    seq = TObj(TH, dict(index=TS(I), time_scale=TConst(ts['ENVIRONMENT_SEQUENCE']), max_depth=md, parent=TConst(life),
                        child_time_scale=TConst(ts['ENVIRONMENT_STATE_UPDATE']), children=TList(esu), total_times=tot('ENVIRONMENT_SEQUENCE')), True)
    return TList(seq)


class Tree:
    """An arbitrary clock satisfying the representation invariant."""
    def __init__(self, E, clock=None):
        self.E = E
        pint_model(E)
        E.hooks['unroll'] = lambda E, st, fr: True
        TH = E.cls('time.TimeHistoryTree')
        if clock is None:
            self.life = life = E.new_obj(TH)
            self.lv = E.view(E.new_root(tree_types(E, life), 'seqs'))
            self.now = sym_time(E, 'now')
            # the constructor is verified to establish this (task `new`)
            self.now.attrs['life'] = V(z3.IntVal(0))
            self.tot = {t: V(E.fresh(I, 'life.' + t.name)) for t in E.TSs() if t.name != 'LIFE'}
            kids = E.new_cont('list', v=self.lv)
            life.attrs.update(index=0, time_scale=tsm(E, 'LIFE'), max_depth=tsm(E, 'ENVIRONMENT_STATE_UPDATE'), parent=None,
                              child_time_scale=tsm(E, 'ENVIRONMENT_SEQUENCE'), children=kids,
                              total_times=E.new_cont('dict', [[t, v] for t, v in self.tot.items()]), current_time=self.now,
                              previous_time=E.pick([None, sym_time(E, 'prev')]) if False else None)
            self.clock = E.new_obj(E.cls('time.Clock'), dict(history=life))
            self.clock.attrs['simple_time'] = E.call(E.cls('time.SimpleTime'), [self.now])
            for n, f in self.inv():
                E.assume(f)
        else:
            self.clock = clock
            self.life = clock.attrs['history']
            c = E.getattr(self.life, 'children')
            if c.v is None:
                t = tree_types(E, self.life)
                r = E.mkroot(t, {}, 'seqs')
                r.leaves.update({p: E.junkf(o) for p, i, o in leafspecs(t)})
                lv = View(r, t)
                r.leaves[('len',)] = lambda: z3.IntVal(0)
                for x in c.items:
                    E.store((r, ('e',), (z3.IntVal(0),)), x, t.e)
                    r.leaves[('len',)] = lambda n=len(c.items): z3.IntVal(n)
                    # only one child is ever stored here
                    E.prove('new tree: one sequence', len(c.items) == 1)
                self.lv = lv
            else:
                self.lv = c.v
            self.now = E.getattr(self.life, 'current_time')

    # abstraction -----------------------------------------------------------------
    def nseq(self):
        return self.E.leaf_at(self.lv, 'len')

    def nesu(self, i):
        return self.E.leaf_at(self.lv, ('e', 'children', 'len'), i)

    def t_life(self, q):
        return self.E.to_term(self.E.getitem(self.E.getattr(self.life, 'total_times'), q), I)

    def t_seq(self, i, q):
        return self.E.leaf_at(self.lv, ('e', 'total_times', q), i)

    def t_esu(self, i, j, q):
        return self.E.leaf_at(self.lv, ('e', 'children', 'e', 'total_times', q), i, j)

    def inv(self):
        E = self.E
        ts = {n: tsm(E, n) for n in TSN}
        SEQ, ESU, PASS, CSE = (ts[n] for n in ('ENVIRONMENT_SEQUENCE', 'ENVIRONMENT_STATE_UPDATE', 'PASS', 'CONSIDERATION_SET_EXECUTION'))
        n = self.nseq()
        last = n - 1
        now = lambda t: E.to_term(self.now.attrs[attr_of(E, t)], I)
        inseq = lambda i: z3.And(0 <= i, i < n)
        yield 'there is a current sequence', n >= 1
        yield 'every sequence has an update', forall([I], lambda i: z3.Implies(inseq(i), self.nesu(i) >= 1))
        yield 'sequences are numbered', forall([I], lambda i: z3.Implies(inseq(i), E.leaf_at(self.lv, ('e', 'index'), i) == i))
        yield 'updates are numbered', forall([I, I], lambda i, j: z3.Implies(z3.And(inseq(i), 0 <= j, j < self.nesu(i)), E.leaf_at(self.lv, ('e', 'children', 'e', 'index'), i, j) == j))
        yield 'updates have no children', forall([I, I], lambda i, j: z3.Implies(z3.And(inseq(i), 0 <= j, j < self.nesu(i)), E.leaf_at(self.lv, ('e', 'children', 'e', 'children', 'len'), i, j) == 0))
        yield 'sequence ticks = number of sequences completed', self.t_life(SEQ) == n - 1
        yield 'update ticks = number of updates completed', forall([I], lambda i: z3.Implies(inseq(i), self.t_seq(i, ESU) == self.nesu(i) - 1))
        yield 'clock: sequence counter', now(SEQ) == self.t_life(SEQ)
        yield 'clock: update counter', now(ESU) == self.t_seq(last, ESU)
        yield 'clock: pass counter', now(PASS) == self.t_esu(last, self.nesu(last) - 1, PASS)
        yield 'clock: life counter', now(ts['LIFE']) == 0
        yield 'totals are not negative', z3.And(
            z3.And([self.t_life(t) >= 0 for t in (CSE, PASS, ESU, SEQ)]),
            forall([I], lambda i: z3.Implies(inseq(i), z3.And([self.t_seq(i, t) >= 0 for t in (CSE, PASS, ESU)]))),
            forall([I, I], lambda i, j: z3.Implies(z3.And(inseq(i), 0 <= j, j < self.nesu(i)), z3.And([self.t_esu(i, j, t) >= 0 for t in (CSE, PASS)]))))


def tick(E):
    """One tick: exactly the units the tick falls in gain one; a coarse tick opens a new unit with zero totals."""
    T = Tree(E)
    s = E.pick([t for t in E.TSs() if t.name != 'LIFE'])
    lv0 = E.leaves_of(T.lv, T.lv.typ)
    n0 = T.nseq()
    m0 = T.nesu(n0 - 1)
    life0 = {q: T.t_life(q) for q in T.tot}
    seq0 = {q: (lambda i, f=lv0[('e', 'total_times', q)]: f(i)) for q in T.tot if q.name != 'ENVIRONMENT_SEQUENCE'}
    esu0 = {q: (lambda i, j, f=lv0[('e', 'children', 'e', 'total_times', q)]: f(i, j)) for q in T.tot if q.value < 2}
    nesu0 = lv0[('e', 'children', 'len')]
    now0 = dict(T.now.attrs)
    E.declare_cover('tick returns')
    E.call(E.getattr(T.clock, '_increment_time'), [s])
    E.cover('tick returns')
    E.prove('the clock keeps its current time object', E.getattr(T.clock, 'time') is T.now)
    pv = E.getattr(T.clock, 'previous_time')
    E.prove('previous time is a separate object', isinstance(pv, Obj) and pv is not T.now)
    for a in now0:
        E.prove('previous time is the time before the tick', E.to_term(E.eq(pv.attrs.get(a), now0[a]), B) if not isinstance(now0[a], EnumMember) else pv.attrs.get(a) is now0[a])
    for n, f in T.inv():
        E.prove('invariant kept: ' + n, f)
    one = lambda c: z3.If(c, z3.IntVal(1), z3.IntVal(0))
    for q in T.tot:
        E.prove('life totals count the tick', T.t_life(q) == life0[q] + (1 if q is s else 0))
    i, j = E.fresh(I, 'i'), E.fresh(I, 'j')
    E.assume(z3.And(0 <= i, i < n0))
    opens_seq, opens_esu = s.name == 'ENVIRONMENT_SEQUENCE', s.name == 'ENVIRONMENT_STATE_UPDATE'
    E.prove('number of sequences', T.nseq() == n0 + (1 if opens_seq else 0))
    E.prove('number of updates in a sequence', T.nesu(i) == nesu0(i) + one(z3.And(i == n0 - 1, z3.BoolVal(opens_esu))))
    for q in seq0:
        E.prove('totals of a sequence change only for a tick within it', T.t_seq(i, q) == seq0[q](i) + one(z3.And(i == n0 - 1, z3.BoolVal(q is s))))
        if opens_seq:
            E.prove('a new sequence starts with zero totals', T.t_seq(n0, q) == 0)
    E.assume(z3.And(0 <= j, j < nesu0(i)))
    for q in esu0:
        E.prove('totals of an update change only for a tick within it', T.t_esu(i, j, q) == esu0[q](i, j) + one(z3.And(i == n0 - 1, j == m0 - 1, z3.BoolVal(q is s))))
        if opens_esu:
            E.prove('a new update starts with zero totals', T.t_esu(n0 - 1, m0, q) == 0)
        if opens_seq:
            E.prove('a new sequence starts with one empty update', z3.And(T.nesu(n0) == 1, T.t_esu(n0, z3.IntVal(0), q) == 0))
    # the current counters
    for t in E.TSs():
        old, new = now0[attr_of(E, t)], T.now.attrs[attr_of(E, t)]
        E.prove('the current time is advanced by the tick', E.to_term(new, I) == (E.to_term(old, I) + 1 if t is s else z3.IntVal(0) if t.value < s.value else E.to_term(old, I)))


def query(E):
    """Queries return the totals of the named unit, and are errors for units that do not exist."""
    T = Tree(E)
    full = E.choose(2)
    cls = T.clock
    q_ = E.pick(E.TSs())
    given = {}
    SEQ, ESU, LIFE, PASS = tsm(E, 'ENVIRONMENT_SEQUENCE'), tsm(E, 'ENVIRONMENT_STATE_UPDATE'), tsm(E, 'LIFE'), tsm(E, 'PASS')
    if full:
        for t in (SEQ, ESU):
            if E.choose(2):
                n = E.fresh(I, 'at_' + t.name)
                E.assume(n >= 0)
                given[t] = V(n)
        arg = E.new_cont('dict', [[k, v] for k, v in given.items()])
        items0 = [list(x) for x in arg.items]
        args = [q_, arg] if (given or E.choose(2)) else [q_]
        call = lambda: E.call(E.getattr(T.life, 'get_total_times_relative'), args)
        base = min([t for t in given if t.value > q_.value] + [LIFE], key=lambda t: t.value)
    else:
        base = E.pick([LIFE, SEQ, ESU, PASS])
        if base.value <= q_.value and q_ is not LIFE:
            return      # a base that is not coarser than the queried scale has no meaning
        if base is not LIFE and E.choose(2):
            n = E.fresh(I, 'at_' + base.name)
            E.assume(n >= 0)
            given[base] = V(n)
            args = [q_, base, given[base]]
        else:
            args = [q_, base]
        call = lambda: E.call(E.getattr(T.clock, 'get_total_times_relative'), args)
        arg = None
    n0 = T.nseq()
    i = given[SEQ].t if SEQ in given else n0 - 1
    j = given[ESU].t if ESU in given else T.nesu(i) - 1
    want, exists_ = None, None
    if q_ is LIFE or base is PASS:
        exists_ = z3.BoolVal(False)
    elif base is LIFE:
        want, exists_ = T.t_life(q_), z3.BoolVal(True)
    elif base is SEQ:
        want, exists_ = T.t_seq(i, q_), z3.And(0 <= i, i < n0)
    else:
        want, exists_ = T.t_esu(i, j, q_), z3.And(0 <= i, i < n0, 0 <= j, j < T.nesu(i))
    E.declare_cover('query answers')
    try:
        r = call()
    except PyRaise as e:
        E.prove('only missing units are refused', neg(exists_))
        E.prove('missing units are refused by a TimeScaleError', e.cname == 'TimeScaleError')
        return
    E.cover('query answers')
    E.prove('a missing unit or direction is an error', exists_)
    E.prove('the answer is the number of ticks recorded in the unit', E.to_term(r, I) == want)
    if arg is not None:
        E.prove('the query does not change its argument', [list(x) for x in arg.items] == items0)
    for n, f in T.inv():
        E.prove('invariant kept by a query: ' + n, f)


def read(E):
    T = Tree(E)
    for t in E.TSs():
        E.prove('get_time_by_time_scale reads the current time', E.eq(E.call(E.getattr(T.clock, 'get_time_by_time_scale'), [t]), T.now.attrs[attr_of(E, t)]))
    st = E.getattr(T.clock, 'simple_time')
    E.prove('simple_time follows the current time', E.eq(E.getattr(st, 'environment_sequence'), T.now.attrs['environment_sequence']))


def new(E):
    """A new clock satisfies the invariant and has no ticks."""
    pint_model(E)
    E.hooks['unroll'] = lambda E, st, fr: True
    clock = E.call(E.cls('time.Clock'), [])
    T = Tree(E, clock)
    for n, f in T.inv():
        E.prove('new clock: ' + n, f)
    ts = [t for t in E.TSs() if t.name != 'LIFE']
    for q in ts:
        E.prove('new clock: no ticks in life', T.t_life(q) == 0)
        if q.value < 3:
            E.prove('new clock: no ticks in sequence', T.t_seq(z3.IntVal(0), q) == 0)
        if q.value < 2:
            E.prove('new clock: no ticks in update', T.t_esu(z3.IntVal(0), z3.IntVal(0), q) == 0)
    for t in E.TSs():
        E.prove('new clock: time zero', E.to_term(T.now.attrs[attr_of(E, t)], I) == 0)
    E.prove('new clock: no previous time', E.getattr(clock, 'previous_time') is None)
    E.prove('new clock: simple time views its time', E.getattr(clock, 'simple_time').attrs['_time_ref'] is T.now)


TASKS = [('new', new), ('tick', tick), ('query', query), ('read', read)]
