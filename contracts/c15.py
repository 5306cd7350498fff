"""C15: nodes without a basic condition get one that follows all of their senders."""
from .conds import *
from . import runs

LEVEL = 'proof'
LIMIT = 300
NOTE = 'every graph, node list and partial assignment of conditions (symbolic, loop invariants inferred); the meaning of the conditions used as defaults is their contract (C04 for EveryNCalls, C13 for All), re-proved here; the last sentence is a lemma over the contracts of a run (C01, C02, C04)'
CON = 'condition.Condition'


class Defaults:
    """Conditions as terms. sat(c, owner): whether c is satisfied for that owner in an arbitrary state with useable counts u."""

    def __init__(self, E):
        self.E = E
        pint_model(E)
        E.hooks['unroll'] = lambda E, st, fr: False
        self.cls = E.cls(CON)
        self.sat = z3.Function('satisfied_for', RefS, Val, B)
        self.u = z3.Function('useable', Val, Val, I)
        self.every = z3.Function('EveryNCalls', Val, I, RefS)
        self.kind = z3.Function('kind', RefS, I)
        E.assume(forall([Val, I, Val], lambda d, n, o: self.sat(self.every(d, n), o) == (self.u(d, o) >= n)))
        E.assume(forall([Val, Val], lambda d, o: self.u(d, o) >= 0))
        K = E.contracts
        K['condition.EveryNCalls'] = self.c_every
        K['condition.Always'] = lambda E, c, a, k: self.const(True)
        K['condition.Never'] = lambda E, c, a, k: self.const(False)
        K['condition.All'] = K['condition.And'] = lambda E, c, a, k: self.comp(a, k, forall, z3.Implies)
        K['condition.Any'] = K['condition.Or'] = lambda E, c, a, k: self.comp(a, k, exists, z3.And)

    def const(self, b):
        c = self.E.fresh(RefS, 'always' if b else 'never')
        self.E.assume(forall([Val], lambda o: self.sat(c, o) == b))
        return V(c, self.cls)

    def c_every(self, E, c, a, k):
        k = dict(zip(('dependency', 'n'), a), **k)
        if set(k) != {'dependency', 'n'} or len(a) > 2:
            E.raise_('TypeError', 'EveryNCalls')
        return V(self.every(E.to_term(k['dependency'], Val), E.to_term(k['n'], I)), self.cls)

    def comp(self, a, k, quant, join):
        E = self.E
        if k:
            raise Unsupported('named components')
        acc = []
        c = E.fresh(RefS, 'composite')
        for x in a:
            if isinstance(x, SymStar) and isinstance(x.seq, SymIter):
                acc.append(lambda o, it=x.seq: quant(it.sorts, lambda *i: join(it.mem(*i), self.sat(E.to_term(it.val(*i), RefS), o))))
            elif isinstance(x, SymStar):
                lv = E.leaves_of(x.seq, TList(TS(RefS, self.cls)))
                n, e = E.to_term(E.length(x.seq), I), lv[('e',)]
                acc.append(lambda o, n=n, e=e: quant([I], lambda i: join(z3.And(0 <= i, i < n), self.sat(e(i), o))))
            else:
                t = E.to_term(x, RefS)
                acc.append(lambda o, t=t: self.sat(t, o))
        E.assume(forall([Val], lambda o: self.sat(c, o) == (z3.And if quant is forall else z3.Or)(*[f(o) for f in acc], z3.BoolVal(quant is forall))))
        return V(c, self.cls)


def defaults(E):
    E.hooks.clear()
    D = Defaults(E)
    s = E.new_obj(E.cls('scheduler.Scheduler'))
    g = E.view(E.new_root(TDict(Val, TSet(Val)), 'graph'))
    g.root.frozen = True
    dom, mem = g.root.leaves[('dom',)], g.root.leaves[('v', 'mem')]
    nodes = E.new_root(TList(TS(Val)), 'nodes')
    nodes.frozen = True
    ln, el = nodes.leaves[('len',)](), nodes.leaves[('e',)]
    N, pos = z3.Function('node', Val, B), z3.Function('pos', Val, I)
    E.assume(ln >= 0)
    E.assume(forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < ln), z3.And(N(el(i)), pos(el(i)) == i))))
    E.assume(forall([Val], lambda n: z3.Implies(N(n), z3.And(0 <= pos(n), pos(n) < ln, el(pos(n)) == n))))
    E.assume(forall([Val], lambda n: z3.Implies(N(n), dom(n))))
    basic = E.new_root(TDict(Val, TS(RefS, D.cls)), 'conditions_basic')
    od, ov = basic.leaves[('dom',)], basic.leaves[('v',)]
    structural = E.new_root(TDict(Val, TList(TS(RefS, D.cls))), 'conditions_structural')
    structural.frozen = True
    cs = E.new_obj(E.cls('condition.ConditionSet'), dict(conditions_basic=E.view(basic), conditions_structural=E.view(structural)))
    def combined(E, f, a, k):
        sd, bd = structural.leaves[('dom',)], basic.leaves[('dom',)]
        return E.new_sym('dict', TDict(Val, TS(RefS)), {('dom',): lambda n: z3.Or(bd(n), sd(n)), ('v',): E.fresh_fn([Val], RefS, 'combined')})
    E.contracts['condition.ConditionSet.conditions'] = combined
    mode = E.pick(list(E.cls('scheduler.SchedulingMode').members.values()))
    s.attrs.update(conditions=cs, nodes=E.view(nodes), mode=mode)
    E.contracts['scheduler.Scheduler.graph'] = E.contracts['scheduler.Scheduler.dependency_dict'] = lambda E, f, a, k: g
    given = E.new_root(TSet(Val), 'given')
    given.ghost = True
    E.write_leaf(given, ('mem',), (), lambda n: z3.BoolVal(False))
    E.hooks['ref_attr2'] = lambda E, v, name: Opaque(name)

    def follows(c, n):
        return D.sat(c, n) == forall([Val], lambda x: z3.Implies(mem(n, x), D.u(x, n) >= 1))

    def add(E, f, a, k):
        k = dict(zip(('self', 'owner', 'condition'), a), **k)
        E.prove('C15: conditions are added to the conditions of the scheduler', k['self'] is s or k['self'] is cs)
        n, c = E.to_term(k['owner'], Val), E.to_term(k['condition'], RefS)
        now = basic.leaves[('dom',)]
        E.prove('C15: only nodes without a basic condition are given one', z3.And(N(n), neg(now(n))))
        E.prove('C15: a default condition is satisfied exactly when every direct sender has executed since the node last executed', follows(c, n))
        E.cover('a default condition is given')
        E.write_leaf(basic, ('dom',), (n,), lambda: z3.BoolVal(True))
        E.write_leaf(basic, ('v',), (n,), lambda: c)
        g0 = given.leaves[('mem',)]
        E.write_leaf(given, ('mem',), (), lambda x: z3.Or(x == n, g0(x)))
        return None
    E.contracts['scheduler.Scheduler.add_condition'] = add
    E.contracts['condition.ConditionSet.add_condition'] = add

    def pool(E, L):
        out = []
        d, v = basic.leaves[('dom',)], basic.leaves[('v',)]
        out.append(('conditions that were there are unchanged', forall([Val], lambda n: z3.Implies(od(n), z3.And(d(n), v(n) == ov(n))))))
        for a, lv in L.lists(TList(TS(RefS, D.cls))):
            n, e = lv[('len',)](), lv[('e',)]
            out.append((f'{a}: length', n >= 0))
            if L.i is None and L.visited is not None and list(L.it.sorts) == [Val]:
                vis = L.visited
                out.append((f'{a}: follows the senders so far', lambda n=n, e=e, vis=vis: forall([Val], lambda o: forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < n), D.sat(e(i), o)))
                                                                                        == forall([Val], lambda x: z3.Implies(vis(x), D.u(x, o) >= 1)))))
        gm = given.leaves[('mem',)]
        out.append(('defaults are owned by their node', forall([Val], lambda n: z3.Implies(z3.And(d(n), neg(od(n))), gm(n)))))
        out.append(('nodes have defaults that follow their senders', forall([Val], lambda n: z3.Implies(z3.And(d(n), neg(od(n))), z3.And(N(n), follows(v(n), n))))))
        if L.i is not None:
            out.append(('nodes so far have a condition', forall([Val], lambda n: z3.Implies(z3.And(N(n), pos(n) < L.i), d(n)))))
            out.append(('no later node was given one', forall([Val], lambda n: z3.Implies(z3.And(N(n), pos(n) >= L.i), d(n) == od(n)))))
        if L.i is None and L.visited is not None and list(L.it.sorts) == [Val]:
            vis = L.visited
            out.append(('visited nodes have a condition', lambda: forall([Val], lambda n: z3.Implies(z3.And(N(n), vis(n)), d(n)))))
            out.append(('no unvisited node was given one', lambda: forall([Val], lambda n: z3.Implies(z3.And(N(n), neg(vis(n))), d(n) == od(n)))))
        return out
    E.inv_pool[:] = [pool]
    E.declare_cover('a default condition is given')
    E.declare_cover('conditions are validated')
    E.call_body(E.fn('scheduler.Scheduler._validate_conditions'), [s], {})
    E.cover('conditions are validated')
    d, v = basic.leaves[('dom',)], basic.leaves[('v',)]
    E.prove('C15: every node has a basic condition', forall([Val], lambda n: z3.Implies(N(n), d(n))))
    E.prove('C15: nodes that have a basic condition keep it', forall([Val], lambda n: z3.Implies(od(n), z3.And(d(n), v(n) == ov(n)))))
    gm = given.leaves[('mem',)]
    E.prove('C15: conditions given are added with their node as the owner', forall([Val], lambda n: z3.Implies(z3.And(d(n), neg(od(n))), gm(n))))
    E.prove('C15: the conditions given are satisfied exactly when every direct sender has executed since the node last executed',
            forall([Val], lambda n: z3.Implies(z3.And(d(n), neg(od(n))), z3.And(N(n), follows(v(n), n)))))


def passes(E):
    """Lemma over the contracts of a run: with these conditions every pass executes every node exactly once, layer by layer."""
    E.hooks.clear()
    N, ed = z3.Function('node', Val, B), z3.Function('edge', Val, Val, B)         # edge(receiver, sender)
    lay = z3.Function('layer', Val, I)
    u, u2 = z3.Function('useable', Val, Val, I), z3.Function('useable after', Val, Val, I)    # u(sender, receiver)
    ex = z3.Function('executed in this pass', Val, B)
    S = z3.Function('execution set', Val, B)
    l, L = E.fresh(I, 'l'), E.fresh(I, 'layers')
    E.assume(z3.And(0 <= l, l < L))
    # C01: layers; the graph has no cycles, not even of a node with itself
    E.assume(forall([Val, Val], lambda r, x: z3.Implies(z3.And(N(r), ed(r, x)), z3.And(N(x), lay(x) < lay(r)))))
    E.assume(forall([Val], lambda n: z3.Implies(N(n), z3.And(0 <= lay(n), lay(n) < L))))
    inv = lambda k, ex, u: z3.And(forall([Val], lambda n: z3.Implies(N(n), ex(n) == (lay(n) < k))),
                                 forall([Val, Val], lambda r, x: z3.Implies(z3.And(N(r), ed(r, x)), u(x, r) == z3.If(z3.And(ex(x), neg(ex(r))), z3.IntVal(1), z3.IntVal(0)))))
    # C04 at the start of a run: all useable counts are zero; a pass starts with no executions in it
    never = lambda n: z3.BoolVal(False)
    zero = lambda a, b: z3.IntVal(0)
    E.prove('C15: lemma: before the first layer of the first pass', inv(z3.IntVal(0), never, zero))
    E.prove('C15: lemma: the end of a pass is the start of the next', z3.Implies(inv(L, ex, u), inv(z3.IntVal(0), never, u)))
    # C02, C15: the set executed is the set of nodes of the layer whose senders have all executed since; executions inside the layer do not change that
    E.assume(inv(l, ex, u))
    E.assume(forall([Val], lambda n: z3.Implies(S(n), z3.And(N(n), lay(n) == l))))
    sat = lambda n, w: forall([Val], lambda x: z3.Implies(ed(n, x), w(x, n) >= 1))
    mid = z3.Function('useable during', Val, Val, I)
    T = z3.Function('executed so far', Val, B)
    E.prove('C15: lemma: a condition does not change before its node executes in the layer',
            z3.Implies(z3.And(forall([Val], lambda n: z3.Implies(T(n), z3.And(N(n), lay(n) == l))),
                              forall([Val, Val], lambda x, r: mid(x, r) == z3.If(T(r), z3.IntVal(0), u(x, r) + z3.If(T(x), z3.IntVal(1), z3.IntVal(0))))),
                       forall([Val], lambda n: z3.Implies(z3.And(N(n), lay(n) == l, neg(T(n))), sat(n, mid) == sat(n, u)))))
    E.assume(forall([Val], lambda n: z3.Implies(z3.And(N(n), lay(n) == l), S(n) == sat(n, u))))
    E.assume(forall([Val, Val], lambda x, r: u2(x, r) == z3.If(S(r), z3.IntVal(0), u(x, r) + z3.If(S(x), z3.IntVal(1), z3.IntVal(0)))))
    E.prove('C15: lemma: every node of the layer executes', forall([Val], lambda n: z3.Implies(z3.And(N(n), lay(n) == l), S(n))))
    E.prove('C15: lemma: no node executes twice in a pass', forall([Val], lambda n: z3.Implies(S(n), neg(ex(n)))))
    ex2 = lambda n: z3.Or(ex(n), S(n))
    E.prove('C15: lemma: after the layer', inv(l + 1, ex2, u2))
    E.prove('C15: lemma: after the last layer every node has executed', z3.Implies(inv(L, ex, u), forall([Val], lambda n: z3.Implies(N(n), ex(n)))))


def always(E):
    E.hooks.clear()
    W = World(E)
    c = E.call(E.cls('condition.Always'), [], {})
    W.exactly('C15', 'Always', c, lambda: z3.BoolVal(True))


def all_of(E):
    """All of EveryNCalls conditions constructed here has their meaning, the owner being given to it (C13 proves All for any components)."""
    E.hooks.clear()
    W = World(E)
    o, d1, d2 = (E.fresh(Val, x) for x in ('owner', 'd1', 'd2'))
    E.assume(z3.And(W.N(o), W.N(d1), W.N(d2)))
    # nodes are not collections (the warning about an owner being its own dependency looks into those)
    E.hooks['isinstance2'] = lambda E, v, c: False if isinstance(v, V) and v.t.sort() == Val else None
    cs = [E.call(E.cls('condition.EveryNCalls'), [V(d), 1], {}) for d in (d1, d2)]
    c = E.call(E.cls('condition.All'), cs, {})
    E.setattr(c, 'owner', V(o))
    u = lambda d: W.roots['counts_useable'].leaves[('v', 'v', 'v')](W.eid, d, o)
    W.exactly('C15', 'All of EveryNCalls', c, lambda: z3.And(u(d1) >= 1, u(d2) >= 1))


TASKS = [('validate', defaults), ('lemma', passes), ('Always', always), ('EveryNCalls', every_n_calls('C15')), ('All', all_of)] + runs.tasks('V', 'C15')[:4:3]
