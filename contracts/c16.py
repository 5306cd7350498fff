"""C16: condition sets under any history of additions, replacements and removals."""
from .common import *

LEVEL = 'proof'
LIMIT = 400
NOTE = 'any number of nodes and conditions, any history: each operation is proved to preserve the representation invariant and to act as documented on the abstract state (basic condition per node, order of structural conditions), from an arbitrary state satisfying the invariant; condition objects are not shared between nodes; one that is added twice is dealt with for additions only'
P = 'C16: '


class Set:
    """An arbitrary condition set satisfying its representation invariant."""

    def __init__(self, E, ghost=False):
        self.E = E
        pint_model(E)
        self.none = E.to_term(None, Val)
        self.base = E.cls('condition.ConditionBase')
        self.gsc = E.cls('condition.GraphStructureCondition')
        self.cls = E.cls('condition.Condition')
        for c in (self.cls, self.gsc):
            if E.class_lookup(c, '__eq__') is not None:
                raise Unsupported('conditions are compared by something else than identity')
        self.st = z3.Function('structural', RefS, B)
        self.owners = E.new_root(TDict(RefS, TS(Val)), 'owner')
        self.basic = E.new_root(TDict(Val, TS(RefS, self.base)), 'conditions_basic')
        self.struct = E.new_root(TDict(Val, TList(TS(RefS, self.base))), 'conditions_structural')
        self.order = E.new_root(TList(TS(RefS, self.base)), 'structural_condition_order')
        self.pos = z3.Function('position in the order', RefS, I)
        self.jpos = z3.Function('position at its node', RefS, I)
        if ghost:
            ghosts(self)
        self.setup()
        H = E.hooks
        H['ref_attr2'] = self.attr
        H['ref_setattr'] = self.setattr
        H['isinstance2'] = self.isinst
        H['val_attr'] = lambda E, v, n: E.raise_('AttributeError', n)
        self.warned = 0
        H['warn'] = self.warn
        H['unroll'] = lambda E, st, fr: False
        H['last_writer'] = False        # invariants describe repeated removals better than their last writer
        H['shallow'] = lambda E, v: E.new_sym(E.ckind(v), v.typ, E.leaves_of(v, v.typ), 'copy')

    def warn(self, E):
        self.warned += 1

    def setup(self):
        E = self.E
        s = self.s = E.new_obj(E.cls('condition.ConditionSet'))
        s.attrs.update(conditions_basic=E.view(self.basic), conditions_structural=E.view(self.struct), structural_condition_order=E.view(self.order),
                       _rebuild_conditions=V(E.fresh(B, 'rebuild')), _conditions=E.new_cont('dict', []))
        for f in self.inv().values():
            E.assume(f)
        self.old = self.state()

    # ---- state
    def state(self):
        L = lambda r, *p: r.leaves[p]
        return dict(bd=L(self.basic, 'dom'), bv=L(self.basic, 'v'), sd=L(self.struct, 'dom'), sn=L(self.struct, 'v', 'len'), se=L(self.struct, 'v', 'e'),
                    on=L(self.order, 'len'), oe=L(self.order, 'e'), own=L(self.owners, 'v'))

    def inv(self, st=None, pos=None, jpos=None):
        """The representation invariant; pos and jpos witness where a structural condition is."""
        x = st or self.state()
        st, pos, jpos = self.st, pos or self.pos, jpos or self.jpos
        bd, bv, sd, sn, se, on, oe, own = (x[k] for k in ('bd', 'bv', 'sd', 'sn', 'se', 'on', 'oe', 'own'))
        rng = lambda n, j: z3.And(sd(n), 0 <= j, j < sn(n))
        return {
            'lengths are not negative': z3.And(on() >= 0, forall([Val], lambda n: z3.Implies(sd(n), sn(n) >= 0))),
            'a basic condition is owned by its node': forall([Val], lambda n: z3.Implies(bd(n), z3.And(n != self.none, own(bv(n)) == n, neg(st(bv(n)))))),
            'the order lists each structural condition once': forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < on()), z3.And(pos(oe(i)) == i, st(oe(i))))),
            'every condition in the order is listed at its owner': forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < on()), z3.And(own(oe(i)) != self.none, rng(own(oe(i)), jpos(oe(i))), se(own(oe(i)), jpos(oe(i))) == oe(i)))),
            'every condition listed at a node is in the order and owned by it': forall([Val, I], lambda n, j: z3.Implies(rng(n, j), z3.And(0 <= pos(se(n, j)), pos(se(n, j)) < on(), oe(pos(se(n, j))) == se(n, j), own(se(n, j)) == n, jpos(se(n, j)) == j))),
            'the conditions of a node are in order of addition': forall([Val, I, I], lambda n, j, k: z3.Implies(z3.And(rng(n, j), rng(n, k), j < k), pos(se(n, j)) < pos(se(n, k)))),
            'nodes without structural conditions are not listed': forall([Val], lambda n: z3.Implies(sd(n), sn(n) >= 1)),
        }

    def prove_inv(self, what, pos=None, jpos=None):
        for n, f in self.inv(None, pos, jpos).items():
            self.E.prove(f'{P}{what}: {n}', f)

    def present(self, c, x=None):
        """c is a condition of the set."""
        x = x or self.old
        n = x['own'](c)
        return ite(self.st(c), z3.And(0 <= self.pos(c), self.pos(c) < x['on'](), x['oe'](self.pos(c)) == c), z3.And(x['bd'](n), x['bv'](n) == c))

    # ---- conditions as values
    def cond(self, name='condition', fresh=True):
        c = self.E.fresh(RefS, name)
        return V(c, self.base)

    def attr(self, E, v, name):
        if v.t.sort() == RefS and name in ('owner', '_owner'):
            return V(self.owners.leaves[('v',)](v.t))
        if v.t.sort() == RefS:
            return Opaque(name)
        return None

    def setattr(self, E, v, name, val):
        if name == 'owner':
            E.put_leaf(E.view(self.owners), 'v', (v.t,), E.to_term(val, Val))
            return True
        return False

    def isinst(self, E, v, c):
        n = getattr(c, 'name', '').split('.')[-1]
        if v.t.sort() == RefS and v.cls is self.base:
            if c is self.base:
                return True
            if c is self.gsc:
                return V(self.st(v.t))
            if c is self.cls:
                return V(neg(self.st(v.t)))
            if n == 'Iterable':
                return False
        if v.t.sort() == Val and (c in (self.base, self.gsc, self.cls)):
            return False
        return None

    # ---- abstract operations
    def unchanged(self, what, but=()):
        E, o, n = self.E, self.old, self.state()
        if 'order' not in but:
            E.prove(f'{P}{what}: the structural order is unchanged', z3.And(n['on']() == o['on'](), forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < o['on']()), n['oe'](i) == o['oe'](i)))))
        if 'basic' not in but:
            E.prove(f'{P}{what}: basic conditions are unchanged', forall([Val], lambda x: z3.And(n['bd'](x) == o['bd'](x), z3.Implies(o['bd'](x), n['bv'](x) == o['bv'](x)))))
        if 'struct' not in but:
            E.prove(f'{P}{what}: structural conditions are unchanged', forall([Val], lambda x: z3.And(n['sd'](x) == o['sd'](x), z3.Implies(o['sd'](x), n['sn'](x) == o['sn'](x)))))
            E.prove(f'{P}{what}: structural conditions are unchanged', forall([Val, I], lambda x, j: z3.Implies(z3.And(o['sd'](x), 0 <= j, j < o['sn'](x)), n['se'](x, j) == o['se'](x, j))))

    def others(self, what, node):
        """What belongs to other nodes is unchanged."""
        E, o, n = self.E, self.old, self.state()
        E.prove(f'{P}{what}: conditions of other nodes are unchanged', forall([Val], lambda x: z3.Implies(x != node, z3.And(n['bd'](x) == o['bd'](x), z3.Implies(o['bd'](x), n['bv'](x) == o['bv'](x)), n['sd'](x) == o['sd'](x), z3.Implies(o['sd'](x), n['sn'](x) == o['sn'](x))))))
        E.prove(f'{P}{what}: conditions of other nodes are unchanged', forall([Val, I], lambda x, j: z3.Implies(z3.And(x != node, o['sd'](x), 0 <= j, j < o['sn'](x)), n['se'](x, j) == o['se'](x, j))))
        E.prove(f'{P}{what}: owners of the conditions of other nodes are unchanged', forall([RefS], lambda c: z3.Implies(z3.And(self.present(c, o), o['own'](c) != node), n['own'](c) == o['own'](c))))

    def view_current(self, what):
        E = self.E
        E.prove(f'{P}{what}: the combined view is rebuilt', E.truth_term(self.s.attrs['_rebuild_conditions']) if hasattr(E, 'truth_term') else E.to_term(self.s.attrs['_rebuild_conditions'], B))

    def added(self, what, c, n, o=None):
        """The effect of adding c to node n."""
        E, o, x = self.E, o or self.old, self.state()
        E.prove(f'{P}{what}: an added condition is owned by its node', x['own'](c) == n)
        s = self.st(c)
        E.prove(f'{P}{what}: a basic condition becomes the only one of its node', z3.Implies(neg(s), z3.And(x['bd'](n), x['bv'](n) == c)))
        E.prove(f'{P}{what}: a basic condition leaves the structural ones alone', z3.Implies(neg(s), z3.And(x['on']() == o['on'](), forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < o['on']()), x['oe'](i) == o['oe'](i))))))
        E.prove(f'{P}{what}: a structural condition is appended to the order', z3.Implies(s, z3.And(x['on']() == o['on']() + 1, x['oe'](o['on']()) == c, forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < o['on']()), x['oe'](i) == o['oe'](i))))))
        E.prove(f'{P}{what}: a structural condition leaves the basic one alone', z3.Implies(s, forall([Val], lambda y: z3.And(x['bd'](y) == o['bd'](y), z3.Implies(o['bd'](y), x['bv'](y) == o['bv'](y))))))
        E.prove(f'{P}{what}: other basic conditions are unchanged', forall([Val], lambda y: z3.Implies(y != n, z3.And(x['bd'](y) == o['bd'](y), z3.Implies(o['bd'](y), x['bv'](y) == o['bv'](y))))))

    def removed(self, what, c, n):
        """The effect of removing c, a condition of node n."""
        E, o, x = self.E, self.old, self.state()
        s, p = self.st(c), self.pos(c)
        E.prove(f'{P}{what}: a removed basic condition is gone', z3.Implies(neg(s), neg(x['bd'](n))))
        E.prove(f'{P}{what}: other basic conditions are unchanged', forall([Val], lambda y: z3.Implies(z3.Or(s, y != n), z3.And(x['bd'](y) == o['bd'](y), z3.Implies(o['bd'](y), x['bv'](y) == o['bv'](y))))))
        E.prove(f'{P}{what}: the order has one condition less', x['on']() == o['on']() - z3.If(s, z3.IntVal(1), z3.IntVal(0)))
        E.prove(f'{P}{what}: the order is that without the removed condition', forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < x['on']()), x['oe'](i) == o['oe'](z3.If(z3.And(s, i >= p), i + 1, i)))))


def add(E):
    E.hooks.clear()
    S = Set(E)
    n = E.fresh(Val, 'owner')
    c = S.cond()
    E.assume(n != S.none)
    E.assume(z3.Implies(S.st(c.t), neg(S.present(c.t))))
    E.assume(forall([Val], lambda x: z3.Implies(z3.And(S.old['bd'](x), S.old['bv'](x) == c.t), x == n)))
    E.declare_cover('a condition is added')
    E.declare_cover('a structural condition is added')
    E.call(E.fn('condition.ConditionSet.add_condition'), [S.s, V(n), c], {})
    E.cover('a condition is added')
    S.added('add_condition', c.t, n)
    o, y = S.old, S.state()
    j0 = z3.If(o['sd'](n), o['sn'](n), z3.IntVal(0))
    E.prove(P + 'add_condition: a structural condition is appended at its node', z3.Implies(S.st(c.t), z3.And(y['sd'](n), y['sn'](n) == j0 + 1, y['se'](n, j0) == c.t, forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < j0), y['se'](n, i) == o['se'](n, i))))))
    E.prove(P + 'add_condition: no other condition changes its owner', forall([RefS], lambda d: z3.Implies(d != c.t, y['own'](d) == o['own'](d))))
    S.others('add_condition', n)
    S.view_current('add_condition')
    E.prove(P + 'add_condition: replacing a basic condition gives a warning', (S.warned > 0) == True if False else z3.Implies(z3.And(neg(S.st(c.t)), S.old['bd'](n)), z3.BoolVal(S.warned > 0)))
    if E.branch(S.st(c.t)):
        E.cover('a structural condition is added')
        o = S.old
        S.prove_inv('add_condition', lambda d: z3.If(d == c.t, o['on'](), S.pos(d)), lambda d: z3.If(d == c.t, z3.If(o['sd'](n), o['sn'](n), z3.IntVal(0)), S.jpos(d)))
    else:
        S.prove_inv('add_condition')


class Repeated(Set):
    """A condition set that may list one condition object several times."""
    def inv(self, st=None, pos=None, jpos=None):
        x = st or self.state()
        return {'lengths are not negative': z3.And(x['on']() >= 0, forall([Val], lambda n: z3.Implies(x['sd'](n), x['sn'](n) >= 1)))}


def again(E):
    """Every addition counts, also of a condition that is there already (at the same node)."""
    E.hooks.clear()
    S = Repeated(E)
    n = E.fresh(Val, 'owner')
    c = S.cond()
    E.assume(n != S.none)
    E.assume(S.st(c.t))
    E.declare_cover('a condition is added')
    i0, j0 = E.fresh(I, 'place in the order'), E.fresh(I, 'place at the node')
    o = S.old
    E.assume(z3.And(0 <= i0, i0 < o['on'](), o['oe'](i0) == c.t, o['sd'](n), 0 <= j0, j0 < o['sn'](n), o['se'](n, j0) == c.t, o['own'](c.t) == n))
    E.call(E.fn('condition.ConditionSet.add_condition'), [S.s, V(n), c], {})
    E.cover('a condition is added')
    w = 'adding a condition again'
    S.added(w, c.t, n)
    y = S.state()
    m = o['sn'](n)
    E.prove(f'{P}{w}: it is appended at its node', z3.And(y['sd'](n), y['sn'](n) == m + 1, y['se'](n, m) == c.t, forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < m), y['se'](n, i) == o['se'](n, i)))))
    E.prove(f'{P}{w}: no owner changes', forall([RefS], lambda d: y['own'](d) == o['own'](d)))
    S.others(w, n)
    S.view_current(w)


def remove(how):
    def f(E):
        E.hooks.clear()
        S = Set(E)
        o = S.old
        if how == 'condition':
            c = S.cond()
            n = o['own'](c.t)
            x = c
            # the removed condition is one of this set, or one that is not in it: then it is not listed at its owner
            E.assume(z3.Or(S.present(c.t), forall([Val, I], lambda y, j: z3.Implies(z3.And(o['sd'](y), 0 <= j, j < o['sn'](y)), o['se'](y, j) != c.t))))
        else:
            n = E.fresh(Val, 'owner')
            E.assume(n != S.none)
            x = V(n)
        E.declare_cover('a condition is removed')
        one = z3.And(o['sd'](n), o['sn'](n) == 1)
        try:
            r = E.call(E.fn('condition.ConditionSet.remove_condition'), [S.s, x], {})
        except PyRaise as e:
            E.prove(P + 'remove_condition: refusals are condition errors', e.cname == 'ConditionError')
            if how == 'condition':
                E.prove(P + 'remove_condition: only an unowned condition is refused', n == S.none)
            else:
                E.prove(P + 'remove_condition: only an ambiguous owner is refused', z3.Or(z3.And(o['bd'](n), o['sd'](n)), z3.And(o['sd'](n), o['sn'](n) > 1)))
            S.unchanged('remove_condition refused')
            return
        if how == 'condition':
            E.prove(P + 'remove_condition: an unowned condition is refused', n != S.none)
            found = S.present(c.t)
            got = c.t
        else:
            E.prove(P + 'remove_condition: an ambiguous owner is refused', neg(z3.Or(z3.And(o['bd'](n), o['sd'](n)), z3.And(o['sd'](n), o['sn'](n) > 1))))
            found = z3.Or(o['bd'](n), o['sd'](n))
            got = z3.If(o['bd'](n), o['bv'](n), o['se'](n, z3.IntVal(0)))
        r = E.norm(r)
        if r is None:
            E.prove(P + 'remove_condition: None is returned only if there was nothing to remove', neg(found))
            E.prove(P + 'remove_condition: a warning is given if there is nothing to remove', S.warned > 0)
            S.unchanged('nothing removed')
            S.prove_inv('nothing removed')
            return
        E.cover('a condition is removed')
        E.prove(P + 'remove_condition: something is removed only if it was there', found)
        E.prove(P + 'remove_condition: the removed condition is returned', E.to_term(r, RefS) == got)
        S.removed('remove_condition', got, n)
        S.others('remove_condition', n)
        S.view_current('remove_condition')
        p, j = S.pos(got), S.jpos(got)
        s = S.st(got)
        y = S.state()
        E.prove(P + 'remove_condition: the node keeps its other conditions in order', z3.Implies(s, z3.And(y['sd'](n) == (o['sn'](n) > 1), z3.Implies(y['sd'](n), y['sn'](n) == o['sn'](n) - 1),
                forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < o['sn'](n) - 1), y['se'](n, i) == o['se'](n, z3.If(i >= j, i + 1, i)))))))
        E.prove(P + 'remove_condition: only a removed basic condition loses its owner', forall([RefS], lambda d: y['own'](d) == z3.If(z3.And(d == got, neg(s)), S.none, o['own'](d))))
        S.prove_inv('remove_condition', lambda d: z3.If(z3.And(s, S.pos(d) > p), S.pos(d) - 1, S.pos(d)),
                    lambda d: z3.If(z3.And(s, S.old['own'](d) == n, S.jpos(d) > j), S.jpos(d) - 1, S.jpos(d)))
    return f


def ghosts(S):
    """The witnesses of the representation invariant as ghost state."""
    E = S.E
    S.gpos = E.new_root(TDict(RefS, TS(I)), 'ghost position in the order')
    S.gjpos = E.new_root(TDict(RefS, TS(I)), 'ghost position at its node')
    S.pos = S.gpos.leaves[('v',)]
    S.jpos = S.gjpos.leaves[('v',)]
    S.now = lambda: (S.gpos.leaves[('v',)], S.gjpos.leaves[('v',)])


def c_remove(S):
    """Contract of remove_condition given a condition (proved by the task remove/condition)."""
    def h(E, func, a, k):
        if len(a) != 2 or k:
            raise Unsupported('remove_condition called with other arguments')
        c = E.norm(a[1])
        if not (isinstance(c, V) and c.t.sort() == RefS):
            raise Unsupported('remove_condition of something else')
        c = c.t
        x = S.state()
        pos, jpos = S.now()
        n, s = x['own'](c), S.st(c)
        E.prove(P + 'only conditions with an owner are removed', n != S.none)
        here = ite(s, z3.And(0 <= pos(c), pos(c) < x['on'](), x['oe'](pos(c)) == c), z3.And(x['bd'](n), x['bv'](n) == c))
        E.prove(P + 'a condition is removed only from the node it is listed at', z3.Or(here, forall([Val, I], lambda y, j: z3.Implies(z3.And(x['sd'](y), 0 <= j, j < x['sn'](y)), x['se'](y, j) != c))))
        if not E.branch(here):
            S.warned += 1
            return None
        W = E.write_leaf
        if E.branch(s):
            p, j = pos(c), jpos(c)
            W(S.order, ('len',), (), lambda: x['on']() - 1)
            W(S.order, ('e',), (), lambda i: x['oe'](z3.If(i >= p, i + 1, i)))
            W(S.struct, ('dom',), (n,), lambda: x['sn'](n) > 1)
            W(S.struct, ('v', 'len'), (n,), lambda: x['sn'](n) - 1)
            W(S.struct, ('v', 'e'), (n,), lambda i: x['se'](n, z3.If(i >= j, i + 1, i)))
            W(S.gpos, ('v',), (), lambda d: z3.If(pos(d) > p, pos(d) - 1, z3.If(pos(d) == p, z3.IntVal(-1), pos(d))))
            W(S.gjpos, ('v',), (), lambda d: z3.If(z3.And(x['own'](d) == n, jpos(d) > j), jpos(d) - 1, jpos(d)))
        else:
            W(S.basic, ('dom',), (n,), lambda: z3.BoolVal(False))
            W(S.owners, ('v',), (c,), lambda: S.none)
        S.s.attrs['_rebuild_conditions'] = True
        return a[1]
    return h


def c_add(S):
    """Contract of add_condition (proved by the task add)."""
    def h(E, func, a, k):
        if len(a) != 3 or k:
            raise Unsupported('add_condition called with other arguments')
        n, c = E.to_term(a[1], Val), E.to_term(a[2], RefS)
        x = S.state()
        pos, jpos = S.now()
        s = S.st(c)
        E.prove(P + 'a structural condition is not added while it is in the set', z3.Implies(s, neg(z3.And(0 <= pos(c), pos(c) < x['on'](), x['oe'](pos(c)) == c))))
        W = E.write_leaf
        W(S.owners, ('v',), (c,), lambda: n)
        if E.branch(s):
            j = z3.If(x['sd'](n), x['sn'](n), z3.IntVal(0))
            W(S.order, ('len',), (), lambda: x['on']() + 1)
            W(S.order, ('e',), (x['on'](),), lambda: c)
            W(S.struct, ('dom',), (n,), lambda: z3.BoolVal(True))
            W(S.struct, ('v', 'len'), (n,), lambda: j + 1)
            W(S.struct, ('v', 'e'), (n, j), lambda: c)
            W(S.gpos, ('v',), (c,), lambda: x['on']())
            W(S.gjpos, ('v',), (c,), lambda: j)
        else:
            W(S.basic, ('dom',), (n,), lambda: z3.BoolVal(True))
            W(S.basic, ('v',), (n,), lambda: c)
        S.s.attrs['_rebuild_conditions'] = True
        return None
    return h


def setitem(E):
    """cs[key] = value: every structural condition of the node goes, then the value is added."""
    E.hooks.clear()
    S = Set(E, ghost=True)
    o = S.old
    pos0, jpos0 = S.now()
    n = E.fresh(Val, 'key')
    c = S.cond()
    E.assume(n != S.none)
    E.assume(z3.Implies(S.present(c.t), o['own'](c.t) == n))
    E.assume(forall([Val], lambda x: z3.Implies(z3.And(o['bd'](x), o['bv'](x) == c.t), x == n)))
    E.contracts['condition.ConditionSet.remove_condition'] = c_remove(S)
    E.contracts['condition.ConditionSet.add_condition'] = c_add(S)
    sn0 = z3.If(o['sd'](n), o['sn'](n), z3.IntVal(0))

    def same_others(x):
        return {
            'basic conditions are unchanged': forall([Val], lambda y: z3.And(x['bd'](y) == o['bd'](y), z3.Implies(o['bd'](y), x['bv'](y) == o['bv'](y)))),
            'owners are unchanged': forall([RefS], lambda d: x['own'](d) == o['own'](d)),
            'other nodes': forall([Val], lambda y: z3.Implies(y != n, z3.And(x['sd'](y) == o['sd'](y), z3.Implies(o['sd'](y), x['sn'](y) == o['sn'](y))))),
            'conditions at other nodes': forall([Val, I], lambda y, j: z3.Implies(z3.And(y != n, o['sd'](y), 0 <= j, j < o['sn'](y)), x['se'](y, j) == o['se'](y, j))),
        }

    def relative(pos, but=()):
        was = lambda d: z3.And(S.st(d), 0 <= pos0(d), pos0(d) < o['on'](), o['oe'](pos0(d)) == d, conj([d != b for b in but]))
        now = lambda d, x: z3.And(0 <= pos(d), pos(d) < x['on'](), x['oe'](pos(d)) == d)
        return was, now

    def pool(E, L):
        x = S.state()
        pos, jpos = S.now()
        out = [(k, f) for k, f in list(S.inv(x, pos, jpos).items()) + list(same_others(x).items())]
        was, now = relative(pos)
        left = lambda: z3.If(x['sd'](n), x['sn'](n), z3.IntVal(0))
        out += [
            ('the order only lists conditions of before', lambda: forall([RefS], lambda d: z3.Implies(now(d, x), was(d)))),
            ('conditions of others stay in the order', lambda: forall([RefS], lambda d: z3.Implies(z3.And(was(d), o['own'](d) != n), now(d, x)))),
            ('the relative order is kept', lambda: forall([RefS, RefS], lambda d, e: z3.Implies(z3.And(now(d, x), now(e, x)), (pos(d) < pos(e)) == (pos0(d) < pos0(e))))),
            ('what is left is a prefix', lambda: z3.And(left() <= sn0, forall([I], lambda j: z3.Implies(z3.And(0 <= j, j < left()), x['se'](n, j) == o['se'](n, j))))),
            ('what is left is a suffix', lambda: z3.And(left() <= sn0, forall([I], lambda j: z3.Implies(z3.And(0 <= j, j < left()), x['se'](n, j) == o['se'](n, j + sn0 - left()))))),
        ]
        if L.i is not None:
            out += [('one less per iteration', lambda: left() == sn0 - L.i)]
        return out
    E.inv_pool.append(pool)
    E.declare_cover('an item is assigned')
    E.declare_cover('structural conditions are replaced')
    E.call(E.fn('condition.ConditionSet.__setitem__'), [S.s, V(n), c], {})
    E.cover('an item is assigned')
    x = S.state()
    pos, jpos = S.now()
    s = S.st(c.t)
    w = 'item assignment: '
    E.prove(P + w + 'the value is owned by its node', x['own'](c.t) == n)
    E.prove(P + w + 'a basic condition is the only condition of its node', z3.Implies(neg(s), z3.And(x['bd'](n), x['bv'](n) == c.t, neg(x['sd'](n)))))
    E.prove(P + w + 'a structural condition is the only structural one of its node', z3.Implies(s, z3.And(x['sd'](n), x['sn'](n) == 1, x['se'](n, z3.IntVal(0)) == c.t)))
    E.prove(P + w + 'a structural condition is the last of the order', z3.Implies(s, z3.And(x['on']() >= 1, x['oe'](x['on']() - 1) == c.t)))
    E.prove(P + w + 'other basic conditions are unchanged', forall([Val], lambda y: z3.Implies(z3.Or(s, y != n), z3.And(x['bd'](y) == o['bd'](y), z3.Implies(o['bd'](y), x['bv'](y) == o['bv'](y))))))
    S.others('item assignment', n)
    was, now = relative(pos)
    E.prove(P + w + 'structural conditions of other nodes stay in the order', forall([RefS], lambda d: z3.Implies(z3.And(was(d), o['own'](d) != n), now(d, x))))
    E.prove(P + w + 'the order of the others is kept', forall([RefS, RefS], lambda d, e: z3.Implies(z3.And(was(d), was(e), o['own'](d) != n, o['own'](e) != n), (pos(d) < pos(e)) == (pos0(d) < pos0(e)))))
    S.view_current('item assignment')
    S.prove_inv('item assignment', pos, jpos)
    if E.branch(z3.And(o['sd'](n), o['sn'](n) > 1)):
        E.cover('structural conditions are replaced')


def addset(E):
    """add_condition_set adds every condition of every node exactly once, node by node in the given order."""
    E.hooks.clear()
    S = Set(E, ghost=True)
    H = E.hooks
    nk = E.fresh(I, 'number of nodes')
    key = z3.Function('node at', I, Val)
    idx = z3.Function('position of the node', Val, I)
    val = z3.Function('value given for', I, RefS)
    many = z3.Function('is a collection', RefS, B)
    num = z3.Function('size of the collection', RefS, I)
    elem = z3.Function('element of the collection', RefS, I, RefS)
    inr = lambda k: z3.And(0 <= k, k < nk)
    n = lambda k: z3.If(many(val(k)), num(val(k)), z3.IntVal(1))
    nth = lambda k, j: z3.If(many(val(k)), elem(val(k), j), val(k))
    E.assume(nk >= 0)
    E.assume(forall([I], lambda k: z3.Implies(inr(k), z3.And(idx(key(k)) == k, key(k) != S.none))))
    E.assume(forall([I], lambda k: z3.Implies(inr(k), num(val(k)) >= 0)))
    given = E.fresh(RefS, 'conditions given')
    gv = V(given)

    def iterate(E, v):
        if isinstance(v, V) and v.t.eq(given):
            return SymIter([I], inr, lambda i: V(key(i)), ordered=True, length=nk)
        if isinstance(v, V) and v.t.sort() == RefS:
            if not E.branch(many(v.t)):
                E.raise_('TypeError', 'not iterable')
            m = num(v.t)
            return SymIter([I], lambda i: z3.And(0 <= i, i < m), lambda i: V(elem(v.t, i), S.base), ordered=True, length=m, distinct=False)
        return None

    def getitem(E, c, k):
        if isinstance(c, V) and c.t.eq(given):
            k = idx(E.to_term(k, Val))
            E.prove(P + 'add_condition_set: only given nodes are looked up', inr(k))
            return V(val(k), S.base)
        return None
    H['iterate'], H['getitem'] = iterate, getitem
    old = H['isinstance2']

    def isinst(E, v, c):
        nm = getattr(c, 'name', '').split('.')[-1]
        if v.t.sort() == RefS and nm in ('Iterable', 'Collection', 'Sequence', 'list'):
            return V(many(v.t)) if nm in ('Iterable', 'Collection') else None
        if v.t.sort() == RefS and c is S.base:
            return V(neg(many(v.t)))
        return old(E, v, c)
    H['isinstance2'] = isinst
    cnt = E.new_root(TDict(I, TS(I)), 'ghost number added')
    E.write_leaf(cnt, ('v',), (), lambda k: z3.IntVal(0))
    at = lambda k: cnt.leaves[('v',)](k)

    def monitor(E, func, a, k):
        args = list(a[1:])
        names = ['owner', 'condition']
        for nme in names[len(args):]:
            if nme not in k:
                raise Unsupported('add_condition called with other arguments')
            args.append(k[nme])
        E.event('a condition is added')
        o, c = E.to_term(args[0], Val), E.to_term(args[1], RefS)
        i = idx(o)
        E.prove(P + 'add_condition_set: conditions are added for the nodes given', z3.And(inr(i), key(i) == o))
        E.prove(P + 'add_condition_set: each condition is added once, in order', z3.And(at(i) < n(i), c == nth(i, at(i))))
        E.prove(P + 'add_condition_set: nodes are dealt with in order', forall([I], lambda q: z3.Implies(inr(q), z3.And(z3.Implies(q < i, at(q) == n(q)), z3.Implies(q > i, at(q) == 0)))))
        v = at(i)
        E.write_leaf(cnt, ('v',), (i,), lambda: v + 1)
        return None
    E.contracts['condition.ConditionSet.add_condition'] = monitor

    def pool(E, L):
        if L.i is None:
            return []
        out = [('up to here', lambda: forall([I], lambda q: z3.Implies(inr(q), at(q) == z3.If(q < L.i, n(q), z3.IntVal(0)))))]
        for nm, v in L.locals():
            v = E.norm(v)
            if isinstance(v, V) and v.t.sort() == Val:
                t = idx(v.t)
                out.append((f'up to here in {nm}', lambda t=t: forall([I], lambda q: z3.Implies(inr(q), at(q) == z3.If(q < t, n(q), z3.If(q == t, L.i, z3.IntVal(0)))))))
        return out
    E.inv_pool.append(pool)
    E.declare_cover('a set is added')
    E.call(E.fn('condition.ConditionSet.add_condition_set'), [S.s, gv], {})
    E.cover('a set is added')
    E.prove(P + 'add_condition_set: every condition is added', forall([I], lambda q: z3.Implies(inr(q), at(q) == n(q))))


def construct(sets, cond):
    """ConditionSet(*sets, conditions=cond)."""
    def f(E):
        E.hooks.clear()
        pint_model(E)
        refs = [None if x is None else V(E.fresh(RefS, 'set'), E.cls('condition.ConditionSet')) for x in sets]
        got = []

        def monitor(E, func, a, k):
            s = a[0]
            if not got:
                empty = lambda x, kind: isinstance(E.norm(x), Cont) and E.norm(x).kind == kind and not E.norm(x).items
                for nme, kind in (('conditions_basic', 'dict'), ('conditions_structural', 'dict'), ('structural_condition_order', 'list')):
                    E.prove(f'{P}construction: {nme} starts empty', nme in s.attrs and empty(s.attrs[nme], kind))
                v = [E.norm(s.attrs[nme]) for nme in ('conditions_basic', 'conditions_structural')]
                E.prove(P + 'construction: the collections are not shared', v[0] is not v[1])
                view(s)
            got.append(E.norm((list(a[1:]) + list(k.values()))[0]))
            return None

        def view(s):
            if s.attrs.get('_rebuild_conditions') is not True:
                E.prove(P + 'construction: the combined view is empty or rebuilt', E.truth(s.attrs['_rebuild_conditions']) or (isinstance(E.norm(s.attrs['_conditions']), Cont) and not E.norm(s.attrs['_conditions']).items))
        E.contracts['condition.ConditionSet.add_condition_set'] = monitor
        c = None if not cond else V(E.fresh(RefS, 'conditions'), E.cls('condition.ConditionSet'))
        s = E.call(E.cls('condition.ConditionSet'), refs, {'conditions': c} if cond != 0 else {})
        want = [r for r in refs if r is not None] + ([c] if c is not None else [])
        E.prove(P + 'construction: every given set is added in order', len(got) == len(want) and all(isinstance(g, V) and g.t.eq(w.t) for g, w in zip(got, want)))
        if not got:
            got.append(None)
            monitor(E, None, [s, None], {})
    return f


def view_spec(S, E, what, r, x):
    """r, a dictionary, is the combined view of the state x."""
    n = E.fresh(Val, 'node')
    r = E.norm(r)
    if E.ckind(r) != 'dict':
        E.fail(P + what + ': the combined view is a dictionary')
        return
    here = E.to_term(E.contains(r, V(n)), B)
    E.prove(P + what + ': the combined view has exactly the nodes with conditions', here == z3.Or(x['bd'](n), x['sd'](n)))
    if not E.branch(z3.Or(x['bd'](n), x['sd'](n))):
        return
    v = E.norm(E.getitem(r, V(n)))
    nb = z3.If(x['bd'](n), z3.IntVal(1), z3.IntVal(0))
    ns = z3.If(x['sd'](n), x['sn'](n), z3.IntVal(0))
    nth = lambda j: z3.If(z3.And(x['bd'](n), j == 0), x['bv'](n), x['se'](n, j - nb))
    if isinstance(v, V) and v.t.sort() == RefS:
        E.prove(P + what + ': a single condition is given as such', z3.And(nb + ns == 1, v.t == nth(z3.IntVal(0))))
        E.cover('one condition')
        return
    if E.ckind(v) != 'list':
        E.fail(P + what + ': the conditions of a node are a list')
        return
    E.cover('several conditions')
    E.prove(P + what + ': several conditions are given as a list of all', z3.And(nb + ns > 1, E.to_term(E.length(v), I) == nb + ns))
    lv = E.leaves_of(v, TList(TS(RefS, S.base)))
    E.prove(P + what + ': several conditions are given basic first, then structural in order', forall([I], lambda j: z3.Implies(z3.And(0 <= j, j < nb + ns), lv[('e',)](j) == nth(j))))


def view(cached):
    def f(E):
        E.hooks.clear()
        S = Set(E)
        one, listT = TS(RefS, S.base), TList(TS(RefS, S.base))
        E.hooks['widen'] = lambda E, t: TDict(Val, TOr(one, listT)) if isinstance(t, TDict) and t.ksort == Val and isinstance(t.v, TS) and t.v.sort == RefS else None
        E.hooks['alias'] = lambda E, v, dest: None
        E.declare_cover('one condition')
        E.declare_cover('several conditions')
        prop = E.class_lookup(E.cls('condition.ConditionSet'), 'conditions')
        if not cached:
            S.s.attrs['_rebuild_conditions'] = True
            what = 'rebuilt view'
        else:
            # a view built before and still current
            what = 'cached view'
            old = E.new_root(TDict(Val, TOr(one, listT)), 'combined view')
            L = old.leaves
            x = S.old
            nb = lambda n: z3.If(x['bd'](n), z3.IntVal(1), z3.IntVal(0))
            ns = lambda n: z3.If(x['sd'](n), x['sn'](n), z3.IntVal(0))
            nth = lambda n, j: z3.If(z3.And(x['bd'](n), j == 0), x['bv'](n), x['se'](n, j - nb(n)))
            E.assume(forall([Val], lambda n: L[('dom',)](n) == z3.Or(x['bd'](n), x['sd'](n))))
            E.assume(forall([Val], lambda n: z3.Implies(L[('dom',)](n), z3.And(L[('v', 'tag')](n) == (nb(n) + ns(n) > 1), L[('v', 'many', 'len')](n) == nb(n) + ns(n), z3.Implies(neg(L[('v', 'tag')](n)), L[('v', 'one')](n) == nth(n, z3.IntVal(0)))))))
            E.assume(forall([Val, I], lambda n, j: z3.Implies(z3.And(L[('dom',)](n), 0 <= j, j < nb(n) + ns(n)), L[('v', 'many', 'e')](n, j) == nth(n, j))))
            S.s.attrs['_rebuild_conditions'] = False
            S.s.attrs['_conditions'] = E.view(old)
        r = E.getattr(S.s, 'conditions')
        x = S.old
        if E.truth(S.s.attrs['_rebuild_conditions']) is not True:
            k = E.norm(S.s.attrs['_conditions'])
            E.prove(P + what + ': the view kept is the one returned', k is E.norm(r) or E.same_loc(k, E.norm(r)))
        S.unchanged(what)
        view_spec(S, E, what, r, x)
    return f


def lookup(what):
    """Membership, iteration and indexing are those of the combined view."""
    def f(E):
        E.hooks.clear()
        S = Set(E)
        vw = E.new_root(TDict(Val, TS(RefS, S.base)), 'combined view')
        dom, v = vw.leaves[('dom',)], vw.leaves[('v',)]
        E.contracts['condition.ConditionSet.conditions'] = lambda E, func, a, k: E.view(vw)
        n = E.fresh(Val, 'node')
        if what == 'contains':
            r = E.contains(S.s, V(n))
            E.prove(P + 'membership is that of the combined view', E.to_term(r, B) == dom(n))
        elif what == 'getitem':
            try:
                r = E.getitem(S.s, V(n))
            except PyRaise as e:
                E.prove(P + 'indexing fails only for nodes without conditions', z3.And(neg(dom(n)), z3.BoolVal(e.cname == 'KeyError')))
                return
            E.prove(P + 'indexing is that of the combined view', z3.And(dom(n), E.to_term(r, RefS) == v(n)))
        else:
            it = E.iterate(S.s)
            if not isinstance(it, SymIter):
                raise Unsupported('iteration of a condition set')
            E.prove(P + 'iteration is over the combined view', len(it.sorts) == 1 and it.sorts[0] == Val)
            m = forall([Val], lambda q: it.mem(q) == dom(q))
            E.prove(P + 'iteration is over the combined view', m)
    return f


TASKS = [('add', add), ('add again', again), ('remove/condition', remove('condition')), ('remove/owner', remove('owner')), ('item assignment', setitem), ('add set', addset)] + \
    [(f'construction/{"".join("-" if x is None else "s" for x in s)}{"" if c == 0 else "/" + str(c)}', construct(s, c)) for s in ([], ['s'], [None, 's'], ['s', None, 's']) for c in (0, None, 's')] + \
    [('view/rebuilt', view(False)), ('view/cached', view(True))] + [('lookup/' + w, lookup(w)) for w in ('contains', 'getitem', 'iter')]
