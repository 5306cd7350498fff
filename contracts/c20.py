"""C20: sender and receiver operations combine neighbours as set algebra."""
from .common import *
from . import heap
from .heap import HGRAPH
from .graphs import GRAPH

LEVEL = 'proof'
LIMIT = 400
NOTE = ('any graph, any number of subject nodes, any operation in each of the four positions, one for all subject nodes or one for each: _process is proved against the contracts of '
        'Operation.__call__ (proved for each of the nine operations on any two sets, also one set given twice), get_receivers (C21) and _get_edge_conflicts (proved separately). '
        'The constructors are proved for conditions with two nodes. The further edges of BeforeNodes, AfterNodes and WithNode and the steps after _process belong to C19. Trusted: the texts of error messages are not looked at')
P = 'C20'
SAYS = {
    'KEEP': lambda s, c: s,
    'REPLACE': lambda s, c: c,
    'DISCARD': lambda s, c: z3.BoolVal(False),
    'INTERSECTION': lambda s, c: z3.And(s, c),
    'UNION': lambda s, c: z3.Or(s, c),
    'MERGE': lambda s, c: z3.Or(s, c),
    'DIFFERENCE': lambda s, c: z3.And(s, z3.Not(c)),
    'INVERSE_DIFFERENCE': lambda s, c: z3.And(c, z3.Not(s)),
    'SYMMETRIC_DIFFERENCE': lambda s, c: z3.Xor(s, c),
}


def operation(name, same=False):
    def f(E):
        heap.begin(E)
        op = E.cls('condition.Operation').members[name]
        a = heap.Input(E, 'source set')
        x = E.fresh(Val, 'x')
        y = x if same else E.fresh(Val, 'y')
        s, c = V(a.block.cellf(x)), V(a.block.cellf(y))
        m = a.block.leaves[('v', 'mem')]
        r = E.call(op, [s, c], {})
        E.prove(f'{P}: {name} gives a set', E.ckind(r) == 'set')
        t = z3.simplify(E.set_ref(r))
        E.prove(f'{P}: {name} gives a new set', all(root is not None and root.cellno != a.block.cellno for _, root, _ in E.ref_cases(t)))
        mem = E.ref_mem(t)
        E.prove(f'{P}: {name} gives what its documentation says', forall([Val], lambda z: mem(z) == SAYS[name](m(x, z), m(y, z))))
        E.cover('an operation is applied')
    return f


def t_members(E):
    """Every operation has a contract."""
    E.hooks.clear()
    ms = E.cls('condition.Operation').members
    E.prove(f'{P}: the documented operations are there', set(SAYS) <= set(ms))


TASKS = [('operations', t_members)] + [(f'operation/{n}', operation(n)) for n in SAYS] + [(f'operation/{n}/one set', operation(n, True)) for n in SAYS]


class World:
    """A condition with operations, for any nodes, and a graph that has them."""

    def __init__(self, E, cls='condition._GSCWithOperations', ignore=False):
        self.E = E
        heap.begin(E)
        E.hooks['unroll'] = lambda E, st, fr: False
        # _process is given a copy of its own (task of C18), and may use it up
        self.g = heap.Input(E, frozen=False, shared=False)
        g = self.g
        self.owner = E.fresh(Val, 'owner')
        # a list of at least one node, some perhaps listed more than once
        nodes = E.new_root(TList(TS(Val), 'tuple'), 'subject nodes')
        nodes.frozen = True
        n, e = nodes.leaves[('len',)](), nodes.leaves[('e',)]
        self.isn, at = E.fresh_fn([Val], B, 'is a subject node'), E.fresh_fn([Val], I, 'place of subject node')
        self.nodes = E.view(nodes)
        E.assume(n >= 1)
        E.assume(forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < n), self.isn(e(i)))))
        E.assume(forall([Val], lambda x: z3.Implies(self.isn(x), z3.And(0 <= at(x), at(x) < n, e(at(x)) == x))))
        E.hooks['contains'] = lambda E, c, x: V(self.isn(E.to_term(x, Val))) if isinstance(c, View) and c is self.nodes else None
        E.assume(neg(self.isn(self.owner)))
        E.assume(g.dom(self.owner))
        E.assume(forall([Val], lambda n: z3.Implies(self.isn(n), g.dom(n))))
        c = self.c = E.new_obj(E.cls(cls))
        opc = E.cls('condition.Operation')
        # an operation decides by membership in the two sets, and gives nothing from nowhere (tasks operation/*)
        both, one, other = [z3.Function(f'keeps those in {w}', RefS, B) for w in ('both', 'the source only', 'the comparison only')]
        self.app = lambda op, s, c: z3.Or(z3.And(s, c, both(op)), z3.And(s, z3.Not(c), one(op)), z3.And(c, z3.Not(s), other(op)))
        self.os, self.orr = E.fresh(RefS, 'owner senders'), E.fresh(RefS, 'owner receivers')
        self.ss, self.sr = E.fresh_fn([Val], RefS, 'subject senders'), E.fresh_fn([Val], RefS, 'subject receivers')
        ms, mr = Opaque('subject senders'), Opaque('subject receivers')
        c.attrs.update(_owner=V(self.owner), nodes=self.nodes, owner_senders=V(self.os, opc), owner_receivers=V(self.orr, opc),
                       subject_senders=ms, subject_receivers=mr, ignore_conflicts=ignore)
        # the senders and the receivers of the subject nodes together
        self.us, self.ur = E.fresh_fn([Val], B, 'sender of a subject'), E.fresh_fn([Val], B, 'receiver of a subject')
        E.assume(forall([Val], lambda x: self.us(x) == exists([Val], lambda m: z3.And(self.isn(m), g.mem(m, x)))))
        E.assume(forall([Val], lambda x: self.ur(x) == exists([Val], lambda m: z3.And(self.isn(m), g.dom(x), g.mem(x, m)))))
        self.ns, self.nr = E.fresh_fn([Val, Val], B, 'new senders'), E.fresh_fn([Val, Val], B, 'new receivers')
        E.assume(forall([Val, Val], lambda n, x: self.ns(n, x) == self.S(n, x)))
        E.assume(forall([Val, Val], lambda n, x: self.nr(n, x) == self.R(n, x)))
        E.contracts['condition.Operation.__call__'] = self.operate

        def subject(E, f, a, k):
            a = list(a[1:]) + list(k.values())
            fn = self.ss if a[0] is ms else self.sr if a[0] is mr else None
            if fn is None:
                raise Unsupported('subject operations')
            n = E.to_term(a[1], Val)
            E.prove(f'{P}: only the operations of subject nodes are looked up', self.isn(n))
            return V(fn(n), opc)
        E.contracts['condition._GSCWithOperations._get_subject_operation'] = subject
        E.contracts['utilities.get_receivers'] = self.receivers
        E.contracts['utilities.cached_graph_function.graph_function_wrapper'] = self.wrapper

    def sub(self, n):
        return z3.Or(n == self.owner, self.isn(n))

    def operate(self, E, f, a, k):
        """Contract of Operation.__call__ (tasks operation/*): a new set, of the result of the operation."""
        a = list(a) + list(k.values())
        op = E.to_term(a[0], RefS)
        s, c = E.set_mem(a[1], Val), E.set_mem(a[2], Val)
        # the neighbours that the operations of the condition give have names
        g, o = self.g, self.owner
        node = op.arg(0) if z3.is_app(op) and op.num_args() == 1 else o
        rec = lambda s, n: z3.And(g.dom(n), g.mem(n, s))
        for t, src, cmp, res in ((self.os, lambda x: g.mem(o, x), self.us, lambda x: self.ns(o, x)), (self.orr, lambda x: rec(o, x), self.ur, lambda x: self.nr(o, x)),
                                 (self.ss(node), lambda x: g.mem(node, x), lambda x: g.mem(o, x), lambda x: self.ns(node, x)),
                                 (self.sr(node), lambda x: rec(node, x), lambda x: rec(o, x), lambda x: self.nr(node, x))):
            if op.eq(t) and (node is o or E.holds(self.isn(node))) and E.holds(forall([Val], lambda x: z3.And(s(x) == src(x), c(x) == cmp(x)))):
                return E.new_sym('set', TSet(Val), {('mem',): res}, 'result of an operation')
        return E.new_sym('set', TSet(Val), {('mem',): lambda x: self.app(op, s(x), c(x))}, 'result of an operation')

    def wrapper(self, E, f, a, k):
        inner = f.closure.vars.get('func')
        if getattr(inner, 'qual', '') == 'utilities.get_receivers':
            return self.receivers(E, f, a, k)
        return E.call_body(f, a, k)

    def receivers(self, E, f, a, k):
        """Contract of get_receivers (C21)."""
        lv = E.leaves_of(a[0], GRAPH)
        dom, mem = lv[('dom',)], lv[('v', 'mem')]
        b = E.cell_block(Val, 'receivers')
        b.leaves[('v', 'mem')] = lambda n, x: z3.And(dom(x), mem(x, n))
        r = E.new_root(HGRAPH, 'receivers', leaves={('dom',): lambda n: z3.Or(dom(n), exists([Val], lambda x: z3.And(dom(x), mem(x, n)))), ('v',): lambda n: b.cellf(n)})
        return E.new_cont('dict', v=E.view(r))


    def S(self, n, x):
        """x is a sender of n according to the sender operation of n."""
        g, app = self.g, self.app
        return z3.If(n == self.owner, app(self.os, g.mem(n, x), self.us(x)), app(self.ss(n), g.mem(n, x), g.mem(self.owner, x)))

    def R(self, s, n):
        """n is a receiver of s according to the receiver operation of s."""
        g, app = self.g, self.app
        rec = lambda s, n: z3.And(g.dom(n), g.mem(n, s))
        return z3.If(s == self.owner, app(self.orr, rec(s, n), self.ur(n)), app(self.sr(s), rec(s, n), rec(self.owner, n)))

    def conflict(self, s, n):
        return z3.And(self.sub(s), self.sub(n), z3.Xor(self.ns(n, s), self.nr(s, n)))


def conflicts(W):
    """Contract of _get_edge_conflicts (task conflicts): strings exactly if the operations disagree about the edge."""
    def h(E, f, a, k):
        names = ['self', 'sender', 'receiver', 'new_sender_nodes', 'new_receiver_nodes', 'old_sender_nodes', 'old_receiver_nodes']
        p = dict(zip(names, a), **k)
        s, n = E.to_term(p['sender'], Val), E.to_term(p['receiver'], Val)
        lv = {q: E.leaves_of(p[q], GRAPH) for q in names[5:]}
        os, orr = [lv[q][('dom',)] for q in lv]
        E.prove(f'{P}: conflicts are looked up for known nodes', z3.And(os(n), os(W.owner), orr(s), orr(W.owner), forall([Val], lambda m: z3.Implies(W.isn(m), z3.And(os(m), orr(m))))), keep=False)
        S, R, s, n = p['new_sender_nodes'], p['new_receiver_nodes'], p['sender'], p['receiver']
        has = lambda x, d: E.truth(E.contains(d, x))
        c = has(n, S) and has(s, R) and has(s, E.getitem(S, n)) != has(n, E.getitem(R, s))
        return E.new_cont('list', [Opaque('conflict')] if c else [])
    return h


def t_conflicts(E):
    W = World(E)
    E.hooks['bag'] = True
    del E.contracts['condition._GSCWithOperations._get_subject_operation']
    E.contracts['condition._GSCWithOperations._get_conflict_application_string'] = lambda E, f, a, k: Opaque('string')
    E.assumptions.add('the texts of error messages are not looked at')
    gs = {q: heap.Input(E, q) for q in ('new senders', 'new receivers', 'old senders', 'old receivers')}
    s, n = E.fresh(Val, 'sender'), E.fresh(Val, 'receiver')
    os, orr = gs['old senders'].dom, gs['old receivers'].dom
    E.assume(z3.And(os(n), os(W.owner), orr(s), orr(W.owner), forall([Val], lambda m: z3.Implies(W.isn(m), z3.And(os(m), orr(m))))))
    E.declare_cover('a conflict')
    E.declare_cover('no conflict')
    r = E.call_body(E.fn('condition._GSCWithOperations._get_edge_conflicts'), [W.c, V(s), V(n)] + [g.v for g in gs.values()], {})
    ns, nr = gs['new senders'], gs['new receivers']
    some = E.truth(E.compare('>', E.length(r), 0))
    E.prove(f'{P}: conflicts are reported exactly where sender and receiver operations disagree', z3.BoolVal(some) == z3.And(ns.dom(n), nr.dom(s), z3.Xor(ns.mem(n, s), nr.mem(s, n))))
    E.cover('a conflict' if some else 'no conflict')


def t_process(ignore):
    def f(E):
        W = World(E, ignore=ignore)
        g = W.g
        E.hooks['bag'] = True
        E.contracts['condition._GSCWithOperations._get_edge_conflicts'] = conflicts(W)
        E.declare_cover('a graph is transformed')
        if not ignore:
            E.declare_cover('a transformation is refused')
        bad = exists([Val, Val], lambda s, n: W.conflict(s, n))
        try:
            r = E.call_body(E.fn('condition._GSCWithOperations._process'), [W.c, g.v], {})
        except PyRaise as e:
            E.prove(f'{P}: a transformation is refused with ConditionError', e.cname == 'ConditionError')
            E.prove(f'{P}: nothing is refused unless two operations disagree about an edge', z3.BoolVal(False) if ignore else bad)
            E.cover('a transformation is refused')
            return
        if not ignore:
            E.prove(f'{P}: a transformation with conflicts is refused', neg(bad))
        R = heap.Result(E, P, r, 'transformed graph')
        R.is_graph(g.dom, lambda n, s: z3.If(W.sub(s), W.nr(s, n), z3.If(W.sub(n), W.ns(n, s), g.mem(n, s))), 'the nodes of the graph, with the neighbours the operations give')
        R.fresh(what='no two nodes of the result share a set')
        E.cover('a graph is transformed')
    return f


TASKS += [('conflicts', t_conflicts), ('process', t_process(False)), ('process/conflicts ignored', t_process(True))]


# ---------------------------------------------------------------- how operations are given
ARGS = ['owner_senders', 'owner_receivers', 'subject_senders', 'subject_receivers']


def spelt(name, how):
    return {'upper': name, 'lower': name.lower(), 'mixed': name.title()}[how]


def t_parse(name):
    """An operation and its name in any case are the same operation."""
    def f(E):
        heap.begin(E)
        ms = E.cls('condition.Operation').members
        c = E.new_obj(E.cls('condition.BeforeNodes'))
        for how in ('upper', 'lower', 'mixed', None):
            x = ms[name] if how is None else spelt(name, how)
            r = E.call(E.getattr(c, '_parse_operation_arg'), [x], {})
            E.prove(f'{P}: an operation may be given by its name', r is ms[name])
        E.cover('an operation is named')
    return f


def t_subject_operation(E):
    """The operation of a subject node: the one given for all, or its own."""
    heap.begin(E)
    ms = E.cls('condition.Operation').members
    c = E.new_obj(E.cls('condition.BeforeNodes'))
    n = E.fresh(Val, 'subject')
    f = E.getattr(c, '_get_subject_operation')
    for w in ('one for all', 'one for each', 'missing'):
        E.declare_cover(w)
    if E.pick([True, False]):
        op = ms[E.pick(sorted(ms))]
        E.prove(f'{P}: one operation is the operation of every subject node', E.call(f, [op, V(n)], {}) is op)
        E.cover('one for all')
        return
    r = E.new_root(TDict(Val, TS(RefS, E.cls('condition.Operation'))), 'operations')
    r.frozen = True
    d, v = r.leaves[('dom',)], r.leaves[('v',)]
    try:
        x = E.call(f, [E.view(r), V(n)], {})
    except PyRaise as e:
        E.prove(f'{P}: a missing operation is a condition error', e.cname == 'ConditionError')
        E.prove(f'{P}: only a missing operation is refused', neg(d(n)))
        E.cover('missing')
        return
    E.prove(f'{P}: every subject node has its own operation', z3.And(d(n), E.to_term(x, RefS) == v(n)) if isinstance(x, V) else False)
    E.cover('one for each')


def t_arguments(cls):
    """A condition keeps the operations it is given, for each of its nodes."""
    def f(E):
        heap.begin(E)
        ms = E.cls('condition.Operation').members
        C = E.cls(f'condition.{cls}')
        one = cls in ('BeforeNode', 'AfterNode', 'WithNode')
        ns = [E.fresh(Val, f'node {i}') for i in range(1 if one else 2)]
        if not one:
            E.assume(ns[0] != ns[1])
        E.declare_cover('one operation')
        E.declare_cover('an operation for each node')
        args = [a for a in ARGS if a.endswith('receivers')] if cls == 'WithNode' else ARGS
        arg = E.pick(args)
        names = sorted(ms)
        i = E.choose(len(names))
        x, y = names[i], names[(i + 1) % len(names)]
        single = not arg.startswith('subject') or E.pick([True, False])
        if single:
            given = E.pick([ms[x], x.lower()])
        else:
            given = E.new_cont('dict', [[V(n), v] for n, v in zip(ns, (ms[x], y.lower()))])
        flags = ['reconnect_non_subject_receivers', 'remove_new_self_referential_edges', 'prune_cycles', 'ignore_conflicts']
        flag = E.pick([(k, v) for k in flags for v in (True, False)]) if single and i == 0 else (flags[0], True)
        c = E.call(C, [V(n) for n in ns], {arg: given, flag[0]: flag[1]})
        E.prove(f'{P}: the nodes are the ones given', E.length(E.getattr(c, 'nodes')) == len(ns))
        E.prove(f'{P}: options are kept', E.getattr(c, flag[0]) is flag[1])
        op = E.getattr(c, arg)
        if single:
            E.prove(f'{P}: a condition keeps the operations it is given', op is ms[x])
            E.cover('one operation')
            return
        for n, v in zip(ns, (x, y)):
            r = E.call(E.getattr(c, '_get_subject_operation'), [op, V(n)], {})
            E.prove(f'{P}: a condition keeps the operations it is given for every node', r is ms[v])
        E.cover('an operation for each node')
    return f


TASKS += [(f'name/{n}', t_parse(n)) for n in SAYS] + [('subject operation', t_subject_operation)]
TASKS += [(f'arguments/{c}', t_arguments(c)) for c in ('BeforeNode', 'BeforeNodes', 'AfterNode', 'AfterNodes', 'WithNode')]
