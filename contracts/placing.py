"""Placement of nodes: the functions behind AddEdgeTo ... WithNode, for C18 (whose sets are whose) and C19 (which edges there are)."""
from .common import *
from . import heap
from .heap import HGRAPH
from .graphs import GRAPH

CLASSES = ('BeforeNode', 'BeforeNodes', 'AfterNode', 'AfterNodes', 'WithNode')
SINGLE = ('BeforeNode', 'AfterNode', 'WithNode', 'AddEdgeTo', 'RemoveEdgeFrom')
FLAGS = ('reconnect_non_subject_receivers', 'remove_new_self_referential_edges', 'prune_cycles')
CYCLE = BuiltinClass(type('Cycle', (), {}), 'cycle')


class Place:
    """A condition of a class, with any owner, nodes and options; a graph given (base) and the graph being made of it."""

    def __init__(self, E, pid, cls, graph=True, known=True):
        self.E, self.pid, self.cls = E, pid, cls
        heap.begin(E)
        E.hooks['unroll'] = lambda E, st, fr: False
        E.hooks['warn'] = lambda *a: None
        self.base = heap.Input(E, 'base graph')
        self.owner = E.fresh(Val, 'owner')
        c = self.c = E.new_obj(E.cls('condition.' + cls))
        if cls in SINGLE:
            self.node = E.fresh(Val, 'node')
            self.isn = lambda n: n == self.node
            nodes = (V(self.node),)
            self.nodes = None
        else:
            # a list of at least one node, some perhaps listed more than once
            r = E.new_root(TList(TS(Val), 'tuple'), 'subject nodes')
            r.frozen = True
            n, e = r.leaves[('len',)](), r.leaves[('e',)]
            self.isn, at = E.fresh_fn([Val], B, 'is a subject node'), E.fresh_fn([Val], I, 'place of subject node')
            nodes = self.nodes = E.view(r)
            E.assume(n >= 1)
            E.assume(forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < n), self.isn(e(i)))))
            E.assume(forall([Val], lambda x: z3.Implies(self.isn(x), z3.And(0 <= at(x), at(x) < n, e(at(x)) == x))))
        E.assume(neg(self.isn(self.owner)))
        # the condition is about nodes of the graph
        self.known = z3.And(self.base.dom(self.owner), forall([Val], lambda n: z3.Implies(self.isn(n), self.base.dom(n))))
        if known:
            E.assume(self.known)
        self.flag = {k: E.fresh(B, k) for k in FLAGS}
        c.attrs.update(_owner=V(self.owner), nodes=nodes, kwargs=E.new_cont('dict'), **{k: V(t) for k, t in self.flag.items()})
        self.g = None
        if graph:
            g = self.g = heap.Input(E, 'graph', frozen=False, shared=False)
            E.assume(forall([Val], lambda n: g.dom(n) == self.base.dom(n)))
            # the graph as it is now (its sets change in place)
            self.block = g.block
        E.contracts['utilities.cached_graph_function.graph_function_wrapper'] = self.wrapper
        E.hooks['sorted'] = self.sorted
        E.hooks['iterate'] = lambda E, v: self.elements(v) if isinstance(v, V) and v.cls is CYCLE else None
        E.hooks['length'] = lambda E, v: V(self.clen(v.t)) if isinstance(v, V) and v.cls is CYCLE else None
        E.hooks['getitem'] = self.getitem
        E.hooks['contains'] = self.contains
        self.clen, self.cat = E.fresh_fn([RefS], I, 'length of cycle'), E.fresh_fn([RefS, I], Val, 'node of cycle')
        E.assume(forall([RefS], lambda c: self.clen(c) >= 1))
        E.assume(forall([RefS, I], lambda c, i: z3.Implies(z3.And(0 <= i, i < self.clen(c)), self.base.dom(self.cat(c, i)))))
        self.cards = []
        E.hooks['card'] = self.card
        E.inv_pool = [self.pool]

    # ---- finite sets
    def card(self, E, c, sorts, mem):
        # (number of elements, which)
        S, = sorts
        if self.nodes is not None and not self.cards:
            n = E.length(self.nodes).t
            self.cards.append((I, n, lambda i: z3.And(0 <= i, i < n)))
        for S2, c2, m2 in self.cards:
            if S2 is not S:
                continue
            for (a, ma), (b, mb) in (((c, mem), (c2, m2)), ((c2, m2), (c, mem))):
                sub = forall([S], lambda x: z3.Implies(ma(x), mb(x)))
                E.assume(z3.Implies(sub, z3.And(a <= b, z3.Implies(a == b, forall([S], lambda x: ma(x) == mb(x))))))
        self.cards.append((S, c, mem))

    # ---- cycles: sequences of nodes
    def elements(self, v):
        c = v.t
        return SymIter([I], lambda i: z3.And(0 <= i, i < self.clen(c)), lambda i: V(self.cat(c, i)), ordered=True, length=self.clen(c))

    def getitem(self, E, c, k):
        if not (isinstance(c, V) and c.cls is CYCLE):
            return None
        i, n = E.to_term(k, I), self.clen(c.t)
        if not E.branch(z3.And(-n <= i, i < n)):
            E.raise_('IndexError')
        return V(self.cat(c.t, z3.If(i < 0, i + n, i)))

    def contains(self, E, c, x):
        if isinstance(c, View) and c is self.nodes:
            return V(self.isn(E.to_term(x, Val)))
        if not (isinstance(c, V) and c.cls is CYCLE):
            return None
        t = E.to_term(x, Val)
        return V(exists([I], lambda i: z3.And(0 <= i, i < self.clen(c.t), self.cat(c.t, i) == t)))

    def sorted(self, E, it):
        if it.sorts == [I] and it.length is not None:
            n, p = it.length, E.fresh_fn([I], I, 'sorted')
            E.assume(forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= p(i), p(i) < n))))
            val = it.val
            return SymIter([I], lambda i: z3.And(0 <= i, i < n), lambda i: val(p(i)), ordered=True, length=n)
        return SymIter(it.sorts, it.mem, it.val, ordered=False, length=None, distinct=it.distinct)

    # ---- what is known of graphs
    def wrapper(self, E, f, a, k):
        name = getattr(f.closure.vars.get('func'), 'qual', '')
        if name == 'utilities.get_simple_cycles':
            E.assumptions.add('simple cycles are lists of nodes of the graph (C21)')
            r = E.new_sym('list', TList(TS(RefS, CYCLE)), {('len',): (lambda n=E.fresh(I, 'cycles'): n), ('e',): E.fresh_fn([I], RefS, 'cycle')}, 'cycles')
            E.assume(E.length(r).t >= 0)
            return r
        lv = E.leaves_of(a[0], GRAPH)
        dom, mem = lv[('dom',)], lv[('v', 'mem')]
        b = E.cell_block(Val, 'neighbours')
        d = dom
        if name == 'utilities.get_receivers':
            b.leaves[('v', 'mem')] = lambda n, x: z3.And(dom(x), mem(x, n))
            d = lambda n: z3.Or(dom(n), exists([Val], lambda x: z3.And(dom(x), mem(x, n))))
        elif name not in ('utilities.get_ancestors', 'utilities.get_descendants'):
            return E.call_body(f, a, k)
        r = E.new_root(HGRAPH, 'neighbours', leaves={('dom',): d, ('v',): lambda n: b.cellf(n)})
        return E.new_cont('dict', v=E.view(r))

    # ---- what a graph is required to be
    def placed(self, mem):
        """The edges the condition asks for."""
        o = self.owner
        if self.cls.startswith('Before'):
            return forall([Val], lambda n: z3.Implies(self.isn(n), mem(n, o)))
        if self.cls.startswith('After'):
            return forall([Val], lambda n: z3.Implies(self.isn(n), mem(o, n)))
        return forall([Val], lambda x: mem(o, x) == mem(self.node, x))

    def now(self):
        m = self.block.leaves[('v', 'mem')]
        return lambda n, s: m(n, s)

    def pool(self, E, l):
        out = []
        if self.g is None:
            return out
        m, b, st = self.now(), self.base.mem, self.start
        if l.kind == 'for' and not E.loopstack and z3.is_false(z3.simplify(l.visited(*[z3.Const('any', s) for s in l.it.sorts]))):
            self.mid = m    # the graph when the (outermost) loop begins
        d = self.base.dom
        out.append(('the edges asked for are there', self.placed(m)))
        out.append(('no new self edges', forall([Val], lambda n: z3.Implies(m(n, n), st(n, n)))))
        out.append(('no new self edges but those of the base graph', forall([Val], lambda n: z3.Implies(z3.And(d(n), m(n, n)), b(n, n)))))
        if l.kind == 'for' and l.it is not None and l.it.sorts == [Val]:
            out.append(('nodes visited have no new self edge', forall([Val], lambda n: z3.Implies(z3.And(l.visited(n), m(n, n)), b(n, n)))))
            if self.cls == 'WithNode':
                o, w = self.owner, self.node
                mid = self.mid
                for w_, p, q in (('owner', o, w), ('node', w, o)):
                    out.append((f'common senders: {w_}', forall([Val], lambda x: m(p, x) == z3.If(l.visited(p), z3.And(mid(p, x), mid(q, x)), mid(p, x)))))
                out.append(('the other sets', forall([Val, Val], lambda n, x: z3.Implies(z3.And(n != o, n != w), m(n, x) == mid(n, x)))))
        return out

    def begin(self):
        """The graph at the beginning of the function."""
        self.start = self.mid = self.now()

    # ---- contracts of the functions of a transformation
    def required(self, r, s):
        """The edge from s to r is one the condition asks for."""
        if self.cls.startswith('Before'):
            return z3.And(self.isn(r), s == self.owner)
        if self.cls.startswith('After'):
            return z3.And(self.isn(s), r == self.owner)
        return z3.Or(r == self.owner, r == self.node)

    def is_base(self, v, what):
        """v is the graph that was given."""
        E = self.E
        v = E.norm(v)
        E.prove(f'{self.pid}: {what}: is compared with the graph given', isinstance(v, View) and v.root is self.base.root)

    def is_own(self, v, what):
        E = self.E
        v = E.norm(v)
        E.prove(f'{self.pid}: {what}: is given the graph being made', isinstance(v, View) and self.g is not None and v.root is self.g.root)

    def change(self, mem):
        """The sets of the graph being made get other contents, in place."""
        self.E.write_leaf(self.block, ('v', 'mem'), (), mem)

    def prune_owner_edge(self, E, f, a, k):
        """Contract of _prune_owner_edge (tasks _prune_owner_edge/*)."""
        p = dict(zip(['self', 'owner_idx', 'cycle', 'graph', 'base_graph'], a), **k)
        self.is_own(p['graph'], 'pruning')
        self.is_base(p['base_graph'], 'pruning')
        c = E.norm(p['cycle'])
        if not (isinstance(c, V) and c.cls is CYCLE):
            raise Unsupported('pruning without a cycle')
        t = E.to_term(p['owner_idx'], I)
        E.prove(f'{self.pid}: pruning: the owner is at the index given', self.cat(c.t, t % self.clen(c.t)) == self.owner)
        m, new = self.now(), E.fresh_fn([Val, Val], B, 'edges after pruning')
        E.assume(forall([Val, Val], lambda n, s: z3.Implies(new(n, s), m(n, s))))
        E.assume(forall([Val, Val], lambda n, s: z3.Implies(z3.And(self.required(n, s), m(n, s)), new(n, s))))
        self.change(new)
        return None

    def in_place(self, fname):
        """Contract of a step of _postprocess (tasks of that name): the sets of the graph change, as the step promises."""
        def h(E, f, a, k):
            p = dict(zip(['self', 'graph', 'base_graph'], a), **k)
            self.is_own(p['graph'], fname)
            self.is_base(p['base_graph'], fname)
            m, new = self.now(), E.fresh_fn([Val, Val], B, f'edges after {fname}')
            E.prove(f'{self.pid}: {fname}: the edges asked for are there before', self.placed(m))
            d, b = self.base.dom, self.base.mem
            E.assume(self.placed(new))
            E.assume(forall([Val], lambda n: z3.Implies(z3.And(d(n), new(n, n)), m(n, n))))
            if fname == STEPS[0][0]:
                E.assume(z3.Implies(self.flag['remove_new_self_referential_edges'], forall([Val], lambda n: z3.Implies(z3.And(d(n), new(n, n)), b(n, n)))))
            self.change(new)
            return p['graph']
        return h

    def owns(self, v, what):
        """v is a graph of the same nodes whose sets belong to nothing else: it becomes the graph being made."""
        E = self.E
        v = E.norm(v)
        if not isinstance(v, View):
            raise Unsupported(f'{what}: not a graph')
        n = E.fresh(Val, 'any node')
        cases = E.ref_cases(z3.simplify(E.leaf_at(v, 'v', n)))
        E.prove(f'{self.pid}: {what}: gets the nodes of the graph given', forall([Val], lambda n: E.leaf_at(v, 'dom', n) == self.base.dom(n)))
        ok = len(cases) == 1 and cases[0][1] is not None and cases[0][1].cellno != self.base.block.cellno and len(cases[0][2]) == 1 and cases[0][2][0].eq(n)
        if not ok:
            E.prove(f'{self.pid}: {what}: gets a graph whose sets are its own', False)
        return v, cases[0][1]

    def new_graph(self, name):
        E = self.E
        b = E.cell_block(Val, name)
        r = E.new_root(HGRAPH, name, leaves={('dom',): self.base.dom, ('v',): lambda n: b.cellf(n)})
        return E.view(r), b

    def preprocess(self, E, f, a, k):
        """Contract of _preprocess (tasks _preprocess/*): may take edges away, in place."""
        p = dict(zip(['self', 'graph'], a), **k)
        v, b = self.owns(p['graph'], '_preprocess')
        E.write_leaf(b, ('v', 'mem'), (), E.fresh_fn([Val, Val], B, 'edges before'))
        return v

    def process(self, E, f, a, k):
        """Contract of _process (tasks _process/*): a new graph of the same nodes, with the edges asked for."""
        p = dict(zip(['self', 'graph'], a), **k)
        self.owns(p['graph'], '_process')
        v, b = self.new_graph('processed graph')
        m = b.leaves[('v', 'mem')]
        E.assume(self.placed(lambda n, s: m(n, s)))
        return v

    def operations(self, E, f, a, k):
        """Contract of _GSCWithOperations._process (C20): a new graph of the same nodes, whose sets are its own, or an error."""
        p = dict(zip(['self', 'graph'], a), **k)
        self.owns(p['graph'], '_process of the operations')
        if E.branch(E.fresh(B, 'operations in conflict')):
            raise PyRaise(E.new_obj(E.cls('condition.ConditionError')))
        return self.new_graph('processed graph')[0]

    def postprocess(self, E, f, a, k):
        """Contract of _postprocess (tasks _postprocess/*)."""
        p = dict(zip(['self', 'graph', 'base_graph'], a), **k)
        v, b = self.owns(p['graph'], '_postprocess')
        lv = E.leaves_of(p['base_graph'], GRAPH)
        bd, bm = lv[('dom',)], lv[('v', 'mem')]
        W = self
        E.prove(f'{W.pid}: _postprocess: the graph is compared with the one given', forall([Val, Val], lambda n, s: z3.And(bd(n) == W.base.dom(n), z3.Implies(bd(n), bm(n, s) == W.base.mem(n, s)))))
        m, new = b.leaves[('v', 'mem')], E.fresh_fn([Val, Val], B, 'edges at last')
        E.prove(f'{W.pid}: _postprocess: the edges asked for are there before', W.placed(lambda n, s: m(n, s)))
        E.assume(W.placed(new))
        E.assume(z3.Implies(W.flag['remove_new_self_referential_edges'], forall([Val], lambda n: z3.Implies(z3.And(bd(n), new(n, n)), bm(n, n)))))
        E.write_leaf(b, ('v', 'mem'), (), new)
        return v

    def clone(self, E, f, a, k):
        """Contract of clone_graph (C21): the same edges, in sets of their own."""
        lv = E.leaves_of((list(a) + list(k.values()))[0], GRAPH)
        dom, mem = lv[('dom',)], lv[('v', 'mem')]
        b = E.cell_block(Val, 'clone')
        b.leaves[('v', 'mem')] = lambda n, s: mem(n, s)
        return E.view(E.new_root(HGRAPH, 'clone', leaves={('dom',): dom, ('v',): lambda n: b.cellf(n)}))

    def valid(self):
        """The condition is fulfilled for all nodes."""
        m, o = self.base.mem, self.owner
        return self.placed(m)


def qual(E, cls, fname):
    return E.class_lookup(E.cls('condition.' + cls), fname)


def t_step(fname, post):
    def make(pid, cls):
        def f(E):
            W = Place(E, pid, cls)
            if fname == '_handle_prune_cycles':
                E.contracts[qual(E, cls, '_prune_owner_edge').qual] = W.prune_owner_edge
            W.begin()
            E.assume(W.placed(W.start))
            E.declare_cover('done')
            r = E.call_body(qual(E, cls, fname), [W.c, W.g.v, W.base.v], {})
            E.cover('done')
            W.is_own(r, f'{fname} returns what it was given, and')
            check(W, r, fname, post)
        return f
    return make


def t_prune(pid, cls):
    def f(E):
        W = Place(E, pid, cls)
        W.begin()
        st = W.start
        E.declare_cover('done')
        c, i = E.fresh(RefS, 'cycle'), E.fresh(I, 'index of owner')
        E.assume(W.cat(c, i % W.clen(c)) == W.owner)
        E.call_body(qual(E, cls, '_prune_owner_edge'), [W.c, V(i), V(c, CYCLE), W.g.v, W.base.v], {})
        E.cover('done')
        R = heap.Result(E, pid, W.g.v, '_prune_owner_edge')
        if pid == 'C18':
            E.prove(f'{pid}: _prune_owner_edge: the same nodes', forall([Val], lambda n: R.dom(n) == W.base.dom(n)))
            R.fresh([W.base], '_prune_owner_edge: no set of the given graph, and no set twice')
            return
        E.prove(f'{pid}: _prune_owner_edge adds no edge', forall([Val, Val], lambda n, s: z3.Implies(z3.And(R.dom(n), R.mem(n, s)), st(n, s))))
        E.prove(f'{pid}: _prune_owner_edge keeps the edges asked for', forall([Val, Val], lambda n, s: z3.Implies(z3.And(R.dom(n), W.required(n, s), st(n, s)), R.mem(n, s))))
    return f


def result(W, r, what):
    E, pid = W.E, W.pid
    R = heap.Result(E, pid, r, what)
    E.prove(f'{pid}: {what}: the same nodes', forall([Val], lambda n: R.dom(n) == W.base.dom(n)))
    if pid == 'C18':
        E.prove(f'{pid}: {what}: another dictionary', isinstance(R.view, Cont) or R.view.root is not W.base.root)
    R.fresh([W.base], f'{what}: no set of the given graph, and no set twice')
    return R


def t_preprocess(pid, cls):
    def f(E):
        W = Place(E, pid, cls)
        W.begin()
        r = E.call_body(qual(E, cls, '_preprocess'), [W.c, W.g.v], {})
        E.cover('done')
        result(W, r, '_preprocess')
    return f


def t_process(pid, cls):
    def f(E):
        W = Place(E, pid, cls)
        W.begin()
        E.contracts[E.fn('condition._GSCWithOperations._process').qual] = W.operations
        E.declare_cover('done')
        E.declare_cover('refused')
        try:
            r = E.call_body(qual(E, cls, '_process'), [W.c, W.g.v], {})
        except PyRaise as e:
            E.prove(f'{pid}: _process: only operations in conflict are refused', e.cname == 'ConditionError')
            E.cover('refused')
            return
        E.cover('done')
        R = result(W, r, '_process')
        if pid == 'C19':
            E.prove(f'{pid}: _process makes the edges asked for', W.placed(R.mem))
    return f


def t_postprocess(pid, cls):
    def f(E):
        W = Place(E, pid, cls)
        W.begin()
        E.assume(W.placed(W.start))
        for name, _ in STEPS:
            E.contracts[qual(E, cls, name).qual] = W.in_place(name)
        r = E.call_body(qual(E, cls, '_postprocess'), [W.c, W.g.v, W.base.v], {})
        E.cover('done')
        R = result(W, r, '_postprocess')
        if pid == 'C19':
            E.prove(f'{pid}: _postprocess: the edges asked for are there', W.placed(R.mem))
            selfs(W, R)
    return f


def selfs(W, R):
    W.E.prove(f'{W.pid}: new self edges are removed if asked', z3.Implies(W.flag['remove_new_self_referential_edges'], forall([Val], lambda n: z3.Implies(z3.And(R.dom(n), R.mem(n, n)), W.base.mem(n, n)))))


def t_validate(pid, cls):
    def f(E):
        W = Place(E, pid, cls, graph=False, known=False)
        E.declare_cover('accepted')
        E.declare_cover('refused')
        # the graph given is frozen: writing to it fails
        E.prove(f'{pid}: _validate_graph: the graph given is as it was', W.base.root.frozen and W.base.block.frozen)
        try:
            E.call_body(qual(E, cls, '_validate_graph'), [W.c, W.base.v], {})
        except PyRaise as e:
            E.prove(f'{pid}: _validate_graph: only nodes that are not in the graph are refused', neg(W.known))
            E.prove(f'{pid}: _validate_graph: refuses with ConditionError', e.cname == 'ConditionError')
            E.cover('refused')
            return
        E.prove(f'{pid}: _validate_graph: nodes that are not in the graph are refused', W.known)
        E.cover('accepted')
    return f


def t_modify(pid, cls):
    """The whole transformation."""
    def f(E):
        W = Place(E, pid, cls, graph=False)
        ops = cls not in ('AddEdgeTo', 'RemoveEdgeFrom')
        E.contracts['utilities.clone_graph'] = W.clone
        E.contracts[qual(E, cls, '_validate_graph').qual] = lambda E, f, a, k: None
        if ops:
            E.contracts[qual(E, cls, '_preprocess').qual] = W.preprocess
            E.contracts[qual(E, cls, '_process').qual] = W.process
            E.contracts[qual(E, cls, '_postprocess').qual] = W.postprocess
        E.declare_cover('done')
        E.declare_cover('refused')
        try:
            r = E.call_body(qual(E, cls, 'modify_graph'), [W.c, W.base.v], {})
        except PyRaise as e:
            E.prove(f'{pid}: modify_graph: nothing is refused unless the condition has no owner', W.owner == E.to_term(None, Val))
            E.prove(f'{pid}: modify_graph: is refused with ConditionError', e.cname == 'ConditionError')
            E.cover('refused')
            return
        E.cover('done')
        R = result(W, r, 'modify_graph')
        if pid != 'C19':
            return
        b, o = W.base.mem, W.owner
        if cls == 'AddEdgeTo':
            R.is_graph(W.base.dom, lambda n, s: z3.Or(b(n, s), z3.And(n == W.node, s == o)), 'exactly the edge from owner to node is added')
            return
        if cls == 'RemoveEdgeFrom':
            R.is_graph(W.base.dom, lambda n, s: z3.And(b(n, s), z3.Not(z3.And(n == o, s == W.node))), 'exactly the edge from node to owner is removed')
            return
        E.prove(f'{pid}: the edges asked for are there', W.placed(R.mem))
        selfs(W, R)
        E.prove(f'{pid}: a condition fulfilled for all its nodes changes nothing', z3.Implies(W.placed(b), forall([Val, Val], lambda n, s: z3.Implies(R.dom(n), R.mem(n, s) == b(n, s)))))
    return f


def check(W, r, fname, post):
    E, pid = W.E, W.pid
    R = heap.Result(E, pid, r, fname)
    d = W.base.dom
    if pid == 'C18':
        E.prove(f'{pid}: {fname}: the same nodes', forall([Val], lambda n: R.dom(n) == d(n)))
        R.fresh([W.base], f'{fname}: no set of the given graph, and no set twice')
    if pid == 'C19':
        post(W, R)


def kept(W, R):
    E, pid = W.E, W.pid
    E.prove(f'{pid}: the edges asked for are kept', W.placed(R.mem))
    E.prove(f'{pid}: no self edge appears', forall([Val], lambda n: z3.Implies(z3.And(R.dom(n), R.mem(n, n)), W.start(n, n))))


def selfless(W, R):
    E, pid = W.E, W.pid
    kept(W, R)
    E.prove(f'{pid}: new self edges are removed if asked', z3.Implies(W.flag['remove_new_self_referential_edges'], forall([Val], lambda n: z3.Implies(z3.And(R.dom(n), R.mem(n, n)), W.base.mem(n, n)))))


STEPS = [('_handle_remove_new_self_referential_edges', selfless), ('_handle_prune_cycles', kept), ('_handle_reconnect_non_subject_receivers', kept)]


def tasks(pid):
    out = []
    out += [(f'_validate_graph/{c}', t_validate(pid, c)) for c in CLASSES + ('AddEdgeTo', 'RemoveEdgeFrom')]
    for c in CLASSES:
        out += [(f'_preprocess/{c}', t_preprocess(pid, c)), (f'_process/{c}', t_process(pid, c)), (f'_postprocess/{c}', t_postprocess(pid, c))]
        out += [(f'{name}/{c}', t_step(name, post)(pid, c)) for name, post in STEPS]
        out += [(f'_prune_owner_edge/{c}', t_prune(pid, c))]
    out += [(f'modify_graph/{c}', t_modify(pid, c)) for c in CLASSES + ('AddEdgeTo', 'RemoveEdgeFrom')]
    return out
