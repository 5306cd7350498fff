"""C17: the scheduler's graph is its structure conditions applied in order."""
from .common import *
from . import c01
from .graphs import GRAPH

LEVEL = 'proof'
LIMIT = 400
NOTE = 'any base graph, any conditions, any history of additions and removals before and after: from every state satisfying the stack invariant, bringing the stacks up to date is proved to give exactly the current conditions applied in order, also after a condition that fails to apply. Assumed: applying a condition is a function of the condition and the graph given (C18: it leaves the graph alone), conditions are compared by identity'
P = 'C17: '


class World:
    """A scheduler whose stacks are consistent, for conditions handled before, and the current conditions of its condition set."""

    def __init__(self, E, last='list'):
        self.E = E
        E.hooks.clear()
        pint_model(E)
        self.gsc = E.cls('condition.GraphStructureCondition')
        for c in ('condition.GraphStructureCondition', 'condition.ConditionBase'):
            if E.class_lookup(E.cls(c), '__eq__') is not None:
                raise Unsupported('conditions are compared by something else than identity')
        E.assumptions.add('applying a graph structure condition is a function of the condition and of the graph given')
        self.app = z3.Function('applied to', RefS, RefS, RefS)
        self.bad = z3.Function('fails to apply to', RefS, RefS, B)
        self.Q = z3.Function('queue of', RefS, RefS)
        self.X = z3.Function('indices of', RefS, RefS)
        new = lambda t, n: E.new_root(t, n)
        L = TList(TS(RefS))
        C_ = TList(TS(RefS, self.gsc))
        self.graphs, self.queues, self.indices = new(L, 'graphs'), new(L, 'queues'), new(L, 'indices')
        self.order = new(C_, 'structural conditions')
        self.base = E.fresh(RefS, 'base graph')
        s = self.s = E.new_obj(E.cls('scheduler.Scheduler'))
        cs = self.cs = E.new_obj(E.cls('condition.ConditionSet'))
        cs.attrs['structural_condition_order'] = E.view(self.order)
        s.attrs.update(conditions=cs, _graphs=E.view(self.graphs), _consideration_queues=E.view(self.queues), _consideration_queue_indices=E.view(self.indices),
                       mode=E.cls('scheduler.SchedulingMode').members['STANDARD'])
        E.assume(self.order.leaves[('len',)]() >= 0)
        if last == 'none':
            self.last = None
            s.attrs['_last_handled_structural_condition_order'] = None
        else:
            self.last = new(C_, 'handled conditions')
            E.assume(self.last.leaves[('len',)]() >= 0)
            s.attrs['_last_handled_structural_condition_order'] = E.view(self.last)
        for f in self.inv(*self.handled()).values():
            E.assume(f)
        H = E.hooks
        H['ref_attr2'] = self.attr
        H['shallow'] = lambda E, v: E.new_sym(E.ckind(v), v.typ, E.leaves_of(v, v.typ), 'copy')
        H['unroll'] = lambda E, st, fr: False
        H['alias'] = self.alias
        # the current conditions; they are not touched
        self.on0, self.oe0 = self.order.leaves[('len',)](), self.order.leaves[('e',)]
        self.order.frozen = True
        E.contracts['condition.GraphStructureCondition.modify_graph'] = self.modify
        E.contracts['scheduler.Scheduler._push_graph'] = self.push
        # the graph after the first i of the current conditions
        self.G = E.fresh_fn([I], RefS, 'graph after the first conditions')
        E.assume(self.G(z3.IntVal(0)) == self.base)
        E.assume(forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < self.on0), self.G(i + 1) == self.app(self.oe0(i), self.G(i)))))
        self.failed = None
        E.inv_pool.append(self.pool)

    def alias(self, E, v, dest):
        E.fail(P + 'the conditions handled are kept apart from the conditions of the condition set', f'{v}')

    def handled(self):
        """(length, element) of the conditions handled."""
        E = self.E
        v = E.norm(self.s.attrs['_last_handled_structural_condition_order'])
        if v is None:
            return z3.IntVal(0), lambda i: self.E.junk(RefS)
        if E.ckind(v) not in ('list', 'tuple'):
            raise Unsupported('handled conditions are not a list')
        lv = E.leaves_of(v, TList(TS(RefS, self.gsc)))
        return lv[('len',)](), lv[('e',)]

    def stacks(self):
        E = self.E
        out = []
        for n in ('_graphs', '_consideration_queues', '_consideration_queue_indices'):
            v = E.norm(self.s.attrs[n])
            lv = E.leaves_of(v, TList(TS(RefS)))
            out += [lv[('len',)](), lv[('e',)]]
        return out

    def inv(self, hn, he):
        gn, ge, qn, qe, xn, xe = self.stacks()
        return {
            'one graph per condition handled, on the base graph': z3.And(gn == hn + 1, ge(z3.IntVal(0)) == self.base),
            'each graph is the condition applied to the graph below': forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < hn), ge(i + 1) == self.app(he(i), ge(i)))),
            'the queues are those of the graphs': z3.And(qn == gn, forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < gn), qe(i) == self.Q(ge(i))))),
            'the indices are those of the queues': z3.And(xn == gn, forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < gn), xe(i) == self.X(qe(i))))),
        }

    def attr(self, E, v, name):
        if v.t.sort() == RefS:
            m = E.class_lookup(v.cls, name) if isinstance(v.cls, ClassVal) else None
            if m is not None and isinstance(m, FuncVal):
                return C.BoundMethod(m, v) if hasattr(C, 'BoundMethod') else None
            return Opaque(name)

    def modify(self, E, f, a, k):
        E.event('a condition is applied')
        args = list(a[1:]) + list(k.values())
        c, g = E.to_term(a[0], RefS), E.to_term(args[0], RefS)
        if E.branch(self.bad(c, g)):
            self.failed = (c, g)
            E.raise_('ValueError', 'this condition fails to apply')
        return V(self.app(c, g))

    def push(self, E, f, a, k):
        """Contract of _push_graph (tasks queue/push, queue/build and queue/indices)."""
        args = list(a[1:]) + list(k.values())
        g = E.to_term(args[0], RefS)
        for n, t in (('_graphs', g), ('_consideration_queues', self.Q(g)), ('_consideration_queue_indices', self.X(self.Q(g)))):
            E.call(E.getattr(self.s.attrs[n], 'append'), [V(t)], {})

    def c_handle(self, E, f, a, k):
        """Contract of _handle_modified_structural_conditions (tasks handle/*), for conditions that apply."""
        n, W = self.on0, E.write_leaf
        for root, el in ((self.graphs, self.G), (self.queues, lambda i: self.Q(self.G(i))), (self.indices, lambda i: self.X(self.Q(self.G(i))))):
            W(root, ('len',), (), lambda: n + 1)
            W(root, ('e',), (), el)
        new = E.new_root(TList(TS(RefS, self.gsc)), 'handled', leaves={('len',): lambda: n, ('e',): self.oe0})
        E.setattr(self.s, '_last_handled_structural_condition_order', E.new_cont('list', v=E.view(new)))

    def pool(self, E, L):
        """Invariants from the state of the stacks at the start of the loop's function."""
        hn, he = self.hn0, self.he0
        gn0, ge0 = self.st0[0], self.st0[1]
        nh, eh = self.handled()
        gn, ge, qn, qe, xn, xe = self.stacks()
        on, oe = self.on0, self.oe0
        out = [(k, f) for k, f in self.inv(nh, eh).items()]
        out += [('stacks/' + k, f) for k, f in {
            'queues': z3.And(qn == gn, forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < gn), qe(i) == self.Q(ge(i))))),
            'indices': z3.And(xn == gn, forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < gn), xe(i) == self.X(qe(i))))),
            'not empty': gn >= 1,
            'a prefix of before': z3.And(gn <= gn0, forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < gn), ge(i) == ge0(i)))),
            'as before': gn == gn0,
            'handled as before': z3.And(nh == hn, forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < hn), eh(i) == he(i)))),
            'handled are the first': z3.And(nh <= on, forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < nh), eh(i) == oe(i)))),
            'the graphs are those of the conditions': z3.And(gn <= on + 1, forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < gn), ge(i) == self.G(i)))),
            'not beyond the conditions': gn <= on + 1,
            'one graph more than handled': gn == nh + 1,
        }.items()]
        if L.i is not None:
            out += [('popped', gn == gn0 - L.i)]
        ints = L.ints()
        for n, t in ints:
            out += [
                (f'common/{n}', lambda t=t: forall([I], lambda i: z3.Implies(z3.And(0 <= i, i <= t), z3.And(i < hn, i < on, he(i) == oe(i))))),
                (f'common/{n}<', lambda t=t: forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < t), z3.And(i < hn, i < on, he(i) == oe(i))))),
                (f'{n}>=-1', t >= -1), (f'{n}>=0', t >= 0), (f'{n}+1<=handled', t + 1 <= hn), (f'{n}+1<=order', t + 1 <= on), (f'{n}<=handled', t <= hn), (f'{n}<=order', t <= on),
                (f'graphs={n}+2', gn == t + 2), (f'handled={n}+1', nh == t + 1), (f'graphs={n}+1', gn == t + 1), (f'handled={n}', nh == t), (f'graphs>={n}+2', gn >= t + 2), (f'graphs>={n}+1', gn >= t + 1),
            ]
            if L.i is not None:
                out += [(f'{n}=i-1', t == L.i - 1), (f'{n}=i', t == L.i), (f'pushed {n}', gn == t + 2 + L.i), (f'handled {n}', nh == t + 1 + L.i), (f'pushed {n}-', gn == t + 1 + L.i), (f'handled {n}-', nh == t + L.i)]
        for n, v in L.locals():
            v = E.norm(v)
            if isinstance(v, V) and v.t.sort() == RefS:
                out.append((f'{n} is the top', lambda v=v: v.t == ge(gn - 1)))
                if isinstance(v.t, z3.ExprRef):
                    out.append((f'{n} is the base', lambda v=v: v.t == self.base))
        return out

    def start(self):
        self.hn0, self.he0 = self.handled()
        self.st0 = self.stacks()

    def consistent(self, what):
        for k, f in self.inv(*self.handled()).items():
            self.E.prove(f'{P}{what}: {k}', f)
        v = self.E.norm(self.s.attrs['_last_handled_structural_condition_order'])
        if v is not None:
            self.E.prove(P + what + ': the conditions handled are kept apart from the conditions of the condition set', not (isinstance(v, View) and v.root is self.order))

    def up_to_date(self, what):
        E = self.E
        hn, he = self.handled()
        gn, ge = self.stacks()[:2]
        E.prove(P + what + ': every current condition has been handled, and no other', z3.And(hn == self.on0, forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < hn), he(i) == self.oe0(i)))))
        self.consistent(what)
        # G and the stack agree: both start with the base graph and apply the same conditions
        induction(E, 'the graphs are those of the current conditions', lambda i: ge(i) == self.G(i), self.on0)
        E.prove(P + what + ': the current graph is the base graph with the current conditions applied in order', ge(gn - 1) == self.G(self.on0))

    def untouched(self, what):
        E = self.E
        E.prove(P + what + ': the conditions are not changed', z3.And(self.order.leaves[('len',)]() == self.on0, forall([I], lambda i: self.order.leaves[('e',)](i) == self.oe0(i))))


def handle(last, entry):
    def f(E):
        W = World(E, last)
        W.start()
        E.declare_cover('brought up to date')
        E.declare_cover('a condition fails to apply')
        E.declare_cover('conditions are removed')
        try:
            if entry == 'handle':
                E.call(E.fn('scheduler.Scheduler._handle_modified_structural_conditions'), [W.s], {})
                r = None
            else:
                E.contracts['scheduler.Scheduler._handle_modified_structural_conditions'] = W.c_handle
                r = E.getattr(W.s, entry)
                E.cover('a condition fails to apply')
        except PyRaise as e:
            if W.failed is None:
                raise
            c, g = W.failed
            E.cover('a condition fails to apply')
            W.consistent('after a condition that fails to apply')
            hn, he = W.handled()
            E.prove(P + 'after a condition that fails to apply: those before it have been handled', z3.And(hn < W.on0, c == W.oe0(hn), forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < hn), he(i) == W.oe0(i)))))
            W.untouched('after a condition that fails to apply')
            return
        E.cover('brought up to date')
        if last == 'none' or E.branch(W.hn0 > W.on0):
            E.cover('conditions are removed')
        W.up_to_date('bringing the graph up to date')
        W.untouched('bringing the graph up to date')
        if entry == 'graph' or entry == 'dependency_dict':
            E.prove(P + 'the graph given is the current one', E.to_term(r, RefS) == W.G(W.on0))
        elif entry == 'consideration_queue':
            E.prove(P + 'the queue given is that of the current graph', E.to_term(r, RefS) == W.Q(W.G(W.on0)))
        elif entry == 'consideration_queue_indices':
            E.prove(P + 'the indices given are those of the queue of the current graph', E.to_term(r, RefS) == W.X(W.Q(W.G(W.on0))))
    return f


def delegate(name):
    """Scheduler.add_condition etc.: the condition set is changed as asked, then the graph is brought up to date (at the latest when it is read)."""
    def f(E):
        E.hooks.clear()
        pint_model(E)
        s, cs = E.new_obj(E.cls('scheduler.Scheduler')), E.new_obj(E.cls('condition.ConditionSet'))
        s.attrs['conditions'] = cs
        log = []
        out = V(E.fresh(RefS, 'result'))
        args = [V(E.fresh(Val, 'owner')), V(E.fresh(RefS, 'condition'))][:2 if name == 'add_condition' else 1]

        def record(what, r):
            def h(E, func, a, k):
                log.append((what, [E.norm(x) for x in list(a) + list(k.values())]))
                return r
            return h
        for m in ('add_condition', 'add_condition_set', 'remove_condition'):
            E.contracts['condition.ConditionSet.' + m] = record(m, out if m == 'remove_condition' else None)
        E.contracts['scheduler.Scheduler._handle_modified_structural_conditions'] = record('handle', None)
        r = E.call(E.fn('scheduler.Scheduler.' + name), [s] + args, {})
        ch = [x for x in log if x[0] != 'handle']
        E.prove(P + name + ': the condition set is changed as asked, once', len(ch) == 1 and ch[0][0] == name and ch[0][1][0] is cs and len(ch[0][1]) == 1 + len(args) and all(isinstance(x, V) and x.t.eq(y.t) for x, y in zip(ch[0][1][1:], args)))
        if name == 'remove_condition':
            E.prove(P + name + ': the removed condition is returned', isinstance(r, V) and r.t.eq(out.t))
    return f


def edge(name):
    """Scheduler.add_graph_edge / remove_graph_edge: a structural condition of the right class is added and returned."""
    def f(E):
        E.hooks.clear()
        pint_model(E)
        s = E.new_obj(E.cls('scheduler.Scheduler'))
        made, added = [], []
        for c in ('AddEdgeTo', 'RemoveEdgeFrom'):
            def ctor(E, cls, a, k, c=c):
                o = E.new_obj(E.cls('condition.' + c))
                made.append((c, list(a) + list(k.values()), o))
                return o
            E.contracts['condition.' + c] = ctor
        E.contracts['scheduler.Scheduler.add_condition'] = lambda E, func, a, k: added.append(list(a[1:]) + list(k.values()))
        x, y = V(E.fresh(Val, 'sender')), V(E.fresh(Val, 'receiver'))
        r = E.call(E.fn('scheduler.Scheduler.' + name), [s, x, y], {})
        ok = len(made) == 1 and len(added) == 1
        E.prove(P + name + ': one condition is made and added', ok and added[0][1] is made[0][2] and r is made[0][2])
        if ok:
            c, a, o = made[0]
            owner, other = (x, y) if c == 'AddEdgeTo' else (y, x)
            E.prove(P + name + ': the condition is of the right kind and for the right nodes', z3.And(z3.BoolVal(c == ('AddEdgeTo' if name.startswith('add') else 'RemoveEdgeFrom') and len(a) == 1), E.to_term(added[0][0], Val) == owner.t, E.to_term(a[0], Val) == other.t))
    return f


def construct(kind, conds):
    """Scheduler(graph, conditions): the stacks start with the given graph alone, then the conditions are added."""
    def f(E):
        E.hooks.clear()
        pint_model(E)
        g = E.new_root(GRAPH, 'graph given')
        dom, mem = g.leaves[('dom',)], g.leaves[('v', 'mem')]
        g.frozen = True
        gv = {'dict': E.view(g), 'digraph': V(E.fresh(RefS, 'digraph')), 'graph': V(E.fresh(RefS, 'undirected')), 'none': None}[kind]
        H = E.hooks
        old = H.get('isinstance2')
        def isinst(E, v, c):
            n = getattr(c, 'name', '').split('.')[-1]
            if n in ('DiGraph', 'Graph'):
                return isinstance(v, V) and (kind == 'digraph' or (kind == 'graph' and n == 'Graph'))
            return old(E, v, c) if old else None
        H['isinstance2'] = isinst
        # that no two nodes share a sender set is decided with C18
        H['shallow'] = lambda E, v: E.new_sym(E.ckind(v), v.typ, E.leaves_of(v, v.typ), 'copy')
        node = lambda n: z3.Or(dom(n), exists([Val], lambda r: z3.And(dom(r), mem(r, n))))

        def fresh_copy(E):
            r = E.new_root(GRAPH, 'copy of the graph', leaves={('dom',): dom, ('v', 'mem'): mem})
            return E.new_cont('dict', v=E.view(r))

        def clone(E, f, a, k):
            x = E.norm(a[0])
            E.prove(P + 'construction: the graph given is cloned', isinstance(x, View) and x.root is g)
            return fresh_copy(E)

        def convert(E, f, a, k):
            E.prove(P + 'construction: the graph given is converted', isinstance(a[0], V) and a[0].t.eq(gv.t))
            E.assume(forall([Val, Val], lambda r, s: z3.Implies(z3.And(dom(r), mem(r, s)), dom(s))))
            return fresh_copy(E)
        E.contracts['utilities.clone_graph'] = clone
        E.contracts['utilities.networkx_digraph_to_dependency_dict'] = convert
        E.contracts['condition.ConditionSet'] = lambda E, c, a, k: E.new_obj(c)
        E.contracts['scheduler.Scheduler._parse_termination_conditions'] = lambda E, f, a, k: E.new_cont('dict', [])
        E.contracts['condition._parse_absolute_unit'] = lambda E, f, a, k: Opaque('unit')
        E.contracts['time.Clock'] = lambda E, c, a, k: Opaque('clock')
        E.contracts['scheduler.Scheduler._init_counts'] = lambda E, f, a, k: None
        E.hooks['globals']['scheduler.default_termination_conds'] = lambda E: E.new_cont('dict', [])
        log = []

        def push(E, f, a, k):
            s = a[0]
            x = E.norm((list(a[1:]) + list(k.values()))[0])
            for n in ('_graphs', '_consideration_queues', '_consideration_queue_indices'):
                v = E.norm(s.attrs[n])
                E.prove(P + 'construction: the stacks start empty', isinstance(v, Cont) and not v.items)
            l = E.norm(s.attrs['_last_handled_structural_condition_order'])
            E.prove(P + 'construction: no condition has been handled', l is None or isinstance(l, Cont) and not l.items)
            E.prove(P + 'construction: the graph is pushed before conditions are added', not log)
            E.prove(P + 'construction: the base graph is not the graph given', not (isinstance(x, View) and x.root is g))
            if E.ckind(x) != 'dict':
                E.fail(P + 'construction: the base graph is a dependency dictionary')
                raise PathEnd()
            lv = E.leaves_of(x, GRAPH)
            E.prove(P + 'construction: the base graph has exactly the nodes of the graph given', forall([Val], lambda n: lv[('dom',)](n) == node(n)))
            E.prove(P + 'construction: the base graph has exactly the edges of the graph given', forall([Val, Val], lambda r, s: z3.Implies(node(r), lv[('v', 'mem')](r, s) == z3.And(dom(r), mem(r, s)))))
            log.append('push')
        E.contracts['scheduler.Scheduler._push_graph'] = push
        given = V(E.fresh(RefS, 'conditions')) if conds else None

        def addset(E, f, a, k):
            E.prove(P + 'construction: the conditions given are added', (list(a[1:]) + list(k.values()))[0] is given)
            log.append('conditions')
        E.contracts['scheduler.Scheduler.add_condition_set'] = addset
        E.declare_cover('constructed' if kind in ('dict', 'digraph') else 'refused')
        try:
            s = E.call(E.cls('scheduler.Scheduler'), [gv, given], {})
        except PyRaise as e:
            E.prove(P + 'construction: only what is not a directed graph is refused', kind in ('none', 'graph') and e.cname == 'SchedulerError')
            E.cover('refused')
            return
        E.prove(P + 'construction: what is not a directed graph is refused', kind not in ('none', 'graph'))
        E.prove(P + 'construction: the graph is pushed, then the conditions are added', log == ['push'] + (['conditions'] if conds else []))
        E.cover('constructed')
    return f


TASKS = [(f'construct/{k}{"/conditions" if c else ""}', construct(k, c)) for k in ('dict', 'digraph', 'graph', 'none') for c in (False, True)] + [(f'{e}/{l}', handle(l, e)) for e in ('handle', 'graph', 'consideration_queue', 'consideration_queue_indices') for l in ('list', 'none')] + \
    [('delegate/' + n, delegate(n)) for n in ('add_condition', 'add_condition_set', 'remove_condition')] + \
    [('queue/push', lambda E: c01.push(E, 'C17')), ('queue/indices', lambda E: c01.indices(E, 'C17')), ('queue/current', lambda E: c01.current(E, 'C17'))] + \
    [('edge/' + n, edge(n)) for n in ('add_graph_edge', 'remove_graph_edge')]
