"""C21: graph utilities compute what they say, whatever was asked before."""
from .common import *
from . import heap
from .heap import HGRAPH
from .graphs import GRAPH

LEVEL = 'proof'
LIMIT = 300
NOTE = 'every graph (any number of nodes, senders listed as nodes or not, sender sets shared or not), every state of the memo. Each cached function is proved on its own body for any graph, and the memo separately: what is stored under a graph can be reached by nobody else, neither the key nor the answer, so the answer to an equal graph stays right whatever callers do. Trusted: networkx (its digraphs, ancestors, descendants, simple cycles), functools.lru_cache and the equality of dictionaries and sets'
P = 'C21'
CACHED = ('get_receivers', 'get_ancestors', 'get_descendants', 'get_simple_cycles')
CYCLES = TList(TList(TS(Val)))


def t_clone(E):
    heap.begin(E)
    g = heap.Input(E)
    r = heap.Result(E, P, E.call(E.fn('utilities.clone_graph'), [g.v], {}), 'clone_graph')
    E.cover('a graph is cloned')
    r.is_graph(g.dom, g.mem, 'a cloned graph equals the graph')
    r.fresh([g], 'the sets of a cloned graph are new and no two nodes share one')
    E.prove(f'{P}: a cloned graph is another dictionary', r.view.root.uid != g.root.uid)


class Plain:
    """Any graph, read only."""

    def __init__(self, E, name='graph'):
        self.E = E
        self.root = E.new_root(GRAPH, name)
        self.root.frozen = True
        self.v = E.view(self.root)
        self.dom, self.mem = self.root.leaves[('dom',)], self.root.leaves[('v', 'mem')]

    def edge(self, n, s):
        return z3.And(self.dom(n), self.mem(n, s))

    def node(self, n):
        return z3.Or(self.dom(n), exists([Val], lambda x: self.edge(x, n)))


class Digraphs:
    """networkx: digraphs are their nodes and edges; paths and cycles of the graph of the task (from sender to receiver) are named."""

    def __init__(self, E, g=None):
        self.E, self.g = E, g
        E.assumptions.add('networkx: DiGraph(d) has the edges k -> v for v in d[k]; reverse, adj, pred, succ, nodes, edges, ancestors, descendants and simple_cycles are as documented')
        self.path = z3.Function('path', Val, Val, B)
        self.cn, self.cl, self.ce = E.fresh(I, 'cycles'), E.fresh_fn([I], I, 'cycle length'), E.fresh_fn([I, I], Val, 'cycle')
        self.cls = E.ext_attr('networkx', 'DiGraph')
        E.contracts['nx.DiGraph'] = E.contracts['networkx.DiGraph'] = self.new
        E.hooks['obj_attr'] = self.attr
        for m in ('nx', 'networkx'):
            E.contracts[m + '.ancestors'] = lambda E, a, k: self.reach(a, k, True)
            E.contracts[m + '.descendants'] = lambda E, a, k: self.reach(a, k, False)
            E.contracts[m + '.simple_cycles'] = self.cycles
            E.contracts[m + '.reverse'] = lambda E, a, k: self.rev(a[0])

    def make(self, node, edge):
        o = self.E.new_obj(self.cls)
        o.nx = (node, edge)
        return o

    def new(self, E, *a):
        a, k = a[-2:]
        if len(a) != 1 or k:
            raise Unsupported('DiGraph arguments')
        if isinstance(a[0], Obj) and hasattr(a[0], 'nx'):
            return self.make(*a[0].nx)
        lv = E.leaves_of(a[0], GRAPH)
        dom, mem = lv[('dom',)], lv[('v', 'mem')]
        return self.make(lambda n: z3.Or(dom(n), exists([Val], lambda x: z3.And(dom(x), mem(x, n)))), lambda n, s: z3.And(dom(n), mem(n, s)))

    def rev(self, o):
        node, edge = o.nx
        return self.make(node, lambda a, b: edge(b, a))

    def attr(self, E, o, name):
        if not hasattr(o, 'nx'):
            return None
        node, edge = o.nx
        if name == 'reverse':
            return Builtin('reverse', lambda a, k: self.rev(o))
        if name in ('adj', 'succ', '_adj', '_succ', 'pred', '_pred'):
            f = edge if 'pred' not in name else lambda a, b: edge(b, a)
            r = E.new_root(GRAPH, name, leaves={('dom',): node, ('v', 'mem'): f})
            r.frozen = True
            return E.view(r)
        if name in ('nodes', '_node'):
            r = E.new_root(TSet(Val), name, leaves={('mem',): node})
            r.frozen = True
            return E.view(r)
        raise Unsupported(f'digraph.{name}')

    def which(self, o):
        """How the edges of a digraph are those of the graph: 1 as they are, -1 reversed."""
        E, g = self.E, self.g
        if not (isinstance(o, Obj) and hasattr(o, 'nx')):
            raise Unsupported('not a digraph')
        node, edge = o.nx
        for d in (1, -1):
            if E.holds(forall([Val, Val], lambda a, b: edge(a, b) == (g.edge(b, a) if d == 1 else g.edge(a, b)))):
                return d
        E.fail(f'{P}: paths and cycles are those of the graph given', 'of another digraph')

    def reach(self, a, k, back):
        E = self.E
        o, n = a
        d = self.which(o)
        n = E.to_term(n, Val)
        E.prove(f'{P}: only nodes of the graph are looked for', o.nx[0](n))
        if back != (d == -1):
            m = lambda x: z3.And(x != n, self.path(x, n))
        else:
            m = lambda x: z3.And(x != n, self.path(n, x))
        return E.new_sym('set', TSet(Val), {('mem',): m}, 'reached')

    def cycles(self, E, a, k):
        if len(a) != 1 or k:
            raise Unsupported('simple_cycles arguments')
        if self.which(a[0]) == -1:
            E.fail(f'{P}: simple cycles follow the edges from sender to receiver', 'of the reversed graph')
        return E.new_sym('list', CYCLES, self.cycle_leaves(), 'cycles')

    def cycle_leaves(self):
        return {('len',): lambda: self.cn, ('e', 'len'): lambda i: self.cl(i), ('e', 'e'): lambda i, j: self.ce(i, j)}

    def assume(self):
        self.E.assume(self.cn >= 0)
        self.E.assume(forall([I], lambda i: self.cl(i) >= 0))


def answer(g, dg, name):
    """(nodes, membership) of the dictionary the function returns."""
    return {
        'get_receivers': (g.node, lambda n, x: g.edge(x, n)),
        'get_ancestors': (g.dom, lambda n, x: z3.And(x != n, dg.path(x, n))),
        'get_descendants': (g.dom, lambda n, x: z3.And(x != n, dg.path(n, x))),
    }[name]


SAYS = {
    'get_receivers': 'the receivers are the reverse edges of the graph given',
    'get_ancestors': 'the ancestors are the strict ancestors in the graph given',
    'get_descendants': 'the descendants are the strict descendants in the graph given',
    'get_simple_cycles': 'the cycles are the simple cycles of the graph given',
}


def memo(E):
    """Is the memo there, as a function whose calls lru_cache answers?"""
    f = E.fn('utilities.cached_hashable_graph_function')
    import ast
    return any('cache' in ast.unparse(d) for d in f.node.decorator_list)


def raw(E, fn):
    """The function the memo calls for a public function."""
    got = []

    class Got(BaseException):
        pass

    def h(E, f, a, k):
        got.append([x for x in list(a) + list(k.values()) if isinstance(x, FuncVal)])
        raise Got
    E.contracts['utilities.clone_graph'] = lambda E, f, a, k: a[0]
    E.contracts['utilities.cached_hashable_graph_function'] = h
    try:
        E.call(fn, [E.new_cont('dict', [])], {})
    except Got:
        pass
    finally:
        del E.contracts['utilities.clone_graph'], E.contracts['utilities.cached_hashable_graph_function']
    if not got or len(got[0]) != 1:
        raise Unsupported('the function is not called through the memo')
    return got[0][0]


def pool_reverse(dom, edge, keep):
    """dictionary built by reversing edges: edge(b, a): a is listed under b; keep(n): listed anyway; seen: the sources handled."""
    def pool(E, L):
        out = []
        v = L.visited
        if v is None:
            return out
        for n, lv in L.dicts(GRAPH):
            d, m = lv[('dom',)], lv[('v', 'mem')]
            rec = lambda x: exists([Val], lambda y: z3.And(v(y), edge(x, y)))
            out += [
                (f'{n}: edges of the nodes handled', lambda d=d, m=m: forall([Val, Val], lambda x, y: z3.Implies(d(x), m(x, y) == z3.And(v(y), edge(x, y))))),
                (f'{n}: nodes of before and receivers of the nodes handled', lambda d=d: forall([Val], lambda x: d(x) == z3.Or(dom(x), rec(x)))),
                (f'{n}: the nodes handled and their receivers', lambda d=d: forall([Val], lambda x: d(x) == z3.Or(v(x), rec(x)))),
                (f'{n}: receivers of the nodes handled', lambda d=d: forall([Val], lambda x: d(x) == rec(x))),
            ]
        return out
    return pool


def computed(name):
    def f(E):
        E.hooks.clear()
        g = Plain(E)
        dg = Digraphs(E, g)
        dg.assume()
        fn = raw(E, E.fn('utilities.' + name))
        E.inv_pool.append(pool_reverse(g.dom, lambda b, a: g.edge(a, b), True))
        E.declare_cover('an answer is computed')
        r = E.call(fn, [g.v], {})
        E.cover('an answer is computed')
        if name == 'get_simple_cycles':
            E.prove(f'{P}: {name}: is a list', E.ckind(r) == 'list')
            same_cycles(E, dg, r, SAYS[name])
        else:
            heap.Result(E, P, r, name).is_graph(*answer(g, dg, name), SAYS[name])
    return f


def same_cycles(E, dg, r, what):
    lv = E.leaves_of(r, CYCLES)
    E.prove(f'{P}: {what}', lv[('len',)]() == dg.cn)
    E.prove(f'{P}: {what}', forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < dg.cn), lv[('e', 'len')](i) == dg.cl(i))))
    E.prove(f'{P}: {what}', forall([I, I], lambda i, j: z3.Implies(z3.And(0 <= i, i < dg.cn, 0 <= j, j < dg.cl(i)), lv[('e', 'e')](i, j) == dg.ce(i, j))))


def asked(name):
    """The public function, answered by the memo: what is remembered for an equal graph is right, and stays so."""
    def f(E):
        fn = E.fn('utilities.' + name)
        E.hooks.clear()
        if not memo(E):
            raise Unsupported('no memo')
        inner = raw(E, fn)
        heap.begin(E)
        g = heap.Input(E)
        g.node = lambda n: z3.Or(g.dom(n), exists([Val], lambda x: g.edge(x, n)))
        dg = Digraphs(E, g)
        dg.assume()
        seen = []

        def h(E, F, a, k):
            a = list(a) + list(k.values())
            fs, gs = [x for x in a if isinstance(x, FuncVal)], [x for x in a if not isinstance(x, FuncVal)]
            E.prove(f'{P}: {name}: the memo tells the functions apart', len(fs) == 1 and fs[0] is inner)
            if len(gs) != 1:
                raise Unsupported('arguments of the memo')
            if E.class_lookup(E.cls('utilities.HashableDict'), '__eq__') is not None and isinstance(E.class_lookup(E.cls('utilities.HashableDict'), '__eq__'), FuncVal):
                raise Unsupported('graphs of the memo have an equality of their own')
            key = heap.Result(E, P, gs[0], f'{name}: key of the memo')
            key.is_graph(g.dom, g.mem, f'{name}: the memo is asked about the graph given')
            key.fresh([g], f'{name}: the key of the memo has sets of its own')
            E.prove(f'{P}: {name}: the key of the memo is another dictionary', key.view.root.uid != g.root.uid)
            seen.append(key)
            # what was remembered
            if name == 'get_simple_cycles':
                r = E.new_root(CYCLES, 'remembered', leaves=dg.cycle_leaves())
                r.frozen = True
                seen.append(r)
                return E.view(r)
            d, m = answer(g, dg, name)
            old = seen_in(E, d, m)
            seen.append(old)
            return old.v
        E.contracts['utilities.cached_hashable_graph_function'] = h
        E.declare_cover('a question is answered')
        E.hooks['alias'] = lambda E, v, dest: E.fail(f'{P}: {name}: the answer shares nothing with the memo', f'{v}')
        E.hooks['shallow_seq'] = lambda E, v: E.fail(f'{P}: {name}: the answer shares nothing with the memo', f'parts of {v} are in a copy')
        r = E.call(fn, [g.v], {})
        E.cover('a question is answered')
        key, old = seen
        if name == 'get_simple_cycles':
            E.prove(f'{P}: {name}: is a list', E.ckind(r) == 'list')
            same_cycles(E, dg, r, f'{name}: the answer is what is remembered')
            r = E.norm(r)
            E.prove(f'{P}: {name}: the answer shares nothing with the memo', not (isinstance(r, View) and r.root.uid == old.uid))
            return
        R = heap.Result(E, P, r, name)
        R.is_graph(*answer(g, dg, name), f'{name}: the answer is what is remembered')
        R.fresh([g, old], f'{name}: the answer shares nothing with the memo')
        E.prove(f'{P}: {name}: the answer shares nothing with the memo', R.view.root.uid not in (old.root.uid, key.view.root.uid, g.root.uid))
        kn = {x[1].cellno for x in E.ref_cases(z3.simplify(key.ref(E.fresh(Val, 'n')))) if x[1] is not None}
        rn = {x[1].cellno for x in E.ref_cases(z3.simplify(R.ref(E.fresh(Val, 'n')))) if x[1] is not None}
        E.prove(f'{P}: {name}: the answer shares nothing with the memo', not (kn & rn))
    return f


def seen_in(E, dom, mem):
    """A remembered dictionary of sets."""
    o = heap.Input(E, 'remembered answer')
    b = o.block
    b.leaves[('v', 'mem')] = mem
    o.root.leaves[('dom',)] = dom
    o.root.leaves[('v',)] = lambda n: b.cellf(n)
    o.d0, o.m0 = dom, mem
    return o


def t_miss(E):
    """What the memo stores is what the function returns for the graph it is stored under."""
    E.hooks.clear()
    g, r = E.fresh(RefS, 'graph'), E.fresh(RefS, 'answer')
    called = []

    def func(a, k):
        called.append((list(a), dict(k)))
        return V(r)
    E.declare_cover('a new question')
    out = E.call_body(E.fn('utilities.cached_hashable_graph_function'), [Builtin('func', func), V(g)], {})
    E.prove(f'{P}: a new question is put to the function', len(called) == 1 and len(called[0][0]) == 1 and not called[0][1] and isinstance(called[0][0][0], V) and called[0][0][0].t.eq(g))
    E.prove(f'{P}: a new question is answered by the function', isinstance(out, V) and out.t.eq(r))
    E.cover('a new question')


def t_to_nx(E):
    E.hooks.clear()
    g = Plain(E)
    dg = Digraphs(E, g)
    r = E.call(E.fn('utilities.dependency_dict_to_networkx_digraph'), [g.v], {})
    E.prove(f'{P}: the conversion gives a digraph', isinstance(r, Obj) and hasattr(r, 'nx'))
    node, edge = r.nx
    E.prove(f'{P}: a converted graph has the same nodes', forall([Val], lambda n: node(n) == g.node(n)))
    E.prove(f'{P}: a converted graph has the same edges, from sender to receiver', forall([Val, Val], lambda a, b: edge(a, b) == g.edge(b, a)))
    E.cover('a graph is converted')


def t_from_nx(missing):
    def f(E):
        E.hooks.clear()
        nd, ed = E.fresh_fn([Val], B, 'digraph node'), E.fresh_fn([Val, Val], B, 'digraph edge')
        E.assume(forall([Val, Val], lambda a, b: z3.Implies(ed(a, b), z3.And(nd(a), nd(b)))))
        dg = Digraphs(E)
        E.inv_pool.append(pool_reverse(lambda n: z3.BoolVal(False), lambda b, a: ed(a, b), True))
        k = {} if missing is None else {'add_missing': missing}
        v = E.call(E.fn('utilities.networkx_digraph_to_dependency_dict'), [dg.make(nd, ed)], k)
        E.cover('a digraph is converted')
        r = heap.Result(E, P, v, 'converted digraph')
        dom = nd if missing in (None, True) else lambda n: exists([Val], lambda a: ed(a, n))
        r.is_graph(dom, lambda n, s: ed(s, n), 'a converted digraph has the same nodes and edges')
    return f


def t_back(E):
    """There and back: the two contracts compose to the same nodes and edges."""
    E.hooks.clear()
    g = Plain(E)
    dg = Digraphs(E, g)
    E.inv_pool.append(pool_reverse(lambda n: z3.BoolVal(False), lambda b, a: g.edge(b, a), True))
    v = E.call(E.fn('utilities.networkx_digraph_to_dependency_dict'), [E.call(E.fn('utilities.dependency_dict_to_networkx_digraph'), [g.v], {})], {})
    E.cover('there and back')
    heap.Result(E, P, v, 'converted twice').is_graph(g.node, g.edge, 'converting there and back gives the same nodes and edges')


TASKS = [('clone', t_clone), ('digraph', t_to_nx), ('from digraph', t_from_nx(None)), ('from digraph/without missing', t_from_nx(False)), ('there and back', t_back), ('memo/new', t_miss)]
TASKS += [(f'{n}/computed', computed(n)) for n in CACHED] + [(f'{n}/remembered', asked(n)) for n in CACHED]


def asked_list(fn, pid, what):
    """The same for an answer that is a list of sets."""
    def f(E):
        E.hooks.clear()
        if not memo(E):
            raise Unsupported('no memo')
        inner = raw(E, E.fn(fn))
        heap.begin(E)
        g = heap.Input(E)
        got = []
        n = E.fresh(I, 'layers')
        E.assume(n >= 0)
        mem = E.fresh_fn([I, Val], B, 'layer')

        def h(E, F, a, k):
            a = list(a) + list(k.values())
            fs, gs = [x for x in a if isinstance(x, FuncVal)], [x for x in a if not isinstance(x, FuncVal)]
            E.prove(f'{pid}: {what}: the memo tells the functions apart', len(fs) == 1 and fs[0] is inner)
            if len(gs) != 1:
                raise Unsupported('arguments of the memo')
            key = heap.Result(E, pid, gs[0], f'{what}: key of the memo')
            key.is_graph(g.dom, g.mem, f'{what}: the memo is asked about the graph given')
            key.fresh([g], f'{what}: the key of the memo has sets of its own')
            block = E.cell_block(I, 'remembered sets')
            block.leaves[('v', 'mem')] = mem
            r = E.new_root(TList(TS(SetR)), 'remembered', leaves={('len',): lambda: n, ('e',): lambda i: block.cellf(i)})
            block.frozen = r.frozen = True
            got.extend((key, block, r))
            return E.view(r)
        E.contracts['utilities.cached_hashable_graph_function'] = h
        E.declare_cover('a question is answered')
        out = E.norm(E.call(E.fn(fn), [g.v], {}))
        E.cover('a question is answered')
        key, block, r = got
        E.prove(f'{pid}: {what}: is a list', E.ckind(out) == 'list')
        lv = E.leaves_of(out, TList(TS(SetR)))
        E.prove(f'{pid}: {what}: the answer is what is remembered', lv[('len',)]() == n)
        E.prove(f'{pid}: {what}: the answer is what is remembered', forall([I, Val], lambda i, x: z3.Implies(z3.And(0 <= i, i < n), E.ref_mem(z3.simplify(lv[('e',)](i)))(x) == mem(i, x))))
        i, j = E.fresh(I, 'i'), E.fresh(I, 'j')
        bad = []
        for c, root, idx in E.ref_cases(z3.simplify(lv[('e',)](i))):
            if root is None or root.cellno in (block.cellno, g.block.cellno):
                bad.append(neg(c))
                continue
            for d, r2, idx2 in E.ref_cases(z3.simplify(lv[('e',)](j))):
                if r2 is not None and r2.cellno == root.cellno:
                    bad.append(z3.Implies(conj([c, d] + [eqt(p, q) for p, q in zip(idx, idx2)]), i == j))
        E.prove(f'{pid}: {what}: the answer shares nothing with the memo', z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < n), conj(bad)))
        E.prove(f'{pid}: {what}: the answer shares nothing with the memo', not (isinstance(out, View) and out.root.uid == r.uid))
    return f
