"""Graphs (node -> set of senders) and their layering."""
from .common import *

GRAPH = TDict(Val, TSet(Val))
QUEUE = TList(TSet(Val))


def new_graph(E, name='graph'):
    return E.view(E.new_root(GRAPH, name))


def gdom(E, g):
    g = E.norm(g)
    return lambda n: E.to_term(E.B.contains_dom(g, n)) if False else E.leaf_at(g, 'dom', n)


def gmem(E, g):
    """(receiver, sender) -> Bool"""
    return lambda n, s: E.leaf_at(g, ('v', 'mem'), n, s)


class Layering:
    """The assumed contract of toposort on one graph: either it has a cycle through several nodes, or a partition into nonempty layers, senders in earlier ones."""

    def __init__(self, E, dom, mem, name='topo'):
        self.E, self.dom, self.mem = E, dom, mem
        E.assumptions.add('toposort.toposort: yields a partition of the nodes of an acyclic graph (edges from a node to itself being ignored) into nonempty sets such that senders of a node are in earlier sets, and raises CircularDependencyError for other graphs')
        self.cyclic = E.fresh(B, name + '_cyclic')
        self.lay = E.fresh_fn([Val], I, name + '_layer')
        self.len = E.fresh(I, name + '_len')
        self.rep = E.fresh_fn([I], Val, name + '_rep')
        self.node = lambda n: z3.Or(dom(n), exists([Val], lambda r: z3.And(dom(r), mem(r, n))))
        self.total = forall([Val, Val], lambda r, s: z3.Implies(z3.And(dom(r), mem(r, s)), dom(s)))

    def assume(self):
        E, lay = self.E, self.lay
        E.assume(self.len >= 0)
        N = self.nodef = E.fresh_fn([Val], B, 'topo_node')
        E.assume(forall([Val], lambda n: N(n) == self.node(n)))
        E.assume(forall([Val], lambda n: z3.Implies(N(n), z3.And(0 <= lay(n), lay(n) < self.len))))
        E.assume(forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < self.len), z3.And(N(self.rep(i)), lay(self.rep(i)) == i))))
        E.assume(forall([Val, Val], lambda r, s: z3.Implies(z3.And(self.dom(r), self.mem(r, s), r != s), lay(s) < lay(r))))

    def queue(self):
        E = self.E
        r = E.new_root(QUEUE, 'layers', leaves={('len',): lambda: self.len, ('e', 'mem'): lambda i, n: z3.And(self.nodef(n), self.lay(n) == i)})
        return E.view(r)

    def is_queue(self, pid, q, what):
        """q is this layering."""
        E = self.E
        q = E.norm(q)
        E.prove(f'{pid}: {what}: a list of layers', E.ckind(q) in ('list',))
        E.prove(f'{pid}: {what}: no other layers', E.to_term(E.length(q), I) == self.len)
        t = E.type_of(q)
        lv = E.leaves_of(q, QUEUE)
        m = lv[('e', 'mem')]
        E.prove(f'{pid}: {what}: every node is in exactly one layer, after all of its senders', forall([I, Val], lambda i, n: z3.Implies(z3.And(0 <= i, i < self.len), m(i, n) == z3.And(self.nodef(n), self.lay(n) == i))))


def cde(E):
    return E.ext_attr('toposort', 'CircularDependencyError')
