"""Graphs whose sender sets are objects: who shares a set with whom can be stated."""
from .common import *
from .graphs import GRAPH

HGRAPH = TDict(Val, TS(SetR))


class Input:
    """An arbitrary graph given by a caller: its nodes have any sender sets, one object per node or (shared) possibly shared.
    A graph that is not frozen belongs to the function called."""

    def __init__(self, E, name='graph', frozen=True, shared=True):
        self.E = E
        self.block = E.cell_block(Val, f'sender sets of the {name}')
        # which of the sets belongs to which node: nodes may share a set
        self.own = E.fresh_fn([Val], Val, f'set in {name}') if shared else (lambda n: n)
        b = self.block
        self.root = E.new_root(HGRAPH, name)
        self.root.leaves[('v',)] = lambda n: b.cellf(self.own(n))
        self.d0, m0 = self.root.leaves[('dom',)], b.leaves[('v', 'mem')]
        self.m0 = lambda n, s: m0(self.own(n), s)
        if frozen:
            b.frozen = self.root.frozen = True
        self.v = E.view(self.root)

    def dom(self, n):
        return self.d0(n)

    def mem(self, n, s):
        return self.m0(n, s)

    def edge(self, n, s):
        return z3.And(self.d0(n), self.m0(n, s))


class Result:
    """A dictionary returned: its nodes, edges and set objects."""

    def __init__(self, E, pid, v, what='result'):
        self.E, self.pid, self.what = E, pid, what
        E.prove(f'{pid}: {what}: is a dictionary', E.ckind(v) == 'dict')
        v = E.norm(v)
        if isinstance(v, Cont) and v.items:
            raise Unsupported(f'{what} with known keys')
        lv = E.leaves_of(v, GRAPH)
        self.dom, self.mem = lv[('dom',)], lv[('v', 'mem')]
        self.view = v

    def ref(self, n):
        return self.E.junk(SetR) if isinstance(self.view, Cont) else self.E.leaf_at(self.view, 'v', n)

    def edge(self, n, s):
        return z3.And(self.dom(n), self.mem(n, s))

    def is_graph(self, dom, mem, what):
        E, r = self.E, self
        E.prove(f'{self.pid}: {what}', forall([Val, Val], lambda n, s: z3.And(r.dom(n) == dom(n), z3.Implies(dom(n), r.mem(n, s) == mem(n, s)))))

    def fresh(self, inputs=(), what='the sets of the result are new and no two nodes share one'):
        """No set of the result is a set of an input, or the set of another node."""
        E = self.E
        x, y = E.fresh(Val, 'one node'), E.fresh(Val, 'another node')
        with_ = lambda n: E.ref_cases(z3.simplify(self.ref(n)))
        olds = {i.block.cellno for i in inputs}
        out = []
        for c, root, idx in with_(x):
            if root is None or root.cellno in olds:
                out.append(z3.Not(c))
        for c, r1, i1 in with_(x):
            for d, r2, i2 in with_(y):
                if r1 and r2 and r1.cellno == r2.cellno:
                    same = conj([eqt(p, q) for p, q in zip(i1, i2)])
                    out.append(z3.Implies(z3.And(c, d, same), x == y))
        E.prove(f'{self.pid}: {what}', z3.Implies(z3.And(self.dom(x), self.dom(y)), conj(out)))


def begin(E):
    E.hooks.clear()
    E.hooks['heap'] = True
