"""C01: execution sets follow the dependency layering of the graph."""
from .common import *
from . import c21
from . import graphs as G
from . import runs

LEVEL = 'proof'
LIMIT = 400
NOTE = 'Every graph, schedule, condition behaviour and context: the run loop is proved against a ghost monitor with inferred loop invariants, the queue, indices and cycle refusal function by function, with no bound. Assumed: toposort.toposort contract; the graph and queue do not change between the layers of one pass other than by the conditions given (C17 decides the graph); Python builtins as modelled by pyvc.'


def fresh_graph(E, name='graph'):
    g = G.new_graph(E, name)
    dom, mem = g.root.leaves[('dom',)], g.root.leaves[('v', 'mem')]
    return g, dom, mem


def build(E):
    """_build_consideration_queue(graph) is the layering of exactly that graph, or raises CircularDependencyError."""
    E.hooks.clear()
    pint_model(E)
    g, dom, mem = fresh_graph(E)
    L = G.Layering(E, dom, mem)
    seen = []

    def topo(E, a, k):
        x = E.norm(a[0])
        E.prove('C01: the layering is computed from the graph itself', isinstance(x, (View, Cont)) and E.ckind(x) == 'dict')
        lv = E.leaves_of(x, G.GRAPH)
        E.prove('C01: the layering is computed from the graph itself', forall([Val], lambda n: lv[('dom',)](n) == dom(n)))
        E.prove('C01: the layering is computed from the graph itself', forall([Val, Val], lambda n, s: z3.Implies(dom(n), lv[('v', 'mem')](n, s) == mem(n, s))))
        seen.append(1)
        if E.branch(L.cyclic):
            E.raise_(G.cde(E), 'cycle')
        L.assume()
        return L.queue()
    E.contracts['toposort.toposort'] = topo
    E.declare_cover('a queue is built')
    E.declare_cover('a cycle is reported')
    try:
        r = E.call(E.fn('scheduler._build_consideration_queue'), [g], {})
    except PyRaise as e:
        E.prove('C01: building the queue fails only for a cyclic graph', conj([L.cyclic, z3.BoolVal(E.is_subclass(e.obj.cls, G.cde(E)))]))
        E.cover('a cycle is reported')
        return
    E.prove('C01: a cyclic graph has no queue', neg(L.cyclic))
    L.is_queue('C01', r, 'consideration queue')
    E.cover('a queue is built')


def contract_build(E, L, g):
    """Contract of _build_consideration_queue proved by `build`, for the one graph of the task."""
    def f(E, fn, a, k):
        x = E.norm(a[0])
        E.prove('C01: the queue is built for the graph of the scheduler', isinstance(x, View) and x.root is g.root and x.prefix == g.prefix)
        if E.branch(L.cyclic):
            E.raise_(G.cde(E), 'cycle')
        L.assume()
        return L.queue()
    return f


def wrapper(E, h):
    """Calls of functions decorated with cached_graph_function."""
    def f(E, fn, a, k):
        inner = fn.closure.vars.get('func')
        if getattr(inner, 'qual', '') == 'scheduler._build_consideration_queue':
            return h(E, fn, a, k)
        return E.call_body(fn, a, k)
    E.contracts['utilities.cached_graph_function.graph_function_wrapper'] = f


def indices(E, pid='C01'):
    E.hooks.clear()
    pint_model(E)
    g, dom, mem = fresh_graph(E)
    L = G.Layering(E, dom, mem)
    L.assume()

    def pool(E, lc):
        out = []
        for n, lv in lc.dicts(TDict(Val, TS(I))):
            for k, i in lc.ints() + ([('index', lc.i)] if lc.i is not None else []):
                out.append((f'{n}: nodes below {k}', lambda lv=lv, i=i: forall([Val], lambda x: lv[('dom',)](x) == z3.And(L.nodef(x), L.lay(x) < i))))
            out.append((f'{n}: values', lambda lv=lv: forall([Val], lambda x: z3.Implies(lv[('dom',)](x), lv[('v',)](x) == L.lay(x)))))
        for k, i in lc.ints():
            if lc.i is not None:
                out.append((f'{k} is the index', lambda i=i: i == lc.i))
        return out
    E.inv_pool[:] = [pool]
    r = E.norm(E.call_body(E.fn('scheduler._generate_consideration_queue_indices'), [L.queue()], {}))
    E.prove(pid + ': indices are a dictionary', E.ckind(r) == 'dict')
    lv = E.leaves_of(r, TDict(Val, TS(I)))
    E.prove(pid + ': every node has an index', forall([Val], lambda n: lv[('dom',)](n) == L.nodef(n)))
    E.prove(pid + ': the index of a node is its layer', forall([Val], lambda n: z3.Implies(L.nodef(n), lv[('v',)](n) == L.lay(n))))


def push(E, pid='C01'):
    """_push_graph keeps the three stacks in step: the new entries are the graph, its layering (one empty layer if cyclic) and its indices."""
    E.hooks.clear()
    pint_model(E)
    g, dom, mem = fresh_graph(E)
    L = G.Layering(E, dom, mem)
    s = E.new_obj(E.cls('scheduler.Scheduler'))
    marks = [Opaque('earlier graph'), Opaque('earlier queue'), Opaque('earlier indices')]
    names = ['_graphs', '_consideration_queues', '_consideration_queue_indices']
    for n, m in zip(names, marks):
        s.attrs[n] = E.new_cont('list', [m])
    cs = E.new_obj(E.cls('condition.ConditionSet'))
    order = E.new_root(TList(TS(RefS, E.cls('condition.Condition'))), 'order')
    E.assume(order.leaves[('len',)]() >= 0)
    order.frozen = True
    cs.attrs['structural_condition_order'] = E.view(order)
    s.attrs['conditions'] = cs
    E.hooks['ref_attr'] = lambda E, v, name: Opaque('attribute')
    wrapper(E, contract_build(E, L, g))
    made = []

    def ind(E, f, a, k):
        made.append(a[0])
        r = E.new_cont('dict', [])
        made.append(r)
        return r
    E.contracts['scheduler._generate_consideration_queue_indices'] = ind
    E.declare_cover('a graph is pushed')
    E.call_body(E.fn('scheduler.Scheduler._push_graph'), [s, g], {})
    E.cover('a graph is pushed')
    st = [s.attrs[n] for n in names]
    ok = all(isinstance(x, Cont) and x.items is not None and len(x.items) == 2 and x.items[0] is m for x, m in zip(st, marks))
    E.prove(pid + ': pushing a graph adds exactly one entry to each stack', ok)
    E.prove(pid + ': the pushed graph is the one given', E.same_loc(E.norm(st[0].items[1]), E.norm(g)) if hasattr(E, 'same_loc') else False)
    qv = st[1].items[1]
    if E.branch(L.cyclic):
        E.prove(pid + ': a cyclic graph gets one empty layer', conj([E.to_term(E.length(qv), I) == 1, E.to_term(E.length(E.getitem(qv, 0)), I) == 0]))
    else:
        L.is_queue(pid, qv, 'the pushed queue')
    E.prove(pid + ': the pushed indices are those of the pushed queue', len(made) == 2 and made[0] is qv and st[2].items[1] is made[1])


def current(E, pid='C01'):
    """The published queue and indices are those of the current graph; in exact-time mode the queue is one layer of all nodes."""
    E.hooks.clear()
    pint_model(E)
    g, dom, mem = fresh_graph(E)
    g.root.frozen = True
    L = G.Layering(E, dom, mem)
    E.assume(L.total)
    L.assume()
    s = E.new_obj(E.cls('scheduler.Scheduler'))
    mode = E.pick(list(E.cls('scheduler.SchedulingMode').members.values()))
    q = L.queue()
    q.root.frozen = True
    ind = E.view(E.new_root(TDict(Val, TS(I)), 'indices'))
    s.attrs.update(mode=mode, _graphs=E.new_cont('list', [Opaque('earlier'), g]), _consideration_queues=E.new_cont('list', [Opaque('earlier'), q]),
                   _consideration_queue_indices=E.new_cont('list', [Opaque('earlier'), ind]))
    handled = []
    E.contracts['scheduler.Scheduler._handle_modified_structural_conditions'] = lambda E, f, a, k: handled.append(1)
    what = E.choose(3)
    if what == 0:
        r = E.getattr(s, 'consideration_queue')
        if mode.name == 'EXACT_TIME':
            E.prove(pid + ': in exact-time mode there is a single layer', E.to_term(E.length(r), I) == 1)
            m = E.set_mem(E.getitem(r, 0), Val)
            E.prove(pid + ': in exact-time mode the layer has all nodes', forall([Val], lambda n: m(n) == dom(n)))
        else:
            L.is_queue(pid, r, 'the published queue')
    elif what == 1:
        r = E.norm(E.getattr(s, 'consideration_queue_indices'))
        E.prove(pid + ': the published indices are those of the current graph', isinstance(r, View) and r.root is ind.root)
    else:
        r = E.norm(E.getattr(s, 'graph'))
        E.prove(pid + ': the published graph is the current graph', isinstance(r, View) and r.root is g.root)
    E.prove(pid + ': changes of structural conditions are applied before the graph is read', bool(handled))


def refuse(E):
    """_validate_run_state raises SchedulerError exactly when the current graph has a cycle, and otherwise validates the conditions."""
    E.hooks.clear()
    pint_model(E)
    g, dom, mem = fresh_graph(E)
    g.root.frozen = True
    L = G.Layering(E, dom, mem)
    s = E.new_obj(E.cls('scheduler.Scheduler'))
    E.contracts['scheduler.Scheduler.graph'] = lambda E, f, a, k: g
    E.contracts['scheduler.Scheduler.consideration_queue'] = lambda E, f, a, k: L.queue()
    done = []
    E.contracts['scheduler.Scheduler._validate_conditions'] = lambda E, f, a, k: done.append(a[0])
    wrapper(E, contract_build(E, L, g))
    E.declare_cover('an acyclic graph is accepted')
    E.declare_cover('a cycle is refused')
    try:
        E.call_body(E.fn('scheduler.Scheduler._validate_run_state'), [s], {})
    except PyRaise as e:
        E.prove('C01: only a cyclic graph is refused', L.cyclic)
        E.prove('C01: a cycle is refused with a SchedulerError', e.cname == 'SchedulerError')
        E.cover('a cycle is refused')
        return
    E.prove('C01: a run on a cyclic graph is refused', neg(L.cyclic))
    E.prove('C01: conditions are validated before a run', done == [s])
    E.cover('an acyclic graph is accepted')


TASKS = runs.tasks('A', 'C01') + [('queue/build', build), ('queue/indices', indices), ('queue/push', push), ('queue/current', current), ('queue/refuse', refuse)]
TASKS += [('queue/remembered', c21.asked_list('scheduler._build_consideration_queue', 'C01', 'consideration queue'))]


def stacks(last, entry):
    """The queue and indices published are those of the current graph, whatever structural conditions were added and removed before (task handle of C17)."""
    def f(E):
        from . import c17
        old, c17.P = c17.P, 'C01: '
        try:
            c17.handle(last, entry)(E)
        finally:
            c17.P = old
    return f


TASKS += [(f'stacks/{e}/{l}', stacks(l, e)) for e in ('handle', 'consideration_queue', 'consideration_queue_indices') for l in ('list', 'none')]
