"""C18: graph transformations never disturb their input."""
from .common import *
from . import heap, placing
from .heap import HGRAPH
from .graphs import GRAPH

LEVEL = 'proof'
LIMIT = 400
NOTE = ('any graph, also one whose nodes share sender sets, any owner, nodes and options: the sets are objects of a heap, the graph given is frozen (a write to it or to one of its sets is a failed obligation), '
        'and modify_graph is proved against the contracts of its steps, each proved for every condition class; what the operations make is the contract of C20, copies are the contract of clone_graph (C21). '
        'A function of the user (CustomGraphStructureCondition) is proved to get a graph of its own; what it returns is its own business')
P = 'C18'


def clone(E, f, a, k):
    """Contract of clone_graph (C21): the same edges, in sets of their own."""
    lv = E.leaves_of((list(a) + list(k.values()))[0], GRAPH)
    dom, mem = lv[('dom',)], lv[('v', 'mem')]
    b = E.cell_block(Val, 'clone')
    b.leaves[('v', 'mem')] = lambda n, s: mem(n, s)
    return E.view(E.new_root(HGRAPH, 'clone', leaves={('dom',): dom, ('v',): lambda n: b.cellf(n)}))


# ---------------------------------------------------------------- conditions with a function of the user
SIGS = {'graph alone': ['graph'], 'self and graph': ['self', 'graph'], 'self is not first': ['graph', 'self']}


def t_custom(how):
    def f(E):
        heap.begin(E)
        E.contracts['utilities.clone_graph'] = clone
        g = heap.Input(E, 'graph given')
        names = SIGS[how]
        out = Opaque('result of the function')
        log = []

        def called(E, a, k):
            log.append(list(a) + list(k.values()))
            x = E.norm(log[-1][-1])
            R = heap.Result(E, P, x, 'graph given to the function of the user')
            R.is_graph(g.dom, g.mem, 'the function of the user gets the graph')
            R.fresh([g], 'the function of the user gets sets of its own')
            E.prove(f'{P}: the function of the user gets a graph of its own', isinstance(R.view, Cont) or R.view.root is not g.root)
            return out
        fn = C.AbstractFunc('function', called, lambda E: E.new_obj(BuiltinClass(type('Signature', (), {}), 'Signature'), {'parameters': E.new_cont('dict', [[n, Opaque('parameter')] for n in names])}))
        c = E.new_obj(E.cls('condition.CustomGraphStructureCondition'))
        owner = E.fresh(Val, 'owner')
        E.assume(owner != E.to_term(None, Val))
        c.attrs.update(_owner=V(owner), process_graph_function=fn, kwargs=E.new_cont('dict'))
        E.declare_cover('done')
        try:
            r = E.call(E.getattr(c, 'modify_graph'), [g.v], {})
        except PyRaise as e:
            E.prove(f'{P}: only functions whose self is not first are refused', how == 'self is not first' and e.cname == 'ConditionError')
            E.cover('done')
            return
        E.prove(f'{P}: functions whose self is not first are refused', how != 'self is not first')
        E.prove(f'{P}: the function of the user is called once, as its signature says', len(log) == 1 and len(log[0]) == len(names) and (len(names) == 1 or log[0][0] is c))
        E.prove(f'{P}: the graph is what the function of the user returns', r is out)
        E.cover('done')
    return f


# ---------------------------------------------------------------- schedulers
def t_construct(kind):
    """A scheduler has a graph of its own, and leaves the one given alone."""
    def f(E):
        E.hooks.clear()
        pint_model(E)
        E.hooks['heap'] = True
        E.hooks['unroll'] = lambda E, st, fr: False
        g = heap.Input(E, 'graph given')
        gv = {'dict': g.v, 'digraph': V(E.fresh(RefS, 'digraph'))}[kind]
        old = E.hooks.get('isinstance2')

        def isinst(E, v, c):
            n = getattr(c, 'name', '').split('.')[-1]
            if n in ('DiGraph', 'Graph'):
                return v is gv and kind == 'digraph'
            return old(E, v, c) if old else None
        E.hooks['isinstance2'] = isinst
        E.contracts['utilities.clone_graph'] = clone

        def convert(E, f, a, k):
            """Contract of networkx_digraph_to_dependency_dict (C21)."""
            b = E.cell_block(Val, 'converted')
            return E.view(E.new_root(HGRAPH, 'converted', leaves={('dom',): g.dom, ('v',): lambda n: b.cellf(n)}))
        E.contracts['utilities.networkx_digraph_to_dependency_dict'] = convert
        E.contracts['condition.ConditionSet'] = lambda E, c, a, k: E.new_obj(c)
        E.contracts['scheduler.Scheduler._parse_termination_conditions'] = lambda E, f, a, k: E.new_cont('dict', [])
        E.contracts['condition._parse_absolute_unit'] = lambda E, f, a, k: Opaque('unit')
        E.contracts['time.Clock'] = lambda E, c, a, k: Opaque('clock')
        E.contracts['scheduler.Scheduler._init_counts'] = lambda E, f, a, k: None
        E.contracts['scheduler.Scheduler.add_condition_set'] = lambda E, f, a, k: None
        E.hooks['globals']['scheduler.default_termination_conds'] = lambda E: E.new_cont('dict', [])
        pushed = []

        def push(E, f, a, k):
            """Contract of _push_graph (task push): the graph becomes the current one."""
            pushed.append((list(a[1:]) + list(k.values()))[0])
        E.contracts['scheduler.Scheduler._push_graph'] = push
        s = E.call(E.cls('scheduler.Scheduler'), [gv], {})
        E.prove(f'{P}: one graph is the base graph', len(pushed) == 1)
        R = heap.Result(E, P, pushed[0], 'base graph')
        R.fresh([g], 'base graph: no set of the given graph, and no set twice')
        E.prove(f'{P}: the base graph is another dictionary', isinstance(R.view, Cont) or R.view.root is not g.root)
        E.cover('constructed')
    return f


def t_push(E):
    """Making a graph the current one leaves it alone."""
    E.hooks.clear()
    pint_model(E)
    E.hooks['heap'] = True
    g = heap.Input(E, 'graph')
    s = E.new_obj(E.cls('scheduler.Scheduler'))
    cs = E.new_obj(E.cls('condition.ConditionSet'))
    s.attrs.update(conditions=cs, _graphs=E.new_cont('list'), _consideration_queues=E.new_cont('list'), _consideration_queue_indices=E.new_cont('list'),
                   _last_handled_structural_condition_order=None, mode=E.cls('scheduler.SchedulingMode').members['STANDARD'])
    q, x = Opaque('queue'), Opaque('indices')
    E.contracts['utilities.cached_graph_function.graph_function_wrapper'] = lambda E, f, a, k: q
    E.contracts['scheduler._generate_consideration_queue_indices'] = lambda E, f, a, k: x
    E.call_body(E.fn('scheduler.Scheduler._push_graph'), [s, g.v], {})
    st = E.norm(s.attrs['_graphs'])
    E.prove(f'{P}: the graph pushed is the current one', isinstance(st, Cont) and len(st.items) == 1)
    v = E.norm(st.items[0])
    if not (isinstance(v, View) and v.root is g.root):
        R = heap.Result(E, P, v, 'current graph')
        R.is_graph(g.dom, g.mem, 'the current graph is the graph pushed')
        R.fresh([g])
    E.cover('pushed')


TASKS = placing.tasks(P) + [(f'custom/{h}', t_custom(h)) for h in SIGS] + [('construct/dict', t_construct('dict')), ('construct/digraph', t_construct('digraph')), ('push', t_push)]
