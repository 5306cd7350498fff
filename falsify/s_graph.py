"""C16 to C21: condition sets, graph structure conditions, graph utilities."""
import copy
import itertools
import warnings
import toposort
from base import suite
import graph_scheduler as gs
from graph_scheduler import condition as C
from graph_scheduler import utilities as U
from graph_scheduler.condition import Operation, ConditionError

NODES = ['A', 'B', 'C', 'D', 'E', 'F']


class N:
    """A node compared by value."""
    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, N) and o.k == self.k

    def __hash__(self):
        return hash(('N', self.k))

    def __repr__(self):
        return f'n{self.k}'

    def __lt__(self, o):
        return self.k < o.k


def mk(rng, kind, k):
    """A node equal to every other node made for k, but rarely the same object."""
    if kind == 's':
        return ''.join(['node', ' ', str(k)])
    if kind == 't':
        return tuple([str(k), k])
    return N(k)


def graph(rng, n=None, kind=None, p=None, selfloops=None, cyclic=None):
    n = n or rng.randrange(2, 7)
    kind = kind or rng.choice('sstN')
    p = rng.choice([.15, .3, .5]) if p is None else p
    cyclic = rng.random() < .4 if cyclic is None else cyclic
    loops = rng.random() < .25 if selfloops is None else selfloops
    g = {mk(rng, kind, i): set() for i in range(n)}
    for i in range(n):
        for j in range(n):
            if i == j:
                if loops and rng.random() < .3:
                    g[mk(rng, kind, i)].add(mk(rng, kind, i))
            elif (j < i or cyclic) and rng.random() < (p if j < i else p * .6):
                g[mk(rng, kind, i)].add(mk(rng, kind, j))
    return g, kind


def snapshot(g):
    return {k: (id(v), set(v)) for k, v in g.items()}, id(g)


def same_graph(a, b):
    return set(a) == set(b) and all(set(a[k]) == set(b[k]) for k in a)


OPS = list(Operation.__members__.values())


def reference_op(name, s, c):
    return {'KEEP': lambda: s, 'REPLACE': lambda: c, 'DISCARD': lambda: set(), 'INTERSECTION': lambda: {x for x in s if x in c},
            'UNION': lambda: {*s, *c}, 'MERGE': lambda: {*s, *c}, 'DIFFERENCE': lambda: {x for x in s if x not in c},
            'INVERSE_DIFFERENCE': lambda: {x for x in c if x not in s}, 'SYMMETRIC_DIFFERENCE': lambda: {x for x in {*s, *c} if (x in s) != (x in c)}}[name]()


def rand_op(rng, sub=None):
    """An operation in one of the ways it can be given; for subjects possibly a dictionary."""
    if sub is not None and rng.random() < .4:
        return {n: rand_op(rng) for n in sub}
    o = rng.choice(list(Operation.__members__))
    return rng.choice([Operation[o], o, o.lower()])


def placement(rng, kind, n, rep):
    """A random structural condition for a random owner: (owner, condition, description)."""
    ks = list(range(n))
    rng.shuffle(ks)
    owner = mk(rng, kind, ks[0])
    others = [mk(rng, kind, k) for k in ks[1:1 + rng.randrange(1, min(3, n - 1) + 1)]]
    cls = rng.choice(['BeforeNode', 'BeforeNodes', 'AfterNode', 'AfterNodes', 'WithNode', 'AddEdgeTo', 'RemoveEdgeFrom'])
    kw = {}
    if cls in ('BeforeNode', 'AfterNode', 'WithNode', 'AddEdgeTo', 'RemoveEdgeFrom'):
        others = others[:1]
    if cls not in ('AddEdgeTo', 'RemoveEdgeFrom'):
        for o in ('reconnect_non_subject_receivers', 'remove_new_self_referential_edges', 'prune_cycles', 'ignore_conflicts'):
            if rng.random() < .35:
                kw[o] = rng.random() < .5
        for o in ('owner_senders', 'owner_receivers', 'subject_senders', 'subject_receivers'):
            if rng.random() < .15 and not (cls == 'WithNode' and o.endswith('senders')):
                kw[o] = rand_op(rng, others if o.startswith('subject') else None)
    c = getattr(C, cls)(*others, **kw)
    return owner, c, others, cls, kw


@suite('structure', ['C18', 'C19'])
def structure(rng, rep):
    g, kind = graph(rng)
    n = len(g)
    owner, c, others, cls, kw = placement(rng, kind, n, rep)
    c.owner = owner
    if rng.random() < .2:
        # the condition already holds for some
        for o in others:
            if rng.random() < .7:
                if cls.startswith('Before'):
                    g[o].add(owner)
                elif cls.startswith('After'):
                    g[owner].add(o)
                elif cls == 'WithNode':
                    g[o] = set(g[owner])
    before, gid = snapshot(g)
    rep.note('graph', g, 'owner', owner, cls, others, kw)
    try:
        r = c.modify_graph(g)
    except ConditionError as e:
        after, _ = snapshot(g)
        if after != before:
            rep('C18', f'a refused condition changed the given graph: {before} -> {after}')
        return
    rep.note('result', r)
    after, _ = snapshot(g)
    if after != before or list(before) != list(g):
        rep('C18', f'the given graph was changed: {before} -> {after}')
    if r is g:
        rep('C18', 'the given graph itself is returned')
    if set(r) != set(g):
        rep('C18', f'nodes changed: {set(g)} -> {set(r)}')
    ids = [id(v) for v in r.values()]
    if set(ids) & {v[0] for v in before.values()}:
        rep('C18', 'a sender set of the given graph is shared with the result')
    if len(set(ids)) != len(ids):
        rep('C18', 'two nodes of the result share a sender set')
    if not all(isinstance(v, set) for v in r.values()):
        rep('C18', 'sender sets of the result are not sets')
        return
    e0 = {(s, k) for k, v in g.items() for s in v}
    e1 = {(s, k) for k, v in r.items() for s in v}
    if cls == 'AddEdgeTo':
        if e1 != e0 | {(owner, others[0])}:
            rep('C19', f'AddEdgeTo changed {e0 ^ e1}')
        return
    if cls == 'RemoveEdgeFrom':
        if e1 != e0 - {(others[0], owner)}:
            rep('C19', f'RemoveEdgeFrom changed {e0 ^ e1}')
        return
    if cls.startswith('Before'):
        already = all(owner in g[o] for o in others)
        ok = all(owner in r[o] for o in others)
    elif cls.startswith('After'):
        already = all(o in g[owner] for o in others)
        ok = all(o in r[owner] for o in others)
    else:
        already = g[owner] == g[others[0]]
        ok = r[owner] == r[others[0]]
    if already and e1 != e0:
        rep('C19', f'already fulfilled, but changed {e0 ^ e1}')
    if not ok:
        rep('C19', f'{cls} does not hold in the result')
    if kw.get('remove_new_self_referential_edges', True) and not already:
        new = [k for k in r if k in r[k] and k not in g[k]]
        if new:
            rep('C19', f'new edges from a node to itself: {new}')


class Plain(C._GSCWithOperations):
    """The bare transformation."""


@suite('operations', ['C20'])
def operations(rng, rep):
    for _ in range(3):
        s, c = (set(rng.sample(NODES, rng.randrange(0, 6))) for _ in 'sc')
        s0, c0 = set(s), set(c)
        name = rng.choice(list(Operation.__members__))
        r = Operation[name](s, c)
        rep.note(name, s0, c0, '->', r)
        if r != reference_op(name, s0, c0):
            rep('C20', f'{name}({s0}, {c0}) is {r}')
        if (s, c) != (s0, c0):
            rep('C20', f'{name} changed its arguments')
        if r is s or r is c:
            rep('C20', f'{name} returns one of its arguments')
    g, kind = graph(rng)
    n = len(g)
    ks = list(range(n))
    rng.shuffle(ks)
    owner = mk(rng, kind, ks[0])
    subs = [mk(rng, kind, k) for k in ks[1:1 + rng.randrange(1, min(4, n))]]
    kw = dict(owner_senders=rand_op(rng), owner_receivers=rand_op(rng), subject_senders=rand_op(rng, subs), subject_receivers=rand_op(rng, subs))
    if rng.random() < .4:
        for k in list(kw):
            if rng.random() < .7:
                kw[k] = rng.choice(['keep', Operation.MERGE, 'KEEP'])
    ign = rng.random() < .4
    get = lambda o, s: (o[s] if isinstance(o, dict) else o)
    nm = lambda o: o.upper() if isinstance(o, str) else o.name
    orig = {k: dict(v) if isinstance(v, dict) else v for k, v in kw.items()}
    c = Plain(*subs, ignore_conflicts=ign, reconnect_non_subject_receivers=False, remove_new_self_referential_edges=False, prune_cycles=False, **kw)
    c.owner = owner
    rep.note(g, owner, subs, orig, ign)
    recv = {k: {x for x in g if k in g[x]} for k in g}
    U_ = lambda d: set().union(*[d[s] for s in subs])
    ns = {owner: reference_op(nm(orig['owner_senders']), g[owner], U_(g))}
    nr = {owner: reference_op(nm(orig['owner_receivers']), recv[owner], U_(recv))}
    for s in subs:
        ns[s] = reference_op(nm(get(orig['subject_senders'], s)), g[s], g[owner])
        nr[s] = reference_op(nm(get(orig['subject_receivers'], s)), recv[s], recv[owner])
    conflict = [(a, b) for a in nr for b in ns if (a in ns[b]) != (b in nr[a])]
    try:
        r = c.modify_graph(g)
    except ConditionError as e:
        if ign or not conflict:
            rep('C20', f'refused without a conflict that matters: {e}')
        return
    rep.note('result', r)
    if conflict and not ign:
        rep('C20', f'operations disagree about {conflict} but the transformation is accepted')
    want = {}
    for b in g:
        want[b] = {a for a in g if ((b in nr[a]) if a in nr else (a in ns[b]) if b in ns else (a in g[b]))}
    if not same_graph(r, want):
        rep('C20', f'the result is {r}, not {want}')


@suite('condition_set', ['C16'])
def condition_set(rng, rep):
    kind = rng.choice('sN')
    n = rng.randrange(1, 5)
    node = lambda k=None: mk(rng, kind, rng.randrange(n) if k is None else k)

    def cond():
        return rng.choice([C.Always, C.Never, lambda: C.EveryNCalls('zz', 2), lambda: C.AddEdgeTo('zz'), lambda: C.BeforeNode('zz'), lambda: C.AfterNodes('yy', 'zz'), lambda: C.CustomGraphStructureCondition(lambda g: g)])()
    basic, struct, order = {}, {}, []
    s = gs.ConditionSet()

    def m_add(k, c):
        if isinstance(c, C.GraphStructureCondition):
            struct.setdefault(k, []).append(c)
            order.append(c)
        else:
            basic[k] = c

    def m_del(k, c):
        if basic.get(k) is c:
            del basic[k]
        else:
            struct[k] = [x for x in struct[k] if x is not c]
            if not struct[k]:
                del struct[k]
            order[:] = [x for x in order if x is not c]

    def given(d):
        for k, v in d.items():
            for c in (v if isinstance(v, (list, tuple)) else [v]):
                m_add(k, c)
    if rng.random() < .5:
        ds = []
        for _ in range(rng.randrange(1, 4)):
            ds.append(None if rng.random() < .2 else {node(): rng.choice([cond, lambda: [cond() for _ in range(rng.randrange(0, 4))]])() for _ in range(rng.randrange(0, 3))})
        last = None if rng.random() < .5 else {node(): cond()}
        s = gs.ConditionSet(*[gs.ConditionSet(d) if d is not None and rng.random() < .3 and all(not isinstance(v, list) or v for v in d.values()) else d for d in ds], conditions=last)
        for d in ds + [last]:
            if d:
                given(d)
        rep.note('constructed from', ds, last)
        # a condition set given lists the basic condition of a node first
        if any(isinstance(v, list) for d in ds if d for v in d.values()):
            order[:] = list(s.structural_condition_order) if sorted(map(id, order)) == sorted(map(id, s.structural_condition_order)) else order
            for k in struct:
                if sorted(map(id, struct[k])) == sorted(map(id, s.conditions_structural.get(k, []))):
                    pass

    def check(what):
        want = {}
        for k in {**basic, **struct}:
            l = ([basic[k]] if k in basic else []) + struct.get(k, [])
            want[k] = l
        if set(s.conditions_basic) != set(basic) or any(s.conditions_basic[k] is not basic[k] for k in basic):
            rep('C16', f'{what}: basic conditions are {s.conditions_basic}, not {basic}')
        if set(s.conditions_structural) != set(struct) or any([id(x) for x in s.conditions_structural[k]] != [id(x) for x in struct[k]] for k in struct):
            rep('C16', f'{what}: structural conditions are {s.conditions_structural}, not {struct}')
        if [id(x) for x in s.structural_condition_order] != [id(x) for x in order]:
            rep('C16', f'{what}: structural order is {s.structural_condition_order}, not {order}')
        v = s.conditions
        if set(v) != set(want) or set(s) != set(want) or len(list(s)) != len(want):
            rep('C16', f'{what}: combined view is for {list(v)}, not {list(want)}')
            return
        for k, l in want.items():
            got = s[k] if rng.random() < .5 else v[k]
            got = got if isinstance(got, list) else [got]
            if [id(x) for x in got] != [id(x) for x in l]:
                rep('C16', f'{what}: combined view of {k} is {got}, not {l}')
            if isinstance(s[k], list) != (len(l) > 1):
                rep('C16', f'{what}: combined view of {k} is {s[k]}')
        for i in range(n + 1):
            if (node(i) in s) != (node(i) in want):
                rep('C16', f'{what}: membership of {node(i)} is {node(i) in s}')
        for k, l in want.items():
            if any(c.owner != k for c in l):
                rep('C16', f'{what}: owners at {k}')
    check('construction')
    gone = []
    for _ in range(rng.randrange(1, 14)):
        act = rng.choice(['add', 'add', 'addset', 'item', 'del', 'delown', 'delgone', 'delfree', 'view'])
        k = node()
        if act == 'add':
            c = cond()
            s.add_condition(k, c)
            m_add(k, c)
        elif act == 'addset':
            d = {node(): rng.choice([cond, lambda: [cond() for _ in range(rng.randrange(0, 4))], lambda: (cond(), cond())])() for _ in range(rng.randrange(0, 3))}
            s.add_condition_set(d)
            given(d)
        elif act == 'item':
            c = cond()
            s[k] = c
            for x in list(struct.get(k, [])):
                m_del(k, x)
                gone.append(x)
            m_add(k, c)
        elif act == 'del':
            l = ([basic[k]] if k in basic else []) + struct.get(k, [])
            if not l:
                continue
            c = rng.choice(l)
            if s.remove_condition(c) is not c:
                rep('C16', 'remove_condition(condition) does not return the condition')
            m_del(k, c)
            gone.append(c)
        elif act == 'delown':
            l = ([basic[k]] if k in basic else []) + struct.get(k, [])
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                try:
                    r = s.remove_condition(k)
                except ConditionError:
                    if len(l) < 2:
                        rep('C16', f'removal by owner refused with {l}')
                    r = 'refused'
            if r != 'refused':
                if len(l) > 1:
                    rep('C16', f'ambiguous removal by owner not refused: {l}')
                elif l:
                    if r is not l[0]:
                        rep('C16', f'remove_condition(owner) returned {r}, not {l[0]}')
                    m_del(k, l[0])
                else:
                    if r is not None or not w:
                        rep('C16', f'nothing to remove: returned {r}, warnings {len(w)}')
        elif act == 'delgone':
            if not gone:
                continue
            c = rng.choice(gone)
            try:
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter('always')
                    r = s.remove_condition(c)
                if r is not None or not w:
                    rep('C16', f'removing a condition that is not there returned {r}, warnings {len(w)}')
            except ConditionError:
                if c.owner is not None:
                    rep('C16', 'an owned condition was refused')
        elif act == 'delfree':
            try:
                s.remove_condition(C.Always())
                rep('C16', 'removing an unowned condition was not refused')
            except ConditionError:
                pass
        else:
            s.conditions
        rep.note(act, k, list(s.conditions_basic), s.conditions_structural)
        check(act)
    if order and rng.random() < .5:
        c = rng.choice(order)
        s.add_condition(c.owner, c)
        m_add(c.owner, c)
        rep.note('add again', c, 'to', c.owner)
        check('a condition added again')


class Boom(Exception):
    pass


@suite('graph_stack', ['C01', 'C17', 'C18'])
def graph_stack(rng, rep):
    g, kind = graph(rng, p=rng.choice([.1, .3]))
    n = len(g)
    before, _ = snapshot(g)
    sched = gs.Scheduler(g)
    present = []
    base = {k: set(v) for k, v in g.items()}

    def custom(fail):
        a, b = (mk(rng, kind, rng.randrange(n)) for _ in 'ab')

        def f(graph):
            if fail:
                raise Boom('no')
            graph[a] = graph[a] ^ {b}
            return graph
        return C.CustomGraphStructureCondition(f), fail

    def expected():
        cur = {k: set(v) for k, v in base.items()}
        for c, _ in present:
            cur = c.modify_graph(cur)
        return cur

    def check(what):
        if any(f for _, f in present):
            return
        try:
            want = expected()
        except (ConditionError, Boom):
            return
        got = sched.graph
        try:
            mine = list(toposort.toposort({k: set(v) for k, v in got.items()}))
        except toposort.CircularDependencyError:
            mine = None
        if mine is not None and sched.consideration_queue != mine:
            rep('C01', f'{what}: queue is {sched.consideration_queue}, not {mine} for {got}')
        if mine is not None and sched.consideration_queue_indices != {x: i for i, l in enumerate(mine) for x in l}:
            rep('C01', f'{what}: indices are {sched.consideration_queue_indices}, not those of {mine}')
        if not same_graph(got, want):
            rep('C17', f'{what}: graph is {got}, not {want}')
            return
        ids = [id(v) for v in got.values()]
        if len(set(ids)) != len(ids) or set(ids) & {v[0] for v in before.values()}:
            rep('C18', f'{what}: sender sets are shared')
        loops = {k: v - {k} for k, v in want.items()}
        try:
            q = list(toposort.toposort({k: set(v) for k, v in want.items()}))
        except toposort.CircularDependencyError:
            q = [set()]
        if sched.consideration_queue != q:
            rep('C17', f'{what}: queue is {sched.consideration_queue}, not {q} for {want}')
        if sched.consideration_queue_indices != {x: i for i, l in enumerate(q) for x in l}:
            rep('C17', f'{what}: indices are {sched.consideration_queue_indices} for {q}')
    gone = []
    for _ in range(rng.randrange(1, 12)):
        act = rng.choice(['add', 'add', 'add', 'del', 'delset', 'read', 'edge', 'item', 'bad', 'fix', 'fix'])
        if act in ('add', 'item'):
            if rng.random() < .3:
                c, f = custom(False)
                owner = mk(rng, kind, rng.randrange(n))
            else:
                owner, c, _, _, _ = placement(rng, kind, n, rep)
                f = False
            tgt = rng.choice([sched, sched.conditions])
            try:
                if act == 'add':
                    tgt.add_condition(owner, c)
                    present.append((c, False))
                else:
                    sched.conditions[owner] = c
                    present[:] = [(x, y) for x, y in present if x.owner != owner] + [(c, False)]
                sched.graph
            except (ConditionError, Boom):
                if not (present and present[-1][0] is c):
                    present.append((c, True))
                else:
                    present[-1] = (c, True)
            try:
                expected()
                if present[-1][1]:
                    rep('C17', f'{c} applies to what the others before it leave, but was refused')
            except (ConditionError, Boom):
                if act == 'item':
                    # one of those after the replaced one may not apply any more
                    return
        elif act == 'bad':
            c, f = custom(True)
            try:
                rng.choice([sched, sched.conditions]).add_condition(mk(rng, kind, rng.randrange(n)), c)
            except (ConditionError, Boom):
                pass
            present.append((c, True))
        elif act == 'fix':
            for c, f in list(present):
                if f:
                    rng.choice([sched, sched.conditions]).remove_condition(c)
                    present.remove((c, f))
            # what was refused before may apply now
            for i, (c, f) in enumerate(present):
                present[i] = (c, False)
            try:
                expected()
            except (ConditionError, Boom):
                return
        elif act == 'del' and present:
            c, f = rng.choice(present)
            rng.choice([sched, sched.conditions]).remove_condition(c)
            present.remove((c, f))
            try:
                expected()
            except (ConditionError, Boom):
                return
        elif act == 'edge':
            a, b = rng.sample(range(n), 2)
            a, b = mk(rng, kind, a), mk(rng, kind, b)
            try:
                c = rng.choice([sched.add_graph_edge, sched.remove_graph_edge])(a, b)
                present.append((c, False))
            except (ConditionError, Boom):
                return
        else:
            try:
                sched.graph
            except (ConditionError, Boom):
                pass
        rep.note(act, [(str(c), c.owner, f) for c, f in present])
        check(act)
        after, _ = snapshot(g)
        if after != before:
            rep('C18', 'the graph the scheduler was made from was changed')


def closure(g, start, nxt):
    seen, todo = set(), list(nxt(start))
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        todo += nxt(x)
    return seen - {start}


def cycles(g):
    """Simple cycles as sets of rotations."""
    out = set()
    ns = list(g)
    succ = {a: [b for b in g if a in g[b]] for a in ns}

    def go(path):
        for b in succ[path[-1]]:
            if b == path[0]:
                i = min(range(len(path)), key=lambda j: ns.index(path[j]))
                out.add(tuple(path[i:] + path[:i]))
            elif b not in path and ns.index(b) > ns.index(path[0]):
                go(path + [b])
    for a in ns:
        go([a])
    return out


@suite('utilities', ['C21'])
def utilities(rng, rep):
    g, kind = graph(rng)
    closed = True
    if rng.random() < .25:
        k = mk(rng, kind, rng.randrange(len(g)))
        g[k].add(mk(rng, kind, 77))
        closed = False
    for step in range(rng.randrange(1, 6)):
        ns = set(g) | set().union(*g.values())
        senders = lambda x: g.get(x, set())
        receivers = lambda x: {y for y in g if x in g[y]}
        before, _ = snapshot(g)
        rep.note('graph', g)
        f = rng.choice(['clone_graph', 'convert', 'get_receivers', 'get_ancestors', 'get_descendants', 'get_simple_cycles', 'clone_other'])
        if f == 'clone_graph':
            r = U.clone_graph(g)
            if r != g or r is g or any(r[k] is g[k] for k in g) or len({id(v) for v in r.values()}) != len(r):
                rep('C21', f'clone_graph gives {r}')
        elif f == 'clone_other':
            h = {k: rng.choice([list, tuple, frozenset, set])(v) for k, v in g.items()}
            one = rng.choice(list(h))
            if kind == 's':
                h[one] = 'node 0'
            r = U.clone_graph(h)
            want = {k: ({v} if isinstance(v, str) else set(v)) for k, v in h.items()}
            if r != want or any(r[k] is h[k] for k in h):
                rep('C21', f'clone_graph of {h} gives {r}')
        elif f == 'convert':
            d = U.dependency_dict_to_networkx_digraph(g)
            if set(d.nodes) != ns or set(d.edges) != {(s, k) for k in g for s in g[k]}:
                rep('C21', f'conversion gives {d.nodes} {d.edges}')
            r = U.networkx_digraph_to_dependency_dict(d)
            if not same_graph(r, {**{k: set() for k in ns}, **g}):
                rep('C21', f'conversion and back gives {r}')
        elif f == 'get_receivers':
            r = U.get_receivers(g)
            want = {k: receivers(k) for k in ns}
            if r != want:
                rep('C21', f'get_receivers gives {r}, not {want}')
        elif f == 'get_ancestors':
            r = U.get_ancestors(g)
            want = {k: closure(g, k, senders) for k in g}
            if r != want:
                rep('C21', f'get_ancestors gives {r}, not {want}')
        elif f == 'get_descendants':
            r = U.get_descendants(g)
            want = {k: closure(g, k, receivers) for k in g}
            if r != want:
                rep('C21', f'get_descendants gives {r}, not {want}')
        else:
            r = U.get_simple_cycles(g)
            full = {**{k: set() for k in ns}, **g}
            ix = list(full)
            got = set()
            for c in r:
                i = min(range(len(c)), key=lambda j: ix.index(c[j]))
                got.add(tuple(c[i:] + c[:i]))
            if got != cycles(full) or len(r) != len(got):
                rep('C21', f'get_simple_cycles gives {r}, not {cycles(full)}')
        after, _ = snapshot(g)
        if after != before:
            rep('C21', f'{f} changed its argument')
        # spoil what was returned, or change the graph
        if rng.random() < .6 and isinstance(r, (dict, list)):
            rep.note('spoil the result of', f)
            if isinstance(r, dict) and r:
                k = rng.choice(list(r))
                r[k].add('spoilt') if isinstance(r[k], set) else None
                if rng.random() < .3:
                    del r[k]
            elif isinstance(r, list):
                if r and rng.random() < .7:
                    r[0].append('spoilt')
                else:
                    r.append(['spoilt'])
        if rng.random() < .5:
            a, b = (mk(rng, kind, rng.randrange(len(g))) for _ in 'ab')
            if a in g and b in g:
                g[a] ^= {b}
