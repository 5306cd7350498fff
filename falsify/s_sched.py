"""C01-C08, C15, C04/C12 end to end: runs of real schedulers watched by ghost monitors."""
import collections
import copy
import itertools
from base import suite
import graph_scheduler as gs
from graph_scheduler.time import TimeScale, Clock
from graph_scheduler.scheduler import Scheduler, SchedulerError, SchedulingMode
from graph_scheduler import condition as C

CSE, PASS, ESU, ES, LIFE = list(TimeScale)


class Node:
    """A node that can report being finished."""
    def __init__(self, name, rng):
        self.name, self.rng, self.fin = name, rng, {}

    def is_finished(self, execution_id=None):
        return self.fin.get(execution_id, False)

    def __repr__(self):
        return f'<{self.name}>'


def rnodes(rng, n):
    k = rng.randrange(5)
    if k == 0:
        return list(range(n))
    if k == 1:
        return [(i, str(i)) for i in range(n)]
    if k == 2:
        return [Node('N%d' % i, rng) for i in range(n)]
    r = list('ABCDEFGHIJ'[:n])
    rng.shuffle(r)
    return r


def rdag(rng, n=None, maxn=6):
    n = n or rng.randrange(1, maxn + 1)
    nodes = rnodes(rng, n)
    d = rng.choice([0, .2, .4, .6, .9])
    g = {b: {a for a in nodes[:i] if rng.random() < d} for i, b in enumerate(nodes)}
    items = list(g.items())
    rng.shuffle(items)
    return nodes, dict(items)


def layers_ok(graph, queue, exact):
    if not exact:
        lay = {}
        for i, s in enumerate(queue):
            for x in s:
                if x in lay:
                    return f'{x!r} is in layers {lay[x]} and {i}'
                lay[x] = i
        for x in graph:
            if x not in lay:
                return f'{x!r} is in no layer'
            for s in graph[x]:
                if s != x and (s not in lay or lay[s] >= lay[x]):
                    return f'{x!r} is not after its sender {s!r}'
        if set(lay) - set(graph):
            return f'{set(lay) - set(graph)} are not nodes'
    elif [set(x) for x in queue] != [set(graph)]:
        return 'exact time mode has other layers than all nodes'
    return None


class Ghost:
    """What one context should look like."""
    def __init__(self, s, base=None):
        ns = list(s.nodes)
        self.cnt = {ts: {n: 0 for n in ns} for ts in (PASS, ESU, ES, LIFE)}
        self.use = {a: {b: 0 for b in ns} for a in ns}
        self.hist = []
        self.stamps = []
        if base:
            self.cnt = copy.deepcopy_counts(base.cnt) if False else {t: dict(d) for t, d in base.cnt.items()}
            self.use = {a: dict(d) for a, d in base.use.items()}
            self.hist = list(base.hist)
            self.stamps = list(base.stamps)
        self.final = None      # observable state of the context while nobody runs it


def observe(s, eid):
    """Everything a scheduler keeps for a context."""
    clock = s.clocks.get(eid)
    obs = dict(total={ts.name: dict(d) for ts, d in s.counts_total[eid].items()} if eid in s.counts_total else None,
               use={a: dict(d) for a, d in s.counts_useable[eid].items()} if eid in s.counts_useable else None,
               hist=[set(x) for x in s.execution_list[eid]] if eid in s.execution_list else None,
               stamps=[repr(x) for x in s.execution_timestamps.get(eid, [])])
    if clock is not None:
        h = clock.history
        obs['time'] = repr(clock.time) + repr(vars(clock.time))
        obs['prev'] = repr(clock.previous_time) + (repr(vars(clock.previous_time)) if clock.previous_time else '')
        def tree(t):
            return (t.index, dict(t.total_times), [tree(c) for c in t.children])
        obs['tree'] = repr(tree(h))
    return obs


class Run:
    """One run of a scheduler in one context, with its expected behaviour."""
    def __init__(self, M, eid, gen, term, kwargs, skip):
        self.M, self.eid, self.gen, self.term, self.kwargs, self.skip = M, eid, gen, term, kwargs, skip


class Monitor:
    def __init__(self, s, rep, rng):
        self.s, self.rep, self.rng = s, rep, rng
        self.ghosts = {}
        self.cur = None
        self.defaults = {}
        self.evalseq = 0

    # -------------------------------------------------------- conditions
    def wrap(self, node, cond, oracle=None):
        """Record evaluations of the condition of a node."""
        real = cond.is_satisfied

        def is_satisfied(*args, **kw):
            r = self.cur
            if r is None or r.done:
                return real(*args, **kw)
            self.before_eval(r, node, args, kw)
            res = real(*args, **kw)
            self.after_eval(r, node, bool(res), oracle)
            return res
        cond.is_satisfied = is_satisfied
        return cond

    def wrap_term(self, ts, cond):
        real = cond.is_satisfied
        me = self

        def is_satisfied(*args, **kw):
            r = me.cur
            res = real(*args, **kw)
            if r is not None and not r.done and r.termc.get(ts) is cond:
                me.term_eval(r, ts, bool(res), args, kw)
            return res
        cond.is_satisfied = is_satisfied
        cond._wrapped = True
        return cond

    def kw_ok(self, r, args, kw):
        return kw.get('scheduler') is self.s and 'execution_id' in kw and kw['execution_id'] == r.eid and all(kw.get(k) is v for k, v in r.kwargs.items()) and not args

    def term_eval(self, r, ts, res, args, kw):
        rep = self.rep
        rep.note('  check', ts.name, '->', res)
        if not self.kw_ok(r, args, kw):
            rep('C05', f'termination condition of {ts.name} evaluated with {sorted(kw)} instead of the scheduler, context and keyword arguments of the run')
        r.tcheck[ts] = res
        r.tlast = r.tlast if not res else True
        r.anysat = any(r.tcheck.values())
        r.lastres[ts] = res
        if res:
            r.everything_true_since_check = True

    def layer_of(self, r, node):
        return r.layer[node]

    def before_eval(self, r, node, args, kw):
        rep, s, g = self.rep, self.s, self.ghosts[r.eid]
        rep.note('  eval', repr(node))
        if not self.kw_ok(r, args, kw):
            rep('C02', f'condition of {node!r} evaluated without the scheduler, context or keyword arguments of the run')
        lay = r.layer[node]
        p = self.passes(r)
        if p != r.pass_:
            self.new_pass(r, p)
        if r.open is None or r.open != lay:
            # a new layer is considered
            if r.open is not None:
                self.close_layer(r)
            if lay <= r.lastlayer:
                rep('C01', f'layer {lay} considered after layer {r.lastlayer} in the same pass')
            if set(r.tcheck) != {ESU, ES}:
                rep('C05', f'layer {lay} considered although only {[t.name for t in r.tcheck]} had been checked since the previous layer')
            if any(r.tcheck.values()):
                rep('C05', f'layer {lay} considered although {[t.name for t, v in r.tcheck.items() if v]} was satisfied')
            r.open, r.S, r.false, r.lastlayer = lay, set(), set(), lay
            r.tcheck = {}
        elif any(r.tcheck.values()):
            rep('C05', 'a node was considered after a termination condition was satisfied')
        if node in r.S:
            rep('C02', f'{node!r} evaluated again after it was satisfied in the same execution set')
        r.considered.add(node)
        self.check_state(r, f'evaluating the condition of {node!r}')

    def after_eval(self, r, node, res, oracle):
        rep, g = self.rep, self.ghosts[r.eid]
        rep.note('     ->', res)
        if oracle is not None:
            pid, want = oracle(self, r, node)
            if want is not None and res != want:
                rep(pid, f'condition {self.s.conditions.conditions_basic.get(node)} of {node!r} is {res}, not {want}; history of this run {g.hist[r.start:]}')
        if res:
            if node in r.S:
                rep('C02', f'{node!r} twice in one set')
            if node in r.inpass:
                rep('C01', f'{node!r} executes twice in a pass')
            r.S.add(node)
            r.inpass.add(node)
            r.false = set()
            for ts in g.cnt:
                g.cnt[ts][node] += 1
            for n in g.use:
                g.use[n][node] = 0
            for n in g.use:
                g.use[node][n] += 1
        else:
            r.false.add(node)

    def check_state(self, r, when):
        s, g, rep = self.s, self.ghosts[r.eid], self.rep
        for ts in g.cnt:
            if dict(s.counts_total[r.eid][ts]) != g.cnt[ts]:
                rep('C03', f'{when}: {ts.name} counts are {s.counts_total[r.eid][ts]}, executions give {g.cnt[ts]}')
        if {a: dict(d) for a, d in s.counts_useable[r.eid].items()} != g.use:
            rep('C04', f'{when}: useable counts are {s.counts_useable[r.eid]}, executions give {g.use}')

    # -------------------------------------------------------- structure of a run
    def passes(self, r):
        return self.s.clocks[r.eid].history.total_times[PASS] - r.pass0

    def cses(self, r):
        return self.s.clocks[r.eid].history.total_times[CSE]

    def close_layer(self, r, yielded=None):
        rep = self.rep
        members = r.members[r.open]
        if yielded is None and (r.S or r.absolute) and not r.yielded_layer:
            rep('C07' if r.S else 'C06', f'layer {r.open} was considered with executions {r.S} but no execution set was yielded')
        if not r.yielded_layer:
            left = members - r.S - r.false
            if left:
                rep('C02', f'{left} of the considered layer were left out without their condition evaluated unsatisfied after the last execution {r.S}')
        r.open = None
        r.yielded_layer = False

    def new_pass(self, r, p):
        rep = self.rep
        if r.open is not None:
            self.close_layer(r)
        if r.pass_ is not None:
            if p != r.pass_ + 1:
                rep('C06', f'{p - r.pass_} pass ticks between consecutive passes')
            self.end_pass(r)
        elif p != 0:
            rep('C06', f'{p} pass ticks before the first layer of a run')
        r.pass_ = p
        r.lastlayer = -1
        r.inpass = set()
        r.considered = set()
        r.empties = r.fulls = 0
        g = self.ghosts[r.eid]
        g.cnt[PASS] = {n: 0 for n in g.cnt[PASS]}

    def end_pass(self, r, final=False):
        rep = self.rep
        if not r.anysat_in_pass_end() and r.considered != set(self.s.nodes):
            rep('C02', f'pass {r.pass_} did not consider {set(self.s.nodes) - r.considered}')
        if not r.absolute:
            if r.fulls == 0 and r.empties != 1 and not r.dead:
                rep('C06', f'pass {r.pass_} without executions yielded {r.empties} empty sets')
            if r.fulls and r.empties:
                rep('C06', f'pass {r.pass_} with executions yielded an empty set')
        if r.defaults_only and not r.anysat and r.inpass != set(self.s.nodes):
            rep('C15', f'with default conditions only, a pass executed {r.inpass} of {self.s.nodes}')

    def at_yield(self, r, v):
        rep, s, g = self.rep, self.s, self.ghosts[r.eid]
        rep.note('  yield', v)
        if not isinstance(v, (set, frozenset)):
            rep('C07', f'yielded {v!r}')
            return
        p = self.passes(r)
        if p != r.pass_:
            self.new_pass(r, p)
        if r.tcheck and any(r.tcheck.values()) and v:
            rep('C05', f'{v} executed after a termination condition was satisfied')
        if v or r.absolute:
            if r.open is None:
                if v:
                    rep('C02', f'{v} yielded but no condition was evaluated')
            else:
                if v != r.S:
                    rep('C02', f'yielded {v}, satisfied conditions give {r.S}')
                left = r.members[r.open] - set(v) - r.false
                if left:
                    rep('C02', f'{left} left out of {v} without their condition evaluated unsatisfied after the last execution')
                if not set(v) <= r.members[r.open]:
                    rep('C01', f'{v} is not within layer {r.members[r.open]}')
                if r.yielded_layer:
                    rep('C06', 'two sets yielded for one layer')
                r.yielded_layer = True
        elif r.open is not None and r.S:
            rep('C02', f'yielded nothing, satisfied conditions give {r.S}')
        if v:
            r.fulls += 1
        else:
            r.empties += 1
            if not r.absolute and r.fulls:
                rep('C06', 'empty set yielded in a pass with executions')
            if not r.absolute and r.empties > 1:
                rep('C06', 'two empty sets yielded in a pass')
        g.hist.append(set(v))
        if [set(x) for x in s.execution_list[r.eid]] != g.hist:
            rep('C07', f'the execution list is {s.execution_list[r.eid]}, the yields are {g.hist}')
        elif s.execution_list[r.eid] and set(s.execution_list[r.eid][-1]) != set(v):
            rep('C07', 'the last element of the execution list is not the yielded set')
        self.check_state(r, f'yielding {v}')
        cse = self.cses(r)
        if r.lastcse is not None and cse - r.lastcse != 1:
            rep('C06', f'{cse - r.lastcse} consideration-set-execution ticks between two yields')
        elif r.lastcse is None and cse != r.cse0:
            rep('C06', f'{cse - r.cse0} consideration-set-execution ticks before the first yield')
        r.lastcse = cse
        st = s.execution_timestamps.get(r.eid, [])
        if r.absolute:
            if len(st) != len(r.stamps) + 1:
                rep('C07', f'{len(st)} timestamps for {len(r.stamps) + 1} sets')
            else:
                t = s.clocks[r.eid].time
                if st[-1] is t or vars(st[-1]) != vars(t):
                    rep('C07', f'timestamp {st[-1]} is not a snapshot of {t}')
                r.stamps.append((st[-1], dict(vars(t))))
            if len(st) != len(g.stamps) + len(r.stamps):
                pass
        elif len(st) != len(r.stamps):
            rep('C07', f'{len(st)} timestamps without absolute conditions')
        for (o, d), now in zip(r.stamps, st):
            if now is not o or vars(now) != d:
                rep('C07', f'an earlier timestamp changed to {now}')
                break
        self.check_others(r)

    def check_others(self, r):
        for eid, g in self.ghosts.items():
            if eid == r.eid or g.final is None:
                continue
            now = observe(self.s, eid)
            if now != g.final:
                d = [k for k in now if now[k] != g.final.get(k)]
                self.rep('C08', f'running in context {r.eid!r} changed {d} of context {eid!r}: {[g.final.get(k) for k in d]} -> {[now[k] for k in d]}'[:500])
                g.final = now

    # -------------------------------------------------------- driving
    def start(self, eid_arg, base_arg, term, kwargs, skip, absolute, defaults_only=False):
        s, rep = self.s, self.rep
        NA = NotImplemented
        eid = s.default_execution_id if eid_arg is NA else eid_arg
        kw = dict(kwargs)
        if term is not None:
            kw['termination_conds'] = term
        if eid_arg is not NA:
            kw['execution_id'] = eid_arg
        if base_arg is not NA:
            kw['base_execution_id'] = base_arg
        if skip is not None:
            kw['skip_environment_state_update_time_increment'] = skip
        gen = s.run(**kw)
        r = Run(self, eid, gen, term, kwargs, bool(skip))
        r.done = False
        r.absolute = absolute
        r.defaults_only = defaults_only
        r.termc = dict(s.termination_conds)
        for k, v in (term or {}).items():
            r.termc[TimeScale[k.upper()] if isinstance(k, str) else k] = v
        for ts in (ESU, ES):
            c = r.termc[ts]
            if not getattr(c, '_wrapped', False):
                self.wrap_term(ts, c)
        r.tcheck, r.lastres, r.tlast, r.anysat = {}, {}, False, False
        r.anysat_in_pass_end = lambda: r.anysat or any(r.lastres.values())
        r.open, r.S, r.false, r.lastlayer, r.pass_, r.yielded_layer = None, set(), set(), -1, None, False
        r.inpass, r.considered, r.empties, r.fulls, r.dead = set(), set(), 0, 0, False
        r.lastcse = None
        r.base_arg = base_arg
        r.started = False
        return r

    def begin(self, r):
        """First step of the generator."""
        s, rep = self.s, self.rep
        NA = NotImplemented
        if r.eid not in self.ghosts:
            self.ghosts[r.eid] = Ghost(s, self.ghosts.get(r.base_arg) if r.base_arg is not NA else None)
            r.new, r.base = True, r.base_arg
        else:
            r.new, r.base = False, NA
        g = self.ghosts[r.eid]
        r.start = len(g.hist)
        exact = s.mode is SchedulingMode.EXACT_TIME
        q = [set(x) for x in s.consideration_queue]
        bad = layers_ok(s.graph, q, exact)
        if bad:
            rep('C01', f'consideration queue {q} of {s.graph}: {bad}')
        r.members = q
        r.layer = {n: i for i, x in enumerate(q) for n in x}
        if not exact and dict(s.consideration_queue_indices) != r.layer:
            rep('C01', f'indices {s.consideration_queue_indices} of queue {q}')
        if r.new and r.base is NotImplemented:
            c = s.clocks.get(r.eid)
            r.pass0 = r.cse0 = r.esu0 = 0
            if c is not None:
                tt = c.history.total_times
                r.pass0, r.cse0, r.esu0 = tt[PASS], tt[CSE], tt[ESU]
        else:
            tt = s.clocks[r.base if r.new else r.eid].history.total_times
            r.pass0, r.cse0, r.esu0 = tt[PASS], tt[CSE], tt[ESU]
        st = s.execution_timestamps.get(r.base if r.new and r.base is not NotImplemented else r.eid, [])
        r.stamps = [(x, dict(vars(x))) for x in st]
        # counts of a run
        for ts in (PASS, ESU):
            g.cnt[ts] = {n: 0 for n in g.cnt[ts]}
        g.use = {a: {b: 0 for b in d} for a, d in g.use.items()}
        r.started = True

    def after_begin(self, r):
        """The context exists now: it starts empty or as a separate copy."""
        s, rep = self.s, self.rep
        if r.new and r.base is not NotImplemented:
            for name in ('counts_total', 'counts_useable', 'execution_list', 'clocks'):
                if getattr(s, name)[r.eid] is getattr(s, name)[r.base]:
                    rep('C08', f'{name} of {r.eid!r} is the object of its base context')

    def step(self, r):
        """Advance the generator; returns False when it has finished."""
        first = not r.started
        if first:
            self.begin(r)
        self.cur = r
        try:
            v = next(r.gen)
        except StopIteration as e:
            self.finish(r, e.value)
            return False
        finally:
            self.cur = None
        self.cur = r
        self.at_yield(r, v)
        self.cur = None
        if first:
            self.after_begin(r)
        self.ghosts[r.eid].final = None
        return True

    def finish(self, r, value):
        rep, s, g = self.rep, self.s, self.ghosts[r.eid]
        r.done = True
        rep.note('  finished; totals', {k.name: v for k, v in s.clocks[r.eid].history.total_times.items()})
        p = self.passes(r)
        if r.open is not None:
            self.close_layer(r)
        if not any(r.lastres.values()):
            rep('C05', 'a run ended although no termination condition was satisfied')
        if r.pass_ is not None:
            if p != r.pass_ + 1 and not (r.absolute and p == r.pass_ + 2):
                rep('C06', f'the last pass ended with {p - r.pass_} pass ticks')
            self.end_pass(r, True)
        elif p > (1 if r.absolute else 0):
            rep('C06', f'{p} pass ticks in a run without a pass')
        tt = s.clocks[r.eid].history.total_times
        if tt[ESU] - r.esu0 != (0 if r.skip else 1):
            rep('C06', f'a finished run added {tt[ESU] - r.esu0} environment-state-update ticks (skip: {r.skip})')
        n = len(g.hist) - r.start
        if tt[CSE] - r.cse0 != n:
            rep('C06', f'{tt[CSE] - r.cse0} consideration-set-execution ticks for {n} yields')
        if [set(x) for x in s.execution_list[r.eid]] != g.hist:
            rep('C07', f'after the run the execution list is {s.execution_list[r.eid]}, the yields are {g.hist}')
        if s.execution_timestamps.get(r.eid) is not None and len(s.execution_timestamps[r.eid]) != len(r.stamps):
            rep('C07', 'timestamps were added or lost after the last yield')
        for (o, d), now in zip(r.stamps, s.execution_timestamps.get(r.eid, [])):
            if vars(now) != d:
                rep('C07', f'a timestamp changed to {now}')
                break
        for ts in (ESU, ES, LIFE):
            if dict(s.counts_total[r.eid][ts]) != g.cnt[ts]:
                rep('C03', f'after a run: {ts.name} counts are {s.counts_total[r.eid][ts]}, executions give {g.cnt[ts]}')
        self.check_others(r)
        g.final = observe(s, r.eid)

    def settle(self, r):
        """A run is left unfinished: forget its partial state."""
        r.done = True
        self.ghosts[r.eid].final = observe(self.s, r.eid)


# ---------------------------------------------------------------- scenario generation
def rcond(rng, nodes, node, fn):
    """(condition, oracle or None)"""
    others = [n for n in nodes if n != node] or [node]
    k = rng.random()
    d = rng.choice(others)
    n = rng.choice([0, 1, 1, 2, 3])
    ts = rng.choice([PASS, ESU, ES, LIFE])
    G = lambda M, r: M.ghosts[r.eid]
    if k < .35:
        return C.Condition(fn), None
    if k < .55:
        return C.EveryNCalls(d, n), lambda M, r, x: ('C04', G(M, r).use[d][x] >= n)
    if k < .6:
        m = {C.BeforeNCalls: lambda c: c < n, C.AtNCalls: lambda c: c == n, C.AfterCall: lambda c: c > n, C.AfterNCalls: lambda c: c >= n}
        cl = rng.choice(list(m))
        return cl(d, n, ts), lambda M, r, x: ('C12', m[cl](G(M, r).cnt[ts][d]))
    if k < .65:
        return C.JustRan(d), lambda M, r, x: ('C12', bool(G(M, r).hist) and d in G(M, r).hist[-1])
    if k < .7:
        ds = rng.sample(nodes, rng.randrange(0, len(nodes) + 1))
        return C.AllHaveRun(*ds, time_scale=ts), lambda M, r, x: ('C12', all(G(M, r).cnt[ts][y] >= 1 for y in (ds or M.s.nodes)))
    if k < .74:
        ds = rng.sample(nodes, rng.randrange(1, len(nodes) + 1))
        return C.AfterNCallsCombined(*ds, n=n, time_scale=ts), lambda M, r, x: ('C12', sum(G(M, r).cnt[ts][y] for y in ds) >= n)
    if k < .8:
        return C.AtPass(n), lambda M, r, x: ('C11', M.passes(r) == n) if not r.absolute and r.firstrun else ('C11', None)
    if k < .85:
        return C.EveryNPasses(n + 1), None
    if k < .9:
        a, oa = rcond(rng, nodes, node, fn)
        b, ob = rcond(rng, nodes, node, fn)
        if oa and ob:
            return C.All(a, b), lambda M, r, x: ('C13', None if None in (oa(M, r, x)[1], ob(M, r, x)[1]) else oa(M, r, x)[1] and ob(M, r, x)[1])
        return C.Any(a, b), None
    if k < .94:
        return C.Always(), lambda M, r, x: ('C13', True)
    a, oa = rcond(rng, nodes, node, fn)
    return C.Not(a), (lambda M, r, x: ('C13', None if oa(M, r, x)[1] is None else not oa(M, r, x)[1])) if oa else None


def build(rng, rep, absolute=False):
    nodes, graph = rdag(rng)
    mode = SchedulingMode.EXACT_TIME if absolute and rng.random() < .3 else SchedulingMode.STANDARD
    deid = rng.choice([None, None, 'dflt', 7])
    rep.note('graph', graph, mode, 'default context', repr(deid))
    s = Scheduler({k: set(v) for k, v in graph.items()}, default_execution_id=deid, mode=mode,
                  termination_conds={ESU: C.AllHaveRun(), ES: C.Never()})
    M = Monitor(s, rep, rng)
    M.ghosts[deid] = Ghost(s)
    M.nodes = nodes
    dense = rng.choice([.3, .6, .9])
    script = {}

    def fn(self_=None):
        return rng.random() < dense
    defaults = set()
    given = {}
    if rng.random() < .3:
        # structural conditions
        for _ in range(rng.randrange(0, 3)):
            a, b = rng.choice(nodes), rng.choice(nodes)
            if a != b:
                try:
                    s.add_condition(a, rng.choice([C.AddEdgeTo, C.RemoveEdgeFrom, C.AfterNode, C.BeforeNode])(b))
                except C.ConditionError:
                    pass
    for n in nodes:
        if rng.random() < rng.choice([.15, .15, 1]) and not absolute:
            defaults.add(n)
            continue
        if absolute and rng.random() < .5:
            start = rng.choice([None, 0, 1, 2])
            c, o = C.TimeInterval(repeat=rng.choice([1, 2, 3, 6]), start=start), None
        else:
            c, o = rcond(rng, nodes, n, fn)
        given[n] = c
        rep.note('condition of', repr(n), c)
        s.add_condition(n, c)
        M.wrap(n, c, o)
    M.defaults, M.given = defaults, given
    return s, M, nodes


def default_oracle(M, r, x):
    snd = M.s.graph[x]
    return 'C15', all(M.ghosts[r.eid].use[y][x] >= 1 for y in snd)


def rterm(rng, M, nodes, absolute):
    """Termination conditions that end a run."""
    t = {}
    cap = rng.choice([1, 2, 3, 4, 6])

    def counter():
        box = {}

        def f(scheduler, execution_id):
            return next(c) >= lim
        lim = rng.choice([0, 1, 2, 3, 5, 8, 13])
        c = itertools.count()
        return C.Condition(f)
    k = rng.random()
    if k < .35:
        t[ESU] = C.AfterNPasses(cap)
    elif k < .7:
        t[ESU] = counter()
    else:
        t[ESU] = C.Any(C.AfterNPasses(cap), C.AllHaveRun())
    if rng.random() < .3:
        t[ES] = counter()
    return t


def cyclic(s):
    return layers_ok(s.graph, s._consideration_queues[-1] if hasattr(s, '_consideration_queues') else s.consideration_queue, False) is not None


def has_cycle(g):
    seen = {}

    def go(x):
        if seen.get(x) == 1:
            return True
        if seen.get(x) == 2:
            return False
        seen[x] = 1
        r = any(go(y) for y in g.get(x, ()) if y != x)
        seen[x] = 2
        return r
    return any(go(x) for x in g)


def drive(rng, rep, absolute=False):
    s, M, nodes = build(rng, rep, absolute)
    try:
        cyc = has_cycle(s.graph)
    except Exception:
        return
    if cyc:
        try:
            next(s.run(termination_conds={ESU: C.AfterNPasses(1)}))
        except SchedulerError:
            return
        except StopIteration:
            pass
        rep('C01', f'running the cyclic graph {s.graph} was not refused')
        return
    NA = NotImplemented
    eids = [NA, NA, 'a', 'b', None, ('t', 1)]
    live = []
    defaults_only = len(M.given) == 0
    for k in range(rng.randrange(1, 6)):
        eid = rng.choice(eids)
        base = NA
        real = s.default_execution_id if eid is NA else eid
        if any(r.eid == real for r in live):
            continue
        if real not in M.ghosts and rng.random() < .5:
            cand = [x for x, g in M.ghosts.items() if not any(r.eid == x for r in live)]
            if cand:
                base = rng.choice(cand)
        if rng.random() < .15 and not absolute:
            # a new condition between runs
            n = rng.choice(nodes)
            if n in M.given and not live:
                c, o = rcond(rng, nodes, n, lambda: rng.random() < .5)
                s.add_condition(n, c)
                M.wrap(n, c, o)
                M.given[n] = c
        if rng.random() < .2 and not live and real in s.clocks:
            s.end_environment_sequence(real)
            g = M.ghosts.get(real)
            if g is not None:
                g.final = None
        term = rterm(rng, M, nodes, absolute)
        kwargs = {'foo': object()} if rng.random() < .3 else {}
        skip = rng.choice([None, None, False, True])
        rep.note('run in', repr(eid), 'base', repr(base), 'skip', skip, 'term', {t.name: str(c) for t, c in term.items()})
        r = M.start(eid, base, term, kwargs, skip, absolute and any(c.is_absolute for c in [*s.conditions.conditions_basic.values(), *term.values()]), defaults_only)
        r.firstrun = True
        r.firstrun = False
        was = dict(s.conditions.conditions_basic)
        # defaults are installed when the run starts: do so first so that they can be watched
        if M.defaults:
            s._validate_run_state()
            for n in nodes:
                c = s.conditions.conditions_basic.get(n)
                if n in was:
                    if c is not was[n]:
                        rep('C15', f'the condition of {n!r} was replaced')
                elif c is None:
                    rep('C15', f'{n!r} has no condition when a run starts')
                elif n in M.defaults and c is not M.given.get(('d', n)):
                    M.given[('d', n)] = c
                    M.wrap(n, c, default_oracle)
        live.append(r)
        steps = rng.choice([0, 1, 2, 5, 1000, 1000])
        for _ in range(steps):
            if not M.step(r):
                live.remove(r)
                break
        if rng.random() < .4:
            # interleave the running generators
            for _ in range(rng.randrange(1, 30)):
                if not live:
                    break
                x = rng.choice(live)
                if not M.step(x):
                    live.remove(x)
    for r in list(live):
        for _ in range(400):
            if not M.step(r):
                break
        else:
            rep('C05', 'a run did not end after 400 execution sets')


@suite('runs', ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C12', 'C13', 'C15'])
def runs(rng, rep):
    drive(rng, rep)


@suite('runs_absolute', ['C01', 'C02', 'C03', 'C05', 'C06', 'C07', 'C08'])
def runs_absolute(rng, rep):
    drive(rng, rep, True)
