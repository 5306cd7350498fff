"""C09, C10, C11: times, clocks and time-count conditions."""
import copy
from base import suite
import graph_scheduler as gs
from graph_scheduler.time import TimeScale, Time, Clock, TimeScaleError, TimeHistoryTree
from graph_scheduler import condition as C
ureg = gs._unit_registry
TS = list(TimeScale)
CSE, PASS, ESU, ES, LIFE = TS
ATTR = {CSE: 'consideration_set_execution', PASS: 'pass_', ESU: 'environment_state_update', ES: 'environment_sequence', LIFE: 'life'}


@suite('time_arith', ['C09'])
def time_arith(rng, rep):
    want_order = ['CONSIDERATION_SET_EXECUTION', 'PASS', 'ENVIRONMENT_STATE_UPDATE', 'ENVIRONMENT_SEQUENCE', 'LIFE']
    m = {n: getattr(TimeScale, n) for n in want_order}
    order = [m[n] for n in want_order]
    for i, a in enumerate(order):
        for j, b in enumerate(order):
            for op, f in (('<', lambda x, y: x < y), ('<=', lambda x, y: x <= y), ('>', lambda x, y: x > y), ('>=', lambda x, y: x >= y), ('==', lambda x, y: x == y)):
                if bool(f(a, b)) != bool(f(i, j)):
                    rep('C09', f'order: {a} {op} {b} is {f(a, b)}')
        if i < 4 and TimeScale.get_parent(a) is not order[i + 1]:
            rep('C09', f'parent of {a} is {TimeScale.get_parent(a)}')
        if i > 0 and TimeScale.get_child(a) is not order[i - 1]:
            rep('C09', f'child of {a} is {TimeScale.get_child(a)}')
    if sorted(rng.sample(order, 5)) != order:
        rep('C09', 'sorting time scales')
    t = Time(**{ATTR[s]: rng.randrange(0, 5) for s in order})
    t.absolute_enabled = rng.random() < .6
    t.absolute_time_unit_scale = rng.choice(order) if rng.random() < .5 else CSE
    num = rng.choice([1, 2, 3, 5, 0.5, 0.25, 0.1, 1 / 3, 7 / 3, 10])
    unit = rng.choice(['ms', 's', 'us', 'min'])
    t.absolute_interval = num * getattr(ureg, unit)
    t.absolute = rng.choice([0, 1, 3, 2.5, 0.75]) * getattr(ureg, rng.choice([unit, 'ms', 's']))
    for _ in range(rng.randrange(1, 25)):
        s = rng.choice(order) if rng.random() < .5 else CSE
        before = {x: t._get_by_time_scale(x) for x in order}
        abs0, en, iv, us = t.absolute, t.absolute_enabled, t.absolute_interval, t.absolute_time_unit_scale
        rep.note('advance', s, 'from', before, abs0, en, iv, us)
        t._increment_by_time_scale(s)
        for x in order:
            got = getattr(t, ATTR[x])
            want = before[x] + 1 if x is s else 0 if order.index(x) < order.index(s) else before[x]
            if got != want:
                rep('C09', f'advancing {s}: {x} went from {before[x]} to {got}, not {want}')
            if t[x] != got or t._get_by_time_scale(x) != got:
                rep('C09', f'reading {x} gives {t[x]} not {got}')
        want = abs0 + iv if (en and s is us) else abs0
        # times are kept to the precision of the unit registry
        if abs((t.absolute - want).to(abs0.u).m) > .6 * 10 ** -ureg.precision + 1e-12 * abs(want.to(abs0.u).m):
            rep('C09', f'advancing {s} (absolute {"on" if en else "off"}, counted in {us}): absolute went from {abs0} to {t.absolute}, not {want}')
        if not (t.absolute_enabled == en and t.absolute_interval == iv and t.absolute_time_unit_scale is us):
            rep('C09', 'advancing changed the absolute settings')
        if rng.random() < .1:
            t.absolute_enabled = not t.absolute_enabled


class Log:
    """Independent record of ticks."""
    def __init__(self):
        self.cur = {s: 0 for s in TS}
        self.life = {s: 0 for s in TS}
        self.seqs = [{s: 0 for s in TS}]
        self.esus = [[{s: 0 for s in TS}]]

    def tick(self, s):
        self.life[s] += 1
        if s < ES:
            self.seqs[-1][s] += 1
        if s < ESU:
            self.esus[-1][-1][s] += 1
        if s is ES:
            self.seqs.append({x: 0 for x in TS})
            self.esus.append([{x: 0 for x in TS}])
        if s is ESU:
            self.esus[-1].append({x: 0 for x in TS})
        self.cur[s] += 1
        for x in TS:
            if x < s:
                self.cur[x] = 0

    def total(self, q, base):
        return {LIFE: self.life, ES: self.seqs[-1], ESU: self.esus[-1][-1]}[base][q]


def rticks(rng, n=30):
    w = [[6, 4, 2, 1], [1, 1, 1, 1], [2, 2, 5, 1], [1, 1, 1, 5]][rng.randrange(4)]
    return rng.choices([CSE, PASS, ESU, ES], w, k=rng.randrange(0, n))


@suite('clock_history', ['C10'])
def clock_history(rng, rep):
    c, log = Clock(), Log()
    if rng.random() < .3:
        c = copy.deepcopy(c)

    def err(f, what):
        try:
            r = f()
        except TimeScaleError:
            return
        rep('C10', f'{what} answered {r} instead of raising TimeScaleError')

    def ask(f, want, what):
        try:
            r = f()
        except TimeScaleError as e:
            rep('C10', f'{what} raised {e}')
            return
        if r != want:
            rep('C10', f'{what} is {r}, but {want} ticks were made')

    def check():
        for s in TS:
            if c.get_time_by_time_scale(s) != log.cur[s] or getattr(c.time, ATTR[s]) != log.cur[s]:
                rep('C10', f'current {s}: {c.get_time_by_time_scale(s)}, expected {log.cur[s]}')
        for s in (CSE, PASS, ESU, ES):
            for b in (ESU, ES, LIFE):
                if b > s:
                    ask(lambda: c.get_total_times_relative(s, b), log.total(s, b), f'{s} within current {b}')
                    ask(lambda: c.history.get_total_times_relative(s, {b: log.cur[b]}), log.total(s, b), f'tree: {s} within {b}')
        st = c.simple_time
        if (st.environment_sequence, st.environment_state_update, st.consideration_set_execution) != (log.cur[ES], log.cur[ESU], log.cur[CSE]):
            rep('C10', f'simple time {st} does not show {log.cur}')
        for i in range(len(log.seqs)):
            for s in (CSE, PASS, ESU):
                ask(lambda: c.get_total_times_relative(s, ES, i), log.seqs[i][s], f'{s} within sequence {i}')
            for j in range(len(log.esus[i])):
                for s in (CSE, PASS):
                    ask(lambda: c.history.get_total_times_relative(s, {ES: i, ESU: j}), log.esus[i][j][s], f'{s} within update {j} of sequence {i}')
        for j in range(len(log.esus[-1])):
            for s in (CSE, PASS):
                ask(lambda: c.get_total_times_relative(s, ESU, j), log.esus[-1][j][s], f'{s} within update {j} of this sequence')
        for s in TS:
            err(lambda: c.get_total_times_relative(LIFE, s), f'LIFE within {s}')
        for k in (0, 1, 5):
            err(lambda: c.get_total_times_relative(PASS, ES, len(log.seqs) + k), 'a sequence that does not exist')
            err(lambda: c.get_total_times_relative(CSE, ESU, len(log.esus[-1]) + k), 'an update that does not exist')
            err(lambda: c.history.get_total_times_relative(CSE, {ES: len(log.seqs) + k, ESU: 0}), 'an update of a sequence that does not exist')
        i = rng.randrange(len(log.seqs))
        err(lambda: c.history.get_total_times_relative(CSE, {ES: i, ESU: len(log.esus[i])}), f'update {len(log.esus[i])} of sequence {i}')
    check()
    if c.previous_time is not None:
        rep('C10', 'a new clock has a previous time')
    for s in rticks(rng):
        old = dict(log.cur)
        rep.note('tick', s)
        c._increment_time(s)
        log.tick(s)
        p = c.previous_time
        if p is None or any(getattr(p, ATTR[x]) != old[x] for x in TS) or p is c.time:
            rep('C10', f'previous time {p} is not the time before the tick {old}')
        if rng.random() < .3:
            check()
    check()


class FakeScheduler:
    """Only what time conditions may use: clocks by context."""
    def __init__(self, clocks):
        self.clocks = clocks

    def get_clock(self, execution_id=None):
        return self.clocks[execution_id]


def conds(rng, n):
    """(condition, oracle on Log)"""
    b = rng.choice([ESU, ES, LIFE])
    be = rng.choice([ES, LIFE])
    k = rng.randrange(26)
    dflt = rng.random() < .4
    a = () if dflt else (b,)
    B_ = ESU if dflt else b
    ae = () if dflt else (be,)
    BE = ES if dflt else be
    t = lambda L, q, base: L.total(q, base)
    opts = [
        (lambda: C.BeforeConsiderationSetExecution(n, *a), lambda L: t(L, CSE, B_) < n),
        (lambda: C.AtConsiderationSetExecution(n, *a), lambda L: t(L, CSE, B_) == n),
        (lambda: C.AfterConsiderationSetExecution(n, *a), lambda L: t(L, CSE, B_) > n),
        (lambda: C.AfterNConsiderationSetExecutions(n, *a), lambda L: t(L, CSE, B_) >= n),
        (lambda: C.BeforePass(n, *a), lambda L: t(L, PASS, B_) < n),
        (lambda: C.AtPass(n, *a), lambda L: t(L, PASS, B_) == n),
        (lambda: C.AfterPass(n, *a), lambda L: t(L, PASS, B_) > n),
        (lambda: C.AfterNPasses(n, *a), lambda L: t(L, PASS, B_) >= n),
        (lambda: C.EveryNPasses(n + 1, *a), lambda L: t(L, PASS, B_) % (n + 1) == 0),
        (lambda: C.BeforeEnvironmentStateUpdate(n, *ae), lambda L: t(L, ESU, BE) < n),
        (lambda: C.AtEnvironmentStateUpdate(n, *ae), lambda L: t(L, ESU, BE) == n),
        (lambda: C.AfterEnvironmentStateUpdate(n, *ae), lambda L: t(L, ESU, BE) > n),
        (lambda: C.AfterNEnvironmentStateUpdates(n, *ae), lambda L: t(L, ESU, BE) >= n),
        (lambda: C.AtEnvironmentSequence(n), lambda L: L.life[ES] == n),
        (lambda: C.AfterEnvironmentSequence(n), lambda L: L.life[ES] > n),
        (lambda: C.AfterNEnvironmentSequences(n), lambda L: L.life[ES] >= n),
        (lambda: C.AtEnvironmentStateUpdateStart(), lambda L: t(L, PASS, ESU) == 0),
        (lambda: C.AtEnvironmentStateUpdateNStart(n, *ae), lambda L: t(L, PASS, ESU) == 0 and t(L, ESU, BE) == n),
        (lambda: C.AtEnvironmentSequenceStart(), lambda L: t(L, ESU, ES) == 0),
        (lambda: C.AtEnvironmentSequenceNStart(n), lambda L: t(L, ESU, ES) == 0 and L.life[ES] == n),
    ]
    k = k % len(opts)
    return opts[k][0](), opts[k][1]


@suite('time_conditions', ['C11'])
def time_conditions(rng, rep):
    clocks, logs = {}, {}
    real = gs.Scheduler({'A': set(), 'B': {'A'}})
    for eid in (None, 'x'):
        real._init_counts(eid)
        clocks[eid], logs[eid] = real.get_clock(eid), Log()
    cs = [conds(rng, rng.choice([0, 0, 1, 1, 2, 3])) for _ in range(12)]

    def check():
        for c, o in cs:
            for eid in logs:
                try:
                    r = c.is_satisfied(scheduler=real, execution_id=eid)
                except Exception as e:
                    rep('C11', f'{type(c).__name__}{c.args} raised {type(e).__name__}: {e}')
                    continue
                if bool(r) != o(logs[eid]):
                    rep('C11', f'{type(c).__name__}{tuple(map(str, c.args))} is {r} in context {eid!r} at {clocks[eid].time} (totals {logs[eid].life})')
    check()
    for s in rticks(rng, 25):
        eid = rng.choice(list(logs))
        rep.note('tick', s, 'in', eid)
        clocks[eid]._increment_time(s)
        logs[eid].tick(s)
        check()
    for c, o in cs:
        if isinstance(c, C.All):
            continue
        try:
            r = c.is_satisfied()
        except C.ConditionError:
            continue
        except Exception as e:
            rep('C11', f'{type(c).__name__} without a scheduler raises {type(e).__name__} instead of ConditionError')
            continue
        rep('C11', f'{type(c).__name__} without a scheduler returns {r} instead of raising ConditionError')
