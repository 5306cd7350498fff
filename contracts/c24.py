"""C24: termination conditions merge scale by scale, last for one run, and are refused when malformed."""
from .common import *
from . import runs

LEVEL = 'proof'
LIMIT = 300
NOTE = 'merging: every dictionary that names each time scale at most once (by member, or by its name in lower, upper or mixed case), with arbitrary conditions, over arbitrary current conditions; refusals: every malformed key or value, alone or next to valid entries; a run: every schedule (loop invariants inferred)'
DEFAULTS = dict(ENVIRONMENT_STATE_UPDATE='AllHaveRun', ENVIRONMENT_SEQUENCE='Never')


def condition(E, cls='Condition'):
    return E.new_obj(E.cls('condition.' + cls), dict(_owner=None, func=None, args=(), kwargs=E.new_cont('dict', [])))


def entries(E, full):
    """A dictionary naming any subset of the scales, each in one way. Returns the dictionary and its meaning."""
    items, want = [], {}
    for ts in E.TSs():
        if full:
            form = E.choose(4)
        else:
            form = E.choose(2)
        if form == 0:
            continue
        c = condition(E)
        key = [None, ts, ts.name.lower(), ts.name.capitalize()][form] if full else ts
        items.append([key, c])
        want[ts] = c
    if full and E.choose(2):
        items.reverse()
    return E.new_cont('dict', items), want


def snapshot(E, d):
    return [(k, v) for k, v in d.items]


def unchanged(E, d, snap):
    n = E.norm(d)
    E.prove('C24: dictionaries passed in are not changed', isinstance(n, Cont) and n.items is not None and len(n.items) == len(snap) and all(a is k and b is v for (a, b), (k, v) in zip(n.items, snap)))


def is_dict(E, what, d, want, given=()):
    d = E.norm(d)
    ok = isinstance(d, Cont) and d.items is not None and E.ckind(d) == 'dict'
    if not ok:
        raise Unsupported('termination conditions are not a concrete dictionary')
    got = {k: v for k, v in d.items}
    E.prove(f'C24: {what}: exactly the scales named or already there', set(got) == set(want) and len(got) == len(d.items))
    for k, v in want.items():
        if k in got:
            E.prove(f'C24: {what}: ' + ('a named scale has the condition given' if k in given else 'a scale not named keeps its condition'), got[k] is v)


def scheduler(E):
    """A scheduler whose current and default conditions are arbitrary for every scale that has one."""
    s = E.new_obj(E.cls('scheduler.Scheduler'))
    cur, dflt = {}, {}
    extra = E.choose(2)
    for ts in E.TSs():
        if ts.name in DEFAULTS or extra:
            cur[ts], dflt[ts] = condition(E), condition(E)
    s.attrs['_termination_conds'] = E.new_cont('dict', [[k, v] for k, v in cur.items()])
    s.attrs['default_termination_conds'] = E.new_cont('dict', [[k, v] for k, v in dflt.items()])
    return s, cur, dflt


def parse(E):
    E.hooks.clear()
    pint_model(E)
    d, want = entries(E, True)
    snap = snapshot(E, d)
    r = E.call(E.fn('scheduler.Scheduler._parse_termination_conditions'), [d], {})
    is_dict(E, 'names of scales', r, want, want)
    unchanged(E, d, snap)
    E.prove('C24: dictionaries passed in are not changed', E.norm(r) is not d)


BAD = ['unknown name', 'arbitrary key', 'arbitrary name', 'none', 'structural condition', 'structural condition by name', 'arbitrary value', 'arbitrary value by name', 'none as condition']


def bad_entry(E, kind):
    """A malformed entry: an arbitrary key that is neither a scale nor the name of one, or an arbitrary value that is no basic condition."""
    ts = tsm(E, 'PASS')
    c = condition(E)
    E.hooks['identity'] = ('Thing',)
    x = E.new_obj(BuiltinClass(type('Thing', (), {}), 'Thing'), {})
    if kind.startswith('arbitrary key'):
        return [x, c]
    if kind == 'arbitrary name':
        x.attrs['upper'] = Builtin('upper', lambda a, k: 'NO SUCH SCALE')
        return [x, c]
    key = {'unknown name': 'PASSES', 'none': None}
    if kind in key:
        return [key[kind], c]
    k = 'pass' if kind.endswith('by name') else ts
    if kind.startswith('structural'):
        return [k, E.new_obj(E.cls('condition.AddEdgeTo'), dict(_owner=None))]
    return [k, None if kind.startswith('none') else x]


def refuse(kind, how):
    def f(E):
        E.hooks.clear()
        pint_model(E)
        items = []
        if E.choose(2):
            items.append([tsm(E, 'ENVIRONMENT_SEQUENCE'), condition(E)])
        items.append(bad_entry(E, kind))
        if E.choose(2):
            items.append(['environment_state_update', condition(E)])
        d = E.new_cont('dict', items)
        snap = snapshot(E, d)
        s, cur, dflt = scheduler(E)
        try:
            if how == 'given to a run':
                E.call_body(E.fn('scheduler.Scheduler._combine_termination_conditions'), [s, d], {})
            elif how == 'assigned':
                E.setattr(s, 'termination_conds', d)
            else:
                construct(E, d)
        except PyRaise as e:
            E.prove('C24: malformed termination conditions are refused with an error', e.cname in ('SchedulerError', 'TypeError'))
            unchanged(E, d, snap)
            is_dict(E, 'after a refusal', s.attrs['_termination_conds'], cur)
            return
        E.prove('C24: anything that is not a basic condition keyed by a time scale is refused', False)
    return f


def not_dict(E):
    E.hooks.clear()
    pint_model(E)
    c = condition(E)
    d = [lambda: c, lambda: E.new_cont('list', [c]), lambda: 5, lambda: (c,)][E.choose(4)]()
    s, cur, dflt = scheduler(E)
    try:
        if E.choose(2):
            E.call_body(E.fn('scheduler.Scheduler._combine_termination_conditions'), [s, d], {})
        else:
            E.setattr(s, 'termination_conds', d)
    except PyRaise as e:
        is_dict(E, 'after a refusal', s.attrs['_termination_conds'], cur)
        return
    E.prove('C24: anything that is not a basic condition keyed by a time scale is refused', False)


def combine(E):
    """What a run gets: the current conditions overridden by those given; nothing is changed."""
    E.hooks.clear()
    pint_model(E)
    s, cur, dflt = scheduler(E)
    d, want = entries(E, True)
    snap = snapshot(E, d)
    r = E.call_body(E.fn('scheduler.Scheduler._combine_termination_conditions'), [s, d], {})
    is_dict(E, 'given to a run', r, {**cur, **want}, want)
    unchanged(E, d, snap)
    is_dict(E, 'conditions of the scheduler after a merge for a run', s.attrs['_termination_conds'], cur)
    is_dict(E, 'default conditions of the scheduler after a merge for a run', s.attrs['default_termination_conds'], dflt)
    E.prove('C24: conditions merged for a run are not the scheduler\'s own', E.norm(r) is not E.norm(s.attrs['_termination_conds']) and E.norm(r) is not d)
    g = E.getattr(s, 'termination_conds')
    is_dict(E, 'the conditions published by the scheduler', g, cur)


def assign(E, n=None):
    E.hooks.clear()
    pint_model(E)
    s, cur, dflt = scheduler(E)
    n = E.choose(2) * 2 if n is None else n
    if n == 2:
        E.setattr(s, 'termination_conds', None)
        is_dict(E, 'assigning None', E.getattr(s, 'termination_conds'), dflt)
    else:
        d, want = entries(E, n == 0)
        snap = snapshot(E, d)
        E.setattr(s, 'termination_conds', d)
        unchanged(E, d, snap)
        is_dict(E, 'assignment', E.getattr(s, 'termination_conds'), {**cur, **want}, want)
        if n == 1:
            # a second assignment overrides only what it names
            cur = {**cur, **want}
            d2, want2 = entries(E, False)
            E.setattr(s, 'termination_conds', d2)
            is_dict(E, 'a second assignment', E.getattr(s, 'termination_conds'), {**cur, **want2}, want2)
            unchanged(E, d, snap)
    is_dict(E, 'default conditions after an assignment', s.attrs['default_termination_conds'], dflt)
    # later changes of the current conditions do not change the defaults
    E.prove('C24: current and default conditions are separate dictionaries', E.norm(s.attrs['_termination_conds']) is not E.norm(s.attrs['default_termination_conds']))


def construct(E, d):
    """Scheduler.__init__ up to what does not concern termination conditions."""
    g = E.new_cont('dict', [])
    nothing = lambda r=None: (lambda E, f, a, k: r)
    E.contracts['scheduler.Scheduler._push_graph'] = nothing()
    E.contracts['scheduler.Scheduler._init_counts'] = nothing()
    E.contracts['scheduler.Scheduler._init_clock'] = nothing()
    E.contracts['condition._parse_absolute_unit'] = nothing(Opaque('unit'))
    E.contracts['scheduler._parse_absolute_unit'] = nothing(Opaque('unit'))
    E.contracts['utilities.clone_graph'] = lambda E, f, a, k: E.new_cont('dict', [])
    E.contracts['scheduler.Scheduler.consideration_queue'] = nothing()
    E.contracts['time.Clock.__init__'] = nothing()
    E.B.ext['datetime.datetime.now'] = Builtin('now', lambda a, k: Opaque('now'))
    return E.call(E.cls('scheduler.Scheduler'), [g], dict(termination_conds=d, default_absolute_time_unit=Opaque('ms')) if d is not NOTIMPL else dict(default_absolute_time_unit=Opaque('ms')))


def constructor(E):
    E.hooks.clear()
    pint_model(E)
    k = E.choose(3)
    if k == 0:
        s, want = construct(E, NOTIMPL), {}
    elif k == 1:
        s, want = construct(E, None), {}
    else:
        d, want = entries(E, True)
        snap = snapshot(E, d)
        s = construct(E, d)
        unchanged(E, d, snap)
    for attr in ('_termination_conds', 'default_termination_conds'):
        v = E.norm(s.attrs[attr])
        if not (isinstance(v, Cont) and v.items is not None):
            raise Unsupported('termination conditions are not a concrete dictionary')
        got = {a: b for a, b in v.items}
        E.prove('C24: constructor: exactly the scales named and the default ones', set(got) == set(want) | {tsm(E, n) for n in DEFAULTS})
        for t, c in want.items():
            E.prove('C24: constructor: a named scale has the condition given', got.get(t) is c)
        for n, cls in DEFAULTS.items():
            t = tsm(E, n)
            if t not in want and t in got:
                o = E.norm(got[t])
                E.prove('C24: by default a run ends when all nodes have run and a sequence never ends', isinstance(o, Obj) and o.cls is E.cls('condition.' + cls))
                E.prove('C24: by default a run ends when all nodes have run and a sequence never ends', isinstance(o, Obj) and E.iterate(o.attrs['args']) == [] and o.cls.name == cls)
    E.prove('C24: current and default conditions are separate dictionaries', E.norm(s.attrs['_termination_conds']) is not E.norm(s.attrs['default_termination_conds']))
    md = E.norm(E.global_('scheduler', 'default_termination_conds')) if hasattr(E, 'global_') else None
    if md is not None:
        E.prove('C24: schedulers do not share their conditions', md is not E.norm(s.attrs['_termination_conds']) and md is not E.norm(s.attrs['default_termination_conds']))


TASKS = [('parse', parse), ('combine', combine), ('assign', assign), ('assign twice', lambda E: assign(E, 1)), ('constructor', constructor), ('not a dictionary', not_dict)]
TASKS += [(f'refuse/{k}/{h}', refuse(k, h)) for k in BAD for h in ('given to a run', 'assigned', 'given to the constructor')]
TASKS += runs.tasks('T', 'C24')
