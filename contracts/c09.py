"""C09: clock arithmetic across time scales."""
from .common import *

LEVEL = 'proof'
NOTE = 'All counters, all scales and all intervals: every path of the time classes is proved against its contract with no bound. Assumed: pint quantities of time behave as real numbers (registry precision and floating point are mathematical); Python builtins as modelled by pyvc. Replays of the contract on the real code look for failing inputs (bounded, not counted).'


def increment(E):
    """Time._increment_by_time_scale: +1 on its scale, 0 on finer ones, coarser ones unchanged, absolute time by one interval."""
    pint_model(E)
    t = sym_time(E)
    ts = E.pick(E.TSs())
    pre = dict(t.attrs)
    E.declare_cover('increment returns')
    E.call(E.getattr(t, '_increment_by_time_scale'), [ts])
    E.cover('increment returns')
    for s in E.TSs():
        old, new = pre[attr_of(E, s)].t, t.attrs[attr_of(E, s)]
        want = old + 1 if s is ts else (z3.IntVal(0) if s.value < ts.value else old)
        E.prove(f'increment {"adds one" if s is ts else "resets finer scales" if s.value < ts.value else "keeps coarser scales"}', E.to_term(new, I) == want)
    E.prove('absolute time advances by one interval exactly when enabled and in its scale',
            E.to_term(t.attrs['absolute'], R) == pre['absolute'].t + z3.If(z3.And(pre['absolute_enabled'].t, z3.BoolVal(ts is pre['absolute_time_unit_scale'])), pre['absolute_interval'].t, z3.RealVal(0)))
    for a in ('absolute_interval', 'absolute_enabled', 'absolute_time_unit_scale'):
        E.prove('frame: other attributes unchanged', E.to_term(E.eq(t.attrs[a], pre[a])) if not isinstance(pre[a], EnumMember) else t.attrs[a] is pre[a])


def access(E):
    """Indexing by scale, by scale value and by attribute agree; setting touches one counter only."""
    pint_model(E)
    t = sym_time(E)
    ts = E.pick(E.TSs())
    key = E.pick([ts, ts.value])
    pre = dict(t.attrs)
    E.prove('Time[scale] is the counter of the scale', E.eq(E.call(E.getattr(t, '__getitem__'), [key]), pre[attr_of(E, ts)]))
    E.prove('Time._get_by_time_scale is the counter of the scale', E.eq(E.call(E.getattr(t, '_get_by_time_scale'), [ts]), pre[attr_of(E, ts)]))
    n = V(E.fresh(I, 'n'))
    how = E.choose(2)
    if how == 0:
        E.call(E.getattr(t, '__setitem__'), [key, n])
    else:
        E.call(E.getattr(t, '_set_by_time_scale'), [ts, n])
    for a in pre:
        if a == attr_of(E, ts):
            E.prove('setting a scale sets its counter', E.eq(t.attrs[a], n))
        else:
            E.prove('setting a scale changes nothing else', t.attrs[a] is pre[a])
    # SimpleTime is a view of the same counters
    st = E.call(E.cls('time.SimpleTime'), [t])
    E.prove('SimpleTime reads through', E.eq(E.call(E.getattr(st, '__getitem__'), [ts]), n))
    if ts.name in ('CONSIDERATION_SET_EXECUTION', 'ENVIRONMENT_STATE_UPDATE', 'ENVIRONMENT_SEQUENCE'):
        E.prove('SimpleTime attributes read through', E.eq(E.getattr(st, ts.name.lower()), n))
    m = V(E.fresh(I, 'm'))
    E.call(E.getattr(st, '__setitem__'), [ts, m])
    E.prove('SimpleTime writes through', E.eq(t.attrs[attr_of(E, ts)], m))


def init(E):
    """A new Time holds the given counters, zero by default; absolute time is off by default."""
    pint_model(E)
    vals = {attr_of(E, ts): V(E.fresh(I, ts.name)) for ts in E.TSs()}
    given = {a: v for a, v in vals.items() if E.choose(2)}
    t = E.call(E.cls('time.Time'), [], dict(given))
    for a in vals:
        E.prove('Time(): counters are as given, else zero', E.eq(t.attrs[a], given.get(a, 0)))
    E.prove('Time(): absolute time is off unless given', t.attrs['absolute_enabled'] is False)
    E.prove('Time(): absolute time counts consideration set executions by default', t.attrs['absolute_time_unit_scale'] is tsm(E, 'CONSIDERATION_SET_EXECUTION'))
    E.prove('Time(): absolute starts at 0 ms with interval 1 ms', z3.And(E.to_term(t.attrs['absolute'], R) == 0, E.to_term(t.attrs['absolute_interval'], R) == 1))


def order(E):
    """TimeScale: total order from CONSIDERATION_SET_EXECUTION to LIFE; parent/child."""
    tss = E.TSs()
    E.prove('exactly the five documented scales', [t.name for t in sorted(tss, key=lambda t: t.value)] == TSN)
    a, b = E.pick(tss), E.pick(tss)
    ia, ib = TSN.index(a.name), TSN.index(b.name)
    for op, w in (('<', ia < ib), ('<=', ia <= ib), ('>', ia > ib), ('>=', ia >= ib), ('==', ia == ib)):
        E.prove(f'order: {op}', E.to_term(E.compare(op, a, b), B) == z3.BoolVal(w))
    if b is tss[0]:
        TSc = E.cls('time.TimeScale')
        for f, d in (('get_parent', 1), ('get_child', -1)):
            if 0 <= ia + d < 5:
                E.prove(f'{f} is the next {"coarser" if d > 0 else "finer"} scale', E.call(E.getattr(TSc, f), [a]).name == TSN[ia + d])
            else:
                try:
                    E.call(E.getattr(TSc, f), [a])
                    E.prove(f'{f} of the outermost scale is an error', False)
                except PyRaise as e:
                    E.prove(f'{f} of the outermost scale is an error', e.cname == 'ValueError')


TASKS = [('increment', increment), ('access', access), ('init', init), ('order', order)]
