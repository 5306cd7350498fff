"""Call-count, recency and finished conditions against the counts and histories of the evaluated context."""
from .conds import *

LEVEL = 'proof'
LIMIT = 300
NOTE = 'every class, every time scale, symbolic n, any number of dependencies (symbolic sequences, including none), any counts and histories in every context'

REL = dict(Before=lambda x, n: x < n, At=lambda x, n: x == n, After=lambda x, n: x > n, AfterN=lambda x, n: x >= n)


def count(W, scale, d):
    return W.roots['counts_total'].leaves[('v', scale, 'v')](W.eid, d)


def scaled_args(E, args):
    """default scale, or any scale, by position or by name"""
    k = E.choose(6)
    if k == 5:
        return tsm(E, 'ENVIRONMENT_STATE_UPDATE'), args, {}
    ts = E.TSs()[k]
    if args is not None and E.choose(2):
        return ts, args + [ts], {}
    return ts, args, dict(time_scale=ts)


def calls(cls, rel):
    def f(E):
        E.hooks.clear()
        W = World(E)
        d, n = E.fresh(Val, 'dependency'), E.fresh(I, 'n')
        E.assume(W.N(d))
        ts, args, kw = scaled_args(E, [V(d), V(n)])
        c = E.call(E.cls('condition.' + cls), args, kw)
        W.exactly('C12', cls, c, lambda: REL[rel](count(W, ts, d), n))
    return f


def deps(E, W):
    """Any sequence of nodes: (arguments, membership, length, elements)"""
    r = E.new_root(TList(TS(Val), 'tuple'), 'dependencies')
    r.frozen = True
    ln, el = r.leaves[('len',)](), r.leaves[('e',)]
    E.assume(ln >= 0)
    E.assume(forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < ln), W.N(el(i)))))
    return [SymStar(E.view(r))], ln, el


def quant(E, W, ln, el):
    """(all, any) over the dependencies, or over all nodes if there are none"""
    def all_(p):
        return z3.If(ln == 0, forall([Val], lambda x: z3.Implies(W.N(x), p(x))), forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < ln), p(el(i)))))

    def any_(p):
        return z3.If(ln == 0, exists([Val], lambda x: z3.And(W.N(x), p(x))), exists([I], lambda i: z3.And(0 <= i, i < ln, p(el(i)))))
    return all_, any_


def all_have_run(E):
    E.hooks.clear()
    W = World(E)
    args, ln, el = deps(E, W)
    ts, _, kw = scaled_args(E, None)
    c = E.call(E.cls('condition.AllHaveRun'), args, kw)
    all_, any_ = quant(E, W, ln, el)
    W.exactly('C12', 'AllHaveRun', c, lambda: all_(lambda x: count(W, ts, x) >= 1))


def combined(E):
    E.hooks.clear()
    W = World(E)
    args, ln, el = deps(E, W)
    n = E.fresh(I, 'n')
    ts, _, kw = scaled_args(E, None)
    sums = {}

    def ghost():
        """Sum of the counts of the first k dependencies."""
        key = W.eid.get_id()
        if key not in sums:
            S = E.fresh_fn([I], I, 'sum_of_counts')
            f = W.roots['counts_total'].leaves[('v', ts, 'v')]
            e = W.eid
            E.assume(S(z3.IntVal(0)) == 0)
            E.assume(forall([I], lambda k: z3.Implies(z3.And(0 <= k, k < ln), S(k + 1) == S(k) + f(e, el(k)))))
            sums[key] = S
        return sums[key]
    S0 = ghost()
    E.assume(forall([Val], lambda x: W.roots['counts_total'].leaves[('v', ts, 'v')](W.eid, x) >= 0))

    def pool(E, L):
        if L.i is None:
            return []
        return [(f'{v} is the sum so far', t == ghost()(L.i)) for v, t in L.ints()]
    E.inv_pool[:] = [pool]

    def total(E, it, start):
        """sum() over the dependencies"""
        S = ghost()
        i = E.fresh(I, 'i')
        v = E.to_term(it.val(i), I)
        E.prove('C12: AfterNCallsCombined adds the counts of its dependencies', z3.And(E.to_term(it.length, I) == ln, z3.Implies(z3.And(0 <= i, i < ln), v == count(W, ts, el(i)))))
        return V(S(ln) + E.to_term(start, I))
    E.hooks['sum'] = total
    c = E.call(E.cls('condition.AfterNCallsCombined'), args, dict(n=V(n), **kw))
    W.exactly('C12', 'AfterNCallsCombined', c, lambda: ghost()(ln) >= n)


def just_ran(E):
    E.hooks.clear()
    W = World(E)
    d = E.fresh(Val, 'dependency')
    E.assume(W.N(d))
    c = E.call(E.cls('condition.JustRan'), [V(d)], {})

    def want():
        L = W.roots['execution_list'].leaves
        n = L[('v', 'len')](W.eid)
        return z3.And(n > 0, L[('v', 'e', 'mem')](W.eid, n - 1, d))
    W.exactly('C12', 'JustRan', c, want)


def finished(cls):
    def f(E):
        E.hooks.clear()
        W = World(E)
        fin = z3.Function('finished', Val, Val, B)

        def attr(E, v, name):
            if name != 'is_finished':
                raise Unsupported(f'attribute {name} of a node')

            def call(a, k):
                e = k.get('execution_id', a[0] if a else None)
                return V(fin(v.t, E.to_term(e, Val)))
            return Builtin('is_finished', call)
        E.hooks['val_attr'] = attr
        if cls == 'WhenFinished':
            d = E.fresh(Val, 'dependency')
            E.assume(W.N(d))
            c = E.call(E.cls('condition.WhenFinished'), [V(d)], {})
            W.exactly('C12', cls, c, lambda: fin(d, W.eid))
            return
        args, ln, el = deps(E, W)
        c = E.call(E.cls('condition.' + cls), args, {})
        all_, any_ = quant(E, W, ln, el)
        W.exactly('C12', cls, c, lambda: (any_ if cls == 'WhenFinishedAny' else all_)(lambda x: fin(x, W.eid)))
    return f


TASKS = [(c, calls(c, r)) for c, r in [('BeforeNCalls', 'Before'), ('AtNCalls', 'At'), ('AfterCall', 'After'), ('AfterNCalls', 'AfterN')]]
TASKS += [('AfterNCallsCombined', combined), ('AllHaveRun', all_have_run), ('JustRan', just_ran)]
TASKS += [(c, finished(c)) for c in ('WhenFinished', 'WhenFinishedAny', 'WhenFinishedAll')]
