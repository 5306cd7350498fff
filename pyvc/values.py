"""Value domain of pyvc: symbolic scalars, typed symbolic storage, host (concrete-identity) objects."""
import z3
from fractions import Fraction

Val = z3.DeclareSort('Val')     # any hashable Python value used as node / context id / user argument
RefS = z3.DeclareSort('Ref')    # instances of abstract classes (tier 2 objects)
SetR = z3.DeclareSort('SetRef')  # set objects (heap mode)
I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()


class Unsupported(Exception):
    """Construct outside the verified subset."""


class V:
    """Symbolic scalar."""
    __slots__ = ('t', 'cls')

    def __init__(self, t, cls=None):
        self.t = t
        self.cls = cls

    def __repr__(self):
        return f'V({self.t})'

    @property
    def sort(self):
        return self.t.sort()


class Poison:
    def __repr__(self):
        return 'Poison'


POISON = Poison()


class Opaque:
    """A value about which nothing is known and on which nothing may depend (strings built by formatting, ...)."""
    def __init__(self, name='opaque'):
        self.name = name

    def __repr__(self):
        return f'Opaque({self.name})'


class NotImpl:
    def __repr__(self):
        return 'NotImplemented'


NOTIMPL = NotImpl()


# ---------------------------------------------------------------- types of symbolic storage
class T:
    pass


class TS(T):
    """Scalar."""
    def __init__(self, sort, cls=None):
        self.sort, self.cls = sort, cls

    def __repr__(self):
        return f'TS({self.sort})'


class TConst(T):
    """Field with a fixed host value."""
    def __init__(self, v):
        self.v = v


class TPoison(T):
    pass


class TParent(T):
    """Back pointer to the structurally enclosing object, n levels of storage up."""


class TSet(T):
    def __init__(self, sort, ident=False):
        self.sort, self.ident = sort, ident

    def __repr__(self):
        return f'TSet({self.sort})'


class TDict(T):
    def __init__(self, ksort, v, kcls=None):
        self.ksort, self.v, self.kcls = ksort, v, kcls

    def __repr__(self):
        return f'TDict({self.ksort},{self.v})'


class TFix(T):
    """Dict with a fixed set of concrete keys."""
    def __init__(self, items):
        self.items = dict(items)

    def __repr__(self):
        return f'TFix({list(self.items)})'


class TList(T):
    def __init__(self, e, kind='list'):
        self.e, self.kind = e, kind

    def __repr__(self):
        return f'TList({self.e})'


class TBag(T):
    """A list of things nothing depends on: only whether it has any."""
    def __repr__(self):
        return 'TBag'


class TOr(T):
    """A scalar or a container."""
    def __init__(self, one, many):
        self.one, self.many = one, many

    def __repr__(self):
        return f'TOr({self.one},{self.many})'


class TObj(T):
    def __init__(self, cls, fields, complete=False):
        # complete: there are no other attributes
        self.cls, self.fields, self.complete = cls, dict(fields), complete

    def __repr__(self):
        return f'TObj({self.cls})'


def leafspecs(t):
    """[(prefix, index sorts, result sort)]"""
    if isinstance(t, TS):
        return [((), (), t.sort)]
    if isinstance(t, (TConst, TPoison, TParent)):
        return []
    if isinstance(t, TSet):
        r = [(('mem',), (t.sort,), B)]
        if t.ident:
            r.append((('id',), (), I))
        return r
    if isinstance(t, TDict):
        return [(('dom',), (t.ksort,), B)] + [(('v',) + p, (t.ksort,) + i, o) for p, i, o in leafspecs(t.v)]
    if isinstance(t, TFix):
        return [((k,) + p, i, o) for k, s in t.items.items() for p, i, o in leafspecs(s)]
    if isinstance(t, TList):
        return [(('len',), (), I)] + [(('e',) + p, (I,) + i, o) for p, i, o in leafspecs(t.e)]
    if isinstance(t, TObj):
        return [((k,) + p, i, o) for k, s in t.fields.items() for p, i, o in leafspecs(s)]
    if isinstance(t, TBag):
        return [(('some',), (), B)]
    if isinstance(t, TOr):
        return [(('tag',), (), B)] + [(('one',) + p, i, o) for p, i, o in leafspecs(t.one)] + [(('many',) + p, i, o) for p, i, o in leafspecs(t.many)]
    raise Unsupported(f'type {t}')


class Root:
    """Owner of a piece of typed symbolic state. leaves: prefix -> host closure(index terms) -> term."""
    def __init__(self, uid, typ, leaves, name):
        self.uid, self.typ, self.leaves, self.name = uid, typ, leaves, name
        self.frozen = False
        self.holder = None  # container it became the content of
        self.ghost = False
        self.cellf = None   # heap mode: reference of the set at index i is cellf(*cellb, *i)
        self.cellb = ()
        self.celld = 0

    def __repr__(self):
        return f'Root#{self.uid}({self.name})'


class View:
    """A location of non-scalar type inside a Root."""
    __slots__ = ('root', 'typ', 'prefix', 'idx', 'parent')

    def __init__(self, root, typ, prefix=(), idx=(), parent=None):
        self.root, self.typ, self.prefix, self.idx, self.parent = root, typ, prefix, idx, parent

    def __repr__(self):
        return f'View({self.root},{self.prefix},{self.idx})'


class Cont:
    """Host container with concrete identity. kind: list/dict/set. `v` set once its content is symbolic storage."""
    default = None  # of a defaultdict: makes missing values

    def __init__(self, uid, kind, items=None, v=None, cls=None):
        self.uid, self.kind, self.v, self.cls = uid, kind, v, cls
        self.items = items if items is not None else []
        self.owned = False

    def __repr__(self):
        return f'Cont#{self.uid}<{self.kind}>{self.v or self.items}'


class Obj:
    def __init__(self, uid, cls, attrs=None):
        self.uid, self.cls, self.attrs = uid, cls, attrs if attrs is not None else {}
        self.v = None
        self.owned = False

    def __repr__(self):
        return f'<{getattr(self.cls, "name", self.cls)}#{self.uid}>'


class SymIter:
    """Abstract iterable: bound vars xs (sorts), membership, value. ordered: xs=(index,) ascending."""
    def __init__(self, sorts, mem, val, ordered=False, length=None, distinct=True):
        self.sorts, self.mem, self.val, self.ordered, self.length, self.distinct = sorts, mem, val, ordered, length, distinct


# ---------------------------------------------------------------- term helpers
def conj(xs):
    out = []
    for x in xs:
        if x is True or (z3.is_expr(x) and z3.is_true(x)):
            continue
        if x is False or (z3.is_expr(x) and z3.is_false(x)):
            return z3.BoolVal(False)
        out.append(x)
    if not out:
        return z3.BoolVal(True)
    return out[0] if len(out) == 1 else z3.And(out)


def disj(xs):
    out = []
    for x in xs:
        if x is False or (z3.is_expr(x) and z3.is_false(x)):
            continue
        if x is True or (z3.is_expr(x) and z3.is_true(x)):
            return z3.BoolVal(True)
        out.append(x)
    if not out:
        return z3.BoolVal(False)
    return out[0] if len(out) == 1 else z3.Or(out)


def neg(x):
    if z3.is_true(x):
        return z3.BoolVal(False)
    if z3.is_false(x):
        return z3.BoolVal(True)
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def is_const_lit(t):
    return z3.is_int_value(t) or z3.is_rational_value(t) or z3.is_true(t) or z3.is_false(t) or \
        (z3.is_const(t) and t.decl().name().startswith('k:'))


def eqt(a, b):
    """Term equality with cheap syntactic decisions."""
    if a.eq(b):
        return z3.BoolVal(True)
    if is_const_lit(a) and is_const_lit(b):
        return z3.BoolVal(False)
    if z3.is_bool(a):
        if z3.is_true(a):
            return b
        if z3.is_true(b):
            return a
        if z3.is_false(a):
            return neg(b)
        if z3.is_false(b):
            return neg(a)
    if z3.is_int(a) and (z3.is_add(a) or z3.is_add(b)):
        d = z3.simplify(a - b)
        if z3.is_int_value(d):
            return z3.BoolVal(d.as_long() == 0)
    return a == b


def ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


_q = [0]


def qvar(sort):
    _q[0] += 1
    return z3.Const(f'q{_q[0]}', sort)


def reset_q():
    _q[0] = 0


def forall(sorts, fn):
    xs = [qvar(s) for s in sorts]
    body = fn(*xs)
    if z3.is_true(body):
        return body
    if not xs:
        return body
    return z3.ForAll(xs, body)


def exists(sorts, fn):
    xs = [qvar(s) for s in sorts]
    body = fn(*xs)
    if z3.is_false(body) or not xs:
        return body
    return z3.Exists(xs, body)


def mk_int(x):
    return z3.IntVal(x)
