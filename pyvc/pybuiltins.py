"""Models of the Python builtins and container methods used by the code under contract (trusted)."""
import builtins as pyb
import types as pytypes
import z3
from fractions import Fraction
from .values import *
from . import values as VAL


def make(E):
    return Builtins(E)


class Builtins:
    def __init__(self, E):
        from . import core
        self.core = core
        self.E = E
        self.names = {}
        self.ext = {}
        self.setup()

    # ------------------------------------------------------------ registration
    def setup(self):
        C = self.core
        N = self.names
        for n in dir(pyb):
            o = getattr(pyb, n)
            if isinstance(o, type) and issubclass(o, BaseException):
                N[n] = C.BuiltinClass(o, n)
        self.cls = {}
        for t in (object, dict, list, set, tuple, frozenset, str, int, float, bool, property):
            self.cls[t] = N[t.__name__] = C.BuiltinClass(t)
        self.ext['object'] = self.cls[object]
        N['type'] = C.BuiltinClass(type)
        self.ext['enum.Enum'] = C.BuiltinClass(pytypes.SimpleNamespace, 'Enum')
        self.ext['types.SimpleNamespace'] = C.BuiltinClass(pytypes.SimpleNamespace, 'SimpleNamespace')
        self.ext['collections.abc.Iterable'] = C.BuiltinClass(pytypes.SimpleNamespace, 'Iterable')
        self.ext['typing.Iterable'] = self.ext['collections.abc.Iterable']
        self.ext['types.ModuleType'] = C.BuiltinClass(pytypes.ModuleType, 'ModuleType')
        N['NotImplemented'] = NOTIMPL
        N['__name__'] = 'module'
        N['__package__'] = 'graph_scheduler'
        b = lambda name: (lambda f: N.__setitem__(name, C.Builtin(name, f)))
        for m in [x for x in dir(self) if x.startswith('f_')]:
            N[m[2:]] = C.Builtin(m[2:], getattr(self, m))
        X = self.ext
        B = lambda n, f: X.__setitem__(n, C.Builtin(n, f))
        B('copy.copy', self.copy_copy)
        B('copy.deepcopy', self.copy_deepcopy)
        B('functools.partial', lambda a, k: C.Partial(a[0], a[1:], k))
        B('functools.lru_cache', lambda a, k: C.Builtin('deco', lambda a2, k2: a2[0]))
        B('functools.wraps', lambda a, k: C.Builtin('deco', lambda a2, k2: a2[0]))
        B('functools.reduce', self.reduce)
        def chain(a, k):
            # concrete parts only, or one symbolic among empty ones
            its = [self.E.iterate(x) for x in a]
            if all(isinstance(i, list) for i in its):
                return tuple(x for i in its for x in i)
            rest = [i for i in its if not isinstance(i, list) or i]
            if len(rest) == 1:
                return rest[0]
            raise Unsupported('chain of symbolic iterables')

        def defaultdict(a, k):
            c = self.construct(self.cls[dict], list(a[1:]), k)
            if a and a[0] is not None:
                c.default = a[0]
            return c
        B('collections.defaultdict', defaultdict)

        def islice(a, k):
            it = self.E.iterate(a[0])
            lo, hi, st = (0, a[1], 1) if len(a) == 2 else (a[1] or 0, a[2], a[3] if len(a) > 3 else 1)
            if isinstance(it, list) and all(isinstance(x, int) or x is None for x in (lo, hi, st)):
                return tuple(it[lo:hi:st])
            raise Unsupported('islice of a symbolic iterable')

        def takewhile(a, k):
            it, out = self.E.iterate(a[1]), []
            if not isinstance(it, list):
                raise Unsupported('takewhile of a symbolic iterable')
            for x in it:
                if not self.E.truth(self.E.call(a[0], [x], {})):
                    break
                out.append(x)
            return tuple(out)

        def product(a, k):
            its = [self.E.iterate(x) for x in a]
            if k or not all(isinstance(i, list) for i in its):
                raise Unsupported('product of symbolic iterables')
            import itertools
            return tuple(itertools.product(*its))
        X['itertools.chain'] = C.Builtin('itertools.chain', chain)
        B('itertools.islice', islice)
        B('itertools.takewhile', takewhile)
        B('itertools.product', product)
        for op, s in dict(or_='BitOr', and_='BitAnd', sub='Sub', add='Add', mul='Mult', truediv='Div', floordiv='FloorDiv', mod='Mod', xor='BitXor', pow='Pow').items():
            B('operator.' + op, lambda a, k, s=s: self.binop(s, a[0], a[1]))
        B('operator.not_', lambda a, k: not self.E.truth(a[0]))
        B('operator.truth', lambda a, k: self.E.truth(a[0]))
        B('operator.contains', lambda a, k: self.E.contains(a[0], a[1]))
        B('operator.is_', lambda a, k: self.E.is_(a[0], a[1]))
        B('operator.is_not', lambda a, k: self.E.not_(self.E.is_(a[0], a[1])))
        B('operator.getitem', lambda a, k: self.getitem(a[0], a[1]))
        B('operator.itemgetter', lambda a, k: C.Builtin('itemgetter', lambda b, k2: self.getitem(b[0], a[0]) if len(a) == 1 else tuple(self.getitem(b[0], i) for i in a)))

        def attrgetter(a, k):
            if len(a) != 1 or '.' in a[0]:
                raise Unsupported('attrgetter')
            return C.Builtin('attrgetter', lambda b, k2: self.E.getattr(b[0], a[0]))
        B('operator.attrgetter', attrgetter)
        B('itertools.chain.from_iterable', lambda a, k: self.flatten(a[0]))
        B('weakref.WeakKeyDictionary', lambda a, k: self.E.new_cont('dict', []))
        B('datetime.datetime.now', lambda a, k: Opaque('now'))
        X['datetime.datetime'] = C.ModVal('datetime.datetime')
        for op, s in dict(lt='<', le='<=', gt='>', ge='>=', eq='==', ne='!=').items():
            B('operator.' + op, lambda a, k, s=s: self.E.compare(s, a[0], a[1]))
        B('logging.getLogger', lambda a, k: C.ModVal('logger'))
        X['inspect.Parameter'] = C.ModVal('inspect.Parameter')
        for kname in ('POSITIONAL_ONLY', 'POSITIONAL_OR_KEYWORD', 'VAR_POSITIONAL', 'KEYWORD_ONLY', 'VAR_KEYWORD', 'empty'):
            X['inspect.Parameter.' + kname] = C.EnumMember(C.BuiltinClass(type('PK', (), {}), 'ParameterKind'), kname, kname)
        B('inspect.signature', self.signature)
        import keyword as _kw
        def iskw(a, k):
            if isinstance(a[0], str):
                return _kw.iskeyword(a[0])
            raise Unsupported('iskeyword')
        B('keyword.iskeyword', iskw)

    # ------------------------------------------------------------ inspect
    def signature(self, a, k):
        E, C = self.E, self.core
        f = a[0]
        skip = 0
        while isinstance(f, C.Bound):
            skip += 1
            f = f.func
        P = lambda n: self.ext['inspect.Parameter.' + n]
        out = []
        if isinstance(f, C.FuncVal):
            ar = f.node.args
            pos = ar.posonlyargs + ar.args
            nd = len(f.defaults)
            for i, x in enumerate(pos):
                kind = 'POSITIONAL_ONLY' if i < len(ar.posonlyargs) else 'POSITIONAL_OR_KEYWORD'
                out.append((x.arg, kind, f.defaults[i - (len(pos) - nd)] if i >= len(pos) - nd else P('empty')))
            if skip:
                if out:
                    out = out[skip:]
            if ar.vararg:
                out.append((ar.vararg.arg, 'VAR_POSITIONAL', P('empty')))
            for x in ar.kwonlyargs:
                out.append((x.arg, 'KEYWORD_ONLY', f.kwdefaults.get(x.arg, P('empty'))))
            if ar.kwarg:
                out.append((ar.kwarg.arg, 'VAR_KEYWORD', P('empty')))
        elif isinstance(f, C.AbstractFunc) and callable(f.sig):
            return f.sig(E)
        elif isinstance(f, C.AbstractFunc):
            for n, kind, has in f.sig:
                out.append((n, kind, None if has else P('empty')))
        else:
            raise Unsupported(f'signature of {f}')
        items = []
        for n, kind, d in out:
            p = E.new_obj(C.BuiltinClass(type('Parameter', (), {}), 'Parameter'), {'name': n, 'kind': P(kind), 'default': d})
            items.append([n, p])
        return E.new_obj(C.BuiltinClass(type('Signature', (), {}), 'Signature'), {'parameters': E.new_cont('dict', items)})

    # ------------------------------------------------------------ builtin functions
    def f_len(self, a, k):
        return self.E.length(a[0])

    def f_isinstance(self, a, k):
        return self.isinstance(a[0], a[1])

    def isinstance(self, v, c):
        E, C = self.E, self.core
        if isinstance(c, tuple):
            acc = []
            for x in c:
                r = self.isinstance(v, x)
                if r is True:
                    return True
                if r is not False:
                    acc.append(r.t)
            return E.mkbool(disj(acc))
        v = E.norm(v)
        if isinstance(v, V) and v.t.sort() in (RefS, Val):
            h = E.hooks.get('isinstance')
            if h:
                r = h(E, v, c)
                if r is not None:
                    return r
            raise Unsupported(f'isinstance of symbolic value against {c}')
        cls = E.class_of(v)
        if isinstance(cls, C.ClassVal):
            if c in cls.mro or any(isinstance(m, C.BuiltinClass) and isinstance(c, C.BuiltinClass) and m.name == c.name for m in cls.mro):
                return True
            if isinstance(c, C.BuiltinClass) and c.name == 'Iterable':
                return E.class_lookup(cls, '__iter__') is not None
            return False
        if not isinstance(c, C.BuiltinClass):
            return False
        n = c.name
        kind = E.ckind(v)
        if n == 'object':
            return True
        if n == 'Iterable':
            return kind in ('set', 'dict', 'list', 'tuple') or isinstance(v, (str, SymIter, C.GenVal)) or (isinstance(v, C.ClassVal) and v.members is not None)
        if n == 'type':
            return isinstance(v, (C.ClassVal, C.BuiltinClass))
        if kind:
            return n == kind
        py = {'str': str, 'int': int, 'bool': bool, 'float': (float, Fraction)}.get(n)
        if py:
            if isinstance(v, V):
                s = v.t.sort()
                return {'int': s in (I, B), 'bool': s == B, 'str': False, 'float': False}[n]
            if isinstance(v, Opaque) and n == 'str':
                return v.name == 'fstring'
            return isinstance(v, py)
        if isinstance(v, C.Obj):
            return E.is_subclass(v.cls, c)
        h = E.hooks.get('isinstance')
        if h:
            r = h(E, v, c)
            if r is not None:
                return r
        return False

    def f_issubclass(self, a, k):
        return self.E.is_subclass(a[0], a[1])

    def f_hasattr(self, a, k):
        try:
            self.f_getattr(a[:2], k)
            return True
        except self.core.PyRaise as e:
            if e.cname == 'AttributeError':
                return False
            raise

    def f_getattr(self, a, k):
        if not isinstance(a[1], str):
            h = self.E.hooks.get('getattr_dyn')
            if h:
                return h(self.E, a)
            if isinstance(a[1], (self.core.EnumMember, int)) or a[1] is None or (isinstance(a[1], V) and a[1].t.sort() != Val):
                self.E.raise_('TypeError', 'attribute name must be string')
            raise Unsupported(f'getattr with dynamic name {a[1]}')
        if len(a) == 3:
            try:
                return self.E.getattr(a[0], a[1])
            except self.core.PyRaise as e:
                if e.cname == 'AttributeError':
                    return a[2]
                raise
        return self.E.getattr(a[0], a[1])

    def f_setattr(self, a, k):
        if not isinstance(a[1], str):
            raise Unsupported('setattr with dynamic name')
        return self.E.setattr(*a)

    def f_callable(self, a, k):
        return isinstance(a[0], (self.core.FuncVal, self.core.Builtin, self.core.Bound, self.core.ClassVal, self.core.Partial, self.core.AbstractFunc))

    def f_repr(self, a, k):
        return Opaque('fstring')

    def f_hash(self, a, k):
        h = self.E.hooks.get('hash')
        if h:
            return h(self.E, a[0])
        v = self.E.norm(a[0])
        if self.E.ckind(v) in ('list', 'set', 'dict'):
            self.E.raise_('TypeError', 'unhashable')
        return V(self.E.fresh(I, 'hash'))

    def f_id(self, a, k):
        return V(self.E.fresh(I, 'id'))

    def f_print(self, a, k):
        return None

    def f_iter(self, a, k):
        it = self.E.iterate(a[0])
        # the position of an iterator is not modelled: it may be advanced where it is made only
        return self.core.IterVal(it, (self.E.cur_line, self.E.frames[-1].uid if self.E.frames else 0))

    def f_divmod(self, a, k):
        return (self.binop('FloorDiv', *a), self.binop('Mod', *a))

    def f_next(self, a, k):
        if isinstance(a[0], self.core.IterVal) and a[0].where != (self.E.cur_line, self.E.frames[-1].uid if self.E.frames else 0):
            raise Unsupported('next of a stored iterator')
        v = self.E.iterate(a[0])
        if isinstance(v, list):
            if v:
                return v[0]
            if len(a) > 1:
                return a[1]
            self.E.raise_('StopIteration')
        # first element of a symbolic iterable
        ne = exists(v.sorts, lambda *x: v.mem(*x))
        if self.E.branch(ne):
            xs = [self.E.fresh(s, 'nx') for s in v.sorts]
            self.E.assume(v.mem(*xs))
            if v.ordered:
                self.E.assume(forall(v.sorts, lambda q: z3.Implies(v.mem(q), q >= xs[0])))
            return v.val(*xs)
        if len(a) > 1:
            return a[1]
        self.E.raise_('StopIteration')

    def f_enumerate(self, a, k):
        E = self.E
        st = a[1] if len(a) > 1 else k.get('start', 0)
        it = E.iterate(a[0])
        if isinstance(it, list):
            return tuple((self.binop('Add', i, st), x) for i, x in enumerate(it))
        if not it.ordered:
            raise Unsupported('enumerate of unordered symbolic iterable')
        return SymIter(it.sorts, it.mem, lambda i: (V(i + E.to_term(st, I)), it.val(i)), ordered=True, length=it.length, distinct=True)

    def f_range(self, a, k):
        E = self.E
        if all(isinstance(x, int) for x in a):
            return tuple(range(*a))
        if len(a) == 3:
            raise Unsupported('range with step')
        lo, hi = (0, a[0]) if len(a) == 1 else a
        lo, hi = E.to_term(lo, I), E.to_term(hi, I)
        n = z3.If(hi - lo > 0, hi - lo, z3.IntVal(0)) if not (z3.is_int_value(lo) and lo.as_long() == 0) else z3.If(hi > 0, hi, z3.IntVal(0))
        return SymIter([I], lambda i: z3.And(0 <= i, i < n), lambda i: V(lo + i) if not (z3.is_int_value(lo) and lo.as_long() == 0) else V(i), ordered=True, length=n)

    def f_zip(self, a, k):
        its = [self.E.iterate(x) for x in a]
        if all(isinstance(i, list) for i in its):
            return tuple(zip(*its))
        if any(not isinstance(i, list) and not i.ordered for i in its):
            raise Unsupported('zip of unordered symbolic iterables')
        ks = [len(i) for i in its if isinstance(i, list)]
        if ks:
            # the shortest decides: one path per possible length
            k, out = min(ks), []
            for j in range(k):
                if any(not isinstance(i, list) and not self.E.branch(j < i.length) for i in its):
                    break
                out.append(tuple(i[j] if isinstance(i, list) else i.val(z3.IntVal(j)) for i in its))
            return tuple(out)
        n = its[0].length
        for i in its[1:]:
            n = z3.If(i.length < n, i.length, n)
        return SymIter([I], lambda i: z3.And(0 <= i, i < n), lambda i: tuple(t.val(i) for t in its), ordered=True, length=n)

    def f_reversed(self, a, k):
        it = self.E.iterate(a[0])
        if isinstance(it, list):
            return tuple(reversed(it))
        if it.ordered:
            n = it.length
            return SymIter([I], it.mem, lambda i: it.val(n - 1 - i), ordered=True, length=n, distinct=it.distinct)
        return it

    def lt_key(self, x, y):
        return self.E.truth(self.E.compare('<', x, y))

    def f_sorted(self, a, k):
        E = self.E
        it = E.iterate(a[0])
        rev = k.get('reverse', False)
        key = k.get('key')
        if isinstance(it, list):
            if len(it) <= 1:
                return E.new_cont('list', list(it))
            try:
                ks = [E.call(key, [x], {}) if key is not None else x for x in it]
                out = []
                for x, kx in zip(it, ks):
                    j = len(out)
                    while j > 0 and (self.lt_key(kx, out[j - 1][1]) if not rev else self.lt_key(out[j - 1][1], kx)):
                        j -= 1
                    out.insert(j, (x, kx))
                return E.new_cont('list', [x for x, _ in out])
            except Unsupported:
                h = E.hooks.get('sorted')
                if h:
                    return h(E, it)
                raise
        h = E.hooks.get('sorted')
        if h:
            return h(E, it)
        # an unknown permutation: only membership is known
        return SymIter(it.sorts, it.mem, it.val, ordered=False, length=None, distinct=it.distinct)

    def f_filter(self, a, k):
        E = self.E
        it = E.iterate(a[1])
        f = a[0]
        if isinstance(it, list):
            return tuple(x for x in it if E.truth(E.call(f, [x], {}) if f is not None else x))
        xs = [E.fresh_bound(s) for s in it.sorts]
        paths = E.explore(lambda: ('elt', it.val(*xs)) if E.truth(E.call(f, [it.val(*xs)], {})) else ('skip', None), xs, [it.mem(*xs)])
        return E.comp_merge(paths, xs, it, True, False)

    def f_map(self, a, k):
        E = self.E
        it = E.iterate(a[1])
        if isinstance(it, list):
            return tuple(E.call(a[0], [x], {}) for x in it)
        xs = [E.fresh_bound(s) for s in it.sorts]
        paths = E.explore(lambda: ('elt', E.call(a[0], [it.val(*xs)], {})), xs, [it.mem(*xs)])
        return E.comp_merge(paths, xs, it, False, False)

    def truth_iter(self, v):
        """list of truth terms, or (SymIter, truth closure)"""
        E = self.E
        if isinstance(v, self.core.GenVal):
            g = v
            it = E.comp(g.node, g.frame, lambda fr: self.truth_val(E.eval(g.node.elt, fr)))
        else:
            it0 = E.iterate(v)
            if isinstance(it0, list):
                return it0
            it = it0
        return it

    def truth_val(self, v):
        E = self.E
        v = E.norm(v)
        if isinstance(v, V) and z3.is_bool(v.t):
            return v
        if isinstance(v, V) and v.t.sort() == Val and E.hooks.get('truth_term'):
            return V(E.hooks['truth_term'](v.t))
        return E.truth(v)

    def f_sum(self, a, k):
        E = self.E
        start = a[1] if len(a) > 1 else k.get('start', 0)
        it = E.iterate(a[0])
        if isinstance(it, list):
            for x in it:
                start = E.binop('Add', start, x)
            return start
        h = E.hooks.get('sum')
        if h is None or not it.ordered:
            raise Unsupported('sum of a symbolic sequence')
        return h(E, it, start)

    def f_any(self, a, k):
        return self.anyall(a[0], True)

    def f_all(self, a, k):
        return self.anyall(a[0], False)

    def anyall(self, v, is_any):
        E = self.E
        C = self.core
        if isinstance(v, C.GenVal) and len(v.node.generators) == 1:
            g = v.node.generators[0]
            fr = C.Frame(E.uid(), v.frame.func, v.frame.mod, v.frame, 'comp')
            it = E.iterate(E.eval(g.iter, v.frame))
            if isinstance(it, list):
                for x in it:
                    E.assign(g.target, x, fr)
                    if not all(E.truth(E.eval(c, fr)) for c in g.ifs):
                        continue
                    if E.truth(E.eval(v.node.elt, fr)) == is_any:
                        return is_any
                return not is_any
            res = [None]

            def body(val):
                E.assign(g.target, val, fr)
                for c in g.ifs:
                    if not E.truth(E.eval(c, fr)):
                        return
                if E.truth(E.eval(v.node.elt, fr)) == is_any:
                    raise C.BreakEx()
            r = E.loop_for(v.node, fr, it, body, {n.id for n in __import__('ast').walk(g.target) if isinstance(n, __import__('ast').Name)})
            return is_any if r == 'break' else (not is_any)
        it = E.iterate(v)
        if isinstance(it, list):
            for x in it:
                if E.truth(x) == is_any:
                    return is_any
            return not is_any

        def t(x):
            x = E.norm(x)
            if isinstance(x, bool):
                return z3.BoolVal(x)
            if isinstance(x, V) and z3.is_bool(x.t):
                return x.t
            if isinstance(x, V) and x.t.sort() in (I, R):
                return x.t != 0
            raise Unsupported('truth of element')
        if is_any:
            return E.mkbool(exists(it.sorts, lambda *q: conj([it.mem(*q), t(it.val(*q))])))
        return E.mkbool(forall(it.sorts, lambda *q: z3.Implies(it.mem(*q), t(it.val(*q)))))

    def f_sum(self, a, k):
        E = self.E
        C = self.core
        start = a[1] if len(a) > 1 else k.get('start', 0)
        it = E.iterate(a[0])
        if isinstance(it, list):
            for x in it:
                start = self.binop('Add', start, x)
            return start
        import ast
        fr = C.Frame(E.uid(), E.frames[-1].func if E.frames else None, E.frames[-1].mod if E.frames else None, E.frames[-1] if E.frames else None, 'comp')
        fr.vars['_sum'] = start
        E.frames.append(fr)
        node = a[0].node if isinstance(a[0], C.GenVal) else ast.parse('sum(x)', mode='eval').body

        def body(val):
            E.set_local(fr, '_sum', self.binop('Add', E.lookup(fr, '_sum'), val))
        try:
            E.frames[-1].func = E.frames[-2].func if len(E.frames) > 1 else None
            E.loop_inv_for(node, fr, it, body, set())
            return fr.vars['_sum']
        finally:
            E.frames.pop()

    def f_min(self, a, k):
        return self.minmax(a, k, '<')

    def f_max(self, a, k):
        return self.minmax(a, k, '>')

    def minmax(self, a, k, op):
        E = self.E
        key = k.get('key')
        if len(a) > 1:
            it = list(a)
        else:
            it = E.iterate(a[0])
        if isinstance(it, list):
            if not it:
                if 'default' in k:
                    return k['default']
                E.raise_('ValueError', 'empty')
            if key is None and all(E.isnum(x) for x in it) and any(isinstance(x, V) for x in it):
                s = R if any(E.sort_of(x) == R for x in it) else I
                r = E.to_term(it[0], s)
                for x in it[1:]:
                    y = E.to_term(x, s)
                    r = z3.If(y < r if op == '<' else y > r, y, r)
                return V(r)
            best = it[0]
            bk = E.call(key, [best], {}) if key else best
            for x in it[1:]:
                kx = E.call(key, [x], {}) if key else x
                if E.truth(E.compare(op, kx, bk)):
                    best, bk = x, kx
            return best
        ne = exists(it.sorts, lambda *q: it.mem(*q))
        if not E.branch(ne):
            if 'default' in k:
                return k['default']
            E.raise_('ValueError', 'empty')
        xs = [E.fresh(s, 'mn') for s in it.sorts]
        E.assume(it.mem(*xs))
        best = it.val(*xs)
        kf = (lambda v: E.call(key, [v], {})) if key is not None else (lambda v: v)
        bt = E.to_term(kf(best))
        E.assume(forall(it.sorts, lambda *q: z3.Implies(it.mem(*q), (bt <= E.to_term(kf(it.val(*q)))) if op == '<' else (bt >= E.to_term(kf(it.val(*q)))))))
        return best

    def f_abs(self, a, k):
        x = a[0]
        if isinstance(x, V):
            return V(z3.If(x.t >= 0, x.t, -x.t))
        return abs(x)

    def f_round(self, a, k):
        h = self.E.hooks.get('round')
        if h:
            return h(self.E, a)
        if isinstance(a[0], V) and a[0].t.sort() == I:
            return a[0]
        raise Unsupported('round')

    def f_vars(self, a, k):
        return self.E.getattr(a[0], '__dict__')

    def f_slice(self, a, k):
        a = list(a)
        if len(a) == 1:
            return self.core.Slice(None, a[0], None)
        return self.core.Slice(*(a + [None] * (3 - len(a))))

    def flatten(self, v):
        E = self.E
        it = E.iterate(v)
        if isinstance(it, list):
            out = []
            for x in it:
                y = E.iterate(x)
                if not isinstance(y, list):
                    raise Unsupported('chain of symbolic')
                out.extend(y)
            return tuple(out)
        xs = [E.fresh_bound(s) for s in it.sorts]
        inner = E.iterate(it.val(*xs))
        if isinstance(inner, list):
            raise Unsupported('flatten')
        n = len(xs)
        return SymIter(list(it.sorts) + list(inner.sorts),
                       lambda *q: conj([it.mem(*q[:n]), z3.substitute(inner.mem(*q[n:]), *zip(xs, q[:n]))]),
                       lambda *q: E.subst_val(inner.val(*q[n:]), xs, q[:n]), distinct=False)

    def reduce(self, a, k):
        E = self.E
        it = E.iterate(a[1])
        if not isinstance(it, list):
            raise Unsupported('reduce')
        acc = list(it)
        if len(a) > 2:
            r = a[2]
        else:
            r = acc.pop(0)
        for x in acc:
            r = E.call(a[0], [r, x], {})
        return r

    # ------------------------------------------------------------ construction
    def construct(self, c, args, kwargs):
        E, C = self.E, self.core
        py = c.py
        if isinstance(py, type) and issubclass(py, BaseException):
            return E.new_obj(c, {'args': tuple(args)})
        if py is dict:
            if args:
                v = E.norm(args[0])
                if E.ckind(v) == 'dict':
                    r = self.dict_copy(v)
                else:
                    it = E.iterate(v)
                    r = self.dict_from_iter(it)
            else:
                r = E.new_cont('dict', [])
            for k, x in kwargs.items():
                self.setitem(r, k, x)
            return r
        if py in (set, frozenset):
            if not args:
                return E.new_cont('set', [])
            return self.set_from_any(args[0])
        if py in (list, tuple):
            kind = py.__name__
            if not args:
                return E.new_cont('list', []) if py is list else ()
            v = E.norm(args[0])
            if isinstance(v, View) and isinstance(v.typ, TList):
                if py is tuple and v.typ.kind == 'tuple':
                    return v
                lv = E.leaves_of(v, v.typ)
                if not isinstance(v.typ.e, TS) and E.hooks.get('shallow_seq'):
                    E.hooks['shallow_seq'](E, v)
                return E.new_sym('list' if py is list else 'tuple', TList(v.typ.e, kind), lv)
            it = E.iterate(v)
            return self.seq_from_iter(it, kind)
        if py is str:
            if args and isinstance(args[0], str):
                return args[0]
            return Opaque('fstring')
        if py is int:
            v = args[0] if args else 0
            if isinstance(v, V):
                if v.t.sort() == R:
                    fl = E.hooks.get('floor', z3.ToInt)
                    return V(z3.If(v.t >= 0, fl(v.t), -fl(-v.t)))
                return V(E.to_term(v, I)) if v.t.sort() != Val or 'int' not in E.hooks else E.hooks['int'](E, v)
            if isinstance(v, (int, Fraction)):
                return int(v)
            raise Unsupported('int()')
        if py is float:
            v = args[0]
            if isinstance(v, V):
                return V(E.to_term(v, R)) if v.t.sort() != Val else E.hooks['float'](E, v)
            if isinstance(v, (int, Fraction)):
                return Fraction(v)
            raise Unsupported('float()')
        if py is bool:
            v = E.norm(args[0])
            if isinstance(v, V) and z3.is_bool(v.t):
                return v
            return E.truth(v)
        if c.name == 'type':
            v = E.norm(args[0])
            cl = E.class_of(v)
            if cl is not None:
                return cl
            for t in (bool, int, str, tuple):
                if type(v) is t:
                    return self.cls[t]
            kind = E.ckind(v)
            if kind in ('set', 'dict', 'list', 'tuple'):
                return self.cls[dict(set=set, dict=dict, list=list, tuple=tuple)[kind]]
            if isinstance(v, V) and v.t.sort() in (I, B):
                return self.cls[int if v.t.sort() == I else bool]
            return C.BuiltinClass(type('unknown', (), {}), 'unknown')
        if py is object:
            return E.new_obj(c)
        if c.name == 'SimpleNamespace':
            return E.new_obj(c, dict(kwargs))
        h = E.contracts.get(c.name)
        if h:
            return h(E, args, kwargs)
        raise Unsupported(f'construct {c.name}')

    def class_attr(self, c, name):
        """Attribute of a builtin class looked up through the MRO of a project class."""
        E, C = self.E, self.core
        if c.name == 'SimpleNamespace' and name == '__init__':
            def init(a, k):
                for kk, v in k.items():
                    E.setattr(a[0], kk, v)
            return C.Builtin('SimpleNamespace.__init__', init)
        if c.name == 'object' and name == '__init__':
            return C.Builtin('object.__init__', lambda a, k: None)
        if isinstance(c.py, type) and issubclass(c.py, BaseException) and name == '__init__':
            return C.Builtin('exc.__init__', lambda a, k: E.setattr(a[0], 'args', tuple(a[1:])))
        if c.py in (set, dict, list, frozenset) and not name.startswith('__'):
            return C.Builtin(f'{c.name}.{name}', lambda a, k: self.call_method(a[0], name, list(a[1:]), k))
        return None

    # ------------------------------------------------------------ builders
    def seq_from_iter(self, it, kind):
        E = self.E
        if isinstance(it, list):
            return tuple(it) if kind == 'tuple' else E.new_cont('list', list(it))
        if it.ordered and it.length is not None:
            q = E.fresh_bound(I)
            v = it.val(q)
            v = v if isinstance(v, V) else E.norm(v)
            try:
                t = E.type_of(v)
                lv = E.leaves_of(v, t)
            except Unsupported:
                t = None
            if t is not None and not isinstance(t, TConst):
                n = it.length
                if not isinstance(t, TS) and isinstance(v, View) and (v.prefix or v.idx) and E.hooks.get('shallow_seq'):
                    E.hooks['shallow_seq'](E, v)
                leaves = {('len',): lambda: n}
                for p, i, o in leafspecs(t):
                    leaves[('e',) + p] = lambda k, *r, f=lv[p]: z3.substitute(f(*r), (q, k))
                return E.new_sym(kind, TList(t, kind), leaves)
        return it

    def concat_seq(self, a, b):
        """a + b as an ordered symbolic sequence."""
        E = self.E
        a, b = E.norm(a), E.norm(b)
        la, lb = E.to_term(E.length(a), I), E.to_term(E.length(b), I)

        def typ(x):
            x = E.norm(x) if not isinstance(x, tuple) else x
            if isinstance(x, View):
                return x.typ
            t = None
            for y in (x if isinstance(x, tuple) else x.items):
                t = E.type_of(y)
            return TList(t, 'tuple') if t is not None else None
        ta, tb = typ(a), typ(b)
        t = ta or tb
        if t is None or not isinstance(t, TList) or not isinstance(t.e, TS):
            raise Unsupported('concatenation of symbolic sequences')
        fa, fb = E.leaves_of(a, TList(t.e, 'tuple')), E.leaves_of(b, TList(t.e, 'tuple'))
        leaves = {('len',): lambda: la + lb, ('e',): lambda i: ite(i < la, fa[('e',)](i), fb[('e',)](i - la))}
        return E.new_sym('tuple', TList(t.e, 'tuple'), leaves)

    def concat_iters(self, parts, kind):
        E = self.E
        # concatenation of displays with symbolic parts: only membership/order-insensitive use is supported
        its = []
        for p in parts:
            if isinstance(p, self.core.SymStar):
                its.append(p.seq)
            else:
                its.append([p])
        its = [i for i in its if not (isinstance(i, list) and not i)]
        if len(its) == 1 and isinstance(its[0], SymIter):
            return self.seq_from_iter(its[0], kind)
        # tagged union over (tag:Int, vars...)
        sorts = []
        offs = []
        for i in its:
            offs.append(len(sorts))
            sorts += list(i.sorts) if isinstance(i, SymIter) else []

        def mem(tag, *xs):
            acc = []
            for n, i in enumerate(its):
                if isinstance(i, SymIter):
                    acc.append(z3.And(tag == n, i.mem(*xs[offs[n]:offs[n] + len(i.sorts)])))
                else:
                    acc.append(tag == n)
            return z3.Or(acc)

        def val(tag, *xs):
            # decided by forking on the tag
            for n, i in enumerate(its):
                if n == len(its) - 1 or E.branch(tag == n):
                    return i.val(*xs[offs[n]:offs[n] + len(i.sorts)]) if isinstance(i, SymIter) else i[0]
        return SymIter([I] + sorts, mem, val, distinct=False)

    def set_from_any(self, v):
        E = self.E
        v = E.norm(v)
        k = E.ckind(v)
        if isinstance(v, View) and isinstance(v.typ, TSet):
            mem = E.leaf(v, 'mem')
            return self.mkset(v.typ.sort, mem, like=v)
        if isinstance(v, Cont) and v.kind == 'set':
            return E.new_cont('set', list(v.items))
        if isinstance(v, View) and isinstance(v.typ, TDict):
            return self.mkset(v.typ.ksort, E.leaf(v, 'dom'))
        return self.set_from_iter(E.iterate(v))

    def mkset(self, sort, mem, like=None):
        E = self.E
        ident = E.hooks.get('set_ident', False)
        lv = {('mem',): mem}
        if ident:
            idt = E.new_ident()
            lv[('id',)] = lambda: idt
        return E.new_sym('set', TSet(sort, ident=bool(ident)), lv, 'set')

    def set_from_iter(self, it):
        E = self.E
        if isinstance(it, list):
            c = E.new_cont('set', [])
            for x in it:
                self.call_method(c, 'add', [x], {})
            return c
        s = None
        q = [E.fresh_bound(x) for x in it.sorts]
        s = E.sort_of(it.val(*q))
        return self.mkset(s, E.set_mem(it, s))

    def dict_from_iter(self, it):
        E = self.E
        if isinstance(it, list):
            c = E.new_cont('dict', [])
            for kv in it:
                if not isinstance(kv, tuple):
                    kv = tuple(E.iterate(kv))
                self.setitem(c, kv[0], kv[1])
            return c
        q = [E.fresh_bound(x) for x in it.sorts]
        kv = it.val(*q)
        if not isinstance(kv, tuple) or len(kv) != 2:
            raise Unsupported('dict from symbolic iterable')
        k, v = kv
        if not isinstance(k, V):
            raise Unsupported('dict comprehension key')
        sol = [n for n, x in enumerate(q) if k.t.eq(x)]
        t = E.type_of(v)
        if isinstance(t, TConst):
            raise Unsupported(f'dict comprehension value {v}')
        if not isinstance(v, V) and isinstance(E.norm(v), View) and (E.norm(v).prefix != () or E.norm(v).idx != ()):
            h = E.hooks.get('comp_alias')
            if h is None and not isinstance(t, TS):
                raise Unsupported('comprehension storing shared containers')
        lv = E.leaves_of(v, t)
        ks = k.t.sort()
        if len(q) == 1 and sol:
            x = q[0]
            leaves = {('dom',): lambda y: it.mem(y)}
            for p, i, o in leafspecs(t):
                leaves[('v',) + p] = lambda y, *r, f=lv[p]: z3.substitute(f(*r), (x, y))
            if ('v', 'id') in leaves:
                # one fresh set object per key
                cv = E.norm(v)
                if isinstance(cv, View) and cv.prefix == () and cv.idx == ():
                    base, w = E.new_ident_block(ks)
                    leaves[('v', 'id')] = base
            return E.new_sym('dict', TDict(ks, t), leaves, 'dict')
        # general: key determines the value (checked)
        leaves = {('dom',): lambda y: exists(it.sorts, lambda *z: conj([it.mem(*z), eqt(z3.substitute(k.t, *zip(q, z)), y)]))}
        # src(y): the iteration that gave key y its (last) value
        src = [E.fresh_fn([ks], z.sort(), 'src') for z in q]
        used = [False]

        def at(term, y):
            r = z3.substitute(term, *[(z, f(y)) for z, f in zip(q, src)])
            if not r.eq(term):
                used[0] = True
            return r
        probe = E.fresh_bound(ks)
        for p, i, o in leafspecs(t):
            leaves[('v',) + p] = lambda y, *r, f=lv[p]: at(f(*r), y)
            at(lv[p](*[E.fresh_bound(x) for x in i]), probe)
        if ('v', 'id') in leaves:
            cv = E.norm(v)
            if isinstance(cv, View) and cv.prefix == () and cv.idx == ():
                base, w = E.new_ident_block(ks)
                leaves[('v', 'id')] = base
        if used[0]:
            key = lambda *z: z3.substitute(k.t, *zip(q, z))
            E.assume(forall([ks], lambda y: z3.Implies(leaves[('dom',)](y), conj([it.mem(*[f(y) for f in src]), eqt(key(*[f(y) for f in src]), y)]))))
            if it.ordered:
                E.assume(forall([ks] + list(it.sorts), lambda y, *z: z3.Implies(conj([it.mem(*z), eqt(key(*z), y)]), z[0] <= src[0](y))))
            elif not isinstance(t, TS) and not it.distinct:
                pass
        return E.new_sym('dict', TDict(ks, t), leaves, 'dict')

    def dict_copy(self, v):
        E = self.E
        v = E.norm(v)
        if isinstance(v, Cont):
            return E.new_cont('dict', [list(x) for x in v.items])
        if isinstance(v.typ, TFix):
            return E.new_cont('dict', [[k, E.sub(v, k)] for k in v.typ.items])
        h = E.hooks.get('widen')
        w = h(E, v.typ) if h else None
        if w is not None:
            # the copy holds values of a wider type
            lv = E.leaves_of(v, v.typ)
            leaves = {('dom',): lv[('dom',)]}
            p0 = ('v', 'one') if isinstance(v.typ.v, TS) else ('v', 'many')
            for q, i, o in leafspecs(w.v):
                leaves[('v',) + q] = lv[('v',) + q[1:]] if ('v',) + q[:1] == p0 else E.junkf(o)
            leaves[('v', 'tag')] = lambda *k: z3.BoolVal(p0[1] == 'many')
            return E.new_sym('dict', w, leaves, 'dcopy')
        if isinstance(v.typ.v, TS) or (isinstance(v.typ.v, TSet) and v.typ.v.ident):
            return E.new_sym('dict', v.typ, E.leaves_of(v, v.typ), 'dcopy')
        # shallow copy of nested containers: shares them
        h = E.hooks.get('shallow')
        if h:
            return h(E, v)
        # neither side may be written afterwards
        v.root.frozen = v.root.frozen or 'shared'
        c = E.new_sym('dict', v.typ, E.leaves_of(v, v.typ), 'dcopy')
        c.v.root.frozen = 'shared'
        return c

    def copy_copy(self, a, k):
        E, C = self.E, self.core
        v = E.norm(a[0])
        kind = E.ckind(v)
        if kind == 'dict':
            return self.dict_copy(v)
        if kind == 'set':
            return self.set_from_any(v)
        if kind == 'list':
            return self.construct(self.cls[list], [v], {})
        if kind == 'obj':
            o = E.new_obj(v.typ.cls)
            for f, t in v.typ.fields.items():
                x = E.sub(v, f)
                if isinstance(x, View):
                    raise Unsupported('copy.copy of object with container fields')
                o.attrs[f] = x
            return o
        if isinstance(v, Obj):
            o = E.new_obj(v.cls, dict(v.attrs))
            return o
        if isinstance(v, (V, str, int, tuple, type(None))):
            return v
        raise Unsupported('copy.copy')

    def copy_deepcopy(self, a, k):
        E = self.E
        v = E.norm(a[0])
        if isinstance(v, View):
            h = E.hooks.get('deepcopy')
            if h:
                return h(E, v)
            lv = E.leaves_of(v, v.typ)
            kind = E.ckind(v)
            if kind == 'obj':
                r = E.mkroot(v.typ, lv, 'deep')
                o = E.new_obj(v.typ.cls)
                o.v = View(r, v.typ)
                return o
            return E.new_sym(kind, v.typ, lv, 'deep')
        if isinstance(v, (V, str, int, type(None), bool)):
            return v
        raise Unsupported('deepcopy')

    # ------------------------------------------------------------ items
    def norm_index(self, v, k, n):
        """index value -> (in range?, index term) for list view of length n."""
        E = self.E
        if isinstance(k, bool) or not (isinstance(k, int) or (isinstance(k, V) and k.t.sort() in (I, B))):
            E.raise_('TypeError', 'list indices must be integers or slices')
        t = E.to_term(k, I)
        if isinstance(k, int) and not isinstance(k, bool):
            idx = t if k >= 0 else n + k
            ok = n >= k + 1 if k >= 0 else n >= -k
        else:
            idx = t
            if E.branch(t < 0):
                idx = t + n
            ok = z3.And(idx >= 0, idx < n)
        return ok, idx

    def getitem(self, c, k):
        E, C = self.E, self.core
        c0 = c
        if isinstance(c, Cont) and c.default is not None and not E.truth(E.contains(c, k)):
            self.setitem(c, k, E.call(c.default, [], {}))
        c = E.norm(c)
        if isinstance(c, (tuple, str)):
            if isinstance(k, int):
                if -len(c) <= k < len(c):
                    return c[k]
                E.raise_('IndexError')
            if isinstance(k, C.Slice):
                if all(x is None or isinstance(x, int) for x in (k.lo, k.hi, k.step)):
                    return c[slice(k.lo, k.hi, k.step)]
                raise Unsupported('symbolic slice of tuple')
            if isinstance(c, tuple) and isinstance(k, V) and k.t.sort() == I:
                for n in range(len(c)):
                    if E.branch(k.t == n):
                        return c[n]
                E.raise_('IndexError')
            E.raise_('TypeError')
        if isinstance(c, Cont):
            if c.kind == 'dict':
                for kk, v in c.items:
                    r = E.eq(kk, k)
                    if E.truth(r):
                        if isinstance(v, V) or True:
                            for rc in E.recorders:
                                if c.uid <= rc.uid:
                                    rc.reads.append((c, 'host', (), 0))
                        return v
                E.raise_('KeyError', k)
            if c.kind == 'set':
                E.raise_('TypeError', 'set not subscriptable')
            if isinstance(k, C.Slice):
                if all(x is None or isinstance(x, int) for x in (k.lo, k.hi, k.step)):
                    return E.new_cont('list', c.items[slice(k.lo, k.hi, k.step)])
                c = E.symbolize(c)
            elif isinstance(k, int):
                if -len(c.items) <= k < len(c.items):
                    return c.items[k]
                E.raise_('IndexError')
            elif isinstance(k, V) and k.t.sort() == I:
                if not c.items:
                    E.raise_('IndexError')
                for n in range(len(c.items)):
                    if E.branch(k.t == n):
                        return c.items[n]
                for n in range(1, len(c.items) + 1):
                    if E.branch(k.t == -n):
                        return c.items[-n]
                E.raise_('IndexError')
            else:
                E.raise_('TypeError')
        if isinstance(c, View):
            t = c.typ
            if isinstance(t, TDict):
                kt = E.to_term(k, t.ksort)
                if not E.branch(E.leaf_at(c, 'dom', kt)):
                    E.raise_('KeyError', k)
                return E.sub(c, None, kt)
            if isinstance(t, TFix):
                for kk in t.items:
                    if E.truth(E.eq(kk, k)):
                        return E.sub(c, kk)
                E.raise_('KeyError', k)
            if isinstance(t, TList):
                n = E.leaf_at(c, 'len')
                if isinstance(k, C.Slice):
                    return self.slice(c, k)
                ok, idx = self.norm_index(c, k, n)
                if not E.branch(ok):
                    E.raise_('IndexError')
                return E.sub(c, None, idx)
            if isinstance(t, TSet):
                E.raise_('TypeError', 'set not subscriptable')
        cls = E.class_of(c)
        if isinstance(cls, C.ClassVal):
            m = E.class_lookup(cls, '__getitem__')
            if m is not None:
                return E.call(m, [c, k], {})
        if isinstance(c, C.ClassVal) and c.members is not None:
            if k in c.members:
                return c.members[k]
            E.raise_('KeyError', k)
        if c is None or isinstance(c, (int, bool, C.EnumMember, Obj)):
            E.raise_('TypeError', 'not subscriptable')
        if isinstance(c, SymIter) and c.ordered and isinstance(k, int):
            ok, idx = self.norm_index(c, k, c.length)
            if not E.branch(ok):
                E.raise_('IndexError')
            return c.val(idx)
        if isinstance(c, SymIter) and not c.ordered and c.distinct and len(c.sorts) == 1 and not isinstance(k, self.core.Slice):
            # list(a set): some enumeration of its members, the same at every access
            if getattr(c, 'enum', None) is None:
                n, e, pos = E.to_term(E.length(c), I), E.fresh_fn([I], c.sorts[0], 'nth'), E.fresh_fn(list(c.sorts), I, 'index')
                E.assume(forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < n), z3.And(c.mem(e(i)), pos(e(i)) == i))))
                E.assume(forall(c.sorts, lambda x: z3.Implies(c.mem(x), z3.And(0 <= pos(x), pos(x) < n, e(pos(x)) == x))))
                c.enum = (n, e)
            n, e = c.enum
            ok, idx = self.norm_index(c, k, n)
            if not E.branch(ok):
                E.raise_('IndexError')
            return c.val(e(idx))
        h = E.hooks.get('getitem')
        if h:
            r = h(E, c, k)
            if r is not None:
                return r
        raise Unsupported(f'getitem of {c}')

    def slice(self, c, k):
        E = self.E
        if k.step is not None and k.step != 1:
            raise Unsupported('slice step')
        n = E.leaf_at(c, 'len')

        def clamp(x, default):
            if x is None:
                return default
            t = E.to_term(x, I)
            if isinstance(x, int):
                if x >= 0:
                    return z3.If(n < x, n, z3.IntVal(x)) if x else z3.IntVal(0)
                return z3.If(n + x < 0, z3.IntVal(0), n + x)
            t = z3.If(t < 0, t + n, t)
            return z3.If(t < 0, z3.IntVal(0), z3.If(t > n, n, t))
        lo, hi = clamp(k.lo, z3.IntVal(0)), clamp(k.hi, n)
        ln = z3.simplify(z3.If(hi - lo > 0, hi - lo, z3.IntVal(0)))
        lv = E.leaves_of(c, c.typ)
        lo = z3.simplify(lo)
        leaves = {('len',): lambda: ln}
        for p, i, o in leafspecs(c.typ.e):
            leaves[('e',) + p] = lambda j, *r, f=lv[('e',) + p]: f(z3.simplify(j + lo), *r)
        if not isinstance(c.typ.e, TS):
            h = E.hooks.get('shallow')
            if not h:
                raise Unsupported('slice of list of containers')
        return E.new_sym('list', TList(c.typ.e, c.typ.kind), leaves, 'slice')

    def setitem(self, c, k, v):
        E, C = self.E, self.core
        c0 = c
        c = E.norm(c)
        if isinstance(c, Cont):
            if c.kind == 'dict':
                conc = lambda x: not isinstance(x, (V, tuple)) or (isinstance(x, tuple) and all(not isinstance(y, V) for y in x))
                hit = None
                sym = False
                for i, (kk, _) in enumerate(c.items):
                    r = E.eq(kk, k)
                    if r is True:
                        hit = i
                    elif r is not False:
                        sym = True
                if hit is not None or (not sym and (conc(k) or not c.items or True) and hit is None and not (isinstance(k, V) and E.loopstack)):
                    if hit is not None:
                        old = c.items[hit][1]
                        E.host_write(c, None if not isinstance(k, V) else self.dict_type(c, k, v), lambda: c.items[hit].__setitem__(1, old))
                        c.items[hit][1] = v
                    else:
                        E.host_write(c, self.dict_type(c, k, v), lambda: c.items.pop())
                        c.items.append([k, v])
                    return
                t = self.dict_type(c, k, v)
                E.host_write(c, t, lambda: None)
                c = E.symbolize(c, t)
            elif c.kind == 'list':
                if isinstance(k, int):
                    if not -len(c.items) <= k < len(c.items):
                        E.raise_('IndexError')
                    old = c.items[k]
                    E.host_write(c, None, lambda: c.items.__setitem__(k, old))
                    c.items[k] = v
                    return
                c = E.symbolize(c)
        if isinstance(c, View):
            t = c.typ
            if isinstance(t, TDict):
                kt = E.to_term(k, t.ksort)
                if isinstance(t.v, TPoison):
                    raise Unsupported('untyped dict')
                E.store((c.root, c.prefix + ('v',), c.idx + (kt,)), v, t.v)
                E.write_leaf(c.root, c.prefix + ('dom',), c.idx + (kt,), lambda: z3.BoolVal(True))
                return
            if isinstance(t, TFix):
                for kk, s in t.items.items():
                    if E.truth(E.eq(kk, k)):
                        return E.store((c.root, c.prefix + (kk,), c.idx), v, s)
                raise Unsupported('new key in fixed dict')
            if isinstance(t, TList):
                n = E.leaf_at(c, 'len')
                ok, idx = self.norm_index(c, k, n)
                if not E.branch(ok):
                    E.raise_('IndexError')
                return E.store((c.root, c.prefix + ('e',), c.idx + (idx,)), v, t.e)
        cls = E.class_of(c)
        if isinstance(cls, C.ClassVal):
            m = E.class_lookup(cls, '__setitem__')
            if m is not None:
                return E.call(m, [c, k, v], {})
        raise Unsupported(f'setitem on {c}')

    def dict_type(self, c, k, v):
        E = self.E
        if c.items and all(isinstance(kk, self.core.EnumMember) for kk, _ in c.items):
            return None
        try:
            return TDict(E.sort_of(k), E.type_of(c.items[0][1] if c.items and not isinstance(E.type_of(v), (TS,)) else v))
        except Unsupported:
            return None

    def delitem(self, c, k):
        E = self.E
        c = E.norm(c)
        if isinstance(c, Cont) and c.kind == 'dict':
            for i, (kk, v) in enumerate(c.items):
                if E.truth(E.eq(kk, k)):
                    it = c.items[i]
                    E.host_write(c, None, lambda: c.items.insert(i, it))
                    del c.items[i]
                    return
            E.raise_('KeyError', k)
        if isinstance(c, View) and isinstance(c.typ, TDict):
            kt = E.to_term(k, c.typ.ksort)
            if not E.branch(E.leaf_at(c, 'dom', kt)):
                E.raise_('KeyError', k)
            E.put_leaf(c, 'dom', (kt,), z3.BoolVal(False))
            return
        if isinstance(c, (Cont, View)) and E.ckind(c) == 'list':
            if isinstance(k, self.core.Slice):
                raise Unsupported('del slice')
            return self.call_method(c, 'pop', [k], {}) and None
        raise Unsupported('del item')

    # ------------------------------------------------------------ methods
    METHODS = {
        'set': 'add remove discard update union intersection difference symmetric_difference copy clear issubset issuperset isdisjoint pop intersection_update difference_update symmetric_difference_update'.split(),
        'dict': 'get items keys values copy update pop setdefault clear'.split(),
        'list': 'append extend insert remove pop index count copy clear reverse sort'.split(),
        'tuple': 'index count'.split(),
        'str': 'format upper lower split join ljust rstrip replace startswith endswith strip'.split(),
    }

    def method(self, v, name):
        E, C = self.E, self.core
        v2 = E.norm(v)
        k = E.ckind(v2)
        if isinstance(v2, (str, Opaque)):
            k = 'str'
        if isinstance(v2, SymIter):
            k = 'iter'
        if isinstance(v2, C.BuiltinClass):
            m = {set: 'set', dict: 'dict', list: 'list', str: 'str', frozenset: 'set'}.get(v2.py)
            if m == 'dict' and name == 'fromkeys':
                def fromkeys(a, kw):
                    it, x = E.iterate(a[0]), a[1] if len(a) > 1 else None
                    if not (x is None or isinstance(x, (V, int, str, bool))):
                        raise Unsupported('dict.fromkeys of a shared container')
                    return self.dict_from_iter([(y, x) for y in it] if isinstance(it, list) else SymIter(it.sorts, it.mem, lambda *q: (it.val(*q), x), ordered=it.ordered, length=it.length, distinct=it.distinct))
                return C.Builtin('dict.fromkeys', fromkeys)
            if m and name in self.METHODS[m]:
                def unbound(a, kw):
                    if a and isinstance(a[0], C.SymStar) and m == 'set' and name in ('union', 'intersection'):
                        it = a[0].seq if isinstance(a[0].seq, SymIter) else E.iterate(a[0].seq)
                        if not E.branch(exists(it.sorts, lambda *z: it.mem(*z))):
                            if len(a) == 1:
                                E.raise_('TypeError', 'unbound method needs an argument')
                        return self.star_method(None, name, list(a), kw)
                    x = E.norm(a[0]) if a else None
                    if isinstance(x, (C.EnumMember, C.FuncVal, C.ClassVal, bool, int, float)) or x is None and a or isinstance(x, Obj) or isinstance(x, V) and x.t.sort() == RefS or \
                            isinstance(x, (Cont, View, str, tuple)) and m != ('str' if isinstance(x, str) else E.ckind(x)):
                        E.raise_('TypeError', f'descriptor {name} for {m} objects')
                    return self.call_method(a[0], name, list(a[1:]), kw) if a else E.raise_('TypeError', 'unbound method needs an argument')
                return C.Builtin(f'{v2.name}.{name}', unbound)
            if name == '__name__':
                return v2.name
            return None
        if k in self.METHODS and name in self.METHODS[k]:
            return C.Builtin(f'{k}.{name}', lambda a, kw: self.call_method(v, name, list(a), kw))
        if k in self.METHODS and not name.startswith('__'):
            if hasattr({'set': set, 'dict': dict, 'list': list, 'tuple': tuple, 'str': str}[k], name):
                raise Unsupported(f'{k}.{name}')
            E.raise_('AttributeError', name)
        if k == 'set' and name in ('__contains__',) or k == 'dict' and name == '__contains__':
            return C.Builtin(name, lambda a, kw: E.contains(v, a[0]))
        if k == 'dict' and name == '__getitem__':
            return C.Builtin(name, lambda a, kw: self.getitem(v, a[0]))
        if k == 'iter' and name in ('copy',):
            return C.Builtin(name, lambda a, kw: v)
        return None

    def call_method(self, c, name, a, k):
        E = self.E
        v = E.norm(c)
        if any(isinstance(x, self.core.SymStar) for x in a):
            return self.star_method(c, name, a, k)
        if isinstance(v, (str, Opaque)):
            return self.str_method(v, name, a, k)
        kind = E.ckind(v)
        m = getattr(self, f'm_{kind}_{name}', None)
        if m is None:
            if isinstance(v, SymIter):
                v = self.set_from_iter(v)
                return self.call_method(v, name, a, k)
            raise Unsupported(f'{kind}.{name}')
        return m(c, v, a, k)

    def star_method(self, c, name, a, k):
        """set.union(*symbolic iterable of sets) and friends."""
        E = self.E
        stars = [x for x in a if isinstance(x, self.core.SymStar)]
        rest = [x for x in a if not isinstance(x, self.core.SymStar)]
        if name not in ('union', 'update', 'intersection'):
            raise Unsupported(f'{name} with symbolic star')
        parts = []
        s = Val
        for st in stars:
            it = st.seq if isinstance(st.seq, SymIter) else E.iterate(st.seq)
            q = [E.fresh_bound(x) for x in it.sorts]
            inner = it.val(*q)
            if not isinstance(inner, V):
                inner = E.norm(inner)
            s = E.set_sort(inner)
            im = E.set_mem(inner, s)
            parts.append((it, q, im))
        ms = [E.set_mem(x, s) for x in ([c] if c is not None else []) + rest]
        if name == 'intersection':
            mem = lambda x: conj([m(x) for m in ms] + [forall(it.sorts, lambda *z: z3.Implies(it.mem(*z), z3.substitute(im(x), *zip(q, z)))) for it, q, im in parts])
        else:
            mem = lambda x: disj([m(x) for m in ms] + [exists(it.sorts, lambda *z: conj([it.mem(*z), z3.substitute(im(x), *zip(q, z))])) for it, q, im in parts])
        if name == 'update':
            v = E.norm(c)
            if isinstance(v, Cont):
                v = E.symbolize(v, TSet(s, ident=E.hooks.get('set_ident', False)))
            E.write_leaf(v.root, v.prefix + ('mem',), v.idx, mem)
            return None
        return self.mkset(s, mem)

    def str_method(self, v, name, a, k):
        if isinstance(v, str) and all(isinstance(x, (str, int)) for x in a) and not k:
            if name in ('upper', 'lower', 'split', 'rstrip', 'replace', 'startswith', 'endswith', 'strip', 'ljust'):
                r = getattr(v, name)(*a)
                return self.E.new_cont('list', r) if isinstance(r, list) else r
        if isinstance(v, str) and name == 'join':
            w = self.E.norm(a[0])
            if isinstance(w, View) and isinstance(w.typ, TBag):
                return Opaque('fstring')
            it = self.E.iterate(a[0])
            if isinstance(it, list) and all(isinstance(x, str) for x in it):
                return v.join(it)
            # elements must be strings
            if isinstance(it, list):
                for x in it:
                    if not isinstance(x, (str, Opaque)):
                        h = self.E.hooks.get('join')
                        if h:
                            h(self.E, x)
                        elif isinstance(x, V) and x.t.sort() != Val or x is None:
                            self.E.raise_('TypeError', 'join')
            return Opaque('fstring')
        if isinstance(v, str) and not k and all(isinstance(x, (str, int)) for x in a) and name != 'join':
            return getattr(v, name)(*a)
        if isinstance(v, str) and not k and name == 'join':
            it = self.E.iterate(a[0])
            if isinstance(it, list) and all(isinstance(x, str) for x in it):
                return v.join(it)
        if name in ('format', 'join', 'ljust', 'upper', 'lower', 'replace', 'strip', 'rstrip'):
            return Opaque('fstring')
        raise Unsupported(f'str.{name}')

    # --- sets
    def setsym(self, c, v, x=None):
        """View of a set container (symbolising it)."""
        E = self.E
        if isinstance(v, View):
            return v
        s = E.sort_of(v.items[0]) if v.items else (E.sort_of(x) if x is not None else Val)
        return E.symbolize(v, TSet(s, ident=E.hooks.get('set_ident', False)))

    def m_set_add(self, c, v, a, k):
        E = self.E
        x = a[0]
        if isinstance(v, Cont):
            dec = [E.eq(y, x) for y in v.items]
            t = TSet(E.sort_of(x), ident=E.hooks.get('set_ident', False)) if not isinstance(x, (Cont, Obj)) else None
            if any(r is True for r in dec):
                return
            if all(r is False for r in dec) and not (v.items == [] and isinstance(x, V) and E.loopstack):
                E.host_write(v, t, lambda: v.items.pop())
                v.items.append(x)
                return
            E.host_write(v, t, lambda: None)
            v = E.symbolize(v, t)
        E.put_leaf(v, 'mem', (E.to_term(x, v.typ.sort),), z3.BoolVal(True))

    def m_set_discard(self, c, v, a, k):
        E = self.E
        x = a[0]
        if isinstance(v, Cont):
            for i, y in enumerate(v.items):
                r = E.eq(y, x)
                if r is True:
                    E.host_write(v, None, lambda: v.items.insert(i, y))
                    v.items.pop(i)
                    return
                if r is not False:
                    break
            else:
                return
            t = TSet(E.sort_of(x), ident=E.hooks.get('set_ident', False))
            E.host_write(v, t, lambda: None)
            v = E.symbolize(v, t)
        E.put_leaf(v, 'mem', (E.to_term(x, v.typ.sort),), z3.BoolVal(False))

    def m_set_remove(self, c, v, a, k):
        E = self.E
        if not E.truth(E.contains(v, a[0])):
            E.raise_('KeyError', a[0])
        return self.m_set_discard(c, E.norm(c), a, k)

    def m_set_clear(self, c, v, a, k):
        E = self.E
        if isinstance(v, Cont):
            old = list(v.items)
            E.host_write(v, None, lambda: v.items.__setitem__(slice(None), old))
            v.items.clear()
            return
        E.write_leaf(v.root, v.prefix + ('mem',), v.idx, lambda x: z3.BoolVal(False))

    def m_set_copy(self, c, v, a, k):
        return self.set_from_any(v)

    def setop(self, v, others, f):
        E = self.E
        s = E.set_sort(v, *others)
        ms = [E.set_mem(x if isinstance(x, V) else E.norm(x) if not isinstance(x, self.core.GenVal) else self.as_iter(x), s) for x in [v] + list(others)]
        return s, lambda x: f([m(x) for m in ms])

    def as_iter(self, g):
        it = self.E.iterate(g)
        return tuple(it) if isinstance(it, list) else it

    def concset(self, *vs):
        E = self.E
        for v in vs:
            v = E.norm(v)
            if isinstance(v, tuple):
                items = v
            elif isinstance(v, Cont) and v.kind in ('set', 'list'):
                items = v.items
            else:
                return False
            if any(isinstance(x, V) for x in items):
                return False
        return True

    def m_set_union(self, c, v, a, k):
        E = self.E
        a = [self.as_iter(x) if isinstance(x, self.core.GenVal) else x for x in a]
        if self.concset(v, *a):
            r = E.new_cont('set', list(v.items))
            for x in a:
                for y in E.iterate(x):
                    self.call_method(r, 'add', [y], {})
            return r
        s, mem = self.setop(v, a, disj)
        return self.mkset(s, mem)

    def m_set_intersection(self, c, v, a, k):
        s, mem = self.setop(v, a, conj)
        return self.mkset(s, mem)

    def m_set_difference(self, c, v, a, k):
        s, mem = self.setop(v, a, lambda m: conj([m[0]] + [neg(x) for x in m[1:]]))
        return self.mkset(s, mem)

    def m_set_symmetric_difference(self, c, v, a, k):
        s, mem = self.setop(v, a, lambda m: neg(eqt(m[0], m[1])))
        return self.mkset(s, mem)

    def inplace(self, c, v, a, f):
        E = self.E
        s, mem = self.setop(v, a, f)
        if isinstance(v, Cont):
            t = TSet(s, ident=E.hooks.get('set_ident', False))
            E.host_write(v, t, lambda: None)
            v = E.symbolize(v, t)
        E.write_leaf(v.root, v.prefix + ('mem',), v.idx, mem)

    def m_set_update(self, c, v, a, k):
        E = self.E
        a = [self.as_iter(x) if isinstance(x, self.core.GenVal) else x for x in a]
        if isinstance(v, Cont) and self.concset(v, *a):
            for x in a:
                for y in E.iterate(x):
                    self.m_set_add(v, v, [y], {})
            return
        self.inplace(c, v, a, disj)

    def m_set_intersection_update(self, c, v, a, k):
        self.inplace(c, v, a, conj)

    def m_set_difference_update(self, c, v, a, k):
        self.inplace(c, v, a, lambda m: conj([m[0]] + [neg(x) for x in m[1:]]))

    def m_set_symmetric_difference_update(self, c, v, a, k):
        self.inplace(c, v, a, lambda m: neg(eqt(m[0], m[1])))

    def m_set_issubset(self, c, v, a, k):
        s = self.E.set_sort(v, a[0])
        x, y = self.E.set_mem(v, s), self.E.set_mem(a[0], s)
        return self.E.mkbool(forall([s], lambda q: z3.Implies(x(q), y(q))))

    def m_set_issuperset(self, c, v, a, k):
        s = self.E.set_sort(v, a[0])
        x, y = self.E.set_mem(v, s), self.E.set_mem(a[0], s)
        return self.E.mkbool(forall([s], lambda q: z3.Implies(y(q), x(q))))

    def m_set_isdisjoint(self, c, v, a, k):
        s = self.E.set_sort(v, a[0])
        x, y = self.E.set_mem(v, s), self.E.set_mem(a[0], s)
        return self.E.mkbool(forall([s], lambda q: neg(conj([y(q), x(q)]))))

    def m_set_pop(self, c, v, a, k):
        E = self.E
        if isinstance(v, Cont) and not v.items:
            E.raise_('KeyError')
        v = self.setsym(c, v)
        m = E.leaf(v, 'mem')
        if not E.branch(exists([v.typ.sort], m)):
            E.raise_('KeyError')
        x = E.fresh(v.typ.sort, 'popped')
        E.assume(m(x))
        E.put_leaf(v, 'mem', (x,), z3.BoolVal(False))
        return V(x)

    # --- dicts
    def m_dict_get(self, c, v, a, k):
        E = self.E
        d = a[1] if len(a) > 1 else k.get('default')
        if E.truth(E.contains(v, a[0])):
            return self.getitem(v, a[0])
        return d

    def m_dict_setdefault(self, c, v, a, k):
        E = self.E
        if not E.truth(E.contains(v, a[0])):
            self.setitem(c, a[0], a[1] if len(a) > 1 else None)
        return self.getitem(c, a[0])

    def m_dict_keys(self, c, v, a, k):
        E = self.E
        it = E.iterate(v)
        return E.new_cont('set', list(it)) if isinstance(it, list) else it

    def m_dict_values(self, c, v, a, k):
        E = self.E
        if isinstance(v, Cont):
            return tuple(x for _, x in v.items)
        if isinstance(v.typ, TFix):
            return tuple(E.sub(v, kk) for kk in v.typ.items)
        dom = E.leaf(v, 'dom')
        return SymIter([v.typ.ksort], dom, lambda x: E.sub(v, None, x), distinct=False)

    def m_dict_items(self, c, v, a, k):
        E = self.E
        if isinstance(v, Cont):
            return tuple((kk, x) for kk, x in v.items)
        if isinstance(v.typ, TFix):
            return tuple((kk, E.sub(v, kk)) for kk in v.typ.items)
        dom = E.leaf(v, 'dom')
        return SymIter([v.typ.ksort], dom, lambda x: (V(x, v.typ.kcls), E.sub(v, None, x)))

    def m_dict_copy(self, c, v, a, k):
        return self.dict_copy(v)

    def m_dict_update(self, c, v, a, k):
        E = self.E
        for src in a:
            src = E.norm(src)
            if E.ckind(src) == 'dict':
                items = self.m_dict_items(src, src, [], {})
            else:
                items = E.iterate(src)
                if isinstance(items, list):
                    items = tuple(items)
            if isinstance(items, tuple):
                for kk, x in items:
                    self.setitem(c, kk, x)
            else:
                v = E.norm(c)
                sv = src if isinstance(src, View) else E.norm(self.dict_from_iter(items))
                if isinstance(v, Cont):
                    if v.items:
                        h = E.hooks.get('dict_merge')
                        v = E.symbolize(v, sv.typ)
                    else:
                        E.host_write(v, sv.typ, lambda: None)
                        v = E.symbolize(v, sv.typ)
                if not isinstance(sv.typ, TDict) or not E.same_type(sv.typ, v.typ):
                    raise Unsupported('dict.update types')
                if not isinstance(sv.typ.v, TS) and not (isinstance(sv.typ.v, TSet) and sv.typ.v.ident) and isinstance(src, View) and not E.hooks.get('shallow'):
                    raise Unsupported('dict.update sharing containers')
                ls = E.leaves_of(sv, sv.typ)
                ld = E.leaves_of(v, v.typ)
                dom = ls[('dom',)]
                for p in ls:
                    if p == ('dom',):
                        E.write_leaf(v.root, v.prefix + p, v.idx, lambda y, f=ld[p]: disj([dom(y), f(y)]))
                    else:
                        E.write_leaf(v.root, v.prefix + p, v.idx, lambda y, *r, f=ld[p], g=ls[p]: ite(dom(y), g(y, *r), f(y, *r)))
        for kk, x in k.items():
            self.setitem(c, kk, x)

    def m_dict_pop(self, c, v, a, k):
        E = self.E
        if E.truth(E.contains(v, a[0])):
            r = self.getitem(v, a[0])
            if isinstance(r, View):
                raise Unsupported('dict.pop of container')
            self.delitem(c, a[0])
            return r
        if len(a) > 1:
            return a[1]
        E.raise_('KeyError', a[0])

    def m_dict_clear(self, c, v, a, k):
        E = self.E
        if isinstance(v, Cont):
            old = list(v.items)
            E.host_write(v, None, lambda: v.items.__setitem__(slice(None), old))
            v.items.clear()
            return
        E.write_leaf(v.root, v.prefix + ('dom',), v.idx, lambda x: z3.BoolVal(False))

    # --- lists
    def m_list_append(self, c, v, a, k):
        E = self.E
        x = a[0]
        if isinstance(v, Cont):
            try:
                t = TBag() if isinstance(x, Opaque) and E.hooks.get('bag') else TList(E.type_of(x))
            except Unsupported:
                t = TList(TPoison())
            E.host_write(v, t, lambda: v.items.pop())
            v.items.append(x)
            return
        if isinstance(v.typ, TBag):
            E.put_leaf(v, 'some', (), z3.BoolVal(True))
            return
        n = E.leaf_at(v, 'len')
        E.store((v.root, v.prefix + ('e',), v.idx + (n,)), x, v.typ.e)
        E.put_leaf(v, 'len', (), z3.simplify(n + 1) if z3.is_int_value(n) else n + 1)

    def m_list_extend(self, c, v, a, k):
        E = self.E
        w = E.norm(a[0])
        if isinstance(w, View) and isinstance(w.typ, TBag):
            if E.branch(E.leaf_at(w, 'some')):
                self.m_list_append(c, v, [Opaque('thing')], {})
            return
        it = E.iterate(a[0])
        if isinstance(it, list):
            for x in it:
                self.m_list_append(c, E.norm(c), [x], {})
            return
        if isinstance(v, Cont) and not v.items:
            r = self.seq_from_iter(it, 'list')
            r = E.norm(r)
            if isinstance(r, View):
                E.host_write(v, r.typ, lambda: None)
                E.symbolize(v, r.typ)
                for p, f in E.leaves_of(r, r.typ).items():
                    E.write_leaf(v.v.root, p, (), f)
                return
        if isinstance(v, Cont):
            q = [E.fresh_bound(s) for s in it.sorts]
            t = TList(E.type_of(it.val(*q)))
            E.host_write(v, t, lambda: None)
            v = E.symbolize(v, t)
        n = E.leaf_at(v, 'len')
        lv = E.leaves_of(v, v.typ)
        if it.ordered and it.length is not None:
            q = E.fresh_bound(I)
            el = it.val(q)
            le = E.leaves_of(el, v.typ.e)
            if E.hooks.get('sequences') and not v.idx and list(le) == [()]:
                # the same by what it holds: the old elements at their places, the new ones after them
                f, g = lv[('e',)], le[()]
                h = E.fresh_fn([I], v.typ.e.sort, 'seq')
                E.assume(forall([I], lambda j: z3.Implies(z3.And(0 <= j, j < n), h(j) == f(j))))
                E.assume(forall([I], lambda j: z3.Implies(z3.And(0 <= j, j < it.length), h(n + j) == z3.substitute(g(), (q, j)))))
                E.assume(forall([I], lambda m: z3.Implies(z3.And(n <= m, m < n + it.length), h(m) == z3.substitute(g(), (q, m - n)))))
                E.write_leaf(v.root, v.prefix + ('e',), v.idx, h)
                E.put_leaf(v, 'len', (), n + it.length)
                return
            for p in le:
                E.write_leaf(v.root, v.prefix + ('e',) + p, v.idx, lambda j, *r, f=lv[('e',) + p], g=le[p]: ite(j < n, f(j, *r), z3.substitute(g(*r), (q, j - n))))
            E.put_leaf(v, 'len', (), n + it.length)
            return
        # unordered: some enumeration of the members
        if not isinstance(v.typ.e, TS):
            raise Unsupported('extend by unordered containers')
        m = E.fresh(I, 'ext')
        E.assume(m >= 0)
        f = E.fresh_fn([I], v.typ.e.sort, 'exte')
        mem = E.set_mem(it, v.typ.e.sort)
        E.assume(forall([I], lambda j: z3.Implies(z3.And(0 <= j, j < m), mem(f(j)))))
        pos = E.fresh_fn([v.typ.e.sort], I, 'extp')
        E.assume(forall([v.typ.e.sort], lambda x: z3.Implies(mem(x), z3.And(0 <= pos(x), pos(x) < m, f(pos(x)) == x))))
        E.write_leaf(v.root, v.prefix + ('e',), v.idx, lambda j, g=lv[('e',)]: ite(j < n, g(j), f(j - n)))
        E.put_leaf(v, 'len', (), n + m)

    def m_list_pop(self, c, v, a, k):
        E = self.E
        i = a[0] if a else -1
        if isinstance(v, Cont):
            if not isinstance(i, int):
                raise Unsupported('pop at symbolic index')
            if not -len(v.items) <= i < len(v.items):
                E.raise_('IndexError')
            x = v.items[i]
            pos = i if i >= 0 else len(v.items) + i
            E.host_write(v, None, lambda: v.items.insert(pos, x))
            v.items.pop(pos)
            return x
        n = E.leaf_at(v, 'len')
        if i != -1:
            ok, idx = self.norm_index(v, i, n)
            if not E.branch(ok):
                E.raise_('IndexError')
            if not isinstance(v.typ.e, TS):
                raise Unsupported('pop of container from the middle')
            x = E.sub(v, None, idx)
            self.list_delete(v, idx, n)
            return x
        if not E.branch(n >= 1):
            E.raise_('IndexError')
        x = E.sub(v, None, n - 1)
        if isinstance(x, View):
            # content moves out with its owner
            lv = E.leaves_of(x, x.typ)
            kind = E.ckind(x)
            if kind == 'obj':
                r = E.mkroot(x.typ, lv, 'popped')
                o = E.new_obj(x.typ.cls)
                o.v = View(r, x.typ)
                x = o
            else:
                x = E.new_sym(kind, x.typ, lv, 'popped')
        E.put_leaf(v, 'len', (), n - 1)
        return x

    def list_delete(self, v, idx, n):
        E = self.E
        lv = E.leaves_of(v, v.typ)
        for p, i, o in leafspecs(v.typ.e):
            E.write_leaf(v.root, v.prefix + ('e',) + p, v.idx, lambda j, *r, f=lv[('e',) + p]: ite(j < idx, f(j, *r), f(j + 1, *r)))
        E.put_leaf(v, 'len', (), n - 1)

    def m_list_remove(self, c, v, a, k):
        E = self.E
        if isinstance(v, Cont):
            for i, y in enumerate(v.items):
                if E.truth(E.eq(y, a[0])):
                    return self.m_list_pop(c, v, [i], {}) and None
            E.raise_('ValueError')
        if not isinstance(v.typ.e, TS):
            raise Unsupported('list.remove of containers')
        x = E.to_term(a[0], v.typ.e.sort)
        n, e = E.leaf_at(v, 'len'), E.leaf(v, 'e')
        if not E.branch(exists([I], lambda i: z3.And(0 <= i, i < n, e(i) == x))):
            E.raise_('ValueError')
        p = E.fresh(I, 'pos')
        E.assume(z3.And(0 <= p, p < n, e(p) == x))
        E.assume(forall([I], lambda j: z3.Implies(z3.And(0 <= j, j < p), e(j) != x)))
        self.list_delete(v, p, n)

    def m_list_index(self, c, v, a, k):
        E = self.E
        if isinstance(v, (Cont, tuple)):
            for i, y in enumerate(v.items if isinstance(v, Cont) else v):
                if E.truth(E.eq(y, a[0])):
                    return i
            E.raise_('ValueError')
        if not isinstance(v.typ.e, TS):
            raise Unsupported('list.index')
        x = E.to_term(a[0], v.typ.e.sort)
        n, e = E.leaf_at(v, 'len'), E.leaf(v, 'e')
        if not E.branch(exists([I], lambda i: z3.And(0 <= i, i < n, e(i) == x))):
            E.raise_('ValueError')
        p = E.fresh(I, 'pos')
        E.assume(z3.And(0 <= p, p < n, e(p) == x))
        E.assume(forall([I], lambda j: z3.Implies(z3.And(0 <= j, j < p), e(j) != x)))
        return V(p)

    m_tuple_index = m_list_index

    def m_list_insert(self, c, v, a, k):
        E = self.E
        if isinstance(v, Cont) and isinstance(a[0], int):
            old = list(v.items)
            E.host_write(v, None, lambda: v.items.__setitem__(slice(None), old))
            v.items.insert(a[0], a[1])
            return
        if not isinstance(v, View) or not isinstance(v.typ.e, TS):
            raise Unsupported('list.insert')
        n = E.leaf_at(v, 'len')
        i = E.to_term(a[0], I)
        i = z3.If(i < 0, z3.If(i + n < 0, z3.IntVal(0), i + n), z3.If(i > n, n, i))
        x = E.to_term(a[1], v.typ.e.sort)
        f = E.leaf(v, 'e')
        E.write_leaf(v.root, v.prefix + ('e',), v.idx, lambda j: ite(j < i, f(j), ite(eqt(j, i), x, f(j - 1))))
        E.put_leaf(v, 'len', (), n + 1)

    def m_list_copy(self, c, v, a, k):
        return self.construct(self.cls[list], [v], {})

    def m_list_clear(self, c, v, a, k):
        E = self.E
        if isinstance(v, Cont):
            old = list(v.items)
            E.host_write(v, None, lambda: v.items.__setitem__(slice(None), old))
            v.items.clear()
            return
        E.put_leaf(v, 'len', (), z3.IntVal(0))

    def m_list_reverse(self, c, v, a, k):
        E = self.E
        if isinstance(v, Cont):
            v.items.reverse()
            E.host_write(v, None, lambda: v.items.reverse())
            return
        raise Unsupported('list.reverse')

    def m_list_sort(self, c, v, a, k):
        raise Unsupported('list.sort')

    # ------------------------------------------------------------ operators
    def binop(self, op, a, b):
        E = self.E
        a, b = E.norm(a), E.norm(b)
        h = E.hooks.get('binop')
        if h:
            r = h(E, op, a, b)
            if r is not None:
                return r
        if E.isnum(a) and E.isnum(b):
            return self.arith(op, a, b)
        ka, kb = E.ckind(a), E.ckind(b)
        if ka == 'set' and kb == 'set' or (ka == 'set' and isinstance(b, SymIter)) or (isinstance(a, SymIter) and kb == 'set') or (isinstance(a, SymIter) and isinstance(b, SymIter)):
            if isinstance(a, SymIter):
                a = self.set_from_iter(a)
            m = {'BitOr': 'union', 'BitAnd': 'intersection', 'Sub': 'difference', 'BitXor': 'symmetric_difference'}.get(op)
            if m:
                return self.call_method(a, m, [b], {})
        if op == 'Add' and isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if op == 'Add' and isinstance(a, str) and isinstance(b, str):
            return a + b
        if op == 'Add' and isinstance(a, (str, Opaque)) and isinstance(b, (str, Opaque)):
            return Opaque('fstring')
        if op == 'Mod' and isinstance(a, str):
            return Opaque('fstring')
        if op == 'Add' and ka in ('list', 'tuple') and kb in ('list', 'tuple'):
            if ka != kb:
                E.raise_('TypeError', 'can only concatenate')
            if isinstance(a, Cont) and isinstance(b, Cont):
                return E.new_cont('list', list(a.items) + list(b.items))
            if isinstance(a, tuple) and not a:
                return b
            if isinstance(b, tuple) and not b:
                return a
            r = self.construct(self.cls[list], [a], {})
            self.m_list_extend(r, E.norm(r), [b], {})
            return r
        if op == 'BitOr' and ka == 'dict' and kb == 'dict':
            r = self.dict_copy(a)
            self.m_dict_update(r, E.norm(r), [b], {})
            return r
        if op == 'Mult' and isinstance(b, int) and (isinstance(a, (tuple, str)) or isinstance(a, Cont) and a.kind == 'list' and a.v is None):
            return a * b if not isinstance(a, Cont) else E.new_cont('list', list(a.items) * b)
        if a is None or b is None:
            E.raise_('TypeError', 'unsupported operand')
        raise Unsupported(f'{op} on {a} and {b}')

    def arith(self, op, a, b):
        E = self.E
        if not isinstance(a, V) and not isinstance(b, V):
            if op == 'Add':
                return a + b
            if op == 'Sub':
                return a - b
            if op == 'Mult':
                return a * b
            if op in ('Div', 'FloorDiv', 'Mod') and b == 0:
                E.raise_('ZeroDivisionError')
            if op == 'Div':
                return Fraction(a) / Fraction(b)
            if op == 'FloorDiv':
                return a // b
            if op == 'Mod':
                return a % b
            if op == 'Pow' and isinstance(b, int):
                return Fraction(a) ** b if b < 0 else a ** b
            if op == 'BitAnd':
                return a & b
            if op == 'BitOr':
                return a | b
            raise Unsupported(op)
        sa, sb = E.sort_of(a), E.sort_of(b)
        if op in ('BitAnd', 'BitOr') and sa == sb == B:
            return E.mkbool((conj if op == 'BitAnd' else disj)([E.to_term(a), E.to_term(b)]))
        s = R if R in (sa, sb) or op == 'Div' else I
        x, y = E.to_term(a, s), E.to_term(b, s)
        if op == 'Add':
            return V(x + y)
        if op == 'Sub':
            return V(x - y)
        if op == 'Mult':
            return V(x * y)
        if op in ('Div', 'FloorDiv', 'Mod'):
            if E.branch(y == 0):
                E.raise_('ZeroDivisionError')
            if op == 'Div':
                return V(x / y)
            if s == I:
                # python: floor division, sign of the divisor; z3 div/mod: euclidean -> equal for y>0
                q = z3.If(y > 0, x / y, (0 - x) / (0 - y))
                if op == 'FloorDiv':
                    return V(q)
                return V(z3.If(y > 0, x % y, 0 - ((0 - x) % (0 - y))))
            if op == 'Mod':
                return V(x - y * z3.ToReal(z3.ToInt(x / y)))
            return V(z3.ToReal(z3.ToInt(x / y)))
        raise Unsupported(f'arith {op}')
