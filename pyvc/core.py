"""pyvc: symbolic executor / VC generator for the Python subset used by graph_scheduler.

Paths are explored by re-execution under a decision oracle; loops by (1) concrete unrolling, (2) an exact summary of
loops with independent iterations, (3) inductive invariants inferred (Houdini) from candidate templates.
"""
import ast
import builtins as pyb
import time
import z3
from fractions import Fraction
from .values import *
from . import values as VAL
from .solver import Solver


class PathEnd(Exception):
    pass


class NotPlain(Exception):
    """A decision, assumption or obligation where plain evaluation was asked for."""


class TrialFail(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, obj, where=''):
        self.obj, self.where = obj, where

    @property
    def cname(self):
        c = self.obj.cls
        return c.name


# ---------------------------------------------------------------- host values
class FuncVal:
    def __init__(self, node, mod, closure, qual, cls=None):
        self.node, self.mod, self.closure, self.qual, self.cls = node, mod, closure, qual, cls
        self.defaults, self.kwdefaults = [], {}
        self.attrs = {}
        self.is_gen = False

    @property
    def name(self):
        return getattr(self.node, 'name', '<lambda>')

    def __repr__(self):
        return f'<func {self.qual}>'


class AbstractFunc:
    """User supplied callable: `fn(E, args, kwargs)`; sig: list of (name, kind, has_default)."""
    def __init__(self, name, fn, sig=None):
        self.name, self.fn, self.sig = name, fn, sig
        self.attrs = {}


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __repr__(self):
        return f'<bound {self.func}>'


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f'<builtin {self.name}>'


class Partial:
    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class PropVal:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class StaticM:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class BuiltinClass:
    def __init__(self, py, name=None):
        self.py = py
        self.name = name or py.__name__
        self.mro = [self]

    def __repr__(self):
        return f'<bclass {self.name}>'


class ClassVal:
    def __init__(self, name, qual, mod, bases, ns):
        self.name, self.qual, self.mod, self.bases, self.ns = name, qual, mod, bases, ns
        self.mro = None
        self.members = None      # enum
        self.total_ordering = False

    def __repr__(self):
        return f'<class {self.name}>'


class EnumMember:
    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __repr__(self):
        return f'{self.cls.name}.{self.name}'


class ModVal:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<module {self.name}>'


class SuperVal:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class SymStar:
    def __init__(self, seq):
        self.seq = seq


class SymKw:
    """Keyword arguments given by a symbolic dictionary (under the key '**' of the keyword arguments of a call)."""
    def __init__(self, view):
        self.view = view


class GenVal:
    def __init__(self, node, frame, eng):
        self.node, self.frame = node, frame


class GenFn:
    """The generator a generator function returned: its body runs when it is consumed (once)."""
    def __init__(self, run):
        self.run, self.used = run, False


class IterVal:
    def __init__(self, it, where):
        self.it, self.where, self.used = it, where, False


class GenExit(Exception):
    """The consumer of a generator leaves its loop: passes through the body of the generator."""
    def __init__(self, exc):
        self.exc = exc


def is_generator(node):
    if not isinstance(node, ast.FunctionDef):
        return False
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))
    return False


class Slice:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Frame:
    def __init__(self, uid, func, mod, parent=None, kind='func'):
        self.uid, self.func, self.mod, self.parent, self.kind = uid, func, mod, parent, kind
        self.vars = {}
        self.localnames = None
        self.nonlocals = set()
        self.globals = set()


def liveness(fn, loop):
    """Names that may be read after the loop before they are assigned again; None if not known."""
    found = []

    def uses(*es):
        return {n.id for e in es if e is not None for n in ast.walk(e) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del))}

    def defs(*es):
        return {n.id for e in es for n in ast.walk(e) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}

    def seq(stmts, out, brk, cont, exc):
        for st in reversed(stmts):
            out = one(st, out, brk, cont, exc) | exc
        return out

    def one(st, out, brk, cont, exc):
        if st is loop:
            found.append(out | exc)
        if isinstance(st, (ast.For, ast.While)):
            after = seq(st.orelse, out, brk, cont, exc)
            head = uses(st.iter if isinstance(st, ast.For) else st.test) | after
            for _ in range(3):
                body = seq(st.body, head, out, head, exc)
                if isinstance(st, ast.For):
                    body = (body - defs(st.target)) | uses(st.target)
                head = head | body
            if st is loop:
                found.append(after | exc)
            return head
        if isinstance(st, ast.If):
            return uses(st.test) | seq(st.body, out, brk, cont, exc) | seq(st.orelse, out, brk, cont, exc)
        if isinstance(st, ast.With):
            return uses(*[i.context_expr for i in st.items]) | seq(st.body, out, brk, cont, exc)
        if isinstance(st, ast.Try):
            fin = seq(st.finalbody, out | exc | brk | cont, brk, cont, exc) if st.finalbody else None
            o = out if fin is None else fin
            k = (brk, cont) if fin is None else (fin, fin)
            hs = set()
            for h in st.handlers:
                hs |= seq(h.body, o, *k, exc if fin is None else fin) | uses(h.type)
            els = seq(st.orelse, o, *k, exc if fin is None else fin)
            return seq(st.body, els, *k, hs | (exc if fin is None else fin)) | hs
        if isinstance(st, (ast.Return, ast.Raise)):
            return uses(*ast.iter_child_nodes(st))
        if isinstance(st, ast.Break):
            return set(brk)
        if isinstance(st, ast.Continue):
            return set(cont)
        if isinstance(st, ast.AugAssign):
            return out | uses(st.value, st.target) | defs(st.target)
        if isinstance(st, ast.Assign):
            return (out - defs(*[t for t in st.targets])) | uses(st.value, *st.targets)
        if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Match)) or any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(st)):
            return out | uses(st)
        return out | uses(st)

    try:
        seq(fn.body, set(), set(), set(), set())
    except Exception:
        return None
    if not found:
        return None
    return set().union(*found)


class Recorder:
    def __init__(self, uid):
        self.uid = uid
        self.writes, self.reads, self.lw, self.lreads = [], [], {}, set()
        self.hostw = []


class LoopInfo:
    def __init__(self):
        self.roots = {}      # (root uid, prefix) -> list of allowed prefix terms (common pattern)
        self.locals = {}     # (frame uid, name) -> kind
        self.conts = {}      # cont uid -> typ
        self.attrs = {}      # (obj uid, attr) -> kind
        self.dropped = set()
        self.start = None


class Obligation:
    def __init__(self, name):
        self.name, self.n, self.ok, self.fails, self.unknown, self.backend = name, 0, 0, [], [], {}


def mro_of(cls):
    seqs = [list(b.mro) for b in cls.bases] + [list(cls.bases)]
    res = [cls]
    seqs = [s for s in seqs if s]
    while seqs:
        for s in seqs:
            c = s[0]
            if not any(c in t[1:] for t in seqs):
                break
        else:
            raise Unsupported('mro')
        res.append(c)
        seqs = [[x for x in s if x is not c] for s in seqs]
        seqs = [s for s in seqs if s]
    return res


def assigned_names(node):
    """Local names of a function body (not descending into nested functions)."""
    out, nonl, glob = set(), set(), set()

    def tgt(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def go(n):
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                out.add(ch.name)
                continue
            if isinstance(ch, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for w in ast.walk(ch):
                    if isinstance(w, ast.NamedExpr):
                        tgt(w.target)
                continue
            if isinstance(ch, ast.Assign):
                for t in ch.targets:
                    tgt(t)
            elif isinstance(ch, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)):
                tgt(ch.target)
            elif isinstance(ch, ast.For):
                tgt(ch.target)
            elif isinstance(ch, ast.ExceptHandler) and ch.name:
                out.add(ch.name)
            elif isinstance(ch, (ast.Import, ast.ImportFrom)):
                for a in ch.names:
                    out.add((a.asname or a.name).split('.')[0])
            elif isinstance(ch, ast.Nonlocal):
                nonl.update(ch.names)
            elif isinstance(ch, ast.Global):
                glob.update(ch.names)
            elif isinstance(ch, ast.With):
                for it in ch.items:
                    if it.optional_vars is not None:
                        tgt(it.optional_vars)
            elif isinstance(ch, ast.Delete):
                for t in ch.targets:
                    tgt(t)
            go(ch)
    if isinstance(node, ast.Lambda):
        go(ast.Expression(node.body))
    else:
        for st in node.body:
            go(ast.Module([st], []))
    return out - nonl - glob, nonl, glob


MAXPATHS = 6000


class Engine:
    def __init__(self, mods, solver=None, task='task', deadline=None):
        self.mods = mods
        self.solver = solver or Solver()
        self.task = task
        self.deadline = deadline
        self.contracts = {}
        self.hooks = {}
        self.axioms_fns = []
        self.inv_pool = []
        self.loopinfo = {}
        self.hints = None
        self.obligs = {}
        self.covers = {}
        self.paths = 0
        self.funcs_seen = set()
        self.contract_used = set()
        self.assumptions = set()
        self.modvals = {}
        self._static_cache = {}
        self.str_consts = {}
        self.boxed = {}
        self.dirty = False
        self.names_cache = {}
        self.presym = {}
        from . import pybuiltins
        self.B = pybuiltins.make(self)
        self._uid_static = -1

    # ------------------------------------------------------------ exploration
    def reset_path(self):
        self.uidc = 0
        self.counter = 0
        self.pc, self.pck = [], []
        self.trail = []
        self.recorders = []
        self.loopstack = []
        self.trial_depth = 0
        self.bound = []
        self.callstack = []
        self.frames = []
        self.conts = {}
        self.cells = {}
        self.cellc = 0
        self.cur_line = ''
        self.inexact = ''
        self.global_state = {}
        self.rootreg = {}
        self.objreg = {}
        self.modvals = {}
        reset_q()

    def run(self, fn, setup=None):
        """Explore all paths of fn(E), restarting until inferred loop information is stable."""
        self.proving = True
        for rnd in range(2000):
            self.dirty = False
            after = 0
            self.obligs, self.covers = {}, {}
            self.paths = 0
            work = [[]]
            while work:
                prefix = work.pop()
                self.reset_path()
                self.dec, self.pos, self.work = list(prefix), 0, work
                self.paths += 1
                if self.dirty:
                    # invariants changed: a few more paths to find further ones to drop, then start over
                    after += 1
                    if after > 6:
                        break
                if self.paths > MAXPATHS:
                    raise Unsupported('too many paths')
                if self.deadline and time.time() > self.deadline:
                    raise Unsupported('time budget of the verifier used up')
                try:
                    fn(self)
                except PathEnd:
                    pass
                except (ReturnEx, BreakEx, ContinueEx):
                    raise
                except PyRaise as e:
                    try:
                        self.fail(f'no uncaught {e.cname}', f'{e.where}: {self.exc_text(e)}')
                    except PathEnd:
                        pass
                except TrialFail as e:
                    raise Unsupported(f'trial: {e}')
            if not self.dirty:
                if self.proving:
                    break
                self.proving = True
        else:
            raise Unsupported('invariant inference did not converge')
        for n, r in self.covers.items():
            if not r:
                self.oblig('cover: ' + n).fails.append('precondition or scenario unreachable (vacuous contract)')
                self.oblig('cover: ' + n).n += 1
            else:
                o = self.oblig('cover: ' + n)
                o.n += 1
                o.ok += 1
        return self

    def exc_text(self, e):
        try:
            return repr(e.obj.attrs.get('args'))[:200]
        except Exception:
            return ''

    def uid(self):
        self.uidc += 1
        return self.uidc

    def declare_cover(self, name):
        self.covers.setdefault(name, False)

    def cover(self, name):
        if not self.covers.get(name):
            r = self.solver.check(self.base() + self.pc, timeout=4000)
            self.covers[name] = r != 'unsat'

    def fresh(self, sort, name='f'):
        self.counter += 1
        nm = f'{name}!{self.counter}'
        if self.bound:
            f = z3.Function(nm, *[b.sort() for b in self.bound], sort)
            return f(*self.bound)
        return z3.Const(nm, sort)

    def fresh_fn(self, sorts, out, name='g'):
        """Fresh closure over index sorts."""
        self.counter += 1
        nm = f'{name}!{self.counter}'
        bs = list(self.bound)
        if not bs and not sorts:
            c = z3.Const(nm, out)
            return lambda: c
        f = z3.Function(nm, *[b.sort() for b in bs], *sorts, out)
        return lambda *i: f(*bs, *i)

    def base(self):
        ax = list(self.global_axioms())
        return ax

    def global_axioms(self):
        ks = list(self.str_consts.values())
        if len(ks) > 1:
            yield z3.Distinct(*ks)
        for nm, r in self.cells.items() if self.hooks.get('cell_axioms') else ():
            # references of different sets are different
            yield self.cell_axiom(nm, r)
        for st in self.boxed.values():
            # boxed numbers are different values, and different from strings, None and enumeration members
            box, unbox = z3.Function(f'box_{st}', st, Val), z3.Function(f'unbox_{st}', Val, st)
            yield forall([st], lambda i: z3.And(unbox(box(i)) == i, *[box(i) != k for k in ks]))

    def cell_axiom(self, nm, r):
        f = r.cellf
        ss = [f.domain(i) for i in range(f.arity())]
        no = z3.Function('set number', SetR, I)
        return forall(ss, lambda *q: conj([no(f(*q)) == r.cellno] + [z3.Function(f'{nm} key {i}', SetR, s)(f(*q)) == x for i, (s, x) in enumerate(zip(ss, q))]))

    def kconst(self, key):
        """Val constant for a concrete hashable host value."""
        c = self.str_consts.get(key)
        if c is None:
            c = z3.Const(f'k:{key!r}', Val)
            self.str_consts[key] = c
        return c

    def feasible(self, extra):
        r = self.solver.check(self.base() + self.pc + extra, timeout=1500, allow_cvc5=False, quick=True)
        return r != 'unsat'

    def branch(self, t, label=''):
        if t is True or t is False:
            return t
        if isinstance(t, V):
            t = t.t
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if self.plain:
            raise NotPlain()
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
            self.pos += 1
        else:
            ct = self.feasible([t])
            cf = self.feasible([neg(t)]) if ct else True
            if ct and cf:
                self.work.append(self.dec[:self.pos] + [False])
                d = True
            elif ct:
                d = 'T'
            else:
                d = 'F'
                if not self.feasible([]):
                    raise PathEnd()
            self.dec.append(d)
            self.pos += 1
        # decisions that follow from what is known ('T', 'F') are lemmas, not conditions of the path
        forced, d = d in ('T', 'F'), d in (True, 'T')
        self.pc.append(t if d else neg(t))
        self.pck.append('i' if forced else 'b')
        return d

    def choose(self, n, label=''):
        if n == 1:
            return 0
        if self.plain:
            raise NotPlain()
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
            self.pos += 1
            return d
        for k in range(1, n):
            self.work.append(self.dec[:self.pos] + [k])
        self.dec.append(0)
        self.pos += 1
        return 0

    def pick(self, options):
        options = list(options)
        return options[self.choose(len(options))]

    plain = False

    def assume(self, f, keep=True):
        if f is True:
            return
        if self.plain:
            raise NotPlain()
        if isinstance(f, V):
            f = f.t
        if f is False or z3.is_false(f):
            raise PathEnd()
        if z3.is_true(f):
            return
        self.pc.append(f)
        self.pck.append('a' if keep else 'i')

    def oblig(self, name):
        o = self.obligs.get(name)
        if o is None:
            o = self.obligs[name] = Obligation(name)
        return o

    def fail(self, name, why=''):
        """Reached a point that must be unreachable."""
        r = self.solver.check(self.base() + self.pc, want_model=True)
        o = self.oblig(name)
        o.n += 1
        if r == 'unsat':
            o.ok += 1
        else:
            (o.fails if r == 'sat' else o.unknown).append(dict(where=self.cur_line, why=why, model=self.solver.last_model, inexact=self.inexact))
        raise PathEnd()

    def prove(self, name, f, why='', keep=True):
        """keep: what is proved of one iteration is remembered of all."""
        if self.plain:
            raise NotPlain()
        if isinstance(f, V):
            f = f.t
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        o = self.oblig(name)
        o.n += 1
        if not self.proving:
            # invariants are still being inferred: this exploration is repeated
            if z3.is_false(f):
                raise PathEnd()
            self.assume(f, keep)
            return True
        if z3.is_true(f):
            o.ok += 1
            o.backend['syntactic'] = o.backend.get('syntactic', 0) + 1
            return True
        r = self.solver.check(self.base() + self.pc + [neg(f)], want_model=True)
        b = self.solver.last_backend
        if r == 'unsat':
            o.ok += 1
            o.backend[b] = o.backend.get(b, 0) + 1
            self.assume(f, keep) if not z3.is_false(f) else None
            if z3.is_false(f):
                raise PathEnd()
            return True
        (o.fails if r == 'sat' else o.unknown).append(
            dict(where=self.cur_line, why=why or str(f)[:600], model=self.solver.last_model, inexact=self.inexact))
        if z3.is_false(f):
            raise PathEnd()
        self.assume(f, keep)
        return False

    def holds(self, f, timeout=3000, quick=False):
        if z3.is_true(f):
            return True
        return self.solver.check(self.base() + self.pc + [neg(f)], timeout=timeout, quick=quick, allow_cvc5=not quick) == 'unsat'

    # ------------------------------------------------------------ recording of effects
    def note_read(self, root, prefix, idx):
        for r in self.recorders:
            if root.uid <= r.uid:
                r.reads.append((root, prefix, tuple(idx), len(self.pc)))

    def write_leaf(self, root, prefix, idxpat, fn, record=True):
        if root.frozen == 'shared':
            raise Unsupported('write to a container shared by a shallow copy')
        if root.frozen:
            self.fail(f'frame: {root.name} is not modified', f'write to {prefix}')
        old = root.leaves[prefix]
        m = len(idxpat)
        idxpat = tuple(idxpat)

        def new(*i):
            c = conj([eqt(a, b) for a, b in zip(i, idxpat)])
            if z3.is_true(c):
                return fn(*i[m:])
            if z3.is_false(c):
                return old(*i)
            return ite(c, fn(*i[m:]), old(*i))
        self.trail.append(lambda: root.leaves.__setitem__(prefix, old))
        root.leaves[prefix] = new
        wc = self.hooks.get('write')
        if wc:
            wc(self, root, prefix, idxpat)
        for r in self.recorders if record else ():
            if root.uid <= r.uid:
                r.writes.append((root, prefix, idxpat, fn, (), z3.BoolVal(True)))
        for lf in self.loopstack:
            if root.uid <= lf['uid']:
                self.loop_note_root(lf, root, prefix, idxpat)
        # the content of an older container, represented symbolically since
        h = root.holder
        if h is not None:
            self.host_write(h, root.typ, lambda: None, root.uid)

    def set_leaf_all(self, root, prefix, closure):
        self.write_leaf(root, prefix, (), closure)

    def loop_note_root(self, lf, root, prefix, idxpat):
        info, inv = lf['info'], []
        for t in idxpat:
            if self.const_counter(t) <= lf['counter']:
                inv.append(t)
            else:
                break
        key = (root.uid, prefix)
        cur = info.roots.get(key)
        if cur is None:
            info.roots[key] = tuple(inv)
            self.dirty = True
            return
        k = 0
        while k < len(cur) and k < len(inv) and cur[k].eq(inv[k]):
            k += 1
        if k < len(cur):
            info.roots[key] = cur[:k]
            self.dirty = True

    def const_counter(self, t):
        """Largest fresh-name counter in term t."""
        best, seen, st = 0, set(), [t]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                n = x.decl().name()
                if '!' in n:
                    try:
                        best = max(best, int(n.rsplit('!', 1)[1]))
                    except ValueError:
                        pass
                st.extend(x.children())
            elif z3.is_quantifier(x):
                st.append(x.body())
        return best

    def kind_of(self, v):
        if isinstance(v, V):
            return str(v.t.sort()) if v.cls is None else 'Ref:' + getattr(v.cls, 'name', str(v.cls))
        if isinstance(v, bool):
            return 'Bool'
        if isinstance(v, int):
            return 'Int'
        if v is None:
            return 'None'
        if isinstance(v, str):
            return 'Val'
        if isinstance(v, (Cont, View)):
            v = self.norm(v)
            if isinstance(v, View) and isinstance(v.typ, TList) and isinstance(v.typ.e, TS):
                return f'List:{v.typ.e.sort}:{v.typ.kind}:{getattr(v.typ.e.cls, "name", v.typ.e.cls)}'
        return 'obj'

    def note_local(self, frame, name, v):
        for r in self.recorders:
            if frame.uid <= r.uid:
                r.lw.setdefault((frame.uid, name), []).append((frame, v))
        for lf in self.loopstack:
            if frame.uid <= lf['uid']:
                k = self.kind_of(v)
                key = (frame.uid, name)
                cur = lf['info'].locals.get(key)
                if cur is None:
                    lf['info'].locals[key] = k
                    self.dirty = True
                elif cur != k and cur != 'obj':
                    lf['info'].locals[key] = 'obj'
                    self.dirty = True

    def set_local(self, frame, name, v):
        had, old = name in frame.vars, frame.vars.get(name)

        def undo():
            if had:
                frame.vars[name] = old
            else:
                frame.vars.pop(name, None)
        self.trail.append(undo)
        frame.vars[name] = v
        self.note_local(frame, name, v)

    def host_write(self, obj, what, undo, but=None):
        """Mutation of a concrete host object (not seen otherwise: but = its content is as old)."""
        self.trail.append(undo)
        for r in self.recorders:
            if obj.uid <= r.uid and (but is None or but > r.uid):
                r.hostw.append((obj, what))
        for lf in self.loopstack:
            if obj.uid <= lf['uid'] and (but is None or but > lf['uid']):
                if isinstance(obj, Cont):
                    key = obj.uid
                    if key not in lf['info'].conts:
                        lf['info'].conts[key] = what
                        self.dirty = True
                    elif what is not None and lf['info'].conts[key] is None:
                        lf['info'].conts[key] = what
                        self.dirty = True
                else:
                    key = (obj.uid, what[0])
                    k = what[1]
                    cur = lf['info'].attrs.get(key)
                    if cur is None:
                        lf['info'].attrs[key] = k
                        self.dirty = True
                    elif cur != k and cur != 'obj':
                        lf['info'].attrs[key] = 'obj'
                        self.dirty = True

    def undo_to(self, mark):
        while len(self.trail) > mark:
            self.trail.pop()()

    # ------------------------------------------------------------ storage
    def new_root(self, typ, name='r', leaves=None):
        r = self.mkroot(typ, {}, name)
        for p, i, o in leafspecs(typ):
            if leaves and p in leaves:
                r.leaves[p] = leaves[p]
            else:
                r.leaves[p] = self.fresh_fn(i, o, f'{name}{"." + ".".join(map(self.keyname, p)) if p else ""}')
        return r

    def mkroot(self, typ, leaves, name):
        r = Root(self.uid(), typ, leaves, name)
        self.rootreg[r.uid] = r
        return r

    def keyname(self, k):
        return k.name if isinstance(k, EnumMember) else str(k)

    def view(self, root):
        return View(root, root.typ)

    def sym(self, typ, name):
        """A fresh symbolic value of the given type."""
        if isinstance(typ, TS):
            return V(self.fresh(typ.sort, name), typ.cls)
        return self.view(self.new_root(typ, name))

    def load(self, root, typ, prefix, idx, parent=None):
        if isinstance(typ, TS):
            self.note_read(root, prefix, idx)
            return V(root.leaves[prefix](*idx), typ.cls)
        if isinstance(typ, TConst):
            return typ.v
        if isinstance(typ, TPoison):
            return POISON
        if isinstance(typ, TParent):
            return parent.parent.parent if parent is not None and parent.parent is not None else None
        if isinstance(typ, TOr):
            self.note_read(root, prefix + ('tag',), idx)
            t, p = (typ.many, 'many') if self.branch(root.leaves[prefix + ('tag',)](*idx)) else (typ.one, 'one')
            return self.load(root, t, prefix + (p,), idx, parent)
        return View(root, typ, prefix, idx, parent)

    def sub(self, v, step, key=None):
        t = v.typ
        if isinstance(t, TDict):
            return self.load(v.root, t.v, v.prefix + ('v',), v.idx + (key,), v)
        if isinstance(t, TList):
            return self.load(v.root, t.e, v.prefix + ('e',), v.idx + (key,), v)
        if isinstance(t, TFix):
            return self.load(v.root, t.items[step], v.prefix + (step,), v.idx, v)
        if isinstance(t, TObj):
            return self.load(v.root, t.fields[step], v.prefix + (step,), v.idx, v)
        raise Unsupported(f'sub {t}')

    def leaf(self, v, *name):
        """Closure for leaf `name` of view v, partially applied to v's index; logs a bulk read."""
        p = v.prefix + tuple(name)
        f = v.root.leaves[p]
        idx = v.idx
        self.note_read(v.root, p, idx)
        return lambda *i: f(*idx, *i)

    def leaf_at(self, v, name, *i):
        p = v.prefix + ((name,) if not isinstance(name, tuple) else name)
        ii = v.idx + tuple(i)
        self.note_read(v.root, p, ii)
        return v.root.leaves[p](*ii)

    def put_leaf(self, v, name, idx, term):
        p = v.prefix + ((name,) if not isinstance(name, tuple) else name)
        self.write_leaf(v.root, p, v.idx + tuple(idx), lambda: term)

    def norm(self, v):
        """Host container whose content is symbolic -> its View."""
        if isinstance(v, (Cont, Obj)) and v.v is not None:
            return v.v
        if isinstance(v, V) and v.t.sort() == SetR:
            return self.resolve(v.t)
        return v

    def sort_of(self, v):
        if isinstance(v, V):
            return v.t.sort()
        if isinstance(v, bool):
            return B
        if isinstance(v, int):
            return I
        if isinstance(v, (float, Fraction)):
            return R
        if v is None or isinstance(v, (str, NotImpl, EnumMember, tuple, FuncVal, ClassVal)):
            return Val
        if isinstance(v, Obj) and self.by_identity(v):
            return Val
        raise Unsupported(f'no sort for {v}')

    def by_identity(self, v):
        """Objects compared and hashed by identity."""
        return isinstance(v.cls, (ClassVal, BuiltinClass)) and v.cls.name in self.hooks.get('identity', ()) and not (
            isinstance(v.cls, ClassVal) and (self.class_lookup(v.cls, '__eq__') is not None or self.class_lookup(v.cls, '__hash__') is not None))

    def type_of(self, v):
        if isinstance(v, V):
            return TS(v.t.sort(), v.cls)
        v = self.norm(v)
        if isinstance(v, View) and isinstance(v.typ, TSet) and self.hooks.get('heap'):
            return TS(SetR)
        if isinstance(v, View):
            return v.typ
        if isinstance(v, V):
            return TS(v.t.sort(), v.cls)
        if isinstance(v, Cont):
            if v.kind == 'set':
                return TSet(self.sort_of(v.items[0]) if v.items else Val, ident=self.hooks.get('set_ident', False))
            if v.kind in ('list', 'tuple'):
                return TList(self.type_of(v.items[0]) if v.items else TPoison())
            if v.kind == 'dict':
                if v.items and all(isinstance(k, EnumMember) for k, _ in v.items):
                    return TFix({k: self.type_of(x) for k, x in v.items})
                if not v.items:
                    return TDict(Val, TPoison())
                return TDict(self.sort_of(v.items[0][0]), self.type_of(v.items[0][1]))
        if isinstance(v, Obj):
            return TObj(v.cls, {k: self.type_of(x) for k, x in v.attrs.items()})
        if isinstance(v, (bool, int, float, Fraction)) or v is None or isinstance(v, (str, NotImpl)):
            return TS(self.sort_of(v))
        return TConst(v)

    def to_term(self, v, sort=None):
        if isinstance(v, V):
            t = v.t
            if sort is None or t.sort() == sort:
                return t
            if sort == R and t.sort() == I:
                return z3.ToReal(t)
            if sort == I and t.sort() == B:
                return z3.If(t, z3.IntVal(1), z3.IntVal(0))
            if sort == Val and t.sort() in (I, B):
                return self.boxf(t.sort())(t)
            raise Unsupported(f'coerce {t.sort()} to {sort}')
        if isinstance(v, bool):
            if sort == B or sort is None:
                return z3.BoolVal(v)
            if sort == I:
                return z3.IntVal(int(v))
        if isinstance(v, int) and not isinstance(v, bool):
            if sort in (None, I):
                return z3.IntVal(v)
            if sort == R:
                return z3.RealVal(v)
            if sort == Val:
                return self.boxf(I)(z3.IntVal(v))
        if isinstance(v, (float, Fraction)):
            return z3.RealVal(str(Fraction(v)))
        if sort in (None, Val):
            if v is None or isinstance(v, str):
                return self.kconst(v)
            if isinstance(v, NotImpl):
                return self.kconst('<NotImplemented>')
            if isinstance(v, EnumMember):
                return self.kconst(('enum', v.cls.name, v.name))
        if isinstance(v, Obj) and sort in (None, Val) and self.by_identity(v):
            return self.kconst(('object', v.uid))
        if isinstance(v, tuple) and sort == Val:
            f = z3.Function(f'tuple{len(v)}', *([Val] * len(v)), Val)
            return f(*[self.to_term(x, Val) for x in v])
        if sort == SetR:
            return self.set_ref(v)
        raise Unsupported(f'to_term {v} {sort}')

    def boxf(self, s):
        self.boxed[str(s)] = s
        return z3.Function(f'box_{s}', s, Val)

    def leaves_of(self, value, typ, dest=None, chain=()):
        """{prefix: closure} content of `value` seen at type typ."""
        if isinstance(value, V) and value.t.sort() == SetR and isinstance(typ, TSet):
            return {('mem',): self.ref_mem(value.t)}
        if not (isinstance(typ, TS) and typ.sort == SetR):
            value = self.norm(value)
        if isinstance(typ, TS):
            if value is POISON or isinstance(value, Opaque):
                raise Unsupported('storing an unknown value')
            t = self.to_term(value, typ.sort)
            return {(): lambda: t}
        if isinstance(typ, TConst):
            if value is not typ.v:
                raise Unsupported(f'field expected constant {typ.v}, got {value}')
            return {}
        if isinstance(typ, TPoison):
            return {}
        if isinstance(typ, TParent):
            return {}
        if isinstance(typ, TOr):
            many = isinstance(value, Cont) or (isinstance(value, View) and not isinstance(value.typ, TOr))
            if not isinstance(value, View) or many:
                t, p0 = (typ.many, 'many') if many else (typ.one, 'one')
                out = {(p0,) + p: f for p, f in self.leaves_of(value, t, dest, chain).items()}
                for p, i, o in leafspecs(typ):
                    out.setdefault(p, self.junkf(o))
                out[('tag',)] = lambda: z3.BoolVal(many)
                return out
        if isinstance(value, View):
            if isinstance(value.typ, (TDict, TList)) and type(typ) is type(value.typ) and isinstance(getattr(typ, 'v', getattr(typ, 'e', None)), TSet):
                n = 'v' if isinstance(typ, TDict) else 'e'
                el = value.typ.v if n == 'v' else value.typ.e
                if isinstance(el, TS) and el.sort == SetR:
                    r = self.leaf(value, n)
                    h = 'dom' if n == 'v' else 'len'
                    return {(h,): self.leaf(value, h), (n, 'mem'): lambda k, x: self.ref_mem(r(k))(x)}
            if not self.same_type(value.typ, typ):
                raise Unsupported(f'type mismatch storing {value.typ} as {typ}')
            out = {}
            for p, i, o in leafspecs(typ):
                if p in (('id',),) and value.prefix + p not in value.root.leaves:
                    raise Unsupported('set identity')
                out[p] = self.leaf(value, *p)
            return out
        if isinstance(value, Cont):
            items = value.items
            if isinstance(typ, TSet) and value.kind in ('set', 'frozenset'):
                ts = [self.to_term(x, typ.sort) for x in items]
                out = {('mem',): lambda x: disj([eqt(x, t) for t in ts])}
                if typ.ident:
                    idt = self.ident_of(value)
                    out[('id',)] = lambda: idt
                return out
            if isinstance(typ, TBag) and value.kind == 'list':
                return {('some',): lambda n=bool(items): z3.BoolVal(n)}
            if isinstance(typ, TList) and value.kind in ('list', 'tuple'):
                subs = [self.leaves_of(x, typ.e, dest, chain + (value,)) for x in items]
                out = {('len',): lambda n=len(items): z3.IntVal(n)}
                for p, i, o in leafspecs(typ.e):
                    def f(k, *rest, p=p, o=o):
                        r = subs[-1][p](*rest) if subs else self.junk(o)
                        for j in range(len(subs) - 2, -1, -1):
                            r = ite(eqt(k, z3.IntVal(j)), subs[j][p](*rest), r)
                        return r
                    out[('e',) + p] = f
                return out
            if isinstance(typ, TFix) and value.kind == 'dict':
                out = {}
                d = {k: x for k, x in items}
                if set(d) != set(typ.items):
                    raise Unsupported('dict with other keys')
                for k, s in typ.items.items():
                    for p, f in self.leaves_of(d[k], s, dest, chain + (value,)).items():
                        out[(k,) + p] = f
                return out
            if isinstance(typ, TDict) and value.kind == 'dict':
                ks = [self.to_term(k, typ.ksort) for k, _ in items]
                subs = [self.leaves_of(x, typ.v, dest, chain + (value,)) for _, x in items]
                out = {('dom',): lambda x: disj([eqt(x, k) for k in ks])}
                for p, i, o in leafspecs(typ.v):
                    def f(k, *rest, p=p, o=o):
                        r = subs[-1][p](*rest) if subs else self.junk(o)
                        for j in range(len(subs) - 2, -1, -1):
                            r = ite(eqt(k, ks[j]), subs[j][p](*rest), r)
                        return r
                    out[('v',) + p] = f
                return out
        if isinstance(value, Obj) and isinstance(typ, TObj):
            out = {}
            for k, s in typ.fields.items():
                if k not in value.attrs:
                    raise Unsupported(f'object without field {k}')
                if isinstance(s, TParent):
                    self.check_parent(value.attrs[k], dest, chain)
                for p, f in self.leaves_of(value.attrs[k], s, dest, chain + (value,)).items():
                    out[(k,) + p] = f
            extra = set(value.attrs) - set(typ.fields)
            if extra:
                raise Unsupported(f'object with extra fields {extra}')
            return out
        raise Unsupported(f'leaves_of {value} as {typ}')

    def check_parent(self, pv, dest, chain):
        """A stored object's back pointer must be the object owning the list it is stored in."""
        name = 'ownership: the parent of a stored object is the object holding it'
        if len(chain) >= 2:
            self.prove(name, chain[-2] is pv or self.norm(chain[-2]) is self.norm(pv))
            return
        if dest is None or len(chain) == 1:
            # inside a detached list: owner unknown
            raise Unsupported('parent of an object in a detached list')
        root, prefix, idx = dest
        if len(prefix) < 2:
            raise Unsupported('parent of an object in a root list')
        self.prove(name, self.same_loc(pv, View(root, None, prefix[:-2], idx[:-1])))

    def junk(self, sort):
        return z3.Const(f'junk_{sort}', sort)

    def junkf(self, o):
        return lambda *i: self.junk(o)

    def ident_of(self, cont):
        raise Unsupported('set identity of host set')

    def same_type(self, a, b):
        if type(a) is not type(b):
            return False
        if isinstance(a, TS):
            return a.sort == b.sort
        if isinstance(a, TSet):
            return a.sort == b.sort
        if isinstance(a, TDict):
            return a.ksort == b.ksort and self.same_type(a.v, b.v)
        if isinstance(a, TOr):
            return self.same_type(a.one, b.one) and self.same_type(a.many, b.many)
        if isinstance(a, TList):
            return isinstance(a.e, TPoison) or isinstance(b.e, TPoison) or self.same_type(a.e, b.e)
        if isinstance(a, TFix):
            return set(a.items) == set(b.items) and all(self.same_type(a.items[k], b.items[k]) for k in a.items)
        if isinstance(a, TObj):
            return set(a.fields) == set(b.fields) and all(self.same_type(a.fields[k], b.fields[k]) for k in a.fields)
        return True

    def same_loc(self, a, b):
        a, b = self.norm(a), self.norm(b)
        if isinstance(a, View) and isinstance(b, View):
            if a.root is not b.root or a.prefix != b.prefix:
                return z3.BoolVal(False)
            return conj([eqt(x, y) for x, y in zip(a.idx, b.idx)])
        return z3.BoolVal(a is b)

    def store(self, dest, value, typ):
        """Store value into location dest=(root,prefix,idx) of type typ, transferring ownership."""
        root, prefix, idx = dest
        if not isinstance(typ, (TS, TConst, TPoison, TParent)):
            nv = value
            if isinstance(nv, (Cont, Obj)) and nv.v is not None:
                if nv.owned or len(nv.v.idx) or nv.v.prefix:
                    self.alias(nv, dest)
                # own root: ownership moves
            elif isinstance(nv, View):
                if nv.root is root and nv.prefix == prefix and all(a.eq(b) for a, b in zip(nv.idx, idx)):
                    return
                self.alias(nv, dest)
        lv = self.leaves_of(value, typ, dest)
        for p, f in lv.items():
            self.write_leaf(root, prefix + p, idx, f)
        if isinstance(value, (Cont, Obj)) and not isinstance(typ, (TS, TConst, TPoison, TParent)):
            oldv, oldo = value.v, value.owned
            self.trail.append(lambda: (setattr(value, 'v', oldv), setattr(value, 'owned', oldo)))
            value.v = View(root, typ, prefix, idx) if not isinstance(typ, TOr) else View(root, typ.many, prefix + ('many',), idx)
            value.owned = True

    def alias(self, v, dest):
        h = self.hooks.get('alias')
        if h:
            return h(self, v, dest)
        self.fail('ownership: stored containers and objects are not shared with another owner',
                  f'{v} stored at {dest[0].name}{dest[1]}')

    # making a concrete host container symbolic
    def symbolize(self, cont, typ=None):
        if cont.v is not None:
            return cont.v
        t = typ or self.type_of(cont)
        if isinstance(t, TList) and isinstance(t.e, TPoison) and typ is not None:
            t = typ
        lv = self.leaves_of(cont, t)
        r = self.mkroot(t, lv, f'c{cont.uid}')
        old = cont.v
        self.trail.append(lambda: setattr(cont, 'v', old))
        cont.v = View(r, t)
        r.holder = cont
        return cont.v

    def new_cont(self, kind, items=None, v=None, cls=None):
        c = Cont(self.uid(), kind, items, v, cls)
        self.conts[c.uid] = c
        if kind == 'set' and self.hooks.get('heap'):
            if c.v is None:
                try:
                    ts = [self.to_term(x, Val) for x in c.items]
                except Unsupported:
                    return c
                c.v = View(self.mkroot(TSet(Val), {('mem',): lambda x: disj([eqt(x, t) for t in ts])}, 'set'), TSet(Val))
            if c.v.root.cellf is None and c.v.prefix == ():
                self.new_cell(c.v.root)
        return c

    def new_sym(self, kind, typ, leaves, name='n'):
        r = self.mkroot(typ, dict(leaves), name)
        return self.new_cont(kind, v=View(r, typ))

    def new_obj(self, cls, attrs=None):
        o = Obj(self.uid(), cls, attrs)
        self.objreg[o.uid] = o
        return o

    # ------------------------------------------------------------ names and modules
    def module_get(self, mod, name):
        if name in mod.cache:
            return mod.cache[name]
        if (mod.name, name) in self.modvals:
            return self.modvals[mod.name, name]
        d = mod.defs.get(name)
        if d is None:
            return None
        v = self.eval_def(mod, name, d)
        if isinstance(d, (ast.FunctionDef, ast.ClassDef)) or isinstance(v, (FuncVal, ClassVal, ModVal, Builtin, BuiltinClass, str, int)) or v is None:
            mod.cache[name] = v
        else:
            self.modvals[mod.name, name] = v
        return v

    def eval_def(self, mod, name, d):
        if isinstance(d, tuple):
            if d[0] == 'import':
                return self.get_mod(d[1])
            src = d[1]
            if src in self.mods:
                if src == 'graph_scheduler' and d[2] == '_unit_registry':
                    return ModVal('_unit_registry')
                v = self.module_get(self.mods[src], d[2])
                if v is None:
                    raise Unsupported(f'import {d}')
                return v
            return self.ext_attr(src, d[2])
        fr = Frame(0, None, mod, None, 'module')
        ov = self.hooks.get('globals', {}).get(mod.name.split('.')[-1] + '.' + name)
        if ov is not None:
            return ov(self)
        saved = (self.recorders, self.loopstack)
        self.recorders, self.loopstack = [], []
        try:
            if isinstance(d, ast.FunctionDef):
                return self.make_func(d, fr, mod.name.split('.')[-1] + '.' + d.name)
            if isinstance(d, ast.ClassDef):
                return self.make_class(d, fr, mod.name.split('.')[-1])
            v = d.value
            if name == 'logger' or (isinstance(v, ast.Call) and ast.unparse(v.func).startswith('logging.')):
                return ModVal('logger')
            return self.eval(v, fr)
        finally:
            self.recorders, self.loopstack = saved

    def get_mod(self, name):
        if name in self.mods:
            return ModVal(name)
        return ModVal(name)

    def ext_attr(self, mod, name):
        full = f'{mod}.{name}'
        for k in (full, full.replace('numpy.', 'np.').replace('networkx.', 'nx.')):
            if k in self.B.ext:
                return self.B.ext[k]
        if (mod, name) == ('collections', 'abc'):
            return ModVal('collections.abc')
        if name[:1].isupper() or mod in ('typing',):
            c = BuiltinClass(type(name, (), {}), full)
            self.B.ext[full] = c
            return c
        if mod in ('networkx', 'nx', 'numpy', 'np', 'enum', 'pint', 'nx.drawing', 'pint.errors', 'inspect') and name in ('drawing', 'errors', 'Parameter'):
            return ModVal(full)
        return Builtin(full, None)

    def prefetch_classes(self):
        for m in self.mods.values():
            for n, d in m.defs.items():
                if isinstance(d, ast.ClassDef):
                    self.module_get(m, n)

    def cls(self, short):
        """'time.Clock' -> ClassVal"""
        m, n = short.split('.')
        return self.module_get(self.mods['graph_scheduler.' + m], n)

    def fn(self, short):
        parts = short.split('.')
        v = self.module_get(self.mods['graph_scheduler.' + parts[0]], parts[1])
        for p in parts[2:]:
            v = self.class_lookup(v, p)
        return v

    def TSs(self):
        c = self.cls('time.TimeScale')
        return list(c.members.values())

    def make_func(self, node, frame, qual, cls=None):
        f = FuncVal(node, frame.mod, frame, qual, cls)
        f.defaults = [self.eval(d, frame) for d in node.args.defaults]
        f.kwdefaults = {a.arg: self.eval(d, frame) for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults) if d is not None}
        v = f
        for dec in reversed(getattr(node, 'decorator_list', [])):
            s = ast.unparse(dec)
            if s == 'property':
                v = PropVal(v)
            elif s == 'staticmethod':
                v = StaticM(v)
            elif s == 'classmethod':
                v = ClassM(v)
            elif s in ('abc.abstractmethod', 'abstractmethod') or s.startswith(('functools.lru_cache', 'functools.wraps', 'lru_cache', 'functools.cache')):
                if 'lru_cache' in s or s.endswith('cache'):
                    self.assumptions.add('functools.lru_cache is transparent for functions of hashable immutable arguments')
            elif s.endswith('.setter'):
                base = self.eval(dec.value, frame)
                v = PropVal(base.fget, v)
            else:
                d = self.eval(dec, frame)
                v = self.call(d, [v], {})
        return v

    def make_class(self, node, frame, qualprefix):
        qual = qualprefix + '.' + node.name
        bases = [self.eval(b, frame) for b in node.bases] or [self.B.ext['object']]
        ns_frame = Frame(self.uid(), None, frame.mod, frame if frame.kind != 'module' else None, 'class')
        cls = ClassVal(node.name, qual, frame.mod, bases, ns_frame.vars)
        is_enum = any(b.name == 'Enum' or getattr(b, 'members', None) is not None for b in bases)
        for b in bases:
            if not hasattr(b, 'mro') or b.mro is None:
                raise Unsupported(f'base {b}')
        cls.mro = mro_of(cls)
        auto = [0]
        for st in node.body:
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                continue
            if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and st.target.id == '__doc__':
                continue
            if isinstance(st, ast.FunctionDef):
                ns_frame.vars[st.name] = self.make_func(st, ns_frame, qual + '.' + st.name, cls)
            elif isinstance(st, ast.Assign):
                if isinstance(st.targets[0], ast.Name) and st.targets[0].id == '__doc__':
                    continue
                if is_enum and ast.unparse(st.value) in ('enum.auto()', 'auto()'):
                    auto[0] += 1
                    val = auto[0]
                else:
                    val = self.eval(st.value, ns_frame)
                for t in st.targets:
                    ns_frame.vars[t.id] = val
            elif isinstance(st, ast.Pass):
                pass
            elif isinstance(st, ast.AnnAssign):
                if st.value is not None:
                    ns_frame.vars[st.target.id] = self.eval(st.value, ns_frame)
            else:
                raise Unsupported(f'class body {type(st).__name__} in {qual}')
        for k, x in list(ns_frame.vars.items()):
            if isinstance(x, (FuncVal,)) and x.cls is None:
                x.cls = cls
        if is_enum:
            cls.members = {}
            for k, x in list(ns_frame.vars.items()):
                if k.startswith('_') or isinstance(x, (FuncVal, PropVal, StaticM, ClassM)):
                    continue
                alias = None
                for m in cls.members.values():
                    if not isinstance(x, Partial) and m.value == x and type(m.value) is type(x):
                        alias = m
                cls.members[k] = alias or EnumMember(cls, k, x)
                ns_frame.vars[k] = cls.members[k]
        for dec in node.decorator_list:
            s = ast.unparse(dec)
            if s.endswith('total_ordering'):
                cls.total_ordering = True
            else:
                raise Unsupported(f'class decorator {s}')
        return cls

    def class_lookup(self, cls, name, after=None):
        mro = cls.mro
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if isinstance(c, ClassVal):
                if name in c.ns:
                    return c.ns[name]
            else:
                m = self.B.class_attr(c, name)
                if m is not None:
                    return m
        return None

    def lookup(self, frame, name):
        f = frame
        while f is not None:
            if f.kind == 'module':
                break
            if f.kind == 'class' and f is not frame:
                f = f.parent
                continue
            if name in f.globals:
                break
            if f.localnames is not None and name in f.localnames or name in f.vars:
                if name in f.vars:
                    v = f.vars[name]
                    for r in self.recorders:
                        if f.uid <= r.uid and (f.uid, name) not in r.lw:
                            r.lreads.add((f.uid, name))
                    if v is POISON:
                        raise Unsupported(f'read of {name}: value after a loop is not tracked')
                    return v
                for r in self.recorders:
                    if f.uid <= r.uid and (f.uid, name) not in r.lw:
                        r.lreads.add((f.uid, name))
                if f.localnames is not None and name in f.localnames and name not in f.nonlocals:
                    self.raise_('UnboundLocalError' if f is frame else 'NameError', name)
            f = f.parent
        v = self.global_get(frame.mod, name)
        if v is not None or name == 'None':
            return v
        self.raise_('NameError', name)

    def global_get(self, mod, name):
        if name in mod.cache:
            return mod.cache[name]
        if name in mod.defs:
            return self.module_get(mod, name)
        if name in self.B.names:
            return self.B.names[name]
        raise Unsupported(f'name {name} in {mod.name}')

    def raise_(self, name, *args):
        c = self.B.names[name] if name in self.B.names else name
        o = self.new_obj(c, {'args': args})
        raise PyRaise(o, self.cur_line)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs=None, node=None):
        kwargs = kwargs or {}
        if isinstance(f, Bound):
            return self.call(f.func, [f.self_] + list(args), kwargs, node)
        if isinstance(f, StaticM):
            return self.call(f.f, args, kwargs, node)
        if isinstance(f, Builtin):
            if f.fn is None:
                h = self.contracts.get(f.name)
                if h:
                    self.contract_used.add(f.name)
                    return h(self, args, kwargs)
                raise Unsupported(f'external function {f.name}')
            return f.fn(args, kwargs)
        if isinstance(f, Partial):
            return self.call(f.func, list(f.args) + list(args), {**f.kwargs, **kwargs}, node)
        if isinstance(f, FuncVal):
            return self.call_func(f, args, kwargs)
        if isinstance(f, AbstractFunc):
            return f.fn(self, args, kwargs)
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, BuiltinClass):
            h = self.contracts.get(f.name)
            if h:
                return h(self, args, kwargs)
            return self.B.construct(f, args, kwargs)
        if isinstance(f, (EnumMember, Obj, View)):
            m = self.class_lookup(self.class_of(f), '__call__')
            if m is not None:
                return self.call(m, [f] + list(args), kwargs)
        if isinstance(f, V):
            m = self.class_lookup(f.cls, '__call__') if isinstance(f.cls, ClassVal) else None
            if m is not None:
                return self.call(m, [f] + list(args), kwargs)
            h = self.hooks.get('call_val')
            if h:
                return h(self, f, args, kwargs)
        if f is None:
            self.raise_('TypeError', "'NoneType' object is not callable")
        raise Unsupported(f'call of {f}')

    def call_func(self, f, args, kwargs):
        h = self.contracts.get(f.qual)
        if h is not None and f.qual not in self.callstack:
            self.contract_used.add(f.qual)
            return h(self, f, args, kwargs)
        return self.call_body(f, args, kwargs)

    def call_body(self, f, args, kwargs):
        if len(self.callstack) > 40:
            raise Unsupported('recursion depth')
        self.funcs_seen.add(f.qual)
        fr = Frame(self.uid(), f, f.mod, f.closure if f.closure is not None and f.closure.kind != 'module' else None)
        node = f.node
        key = id(node)
        if key not in self.names_cache:
            self.names_cache[key] = assigned_names(node)
        loc, nonl, glob = self.names_cache[key]
        fr.localnames = set(loc) | {a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs}
        if node.args.vararg:
            fr.localnames.add(node.args.vararg.arg)
        if node.args.kwarg:
            fr.localnames.add(node.args.kwarg.arg)
        fr.nonlocals, fr.globals = nonl, glob
        self.bind(f, fr, args, kwargs)
        if self.frames and is_generator(node):
            return GenFn(lambda: self.exec_body(f, fr))
        return self.exec_body(f, fr)

    def exec_body(self, f, fr):
        node = f.node
        self.callstack.append(f.qual)
        self.frames.append(fr)
        saved = self.cur_line
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, fr)
            try:
                self.block(node.body, fr)
            except ReturnEx as r:
                return r.v
            return None
        finally:
            self.callstack.pop()
            self.frames.pop()
            self.cur_line = saved

    def bind(self, f, fr, args, kwargs):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        npos_only = len(a.posonlyargs)
        kwargs = dict(kwargs)
        skw = kwargs.pop('**', None)
        vals = {}
        args = list(args)
        star = None
        for i, x in enumerate(args):
            if isinstance(x, SymStar):
                if i != len(args) - 1:
                    raise Unsupported('symbolic star argument not last')
                star = x
                args = args[:i]
                break
        if star is not None:
            missing = [p for p in pos[len(args):]]
            if missing:
                # take the values the positional parameters need out of the sequence
                for _ in missing:
                    n = self.to_term(self.length(star.seq), I)
                    if not self.branch(n > 0):
                        star = None
                        break
                    args.append(self.getitem(star.seq, 0))
                    star = SymStar(self.getitem(star.seq, Slice(1, None, None)))
        for p, v in zip(pos, args):
            vals[p] = v
        extra = args[len(pos):]
        if extra or star is not None:
            if a.vararg is None:
                if star is None:
                    self.raise_('TypeError', f'{f.name}() takes {len(pos)} positional arguments but {len(args)} were given')
                raise Unsupported('symbolic star into function without *args')
        if a.vararg is not None:
            if star is not None:
                if extra:
                    raise Unsupported('mixed symbolic star')
                vals[a.vararg.arg] = star.seq
            else:
                vals[a.vararg.arg] = tuple(extra)
        for p in pos[npos_only:] + [x.arg for x in a.kwonlyargs]:
            if p in kwargs:
                if p in vals:
                    self.raise_('TypeError', f'{f.name}() got multiple values for argument {p}')
                vals[p] = kwargs.pop(p)
        if skw is not None:
            names = []
            for p in pos[npos_only:] + [x.arg for x in a.kwonlyargs]:
                names.append(self.to_term(p, Val))
                if p in vals:
                    if self.truth(self.contains(skw.view, p)):
                        self.raise_('TypeError', f'{f.name}() got multiple values for argument {p}')
                elif self.truth(self.contains(skw.view, p)):
                    vals[p] = self.getitem(skw.view, p)
            lv = self.leaves_of(skw.view, skw.view.typ)
            dom, val = lv[('dom',)], lv[('v',)]
            rest = lambda x: conj([dom(x)] + [x != n for n in names])
            if a.kwarg is None:
                if self.branch(exists([Val], rest)):
                    self.raise_('TypeError', f'{f.name}() got an unexpected keyword argument')
            else:
                vals[a.kwarg.arg] = self.new_sym('dict', skw.view.typ, {('dom',): rest, ('v',): val})
                for k, v in kwargs.items():
                    self.setitem(vals[a.kwarg.arg], k, v)
                kwargs = {}
        if kwargs:
            if a.kwarg is None:
                self.raise_('TypeError', f'{f.name}() got an unexpected keyword argument {list(kwargs)[0]}')
        if a.kwarg is not None and skw is None:
            vals[a.kwarg.arg] = self.new_cont('dict', [[k, v] for k, v in kwargs.items()])
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if p not in vals:
                j = i - (len(pos) - nd)
                if j < 0:
                    self.raise_('TypeError', f'{f.name}() missing required positional argument: {p}')
                vals[p] = f.defaults[j]
        for x in a.kwonlyargs:
            if x.arg not in vals:
                if x.arg not in f.kwdefaults:
                    self.raise_('TypeError', f'{f.name}() missing keyword-only argument {x.arg}')
                vals[x.arg] = f.kwdefaults[x.arg]
        fr.vars.update(vals)

    def instantiate(self, cls, args, kwargs):
        if cls.members is not None:
            v = args[0]
            for m in cls.members.values():
                r = self.eq(m, v) if isinstance(v, EnumMember) else self.eq(m.value, v)
                if self.truth(r):
                    return m
            self.raise_('ValueError', f'not a valid {cls.name}')
        h = self.contracts.get(cls.qual)
        if h is not None:
            self.contract_used.add(cls.qual)
            return h(self, cls, args, kwargs)
        base = next((c for c in cls.mro if isinstance(c, BuiltinClass) and c.py in (dict, list, set)), None)
        if base is not None:
            c = self.B.construct(base, args, kwargs)
            c.cls = cls
            return c
        o = self.new_obj(cls)
        o.built = True
        init = self.class_lookup(cls, '__init__')
        if init is not None:
            self.call(init, [o] + list(args), kwargs)
        return o

    # ------------------------------------------------------------ attributes
    def class_of(self, v):
        if isinstance(v, (Obj, EnumMember)):
            return v.cls
        if isinstance(v, View) and isinstance(v.typ, TObj):
            return v.typ.cls
        if isinstance(v, V) and v.cls is not None:
            return v.cls
        if isinstance(v, Cont) and v.cls is not None:
            return v.cls
        return None

    def partial(self, v, cls, name):
        """A contract models only some attributes of an object: the others are unknown, not missing."""
        if getattr(v, 'built', False) or not isinstance(cls, ClassVal) or isinstance(v, View) and v.typ.complete:
            return
        for c in cls.mro or ():
            for f in getattr(c, 'ns', {}).values() if isinstance(c, ClassVal) else ():
                for g in (f.fget, f.fset) if isinstance(f, PropVal) else (f,):
                    if isinstance(g, FuncVal) and any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == name for n in ast.walk(g.node)):
                        raise Unsupported(f'attribute {name} of a {cls.name} is not modelled by this contract')

    def bind_attr(self, m, obj, cls):
        if isinstance(m, PropVal):
            if m.fget is None:
                raise Unsupported('property without getter')
            return self.call(m.fget, [obj], {})
        if isinstance(m, FuncVal):
            return Bound(m, obj)
        if isinstance(m, StaticM):
            return m.f
        if isinstance(m, ClassM):
            return Bound(m.f, cls)
        if isinstance(m, Builtin):
            return Bound(m, obj)
        return m

    def getattr(self, v, name):
        if isinstance(v, (Obj,)) and v.v is not None:
            v = v.v
        if isinstance(v, Obj):
            cls = v.cls
            if isinstance(cls, ClassVal):
                m = self.class_lookup(cls, name)
                if isinstance(m, PropVal):
                    return self.bind_attr(m, v, cls)
                if name in v.attrs:
                    x = v.attrs[name]
                    if x is POISON:
                        raise Unsupported(f'read of attribute {name} after a loop')
                    for r in self.recorders:
                        if v.uid <= r.uid:
                            r.reads.append((v, name, (), len(self.pc)))
                    return x
                if name == '__class__':
                    return cls
                if name == '__dict__':
                    return self.new_cont('dict', [[k, x] for k, x in v.attrs.items()])
                if m is not None:
                    return self.bind_attr(m, v, cls)
                h = self.hooks.get('obj_attr')
                if h:
                    r = h(self, v, name)
                    if r is not None:
                        return r
                g = self.class_lookup(cls, '__getattr__')
                if g is not None:
                    return self.call(g, [v, name], {})
            else:
                if name in v.attrs:
                    return v.attrs[name]
                h = self.hooks.get('obj_attr')
                r = h(self, v, name) if h else None
                if r is not None:
                    return r
            self.partial(v, cls, name)
            self.raise_('AttributeError', name)
        if isinstance(v, View) and isinstance(v.typ, TObj):
            cls = v.typ.cls
            m = self.class_lookup(cls, name)
            if isinstance(m, PropVal):
                return self.bind_attr(m, v, cls)
            if name in v.typ.fields:
                return self.sub(v, name)
            if name == '__class__':
                return cls
            if m is not None:
                return self.bind_attr(m, v, cls)
            self.partial(v, cls, name)
            self.raise_('AttributeError', name)
        if isinstance(v, EnumMember):
            if name in ('name', '_name_'):
                return v.name
            if name in ('value', '_value_'):
                return v.value
            if name == '__class__':
                return v.cls
            m = self.class_lookup(v.cls, name)
            if m is not None:
                return self.bind_attr(m, v, v.cls)
            self.raise_('AttributeError', name)
        if isinstance(v, ClassVal):
            if name == '__name__':
                return v.name
            if name == '__members__' and v.members is not None:
                return self.new_cont('dict', [[k, m] for k, m in v.members.items()])
            if name == '__doc__':
                return Opaque('doc')
            m = self.class_lookup(v, name)
            if m is None:
                self.raise_('AttributeError', name)
            if isinstance(m, ClassM):
                return Bound(m.f, v)
            if isinstance(m, StaticM):
                return m.f
            return m
        if isinstance(v, ModVal):
            if v.name in self.mods:
                r = self.module_get(self.mods[v.name], name)
                if r is None and v.name == 'graph_scheduler':
                    return ModVal('graph_scheduler.' + name)
                return r
            if v.name == 'logger':
                return Builtin('logger.' + name, lambda a, k: None)
            return self.ext_attr({'numpy': 'np', 'networkx': 'nx'}.get(v.name, v.name), name)
        if isinstance(v, SuperVal):
            cls = v.obj if isinstance(v.obj, ClassVal) else self.class_of(v.obj)
            m = self.class_lookup(cls, name, after=v.cls)
            if m is None:
                self.raise_('AttributeError', name)
            if isinstance(v.obj, ClassVal):
                return m.f if isinstance(m, StaticM) else m
            return self.bind_attr(m, v.obj, cls)
        if isinstance(v, PropVal):
            if name == '__set__':
                return Builtin('prop.__set__', lambda a, k: self.call(v.fset, [a[0], a[1]], {}))
            if name == 'setter':
                return Builtin('prop.setter', lambda a, k: PropVal(v.fget, a[0]))
            if name == 'fget':
                return v.fget
            if name == 'fset':
                return v.fset
        if isinstance(v, (FuncVal, AbstractFunc)):
            if name in v.attrs:
                return v.attrs[name]
            if name == '__name__':
                return v.name
            if name == '__doc__':
                return Opaque('doc')
        if isinstance(v, V) and v.t.sort() == SetR:
            return self.B.method(v, name)
        if isinstance(v, V):
            if v.cls is not None:
                h = self.hooks.get('ref_attr')
                if h:
                    r = h(self, v, name)
                    if r is not None:
                        return r
                m = self.class_lookup(v.cls, name)
                if m is not None:
                    return self.bind_attr(m, v, v.cls)
            h = self.hooks.get('val_attr')
            if h:
                return h(self, v, name)
            raise Unsupported(f'attribute {name} of symbolic value')
        if v is None or isinstance(v, (bool, int, float, NotImpl)):
            self.raise_('AttributeError', name)
        if isinstance(v, Cont) and v.cls is not None:
            m = self.class_lookup(v.cls, name)
            if isinstance(m, FuncVal):
                return Bound(m, v)
        if isinstance(v, Builtin) and f'{v.name}.{name}' in self.B.ext:
            return self.B.ext[f'{v.name}.{name}']
        m = self.B.method(v, name)
        if m is not None:
            return m
        if isinstance(v, str):
            raise Unsupported(f'str.{name}')
        raise Unsupported(f'attribute {name} of {v}')

    def setattr(self, v, name, val):
        if isinstance(v, Obj) and v.v is not None:
            v = v.v
        if isinstance(v, Obj):
            m = self.class_lookup(v.cls, name) if isinstance(v.cls, ClassVal) else None
            if isinstance(m, PropVal):
                if m.fset is None:
                    self.raise_('AttributeError', name)
                return self.call(m.fset, [v, val], {})
            had, old = name in v.attrs, v.attrs.get(name)
            self.host_write(v, (name, self.kind_of(val)), lambda: v.attrs.__setitem__(name, old) if had else v.attrs.pop(name, None))
            w = self.hooks.get('attr_type')
            if w:
                val = w(self, v, name, val)
            v.attrs[name] = val
            return
        if isinstance(v, View) and isinstance(v.typ, TObj):
            m = self.class_lookup(v.typ.cls, name)
            if isinstance(m, PropVal):
                if m.fset is None:
                    self.raise_('AttributeError', name)
                return self.call(m.fset, [v, val], {})
            if name in v.typ.fields:
                return self.store((v.root, v.prefix + (name,), v.idx), val, v.typ.fields[name])
            raise Unsupported(f'new attribute {name} on stored object')
        if isinstance(v, V):
            h = self.hooks.get('ref_setattr')
            if h and h(self, v, name, val):
                return
        if isinstance(v, (FuncVal, AbstractFunc)):
            v.attrs[name] = val
            return
        raise Unsupported(f'setattr {name} on {v}')

    # ------------------------------------------------------------ truth, equality, order
    def truth(self, v):
        v = self.norm(v)
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, V):
            t = v.t
            if z3.is_bool(t):
                return self.branch(t)
            if t.sort() in (I, R):
                return self.branch(t != 0)
            h = self.hooks.get('val_truth')
            if h:
                return h(self, v)
            raise Unsupported('truth of symbolic value')
        if isinstance(v, (int, float, str, tuple, Fraction)):
            return bool(v)
        if isinstance(v, (Cont, View)) and not (isinstance(v, View) and isinstance(v.typ, TObj)):
            n = self.length(v)
            return self.truth(self.compare('!=', n, 0))
        if isinstance(v, (EnumMember, FuncVal, ClassVal, Bound, Obj, View)):
            return True
        raise Unsupported(f'truth of {v}')

    def isnum(self, v):
        return isinstance(v, (int, float, Fraction)) or (isinstance(v, V) and v.t.sort() in (I, R, B))

    def eq(self, a, b):
        """Python ==; returns bool or V(Bool)."""
        a, b = self.norm(a), self.norm(b)
        if a is b and not isinstance(a, (V,)):
            return True
        if isinstance(a, V) or isinstance(b, V):
            if self.isnum(a) and self.isnum(b):
                return self.num_cmp('==', a, b)
            x, y = (a, b) if isinstance(a, V) else (b, a)
            s = x.t.sort()
            if isinstance(y, V):
                if y.t.sort() == s:
                    return self.mkbool(eqt(x.t, y.t))
                if Val in (s, y.t.sort()) and (s in (I, B) or y.t.sort() in (I, B)):
                    return self.mkbool(eqt(self.to_term(x, Val), self.to_term(y, Val)))
                return False
            if s == Val:
                if isinstance(y, Obj) and self.by_identity(y):
                    return self.mkbool(eqt(x.t, self.to_term(y, Val)))
                if isinstance(y, (Cont, View, Obj, ClassVal, FuncVal)):
                    h = self.hooks.get('val_eq')
                    if h:
                        return h(self, x, y)
                    return False
                return self.mkbool(eqt(x.t, self.to_term(y, Val)))
            if s in (I, R, B, RefS):
                return False
        prim = (bool, int, float, str, type(None), Fraction, NotImpl)
        if isinstance(a, prim) and isinstance(b, prim):
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            acc = []
            for x, y in zip(a, b):
                r = self.eq(x, y)
                if r is False:
                    return False
                acc.append(r.t if isinstance(r, V) else z3.BoolVal(r))
            return self.mkbool(conj(acc))
        if isinstance(a, Obj) or isinstance(b, Obj):
            for x, y in ((a, b), (b, a)):
                c = self.class_of(x)
                if isinstance(c, ClassVal):
                    m = self.class_lookup(c, '__eq__')
                    if isinstance(m, FuncVal):
                        return self.call(m, [x, y], {})
            return False
        if isinstance(a, (Cont, View)) and isinstance(b, (Cont, View)):
            return self.cont_eq(a, b)
        return False

    def mkbool(self, t):
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return V(t)

    def cont_eq(self, a, b):
        ta, tb = self.type_of(a), self.type_of(b)
        ka, kb = self.ckind(a), self.ckind(b)
        if ka != kb:
            return False
        if isinstance(a, View) and isinstance(a.typ, TObj):
            return self.mkbool(self.same_loc(a, b))
        if isinstance(a, Cont) and isinstance(b, Cont) and ka == 'list':
            return self.eq(tuple(a.items), tuple(b.items))
        if ka == 'set':
            s = self.set_sort(a, b)
            ma, mb = self.set_mem(a, s), self.set_mem(b, s)
            if isinstance(b, Cont) and not b.items:
                return self.mkbool(forall([s], lambda x: neg(ma(x))))
            if isinstance(a, Cont) and not a.items:
                return self.mkbool(forall([s], lambda x: neg(mb(x))))
            return self.mkbool(forall([s], lambda x: eqt(ma(x), mb(x))))
        return self.mkbool(self.content_eq(a, b))

    def content_eq(self, a, b, typ=None):
        """Extensional equality of two containers as a formula."""
        a, b = self.norm(a), self.norm(b)
        t = typ or (a.typ if isinstance(a, View) else b.typ if isinstance(b, View) else None)
        if t is None:
            t = self.type_of(a)
            if isinstance(t, (TDict, TList)) and isinstance(getattr(t, 'v', getattr(t, 'e', None)), TPoison):
                t = self.type_of(b)
        la, lb = self.leaves_of(a, t), self.leaves_of(b, t)
        return self.leaves_eq(la, lb, t)

    def leaves_eq(self, la, lb, t, pre=()):
        if isinstance(t, TS):
            return eqt(la[pre](), lb[pre]())
        if isinstance(t, (TConst, TPoison, TParent)):
            return z3.BoolVal(True)
        if isinstance(t, TSet):
            return forall([t.sort], lambda x: eqt(la[pre + ('mem',)](x), lb[pre + ('mem',)](x)))
        if isinstance(t, TFix):
            return conj([self.leaves_eq(la, lb, s, pre + (k,)) for k, s in t.items.items()])
        if isinstance(t, TObj):
            return conj([self.leaves_eq(la, lb, s, pre + (k,)) for k, s in t.fields.items()])
        if isinstance(t, TDict):
            def ap(l, k):
                n = len(pre) + 1
                return {p: (lambda *i, f=f: f(k, *i)) for p, f in l.items() if p[:n] == pre + ('v',)}
            return conj([
                forall([t.ksort], lambda k: eqt(la[pre + ('dom',)](k), lb[pre + ('dom',)](k))),
                forall([t.ksort], lambda k: z3.Implies(la[pre + ('dom',)](k), self.leaves_eq(ap(la, k), ap(lb, k), t.v, pre + ('v',))))])
        if isinstance(t, TList):
            def ape(l, k):
                n = len(pre) + 1
                return {p: (lambda *i, f=f: f(k, *i)) for p, f in l.items() if p[:n] == pre + ('e',)}
            n = la[pre + ('len',)]()
            return conj([eqt(n, lb[pre + ('len',)]()),
                         forall([I], lambda k: z3.Implies(z3.And(0 <= k, k < n), self.leaves_eq(ape(la, k), ape(lb, k), t.e, pre + ('e',))))])
        raise Unsupported('leaves_eq')

    def ckind(self, v):
        if isinstance(v, V) and v.t.sort() == SetR:
            return 'set'
        v = self.norm(v)
        if isinstance(v, Cont):
            return v.kind
        if isinstance(v, tuple):
            return 'tuple'
        if isinstance(v, View):
            t = v.typ
            return {TBag: 'list', TSet: 'set', TDict: 'dict', TFix: 'dict', TList: 'list', TObj: 'obj'}[type(t)] if not (isinstance(t, TList) and t.kind == 'tuple') else 'tuple'
        return None

    def set_sort(self, *vs):
        for v in vs:
            if isinstance(v, V) and v.t.sort() == SetR:
                return Val
            v = self.norm(v)
            if isinstance(v, View) and isinstance(v.typ, TSet):
                return v.typ.sort
            if isinstance(v, View) and isinstance(v.typ, TDict):
                return v.typ.ksort
        for v in vs:
            if isinstance(v, V):
                continue
            v = self.norm(v)
            if isinstance(v, Cont) and v.items:
                x = v.items[0]
                return self.sort_of(x[0] if v.kind == 'dict' else x)
            if isinstance(v, tuple) and v:
                return self.sort_of(v[0])
        return Val

    def set_mem(self, v, sort=None):
        """Membership closure of any iterable of scalars."""
        if isinstance(v, V) and v.t.sort() == SetR:
            return self.ref_mem(v.t)
        v = self.norm(v)
        sort = self.set_sort(v) if sort is None else sort
        if isinstance(v, View):
            t = v.typ
            if isinstance(t, TSet):
                return self.leaf(v, 'mem')
            if isinstance(t, TDict):
                return self.leaf(v, 'dom')
            if isinstance(t, TList):
                n, e = self.leaf(v, 'len'), self.leaf(v, 'e')
                return lambda x: exists([I], lambda i: z3.And(0 <= i, i < n(), e(i) == x))
            if isinstance(t, TFix):
                ks = [self.to_term(k, sort) for k in t.items]
                return lambda x: disj([eqt(x, k) for k in ks])
        if isinstance(v, Cont):
            items = [k for k, _ in v.items] if v.kind == 'dict' else v.items
            ts = [self.to_term(x, sort) for x in items]
            return lambda x: disj([eqt(x, t) for t in ts])
        if isinstance(v, tuple):
            ts = [self.to_term(x, sort) for x in v]
            return lambda x: disj([eqt(x, t) for t in ts])
        if isinstance(v, SymIter):
            def f(y):
                def body(*xs):
                    val = v.val(*xs)
                    return conj([v.mem(*xs), eqt(self.to_term(val, sort), y)])
                # identity iterators
                if len(v.sorts) == 1:
                    q = qvar(v.sorts[0])
                    val = v.val(q)
                    if isinstance(val, V) and val.t.eq(q):
                        return v.mem(y)
                return exists(v.sorts, body)
            return f
        raise Unsupported(f'membership of {v}')

    def num_cmp(self, op, a, b):
        if not isinstance(a, V) and not isinstance(b, V):
            return {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
        h = self.hooks.get('num_cmp')
        if h:
            r = h(self, op, a, b)
            if r is not None:
                return r
        sa, sb = self.sort_of(a), self.sort_of(b)
        if sa == sb == B and op in ('==', '!='):
            t = eqt(self.to_term(a), self.to_term(b))
            return self.mkbool(t if op == '==' else neg(t))
        s = R if R in (sa, sb) else I
        x, y = self.to_term(a, s), self.to_term(b, s)
        if x.eq(y):
            return op in ('==', '<=', '>=')
        t = {'==': lambda: eqt(x, y), '!=': lambda: neg(eqt(x, y)), '<': lambda: x < y, '<=': lambda: x <= y,
             '>': lambda: x > y, '>=': lambda: x >= y}[op]()
        return self.mkbool(z3.simplify(t) if is_const_lit(x) and is_const_lit(y) else t)

    def compare(self, op, a, b):
        if op == 'is':
            return self.is_(a, b)
        if op == 'is not':
            return self.not_(self.is_(a, b))
        if op == 'in':
            return self.contains(b, a)
        if op == 'not in':
            return self.not_(self.contains(b, a))
        if op == '==':
            return self.eq(a, b)
        if op == '!=':
            return self.not_(self.eq(a, b))
        if self.isnum(a) and self.isnum(b):
            return self.num_cmp(op, a, b)
        dn = {'<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__'}[op]
        c = self.class_of(a)
        if isinstance(c, ClassVal):
            m = self.class_lookup(c, dn)
            if isinstance(m, FuncVal):
                r = self.call(m, [a, b], {})
                if r is not NOTIMPL:
                    return r
            lt = self.class_lookup(c, '__lt__')
            if c.total_ordering and isinstance(lt, FuncVal):
                r = self.call(lt, [a, b], {})
                if r is not NOTIMPL:
                    if op == '>=':
                        return self.not_(r)
                    if op == '<=':
                        return True if self.truth(r) else self.eq(a, b)
                    if op == '>':
                        return False if self.truth(r) else self.not_(self.eq(a, b))
            self.raise_('TypeError', f"'{op}' not supported")
        if a is None or b is None:
            self.raise_('TypeError', f"'{op}' not supported between {a} and {b}")
        if isinstance(a, str) and isinstance(b, str):
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
        ka, kb = self.ckind(a), self.ckind(b)
        if ka == 'set' and kb == 'set':
            s = self.set_sort(a, b)
            ma, mb = self.set_mem(a, s), self.set_mem(b, s)
            sub = {'<=': (ma, mb), '>=': (mb, ma)}.get(op)
            if sub:
                return self.mkbool(forall([s], lambda x: z3.Implies(sub[0](x), sub[1](x))))
            if op in '<>':
                p, q = (ma, mb) if op == '<' else (mb, ma)
                return self.mkbool(z3.And(forall([s], lambda x: z3.Implies(p(x), q(x))), exists([s], lambda x: z3.And(q(x), neg(p(x))))))
        h = self.hooks.get('compare')
        if h:
            r = h(self, op, a, b)
            if r is not None:
                return r
        raise Unsupported(f'compare {op} {a} {b}')

    def not_(self, r):
        if isinstance(r, bool):
            return not r
        if isinstance(r, V):
            return self.mkbool(neg(r.t))
        return not self.truth(r)

    def is_(self, a, b):
        if self.hooks.get('heap'):
            ra, rb = ((isinstance(x, V) and x.t.sort() == SetR) or self.is_set(x) for x in (a, b))
            if ra and rb:
                return self.mkbool(eqt(self.set_ref(a), self.set_ref(b)))
            if ra or rb:
                return False
        a, b = self.norm(a), self.norm(b)
        if a is b:
            return True
        sing = (type(None), NotImpl, EnumMember, bool, ClassVal, FuncVal)
        if isinstance(a, V) or isinstance(b, V):
            x, y = (a, b) if isinstance(a, V) else (b, a)
            if isinstance(y, sing):
                if x.t.sort() != Val:
                    if isinstance(y, bool) and x.t.sort() == B:
                        return self.eq(x, y)
                    return False
                return self.mkbool(eqt(x.t, self.to_term(y, Val)))
            if isinstance(y, V):
                if x.t.sort() != y.t.sort():
                    return False
                if x.t.sort() == RefS:
                    return self.mkbool(eqt(x.t, y.t))
                e = eqt(x.t, y.t)
                if z3.is_false(e):
                    return False
                # equal values need not be the same object
                bb = self.fresh(B, 'same')
                self.assume(z3.Implies(bb, e))
                return V(bb)
            return False
        if isinstance(a, View) and isinstance(b, View):
            return self.mkbool(self.same_loc(a, b))
        if isinstance(a, (str, int)) and isinstance(b, (str, int)) and type(a) is type(b):
            return a == b
        return False

    def contains(self, c, x):
        c = self.norm(c)
        if isinstance(c, tuple) or (isinstance(c, Cont) and c.kind in ('list', 'tuple', 'set')):
            items = c if isinstance(c, tuple) else c.items
            acc = []
            for y in items:
                r = self.eq(y, x)
                if r is True:
                    return True
                if r is not False:
                    acc.append(r.t)
            return self.mkbool(disj(acc))
        if isinstance(c, Cont) and c.kind == 'dict':
            return self.contains(tuple(k for k, _ in c.items), x)
        if isinstance(c, View):
            t = c.typ
            if isinstance(t, TSet):
                return self.mkbool(self.leaf_at(c, 'mem', self.to_term(x, t.sort)))
            if isinstance(t, TDict):
                try:
                    k = self.to_term(x, t.ksort)
                except Unsupported:
                    return False
                return self.mkbool(self.leaf_at(c, 'dom', k))
            if isinstance(t, TFix):
                return self.contains(tuple(t.items), x)
            if isinstance(t, TList) and isinstance(t.e, TS):
                return self.mkbool(self.set_mem(c)(self.to_term(x, t.e.sort)))
            if isinstance(t, TObj):
                m = self.class_lookup(t.cls, '__contains__')
                if m is not None:
                    return self.call(m, [c, x], {})
        if isinstance(c, Obj):
            m = self.class_lookup(c.cls, '__contains__')
            if m is not None:
                return self.call(m, [c, x], {})
        if isinstance(c, SymIter):
            return self.mkbool(self.set_mem(c, self.sort_of(x))(self.to_term(x)))
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, GenVal):
            it = self.iterate(c)
            return self.contains(tuple(it) if isinstance(it, list) else it, x)
        if isinstance(c, ClassVal) and c.members is not None:
            return x in c.members.values()
        h = self.hooks.get('contains')
        if h:
            r = h(self, c, x)
            if r is not None:
                return r
        if c is None or isinstance(c, (int, bool)) or (isinstance(c, V) and c.t.sort() in (I, R, B)):
            self.raise_('TypeError', 'not iterable')
        raise Unsupported(f'in {c}')

    def length(self, v):
        v = self.norm(v)
        if isinstance(v, (str, tuple)):
            return len(v)
        if isinstance(v, Cont):
            if v.kind == 'set' and len(v.items) > 1 and any(isinstance(x, V) for x in v.items):
                return self.card(self.symbolize(v))
            return len(v.items)
        if isinstance(v, View):
            t = v.typ
            if isinstance(t, TList):
                return V(self.leaf_at(v, 'len'))
            if isinstance(t, TFix):
                return len(t.items)
            if isinstance(t, TBag):
                n = self.fresh(I, 'number of things')
                self.assume(z3.And(n >= 0, (n > 0) == self.leaf_at(v, 'some')))
                return V(n)
            return self.card(v)
        if isinstance(v, SymIter):
            if v.length is not None:
                return V(v.length)
            if getattr(v, 'count', None) is None:
                v.count = self.card_mem(v.sorts, v.mem)
            return v.count
        if isinstance(v, Obj):
            m = self.class_lookup(v.cls, '__len__')
            if m is not None:
                return self.call(m, [v], {})
        h = self.hooks.get('length')
        if h:
            r = h(self, v)
            if r is not None:
                return r
        if isinstance(v, ClassVal) and v.members is not None:
            return len(v.members)
        if isinstance(v, Opaque):
            n = self.fresh(I, 'olen')
            self.assume(n >= 0)
            return V(n)
        if v is None:
            self.raise_('TypeError', 'object has no len()')
        raise Unsupported(f'len of {v}')

    def card(self, v):
        t = v.typ
        if isinstance(t, TSet):
            return self.card_mem([t.sort], self.leaf(v, 'mem'))
        if isinstance(t, TDict):
            return self.card_mem([t.ksort], self.leaf(v, 'dom'))
        raise Unsupported('card')

    def card_mem(self, sorts, mem):
        """Cardinality of a (finite) set: fresh number tied to emptiness / singleton facts."""
        c = self.fresh(I, 'card')
        w = [self.fresh(s, 'wit') for s in sorts]
        w2 = [self.fresh(s, 'wit') for s in sorts]
        same = conj([eqt(a, b) for a, b in zip(w, w2)])
        self.assume(c >= 0)
        self.assume(z3.Implies(c == 0, forall(sorts, lambda *x: neg(mem(*x)))))
        self.assume(z3.Implies(c >= 1, mem(*w)))
        self.assume(z3.Implies(c == 1, forall(sorts, lambda *x: z3.Implies(mem(*x), conj([eqt(a, b) for a, b in zip(x, w)])))))
        self.assume(z3.Implies(c >= 2, z3.And(mem(*w2), neg(same))))
        h = self.hooks.get('card')
        if h:
            h(self, c, sorts, mem)
        return V(c)

    # ------------------------------------------------------------ iteration
    def iterate(self, v):
        """list of host values, or SymIter."""
        v = self.norm(v)
        if isinstance(v, (list,)):
            return v
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, SymIter):
            return v
        if isinstance(v, Cont):
            if v.kind == 'dict':
                return [k for k, _ in v.items]
            return list(v.items)
        if isinstance(v, ClassVal) and v.members is not None:
            seen = []
            for m in v.members.values():
                if m not in seen:
                    seen.append(m)
            return seen
        if isinstance(v, str):
            return list(v)
        if isinstance(v, View):
            t = v.typ
            if isinstance(t, TSet):
                mem = self.leaf(v, 'mem')
                return SymIter([t.sort], mem, lambda x: V(x))
            if isinstance(t, TDict):
                dom = self.leaf(v, 'dom')
                return SymIter([t.ksort], dom, lambda x: V(x, t.kcls))
            if isinstance(t, TFix):
                return list(t.items)
            if isinstance(t, TList):
                n = self.leaf_at(v, 'len')
                return SymIter([I], lambda i: z3.And(0 <= i, i < n), lambda i: self.sub(v, None, i), ordered=True, length=n, distinct=False)
            if isinstance(t, TObj):
                m = self.class_lookup(t.cls, '__iter__')
                if m is not None:
                    return self.iterate(self.call(m, [v], {}))
        if isinstance(v, Obj):
            m = self.class_lookup(v.cls, '__iter__') if isinstance(v.cls, ClassVal) else None
            if m is not None:
                return self.iterate(self.call(m, [v], {}))
            self.raise_('TypeError', 'not iterable')
        if isinstance(v, GenVal):
            return self.comp_iter(v.node, v.frame)
        if isinstance(v, IterVal):
            if v.used:
                raise Unsupported('an iterator consumed twice')
            v.used = True
            self.trail.append(lambda: setattr(v, 'used', False))
            return v.it
        if isinstance(v, GenFn):
            acc = self.new_cont('list', [])
            self.consume(v, lambda E, x: E.B.m_list_append(acc, E.norm(acc), [x], {}), pure=True)
            return self.iterate(acc)
        h = self.hooks.get('iterate')
        if h:
            r = h(self, v)
            if r is not None:
                return r
        if v is None or isinstance(v, (bool, int, float, FuncVal, EnumMember, ClassVal)) or (isinstance(v, V) and v.t.sort() in (I, R, B, RefS)):
            self.raise_('TypeError', 'object is not iterable')
        raise Unsupported(f'iterate {v}')

    def consume(self, g, on_yield, pure=False):
        if g.used:
            raise Unsupported('a generator consumed twice')
        g.used = True
        self.trail.append(lambda: setattr(g, 'used', False))
        old = self.hooks.get('yield')
        old_event = self.event
        self.hooks['yield'] = on_yield
        if pure:
            # collected at once: its effects would not happen where they do
            def event(*a):
                raise Unsupported('a generator with effects consumed by an expression')
            self.event = event
        try:
            return g.run()
        finally:
            self.hooks['yield'] = old
            if pure:
                self.event = old_event

    def for_generator(self, g, st, fr):
        outer = self.hooks.get('yield')
        cs, depth = list(self.callstack), (self.trial_depth, len(self.loopstack))

        def on_yield(E, v):
            inner, cs2 = E.hooks.get('yield'), list(E.callstack)
            E.hooks['yield'] = outer
            E.frames.append(fr)
            E.callstack[:] = cs
            try:
                E.assign(st.target, v, fr)
                try:
                    E.block(st.body, fr)
                except ContinueEx:
                    pass
                except (BreakEx, ReturnEx, PyRaise) as e:
                    if depth != (E.trial_depth, len(E.loopstack)):
                        raise Unsupported('the consumer of a generator leaves a loop of the generator')
                    raise GenExit(e)
            finally:
                E.frames.pop()
                E.callstack[:] = cs2
                E.hooks['yield'] = inner
        try:
            self.consume(g, on_yield)
        except GenExit as x:
            if isinstance(x.exc, BreakEx):
                return
            raise x.exc
        self.block(st.orelse, fr)

    # ---- sub exploration
    def explore(self, thunk, bound=(), conds=(), need_fall=True):
        """All paths of thunk() from the current state; the state is restored. Returns list of dict."""
        saved = (self.dec, self.pos, self.work)
        pc0 = len(self.pc)
        cnt0, mx, uid0 = self.counter, self.counter, self.uidc
        mxuid = uid0
        self.trial_depth += 1
        nb = len(self.bound)
        self.bound = self.bound + list(bound)
        results, work = [], [[]]
        frames0, cs0, ls0 = list(self.frames), list(self.callstack), list(self.loopstack)
        try:
            for c in conds:
                self.pc.append(c)
                self.pck.append('c')
            pc1 = len(self.pc)
            while work:
                prefix = work.pop()
                mark = len(self.trail)
                rec = Recorder(uid0)
                outer = [(r, len(r.writes)) for r in self.recorders]
                self.recorders.append(rec)
                cell0 = self.cellc
                self.dec, self.pos, self.work = list(prefix), 0, work
                self.counter = cnt0
                self.uidc = uid0
                out, val = 'fall', None
                alive = True
                try:
                    val = thunk()
                except ReturnEx as r:
                    out, val = 'return', r.v
                except BreakEx:
                    out = 'break'
                except ContinueEx:
                    out = 'fall'
                except PyRaise as e:
                    out, val = 'raise', e
                except PathEnd:
                    alive = False
                finally:
                    self.recorders.pop()
                    # what the iterations write together is recorded when they are applied
                    for r, n in outer:
                        del r.writes[n:]
                    self.frames[:] = frames0
                    self.callstack[:] = cs0
                    self.loopstack[:] = ls0
                if alive:
                    br = [f for f, k in zip(self.pc[pc1:], self.pck[pc1:]) if k == 'b']
                    asm = [f for f, k in zip(self.pc[pc1:], self.pck[pc1:]) if k not in 'bi']
                    fin = {}
                    for (fu, nm), lst in rec.lw.items():
                        fin[(fu, nm)] = lst[-1]
                    results.append(dict(conds=br, facts=asm, writes=rec.writes, reads=rec.reads, lw=fin, lreads=set(rec.lreads),
                                        hostw=rec.hostw, out=out, val=val))
                done = self.cells_leave(cell0, nb, bound) if self.cellc > cell0 else ()
                mx, mxuid = max(mx, self.counter), max(mxuid, self.uidc)
                self.undo_to(mark)
                self.cells.update(done)
                del self.pc[pc1:]
                del self.pck[pc1:]
                if len(results) > 200:
                    raise Unsupported('too many loop body paths')
        finally:
            del self.pc[pc0:]
            del self.pck[pc0:]
            self.trial_depth -= 1
            self.bound = self.bound[:nb]
            self.dec, self.pos, self.work = saved
            self.counter, self.uidc = mx, mxuid
            self.frames[:] = frames0
            self.callstack[:] = cs0
            self.loopstack[:] = ls0
        return results

    def event(self, what):
        if self.trial_depth:
            raise TrialFail(what)

    # ---- heap mode: sets are objects with references; the containers hold references
    def new_cell(self, root):
        """A set allocated now: one object for every instance of the surrounding iterations."""
        self.cellc += 1
        bs = tuple(self.bound)
        nm = f'set!{self.cellc}'
        root.cellf = z3.Function(nm, *[b.sort() for b in bs], SetR) if bs else z3.Const(nm, SetR).decl()
        root.cellb, root.celld, root.cellno = bs, 0, self.cellc
        self.cells[nm] = root

    def cell_block(self, sort, name):
        """One set object for every key: (root of contents, reference of key)."""
        self.cellc += 1
        r = self.new_root(TDict(sort, TSet(Val)), name)
        r.leaves[('dom',)] = lambda k: z3.BoolVal(True)
        nm = f'set!{self.cellc}'
        r.cellf, r.cellb, r.celld, r.cellno = z3.Function(nm, sort, SetR), (), 1, self.cellc
        self.cells[nm] = r
        return r

    def cells_leave(self, cell0, nb, bound):
        """The sets allocated by one iteration become blocks of sets indexed by the iteration."""
        out, k = {}, len(bound)
        for nm, r in self.cells.items():
            if r.cellno <= cell0 or len(r.cellb) != nb + k:
                continue
            typ = r.typ
            for b in reversed(bound):
                typ = TDict(b.sort(), typ)
            leaves = {}
            for p, i, o in leafspecs(typ):
                if p[-1] == 'dom' and len(p) <= k:
                    leaves[p] = lambda *q: z3.BoolVal(True)
                else:
                    f = r.leaves[p[k:]]
                    leaves[p] = (lambda *q, f=f: z3.substitute(f(*q[k:]), *zip(bound, q[:k]))) if k else f
            self.uidc += 1
            n = Root(self.uidc, typ, leaves, r.name)
            self.rootreg[n.uid] = n
            n.cellf, n.cellb, n.celld, n.cellno = r.cellf, r.cellb[:nb], r.celld + k, r.cellno
            n.cellsrc = getattr(r, 'cellsrc', None)
            out[nm] = n
        return out

    def set_ref(self, v):
        """The reference of a set object."""
        if isinstance(v, V) and v.t.sort() == SetR:
            return v.t
        v = self.norm(v)
        if isinstance(v, View) and isinstance(v.typ, TSet):
            r = v.root
            if r.cellf is not None and len(v.idx) == r.celld and v.prefix == ('v',) * r.celld:
                return r.cellf(*r.cellb, *v.idx)
            raise Unsupported(f'reference of a set held by {r.name}')
        raise Unsupported(f'reference of {v}')

    def cell_view(self, t):
        r = self.cells.get(t.decl().name()) if z3.is_app(t) else None
        if r is None:
            return None
        m, a = len(r.cellb), t.children()
        if len(a) != m + r.celld or any(not x.eq(y) for x, y in zip(a, r.cellb)):
            raise Unsupported('set of another iteration')
        return View(r, TSet(Val), ('v',) * r.celld, tuple(a[m:]))

    def resolve(self, t):
        """Reference -> location of the set."""
        v = self.cell_view(t)
        if v is not None:
            return v
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            return self.resolve(t.arg(1) if self.branch(t.arg(0)) else t.arg(2))
        h = self.hooks.get('unknown_set')
        if h:
            return h(self, t)
        raise Unsupported(f'unknown set {t}')

    def ref_mem(self, t):
        """Membership in the set referred to, without deciding which one it is."""
        v = self.cell_view(t)
        if v is not None:
            return self.leaf(v, 'mem')
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            a, b = self.ref_mem(t.arg(1)), self.ref_mem(t.arg(2))
            return lambda x: ite(t.arg(0), a(x), b(x))
        if self.is_junk(t):
            return lambda x: z3.Function('in no set', SetR, Val, B)(t, x)
        h = self.hooks.get('unknown_mem')
        if h:
            return h(self, t)
        raise Unsupported(f'unknown set {t}')

    def is_junk(self, t):
        return z3.is_const(t) and t.decl().name().startswith('junk_')

    def ref_cases(self, t, c=()):
        """[(condition, root, index)] of a reference; no root: not a set."""
        if self.is_junk(t):
            return [(conj(c), None, ())]
        v = self.cell_view(t)
        if v is not None:
            return [(conj(c), v.root, v.idx)]
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            return self.ref_cases(t.arg(1), (*c, t.arg(0))) + self.ref_cases(t.arg(2), (*c, neg(t.arg(0))))
        raise Unsupported(f'unknown set {t}')

    def unset(self, v):
        """Sets replaced by their references in a value that leaves an iteration."""
        if not self.hooks.get('heap'):
            return v
        if isinstance(v, tuple):
            return tuple(self.unset(x) for x in v)
        if self.is_set(v):
            return V(self.set_ref(v))
        return v

    def is_set(self, v):
        return isinstance(v, Cont) and v.kind == 'set' and v.v is not None or isinstance(v, View) and isinstance(v.typ, TSet)

    def subst_val(self, v, xs, ts):
        v = self.unset(v)
        pairs = list(zip(xs, ts))
        if isinstance(v, V):
            return V(z3.substitute(v.t, *pairs), v.cls)
        if isinstance(v, View):
            return View(v.root, v.typ, v.prefix, tuple(z3.substitute(i, *pairs) for i in v.idx),
                        self.subst_val(v.parent, xs, ts) if v.parent is not None else None)
        if isinstance(v, tuple):
            return tuple(self.subst_val(x, xs, ts) for x in v)
        if isinstance(v, Cont):
            if v.v is None and not v.items:
                return v
            raise TrialFail('container value escapes loop body')
        if isinstance(v, Obj):
            for k in v.attrs.values():
                if isinstance(k, (V, View, Cont, Obj)):
                    raise TrialFail('object escapes loop body')
            return v
        return v

    def comp_iter(self, node, frame, gi=0, outer=None):
        """Iterable described by a comprehension node (elt); list or SymIter."""
        return self.comp(node, frame, lambda fr: self.eval(node.elt, fr))

    def comp(self, node, frame, eltf):
        gens = node.generators
        fr = Frame(self.uid(), frame.func, frame.mod, frame, 'comp')

        def level(k, fr):
            g = gens[k]
            it = self.iterate(self.eval(g.iter, fr if k else frame))
            if isinstance(it, list):
                out = []
                sym = None
                for x in it:
                    self.assign(g.target, x, fr)
                    ok = True
                    for c in g.ifs:
                        if not self.truth(self.eval(c, fr)):
                            ok = False
                            break
                    if not ok:
                        continue
                    if k + 1 < len(gens):
                        sub = level(k + 1, fr)
                        if not isinstance(sub, list):
                            if len(it) == 1:
                                return sub
                            raise Unsupported('nested symbolic comprehension')
                        out.extend(sub)
                    else:
                        out.append(eltf(fr))
                return out
            # symbolic
            xs = [self.fresh_bound(s) for s in it.sorts]

            def thunk():
                self.assign(g.target, it.val(*xs), fr)
                for c in g.ifs:
                    if not self.truth(self.eval(c, fr)):
                        return ('skip', None)
                if k + 1 < len(gens):
                    return ('sub', level(k + 1, fr))
                return ('elt', self.unset(eltf(fr)))
            paths = self.explore(thunk, xs, [it.mem(*xs)])
            return self.comp_merge(paths, xs, it, bool(g.ifs), k + 1 < len(gens))
        return level(0, fr)

    def fresh_bound(self, s):
        self.counter += 1
        return z3.Const(f'x!{self.counter}', s)

    def loop_facts(self, paths, xs, it):
        for p in paths:
            if p['facts']:
                body = z3.Implies(conj([it.mem(*xs)] + p['conds']), conj(p['facts']))
                self.assume(forall(it.sorts, lambda *q: z3.substitute(body, *zip(xs, q))))

    def comp_merge(self, paths, xs, it, filtered, nested):
        for p in paths:
            if any(w for w in p['writes']) or p['hostw']:
                raise Unsupported('comprehension with side effects')
        self.loop_facts(paths, xs, it)
        raising = [p for p in paths if p['out'] == 'raise']
        if raising:
            k = self.choose(1 + len(raising))
            if k:
                p = raising[k - 1]
                ts = [self.fresh(s, 'r') for s in it.sorts]
                self.assume(z3.substitute(conj([it.mem(*xs)] + p['conds']), *zip(xs, ts)))
                if not self.feasible([]):
                    raise PathEnd()
                raise p['val']
            bad = disj([conj(p['conds']) for p in raising])
            self.assume(forall(it.sorts, lambda *q: z3.Implies(it.mem(*q), neg(z3.substitute(bad, *zip(xs, q))))))
            paths = [p for p in paths if p['out'] != 'raise']
        elts = [p for p in paths if p['val'][0] == 'elt']
        subs = [p for p in paths if p['val'][0] == 'sub']
        skips = [p for p in paths if p['val'][0] == 'skip']
        if subs:
            if elts:
                raise Unsupported('mixed comprehension')
            if len(subs) != 1:
                raise Unsupported('branching nested comprehension')
            inner = subs[0]['val'][1]
            if isinstance(inner, list):
                if len(inner) != 1:
                    if not inner:
                        return []
                    raise Unsupported('nested comprehension with several elements')
                val = inner[0]
                c = conj(subs[0]['conds'])
                return SymIter(it.sorts, lambda *q: conj([it.mem(*q), z3.substitute(c, *zip(xs, q))]), lambda *q: self.subst_val(val, xs, q), distinct=False)
            n = len(it.sorts)
            c = conj(subs[0]['conds'])

            def mem(*q):
                a, b = q[:n], q[n:]
                m = z3.substitute(conj([c, inner.mem(*b)]), *zip(xs, a))
                return conj([it.mem(*a), m])

            def val(*q):
                a, b = q[:n], q[n:]
                return self.subst_val(inner.val(*b), xs, a)
            return SymIter(list(it.sorts) + list(inner.sorts), mem, val, distinct=False)
        if not elts:
            return []
        cond = disj([conj(p['conds']) for p in elts])
        total = not skips
        val0 = self.merge_vals([(conj(p['conds']), p['val'][1]) for p in elts])

        def mem(*q):
            if total:
                return it.mem(*q)
            return conj([it.mem(*q), z3.substitute(cond, *zip(xs, q))])

        def val(*q):
            return self.subst_val2(val0, xs, q)
        return SymIter(it.sorts, mem, val, ordered=it.ordered and total, length=it.length if total else None, distinct=it.distinct)

    def merge_vals(self, cvs):
        if len(cvs) == 1:
            return cvs[0][1]
        vals = [v for _, v in cvs]
        if all(isinstance(v, (V, bool, int, Fraction, str, type(None))) for v in vals):
            sorts = {str(self.sort_of(v)) for v in vals}
            s = self.sort_of(vals[0])
            if len(sorts) > 1:
                if all(self.isnum(v) for v in vals):
                    s = R if any(self.sort_of(v) == R for v in vals) else I
                else:
                    s = Val
            t = self.to_term(vals[-1], s)
            for c, v in reversed(cvs[:-1]):
                t = ite(c, self.to_term(v, s), t)
            return V(t, next((v.cls for v in vals if isinstance(v, V)), None))
        if all(isinstance(v, tuple) and len(v) == len(vals[0]) for v in vals):
            return tuple(self.merge_vals([(c, v[i]) for c, v in cvs]) for i in range(len(vals[0])))
        if all(v is vals[0] for v in vals):
            return vals[0]
        raise Unsupported('merge of container values')

    def subst_val2(self, v, xs, q):
        """Substitute in a value created inside a comprehension body (fresh containers allowed)."""
        if isinstance(v, V):
            return self.subst_val(v, xs, q)
        v = self.norm(v)
        if isinstance(v, View) and v.prefix == () and v.idx == ():
            pairs = list(zip(xs, q))
            lv = {p: (lambda *i, f=f: z3.substitute(f(*i), *pairs)) for p, f in v.root.leaves.items()}
            return self.new_sym(self.ckind(v) if self.ckind(v) != 'obj' else 'obj', v.typ, lv)
        if isinstance(v, Cont):
            if v.kind == 'dict':
                return self.new_cont('dict', [[k, self.subst_val2(x, xs, q)] for k, x in v.items])
            return self.new_cont(v.kind, [self.subst_val2(x, xs, q) for x in v.items])
        if isinstance(v, tuple):
            return tuple(self.subst_val2(x, xs, q) for x in v)
        if isinstance(v, Obj):
            o = self.new_obj(v.cls)
            o.attrs = {k: self.subst_val2(x, xs, q) for k, x in v.attrs.items()}
            return o
        return self.subst_val(v, xs, q)

    def occurs(self, t, xs):
        ids = {x.get_id() for x in xs}
        st, seen = [t], set()
        while st:
            y = st.pop()
            if y.get_id() in ids:
                return True
            if y.get_id() in seen:
                continue
            seen.add(y.get_id())
            st.extend(y.children())
            if z3.is_quantifier(y):
                st.append(y.body())
        return False

    # ------------------------------------------------------------ statements
    def block(self, body, fr):
        for st in body:
            self.stmt(st, fr)

    def stmt(self, st, fr):
        self.cur_line = f'{fr.mod.name.split(".")[-1]}.py:{getattr(st, "lineno", 0)}'
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(st).__name__} at {self.cur_line}')
        return m(st, fr)

    def s_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        if isinstance(st.value, ast.Call):
            s = ast.unparse(st.value.func)
            if s.startswith('logger.') or s == 'warnings.warn':
                if s == 'warnings.warn' and self.hooks.get('warn'):
                    self.hooks['warn'](self)
                return
        self.eval(st.value, fr)

    def s_Pass(self, st, fr):
        pass

    def s_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)

    def frame_for(self, fr, name):
        f = fr
        if f.kind == 'comp' and False:
            pass
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None and name not in f.vars:
                f = f.parent
        return f

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.globals:
                raise Unsupported('global assignment')
            self.set_local(self.frame_for(fr, t.id), t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.iterate(v)
            if not isinstance(vs, list):
                raise Unsupported('unpacking symbolic sequence')
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i, n = star[0], len(vs) - (len(t.elts) - 1)
                if n < 0:
                    self.raise_('ValueError', 'unpack')
                vs = vs[:i] + [self.new_cont('list', vs[i:i + n])] + vs[i + n:]
                for e, x in zip(t.elts, vs):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
                return
            if len(vs) != len(t.elts):
                self.raise_('ValueError', 'unpack')
            for e, x in zip(t.elts, vs):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, fr), self.eval_slice(t.slice, fr), v)
        else:
            raise Unsupported(f'assign to {type(t).__name__}')

    def s_AugAssign(self, st, fr):
        t = st.target
        rhs = None
        if isinstance(t, ast.Name):
            cur = self.lookup(fr, t.id)
            rhs = self.eval(st.value, fr)
            v = self.augop(st.op, cur, rhs)
            self.assign(t, v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cur = self.getattr(o, t.attr)
            rhs = self.eval(st.value, fr)
            v = self.augop(st.op, cur, rhs)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.eval_slice(t.slice, fr)
            cur = self.getitem(o, k)
            rhs = self.eval(st.value, fr)
            v = self.augop(st.op, cur, rhs)
            if v is not cur:
                self.setitem(o, k, v)
        else:
            raise Unsupported('augassign')

    def augop(self, op, cur, rhs):
        k = self.ckind(cur)
        o = type(op).__name__
        if k == 'set' and o in ('BitOr', 'BitAnd', 'Sub', 'BitXor'):
            self.B.call_method(cur, {'BitOr': 'update', 'BitAnd': 'intersection_update', 'Sub': 'difference_update', 'BitXor': 'symmetric_difference_update'}[o], [rhs], {})
            return cur
        if k == 'list' and o == 'Add':
            self.B.call_method(cur, 'extend', [rhs], {})
            return cur
        if k == 'dict' and o == 'BitOr':
            self.B.call_method(cur, 'update', [rhs], {})
            return cur
        return self.binop(o, cur, rhs)

    def s_Return(self, st, fr):
        raise ReturnEx(self.eval(st.value, fr) if st.value is not None else None)

    def if_convert(self, st, fr, c):
        """`if c: obj.attr = expr` as one conditional value, where a contract asks for it; anything but plain evaluation falls back."""
        b = st.body[0]
        t = b.targets[0] if isinstance(b, ast.Assign) and len(b.targets) == 1 else b.target if isinstance(b, ast.AugAssign) else None
        if not isinstance(t, ast.Attribute) or any(isinstance(n, (ast.Call, ast.IfExp, ast.BoolOp, ast.Lambda, ast.NamedExpr)) for n in ast.walk(b)):
            return False
        mark, npc, old = len(self.trail), len(self.pc), self.plain
        self.plain = True
        try:
            o = self.eval(t.value, fr)
            cur = self.getattr(o, t.attr)
            rhs = self.eval(b.value, fr)
            v = self.augop(b.op, cur, rhs) if isinstance(b, ast.AugAssign) else rhs
        except (NotPlain, PyRaise):
            v = None
        finally:
            self.plain = old
        if len(self.trail) != mark or len(self.pc) != npc or v is None or not (isinstance(v, V) and isinstance(cur, V)) or v.cls is not cur.cls or v.t.sort() != cur.t.sort() \
                or not self.hooks['if_convert'](self, cur):
            self.undo_to(mark)
            del self.pc[npc:]
            del self.pck[npc:]
            return False
        self.setattr(o, t.attr, V(z3.If(c, v.t, cur.t), v.cls))
        return True

    def s_If(self, st, fr):
        test = self.eval(st.test, fr)
        if 'if_convert' in self.hooks and isinstance(test, V) and test.t.sort() == B and not st.orelse and len(st.body) == 1 and self.if_convert(st, fr, test.t):
            return
        if self.truth(test):
            self.block(st.body, fr)
        else:
            self.block(st.orelse, fr)

    def s_Break(self, st, fr):
        raise BreakEx()

    def s_Continue(self, st, fr):
        raise ContinueEx()

    def s_Raise(self, st, fr):
        if st.exc is None:
            cur = self.global_state.get('exc')
            if cur is None:
                raise Unsupported('bare raise')
            raise PyRaise(cur, self.cur_line)
        v = self.eval(st.exc, fr)
        if isinstance(v, (ClassVal, BuiltinClass)):
            v = self.call(v, [], {})
        raise PyRaise(v, self.cur_line)

    def s_Assert(self, st, fr):
        if not self.truth(self.eval(st.test, fr)):
            self.raise_('AssertionError')

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, fr), self.eval_slice(t.slice, fr))
            elif isinstance(t, ast.Name):
                had, old = t.id in fr.vars, fr.vars.get(t.id)
                self.trail.append(lambda: fr.vars.__setitem__(t.id, old))
                if not had:
                    self.raise_('NameError', t.id)
                del fr.vars[t.id]
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, fr)
                if not isinstance(o, Obj) or t.attr not in o.attrs:
                    raise Unsupported('del attribute')
                old = o.attrs[t.attr]
                self.host_write(o, (t.attr, 'obj'), lambda: o.attrs.__setitem__(t.attr, old))
                del o.attrs[t.attr]
            else:
                raise Unsupported('del')

    def s_FunctionDef(self, st, fr):
        q = (fr.func.qual if fr.func else '?') + '.' + st.name
        self.set_local(fr, st.name, self.make_func(st, fr, q))

    def s_Import(self, st, fr):
        for a in st.names:
            self.set_local(fr, (a.asname or a.name).split('.')[0], self.get_mod(a.name))

    def s_ImportFrom(self, st, fr):
        for a in st.names:
            self.set_local(fr, a.asname or a.name, self.eval_def(fr.mod, a.name, ('from', st.module, a.name)))

    def s_Nonlocal(self, st, fr):
        pass

    def s_Global(self, st, fr):
        pass

    def exc_match(self, exc, h, fr):
        if h.type is None:
            return True
        t = self.eval(h.type, fr)
        ts = list(t) if isinstance(t, tuple) else [t]
        for c in ts:
            if self.is_subclass(exc.cls, c):
                return True
        return False

    def is_subclass(self, a, b):
        if isinstance(a, ClassVal):
            return any(self.is_subclass(x, b) if x is not a else x is b for x in a.mro)
        if isinstance(a, BuiltinClass) and isinstance(b, BuiltinClass):
            if a is b or a.name == b.name:
                return True
            try:
                return issubclass(a.py, b.py)
            except TypeError:
                return False
        return False

    def s_Try(self, st, fr):
        def main():
            try:
                self.block(st.body, fr)
            except PyRaise as e:
                for h in st.handlers:
                    if self.exc_match(e.obj, h, fr):
                        if h.name:
                            self.set_local(fr, h.name, e.obj)
                        saved = self.global_state.get('exc')
                        self.global_state['exc'] = e.obj
                        try:
                            self.block(h.body, fr)
                        finally:
                            self.global_state['exc'] = saved
                        return
                raise
            else:
                self.block(st.orelse, fr)
        if st.finalbody:
            try:
                main()
            except (PyRaise, ReturnEx, BreakEx, ContinueEx, GenExit):
                self.block(st.finalbody, fr)
                raise
            self.block(st.finalbody, fr)
        else:
            main()

    def s_With(self, st, fr):
        for it in st.items:
            s = ast.unparse(it.context_expr)
            if s.startswith('warnings.catch_warnings'):
                continue
            raise Unsupported(f'with {s}')
        self.block(st.body, fr)

    # ------------------------------------------------------------ loops
    def loop_key(self, node):
        fn = self.frames[-1].func.node if self.frames else None
        loops = [n for n in ast.walk(fn) if isinstance(n, (ast.For, ast.While, ast.GeneratorExp, ast.ListComp, ast.Call))] if fn is not None else []
        try:
            k = loops.index(node)
        except ValueError:
            k = getattr(node, 'lineno', 0)
        return '/'.join(self.callstack) + f'#{k}'

    def s_For(self, st, fr):
        seq = self.eval(st.iter, fr)
        if isinstance(seq, GenFn):
            return self.for_generator(seq, st, fr)
        it = self.iterate(seq)
        if isinstance(it, list):
            for x in it:
                self.assign(st.target, x, fr)
                try:
                    self.block(st.body, fr)
                except BreakEx:
                    return
                except ContinueEx:
                    continue
            self.block(st.orelse, fr)
            return

        def body(val):
            self.assign(st.target, val, fr)
            self.block(st.body, fr)
        tnames = {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}
        r = self.loop_for(st, fr, it, body, tnames)
        if r == 'break':
            return
        self.block(st.orelse, fr)

    def loop_for(self, node, fr, it, body, tnames):
        """Returns 'done' or 'break'; may raise ReturnEx/PyRaise."""
        nd = self.no_trial.get(self.loop_key(node)) if hasattr(self, 'no_trial') else None
        if not nd:
            for cu, typ in self.presym.get(self.loop_key(node), {}).items():
                c = self.conts.get(cu)
                if c is not None and c.v is None:
                    self.symbolize(c, typ)
            mark = len(self.trail)
            try:
                return self.loop_independent(node, fr, it, body, tnames)
            except TrialFail as e:
                self.undo_to(mark)
                if not hasattr(self, 'no_trial'):
                    self.no_trial = {}
                # what failed inside its trial may do outside of it
                self.no_trial = {k: v for k, v in self.no_trial.items() if v[1] <= self.trial_depth}
                self.no_trial[self.loop_key(node)] = (str(e), self.trial_depth)
                self.dirty = True   # restart so that counters are deterministic
                raise PathEnd()
        return self.loop_inv_for(node, fr, it, body, tnames)

    def live_after(self, node, fr, names):
        fn = fr.func.node if fr.func is not None else None
        if fn is None:
            return set(names)
        closed = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id in names and any(id(n) in {id(m) for m in ast.walk(c)} for c in ast.walk(fn) if isinstance(c, (ast.FunctionDef, ast.Lambda)) and c is not fn)}
        live = liveness(fn, node)
        if live is not None:
            return (live & names) | closed
        inside = {id(n) for n in ast.walk(node)}
        return {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) not in inside and n.id in names} | closed

    def loop_independent(self, node, fr, it, body, tnames):
        xs = [self.fresh_bound(s) for s in it.sorts]
        # the trial
        paths = self.explore(lambda: body(it.val(*xs)), xs, [it.mem(*xs)])
        written = {}
        for p in paths:
            if p['hostw']:
                # an empty container filled by the loop: represent its content symbolically and try again
                if all(isinstance(o, Cont) and o.v is None and (not o.items or o.kind == 'dict' and self.fits(o, w)) and w is not None for o, w in p['hostw']):
                    ps = self.presym.setdefault(self.loop_key(node), {})
                    new = {o.uid: w for o, w in p['hostw'] if o.uid not in ps}
                    if new:
                        ps.update(new)
                        self.dirty = True
                        raise PathEnd()
                raise TrialFail('host object written')
            for w in p['writes']:
                written.setdefault((w[0].uid, w[1]), []).append((p, w))
        ys = [self.fresh_bound(s) for s in it.sorts]
        distinct = disj([neg(eqt(a, b)) for a, b in zip(xs, ys)])
        memx = it.mem(*xs)

        def rn(t):
            return z3.substitute(t, *zip(xs, ys))
        memy = rn(memx)
        base = self.base() + self.pc + [memx, memy, distinct]
        # rename skolem-ish fresh constants depending on xs: they are functions of xs, so substitution renames them
        for p in paths:
            for (r, pf, idx, _) in [x for x in p['reads'] if isinstance(x[0], Root)]:
                for (q, w) in written.get((r.uid, pf), []):
                    zs = [(v, self.fresh_bound(v.sort())) for v in w[4]]

                    def rw(t, zs=zs):
                        return rn(z3.substitute(t, *zs)) if zs else rn(t)
                    same = conj([eqt(a, rw(b)) for a, b in zip(idx, w[2])])
                    if z3.is_false(same):
                        continue
                    fs = base + p['conds'] + [rn(c) for c in q['conds']] + [rw(w[5]), same]
                    if self.solver.check(fs, timeout=3000, allow_cvc5=False) != 'unsat':
                        raise TrialFail('iterations depend on each other')
        lastwins = set()
        for key, lst in written.items():
            for i, (p, w) in enumerate(lst):
                for (q, u) in lst[i:]:
                    # the variables of inner loops differ as well
                    zs = [(v, self.fresh_bound(v.sort())) for v in u[4]]

                    def ru(t, zs=zs):
                        return rn(z3.substitute(t, *zs)) if zs else rn(t)
                    same = conj([eqt(a, ru(b)) for a, b in zip(w[2], u[2])])
                    if z3.is_false(same):
                        continue
                    fs = base + p['conds'] + [rn(c) for c in q['conds']] + [w[5], ru(u[5]), same]
                    # overlapping writes must agree
                    m = len(w[2])
                    if len(u[2]) == m:
                        rest = [s for s in self.leaf_sorts(w[0], key[1])[m:]]
                        dz = exists(rest, lambda *z: neg(eqt(w[3](*z), ru(u[3](*z)))))
                        if self.solver.check(fs + [dz], timeout=3000, allow_cvc5=False) == 'unsat':
                            continue
                    if self.solver.check(fs, timeout=3000, allow_cvc5=False) != 'unsat':
                        # or be one write per iteration, the last of which is what remains
                        if not (self.hooks.get('last_writer', True) and len(u[2]) == m and it.ordered and list(it.sorts) == [I] and len(lst) == 1 and not w[4] and p['out'] == 'fall'):
                            raise TrialFail('overlapping writes')
                        lastwins.add(key)
        # locals
        lnames = {}
        for p in paths:
            for key, (frm, v) in p['lw'].items():
                lnames.setdefault(key, []).append((p, frm, v))
        for key in lnames:
            if key[0] == fr.uid and key[1] in tnames:
                continue
            if any(key in p['lreads'] for p in paths):
                raise TrialFail(f'loop carried local {key[1]}')
        self.loop_facts(paths, xs, it)
        falls = [p for p in paths if p['out'] == 'fall']
        exits = [p for p in paths if p['out'] != 'fall']
        for p in exits:
            if p['out'] == 'raise':
                continue
            if p['out'] == 'return':
                self.subst_val(p['val'], xs, xs)
        fallc = disj([conj(p['conds']) for p in falls])

        def fall_at(q):
            return z3.substitute(fallc, *zip(xs, q))
        k = self.choose(1 + len(exits)) if exits else 0
        if k == 0:
            if exits:
                self.assume(forall(it.sorts, lambda *q: z3.Implies(it.mem(*q), fall_at(q))))
                if not self.feasible([]):
                    raise PathEnd()
            self.apply_all(paths, falls, xs, it, it.mem, lastwins)
            self.loop_locals(node, fr, lnames, falls, xs, it, it.mem, tnames)
            return 'done'
        p = exits[k - 1]
        x0 = [self.fresh(s, 'it') for s in it.sorts]
        self.assume(it.mem(*x0))
        for c in p['conds']:
            self.assume(z3.substitute(c, *zip(xs, x0)))
        if it.ordered:
            vis = lambda i: conj([it.mem(i), i < x0[0]])
            if falls:
                self.assume(forall(it.sorts, lambda *q: z3.Implies(vis(*q), fall_at(q))))
            else:
                self.assume(forall(it.sorts, lambda *q: neg(vis(*q))))
        else:
            pf = self.fresh_fn(it.sorts, B, 'vis')
            vis = pf
            self.assume(forall(it.sorts, lambda *q: z3.Implies(pf(*q), conj([it.mem(*q), fall_at(q)]))))
            self.assume(neg(pf(*x0)))
        if not self.feasible([]):
            raise PathEnd()
        self.apply_all(paths, falls, xs, it, vis, lastwins)
        self.loop_locals(node, fr, lnames, falls, xs, it, vis, tnames)
        for (root, pf2, idx, fn, vs, cond) in p['writes']:
            m = [z3.substitute(i, *zip(xs, x0)) for i in idx]
            f0 = lambda *z, fn=fn: z3.substitute(fn(*z), *zip(xs, x0))
            if vs:
                self.write_family(root, pf2, [(m, f0, list(vs), z3.substitute(cond, *zip(xs, x0)))])
            else:
                self.write_leaf(root, pf2, m, f0)
        for key, (frm, v) in p['lw'].items():
            self.set_local(frm, key[1], self.subst_val(v, xs, x0))
        if p['out'] == 'break':
            return 'break'
        if p['out'] == 'return':
            raise ReturnEx(self.subst_val(p['val'], xs, x0))
        raise p['val']

    def fits(self, c, typ):
        try:
            return isinstance(typ, TDict) and bool(self.leaves_of(c, typ))
        except Unsupported:
            return False

    def leaf_sorts(self, root, prefix):
        for p, i, o in leafspecs(root.typ):
            if p == prefix:
                return list(i)
        raise Unsupported('leaf sorts')

    def apply_all(self, paths, falls, xs, it, vis, lastwins=()):
        """Apply the writes of every iteration in vis."""
        keys = []
        for p in falls:
            for w in p['writes']:
                k = (w[0], w[1])
                if k not in keys:
                    keys.append(k)
        for root, pf in keys:
            self.write_family(root, pf, [(w[2], w[3], list(xs) + list(w[4]), conj([vis(*xs)] + p['conds'] + [w[5]]))
                                         for p in falls for w in p['writes'] if w[0] is root and w[1] == pf], last=(root.uid, pf) in lastwins)

    def write_family(self, root, pf, ws, last=False):
        """Write at idx fn(..) for all values of vs with cond, for every (idx, fn, vs, cond); later ones override earlier ones."""
        sorts = self.leaf_sorts(root, pf)
        old = root.leaves[pf]
        ws = [(tuple(z3.simplify(t) if t.sort() == I else t for t in idx), fn, vs, cond) for idx, fn, vs, cond in ws]
        # index prefix common to all
        common = None
        for idx, fn, vs, cond in ws:
            inv = []
            for t in idx:
                if self.occurs(t, vs):
                    break
                inv.append(t)
            if common is None:
                common = inv
            else:
                n = 0
                while n < len(common) and n < len(inv) and common[n].eq(inv[n]):
                    n += 1
                common = common[:n]

        found = {}

        def iteration(no, idx, vs, cond, sol, free, i):
            """The values of the variables not given by the index, of an iteration (the last) that writes at index i."""
            if no not in found:
                sorts = [a.sort() for a in idx]
                fs = [self.fresh_fn(sorts, x.sort(), 'iteration') for x in free]
                bs = [self.fresh_bound(t) for t in sorts]
                given = [(vs[n_], bs[j]) for n_, j in sol.items()]

                def at(q):
                    sub = lambda t: z3.substitute(t, *given, *zip(free, q))
                    return conj([sub(cond)] + [eqt(sub(a), b) for a, b in zip(idx, bs)])
                some = exists([x.sort() for x in free], lambda *q: at(q))
                f = z3.Implies(some, at([g(*bs) for g in fs]))
                if last:
                    f = z3.And(f, forall([x.sort() for x in free], lambda *q: z3.Implies(at(q), conj([a <= g(*bs) for a, g in zip(q, fs)]))))
                found[no] = fs
                self.assume(z3.ForAll(bs, f) if bs else f)
            return [g(*i[:len(idx)]) for g in found[no]]

        def new(*i):
            val = old(*i)
            for no, (idx, fn, vs, cond) in enumerate(ws):
                sol = {}
                for a, b in zip(idx, i):
                    for n_, x in enumerate(vs):
                        if a.eq(x) and n_ not in sol:
                            sol[n_] = b
                rest = i[len(idx):]
                if len(sol) == len(vs):
                    ts = [sol[n_] for n_ in range(len(vs))]
                    sub = lambda t: z3.substitute(t, *zip(vs, ts)) if vs else t
                    c = conj([sub(cond)] + [eqt(sub(a), b) for a, b in zip(idx, i)])
                    val = ite(c, sub(fn(*rest)), val)
                else:
                    # value may not depend on the iteration except through the index
                    v = fn(*rest)
                    for a, b in zip(idx, i):
                        if self.occurs(a, vs):
                            v = z3.substitute(v, (a, b))
                    # variables given by the index are not quantified
                    free = [x for n_, x in enumerate(vs) if n_ not in sol]
                    if last or self.occurs(v, vs):
                        if not self.hooks.get('last_writer', True):
                            raise TrialFail('iteration not recoverable from index')
                        at = {n_: j for j, a in enumerate(idx) for n_ in sol if a.eq(vs[n_])}
                        xs_ = iteration(no, idx, vs, cond, at, free, i)
                        v = z3.substitute(fn(*rest), *[(vs[n_], x) for n_, x in sol.items()], *zip(free, xs_))
                    sub = lambda t: z3.substitute(t, *[(vs[n_], x) for n_, x in sol.items()]) if sol else t
                    body, ix = sub(cond), [sub(a) for a in idx]
                    c = exists([x.sort() for x in free], lambda *q: conj([z3.substitute(body, *zip(free, q))] + [eqt(z3.substitute(a, *zip(free, q)), b) for a, b in zip(ix, i)]))
                    val = ite(c, v, val)
            return val
        # probe (raises TrialFail early)
        new(*[qvar(s) for s in sorts])
        common = tuple(common)
        self.write_leaf(root, pf, common, lambda *r: new(*common, *r), record=False)
        for r in self.recorders:
            if root.uid <= r.uid:
                if last:
                    raise TrialFail('overlapping writes')
                for idx, fn, vs, cond in ws:
                    r.writes.append((root, pf, tuple(idx), fn, tuple(vs), cond))

    def loop_locals(self, node, fr, lnames, falls, xs, it, vis, tnames):
        names = {k[1] for k in lnames}
        live = self.live_after(node, fr, names)
        for key, lst in lnames.items():
            frm = lst[0][1]
            if frm is not fr and frm.uid != fr.uid:
                # a frame of an enclosing function (nonlocal)
                livek = True
            else:
                livek = key[1] in live
            lst = [(p, f, v) for p, f, v in lst if p in falls]
            if not livek:
                self.set_local(frm, key[1], POISON)
                continue
            if not lst:
                continue
            wc = disj([conj(p['conds']) for p, _, _ in lst])
            k = self.choose(1 + len(lst))
            if k == 0:
                self.assume(forall(it.sorts, lambda *q: z3.Implies(vis(*q), neg(z3.substitute(wc, *zip(xs, q))))))
                if not self.feasible([]):
                    raise PathEnd()
                continue
            p, _, v = lst[k - 1]
            x0 = [self.fresh(s, 'last') for s in it.sorts]
            self.assume(vis(*x0))
            for c in p['conds']:
                self.assume(z3.substitute(c, *zip(xs, x0)))
            if it.ordered:
                self.assume(forall(it.sorts, lambda q: z3.Implies(conj([vis(q), q > x0[0]]), neg(z3.substitute(wc, (xs[0], q))))))
            if not self.feasible([]):
                raise PathEnd()
            self.set_local(frm, key[1], self.subst_val(v, xs, x0))

    # ---- rule 3
    def loop_info(self, node):
        key = self.loop_key(node)
        info = self.loopinfo.get(key)
        if info is None:
            info = self.loopinfo[key] = LoopInfo()
        return key, info

    def visible_locals(self):
        out = []
        for d, fr in enumerate(self.frames):
            f = fr
            while f is not None and f.kind != 'module':
                for n, v in f.vars.items():
                    out.append((f'{d}.{n}', v))
                f = f.parent
        return out

    def candidates(self, lctx, key, info):
        """name -> formula of the candidates still alive. Names not generated any more cannot be established."""
        cands = {}
        hint = self.hints.get(key) if self.hints else None
        for pool in self.inv_pool:
            for name, f in pool(self, lctx):
                if name in info.dropped or (hint is not None and name not in hint) or (info.start is not None and name not in info.start):
                    continue
                if callable(f):
                    f = f()
                if isinstance(f, V):
                    f = f.t
                if isinstance(f, bool):
                    f = z3.BoolVal(f)
                cands[name] = f
        return cands

    def check_cands(self, key, info, lctx, when):
        alive = cands = self.candidates(lctx, key, info)
        # names not generated here cannot be established
        if info.start is not None:
            for n in info.start - set(cands) - info.dropped:
                info.dropped.add(n)
                self.dirty = True
        todo = [(n, f) for n, f in alive.items() if not z3.is_true(f)]
        if not todo:
            return
        if self.holds(conj([f for _, f in todo]), timeout=6000, quick=True):
            return
        for (n, f), ok in zip(todo, self.solver.check_each(self.base() + self.pc, [f for _, f in todo], timeout=2000)):
            if not ok and (self.cand_quick or not self.holds(f, timeout=1000)):
                info.dropped.add(n)
                self.dirty = True

    def havoc_loop(self, key, info, start_uid):
        self.havocking = True
        try:
            self.havoc_loop1(key, info, start_uid)
        finally:
            self.havocking = False

    def havoc_loop1(self, key, info, start_uid):
        for cu, typ in list(info.conts.items()):
            c = self.conts.get(cu)
            if c is None:
                continue
            if c.v is None:
                if typ is None:
                    continue
                self.symbolize(c, typ)
                # its own (fresh) root is now part of the modified set
                v = c.v
                for p, i, o in leafspecs(v.typ):
                    self.write_leaf(v.root, v.prefix + p, v.idx, self.fresh_fn(i, o, 'h'))
                self.inv_shape(v)
            # else: its root is in info.roots
        for (ru, prefix), pat in sorted(info.roots.items(), key=lambda kv: (kv[0][0], str(kv[0][1]))):
            root = self.roots_by_uid(ru)
            if root is None:
                continue
            for p, i, o in leafspecs(root.typ):
                if p == prefix:
                    m = len(pat)
                    self.write_leaf(root, prefix, pat, self.fresh_fn(i[m:], o, 'h'))
                    if p and p[-1] == 'len':
                        f = root.leaves[prefix]
                        self.assume(forall(i, lambda *q: f(*q) >= 0))
        for (fu, name), kind in sorted(info.locals.items()):
            fr = self.frame_by_uid(fu)
            if fr is None or name not in fr.vars:
                continue
            fr_v = fr.vars[name]
            self.set_local(fr, name, self.havoc_scalar(fr_v, kind, name))
        for (ou, attr), kind in sorted(info.attrs.items()):
            o = self.obj_by_uid(ou)
            if o is None:
                continue
            old = o.attrs.get(attr)
            nv = self.havoc_scalar(old, kind, attr)
            self.host_write(o, (attr, self.kind_of(nv) if nv is not POISON else 'obj'), lambda o=o, attr=attr, old=old: o.attrs.__setitem__(attr, old))
            o.attrs[attr] = nv

    def inv_shape(self, v):
        if isinstance(v.typ, TList):
            self.assume(self.leaf_at(v, 'len') >= 0)

    def havoc_scalar(self, cur, kind, name):
        ck = self.kind_of(cur)
        if ck == kind:
            if kind == 'Int':
                return V(self.fresh(I, name))
            if kind == 'Bool':
                return V(self.fresh(B, name))
            if kind == 'Real':
                return V(self.fresh(R, name))
            if kind == 'Val':
                return V(self.fresh(Val, name))
            if kind.startswith('Ref'):
                return V(self.fresh(RefS, name), cur.cls)
            if kind == 'None':
                return None
            if kind.startswith('List:'):
                # some list of the kind; it may be known by other names, so nothing may be written to it
                t = self.norm(cur).typ
                r = self.new_sym('list', t, {p: self.fresh_fn(i, o, name) for p, i, o in leafspecs(t)}, name)
                self.norm(r).root.frozen = 'shared'
                self.inv_shape(self.norm(r))
                return r
        return POISON

    def roots_by_uid(self, uid):
        return self.rootreg.get(uid)

    def frame_by_uid(self, uid):
        for fr in self.frames:
            f = fr
            while f is not None:
                if f.uid == uid:
                    return f
                f = f.parent
        return None

    def obj_by_uid(self, uid):
        return self.objreg.get(uid)

    def loop_enter(self, node, lctx):
        if self.trial_depth:
            raise TrialFail('loop needing an invariant inside a loop body under trial')
        key, info = self.loop_info(node)
        if self.loop_debug:
            print('LOOP', key, 'dropped', len(info.dropped))
        self.check_cands(key, info, lctx, 'entry')
        first = info.start is None
        if first:
            cands = self.candidates(lctx, key, info)
            info.start = set(cands)
            self.dirty = True
            self.proving = False
        frame_uid = self.uidc
        counter = self.counter
        self.havoc_loop(key, info, frame_uid)
        return key, info, frame_uid, counter

    loop_debug = False
    cand_quick = False

    def survivors(self):
        return {k: sorted(i.start - i.dropped) for k, i in self.loopinfo.items() if i.start is not None}

    def loop_assume(self, key, info, lctx):
        for f in self.candidates(lctx, key, info).values():
            self.assume(f)

    def loop_inv_for(self, node, fr, it, body, tnames):
        lctx = LoopCtx(self, 'for', it)
        if it.ordered:
            lctx.i = z3.IntVal(0)
            lctx.visited = lambda x: z3.BoolVal(False)
        else:
            lctx.visited = lambda *x: z3.BoolVal(False)
        key, info, uid0, cnt0 = self.loop_enter(node, lctx)
        self.inexact = 'after a loop abstracted by inferred invariants'
        lctx.key = key
        if it.ordered:
            i = self.fresh(I, 'i')
            self.assume(i >= 0)
            lctx.i = i
            lctx.visited = lambda x: conj([it.mem(x), x < i])
            self.assume(i <= it.length)
        else:
            pf = self.fresh_fn(it.sorts, B, 'vis')
            lctx.visited = pf
            self.assume(forall(it.sorts, lambda *q: z3.Implies(pf(*q), it.mem(*q))))
        self.loop_assume(key, info, lctx)
        if self.choose(2) == 0:
            # arbitrary iteration
            if it.ordered:
                x = [lctx.i]
                self.assume(lctx.i < it.length)
            else:
                x = [self.fresh(s, 'cur') for s in it.sorts]
                self.assume(it.mem(*x))
                self.assume(neg(lctx.visited(*x)))
            if not self.feasible([]):
                raise PathEnd()
            self.loopstack.append(dict(info=info, uid=uid0, counter=cnt0))
            try:
                try:
                    body(it.val(*x))
                except ContinueEx:
                    pass
            except BreakEx:
                self.loopstack.pop()
                self.poison_targets(fr, tnames, keep=True)
                return 'break'
            except (ReturnEx, PyRaise):
                self.loopstack.pop()
                raise
            self.loopstack.pop()
            l2 = LoopCtx(self, 'for', it)
            l2.key = key
            if it.ordered:
                l2.i = lctx.i + 1
                l2.visited = lambda q: conj([it.mem(q), q < l2.i])
            else:
                old = lctx.visited
                l2.visited = lambda *q: disj([old(*q), conj([eqt(a, b) for a, b in zip(q, x)])])
            self.check_cands(key, info, l2, 'preserve')
            raise PathEnd()
        # exit
        if it.ordered:
            self.assume(lctx.i == it.length)
        else:
            self.assume(forall(it.sorts, lambda *q: z3.Implies(it.mem(*q), lctx.visited(*q))))
        if not self.feasible([]):
            raise PathEnd()
        self.poison_targets(fr, tnames)
        return 'done'

    def poison_targets(self, fr, tnames, keep=False):
        if keep:
            return
        for n in tnames:
            self.set_local(fr, n, POISON)

    def s_While(self, st, fr):
        # concrete unrolling while the guard is decided without symbolic state
        n = 0
        if self.unroll_ok(st, fr):
            while True:
                if n > 64:
                    raise Unsupported('unrolling limit')
                n += 1
                if not self.truth(self.eval(st.test, fr)):
                    break
                try:
                    self.block(st.body, fr)
                except BreakEx:
                    return
                except ContinueEx:
                    continue
            self.block(st.orelse, fr)
            return
        lctx = LoopCtx(self, 'while', None)
        key, info, uid0, cnt0 = self.loop_enter(st, lctx)
        self.inexact = 'after a loop abstracted by inferred invariants'
        lctx.key = key
        self.loop_assume(key, info, lctx)
        self.loopstack.append(dict(info=info, uid=uid0, counter=cnt0))
        try:
            g = self.truth(self.eval(st.test, fr))
        except (ReturnEx, PyRaise):
            self.loopstack.pop()
            raise
        if g:
            try:
                try:
                    self.block(st.body, fr)
                except ContinueEx:
                    pass
            except BreakEx:
                self.loopstack.pop()
                return
            except (ReturnEx, PyRaise):
                self.loopstack.pop()
                raise
            self.loopstack.pop()
            l2 = LoopCtx(self, 'while', None)
            l2.key = key
            self.check_cands(key, info, l2, 'preserve')
            raise PathEnd()
        self.loopstack.pop()
        self.block(st.orelse, fr)

    def unroll_ok(self, st, fr):
        h = self.hooks.get('unroll')
        return bool(h and h(self, st, fr))

    # ------------------------------------------------------------ expressions
    def eval(self, e, fr):
        return getattr(self, 'e_' + type(e).__name__, self.e_unsupported)(e, fr)

    def e_unsupported(self, e, fr):
        raise Unsupported(f'expression {type(e).__name__} at {self.cur_line}')

    def e_Constant(self, e, fr):
        if isinstance(e.value, float):
            return Fraction(e.value)
        if e.value is Ellipsis or isinstance(e.value, (bytes, complex)):
            raise Unsupported('constant')
        return e.value

    def e_Name(self, e, fr):
        return self.lookup(fr, e.id)

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def e_JoinedStr(self, e, fr):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                try:
                    v = self.eval(p.value, fr)
                except PyRaise:
                    raise
                if isinstance(v, str) and p.conversion == -1 and p.format_spec is None:
                    parts.append(v)
                else:
                    parts.append(None)
        if all(isinstance(p, str) for p in parts):
            return ''.join(parts)
        return Opaque('fstring')

    def e_IfExp(self, e, fr):
        return self.eval(e.body if self.truth(self.eval(e.test, fr)) else e.orelse, fr)

    def e_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        v = None
        for x in e.values[:-1]:
            v = self.eval(x, fr)
            t = self.truth(v)
            if is_and and not t:
                return False if isinstance(v, V) and z3.is_bool(v.t) else v
            if not is_and and t:
                return True if isinstance(v, V) and z3.is_bool(v.t) else v
        return self.eval(e.values[-1], fr)

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            v2 = self.norm(v)
            if isinstance(v2, V) and z3.is_bool(v2.t):
                return self.mkbool(neg(v2.t))
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, V):
                return V(-self.to_term(v, I if v.t.sort() == B else None))
            return -v
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported('unary op')

    def e_Compare(self, e, fr):
        ops = {'Eq': '==', 'NotEq': '!=', 'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>=', 'Is': 'is', 'IsNot': 'is not', 'In': 'in', 'NotIn': 'not in'}
        a = self.eval(e.left, fr)
        res = True
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            b = self.eval(c, fr)
            # same variable: same object
            o = ops[type(op).__name__]
            res = self.compare(o, a, b)
            if i < len(e.ops) - 1:
                if not self.truth(res):
                    return False
            a = b
        return res

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        return self.B.binop(op, a, b)

    def e_Tuple(self, e, fr):
        return self.seq_display(e.elts, fr, 'tuple')

    def e_List(self, e, fr):
        r = self.seq_display(e.elts, fr, 'list')
        return r

    def seq_display(self, elts, fr, kind):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, fr)
                it = self.iterate(v)
                if isinstance(it, list):
                    out.extend(it)
                elif len(elts) == 1:
                    return self.B.seq_from_iter(it, kind)
                else:
                    out.append(SymStar(it))
            else:
                out.append(self.eval(x, fr))
        if any(isinstance(x, SymStar) for x in out):
            return self.B.concat_iters(out, kind)
        if kind == 'tuple':
            return tuple(out)
        return self.new_cont('list', out)

    def e_Set(self, e, fr):
        c = self.new_cont('set', [])
        for x in e.elts:
            if isinstance(x, ast.Starred):
                self.B.call_method(c, 'update', [self.eval(x.value, fr)], {})
            else:
                self.B.call_method(c, 'add', [self.eval(x, fr)], {})
        return c

    def e_Dict(self, e, fr):
        c = self.new_cont('dict', [])
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.B.call_method(c, 'update', [self.eval(v, fr)], {})
            else:
                kk = self.eval(k, fr)
                self.setitem(c, kk, self.eval(v, fr))
        return c

    def e_ListComp(self, e, fr):
        it = self.comp_iter(e, fr)
        return self.B.seq_from_iter(it, 'list')

    def e_SetComp(self, e, fr):
        it = self.comp_iter(e, fr)
        return self.B.set_from_iter(it)

    def e_GeneratorExp(self, e, fr):
        return GenVal(e, fr, self)

    def e_DictComp(self, e, fr):
        it = self.comp(e, fr, lambda f: (self.eval(e.key, f), self.eval(e.value, f)))
        return self.B.dict_from_iter(it)

    def e_Lambda(self, e, fr):
        f = FuncVal(e, fr.mod, fr, (fr.func.qual if fr.func else fr.mod.name.split('.')[-1]) + '.<lambda>')
        f.defaults = [self.eval(d, fr) for d in e.args.defaults]
        f.kwdefaults = {a.arg: self.eval(d, fr) for a, d in zip(e.args.kwonlyargs, e.args.kw_defaults) if d is not None}
        return f

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        f = fr
        while f.kind == 'comp':
            f = f.parent
        self.assign(e.target, v, f)
        return v

    def e_Starred(self, e, fr):
        raise Unsupported('starred')

    def e_Subscript(self, e, fr):
        return self.getitem(self.eval(e.value, fr), self.eval_slice(e.slice, fr))

    def eval_slice(self, s, fr):
        if isinstance(s, ast.Slice):
            return Slice(*[self.eval(x, fr) if x is not None else None for x in (s.lower, s.upper, s.step)])
        return self.eval(s, fr)

    def e_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value is not None else None
        h = self.hooks.get('yield')
        if h is None:
            raise Unsupported('yield')
        return h(self, v)

    def e_YieldFrom(self, e, fr):
        v = self.eval(e.value, fr)
        if isinstance(v, GenFn):
            if self.hooks.get('yield') is None:
                raise Unsupported('yield')
            return self.consume(v, self.hooks['yield'])
        it = self.iterate(v)
        if not isinstance(it, list) or self.hooks.get('yield') is None:
            raise Unsupported('yield from a symbolic iterable')
        for x in it:
            self.hooks['yield'](self, x)
        return None

    def e_Call(self, e, fr):
        s = ast.unparse(e.func) if isinstance(e.func, (ast.Name, ast.Attribute)) else ''
        if s.startswith('logger.') or s == 'warnings.warn':
            if s == 'warnings.warn' and self.hooks.get('warn'):
                self.hooks['warn'](self)
            return None
        if s == 'super':
            return self.do_super(e, fr)
        if s == 'locals':
            return self.new_cont('dict', [[k, v] for k, v in fr.vars.items()])
        f = self.eval(e.func, fr)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                it = self.iterate(v)
                if isinstance(it, list):
                    args.extend(it)
                else:
                    args.append(SymStar(v if not isinstance(v, GenVal) else it))
            else:
                args.append(self.eval(a, fr))
        stars = [x for x in args if isinstance(x, SymStar)]
        for k in e.keywords:
            if k.arg is None:
                v = self.norm(self.eval(k.value, fr))
                if isinstance(v, Cont) and v.kind == 'dict':
                    for kk, vv in v.items:
                        if kk in kwargs:
                            self.raise_('TypeError', 'multiple values for keyword')
                        kwargs[kk] = vv
                elif isinstance(v, View) and isinstance(v.typ, TFix):
                    for kk in v.typ.items:
                        kwargs[kk] = self.sub(v, kk)
                elif isinstance(v, View) and isinstance(v.typ, TDict) and v.typ.ksort == Val and isinstance(v.typ.v, TS):
                    if '**' in kwargs:
                        raise Unsupported('several symbolic keyword dictionaries')
                    kwargs['**'] = SymKw(v)
                else:
                    raise Unsupported('** of symbolic dict')
            else:
                if k.arg in kwargs:
                    self.raise_('TypeError', 'multiple values for keyword')
                kwargs[k.arg] = self.eval(k.value, fr)
        if '**' in kwargs:
            for kk in kwargs:
                if kk != '**' and self.truth(self.contains(kwargs['**'].view, kk)):
                    self.raise_('TypeError', f'multiple values for keyword {kk}')
        if len(stars) and len(args) > 1:
            parts, head = [], []
            for x in args:
                if isinstance(x, SymStar):
                    parts.append(x.seq)
                elif parts:
                    parts.append((x,))
                else:
                    head.append(x)
            if len(parts) > 1:
                acc = parts[0]
                for x in parts[1:]:
                    acc = self.B.concat_seq(acc, x)
                args = head + [SymStar(acc)]
        line = self.cur_line
        self.cur_frame = fr
        r = self.call(f, args, kwargs, e)
        self.cur_line = line
        return r

    def do_super(self, e, fr):
        if e.args:
            a = [self.eval(x, fr) for x in e.args]
            return SuperVal(a[0], a[1])
        f = fr
        while f.func is None or f.func.cls is None:
            f = f.parent
            if f is None:
                raise Unsupported('super() outside a method')
        node = f.func.node
        first = (node.args.posonlyargs + node.args.args)[0].arg
        return SuperVal(f.func.cls, f.vars[first])

    # ------------------------------------------------------------ items
    def getitem(self, c, k):
        return self.B.getitem(c, k)

    def setitem(self, c, k, v):
        return self.B.setitem(c, k, v)

    def delitem(self, c, k):
        return self.B.delitem(c, k)


class LoopCtx:
    def __init__(self, E, kind, it):
        self.E, self.kind, self.it = E, kind, it
        self.i, self.visited, self.key = None, None, None

    def locals(self):
        return self.E.visible_locals()

    def ints(self):
        return [(n, self.E.to_term(v, I)) for n, v in self.locals()
                if (isinstance(v, V) and v.t.sort() == I) or (isinstance(v, int) and not isinstance(v, bool))]

    def bools(self):
        return [(n, self.E.to_term(v, B)) for n, v in self.locals() if (isinstance(v, V) and v.t.sort() == B) or isinstance(v, bool)]

    def sets(self):
        return [(n, self.E.set_mem(v, Val)) for n, v in self.locals() if self.E.ckind(v) == 'set' and self.E.set_sort(v) == Val]

    def lists(self, typ):
        """Local lists of the type (or empty): (name, leaves)."""
        E, out = self.E, []
        for n, v in self.locals():
            v = E.norm(v)
            if isinstance(v, View) and E.ckind(v) in ('list', 'tuple') and isinstance(v.typ, TList) and E.same_type(v.typ.e, typ.e) or \
                    isinstance(v, Cont) and v.kind == 'list' and all(isinstance(x, V) and x.t.sort() == getattr(typ.e, 'sort', None) for x in v.items):
                out.append((n, E.leaves_of(v, typ)))
        return out

    def dicts(self, typ):
        """Local dictionaries of the type (or empty): (name, leaves)."""
        E, out = self.E, []
        for n, v in self.locals():
            v = E.norm(v)
            if isinstance(v, View) and E.ckind(v) == 'dict' and isinstance(v.typ, TDict) and E.same_type(v.typ, typ) or \
                    isinstance(v, Cont) and v.kind == 'dict' and not v.items:
                out.append((n, E.leaves_of(v, typ)))
        return out
