"""Discharge of verification conditions: z3 in process, cvc5 as second back end on `unknown`."""
import time
import z3


_assert = z3.Z3_solver_assert
_getid = z3.Z3_get_ast_id
CTX = z3.main_ctx().ref()


class Solver:
    def __init__(self, timeout_ms=8000, use_cvc5=True):
        self.timeout = timeout_ms
        self.cache = {}
        self.keep = []
        self.n = {'z3': 0, 'cvc5': 0}
        self.time = {'z3': 0.0, 'cvc5': 0.0}
        self.use_cvc5 = use_cvc5
        self.last_model = None
        self.last_backend = 'z3'
        self.slow = []

    def check(self, fs, timeout=None, want_model=False, allow_cvc5=True, quick=False):
        """-> 'sat' | 'unsat' | 'unknown'"""
        key = (tuple(sorted({_getid(CTX, f.ast) for f in fs})), want_model)
        if quick:
            key = key + ('quick',)
        hit = self.cache.get(key)
        if hit is not None and (hit[0] != 'unknown' or hit[3] >= (timeout or self.timeout)):
            self.last_model, self.last_backend = hit[1], hit[2]
            return hit[0]
        t0 = time.time()
        # quantifiers by matching only: fast, and enough for almost every valid obligation
        s = z3.SimpleSolver()
        s.set('timeout', timeout or self.timeout)
        s.set('auto_config', False)
        s.set('mbqi', False)
        for f in fs:
            _assert(CTX, s.solver, f.ast)
        r = str(s.check())
        if r == 'unknown' and not quick:
            s = z3.Solver()
            s.set('timeout', timeout or self.timeout)
            s.set('random_seed', 1)
            for f in fs:
                _assert(CTX, s.solver, f.ast)
            r = str(s.check())
        dt = time.time() - t0
        self.n['z3'] += 1
        self.time['z3'] += dt
        backend = 'z3'
        model = None
        if r == 'sat' and want_model:
            try:
                model = str(s.model())[:4000]
            except Exception:
                model = None
        if r == 'unknown' and allow_cvc5 and self.use_cvc5:
            r2 = self._cvc5(s, timeout or self.timeout)
            if r2 in ('unsat',):
                r, backend = r2, 'cvc5'
        if dt > 2:
            self.slow.append((round(dt, 1), r, str(fs[-1])[:300]))
        self.keep.append(list(fs))
        self.cache[key] = (r, model, backend, timeout or self.timeout)
        self.last_model, self.last_backend = model, backend
        return r

    def check_each(self, fs, goals, timeout=None):
        """For each goal: is it valid under fs (quantifiers by matching only)?"""
        t0 = time.time()
        s = z3.SimpleSolver()
        s.set('timeout', timeout or self.timeout)
        s.set('auto_config', False)
        s.set('mbqi', False)
        for f in fs:
            _assert(CTX, s.solver, f.ast)
        out = []
        for g in goals:
            s.push()
            s.add(z3.Not(g))
            out.append(str(s.check()) == 'unsat')
            s.pop()
        self.n['z3'] += len(out)
        self.time['z3'] += time.time() - t0
        return out

    def _cvc5(self, s, timeout):
        try:
            import cvc5
        except ImportError:
            return 'unknown'
        t0 = time.time()
        try:
            tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
            sl = cvc5.Solver(tm) if tm else cvc5.Solver()
            sl.setOption('tlimit-per', str(timeout))
            sl.setLogic('ALL')
            p = cvc5.InputParser(sl)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, s.to_smt2().replace('(check-sat)', ''), 'vc')
            sm = p.getSymbolManager()
            while True:
                c = p.nextCommand()
                if c.isNull():
                    break
                c.invoke(sl, sm)
            r = str(sl.checkSat())
        except Exception:
            r = 'unknown'
        self.n['cvc5'] += 1
        self.time['cvc5'] += time.time() - t0
        return r if r in ('sat', 'unsat') else 'unknown'
