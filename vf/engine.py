"""Path explorer: re-executes the real code once per feasible path.

Every branch on a symbolic condition asks the solver which sides are feasible
under the path condition; every demand for a native int enumerates, with the
solver, all values the expression can take (a complete case split).  Each
check() is decided by the solver: path condition and not(property) must be
unsatisfiable.
"""
import time

import z3

from . import sym
from .sym import Unsupported, SymBool, SymInt, Node, c_eq, const, zbool

MAX_SPLIT = 600
MAX_DECISIONS = 3000


class PathEnd(BaseException):
    """this path is finished (infeasible or cut)"""


class Budget(BaseException):
    """case time budget exhausted: inconclusive"""


class Failure:
    def __init__(self, label, inputs, detail=''):
        self.label, self.inputs, self.detail = label, inputs, detail


class Engine:
    def __init__(self, qtimeout=10000, budget=60.0, max_paths=200000, seed=1, probe=0):
        # probe: case splits take only that many of their values; such a run can refute, never decide
        self.probe = probe
        self.qtimeout = qtimeout
        self.deadline = time.time() + budget
        self.max_paths = max_paths
        self.seed = seed
        self.running = False
        self.stats = dict(paths=0, decisions=0, splits=0, queries=0, obligations=0, discharged=0,
                          trivial=0, solver_s=0.0, infeasible=0, unknown=0)
        self.failures = []
        self.models = []
        self.known_hits = []
        self.unknown = []
        self.reached = set()

    # -- solver ---------------------------------------------------------------
    def _solve(self, conds):
        if time.time() > self.deadline:
            raise Budget()
        s = z3.Solver()
        s.set('timeout', self.qtimeout)
        s.set('random_seed', self.seed)
        s.add(*conds)
        t = time.time()
        r = s.check()
        self.stats['solver_s'] += time.time() - t
        self.stats['queries'] += 1
        if r == z3.sat:
            return 'sat', s.model()
        if r == z3.unsat:
            return 'unsat', None
        return 'unknown', None

    def _feasible(self, c):
        """model of pc and c, or None"""
        if self.model is not None and z3.is_true(self.model.eval(c, model_completion=True)):
            return self.model
        r, m = self._solve(self.pc + [c])
        if r == 'unknown':
            self.stats['unknown'] += 1
            raise Unsupported('solver gave no answer on a branch')
        return m

    # -- exploration ------------------------------------------------------------
    def explore(self, body):
        """body(engine) runs the harness; returns when every path is done"""
        work = [()]
        while work:
            if self.stats['paths'] >= self.max_paths:
                raise Budget()
            prefix = work.pop()
            self.pc = []
            self.model = None
            self.prefix = prefix
            self.trail = []
            self.pending = []
            self.inputs = {}
            self.known = {}
            self.fresh = 0
            prev = sym.ENGINE
            sym.ENGINE = self
            self.running = True
            try:
                body(self)
                done = True
            except PathEnd:
                done = False
            finally:
                self.running = False
                sym.ENGINE = prev
            work.extend(self.pending)
            if done:
                self.stats['paths'] += 1
                self._finish()
            if time.time() > self.deadline and work:
                raise Budget()

    def _finish(self):
        """a satisfying input for the path: shows it is not vacuous"""
        m = self.model
        if m is None or not all(z3.is_true(m.eval(c, model_completion=True)) for c in self.pc):
            r, m = self._solve(self.pc)
            if r == 'unsat':
                self.stats['infeasible'] += 1
                return
            if r == 'unknown':
                raise Unsupported('solver gave no answer on a path condition')
        self.models.append(self.assign(m))

    def assign(self, m):
        out = {}
        for name, (kind, t) in self.inputs.items():
            v = m.eval(t, model_completion=True)
            if kind == 'bool':
                out[name] = z3.is_true(v)
            elif kind == 's':
                out[name] = v.as_signed_long()
            else:
                out[name] = v.as_long()
        return out

    def _under(self, c):
        """c simplified with the path condition's literals taken as facts"""
        subs = []

        def lit(x):
            if z3.is_and(x):
                for y in x.children():
                    lit(y)
            elif z3.is_not(x):
                y = x.arg(0)
                if z3.is_or(y):
                    for q in y.children():
                        lit(z3.simplify(z3.Not(q)))
                subs.append((y, sym.FALSE))
            else:
                if z3.is_eq(x):
                    l, r = x.arg(0), x.arg(1)
                    for p, q in ((l, r), (r, l)):
                        if z3.is_const(p) and p.decl().kind() == z3.Z3_OP_UNINTERPRETED \
                                and (z3.is_bv_value(q) or z3.is_int_value(q)):
                            subs.append((p, q))
                subs.append((x, sym.TRUE))
        for x in self.pc:
            lit(x)
        if not subs:
            return c
        for _ in range(2):
            c = z3.simplify(z3.substitute(c, *subs))
        return c

    def _same(self, old, t):
        """the decision of the earlier run, made again (simplification may order arguments differently)"""
        if old.eq(t) or old.hash() == t.hash():
            return True
        if old.sort() != t.sort():
            return False
        r, _ = self._solve(self.pc + [old != t])
        return r == 'unsat'

    def _record(self, d, t):
        self.trail.append((d, t))
        self.stats['decisions'] += 1
        if len(self.trail) > MAX_DECISIONS:
            raise Unsupported('too many decisions on one path')

    def fork(self, t):
        if not self.running:
            raise Unsupported('branch on a symbolic value outside a path')
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        k = self.known.get(t.get_id())
        if k is not None:
            return k[1]
        d = self._decide(t)
        self.known[t.get_id()] = (t, d)
        return d

    def _decide(self, t):
        i = len(self.trail)
        if i < len(self.prefix):
            d, h = self.prefix[i]
            if type(d) is not bool or not self._same(h, t):
                raise Unsupported('re-execution diverged')
            self._record(d, t)
            self.pc.append(t if d else z3.Not(t))
            return d
        mt = self._feasible(t)
        mf = self._feasible(z3.Not(t))
        if mt is None and mf is None:
            raise PathEnd()
        if mt is not None and mf is not None:
            self.pending.append(tuple(self.trail) + ((False, t),))
            self._record(True, t)
            self.pc.append(t)
            self.model = mt
            return True
        d = mt is not None
        self.model = mt if d else mf
        # implied by the path condition: recorded so that replays stay aligned
        self._record(d, t)
        self.pc.append(t if d else z3.Not(t))
        return d

    def concretize(self, n):
        if n.op == 'const':
            return n.args
        if not self.running:
            raise Unsupported('concretisation outside a path')
        term, w, s = n.exact()
        term = z3.simplify(term)
        if z3.is_bv_value(term):
            return term.as_signed_long() if s else term.as_long()
        i = len(self.trail)
        if i < len(self.prefix):
            d, h = self.prefix[i]
            if type(d) is not tuple or not self._same(h, term):
                raise Unsupported('re-execution diverged')
            v = d[0]
        else:
            vals = []
            solver = z3.Solver()
            solver.set('timeout', self.qtimeout)
            solver.add(*self.pc)
            if self.probe:
                vals = self._some_values(solver, term, n, w, s)
            while not self.probe:
                if time.time() > self.deadline:
                    raise Budget()
                t0 = time.time()
                r = solver.check()
                self.stats['solver_s'] += time.time() - t0
                self.stats['queries'] += 1
                if r == z3.unsat:
                    break
                if r == z3.unknown:
                    raise Unsupported('solver gave no answer on a case split')
                x = solver.model().eval(term, model_completion=True)
                vals.append(x.as_signed_long() if s else x.as_long())
                if n.lo is not None and n.hi is not None and len(vals) == n.hi - n.lo + 1:
                    break           # every value of the exact interval has been found
                if len(vals) > MAX_SPLIT:
                    raise Unsupported(f'case split over more than {MAX_SPLIT} values')
                solver.add(term != x)
            if not vals:
                raise PathEnd()
            vals.sort()
            self.stats['splits'] += 1
            for v in vals[1:]:
                self.pending.append(tuple(self.trail) + (((v,), term),))
            v = vals[0]
            self.model = None
        self._record((v,), term)
        self.pc.append(term == z3.BitVecVal(v, w))
        return v

    def _some_values(self, solver, term, n, w, s):
        state = [self.seed * 7919 + len(self.trail) + 1]

        def rnd(a, b):
            state[0] = (state[0] * 6364136223846793005 + 1442695040888963407) % (1 << 64)
            r = state[0] >> 11
            for _ in range((b - a).bit_length() // 53):
                state[0] = (state[0] * 6364136223846793005 + 1442695040888963407) % (1 << 64)
                r = r << 53 | state[0] >> 11
            return a + r % (b - a + 1)
        lo = n.lo if n.lo is not None else (-(1 << (w - 1)) if s else 0)
        hi = n.hi if n.hi is not None else (1 << (w - 1)) - 1 if s else (1 << w) - 1
        span = hi - lo
        cands = [rnd(lo, hi), hi, lo, 1, 0, lo + span // 2 + 1, -1, lo + span // 2, rnd(lo, hi)]
        vals = []
        for x in cands:
            if len(vals) >= self.probe or time.time() > self.deadline:
                break
            if lo <= x <= hi and x not in vals and solver.check(term == z3.BitVecVal(x, w)) == z3.sat:
                vals.append(x)
        while len(vals) < self.probe and len(vals) < span + 1 and time.time() <= self.deadline:
            if solver.check(*[term != z3.BitVecVal(x, w) for x in vals]) != z3.sat:
                break
            x = solver.model().eval(term, model_completion=True)
            vals.append(x.as_signed_long() if s else x.as_long())
        return vals

    def assume(self, c):
        c = z3.simplify(zbool(c))
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathEnd()
        self.pc.append(c)
        if self.model is not None and not z3.is_true(self.model.eval(c, model_completion=True)):
            self.model = None
        if len(self.trail) >= len(self.prefix) and self.model is None:
            r, m = self._solve(self.pc)
            if r == 'unsat':
                raise PathEnd()
            if r == 'sat':
                self.model = m

    def split(self, c):
        """explore both sides of a condition separately"""
        return self.fork(zbool(c))

    def check(self, label, cond, detail=''):
        self.reached.add(label)
        self.stats['obligations'] += 1
        t = type(cond)
        if t is SymInt:
            cond = cond != 0
            t = type(cond)
        if t is bool:
            ok = cond
            neg = None
        elif t is SymBool:
            c = z3.simplify(cond.t)
            if z3.is_true(c) or z3.is_true(self._under(c)):
                ok = True
            else:
                ok, neg = None, z3.Not(c)
        else:
            raise Unsupported(f'check on {t}')
        if ok is True:
            self.stats['discharged'] += 1
            self.stats['trivial'] += 1
            return
        r, m = self._solve(self.pc + ([neg] if neg is not None else []))
        if r == 'unsat':
            self.stats['discharged'] += 1
            return
        if r == 'unknown':
            self.stats['unknown'] += 1
            self.unknown.append(label)
            return
        self.failures.append(Failure(label, self.assign(m), detail))
        if neg is None:
            raise PathEnd()
        self.pc.append(c)
        self.model = None

    def fail_path(self, label, detail):
        """the path itself (an unexpected exception) violates the property"""
        self.stats['obligations'] += 1
        self.reached.add(label)
        r, m = self._solve(self.pc)
        if r == 'unsat':
            raise PathEnd()
        if r == 'unknown':
            self.unknown.append(label)
            raise PathEnd()
        self.failures.append(Failure(label, self.assign(m), detail))
        raise PathEnd()

    def known_deviation(self, label, holds, deviates):
        """holds, or deviates exactly as the listed finding describes"""
        self.check(label + ': fails in a way the listed finding does not describe',
                   holds if holds is True else deviates if holds is False else _or(holds, deviates))
        self.stats['obligations'] += 1
        if holds is True:
            self.stats['discharged'] += 1
            return
        c = zbool(holds)
        r, m = self._solve(self.pc + [z3.Not(c)])
        if r == 'sat':
            self.known_hits.append((label, self.assign(m)))
        elif r == 'unsat':
            self.stats['discharged'] += 1
        else:
            self.unknown.append(label)


def _or(a, b):
    return sym.mkbool(z3.simplify(z3.Or(zbool(a), zbool(b))))
