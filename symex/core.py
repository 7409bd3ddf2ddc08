"""Path exploration: decision trail, incremental solver, branching.

One `Ctx` explores one harness case by deterministic re-execution (depth first).
Every decision that depends on a symbolic value is put to the z3 solver; an
alternative is explored exactly when the solver says it is feasible.
"""
import time
import z3
from . import fz


class Control(BaseException):
    """Base of the engine's control flow (never caught by code under test)."""


class PathAbort(Control):
    """The path's assumptions are unsatisfiable."""


class Unsupported(Control):
    """Something the encoder cannot represent."""


class Budget(Control):
    """Time budget of the case is used up."""


class StepLimit(Control):
    """Loop iteration budget of one path is used up (possible non-termination)."""


class Stop(Control):
    """Stop exploring this case (violation found)."""


class Nondet(Control):
    """Engine fault: re-execution took a different course."""


class Violation(Control):
    def __init__(self, label, detail=''):
        Control.__init__(self, label, detail)
        self.label = label
        self.detail = detail


class Entry:
    __slots__ = ('cond', 'taken', 'val', 'implied', 'alts', 'pushed', 'kind')

    def __init__(self, cond, taken, val, implied, alts, pushed, kind='b'):
        self.kind = kind          # b branch, c choice, r realised value, a assumption
        self.cond = cond          # z3 Bool, or None for a choice
        self.taken = taken        # bool, or the index of a choice
        self.val = val            # payload (realised value / number of choices)
        self.implied = implied    # the other side is infeasible
        self.alts = alts          # list of (taken, model) still to explore
        self.pushed = pushed


class Ctx:
    QUERY_MS = 40000

    def __init__(self):
        self.solver = z3.Solver()
        self.solver.set("timeout", 6000)
        self.trail = []
        self.pos = 0
        self.forced = []
        self.model = None
        self.stats = dict(queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, branches=0,
                          implied=0, checks=0, discharged=0, maxdepth=0)
        self.inconclusive = {}
        self.steps = 0
        self.step_limit = 200000
        self.deadline = None
        self.names = {}
        self.inputs = []
        self.active = False
        self.hard = False
        self._n = 0

    # ---- solver -------------------------------------------------------
    def _intform(self, raw):
        fs = list(self.solver.assertions())
        if raw is not None:
            fs[-1] = raw
        return fs

    def _check(self, *assumps, raw=None):
        t = time.time()
        self.stats['queries'] += 1
        self._fallback = None
        r = z3.unknown
        tried = False
        if self.hard:
            # bit-blasting stalled on this case before
            from . import toint
            r, f = toint.solve(self._intform(raw), self.QUERY_MS)
            tried = True
            if r == z3.sat:
                self._fallback = f
        if r == z3.unknown:
            r = self.solver.check(*assumps)
        if r == z3.unknown and not tried:
            from . import toint
            r, f = toint.solve(self._intform(raw), self.QUERY_MS)
            if r != z3.unknown:
                self.hard = True
                self._fallback = f
        if r == z3.unknown:
            # second opinion: a fresh, non-incremental solver
            # (restarts: the time such a query takes varies widely with the seed)
            for seed in range(1, 7):
                s = z3.Solver()
                s.set('timeout', self.QUERY_MS // 5)
                s.set('random_seed', seed)
                if seed % 2:
                    s.set('phase_selection', 5)
                s.add(self.solver.assertions())
                for a in assumps:
                    s.add(a)
                r = s.check()
                self._fallback = s
                if r != z3.unknown:
                    break
        self.stats['solver_s'] += time.time() - t
        self.stats['sat' if r == z3.sat else 'unsat' if r == z3.unsat else 'unknown'] += 1
        return r

    def _get_model(self):
        return (self._fallback or self.solver).model()

    def check_with(self, cond, raw=None):
        """Feasibility of `cond` with the path condition: (result, model).
        `raw`: the same condition before simplification, kinder to the integer
        translation."""
        self.solver.push()
        try:
            self.solver.add(cond)
            r = self._check(raw=raw)
            return r, (self._get_model() if r == z3.sat else None)
        finally:
            self.solver.pop()

    def cur_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise PathAbort()
            if r == z3.unknown:
                self.note('solver: path condition unknown')
                raise PathAbort()
            self.model = self._get_model()
        return self.model

    def note(self, why):
        self.inconclusive[why] = self.inconclusive.get(why, 0) + 1

    # ---- decisions ----------------------------------------------------
    def _deadline(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget()

    def branch(self, cond, val=None):
        """Decide a z3 Bool on this path; fork when both sides are feasible."""
        if fz.is_true(cond):
            return True
        if fz.is_false(cond):
            return False
        i = self.pos
        if i < len(self.trail):
            e = self.trail[i]
            if e.kind != 'b' or not fz.same(e.cond, cond):
                raise Nondet('non-deterministic re-execution: %s vs %s' % (e.cond, cond))
            self.pos = i + 1
            return e.taken
        self._deadline()
        self.stats['branches'] += 1
        if i < len(self.forced):
            kind, taken, v = self.forced[i]
            self.pos = i + 1
            if kind == 'i':
                self.trail.append(Entry(cond, taken, v, True, [], False))
            else:
                self.solver.push()
                self.solver.add(cond if taken else fz.not_(cond))
                self.model = None
                self.trail.append(Entry(cond, taken, v, False, [], True))
            return taken
        m = self.cur_model()
        sc = z3.simplify(cond)
        if fz.is_true(sc) or fz.is_false(sc):
            taken = fz.is_true(sc)
            self.trail.append(Entry(cond, taken, val, True, [], False))
            self.pos = i + 1
            self.stats['implied'] += 1
            return taken
        v = m.eval(sc, model_completion=True)
        taken = fz.is_true(v)
        if not taken and not fz.is_false(v):
            # model could not decide (algebraic values etc.): ask
            r, mm = self.check_with(sc)
            taken = (r == z3.sat)
            if taken:
                self.model = mm
        other = fz.not_(sc) if taken else sc
        r, om = self.check_with(other, fz.not_(cond) if taken else cond)
        if r == z3.unknown:
            self.note('solver: branch feasibility unknown')
        self.pos = i + 1
        if r == z3.sat:
            self.solver.push()
            self.solver.add(cond if taken else fz.not_(cond))
            self.trail.append(Entry(cond, taken, val, False, [(not taken, om)], True))
        else:
            self.stats['implied'] += 1
            self.trail.append(Entry(cond, taken, val, True, [], False))
        if len(self.trail) > self.stats['maxdepth']:
            self.stats['maxdepth'] = len(self.trail)
        return taken

    def choose(self, n):
        """Fork over 0..n-1 without the solver."""
        if n <= 1:
            return 0
        i = self.pos
        if i < len(self.trail):
            e = self.trail[i]
            if e.kind != 'c' or e.val != n:
                raise Nondet('non-deterministic re-execution (choice)')
            self.pos = i + 1
            return e.taken
        self._deadline()
        self.pos = i + 1
        if i < len(self.forced):
            kind, taken, v = self.forced[i]
            self.trail.append(Entry(None, taken, n, False, [], False, 'c'))
            return taken
        self.trail.append(Entry(None, 0, n, False, [(k, False) for k in range(n - 1, 0, -1)], False, 'c'))
        return 0

    def realize(self, expr):
        """Make a z3 expression concrete on this path; one trail entry that is
        re-opened on backtracking until the solver has no further value."""
        if z3.is_bv_value(expr):
            return expr
        i = self.pos
        if i < len(self.trail):
            e = self.trail[i]
            if e.kind != 'r' or not fz.same(e.cond, expr):
                raise Nondet('non-deterministic re-execution (realize)')
            self.pos = i + 1
            return e.taken
        self._deadline()
        excl = []
        if i < len(self.forced):
            kind, taken, v = self.forced[i]
            if kind == 'i':
                v = _from_rec(taken)
                self.trail.append(Entry(expr, v, None, True, [], False, 'r'))
                self.pos = i + 1
                return v
            if kind == 'd':
                v = _from_rec(taken)
                self.solver.push()
                self.solver.add(expr == v)
                self.model = None
                self.trail.append(Entry(expr, v, None, False, [], True, 'r'))
                self.pos = i + 1
                return v
            excl = list(v)
            m = self._excluding(expr, excl)
            if m is None:
                raise PathAbort()
            self.model = m
        expr_s = z3.simplify(expr)
        m = self.cur_model()
        v = m.eval(expr_s, model_completion=True)
        _to_rec(v)
        self.stats['branches'] += 1
        if not excl and v.eq(expr_s):
            self.trail.append(Entry(expr, v, None, True, [], False, 'r'))
        else:
            self.solver.push()
            self.solver.add(expr_s == v)
            self.trail.append(Entry(expr, v, excl, False, [True], True, 'r'))
        self.pos = i + 1
        return v

    def _excluding(self, expr, recs):
        """a model in which expr has a value outside `recs`"""
        r, m = self.check_with(z3.And([expr != _from_rec(x) for x in recs]))
        if r == z3.unknown:
            self.note('solver: realisation unknown')
        return m if r == z3.sat else None

    def assume(self, cond):
        """Add an assumption; abandon the path when it is infeasible."""
        if fz.is_true(cond):
            return
        i = self.pos
        if i < len(self.trail):
            e = self.trail[i]
            if e.kind != 'a' or not fz.same(e.cond, cond):
                raise Nondet('non-deterministic re-execution (assume)')
            self.pos = i + 1
            return
        if i < len(self.forced):
            kind, taken, v = self.forced[i]
            self.pos = i + 1
            self.solver.push()
            self.solver.add(cond)
            self.model = None
            self.trail.append(Entry(cond, True, v, False, [], True, 'a'))
            return
        self._deadline()
        ok = False
        if self.model is not None:
            ok = fz.is_true(self.model.eval(cond, model_completion=True))
        if not ok:
            r, m = self.check_with(cond)
            if r == z3.unknown:
                self.note('solver: assumption unknown')
            if r != z3.sat:
                raise PathAbort()
            self.model = m
        self.solver.push()
        self.solver.add(cond)
        self.pos = i + 1
        self.trail.append(Entry(cond, True, None, False, [], True, 'a'))

    def must(self, cond):
        """(True, None) when the solver shows `cond` on every value of this path,
        (False, model) with a counterexample, (None, None) when unknown."""
        self.stats['checks'] += 1
        sc = z3.simplify(cond)
        if fz.is_true(sc):
            self.stats['discharged'] += 1
            return True, None
        if self.model is not None and fz.is_false(self.model.eval(sc, model_completion=True)):
            return False, self.model
        self._deadline()
        r, m = self.check_with(fz.not_(sc), fz.not_(cond))
        if r == z3.unsat:
            self.stats['discharged'] += 1
            return True, None
        if r == z3.sat:
            return False, m
        self.note('solver: check unknown')
        return None, None

    # ---- exploration --------------------------------------------------
    def begin(self):
        self.pos = 0
        self.steps = 0
        self._n = 0
        self.names = {}
        self.inputs = []
        self.active = True
        self.uf_facts = {}
        self.uf_apps = {}
        self.aes_pairs = []

    def end(self):
        self.active = False

    def next_path(self):
        """Backtrack to the deepest open alternative; False when there is none."""
        while self.trail:
            e = self.trail[-1]
            if e.pushed:
                self.solver.pop()
                e.pushed = False
            if e.alts and e.kind == 'r':
                e.val.append(_to_rec(e.taken))
                m = self._excluding(e.cond, e.val)
                if m is None:
                    self.trail.pop()
                    continue
                e.taken = m.eval(e.cond, model_completion=True)
                self.solver.push()
                self.solver.add(e.cond == e.taken)
                e.pushed = True
                self.model = m
                return True
            if e.alts:
                taken, m = e.alts.pop()
                e.taken = taken
                if e.cond is not None:
                    self.solver.push()
                    self.solver.add(e.cond if taken else fz.not_(e.cond))
                    e.pushed = True
                    self.model = m
                else:
                    self.model = None
                return True
            self.trail.pop()
        return False

    def donate(self):
        """Give away the shallowest open alternative as a forced prefix."""
        for i, e in enumerate(self.trail):
            if e.alts:
                pre = []
                for x in self.trail[:i]:
                    pre.append(('i' if x.implied else 'd', _to_rec(x.taken) if x.kind == 'r' else x.taken, None))
                if e.kind == 'r':
                    e.alts = []
                    pre.append(('R', None, e.val + [_to_rec(e.taken)]))
                else:
                    taken, _m = e.alts.pop(0)
                    pre.append(('d', taken, None))
                return pre
        return None

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.step_limit:
            raise StepLimit()
        if not self.steps & 1023:
            self._deadline()


def _to_rec(v):
    if z3.is_bv_value(v):
        return ('bv', v.as_long(), v.size())
    if z3.is_int_value(v):
        return ('int', v.as_long())
    if z3.is_rational_value(v):
        return ('real', v.numerator_as_long(), v.denominator_as_long())
    if fz.is_true(v) or fz.is_false(v):
        return ('bool', fz.is_true(v))
    raise Unsupported('cannot make %s concrete' % v.sexpr()[:80])


def _from_rec(r):
    if r[0] == 'bv':
        return z3.BitVecVal(r[1], r[2])
    if r[0] == 'int':
        return z3.IntVal(r[1])
    if r[0] == 'real':
        return z3.Q(r[1], r[2])
    return z3.BoolVal(r[1])


C = Ctx()


def reset():
    C.__init__()
    return C
