"""Path exploration: exhaustive depth-first symbolic execution by re-execution, with one incremental z3 solver.

A *path* is identified by its sequence of branch decisions.  Every decision is a z3 condition; a side is followed only if the
solver finds it feasible together with the path condition.  No side is dropped without an `unsat` verdict; `unknown` and
unsupported operations are recorded as inconclusive (see Engine.residual).
"""
import time
import z3


class Steer(BaseException):
    """Control flow of the engine; derives from BaseException so that the code under test cannot catch it."""


class IgnorePath(Steer):
    pass


class Unsupported(Steer):
    def __init__(self, why):
        super().__init__(why)
        self.why = why


class Violation(Steer):
    def __init__(self, label, model):
        super().__init__(label)
        self.label = label
        self.model = model


class OutOfBudget(Steer):
    pass


class Entry(object):
    __slots__ = ('cond', 'taken', 'alt', 'alt_model', 'framed', 'n', 'kind')


def same_cond(a, b):
    """Same condition; z3's simplifier may order the arguments of a re-created term differently."""
    if a is b or a.eq(b):
        return True
    s = z3.Solver()
    s.set('timeout', 2000)
    s.add(a != b)
    return s.check() == z3.unsat


_SIMP = {}


def simp(e):
    """z3.simplify, remembered per term (terms are hash-consed, and the cache keeps them alive)."""
    k = e.get_id()
    r = _SIMP.get(k)
    if r is None:
        if len(_SIMP) > 400000:
            _SIMP.clear()
        r = z3.simplify(e)
        _SIMP[k] = (e, r)
        _SIMP[r.get_id()] = (r, r)
        return r
    return r[1]


_SIMPB = {}


def simpb(e):
    """Simplified Boolean term, or True / False."""
    k = e.get_id()
    r = _SIMPB.get(k)
    if r is None:
        if len(_SIMPB) > 400000:
            _SIMPB.clear()
        r = z3.simplify(e)
        if z3.is_true(r):
            r = True
        elif z3.is_false(r):
            r = False
        else:
            _SIMPB[r.get_id()] = (r, r)
        _SIMPB[k] = (e, r)
        return r
    return r[1]


ENGINE = None


def engine():
    return ENGINE


class Engine(object):
    def __init__(self, solver_timeout_ms=20000, max_depth=4000, seed=1):
        global ENGINE
        ENGINE = self
        self.solver = z3.Solver()
        self.solver.set('timeout', solver_timeout_ms)
        self.solver.set('random_seed', seed)
        self.stack = []
        self.pos = 0
        self.model = None
        self.max_depth = max_depth
        self.stats = {'queries': 0, 'sat': 0, 'unsat': 0, 'unknown': 0, 'solver_s': 0.0, 'paths': 0, 'branches': 0,
                      'checks': 0, 'forced': 0, 'states': 0, 'transitions': 0}
        self.unknown_here = False
        self.deadline = None
        self.path_deadline = None
        self.path_limit_s = 120.0
        self.names = {}
        self.facts = set()

    # -- solver ---------------------------------------------------------------------------------------------
    def _check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        dt = time.time() - t
        st = self.stats
        st['solver_s'] += dt
        st['queries'] += 1
        st[str(r)] += 1
        return r

    def _push(self, cond):
        self.solver.push()
        self.solver.add(cond)

    def current_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.sat:
                self.model = self.solver.model()
            elif r == z3.unsat:
                raise IgnorePath()
            else:
                raise Unsupported('solver returned unknown')
        return self.model

    # -- variables ------------------------------------------------------------------------------------------
    def fresh_name(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return base if n == 0 else '%s#%d' % (base, n)

    # -- decisions ------------------------------------------------------------------------------------------
    def _tick(self):
        now = time.time()
        if self.deadline is not None and now > self.deadline:
            raise OutOfBudget()
        if self.path_deadline is not None and now > self.path_deadline:
            raise Unsupported('path exceeded its time limit')

    def branch(self, cond):
        """Decides a z3 condition on the current path; explores the other side later if it is feasible."""
        if isinstance(cond, bool):
            return cond
        cond = simpb(cond)
        if cond is True or cond is False:
            return cond
        return self._decide(cond)

    def _decide(self, cond):
        self.stats['branches'] += 1
        i = self.pos
        if i < len(self.stack):
            e = self.stack[i]
            if e.kind != 'b' or not same_cond(e.cond, cond):
                raise Unsupported('non-deterministic re-execution')
            self.pos += 1
            return e.taken
        self._tick()
        if i >= self.max_depth:
            raise Unsupported('path longer than %d decisions' % self.max_depth)
        m = self.current_model()
        v = m.eval(cond, model_completion=True)
        side = z3.is_true(v)
        other = z3.Not(cond) if side else cond
        self.solver.push()
        self.solver.add(other)
        r = self._check()
        e = Entry()
        e.cond = cond
        e.kind = 'b'
        e.taken = side
        e.alt = False
        e.alt_model = None
        e.n = 0
        if r == z3.sat:
            e.alt = True
            e.alt_model = self.solver.model()
        elif r == z3.unknown:
            self.unknown_here = True
        self.solver.pop()
        if r == z3.unsat:
            self.stats['forced'] += 1
            e.framed = False
        else:
            self._push(cond if side else z3.Not(cond))
            e.framed = True
        self.stack.append(e)
        self.pos += 1
        self.stats['states'] += 1
        self.stats['transitions'] += 1
        return side

    def assume(self, cond):
        """Adds a condition to the path; the path is dropped if the condition cannot hold."""
        if isinstance(cond, bool):
            if not cond:
                raise IgnorePath()
            return
        cond = simpb(cond)
        if cond is True:
            return
        if cond is False:
            raise IgnorePath()
        i = self.pos
        if i < len(self.stack):
            e = self.stack[i]
            if e.kind != 'a' or not same_cond(e.cond, cond):
                raise Unsupported('non-deterministic re-execution')
            self.pos += 1
            return
        e = Entry()
        e.cond = cond
        e.kind = 'a'
        e.taken = True
        e.alt = False
        e.alt_model = None
        e.framed = True
        e.n = 0
        self._push(cond)
        self.stack.append(e)
        self.pos += 1
        if self.model is not None and not z3.is_true(self.model.eval(cond, model_completion=True)):
            self.model = None
            self.current_model()

    def entails(self, cond):
        """True if the path condition implies cond (asks the solver; adds nothing)."""
        if isinstance(cond, bool):
            return cond
        cond = simpb(cond)
        if cond is True or cond is False:
            return cond
        key = ('entails', cond)
        i = self.pos
        if i < len(self.stack):
            e = self.stack[i]
            if e.kind != 'e' or not same_cond(e.cond, cond):
                raise Unsupported('non-deterministic re-execution')
            self.pos += 1
            return e.taken
        self.solver.push()
        self.solver.add(z3.Not(cond))
        r = self._check()
        self.solver.pop()
        e = Entry()
        e.cond = cond
        e.kind = 'e'
        e.taken = r == z3.unsat
        e.alt = False
        e.alt_model = None
        e.framed = False
        e.n = 0
        self.stack.append(e)
        self.pos += 1
        if r == z3.unknown:
            self.unknown_here = True
        return e.taken

    def check(self, cond, label):
        """Asserts a property on the path: asks the solver for a value violating it."""
        self.stats['checks'] += 1
        if isinstance(cond, bool):
            if cond:
                return
            raise Violation(label, self.current_model())
        cond = simpb(cond)
        if cond is True:
            return
        if cond is False:
            raise Violation(label, self.current_model())
        i = self.pos
        if i < len(self.stack):
            e = self.stack[i]
            if e.kind != 'c' or not same_cond(e.cond, cond):
                raise Unsupported('non-deterministic re-execution')
            self.pos += 1
            return
        self.solver.push()
        self.solver.add(z3.Not(cond))
        r = self._check()
        if r == z3.sat:
            m = self.solver.model()
            self.solver.pop()
            raise Violation(label, m)
        self.solver.pop()
        if r == z3.unknown:
            raise Unsupported('solver returned unknown on assertion ' + label)
        e = Entry()
        e.cond = cond
        e.kind = 'c'
        e.taken = True
        e.alt = False
        e.alt_model = None
        e.framed = False
        e.n = 0
        self.stack.append(e)
        self.pos += 1

    def _candidate(self, expr):
        """a possible value of an integer term on this path"""
        # the candidate is recorded so that it is the same when the prefix is re-executed
        if self.pos < len(self.stack):
            e = self.stack[self.pos]
            if e.kind != 'v':
                raise Unsupported('non-deterministic re-execution')
            self.pos += 1
            v = e.n
        else:
            v = self.current_model().eval(expr, model_completion=True).as_long()
            e = Entry()
            e.cond = None
            e.kind = 'v'
            e.taken = True
            e.alt = False
            e.alt_model = None
            e.framed = False
            e.n = v
            self.stack.append(e)
            self.pos += 1
        return v

    def known_int(self, expr):
        """The value of an integer term if the path condition determines it, else None."""
        expr = simp(expr)
        if z3.is_int_value(expr):
            return expr.as_long()
        v = self._candidate(expr)
        return v if self.entails(expr == v) else None

    def realize_int(self, expr, cap=40):
        """Exhaustive case split over the values of an integer term (capped)."""
        expr = simp(expr)
        if z3.is_int_value(expr):
            return expr.as_long()
        for _ in range(cap):
            v = self._candidate(expr)
            if self.branch(expr == v):
                return v
        raise Unsupported('more than %d values in case split of an integer' % cap)

    # -- exploration ----------------------------------------------------------------------------------------
    def start_path(self):
        self.pos = 0
        self.names = {}
        self.unknown_here = False
        self.path_deadline = time.time() + self.path_limit_s

    def next_path(self):
        """Backtracks to the deepest decision with an unexplored feasible side. False if there is none."""
        while self.stack:
            e = self.stack.pop()
            if e.framed:
                self.solver.pop()
            if e.alt:
                e.taken = not e.taken
                e.alt = False
                self.model = e.alt_model
                e.alt_model = None
                self._push(e.cond if e.taken else z3.Not(e.cond))
                e.framed = True
                self.stack.append(e)
                self.stats['transitions'] += 1
                return True
        return False

    def reset(self):
        while self.stack:
            e = self.stack.pop()
            if e.framed:
                self.solver.pop()
        self.model = None
