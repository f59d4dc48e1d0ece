"""Path exploration with z3.

The implementation runs under CPython on proxy values (vf.sym).  Every branch
on a proxy asks `Engine.decide`, which asks the solver which sides are feasible
under the path condition and schedules the untaken feasible side for a later
run.  Exploration is depth first by re-execution; the solver keeps the
assertions of the common prefix, so nothing is asserted twice.

Exhaustion of the decision tree means: the solver has shown, for every value of
the symbolic variables within the stated ranges, that no assertion fails.
"""
import time
import z3


class PathEnd(BaseException):
    """Ends the current path (not an Exception: code under test must not
    swallow it)."""


class Infeasible(PathEnd):
    pass


class Unsupported(Exception):
    """The encoding cannot represent what the code does with a proxy."""


class Budget(PathEnd):
    pass


class Decision(object):
    __slots__ = ('val', 'alt', 'level', 'expr')

    def __init__(self, val, alt, expr):
        self.val = val
        self.alt = alt      # the other side is feasible and not yet explored
        self.expr = expr


CURRENT = None


def cur():
    return CURRENT


class Engine(object):

    def __init__(self, deadline=None, max_paths=200000, query_ms=60000,
                 max_decisions=20000):
        self.solver = z3.SimpleSolver()
        self.solver.set('timeout', query_ms)
        self.decisions = []      # the path prefix, persisted between runs
        self.forced = []         # where to resume: [(value, alternative, int)]
        self.idx = 0
        self.model = None
        self.deadline = deadline
        self.max_paths = max_paths
        self.max_decisions = max_decisions
        self.queries = 0
        self.solver_time = 0.0
        self.paths = 0
        self.infeasible = 0
        self.ndecisions = 0
        self.unknowns = 0
        self.obligations = 0
        self.discharged = 0
        self.replaying_asserts = 0
        self._names = {}
        self.inputs = {}
        self.reached = {}
        self.functions = set()
        self.bounds = {}
        self.stated = set()
        self.facts = {}

    # -- one path ---------------------------------------------------------
    def start(self):
        self.idx = 0
        self._names = {}
        self.inputs = {}
        self.bounds = {}        # atom -> (lo, hi) known on this path
        self.stated = set()     # atoms whose range has been asserted
        self.facts = {}         # comparison -> truth value on this path

    def fresh(self, base):
        n = self._names.get(base, 0)
        self._names[base] = n + 1
        return base if n == 0 else '%s!%d' % (base, n)

    def _check(self, *extra):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget('time budget exhausted')
        t = time.time()
        if extra:
            self.solver.push()
            self.solver.add(*extra)
        r = self.solver.check()
        if extra:
            if r == z3.sat:
                self.last_model = self.solver.model()
            self.solver.pop()
        self.solver_time += time.time() - t
        self.queries += 1
        if r == z3.unknown:
            self.unknowns += 1
            raise Budget('solver answered unknown: %s'
                         % self.solver.reason_unknown())
        return r == z3.sat

    def in_prefix(self):
        return (self.idx < len(self.decisions) or
                len(self.decisions) < len(self.forced))

    def resuming(self):
        return (self.idx == len(self.decisions) and
                len(self.decisions) < len(self.forced))

    def resume_decision(self, expr, integer=False):
        val, alt, v = self.forced[len(self.decisions)]
        if integer != (v is not None):
            raise Unsupported('non-deterministic re-execution')
        if integer:
            e = expr == v
            expr = (e, v)
        else:
            e = expr
        self.decisions.append(Decision(val, alt, expr))
        self.idx += 1
        self.solver.push()
        self.model = None
        return val, v, e

    def token(self):
        """What is left to explore (after backtrack())."""
        return [(d.val, d.alt, d.expr[1] if isinstance(d.expr, tuple)
                 else None) for d in self.decisions]

    def split(self):
        """Give away the alternative nearest to the root, or None."""
        t = []
        for d in self.decisions:
            v = d.expr[1] if isinstance(d.expr, tuple) else None
            if d.alt:
                d.alt = False
                t.append((not d.val, False, v))
                return t
            t.append((d.val, False, v))
        return None

    def assume(self, expr):
        if expr is True:
            return
        if expr is False:
            raise Infeasible()
        if self.idx < len(self.decisions):
            return               # asserted when first met
        self.solver.add(expr)
        if self.resuming():
            return
        if self.model is not None and not z3.is_true(
                self.model.eval(expr, model_completion=True)):
            self.model = None

    def get_model(self):
        if self.model is None:
            if not self._check():
                raise Infeasible()
            self.model = self.solver.model()
        return self.model

    def feasible(self):
        """The path condition is satisfiable (raises Infeasible if not)."""
        if not self.in_prefix():
            self.get_model()

    def note(self, key, val):
        """Remember what this path has decided; narrow the range of an atom."""
        self.facts[key] = val
        op, k, c = key
        if op == 'ne':
            op, val = 'eq', not val
            self.facts[('eq', k, c)] = val
        elif op == 'eq':
            self.facts[('ne', k, c)] = not val
        else:
            self.facts[('le', tuple((i, -q) for i, q in k), 1 - c)] = not val
        if len(k) != 1:
            return
        i, q = k[0]
        lo, hi = self.bounds.get(i, (None, None))
        if op == 'eq':
            v, r = divmod(-c, q)
            if r:
                return
            if val:
                lo = hi = v
            elif lo is not None and v == lo:
                lo += 1
            elif hi is not None and v == hi:
                hi -= 1
            else:
                return
        else:
            if not val:            # -q*x - c + 1 <= 0
                q, c = -q, 1 - c
            # q*x <= -c
            if q > 0:
                b = (-c) // q
                hi = b if hi is None else min(hi, b)
            else:
                b = -((-c) // -q)
                lo = b if lo is None else max(lo, b)
        self.bounds[i] = (lo, hi)

    def decide(self, cond):
        """The truth of a SymBool on this path (forks when both are possible).
        """
        key = cond.key
        if key is not None:
            v = self.facts.get(key)
            if v is not None:
                return v
        else:
            e = cond.e
            if z3.is_true(e):
                return True
            if z3.is_false(e):
                return False
        if self.idx < len(self.decisions):
            d = self.decisions[self.idx]
            self.idx += 1
            if isinstance(d.expr, tuple):
                raise Unsupported('non-deterministic re-execution')
            if key is not None:
                self.note(key, d.val)
            return d.val
        if self.resuming():
            v, _, e = self.resume_decision(cond.e)
            self.solver.add(e if v else z3.Not(e))
            if key is not None:
                self.note(key, v)
            return v
        if len(self.decisions) > self.max_decisions:
            raise Budget('too many decisions on one path')
        expr = cond.e
        m = self.get_model()
        v = z3.is_true(m.eval(expr, model_completion=True))
        other = z3.Not(expr) if v else expr
        alt = self._check(other)
        d = Decision(v, alt, expr)
        self.decisions.append(d)
        self.idx += 1
        self.ndecisions += 1
        self.solver.push()
        self.solver.add(expr if v else z3.Not(expr))
        if key is not None:
            self.note(key, v)
        return v

    def entailed(self, cond):
        """Does the path condition imply cond?  Decides nothing."""
        if cond is True or cond is False:
            return cond
        if cond.key is not None:
            v = self.facts.get(cond.key)
            if v is not None:
                return v
        e = cond.e
        if z3.is_true(e) or z3.is_false(e):
            return z3.is_true(e)
        if self.idx < len(self.decisions):
            d = self.decisions[self.idx]
            self.idx += 1
            v = d.val
        elif self.resuming():
            v, _, e = self.resume_decision(e)
            if v:
                self.solver.add(e)
        else:
            v = z3.is_true(self.get_model().eval(e, model_completion=True)) \
                and not self._check(z3.Not(e))
            self.decisions.append(Decision(v, False, e))
            self.idx += 1
            self.solver.push()
            if v:
                self.solver.add(e)
        if v and cond.key is not None:
            self.note(cond.key, True)
        return v

    def check(self, expr, on_fail):
        """Assert `expr`: ask the solver for values on this path that falsify
        it.  on_fail(model, failing) is called with them."""
        if self.in_prefix():
            return
        if expr is True or (expr is not False and z3.is_true(expr)):
            self.feasible()
            self.obligations += 1
            self.discharged += 1
            return
        self.obligations += 1
        if expr is False or z3.is_false(expr):
            on_fail(self.get_model(), z3.BoolVal(True))
            raise PathEnd()
        if self._check(z3.Not(expr)):
            on_fail(self.last_model, z3.Not(expr))
            self.assume(expr)
            if not self._check():
                raise PathEnd()
            self.model = None
        else:
            self.discharged += 1

    def small_model(self, model, failing, hints):
        """A model of the path condition and `failing` that meets as many of
        the hints as possible, taken in order."""
        n = self.solver.num_scopes()
        try:
            self.solver.push()
            self.solver.add(failing)
            for h in hints:
                self.solver.push()
                self.solver.add(h)
                if self.solver.check() == z3.sat:
                    model = self.solver.model()
                else:
                    self.solver.pop()
        finally:
            self.solver.pop(self.solver.num_scopes() - n)
        return model

    def realize_int(self, x, limit=70000):
        """A concrete value of the SymInt x: forks over every feasible one."""
        for _ in range(limit):
            if self.resuming():
                val, v, e = self.resume_decision(x.e, True)
                self.solver.add(e if val else z3.Not(e))
                self.note(('eq', x.k, x.c - v), val)
                if val:
                    return v
                continue
            if self.idx < len(self.decisions):
                d = self.decisions[self.idx]
                v = d.expr[1] if isinstance(d.expr, tuple) else None
                if v is None:
                    raise Unsupported('non-deterministic re-execution')
                self.idx += 1
                self.note(('eq', x.k, x.c - v), d.val)
                if d.val:
                    return v
                continue
            expr = x.e
            m = self.get_model()
            v = m.eval(expr, model_completion=True)
            if not z3.is_int_value(v):
                raise Unsupported('no integer value for %s' % expr)
            v = v.as_long()
            eq = expr == v
            alt = self._check(z3.Not(eq))
            d = Decision(True, alt, (eq, v))
            self.decisions.append(d)
            self.idx += 1
            self.ndecisions += 1
            self.solver.push()
            self.solver.add(eq)
            self.note(('eq', x.k, x.c - v), True)
            return v
        raise Budget('too many values to enumerate')

    def backtrack(self):
        """Prepare the next path. False when the tree is exhausted."""
        if len(self.decisions) < len(self.forced):
            raise Unsupported('non-deterministic re-execution')
        self.forced = []
        while self.decisions:
            d = self.decisions[-1]
            self.solver.pop()
            if d.alt:
                e = d.expr[0] if isinstance(d.expr, tuple) else d.expr
                d.val = not d.val
                d.alt = False
                self.solver.push()
                self.solver.add(e if d.val else z3.Not(e))
                self.model = None
                return True
            self.decisions.pop()
        return False
