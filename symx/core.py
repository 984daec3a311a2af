"""Path-complete symbolic execution of real Python code, decided by an SMT solver.

The code under test runs on CPython itself, with proxies (values.py) standing for
symbolic inputs.  Every branch on a symbolic condition comes to `Engine.fork`: the
solver says which sides are feasible and both feasible sides are explored (depth
first, by re-execution along a recorded prefix of decisions).  `check` discharges
an assertion: the solver has to answer unsat to "path condition and not assertion",
which covers every value of every symbolic variable that follows that path.
"""

from time import perf_counter as _clock
from fractions import Fraction

import z3

ENGINE = None  # the engine of the path being executed, if any


class SymxError(BaseException):
    """The engine cannot go on: inconclusive, never a verdict."""


class Unsupported(SymxError):
    pass


class NonDeterminism(SymxError):
    pass


class Inconclusive(SymxError):
    pass


class PathInfeasible(BaseException):
    pass


class PathEnd(BaseException):
    """The harness ends the path early (bound reached in a stated way)."""


class ViolationFound(BaseException):
    pass


class _Entry:
    __slots__ = ("cond", "value", "alt", "pushed", "alt_model")

    def __init__(self, cond, value, alt, pushed, alt_model=None):
        self.cond, self.value, self.alt, self.pushed = cond, value, alt, pushed
        self.alt_model = alt_model


def pyval(v):
    """A z3 model value as a Python value."""
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        f = Fraction(v.numerator_as_long(), v.denominator_as_long())
        return f
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_string_value(v):
        return v.as_string()
    raise Inconclusive(f"model value {v!r}")


class Stats:
    FIELDS = (
        "paths", "infeasible", "forks", "forced", "queries", "checks", "checks_solver",
        "assumes", "solver_s", "exec_s", "steps",
    )

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def as_dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}

    def add(self, d):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + d.get(f, 0))


class Engine:
    symbolic = True

    def __init__(self, prefix=(), *, query_timeout_ms=60000):
        self.prefix = list(prefix)
        self.stack = []
        self.solver = z3.Solver()
        self.solver.set("timeout", query_timeout_ms)
        self.stats = Stats()
        self.model = None
        self.asked = None  # when the query in progress was asked
        self.violations = []
        self.covers = set()
        self.samples = []
        self.reset_path()

    def stop(self, exc):
        """Ends the path.  The exception may be raised inside a task, which would keep
        it: the loop looks at `abort` after every callback."""
        if self.abort is None:
            self.abort = exc
        raise exc

    # ---- one path -----------------------------------------------------
    def reset_path(self):
        self.idx = 0
        self.abort = None
        self.decided = {}
        self.vars = {}
        self.order = []
        self.obs = []
        self.notes = []
        self.names = {}

    def fresh(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return f"{name}#{n}" if n else name

    def var(self, name, sort, *doms):
        """A fresh symbolic variable; `doms` are its domain constraints."""
        name = self.fresh(name)
        v = z3.Const(name, sort)
        self.vars[name] = v
        self.order.append(name)
        for d in doms:
            self._assume(d(v), trusted=True)
        return v

    def _query(self, *extra):
        self.asked = t = _clock()
        r = self.solver.check(*extra)
        self.stats.solver_s += _clock() - t
        self.asked = None
        self.stats.queries += 1
        if r == z3.unknown:
            self.stop(Inconclusive(f"solver: unknown ({self.solver.reason_unknown()})"))
        if r == z3.sat:
            return self.solver.model()
        return None

    def _holds_in_model(self, cond):
        if self.model is None:
            return None
        v = self.model.eval(cond, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def _push(self, cond):
        self.solver.push()
        self.solver.add(cond)

    def _assume(self, cond, trusted=False):
        i = self.idx
        if i < len(self.stack):
            self.idx += 1
            if not self.stack[i].cond.eq(cond):
                self.stop(NonDeterminism(f"assumption {i}: {self.stack[i].cond} then {cond}"))
            return
        if i >= len(self.prefix) and not trusted:
            if not self._holds_in_model(cond):
                m = self._query(cond)
                if m is None:
                    self.stop(PathInfeasible())
                self.model = m
        elif self._holds_in_model(cond) is not True:
            self.model = None
        self._push(cond)
        self.stack.append(_Entry(cond, True, False, True))
        self.stats.assumes += 1
        self.idx += 1

    def fork(self, cond):
        """The truth of `cond` on this path; explores the other side later."""
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        # What was decided on this path stays: sets compare the same keys twice,
        # depending on where in memory other keys lie.
        k = cond.get_id()
        known = self.decided.get(k)
        if known is not None:
            return known[1]
        value = self._fork(cond)
        self.decided[k] = (cond, value)
        return value

    def _fork(self, cond):
        i = self.idx
        self.idx += 1
        if i < len(self.stack):
            e = self.stack[i]
            if not e.cond.eq(cond):
                self.stop(NonDeterminism(f"decision {i}: {e.cond} then {cond}"))
            return e.value
        if i < len(self.prefix):
            value = self.prefix[i]
            c = cond if value else z3.Not(cond)
            if self._holds_in_model(c) is not True:
                self.model = None
            self._push(c)
            self.stack.append(_Entry(cond, value, False, True))
            return value
        simp = z3.simplify(cond)
        if z3.is_true(simp) or z3.is_false(simp):
            value = z3.is_true(simp)
            self.stack.append(_Entry(cond, value, False, False))
            self.stats.forced += 1
            return value
        if self.model is None:
            self.model = self._query()
            if self.model is None:
                self.stop(PathInfeasible())
        known = self._holds_in_model(cond)
        m_true = self.model if known is True else None
        m_false = self.model if known is False else None
        if m_true is None:
            m_true = self._query(cond)
        if m_false is None:
            m_false = self._query(z3.Not(cond))
        if m_true is None and m_false is None:
            self.stop(PathInfeasible())
        if m_true is None or m_false is None:
            value = m_true is not None
            self.model = m_true if value else m_false
            self.stack.append(_Entry(cond, value, False, False))
            self.stats.forced += 1
            return value
        self.stats.forks += 1
        value = True
        self.model = m_true
        self._push(cond)
        self.stack.append(_Entry(cond, value, True, True, m_false))
        return value

    def must(self, cond):
        """Is `cond` true for every value on this path?  Decided by the solver."""
        if z3.is_true(cond):
            return True
        if self._holds_in_model(cond) is False:
            return False
        return self._query(z3.Not(cond)) is None

    def check(self, cond, msg):
        self.stats.checks += 1
        if cond is True:
            return
        if cond is False:
            m = self.model if self.model is not None else self._query()
            if m is None:
                self.stop(PathInfeasible())
        else:
            if z3.is_true(z3.simplify(cond)):
                return
            self.stats.checks_solver += 1
            m = self._query(z3.Not(cond))
            if m is None:
                return
        self.violations.append({"msg": msg, "values": self.assignment(m), "notes": list(self.notes)})
        self.stop(ViolationFound(msg))

    def assignment(self, m):
        out = {}
        for name in self.order:
            out[name] = pyval(m.eval(self.vars[name], model_completion=True))
        return out

    # ---- exploration --------------------------------------------------
    def backtrack(self):
        """To the next open alternative; False when there is none."""
        while self.stack:
            e = self.stack[-1]
            if e.pushed:
                self.solver.pop()
            if e.alt:
                e.alt = False
                e.value = not e.value
                self.model, e.alt_model = e.alt_model, None
                self._push(e.cond if e.value else z3.Not(e.cond))
                return True
            self.stack.pop()
        return False

    def open_prefixes(self):
        """The prefixes of decisions of every alternative not yet explored."""
        out, values = [], []
        for e in self.stack:
            if e.alt:
                out.append(values + [not e.value])
            values.append(e.value)
        return out


def explore(harness_run, prefix, *, max_s=None, max_paths=None, want_samples=0, tolerate=()):
    """Explores the subtree under `prefix` until done or the slice is used up.

    Ends at the first violation whose message is not in `tolerate`.
    Returns (engine, open prefixes)."""
    global ENGINE
    eng = Engine(prefix)
    t0 = _clock()
    opened = []
    while True:
        eng.reset_path()
        ENGINE = eng
        te = _clock()
        try:
            harness_run(eng)
            eng.stats.paths += 1
            if len(eng.samples) < want_samples:
                _sample(eng)
        except PathInfeasible:
            eng.stats.infeasible += 1
        except PathEnd:
            eng.stats.paths += 1
        except ViolationFound:
            eng.stats.paths += 1
        finally:
            ENGINE = None
            eng.stats.exec_s += _clock() - te
        if eng.violations and eng.violations[-1]["msg"] not in tolerate:
            break
        if (max_s is not None and _clock() - t0 > max_s) or (
            max_paths is not None and eng.stats.paths >= max_paths
        ):
            opened = eng.open_prefixes()
            break
        if not eng.backtrack():
            break
    return eng, opened


def _sample(eng):
    m = eng.model if eng.model is not None else eng._query()
    if m is None:
        return
    from symx.values import concretize

    eng.samples.append(
        {"values": eng.assignment(m), "obs": [concretize(m, o) for o in eng.obs]}
    )
