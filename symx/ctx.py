"""What a harness is written against.  The same harness runs symbolically (SymCtx) and
with concrete values on the unmodified code (ConcCtx)."""

import asyncio
import random as _random
import time as _time
from fractions import Fraction

from symx import core, loop as vloop, values
from symx.exact import Exact

_real_random = _random.random


class Ctx:
    And = staticmethod(values.And)
    Or = staticmethod(values.Or)
    Not = staticmethod(values.Not)
    Implies = staticmethod(values.Implies)
    Ite = staticmethod(values.Ite)
    Eq = staticmethod(values.Eq)

    def __init__(self):
        self.wall0 = vloop.WALL0
        self.mono0 = 1000
        self.loop = None
        self.max_late = 0
        self.nlate = 0

    @staticmethod
    def exact(x):
        """A constant whose arithmetic is exact."""
        return Exact(Fraction(x))

    # ---- time and schedule --------------------------------------------
    def now(self):
        return self.loop.sx_now

    def late(self, when):
        """When the loop wakes up for a timer due at `when`."""
        if not self.max_late or self.nlate >= 6:
            return when
        self.nlate += 1
        return when + self.real("late", 0, self.max_late)

    def spawn(self, coro):
        return asyncio.ensure_future(coro)

    async def settle(self):
        """Until nothing is ready at this instant."""
        await self.loop.sx_settled()

    async def ticks(self, name, most):
        """A symbolic number of turns of the event loop, at most `most`."""
        n = self.int(name, 0, most)
        for i in range(most):
            if n <= i:
                return
            await asyncio.sleep(0)

    def block(self, name, most):
        """A callback that keeps the loop busy for a symbolic time."""
        d = self.real(name, 0, most)
        self.loop.sx_now = self.loop.sx_now + d
        return d

    async def sleep(self, d):
        await asyncio.sleep(d)

    async def finish(self, *tasks):
        """Cancels tasks at the end of a run."""
        for t in tasks:
            t.cancel()
        await asyncio.gather(*tasks, return_exceptions=True)

    def done_result(self, task, msg):
        """The result of a task that must be done without an error."""
        self.check(task.done(), f"{msg}: still pending")
        e = None if task.cancelled() else task.exception()
        self.check(not task.cancelled() and e is None, f"{msg}: raised {e!r}")
        return task.result()

    def choose(self, name, options):
        options = list(options)
        i = self.int(name, 0, len(options) - 1)
        for k, o in enumerate(options[:-1]):
            if i == k:
                return o
        return options[-1]

    def fail(self, msg):
        self.check(False, msg)


class SymCtx(Ctx):
    symbolic = True

    def __init__(self, eng):
        super().__init__()
        self.eng = eng

    def int(self, name, lo=None, hi=None):
        import z3

        doms = []
        if lo is not None:
            doms.append(lambda v: v >= lo)
        if hi is not None:
            doms.append(lambda v: v <= hi)
        return values.SymNum(self.eng.var(name, z3.IntSort(), *doms), big=hi is None or lo is None)

    def real(self, name, lo=None, hi=None, *, open_lo=False, open_hi=False, floats=False):
        import z3

        doms = []
        if lo is not None:
            q = values.num(lo)
            doms.append(lambda v: v > q if open_lo else v >= q)
        if hi is not None:
            r = values.num(hi)
            doms.append(lambda v: v < r if open_hi else v <= r)
        return values.SymNum(self.eng.var(name, z3.RealSort(), *doms))

    def bool(self, name):
        import z3

        return values.SymBool(self.eng.var(name, z3.BoolSort()))

    def atom(self, name, universe=None):
        """An opaque name; `universe` bounds how many different ones there are."""
        import z3

        doms = [lambda v: v >= 0]
        if universe is not None:
            doms.append(lambda v: v < universe)
        return values.SymAtom(self.eng.var(name, z3.IntSort(), *doms))

    def str(self, name, maxlen):
        import z3

        return values.SymStr(
            self.eng.var(name, z3.StringSort(), lambda v: z3.Length(v) <= maxlen)
        )

    def assume(self, c):
        if c is True:
            return
        if c is False:
            self.eng.stop(core.PathInfeasible())
        self.eng._assume(values._b(c))

    def check(self, c, msg):
        self.eng.check(c if isinstance(c, bool) else values._b(c), msg)

    def cover(self, label):
        self.eng.covers.add(label)

    def obs(self, name, *vals):
        self.eng.obs.append([name, *vals])

    def end(self):
        self.eng.stop(core.PathEnd())


class Diverged(BaseException):
    """The concrete run asked for a value the symbolic path never had."""


class ConcCtx(Ctx):
    symbolic = False

    def __init__(self, vals):
        super().__init__()
        self.vals = vals
        self.names = {}
        self.log = []
        self.covers = set()
        self.violation = None
        self.abort = None

    def _get(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        key = f"{name}#{n}" if n else name
        return self.vals.get(key, _MISSING)

    def int(self, name, lo=None, hi=None):
        v = self._get(name)
        if v is _MISSING:
            return lo if lo is not None else 0
        return int(v)

    def real(self, name, lo=None, hi=None, **kw):
        v = self._get(name)
        if v is _MISSING:
            v = lo if lo is not None else 0
            if kw.get("open_lo"):
                v = v + 1 if hi is None else Fraction(v + hi) / 2
        if kw.get("floats"):
            return float(v)
        return v if isinstance(v, int) else Exact(v)

    def bool(self, name):
        v = self._get(name)
        return False if v is _MISSING else bool(v)

    def atom(self, name, universe=None):
        v = self._get(name)
        return values.atom_name(0 if v is _MISSING else int(v))

    def str(self, name, maxlen):
        v = self._get(name)
        return "" if v is _MISSING else v

    def assume(self, c):
        if not c:
            self._stop(core.PathInfeasible())

    def check(self, c, msg):
        if not c:
            self.violation = msg
            self._stop(core.ViolationFound(msg))

    def _stop(self, exc):
        if self.abort is None:
            self.abort = exc
        raise exc

    def cover(self, label):
        self.covers.add(label)

    def obs(self, name, *vals):
        self.log.append([name, *vals])

    def end(self):
        self._stop(core.PathEnd())


_MISSING = object()


def plain(x):
    """A value as JSON-able, comparable data (the concrete side of `concretize`)."""
    if isinstance(x, Exact):
        return plain(x.v)
    if isinstance(x, Fraction):
        return x.numerator if x.denominator == 1 else f"{x.numerator}/{x.denominator}"
    if isinstance(x, float):
        return plain(Fraction(x)) if x == x and abs(x) != float("inf") else repr(x)
    if isinstance(x, (bool, int, str)) or x is None:
        return x
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, (set, frozenset)):
        return sorted((plain(y) for y in x), key=repr)
    if isinstance(x, dict):
        return sorted(([plain(k), plain(v)] for k, v in x.items()), key=repr)
    return repr(x)


def install_random():
    def random():
        c = vloop.CURRENT
        if c is None:
            return _real_random()
        return c.real("random", 0, 1, open_hi=True)

    def uniform(a, b):
        return a + (b - a) * random()

    _random.random = random
    _random.uniform = uniform


def drive(harness, ctx, make_loop):
    """Runs one harness to its end.  Returns its error, if the run ended in one."""
    import gc

    loop = make_loop()
    ctx.loop = loop
    vloop.CURRENT = ctx
    vloop.DTask._ids = vloop.itertools.count(1)
    try:
        try:
            main = loop.run(harness(ctx))
        except (vloop.Hang, vloop.Runaway) as e:
            return e
        e = None if main.cancelled() else main.exception()
        if main.cancelled():
            return asyncio.CancelledError("the harness was cancelled")
        return e
    finally:
        vloop.CURRENT = None
        e, core.ENGINE = core.ENGINE, None
        loop.dispose()
        core.ENGINE = e


def run_symbolic(harness):
    """The function `core.explore` runs for every path."""

    def run(eng):
        ctx = SymCtx(eng)
        err = drive(harness, ctx, vloop.SymLoop)
        if eng.abort is not None:
            raise eng.abort
        if err is not None:
            if not isinstance(err, Exception):
                raise err
            eng.check(False, f"{type(err).__name__}: {err}")

    return run


def run_concrete(harness, vals):
    """Runs a harness on the given values.  Returns (violation message or None, log)."""
    ctx = ConcCtx(vals)
    status = None

    class L(vloop.ConcreteLoop):
        def _run_once(self):
            super()._run_once()
            if ctx.abort is not None:
                raise ctx.abort

    try:
        err = drive(harness, ctx, L)
        if ctx.abort is not None:
            raise ctx.abort
        if err is not None:
            if not isinstance(err, Exception):
                raise err
            status = f"{type(err).__name__}: {err}"
    except core.ViolationFound as e:
        status = str(e)
    except core.PathInfeasible:
        return None, ctx.log, "infeasible"
    except core.PathEnd:
        pass
    return status, ctx.log, "ok"
