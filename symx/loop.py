"""Deterministic virtual-time event loops.

`SymLoop` runs asyncio's own primitives (Task, Lock, Condition, Queue, Event, wait,
gather, sleep, timeouts) with a clock that may be symbolic: the ready queue is served
first in first out exactly as BaseEventLoop does, and when nothing is ready the clock
jumps to the earliest timer, which the solver picks by comparing deadlines.

`ConcreteLoop` is the stock selector loop with its clock replaced, for re-running a
path with concrete values on the unmodified code.
"""

import asyncio
import heapq
import itertools
import selectors
import time as _time
from asyncio import events

from symx import core
from symx.exact import Exact

# What the code under test sees as the time is `real_*` outside a run.
_real = {n: getattr(_time, n) for n in ("time", "monotonic", "perf_counter", "time_ns", "monotonic_ns")}
WALL0 = 1_600_000_000

CURRENT = None  # the context (ctx.py) of the run in progress


class Hang(Exception):
    """Nothing can ever happen again, and the run is not over."""


class Runaway(Exception):
    """The loop kept spinning at one instant of virtual time."""


class DTask(asyncio.Task):
    """Tasks with a deterministic hash: asyncio.wait keeps them in sets."""

    _ids = itertools.count(1)

    def __init__(self, *a, **kw):
        self._sx_id = next(DTask._ids)
        super().__init__(*a, **kw)

    def __hash__(self):
        return self._sx_id


class _LoopMixin:
    max_iterations = 4000  # at one instant

    def sx_init(self):
        self.sx_now = Exact(0)
        self.sx_tasks = []
        self.sx_idle = []  # futures that wait for the loop to be idle
        self.sx_same_instant = 0
        self.sx_errors = []
        self.set_task_factory(self._sx_factory)
        self.set_exception_handler(self._sx_handler)

    def _sx_factory(self, loop, coro, **kw):
        t = DTask(coro, loop=loop, **kw)
        t._log_destroy_pending = False
        self.sx_tasks.append(t)
        if len(self.sx_tasks) > 4096:
            self.sx_tasks = [t for t in self.sx_tasks if not t.done()]
        return t

    def _sx_handler(self, loop, context):
        self.sx_errors.append(context)

    def time(self):
        return self.sx_now

    def sx_on_iteration(self):
        self.sx_same_instant += 1
        if self.sx_same_instant > self.max_iterations:
            raise Runaway(f"{self.max_iterations} loop iterations without time passing")

    def sx_wake_idle(self):
        """Called when nothing is ready: True if someone waited for that."""
        woke = False
        futs, self.sx_idle = self.sx_idle, []
        for f in futs:
            if not f.done():
                f.set_result(None)
                woke = True
        return woke

    def sx_settled(self):
        f = self.create_future()
        self.sx_idle.append(f)
        return f


class SymLoop(_LoopMixin, asyncio.BaseEventLoop):
    def __init__(self):
        super().__init__()
        self.sx_later = None
        self.sx_init()

    def _process_events(self, event_list):
        pass

    def _write_to_self(self):
        pass

    def sx_due(self):
        """Whether the first timer is due, as far as that is not known from before."""
        sched = self._scheduled
        while sched and sched[0]._cancelled:
            h = heapq.heappop(sched)
            h._scheduled = False
        if not sched:
            return False
        known = self.sx_later
        if known is not None and known[0] is sched[0] and known[1] is self.sx_now:
            return False
        if sched[0]._when > self.sx_now:
            self.sx_later = sched[0], self.sx_now
            return False
        return True

    def _run_once(self):
        self.sx_on_iteration()
        sched = self._scheduled
        due = self.sx_due()
        if not self._ready and not due and not self.sx_wake_idle():
            if not sched:
                raise Hang("nothing left to run")
            self.sx_same_instant = 0
            when = sched[0]._when
            ctx = CURRENT
            self.sx_now = ctx.late(when) if ctx is not None else when
            due = True
        while due:
            h = heapq.heappop(sched)
            h._scheduled = False
            self._ready.append(h)
            due = self.sx_due()
        for _ in range(len(self._ready)):
            h = self._ready.popleft()
            if not h._cancelled:
                h._run()
                e = core.ENGINE
                if e is not None and e.abort is not None:
                    raise e.abort
        h = None

    def run(self, coro):
        events._set_running_loop(self)
        try:
            main = self.create_task(coro)
            while not main.done():
                self._run_once()
            return main
        finally:
            events._set_running_loop(None)

    def dispose(self):
        for t in self.sx_tasks:
            if not t.done():
                c = t.get_coro()
                for _ in range(50):
                    try:
                        c.close()
                        break
                    except BaseException:
                        pass
        self.sx_tasks = []
        self._ready.clear()
        self._scheduled.clear()
        self._closed = True


class _VSelector(selectors._BaseSelectorImpl):
    def __init__(self, loop_ref):
        super().__init__()
        self.loop_ref = loop_ref

    def select(self, timeout=None):
        loop = self.loop_ref[0]
        if loop is None:
            return []
        loop.sx_on_iteration()
        if timeout == 0 and not loop._stopping:
            return []
        if loop.sx_wake_idle():
            return []
        if timeout is None:
            if loop._stopping:
                return []
            raise Hang("nothing left to run")
        loop.sx_same_instant = 0
        if timeout > 0:
            when = loop._scheduled[0]._when
            ctx = CURRENT
            loop.sx_now = ctx.late(when) if ctx is not None else when
        return []


class ConcreteLoop(_LoopMixin, asyncio.SelectorEventLoop):
    """The stock loop: only its clock and its wait for I/O are replaced."""

    def __init__(self):
        ref = [None]
        super().__init__(_VSelector(ref))
        from fractions import Fraction

        self._clock_resolution = Fraction(1, 10**90)
        self.sx_init()
        ref[0] = self
        self._ref = ref

    def run(self, coro):
        events._set_running_loop(self)
        try:
            main = self.create_task(coro)
            while not main.done():
                self._run_once()
            return main
        finally:
            events._set_running_loop(None)

    def dispose(self):
        SymLoop.dispose(self)
        self._closed = False
        self._ref[0] = None
        self.close()


def _virtual_time():
    c = CURRENT
    return None if c is None else c.loop.sx_now


def install_time():
    """Points time.time and its kin at the run in progress, if there is one."""

    def time():
        t = _virtual_time()
        return _real["time"]() if t is None else CURRENT.wall0 + t

    def monotonic():
        t = _virtual_time()
        return _real["monotonic"]() if t is None else CURRENT.mono0 + t

    def perf_counter():
        t = _virtual_time()
        return _real["perf_counter"]() if t is None else CURRENT.mono0 + t

    def time_ns():
        t = _virtual_time()
        return _real["time_ns"]() if t is None else _floor((CURRENT.wall0 + t) * 10**9)

    def monotonic_ns():
        t = _virtual_time()
        return _real["monotonic_ns"]() if t is None else _floor((CURRENT.mono0 + t) * 10**9)

    for f in (time, monotonic, perf_counter, time_ns, monotonic_ns):
        setattr(_time, f.__name__, f)


def _floor(x):
    import math

    return x.floor() if hasattr(x, "floor") else math.floor(x)
