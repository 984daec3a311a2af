"""Periodic loops run at their period, stop when told, and polls honour timeouts."""

import asyncio

from aiok8s.util import wait
from symx.harness import harness


def calls(sx, most, how_long):
    """A function to call periodically; notes when its calls start and end."""
    starts, ends = [], []

    async def f():
        n = len(starts)
        starts.append(sx.now())
        sx.obs("start", sx.now())
        if n < how_long:
            await asyncio.sleep(sx.real(f"takes{n}", 0, most))
        ends.append(sx.now())

    return f, starts, ends


def check_times(sx, starts, ends, period, factor, sliding):
    for k in range(len(starts) - 1):
        if sliding:
            low, high = ends[k] + period, ends[k] + period + period * factor
        else:
            low, high = starts[k] + period, starts[k] + period + period * factor
            low = sx.Ite(low > ends[k], low, ends[k])
            high = sx.Ite(high > ends[k], high, ends[k])
        sx.check(starts[k + 1] >= low, f"call {k + 1} is early")
        sx.check(starts[k + 1] <= high, f"call {k + 1} is late")


@harness(
    quick=dict(most=3, window=5),
    thorough=dict(most=5, window=9),
    covers=("sliding", "fixed rate", "longer than the period", "jitter"),
    bounds="loops with a real period between 1 and 4 and a jitter fraction up to 1, on either measure; the first two calls take "
    "an arbitrary time up to `most`; the loop is cancelled after `window` seconds",
)
async def forever(sx, most, window):
    period = sx.real("period", 1, 4)
    sliding = sx.bool("sliding")
    sx.cover("sliding" if sliding else "fixed rate")
    factor = 0
    if sx.bool("jitters"):
        factor = sx.choose("jitter", (sx.exact("1/4"), 1))
        sx.cover("jitter")
    f, starts, ends = calls(sx, most, 2)
    start = sx.now()
    if not factor and sliding and sx.bool("simple"):
        t = sx.spawn(wait.loop(f, period))
    else:
        t = sx.spawn(wait.jitter_loop(f, period, factor, sliding))
    await asyncio.sleep(window)
    sx.check(not t.done(), "the loop ends by itself")
    sx.check(starts[:1] == [start], "the first call is not made at once")
    check_times(sx, starts, ends, period, factor, sliding)
    if ends and ends[0] - starts[0] > period:
        sx.cover("longer than the period")
    end = starts[-1] if len(starts) > len(ends) else ends[-1]
    n = len(starts)
    if n == len(ends):
        # Between calls: the next one is not overdue.
        limit = (end if sliding else starts[-1]) + period + period * factor
        sx.check(sx.now() <= limit, "a call is overdue")
    await sx.finish(t)
    sx.check(t.cancelled(), "the loop cannot be cancelled")
    await asyncio.sleep(10)
    sx.check(len(starts) == n, "a call is made after the loop was cancelled")


@harness(
    quick=dict(most=2, window=5),
    thorough=dict(most=4, window=8),
    covers=("sliding", "fixed rate", "told during a call", "told between calls", "told before", "jitter"),
    bounds="loops as above with a real period between 1 and 4, told to stop at an arbitrary time up to `window`, before, "
    "between or during calls",
)
async def stoppable(sx, most, window):
    period = sx.real("period", 1, 4)
    sliding = sx.bool("sliding")
    sx.cover("sliding" if sliding else "fixed rate")
    factor = 0
    if sx.bool("jitters"):
        factor = sx.choose("jitter", (sx.exact("1/4"), 1))
        sx.cover("jitter")
    stop = asyncio.Event()
    f0, starts, ends = calls(sx, most, 2)

    async def f():
        sx.check(not stop.is_set(), "a call is made after the loop was told to stop")
        await f0()

    start = sx.now()
    before = sx.bool("before")
    if before:
        stop.set()
    if not factor and sliding and sx.bool("simple"):
        t = sx.spawn(wait.until(f, period, stop))
    else:
        t = sx.spawn(wait.jitter_until(f, period, factor, sliding, stop))
    if before:
        await sx.settle()
        sx.done_result(t, "a loop told to stop before its start")
        sx.cover("told before")
        return
    await asyncio.sleep(sx.real("stop", 0, window))
    sx.check(not t.done(), "the loop ends by itself")
    stop.set()
    told = sx.now()
    n = len(starts)
    if len(ends) == n:
        sx.cover("told between calls")
        await sx.settle()
        sx.done_result(t, "a loop told to stop between calls")
    else:
        sx.cover("told during a call")
        await asyncio.sleep(most + 1)
        sx.done_result(t, "a loop told to stop during a call")
    sx.check(starts[:1] == [start], "the first call is not made at once")
    check_times(sx, starts, ends, period, factor, sliding)
    if len(ends) == n and ends[-1] <= told:
        limit = (ends[-1] if sliding else starts[-1]) + period + period * factor
        limit = sx.Ite(limit > ends[-1], limit, ends[-1])
        sx.check(told <= limit, "a call is overdue")
    await asyncio.sleep(10)
    sx.check(len(starts) == n, "a call is made after the loop was told to stop")


class Failure(Exception):
    pass


@harness(
    quick=[dict(most=2)],
    thorough=[dict(most=4)],
    covers=("succeeds", "error", "timeout", "timeout error", "immediate", "times out"),
    bounds="polls with a real interval between 1 and 2 and a real timeout up to 6, or none; the check succeeds, raises (also a "
    "timeout error of its own) at an arbitrary attempt up to `most`, or never holds; the first attempt takes up to 2 s",
)
async def polls(sx, most):
    interval = sx.real("interval", 1, 2)
    immediate = sx.bool("immediate")
    timeout = sx.real("timeout", 0, 6, open_lo=True) if sx.bool("limited") else None
    which = sx.int("which", 0, most)
    how = sx.choose("how", ("succeeds", "error", "timeout error") + (("times out",) if timeout is not None else ()))
    error = asyncio.TimeoutError("the check's own") if how == "timeout error" else Failure("check")
    starts, ends = [], []
    outcome = []

    async def condition():
        n = len(starts)
        starts.append(sx.now())
        sx.check(not outcome, "goes on after the outcome")
        if n == 0:
            await asyncio.sleep(sx.real("takes", 0, 2))
        ends.append(sx.now())
        if which == n and how != "times out":
            outcome.append(sx.now())
            if how == "succeeds":
                return True
            raise error
        return False

    begin = sx.now()
    if timeout is None:
        f = wait.poll_immediate_infinite if immediate else wait.poll_infinite
        t = sx.spawn(f(interval, condition))
    else:
        f = wait.poll_immediate if immediate else wait.poll
        t = sx.spawn(f(interval, timeout, condition))
    finished = []
    t.add_done_callback(lambda _: finished.append(sx.now()))
    if immediate:
        sx.cover("immediate")
    await asyncio.sleep(30)
    sx.check(t.done(), "polling does not end")
    sx.obs("starts", starts)
    sx.obs("finished", finished)
    # The checks are an interval apart.
    for k in range(len(starts)):
        if k == 0:
            sx.check(starts[0] == (begin if immediate else begin + interval), "the first check is not made when it should")
        else:
            sx.check(starts[k] == ends[k - 1] + interval, "the checks are not an interval apart")
    if outcome:
        sx.check(finished[0] == outcome[0], "polling does not end with its outcome")
        sx.cover(how)
        if how == "succeeds":
            sx.done_result(t, "polling a check that holds")
        else:
            sx.check(t.exception() is error, "the check's error is not passed on")
    else:
        sx.cover("timeout")
        sx.check(timeout is not None, "polling gives up without a timeout")
        sx.check(isinstance(t.exception(), wait.WaitTimeoutError), "polling in vain does not time out")
        deadline = begin + timeout
        if immediate:
            sx.check(bool(ends), "the immediate check is given up")
            deadline = ends[0] + timeout
        sx.check(finished[0] <= deadline, "the timeout is late")
        sx.check(finished[0] >= begin + timeout, "the timeout is early")
        if how == "times out":
            sx.cover("times out")


@harness(
    quick=dict(calls=1200),
    thorough=dict(calls=10000),
    covers=("loop", "until", "poll", "endless poll"),
    bounds="loops (sliding or not) of `calls` periods of 0.5 s, which are still going on then and stop when told; polls, with a timeout and without, whose check succeeds at its `calls`th call, or just before "
    "or after",
)
async def long(sx, calls):
    kind = sx.choose("kind", ("loop", "until", "poll", "endless poll"))
    sx.cover(kind)
    half = sx.exact("0.5")
    starts = []
    start = sx.now()
    if kind in ("loop", "until"):
        async def f():
            starts.append(sx.now())

        sliding = sx.bool("sliding")
        stop = asyncio.Event()
        t = sx.spawn(wait.jitter_loop(f, half, 0, sliding) if kind == "loop" else wait.jitter_until(f, half, 0, sliding, stop))
        await asyncio.sleep(half * (calls - 1) + sx.exact("0.25"))
        sx.check(not t.done(), "the loop ends by itself")
        sx.check(starts == [start + half * i for i in range(calls)], "a call is early or late")
        if kind == "loop":
            await sx.finish(t)
            sx.check(t.cancelled(), "the loop cannot be cancelled")
        else:
            stop.set()
            await sx.settle()
            sx.done_result(t, "a loop told to stop")
        await asyncio.sleep(3)
        sx.check(len(starts) == calls, "a call is made after the loop was stopped")
        return
    n = calls + sx.choose("more", (-1, 0, 1))

    async def check():
        starts.append(sx.now())
        return len(starts) == n

    now = sx.choose("immediate", (0, 1))
    if kind == "poll":
        t = sx.spawn((wait.poll_immediate if now else wait.poll)(half, calls, check))
    else:
        t = sx.spawn((wait.poll_immediate_infinite if now else wait.poll_infinite)(half, check))
    ends = half * (n - now)
    await asyncio.sleep(ends - sx.exact("0.25"))
    sx.check(not t.done(), "a poll ends before its check succeeds")
    await asyncio.sleep(half)
    sx.done_result(t, "a poll whose check succeeded")
    sx.check(starts == [start + half * (i if now else i + 1) for i in range(n)], "a check is early or late")
