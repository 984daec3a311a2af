"""Clock timers and tickers fire exactly when the clock passes their time."""

import asyncio

from aiok8s.util import clock
from symx.harness import harness


@harness(
    quick=[dict(ops=4, timers=2, ticker=False), dict(ops=3, timers=1, ticker=True)],
    thorough=[dict(ops=6, timers=3, ticker=False), dict(ops=5, timers=2, ticker=True)],
    covers=("fires", "two fire at once", "stopped in time", "stopped too late", "reset", "reset too late", "set back", "ticks", "tick skipped", "skips ticks at once"),
    bounds="`ops` operations in any order after creating `timers` timers with real delays in [-1, 4] (and a ticker with a real "
    "period in [1, 3]): step or set by real amounts up to 4 (set also backwards), stop, reset, taking a tick",
)
async def histories(sx, ops, timers, ticker):
    start = sx.real("start", -5, 5)
    c = clock.FakeClock(start)
    now = start
    sx.check(c.now() == start, "the clock does not show its initial time")
    sx.check(not c.has_waiters(), "reports waiters although there are none")
    pending, ts, done = [], [], []
    for i in range(timers):
        d = sx.real(f"delay{i}", -1, 4)
        ts.append(c.new_timer(d))
        pending.append(now + d)
        sx.check(c.has_waiters(), "a pending timer is not reported")
    tick = None
    if ticker:
        period = sx.real("period", 1, 3)
        tick = c.new_ticker(period)
        next_tick = now + period
        undelivered = False
        sx.check(c.has_waiters(), "a ticker is not reported")
    fired = [False] * timers
    options = ["step", "set", "stop", "reset"] + (["take"] if ticker else [])
    for k in range(ops):
        op = sx.choose(f"op{k}", options)
        if op in ("step", "set"):
            if op == "step":
                d = sx.real(f"by{k}", 0, 4)
                t = sx.spawn(c.step(d))
            else:
                d = sx.real(f"by{k}", -2, 4)
                t = sx.spawn(c.set_time(now + d))
                if d < 0:
                    sx.cover("set back")
            now = now + d
            await sx.settle()
            sx.done_result(t, op)
            n = 0
            for i in range(timers):
                if pending[i] is not None and pending[i] <= now:
                    pending[i] = None
                    n += 1
                    sx.cover("fires")
                    q = ts[i].c()
                    sx.check(not q.empty(), "a timer did not fire although its time has come")
                    sx.check(q.get_nowait() == now, "a timer fires with another time than the clock's")
                    fired[i] = True
            if n > 1:
                sx.cover("two fire at once")
            if tick is not None and next_tick <= now:
                sx.cover("ticks" if not undelivered else "tick skipped")
                if not undelivered:
                    ticked = now
                undelivered = True
                m = 0
                while next_tick <= now:
                    next_tick = next_tick + period
                    m += 1
                if m > 1:
                    sx.cover("skips ticks at once")
        elif op == "take":
            q = tick.c()
            sx.check(q.empty() is not undelivered, "the ticker has a tick it should not have, or the other way around")
            if undelivered:
                sx.check(q.get_nowait() == ticked, "a tick has another time than the clock had")
                sx.check(q.empty(), "two ticks were kept")
                undelivered = False
        else:
            i = sx.choose(f"timer{k}", range(timers))
            if op == "stop":
                was = ts[i].stop()
                sx.check(was is (pending[i] is not None), "stopping does not tell whether the timer was pending")
                sx.cover("stopped in time" if was else "stopped too late")
                pending[i] = None
            else:
                d = sx.real(f"to{k}", 0, 4)
                was = ts[i].reset(d)
                sx.check(was is (pending[i] is not None), "a reset does not tell whether the timer was pending")
                sx.cover("reset" if was else "reset too late")
                if was:
                    pending[i] = now + d
        sx.check(c.now() == now, "the clock does not show its time")
        sx.check(c.since(start) == now - start, "the clock is wrong about the time passed")
        for i in range(timers):
            sx.check(ts[i].c().empty(), "a timer fired that should not have, or twice")
        some = ticker or any(p is not None for p in pending)
        sx.check(c.has_waiters() is some, "waiters are reported wrongly")
    if ticker:
        sx.check(tick.c().empty() is not undelivered, "the ticker has a tick it should not have, or the other way around")
    sx.obs("fired", fired, now)


@harness(
    quick=dict(timers=2, turns=5),
    thorough=dict(timers=3, turns=8),
    covers=("reader woken",),
    bounds="readers wait for `timers` timers while two tasks step the clock by real amounts at arbitrary turns up to `turns`: "
    "every reader gets its timer's one firing, and the time passed is the sum",
)
async def waiting_readers(sx, timers, turns):
    c = clock.FakeClock(0)
    due, got, tasks = [], [None] * timers, []

    async def reader(i, t):
        got[i] = await t.c().get()
        sx.check(c.now() >= due[i], "a timer fired early")

    for i in range(timers):
        d = sx.real(f"delay{i}", 0, 4)
        due.append(d)
        tasks.append(sx.spawn(reader(i, c.new_timer(d))))
    await sx.settle()
    steps = [sx.real("step0", 0, 3), sx.real("step1", 0, 3)]

    async def stepper(k):
        await sx.ticks(f"turn{k}", turns)
        await c.step(steps[k])

    ss = [sx.spawn(stepper(k)) for k in range(2)]
    await sx.settle()
    for t in ss:
        sx.done_result(t, "stepping")
    total = steps[0] + steps[1]
    sx.check(c.now() == total, "steps do not add up")
    for i in range(timers):
        sx.check(tasks[i].done() == bool(due[i] <= total), "a timer did not fire exactly when its time was reached")
        if tasks[i].done():
            sx.done_result(tasks[i], "reading a timer")
            sx.cover("reader woken")
            sx.check(sx.And(got[i] >= due[i], got[i] <= total), "a timer fired at another time")
    await sx.finish(*tasks)


@harness(
    quick=dict(ops=2),
    thorough=dict(ops=3),
    covers=("fires", "stopped in time", "stopped too late", "ticks", "tick skipped", "ticker stopped"),
    bounds="a timer with a real delay in [-1, 4] and a ticker with a real period in [1, 3] of the real clock; `ops` times, a real time up to 4 s passes and then the timer is stopped, the ticker is stopped, "
    "or a tick is taken; timers of the loop are on time",
)
async def real_clock(sx, ops):
    c = clock.RealClock()
    start, begun = c.now(), sx.now()
    delay, period = sx.real("delay", -1, 4), sx.real("period", 1, 3)
    timer, ticker = c.new_timer(delay), c.new_ticker(period)
    await sx.settle()
    due = delay if delay > 0 else 0
    pending, fired, stopped = True, False, False
    next_tick, undelivered = period, False
    for k in range(ops):
        d = sx.real(f"pass{k}", 0, 4)
        await asyncio.sleep(d)
        await sx.settle()
        now = sx.now() - begun
        sx.check(c.now() - start == now and c.since(start) == now, "the clock does not show the time passed")
        if pending and due <= now:
            pending, fired = False, True
            sx.cover("fires")
            sx.check(not timer.c().empty(), "a timer did not fire although its time has come")
            timer.c().get_nowait()
        sx.check(timer.c().empty(), "a timer fired that should not have, or twice")
        while not stopped and next_tick <= now:
            sx.cover("tick skipped" if undelivered else "ticks")
            next_tick, undelivered = next_tick + period, True
        sx.check(ticker.c().empty() is not undelivered, "the ticker has a tick it should not have, or the other way around")
        op = sx.choose(f"op{k}", ("stop timer", "stop ticker", "take"))
        if op == "stop timer":
            sx.cover("stopped in time" if pending else "stopped too late")
            timer.stop()
            pending = False
        elif op == "stop ticker":
            sx.cover("ticker stopped")
            ticker.stop()
            stopped = True
        elif undelivered:
            ticker.c().get_nowait()
            undelivered = False
            sx.check(ticker.c().empty(), "two ticks were kept")
    timer.stop()
    ticker.stop()
    await asyncio.sleep(10)
    sx.check(timer.c().empty(), "a timer that was stopped fires")
    sx.check(ticker.c().empty() is not undelivered, "a ticker that was stopped ticks")


@harness(
    quick=dict(ticks=1200),
    thorough=dict(ticks=10000),
    covers=("fake", "real"),
    bounds="a ticker, of the fake clock or the real one, with a period of 0.5, 1 or 7 s, whose ticks are each taken, or every third, for `ticks` periods; and as many timers, one after the other",
)
async def long(sx, ticks):
    fake = sx.bool("fake")
    sx.cover("fake" if fake else "real")
    c = clock.FakeClock(3) if fake else clock.RealClock()
    period = sx.choose("period", (sx.exact("0.5"), 1, 7))
    every = sx.choose("every", (1, 3))
    ticker = c.new_ticker(period)
    await sx.settle()
    for i in range(1, ticks + 1):
        timer = c.new_timer(period)
        await sx.settle()
        if fake:
            await c.step(period)
        else:
            await asyncio.sleep(period)
        await sx.settle()
        sx.check(ticker.c().qsize() == 1, "a ticker does not tick, or a tick is kept twice")
        sx.check(timer.c().qsize() == 1, "a timer did not fire although its time has come")
        if fake:
            sx.check(timer.c().get_nowait() == 3 + i * period, "a timer fires with another time than the clock's")
        if i % every == 0:
            t = ticker.c().get_nowait()
            sx.check(not fake or t == 3 + (i - every + 1) * period, "a tick has another time than the clock had")
    ticker.stop()
