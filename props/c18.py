"""Each handler of a shared informer gets resyncs at its own period."""

import asyncio

from aiok8s.cache import controller, shared_informer
from props.c16 import server_of
from props.c17 import Handler, name_of
from symx.harness import harness


@harness(
    quick=[dict(handlers=2, late=False, horizon=5), dict(handlers=1, late=True, horizon=5, form="raw"), dict(handlers=2, late=False, horizon=3, form="versionless")],
    thorough=[dict(handlers=3, late=False, horizon=5), dict(handlers=2, late=True, horizon=6),
              dict(handlers=2, late=False, horizon=9), dict(handlers=1, late=False, horizon=7, form="raw")],
    covers=("typed", "raw", "versionless", "resync", "request below the minimum", "check period lowered", "period raised", "default period",
            "no resync asked", "informer without resyncs", "two handlers with other periods"),
    bounds="an informer with a default period of 0 or any of 1 to 3 s, `handlers` handlers each asking for no resync, "
    "for the default, or for any period of 0.5 to 4 s, with `late` one of them added at an arbitrary time of up to "
    "2 s after the start; two objects, observed for `horizon` seconds; typed objects, raw ones, or some without versions (`form`)",
)
async def periods(sx, handlers, late, horizon, form="typed"):
    make, expected = server_of(sx, (form,))
    server = make()
    server.change("a")
    server.change("b")
    default = sx.real("default", 1, 3) if sx.bool("resyncs") else 0
    if default == 0:
        sx.cover("informer without resyncs")
    informer = shared_informer.new_shared_informer(server, expected, default)
    check = default
    hs = []

    async def add(i):
        kind = sx.choose(f"asks{i}", ("none", "default", "period"))
        h = Handler(sx, f"h{i}")
        if kind == "none":
            h.period = 0
            await informer.add_event_handler(h, resync_period=0)
            sx.cover("no resync asked")
        elif kind == "default":
            h.period = default
            await informer.add_event_handler(h)
            sx.cover("default period")
        else:
            h.period = sx.real(f"period{i}", 0.5, 4)
            await informer.add_event_handler(h, resync_period=h.period)
        if h.period:
            if h.period < 1:
                sx.cover("request below the minimum")
                h.period = 1
        h.added = sx.now()
        hs.append(h)
        return h

    for i in range(handlers - late):
        h = await add(i)
        if h.period and default and h.period < check:
            check = h.period
            sx.cover("check period lowered")
    task = sx.spawn(informer.run())
    start = sx.now()
    if late:
        d = sx.real("late", 0, 2)
        await asyncio.sleep(d)
        await sx.settle()
        h = await add(handlers - 1)
        if h.period and h.period < check:
            sx.cover("period raised")
    rest = horizon - (sx.now() - start)
    await asyncio.sleep(rest)
    await sx.settle()
    end = sx.now()
    for h in hs:
        rounds = []
        sx.check([n[0] for n in h.log[:2]] == ["add", "add"], "a handler does not start with the objects held")
        for n in h.log[2:]:
            sx.check(n[0] == "update" and n[1] is n[2], "something else than a resync update")
            if not rounds or name_of(n) in [name_of(x) for x in rounds[-1]]:
                rounds.append([])
            rounds[-1].append(n)
        for r in rounds:
            sx.check(len(r) == 2, "a resync leaves out an object")
            sx.check(r[0][3] == r[1][3], "the updates of a resync are apart")
        times = [r[0][3] for r in rounds]
        sx.obs("resyncs", times)
        if not h.period or not default:
            sx.check(not rounds, "a handler that asked for no resync gets one")
            continue
        period = sx.Ite(h.period < check, check, h.period)
        if times:
            sx.cover("resync")
        for a, b in zip(times, times[1:]):
            sx.check(b - a >= period, "resyncs come more often than asked")
            sx.check(b - a < period + check, "resyncs come less often than asked")
        begin = sx.Ite(h.added > start, h.added, start)
        if times:
            sx.check(times[0] >= h.added + period, "the first resync is early")
            sx.check(times[0] < begin + period + check, "the first resync is late")
            sx.check(end < times[-1] + period + check, "resyncs end")
        else:
            sx.check(end < begin + period + check, "resyncs never begin")
    if len(hs) > 1 and len(hs[0].log) != len(hs[1].log) and min(len(h.log) for h in hs) > 2:
        sx.cover("two handlers with other periods")
    await sx.finish(task)


@harness(
    quick=dict(rounds=300),
    thorough=dict(rounds=3000),
    covers=("busy", "quiet"),
    bounds="an informer with a resync period of 2 s for `rounds` periods, and handlers with periods of 2, 3, 4 and 20 s and none; two objects that stay as they are, or one of which changes every 7 s, "
    "the watch being lost or not every 50 s",
)
async def long(sx, rounds):
    make, expected = server_of(sx, ("typed",))
    server = make()
    server.change("a")
    server.change("b")
    informer = shared_informer.new_shared_informer(server, expected, 2)
    hs = []
    for period in (2, 3, 4, 20, 0):
        h = Handler(sx, f"every{period}")
        h.period = period
        await informer.add_event_handler(h, resync_period=period)
        hs.append(h)
    task = sx.spawn(informer.run())
    busy = sx.bool("busy")
    lost = sx.bool("lost") if busy else False
    sx.cover("busy" if busy else "quiet")
    await sx.settle()
    changes = 0
    for i in range(2 * rounds):
        await asyncio.sleep(1)
        if busy and i % 7 == 6:
            server.change("a")
            changes += 1
        if lost and i % 50 == 49:
            server.break_watches()
    await sx.settle()
    for h in hs:
        times = []
        told = 0
        for n in h.log[2:]:
            if n[1] is not n[2]:
                told += 1
                continue
            if not times or times[-1] < n[3]:
                times.append(n[3])
        sx.check(told == changes, "a handler misses a change")
        if not h.period:
            sx.check(not times, "a handler that asked for no resync gets one")
            continue
        if lost:
            # A list takes some of the time
            sx.check(len(times) >= 2 * rounds * 8 // 10 // (h.period + 2), "resyncs end")
            sx.check(all(b - a < h.period + 2 + 3 for a, b in zip(times, times[1:])), "resyncs come less often than asked")
        else:
            sx.check(bool(times) and h.period <= times[0] < h.period + 2, "the first resync is early or late")
            sx.check(all(h.period <= b - a < h.period + 2 for a, b in zip(times, times[1:])), "resyncs come more or less often than asked")
            sx.check(times[-1] > 2 * rounds - h.period - 2, "resyncs end")
    await sx.finish(task)


@harness(
    quick=dict(rounds=4),
    thorough=dict(rounds=12),
    covers=("no resyncs", "resyncs"),
    bounds="an informer with one handler from the start (as `new_informer` makes), two objects, and a resync period of any of 1 to 5 s, or none; one object changes at a real time up to `rounds` periods; observed for `rounds` periods",
)
async def plain(sx, rounds):
    make, expected = server_of(sx, ("typed",))
    server = make()
    server.change("a")
    server.change("b")
    period = sx.real("period", 1, 5) if sx.bool("resyncs") else 0
    sx.cover("resyncs" if period else "no resyncs")
    h = Handler(sx, "h")
    _, informer = controller.new_informer(server, expected, period, h)
    task = sx.spawn(informer.run())
    await sx.settle()
    start = sx.now()
    length = rounds * (period or 3)
    at = sx.real("change", 0, 1) * length
    await asyncio.sleep(at)
    server.change("a")
    await sx.settle()
    await asyncio.sleep(length - at)
    await sx.settle()
    same = [n for n in h.log if n[1] is n[2]]
    sx.check(len(h.log) == 3 + len(same), "a handler misses a change, or is told twice")
    if not period:
        sx.check(not same, "an informer without a period resyncs")
    for name in ("a", "b") if period else ():
        times = [start] + [n[3] for n in same if name_of(n) == name]
        # A change that is being told when a resync comes takes its place
        sx.check(len(times) >= rounds, "resyncs do not come, or end")
        sx.check(all(period <= y - x for x, y in zip(times, times[1:])), "resyncs come more often than asked")
        if name == "b":
            sx.check(all(y - x < 2 * period for x, y in zip(times, times[1:])), "resyncs come less often than asked")
    await sx.finish(task)
