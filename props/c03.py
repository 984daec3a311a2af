"""Delayed additions: never early, never lost, earliest due time wins."""

import asyncio

from aiok8s.workqueue import delaying_queue
from symx.harness import harness


def start(sx, q):
    """Takes everything out of the queue at once; notes when."""
    got = []

    async def sink():
        while True:
            item, shutdown = await q.get()
            sx.check(not shutdown, "shutdown reported by a running queue")
            got.append((item, sx.now()))
            sx.obs("got", item, sx.now())
            await q.done(item)

    return got, sx.spawn(sink())


@harness(
    quick=[dict(adds=3, most=4, gap=3, universe=2), dict(adds=2, most=25, gap=12, universe=2)],
    thorough=[dict(adds=4, most=5, gap=4, universe=2), dict(adds=3, most=25, gap=12, universe=3)],
    covers=("brought forward", "not put off", "immediate", "out of order", "again after delivery"),
    bounds="`adds` delayed additions of items of arbitrary equality, real delays in [-1, most], real "
    "gaps in [0, gap] between them; an item is not added at the very instant it falls due",
)
async def due_times(sx, adds, most, gap, universe):
    q = delaying_queue.new()
    got, task = start(sx, q)
    pending, want = [], []  # [item, due]

    def deliver_until(t):
        for e in [e for e in pending if e[1] <= t]:
            pending.remove(e)
            want.append(e)

    for i in range(adds):
        if i:
            await asyncio.sleep(sx.real(f"gap{i}", 0, gap))
        now = sx.now()
        item, d = sx.atom(f"item{i}", universe), sx.real(f"delay{i}", -1, most)
        for e in pending:
            sx.assume(sx.Or(e[0] != item, e[1] != now))
        deliver_until(now)
        if d <= 0:
            sx.cover("immediate")
            want.append([item, now])
        else:
            same = [e for e in pending if e[0] == item]
            if not same:
                if any(e[0] == item for e in want):
                    sx.cover("again after delivery")
                if pending and now + d < pending[-1][1]:
                    sx.cover("out of order")
                pending.append([item, now + d])
            elif now + d < same[0][1]:
                same[0][1] = now + d
                sx.cover("brought forward")
            else:
                sx.cover("not put off")
        t = sx.spawn(q.add_after(item, d))
        await sx.settle()
        sx.done_result(t, "add_after")
    await asyncio.sleep(most + 1)
    deliver_until(sx.now())
    sx.check(len(got) == len(want), f"{len(got)} deliveries instead of {len(want)}")
    for (item, at), (prev, before) in zip(got[1:], got):
        sx.check(at >= before, "time went backwards")
    # Every wanted delivery took place at its instant, and only those.
    for item, due in want:
        sx.check(
            sx.Or(*[sx.And(x == item, at == due) for x, at in got]),
            "an item was not available at its due time",
        )
    for item, at in got:
        sx.check(
            sx.Or(*[sx.And(x == item, at == due) for x, due in want]),
            "an item was delivered early, late or too often",
        )
    await sx.finish(task)


@harness(
    quick=dict(adds=3, late=2),
    thorough=dict(adds=4, late=3),
    covers=("both overdue",),
    bounds="`adds` delayed additions of different items, real delays, timers that fire up to `late` "
    "seconds late: nothing is early or lost and overdue items come in the order of their due times",
)
async def late_timers(sx, adds, late):
    q = delaying_queue.new()
    got, task = start(sx, q)
    due = {}
    for i in range(adds):
        d = sx.real(f"delay{i}", 0, 4, open_lo=True)
        due[f"item{i}"] = sx.now() + d
        await q.add_after(f"item{i}", d)
        await sx.settle()
    sx.max_late = late
    await asyncio.sleep(20)
    sx.check([i for i, _ in got].__len__() == adds, "not every item was delivered once")
    for item, at in got:
        sx.check(at >= due[item], "an item was delivered early")
        sx.check(at <= due[item] + 2 * late, "an item was delivered too late")
    for (a, ta), (b, tb) in zip(got, got[1:]):
        sx.check(due[a] <= due[b], "overdue items are out of order")
        if ta == tb:
            sx.cover("both overdue")
    await sx.finish(task)


@harness(
    quick=dict(adds=2, turns=6),
    thorough=dict(adds=3, turns=7),
    covers=("overdue when read",),
    bounds="`adds` delayed additions, and a callback that blocks the loop for a real time up to 3 s at an "
    "arbitrary loop turn up to `turns` after each",
)
async def blocked_loop(sx, adds, turns):
    q = delaying_queue.new()
    got, task = start(sx, q)
    due, total = [], 0
    adders = []
    for i in range(adds):
        item, d = f"item{i}", sx.real(f"delay{i}", 0, 4, open_lo=True)
        due.append((item, sx.now() + d))
        adders.append(sx.spawn(q.add_after(item, d)))
        # The queue computes the due time in the task's first turn.
        await asyncio.sleep(0)
        await sx.ticks(f"turn{i}", turns)
        total = total + sx.block(f"busy{i}", 3)
        if sx.now() > due[-1][1]:
            sx.cover("overdue when read")
    await asyncio.sleep(20)
    for t in adders:
        sx.done_result(t, "add_after")
    sx.check(len(got) == adds, "not every item was delivered once")
    for item, at in got:
        d = [t for i, t in due if i == item][0]
        sx.check(at >= d, "an item was delivered early")
        sx.check(at <= d + total, "an item was delivered later than the loop was blocked for")
    await sx.finish(task)


@harness(
    quick=dict(adds=4, turns=3),
    thorough=dict(adds=5, turns=4),
    bounds="`adds` clients add different items with one integer delay each in 0..2 at arbitrary loop "
    "turns, while timers of the queue are pending",
)
async def concurrent(sx, adds, turns):
    q = delaying_queue.new()
    got, task = start(sx, q)
    due = {}

    async def client(i):
        await sx.ticks(f"turn{i}", turns)
        d = sx.choose(f"delay{i}", (0, 1, 2)) if i < 2 else 1
        due[f"item{i}"] = sx.now() + d
        await q.add_after(f"item{i}", d)

    clients = [sx.spawn(client(i)) for i in range(2)]
    await asyncio.sleep(1)
    clients += [sx.spawn(client(i)) for i in range(2, adds)]
    await asyncio.sleep(5)
    for t in clients:
        sx.done_result(t, "add_after")
    sx.check(len(got) == adds, "not every item was delivered once")
    for item, at in got:
        sx.check(at == due[item], "an item was not delivered at its due time")
    await sx.finish(task)


@harness(
    quick=dict(items=1100),
    thorough=dict(items=3000),
    covers=("brought forward",),
    bounds="`items` different items delayed by 10 s and more, a millisecond apart, in rising or falling order, by as many tasks or by one; the first, middle or last is brought forward at a real time up to 9 s",
)
async def large(sx, items):
    q = delaying_queue.new()
    got, task = start(sx, q)
    delays = [10 + sx.exact(i) / 1000 for i in range(items)]
    order = list(range(items))
    if sx.bool("falling"):
        order.reverse()
    due, tasks = {}, []
    one = sx.bool("one task")
    for n, i in enumerate(order):
        if n % 100 == 99:
            await asyncio.sleep(sx.exact("0.000001"))
        due[i] = sx.now() + delays[i]
        tasks.append(sx.spawn(q.add_after(i, delays[i])))
        if one:
            await sx.settle()
    await sx.settle()
    for t in tasks:
        sx.done_result(t, "a delayed addition")
    k = sx.choose("which", (0, items // 2, items - 1))
    at = sx.real("at", 0, 9)
    await asyncio.sleep(at)
    sx.check(not got, "an item is available early")
    soon = sx.now() + sx.exact("0.5")
    await q.add_after(k, sx.exact("0.5"))
    sx.cover("brought forward")
    await asyncio.sleep(15 + items // 1000)
    sx.check(len(got) == items, f"{len(got)} deliveries instead of {items}")
    sx.check(got[0][0] == k and got[0][1] == soon, "an item brought forward is early or late")
    for (item, when), want in zip(got[1:], [i for i in range(items) if i != k]):
        sx.check(item == want and when == due[want], "an item was not available at its due time")
    await sx.finish(task)


@harness(
    quick=dict(hours=30),
    thorough=dict(hours=100),
    covers=("long", "after a long time", "brought forward"),
    bounds="an item delayed by 59 s, an hour, two hours or `hours` hours, one more delayed by half of it, and one added after a real time up to 2 s; the first is brought forward to a second more than half of its delay or not",
)
async def long(sx, hours):
    q = delaying_queue.new()
    got, task = start(sx, q)
    d = sx.choose("delay", (59, 3600, 7200, hours * 3600))
    sx.cover("long")
    await q.add_after("late", d)
    await q.add_after("half", sx.exact(d) / 2)
    soon = sx.real("gap", 0, 2)
    await asyncio.sleep(soon)
    await q.add_after("soon", 1)
    due = dict(late=d, half=sx.exact(d) / 2, soon=soon + 1)
    if sx.bool("forward"):
        sx.cover("brought forward")
        await q.add_after("late", due["half"] + 1 - soon)
        due["late"] = due["half"] + 1
    await asyncio.sleep(d - soon + 1)
    sx.cover("after a long time")
    sx.check(len(got) == 3, "not every item was delivered once")
    for item, at in got:
        sx.check(at == due[item], "an item was not delivered at its due time")
    await sx.finish(task)
