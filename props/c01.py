"""The work queue: exclusive processing, no lost additions, deduplication, order."""

import asyncio

from aiok8s.workqueue import queue
from symx.harness import harness


class Model:
    """What a work queue has to do, one operation at a time."""

    def __init__(self, sx):
        self.sx = sx
        self.order, self.busy, self.again = [], [], []

    def has(self, xs, item):
        return self.sx.Or(*[x == item for x in xs])

    def add(self, item):
        if self.has(self.order, item) or self.has(self.again, item):
            return
        if self.has(self.busy, item):
            self.again.append(item)
        else:
            self.order.append(item)

    def get(self):
        item = self.order.pop(0)
        self.busy.append(item)
        return item

    def done(self, item):
        self.busy.remove(item)
        if self.has(self.again, item):
            self.again.remove(item)
            self.order.append(item)


@harness(
    quick=dict(ops=6),
    thorough=dict(ops=8),
    covers=("redelivered", "deduplicated", "two in process", "getter waited"),
    bounds="every sequence of up to `ops` add/get/done calls on items of arbitrary equality; a get "
    "on an empty queue stays pending",
)
async def sequential(sx, ops):
    q, m = queue.new(), Model(sx)
    getters = []
    for i in range(ops):
        op = sx.choose(f"op{i}", ("add", "get", "done"))
        if op == "add":
            item = sx.atom(f"item{i}")
            before = len(m.order) + len(m.again)
            m.add(item)
            await q.add(item)
            if len(m.order) + len(m.again) == before:
                sx.cover("deduplicated")
        elif op == "get":
            getters.append(sx.spawn(q.get()))
        else:
            if not m.busy:
                return await sx.finish(*getters)
            item = sx.choose(f"which{i}", m.busy)
            n = len(m.order)
            m.done(item)
            await q.done(item)
            if len(m.order) > n:
                sx.cover("redelivered")
        if getters and op != "get":
            sx.cover("getter waited")
        await sx.settle()
        for t in [t for t in getters if t.done()]:
            getters.remove(t)
            item, shutdown = sx.done_result(t, "get")
            sx.check(not shutdown, "shutdown reported by a running queue")
            sx.check(bool(m.order), "an item handed out that nobody added")
            sx.check(item == m.get(), "wrong item handed out")
            sx.obs("got", item)
            if len(m.busy) > 1:
                sx.cover("two in process")
        sx.check(not (getters and m.order), "an item and a getter wait for each other")
        sx.check(len(q) == len(m.order), "wrong length")
    await sx.finish(*getters)


@harness(
    quick=[dict(adds=3, workers=2, delay=2, universe=2)],
    thorough=[dict(adds=4, workers=2, delay=3, universe=2), dict(adds=3, workers=3, delay=3, universe=3)],
    covers=("waited", "overlap"),
    bounds="`adds` additions of items of arbitrary equality at arbitrary loop turns, `workers` "
    "concurrent workers each holding an item for an arbitrary number of turns (at most `delay`)",
)
async def concurrent(sx, adds, workers, delay, universe):
    q = queue.new()
    busy, log, last_add, waiting = [], [], {}, [0]

    async def worker(n):
        i = 0
        while True:
            waiting[0] += 1
            item, shutdown = await q.get()
            waiting[0] -= 1
            sx.check(not shutdown, "shutdown reported by a running queue")
            for b in busy:
                sx.check(b != item, "an item is being processed twice at once")
            busy.append(item)
            log.append(("start", item))
            sx.obs("start", item)
            if len(busy) > 1:
                sx.cover("overlap")
            await sx.ticks(f"hold{n}_{i}", delay)
            i += 1
            busy.remove(item)
            await q.done(item)

    tasks = [sx.spawn(worker(n)) for n in range(workers)]
    for i in range(adds):
        await sx.ticks(f"gap{i}", delay)
        item = sx.atom(f"item{i}", universe)
        if waiting[0] == workers:
            sx.cover("waited")
        log.append(("add", item))
        sx.obs("add", item)
        await q.add(item)
    await sx.settle()
    sx.check(len(q) == 0 and not busy, "items left over although workers are free")
    for i, (kind, item) in enumerate(log):
        if kind == "add":
            later = [x == item for k, x in log[i:] if k == "start"]
            sx.check(sx.Or(*later), "an added item was never handed out")
    starts = [x for k, x in log if k == "start"]
    for i, x in enumerate(starts):
        sx.check(
            count(sx, [x == y for y in starts]) <= count(sx, [x == y for k, y in log if k == "add"]),
            "an item was handed out more often than it was added",
        )
    await sx.finish(*tasks)


@harness(
    quick=[dict(adds=2, getters=3, turns=2)],
    thorough=[dict(adds=3, getters=3, turns=3)],
    covers=("cancelled before", "cancelled after it got an item", "cancelled when woken up"),
    bounds="`getters` getters of which the first is cancelled at an arbitrary turn, `adds` additions of different items or the marking done "
    "of one that was added again, at arbitrary turns (each up to `turns` after the one before)",
)
async def cancelled(sx, adds, getters, turns):
    q = queue.new()
    readded = sx.bool("readded")
    if readded:
        await q.add("again")
        await q.get()
        await q.add("again")
        adds -= 1
    tasks = [sx.spawn(q.get()) for _ in range(getters)]
    await sx.settle()

    async def cancel():
        await sx.ticks("when", turns)
        if tasks[0].done():
            sx.cover("cancelled after it got an item")
        elif len(q):
            sx.cover("cancelled when woken up")
        else:
            sx.cover("cancelled before")
        tasks[0].cancel()

    async def change():
        if readded:
            await sx.ticks("done", turns)
            await q.done("again")
        for i in range(adds):
            await sx.ticks(f"gap{i}", turns)
            await q.add(i)

    await asyncio.gather(cancel(), change())
    await sx.settle()
    got = [t.result()[0] for t in tasks if t.done() and not t.cancelled()]
    items = list(range(adds)) + (["again"] if readded else [])
    sx.check(len(set(got)) == len(got) and set(got) <= set(items), "an item is handed out twice")
    sx.check(len(q) == len(items) - len(got), "an item is lost with a cancelled getter")
    sx.check(not len(q) or all(t.done() for t in tasks), "an item and a getter wait for each other")
    sx.obs("got", sorted(map(str, got)))
    await sx.finish(*tasks)


def count(sx, conds):
    n = 0
    for c in conds:
        n = n + sx.Ite(c, 1, 0)
    return n


ODD = None, 0, "", (), frozenset()


@harness(
    quick=dict(ops=4),
    thorough=dict(ops=5),
    covers=("redelivered", "delayed"),
    bounds="every sequence of up to `ops` additions, gets and dones of items that are false as conditions (None, zero, empty ones), on a plain and on a rate-limiting queue, "
    "with delays or not",
)
async def odd_items(sx, ops):
    limited = sx.bool("limited")
    if limited:
        from aiok8s.workqueue import rate_limiting_queue

    q, m = rate_limiting_queue.new() if limited else queue.new(), Model(sx)
    odd = [sx.choose("first", ODD), "other"]
    for i in range(ops):
        op = sx.choose(f"op{i}", ("add", "get", "done"))
        if op == "add":
            item = sx.choose(f"item{i}", odd)
            m.add(item)
            how = sx.choose(f"how{i}", ("add", "add_after", "add_rate_limited")) if limited else "add"
            if how == "add_after":
                sx.cover("delayed")
                await q.add_after(item, 1)
            else:
                await getattr(q, how)(item)
            await asyncio.sleep(2)
        elif op == "get":
            if not m.order:
                return await q.shut_down()
            t = sx.spawn(q.get())
            await sx.settle()
            item, shutdown = sx.done_result(t, "get")
            sx.check(not shutdown, "shutdown reported by a running queue")
            sx.check(item is m.get(), "wrong item handed out")
        else:
            if not m.busy:
                return await q.shut_down()
            item, n = m.busy[0], len(m.order)
            m.done(item)
            await q.done(item)
            if len(m.order) > n:
                sx.cover("redelivered")
        await sx.settle()
        sx.check(len(q) == len(m.order), "wrong length")
    await q.shut_down()
    while m.order:
        item, shutdown = await q.get()
        sx.check(not shutdown and item is m.get(), "wrong item handed out while draining")
        await q.done(item)
    sx.check((await q.get())[1], "a drained queue does not end")


@harness(
    quick=dict(items=1100),
    thorough=dict(items=5000),
    covers=("added while processed",),
    bounds="`items` different items, added twice each, taken by two workers; the first, middle or last may be added again while it waits, is processed or was; "
    "that one takes a real time up to 2 s longer than the others",
)
async def large(sx, items):
    q = queue.new()
    for _ in range(2):
        for i in range(items):
            await q.add(i)
    sx.check(len(q) == items, "wrong length")
    k, when = sx.choose("which", (0, items // 2, items - 1)), sx.choose("when", ("waits", "processed", "done"))
    longer = sx.real("longer", 0, 2)
    got, running = [], set()

    async def worker():
        while len(got) <= items:
            item, _ = await q.get()
            sx.check(item not in running, "an item is processed twice at once")
            running.add(item)
            got.append(item)
            await asyncio.sleep(1)
            if item == k and got.count(k) == 1:
                if when == "processed":
                    sx.cover("added while processed")
                    await q.add(k)
                await asyncio.sleep(longer)
            running.discard(item)
            await q.done(item)
            if item == k and when == "done" and got.count(k) == 1:
                await q.add(k)

    if when == "waits":
        await q.add(k)
    tasks = [sx.spawn(worker()), sx.spawn(worker())]
    await asyncio.sleep(items)
    again = [] if when == "waits" else [k]
    sx.check(sorted(got) == sorted([*range(items), *again]), "an item is lost or handed out twice")
    first = list(dict.fromkeys(got))
    sx.check(first == sorted(first), "items are handed out in another order than they were added")
    sx.check(len(q) == 0, "wrong length")
    await sx.finish(*tasks)
