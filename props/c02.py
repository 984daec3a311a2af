"""Shutting down a work queue: drain, then release every getter."""

import asyncio

from aiok8s.workqueue import default_rate_limiters, delaying_queue, queue, rate_limiting_queue
from symx.harness import harness


def make(flavour):
    if flavour == "plain":
        return queue.new()
    if flavour == "delaying":
        return delaying_queue.new()
    return rate_limiting_queue.new(
        default_rate_limiters.ItemExponentialFailureRateLimiter(1, 100)
    )


FLAVOURS = ("plain", "delaying", "rate limited")


@harness(
    quick=[dict(ops=5, flavour=f) for f in FLAVOURS],
    thorough=[dict(ops=6, flavour=f) for f in FLAVOURS],
    covers=("drained", "redelivered after shutdown", "getter released", "add ignored", "shut down twice"),
    bounds="every sequence of up to `ops` add/get/done/shutdown calls (adds of every kind the queue "
    "has, items of arbitrary equality), then the queue is drained and asked for more",
)
async def histories(sx, ops, flavour):
    q = make(flavour)
    await sx.settle()
    order, busy, again, down = [], [], [], False
    getters, delayed = [], []

    def has(xs, item):
        return sx.Or(*[x == item for x in xs])

    async def step():
        nonlocal order
        await sx.settle()
        for t in [t for t in getters if t.done()]:
            getters.remove(t)
            item, shutdown = sx.done_result(t, "get")
            if shutdown:
                sx.check(down, "a getter was released although the queue runs")
                sx.check(not order, "a getter was released although items are waiting")
                sx.cover("getter released")
            else:
                sx.check(bool(order), "an item handed out that nobody added")
                sx.check(item == order.pop(0), "wrong item handed out")
                busy.append(item)
                if down:
                    sx.cover("drained")
        sx.check(not (getters and order), "an item and a getter wait for each other")
        sx.check(not (getters and down), "a getter still waits after shutdown")
        sx.check(q.shutting_down() is down, "shutting_down() is wrong")

    kinds = ("add", "get", "done", "shut_down") + (("add_after",) if flavour != "plain" else ())
    for i in range(ops):
        op = sx.choose(f"op{i}", kinds)
        if op in ("add", "add_after"):
            item = sx.atom(f"item{i}")
            if op == "add":
                t = sx.spawn(q.add(item))
            elif flavour == "rate limited":
                t = sx.spawn(q.add_rate_limited(item))
            else:
                t = sx.spawn(q.add_after(item, 5))
            if down:
                sx.cover("add ignored")
            elif op == "add_after":
                delayed.append(item)
            elif not has(order, item) and not has(again, item):
                (again if has(busy, item) else order).append(item)
        elif op == "get":
            t = None
            getters.append(sx.spawn(q.get()))
        elif op == "done":
            if not busy:
                return
            item = busy.pop(0)
            t = sx.spawn(q.done(item))
            if has(again, item):
                again.remove(item)
                order.append(item)
                if down:
                    sx.cover("redelivered after shutdown")
        else:
            if down:
                sx.cover("shut down twice")
            t = sx.spawn(q.shut_down())
            down = True
        await step()
        if t is not None:
            sx.done_result(t, op)
    if not down:
        t = sx.spawn(q.shut_down())
        down = True
        await step()
        sx.done_result(t, "shut_down")
    for item in list(busy):
        await q.done(busy.pop(0))
        if has(again, item):
            again.remove(item)
            order.append(item)
    await asyncio.sleep(30)
    for _ in range(len(order) + 2):
        getters.append(sx.spawn(q.get()))
        await step()
    sx.check(not order, "items left after draining")
    sx.obs("drained", len(busy))


@harness(
    quick=[dict(getters=2, turns=4, flavour=f) for f in FLAVOURS],
    thorough=[dict(getters=3, turns=6, flavour=f) for f in FLAVOURS],
    covers=("released",),
    bounds="`getters` getters, an addition and a shutdown start at arbitrary loop turns up to `turns`; "
    "the delaying queues may also have a delayed addition under way",
)
async def concurrent(sx, getters, turns, flavour):
    q = make(flavour)
    got = []

    async def getter(n):
        await sx.ticks(f"start{n}", turns)
        while True:
            item, shutdown = await q.get()
            if shutdown:
                return
            got.append(item)
            await sx.ticks(f"hold{n}", 1)
            await q.done(item)

    async def adder():
        await sx.ticks("add", turns)
        before = q.shutting_down()
        await q.add("a")
        return before

    async def later():
        await sx.ticks("later", 2)
        await q.add_after("b", 5)

    tasks = [sx.spawn(getter(n)) for n in range(getters)]
    adding = sx.spawn(adder())
    if flavour != "plain":
        tasks.append(sx.spawn(later()))
    await sx.ticks("stop", turns)
    added_first = adding.done()
    stop = sx.spawn(q.shut_down())
    await asyncio.sleep(30)
    sx.done_result(stop, "shut_down")
    sx.check(q.shutting_down(), "not shutting down after shutdown")
    for t in tasks:
        sx.done_result(t, "a getter or adder after shutdown")
    sx.done_result(adding, "add")
    if added_first:
        sx.check(got == ["a"], "an item added before shutdown was not handed out once")
    sx.check(len(got) <= 1 and "b" not in got, "handed out an addition made after shutdown")
    sx.cover("released")
    sx.obs("got", got)
