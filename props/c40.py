"""A fake watcher hands every event to its reader exactly once, in order, until it stops."""

import asyncio

from aiok8s.watch import watch
from symx.harness import harness

TYPES = ("ADDED", "MODIFIED", "DELETED", "ERROR", "BOOKMARK")


async def send(w, kind, obj):
    """By the method for the type, where there is one."""
    name = {"ADDED": "add", "MODIFIED": "modify", "DELETED": "delete", "ERROR": "error"}.get(kind)
    await (w.action(kind, obj) if name is None else getattr(w, name)(obj))


@harness(
    quick=dict(events=2, turns=4, pause=3, kinds=1),
    thorough=dict(events=3, turns=6, pause=4, kinds=2),
    covers=("all received",),
    bounds="two senders of `events` events each, of which the first `kinds` have an arbitrary type, the second sender, the reader and a stop (or none) each at an "
    "arbitrary turn up to `turns`; the reader pauses an arbitrary number of turns up to `pause` after its first event",
)
async def delivery(sx, events, turns, pause, kinds):
    w = watch.new_fake()
    order, returned, got = [], [], []

    async def sender(name):
        for i in range(events):
            e = (sx.choose(f"type_{name}{i}", TYPES) if name == "a" and i < kinds else "MODIFIED", f"{name}{i}")
            order.append(e)
            await send(w, *e)
            sx.check(e in got, "a send returns before its event is received")
            returned.append(e)

    async def reader():
        async for event in w:
            got.append((event["type"], event["object"]))
            sx.check(len(got) <= len(order) and got[-1] in order, "an event is received that nobody sent")
            if len(got) == 1:
                await sx.ticks("pause", pause)

    tasks = []

    async def second():
        await sx.ticks("second", turns)
        tasks.append(sx.spawn(sender("b")))

    async def read():
        await sx.ticks("reader", turns)
        if order:
            sx.cover("send waits")
        else:
            sx.cover("reader waits")
        return await reader()

    stop = sx.bool("stop")
    reading = sx.spawn(read())
    tasks += [sx.spawn(sender("a")), sx.spawn(second())]
    if stop:
        await sx.ticks("when", turns)
        sx.check(not w.is_stopped(), "a watcher says it is stopped before it is")
        await w.stop()
        sx.check(w.is_stopped(), "a stopped watcher says it is not")
    await asyncio.sleep(1)
    sx.check(len(set(got)) == len(got), "an event is received twice")
    # Both senders wait for each event to be received: events come out as they were sent.
    sx.check(got == order[: len(got)], "events are received in another order than they were sent")
    if stop:
        sx.done_result(reading, "the reader of a stopped watcher")
        if len(got) < 2 * events:
            sx.cover("stopped early")
    else:
        sx.check(not reading.done(), "a watcher's stream ends by itself")
        sx.check(len(got) == 2 * events and len(returned) == 2 * events, "an event is lost")
        sx.cover("all received")
        await w.stop()
        await asyncio.sleep(1)
        sx.done_result(reading, "the reader of a stopped watcher")

    async def once_more():
        event = await w.__anext__()
        got.append((event["type"], event["object"]))

    late = sx.spawn(once_more())
    await asyncio.sleep(1)
    sx.check(late.done(), "a receive from a stopped watcher does not end")
    if late.exception() is None:
        sx.check(got == order[: len(got)], "events are received in another order than they were sent")
        sx.check(bool(stop), "a stopped watcher delivers an event that nobody sent")
    else:
        sx.check(isinstance(late.exception(), StopAsyncIteration), "a receive from a stopped watcher does not end")
    sx.obs("got", got)
    await sx.finish(*tasks, reading, late)


@harness(
    quick=dict(events=3, turns=5),
    thorough=dict(events=4, turns=10),
    covers=("cancelled while waiting",),
    bounds="two receives that are given up one after the other, each at an arbitrary turn of up to `turns` around the sending of `events` events; the reader then goes on",
)
async def cancelled_receive(sx, events, turns):
    w = watch.new_fake()
    sent, got = [f"e{i}" for i in range(events)], []

    async def sender():
        for e in sent:
            await w.add(e)

    async def give_up(name):
        one = sx.spawn(w.__anext__())
        if name == "first" and sx.bool("waits"):
            await asyncio.sleep(1)
        if name == "first":
            tasks.append(sx.spawn(sender()))
        await sx.ticks(name, turns)
        one.cancel()
        await asyncio.gather(one, return_exceptions=True)
        if one.cancelled():
            sx.cover("cancelled while waiting")
        else:
            got.append(one.result()["object"])

    async def rest():
        async for e in w:
            got.append(e["object"])

    tasks = []
    await give_up("first")
    await give_up("second")
    reading = sx.spawn(rest())
    await asyncio.sleep(1)
    sx.check(got == sent, "giving up a receive loses an event")
    sx.done_result(tasks[0], "sending")
    await w.stop()
    await asyncio.sleep(1)
    sx.done_result(reading, "the reader of a stopped watcher")
    sx.obs("got", got)


@harness(
    quick=dict(rounds=2, turns=3),
    thorough=dict(rounds=3, turns=6),
    covers=("left by the reader", "stopped outside"),
    bounds="`rounds` times: an event is sent, the reader starts at an arbitrary turn up to `turns`, takes it and leaves the watcher, or it is stopped from outside; then the watcher is reset",
)
async def reset(sx, rounds, turns):
    w = watch.new_fake()
    for i in range(rounds):
        got = []

        async def reader(leave):
            async with w:
                async for e in w:
                    got.append(e["object"])
                    if leave:
                        break

        sending = sx.spawn(w.add(i))
        await sx.ticks("reader", turns)
        leave = sx.bool("leave")
        reading = sx.spawn(reader(leave))
        await asyncio.sleep(1)
        sx.check(got == [i], "a watcher that was reset does not deliver an event once")
        sx.done_result(sending, "sending")
        if leave:
            sx.cover("left by the reader")
        else:
            sx.cover("stopped outside")
            sx.check(not reading.done(), "a watcher that was reset ends by itself")
            await w.stop()
            await asyncio.sleep(1)
        sx.done_result(reading, "the reader of a stopped watcher")
        sx.check(w.is_stopped(), "a stopped watcher says it is not")
        await w.reset()
        sx.check(not w.is_stopped(), "a watcher that was reset says it is stopped")


@harness(
    quick=dict(events=3, turns=4),
    thorough=dict(events=4, turns=8),
    covers=("both receive", "given up", "given up late"),
    bounds="a watcher read by two tasks, the first given up at an arbitrary turn up to `turns` or not; `events` events of one sender; then a stop",
)
async def two_readers(sx, events, turns):
    w = watch.new_fake()
    got = [], []

    async def reader(n):
        async for event in w:
            got[n].append(event["object"])

    one, two = sx.spawn(reader(0)), sx.spawn(reader(1))
    if sx.bool("wait first"):
        await asyncio.sleep(1)

    async def sender():
        for i in range(events):
            await w.add(i)

    sending = sx.spawn(sender())
    give_up = sx.bool("give up")
    await sx.ticks("cancel", turns)
    if give_up:
        sx.cover("given up late" if got[0] else "given up")
        one.cancel()
    await asyncio.sleep(1)
    sx.done_result(sending, "sending to two readers")
    sx.check(sorted(got[0] + got[1]) == list(range(events)), "two readers do not receive every event once")
    sx.check(sorted(got[0]) == got[0] and sorted(got[1]) == got[1], "a reader receives events out of order")
    if got[0] and got[1]:
        sx.cover("both receive")
    await w.stop()
    await asyncio.sleep(1)
    sx.done_result(two, "the reader of a stopped watcher")
    sx.check(one.done(), "the reader of a stopped watcher does not end")
