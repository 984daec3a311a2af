"""A dropping broadcaster never blocks and drops only what does not fit."""

import asyncio

from aiok8s.watch import mux
from props.c21 import Reader, action, come_and_go
from symx.harness import harness

DROP = mux.FullChannelBehavior.DROP_IF_CHANNEL_FULL


@harness(
    quick=[dict(steps=6, most=2), dict(steps=5, most=3)],
    thorough=[dict(steps=9, most=2), dict(steps=8, most=4)],
    covers=("dropped", "one full, the other not", "room again", "stopped while full"),
    bounds="`steps` operations in any order: send, receive from one of two watchers, stop one; queue length arbitrary in "
    "1..`most`; everything settles after each",
)
async def exact(sx, steps, most):
    n = sx.int("length", 1, most)
    b = mux.Broadcaster(n, DROP)
    ws = [await b.watch(), await b.watch()]
    held, got = [[], []], [[], []]
    stopped = [False, False]
    dropped = False
    for i in range(steps):
        op = sx.choose(f"op{i}", ("send", "take0", "take1", "stop0"))
        if op == "send":
            full = [len(h) >= n for h in held]
            for k in (0, 1):
                if stopped[k]:
                    continue
                if full[k]:
                    sx.cover("dropped")
                    dropped = True
                    if not full[1 - k]:
                        sx.cover("one full, the other not")
                else:
                    if dropped:
                        sx.cover("room again")
                    held[k].append(f"e{i}")
            t = sx.spawn(action(b, f"e{i}"))
            await sx.settle()
            sx.done_result(t, "sending")
        elif op == "stop0":
            if stopped[0]:
                continue
            if len(held[0]) >= n:
                sx.cover("stopped while full")
            t = sx.spawn(ws[0].stop())
            await sx.settle()
            sx.done_result(t, "stopping")
            stopped[0] = True
        else:
            k = int(op[-1])
            if not held[k] or stopped[k]:
                continue
            t = sx.spawn(ws[k].__anext__())
            await sx.settle()
            e = sx.done_result(t, "receiving what was sent")
            sx.check(e["object"] == held[k].pop(0), "a watcher misses an event that fitted, or gets one in the wrong place")
    end = sx.spawn(b.shutdown())
    await sx.settle()
    sx.done_result(end, "shutdown")
    for k in (0, 1):
        if stopped[k]:
            continue
        r = Reader(sx, f"r{k}", ws[k])
        await sx.settle()
        sx.check(r.got == held[k], "a watcher misses an event that fitted, or gets one in the wrong place")
        sx.check(r.ended, "a watcher's stream does not end after the shutdown")


def subsequence(part, whole):
    it = iter(whole)
    return all(any(x == y for y in it) for x in part)


@harness(
    quick=[dict(events=3, length=1, pause=3, turns=6), dict(events=4, length=2, pause=2, turns=6)],
    thorough=[dict(events=4, length=1, pause=4, turns=10), dict(events=5, length=2, pause=3, turns=10)],
    covers=("lossy", "complete", "prefix"),
    bounds="a sender of `events` events that pauses an arbitrary number of turns up to `turns` once, a reader that pauses up "
    "to `pause` turns between events, one that never reads, and one (possibly with a prefix) that reads at once",
)
async def racing(sx, events, length, pause, turns):
    b = mux.Broadcaster(length, DROP)
    slow = Reader(sx, "slow", await b.watch(), pause)
    await b.watch()
    prefix = ["p0", "p1"] if sx.bool("prefix") else []
    if prefix:
        sx.cover("prefix")
        w = await b.watch_with_prefix([{"type": "T" + p[0], "object": p} for p in prefix])
    else:
        w = await b.watch()
    eager = Reader(sx, "eager", w)
    await sx.settle()
    sent = [f"e{i}" for i in range(events)]
    at = sx.int("gap_before", 1, events - 1)
    n = 0

    async def sender():
        for i, e in enumerate(sent):
            if at == i:
                await sx.ticks("gap", turns)
            await action(b, e)

    t = sx.spawn(sender())
    for _ in range(80):
        await asyncio.sleep(0)
    sx.done_result(t, "sending without waiting for watchers")
    await sx.settle()
    sx.check(subsequence(slow.got, sent), "a watcher got an event twice or out of order")
    sx.check(eager.got[: len(prefix)] == prefix, "a watcher did not get its prefix first")
    sx.check(subsequence(eager.got[len(prefix):], sent), "a watcher got an event twice or out of order")
    sx.check(slow.got[:length] == sent[:length], "an event was dropped although the queue had room")
    if prefix == []:
        sx.check(eager.got[:length] == sent[:length], "an event was dropped although the queue had room")
    sx.cover("complete" if slow.got == sent else "lossy")
    # With everything taken, the next one fits.
    t = sx.spawn(action(b, "last"))
    await sx.settle()
    sx.done_result(t, "sending")
    sx.check(slow.got[-1] == "last" and eager.got[-1] == "last", "an event was dropped although the queue was empty")
    sx.obs("got", slow.got, eager.got)


@harness(
    quick=dict(events=60),
    thorough=dict(events=300),
    covers=("unbounded queue", "bounded queue"),
    bounds="a burst of `events` events with no watcher reading, queue length arbitrary in 0..3, by two senders: all sends return "
    "and nothing is reordered",
)
async def burst(sx, events):
    n = sx.int("length", 0, 3)
    b = mux.Broadcaster(n, DROP)
    w = await b.watch()

    async def sender(name):
        for i in range(events):
            await action(b, f"{name}{i:04}")

    tasks = [sx.spawn(sender("a")), sx.spawn(sender("b"))]
    await sx.settle()
    for t in tasks:
        sx.done_result(t, "sending without waiting for watchers")
    r = Reader(sx, "r", w)
    await sx.settle()
    for name in "ab":
        mine = [e for e in r.got if e[0] == name]
        sx.check(mine == sorted(mine) and len(set(mine)) == len(mine), "events are reordered or repeated")
    if n == 0:
        sx.cover("unbounded queue")
    else:
        sx.cover("bounded queue")
        sx.check(len(r.got) == n, "not as many events were kept as fit")


@harness(
    quick=dict(ops=5),
    thorough=dict(ops=7),
    covers=("came after one went",),
    bounds="`ops` operations in any order, with room for every event: an event is sent, a watch is asked for (possibly with a prefix), one of the first three watchers stops",
)
async def coming_and_going(sx, ops):
    await come_and_go(sx, mux.Broadcaster(9, DROP), ops, True)
