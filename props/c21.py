"""A waiting broadcaster delivers every event to every watcher in order."""

import asyncio

from aiok8s.watch import mux
from symx.harness import harness

WAIT = mux.FullChannelBehavior.WAIT_IF_CHANNEL_FULL


class Reader:
    """Takes events off a watcher, after up to `most` turns before each."""

    def __init__(self, sx, name, w, most=0, limit=None):
        self.sx, self.name, self.w, self.most, self.limit = sx, name, w, most, limit
        self.got, self.ended = [], False
        self.task = sx.spawn(self._run())

    async def _run(self):
        async for e in self.w:
            self.got.append(e["object"])
            self.sx.check(e["type"] == "T" + str(e["object"])[:1], "an event has another type than was sent")
            if self.limit is not None and len(self.got) == self.limit:
                await self.w.stop()
                return
            if self.most:
                await self.sx.ticks(f"{self.name}.pause", self.most)
        self.ended = True


def action(b, obj):
    return b.action("T" + obj[:1], obj)


@harness(
    quick=[dict(events=3, length=0, pause=2, turns=4), dict(events=3, length=1, pause=2, turns=4), dict(events=3, length=2, pause=2, turns=4)],
    thorough=[dict(events=3, length=0, pause=5, turns=9), dict(events=4, length=1, pause=4, turns=9), dict(events=5, length=2, pause=3, turns=9)],
    covers=("late watcher missed some", "late watcher missed none", "prefix", "send after the watch"),
    bounds="one sender of `events` events, one watcher before, one (possibly with a prefix of two events) that asks at an "
    "arbitrary turn of up to `turns`; the first reader pauses an arbitrary number of turns up to `pause` between events; "
    "queue length `length`; the sender pauses up to `turns` + 2 turns before its first or second event",
)
async def all_events(sx, events, length, pause, turns):
    b = mux.Broadcaster(length, WAIT)
    first = Reader(sx, "first", await b.watch(), pause)
    sent = [f"e{i}" for i in range(events)]
    begun = []

    async def sender():
        for i, e in enumerate(sent):
            if i == at:
                await sx.ticks("gap", turns + 2)
            begun.append(e)
            await action(b, e)

    at = sx.choose("gap_before", (0, 1))
    prefix = ["p0", "p1"] if sx.bool("prefix") else []
    late = []

    async def join():
        if prefix:
            sx.cover("prefix")
            w = await b.watch_with_prefix([{"type": "T" + p[0], "object": p} for p in prefix])
        else:
            w = await b.watch()
        late.append(len(begun))
        if len(begun) < events:
            sx.cover("send after the watch")
        late.append(Reader(sx, "late", w))

    send = sx.spawn(sender())
    await sx.ticks("join", turns)
    joining = sx.spawn(join())
    await asyncio.sleep(1)
    sx.done_result(send, "sending")
    sx.done_result(joining, "watching")
    sx.check(first.got == sent, "a watcher did not get every event once in order")
    before, late = late
    n = len(late.got) - len(prefix)
    sx.check(late.got[: len(prefix)] == prefix, "a watcher did not get its prefix first")
    sx.check(n >= 0 and late.got[len(prefix):] == sent[events - n :], "a late watcher did not get the rest of the events once in order")
    sx.check(n >= events - before, "a late watcher missed an event sent after its watch call returned")
    sx.cover("late watcher missed some" if n < events else "late watcher missed none")
    sx.check(not first.ended and not late.ended, "a watcher's stream ended by itself")
    t = sx.spawn(b.shutdown())
    await asyncio.sleep(1)
    sx.done_result(t, "shutdown")
    for r in (first, late):
        sx.check(r.ended, "a watcher's stream does not end after the shutdown")
    sx.obs("got", first.got, late.got)


@harness(
    quick=[dict(events=3, length=0, turns=5), dict(events=3, length=1, turns=5), dict(events=4, length=2, turns=5)],
    thorough=[dict(events=4, length=0, turns=12), dict(events=5, length=1, turns=12), dict(events=6, length=2, turns=12)],
    covers=("stuck stopped", "stopped after some", "stopped early"),
    bounds="three watchers, the middle one stops after an arbitrary number of events or, without reading more, at an arbitrary "
    "turn of up to `turns`, from another task; queue length `length`",
)
async def stopping(sx, events, length, turns):
    b = mux.Broadcaster(length, WAIT)
    ws = [await b.watch() for _ in range(3)]
    readers = [Reader(sx, f"r{i}", ws[i]) for i in (0, 2)]
    sent = [f"e{i}" for i in range(events)]

    async def sender():
        for e in sent:
            await action(b, e)

    takes = sx.int("takes", 0, events - 1)
    middle = []

    async def read(w):
        for i in range(events):
            if takes <= i:
                break
            middle.append((await w.__anext__())["object"])

    async def take():
        if own:
            async with ws[1] as w:
                await read(w)
        else:
            await read(ws[1])

    own = sx.bool("stops_itself")
    send = sx.spawn(sender())
    taking = sx.spawn(take())
    if own:
        sx.cover("stopped after some")
    else:
        await sx.ticks("stop", turns)
        late = sx.bool("later")
        if late:
            await asyncio.sleep(1)
            if not send.done() or not all(r.got == sent for r in readers):
                sx.cover("stuck stopped")
        else:
            sx.cover("stopped early")
        stop = sx.spawn(ws[1].stop())
        await asyncio.sleep(1)
        sx.done_result(stop, "stopping a watcher")
    await asyncio.sleep(1)
    sx.done_result(send, "sending, with a stopped watcher")
    if own:
        sx.done_result(taking, "reading in a block that stops the watcher")
    sx.check(middle == sent[: len(middle)], "the stopped watcher did not get its events once in order")
    for r in readers:
        sx.check(r.got == sent, "a stopped watcher makes another one miss events")
    end = sx.spawn(b.shutdown())
    await asyncio.sleep(1)
    sx.done_result(end, "shutdown")
    for r in readers:
        sx.check(r.ended, "a watcher's stream does not end after the shutdown")
    rest = sx.spawn(drain(ws[1]))
    await asyncio.sleep(1)
    sx.check(taking.done() and rest.done(), "the stream of a stopped watcher does not end")
    again = sx.spawn(ws[1].stop())
    await asyncio.sleep(1)
    sx.done_result(again, "stopping again")


async def drain(w):
    return [e["object"] async for e in w]


@harness(
    quick=[dict(events=2, length=0, turns=6), dict(events=2, length=1, turns=6)],
    thorough=[dict(events=3, length=0, turns=12), dict(events=4, length=1, turns=12), dict(events=4, length=2, turns=12)],
    covers=("events outstanding at the shutdown", "read after the shutdown"),
    bounds="two senders of `events` events each, one of them starting at an arbitrary turn up to `turns`, a reader that starts at "
    "an arbitrary turn, and a shutdown at an arbitrary turn after the sends began or once everything is quiet",
)
async def shutdown(sx, events, length, turns):
    b = mux.Broadcaster(length, WAIT)
    ws = [await b.watch(), await b.watch()]
    order = []

    async def sender(name):
        for i in range(events):
            order.append(f"{name}{i}")
            await action(b, f"{name}{i}")

    sends = [sx.spawn(sender("a"))]
    await sx.ticks("second", turns)
    sends.append(sx.spawn(sender("b")))
    early = Reader(sx, "early", ws[0])
    # What the senders put before the shutdown is delivered.
    await sx.ticks("shutdown", turns)
    before = [t.done() for t in sends]
    end = sx.spawn(b.shutdown())
    await asyncio.sleep(0)
    if sx.bool("read_late"):
        await asyncio.sleep(1)
        sx.cover("read after the shutdown")
    if len(early.got) < len(order):
        sx.cover("events outstanding at the shutdown")
    second = Reader(sx, "second", ws[1])
    await asyncio.sleep(1)
    sx.done_result(end, "shutdown")
    for r in (early, second):
        sx.check(r.ended, "a watcher's stream does not end after the shutdown")
        for n, done in zip("ab", before):
            mine = [e for e in r.got if e[0] == n]
            sx.check(mine == [f"{n}{i}" for i in range(len(mine))], "a sender's events are not delivered once in order")
            sx.check(not done or len(mine) == events, "an event sent before the shutdown was lost")
    sx.check(early.got == second.got, "the watchers got the events in different orders")
    again = sx.spawn(b.shutdown())
    await asyncio.sleep(1)
    sx.done_result(again, "shutting down again")
    await sx.finish(*sends)
    sx.obs("got", early.got)


@harness(
    quick=[dict(events=2, length=0, turns=7), dict(events=2, length=1, turns=7)],
    thorough=[dict(events=3, length=0, turns=14), dict(events=3, length=1, turns=14), dict(events=3, length=2, turns=14)],
    covers=("cancelled while waiting",),
    bounds="a receive that is given up (cancelled) at an arbitrary turn of up to `turns` around the sending of `events` events; "
    "the watcher then reads on",
)
async def cancelled_receive(sx, events, length, turns):
    b = mux.Broadcaster(length, WAIT)
    w, other = await b.watch(), Reader(sx, "other", await b.watch())
    sent = [f"e{i}" for i in range(events)]

    async def sender():
        for e in sent:
            await action(b, e)

    one = sx.spawn(w.__anext__())
    if sx.bool("waits"):
        await asyncio.sleep(1)
    send = sx.spawn(sender())
    await sx.ticks("cancel", turns)
    one.cancel()
    await asyncio.gather(one, return_exceptions=True)
    got = []
    if one.cancelled():
        sx.cover("cancelled while waiting")
    else:
        got.append(one.result()["object"])
    rest = Reader(sx, "rest", w)
    await asyncio.sleep(1)
    sx.check(got + rest.got == sent, "giving up a receive loses an event")
    sx.check(other.got == sent, "giving up a receive makes another watcher miss an event")
    sx.done_result(send, "sending")
    end = sx.spawn(b.shutdown())
    await asyncio.sleep(1)
    sx.done_result(end, "shutdown")
    sx.check(rest.ended and other.ended, "a watcher's stream does not end after the shutdown")


@harness(
    quick=dict(sends=3, turns=4),
    thorough=dict(sends=6, turns=12),
    covers=("full", "sends wait", "asked too late", "shutdown given up"),
    bounds="24 to 24 + `sends` events sent by as many senders to a watcher that does not read yet, a call for another watch, and a "
    "shutdown at an arbitrary turn of up to `turns`, possibly given up within two turns and asked for again; the watcher then reads; then an event is sent and a watch asked for, as often as the queue is long",
)
async def crowded(sx, sends, turns):
    b = mux.Broadcaster(0 if sx.bool("unbounded") else 1, WAIT)
    w = await b.watch()
    n = 24 + sx.choose("sends", range(sends + 1))
    late = []

    async def join():
        late.append(Reader(sx, "late", await b.watch()))

    begun = []

    async def send(i):
        begun.append(f"e{i}")
        await action(b, f"e{i}")

    calls = [sx.spawn(send(i)) for i in range(n)]
    joining = sx.spawn(join())
    await sx.ticks("shutdown", turns)
    before = list(begun)
    sx.cover("sends wait" if any(not t.done() for t in calls) else "no send waits")
    if n > 26:
        sx.cover("full")
    end = sx.spawn(b.shutdown())
    if sx.bool("given_up"):
        sx.cover("shutdown given up")
        await sx.ticks("give_up", 2)
        end.cancel()
        await asyncio.gather(end, return_exceptions=True)
        end = sx.spawn(b.shutdown())
    if sx.bool("later"):
        await asyncio.sleep(1)
    reader = Reader(sx, "reader", w)
    await asyncio.sleep(1)
    sx.done_result(end, "shutdown")
    sx.check(reader.ended, "a watcher's stream does not end after the shutdown")
    sx.check(len(set(reader.got)) == len(reader.got), "a watcher got an event twice")
    sx.check(set(before) <= set(reader.got), "an event sent before the shutdown was lost")
    # What was put into the queue at once, before anything left it.
    sx.check([e for e in reader.got if e in begun[:20]] == begun[:20], "a watcher did not get the events in order")
    sx.check(all(t.done() for t in calls), "a send waits forever after the shutdown")
    sx.check(joining.done(), "a call for a watch waits forever after the shutdown")
    for r in late:
        sx.check(r.ended, "a watcher's stream does not end after the shutdown")
    after = [sx.spawn(action(b, "late")) for _ in range(30)]
    w = [sx.spawn(b.watch()) for _ in range(2)]
    await asyncio.sleep(1)
    sx.cover("asked too late")
    sx.check(all(t.done() for t in after), "a send after the shutdown waits forever")
    sx.check(all(t.done() for t in w), "a call for a watch after the shutdown waits forever")
    for t in w:
        if t.exception() is None:
            r = Reader(sx, "after", t.result())
            await asyncio.sleep(1)
            sx.check(r.ended and not r.got, "a watch asked for after the shutdown does not end")


@harness(
    quick=[dict(events=3, length=0, turns=6), dict(events=3, length=1, turns=6)],
    thorough=[dict(events=4, length=0, turns=14), dict(events=4, length=1, turns=14), dict(events=5, length=2, turns=14)],
    covers=("given up", "not given up"),
    bounds="a call for a watch (possibly with a prefix) that is given up (cancelled) at an arbitrary turn of up to `turns`, and a send that is "
    "given up, amid `events` events; another watcher reads",
)
async def abandoned(sx, events, length, turns):
    b = mux.Broadcaster(length, WAIT)
    other = Reader(sx, "other", await b.watch(), 1)
    sent = [f"e{i}" for i in range(events)]

    async def sender():
        for e in sent:
            await action(b, e)

    send = sx.spawn(sender())
    if sx.bool("watch"):
        if sx.bool("prefix"):
            call = sx.spawn(b.watch_with_prefix([{"type": "Tp", "object": "p0"}]))
        else:
            call = sx.spawn(b.watch())
        extra = []
    else:
        call = sx.spawn(action(b, "x"))
        extra = ["x"]
    await sx.ticks("cancel", turns)
    call.cancel()
    await asyncio.gather(call, return_exceptions=True)
    sx.cover("given up" if call.cancelled() else "not given up")
    watcher = None
    if not call.cancelled() and not extra:
        sx.check(call.result() is not None, "a call for a watch returns none")
        watcher = Reader(sx, "watcher", call.result())
    await asyncio.sleep(1)
    sx.done_result(send, "sending, when another call was given up,")
    for e in ("y0", "y1", "y2", "y3"):
        t = sx.spawn(action(b, e))
        await asyncio.sleep(1)
        sx.done_result(t, "sending after another call was given up")
        sent.append(e)
    got = [e for e in other.got if e != "x"]
    if watcher:
        sx.check(watcher.got[-4:] == sent[-4:], "a watcher misses an event")
    sx.check(got == sent, "a call that was given up makes another watcher miss an event")
    sx.check(other.got.count("x") <= len(extra), "an event is delivered twice")
    if extra and not call.cancelled():
        sx.check("x" in other.got, "an event that was sent is not delivered")
    end = sx.spawn(b.shutdown())
    await asyncio.sleep(1)
    sx.done_result(end, "shutdown")
    sx.check(other.ended, "a watcher's stream does not end after the shutdown")


@harness(
    quick=[dict(events=3, length=0, turns=8), dict(events=3, length=1, turns=8)],
    thorough=[dict(events=4, length=0, turns=11), dict(events=4, length=1, turns=11), dict(events=4, length=2, turns=11)],
    covers=("both receive", "given up", "given up late"),
    bounds="a watcher read by two tasks, the first given up at an arbitrary turn up to `turns` or not, and pausing up to 3 turns after each event; `events` events; another watcher",
)
async def two_readers(sx, events, length, turns):
    b = mux.Broadcaster(length, WAIT)
    w, other = await b.watch(), Reader(sx, "other", await b.watch())
    one, two = Reader(sx, "one", w, 3), Reader(sx, "two", w)
    give_up = sx.bool("give up")
    if sx.bool("wait first"):
        await asyncio.sleep(1)

    async def sender():
        for i in range(events):
            await action(b, f"e{i}")

    async def cancel():
        await sx.ticks("cancel", turns)
        if give_up:
            sx.cover("given up late" if one.got else "given up")
            one.task.cancel()

    send = sx.spawn(sender())
    await cancel()
    await asyncio.sleep(1)
    sx.done_result(send, "sending")
    sent = [f"e{i}" for i in range(events)]
    sx.check(sorted(one.got + two.got) == sent, "two readers of a watcher do not get every event once")
    sx.check(sorted(one.got) == one.got and sorted(two.got) == two.got, "a reader gets events out of order")
    sx.check(other.got == sent, "another watcher misses an event")
    if one.got and two.got:
        sx.cover("both receive")
    end = sx.spawn(b.shutdown())
    await asyncio.sleep(1)
    sx.done_result(end, "shutdown")
    sx.check(two.ended and (give_up or one.ended), "a watcher's stream does not end after the shutdown")


async def come_and_go(sx, b, ops, prefixes):
    """Watchers that come and go between events; what each is to get, and a reader of each."""
    live, n = [], 0
    for i in range(ops):
        op = sx.choose(f"op{i}", ("send", "watch") + (("watch with prefix",) if prefixes else ()) + tuple(f"stop{k}" for k in range(min(len(live), 3))))
        if op == "send":
            t = sx.spawn(action(b, f"e{i}"))
            await sx.settle()
            sx.done_result(t, "sending")
            for want, r in live:
                want.append(f"e{i}")
        elif op.startswith("watch"):
            prefix = [f"p{i}", f"q{i}"] if "prefix" in op else []
            t = sx.spawn(b.watch_with_prefix([{"type": "T" + p[0], "object": p} for p in prefix]) if prefix else b.watch())
            await sx.settle()
            live.append((prefix, Reader(sx, f"r{n}", sx.done_result(t, "asking for a watch"))))
            await sx.settle()
            n += 1
            if n > len(live):
                sx.cover("came after one went")
        else:
            want, r = live.pop(int(op[4:]))
            t = sx.spawn(r.w.stop())
            await sx.settle()
            sx.done_result(t, "stopping a watcher")
            await sx.settle()
            sx.check(r.ended, "the stream of a stopped watcher does not end")
            sx.check(r.got == want, "a watcher did not get every event once in order")
        for want, r in live:
            sx.check(r.got == want, "a watcher did not get every event once in order")
            sx.check(not r.ended, "a watcher's stream ended by itself")
    end = sx.spawn(b.shutdown())
    await asyncio.sleep(1)
    sx.done_result(end, "shutdown")
    for want, r in live:
        sx.check(r.ended, "a watcher's stream does not end after the shutdown")
        sx.check(r.got == want, "a watcher did not get every event once in order")


@harness(
    quick=dict(ops=5),
    thorough=dict(ops=7),
    covers=("came after one went",),
    bounds="`ops` operations in any order: an event is sent, a watch is asked for (possibly with a prefix), one of the first three watchers stops; queues of one event or none",
)
async def coming_and_going(sx, ops):
    await come_and_go(sx, mux.Broadcaster(sx.choose("length", (0, 1)), WAIT), ops, True)


@harness(
    quick=dict(events=1100),
    thorough=dict(events=10000),
    covers=("read late",),
    bounds="`events` events for two watchers with room for as many, one of which is read only a real time up to 10 s later, or after the shutdown",
)
async def large(sx, events):
    b = mux.Broadcaster(events, WAIT)
    now, later = Reader(sx, "now", await b.watch()), await b.watch()
    sent = [f"e{i}" for i in range(events)]
    for i, e in enumerate(sent):
        t = sx.spawn(action(b, e))
        if i % 20 == 19:
            await asyncio.sleep(1)
    await sx.settle()
    await asyncio.sleep(sx.real("later", 0, 10))
    sx.done_result(t, "sending")
    sx.check(now.got == sent, "a watcher did not get every event once in order")
    shut = sx.bool("shut down")
    if shut:
        await b.shutdown()
    later = Reader(sx, "later", later)
    for _ in range(events // 1000 + 1):
        await asyncio.sleep(1)
    sx.cover("read late")
    sx.check(later.got == sent, "a watcher that reads late did not get every event once in order")
    sx.check(later.ended == shut and now.ended == shut, "a watcher's stream ended by itself, or does not")
    await b.shutdown()
