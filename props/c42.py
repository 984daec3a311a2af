"""Giving up a waiting call harms nobody else."""

import asyncio

from props import kube
from aiok8s.cache import fifo, shared_informer
from aiok8s.cache.delta_fifo import DeltaFIFO
from aiok8s.controller import cache as caches
from aiok8s.workqueue import delaying_queue, rate_limiting_queue
from props.c16 import Server, Thing
from props.c17 import Handler, follows
from props.c28 import POD, key, read
from symx.harness import harness


class Obj:
    def __init__(self, key, n):
        self.key, self.n = key, n


def key_func(obj):
    return obj.key


def gave_up(t):
    return t.done() and (t.cancelled() or t.exception() is not None)


@harness(
    quick=[dict(adds=2, poppers=3, turns=2, kind="fifo"), dict(adds=2, poppers=3, turns=2, kind="delta")],
    thorough=[dict(adds=3, poppers=3, turns=3, kind="fifo"), dict(adds=3, poppers=3, turns=3, kind="delta")],
    covers=("given up before", "given up when woken up", "given up afterwards", "closed"),
    bounds="`poppers` pops wait on an empty queue, the first two are cancelled at arbitrary turns, `adds` additions or one replacement "
    "of different keys at arbitrary turns (each up to `turns` after the one before), then maybe closing",
)
async def pops(sx, adds, poppers, turns, kind):
    q = fifo.FIFO(key_func) if kind == "fifo" else DeltaFIFO(key_func)
    handled = []

    async def later(item):
        handled.append(item.newest().object)

    tasks = [sx.spawn(q.pop(handled.append if kind == "fifo" else later)) for _ in range(poppers)]
    await sx.settle()
    objs = [Obj(f"k{i}", i) for i in range(adds)]
    replace = sx.bool("replace")

    async def cancel():
        for i in range(2):
            await sx.ticks(f"cancel{i}", turns)
            if tasks[i].done():
                sx.cover("given up afterwards")
            elif q.list_keys():
                sx.cover("given up when woken up")
            else:
                sx.cover("given up before")
            tasks[i].cancel()

    async def change():
        await sx.ticks("first", turns)
        if replace:
            await q.replace(objs, "1")
            return
        for i, o in enumerate(objs):
            if i:
                await sx.ticks(f"gap{i}", turns)
            await q.add(o)

    await asyncio.gather(cancel(), change())
    await sx.settle()
    sx.check(all(t.done() for t in tasks[:2]), "a pop that was given up goes on")
    sx.check(all(not gave_up(t) for t in tasks[2:]), "a pop that was not given up ends with an error")
    left = [q.get_by_key(o.key) for o in objs]
    left = [o if kind == "fifo" or o is None else o.newest().object for o in left]
    for o, l in zip(objs, left):
        sx.check((l is o) != any(h is o for h in handled), "an object is lost or popped twice")
    sx.check(len(handled) == len({o.n for o in handled}), "an object is popped twice")
    sx.check([o.n for o in handled] == sorted(o.n for o in handled), "objects are popped out of order")
    sx.check(all(l is None for l in left) or all(t.done() for t in tasks), "a waiting pop is not woken up")
    sx.check(len([t for t in tasks if t.done() and not gave_up(t)]) == len(handled), "a pop that was given up took an object along")
    sx.obs("popped", [o.n for o in handled])
    # Closing, and what is left, reach everybody.
    sx.cover("closed")
    await q.close()
    await sx.settle()
    sx.check(all(t.done() for t in tasks), "a closed queue leaves a pop waiting")
    for l in left:
        if l is not None:
            t = sx.spawn(q.pop(handled.append if kind == "fifo" else later))
            await sx.settle()
            sx.done_result(t, "a pop of what is left")
            sx.check(handled[-1] is l, "what was left is popped out of order")
    sx.check(q.has_synced() or not replace, "a queue whose first batch was popped has not synced")


@harness(
    quick=dict(adds=2, turns=6),
    thorough=dict(adds=3, turns=8),
    covers=("given up in time", "given up late", "rate limited", "delivered anyway", "not added"),
    bounds="`adds` delayed or rate-limited additions of different items, real delays up to 3 s, the first given up at an arbitrary turn up to `turns`, and a getter given up at an arbitrary turn or at a real time up to 3 s",
)
async def delayed(sx, adds, turns):
    limited = sx.bool("limited")
    q = rate_limiting_queue.new() if limited else delaying_queue.new()
    delays = [sx.real(f"delay{i}", 0, 3) for i in range(adds)]
    if limited:
        sx.cover("rate limited")
        tasks = [sx.spawn(q.add_rate_limited(i)) for i in range(adds)]
    else:
        tasks = [sx.spawn(q.add_after(i, d)) for i, d in enumerate(delays)]
    getter = sx.spawn(q.get())
    await sx.ticks("give up", turns)
    sx.cover("given up late" if tasks[0].done() else "given up in time")
    tasks[0].cancel()
    if sx.bool("getter later"):
        await asyncio.sleep(sx.real("getter_time", 0, 3))
    else:
        await sx.ticks("getter", turns)
    getter.cancel()
    await asyncio.sleep(4)
    sx.check(getter.done(), "a get that was given up goes on")
    sx.check(all(t.done() for t in tasks), "an addition does not end")
    sx.check(all(not gave_up(t) for t in tasks[1:]), "an addition that was not given up fails")
    got = [] if gave_up(getter) else [getter.result()[0]]
    while len(q):
        got.append((await q.get())[0])
    sx.check(len(set(got)) == len(got), "an item is delivered twice")
    for i in range(1, adds):
        sx.check(i in got, "an item is lost because another addition, or a getter, was given up")
    if not gave_up(tasks[0]):
        sx.check(0 in got, "an item whose addition ended is lost")
    sx.cover("delivered anyway" if 0 in got and gave_up(tasks[0]) else "not added" if 0 not in got else "in time")
    # The queue goes on.
    await q.add_after("more", sx.exact("0.5"))
    await asyncio.sleep(1)
    sx.check(len(q) == 1, "a queue does not go on after an addition was given up")
    await q.shut_down()
    await sx.settle()


@harness(
    quick=dict(turns=10, changes=1),
    thorough=dict(turns=24, changes=2),
    covers=("given up in time", "given up late", "slow handler", "objects before"),
    bounds="a running informer of two objects or none; adding a handler that is slow or not is given up at an arbitrary turn up to `turns`, "
    "while up to `changes` changes come; a handler before it and one after it get everything",
)
async def handlers(sx, turns, changes):
    server = Server()
    informer = shared_informer.new_shared_informer(server, Thing, 0)
    ref, after = Handler(sx, "ref"), Handler(sx, "after")
    await informer.add_event_handler(ref)
    if sx.bool("objects"):
        sx.cover("objects before")
        server.change("a")
        server.change("b")
    task = sx.spawn(informer.run())
    await sx.settle()
    slow = sx.bool("slow")
    if slow:
        sx.cover("slow handler")
    other = Handler(sx, "other", "stuck" if slow else "good")
    adding = sx.spawn(informer.add_event_handler(other))
    late = None
    if sx.bool("third at once"):
        late = sx.spawn(informer.add_event_handler(after))
    for i in range(changes):
        server.change(sx.choose(f"name{i}", ("a", "c")))
    await sx.ticks("give up", turns)
    sx.cover("given up late" if adding.done() else "given up in time")
    adding.cancel()
    await asyncio.sleep(1)
    if late is None:
        late = sx.spawn(informer.add_event_handler(after))
    server.change("a")
    server.delete("a")
    await asyncio.sleep(1)
    sx.check(adding.done(), "giving up an addition does not end it")
    sx.done_result(late, "adding a handler after another addition was given up")
    sx.check(len(ref.log) == len(server.log), "a handler misses something because another addition was given up")
    sx.check(follows(after.log, ref.log) is not None, "a handler's stream is not complete because another addition was given up")
    sx.check(not task.done(), "an informer ends because an addition was given up")
    sx.check(informer.has_synced(), "an informer does not sync because an addition was given up")
    other.released.set()
    await sx.settle()
    task.cancel()
    await asyncio.sleep(1)
    sx.check(task.done(), "an informer does not stop after an addition was given up")


@harness(
    quick=dict(turns=6),
    thorough=dict(turns=16),
    covers=("given up in time", "given up late", "before the start", "the other came first"),
    bounds="two of: a read, a request for the informer and a wait for the sync of a cache whose first list takes 1 s or no time, before its start or after; "
    "either starts up to two turns after the other, one is given up at an arbitrary turn up to `turns`",
)
async def reads(sx, turns):
    kube.reset()
    server = kube.serve(Server("ns"))
    server.change("o0")
    server.list_delay = 1 if sx.bool("slow") else 0
    c = caches.new()
    before = sx.bool("informer before")
    if before:
        await c.get_informer(POD)
    starting = sx.spawn(c.start())
    await sx.settle()
    if before and sx.bool("synced before"):
        sx.cover("before the start")
        await asyncio.sleep(2)
    calls = dict(read=lambda: read(sx, c, key("o0"), [True]), informer=lambda: c.get_informer(POD), wait=c.wait_for_cache_sync)
    what, other = sx.choose("given up", tuple(calls)), sx.choose("other", tuple(calls))
    if sx.bool("other first"):
        sx.cover("the other came first")
        second = sx.spawn(calls[other]())
        await sx.ticks("gap", 2)
        first = sx.spawn(calls[what]())
    else:
        first = sx.spawn(calls[what]())
        await sx.ticks("gap", 2)
        second = sx.spawn(calls[other]())
    await sx.ticks("give up", turns)
    sx.cover("given up late" if first.done() else "given up in time")
    first.cancel()
    await sx.settle()
    sx.check(first.done(), "a call that was given up goes on")
    await asyncio.sleep(3)
    sx.done_result(second, "a call while another one was given up")
    for call, name in ((first, what), (second, other)):
        if not gave_up(call):
            out = call.result()
            if name == "read":
                sx.check(out["out"] is server.held.get("o0"), "a read does not find an object because another call was given up")
            elif name == "wait":
                sx.check(out is True, "a wait fails because another call was given up")
            else:
                sx.check(out is not None, "a request for an informer gets none")
    t = sx.spawn(read(sx, c, key("o0"), [True]))
    await asyncio.sleep(2)
    sx.check(sx.done_result(t, "a read")["out"] is server.held.get("o0"), "an object is not found after a call was given up")
    sx.check(server.lists == 1, "a type is listed again because a call was given up")
    server.change("o0")
    await asyncio.sleep(1)
    t = sx.spawn(read(sx, c, key("o0"), [True]))
    await sx.settle()
    sx.check(sx.done_result(t, "a read")["out"] is server.held.get("o0"), "a type is not followed after a call was given up")
    sx.check(not starting.done(), "a cache ends because a call was given up")
    await sx.finish(starting)
