"""What has ended leaves no task running."""

import asyncio

from props import kube
from aiok8s.cache import delta_fifo, fifo, shared_informer
from aiok8s.cache.reflector import Reflector
from aiok8s.controller import cache as caches, controller, handler, manager, reconcile, source
from aiok8s.util import wait
from aiok8s.watch import mux
from aiok8s.workqueue import delaying_queue, queue, rate_limiting_queue
from props.c15 import Store, World
from props.c16 import Server
from props.c16 import Thing as Object
from props.c15 import Thing
from props.c28 import POD, key, read
from props.lease import Candidate, Lease, problem
from symx.harness import harness


class Watched:
    """The tasks there are besides those of the check."""

    def __init__(self):
        self.mine = set(asyncio.all_tasks())

    def own(self, *tasks):
        self.mine.update(tasks)
        return tasks[0]

    def left(self):
        return [t for t in asyncio.all_tasks() if t not in self.mine and not t.done()]


async def nothing_left(sx, watched, what):
    await asyncio.sleep(1)
    sx.obs("left", len(watched.left()))
    sx.check(not watched.left(), f"{what} leaves a task behind")


@harness(
    quick=dict(until=4),
    thorough=dict(until=9),
    covers=("cancelled", "failed", "told to stop", "done", "in a call", "between calls"),
    bounds="every loop, poll and retry of a real period from 2 to 4 s, cancelled at a real time up to `until`, or ended then by an error of its "
    "function, by success or by being told; calls that take half a second or no time",
)
async def loops(sx, until):
    w = Watched()
    period = sx.real("period", 2, 4)
    stop = asyncio.Event()
    at = sx.real("end", 0, until)
    start = sx.now()
    how = sx.choose("how", ("cancelled", "failed", "told to stop", "done"))
    slow = sx.bool("slow")
    busy = [False]

    async def f():
        busy[0] = True
        if slow:
            await asyncio.sleep(sx.exact("0.5"))
        busy[0] = False
        if sx.now() >= start + at:
            if how == "failed":
                raise ValueError("f")
            return how == "done"
        return False

    periodic = {
        "loop": lambda: wait.loop(f, period),
        "jitter loop": lambda: wait.jitter_loop(f, period, 1, False),
        "until": lambda: wait.until(f, period, stop),
        "jitter until": lambda: wait.jitter_until(f, period, 1, sx.bool("sliding"), stop),
    }
    others = {
        "poll": lambda: wait.poll(period, 20, f),
        "poll immediate": lambda: wait.poll_immediate(period, 20, f),
        "poll infinite": lambda: wait.poll_infinite(period, f),
        "poll immediate infinite": lambda: wait.poll_immediate_infinite(period, f),
        "backoff": lambda: wait.exponential_backoff(wait.Backoff(steps=9, duration=period, jitter=1), f),
    }
    if how in ("cancelled", "failed"):
        kinds = {**periodic, **others}
    else:
        kinds = {k: v for k, v in periodic.items() if "until" in k} if how == "told to stop" else others
    what = sx.choose("what", tuple(kinds))
    t = w.own(sx.spawn(kinds[what]()))
    await asyncio.sleep(at)
    sx.cover("in a call" if busy[0] else "between calls")
    if how == "cancelled":
        t.cancel()
        await asyncio.sleep(0)
    elif how == "told to stop":
        stop.set()
        await asyncio.sleep(1)
    else:
        await asyncio.wait([t])
    sx.cover(how)
    sx.check(t.done() or how == "cancelled", "a loop does not end")
    await nothing_left(sx, w, "a loop")


@harness(
    quick=[dict(turns=4, kind=k) for k in ("plain", "delaying", "limited", "fifo", "delta")],
    thorough=[dict(turns=9, kind=k) for k in ("plain", "delaying", "limited", "fifo", "delta")],
    covers=("given up", "shut down", "delayed", "another later"),
    bounds="every queue; two getters, one of which is given up at a turn up to `turns`; an addition that may be delayed for a real time up to 60 s, and another, then or a second "
    "later, for up to 100 s; the queue shut down, "
    "or closed, up to `turns` turns or 3 s later",
)
async def queues(sx, turns, kind):
    w = Watched()
    if kind in ("fifo", "delta"):
        async def take(deltas):
            pass

        q = fifo.FIFO(lambda o: o) if kind == "fifo" else delta_fifo.DeltaFIFO(lambda o: o)
        get = lambda: q.pop((lambda o: None) if kind == "fifo" else take)
        close = q.close
    else:
        q = {"plain": queue.new, "delaying": delaying_queue.new, "limited": rate_limiting_queue.new}[kind]()
        get, close = q.get, q.shut_down
    first, second = w.own(sx.spawn(get())), w.own(sx.spawn(get()))
    add = None
    if kind in ("delaying", "limited") and sx.bool("delay"):
        sx.cover("delayed")
        add = w.own(sx.spawn(q.add_after("x", sx.real("delay", 0, 60))))
        if not sx.bool("another later"):
            w.own(sx.spawn(q.add_after("y", 100)))
        else:
            sx.cover("another later")
            await asyncio.sleep(1)
            w.own(sx.spawn(q.add_after("y", sx.real("other delay", 0, 100))))
    else:
        await q.add("x")
    await sx.ticks("give up", turns)
    first.cancel()
    if add and sx.bool("give up adding"):
        add.cancel()
    sx.cover("given up")
    if sx.bool("later"):
        await asyncio.sleep(3)
    else:
        await sx.ticks("shut down", turns)
    await close()
    if kind not in ("fifo", "delta"):
        for t in (first, second):
            if t.done() and not t.cancelled() and not t.result()[1]:
                await q.done(t.result()[0])
    sx.cover("shut down")
    await nothing_left(sx, w, "a queue that was shut down")


@harness(
    quick=dict(turns=3, events=2),
    thorough=dict(turns=6, events=3),
    covers=("waiting", "dropping", "stopped", "given up", "shut down", "reads again"),
    bounds="a broadcaster of either kind with queues of one event; `events` events up to `turns` turns apart; two watchers, one stopped or its reader given up at a turn up to `turns` (then maybe stopped); "
    "then the shutdown; every watcher is left by its reader or read to its end",
)
async def broadcasters(sx, turns, events):
    w = Watched()
    waiting = sx.bool("waiting")
    sx.cover("waiting" if waiting else "dropping")
    full = mux.FullChannelBehavior
    b = mux.Broadcaster(1, full.WAIT_IF_CHANNEL_FULL if waiting else full.DROP_IF_CHANNEL_FULL)
    watchers = [await b.watch(), await b.watch()]

    async def read(v):
        async with v:
            async for e in v:
                await asyncio.sleep(0)

    readers = [w.own(sx.spawn(read(v))) for v in watchers]

    async def send():
        for i in range(events):
            await sx.ticks(f"gap{i}", turns)
            await b.action("ADDED", i)

    async def end():
        await sx.ticks("end", turns)
        if sx.bool("stop"):
            sx.cover("stopped")
            await watchers[0].stop()
        else:
            sx.cover("given up")
            readers[0].cancel()

    await asyncio.gather(send(), end())
    w.own(t := sx.spawn(b.shutdown()))
    await sx.settle()
    sx.done_result(t, "shutting down")
    sx.cover("shut down")
    sx.check(all(r.done() for r in readers), "a watcher does not end")
    if sx.bool("again"):
        sx.cover("reads again")
        await read(watchers[1])
    await nothing_left(sx, w, "a broadcaster that was shut down")


@harness(
    quick=dict(faults=1, until=4),
    thorough=dict(faults=2, until=7),
    covers=("list raises", "watch raises", "stream raises", "stream ends", "opening raises", "replace raises", "resync raises"),
    bounds="a reflector that resyncs every 2 s or never, with up to `faults` faults as in C15, cancelled at a real time up to `until`",
)
async def reflectors(sx, faults, until):
    watched = Watched()
    w = World(sx, faults)
    w.late = False
    w.change("ADDED", "a")
    store = Store(w)
    r = Reflector(w, Thing, store, 2 if sx.bool("resyncs") else 0)
    t = watched.own(sx.spawn(r.run()))
    await asyncio.sleep(sx.real("end", 0, until))
    # What a failure ended leaves nothing either.
    sx.check(len(watched.left()) <= 8, "a reflector accumulates tasks")
    t.cancel()
    await asyncio.sleep(0)
    await nothing_left(sx, watched, "a reflector")


@harness(
    quick=[dict(turns=12, until=0), dict(turns=0, until=3)],
    thorough=[dict(turns=40, until=0), dict(turns=0, until=6)],
    covers=("shared informer", "cache", "manager", "failed", "slow list", "slow handler"),
    bounds="a shared informer with a handler that may be slow, a cache with reads, and a manager with a controller that may be reconciling, with changes; cancelled after up to "
    "`turns` turns or at a real time up to `until`, or a source that fails",
)
async def running(sx, turns, until):
    w = Watched()
    kube.reset()
    what = sx.choose("what", ("shared informer", "cache", "manager"))
    sx.cover(what)
    server = Server() if what == "shared informer" else kube.serve(Server("ns"))
    server.change("a")
    server.change("b")
    if sx.bool("slow list"):
        sx.cover("slow list")
        server.list_delay = 1
    fails, others = False, []
    if what == "shared informer":
        slow = sx.bool("slow")

        class H:
            async def on_add(self, obj):
                if slow:
                    sx.cover("slow handler")
                    await asyncio.sleep(1)

            async def on_update(self, old, new):
                pass

            async def on_delete(self, obj):
                pass

        informer = shared_informer.new_shared_informer(server, Object, 2 if sx.bool("resyncs") else 0)
        await informer.add_event_handler(H())
        t = sx.spawn(informer.run())
    elif what == "cache":
        c = caches.new()
        t = sx.spawn(c.start())
        others = [sx.spawn(read(sx, c, key("a"), [True])), sx.spawn(c.get_informer(POD))]
    else:
        class R:
            async def reconcile(self, r):
                if r.namespaced_name.name == "a":
                    await asyncio.sleep(1)
                return reconcile.Result(requeue_after=30)

        class Bad:
            async def start(self, handler, queue, *predicates):
                raise ValueError("source")

        m = manager.new()
        c = controller.new(m, reconciler=R())
        await c.watch(source.Kind(POD), handler.EnqueueRequestForObject())
        fails = sx.bool("fails")
        if fails:
            sx.cover("failed")
            await c.watch(Bad(), handler.EnqueueRequestForObject())
        t = sx.spawn(m.start())
    w.own(t, *others)
    if fails:
        await asyncio.wait([t], timeout=5)
        sx.check(t.done(), "a manager whose source fails does not end")
    else:
        if until:
            await asyncio.sleep(sx.real("end", 0, until))
        else:
            await sx.ticks("end", turns)
        if sx.bool("change"):
            server.change("a")
            server.delete("b")
            await sx.ticks("after", 2)
    t.cancel()
    for o in others:
        o.cancel()
    await asyncio.wait([t], timeout=2)
    await nothing_left(sx, w, f"a {what}")


@harness(
    quick=[dict(turns=9, until=0), dict(turns=0, until=4)],
    thorough=[dict(turns=25, until=0), dict(turns=0, until=12)],
    covers=("cancelled", "lost", "hangs"),
    bounds="an elector for a lease that is free or held by somebody else, with a release or not, whose requests work, fail or hang after a second; cancelled after up to `turns` "
    "turns or at a real time up to `until`, or ended by itself",
)
async def electors(sx, turns, until):
    w = Watched()
    lease = Lease(sx, dict(holderIdentity="x", leaderTransitions=1, acquireTime=1, renewTime=1, leaseDurationSeconds=4) if sx.bool("held") else None)
    how = sx.choose("requests", ("work", "fail", "hang"))
    start = sx.now()

    async def behave(what):
        await asyncio.sleep(0)
        if how != "work" and sx.now() >= start + 1:
            if how == "hang":
                sx.cover("hangs")
                await asyncio.Event().wait()
            raise problem("down")

    e = Candidate(sx, lease, "e", behave, cleanup=sx.exact("0.25"), lease_duration=5, renew_deadline=3, retry_period=1, release_on_cancel=sx.bool("release"))
    t = w.own(e.run())
    if until:
        await asyncio.sleep(sx.real("end", 0, until))
    else:
        await sx.ticks("end", turns)
    sx.cover("lost" if t.done() else "cancelled")
    t.cancel()
    await asyncio.wait([t], timeout=4)
    sx.check(t.done(), "an elector does not end")
    await nothing_left(sx, w, "an elector")
