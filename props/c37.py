"""Running an informer ends cleanly on cancellation, at any moment."""

import asyncio

from aiok8s.cache import controller, delta_fifo, fifo, shared_informer, store
from props.c16 import Server, Thing
from props.faults import failure
from symx.harness import harness


class Handler:
    """Notes its calls; each takes some time, or some time to end once cancelled, or raises."""

    def __init__(self, sx, time=0, cleanup=0, bad=None):
        self.sx, self.time, self.cleanup, self.bad = sx, time, cleanup, bad
        self.begun, self.running = 0, 0

    async def on_add(self, obj):
        await self.called()

    async def on_update(self, old, new):
        await self.called()

    async def on_delete(self, obj):
        await self.called()

    async def called(self):
        self.begun += 1
        self.sx.cover("handled")
        self.running += 1
        try:
            if self.begun == self.bad:
                self.sx.cover("handler raised")
                raise failure(self.begun, "handler")
            if self.time:
                await asyncio.sleep(self.time)
        finally:
            try:
                if self.cleanup:
                    await asyncio.sleep(self.cleanup)
            finally:
                self.running -= 1


async def moment(sx, turns, until):
    if until:
        await asyncio.sleep(sx.real("when", 0, sx.exact(until)))
    else:
        await sx.ticks("turns", turns)


def served(sx, objs):
    """A server in one of several conditions when the informer is cancelled."""
    server = Server()
    for i in range(objs):
        server.change(f"o{i}")
    how = sx.choose("server", ("good", "slow list", "no watch", "changing"))
    server.close_time = sx.exact("0.2")
    sx.cover(how)
    if how == "slow list":
        server.list_delay = sx.exact("0.5")
    elif how == "no watch":
        async def watch(options):
            raise failure(len(server.streams), "no watch")

        server.watch = watch
    return server, how


async def changes(server):
    while True:
        for change, name in ((server.change, "o0"), (server.change, "n"), (server.delete, "n")):
            change(name)
            await asyncio.sleep(0.25)


async def quiet(sx, server, handlers, begun, lists):
    """After the end: no handler is called, nothing listed or watched whatever happens."""
    sx.check(not server.open_streams(), "an informer that has ended leaves a watch open")
    server.change("o0")
    server.change("new")
    await asyncio.sleep(3)
    server.break_watches()
    await asyncio.sleep(9)
    sx.check([h.begun for h in handlers] == begun, "a handler is called after its informer has ended")
    sx.check(server.lists == lists, "an informer that has ended lists again")
    sx.check(not server.open_streams(), "an informer that has ended watches")


COVERS = ("handled", "good", "slow list", "no watch", "changing", "in a handler", "not begun")


@harness(
    quick=[dict(turns=14, until=0), dict(turns=0, until="1.5")],
    thorough=[dict(turns=60, until=0), dict(turns=0, until=6)],
    covers=COVERS,
    bounds="a plain informer of two objects, with and without resyncs, cancelled after up to `turns` turns or at a real time up to `until`; a server that works, takes 0.5 s to list, refuses watches, or changes, adds or deletes an object every 0.25 s; closing a watch takes 0.2 s; "
    "handler calls that take no time or 0.3 s, or 0.1 s to end once cancelled",
)
async def plain(sx, turns, until):
    server, how = served(sx, 2)
    h = Handler(sx, *sx.choose("handler", ((0, 0), (sx.exact("0.3"), 0), (sx.exact("0.3"), sx.exact("0.1")))))
    known = store.new_store(controller.deletion_handling_meta_namespace_key_func)
    queue = delta_fifo.DeltaFIFO(store.meta_namespace_key_func, known_objects=known)

    async def process(deltas):
        for d in deltas:
            await known.add(d.object)
            await h.on_add(d.object)

    resync = 2 if sx.bool("resync") else 0
    c = controller.new(controller.Config(queue=queue, lister_watcher=server, process=process, object_type=Thing, full_resync_period=resync, retry_on_error=False))
    task = sx.spawn(c.run())
    more = [sx.spawn(changes(server))] if how == "changing" else []
    await moment(sx, turns, until)
    sx.cover("in a handler" if h.running else "not begun" if not h.begun else "handled")
    ran = server.lists > 0
    task.cancel()
    await asyncio.wait([task], timeout=1)
    sx.check(task.done(), "a cancelled informer does not end")
    sx.check(task.cancelled(), "a cancelled informer ends otherwise")
    sx.check(not h.running, "a handler call is left behind")
    calls, lists = [h.begun], server.lists
    if ran:
        popped = sx.spawn(drained(queue))
        await sx.settle()
        sx.done_result(popped, "popping the queue of an informer that has ended")
    await quiet(sx, server, [h], calls, lists)
    await sx.finish(*more)


async def drained(queue):
    async def take(deltas):
        pass

    try:
        while True:
            await queue.pop(take)
    except fifo.FIFOClosedError:
        return True


@harness(
    quick=[dict(turns=14, until=0, kind="fast"), dict(turns=0, until="1.2", kind="slow"), dict(turns=0, until="1.2", kind="raises")],
    thorough=[dict(turns=60, until=0, kind=k) for k in ("fast", "slow", "raises")] + [dict(turns=0, until=4, kind=k) for k in ("fast", "slow", "raises")],
    covers=COVERS + ("handler raised", "handler added meanwhile", "handler added before"),
    bounds="a shared informer of two objects, with and without resyncs, cancelled after up to `turns` turns or at a real time up to `until`; a server as for plain informers; two handlers, one of which may "
    "take 0.3 s per call or raise in its first or second call; one more is added 0 to 2 turns before the cancellation or after it, and one after the end; the end is due within 65 s",
)
async def shared(sx, turns, until, kind):
    server, how = served(sx, 2)
    resync = 2 if sx.bool("resync") else 0
    informer = shared_informer.new_shared_informer(server, Thing, resync)
    other = Handler(sx)
    if kind == "slow":
        odd = Handler(sx, sx.exact("0.3"))
    elif kind == "raises":
        odd = Handler(sx, 0, 0, sx.choose("bad", (1, 2)))
    else:
        odd = Handler(sx)
    handlers = [odd, other]
    for h in handlers:
        await informer.add_event_handler(h)
    task = sx.spawn(informer.run())
    more = [sx.spawn(changes(server))] if how == "changing" else []
    await moment(sx, turns, until)
    handlers.append(Handler(sx))
    adding = sx.choose("adding", ("0", "2", "after"))
    extra = None
    if adding != "after":
        sx.cover("handler added before")
        extra = sx.spawn(informer.add_event_handler(handlers[-1]))
        for i in range(int(adding)):
            await asyncio.sleep(0)
    sx.cover("in a handler" if odd.running else "not begun" if not odd.begun else "handled")
    task.cancel()
    if adding == "after":
        sx.cover("handler added meanwhile")
        extra = sx.spawn(informer.add_event_handler(handlers[-1]))
    await asyncio.wait([task], timeout=2 if kind != "raises" else 65)
    sx.check(task.done(), "a cancelled informer does not end")
    sx.check(task.cancelled(), "a cancelled informer ends otherwise")
    sx.check(not any(h.running for h in handlers), "a handler call is left behind")
    calls, lists = [h.begun for h in handlers], server.lists
    await sx.settle()
    sx.done_result(extra, "adding a handler to an informer that was cancelled")
    late = Handler(sx)
    adding = sx.spawn(informer.add_event_handler(late))
    await sx.settle()
    sx.done_result(adding, "adding a handler to an informer that has ended")
    await quiet(sx, server, handlers + [late], calls + [0], lists)
    await sx.finish(*more)
