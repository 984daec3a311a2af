"""An informer reports itself synced only after its first list is in the store."""

import asyncio

from aiok8s.cache import controller, shared_informer
from props.c16 import Server, Thing
from props.c17 import Handler
from props.faults import failure
from symx.harness import harness


@harness(
    quick=[dict(objs=2, kind="plain", turns=4), dict(objs=1, kind="shared", turns=6)],
    thorough=[dict(objs=3, kind="plain", turns=20), dict(objs=2, kind="shared", turns=20)],
    covers=("empty list", "synced", "asked before the run", "slow handler", "failed list"),
    bounds="a first list of up to `objs` objects that takes an arbitrary time of up to 0.25 s and may fail once; changes "
    "around it; an observer that looks at every turn of the loop; on the shared informer a handler is added at an "
    "arbitrary turn of up to `turns` after the list's arrival; a handler takes an arbitrary time of up to 0.15 s",
)
async def synced(sx, objs, kind, turns):
    server = Server()
    n = sx.int("objs", 0, objs)
    for i in range(objs):
        if n <= i:
            break
        server.change(f"o{i}")
    first = [o.metadata.name for o in server.held.objs]
    if not first:
        sx.cover("empty list")
    listed = asyncio.Event()
    fails = sx.bool("fails")
    tries = [0]

    class Slow:
        async def list(self, options):
            tries[0] += 1
            if fails and tries[0] == 1:
                sx.cover("failed list")
                raise failure(0, "list")
            await asyncio.sleep(sx.real("list_time", 0, 0.25))
            out = await server.list(options)
            listed.set()
            return out

        async def watch(self, options):
            return await server.watch(options)

    slow = Handler(sx, "slow", "slow" if sx.bool("slow_handler") else "good")
    if slow.kind == "slow":
        sx.cover("slow handler")
        slow.time = sx.real("handler_time", 0, 0.15)
    if kind == "plain":
        store, informer = controller.new_informer(Slow(), Thing, 0, slow)
    else:
        informer = shared_informer.new_shared_informer(Slow(), Thing, 0)
        store = informer.get_indexer()
        await informer.add_event_handler(slow)
    was = [False]

    def look():
        now = informer.has_synced()
        if now:
            keys = store.list_keys()
            sx.check(task is not None, "synced before it runs")
            sx.check(listed.is_set(), "synced before the first list")
            sx.check(all(k in keys or k in removed for k in first), "synced although an object is not in the store")
        sx.check(now or not was[0], "not synced any more")
        was[0] = now

    async def observer():
        while True:
            await listed.wait()
            for _ in range(turns + 60):
                look()
                await asyncio.sleep(0)
            return

    removed = []
    task = None
    look()
    sx.check(not was[0], "synced before it runs")
    waiting = sx.spawn(shared_informer.wait_for_cache_sync(informer.has_synced, lambda: True))
    await asyncio.sleep(0.05)
    sx.check(not waiting.done(), "waiting for the sync ends before the informer runs")
    sx.cover("asked before the run")
    task = sx.spawn(informer.run())
    watching = sx.spawn(observer())
    await listed.wait()
    late = None
    if kind == "shared":
        await sx.ticks("late", turns)
        late = sx.spawn(informer.add_event_handler(Handler(sx, "late")))
    if sx.bool("change_after"):
        if first:
            removed.append(first[0])
            server.delete(first[0])
        server.change("new")
    await asyncio.sleep(4.0 * (objs + 2))
    sx.done_result(watching, "observing")
    look()
    sx.check(was[0], "not synced although the first list was processed")
    sx.cover("synced")
    sx.check(sx.done_result(waiting, "waiting for the sync") is True, "waiting for the sync gives something else")
    if late is not None:
        sx.done_result(late, "adding a handler")
    sx.obs("keys", sorted(store.list_keys()))
    await sx.finish(task)


@harness(
    quick=dict(caches=2),
    thorough=dict(caches=3),
    covers=("all synced", "one is late"),
    bounds="waiting for `caches` caches that each become synced at an arbitrary time of up to 1 s, or never",
)
async def waiting(sx, caches):
    state = [False] * caches
    times = []

    async def become(i, d):
        await asyncio.sleep(d)
        state[i] = True

    tasks = []
    for i in range(caches):
        if sx.bool(f"ever{i}"):
            d = sx.real(f"time{i}", 0, 1)
            times.append(d)
            tasks.append(sx.spawn(become(i, d)))
    t = sx.spawn(shared_informer.wait_for_cache_sync(*[lambda i=i: state[i] for i in range(caches)]))
    await sx.settle()
    await asyncio.sleep(3)
    if len(times) < caches:
        sx.cover("one is late")
        sx.check(not t.done(), "waiting ends although a cache is not synced")
        t.cancel()
        await asyncio.gather(t, return_exceptions=True)
        sx.check(t.cancelled(), "waiting cannot be cancelled")
    else:
        sx.check(sx.done_result(t, "waiting") is True, "waiting gives something else than success")
        sx.check(all(state), "waiting ends although a cache is not synced")
        sx.cover("all synced")
    await sx.finish(*tasks)


@harness(
    quick=dict(objs=12),
    thorough=dict(objs=100),
    covers=("plain", "shared", "slow list", "many caches"),
    bounds="1, 5, 6 or 20 informers, whose first lists of up to `objs` objects take 1, 12, 70, 400 or 1000 s for one of them (the first or the last, or one that fails for so long) and a second for the others: "
    "waiting for all of them ends once the last is synced, and not before",
)
async def patient(sx, objs):
    slow = sx.choose("slow", (1, 12, 70, 400, 1000))
    kind = sx.choose("kind", ("plain", "shared"))
    sx.cover(kind)
    if slow > 1:
        sx.cover("slow list")
    n = sx.choose("caches", (1, 5, 6, 20))
    if n > 1:
        sx.cover("many caches")
    late = sx.choose("late", (0, n - 1))
    informers, tasks, servers = [], [], []

    class Nothing:
        async def on_add(self, obj):
            pass

    for i in range(n):
        server = Server()
        for k in range(objs if i == late else i % 3):
            server.change(f"o{k}")
        if i == late and sx.bool("failing"):
            server.cut = True
        else:
            server.list_delay = slow if i == late else 1
        servers.append(server)
        if kind == "plain":
            store, informer = controller.new_informer(server, Thing, 0, Nothing())
            stored = store.list_keys
        else:
            informer = shared_informer.new_shared_informer(server, Thing, 0)
            stored = informer.get_indexer().list_keys
        informers.append((informer, stored))
        tasks.append(sx.spawn(informer.run()))
    t = sx.spawn(shared_informer.wait_for_cache_sync(*[i.has_synced for i, _ in informers]))
    await asyncio.sleep(slow - sx.exact("0.1"))
    for i in (range(n) if slow == 1 else (late,)):
        sx.check(not informers[i][0].has_synced(), "an informer says it is synced before the first list is there")
    sx.check(not t.done(), "waiting ends although a cache is not synced")
    servers[late].cut = False
    await asyncio.sleep(3)
    sx.check(sx.done_result(t, "waiting") is True, "waiting gives something else than success")
    for (informer, stored), server in zip(informers, servers):
        sx.check(informer.has_synced(), "an informer does not say that it is synced")
        sx.check(len(stored()) == len(server.held.objs), "the first list is not in the store")
    await sx.finish(*tasks)
