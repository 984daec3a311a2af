"""Cache reads: error before start, current content after, never a hang."""

import asyncio

from props import kube
from aiok8s.controller import cache as caches, client, reconcile
from aiok8s.runtime import schema
from kubernetes_asyncio.client import models
from props.c16 import Server
from props.c36 import ServiceClient  # noqa: F401
from props.versions import version
from symx.harness import harness

POD = models.V1Pod


class OtherPod(client._Client):
    """Pods of another group, with a class of their own."""

    gvk = schema.GroupVersionKind("example.com", "v1", "Pod")
    object_type = type("OtherPod", (models.V1Pod,), {})
    api_cls = kube.CoreV1Api

    def _get_lister(self, namespace):
        return self._api_client.list_other_for_all_namespaces


class NewerPod(client._Client):
    """Pods of another version."""

    gvk = schema.GroupVersionKind("", "v2", "Pod")
    object_type = type("NewerPod", (models.V1Pod,), {})
    api_cls = kube.CoreV1Api

    def _get_lister(self, namespace):
        return self._api_client.list_newer_for_all_namespaces


TYPES = {None: POD, "services": models.V1Service, "others": OtherPod.object_type, "newer": NewerPod.object_type}


def key(name, namespace="ns"):
    return reconcile.NamespacedName(namespace=namespace, name=name)


def served(sx, namespace=None, objs=0):
    kube.reset()
    server = kube.serve(Server("ns"), namespace)
    for i in range(objs):
        server.change(f"o{i}")
    return server


async def read(sx, c, k, started, kind=POD):
    """One read; what it gave and when it began and ended."""
    r = dict(began=sx.now(), before=not started[0], calls=started[1:], out=None)
    try:
        r["out"] = await c.get(k, kind)
    except KeyError:
        r["out"] = "missing"
    except caches.CacheNotStartedError:
        r["out"] = "not started"
    r["ended"] = sx.now()
    sx.obs("read", r["out"] if isinstance(r["out"], str) else r["out"].metadata.name)
    return r


@harness(
    quick=dict(reads=2, turns=3),
    thorough=dict(reads=3, turns=6),
    covers=("read before the start", "first asked for after the start", "informer before the start", "missing", "found", "not started", "concurrent first requests"),
    bounds="`reads` reads of one or two objects and up to one request for the informer, each at an arbitrary turn up to `turns` around the start "
    "or later, of a cache whose first list takes a real time up to 0.25 s; for all namespaces or one",
)
async def first_reads(sx, reads, turns):
    namespace = "ns" if sx.bool("one_namespace") else None
    server = served(sx, namespace, 1)
    server.list_delay = sx.real("list_time", 0, sx.exact("0.25"))
    c = caches.new(namespace=namespace) if namespace else caches.new()
    started = [False]
    informers, later = [], False

    async def informer():
        informers.append(await c.get_informer(POD))

    tasks = []
    if sx.bool("informer_first"):
        sx.cover("informer before the start")
        t = sx.spawn(informer())
        await sx.settle()
        sx.done_result(t, "asking for an informer before the start")
    else:
        later = True
    starting = None

    async def start():
        started[0] = True
        await c.start()

    when = sx.int("start_before", 0, reads)
    for i in range(reads):
        if when == i:
            starting = sx.spawn(start())
            await sx.ticks("after_start", turns)
        tasks.append(sx.spawn(read(sx, c, key(sx.choose(f"name{i}", ("o0", "nope"))), started)))
        if i < reads - 1:
            if sx.bool(f"pause{i}"):
                await asyncio.sleep(3)
            else:
                await sx.ticks(f"turn{i}", turns)
    if later:
        tasks.append(sx.spawn(informer()))
        sx.cover("concurrent first requests")
    await asyncio.sleep(5)
    if starting is None:
        starting = sx.spawn(start())
        await asyncio.sleep(5)
    sx.check(not starting.done(), "the cache's start returns by itself")
    for t in tasks:
        r = sx.done_result(t, "a read or a request for an informer")
        if r is None:
            continue
        if r["before"] and starting is not None:
            sx.cover("read before the start")
        out = r["out"]
        if out == "not started":
            sx.cover("not started")
            sx.check(r["before"], "a read after the start reports that the cache is not started")
            continue
        if not r["before"]:
            sx.cover("first asked for after the start")
        sx.check(r["ended"] - r["began"] <= 2.5, "a read takes long after the first list is there")
        if out == "missing":
            sx.cover("missing")
        else:
            sx.cover("found")
            sx.check(out is server.held.get("o0"), "a read gives another object")
    # A read before the start, all by itself, is an error.
    late = [sx.spawn(read(sx, c, key("o0"), started)), sx.spawn(read(sx, c, key("nope"), started)), sx.spawn(read(sx, c, key("o0", "other"), started))]
    await sx.settle()
    outs = [sx.done_result(t, "a read of a synced type")["out"] for t in late]
    sx.check(outs[0] is server.held.get("o0"), "a stored object is not found")
    sx.check(outs[1] == "missing", "an object that does not exist is found")
    sx.check(outs[2] == "missing", "an object of another namespace is found")
    t = sx.spawn(informer())
    await sx.settle()
    sx.done_result(t, "asking for an informer")
    sx.check(all(i is informers[0] for i in informers), "there are several informers for one type")
    sx.check(server.lists == 1, "a type is listed more than once")
    for what, ns in kube.CALLS:
        sx.check(ns == namespace, "another namespace is listed or watched")
    await sx.finish(starting)


@harness(
    quick=dict(),
    covers=("list later",),
    bounds="a read before the start with or without an informer for the type, and first reads after the start: no value is "
    "given before the first list is there (arriving after a real time up to 2 s)",
)
async def not_before_the_list(sx):
    server = served(sx, None, 1)
    server.list_delay = sx.real("list_time", 0, 2)
    c = caches.new()
    if sx.bool("informer_first"):
        await c.get_informer(POD)
    early = sx.spawn(read(sx, c, key("o0"), [False]))
    await sx.settle()
    sx.check(sx.done_result(early, "a read before the start")["out"] == "not started", "a read before the start is no error")
    starting = sx.spawn(c.start())
    begun = sx.now()
    await sx.settle()
    t = sx.spawn(read(sx, c, key("o0"), [True]))
    u = sx.spawn(read(sx, c, key("nope"), [True]))
    await asyncio.sleep(5)
    for t, want in ((t, server.held.get("o0")), (u, "missing")):
        r = sx.done_result(t, "a read after the start")
        sx.check(r["out"] is want or r["out"] == want, "a read gives something else than the first list has")
        sx.check(r["ended"] >= begun + server.list_delay, "a read ends before the first list is there")
        sx.check(r["ended"] <= begun + server.list_delay + 1, "a read takes long after the first list is there")
    sx.cover("list later")
    await sx.finish(starting)


@harness(
    quick=dict(ops=3),
    thorough=dict(ops=5),
    covers=("deleted", "modified", "created"),
    bounds="`ops` creations, changes and deletions of objects of arbitrary name; after each, reads of both names give what is there",
)
async def current(sx, ops):
    server = served(sx, None, 1)
    c = caches.new()
    starting = sx.spawn(c.start())
    await sx.settle()
    first = sx.spawn(read(sx, c, key("o0"), [True]))
    await asyncio.sleep(2)
    sx.done_result(first, "the first read")
    for i in range(ops):
        name = sx.choose(f"name{i}", ("o0", "o1"))
        had = server.held.get(name) is not None
        if had and sx.bool(f"delete{i}"):
            server.delete(name)
            sx.cover("deleted")
        else:
            server.change(name)
            sx.cover("modified" if had else "created")
        await asyncio.sleep(1)
        for n in ("o0", "o1"):
            t = sx.spawn(read(sx, c, key(n), [True]))
            await sx.settle()
            out = sx.done_result(t, "a read")["out"]
            there = server.held.get(n)
            sx.check(out == "missing" if there is None else out is there, "a read does not give the current object")
    await sx.finish(starting)


@harness(
    quick=dict(turns=6),
    thorough=dict(turns=12),
    covers=("cancelled while the first list runs", "cancelled later", "read in time", "refused"),
    bounds="the start cancelled at an arbitrary turn up to `turns`, or later, with a type asked for before or after the start, and reads "
    "and waits for the cache's sync under way: every watch is closed, nothing is listed any more, and no read and no wait, "
    "also of a type first asked for later, goes on forever",
)
async def stopped(sx, turns):
    server = served(sx, None, 1)
    if sx.bool("slow"):
        server.list_delay = 1
    c = caches.new()
    before = sx.bool("before")
    if before:
        await c.get_informer(POD)
    starting = sx.spawn(c.start())
    await asyncio.sleep(0)
    t = None
    if not before:
        await sx.settle()
        t = sx.spawn(c.get_informer(POD))
    await sx.ticks("cancel", turns)
    if sx.bool("later"):
        await asyncio.sleep(3)
        sx.cover("cancelled later")
    else:
        sx.cover("cancelled while the first list runs")
    waits = [sx.spawn(read(sx, c, key(n), [True])) for n in ("o0", "nope")] if sx.bool("reads") else []
    waits.append(sx.spawn(c.wait_for_cache_sync()))
    if t is not None:
        waits.append(t)
    if sx.bool("meanwhile"):
        await sx.ticks("meanwhile", turns)
    starting.cancel()
    await asyncio.sleep(3)
    sx.check(starting.done(), "a cancelled cache does not stop")
    late = [sx.spawn(c.get(key("o0"), o)) for o in (POD, models.V1Service)] + [sx.spawn(c.get_informer(models.V1Service)), sx.spawn(c.wait_for_cache_sync())]
    await asyncio.sleep(3)
    for w in waits + late:
        sx.check(w.done(), "a read of a stopped cache, or a wait for it, does not end")
        if not w.cancelled():
            w.exception()
    if any(not w.exception() for w in waits[:-1]):
        sx.cover("read in time")
    if any(w.exception() for w in waits):
        sx.cover("refused")
    sx.check(not server.open_streams(), "a stopped cache leaves a watch open")
    n = server.lists
    server.break_watches()
    await asyncio.sleep(10)
    sx.check(server.lists == n, "a stopped cache lists again")


@harness(
    quick=dict(ops=1),
    thorough=dict(ops=2),
    covers=("informers first", "same name", "deleted"),
    bounds="pods, services, pods of another group and of another version, asked for in either order, before the start or after, by reads or for their informers; then "
    "`ops` creations, changes and deletions of an object of any of these types; each type's objects are its own",
)
async def types(sx, ops):
    kube.reset()
    servers = {k: kube.serve(Server("ns"), k) for k in TYPES}
    for k, server in servers.items():
        server.make = lambda name, server=server, cls=TYPES[k]: cls(
            metadata=models.V1ObjectMeta(name=name, namespace="ns", resource_version=version(len(server.log) + 1), uid="u")
        )
        if k != "services":
            server.change("o0")
    c = caches.new()
    order = list(TYPES) if sx.bool("order") else list(TYPES)[::-1]
    first = sx.choose("informers", ("first", "later", "none"))
    if first == "first":
        sx.cover("informers first")
        for k in order:
            await c.get_informer(TYPES[k])
    starting = sx.spawn(c.start())
    await sx.settle()
    informers = {}
    if first == "later":
        for k in order:
            informers[k] = sx.spawn(c.get_informer(TYPES[k]))
    for i in range(ops + 1):
        if i:
            k = sx.choose(f"type{i}", tuple(TYPES))
            name = sx.choose(f"name{i}", ("o0", "o1"))
            if servers[k].held.get(name) is not None and sx.bool(f"delete{i}"):
                sx.cover("deleted")
                servers[k].delete(name)
            else:
                servers[k].change(name)
            await asyncio.sleep(1)
        reads = [(k, n, sx.spawn(read(sx, c, key(n), [True], TYPES[k]))) for k in order for n in ("o0", "o1")]
        if not i:
            await asyncio.sleep(3)
        await sx.settle()
        for k, n, t in reads:
            out = sx.done_result(t, "a read")["out"]
            there = servers[k].held.get(n)
            if there is not None and any(s.held.get(n) is not None for s in servers.values() if s is not servers[k]):
                sx.cover("same name")
            sx.check(out == "missing" if there is None else out is there, "a read gives not what is there of its type")
    for k, t in informers.items():
        sx.done_result(t, "asking for an informer")
    for k, s in servers.items():
        sx.check(s.lists == 1, "a type is listed more than once")
    await sx.finish(starting)


@harness(
    quick=dict(turns=24),
    thorough=dict(turns=120),
    covers=("typed before", "while the list arrives"),
    bounds="a cache whose first list of 1, 6 or 40 objects takes 1, 31, 70 or 400 s, for a type asked for before the start or after; from then on, one after the other in "
    "each of up to `turns` turns around the time the list arrives, reads of the first object or the last",
)
async def while_listing(sx, turns):
    n = sx.choose("objs", (1, 6, 40))
    server = served(sx, None, n)
    server.list_delay = sx.choose("slow", (1, 31, 70, 400))
    c = caches.new()
    if sx.bool("before"):
        sx.cover("typed before")
        await c.get_informer(POD)
        starting = sx.spawn(c.start())
    else:
        starting = sx.spawn(c.start())
        await sx.settle()
        asked = sx.spawn(c.get_informer(POD))
    name = f"o{sx.choose('which', (0, n - 1))}"
    reads = [sx.spawn(read(sx, c, key(name), [True]))]
    await asyncio.sleep(server.list_delay - sx.exact("0.5"))
    reads.append(sx.spawn(read(sx, c, key(name), [True])))
    await sx.settle()
    sx.check(not any(t.done() for t in reads), "a read ends before the first list is there")
    await asyncio.sleep(sx.exact("0.5"))
    sx.cover("while the list arrives")
    await sx.ticks("turn", turns)
    reads.append(sx.spawn(read(sx, c, key(name), [True])))
    await asyncio.sleep(1)
    for t in reads:
        sx.check(sx.done_result(t, "a read after the first list")["out"] is server.held.get(name), "a read gives something else than the first list has")
    await sx.finish(starting)
