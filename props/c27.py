"""Every object event passing the predicates enqueues its object's request."""

import asyncio
import logging

from aiok8s.cache import shared_informer
from aiok8s.cache.delta_fifo import DeletedFinalStateUnknown
from aiok8s.controller import handler, reconcile, source
from props.c16 import Server, Thing
from symx.harness import harness

logging.getLogger("aiok8s").setLevel(logging.CRITICAL + 1)


class Queue:
    def __init__(self):
        self.items = []

    async def add(self, item):
        self.items.append(item)


class Cache:
    def __init__(self, informer):
        self.informer, self.types = informer, []

    async def get_informer(self, type_):
        self.types.append(type_)
        return self.informer


class Informer:
    handler = None

    async def add_event_handler(self, h):
        self.handler = h


class Predicate:
    """Accepts by a symbolic choice made at the event; notes what it was asked."""

    def __init__(self, sx, name):
        self.sx, self.name, self.asked, self.rejected = sx, name, [], False

    def _ask(self, kind, *objs):
        self.asked.append((kind, objs))
        ok = self.sx.bool(f"{self.name}.accepts")
        if not ok:
            self.rejected = True
        return ok

    def create(self, e):
        return self._ask("create", e.object, e.meta)

    def update(self, e):
        return self._ask("update", e.object_old, e.object_new, e.meta_old, e.meta_new)

    def delete(self, e):
        return self._ask("delete", e.object, e.meta)


def thing(sx, name, raw):
    n, ns = sx.atom(f"{name}.name", 2), sx.atom(f"{name}.namespace", 2)
    if not raw:
        o = Thing(n, 1, ns)
    else:
        o = {"metadata": {"name": n, "namespace": ns, "resourceVersion": "1"}}
    return o, reconcile.Request(reconcile.NamespacedName(namespace=ns, name=n))


async def started(predicates):
    q, inf = Queue(), Informer()
    cache = Cache(inf)
    s = source.Kind(Thing)
    s.inject_cache(cache)
    await s.start(handler.EnqueueRequestForObject(), q, *predicates)
    return q, inf.handler, cache


@harness(
    quick=dict(events=2, most=2),
    thorough=dict(events=3, most=2),
    covers=("create", "update", "update to another name", "update to the same object", "delete", "final state unknown", "rejected", "accepted", "raw", "no predicates"),
    bounds="`events` events of any kind for objects of arbitrary name and namespace, typed or raw, up to `most` predicates with "
    "arbitrary outcomes",
)
async def requests(sx, events, most):
    n = sx.choose("predicates", range(most + 1))
    if n == 0:
        sx.cover("no predicates")
    ps = [Predicate(sx, f"p{i}") for i in range(n)]
    q, h, cache = await started(ps)
    sx.check(cache.types == [Thing], "the source asks for the informer of another type")
    for k in range(events):
        raw = sx.bool(f"raw{k}")
        if raw:
            sx.cover("raw")
        o, r = thing(sx, f"o{k}", raw)
        kind = sx.choose(f"kind{k}", ("create", "update", "delete", "final state unknown"))
        sx.cover(kind)
        want = [r]
        for p in ps:
            p.asked.clear()
            p.rejected = False
        q.items.clear()
        args = (o,)
        if kind == "create":
            await h.on_add(o)
        elif kind == "update":
            if sx.bool(f"resync{k}"):
                sx.cover("update to the same object")
                new, r2 = o, r
            else:
                new, r2 = thing(sx, f"n{k}", raw)
            want.append(r2)
            args = (o, new)
            if r != r2:
                sx.cover("update to another name")
            await h.on_update(o, new)
        elif kind == "delete":
            await h.on_delete(o)
        else:
            kind = "delete"
            await h.on_delete(DeletedFinalStateUnknown("key", o))
        rejected = any(p.rejected for p in ps)
        sx.cover("rejected" if rejected else "accepted")
        for p in ps:
            sx.check(len(p.asked) <= 1, "a predicate is asked twice about one event")
            for what, objs in p.asked:
                sx.check(what == kind, "a predicate is asked about another kind of event")
                sx.check(all(x is y for x, y in zip(objs, args)), "a predicate is asked about other objects")
                metas = objs[len(args):]
                for m, w in zip(metas, want):
                    sx.check(sx.And(m.name == w.namespaced_name.name, m.namespace == w.namespaced_name.namespace), "a predicate gets other metadata")
        if rejected:
            sx.check(not q.items, "a rejected event is enqueued")
        else:
            sx.check(all(len(p.asked) == 1 for p in ps), "a predicate is not asked")
            sx.check(all(any(w == i for i in q.items) for w in want), "the object's request is not enqueued")
            sx.check(all(any(w == i for w in want) for i in q.items), "another request is enqueued")


@harness(
    quick=dict(),
    covers=("bad add", "bad delete", "bad update"),
    bounds="something that is no object in any event: nothing is enqueued, no predicate is asked, and the next event works",
)
async def not_objects(sx):
    p = Predicate(sx, "p")
    q, h, _ = await started([p])
    bad = sx.choose("bad", ("text", {}, 3, None))
    kind = sx.choose("kind", ("add", "delete", "old", "new"))
    o, r = thing(sx, "o", False)
    if kind == "add":
        await h.on_add(bad)
    elif kind == "delete":
        await h.on_delete(bad)
    elif kind == "old":
        await h.on_update(bad, o)
    else:
        await h.on_update(o, bad)
    sx.cover("bad update" if kind in ("old", "new") else "bad " + kind)
    sx.check(not p.asked and not q.items, "something that is no object is passed on")
    await h.on_add(o)
    sx.check(len(q.items) == (0 if p.rejected else 1), "the next event is not handled")


@harness(
    quick=dict(ops=3),
    thorough=dict(ops=4),
    covers=("deleted while cut off", "deleted", "modified", "created"),
    bounds="the source on a shared informer: `ops` creations, changes and deletions of two objects, with the watch broken and the "
    "server cut off before an arbitrary one of them; each change is followed by a request for its object",
)
async def end_to_end(sx, ops):
    server = Server("ns")
    server.change("a")
    inf = shared_informer.new_shared_informer(server, Thing, 0)
    s = source.Kind(Thing)
    s.inject_cache(Cache(inf))
    q = Queue()
    await s.start(handler.EnqueueRequestForObject(), q)
    t = sx.spawn(inf.run())
    await asyncio.sleep(2)
    cut_before = sx.int("cut_before", 0, ops)
    sx.check(q.items == [request("a")], "the first list's objects are not enqueued")
    q.items.clear()
    for k in range(ops):
        if cut_before == k:
            server.cut = True
            server.break_watches()
        name = sx.choose(f"name{k}", ("a", "b"))
        had = server.held.get(name) is not None
        if had and sx.bool(f"delete{k}"):
            server.delete(name)
            sx.cover("deleted while cut off" if server.cut else "deleted")
        else:
            server.change(name)
            sx.cover("modified" if had else "created")
        await asyncio.sleep(0.1)
        if server.cut:
            server.cut = False
            await asyncio.sleep(5)
        sx.check(any(i == request(name) for i in q.items), "a change is not followed by a request for its object")
        sx.check(all(i == request(name) for i in q.items) or cut_before == k, "a request for an unchanged object")
        q.items.clear()
    await sx.finish(t)


def request(name, namespace="ns"):
    return reconcile.Request(reconcile.NamespacedName(namespace=namespace, name=name))
