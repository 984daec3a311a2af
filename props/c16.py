"""An informer's notifications and its store follow the server."""

import asyncio

from aiok8s.cache import controller
from aiok8s.cache.delta_fifo import DeletedFinalStateUnknown
from aiok8s.runtime import schema
from props.faults import failure
from props.versions import number, version
from symx.harness import harness


class Meta:
    def __init__(self, name, rv, namespace=""):
        self.name, self.namespace, self.resource_version = name, namespace, str(rv)
        self.uid = "u"


class Thing:
    def __init__(self, name, rv, namespace=""):
        self.metadata = Meta(name, rv, namespace)


def name_in(obj):
    return obj["metadata"]["name"] if isinstance(obj, dict) else obj.metadata.name


class List:
    def __init__(self, items, rv):
        self.items, self.metadata = items, Meta("", rv)


def chunk(items, rv, options):
    """A list, or the part of it that is asked for."""
    first, limit = int(options.get("_continue") or 0), options.get("limit")
    l = List(items[first:], rv)
    if limit and len(l.items) > limit:
        l.items = l.items[:limit]
        l.metadata._continue = str(first + limit)
    return l


class Held:
    """Objects by name; names may be symbolic."""

    def __init__(self):
        self.objs = []

    def get(self, name):
        for o in self.objs:
            if name_in(o) == name:
                return o
        return None

    def put(self, obj):
        for i, o in enumerate(self.objs):
            if name_in(o) == name_in(obj):
                self.objs[i] = obj
                return
        self.objs.append(obj)

    def drop(self, name):
        self.objs = [o for o in self.objs if name_in(o) != name]

    def same(self, objs):
        return len(objs) == len(self.objs) and all(any(o is p for p in objs) for o in self.objs)


class Server:
    """A server whose watches can be broken, and which may be cut off."""

    def __init__(self, namespace=""):
        self.log, self.held, self.news = [], Held(), asyncio.Event()
        self.streams, self.lists = [], 0
        self.cut = False
        self.namespace = namespace
        self.list_delay = self.close_time = 0
        self.options = []

    def make(self, name):
        return Thing(name, version(len(self.log) + 1), self.namespace)

    def change(self, name):
        """Creates, modifies or (as `delete`) removes an object."""
        obj = self.make(name)
        kind = "ADDED" if self.held.get(name) is None else "MODIFIED"
        self.held.put(obj)
        return self._log(kind, obj)

    def delete(self, name):
        old = self.held.get(name)
        obj = self.make(name_in(old))
        self.held.drop(name)
        return self._log("DELETED", obj)

    def _log(self, kind, obj):
        self.log.append((kind, obj))
        self._wake()
        return obj

    def _wake(self):
        self.news.set()
        self.news = asyncio.Event()

    def break_watches(self):
        """Ends every watch; later ones do not see what happened before the next list."""
        for s in self.streams:
            s.broken = True
        self._wake()

    async def list(self, options):
        if self.list_delay:
            await asyncio.sleep(self.list_delay)
        if self.cut:
            raise failure(len(self.log), "cut off")
        self.lists += 1
        return chunk(list(self.held.objs), version(len(self.log)), options)

    async def watch(self, options):
        if self.cut:
            raise failure(len(self.log), "cut off")
        return self.stream(options)

    def stream(self, options):
        s = Stream(self, number(options["resource_version"]))
        self.streams.append(s)
        return s

    def open_streams(self):
        return [s for s in self.streams if s.entered != s.exited]


class RawServer(Server):
    """One whose objects and lists are dicts, of the kind KIND."""

    KIND = schema.GroupVersionKind("example.com", "v1", "Thing")

    def make(self, name):
        metadata = {"name": name, "resourceVersion": version(len(self.log) + 1)}
        if self.namespace:
            metadata["namespace"] = self.namespace
        return {"apiVersion": "example.com/v1", "kind": "Thing", "metadata": metadata}

    async def list(self, options):
        l = await super().list(options)
        more = getattr(l.metadata, "_continue", None)
        metadata = {"resourceVersion": l.metadata.resource_version}
        return {"items": l.items, "metadata": dict(metadata, **{"continue": more}) if more else metadata}


class VersionlessServer(Server):
    """One whose objects do not say their versions."""

    def make(self, name):
        obj = super().make(name)
        obj.metadata.resource_version = None
        return obj


def server_of(sx, forms):
    """A server, and what its objects are to an informer."""
    form = sx.choose("form", forms)
    sx.cover(form)
    return dict(typed=(Server, Thing), raw=(RawServer, RawServer.KIND), versionless=(VersionlessServer, Thing))[form]


class Stream:
    def __init__(self, server, at):
        self.server, self.at, self.broken = server, at, False
        self.entered = self.exited = 0

    async def __aenter__(self):
        self.entered += 1
        return self

    async def __aexit__(self, *a):
        if self.server.close_time:
            await asyncio.sleep(self.server.close_time)
        self.exited += 1

    def __aiter__(self):
        return self

    async def __anext__(self):
        while True:
            if self.broken:
                raise failure(len(self.server.log), "broken")
            if self.at < len(self.server.log):
                kind, obj = self.server.log[self.at]
                self.at += 1
                return {"type": kind, "object": obj}
            await self.server.news.wait()


@harness(
    quick=[dict(ops=4, slow=0, resync=0), dict(ops=3, slow=0.7, resync=0), dict(ops=3, slow=0, resync=2),
           dict(ops=3, slow=0, resync=0, form="raw"), dict(ops=2, slow=0, resync=2, form="versionless")],
    thorough=[dict(ops=5, slow=0, resync=0), dict(ops=4, slow=0.7, resync=0), dict(ops=4, slow=0, resync=2),
              dict(ops=4, slow=0, resync=0, form="raw"), dict(ops=4, slow=0, resync=2, form="versionless")],
    covers=("typed", "raw", "versionless", "added", "updated", "deleted", "deletion found by a list", "recreated while away", "change while away",
            "deleted before noticed"),
    bounds="every sequence of up to `ops` of: create or modify an object (names of arbitrary equality), delete one, "
    "lose the watch and the server, get the server back, let time pass; a handler that takes `slow` seconds; a "
    "resync every `resync` seconds (0: none); typed objects, raw ones, or some without versions (`form`)",
)
async def replay(sx, ops, slow, resync, form="typed"):
    make, expected = server_of(sx, (form,))
    server = make()
    mine = Held()
    quiet = [False]

    class Handler:
        async def on_add(self, obj):
            sx.check(mine.get(name_in(obj)) is None, "on_add for a key that is held")
            mine.put(obj)
            sx.cover("added")
            await self.done()

        async def on_update(self, old, new):
            held = mine.get(name_in(new))
            sx.check(held is not None, "on_update for a key that is not held")
            sx.check(held is old, "on_update with another previous object")
            mine.put(new)
            sx.cover("updated")
            await self.done()

        async def on_delete(self, obj):
            if isinstance(obj, DeletedFinalStateUnknown):
                name = obj.key
                sx.cover("deletion found by a list")
            else:
                name = name_in(obj)
            sx.check(mine.get(name) is not None, "on_delete for a key that is not held")
            mine.drop(name)
            sx.cover("deleted")
            await self.done()

        async def done(self):
            sx.check(mine.same(store.list()), "the notifications do not yield the store")
            if slow:
                await asyncio.sleep(slow)

    store, informer = controller.new_informer(server, expected, resync, Handler())
    if sx.bool("initial"):
        server.change("initial")
    task = sx.spawn(informer.run())
    gone = []
    for i in range(ops):
        op = sx.choose(f"op{i}", ("change", "delete", "lose", "recover", "wait"))
        if op == "change":
            name = sx.atom(f"name{i}")
            if server.cut:
                sx.cover("change while away")
                if any(g == name for g in gone):
                    sx.cover("recreated while away")
            server.change(name)
        elif op == "delete":
            if not server.held.objs:
                return await sx.finish(task)
            name = sx.choose(f"which{i}", [name_in(o) for o in server.held.objs])
            if mine.get(name) is None:
                sx.cover("deleted before noticed")
            if server.cut:
                gone.append(name)
            server.delete(name)
        elif op == "lose":
            if server.cut:
                return await sx.finish(task)
            server.cut = True
            server.break_watches()
            await sx.settle()
        elif op == "recover":
            if not server.cut:
                return await sx.finish(task)
            server.cut = False
        else:
            await asyncio.sleep(sx.choose(f"wait{i}", (0, 0.4, 3)))
        sx.check(mine.same(store.list()), "the notifications do not yield the store")
    server.cut = False
    await asyncio.sleep(5 + 8 * slow)
    sx.check(server.held.same(store.list()), "the store does not equal the server's content")
    sx.check(mine.same(store.list()), "the notifications do not yield the store in the end")
    sx.check(not task.done(), "the informer ended by itself")
    sx.obs("end", [name_in(o) for o in mine.objs], server.lists)
    await sx.finish(task)


@harness(
    quick=dict(ops=3),
    thorough=dict(ops=5),
    covers=("raised at an add", "raised at an update", "raised at a delete", "several changes at once"),
    bounds="every sequence of up to `ops` of: create or modify one of two objects, delete one, let a second pass, "
    "with a handler that takes a second for its first notification, and raises at an arbitrary one of its first three",
)
async def raises(sx, ops):
    server = Server()
    mine = Held()
    calls, bad = [], sx.int("bad", 0, 2)

    class Handler:
        async def on_add(self, obj):
            sx.check(mine.get(name_in(obj)) is None, "on_add for a key that is held")
            mine.put(obj)
            await self.done("add")

        async def on_update(self, old, new):
            sx.check(mine.get(name_in(new)) is old, "on_update with another previous object")
            mine.put(new)
            await self.done("update")

        async def on_delete(self, obj):
            name = obj.key if isinstance(obj, DeletedFinalStateUnknown) else name_in(obj)
            sx.check(mine.get(name) is not None, "on_delete for a key that is not held")
            mine.drop(name)
            await self.done("delete")

        async def done(self, what):
            sx.check(mine.same(store.list()), "the notifications do not yield the store")
            calls.append(what)
            if len(calls) == 1:
                await asyncio.sleep(1)
            if len(calls) - 1 == bad:
                sx.cover(f"raised at {'a' if what == 'delete' else 'an'} {what}")
                raise failure(bad, "handler")

    store, informer = controller.new_informer(server, Thing, 0, Handler())
    server.change("a")
    task = sx.spawn(informer.run())
    await sx.settle()
    before = 0
    for i in range(ops):
        op = sx.choose(f"op{i}", ("a", "b", "delete", "wait"))
        if op == "wait":
            await asyncio.sleep(1)
            before = len(server.log)
        elif op == "delete":
            if not server.held.objs:
                return await sx.finish(task)
            server.delete(name_in(server.held.objs[0]))
        else:
            server.change(op)
        if len(server.log) > before + 1:
            sx.cover("several changes at once")
    await asyncio.sleep(5)
    sx.check(not task.done(), "an informer ends because a handler raised")
    sx.check(server.lists == 1, "listed again")
    sx.check(server.held.same(store.list()), "the store does not equal the server's content after a handler raised")
    sx.check(mine.same(store.list()), "the notifications do not yield the store in the end")
    await sx.finish(task)


@harness(
    quick=dict(objs=1100),
    thorough=dict(objs=5000),
    covers=("relisted", "watched"),
    bounds="a server with `objs` objects; then every third is deleted, every third changed and as many are created, a hundred a second, while the watch works or while "
    "the server is away, and lists take 3 s or no time; handlers that take no time or a millisecond",
)
async def large(sx, objs):
    server = Server()
    mine, calls = {}, []
    slow = sx.choose("slow", (0, sx.exact("0.001")))

    class Handler:
        async def on_add(self, obj):
            sx.check(name_in(obj) not in mine, "on_add for a key that is held")
            mine[name_in(obj)] = obj
            await self.done()

        async def on_update(self, old, new):
            sx.check(mine.get(name_in(new)) is old, "on_update with another previous object")
            mine[name_in(new)] = new
            await self.done()

        async def on_delete(self, obj):
            name = obj.key if isinstance(obj, DeletedFinalStateUnknown) else name_in(obj)
            sx.check(name in mine, "on_delete for a key that is not held")
            del mine[name]
            await self.done()

        async def done(self):
            calls.append(None)
            if slow:
                await asyncio.sleep(slow)

    store, informer = controller.new_informer(server, Thing, 0, Handler())
    held = {}

    class Objs:
        """As Held, by name."""

        get = held.get
        objs = property(lambda self: list(held.values()))

    server.held = Objs()
    for i in range(objs):
        held[f"o{i}"] = server.make(f"o{i}")
        server.log.append(("ADDED", held[f"o{i}"]))

    def same(objs):
        return len(objs) == len(held) and all(held.get(name_in(o)) is o for o in objs)

    server.list_delay = sx.choose("list", (0, 3))
    task = sx.spawn(informer.run())
    await asyncio.sleep(5 + objs // 100)
    sx.check(informer.has_synced(), "the first list is not synced")
    sx.check(same(store.list()) and same(list(mine.values())), "the store does not equal the server's content")
    sx.check(len(calls) == objs, "an object is not told of once")
    away = sx.bool("away")
    sx.cover("relisted" if away else "watched")
    if away:
        server.cut = True
        server.break_watches()
    for i in range(objs):
        name = f"o{i}"
        if i % 3 == 0:
            obj = server.make(name)
            del held[name]
            server._log("DELETED", obj)
        elif i % 3 == 1:
            held[name] = server.make(name)
            server._log("MODIFIED", held[name])
        else:
            held[f"new{i}"] = server.make(f"new{i}")
            server._log("ADDED", held[f"new{i}"])
        if i % 100 == 99:
            await asyncio.sleep(1)
    server.cut = False
    await asyncio.sleep(20 + objs // 100)
    sx.check(not task.done(), "an informer ends by itself")
    sx.check(server.lists == (2 if away else 1), "listed again for no reason")
    sx.check(same(store.list()), "the store does not equal the server's content")
    sx.check(same(list(mine.values())), "the notifications do not yield the store")
    await sx.finish(task)
