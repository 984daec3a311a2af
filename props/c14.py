"""A reflector's store follows the lists and watch events of its server."""

import asyncio

from aiok8s.cache import controller, shared_informer
from aiok8s.cache.reflector import Reflector
from aiok8s.runtime.schema import GroupVersionKind
from props.c16 import RawServer, Server
from props.c16 import Thing as ServerThing
from props.faults import failure
from props.versions import version
from symx.harness import harness


class Meta:
    def __init__(self, rv):
        self.resource_version = rv
        self.name, self.namespace = "n", ""


class Thing:
    """A typed object."""

    def __init__(self, rv):
        self.metadata = Meta(rv)


class Other:
    """An object of another type."""

    def __init__(self, rv):
        self.metadata = Meta(rv)


class Broken(Thing):
    """An object that cannot be understood."""

    def __init__(self, rv):
        pass


def raw(rv, kind="Thing"):
    return {"apiVersion": "g/v1", "kind": kind, "metadata": {"name": "n", "namespace": "", "resourceVersion": rv}}


def raw_broken(rv):
    return {"apiVersion": "g/v1", "kind": "Thing"}


class List:
    def __init__(self, items, rv):
        self.items, self.metadata = items, Meta(rv)


class Recorder:
    """A store that records what is done to it, and may refuse."""

    def __init__(self):
        self.log = []
        self.refuse, self.mood = [], 0

    async def add(self, obj):
        self._do("ADDED", obj)

    async def update(self, obj):
        self._do("MODIFIED", obj)

    async def delete(self, obj):
        self._do("DELETED", obj)

    async def replace(self, list_, rv):
        self.log.append(("LIST", list(list_), rv))

    async def resync(self):
        self.log.append(("RESYNC",))

    def _do(self, kind, obj):
        self.log.append((kind, obj))
        if any(obj is x for x in self.refuse):
            raise failure(self.mood, "refused")


class Stream:
    def __init__(self, script):
        self.script, self.entered, self.exited, self.ended = script, 0, 0, False

    async def __aenter__(self):
        self.entered += 1
        return self

    async def __aexit__(self, *a):
        self.exited += 1

    def __aiter__(self):
        return self

    async def __anext__(self):
        return await self.script(self)


@harness(
    quick=[dict(events=2, watches=1, expect="any"), dict(events=1, watches=2, expect="any"),
           dict(events=2, watches=1, expect="type"), dict(events=2, watches=1, expect="kind")],
    thorough=[dict(events=2, watches=2, expect="any"), dict(events=3, watches=1, expect="any"),
              dict(events=3, watches=1, expect="type"), dict(events=1, watches=2, expect="type"),
              dict(events=3, watches=1, expect="kind"), dict(events=1, watches=2, expect="kind")],
    covers=("added", "modified", "deleted", "bookmark", "resumed", "listed again", "refused", "unexpected",
            "not understood", "slow event"),
    bounds="a list of up to 1 object, `watches` watches with up to `events` events each, every type of event "
    "(also an unknown one, another object type or kind, an object that cannot be understood), at most one "
    "event refused by the store, arriving after arbitrary delays of up to 3 s, then the watch ends; a reflector "
    "for any object, one type, or one kind",
)
async def follows(sx, events, watches, expect):
    store = Recorder()
    expected, versions = [], []
    rv = [0]
    opened = []
    make = raw if expect == "kind" else Thing
    seen = [0]

    def bump():
        rv[0] += 1
        return version(rv[0])

    class Server:
        async def list(self, options):
            sx.check(not (opened and opened[-1].stuck), "an event rejected by the store stopped the later ones")
            items = [make("50")] if sx.bool("listed") else []
            v = bump()
            expected.append(("LIST", items, v))
            versions[:] = [v]
            if seen[0]:
                sx.cover("listed again")
            seen[0] += 1
            if expect == "kind":
                return {"metadata": {"resourceVersion": v}, "items": items}
            return List(items, v)

        async def watch(self, options):
            sx.check(options["resource_version"] in versions, "a watch does not start where the last one ended")
            sx.check(r.last_sync_resource_version() in versions, "the version reported is not the last one processed")
            check_log()
            sx.check(not (opened and opened[-1].stuck), "an event rejected by the store stopped the later ones")
            if opened and opened[-1].resumable:
                sx.cover("resumed")
            s = Stream(script)
            s.left, s.resumable, s.stuck = events, False, False
            opened.append(s)
            if len(opened) > watches:
                await asyncio.Event().wait()
            return s

    async def script(s):
        n = f"{len(opened)}_{s.left}"
        if s.left == 0:
            s.stuck = False
            raise StopAsyncIteration
        s.left -= 1
        kinds = ("ADDED", "MODIFIED", "DELETED", "BOOKMARK", "odd", "end")
        kind = sx.choose(f"event{n}", kinds)
        gap = sx.real(f"gap{n}", 0, 3)
        await asyncio.sleep(gap)
        s.stuck = False
        if kind == "end":
            raise StopAsyncIteration
        v = bump()
        if kind == "odd":
            odd = sx.choose(f"odd{n}", ("type", "broken") + (("other",) if expect != "any" else ()))
            if odd == "type":
                # Whether an event of an unknown type counts as processed is left open.
                versions.append(v)
                return {"type": "WEIRD", "object": make(v)}
            if odd == "broken":
                sx.cover("not understood")
                return {"type": "ADDED", "object": (raw_broken if expect == "kind" else Broken)(v)}
            sx.cover("unexpected")
            return {"type": "ADDED", "object": raw(v, "Other") if expect == "kind" else Other(v)}
        obj = make(v)
        versions[:] = [v]
        s.resumable = True
        sx.cover({"ADDED": "added", "MODIFIED": "modified", "DELETED": "deleted", "BOOKMARK": "bookmark"}[kind])
        if kind != "BOOKMARK":
            expected.append((kind, obj))
            if not store.refuse and sx.bool(f"refused{n}"):
                sx.cover("refused")
                store.refuse.append(obj)
                store.mood = sx.choose("how", (0, 1))
                s.stuck = True
        return {"type": kind, "object": obj}

    def check_log():
        sx.check(len(store.log) == len(expected), "the store was told more or less than what happened")
        for a, b in zip(store.log, expected):
            sx.check(a[0] == b[0], "the store was told something else than what happened")
            if a[0] == "LIST":
                same = len(a[1]) == len(b[1]) and all(x is y for x, y in zip(a[1], b[1])) and a[2] == b[2]
                sx.check(same, "the store does not get the list's content and version")
            else:
                sx.check(a[1] is b[1], "the store was told about another object")

    want = {"any": None, "type": Thing, "kind": GroupVersionKind("g", "v1", "Thing")}[expect]
    r = Reflector(Server(), want, store, 0)
    sx.check(r.last_sync_resource_version() == "", "a version is reported before the first list")
    task = sx.spawn(r.run())
    await asyncio.sleep(3 * (watches + 1) * (events + 1))
    sx.cover("slow event")
    sx.check(not task.done(), "the reflector ended by itself")
    sx.check(len(opened) == watches + 1, "no further watch was opened")
    check_log()
    sx.check(r.last_sync_resource_version() in versions, "the version reported is not the last one processed")
    for s in opened[:-1]:
        sx.check(s.entered == 1 and s.exited == 1, "a stream was not ended")
    sx.obs("log", [(e[0], e[2] if e[0] == "LIST" else 0) for e in store.log])
    await sx.finish(task)


@harness(
    quick=dict(ops=3),
    thorough=dict(ops=5),
    covers=("plain", "shared", "before the first list", "listed again"),
    bounds="an informer, plain or shared, of a list that takes a second or no time, and up to `ops` changes, lost watches and seconds in any order",
)
async def informer_version(sx, ops):
    server = Server()

    class Nothing:
        async def on_add(self, obj):
            pass

        async def on_update(self, old, new):
            pass

        async def on_delete(self, obj):
            pass

    if sx.bool("shared"):
        sx.cover("shared")
        informer = shared_informer.new_shared_informer(server, ServerThing, 0)
    else:
        sx.cover("plain")
        informer = controller.new_informer(server, ServerThing, 0, Nothing())[1]
    if sx.bool("slow"):
        server.list_delay = 1
    if sx.bool("initial"):
        server.change("a")
    sx.check(informer.last_sync_resource_version() == "", "a version is reported before the start")
    task = sx.spawn(informer.run())
    await sx.settle()
    if not server.lists:
        sx.cover("before the first list")
        sx.check(informer.last_sync_resource_version() == "", "a version is reported before the first list")
    await asyncio.sleep(2)
    for i in range(ops):
        sx.check(informer.last_sync_resource_version() == version(len(server.log)), "the version reported is not the last one processed")
        op = sx.choose(f"op{i}", ("change", "delete", "lose"))
        if op == "change":
            server.change("a")
            await sx.settle()
        elif op == "delete":
            if not server.held.objs:
                break
            server.delete("a")
            await sx.settle()
        else:
            server.break_watches()
            await asyncio.sleep(3 if server.list_delay else 2)
            sx.cover("listed again")
    sx.check(informer.last_sync_resource_version() == version(len(server.log)), "the version reported is not the last one processed")
    await sx.finish(task)


@harness(
    quick=dict(objs=1100),
    thorough=dict(objs=3000),
    covers=("typed", "raw", "listed again"),
    bounds="a server with `objs` objects, or up to two more or fewer; a third are changed or deleted, while the watch works or while the server is away, and then the watch is lost",
)
async def large(sx, objs):
    raws = sx.bool("raw")
    sx.cover("raw" if raws else "typed")
    server = RawServer() if raws else Server()
    held = {}

    class Objs:
        get = held.get
        objs = property(lambda self: list(held.values()))

        def put(self, obj):
            old, held[name(obj)] = held.get(name(obj)), obj
            return old

        def drop(self, name):
            return held.pop(name)

    def name(obj):
        return obj["metadata"]["name"] if raws else obj.metadata.name

    server.held = Objs()
    for i in range(objs + sx.choose("more", (-2, -1, 0, 1, 2))):
        held[f"o{i}"] = server.make(f"o{i}")
        server.log.append(("ADDED", held[f"o{i}"]))
    store = Recorder()
    r = Reflector(server, RawServer.KIND if raws else ServerThing, store, 0)
    task = sx.spawn(r.run())
    await asyncio.sleep(1)

    def is_list(entry):
        return entry[0] == "LIST" and [id(x) for x in entry[1]] == [id(x) for x in held.values()] and entry[2] == version(len(server.log))

    sx.check(len(store.log) == 1 and is_list(store.log[0]), "the store does not get the list's content and version")
    away = sx.bool("away")
    if away:
        server.cut = True
        server.break_watches()
        await asyncio.sleep(1)
    before = len(server.log)
    for i in range(0, objs // 3):
        held_name = f"o{3 * i}"
        if i % 2:
            server.delete(held_name)
        else:
            server.change(held_name)
    if not away:
        await asyncio.sleep(1)
        told = store.log[1:]
        happened = server.log[before:]
        sx.check(len(told) == len(happened) and all(t[0] == h[0] and t[1] is h[1] for t, h in zip(told, happened)),
                 "the store was told something else than what happened")
        server.cut = True
        server.break_watches()
        await asyncio.sleep(1)
    server.cut = False
    n = len(store.log)
    await asyncio.sleep(3)
    sx.cover("listed again")
    sx.check(len(store.log) == n + 1 and is_list(store.log[-1]), "the store does not get the list's content and version again")
    sx.check(r.last_sync_resource_version() == version(len(server.log)), "the version reported is not the last one processed")
    sx.check(not task.done(), "the reflector ended by itself")
    await sx.finish(task)


@harness(
    quick=dict(watches=150),
    thorough=dict(watches=1500),
    covers=("resumed", "ends without events"),
    bounds="`watches` watches one after the other, that each end after one event, after a bookmark, or each after one by turns (another object added, modified or deleted), half a second apart; or, from time to time, after none",
)
async def reconnects(sx, watches):
    kind = sx.choose("kind", ("event", "bookmark", "turns"))
    idle = sx.choose("idle", (0, 50))  # each so many-th watch has no event
    store = Recorder()
    count, told, opened = [1], [], [0]
    at = [version(1)]

    class World:
        async def list(self, options):
            told.append(("LIST", [], at[0]))
            return List([], at[0])

        async def watch(self, options):
            sx.check(options["resource_version"] == at[0], "a watch does not start where the last one ended")
            opened[0] += 1
            if opened[0] > watches:
                await asyncio.Event().wait()
            s = Stream(script)
            s.n = opened[0]
            s.done = False
            return s

    async def script(s):
        await asyncio.sleep(0.5)
        if s.done:
            raise StopAsyncIteration
        s.done = True
        if idle and s.n % idle == 0:
            sx.cover("ends without events")
            raise StopAsyncIteration
        count[0] += 1
        at[0] = version(count[0])
        obj = Thing(at[0])
        if kind == "event" or kind == "turns" and s.n % 2:
            what = ("ADDED", "MODIFIED", "DELETED")[s.n % 3]
            told.append((what, obj))
        else:
            what = "BOOKMARK"
        return {"type": what, "object": obj}

    r = Reflector(World(), Thing, store, 0)
    task = sx.spawn(r.run())
    await asyncio.sleep(2 * watches)
    sx.cover("resumed")
    sx.check(opened[0] == watches + 1, "no further watch was opened")
    sx.check(r.last_sync_resource_version() == at[0], "the version reported is not the last one processed")
    got = [e for e in store.log if e[0] != "LIST"]
    want = [e for e in told if e[0] != "LIST"]
    sx.check(len(got) == len(want) and all(g[0] == w[0] and g[1] is w[1] for g, w in zip(got, want)), "the store was told something else than what happened")
    sx.check(not task.done(), "the reflector ended by itself")
    await sx.finish(task)
