"""A reflector keeps going through list, watch, stream and store failures."""

import asyncio

from aiok8s.cache.reflector import Reflector
from props.c16 import chunk
from props.faults import failure
from props.versions import number, version
from symx.harness import harness




class Meta:
    def __init__(self, name, rv):
        self.name, self.namespace, self.resource_version = name, "", str(rv)


class Thing:
    def __init__(self, name, rv):
        self.metadata = Meta(name, rv)


class List:
    def __init__(self, items, rv):
        self.items, self.metadata = items, Meta("", rv)


class Garbage:
    pass


class Store:
    def __init__(self, w):
        self.w, self.objs, self.resyncs = w, {}, 0

    async def add(self, obj):
        self.objs[obj.metadata.name] = obj

    update = add

    async def delete(self, obj):
        self.objs.pop(obj.metadata.name, None)

    async def replace(self, list_, rv):
        if self.w.fault("replace", ("raises",)):
            raise self.w.problem("replace")
        self.objs = {o.metadata.name: o for o in list_}

    async def resync(self):
        self.resyncs += 1
        if self.w.fault("resync", ("raises",)):
            raise self.w.problem("resync")


class SlowStore(Store):
    """Each operation takes half a second."""

    def __init__(self, w, inside):
        super().__init__(w)
        self.inside, self.ops = inside, 0

    def slowly(name):
        async def op(self, *args):
            self.ops += 1
            before, self.inside[0] = self.inside[0], "storing"
            await asyncio.sleep(0.5)
            self.inside[0] = before
            return await getattr(Store, name)(self, *args)

        return op

    add, update, delete, replace, resync = map(slowly, ("add", "update", "delete", "replace", "resync"))


class World:
    """A server whose calls may fail, as long as faults are left."""

    def __init__(self, sx, faults, kinds=None):
        self.sx, self.left, self.kinds = sx, faults, kinds
        self.log, self.objs, self.news = [], {}, asyncio.Event()
        self.lists, self.watches, self.streams = [], [], []
        self.failed_at = None
        self.n = 0
        self.turn = None
        self.late = True

    def fault(self, where, kinds):
        """Which fault happens here, if any."""
        if self.kinds is not None and where not in self.kinds:
            return None
        if self.left == 0:
            return None
        self.n += 1
        kind = self.sx.choose(f"{where}{self.n}", (None,) + tuple(kinds))
        if kind is not None:
            self.left -= 1
            self.sx.cover(f"{where} {kind}")
            self.failed_at = self.sx.now()
        return kind

    def problem(self, what):
        """An exception, of either kind."""
        if self.turn is None:
            self.turn = self.sx.choose("class", (0, 1))
        return failure(self.n + self.turn, what)

    def change(self, kind, name):
        obj = Thing(name, version(len(self.log) + 1))
        self.log.append((kind, obj))
        if kind == "DELETED":
            self.objs.pop(name, None)
        else:
            self.objs[name] = obj
        self.news.set()
        self.news = asyncio.Event()

    def called(self):
        """Checks how soon a call follows a failure."""
        if self.failed_at is not None:
            self.sx.check(self.sx.now() - self.failed_at <= 2, "no call to the server within two seconds of a failure")
            self.failed_at = None

    async def list(self, options):
        self.called()
        now = self.sx.now()
        if self.lists:
            self.sx.check(now - self.lists[-1] >= 0.5, "lists again without a pause")
        self.lists.append(now)
        f = self.fault("list", ("raises", "gives garbage"))
        if f == "raises":
            raise self.problem("list")
        if f:
            return Garbage()
        return chunk(list(self.objs.values()), version(len(self.log)), options)

    async def watch(self, options):
        self.called()
        self.watches.append(self.sx.now())
        if self.fault("watch", ("raises",)):
            raise self.problem("watch")
        s = Stream(self, number(options["resource_version"]))
        self.streams.append(s)
        return s


class Stream:
    def __init__(self, w, at):
        self.w, self.at = w, at
        self.entered = self.exited = 0
        self.fate = None

    async def __aenter__(self):
        f = self.w.fault("opening", ("raises",))
        if f:
            raise self.w.problem("opening")
        self.entered += 1
        n = len(self.w.streams)
        self.fate = self.w.fault("stream", ("raises", "reports an error", "ends", "gives garbage"))
        if self.fate:
            self.w.failed_at = None
            self.until = self.w.sx.now() + (self.w.sx.real(f"until{n}", 0, 3) if self.w.late else 0)
        return self

    async def __aexit__(self, *a):
        self.exited += 1

    def __aiter__(self):
        return self

    async def __anext__(self):
        while True:
            if self.fate and self.w.sx.now() >= self.until:
                self.w.failed_at = self.w.sx.now()
                if self.fate == "raises":
                    raise self.w.problem("stream")
                if self.fate == "ends":
                    raise StopAsyncIteration
                if self.fate == "gives garbage":
                    self.fate = "ends"
                    return {"type": "ADDED"}
                self.fate = "ends"
                return {"type": "ERROR", "object": Garbage()}
            if self.at < len(self.w.log):
                kind, obj = self.w.log[self.at]
                self.at += 1
                return {"type": kind, "object": obj}
            news = asyncio.ensure_future(self.w.news.wait())
            try:
                await asyncio.wait([news], timeout=self.until - self.w.sx.now() if self.fate else None)
            finally:
                news.cancel()


def same(a, b):
    return set(a) == set(b) and all(a[k] is b[k] for k in a)


@harness(
    quick=[dict(faults=2, changes=1, resync=0, kinds=None), dict(faults=1, changes=2, resync=0, kinds=None),
           dict(faults=2, changes=1, resync=2, kinds=("resync", "replace"))],
    thorough=[dict(faults=3, changes=1, resync=0, kinds=None), dict(faults=2, changes=2, resync=0, kinds=None),
              dict(faults=3, changes=1, resync=2, kinds=("resync", "replace", "watch"))],
    covers=("list raises", "list gives garbage", "watch raises", "opening raises", "stream raises",
            "stream reports an error", "stream ends", "stream gives garbage", "replace raises", "resync raises",
            "change before the end"),
    bounds="every sequence of up to `faults` faults of the list call, the watch call, the opening of the stream, the "
    "stream (after an arbitrary time of up to 3 s), the store's replace and its resync (`resync`: the period, 0 is "
    "none; `kinds`: where faults happen), and `changes` changes of the server at arbitrary times of up to 4 s",
)
async def faults(sx, faults, changes, resync, kinds):
    w = World(sx, faults, kinds)
    w.change("ADDED", "a")
    store = Store(w)
    r = Reflector(w, Thing, store, resync)
    task = sx.spawn(r.run())
    t = 0
    for i in range(changes):
        d = sx.real(f"gap{i}", 0, 4)
        await asyncio.sleep(d)
        kind = sx.choose(f"change{i}", ("ADDED", "DELETED"))
        w.change(kind, "b" if kind == "ADDED" else "a")
        if w.streams and w.streams[-1].fate:
            sx.cover("change before the end")
    await asyncio.sleep(10 + 5 * faults)
    sx.check(not task.done(), "the reflector ended by itself")
    if w.left == 0 or resync == 0:
        sx.check(same(store.objs, w.objs), "the store does not equal the server's state")
    ended = [s for s in w.streams[:-1] if s.entered]
    for s in ended:
        sx.check(s.exited == 1, "a stream that was given up was not ended")
    sx.check(len(w.lists) <= faults + 1, "more lists than failures explain")
    sx.check(len(w.watches) <= faults + 1, "more watches than failures explain")
    if resync:
        n = store.resyncs
        await asyncio.sleep(3 * resync)
        sx.check(store.resyncs > n or not w.left == 0, "no resyncs any more")
    sx.obs("calls", len(w.lists), len(w.watches), sorted(store.objs))
    await sx.finish(task)
    for s in w.streams:
        sx.check(s.exited == s.entered, "a stream was not ended on cancellation")


@harness(
    quick=dict(faults=1, late=6),
    thorough=dict(faults=2, late=8),
    covers=("cancelled while listing", "cancelled while watching", "cancelled while pausing", "cancelled while storing"),
    bounds="up to `faults` faults as above and calls that each take an arbitrary time of up to 2 s, or a store whose operations take 0.5 s each and objects that "
    "are added, changed and deleted; cancelled at an arbitrary time of up to `late` s",
)
async def cancelled(sx, faults, late):
    w = World(sx, faults, ("list", "watch", "stream", "opening"))
    w.change("ADDED", "a")
    inside = [None]
    store = Store(w)
    slow = sx.bool("slow store")
    if slow:
        w.left = 0
        store = SlowStore(w, inside)

    class Slow:
        async def list(self, options):
            w.called()
            inside[0] = "listing"
            if len(w.lists) < 2 and not slow:
                await asyncio.sleep(sx.real(f"list_time{len(w.lists)}", 0, 2))
            inside[0] = "pausing"
            return await w.list(options)

        async def watch(self, options):
            inside[0] = "watching"
            s = await w.watch(options)
            return s

    async def changes():
        for kind, name in (("ADDED", "b"), ("MODIFIED", "a"), ("DELETED", "a")) * 2:
            await asyncio.sleep(sx.exact("0.7"))
            w.change(kind, name)

    r = Reflector(Slow(), Thing, store, 1)
    task = sx.spawn(r.run())
    more = [sx.spawn(changes())] if slow else []
    d = sx.real("cancel", 0, late)
    await asyncio.sleep(d)
    sx.check(not task.done(), "the reflector ended by itself")
    if inside[0]:
        sx.cover(f"cancelled while {inside[0]}")
    calls = len(w.lists) + len(w.watches)
    task.cancel()
    await asyncio.sleep(0.1)
    sx.check(task.done() and task.cancelled(), "did not stop promptly when cancelled")
    ops = store.ops if slow else 0
    for s in w.streams:
        sx.check(s.exited == s.entered, "a stream was not ended on cancellation")
    await asyncio.sleep(5)
    sx.check(len(w.lists) + len(w.watches) == calls, "called the server after cancellation")
    sx.check(not slow or store.ops == ops, "called the store after cancellation")
    await sx.finish(*more)


@harness(
    quick=[dict(least=0, most=6), dict(least=70, most=1)],
    thorough=[dict(least=0, most=12), dict(least=300, most=4)],
    covers=("list", "watch", "opening", "stream raises", "stream reports an error", "stream ends", "replace"),
    bounds="one kind of call or stream fails every time, from an arbitrary number of successes (at most 1) on, and "
    "for an arbitrary time of `least` to `least` + `most` s; the failures are of either class by turns, or all of the one",
)
async def failing_for_long(sx, least, most):
    kind = sx.choose("kind", ("list", "watch", "opening", "stream raises", "stream reports an error", "stream ends",
                              "replace"))
    good = sx.choose("good", (0, 1))
    until = sx.real("until", least, least + most)
    failures = []

    class Failing(World):
        def fault(self, where, kinds):
            nonlocal good
            if where not in kind:
                return None
            if good:
                good -= 1
                return None
            if self.sx.now() >= until:
                return None
            failures.append(self.sx.now())
            sx.cover(kind)
            sx.check(len(failures) <= 2 * (least + most + 2), "spins on failures without pausing")
            self.failed_at = self.sx.now()
            return kind.removeprefix("stream ") if where == "stream" else "raises"

    w = Failing(sx, 0)
    w.late = False
    how = sx.choose("class", ("turns", "everything")) if "raises" in kind or "stream" not in kind else "turns"
    w.problem = lambda what: failure(len(failures) if how == "turns" else 0, what)
    w.change("ADDED", "a")
    store = Store(w)
    r = Reflector(w, Thing, store, 0)
    task = sx.spawn(r.run())
    await asyncio.sleep(1)
    w.change("ADDED", "b")
    await asyncio.sleep(least + most + 4)
    sx.check(not task.done(), "the reflector ended by itself")
    sx.check(same(store.objs, w.objs), "the store does not equal the server's state")
    sx.check(all(b - a >= 0.5 for a, b in zip(failures, failures[2:])), "failures follow each other without a pause")
    sx.obs("calls", len(w.lists), len(w.watches), len(failures))
    await sx.finish(task)
    for s in w.streams:
        sx.check(s.exited == s.entered, "a stream was not ended")
