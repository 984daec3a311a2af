"""Every handler of a shared informer gets the full ordered stream by itself."""

import asyncio

from aiok8s.cache import shared_informer
from aiok8s.cache.delta_fifo import DeletedFinalStateUnknown
from props.c16 import Server, Thing, name_in, server_of
from props.faults import failure
from props.versions import version
from symx.harness import harness


class Handler:
    """Records its notifications, and may be slow, stuck or failing."""

    def __init__(self, sx, name, kind="good"):
        self.sx, self.name, self.kind = sx, name, kind
        self.log, self.inside, self.pause = [], 0, 0
        self.released = asyncio.Event()
        if kind == "slow":
            self.time = sx.real(f"time_{name}", 0, 4)
        if kind == "raises":
            self.bad = sx.int(f"bad_{name}", 0, 2)

    async def on_add(self, obj):
        await self._do(("add", None, obj))

    async def on_update(self, old, new):
        await self._do(("update", old, new))

    async def on_delete(self, obj):
        await self._do(("delete", obj.obj if isinstance(obj, DeletedFinalStateUnknown) else obj, None))

    async def _do(self, n):
        self.sx.check(self.inside == 0, "two notifications of one handler at once")
        self.inside += 1
        self.log.append((*n, self.sx.now()))
        try:
            if self.kind == "slow":
                await asyncio.sleep(self.time)
            elif self.kind == "stuck":
                await self.released.wait()
                if self.pause:
                    await asyncio.sleep(self.pause)
            elif self.kind == "raises" and len(self.log) - 1 == self.bad:
                self.sx.cover("a handler raised")
                raise failure(len(self.log), "handler")
        finally:
            self.inside -= 1


def same(a, b):
    return a[0] == b[0] and a[1] is b[1] and a[2] is b[2]


def name_of(n):
    return name_in(n[2] if n[2] is not None else n[1])


def follows(log, ref):
    """Whether a log is adds for what was held at some moment of `ref`, and then the rest of `ref`."""
    for p in range(len(ref) + 1):
        held = {}
        for n in ref[:p]:
            if n[2] is None:
                held.pop(name_of(n), None)
            else:
                held[name_of(n)] = n[2]
        k = len(held)
        if len(log) != k + len(ref) - p:
            continue
        if not all(n[0] == "add" and held.get(name_of(n)) is n[2] for n in log[:k]):
            continue
        if len({name_of(n) for n in log[:k]}) != k:
            continue
        if all(same(a, b) for a, b in zip(log[k:], ref[p:])):
            return p
    return None


@harness(
    quick=[dict(ops=3, kinds=("slow",), late="good"), dict(ops=3, kinds=("stuck",), late="good"),
           dict(ops=3, kinds=("raises",), late="slow"), dict(ops=2, kinds=("slow", "raises"), late="stuck")],
    thorough=[dict(ops=4, kinds=("slow",), late="slow"), dict(ops=4, kinds=("stuck",), late="raises"),
              dict(ops=4, kinds=("raises",), late="slow"), dict(ops=3, kinds=("slow", "raises", "stuck"), late="good")],
    covers=("late handler missed something", "late handler before the start", "deleted", "updated"),
    bounds="every sequence of up to `ops` of: create or modify or delete one of two objects, add one more handler, "
    "let an arbitrary time of up to 3 s pass; besides a handler that does nothing special, handlers that take an "
    "arbitrary time per notification, hang forever, or raise at one of their first three notifications",
)
async def streams(sx, ops, kinds, late):
    server = Server()
    informer = shared_informer.new_shared_informer(server, Thing, 0)
    ref = Handler(sx, "ref")
    handlers = [Handler(sx, k, k) for k in kinds]
    await informer.add_event_handler(ref)
    for h in handlers:
        await informer.add_event_handler(h)
    extra = None
    if sx.bool("before_start"):
        server.change("a")
    task = sx.spawn(informer.run())
    if sx.bool("settled"):
        await sx.settle()
    for i in range(ops):
        op = sx.choose(f"op{i}", ("a", "b", "delete", "handler", "wait"))
        if op in ("a", "b"):
            server.change(op)
        elif op == "delete":
            if not server.held.objs:
                return await end(sx, task, handlers + [extra])
            server.delete(name_in(server.held.objs[0]))
        elif op == "handler":
            if extra is not None:
                return await end(sx, task, handlers + [extra])
            extra = Handler(sx, "late", late)
            if ref.log:
                sx.cover("late handler missed something")
            else:
                sx.cover("late handler before the start")
            adding = sx.spawn(informer.add_event_handler(extra))
            if sx.bool("wait_for_add"):
                await sx.settle()
                sx.done_result(adding, "adding a handler")
        else:
            await asyncio.sleep(sx.real(f"wait{i}", 0, 3))
            await sx.settle()
            sx.check(server.held.same(informer.get_indexer().list()), "the store does not keep up with the server")
            sx.check(extra is None or adding.done(), "adding a handler is held up")
    await sx.settle()
    sx.check(server.held.same(informer.get_indexer().list()), "the store does not keep up with the server")
    now = sx.now()
    await asyncio.sleep(75 + 4 * (ops + 3))
    seen = [(n[0], name_of(n)) for n in ref.log]
    for kind in ("update", "delete"):
        if any(k == kind for k, _ in seen):
            sx.cover(kind + "d")
    sx.check(sx.And(*[n[3] <= now for n in ref.log]), "a handler was held up by another one")
    sx.check(follows(ref.log, ref.log) == 0 and consistent(ref.log, server), "the notifications do not follow the server")
    for h in handlers:
        if h.kind == "stuck":
            sx.check(len(h.log) == min(1, len(ref.log)), "a stuck handler is called again")
            h.released.set()
            h.kind = "good"
    await sx.settle()
    for h in handlers:
        sx.check(len(h.log) == len(ref.log) and all(map(same, h.log, ref.log)), f"a {h.name} handler misses something")
    if extra is not None:
        extra.released.set()
        extra.kind = "good"
        await asyncio.sleep(1)
        sx.check(follows(extra.log, ref.log) is not None, "a handler added later misses something or hears it twice")
        sx.obs("late", len(extra.log))
    sx.obs("ref", seen)
    await end(sx, task, handlers + [extra])


@harness(
    quick=[dict(turns=24, changes=1, kind="slow"), dict(turns=16, changes=2, kind="good")],
    thorough=[dict(turns=40, changes=2, kind="slow"), dict(turns=30, changes=3, kind="good")],
    covers=("during a change", "told of the change", "given the result of the change"),
    bounds="a running informer with two objects, `changes` changes (a new object, a modification or a deletion) at one "
    "moment, and a handler added after an arbitrary number of loop turns, at most `turns`",
)
async def added_meanwhile(sx, turns, changes, kind):
    server = Server()
    informer = shared_informer.new_shared_informer(server, Thing, 0)
    ref, other, late = Handler(sx, "ref"), Handler(sx, "other", kind), Handler(sx, "late")
    await informer.add_event_handler(other)
    await informer.add_event_handler(ref)
    for name in "ab":
        server.change(name)
    task = sx.spawn(informer.run())
    await asyncio.sleep(10)
    sx.check(len(ref.log) == 2, "the first objects are not given")
    for i in range(changes):
        op = sx.choose(f"op{i}", ("a", "c", "delete"))
        if op != "delete":
            server.change(op)
        elif server.held.objs:
            server.delete(name_in(server.held.objs[-1]))
    n = sx.choose("turns", range(turns + 1))
    for _ in range(n):
        await asyncio.sleep(0)
    if len(ref.log) > 2:
        sx.cover("during a change")
    await informer.add_event_handler(late)
    await asyncio.sleep(5 * (changes + 1))
    sx.check(len(ref.log) >= 3 and consistent(ref.log, server), "the notifications do not follow the server")
    at = follows(late.log, ref.log)
    sx.check(at is not None, "a handler added later misses something or hears it twice")
    sx.cover("told of the change" if at < len(ref.log) else "given the result of the change")
    sx.check(len(other.log) == len(ref.log) and all(map(same, other.log, ref.log)), "another handler misses something")
    sx.obs("late", len(late.log), at)
    await end(sx, task, [])


@harness(
    quick=dict(changes=7),
    thorough=dict(changes=12),
    covers=("far behind", "slow", "stuck", "raises"),
    bounds="`changes` changes of one object, one arbitrary time of up to 2 s apart, for a handler that takes another "
    "arbitrary time of up to 4 s for each notification, or hangs until all changes were made, or raises once",
)
async def behind(sx, changes):
    server = Server()
    informer = shared_informer.new_shared_informer(server, Thing, 0)
    kind = sx.choose("kind", ("slow", "stuck", "raises"))
    ref, h = Handler(sx, "ref"), Handler(sx, kind, kind)
    await informer.add_event_handler(h)
    await informer.add_event_handler(ref)
    task = sx.spawn(informer.run())
    await sx.settle()
    gap = sx.real("gap", 0, 2) if kind == "slow" else 1
    for _ in range(changes):
        server.change("a")
        await asyncio.sleep(gap)
        await sx.settle()
    sx.check(len(ref.log) == changes, "a handler is held up by another one")
    if len(h.log) < changes - 4:
        sx.cover("far behind")
    sx.cover(kind)
    h.released.set()
    await asyncio.sleep(75 + 4 * changes)
    sx.check(len(h.log) == changes and all(map(same, h.log, ref.log)), f"a {kind} handler misses something")
    sx.check(consistent(ref.log, server), "the notifications do not follow the server")
    sx.obs("log", len(h.log))
    await end(sx, task, [h])


@harness(
    quick=dict(changes=1100),
    thorough=dict(changes=5000),
    covers=("many at once", "one by one"),
    bounds="`changes` changes of an object, a hundred at once or each noticed before the next, for a handler that hangs until then and a real time up to 30 s longer",
)
async def far_behind(sx, changes):
    server = Server()
    informer = shared_informer.new_shared_informer(server, Thing, 0)
    ref, h = Handler(sx, "ref"), Handler(sx, "stuck", "stuck")
    await informer.add_event_handler(h)
    await informer.add_event_handler(ref)
    task = sx.spawn(informer.run())
    await sx.settle()
    at_once = sx.bool("at once")
    sx.cover("many at once" if at_once else "one by one")
    for n in range(changes):
        server.change("a")
        if not at_once or n % 100 == 99:
            await asyncio.sleep(1)
    await asyncio.sleep(sx.real("longer", 0, 30))
    h.released.set()
    h.pause = 0.5
    await asyncio.sleep(changes)
    sx.check(len(ref.log) == changes and all(d[2].metadata.resource_version == version(n + 1) for n, d in enumerate(ref.log)), "a handler misses something")
    sx.check(len(h.log) == changes and all(map(same, h.log, ref.log)), "a handler that was far behind misses something")
    await end(sx, task, [h])


@harness(
    quick=dict(failures=120),
    thorough=dict(failures=600),
    covers=("every one", "every other", "in a row at first"),
    bounds="`failures` changes of an object at once, one every second or one every minute; a handler raises for every one of them, for every other, or for the first 40, "
    "an error of either class, by turns: it is told about every one, as is another handler",
)
async def raises_for_long(sx, failures):
    server = Server()
    informer = shared_informer.new_shared_informer(server, Thing, 0)
    kind = sx.choose("kind", ("every one", "every other", "in a row at first"))
    sx.cover(kind)
    gap = sx.choose("gap", (0, 1, 60))
    told = []

    class Raising:
        async def on_add(self, obj):
            n = len(told)
            told.append(obj)
            if kind == "every one" or (n % 2 == 0 if kind == "every other" else n < 40):
                raise failure(n // 2)

        async def on_update(self, old, new):
            await self.on_add(new)

    ref = Handler(sx, "ref")
    await informer.add_event_handler(Raising())
    await informer.add_event_handler(ref)
    task = sx.spawn(informer.run())
    await sx.settle()
    for n in range(failures):
        server.change("a")
        if gap:
            await asyncio.sleep(gap)
    # A pause after every fifth failure, at the most
    await asyncio.sleep(65 * failures)
    sx.check(len(ref.log) == failures, "a handler is held up by another one")
    sx.check(len(told) == failures and all(t is d[2] for t, d in zip(told, ref.log)), "a handler that raises misses something")
    server.change("a")
    await asyncio.sleep(65)
    sx.check(len(told) == failures + 1, "a handler that raised misses something later")
    await end(sx, task, [])


def consistent(log, server):
    """Whether notifications are properly typed and yield the server's content."""
    held = {}
    for kind, old, new, _ in log:
        name = name_of((kind, old, new))
        if kind == "add" and name in held or kind != "add" and name not in held:
            return False
        if kind == "update" and held[name] is not old:
            return False
        if new is None:
            del held[name]
        else:
            held[name] = new
    return server.held.same(list(held.values()))


@harness(
    quick=dict(ops=2),
    thorough=dict(ops=3),
    covers=("typed", "raw", "none of them", "all of them", "some of them"),
    bounds="a handler made of any subset of the three functions, on a shared and on a plain informer of typed or raw objects, and `ops` changes (create or modify "
    "one of two objects, or delete one); each function gets exactly the notifications of its kind, in order",
)
async def partial(sx, ops):
    from aiok8s.cache import controller

    make, expected = server_of(sx, ("typed", "raw"))
    server = make()
    server.change("a")
    ref, h = Handler(sx, "ref"), Handler(sx, "h")
    funcs = {"add_func": h.on_add, "update_func": h.on_update, "delete_func": h.on_delete}
    have = {n: f for n, f in funcs.items() if sx.bool(n)}
    sx.cover("none of them" if not have else "all of them" if len(have) == 3 else "some of them")
    mine = controller.ResourceEventHandlerFuncs(**have)
    if sx.bool("shared"):
        informer = shared_informer.new_shared_informer(server, expected, 0)
        await informer.add_event_handler(mine)
        await informer.add_event_handler(ref)
        tasks = [sx.spawn(informer.run())]
    else:
        tasks = [sx.spawn(controller.new_informer(server, expected, 0, x)[1].run()) for x in (mine, ref)]
    await sx.settle()
    for i in range(ops):
        op = sx.choose(f"op{i}", ("a", "b", "delete"))
        if op == "delete":
            if not server.held.objs:
                break
            server.delete(name_in(server.held.objs[0]))
        else:
            server.change(op)
        if sx.bool(f"settled{i}"):
            await sx.settle()
    await asyncio.sleep(3)
    want = [n for n in ref.log if n[0] + "_func" in have]
    sx.check(len(h.log) == len(want), "a function of a handler is called too often or not at all")
    for a, b in zip(h.log, want):
        sx.check(a[0] == b[0] and a[1:3] == b[1:3], "a function of a handler gets another notification")
    await sx.finish(*tasks)


async def end(sx, task, handlers):
    for h in handlers:
        if h is not None:
            h.released.set()
            h.kind = "good"
    await sx.finish(task)


class Equal(Handler):
    """A handler that equals any other of its kind."""

    def __eq__(self, other):
        return isinstance(other, Equal)

    def __hash__(self):
        return 1


@harness(
    quick=dict(handlers=3),
    thorough=dict(handlers=6),
    covers=("before the start", "after the start"),
    bounds="`handlers` handlers that equal each other, each added before the start or after; changes of two objects",
)
async def equal_handlers(sx, handlers):
    server = Server()
    server.change("a")
    informer = shared_informer.new_shared_informer(server, Thing, 0)
    n = sx.choose("before", range(handlers + 1))
    hs, task = [], None
    for i in range(handlers):
        if i == n:
            task = sx.spawn(informer.run())
            await asyncio.sleep(1)
        sx.cover("before the start" if i < n else "after the start")
        hs.append(Equal(sx, f"h{i}"))
        await informer.add_event_handler(hs[-1])
    if task is None:
        task = sx.spawn(informer.run())
    await asyncio.sleep(1)
    server.change("b")
    server.change("a")
    server.delete("b")
    await asyncio.sleep(1)
    for h in hs:
        sx.check([(e[0], name_of(e)) for e in h.log] == [("add", "a"), ("add", "b"), ("update", "a"), ("delete", "b")], "a handler that equals another misses something")
    await end(sx, task, hs)
