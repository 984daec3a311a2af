"""The fake source's list plus watch gives every change exactly once."""

import asyncio

from aiok8s.cache.testing import fake_controller_source as fake
from aiok8s.watch import watch as watches
from props.c16 import Thing
from symx.harness import harness

TYPES = {"add": watches.EventType.ADDED, "modify": watches.EventType.MODIFIED, "delete": watches.EventType.DELETED}


class Changes:
    """Makes changes to a source, and keeps what they were."""

    def __init__(self, sx, source):
        self.sx, self.source = sx, source
        self.done = []  # (type, name, payload, dropped)
        self.objs = {}
        self.version = 0

    async def make(self, what, name, drop=False, reuse=False):
        if not reuse:
            self.objs[name] = Thing(name, "", "ns")
        obj = self.objs[name]
        obj.payload = len(self.done) + 1
        change = (TYPES[what], name, obj.payload, drop)
        self.done.append(change)
        f = getattr(self.source, what + ("_drop_watch" if drop else ""))
        await f(obj)
        self.sx.check(obj.metadata.resource_version == str(len(self.done)), "a change gets another version than its number")

    def state(self, version):
        """The objects and payloads after so many changes."""
        held = {}
        for type_, name, payload, drop in self.done[:version]:
            if type_ is watches.EventType.DELETED:
                held.pop(name, None)
            else:
                held[name] = (payload, str(payload))
        return held


class Client:
    """Lists, watches from there after some turns, and reads."""

    def __init__(self, sx, name, changes, turns, pause=0):
        self.sx, self.name, self.changes, self.turns, self.pause = sx, name, changes, turns, pause
        self.got, self.ended, self.at = [], False, None
        self.task = sx.spawn(self.run())

    async def run(self):
        sx, c = self.sx, self.changes
        await sx.ticks(f"{self.name}.begin", self.turns)
        before = len(c.done)
        listed = await c.source.list({})
        self.at = int(listed.metadata.resource_version)
        sx.check(before - 1 <= self.at <= len(c.done), "a list has another version than the changes made")
        have = {o.metadata.name: (o.payload, o.metadata.resource_version) for o in listed.items}
        sx.check(len(have) == len(listed.items) and have == c.state(self.at), "a list does not give the state of its version")
        self.at_watch_begin = len(c.done)
        await sx.ticks(f"{self.name}.watch", self.turns)
        if len(c.done) > self.at:
            sx.cover("changed between list and watch")
        self.live_from = None
        w = await c.source.watch({"resource_version": listed.metadata.resource_version})
        self.live_from = len(c.done)
        async for event in w:
            self.got.append((event["type"], event["object"].metadata.name, event["object"].payload, event["object"].metadata.resource_version))
            if self.pause:
                await sx.ticks(f"{self.name}.pause", self.pause)
        self.ended = True

    def judge(self):
        sx, c = self.sx, self.changes
        want = [(t, n, p, str(i + 1)) for i, (t, n, p, drop) in enumerate(c.done) if i >= self.at]
        dropped = {i + 1 for i, d in enumerate(c.done) if d[3]}
        got = list(self.got)
        versions = [int(g[3]) for g in got]
        sx.check(versions == sorted(set(versions)), "a watch gives changes twice or out of order")
        must = [w for w in want if int(w[3]) not in dropped]
        sx.check(all(w in got for w in must), "a change is missing from a watch, or given otherwise than it was made")
        sx.check(all(g in want for g in got), "a watch gives something that is no later change")
        if dropped:
            sx.cover("dropped")
            for v in dropped:
                if v > self.live_from:
                    sx.check(v not in versions, "a change that was to be dropped is given to a live watch")


@harness(
    quick=[dict(changes=3, turns=3, pause=0), dict(changes=2, turns=2, pause=2)],
    thorough=[dict(changes=4, turns=4, pause=0), dict(changes=3, turns=4, pause=2)],
    covers=("changed between list and watch", "deleted"),
    bounds="`changes` creations, changes and deletions of one of two objects, one of them up to 3 turns after the one before; a client that lists "
    "and watches, each after up to `turns` turns, and pauses up to `pause` turns after each event; the caller passes a new object each time",
)
async def list_and_watch(sx, changes, turns, pause):
    source = fake.FakeControllerSource()
    c = Changes(sx, source)
    client = Client(sx, "client", c, turns, pause)
    slow = sx.choose("slow", range(1, changes))
    for i in range(changes):
        if i == slow:
            await sx.ticks("gap", 3)
        what, name = sx.choose(f"change{i}", ("add", "delete")), "ab"[sx.choose(f"name{i}", (0, 1))]
        there = name in c.state(len(c.done))
        if what == "delete":
            if not there:
                what = "add"
            else:
                sx.cover("deleted")
        elif there:
            what = "modify"
        await c.make(what, name)
    await asyncio.sleep(1)
    sx.check(not client.task.done(), "a watch ends by itself")
    client.judge()
    sx.obs("got", [list(g[1:]) for g in client.got])
    await source.shutdown()
    await sx.settle()
    sx.check(client.ended, "a watch does not end when the source is shut down")


@harness(
    quick=dict(before=2),
    thorough=dict(before=4),
    covers=("deleted the absent",),
    bounds="up to `before` creations and deletions of an object, then the deletion of one that is not there",
)
async def absent(sx, before):
    source = fake.FakeControllerSource()
    c = Changes(sx, source)
    for i in range(before):
        if sx.bool(f"change{i}"):
            await c.make("delete" if "a" in c.state(len(c.done)) else "add", "a")
    client = Client(sx, "client", c, 0)
    await sx.settle()
    sx.cover("deleted the absent")
    try:
        await c.make("delete", "b")
    except KeyError:
        sx.fail("deleting an object that is not there raises KeyError, but is logged as a change")
    await sx.settle()
    client.judge()
    await sx.finish(client.task)


@harness(
    quick=dict(changes=3),
    thorough=dict(changes=5),
    covers=("object used again", "changed between list and watch"),
    bounds="`changes` changes of one object, made with the same object or a new one each time, before or after a list; then a watch from there",
)
async def used_again(sx, changes):
    source = fake.FakeControllerSource()
    c = Changes(sx, source)
    listed = None
    at = sx.choose("list", range(changes))
    ids = []
    for i in range(changes):
        if i == at:
            listed = await source.list({})
        reuse = i > 0 and sx.bool(f"reuse{i}")
        if reuse:
            sx.cover("object used again")
        await c.make("modify" if i else "add", "a", reuse=reuse)
        ids.append(c.objs["a"])
    have = [(o.payload, o.metadata.resource_version) for o in listed.items]
    sx.check(listed.metadata.resource_version == str(at) and have == ([(at, str(at))] if at else []), "a list does not give the state of its version")
    sx.cover("changed between list and watch")
    w = await source.watch({"resource_version": listed.metadata.resource_version})
    got = []

    async def read():
        async for e in w:
            got.append((e["object"].payload, e["object"].metadata.resource_version))

    t = sx.spawn(read())
    await sx.settle()
    want = [(i + 1, str(i + 1)) for i in range(at, changes)]
    # What a source gives that keeps the caller's objects themselves
    shared = [(o.payload, o.metadata.resource_version) for o in ids[at:]]
    sx.check(got == want or got != shared, "a change made with an object that is used again is given as the object's last change")
    sx.check(got == want, "a change is missing from a watch, or given otherwise than it was made")
    await sx.finish(t)


@harness(
    quick=dict(changes=4),
    thorough=dict(changes=6),
    covers=("dropped", "refused", "resumed", "two watches", "unchanged"),
    bounds="every history of `changes` creations, changes and deletions of an object, dropped or not, then watches from every version up to one in the future, then one more change",
)
async def versions(sx, changes):
    source = fake.FakeControllerSource()
    c = Changes(sx, source)
    clients = []
    early = Client(sx, "early", c, 0)
    await sx.settle()
    for i in range(changes):
        what = sx.choose(f"change{i}", ("add", "delete"))
        if "a" not in c.state(len(c.done)):
            what = "add"
        await c.make(what, "a", sx.bool(f"drop{i}"))
    at = sx.int("version", 0, changes + 1)
    for v in range(changes + 2):
        if at == v:
            at = v
            break
    w = sx.spawn(source.watch({"resource_version": str(at)}))
    await sx.settle()
    if at > changes:
        sx.cover("refused")
        sx.check(w.done() and w.exception() is not None, "a watch from a version in the future is not refused")
    else:
        sx.cover("unchanged" if at == changes else "resumed")
        w = sx.done_result(w, "watching")
        got = []

        async def read():
            async for e in w:
                got.append((e["type"], e["object"].metadata.name, e["object"].payload, e["object"].metadata.resource_version))

        t = sx.spawn(read())
        await sx.settle()
        await c.make("add", "b")
        await sx.settle()
        want = [(t, n, p, str(i + 1)) for i, (t, n, p, drop) in enumerate(c.done) if i >= at]
        sx.check(got == want, "a watch does not give every change after its version")
        await sx.finish(t)
    sx.cover("two watches")
    early.judge()
    await sx.finish(early.task)
