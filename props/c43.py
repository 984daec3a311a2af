"""The last reconcile of each object sees its latest state, whatever failed before."""

import asyncio
import logging

from props import kube
from aiok8s.controller import builder, controller, handler, manager, reconcile, source
from props.c16 import Server
from props.c36 import POD, SERVICE, ServiceClient  # noqa: F401
from props.faults import failure
from symx.harness import harness

logging.getLogger("aiok8s").setLevel(logging.CRITICAL + 1)


def key(name):
    return reconcile.NamespacedName(namespace="ns", name=name)


def version(obj):
    return None if obj is None else obj.metadata.resource_version


class Reconciler:
    """Reads its object; its first runs may end in any way and take their time."""

    def __init__(self, sx, name, kinds, trouble, outcomes, time=0):
        self.sx, self.name, self.kinds, self.trouble, self.outcomes, self.time = sx, name, kinds, trouble, outcomes, time
        self.busy, self.last, self.runs = set(), {}, 0
        self.turns, self.how = 0, {}

    def inject_cache(self, cache):
        self.cache = cache

    async def reconcile(self, request):
        sx, n = self.sx, self.runs
        self.runs += 1
        k = request.namespaced_name
        sx.check(k.name not in self.busy, "an object is reconciled twice at once")
        self.busy.add(k.name)
        try:
            seen = {}
            for kind in self.kinds:
                try:
                    seen[kind] = await self.cache.get(k, kind)
                except KeyError:
                    seen[kind] = None
            for _ in range(self.turns):
                await asyncio.sleep(0)
            if self.time:
                await asyncio.sleep(self.time)
            how = sx.choose(f"{self.name}{n}", self.outcomes) if n < self.trouble else "done"
            sx.cover(how)
            self.how[k.name] = how
            if how == "error":
                raise failure(n)
            if how == "requeue":
                return reconcile.Result(requeue=True)
            if how == "later":
                return reconcile.Result(requeue_after=2)
            return reconcile.Result()
        finally:
            self.busy.discard(k.name)
            self.last[k.name] = {kind: version(o) for kind, o in seen.items()}


def serve(sx, which=None, names=()):
    server = kube.serve(Server("ns"), which)
    server.known = set()
    for name in names:
        server.change(name)
        server.known.add(name)
    return server


async def some_change(sx, i, server, names):
    name = sx.choose(f"name{i}", names)
    if server.held.get(name) is not None and sx.bool(f"delete{i}"):
        server.delete(name)
        sx.cover("deleted")
    else:
        sx.cover("created" if server.held.get(name) is None else "changed")
        server.change(name)
        server.known.add(name)


def converged(sx, r, servers):
    """Every object that is there was reconciled, and each object's last reconcile saw what is there."""
    for kind in r.kinds:
        server = servers[kind]
        for name in sorted(server.known):
            there = server.held.get(name)
            if there is not None:
                sx.check(name in r.last, "an object that is there is never reconciled")
            if name in r.last:
                sx.check(r.how[name] == "done", "a reconcile that failed or asked for another is the last one")
                sx.check(r.last[name][kind] == version(there), "the last reconcile of an object does not see its latest state")
    sx.check(not r.busy, "a reconcile does not end")


OUTCOMES = ("done", "error", "requeue", "later")


@harness(
    quick=[dict(changes=2, trouble=2, objs=1, faults=False), dict(changes=2, trouble=1, objs=1, faults=True)],
    thorough=[dict(changes=3, trouble=2, objs=1, faults=False), dict(changes=2, trouble=2, objs=2, faults=True)],
    covers=("created", "changed", "deleted", "done", "error", "requeue", "later", "changed while reconciled"),
    bounds="a manager with one controller, one or two workers, up to two objects, reconciles of no time or 3 s of which the first `trouble` end in any way, "
    "`changes` creations, changes and deletions, each at once or 1 s after the one before; with `faults` watches break or the server is cut off for 2 s or 7 s at any of them",
)
async def one_controller(sx, changes, trouble, objs, faults):
    kube.reset()
    pods = serve(sx, None, [f"o{i}" for i in range(objs)])
    m = manager.new()
    r = Reconciler(sx, "outcome", [POD], trouble, OUTCOMES, sx.choose("time", (0, 3)))
    c = controller.new(m, reconciler=r)
    c.max_concurrent_reconciles = 2 if sx.bool("two workers") else 1
    await c.watch(source.Kind(POD), handler.EnqueueRequestForObject())
    task = sx.spawn(m.start())
    await asyncio.sleep(1)
    for i in range(changes):
        if i:
            await asyncio.sleep(sx.choose(f"pause{i}", (0, 1)))
        what = sx.choose(f"fault{i}", ("none", "break", "cut")) if faults else "none"
        if what == "cut":
            pods.cut = True
            pods.break_watches()
        if r.busy:
            sx.cover("changed while reconciled")
        await some_change(sx, i, pods, ("o0", "o1"))
        if what == "break":
            pods.break_watches()
        elif what == "cut":
            await asyncio.sleep(sx.choose(f"cut{i}", (2, 7)))
            pods.cut = False
    await asyncio.sleep(40)
    sx.check(not task.done(), "a manager ends by itself")
    converged(sx, r, {POD: pods})
    sx.obs("reconciles", r.runs)
    runs = r.runs
    await asyncio.sleep(100)
    sx.check(r.runs == runs, "an object is reconciled over and over")
    await sx.finish(task)


@harness(
    quick=dict(changes=2, trouble=1),
    thorough=dict(changes=3, trouble=1),
    covers=("done", "error", "later", "of the pods", "of the services", "one waits for the other"),
    bounds="a manager with a controller of pods and one of pods and services, that start with an object each or with none; "
    "the first `trouble` reconciles of each fail, are done or come back later, and take no time or 10 s; `changes` creations, changes and deletions of either kind, at once or 1 s apart",
)
async def two_controllers(sx, changes, trouble):
    kube.reset()
    names = ["o0"] if sx.bool("objects first") else []
    servers = {POD: serve(sx, None, names), SERVICE: serve(sx, "services", names)}
    m = manager.new()
    how = ("done", "error", "later")
    one = Reconciler(sx, "one", [POD], trouble, how, sx.choose("time", (0, 10)))
    two = Reconciler(sx, "two", [POD, SERVICE], trouble, how)
    await builder.build_controller(m, one, api_type=POD)
    c = controller.new(m, reconciler=two)
    for kind in (POD, SERVICE):
        await c.watch(source.Kind(kind), handler.EnqueueRequestForObject())
    task = sx.spawn(m.start())
    await asyncio.sleep(1)
    for i in range(changes):
        await asyncio.sleep(sx.choose(f"pause{i}", (0, 1)))
        pods = sx.bool(f"pods{i}")
        sx.cover("of the pods" if pods else "of the services")
        await some_change(sx, i, servers[POD if pods else SERVICE], ("o0", "o1"))
    await asyncio.sleep(5)
    if one.busy:
        # The other controller has nothing to wait for.
        sx.cover("one waits for the other")
        converged(sx, two, servers)
    await asyncio.sleep(60)
    for r in (one, two):
        converged(sx, r, servers)
    await sx.finish(task)


@harness(
    quick=dict(turns=36, changes=2),
    thorough=dict(turns=36, changes=3),
    covers=("created", "changed", "deleted", "while reconciled", "idle"),
    bounds="a manager with one controller and one object, reconciles that read, go on for 8 turns and fail the first time or not; `changes` changes each an arbitrary number of turns up to `turns` after the one before",
)
async def at_any_turn(sx, turns, changes):
    kube.reset()
    pods = serve(sx, None, ["o0"])
    m = manager.new()

    class R(Reconciler):
        async def reconcile(self, request):
            sx.check(not self.busy, "two reconciles run at once")
            return await super().reconcile(request)

    r = R(sx, "outcome", [POD], 1, ("done", "error"))
    await builder.build_controller(m, r, api_type=POD)
    task = sx.spawn(m.start())
    await asyncio.sleep(2)
    r.trouble, r.turns = r.runs + 1, 8
    for i in range(changes):
        await some_change(sx, i, pods, ("o0",))
        if i < changes - 1:
            await sx.ticks(f"turn{i}", turns)
            sx.cover("while reconciled" if r.busy else "idle")
    await asyncio.sleep(10)
    sx.check(not task.done(), "a manager ends by itself")
    converged(sx, r, {POD: pods})
    await sx.finish(task)
