"""Reconciling starts only after the caches are synced; stopping stops everything."""

import asyncio

from props import kube
from aiok8s.controller import builder, client, controller, handler, manager, reconcile, source
from aiok8s.runtime import schema
from kubernetes_asyncio.client import api, models
from props.c16 import Server
from props.faults import failure
from symx.harness import harness

POD, SERVICE = models.V1Pod, models.V1Service


class ServiceClient(client._Client):
    gvk = schema.GroupVersionKind("", "v1", "Service")
    object_type = SERVICE
    api_cls = api.CoreV1Api

    def _get_lister(self, namespace):
        return self._api_client.list_service_for_all_namespaces


class Reconciler:
    """Notes what it is asked to reconcile, and what the cache says then."""

    def __init__(self, sx, servers, time=0, cleanup=0):
        self.sx, self.servers, self.time, self.cleanup = sx, servers, time, cleanup
        self.calls, self.ends, self.running = [], [], 0

    def inject_cache(self, cache):
        self.cache = cache

    async def reconcile(self, request):
        sx = self.sx
        self.calls.append((sx.now(), request.namespaced_name))
        sx.cover("reconciled")
        self.running += 1
        try:
            for kind, server in self.servers:
                sx.check(server.lists > 0, "reconciles before a cache is synced")
                for name in server.initial:
                    key = reconcile.NamespacedName(namespace="ns", name=name)
                    try:
                        found = await self.cache.get(key, kind)
                    except KeyError:
                        found = None
                    if found is None:
                        sx.check(name in server.gone, "reconciles before a cache is synced: an object is not there")
            if self.time:
                await asyncio.sleep(self.time)
        except asyncio.CancelledError:
            if self.cleanup:
                sx.cover("cleaning up")
                await asyncio.sleep(self.cleanup)
            raise
        finally:
            self.running -= 1
            self.ends.append(sx.now())
        return reconcile.Result()


def when_done(sx, task, running, what):
    """A manager has only ended when everything it runs has."""
    sx_checks = []
    task.add_done_callback(lambda t: sx_checks.append(any(running())))

    def verify():
        sx.check(not any(sx_checks), f"{what} ends before its reconciles and runnables have")

    return verify


def serve(sx, which, objs):
    server = kube.serve(Server("ns"), which)
    server.initial, server.gone = [], []
    for i in range(objs):
        name = f"o{i}" if which is None else f"s{i}"
        server.change(name)
        server.initial.append(name)
    return server


def latest(server):
    """By name, when each object last changed or went away; here all times are in `server.times`."""
    return {obj.metadata.name: at for (kind, obj), at in zip(server.log, server.times)}


@harness(
    quick=[dict(objs=2, changes=0, list_time="0.35"), dict(objs=1, changes=2, list_time=None)],
    thorough=[dict(objs=2, changes=0, list_time="0.65"), dict(objs=1, changes=3, list_time=None), dict(objs=1, changes=1, list_time="0.2")],
    covers=("reconciled", "nothing at first", "changed", "deleted", "changed while reconciled", "services"),
    bounds="a manager with one controller of pods (by the builder), and maybe one of pods and services: up to `objs` objects, first lists that take real times "
    "up to `list_time` (or none, or 1.2 s), reconciles that take a second, `changes` creations, changes and deletions at once, a little later or after 5 s",
)
async def start(sx, objs, changes, list_time):
    kube.reset()
    n = sx.int("objs", 0, objs)
    for i in range(objs):
        if n == i:
            sx.cover("nothing at first")
            objs = i
            break
    pods = serve(sx, None, objs)

    def list_delay(name):
        if list_time is None:
            return sx.choose(name, (0, sx.exact("1.2")))
        return sx.real(name, 0, sx.exact(list_time))

    pods.list_delay = list_delay("pod_list")
    both = sx.bool("services")
    services = serve(sx, "services", 1 if both else 0)
    services.list_delay = list_delay("service_list") if both else 0
    for s in (pods, services):
        s.times = [sx.now()] * len(s.log)
    m = manager.new()
    one = Reconciler(sx, [(POD, pods)], 1)
    two = Reconciler(sx, [(POD, pods), (SERVICE, services)])
    await builder.build_controller(m, one, api_type=POD)
    if both:
        sx.cover("services")
        c = controller.new(m, reconciler=two)
        for kind in (POD, SERVICE):
            await c.watch(source.Kind(kind), handler.EnqueueRequestForObject())
    task = sx.spawn(m.start())
    for i in range(changes):
        await asyncio.sleep(sx.choose(f"pause{i}", (0, sx.exact("0.7"), 5)))
        server = services if both and sx.bool(f"of_services{i}") else pods
        names = [o.metadata.name for o in server.held.objs]
        what = sx.choose(f"what{i}", ("new",) + tuple(names))
        if one.running:
            sx.cover("changed while reconciled")
        if what == "new":
            server.change(f"new{i}")
        elif sx.bool(f"delete{i}"):
            server.delete(what)
            server.gone.append(what)
            sx.cover("deleted")
        else:
            server.change(what)
            sx.cover("changed")
        server.times.append(sx.now())
    await asyncio.sleep(9)
    sx.check(not task.done(), "a manager ends by itself")
    for r in (one, two) if both else (one,):
        for kind, server in r.servers:
            for name, at in latest(server).items():
                if server.held.get(name) is None and at == 0:
                    continue
                last = [t for t, k in r.calls if k == reconcile.NamespacedName(namespace="ns", name=name)]
                there = server.held.get(name) is not None
                if there:
                    sx.check(bool(last), "an object is never reconciled")
                    sx.check(last[-1] >= at, "a change is not reconciled")
                elif last:
                    sx.check(last[-1] >= at, "a deletion is not reconciled")
    sx.obs("reconciled", [k.name for t, k in one.calls])
    await sx.finish(task)


@harness(
    quick=[dict(turns=14, until=0), dict(turns=0, until=6)],
    thorough=[dict(turns=60, until=0), dict(turns=0, until=12)],
    covers=("before the sync", "while reconciling", "idle", "cleaning up"),
    bounds="a manager with two controllers and two objects, first lists that take no time or 2 s, reconciles of a second that take half a second to stop or no time, cancelled after up to `turns` turns or at a real time up to `until`; "
    "objects change afterwards",
)
async def stop(sx, turns, until):
    kube.reset()
    pods = serve(sx, None, 2)
    pods.list_delay = 2 if sx.bool("slow list") else 0
    m = manager.new()
    cleanup = sx.choose("cleanup", (0, sx.exact("0.5")))
    rs = [Reconciler(sx, [(POD, pods)], 1, cleanup), Reconciler(sx, [(POD, pods)], sx.choose("other", (0, 3)), cleanup)]
    for r in rs:
        await builder.build_controller(m, r, api_type=POD)
    task = sx.spawn(m.start())
    verify = when_done(sx, task, lambda: [r.running for r in rs], "a cancelled manager")
    if until:
        await asyncio.sleep(sx.real("when", 0, until))
    else:
        await sx.ticks("turns", turns)
    if any(r.running for r in rs):
        sx.cover("while reconciling")
    elif not any(r.calls for r in rs):
        sx.cover("before the sync")
    else:
        sx.cover("idle")
    task.cancel()
    await sx.settle()
    calls = [len(r.calls) for r in rs]
    await asyncio.sleep(2)
    sx.check(task.done(), "a cancelled manager does not end")
    sx.check(task.cancelled(), "a cancelled manager ends otherwise")
    verify()
    sx.check(not any(r.running for r in rs), "a cancelled manager leaves a reconcile behind")
    sx.check(not pods.open_streams(), "a cancelled manager leaves a watch open")
    lists = pods.lists
    pods.change("o0")
    pods.break_watches()
    await asyncio.sleep(5)
    sx.check([len(r.calls) for r in rs] == calls, "a cancelled manager starts to reconcile")
    sx.check(pods.lists == lists, "a cancelled manager lists again")


@harness(
    quick=dict(until=4),
    thorough=dict(until=8),
    covers=("source", "source later", "runnable", "another kind of runnable", "before the sync", "while reconciling", "cleaning up"),
    bounds="a manager with a controller of two objects, first lists that take no time or 2 s, reconciles of a second that take another to stop or no time, and a failure: of a source as it starts or up to `until` s later, or of "
    "another runnable up to `until` s after its start; objects change afterwards",
)
async def failing(sx, until):
    kube.reset()
    pods = serve(sx, None, 2)
    pods.list_delay = 2 if sx.bool("slow list") else 0
    m = manager.new()
    r = Reconciler(sx, [(POD, pods)], 1, sx.choose("cleanup", (0, 1)))
    await builder.build_controller(m, r, api_type=POD)
    what = sx.choose("what", ("source", "source later", "runnable", "another kind of runnable"))
    sx.cover(what)
    error = failure(sx.choose("class", (0, 1)), "runnable")

    class Bad:
        async def start(self, *args):
            if what != "source":
                await asyncio.sleep(sx.real("when", 0, until))
            sx.cover("while reconciling" if r.running else "before the sync" if not r.calls else "idle")
            raise error

    if what in ("source", "source later"):
        c = controller.new(m, reconciler=Reconciler(sx, [(POD, pods)]))
        await c.watch(Bad(), handler.EnqueueRequestForObject())
    else:
        if what == "another kind of runnable":
            Bad.inject_cache = lambda self, cache: None
        m.add(Bad())
    task = sx.spawn(m.start())
    verify = when_done(sx, task, lambda: [r.running], "a manager that failed")
    await asyncio.sleep(until + 4)
    sx.check(task.done(), "a manager goes on without one of its runnables")
    told = None if task.cancelled() else task.exception()
    sx.check(told is error or error in getattr(told, "exceptions", ()), "a manager does not report the failure of a runnable")
    verify()
    sx.check(not r.running, "a manager that failed leaves a reconcile behind")
    sx.check(not pods.open_streams(), "a manager that failed leaves a watch open")
    calls, lists = len(r.calls), pods.lists
    pods.change("o0")
    pods.break_watches()
    await asyncio.sleep(5)
    sx.check(len(r.calls) == calls, "a manager that failed starts to reconcile")
    sx.check(pods.lists == lists, "a manager that failed lists again")


@harness(
    quick=dict(list_time="0.35", turns=3),
    thorough=dict(list_time="0.55", turns=9),
    covers=("controller first", "cache first", "reconciled"),
    bounds="a controller of pods and services, and its cache, started by themselves, one up to `turns` turns after the other; first lists that take real times up to `list_time`",
)
async def alone(sx, list_time, turns):
    kube.reset()
    pods, services = serve(sx, None, 2), serve(sx, "services", 2)
    for s in (pods, services):
        s.list_delay = sx.real("list", 0, sx.exact(list_time))
    m = manager.new()
    r = Reconciler(sx, [(POD, pods), (SERVICE, services)])
    c = controller.new(m, reconciler=r)
    for kind in (POD, SERVICE):
        await m.get_cache().get_informer(kind)
        await c.watch(source.Kind(kind), handler.EnqueueRequestForObject())
    first, second = m.get_cache().start, c.start
    if sx.bool("controller first"):
        sx.cover("controller first")
        first, second = second, first
    else:
        sx.cover("cache first")
    tasks = [sx.spawn(first())]
    await sx.ticks("second", turns)
    tasks.append(sx.spawn(second()))
    await asyncio.sleep(3)
    sx.check(not any(t.done() for t in tasks), "a controller or a cache ends by itself")
    sx.check(len({k for t, k in r.calls}) == 4, "an object is never reconciled")
    await sx.finish(*tasks)
    sx.check(not pods.open_streams() and not services.open_streams(), "a stopped cache leaves a watch open")


class Part:
    """Something a controller is made of, which wants the cache itself, or for a part of its own."""

    def __init__(self, sx, name, how):
        self.sx, self.name, self.caches, self.of_part = sx, name, [], []
        if how in ("itself", "both"):
            self.inject_cache = self.caches.append
        if how in ("of its part", "both"):
            self.part = type("Inner", (), {})()
            self.part.inject_cache = self.of_part.append
            self.inject_func = lambda f: f(self.part)
        sx.cover(how)
        self.wanted = [w for w, hows in ((self.caches, ("itself", "both")), (self.of_part, ("of its part", "both"))) if how in hows]

    def used(self, cache):
        for caches in self.wanted:
            self.sx.check(bool(caches), f"a {self.name} is used without the cache it asks for")
            self.sx.check(all(c is cache for c in caches), f"a {self.name} is given another cache than its manager's")


@harness(
    quick=dict(predicates=2),
    thorough=dict(predicates=3),
    covers=("nothing", "itself", "of its part", "both", "runs", "asked"),
    bounds="a controller with a source, a handler, `predicates` predicates and a reconciler, and another runnable beside it: all or each alone wants the manager's cache, for itself, for a part of its "
    "own or both; a first list that takes a real time up to 0.35 s",
)
async def injected(sx, predicates):
    names = ("source", "handler", "reconciler", "runnable") + tuple(f"predicate {i}" for i in range(predicates))
    kube.reset()
    pods = serve(sx, None, 1)
    pods.list_delay = sx.real("list", 0, sx.exact("0.35"))
    m = manager.new()
    cache = m.get_cache()
    how = sx.choose("how", ("itself", "of its part", "both"))
    which = sx.choose("which", ("all",) + names)
    parts = {n: Part(sx, n, how if which in ("all", n) else "nothing") for n in names}
    used = []

    def use(n):
        used.append(n)
        parts[n].used(cache)

    async def on_source(h, queue, *predicates):
        use("source")
        kind = source.Kind(POD)
        kind.inject_cache(cache)
        await kind.start(h, queue, *predicates)

    parts["source"].start = on_source
    enqueue = handler.EnqueueRequestForObject()

    async def on_create(event, queue):
        use("handler")
        await enqueue.create(event, queue)

    parts["handler"].create = on_create

    def asked(n):
        def ask(event):
            sx.cover("asked")
            use(n)
            return True

        return ask

    predicates = [parts[n] for n in names if n.startswith("predicate")]
    for p in predicates:
        p.create = asked(p.name)

    async def on_reconcile(request):
        use("reconciler")
        return reconcile.Result()

    parts["reconciler"].reconcile = on_reconcile

    async def on_run():
        sx.cover("runs")
        sx.check(pods.lists > 0, "a runnable starts before the caches are synced")
        use("runnable")
        await asyncio.sleep(100)

    parts["runnable"].start = on_run
    first = sx.bool("runnable first")
    if first:
        m.add(parts["runnable"])
    c = controller.new(m, reconciler=parts["reconciler"])
    await cache.get_informer(POD)
    await c.watch(parts["source"], parts["handler"], *predicates)
    if not first:
        m.add(parts["runnable"])
    task = sx.spawn(m.start())
    await asyncio.sleep(3)
    sx.check(not task.done(), "a manager ends by itself")
    sx.check(set(used) == set(names), "a part of a controller, or a runnable, is never used")
    await sx.finish(task)


@harness(
    quick=dict(objs=20),
    thorough=dict(objs=200),
    covers=("slow pods", "slow services", "server away", "by the builder"),
    bounds="a manager with a controller of pods (by the builder, or one of pods and services) and another runnable: the first list of up to `objs` pods, or of the services, takes 12, 31, 70, 400 or 1000 s, "
    "or fails for so long; then everything is reconciled",
)
async def slow_lists(sx, objs):
    kube.reset()
    pods = serve(sx, None, sx.choose("objs", (1, objs)))
    both = sx.bool("services")
    services = serve(sx, "services", 1 if both else 0)
    takes = sx.choose("takes", (12, 31, 70, 400, 1000))
    slow = sx.choose("slow", (pods, services)) if both else pods
    sx.cover("slow pods" if slow is pods else "slow services")
    if sx.bool("away"):
        sx.cover("server away")
        slow.cut = True
    else:
        slow.list_delay = takes
    m = manager.new()
    r = Reconciler(sx, [(POD, pods), (models.V1Service, services)] if both else [(POD, pods)])
    if both:
        c = controller.new(m, reconciler=r)
        for kind in (POD, SERVICE):
            await c.watch(source.Kind(kind), handler.EnqueueRequestForObject())
    else:
        sx.cover("by the builder")
        await builder.build_controller(m, r, api_type=POD)
    ran = []

    class Runnable:
        async def start(self):
            ran.append(sx.now())
            await asyncio.Event().wait()

    m.add(Runnable())
    task = sx.spawn(m.start())
    await asyncio.sleep(takes - sx.exact("0.1"))
    sx.check(not task.done(), "a manager ends by itself")
    sx.check(not r.calls, "reconciles before a cache is synced")
    slow.cut = False
    await asyncio.sleep(3)
    sx.check(not task.done(), "a manager ends by itself")
    want = {o.metadata.name for s in (pods, services) for o in s.held.objs}
    sx.check({k.name for _, k in r.calls} == want, "an object is never reconciled")
    sx.check(len(ran) == 1, "a runnable is not started once")
    await sx.finish(task)


@harness(
    quick=dict(runnables=3),
    thorough=dict(runnables=6),
    covers=("equal ones",),
    bounds="a manager with `runnables` runnables that equal each other: each is started once, whichever ends or not",
)
async def equal_runnables(sx, runnables):
    kube.reset()
    serve(sx, None, 1)
    m = manager.new()
    started = []

    class Runnable:
        def __init__(self, n):
            self.n = n

        def __eq__(self, other):
            return isinstance(other, Runnable)

        def __hash__(self):
            return 1

        async def start(self):
            started.append(self.n)
            if ends != self.n:
                await asyncio.Event().wait()

    ends = sx.choose("ends", (None,) + tuple(range(runnables)))
    sx.cover("equal ones")
    for n in range(runnables):
        m.add(Runnable(n))
    task = sx.spawn(m.start())
    await asyncio.sleep(2)
    sx.check(sorted(started) == list(range(runnables)), "a runnable is not started once")
    sx.check(not task.done(), "a manager ends by itself")
    await sx.finish(task)
