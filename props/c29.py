"""Informer resync periods are spread over 0.9 to 1.1 of the configured one."""

import asyncio

from props import kube
from aiok8s.controller import cache as caches
from kubernetes_asyncio.client import models
from props.c16 import Server
from symx.harness import harness

POD = models.V1Pod


class Handler:
    def __init__(self, sx):
        self.sx, self.updates = sx, []

    async def on_add(self, obj):
        self.begun = self.sx.now()

    async def on_update(self, old, new):
        self.updates.append(self.sx.now())

    async def on_delete(self, obj):
        pass


@harness(
    quick=dict(informers=2, rounds=2),
    thorough=dict(informers=3, rounds=4),
    covers=("default period", "different draws"),
    bounds="`informers` informers of caches with a real resync period between 20 and 1000 s, or the default one, all random "
    "draws: the time between the resyncs each handler sees (on `rounds` rounds)",
)
async def periods(sx, informers, rounds):
    kube.reset()
    server = kube.serve(Server("ns"))
    server.change("a")
    if sx.bool("default"):
        period = 36000
        make = caches.new
        sx.cover("default period")
    else:
        period = sx.real("period", 20, 1000)
        make = lambda: caches.new(resync=period)
    hs, tasks, draws = [], [], []
    for i in range(informers):
        c = make()
        known = len(draws)
        real, sx.real = sx.real, None

        def drawn(name, *a, real=real, **kw):
            v = real(name, *a, **kw)
            draws.append(v)
            return v

        sx.real = drawn
        inf = await c.get_informer(POD)
        sx.real = real
        h = Handler(sx)
        hs.append(h)
        await inf.add_event_handler(h)
        tasks.append(sx.spawn(c.start()))
    await asyncio.sleep(period * sx.exact("1.1") * rounds + 5)
    ps = []
    for h in hs:
        sx.check(len(h.updates) >= rounds, "an informer does not resync within 1.1 times the period")
        gaps = [b - a for a, b in zip([h.begun] + h.updates, h.updates)]
        for g in gaps:
            sx.check(g >= period * sx.exact("0.9") - sx.exact("0.001"), "an informer resyncs before 0.9 times the period")
            sx.check(g <= period * sx.exact("1.1") + sx.exact("0.001"), "an informer resyncs later than 1.1 times the period")
        ps.append(gaps[0])
    sx.obs("periods", ps)
    sx.check(len(draws) >= informers, "the periods are not drawn for each informer")
    a, b = draws[0], draws[1]
    if a != b:
        sx.cover("different draws")
        sx.check(ps[0] != ps[1], "different draws give the same period")
    await sx.finish(*tasks)
