"""Setting the system's clock shortens and prolongs nothing."""

import asyncio

from aiok8s.cache import controller, shared_informer
from aiok8s.util import wait
from aiok8s.workqueue import default_rate_limiters, delaying_queue, rate_limiting_queue
from props.c06 import near
from props.c16 import Server, Thing
from props.c17 import Handler
from props.c31 import TIMES, draws
from props.lease import Candidate, Lease
from symx.harness import harness

MOST = 100000


def jump(sx, name):
    """Somebody sets the system's clock."""
    d = sx.real(name, -MOST, MOST)
    sx.cover("forwards" if d > 0 else "backwards or not")
    sx.wall0 = sx.wall0 + d


@harness(
    quick=dict(adds=2, most=4),
    thorough=dict(adds=3, most=4),
    covers=("forwards", "backwards or not", "before the next addition", "after all additions"),
    bounds="`adds` delayed additions of items to a delaying queue, real delays up to `most` s, real gaps up to 3 s between "
    "them; the clock is set by any amount up to 100000 s either way, once, after any of the additions",
)
async def delays(sx, adds, most):
    q = delaying_queue.new()
    got, due = {}, {}

    async def sink():
        while True:
            item, _ = await q.get()
            sx.check(item not in got, "an item is delivered twice")
            got[item] = sx.now()
            await q.done(item)

    t = sx.spawn(sink())
    when = sx.choose("when", range(adds))
    for i in range(adds):
        d = sx.real(f"delay{i}", 0, most, open_lo=True)
        due[i] = sx.now() + d
        await q.add_after(i, d)
        await asyncio.sleep(sx.real(f"gap{i}", 0, 3))
        if i == when:
            sx.cover("before the next addition" if i + 1 < adds else "after all additions")
            jump(sx, "jump")
    await asyncio.sleep(most + 1)
    for i in range(adds):
        sx.check(i in got, "an item is not delivered in time")
        sx.check(got[i] == due[i], "an item is not delivered after its delay")
    await sx.finish(t)


@harness(
    quick=[dict(calls=4, burst=b, limit=r) for b, r in ((1, 2), (2, 1))],
    thorough=[dict(calls=6, burst=b, limit=r) for b, r in ((1, 2), (2, 1), (3, 10), (2, 0.5))],
    covers=("forwards", "backwards or not", "delayed", "not delayed"),
    bounds="`calls` requests to a bucket with the given rate and size with real gaps up to 5 s; the clock is set by any "
    "amount up to 100000 s either way before any of them; the machine has been up for any time from 0 on",
)
async def rates(sx, calls, burst, limit):
    limit = sx.exact(limit)
    sx.mono0 = sx.real("uptime", 0, MOST)
    limiter = default_rate_limiters.BucketRateLimiter(limit, burst)
    at = sx.choose("at", range(calls))
    full = None
    for i in range(calls):
        if i:
            await asyncio.sleep(sx.real(f"gap{i}", 0, 5))
        if i == at:
            jump(sx, "jump")
        now = sx.now()
        d = limiter.when("x")
        full = now if full is None else sx.Ite(full > now, full, now)
        w = full - now - (burst - 1) * (1 / limit)
        sx.check(d == sx.Ite(w > 0, w, 0), "not the least delay the rate allows")
        sx.cover("delayed" if d > 0 else "not delayed")
        full = full + 1 / limit


@harness(
    quick=dict(calls=3),
    thorough=dict(calls=5),
    covers=("forwards", "backwards or not"),
    bounds="`calls` rate limited additions of one item to the default controller queue with real gaps up to 0.1 s; the "
    "clock is set by any amount up to 100000 s either way before any of them",
)
async def retries(sx, calls):
    sx.mono0 = sx.real("uptime", 0, MOST)
    limiter = default_rate_limiters.default_controller_rate_limiter()
    q = rate_limiting_queue.new(limiter)
    at = sx.choose("at", range(calls))
    for i in range(calls):
        if i == at:
            jump(sx, "jump")
        begin = sx.now()
        await q.add_rate_limited("x")
        item, _ = await q.get()
        sx.check(near(sx, sx.now() - begin, 0.005 * 2**i), "a retry does not wait for its backoff")
        await q.done(item)
        await asyncio.sleep(sx.real(f"gap{i}", 0, 0.1))
    await q.shut_down()


@harness(
    quick=[dict(kind="shared", horizon=6), dict(kind="plain", horizon=5)],
    thorough=[dict(kind="shared", horizon=10), dict(kind="plain", horizon=8)],
    covers=("forwards", "backwards or not", "resync before", "resync after"),
    bounds="an informer with a resync period of 1 to 3 s; the clock is set by any amount up to 100000 s either way at a "
    "real time; observed for `horizon` seconds",
)
async def resyncs(sx, kind, horizon):
    server = Server()
    server.change("a")
    period = sx.real("period", 1, 3)
    h = Handler(sx, "h")
    if kind == "plain":
        _, informer = controller.new_informer(server, Thing, period, h)
    else:
        informer = shared_informer.new_shared_informer(server, Thing, period)
        await informer.add_event_handler(h)
    task = sx.spawn(informer.run())
    start = sx.now()
    at = sx.real("at", 0, 4)
    await asyncio.sleep(at)
    jump(sx, "jump")
    await asyncio.sleep(horizon - at)
    await sx.settle()
    sx.check([n[0] for n in h.log[:1]] == ["add"], "the object is not announced")
    times = [n[3] for n in h.log[1:]]
    sx.check(all(n[0] == "update" for n in h.log[1:]), "something else than a resync update")
    last = start
    for t in times:
        sx.check(t - last >= period, "a resync is early")
        sx.check(t - last < 2 * period, "a resync is late")
        sx.cover("resync before" if t < start + at else "resync after")
        last = t
    sx.check(sx.now() < last + 2 * period, "a resync is missing")
    await sx.finish(task)


@harness(
    quick=dict(renewals=1, settings=1),
    thorough=[dict(renewals=2, settings=1), dict(renewals=1, settings=2)],
    covers=("forwards", "backwards or not", "renewed meanwhile", "taken over"),
    bounds="a lease held by somebody else who renews it `renewals` times at real times up to 4 s apart; an elector (lease 4 "
    "s, deadline 3 s, retry 1 s); the clock is set `settings` times at real times up to 5 s apart by any amount up to "
    "100000 s either way",
)
async def leases(sx, renewals, settings):
    draws(sx, 0)
    lease = Lease(sx, dict(holderIdentity="x", leaderTransitions=3, acquireTime=1, renewTime=1, leaseDurationSeconds=4))
    e = Candidate(sx, lease, "e", None, **TIMES)
    e.run()
    start = sx.now()

    async def holder():
        for i in range(renewals):
            await asyncio.sleep(sx.real(f"renew{i}", 0, 4, open_hi=True))
            sx.cover("renewed meanwhile")
            lease.put("x", dict(lease.record, renewTime=i + 2))

    async def setter():
        for i in range(settings):
            await asyncio.sleep(sx.real(f"set{i}", 0, 5))
            jump(sx, f"jump{i}")

    hs = sx.spawn(holder()), sx.spawn(setter())
    await asyncio.sleep(12 + 4 * renewals)
    for h in hs:
        sx.done_result(h, "a participant")
    changed = [start] + [w[0] for w in lease.writes if w[1] == "x"]
    sx.check(len(changed) == renewals + 1, "a held lease is taken before the lease duration has passed")
    mine = [w[0] for w in lease.writes if w[1] == "e"]
    sx.check(bool(mine), "a lease that is not renewed is not taken over")
    sx.cover("taken over")
    sx.check(mine[0] >= changed[-1] + 4, "a held lease is taken before the lease duration has passed")
    sx.check(mine[0] <= changed[-1] + 7, "a lease that is not renewed is taken over late")
    for a, b in zip(mine[1:], mine[2:]):
        sx.check(sx.And(b >= a + 1, b <= a + 3), "the lease is not renewed at the retry period")
    sx.check(e.leading and e.log == ["started"], "the elector does not lead on")
    await sx.finish(e.task)


@harness(
    quick=dict(),
    covers=("forwards", "backwards or not", "poll", "loop", "until", "backoff"),
    bounds="a poll, periodic loops and a backoff with a real period of 1 to 2 s; the clock is set by any amount up to 100000 s "
    "either way at a real time up to 5 s",
)
async def waits(sx):
    period = sx.real("period", 1, 2)
    kind = sx.choose("kind", ("poll", "loop", "until", "backoff"))
    sx.cover(kind)
    calls, start, ended = [], sx.now(), []

    async def f():
        calls.append(sx.now())
        return False

    async def main():
        try:
            if kind == "poll":
                await wait.poll(period, 5, f)
            elif kind == "loop":
                await wait.jitter_loop(f, period, 0, sx.bool("sliding"))
            elif kind == "until":
                await wait.jitter_until(f, period, 0, sx.bool("sliding"), stop)
            else:
                await wait.exponential_backoff(wait.Backoff(steps=3, duration=period, factor=2), f)
        except wait.WaitTimeoutError:
            ended.append(sx.now())

    stop = asyncio.Event()
    t = sx.spawn(main())
    at = sx.real("at", 0, 5)
    await asyncio.sleep(at)
    jump(sx, "jump")
    await asyncio.sleep(10 - at)
    if kind == "backoff":
        sx.check(sx.And(*[a == start + period * n for a, n in zip(calls, (0, 1, 3))]), "a backoff has another delay")
        sx.check(len(calls) == 3, "a backoff has another number of attempts")
    else:
        first = 1 if kind == "poll" else 0
        for i, c in enumerate(calls):
            sx.check(c == start + period * (i + first), "a call is early or late")
        n = len(calls) + first
        if kind == "poll":
            sx.check(ended and ended[0] == start + 5, "a poll times out early or late")
            sx.check(start + n * period >= start + 5, "a call is missing")
        else:
            sx.check(start + n * period >= start + 10, "a call is missing")
    if kind in ("loop", "until"):
        sx.check(not t.done(), "a loop ends by itself")
    await sx.finish(t)
