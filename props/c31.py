"""At most one elector leads at any moment; a held lease is never taken early."""

import asyncio

from props.faults import failure
from props.lease import Candidate, Lease, Lock, problem
from symx.harness import harness

TIMES = dict(lease_duration=4, renew_deadline=3, retry_period=1)


def draws(sx, n):
    """All random draws but the first `n` are 0."""
    real, count = sx.real, [0]

    def drawn(name, *a, **kw):
        if name == "random":
            count[0] += 1
            if count[0] > n:
                return 0
        return real(name, *a, **kw)

    sx.real = drawn


@harness(
    quick=dict(renewals=1, slow=1),
    thorough=dict(renewals=2, slow=2),
    covers=("renewed meanwhile", "another holder", "not renewed", "taken over", "no holder"),
    bounds="a lease held by somebody else whose record changes `renewals` times (its renew time, its holder or its count only) at real times up to 5 s apart, or released; one "
    "elector (lease 3.75 s, deadline 3 s, retry 1 s) that starts at a real time up to 1 s; its first `slow` requests take real times up to 2 s",
)
async def takeover(sx, renewals, slow):
    draws(sx, 1)
    held = sx.bool("held")
    lease = Lease(sx, dict(holderIdentity="x" if held else "", leaderTransitions=3, acquireTime=1, renewTime=1, leaseDurationSeconds=3))
    n = [0]

    async def behave(what):
        n[0] += 1
        if n[0] <= slow:
            await asyncio.sleep(sx.real(f"latency{n[0]}", 0, 2))

    duration = sx.exact("3.75")
    e = Candidate(sx, lease, "e", behave, **dict(TIMES, lease_duration=duration))

    async def holder():
        for i in range(renewals):
            await asyncio.sleep(sx.real(f"renew{i}", 0, 5))
            if lease.holder() == "e":
                return
            changed = sx.choose(f"changed{i}", (dict(renewTime=i + 2), dict(holderIdentity=f"y{i}"), dict(leaderTransitions=i + 4)))
            sx.cover("another holder" if "holderIdentity" in changed else "renewed meanwhile")
            lease.put("x", dict(lease.record, **changed))

    h = sx.spawn(holder() if held else asyncio.sleep(0))
    await asyncio.sleep(sx.real("start", 0, 1))
    e.run()
    await asyncio.sleep(16 + 5 * renewals)
    sx.check(not e.task.done(), "an elector ends by itself")
    sx.done_result(h, "holding")
    changed = None
    for at, writer, before, record in lease.writes:
        if writer == "e":
            if before.get("holderIdentity") not in ("", "e"):
                sx.cover("taken over")
                last = changed if changed is not None else 0
                sx.check(at >= last + duration, "a held lease is taken before the lease duration has passed")
                if changed is None:
                    sx.cover("not renewed")
            elif before.get("holderIdentity") == "":
                sx.cover("no holder")
        changed = at
    sx.check(e.leading, "an elector never takes over a lease that is free")
    sx.obs("writes", [(w[1], w[0]) for w in lease.writes])
    await sx.finish(e.task)


@harness(
    quick=dict(requests=3),
    thorough=dict(requests=4),
    covers=("write failed", "write lost", "get failed", "leads"),
    bounds="an elector for an absent or a free lease; each of its first `requests` requests is carried out, fails, or (writes) is carried out "
    "but reported as failed; then somebody else holds the lease or requests work",
)
async def failing_requests(sx, requests):
    draws(sx, 0)
    record = None if sx.bool("absent") else dict(leaderTransitions=3)
    lease = Lease(sx, record)
    n, failed, done = [0], [], []

    async def behave(what):
        n[0] += 1
        if n[0] > requests:
            raise problem("down")
        how = sx.choose(f"request{n[0]}", ("ok", "fails") + (("lost",) if what == "update" else ()))
        if how == "fails":
            sx.cover("get failed" if what == "get" else "write failed")
            raise problem("fails")
        if how == "lost":
            sx.cover("write lost")
            return "lost"
        if what != "get":
            done.append(sx.now())

    e = Candidate(sx, lease, "e", behave, **TIMES)
    e.run()
    await asyncio.sleep(30)
    sx.check(bool(done) == ("started" in e.log), "an elector leads exactly if a write of the lease succeeded")
    if done:
        sx.check(e.started_at >= done[0], "an elector leads before its write succeeded")
        sx.check(not e.leading, "an elector leads on although it cannot renew")
    await sx.finish(e.task)


@harness(
    quick=dict(requests=3),
    thorough=dict(requests=5),
    covers=("get hangs", "write hangs", "carried out", "tries again", "leads"),
    bounds="an elector for an absent or a free lease, or one that it holds already; each of its first `requests` requests is carried out, or hangs until it is given up, "
    "a write having been carried out or not; then requests hang or work",
)
async def hanging_requests(sx, requests):
    draws(sx, 0)
    lease = Lease(sx, None if sx.bool("absent") else dict(leaderTransitions=3))
    n, done, hung = [0], [], []
    after = sx.choose("after", ("hang", "ok"))

    async def hang(what):
        hung.append((what, sx.now()))
        sx.cover("get hangs" if what == "get" else "write hangs")
        await asyncio.Event().wait()

    class Hanging(Lock):
        async def create(self, record):
            await self.write(Lock.create, record)

        async def update(self, record):
            await self.write(Lock.update, record)

        async def write(self, put, record):
            n[0] += 1
            how = sx.choose(f"request{n[0]}", ("ok", "hangs", "carried out")) if n[0] <= requests else after
            if how in ("ok", "carried out"):
                await put(self, record)
            if how != "ok":
                if how == "carried out":
                    sx.cover("carried out")
                await hang("write")
            done.append(sx.now())

        async def get(self):
            n[0] += 1
            how = sx.choose(f"request{n[0]}", ("ok", "hangs")) if n[0] <= requests else after
            if how != "ok":
                await hang("get")
            return await Lock.get(self)

    e = Candidate(sx, lease, "e", None, **TIMES)
    e.elector._config.lock.__class__ = Hanging
    e.run()
    await asyncio.sleep(40)
    started = "started" in e.log
    sx.check(bool(done) == started, "an elector leads exactly if a write of the lease was confirmed")
    if started:
        sx.check(e.started_at >= done[0], "an elector leads before its write was confirmed")
        last = done[-1]
        if e.leading:
            sx.check(last >= sx.now() - 4, "an elector leads on although its lease is not renewed")
        elif e.stopped_at is not None:
            sx.check(e.ended_at <= last + 4, "an elector leads on after its lease has expired")
    elif after == "ok":
        sx.fail("an elector gives up after requests that hung")
    if len(hung) > 1 and hung[0][1] < hung[1][1]:
        sx.cover("tries again")
    await sx.finish(e.task)


@harness(
    quick=dict(turns=6),
    thorough=dict(turns=12),
    covers=("both tried to create", "one after the other", "leads"),
    bounds="two electors for an absent or a free lease; the second starts at an arbitrary turn up to `turns` after the first, every "
    "request of the first three of each takes an arbitrary number of turns up to 3",
)
async def race(sx, turns):
    draws(sx, 0)
    lease = Lease(sx, None if sx.bool("absent") else dict(leaderTransitions=3))
    es = []

    def behave(i):
        n = [0]

        async def f(what):
            n[0] += 1
            if n[0] <= 2:
                await sx.ticks(f"latency{i}", 3)

        return f

    a = Candidate(sx, lease, "a", behave(0), **TIMES)
    b = Candidate(sx, lease, "b", behave(1), [a], **TIMES)
    a.others.append(b)
    a.run()
    await sx.ticks("second", turns)
    b.run()
    await sx.settle()
    sx.check(a.leading != b.leading, "not exactly one of two electors gets a free lease")
    wrote = [any(r[0] != "get" for r in e.lock.requests) for e in (a, b)]
    sx.cover("both tried to create" if all(wrote) else "one after the other")
    await asyncio.sleep(8)
    sx.check(a.leading != b.leading, "not exactly one of two electors keeps the lease")
    sx.check(len({w[1] for w in lease.writes}) == 1, "the lease changes hands although its holder renews it")
    await sx.finish(a.task, b.task)


@harness(
    quick=[dict(latency=1, hang=False, deadline="3.5"), dict(latency=0, hang=True, deadline="3")],
    thorough=[dict(latency=2, hang=False, deadline="3.5"), dict(latency=1, hang=True, deadline="3.5"), dict(latency=1, hang=True, deadline="2")],
    covers=("failed over", "leads"),
    bounds="an elector leads, then from a real time up to 5 s on its requests fail (or hang forever), the first of its requests take real "
    "times up to `latency`; another one (both: lease 3.75 s, deadline `deadline` s, retry 1 s) contends all the time; at no moment do both lead",
)
async def failover(sx, latency, hang, deadline):
    draws(sx, 1)
    lease = Lease(sx)
    down = sx.real("down", 0, 5)
    start = sx.now()
    n = [0]

    async def behave(what):
        n[0] += 1
        if sx.now() >= start + down:
            if hang:
                await asyncio.Event().wait()
            raise problem("down")
        if latency and n[0] in (2, 4):
            await asyncio.sleep(sx.real(f"latency{n[0]}", 0, latency))

    times = dict(TIMES, lease_duration=sx.exact("3.75"), renew_deadline=sx.exact(deadline))
    a = Candidate(sx, lease, "a", behave, **times)
    b = Candidate(sx, lease, "b", None, [a], **times)
    a.run()
    await asyncio.sleep(sx.exact("0.5"))
    b.run()
    await asyncio.sleep(22)
    if "started" in a.log:
        sx.check(sorted(a.log) == ["cancelled", "started", "stopped"], "a leader that cannot renew does not stop leading")
        sx.check(b.started_at is None or a.ended_at <= b.started_at, "two electors lead at the same time")
    sx.check(b.leading, "nobody takes over")
    if a.started_at is not None:
        sx.cover("failed over")
    await sx.finish(a.task, b.task)


@harness(
    quick=dict(until=3),
    thorough=dict(until=8),
    covers=("handed over", "cleaned up slowly", "requests failed before"),
    bounds="an elector that releases the lease leads, another one contends; the first is cancelled at a real time up to `until`, or its requests fail from then on, "
    "and its leading task takes a real time up to 0.9 s to end",
)
async def handover(sx, until):
    draws(sx, 0)
    lease = Lease(sx)
    cleanup = sx.real("cleanup", 0, sx.exact("0.9"))
    down = [False]

    async def behave(what):
        if down[0] and a.leading:
            sx.cover("requests failed before")
            raise problem("down")

    a = Candidate(sx, lease, "a", behave, cleanup=cleanup, release_on_cancel=True, **TIMES)
    b = Candidate(sx, lease, "b", None, [a], release_on_cancel=True, **TIMES)
    a.run()
    await asyncio.sleep(sx.exact("0.5"))
    b.run()
    await asyncio.sleep(sx.real("when", 0, until))
    if sx.bool("cancelled"):
        a.task.cancel()
    else:
        down[0] = True
    await asyncio.sleep(6)
    sx.check(not a.leading, "an elector leads on")
    sx.check(b.leading, "a released lease is not taken")
    sx.check(a.ended_at <= b.started_at, "two electors lead at the same time")
    sx.cover("handed over")
    if cleanup > sx.exact("0.5"):
        sx.cover("cleaned up slowly")
    await sx.finish(b.task)


@harness(
    quick=[dict(slow=4, hang=False), dict(slow=6, hang=True)],
    thorough=[dict(slow=k, hang=h) for k in (2, 4, 6) for h in (False, True)],
    covers=("slow response", "failed over", "leads"),
    bounds="an elector (lease 3.25 s, deadline 3 s, retry 1 s) whose first, second or third write is carried out at once, but whose response takes a real time up to 3 s; afterwards its "
    "requests fail or hang; another one contends from a real time up to 0.5 s on, its second try at a real time",
)
async def slow_response(sx, slow, hang):
    draws(sx, 2)
    lease = Lease(sx)
    n = [0]

    async def behave(what):
        n[0] += 1
        if n[0] == slow and what != "get":
            sx.cover("slow response")
            return sx.real("reply", 0, 3)
        if n[0] > slow:
            if hang:
                await asyncio.Event().wait()
            raise problem("down")

    times = dict(TIMES, lease_duration=sx.exact("3.25"))
    a = Candidate(sx, lease, "a", behave, **times)
    b = Candidate(sx, lease, "b", None, [a], **times)
    a.run()
    await asyncio.sleep(sx.real("contends", 0, sx.exact("0.5")))
    b.run()
    await asyncio.sleep(16)
    if "started" in a.log:
        sx.check(sorted(a.log) == ["cancelled", "started", "stopped"], "a leader that cannot renew does not stop leading")
        sx.check(b.started_at is None or a.ended_at <= b.started_at, "two electors lead at the same time")
        sx.cover("failed over")
    sx.check(b.leading, "nobody takes over")
    await sx.finish(a.task, b.task)


@harness(
    quick=[dict(most=30), dict(most=400)],
    thorough=dict(most=1000),
    covers=("get", "create", "update", "hangs", "held", "odd record", "turns", "leads"),
    bounds="an elector whose attempts all fail for `most` s and a real time up to 2 s more: the reads, the creation, the writes, all requests hanging, the "
    "lease being held and renewed, or what is read being no record (a list, a number, text, a record with a count of another type), or the first of these by turns; "
    "exceptions of either class by turns or of the one class; then the lease is free, and led within the lease duration and a few retry periods",
)
async def patient(sx, most):
    draws(sx, 0)
    kind = sx.choose("kind", ("get", "create", "update", "hangs", "held", "odd record", "turns"))
    sx.cover(kind)
    free = dict(holderIdentity="", leaderTransitions=3, acquireTime=1, renewTime=1, leaseDurationSeconds=4)
    lease = Lease(sx, None if kind == "create" else dict(free, holderIdentity="x") if kind == "held" else free)
    odd = None
    if kind == "odd record":
        odd = sx.choose("odd", (["e"], 5, "e", dict(free, leaderTransitions="many"), dict(free, leaderTransitions=None)))
    class_ = sx.choose("class", ("turns", "everything")) if kind in ("get", "create", "update") else "turns"
    n = [0]
    good = [False]

    async def behave(what):
        n[0] += 1
        if good[0]:
            return
        now = kind if kind != "turns" else ("get", "hangs", "update")[n[0] % 3]
        if now == "hangs":
            await asyncio.Event().wait()
        if what == now or kind == "turns":
            raise failure(n[0] if class_ == "turns" else 0, "down")

    e = Candidate(sx, lease, "e", behave, **TIMES)
    e.lock.odd = odd

    async def holder():
        i = 0
        while True:
            await asyncio.sleep(1)
            i += 1
            lease.put("x", dict(lease.record, renewTime=i + 2))

    h = sx.spawn(holder() if kind == "held" else asyncio.sleep(0))
    e.run()
    await asyncio.sleep(most)
    for i in range(3):
        n0 = n[0]
        await asyncio.sleep(5)
        sx.check(n[0] > n0, "an elector no longer tries to get the lease")
        sx.check(n[0] - n0 <= 20, "an elector tries without pausing")
    await asyncio.sleep(sx.real("more", 0, 2))
    sx.check(not e.task.done(), "an elector ends by itself")
    sx.check(e.log == [] and not any(w[1] == "e" for w in lease.writes), "an elector leads without having written the lease")
    h.cancel()
    good[0], e.lock.odd = True, None
    await asyncio.sleep(4 + 3 + 3)
    sx.check(e.leading, "an elector never takes over a lease that is free")
    sx.check(e.log == ["started"], "an elector does not start leading once")
    await sx.finish(e.task)
