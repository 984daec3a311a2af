"""A leader that cannot renew stops leading within the renew deadline."""

import asyncio

from props.c31 import TIMES, draws
from props.faults import failure
from props.lease import Candidate, Lease, problem
from symx.harness import harness


class Tries:
    """Notes when each attempt to renew starts and ends (its requests, from get to update)."""

    def __init__(self, sx):
        self.sx, self.starts, self.ok = sx, [], []

    def get(self):
        self.starts.append(self.sx.now())

    def done(self):
        self.ok.append((self.starts[-1], self.sx.now()))


def ended(sx, e, what):
    sx.check(sorted(e.log) == ["cancelled", "started", "stopped"], f"{what}: {e.log}")
    sx.check(e.task.done(), f"running an elector does not end, {what}")


@harness(
    quick=[dict(tries=3, latency=1, deadline=3), dict(tries=4, latency=0, deadline=3), dict(tries=2, latency=2, deadline="2.5")],
    thorough=[dict(tries=4, latency=1, deadline=3), dict(tries=6, latency=0, deadline=3), dict(tries=3, latency=2, deadline="2.5"), dict(tries=2, latency=4, deadline=3)],
    covers=("get failed", "update failed", "hung", "renewed", "lost", "recovered"),
    bounds="an elector that leads (retry 1 s); each of with and without a release at the end; each of its next `tries` attempts to renew succeeds, fails at the read or the write, hangs, or finds "
    "the lease taken; each of them takes a real time up to `latency`; then all fail or all hang",
)
async def cannot_renew(sx, tries, latency, deadline):
    draws(sx, 0)
    deadline = sx.exact(deadline)
    lease = Lease(sx)
    t = Tries(sx)
    n, how = [0], [None]
    finally_hangs = sx.bool("hangs")
    failed = [False]

    async def hang():
        sx.cover("hung")
        failed[0] = True
        await asyncio.Event().wait()

    async def behave(what):
        if what == "get":
            t.get()
            n[0] += 1
            if n[0] == 1:
                return
            if n[0] > tries + 1:
                if finally_hangs:
                    await hang()
                failed[0] = True
                raise problem("down")
            how[0] = sx.choose(f"try{n[0]}", ("ok", "get", "update", "hang", "lost"))
            if latency:
                await asyncio.sleep(sx.real(f"latency{n[0]}", 0, latency))
            if how[0] == "get":
                sx.cover("get failed")
                failed[0] = True
                raise problem("get")
            if how[0] == "lost" and lease.holder() == "e":
                sx.cover("lost")
                failed[0] = True
                lease.put("x", dict(lease.record, holderIdentity="x"))
        else:
            release = n[0] > 1 and not e.leading
            if how[0] == "hang" or (release and finally_hangs):
                await hang()
            if how[0] == "update" or release:
                sx.cover("update failed")
                failed[0] = True
                raise problem("update")
            t.done()
            if n[0] > 1:
                sx.cover("renewed")
                if failed[0]:
                    sx.cover("recovered")

    e = Candidate(sx, lease, "e", behave, lease_duration=5, renew_deadline=deadline, retry_period=1, release_on_cancel=sx.bool("release"))
    e.run()
    await sx.settle()
    sx.check(e.log == ["started"], "an elector does not lead a lease nobody holds")
    await asyncio.sleep(deadline * (tries + 2) + latency + 5)
    ended(sx, e, "a leader that cannot renew does not stop leading")
    start, end = t.ok[-1]
    sx.check(e.ended_at <= end + deadline, "a leader that cannot renew leads beyond the renew deadline")
    sx.check(e.ended_at >= start + deadline, "a leader stops leading before the renew deadline")
    if lease.holder() == "x":
        sx.check(e.leaders == ["e", "x"], "the leader that took the lease is not reported once")
    sx.obs("times", [a for a, b in t.ok], e.ended_at, e.stopped_at)


@harness(
    quick=[dict(renewals=3, latency="0.9"), dict(renewals=2, latency="0.9", failures=1)],
    thorough=[dict(renewals=4, latency="0.9"), dict(renewals=4, latency="0.9", failures=2)],
    covers=("leads", "slow"),
    bounds="a leader (deadline 4 s, retry 1 s) whose first `renewals` attempts to renew take real times up to `latency` per request, the first `failures` of them fail; "
    "the next work at once: it leads on and tries again about every retry period",
)
async def keeps_leading(sx, renewals, latency, failures=0):
    draws(sx, 0)
    lease = Lease(sx)
    t = Tries(sx)
    n = [0]
    t0 = sx.now()
    ends = []

    async def behave(what):
        if what == "get":
            t.get()
            n[0] += 1
            if n[0] > 1 and len(ends) < renewals + 2:
                gap = sx.now() - ends[-1]
                sx.check(gap <= sx.exact("1.2"), "a leader does not try to renew about every retry period")
                sx.check(sx.Or(n[0] == 2, gap >= sx.exact("0.5")), "a leader renews much more often than every retry period")
            if 1 < n[0] <= renewals + 1:
                d = sx.real(f"latency{n[0]}", 0, sx.exact(latency))
                if d > sx.exact("0.5"):
                    sx.cover("slow")
                await asyncio.sleep(d)
                if n[0] <= failures + 1:
                    ends.append(sx.now())
                    raise problem("get")
        else:
            ends.append(sx.now())

    e = Candidate(sx, lease, "e", behave, lease_duration=5, renew_deadline=4, retry_period=1)
    e.run()
    await asyncio.sleep(2 * renewals + 6)
    sx.check(e.log == ["started"], "a leader stops leading although its renewals succeed")
    sx.check(not e.task.done(), "running an elector ends although it renews")
    sx.check(len(lease.writes) >= renewals - failures + 4, "a leader does not renew about every retry period")
    sx.check(sx.now() - lease.changed <= 2, "a leader does not renew about every retry period")
    await sx.finish(e.task)


@harness(
    quick=[dict(turns=0, until=4, release=True), dict(turns=9, until=0, release=True), dict(turns=9, until=0, release=False), dict(turns=0, until=4, release=False)],
    thorough=[dict(turns=0, until=9, release=True), dict(turns=25, until=0, release=True), dict(turns=25, until=0, release=False), dict(turns=0, until=9, release=False)],
    covers=("leading", "not yet leading", "in a request", "between requests"),
    bounds="an elector for a lease that is free, absent or held, cancelled after up to `turns` turns or at a real time up to `until`; requests "
    "take 2 turns, or 0.25 s each; with and without a release, which works or fails",
)
async def cancelled(sx, turns, until, release):
    draws(sx, 0)
    how = sx.choose("lease", ("absent", "free", "held"))
    lease = Lease(sx, dict(absent=None, free=dict(leaderTransitions=1), held=dict(holderIdentity="x", leaderTransitions=1, acquireTime=1, renewTime=1, leaseDurationSeconds=4))[how])
    busy = [False]
    down = [False]

    async def behave(what):
        busy[0] = True
        try:
            if down[0]:
                raise problem("down")
            if until:
                await asyncio.sleep(sx.exact("0.25"))
            else:
                await asyncio.sleep(0)
                await asyncio.sleep(0)
        finally:
            busy[0] = False

    e = Candidate(sx, lease, "e", behave, release_on_cancel=release, **TIMES)
    e.run()
    if until:
        await asyncio.sleep(sx.real("when", 0, until))
    else:
        await sx.ticks("turns", turns)
    led = e.leading
    sx.cover("leading" if led else "not yet leading")
    sx.cover("in a request" if busy[0] else "between requests")
    down[0] = release and sx.bool("release fails")
    at = sx.now()
    e.task.cancel()
    await asyncio.sleep(3)
    sx.check(e.task.done(), "running an elector does not end when it is cancelled")
    sx.check(e.task.cancelled(), f"a cancelled elector ends with {e.task.cancelled() or e.task.exception()!r}")
    if led:
        ended(sx, e, "a cancelled leader does not stop leading")
        sx.check(e.ended_at == at, "a cancelled leader leads on")
    sx.check(e.log.count("stopped") <= 1, "the stopped callback runs more than once")
    sx.check(e.log.count("started") == e.log.count("cancelled"), "a cancelled elector leaves the leading task behind")
    sx.check("started" not in e.log or "stopped" in e.log, "a cancelled leader does not say that it stopped leading")
    await asyncio.sleep(10)
    sx.check(not e.leading, "an elector leads after it was cancelled")


@harness(
    quick=dict(changes=3),
    thorough=dict(changes=4),
    covers=("another leader", "same leader again", "reported itself", "no holder", "no callback"),
    bounds="an elector for a lease that is absent or held; between its first attempts `changes` times the holder changes to one of x, y, nobody, or "
    "the same holder renews; then nobody renews, so that it takes over",
)
async def transitions(sx, changes):
    draws(sx, 0)
    lease = Lease(sx, None)
    names = dict(x="x", y="y", nobody="")
    seen = []

    def holder(i):
        how = sx.choose(f"holder{i}", tuple(names) + ("absent",) * (i == 0))
        if how == "absent":
            return
        lease.put("other", dict(holderIdentity=names[how], leaderTransitions=1, acquireTime=1, renewTime=i, leaseDurationSeconds=4))
        seen.append(names[how])

    holder(0)
    last = [0]

    async def behave(what):
        if what == "get" and not e.leading:
            last[0] += 1
            if 1 < last[0] <= changes and lease.holder() != "e":
                holder(last[0])

    e = Candidate(sx, lease, "e", behave, **TIMES)
    callback = sx.bool("callback")
    if not callback:
        sx.cover("no callback")
        c = e.elector._config
        from aiok8s.leaderelection import leaderelection

        e.elector = leaderelection.LeaderElector(c._replace(callbacks=c.callbacks._replace(on_new_leader=None)))
    e.run()
    await asyncio.sleep(changes * 2 + 12)
    sx.check(e.leading, "an elector never leads a lease that nobody renews")
    expected = []
    for s in seen + ["e"]:
        if s == "":
            sx.cover("no holder")
        elif expected and expected[-1] == s:
            sx.cover("same leader again")
        else:
            expected.append(s)
    if len(set(expected)) > 2:
        sx.cover("another leader")
    if callback:
        got = [l for l in e.leaders if l]
        sx.cover("reported itself")
        sx.check(without_repeats(expected, seen) is None or got == expected, f"reports leaders {got}, not {expected}")
        sx.check(all(a != b for a, b in zip(e.leaders, e.leaders[1:])), "reports a leader twice")
    await sx.finish(e.task)


def without_repeats(expected, seen):
    """Whether it is determined what is reported: a holder that comes back after nobody held may be reported again."""
    s = [None] + [x for x in seen]
    for a, b, c in zip(s, s[1:], s[2:]):
        if b == "" and a == c:
            return None
    return True


@harness(
    quick=[dict(most=30), dict(most=200)],
    thorough=dict(most=1000),
    covers=("all succeed", "get fails", "update fails", "hangs"),
    bounds="a leader (deadline 3 s, retry 1 s) of whose attempts to renew in the first `most` s every second or third fails at the read or the write, or hangs for a "
    "real time up to 0.9 s, or none; then it leads on for a real time up to 2 s until all fail or hang",
)
async def long_reign(sx, most):
    draws(sx, 0)
    how = sx.choose("how", ("all succeed", "get fails", "update fails", "hangs"))
    sx.cover(how)
    every = sx.choose("every", (2, 3)) if how != "all succeed" else 1
    slow = sx.real("slow", 0, sx.exact("0.9")) if how == "hangs" else 0
    lease = Lease(sx)
    t = Tries(sx)
    n, down = [0], [False]
    finally_hangs = sx.bool("hangs")

    async def behave(what):
        if what == "get":
            t.get()
            n[0] += 1
            if n[0] == 1:
                return
        elif n[0] == 1:
            return t.done()
        if down[0]:
            if finally_hangs:
                await asyncio.Event().wait()
            raise failure(n[0], what)
        if how != "all succeed" and n[0] % every == 0:
            if how == "hangs":
                if n[0] < 6 and what == "get":
                    await asyncio.sleep(slow)
            elif how == f"{what} fails":
                raise failure(n[0] // every, what)
        if what == "update":
            t.done()

    e = Candidate(sx, lease, "e", behave, lease_duration=5, renew_deadline=3, retry_period=1)
    e.run()
    await sx.settle()
    for i in range(most // 5):
        tries, wrote = n[0], len(lease.writes)
        await asyncio.sleep(5)
        sx.check(e.log == ["started"] and not e.task.done(), "a leader stops leading although its renewals succeed")
        sx.check(3 <= n[0] - tries <= 10, "a leader does not renew about every retry period")
        sx.check(len(lease.writes) > wrote, "a leader does not renew about every retry period")
    await asyncio.sleep(sx.real("more", 0, 2))
    down[0] = True
    await asyncio.sleep(3 + 4)
    ended(sx, e, "a leader that cannot renew does not stop leading")
    start, end = t.ok[-1]
    sx.check(e.ended_at <= end + 3, "a leader that cannot renew leads beyond the renew deadline")
    sx.check(e.ended_at >= start + 3, "a leader stops leading before the renew deadline")
