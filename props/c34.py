"""The lease record keeps true holder, acquire time and transition count."""

import asyncio
import time

from props.c31 import TIMES, draws
from props.lease import Candidate, Failed, Lease
from symx.harness import harness


def judge(sx, lease, starts=None):
    """Checks every write of an elector against the record it replaced."""
    released = False
    for (at, writer, before, record), wall in zip(lease.writes, lease.clock):
        if writer == "other":
            continue
        was = (before or {}).get("holderIdentity")
        count = (before or {}).get("leaderTransitions", 0)
        if not record.get("holderIdentity"):
            sx.cover("released")
            sx.check(was == writer, "a lease is released by somebody who does not hold it")
            sx.check(record.get("leaderTransitions", 0) == count, "a release changes the transition count")
            continue
        sx.check(record["holderIdentity"] == writer, "an elector writes somebody else as the holder")
        sx.check(record["renewTime"] <= wall, "a renew time in the future")
        sx.check(record["renewTime"] >= wall - 2, "an old renew time")
        sx.check(record["leaseDurationSeconds"] == 4, "another lease duration than configured")
        if before is None:
            sx.cover("created")
            sx.check(record["leaderTransitions"] == 0, "a new lease does not start with no transitions")
            sx.check(record["acquireTime"] == record["renewTime"], "a lease acquired at another time than recorded")
        elif was == writer:
            sx.cover("renewed")
            sx.check(record["leaderTransitions"] == count, "a renewal changes the transition count")
            if "acquireTime" in before:
                sx.check(record["acquireTime"] == before["acquireTime"], "a renewal changes the acquire time")
        else:
            sx.cover("taken over")
            sx.check(record["leaderTransitions"] == count + 1, "taking over does not count one transition")
            sx.check(record["acquireTime"] == record["renewTime"], "a lease acquired at another time than recorded")


@harness(
    quick=dict(renewals=2),
    thorough=dict(renewals=6),
    covers=("created", "renewed", "taken over", "released", "found its own", "no count found"),
    bounds="any record found: absent, or held by nobody (no holder or an empty one), somebody else or the elector itself, with any count of transitions or none, any "
    "acquire time or none; the elector leads for `renewals` retry periods, each request takes a real time up to 0.5 s, is then cancelled at a real time when no request is "
    "under way, with and without a release",
)
async def found(sx, renewals):
    draws(sx, 0)
    how = sx.choose("holder", ("nobody", "empty", "x", "e", "absent"))
    record = None
    if how != "absent":
        record = dict(renewTime=1)
        if how != "nobody":
            record["holderIdentity"] = dict(empty="", x="x", e="e")[how]
        if sx.bool("counted"):
            record["leaderTransitions"] = sx.int("count", 0)
        else:
            sx.cover("no count found")
        if sx.bool("acquired"):
            record["acquireTime"] = sx.real("acquired", 0)
        if how == "e":
            sx.cover("found its own")
    lease = Lease(sx, record)
    busy = [0]
    n = [0]

    async def behave(what):
        busy[0] += 1
        n[0] += 1
        if n[0] <= 2:
            await asyncio.sleep(sx.real(f"latency{n[0]}", 0, sx.exact("0.5")))
        busy[0] -= 1

    release = sx.bool("release")
    e = Candidate(sx, lease, "e", behave, release_on_cancel=release, **TIMES)
    e.run()
    await asyncio.sleep(8 if how == "x" else 2)
    await asyncio.sleep(renewals + sx.real("until", 0, 1))
    sx.check(e.leading, "an elector does not lead")
    if busy[0]:
        return await sx.finish(e.task)
    writes = len(lease.writes)
    sx.check(writes > renewals, "a leader does not renew")
    await sx.finish(e.task)
    sx.check(not e.leading, "a cancelled leader leads on")
    if release:
        sx.check(len(lease.writes) == writes + 1 and not lease.holder(), "a cancelled leader does not release the lease")
    else:
        sx.check(len(lease.writes) == writes, "a cancelled leader writes although it is not to release")
    judge(sx, lease)
    sx.obs("counts", [w[3].get("leaderTransitions") for w in lease.writes])


@harness(
    quick=[dict(ops=5, release=True), dict(ops=4, release=False)],
    thorough=[dict(ops=6, release=True), dict(ops=5, release=False)],
    covers=("created", "renewed", "taken over", "taken at once", "back again"),
    bounds="two electors, with and without a release: every sequence of `ops` of: start one, cancel one, somebody else takes the lease, 1.7 or 9.3 s pass",
)
async def histories(sx, ops, release):
    draws(sx, 0)
    lease = Lease(sx)
    running = {}
    leaders = []
    freed = [None]
    for i in range(ops):
        op = sx.choose(f"op{i}", ("a", "b", "1.7", "9.3", "other"))
        if op in ("a", "b"):
            if op in running:
                e = running.pop(op)
                mine = lambda: sum(w[1] == op for w in lease.writes)
                writes = mine()
                led = e.leading
                held = lease.holder() == op
                await sx.finish(e.task)
                if release and held and led:
                    sx.check(lease.writes[-1][1] != op or not lease.holder(), "a cancelled leader does not release the lease")
                    freed[0] = sx.now()
                elif not held:
                    sx.check(mine() == writes, "an elector that does not hold the lease writes when it is cancelled")
            else:
                running[op] = Candidate(sx, lease, op, None, release_on_cancel=release, **TIMES)
                running[op].run()
                await sx.settle()
        elif op == "other":
            if lease.record is None:
                return await sx.finish(*(e.task for e in running.values()))
            lease.put("other", dict(lease.record, holderIdentity="other", leaderTransitions=lease.record.get("leaderTransitions", 0) + 1))
            freed[0] = None
        else:
            await asyncio.sleep(sx.exact(op))
            if freed[0] is not None:
                fresh = [e for e in running.values() if not e.task.done()]
                if fresh:
                    sx.cover("taken at once")
                    sx.check(lease.holder() in running, "a released lease is not taken at once")
                freed[0] = None
        for k in list(running):
            if running[k].task.done():
                running.pop(k)
        if lease.holder() and lease.holder() != "other":
            if lease.holder() not in leaders[-1:]:
                leaders.append(lease.holder())
            if leaders.count(lease.holder()) > 1:
                sx.cover("back again")
    await sx.finish(*(e.task for e in running.values()))
    judge(sx, lease)


@harness(
    quick=dict(renewals=150),
    thorough=dict(renewals=1500),
    covers=("found", "created"),
    bounds="an elector that creates the lease, or takes over a free one with any count of transitions or none, and renews it `renewals` times; then it is cancelled, with or without a release, and another takes over",
)
async def long(sx, renewals):
    draws(sx, 0)
    record = None
    if sx.bool("found"):
        sx.cover("found")
        record = dict(renewTime=1, holderIdentity="", acquireTime=1)
        if sx.bool("counted"):
            record["leaderTransitions"] = sx.int("count", 0)
    else:
        sx.cover("created")
    lease = Lease(sx, record)
    release = sx.bool("release")
    a = Candidate(sx, lease, "a", None, release_on_cancel=release, **TIMES)
    a.run()
    await asyncio.sleep(renewals * TIMES["retry_period"] + sx.exact("0.5"))
    sx.check(a.leading, "a leader stops leading although its renewals succeed")
    sx.check(len(lease.writes) >= renewals, "a leader does not renew")
    first = lease.writes[0][3]
    for _, writer, _, r in lease.writes:
        sx.check(r["acquireTime"] == first["acquireTime"] and r["leaderTransitions"] == first["leaderTransitions"], "a renewal changes the acquire time or the count")
    await sx.finish(a.task)
    b = Candidate(sx, lease, "b", None, release_on_cancel=release, **TIMES)
    b.run()
    await asyncio.sleep(9)
    sx.check(b.leading, "nobody takes over")
    judge(sx, lease)
    sx.check(lease.record["leaderTransitions"] == first["leaderTransitions"] + 1, "taking over does not count one transition")
    await sx.finish(b.task)
