"""Each reconcile outcome has its one effect on the queue; a worker survives all."""

import asyncio
import logging

from aiok8s.controller import controller, reconcile
from props.faults import failure
from symx.harness import harness

logging.getLogger("aiok8s").setLevel(logging.CRITICAL + 1)


class Failure(Exception):
    pass


class Cache:
    async def wait_for_cache_sync(self):
        return True


class Manager:
    """What a controller needs of its manager."""

    def __init__(self, cache=None):
        self.cache = cache or Cache()
        self.runnables = []

    def get_cache(self):
        return self.cache

    def set_fields(self, i):
        if hasattr(i, "inject_func"):
            i.inject_func(self.set_fields)

    def add(self, runnable):
        self.set_fields(runnable)
        self.runnables.append(runnable)


class Source:
    """Captures the controller's queue."""

    queue = None
    error = None

    async def start(self, handler, queue, *predicates):
        self.queue = queue
        if self.error is not None:
            raise self.error


KINDS = ("success", "error", "requeue", "after", "both")


def request(name, namespace="ns"):
    return reconcile.Request(reconcile.NamespacedName(namespace=namespace, name=name))


async def running(sx, reconciler, workers=1, cache=None):
    c = controller.new(Manager(cache), reconciler=reconciler)
    c.max_concurrent_reconciles = workers
    source = Source()
    await c.watch(source, object())
    t = sx.spawn(c.start())
    await sx.settle()
    return c, t, source.queue


def some_outcome(sx, name, kinds):
    """An outcome: its kind, what to return (or None to raise), and the delay asked for."""
    kind = sx.choose(name, kinds)
    if kind == "error":
        return kind, None, None
    if kind == "requeue":
        return kind, reconcile.Result(requeue=True), None
    if kind in ("after", "both"):
        d = sx.real(f"{name}.after", 0, 3, open_lo=True)
        return kind, reconcile.Result(requeue_after=d, requeue=kind == "both"), d
    return kind, reconcile.Result(), None


@harness(
    quick=[dict(outcomes=2, busy=2, extra=True, kinds=KINDS), dict(outcomes=3, busy=0, extra=True, kinds=KINDS),
           dict(outcomes=7, busy=0, extra=False, kinds=("success", "requeue", "after"))],
    thorough=[dict(outcomes=3, busy=2, extra=True, kinds=KINDS), dict(outcomes=5, busy=0, extra=False, kinds=KINDS),
              dict(outcomes=9, busy=0, extra=False, kinds=("success", "requeue", "after"))],
    covers=("success", "error", "requeue", "after", "both", "event during a reconcile", "event between", "backoff grows", "backoff reset"),
    bounds="one request, `outcomes` outcomes of any of `kinds` (then success), requeue times real up to 3 s, reconciles that take a "
    "real time up to `busy`, one more event for the request at a real time up to 4 s, no two of these at the very same instant",
)
async def outcomes(sx, outcomes, busy, extra, kinds):
    log = []
    running_now = [0]

    class R:
        async def reconcile(self, r):
            sx.check(r == request("x"), "another request is reconciled")
            n = len(log)
            rec = [sx.now(), None, None]
            log.append(rec)
            sx.check(running_now[0] == 0, "a request is reconciled twice at once")
            running_now[0] += 1
            try:
                if n < 2 and busy:
                    await asyncio.sleep(sx.real(f"busy{n}", 0, busy))
                o = some_outcome(sx, f"outcome{n}", kinds) if n < outcomes else ("success", reconcile.Result(), None)
                rec[1], rec[2] = sx.now(), o
                sx.cover(o[0])
                if o[1] is None:
                    raise failure(n)
                return o[1]
            finally:
                running_now[0] -= 1

    c, t, queue = await running(sx, R())
    start = sx.now()
    await queue.add(request("x"))
    event = None
    if extra and sx.bool("event"):
        await asyncio.sleep(sx.real("event_at", 0, 4, open_lo=True))
        event = sx.now()
        await queue.add(request("x"))
    await asyncio.sleep(20 + 3 * outcomes)
    sx.check(not t.done(), "the controller ends by itself")
    # What should have happened.
    adds = [start] + ([event] if event is not None else [])
    delayed, failures, free, k = None, 0, start, 0
    while True:
        if event is not None and delayed is not None:
            sx.assume(event != delayed)
        due = [a for a in adds] + ([delayed] if delayed is not None else [])
        if not due:
            break
        first = due[0]
        for d in due[1:]:
            if d < first:
                first = d
        at = first if first >= free else free
        sx.check(k < len(log), "a request that is due is not reconciled")
        if event is not None and event != first:
            sx.assume(event != at)
        sx.check(log[k][0] == at, "a reconcile is early or late")
        if event is not None and k > 0 and first == event:
            sx.cover("event between" if event == at else "event during a reconcile")
        adds = [a for a in adds if not a <= at]
        if delayed is not None and delayed <= at:
            delayed = None
        end, (kind, _, d) = log[k][1:]
        free = end
        again = None
        if kind in ("error", "requeue"):
            again = end + sx.exact(0.005) * 2**failures
            if failures:
                sx.cover("backoff grows")
            failures += 1
            if kind == "error":
                free = end + 1
        else:
            if failures:
                sx.cover("backoff reset")
            failures = 0
            if d is not None:
                again = end + d
        if delayed is not None:
            sx.assume(delayed != end)
        if delayed is not None and delayed <= end:
            # Came back while it was being reconciled.
            adds.append(delayed)
            delayed = None
        if again is not None and (delayed is None or again < delayed):
            delayed = again
        k += 1
    sx.check(k == len(log), "a request is reconciled although nothing asked for it")
    sx.obs("starts", [r[0] for r in log])
    await sx.finish(t)
    sx.check(queue.shutting_down(), "a stopped controller does not shut its queue down")


@harness(
    quick=[dict(events=3, workers=2, turns=2)],
    thorough=[dict(events=4, workers=3, turns=4)],
    covers=("same request meanwhile", "at once", "not a request", "failure"),
    bounds="`workers` workers, `events` events for requests of arbitrary equality (the second may be something that is no "
    "request) at arbitrary turns up to `turns`, the first reconcile takes a second or an arbitrary number of turns and may fail",
)
async def workers(sx, events, workers, turns):
    active, log = [], []
    bad = "no request"

    class R:
        async def reconcile(self, r):
            sx.check(isinstance(r, reconcile.Request), "something else than a request is reconciled")
            n = len(log)
            log.append([r, len(added)])
            for a in active:
                sx.check(a != r, "a request is reconciled twice at once")
                sx.cover("at once")
            active.append(r)
            try:
                if n == 0 and sx.bool("slow"):
                    await asyncio.sleep(1)
                else:
                    await sx.ticks(f"busy{n}", 3 if n < 2 else 0)
                if n == 0 and sx.bool("fails"):
                    sx.cover("failure")
                    raise failure(0)
                return reconcile.Result()
            finally:
                active.remove(r)

    added = []
    c, t, queue = await running(sx, R(), workers)
    for i in range(events):
        if i == 1 and sx.bool("bad"):
            sx.cover("not a request")
            await queue.add(bad)
        else:
            r = request(sx.atom(f"name{i}", 2))
            added.append(r)
            if any(a == r for a in active):
                sx.cover("same request meanwhile")
            await queue.add(r)
        await sx.ticks(f"turn{i}", turns)
    await asyncio.sleep(10)
    sx.check(not t.done(), "the controller ends by itself")
    sx.check(not active, "a reconcile is stuck")
    for k, r in enumerate(added):
        # A reconcile of it began after it was added.
        sx.check(any(x == r and n > k for x, n in log), "an event was not followed by a reconcile")
    sx.check(len(log) <= len(added) + 1, "too many reconciles")
    await sx.finish(t)
    sx.check(queue.shutting_down(), "a stopped controller does not shut its queue down")


@harness(
    quick=dict(turns=7),
    thorough=dict(turns=12),
    covers=("during a reconcile", "idle", "before the caches are synced", "source fails", "no sync"),
    bounds="a controller cancelled at an arbitrary turn up to `turns` after its start or one second later, with two requests and "
    "a reconcile that takes a while; a source whose start fails; caches that cannot be synced or take a second",
)
async def stopping(sx, turns):
    how = sx.choose("how", ("cancel", "source", "sync", "slow sync"))
    log = []

    class SlowCache:
        async def wait_for_cache_sync(self):
            if how == "slow sync":
                await asyncio.sleep(1)
            return how != "sync"

    class R:
        async def reconcile(self, r):
            log.append(r)
            sx.check(how != "slow sync" or sx.now() >= start + 1, "a reconcile begins before the caches are synced")
            # What runs at the very instant of the cancellation may come before it.
            late = cancelled and (interrupted or t.done() or sx.now() > cancelled[0])
            sx.check(not late, "a reconcile begins after the controller was cancelled")
            try:
                await asyncio.sleep(2)
            except asyncio.CancelledError:
                interrupted.append(r)
                raise
            return reconcile.Result()

    cancelled, interrupted = [], []
    start = sx.now()
    c = controller.new(Manager(SlowCache()), reconciler=R())
    source = Source()
    await c.watch(source, object())
    error = None
    if how == "source":
        source.error = error = Failure("source")
    t = sx.spawn(c.start())
    if how in ("source", "sync"):
        await sx.settle()
        sx.check(t.done() and t.exception() is not None, "a failed start is not reported")
        sx.check(error is None or t.exception() is error, "the error of a source is not reported")
        sx.cover("source fails" if error else "no sync")
    else:
        await asyncio.sleep(0)
        await asyncio.sleep(0)
        if source.queue is not None:
            await source.queue.add(request("a"))
            await source.queue.add(request("b"))
        await sx.ticks("cancel", turns)
        if sx.bool("later"):
            await asyncio.sleep(sx.real("later_by", 0, 6))
        if how == "slow sync" and sx.now() < start + 1:
            sx.cover("before the caches are synced")
        n = len(log)
        sx.cover("during a reconcile" if n == 1 else "idle")
        cancelled.append(sx.now())
        t.cancel()
        await asyncio.sleep(10)
        sx.check(t.cancelled(), "a cancelled controller does not end")
    sx.check(source.queue is None or source.queue.shutting_down(), "a stopped controller does not shut its queue down")


@harness(
    quick=dict(first=2),
    thorough=dict(first=3),
    covers=("no result", "another result", "failure", "success", "event during the reconcile"),
    bounds="the first `first` reconciles of a request return nothing, return something that is no result, fail or succeed, each after a second or at once; "
    "an event for it comes during the first reconcile or not, and one for it and one for another request 5 s later",
)
async def strange_results(sx, first):
    log, busy = [], []

    class R:
        async def reconcile(self, r):
            sx.check(r not in busy, "a request is reconciled twice at once")
            busy.append(r)
            log.append(r)
            try:
                if sx.bool(f"slow{len(log)}") if len(log) <= first else False:
                    await asyncio.sleep(1)
                how = sx.choose(f"how{len(log)}", ("no result", "another result", "failure", "success")) if len(log) <= first else "success"
                sx.cover(how)
                if how == "failure":
                    raise Failure()
                return {"no result": None, "another result": "done"}.get(how, reconcile.Result())
            finally:
                busy.remove(r)

    c, t, queue = await running(sx, R())
    await queue.add(request("x"))
    await sx.settle()
    if sx.bool("event"):
        if busy:
            sx.cover("event during the reconcile")
        n = len(log)
        await queue.add(request("x"))
        await asyncio.sleep(4)
        sx.check(len(log) > n, "an event is not followed by a reconcile")
    await asyncio.sleep(5)
    n = len(log)
    await queue.add(request("x"))
    await queue.add(request("y"))
    await asyncio.sleep(5)
    sx.check(not t.done(), "the controller ends by itself")
    sx.check(request("x") in log[n:] and request("y") in log[n:], "a worker does not go on")
    await sx.finish(t)


@harness(
    quick=dict(most=32),
    thorough=dict(most=120),
    covers=("error", "requeue", "turns", "most failures", "event before the last attempt", "fails again later"),
    bounds="a request fails 15, 18 or `most` times in a row, by errors (of either class, by turns), by asking for a requeue, or "
    "both by turns, the last of these attempts taking a real time of up to 5 s; then it succeeds, maybe after an event at a real time "
    "before its last attempt is due; it fails or asks for a requeue once more a real time of 2 to 12 s later",
)
async def persistent(sx, most):
    kind = sx.choose("kind", ("error", "requeue", "turns"))
    failures = sx.choose("failures", (15, 18, most))
    if failures == most:
        sx.cover("most failures")
    sx.cover(kind)
    busy = sx.real("busy", 0, 5)
    log = []  # (start, end, whether the worker pauses afterwards)

    class R:
        async def reconcile(self, r):
            n = len(log)
            rec = [sx.now(), None, False]
            log.append(rec)
            if n == failures - 1:
                await asyncio.sleep(busy)
            rec[1] = sx.now()
            if fails_at(n):
                if kind == "error" or kind == "turns" and n % 2:
                    rec[2] = True
                    raise failure(n // 2)
                return reconcile.Result(requeue=True)
            return reconcile.Result()

    late = None

    def fails_at(n):
        return n < failures or n == late

    c, t, queue = await running(sx, R())
    await queue.add(request("x"))
    await sx.settle()
    for n in range(failures):
        sx.check(len(log) == n + 1, "an attempt is missing, or one too many")
        if log[n][1] is None:
            await asyncio.sleep(busy)
            await sx.settle()
        end, pauses = log[n][1], log[n][2]
        wait = min(sx.exact(0.005) * 2**min(n, 30), 1000)
        if pauses and wait < 1:
            wait = 1
        if n == failures - 1 and sx.bool("event"):
            d = sx.real("event_at", 0, 1, open_lo=True)
            sx.assume(d < 1)
            at = end + (1 + d if wait > 2 else d * wait)
            sx.assume(at > sx.now())
            if not pauses or at >= end + 1:
                sx.cover("event before the last attempt")
                await asyncio.sleep(at - sx.now())
                await queue.add(request("x"))
                await sx.settle()
                sx.check(len(log) == n + 2 and log[-1][0] == at, "an event before the next attempt is not followed by a reconcile")
        if end + wait > sx.now():
            await asyncio.sleep(end + wait - sx.now())
        await sx.settle()
        sx.check(log[-1][0] == end + wait, "an attempt comes early or late")
    # It has succeeded, and is left alone until the next event.
    count = len(log)
    await asyncio.sleep(sx.real("later", 2, 12))
    sx.check(len(log) == count, "a request is reconciled although nothing asked for it")
    late = count
    await queue.add(request("x"))
    await sx.settle()
    if log[-1][2]:
        sx.cover("fails again later")
    wait = 1 if log[-1][2] else sx.exact(0.005)
    await asyncio.sleep(wait)
    await sx.settle()
    sx.check(len(log) == count + 2 and log[-1][0] == log[-2][1] + wait, "the failures of before still count after a success")
    await asyncio.sleep(30)
    sx.check(len(log) == count + 2, "a request is reconciled although nothing asked for it")
    sx.obs("attempts", len(log))
    await sx.finish(t)


@harness(
    quick=dict(requests=120),
    thorough=dict(requests=1000),
    covers=("error", "no result", "requeue", "one worker", "two workers"),
    bounds="`requests` requests whose first reconciles all fail (each with an error of either class, by turns), give no result or ask for a requeue, for one or two workers; then one takes "
    "1, 20, 60, 600, 3600 or 36000 s",
)
async def many(sx, requests):
    kind = sx.choose("kind", ("error", "no result", "requeue"))
    workers = sx.choose("workers", (1, 2))
    sx.cover(kind)
    sx.cover(("one worker", "two workers")[workers - 1])
    seen, stopped, slow = {}, [], request("slow")
    takes = sx.choose("takes", (1, 20, 60, 600, 3600, 36000))

    class R:
        async def reconcile(self, r):
            seen[r] = seen.get(r, 0) + 1
            if r == slow:
                try:
                    await asyncio.sleep(takes)
                except BaseException:
                    stopped.append(r)
                    raise
                return reconcile.Result()
            if seen[r] == 1:
                if kind == "error":
                    raise failure(len(seen))
                return reconcile.Result(requeue=True) if kind == "requeue" else None
            return reconcile.Result()

    c, t, queue = await running(sx, R(), workers)
    for i in range(requests):
        await queue.add(request(f"r{i}"))
    await asyncio.sleep(2 * requests + 10)
    sx.check(not t.done(), "the controller ends by itself")
    for i in range(requests):
        n = seen.get(request(f"r{i}"), 0)
        sx.check(n == (1 if kind == "no result" else 2), "a request is not reconciled again after it failed, or too often")
    await queue.add(slow)
    await asyncio.sleep(takes)
    await sx.settle()
    sx.check(not stopped, "a reconcile is given up while it goes on")
    await asyncio.sleep(30)
    sx.check(seen[slow] == 1, "a request is reconciled although nothing asked for it")
    await queue.add(request("after"))
    await sx.settle()
    sx.check(request("after") in seen, "a worker does not go on")
    sx.check(not t.done(), "the controller ends by itself")
    sx.obs("seen", sorted(seen.values()))
    await sx.finish(t)
