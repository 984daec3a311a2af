"""Combined limiters and rate-limited requeueing."""

import asyncio

from aiok8s.workqueue import default_rate_limiters, rate_limiting_queue
from symx.harness import harness


class Member:
    """A limiter whose answers are arbitrary."""

    def __init__(self, sx, name, most):
        self.sx, self.name, self.most = sx, name, most
        self.calls = []

    def when(self, item):
        d = self.sx.real(f"{self.name}.when", 0, self.most)
        self.calls.append(("when", item, d))
        return d

    def forget(self, item):
        self.calls.append(("forget", item, None))

    def num_requeues(self, item):
        n = self.sx.int(f"{self.name}.count", 0, 10)
        self.calls.append(("count", item, n))
        return n


@harness(
    quick=dict(ops=3, members=3),
    thorough=dict(ops=5, members=3),
    covers=("when", "forget", "count"),
    bounds="every history of `ops` calls on a combination of 1 to `members` limiters that answer arbitrarily",
)
async def combination(sx, ops, members):
    ms = [Member(sx, f"m{i}", 100) for i in range(sx.choose("members", range(1, members + 1)))]
    limiter = default_rate_limiters._MaxOfRateLimiters(*ms)
    for i in range(ops):
        op = sx.choose(f"op{i}", ("when", "forget", "count"))
        item = f"item{i % 2}"
        if op == "when":
            r = limiter.when(item)
        elif op == "forget":
            r = limiter.forget(item)
        else:
            r = limiter.num_requeues(item)
        for m in ms:
            sx.check(len(m.calls) == i + 1, "a member was not asked exactly once")
            sx.check(m.calls[-1][:2] == (op, item), "a member was asked something else")
        if op != "forget":
            answers = [m.calls[-1][2] for m in ms]
            sx.check(sx.And(*[r >= a for a in answers]), "less than a member's answer")
            sx.check(sx.Or(*[r == a for a in answers]), "no member's answer")
            sx.obs("answer", r)
        sx.cover(op)


@harness(
    quick=dict(ops=4),
    thorough=dict(ops=5),
    covers=("delayed", "immediate", "forgot", "counted"),
    bounds="every history of `ops` rate-limited additions of two items, forgets and counts, with arbitrary "
    "real delays in [0, 3] and waits in between",
)
async def queue_uses_limiter(sx, ops):
    m = Member(sx, "m", 3)
    q = rate_limiting_queue.new(m)
    got = []

    async def sink():
        while True:
            item, _ = await q.get()
            got.append((item, sx.now()))
            sx.obs("got", item, sx.now())
            await q.done(item)

    task = sx.spawn(sink())
    want = 0
    for i in range(ops):
        op = sx.choose(f"op{i}", ("add", "forget", "count"))
        item = sx.choose(f"item{i}", ("a", "b"))
        if op == "add":
            t = sx.spawn(q.add_rate_limited(item))
            start = sx.now()
            await sx.settle()
            sx.done_result(t, "add_rate_limited")
            sx.check(m.calls[-1][:2] == ("when", item), "the limiter was not asked")
            due = start + m.calls[-1][2]
            want += 1
            await asyncio.sleep(4)
            sx.check(len(got) == want and got[-1][0] == item, "the item did not come back once")
            sx.check(got[-1][1] == due, "the item did not come back after the limiter's delay")
            sx.cover("delayed" if due > start else "immediate")
        elif op == "forget":
            q.forget(item)
            sx.check(m.calls[-1][:2] == ("forget", item), "the limiter did not forget")
            sx.cover("forgot")
        else:
            n = q.num_requeues(item)
            sx.check(m.calls[-1][:2] == ("count", item), "the limiter was not asked")
            sx.check(n == m.calls[-1][2], "wrong count")
            sx.cover("counted")
        sx.check(len(m.calls) == i + 1, "the limiter was asked too often")
    await sx.finish(task)


def near(sx, a, b):
    return sx.And(a - b < 1e-6, b - a < 1e-6)


def reference(sx, limiter):
    """The default controller limiter, written out."""
    counts, tat = {}, [None]

    def request(item):
        now = sx.now()
        tat[0] = now if tat[0] is None else max(tat[0], now)
        bucket = max(0, tat[0] - now - 99 / 10)
        tat[0] = tat[0] + 1 / 10
        own = min(0.005 * 2 ** counts.get(item, 0), 1000)
        counts[item] = counts.get(item, 0) + 1
        sx.check(near(sx, limiter.when(item), max(own, bucket)), "wrong delay")
        sx.check(limiter.num_requeues(item) == counts[item], "wrong requeue count")

    def forget(item):
        limiter.forget(item)
        counts.pop(item, None)
        sx.check(limiter.num_requeues(item) == 0, "not forgotten")

    return request, forget


@harness(
    quick=dict(items=2, calls=6),
    thorough=dict(items=3, calls=7),
    covers=("forgot",),
    bounds="the default controller limiter: every history of `calls` requests and forgets over `items` items",
)
async def controller_default(sx, items, calls):
    request, forget = reference(sx, default_rate_limiters.default_controller_rate_limiter())
    for i in range(calls):
        item = f"item{sx.choose(f'item{i}', range(items if i else 1))}"
        if i >= 2 and sx.bool(f"forget{i}"):
            forget(item)
            sx.cover("forgot")
        else:
            request(item)


@harness(
    quick=dict(more=25),
    covers=(),
    bounds="the default controller limiter: 20 failures of one item, an integer wait of 0 to 100 s, then "
    "100 + `more` requests at one instant",
)
async def controller_default_burst(sx, more):
    request, _ = reference(sx, default_rate_limiters.default_controller_rate_limiter())
    for _ in range(20):
        request("again")
    await asyncio.sleep(sx.choose("wait", (0, 1, 100)))
    for n in range(100 + more):
        request(f"burst{n}")


@harness(
    quick=dict(kind="queue"),
    bounds="a queue made without a limiter uses the default one: 12 rate-limited additions of one item",
)
async def default_queue(sx, kind):
    q = rate_limiting_queue.new()
    for i in range(12):
        start = sx.now()
        await q.add_rate_limited("a")
        sx.check(q.num_requeues("a") == i + 1, "wrong requeue count")
        item, _ = await q.get()
        await q.done(item)
        sx.check(near(sx, sx.now() - start, 0.005 * 2**i), "wrong delay")
    q.forget("a")
    sx.check(q.num_requeues("a") == 0, "not forgotten")
    start = sx.now()
    await q.add_rate_limited("a")
    await q.get()
    sx.check(near(sx, sx.now() - start, 0.005), "not reset by forget")


@harness(
    quick=dict(ops=4),
    thorough=dict(ops=5),
    covers=("both",),
    bounds="two queues made without a limiter: every history of `ops` rate-limited additions and forgets of one item, "
    "each on either queue",
)
async def separate_queues(sx, ops):
    queues = [rate_limiting_queue.new() for _ in range(2)]
    failures = [0, 0]
    for i in range(ops):
        n = sx.choose(f"queue{i}", range(2)) if i else 0
        if sx.bool(f"forget{i}"):
            queues[n].forget("a")
            failures[n] = 0
        else:
            start = sx.now()
            await queues[n].add_rate_limited("a")
            await queues[n].get()
            sx.check(near(sx, sx.now() - start, 0.005 * 2 ** failures[n]), "wrong delay")
            await queues[n].done("a")
            failures[n] += 1
        for q, f in zip(queues, failures):
            sx.check(q.num_requeues("a") == f, "a queue's count depends on another queue")
        if all(failures):
            sx.cover("both")
