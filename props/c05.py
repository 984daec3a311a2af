"""The token bucket: rate bound, order, minimal delays."""

import asyncio

from aiok8s.workqueue import default_rate_limiters
from symx.harness import harness


@harness(
    quick=[dict(calls=6, burst=b, limit=r) for b, r in ((1, 2), (2, 1), (3, 10), (2, 0.5))],
    thorough=[dict(calls=10, burst=b, limit=r) for b, r in ((1, 2), (2, 1), (3, 10), (5, 3), (4, 0.25))],
    covers=("delayed", "not delayed", "refilled"),
    bounds="`calls` requests with arbitrary real gaps in [0, 5 s], the given rates and bucket sizes",
)
async def windows(sx, calls, burst, limit):
    limit = sx.exact(limit)
    limiter = default_rate_limiters.BucketRateLimiter(limit, burst)
    # Reference: the generic cell rate algorithm, exact.  `tat` is the instant at
    # which the bucket is full again.
    tat = None
    grants = []
    for i in range(calls):
        if i:
            await asyncio.sleep(sx.real(f"gap{i}", 0, 5))
        now = sx.now()
        d = limiter.when(sx.atom(f"item{i}"))
        sx.check(d >= 0, "negative delay")
        grant = now + d
        tat = now if tat is None else sx.Ite(tat > now, tat, now)
        if i == calls - 1 and tat == now:
            sx.cover("refilled")
        wait = tat - now - (burst - 1) * (1 / limit)
        want = sx.Ite(wait > 0, wait, 0)
        tat = tat + 1 / limit
        sx.check(d == want, "not the least delay the rate allows")
        sx.cover("delayed" if d > 0 else "not delayed")
        if grants:
            sx.check(grant >= grants[-1], "a later request was granted earlier")
        grants.append(grant)
        # n + 1 grants in the window [g, grant].
        sx.check(
            sx.And(*[n + 1 <= burst + limit * (grant - g) for n, g in enumerate(reversed(grants))]),
            "more than burst + limit * T in a window",
        )
        sx.obs("grants", now, d)
        sx.check(limiter.num_requeues(f"item{i}") == 0, "requeue count of a bucket")
        if i % 2:
            limiter.forget(f"item{i}")


@harness(
    quick=dict(calls=4),
    thorough=dict(calls=5),
    covers=("bound met",),
    bounds="`calls` requests at one or two instants, every real rate in [1/1024, 1000] and bucket size in 1..3",
)
async def any_rate(sx, calls):
    limit = sx.real("limit", 0.0009765625, 1000)
    burst = sx.choose("burst", (1, 2, 3))
    limiter = default_rate_limiters.BucketRateLimiter(limit, burst)
    first = sx.choose("first", range(1, calls + 1))
    for i in range(calls):
        if i == first:
            # By then the bucket has filled up again.
            await asyncio.sleep(sx.choose("gap", (1, 2)) * (burst + calls) / limit)
        n = i if i < first else i - first
        d = limiter.when("x")
        want = sx.Ite(n + 1 - burst > 0, (n + 1 - burst) / limit, 0)
        sx.check(d == want, "wrong delay")
        if n + 1 > burst:
            sx.cover("bound met")


@harness(
    quick=dict(),
    covers=("rejected", "accepted"),
    bounds="every real rate and integer bucket size",
)
async def configuration(sx):
    limit, burst = sx.real("limit", -10, 10), sx.int("burst", -10, 10)
    try:
        default_rate_limiters.BucketRateLimiter(limit, burst)
        ok = True
        sx.cover("accepted")
    except ValueError:
        ok = False
        sx.cover("rejected")
    sx.check(sx.And(limit > 0, burst >= 1) == ok, "wrong configurations accepted or rejected")


@harness(
    quick=dict(calls=1200),
    thorough=dict(calls=6000),
    covers=("far behind",),
    bounds="`calls` requests at once and, after an arbitrary real time up to 100 s, three more; rates of 8 or 1/2 per second, bucket sizes of 1 or 100",
)
async def backlog(sx, calls):
    limit, burst = sx.choose("limit", (8, 0.5)), sx.choose("burst", (1, 100))
    limiter = default_rate_limiters.BucketRateLimiter(limit, burst)
    for n in range(calls):
        d = limiter.when("x")
        sx.check(d == max((n + 1 - burst) / limit, 0), "not the least delay the rate allows")
    sx.cover("far behind")
    gap = sx.real("gap", 0, 100)
    await asyncio.sleep(gap)
    for n in range(calls, calls + 3):
        d = limiter.when("x")
        want = (n + 1 - burst) / sx.exact(limit) - gap
        sx.check(d == sx.Ite(want > 0, want, 0), "not the least delay the rate allows")
