"""Per-item exponential backoff."""

from aiok8s.workqueue import default_rate_limiters
from symx.harness import harness


def expected(sx, base, n, cap):
    raw = base * 2**n
    return sx.Ite(raw < cap, raw, cap)


@harness(
    quick=dict(calls=60, most=40),
    thorough=dict(calls=120, most=100),
    covers=("capped", "not capped"),
    bounds="the first `calls` requests for one item, every real base in (0, 1000] and cap in (0, 10**6]",
)
async def delays(sx, calls, most):
    base = sx.real("base", 0, 1000, open_lo=True)
    cap = sx.real("cap", 0, 10**6, open_lo=True)
    limiter = default_rate_limiters.ItemExponentialFailureRateLimiter(base, cap)
    for n in range(calls):
        sx.check(limiter.num_requeues("a") == n, "wrong requeue count")
        d = limiter.when("a")
        sx.check(d == expected(sx, base, n, cap), f"wrong delay after {n} failures")
        if n == 3:
            sx.cover("capped" if d == cap else "not capped")
            sx.obs("d", d)


@harness(
    quick=dict(calls=1100),
    thorough=dict(calls=5000),
    bounds="`calls` consecutive requests for one item, past the range of floats, for every float base "
    "in [1/1000, 10] and cap in [10, 1000]",
)
async def long_failure(sx, calls):
    base = sx.real("base", 0.0009765625, 10, floats=True)
    cap = sx.real("cap", 10, 1000, floats=True)
    limiter = default_rate_limiters.ItemExponentialFailureRateLimiter(base, cap)
    for n in range(calls):
        d = limiter.when("a")
        if n % 50 == 49 or n > calls - 3:
            sx.check(d == cap, f"wrong delay after {n} failures")
    sx.check(limiter.num_requeues("a") == calls, "wrong requeue count")
    limiter.forget("a")
    sx.check(limiter.when("a") == base, "not reset by forget")


@harness(
    quick=dict(ops=6, universe=3),
    thorough=dict(ops=8, universe=3),
    covers=("forgot known", "forgot unknown", "two items"),
    bounds="every history of up to `ops` requests, forgets and counts over items of arbitrary equality",
)
async def histories(sx, ops, universe):
    base, cap = 0.5, 7
    limiter = default_rate_limiters.ItemExponentialFailureRateLimiter(base, cap)
    counts = {}
    for i in range(ops):
        item = sx.atom(f"item{i}", universe)
        if sx.bool(f"forget{i}"):
            limiter.forget(item)
            known = counts.pop(item, 0)
            sx.cover("forgot known" if known else "forgot unknown")
        else:
            n = counts.get(item, 0)
            d = limiter.when(item)
            sx.check(d == min(base * 2**n, cap), f"wrong delay after {n} failures")
            sx.obs("d", d)
            counts[item] = n + 1
            if len(counts) > 1:
                sx.cover("two items")
        for x, n in counts.items():
            sx.check(limiter.num_requeues(x) == n, "wrong requeue count")
        sx.check(limiter.num_requeues("other") == 0, "requeues of an unknown item")


LOOK_ALIKES = (1, "1", 1.0, (1,), "(1,)", None, "None")


@harness(
    quick=dict(ops=3),
    thorough=dict(ops=4),
    covers=("equal", "only alike"),
    bounds="every history of up to `ops` requests and forgets over items that look or hash alike without being equal, or are equal without looking alike",
)
async def look_alikes(sx, ops):
    limiter = default_rate_limiters.ItemExponentialFailureRateLimiter(0.5, 7)
    counts = {}
    for i in range(ops):
        item = sx.choose(f"item{i}", LOOK_ALIKES)
        if any(str(x) == str(item) and x != item for x in counts):
            sx.cover("only alike")
        if any(str(x) != str(item) and x == item for x in counts):
            sx.cover("equal")
        if i and sx.bool(f"forget{i}"):
            limiter.forget(item)
            counts.pop(item, None)
        else:
            n = counts.get(item, 0)
            sx.check(limiter.when(item) == min(0.5 * 2**n, 7), f"wrong delay after {n} failures")
            counts[item] = n + 1
    for x in LOOK_ALIKES:
        sx.check(limiter.num_requeues(x) == counts.get(x, 0), "wrong requeue count")


@harness(
    quick=dict(items=1100),
    thorough=dict(items=20000),
    covers=("forgot one",),
    bounds="`items` items that each failed twice; the first, middle or last may be forgotten",
)
async def large(sx, items):
    limiter = default_rate_limiters.ItemExponentialFailureRateLimiter(0.5, 7)
    for n in range(2):
        for i in range(items):
            sx.check(limiter.when(i) == 0.5 * 2**n, f"wrong delay after {n} failures")
    k = sx.choose("which", (None, 0, items // 2, items - 1))
    if k is not None:
        limiter.forget(k)
        sx.cover("forgot one")
    for i in range(items):
        sx.check(limiter.num_requeues(i) == (0 if i == k else 2), "wrong requeue count")
        sx.check(limiter.when(i) == (0.5 if i == k else 2), "wrong delay")
