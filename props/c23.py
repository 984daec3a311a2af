"""Backoff steps grow by the factor up to the cap, with jitter in its range."""

import asyncio

from aiok8s.util import wait
from symx.harness import harness


class Failure(Exception):
    pass


def settings(sx, steps):
    """A backoff's settings, and its delays without jitter as far as they are needed."""
    d = sx.real("duration", 0, 10)
    kind = sx.choose("kind", ("plain", "grows", "shrinks", "capped"))
    cap, factor = 0, 0
    if kind == "grows":
        factor = sx.real("factor", 1, 3)
    elif kind == "shrinks":
        factor = sx.real("factor", 0, 1, open_lo=True, open_hi=True)
    elif kind == "capped":
        factor = sx.choose("factor", (1, 2, 3, sx.exact("1.5")))
        cap = sx.real("cap", 0, 40, open_lo=True)
        sx.assume(d <= cap)
    sx.cover(kind)
    j = sx.real("jitter", 0, 2, open_lo=True) if sx.bool("jitters") else 0
    return dict(steps=steps, duration=d, factor=factor, cap=cap, jitter=j)


def delays(s, n):
    """The first n delays before jitter, and how many times they grew before the cap was hit."""
    out, d, capped = [], s["duration"], None
    for i in range(n):
        out.append(d)
        if capped is None and s["factor"] and i < s["steps"]:
            d = d * s["factor"]
            if s["cap"] and d > s["cap"]:
                d, capped = s["cap"], i + 1
    return out, capped


@harness(
    quick=dict(most=3),
    thorough=dict(most=5),
    covers=("plain", "grows", "shrinks", "capped", "at the cap", "more than the steps"),
    bounds="backoffs with real durations up to 10 not above the cap, caps up to 40, factors (real, between 0 and 3), jitter "
    "fractions up to 2, up to `most` steps; `most` + 1 delays are taken",
)
async def step(sx, most):
    steps = sx.choose("steps", range(most + 1))
    s = settings(sx, steps)
    # A setting of zero may be left out.
    b = wait.Backoff(**{k: v for k, v in s.items() if not (k in ("factor", "jitter", "cap") and type(v) is int and v == 0)})
    want, capped = delays(s, most + 1)
    if capped:
        sx.cover("at the cap")
    if steps <= most:
        sx.cover("more than the steps")
    for k, w in enumerate(want):
        got = b.step()
        sx.obs("delay", got)
        if s["jitter"]:
            sx.check(sx.And(got >= w, got <= w + w * s["jitter"]), f"delay {k} with jitter is out of its range")
        else:
            sx.check(got == w, f"delay {k} is wrong")


@harness(
    quick=dict(),
    bounds="all real durations up to 100, jitter fractions between -1 and 5 (not positive: stands for one) and draws",
)
async def jitter(sx):
    d, f = sx.real("duration", 0, 100), sx.real("factor", -1, 5)
    got = wait.jitter(d, f)
    most = d + d * (f if f > 0 else 1)
    sx.check(sx.And(got >= d, got <= most), "jitter is out of its range")
    sx.check(sx.Implies(d > 0, got < most), "jitter reaches its upper end")


@harness(
    quick=[dict(most=3)],
    thorough=[dict(most=5)],
    covers=("succeeds", "error", "times out", "no attempts", "the cap ends it", "jittered"),
    bounds="retrying with backoffs as above with -1 to `most` steps; each attempt takes an arbitrary time up to 2 s and fails, "
    "succeeds or raises",
)
async def retry(sx, most):
    steps = sx.choose("steps", range(-1, most + 1))
    s = settings(sx, steps)
    b = wait.Backoff(**s)
    want, capped = delays(s, max(steps, 0))
    attempts = max(steps, 0)
    if capped is not None and capped < attempts:
        attempts = capped
    ends, starts, error = [], [], Failure("condition")
    start = sx.now()
    # One attempt has a symbolic outcome, the others fail.
    which = sx.int("which", 0, most)
    how = sx.choose("how", ("succeeds", "error", "times out"))

    async def condition():
        n = len(starts)
        starts.append(sx.now())
        sx.check(len(starts) <= attempts, "too many attempts")
        if n == 0:
            await asyncio.sleep(sx.real("takes", 0, 2))
        ends.append(sx.now())
        if which == n and how != "times out":
            if how == "error":
                raise error
            return True
        return False

    t = sx.spawn(wait.exponential_backoff(b, condition))
    finished = []
    t.add_done_callback(lambda _: finished.append(sx.now()))
    await asyncio.sleep(4000)
    sx.check(t.done(), "retrying does not end")
    if starts:
        sx.check(starts[0] == start, "the first attempt is not made at once")
    else:
        sx.cover("no attempts")
    for k in range(len(starts) - 1):
        pause = starts[k + 1] - ends[k]
        w = want[k]
        if s["jitter"]:
            sx.check(sx.And(pause >= w, pause <= w + w * s["jitter"]), "the pause between attempts is out of its range")
            sx.cover("jittered")
        else:
            sx.check(pause == w, "the pause between attempts is not the backoff's delay")
    if how != "times out" and which < attempts:
        sx.cover(how)
        sx.check(len(starts) == which + 1, "goes on after the outcome")
        if how == "error":
            sx.check(t.exception() is error, "the condition's error is not passed on")
        else:
            sx.done_result(t, "retrying a condition that succeeds")
    else:
        sx.cover("times out")
        sx.check(len(starts) == attempts, "too few attempts")
        sx.check(isinstance(t.exception(), wait.WaitTimeoutError), "retrying in vain does not time out")
        if ends and (capped is None or capped > attempts):
            sx.check(finished[0] == ends[-1], "sleeps after the last attempt")
        if capped is not None and steps > capped:
            sx.cover("the cap ends it")
    for k, v in s.items():
        sx.check(getattr(b, k) == v, f"the caller's {k} is changed")
    sx.obs("starts", starts)


@harness(
    quick=dict(most=12),
    thorough=dict(most=30),
    covers=("at the cap", "no cap"),
    bounds="long backoffs: `most` steps, factors 1, 1.5, 2 and 3, any real duration up to 10 and cap up to 10^6 or none; their "
    "delays, and retrying in vain or with a success at an arbitrary attempt",
)
async def long(sx, most):
    d, factor = sx.real("duration", 0, 10), sx.choose("factor", (1, 2, 3, sx.exact("1.5")))
    cap = sx.real("cap", 0, 10**6, open_lo=True) if sx.bool("capped") else 0
    if cap:
        sx.assume(d <= cap)
    s = dict(steps=most, duration=d, factor=factor, cap=cap, jitter=0)
    # A setting of zero may be left out.
    b = wait.Backoff(**{k: v for k, v in s.items() if not (k in ("factor", "jitter", "cap") and type(v) is int and v == 0)})
    want, capped = delays(s, most + 1)
    sx.cover("no cap" if capped is None else "at the cap")
    for k, w in enumerate(want):
        sx.check(b.step() == w, f"delay {k} is wrong")
    which = sx.choose("which", (most // 2, most - 1, most))
    starts = []

    async def condition():
        starts.append(sx.now())
        return len(starts) > which

    t = sx.spawn(wait.exponential_backoff(wait.Backoff(**s), condition))
    await asyncio.sleep(10 * 3 ** (most + 1))
    sx.check(t.done(), "retrying does not end")
    attempts = most if capped is None or capped > most else capped
    sx.check(len(starts) == min(attempts, which + 1), "wrong number of attempts")
    sx.check((t.exception() is None) == (which < attempts), "retrying ends in another way than its last attempt")
    for k in range(len(starts) - 1):
        sx.check(starts[k + 1] - starts[k] == want[k], "the pause between attempts is not the backoff's delay")
