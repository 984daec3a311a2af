"""A quick check that the engine finds what it must and proves what it must."""

import asyncio


def main():
    from symx import core, ctx, loop

    loop.install_time()
    ctx.install_random()

    async def holds(sx):
        x, y = sx.int("x"), sx.int("y", 0, 10)
        r = sx.real("r", 0, 5)
        t0 = sx.now()
        await asyncio.sleep(r)
        sx.check(sx.now() - t0 == r, "sleep")
        m = y
        if x > y:
            m = x
        sx.check(m >= y, "max")
        d = {sx.atom("a"): 1}
        b = sx.atom("b")
        sx.check(sx.Implies(b in d, b == next(iter(d))), "dict lookup")
        sx.obs("m", m)

    async def fails(sx):
        x = sx.int("x", 0, 1000)
        sx.check(x * 7 != 693, "needle")

    async def hangs(sx):
        if sx.int("x", 0, 3) == 2:
            await asyncio.Event().wait()

    eng, opened = core.explore(ctx.run_symbolic(holds), [], want_samples=5)
    assert not eng.violations and not opened and eng.stats.paths == 8, (eng.violations, eng.stats.as_dict())
    for s in eng.samples:
        status, log, how = ctx.run_concrete(holds, s["values"])
        assert status is None and how == "ok", status
        assert ctx.plain(log) == ctx.plain(s["obs"]), (log, s)
    for h, want in ((fails, "needle"), (hangs, "Hang")):
        eng, _ = core.explore(ctx.run_symbolic(h), [])
        assert eng.violations and want in eng.violations[0]["msg"], eng.violations
        status, _, _ = ctx.run_concrete(h, eng.violations[0]["values"])
        assert status and want in status, status
    assert ctx.run_concrete(fails, {"x": 5})[0] is None
    print("engine selftest passed")
    return 0
