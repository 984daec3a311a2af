"""Leader election settings are accepted exactly when they are safe."""

from aiok8s.leaderelection import leaderelection
from symx.harness import harness


class Lock:
    pass


@harness(
    quick={},
    thorough={},
    covers=("accepted", "rejected", "defaults"),
    bounds="all real values of the three durations (negative ones too) and every pattern of missing lock and callbacks; the default durations",
)
async def settings(sx):
    async def f(*a):
        pass

    defaults = sx.bool("defaults")
    if defaults:
        d = dict()
        lease, renew, retry = 15, 10, 2
        sx.cover("defaults")
    else:
        lease, renew, retry = sx.real("lease", -100, 100), sx.real("renew", -100, 100), sx.real("retry", -100, 100)
        d = dict(lease_duration=lease, renew_deadline=renew, retry_period=retry)
    started, stopped, new, lock = (sx.bool(n) for n in ("started", "stopped", "new", "lock"))
    callbacks = leaderelection.LeaderCallbacks(f if started else None, f if stopped else None, f if new else None)
    config = leaderelection.LeaderElectionConfig(lock=Lock() if lock else None, callbacks=callbacks, name="n", **d)
    try:
        leaderelection.LeaderElector(config)
        accepted = True
        sx.cover("accepted")
    except Exception:
        accepted = False
        sx.cover("rejected")
    factor = sx.exact(1.2)
    safe = sx.And(lease > renew, renew > factor * retry, lease > 0, renew > 0, retry > 0, started, stopped, lock)
    sx.check(sx.Eq(safe, accepted), "settings are accepted although unsafe" if accepted else "safe settings are rejected")
    sx.obs("accepted", accepted)
