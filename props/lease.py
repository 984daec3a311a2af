"""A lease record on a server, locks to reach it, and electors that note what they do."""

import asyncio
import logging
import time

from aiok8s.leaderelection import leaderelection
from props.faults import Everything

logging.getLogger("aiok8s").setLevel(logging.CRITICAL + 1)


class Failed(Exception):
    pass


def problem(what):
    """The exception of a failed request, whose class depends on what failed."""
    return Failed(what) if what == "down" else Everything(what)


class Lease:
    """The record with its version; notes every write."""

    def __init__(self, sx, record=None):
        self.sx, self.record, self.version = sx, record, 0
        self.writes = []  # (time, writer, record before, record)
        self.clock = []  # wall clock time of each write
        self.changed = sx.now()

    def put(self, writer, record):
        """A write that cannot fail."""
        self.writes.append((self.sx.now(), writer, self.record, record))
        self.clock.append(time.time())
        self.record, self.version, self.changed = record, self.version + 1, self.sx.now()

    def holder(self):
        return self.record and self.record.get("holderIdentity")


class Lock:
    """What an elector needs of a resource lock.  `behave` decides about each request: it may
    take its time, raise, and say whether the response to a write is lost, or how long it takes."""

    def __init__(self, lease, name, behave=None):
        self.lease, self.name, self.behave = lease, name, behave
        self.seen = None
        self.odd = None  # what is read instead of the record
        self.requests = []

    async def _before(self, what):
        self.requests.append((what, self.lease.sx.now()))
        if self.behave is not None:
            return await self.behave(what)

    async def get(self):
        await self._before("get")
        if self.odd is not None:
            return self.odd, f"odd{len(self.requests)}"
        self.seen = self.lease.version
        r = self.lease.record
        return (None, None) if r is None else (dict(r), f"raw{self.lease.version}")

    async def create(self, record):
        after = await self._before("create")
        if self.lease.record is not None:
            raise Failed("exists")
        self.lease.put(self.name, dict(record))
        self.seen = self.lease.version
        await self._after(after)

    async def update(self, record):
        after = await self._before("update")
        if self.seen != self.lease.version:
            raise Failed("conflict")
        self.lease.put(self.name, dict(record))
        self.seen = self.lease.version
        await self._after(after)

    async def _after(self, after):
        if after == "lost":
            raise Failed("response lost")
        if after is not None:
            await asyncio.sleep(after)

    def describe(self):
        return "lease"

    def identity(self):
        return self.name


class Candidate:
    """An elector with callbacks that note what happens; it leads until it is cancelled."""

    def __init__(self, sx, lease, name, behave=None, others=(), cleanup=0, **settings):
        self.sx, self.name, self.others = sx, name, list(others)
        self.lock = Lock(lease, name, behave)
        self.lease, self.cleanup = lease, cleanup
        self.leading = False
        self.log, self.leaders = [], []
        self.started_at = self.stopped_at = self.ended_at = None
        self.settings = settings
        self.elector = leaderelection.LeaderElector(
            leaderelection.LeaderElectionConfig(
                lock=self.lock, name="lease",
                callbacks=leaderelection.LeaderCallbacks(self.started, self.stopped, self.new_leader),
                **settings,
            )
        )

    async def started(self):
        self.log.append("started")
        self.leading = True
        self.started_at = self.sx.now()
        self.sx.cover("leads")
        mine = [w for w in self.lease.writes if w[1] == self.name]
        self.sx.check(bool(mine), "starts leading without having written the lease")
        for o in self.others:
            self.sx.check(not o.leading, "two electors lead at the same time")
        try:
            await asyncio.Event().wait()
        finally:
            if self.cleanup:
                await asyncio.sleep(self.cleanup)
            self.leading = False
            self.log.append("cancelled")
            self.ended_at = self.sx.now()

    async def stopped(self):
        self.log.append("stopped")
        self.stopped_at = self.sx.now()

    async def new_leader(self, name):
        self.leaders.append(name)

    def run(self):
        self.task = self.sx.spawn(self.elector.run())
        return self.task
