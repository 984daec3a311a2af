"""Pops whose processing fails, and closing, for both queues."""

import asyncio

from aiok8s.cache import controller, fifo
from aiok8s.cache.delta_fifo import DeltaFIFO, DeltaType
from props.c07 import key_func
from props.c16 import Server, Thing
from props.faults import Boom, Everything, failure
from symx.harness import harness


OUTCOMES = ("ok", "requeue", "requeue with cause", "error")


def fail(outcome, error=Boom):
    if outcome == "requeue":
        raise fifo.RequeueError
    if outcome == "requeue with cause":
        raise fifo.RequeueError from error("cause")
    if outcome == "error":
        raise error("error")


@harness(
    quick=[dict(ops=5, kind="fifo"), dict(ops=5, kind="delta")],
    thorough=[dict(ops=6, kind="fifo"), dict(ops=6, kind="delta")],
    covers=("requeued", "cause reported", "error reported", "closed", "closed while waiting", "popped after closing",
            "added again after requeue"),
    bounds="every sequence of up to `ops` add/pop/close calls over keys of arbitrary equality, every outcome of "
    "every processing call (return, requeue, requeue with a cause, another error), one pop waiting at a time",
)
async def outcomes(sx, ops, kind):
    q = fifo.FIFO(key_func) if kind == "fifo" else DeltaFIFO(key_func)
    pending, closed, waiting = [], False, []

    def find(key):
        for e in pending:
            if e[0] == key:
                return e
        return None

    def pop(i):
        outcome = sx.choose(f"outcome{i}", OUTCOMES)
        seen = []

        async def later(item):
            seen.append(item)
            fail(outcome)

        def now(item):
            seen.append(item)
            fail(outcome)

        return sx.spawn(q.pop(now if kind == "fifo" else later)), outcome, seen

    def content(item):
        return [item] if kind == "fifo" else [d.object for d in item]

    def ended(t, outcome, seen):
        e = t.exception()
        if isinstance(e, fifo.FIFOClosedError):
            sx.check(closed and not pending and not seen, "ended as closed although open or not empty")
            sx.cover("closed")
            return
        sx.check(bool(pending), "popped something from an empty queue")
        key, objs = pending.pop(0)
        sx.check(len(seen) == 1, "processed more than once")
        got = content(seen[0])
        sx.check(len(got) == len(objs) and all(a is b for a, b in zip(got, objs)), "popped other content")
        sx.obs("popped", key, outcome)
        if closed:
            sx.cover("popped after closing")
        if outcome in ("ok", "requeue"):
            sx.check(e is None, f"a pop that ended with {outcome} raised {e!r}")
            sx.check(t.result() is seen[0], "pop returned something else than it processed")
        else:
            sx.check(isinstance(e, fifo.ProcessError), f"not reported as a processing error but as {e!r}")
            sx.check(e.item is seen[0], "the error carries another item")
            sx.check(isinstance(e.__cause__, (Boom, Everything)), "the cause is lost")
            sx.check(e.__cause__.args == ("cause" if "cause" in outcome else "error",), "another cause")
            sx.cover("cause reported" if "cause" in outcome else "error reported")
        if outcome.startswith("requeue"):
            pending.append((key, objs))
            sx.cover("requeued")

    for i in range(ops):
        op = sx.choose(f"op{i}", ("add", "pop", "close"))
        if op == "add":
            obj = (sx.atom(f"key{i}"), i)
            e = find(obj[0])
            if e is None:
                pending.append((obj[0], [obj]))
            elif kind == "fifo":
                e[1][:] = [obj]
                sx.cover("added again after requeue")
            else:
                e[1].append(obj)
                sx.cover("added again after requeue")
            await q.add(obj)
        elif op == "pop":
            if waiting:
                return await sx.finish(waiting[0][0])
            waiting.append(pop(i))
        else:
            if waiting:
                sx.cover("closed while waiting")
            closed = True
            t = sx.spawn(q.close())
            await sx.settle()
            sx.done_result(t, "close")
        await sx.settle()
        if waiting and waiting[0][0].done():
            ended(*waiting.pop())
        sx.check(not (waiting and (pending or closed)), "a pop keeps waiting")
        sx.check(q.is_closed() is closed, "is_closed() is wrong")
        sx.check(len(q.list_keys()) == len(pending), "content was lost or invented")
        for k, objs in pending:
            got = content(q.get_by_key(k))
            sx.check(len(got) == len(objs) and all(a is b for a, b in zip(got, objs)), "content was altered")
    await sx.finish(*[w[0] for w in waiting])


@harness(
    quick=[dict(turns=2, kind=k) for k in ("fifo", "delta")],
    thorough=[dict(turns=4, kind=k) for k in ("fifo", "delta")],
    covers=("newer content while processing", "closed while processing", "requeued"),
    bounds="one pop (on the delta queue processing for an arbitrary number of turns, at most `turns`) with any "
    "outcome, a newer change of its key or of another and a closing started at arbitrary turns, a second pop waiting",
)
async def concurrent(sx, turns, kind):
    q = fifo.FIFO(key_func) if kind == "fifo" else DeltaFIFO(key_func)
    outcome = sx.choose("outcome", OUTCOMES)
    first, newer = ("a", 0), (sx.choose("key", ("a", "b")), 1)
    seen, added, inside = [], [], [False]

    async def later(item):
        inside[0] = True
        await sx.ticks("hold", turns)
        now(item)

    def now(item):
        inside[0] = False
        seen.append([item] if kind == "fifo" else [d.object for d in item])
        if len(seen) == 1:
            fail(outcome, Everything)

    async def add():
        await sx.ticks("add", turns)
        if inside[0]:
            sx.cover("newer content while processing")
        await q.add(newer)

    async def close():
        await sx.ticks("close", turns)
        if inside[0]:
            sx.cover("closed while processing")
        await q.close()

    async def pops():
        ends = []
        while True:
            try:
                await q.pop(now if kind == "fifo" else later)
                ends.append("ok")
            except fifo.ProcessError as e:
                ends.append("error")
                got = [e.item] if kind == "fifo" else [d.object for d in e.item]
                sx.check(len(got) == len(seen[-1]) and all(a is b for a, b in zip(got, seen[-1])),
                         "the error carries another item")
            except fifo.FIFOClosedError:
                return ends

    await q.add(first)
    tasks = [sx.spawn(pops()), sx.spawn(add()), sx.spawn(close())]
    await sx.settle()
    await sx.sleep(1)
    if not tasks[0].done():
        sx.fail("a pop waits although the queue is closed")
    ends = sx.done_result(tasks[0], "popping")
    sx.done_result(tasks[1], "add")
    sx.done_result(tasks[2], "close")
    if q.list_keys():
        # added after the popping had ended
        sx.check(list(q.list_keys()) == [newer[0]], "content is left although pops waited")
        late = q.get_by_key(newer[0])
        seen.append([late] if kind == "fifo" else [d.object for d in late])
        ends.append("ok")
    sx.check(seen[0] == [first] if kind == "fifo" else seen[0][0] == first, "not popped in order")
    flat = [o for s in seen for o in s]
    sx.check(newer in flat, "the newer content was lost")
    sx.check(ends[0] == ("error" if outcome in ("requeue with cause", "error") else "ok"), "wrong end of the first pop")
    again = flat.count(first)
    if outcome.startswith("requeue"):
        sx.cover("requeued")
        sx.check(again == 2 or (again == 1 and newer[0] == "a" and kind == "fifo"), "a requeued item was lost")
    sx.check(flat.count(newer) <= 2 and again <= 2, "content was delivered too often")
    sx.obs("popped", seen, ends)


@harness(
    quick=[dict(pops=2, adds=1, turns=1, kind=k) for k in ("fifo", "delta")],
    thorough=[dict(pops=3, adds=2, turns=1, kind=k) for k in ("fifo", "delta")],
    covers=("popped", "closed"),
    bounds="`pops` pops (each of one item, the first of any outcome but a requeue), up to `adds` additions and a "
    "closing, all concurrent and each started after an arbitrary number of turns, at most `turns`",
)
async def several_waiters(sx, pops, adds, turns, kind):
    q = fifo.FIFO(key_func) if kind == "fifo" else DeltaFIFO(key_func)
    outcome = sx.choose("outcome", ("ok", "error"))
    seen, ends = [], []

    async def later(item):
        now(item)

    def now(item):
        seen.extend([item] if kind == "fifo" else [d.object for d in item])
        if len(seen) == 1:
            fail(outcome, Everything)

    async def pop(i):
        await sx.ticks(f"pop{i}", turns)
        try:
            await q.pop(now if kind == "fifo" else later)
            ends.append("ok")
        except fifo.ProcessError:
            ends.append("error")
        except fifo.FIFOClosedError:
            ends.append("closed")

    async def add(i):
        await sx.ticks(f"add{i}", turns)
        await q.add((f"key{i}", i))

    async def close():
        await sx.ticks("close", 2 * turns)
        await q.close()

    n = sx.choose("adds", range(adds + 1))
    tasks = [sx.spawn(pop(i)) for i in range(pops)] + [sx.spawn(add(i)) for i in range(n)] + [sx.spawn(close())]
    await sx.settle()
    await sx.sleep(1)
    if not all(t.done() for t in tasks[:pops]):
        sx.fail("a pop waits although the queue is closed")
    for t in tasks:
        sx.done_result(t, "a call")
    left = [o for k in q.list_keys() for o in ([q.get_by_key(k)] if kind == "fifo" else
                                               [d.object for d in q.get_by_key(k)])]
    sx.check(sorted(seen + left) == [(f"key{i}", i) for i in range(n)], "content was lost or delivered twice")
    sx.check(ends.count("ok") + ends.count("error") == len(seen), "a pop ended otherwise than its processing")
    sx.check(len(ends) == pops, "a pop did not end")
    sx.check(ends.count("error") == (1 if seen and outcome == "error" else 0), "an error was not reported once")
    if seen:
        sx.cover("popped")
    if "closed" in ends:
        sx.cover("closed")


@harness(
    quick=dict(ops=3, fails=2, until=4),
    thorough=dict(ops=4, fails=3, until=6),
    covers=("failed", "newer content while processing", "failed again", "settled"),
    bounds="the controller that moves a reflector's changes through a delta queue, set to retry on errors; up to `ops` changes of two objects, each after up to a "
    "second; up to `fails` of the processing calls fail, with either class of error, after no time or 0.5 s",
)
async def retried(sx, ops, fails, until):
    server = Server()
    calls, state, busy = [], {}, []

    class Known:
        def list_keys(self):
            return [k for k in state if state[k] is not None]

        def get_by_key(self, key):
            return state.get(key)

    queue = DeltaFIFO(lambda o: o.metadata.name, known_objects=Known())
    left = [fails]

    async def process(deltas):
        k = len(calls)
        name = deltas.newest().object.metadata.name
        calls.append(name)
        sx.check(not busy, "processes two at once")
        busy.append(name)
        before = len(server.log)
        try:
            if left[0] and sx.bool(f"fails{k}"):
                left[0] -= 1
                sx.cover("failed again" if calls.count(name) > 1 else "failed")
                if sx.bool(f"slow{k}"):
                    await asyncio.sleep(0.5)
                if any(o.metadata.name == name for _, o in server.log[before:]):
                    # The newer changes then stand alone.
                    sx.cover("newer content while processing")
                raise failure(k, "processing")
            for d in deltas:
                state[name] = None if d.type is DeltaType.DELETED else d.object
        finally:
            busy.pop()

    c = controller.new(controller.Config(queue=queue, lister_watcher=server, process=process, object_type=Thing,
                                         full_resync_period=0, retry_on_error=True))
    server.change("a")
    task = sx.spawn(c.run())
    for i in range(ops):
        if sx.bool(f"pause{i}"):
            await asyncio.sleep(sx.exact("0.25"))
        name = sx.choose(f"name{i}", ("a", "b"))
        if server.held.get(name) is not None and sx.bool(f"deleted{i}"):
            server.delete(name)
        else:
            server.change(name)
    await asyncio.sleep(until)
    sx.check(not task.done(), "the controller ended by itself")
    sx.cover("settled")
    for name in ("a", "b"):
        sx.check(state.get(name) is server.held.get(name), "what failed was not processed again")
    await sx.finish(task)


@harness(
    quick=[dict(times=30), dict(times=150)],
    thorough=dict(times=1000),
    covers=("goes on meanwhile",),
    bounds="the same controller; processing one of two objects fails `times` times in a row, at once and with errors of either class; another task",
)
async def keeps_failing(sx, times):
    server = Server()
    queue = DeltaFIFO(lambda o: o.metadata.name)
    bad = sx.choose("bad", ("a", "b"))
    failed, done, turns = [], [], [0]

    async def process(deltas):
        name = deltas.newest().object.metadata.name
        if name == bad and len(failed) < times:
            sx.check(len(failed) < turns[0] + 10, "retrying keeps everything else from running")
            if turns[0]:
                sx.cover("goes on meanwhile")
            failed.append(name)
            raise failure(len(failed), "processing")
        done.append(name)

    c = controller.new(controller.Config(queue=queue, lister_watcher=server, process=process, object_type=Thing,
                                         full_resync_period=0, retry_on_error=True))
    server.change("a")
    server.change("b")
    task = sx.spawn(c.run())
    for i in range(40 + 5 * times):
        turns[0] += 1
        await asyncio.sleep(0)
    await asyncio.sleep(10 * times)
    sx.check(sorted(done) == ["a", "b"], "what failed was not processed again")
    await sx.finish(task)
