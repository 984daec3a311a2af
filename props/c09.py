"""has_synced of both queues: true exactly when the first batch has been consumed."""

from aiok8s.cache.delta_fifo import DeltaFIFO
from aiok8s.cache.fifo import FIFO
from props.c07 import Known, key_func
from symx.harness import harness


def is_in(key, keys):
    return any(key == k for k in keys)


@harness(
    quick=[dict(ops=3, listed=2, kind="fifo"), dict(ops=3, listed=2, kind="delta"),
           dict(ops=2, listed=2, kind="delta with store")],
    thorough=[dict(ops=4, listed=2, kind="fifo"), dict(ops=4, listed=2, kind="delta"),
              dict(ops=3, listed=2, kind="delta with store"), dict(ops=3, listed=3, kind="fifo")],
    covers=("empty first list", "synced by popping", "duplicate in the list", "added before the list",
            "vanished object in the batch"),
    bounds="every sequence of up to `ops` add/update/delete/replace/resync/pop calls over keys of arbitrary "
    "equality; lists of up to `listed` objects, duplicates included; with a store, one object known at the start",
)
async def histories(sx, ops, listed, kind):
    store = None
    if kind == "fifo":
        q = FIFO(key_func)
    else:
        if kind == "delta with store":
            store = Known()
            store.put((sx.atom("known"), -1))
        q = DeltaFIFO(key_func, store)
    populated, batch, ghosts, synced = False, [], False, False
    sx.check(not q.has_synced(), "synced before any content")

    async def process(x):
        pass

    for i in range(ops):
        op = sx.choose(f"op{i}", ("add", "update", "delete", "replace", "resync", "pop"))
        if op == "pop":
            if not q.list_keys():
                return
            t = sx.spawn(q.pop(process if kind != "fifo" else lambda x: None))
            await sx.settle()
            got = sx.done_result(t, "pop")
            key = got[0] if kind == "fifo" else q.key_of(got)
            if is_in(key, batch):
                batch = [k for k in batch if k != key]
                if not batch and populated:
                    sx.cover("synced by popping")
        elif op == "replace":
            n = sx.int(f"size{i}", 0, listed)
            new = []
            for j in range(listed):
                if n <= j:
                    break
                new.append((sx.atom(f"key{i}_{j}"), (i, j)))
            keys = []
            for o in new:
                if is_in(o[0], keys):
                    sx.cover("duplicate in the list")
                else:
                    keys.append(o[0])
            if not populated:
                batch = list(keys)
                if store is not None and not is_in(store.objs[0][0], batch):
                    batch.append(store.objs[0][0])
                    sx.cover("vanished object in the batch")
                if not batch:
                    sx.cover("empty first list")
            elif batch and kind == "fifo":
                batch = list(keys)
            populated = True
            await q.replace(new, "1")
        elif op == "resync":
            await q.resync()
        else:
            if not populated:
                sx.cover("added before the list")
            obj = (sx.atom(f"key{i}"), i)
            populated = True
            if op == "add":
                await q.add(obj)
            elif op == "update":
                await q.update(obj)
            else:
                await q.delete(obj)
                if kind == "fifo" and is_in(obj[0], batch):
                    batch = [k for k in batch if k != obj[0]]
                    # Whether a deleted key counts before a pop comes across it is left open.
                    ghosts = True
        if not populated or batch:
            sx.check(not q.has_synced(), "synced before the first batch was consumed")
        elif not ghosts:
            sx.check(q.has_synced(), "not synced although the first batch was consumed")
        if synced:
            sx.check(q.has_synced(), "not synced any more")
        synced = synced or q.has_synced()
        sx.obs("synced", q.has_synced())
    if populated:
        while q.list_keys():
            t = sx.spawn(q.pop(process if kind != "fifo" else lambda x: None))
            await sx.settle()
            sx.done_result(t, "pop")
        t = sx.spawn(q.pop(process if kind != "fifo" else lambda x: None))
        await sx.settle()
        sx.check(q.has_synced(), "not synced although everything was consumed")
        await sx.finish(t)
