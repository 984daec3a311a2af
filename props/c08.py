"""Replacing the content of a delta queue."""

from aiok8s.cache.delta_fifo import DeletedFinalStateUnknown, DeltaFIFO, DeltaType
from props.c07 import A, D, S, U, Known, key_func
from props.faults import failure
from symx.harness import harness


class Server:
    """The objects a consumer of all changes has to end with."""

    def __init__(self, objs):
        self.state = Known()
        for o in objs:
            self.state.put(o)


def apply(store, deltas):
    for d in deltas:
        if d.type is D:
            obj = d.object
            store.drop(obj.key if isinstance(obj, DeletedFinalStateUnknown) else obj[0])
        else:
            store.put(d.object)


@harness(
    quick=[dict(ops=2, known=0, listed=2), dict(ops=2, known=1, listed=1)],
    thorough=[dict(ops=3, known=0, listed=2), dict(ops=2, known=2, listed=1), dict(ops=2, known=1, listed=2),
              dict(ops=3, known=1, listed=1)],
    covers=("deletion reported", "listed while pending", "pending deletion", "pending and neither known nor listed",
            "duplicate in the list", "empty list", "no store", "a held object itself is listed"),
    bounds="every sequence of up to `ops` add/update/delete/pop/replace calls over keys of arbitrary equality, then "
    "a replace and the popping of everything; lists of up to `listed` objects, duplicates and objects that are held "
    "included; up to `known` objects known at the start (0: a queue without known objects too); the store holds what was popped",
)
async def histories(sx, ops, known, listed):
    store = Known()
    for i in range(known):
        store.put((sx.atom(f"known{i}"), -1 - i))
    server = Server(store.objs).state
    has_store = bool(known) or sx.bool("with_store")
    if not has_store:
        sx.cover("no store")
    f = DeltaFIFO(key_func, store if has_store else None)

    async def pop():
        async def process(deltas):
            apply(store, deltas)

        t = sx.spawn(f.pop(process))
        await sx.settle()
        return sx.done_result(t, "pop")

    async def replace(name):
        n = sx.int(f"{name}_size", 0, listed)
        new = []
        for j in range(listed):
            if n <= j:
                break
            obj = (sx.atom(f"{name}_key{j}"), f"{name}.{j}")
            if any(o[0] == obj[0] for o in new):
                sx.cover("duplicate in the list")
            for o in store.objs:
                if has_store and o[0] == obj[0] and sx.bool(f"{name}_held{j}"):
                    sx.cover("a held object itself is listed")
                    obj = o
                    break
            new.append(obj)
        if not new:
            sx.cover("empty list")
        before = {}
        for k in f.list_keys():
            ds = f.get_by_key(k)
            before[k] = ds
        await f.replace(list(new), "7")
        server.objs = []
        for o in new:
            server.put(o)
        for o in new:
            ds = f.get_by_key(o[0])
            sx.check(ds is not None, "a listed object was not queued")
            sx.check(any(d.type is S and d.object is o for d in ds), "no synchronisation change for a listed object")
            if o[0] in before:
                sx.cover("listed while pending")
        for o in store.objs:
            if has_store and not any(o[0] == p[0] for p in new):
                ds = f.get_by_key(o[0])
                sx.check(ds is not None and ds[-1].type is D, "no deletion queued for a vanished object")
                last = ds[-1].object
                sx.cover("deletion reported")
                old = before.get(o[0])
                if isinstance(last, DeletedFinalStateUnknown):
                    sx.check(last.key == o[0], "a deletion under a wrong key")
                    objs = [o] if not old else [o, unwrap(old[-1].object)]
                    sx.check(any(last.obj is x for x in objs), "a deletion without the last known object")
                else:
                    sx.check(bool(old) and old[-1].type is D, "a deletion not marked as final state unknown")
        for k, ds in before.items():
            if ds[-1].type is D:
                sx.cover("pending deletion")
            now = f.get_by_key(k)
            sx.check(now is not None and len(now) >= len(ds), "pending changes were lost")
            for x, y in zip(ds[:-1], now):
                sx.check(x is y, "pending changes were altered")
            x, y = ds[-1], now[len(ds) - 1]
            sx.check(x is y or (x.type is D and y.type is D), "the last pending change was lost")
            if not any(k == o[0] for o in new + store.objs) and ds[-1].type is not D:
                sx.cover("pending and neither known nor listed")

    for i in range(ops):
        op = sx.choose(f"op{i}", ("add", "update", "delete", "replace") + (("pop",) if has_store else ()))
        if op == "pop":
            if not f.list_keys():
                return
            await pop()
        elif op == "replace":
            await replace(f"list{i}")
        else:
            obj = (sx.atom(f"key{i}"), i)
            if op == "delete":
                server.drop(obj[0])
                await f.delete(DeletedFinalStateUnknown(obj[0], obj) if sx.bool(f"marker{i}") else obj)
            else:
                server.put(obj)
                await (f.add(obj) if op == "add" else f.update(obj))
    await replace("last")
    while f.list_keys():
        await pop()
    sx.check(len(store.objs) == len(server.objs), "the consumer holds more or fewer objects than were listed")
    for o in server.objs:
        sx.check(any(p is o for p in store.objs), "the consumer does not hold a listed object")
    sx.obs("end", [o[0] for o in store.objs])


def unwrap(obj):
    return obj.obj if isinstance(obj, DeletedFinalStateUnknown) else obj


class Faulty(Known):
    def __init__(self, bad, raises):
        super().__init__()
        self.bad, self.raises = bad, raises

    def get_by_key(self, key):
        if key == self.bad:
            if self.raises:
                raise failure(0, "lookup failed")
            return None
        return super().get_by_key(key)


@harness(
    quick=dict(known=2, listed=2),
    thorough=dict(known=3, listed=2),
    covers=("marker without object", "others still reported"),
    bounds="up to `known` known keys of arbitrary equality, one of which cannot be looked up (raises or gives "
    "nothing), and up to `listed` listed objects",
)
async def lookup_fails(sx, known, listed):
    store = Faulty(sx.atom("bad"), sx.bool("raises"))
    for i in range(known):
        store.put((sx.atom(f"known{i}"), -1 - i))
    f = DeltaFIFO(key_func, store)
    new = [(sx.atom(f"new{j}"), j) for j in range(listed)]
    await f.replace(list(new), "7")
    await f.resync()
    for o in store.objs:
        if any(o[0] == p[0] for p in new):
            continue
        ds = f.get_by_key(o[0])
        sx.check(ds is not None and len(ds) == 1 and ds[0].type is D, "no deletion queued for a vanished object")
        marker = ds[0].object
        sx.check(isinstance(marker, DeletedFinalStateUnknown) and marker.key == o[0], "not a marker for its key")
        if o[0] == store.bad:
            sx.cover("marker without object")
            sx.check(marker.obj is None, "a marker with an object that could not be looked up")
        else:
            sx.cover("others still reported")
            sx.check(marker.obj is o, "a marker without the last known object")
    for o in new:
        sx.check(any(d.type is S and d.object is o for d in f.get_by_key(o[0])), "a listed object is not reported")
