"""A delta queue: every change per key in order, keys in order, deletions merged."""

from aiok8s.cache.delta_fifo import DeletedFinalStateUnknown, DeltaFIFO, DeltaType
from props.faults import failure
from symx.harness import harness

A, U, D, S = DeltaType.ADDED, DeltaType.UPDATED, DeltaType.DELETED, DeltaType.SYNC


class Known:
    """The objects known behind a queue."""

    def __init__(self):
        self.objs = []

    def list_keys(self):
        return [o[0] for o in self.objs]

    def get_by_key(self, key):
        for o in self.objs:
            if o[0] == key:
                return o
        return None

    def put(self, obj):
        for i, o in enumerate(self.objs):
            if o[0] == obj[0]:
                self.objs[i] = obj
                return
        self.objs.append(obj)

    def drop(self, key):
        self.objs = [o for o in self.objs if o[0] != key]


class Model:
    """What a delta queue has to do."""

    def __init__(self, known=None):
        self.items = []
        self.known = known

    def pending(self, key):
        for k, ds in self.items:
            if k == key:
                return ds
        return None

    def queue(self, kind, key, obj):
        ds = self.pending(key)
        if ds is None:
            self.items.append((key, [(kind, obj)]))
        elif kind is D and ds[-1][0] is D:
            if isinstance(ds[-1][1], DeletedFinalStateUnknown):
                ds[-1] = (kind, obj)
        else:
            ds.append((kind, obj))

    def delete(self, key, obj):
        if self.pending(key) is None and (self.known is None or self.known.get_by_key(key) is None):
            return False
        self.queue(D, key, obj)
        return True

    def resync(self):
        if self.known is None:
            return
        for o in list(self.known.objs):
            if self.pending(o[0]) is None:
                self.queue(S, o[0], o)


def same(sx, got, want):
    """Whether the deltas popped are the expected ones."""
    if len(got) != len(want):
        return False
    out = []
    for g, (kind, obj) in zip(got, want):
        if g.type is not kind or type(g.object) is not type(obj):
            return False
        out.append(g.object[0] == obj[0])
        out.append(g.object[1] is obj[1] if isinstance(obj, DeletedFinalStateUnknown) else g.object[1] == obj[1])
    return sx.And(*out)


def key_func(obj):
    return obj[0]


@harness(
    quick=[dict(ops=4, known=0), dict(ops=3, known=1)],
    thorough=[dict(ops=6, known=0), dict(ops=5, known=1), dict(ops=4, known=2)],
    covers=("several changes", "deletions merged", "marker replaced", "deletion ignored", "resync queued",
            "resync skipped", "pop waited"),
    bounds="every sequence of up to `ops` add/update/delete/resync/pop calls over keys of arbitrary equality, "
    "deletions by object or by marker, up to `known` objects known at the start (0: a queue without known "
    "objects too), whose store the popper may or may not keep up to date",
)
async def histories(sx, ops, known):
    store = None
    if known or sx.bool("with_store"):
        store = Known()
        for i in range(known):
            store.put((sx.atom(f"known{i}"), -1 - i))
    f, m = DeltaFIFO(key_func, store), Model(store)
    waiting = []
    log = []

    def popper():
        async def process(deltas):
            log.append(deltas)

        return sx.spawn(f.pop(process))

    kinds = ("add", "update", "delete", "pop") + (("resync",) if store is not None else ())
    for i in range(ops):
        op = sx.choose(f"op{i}", kinds)
        if op == "pop":
            if waiting:
                return await sx.finish(*waiting)
            waiting.append(popper())
        elif op == "resync":
            n = len(m.items)
            m.resync()
            sx.cover("resync queued" if len(m.items) > n else "resync skipped")
            await f.resync()
        else:
            obj = (sx.atom(f"key{i}"), i)
            if op == "delete":
                if sx.bool(f"marker{i}"):
                    obj = DeletedFinalStateUnknown(obj[0], obj)
                before = [len(ds) for _, ds in m.items]
                if not m.delete(obj[0], obj):
                    sx.cover("deletion ignored")
                elif before == [len(ds) for _, ds in m.items]:
                    sx.cover("deletions merged")
                    if isinstance(m.pending(obj[0])[-1][1], DeletedFinalStateUnknown):
                        sx.cover("marker replaced")
                await f.delete(obj)
            elif op == "add":
                m.queue(A, obj[0], obj)
                await f.add(obj)
            else:
                m.queue(U, obj[0], obj)
                await f.update(obj)
            if waiting and m.items:
                sx.cover("pop waited")
        await sx.settle()
        if waiting and waiting[0].done():
            got = sx.done_result(waiting.pop(), "pop")
            sx.check(bool(m.items), "popped something that nobody queued")
            key, want = m.items.pop(0)
            sx.check(same(sx, got, want), "popped other changes than the ones made")
            sx.check(log.pop() is got and not log, "the processing function got something else")
            sx.obs("popped", key, [d.type.value for d in got])
            if len(want) > 1:
                sx.cover("several changes")
            if store is not None and sx.bool(f"apply{i}"):
                for kind, obj in want:
                    if kind is D:
                        store.drop(key)
                    else:
                        store.put(obj)
        sx.check(not (waiting and m.items), "a change and a pop wait for each other")
        sx.check(len(f.list_keys()) == len(m.items) == len(f.list()), "wrong number of pending keys")
        for key, want in m.items:
            sx.check(same(sx, f.get_by_key(key), want), "pending changes are not the ones made")
    while m.items:
        got = await drain(sx, popper)
        key, want = m.items.pop(0)
        sx.check(same(sx, got, want), "popped other changes than the ones made at the end")
    await sx.finish(*waiting)


async def drain(sx, popper):
    t = popper()
    await sx.settle()
    return sx.done_result(t, "pop")


@harness(
    quick=dict(changes=3, turns=2, hold=2),
    thorough=dict(changes=4, turns=2, hold=2),
    covers=("change while processing", "two poppers wait"),
    bounds="`changes` changes to keys of arbitrary equality made by two tasks at arbitrary loop turns (up to "
    "`turns` apart) while two poppers take changes, each processing for up to `hold` turns",
)
async def concurrent(sx, changes, turns, hold):
    f = DeltaFIFO(key_func)
    popped, made, inside = [], [], [0]

    async def popper(n):
        async def process(deltas):
            inside[0] += 1
            sx.check(inside[0] == 1, "two pops are processed at once")
            await sx.ticks(f"hold{n}", hold)
            popped.append([(d.type, d.object) for d in deltas])
            inside[0] -= 1

        while True:
            await f.pop(process)

    async def changer(mine, name):
        for i in mine:
            await sx.ticks(f"gap{i}", turns)
            obj = (sx.atom(f"key{i}"), i)
            if inside[0]:
                sx.cover("change while processing")
            kind = A if i % 2 else U
            await (f.add(obj) if i % 2 else f.update(obj))
            made.append((kind, obj))

    tasks = [sx.spawn(popper(n)) for n in range(2)]
    await sx.settle()
    sx.cover("two poppers wait")
    both = [sx.spawn(changer(range(0, changes, 2), "a")), sx.spawn(changer(range(1, changes, 2), "b"))]
    await sx.settle()
    for t in both:
        sx.done_result(t, "a change")
    flat = [d for ds in popped for d in ds]
    sx.check(len(flat) == len(made), "changes were lost or delivered twice")
    sx.check(not f.list_keys(), "changes are left although poppers wait")
    for i, a in enumerate(flat):
        for b in flat[i + 1:]:
            at = [o[1] for _, o in made]
            in_order = at.index(a[1][1]) < at.index(b[1][1])
            sx.check(sx.Or(in_order, a[1][0] != b[1][0]), "changes of one key came out of order")
    for k, o in made:
        sx.check(any(x is k and y[1] == o[1] for x, y in flat), "a change came out as another kind")
    for ds in popped:
        sx.check(sx.And(*[o[0] == ds[0][1][0] for _, o in ds]), "changes of several keys popped together")
    sx.obs("popped", [[o[1] for _, o in ds] for ds in popped])
    await sx.finish(*tasks)


class Faulty(Known):
    """Known objects of which one key cannot be looked up."""

    def __init__(self, bad, raises):
        super().__init__()
        self.bad, self.raises = bad, raises

    def get_by_key(self, key):
        if key == self.bad:
            if self.raises:
                raise failure(0, "lookup failed")
            return None
        return super().get_by_key(key)


@harness(
    quick=dict(ops=3),
    thorough=dict(ops=4),
    covers=("deletion of a pending key", "resync of others"),
    bounds="every sequence of up to `ops` add/update/delete/resync calls over keys of arbitrary equality with one known "
    "object, when looking up one arbitrary key raises or gives nothing (whether deleting a key has an effect that is "
    "neither pending nor can be looked up is left open)",
)
async def lookup_fails(sx, ops):
    store = Faulty(sx.atom("bad"), sx.bool("raises"))
    store.put((sx.atom("known"), -1))
    f, m = DeltaFIFO(key_func, store), Model(store)
    for i in range(ops):
        op = sx.choose(f"op{i}", ("add", "update", "delete", "resync"))
        if op == "resync":
            for o in store.objs:
                if m.pending(o[0]) is None and o[0] != store.bad:
                    sx.cover("resync of others")
                    m.queue(S, o[0], o)
            await f.resync()
            continue
        obj = (sx.atom(f"key{i}"), i)
        if op == "delete":
            if obj[0] == store.bad and m.pending(obj[0]) is None:
                return
            if m.delete(obj[0], obj) and obj[0] == store.bad:
                sx.cover("deletion of a pending key")
            await f.delete(obj)
        else:
            m.queue(A if op == "add" else U, obj[0], obj)
            await (f.add(obj) if op == "add" else f.update(obj))
        sx.check(len(f.list_keys()) == len(m.items), "wrong number of pending keys")
        for key, want in m.items:
            sx.check(same(sx, f.get_by_key(key), want), "pending changes are not the ones made")


@harness(
    quick=dict(changes=7),
    thorough=dict(changes=10),
    covers=("all kept", "merged"),
    bounds="`changes` changes of one known key, each an update or a deletion, and as many keys queued before it, all popped",
)
async def many(sx, changes):
    store = Known()
    store.put(("a", -1))
    f, m = DeltaFIFO(key_func, store), Model(store)
    for i in range(changes):
        if i % 2:
            m.queue(A, f"k{i}", (f"k{i}", i))
            await f.add((f"k{i}", i))
        obj = ("a", i)
        if sx.bool(f"delete{i}"):
            m.delete("a", obj)
            await f.delete(obj)
        else:
            m.queue(U, "a", obj)
            await f.update(obj)
    sx.cover("all kept" if len(m.pending("a")) == changes else "merged")

    async def process(deltas):
        pass

    while m.items:
        t = sx.spawn(f.pop(process))
        await sx.settle()
        key, want = m.items.pop(0)
        sx.check(same(sx, sx.done_result(t, "pop"), want), "popped other changes than the ones made")


@harness(
    quick=dict(keys=1100),
    thorough=dict(keys=5000),
    covers=("deleted",),
    bounds="`keys` keys added, all changed and one of them deleted or changed `keys` times, then all popped",
)
async def large(sx, keys):
    f = DeltaFIFO(key_func)
    for i in range(keys):
        await f.add((i, 0))
    for i in range(keys):
        await f.update((i, 1))
    k, delete = sx.choose("which", (0, keys // 2, keys - 1)), sx.bool("delete")
    if delete:
        sx.cover("deleted")
        await f.delete((k, 2))
    else:
        for n in range(keys):
            await f.update((k, n + 2))
    got = []

    async def process(deltas):
        got.append([(d.type, d.object) for d in deltas])

    for i in range(keys):
        t = sx.spawn(f.pop(process))
        if i % 100 == 0:
            await sx.settle()
    await sx.settle()
    sx.check(len(got) == keys, "a key is never popped")
    for i, deltas in enumerate(got):
        want = [(A, (i, 0)), (U, (i, 1))]
        if i == k:
            want += [(D, (k, 2))] if delete else [(U, (k, n + 2)) for n in range(keys)]
        sx.check(deltas == want, "popped other changes than the ones made")
    sx.check(not f.list_keys(), "a key is left")


class Alike:
    """An object that equals any other of its key."""

    def __init__(self, key):
        self.key = key

    def __eq__(self, other):
        return isinstance(other, Alike) and self.key == other.key

    def __hash__(self):
        return hash(self.key)


@harness(
    quick=dict(ops=5),
    thorough=dict(ops=7),
    covers=("the same object again", "an equal object", "deletions merged", "popped"),
    bounds="every sequence of `ops` add/update/delete/pop calls with the object of before, or with another that equals it, for a queue with the key known or not; all pending changes are the ones made, by identity",
)
async def look_alikes(sx, ops):
    known = {}
    if sx.bool("known"):
        known["a"] = Alike("a")

    class Held:
        def list_keys(self):
            return list(known)

        def get_by_key(self, key):
            return known.get(key)

    f = DeltaFIFO(lambda o: o.key, Held())
    want, last = [], None
    for i in range(ops):
        op = sx.choose(f"op{i}", ("add", "update", "delete") + (("pop",) if want else ()))
        if op != "pop":
            if last is None or not sx.bool(f"same{i}"):
                sx.cover("an equal object")
                last = Alike("a")
            else:
                sx.cover("the same object again")
            kind = dict(add=A, update=U, delete=D)[op]
            if kind is not D:
                want.append((kind, last))
            elif want and want[-1][0] is D:
                sx.cover("deletions merged")
            elif want or known:
                want.append((kind, last))
            await getattr(f, op)(last)
        else:
            sx.cover("popped")

            async def process(deltas):
                pass

            t = sx.spawn(f.pop(process))
            await sx.settle()
            got = sx.done_result(t, "pop")
            sx.check([d.type for d in got] == [k for k, _ in want] and all(d.object is o for d, (_, o) in zip(got, want)), "popped other changes than the ones made")
            want = []
            continue
        got = f.get_by_key("a") or []
        sx.check([d.type for d in got] == [k for k, _ in want] and all(d.object is o for d, (_, o) in zip(got, want)), "pending changes are not the ones made")
