"""A FIFO: the latest version of each key, once, in first-added order."""

from aiok8s.cache.fifo import FIFO
from props.c07 import key_func
from symx.harness import harness


@harness(
    quick=[dict(ops=3, listed=2, poppers=2), dict(ops=4, listed=0, poppers=2),
           dict(ops=6, listed=0, poppers=1, kinds=("add", "resync", "pop")), dict(ops=5, listed=0, poppers=1, kinds=("add", "delete", "add_if_not_present", "pop"))],
    thorough=[dict(ops=4, listed=2, poppers=1), dict(ops=5, listed=0, poppers=2), dict(ops=4, listed=1, poppers=2),
              dict(ops=7, listed=0, poppers=1, kinds=("add", "resync", "pop")), dict(ops=6, listed=0, poppers=1, kinds=("add", "delete", "add_if_not_present", "resync", "pop"))],
    covers=("latest version", "deletion of an absent key", "add-if-absent ignored", "pop waited", "replaced",
            "order of two keys"),
    bounds="every sequence of up to `ops` add/update/delete/replace/resync/add_if_not_present/pop calls over keys of "
    "arbitrary equality, replaced lists of up to `listed` objects (0: no replace), up to `poppers` pops waiting; with `kinds`, only these calls, over two keys",
)
async def histories(sx, ops, listed, poppers, kinds=None):
    q = FIFO(key_func)
    pending, tainted, waiting = [], [], []

    def find(key):
        for e in pending:
            if e[0] == key:
                return e
        return None

    def popped(t):
        obj = sx.done_result(t, "pop")
        e = find(obj[0])
        sx.check(e is not None, "popped a key that is not pending")
        sx.check(e[1] is obj, "popped an outdated object")
        for x in pending:
            if x is e:
                break
            sx.check(any(k == x[0] or k == e[0] for k in tainted), "keys popped out of order")
        if len(pending) > 1:
            sx.cover("order of two keys")
        pending.remove(e)
        sx.obs("popped", obj[0])

    few = bool(kinds)
    kinds = kinds or ("add", "update", "delete", "add_if_not_present", "resync", "pop") + (("replace",) if listed else ())
    for i in range(ops):
        op = sx.choose(f"op{i}", kinds)
        if op == "pop":
            if len(waiting) >= poppers:
                return await sx.finish(*waiting)
            waiting.append(sx.spawn(q.pop(lambda x: None)))
        elif op == "resync":
            await q.resync()
        elif op == "replace":
            n = sx.int(f"size{i}", 0, listed)
            new = []
            for j in range(listed):
                if n <= j:
                    break
                new.append((sx.atom(f"key{i}_{j}"), (i, j)))
            old = [e[0] for e in pending]
            pending.clear()
            for o in new:
                e = find(o[0])
                if e is None:
                    pending.append([o[0], o])
                else:
                    e[1] = o
            # A replace defines the order anew.
            tainted.clear()
            if old:
                sx.cover("replaced")
            await q.replace(new, "1")
        else:
            obj = (sx.choose(f"key{i}", ("a", "b")) if few else sx.atom(f"key{i}"), i)
            e = find(obj[0])
            if op == "delete":
                if e is None:
                    sx.cover("deletion of an absent key")
                else:
                    pending.remove(e)
                    tainted.append(obj[0])
                await q.delete(obj)
            elif op == "add_if_not_present":
                if e is None:
                    pending.append([obj[0], obj])
                else:
                    sx.cover("add-if-absent ignored")
                await q.add_if_not_present(obj)
            else:
                if e is None:
                    pending.append([obj[0], obj])
                else:
                    e[1] = obj
                    sx.cover("latest version")
                await (q.add(obj) if op == "add" else q.update(obj))
            if waiting and pending:
                sx.cover("pop waited")
        await sx.settle()
        for t in [t for t in waiting if t.done()]:
            waiting.remove(t)
            popped(t)
        sx.check(not (waiting and pending), "an object and a pop wait for each other")
        sx.check(len(q.list()) == len(q.list_keys()) == len(pending), "wrong number of pending objects")
        for k, o in pending:
            sx.check(q.get(o) is o and q.get_by_key(k) is o, "a pending object is not the latest version")
    while pending:
        t = sx.spawn(q.pop(lambda x: None))
        await sx.settle()
        popped(t)
    t = sx.spawn(q.pop(lambda x: None))
    await sx.settle()
    sx.check(not t.done(), "popped something from an empty queue")
    await sx.finish(t, *waiting)


@harness(
    quick=dict(adds=3, turns=2),
    thorough=dict(adds=4, turns=2),
    covers=("pop before add", "add before pop"),
    bounds="`adds` additions of keys of arbitrary equality by two tasks at arbitrary loop turns up to `turns` "
    "apart, with two poppers starting at arbitrary turns",
)
async def concurrent(sx, adds, turns):
    q = FIFO(key_func)
    added, popped = [], []

    async def popper(n):
        await sx.ticks(f"start{n}", turns)
        sx.cover("add before pop" if added else "pop before add")
        while True:
            await q.pop(lambda o: popped.append((o, len(added))))

    async def adder(mine):
        for i in mine:
            await sx.ticks(f"gap{i}", turns)
            obj = (sx.atom(f"key{i}"), i)
            await q.add(obj)
            added.append(obj)

    tasks = [sx.spawn(popper(n)) for n in range(2)]
    both = [sx.spawn(adder(range(0, adds, 2))), sx.spawn(adder(range(1, adds, 2)))]
    await sx.settle()
    for t in both:
        sx.done_result(t, "add")
    sx.check(not q.list_keys(), "objects are left although poppers wait")
    order = [o[1] for o in added]
    seen = [o[1] for o, _ in popped]
    sx.check(len(set(seen)) == len(seen), "an addition was delivered twice")
    for o in added:
        newer = [p for p in added if order.index(p[1]) > order.index(o[1])]
        sx.check(sx.Or(o[1] in seen, *[p[0] == o[0] for p in newer]), "the latest version of a key was lost")
    for i, (a, _) in enumerate(popped):
        for b, _ in popped[i + 1:]:
            sx.check(sx.Or(order.index(a[1]) < order.index(b[1]), a[0] != b[0]), "an older version came out later")
    sx.obs("popped", seen)
    await sx.finish(*tasks)


@harness(
    quick=dict(keys=1100),
    thorough=dict(keys=5000),
    covers=("replaced", "added"),
    bounds="`keys` keys, added or listed, and the first, middle or last of them updated or deleted; then all popped",
)
async def large(sx, keys):
    q = FIFO(key_func)
    if sx.bool("listed"):
        sx.cover("replaced")
        await q.replace([(i, 0) for i in range(keys)], "1")
    else:
        sx.cover("added")
        for i in range(keys):
            await q.add((i, 0))
    k, delete = sx.choose("which", (0, keys // 2, keys - 1)), sx.bool("delete")
    await (q.delete if delete else q.update)((k, 1))
    want = [(i, int(i == k)) for i in range(keys) if not (delete and i == k)]
    sx.check(sorted(q.list_keys()) == [o[0] for o in want], "wrong keys")
    for o in want:
        t = sx.spawn(q.pop(lambda x: None))
        await sx.settle()
        sx.check(sx.done_result(t, "pop") == o, "popped another object")
