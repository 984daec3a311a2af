"""Stores and their indexes."""

from aiok8s.cache import index, store
from symx.harness import harness


class Obj:
    def __init__(self, key, one, two=()):
        self.key, self.one, self.two = key, one, two


def key_func(o):
    return o.key


def is_in(x, xs):
    return any(x == y for y in xs)


class Model:
    def __init__(self):
        self.objs = []

    def put(self, o):
        for i, p in enumerate(self.objs):
            if p.key == o.key:
                self.objs[i] = o
                return "update"
        self.objs.append(o)
        return "add"

    def drop(self, key):
        n = len(self.objs)
        self.objs = [o for o in self.objs if o.key != key]
        return len(self.objs) < n


def same(got, want):
    got = list(got)
    return len(got) == len(want) and all(any(g is w for w in want) for g in got) and len({id(g) for g in got}) == len(got)


async def kept(sx, s, names, reads):
    """What was read earlier stays as it was read; notes what is read now."""
    for got, then in reads:
        sx.check(len(got) == len(then) and all(a is b for a, b in zip(got, then)), "what was read changes with the store")
    now = [s.list(), s.list_keys()]
    for name in names:
        values = await s.list_index_func_values(name)
        now.append(values)
        for v in list(values):
            now += [await s.by_index(name, v), await s.index_keys(name, v)]
        for o in s.list():
            now.append(await s.index(name, o))
    reads += [(got, list(got)) for got in now]


async def compare(sx, s, m, names, probe):
    """Every read of the store against the held objects."""
    sx.check(same(s.list(), m.objs), "list() is not the held objects")
    keys = s.list_keys()
    sx.check(len(keys) == len(m.objs), "wrong number of keys")
    for o in m.objs:
        sx.check(is_in(o.key, keys), "a key is missing")
        sx.check(s.get_by_key(o.key) is o and s.get(o) is o, "a read does not give the last written object")
    for name in names:
        vals = [v for o in m.objs for v in getattr(o, name)]
        listed = await s.list_index_func_values(name)
        sx.check(all(is_in(v, listed) for v in vals), "an index lacks a value")
        sx.check(all(is_in(v, vals) for v in listed), "an index lists a value no object has")
        if probe is not None:
            vals = vals + [probe]
        seen = []
        for v in vals:
            if is_in(v, seen):
                continue
            seen.append(v)
            want = [o for o in m.objs if is_in(v, getattr(o, name))]
            sx.check(same(await s.by_index(name, v), want), "an index lists wrong objects for a value")
            got = await s.index_keys(name, v)
            sx.check(len(got) == len(want) and all(is_in(o.key, got) for o in want), "an index lists wrong keys")
        for o in m.objs:
            want = [p for p in m.objs if any(is_in(v, getattr(o, name)) for v in getattr(p, name))]
            sx.check(same(await s.index(name, o), want), "index() gives wrong objects")


def values(sx, name, most, universe):
    n = sx.int(f"{name}_n", 0, most)
    out = []
    for j in range(most):
        if n <= j:
            break
        out.append(sx.atom(f"{name}_{j}", universe))
    return out


@harness(
    quick=[dict(ops=2, vals=2, listed=0, universe=2), dict(ops=2, vals=1, listed=0, universe=None),
           dict(ops=1, vals=1, listed=2, universe=2)],
    thorough=[dict(ops=2, vals=2, listed=0, universe=None), dict(ops=3, vals=2, listed=0, universe=2),
              dict(ops=3, vals=1, listed=0, universe=None), dict(ops=1, vals=2, listed=2, universe=2),
              dict(ops=2, vals=1, listed=2, universe=2)],
    covers=("updated", "deleted", "deletion of an absent key", "repeated value", "several values", "no value"),
    bounds="up to `ops` add/update/delete calls with keys and index values of arbitrary equality (up to `vals` values "
    "per object, repeated ones too; `universe` bounds the different keys and values, if given) after an initial object, replaces by up to `listed` objects (0: none); after "
    "each call every read is compared",
)
async def histories(sx, ops, vals, listed, universe):
    s = store.new_indexer(key_func, index.Indexers(one=lambda o: o.one))
    m = Model()
    o = Obj(sx.atom("key", universe), values(sx, "val", vals, universe))
    m.put(o)
    await s.add(o)
    if len(o.one) == 2 and o.one[0] == o.one[1]:
        sx.cover("repeated value")
    elif len(o.one) == 2:
        sx.cover("several values")
    reads = []
    for i in range(ops):
        await kept(sx, s, ("one",), reads)
        op = sx.choose(f"op{i}", ("add", "update", "delete") + (("replace",) if listed else ()))
        if op == "replace":
            n = sx.int(f"size{i}", 0, listed)
            new = []
            m.objs = []
            for j in range(listed):
                if n <= j:
                    break
                new.append(Obj(sx.atom(f"key{i}_{j}", universe), values(sx, f"val{i}_{j}", vals, universe)))
                m.put(new[-1])
            await s.replace(new, "1")
        else:
            o = Obj(sx.atom(f"key{i}", universe), values(sx, f"val{i}", vals if op != "delete" else 0, universe))
            if op == "delete":
                sx.cover("deleted" if m.drop(o.key) else "deletion of an absent key")
                await s.delete(o)
            else:
                if m.put(o) == "update":
                    sx.cover("updated")
                if not o.one:
                    sx.cover("no value")
                await (s.add(o) if op == "add" else s.update(o))
        await compare(sx, s, m, ("one",), None)
    await compare(sx, s, m, ("one",), "some value no object has")
    await kept(sx, s, ("one",), reads)
    sx.obs("keys", [o.key for o in m.objs])


@harness(
    quick=dict(objs=2),
    thorough=dict(objs=3),
    covers=("added", "name taken", "store in use", "works after adding"),
    bounds="a store with zero or one indexer, adding one or two indexers under names taken or free, before or after "
    "an object is stored or after it was deleted again, then up to `objs` objects",
)
async def add_indexers(sx, objs):
    first = sx.bool("first")
    names = {"one": lambda o: o.one, "two": lambda o: o.two}
    s = store.new_indexer(key_func, index.Indexers({"one": names["one"]} if first else {}))
    m = Model()
    if sx.bool("used"):
        o = Obj(sx.atom("used_key"), ["x"], ["y"])
        await s.add(o)
        m.put(o)
        if sx.bool("deleted"):
            await s.delete(o)
            m.drop(o.key)
    new = {n: f for n, f in names.items() if sx.bool(f"add_{n}")}
    if not new:
        return
    err = None
    try:
        await s.add_indexers(index.Indexers(new))
    except Exception as e:
        err = e
    have = set(s.get_indexers())
    if m.objs:
        sx.cover("store in use")
        sx.check(err is not None, "indexers were added to a store in use")
        sx.check(have == ({"one"} if first else set()), "indexers changed although the call failed")
    elif first and "one" in new:
        sx.cover("name taken")
        sx.check(err is not None, "an indexer replaced another")
        sx.check(have == {"one"} and s.get_indexers()["one"] is names["one"], "indexers changed although the call failed")
    else:
        sx.cover("added")
        sx.check(err is None, f"adding indexers to an empty store failed: {err!r}")
        sx.check(have == set(new) | ({"one"} if first else set()), "wrong indexers")
    for i in range(objs):
        o = Obj(sx.atom(f"key{i}"), [sx.atom(f"one{i}")], [sx.atom(f"two{i}")])
        m.put(o)
        await s.add(o)
    sx.cover("works after adding")
    await compare(sx, s, m, sorted(have), None)
    for name in {"one", "two"} - have:
        for call in (s.by_index(name, "x"), s.index_keys(name, "x"), s.index(name, o)):
            try:
                await call
            except KeyError:
                continue
            sx.fail("an index that does not exist was read")


@harness(
    quick=dict(objs=5, ops=1),
    thorough=dict(objs=6, ops=2),
    covers=("all together", "updated", "deleted", "replaced"),
    bounds="`objs` objects under different keys, each with one of two values, and `ops` changes of an arbitrary one of them: an "
    "update to one of two values, a deletion, or a replace that lists all others and possibly a new one",
)
async def many(sx, objs, ops):
    s = store.new_indexer(key_func, index.Indexers(one=lambda o: o.one))
    m = Model()
    for i in range(objs):
        o = Obj(f"key{i}", ["x" if i == 0 or sx.bool(f"same{i}") else "y"])
        m.put(o)
        await s.add(o)
    if all(o.one == ["x"] for o in m.objs):
        sx.cover("all together")
    await compare(sx, s, m, ("one",), None)
    for i in range(ops):
        key = f"key{sx.choose(f'which{i}', range(objs))}"
        op = sx.choose(f"op{i}", ("update", "delete", "replace"))
        o = Obj(key, ["x" if op == "delete" or sx.bool(f"value{i}") else "z"])
        if op == "update":
            m.put(o)
            await s.update(o)
        elif op == "delete":
            m.drop(key)
            await s.delete(o)
        else:
            m.drop(key)
            if o.one == ["z"]:
                m.put(o)
            await s.replace(list(m.objs), "1")
        sx.cover(op.rstrip("e") + "ed")
        await compare(sx, s, m, ("one",), "some value no object has")


@harness(
    quick=dict(ops=2),
    thorough=dict(ops=4),
    covers=("added before the start", "refused after the start", "refused though empty", "given at the start"),
    bounds="a shared informer that is given an indexer at its construction or not, and one or two more before the start, or after "
    "it (refused, be there objects or not); up to `ops` changes (create or modify one of two objects, delete one, lose the watch) before or after the start",
)
async def informer_indexes(sx, ops):
    import asyncio

    from aiok8s.cache import shared_informer
    from props.c16 import Server, Thing

    funcs = {
        "name": lambda o: [o.metadata.name],
        "parity": lambda o: [int(o.metadata.resource_version) % 2],
        "all": lambda o: ["x", o.metadata.name],
    }
    server = Server()
    have = {"name"} if sx.bool("given") else set()
    sx.cover("given at the start" if have else "not given")
    informer = shared_informer.new_shared_index_informer(
        server, Thing, 0, index.Indexers({n: funcs[n] for n in have})
    )
    new = [n for n in ("parity", "all") if sx.bool(f"add_{n}")]
    late = sx.bool("late")
    if not late:
        for n in new:
            await informer.add_indexers(index.Indexers({n: funcs[n]}))
            sx.cover("added before the start")
        have |= set(new)
    empty = sx.bool("empty") if late else False
    if not empty:
        server.change("a")
    task = sx.spawn(informer.run())
    await sx.settle()
    if late:
        for n in new:
            try:
                await informer.add_indexers(index.Indexers({n: funcs[n]}))
            except Exception:
                sx.cover("refused after the start")
                if empty:
                    sx.cover("refused though empty")
            else:
                sx.fail("a running informer accepted an indexer")
    s = informer.get_indexer()
    for i in range(ops):
        op = sx.choose(f"op{i}", ("a", "b", "delete", "lost"))
        if op == "delete":
            if not server.held.objs:
                break
            server.delete(server.held.objs[0].metadata.name)
        elif op == "lost":
            server.break_watches()
        else:
            server.change(op)
        if sx.bool(f"settled{i}"):
            await asyncio.sleep(3)
    await asyncio.sleep(10)
    sx.check(set(s.get_indexers()) == have, "an informer has other indexers than it was given")
    sx.check(same(s.list(), server.held.objs), "an informer does not hold what the server holds")
    for n in have:
        values = {v for o in server.held.objs for v in funcs[n](o)}
        sx.check(values <= set(await s.list_index_func_values(n)), "an index of an informer lacks a value")
        for v in [*values, "none"]:
            want = [o for o in server.held.objs if v in funcs[n](o)]
            sx.check(same(await s.by_index(n, v), want), "an index of an informer lists wrong objects")
    await sx.finish(task)


@harness(
    quick=dict(objs=1100),
    thorough=dict(objs=10000),
    covers=("updated", "deleted", "replaced"),
    bounds="`objs` objects under different keys, every third with one value and the others each with one of their own; then an arbitrary "
    "one of the first or the last two is updated to the common value, to one of its own or to none, or deleted, or all but it are replaced",
)
async def large(sx, objs):
    s = store.new_indexer(key_func, index.Indexers(one=lambda o: o.one))
    held = {}
    for i in range(objs):
        held[f"key{i}"] = Obj(f"key{i}", ["x" if i % 3 == 0 else f"value{i}"])
        await s.add(held[f"key{i}"])

    async def check():
        sx.check(len(s.list()) == len(held) and {id(o) for o in s.list()} == {id(o) for o in held.values()}, "list() is not the held objects")
        sx.check(sorted(s.list_keys()) == sorted(held), "list_keys() is not the keys of the held objects")
        sx.check(all(s.get_by_key(k) is o for k, o in held.items()), "a read does not give the last written object")
        vals = {v for o in held.values() for v in o.one}
        listed = await s.list_index_func_values("one")
        sx.check(len(listed) == len(vals) and set(listed) == vals, "wrong values of an index")
        many = [o for o in held.values() if "x" in o.one]
        sx.check(same_ids(await s.by_index("one", "x"), many), "an index lists wrong objects for a value")
        sx.check(sorted(await s.index_keys("one", "x")) == sorted(o.key for o in many), "an index lists wrong keys for a value")
        for i in (1, 2, objs // 3 * 2 - 1, objs - 2, objs - 1, objs):
            v = f"value{i}"
            sx.check(same_ids(await s.by_index("one", v), [o for o in held.values() if v in o.one]), "an index lists wrong objects for a value")

    def same_ids(got, want):
        got = list(got)
        return len(got) == len(want) and {id(o) for o in got} == {id(o) for o in want}

    await check()
    key = f"key{sx.choose('which', (0, 1, objs - 2, objs - 1))}"
    op = sx.choose("op", ("update", "delete", "replace"))
    sx.cover(op.rstrip("e") + "ed")
    if op == "update":
        held[key] = Obj(key, list(sx.choose("values", ((), ("x",), (f"value{objs}",), ("x", "value1")))))
        await s.update(held[key])
    elif op == "delete":
        await s.delete(held.pop(key))
    else:
        del held[key]
        await s.replace(list(held.values()), "1")
    await check()


class Alike(Obj):
    """An object that equals any other of its key."""

    def __eq__(self, other):
        return isinstance(other, Alike) and self.key == other.key

    def __hash__(self):
        return hash(self.key)


@harness(
    quick=dict(ops=4),
    thorough=dict(ops=6),
    covers=("add", "update", "delete", "replace"),
    bounds="every sequence of `ops` adds, updates, deletions and replaces of objects that equal each other, with one of two values each; the object held is the one last written, by identity",
)
async def look_alikes(sx, ops):
    s = store.new_indexer(key_func, index.Indexers(one=lambda o: o.one))
    m = Model()
    for i in range(ops):
        op = sx.choose(f"op{i}", ("add", "update", "delete", "replace"))
        sx.cover(op)
        o = Alike("a", [sx.choose(f"value{i}", ("x", "y"))])
        if op == "delete":
            m.drop("a")
            await s.delete(o)
        else:
            m.put(o)
            await (s.replace([o], "1") if op == "replace" else getattr(s, op)(o))
        await compare(sx, s, m, ("one",), "some value no object has")
