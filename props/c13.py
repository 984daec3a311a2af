"""Store keys: injective, the same for every object form and for cache reads."""

from kubernetes_asyncio.client import V1ConfigMap, V1ObjectMeta

from aiok8s.cache import store
from aiok8s.cache.controller import deletion_handling_meta_namespace_key_func
from aiok8s.cache.delta_fifo import DeletedFinalStateUnknown, DeltaFIFO
from aiok8s.controller import reconcile
from aiok8s.controller._cache_reader import CacheReader
from symx.harness import harness

FORMS = ("typed", "raw")


def name(sx, label, most, empty=False):
    s = sx.str(label, most)
    sx.assume(sx.Not(slash(s)))
    if not empty:
        sx.assume(s != "")
    return s


def slash(s):
    """Whether a string has a slash, without deciding it."""
    if isinstance(s, str):
        return "/" in s
    import z3

    from symx import values

    return values.mkbool(z3.Contains(s.z, z3.StringVal("/")))


def make(form, ns, nm, absent=False):
    if form == "typed":
        return V1ConfigMap(metadata=V1ObjectMeta(name=nm) if absent else V1ObjectMeta(name=nm, namespace=ns))
    meta = {"name": nm}
    if not absent:
        meta["namespace"] = ns
    return {"apiVersion": "v1", "kind": "ConfigMap", "metadata": meta}


def some_object(sx, i, most):
    """An object, and its namespace with every way of leaving it out given as empty."""
    form = sx.choose(f"form{i}", FORMS)
    left_out = sx.choose(f"ns_kind{i}", ("given", "empty", "none", "absent"))
    nm = name(sx, f"name{i}", most)
    if left_out == "given":
        ns = name(sx, f"ns{i}", most)
        return make(form, ns, nm), ns, nm
    return make(form, "" if left_out == "empty" else None, nm, left_out == "absent"), "", nm


FUNCS = {
    "meta_namespace_key_func": store.meta_namespace_key_func,
    "deletion_handling_meta_namespace_key_func": deletion_handling_meta_namespace_key_func,
    "DeltaFIFO.key_of": DeltaFIFO(store.meta_namespace_key_func).key_of,
}


@harness(
    quick=dict(most=6),
    thorough=dict(most=63),
    covers=("namespaced", "not namespaced"),
    bounds="two objects, each typed or raw, with all names and namespaces of up to `most` characters without a "
    "slash, the namespace given, empty, null or absent; every key function",
)
async def keys(sx, most):
    fn = FUNCS[sx.choose("func", FUNCS)]
    a, ns_a, nm_a = some_object(sx, 0, most)
    b, ns_b, nm_b = some_object(sx, 1, most)
    ka, kb = fn(a), fn(b)
    same = sx.And(ns_a == ns_b, nm_a == nm_b)
    sx.check(sx.Implies(same, ka == kb), "the same name gives different keys")
    sx.check(sx.Implies(ka == kb, same), "different objects get the same key")
    if ns_a == "":
        sx.cover("not namespaced")
        sx.check(ka == nm_a, "an object without a namespace is not keyed by its name")
    else:
        sx.cover("namespaced")
    sx.obs("keys", ka, kb)
    if fn is not store.meta_namespace_key_func:
        sx.check(fn(DeletedFinalStateUnknown(ka, b)) == ka, "a deletion marker has another key than it carries")
    sx.check(store.meta_namespace_key_func(store.ExplicitKey("some/key")) == "some/key", "an explicit key is altered")


@harness(
    quick=dict(most=4),
    thorough=dict(most=12),
    covers=("found", "not found"),
    bounds="a store with two objects of any form and names of up to `most` characters, read by the namespaced name "
    "of either or by another",
)
async def cache_reads(sx, most):
    s = store.new_indexer(store.meta_namespace_key_func, {})
    objs = []
    for i in range(2):
        o, ns, nm = some_object(sx, i, most)
        objs = [e for e in objs if not (e[1] == ns and e[2] == nm)]
        objs.append((o, ns, nm))
        await s.add(o)
    ns = sx.choose("read_ns", [None, "", objs[0][1], objs[-1][1]])
    nm = sx.choose("read_name", [objs[0][2], objs[-1][2], name(sx, "other", most)])
    r = CacheReader(s, None)
    try:
        got = r.get(reconcile.NamespacedName(ns, nm))
    except KeyError:
        got = None
    want = [o for o, n, m in objs if (n == "" if ns is None else n == ns) and m == nm]
    if want:
        sx.cover("found")
        sx.check(got is want[0], "a read does not find the object stored under the name")
    else:
        sx.cover("not found")
        sx.check(got is None, "a read finds an object that has another name")


class NoMeta:
    metadata = None


@harness(
    quick={},
    covers=("rejected",),
    bounds="a fixed set of values that are not objects, every store operation that computes a key",
)
async def not_objects(sx):
    bad = sx.choose("bad", [None, 7, "text", {}, {"metadata": None}, {"metadata": {}}, {"kind": "X"}, NoMeta(), object(), []])
    s = store.new_store(deletion_handling_meta_namespace_key_func)
    from aiok8s.cache.fifo import FIFO

    q = FIFO(store.meta_namespace_key_func)
    kind = sx.choose("op", ("add", "update", "delete", "get", "replace", "fifo add", "fifo delete", "fifo get",
                            "fifo replace", "fifo add_if_not_present"))
    t, op = (q, kind[5:]) if kind.startswith("fifo") else (s, kind)
    try:
        if op == "get":
            t.get(bad)
        elif op == "replace":
            await t.replace([bad], "1")
        else:
            await getattr(t, op)(bad)
    except store.StoreKeyError as e:
        sx.cover("rejected")
        sx.check(e.obj is bad, "the error does not carry the object")
    else:
        sx.fail("something that is not an object was accepted")
    sx.check(not s.list() and not q.list(), "something that is not an object was stored")
