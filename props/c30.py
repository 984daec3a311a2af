"""Group, version and kind of objects, and reflectors restricted to one kind."""

import asyncio

from kubernetes_asyncio.client import V1Job, V1ObjectMeta

from aiok8s.api import meta
from aiok8s.cache import store
from aiok8s.cache.reflector import Reflector
from aiok8s.runtime.schema import GroupVersionKind
from props.c13 import name
from symx.harness import harness


def api(group, version):
    return version if group == "" else group + "/" + version


def triple(sx, i, most):
    """A group, which may be none, a version and a kind."""
    if most is None:
        group = sx.atom(f"group{i}") if sx.bool(f"grouped{i}") else ""
        return group, sx.atom(f"version{i}"), sx.atom(f"kind{i}")
    return name(sx, f"group{i}", most, empty=True), name(sx, f"version{i}", most), name(sx, f"kind{i}", most)


@harness(
    quick=[dict(most=None), dict(most=2)],
    thorough=[dict(most=None), dict(most=4)],
    covers=("core group", "named group"),
    bounds="typed and raw objects, all groups (also none), versions and kinds without a slash: opaque ones of any length, "
    "and ones spelled out in up to `most` characters",
)
async def derived(sx, most):
    group, version, kind = triple(sx, 0, most)
    av = api(group, version)
    sx.cover("core group" if group == "" else "named group")
    if sx.bool("typed"):
        obj = V1Job(api_version=av, kind=kind)
    else:
        obj = {"apiVersion": av, "kind": kind}
    t = meta.type_accessor(obj)
    sx.check(t.kind == kind and t.api_version == av, "kind or version are not the object's")
    gvk = t.group_version_kind
    sx.check(sx.And(gvk.group == group, gvk.version == version, gvk.kind == kind), "wrong group, version or kind")
    sx.check(isinstance(gvk, GroupVersionKind), "not a GroupVersionKind")
    sx.obs("gvk", gvk)


class Stream:
    def __init__(self, events):
        self.events = events

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        pass

    def __aiter__(self):
        return self

    async def __anext__(self):
        if self.events:
            return self.events.pop(0)
        await asyncio.Event().wait()


@harness(
    quick=[dict(most=None)],
    thorough=[dict(most=None), dict(most=2)],
    covers=("accepted", "rejected"),
    bounds="a reflector for an arbitrary group (also none), version and kind (as above), a raw event of an arbitrary other "
    "or the same",
)
async def restricted(sx, most):
    names = [triple(sx, i, most) for i in range(2)]
    want = GroupVersionKind(*names[0])
    group, version, kind = names[1]
    obj = {"apiVersion": api(group, version), "kind": kind, "metadata": {"name": "n", "namespace": "", "resourceVersion": "8"}}
    after = {"apiVersion": api(want.group, want.version), "kind": want.kind,
             "metadata": {"name": "after", "namespace": "", "resourceVersion": "9"}}

    class Server:
        async def list(self, options):
            return {"metadata": {"resourceVersion": "7"}, "items": []}

        async def watch(self, options):
            return Stream([{"type": "ADDED", "object": obj}, {"type": "ADDED", "object": after}])

    s = store.new_store(store.meta_namespace_key_func)
    r = Reflector(Server(), want, s, 0)
    task = sx.spawn(r.run())
    await sx.settle()
    same = sx.And(*[a == b for a, b in zip(names[0], names[1])])
    if same:
        sx.cover("accepted")
        sx.check(s.get_by_key("n") is obj, "an event of the expected kind was not accepted")
    else:
        sx.cover("rejected")
        sx.check(s.get_by_key("n") is None, "an event of another kind was accepted")
    sx.check(s.get_by_key("after") is after, "the next event of the expected kind was not accepted")
    await sx.finish(task)
