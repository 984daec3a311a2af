"""A config map lock stores and returns exactly the record it was given."""

import asyncio

from props import kube
from aiok8s.leaderelection import leaderelection
from kubernetes_asyncio.client.rest import ApiException
from props.c31 import TIMES, draws
from props.lease import Candidate
from symx.harness import harness

try:
    from aiok8s.leaderelection import resourcelock

    UNUSABLE = None
except ImportError as e:
    UNUSABLE = str(e)

KEY = "control-plane.alpha.kubernetes.io/leader"


class Json:
    """Takes the place of the json module, whose C code takes no symbolic values: `loads` of
    what `dumps` gave is an equal object, and there is no more to know about the text."""

    def __init__(self):
        self.made = []

    def dumps(self, obj, **kwargs):
        self.made.append(dict(obj))
        return f"json{len(self.made) - 1}"

    def loads(self, text, **kwargs):
        assert text.startswith("json")
        return dict(self.made[int(text[4:])])


def same(sx, a, b):
    """Whether two records are equal."""
    return sx.And(a.keys() == b.keys(), *(sx.Eq(a[k], b[k]) for k in b if k in a))


@harness(
    quick=[dict(ops=4, failing=False), dict(ops=3, failing=True)],
    thorough=[dict(ops=5, failing=False), dict(ops=4, failing=True)],
    covers=(
        "got none", "got a record", "no annotations", "other annotation", "created", "create conflict", "updated", "update conflict", "updated twice",
        "error passed on", "update before get", "deleted", "no record yet",
    ),
    bounds="a config map that is absent, or has no annotations, other ones, a record, or both; every sequence of `ops` of: get, create, update, a change of the record or of another annotation by "
    "somebody else, deletion of the config map; at most one request (with `failing`) fails with a status of 403, 409 or 500; records with any holder, count and times",
)
async def lock(sx, ops, failing):
    sx.check(UNUSABLE is None, f"the resource lock cannot be imported: {UNUSABLE}")
    kube.reset()
    server = kube.CONFIG_MAPS[0]
    at = ("ns", "cm")
    json = resourcelock.json
    if sx.symbolic:
        resourcelock.json = Json()
    try:
        n = [0]

        def record():
            n[0] += 1
            i = n[0]
            return dict(holderIdentity=sx.atom(f"holder{i}"), leaderTransitions=sx.int(f"count{i}"), renewTime=sx.int(f"time{i}"))

        held, others = None, {}
        state = sx.choose("state", ("absent", "none", "other", "record", "both"))
        if state != "absent":
            if state in ("other", "both"):
                others["color"] = "red"
                sx.cover("other annotation")
            annotations = dict(others)
            if state in ("record", "both"):
                held = record()
                annotations[KEY] = resourcelock.json.dumps(held)
            if state == "none":
                sx.cover("no annotations")
            server.put(*at, annotations or None, dict(k="v"))
        data = dict(k="v")
        lk = resourcelock.new("ns", "cm", resourcelock.ResourceLockConfig(identity="me"))
        sx.check(lk.identity() == "me", "a lock with another identity than given")
        read = None  # the version last read
        ever = False  # whether there was any
        fault = [None]

        async def behave(*request):
            if fault[0] is not None:
                e, fault[0] = fault[0], None
                raise e

        server.behave = behave
        failed = not failing
        updates = 0
        for i in range(ops):
            op = sx.choose(f"op{i}", ("get", "create", "update", "change", "annotate", "delete"))
            known = server.maps.get(at)
            if op in ("get", "create", "update") and not failed and sx.bool(f"fails{i}"):
                failed = True
                fault[0] = ApiException(status=sx.choose("status", (403, 409, 500)))
            error, planned = None, fault[0]
            requests = len(server.requests)
            if op == "get":
                try:
                    got, raw = await lk.get()
                except Exception as e:
                    error = e
                if error is None:
                    if known is None:
                        sx.cover("got none")
                        sx.check(got is None, "an absent config map reads as a record")
                        read = None
                    else:
                        read = known[0]
                        if held is None:
                            sx.cover("no record yet")
                            sx.check(not got, "an absent annotation reads as a record")
                        else:
                            sx.cover("got a record")
                            sx.check(same(sx, got, held), "another record is read than was stored")
                            sx.check(raw == known[1][KEY], "another raw record than stored")
            elif op == "create":
                r = record()
                try:
                    await lk.create(r)
                except Exception as e:
                    error = e
                if error is None:
                    sx.check(known is None, "an existing config map is created")
                    sx.check(server.maps.keys() == {at}, "another config map is created")
                    sx.cover("created")
                    held, others, data = r, {}, None
                    read = server.maps[at][0]
                elif planned is None:
                    sx.cover("create conflict")
                    sx.check(known is not None and error.status == 409, f"creating raises {error!r}")
            elif op == "update":
                r = record()
                try:
                    await lk.update(r)
                except Exception as e:
                    error = e
                made = server.requests[requests:]
                if read is None:
                    sx.cover("update before get")
                    sx.check(error is not None, "an update before a get or a create")
                    sx.check(ever or not made, "an update before a get or a create is sent")
                    if planned is not None:
                        return
                    continue
                sx.check(len(made) == 1 and made[0] == ("replace", *at, read), "an update without the version last read")
                if error is None:
                    sx.check(known is not None and known[0] == read, "an update overwrites a change by somebody else")
                    sx.cover("updated")
                    updates += 1
                    if updates > 1:
                        sx.cover("updated twice")
                    held = r
                    read = server.maps[at][0]
                elif planned is None:
                    sx.cover("update conflict")
                    sx.check(known is None or known[0] != read, f"updating raises {error!r}")
                    sx.check(error.status == (404 if known is None else 409), f"updating raises {error!r}")
            elif op == "delete":
                if known is None:
                    return
                sx.cover("deleted")
                server.maps.clear()
                held, others = None, {}
            else:
                if known is None:
                    return
                if op == "change":
                    held = record()
                else:
                    others = dict(others, shape=str(i))
                annotations = dict(others)
                if held is not None:
                    annotations[KEY] = resourcelock.json.dumps(held)
                server.put(*at, annotations, data)
            ever = ever or read is not None
            if planned is not None:
                sx.check(error is planned, "an error of a request is not passed on")
                sx.cover("error passed on")
            # What the server has now
            if held is None:
                sx.check(at not in server.maps or KEY not in (server.maps[at][1] or {}), "a record appears by itself")
            else:
                annotations = server.maps[at][1]
                sx.check(same(sx, resourcelock.json.loads(annotations[KEY]), held), "another record is stored than was given")
                sx.check({k: v for k, v in annotations.items() if k != KEY} == others, "other annotations are not kept")
                sx.check(server.maps[at][2] == data, "the data are not kept")
    finally:
        resourcelock.json = json


@harness(
    quick=dict(errors=2),
    thorough=dict(errors=4),
    covers=("config map absent", "no annotations", "other annotation", "record without holder", "leads", "two electors"),
    bounds="two electors with config map locks; the config map is absent, has no annotations, others, or a record without a holder; each of the first `errors` requests may fail "
    "with a status of 403 or 500; for 12 s exactly one leads",
)
async def elect(sx, errors):
    draws(sx, 0)
    sx.check(UNUSABLE is None, f"the resource lock cannot be imported: {UNUSABLE}")
    kube.reset()
    server = kube.CONFIG_MAPS[0]
    at = ("ns", "cm")
    json, resourcelock.json = resourcelock.json, Json()
    try:
        state = sx.choose("state", ("absent", "none", "other", "released"))
        if state == "absent":
            sx.cover("config map absent")
        elif state == "none":
            sx.cover("no annotations")
            server.put(*at, None)
        elif state == "other":
            sx.cover("other annotation")
            server.put(*at, dict(color="red"))
        else:
            sx.cover("record without holder")
            server.put(*at, {KEY: resourcelock.json.dumps(dict(leaderTransitions=3))})
        n = [0]

        async def behave(*request):
            n[0] += 1
            if n[0] <= errors and sx.bool(f"fails{n[0]}"):
                raise ApiException(status=sx.choose(f"status{n[0]}", (403, 500)))

        server.behave = behave

        class Log:
            def __init__(self):
                self.writes = [("", "a"), ("", "b")]
                self.sx = sx

        es = []
        for name in "ab":
            e = Candidate(sx, Log(), name, None, es, **TIMES)
            e.lock = resourcelock.new(*at, resourcelock.ResourceLockConfig(identity=name))
            e.elector = leaderelection.LeaderElector(e.elector._config._replace(lock=e.lock))
            es.append(e)
            e.run()
        es[0].others.append(es[1])
        await asyncio.sleep(12)
        sx.check(sum(e.leading for e in es) == 1, "not exactly one elector leads")
        leader = [e for e in es if e.leading][0]
        held = resourcelock.json.loads(server.maps[at][1][KEY])
        sx.check(held["holderIdentity"] == leader.name, "the record names somebody else than the leader")
        sx.check(held["leaderTransitions"] == (0 if state == "absent" else 4 if state == "released" else held["leaderTransitions"]), "wrong number of transitions")
        if state == "other":
            sx.check(server.maps[at][1]["color"] == "red", "other annotations are not kept")
        sx.cover("two electors")
        await sx.finish(*(e.task for e in es))
    finally:
        resourcelock.json = json
