"""What a relist finds reaches every handler of a shared informer."""

import asyncio

from aiok8s.cache import shared_informer
from props.c16 import name_in, server_of
from props.c17 import Handler, consistent, name_of
from symx.harness import harness


@harness(
    quick=[dict(missed=2, periods=(0, 2), relists=1), dict(missed=1, periods=(2, 3), relists=1),
           dict(missed=1, periods=(0, 2), relists=2), dict(missed=1, periods=(0, 0), relists=1),
           dict(missed=1, periods=(0, 2), relists=1, form="raw"), dict(missed=1, periods=(0, 2), relists=1, form="versionless")],
    thorough=[dict(missed=3, periods=(0, 2), relists=1), dict(missed=2, periods=(0, 2, 3), relists=2),
              dict(missed=2, periods=(2, 3), relists=2),
              dict(missed=2, periods=(0, 2), relists=2, form="raw"), dict(missed=2, periods=(0, 2), relists=2, form="versionless")],
    covers=("typed", "raw", "versionless", "added", "updated", "deleted", "recreated", "resync before", "nothing missed"),
    bounds="two objects, `relists` times a lost watch during which up to `missed` changes of every kind are missed, "
    "an arbitrary time of up to 4 s before each loss; handlers with resync periods `periods` (0: none); typed objects, raw ones, or some without versions (`form`)",
)
async def relist(sx, missed, periods, relists, form="typed"):
    make, expected = server_of(sx, (form,))
    server = make()
    informer = shared_informer.new_shared_informer(server, expected, 2 if any(periods) else 0)
    handlers = [Handler(sx, f"h{i}") for i in range(len(periods))]
    for h, p in zip(handlers, periods):
        await informer.add_event_handler(h, resync_period=p)
    server.change("a")
    server.change("b")
    task = sx.spawn(informer.run())
    for r in range(relists):
        d = sx.real(f"before{r}", 0, 4)
        await asyncio.sleep(d)
        await sx.settle()
        if any(len(h.log) > 2 for h in handlers):
            sx.cover("resync before")
        server.cut = True
        server.break_watches()
        await sx.settle()
        before = list(server.held.objs)
        n = sx.int(f"missed{r}", 0, missed)
        for i in range(missed):
            if n <= i:
                break
            kind = sx.choose(f"kind{r}_{i}", ("a", "c", "delete", "recreate"))
            if kind in ("a", "c"):
                server.change(kind)
            elif not server.held.objs:
                return await sx.finish(task)
            else:
                name = name_in(server.held.objs[0])
                server.delete(name)
                if kind == "recreate":
                    server.change(name)
                    sx.cover("recreated")
        marks = [len(h.log) for h in handlers]
        server.cut = False
        lists = server.lists
        while server.lists == lists:
            await asyncio.sleep(0.25)
        await sx.settle()
        after = list(server.held.objs)
        for h, m in zip(handlers, marks):
            new = h.log[m:]
            for o in after:
                old = [p for p in before if name_in(p) == name_in(o)]
                said = [x for x in new if x[0] != "delete" and x[2] is o]
                if not old:
                    sx.check(len(said) == 1 and said[0][0] == "add", "a handler misses an object found by a relist")
                    sx.cover("added")
                elif old[0] is not o:
                    sx.check(len(said) == 1 and said[0][0] == "update" and said[0][1] is old[0],
                             "a handler misses a change found by a relist")
                    sx.cover("updated")
                else:
                    sx.check(len(said) <= 1, "an unchanged object is notified more than once")
            for o in before:
                if not any(name_in(p) == name_in(o) for p in after):
                    said = [x for x in new if x[0] == "delete" and x[1] is o]
                    sx.check(len(said) == 1, "a handler misses a deletion found by a relist")
                    sx.cover("deleted")
        if after == before:
            sx.cover("nothing missed")
        for h, m, p in zip(handlers, marks, periods):
            same = [x for x in h.log[m:] if x[0] == "update" and x[1] is x[2]]
            for g, k, q in zip(handlers, marks, periods):
                if q and not p:
                    others = [x for x in g.log[k:] if x[0] == "update" and x[1] is x[2]]
                    sx.check(len(same) <= len(others) or not others,
                             "a handler without resyncs is told more about unchanged objects than another")
        for h in handlers:
            sx.check(consistent(h.log, server), "the notifications do not yield the server's content")
    sx.obs("logs", [[(x[0], name_of(x)) for x in h.log] for h in handlers])
    await sx.finish(task)
