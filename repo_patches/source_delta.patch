From e690a190f6b8a5a52b2d5b23676d3061246f7e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 01/41] fix: shut down the underlying queue of delaying queues

---
 aiok8s/workqueue/delaying_queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/workqueue/delaying_queue.py b/aiok8s/workqueue/delaying_queue.py
index a9768d5..fb266b2 100644
--- a/aiok8s/workqueue/delaying_queue.py
+++ b/aiok8s/workqueue/delaying_queue.py
@@ -59,7 +59,7 @@ class _DelayingType(queue.Type):
     async def shut_down(self):
         if not self._stop_event.is_set():
             self._stop_event.set()
-            await self.shut_down()
+            await super().shut_down()
             self._heartbeat.stop()
 
     async def _waiting_loop(self):
-- 
2.43.0


From a56f2eaa89234bf1a2728bfc371b7fa2e8321e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:19 +0000
Subject: [PATCH 02/41] fix: cap the exponential delay when it exceeds the
 range of floats

---
 aiok8s/workqueue/default_rate_limiters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aiok8s/workqueue/default_rate_limiters.py b/aiok8s/workqueue/default_rate_limiters.py
index e0c7504..33c0ee4 100644
--- a/aiok8s/workqueue/default_rate_limiters.py
+++ b/aiok8s/workqueue/default_rate_limiters.py
@@ -67,7 +67,10 @@ class ItemExponentialFailureRateLimiter:
         exp = self._failures[item]
         self._failures[item] += 1
 
-        backoff = self._base_delay * 2 ** exp
+        try:
+            backoff = self._base_delay * 2 ** exp
+        except OverflowError:
+            return self._max_delay
         calculated = min(backoff, self._max_delay)
         return calculated
 
-- 
2.43.0


From a21be93ea3708eddd93f48afd8ae76a58ff58ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 03/41] fix: delete objects that are only queued when a delta
 queue is replaced

A replace of a queue with known objects looked for vanished objects in the
known objects only.  One that was still pending in the queue, and not known
yet, stayed in the consumer's store forever.
---
 aiok8s/cache/delta_fifo.py | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/aiok8s/cache/delta_fifo.py b/aiok8s/cache/delta_fifo.py
index 5534780..b74eeee 100644
--- a/aiok8s/cache/delta_fifo.py
+++ b/aiok8s/cache/delta_fifo.py
@@ -82,28 +82,24 @@ class DeltaFIFO:
                 key = self.key_of(item)
                 keys.add(key)
                 self._queue_action_locked(DeltaType.SYNC, item)
-            if not self._known_objects:
-                queued_deletions = 0
-                for k, old_item in self._items.items():
-                    if k in keys:
-                        continue
-                    deleted_obj = None
-                    n = old_item.newest()
-                    if n:
-                        deleted_obj = n.object
-                    queued_deletions += 1
-                    self._queue_action_locked(
-                        DeltaType.DELETED, DeletedFinalStateUnknown(k, deleted_obj)
-                    )
-                if not self._populated:
-                    self._populated = True
-                    self._initial_population_count = len(list_) + queued_deletions
-                return
-            known_keys = self._known_objects.list_keys()
             queued_deletions = 0
-            for k in known_keys:
+            for k, old_item in self._items.items():
                 if k in keys:
                     continue
+                deleted_obj = None
+                n = old_item.newest()
+                if n:
+                    deleted_obj = n.object
+                    if isinstance(deleted_obj, DeletedFinalStateUnknown):
+                        deleted_obj = deleted_obj.obj
+                queued_deletions += 1
+                self._queue_action_locked(
+                    DeltaType.DELETED, DeletedFinalStateUnknown(k, deleted_obj)
+                )
+            known_keys = self._known_objects.list_keys() if self._known_objects else []
+            for k in known_keys:
+                if k in keys or k in self._items:
+                    continue
                 try:
                     deleted_obj = self._known_objects.get_by_key(k)
                 except Exception as e:
-- 
2.43.0


From a64a11bd852331150aa369889036e5871b9e789b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:44 +0000
Subject: [PATCH 04/41] fix: report a listed object that has a deletion pending
 in a delta queue

An object recreated while its deletion was still pending was dropped from the
replace that listed it.  A resync skips keys with pending changes by itself.
---
 aiok8s/cache/delta_fifo.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/aiok8s/cache/delta_fifo.py b/aiok8s/cache/delta_fifo.py
index b74eeee..b5ef5a0 100644
--- a/aiok8s/cache/delta_fifo.py
+++ b/aiok8s/cache/delta_fifo.py
@@ -193,14 +193,8 @@ class DeltaFIFO:
         self._items[id_] = deltas
         self._cond.notify_all()
 
-    def _will_object_be_deleted_locked(self, id_):
-        deltas = self._items.get(id_)
-        return deltas and deltas[-1].type is DeltaType.DELETED
-
     def _queue_action_locked(self, action_type, obj):
         id_ = self.key_of(obj)
-        if action_type is DeltaType.SYNC and self._will_object_be_deleted_locked(id_):
-            return
         new_deltas = Deltas([*self._items.get(id_, []), Delta(action_type, obj)])
         new_deltas = _dedup_deltas(new_deltas)
         if new_deltas:
-- 
2.43.0


From a52f8242059f9772d9d9ea5867b76c760d69a2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 05/41] fix: accept the deletion of an absent key in a FIFO

---
 aiok8s/cache/fifo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/cache/fifo.py b/aiok8s/cache/fifo.py
index 7e6914d..4bce805 100644
--- a/aiok8s/cache/fifo.py
+++ b/aiok8s/cache/fifo.py
@@ -63,7 +63,7 @@ class FIFO:
             raise store.StoreKeyError(obj) from e
         async with self._lock:
             self._populated = True
-            del self._items[id_]
+            self._items.pop(id_, None)
 
     def list(self):
         return list(self._items.values())
-- 
2.43.0


From 96c8a2d905fe69f4df9303efaa262ebf83a96882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 06/41] fix: let a FIFO whose first list is replaced before it
 is consumed become synced

---
 aiok8s/cache/fifo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/cache/fifo.py b/aiok8s/cache/fifo.py
index 4bce805..f06e633 100644
--- a/aiok8s/cache/fifo.py
+++ b/aiok8s/cache/fifo.py
@@ -90,7 +90,7 @@ class FIFO:
                 raise store.StoreKeyError(item) from e
             items[key] = item
         async with self._lock:
-            if not self._populated:
+            if not self._populated or self._initial_population_count:
                 self._populated = True
                 self._initial_population_count = len(items)
 
-- 
2.43.0


From b23301dddf93c296c63b4c2d27412f04b5913c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 07/41] fix: count a repeated key once in the first list of a
 delta queue

---
 aiok8s/cache/delta_fifo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/cache/delta_fifo.py b/aiok8s/cache/delta_fifo.py
index b5ef5a0..e7c7ce9 100644
--- a/aiok8s/cache/delta_fifo.py
+++ b/aiok8s/cache/delta_fifo.py
@@ -123,7 +123,7 @@ class DeltaFIFO:
                 )
             if not self._populated:
                 self._populated = True
-                self._initial_population_count = len(list_) + queued_deletions
+                self._initial_population_count = len(keys) + queued_deletions
 
     async def resync(self):
         async with self._cond:
-- 
2.43.0


From 4392ec9fc659908e1498612d8a3f66d7be189d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:53 +0000
Subject: [PATCH 08/41] fix: allow adding indexers whose names are free

---
 aiok8s/cache/thread_safe_store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/cache/thread_safe_store.py b/aiok8s/cache/thread_safe_store.py
index 49b5d33..ff7e774 100644
--- a/aiok8s/cache/thread_safe_store.py
+++ b/aiok8s/cache/thread_safe_store.py
@@ -113,7 +113,7 @@ class _ThreadSafeMap:
                 raise Exception("cannot add indexers to running index")
             old_keys = self._indexers.keys()
             new_keys = new_indexers.keys()
-            if old_keys | new_keys:
+            if old_keys & new_keys:
                 raise Exception(f"indexer conflict: {old_keys & new_keys}")
             self._indexers.update(new_indexers)
 
-- 
2.43.0


From 2ca30457a87f12df8fc2760d629c75791eb53e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:53 +0000
Subject: [PATCH 09/41] fix: remove objects with repeated index values from
 their index

---
 aiok8s/cache/thread_safe_store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/cache/thread_safe_store.py b/aiok8s/cache/thread_safe_store.py
index ff7e774..38fb932 100644
--- a/aiok8s/cache/thread_safe_store.py
+++ b/aiok8s/cache/thread_safe_store.py
@@ -139,6 +139,6 @@ class _ThreadSafeMap:
             for index_value in index_values:
                 set_ = index.get(index_value)
                 if set_:
-                    set_.remove(key)
+                    set_.discard(key)
                     if not set_:
                         del index[index_value]
-- 
2.43.0


From 25dfd982a3011b9e591b7c73883c4c32e2184a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:07 +0000
Subject: [PATCH 10/41] fix: accept raw objects without a namespace

---
 aiok8s/api/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/api/meta.py b/aiok8s/api/meta.py
index df8f547..13ac2fb 100644
--- a/aiok8s/api/meta.py
+++ b/aiok8s/api/meta.py
@@ -127,7 +127,7 @@ class _UnstructuredAccessor:
 
     @property
     def namespace(self):
-        return self._metadata["namespace"]
+        return self._metadata.get("namespace")
 
     @property
     def name(self):
-- 
2.43.0


From 79c9e71492c6ae456be3da3634ef566ed5bfccb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:07 +0000
Subject: [PATCH 11/41] fix: derive the kind of objects in the core group

---
 aiok8s/api/meta.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aiok8s/api/meta.py b/aiok8s/api/meta.py
index 13ac2fb..01d6e60 100644
--- a/aiok8s/api/meta.py
+++ b/aiok8s/api/meta.py
@@ -161,7 +161,11 @@ class _ObjectAccessor:
     # Motivated by apimachinery/pkg/apis/meta/v1/meta.go GroupVersionKind()
     @property
     def group_version_kind(self):
-        group, version = self.api_version.split("/")
+        api_version = self.api_version
+        if "/" in api_version:
+            group, version = api_version.split("/")
+        else:
+            group, version = "", api_version
         return schema.GroupVersionKind(group, version, self.kind)
 
 
-- 
2.43.0


From 947a7ab73c6b7a106e39ce2ea7cf500f20b07182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:22 +0000
Subject: [PATCH 12/41] fix: relist when a watch stream raises

The error ended the forwarding task without a word, and the reflector waited
for the next event forever.
---
 aiok8s/cache/reflector.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/aiok8s/cache/reflector.py b/aiok8s/cache/reflector.py
index 3d4c339..ed18c3b 100644
--- a/aiok8s/cache/reflector.py
+++ b/aiok8s/cache/reflector.py
@@ -146,10 +146,12 @@ class Reflector:
         event_queue = asyncio.Queue()
 
         async def get_events():
-            async with w:
-                async for event in w:
-                    await event_queue.put(event)
-            await event_queue.put(None)
+            try:
+                async with w:
+                    async for event in w:
+                        await event_queue.put(event)
+            finally:
+                await event_queue.put(None)
 
         get_events_task = asyncio.ensure_future(get_events())
         error_task = asyncio.ensure_future(error_queue.get())
@@ -163,6 +165,7 @@ class Reflector:
                     raise await error_task
                 event = await event_task
                 if event is None:
+                    await get_events_task
                     break
                 if event["type"] == watch.EventType.ERROR:
                     raise Exception
-- 
2.43.0


From ec93ec9370c34d04e2b5afccc58a5270be7af683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:18 +0000
Subject: [PATCH 13/41] fix: do not hold up a shared informer for a slow
 handler

Its buffer waited for the handler to take the notification put in its queue,
and with it everybody who distributes notifications.
---
 aiok8s/cache/shared_informer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aiok8s/cache/shared_informer.py b/aiok8s/cache/shared_informer.py
index 1458ce4..77cd89b 100644
--- a/aiok8s/cache/shared_informer.py
+++ b/aiok8s/cache/shared_informer.py
@@ -348,7 +348,6 @@ class _ProcessListener:
                 else:
                     get_task.cancel()
                 if put_task in done:
-                    await next_queue.join()
                     if self._pending_notifications:
                         notification = self._pending_notifications.popleft()
                     else:
-- 
2.43.0


From 3403ef59a7aa896ab0ca0deeb4e444657371e79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:08 +0000
Subject: [PATCH 14/41] fix: tell every handler of a shared informer what a
 relist found

After the first resync the changes found by a list reached only the handlers
due for a resync then.
---
 aiok8s/cache/shared_informer.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/aiok8s/cache/shared_informer.py b/aiok8s/cache/shared_informer.py
index 77cd89b..9022847 100644
--- a/aiok8s/cache/shared_informer.py
+++ b/aiok8s/cache/shared_informer.py
@@ -17,6 +17,7 @@ import collections
 import logging
 from typing import Any, NamedTuple
 
+from aiok8s.api import meta
 from aiok8s.cache import controller, delta_fifo, index, store
 from aiok8s.util import clock, retry, wait
 
@@ -181,9 +182,12 @@ class _SharedIndexInformer:
                     delta_fifo.DeltaType.ADDED,
                     delta_fifo.DeltaType.UPDATED,
                 ):
-                    is_sync = d.type == delta_fifo.DeltaType.SYNC
                     old = self._indexer.get(d.object)
                     if old is not None:
+                        is_sync = (
+                            d.type == delta_fifo.DeltaType.SYNC
+                            and _same_resource_version(old, d.object)
+                        )
                         await self._indexer.update(d.object)
                         await self._processor._distribute(
                             _UpdateNotification(old_obj=old, new_obj=d.object), is_sync
@@ -191,7 +195,7 @@ class _SharedIndexInformer:
                     else:
                         await self._indexer.add(d.object)
                         await self._processor._distribute(
-                            _AddNotification(new_obj=d.object), is_sync
+                            _AddNotification(new_obj=d.object), False
                         )
                 elif d.type == delta_fifo.DeltaType.DELETED:
                     await self._indexer.delete(d.object)
@@ -202,6 +206,17 @@ class _SharedIndexInformer:
                     raise AssertionError
 
 
+def _same_resource_version(a, b):
+    # A relist queues sync deltas too, also for objects that have changed
+    if a is b:
+        return True
+    try:
+        version = meta.accessor(a).resource_version
+        return bool(version) and version == meta.accessor(b).resource_version
+    except Exception:
+        return False
+
+
 class _UpdateNotification(NamedTuple):
     old_obj: Any
     new_obj: Any
-- 
2.43.0


From 25f89683f09095dda889b5e3992617e6d3a020d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:57 +0000
Subject: [PATCH 15/41] fix: report a delta queue synced only after the last
 item is processed

Unlike in client-go nothing keeps has_synced() from being called while the
last item of the first list is being processed and not in the store yet.
---
 aiok8s/cache/delta_fifo.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/aiok8s/cache/delta_fifo.py b/aiok8s/cache/delta_fifo.py
index e7c7ce9..f458640 100644
--- a/aiok8s/cache/delta_fifo.py
+++ b/aiok8s/cache/delta_fifo.py
@@ -141,9 +141,10 @@ class DeltaFIFO:
                         raise fifo.FIFOClosedError
                     await self._cond.wait()
                 id_ = self._queue.pop(0)
-                if self._initial_population_count:
-                    self._initial_population_count -= 1
+                initial = bool(self._initial_population_count)
                 if id_ not in self._items:
+                    if initial:
+                        self._initial_population_count -= 1
                     continue
                 item = self._items.pop(id_)
                 try:
@@ -153,9 +154,15 @@ class DeltaFIFO:
                     if e.__cause__:
                         raise fifo.ProcessError(item) from e.__cause__
                 except asyncio.CancelledError:
+                    initial = False
                     raise
                 except Exception as e:
                     raise fifo.ProcessError(item) from e
+                finally:
+                    # Not earlier, as nothing keeps has_synced() from being
+                    # called while the item is being processed
+                    if initial:
+                        self._initial_population_count -= 1
                 return item
 
     async def add_if_not_present(self, obj):
-- 
2.43.0


From 02d905a80896c2b9cb40fe20d6b6b14200c0bcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:06 +0000
Subject: [PATCH 16/41] fix: do not lose the event of a cancelled receive from
 a broadcaster

---
 aiok8s/watch/mux.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aiok8s/watch/mux.py b/aiok8s/watch/mux.py
index 981557b..41240c0 100644
--- a/aiok8s/watch/mux.py
+++ b/aiok8s/watch/mux.py
@@ -154,6 +154,7 @@ class _BroadcasterWatcher:
         self._result = result
         self._stopped = asyncio.Event()
         self._task = asyncio.ensure_future(self._stopped.wait())
+        self._event = None
         self._id = id_
         self._m = m
 
@@ -161,12 +162,17 @@ class _BroadcasterWatcher:
         return self
 
     async def __anext__(self):
-        event = asyncio.ensure_future(self._result.get())
+        # A receive that was cancelled must not lose its event, so the next one
+        # goes on with the same task.
+        if self._event is None:
+            self._event = asyncio.ensure_future(self._result.get())
+        event = self._event
         while True:
             done, _ = await asyncio.wait(
                 [event, self._task], return_when=asyncio.FIRST_COMPLETED
             )
             if event in done:
+                self._event = None
                 if not self._result.maxsize:
                     self._result.task_done()
                 return await event
-- 
2.43.0


From 6d396ae3fe3bc7605998f2cdcd3ed1a932805496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 17/41] fix: do not retry forever with a negative number of
 steps

---
 aiok8s/util/wait.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/util/wait.py b/aiok8s/util/wait.py
index ae86246..5c0b330 100644
--- a/aiok8s/util/wait.py
+++ b/aiok8s/util/wait.py
@@ -104,7 +104,7 @@ class Backoff:
 
 async def exponential_backoff(backoff, condition):
     backoff = Backoff(**backoff.__dict__)
-    while backoff.steps:
+    while backoff.steps > 0:
         if await condition():
             return
         if backoff.steps == 1:
-- 
2.43.0


From 149b6cb18fae38c99452a59b1e2282b226660ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:32 +0000
Subject: [PATCH 18/41] fix: pass on a timeout error of the polled condition

---
 aiok8s/util/wait.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/aiok8s/util/wait.py b/aiok8s/util/wait.py
index 5c0b330..5643e89 100644
--- a/aiok8s/util/wait.py
+++ b/aiok8s/util/wait.py
@@ -115,9 +115,22 @@ async def exponential_backoff(backoff, condition):
 
 # TODO: test, rewrite?
 async def poll(interval, timeout, condition):
+    error = None
+
+    async def checked_condition():
+        nonlocal error
+        try:
+            return await condition()
+        except asyncio.TimeoutError as e:
+            error = e
+            raise
+
     try:
-        await asyncio.wait_for(poll_infinite(interval, condition), timeout)
-    except asyncio.TimeoutError:
+        await asyncio.wait_for(poll_infinite(interval, checked_condition), timeout)
+    except asyncio.TimeoutError as e:
+        if e is error:
+            # Not the timeout of the poll
+            raise
         raise WaitTimeoutError
 
 
-- 
2.43.0


From 8631d934de5078dfce9e55811ed5354b2449cabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:17 +0000
Subject: [PATCH 19/41] fix: enqueue deletions whose final state is unknown

---
 aiok8s/controller/source.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aiok8s/controller/source.py b/aiok8s/controller/source.py
index 5ede8da..d975104 100644
--- a/aiok8s/controller/source.py
+++ b/aiok8s/controller/source.py
@@ -16,6 +16,7 @@ import logging
 from typing import Any, Collection, NamedTuple
 
 from aiok8s.api import meta
+from aiok8s.cache import delta_fifo
 from aiok8s.controller import event
 
 logger = logging.getLogger(__name__)
@@ -79,6 +80,9 @@ class EventHandler(NamedTuple):
         await self.event_handler.update(update_event, self.queue)
 
     async def on_delete(self, obj):
+        if isinstance(obj, delta_fifo.DeletedFinalStateUnknown):
+            obj = obj.obj
+
         try:
             metadata = meta.accessor(obj)
         except Exception:
-- 
2.43.0


From be0bf97a8e1927026fde1cd4dd973ad657182cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:26 +0000
Subject: [PATCH 20/41] fix: run informers created after the cache was started

---
 aiok8s/controller/_informers_map.py | 31 ++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/aiok8s/controller/_informers_map.py b/aiok8s/controller/_informers_map.py
index ce301d5..6defb02 100644
--- a/aiok8s/controller/_informers_map.py
+++ b/aiok8s/controller/_informers_map.py
@@ -34,15 +34,23 @@ class _SpecificInformersMap:
         self._informers_by_gvk = {}
         self._mutex = asyncio.Lock()
         self._started = False
+        self._stopped = False
+        self._failed = None
+        self._tasks = []
 
     async def start(self):
         async with self._mutex:
-            aws = [
-                asyncio.ensure_future(informer.informer.run())
-                for informer in self._informers_by_gvk.values()
-            ]
+            self._failed = asyncio.get_event_loop().create_future()
             self._started = True
-        await asyncio.gather(*aws)
+            for informer in self._informers_by_gvk.values():
+                self._run_informer(informer)
+        try:
+            await self._failed
+        finally:
+            self._stopped = True
+            for task in self._tasks:
+                task.cancel()
+            await asyncio.gather(*self._tasks, return_exceptions=True)
 
     def has_synced_funcs(self):
         return [
@@ -81,8 +89,21 @@ class _SpecificInformersMap:
             new_informer, _cache_reader.CacheReader(new_informer.get_indexer(), gvk)
         )
         self._informers_by_gvk[gvk] = informer
+        if self._started and not self._stopped:
+            self._run_informer(informer)
         return informer
 
+    def _run_informer(self, informer):
+        task = asyncio.ensure_future(informer.informer.run())
+        task.add_done_callback(self._informer_done)
+        self._tasks.append(task)
+
+    def _informer_done(self, task):
+        if self._failed.done() or task.cancelled():
+            return
+        if task.exception():
+            self._failed.set_exception(task.exception())
+
 
 def _create_structured_list_watch(gvk, ip):
     async def list_func(options):
-- 
2.43.0


From c3d01def4b387550a511978739a8f44c517a434a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:26 +0000
Subject: [PATCH 21/41] fix: spread resync periods over 0.9 to 1.1 of the
 configured one

---
 aiok8s/controller/_informers_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/controller/_informers_map.py b/aiok8s/controller/_informers_map.py
index 6defb02..9d76751 100644
--- a/aiok8s/controller/_informers_map.py
+++ b/aiok8s/controller/_informers_map.py
@@ -122,7 +122,7 @@ def _create_structured_list_watch(gvk, ip):
 
 
 def _resync_period(resync):
-    return lambda: resync * (random.random() / 5 * 0.9)
+    return lambda: resync * (random.random() / 5 + 0.9)
 
 
 def _get_kwargs(ip, options):
-- 
2.43.0


From d98c912593f84f78629ec77ab7aca21a248a55bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:40 +0000
Subject: [PATCH 22/41] fix: make leader electors run

The observed record is a dictionary and was never initialised, so that every
elector failed at its first attempt.
---
 aiok8s/leaderelection/leaderelection.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index 6bb9ea7..d919d52 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -61,20 +61,29 @@ class LeaderElector:
             raise Exception("lock must not be None")
         self._config = lec
         self._clock = clock.RealClock()
+        self._observed_record = {}
+        self._observed_raw_record = None
+        self._observed_time = None
+        self._reported_leader = None
 
     async def run(self):
+        task = None
         try:
             if not await self._acquire():
                 return
             task = asyncio.ensure_future(self._config.callbacks.on_started_leading())
             await self._renew()
         finally:
-            task.cancel()
+            if task is not None:
+                task.cancel()
             await self._config.callbacks.on_stopped_leading()
-            await asyncio.gather(task, return_exceptions=True)
+            if task is not None:
+                await asyncio.gather(task, return_exceptions=True)
 
     def is_leader(self):
-        return self._observed_record.holder_identity == self._config.lock.identity()
+        return (
+            self._observed_record.get("holderIdentity") == self._config.lock.identity()
+        )
 
     async def _acquire(self):
         succeeded = False
@@ -207,9 +216,10 @@ class LeaderElector:
         return True
 
     def _maybe_report_transition(self):
-        if self._observed_record.holder_identity == self._reported_leader:
+        leader = self._observed_record.get("holderIdentity")
+        if leader == self._reported_leader:
             return
-        self._reported_leader = self._observed_record.holder_identity
+        self._reported_leader = leader
         if self._config.callbacks.on_new_leader:
             asyncio.ensure_future(
                 self._config.callbacks.on_new_leader(self._reported_leader)
-- 
2.43.0


From 7e2a6dce76e1fa6885990875df35d5ca3b25223e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:04 +0000
Subject: [PATCH 23/41] fix: count the transitions of a lease from its creation

A created record had no count, and taking it over failed.
---
 aiok8s/leaderelection/leaderelection.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index d919d52..9ae67ba 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -132,7 +132,7 @@ class LeaderElector:
         if not self.is_leader():
             return True
         leader_election_record = {
-            "leaderTransitions": self._observed_record["leaderTransitions"]
+            "leaderTransitions": self._observed_record.get("leaderTransitions", 0)
         }
         try:
             await self._config.lock.update(leader_election_record)
@@ -151,6 +151,7 @@ class LeaderElector:
             "leaseDurationSeconds": int(self._config.lease_duration),
             "renewTime": now,
             "acquireTime": now,
+            "leaderTransitions": 0,
         }
         try:
             (
@@ -192,15 +193,15 @@ class LeaderElector:
             return False
 
         if self.is_leader():
-            leader_election_record["acquireTime"] = old_leader_election_record[
-                "acquireTime"
-            ]
-            leader_election_record["leaderTransitions"] = old_leader_election_record[
-                "leaderTransitions"
-            ]
+            leader_election_record["acquireTime"] = old_leader_election_record.get(
+                "acquireTime", now
+            )
+            leader_election_record["leaderTransitions"] = (
+                old_leader_election_record.get("leaderTransitions", 0)
+            )
         else:
             leader_election_record["leaderTransitions"] = (
-                old_leader_election_record["leaderTransitions"] + 1
+                old_leader_election_record.get("leaderTransitions", 0) + 1
             )
 
         try:
-- 
2.43.0


From d11ece76255e2c3de31d7cfd6dafac1df466ffb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:41 +0000
Subject: [PATCH 24/41] fix: stop leading when the lease is not renewed within
 the renew deadline

The deadline was never applied.  It counts from the start of the last renewal
that succeeded, since from then on others may take the lease as unrenewed.  For
the same reason an attempt to acquire is given up when it takes longer.
---
 aiok8s/leaderelection/leaderelection.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index 9ae67ba..787c329 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -64,6 +64,7 @@ class LeaderElector:
         self._observed_record = {}
         self._observed_raw_record = None
         self._observed_time = None
+        self._renew_start = None
         self._reported_leader = None
 
     async def run(self):
@@ -92,7 +93,13 @@ class LeaderElector:
 
         async def f():
             nonlocal task, succeeded
-            succeeded = await self._try_acquire_or_renew()
+            try:
+                succeeded = await asyncio.wait_for(
+                    self._try_acquire_or_renew(), self._config.renew_deadline
+                )
+            except asyncio.TimeoutError:
+                # The lease may have expired meanwhile
+                succeeded = False
             self._maybe_report_transition()
             if not succeeded:
                 logger.debug("failed to acquire lease %s", description)
@@ -111,8 +118,11 @@ class LeaderElector:
             while True:
                 description = self._config.lock.describe()
                 try:
-                    await wait.poll_immediate_infinite(
-                        self._config.retry_period, self._try_acquire_or_renew
+                    await asyncio.wait_for(
+                        wait.poll_immediate_infinite(
+                            self._config.retry_period, self._try_acquire_or_renew
+                        ),
+                        self._remaining(),
                     )
                 except asyncio.CancelledError:
                     raise
@@ -123,11 +133,15 @@ class LeaderElector:
                     logger.debug("successfully renewed lease %s", description)
                 finally:
                     self._maybe_report_transition()
-                await asyncio.sleep(self._config.retry_period)
+                await asyncio.sleep(min(self._config.retry_period, self._remaining()))
         finally:
             if self._config.release_on_cancel:
                 await self._release()
 
+    def _remaining(self):
+        now = asyncio.get_running_loop().time()
+        return self._renew_start + self._config.renew_deadline - now
+
     async def _release(self):
         if not self.is_leader():
             return True
@@ -146,6 +160,7 @@ class LeaderElector:
 
     async def _try_acquire_or_renew(self):
         now = time.time()
+        start = asyncio.get_running_loop().time()
         leader_election_record = {
             "holderIdentity": self._config.lock.identity(),
             "leaseDurationSeconds": int(self._config.lease_duration),
@@ -175,6 +190,7 @@ class LeaderElector:
                 return False
             self._observed_record = leader_election_record
             self._observed_time = self._clock.now()
+            self._renew_start = start
             return True
 
         if self._observed_raw_record != old_leader_election_raw_record:
@@ -214,6 +230,7 @@ class LeaderElector:
 
         self._observed_record = leader_election_record
         self._observed_time = self._clock.now()
+        self._renew_start = start
         return True
 
     def _maybe_report_transition(self):
-- 
2.43.0


From ff2ca7501b059342c1aaccd7089a063e8910c2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:55 +0000
Subject: [PATCH 25/41] fix: release the lease only after leading has stopped

Otherwise the next leader may start before.  A release that hangs no longer
keeps the elector from ending.
---
 aiok8s/leaderelection/leaderelection.py | 60 +++++++++++++------------
 1 file changed, 31 insertions(+), 29 deletions(-)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index 787c329..43c5ec6 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -75,11 +75,14 @@ class LeaderElector:
             task = asyncio.ensure_future(self._config.callbacks.on_started_leading())
             await self._renew()
         finally:
-            if task is not None:
-                task.cancel()
-            await self._config.callbacks.on_stopped_leading()
-            if task is not None:
-                await asyncio.gather(task, return_exceptions=True)
+            try:
+                if task is not None:
+                    task.cancel()
+                    await asyncio.gather(task, return_exceptions=True)
+                    if self._config.release_on_cancel:
+                        await self._release()
+            finally:
+                await self._config.callbacks.on_stopped_leading()
 
     def is_leader(self):
         return (
@@ -114,29 +117,25 @@ class LeaderElector:
         return succeeded
 
     async def _renew(self):
-        try:
-            while True:
-                description = self._config.lock.describe()
-                try:
-                    await asyncio.wait_for(
-                        wait.poll_immediate_infinite(
-                            self._config.retry_period, self._try_acquire_or_renew
-                        ),
-                        self._remaining(),
-                    )
-                except asyncio.CancelledError:
-                    raise
-                except Exception as e:
-                    logger.info("failed to renew lease %s: %r", description, e)
-                    break
-                else:
-                    logger.debug("successfully renewed lease %s", description)
-                finally:
-                    self._maybe_report_transition()
-                await asyncio.sleep(min(self._config.retry_period, self._remaining()))
-        finally:
-            if self._config.release_on_cancel:
-                await self._release()
+        while True:
+            description = self._config.lock.describe()
+            try:
+                await asyncio.wait_for(
+                    wait.poll_immediate_infinite(
+                        self._config.retry_period, self._try_acquire_or_renew
+                    ),
+                    self._remaining(),
+                )
+            except asyncio.CancelledError:
+                raise
+            except Exception as e:
+                logger.info("failed to renew lease %s: %r", description, e)
+                break
+            else:
+                logger.debug("successfully renewed lease %s", description)
+            finally:
+                self._maybe_report_transition()
+            await asyncio.sleep(min(self._config.retry_period, self._remaining()))
 
     def _remaining(self):
         now = asyncio.get_running_loop().time()
@@ -149,7 +148,10 @@ class LeaderElector:
             "leaderTransitions": self._observed_record.get("leaderTransitions", 0)
         }
         try:
-            await self._config.lock.update(leader_election_record)
+            await asyncio.wait_for(
+                self._config.lock.update(leader_election_record),
+                self._config.renew_deadline,
+            )
         except asyncio.CancelledError:
             raise
         except Exception as e:
-- 
2.43.0


From 7aee09ed82d9c5ebb81dd0010d6f8e2863a08c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:17 +0000
Subject: [PATCH 26/41] fix: import the API classes from where
 kubernetes_asyncio has them

---
 aiok8s/leaderelection/resourcelock.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiok8s/leaderelection/resourcelock.py b/aiok8s/leaderelection/resourcelock.py
index 39322b9..6314514 100644
--- a/aiok8s/leaderelection/resourcelock.py
+++ b/aiok8s/leaderelection/resourcelock.py
@@ -15,7 +15,7 @@
 import json
 from typing import NamedTuple
 
-from kubernetes_asyncio.client import apis, models
+from kubernetes_asyncio.client import api, models
 
 LEADER_ELECTION_RECORD_ANNOTATION_KEY = "control-plane.alpha.kubernetes.io/leader"
 
@@ -27,7 +27,7 @@ class ResourceLockConfig(NamedTuple):
 def new(namespace, name, rlc, client=None):
     return ConfigMapLock(
         config_map_meta=models.V1ObjectMeta(namespace=namespace, name=name),
-        client=apis.CoreV1Api(client),
+        client=api.CoreV1Api(client),
         lock_config=rlc,
     )
 
-- 
2.43.0


From d03e619b71340d8aa36497f1b520060418b14c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:18 +0000
Subject: [PATCH 27/41] fix: read an absent config map as no leader election
 record

It was reported as an error, so that no lease was ever created.
---
 aiok8s/leaderelection/resourcelock.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/aiok8s/leaderelection/resourcelock.py b/aiok8s/leaderelection/resourcelock.py
index 6314514..d4d4e31 100644
--- a/aiok8s/leaderelection/resourcelock.py
+++ b/aiok8s/leaderelection/resourcelock.py
@@ -16,6 +16,7 @@ import json
 from typing import NamedTuple
 
 from kubernetes_asyncio.client import api, models
+from kubernetes_asyncio.client.rest import ApiException
 
 LEADER_ELECTION_RECORD_ANNOTATION_KEY = "control-plane.alpha.kubernetes.io/leader"
 
@@ -40,9 +41,15 @@ class ConfigMapLock:
         self._cm = None
 
     async def get(self):
-        self._cm = await self.client.read_namespaced_config_map(
-            self.config_map_meta.name, self.config_map_meta.namespace
-        )
+        try:
+            self._cm = await self.client.read_namespaced_config_map(
+                self.config_map_meta.name, self.config_map_meta.namespace
+            )
+        except ApiException as e:
+            if e.status != 404:
+                raise
+            self._cm = None
+            return None, None
         raw_record = (
             self._cm.metadata.annotations
             and self._cm.metadata.annotations.get(LEADER_ELECTION_RECORD_ANNOTATION_KEY)
-- 
2.43.0


From 616280b526fc61e48403d3dd743dbabd98e7a187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:07 +0000
Subject: [PATCH 28/41] fix: let a lease be acquired in a config map without
 the annotation

Such a config map was taken for absent, and creating it failed.  It may also
have no annotations at all.
---
 aiok8s/leaderelection/resourcelock.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aiok8s/leaderelection/resourcelock.py b/aiok8s/leaderelection/resourcelock.py
index d4d4e31..cf63862 100644
--- a/aiok8s/leaderelection/resourcelock.py
+++ b/aiok8s/leaderelection/resourcelock.py
@@ -54,7 +54,8 @@ class ConfigMapLock:
             self._cm.metadata.annotations
             and self._cm.metadata.annotations.get(LEADER_ELECTION_RECORD_ANNOTATION_KEY)
         )
-        record = raw_record and json.loads(raw_record)
+        # The config map exists, so that there is a record to update
+        record = json.loads(raw_record) if raw_record else {}
         return record, raw_record
 
     async def create(self, leader_election_record):
@@ -74,6 +75,8 @@ class ConfigMapLock:
         if not self._cm:
             raise Exception("configmap not initialized, call get or create first")
         raw_record = json.dumps(leader_election_record)
+        if self._cm.metadata.annotations is None:
+            self._cm.metadata.annotations = {}
         self._cm.metadata.annotations[
             LEADER_ELECTION_RECORD_ANNOTATION_KEY
         ] = raw_record
-- 
2.43.0


From fe3616180a332c6ea142d22f3cf2c39edacb419f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:07 +0000
Subject: [PATCH 29/41] fix: stop the cache of a manager that is cancelled
 before it is synced

---
 aiok8s/controller/manager.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/aiok8s/controller/manager.py b/aiok8s/controller/manager.py
index 0df810b..40886ee 100644
--- a/aiok8s/controller/manager.py
+++ b/aiok8s/controller/manager.py
@@ -47,18 +47,21 @@ class _ControllerManager:
         return self._cache
 
     async def _start_non_leader_election_runnables(self):
-        async with self._mutex:
-            task = await self._wait_for_cache()
-            aws = [
-                asyncio.ensure_future(controller.start())
-                for controller in self._non_leader_election_runnables
-            ]
-        await asyncio.gather(task, *aws)
+        tasks = []
+        try:
+            async with self._mutex:
+                await self._wait_for_cache(tasks)
+                for controller in self._non_leader_election_runnables:
+                    tasks.append(asyncio.ensure_future(controller.start()))
+            await asyncio.gather(*tasks)
+        finally:
+            for task in tasks:
+                task.cancel()
+            await asyncio.gather(*tasks, return_exceptions=True)
 
-    async def _wait_for_cache(self):
+    async def _wait_for_cache(self, tasks):
         if self._started:
             return
-        task = asyncio.ensure_future(self._cache.start())
+        tasks.append(asyncio.ensure_future(self._cache.start()))
         await self._cache.wait_for_cache_sync()
         self._started = True
-        return task
-- 
2.43.0


From 424428bc01c62cb6e839113c029c895a0e082ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:01 +0000
Subject: [PATCH 30/41] fix: pass on the wakeup of a cancelled getter of a work
 queue

---
 aiok8s/workqueue/queue.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aiok8s/workqueue/queue.py b/aiok8s/workqueue/queue.py
index 6bfa29d..714f9db 100644
--- a/aiok8s/workqueue/queue.py
+++ b/aiok8s/workqueue/queue.py
@@ -53,7 +53,12 @@ class Type:
     async def get(self):
         async with self._cond:
             while not self._queue and not self._shutting_down:
-                await self._cond.wait()
+                try:
+                    await self._cond.wait()
+                except asyncio.CancelledError:
+                    # The wakeup may have been meant for another getter
+                    self._cond.notify()
+                    raise
             if not self._queue:
                 return None, True
             item = self._queue.popleft()
-- 
2.43.0


From fc34d0d3d79ca3d4419630e4c3e8c3295ccd6a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:31 +0000
Subject: [PATCH 31/41] fix: do not lose the event of a cancelled receive from
 a fake watcher

---
 aiok8s/watch/watch.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/aiok8s/watch/watch.py b/aiok8s/watch/watch.py
index ebe0b4d..52582f2 100644
--- a/aiok8s/watch/watch.py
+++ b/aiok8s/watch/watch.py
@@ -31,22 +31,29 @@ class FakeWatcher:
         self._stopped = asyncio.Event()
         self._task = asyncio.ensure_future(self._stopped.wait())
         self._result = result
+        self._event = None
         self._mutex = asyncio.Lock()
 
     def __aiter__(self):
         return self
 
     async def __anext__(self):
-        event = asyncio.ensure_future(self._result.get())
+        # A receive that was cancelled must not lose its event, so the next one
+        # goes on with the same task.
+        if self._event is None:
+            self._event = asyncio.ensure_future(self._result.get())
+        event = self._event
         while True:
             done, _ = await asyncio.wait(
                 [event, self._task], return_when=asyncio.FIRST_COMPLETED
             )
             if event in done:
+                self._event = None
                 self._result.task_done()
                 return await event
             if self._stopped.is_set():
                 event.cancel()
+                self._event = None
                 raise StopAsyncIteration
 
     async def __aenter__(self):
@@ -67,6 +74,7 @@ class FakeWatcher:
             self._stopped.clear()
             self._task = asyncio.ensure_future(self._stopped.wait())
             self._result = asyncio.Queue()
+            self._event = None
 
     async def add(self, obj):
         await self.action(EventType.ADDED, obj)
-- 
2.43.0


From c43685754ae0f6939ea723ae2e94f0fe021c00c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:52 +0000
Subject: [PATCH 32/41] fix: measure durations by the monotonic clock

---
 aiok8s/leaderelection/leaderelection.py   | 3 ++-
 aiok8s/util/clock.py                      | 4 ++--
 aiok8s/workqueue/default_rate_limiters.py | 4 ++--
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index 43c5ec6..b3c7977 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -162,6 +162,7 @@ class LeaderElector:
 
     async def _try_acquire_or_renew(self):
         now = time.time()
+        clock_now = self._clock.now()
         start = asyncio.get_running_loop().time()
         leader_election_record = {
             "holderIdentity": self._config.lock.identity(),
@@ -201,7 +202,7 @@ class LeaderElector:
             self._observed_time = self._clock.now()
         if (
             old_leader_election_record.get("holderIdentity")
-            and self._observed_time + self._config.lease_duration > now
+            and self._observed_time + self._config.lease_duration > clock_now
             and not self.is_leader()
         ):
             logger.debug(
diff --git a/aiok8s/util/clock.py b/aiok8s/util/clock.py
index 98c0067..802bc90 100644
--- a/aiok8s/util/clock.py
+++ b/aiok8s/util/clock.py
@@ -20,10 +20,10 @@ from aiok8s.util import _time
 
 class RealClock:
     def now(self):
-        return time.time()
+        return time.monotonic()
 
     def since(self, ts):
-        return time.time() - ts
+        return time.monotonic() - ts
 
     def new_timer(self, d):
         return _RealTimer(_time.Timer(d))
diff --git a/aiok8s/workqueue/default_rate_limiters.py b/aiok8s/workqueue/default_rate_limiters.py
index 33c0ee4..017b8b9 100644
--- a/aiok8s/workqueue/default_rate_limiters.py
+++ b/aiok8s/workqueue/default_rate_limiters.py
@@ -31,11 +31,11 @@ class BucketRateLimiter:
             raise ValueError
         self._limit = limit
         self._burst = burst
-        self._tokens = 0
+        self._tokens = burst
         self._last = 0
 
     def when(self, item):
-        now = time.time() * 1_000_000_000
+        now = time.monotonic() * 1_000_000_000
         tokens = self._advance(now) - 1
         wait_duration = -tokens / self._limit if tokens < 0 else 0
         self._last = now
-- 
2.43.0


From ff5388d74db384fb59c000f5075965998385a1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:26 +0000
Subject: [PATCH 33/41] fix: do not keep a watcher whose caller gave up waiting
 for it

---
 aiok8s/watch/mux.py | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/aiok8s/watch/mux.py b/aiok8s/watch/mux.py
index 41240c0..60ca9dc 100644
--- a/aiok8s/watch/mux.py
+++ b/aiok8s/watch/mux.py
@@ -37,37 +37,36 @@ class Broadcaster:
         asyncio.ensure_future(self._loop())
 
     async def watch(self):
-        w = None
-
-        async def f():
-            async with self._lock:
-                nonlocal w
-                id_ = self._next_watcher
-                self._next_watcher += 1
-                w = _BroadcasterWatcher(
-                    asyncio.Queue(maxsize=self._watch_queue_length), id_, self
-                )
-                self._watchers[id_] = w
-
-        await self._block_queue(f)
-        return w
+        return await self._watch(self._watch_queue_length, [])
 
     async def watch_with_prefix(self, queued_events):
+        n = len(queued_events) + 1
+        return await self._watch(max(self._watch_queue_length, n), queued_events)
+
+    async def _watch(self, length, queued_events):
         w = None
+        given_up = False
 
         async def f():
+            nonlocal w
             async with self._lock:
-                nonlocal w
+                if given_up:
+                    return
                 id_ = self._next_watcher
                 self._next_watcher += 1
-                n = len(queued_events) + 1
-                length = max(self._watch_queue_length, n)
                 w = _BroadcasterWatcher(asyncio.Queue(maxsize=length), id_, self)
                 self._watchers[id_] = w
                 for e in queued_events:
                     await w._put(e)
 
-        await self._block_queue(f)
+        try:
+            await self._block_queue(f)
+        except asyncio.CancelledError:
+            # Nobody is going to read from the watcher
+            given_up = True
+            if w:
+                asyncio.ensure_future(w.stop())
+            raise
         return w
 
     async def action(self, action, obj):
-- 
2.43.0


From 4439677ba416e5a18838b7d55fc80973c5ff88e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:12 +0000
Subject: [PATCH 34/41] fix: let no sender and no caller of watch wait forever
 on a broadcaster that is shut down

---
 aiok8s/watch/mux.py | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/aiok8s/watch/mux.py b/aiok8s/watch/mux.py
index 60ca9dc..9030e87 100644
--- a/aiok8s/watch/mux.py
+++ b/aiok8s/watch/mux.py
@@ -25,12 +25,18 @@ _INCOMING_QUEUE_LENGTH = 25
 _INTERNAL_RUN_FUNCTION_MARKER = "internal-do-function"
 
 
+class BroadcasterShutDownError(Exception):
+    pass
+
+
 class Broadcaster:
     def __init__(self, queue_length, full_channel_behavior):
         self._lock = asyncio.Lock()
         self._watchers = {}
         self._next_watcher = 0
         self._distributing = asyncio.Event()
+        self._shutting_down = False
+        self._sending = 0
         self._incoming = asyncio.Queue(maxsize=_INCOMING_QUEUE_LENGTH)
         self._watch_queue_length = queue_length
         self._full_channel_behavior = full_channel_behavior
@@ -70,12 +76,26 @@ class Broadcaster:
         return w
 
     async def action(self, action, obj):
-        await self._incoming.put({"type": action, "object": obj})
+        self._check_running()
+        await self._put({"type": action, "object": obj})
 
     async def shutdown(self):
-        await self._incoming.put(None)
+        self._shutting_down = True
+        if not self._distributing.is_set():
+            await self._put(None)
         await self._distributing.wait()
 
+    def _check_running(self):
+        if self._shutting_down:
+            raise BroadcasterShutDownError
+
+    async def _put(self, event):
+        self._sending += 1
+        try:
+            await self._incoming.put(event)
+        finally:
+            self._sending -= 1
+
     async def _block_queue(self, f):
         event = asyncio.Event()
 
@@ -85,7 +105,8 @@ class Broadcaster:
             finally:
                 event.set()
 
-        await self._incoming.put(
+        self._check_running()
+        await self._put(
             {
                 "type": _INTERNAL_RUN_FUNCTION_MARKER,
                 "object": _FunctionFakeRuntimeObject(func),
@@ -106,10 +127,18 @@ class Broadcaster:
             self._watchers = {}
 
     async def _loop(self):
+        stopping = False
         while True:
+            if stopping and self._incoming.empty():
+                if not self._sending:
+                    break
+                # A sender that waited for room in the queue is about to go on
+                await asyncio.sleep(0)
+                continue
             event = await self._incoming.get()
             if event is None:
-                break
+                stopping = True
+                continue
             if event["type"] == _INTERNAL_RUN_FUNCTION_MARKER:
                 await event["object"]()
                 continue
-- 
2.43.0


From e2f7d632d164a81bfb51ee36ceae6684452aa440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:21 +0000
Subject: [PATCH 35/41] fix: let nobody wait forever for a cache that is
 stopped

---
 aiok8s/controller/_deleg_map.py     |  4 +---
 aiok8s/controller/_informers_map.py | 15 ++++++++++++---
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/aiok8s/controller/_deleg_map.py b/aiok8s/controller/_deleg_map.py
index c212a51..ce0851a 100644
--- a/aiok8s/controller/_deleg_map.py
+++ b/aiok8s/controller/_deleg_map.py
@@ -12,7 +12,6 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
-from aiok8s.cache import shared_informer
 from aiok8s.controller import _informers_map
 
 
@@ -26,8 +25,7 @@ class InformersMap:
         await self._structured.start()
 
     async def wait_for_cache_sync(self):
-        synced_funcs = self._structured.has_synced_funcs()
-        return await shared_informer.wait_for_cache_sync(*synced_funcs)
+        return await self._structured.wait_for_cache_sync()
 
     async def get(self, gvk, obj):
         return await self._structured.get(gvk, obj)
diff --git a/aiok8s/controller/_informers_map.py b/aiok8s/controller/_informers_map.py
index 9d76751..31f23df 100644
--- a/aiok8s/controller/_informers_map.py
+++ b/aiok8s/controller/_informers_map.py
@@ -52,11 +52,22 @@ class _SpecificInformersMap:
                 task.cancel()
             await asyncio.gather(*self._tasks, return_exceptions=True)
 
+    async def wait_for_cache_sync(self):
+        return await self._wait_for_sync(self.has_synced_funcs())
+
     def has_synced_funcs(self):
         return [
             informer.informer.has_synced for informer in self._informers_by_gvk.values()
         ]
 
+    async def _wait_for_sync(self, synced_funcs):
+        def synced():
+            return all(synced_func() for synced_func in synced_funcs)
+
+        # Nothing syncs any more once it is stopped
+        await shared_informer.wait_for_cache_sync(lambda: synced() or self._stopped)
+        return synced()
+
     async def get(self, gvk, obj):
         async with self._mutex:
             informer = self._informers_by_gvk.get(gvk)
@@ -66,9 +77,7 @@ class _SpecificInformersMap:
             informer = self._add_informer_to_map(gvk, obj)
 
         if started and not informer.informer.has_synced():
-            if not await shared_informer.wait_for_cache_sync(
-                informer.informer.has_synced
-            ):
+            if not await self._wait_for_sync([informer.informer.has_synced]):
                 raise Exception(f"failed waiting for {obj} Informer to sync")
 
         return started, informer
-- 
2.43.0


From ca39691b7e7d26a854d71a61359728f8405dbd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:42 +0000
Subject: [PATCH 36/41] fix: let several receives of a watcher share its
 events, and end with it

---
 aiok8s/watch/mux.py   | 41 ++++++++++++++++++++++++++---------------
 aiok8s/watch/watch.py | 41 +++++++++++++++++++++++++----------------
 2 files changed, 51 insertions(+), 31 deletions(-)

diff --git a/aiok8s/watch/mux.py b/aiok8s/watch/mux.py
index 9030e87..05a58a6 100644
--- a/aiok8s/watch/mux.py
+++ b/aiok8s/watch/mux.py
@@ -183,6 +183,7 @@ class _BroadcasterWatcher:
         self._stopped = asyncio.Event()
         self._task = asyncio.ensure_future(self._stopped.wait())
         self._event = None
+        self._receives = 0
         self._id = id_
         self._m = m
 
@@ -190,22 +191,32 @@ class _BroadcasterWatcher:
         return self
 
     async def __anext__(self):
-        # A receive that was cancelled must not lose its event, so the next one
-        # goes on with the same task.
-        if self._event is None:
-            self._event = asyncio.ensure_future(self._result.get())
-        event = self._event
-        while True:
-            done, _ = await asyncio.wait(
-                [event, self._task], return_when=asyncio.FIRST_COMPLETED
-            )
-            if event in done:
+        # A receive that is cancelled must not lose its event, so all receives
+        # share the same task.
+        self._receives += 1
+        try:
+            while True:
+                if self._event is None:
+                    self._event = asyncio.ensure_future(self._result.get())
+                event = self._event
+                done, _ = await asyncio.wait(
+                    [event, self._task], return_when=asyncio.FIRST_COMPLETED
+                )
+                if self._event is not event:
+                    # Another receive has it
+                    continue
+                if event in done:
+                    self._event = None
+                    if not self._result.maxsize:
+                        self._result.task_done()
+                    return await event
+                if self._stopped.is_set():
+                    raise StopAsyncIteration
+        finally:
+            self._receives -= 1
+            if not self._receives and self._event and not self._event.done():
+                self._event.cancel()
                 self._event = None
-                if not self._result.maxsize:
-                    self._result.task_done()
-                return await event
-            if self._stopped.is_set():
-                raise StopAsyncIteration
 
     async def __aenter__(self):
         return self
diff --git a/aiok8s/watch/watch.py b/aiok8s/watch/watch.py
index 52582f2..44799ad 100644
--- a/aiok8s/watch/watch.py
+++ b/aiok8s/watch/watch.py
@@ -32,29 +32,38 @@ class FakeWatcher:
         self._task = asyncio.ensure_future(self._stopped.wait())
         self._result = result
         self._event = None
+        self._receives = 0
         self._mutex = asyncio.Lock()
 
     def __aiter__(self):
         return self
 
     async def __anext__(self):
-        # A receive that was cancelled must not lose its event, so the next one
-        # goes on with the same task.
-        if self._event is None:
-            self._event = asyncio.ensure_future(self._result.get())
-        event = self._event
-        while True:
-            done, _ = await asyncio.wait(
-                [event, self._task], return_when=asyncio.FIRST_COMPLETED
-            )
-            if event in done:
+        # A receive that is cancelled must not lose its event, so all receives
+        # share the same task.
+        self._receives += 1
+        try:
+            while True:
+                if self._event is None:
+                    self._event = asyncio.ensure_future(self._result.get())
+                event = self._event
+                done, _ = await asyncio.wait(
+                    [event, self._task], return_when=asyncio.FIRST_COMPLETED
+                )
+                if self._event is not event:
+                    # Another receive has it
+                    continue
+                if event in done:
+                    self._event = None
+                    self._result.task_done()
+                    return await event
+                if self._stopped.is_set():
+                    raise StopAsyncIteration
+        finally:
+            self._receives -= 1
+            if not self._receives and self._event and not self._event.done():
+                self._event.cancel()
                 self._event = None
-                self._result.task_done()
-                return await event
-            if self._stopped.is_set():
-                event.cancel()
-                self._event = None
-                raise StopAsyncIteration
 
     async def __aenter__(self):
         return self
-- 
2.43.0


From 970f76f433abd3cf2ca7afbe18a7660285d5fbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:42 +0000
Subject: [PATCH 37/41] fix: leave no task behind when a periodic loop ends

---
 aiok8s/util/wait.py | 71 +++++++++++++++++++++++++++------------------
 1 file changed, 43 insertions(+), 28 deletions(-)

diff --git a/aiok8s/util/wait.py b/aiok8s/util/wait.py
index 5643e89..c49c83e 100644
--- a/aiok8s/util/wait.py
+++ b/aiok8s/util/wait.py
@@ -27,19 +27,24 @@ async def loop(f, period):
 
 # `JitterUntil` from `client-go` without taking a stop argument
 async def jitter_loop(f, period, jitter_factor, sliding):
-    while True:
-        if jitter_factor > 0:
-            jittered_period = jitter(period, jitter_factor)
-        else:
-            jittered_period = period
-        if not sliding:
-            # TODO: Reuse
-            t = _time.Timer(jittered_period)
-        await f()
-        if sliding:
-            t = _time.Timer(jittered_period)
-
-        await t.c.get()
+    t = None
+    try:
+        while True:
+            if jitter_factor > 0:
+                jittered_period = jitter(period, jitter_factor)
+            else:
+                jittered_period = period
+            if not sliding:
+                # TODO: Reuse
+                t = _time.Timer(jittered_period)
+            await f()
+            if sliding:
+                t = _time.Timer(jittered_period)
+
+            await t.c.get()
+    finally:
+        if t:
+            t.stop()
 
 
 async def until(f, period, stop_event):
@@ -48,21 +53,31 @@ async def until(f, period, stop_event):
 
 async def jitter_until(f, period, jitter_factor, sliding, stop_event):
     stop_task = asyncio.ensure_future(stop_event.wait())
-    while not stop_event.is_set():
-        if jitter_factor > 0:
-            jittered_period = jitter(period, jitter_factor)
-        else:
-            jittered_period = period
-        if not sliding:
-            # TODO: Reuse
-            t = _time.Timer(jittered_period)
-        await f()
-        if sliding:
-            t = _time.Timer(jittered_period)
-
-        timer_task = asyncio.ensure_future(t.c.get())
-        await asyncio.wait([timer_task, stop_task], return_when=asyncio.FIRST_COMPLETED)
-        timer_task.cancel()
+    t = None
+    try:
+        while not stop_event.is_set():
+            if jitter_factor > 0:
+                jittered_period = jitter(period, jitter_factor)
+            else:
+                jittered_period = period
+            if not sliding:
+                # TODO: Reuse
+                t = _time.Timer(jittered_period)
+            await f()
+            if sliding:
+                t = _time.Timer(jittered_period)
+
+            timer_task = asyncio.ensure_future(t.c.get())
+            try:
+                await asyncio.wait(
+                    [timer_task, stop_task], return_when=asyncio.FIRST_COMPLETED
+                )
+            finally:
+                timer_task.cancel()
+    finally:
+        if t:
+            t.stop()
+        stop_task.cancel()
 
 
 def jitter(duration, max_factor):
-- 
2.43.0


From a1808113dd83251301386fd76e39291efe3970a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:42 +0000
Subject: [PATCH 38/41] fix: leave no task behind when a delaying queue is shut
 down or an addition given up

---
 aiok8s/workqueue/delaying_queue.py | 33 ++++++++++++++++--------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/aiok8s/workqueue/delaying_queue.py b/aiok8s/workqueue/delaying_queue.py
index fb266b2..e2145b9 100644
--- a/aiok8s/workqueue/delaying_queue.py
+++ b/aiok8s/workqueue/delaying_queue.py
@@ -41,20 +41,20 @@ class _DelayingType(queue.Type):
             await self.add(item)
             return
 
-        _, pending = await asyncio.wait(
-            [
-                asyncio.ensure_future(self._stop_event.wait()),
-                asyncio.ensure_future(
-                    self._waiting_for_add_queue.put(
-                        _WaitFor(data=item, ready_at=self._clock.now() + duration)
-                    )
-                ),
-            ],
-            return_when=asyncio.FIRST_COMPLETED,
-        )
-        for task in pending:
-            task.cancel()
-            await asyncio.gather(task, return_exceptions=True)
+        tasks = [
+            asyncio.ensure_future(self._stop_event.wait()),
+            asyncio.ensure_future(
+                self._waiting_for_add_queue.put(
+                    _WaitFor(data=item, ready_at=self._clock.now() + duration)
+                )
+            ),
+        ]
+        try:
+            await asyncio.wait(tasks, return_when=asyncio.FIRST_COMPLETED)
+        finally:
+            for task in tasks:
+                task.cancel()
+            await asyncio.gather(*tasks, return_exceptions=True)
 
     async def shut_down(self):
         if not self._stop_event.is_set():
@@ -99,7 +99,7 @@ class _DelayingType(queue.Type):
                 task.cancel()
             await asyncio.gather(*pending, return_exceptions=True)
             if self._stop_event.is_set():
-                return
+                break
             if wait_task in done:
                 wait_entry = await wait_task
                 if wait_entry.ready_at > self._clock.now():
@@ -114,6 +114,9 @@ class _DelayingType(queue.Type):
                     else:
                         await self.add(wait_entry.data)
 
+        if next_ready_at_timer:
+            next_ready_at_timer.stop()
+
 
 class _WaitFor(NamedTuple):
     data: Hashable
-- 
2.43.0


From 651c44b7ac9a17fe7989fa17cbff7fd73a77cb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:38 +0000
Subject: [PATCH 39/41] fix: keep trying to acquire a lease whose record cannot
 be understood

---
 aiok8s/leaderelection/leaderelection.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index b3c7977..9b964e5 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -103,6 +103,12 @@ class LeaderElector:
             except asyncio.TimeoutError:
                 # The lease may have expired meanwhile
                 succeeded = False
+            except asyncio.CancelledError:
+                raise
+            except Exception as e:
+                # Such as a record of another form
+                logger.error("error acquiring lease %s: %r", description, e)
+                succeeded = False
             self._maybe_report_transition()
             if not succeeded:
                 logger.debug("failed to acquire lease %s", description)
-- 
2.43.0


From 603d1c84271143b764a370a8d0074a1a84451261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:32 +0000
Subject: [PATCH 40/41] fix: requeue what failed to be processed before
 anything else happens to the queue

---
 aiok8s/cache/controller.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/aiok8s/cache/controller.py b/aiok8s/cache/controller.py
index b2ddc0b..b42294a 100644
--- a/aiok8s/cache/controller.py
+++ b/aiok8s/cache/controller.py
@@ -78,12 +78,23 @@ class _Controller:
     async def _process_loop(self):
         while True:
             try:
-                await self._config.queue.pop(self._config.process)
+                await self._config.queue.pop(self._process)
             except fifo.FIFOClosedError:
                 return
-            except fifo.ProcessError as e:
-                if self._config.retry_on_error:
-                    await self._config.queue.add_if_not_present(e.item)
+            except fifo.ProcessError:
+                pass
+
+    async def _process(self, obj):
+        try:
+            await self._config.process(obj)
+        except (asyncio.CancelledError, fifo.RequeueError):
+            raise
+        except Exception as e:
+            if self._config.retry_on_error:
+                # The queue adds it again before anything else happens to it,
+                # such as a deletion, which would have no effect meanwhile
+                raise fifo.RequeueError from e
+            raise
 
 
 class ResourceEventHandlerFuncs(NamedTuple):
-- 
2.43.0


From 6901eaa47312a7c5e25b2507088ad8d3ee7ff7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:32 +0000
Subject: [PATCH 41/41] fix: let others run while processing is retried

---
 aiok8s/cache/controller.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aiok8s/cache/controller.py b/aiok8s/cache/controller.py
index b42294a..2da44e5 100644
--- a/aiok8s/cache/controller.py
+++ b/aiok8s/cache/controller.py
@@ -82,7 +82,9 @@ class _Controller:
             except fifo.FIFOClosedError:
                 return
             except fifo.ProcessError:
-                pass
+                if self._config.retry_on_error:
+                    # Others must run too, however often it fails
+                    await asyncio.sleep(0)
 
     async def _process(self, obj):
         try:
-- 
2.43.0

