"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W, C, U, K, L = "aiok8s/workqueue/", "aiok8s/cache/", "aiok8s/util/", "aiok8s/controller/", "aiok8s/leaderelection/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(
        dict(
            id=id, title=title, statement=statement,
            quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
            anchors=dict(
                files=files.split(),
                mechanism=[dict(name=n, where=w) for n, w in mech],
                state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                observe_at=list(observe), hook_needed=None,
            ),
        )
    )


prop("C01", "A work queue hands out each added item, in order, to one worker at a time",
     "An item handed out by a work queue and not yet marked done is never handed out again meanwhile; adding an item that is already waiting has no further effect, and adding one that is being processed makes it be handed out once more after it is marked done. No addition made before shutdown is lost, an item is never left waiting while a getter waits, and items come out in the order in which they became ready.",
     "schedules histories inputs", "every interleaving of adders and workers, every equality pattern of the items, every sequence of add, get and done",
     "The tests run one fixed schedule with distinct items; exclusion and absence of lost items are about all interleavings of add, get and done.",
     W + "queue.py", [("dirty and processing sets, condition variable", W + "queue.py: Type")],
     [("dirty set", "items that need processing", W + "queue.py"), ("processing set", "items handed out and not done", W + "queue.py")], ["get", "add", "done", "len"])
prop("C02", "Shutting down any work queue drains it and then releases every getter",
     "After a plain, delaying or rate-limited work queue is shut down it reports so and ignores new additions, immediate or delayed; the items that were already queued, and the ones that were added again while in process, are still handed out, and then every getter, already waiting or later, is told to stop. Neither shutting down (also repeatedly) nor any getter or delayed addition blocks forever.",
     "schedules histories configurations", "every point of a history at which shutdown happens, every queue flavour, every number of waiting getters",
     "A test shuts down at one point of one history of the plain queue; the delaying and rate-limited queues are never shut down.",
     W + "queue.py " + W + "delaying_queue.py " + W + "rate_limiting_queue.py", [("shut_down", W + "queue.py: Type.shut_down"), ("shut_down", W + "delaying_queue.py")], observe=["get", "shut_down", "shutting_down"])
prop("C03", "A delayed addition is never early, never lost, and keeps the earliest due time",
     "An item added with a delay becomes available exactly once its delay has passed, never before, whatever other delayed additions are made at any time; a delay of zero or less makes it available at once. While an item is already waiting for its delay a further delayed addition of it can only bring its due time forward and never yields a second delivery, and items that fall due are queued in the order of their due times.",
     "schedules inputs histories", "all delays and instants of addition as real numbers, all equality patterns of the items, all positions of the additions relative to timers",
     "The tests step a fake clock through a few fixed delays; order of deadlines and the races between timers and additions are sampled once.",
     W + "delaying_queue.py " + U + "clock.py " + U + "_time.py", [("waiting loop with a priority queue", W + "delaying_queue.py: _waiting_loop"), ("lazy removal of superseded entries", W + "delaying_queue.py: _WaitForPriorityQueue")], observe=["add_after", "get"])
prop("C04", "Per-item exponential backoff: min(base * 2^failures, cap), independent per item",
     "The n-th consecutive request for an item's delay returns min(base * 2^(n-1), cap) for every n however large, never fails, and counts as one more requeue; other items are unaffected. Forgetting an item, known or not, resets its delay and its count to the initial state.",
     "histories inputs configurations", "every number of earlier failures, every base and cap, every interleaving of requests and forgets over several items",
     "The tests make five requests with fixed numbers; the counter is unbounded.",
     W + "default_rate_limiters.py", [("failure counter per item", W + "default_rate_limiters.py: ItemExponentialFailureRateLimiter")], observe=["when", "forget", "num_requeues"])
prop("C05", "Token bucket: never more than burst + limit * T in any window of length T",
     "With a token bucket of rate `limit` and size `burst`, the instants granted to requests (time of request plus returned delay) never number more than burst + limit * T in any window of length T, grants are in request order, and the delay returned is the least that allows this: a request is delayed only when the bucket is empty. Items are not distinguished, and invalid configurations (limit not positive, burst below one) are rejected.",
     "inputs histories configurations", "all request instants, rates and bucket sizes within the bounds",
     "The test makes one burst at one instant; the bound is about every window over every sequence of instants.",
     W + "default_rate_limiters.py", [("token accounting", W + "default_rate_limiters.py: BucketRateLimiter._advance")], observe=["when"])
prop("C06", "Rate-limited requeue: the item comes back after the longest limiter's delay",
     "A combination of limiters delays by the largest of its members' delays, consults and charges every member on every request, reports the largest requeue count and forgets in all of them. Adding an item rate-limited makes it available exactly after the delay its limiter gave, and forgetting it through the queue resets the limiter; the default controller limiter combines a 5 ms to 1000 s exponential backoff with a bucket of 10 per second and burst 100, of its own for each queue.",
     "inputs histories configurations", "every pair of member delays and counts, every history of requests and forgets of several items",
     "The tests use fixed limiters with one order of delays.",
     W + "default_rate_limiters.py " + W + "rate_limiting_queue.py", [("maximum over limiters", W + "default_rate_limiters.py: _MaxOfRateLimiters"), ("add_rate_limited", W + "rate_limiting_queue.py")], observe=["add_rate_limited", "when", "forget", "num_requeues"])
prop("C07", "A delta queue delivers, per key, every change in order, and keys in order",
     "Popping a delta queue yields for one key all the changes made to it since it was last popped, in the order they were made, where only adjacent deletions are merged into one that keeps the more informative object; keys come out in the order in which they first got a pending change. Deleting something neither queued nor known has no effect, and a resync adds a synchronisation marker only for known keys without pending changes.",
     "histories inputs schedules", "every sequence of add, update, delete, resync and pop over keys of arbitrary equality, every content of the known objects, every interleaving with a waiting pop",
     "The tests run fixed sequences of at most four operations.",
     C + "delta_fifo.py", [("per-key list of deltas", C + "delta_fifo.py: _queue_action_locked"), ("merging of deletions", C + "delta_fifo.py: _dedup_deltas")], observe=["pop", "list", "get_by_key"])
prop("C08", "Replacing a delta queue's content reports every listed and every vanished object",
     "A replace queues a synchronisation change for every listed object and a deletion, marked as final state unknown and carrying the last known object (queued or stored), for every key that is known to the store behind the queue, or only pending in the queue, and not listed, whatever changes are pending. Consumers that keep the known objects as their store and apply all changes end with exactly the listed objects.",
     "histories inputs", "every pending history, known set and listed set within the bounds",
     "The tests use single fixed lists.",
     C + "delta_fifo.py", [("replace", C + "delta_fifo.py: DeltaFIFO.replace")], observe=["replace", "pop"])
prop("C09", "has_synced turns true exactly when the first batch has been consumed",
     "A queue (plain or delta) reports not synced until it has received its first content; when that content came by a replace, it reports synced only after every key that replace queued has been popped (or, in a plain FIFO, dropped by a later replace or deletion), and immediately when there was none. Once true it stays true through any further additions, replaces and pops.",
     "histories inputs", "every sequence of add, update, delete, replace and pop with all list sizes within the bounds",
     "Six fixed sequences are tested.",
     C + "delta_fifo.py " + C + "fifo.py", [("initial population count", C + "delta_fifo.py"), ("initial population count", C + "fifo.py")], observe=["has_synced"])
prop("C10", "A FIFO hands out the latest version of each key, once, in first-added order",
     "Popping a FIFO returns keys in the order in which they were first added since they were last popped or removed from it, each with its most recently added object, and each addition is delivered by at most one pop (a key removed while pending and added again may come up at its former place). Deleted keys, also ones deleted and never present, are skipped without an error; a replace discards what is not listed; a resync or an add-if-absent never overwrites, duplicates or loses a pending object.",
     "histories inputs schedules", "every sequence of add, update, delete, replace, resync, add-if-not-present and pop over keys of arbitrary equality",
     "The tests run fixed sequences.",
     C + "fifo.py", [("queue of ids and item map", C + "fifo.py: FIFO")], observe=["pop", "list", "get"])
prop("C11", "A failing pop handler loses nothing: requeue restores, errors carry the item",
     "If the processing function of a pop asks for a requeue, the popped content is queued again unless newer content for its key arrived, and an attached cause is reported; any other failure is reported to the caller as a processing error that carries the popped item. Closing a queue ends every pop that finds it empty, waiting or later, with the closed error, and pending items can still be popped first. A controller set to retry on errors processes what failed again until it succeeds, newer changes included, and keeps nothing else from running.",
     "fault_sequences histories schedules", "every outcome of every processing call, every key history around it, every point of closing relative to waiting pops",
     "One requeue sequence is tested for each queue.",
     C + "fifo.py " + C + "delta_fifo.py " + C + "controller.py", [("pop", C + "fifo.py: FIFO.pop"), ("pop", C + "delta_fifo.py: DeltaFIFO.pop"), ("retrying", C + "controller.py: _Controller._process_loop")], observe=["pop", "close"])
prop("C12", "Store reads reflect exactly the last write per key, and indexes match the items",
     "A store holds for each key exactly the object of the last add, update or replace not followed by a delete. After any history every index lists, for each value, exactly the keys of the held objects that have that value, also when objects change values, have several, repeated or none; indexers can be added to an empty store only, to an informer only before it runs, and never under a name that is taken. What a read returned does not change with later writes.",
     "histories inputs configurations", "every history of add, update, delete and replace with arbitrary keys and index values within the bounds",
     "Two fixed histories are tested, and adding indexers is not.",
     C + "thread_safe_store.py " + C + "store.py " + C + "index.py", [("index maintenance", C + "thread_safe_store.py: _update_indices, _delete_from_indices")], observe=["list", "get_by_key", "by_index", "index", "index_keys", "list_index_func_values"])
prop("C13", "Different objects get different store keys, and reads compute the same key",
     "The store key of an object is determined by its namespace and name alone, is the same for typed and raw objects and for deletion markers carrying that key, and is different for different (namespace, name) pairs of valid names; objects without a namespace, given as empty, null or absent, are keyed by name. A cache read by namespaced name finds exactly the object stored under it and raises KeyError when there is none; something that is not an object is reported as a key error.",
     "inputs", "all names and namespaces without a slash, every way of leaving the namespace out, typed and raw objects",
     "The tests use a few literal names.",
     C + "store.py " + C + "controller.py " + "aiok8s/api/meta.py " + K + "_cache_reader.py", [("key function", C + "store.py: meta_namespace_key_func"), ("accessors", "aiok8s/api/meta.py")], observe=["meta_namespace_key_func", "CacheReader.get"])
prop("C14", "A reflector makes its store follow the server: list, then every event in order",
     "A reflector replaces its store's content with each list result and applies every later watch event exactly once, in order, by its type; events of another type or kind than expected, or not understandable, change neither the store nor the recorded version, and one rejected by the store does not stop later ones. Each watch, first or resumed, starts from the version of the last list or the last event processed, bookmarks included, and that version is what the reflector, and an informer that runs it, reports (whether an event of unknown type counts as processed is left open).",
     "histories inputs schedules", "every sequence of lists, watch events of all types and watch ends within the bounds, events arriving at any time",
     "The tests feed one or two events of fixed types.",
     C + "reflector.py " + "aiok8s/api/meta.py", [("list_and_watch", C + "reflector.py"), ("watch handler", C + "reflector.py: _watch_handler")], observe=["store calls", "list and watch options", "last_sync_resource_version"])
prop("C15", "A reflector survives every list or watch failure and catches up again",
     "Whatever fails — the list call, opening the watch, the stream midway, an error event, a resync of the store — the reflector goes on: it opens the watch again, or lists again within a second or so, and the store then equals the server's state. It never stops by itself nor waits forever on an ended stream, ends every stream it gave up, does not spin without pausing on failures, and stops promptly when cancelled.",
     "fault_sequences crash_points schedules", "every sequence of up to the bound of faults, each at any point",
     "The tests cover one failed watch and one stop; a stream that raises is never tested.",
     C + "reflector.py", [("retry loop", C + "reflector.py: run"), ("event forwarding task", C + "reflector.py: _watch_handler")], observe=["store content", "calls to the server"])
prop("C16", "An informer's notifications replay to exactly the store's content",
     "For every server history an informer calls on_add for a key it does not hold, on_update with the previous and the new object for one it holds, and on_delete only for one it holds; applying the notifications in order yields at every moment the informer's store, and when the server is quiet the store equals the server's content. Changes missed while no watch was open are made up for at the next list, deletions included.",
     "histories fault_sequences schedules", "every server history of add, modify and delete over several objects with lost watch periods within the bounds",
     "Two fixed histories are tested.",
     C + "controller.py " + C + "delta_fifo.py " + C + "reflector.py", [("process function", C + "controller.py: _new_informer")], observe=["handler calls", "store"])
prop("C17", "Every handler of a shared informer gets the full ordered stream by itself",
     "Every handler of a shared informer, also one added while it runs, receives notifications that start with an add for each object then held and then follow every change in order, each exactly once. A handler that is slow, stuck or raises neither delays nor loses the notifications of the others nor the cache's progress, and one that raised itself continues with the next notification within about a minute.",
     "schedules fault_sequences histories", "every speed and failure pattern of the handlers, every moment of adding a handler relative to server events",
     "The tests use well-behaved handlers added before the start.",
     C + "shared_informer.py", [("per-handler buffer", C + "shared_informer.py: _ProcessListener"), ("late add under the delta lock", C + "shared_informer.py: add_event_handler")], observe=["handler calls", "indexer"])
prop("C18", "Each handler gets resyncs at its own period, as negotiated, and only then",
     "A handler that asked for a resync period gets an update for every held object about every that period, at least one second and no less than the informer's check period, which the shortest request before the start lowers and which cannot be lowered afterwards; a handler that asked for none gets no resync updates, whatever the others asked for, and an informer created without a resync period never resyncs.",
     "configurations schedules inputs", "all requested periods as real numbers for several handlers, before and after the start",
     "One pair of fixed periods is tested.",
     C + "shared_informer.py " + C + "reflector.py", [("period negotiation", C + "shared_informer.py: add_event_handler, _determine_resync_period"), ("due times per handler", C + "shared_informer.py: _should_resync")], observe=["handler calls"])
prop("C19", "Changes found by a relist reach every handler, whatever its resync period",
     "When a list after a lost watch finds objects added, changed or deleted, every handler of the shared informer is notified of each of them, whether or not it asked for resyncs and whether or not a resync happened before; a handler without resyncs is not notified of objects the relist found unchanged any more than others are.",
     "histories fault_sequences configurations", "every combination of changes missed, resync periods and earlier resyncs within the bounds",
     "No test relists a shared informer after a resync.",
     C + "shared_informer.py", [("classification of sync deltas", C + "shared_informer.py: handle_deltas")], observe=["handler calls"])
prop("C20", "An informer says it is synced only after the first list is in the store",
     "An informer (plain or shared) reports itself synced only when every object of its first list is in its store, eventually does so when handlers and server behave, also for an empty list, and stays synced; waiting for the sync of several caches returns only when all are synced. Neither happens before the informer runs.",
     "schedules inputs histories", "every list size, every moment of asking, every speed of the server within the bounds",
     "The tests wait for sync and then look once.",
     C + "shared_informer.py " + C + "controller.py", [("has_synced", C + "controller.py"), ("wait_for_cache_sync", C + "shared_informer.py")], observe=["has_synced", "wait_for_cache_sync", "store"])
prop("C21", "A waiting broadcaster delivers every event to every watcher in order",
     "With waiting on full queues, each watcher of a broadcaster receives every event sent after its watch call returned until it stops or the broadcaster shuts down, exactly once and in order, preceded by the events it was given as a prefix; a watcher that stopped or is slow never makes others miss events and a stopped one never blocks them. Several tasks may read one watcher: each event then goes to one of them. A receive that is given up loses no event, and a call for a watch or a send that is given up harms nobody; shutdown delivers what was sent before it, returns, and every watcher's stream then ends. Nobody waits forever on a broadcaster that is or was shut down: sends and calls for a watch end, too.",
     "schedules histories configurations", "every interleaving of senders, watchers, stops and shutdown, every queue length within the bounds",
     "The tests use one schedule.",
     "aiok8s/watch/mux.py", [("distribution loop", "aiok8s/watch/mux.py: Broadcaster._loop, _distribute")], observe=["watch", "action", "shutdown"])
prop("C22", "A dropping broadcaster never blocks and drops only what does not fit",
     "With dropping on full queues, sending never waits for a watcher, and each watcher receives a subsequence of the events in order that omits an event only when its queue was full at that time; one watcher's full queue does not affect another.",
     "schedules histories configurations", "every interleaving of sends and receives, every queue length within the bounds",
     "One schedule is tested.",
     "aiok8s/watch/mux.py", [("put without waiting", "aiok8s/watch/mux.py: _distribute")], observe=["watch", "action"])
prop("C23", "Backoff steps grow by the factor up to the cap, with jitter in its range",
     "The i-th delay of a backoff is duration * factor^i until the cap, which it never exceeds before jitter and keeps afterwards; jitter adds between nothing and its fraction of the delay. Retrying with a backoff calls the condition at most `steps` times, stops at once on success or on an error, which it passes on, sleeps a delay only between attempts (and after one at which the cap is reached), and otherwise times out, also as soon as a delay has reached the cap; the caller's settings are not changed.",
     "inputs configurations fault_sequences", "all durations, factors, caps, jitters, step counts and condition outcomes within the bounds",
     "Table tests with fixed numbers.",
     U + "wait.py", [("Backoff.step, exponential_backoff, jitter", U + "wait.py")], observe=["step", "exponential_backoff"])
prop("C24", "Periodic loops run at their period, stop when told, and polls honour timeouts",
     "A periodic loop calls its function at once and then once per period — measured from start to start, or from end to start when sliding — stretched by at most the jitter, and makes no further call after it is told to stop, ending at once even between calls; an event set before the start means no call. Polling checks the condition once per interval until it holds, its errors pass through, and a timeout is raised no later than the deadline.",
     "schedules inputs configurations", "all periods, durations of the function, stop times, jitter draws and outcomes within the bounds",
     "The tests stop at one point with one period.",
     U + "wait.py " + U + "_time.py", [("jitter_until, jitter_loop, poll*", U + "wait.py")], observe=["instants of the calls"])
prop("C25", "Clock timers and tickers fire exactly when the clock passes their time",
     "Stepping or setting a fake clock fires exactly the timers whose time has been reached and not others, each once; a ticker gets at most one undelivered tick and stays on its grid of multiples of its period. A stopped timer never fires and stopping tells whether it was pending, a reset moves the time of a pending one; waiters are reported exactly while some are pending. A timer of the real clock fires once, when its delay has passed, and its ticker ticks every period, keeping at most one undelivered tick; neither does once stopped.",
     "histories inputs", "every history of timers, tickers, stops, resets and steps by arbitrary amounts within the bounds",
     "Fixed steps are tested.",
     U + "clock.py", [("waiters list", U + "clock.py: FakeClock")], observe=["timer and ticker queues", "has_waiters", "now", "since"])
prop("C26", "Each reconcile outcome has its one effect on the queue; a worker survives all",
     "A reconcile that raises or asks for a requeue makes its request come back after the rate limiter's growing delay, however often in a row, one that asks for a requeue after some time comes back after exactly that time, and in the successful and requeue-after cases the request's backoff is reset. Every request is marked done whatever happens, a request is never reconciled twice at once, the worker goes on after every outcome including items that are not requests and reconciles that return no result, and a stopped controller shuts its queue down.",
     "fault_sequences schedules histories", "every sequence of outcomes and every interleaving with new events within the bounds, any number of workers up to the bound",
     "The repository has no controller tests.",
     K + "controller.py", [("outcome handling", K + "controller.py: _reconcile_handler"), ("done in finally", K + "controller.py: _process_next_work_item")], observe=["instants and arguments of reconcile calls", "queue"])
prop("C27", "Every object event passing the predicates enqueues its object's request",
     "For every add, update and delete notification of an object the controller's source enqueues the request with that object's namespace and name — for an update those of the old and the new object — if and only if all predicates accept the event, each being asked at most once with the event's objects. Deletions whose final state is unknown are treated as deletions of the last known object.",
     "inputs histories", "every object identity, every event type, every predicate outcome",
     "The repository has no tests of sources and handlers.",
     K + "source.py " + K + "handler.py " + K + "event.py", [("EventHandler", K + "source.py"), ("EnqueueRequestForObject", K + "handler.py")], observe=["queue"])
prop("C28", "Cache reads: error before start, current content after, never a hang",
     "A read from the controller cache before it is started raises the not-started error; after the start a read, also of a type first asked for then, waits for that type's first list and returns the stored object for exactly that namespaced name or raises KeyError. One informer exists per type however many concurrent first requests there are, and it lists and watches the configured namespace only. Once the cache is stopped no read and no wait for its sync goes on forever: what is not synced then fails.",
     "schedules histories configurations", "every order of start, reads and first requests of types, concurrent ones included",
     "The repository has no tests of the controller cache.",
     K + "cache.py " + K + "_deleg_map.py " + K + "_informers_map.py " + K + "_cache_reader.py", [("informer map", K + "_informers_map.py"), ("reader", K + "_cache_reader.py")], observe=["get", "get_informer"])
prop("C29", "Informer resync periods are spread over 0.9 to 1.1 of the configured one",
     "Each informer the controller cache creates gets a resync period drawn from at least 0.9 up to less than 1.1 times the configured period, drawn anew for each.",
     "inputs configurations", "every configured period and every random draw",
     "The repository has no tests of it.",
     K + "_informers_map.py", [("_resync_period", K + "_informers_map.py")], observe=["resync period of the informers"])
prop("C30", "Group, version and kind are read correctly from every object form",
     "For every apiVersion, with or without a group, the group, version and kind derived from a typed or raw object are those the object states, so that a reflector restricted to one kind accepts exactly the objects of that kind.",
     "inputs", "all group, version and kind strings within the bounds",
     "The tests use one grouped literal.",
     "aiok8s/api/meta.py aiok8s/runtime/schema.py", [("group_version_kind", "aiok8s/api/meta.py")], observe=["type_accessor", "reflector store"])
prop("C31", "At most one elector leads at any moment; a held lease is never taken early",
     "An elector takes over the lease record of another holder only after it has observed that record unchanged for the full lease duration, so of several electors with exact clocks at most one is leading at any moment. The record is created when absent, and writes that conflict or fail never make an elector a leader. An elector goes on trying, however long its attempts fail and whatever it reads, and then leads once the lease is free.",
     "schedules fault_sequences histories", "every interleaving of electors, request latencies and failures within the bounds",
     "The module cannot even be imported by tests at present.",
     L + "leaderelection.py", [("acquire or renew", L + "leaderelection.py: _try_acquire_or_renew")], observe=["lease record writes", "leader callbacks"])
prop("C32", "A leader that cannot renew stops leading within the renew deadline",
     "When a leader fails to renew its lease for the renew deadline, or loses it, or is cancelled, it stops leading in time: the leading task is cancelled and the stopped-leading callback runs exactly once, after which running the elector ends; while renewals succeed it keeps leading and renews about every retry period. The started callback runs only after the lease was acquired, and each change of the observed leader is reported once.",
     "fault_sequences schedules crash_points", "every pattern of renewal failures and latencies and every moment of cancellation within the bounds",
     "There are no tests of leader election.",
     L + "leaderelection.py", [("renew loop", L + "leaderelection.py: _renew"), ("run", L + "leaderelection.py: run")], observe=["callbacks", "lease writes"])
prop("C33", "Leader election settings are accepted exactly when they are safe",
     "An elector is constructed if and only if the lease duration exceeds the renew deadline, the renew deadline exceeds 1.2 times the retry period, all three are positive, and the started and stopped callbacks and the lock are given.",
     "configurations inputs", "all values of the three durations and all presence patterns",
     "There are no tests of leader election.",
     L + "leaderelection.py", [("constructor checks", L + "leaderelection.py: LeaderElector.__init__")], observe=["constructor"])
prop("C34", "The lease record keeps true holder, acquire time and transition count",
     "Every record an elector writes names it as holder with the current renew time; renewing keeps the acquire time and the transition count, taking over from another holder sets a new acquire time and adds one to the count. Releasing on cancellation, if configured, leaves a record without a holder that another elector can take at once, keeps the count, and is done only by the holder (a release while a request of the elector is under way may fail).",
     "histories inputs", "every record found and every history of acquisitions, renewals and releases within the bounds",
     "There are no tests of leader election.",
     L + "leaderelection.py " + L + "resourcelock.py", [("record fields", L + "leaderelection.py: _try_acquire_or_renew, _release")], observe=["lease record writes"])
prop("C35", "A config map lock stores and returns exactly the record it was given",
     "What is created or updated through a config map lock is what the next get returns, whatever other annotations the object has, which are kept; an absent config map or annotation reads as no record, from which a lease can be acquired, other API errors are passed on, and updates carry the version last read so that the server can detect conflicts. Updating before any get or create is an error.",
     "histories inputs fault_sequences", "every record, every prior state of the config map, every API error",
     "There are no tests of leader election.",
     L + "resourcelock.py", [("ConfigMapLock", L + "resourcelock.py")], observe=["API calls", "get"])
prop("C36", "Reconciling starts only after the caches are synced; stopping stops everything",
     "A started manager runs every controller and other runnable added before; these, and the sources, handlers, predicates and reconcilers of its controllers, are given its cache, and their parts too, before they are used, if they ask for it. No controller reconciles before the caches its sources use are synced; every object that exists by then, or changes later, is reconciled. When the manager is cancelled, at any moment, no reconcile starts any more and its caches stop listing and watching. When a controller or another runnable fails the manager stops everything likewise and reports that failure. It has ended only when the reconciles and runnables it stopped have.",
     "schedules histories", "every speed of the first lists, every set of objects and every moment of cancellation within the bounds",
     "The repository has no manager tests.",
     K + "manager.py " + K + "controller.py " + K + "builder.py", [("cache start and wait", K + "manager.py"), ("source start and wait", K + "controller.py: start")], observe=["reconcile calls"])
prop("C37", "Running an informer ends cleanly on cancellation, at any moment",
     "An informer, plain or shared, that is cancelled at any moment ends within bounded time, closes its queue, lets no handler call start after it has ended, and leaves no watch open, provided handler calls in progress end; a handler added after that is never called.",
     "crash_points schedules", "every moment of cancellation within the bounds",
     "The tests cancel at one quiet moment.",
     C + "controller.py " + C + "shared_informer.py " + C + "reflector.py", [("cancellation handling", C + "controller.py: _Controller.run"), ("processor stop", C + "shared_informer.py: _SharedProcessor._run")], observe=["run", "handler calls", "streams closed"])
prop("C38", "The fake source's list plus watch gives every change exactly once",
     "For the fake controller source used in tests, a list followed by a watch from the list's version yields the listed state and then every later change exactly once, in order, each with the version it was given, whatever changes happened between the two calls; versions count the changes, and a watch from a future version is refused.",
     "histories schedules", "every history of changes around the list and the watch within the bounds",
     "One fixed history is tested.",
     C + "testing/fake_controller_source.py", [("change log and broadcaster prefix", C + "testing/fake_controller_source.py")], observe=["list", "watch"])
prop("C39", "Informers keep working against a live API server over long runs",
     "Against a real API server, through reconnects, expired versions and clock changes over days, a controller's cache keeps converging to the server's state.",
     "histories fault_sequences", "unbounded histories of a real server",
     "Needs a cluster and unbounded time.",
     K + "client.py", [("kubernetes_asyncio watch streams", K + "client.py")], observe=["cache"])
prop("C40", "A fake watcher hands every event to its reader exactly once, in order",
     "Every event sent through a fake watcher is received exactly once (by one of its readers, if there are several), with its type and object and in the order in which the sends began, and a send returns only once its event was taken; a receive that is given up loses no event. When the watcher is stopped, by its reader or from outside, its stream ends, and after a reset it works again.",
     "schedules histories", "every interleaving of senders, reader, cancelled receives and stop within the bounds",
     "One test sends five events from one task to one reader that never pauses.",
     "aiok8s/watch/watch.py", [("result queue with join", "aiok8s/watch/watch.py: FakeWatcher")], observe=["__anext__", "add", "modify", "delete", "error", "action", "stop", "reset"])

prop("C41", "Setting the system's clock makes no delay, period or lease shorter or longer",
     "The durations the library keeps pass by the monotonic clock: when the system's wall clock is set forwards or backwards, by any amount at any moment, delayed additions still fall due after their delay, rate limits and retry delays stay as they are, resyncs come at their period, polls, loops and backoffs keep their times, and an elector takes over a lease that is not renewed after the lease duration as it observed it, neither earlier (so that two never lead) nor later, and goes on renewing.",
     "histories inputs fault_sequences", "every adjustment of the clock, at every moment within the bounds",
     "No test sets the clock; with the real clock they cannot.",
     "aiok8s/util/clock.py aiok8s/util/wait.py aiok8s/util/_time.py aiok8s/workqueue/default_rate_limiters.py aiok8s/workqueue/delaying_queue.py " + L + "leaderelection.py " + C + "shared_informer.py",
     [("clock", "aiok8s/util/clock.py: RealClock"), ("bucket", "aiok8s/workqueue/default_rate_limiters.py: BucketRateLimiter.when"), ("observed time", L + "leaderelection.py: _try_acquire_or_renew")],
     observe=["DelayingQueue.get", "BucketRateLimiter.when", "handler calls", "lease record writes", "poll, loops, backoff"])

prop("C42", "Giving up a waiting call takes nothing from the others and breaks nothing",
     "When a caller gives up (cancels) a call that waits - a pop of a FIFO or delta queue, a get or a delayed or rate-limited addition of a work queue, the addition of a handler to a running informer, or a cache's first read, request for an informer or wait for sync - that call ends and nothing else is affected (whether it took effect is open): no object or item is lost or handed out twice, whoever else waits is still woken up, other handlers get their full streams, a type is still listed once and followed, and what is used afterwards works as before.",
     "schedules histories fault_sequences", "every turn at which the call is given up, among every interleaving of the other calls within the bounds",
     "The tests cancel only whole informers at the end.",
     C + "fifo.py " + C + "delta_fifo.py " + C + "shared_informer.py " + W + "delaying_queue.py " + W + "queue.py " + K + "_informers_map.py",
     [("waiting pops", C + "delta_fifo.py: DeltaFIFO.pop"), ("addition buffer", W + "delaying_queue.py: add_after"), ("informer map", K + "_informers_map.py: get")],
     observe=["pop", "get", "add_after", "add_rate_limited", "handler calls", "cache.get", "get_informer", "wait_for_cache_sync"])

prop("C43", "The last reconcile of each object sees its latest state, whatever failed",
     "Controllers built with a manager are level-triggered: however objects are created, changed and deleted before and while they run, and whichever reconciles fail, ask to be run again or take long, and whichever watches break or requests fail for a time, soon after the last change and trouble every object that is there has been reconciled by every controller that watches it, in its last reconcile the cache gave the object's latest state (or none, when it is gone), and that reconcile neither failed nor asked for another; no object is reconciled twice at once by one controller, however many workers it has, none is reconciled over and over, and controllers do not wait for each other.",
     "histories schedules fault_sequences", "every history of changes, outcomes and faults, and every turn of changes around a reconcile, within the bounds",
     "The repository has no tests of the controller package; convergence is about all histories.",
     K + "controller.py " + K + "manager.py " + K + "builder.py " + K + "source.py " + K + "handler.py " + K + "_informers_map.py " + C + "shared_informer.py " + C + "reflector.py " + C + "delta_fifo.py " + W + "queue.py",
     [("worker", K + "controller.py: _process_next_work_item"), ("store before handlers", C + "shared_informer.py: handle_deltas"), ("dirty set", W + "queue.py: Type.done")],
     observe=["reconcile", "cache.get"])

prop("C44", "What has ended leaves no task running",
     "When something the library runs has ended - a periodic loop, poll or retry; a work queue that was shut down or a FIFO or delta queue that was closed, with the calls that were given up on it; a broadcaster that was shut down, with its watchers; a reflector, informer, cache, manager or elector that was cancelled, failed or ended by itself - at any moment, no task that it started is still there a second later (other than calls the user's own handlers have not ended): nothing accumulates, however often such things are started and ended.",
     "schedules histories fault_sequences", "every moment of the end, every way to end, within the bounds",
     "No test counts what is left behind; a leak shows only over many starts and ends.",
     "aiok8s/util/wait.py aiok8s/watch/mux.py " + W + "delaying_queue.py " + C + "reflector.py " + C + "shared_informer.py " + K + "manager.py " + K + "_informers_map.py " + L + "leaderelection.py",
     [("stop waiter", "aiok8s/util/wait.py: jitter_until"), ("pending receive", "aiok8s/watch/mux.py: _BroadcasterWatcher.__anext__"), ("due timer", W + "delaying_queue.py: _waiting_loop")],
     observe=["asyncio.all_tasks"])

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    NA = {
        "C39": "The guarantee is about an external server process, its network and unbounded time: there is no code in the repository to encode for it (kubernetes_asyncio's streaming client and the API server are outside), and a bounded symbolic run says nothing about it. The repository's own share is decided by C14 to C17.",
    }
    NOTE = {
    }
    have = [p["id"] for p in P if os.path.exists(os.path.join(HERE, "props", p["id"].lower() + ".py"))]
    checks = [
        dict(
            property=i,
            quick_cmd=f"./run.py {i} --tier quick",
            thorough_cmd=f"./run.py {i} --tier thorough",
            evidence_file=f"evidence/{i}.json",
            technique="symbolic execution of the real code with z3 (own engine), solver-decided assertions, concrete replay",
            level="model_checking",
            level_note=NOTE.get(i, "Exhaustive over every symbolic path within the bounds that evidence states per harness; each assertion is discharged by z3 for all values on a path. Trusts the engine's proxies and virtual-time loop, which sampled paths re-run on the unmodified code cross-check on every run; exact rationals stand for floats."),
        )
        for i in have
    ]
    na = [dict(property=i, reason=r) for i, r in NA.items()]
    na += [dict(property=p["id"], reason="No check built yet.") for p in P if p["id"] not in have and p["id"] not in NA]
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(dict(version=1, setup_cmd="./run.py --selftest", checks=checks, not_applicable=na,
                       notes="Every check reads /repo's current sources at run time; nothing is built. See DESIGN.md."), f, indent=1)
        f.write("\n")
