#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay editable)."""
import json, os
U, S = "dumpster/src/unsync/", "dumpster/src/sync/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "unsync: reachable values are never destroyed",
 "On one thread, a value that the program can still reach through any chain of unsync Gc pointers starting at a Gc it holds is never dropped or freed, and its contents read back exactly as last stored. This holds whatever the history of creating, cloning, dropping, storing, moving and removing pointers, whatever cells are borrowed at the time, and whenever collections run (explicit, or chosen by any collect condition).",
 ["histories", "inputs", "configurations"],
 "all operation histories over graphs of several node types, container kinds and alignments, held borrows, collect conditions and hash orders",
 "The unit tests run a dozen fixed small graphs with one collection at the end and no held borrows; they fix neither the order in which candidates are examined nor the history that left stale bookkeeping behind.",
 [U+"collect.rs", U+"mod.rs"],
 [("reference-count versus found-edge comparison, then marking from unaccounted allocations", U+"collect.rs: Dumpster::collect_all, Dfs, Mark"), ("clone/drop counting", U+"mod.rs: Clone, Drop")],
 [("ref_count", "number of pointers to an allocation", U+"mod.rs: GcBox"), ("to_collect", "candidates for the next collection", U+"collect.rs: Dumpster")],
 ["drop counters and canaries inside every generated value", "allocator log", "value read through every reachable path"])

prop("C02", "unsync: unreachable values are reclaimed",
 "After unsync::collect() returns, every value of that thread that the program can no longer reach has been dropped, no matter how it became unreachable, which other values are borrowed at the time, or how often collections ran before. Values whose last pointer is dropped are destroyed at that moment, without waiting for a collection.",
 ["histories", "inputs", "configurations"],
 "all operation histories ending in collect(), with nested and overlapping cycles, garbage pointing at live data and the reverse",
 "Tests check that a few hand-written cycles disappear; they do not vary the order and number of earlier collections, which decide whether a candidate is still remembered.",
 [U+"collect.rs", U+"mod.rs"],
 [("candidate bookkeeping on drop", U+"mod.rs: Drop; collect.rs: mark_dirty, mark_cleaned"), ("sweep of unmarked candidates", U+"collect.rs: collect_all, DropAlloc")],
 [("to_collect", "candidates for the next collection", U+"collect.rs: Dumpster")],
 ["drop counters after collect()"])

prop("C03", "Each value is dropped exactly once and its storage returned exactly once",
 "For both collectors, every value placed in a Gc has its destructor run at most once, its memory is released exactly once with the size and alignment it was allocated with, no memory is read or written after being released, and once the value is destroyed its storage does not stay behind. This holds for all value types: zero-sized, over-aligned, large, with or without pointers inside, and whether destroyed by counting or by a collection.",
 ["histories", "inputs"],
 "all operation histories over value types of varied size, alignment and content, for both collectors",
 "The tests never look at the allocator: a leaked block, a wrong layout or a stale read inside the collector passes them all.",
 [U+"collect.rs", U+"mod.rs", S+"collect.rs", S+"mod.rs", "dumpster/src/ptr.rs"],
 [("layout computed from the value when freeing", U+"collect.rs: DropAlloc, drop_assist; "+S+"collect.rs: destroy_erased, drop_weak_zero"), ("type-erased pointer round trip", "dumpster/src/ptr.rs: Erased")],
 [("strong / weak", "who may still touch the allocation", S+"mod.rs: GcBox")],
 ["global allocator that quarantines, poisons and logs every block"])

prop("C04", "sync: reachable values are never destroyed (operations one at a time)",
 "A value reachable through sync Gc pointers from any thread, static or value still held is never dropped or freed, and its contents read back as last stored. This holds for every history of operations carried out one after another on any number of threads, including threads that exit, locks held across collections, and every collect condition.",
 ["histories", "inputs", "configurations"],
 "all operation histories distributed over several threads, one operation at a time, with collections started from any of them",
 "The sync tests use one or two fixed graphs per scenario and mostly one thread; none moves pointers between threads with different pending bookkeeping or restarts threads.",
 [S+"collect.rs", S+"mod.rs"],
 [("reference graph with unaccounted counts", S+"collect.rs: dfs, Dfs, mark"), ("generation and tag checks", S+"mod.rs: Deref, Clone, Drop")],
 [("weak", "entries held by collection buffers", S+"mod.rs: GcBox"), ("contents", "per-thread and global candidate buffers", S+"collect.rs")],
 ["drop counters and canaries", "allocator log"])

prop("C05", "sync: unreachable values are reclaimed once the threads involved collect",
 "If a program uses sync Gcs from one thread, then after sync::collect() returns every unreachable value has been dropped. If several threads took part, one operation at a time, every unreachable value has been dropped after each of those threads has either called collect() or exited and then one more collect() has run.",
 ["histories", "inputs", "configurations"],
 "all operation histories distributed over one or several threads, one operation at a time",
 "The tests cover a handful of fixed cycles; whether a candidate survives in some thread's buffer depends on the history of drops, deliveries and collections.",
 [S+"collect.rs", S+"mod.rs"],
 [("delivery of candidates to the global buffer", S+"collect.rs: Dumpster::deliver_to, mark_dirty, mark_clean"), ("weak count of buffered entries", S+"collect.rs: collect_all, dfs")],
 [("weak", "entries held by collection buffers", S+"mod.rs: GcBox")],
 ["drop counters after collect()"])

prop("C06", "sync: concurrent use never destroys a reachable value",
 "When threads concurrently create, clone, drop, dereference, store, move and remove sync Gc pointers while collections run, no value that some thread can still reach is dropped or freed, no freed memory is accessed, and no value is destroyed twice. This holds under every interleaving.",
 ["schedules", "programs", "histories"],
 "all interleavings, at the granularity of the collector's atomic operations, locks and visits, of small multi-threaded programs",
 "Tests start a few real threads and see only the interleavings the machine happens to produce; windows a few instructions wide between count updates and graph building are practically never hit.",
 [S+"collect.rs", S+"mod.rs"],
 [("generation/tag protocol detecting accesses during a traversal", S+"mod.rs: Deref, Clone, Drop; collect.rs: Dfs::visit_sync"), ("strong/weak protocol deciding who frees", S+"mod.rs: Drop; collect.rs: collect_all")],
 [("generation, tag, current tag", "detects use of a value during a traversal", S+"mod.rs"), ("strong / weak", "ownership of the allocation", S+"mod.rs: GcBox")],
 ["drop counters, canaries and allocator state at every atomic operation"],
 "scheduling points before each atomic and lock operation")

prop("C07", "sync: concurrency leaks nothing",
 "Whatever the interleaving of threads using sync Gcs and of collections, once the threads have finished and collect() has been called by the remaining thread, every unreachable value has been dropped and its memory released. When no pointers remain at all, nothing remains allocated for them. A thread that makes a structure no other thread ever gets a pointer to, drops its own pointers to it and then calls collect() finds it dropped when collect() returns, even if other threads collect at the same time.",
 ["schedules", "programs", "histories"],
 "all interleavings of small multi-threaded programs, observed at quiescence",
 "A leak caused by a lost race shows up in no assertion of the test suite and needs a specific interleaving.",
 [S+"collect.rs", S+"mod.rs"],
 [("hand-over of the last reference between counting and buffers", S+"mod.rs: Drop; collect.rs: mark_dirty, mark_clean, deliver_to, collect_all")],
 [("strong / weak", "who frees the allocation", S+"mod.rs: GcBox")],
 ["drop counters and allocator log at quiescence"],
 "scheduling points before each atomic and lock operation")

prop("C08", "sync: operations always complete",
 "No use of the sync collector blocks forever or panics: creating, cloning, dropping, dereferencing and collecting finish under every interleaving, with any collect condition, while user locks inside collected values are held by this or another thread, and while other threads collect or exit. Collections never wait for user locks.",
 ["schedules", "programs", "configurations"],
 "all interleavings of multi-threaded programs with locks held across operations, nested drops and any collect condition",
 "Deadlocks need two threads in specific positions, or a drop that triggers a collection from inside another; the tests use default conditions and uncontended locks.",
 [S+"collect.rs", S+"mod.rs", "dumpster/src/impls.rs"],
 [("lock order and scope of the collecting lock", S+"collect.rs: collect_all, collect_all_await"), ("try-lock visits", "dumpster/src/impls.rs: Mutex, RwLock")],
 [("collecting_lock, contents", "global locks", S+"collect.rs: GarbageTruck")],
 ["exact deadlock detection in the scheduler (all threads blocked)"],
 "scheduling points before each atomic and lock operation")

prop("C09", "Destructors: dead pointers are recognisable, everything else keeps working",
 "While a value is being destroyed, try_deref and try_clone on a pointer it holds return None if the pointee has been or is being destroyed by the same collection, and the intact value otherwise; dereferencing or cloning a dead pointer panics rather than touching freed memory. A destructor may clone, drop, create, store and hand out pointers and may call collect(): live values it hands out stay valid, new garbage is reclaimed by a later collection, and dead pointers it hands out stay dead and harmless. Both collectors.",
 ["histories", "programs", "inputs"],
 "all graphs whose values run generated destructor scripts, destroyed by counting or by collection",
 "Tests contain three fixed destructors that look at one pointer; none moves pointers out, creates values or collects from a destructor.",
 [U+"mod.rs", U+"collect.rs", S+"mod.rs", S+"collect.rs"],
 [("pointers to dying values are nulled before destructors run", U+"collect.rs: DropAlloc; "+S+"collect.rs: PrepareForDestruction"), ("collecting flags", U+"collect.rs: COLLECTING; "+S+"collect.rs: CLEANING")],
 [("COLLECTING / CLEANING", "a collection is running on this thread", U+"collect.rs, "+S+"collect.rs")],
 ["results of try_deref/try_clone inside Drop", "drop counters", "allocator log"])

prop("C10", "derive(Collectable) visits every field exactly once for every type shape",
 "For every struct or enum definition whose fields are Collectable (named, tuple and unit shapes, any number of variants and fields, lifetime, type and const parameters, bounds and where clauses, definitions written by macros), the derive compiles and a visit reaches every pointer the value owns exactly once, in whatever variant it is. If some part cannot be visited right now, the visit reports the error instead of succeeding.",
 ["programs", "inputs"],
 "all type definitions up to a size bound, and values of them in every variant",
 "Tests derive five fixed types, none of them generic; a macro mistake for another shape is invisible.",
 ["dumpster_derive/src/lib.rs"],
 [("match/field code generation", "dumpster_derive/src/lib.rs: delegate_methods"), ("bounds for type parameters", "dumpster_derive/src/lib.rs: add_trait_bounds")],
 (), ["compiler result for generated programs", "recorded visits of generated values"])

prop("C11", "Library types visit every contained pointer exactly once",
 "Every library type for which Collectable is provided (cells, options, results, boxes, vectors, sequences, maps, sets, arrays, slices, tuples, locks and the rest) visits each pointer stored anywhere in it exactly once, for all contents and nestings. A value that is mutably borrowed or locked at the time yields an error rather than a successful visit, and one that is merely read-borrowed is visited normally.",
 ["inputs", "programs"],
 "all nestings of the supported types up to a depth bound with all generated contents and borrow states",
 "Only Vec, RefCell, OnceCell and Mutex are exercised by the tests, with one or two elements.",
 ["dumpster/src/impls.rs"],
 [("per-type accept implementations", "dumpster/src/impls.rs")],
 (), ["recorded visits, and reclamation of cycles through the container"])

prop("C12", "Counters passed to collect conditions are exact",
 "n_gcs_existing() reported to a collect condition equals the number of live Gc pointers in existence (on this thread for unsync, in the process for sync), excluding pointers already destroyed by counting or by a collection; when no pointers remain it is zero. n_gcs_dropped_since_last_collect() equals the number of pointers dropped since the last collection began, where pointers destroyed by that collection itself may or may not be counted.",
 ["histories", "inputs", "configurations"],
 "all operation histories with probes between operations",
 "No test reads these numbers.",
 [U+"collect.rs", U+"mod.rs", S+"collect.rs", S+"mod.rs"],
 [("count updates on create, clone, drop and destroy", U+"collect.rs: notify_created_gc, notify_dropped_gc; "+S+"collect.rs")],
 [("n_refs_living / n_gcs_existing", "existing pointers", U+"collect.rs, "+S+"collect.rs")],
 ["values seen by an installed collect condition"])

prop("C13", "Collect conditions alone decide when automatic collections happen",
 "When the installed condition returns true on a drop, a collection runs: unsync garbage of that thread that existed before the drop, and sync garbage that only threads which have since exited ever handled, is reclaimed before the drop returns. While it returns false, values that are still referenced from other garbage are not destroyed except by an explicit collect() or the exit of the thread. The condition is consulted regularly as pointers are dropped; set_collect_condition affects only the calling thread for unsync and every thread for sync, until set again.",
 ["histories", "configurations"],
 "all operation histories under scripted conditions, switched at any point, on several threads",
 "Tests set a condition at most once and never check that collections happen exactly when it asks.",
 [U+"collect.rs", U+"mod.rs", S+"collect.rs", S+"mod.rs"],
 [("condition evaluated on every drop", U+"collect.rs: notify_dropped_gc; "+S+"collect.rs: notify_dropped_gc")],
 [("collect_condition", "the installed condition", U+"collect.rs, "+S+"collect.rs")],
 ["log of condition calls and results against drop counters"])

prop("C14", "Default condition: garbage is reclaimed automatically at amortised constant cost",
 "With the default condition and no explicit collect(), garbage does not stay forever: as the program goes on dropping pointers to values which stay reachable, every earlier unreachable value is reclaimed after a number of drops proportional to the number of pointers in existence (for sync, plus a constant of some hundred thousand). The collector's total traversal work stays proportional to the number of pointer operations performed, for any heap shape and history.",
 ["histories", "inputs"],
 "all heap shapes and churn histories under the default condition",
 "One test checks that a single cycle eventually disappears; none measures work or retention after many collections.",
 [U+"mod.rs", U+"collect.rs", S+"mod.rs", S+"collect.rs"],
 [("dropped-versus-existing comparison", U+"mod.rs: default_collect_condition; "+S+"mod.rs: default_collect_condition"), ("delivery thresholds", S+"collect.rs: is_full")],
 [("n_gcs_existing, n_gcs_dropped", "inputs of the default condition", U+"collect.rs, "+S+"collect.rs")],
 ["drop counters after bounded churn", "count of visits made by the collector"])

prop("C15", "Thread lifecycle: exits reclaim, never destroy what others use, never abort",
 "When a thread exits, unsync values it can no longer reach are destroyed before it is joined, and sync garbage it left is reclaimed by a later collect() on any other thread; sync values still reachable from other threads survive. Pointers kept in thread-local variables, dropped in any order during thread exit, neither abort the process nor leak (sync: after a later collect()) nor double-free.",
 ["histories", "programs", "fault_sequences"],
 "all histories split over threads that start, exit and are restarted, with pointers in thread-locals initialised before or after first use of the collector",
 "No test lets a thread exit with garbage and checks it, and none keeps a Gc in a thread-local.",
 [U+"collect.rs", U+"mod.rs", S+"collect.rs", S+"mod.rs"],
 [("collection/delivery in the destructor of the thread's bookkeeping", U+"collect.rs: Drop for Dumpster; "+S+"collect.rs: Drop for Dumpster")],
 [("DUMPSTER", "per-thread bookkeeping", U+"collect.rs, "+S+"collect.rs")],
 ["drop counters after join", "process exit status"])

prop("C16", "Failures in user code are contained",
 "A panic inside a user destructor, a poisoned lock or a leaked borrow guard inside a collected value never corrupts the collector: the process does not abort or deadlock because of it, values still reachable stay intact, later collections still run and reclaim everything that does not involve the failed value. Contents of a poisoned lock are still treated as owned pointers.",
 ["fault_sequences", "histories"],
 "all histories with failures injected in destructors, while holding locks, or by forgetting guards, followed by further operations and collections",
 "No test panics in a destructor or poisons a lock that the collector then visits.",
 [U+"collect.rs", S+"collect.rs", "dumpster/src/impls.rs"],
 [("visit of poisoned locks", "dumpster/src/impls.rs: Mutex, RwLock"), ("reset of the collecting flag", U+"collect.rs, "+S+"collect.rs")],
 [("COLLECTING / CLEANING", "a collection is running on this thread", U+"collect.rs, "+S+"collect.rs")],
 ["process exit status", "drop counters after recovery"])

prop("C17", "Pointer API laws",
 "For both collectors: clones share one value (ptr_eq, as_ptr, Deref, AsRef and Borrow agree on one address that never changes over collections) and distinct allocations of non-zero size are never ptr_eq; equality is that of the contained values, Default (unsync) contains the default value, and pointer formatting shows that address; changes made through one pointer are visible through all; try_deref and try_clone succeed outside destructors.",
 ["inputs", "histories"],
 "all generated values, clone histories and interleaved collections for several value types",
 "Doc tests show one example each; equality of values that are not equal to themselves, stability over collections and pointer formatting are untested.",
 [U+"mod.rs", S+"mod.rs"],
 [("trait implementations on Gc", U+"mod.rs; "+S+"mod.rs")],
 (), ["return values of the API"])

prop("C18", "Thread-safety boundary in the type system",
 "unsync::Gc is never Send or Sync, sync::Gc<T> is Send and Sync and requires Collectable + Send + Sync contents, and a sync::Gc can never own an unsync::Gc; unsync values can own sync pointers. Programs that respect this compile and programs that violate it are rejected, for all ways of building the types involved.",
 ["programs"],
 "all generated type expressions over the library's types, placed in contexts that need or forbid thread safety",
 "Nothing in the test suite checks that a program is rejected.",
 [U+"mod.rs", S+"mod.rs", "dumpster/src/lib.rs", "dumpster/src/impls.rs"],
 [("auto traits and bounds of Gc", U+"mod.rs; "+S+"mod.rs")],
 (), ["compiler result for generated programs"])

prop("C19", "Unsized values (coerce-unsized) behave like sized ones",
 "With the coerce-unsized feature, a Gc coerced to a slice or to a trait object (of a trait with a hand-written Collectable) keeps identity, contents and ownership: safety and completeness of collection, exactly-once destruction, exact layout on release and the pointer API hold for graphs freely mixing sized, slice and trait-object pointers, including to the same allocation through different types. Both collectors.",
 ["histories", "inputs", "configurations"],
 "all histories over graphs mixing pointers to sized, slice and dyn values, built with the feature",
 "Two tests coerce one value each; fat pointers in the collector's erased bookkeeping and nulling of dead fat pointers are otherwise untested.",
 ["dumpster/src/ptr.rs", U+"mod.rs", S+"mod.rs", U+"collect.rs", S+"collect.rs"],
 [("erased fat pointers", "dumpster/src/ptr.rs: Erased, Nullable"), ("CoerceUnsized implementations", U+"mod.rs; "+S+"mod.rs")],
 (), ["drop counters, canaries, allocator log"])

prop("C20", "The two collectors compose",
 "In programs using both collectors, where unsync values own sync pointers, each collector keeps its guarantees: collecting either never destroys a value reachable through any mix of pointers, and after unsync::collect() followed by sync::collect() every unreachable value of either kind has been dropped. This holds for any interleaving of operations and collections of the two on a thread, including sync pointers released by an unsync collection.",
 ["histories", "inputs", "configurations"],
 "all operation histories over mixed graphs and collections of both kinds",
 "No test uses both collectors in one program.",
 [U+"collect.rs", S+"collect.rs", "dumpster/src/impls.rs"],
 [("visitors ignoring the other collector's pointers", U+"collect.rs: visit_sync; "+S+"collect.rs: visit_unsync")],
 (), ["drop counters, canaries, allocator log"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
