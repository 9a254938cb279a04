T_COMP = "model-based property testing of one component over generated operation sequences against a reference model, with shrinking"

prop("C08", "Device space that holds nothing any more is returned",
     "Whatever history a table goes through, everything it allocated on the device stays reachable or is returned: opening and closing without writing leaves the allocated space unchanged, and destroying the table leaves nothing allocated and returns nothing twice. Overwriting or deleting a bounded set of keys again and again does not make the space in use grow with the number of rounds.",
     ["histories", "configurations"],
     "all single-client histories with closes and opens, with and without the log, over all shapes of data and trees; and all steady overwrite/delete workloads over bounded key sets",
     "A leaked or doubly returned extent changes no answer; the unit tests look at the allocator only after a few fixed histories, skip the log on purpose, and never across sessions.",
     anchors(["src/trunk.c", "src/mini_allocator.c", "src/rc_allocator.c", "src/btree.c", "src/routing_filter.c", "src/shard_log.c"],
             [("reference counts of branch ranges", "src/mini_allocator.c: mini_keyed_dec_ref; src/trunk.c: trunk_zap_branch_range"),
              ("filter reference counts", "src/trunk.c: trunk_inc_filter, trunk_dec_filter"),
              ("release at close", "src/trunk.c: trunk_prepare_for_shutdown"),
              ("garbage collection of replaced branches", "src/trunk.c: trunk_garbage_collect_bundle")],
             ["extent reference counts"], ["allocator_in_use after open, close and trunk_destroy"]),
     note="quick: 500 histories with about 4000 reopens plus 120 overwrite workloads; thorough 8000 + 2000. Trunk node pages of replaced versions and the log of an open session are kept until the table is destroyed or closed (by design), which the bound allows for.")

prop("C13", "Each B-tree answers like a sorted map, in memory and packed",
     "A memtable tree after any sequence of inserts, and a branch packed from any iterator, hold exactly the last message per key: lookups (synchronous and asynchronous), iterators in both directions over any key range, and range counts agree with a sorted map. Packing fails only when the tuple limit is exceeded, and dropping any set of key ranges of a branch returns all its space.",
     ["inputs", "histories"],
     "all sequences of inserts with messages of any class and size up to the limits, all iteration ranges and start positions, all packs, with the cache evicted at any time",
     "btree_test and btree_stress_test insert uniformly sized keys in sequential or hashed order and check presence; splits of nodes with uneven tuples, defragmentation, suffix bounds, reverse steps and packs at their limits are hardly reached.",
     anchors(["src/btree.c", "src/btree.h", "src/btree_private.h", "src/mini_allocator.c"],
             [("insertion, splits, defragmentation", "src/btree.c: btree_insert, btree_split_child_leaf, btree_defragment_leaf"),
              ("lookup and async lookup", "src/btree.c: btree_lookup_with_ref, btree_lookup_async_with_ref"),
              ("iterators", "src/btree.c: btree_iterator_init, btree_iterator_next, btree_iterator_prev"),
              ("packing and ranges", "src/btree.c: btree_pack, btree_dec_ref_range, btree_count_in_range")],
             ["btree nodes, mini allocator metadata"], ["btree_lookup, btree_iterator, btree_count_in_range results; allocator_in_use"]),
     technique=T_COMP, note="quick: 1600 tree histories; thorough 40000.")

prop("C14", "Routing filters never miss a key they were given",
     "After any series of filter additions, looking up any key that was added with some value reports that value among the candidates, at every load, and values never added are reported only at the false-positive rate the remainder size allows. Asynchronous and synchronous filter lookups agree, statistics count what was added, and dropping filters returns their space.",
     ["inputs", "histories"],
     "all sets of fingerprints (clustered, colliding, uniform), all growth steps and values up to the limit, filters that share predecessors, with the cache evicted at any time",
     "A missed key in a filter makes stored data invisible, but only for particular fingerprints: filter_test adds uniform hashes to a few sizes.",
     anchors(["src/routing_filter.c", "src/routing_filter.h", "src/PackedArray.c"],
             [("adding fingerprints to an existing filter", "src/routing_filter.c: routing_filter_add"),
              ("decoding and lookup", "src/routing_filter.c: routing_filter_lookup, routing_get_bounds"),
              ("async lookup", "src/routing_filter.c: routing_filter_lookup_async")],
             ["index and data pages of the filter"], ["routing_filter_lookup(_async) found_values; num_fingerprints, num_unique; allocator_in_use"]),
     technique=T_COMP, note="quick: 900 filter histories; thorough 20000.")

prop("C15", "The merge iterator resolves any set of sorted inputs exactly",
     "Over any set of sorted inputs, ordered from oldest to newest, the merge iterator yields each key once with the message that folding its versions gives under the chosen mode (raw, intermediate, full), skips what a full merge deletes, and does so consistently for any sequence of forward and backward steps.",
     ["inputs", "histories"],
     "all sets of up to 12 sorted inputs with any duplication of keys between them, all message classes, all modes, and all next/prev sequences",
     "No unit test drives the merge iterator itself; in the whole store its inputs are correlated and the unusual combinations (update over delete over insert, duplicates at a turn) are rare.",
     anchors(["src/merge.c", "src/merge.h", "src/data_internal.h"],
             [("ordering and duplicate detection", "src/merge.c: bsearch_insert, merge_resolve_equal_keys"),
              ("direction change", "src/merge.c: merge_iterator_set_direction"),
              ("finalisation", "src/merge.c: merge_finalize_updates_and_discard_deletes")],
             ["ordered iterator array"], ["iterator_curr/next/prev/can_next/can_prev of the merge iterator"]),
     technique=T_COMP, note="quick: 60000 input sets; thorough 2 million.")

prop("C16", "Completed log pages are read back exactly, also after a cache loss",
     "Whatever threads append to the log and however its pages are evicted and reloaded in between, reading the log returns exactly the entries of its completed pages up to the first page that is still being filled: same key, message and order of generations, none missing, invented or torn. The same holds after the cache is lost, and dropping a log returns all its device space.",
     ["histories", "schedules", "crash_points"],
     "all sequences of appends by several threads with keys and messages of any legal size, evictions between any two of them, and a loss of the cache after any step",
     "log_test appends one fixed pattern with one size per run and crashes once at the end.",
     anchors(["src/shard_log.c", "src/shard_log.h", "src/log.h", "src/mini_allocator.c"],
             [("appending and page completion", "src/shard_log.c: shard_log_write"),
              ("validity and iteration", "src/shard_log.c: shard_log_valid, shard_log_iterator_init"),
              ("dropping", "src/shard_log.c: shard_log_zap")],
             ["per-thread open page and offset, page checksums"], ["shard_log_iterator entries; allocator_in_use"]),
     technique=T_COMP, note="quick: 1600 log histories; thorough 40000.")

prop("C17", "The extent allocator never hands out space that is in use",
     "Under any sequence of allocations, reference count changes and frees, by one or many threads, every extent handed out was free, aligned and inside the device, its reference count is what the history says, and allocation fails only when no extent is free. After unmount and mount the same extents are allocated with the same counts, and the table addresses in the super block are preserved.",
     ["histories", "schedules"],
     "all sequences of alloc, inc_ref, dec_ref, super-address operations, unmounts and mounts on devices of many sizes, up to full devices, and concurrent mixes of them",
     "Handing out an extent twice corrupts data only long afterwards; the repository has no direct test of the allocator.",
     anchors(["src/rc_allocator.c", "src/allocator.h", "src/allocator.c"],
             [("search with a moving hand", "src/rc_allocator.c: rc_allocator_alloc"),
              ("reference counting", "src/rc_allocator.c: rc_allocator_inc_ref, rc_allocator_dec_ref"),
              ("mount and unmount", "src/rc_allocator.c: rc_allocator_mount, rc_allocator_unmount")],
             ["reference count array, meta page"], ["allocator_alloc/inc_ref/dec_ref/get_refcount/in_use, super addresses"]),
     technique=T_COMP, note="quick: 1200 sequential and 1800 concurrent histories; thorough 30000 + 40000.")

prop("C18", "Cached pages are never stale, torn, shared with a writer or lost",
     "A reference to a page shows exactly its last completed write, whatever was evicted, prefetched, written back or reloaded in between, and stays valid and unmoved while it or a pin is held. A claim is exclusive and a locked page has no other readers. What a flush, page sync or extent sync has completed is on the device, dirty pages are not lost, and a discarded extent leaves no trace for its next owner.",
     ["histories", "schedules"],
     "all sequences of alloc, get, claim, lock, write, pin, prefetch, asynchronous get, sync, flush, evict, discard and cache loss on caches smaller than the data, and concurrent mixes of them by several threads over a device of varying speed",
     "cache_test runs a few fixed scans and a read/write mix without checking the bytes; a stale or torn page needs eviction, write-back and reload to meet at the right moment.",
     anchors(["src/clockcache.c", "src/cache.h", "src/platform_linux/laio.c"],
             [("read references, claims and write locks", "src/clockcache.c: clockcache_try_get_read, clockcache_try_get_claim, clockcache_get_write"),
              ("eviction", "src/clockcache.c: clockcache_try_evict, clockcache_get_free_page"),
              ("write-back", "src/clockcache.c: clockcache_batch_start_writeback, clockcache_page_sync, clockcache_extent_sync, clockcache_flush"),
              ("loading", "src/clockcache.c: clockcache_get_internal, clockcache_get_async, clockcache_prefetch"),
              ("discarding", "src/clockcache.c: clockcache_try_page_discard")],
             ["entry status flags, per-thread reference counts, address lookup table"], ["page_handle data, cache_count_dirty, device contents"]),
     technique=T_COMP, note="quick: 3000 sequential and 5200 threaded histories; thorough 60000 + 90000.")

T_CONC = "property-based testing of generated multi-threaded workloads against interval and register (linearizability) oracles, with replay and shrinking"
T_FAULT = "fault injection at generated points of model-based histories (crash images, failing I/O, damaged blocks) against a reference map, with shrinking"
CONC_HEALTHY = "Generated cases stay in trees of height one or less with at least fanout 4, where no recorded defect (DESIGN.md, domain) interferes. "

prop("C06", "Concurrent operations on a table behave as if executed one at a time",
     "When several registered threads insert, delete, update and look up keys at the same time, with or without background threads, every lookup returns a state the key could have had at some moment between its start and its end, consistently with what any thread has seen or completed before; no update is lost or applied twice. After the threads have finished, and after close and open, every key has the result of its completed operations.",
     ["schedules", "histories", "configurations"],
     "all schedules of up to 8 client threads and all mixes of their operations, with memtables rotating, flushes, compactions, splits and cache evictions going on in the callers or in background threads",
     "The multi-threaded tests write disjoint ranges and look afterwards, or never compare values; races between lookups and incorporation, flush, compaction and garbage collection show up only under particular interleavings.",
     anchors(["src/splinterdb.c", "src/trunk.c", "src/memtable.c", "src/btree.c", "src/clockcache.c", "src/task.c", "src/platform_linux/platform.c"],
             [("memtable insert and rotation", "src/memtable.c: memtable_maybe_rotate_and_begin_insert; src/trunk.c: trunk_insert"),
              ("lookup against a changing trunk", "src/trunk.c: trunk_lookup, trunk_memtable_incorporate"),
              ("concurrent B-tree insert", "src/btree.c: btree_insert"),
              ("flush, compaction and filter builds", "src/trunk.c: trunk_flush, trunk_compact_bundle, trunk_bundle_build_filters")],
             ["memtable generations, root address, node reference counts"], API),
     technique=T_CONC, note="quick: 1150 workloads, 250 of them with perturbed schedules; thorough 30000. " + CONC_HEALTHY + "Schedules are sampled, not enumerated.")

prop("C07", "Scans that run beside writers show every settled key exactly once, in order",
     "While other threads write, a scan or cursor still yields keys in strict order without repetition. It shows each key that nobody changes exactly as it is, skips none of them, and for a key being changed shows a state it had at some moment between the creation of the scan and the visit.",
     ["schedules", "histories"],
     "all schedules of scanning threads beside writing threads, over all start keys, lengths and directions, while memtables rotate and the trees under the scan are flushed, compacted, split and freed",
     "No unit test iterates while another thread writes.",
     anchors(["src/trunk.c", "src/splinterdb.c", "src/merge.c", "src/memtable.c"],
             [("references on memtables and branches under the scan", "src/trunk.c: trunk_range_iterator_init, trunk_range_iterator_deinit"),
              ("crossing to the next leaf", "src/trunk.c: trunk_range_iterator_next, trunk_range_iterator_prev"),
              ("memtable lookup lock", "src/memtable.c: memtable_begin_lookup")],
             ["range iterator branch array, memtable generations"], ["splinterdb_iterator_* results beside splinterdb_insert/delete"]),
     technique=T_CONC, note="quick: 1100 workloads, 300 of them with perturbed schedules; thorough 30000. " + CONC_HEALTHY)

prop("C19", "Asynchronous lookups give the same answers as synchronous ones",
     "An asynchronous lookup, driven until it finishes, gives the answer the reference map gives, for any number of lookups in flight, any completion order and latency of the device, and any state of the cache. It wakes its caller only while the caller waits, terminates, and leaves no lock or page reference behind that would block a later operation.",
     ["histories", "schedules", "configurations"],
     "all histories followed by batches of asynchronous lookups by up to five threads, with the cache evicted in between, requests delayed and completed out of order, and resources for I/O running out",
     "splinter_test runs asynchronous lookups in one mode over inserted-only data with a warm cache and a fast device, so most of the re-entrant states are never entered.",
     anchors(["src/trunk.c", "src/btree.c", "src/routing_filter.c", "src/clockcache.c", "src/platform_linux/laio.c"],
             [("lookup state machine", "src/trunk.c: trunk_lookup_async, trunk_async_callback"),
              ("branch and filter steps", "src/btree.c: btree_lookup_async_with_ref; src/routing_filter.c: routing_filter_lookup_async"),
              ("page reads in flight", "src/clockcache.c: clockcache_get_async, clockcache_async_done"),
              ("completion", "src/platform_linux/laio.c: laio_cleanup, laio_callback")],
             ["trunk_async_ctxt state, pages in flight"], ["trunk_lookup_async results and callbacks"]),
     note="quick: 900 histories with about 200 lookups each; thorough 20000. No writer runs during a batch: the asynchronous path does not hold the root lock, so it is only defined on a quiet trunk.")

prop("C20", "The shared-memory heap never gives out memory that is in use",
     "Whatever sequence of allocations, reallocations and frees threads issue, fragments are aligned, lie inside the segment, never overlap and keep their bytes until freed, also when another thread frees them. A request fails only when neither free space nor a fitting freed fragment is there, freed large fragments are used again, and the reported space in use matches what was handed out.",
     ["histories", "schedules"],
     "all sequences of requests of any size on segments of any size down to exhaustion, by one thread and by several that pass fragments to each other",
     "splinter_shmem_test checks a few hand-written sequences; overlap after recycling needs particular sizes, and races in the free list particular interleavings.",
     anchors(["src/platform_linux/shmem.c", "src/platform_linux/shmem.h", "src/platform_linux/platform_inline.h"],
             [("allocation from the segment", "src/platform_linux/shmem.c: platform_shm_alloc"),
              ("recycling of large fragments", "src/platform_linux/shmem.c: platform_shm_find_free, platform_shm_track_alloc, platform_shm_track_free"),
              ("reallocation", "src/platform_linux/shmem.c: platform_shm_realloc")],
             ["shmem_heap control block, large fragment table"], ["addresses returned, bytes in fragments, platform_shmbytes_used/free"]),
     technique=T_COMP, note="quick: 6000 sequential and 600 threaded histories; thorough 150000 + 13000.")

prop("C22", "Every enqueued task runs exactly once, and thread ids are unique",
     "Each task given to the task system runs exactly once, on a thread with an id of its own and its own scratch space, whether background threads or callers run it, and tasks enqueued by tasks are no exception. The system calls itself quiescent only when nothing enqueued before is unfinished, queues are served in order, and thread ids are never shared, are reused after deregistration, and run out only when all are taken.",
     ["schedules", "histories"],
     "all mixes of enqueues at head or tail by clients and by tasks, calls that perform tasks, waits for quiescence, registrations up to the limit and background thread counts from none to several",
     "task_system_test starts threads and counts them; it enqueues no competing work, so a lost, doubled or early-reported task goes unseen.",
     anchors(["src/task.c", "src/task.h"],
             [("queue operations", "src/task.c: task_enqueue, task_group_get_next_task, task_group_run_task"),
              ("performing and quiescence", "src/task.c: task_perform_one, task_perform_until_quiescent, task_system_is_quiescent"),
              ("thread ids and scratch", "src/task.c: task_register_thread, task_deregister_thread, task_allocate_threadid")],
             ["task queues, thread id bitmask, scratch array"], ["order and number of task callbacks, thread ids, task_system_is_quiescent"]),
     technique=T_COMP, note="quick: 7000 workloads; thorough 140000.")

prop("C23", "The distributed reader/writer locks exclude what they promise to exclude",
     "Under any mix of threads, at most one of them holds the claim of a lock, nobody else reads while it is locked for writing, data does not change under a reader or between a read lock and the claim taken under it, and no write is lost. Every waiting thread eventually gets its turn.",
     ["schedules"],
     "all schedules of up to 14 threads taking read locks, claims and write locks on one to 32 neighbouring locks and giving them back in every allowed way",
     "The locks have no direct test with a check on the data they protect.",
     anchors(["src/platform_linux/platform.c", "src/platform_linux/platform_types.h"],
             [("read lock against writers", "src/platform_linux/platform.c: platform_batch_rwlock_get, platform_batch_rwlock_unget"),
              ("claims", "src/platform_linux/platform.c: platform_batch_rwlock_try_claim, platform_batch_rwlock_claim_loop"),
              ("write lock", "src/platform_linux/platform.c: platform_batch_rwlock_lock, platform_batch_rwlock_unlock")],
             ["write_lock array, per-thread read counters"], ["bytes protected by the lock, section counters"]),
     technique=T_CONC, note="quick: 250 workloads with about a million sections; thorough 8000. Schedules are sampled on real hardware (x86).")

prop("C24", "Histograms count every datum once, in its own bucket",
     "A histogram after any sequence of inserts and merges holds for each bucket exactly the number of data not above its limit and above the one before, with exact count, minimum, maximum and sum. Creating and destroying histograms with any number of buckets does not touch memory of others.",
     ["inputs", "histories"],
     "all bucket limits of 2 to 61 buckets and all sequences of data and merges, including data at and next to the limits",
     "The tests print histograms and never look at the counts.",
     anchors(["src/platform_linux/platform_inline.h", "src/platform_linux/platform.c"],
             [("bucket search", "src/platform_linux/platform_inline.h: platform_histo_insert"),
              ("merging", "src/platform_linux/platform_inline.h: platform_histo_merge_in"),
              ("allocation", "src/platform_linux/platform.c: platform_histo_create")],
             ["bucket counts"], ["histogram count, num, min, max, total"]),
     technique=T_COMP, note="quick: 20000 histories; thorough 400000.")

prop("C26", "A file that was not closed cleanly is refused or complete, never wrong",
     "When the process dies at any write to the device, or the super block is damaged, a later open either refuses the file or yields a store that holds exactly the operations acknowledged up to that moment and goes on working. A clean close that has returned is always followed by a successful open.",
     ["crash_points", "histories"],
     "all histories with closes and opens, cut at every device write during create, operation, close and open with that write missing or torn, and all single damaged bytes, sectors or old versions of the super blocks",
     "The repository's tests never open a file that was not closed, and corrupt nothing.",
     anchors(["src/trunk.c", "src/rc_allocator.c", "src/splinterdb.c"],
             [("super block states", "src/trunk.c: trunk_set_super_block, trunk_get_super_block_if_valid, trunk_mount, trunk_unmount"),
              ("allocator meta page and counts", "src/rc_allocator.c: rc_allocator_mount, rc_allocator_unmount, rc_allocator_valid_config")],
             ["super block unmounted flag and checksum"], ["splinterdb_open result, then lookups, scans and further writes"]),
     technique=T_FAULT, note="quick: 300 histories with crash images and 300 with damage; thorough 8000 each. Only the blocks that carry a checksum are damaged; tree pages and reference counts have none.")

prop("C27", "A failing device never turns into a wrong answer",
     "When reads or writes of the device fail, come up short or are refused for a while, an operation reports the error, retries, or the store stops; it never returns wrong, old or incomplete data, neither then nor after closing and opening again. Failures that pass by themselves have no effect at all.",
     ["fault_sequences", "histories"],
     "all histories with one or more failing or short synchronous or asynchronous reads and writes and refused submissions at any point, also during create, open and close",
     "No test makes a read or write fail.",
     anchors(["src/platform_linux/laio.c", "src/clockcache.c", "src/trunk.c", "src/splinterdb.c"],
             [("completion status", "src/platform_linux/laio.c: laio_callback, laio_read, laio_write"),
              ("submission", "src/platform_linux/laio.c: laio_read_async, laio_write_async"),
              ("errors above the device", "src/clockcache.c: clockcache_write_callback, clockcache_read_async_callback")],
             ["status passed to I/O callbacks"], ["splinterdb_* return codes and answers under faults"]),
     technique=T_FAULT, note="quick: 1200 histories, one or more faults each; thorough 30000. On the current tree nearly every injected error stops the process by assertion, which the property allows.")
