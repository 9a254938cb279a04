"""Which generated-input suites decide which property."""
SLOWIO = ["-Wl,--wrap=io_submit,--wrap=io_getevents"]
ALLIO = ["-Wl,--wrap=io_submit,--wrap=io_getevents,--wrap=pread,--wrap=pwrite"]
HARNESSES = {
    "db_seq": dict(src=["db_seq.c"]),
    "db_space": dict(src=["db_space.c"]),
    "c_btree": dict(src=["c_btree.c"]),
    "c_filter": dict(src=["c_filter.c"]),
    "c_merge": dict(src=["c_merge.c"]),
    "c_log": dict(src=["c_log.c"]),
    "c_alloc": dict(src=["c_alloc.c"]),
    "c_cache": dict(src=["c_cache.c"], ldflags=SLOWIO),
    "c_plat": dict(src=["c_plat.c"]),
    "db_conc": dict(src=["db_conc.c"]),
    "db_async": dict(src=["db_async.c"], ldflags=SLOWIO),
    # the same harnesses with perturbed schedules
    "c_alloc_noise": dict(src=["noise.c", "c_alloc.c"], variant="noise"),
    "c_cache_noise": dict(src=["noise.c", "c_cache.c"], variant="noise", ldflags=SLOWIO),
    "c_plat_noise": dict(src=["noise.c", "c_plat.c"], variant="noise"),
    "db_conc_noise": dict(src=["noise.c", "db_conc.c"], variant="noise"),
    "db_async_noise": dict(src=["noise.c", "db_async.c"], variant="noise", ldflags=SLOWIO),
    "db_fault": dict(src=["db_fault.c"], ldflags=ALLIO),
}


def S(harness, suite, quick, thorough, what="", **kw):
    return dict(harness=harness, suite=suite, quick=quick, thorough=thorough, what=what, **kw)


PROPS = {
    "C01": dict(level="exploration", suites=[S("db_seq", "points", 900, 20000, "whole-store histories vs reference map")]),
    "C02": dict(level="exploration", suites=[S("db_seq", "scans", 900, 20000, "forward scans vs reference map")]),
    "C03": dict(level="exploration", suites=[S("db_seq", "cursors", 450, 10000, "bidirectional cursor walks vs reference list")]),
    "C04": dict(level="exploration", suites=[S("db_seq", "merge", 900, 20000, "affine merge operators vs reference fold")]),
    "C05": dict(level="exploration", suites=[S("db_seq", "reopen", 360, 8000, "histories with clean close/open")]),
    "C06": dict(level="exploration", suites=[S("db_conc", "conc", 900, 20000, "threads with lookups, writes and scans vs interval and register oracles", workers=24),
                                            S("db_conc_noise", "conc", 250, 10000, "the same with perturbed schedules", workers=16)]),
    "C07": dict(level="exploration", suites=[S("db_conc", "conc_scan", 800, 20000, "scans and cursors while other threads write", workers=24),
                                            S("db_conc_noise", "conc_scan", 300, 10000, "the same with perturbed schedules", workers=16)]),
    "C08": dict(level="exploration", suites=[S("db_space", "space", 400, 8000, "allocated space after idle sessions and after destroying the table"),
                                            S("db_space", "bounded", 120, 2000, "steady overwrite workloads")]),
    "C09": dict(level="exploration", suites=[S("db_seq", "keys", 900, 20000, "comparators and key shapes")]),
    "C10": dict(level="exploration", suites=[S("db_seq", "config", 900, 20000, "random legal configurations")]),
    "C11": dict(level="exploration", suites=[S("db_seq", "invalid", 1500, 20000, "oversized keys and values")]),
    "C12": dict(level="exploration", suites=[S("db_seq", "bufs", 1500, 20000, "lookup result buffers")]),
    "C13": dict(level="exploration", suites=[S("c_btree", "btree", 1600, 40000, "memtable and branch trees vs sorted map")]),
    "C14": dict(level="exploration", suites=[S("c_filter", "filter", 900, 20000, "routing filters vs sets of fingerprints")]),
    "C15": dict(level="exploration", suites=[S("c_merge", "mergeitor", 60000, 2000000, "merge iterator vs fold over sorted inputs")]),
    "C16": dict(level="exploration", suites=[S("c_log", "log", 1600, 40000, "log appends, evictions, cache loss vs list of entries")]),
    "C17": dict(level="exploration", suites=[S("c_alloc", "alloc", 1200, 30000, "allocator histories vs reference counts"),
                                            S("c_alloc", "alloc_mt", 800, 20000, "concurrent allocator use", workers=24),
                                            S("c_alloc_noise", "alloc_mt", 1000, 20000, "the same with perturbed schedules", workers=16)]),
    "C18": dict(level="exploration", suites=[S("c_cache", "cache", 3000, 60000, "cache operations vs page versions, in the cache and on the device"),
                                            S("c_cache", "cache_mt", 4000, 60000, "threads over shared and private pages", workers=24),
                                            S("c_cache_noise", "cache_mt", 1200, 30000, "the same with perturbed schedules", workers=16)]),
    "C19": dict(level="exploration", suites=[S("db_async", "async", 700, 15000, "asynchronous lookups vs reference map over a slow device", workers=24),
                                            S("db_async_noise", "async", 200, 5000, "the same with perturbed schedules", workers=16)]),
    "C20": dict(level="exploration", suites=[S("c_plat", "shm", 6000, 150000, "shared-memory heap vs list of live fragments"),
                                            S("c_plat", "shm_mt", 500, 10000, "threads passing fragments around", workers=24),
                                            S("c_plat_noise", "shm_mt", 100, 3000, "the same with perturbed schedules", workers=16)]),
    "C22": dict(level="exploration", suites=[S("c_plat", "task", 5000, 100000, "task queues, background threads and thread ids vs bookkeeping of every task", workers=24),
                                            S("c_plat_noise", "task", 2000, 40000, "the same with perturbed schedules", workers=16)]),
    "C23": dict(level="exploration", suites=[S("c_plat", "rwlock", 150, 5000, "reader/writer sections under threads", workers=24),
                                            S("c_plat_noise", "rwlock", 100, 3000, "the same with perturbed schedules", workers=16)]),
    "C24": dict(level="exploration", suites=[S("c_plat", "histo", 20000, 400000, "histograms vs direct counting")]),
    "C26": dict(level="exploration", suites=[S("db_fault", "crash", 300, 8000, "opening the device image of a crash at any write"),
                                            S("db_fault", "damage", 300, 8000, "opening a file with damaged super blocks")]),
    "C27": dict(level="exploration", suites=[S("db_fault", "ioerr", 1200, 30000, "failing and short reads and writes")]),
}
