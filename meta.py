#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 meta.py"""
import json
from suites import PROPS

T_MODEL = "model-based property testing of generated histories against a reference map, with shrinking"


def anchors(files, mech, state, observe, hook=None):
    return dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=x, meaning=x, where=files[0]) for x in state],
                observe_at=observe, hook_needed=hook)


P = []


def prop(id, title, statement, over, qtext, why, anch, technique=T_MODEL, note=""):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why, anchors=anch, _t=technique, _n=note))


DB = ["src/splinterdb.c", "src/trunk.c", "src/memtable.c", "src/btree.c", "src/routing_filter.c", "src/merge.c"]
API = ["splinterdb_insert/delete/update/lookup return values and looked-up bytes"]

prop("C01", "Point lookups return exactly the last write of each key",
     "After any sequence of inserts, deletes and updates issued by one client, a lookup of any key returns the value determined by the last operations on that key, byte for byte, or reports it absent if it was never written or was deleted last. No operation of such a legal sequence aborts, hangs or reports an error.",
     ["histories", "inputs", "configurations"],
     "all single-client histories of inserts, deletes, updates and lookups, over all key populations, value sizes and write volumes, so that keys live in any mix of memtables, tree levels, branches and filters",
     "The unit tests insert a few fixed patterns with the default (huge) memtable, so they rarely reach incorporation, flush, compaction, leaf and root splits, and almost never overwrite or delete data that has already moved down.",
     anchors(DB, [("newest-first lookup through memtables and trunk", "src/trunk.c: trunk_lookup"),
                  ("memtable incorporation, flush, compaction", "src/trunk.c: trunk_memtable_incorporate_and_flush, trunk_flush, trunk_compact_bundle"),
                  ("leaf and index splits", "src/trunk.c: trunk_split_leaf, trunk_split_index")],
             ["memtables, trunk nodes, branches, routing filters"], API),
     note="quick: 900 histories (about 200 with trees of height 2 or more), thorough 20000; bounded at 10 MiB (quick) of writes per history.")

prop("C02", "Forward range scans return exactly the live keys in order",
     "A scan started at any key, or without one, yields exactly the keys that are live at that moment and not below the start key, each once, in comparator order and with its current value, and then ends. Deleted keys never show up, whatever part of the store they live in.",
     ["histories", "inputs", "configurations"],
     "all single-client histories followed or interrupted by scans from any start key, present or absent, including prefixes, extensions and neighbours of stored keys",
     "Existing tests scan small sets of sequential integers, mostly still in memory, and rarely cross leaf boundaries, deleted regions or several levels at once.",
     anchors(["src/trunk.c", "src/merge.c", "src/btree.c", "src/splinterdb.c"],
             [("range iterator over memtables and branches", "src/trunk.c: trunk_range_iterator_init, trunk_range_iterator_next"),
              ("k-way merge with resolution of duplicates", "src/merge.c: merge_iterator_create, advance_and_resolve"),
              ("branch iteration", "src/btree.c: btree_iterator_init, btree_iterator_next")],
             ["range iterator, merge iterator"], ["splinterdb_iterator_* results"]),
     note="quick: 900 histories with about 15000 scans; thorough 20000 histories.")

prop("C03", "Cursors move consistently forward and backward",
     "A cursor on an unchanged store behaves like a position in the sorted list of live keys: from any start position and after any sequence of forward and backward steps it shows the key and value at that position, and it reports correctly whether it is on a key and whether it can move either way. Stepping off one end and back again returns to the end key.",
     ["histories", "inputs"],
     "all histories, all start keys, and all sequences of next and prev, with short and long runs, across every internal boundary",
     "Tests step backward only over a handful of keys; the direction changes at leaf, node and memtable boundaries and near deleted keys are not reached.",
     anchors(["src/trunk.c", "src/merge.c", "src/btree.c", "src/splinterdb.c"],
             [("direction change in the merge iterator", "src/merge.c: merge_iterator_set_direction"),
              ("prev and leaf boundaries", "src/trunk.c: trunk_range_iterator_prev; src/btree.c: btree_iterator_prev")],
             ["merge iterator direction, btree iterator index bounds"], ["splinterdb_iterator_{next,prev,valid,can_next,can_prev,get_current}"]),
     note="quick: 450 histories with about 25 million cursor moves; thorough 10000 histories.")

prop("C04", "Updates fold exactly once, in order, through the user's merge",
     "With user-supplied merge callbacks, the visible value of a key is the fold of its update messages, oldest first, over the last inserted value (or over nothing when the key is absent), no matter how often and in which grouping the store applied partial merges. The callbacks only ever see messages that were written for that key, with the newer one marked as an update.",
     ["histories", "inputs", "configurations"],
     "all histories mixing inserts, deletes and updates with a non-commutative merge operator whose value sizes change from step to step and which can itself produce deletions",
     "The tests use a commutative counter-like operator on few keys, so lost, duplicated or reordered updates, and partial merges at different tree levels, go unnoticed.",
     anchors(["src/data_internal.c", "src/data_internal.h", "src/merge.c", "src/trunk.c", "src/btree.c", "src/memtable.c"],
             [("merge of updates on insert into a memtable", "src/btree.c: btree_insert"),
              ("merge during lookups", "src/trunk.c: trunk_merge_lookup"),
              ("merge during compaction and scans", "src/merge.c: merge_resolve_equal_keys, merge_finalize_updates_and_discard_deletes")],
             ["merge accumulator"], ["values from lookups and scans; arguments of the callbacks"]),
     note="quick: 900 histories with millions of callbacks, each argument checked byte for byte; thorough 20000.")

prop("C05", "A clean close and reopen preserves everything",
     "After a clean close, opening the store again succeeds and every lookup and scan returns what it would have returned before the close; the reopened store accepts further operations and closes, any number of times. This holds wherever the close falls in the history and also when cache size changes between sessions.",
     ["histories", "configurations"],
     "all histories with closes and opens at arbitrary points, including immediately after creation, with unflushed memtables, pending compactions and repeated closes",
     "Tests reopen once or twice after a few inserts that fit in memory.",
     anchors(["src/splinterdb.c", "src/trunk.c", "src/rc_allocator.c", "src/clockcache.c", "src/memtable.c"],
             [("shutdown: flush memtable, drain tasks, write super block", "src/trunk.c: trunk_prepare_for_shutdown, trunk_unmount, trunk_set_super_block"),
              ("mount", "src/trunk.c: trunk_mount; src/rc_allocator.c: rc_allocator_mount")],
             ["super block, allocator reference counts"], API + ["splinterdb_open status"]),
     note="quick: 360 histories with about 2000 reopens; thorough 8000 histories.")

prop("C09", "Any key shape and any total order is honoured",
     "For every total order supplied as a key comparator and every key length from one byte up to the configured maximum, including keys with embedded zero bytes, long shared prefixes, and prefixes of one another, the store keeps exactly the keys written, distinguishes distinct keys and orders scans by the comparator.",
     ["inputs", "configurations", "histories"],
     "all comparators (lexicographic, reversed, length-first, little-endian numeric) and key populations",
     "Tests use fixed-width integer-like keys and the default comparator, with one small custom-comparator case.",
     anchors(["src/data_internal.h", "src/data_internal.c", "src/btree.c", "src/trunk.c", "src/default_data_config.c"],
             [("key comparison incl. infinities", "src/data_internal.h: data_key_compare"),
              ("pivot selection and search", "src/btree.c: btree_find_pivot, btree_find_tuple; src/trunk.c: trunk_find_pivot")],
             ["pivot keys"], API + ["iterator order"]),
     note="quick: 900 histories over 7 key populations and 4 orders; thorough 20000.")

prop("C10", "Behaviour does not depend on the configuration",
     "For every configuration that creating a store accepts, any legal history gives the same results: tree shape limits, memtable and cache sizes, filter parameters, logging, statistics, background threads, queue limits and shared memory change performance only.",
     ["configurations", "histories"],
     "random legal configurations, each driven by a random history and compared with the same reference",
     "Tests run two or three configurations; combinations with small memtables, small fanouts or unusual filter parameters are not run.",
     anchors(["src/splinterdb.c", "src/trunk.c", "src/routing_filter.c", "src/task.c", "src/shard_log.c", "src/platform_linux/shmem.c"],
             [("configuration defaults and validation", "src/splinterdb.c: splinterdb_config_set_defaults, splinterdb_init_config; src/trunk.c: trunk_config_init")],
             ["derived limits"], API + ["splinterdb_create status"]),
     note="two known findings are replayed and reported; configurations in their neighbourhood are discarded by a stated rule. Cases with background threads keep to height-1 trees.")

prop("C11", "Invalid requests are refused and change nothing",
     "An insert, update or delete whose key is longer than the configured maximum, or whose value is larger than the store can hold, returns an invalid-argument error. It leaves the store exactly as it was, and later legal requests work normally.",
     ["inputs", "histories"],
     "all sizes beyond the limits, at any point of any history",
     "Tests try one oversized key on an empty store.",
     anchors(["src/splinterdb.c", "src/trunk.c", "src/btree.c", "src/memtable.c"],
             [("limit checks", "src/splinterdb.c: validate_key_length; src/trunk.c: trunk_insert; src/btree.c: btree_insert")],
             ["memtable contents"], API),
     note="quick: 1500 histories; thorough 20000.")

prop("C12", "Lookup results respect the caller's buffer",
     "A lookup result object initialised with a caller buffer of any size, including none, and reused for any series of lookups, always yields exactly the value of the latest lookup or reports that there is none. The store never reads or writes outside the caller's buffer.",
     ["inputs", "histories"],
     "all buffer sizes, all series of lookups of present and absent keys through one result object",
     "Tests use two buffer sizes and do not check the surroundings of the buffer.",
     anchors(["src/splinterdb.c", "src/data_internal.c", "src/util.c"],
             [("result buffer handling", "src/splinterdb.c: splinterdb_lookup_result_init, splinterdb_lookup; src/util.c: writable_buffer_resize")],
             ["merge accumulator, writable buffer"], ["splinterdb_lookup_result_value, guard bytes around the buffer"]),
     note="quick: 1500 histories; thorough 20000.")

exec(open("meta_more.py").read()) if __import__("os").path.exists("meta_more.py") else None

NOT_APPLICABLE = globals().get("NOT_APPLICABLE", [])


def main():
    P.sort(key=lambda p: p["id"])
    with open("properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    checks = []
    for p in P:
        if p["id"] not in PROPS:
            continue
        checks.append(dict(property=p["id"], quick_cmd="python3 run.py %s quick" % p["id"],
                           thorough_cmd="python3 run.py %s thorough" % p["id"],
                           technique=p["_t"], level=PROPS[p["id"]]["level"], level_note=p["_n"]))
    m = dict(version=1, setup_cmd="python3 run.py setup", checks=checks, not_applicable=NOT_APPLICABLE,
             notes="Every check builds /repo's working tree itself. See DESIGN.md. Replay a saved case with: python3 run.py replay <harness> <file>.")
    with open("MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    claimed = {c["property"] for c in checks}
    na = {x["property"] for x in NOT_APPLICABLE}
    for p in P:
        assert p["id"] in claimed or p["id"] in na, p["id"]
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, p["id"]


main()
