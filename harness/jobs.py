"""Which monitored workloads decide which property. n = (quick, thorough) case counts."""
WRAPS = {
    "malloc": ("wrap_malloc.c", ["malloc", "calloc", "realloc", "free", "strdup", "strndup", "asprintf", "vasprintf", "reallocarray"]),
    "sched": ("wrap_pthread.c", ["pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_cond_signal",
                                  "pthread_cond_broadcast", "pthread_cond_wait", "sem_wait", "sem_post", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock"]),
    "memcpy": ("noise_memcpy.c", []),
    "calls": ("noise_calls.c", []),
    "sleep": ("wrap_sleep.c", ["sleep", "usleep"]),
    "clock": ("wrap_clock.c", ["gettimeofday", "time", "clock_gettime", "timespec_get"]),
    "locks": ("wrap_locks.c", ["pthread_mutex_init", "pthread_mutex_destroy", "pthread_cond_init", "pthread_cond_destroy", "pthread_rwlock_init", "pthread_rwlock_destroy", "sem_init", "sem_destroy", "pthread_create", "pthread_join", "pthread_detach"]),
    "create": ("wrap_create.c", ["pthread_create", "sem_init", "pthread_rwlock_init", "pthread_mutex_init"]),
    "io": ("wrap_io.c", ["read", "write", "fread", "mkdir", "fopen"]),
}
NOISE = ["-Dmemcpy=vp_memcpy"]
CALLS = ["-finstrument-functions"]
PROPS = {}
# counters of injected faults: they need the library to make the calls that are interposed
HOOKED = {"partial_transfers", "failures_reported", "read_failures", "read_errors", "mkdir_failures", "collisions", "spurious_wakeups", "sem_interrupted",
          "threads_refused", "locks_refused", "refused_operations", "succeeded_later", "destroyed_without_memory", "positions", "clock_back", "clock_at_zero",
          "locks", "saves_failed"}
PROPS["C01"] = dict(
    rule="a case is one random operation history on one ring (capacity, creation mode, sizes drawn from the seed), or one exhaustive sweep of (offset, level, length) of a small ring, or one history across the 32-bit position overflow; non-trivial: the storage wrapped around; distinct by the sequence of (operation, level)",
    require={"cases_wrapped": 500, "cases_filled": 500, "overflow_crossed": 2, "exhaustive_points": 2000},
    jobs=[
        dict(src="c01_ring.c", variant="asan", mode="fifo", n=(20000, 1000000)),
        dict(src="c01_ring.c", variant="dbg", mode="fifo", n=(10000, 400000)),
        dict(src="c01_ring.c", variant="asan", mode="exhaust", n=(24, 60)),
        dict(src="c01_ring.c", variant="plain", mode="overflow", n=(6, 60)),
        dict(src="c01_ring.c", variant="plain", mode="scale", n=(2, 30), slots=2, par=1),
    ])
PROPS["C02"] = dict(
    rule="a case is one concurrent run: one producer and one consumer thread over one ring or queue (kind, capacity, sizes, pacing and injected copy delays from the seed); non-trivial: the producer met a full and the consumer an empty structure; distinct by the two threads' accepted/blocked patterns; cross: the same with the 32-bit positions passing 2^32",
    require={"positions_advanced": 9, "met_full": 1000, "met_empty": 1000, "RingBuffer_bytes": 10000, "ring_buf_bytes": 10000, "variable_messages": 1000, "fixed_messages": 1000, "bulk_runs": 200},
    jobs=[
        dict(src="c02_spsc.c", variant="plain", mode="cross", n=(9, 200), slots=2, par=3),
        dict(src="c02_spsc.c", variant="plain", mode="spsc", n=(800, 20000), slots=2, par=4),
        dict(src="c02_spsc.c", variant="dbg", mode="spsc", defs=NOISE, wrap=["memcpy"], n=(1200, 24000), slots=1, par=8),
        dict(src="c02_spsc.c", variant="asan", mode="spsc", defs=NOISE, wrap=["memcpy"], n=(300, 6000), slots=2, par=4),
        dict(src="c02_spsc.c", variant="dbg", mode="bulk", defs=NOISE, wrap=["memcpy"], n=(300, 9000), slots=1, par=8),
        dict(src="c02_spsc.c", variant="tsan", mode="bulk", wrap=["sched"], n=(60, 2000), slots=2, par=4),
        dict(src="c25_race.c", variant="tsan", mode="rings", wrap=["sched"], n=(120, 6000), slots=2, par=4),
    ])
PROPS["C03"] = dict(
    rule="a case is one random history of push/pop/next-size/clear/space queries on one queue; non-trivial: more bytes than the capacity went through and a push met a full queue; distinct by the sequence of (operation, bytes used)",
    require={"cases_wrapped": 500, "pushes_full": 500, "pops_small": 500, "pop_empty": 100, "clears": 50, "fixed_full": 500, "scale_queues": 20, "large_pushed": 50, "fixed_many": 5, "fixed_large": 5},
    jobs=[
        dict(src="c03_msgq.c", variant="asan", mode="variable", n=(16000, 800000)),
        dict(src="c03_msgq.c", variant="asan", mode="fixed", n=(12000, 600000)),
        dict(src="c03_msgq.c", variant="plain", mode="scale", n=(24, 800)),
        dict(src="c03_msgq.c", variant="dbg", mode="variable", n=(8000, 300000)),
    ])
PROPS["C05"] = dict(
    rule="a case is one random write/read/available history (positions drawn inside, before, after and whole laps before the window), one history across the 2^32 stream position, or one concurrent run of writers and readers under lock callbacks; non-trivial: data was overwritten and an older lap was asked for; distinct by the sequence of (operation, window size)",
    require={"cases_covered": 1000, "covered_older_lap": 500, "covered_or_consumed": 500, "reads_ok": 2000, "overflow_crossed": 2, "concurrent_ops": 20000, "scale_reads": 20},
    jobs=[
        dict(src="c05_cover.c", variant="asan", mode="history", n=(20000, 1000000)),
        dict(src="c05_cover.c", variant="dbg", mode="history", n=(8000, 200000)),
        dict(src="c05_cover.c", variant="plain", mode="overflow", n=(4, 60)),
        dict(src="c05_cover.c", variant="plain", mode="scale", n=(8, 300)),
        dict(src="c05_cover.c", variant="plain", mode="concurrent", n=(300, 10000), slots=3, par=4),
        dict(src="c05_cover.c", variant="asan", mode="concurrent", defs=NOISE, wrap=["memcpy"], n=(120, 5000), slots=3, par=4),
    ])
PROPS["C04"] = dict(
    rule="a case is one life of a handler: 1-3 serialised producers (and the callback itself) push numbered messages, the callback checks identity, order, thread and content, and the life ends by drain, early destroy or a stopping callback; clears are mixed in or applied at a gate; non-trivial: a push met a full queue and messages were dispatched; distinct by (accepted, refused, dispatched, ending); waits of the workers also end early, as POSIX allows",
    require={"spurious_wakeups": 3000, "backlogs": 12, "backlogs_of_megabytes": 6, "long_messages": 1000000, "cleared_before_ready": 20, "ended_drained": 20, "ended_stopped": 20, "ended_destroyed": 20, "full": 200, "dispatched": 20000, "cases_with_large_message": 5, "messages_above_64K": 50, "messages_above_1G": 1, "clears": 50, "cleared_messages": 20, "gated_clears": 50, "undispatched_at_destroy": 20, "lives": 100},
    jobs=[
        dict(src="c04_handler.c", variant="asan", mode="variable", wrap=["sched"], n=(240, 12000), slots=2),
        dict(src="c04_handler.c", variant="asan", mode="fixed", wrap=["sched"], n=(240, 12000), slots=2),
        dict(src="c04_handler.c", variant="plain", mode="variable", n=(240, 12000), slots=2),
        dict(src="c04_handler.c", variant="plain", mode="fixed", n=(240, 12000), slots=2),
        dict(src="c04_handler.c", variant="dbg", mode="variable", defs=NOISE, wrap=["memcpy"], n=(100, 4000), slots=2),
        dict(src="c04_handler.c", variant="plain", mode="variable", defs=CALLS, wrap=["sched", "calls"], n=(240, 12000), slots=2), dict(src="c04_handler.c", variant="plain", mode="fixed", defs=CALLS, wrap=["sched", "calls"], n=(240, 12000), slots=2),
        dict(src="c04_handler.c", variant="asan", mode="sizes", n=(120, 6000)), dict(src="c04_handler.c", variant="plain", mode="giant", n=(1, 3)), dict(src="c04_handler.c", variant="plain", mode="backlog", n=(8, 200)), dict(src="c04_handler.c", variant="plain", mode="long", n=(12, 400)),
        dict(src="c04_handler.c", variant="asan", mode="clear_gate", wrap=["sched"], n=(200, 8000)),
        dict(src="c04_handler.c", variant="asan", mode="life", wrap=["sched"], n=(600, 20000)),
        dict(src="c04_handler.c", variant="asan", mode="refuse", n=(8, 8), par=1),
    ])
PROPS["C06"] = dict(
    rule="a case is one pool's life: 0-8 threads, 1-4 submitters, tasks submitting tasks, 0-4 waiters checking every task submitted before their wait (exec); destruction at a random moment (destroy); pause and resume with tasks arriving, following each other at once, next to a second pool, or ended by destroy (pause); non-trivial: more tasks than threads, or a pause; distinct by (threads, tasks, how many had run); waits of the pool also end without a signal, as POSIX allows; often: one pool through 5000 waits and a thousand pauses",
    require={"waits_of_one_pool": 18000, "pauses_of_one_pool": 1500, "spurious_wakeups": 800, "pools_above_64": 5, "pools_above_256": 2, "tasks_executed": 20000, "waits_returned": 200, "gated_waiters": 200, "nested_tasks": 500, "saturated": 50, "destroyed_with_queued": 50, "paused_windows": 60, "prompt_resumes": 100, "other_pool": 8, "destroyed_paused": 8, "outlasted": 20},
    jobs=[
        dict(src="c06_thpool.c", variant="plain", mode="often", wrap=["sleep"], n=(4, 120), slots=2),
        dict(src="c06_thpool.c", variant="plain", mode="exec", n=(240, 12000), slots=2),
        dict(src="c06_thpool.c", variant="asan", mode="exec", wrap=["sched"], n=(160, 8000), slots=2),
        dict(src="c06_thpool.c", variant="plain", mode="destroy", wrap=["malloc"], n=(400, 16000), slots=2),
        dict(src="c06_thpool.c", variant="asan", mode="destroy", wrap=["sched"], n=(300, 12000), slots=2),
        dict(src="c06_thpool.c", variant="plain", mode="pause", wrap=["sleep"], n=(120, 4000), slots=1),
        dict(src="c06_thpool.c", variant="asan", mode="pause", wrap=["sleep", "sched"], n=(64, 3000), slots=1),
        dict(src="c06_thpool.c", variant="plain", mode="exec", defs=CALLS, wrap=["sched", "calls"], n=(200, 10000), slots=2),
        dict(src="c06_thpool.c", variant="plain", mode="wide", wrap=["sleep"], n=(40, 800), slots=2, par=2),
        dict(src="c06_thpool.c", variant="plain", mode="scale", n=(4, 200), slots=2, par=2),
        dict(src="c06_thpool.c", variant="plain", mode="pause", n=(16, 300), slots=1),
        dict(src="c06_thpool.c", variant="asan", mode="patience", wrap=["sleep", "sched"], n=(24, 800), slots=1), dict(src="c06_thpool.c", variant="plain", mode="patience", n=(4, 100), slots=1),
    ])
PROPS["C07"] = dict(
    rule="a case is one random history of append, prepend, insert-after, remove (first, last, absent, duplicated elements), clear and traversals that stop, remove the visited element, prepend or append; after every call length, ends, membership, whole iteration and destructor counts are compared with a plain sequence; non-trivial: at least three elements were held; distinct by the sequence of (operation, length); long: single histories of tens of thousands of operations on one object",
    require={"long_lives": 2, "operations": 100000, "foreach_stopped": 1000, "foreach_removed_visited": 1000, "remove_absent": 1000, "clears": 500, "long_lists": 5, "freed_at_end": 1000},
    jobs=[dict(src="c07_list.c", variant="plain", mode="long", n=(2, 60)), dict(src="c07_list.c", variant="asan", mode="history", n=(8000, 400000)), dict(src="c07_list.c", variant="dbg", mode="history", n=(3000, 100000)), dict(src="c07_list.c", variant="plain", mode="scale", n=(4, 200))])
PROPS["C08"] = dict(
    rule="a case is one random history of put (new, replacing, same value, NULL value), get, remove, iterate (full, stopped, removing), clear and size on one map with one of eight hash functions (constant to well mixed), any initial size, with or without destructors and lock callbacks; or one concurrent run of 2-6 threads; non-trivial: entries were replaced and removed; distinct by the sequence of (operation, entries); long: single histories of tens of thousands of operations on one object",
    require={"long_lives": 4, "operations": 100000, "iterations_stopped": 1000, "records_removed": 2000, "removed_while_iterating": 500, "put_same_value": 500, "clears": 200, "grown": 500, "large_maps": 20, "operations_locked": 50000, "get_absent": 5000, "concurrent_puts": 10000},
    jobs=[dict(src="c08_map.c", variant="plain", mode="long", n=(4, 120)), dict(src="c08_map.c", variant="asan", mode="history", n=(4000, 200000)), dict(src="c08_map.c", variant="dbg", mode="history", n=(2000, 60000)),
          dict(src="c08_map.c", variant="asan", mode="records", n=(1500, 60000)),
          dict(src="c08_map.c", variant="plain", mode="scale", n=(6, 300)),
          dict(src="c08_map.c", variant="asan", mode="concurrent", wrap=["sched"], n=(60, 4000), slots=3, par=4), dict(src="c08_map.c", variant="plain", mode="concurrent", n=(200, 10000), slots=3, par=4), dict(src="c08_map.c", variant="plain", mode="concurrent", defs=CALLS, wrap=["sched", "calls"], n=(100, 5000), slots=3, par=4)])
PROPS["C09"] = dict(
    rule="a case is one growing array (element size 1-70, initial capacity 0-600, up to 6000 appends by pointer or value, in-place sets) or one random history on a string builder (text lengths landing on the edge of the buffer, bounded appends of unterminated text, formatted appends, an unformattable one, clears); non-trivial: the storage was reallocated; distinct by parameters and probe sequence / (operation, length) sequence; long: single histories of tens of thousands of operations on one object",
    require={"long_lives": 3, "array_appends": 100000, "array_grown": 1000, "sb_operations": 50000, "sb_grown": 1000, "sb_clears": 1000, "sb_limit_beyond_text": 1000, "sb_unformattable": 500},
    jobs=[dict(src="c09_grow.c", variant="plain", mode="long", n=(3, 80)), dict(src="c09_grow.c", variant="asan", mode="array", n=(6000, 300000)), dict(src="c09_grow.c", variant="dbg", mode="array", n=(2000, 50000)),
          dict(src="c09_grow.c", variant="asan", mode="builder", n=(10000, 500000)), dict(src="c09_grow.c", variant="dbg", mode="builder", n=(3000, 50000)), dict(src="c09_grow.c", variant="plain", mode="scale", n=(4, 200))])
PROPS["C24"] = dict(
    rule="sweep: a case is 2^24 consecutive arguments of the integer helpers, all 2^32 in 256 cases; hash: a case is one random text at 20 placements (address, alignment, following bytes, exact-size copies) and one integer/pointer key; non-trivial: every sweep case, texts longer than 3; distinct by case / hash values",
    require={"hashed_long": 15, "integers": 1 << 32, "hashed": 20000},
    jobs=[dict(src="c24_ints.c", variant="plain", mode="sweep", n=(256, 256)), dict(src="c24_ints.c", variant="asan", mode="edges", n=(1, 1)),
          dict(src="c24_ints.c", variant="asan", mode="hash", n=(4000, 400000)), dict(src="c24_ints.c", variant="plain", mode="hash", n=(4000, 400000))])
PROPS["C10"] = dict(
    rule="a case is one random history of malloc/calloc/realloc/resize/free on one pool (size 1-200000, minimum block 1-2^30, with or without lock callbacks), every block filled with its own pattern, followed by giving everything back and taking the largest block, 1-3 times over; or one concurrent run; non-trivial: a request was refused and several blocks were live; distinct by the sequence of (operation, live blocks); scale: a case is one pool of up to 2 GiB or of more than 66000 live blocks, filled, checked and drained; long: single histories of tens of thousands of operations on one object",
    require={"long_lives": 3, "large_pools": 4, "allocations": 100000, "requests_refused": 5000, "blocks_moved": 1000, "drained": 3000, "concurrent_allocations": 20000, "concurrent_refused": 100},
    jobs=[dict(src="c10_pool.c", variant="plain", mode="long", n=(3, 80)), dict(src="c10_pool.c", variant="plain", mode="scale", n=(6, 200)),
         dict(src="c10_pool.c", variant="asan", mode="history", n=(4000, 200000)), dict(src="c10_pool.c", variant="dbg", mode="history", n=(2000, 60000)),
          dict(src="c10_pool.c", variant="asan", mode="concurrent", wrap=["sched"], n=(80, 4000), slots=3, par=4), dict(src="c10_pool.c", variant="plain", mode="concurrent", n=(300, 10000), slots=3, par=4), dict(src="c10_pool.c", variant="plain", mode="concurrent", defs=CALLS, wrap=["sched", "calls"], n=(100, 5000), slots=3, par=4)])
PROPS["C11"] = dict(
    rule="history: a case is one random history of malloc/calloc/strdup/strndup/realloc/free with or without tracking, contents and the tracker's account compared with a model; misuse: one child process that overruns, underruns, frees twice or frees a foreign pointer (or behaves); threads: 2-6 threads allocating, freeing each other's blocks and reallocating while another asks for the account; non-trivial: a reallocation happened / every misuse / several reports; distinct by operation sequence, misuse parameters, final account; scale: a case is more than 66000 tracked blocks at once, or single blocks beyond 4 GiB",
    require={"operations": 50000, "accountings": 5000, "tracked_cases": 300, "untracked_cases": 300, "overflowing_requests": 500, "misuse_write-behind": 10, "misuse_write-before": 10, "misuse_double-free": 10, "misuse_foreign-free": 10, "misuse_stack-free": 10, "misuse_correct": 10, "concurrent_reports": 200},
    jobs=[dict(src="c11_track.c", variant="plain", mode="scale", n=(3, 100)),
         dict(src="c11_track.c", variant="asan", mode="history", n=(3000, 200000)), dict(src="c11_track.c", variant="dbg", mode="history", n=(1500, 50000)),
          dict(src="c11_track.c", variant="plain", mode="misuse", n=(400, 10000)), dict(src="c11_track.c", variant="dbg", mode="misuse", n=(400, 10000)),
          dict(src="c11_track.c", variant="asan", mode="threads", wrap=["sched"], n=(60, 3000), slots=3, par=4), dict(src="c11_track.c", variant="plain", mode="threads", n=(200, 8000), slots=3, par=4), dict(src="c11_track.c", variant="plain", mode="threads", defs=CALLS, wrap=["sched", "calls"], n=(24, 1500), slots=3, par=4)])
PROPS["C12"] = dict(
    rule="base64: every length 0-259, every 1-byte and a third byte beside every 2-byte input, random texts in four byte classes up to 140000 bytes, and arbitrary characters decoded; url: every byte, random texts, every too-small, exact and larger output size, and hostile escapes decoded; all in exact-size heap buffers against bit-by-bit references; non-trivial: longer than 3 bytes; distinct by the text",
    require={"base64_encoded": 100000, "base64_lone_character": 500, "base64_stopped_early": 1000, "url_encoded": 10000, "url_exact_fit": 5000, "url_refused": 10000, "url_decode_full": 5000, "url_malformed": 5000, "url_stopped_early": 5000, "url_invalid_call": 1000, "scale_texts": 30},
    jobs=[dict(src="c12_code.c", variant="plain", mode="scale", n=(40, 1500)), dict(src="c12_code.c", variant="asan", mode="base64", n=(8000, 400000)), dict(src="c12_code.c", variant="asan", mode="url", n=(12000, 600000)),
          dict(src="c12_code.c", variant="plain", mode="base64", n=(4000, 100000)), dict(src="c12_code.c", variant="plain", mode="url", n=(4000, 100000))])
PROPS["C13"] = dict(
    rule="a case is six rounds of every string helper on random texts (empty to 70000, adversarial alphabets) with capacities at, around and far from the exact fit, in exact-size heap buffers, against reference meanings; every case is non-trivial; distinct by the draw; scale: every helper on texts of 60 KB to 2 MB (counts and lengths beyond 16 bits)",
    require={"utf8_long": 20, "hex_long": 20, "copies": 50000, "exact_fit": 5000, "one_too_small": 5000, "cat_full": 1000, "replaced": 20000, "replace_empty_pattern": 500, "split_limited": 2000, "trim_all": 500, "utf8_limited": 5000, "hex_exact_fit": 3000, "hex_truncated": 3000},
    jobs=[dict(src="c13_str.c", variant="asan", mode="strings", n=(8000, 500000)), dict(src="c13_str.c", variant="plain", mode="strings", n=(6000, 200000)),
         dict(src="c13_str.c", variant="plain", mode="scale", n=(24, 1500))])
PROPS["C14"] = dict(
    rule="a case is one parameter object, parsed from a random text (repeated keys, missing or empty values, empty pieces and names, several '=', up to 400 pairs and 5000-character values, eight delimiters) or created empty, then edited by up to 40 typed puts and deletes; every key is read back typed after each edit, printed, reparsed and printed again, against a plain map; non-trivial: more than 2 entries at the end; distinct by text and edits; scale: an object of more than 66000 entries, or values beyond 64 KB",
    require={"parsed": 3000, "duplicates": 3000, "large_maps": 100, "edits": 50000, "integers_read": 10000, "floats_read": 10000, "floats_added": 5000, "out_of_range": 500, "missing_asked": 5000, "deleted": 5000, "reparsed": 5000},
    jobs=[dict(src="c14_params.c", variant="plain", mode="scale", n=(2, 60)),
         dict(src="c14_params.c", variant="asan", mode="params", n=(6000, 300000)), dict(src="c14_params.c", variant="dbg", mode="params", n=(2500, 60000))])
PROPS["C15"] = dict(
    rule="a case is one store, parsed from a random well-formed text (repeated sections and keys in other case, comments, names without value, byte-order mark) or created empty, edited by up to 60 puts, key and section deletions, refused puts and stopped traversals, each entry read back as text and as every type, then dumped to memory of every kind of size, saved, reparsed, and saved to a full device and impossible paths; against an ordered two-level map; non-trivial: more than 2 entries at the end; distinct by text and operations; scale: a store of 300-1500 sections or 300-2000 keys, and errors beyond line 65536; long: single histories of thousands of operations on one store",
    require={"long_lives": 3, "operations": 50000, "puts": 30000, "sections_deleted": 2000, "keys_deleted": 2000, "traversals_stopped": 5000, "roundtrips": 3000, "saves_failed": 2000, "puts_refused": 1000, "ints_out_of_range": 1000, "bools_read": 3000, "missing_asked": 5000, "dump_too_small": 2000},
    jobs=[dict(src="c15_ini.c", variant="plain", mode="long", n=(3, 80)), dict(src="c15_ini.c", variant="plain", mode="scale", n=(6, 200)),
         dict(src="c15_ini.c", variant="asan", mode="store", n=(2500, 150000)), dict(src="c15_ini.c", variant="dbg", mode="store", n=(1500, 40000)), dict(src="c15_ini.c", variant="asan", mode="misc", n=(1, 1))])
PROPS["C16"] = dict(
    rule="grammar: a case is one random text (sections, pairs with '=' or ':', continuations, comments, names without value, unclosed sections, byte-order marks, CR/LF mixes, names around 50 and lines around 199 and far beyond, random mutations) and a set of handler refusals, fed from memory, a custom reader, a file name or a stream, compared call by call with a line-by-line reading; binary: arbitrary bytes with NULs; non-trivial: the handler was called; distinct by the text; scale: a text of 66000-140000 lines",
    require={"triples": 100000, "malformed_or_refused": 3000, "refusals": 3000, "lines_at_the_limit": 1000, "lines_too_long": 1000, "names_without_value": 2000, "binary_inputs": 3000},
    jobs=[dict(src="c16_reader.c", variant="plain", mode="scale", n=(8, 300)),
         dict(src="c16_reader.c", variant="asan", mode="grammar", n=(16000, 800000)), dict(src="c16_reader.c", variant="asan", mode="binary", n=(5000, 300000)), dict(src="c16_reader.c", variant="dbg", mode="grammar", n=(6000, 200000)), dict(src="c16_reader.c", variant="asan", mode="misc", n=(1, 1))])
PROPS["C17"] = dict(
    rule="transfer: a case is one content (0-200000 bytes) through file descriptors (whole, in partial transfers, with one injected failure), a pipe or socket with a slow peer, read_all (also failing), sizes and access; lines: one text with lines around and far beyond 1023 characters, every line-end form, stops; folders: five paths (relative, absolute, dots, doubled slashes, lengths to 262, injected failures, files in the way) and 20 slash appends; together: 2-8 callers creating the same folders 12 times; iterate: one folder of files, folders, links, dangling links and fifos, full, stopped, nested or removing; non-trivial: per mode as counted; distinct by content, path or names; scale: files of more than 66000 lines, transfers of 9-40 MB, folders of 1500-9000 entries",
    require={"transfers": 1000, "partial_transfers": 200, "failures_reported": 30, "read_failures": 100, "larger_than_the_pipe": 5, "lines": 5000, "long_lines": 500, "stopped": 100, "read_errors": 500, "folders_made": 1000, "paths_at_the_limit": 20, "paths_too_long": 20, "mkdir_failures": 30, "file_in_the_way": 50, "slashes_appended": 1000, "slashes_without_room": 100, "created_together": 300, "collisions": 20, "entries": 5000, "iterations_stopped": 100, "dangling_links": 100, "subfolders": 300, "huge": 3, "unreachable_entries": 20},
    jobs=[dict(src="c17_files.c", variant="plain", mode="scale", wrap=["io"], n=(3, 60))] + [dict(src="c17_files.c", variant="asan", mode=m, wrap=["io"], n=n) for m, n in (("transfer", (1600, 80000)), ("lines", (1600, 80000)), ("folders", (480, 20000)), ("together", (60, 4000)), ("iterate", (480, 20000)), ("edge", (40, 2000)), ("huge", (1, 1)))] +
         [dict(src="c17_files.c", variant="dbg", mode=m, wrap=["io"], n=n) for m, n in (("transfer", (400, 10000)), ("together", (60, 4000)), ("iterate", (100, 4000)))])
PROPS["C18"] = dict(
    rule="days: every day of 1970-9999 in 64 cases, at its start, at its last second and at a random second, in a random zone; text: 50 instants per case (epoch, 2^31 and 2^32 seconds, leap days, random to 9999) as log stamp, file stamp and RFC text in exact-size buffers; clock: one history of 120 current-time readings under a clock that stands, steps and jumps both ways, in two formats and changing zones, with re-initialisation; threads: 2-8 threads reading under changing seconds and zones; zone: 300 offsets of one time zone, most around its changes; locale: RFC texts under a German locale; every case is non-trivial; distinct by instants",
    require={"days": 2900000, "stamps": 20000, "rfc_texts": 5000, "rfc_too_small": 2000, "rfc_beyond_9999": 500, "clock_readings": 50000, "clock_back": 2000, "clock_at_zero": 500, "same_second": 10000, "reinitialised": 300, "concurrent_readings": 50000, "offsets": 3000, "near_offset_changes": 500},
    jobs=[dict(src="c18_time.c", variant="plain", mode="days", wrap=["clock"], n=(64, 640)), dict(src="c18_time.c", variant="asan", mode="text", wrap=["clock"], n=(2000, 200000)), dict(src="c18_time.c", variant="asan", mode="clock", wrap=["clock"], n=(1200, 100000)),
          dict(src="c18_time.c", variant="asan", mode="threads", wrap=["clock", "sched"], n=(60, 4000), slots=3, par=4), dict(src="c18_time.c", variant="plain", mode="threads", wrap=["clock"], n=(400, 20000), slots=3, par=4),
          dict(src="c18_time.c", variant="asan", mode="zone", wrap=["clock"], n=(130, 5200)), dict(src="c18_time.c", variant="asan", mode="locale", wrap=["clock"], n=(1, 1))])
PROPS["C19"] = dict(
    rule="history: a case is 90 operations on the log: setting minimum level, target, format, zone, flush mode, default tag, automatic level, callback (valid and invalid values), initialising and cleaning up, redirecting the console and back, and messages through every macro and the bare entry with text, tag and function-name lengths around the internal buffer and far beyond, hex dumps and unformattable text; each message's console bytes and callback are compared exactly with a model under a controlled clock; global: library-wide initialisation depth; giant: messages of 64 KB to 20 MB to console and callback, whole and with nothing kept; slog: 60 operations on the simple logger; non-trivial: more than 20 messages; distinct by operation sequence",
    require={"giant_messages": 24, "very_long": 30, "switched_unflushed": 500, "messages": 20000, "emitted": 10000, "suppressed": 3000, "to_console": 8000, "to_callback": 5000, "at_the_buffer_limit": 500, "beyond_the_buffer": 2000, "levels_raised": 1000, "flushed_at_once": 2000, "long_names": 200, "names_shortened": 50, "hex": 1000, "hex_truncated": 200, "unformattable": 500, "odd_levels": 300, "redirected": 300, "restored": 200, "redirections_failed": 50, "initialised_again": 200, "cleaned_up": 300, "defaults_checked": 1, "global_steps": 1000, "slog_emitted": 5000, "slog_suppressed": 2000, "slog_hex": 1000, "slog_hex_truncated": 500, "slog_redirected": 500},
    jobs=[dict(src="c19_xlog.c", variant="asan", mode="history", wrap=["clock"], n=(1200, 60000)), dict(src="c19_xlog.c", variant="dbg", mode="history", wrap=["clock"], n=(400, 20000)), dict(src="c19_xlog.c", variant="asan", mode="global", wrap=["clock"], n=(100, 2000)), dict(src="c19_xlog.c", variant="asan", mode="giant", wrap=["clock", "malloc"], n=(24, 600), par=4),
          dict(src="c19_slog.c", variant="asan", mode="slog", n=(400, 20000)), dict(src="c19_slog.c", variant="plain", mode="slog", n=(200, 10000))])
PROPS["C20"] = dict(
    rule="a case is 1-3 rounds of starting the log, 2-8 threads logging 20-400 numbered records each (texts below and beyond the internal buffer) to the console and a callback that may dawdle, mostly while another thread changes format, zone, level, tag, flush mode and target, and stopping it; both outputs are parsed line by line; non-trivial: the console switches between threads more than twice per thread; distinct by the order of threads on the console",
    require={"callbacks_exchanged": 500, "records": 100000, "callback_records": 60000, "switches_between_threads": 10000, "configuration_changes": 5000, "times": 10000, "tags": 10000, "thread_numbers": 10000, "bare_records": 2000, "rounds": 300},
    jobs=[dict(src="c20_logmt.c", variant="asan", mode="log", wrap=["sched"], n=(60, 4000), slots=3, par=4), dict(src="c20_logmt.c", variant="plain", mode="log", n=(200, 20000), slots=3, par=4), dict(src="c20_logmt.c", variant="plain", mode="log", defs=CALLS, wrap=["sched", "calls"], n=(80, 6000), slots=3, par=4), dict(src="c20_logmt.c", variant="dbg", mode="log", wrap=["sched"], n=(60, 4000), slots=3, par=4)])
PROPS["C21"] = dict(
    rule="flog: a case is 1-3 loggers created one after the other on the same folder and prefix (folder forms, existing or not; piece sizes none, too small, 64 to 6500; queues of 2-64 KB; best effort or not; lock or not) under a clock that goes forward, stands still or turns back, each fed 1-300 records per thread from 1-4 threads (empty to 9000 bytes) in bursts or paced, and mostly stopped at once; every piece is read back and compared with what was accepted; obstacle: the folder cannot be made for the first 1-20 records; config: refused configurations and folder lengths; non-trivial: more than 20 records accepted; distinct by record sizes and outcomes; slow: a logger is stopped while its disk needs 3-6 s for what is queued; long: one logger for 66000-90000 records with pieces of up to 3 MB, or with more than a thousand pieces begun at one standing moment",
    require={"long_lives": 4, "pieces_of_one_moment": 1500, "records_of_one_logger": 130000, "edge_records": 500, "huge_records": 50, "slow_stops": 2, "accepted": 20000, "refused": 1000, "large_records": 500, "loggers": 500, "rotated": 150, "pieces": 5000, "full_pieces": 5000, "frozen_clock": 50, "clock_turned_back": 50, "threaded_loggers": 100, "stopped_at_once": 300, "kept_refused": 30, "long_folders": 10, "unqueueable": 14, "obstacles": 30, "dropped_while_blocked": 5},
    jobs=[dict(src="c21_flog.c", variant="plain", mode="long", wrap=["clock", "malloc"], n=(4, 60), slots=2, par=2), dict(src="c21_flog.c", variant="asan", mode="flog", wrap=["clock", "sched", "malloc"], n=(160, 8000), slots=2, par=4), dict(src="c21_flog.c", variant="plain", mode="flog", wrap=["clock", "malloc"], n=(300, 20000), slots=2, par=4), dict(src="c21_flog.c", variant="plain", mode="slow", wrap=["clock", "malloc"], n=(4, 60), slots=1, par=4), dict(src="c21_flog.c", variant="asan", mode="obstacle", wrap=["clock", "sched", "malloc"], n=(60, 3000)), dict(src="c21_flog.c", variant="asan", mode="config", wrap=["clock", "malloc"], n=(1, 1))])
PROPS["C23"] = dict(
    rule="mutex: 2-8 threads, 100-600 sections each over three mutexes; rwlock: 2-6 readers holding at once with a writer waiting, then 2-8 threads reading and writing; sem: 1-5 waiters and 1-4 posters over a semaphore of 0-19, sometimes with signals arriving and with the last post held back; threads: 1-10 threads with arguments, results, names and stack sizes; attrs: recursive and error-checking mutexes, read-write locks preferring writers or readers, threads with platform attributes; invalid: operations on primitives never made or destroyed; the guarded data, holders, passes and posts are counted from inside, under injected delays; non-trivial: contention, readers together and a waiting writer, or an empty semaphore was met; distinct by the order of entry",
    require={"mutex_sections": 50000, "mutex_contended": 2000, "rwlock_writes": 5000, "rwlock_reads": 10000, "readers_at_once": 100, "reads_together": 500, "writer_met_others": 300, "sem_passes": 10000, "sem_posts_alone": 100000, "sem_blocked": 500, "sem_last_post": 20, "sem_interrupted": 20, "threads": 500, "stacks": 100, "large_stacks": 20, "named": 100, "long_thread_names": 30, "refused_operations": 300, "nested_locks": 500, "refused_locks": 200, "writers_preferred": 40, "readers_preferred": 15, "platform_attributes": 100},
    jobs=[dict(src="c23_prim.c", variant=v, mode=m, wrap=["sched", "malloc"] if v != "plain" else ["malloc"], n=n, slots=3, par=4) for v, k in (("asan", 1), ("plain", 2)) for m, n in (("mutex", (40 * k, 4000 * k)), ("rwlock", (40 * k, 4000 * k)), ("sem", (40 * k, 4000 * k)), ("threads", (100 * k, 6000 * k)), ("attrs", (60 * k, 4000 * k)))] +
         [dict(src="c23_prim.c", variant="tsan", mode=m, wrap=["malloc"], n=(20, 2000), slots=3, par=4) for m in ("mutex", "rwlock", "sem", "threads")] + [dict(src="c23_prim.c", variant="asan", mode="invalid", wrap=["malloc"], n=(1, 1)), dict(src="c23_prim.c", variant="dbg", mode="invalid", wrap=["malloc"], n=(1, 1))])
PROPS["C22"] = dict(
    rule="a case is one operation history on one kind of object (15 kinds), run once without failures and then again with each allocation failing alone (all positions up to 60, else 60 drawn), every allocation failing from a drawn position on (4 times), and allocations failing at random (3 times); after each refused operation the content is compared with a model, and the operation is repeated with memory; non-trivial: always; distinct by kind and refusal pattern",
    require={"runs": 5000, "positions": 3000, "refused_operations": 8000, "succeeded_later": 2000, "sampled_cases": 5, "destroyed_without_memory": 40, "threads_refused": 100, "locks_refused": 150, "injected_list": 333, "injected_map": 500, "injected_array": 200, "injected_builder": 166, "injected_rings": 166, "injected_handler": 100, "injected_fixed_handler": 66, "injected_thread_pool": 400, "injected_strings": 200, "injected_params": 500, "injected_ini": 666, "injected_files": 83, "injected_file_logger": 166, "injected_log": 200, "injected_primitives": 133},
    jobs=[dict(src="c22_oom.c", variant="asan", mode="oom", wrap=["malloc", "create"], n=(300, 15000), slots=2, par=4), dict(src="c22_oom.c", variant="dbg", mode="oom", wrap=["malloc", "create"], n=(300, 15000), slots=2, par=4)])
PROPS["C25"] = dict(
    rule="a case is one concurrent run of 2-6 threads under the race detector over one kind of object (hash map, memory pool, auto-covering buffer with lock callbacks; a ring or queue with one producer and one consumer; a queue handler with serialised pushes; a thread pool with submitters, waiters and jobs submitting jobs; the tracking allocator; the log while its settings change; the time functions and stateless helpers; the file logger with its lock; threads that use only objects of their own, of every kind, with known results), the threads sharing nothing of the harness, under injected delays; non-trivial: both sides did something; distinct by what each thread saw",
    require={"map_puts": 5000, "map_visited": 1000, "pool_allocations": 10000, "pool_refused": 300, "cover_writes": 5000, "cover_reads": 1000, "cover_overtaken": 100, "RingBuffer_reads": 1000, "ring_buf_reads": 1000, "msg_queue_reads": 500, "fixed_msg_queue_reads": 500, "handler_pushes": 1500, "fixed_handler_pushes": 1500, "fixed_handler_clears": 10, "handler_dispatched": 3000, "thpool_jobs": 5000, "thpool_results": 1000, "track_allocations": 10000, "track_exchanged": 1000, "log_messages": 3000, "log_settings": 300, "time_strings": 10000, "file_logger_accepted": 1000, "own_rounds": 4000, "own_files": 200, "own_threads": 200},
    jobs=[dict(src="c25_race.c", variant="tsan", mode=m, wrap=["sched"], n=(n, n * 50), slots=2, par=4) for m, n in (("map", 80), ("pool", 80), ("cover", 80), ("rings", 120), ("handler", 80), ("thpool", 80), ("track", 60), ("log", 80), ("time", 60), ("flog", 60), ("own", 120))])
PROPS["C26"] = dict(
    rule="life: a case is 30-200 random creations, uses and destructions of up to 14 objects at once, of 25 kinds, in random order, with or without global start-up; again: one kind of object made, used and destroyed 8-50 times, everything counted after each; refuse: one group of invalid creation parameters; non-trivial: more than five objects were made; distinct by the sequence of kinds created and destroyed; threads that were neither joined nor detached count as residue",
    require={"uses": 10000, "destroyed": 3000, "rounds": 3000, "refused": 1000, "locks": 3000, "callers_locks": 2000, "most_at_once": 50, "huge_rings": 10, "made_file_logger": 100, "made_thread_pool": 100, "made_msg_queue_handler": 100, "made_fixed_msg_queue_handler": 100, "tracked_cases": 60, "made_redirection": 80, "made_global": 40, "made_ini_parser": 100, "made_str_params": 100, "made_memory_pool": 100},
    jobs=[dict(src="c26_life.c", variant=v, mode=m, wrap=["malloc", "locks", "sched", "sleep"], n=(n, n * 50), slots=2, par=4) for v in ("asan", "dbg") for m, n in (("life", 200), ("again", 150), ("refuse", 320))] +
         [dict(src="c26_life.c", variant="memchk", mode=m, hdefs=["-DVP_MEMCHK"], wrap=["malloc", "locks", "sched", "sleep"], n=(n, n * 50), slots=2, par=4) for m, n in (("life", 200), ("again", 150))])
# the same programs in the build that traces its allocations, tracing on, the program's own allocations traced too
for _p in ("C03", "C04", "C05", "C07", "C08", "C09", "C13", "C14", "C15", "C17", "C21"):
    PROPS[_p]["jobs"] += [dict(j, variant="memchk", hdefs=["-include", "mem/mem_debug.h", "-DVP_TRACK"], n=tuple(max(2, x // 4) for x in j["n"]))
                          for j in PROPS[_p]["jobs"] if j["variant"] == "asan" and not j.get("defs") and not j.get("hdefs")]
PROPS["C11"]["jobs"] += [dict(j) for j in PROPS["C26"]["jobs"] if j["variant"] == "memchk"] + [dict(src="c11_macro.c", extra=["c11_new.cpp"], variant="memchk", mode="macros", wrap=["malloc"], n=(800, 40000))]
PROPS["C11"]["require"].update(macro_accounts=5000, macro_news=5000, macro_forgotten=500, tracked_rounds=1000)
PROPS["C11"]["rule"] += "; life and again: the whole library built to trace its allocations, in a program that traces its own, objects made, used and destroyed with the tracker's account compared"
NOT_APPLICABLE = {}
