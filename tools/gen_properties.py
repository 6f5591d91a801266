#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate that file)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

p("C01", "Byte ring buffers are exact bounded FIFOs",
  "For every sequence of write, read, peek, discard and clear calls on either of the two ring buffers, of any capacity, the bytes handed out are exactly the bytes accepted, in order and each once, including when the storage wraps around and when the 32-bit running positions overflow. The reported readable and writable amounts always add up to the usable capacity and predict what the next transfer does: one ring truncates a transfer to what fits, the other refuses it whole. No call touches memory outside the ring's storage or the caller's buffers.",
  ["inputs", "histories"], "all capacities, creation modes (own or caller memory), transfer sizes and operation sequences, from any starting position",
  "The demo pushes a few fixed sizes through one ring; it never reaches wrap-around at every offset, position overflow after 4 GiB, or odd capacities.",
  ["src/ring/ringbuffer.c", "src/ring/ring_buf.c"],
  [("two-part copy with power-of-two mask", "ringbuffer.c RingBuffer_write/RingBuffer_read_internal"), ("modulo offsets", "ring_buf.c ring_buf_write/internal_ring_buf_read")],
  ["return values and buffers of every public call"])
p("C02", "One producer and one consumer share rings and queues without a lock",
  "When exactly one thread only adds and exactly one thread only removes, the byte rings, the variable-size message queue and the fixed-size message queue deliver every byte or message that was accepted exactly once, unmodified and in order, under every interleaving of the two threads. Neither side ever sees a torn or partly written message, overwrites data not yet taken, or observes more readable or writable room than there is.",
  ["schedules", "histories"], "all interleavings of one producer and one consumer, all message sizes and capacities",
  "Only some instruction interleavings break a lock-free queue; the demo runs one schedule with a fast consumer.",
  ["src/ring/ringbuffer.c", "src/ring/ring_buf.c", "src/ring/msg_queue.c", "src/ring/fixed_msg_queue.c"],
  [("position published after the copy", "ringbuffer.c, ring_buf.c"), ("header-then-body with 'again' status", "msg_queue.c msg_queue_pop")],
  ["payload and status of every push/pop at the API boundary"])
p("C03", "Message queues keep message boundaries and report truthful status",
  "For every sequence of push, pop, next-size, clear and space queries, a message queue returns each accepted message whole, with its own length and content, in push order; it refuses a push only when there is not enough free room and a pop only when it is empty or the caller's buffer is too small, in which case it reports the needed size and keeps the message. A successful pop tells the caller the real message size, and free plus used space is always the capacity. The fixed-size queue behaves the same way counted in messages.",
  ["inputs", "histories"], "all message sizes, capacities, receiving-buffer sizes and operation sequences",
  "The demo uses one message shape and never a full queue, an undersized buffer or wrap-around inside a header.",
  ["src/ring/msg_queue.c", "src/ring/fixed_msg_queue.c"],
  [("length header", "msg_queue.c"), ("room checks before transfer", "msg_queue_push, fixed_msg_queue_push")],
  ["status codes, sizes and payloads of every call"])
p("C04", "Queue handlers dispatch each accepted message once, in order, on one thread",
  "A message accepted by a queue handler is passed to the user's callback exactly once, complete, in acceptance order and on the handler's single thread, unless the handler is destroyed, cleared or stopped by the callback first; messages of any size that fit the queue are delivered. The ready notification comes before the first message and the about-to-stop notification comes exactly once and last; after a callback asks to stop, nothing more is dispatched and pushes are refused. Clearing drops only messages accepted before it, and destroying always returns, with no callback running afterwards.",
  ["schedules", "histories", "inputs"], "all interleavings of pushers (serialised by the caller), clear, stop and destroy with the dispatch thread; all message sizes",
  "The demo only prints from the callback; loss, duplication, reordering or a hang in destroy depends on the schedule.",
  ["src/ring/msg_queue_handler.c", "src/ring/fixed_msg_queue_handler.c"],
  [("semaphore per accepted message", "msg_queue_handler.c, fixed_msg_queue_handler.c"), ("validity token for clear", "fixed_msg_queue_handler_clear"), ("growing pop buffer", "thread_worker_handle_msg")],
  ["callbacks and push status"])
p("C05", "The auto-covering buffer returns exactly the stream bytes at a position",
  "After any sequence of writes (each at most the capacity) and reads, reading from a position that lies inside the retained window returns exactly the bytes that were written at that stream position, and the available amount reported for it is the distance to the end of the stream. A position whose data was overwritten or already consumed never yields bytes of another position of the window's lap, and a request for more than is available changes nothing. When lock callbacks are supplied, every access happens between exactly one acquire and one release, so concurrent writers and readers never see mixed data.",
  ["inputs", "histories", "schedules"], "all write/read sequences, positions and capacities; concurrent readers and writers with a lock",
  "The demo reads back one pattern sequentially; the covered/wrapped cases and concurrent cover-while-reading need many histories.",
  ["src/ring/autocover_buffer.c"],
  [("window test on masked offsets", "auto_cover_buf_internal_read"), ("discard before overwrite", "auto_cover_buf_write"), ("lock callbacks", "AUTOCOVER_LOCK/AUTOCOVER_UNLOCK")],
  ["returned bytes and codes, lock callback trace"])
p("C06", "The thread pool runs every accepted task exactly once and its waits are exact",
  "Every task accepted by the thread pool is executed exactly once, with the argument it was submitted with, by one of the pool's threads, and no more tasks run at the same time than the pool has threads, but that many do if that many wait. A pool of one thread runs them in the order they were accepted. Waiting returns, for every concurrent waiter, only when no task submitted before is queued or running, and it does return once that is so; destroying the pool waits for running tasks, runs no task afterwards and always returns. While paused, no new task begins; resuming lets all of them run, however closely pause and resume follow each other.",
  ["schedules", "histories"], "all interleavings of submitters, waiters, workers, pause/resume and destroy",
  "The demo submits a handful of sleeping tasks; lost wake-ups, double execution or early returns need rare interleavings.",
  ["src/thread/thpool.c"],
  [("job queue mutex", "thpool.c jobqueue_push/jobqueue_pull"), ("binary semaphore", "bsem_post/bsem_wait"), ("idle condition", "thpool_wait, threads_all_idle")],
  ["task start/end events, return of wait/destroy"])
p("C07", "The linked list behaves as a sequence",
  "For every sequence of append, prepend, insert, remove, clear and traversal calls, the list holds exactly the elements and order of an ordinary sequence, and its length, front, back, membership and iteration agree with it. The element destructor runs exactly once for every element that leaves the list through the list, and never for one that stays. A traversal callback that returns false stops the traversal there, and removing the visited element from within the traversal is safe.",
  ["inputs", "histories"], "all operation sequences, including allocation through a caller-supplied allocator that may fail",
  "The demo exercises one scripted sequence; linkage errors appear only for particular positions (only/first/last element).",
  ["src/data/list.c"], [("node linkage and length", "list.c"), ("element destructor", "list_free_node_")],
  ["return values, iteration, destructor calls"])
p("C08", "The hash map behaves as a map",
  "For every sequence of put, get, remove, size, iterate and clear calls, with any hash function (including one that maps all keys to one bucket) and any initial size, the map returns exactly what an ordinary map with the same equality would, before and after it grows. Each stored entry is visited exactly once by iteration, a visitor that returns false ends the iteration, and the key and value destructors run exactly once for each entry the map disposes of. With lock callbacks supplied, each operation is atomic and releases the lock on every path.",
  ["inputs", "histories", "schedules"], "all operation sequences, hash functions, sizes, allocation failures; concurrent clients with a lock",
  "The demo stores a few keys; collisions inside a bucket chain, growth, failure paths and lock balance are never reached.",
  ["src/data/hashmap.c", "src/data/hash_functions.c"],
  [("bucket chains and growth", "hashmap.c expand_if_necessary"), ("lock callbacks", "hashmap.c")],
  ["return values, iteration, destructor and lock callbacks"])
p("C09", "Growable arrays and string builders hold exactly what was appended",
  "For every sequence of appends, by pointer or by value, the growable array keeps every element unchanged at its index across any number of reallocations, whatever the element size and initial capacity. For every sequence of string, bounded string, character and formatted appends and clears, the string builder's content and length equal those of an ordinary string treated the same way, it is always terminated, and a bounded append takes at most the stated number of characters and never reads past the end of the text. ",
  ["inputs", "histories"], "all element sizes, append sequences and lengths, including growth boundaries",
  "Growth boundaries (internal storage to heap, exact capacity) depend on exact lengths the demo never hits; the string builder has no test.",
  ["src/data/array.c", "src/mem/stringbuilder.c"], [("doubling growth", "array.c grow, stringbuilder.c stringbuilder_ensure_space")],
  ["contents, lengths and status"])
p("C10", "The memory pool never overlaps blocks and gives back everything freed",
  "For every sequence of allocations, reallocations and frees from a fixed pool, of any pool size and minimum block size, each live block is aligned, lies inside the pool, is at least as large as requested and overlaps no other live block, so its content stays intact until it is freed; reallocation keeps the common prefix. When everything has been freed the pool can again serve the largest request it could serve when fresh, and a request that cannot be met fails cleanly. With a lock supplied this holds for concurrent users too, and usage statistics match the live blocks.",
  ["inputs", "histories", "schedules"], "all request sizes and orders, pool geometries and thread interleavings under the pool lock",
  "Coalescing and splitting mistakes need specific size/order histories; the demo allocates a few blocks once.",
  ["src/mem/mplite.c"], [("buddy split/merge with control bytes", "mplite.c mplite_malloc_unsafe/mplite_freemem"), ("pool lock", "mplite_enter/mplite_leave")],
  ["returned pointers, contents, statistics"])
p("C11", "The tracking allocator accounts for every block exactly",
  "With allocation tracking on, blocks from the library's allocation functions are disjoint, large enough, zeroed or copied as the standard function promises, and keep their prefix across reallocation; with tracking off they behave like the standard functions. At any time the tracker reports as outstanding exactly the blocks and bytes allocated and not yet freed, also when many threads allocate and free at once, and reports none when all were freed. A write just before or after a block, a second free, or the free of a block it did not hand out is detected when that block is released, while correct programs are never accused. A program built with mem_debug.h is traced under its own file, function and line, in C and C++, and together with a library built the same way stays free of such accusations.",
  ["inputs", "histories", "schedules"], "all allocation programs, sizes and thread interleavings; both tracking on and off",
  "The demo only checks for zero leaks at exit of a correct program; it contains no corruption and no accounting comparison.",
  ["src/mem/allocator.c", "src/mem/allocation_tracker.c"], [("canaries around each block", "allocation_tracker_notify_alloc/free"), ("allocation map under a lock", "allocation_tracker.c")],
  ["pointers, contents, leak report, abort on misuse"])
p("C12", "Base64 and URL coding round-trip and never overrun",
  "For every byte string, Base64 encoding yields the standard text and decoding it yields the original bytes; for every text, URL encoding yields only safe characters that decode back to the original. Output never exceeds the size the caller stated or the size functions predict, URL encoding that does not fit and URL input with an invalid character or escape are reported as errors, and decoding that ends early (output full, incomplete escape, a character outside the Base64 alphabet) yields exactly the part before that point: the reported lengths, and the position up to which input was consumed, are exact.",
  ["inputs"], "all byte strings of all lengths, all output buffer sizes, arbitrary malformed input",
  "The tests code a few fixed strings; length classes modulo 3, high bytes, and every too-small buffer are not covered.",
  ["src/data/base64.c", "src/net/url_encoder_decoder.c"], [("tail handling and padding", "base64.c"), ("output room check per character", "url_encoder_decoder.c")],
  ["return value, output bytes, bytes beyond the buffer"])
p("C13", "String helpers match their reference meaning within bounds",
  "For every input the string helpers (bounded copy and concatenation, replace, split, trim, hex and UTF-8 length conversion, formatted allocation) return what their documentation defines, leave a terminated result, and never write past the stated capacity or read past the input. When the result does not fit, they truncate or report as documented instead of overrunning.",
  ["inputs"], "all strings, capacities, patterns and lengths, including empty, exact-fit and one-too-small",
  "Off-by-one errors show only at exact-fit lengths; the demo prints results of a few comfortable cases.",
  ["src/mem/strings.c", "src/mem/asprintf.c"], [("capacity arithmetic", "strings.c")],
  ["return values, output bytes and guard bytes"])
p("C14", "Key-value parameter strings parse, edit and print back faithfully",
  "Parsing a delimiter-separated list of key=value pairs gives exactly the pairs of the text, the last occurrence of a key winning; adding, replacing, deleting and reading as string, integer or float behave as on an ordinary map, integers converted exactly or refused, floating-point numbers kept to ten decimal places. Printing the parameters and parsing the result gives the same map, for any number and length of pairs, and no parse, edit or destroy leaks or touches freed memory.",
  ["inputs", "histories"], "all texts, delimiters and edit sequences",
  "Duplicate keys, empty values, missing '=', long values and large numbers are absent from the demo's single string.",
  ["src/mem/str_params.c"], [("hash map of owned copies", "str_params.c"), ("growing output string", "str_params_to_str")],
  ["return values and printed text"])
p("C15", "The INI store is a persistent two-level map",
  "For every sequence of typed get, put, delete and traversal calls, the INI store behaves like a map from (section, key), compared without case, to text: a read returns the last value put or parsed, a name or value that does not fit is refused, a missing entry is reported as missing, numbers are read exactly or refused, a traversal visits each entry once, in order, and stops when told to. Dumping the store to memory or file and parsing it again gives the same entries in the same order (for names and values the INI grammar can write on one line), and a save or dump that cannot be completed is reported as a failure without leaking or leaving the store unusable.",
  ["inputs", "histories", "fault_sequences"], "all edit sequences of names and values within the documented limits; write failures during save",
  "The demo edits a handful of keys and never deletes a section it just used, fails a save or re-parses what it wrote.",
  ["src/file/ini_parser.c", "src/file/ini_reader.c"], [("section and pair lists with a cached section", "ini_parser.c"), ("size prediction and dump", "ini_parser_dump")],
  ["return codes, values, dumped bytes"])
p("C16", "The INI reader reports exactly the file's pairs and errors, on any input",
  "For every input, the streaming INI reader calls the handler for exactly the section/name/value triples a straightforward reading of the documented INI grammar gives, in order (comments, inline comments, continuation lines, byte-order mark, '=' or ':'), and returns the number of the first malformed line, or zero; a line longer than the limit counts as malformed and its rest is not taken for lines of its own. The three ways of feeding it (file name, stream, memory) agree, a handler's refusal is reported at its line, and no input, however long, malformed or binary, makes it read or write out of bounds.",
  ["inputs"], "all byte sequences as file contents, within and beyond line and name limits",
  "The demo parses one well-formed file; malformed, over-long and boundary-length lines are never tried.",
  ["src/file/ini_reader.c"], [("bounded copy of section/name", "ini_reader.c strncpy0"), ("memory stream reader", "ini_reader_string")],
  ["handler call sequence and return value"])
p("C17", "File helpers transfer whole contents and walk directories completely",
  "Writing then reading a file through the helpers gives back exactly the same bytes for every content and size, and sizes and existence checks agree with the file system. Creating nested directories works for every path form and depth and when several callers create the same path at once; reading lines hands out every line once in order; iterating a directory hands out every entry that can be examined exactly once, with its kind, and stops when the callback says so. Failures of the file system, including partial transfers, are reported as errors rather than as success, and no handle leaks.",
  ["inputs", "fault_sequences", "schedules"], "all contents, sizes, path shapes and directory trees; open/read/write/close failures at any point",
  "The demo writes one small file on a healthy file system.",
  ["src/file/file_util.c", "src/file/file_iterator.c"], [("path component walk", "file_util_mkdirs"), ("chunked line reader", "file_util_read_txt"), ("directory recursion", "file_iterator.c")],
  ["file contents on disk, return values, open descriptors"])
p("C18", "Time conversion is correct for every instant, cached or not",
  "For every instant, time zone offset and order of calls, from one or many threads, the library's fast conversion gives the same date, time and milliseconds as the calendar, including day, month, leap-year and millisecond boundaries and clock changes in either direction between calls. The formatted time strings (log stamps, RFC 1123, RFC 2822) are the standard text for that instant and fit the caller's buffer.",
  ["inputs", "schedules", "histories"], "all instants of 1970 to 9999, zone offsets, clock steps and thread interleavings",
  "The demo prints the current time; it sees one instant and never a rollover, leap day or stale cache.",
  ["src/time/time_util.c", "src/time/time_rfc1123.c", "src/time/time_rfc2822.c"], [("cached calendar fields", "time_util.c"), ("civil-from-days arithmetic", "time_util_fast_second2date")],
  ["returned fields and strings under a controlled clock"])
p("C19", "The log emits exactly the enabled messages, complete and well formed",
  "A message is emitted if and only if its level passes the configured minimum at that moment, and then exactly to the configured targets, with the header the configured format calls for (time, level, tag, thread) and the complete formatted text whatever its length; nothing is emitted for a disabled one. Hex dumps show every byte they claim to and no call, whatever the tag, text, length or argument, writes outside its buffers. Automatic level raising, setting and restoring targets, and repeated initialisation leave the configuration the documentation says.",
  ["inputs", "configurations", "histories"], "all levels, targets, formats, tags, message lengths and configuration sequences",
  "Message length at the internal buffer boundary and combinations of level, target and format are far more than the demo prints; its output is not compared.",
  ["src/log/xlog.c", "src/mem/strings.c", "inc/log/xlog.h"], [("level filter", "xlog_internal_log"), ("stack buffer with heap fallback", "xlog.c"), ("hex conversion", "xlog_internal_hex_print")],
  ["console file and callback contents"])
p("C20", "Concurrent logging keeps lines whole and each thread's order",
  "When any number of threads log at once, every emitted record appears exactly once on each target as one uninterrupted line, records of one thread appear in the order that thread issued them, and the log callback and the console show the same records in the same order, the callback being called for one record at a time. Replacing the callback meanwhile is atomic: none is given another one's data, and the old one is not called once the replacement has returned. Neither concurrent logging nor starting and stopping the log around it deadlocks or loses a record issued while the log was up.",
  ["schedules", "histories"], "all interleavings of logging threads over all targets",
  "Torn or lost lines need contention; the demo's threads print without any check.",
  ["src/log/xlog.c"], [("lock around emission", "xlog.c")],
  ["console file and callback sequence"])
p("C21", "The file logger writes every accepted message once, in order, across pieces",
  "Every message the file logger accepts while running is written exactly once, whole and in acceptance order, over the concatenation of its log pieces in creation order, and a message it cannot accept is reported as refused, not silently dropped. A piece is closed once it has reached the configured size and the next message begins a new one, every piece is a distinct file, and creating the logger anew never destroys earlier pieces. Stopping the logger writes out what was accepted, and always returns. While the folder cannot be made, records are lost, but those logged once it can be made are written.",
  ["schedules", "histories", "configurations", "fault_sequences"], "all message sizes, rates, producer interleavings, piece sizes and stop points",
  "Piece rolling within one millisecond, a full queue, and stopping with messages queued do not occur in the demo.",
  ["src/log/file_logger.c", "src/ring/msg_queue_handler.c"], [("queue to one writer thread", "file_logger.c"), ("piece rolling by size", "file_logger.c")],
  ["files on disk versus accepted messages"])
p("C22", "Running out of memory or threads is reported, never crashes, leaks or corrupts",
  "When any single or repeated memory allocation, thread creation or lock creation fails during any container, queue, pool, parser, string or handler operation, the operation reports failure (or falls back as documented), no invalid memory is touched, everything it had acquired is released, and the object it worked on stays usable with its earlier content. Once resources are available again the same operation succeeds.",
  ["fault_sequences", "inputs"], "every allocation, thread-creation and lock-creation site failing at every position in operation sequences",
  "No test injects an allocation failure.",
  ["src/data/hashmap.c", "src/data/list.c", "src/data/array.c", "src/mem/stringbuilder.c", "src/mem/str_params.c", "src/file/ini_parser.c", "src/ring", "src/mem/allocator.c", "src/thread/thpool.c"],
  [("null checks and unwinding", "every creation function")],
  ["status, content and leak report under injected failure"])
p("C23", "Portable locks, semaphores and threads keep their contract",
  "Under every interleaving, a portable mutex admits one holder at a time, a read-write lock admits many readers or one writer, and a semaphore never lets more waiters through than its first value and its posts allow, loses no post, and shows the difference as its value; what one holder wrote the next one sees. A created thread runs its routine once with the given argument, name and at least the given stack, and joining returns when it has ended, with its result unchanged. Attributes given at creation (recursive or error-checking mutex, preference of a read-write lock, platform thread attributes) are honoured. Operations on a primitive that was never made, or was destroyed, are refused.",
  ["schedules", "histories"], "all interleavings of up to many threads over each primitive",
  "The demo creates a few threads and prints; exclusion and counting violations need contention and checks.",
  ["src/thread/portable_thread_posix.c", "src/thread/posix_thread.c", "inc/thread/portable_thread.h"], [("wrappers over the platform primitives", "portable_thread_posix.c")],
  ["critical-section monitors, counters and return codes"])
p("C24", "Integer and hash helpers are exact and consistent",
  "For every argument, rounding up or down to a power of two and the power-of-two test give the mathematically defined result. The hash functions for integers, pointers and strings give equal hashes for equal keys, whatever their address or alignment, and the string hash reads nothing beyond the terminator.",
  ["inputs"], "all 32/64-bit values and strings",
  "The tests try a few values; the edge values near the word limit are not among them.",
  ["src/data/integer.c", "src/data/hash_functions.c"], [("bit smearing", "integer.c"), ("FNV/pointer hash", "hash_functions.c")],
  ["return values"])
p("C25", "Operations documented as thread-safe are free of data races",
  "When threads share a hash map, memory pool or auto-covering buffer that was given lock callbacks, a thread pool, a tracking allocator, a queue handler whose pushes are serialised, the log (with its level and targets already set), or the time functions, or one thread writes and one reads a ring or queue, in the ways the documentation allows, no two threads access the same memory unsynchronised with one of them writing. Threads that only use objects of their own (of any kind) never disturb each other: their results are those of a single thread.",
  ["schedules"], "all interleavings of documented concurrent use",
  "Races are invisible to functional tests.",
  ["src/data/hashmap.c", "src/mem/mplite.c", "src/ring/autocover_buffer.c", "src/thread/thpool.c", "src/mem/allocation_tracker.c", "src/time/time_util.c", "src/log/xlog.c"],
  [("locks", "each component")],
  ["race detector reports"])
p("C26", "Every object can be created and destroyed repeatedly without residue",
  "Creating, using and destroying any object of the library, in any documented order and number of times, including global start-up and clean-up called repeatedly, leaves no memory, thread, file handle or lock behind; destroying clears the caller's handle, and destroying nothing is harmless. Creation with invalid parameters is refused without effect.",
  ["histories", "inputs"], "all create/use/destroy sequences, valid and invalid creation parameters",
  "The demo creates most objects once and exits, so residue is not noticed.",
  ["src/lcu.c", "src/ring", "src/thread/thpool.c", "src/log", "src/data", "src/mem", "src/file"],
  [("paired create/destroy", "each component")],
  ["leak report, open descriptors, thread count"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
for q in P:
    assert len(q["title"]) <= 80, q["id"]
    q["statement"] = q["statement"].strip()
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P))
