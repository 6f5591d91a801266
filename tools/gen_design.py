"""Fills the tables of DESIGN.md (section 2 from harness/jobs.py, section 6 from tools/seed_results.txt)."""
import sys; sys.path.insert(0,'/verif/harness')
import jobs
O={
"C01":("byte FIFO model: content, amounts, refusal; canaries round caller memory","asan, dbg; small rings swept exhaustively over (offset, level, length); `overflow` moves the 32-bit positions across 2^32 by real transfers","capacities 1 to 65536 (overflow: large)"),
"C02":("each byte or message carries its number and a checksum; accepted = delivered in order; room never shrinks for the producer nor level for the consumer between its own calls","plain (speed), dbg+slow memcpy (torn copies), asan, and tsan with the acquire/release publication visible to the detector; `bulk` moves many amounts at a time; `cross` starts the 32-bit positions just below 2^32","one producer, one consumer; x86-TSO orders, weaker ones through tsan's happens-before only"),
"C03":("queue-of-blobs model; exact sizes, statuses, free+used = capacity; receiving buffers of exact heap size","asan, dbg","capacities up to some 10 KB (`scale`: to 37 MB), message sizes 0 to capacity and 2^32-x"),
"C04":("every push gets a number; the callback checks number, content, thread, order; ready/stop notifications; a gate holds the callback so that the queue's content at clear/destroy is known","asan+injected delays, plain, dbg+slow memcpy; call-boundary delays; `long` (tens of thousands of messages through one handler), `sizes` (caller's buffers of exact heap size), handler without lock, callbacks held in the ready notification, `clear_gate`, `life`, `refuse`","1-3 serialised producers; messages to some MB (`giant`)"),
"C05":("whole stream kept by the monitor; each read compared with the stream at that position; window model; lock callbacks counted","asan, dbg, plain across 2^32, concurrent with slow memcpy, `scale` (rings to 32 MB)","capacities up to 64 KB; a ring of 2^31 bytes excluded"),
"C06":("per-task execution counters, running-at-once counter, wait oracle: every task whose submission ended before wait began must have ended when it returns","plain, asan with delays at every lock, injected thread-creation failure, `sleep` shortened, watchdog for never-returning waits; `often` (5000 waits and 1000 pauses of one pool), `wide` (up to 420 threads), `patience` (slow tasks at destroy)","0-420 threads, up to 76000 tasks waiting"),
"C07":("ordinary sequence, destructor counts, failing allocator","asan, dbg; `scale` and `long` plain","random histories to some 60 elements; lengths past 2^16 and single lists living through 66000 operations"),
"C08":("ordinary map, destructor accounting, lock nesting and `every access under the lock`; records that are key and value at once; concurrent owners of disjoint keys","asan, dbg, plain","to 1400000 keys in `scale`; single maps living through 66000 operations; eight hash functions"),
"C09":("shadow array/string; sanitizer on exact-size storage","asan, dbg","element sizes 1-70; past 2^16 elements / bytes (`scale`, `long`)"),
"C10":("every live block filled with its own pattern and re-verified; interval overlap; alignment; statistics; coalescing oracle: the fresh pool's largest block must be available again","asan, dbg, concurrent","pools of 1-200000 bytes (`scale`: to 2 GiB, above 66000 live blocks), minimum block 1-2^30; single pools living through 66000 operations"),
"C11":("table of live blocks with pattern; the tracker's report is parsed and compared; misuse runs in child processes that must or must not be accused","asan, dbg, plain children; concurrent; `scale` with tens of thousands of live blocks; a foreign allocator below the tracker","more than 66000 tracked blocks; single blocks beyond 4 GiB"),
"C12":("bit-by-bit reference codecs; exact-size buffers","asan, plain; all lengths 0-259, all 1-byte and every third 2-byte input, all URL bytes","texts to 140000 bytes, in `scale` to 16.8 MB"),
"C13":("reference meaning of each helper, written naively; exact-size buffers on both sides","asan, plain","texts to 70000 (`scale`: 2 MB), patterns to 300, replacements to 700, sets above 20 characters and bytes above 0x7f"),
"C14":("naive parser and plain map; typed reads after each edit; print/reparse/print fixed point","asan (leaks), dbg","400 pairs, 5000-character values (`scale`: to 66000 pairs), histories to 3000 edits"),
"C15":("ordered two-level case-insensitive map; every dump size; write to /dev/full and impossible paths; names that nearly equal existing ones","asan (leaks), dbg","names within the store's limits; to 6000 keys; single stores living through thousands of edits"),
"C16":("independent line-by-line reading of the grammar, compared call by call (section, name, value, line number, refusal)","asan, dbg; arbitrary bytes","lines to several times the limit; texts of 66000-140000 lines"),
"C17":("contents, listings and sizes from plain system calls; injected short/failed read, write, fread, mkdir; open-descriptor count","asan, dbg; everything below a scratch folder made by the check","depth to 262 characters of path; lines to 140000 characters; a 2 GB sparse file; read errors in mid file"),
"C18":("gmtime_r/strftime as calendar; clock and time interposed: standing, stepping, jumping back","plain (every day 1970-9999), asan; threads; 130 time zones; German locale","-"),
"C19":("model of the configuration predicts console bytes and callback arguments exactly","asan, dbg; clock controlled; a second logger and setters used between records; `global` covers the process-wide configuration","texts to 40000 (`giant`: 64 KB to 20 MB), hex dumps of 3,000,000 bytes (slog 200000), function names and tags beyond the internal buffers"),
"C20":("console file and callback log parsed line by line: once, whole, per-thread order, same order on both, callback never entered twice; deadlock by watchdog","asan, plain, dbg with delays; callbacks exchanged while threads log","2-8 threads"),
"C21":("accepted list against the concatenated pieces; sizes at which pieces close; file identity (inode) of earlier pieces; refused = reported","asan, plain; clock standing or turned back; consumer slowed; `obstacle` (the next piece's name is taken), `long` (66000-90000 records of one logger, above 1000 pieces begun at one moment)","pieces 64 bytes-3 MB or unlimited; queue 2-64 KB; records exactly at the edges"),
"C22":("object models after every refused call; allocator fails the n-th, all from n, or at random; everything released at the end (the interposer's account and LSan)","asan, dbg","15 kinds of object; failing positions up to 60 exhaustively"),
"C23":("holders, readers, passes and posts counted inside; data behind the lock unsynchronised but for it (tsan); single-threaded semaphore value through its range incl. INT_MAX; `attrs` asks recursive and error-checking mutexes, read-preferring and write-preferring locks and threads with chosen stack size or detached state for the behaviour their attribute promises","asan, plain, tsan","2-8 threads"),
"C24":("definition, over all 2^32 arguments; hash equality over address, alignment and neighbouring bytes","plain sweep, asan","64-bit helpers by edges"),
"C25":("ThreadSanitizer over the documented concurrent uses; harness threads share nothing else, so every report is the library's","tsan with injected delays, ten kinds of object; `own` lets every thread use objects of its own (hidden shared state is a race)","schedules sampled, not enumerated; happens-before detection generalises over timing of the same accesses"),
"C26":("account of memory, threads, descriptors and locks (made/destroyed) after every destroy; handle cleared; NULL harmless; refused creation leaves nothing","asan, dbg; 25 kinds in random order","-"),
}
L=["| id | oracle | where it is run | bounds | quick / thorough |","|---|---|---|---|---|"]
for k in sorted(jobs.PROPS):
    q=sum(j['n'][0] for j in jobs.PROPS[k]['jobs']); t=sum(j['n'][1] for j in jobs.PROPS[k]['jobs'])
    L.append("| %s | %s | %s | %s | %d / %d |"%((k,)+O[k]+(q,t)))
def put(d,a,b,lines):
    i=d.index(a); j=d.index(b,i); i=d.index("\n",i)+1
    return d[:i]+"\n".join(lines)+"\n"+d[j:]
P="/verif/DESIGN.md"; d=open(P).read()
d=put(d,"<!-- table 2","<!-- end table 2",L)
import os
if os.path.exists("/verif/tools/seed_results.txt"):
    S=["| planted bug | property | key under which the quick check reports it |","|---|---|---|"]
    for l in open("/verif/tools/seed_results.txt"):
        x=l.split()
        if len(x)>=3: S.append("| %s | %s | %s |"%(x[0],x[1]," ".join(x[2:])))
    d=put(d,"<!-- seeds","<!-- end seeds",S)
open(P,"w").write(d)
