"""Every property: its text (properties.jsonl), how it is decided (MANIFEST.json) and the runs that
decide it (check.py). `python3 gen.py` rewrites the two files from here.

jobs: (sanitizer build, harness, processes, quick arguments, thorough arguments)
need: what the monitors must at least have observed for an answer
eval: the counters that are evaluations"""

CHECKS = {}


def P(pid, **kw):
    kw.setdefault("level", "exploration")
    CHECKS[pid] = kw


FS_NOTE = ("File system calls are intercepted at link time; the power-loss model keeps, per file, what the last sync covered "
           "plus any subset of later writes, and drops unsynced directory changes only where a property says so.")
SAN_NOTE = "Trusts the sanitizers (no intra-object overflow, no reused freed memory beyond the quarantine) and the oracle in the harness."

P("C01",
  title="The concurrent ordered index behaves like one sorted map",
  statement="Any number of threads may insert, look up, scan and erase in one ordered index at the same time: every operation takes effect "
            "atomically at some moment between its call and its return, so lookups, neighbour searches and successful or refused inserts and erases "
            "agree with one sequential sorted map. A key that is present during a whole scan is returned by it exactly once, in order, and one that is absent throughout is not. "
            "No operation touches memory of an entry that its owner was allowed to free.",
  over=["schedules", "programs", "inputs"],
  over_text="All interleavings of insert, insert-if-absent, find, find-greater/smaller-or-equal, next/prev, begin/end and erase by up to 8 threads, all key orders, fan-outs and layer limits up to the default.",
  why="No test in the repository drives the index concurrently; it is only reached through database tests that do not run here, with a handful of keys.",
  files=["src/skiplist.cc", "src/skiplist.h"],
  mech=[("per-node write locks taken from the bottom up, and reference counts that hold back reuse", "src/skiplist.cc"),
        ("duplicate check repeated after locking", "src/skiplist.cc: skiplist_insert_nodup()")],
  observe=["calls and returns of every operation", "keys seen by each scan", "frees of erased entries (sanitizer)"],
  jobs=[("asan", "skl", 6, "seq=400 conc=300", "seq=2000 conc=3000"), ("asan", "skl", 2, "seq=0 conc=60 ops=600", "seq=0 conc=600 ops=1200"),
        ("tsan", "skl", 6, "seq=20 conc=200", "seq=100 conc=2000")],
  eval=["conc_runs", "scans"],
  need={"histories_decided": 3000, "overlapping_pairs": 3000, "conc_scans": 5000, "conc_runs": 500},
  rule="Random programs over few keys by 1 to 8 threads with schedule noise at basic blocks; per-key histories go through a linearizability checker, scans through a stability check; "
       "a state is a distinct sequential trace or concurrent history with overlapping operations.",
  technique="linearizability checking of recorded histories, scan-stability monitor, ASan/UBSan and TSan builds",
  note="Held on the executions run (thousands of histories with real overlap); not exhaustive over schedules. " + SAN_NOTE)

P("C02",
  title="The balanced tree stays a balanced search tree and a correct sorted map",
  statement="After any sequence of inserts and removals the tree holds exactly the entries that a sorted map with the same operations holds, finds them and their neighbours, and walks them in order both ways. "
            "It stays balanced: the heights of the two subtrees of every node differ by at most one, so searches take logarithmically many comparisons.",
  over=["programs", "inputs"],
  over_text="All operation sequences and key orders; exhaustively all insertion orders of up to 7 keys with removals, and long random sequences with adversarial orders.",
  why="The tree has no test of its own, and database tests that use it through iterators do not run here.",
  files=["src/avltree.cc", "src/avltree.h"],
  mech=[("rotations driven by stored balance factors", "src/avltree.cc")],
  observe=["results of every call", "parent, child and balance links after every step"],
  jobs=[("asan", "avl", 6, "runs=800 exh=6", "runs=6000 exh=7")],
  eval=["runs", "exhaustive_runs"], need={"inserts": 100000, "removes": 100000, "searches": 100000},
  rule="All insertion orders of small key sets with every removal order prefix, plus random sequences (ascending, descending, zigzag, random keys); a state is a distinct tree shape with keys.",
  technique="reference-model monitor and structural invariant checked after every operation, ASan/UBSan build",
  note="Exhaustive for insertion orders of up to 6 keys (7 thorough); sampled beyond. " + SAN_NOTE)

P("C03",
  title="Bloom filters and bitmaps never lose a set member",
  statement="A key that was added to a bloom filter is always reported as possibly present, also by a filter that was exported and imported, whichever threads added it; the share of wrong positives stays near what its size and number of hashes promise. "
            "A bitmap returns for every position exactly the last value set, changes no other position and touches no memory outside, and concurrent settings of different positions are all kept.",
  over=["inputs", "schedules", "configurations"],
  over_text="All key sets, filter sizes and hash counts, hash-based and key-based calls, bitmap sizes and positions including the last partial word, concurrent setters.",
  why="There is no test of either; a lost member would show only as a key that a later lookup cannot find.",
  files=["src/bloomfilter.cc", "src/bloomfilter.h", "src/generic_bitmap.h"],
  mech=[("the same hash pair and index formula in add and check", "src/bloomfilter.cc"), ("partitioned locks per bitmap word", "src/generic_bitmap.h")],
  observe=["answers for every added key", "all bits after every change"],
  jobs=[("asan", "bloom", 4, "runs=300 conc=60", "runs=3000 conc=600"), ("tsan", "bloom", 3, "runs=20 conc=60", "runs=100 conc=600")],
  eval=["filters", "bitmap_ops"], need={"member_checks": 100000, "rate_checks": 50, "concurrent_runs": 100},
  rule="Random sizes, hash counts and keys (all lengths, shared prefixes), export/import at random points; a state is a distinct filter or bitmap content.",
  technique="reference-model monitor, statistical bound on false positives, ASan/UBSan and TSan builds",
  note="The false-positive bound is a wide statistical one (several standard deviations). " + SAN_NOTE)

P("C04",
  title="Checksums are CRC-32 with the documented polynomial, in every variant",
  statement="Every checksum routine returns for every buffer, length, alignment and start value the same number as the bitwise definition of its CRC, and checksumming in pieces gives the same as in one go. "
            "Hence any change of one to three bits or of up to 32 neighbouring bits within a buffer changes the checksum.",
  over=["inputs"],
  over_text="All buffers, lengths from zero to many kilobytes, alignments, initial values and ways to cut a buffer into pieces.",
  why="The one test checks a single string.",
  files=["src/crc32.cc", "src/crc32.h"],
  mech=[("slicing tables and the tail loop", "src/crc32.cc")],
  observe=["returned checksums", "memory accesses around exactly sized buffers (sanitizer)"],
  jobs=[("asan", "crc", 4, "reps=3 big=300", "reps=30 big=5000")],
  eval=["buffers", "error_patterns"], need={"buffers": 10000, "error_patterns": 10000},
  rule="Buffers of every length up to 600 bytes and random longer ones at every alignment, with error patterns applied; a state is a distinct (length, alignment, checksum).",
  technique="differential monitor against the bitwise definition, ASan/UBSan build",
  note="Every length up to 600 and alignment 0..15 are covered, contents are sampled. " + SAN_NOTE)

P("C05",
  title="Serialized records and numbers read back as written, within bounds",
  statement="Whatever sequence of integers and byte strings is written through a serializer, to a fixed or growing buffer or to a file, reading the same sequence returns the same values, in the documented big-endian form. "
            "Reading past the end, or a stream whose lengths do not fit, returns an error and never reads or writes outside the buffer or freezes later reads.",
  over=["inputs", "programs", "fault_sequences"],
  over_text="All sequences of 8- to 64-bit integers and byte strings, repositioning, truncation at every byte, arbitrary bytes as input, and failing file calls.",
  why="Tests write and read one fixed sequence; truncated or arbitrary input never occurs in them.",
  files=["src/internal_helper.cc", "src/internal_helper.h", "src/endian_encode.h"],
  mech=[("bounds check before every read, growth before every write", "src/internal_helper.cc"), ("byte-order helpers", "src/endian_encode.h")],
  observe=["values and statuses of every call", "bytes of the stream", "memory accesses (sanitizer)"],
  jobs=[("asan", "ser", 5, "runs=1500", "runs=15000")],
  eval=["streams", "arbitrary_reads"], need={"gets": 100000, "truncated_reads": 5000, "arbitrary_reads": 3000, "file_runs": 500},
  rule="Random typed sequences, read back whole, truncated and from arbitrary bytes; a state is a distinct stream.",
  technique="round-trip and bounds monitor with fault injection, ASan/UBSan build",
  note=SAN_NOTE)

P("C06",
  title="Keys, values and records own, copy, move and compare their bytes correctly",
  statement="A key, value or record buffer holds exactly the bytes it was given through any sequence of copies, moves, clones, resizes, assignments and frees; each owned allocation is freed exactly once and borrowed memory never. "
            "Comparison is a total order on bytes (shorter prefix first) that equality agrees with, and an empty buffer compares consistently.",
  over=["programs", "inputs"],
  over_text="All sequences of buffer, key-value and record operations and all byte contents, including empty and binary ones.",
  why="Tests check a few named cases each on one value.",
  files=["include/libjungle/sized_buf.h", "include/libjungle/keyvalue.h", "include/libjungle/record.h"],
  mech=[("ownership flags carried by copies and moves", "include/libjungle/sized_buf.h")],
  observe=["contents after every step", "allocations and frees (sanitizer)"],
  jobs=[("asan", "bufs", 5, "runs=3000", "runs=40000")],
  eval=["programs", "comparisons"], need={"programs": 5000, "record_checks": 100000, "comparisons": 50000},
  rule="Random programs over a set of buffers with a shadow model; a state is a distinct content and ownership combination.",
  technique="shadow-model monitor, ASan (double free, leak, use after free) and UBSan build",
  note=SAN_NOTE)

P("F01",
  title="Direct I/O files read, append, sync and truncate like plain byte files",
  statement="A file opened with direct I/O shows through reads, appends, size, truncation, flush and reopen exactly the bytes of a plain file under the same operations, for all offsets and lengths, also while other threads read what was appended before. "
            "All system calls meet the alignment rules; what a successful sync covered survives a power loss. When a call fails, the error is returned, no earlier bytes change, and the file stays usable and leaks nothing.",
  over=["programs", "inputs", "fault_sequences", "crash_points", "schedules"],
  over_text="All sequences of operations, sizes around the block and buffer limits, short and failing system calls, power loss after any sync, one writer with concurrent readers.",
  why="Tests write and read a few fixed sizes on a file system where nothing fails and power is never lost.",
  files=["src/fileops_directio.cc", "src/fileops_directio.h", "src/fileops_base.h"],
  mech=[("aligned tail buffer and padded last block", "src/fileops_directio.cc"), ("aligned per-thread read buffer", "src/fileops_directio.cc")],
  observe=["bytes, sizes and statuses", "system calls with their alignment", "power-loss image of the file after each sync"],
  level="fault_enumeration",
  jobs=[("asan", "fops", 6, "part=d runs=200", "part=d runs=2500"), ("asan", "fops", 1, "part=h runs=1", "part=h runs=1"), ("tsan", "fops", 2, "part=d runs=60", "part=d runs=400")],
  eval=["direct_ops", "preads", "flushes"], need={"direct_accesses": 20000, "sync_points": 1000, "shared_preads": 3000, "persistent_faults": 100, "huge_checks": 1},
  rule="Random operation programs against a byte-array model with sizes drawn around block boundaries and faults on any call; a state is a distinct file state.",
  technique="reference-model monitor with fault injection and power-loss images, ASan/UBSan and TSan builds",
  note="O_DIRECT itself is stripped in the sandbox and its alignment rules enforced by the monitor. " + FS_NOTE)

P("F02",
  title="POSIX files keep every byte through short, interrupted and failing calls",
  statement="Reads, writes, appends, truncation, size, rename, removal and existence checks behave as on a byte array for all offsets and lengths, although the system may transfer fewer bytes than asked for or interrupt a call. "
            "When the system reports an error the caller gets one, never success with missing or wrong bytes, and no descriptor leaks. What a successful sync covered survives a power loss.",
  over=["programs", "inputs", "fault_sequences", "crash_points"],
  over_text="All operation sequences, offsets and sizes, short transfers, interruptions and errors at any system call, power loss after any sync.",
  why="Tests run single operations on a file system where calls neither fall short nor fail.",
  files=["src/fileops_posix.cc", "src/fileops_posix.h", "src/fileops_base.h"],
  mech=[("retry loops around read and write", "src/fileops_posix.cc"), ("status for every failed call", "src/fileops_posix.cc")],
  observe=["bytes, sizes and statuses", "system calls and injected results", "power-loss image after each sync", "open descriptors"],
  level="fault_enumeration",
  jobs=[("asan", "fops", 7, "part=p runs=250", "part=p runs=3000")],
  eval=["posix_ops"], need={"posix_ops": 20000, "persistent_faults": 500, "transient_faults": 1000, "sync_points": 1000},
  rule="Random operation programs against a byte-array model with transient and persistent faults on any call; a state is a distinct file state.",
  technique="reference-model monitor with fault injection and power-loss images, ASan/UBSan build",
  note=FS_NOTE)

P("F03",
  title="Metadata backups restore exactly what was last backed up, or report failure",
  statement="After a backup reports success, restoring reproduces exactly the content that was backed up, for full and incremental backups of growing and shrinking content and after the backup file was lost in between. "
            "When any file operation within a backup or restore fails, it reports failure, and descriptors and memory are released.",
  over=["programs", "inputs", "fault_sequences", "crash_points"],
  over_text="All sequences of content changes, full and incremental backups, restores and lost files; a failure of any one file call; power loss after synced backups.",
  why="No test calls it; the database tests that would do not run here and inject no failures.",
  files=["src/internal_helper.cc", "src/internal_helper.h"],
  mech=[("write the changed part, cut to length, sync", "src/internal_helper.cc: BackupRestore")],
  observe=["bytes of backup and restored file", "statuses", "system calls and injected results"],
  level="fault_enumeration",
  jobs=[("asan", "fops", 6, "part=b runs=250", "part=b runs=3000")],
  eval=["backups", "restores"], need={"backups": 5000, "restores": 1000, "backup_faults": 400},
  rule="Random sequences of backup kinds and content changes with one injected fault at a random call; a state is a distinct backup content.",
  technique="reference-model monitor with fault injection and power-loss images, ASan/UBSan build",
  note=FS_NOTE)

P("C07",
  title="The thread pool runs every accepted task once, on time, and shuts down cleanly",
  statement="Every task handed to the pool runs exactly once unless it was cancelled before it started, a successful cancel means it never runs, and a timer task runs not before its delay and promptly after it. "
            "At most the configured number of tasks run at a time, and shutdown waits for running tasks, runs nothing afterwards, and neither loses accepted immediate tasks silently nor leaves threads or memory behind.",
  over=["schedules", "programs"],
  over_text="All interleavings of task submission, cancellation, reset, completion and shutdown from several threads, pool sizes from zero up, delays from zero up.",
  why="The pool has no test here; orderings of submit, wake, cancel and shutdown depend on the schedule.",
  files=["src/simple_thread_pool.h"],
  mech=[("idle and busy worker lists, per-worker assigned task", "src/simple_thread_pool.h"), ("timer task list scanned by one loop thread", "src/simple_thread_pool.h")],
  observe=["start and end of every task with time", "results of cancel", "frees (sanitizer)"],
  jobs=[("asan", "pool", 4, "runs=120", "runs=1500"), ("tsan", "pool", 4, "runs=100", "runs=1000")],
  eval=["pool_runs"], need={"tasks": 10000, "cancelled": 1000, "executed": 5000, "timely": 1000},
  rule="Random submit/cancel/shutdown programs by several threads with schedule noise; a state is a distinct summary of pool size, tasks run, cancelled and dropped.",
  technique="exactly-once and timing monitor over task events, ASan/UBSan and TSan builds",
  note="'Promptly' is checked against generous bounds and only counts when it repeats, so that a loaded machine raises no alarm. " + SAN_NOTE)

P("C08",
  title="A waiter on an event is never left asleep after the event was fired",
  statement="If an event is fired after its last reset, every wait that begins or continues afterwards returns without waiting for its timeout, whatever the order of wait, fire and reset in different threads; a timed wait without an event returns after its timeout and not much before. "
            "Data written before firing is visible to the woken thread.",
  over=["schedules"],
  over_text="All interleavings of waits, timed waits, fires and resets by several threads.",
  why="No test covers it; a lost wake-up needs the fire to fall between the check and the sleep.",
  files=["src/event_awaiter.h"],
  mech=[("state change before taking the lock to notify", "src/event_awaiter.h")],
  observe=["sequence numbers handed over", "progress of each waiter"],
  jobs=[("asan", "await", 4, "runs=300", "runs=4000"), ("tsan", "await", 4, "runs=300", "runs=3000")],
  eval=["handovers", "one_shots"], need={"handovers": 50000, "one_shots": 20000, "timed_waits": 30},
  rule="Ping-pong, many-waiter and one-shot patterns with schedule noise; a state is a distinct pattern outcome.",
  technique="bounded-progress monitor (a lost wake-up stalls a hand-over that nothing else repairs), ASan and TSan builds",
  note=SAN_NOTE)

P("C09",
  title="Background workers never miss an invocation, overlap, or outlive their manager",
  statement="Each time a running worker is invoked, a round of its work starts afterwards without waiting for its sleep period, as does the next round when a round asked not to sleep; one worker never runs two rounds at a time, runs none while stopped, and runs by itself every sleep period. "
            "New settings reach every worker between rounds, the latest last. Destroying a worker or the manager wakes it, waits for the round in progress, and always ends.",
  over=["schedules", "configurations"],
  over_text="All interleavings of invoke, run, stop, settings change and destruction with the workers' loops;",
  why="Only reached through the flusher and compactor, whose tests do not run here.",
  files=["src/worker_mgr.cc", "src/worker_mgr.h", "src/event_awaiter.h"],
  mech=[("status word changed by compare-and-swap around each round", "src/worker_mgr.cc"), ("event reset right after waking", "src/worker_mgr.cc")],
  observe=["start and end of each round", "invocation stamps seen by rounds", "settings applied"],
  jobs=[("asan", "wrk", 4, "runs=60", "runs=800"), ("tsan", "wrk", 3, "runs=40", "runs=400")],
  eval=["runs"], need={"invocations": 10000, "invocations_followed": 4000, "works": 5000, "periodic": 30},
  rule="Random invocations, stops and settings by several threads on up to five workers that sleep a minute on their own, with schedule noise; a state is a distinct (workers, rounds) outcome.",
  technique="bounded-progress and mutual-exclusion monitor over worker rounds, ASan/UBSan and TSan builds",
  note=SAN_NOTE)

P("C10",
  title="Every accepted log message reaches the log files exactly once and unchanged",
  statement="A message at or below the log level is in the log files exactly once, whole, on its own line with its level and source, after the logger stopped, whatever the size of its buffer, the number of writing and flushing threads, file rotations, compressions and restarts; messages above the level leave nothing, and one thread's messages are in its order unless a flush runs at the same time. "
            "Old files beyond the limit are removed oldest first, others stay. Callbacks see each message once, within its bounds, and can veto it.",
  over=["schedules", "inputs", "configurations", "histories"],
  over_text="All interleavings of writers, explicit and periodic flushes, rotation and stop; buffer sizes from one element up; message lengths; several sessions on the same files.",
  why="No test checks the content of log files.",
  files=["src/logger.cc", "src/logger.h"],
  mech=[("ring of elements with a state each, flushed in order", "src/logger.cc"), ("rotation and compression queue", "src/logger.cc")],
  observe=["lines of all log files and archives", "callback invocations"],
  jobs=[("asan", "logr", 5, "runs=50", "runs=500"), ("tsan", "logr", 3, "runs=40", "runs=400")],
  eval=["runs"], need={"messages": 50000, "lines": 20000, "archives": 300, "callbacks": 3000, "retention_runs": 5},
  rule="Random sessions of up to 8 writers with unique messages, tiny rings and file limits, with schedule noise; a state is a distinct order of messages in the files.",
  technique="exactly-once monitor over the log files, ASan/UBSan and TSan builds",
  note="Messages longer than 3.5 KB may be cut and are only checked for memory safety and their beginning. Order is claimed for one thread without a concurrent flush only. " + SAN_NOTE)

P("C11",
  title="Key placement hashes are MurmurHash3, and helpers keep their definitions",
  statement="The hashes that place keys in partitions and filters equal the published MurmurHash3 functions for every key and length, depend on exactly the configured part of the key, and never read outside it. "
            "The prime, hexadecimal, text, formatting, weighted-choice, in-memory encoding, directory, rate-limiting and level-size helpers compute what they are documented to for every input.",
  over=["inputs", "schedules"],
  over_text="All keys, lengths, seeds and custom hash lengths; all arguments of the helpers; concurrent use of the rate limiter.",
  why="Stored data depends on the hashes staying the same; no test compares them with the definition.",
  files=["src/murmurhash3.cc", "src/internal_helper.h", "src/internal_helper.cc", "src/db_config.cc"],
  mech=[("hash functions", "src/murmurhash3.cc"), ("choice of the bytes to hash", "src/internal_helper.h: get_data_to_hash()")],
  observe=["returned values", "memory accesses around exactly sized keys (sanitizer)"],
  jobs=[("asan", "misc", 5, "runs=3000 reps=4", "runs=60000 reps=60"), ("tsan", "misc", 1, "runs=300 reps=4", "runs=300 reps=20"),
        ("asan", "wrk", 1, "runs=0", "runs=0 reps=20")],
  eval=["hashes", "helper_cases", "size_checks"], need={"size_checks": 1000, "hashes": 20000, "helper_cases": 20000},
  rule="Every length up to 200 bytes and random longer keys; random arguments for the helpers; a state is a distinct hash value.",
  technique="differential monitor against independent definitions, ASan/UBSan and TSan builds",
  note=SAN_NOTE)

P("C12",
  title="Latency statistics account for every recorded sample",
  statement="A histogram's total, sum, average, maximum and bucket counts are exactly those of the values added, from any number of threads, and a percentile estimate lies in the bucket of the true value; buckets cover all 64-bit values without overlap and iterate in order. "
            "The latency collector counts each measured call exactly once under its name and call path, also while names are added and statistics are dumped or merged concurrently.",
  over=["inputs", "schedules"],
  over_text="All value sets including zero and the largest, all percentiles, concurrent recording, adding of names, dumping and nested measurements.",
  why="There is no test of either.",
  files=["src/histogram.h", "src/latency_collector.h", "src/latency_dump.h"],
  mech=[("one atomic counter per power of two", "src/histogram.h"), ("copy-on-write map of names", "src/latency_collector.h")],
  observe=["counts, sums and buckets after each run", "dump text", "frees (sanitizer)"],
  jobs=[("asan", "stats", 5, "part=hc runs=120", "part=hc runs=1500"), ("tsan", "stats", 4, "part=hc runs=60", "part=hc runs=500")],
  eval=["runs"], need={"hist_adds": 20000, "latencies": 20000, "nested_runs": 100, "dumps": 100},
  rule="Random value sets of all magnitudes; several threads recording under shared and new names with schedule noise; a state is a distinct bucket or name distribution.",
  technique="conservation monitor over recorded samples, ASan/UBSan and TSan builds",
  note=SAN_NOTE)

P("C13",
  title="Shared pointers for concurrent use free their object exactly once, when unused",
  statement="Whatever copies, assignments, swaps, resets and compare-and-swaps several threads apply to shared pointers, including to one shared slot, each object is destroyed exactly once, after its last reference is gone and never while one exists, and no operation deadlocks. "
            "A compare-and-swap succeeds exactly when the slot still held the expected object.",
  over=["schedules", "programs"],
  over_text="All interleavings of copies, assignments (also to itself and crosswise), resets and compare-and-swaps by several threads.",
  why="There is no test of it; the latency collector relies on it under concurrency.",
  files=["src/ashared_ptr.h"],
  mech=[("spin lock per pointer and atomic reference count", "src/ashared_ptr.h")],
  observe=["constructions and destructions", "values read through pointers", "progress"],
  jobs=[("asan", "stats", 4, "part=s runs=300", "part=s runs=4000"), ("tsan", "stats", 4, "part=s runs=200", "part=s runs=2000")],
  eval=["sp_runs"], need={"cas_ok": 10000, "cas_failed": 3000, "sp_runs": 500},
  rule="Random pointer programs by several threads on shared slots with schedule noise; a state is a distinct outcome of swaps and destructions.",
  technique="exactly-once destruction monitor, ASan (use after free, leak) and TSan builds",
  note=SAN_NOTE)

DB_NOTE = ("Table files are kept by the ForestDB stand-in of fdbshim/, which is trusted; the real engine is not in the sandbox. " + SAN_NOTE)
DB_WHY = ("The database tests of the repository need ForestDB and do not run here; they sample a handful of fixed histories, while the guarantee is about every history of writes, "
          "flushes, compactions, splits, merges and reopenings under every configuration.")
DB_RULE = ("Random histories of ~500 steps (sets, deletes, records with meta and own sequence numbers, batches, sync, flush with and without limits, compaction of every kind, split, merge, checkpoints, reopening) "
           "on random configurations (log sizes from one record up, partitions, table sizes, bloom filters, comparators, direct I/O, compression, hash length); a state is a distinct content of the database at a full comparison.")

P("D01",
  title="A lookup returns the latest write of the key",
  statement="Looking up a key returns the value, metadata and sequence number of the last set of that key, and reports it not found if it was never written or if its last write was a deletion, "
            "whatever mixture of log files, tables and levels holds its versions. Each write gets a sequence number greater than all before, also after reopening.",
  over=["programs", "inputs", "configurations"],
  over_text="All histories of writes, maintenance and reopening by one user thread; all keys and values; all supported configurations of log, tables, partitions, filters, comparators, direct I/O and compression.",
  why=DB_WHY,
  files=["src/jungle.cc", "src/log_mgr.cc", "src/memtable.cc", "src/table_mgr.cc", "src/table_file.cc", "src/table_lookup_booster.cc"],
  mech=[("newest log file first, then levels from the top", "src/jungle.cc: DB::get()"), ("records flushed already are looked up in tables", "src/memtable.cc: getRecordByKeyInternal()"),
        ("bloom filter and lookup booster skip tables", "src/table_file.cc: get()"), ("a table per key range and level, found by its smallest key", "src/table_manifest.cc")],
  observe=["result of every get and getRecordByKey", "last sequence number after every write and reopening"],
  jobs=[("asan", "db", 8, "focus=get runs=80 ops=500", "focus=get runs=600 ops=700")],
  eval=["gets"], need={"gets": 400000, "writes": 100000, "flushes": 2000, "compact_l0": 2000, "compact_level": 400, "split": 200, "merge": 200, "reopens": 500},
  rule=DB_RULE, technique="multi-version reference model as online monitor of every lookup, ASan/UBSan build", note=DB_NOTE)

P("D02",
  title="Key iterators show exactly the live records of their range, in order",
  statement="An iterator over a key range shows each key of the range that is live at its creation exactly once, in key order, with its latest version, and no other; writes and maintenance after its creation do not change what it shows. "
            "Steps in both directions, jumps to either end and seeks to the next greater or smaller key land where a sorted map would, in any mixture.",
  over=["programs", "inputs", "configurations"],
  over_text="All histories before and during the life of an iterator, on the live database and on snapshots; all ranges and all sequences of next, prev, seek, gotoBegin and gotoEnd that stay on entries.",
  why=DB_WHY,
  files=["src/iterator.cc", "src/log_iterator.cc", "src/table_iterator.cc", "src/memtable_iterator.cc", "src/table_file.cc"],
  mech=[("merge of log and table iterators in one balanced tree, older versions skipped", "src/iterator.cc"), ("sequence number limit taken at creation", "src/log_mgr.cc: openSnapshot()")],
  observe=["what the iterator shows after every step", "status of every step"],
  jobs=[("asan", "db", 8, "focus=iter runs=80 ops=500", "focus=iter runs=600 ops=700")],
  eval=["iterator_gets"], need={"iterator_steps": 200000, "seeks": 40000, "key_iterators": 5000, "full_scans": 400, "compact_l0": 1500, "snapshots": 300},
  rule=DB_RULE + " Up to three iterators are open and move between the steps of the history.",
  technique="reference-model monitor of every iterator step, ASan/UBSan build",
  note="The position after a step beyond either end and after a seek without a target is not specified and not judged. " + DB_NOTE)

P("D03",
  title="Sequence iterators show the history of their range in order, without gaps",
  statement="An iterator over a range of sequence numbers shows only records that were really written with that number, key, value and type, in the order of numbers, and never skips the latest set of a key nor any record that is still in the log. "
            "It keeps the state at its creation, and steps, jumps and seeks in either direction never leave out a record that must appear.",
  over=["programs", "inputs", "configurations"],
  over_text="All histories before and during the life of an iterator, own and assigned sequence numbers, live database and snapshots, all ranges and step sequences.",
  why=DB_WHY,
  files=["src/iterator.cc", "src/log_iterator.cc", "src/table_iterator.cc", "src/memtable.cc"],
  mech=[("log files chosen by their range of sequence numbers", "src/log_iterator.cc"), ("sequence index of tables", "src/table_file.cc"), ("merge by sequence number", "src/iterator.cc")],
  observe=["what the iterator shows after every step", "status of every step"],
  jobs=[("asan", "db", 8, "focus=seq runs=80 ops=500", "focus=seq runs=600 ops=700")],
  eval=["seq_gets"], need={"seq_steps": 200000, "seq_seeks": 40000, "seq_iterators": 4000, "compact_l0": 1500, "snapshots": 300},
  rule=DB_RULE + " Up to three sequence iterators are open and move between the steps of the history.",
  technique="reference-model monitor of every iterator step, ASan/UBSan build",
  note="Whether overwritten records in tables still appear depends on compaction and is not judged. " + DB_NOTE)

P("D04",
  title="Snapshots and checkpoints show one fixed state",
  statement="A snapshot shows, by lookups and iterators, exactly the state of the database at its creation, or at the checkpoint it was opened for, as long as it is open, whatever is written, flushed, compacted or removed meanwhile. "
            "A checkpoint that was created is listed, up to the configured number, and every listed checkpoint can be opened, also after reopening.",
  over=["programs", "inputs", "configurations"],
  over_text="All histories before and after the opening of up to three snapshots and any number of checkpoints.",
  why=DB_WHY,
  files=["src/jungle.cc", "src/log_mgr.cc", "src/table_mgr.cc", "src/table_manifest.cc", "src/table_file.cc", "src/memtable.cc"],
  mech=[("log files and tables are kept by reference counts", "src/log_manifest.h, src/table_manifest.h"), ("list of tables and their snapshots fixed at opening", "src/table_mgr.cc: openSnapshot()"),
        ("checkpoint numbers written to logs and tables", "src/memtable.cc, src/table_file.cc")],
  observe=["every lookup and full scan on a snapshot", "list of checkpoints", "status of openSnapshot"],
  jobs=[("asan", "db", 8, "focus=snap runs=80 ops=500", "focus=snap runs=600 ops=700")],
  eval=["gets"], need={"gets": 150000, "snapshots": 1200, "checkpoint_snapshots": 300, "checkpoints": 1000, "full_scans": 3000, "compact_l0": 1500},
  rule=DB_RULE, technique="multi-version reference model as monitor of every lookup and scan on snapshots, ASan/UBSan build",
  note="One known finding (see DESIGN.md): a checkpoint taken while everything is flushed is not listed. " + DB_NOTE)

P("D08",
  title="Flush, compaction, split and merge never change what the database shows",
  statement="Whatever maintenance is called in whatever order (sync, flush with any limit, L0 and level compaction, in-place compaction, split, merge), with or without its thresholds, "
            "it leaves every lookup, scan and sequence number as before, and so does closing and opening again. It does not fail for another reason than having nothing to do.",
  over=["programs", "inputs", "configurations"],
  over_text="All sequences of maintenance calls between writes; all supported configurations.",
  why=DB_WHY,
  files=["src/table_compaction.cc", "src/table_split.cc", "src/table_file_compaction.cc", "src/table_set_batch.cc", "src/log_mgr.cc"],
  mech=[("records of the source are dealt to tables by key range", "src/table_compaction.cc"), ("new tables are added before the old one is removed", "src/table_manifest.cc"),
        ("flushed sequence number moves forward only", "src/memtable.cc, src/log_file.cc")],
  observe=["lookups of all keys and scans after maintenance", "status of every maintenance call"],
  jobs=[("asan", "db", 8, "focus=comp runs=80 ops=500", "focus=comp runs=600 ops=700")],
  eval=["gets"], need={"gets": 100000, "compact_l0": 1500, "compact_level": 300, "compact_inplace": 300, "split": 150, "merge": 150, "full_scans": 400, "reopens": 500},
  rule=DB_RULE, technique="multi-version reference model compared with full scans and lookups after maintenance, ASan/UBSan build", note=DB_NOTE)
P("D05",
  title="A process crash loses nothing that was synced, invents nothing",
  statement="After a crash of the process at any moment, the database opens and shows, through lookups, iteration and its last sequence number alike, exactly the writes up to some point in sequence order: "
            "at least everything covered by a sync, checkpoint or close that had returned, and never something that was not written. "
            "Writing continues from there, and the same holds after crashes during recovery and after any number of further crashes.",
  over=["crash points", "inputs", "programs", "configurations"],
  over_text="A crash before any file operation (open, write, truncate, fsync, unlink, rename, close) of any file during writes, syncs, flushes (not beyond the last sync), compactions, splits, merges, checkpoints, reopening and recovery; all histories and supported configurations.",
  why="A crash point is any of the thousands of file operations of a run; the tests kill the process at a few chosen places and look at the log files only.",
  files=["src/log_manifest.cc", "src/log_file.cc", "src/log_mgr.cc", "src/memtable.cc", "src/table_manifest.cc", "src/table_mgr.cc", "src/internal_helper.cc"],
  mech=[("log files are loaded up to the last complete record", "src/memtable.cc"), ("manifests are stored with checksum and backup", "src/log_manifest.cc")],
  observe=["every file operation of the database (interposed at the C library)", "the directory as a crash would leave it at random operations", "the full state recovered from each such image"],
  jobs=[("asan", "crash", 8, "runs=30 crashes=15 mode=0 workers=0", "runs=300 crashes=15 mode=0 workers=0")],
  eval=["recoveries", "gets"], need={"recoveries": 2500, "crashes_in_recovery": 300, "recovered_less_than_written": 800, "recovered_more_than_promised": 200, "gets": 50000, "crash_at_log_manifest": 200, "crash_at_table_manifest": 100, "crash_at_log_file": 400, "crash_at_table_file": 150},
  rule="VIOLATION if the database does not open from an image, loses a synced write, shows a write out of order or never issued, if lookups, scan and last sequence number disagree, or if a sanitizer reports an error",
  technique="crash injection at interposed file operations, recovery from the image compared with a multi-version reference model, ASan/UBSan build",
  note="Crashes of the process (what was written to files stays); loss of unsynced data with the machine is not covered, see DESIGN.md. Single-threaded use of the database. " + DB_NOTE)
P("D06",
  title="A batch becomes visible as one, also across databases",
  statement="The records of a batch get consecutive sequence numbers and become visible to point queries made later, iterators and snapshots all at once; a global batch does so in all its databases at once. "
            "No scan, snapshot or sequence-number range ever shows a part of a batch, at any moment of its execution and of a flush or compaction that moves it. "
            "After a crash of the process, recovery keeps all of a batch or nothing of it.",
  over=["schedules", "programs", "inputs", "configurations", "crash points"],
  over_text="All interleavings of batches and global batches with iterators, snapshots, single writes, syncs, flushes, compactions, splits and merges, with or without background workers; a process crash at any file operation.",
  why="A batch is written record by record behind a barrier; a reader or a flush that comes in between must stop at it. Tests look at a batch after it has finished.",
  files=["src/log_mgr.cc", "src/log_mgr.h", "src/global_batch.cc", "src/jungle.cc", "src/log_iterator.cc", "src/iterator.cc", "src/memtable.cc"],
  mech=[("readers stop at the visible-sequence barrier set for the time of the batch", "src/log_mgr.cc"), ("global batches lock all databases and release their barriers at once", "src/global_batch.cc")],
  observe=["every write, batch and answer with its real-time interval, sequence numbers and the complete content of scans and snapshots", "the state recovered from directory images taken at file operations"],
  jobs=[("asan", "conc", 4, "runs=40 batch=1 glob=1 itr=1 snap=1 chk=0 workers=0", "runs=600 batch=1 glob=1 itr=1 snap=1 chk=0 workers=0"),
        ("asan", "conc", 4, "runs=40 batch=1 glob=1 itr=1 snap=1 chk=0 workers=1", "runs=600 batch=1 glob=1 itr=1 snap=1 chk=0 workers=1"),
        ("asan", "crash", 2, "runs=30 crashes=15 mode=0 workers=0 torn=1", "runs=400 crashes=15 mode=0 workers=0 torn=1"),
        ("asan", "crash", 4, "runs=60 crashes=15 mode=0 workers=0 torn=1 dio=1", "runs=400 crashes=15 mode=0 workers=0 torn=1 dio=1")],
  eval=["cuts_checked", "recoveries"], need={"batches": 8000, "global_batches": 2500, "scans": 8000, "snapshots": 4000, "cuts_checked": 16000, "sequence_scans": 1500, "did_flush": 1500, "did_compactL0": 1000, "recoveries": 1000},
  rule="VIOLATION if a scan, snapshot or sequence-number range shows some records of a batch without the others, if the batch's numbers are not consecutive or out of real-time order, if databases disagree about a global batch, if recovery stops inside a batch, or if a sanitizer reports an error",
  technique="offline checking of recorded concurrent histories against an atomic multi-version map with real-time order, crash injection at interposed file operations, ASan/UBSan build with schedule noise",
  note="Checkpoints taken concurrently are not part of it, see DESIGN.md. " + DB_NOTE)
P("D07",
  title="Concurrent use behaves like an atomic multi-version map",
  statement="Whatever other clients and background work do, a lookup shows the latest write of its key that had completed when it began, or a concurrent one, and later lookups never go back. "
            "An iterator or snapshot shows one consistent state, with all writes completed before it was opened, unchanged for as long as it is open; sequence numbers are unique and follow real time. "
            "Syncs, flushes, compactions, splits, merges and worker threads, in any combination and number, change no answer, hang nothing, and no memory is accessed after it is freed or leaked.",
  over=["schedules", "programs", "inputs", "configurations"],
  over_text="All interleavings of up to 4 writers, up to 4 readers, up to 3 threads doing sync, flush and compaction, and the background workers, over one or two databases.",
  why="Records move from memory to log to L0 to deeper levels while they are being read; every hand-over is a window that a test hits by luck only.",
  files=["src/jungle.cc", "src/log_mgr.cc", "src/log_manifest.cc", "src/log_file.cc", "src/memtable.cc", "src/table_mgr.cc", "src/table_manifest.cc", "src/table_manifest.h", "src/table_compaction.cc", "src/table_split.cc", "src/table_helper.cc", "src/iterator.cc", "src/flusher.cc", "src/compactor.cc"],
  mech=[("log files and tables are kept by reference counts while somebody reads them", "src/log_manifest.h"), ("snapshots and iterators take tables and logs as of one moment", "src/jungle.cc")],
  observe=["every write and answer with its real-time interval and sequence numbers", "the complete content of scans and snapshots, each read twice", "the final state, before and after reopening"],
  jobs=[("asan", "conc", 4, "runs=70 batch=0 glob=0 itr=1 snap=1 chk=0 workers=0", "runs=800 batch=0 glob=0 itr=1 snap=1 chk=0 workers=0"),
        ("asan", "conc", 4, "runs=70 batch=0 glob=0 itr=1 snap=1 chk=0 workers=1", "runs=800 batch=0 glob=0 itr=1 snap=1 chk=0 workers=1")],
  eval=["reads_checked", "cuts_checked"], need={"writes": 60000, "reads_checked": 100000, "cuts_checked": 25000, "scans": 12000, "snapshots": 6000, "sequence_scans": 2000, "did_flush": 2500, "did_compactL0": 1500, "did_compactLevel": 500, "did_compactInplace": 250, "did_split/merge": 100, "did_sync": 1000, "final_keys": 10000},
  rule="VIOLATION if the recorded history is not that of an atomic multi-version map in real-time order, if the final state differs from it, if no operation finishes for 120 s, or if a sanitizer (memory, undefined behaviour, leak) reports an error",
  technique="offline linearizability and snapshot-consistency checking of recorded concurrent histories, ASan/UBSan/LSan build with schedule noise",
  note="Checkpoints taken concurrently are not part of it, see DESIGN.md. " + DB_NOTE)
P("D10",
  title="Nearest-key and prefix searches find the right record, stop when told",
  statement="getNearestRecordByKey returns the current record of a key on the asked side such that no live key lies nearer, and reports not found only when there is no live key on that side. "
            "getRecordsByPrefix delivers every live key with the prefix, for each key its latest record first, nothing outside the prefix or newer than a snapshot, and stops when the callback says so. "
            "Both hold for the live database and for snapshots.",
  over=["inputs", "programs", "configurations"],
  over_text="All keys and prefixes, including absent ones and ones at table and partition borders; all histories of writes and maintenance; all supported configurations and key orders (prefix: byte order).",
  why=DB_WHY,
  files=["src/memtable.cc", "src/log_mgr.cc", "src/table_mgr.cc", "src/table_manifest.cc", "src/table_file.cc"],
  mech=[("nearest candidates of logs and tables are merged", "src/jungle.cc"), ("tables of a level are searched outward from the key", "src/table_mgr.cc")],
  observe=["each nearest search in all four directions against the model", "everything a prefix search delivers and whether it stops"],
  jobs=[("asan", "db", 8, "focus=near runs=80 ops=500", "focus=near runs=600 ops=700")],
  eval=["nearest", "prefix_searches"], need={"nearest": 50000, "nearest_live": 20000, "prefix_searches": 10000, "prefix_records": 10000, "snapshots": 200, "compact_l0": 1500, "split": 100},
  rule=DB_RULE, technique="multi-version reference model compared with nearest-key and prefix searches, ASan/UBSan build", note=DB_NOTE)
NOT_APPLICABLE = []
