# Notes on the oracle of each property for DESIGN.md (gen.py)
MORE = {
"C01": "per-key histories of calls with their intervals are given to a Wing-Gong style search (harness/lin.h); scans are judged by stability: a key present throughout must be returned once and in order, one absent throughout must not; freed nodes are poisoned by ASan. TSan decides whether an access is unordered.",
"C02": "std::map with the same operations; structure check after every operation (order, parent links, stored balance against real heights).",
"C03": "the set of added keys; false-positive share against the theoretical one with a margin of many standard deviations; bitmaps against a std::vector<bool>.",
"C04": "a bit-at-a-time CRC-32 written from the polynomial, over all splits, alignments and lengths.",
"C05": "the list of values put; after a refused read every later read must still be bounded.",
"C06": "std::string twins of every buffer; ASan for ownership.",
"F01": "a plain std::string per file; monitor of alignment and size of every system call with O_DIRECT; power-loss image after fsync must hold what fsync covered.",
"F02": "a plain std::string per file with short, interrupted and failing system calls injected below.",
"F03": "the last successfully backed-up content; crash images between its steps.",
"C07": "every task counts its executions and time stamps; lateness is judged relative to how late the machine itself was (a control thread).",
"C08": "event counting; a waiter that is asleep after the notification although its time-out is far is a lost wake-up.",
"C09": "execution counters, overlap flags and life-time flags inside the worker bodies; a missed invocation is one that was not executed after a generous bound, twice, alone.",
"C10": "set of unique messages against all log files (including rotated and compressed ones) after stop.",
"C11": "independent MurmurHash3 reference and published vectors.",
"C12": "exact list of samples: counts, sums, extremes, percentile bounds.",
"C13": "object life-time counters, ASan, TSan.",
"D01": "multi-version reference map (harness/dbx.h): every version of every key with its sequence number; lookups by key, full-record lookups, lookups on snapshots; each write's sequence number must exceed all before.",
"D02": "the reference map restricted to the range; random walks (next, prev, seek to smaller and greater, ends) compared position by position.",
"D03": "the list of all versions by sequence number: order, each record as written, latest of every key in range, and completeness for what is not flushed yet.",
"D04": "the reference map as of the snapshot's or checkpoint's sequence number, compared at every later moment until it is closed.",
"D05": "the image of the directory as the crash leaves it is opened; the recovered last sequence number s must lie between what had been made durable and what had been issued, and every query must equal the reference map cut at s. Writing then continues on the image, so a run has up to 15 crashes, some during recovery itself.",
"D06": "a writer owns its keys, so a scan or snapshot must show, for every writer, a prefix of its operations; a prefix that ends inside a batch is a torn batch. Sequence numbers learned from reads must be consecutive in a batch. For global batches prefixes of both databases must agree with real time. After a crash the recovered number must be an end of a write or batch.",
"D07": "the same offline checker with single writes: for a lookup the shown operation must not be older than the last one completed (or shown by a read that ended) before it began, nor begun after it ended; a scan must be a consistent cut: prefix per writer, and if it shows an operation it shows everything that returned before that one was invoked; the exact sequence number of a snapshot must separate shown from not shown.",
"D08": "as D01 to D04, with full comparison of the database before and after every maintenance operation.",
"D10": "nearest and prefix results computed from the reference map; the callback's stop answer must end the search.",
}
