# Source of properties.jsonl and MANIFEST.json: python3 tools/props.py
P = []
def prop(id, title, statement, over, quant, why, files, mech, technique=None, note=None, na=None, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mech=mech, technique=technique, note=note, na=na, state=state or [], observe=observe or []))

F = "database/files/"

prop("S01", "Range queries are bounded, ordered and complete",
 "A query for a metric passes to its callback exactly the values whose end time is below the requested exclusive end, newest first and each once, across every file the metric still holds, until the values run out, the callback asks to stop, or an error is returned. The callback is never called again after it asked to stop or failed, and no file holding older values is skipped because of how its neighbours are filled. Reading the latest value returns the newest stored value, or nothing only when the metric holds none.",
 ["inputs", "histories"], "every stored history of a metric whose end times are positive and below the largest representable one, spread over any number of files, and every requested end",
 "The tests read back a few fixed histories in one or two files; which files, slots and ranges combine is unbounded.",
 [F+"metric.go", F+"db.go"],
 [("metric read loop over files and slots", F+"metric.go"), ("latest value read", F+"metric.go")])

prop("S02", "Stored values are strictly ordered in time",
 "A value is stored only if its end time is strictly later than the end time of the newest value already stored for that metric; any other value is refused, reported as not written without an error, and leaves the stored data as it was.",
 ["inputs", "histories"], "every sequence of writes to a metric, including across file rollovers and restarts",
 "Tests write increasing or a few repeated times; the guarantee is over all sequences and positions of the newest record.",
 [F+"metric.go", F+"db.go"], [("monotonicity check before any record is written", F+"metric.go")])

prop("S03", "A reported write is complete",
 "When a write is reported as written without an error, all pieces of the value and then the file header describing it (newest position, end time, first start time, smallest end time) were stored; if storing any piece or the header failed, the failure is reported to the writer.",
 ["inputs", "fault_sequences"], "every value size, file capacity and failure position inside a write",
 "Tests do not make individual stores fail and sample only a few sizes.",
 [F+"metric.go", F+"file.go", F+"db.go"], [("record stores followed by the header store", F+"metric.go")])

prop("S04", "A crash never exposes half a value",
 "The file header that points behind a new value is stored only after every piece of that value has been stored in its own, previously free slots, so that a crash at any point between stores leaves the previously visible values intact and the new one either absent or whole. A reader reassembles a value only from an unbroken run of pieces that starts with a first piece and ends with a last piece, and never returns a partial run as a value.",
 ["crash_points", "inputs"], "every crash point between the stores of a write, for every value size",
 "Tests never interrupt a write; the order of stores on every path is what decides it.",
 [F+"metric.go", F+"record.go"], [("store order in a write", F+"metric.go"), ("reassembly of multi-piece values", F+"metric.go")])

prop("S05", "Retention keeps the newest files and only ever drops the oldest",
 "A data file that holds values is removed only when a write rolls over to a new file while the metric is at its configured number of files, and then only the oldest one; new files are only added behind the newest. A write that is refused because of its time or size removes nothing that holds values. A file's cached handle is dropped before the file itself is removed, so that no later write goes to a removed file.",
 ["histories", "inputs"], "every history of writes, value sizes and limits",
 "Tests check a single rollover with well sized values.",
 [F+"metric.go", F+"file_cache.go"], [("rollover in a write", F+"metric.go"), ("eviction before removal", F+"metric.go")])

prop("S06", "Every storage handle is released exactly once",
 "Every data file handle opened, created, taken from the handle cache or displaced from it is put back in the cache or closed exactly once on every path, failures and shutdown included, and no handle is used after it was given back. Repeated failures therefore never exhaust file mappings.",
 ["fault_sequences", "histories"], "every path through the storage code, including each early return",
 "Tests exercise success paths; a leak or double release shows only on particular failures.",
 [F+"metric.go", F+"file_cache.go", F+"cache.go", F+"file.go"], [("acquire and release around each use", F+"metric.go"), ("handle cache", F+"file_cache.go")])

prop("S07", "Callers get their own copy of stored bytes",
 "The bytes a query or latest-value read hands to its caller never share memory with a mapped data file or with a buffer the database keeps: the buffer supplied by the caller is the only memory a read reuses. Handles may be released, evicted or closed while the caller still uses the bytes.",
 ["histories", "schedules"], "every read and any later eviction, close or write",
 "Using unmapped memory crashes only when an eviction happens to follow; tests do not provoke it.",
 [F+"metric.go", F+"file.go", F+"record.go"], [("copying into the result buffer", F+"metric.go")])

prop("S08", "Queued and observed data is copied",
 "The database and the aggregation keep no reference to memory their caller may reuse: a queued value's bytes, an observed identifier, a parsed input line and the bytes or records lent to a callback are copied before the call that received them returns. Pooled buffers are not touched after they were handed back.",
 ["schedules", "histories"], "every caller that reuses its buffers after a call returns",
 "Corruption needs a caller that reuses its buffer at the right moment.",
 [F+"db.go", "data/agg.go", "data/writer.go", "listener/graphite"], [("copying on entry", F+"db.go")])

prop("S09", "Every queued value is completed exactly once",
 "For every value accepted by the database's queue operation the completion callback is called exactly once: with whether the value was written and the error of writing it once the write ran, or with a refusal when the queue is full, the caller gives up or the database shuts down first. No value is silently dropped, none is completed twice, and queueing while the database shuts down does not panic.",
 ["schedules", "histories"], "every interleaving of queueing, writing and shutting down",
 "Tests queue and drain in a fixed order; the shutdown races are schedules.",
 [F+"db.go"], [("queue, worker and drain loops", F+"db.go")])

prop("S10", "Operations on one metric never overlap",
 "At most one read or write of a given metric runs at a time; the per-metric lock is held from before the metric is opened until the operation, callbacks included, is finished, and is released on every path. Different metrics do not wait for each other through that lock, apart from sharing a pool slot.",
 ["schedules"], "every interleaving of reads and writes by workers, queries and dumps",
 "Tests run single threaded or cannot force the interleavings.",
 [F+"db.go", F+"lock_pool.go"], [("lock pool", F+"lock_pool.go"), ("locked sections of write and query", F+"db.go")])

prop("S11", "A written metric is always listed",
 "Once a value has been written for a metric, every later complete listing of metrics includes it, whatever other writes, listings or rescans run at the same time. The set of names a listing iterates is never modified while it is being iterated.",
 ["schedules", "histories"], "every interleaving of writes, listings and rescans",
 "The losing interleavings are short windows tests cannot hit on demand.",
 [F+"db.go", F+"internal/sset"], [("published and pending name sets", F+"db.go")])

prop("S12", "Metric names map to contained, reversible paths",
 "Every metric name, whatever bytes it contains, is stored in a directory inside the data directory: no component of its path is empty or special. The directory maps back to exactly that name, so that two different names never share files and a name is listed as it was written.",
 ["inputs"], "every metric name as a byte string",
 "Tests use a few names and random samples; a single escaping gap suffices to break containment.",
 [F+"convert.go"], [("path component escaping tables", F+"convert.go")])

prop("S13", "The record encoding round-trips and is checksummed",
 "What the record encoder writes is what the record decoder reads: every field is stored at the same place, with the same width and byte order, on both sides, within the declared header size. A decoder accepts a record only with a known version, a declared size that fits, and a matching checksum over all that was covered when encoding; anything else is an error.",
 ["inputs"], "every record and every byte string offered to the decoder",
 "Round-trip tests sample values, and do not cover the rejected inputs.",
 [F+"record.go", F+"file.go"], [("record encoder and decoder", F+"record.go")])

prop("S14", "Damaged files cannot crash the database",
 "Whatever bytes a data file, its header or its directory contains, opening and using it never reads or writes outside the mapping and never divides by zero: it yields an error or no value. Walks over the records of a file only look at positions that exist in it, so they come to an end.",
 ["inputs", "fault_sequences"], "every file content, size and header value",
 "Tests open well formed files; the space of damaged files is unbounded.",
 [F+"file.go", F+"metric.go", F+"record.go"], [("validation when opening", F+"file.go")])

prop("S15", "Storage errors are never swallowed",
 "An error from the operating system or the encoding layer while creating, opening, sizing, mapping, syncing, listing, reading or writing a data file reaches the caller as an error, or, for a damaged record that a query skips, the log; success is never reported as an error. Failures of closing, unmapping or removing a file are exempt, and so are names that vanish or are not directories while listing. A failure never yields a zero value presented as valid.",
 ["fault_sequences"], "every failing system call at every point",
 "Tests do not make system calls fail.",
 [F+"file.go", F+"metric.go", F+"internal/system"], [("error returns", F+"internal/system")])

prop("S16", "The handle cache stays consistent and bounded",
 "The cache never holds more handles than its capacity, its key index and its entry storage always agree, and it is used only under its lock. Storing over capacity returns exactly one displaced handle to close, and taking a handle removes it so that nobody else can get it.",
 ["histories", "schedules"], "every sequence of put, take and evict, from any number of goroutines",
 "Tests perform a short random sequence from one goroutine.",
 [F+"cache.go", F+"file_cache.go"], [("index and slot bookkeeping", F+"cache.go"), ("lock around the cache", F+"file_cache.go")])

prop("S17", "Shutting the database down loses no handle, lock or value",
 "The database runs at most once at a time; on shutdown it waits for its workers to stop before closing handles, refuses or drains values that were still queued, and leaves itself ready to accept and run again. It returns only when no worker is running any more.",
 ["schedules"], "every moment a shutdown can arrive",
 "Shutdown timing is a schedule that tests hit in one order only.",
 [F+"db.go"], [("run loop and shutdown order", F+"db.go")])

prop("D01", "Aggregating a metric is atomic",
 "The count, extremes, identifiers and distribution of a metric interval always describe the same set of observations: they are read and changed only together, in one critical section under the metric's lock that is released on every path. An observation is counted once, reaches the distribution once, and replaces the smallest or largest value together with its identifier exactly when it is the first or exceeds it.",
 ["schedules"], "every interleaving of observing, dumping and finishing",
 "Races between observing and capturing need precise timing.",
 ["data/agg.go", "data/writer.go"], [("per metric aggregation lock", "data/agg.go"), ("capture", "data/writer.go")])

prop("D02", "Exactly the finite observations are recorded",
 "A number added to a metric that is not finite never changes the recorded extremes, counts or distribution, and every finite one is recorded under exactly the metric it was added to. When no distribution can be created for an observation nothing changes and the metric stays usable.",
 ["inputs", "fault_sequences"], "every floating point value, including NaN and infinities",
 "Tests observe ordinary numbers.",
 ["data/agg.go", "listener/graphite"], [("finite check on entry", "listener/graphite")])

prop("D03", "Captured intervals abut",
 "All values of one capture end at one time taken by that capture, which is also the start of everything collected next, so that consecutive intervals of the process neither overlap nor leave gaps. However many captures run at once, collected data is visited by exactly one of them.",
 ["schedules", "histories"], "every sequence of dumps",
 "Tests make a single capture.",
 ["data/writer.go", "dump/dump.go"], [("interval bookkeeping", "data/writer.go")])

prop("D04", "A dump delivers every captured value once",
 "Each value captured in a dump is offered to the database exactly once, whole, under its own name and times, and the dump finishes only after each offered value has been completed or refused. A value that cannot be encoded is reported and does not stop the others; only cancelling the dump ends it early. The memory holding a value is not reused before that value was completed.",
 ["schedules", "inputs"], "every number of metrics and every completion order",
 "Tests dump a handful of metrics with immediate completion.",
 ["dump/dump.go"], [("dump loop", "dump/dump.go")])

prop("D05", "Merging preserves totals and extremes",
 "Merging records into one keeps the total number of observations and of merged records, each record counted once, the smallest minimum and largest maximum each with the identifier that came with it, and the earliest start and latest end of what was merged. Merging no records is an error.",
 ["inputs"], "every sequence of records",
 "Tests merge a few records.",
 ["merge/merge.go", "merge/merger.go"], [("record merge", "merge/merge.go")])

prop("D06", "Distribution kinds agree everywhere",
 "The kind written in a stored record is the kind its distribution is registered under and the one reading and resampling dispatch on, so that every record that can be written can be read, merged and drawn.",
 ["configurations"], "every distribution kind",
 "Tests use one kind per package; the agreement spans packages.",
 ["dist", "data"], [("kind names", "dist/tdigest")])

prop("D07", "Cached distribution views are refreshed after observations",
 "A query on a distribution after observing a value always reflects that observation: anything memoised is dropped by every operation that changes the distribution.",
 ["histories"], "every interleaving of observations and queries on a distribution",
 "Tests query once after observing.",
 ["dist/tdigest"], [("memo of the distribution", "dist/tdigest")])

prop("P01", "Launching stops everything when one task ends",
 "Tasks started together are all cancelled as soon as one of them ends, with or without an error, and are all waited for. The first error that one of them reports is the one returned.",
 ["schedules"], "every order in which tasks end",
 "Tests cover one ending order.",
 ["internal/junk", "run.go"], [("launcher", "internal/junk")])

prop("P02", "Shutdown dumps what was collected",
 "When the process is asked to stop, or its services end without an error, the data collected since the last periodic dump is dumped to the database before the process returns, while the database is still able to accept it, and the listeners have stopped first.",
 ["schedules"], "every moment a stop request can arrive",
 "Process level shutdown is not tested.",
 ["run.go", "dump/dump.go"], [("shutdown sequence", "run.go")])

prop("P03", "Listeners survive bad input and release connections",
 "A malformed line, or a line whose value cannot be recorded, affects nothing but itself: the connection keeps being read and its other lines are recorded, as long as no line is longer than the reader's limit. Every accepted connection is closed and waited for when the listener stops, and accept errors end the listener with an error rather than in a busy loop.",
 ["inputs", "schedules"], "every byte stream from any number of clients and every stop time",
 "Tests send a few good and bad lines on one connection.",
 ["listener/graphite"], [("connection handling", "listener/graphite")])

prop("P04", "Registries are safe and report unknown names",
 "Looking up and registering components may run concurrently and even from within a component's constructor; an unknown name or missing component yields an error that says so, never a nil component.",
 ["schedules", "inputs"], "every name and interleaving",
 "Tests look up one known name.",
 ["registry", "external"], [("registry maps and lock", "registry")])

prop("P05", "Configuration mistakes are reported",
 "Every configuration value of the wrong type, whatever its section and key, makes loading or the component's construction fail with an error; it never causes a panic and is never silently ignored or replaced by a default. A document that cannot be parsed, or that does not name exactly one database and one distribution, is refused, and a value of the right type that is in range is used as it is written.",
 ["configurations"], "every configuration document",
 "Tests load one valid configuration.",
 ["internal/typeassert", "config", "database/files/register.go", "dist/tdigest", "listener/graphite"], [("typed access with sticky errors", "internal/typeassert")])

prop("P06", "Configured numbers cannot crash the process",
 "Every number read from the configuration is checked or clamped before it is used as a size, capacity, worker count, divisor or interval, so that zero, negative and huge values give an error or a usable default, never a panic or a hang.",
 ["configurations"], "every number in every numeric setting",
 "Tests use the default configuration.",
 ["config", "database/files/register.go", "dump/dump.go", F+"db.go"], [("validation", "config")])

prop("P07", "Documented settings are the settings read",
 "Every setting of the sample configuration is one the code reads, under the same section and name, and every setting the code reads appears in the sample with a value of its type. Each setting takes effect as what it is called, in the component its section names.",
 ["configurations"], "every setting",
 "Nothing compares the sample with the code.",
 ["config", "init.go"], [("sample configuration", "config/initial.go")])

prop("P08", "Initialising never overwrites a configuration",
 "The command that writes the sample configuration fails, leaving the file as it is, whenever the target exists, even when it appears concurrently.",
 ["schedules", "histories"], "every state of the target path and every concurrent creation",
 "Not tested at all.",
 ["init.go"], [("exclusive creation", "init.go")])

prop("P09", "Failures reach the exit status",
 "Whenever a command fails for any reason the process prints the error and exits with a non-zero status, and a successful or cancelled-by-signal run exits with zero.",
 ["fault_sequences"], "every failing command",
 "Not tested at all.",
 ["main.go", "run.go"], [("main", "main.go")])

prop("P10", "Locks are released on every path and cannot deadlock",
 "Every operation that takes a lock has released it when it ends, on every path through it, errors included; it never takes a lock it already holds and never releases one it does not hold. While it holds a lock it waits for no channel and no goroutine. Locks that are held together are taken in one order, so that no two operations can wait for each other.",
 ["schedules", "fault_sequences"], "every operation of the module that locks, all of its paths, and all interleavings of such operations",
 "A lock that stays held on a rare path, or two locks taken in opposite orders, hangs the service only under a schedule the tests do not produce.",
 [F+"lock_pool.go", F+"file_cache.go", F+"db_read.go", F+"db_write.go", "registry/registry.go", "data/agg.go", "internal/junk/flag.go", "internal/junk/launcher.go"],
 [("lock pool", F+"lock_pool.go"), ("file cache", F+"file_cache.go"), ("publication of names", F+"db_read.go"), ("registry", "registry/registry.go"), ("aggregation", "data/agg.go")])

prop("P11", "Files, connections, timers and contexts are released",
 "Every file, directory, memory mapping, listener, connection, ticker, signal subscription and cancellable context the process acquires is released on every path of the operation that acquired it, failures included, unless it is handed to the caller of a successful operation, kept in a structure, or taken over by a goroutine that releases it on all of its paths. Nothing is acquired again while the one acquired before at the same place is still owed.",
 ["fault_sequences", "histories"], "every operation of the module that acquires something from the operating system or the runtime, and all of its paths",
 "A descriptor, mapping or subscription lost on a failure path shows only after the failure was repeated until a limit is reached; tests fail each call once, if at all.",
 [F+"file.go", F+"metric.go", F+"db_read.go", "dump/dump.go", "run.go", "init.go", "internal/junk/launcher.go", "internal/junk/signal.go", "internal/tmplfs/fs.go", "listener/graphite/listener.go"],
 [("data files and mappings", F+"file.go"), ("directories", F+"db_read.go"), ("server and last dump", "run.go"), ("templates", "internal/tmplfs/fs.go"), ("connections", "listener/graphite/listener.go")])

prop("H01", "Configured credentials guard every request",
 "When a username or password is configured, every API request that does not present exactly those credentials is answered with 401 and reaches neither the database nor any handler.",
 ["inputs", "configurations"], "every request and every combination of configured credentials",
 "Not tested at all.",
 ["api/server.go"], [("authentication in front of the handlers", "api/server.go")])

prop("H02", "Responses carry the status their outcome calls for",
 "Only GET requests are served; a bad request yields a 4xx status and an internal failure a 5xx status, and an error is never reported as success. The configured origin header is on every response, error responses included.",
 ["inputs", "fault_sequences"], "every request and failure",
 "Not tested at all.",
 ["api/server.go"], [("request dispatch", "api/server.go")])

prop("H03", "Request numbers cannot crash or exhaust the server",
 "Every number in a request is range checked before it is used as a size or a divisor: no request causes an integer division by zero, or a negative or unboundedly large allocation.",
 ["inputs"], "every request parameter value",
 "Not tested at all.",
 ["api/server.go", "draw", "merge"], [("parameter validation", "api")])

prop("H04", "Secrets never reach logs, responses or errors",
 "The configured API password, the TLS key setting, the text of the configuration file and the credentials a client sends are never part of a log line, an error, terminal output or a response. The API configuration is logged only as a copy in which they are overwritten.",
 ["inputs", "configurations"], "every run and request",
 "Nothing tests for absence.",
 ["api", "run.go", "config"], [("credential flow", "api")])

prop("H05", "A render shows the requested metric and window",
 "A render request reads the metric it names up to the time it names, merges every value it reads exactly once and unchanged, and stops reading only after a value that ended before the requested window, or when the picture is too small to draw anything. What is drawn or returned is what was merged. A value that cannot be decoded or merged, and a failing read, fail the request instead of being left out.",
 ["inputs", "histories", "fault_sequences"], "every request and every sequence of stored values",
 "Not tested at all.",
 ["api/server.go"], [("query callback and merge of a render", "api/server.go")])

prop("H06", "TLS is never silently downgraded",
 "When a TLS certificate or key is configured the API is served only over TLS or fails to start; plain HTTP is used only when neither is configured.",
 ["configurations", "fault_sequences"], "every TLS configuration",
 "Not tested at all.",
 ["api"], [("server start", "api")])

prop("H07", "Searches return at most the requested number of results",
 "A search response never holds more names than the request's limit and holds only names that every word of the query, taken apart at its spaces, is found to match. A matching name is never passed over while there is room for it, and the answer is given only after all stored names were offered or the limit was reached. (Which names a single word matches, the wildcard rules, is not part of this.)",
 ["inputs"], "every query, limit and set of names",
 "Not tested at all.",
 ["api/query"], [("result capping", "api/query")])

prop("H08", "Bundled pages are served as bundled, with request text escaped",
 "A bundle that fails to load in any part is refused, and opening a page changes nothing that existed before: every file opened has the info and the content of one bundled file and a position of its own, and the start page stands in only for a name that is not in the bundle. Exactly the html files are rendered, from their own content and for the request at hand; a page is handed out only if nothing failed, with the size of what was rendered. Request text reaches a page only through a template that escapes it, and no text is marked as exempt.",
 ["inputs", "schedules"], "every bundle, name, request and failing operation, any requests at the same time",
 "Not tested at all.",
 ["internal/tgzfs", "internal/tmplfs"], [("bundle", "internal/tgzfs/fs.go"), ("open files", "internal/tgzfs/file.go"), ("rendering", "internal/tmplfs/fs.go")])

# ---------------------------------------------------------------- writer
import json, os, re, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
src = "".join(open(os.path.join(root, "checker/rules", f)).read() for f in sorted(os.listdir(os.path.join(root, "checker/rules"))) if f.endswith(".go"))
built = {}
for m in re.finditer(r'ID:\s+"([A-Z]\d+)",\s+Technique:\s+"([^"]*)"', src):
    built[m.group(1)] = m.group(2)
lines, checks, na = [], [], []
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    for f in p["files"]:
        assert os.path.exists(os.path.join("/repo", f)), (p["id"], f)
    lines.append(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
        quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
        anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                     observe_at=p["observe"], hook_needed=None))))
    if p["na"]:
        assert p["id"] not in built, p["id"]
        na.append(dict(property=p["id"], reason=p["na"]))
    elif p["id"] in built:
        checks.append(dict(property=p["id"], quick_cmd="bash check.sh %s quick" % p["id"], thorough_cmd="bash check.sh %s thorough" % p["id"],
            evidence_file="evidence/%s.json" % p["id"], technique=built[p["id"]], level="other",
            level_note=p["note"] or "Sound for the rule stated in the evidence relative to the engine's assumptions (DESIGN.md); the code is never run."))
    else:
        na.append(dict(property=p["id"], reason="No check has been built for it yet."))
open(os.path.join(root, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
    notes="All checks are static: they load, type-check and analyse /repo's current source and never run it. No hooks are added to /repo."),
    open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties", len(checks), "checks", len(na), "n/a:", *[n["property"] for n in na])
