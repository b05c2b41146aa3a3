#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=hook)))

HOOK = "--cfg vsim: crate-root redirection of std to the simulator's std (threads, locks, channels, clock, files)"

p("C01", "Acknowledged points stay readable while the database runs",
  "Once a write of a point with a timestamp inside the currently accepting window is acknowledged, every later query whose labels are a non-empty subset of that series' labels and whose inclusive time range covers the timestamp returns that point with its exact value, for as long as the database process runs. This holds whatever other writers, readers and window rotations run at the same time, on every storage/indexer combination.",
  ["schedules", "histories", "configurations"],
  "all interleavings of concurrent writers, readers and the rotation threads; all histories of writes/queries; sled/TiKV for storage and indexer",
  "The tests write from one thread into one chunk and never let a window rotate; no test runs two threads or the rotation at all.",
  ["src/db.rs", "src/chunk/chunk.rs", "src/storage/sled_storage.rs", "src/storage/tikv_storage.rs", "src/indexer/sled_indexer.rs", "src/indexer/tikv_indexer.rs"],
  [("current chunk held under a read lock for the length of a write", "MonolithDb::write_time_point"),
   ("per-chunk lock around id lookup, index creation and point write", "Chunk::insert"),
   ("old chunk kept on the secondary list when a new one becomes current", "MonolithDb::swap")],
  [dict(name="current chunk / secondary chunks", meaning="every point ever acknowledged lives in exactly one of them", where="MonolithDb")],
  ["MonolithDb::write_time_point(s)", "MonolithDb::query"], HOOK)

p("C02", "Queries return only written points, each exactly once",
  "Every point a query returns was written (its write had at least begun) to exactly the series it is reported under, carries the exact timestamp and value that were written, lies in the inclusive query range and belongs to a series containing all the requested labels. No written point is reported more than once in a result and no series appears twice in it, including while a window rotation is in progress.",
  ["schedules", "histories", "configurations"],
  "all interleavings of queries with writers and with every step of a window rotation",
  "Tests never query while another thread writes or while a rotation is half done; they compare a handful of fixed results.",
  ["src/db.rs", "src/chunk/chunk.rs", "src/storage/common.rs", "src/common/label.rs"],
  [("merge of current and secondary chunks by label set", "MonolithDb::query"),
   ("hand-over of the old chunk", "MonolithDb::swap"),
   ("range trimming", "Storage::trim_time_series")],
  observe=["MonolithDb::query"], hook=HOOK)

p("C03", "Label sets identify series exactly",
  "Two writes reach the same series if and only if their label sets are equal as sets of key/value pairs, whatever order the labels are given in and whatever characters the keys and values contain; a query (of at least one label) returns exactly the series that contain every requested label, with the labels that were written. A query naming a label that no series has returns nothing.",
  ["schedules", "histories", "inputs"],
  "all histories of concurrent writes to series with overlapping, nested, permuted and adversarially spelled label sets (separators, prefixes of one another, key spellings that look like internal keys, empty values), in one window and merged across windows",
  "Tests use two or three series with plain alphanumeric labels in sorted order and never merge label sets across windows.",
  ["src/indexer/sled_indexer.rs", "src/indexer/tikv_indexer.rs", "src/common/label.rs", "src/db.rs"],
  [("label-set key, reverse-index key and metadata encoding", "KvIndexerProcessor"),
   ("set intersection of the id lists", "get_series_id_contains_labels"),
   ("merge across windows keyed by label set", "MonolithDb::query, Labels::eq/hash")],
  observe=["MonolithDb::query", "server read endpoint"], hook=HOOK)

p("C04", "Points of a series come back in ascending time order",
  "In every query result the points of each series are in ascending timestamp order, across all windows and restarts that contributed to it, also when points arrived out of order, were written by concurrent clients, or the wall clock jumped between windows.",
  ["schedules", "histories", "fault_sequences"],
  "all arrival orders within a window, all interleavings of writers, clock jumps forwards and backwards between rotations and across restarts",
  "Tests insert ascending timestamps into one chunk from one thread and never rotate or move the clock.",
  ["src/db.rs", "src/storage/common.rs", "src/storage/sled_storage.rs", "src/storage/tikv_storage.rs"],
  [("reverse append of windows newest first and final reversal", "MonolithDb::query"),
   ("secondary windows kept sorted by start time", "MonolithDb::read_existing_chunk"),
   ("per-series byte string of points", "SledStorage::write_time_point")],
  observe=["MonolithDb::query"], hook=HOOK)

p("C05", "The accepting window keeps following the clock",
  "While the database runs, windows rotate by themselves: at every moment a point stamped with the current time is accepted, except for a bounded gap around each rotation, and a rotation that fails because of a temporary error is made good within half a window length after the error is gone, one that is displaced by a clock jump within one and a half window lengths, one that is delayed by load within two. A rotated-out window accepts no further points and stays queryable.",
  ["schedules", "fault_sequences", "histories", "configurations"],
  "all schedules of the timer and rotation threads against writers and readers; temporary file, storage and backend errors during any rotation; long sequences of rotations",
  "No test ever waits for a rotation (default window is 12000 s); the rotation threads have no coverage.",
  ["src/db.rs", "src/chunk/chunk.rs"],
  [("timer thread and rotation thread", "MonolithDb::new"), ("window hand-over", "MonolithDb::swap"),
   ("window range check", "Chunk::insert")],
  observe=["MonolithDb::write_time_point", "MonolithDb::query"], hook=HOOK)

p("C06", "Acknowledged points survive a crash after the flush interval",
  "If the process is killed or the machine loses power, then after reopening the database every point that was acknowledged before the last completed flush interval (the storage engine's documented background flush, 500 ms, plus slack) is still returned by queries with its exact value and labels. Points acknowledged later may be missing, but nothing is returned that was never written, and no surviving series loses its labels or is merged with another.",
  ["crash_points", "schedules", "histories", "configurations"],
  "a crash at every step of any history of writes, queries and rotations; any legal loss of un-flushed storage and file-system state",
  "No test reopens a database, let alone after losing un-flushed state.",
  ["src/db.rs", "src/indexer/sled_indexer.rs", "src/storage/sled_storage.rs", "src/indexer/tikv_indexer.rs", "src/storage/tikv_storage.rs", "src/chunk/chunk.rs"],
  [("index is flushed when a series is created, before the first point", "SledIndexer::create_index"),
   ("storage opened with periodic flushing", "SledStorage::new"),
   ("chunk options file that carries the backend identifier", "ChunkOpts::write_config_to_dir")],
  observe=["MonolithDb::new after a crash, then MonolithDb::query"], hook=HOOK)

p("C07", "Every crash leaves a directory the database can reopen",
  "Whatever instant the process is killed or power is lost at, including during the first start, a rotation or an earlier recovery, the same directory can be opened again with the same options, accepts new points and answers queries. Only unfinished work of the moment of the crash may be missing.",
  ["crash_points", "fault_sequences", "histories"],
  "a crash at every file-system or storage step, with any legal loss, truncation or zero-filling of file contents not yet forced to disk, repeated over several crashes in a row",
  "Tests never start on a directory left behind by an interrupted run.",
  ["src/db.rs", "src/chunk/chunk.rs", "src/indexer/sled_indexer.rs", "src/storage/sled_storage.rs"],
  [("database metadata file", "MonolithDb::read_or_create_metadata"),
   ("chunk options file", "ChunkOpts::write_config_to_dir / read_config_from_dir"),
   ("scan of existing chunk directories", "MonolithDb::read_existing_chunk")],
  observe=["MonolithDb::new"], hook=HOOK)

p("C08", "Restarts keep the whole history, exactly once",
  "After any number of stops and restarts, a query over any range returns, for each series, the points written in all earlier runs together with those of the current run, merged into one series and each exactly once. This does not depend on how the wall clock moved while the database was down, nor on points having been stamped ahead of the clock within the window that accepted them.",
  ["histories", "schedules", "fault_sequences"],
  "all sequences of run/stop/restart with arbitrary clock movement (forwards, backwards, to the same millisecond) between runs, and directory listings in any order",
  "No test opens a database twice on the same directory.",
  ["src/db.rs", "src/chunk/chunk.rs", "src/common/utils.rs"],
  [("chunk directory name encodes the window", "encode_chunk_dir / decode_chunk_dir"),
   ("existing chunks loaded read-only, sorted", "MonolithDb::read_existing_chunk"),
   ("new window created at start", "MonolithDb::new")],
  observe=["MonolithDb::new", "MonolithDb::query"], hook=HOOK)

p("C09", "A directory opens only with the engines that wrote it",
  "Opening an existing database directory with a different storage or indexer type is refused with an error and changes nothing: a later open with the original types succeeds and returns all the data. This also holds when an earlier open was interrupted by a crash or a disk error, or when two opens of a fresh directory were attempted.",
  ["histories", "crash_points", "configurations", "fault_sequences"],
  "all sequences of opens with the four type combinations, crashes and disk errors in between",
  "One test calls the metadata helper three times with stub types; it never goes through opening a database, nor with a crash.",
  ["src/db.rs", "src/common/metadata.rs", "src/indexer/sled_indexer.rs", "src/storage/sled_storage.rs", "src/indexer/tikv_indexer.rs", "src/storage/tikv_storage.rs"],
  [("type names recorded in the database metadata file", "MonolithDb::read_or_create_metadata"),
   ("type names", "HasTypeName implementations")],
  observe=["MonolithDb::new"], hook=HOOK)

p("C10", "A write that could not be stored is never acknowledged",
  "When the disk or the key-value backend fails, is full or loses a reply in the middle of a write, the write is either reported as failed or its points are stored and readable; a reported success is always backed by stored data. A failed write may be retried: the retry can succeed once the fault is over, and neither the failed attempt nor the retry damages other points, other series or the labels of the series.",
  ["fault_sequences", "schedules", "histories", "configurations"],
  "an error at every storage, index or backend operation a write performs (applied or not applied), singly and in bursts, under concurrent writers",
  "Tests run against engines that never fail.",
  ["src/chunk/chunk.rs", "src/storage/sled_storage.rs", "src/storage/tikv_storage.rs", "src/indexer/sled_indexer.rs", "src/indexer/tikv_indexer.rs", "src/db.rs"],
  [("error propagation from storage and index", "Chunk::insert"),
   ("read-modify-write of a series", "write_time_point of both storages"),
   ("order of the three index records", "create_index of both indexers")],
  observe=["MonolithDb::write_time_point(s)", "MonolithDb::query"], hook=HOOK)

p("C11", "A query that could not read everything says so",
  "When the disk or the key-value backend fails while a query runs, the query either reports an error or returns the complete and correct answer; it never silently leaves out points or series, and never answers with series that lack a requested label. Once the fault is over the same query succeeds again.",
  ["fault_sequences", "schedules", "histories", "configurations"],
  "an error at every storage, index or backend operation a query performs, in any window, singly and in bursts, with concurrent writers and rotations",
  "Tests run against engines that never fail.",
  ["src/db.rs", "src/chunk/chunk.rs", "src/indexer/tikv_indexer.rs", "src/indexer/sled_indexer.rs", "src/storage/sled_storage.rs", "src/storage/tikv_storage.rs", "src/server.rs"],
  [("error handling per chunk", "MonolithDb::query"), ("error handling per label and id", "indexer lookups"),
   ("error handling per query", "MonolithServer::query")],
  observe=["MonolithDb::query", "server read endpoint"], hook=HOOK)

p("C12", "The server survives any request and any connection failure",
  "Whatever bytes arrive on a connection and however connections stall, break or close early, the server process keeps running and keeps answering other, well-formed requests correctly; a request that arrived completely gets exactly one response, and a malformed one gets an error status.",
  ["fault_sequences", "inputs", "schedules"],
  "all mixes of valid requests with truncated, corrupted, empty, oversized and mis-addressed ones; connection reset or early close at any byte, before or during the response; any number of workers",
  "The only server test is ignored and unimplemented.",
  ["src/server.rs", "src/bin/monolith-server.rs"],
  [("accept loop and worker pool", "MonolithServer::serve"), ("request decoding and response", "MonolithServer::_process")],
  observe=["HTTP responses", "server liveness"], hook=HOOK)

p("C13", "A write request is acknowledged only if all of it was stored",
  "The write endpoint answers with success only after the complete request body was received and decoded and every sample in it that falls into the accepting window was stored under exactly the labels given; from then on reads return them. A body that was truncated, corrupted or could not be fully stored gets an error status; a complete and valid one is not refused while storing works (the TiKV engine may refuse points that are not newer than the last one of their series), and samples outside the accepting window do not keep the others from being stored.",
  ["fault_sequences", "schedules", "inputs", "histories"],
  "all multi-series bodies, truncated or corrupted at any byte, or cut by the connection; storage errors in the middle of a batch; concurrent writers and rotation",
  "The only server test is ignored and unimplemented.",
  ["src/server.rs", "src/db.rs", "src/common/time_series.rs"],
  [("body read, decompression, decoding", "MonolithServer::_process"), ("batch write", "MonolithServer::write, MonolithDb::write_time_points")],
  observe=["HTTP status of the write endpoint", "read endpoint"], hook=HOOK)

p("C14", "Remote reads answer every query faithfully",
  "A successful read response holds exactly one result per query of the request, in request order, and each result equals what the database holds for that query's labels and inclusive range at some moment during the request: all acknowledged points, exact values and timestamps, exact labels, no others. If any part could not be read the response is an error status.",
  ["schedules", "histories", "fault_sequences"],
  "all read requests with one or several queries, concurrent with writers, rotation, restarts and backend errors",
  "The only server test is ignored and unimplemented.",
  ["src/server.rs", "src/db.rs", "src/common/time_series.rs", "src/common/time_point.rs", "src/common/label.rs"],
  [("query fan-out and response building", "MonolithServer::query"), ("protobuf conversion", "From impls of TimeSeries/TimePoint/Label")],
  observe=["HTTP read endpoint"], hook=HOOK)

p("C15", "Databases sharing a TiKV cluster neither mix nor lose data",
  "Any number of databases and windows stored in the same shared key-value cluster stay separate: no query of one returns points or series of another, and writes to one never change another. Every window remembers which part of the cluster holds its index and its data, so after a restart all acknowledged points are found again.",
  ["schedules", "histories", "crash_points", "fault_sequences", "configurations"],
  "several databases with equal label sets writing, rotating, crashing and restarting concurrently over one simulated cluster with latency, errors and lost replies; TiKV as storage, indexer or both",
  "TiKV code is tested only with a private in-memory map, one component and no restart.",
  ["src/backend/tikv.rs", "src/storage/tikv_storage.rs", "src/indexer/tikv_indexer.rs", "src/chunk/chunk.rs"],
  [("assignment of component identifiers per chunk", "TiKvRawBackend::init_component"),
   ("chunk identifier in the chunk options file", "ChunkOpts"),
   ("lookup on restart", "read_from_chunk of both TiKV builders")],
  observe=["MonolithDb::query", "contents of the shared cluster"], hook=HOOK + "; simulated tikv-client crate")

p("C16", "Write-ahead-log segments are complete and well formed",
  "After entries are written to a log segment and it is flushed or closed successfully, the underlying file holds the magic number followed by exactly the entries written so far, in order and in the documented encoding with matching checksums, and after a close the segment checksum of those bytes. A call that could not write everything, through short writes, interruptions or I/O errors of the file, either completes the write or returns an error; under every flush policy no entry is lost, invented or altered.",
  ["fault_sequences", "histories", "configurations"],
  "all sequences of entry writes, flushes and a close under each flush policy, with short writes, interrupted calls, full disk and errors at any write call, and a crash that leaves a prefix",
  "One test writes a single entry with the immediate policy to a file that never fails.",
  ["src/wal/segment.rs", "src/wal/mod.rs", "doc/wal.md"],
  [("segment writer, cache and checksum", "Segment"), ("entry encoding", "Entry::get_bytes")],
  observe=["bytes handed to the segment's writer"], hook="--cfg vsim: re-export of the private WAL module")

p("C17", "Label intersection is exact and terminates under any timing",
  "A lookup by one or any greater number of labels returns exactly the series that have all of them, in ascending order, and finishes, whatever the timing of the helper threads it uses and however many such lookups run at once.",
  ["schedules", "inputs"],
  "all schedules of the helper threads (delayed start, stalled, finishing in any order), label counts from none to many, several lookups in parallel",
  "The unit test compares five fixed cases under whatever timing the machine has; hangs and races between the helpers are not reachable.",
  ["src/common/utils.rs", "src/common/mod.rs"],
  [("divide and conquer over helper threads and channels", "intersect_time_series_id_vec"),
   ("ordered merge", "OrderIntersect")],
  observe=["intersect_time_series_id_vec", "queries with many labels"], hook=HOOK)

p("C18", "A window behaves like one atomic series map",
  "Concurrent inserts, queries and the closing of a single window behave as if executed one at a time: an insert is seen by every query that starts after it returned, a query sees either all or none of an insert, a new label set is given exactly one series however many writers introduce it at once, and a failure to read one series does not hide the others.",
  ["schedules", "histories"],
  "all interleavings of inserts of new and existing series with queries and close on one window",
  "Tests exercise a chunk from a single thread.",
  ["src/chunk/chunk.rs", "src/indexer/sled_indexer.rs", "src/storage/sled_storage.rs", "src/common/mod.rs"],
  [("chunk lock", "Chunk::insert / Chunk::query / Chunk::close"), ("series id generator", "IdGenerator")],
  observe=["Chunk::insert", "Chunk::query"], hook=HOOK)

p("C19", "A slow or stuck client does not block the others",
  "With N workers, as long as fewer than N clients are stalled in the middle of sending a request or are otherwise slow, requests of all other clients are answered within bounded time and independent requests are processed concurrently.",
  ["schedules", "fault_sequences", "configurations"],
  "all placements of stalls (before, within, after the body; while the response is read) over up to N-1 clients, N from 2 to 8",
  "The only server test is ignored and unimplemented.",
  ["src/server.rs"],
  [("worker pool", "MonolithServer::serve")],
  observe=["HTTP response times in simulated time"], hook=HOOK)

p("C20", "Compressed points decompress to the points compressed",
  "Compressing any sequence of points and decompressing the result yields the same timestamps and bit-identical values, and data tagged with another compression type is refused.",
  ["inputs"],
  "all sequences of timestamps and values",
  "Tests compare a few fixed sequences.",
  ["src/compaction/mod.rs", "src/compaction/gorilla.rs"],
  [("delta-of-delta and XOR coding", "GorillaCompactor"), ("decoder", "GorillaDecompactor"), ("type tag", "Compactor/Decompactor")],
  observe=["Compactor::compact_vec", "Decompactor::decompact"])

p("C21", "A server is and stays what its command line says",
  "A server started with a valid command line keeps its data below the given directory only and in the storage and indexer named (a TiKV cluster from the given configuration file, or a map in memory when there is no file or the file asks for a dry run), listens on the given port only, serves exactly the given write and read path, holds windows open for the given number of seconds from its start, and when started again with the same options on the same directory, after a kill or power loss, finds its durable data again. A command line with an invalid value (a port outside 1024 to 65535, an engine that does not exist, a number that is none, an unknown option, a configuration file that cannot be read), or with engines other than those the directory was created with, ends the process before it serves or changes anything in the directory.",
  ["configurations", "histories", "crash_points"],
  "all command lines in short, long and default forms, engine combinations, ports, paths, directories and window lengths; sequences of starts with valid and invalid command lines on one directory with kills and power losses between them",
  "Tests parse two fixed command lines into structs; no test starts the server binary, and none restarts a directory under another command line.",
  ["src/bin/monolith-server.rs", "src/common/option.rs", "src/backend/tikv.rs", "src/common/utils.rs"],
  [("server main function", "main"), ("option parsing", "DbOpts/ServerOpts::get_config"), ("TiKV configuration file", "TiKvRawBackendSingleton::from_config_file")],
  observe=["process exit", "listening ports", "HTTP responses", "files below and beside the directory", "calls to the engines"], hook=HOOK)

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
