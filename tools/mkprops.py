#!/usr/bin/env python3
# Generates properties.jsonl from the table below (kept here so that it is editable by humans).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],**({'state':state} if state else {}),hook_needed=hook)))

p("C01","Every accepted gauge sample is aggregated exactly once at every retention",
 "Every well-formed gauge sample that a running storage daemon receives is added exactly once to the bucket covering its timestamp in every retention of its counter (and of every counter its name expands to): once input is quiescent, the count, sum, sum of squares, minimum and maximum reported for every bucket equal those of the samples sent to it. This holds for any number of concurrent TCP and UDP senders, any interleaving of worker threads, and while flushes, listings, queries and other maintenance run. Only samples older than the retention's span may be left out.",
 ["schedules","inputs","histories"],
 "All interleavings of 1..N worker threads and M concurrent senders over any sample multiset (any order of timestamps within the retention), with maintenance timers, flushes and queries running at any point.",
 "Unit tests record a handful of samples from one thread; no test has two senders racing on the same new counter, or a flush/refresh/query running between two records.",
 ["daemon/StatServer.cpp","daemon/StatStore.cpp","daemon/StatCounter.cpp","lib/StatFile.cpp","lib/Bucket.cpp","daemon/EagerConnection.cpp"],
 [("per-counter strand serialises records","daemon/StatStore.cpp"),("sharded counter map with locks","daemon/StatStore.cpp openCounter"),("ring page cache and bucket update","lib/StatFile.cpp updateBucket/mapBucket")],
 ["HTTP JSON counter query","counter files after restart"])
p("C02","Event counters report the exact event rate in every retention",
 "For event counters (names starting with '*'), once the aggregation window has passed or a flush has been requested (a requested flush closes the intervals that have events so far), the total number of events that a bucket reports (rate times bucket length) equals the sum of the event values sent for the bucket's time range, in every retention. Events that arrive out of order within the still open aggregation window are counted exactly once, for every schedule.",
 ["schedules","inputs","histories"],
 "All interleavings of senders, timers and flush requests, all arrival orders of event samples inside the aggregation window.",
 "Tests feed events in order from one thread with a fake clock; late events, flush in mid-window, and purge or concurrent flush while the window is shifting are not reached.",
 ["daemon/StatCounter.cpp","daemon/StatStore.cpp"],
 [("collation window shift","daemon/StatCounter.cpp shiftCollated/fullyShiftCollated"),("forced flush","daemon/StatCounter.cpp forceFlush")],
 ["HTTP JSON counter query"])
p("C03","Queries report only data of the asked time range, never recycled ring data",
 "A counter query returns, for each bucket inside the requested range, exactly the aggregate of the samples belonging to that bucket, and nothing for buckets that received no samples: data of an earlier lap of the circular file is never reported as current, however long the counter was idle and however the clock and the sample timestamps moved. All ways of asking (single-counter query, multi-counter query, different sample limits) agree.",
 ["histories","inputs","configurations"],
 "All histories of samples with idle gaps and timestamp jumps of any length (several laps of the ring included), all query ranges, with concurrent writers.",
 "Tests wrap a ring once, in order, with a fixed layout; gaps of more than a lap, late samples around the wrap point, page-cache eviction order and query windows that straddle the wrap are not sampled.",
 ["lib/StatFile.cpp","daemon/StatCounter.cpp","daemon/RequestInFlight.cpp"],
 [("ring rotation with clearing","lib/StatFile.cpp"),("choice of retention and bucket range","daemon/StatCounter.cpp pickStatFile, select")],
 ["HTTP JSON query"])
p("C04","Data older than the flush interval survives a crash",
 "If the daemon is killed at any instant, then after a restart on the same storage every gauge sample that was received more than one flush interval (plus a small scheduling allowance) before the kill is reported exactly once, as are all counters' listings; data recorded later may be missing but only the buckets touched since the last flush may differ. The same holds across any number of crash/restart cycles.",
 ["crash_points","schedules","histories"],
 "All kill points (any instruction of any thread, before, inside or after any file operation), any number of crash/restart cycles, all workloads.",
 "No test kills the daemon in mid-write or mid-flush; tests flush explicitly and stop the process at a quiet point.",
 ["daemon/StatStore.cpp","daemon/StatCounter.cpp","lib/StatFile.cpp","lib/Mmap.cpp"],
 [("periodic sync timer flushing every counter","daemon/StatStore.cpp"),("header and page write-back","lib/StatFile.cpp flush")],
 ["HTTP JSON query after restart"])
p("C05","The store always reopens after a crash and never serves garbage",
 "After the daemon is killed at any instant, a restart on the same storage succeeds, every counter that had data before the crash accepts and reports new samples, and every bucket reported for the time before the crash is an aggregate the bucket really had at some instant before the crash (possibly older than the newest), never a mixture, a recycled lap or uninitialised data. A counter file that was being created or removed at the crash never makes another counter unavailable.",
 ["crash_points","fault_sequences","histories"],
 "All kill points including inside counter creation, page rotation and deletion; torn writes at the kill; repeated crash/restart.",
 "Tests never open a half-created, torn or partially rotated file produced by a real crash.",
 ["lib/StatFile.cpp","lib/Mmap.cpp","daemon/StatCounter.cpp","daemon/StatStore.cpp"],
 [("file creation, magic and version check on open","lib/StatFile.cpp open"),("page rotation ordering","lib/StatFile.cpp"),("scan of store at startup","daemon/StatStore.cpp loadCtr/scanDir")],
 ["HTTP JSON query after restart"])
p("C06","Storage errors stay contained and service resumes when they end",
 "While disk operations fail (no space, I/O errors, short writes, failing opens) the daemon keeps running, keeps answering queries and never corrupts counters or buckets that the failing operation did not concern; once the errors stop, new samples on existing and on new counters are recorded and flushed again without a restart. Data that could not be stored may be lost in a restart, but what has been reported once stays reported while only writing fails, a flush that reports completion meanwhile keeps its promise, and a reported bucket never contains values that were not sent to it.",
 ["fault_sequences","schedules","histories"],
 "All placements and durations of failing file operations (create, allocate, read, write, seek, rename, unlink, directory scan), with any workload.",
 "No test injects a disk error; the tests' file layer always succeeds.",
 ["lib/Mmap.cpp","lib/StatFile.cpp","daemon/StatCounter.cpp","daemon/StatStore.cpp","daemon/LoopbackCounter.cpp","daemon/main.cpp"],
 [("error propagation as exceptions to the request","lib/StatFile.cpp"),("per-thread catch and retry of the run loop","daemon/main.cpp thread_fn")],
 ["HTTP JSON query","TCP sample port"])
p("C07","An acknowledged flush is a durability barrier on a storage node",
 "When the administrative flush command of a storage daemon reports completion, everything received before the command was issued is in the files: killing the daemon at any later instant and restarting loses none of it. Every flush command is eventually answered exactly once, also when several are issued concurrently, or while counters are created and deleted.",
 ["crash_points","schedules","histories"],
 "All interleavings of records, flush commands, deletes and timers; kill at any point after the acknowledgement.",
 "Tests issue one flush at a quiet moment and then read the file of a live daemon.",
 ["daemon/AdminServer.cpp","daemon/StatStore.cpp","daemon/StatCounter.cpp","lib/StatFile.cpp"],
 [("flush walker over all counters with completion","daemon/StatStore.cpp Flusher"),("admin flush command","daemon/AdminServer.cpp")],
 ["admin port reply","HTTP JSON query after restart"])
p("C08","An agent forwards every sample to its master exactly once",
 "With a healthy connection, every gauge and event sample that an agent receives with a current timestamp is reflected exactly once at the master in the bucket it belongs to: per counter and bucket, counts, sums, minimum and maximum at the master equal those of the samples sent to the agent. This holds for any number of forwarding connections, any segmentation and delay of the network, and any schedule of agent and master threads.",
 ["schedules","inputs","histories","configurations"],
 "All interleavings of senders, forward timers and network delivery; any segmentation and delay without loss; 1..k forwarding connections.",
 "Tests send a few lines through an idle agent on a real loopback socket, with one schedule.",
 ["daemon/StatServer.cpp","daemon/Bucketizer.cpp","daemon/EagerConnection.cpp"],
 [("batching window per counter","daemon/Bucketizer.cpp"),("hand-over of batch under lock","daemon/StatServer.cpp clearForward"),("output buffer","daemon/EagerConnection.cpp")],
 ["HTTP JSON query at the master"])
p("C09","A broken agent link never duplicates or corrupts data, and always recovers",
 "Whatever the network does (refused or reset connections, stalls, partitions, master crashes), no sample is counted twice or attributed to a wrong counter, bucket or value at the master; at most the data in flight or buffered beyond the documented limits is lost. Once the master is reachable again the agent reconnects by itself within its bounded back-off and forwards everything it receives from then on.",
 ["fault_sequences","schedules","histories"],
 "All sequences of connection failures, resets at any byte, stalls, partitions and master restarts, with any schedule.",
 "Functional tests restart a master once with real sockets; resets inside a line, failures during connect, and buffer pruning are never exercised.",
 ["daemon/EagerConnection.cpp","daemon/EagerConnectionFactory.cpp","daemon/StatServer.cpp"],
 [("reconnect with exponential back-off","daemon/EagerConnection.cpp tryLater"),("pruning of the output buffer at line boundaries","daemon/EagerConnection.cpp")],
 ["HTTP JSON query at the master"])
p("C10","An agent's flush command completes and means delivered to the connection",
 "On an agent, the administrative flush command forwards everything received before it, and is answered exactly once: the answer arrives only after that data has been handed to the network connection, and does arrive in bounded time when the connection is healthy, for any number of forwarding connections and concurrent flush commands.",
 ["schedules","histories","configurations"],
 "All interleavings of flush commands, forward timers, write completions and sample input; 1..k forwarding connections.",
 "Tests run one flush on an idle agent; the race between a write completing and the flush being registered needs a specific interleaving.",
 ["daemon/StatServer.cpp","daemon/EagerConnection.cpp","daemon/AdminServer.cpp"],
 [("flush request accounting on written bytes","daemon/StatServer.cpp AgentFlushRequest"),("pending byte count","daemon/EagerConnection.cpp writeOut/on_write")],
 ["admin port reply","HTTP JSON query at the master"])
p("C11","Sample streams are interpreted independently of segmentation and of bad lines",
 "The effect of a stream of lines on the sample port depends only on its bytes: any split into TCP segments, any interleaving with other connections, line ends with or without carriage return, over-long or malformed lines and arbitrary binary garbage never change how the well-formed lines before and after them are recorded, and never affect other connections. The same holds for datagrams.",
 ["inputs","schedules"],
 "All byte streams, all segmentations, all interleavings with other senders.",
 "Tests send whole lines in single segments.",
 ["daemon/StatServer.cpp","daemon/EagerConnection.cpp","lib/strfunc.cpp"],
 [("peek/consume line extraction","daemon/StatServer.cpp handle_inputData"),("input buffer","daemon/EagerConnection.cpp")],
 ["HTTP JSON query"])
p("C12","No input on any port stops the daemon from serving others",
 "No sequence of bytes received on any listening port (samples, HTTP, admin, replication, metrics), in any segmentation and with any abrupt disconnect, crashes the daemon, makes it spin, deadlocks it or keeps it from answering well-formed requests of other clients within bounded time.",
 ["inputs","schedules","fault_sequences"],
 "All byte streams on all ports, all disconnect points, all schedules.",
 "Tests send well-formed requests and a few malformed ones, from one client at a time.",
 ["daemon/HttpServer.cpp","daemon/RequestInFlight.cpp","daemon/AdminServer.cpp","daemon/StatServer.cpp","daemon/ReplicaServer.cpp","daemon/ReplicaPdus.cpp","daemon/PromServer.cpp","lib/strfunc.cpp"],
 [("request header and body limits","daemon/HttpServer.cpp"),("exception barriers around handlers","daemon/main.cpp thread_fn, daemon/RequestInFlight.cpp go")],
 ["all listening ports"])
p("C13","Deleting counters removes exactly the named counters, and they can come back",
 "After a delete request has been answered, the named counters (and only those, for pattern deletes exactly the matching ones) are gone from listings and queries within bounded time and stay gone after a restart, while the data of every other counter is untouched. A counter that receives samples again after its deletion was answered is created afresh with exactly those samples.",
 ["schedules","histories","crash_points"],
 "All interleavings of deletes with records, flushes, queries and listing refreshes, including records to the counter being deleted.",
 "Tests delete idle counters one at a time and check a file is gone.",
 ["daemon/StatStore.cpp","daemon/DeleteCountersWorker.cpp","daemon/DeletePatternsWorker.cpp","daemon/StatCounter.cpp","daemon/AllKeys.cpp","daemon/RequestInFlight.cpp"],
 [("purge of counter files","daemon/StatCounter.cpp purge"),("refresh of the key list after delete","daemon/StatStore.cpp refreshAllKeys")],
 ["HTTP listing, query and delete requests","store directory"])
p("C14","The counter listing is complete, exact and free of duplicates",
 "Every counter that has received a sample, and every counter present on disk at startup, appears in the listing of matching names within bounded time and keeps appearing until it is deleted; no name appears twice and no name that never existed appears. This holds while counters are created and deleted concurrently with listing requests and background refreshes.",
 ["schedules","histories"],
 "All interleavings of counter creation, deletion, listing requests and background refreshes.",
 "Tests list a static set of counters from one thread.",
 ["daemon/AllKeys.cpp","daemon/StatStore.cpp","daemon/RequestInFlight.cpp"],
 [("lock-free key list with cached sorted snapshot","daemon/AllKeys.cpp"),("scheduled refresh","daemon/StatStore.cpp scheduleRefresh/refreshAllKeys")],
 ["HTTP listing request"])
p("C15","Saved settings survive crashes and are never torn",
 "A setting whose update was answered successfully is returned by every later read, and after the save interval has passed it survives a crash at any instant; a crash or a disk error while settings are being saved never loses or damages settings saved earlier. Concurrent updates of different keys never overwrite each other, and values come back byte for byte.",
 ["crash_points","fault_sequences","schedules","inputs"],
 "All kill points in the save procedure, failing or short writes while saving, all interleavings of updates, reads and the save timer.",
 "Tests save and load on a healthy disk from one thread.",
 ["daemon/Settings.cpp","daemon/RequestInFlight.cpp"],
 [("write new file, then rename","daemon/Settings.cpp save"),("dirty flag and flush timer","daemon/Settings.cpp")],
 ["HTTP settings requests before and after restart"])
p("C16","Every HTTP request is answered exactly once with a well-formed response",
 "Each complete HTTP request gets exactly one complete, correctly framed response, whatever the segmentation, however slowly the client reads or writes, and however many requests run concurrently; when a connection ends for any reason its resources are released. The server's own count of requests in progress returns to zero when all clients are done.",
 ["schedules","inputs","fault_sequences"],
 "All segmentations, client speeds, disconnect points and interleavings of concurrent requests of every kind.",
 "Tests issue one request at a time with a well-behaved client.",
 ["daemon/HttpServer.cpp","daemon/RequestInFlight.cpp"],
 [("per-connection state machine","daemon/HttpServer.cpp"),("request life cycle","daemon/RequestInFlight.cpp")],
 ["HTTP port"])
p("C17","A query sees a consistent, monotonic view of concurrently written counters",
 "A query that runs while samples arrive reports for each gauge bucket a set of whole samples: count, sum, sum of squares, minimum and maximum belong together, never less than an earlier completed query of the same client saw, never more than was sent, and everything recorded before the query began and known to be processed is included.",
 ["schedules","histories"],
 "All interleavings of readers and writers over any history.",
 "Tests query a quiet store.",
 ["daemon/StatStore.cpp","daemon/StatCounter.cpp","daemon/RequestInFlight.cpp","lib/StatFile.cpp"],
 [("reads are posted to the counter's strand","daemon/RequestInFlight.cpp, daemon/StatStore.cpp find")],
 ["HTTP JSON query"])
p("C18","Exported metrics are cumulative, complete and never duplicated",
 "On the metrics port, every event counter's exported value equals the sum of all events received for it so far (it restarts, as after a restart of the process, when it would pass 2^32 or nothing has been received for 24 hours) and otherwise never decreases between scrapes; every gauge sample is exported until the clean-up 30 to 60 s later; concurrent scrapes and samples lose or double-count nothing, values are exported in full precision, and each scrape is a complete document in the exposition format.",
 ["schedules","histories","inputs"],
 "All interleavings of samples, scrapes and cleanup timers.",
 "Tests scrape once after sending a few samples.",
 ["daemon/PromExporter.cpp","daemon/PromServer.cpp","daemon/StatServer.cpp"],
 [("metric map under lock","daemon/PromExporter.cpp"),("cleanup timer","daemon/PromExporter.cpp")],
 ["metrics port"])
p("C19","Background maintenance never stops for good",
 "Periodic work (flushing, directory pruning, free-space check, self-statistics, batch forwarding, blacklist reload, settings saving) keeps happening for as long as the daemon runs: a transient failure or an exception in one round never prevents the following rounds, and one kind of maintenance never stops another.",
 ["fault_sequences","schedules","histories"],
 "All transient failures of the operations that a maintenance round performs, at any round, under any schedule.",
 "Tests run for a few seconds without faults, less than one maintenance period.",
 ["daemon/StatStore.cpp","daemon/LoopbackCounter.cpp","daemon/Blacklist.cpp","daemon/Settings.cpp","daemon/StatServer.cpp","daemon/main.cpp"],
 [("timers re-armed by their handlers","daemon/StatStore.cpp, daemon/LoopbackCounter.cpp, daemon/Blacklist.cpp, daemon/StatServer.cpp")],
 ["effects of each maintenance task"])
p("C20","Hosts on the blacklist are cut off within a reload period, others never are",
 "From one reload period after a change of the blacklist file on, a TCP connection that has announced a listed host name is closed with the next thing it sends, and that is not recorded; hosts taken off the list are accepted again; connections of hosts not on the list are never closed by it and lose no samples. This holds however the file is changed (edited in place, replaced, even by an older file, several times a second); while it is missing or unreadable the last list read stays in force and the daemon runs on.",
 ["histories","schedules","fault_sequences"],
 "All sequences of edits, removals and unreadable states of the file relative to reloads, connections and samples.",
 "Tests use a static blacklist file with one agent.",
 ["daemon/Blacklist.cpp","daemon/StatServer.cpp"],
 [("timer-driven reload on modification time","daemon/Blacklist.cpp"),("check on each command","daemon/StatServer.cpp checkBlacklistAndMaybeClose")],
 ["TCP sample port","HTTP JSON query"])
p("C21","Connection bookkeeping matches the real connections",
 "The daemon's reported agent information and connection counts match reality in quiescent states: each live connection is listed once with the last metadata it announced, a closed connection is shown as offline or not at all, and the number of connections reported as active equals the number open, for any sequence of connects, disconnects, resets and blacklisting.",
 ["schedules","histories","fault_sequences"],
 "All sequences and interleavings of connects, metadata lines, disconnects, resets and server-side closes.",
 "Tests connect one agent and look at the listing once.",
 ["daemon/StatServer.cpp","daemon/EagerConnection.cpp","daemon/EagerConnectionFactory.cpp","daemon/AdminServer.cpp"],
 [("meta info map keyed by connection","daemon/StatServer.cpp metaInfo"),("connect/disconnect handlers","daemon/StatServer.cpp on_connection/on_inputLost")],
 ["HTTP agent listing","admin stats"])
p("C22","Connections and files are released: no descriptor leak under churn",
 "However connections begin and end (normal close, reset, half-sent request, unanswered back-off) and however often counters are created, flushed, failed to open and deleted, the number of open descriptors returns to a level determined by the live connections and live counters, so the daemon can run indefinitely.",
 ["histories","fault_sequences","schedules"],
 "All histories of connection and counter churn with failures at any point.",
 "Tests end before a leak of one descriptor per failed operation is noticeable.",
 ["daemon/EagerConnection.cpp","daemon/HttpServer.cpp","daemon/AdminServer.cpp","lib/Mmap.cpp","lib/StatFile.cpp"],
 [("shared ownership of connections","daemon/EagerConnectionFactory.cpp, daemon/HttpServer.cpp"),("closing of files on destruction and error paths","lib/StatFile.cpp")],
 ["descriptor table of the daemon"])
p("C23","The daemon is free of data races that crash, corrupt memory or deadlock",
 "Under any mix of clients, timers, flushes, deletes, listings, queries, settings and administrative commands and any thread schedule, the daemon never crashes, never accesses freed or foreign memory, and never reaches a state in which threads wait for each other forever.",
 ["schedules","histories","configurations"],
 "All schedules of 1..N worker threads over mixed workloads and configurations.",
 "Tests run one or two clients on the schedule the machine happens to choose.",
 ["daemon/StatStore.cpp","daemon/AllKeys.cpp","daemon/StatCounter.cpp","daemon/Settings.cpp","daemon/StatServer.cpp","daemon/EagerConnection.cpp","daemon/AdminServer.cpp","daemon/LoopbackCounter.cpp"],
 [("lock and strand discipline","daemon/*.cpp"),("lock-free list","daemon/AllKeys.cpp")],
 ["process state","all ports"])
p("C24","Clock steps and skew never lose data, wedge the daemon or damage files",
 "When the system clock is stepped forward or backward or sample timestamps run ahead of or behind the clock, the daemon keeps running, samples within the retention span are still recorded in the bucket their timestamp names, buckets already recorded keep their values as long as they are inside the span, and seasonal (trailing) averages never damage memory or other buckets.",
 ["fault_sequences","inputs","histories"],
 "All clock steps and sample timestamp skews at any point of any workload, including idle gaps longer than a retention.",
 "Tests use a fixed or smoothly advancing fake clock.",
 ["lib/StatFile.cpp","daemon/StatCounter.cpp","daemon/Bucketizer.cpp","lib/istattime.cpp"],
 [("time to bucket mapping and rotation","lib/StatFile.cpp"),("seasonal averages","lib/StatFile.cpp flushOneExpBucket")],
 ["HTTP JSON query"])
p("C25","Pruning of empty directories never removes data or blocks new counters",
 "Directory pruning removes only empty directories: counters created, written or deleted concurrently with a pruning round are never lost, their samples are recorded, and pruning never fails the recording of a sample.",
 ["schedules","histories","fault_sequences"],
 "All interleavings of pruning with counter creation and deletion in the same directories.",
 "Tests prune a static tree with no concurrent activity.",
 ["daemon/StatStore.cpp","daemon/StatCounter.cpp"],
 [("recursive prune","daemon/StatStore.cpp pruneEmptyDirsNow"),("directory creation on counter creation","daemon/StatCounter.cpp")],
 ["store directory","HTTP JSON query"])
p("C26","The stream splitter delivers every byte, in order, to every destination",
 "The splitter daemon delivers every byte received from a client to every destination, in order and exactly once, and sends back to the client exactly the bytes that the first destination answered; when any peer fails it ends that session's connections and continues to accept new sessions.",
 ["schedules","fault_sequences","inputs"],
 "All segmentations, arrival orders and failures of client and destinations.",
 "There is no test of the splitter with concurrent replies, partial segments or failing peers.",
 ["splitter/main.cpp"],
 [("select loop copying to all destinations","splitter/main.cpp listen_loop"),("per-session process","splitter/main.cpp main")],
 ["destination and client sockets"])
p("C27","The admin interface answers every command line exactly once",
 "Each administrative command line yields its documented answer exactly once, in one piece and in the order of the commands, independent of segmentation and pipelining, except that the answer to a command that takes time (flush, deleting counters, storing or loading settings) may come after those to later commands; quit closes the connection after the answers given so far. Administrative sessions, also abandoned ones, never disturb sample intake, HTTP service or stored data.",
 ["inputs","schedules"],
 "All segmentations, pipelinings and interleavings of admin sessions with other traffic.",
 "Tests send one command per connection.",
 ["daemon/AdminServer.cpp"],
 [("line extraction from the input buffer","daemon/AdminServer.cpp on_data"),("command table","daemon/AdminServer.cpp")],
 ["admin port"])
p("C28","Replication streams are framed and accounted correctly under any segmentation",
 "The replication port parses a stream of units identically under any segmentation: each connect unit of an unsupported version gets exactly one answer, a malformed or unknown unit ends only its own connection; disconnects at any byte do not affect the daemon, and the reported number of replication connections (replicaServer.current) equals the number open.",
 ["inputs","schedules","fault_sequences"],
 "All segmentations, malformed lengths and disconnect points.",
 "Unit tests feed whole units to the reader.",
 ["daemon/PduProtocol.cpp","daemon/ReplicaServer.cpp","daemon/ReplicaPdus.cpp","daemon/ReplicaOf.cpp"],
 [("length-prefixed reader","daemon/PduProtocol.cpp"),("connection list","daemon/ReplicaServer.cpp")],
 ["replication port","admin stats"])
p("C29","Counter names map to the same normalised name everywhere",
 "For every name, recording, listing, querying and deleting agree on one normalised form, distinct normalised names never share data, and no name escapes the storage directory.",
 ["inputs"],"All byte strings as names.",
 "Tests use a few ordinary names.",
 ["lib/strfunc.cpp","daemon/StatStore.cpp","daemon/RequestInFlight.cpp"],
 [("name munging","lib/strfunc.cpp munge, counter_filename")],["store directory","HTTP requests"])
p("C30","Bucket statistics are numerically correct",
 "For every multiset of finite samples in one bucket, the reported average and standard deviation equal the mathematical values up to rounding, and reducing many buckets to fewer preserves count, sum, sum of squares, minimum and maximum.",
 ["inputs"],"All multisets of finite samples and all reduction factors.",
 "Tests check a few hand-made buckets.",
 ["lib/Bucket.cpp","daemon/StatCounter.cpp"],
 [("bucket update and reduce","lib/Bucket.cpp, daemon/StatCounter.cpp reduce")],["HTTP JSON query"])
p("C31","Configuration text parses to the configuration it documents",
 "Every configuration file and command line is either accepted with each option set to exactly the given value or rejected with an error, and retention descriptions are interpreted exactly as documented or rejected.",
 ["inputs","configurations"],"All configuration texts and retention strings.",
 "Tests parse a few examples.",
 ["daemon/Argument.cpp","daemon/Retention.cpp","lib/strfunc.cpp"],
 [("argument parser","daemon/Argument.cpp"),("retention parser","daemon/Retention.cpp")],["start-up"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
