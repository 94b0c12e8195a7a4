"""Writes properties.jsonl (kept as a script so the texts stay reviewable)."""
import json, os
S = "schedules"; I = "inputs"; H = "histories"; F = "fault_sequences"; CP = "crash_points"; CF = "configurations"
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": a, "where": b} for a, b in mech],
                     "observe_at": observe, "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append(d)


MC = "src/memcache/"
p("C01", "Operations on a key are atomic and linearizable across clients and protocols",
  "For every key, what all clients of the text and binary protocols observe (store, read, append, prepend, increment, decrement, delete, touch) is explained by executing the operations one at a time, in an order that respects real time and the order within each connection. In particular an acknowledged update is never lost, a concurrent increment is never dropped, and a read never returns a mixture of values or a value with another value's flags.",
  [S, H], "all interleavings of any number of concurrent connections, worker threads and background collection, for every command mix",
  "The tests drive one connection at a time against a local server, or the containers from a few threads; they never compare concurrent histories with a specification.",
  [MC + "sockets.cpp", MC + "object.cpp", "cybozu/hash_map.hpp", "cybozu/worker.hpp"],
  [("bucket mutex held while a command is applied and its reply queued", "cybozu/hash_map.hpp: bucket::apply, remove_if, gc, foreach"),
   ("one worker per connection at a time", MC + "sockets.cpp: memcache_socket::on_readable (m_busy)"),
   ("idle-worker hand-over", "cybozu/worker.hpp: post_job, run")],
  ["client sockets: invocation and response of every command"],
  [("object map", "key to value, flags, expiration, version, lock owner", MC + "handler.hpp: m_hash")])
p("C02", "A conditional update succeeds only if the item is unchanged since it was read",
  "A compare-and-swap (text) or versioned command (binary) succeeds exactly when the item has not been modified, deleted or re-created since the client obtained that version. (A binary increment or decrement that asks for an absent item to be initialised does so whatever its version.) Every modification gives the item a version not used before for that key, and of several concurrent conditional updates from one version at most one succeeds.",
  [S, H], "all interleavings of conditional and unconditional modifications, deletions and re-creations of a key in both protocols",
  "Tests run a handful of sequential cas commands; uniqueness over whole histories and exclusion among racing updates are not exercised.",
  [MC + "sockets.cpp", MC + "object.cpp", MC + "object.hpp"],
  [("version check and update inside one bucket critical section", MC + "sockets.cpp: cmd_bin, cmd_text (CAS)"),
   ("fresh version on every modification and creation", MC + "object.cpp: object::next_cas")],
  ["gets / Get replies, cas fields of binary replies, results of conditional commands"],
  [("version", "per-object CAS unique value", MC + "object.hpp: m_cas")])
p("C03", "Every command has its documented effect and reply in every item state",
  "For every sequence of text and binary commands on one or more connections, each reply (status, data, flags, key echo, numeric result) and the resulting item are those of the documented protocol semantics: conditions of add/replace/append/prepend, numeric wrap-around and clamping at zero, initial values, key and value size limits, multi-key reads, and quiet or noreply variants. A command that is refused leaves the item unchanged.",
  [I, H], "every command, argument value and prior item state (absent, present, expired, locked by self or another, large), in every order",
  "The protocol tests fix a few dozen command sequences; combinations of command variants, states and boundary arguments are mostly unvisited.",
  [MC + "sockets.cpp", MC + "memcache.cpp", MC + "memcache.hpp", MC + "object.cpp"],
  [("command execution", MC + "sockets.cpp: cmd_text, cmd_bin"),
   ("request parsing", MC + "memcache.cpp: text_request::parse, binary_request::parse"),
   ("value operations", MC + "object.cpp")],
  ["replies on client sockets, compared with a reference model"])
p("C04", "Locks are exclusive, honoured by writers, and released with the client",
  "At most one connection holds the lock of an item, and until it unlocks, replaces-and-unlocks or goes away, every modification by any other connection is refused as locked without effect, while reads succeed. A locked item is neither expired nor evicted nor flushed, only its holder can unlock it, and when the holder disconnects in whatever way its locks are released so that others can proceed.",
  [S, H, F], "all interleavings of lock, unlock, modification and disconnection (orderly, reset, quit, half-close) by many connections, with expiration, eviction and flushing going on",
  "Tests lock from one or two connections in sequence; owner identity across disconnections, reused descriptors and concurrent acquisition is not covered.",
  [MC + "sockets.cpp", MC + "sockets.hpp", MC + "object.hpp", MC + "gc.cpp"],
  [("lock owner recorded in the object", MC + "object.hpp: lock, unlock, locked_by_self/other"),
   ("locks remembered per connection and released at its end", MC + "sockets.hpp: m_locks, unlock_all, ~memcache_socket")],
  ["lock/unlock/modify replies of all connections"],
  [("lock owner", "identity of the holding connection", MC + "object.hpp: m_lock")])
p("C05", "Items expire exactly when they should: expiration times, touch and flush_all",
  "An unlocked item is readable before its expiration time and is from that time on indistinguishable from an absent one for every command, whether or not it has been collected; relative, absolute and zero expiration times, touch and get-and-touch set the time as documented. From the time a flush takes effect no item stored before it is ever returned again, and items stored after it stay readable.",
  [I, H, S], "every expiration argument and clock value, every placement of collection runs, every command applied to an expired item, immediate and delayed flushes",
  "Tests cannot control the clock; they sleep for a few seconds and check one or two cases, and never see an expired item that has not been collected with most commands.",
  [MC + "object.hpp", MC + "memcache.cpp", MC + "sockets.cpp", MC + "gc.cpp", "src/global.hpp"],
  [("expired() consulted by every command", MC + "object.hpp: expired"),
   ("relative/absolute conversion", MC + "memcache.cpp: parse_storage, binary_exptime"),
   ("collector", MC + "gc.cpp: gc_thread::gc")],
  ["replies under a virtual clock"],
  [("flush time", "time from which everything is invalid", MC + "stats.hpp: flush_time")])
p("C06", "Requests are framed independently of segmentation and answered once, in order",
  "The replies to a byte stream do not depend on how it is split into packets, pipelined or interleaved with other connections; each request that calls for a reply gets exactly one, in order, carrying its opcode and opaque, and quiet or noreply requests are silent exactly as documented. A malformed, oversized or unknown request is answered with an error or ends only its own connection, and never changes data or disturbs other clients; this holds for both memcache protocols and the counter protocol.",
  [I], "every byte stream (valid, invalid, truncated, mixed text and binary) and every segmentation and pipelining depth",
  "Parser tests feed whole requests; partial arrival at every offset, long pipelines and malformed mixtures are not tried.",
  [MC + "memcache.cpp", MC + "sockets.cpp", "src/counter/counter.cpp", "src/counter/sockets.cpp", "cybozu/dynbuf.hpp"],
  [("incremental parsing with left-over bytes kept per connection", MC + "sockets.cpp: m_recvjob, m_pending"),
   ("counter equivalent", "src/counter/sockets.cpp: m_recvjob")],
  ["reply byte streams compared across segmentations; data and liveness probes on another connection"])
p("C07", "Reply streams are complete and uncorrupted under back-pressure",
  "However slowly a client reads, however large the replies and however many are pipelined, the bytes it receives are exactly the replies to its requests in order: nothing is lost, duplicated, reordered or mixed with another reply. When the client resumes reading the stream always continues to completion, and a client that stops reading or disappears does not make the server lose or corrupt data of others.",
  [S, I, F], "all sizes, socket-buffer fillings, short writes, interruptions and reader speeds",
  "Tests read replies at once through a large loopback buffer, so the pending-data paths are never entered.",
  ["cybozu/tcp.cpp", "cybozu/tcp.hpp", MC + "sockets.cpp"],
  [("pending buffers and flow control", "cybozu/tcp.cpp: _send, _sendv, write_pending_data"),
   ("resumption by the reactor or a worker", "cybozu/tcp.hpp: on_writable")],
  ["received bytes checked against self-describing values"],
  [("pending output", "unsent bytes of a connection", "cybozu/tcp.hpp: m_pending, m_tmpbuf")])
p("C08", "A caught-up slave holds exactly the master's items",
  "Once initial synchronisation is over and updates have drained, a slave has for every live item of the master the same value, flags and expiration time, and nothing that was deleted, evicted, flushed or never acknowledged-or-in-flight, so that after promotion clients see the same data. This holds for slaves joining at any moment, during updates and collection, and for items of every size including empty and file-backed ones.",
  [S, H, F], "all update sequences concurrent with joining, initial synchronisation and collection; any number of slaves; any item",
  "No test starts two servers; replication is not exercised at all.",
  [MC + "replication.cpp", MC + "handler.cpp", MC + "gc.cpp", "src/sync.hpp", MC + "sockets.cpp"],
  [("updates sent under the bucket lock", MC + "sockets.cpp: repl_object, repl_touch, repl_delete calls"),
   ("initial synchronisation after all workers know the slave", "src/sync.hpp; " + MC + "handler.cpp: make_repl_socket"),
   ("application on the slave", MC + "replication.cpp: repl_recv")],
  ["contents of promoted slaves compared with the master's model"])
p("C09", "Roles follow the virtual address: takeover, demotion and slave handling",
  "A node serves clients only as master, i.e. when it owns the virtual address; a slave that loses its master takes over with the replicated data if it obtains the address, and otherwise rejoins with the old data dropped and a full resynchronisation. A master that loses the address terminates, a slave that stops sending heartbeats is dropped after the configured timeout, and neither a dead, slow nor reconnecting slave blocks clients for good.",
  [F, S, H], "every order of crashes, address moves, reconnects, stalls and timeouts of the nodes",
  "There is no multi-node test; failover code is never executed by the tests.",
  ["src/server.cpp", MC + "handler.cpp", MC + "gc.cpp", MC + "sockets.cpp", "cybozu/ip_address.cpp"],
  [("role loop", "src/server.cpp: serve, serve_slave, serve_master"),
   ("address check in the collector", MC + "gc.cpp: run"),
   ("heartbeats", MC + "handler.cpp: on_master_interval, on_slave_interval")],
  ["process exit status, client connections, contents and logs of several real nodes"])
p("C10", "Counter resources are never over-allocated, lost or leaked",
  "The consumption of a counter always equals the sum of what live connections have acquired and not released; an acquisition succeeds only if consumption stays within the maximum given with it, and a release of more than the connection holds is refused without effect. When a connection ends in any way all it held is returned, exactly once, and reported consumption and per-interval maximum are those of some moment consistent with the history.",
  [S, H, F, I], "all interleavings of acquire, release, get, dump and disconnect by many connections, all amounts and maxima including the extremes",
  "The counter tests run a few clients in sequence with small numbers.",
  ["src/counter/sockets.cpp", "src/counter/object.hpp", "src/counter/gc.cpp", "src/counter/counter.cpp"],
  [("check-and-add under the bucket lock", "src/counter/object.hpp: acquire, release"),
   ("per-connection holdings", "src/counter/sockets.cpp: m_acquired_resources, release_all")],
  ["replies of all connections; consumption after quiescence"])
p("C11", "Collection removes only what it must: no live loss, memory bounded, LRU order",
  "While memory use is within the limit no unexpired item ever disappears, whatever collection does concurrently. When the limit is exceeded unlocked items are evicted until memory use is back within the limit, items not used for the longest time go first, recently used and locked ones survive, and accounting of items and bytes agrees with the contents.",
  [S, H], "all mixes of stores, reads and collection runs, all sizes and limits",
  "Tests do not run the collector; evictions need many collection intervals of real time.",
  [MC + "gc.cpp", MC + "gc.hpp", MC + "handler.cpp", MC + "object.hpp"],
  [("age counter reset on use", MC + "object.hpp: m_gc_old"),
   ("eviction threshold", MC + "gc.cpp: gc_thread::gc"),
   ("triggering", MC + "handler.cpp: gc_ready")],
  ["contents and statistics after controlled collection runs"])
p("C12", "Large values are stored faithfully and leave nothing behind",
  "A value of any size up to the limit is returned byte for byte however it was built (set, append, prepend, replaced by smaller or larger values, concurrently read), across the border between memory and file storage. Its temporary storage is never visible as a file in the directory, and space and descriptors are released when the item is replaced, deleted, expired or evicted.",
  [I, H, S], "all sizes around every internal boundary and all sequences of size-changing operations",
  "The object tests cross the border in one direction with two or three sizes.",
  [MC + "object.cpp", "src/tempfile.cpp", "src/tempfile.hpp"],
  [("spill to file above the heap limit", MC + "object.cpp: set, append, prepend"),
   ("unlinked temporary files", "src/tempfile.cpp")],
  ["values read back; directory listing, descriptor table of the server"])
p("C13", "With secure_erase, no item data survives in released memory",
  "When secure erasing is enabled, the memory that held an item's data is cleared before it is released, for every way in which data stops being needed: overwrite, append, prepend, increment, delete, expiration, flush, eviction, and resynchronisation of a slave.",
  [I, H], "all sequences of operations that release or move item data, all sizes kept in memory",
  "One unit test clears a buffer with a function; nothing checks the life cycle of item memory.",
  ["cybozu/dynbuf.hpp", "cybozu/util.cpp", MC + "object.cpp"],
  [("clearing buffer", "cybozu/dynbuf.hpp: reset, enlarge, erase, destructor"),
   ("clear_memory", "cybozu/util.cpp")],
  ["allocator calls of the server: every released block is searched for marker bytes"])
p("C14", "No client input or workload causes memory errors or undefined behaviour",
  "Whatever bytes arrive on any port and whatever the clients, slaves and collector do concurrently, the server performs no invalid memory access, double free, undefined arithmetic or uncaught exception, and keeps serving other clients.",
  [I, S, F], "all byte streams on the memcache, replication-client and counter ports and all concurrent workloads, including connection faults and role changes",
  "Tests run without sanitizers and with well-formed input.",
  ["src", "cybozu"],
  [("bounds checks in the parsers", MC + "memcache.cpp, src/counter/counter.cpp"),
   ("deferred reclamation of shared sockets", "cybozu/reactor.hpp: fix_garbage, gc; src/sync.hpp")],
  ["AddressSanitizer and UndefinedBehaviorSanitizer reports, exit status, liveness probes"])
p("C15", "Threads share state without data races or lock-order inversions",
  "In every execution, memory shared by the reactor, worker, collector and replication activities is accessed under a common lock or through atomics, and locks are taken in a consistent order.",
  [S], "all interleavings of the server's threads under every workload, including startup, joining slaves, disconnects and shutdown",
  "A race shows in a test only if it corrupts something at once; the tests run without a race detector.",
  ["src", "cybozu"],
  [("bucket and socket mutexes, atomics, hand-over through flags", "cybozu/hash_map.hpp, cybozu/tcp.hpp, cybozu/worker.hpp, cybozu/reactor.hpp")],
  ["ThreadSanitizer reports over stress workloads"])
p("C16", "Connections are accounted, limited and isolated from each other's failures",
  "The number of connections reported equals the connections open, a configured maximum is enforced and admits new clients again when others leave, and resets, quits and errors free the connection's resources. Failures of one connection, bursts of connections, or running out of descriptors never stop the server or affect other connections, and service resumes once descriptors are available.",
  [F, S, H], "all sequences of connects, quits, resets and failures by many clients in parallel, up to and beyond the limits",
  "Tests open a few connections and close them in order.",
  ["cybozu/reactor.cpp", "cybozu/reactor.hpp", "cybozu/tcp.cpp", MC + "handler.cpp", "src/counter/handler.cpp"],
  [("limit check on accept", MC + "handler.cpp: make_memcache_socket; src/counter/handler.cpp"),
   ("invalidate, remove, reclaim", "cybozu/reactor.cpp: remove_resource; cybozu/reactor.hpp"),
   ("EMFILE retry", "cybozu/tcp.cpp: tcp_server_socket::on_readable")],
  ["statistics, descriptor table, service to probe connections"])
p("C17", "A termination signal always ends the server promptly and cleanly",
  "Upon a termination signal the server exits with success within bounded time, whatever its workers, collector, blocked senders and slaves are doing at that moment, as master or as slave. Other signals (log reopening, status dump) never end it or disturb service.",
  [S, F], "all moments of signal arrival relative to the activity of all threads, including senders blocked on slow clients and slaves",
  "Tests kill the server; the shutdown path is not checked.",
  ["src/server.cpp", "cybozu/worker.hpp", "cybozu/reactor.hpp", "cybozu/signal.cpp"],
  [("stop sequence", "src/server.cpp: serve_master stop"),
   ("worker stop", "cybozu/worker.hpp: stop, run"),
   ("unblocking of senders", "cybozu/tcp.hpp: on_invalidate")],
  ["exit status and time after signals under load"])
p("C18", "Configuration is either applied as written or rejected",
  "For every configuration file, each recognised option takes exactly the value written (units, booleans, lists, ranges) and is visible in the server's settings and behaviour, unset options keep documented defaults, and a malformed line or a malformed or out-of-range value makes startup fail with an error instead of being silently changed. Options that are not recognised have no effect on others.",
  [I, CF], "all combinations of options and all well- and ill-formed values",
  "One test file with one value per option is parsed.",
  ["src/config.cpp", "src/config.hpp", "cybozu/config_parser.cpp", "cybozu/config_parser.hpp", "src/constants.hpp", "docs/usage.md"],
  [("typed parsing", "src/config.cpp: config::load; cybozu/config_parser.hpp: get_as_int, get_as_bool"),
   ("file syntax", "cybozu/config_parser.cpp: load")],
  ["config object after load; startup success; stats settings"])
p("C19", "Key dumps are complete and exact",
  "A key dump, with or without prefix and in either protocol, lists every matching item that exists throughout the dump exactly once, lists no key that existed at no moment of the dump, and no expired one, even while other clients modify the map and collection runs.",
  [S, H, I], "all contents, prefixes and concurrent modifications",
  "The tests dump a few keys on an idle server.",
  ["cybozu/hash_map.hpp", MC + "sockets.cpp", MC + "memcache.cpp"],
  [("iteration bucket by bucket under the bucket lock", "cybozu/hash_map.hpp: foreach"),
   ("prefix match", "cybozu/hash_map.hpp: hash_key::has_prefix")],
  ["dump replies against the set of stable and volatile keys"])
p("C20", "Statistics agree with what happened",
  "After quiescence the reported counters equal what clients actually did (commands by protocol and kind, hits, misses, cas results, connections, items created) and, after a collection, item counts, sizes, memory and evictions agree with the contents; both protocols report the same numbers, and none is lost under concurrency.",
  [S, H], "all command histories and concurrency levels",
  "Tests look only at the presence of a few statistics.",
  [MC + "stats.hpp", MC + "stats.cpp", MC + "memcache.cpp", MC + "gc.cpp", "src/counter/stats.hpp"],
  [("atomic counters", MC + "stats.hpp"), ("collector totals", MC + "gc.cpp: run")],
  ["stats replies against counts kept by the clients"])
p("C21", "Every connection with a complete request is eventually served",
  "With any number of connections and fewer worker threads, every complete request on an open connection is answered without any further input once workers become free, and no wake-up is lost. Connections that are idle or have sent only part of a request occupy no worker and keep nobody from being served.",
  [S], "all arrival patterns and interleavings of readiness events, worker hand-over and pending input",
  "Tests use fewer connections than workers and send one request at a time.",
  ["cybozu/reactor.cpp", "cybozu/worker.hpp", MC + "sockets.cpp", "src/counter/sockets.cpp", "src/server.cpp"],
  [("edge-triggered readiness with a list of deferred sockets", "cybozu/reactor.cpp: poll, add_readable"),
   ("busy flag and idle-worker search", MC + "sockets.cpp: on_readable; src/server.cpp: finder")],
  ["completion of every request of many stop-and-wait clients"])
p("C22", "Log lines are never torn or lost across reopening",
  "Every log record is written as one whole line to the configured file, records of concurrent threads are not interleaved, and after a reopen signal records go to a file of the configured name while none is lost; the threshold decides exactly which severities appear.",
  [S, F], "all interleavings of logging threads with reopen signals and file renames",
  "One test writes a few lines from one thread.",
  ["cybozu/logger.cpp", "cybozu/logger.hpp", "src/server.cpp"],
  [("sink mutex and reopen", "cybozu/logger.hpp: put, reopen")],
  ["log files compared with the set of provoked records"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as fp:
    for d in P:
        assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
        fp.write(json.dumps(d) + "\n")
print(len(P))
