#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

SLOT = "component/db/src/slot.rs"
p("C01", "Concurrent commands are linearizable per key",
  "For any number of concurrently connected clients issuing the supported commands on strings, counters, hashes, lists, sets, sorted sets and key metadata (including DUMP/RESTORE), the replies observed for each key are explained by one sequential order of whole commands that respects real time and in which every command has its documented effect and reply. A command that names several keys acts on each of them separately and replies with the total; a command that replies with an error changes nothing.",
  ["schedules", "inputs", "histories"],
  "every interleaving of the connection handler tasks, background expiry and blocking tasks; every mix of supported commands and arguments; every history length",
  "The command tests drive one connection sequentially with a few dozen fixed arguments; no test has two clients touching one key, so no interleaving is ever sampled and no concurrent history is ever checked.",
  [SLOT, "component/db/src/lib.rs", "component/dict/src/lib.rs", "component/dict/src/cmd", "component/server/src/cmd"],
  [("per-slot lock held for the whole command", SLOT + " call_write/call_expires_write/call_read"),
   ("key to slot routing", "component/db/src/lib.rs get_slot"),
   ("command bodies over the dictionary", "component/dict/src/cmd")],
  ["client sockets: request sent / reply received events with virtual timestamps"],
  [("slot dictionary", "the data of one hash slot", SLOT)])

p("C02", "A request takes effect at most once, and exactly once if acknowledged",
  "When connections are reset, half-closed or cut at arbitrary points, every acknowledged request has taken effect exactly once and every unacknowledged request at most once. Requests pipelined on one connection take effect in the order sent, so a request never takes effect if an earlier one on the same connection did not.",
  ["schedules", "fault_sequences", "histories"],
  "every placement of connection resets, cuts and half-closes relative to sending, execution and reply delivery; every interleaving with other clients",
  "No test ever closes a connection before it has read its reply, so the window between execution and acknowledgement is never exercised.",
  ["component/server/src/lib.rs", "component/common/src/connection/mod.rs", SLOT],
  [("one handler loop per connection: read, execute, reply, in order", "component/server/src/lib.rs Handler::run"),
   ("consumed bytes are advanced once per frame", "component/common/src/connection/mod.rs read_frame")],
  ["client sockets", "final contents read back by a fresh client"])

p("C03", "One reply per request, in order, whatever the packetization",
  "However the byte stream is split, merged or delayed by the network and however deeply requests are pipelined, the server sends exactly one well-formed reply per complete request, in request order, with the same content as if each request had been sent alone and awaited. Keys and values are binary safe and of any size, in both directions, also when the client reads slowly.",
  ["inputs", "schedules", "fault_sequences"],
  "every segmentation of the request stream, every short read and short write, every pipeline depth, every value content and size",
  "Tests send one small request per write over loopback and wait for the reply, so a request is in practice always read in one piece and never shares a read with the next one.",
  ["component/common/src/connection/mod.rs", "component/common/src/connection/parse/frame.rs", "component/server/src/lib.rs"],
  [("incremental parse over a growing buffer", "component/common/src/connection/mod.rs read_frame"),
   ("frame encoder", "component/common/src/connection/parse/frame.rs"),
   ("write_all of the reply before reading the next request", "component/server/src/lib.rs Handler::run")],
  ["bytes received by simulated clients"])

p("C04", "A broken or hostile client affects only its own connection",
  "Malformed or truncated requests, unknown commands, wrong argument types or counts, extreme numeric arguments, deeply nested frames, abrupt disconnects and clients that never read their replies end at most the connection they arrive on. Every other client keeps receiving correct replies in bounded time, and a request that was not completely received, not understood, or answered with an error changes no data.",
  ["inputs", "schedules", "fault_sequences"],
  "every byte sequence sent by the hostile clients, every interleaving with well-behaved clients, every point of disconnection",
  "There is no test in which any client misbehaves, nor one in which a second client is connected while another fails.",
  ["component/server/src/lib.rs", "component/common/src/connection/parse", "component/macros/src/parse_frames.rs", "component/dict/src/cmd"],
  [("one task per connection, errors end the task", "component/server/src/lib.rs"),
   ("parse errors surface before any command runs", "component/server/src/cmd/mod.rs from_frame")],
  ["replies and connection state of well-behaved clients", "final data"])

p("C05", "The connection limit holds and its capacity never leaks",
  "At no moment are more client connections being served than the configured maximum; a client over the limit is served as soon as another connection ends. However a connection ends (close, reset, protocol error, failed write, handler panic, snapshot hand-over) its place becomes available again exactly once, and transient failures to accept are ridden out without losing capacity.",
  ["schedules", "fault_sequences", "histories"],
  "every interleaving of connects, disconnects of every kind and accept errors, with every small limit, over long histories",
  "No test sets a limit, opens more than one connection at a time, or makes accept fail; leaks only show after as many failures as the limit (3000 by default).",
  ["component/server/src/lib.rs", "component/server/src/limit.rs"],
  [("counting semaphore acquired before accept, returned when the handler is dropped", "component/server/src/limit.rs"),
   ("exponential back-off around accept", "component/server/src/lib.rs Listener::accept")],
  ["number of simulated clients that have an answered request on an open connection", "time until a waiting client is served"],
  [("permits", "connections that may still be accepted", "component/server/src/limit.rs")])

p("C06", "A key is visible exactly until its expiry time",
  "Judged by the server's wall clock when a command takes effect, a key whose expiry has passed behaves exactly like an absent key for every command, and a key whose expiry has not passed, or that has none, is fully visible with its remaining time to live. Every command that sets, keeps, replaces or clears an expiry (with EX/PX/EXAT/PXAT/KEEPTTL, NX/XX/GT/LT, overwrites, deletes, RESTORE) does so as documented, whatever runs in the background and however the clock advances.",
  ["schedules", "inputs", "histories"],
  "every interleaving of commands with the background purge, every order of expiry-changing commands, every placement of a command just before, at and after the expiry instant, every clock advance",
  "Tests sleep one or two real seconds around two or three TTL commands; the instants around expiry, the race with the purge task and combinations of expiry-changing commands are not sampled.",
  ["component/dict/src/lib.rs", "component/dict/src/cmd/simple", "component/db/src/expire.rs", "component/server/src/cmd/base"],
  [("lookups ignore expired values", "component/dict/src/lib.rs Dict::get / get_or_insert_with"),
   ("purge re-checks the expiry it recorded", "component/db/src/expire.rs purge_expired_keys"),
   ("absolute expiry computed from options", "component/server/src/cmd/base")],
  ["client sockets, with the simulated wall clock at request and reply"],
  [("expiry of a value", "absolute wall-clock millisecond, 0 = none", "component/dict/src/lib.rs")])

p("C07", "Expired and deleted data is reclaimed promptly, live data never",
  "Within a bounded time after a key's current expiry passes its memory is released even if no client ever touches it again, whatever sequence of TTL changes, overwrites, deletions, re-creations and flushes preceded. Background reclamation never removes a key that has not expired, and internal bookkeeping for keys that expired, lost their expiry or no longer exist does not accumulate.",
  ["schedules", "histories"],
  "every order in which expiry updates reach the background task relative to the commands that caused them, every sleep/wake race of the purge task, long histories",
  "The only test of the purge sets one key, sleeps and asserts nothing; nothing observes memory, and lookups hide unpurged keys.",
  ["component/db/src/expire.rs", SLOT, "component/db/src/lib.rs"],
  [("ordered set of (expiry, slot, key) kept by a receiver task", "component/db/src/expire.rs recv_task"),
   ("purge task sleeping until the earliest expiry, woken when an earlier one arrives", "component/db/src/expire.rs purge_expired_task"),
   ("flush scans the set", "component/db/src/expire.rs scan_all")],
  ["bytes of heap still owned by the simulated server process", "client reads"],
  [("expiration set", "pending expiries ordered by time", "component/db/src/expire.rs")])

p("C08", "FLUSHALL removes everything before it and nothing after it",
  "Once FLUSHALL (either form) is acknowledged, no key whose last write completed before FLUSHALL was sent is visible, and a write concurrent with it is for its key either wholly before (gone) or wholly after (kept). Nothing of the flushed data survives: later keys are not affected by expiries of flushed ones, memory of flushed values is released, and later writes behave and replicate as on a fresh server.",
  ["schedules", "histories"],
  "every interleaving of FLUSHALL with reads, writes and expiry of keys in every slot and with other FLUSHALLs",
  "No test covers FLUSHALL at all; the interaction with concurrent writers, pending expiries and replicas needs schedules that ordinary use hits rarely.",
  ["component/db/src/lib.rs", SLOT, "component/db/src/expire.rs", "component/server/src/cmd/others/flushall.rs"],
  [("each slot's dictionary is swapped for an empty one under its lock", SLOT + " flush"),
   ("expiry set is rescanned", "component/db/src/expire.rs scan_all")],
  ["client sockets", "bytes of heap still owned by the simulated server process", "follower contents"])

p("C09", "A snapshot is complete, terminated and a single point in time",
  "A requested snapshot, of one slot or of all, contains for each covered key exactly the state at one single instant between request and end of transfer, the same instant for all slots: if it contains a write it contains every write acknowledged before that one was sent. It arrives complete and terminated no matter how slowly the receiver reads or how the network behaves short of breaking the connection, and the server keeps serving reads and writes meanwhile.",
  ["schedules", "fault_sequences", "inputs"],
  "every interleaving of writers with the snapshot cut, every slot, every snapshot size, every receiver speed and socket buffer size",
  "No test requests a snapshot.",
  ["component/server/src/cmd/syncsnapshot.rs", "component/db/src/child_process.rs"],
  [("all slot locks are taken before fork, child serializes its frozen copy", "component/server/src/cmd/syncsnapshot.rs")],
  ["bytes received by a simulated snapshot client, decoded"])

p("C10", "Followers converge to the leader's data",
  "When clients stop writing and the network is healthy, every follower within bounded time holds exactly the leader's keys, values and expiries, whatever the timing of writes relative to the initial snapshot, the command stream, message delays and re-synchronisation. Every write command that changes the leader's data, including FLUSHALL and RESTORE, reaches the followers.",
  ["schedules", "histories", "configurations"],
  "every interleaving of writers, snapshot transfer, forwarding and follower apply; one or several followers; joins before, during and after writes",
  "No test starts a follower or a placement driver.",
  [SLOT, "component/db/src/slot/replica_update.rs", "component/db/src/pd_handle/replica.rs", "component/db/src/forward", "component/server/src/cmd/syncsnapshot.rs"],
  [("every write gets the slot's next operation number and is forwarded with it", SLOT),
   ("a follower applies only the next number, drops older ones and re-fetches the slot on a gap", "component/db/src/slot/replica_update.rs, component/db/src/pd_handle/replica.rs process_cmd"),
   ("snapshot transfer with per-slot blocking of the stream", "component/db/src/pd_handle/replica.rs")],
  ["reads of every key on leader and followers"],
  [("operation number", "number of the last write applied to a slot", "component/dict/src/lib.rs")])

p("C11", "A follower's state is always a prefix of the leader's history",
  "At every moment each key on a follower has a value and expiry that the leader's copy had at some earlier moment, and never returns to an older one: no write is applied twice, out of order, partially, or after skipping an earlier write of the same slot.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of concurrent writers on one slot with forwarding, snapshot and apply; every network delay and stall",
  "No test starts a follower; the ordering of concurrently forwarded writes depends on preemption between unlocking a slot and queueing the message.",
  [SLOT, "component/db/src/slot/replica_update.rs", "component/db/src/pd_handle/replica.rs"],
  [("operation numbers compared with the last applied one under the slot lock", "component/db/src/slot/replica_update.rs"),
   ("stream messages of a slot wait while its snapshot is in flight", "component/db/src/pd_handle/replica.rs wait_slot")],
  ["reads on the follower while the leader is written, compared with the leader's recorded per-key history"])

p("C12", "Replication recovers from lost connections and restarts",
  "After the stream or a snapshot transfer between leader and follower breaks (reset, partition, stalled peer, leader or follower restart) and the network is healthy again, the follower resumes and converges to its leader within bounded time without operator action. A broken transfer never leaves a slot unusable, a follower spinning, or data that is neither the old nor a newer leader state.",
  ["fault_sequences", "crash_points", "schedules"],
  "every point at which a replication connection can break, every sequence of breaks, partitions and restarts",
  "No test starts a follower or injects a network fault.",
  ["component/db/src/pd_handle/replica.rs", "component/db/src/pd_handle/mod.rs", "component/db/src/forward/connection.rs"],
  [("snapshot in-progress flag and per-slot locks released when the transfer ends", "component/db/src/pd_handle/replica.rs"),
   ("gap detection triggers a re-fetch", "component/db/src/pd_handle/replica.rs process_cmd")],
  ["reads of every key on leader and follower after the faults stop", "virtual CPU steps used by an idle follower"])

p("C13", "A group has at most one leader and a live one keeps its role",
  "At any moment the placement driver reports at most one leader per group, and any two members asking without a change in between are told the same leader. A leader whose heartbeats arrive within the timeout is never deposed, however members join, restart or fail and however requests interleave.",
  ["schedules", "fault_sequences", "histories"],
  "every interleaving of joins, heartbeats and survival checks; every heartbeat delay below the timeout; every set of failing members",
  "The placement driver has no tests.",
  ["component/pd/src/status.rs", "component/pd/src/connect.rs", "component/db/src/pd_handle/mod.rs"],
  [("group state changed only under one write lock", "component/pd/src/status.rs"),
   ("survival check compares the last heartbeat with the timeout", "component/pd/src/status.rs server_survival_check"),
   ("members report the identity they were given", "component/db/src/pd_handle/mod.rs heartbeat")],
  ["replies to scripted and real members"],
  [("group", "members, roles, current leader", "component/pd/src/status.rs")])

p("C14", "A dead leader is replaced in bounded time and members learn it",
  "When a group's leader stops sending heartbeats while at least one other member is alive, a live member that has been in the group longest becomes leader within a bounded time, and every live member is told the new leader by its next heartbeat. A deposed member that comes back is a follower, the new leader keeps the data that had reached it and accepts writes, and the other members follow it.",
  ["fault_sequences", "crash_points", "schedules"],
  "every crash or partition time of the leader relative to heartbeats and checks, every group size, repeated failures",
  "The placement driver has no tests.",
  ["component/pd/src/status.rs", "component/db/src/pd_handle/mod.rs", "component/db/src/pd_handle/replica.rs"],
  [("periodic survival check", "component/pd/src/status.rs server_survival_check"),
   ("heartbeat reply carries the status when it differs", "component/pd/src/status.rs server_heartbeat"),
   ("member switches role", "component/db/src/pd_handle/mod.rs update_status")],
  ["replies to scripted and real members", "reads and writes on the members"])

p("C15", "Every request is answered in bounded time under every schedule",
  "As long as the process runs and the client reads, every complete request is answered within a bounded number of scheduler steps: no interleaving of commands, FLUSHALL, snapshots, expiry, replication and client disconnects deadlocks, livelocks or starves the server, and idle servers stay idle. No schedule makes a task of the server terminate abnormally.",
  ["schedules", "fault_sequences"],
  "every interleaving of lock acquisitions, channel operations and task wake-ups, also with few worker threads and slow or stalled threads",
  "Tests have one client and real scheduling; lock-order and lost-wake-up problems need rare interleavings.",
  [SLOT, "component/db/src/expire.rs", "component/db/src/forward", "component/server/src/cmd/syncsnapshot.rs", "component/db/src/child_process.rs"],
  [("locks are held briefly and in one order", SLOT + ", component/db/src/expire.rs"),
   ("background work communicates by unbounded channels", "component/db/src/lib.rs BgTask")],
  ["replies within a step bound", "scheduler state when nothing can run", "panics"])

p("C16", "Clock steps never crash the server or corrupt data",
  "When the wall clock jumps forwards or backwards by any amount at any moment, no connection is dropped, no task dies, no value changes, and each key's visibility follows the current clock and its recorded expiry alone. Idle time and access frequency reports stay within their documented ranges.",
  ["fault_sequences", "schedules", "inputs"],
  "every sequence of forward and backward clock steps at every point of every command and background task",
  "Tests run with the machine's steadily advancing clock only.",
  ["component/dict/src/lib.rs", "component/db/src/expire.rs", "component/server/src/cmd/others/object.rs", "component/common/src/lib.rs"],
  [("access log arithmetic on minutes and seconds", "component/dict/src/lib.rs update_visit_log"),
   ("sleep until the earliest expiry, re-evaluated after waking", "component/db/src/expire.rs")],
  ["client sockets under a stepping simulated clock", "panics"])

p("C17", "Shutdown and start-up failures are clean",
  "When the shutdown signal arrives the server stops accepting new connections and its run returns, whatever connections and background work are in progress, and every reply already sent stays valid. When the accept call keeps failing beyond its retry budget, or the placement driver cannot be reached at start-up, the process gives up instead of running half-initialised.",
  ["schedules", "crash_points", "fault_sequences"],
  "every moment of the signal relative to accepts, connection limit waits, commands, snapshots and back-off sleeps; every start-up fault",
  "Every test passes a signal that never fires.",
  ["component/server/src/lib.rs", "component/db/src/lib.rs", "component/db/src/pd_handle/mod.rs"],
  [("select between accept loop and shutdown future", "component/server/src/lib.rs run"),
   ("start-up errors exit", "component/db/src/lib.rs Db::new")],
  ["completion of the server's run", "refused connections afterwards", "process exit status"])

p("C18", "Keys map to slots by the documented hash",
  "Every key is routed to the slot given by CRC16 of the key, or of its hash tag when it has a non-empty one, modulo 16384.",
  ["inputs"], "every key", "Tests use a handful of keys and never look at slots.",
  ["component/db/src/lib.rs"], [("crc16 with hash tag", "component/db/src/lib.rs get_slot")],
  ["slot ids in snapshots"])
p("C19", "Frame encoding and decoding are inverse",
  "Every reply value encodes to bytes that decode to the same value, and decoding never reads past the end of the input or accepts a malformed frame.",
  ["inputs"], "every frame value and every byte string", "Unit tests cover a few fixed frames.",
  ["component/common/src/connection/parse/frame.rs"], [("nom parser and writer", "component/common/src/connection/parse/frame.rs")],
  ["parser output"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
