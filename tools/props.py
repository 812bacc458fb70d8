#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table.
Usage: tools/props.py [ID...]   (the claimed checks; default: all)"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SUB = ["internal/ctsubmit/logic.go", "internal/ctsubmit/config.go", "internal/ctsubmit/bucket.go", "internal/ctsubmit/storage.go"]
MON = ["internal/ctmonitor/logic.go", "internal/ctmonitor/fetch.go", "internal/ctmonitor/storage.go"]
MC = "stateless bounded-exhaustive model checking of the real log process: "
ENUM = "explicit exhaustive enumeration on the real code: "
P = []
def p(id, title, statement, over, text, why, files, mech, tech, note, observe, state=()):
    P.append(dict(prop=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)), tech=tech, note=note))

SCHED = ["schedules", "crash_points", "fault_sequences"]
NOTE = ("Every execution within the stated deviation bound is run on the unmodified code (compiled with the standard library's network, "
        "clock, exit and signal seams redirected), under virtual time. Trusted: the S3 and Consul stand-ins, atomic S3 objects, the reference "
        "implementation in mc/ref, and the default goroutine order inside one quiescent step.")
EN = "Complete over the stated finite input space, on the real code; values outside it are not covered. Trusted: the reference implementation in mc/ref. "

p("C01", "What a published tree head promises is readable, complete and right",
  "Whenever a reader can see an STH or checkpoint of size n, every data tile, Merkle tile and issuer certificate that the tree of size n needs is already in the store with exactly the right content, and it stays there, unchanged, for every size ever published. "
  "Both documents are correctly signed by the log's key over the Merkle root of exactly the n entries in the data tiles. "
  "This holds at every instant, whatever the order of store operations, whichever of them fail, and wherever the process is killed.",
  SCHED + ["histories"], "every order of in-flight store operations, failing operation, kill point with any subset of in-flight writes landing, restart and hand-over, for logs around tile boundaries",
  "The integration test lets a healthy log run against a healthy store and reads afterwards; it never looks between two writes, never fails one and never crosses a tile edge under faults.",
  SUB + ["internal/sunlight/tile_ol.go", "internal/sunlight/checkpoint_ol.go"],
  [("all tile, index and issuer uploads are awaited before the STH is written", "internal/ctsubmit/logic.go stageTwo"), ("edge tiles are verified against the STH on start", "internal/ctsubmit/config.go LoadLog")],
  MC + "all single (thorough: double) deviations in operation order, faults, kills and timing, reference Merkle tree checked at every head", NOTE, ["object store contents at every write of get-sth and checkpoint"],
  [("ct/v1/get-sth, checkpoint", "the published heads", "object store"), ("tile/...", "data and Merkle tiles", "object store")])
p("C02", "The log is append-only: one history, never forked or shortened",
  "Any two tree heads (STH or checkpoint) the log ever makes visible are consistent: the later one never has fewer entries, and the entries of the smaller tree are a prefix of those of the larger one. "
  "This holds across restarts, crashes with writes in flight, failed and abandoned writes, and hand-over between processes.",
  SCHED + ["histories"], "all pairs of heads along every explored history of one or two log processes, including restarts",
  "A test sees a handful of heads of one uninterrupted run; a fork needs a crash or a fault between particular writes and a restart.",
  SUB, [("the next index comes from the last published STH and partial tiles of unpublished entries are overwritten", "internal/ctsubmit/config.go LoadLog"), ("fail-stop on any error in the second stage", "internal/ctsubmit/logic.go Start")],
  MC + "all heads of every explored history compared with one accumulated reference tree", NOTE, ["get-sth and checkpoint writes"])
p("C03", "An SCT is only given for an entry that is already published, and stays true",
  "When a client receives an SCT, an STH and a checkpoint covering its leaf index are already readable, and the published leaf at that index is exactly the one the SCT's signature covers (certificate or TBS, timestamp, index extension). "
  "It stays so through every later restart, crash and hand-over. The SCT verifies under the log's key with the log's id.",
  SCHED + ["histories", "inputs"], "every SCT answered in every explored history with final certificates and precertificates under plain and precertificate-signing issuers",
  "Tests verify SCTs of a healthy run; a promise that is given too early or that a crash invalidates needs a specific kill point.",
  SUB + ["internal/sunlight/digitallysign_ol.go", "internal/sunlight/extensions_ol.go"],
  [("answers are released after STH, checkpoint and dedupe uploads", "internal/ctsubmit/logic.go stageTwo")],
  MC + "every answer verified against the store at the moment it is received and again at the end", NOTE, ["add-chain and add-pre-chain answers", "get-sth, checkpoint, data tiles"])
p("C04", "Entries are numbered densely and each is exactly one submission",
  "Entry i of the published log says leaf index i, for every i; no index is skipped, repeated or reused with another content. "
  "Every entry is exactly what one accepted submission calls for - its type, certificate or TBS, issuer key hash, precertificate and chain - never a mixture of two, and nothing that was not submitted is ever logged.",
  SCHED + ["inputs"], "all explored interleavings of concurrent submissions, pools of 1 to 255 entries, restarts",
  "Tests submit a few entries in sequence; mixing or skipping needs concurrency, full pools or a restart with leftovers.",
  SUB + ["internal/sunlight/tile_ol.go"], [("a single sequencer goroutine numbers entries", "internal/ctsubmit/logic.go stageOne")],
  MC + "every published entry parsed by an independent decoder and matched with the submissions", NOTE, ["data tiles"])
p("C05", "A resubmitted certificate gets the same SCT",
  "Once a submission has been answered with an SCT, submitting the same certificate, or precertificate under the same issuer, again yields the identical SCT, also after a restart or hand-over, as long as the lookup does not fail. "
  "The lookup never yields an SCT for an entry that is not in the published tree or is another one.",
  SCHED + ["histories"], "resubmission during, after and long after the first, at every kill point and by every later process",
  "Tests resubmit once on a healthy log; a lost or wrong record needs a crash, a merge with an existing file, or many records in one file.",
  SUB, [("deduplication records are written after the STH and before the answer", "internal/ctsubmit/bucket.go PutDedupeEntries")],
  MC + "answers to resubmissions compared byte for byte and every lookup file audited at every write", NOTE, ["answers", "int/dedupe/"])
p("C06", "Exactly the acceptable chains are logged",
  "A submission is answered with an SCT if and only if it is a well-formed chain, in order, from a leaf to a root the log serves in get-roots (the root itself may be omitted), with valid signatures, whose leaf expires inside the log's window (start inclusive, limit exclusive) and is a precertificate exactly when sent to add-pre-chain. "
  "Everything else - malformed JSON, oversized bodies, other methods and paths included - gets an error, leaves no trace in the log and does not stop it.",
  ["inputs", "configurations"], "the enumerated product of chain shapes, endpoints, expiry times around both window edges, and malformed requests",
  "Tests try a dozen chains; the guarantee is about every combination and both exact window edges.",
  SUB, [("ctfe.ValidateChain with the window and the trusted roots", "internal/ctsubmit/logic.go stageZero"), ("128 KiB body limit", "internal/ctsubmit/logic.go Start")],
  ENUM + "all combinations of chain shape, endpoint, expiry and malformation against the running log", EN, ["answers", "data tiles"])
p("C07", "Precertificates are logged as RFC 6962 prescribes",
  "For every accepted precertificate the logged TBS is the one the final certificate would have: poison removed, everything else byte for byte the same, and for a precertificate-signing issuer the issuer name and authority key identifier of the real issuer. "
  "The issuer key hash is that of the key that will sign the final certificate.",
  ["inputs"], "all enumerated extension layouts, poison positions, issuers and presence of key identifiers",
  "Tests use one or two precertificates with one extension layout.",
  SUB[:1], [("x509.BuildPrecertTBS and the choice of issuer", "internal/ctsubmit/logic.go stageZero")],
  ENUM + "logged entries compared with the TBS of the independently issued final certificate", EN, ["data tiles", "SCTs"])
p("C08", "Only the process that holds the lock writes, and one that cannot go on stops",
  "Of all the processes serving a log at most one writes to its store at any time, and only while it holds the Consul lock; a process that loses the lock, cannot finish a publication or is interrupted writes no more and ends. "
  "A standby that takes over continues from what was published.",
  SCHED, "two processes with crash, interrupt, lost session, unreachable Consul, failed writes and stalls at every point, notices immediate or late",
  "The tests run one process with an always-available lock.",
  SUB[:2], [("exit when the lock is lost", "internal/ctsubmit/config.go LoadLog"), ("release of the lock on any stage error", "internal/ctsubmit/logic.go Start"), ("no publication is cut short by Ctrl-C", "internal/ctsubmit/config.go LoadLog")],
  MC + "two processes, a Consul stand-in with sessions and lock-delay, and all placements of one (thorough: two) failures",
  NOTE + " As Consul assumes, the lock-delay outlasts a lost process's requests.", ["store writes", "lock holder", "process exits"])
p("C09", "Every request is answered and the log recovers and stays fresh",
  "Every submission is answered in bounded time - with an SCT, or 503 when the log cannot publish fast enough - whatever the store does, and the log never hangs, nor ends while the store and Consul do what it asks of them, nor keeps goroutines or files of requests that are over. "
  "After any crash or fault a restarted log comes up, accepts what it is sent, and keeps renewing its STH even when idle.",
  SCHED, "all explored histories, including a store that takes no writes for 40 s with more submissions than the queues hold",
  "Tests never make the store slow or let it fail, and never overrun a queue.",
  SUB, [("timeouts around both queues", "internal/ctsubmit/logic.go stageZero"), ("empty pools are flushed", "internal/ctsubmit/logic.go stageOne")],
  MC + "bounded response and recovery monitored in virtual time in every explored history", NOTE, ["answers", "STH age"])
p("C10", "A restarted log continues exactly where it was, or refuses to start",
  "A log started from any store that a correct log left behind - of any size, with leftovers of an unfinished publication - goes on to publish exactly the tree that an uninterrupted log would have. "
  "If an object it depends on is missing, truncated, or altered in what the tree head covers, it refuses to start instead of publishing a tree that contradicts what is published.",
  ["histories", "inputs", "crash_points"], "sizes around every tile boundary; every object the start reads, missing, truncated, altered or replaced by another version",
  "Tests only restart an intact log, if at all.",
  SUB, [("edge tiles are fetched and verified against the STH root", "internal/ctsubmit/config.go LoadLog")],
  ENUM + "sizes x damaged objects, each followed by a publication checked against the reference tree", EN, ["process exit", "published heads"])
p("C11", "The lookup files find every entry",
  "For every entry of a published tree the by-hash lookup file named by the first bits of its leaf hash holds a record of its hash prefix and index from the moment the tree is visible; files are sorted, whole records only, each in its right file. "
  "No write ever drops a record of a published entry.",
  SCHED + ["histories"], "every write of a lookup file in every explored history; several records per file, equal prefixes, restarts",
  "Tests look up a few hashes in small files.",
  ["internal/ctsubmit/bucket.go", "internal/sunlight/misc.go"], [("read-merge-write of lookup files", "internal/ctsubmit/bucket.go PutRecordHashes")],
  MC + "every lookup file audited at every write and every head", NOTE, ["int/hashes/", "int/dedupe/"])
p("C12", "The two storage backends behave alike and the file backend never tears",
  "Set followed by Get returns exactly what was set, Exists tells whether something was, and a missing object is recognised as missing, identically on S3 and on the file system, for all keys the log uses. "
  "On the file system a reader or a process restarted after a crash sees an object either as before a write or as after it, never in part; a write that reports success has taken place, whichever of its steps failed; and what is stored can be read by other users, such as a web server's, where the umask allows.",
  ["histories", "crash_points", "fault_sequences", "inputs"], "all sequences of operations up to a depth; every file system step of a write as crash point, torn and failing writes",
  "Tests write small objects on a healthy disk and never stop in the middle.",
  ["internal/ctsubmit/storage.go"], [("FsStorage and S3Storage", "internal/ctsubmit/storage.go")],
  ENUM + "operation sequences and crash, error and torn-write points of every file system call of the real backend, with all interleavings of two operations; and of the real log on a directory", EN + "Loss of unsynced data on power failure is out of scope.", ["Storage interface", "files"])
p("C13", "get-entries returns exactly the requested range, or a prefix of it",
  "For every tree size n and every range 0 <= start <= end with start < n, get-entries answers with entries start, start+1, ... of the published tree - at least one, none beyond end or n - each with the exact leaf input and the extra data (precertificate and full chain) of RFC 6962. "
  "A start at or beyond n, or a malformed range, gets an error.",
  ["inputs"], "all (n, start, end) around every tile boundary, entry types and chain lengths",
  "Tests read one small log; off-by-one errors sit at tile boundaries and partial tiles.",
  MON + ["internal/sunlight/tile_ol.go"], [("range to tile arithmetic", "internal/ctmonitor/logic.go")],
  ENUM + "all sizes and ranges of the bounded grid against a reference log", EN, ["get-entries answers"])
p("C14", "Inclusion proofs are right for every entry and every tree size",
  "get-proof-by-hash answers for every published leaf hash and every tree size, up to the published one, that contains it with the index and audit path that verify against that tree's root, and get-entry-and-proof with the entry and that same path. "
  "For a hash that is not in the tree of the requested size, or a tree larger than published, it answers with an error, never with a proof that does not verify.",
  ["inputs"], "all (n, size, index) around tile boundaries, present, absent and prefix-sharing hashes",
  "Tests verify a few proofs in a small log.",
  MON + ["internal/sunlight/tile_reader_ol.go"], [("tlog.ProveRecord over stored tiles", "internal/ctmonitor/logic.go"), ("lookup files", "internal/ctsubmit/bucket.go GetRecordHash")],
  ENUM + "every proof of the bounded grid verified with an independent RFC 6962 verifier", EN, ["get-proof-by-hash, get-entry-and-proof answers"])
p("C15", "Consistency proofs are right for every pair of sizes",
  "get-sth-consistency answers for every 0 < first <= second <= n with the proof RFC 6962 defines, which verifies between the roots of the two sizes (empty when they are equal). For sizes out of order or beyond n it answers with an error (first = 0 is left open).",
  ["inputs"], "all (n, first, second) around tile boundaries up to several thousand",
  "Tests check a few pairs in a small log.",
  MON, [("tlog.ProveTree over stored tiles", "internal/ctmonitor/logic.go")],
  ENUM + "every pair of the bounded grid, compared with and verified by an independent implementation", EN, ["get-sth-consistency answers"])
p("C16", "Readers get right answers while the log is being written",
  "While a log publishes, and after it crashed at any point and left unfinished objects behind, every answer of the read side to a valid request is right with respect to some tree head published by the time of the answer, and requests that worked keep working. What get-sth and get-roots show is never more than an hour behind the store.",
  SCHED + ["inputs"], "every placement of a store write between two store reads of a request; every set of leftovers of an unfinished publication",
  "Tests read after writing has finished.",
  MON + SUB[:1], [("reads go by the current STH", "internal/ctmonitor/logic.go")],
  "bounded-exhaustive model checking: all interleavings of the reads of one request with the writes of a publication, and all leftovers of an unfinished one", NOTE, ["read side answers"])
p("C17", "Bad input and a failing backend yield errors, never wrong answers or crashes",
  "The read side answers every malformed, out-of-range or unknown request with a client error, and a request whose store reads fail, find nothing, or come back truncated with an error answer (or, where another read can serve it, the right one). "
  "It never crashes, hangs, keeps connections, files or goroutines of requests that are over, or answers 200 with wrong data, and goes on serving; a slow read, or a client that goes away, spoils nobody else's answer.",
  ["inputs", "fault_sequences"], "enumerated malformed parameters per endpoint; every store read of every request kind failing, missing, truncated, or altered in length",
  "Tests send well-formed requests to a healthy store.",
  MON, [("error handling per endpoint", "internal/ctmonitor/logic.go")],
  ENUM + "endpoint x malformed parameters, and request x read x fault", EN, ["read side answers"])
p("C18", "The edge deployment answers exactly as the native read side",
  "Given the same store, the Fastly deployment answers every get-entries, get-sth-consistency, get-proof-by-hash and get-entry-and-proof request with the same status and the same body as the native read side; get-entries may answer with a shorter, never empty, prefix of the range, and needs no more backend requests than the platform's limit of 10, or says that it should be asked again. "
  "Objects cached earlier never make an answer wrong, failures are never cached, and logs behind one service are never mixed up.",
  ["inputs", "histories", "fault_sequences"], "the request grids of C13-C15 and C17 on the Fastly handler; every cache content from an earlier state of the store; every backend request failing; chains of 0 to 24 certificates; pairs of requests to several logs",
  "The Fastly handler has no tests at all.",
  ["internal/ctmonitor/fastly.go", "internal/ctmonitor/logic.go", "internal/ctmonitor/fetch.go"], [("FastlyServe adapts requests, storage and answers", "internal/ctmonitor/fastly.go")],
  ENUM + "differential against the native read side and the reference, over requests, cache contents, backend failures and hosts", EN + "The Fastly runtime is replaced by a stand-in for the host calls of its SDK (configuration, cache with expiry, backends).", ["answers of both"])
p("C19", "The stored encodings are exact, inverse and strict",
  "Everything the log writes - data tile entries, extensions, lookup records, paths, tree heads, checkpoints - has exactly the bytes its format prescribes and decodes to what was encoded; decoding anything else fails instead of yielding a value (for the base64 of a checkpoint's root, line ends and padding bits may be taken leniently; tree head timestamps beyond 63 bits may be refused). "
  "Distinct tiles, hashes and indexes have distinct, well-formed paths.",
  ["inputs"], "boundary values of every field and their combinations; every truncation and every single-byte change of sample encodings",
  "Tests cover typical values only.",
  ["internal/sunlight/tile_ol.go", "internal/sunlight/extensions_ol.go", "internal/sunlight/misc.go", "internal/sunlight/checkpoint_ol.go", "internal/ctsubmit/bucket.go"],
  [("cryptobyte encoders and decoders", "internal/sunlight")],
  ENUM + "field boundary products, truncations and byte changes against an independent codec", EN, ["encoder and decoder results"])
p("C20", "Signatures are deterministic, verify, and verify nothing else",
  "Signing the same content twice gives identical, valid ECDSA signatures as RFC 6979 prescribes, for every supported curve and hash. "
  "Checkpoint and tree head verification accepts exactly the signatures made by the named key over the same size, root and timestamp.",
  ["inputs"], "all curves and hashes with boundary messages and keys; every single-field change and every single-byte change of a signed head",
  "Tests hold a few published vectors.",
  ["internal/rfc6979/ecdsa_ol.go", "internal/sunlight/checkpoint_ol.go", "internal/sunlight/digitallysign_ol.go"],
  [("RFC 6979 nonce", "internal/rfc6979/ecdsa_ol.go"), ("note verifier", "internal/sunlight/checkpoint_ol.go")],
  ENUM + "keys x hashes x messages against an independent RFC 6979, and all single changes of signed heads", EN, ["signatures", "verification results"])
p("C21", "Concurrent requests do not affect each other",
  "The answer to each request, on the read side and on the submission side, is as right as if it were served alone, whatever other requests are being served at the same time and wherever another goroutine of the same process is held up meanwhile; so is everything the log publishes. No two goroutines of a process access the same memory, one of them writing, with nothing that orders the two.",
  ["schedules", "inputs"], "every pair of requests of every kind with a switch at every statement of one, or of both; every goroutine of the log held up at every statement while submissions come",
  "Tests issue requests one at a time, and the race detector only sees the orders that happen to occur.",
  MON + SUB[:1], [("handlers keep their state per request", "internal/ctmonitor/logic.go, internal/ctsubmit/logic.go")],
  "bounded-exhaustive exploration under a controlled scheduler: real processes compiled with a scheduling point before every statement of itko's code, every single (for some pairs double) switch, with a monitor of conflicting accesses to shared memory in every state", "Complete for one switch (two for some pairs) at statement boundaries of itko's own packages; libraries between two points are atomic; within a statement and beyond sequential consistency, by the absence of conflicting accesses that are enabled together. Trusted: the S3 and Consul stand-ins and the reference implementation in mc/ref.", ["answers"])
p("C22", "Setup produces a log that starts",
  "After setup with any valid root file, key and configuration, on S3 or the file system, the log starts, serves exactly the given roots, has an empty signed tree head, and its first publication is consistent with it; if any step of setup fails, setup reports failure.",
  ["configurations", "fault_sequences"], "root files, key formats and backends; every write of setup failing",
  "Setup is only exercised once by the integration test.",
  ["internal/ctsetup/main.go", "internal/ctsubmit/config.go"], [("MainMain", "internal/ctsetup/main.go")],
  ENUM + "configurations x failing writes, each followed by starting the real log", EN, ["exit status", "store", "Consul KV"])
p("C23", "Timestamps never lie",
  "Entry timestamps never decrease along the log, no entry, SCT or head carries a timestamp in the future, every head's timestamp is at or after those of all its entries, and successive heads never go back in time - on a clock that does not go back.",
  SCHED, "all explored histories, including restarts and hand-over",
  "Tests look at single timestamps.",
  SUB[:2], [("timestamps are taken when sequencing and when signing", "internal/ctsubmit/logic.go")],
  MC + "all timestamps of every explored history", NOTE, ["entries, SCTs, heads"])

claimed = sys.argv[1:] or [x["prop"]["id"] for x in P]
with open(V + "/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["prop"]["title"]) <= 80, x["prop"]["id"]
        f.write(json.dumps(x["prop"]) + "\n")
m = dict(version=1, setup_cmd="./setup.sh",
    hooks=dict(guard="verif", enable="No hooks are needed in /repo: the checks compile /repo's working tree unchanged, with seams added to a copy of the Go standard library through go build -overlay (tools/mkoverlay.py); C21 also overlays generated copies of three of /repo's packages with a call before each statement (tools/instrument).", source_commits=[]),
    checks=[dict(property=x["prop"]["id"], quick_cmd="./check.sh %s quick" % x["prop"]["id"], thorough_cmd="./check.sh %s thorough" % x["prop"]["id"],
        evidence_file="evidence/%s.json" % x["prop"]["id"], technique=x["tech"], level="model_checking", level_note=x["note"]) for x in P if x["prop"]["id"] in claimed],
    not_applicable=[dict(property=x["prop"]["id"], reason="The check is not built yet.") for x in P if x["prop"]["id"] not in claimed],
    notes="See DESIGN.md. known_findings.json lists known and fixed findings.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
