"""property id -> its text (spec) and how it is searched (profiles)"""
CORE = ["libethereum (Client, SkaleHost, TransactionQueue, Block, BlockChain, Executive)", "libskale (State, OverlayDB, UnsafeRegion)", "libevm", "libdevcore (LevelDB facade, ManuallyRotatingLevelDB, Worker, ...)", "LevelDB library", "libdevcrypto/libethcore", "libbatched-io", "libskutils"]
STUBS = ["consensus engine (driven by the scenario through ConsensusExtFace)", "BLS library", "ethash", "btrfs commands (directory trees)", "ZeroMQ transport", "HTTP transport", "kernel scheduler, clocks, sleep, randomness, file system faults (simulated runtime)"]
RT = ["kernel scheduler, clocks, sleep, randomness, file system faults (simulated runtime)"]
KILL = "a crash is a process kill at a disk operation (optionally with that write torn); the page cache survives, power loss is not modelled"
BOUND = "bounded search: what it did not draw is not covered; compiled with gcc -O1 and asserts on, same sources as skaled"
PROPS = {}
NA = {}
def P(id, title, statement, over, text, why, files, mech, obs, profiles, oracle, note, real=None, stub=None, assume=None, probes=None, level="exploration", **kw):
    PROPS[id] = dict(spec=dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, obs=obs), profiles=profiles, oracle=oracle, note=note + "; " + BOUND,
                     real=real or CORE, stub=stub or STUBS, assume=assume or [], probes=probes or [], level=level, **kw)
def N(id, title, statement, over, text, why, files, mech, obs, reason):
    NA[id] = dict(spec=dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, obs=obs), reason=reason)

P("C01", "Interrupted block import resumes to exactly the same chain and state",
  "If the process is killed at any moment while it processes finalized blocks, then after restart the node holds exactly some prefix of the finalized blocks, and re-delivering the following block leads to the same block hashes, state, receipts and logs as a node that was never interrupted. No transaction's effects are ever applied twice, lost or half applied, also when the restart happens in the middle of a block and when the kill hits recovery itself.",
  ["crash_points", "schedules", "inputs"], "every kill point among the disk operations of start-up and block import (including kills during recovery), every block content within the generator, every interleaving of the node's threads",
  "the tests never kill the process: they cover uninterrupted imports and one hand-written partial-catch-up case",
  ["libethereum/Client.cpp", "libethereum/Block.cpp", "libethereum/BlockChain.cpp", "libskale/State.cpp", "libskale/OverlayDB.cpp", "libethereum/SkaleHost.cpp"],
  [("partial receipts and per-transaction state commits", "libethereum/Block.cpp, libskale/State.cpp"), ("block insertion into the batched database", "libethereum/BlockChain.cpp"), ("partial catch-up detection", "libethereum/SkaleHost.cpp")],
  ["block hashes, state root hash, balances, nonces, code, storage, receipts, logs after every restart"],
  [dict(scn="chain", profile="crash")], "crash-and-restart runs compared with an uninterrupted reference execution",
  "kills the real node at random disk operations, restarts it on what is left and compares everything with an uninterrupted run", assume=[KILL], probes=["restart with a partly executed block"], level="fault_enumeration")
P("C02", "Nodes fed the same finalized blocks agree, whatever else they are doing",
  "Two nodes that receive the same sequence of finalized blocks (transactions, timestamp, gas price) compute identical block hashes, state roots, receipts, logs and balances, regardless of restarts, of the content of their local transaction pool, of concurrent submissions, reads and calls, of thread scheduling and of slow disks.",
  ["schedules", "histories", "inputs", "configurations"], "every block sequence within the generator, every interleaving of block import with submissions, reads, proposal requests and restarts",
  "the tests run one node, mostly one thread; agreement under different local histories cannot be observed there",
  ["libethereum/SkaleHost.cpp", "libethereum/Client.cpp", "libethereum/Block.cpp", "libskale/State.cpp", "libethereum/TransactionQueue.cpp"],
  [("deterministic block execution from consensus input only", "libethereum/SkaleHost.cpp, libethereum/Block.cpp")],
  ["block hashes, state roots, receipts, logs, balances of two executions"],
  [dict(scn="chain", profile="replica")], "two differently scheduled and loaded nodes compared after every block",
  "compares a quiet reference node with a busy, restarted, slowed one")
P("C03", "The rotating block database never loses a retained block",
  "When the block database is rotated and old parts are deleted, every block inside the retention guarantee stays readable (header, body, receipts, transaction and log lookup), the head is never lost, and a kill at any moment of rotation leaves a database that opens and continues to import the same chain.",
  ["crash_points", "histories", "configurations"], "every kill point around rotation, every block size pattern and rotation threshold in the generator",
  "the tests rotate a database without any kill and with one geometry",
  ["libdevcore/ManuallyRotatingLevelDB.cpp", "libbatched-io/batched_rotating_db_io.cpp", "libethereum/BlockChain.cpp"],
  [("rotation order and current-piece mark", "libbatched-io/batched_rotating_db_io.cpp"), ("rotation trigger by size", "libethereum/BlockChain.cpp")],
  ["block, receipt, transaction and log queries after each block and each restart"],
  [dict(scn="chain", profile="rotation")], "kill points around database rotation, all retained blocks compared with the reference",
  "as C01 with tiny rotation thresholds and archive mode", assume=[KILL], level="fault_enumeration")
P("C04", "Disk errors never turn into silently wrong state",
  "When disk writes or reads fail (I/O error, full disk, short write) while the node runs, it either refuses or retries the operation or stops; a block it reports as imported has exactly the effects it has on a healthy node, and after the disk recovers and the node restarts it continues with the same chain and state.",
  ["fault_sequences", "schedules", "inputs"], "every sequence of injected disk errors within the generator, at every file operation of block import and start-up",
  "the tests never inject a disk error",
  ["libskale/OverlayDB.cpp", "libdevcore/LevelDB.cpp", "libethereum/BlockChain.cpp", "libethereum/SkaleHost.cpp"],
  [("retry of failed state commits", "libskale/OverlayDB.cpp"), ("error propagation from the database facade", "libdevcore/LevelDB.cpp")],
  ["imported blocks, state and receipts against a healthy reference node"],
  [dict(scn="chain", profile="ioerr")], "injected disk errors, imported blocks compared with a healthy reference",
  "injects EIO, ENOSPC and short writes into the real LevelDB under the real node", level="fault_enumeration")
P("C05", "The transaction pool behaves like one consistent map under concurrent use",
  "Concurrent submissions, removals, promotions and selections of transactions behave as if executed one after another on a single pool: nothing is lost, invented or held twice, counters and limits match the contents, and no client can crash the pool. Selections list transactions of one account in increasing nonce order without duplicates, and every pending transaction is eventually handed out for broadcasting.",
  ["schedules", "histories"], "every interleaving (down to single memory accesses) of up to five client threads with up to 30 operations each over up to 60 transactions",
  "the tests use the pool from one thread",
  ["libethereum/TransactionQueue.cpp", "libethereum/TransactionQueue.h"],
  [("one reader-writer lock over all indexes", "libethereum/TransactionQueue.h"), ("priority order by account height", "libethereum/TransactionQueue.h")],
  ["results of every pool operation; final contents and counters"],
  [dict(scn="txq", profile="model", w=2), dict(scn="txq", profile="load")], "linearizability against a sequential model plus invariants under load",
  "checks recorded histories against a 100-line sequential pool; plain memory accesses of the pool are scheduling points", real=["libethereum/TransactionQueue", "boost shared_mutex"], stub=RT)

P("C06", "Log queries return exactly the matching events",
  "A log query (address set, topic sets by position, block range) returns every matching event of every retained block in the range, once, in chain order, with the right block, transaction and position, and nothing else; on a restarted, crashed, rotated, archived or cache-starved node, while blocks are being imported, as on an undisturbed one.",
  ["histories", "schedules", "crash_points", "inputs"], "every sequence of blocks with up to four logs of up to four topics per transaction, every filter, restarts and kills at any disk operation, rotation and archive geometry, cache pressure, concurrent imports and queries within the generator",
  "the tests query a handful of fixed logs on a freshly filled single-threaded chain",
  ["libethereum/ClientBase.cpp", "libethereum/BlockChain.cpp", "libethereum/LogFilter.cpp", "libbatched-io/batched_rotating_db_io.cpp"],
  [("two-level block bloom index kept in the rotating database and a cache", "libethereum/BlockChain.cpp"), ("matching", "libethereum/LogFilter.cpp, libethereum/ClientBase.cpp")],
  ["the answer of every log query against the list of events the reference execution really emitted"],
  [dict(scn="logs", profile="query"), dict(scn="logs", profile="hot")], "every answer compared with a plain list of all events",
  "queries run from the import thread and from concurrent client threads, before, between and after restarts", assume=[KILL], probes=["log query with results"])
P("C07", "Filters deliver every event exactly once, in order, to whoever installed them",
  "A client that installs a block or log filter and keeps polling it receives, over all its polls, each matching block or event finalized after the installation exactly once, in chain order, with the right identity, whatever other clients install, poll, uninstall or let expire, and however their calls interleave with block import.",
  ["schedules", "histories"], "every interleaving of up to four clients (four filters each) with block import within the generator, restarts in between",
  "the tests install one filter from one thread",
  ["libethereum/ClientBase.cpp", "libethereum/Client.cpp", "libethereum/LogFilter.cpp"],
  [("filter and watch tables under one lock, filled by the import thread", "libethereum/ClientBase.cpp, libethereum/Client.cpp")],
  ["contents of every poll"],
  [dict(scn="logs", profile="watch")], "polled events compared with the list of all events since the installation",
  "expiry after 20 s without a poll is modelled as allowed, not required", probes=["filter polled", "filter uninstalled"])
P("C08", "Every accepted transaction is executed exactly once",
  "A transaction the node accepts from a client - in any order, with future nonces, duplicated, while blocks are imported, while the node restarts in an orderly way and is given the transactions again - is executed in exactly one block, after a bounded number of the node's own proposals once its account's earlier nonces are executed, whether it is the own proposal or that of another node that is finalized. A block contains exactly the transactions finalized by consensus that are valid at that point, in that order. Valid submissions are accepted, invalid ones are refused without a trace.",
  ["schedules", "histories", "inputs"], "every interleaving of up to two clients, two peers and the consensus loop within the generator; own, foreign and catch-up blocks, junk transactions in proposals, restarts, pool limits",
  "the tests submit and finalize by hand from one thread",
  ["libethereum/SkaleHost.cpp", "libethereum/Client.cpp", "libethereum/TransactionQueue.cpp"],
  [("queueing, proposal and drop after execution", "libethereum/SkaleHost.cpp, libethereum/TransactionQueue.cpp"), ("validation at submission", "libethereum/Client.cpp")],
  ["answers to submissions, contents of proposals and blocks"],
  [dict(scn="host", profile="flow")], "full node under clients, gossip and consensus; every accepted transaction is followed to its block",
  "the consensus loop proposes, finalizes own and foreign proposals and catches up in its own thread")
P("C09", "Block proposals are well formed and executable",
  "Every list of transactions the node hands to consensus for a proposal respects the transaction limit and the block gas limit, contains no transaction twice and none already executed, lists the transactions of each sender with consecutive nonces from its current state nonce, and names the current state root - whatever is submitted, gossiped or imported meanwhile.",
  ["schedules", "histories", "inputs"], "every interleaving of submissions, gossip, block import and proposal requests within the generator",
  "the tests ask for proposals at quiet moments of one thread",
  ["libethereum/SkaleHost.cpp", "libethereum/TransactionQueue.cpp"],
  [("selection from the pool and checks against the state", "libethereum/SkaleHost.cpp")],
  ["every answer of pendingTransactions"],
  [dict(scn="host", profile="flow")], "every proposal checked against the chain at the time of the request",
  "same runs as C08, judged by the proposals")
P("C10", "Transactions are gossiped once, and hostile gossip is harmless",
  "Every transaction a client submits to the node is offered to its peers exactly once unless it is executed first; a transaction received from a peer is not sent on; nothing is sent that was not submitted. Lost, duplicated, reordered, echoed and malformed gossip and send errors leave the node's chain, pool and other gossip unaffected.",
  ["schedules", "fault_sequences", "inputs"], "every pattern of gossip loss, duplication, reordering, echo, garbage and send errors within the generator",
  "the tests have no peers",
  ["libethereum/SkaleHost.cpp", "libskale/broadcaster.cpp", "libethereum/TransactionQueue.cpp"],
  [("broadcast thread and received set", "libethereum/SkaleHost.cpp"), ("ZeroMQ wrapper", "libskale/broadcaster.cpp")],
  ["messages sent to peers"],
  [dict(scn="host", profile="flow")], "every sent message matched with submissions and received gossip",
  "the ZeroMQ library is replaced by a simulated lossy network")
P("C11", "The node always stops, and at the planned time",
  "An orderly stop at any moment - during start-up, import, gossip, submissions, reads - finishes within bounded time, leaves a database from which the node continues the same chain, and lets no client call crash the node. When a planned rotation exit is due, the node exits after the block that reaches that time, reports it to its supervisor and processes no further block; a planned exit that was accepted survives kills and disk errors, and one that was changed or cancelled does not happen.",
  ["schedules", "crash_points", "histories"], "every stop time and interleaving within the generator",
  "the tests stop idle nodes",
  ["libethereum/Client.cpp", "libethereum/SkaleHost.cpp", "libdevcore/Worker.cpp", "libethereum/InstanceMonitor.cpp"],
  [("stop order and joins", "libethereum/Client.cpp, libethereum/SkaleHost.cpp, libdevcore/Worker.cpp"), ("planned rotation", "libethereum/InstanceMonitor.cpp")],
  ["end of the stop, exit code, blocks after the restart"],
  [dict(scn="host", profile="stop", w=3), dict(scn="host", profile="flow")], "stops, kills and planned exits at random times under load, with a bound in simulated time",
  "a hang is reported as a deadlock or as a stop that exceeds 60 s of simulated time")

SNAPSTUB = STUBS + ["skaled's main() itself (the few lines that call its download functions are repeated by the scenario)"]
SNAPCORE = CORE + ["libskale (SnapshotManager, SnapshotHashAgent's callers)", "libweb3jsonrpc (Skale: snapshot serving and download)", "skaled/main.cpp (download and vote functions)"]
P("C12", "All nodes take the same snapshots, and each is of the state it claims",
  "Every node takes a snapshot at the same blocks, the snapshots of a block have the same hash on every node, and the state root hash that is agreed on with every block is that of the snapshot due - whatever restarts, kills at any moment, thread scheduling, slow disks, downloading peers, rotation geometry and local files do.",
  ["schedules", "crash_points", "histories", "inputs", "configurations"], "every sequence of blocks and times within the generator, snapshot intervals of 5 to 35 s, restarts and kills at any disk operation, concurrent downloads and hash requests",
  "the tests take a snapshot of a few files once and compare with themselves",
  ["libethereum/Client.cpp", "libskale/SnapshotManager.cpp", "libethereum/SkaleHost.cpp"],
  [("when a snapshot is due, its hash in a thread of its own", "libethereum/Client.cpp"), ("hash over the databases' contents and the file storage", "libskale/SnapshotManager.cpp")],
  ["blocks and hashes of the snapshots, state roots of the blocks"],
  [dict(scn="snap", profile="replica", w=2), dict(scn="snap", profile="crash")], "snapshots of disturbed nodes compared with those of an undisturbed one after every block",
  "btrfs is replaced by directory trees (with read-only snapshots)", real=SNAPCORE, stub=SNAPSTUB, assume=[KILL], probes=["snapshot taken"])
P("C13", "A node that joins from a snapshot continues exactly the same chain",
  "A node that downloads the latest snapshot from a peer - over a network that loses calls, truncates, damages or substitutes data, while being killed and restarted at any moment - ends up with exactly the state, blocks and snapshots of the others and continues the same chain. What it received undamaged it accepts; contents other than those voted for are never put into use.",
  ["crash_points", "fault_sequences", "schedules", "inputs"], "every snapshot of the generator's chains, kills at any disk operation of download, import, hash check and restore, all damage kinds of the simulated network",
  "the tests import an undamaged snapshot of a few files",
  ["libskale/SnapshotManager.cpp", "libweb3jsonrpc/Skale.cpp", "libskale/UnsafeRegion.cpp", "libskale/httpserveroverride.h"],
  [("import, hash check and restore of volumes", "libskale/SnapshotManager.cpp"), ("download in fragments", "libweb3jsonrpc/Skale.cpp"), ("mark around non-atomic work", "libskale/UnsafeRegion.cpp")],
  ["acceptance of every download; chain, state and snapshots of the joined node"],
  [dict(scn="snap", profile="join")], "joins through a damaged network with kills, the joined node compared with an undisturbed one",
  "half of the joins go through the real downloadAndProccessSnapshot() of main.cpp against a group of nodes, the others step by step against one faulty server", real=SNAPCORE, stub=SNAPSTUB, assume=[KILL], probes=["snapshot accepted"])
P("C14", "Taking, hashing, pruning and serving snapshots survives kills",
  "A kill at any moment of taking, hashing, pruning or serving a snapshot never keeps the node from starting, importing further blocks, taking further snapshots or, eventually, reporting the hash of each; old snapshots do not accumulate; and a snapshot that is being served is served completely and unchanged within its announced time limits.",
  ["crash_points", "schedules", "histories"], "every kill point among the disk operations of snapshot handling (including kills during recovery), concurrent downloads with arbitrary pauses",
  "the tests never kill the process",
  ["libskale/SnapshotManager.cpp", "libethereum/Client.cpp", "libweb3jsonrpc/Skale.cpp"],
  [("snapshot directories and hash files", "libskale/SnapshotManager.cpp"), ("hash computation and pruning in a thread", "libethereum/Client.cpp"), ("one served file with two time limits", "libweb3jsonrpc/Skale.cpp")],
  ["start-up, block import, kept snapshots, hashes, served files"],
  [dict(scn="snap", profile="crash", w=2), dict(scn="snap", profile="replica")], "kill points around snapshot handling, everything compared with an undisturbed node",
  "as C12", real=SNAPCORE, stub=SNAPSTUB, assume=[KILL], probes=["restart with a partly executed block", "snapshot downloaded"], level="fault_enumeration")
P("C15", "A joining node trusts only a snapshot hash that over 2/3 of the nodes signed",
  "The vote for a snapshot hash ends with a hash only if more than two thirds of the chain's nodes reported it with a valid signature and their signatures combine to a valid one under the chain's common key; only such nodes are named as sources. As long as that many nodes answer correctly it does end with that hash, whatever the others do: lie, forge signatures or keys, send malformed answers, stall or stay silent, alone or in collusion, even on the whole network path.",
  ["fault_sequences", "schedules", "inputs", "configurations"], "2 to 16 nodes, every assignment of 13 kinds of faulty behaviour within the generator, all answer orders and interleavings, wrong or outdated common keys",
  "the tests fill the agent's tables by hand with at most one wrong entry",
  ["libskale/SnapshotHashAgent.cpp", "skaled/main.cpp"],
  [("collecting, verifying, counting and combining votes", "libskale/SnapshotHashAgent.cpp")],
  ["chosen hash, common signature and sources of every vote"],
  [dict(scn="vote", profile="hash", w=2), dict(scn="snap", profile="join")], "votes among honest and Byzantine simulated nodes compared with what those nodes really sent",
  "BLS is replaced by a toy group in which linear relations hold exactly and nothing is hidden", real=["libskale/SnapshotHashAgent", "libskale/SkaleClient", "skaled/main.cpp (download and vote functions)"], stub=STUBS, probes=["vote decided with faulty nodes", "joined from a group of nodes"])

P("C16", "Reads and calls see one consistent, recent state",
  "Whatever a client reads while blocks are imported - balance, nonce, storage, call, gas estimate, block, receipt - is answered from the state after some complete transaction, the same one for everything within one call; never older than the latest block finished before the request, never older than what that client saw before, and never from a transaction that is not finalized - or it is refused, which happens only while a block is being imported. Calls and estimates change nothing, and a block, once announced, is completely readable.",
  ["schedules", "histories", "crash_points"], "every interleaving (down to single memory accesses) of up to three reading clients with block import within the generator, restarts and kills in between, slow disks, rotation",
  "the tests read from the thread that imports",
  ["libskale/State.cpp", "libethereum/Client.cpp", "libethereum/ClientBase.cpp", "libethereum/Block.cpp", "libethereum/BlockChain.cpp"],
  [("read locks, upgrade locks and version numbers of state copies", "libskale/State.cpp"), ("copies of the working block for readers", "libethereum/Client.cpp, libethereum/Block.cpp")],
  ["answers of calls and reads against per-transaction counters of the finalized blocks"],
  [dict(scn="read", profile="x")], "answers to concurrent reads compared with the counters that each finalized transaction moves together",
  "a contract whose nine counters move together makes every torn or stale view visible", probes=["call", "read inside a block being imported"])

P("C17", "File storage changes exactly with the transactions",
  "The file storage of every node - which directories and files exist, and their contents - is exactly what the finalized transactions' file operations (create, upload, delete, directories, hashes), in their order, make it: on every node, whatever its load, restarts and kills. Since RevertableFSPatch nothing remains of an operation whose transaction reverts; calls and estimates leave no trace; no operation, however malformed, stops the node.",
  ["histories", "crash_points", "schedules", "inputs"], "every sequence of file operations within the generator (direct ones and by contracts, reverting ones, malformed ones), RevertableFSPatch off, on or switched on in between, kills at any disk operation",
  "the tests call each precompiled contract once, without transactions, reverts or kills",
  ["libskale/OverlayFS.cpp", "libethereum/Precompiled.cpp", "libskale/State.cpp"],
  [("file operations of a transaction, executed at its end", "libskale/OverlayFS.cpp, libskale/State.cpp"), ("file storage calls", "libethereum/Precompiled.cpp")],
  ["contents of the file storage and status of the transactions after every block"],
  [dict(scn="chain", profile="fs")], "file storage of disturbed nodes compared with a sequential model of the file operations after every block",
  "kills: only transactions that may be executed twice (K04)", probes=["file storage transaction", "failed file storage transaction", "restart with a partly executed block"])

P("C18", "An archive node answers for every block as it was when that block was imported",
  "An archive node (HISTORIC_STATE) answers questions about past blocks - balance, nonce, code and storage of an account at block N - with exactly the state after block N, for every block since it keeps historic state, whatever happened in between: restarts, kills at any moment of import, slow disks, concurrent load, or the conversion of an ordinary node into an archive node. An answer for an old block never changes afterwards.",
  ["histories", "crash_points", "schedules", "inputs"], "every block sequence within the generator, kills at any disk operation (of import, recovery and conversion), reads of every block after every block",
  "the tests never restart an archive node",
  ["libhistoric/HistoricState.cpp", "libhistoric/AlethBaseState.cpp", "libskale/State.cpp", "libethereum/Block.cpp", "libethereum/Client.cpp"],
  [("historic state written after each block's transactions", "libskale/State.cpp, libhistoric/HistoricState.cpp, libethereum/Block.cpp"), ("root of each block", "libskale/RotatingHistoricState.cpp, libdevcore/DBImpl.h"), ("initial population of an ordinary node's state", "libskale/State.cpp")],
  ["balance, nonce, code and storage of every account at every block"],
  [dict(scn="chain", profile="hist", exe="simh")], "historic state of disturbed archive nodes compared with an undisturbed reference node's state at each block",
  "as C01, with the sources compiled as an archive node", assume=[KILL], probes=["historic state read", "restart with a partly executed block", "archive node made of an ordinary one"])

N("N01", "EVM execution, gas and precompiled contracts follow the specification",
  "Every instruction, every gas charge and every precompiled contract yields the result the Ethereum specification and the chain's enabled patches define, for every program and input.",
  ["programs", "inputs"], "every EVM program, call data and state", "the tests run selected vectors",
  ["libevm/LegacyVM.cpp", "libethereum/Executive.cpp", "libethereum/Precompiled.cpp"], [("interpreter", "libevm/LegacyVM.cpp")], ["output, gas used, resulting state"],
  "pure function of its inputs: one thread, no time, no I/O, no second party and no fault to inject; simulation adds nothing over a generator of inputs with a reference interpreter, which is another technique. What depends on schedules and faults around execution (resumption, agreement, reads) is claimed under C01, C02, C16.")
N("N02", "Encodings are canonical and inverse to each other",
  "RLP, ABI, hex, JSON and trie encodings decode to what was encoded, accept exactly the canonical forms, and never crash on malformed input.",
  ["inputs"], "every byte string and value", "the tests use selected vectors",
  ["libdevcore/RLP.cpp", "libdevcore/TrieDB.cpp", "libethcore/TransactionBase.cpp"], [("encoders and decoders", "libdevcore/RLP.cpp")], ["decoded values, exceptions"],
  "pure functions without schedule, time, I/O or second party; a property for input generation or proof, not for simulated faults.")
