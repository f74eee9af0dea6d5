SETUP = ["C01"]
SEQ = "explicit-state exploration of the real code against a reference model"
SCHED = ("stateless exploration of the real code under a controlled "
         "scheduler, preemption bounded")
CLAIMS = {
    "C01": (SEQ, "model_checking",
            "Every request sequence of 2-3 competing dtxs within the depth is "
            "executed on the real shard and on the model and compared after "
            "every step. Assumes the coordinator protocol (apply only after "
            "lock, completes only accepted transactions)."),
    "C02": (SEQ, "model_checking",
            "As C01, comparing every status query after every request."),
    "C05": (SEQ, "model_checking",
            "Every operation sequence within the depth over colliding "
            "transactions, attestation heights and cache depths on the real "
            "atomizer against a reference model. Assumes shards attest an "
            "input at a height only if no block up to it spent it."),
    "C06": (SEQ + "; " + SCHED, "model_checking",
            "Every order of notifications over shards, heights and "
            "transactions, and every schedule within the preemption bound of "
            "notifying threads and sender. The consensus library is replaced "
            "by a stand-in that records replicated entries."),
    "C07": ("explicit-state exploration of logs, snapshots and crash points "
            "on the real state machine with a recording file system",
            "model_checking",
            "Every log within the length, snapshot index, and crash or "
            "failed write of the snapshot, process-crash model (no fsync)."),
    "C08": (SEQ + "; crash points through a recording file system; " + SCHED,
            "model_checking",
            "Every sequence of blocks, duplicates, gaps and restarts within "
            "the depth with every query after each; every crash point and "
            "failing write; every bounded schedule of queries against "
            "digestion over an in-memory database. Process-crash model."),
    "C09": (SEQ + "; crash points through a recording file system; " + SCHED,
            "model_checking",
            "Every delivery sequence within the depth, every crash point and "
            "power loss after each delivery; every bounded schedule of the "
            "real controller against a scripted atomizer that loses replies "
            "and connections."),
    "C10": (SEQ + "; " + SCHED, "model_checking",
            "Every sequence of blocks and errors within the depth for small "
            "k, followed by every query; concurrent use under every schedule "
            "within the preemption bound."),
    "C32": (SEQ + "; " + SCHED, "model_checking",
            "Every insertion sequence within the depth for small limits; "
            "every schedule of two users within the preemption bound."),
    "C19": (SCHED, "model_checking",
            "Every schedule within the preemption bound of producers, "
            "consumers, reset/close and pool users on the real queue and "
            "pool, with a happens-before race check on every execution."),
    "C20": (SCHED, "model_checking",
            "Every fragmentation, error and truncation of small packet "
            "sequences on simulated sockets."),
    "C21": (SCHED, "model_checking",
            "Every schedule within the preemption bound of the real "
            "connection manager, peers and handlers over simulated sockets, "
            "including close, disconnection and reconnection."),
    "C22": (SCHED, "model_checking",
            "Every schedule within the bound of the real RPC clients and "
            "servers over simulated sockets against scripted, lossy, "
            "duplicating or malformed peers."),
    "C11": (SEQ + "; " + SCHED, "model_checking",
            "Every request sequence within the depth of 2-4 competing "
            "tickets on 1-2 keys on the real shard, every answer, ticket "
            "state and value compared with a model; every schedule within "
            "the preemption bound of concurrent transactions."),
    "C12": (SEQ, "model_checking",
            "The same enumeration, judging answers: exactly one per request, "
            "grants oldest first, no deadlock, nothing left at the end."),
    "C13": ("explicit-state exploration of the real broker and shards, "
            "every message delivery order", "model_checking",
            "Every delivery order of requests, responses and failing sends "
            "for 1-3 tickets on 2-3 real shards and 1-2 real brokers; the "
            "committed history is checked for serializability and the shards "
            "for leftovers. Messages of one broker to one shard stay in "
            "order."),
    "C14": ("explicit-state exploration of the real broker and shards, "
            "every message delivery order and crash point", "model_checking",
            "As C13 with up to 2 broker crashes (3 in thorough) at every "
            "point and recovery by a real successor; plus recovery from "
            "every mix of ticket states on the shards."),
    "C15": (SEQ, "model_checking",
            "Every request sequence within the depth on real controllers, "
            "servers, clients and state machines, with every outcome of "
            "replication (refused, pending, kept or lost on a leader change) "
            "and leader changes or restarts at every point; after each step "
            "the shard is rebuilt from the log and completed. Consensus "
            "library and TCP are stand-ins."),
    "C16": (SEQ + "; " + SCHED, "model_checking",
            "Every sequence of requests (1, 600, 1100 at once), failing "
            "sends, refused or delayed replication, response deliveries and "
            "leader changes within the depth for 1-2 real clients and 2 real "
            "replicas; every schedule within the preemption bound of 2-3 "
            "threads calling one client."),
    "C17": ("explicit-state exploration of the real agent against a model "
            "broker, every answer, order and failure; " + SCHED,
            "model_checking",
            "Every choice of the broker (grant, wounding, unreachable shard, "
            "failure at each call, delay past a retry) up to a bounded number "
            "of deviations for the real agent and Lua runner; the same agent "
            "behind its real server under every schedule within the "
            "preemption bound of its worker threads."),
    "C18": ("exhaustive enumeration of contracts and parameters on the real "
            "Lua runner", "model_checking",
            "Every contract of a small grammar (yields of keys and locks, "
            "branches on read values, every kind of return value and error, "
            "every prefix of a bytecode) "
            "with every lock answer; compared with a reference "
            "interpretation."),
    "C03": (SCHED + " with enumeration of crash points and lost messages",
            "model_checking",
            "Real coordinator controllers on 3-5 nodes, real locking shards, "
            "clients and status servers: every crash point (replication "
            "refused, kept or lost; requests sent or not) and lost request or "
            "response up to a bounded number, crashes of successive leaders, "
            "and any one crash with a preemption; the outcome is judged "
            "through the status and lock interfaces. The consensus library "
            "and TCP are stand-ins."),
    "C04": (SCHED, "model_checking",
            "The same real components on one node: every schedule within the "
            "preemption bound of submitters, batching, execution threads, "
            "shards that hang, stop at any point and losses of leadership."),
    "C23": ("exhaustive enumeration of values, truncations and corruptions "
            "through the real serializers", "model_checking",
            "For each of 35 message and stored types: every value differing "
            "from the smallest in up to 3 (thorough: 4) choices, through "
            "every back end; every strict prefix; boundary values in every "
            "8-byte field, every value in small fields; sanitizers and a "
            "watch on allocations."),
    "C24": ("exhaustive enumeration of inputs through the real codecs",
            "model_checking",
            "Every pair of characters and every character at every place of "
            "texts of every length around the valid ones; every byte at every "
            "place of buffers, hashes and keys; for addresses every one- and "
            "(quick: a quarter of) two-character replacement, insertion, "
            "removal and exchange, every length, type, prefix and padding "
            "with a valid checksum, against an independent encoder; the "
            "command line tool with well-formed and malformed arguments."),
    "C25": ("exhaustive enumeration of transactions against a reference "
            "predicate", "model_checking",
            "Every combination of 0-3 inputs (3 outpoints, 5 boundary "
            "values) and 0-3 outputs, all correctly signed; sums around "
            "2^64; 19x19 witnesses; every bit of a valid transaction "
            "changed; every program type and length. The reference knows "
            "who signed what and has its own hash."),
    "C26": ("enumeration of answers and attestations against the real "
            "sentinels; stateless exploration of schedules", "model_checking",
            "A real sentinel of either architecture among 1-4, every "
            "threshold, 9 kinds of transaction, 9 kinds of answer of every "
            "remote asked, unreachable or late remotes, every coordinator "
            "answer; every combination of absent, valid, invalid and foreign "
            "attestations against locking shard, atomizer and the shared "
            "check; every choice of inputs, deployments and reachable shards "
            "for routing; concurrent clients and stop at any point in every "
            "schedule within the preemption bound."),
    "C27": ("enumeration of operation histories, crash points and write "
            "errors against the real wallet; stateless exploration of "
            "schedules", "model_checking",
            "Every history of wallet operations (mint, send, fan, confirm, "
            "abandon, generate, export/import, save and load) up to the depth "
            "from several starts with every small amount, against a reference "
            "of owned, pending and spent outputs; every point at which a save "
            "can stop or fail; every schedule of two concurrent users within "
            "the preemption bound."),
    "C28": ("enumeration of client histories and crash points against the "
            "real clients; stateless exploration of schedules", "model_checking",
            "Every history of client operations (mint, send, fan, import, "
            "sync, confirm, abandon, restart) of length 3 over 28 operations "
            "from two starts against a conservation-of-money reference; "
            "the process stopped at every file operation of every client "
            "operation; mint responses at any time, watchtower present, "
            "absent and lost in every schedule within the preemption bound."),
    "C29": ("explicit-state exploration of every history of raft log store operations (append, overwrite, pack/apply, compact, flush, reopen) with a stop and a write error at every file operation, and of all thread interleavings of readers, an appender and a compactor","model_checking","every history up to the depth, merged by the state of an in-memory reference log; after each operation everything the interface answers is compared with it"),
    "C30": ("exhaustive enumeration of configuration files and argument lists around complete deployments against an independent reader of the documented grammar","model_checking","every pair of parameters with every listed value, absent, overridden by the environment or given twice, for both architectures; every value text up to length 4 over 10 characters; the loaded options are compared field by field"),
    "C31": ("exhaustive enumeration of prefixes, ranges, deployments and keys through every real component that routes by them, against one partition function","model_checking","every range and prefix; every id, input and output at the bounds of nine deployments through the distributed transaction, locking and atomizer shards, status client, atomizer sentinel and coordinator; 66000 keys for up to 16 shards through the directory, broker and separate runs"),
    "C34": (SCHED, "model_checking",
            "Every schedule within the preemption bound of the real shard "
            "and watchtower controllers against scripted atomizers and "
            "archiver with lost, repeated and late blocks and archiver "
            "faults."),
    "C35": (SCHED, "model_checking",
            "Every schedule within the preemption bound of the real "
            "atomizer controllers with followers, a watchtower, leader "
            "changes, refused replication and stops."),
}
NA = {
    "C33": "the EVM runner needs evmc/evmone headers that are not installed "
           "here; nothing of it compiles",
}
