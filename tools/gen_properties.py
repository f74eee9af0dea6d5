#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that statements stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                     state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],
                     observe_at=observe or [],hook_needed=None)))

p("C01","2PC locking shard: no double spend, exact lock/apply/discard effects",
 "For every order in which concurrent distributed transactions lock, apply and discard at a locking shard, a UHS ID is consumed by at most one committed transaction: lock accepts a transaction exactly when it is sufficiently attested and all its inputs in the shard's range are present and not locked, and nobody else can take them until its own distributed transaction is applied. Applying a decision creates exactly the in-range outputs of the committed transactions and releases exactly the locks the distributed transaction itself obtained for the aborted ones. Repeating a request for the same distributed transaction before it is discarded returns the same answer and changes nothing.",
 ["histories","inputs"],"every sequence of lock/apply/discard/duplicate requests of several distributed transactions over colliding inputs",
 "The locking-shard unit tests run one fixed lock/apply/discard history and never overlap two distributed transactions on one input.",
 ["src/uhs/twophase/locking_shard/locking_shard.cpp","src/uhs/twophase/locking_shard/locking_shard.hpp","src/uhs/twophase/locking_shard/state_machine.cpp","src/uhs/transaction/validation.cpp"],
 [("lock_outputs/check_and_lock_tx","src/uhs/twophase/locking_shard/locking_shard.cpp"),("apply_outputs","src/uhs/twophase/locking_shard/locking_shard.cpp"),("discard_dtx","src/uhs/twophase/locking_shard/locking_shard.cpp")],
 [("unspent set","spendable UHS IDs","locking_shard.hpp"),("locked set","UHS IDs held by a prepared dtx","locking_shard.hpp")],
 ["lock_outputs result","apply_outputs result","check_unspent"])
p("C02","2PC shard status queries tell the truth",
 "A locking shard answers 'unspent' for a UHS ID exactly when it is currently spendable there (created by a committed transaction or seeded, and not spent by one), and answers 'known transaction' only for a transaction that was committed; a recently committed transaction in its range is reported until the configured history is exhausted. A client asking through the status interface is routed to a shard responsible for the ID and gets that shard's answer.",
 ["histories","inputs"],"every history of commits and aborts followed by every status query, for every prefix range",
 "Tests query once after one committed transaction; they never query aborted or partially decided transactions.",
 ["src/uhs/twophase/locking_shard/locking_shard.cpp","src/uhs/twophase/locking_shard/status_server.cpp","src/uhs/twophase/locking_shard/status_client.cpp","src/util/common/cache_set.hpp"],
 [("completed-transaction cache","locking_shard.cpp apply_outputs"),("check_unspent","locking_shard.cpp")])
p("C03","2PC: distributed transactions commit atomically despite coordinator crashes",
 "Whatever point a coordinator leader crashes at, and however often, once a successor has recovered every transaction of a batch is applied by all the shards it touches or by none, no double spend is introduced and no shard keeps inputs locked. A result reported to a client never disagrees with what the shards finally do, and a transaction is committed only if every shard it touches accepted it.",
 ["crash_points","histories","fault_sequences"],"every crash point of the prepare/commit/discard protocol, every RPC failure, chained over successive leaders",
 "Integration tests run the protocol without crashes; recovery code is not exercised between arbitrary steps.",
 ["src/uhs/twophase/coordinator/distributed_tx.cpp","src/uhs/twophase/coordinator/state_machine.cpp","src/uhs/twophase/coordinator/controller.cpp","src/uhs/twophase/locking_shard/locking_shard.cpp"],
 [("dtx state machine and recover_*","src/uhs/twophase/coordinator/distributed_tx.cpp"),("replicated prepare/commit/discard/done log","src/uhs/twophase/coordinator/state_machine.cpp")])
p("C04","2PC coordinator: each accepted transaction answered exactly once, clean stop",
 "Under every thread interleaving, a transaction accepted by the coordinator is placed in exactly one batch and its callback runs at most once, with the outcome of that batch or with no outcome if the batch failed; it runs exactly once, with a result, unless the coordinator stops or loses leadership first. A second submission of a transaction already in the current batch is refused. Stopping the coordinator or losing leadership, at any point and also while shards do not answer, terminates, and leadership regained leads to service again.",
 ["schedules"],"every interleaving (preemption bounded) of client requests, batch executor, dtx threads and stop",
 "Unit tests submit one transaction with real timing; they cannot control the interleaving of submission, batching and stop.",
 ["src/uhs/twophase/coordinator/controller.cpp","src/uhs/twophase/coordinator/distributed_tx.cpp"],
 [("batch under m_batch_mut with condition variable","controller.cpp"),("execution threads","controller.cpp schedule_exec")])
p("C05","Atomizer: each input spent once, blocks contiguous, transactions never lost",
 "For every sequence of transaction notifications and block creations, assuming shards attest an input at a height only if no block up to that height spent it, the atomizer never completes two transactions spending the same input while either is within its spent-output history, rejects attestations older than that history, and block heights increase by exactly one. Every accepted transaction appears in exactly one block, the next one made, in acceptance order, and rejected or under-attested ones in none; an incomplete transaction is reported when it ages out. An atomizer whose state is written out and read back goes on the same.",
 ["histories","inputs"],"every operation sequence up to a depth over a colliding set of transactions, attestation heights and cache depths",
 "Unit tests cover a handful of sequences at one cache depth.",
 ["src/uhs/atomizer/atomizer/atomizer.cpp","src/uhs/atomizer/atomizer/atomizer.hpp","src/uhs/atomizer/atomizer/block.cpp"],
 [("spent cache ring","atomizer.cpp make_block/check_stxo_cache"),("attestation accumulation","atomizer.cpp insert")])
p("C06","Atomizer front end aggregates attestations correctly",
 "The atomizer forwards a transaction to replication exactly when, over the notifications received so far, every one of its inputs has been attested and the required sentinel attestations are valid, exactly once per completion, and with an oldest-attestation height no newer than the oldest attestation it used. Notifications can be processed by any number of threads in any order without losing or duplicating a completion.",
 ["schedules","histories"],"every order of notifications over shards, heights and transactions; every interleaving of two notifying threads with the sender",
 "No test exercises the aggregation code with more than one order or thread.",
 ["src/uhs/atomizer/atomizer/atomizer_raft.cpp","src/uhs/atomizer/atomizer/atomizer_raft.hpp"],
 [("tx_notify","atomizer_raft.cpp"),("send_complete_txs","atomizer_raft.cpp")])
p("C07","Replicated atomizer state survives snapshots and restarts",
 "An atomizer replica restored from any snapshot followed by the rest of the replicated log is in the same state, and gives the same answers (blocks, errors, pruned and stored blocks), as one that executed the whole log; a crash or a failed write at any point of taking or receiving a snapshot leaves a replica that restarts from a complete snapshot. A block made stays available, unchanged, until a prune request names a greater height.",
 ["crash_points","histories"],"every log up to a length, every snapshot index, every crash point of the snapshot write",
 "The raft/atomizer tests restore one snapshot and never crash in between.",
 ["src/uhs/atomizer/atomizer/state_machine.cpp","src/uhs/atomizer/atomizer/format.cpp","src/uhs/atomizer/atomizer/atomizer.cpp"],
 [("create_snapshot/apply_snapshot/read_snapshot","state_machine.cpp"),("temporary file then rename","state_machine.cpp")])
p("C08","Atomizer shard: state is exactly the fold of contiguous blocks, across crashes",
 "A shard applies blocks only in height order, each exactly once; afterwards it attests exactly those in-range inputs that are outputs of applied blocks not yet spent by them, stamped with the height of the state it checked, and reports missing inputs as errors. This holds for its persistent state after a crash at any point and restart, and after a failed write, with height and UHS moving together.",
 ["histories","crash_points","inputs"],"every sequence of blocks (in order, duplicate, gaps), queries and restarts; every crash point of the database writes",
 "Tests digest a few fixed blocks on one open database and never crash or reorder.",
 ["src/uhs/atomizer/shard/shard.cpp","src/uhs/atomizer/shard/shard.hpp","src/uhs/atomizer/shard/controller.cpp"],
 [("single write batch per block","shard.cpp digest_block"),("snapshot with height","shard.cpp update_snapshot")])
p("C09","Archiver stores every block once, in order, and returns it unchanged",
 "Whatever the order, duplication or gaps in which blocks arrive, the archiver's best height is the top of a contiguous stored prefix, every stored block is returned byte-for-byte as produced, missing predecessors are requested, and deferred blocks are stored as soon as their predecessors are. A lost reply delays catching up only until the next block arrives. After a crash at any point the stored prefix and the best height agree, and blocks whose pruning was requested are still there.",
 ["histories","crash_points"],"every arrival order of a small chain with duplicates and restarts; every crash point of the database writes",
 "Unit tests feed a few fixed orders.",
 ["src/uhs/atomizer/archiver/controller.cpp"],
 [("digest_block with deferral map","controller.cpp"),("batched write of block and best height","controller.cpp")])
p("C10","Watchtower answers reflect the last k blocks and errors",
 "A status answer for a transaction's UHS IDs is computed from exactly the last k blocks and last k errors: spent/unspent with the right height if that transaction spent/created the ID in a remembered block, an error status if a remembered error rejected it, no-history otherwise, and nothing older is remembered or newer forgotten. The reported best height is the highest block seen.",
 ["histories","inputs"],"every sequence of blocks and errors over colliding transactions and IDs, for small k, followed by every query",
 "Unit tests check a few sequences with distinct identifiers; eviction of colliding entries is not covered.",
 ["src/uhs/atomizer/watchtower/watchtower.cpp","src/uhs/atomizer/watchtower/block_cache.cpp","src/uhs/atomizer/watchtower/error_cache.cpp","src/uhs/atomizer/watchtower/tx_error_messages.cpp","src/uhs/atomizer/watchtower/status_update.cpp"],
 [("block_cache::push_block eviction","block_cache.cpp"),("error_cache::push_errors eviction","error_cache.cpp")])
p("C11","PArSEC shard: lock mutual exclusion, wound-wait and isolation",
 "For every sequence of lock, rollback, prepare, commit and finish requests from competing tickets on a runtime locking shard, a write lock excludes every other ticket and read locks exclude writers; a lock answer returns the latest committed value; an older ticket is never blocked by a younger one that can still be wounded, and prepared or committed tickets are never wounded. State changes become visible only on commit, only for keys the ticket write-locked, and all at once; misuse of the protocol is refused without changing state.",
 ["histories"],"every operation sequence up to a depth of several tickets over colliding keys",
 "Unit tests execute a few scripted scenarios with two tickets.",
 ["src/parsec/runtime_locking_shard/impl.cpp","src/parsec/runtime_locking_shard/impl.hpp","src/parsec/runtime_locking_shard/interface.hpp"],
 [("try_lock/wound_tickets/acquire_locks","impl.cpp"),("prepare/commit/rollback/finish","impl.cpp")])
p("C12","PArSEC shard: every request is answered exactly once and waiters progress",
 "Every request to a runtime locking shard is answered exactly once; a queued lock request is answered no later than when the tickets it waits for release their locks, oldest first for writers, and no set of tickets can wait on each other for ever. Once every ticket has finished, no lock is held and no request is queued.",
 ["histories"],"every operation sequence up to a depth, and completion of every reachable state by finishing all tickets",
 "Unit tests observe individual callbacks in scripted order, not completeness over all histories.",
 ["src/parsec/runtime_locking_shard/impl.cpp"],
 [("lock queues","impl.cpp release_locks/acquire_lock"),("wound-wait ordering","impl.cpp")])
p("C13","PArSEC broker: multi-shard transactions are atomic and serializable",
 "For any interleaving of several tickets' requests and of shard responses, the transactions the broker reports as committed are equivalent to some serial order consistent with the values they read, their updates are applied on all shards they touched or on none, and every request to the broker gets a response. A ticket refused, wounded or rolled back leaves no effect.",
 ["schedules","histories"],"every delivery order of shard responses for two to three tickets over two shards with colliding keys",
 "Broker tests run one ticket at a time against an in-process shard.",
 ["src/parsec/broker/impl.cpp","src/parsec/broker/impl.hpp","src/parsec/runtime_locking_shard/impl.cpp"],
 [("commit: prepare then commit phases","broker/impl.cpp"),("rollback on wound","broker/impl.cpp")])
p("C14","PArSEC: a broker crash at any point is recovered without breaking atomicity",
 "If a broker crashes at any point of any ticket's life, a recovering broker completes every ticket that committed anywhere and rolls back every ticket that had not, on all shards; afterwards no ticket, lock or partial update of the crashed broker remains, and tickets of other brokers are untouched.",
 ["crash_points","histories"],"every crash point between shard requests/responses for one or two tickets over two shards, followed by recovery under every response order",
 "No test crashes a broker in the middle of commit.",
 ["src/parsec/broker/impl.cpp","src/parsec/runtime_locking_shard/impl.cpp"],
 [("recover/do_recovery/handle_ticket_number","broker/impl.cpp"),("get_tickets","runtime_locking_shard/impl.cpp")])
p("C15","PArSEC shard fail-over keeps prepared and committed tickets",
 "When a shard's leader fails at any point, the state rebuilt by the next leader from the replicated log contains every update committed before, and every prepared ticket still protected by its write locks and completable with its updates; nothing that was only locked or was finished survives, and replicas that applied the same log agree.",
 ["crash_points","histories"],"every history of tickets with a leader failure after every replicated step, then every continuation",
 "Tests of the replicated shard are absent from the reliable suite (they need the consensus library).",
 ["src/parsec/runtime_locking_shard/replicated_shard.cpp","src/parsec/runtime_locking_shard/state_machine.cpp","src/parsec/runtime_locking_shard/server.cpp","src/parsec/runtime_locking_shard/controller.cpp","src/parsec/runtime_locking_shard/impl.cpp"],
 [("replicated prepare/commit/finish","replicated_shard.cpp"),("recover","runtime_locking_shard/impl.cpp")])
p("C16","Ticket numbers are unique and increasing",
 "No ticket number is ever handed out twice, by any number of brokers, threads, batches, leader changes or failed requests, and the numbers one ticket machine issues increase; every caller is answered exactly once with a number or an error.",
 ["schedules","histories","fault_sequences"],"every interleaving of several callers and batch refills, and every refill outcome",
 "There is no concurrent test of the ticket machine or its client.",
 ["src/parsec/ticket_machine/impl.cpp","src/parsec/ticket_machine/client.cpp","src/parsec/ticket_machine/state_machine.cpp"],
 [("atomic range allocation","impl.cpp"),("client-side batch queue","client.cpp")])
p("C17","Agent: each execution ends with exactly one truthful result",
 "For every combination of broker answers, failures, wounds and late or repeated callbacks, an agent commits a function's effects at most once, reports success exactly when the broker reported the commit and finish, releases (rolls back) everything otherwise, and after a transient failure asks to be retried with the same ticket so that the retry can succeed. Results produced for an abandoned attempt never leak into a later one.",
 ["fault_sequences","histories"],"every sequence of broker/runner responses (success, wound, error, unreachable) over bounded retries, synchronous or delayed",
 "Agent tests use a broker that always succeeds or one scripted wound.",
 ["src/parsec/agent/impl.cpp","src/parsec/agent/server_interface.cpp","src/parsec/agent/runners/lua/server.cpp"],
 [("agent state machine","agent/impl.cpp")])
p("C18","Lua contracts: results, locks and faults are contained",
 "Whatever a contract yields or returns, the runner requests exactly the keys it yields, resumes it with the values read, reports exactly the table of string pairs it returns, and otherwise reports one error; no contract result shape, and no order of lock responses, crashes the agent or yields more than one result.",
 ["programs","fault_sequences"],"every contract from a grammar of yields and return shapes, under every sequence of lock answers",
 "The tests run two fixed contracts.",
 ["src/parsec/agent/runners/lua/impl.cpp"],
 [("schedule_contract/handle_try_lock/contract_epilogue","lua/impl.cpp")])
p("C19","Queues and thread pool: nothing lost, duplicated or stuck",
 "Under every interleaving, each element pushed to a queue is popped exactly once in the order the queue promises, a waiting consumer wakes when an element arrives or the queue is cleared, and each task given to the thread pool runs exactly once, never on the caller, with the pool shutting down cleanly.",
 ["schedules"],"every interleaving up to a preemption bound of two producers, two consumers and clear; of task submission and pool shutdown",
 "Tests exercise these with real threads and one arbitrary schedule.",
 ["src/util/common/blocking_queue.hpp","src/util/common/thread_pool.cpp","src/util/common/thread_pool.hpp"],
 [("mutex and condition variable","blocking_queue.hpp"),("worker hand-off","thread_pool.cpp")])
p("C20","Messages survive any fragmentation of the byte stream",
 "Whatever the sizes in which the operating system splits or merges the bytes sent and received, the receiving socket delivers exactly the messages sent, whole, once and in order; a stream cut at any byte, or a failed call, is reported as failure and never as a message.",
 ["fault_sequences","inputs"],"every split of reads and writes, every cut point, every failing call for a small set of messages",
 "Socket tests use loopback, where short transfers practically never occur.",
 ["src/util/network/tcp_socket.cpp","src/util/network/socket.cpp","src/util/network/tcp_listener.cpp","src/util/network/peer.cpp"],
 [("length-prefixed framing loops","tcp_socket.cpp")])
p("C21","Connection manager delivers to the right peer and always shuts down",
 "Under every interleaving of connection, traffic, disconnection and close, a connection manager hands each received message to its handler exactly once with the identity of the sending peer and in that peer's order, sends to exactly the peers asked, and close returns with every thread finished.",
 ["schedules","fault_sequences"],"every interleaving up to a preemption bound of handler, peers and close on simulated sockets",
 "Network tests run with real sockets on one schedule; a lost wake-up in close is invisible to them.",
 ["src/util/network/connection_manager.cpp","src/util/network/peer.cpp","src/util/network/socket_selector.cpp"],
 [("async receive queue and condition variable","connection_manager.cpp"),("selector with unblock pipe","socket_selector.cpp")])
p("C22","RPC: every call gets its own response, or no response, exactly once",
 "For any order of concurrent calls, responses, unknown or duplicate responses, timeouts and disconnection, an RPC client completes each call at most once and only with the response carrying its own identity, and a synchronous call returns by its timeout; a server answers each well-formed request exactly once to the connection it came from and never crashes on a malformed one.",
 ["schedules","fault_sequences"],"every interleaving and response order of two to three calls with timeouts, duplicates and connection loss",
 "RPC tests run request/response in lock step.",
 ["src/util/rpc/client.hpp","src/util/rpc/tcp_client.hpp","src/util/rpc/server.hpp","src/util/rpc/blocking_server.hpp","src/util/rpc/async_server.hpp","src/util/rpc/tcp_server.hpp"],
 [("request id to promise/callback map","tcp_client.hpp")])
p("C23","Serialization round-trips and rejects truncated input",
 "Every message and stored object deserializes from its serialization to an equal value, consuming exactly the bytes written and matching the computed size, through every serializer back end; every strict prefix of a serialization is rejected rather than accepted or crashing, and so are length fields promising more data than present.",
 ["inputs"],"all values over small domains of every message type, every truncation point, corrupted length fields",
 "Tests round-trip a few values of some types and few truncations.",
 ["src/util/serialization/format.hpp","src/util/serialization/buffer_serializer.cpp","src/util/serialization/istream_serializer.cpp","src/util/serialization/ostream_serializer.cpp","src/util/serialization/size_serializer.cpp","src/util/serialization/stream_serializer.cpp","src/uhs/transaction/messages.cpp","src/uhs/atomizer/atomizer/format.cpp","src/uhs/twophase/coordinator/format.cpp","src/uhs/twophase/locking_shard/format.cpp","src/uhs/sentinel/format.cpp","src/parsec/broker","src/parsec/runtime_locking_shard/format.cpp","src/uhs/atomizer/watchtower/tx_error_messages.cpp","src/util/raft/serialization.cpp"],
 [("operator<< / operator>> overloads","src/util/serialization/format.hpp")])
p("C24","Hex, hash and address encodings are exact",
 "Converting a buffer, hash or key to text and back yields the same bytes for every input; text that is not a well-formed encoding of the expected length is rejected and never written out of bounds; an address decodes to exactly the key it encodes and anything else is refused.",
 ["inputs"],"every byte value at every position, every length around the expected one, every invalid character",
 "Tests decode a few literals.",
 ["src/util/common/buffer.cpp","src/util/common/hash.cpp","src/uhs/client/client.cpp"],
 [("to_hex/from_hex","buffer.cpp"),("hash_from_hex","hash.cpp"),("address::decode","client.cpp")])
p("C25","Transaction validation accepts exactly the valid transactions",
 "A transaction passes validation exactly when it has inputs and outputs, one witness per input, no duplicated input, no zero value, no overflowing total, equal input and output totals, and for each input a well-formed witness whose program hashes to the spent output's commitment and whose signature over the transaction verifies. In particular no accepted transaction creates value or spends an output without its key, and changing any input, output or witness byte of a valid one invalidates it.",
 ["inputs"],"all combinations over a small alphabet of input/output counts, boundary values, duplicates and witness mutations",
 "Validation tests check one defect at a time.",
 ["src/uhs/transaction/validation.cpp","src/uhs/transaction/transaction.cpp"],
 [("check_tx","validation.cpp"),("tx_id, uhs_id_from_output, input::hash","transaction.cpp")])
p("C26","Sentinels attest only valid transactions, forward only with enough attestations",
 "A sentinel attests to and forwards only transactions that pass validation, only after the configured number of distinct valid sentinel attestations has been gathered, in every order and outcome of the remote answers; components downstream accept a transaction exactly when it carries at least that number of attestations and every one it carries is a valid attestation by a configured sentinel. A forwarded transaction reaches a shard for each of its inputs, and the client is told the true outcome.",
 ["inputs","fault_sequences","schedules"],"every subset of valid, invalid, foreign and duplicate attestations, and every order of remote sentinel answers",
 "Sentinel tests use one sentinel and no attestation failures.",
 ["src/uhs/sentinel/client.cpp","src/uhs/twophase/sentinel_2pc/controller.cpp","src/uhs/atomizer/sentinel/controller.cpp","src/uhs/transaction/validation.cpp","src/uhs/transaction/transaction.cpp"],
 [("gather_attestations","sentinel controllers"),("check_attestations","validation.cpp")])
p("C27","Wallet conserves money and never reuses an input",
 "For every sequence of sends, confirmations, credits, abandons and save/load, the wallet's balance and count equal the sum and number of its spendable outputs; a created transaction spends distinct outputs the wallet held, no output is put in two transactions unless returned in between, outputs plus change equal inputs, and a failed send changes nothing. Transactions the wallet signs pass validation, and a saved wallet loads back unchanged.",
 ["histories","inputs","crash_points"],"every operation sequence up to a depth over small amounts",
 "Wallet tests run a few scripted flows.",
 ["src/uhs/transaction/wallet.cpp","src/uhs/transaction/wallet.hpp"],
 [("accumulate_inputs/update_balance","wallet.cpp")])
p("C28","Client: pending transactions settle exactly once and survive restart",
 "For every order of sending, confirming, abandoning, importing and restarting, each pending transaction or expected input is settled at most once; confirming credits exactly its outputs to the wallet, abandoning returns exactly those inputs not used by another pending transaction, and the persisted client state equals the in-memory one after every operation. Synchronising settles exactly the transactions the system reports as settled.",
 ["histories","fault_sequences"],"every operation sequence up to a depth with restarts and every status answer",
 "Client behaviour is only exercised by long scripted integration tests.",
 ["src/uhs/client/client.cpp","src/uhs/client/twophase_client.cpp","src/uhs/client/atomizer_client.cpp"],
 [("pending maps","client.cpp")])
p("C29","Replicated log store behaves as an indexed log, also after reopening",
 "For every sequence of append, overwrite, pack/apply, compact, flush and reopen, the log store returns exactly the entries of an in-memory log: same terms, values, ranges, first and next index; stored configuration and election state read back as last saved after a crash at any point.",
 ["histories","crash_points"],"every operation sequence up to a depth against a reference log; every crash point of the file writes",
 "Raft tests perform one fixed sequence and depend on the omitted consensus library.",
 ["src/util/raft/log_store.cpp","src/util/raft/state_manager.cpp","src/util/raft/index_comparator.cpp","src/util/raft/serialization.cpp"],
 [("leveldb keyed by index with numeric comparator","log_store.cpp")])
p("C30","Configuration is read exactly as written or refused",
 "Every configuration file in the documented grammar loads to exactly the values written, with documented defaults for the rest, and is accepted only if everything required for the chosen architecture is present and consistent; other files are refused with an error, not misread.",
 ["configurations","inputs"],"every combination of present/absent/malformed keys over small deployments",
 "Config tests load a few files.",
 ["src/util/common/config.cpp","src/util/common/config.hpp","src/parsec/util.cpp"],
 [("parser and read_options/check_options","config.cpp")])
p("C31","Work is partitioned consistently across shards",
 "Every UHS ID belongs exactly to the shards whose configured prefix range contains it, and every PArSEC key maps to one shard, the same in every component and every run; a coordinator or client therefore always addresses exactly the responsible shards.",
 ["inputs","configurations"],"every prefix value and range bound; every key of a small universe for every shard count",
 "Tests try a few prefixes.",
 ["src/util/common/config.cpp","src/parsec/directory/impl.cpp","src/uhs/twophase/locking_shard/locking_shard.cpp","src/uhs/twophase/coordinator/distributed_tx.cpp","src/util/common/hashmap.hpp"],
 [("hash_in_shard_range","config.cpp"),("key_location","directory/impl.cpp")])
p("C32","Bounded caches keep exactly the most recent distinct elements",
 "After any sequence of insertions a bounded set contains exactly the most recently added distinct elements up to its size limit, evicting oldest first, and membership answers agree with that under concurrent use.",
 ["histories","schedules"],"every insertion sequence up to a depth for small limits",
 "No unit test covers eviction of the bounded set.",
 ["src/util/common/cache_set.hpp"],
 [("FIFO eviction","cache_set.hpp")])
p("C33","EVM runner: RLP and account/transaction encodings round-trip",
 "Encoding any account, transaction, receipt or nested list and decoding it yields the same value; malformed encodings are refused.",
 ["inputs"],"all nested structures up to a depth with boundary lengths",
 "Needs the EVM libraries that are absent here.",
 ["src/parsec/agent/runners/evm/rlp_reader.cpp","src/parsec/agent/runners/evm/rlp_writer.cpp","src/parsec/agent/runners/evm/rlp.cpp","src/parsec/agent/runners/evm/serialization.cpp"],
 [("rlp encoding","rlp_writer.cpp")])
p("C34","Shards and watchtowers follow the chain whatever is lost on the way",
 "Whatever blocks of the atomizer's chain a shard or watchtower is sent (some never delivered, some repeated, some late, from one or several atomizers), and while the archiver that holds the rest lags, drops connections or is reachable only later, it ends up having applied every block of the chain exactly once and in order: the height it reports never goes back, every answer it gives is the truth of the chain at the height it names, each properly attested transaction handed to a shard is answered exactly once (to an atomizer, or to the watchtowers with the reason), and none lacking the required attestations. It can be stopped at any time, including while blocks are missing.",
 ["schedules","faults","histories"],"every schedule within a preemption bound x every listed pattern of lost, repeated and late blocks and archiver faults",
 "No unit test starts a shard or watchtower controller; catching up happens only when messages are lost or the archiver is behind.",
 ["src/uhs/atomizer/shard/controller.cpp","src/uhs/atomizer/watchtower/controller.cpp","src/uhs/atomizer/archiver/client.cpp","src/util/network/connection_manager.cpp"],
 [("shard follows blocks and answers transactions","shard/controller.cpp atomizer_handler/request_consumer"),("watchtower follows blocks","watchtower/controller.cpp atomizer_handler"),("fetching missed blocks","archiver/client.cpp")])
p("C35","An atomizer process publishes every block and settles every notification",
 "While an atomizer leads, it makes blocks no faster than the configured interval, sends every block it makes, as committed and in order, to every connected follower, and keeps doing so; each completely attested transaction it was notified of ends up in exactly one block or is reported to the watchtowers with the reason exactly once, and conflicting transactions are never both in blocks; a follower that asks for a block gets it, alone, until it is pruned. When leadership is lost, moves or returns, the new leader accepts connections and does the same; entries refused or given up by replication do no harm. It can be stopped at any point.",
 ["schedules","faults","histories"],"every schedule within a preemption bound x leader changes with lost and surviving entries, refused replication, and stops at every listed point",
 "No unit test starts an atomizer controller, and leader changes need several processes.",
 ["src/uhs/atomizer/atomizer/controller.cpp","src/uhs/atomizer/atomizer/atomizer_raft.cpp","src/uhs/atomizer/atomizer/state_machine.cpp","src/util/network/connection_manager.cpp","src/util/network/socket_selector.cpp","src/util/raft/node.cpp"],
 [("client network, block timer, leadership callbacks","atomizer/controller.cpp"),("aggregation of notifications","atomizer/atomizer_raft.cpp"),("re-opened listener","network/socket_selector.cpp")])
if __name__=="__main__":
    out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
    with open(out,"w") as f:
        for x in P: f.write(json.dumps(x)+"\n")
    for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
    print(len(P))
