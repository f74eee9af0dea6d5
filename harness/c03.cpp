// C03/C04: two-phase commit. Real coordinator controllers (leader election,
// recovery, batching, execution threads) over a stand-in consensus library
// and transport, real locking shard controllers, clients and status servers.
#include <algorithm>
#include <atomic>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <variant>
#include <vector>

#include "harness/common.hpp"
#include "mc/sched.hpp"
#include "uhs/transaction/messages.hpp"
#include "uhs/twophase/coordinator/client.hpp"
#include "uhs/twophase/coordinator/controller.hpp"
#include "uhs/twophase/coordinator/format.hpp"
#include "uhs/twophase/locking_shard/client.hpp"
#include "uhs/twophase/locking_shard/controller.hpp"
#include "uhs/twophase/locking_shard/format.hpp"
#include "uhs/twophase/locking_shard/messages.hpp"
#include "uhs/twophase/locking_shard/status_client.hpp"
#include "util/raft/serialization.hpp"
#include "util/rpc/fake.hpp"
#include "util/rpc/format.hpp"
#include "util/serialization/format.hpp"
#include "util/serialization/util.hpp"

#ifndef PROP
#define PROP "C03"
#endif

namespace {
    using namespace cbdc;
    using transaction::compact_tx;
    using result_ptr
        = nuraft::ptr<nuraft::cmd_result<nuraft::ptr<nuraft::buffer>>>;
    using shard_req = rpc::request<locking_shard::rpc::request>;
    constexpr int n_shards = 2;
    network::endpoint_t shard_ep(int s) {
        return {"shard", uint16_t(100 + s)};
    }
    network::endpoint_t shard_alias(int node, int s) {
        return {"shard-of-" + std::to_string(node), uint16_t(100 + s)};
    }
    network::endpoint_t status_ep(int s) {
        return {"status", uint16_t(200 + s)};
    }
    network::endpoint_t coord_ep(int n) {
        return {"coordinator", uint16_t(300 + n)};
    }
    // prefix 0..127 belong to shard 0, the others to shard 1
    hash_t A(uint32_t n) {
        return h::id(0x10, n);
    }
    hash_t B(uint32_t n) {
        return h::id(0x90, n);
    }
    int shard_of(const hash_t& x) {
        return x[0] < 128 ? 0 : 1;
    }
    struct plan {
        const char* name;
        std::vector<compact_tx> txs;
        size_t batch;
        size_t threads;
        bool wait_each{}; // submit only after the previous answer
    };
    compact_tx T(const hash_t& id,
                 std::vector<hash_t> in,
                 std::vector<hash_t> out) {
        return h::ctx_tx(id, std::move(in), std::move(out));
    }
    const std::vector<plan>& plans() {
        static const std::vector<plan> p{
            {"one transaction across both shards",
             {T(A(100), {A(1)}, {B(11)})},
             2,
             1},
            {"conflicting transactions in one batch",
             {T(A(100), {A(1), B(1)}, {B(11)}), T(B(101), {A(1)}, {A(12)})},
             2,
             1},
            {"conflicting transactions in two batches",
             {T(A(100), {A(1)}, {B(11)}), T(B(101), {A(1), B(1)}, {A(12)})},
             1,
             2},
            {"one shard refuses",
             {T(A(100), {A(1), B(77)}, {A(11)}), T(A(101), {A(2)}, {B(12)})},
             2,
             1},
            {"spending the output of the previous one",
             {T(B(100), {A(1), B(1)}, {A(11), B(12)}),
              T(A(101), {A(11)}, {B(13)})},
             1,
             1,
             true},
            {"transactions of different shards in one batch",
             {T(A(100), {A(1)}, {A(11)}), T(B(101), {B(1)}, {B(12)})},
             2,
             1},
        };
        return p;
    }
    const std::vector<hash_t>& seeds() {
        static const bool c31 = std::string(PROP) == "C31";
        static const std::vector<hash_t> s
            = c31 ? std::vector<hash_t>{h::id(0, 1), h::id(127, 1),
                                        h::id(128, 1), h::id(255, 1)}
                  : std::vector<hash_t>{A(1), A(2), B(1), B(2)};
        return s;
    }

    struct faults {
        bool crash{};      // leaders may die at replication and RPCs
        bool lossy{};      // requests or responses may be lost
        bool flap{};       // the only leader may lose and regain leadership
        bool late{};       // requests of the dead arrive after recovery
        uint32_t crashes{2};
        int nodes{3};
        int submitters{1};
        bool stop_early{}; // quit at any point
        bool hang{};       // shards may stop answering for good
        uint32_t preempt{99};
        uint32_t cost{1};  // of a crash
    };

    struct world {
        const plan& p;
        faults f;
        config::options opts;
        struct node {
            std::unique_ptr<coordinator::controller> ctl;
            nuraft::ptr<nuraft::raft_server> rs;
            size_t applied{};
            bool dead{};
            std::mutex raft; // nuraft serializes its state machine
        };
        std::vector<std::unique_ptr<node>> nodes;
        std::vector<std::unique_ptr<locking_shard::controller>> shards;
        std::vector<nuraft::ptr<nuraft::buffer>> log;
        int leader{-1};
        int term{0};
        uint32_t crashes{0};
        int flaps{0};
        bool hung{}, finished{}, arriving_late{};
        std::vector<std::function<void()>> late; // delayed requests
        nuraft::ptr<nuraft::raft_server> launched;
        // what happened on each shard to each distributed transaction
        struct dtx {
            bool locked{}, applied{}, discarded{};
        };
        std::map<hash_t, dtx> seen[n_shards];
        // clients
        struct sub {
            bool sent{};
            int term{-1};
            bool fresh{}; // taken by a server of that term
            int answers{};
            std::optional<bool> res{};
        };
        std::vector<sub> subs;

        world(const plan& pl, const faults& fl)
            : p(pl),
              f(fl),
              subs(pl.txs.size()) {
            faketcp::servers.clear();
            faketcp::opened.clear();
            faketcp::guard = [](bool in) {
                if(in) {
                    sched::hb_acquire(&faketcp::servers);
                } else {
                    sched::hb_release(&faketcp::servers);
                }
            };
            faketcp::sync_waits = true;
            faketcp::refuse_send = [this](const network::endpoint_t& e) {
                for(size_t i = 0; i < nodes.size(); i++) {
                    if(nodes[i]->dead && e == coord_ep(int(i))) {
                        return true;
                    }
                }
                return false;
            };
            faketcp::join_servers = true;
            opts.m_attestation_threshold = 0;
            opts.m_batch_size = p.batch;
            opts.m_coordinator_max_threads = p.threads;
            opts.m_shard_ranges = {{0, 127}, {128, 255}};
            opts.m_shard_completed_txs_cache_size = 100;
            for(int s = 0; s < n_shards; s++) {
                opts.m_locking_shard_endpoints.push_back({shard_ep(s)});
                opts.m_locking_shard_readonly_endpoints.push_back(
                    {status_ep(s)});
                opts.m_locking_shard_raft_endpoints.push_back(
                    {{"raft", uint16_t(400 + s)}});
            }
            std::vector<network::endpoint_t> ce, cr;
            for(int i = 0; i < f.nodes; i++) {
                ce.push_back(coord_ep(i));
                cr.push_back({"raft", uint16_t(500 + i)});
            }
            opts.m_coordinator_endpoints = {ce};
            opts.m_coordinator_raft_endpoints = {cr};
        }
        void start_shards() {
            nuraft::shim::on_launch
                = [this](const nuraft::ptr<nuraft::raft_server>& s) {
                      launched = s;
                  };
            for(int s = 0; s < n_shards; s++) {
                shards.push_back(std::make_unique<locking_shard::controller>(
                    size_t(s),
                    size_t(0),
                    opts,
                    h::logger()));
                if(!shards.back()->init()) {
                    sched::fail("init", "shard does not start");
                }
                launched->m_cb(nuraft::cb_func::BecomeLeader, nullptr);
                if(faketcp::servers.count(shard_ep(s)) == 0) {
                    sched::fail("init", "shard does not listen");
                }
            }
            // initial outputs
            for(int s = 0; s < n_shards; s++) {
                std::vector<hash_t> own;
                for(auto& x : seeds()) {
                    if(shard_of(x) == s) {
                        own.push_back(x);
                    }
                }
                locking_shard::tx t;
                t.m_tx = T(h::id(uint8_t(s * 128), 900), {}, own);
                auto c = client(s);
                auto r = c->lock_outputs({t}, h::id(1, 901));
                if(!r || *r != std::vector<bool>{true}
                   || !c->apply_outputs({true}, h::id(1, 901))
                   || !c->discard_dtx(h::id(1, 901))) {
                    sched::fail("seed", "outputs cannot be created");
                }
            }
        }
        std::unique_ptr<locking_shard::rpc::client> client(int s) {
            auto c = std::make_unique<locking_shard::rpc::client>(
                std::vector<network::endpoint_t>{shard_ep(s)},
                opts.m_shard_ranges[size_t(s)],
                *h::logger());
            (void)c->init();
            return c;
        }
        // --- consensus among the coordinator's nodes ---
        void catch_up(node& n) {
            while(n.applied < log.size()) {
                auto b = nuraft::buffer::clone(*log[n.applied]);
                b->pos(0);
                (void)n.rs->m_sm->commit(++n.applied, *b);
            }
        }
        void start_nodes() {
            nuraft::shim::on_launch
                = [this](const nuraft::ptr<nuraft::raft_server>& s) {
                      s->m_leader = false;
                      launched = s;
                  };
            for(int i = 0; i < f.nodes; i++) {
                auto o = opts;
                for(int s = 0; s < n_shards; s++) {
                    o.m_locking_shard_endpoints[size_t(s)]
                        = {shard_alias(i, s)};
                    faketcp::servers[shard_alias(i, s)]
                        = [this, i, s](buffer q, faketcp::reply_fn r) {
                              return carry(i, s, std::move(q), r);
                          };
                }
                nodes.push_back(std::make_unique<node>());
                auto& n = *nodes.back();
                n.ctl = std::make_unique<coordinator::controller>(size_t(i),
                                                                  size_t(0),
                                                                  o,
                                                                  h::logger());
                if(!n.ctl->init()) {
                    sched::fail("init", "coordinator does not start");
                }
                n.rs = launched;
                n.rs->m_append = [this, i](nuraft::raft_server&,
                                           const nuraft::ptr<nuraft::buffer>&
                                               b) {
                    return append(i, b);
                };
            }
        }
        result_ptr append(int i, const nuraft::ptr<nuraft::buffer>& b) {
            auto r = nuraft::cs_new<
                nuraft::cmd_result<nuraft::ptr<nuraft::buffer>>>();
            sched::point("replicate");
            sched::atomic_section g;
            auto& n = *nodes[size_t(i)];
            auto refuse = [&](bool accepted) {
                if(accepted) {
                    r->accept();
                }
                r->set_result(nullptr, nullptr, nuraft::NOT_LEADER);
                return r;
            };
            if(leader != i) {
                return refuse(false);
            }
            bool can = (f.crash && crashes < f.crashes && alive() > 1)
                    || (f.flap && flaps < 2);
            auto what = can ? sched::choose(3, "replication", f.cost) : 0;
            if(what == 1) {
                lose(i);
                return refuse(sched::choose(2, "accepted", f.cost) == 1);
            }
            log.push_back(nuraft::buffer::clone(*b));
            if(what == 2) {
                lose(i);
                return refuse(true);
            }
            r->accept();
            sched::hb_acquire(&log);
            b->pos(0);
            auto res = n.rs->m_sm->commit(++n.applied, *b);
            sched::hb_release(&log);
            r->set_result(res, nullptr, nuraft::OK);
            return r;
        }
        int alive() const {
            int k = 0;
            for(auto& n : nodes) {
                k += n->dead ? 0 : 1;
            }
            return k;
        }
        std::map<network::endpoint_t, uint64_t> lost_at;
        // the leader crashes (or is deposed and talks to nobody any more)
        void lose(int i) {
            auto& n = *nodes[size_t(i)];
            leader = -1;
            term++;
            n.rs->m_leader = false;
            lost_at[coord_ep(i)] = faketcp::servers.count(coord_ep(i)) != 0
                                     ? faketcp::opened[coord_ep(i)]
                                     : ~uint64_t{0}; // it may be starting
            if(f.crash) {
                crashes++;
                n.dead = true;
            } else {
                flaps++;
            }
            n.rs->m_cb(nuraft::cb_func::BecomeFollower, nullptr);
        }
        void elect(int i) {
            auto& n = *nodes[size_t(i)];
            {
                sched::atomic_section g;
                catch_up(n);
                leader = i;
                n.rs->m_leader = true;
            }
            n.rs->m_cb(nuraft::cb_func::BecomeLeader, nullptr);
        }
        void cluster() {
            for(;;) {
                sched::until(
                    [&]() {
                        sched::atomic_section g;
                        return leader == -1 || finished;
                    },
                    "leader");
                int next = -1;
                {
                    sched::atomic_section g;
                    if(finished) {
                        return;
                    }
                    for(int i = 0; i < f.nodes && next < 0; i++) {
                        if(!nodes[size_t(i)]->dead) {
                            next = i;
                        }
                    }
                }
                elect(next);
            }
        }
        // --- requests of coordinator i to shard s ---
        std::optional<buffer>
        carry(int i, int s, buffer q, const faketcp::reply_fn& reply) {
            sched::point("request");
            sched::atomic_section g;
            auto& n = *nodes[size_t(i)];
            if(n.dead || hung) {
                return std::nullopt;
            }
            bool crash = f.crash && crashes < f.crashes && alive() > 1
                      && leader == i;
            uint32_t k = 1;
            int what = 0;
            if(crash) {
                k += 2;
            }
            if(f.lossy) {
                k += 2;
            }
            if(f.late && crash) {
                k++;
            }
            if(f.hang) {
                k++;
            }
            auto x = k > 1 ? sched::choose(k, "request", f.cost) : 0;
            if(x != 0) {
                what = int(x);
                if(!crash && f.hang && x == 1) {
                    what = 6;
                } else if(!crash) {
                    what += 2;
                } else if(f.late && x == 3) {
                    what = 5;
                }
            }
            switch(what) {
                case 1: // lost, sender dies
                    lose(i);
                    return std::nullopt;
                case 3: // lost
                    return std::nullopt;
                case 5: // arrives much later, sender dies
                    late.push_back([this, s, q]() {
                        (void)serve(s, q, [](buffer) {});
                    });
                    lose(i);
                    return std::nullopt;
                case 6:
                    hung = true;
                    return std::nullopt;
                default:
                    break;
            }
            if(what == 2) { // executed, sender dies
                (void)serve(s, q, [](buffer) {});
                lose(i);
                return std::nullopt;
            }
            if(what == 4) { // response lost
                (void)serve(s, q, [](buffer) {});
                return std::nullopt;
            }
            return serve(s, std::move(q), reply);
        }
        std::optional<buffer>
        serve(int s, buffer q, const faketcp::reply_fn& reply) {
            sched::hb_acquire(&seen[s]);
            auto r = from_buffer<shard_req>(q);
            if(!r.has_value()) {
                sched::fail("request", "malformed request to a shard");
            }
            auto& pl = r->m_payload;
            auto& d = seen[s][pl.m_dtx_id];
            if(auto* lp = std::get_if<locking_shard::rpc::lock_params>(
                   &pl.m_params)) {
                for(auto& t : *lp) {
                    bool mine = shard_of(t.m_tx.m_id) == s;
                    for(auto& x : t.m_tx.m_inputs) {
                        mine |= shard_of(x) == s;
                    }
                    for(auto& x : t.m_tx.m_uhs_outputs) {
                        mine |= shard_of(x) == s;
                    }
                    if(!mine) {
                        sched::fail("not-responsible",
                                    "a shard gets a transaction of others");
                    }
                }
                if(arriving_late && d.discarded) {
                    sched::fail("late-lock",
                                "a lock request of a dead coordinator is "
                                "executed after its dtx was discarded: the "
                                "locks are never released");
                }
                d.locked = true;
            } else if(std::holds_alternative<locking_shard::rpc::apply_params>(
                          pl.m_params)) {
                if(!d.locked) {
                    sched::fail("apply",
                                "decision for a transaction the shard never "
                                "prepared");
                }
                if(d.discarded) {
                    sched::fail(arriving_late ? "late-apply" : "re-apply",
                                "decision for a transaction already "
                                "discarded: the shard ends");
                }
                d.applied = true;
            } else {
                if(d.locked && !d.applied) {
                    sched::fail("discard", "discarded before it was applied");
                }
                d.discarded = true;
            }
            auto it = faketcp::servers.find(shard_ep(s));
            auto res = it->second(std::move(q), reply);
            sched::hb_release(&seen[s]);
            return res;
        }
        // --- clients ---
        bool listening() {
            return leader >= 0
                && faketcp::servers.count(coord_ep(leader)) != 0;
        }
        // Sends transaction k to the leader, once.
        void submit(size_t k, coordinator::rpc::client& c) {
            auto& b = subs[k];
            for(int tries = 0; tries < 20; tries++) {
                sched::until(
                    [&]() {
                        sched::atomic_section g;
                        return listening() || finished;
                    },
                    "a coordinator that listens");
                {
                    sched::atomic_section g;
                    if(finished) {
                        return;
                    }
                    // A server of an earlier term may still be there: what
                    // it takes it may drop.
                    auto ep = coord_ep(leader);
                    b.term = term;
                    b.fresh = lost_at[ep] != ~uint64_t{0}
                           && faketcp::opened[ep] != lost_at[ep];
                    b.sent = true;
                }
                auto ok = c.execute_transaction(
                    p.txs[k],
                    [this, k](std::optional<bool> r) {
                        sched::atomic_section g;
                        auto& x = subs[k];
                        x.answers++;
                        if(x.answers > 1) {
                            sched::fail("twice",
                                        mc::strf("transaction %zu is "
                                                 "answered twice",
                                                 k));
                        }
                        x.res = r;
                    });
                if(ok) {
                    break;
                }
                sched::atomic_section g;
                b.sent = false;
            }
            if(p.wait_each) {
                wait(k);
            }
        }
        // answered, or the leader that took it is gone
        bool settled(size_t k) {
            auto& b = subs[k];
            return b.answers != 0 || b.term != term;
        }
        void wait(size_t k) {
            sched::until(
                [&]() {
                    sched::atomic_section g;
                    return settled(k) || finished;
                },
                "an answer");
        }
        void close_all() {
            {
                sched::atomic_section g;
                finished = true;
            }
            for(auto& n : nodes) {
                n->ctl.reset();
            }
        }
        void end() {
            {
                sched::atomic_section g;
                for(auto& n : nodes) {
                    n->rs->m_append = nullptr;
                    n->rs->m_cb = nullptr;
                }
            }
            shards.clear();
            nodes.clear();
            faketcp::servers.clear();
            faketcp::refuse_send = nullptr;
            nuraft::shim::on_launch = nullptr;
        }
        // --- judgement ---
        void judge() {
            auto st = locking_shard::rpc::status_client(
                opts.m_locking_shard_readonly_endpoints,
                opts.m_shard_ranges,
                std::chrono::milliseconds(4000));
            if(!st.init()) {
                sched::fail("status", "no status client");
            }
            std::vector<bool> done;
            for(auto& t : p.txs) {
                auto r = st.check_tx_id(t.m_id);
                if(!r) {
                    sched::fail("status", "a status query is not answered");
                }
                done.push_back(*r);
            }
            std::set<hash_t> have(seeds().begin(), seeds().end());
            std::set<hash_t> ids = have;
            std::map<hash_t, int> spent;
            for(size_t k = 0; k < done.size(); k++) {
                for(auto& x : p.txs[k].m_uhs_outputs) {
                    ids.insert(x);
                    if(done[k]) {
                        have.insert(x);
                    }
                }
            }
            // resubmitted: counts once, and only one submission succeeds
            auto again = [&](size_t k) {
                for(size_t j = 0; j < k; j++) {
                    if(p.txs[j].m_id == p.txs[k].m_id) {
                        return true;
                    }
                }
                return false;
            };
            for(size_t k = 0; k < done.size(); k++) {
                for(auto& x : p.txs[k].m_inputs) {
                    ids.insert(x);
                    if(!done[k] || again(k)) {
                        continue;
                    }
                    if(++spent[x] > 1) {
                        sched::fail("double-spend",
                                    "two committed transactions spend " + h::hx(x));
                    }
                    if(have.erase(x) == 0) {
                        sched::fail("no-input",
                                    "a committed transaction spends what "
                                    "does not exist: "
                                        + h::hx(x));
                    }
                }
            }
            for(size_t k = 0; k < done.size(); k++) {
                size_t copies = 0, yes = 0;
                for(size_t j = 0; j < done.size(); j++) {
                    if(p.txs[j].m_id == p.txs[k].m_id) {
                        copies++;
                        yes += subs[j].res.value_or(false) ? 1 : 0;
                    }
                }
                if(yes > 1) {
                    sched::fail("result",
                                "two submissions of one transaction succeed");
                }
                if(copies == 1 ? subs[k].res && *subs[k].res != done[k]
                               : yes == 1 && !done[k]) {
                    sched::fail("result",
                                mc::strf("transaction %zu: the client is "
                                         "told %d, the shards have %d",
                                         k,
                                         int(*subs[k].res),
                                         int(done[k])));
                }
                if(!subs[k].sent && done[k]) {
                    sched::fail("result", "a transaction nobody sent");
                }
            }
            for(auto& x : ids) {
                auto r = st.check_unspent(x);
                if(!r || *r != (have.count(x) != 0)) {
                    sched::fail("atomicity",
                                h::hx(x) + (have.count(x) != 0
                                                ? " is missing at its shard"
                                                : " is left at its shard"));
                }
            }
            // nothing is locked
            for(int s = 0; s < n_shards; s++) {
                auto c = client(s);
                uint32_t n = 950;
                for(auto& x : ids) {
                    if(shard_of(x) != s) {
                        continue;
                    }
                    locking_shard::tx t;
                    t.m_tx = T(h::id(2, n), {x}, {});
                    auto r = c->lock_outputs({t}, h::id(3, n++));
                    if(!r || (*r)[0] != (have.count(x) != 0)) {
                        sched::fail("locked",
                                    h::hx(x) + " is still locked at its shard");
                    }
                }
                for(auto& [d, v] : seen[s]) {
                    if(v.locked && !v.applied) {
                        sched::fail("unfinished",
                                    "a shard is left with a prepared "
                                    "distributed transaction");
                    }
                    if(v.locked && !v.discarded) {
                        sched::fail("undiscarded",
                                    "a shard is never told to forget a "
                                    "distributed transaction");
                    }
                }
            }
        }
        bool done(node& n) {
            auto cmd = coordinator::controller::sm_command{
                {coordinator::state_machine::command::get, std::nullopt},
                std::nullopt};
            auto b = nuraft::buffer::alloc(serialized_size(cmd));
            auto ser = nuraft_serializer(*b);
            ser << cmd;
            b->pos(0);
            auto r = n.rs->m_sm->commit(n.rs->m_sm->last_commit_index() + 1,
                                        *b);
            auto cs = coordinator::controller::coordinator_state();
            if(r) {
                r->pos(0);
                auto d = nuraft_serializer(*r);
                d >> cs;
            }
            return r && cs.m_prepare_txs.empty() && cs.m_commit_txs.empty()
                && cs.m_discard_txs.empty();
        }
        // The leader listens and the log says that every distributed
        // transaction is done.
        std::set<hash_t> open_dtxs;
        size_t looked{};
        bool idle() {
            if(!listening()) {
                return false;
            }
            using command = coordinator::state_machine::command;
            for(; looked < log.size(); looked++) {
                auto b = nuraft::buffer::clone(*log[looked]);
                b->pos(0);
                auto d = nuraft_serializer(*b);
                auto h = coordinator::controller::sm_command_header();
                d >> h;
                if(h.m_comm == command::done) {
                    open_dtxs.erase(*h.m_dtx_id);
                } else if(h.m_comm != command::get) {
                    open_dtxs.insert(*h.m_dtx_id);
                }
            }
            return open_dtxs.empty();
        }
        void log_is_done() {
            for(auto& n : nodes) {
                if(n->dead) {
                    continue;
                }
                catch_up(*n);
                if(!done(*n)) {
                    sched::fail("log",
                                "the replicated state still holds a "
                                "distributed transaction");
                }
            }
        }
        std::string summary() {
            std::string s;
            for(auto& b : subs) {
                s += !b.sent          ? '-'
                   : b.answers == 0   ? '.'
                   : !b.res.has_value() ? '?'
                   : *b.res           ? 'y'
                                      : 'n';
            }
            return s + mc::strf(" term%d", term);
        }
    };

    sched::options options(const faults& f) {
        sched::options o;
        o.preempt_cost = o.block_cost = o.timer_cost = o.wake_cost = f.preempt;
        o.max_steps = 200000;
        // the stand-ins for consensus and transport
        o.race_ignore = {"faketcp", "tcp_client", "tcp_server", "nuraft"};
        return o;
    }

    void run(mc::ctx& c, const plan& p, const faults& f) {
        std::string out;
        sched::run(c, options(f), [&]() {
            world w(p, f);
            w.start_shards();
            w.start_nodes();
            std::thread cl([&]() {
                w.cluster();
            });
            std::vector<network::endpoint_t> eps;
            for(int i = 0; i < f.nodes; i++) {
                eps.push_back(coord_ep(i));
            }
            std::vector<std::unique_ptr<coordinator::rpc::client>> cs;
            std::vector<std::thread> ts;
            for(int i = 0; i < f.submitters; i++) {
                cs.push_back(std::make_unique<coordinator::rpc::client>(eps));
                (void)cs.back()->init();
            }
            for(int i = 0; i < f.submitters; i++) {
                ts.emplace_back([&, i]() {
                    for(size_t k = size_t(i); k < p.txs.size();
                        k += size_t(f.submitters)) {
                        w.submit(k, *cs[size_t(i)]);
                    }
                });
            }
            if(f.stop_early) {
                auto when = sched::choose(uint32_t(p.txs.size()) + 2, "stop");
                sched::until(
                    [&]() {
                        sched::atomic_section g;
                        size_t sent = 0, ans = 0;
                        for(auto& b : w.subs) {
                            sent += b.sent ? 1 : 0;
                            ans += b.answers != 0 ? 1 : 0;
                        }
                        return when <= p.txs.size() ? sent >= when
                                                    : w.hung || ans >= 1;
                    },
                    "time to stop");
                w.close_all();
                for(auto& t : ts) {
                    t.join();
                }
            } else {
                for(auto& t : ts) {
                    t.join();
                }
                for(size_t k = 0; k < p.txs.size(); k++) {
                    w.wait(k);
                }
                sched::until(
                    [&]() {
                        sched::atomic_section g;
                        return w.idle();
                    },
                    "a coordinator without unfinished work");
                // what the dead sent arrives now
                {
                    sched::atomic_section g;
                    w.arriving_late = true;
                    for(auto& l : w.late) {
                        l();
                    }
                }
                for(size_t k = 0; k < p.txs.size(); k++) {
                    sched::atomic_section g;
                    auto& b = w.subs[k];
                    // a second submission of an ID in one batch is refused
                    bool dup = false;
                    for(size_t j = 0; j < p.txs.size(); j++) {
                        dup |= j != k && p.txs[j].m_id == p.txs[k].m_id
                            && w.subs[j].res.has_value();
                    }
                    if(b.term == w.term
                       && (b.answers == 0
                           || (!b.res.has_value() && !dup && b.fresh))) {
                        sched::fail("no-result",
                                    mc::strf("transaction %zu (%d answers) has "
                                             "no result although its "
                                             "leader lives",
                                             k,
                                             int(b.answers)));
                    }
                }
                w.close_all();
            }
            cl.join();
            cs.clear();
            if(!f.stop_early) {
                w.log_is_done();
                w.judge();
            }
            out = w.summary();
            w.end();
        });
        if(!c.failed()) {
            c.outcome(out);
        }
    }
}

int main(int argc, char** argv) {
    bool th = mc::thorough();
    std::vector<mc::scenario> s;
    auto add = [&](const std::string& n,
                   const plan& p,
                   const faults& f,
                   uint32_t bound,
                   const std::string& b) {
        s.push_back({n,
                     [&p, f](mc::ctx& c) {
                         run(c, p, f);
                     },
                     bound,
                     8,
                     mc::by_deviation,
                     b});
    };
    const bool c04 = std::string(PROP) == "C04";
    if(std::string(PROP) == "C31") {
        static std::vector<std::pair<std::string, plan>> bounds;
        const std::vector<uint8_t> edge{0, 127, 128, 255};
        for(auto i : edge) {
            for(auto o : edge) {
                bounds.push_back(
                    {mc::strf("coordinator: from prefix %d to prefix %d", i,
                              o),
                     {"", {}, 2, 1}});
                auto& t = bounds.back().second.txs;
                for(auto e : edge) {
                    // ids of every shard; the second to fourth conflict
                    t.push_back(T(h::id(e, 100), {h::id(i, 1)},
                                  {h::id(o, uint32_t(11 + e))}));
                }
                bounds.back().second.wait_each = true;
            }
        }
        for(auto& [n, p] : bounds) {
            faults f;
            f.nodes = 1;
            add(n, p, f, 0, "one execution through the real coordinator");
            s.back().workers = 1;
        }
        return mc::main(argc, argv, PROP, "model_checking",
                        "every prefix bound through coordinator and shards",
                        {}, s);
    }
    static const std::vector<plan> more{
        // 4 transactions through batches of one and one thread: executing,
        // scheduled, in the current batch and waiting for space
        {"full pipeline",
         {T(A(100), {A(1)}, {B(11)}),
          T(A(101), {A(2)}, {B(12)}),
          T(B(102), {B(1)}, {A(13)}),
          T(B(103), {B(2)}, {A(14)})},
         1,
         1},
        {"independent transactions",
         {T(A(100), {A(1)}, {A(11)}), T(A(101), {A(2)}, {A(12)})},
         1,
         2},
        {"batch of two",
         {T(A(100), {A(1)}, {A(11)}), T(A(101), {A(2)}, {A(12)})},
         2,
         1},
        {"duplicate",
         {T(A(100), {A(1)}, {A(11)}), T(A(100), {A(1)}, {A(11)})},
         2,
         1},
        {"three submitters, batches of one",
         {T(A(100), {A(1)}, {A(11)}),
          T(A(101), {A(2)}, {A(12)}),
          T(B(102), {B(1)}, {B(13)})},
         1,
         1},
    };
    if(c04) {
        for(auto& p : more) {
            faults f;
            f.nodes = 1;
            f.preempt = 1;
            f.submitters = &p == &more[4] ? 3 : &p == &more[1] ? 2 : 1;
            add(p.name, p, f, th ? 2 : 1, "schedules");
        }
        for(size_t k : {size_t(0), size_t(1)}) {
            faults f;
            f.nodes = 1;
            f.preempt = 1;
            f.stop_early = true;
            f.hang = true;
            add(std::string("stop: ") + more[k].name,
                more[k],
                f,
                th ? 2 : 1,
                "stopped at any point; shards may hang");
        }
        {
            faults f;
            f.nodes = 1;
            f.preempt = 1;
            f.flap = true;
            add("leadership lost and regained",
                more[1],
                f,
                th ? 2 : 1,
                "schedules; up to 2 losses of leadership");
        }
        {
            faults f;
            f.nodes = 1;
            f.flap = true;
            f.hang = false;
            f.lossy = true;
            add("losses", more[0], f, th ? 3 : 2,
                "lost messages and leadership");
        }
    } else {
        for(auto& p : plans()) {
            faults f;
            f.crash = true;
            f.lossy = true;
            add(p.name, p, f, th ? 3 : 2, "crashes and lost messages");
        }
        {
            faults f;
            f.crash = true;
            f.crashes = 4;
            f.nodes = 5;
            add("chained crashes", plans()[1], f, th ? 4 : 3,
                "crashes of successive leaders");
        }
        {
            faults f;
            f.crash = true;
            f.crashes = 1;
            f.preempt = 1;
            f.cost = 0;
            add("crash and schedules", plans()[2], f, 1,
                "any crash and a preemption");
            if(th) {
                f.cost = 1;
                add("crash and two preemptions", plans()[0], f, 2,
                    "crash, preemptions");
            }
        }
        {
            faults f;
            f.crash = true;
            f.late = true;
            f.crashes = 1;
            add("requests of the dead", plans()[3], f, 1,
                "requests delivered after recovery");
        }
    }
    return mc::main(argc,
                    argv,
                    PROP,
                    "model_checking",
                    "every crash point and lost message within the deviation "
                    "bound",
                    {"requests of a dead coordinator do not arrive after its "
                     "successor has recovered, except in the scenario about "
                     "them"},
                    s);
}
