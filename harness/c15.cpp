// C15: a PArSEC shard keeps prepared and committed tickets across leader
// changes. Real controllers (two replicas), servers, clients, state machines
// and shards; the consensus library and the transport are stand-ins that let
// the harness decide, for every request, whether replication is refused,
// completes at once, later or only in the next leader's term, and when
// leadership moves or the leader restarts.
#include <algorithm>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <variant>
#include <vector>

#include "harness/common.hpp"
#include "parsec/runtime_locking_shard/client.hpp"
#include "parsec/runtime_locking_shard/controller.hpp"
#include "parsec/runtime_locking_shard/format.hpp"
#include "util/rpc/format.hpp"
#include "util/serialization/format.hpp"
#include "util/rpc/fake.hpp"

namespace {
    using namespace cbdc;
    namespace rls = cbdc::parsec::runtime_locking_shard;
    using rls::error_code;
    using net_ep = network::endpoint_t;
    constexpr auto R = rls::lock_type::read;
    constexpr auto W = rls::lock_type::write;

    buffer B(const std::string& s) {
        buffer b;
        b.append(s.data(), s.size());
        return b;
    }
    std::string S(const buffer& b) {
        return {static_cast<const char*>(b.data()), b.size()};
    }
    const char* KEY[2] = {"key0", "key1"};
    net_ep ep(int n) {
        return {"replica", uint16_t(100 + n)};
    }

    enum class op { lock, prepare, commit, rollback, finish };
    const char* opname(op o) {
        static const char* n[]
            = {"lock", "prepare", "commit", "rollback", "finish"};
        return n[int(o)];
    }
    // A request whose effect must survive once its entry is in the log.
    struct effect {
        op o{};
        int t{-1};
    };

    // What the log says: the specification's fold.
    struct durable {
        struct ticket {
            bool committed{};
            std::map<int, std::string> upd;
            uint64_t broker{};
        };
        std::map<int, ticket> tickets;
        std::map<int, std::string> val;
    };

    struct entry {
        nuraft::ptr<nuraft::buffer> data;
        effect e;
        nuraft::ptr<nuraft::cmd_result<nuraft::ptr<nuraft::buffer>>> res;
        nuraft::ptr<nuraft::raft_server> by;
    };

    struct replica {
        std::unique_ptr<rls::controller> ctl;
        nuraft::ptr<nuraft::raft_server> rs;
        size_t applied{};
        int id{};
    };

    nuraft::ptr<nuraft::raft_server> g_launched;

    struct world {
        mc::ctx& c;
        std::vector<entry> log;   // committed by the cluster
        std::deque<entry> pend;   // accepted by the leader, not committed
        replica rep[2];
        int leader{0};
        effect cur;               // request being handled
        bool refuse_next{}, defer_next{};
        bool stop{};
        durable d;
        std::unique_ptr<rls::rpc::client> cl;
        int changes{};

        // the broker's view
        enum class ph { none, live, preparing, prepared, committing, committed,
                        rolling, gone, dead };
        struct tk {
            ph p{ph::none};
            std::map<int, rls::lock_type> held, wait;
            bool first{true};
            int outstanding{0};
            bool wounded{};
            int attempt{}; // rolled back and begun again
            std::map<int, std::string> upd;
            uint64_t broker{};
            std::string answers;
        };
        std::map<int, tk> tix;
        int restarts{};

        explicit world(mc::ctx& x) : c(x) {
            faketcp::servers.clear();
            nuraft::shim::on_launch
                = [](const nuraft::ptr<nuraft::raft_server>& s) {
                      s->m_leader = false;
                      g_launched = s;
                  };
        }
        ~world() {
            cl.reset();
            for(auto& r : rep) {
                drop(r);
            }
            faketcp::servers.clear();
        }
        void bad(const std::string& k, const std::string& m) {
            if(!stop) {
                c.fail(k, "%s", m.c_str());
                stop = true;
            }
        }
        void drop(replica& r) {
            r.ctl.reset();
            if(r.rs) {
                r.rs->m_cb = nullptr;
                r.rs->m_append = nullptr;
            }
            r.rs.reset();
        }
        void launch(replica& r, int id) {
            r.id = id;
            r.ctl = std::make_unique<rls::controller>(
                0,
                0,
                ep(id),
                std::vector<net_ep>{ep(50 + id)},
                h::logger());
            if(!r.ctl->init()) {
                bad("init", "controller does not start");
                return;
            }
            r.rs = g_launched;
            r.applied = 0;
            r.rs->m_append = [this](nuraft::raft_server& s,
                                    const nuraft::ptr<nuraft::buffer>& b) {
                return append(s, b);
            };
        }
        using result_ptr
            = nuraft::ptr<nuraft::cmd_result<nuraft::ptr<nuraft::buffer>>>;
        result_ptr append(nuraft::raft_server& s,
                          const nuraft::ptr<nuraft::buffer>& b) {
            auto r = nuraft::cs_new<
                nuraft::cmd_result<nuraft::ptr<nuraft::buffer>>>();
            if(refuse_next || !s.m_leader) {
                refuse_next = false;
                r->set_result(nullptr, nullptr, nuraft::NOT_LEADER);
                return r;
            }
            r->accept();
            entry e;
            e.data = nuraft::buffer::clone(*b);
            e.e = cur;
            e.res = r;
            for(auto& x : rep) {
                if(x.rs.get() == &s) {
                    e.by = x.rs;
                }
            }
            if(defer_next || !pend.empty()) {
                defer_next = false;
                pend.push_back(std::move(e));
                return r;
            }
            commit_entry(std::move(e), true);
            return r;
        }
        // Executes committed entries a replica has not seen.
        void catch_up(replica& r, size_t upto) {
            while(r.applied < upto) {
                auto data = nuraft::buffer::clone(*log[r.applied].data);
                r.applied++;
                (void)r.rs->m_sm->commit(r.applied, *data);
            }
        }
        void fold(durable& s, const effect& e) {
            auto it = s.tickets.find(e.t);
            switch(e.o) {
                case op::prepare:
                    if(it == s.tickets.end()) {
                        s.tickets[e.t] = {false,
                                          tix[e.t].upd,
                                          tix[e.t].broker};
                    }
                    break;
                case op::commit:
                    if(it != s.tickets.end() && !it->second.committed) {
                        it->second.committed = true;
                        for(auto& [k, v] : it->second.upd) {
                            s.val[k] = v;
                        }
                    }
                    break;
                case op::rollback:
                case op::finish:
                    s.tickets.erase(e.t);
                    break;
                case op::lock:
                    break;
            }
        }
        void commit_entry(entry e, bool answer) {
            log.push_back(e);
            fold(d, e.e);
            auto& r = rep[leader];
            catch_up(r, log.size() - 1);
            auto data = nuraft::buffer::clone(*e.data);
            r.applied = log.size();
            auto res = r.rs->m_sm->commit(r.applied, *data);
            if(answer) {
                if(!res) {
                    bad("null-result",
                        "the state machine has no answer to an entry");
                    return;
                }
                e.res->set_result(res, nullptr, nuraft::OK);
            }
        }
        // Leadership goes to `r`.
        void lead(int r) {
            leader = r;
            auto& x = rep[r];
            catch_up(x, log.size());
            x.rs->m_leader = true;
            cur = {op::lock, -1};
            x.rs->m_cb(nuraft::cb_func::BecomeLeader, nullptr);
            if(faketcp::servers.count(ep(x.id)) == 0) {
                bad("no-server",
                    "a replica that became leader does not serve requests");
            }
            if(faketcp::servers.size() > 1) {
                bad("two-servers", "a deposed replica still serves requests");
            }
            // brokers reconnect to whoever leads
            cl = std::make_unique<rls::rpc::client>(
                std::vector<net_ep>{ep(x.id)});
            (void)cl->init();
        }

        void start() {
            launch(rep[0], 0);
            launch(rep[1], 1);
            if(!stop) {
                lead(0);
            }
        }

        // The leader stops leading with `keep` of its pending entries
        // committed. crash: its process ends as well and is started again.
        void change(size_t keep, bool crash, bool same) {
            changes++;
            auto old = leader;
            auto& o = rep[old];
            // requests in flight at the broker will not be answered when the
            // process is gone, and may be answered with an error otherwise
            auto p = std::move(pend);
            pend.clear();
            for(size_t i = 0; i < keep; i++) {
                auto e = p[i];
                log.push_back(e);
                fold(d, e.e);
            }
            o.rs->m_leader = false;
            if(crash) {
                drop(o);
                cl.reset();
                for(auto& [t, x] : tix) {
                    lost(x);
                }
                launch(o, old);
            } else {
                o.rs->m_cb(nuraft::cb_func::BecomeFollower, nullptr);
                if(faketcp::servers.count(ep(o.id)) != 0) {
                    bad("follower-serves",
                        "a deposed leader still serves requests");
                    return;
                }
                for(auto& e : p) {
                    nuraft::ptr<std::exception> ex
                        = std::make_shared<std::exception>();
                    e.res->set_result(nullptr, ex, nuraft::CANCELLED);
                }
                cl.reset();
                for(auto& [t, x] : tix) {
                    lost(x);
                }
                catch_up(o, log.size());
            }
            if(!stop) {
                lead(same ? old : 1 - old);
            }
            if(stop) {
                return;
            }
            judge_rebuilt();
        }
        // Requests without an answer when the leader went away: the broker
        // sees an error or nothing.
        void lost(tk& x) {
            x.outstanding = 0;
            x.wait.clear();
            switch(x.p) {
                case ph::live:
                case ph::preparing:
                    // locks are gone, or the prepare's outcome is unknown
                    x.held.clear();
                    x.p = ph::dead;
                    break;
                default:
                    break;
            }
        }

        std::string state_of(int t, uint64_t broker, bool& ok) {
            std::string got = "absent";
            ok = false;
            auto s = cl->get_tickets(
                broker,
                [&](rls::interface::get_tickets_return_type r) {
                    if(!std::holds_alternative<
                           rls::interface::get_tickets_success_type>(r)) {
                        return;
                    }
                    ok = true;
                    auto& m
                        = std::get<rls::interface::get_tickets_success_type>(
                            r);
                    auto it = m.find(uint64_t(t));
                    if(it == m.end()) {
                        return;
                    }
                    switch(it->second) {
                        case rls::ticket_state::begun:
                            got = "begun";
                            break;
                        case rls::ticket_state::prepared:
                            got = "prepared";
                            break;
                        case rls::ticket_state::committed:
                            got = "committed";
                            break;
                        case rls::ticket_state::wounded:
                            got = "wounded";
                            break;
                    }
                });
            if(!s) {
                ok = false;
            }
            return got;
        }

        // The new leader knows exactly what the log says.
        void judge_rebuilt() {
            for(int t = 1; t <= 3; t++) {
                for(uint64_t b = 0; b < 2; b++) {
                    bool ok{};
                    auto got = state_of(t, b, ok);
                    std::string want = "absent";
                    auto it = d.tickets.find(t);
                    if(it != d.tickets.end() && it->second.broker == b) {
                        want = it->second.committed ? "committed" : "prepared";
                    }
                    if(!ok || got != want) {
                        bad("rebuilt-ticket",
                            mc::strf("ticket %d of broker %d: the new leader "
                                     "says %s, the log says %s",
                                     t, int(b), got.c_str(), want.c_str()));
                        return;
                    }
                }
            }
            c.agreed();
        }
        // Rebuilds the shard from the log in a throw-away replica and uses it
        // up: locks, values and completions must match the log.
        void judge_scratch() {
            auto keep = faketcp::servers;
            rebuild();
            faketcp::servers = keep;
        }
        void rebuild() {
            world w(c);
            w.log = log;
            w.d = d;
            w.tix = tix;
            w.launch(w.rep[0], 7);
            w.launch(w.rep[1], 8);
            w.lead(0);
            w.judge_rebuilt();
            if(!w.stop) {
                w.use_up();
            }
            stop |= w.stop;
        }
        void use_up() {
            // an older ticket asks for every key: only keys a prepared
            // ticket updates are refused to it, the others show the value
            std::string got[2] = {"?", "?"};
            for(int k = 0; k < 2; k++) {
                (void)cl->try_lock(
                    0, 9, B(KEY[k]), W, k == 0,
                    [&got, k](rls::interface::try_lock_return_type r) {
                        got[k]
                            = std::holds_alternative<rls::value_type>(r)
                                ? "=" + S(std::get<rls::value_type>(r))
                                : "error";
                    });
            }
            std::map<int, int> owner;
            for(auto& [t, x] : d.tickets) {
                if(!x.committed) {
                    for(auto& [k, v] : x.upd) {
                        owner[k] = t;
                    }
                }
            }
            for(int k = 0; k < 2; k++) {
                auto want = owner.count(k) != 0 ? "?" : "=" + d.val[k];
                if(got[k] != want) {
                    bad("rebuilt-lock",
                        mc::strf("%s after rebuilding from the log: an older "
                                 "ticket's lock gives %s, expected %s",
                                 KEY[k], got[k].c_str(), want.c_str()));
                    return;
                }
            }
            // every prepared ticket can still commit, with its updates
            auto ts = d.tickets;
            for(auto& [t, x] : ts) {
                if(x.committed) {
                    continue;
                }
                std::string ans = "none";
                cur = {op::commit, t};
                (void)cl->commit(uint64_t(t),
                                 [&](rls::interface::commit_return_type r) {
                                     ans = r.has_value() ? "error" : "ok";
                                 });
                if(ans != "ok") {
                    bad("rebuilt-commit",
                        mc::strf("prepared ticket %d cannot be committed "
                                 "after rebuilding: %s",
                                 t, ans.c_str()));
                    return;
                }
            }
            for(int k = 0; k < 2; k++) {
                auto want = "=" + d.val[k];
                if(got[k] != want) {
                    bad("rebuilt-value",
                        mc::strf("%s after completing the rebuilt tickets is "
                                 "%s, expected %s",
                                 KEY[k], got[k].c_str(), want.c_str()));
                    return;
                }
            }
            for(auto& [t, x] : ts) {
                std::string ans = "none";
                cur = {op::finish, t};
                (void)cl->finish(uint64_t(t),
                                 [&](rls::interface::finish_return_type r) {
                                     ans = r.has_value() ? "error" : "ok";
                                 });
                if(ans != "ok") {
                    bad("rebuilt-finish",
                        mc::strf("ticket %d cannot be finished after "
                                 "rebuilding: %s",
                                 t, ans.c_str()));
                    return;
                }
            }
            c.agreed();
        }
        // Both replicas hold the same once they applied the same entries.
        void judge_agreement() {
            std::string txt[2];
            for(int i = 0; i < 2; i++) {
                catch_up(rep[i], log.size());
                auto* sm = static_cast<rls::state_machine*>(
                    rep[i].rs->m_sm.get());
                std::map<std::string, std::string> m;
                for(auto& [k, v] : sm->get_shard()->get_state()) {
                    m["v" + S(k)] = S(v);
                }
                (void)sm->get_shard()->get_tickets(
                    [&](rls::replicated_shard_interface::
                            get_tickets_return_type r) {
                        auto& ts = std::get<
                            rls::replicated_shard_interface::tickets_type>(r);
                        for(auto& [t, x] : ts) {
                            auto& s = m["t" + std::to_string(t)];
                            s = std::to_string(int(x.m_state)) + "/"
                              + std::to_string(x.m_broker_id);
                        }
                    });
                for(auto& [k, v] : m) {
                    txt[i] += k + "=" + v + ";";
                }
            }
            if(txt[0] != txt[1]) {
                bad("replicas-differ",
                    "replicas that applied the same log differ: " + txt[0]
                        + " and " + txt[1]);
            }
        }

        // --- requests ---
        void lock(int t, int k, rls::lock_type ty) {
            auto& x = tix[t];
            x.wait[k] = ty;
            x.p = ph::live;
            bool first = x.first;
            x.first = false;
            cur = {op::lock, t};
            auto epoch = changes;
            auto attempt = x.attempt;
            auto n = std::make_shared<int>(0);
            auto sent = cl->try_lock(
                uint64_t(t), x.broker, B(KEY[k]), ty, first,
                [this, t, k, ty, n, epoch, attempt](
                    rls::interface::try_lock_return_type r) {
                    if(++*n > 1) {
                        bad("twice", "a lock request is answered twice");
                        return;
                    }
                    auto& y = tix[t];
                    if(y.attempt != attempt) {
                        return;
                    }
                    y.wait.erase(k);
                    if(epoch != changes) {
                        return;
                    }
                    if(std::holds_alternative<rls::value_type>(r)) {
                        y.held[k] = ty;
                        for(auto& [o, z] : d.tickets) {
                            if(o != t && !z.committed
                               && z.upd.count(k) != 0) {
                                bad("unprotected",
                                    mc::strf("ticket %d obtains %s, which "
                                             "prepared ticket %d updates",
                                             t, KEY[k], o));
                            }
                        }
                        auto v = S(std::get<rls::value_type>(r));
                        if(v != d.val[k]) {
                            bad("value",
                                mc::strf("ticket %d reads %s = '%s', expected "
                                         "'%s'",
                                         t, KEY[k], v.c_str(),
                                         d.val[k].c_str()));
                        }
                    } else {
                        y.wounded = true;
                    }
                });
            if(!sent) {
                bad("send", "no leader to send a lock request to");
            }
        }
        void answer(int t, op o, const std::optional<rls::shard_error>& r) {
            auto& x = tix[t];
            auto err = r.has_value();
            auto code = err ? int(r->m_error_code) : -1;
            x.answers += mc::strf("%s:%d ", opname(o), code);
            c.note("ticket %d: %s answered %d", t, opname(o), code);
            switch(o) {
                case op::prepare:
                    if(!err) {
                        if(d.tickets.count(t) == 0) {
                            bad("prepare-not-durable",
                                mc::strf("prepare of ticket %d succeeded but "
                                         "is not in the log",
                                         t));
                        }
                        x.p = ph::prepared;
                    } else {
                        x.p = ph::dead;
                    }
                    break;
                case op::commit:
                    if(!err) {
                        if(d.tickets.count(t) == 0
                           || !d.tickets[t].committed) {
                            bad("commit-not-durable",
                                mc::strf("commit of ticket %d succeeded but "
                                         "is not in the log",
                                         t));
                        }
                        x.p = ph::committed;
                        x.held.clear();
                    }
                    break;
                case op::rollback:
                    if(!err) {
                        x.p = ph::gone;
                        x.held.clear();
                    } else if(r->m_error_code == error_code::unknown_ticket) {
                        x.p = ph::gone;
                        x.held.clear();
                    }
                    if(x.p == ph::gone && d.tickets.count(t) != 0) {
                        bad("rollback-not-durable",
                            mc::strf("ticket %d was rolled back but is still "
                                     "in the log",
                                     t));
                    }
                    if(x.p == ph::gone && x.attempt < restarts) {
                        // the broker may run the ticket again
                        x.attempt++;
                        x.p = ph::none;
                        x.first = true;
                        x.wounded = false;
                        x.wait.clear();
                        x.upd.clear();
                    }
                    break;
                case op::finish:
                    if(!err
                       || r->m_error_code == error_code::unknown_ticket) {
                        x.p = ph::gone;
                        if(d.tickets.count(t) != 0) {
                            bad("finish-not-durable",
                                mc::strf("ticket %d was finished but is still "
                                         "in the log",
                                         t));
                        }
                    }
                    break;
                case op::lock:
                    break;
            }
        }
        void request(int t, op o) {
            auto& x = tix[t];
            cur = {o, t};
            x.outstanding++;
            auto n = std::make_shared<int>(0);
            auto epoch = changes;
            auto was = x.p;
            if(o == op::prepare) {
                x.p = ph::preparing;
                x.upd.clear();
                for(auto& [k, ty] : x.held) {
                    if(ty == W) {
                        x.upd[k] = mc::strf("%d.%d", t, x.attempt) + KEY[k];
                    }
                }
            } else if(o == op::commit && x.p == ph::prepared) {
                x.p = ph::committing;
            } else if(o == op::rollback) {
                x.p = ph::rolling;
            }
            bool plain = !refuse_next && !defer_next && pend.empty();
            auto answered = std::make_shared<bool>(false);
            auto ok_answer = std::make_shared<bool>(false);
            auto unk = std::make_shared<int>(-1);
            auto cb = [=, this](std::optional<rls::shard_error> r) {
                if(++*n > 1) {
                    bad("twice",
                        mc::strf("%s is answered twice", opname(o)));
                    return;
                }
                if(epoch != changes) {
                    return; // the connection is gone
                }
                *answered = true;
                *ok_answer = !r.has_value();
                *unk = r.has_value() ? int(r->m_error_code) : -1;
                tix[t].outstanding--;
                answer(t, o, r);
            };
            auto id = uint64_t(t);
            bool sent = false;
            switch(o) {
                case op::prepare: {
                    rls::state_update_type u;
                    for(auto& [k, v] : x.upd) {
                        u[B(KEY[k])] = B(v);
                    }
                    sent = cl->prepare(id, x.broker, u, cb);
                    break;
                }
                case op::commit:
                    sent = cl->commit(id, cb);
                    break;
                case op::rollback:
                    sent = cl->rollback(id, cb);
                    break;
                case op::finish:
                    sent = cl->finish(id, cb);
                    break;
                case op::lock:
                    break;
            }
            refuse_next = defer_next = false;
            if(stop) {
                return;
            }
            if(!sent) {
                bad("send", "no leader to send a request to");
                return;
            }
            if(plain) {
                if(!*answered) {
                    bad("unanswered",
                        mc::strf("%s of ticket %d is not answered",
                                 opname(o), t));
                    return;
                }
                // a ticket acknowledged as prepared must be completable
                if(o == op::commit && was == ph::prepared && !*ok_answer) {
                    bad("commit-refused",
                        mc::strf("prepared ticket %d is refused its commit "
                                 "(%d)",
                                 t, *unk));
                }
                if(o == op::commit && was == ph::committing && !*ok_answer
                   && !(d.tickets.count(t) != 0 && d.tickets[t].committed)) {
                    bad("commit-refused",
                        mc::strf("ticket %d is refused its repeated commit "
                                 "(%d)",
                                 t, *unk));
                }
                if(o == op::finish && was == ph::committed && !*ok_answer
                   && *unk != int(error_code::unknown_ticket)) {
                    bad("finish-refused",
                        mc::strf("committed ticket %d is refused its finish "
                                 "(%d)",
                                 t, *unk));
                }
                if(o == op::rollback && !*ok_answer
                   && *unk != int(error_code::unknown_ticket)) {
                    bad("rollback-refused",
                        mc::strf("ticket %d is refused its rollback (%d)", t,
                                 *unk));
                }
            }
        }

        std::string key() {
            std::string s = mc::strf("%d%zu|", leader, pend.size());
            for(auto& [t, x] : tix) {
                bool ok{};
                s += mc::strf("%d:%d%d%d%d%d[", t, int(x.p), x.first,
                              x.outstanding, x.wounded, x.attempt);
                for(auto& [k, ty] : x.held) {
                    s += mc::strf("h%d%d", k, int(ty));
                }
                for(auto& [k, ty] : x.wait) {
                    s += mc::strf("w%d%d", k, int(ty));
                }
                s += "]" + state_of(t, x.broker, ok);
            }
            for(auto& r : rep) {
                s += mc::strf("|%zu", r.applied);
            }
            s += "|";
            for(auto& e : log) {
                if(e.e.t >= 0) {
                    s += mc::strf("%d%d,", int(e.e.o), e.e.t);
                }
            }
            s += "/";
            for(auto& e : pend) {
                s += mc::strf("%d%d,", int(e.e.o), e.e.t);
            }
            return s;
        }
    };

    struct move {
        enum { lock, req, drain, chg } kind{};
        int t{};
        op o{};
        int k{};
        rls::lock_type ty{W};
        bool odd{}; // costs a deviation
        int mode{}; // 0 plain, 1 refused, 2 deferred
        size_t keep{};
        bool crash{}, same{};
    };

    void explore(mc::ctx& c, int nt, int depth, int maxchg, bool locks2,
                 int restarts) {
        world w(c);
        w.restarts = restarts;
        for(int t = 1; t <= nt; t++) {
            w.tix[t].broker = uint64_t(t % 2);
        }
        w.start();
        for(int n = 0; n < depth && !w.stop; n++) {
            std::vector<move> ms;
            auto add_req = [&](int t, op o, bool odd) {
                move m{move::req, t, o};
                m.odd = odd;
                ms.push_back(m);
                m.odd = true;
                if(w.pend.empty()) {
                    m.mode = 1;
                    ms.push_back(m);
                }
                if(w.pend.size() < 2) {
                    m.mode = 2;
                    ms.push_back(m);
                }
            };
            using ph = world::ph;
            for(auto& [t, x] : w.tix) {
                if(x.outstanding > 0) {
                    continue;
                }
                bool idle = x.wait.empty();
                switch(x.p) {
                    case ph::none:
                    case ph::live:
                        if(idle && !x.wounded) {
                            for(int k = 0; k < (locks2 ? 2 : 1); k++) {
                                auto it = x.held.find(k);
                                if(it == x.held.end()) {
                                    move m{move::lock, t};
                                    m.k = k;
                                    ms.push_back(m);
                                    if(k == 0 && locks2) {
                                        m.ty = R;
                                        ms.push_back(m);
                                    }
                                }
                            }
                            if(x.p == ph::live) {
                                add_req(t, op::prepare, false);
                            }
                        }
                        if(x.p == ph::live) {
                            add_req(t, op::rollback, !x.wounded);
                        }
                        break;
                    case ph::prepared:
                        add_req(t, op::commit, false);
                        add_req(t, op::rollback, true);
                        break;
                    case ph::committing:
                        add_req(t, op::commit, false);
                        // the broker goes on when told it committed already
                        if(w.d.tickets.count(t) != 0
                           && w.d.tickets[t].committed) {
                            add_req(t, op::finish, true);
                        }
                        break;
                    case ph::committed:
                        add_req(t, op::finish, false);
                        add_req(t, op::commit, true);
                        break;
                    case ph::dead:
                    case ph::rolling:
                        add_req(t, op::rollback, false);
                        break;
                    case ph::gone:
                    case ph::preparing:
                        break;
                }
            }
            if(!w.pend.empty()) {
                move m{move::drain};
                ms.push_back(m);
            }
            if(w.changes < maxchg) {
                for(size_t k = 0; k <= w.pend.size(); k++) {
                    for(int f = 0; f < 3; f++) {
                        move m{move::chg};
                        m.odd = true;
                        m.keep = k;
                        m.crash = f != 0;
                        m.same = f == 2;
                        ms.push_back(m);
                    }
                }
            }
            std::stable_partition(ms.begin(), ms.end(), [](const move& m) {
                return !m.odd;
            });
            uint32_t normal = 0;
            for(auto& m : ms) {
                normal += m.odd ? 0 : 1;
            }
            if(ms.empty()) {
                break;
            }
            uint32_t i{};
            if(normal == 0 || (normal < ms.size() && c.flip("odd", 1))) {
                i = normal + c.choose(uint32_t(ms.size()) - normal, "which");
            } else {
                i = c.choose(normal, "op");
            }
            auto m = ms[i];
            bool was_change = false;
            switch(m.kind) {
                case move::lock:
                    c.note("ticket %d locks %s (%s)", m.t, KEY[m.k],
                           m.ty == W ? "write" : "read");
                    w.lock(m.t, m.k, m.ty);
                    break;
                case move::req:
                    c.note("ticket %d: %s%s", m.t, opname(m.o),
                           m.mode == 1   ? ", refused"
                           : m.mode == 2 ? ", replication pending"
                                         : "");
                    w.refuse_next = m.mode == 1;
                    w.defer_next = m.mode == 2;
                    w.request(m.t, m.o);
                    break;
                case move::drain: {
                    c.note("a pending entry is committed");
                    auto e = w.pend.front();
                    w.pend.pop_front();
                    w.commit_entry(std::move(e), true);
                    break;
                }
                case move::chg:
                    c.note("leader change: %zu of %zu pending entries kept%s%s",
                           m.keep, w.pend.size(),
                           m.crash ? ", old leader crashes" : "",
                           m.same ? " and leads again" : "");
                    w.change(m.keep, m.crash, m.same);
                    was_change = true;
                    break;
            }
            (void)was_change;
            if(w.stop) {
                return;
            }
            if(!c.prefix()) {
                if(!c.visit(w.key(), (uint32_t(depth - n) << 2)
                                         | (c.bound() - c.used()))) {
                    return;
                }
                w.judge_agreement();
                w.judge_scratch();
            }
        }
        std::string o;
        for(auto& [t, x] : w.tix) {
            o += mc::strf("%d%d", t, int(x.p)) + x.answers;
        }
        c.outcome(o);
    }
}

int main(int argc, char** argv) {
    bool th = mc::thorough();
    std::vector<mc::scenario> s;
    auto add = [&](const char* n, int nt, int depth, int chg, bool l2,
                   uint32_t bound, int restarts = 0) {
        s.push_back({n,
                     [=](mc::ctx& c) {
                         explore(c, nt, depth, chg, l2, restarts);
                     },
                     bound, 8, 6,
                     mc::strf("%d tickets, %d steps, %d leader changes", nt,
                              depth, chg)});
    };
    add("one ticket", 1, th ? 10 : 8, 3, true, th ? 4 : 3);
    add("one ticket, begun again", 1, th ? 12 : 10, 2, false, th ? 4 : 3, 1);
    add("two tickets, one key, begun again", 2, th ? 11 : 9, 1, false, 2, 1);
    add("two tickets, one key", 2, th ? 11 : 9, 2, false, th ? 3 : 2);
    add("two tickets", 2, th ? 10 : 8, 2, true, 2);
    if(th) {
        add("three tickets", 3, 9, 2, false, 2);
    }
    return mc::main(
        argc, argv, "C15", "model_checking",
        "every sequence of requests with every outcome of their replication "
        "and every leader change; after each the shard is rebuilt from the "
        "log and used up",
        {"the consensus library keeps committed entries and may keep or drop "
         "uncommitted ones on a leader change",
         "brokers follow the protocol: commit only after a successful "
         "prepare, finish only after commit, no rollback after asking for "
         "commit"},
        s);
}
