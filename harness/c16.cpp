// C16: ticket numbers. Real clients, controllers, RPC servers and replicated
// state machines; the consensus library and the transport are stand-ins.
#include <algorithm>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <variant>
#include <vector>

#include "harness/common.hpp"
#include "parsec/ticket_machine/client.hpp"
#include "parsec/ticket_machine/controller.hpp"
#include "util/rpc/fake.hpp"
#include "util/rpc/format.hpp"
#include "util/serialization/format.hpp"
#ifdef CONCURRENT
#include "mc/sched.hpp"
#endif

namespace {
    using namespace cbdc;
    namespace tm = cbdc::parsec::ticket_machine;
    using range = tm::interface::ticket_number_range_type;
    network::endpoint_t ep(int n) {
        return {"machine", uint16_t(100 + n)};
    }
    nuraft::ptr<nuraft::raft_server> g_launched;
    using result_ptr
        = nuraft::ptr<nuraft::cmd_result<nuraft::ptr<nuraft::buffer>>>;
}
#ifndef CONCURRENT
namespace {
    struct entry {
        nuraft::ptr<nuraft::buffer> data;
        result_ptr res;
    };
    struct replica {
        std::unique_ptr<tm::controller> ctl;
        nuraft::ptr<nuraft::raft_server> rs;
        size_t applied{};
        int id{};
    };
    struct world {
        mc::ctx& c;
        std::vector<entry> log;
        std::deque<entry> pend;
        replica rep[2];
        int leader{0}, changes{0};
        bool refuse_next{}, defer_next{}, fail_send{}, stop{};
        std::vector<std::unique_ptr<tm::rpc::client>> cl;
        struct msg {
            std::function<void()> f;
            int from; // serving replica
        };
        std::map<const void*, std::deque<msg>> inbox;
        std::vector<const void*> order; // transports, in order of first use
        // numbers
        struct caller {
            int client{};
            int answers{};
        };
        std::vector<caller> callers;
        std::set<uint64_t> used;
        struct stat {
            int waiting{}, numbers{}, errors{};
            uint64_t last{};
            bool any{};
        };
        std::vector<stat> st;

        explicit world(mc::ctx& x, int nc) : c(x), st(size_t(nc)) {
            faketcp::servers.clear();
            nuraft::shim::on_launch
                = [](const nuraft::ptr<nuraft::raft_server>& s) {
                      s->m_leader = false;
                      g_launched = s;
                  };
            faketcp::deliver = [this](const void* who,
                                      std::function<void()> f) {
                if(std::find(order.begin(), order.end(), who)
                   == order.end()) {
                    order.push_back(who);
                }
                inbox[who].push_back({std::move(f), leader});
            };
            faketcp::refuse_send = [this](const network::endpoint_t&) {
                return fail_send;
            };
            launch(0);
            launch(1);
            lead(0);
            for(int i = 0; i < nc; i++) {
                cl.push_back(std::make_unique<tm::rpc::client>(
                    std::vector<network::endpoint_t>{ep(0), ep(1)}));
                (void)cl.back()->init();
            }
        }
        ~world() {
            stop = true; // shutting down: nobody is judged any more
            cl.clear();
            for(auto& r : rep) {
                drop(r);
            }
            faketcp::servers.clear();
            faketcp::deliver = nullptr;
            faketcp::refuse_send = nullptr;
        }
        void bad(const std::string& k, const std::string& m) {
            if(!stop) {
                c.fail(k, "%s", m.c_str());
                stop = true;
            }
        }
        void drop(replica& r) {
            r.ctl.reset();
            if(r.rs) {
                r.rs->m_cb = nullptr;
                r.rs->m_append = nullptr;
            }
            r.rs.reset();
        }
        void launch(int id) {
            auto& r = rep[id];
            r.id = id;
            r.ctl = std::make_unique<tm::controller>(
                0,
                ep(id),
                std::vector<network::endpoint_t>{ep(50 + id)},
                h::logger());
            if(!r.ctl->init()) {
                bad("init", "controller does not start");
                return;
            }
            r.rs = g_launched;
            r.applied = 0;
            r.rs->m_append = [this](nuraft::raft_server& s,
                                    const nuraft::ptr<nuraft::buffer>& b) {
                return append(s, b);
            };
        }
        result_ptr append(nuraft::raft_server& s,
                          const nuraft::ptr<nuraft::buffer>& b) {
            auto r = nuraft::cs_new<
                nuraft::cmd_result<nuraft::ptr<nuraft::buffer>>>();
            if(refuse_next || !s.m_leader) {
                refuse_next = false;
                r->set_result(nullptr, nullptr, nuraft::NOT_LEADER);
                return r;
            }
            r->accept();
            entry e{nuraft::buffer::clone(*b), r};
            if(defer_next || !pend.empty()) {
                defer_next = false;
                pend.push_back(e);
            } else {
                commit(e);
            }
            return r;
        }
        void catch_up(replica& r, size_t upto) {
            while(r.applied < upto) {
                auto d = nuraft::buffer::clone(*log[r.applied].data);
                r.applied++;
                (void)r.rs->m_sm->commit(r.applied, *d);
            }
        }
        void commit(entry e) {
            log.push_back(e);
            auto& r = rep[leader];
            catch_up(r, log.size() - 1);
            auto d = nuraft::buffer::clone(*e.data);
            r.applied = log.size();
            auto res = r.rs->m_sm->commit(r.applied, *d);
            e.res->set_result(res, nullptr, nuraft::OK);
        }
        void lead(int r) {
            leader = r;
            catch_up(rep[r], log.size());
            rep[r].rs->m_leader = true;
            rep[r].rs->m_cb(nuraft::cb_func::BecomeLeader, nullptr);
            if(faketcp::servers.size() != 1
               || faketcp::servers.count(ep(r)) == 0) {
                bad("server", "not exactly the leader serves requests");
            }
        }
        // crash: only without requests in flight, except when lossy
        void change(size_t keep, bool crash, bool same) {
            changes++;
            auto old = leader;
            auto& o = rep[old];
            auto p = std::move(pend);
            pend.clear();
            for(size_t i = 0; i < keep; i++) {
                log.push_back(p[i]);
            }
            o.rs->m_leader = false;
            if(crash) {
                drop(o);
                for(auto& [w, q] : inbox) {
                    q.erase(std::remove_if(q.begin(),
                                           q.end(),
                                           [&](const msg& m) {
                                               return m.from == old;
                                           }),
                            q.end());
                }
                launch(old);
            } else {
                o.rs->m_cb(nuraft::cb_func::BecomeFollower, nullptr);
                for(auto& e : p) {
                    nuraft::ptr<std::exception> ex
                        = std::make_shared<std::exception>();
                    e.res->set_result(nullptr, ex, nuraft::CANCELLED);
                }
                catch_up(o, log.size());
            }
            if(!stop) {
                lead(same ? old : 1 - old);
            }
        }
        void call(int i, int n) {
            for(int k = 0; k < n && !stop; k++) {
                auto id = callers.size();
                callers.push_back({i, 0});
                auto& s = st[size_t(i)];
                s.waiting++;
                auto ok = cl[size_t(i)]->get_ticket_number(
                    [this, id, i](tm::interface::get_ticket_number_return_type
                                      r) {
                        auto& y = st[size_t(i)];
                        if(stop) {
                            return;
                        }
                        if(++callers[id].answers > 1) {
                            bad("twice", "a caller is answered twice");
                            return;
                        }
                        y.waiting--;
                        if(auto* x = std::get_if<range>(&r)) {
                            if(!used.insert(x->first).second) {
                                bad("duplicate",
                                    mc::strf("ticket number %llu is handed "
                                             "out twice",
                                             (unsigned long long)x->first));
                            }
                            if(y.any && x->first <= y.last) {
                                bad("order",
                                    mc::strf("a client gets number %llu after "
                                             "%llu",
                                             (unsigned long long)x->first,
                                             (unsigned long long)y.last));
                            }
                            y.any = true;
                            y.last = x->first;
                            y.numbers++;
                        } else {
                            y.errors++;
                        }
                    });
                if(!ok) {
                    s.waiting--;
                    s.errors++;
                    if(callers[id].answers != 0) {
                        bad("answered-and-refused",
                            "a request is both answered and refused");
                    }
                    callers[id].answers = 1;
                }
            }
        }
        void judge_end() {
            // everything on its way arrives
            for(int n = 0; n < 1000 && !stop; n++) {
                if(!pend.empty()) {
                    auto e = pend.front();
                    pend.pop_front();
                    commit(e);
                    continue;
                }
                bool any = false;
                for(auto& [w, q] : inbox) {
                    if(!q.empty()) {
                        auto m = q.front();
                        q.pop_front();
                        m.f();
                        any = true;
                        break;
                    }
                }
                if(!any) {
                    break;
                }
            }
            for(size_t i = 0; i < st.size() && !stop; i++) {
                if(st[i].waiting != 0) {
                    bad("unanswered",
                        mc::strf("client %zu: %d callers are never answered",
                                 i, st[i].waiting));
                    return;
                }
                // and the client still works
                auto n = st[i].numbers;
                call(int(i), 1);
                for(int k = 0; k < 4; k++) {
                    for(auto& [w, q] : inbox) {
                        while(!q.empty()) {
                            auto m = q.front();
                            q.pop_front();
                            m.f();
                        }
                    }
                }
                if(!stop && st[i].numbers != n + 1) {
                    bad("stuck",
                        mc::strf("client %zu gets no more numbers", i));
                }
            }
        }
        std::string key() {
            std::string s = mc::strf("%d%zu/%zu|", leader, log.size(),
                                     pend.size());
            for(auto& x : st) {
                s += mc::strf("%d.%d.%d.%llu,", x.waiting, x.numbers,
                              x.errors, (unsigned long long)x.last);
            }
            for(auto* w : order) {
                s += mc::strf("[%zu", inbox[w].size());
                for(auto& m : inbox[w]) {
                    s += std::to_string(m.from);
                }
            }
            return s + mc::strf("|%zu,%zu", rep[0].applied, rep[1].applied);
        }
    };
    void explore(mc::ctx& c, int nc, int depth, int maxchg) {
        world w(c, nc);
        static const int bursts[] = {1, 600, 1100};
        for(int n = 0; n < depth && !w.stop; n++) {
            struct mv {
                int kind, a, b;
                bool odd;
            };
            std::vector<mv> ms;
            for(size_t k = 0; k < w.order.size(); k++) {
                if(!w.inbox[w.order[k]].empty()) {
                    ms.push_back({1, int(k), 0, false});
                    ms.push_back({1, int(k), 1, true});
                    ms.push_back({1, int(k), 2, true});
                    ms.push_back({1, int(k), 3, true});
                }
            }
            for(int i = 0; i < nc; i++) {
                for(int b = 0; b < 3; b++) {
                    ms.push_back({0, i, b, false});
                    // its request cannot be sent, is refused, is delayed
                    ms.push_back({2, i, b, true});
                    ms.push_back({3, i, b, true});
                    ms.push_back({4, i, b, true});
                }
            }
            if(!w.pend.empty()) {
                ms.push_back({5, 0, 0, false});
            }
            if(w.changes < maxchg) {
                bool busy = !w.pend.empty();
                for(auto& [x, q] : w.inbox) {
                    busy |= !q.empty();
                }
                for(size_t k = 0; k <= w.pend.size(); k++) {
                    ms.push_back({6, int(k), 0, true});
                    if(!busy) {
                        ms.push_back({6, int(k), 1, true});
                        ms.push_back({6, int(k), 2, true});
                    }
                }
            }
            std::stable_partition(ms.begin(), ms.end(), [](const mv& m) {
                return !m.odd;
            });
            uint32_t normal = 0;
            for(auto& m : ms) {
                normal += m.odd ? 0 : 1;
            }
            uint32_t i{};
            if(normal < ms.size() && c.flip("odd", 1)) {
                i = normal + c.choose(uint32_t(ms.size()) - normal, "which");
            } else {
                i = c.choose(normal, "op");
            }
            auto m = ms[i];
            w.fail_send = w.refuse_next = w.defer_next = false;
            switch(m.kind) {
                case 0:
                case 2:
                case 3:
                case 4:
                    c.note("client %d: %d numbers%s", m.a, bursts[m.b],
                           m.kind == 2   ? ", request cannot be sent"
                           : m.kind == 3 ? ", request refused"
                           : m.kind == 4 ? ", replication pending"
                                         : "");
                    w.fail_send = m.kind == 2;
                    w.refuse_next = m.kind == 3;
                    w.defer_next = m.kind == 4;
                    w.call(m.a, bursts[m.b]);
                    break;
                case 1: {
                    c.note("response %d arrives%s", m.a,
                           m.b == 1   ? ", next request cannot be sent"
                           : m.b == 2 ? ", next request refused"
                           : m.b == 3 ? ", next request pending"
                                      : "");
                    w.fail_send = m.b == 1;
                    w.refuse_next = m.b == 2;
                    w.defer_next = m.b == 3;
                    auto& q = w.inbox[w.order[size_t(m.a)]];
                    auto x = q.front();
                    q.pop_front();
                    x.f();
                    break;
                }
                case 5: {
                    c.note("a pending request is committed");
                    auto e = w.pend.front();
                    w.pend.pop_front();
                    w.commit(e);
                    break;
                }
                case 6:
                    c.note("leader change, %d pending kept, kind %d", m.a,
                           m.b);
                    w.change(size_t(m.a), m.b != 0, m.b == 2);
                    break;
            }
            w.fail_send = w.refuse_next = w.defer_next = false;
            c.agreed();
            if(w.stop) {
                return;
            }
            if(!c.prefix()
               && !c.visit(w.key(), (uint32_t(depth - n) << 2)
                                        | (c.bound() - c.used()))) {
                return;
            }
        }
        w.judge_end();
        std::string o;
        for(auto& s : w.st) {
            o += mc::strf("%d/%d ", s.numbers, s.errors);
        }
        c.outcome(o);
    }
    // The leader's process dies with requests in flight: nobody will answer
    // them. Callers must get an error, or the next leader's numbers.
    void leader_dies(mc::ctx& c) {
        world w(c, 1);
        auto before = c.choose(2, "numbers taken before");
        if(before != 0) {
            w.call(0, 1);
            while(!w.inbox.empty() && !w.inbox.begin()->second.empty()) {
                auto m = w.inbox.begin()->second.front();
                w.inbox.begin()->second.pop_front();
                m.f();
            }
        }
        w.defer_next = c.flip("request not yet committed");
        w.call(0, before != 0 ? 1000 : 1);
        w.defer_next = false;
        auto kept = w.pend.empty() ? 0 : c.choose(2, "entry kept");
        w.change(kept, true, c.flip("same replica leads again"));
        if(w.stop) {
            return;
        }
        w.call(0, 2000);
        w.judge_end();
        if(w.stop && (c.m_fail_key == "unanswered")) {
            c.m_fail_key = "lost-response";
        }
        c.outcome(mc::strf("%d/%d", w.st[0].numbers, w.st[0].errors));
    }
}
int main(int argc, char** argv) {
    bool th = mc::thorough();
    std::vector<mc::scenario> s;
    s.push_back({"one client",
                 [=](mc::ctx& c) { explore(c, 1, th ? 7 : 6, 3); },
                 th ? 4u : 3u, 8, 6, "1 client, leader changes"});
    s.push_back({"two clients",
                 [=](mc::ctx& c) { explore(c, 2, th ? 6 : 5, 2); },
                 th ? 3u : 1u, 8, 6, "2 clients, leader changes"});
    s.push_back({"leader dies with a request in flight", leader_dies, 0, 1, 2,
                 "every point of one request"});
    return mc::main(argc, argv, "C16", "model_checking",
                    "every sequence of requests, failures, response "
                    "deliveries and leader changes",
                    {"the consensus library keeps committed entries"}, s);
}
#else
namespace {
    struct net {
        std::deque<std::function<void()>> q;
        bool done{};
    };
    // Callers in several threads while the network thread delivers.
    void callers(mc::ctx& c, int nt, int each, bool fail) {
        std::string out;
        sched::options o;
        sched::run(c, o, [&]() {
            net n;
            faketcp::servers.clear();
            faketcp::refuse_send = nullptr;
            std::atomic<uint64_t>* next = new std::atomic<uint64_t>{0};
            auto reply = [&](cbdc::buffer req, bool err) {
                auto r = from_buffer<cbdc::rpc::request<tm::rpc::request>>(
                    req);
                cbdc::rpc::response<tm::rpc::response> a;
                a.m_header = r.value().m_header;
                if(!err) {
                    auto x = next->fetch_add(2);
                    a.m_payload = range{x, x + 2};
                }
                return make_buffer(a);
            };
            uint32_t served = 0;
            faketcp::servers[ep(0)]
                = [&](cbdc::buffer req, faketcp::reply_fn f)
                -> std::optional<cbdc::buffer> {
                sched::atomic_section g;
                auto err = fail && served++ == 0;
                f(reply(std::move(req), err));
                return std::nullopt;
            };
            faketcp::deliver = [&](const void*, std::function<void()> f) {
                sched::atomic_section g;
                n.q.push_back(std::move(f));
                sched::hb_release(&n);
            };
            auto cl = std::make_unique<tm::rpc::client>(
                std::vector<network::endpoint_t>{ep(0)});
            (void)cl->init();
            std::thread t([&]() {
                for(;;) {
                    sched::until(
                        [&]() {
                            sched::atomic_section g;
                            return n.done || !n.q.empty();
                        },
                        "message");
                    std::function<void()> f;
                    {
                        sched::atomic_section g;
                        sched::hb_acquire(&n);
                        if(n.q.empty()) {
                            return;
                        }
                        f = std::move(n.q.front());
                        n.q.pop_front();
                    }
                    f();
                }
            });
            std::set<uint64_t> used;
            int answered = 0, errors = 0;
            auto body = [&](int) {
                for(int k = 0; k < each; k++) {
                    auto* calls = new int(0);
                    bool ok = cl->get_ticket_number(
                        [&, calls](
                            tm::interface::get_ticket_number_return_type r) {
                            sched::atomic_section g;
                            if(++*calls > 1) {
                                sched::fail("twice",
                                            "a caller is answered twice");
                            }
                            answered++;
                            if(auto* x = std::get_if<range>(&r)) {
                                if(!used.insert(x->first).second) {
                                    sched::fail("duplicate",
                                                "a ticket number is handed "
                                                "out twice");
                                }
                            } else {
                                errors++;
                            }
                        });
                    if(!ok) {
                        sched::fail("refused", "request refused");
                    }
                }
            };
            std::vector<std::thread> ts;
            for(int i = 1; i < nt; i++) {
                ts.emplace_back([&, i]() { body(i); });
            }
            body(0);
            for(auto& x : ts) {
                x.join();
            }
            sched::until(
                [&]() {
                    sched::atomic_section g;
                    return answered == nt * each;
                },
                "answers to every caller");
            {
                sched::atomic_section g;
                n.done = true;
            }
            t.join();
            cl.reset();
            faketcp::servers.clear();
            faketcp::deliver = nullptr;
            out = mc::strf("%zu numbers, %d errors", used.size(), errors);
        });
        if(!c.failed()) {
            c.agreed();
            c.outcome(out);
        }
    }
}
int main(int argc, char** argv) {
    bool th = mc::thorough();
    std::vector<mc::scenario> s;
    s.push_back({"2 threads", [](mc::ctx& c) { callers(c, 2, 2, false); },
                 th ? 4u : 3u, 8, 4, "2 threads, 2 numbers each"});
    s.push_back({"3 threads", [](mc::ctx& c) { callers(c, 3, 1, false); },
                 th ? 3u : 2u, 8, 4, "3 threads, 1 number each"});
    s.push_back({"2 threads, first request fails",
                 [](mc::ctx& c) { callers(c, 2, 2, true); }, th ? 4u : 3u, 8,
                 4, "2 threads, 2 numbers each"});
    return mc::main(argc, argv, "C16", "model_checking",
                    "every schedule within the preemption bound of callers "
                    "and the network thread",
                    {}, s);
}
#endif
