// C13/C14: real brokers over real runtime locking shards. Requests and
// responses travel over channels whose delivery order the explorer decides;
// sends may fail (C13) and brokers may crash at any send or delivery and are
// then replaced by a recovering one (C14).
#include "common.hpp"

#include <algorithm>
#include <deque>
#include <mutex>
#include <variant>
#include "parsec/broker/impl.hpp"
#include "parsec/directory/interface.hpp"
#include "parsec/runtime_locking_shard/impl.hpp"
#include "parsec/ticket_machine/interface.hpp"
#ifndef PROP
#define PROP "C13"
#endif
using namespace h;
namespace rls = cbdc::parsec::runtime_locking_shard;
namespace br = cbdc::parsec::broker;
namespace tm_ = cbdc::parsec::ticket_machine;
namespace dir = cbdc::parsec::directory;
using rls::lock_type;
namespace {
    constexpr auto R = lock_type::read;
    constexpr auto W = lock_type::write;
    cbdc::buffer B(const std::string& s) {
        cbdc::buffer b;
        b.append(s.data(), s.size());
        return b;
    }
    std::string S(const cbdc::buffer& b) {
        return {static_cast<const char*>(b.data()), b.size()};
    }
    int code(const std::variant<br::interface::error_code, rls::error_code>& v) {
        return v.index() == 0 ? int(std::get<0>(v))
                              : 100 + int(std::get<1>(v));
    }
    // Key "kN" lives on shard N % shards.
    std::string K(int k) {
        return mc::strf("k%d", k);
    }
    struct stub_dir : dir::interface {
        size_t n;
        explicit stub_dir(size_t n) : n(n) {}
        auto key_location(rls::key_type key,
                          key_location_callback_type cb) -> bool override {
            cb(size_t(S(key)[1] - '0') % n);
            return true;
        }
    };
    struct stub_tm : tm_::interface {
        uint64_t next{1};
        auto get_ticket_number(get_ticket_number_callback_type cb)
            -> bool override {
            auto n = next++;
            cb(ticket_number_range_type{n, n});
            return true;
        }
    };
    struct step {
        int key;
        lock_type ty;
    };
    struct script {
        size_t broker;
        std::vector<step> locks;
        bool abandon{false}; // gives up (rolls back) instead of committing
    };
    struct config_t {
        size_t shards{2};
        size_t brokers{1};
        std::vector<script> scripts;
        bool fail_sends{false};
        uint32_t crashes{0};
        bool sync_shards{false};
        // the client retries a wounded ticket (otherwise it gives up)
        bool retry{true};
    };

    struct world {
        mc::ctx& c;
        const config_t& cfg;
        bool stop{false};
        std::vector<std::shared_ptr<rls::impl>> shards;
        // what is known about each shard from its answers
        struct known {
            std::map<int, std::map<std::string, int>> held, waiting;
            std::string committed; // in order
        };
        std::vector<known> kn;
        std::string log;

        // a message between broker instance and shard
        struct msg {
            int ticket;
            std::string name;
            std::function<void()> fn;
        };
        struct instance {
            size_t id;   // broker id
            size_t inst; // number of the instance
            bool dead{false};
            bool recovering{false};
            std::shared_ptr<br::impl> b;
            std::vector<std::deque<msg>> req; // per shard
            std::map<std::pair<size_t, int>, std::deque<msg>> resp;
            std::string hist; // responses seen while recovering
            int recovered{0};
            bool recover_ok{false};
        };
        std::vector<std::shared_ptr<instance>> inst;
        std::shared_ptr<stub_tm> tm;

        struct adapter : rls::interface {
            world& w;
            std::shared_ptr<instance> in;
            size_t s;
            adapter(world& w, std::shared_ptr<instance> in, size_t s)
                : w(w),
                  in(std::move(in)),
                  s(s) {}
            // sends fn; false when the send is reported as failed
            auto send(int t, const std::string& name, std::function<void()> fn)
                -> bool {
                if(in->dead || w.stop) {
                    return true;
                }
                if(w.crashes_left() && w.c.flip("crash-at-send", 1)) {
                    w.log += mc::strf(" [b%zu CRASH before %s.%d>s%zu]",
                                      in->id, name.c_str(), t, s);
                    in->dead = true;
                    w.crashes++;
                    return true;
                }
                if(w.cfg.fail_sends && w.c.flip("send-fails", 1)) {
                    w.log
                        += mc::strf(" [send %s.%d>s%zu FAILS]", name.c_str(),
                                    t, s);
                    w.th[t] += "F" + name + mc::strf("%zu", s);
                    return false;
                }
                if(w.cfg.sync_shards) {
                    fn();
                    return true;
                }
                in->req[s].push_back({t, name, std::move(fn)});
                return true;
            }
            template<typename R2>
            auto reply(int t, const std::string& name,
                       std::function<void(R2)> cb,
                       std::function<void(const R2&)> see = nullptr)
                -> std::function<void(R2)> {
                auto i = in;
                auto sh = s;
                auto* ww = &w;
                return [i, sh, ww, t, name, cb, see](R2 r) {
                    if(see) {
                        see(r);
                    }
                    if(ww->cfg.sync_shards) {
                        cb(r);
                        return;
                    }
                    i->resp[{sh, t}].push_back({t, name, [cb, r]() {
                                                    cb(r);
                                                }});
                };
            }
            auto try_lock(rls::ticket_number_type t, rls::broker_id_type id,
                          rls::key_type key, lock_type ty, bool first,
                          try_lock_callback_type cb) -> bool override {
                auto k = S(key);
                return send(
                    int(t), "lock" + k + (ty == R ? "r" : "w"), [=, this]() {
                        auto* kp = &w.kn[s];
                        kp->waiting[int(t)][k] = int(ty) + 1;
                        w.shards[s]->try_lock(
                            t, id, B(k), ty, first,
                            reply<try_lock_return_type>(
                                int(t), "lock", cb,
                                [kp, t, k, ty](
                                    const try_lock_return_type& r) {
                                    kp->waiting[int(t)].erase(k);
                                    if(std::holds_alternative<
                                           rls::value_type>(r)) {
                                        kp->held[int(t)][k] = int(ty) + 1;
                                    }
                                }));
                    });
            }
            auto prepare(rls::ticket_number_type t, rls::broker_id_type id,
                         rls::state_update_type u, prepare_callback_type cb)
                -> bool override {
                return send(int(t), "prep", [=, this]() {
                    w.shards[s]->prepare(
                        t, id, u,
                        reply<prepare_return_type>(int(t), "prep", cb));
                });
            }
            auto commit(rls::ticket_number_type t, commit_callback_type cb)
                -> bool override {
                return send(int(t), "comm", [=, this]() {
                    w.shards[s]->commit(
                        t, reply<commit_return_type>(
                               int(t), "comm", cb,
                               [kp = &w.kn[s],
                                t](const commit_return_type& r) {
                                   if(!r.has_value()) {
                                       kp->committed
                                           += mc::strf("%d ", int(t));
                                   }
                               }));
                });
            }
            auto rollback(rls::ticket_number_type t, rollback_callback_type cb)
                -> bool override {
                return send(int(t), "roll", [=, this]() {
                    w.shards[s]->rollback(
                        t, reply<rollback_return_type>(int(t), "roll", cb));
                });
            }
            auto finish(rls::ticket_number_type t, finish_callback_type cb)
                -> bool override {
                return send(int(t), "fin", [=, this]() {
                    w.shards[s]->finish(
                        t, reply<finish_return_type>(int(t), "fin", cb));
                });
            }
            auto get_tickets(rls::broker_id_type id,
                             get_tickets_callback_type cb) -> bool override {
                return send(0, "get", [=, this]() {
                    w.shards[s]->get_tickets(
                        id,
                        reply<get_tickets_return_type>(0, "get", cb));
                });
            }
        };

        // ---- clients ----
        enum class ph {
            locking,
            committing,
            rolling,
            finishing,
            done
        };
        struct client {
            const script* s;
            int t;
            size_t in; // broker instance index
            ph p{ph::locking};
            size_t at{0};
            int attempt{0};
            std::map<int, std::string> read; // first value read per key
            std::map<int, std::string> upd;
            bool told_committed{false};
            bool refused{false};  // last attempt did not commit
            bool gave_up{false};
            bool lost{false};     // its broker crashed
            int failures{0};
            bool maybe_committing{false}; // commit was asked for
            bool roll_again{false};
        };
        std::vector<client> cl;
        std::vector<std::string> th{100, ""}; // per-ticket history
        uint32_t crashes{0};

        world(mc::ctx& c, const config_t& cfg) : c(c), cfg(cfg) {
            for(size_t s = 0; s < cfg.shards; s++) {
                shards.push_back(std::make_shared<rls::impl>(logger()));
                kn.emplace_back();
            }
            tm = std::make_shared<stub_tm>();
            for(size_t b = 0; b < cfg.brokers; b++) {
                new_instance(b);
            }
        }
        ~world() {
            for(auto& i : inst) {
                for(auto& q : i->req) {
                    q.clear();
                }
                i->resp.clear();
                i->b.reset();
            }
        }
        bool crashes_left() const {
            return crashes < cfg.crashes;
        }
        size_t new_instance(size_t id) {
            auto i = std::make_shared<instance>();
            i->id = id;
            i->inst = inst.size();
            i->req.resize(cfg.shards);
            std::vector<std::shared_ptr<rls::interface>> v;
            for(size_t s = 0; s < cfg.shards; s++) {
                v.push_back(std::make_shared<adapter>(*this, i, s));
            }
            i->b = std::make_shared<br::impl>(
                id, v, tm, std::make_shared<stub_dir>(cfg.shards), logger());
            inst.push_back(i);
            return inst.size() - 1;
        }
        void bad(const std::string& key, const std::string& m) {
            if(!stop) {
                stop = true;
                c.fail(key, "%s :: %s", log.c_str(), m.c_str());
            }
        }
        void start() {
            for(auto& s : cfg.scripts) {
                client k;
                k.s = &s;
                k.in = s.broker;
                int n = 0;
                (void)inst[k.in]->b->begin(
                    [&](br::interface::ticketnum_or_errcode_type r) {
                        n++;
                        if(!std::holds_alternative<
                               cbdc::parsec::ticket_machine::
                                   ticket_number_type>(r)) {
                            bad("begin", "no ticket number");
                            return;
                        }
                        k.t = int(std::get<0>(r));
                    });
                if(n != 1) {
                    bad("begin-answer", "begin answered not exactly once");
                }
                cl.push_back(k);
            }
            for(size_t i = 0; i < cl.size() && !stop; i++) {
                go(i);
            }
        }
        // issues the client's next request
        void go(size_t i) {
            auto& k = cl[i];
            if(k.lost || stop || inst[k.in]->dead) {
                return;
            }
            auto& b = *inst[k.in]->b;
            switch(k.p) {
                case ph::locking: {
                    if(k.at == k.s->locks.size()) {
                        if(k.s->abandon) {
                            k.gave_up = true;
                            k.p = ph::rolling;
                            go(i);
                            return;
                        }
                        k.p = ph::committing;
                        go(i);
                        return;
                    }
                    auto st = k.s->locks[k.at];
                    (void)b.try_lock(
                        rls::ticket_number_type(k.t), B(K(st.key)), st.ty,
                        [this, i,
                         st](br::interface::try_lock_return_type r) {
                            if(late(i, ph::locking, "try_lock")) {
                                return;
                            }
                            auto& k2 = cl[i];
                            if(std::holds_alternative<rls::value_type>(r)) {
                                auto v = S(std::get<rls::value_type>(r));
                                auto [it, fresh] = k2.read.emplace(st.key, v);
                                if(!fresh && it->second != v) {
                                    bad("unrepeatable-read",
                                        mc::strf("ticket %d read %s as '%s' "
                                                 "and then as '%s' without "
                                                 "releasing it",
                                                 k2.t, K(st.key).c_str(),
                                                 it->second.c_str(),
                                                 v.c_str()));
                                    return;
                                }
                                k2.at++;
                            } else {
                                if(std::holds_alternative<
                                       br::interface::error_code>(r)
                                   && !cfg.fail_sends) {
                                    bad("lock-error",
                                        mc::strf("try_lock of ticket %d "
                                                 "refused with broker error "
                                                 "%d",
                                                 k2.t,
                                                 int(std::get<br::interface::
                                                                  error_code>(
                                                     r))));
                                    return;
                                }
                                if(auto* e
                                   = std::get_if<rls::shard_error>(&r);
                                   e != nullptr
                                   && e->m_error_code
                                          != rls::error_code::wounded
                                   && !cfg.fail_sends) {
                                    bad("lock-shard-error",
                                        mc::strf("try_lock of ticket %d: "
                                                 "shard error %d",
                                                 k2.t, int(e->m_error_code)));
                                    return;
                                }
                                refuse(k2);
                            }
                            go(i);
                        });
                    break;
                }
                case ph::committing: {
                    auto u = rls::state_update_type();
                    if(k.upd.empty()) {
                        for(auto& st : k.s->locks) {
                            if(st.ty == W) {
                                k.upd[st.key]
                                    = mc::strf("%d.%d", k.t, st.key);
                            }
                        }
                    }
                    for(auto& [key, v] : k.upd) {
                        u.emplace(B(K(key)), B(v));
                    }
                    k.maybe_committing = true;
                    (void)b.commit(
                        rls::ticket_number_type(k.t), std::move(u),
                        [this, i](br::interface::commit_return_type r) {
                            if(late(i, ph::committing, "commit")) {
                                return;
                            }
                            auto& k2 = cl[i];
                            if(!r.has_value()) {
                                k2.told_committed = true;
                                k2.p = ph::finishing;
                                all_applied(i);
                            } else if(auto* e = std::get_if<rls::shard_error>(
                                          &r.value());
                                      e != nullptr
                                      && e->m_error_code
                                             == rls::error_code::wounded) {
                                refuse(k2);
                            } else if(cfg.fail_sends) {
                                k2.failures++;
                                refuse(k2);
                            } else {
                                bad("commit-error",
                                    mc::strf("commit of ticket %d failed",
                                             k2.t));
                                return;
                            }
                            go(i);
                        });
                    break;
                }
                case ph::rolling:
                    (void)b.rollback(
                        rls::ticket_number_type(k.t),
                        [this, i](br::interface::rollback_return_type r) {
                            if(late(i, ph::rolling, "rollback")) {
                                return;
                            }
                            auto& k2 = cl[i];
                            if(!r.has_value()) {
                                k2.read.clear();
                                k2.upd.clear();
                                k2.maybe_committing = false;
                                k2.at = 0;
                                k2.attempt++;
                                th[size_t(k2.t)].clear();
                                none_applied(i);
                                if((cfg.retry && !k2.gave_up)) {
                                    k2.p = ph::locking;
                                } else {
                                    k2.gave_up = true;
                                    k2.p = ph::finishing;
                                }
                            } else if(code(r.value())
                                          == int(br::interface::error_code::
                                                     prepared)
                                      && k2.maybe_committing
                                      && cfg.fail_sends) {
                                // too late to give up: every shard prepared
                                k2.p = ph::committing;
                                if(++k2.failures > 6) {
                                    bad("stuck-prepared",
                                        mc::strf("ticket %d neither commits "
                                                 "nor rolls back",
                                                 k2.t));
                                    return;
                                }
                            } else if(cfg.fail_sends && ++k2.failures <= 6) {
                                // try again
                            } else {
                                bad("rollback-error",
                                    mc::strf("rollback of ticket %d keeps "
                                             "failing with error %d",
                                             k2.t, code(r.value())));
                                return;
                            }
                            go(i);
                        });
                    break;
                case ph::finishing:
                    (void)b.finish(
                        rls::ticket_number_type(k.t),
                        [this, i](br::interface::finish_return_type r) {
                            if(late(i, ph::finishing, "finish")) {
                                return;
                            }
                            auto& k2 = cl[i];
                            if(!r.has_value()) {
                                k2.p = ph::done;
                                none_left(i);
                            } else if(cfg.fail_sends && ++k2.failures <= 6) {
                            } else {
                                bad("finish-error",
                                    mc::strf("finish of ticket %d keeps "
                                             "failing with error %d",
                                             k2.t, int(r.value())));
                                return;
                            }
                            go(i);
                        });
                    break;
                case ph::done:
                    break;
            }
        }
        // A response that is not expected any more: the agent ignores those,
        // and so does this client. Like the agent it cannot tell responses
        // to a repeated request apart.
        bool late(size_t i, ph expected, const char* what) {
            if(stop || inst[cl[i].in]->dead) {
                return true;
            }
            if(cl[i].p != expected) {
                th[size_t(cl[i].t)] += std::string("L") + what;
                return true;
            }
            return false;
        }
        void refuse(client& k) {
            k.refused = true;
            k.p = ph::rolling;
        }
        // no shard may hold anything of the ticket after its rollback
        void none_applied(size_t i) {
            for(size_t s = 0; s < shards.size(); s++) {
                auto st = state_on(s, cl[i].t);
                if(st.has_value()) {
                    bad("rolled-back-left",
                        mc::strf("ticket %d is still on shard %zu after its "
                                 "rollback was reported",
                                 cl[i].t, s));
                }
            }
        }
        // nor after its end was reported
        void none_left(size_t i) {
            for(size_t s = 0; s < shards.size(); s++) {
                if(state_on(s, cl[i].t).has_value()) {
                    bad("finished-left",
                        mc::strf("ticket %d is still on shard %zu after its "
                                 "end was reported",
                                 cl[i].t, s));
                }
            }
        }
        void all_applied(size_t i) {
            for(auto& st : cl[i].s->locks) {
                auto s = size_t(st.key) % cfg.shards;
                auto z = state_on(s, cl[i].t);
                if(!z.has_value() || *z != rls::ticket_state::committed) {
                    bad("committed-not-applied",
                        mc::strf("ticket %d reported committed but not "
                                 "committed on shard %zu",
                                 cl[i].t, s));
                }
            }
        }
        std::optional<rls::ticket_state> state_on(size_t s, int t) {
            std::optional<rls::ticket_state> r;
            for(size_t b = 0; b < cfg.brokers; b++) {
                shards[s]->get_tickets(
                    b, [&](rls::interface::get_tickets_return_type x) {
                        auto& m = std::get<
                            rls::interface::get_tickets_success_type>(x);
                        auto it = m.find(rls::ticket_number_type(t));
                        if(it != m.end()) {
                            r = it->second;
                        }
                    });
            }
            return r;
        }
        // ---- scheduling ----
        struct ev {
            int kind; // 0 request, 1 response, 2 crash, 3 start recovery
            size_t i, s;
            int t;
        };
        std::vector<ev> enabled() {
            std::vector<ev> r;
            for(size_t i = 0; i < inst.size(); i++) {
                auto& x = *inst[i];
                for(size_t s = 0; s < cfg.shards; s++) {
                    if(!x.req[s].empty()) {
                        r.push_back({0, i, s, 0});
                    }
                }
                if(!x.dead) {
                    for(auto& [k, q] : x.resp) {
                        if(!q.empty()) {
                            r.push_back({1, i, k.first, k.second});
                        }
                    }
                    // nothing of the crashed predecessor is under way any
                    // more when recovery starts
                    if(x.recovering && x.hist.empty()) {
                        bool ready = true;
                        for(auto& y : inst) {
                            if(y->dead && y->id == x.id) {
                                for(auto& q : y->req) {
                                    ready = ready && q.empty();
                                }
                            }
                        }
                        if(ready) {
                            r.push_back({3, i, 0, 0});
                        }
                    }
                }
            }
            if(crashes_left() && !r.empty()) {
                for(size_t i = 0; i < inst.size(); i++) {
                    if(!inst[i]->dead) {
                        r.push_back({2, i, 0, 0});
                    }
                }
            }
            return r;
        }
        void after_crash() {
            for(size_t i = 0; i < inst.size(); i++) {
                auto x = inst[i];
                if(!x->dead || x->recovered == -1) {
                    continue;
                }
                x->recovered = -1; // handled
                x->resp.clear();
                // of what it had sent, each shard gets a prefix
                for(auto& q : x->req) {
                    auto n = c.choose(uint32_t(q.size()) + 1, "lost");
                    q.resize(q.size() - n);
                }
                for(auto& k : cl) {
                    if(k.in == i) {
                        k.lost = true;
                    }
                }
                auto j = new_instance(x->id);
                inst[j]->recovering = true;
            }
        }
        void run(const ev& e) {
            auto x = inst[e.i];
            if(e.kind == 0) {
                auto m = std::move(x->req[e.s].front());
                x->req[e.s].pop_front();
                auto d = mc::strf(" %s.%d>s%zu", m.name.c_str(), m.ticket,
                                  e.s);
                log += d;
                m.fn();
            } else if(e.kind == 1) {
                auto& q = x->resp[{e.s, e.t}];
                auto m = std::move(q.front());
                q.pop_front();
                auto d = mc::strf(" %s.%d<s%zu", m.name.c_str(), m.ticket,
                                  e.s);
                log += d;
                if(x->recovering) {
                    x->hist += d;
                } else {
                    th[size_t(m.ticket)] += d;
                }
                m.fn();
            } else if(e.kind == 2) {
                log += mc::strf(" [b%zu CRASH]", x->id);
                x->dead = true;
                crashes++;
            } else {
                log += mc::strf(" [b%zu recovers]", x->id);
                x->hist = "start";
                auto* xp = x.get();
                if(!x->b->recover([this, xp](
                                      br::interface::recover_return_type r) {
                       if(xp->dead) {
                           return;
                       }
                       xp->recovered++;
                       xp->recover_ok = !r.has_value();
                       if(r.has_value()) {
                           bad("recover-error",
                               mc::strf("recovery fails with error %d",
                                        int(r.value())));
                       }
                   })) {
                    bad("recover-refused", "recovery refused");
                }
            }
            after_crash();
        }
        std::string key() {
            std::string s;
            for(size_t z = 0; z < kn.size(); z++) {
                s += "|" + kn[z].committed;
                for(auto& k : cl) {
                    auto st = state_on(z, k.t);
                    s += mc::strf(";%d", st.has_value() ? int(*st) : 9);
                    if(!st.has_value()
                       || *st == rls::ticket_state::wounded
                       || *st == rls::ticket_state::committed) {
                        kn[z].held[k.t].clear();
                        continue;
                    }
                    for(auto& [n, ty] : kn[z].held[k.t]) {
                        s += n + mc::strf("%d", ty);
                    }
                    s += "?";
                    for(auto& [n, ty] : kn[z].waiting[k.t]) {
                        s += n + mc::strf("%d", ty);
                    }
                }
            }
            for(auto& h2 : th) {
                s += h2 + (h2.empty() ? "" : "|");
            }
            for(auto& i : inst) {
                s += mc::strf("#%zu%d%d", i->id, i->dead, i->recovered)
                   + i->hist;
                for(auto& q : i->req) {
                    s += "/";
                    for(auto& m : q) {
                        s += m.name + mc::strf(".%d ", m.ticket);
                    }
                }
                for(auto& [k, q] : i->resp) {
                    s += mc::strf("/%zu.%d.%zu", k.first, k.second, q.size());
                }
            }
            for(auto& k : cl) {
                s += mc::strf(" c%d%d%d%d%d%d", int(k.p), k.lost,
                              k.maybe_committing, k.failures, k.gave_up,
                              k.told_committed);
                for(auto& [n, v] : k.read) {
                    s += mc::strf("%d=", n) + v;
                }
            }
            return s;
        }
        // ---- judging the end ----
        std::map<int, std::string> final_state() {
            std::map<int, std::string> r;
            std::set<int> keys;
            for(auto& s : cfg.scripts) {
                for(auto& st : s.locks) {
                    keys.insert(st.key);
                }
            }
            for(size_t s = 0; s < cfg.shards; s++) {
                bool first = true;
                for(auto k : keys) {
                    if(size_t(k) % cfg.shards != s) {
                        continue;
                    }
                    int n = 0;
                    // the youngest ticket of all waits for everybody
                    shards[s]->try_lock(
                        1000, 77, B(K(k)), W, first,
                        [&](rls::interface::try_lock_return_type x) {
                            n++;
                            if(std::holds_alternative<rls::value_type>(x)) {
                                r[k] = S(std::get<rls::value_type>(x));
                            } else {
                                r[k] = "?";
                            }
                        });
                    first = false;
                    if(n == 0) {
                        bad("left-locked",
                            mc::strf("%s stays locked after every ticket "
                                     "ended",
                                     K(k).c_str()));
                        return r;
                    }
                }
            }
            return r;
        }
        void judge() {
            for(auto& k : cl) {
                if(!k.lost && k.p != ph::done) {
                    bad("no-response",
                        mc::strf("ticket %d: a request (phase %d) is never "
                                 "answered",
                                 k.t, int(k.p)));
                    return;
                }
            }
            for(auto& i : inst) {
                if(i->recovering && !i->dead
                   && (!i->recover_ok || i->recovered != 1)) {
                    bad("recover-answer",
                        mc::strf("recovery answered %d times", i->recovered));
                    return;
                }
            }
            for(auto& k : cl) {
                for(size_t s = 0; s < cfg.shards; s++) {
                    if(state_on(s, k.t).has_value()) {
                        bad("ticket-left",
                            mc::strf("ticket %d still on shard %zu", k.t, s));
                        return;
                    }
                }
            }
            auto fin = final_state();
            if(stop) {
                return;
            }
            // which tickets committed? told, or lost with its commit decided
            std::vector<client*> sure, maybe;
            for(auto& k : cl) {
                if(k.told_committed) {
                    sure.push_back(&k);
                } else if(k.lost && k.maybe_committing) {
                    maybe.push_back(&k);
                }
            }
            // some choice of the undecided ones and some serial order must
            // explain every read and the final state
            for(size_t m = 0; m < (1U << maybe.size()); m++) {
                auto set = sure;
                for(size_t j = 0; j < maybe.size(); j++) {
                    if((m >> j) & 1U) {
                        set.push_back(maybe[j]);
                    }
                }
                std::sort(set.begin(), set.end());
                do {
                    std::map<int, std::string> v;
                    bool ok = true;
                    for(auto* k : set) {
                        for(auto& [key, x] : k->read) {
                            ok = ok && v[key] == x;
                        }
                        for(auto& [key, x] : k->upd) {
                            v[key] = x;
                        }
                    }
                    for(auto& [key, x] : fin) {
                        ok = ok && v[key] == x;
                    }
                    if(ok) {
                        std::string o;
                        for(auto* k : set) {
                            o += mc::strf("%d.%d ", k->t, k->attempt);
                        }
                        c.agreed();
                        c.outcome(o + (crashes != 0 ? "crash" : ""));
                        return;
                    }
                } while(std::next_permutation(set.begin(), set.end()));
            }
            std::string f;
            for(auto& [key, x] : fin) {
                f += K(key) + "=" + x + " ";
            }
            for(auto& k : cl) {
                f += mc::strf("; ticket %d %s read", k.t,
                              k.told_committed ? "committed"
                              : k.lost         ? "lost"
                                               : "aborted");
                for(auto& [key, x] : k.read) {
                    f += " " + K(key) + "=" + x;
                }
            }
            bad("not-serializable",
                "no serial order of the committed tickets explains " + f);
        }
    };

    void explore(mc::ctx& c, const config_t& cfg) {
        world w(c, cfg);
        w.start();
        w.after_crash();
        for(uint32_t n = 0; !w.stop; n++) {
            if(n > 400) {
                w.bad("livelock", "the tickets do not come to an end");
                return;
            }
            auto e = w.enabled();
            if(e.empty()) {
                break;
            }
            // crashes cost a deviation, deliveries are free
            uint32_t del = 0;
            for(auto& x : e) {
                del += x.kind != 2 ? 1 : 0;
            }
            uint32_t i{};
            if(del < e.size() && c.flip("crash", 1)) {
                i = del + c.choose(uint32_t(e.size()) - del, "who");
            } else {
                i = c.choose(del, "event");
            }
            w.run(e[i]);
            if(!w.stop && !c.prefix()
               && !c.visit(w.key(), c.bound() - c.used())) {
                return;
            }
        }
        if(!w.stop) {
            w.judge();
        }
    }
    // Requests the client is allowed to make at any time and that must be
    // answered, without effect when they make no sense.
    void misuse(mc::ctx& c) {
        config_t cfg;
        cfg.scripts = {};
        cfg.sync_shards = true;
        world w(c, cfg);
        auto& b = *w.inst[0]->b;
        uint64_t t = 0;
        (void)b.begin([&](auto r) {
            t = std::get<0>(r);
        });
        std::string text;
        // abstract state of the ticket
        enum { begun, locked, committed, aborted, gone } z = begun;
        std::map<int, std::string> val;
        bool hold[2][2] = {};
        for(int d = 0; d < 5; d++) {
            auto op = c.choose(9, "op");
            int n = 0;
            bool ok = false;
            if(op < 4) {
                int k = int(op / 2);
                auto ty = op % 2 ? W : R;
                text += mc::strf(" lock%d%c", k, op % 2 ? 'w' : 'r');
                std::string got;
                (void)b.try_lock(t, B(K(k)), ty,
                                 [&](br::interface::try_lock_return_type r) {
                                     n++;
                                     ok = std::holds_alternative<
                                         rls::value_type>(r);
                                     if(ok) {
                                         got = S(
                                             std::get<rls::value_type>(r));
                                     }
                                 });
                bool want = z == begun || z == locked || z == aborted;
                if(z == aborted) {
                    memset(hold, 0, sizeof hold);
                }
                if(n != 1 || ok != want || (ok && got != val[k])) {
                    c.fail("request-lock",
                           "%s: answered %d times, %s, value '%s'",
                           text.c_str(), n, ok ? "granted" : "refused",
                           got.c_str());
                    return;
                }
                if(ok) {
                    z = locked;
                    hold[k][0] = true;
                    hold[k][1] = hold[k][1] || ty == W;
                }
            } else if(op == 4 || op == 5) {
                // commit writing what is write-locked (4), or key 1 in any
                // case (5)
                rls::state_update_type u;
                bool allowed = true;
                bool hazard = false;
                std::map<int, std::string> nv;
                for(int k = 0; k < 2; k++) {
                    if((op == 4 && hold[k][1]) || (op == 5 && k == 1)) {
                        nv[k] = mc::strf("v%d.%d", k, d);
                        u.emplace(B(K(k)), B(nv[k]));
                        allowed = allowed && hold[k][1];
                        hazard = hazard || !hold[k][0];
                    }
                }
                text += op == 4 ? " commit" : " commit1";
                (void)b.commit(t, u, [&](br::interface::commit_return_type r) {
                    n++;
                    ok = !r.has_value();
                });
                bool want = (z == begun || z == locked) && allowed;
                if(z == begun && op == 5) {
                    want = false;
                }
                if(n < 1 || ok != want) {
                    c.fail("request-commit", "%s: answered %d times, %s",
                           text.c_str(), n, ok ? "committed" : "refused");
                    return;
                }
                if(ok) {
                    z = committed;
                    for(auto& [k, v] : nv) {
                        val[k] = v;
                    }
                } else if((z == locked) && !hazard) {
                    // a shard refused: the ticket has to be rolled back now
                    c.outcome(text);
                    int m = 0;
                    bool rok = false;
                    (void)b.rollback(
                        t, [&](br::interface::rollback_return_type r) {
                            m++;
                            rok = !r.has_value();
                        });
                    if(m != 1 || !rok) {
                        c.fail("request-rollback-after-refusal",
                               "%s: rollback answered %d times", text.c_str(),
                               m);
                        return;
                    }
                    z = aborted;
                    memset(hold, 0, sizeof hold);
                }
            } else if(op == 6) {
                text += " rollback";
                (void)b.rollback(t,
                                 [&](br::interface::rollback_return_type r) {
                                     n++;
                                     ok = !r.has_value();
                                 });
                bool want = z == begun || z == locked;
                if(n != 1 || ok != want) {
                    c.fail("request-rollback", "%s: answered %d times, %s",
                           text.c_str(), n, ok ? "done" : "refused");
                    return;
                }
                if(ok) {
                    z = aborted;
                    memset(hold, 0, sizeof hold);
                }
            } else if(op == 7) {
                text += " finish";
                (void)b.finish(t, [&](br::interface::finish_return_type r) {
                    n++;
                    ok = !r.has_value();
                });
                bool want = z == committed || z == aborted;
                if(n != 1 || ok != want) {
                    c.fail("request-finish", "%s: answered %d times, %s",
                           text.c_str(), n, ok ? "done" : "refused");
                    return;
                }
                if(ok) {
                    z = gone;
                }
            } else {
                // everything the ticket did not commit is invisible, what it
                // committed is visible
                text += " look";
                if(z == locked) {
                    continue;
                }
                uint64_t t2 = 0;
                (void)b.begin([&](auto r) {
                    t2 = std::get<0>(r);
                });
                for(int k = 0; k < 2; k++) {
                    int m = 0;
                    std::string got;
                    (void)b.try_lock(
                        t2, B(K(k)), W,
                        [&](br::interface::try_lock_return_type r) {
                            m++;
                            got = std::holds_alternative<rls::value_type>(r)
                                    ? S(std::get<rls::value_type>(r))
                                    : "?";
                        });
                    if(m != 1 || got != val[k]) {
                        c.fail("request-effect",
                               "%s: %s reads '%s', expected '%s'",
                               text.c_str(), K(k).c_str(), got.c_str(),
                               val[k].c_str());
                        return;
                    }
                }
                int m = 0;
                (void)b.rollback(t2, [&](auto) {
                    m++;
                });
                (void)b.finish(t2, [&](auto) {
                    m++;
                });
                if(m != 2) {
                    c.fail("request-look", "%s: %d answers", text.c_str(), m);
                    return;
                }
            }
        }
        c.agreed();
        c.outcome(text);
    }
    // Recovery over shards that answer at once, from every mix of ticket
    // states, twice.
    void recover_sync(mc::ctx& c) {
        config_t cfg;
        cfg.sync_shards = true;
        cfg.brokers = 2;
        world w(c, cfg);
        std::string text;
        std::map<int, std::string> val;
        std::map<int, bool> other; // ticket of the other broker
        int nt = 3;
        std::vector<int> locked_key;
        for(int t = 1; t <= nt; t++) {
            // tickets use their own keys, on both shards
            size_t bid = c.choose(2, "broker");
            bool commits = false;
            int st[2];
            for(size_t s = 0; s < 2; s++) {
                st[s] = int(c.choose(4, "state"));
            }
            // 0 absent 1 locked 2 prepared 3 committed; a commit anywhere
            // means prepared everywhere
            for(int s = 0; s < 2; s++) {
                commits = commits || st[s] == 3;
            }
            if(commits && (st[0] == 1 || st[1] == 1)) {
                return;
            }
            text += mc::strf(" t%d@b%zu:%d%d", t, bid, st[0], st[1]);
            for(int s = 0; s < 2; s++) {
                if(st[s] == 0) {
                    continue;
                }
                int k = (t - 1) * 2 + s;
                auto v = mc::strf("%d", t);
                auto& sh = *w.shards[size_t(s)];
                sh.try_lock(rls::ticket_number_type(t), bid, B(K(k)), W, true,
                            [](auto) {});
                if(st[s] >= 2) {
                    rls::state_update_type u;
                    u.emplace(B(K(k)), B(v));
                    sh.prepare(rls::ticket_number_type(t), bid, u,
                               [](auto) {});
                }
                if(st[s] == 3) {
                    sh.commit(rls::ticket_number_type(t), [](auto) {});
                }
                if(bid == 0) {
                    val[k] = commits ? v : "";
                } else {
                    other[t] = true;
                }
            }
        }
        for(int round = 0; round < 2; round++) {
            int n = 0;
            bool ok = false;
            if(!w.inst[0]->b->recover(
                   [&](br::interface::recover_return_type r) {
                       n++;
                       ok = !r.has_value();
                   })
               || n != 1 || !ok) {
                c.fail("recover-answer",
                       "%s: recovery %d answered %d times, %s", text.c_str(),
                       round, n, ok ? "ok" : "error");
                return;
            }
        }
        for(int t = 1; t <= nt; t++) {
            for(size_t s = 0; s < 2; s++) {
                auto z = w.state_on(s, t);
                if(other.count(t) == 0 && z.has_value()) {
                    c.fail("ticket-left", "%s: ticket %d left on shard %zu",
                           text.c_str(), t, s);
                    return;
                }
            }
        }
        for(auto& [k, v] : val) {
            std::string got = "?";
            w.shards[size_t(k) % 2]->try_lock(
                rls::ticket_number_type(100 + k), 5, B(K(k)), W, true,
                [&](rls::interface::try_lock_return_type r) {
                    if(std::holds_alternative<rls::value_type>(r)) {
                        got = S(std::get<rls::value_type>(r));
                    }
                });
            if(got != v) {
                c.fail("recover-state",
                       "%s: %s is '%s' after recovery, expected '%s'",
                       text.c_str(), K(k).c_str(), got.c_str(), v.c_str());
                return;
            }
        }
        for(auto& [t, x] : other) {
            bool there = w.state_on(0, t).has_value()
                      || w.state_on(1, t).has_value();
            if(!there) {
                c.fail("recover-other",
                       "%s: ticket %d of another broker disappeared",
                       text.c_str(), t);
                return;
            }
        }
        c.agreed();
        c.outcome(text);
    }
}
const uint32_t SPLIT = getenv("SPLIT") ? uint32_t(atoi(getenv("SPLIT"))) : 12;
int main(int argc, char** argv) {
    bool th = mc::thorough();
    std::vector<mc::scenario> s;
    auto add = [&](const std::string& n, config_t cfg, uint32_t bound = 0) {
        s.push_back({n, [cfg](mc::ctx& c) { explore(c, cfg); }, bound, 8, SPLIT,
                     mc::strf("%zu tickets, %zu shards, %zu brokers, every "
                              "delivery order%s",
                              cfg.scripts.size(), cfg.shards, cfg.brokers,
                              cfg.crashes != 0 ? ", every crash point"
                              : cfg.fail_sends ? ", every failing send"
                                               : "")});
    };
    script ab{0, {{0, W}, {1, W}}}, ba{0, {{1, W}, {0, W}}};
    script skew1{0, {{0, R}, {1, W}}}, skew2{0, {{1, R}, {0, W}}};
    script up0{0, {{0, R}, {0, W}, {1, R}}}, up1{0, {{0, R}, {1, R}, {0, W}}};
    script one{0, {{0, W}}}, rd{0, {{0, R}, {1, R}}};
    auto on = [](script x, size_t b) {
        x.broker = b;
        return x;
    };
    auto quit = [](script x) {
        x.abandon = true;
        return x;
    };
    if(std::string(PROP) == "C13") {
        add("opposite order", {2, 1, {ab, ba}});
        add("opposite order, two brokers", {2, 2, {ab, on(ba, 1)}});
        add("write skew", {2, 2, {skew1, on(skew2, 1)}});
        add("upgrades", {2, 1, {up0, up1}});
        add("reader and writer", {2, 2, {rd, on(ba, 1)}});
        add("writer and reader", {2, 2, {ba, on(rd, 1)}});
        add("giving up", {2, 1, {quit(ab), ba}});
        config_t nr{2, 1, {ab, ba}};
        nr.retry = false;
        add("no retry", nr);
        config_t f{2, 1, {ab}};
        f.fail_sends = true;
        add("one ticket, failing sends", f, 2);
        config_t f2{2, 1, {ba, skew1}};
        f2.fail_sends = true;
        add("two tickets, failing sends", f2, 1);
        // keys 0, 2 and 4 are on one shard
        script many{0, {{0, W}, {2, W}, {1, W}}};
        script mixed{0, {{2, R}, {0, W}, {4, W}}};
        add("several keys of one shard", {2, 1, {many, mixed}});
        add("several keys of one shard, two brokers",
            {2, 2, {mixed, on(many, 1)}});
        add("three tickets, one key", {2, 1, {one, one, one}});
        add("three tickets", {2, 1, {one, ba, {0, {{1, W}}}}});
        if(th) {
            add("three tickets, two keys", {2, 1, {skew1, ba, skew2}});
            add("three tickets, three shards",
                {3,
                 2,
                 {{0, {{0, W}, {1, W}}},
                  {1, {{1, W}, {2, W}}},
                  {0, {{2, W}, {0, W}}}}});
        }
        s.push_back({"requests in any order", misuse, 0, 8, 2,
                     "every sequence of 5 client requests of one ticket"});
    } else {
        config_t a{2, 1, {ab}};
        a.crashes = th ? 3 : 2;
        add("one ticket", a, a.crashes);
        config_t b{2, 1, {skew1, ba}};
        b.crashes = 1;
        add("two tickets", b, 1);
        config_t d{2, 2, {ab, on(ba, 1)}};
        d.crashes = 1;
        add("two tickets, two brokers", d, 1);
        config_t e{2, 2, {skew2, on(skew1, 1)}};
        e.crashes = 1;
        add("write skew, two brokers", e, 1);
        config_t f{3, 1, {{0, {{0, W}, {1, W}, {2, W}}}}};
        f.crashes = 1;
        add("three shards", f, 1);
        if(th) {
            config_t g{2, 2, {one, on(ba, 1), rd}};
            g.crashes = 1;
            add("three tickets", g, 1);
            d.crashes = 2;
            add("two crashes", d, 2);
        }
        s.push_back({"recovery of every mix of ticket states", recover_sync,
                     0, 8, 2,
                     "3 tickets of 2 brokers, every state on each of 2 "
                     "shards; recovery repeated"});
    }
    return mc::main(
        argc, argv, PROP, "model_checking",
        "every delivery order of requests and responses (merged when every "
        "component has the same history)"
        "; non-trivial = distinct sets and orders of commits",
        {"requests of one broker reach a shard in order, responses about one "
         "ticket come back in order",
         "requests of a crashed broker arrive before recovery starts or "
         "never"},
        s);
}
