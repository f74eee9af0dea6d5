// C11/C12: the runtime locking shard under every sequence of requests from
// competing tickets, judged through its answers and ticket states.
#include "common.hpp"

#include <algorithm>
#include <mutex>
#ifdef CONCURRENT
#include "mc/sched.hpp"
#endif
#include "parsec/runtime_locking_shard/impl.hpp"

#include <thread>
#ifndef PROP
#define PROP "C11"
#endif
using namespace h;
namespace rls = cbdc::parsec::runtime_locking_shard;
using rls::error_code;
using rls::lock_type;
using rls::ticket_state;
namespace {
    const bool c11 = std::string(PROP) == "C11";
    cbdc::buffer B(const std::string& s) {
        cbdc::buffer b;
        b.append(s.data(), s.size());
        return b;
    }
    std::string S(const cbdc::buffer& b) {
        return {static_cast<const char*>(b.data()), b.size()};
    }
    const char* kn[] = {"k0", "k1", "k2"};
    const char* en(error_code e) {
        static const char* n[]
            = {"prepared", "wounded", "lock_held", "lock_queued",
               "unknown_ticket", "lock_not_held",
               "state_update_with_read_lock", "not_prepared", "committed",
               "not_committed", "internal_error"};
        return n[int(e)];
    }
}
#ifndef CONCURRENT
namespace {
    struct pending {
        int t, k;
        lock_type ty;
        size_t n; // request number
    };
    // What is known about the shard from its answers.
    struct world {
        rls::impl s{logger()};
        int nt, nk;
        std::map<int, std::map<int, lock_type>> held; // ticket -> key -> type
        std::vector<pending> wait;
        std::map<int, ticket_state> st; // known tickets
        std::set<int> dead;             // finished
        std::map<int, std::map<int, std::string>> upd; // prepared updates
        std::map<int, std::string> val; // committed values
        std::map<int, size_t> broker;
        std::map<int, int> writes;      // to make values distinct
        // answers of lock requests during the current operation
        struct ans {
            size_t n;
            rls::interface::try_lock_return_type r;
        };
        std::vector<ans> got;
        std::map<size_t, int> answered;
        size_t req{0};
        std::string text;

        std::string key() const {
            std::string s;
            for(auto& [t, x] : st) {
                s += mc::strf("t%d:%d", t, int(x));
                if(held.count(t) != 0) {
                    for(auto& [k, ty] : held.at(t)) {
                        s += mc::strf(" %d%c", k,
                                      ty == lock_type::read ? 'r' : 'w');
                    }
                }
                if(upd.count(t) != 0) {
                    for(auto& [k, v] : upd.at(t)) {
                        s += mc::strf(" u%d", k) + v;
                    }
                }
                s += mc::strf(" b%zu;", broker.at(t));
            }
            for(auto& p : wait) {
                s += mc::strf(" w%d.%d.%d", p.t, p.k, int(p.ty));
            }
            for(auto t : dead) {
                s += mc::strf(" d%d", t);
            }
            for(auto& [k, v] : val) {
                s += mc::strf(" v%d", k) + v;
            }
            return s;
        }
    };
    static bool conflict(lock_type a, lock_type b) {
        return a == lock_type::write || b == lock_type::write;
    }
    struct runner {
        mc::ctx& c;
        world w;
        bool stop{false};
        runner(mc::ctx& c, int nt, int nk) : c(c) {
            w.nt = nt;
            w.nk = nk;
        }
        // reports a violation of property `p`; violations of the other one
        // just end the path
        void bad(const char* p, const char* key, const std::string& m) {
            stop = true;
            if(std::string(p) == PROP) {
                c.fail(key, "%s: %s", w.text.c_str(), m.c_str());
            }
        }
        void drop(int t) { // forget locks and waits of a ticket
            w.held.erase(t);
            w.upd.erase(t);
        }
        std::map<int, ticket_state> states() {
            std::map<int, ticket_state> r;
            for(size_t b = 0; b < 3; b++) {
                int calls = 0;
                w.s.get_tickets(
                    b, [&](rls::interface::get_tickets_return_type x) {
                        calls++;
                        for(auto& [t, z] : std::get<
                                rls::interface::get_tickets_success_type>(
                                x)) {
                            r[int(t)] = z;
                            auto it = w.broker.find(int(t));
                            if(it == w.broker.end() || it->second != b) {
                                bad("C11", "broker",
                                    mc::strf("ticket %d reported for broker "
                                             "%zu",
                                             int(t), b));
                            }
                        }
                    });
                if(calls != 1) {
                    bad("C12", "answer-count", "get_tickets not answered "
                                               "once");
                }
            }
            return r;
        }
        // The requests that became answerable in this operation have been
        // collected in w.got. `actor`/`k`/`ty`: the lock request made, if any
        void settle(int actor, int k, lock_type ty, bool is_lock,
                    const std::map<int, ticket_state>& expect) {
            auto now = states();
            if(stop) {
                return;
            }
            // 1. ticket states
            for(auto& [t, z] : expect) {
                auto it = now.find(t);
                if(it == now.end()) {
                    bad("C11", "ticket-lost", mc::strf("ticket %d lost", t));
                    return;
                }
                if(it->second == z) {
                    continue;
                }
                if(z == ticket_state::begun
                   && it->second == ticket_state::wounded && is_lock) {
                    auto hl = w.held.find(t);
                    bool just = actor < t && hl != w.held.end()
                             && hl->second.count(k) != 0
                             && conflict(ty, hl->second[k]);
                    if(!just) {
                        bad("C11", "wounded-without-cause",
                            mc::strf("ticket %d wounded though it blocked no "
                                     "older request",
                                     t));
                        return;
                    }
                    continue;
                }
                bad("C11", "ticket-state",
                    mc::strf("ticket %d in state %d, must be %d", t,
                             int(it->second), int(z)));
                return;
            }
            for(auto& [t, z] : now) {
                if(expect.count(t) == 0) {
                    bad("C11", "ticket-appears",
                        mc::strf("unknown ticket %d listed", t));
                    return;
                }
            }
            // 2. wounded tickets lose their locks and their requests
            std::set<int> hurt;
            for(auto& [t, z] : now) {
                if(z == ticket_state::wounded
                   && w.st[t] != ticket_state::wounded) {
                    hurt.insert(t);
                    drop(t);
                }
            }
            w.st = now;
            // 3. answers
            for(auto& a : w.got) {
                auto it = std::find_if(
                    w.wait.begin(), w.wait.end(),
                    [&](const pending& p) { return p.n == a.n; });
                if(it == w.wait.end()) {
                    bad("C12", "answered-twice",
                        "a lock request is answered twice");
                    return;
                }
                auto p = *it;
                w.wait.erase(it);
                if(auto* e = std::get_if<rls::shard_error>(&a.r)) {
                    bool gone = hurt.count(p.t) != 0
                             || w.st.count(p.t) == 0;
                    if(!gone || e->m_error_code != error_code::wounded) {
                        bad("C11", "queued-error",
                            mc::strf("queued request of ticket %d answered "
                                     "with %s",
                                     p.t, en(e->m_error_code)));
                        return;
                    }
                    if(hurt.count(p.t) != 0
                       && (!e->m_wounded_details.has_value()
                           || int(e->m_wounded_details->m_wounding_ticket)
                                  != actor
                           || S(e->m_wounded_details->m_wounding_key)
                                  != kn[k])) {
                        bad("C11", "wounded-details",
                            "wrong ticket or key given as wounding");
                        return;
                    }
                    continue;
                }
                if(w.st.count(p.t) == 0
                   || w.st[p.t] != ticket_state::begun) {
                    bad("C11", "granted-dead",
                        mc::strf("lock granted to ticket %d, which cannot "
                                 "hold one",
                                 p.t));
                    return;
                }
                if(S(std::get<cbdc::buffer>(a.r)) != w.val[p.k]) {
                    bad("C11", "value",
                        mc::strf("lock on %s answered with '%s', committed "
                                 "is '%s'",
                                 kn[p.k],
                                 S(std::get<cbdc::buffer>(a.r)).c_str(),
                                 w.val[p.k].c_str()));
                    return;
                }
                w.held[p.t][p.k] = p.ty;
            }
            w.got.clear();
            // 4. exclusion
            for(int kk = 0; kk < w.nk; kk++) {
                std::string hs;
                int n = 0;
                bool wr = false;
                for(auto& [t, m] : w.held) {
                    auto it = m.find(kk);
                    if(it != m.end()) {
                        n++;
                        wr = wr || it->second == lock_type::write;
                        hs += mc::strf(" %d", t);
                    }
                }
                if(wr && n > 1) {
                    bad("C11", "exclusion",
                        mc::strf("%s is write locked and held by tickets%s",
                                 kn[kk], hs.c_str()));
                    return;
                }
            }
            // 5. whoever waits, waits for a reason
            for(auto& p : w.wait) {
                if(w.st.count(p.t) == 0
                   || w.st[p.t] != ticket_state::begun) {
                    bad("C12", "unanswered",
                        mc::strf("request of ticket %d stays unanswered "
                                 "though the ticket cannot hold locks",
                                 p.t));
                    return;
                }
                bool reason = false;
                for(auto& [t, m] : w.held) {
                    auto it = m.find(p.k);
                    if(t == p.t || it == m.end()
                       || !conflict(p.ty, it->second)) {
                        continue;
                    }
                    reason = true;
                    if(t > p.t && w.st[t] == ticket_state::begun) {
                        bad("C11", "blocked-by-younger",
                            mc::strf("ticket %d waits for younger ticket %d",
                                     p.t, t));
                        return;
                    }
                }
                for(auto& q : w.wait) {
                    reason = reason
                          || (q.k == p.k && q.t < p.t
                              && conflict(p.ty, q.ty));
                }
                if(!reason) {
                    bad("C12", "waits-for-nothing",
                        mc::strf("ticket %d waits for %s though nothing "
                                 "conflicts",
                                 p.t, kn[p.k]));
                    return;
                }
            }
            c.agreed();
        }
        void lock(int t, int k, lock_type ty, size_t broker) {
            w.text += mc::strf(" %d:%c(%s)", t,
                               ty == lock_type::read ? 'r' : 'w', kn[k]);
            bool first = w.st.count(t) == 0;
            auto n = w.req++;
            std::set<error_code> allowed;
            auto ex = w.st;
            if(!first) {
                auto z = w.st[t];
                if(z == ticket_state::prepared) {
                    allowed = {error_code::prepared};
                } else if(z == ticket_state::committed) {
                    allowed = {error_code::committed};
                } else if(z == ticket_state::wounded) {
                    allowed = {error_code::wounded};
                } else {
                    auto it = w.held[t].find(k);
                    if(it != w.held[t].end()
                       && (it->second == lock_type::write
                           || ty == lock_type::read)) {
                        allowed.insert(error_code::lock_held);
                    }
                    for(auto& p : w.wait) {
                        if(p.t == t && p.k == k) {
                            allowed.insert(error_code::lock_queued);
                        }
                    }
                }
            }
            int refused = 0;
            error_code code{};
            if(allowed.empty()) {
                w.wait.push_back({t, k, ty, n});
                w.broker[t] = broker;
                ex[t] = ticket_state::begun;
                if(first) {
                    w.st[t] = ticket_state::begun;
                }
            }
            bool acc = allowed.empty();
            w.s.try_lock(rls::ticket_number_type(t), broker, B(kn[k]), ty,
                         first,
                         [this, n, acc, &refused,
                          &code](rls::interface::try_lock_return_type r) {
                             w.answered[n]++;
                             if(acc) {
                                 w.got.push_back({n, r});
                                 return;
                             }
                             refused++;
                             if(auto* e = std::get_if<rls::shard_error>(&r)) {
                                 code = e->m_error_code;
                             } else {
                                 refused += 100;
                             }
                         });
            if(!acc) {
                if(refused == 0 || (refused > 1 && refused < 100)) {
                    bad("C12", "answer-count", "refusal not answered once");
                    return;
                }
                if(refused > 1 || allowed.count(code) == 0) {
                    bad("C11", "refusal",
                        mc::strf("request of ticket %d answered %s", t,
                                 refused > 1 ? "with a lock" : en(code)));
                    return;
                }
                settle(t, k, ty, false, ex);
                return;
            }
            settle(t, k, ty, true, ex);
        }
        using err = std::optional<rls::shard_error>;
        // what: for the report; want: acceptable error (none: success)
        bool answer(int calls, const err& e, std::optional<error_code> want,
                    const std::set<error_code>& more = {}) {
            if(calls != 1) {
                bad("C12", "answer-count",
                    mc::strf("answered %d times", calls));
                return false;
            }
            bool ok = e.has_value() == want.has_value()
                   && (!want || e->m_error_code == *want
                       || more.count(e->m_error_code) != 0);
            if(!ok) {
                bad("C11", "result",
                    mc::strf("answered %s, must be %s",
                             e ? en(e->m_error_code) : "success",
                             want ? en(*want) : "success"));
            }
            return ok;
        }
        bool queued(int t) {
            for(auto& p : w.wait) {
                if(p.t == t) {
                    return true;
                }
            }
            return false;
        }
        // kind: 0 update every write-locked key, 1 nothing, 2 a key not
        // write locked too
        void prepare(int t, int kind) {
            w.text += mc::strf(" %d:prepare%d", t, kind);
            rls::state_update_type u;
            std::map<int, std::string> mu;
            std::optional<error_code> want;
            std::set<error_code> more;
            for(int k = 0; k < w.nk; k++) {
                auto it = w.held.count(t) != 0 ? w.held[t].find(k)
                                               : w.held[t].end();
                bool wr = it != w.held[t].end()
                       && it->second == lock_type::write;
                if(kind != 1 && (wr || (kind == 2 && want == std::nullopt))) {
                    auto v = mc::strf("%d", t);
                    u[B(kn[k])] = B(v);
                    mu[k] = v;
                    if(!wr) {
                        want = it == w.held[t].end()
                                 ? error_code::lock_not_held
                                 : error_code::state_update_with_read_lock;
                    }
                }
            }
            if(kind == 2 && !want) {
                w.held.erase(t);
                stop = true; // nothing to misuse
                return;
            }
            if(w.held[t].empty()) {
                w.held.erase(t);
            }
            auto z = w.st.find(t);
            if(z == w.st.end()) {
                want = error_code::unknown_ticket;
            } else if(z->second != ticket_state::begun) {
                want = z->second == ticket_state::prepared
                         ? error_code::prepared
                     : z->second == ticket_state::wounded
                         ? error_code::wounded
                         : error_code::committed;
            } else if(queued(t)) {
                if(want) {
                    more.insert(*want);
                }
                want = error_code::lock_queued;
            }
            int calls = 0;
            err e;
            w.s.prepare(rls::ticket_number_type(t), w.broker[t], u,
                        [&](rls::interface::prepare_return_type r) {
                            calls++;
                            e = r;
                        });
            if(!answer(calls, e, want, more)) {
                return;
            }
            auto ex = w.st;
            if(!want) {
                ex[t] = ticket_state::prepared;
                w.upd[t] = mu;
            }
            settle(t, 0, {}, false, ex);
        }
        void simple(int t, int what) { // 0 commit, 1 rollback, 2 finish
            static const char* nm[] = {"commit", "rollback", "finish"};
            w.text += mc::strf(" %d:%s", t, nm[what]);
            std::optional<error_code> want;
            auto z = w.st.find(t);
            auto ex = w.st;
            if(z == w.st.end()) {
                want = error_code::unknown_ticket;
            } else if(what == 0) {
                if(z->second != ticket_state::prepared) {
                    want = error_code::not_prepared;
                } else {
                    ex[t] = ticket_state::committed;
                    for(auto& [k, v] : w.upd[t]) {
                        w.val[k] = v;
                    }
                    drop(t);
                }
            } else if(what == 1) {
                if(z->second == ticket_state::committed) {
                    want = error_code::committed;
                } else {
                    ex.erase(t);
                    w.st.erase(t);
                    drop(t);
                }
            } else {
                if(z->second != ticket_state::committed) {
                    want = error_code::not_committed;
                } else {
                    ex.erase(t);
                    w.st.erase(t);
                    w.dead.insert(t);
                }
            }
            int calls = 0;
            err e;
            auto cb = [&](err r) {
                calls++;
                e = r;
            };
            if(what == 0) {
                w.s.commit(rls::ticket_number_type(t), cb);
            } else if(what == 1) {
                w.s.rollback(rls::ticket_number_type(t), cb);
            } else {
                w.s.finish(rls::ticket_number_type(t), cb);
            }
            if(!answer(calls, e, want)) {
                return;
            }
            settle(t, 0, {}, false, ex);
        }
        // ends every ticket; then nothing may be held or waiting
        void wind_up(bool oldest_first) {
            w.text += " | end";
            for(int guard = 0; !w.st.empty() && guard < 100 && !stop;
                guard++) {
                std::vector<int> ts;
                for(auto& [t, z] : w.st) {
                    ts.push_back(t);
                }
                auto t = oldest_first ? ts.front() : ts.back();
                auto z = w.st[t];
                if(z == ticket_state::begun && !queued(t)) {
                    prepare(t, 0);
                } else if(z == ticket_state::prepared) {
                    simple(t, 0);
                } else if(z == ticket_state::committed) {
                    simple(t, 2);
                } else {
                    simple(t, 1);
                }
            }
            if(stop) {
                return;
            }
            for(auto& [n, k] : w.answered) {
                if(k != 1) {
                    bad("C12", "answered-twice",
                        "a lock request is answered more than once");
                    return;
                }
            }
            if(!w.wait.empty()) {
                bad("C12", "unanswered",
                    "a request is unanswered after every ticket ended");
                return;
            }
            // a fresh, youngest ticket gets everything at once, with the
            // committed values
            for(int k = 0; k < w.nk && !stop; k++) {
                lock(90, k, lock_type::write, 0);
                if(!stop && queued(90)) {
                    bad("C12", "left-locked",
                        mc::strf("%s stays locked after every ticket ended",
                                 kn[k]));
                }
            }
        }
    };
    void explore(mc::ctx& c, int nt, int nk, uint32_t depth, bool up) {
        runner r(c, nt, nk);
        for(uint32_t d = 0; d < depth; d++) {
            uint32_t per = uint32_t(2 * nk + 6);
            auto op = c.choose(uint32_t(nt) * per, "op");
            int t = 1 + int(op / per);
            auto o = int(op % per);
            if(o < 2 * nk) {
                if(r.w.dead.count(t) != 0) {
                    return; // finished tickets are never used again
                }
                r.lock(t, o / 2, o % 2 ? lock_type::write : lock_type::read,
                       size_t(t % 2));
            } else if(o < 2 * nk + 3) {
                r.prepare(t, o - 2 * nk);
            } else {
                r.simple(t, o - 2 * nk - 3);
            }
            if(r.stop) {
                return;
            }
            // the last request is part of the key, so that a hidden effect
            // of a request is followed by every continuation
            if(!c.visit(r.w.key() + mc::strf("/%u", op), depth - d - 1)) {
                return;
            }
        }
        auto k = r.w.key();
        r.wind_up(up);
        if(!r.stop) {
            c.outcome(k);
        }
    }
}
int main(int argc, char** argv) {
    bool th = mc::thorough();
    std::vector<mc::scenario> s;
    auto add = [&](const char* n, int nt, int nk, uint32_t d, bool up) {
        s.push_back({n, [=](mc::ctx& c) { explore(c, nt, nk, d, up); }, 0, 8,
                     2,
                     mc::strf("%d tickets, %d keys, %u requests; then every "
                              "ticket ends, %s first",
                              nt, nk, d, up ? "oldest" : "youngest")});
    };
    add("2 tickets, 2 keys", 2, 2, th ? 9 : 7, true);
    add("3 tickets, 1 key", 3, 1, th ? 9 : 7, true);
    add("3 tickets, 1 key, youngest first", 3, 1, th ? 8 : 6, false);
    add("3 tickets, 2 keys", 3, 2, th ? 7 : 5, true);
    add("4 tickets, 1 key", 4, 1, th ? 7 : 5, false);
    return mc::main(argc, argv, PROP, "model_checking",
                    "every request sequence within the depth, merged when "
                    "the observed state repeats; every answer and ticket "
                    "state judged; non-trivial = distinct final states",
                    {"the caller's first_lock flag is truthful (the shard "
                     "stops on a false one)",
                     "a finished ticket's number is not used again"},
                    s);
}
#else
namespace {
    // Transactions that read and increment counters on two keys in opposite
    // orders, each retried with its own ticket until it commits.
    void counters(mc::ctx& c, int n, bool readers) {
        std::string out;
        sched::options o;
        sched::run(c, o, [&]() {
            auto s = std::make_shared<rls::impl>(logger());
            std::string order;
            auto tx = [&](int t) {
                for(int attempt = 0;; attempt++) {
                    std::map<int, int> v;
                    bool wounded = false;
                    for(int i = 0; i < 2 && !wounded; i++) {
                        int k = t % 2 == 0 ? i : 1 - i;
                        int calls = 0;
                        std::string val;
                        bool rd = readers && t == 3;
                        s->try_lock(
                            rls::ticket_number_type(t), 0, B(kn[k]),
                            rd ? lock_type::read : lock_type::write, i == 0,
                            [&](rls::interface::try_lock_return_type r) {
                                sched::atomic_section g;
                                if(++calls > 1) {
                                    sched::fail("answered-twice",
                                                "lock answered twice");
                                }
                                if(auto* e
                                   = std::get_if<rls::shard_error>(&r)) {
                                    if(e->m_error_code
                                       != error_code::wounded) {
                                        sched::fail("error",
                                                    en(e->m_error_code));
                                    }
                                    wounded = true;
                                } else {
                                    val = S(std::get<cbdc::buffer>(r));
                                }
                                sched::hb_release(&calls);
                            });
                        sched::until(
                            [&]() {
                                sched::atomic_section g;
                                return calls > 0;
                            },
                            "lock answer");
                        sched::hb_acquire(&calls);
                        v[k] = val.empty() ? 0 : atoi(val.c_str());
                    }
                    rls::interface::prepare_return_type pr;
                    if(!wounded) {
                        rls::state_update_type u;
                        for(auto& [k, x] : v) {
                            if(!(readers && t == 3)) {
                                u[B(kn[k])] = B(std::to_string(x + 1));
                            } else if(v[0] != v[1]) {
                                // only meaningful once prepared
                            }
                        }
                        s->prepare(rls::ticket_number_type(t), 0, u,
                                   [&](auto r) {
                                       pr = r;
                                   });
                        if(!pr.has_value()) {
                            if(v[0] != v[1]) {
                                sched::fail("isolation",
                                            "a prepared ticket read two "
                                            "counters that never differ");
                            }
                            s->commit(rls::ticket_number_type(t),
                                      [&](auto r) {
                                          if(r.has_value()) {
                                              sched::fail("commit",
                                                          "commit refused");
                                          }
                                      });
                            s->finish(rls::ticket_number_type(t),
                                      [&](auto r) {
                                          if(r.has_value()) {
                                              sched::fail("finish",
                                                          "finish refused");
                                          }
                                      });
                            sched::atomic_section g;
                            order += mc::strf("%d.%d ", t, attempt);
                            return;
                        }
                        if(pr->m_error_code != error_code::wounded) {
                            sched::fail("prepare",
                                        en(pr->m_error_code));
                        }
                    }
                    s->rollback(rls::ticket_number_type(t), [&](auto r) {
                        if(r.has_value()) {
                            sched::fail("rollback", "rollback refused");
                        }
                    });
                    if(attempt > 8) {
                        sched::fail("starved", "ticket never completes");
                    }
                }
            };
            std::vector<std::thread> t;
            for(int k = 1; k < n; k++) {
                t.emplace_back([&, k]() { tx(k + 1); });
            }
            tx(1);
            for(auto& x : t) {
                x.join();
            }
            int writers = readers ? n - 1 : n;
            for(int k = 0; k < 2; k++) {
                int calls = 0;
                s->try_lock(99, 0, B(kn[k]), lock_type::write, k == 0,
                            [&](rls::interface::try_lock_return_type r) {
                                calls++;
                                auto* b = std::get_if<cbdc::buffer>(&r);
                                if(b == nullptr
                                   || S(*b) != std::to_string(writers)) {
                                    sched::fail("lost-update",
                                                "an increment was lost");
                                }
                            });
                if(calls != 1) {
                    sched::fail("left-locked", "key stays locked");
                }
            }
            out = order;
        });
        if(!c.failed()) {
            c.agreed();
            c.outcome(out);
        }
    }
}
int main(int argc, char** argv) {
    bool th = mc::thorough();
    std::vector<mc::scenario> s;
    s.push_back({"2 writers", [](mc::ctx& c) { counters(c, 2, false); },
                 th ? 6u : 4u, 8, 2, "2 threads, opposite lock order"});
    s.push_back({"3 writers", [](mc::ctx& c) { counters(c, 3, false); },
                 th ? 3u : 2u, 8, 2, "3 threads"});
    s.push_back({"2 writers, reader", [](mc::ctx& c) { counters(c, 3, true); },
                 th ? 3u : 2u, 8, 2, "3 threads, one reading"});
    return mc::main(argc, argv, PROP, "model_checking",
                    "every schedule within the preemption bound of "
                    "concurrent tickets incrementing two counters; "
                    "non-trivial = distinct commit orders",
                    {}, s);
}
#endif
