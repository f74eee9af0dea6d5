// C01/C02: a 2PC locking shard used by several threads at once, on every
// schedule: the answers must be those of some order of the requests which
// respects their real-time order (linearizability).
#include "mc/sched.hpp"
#include "shard2pc.hpp"

#include <thread>
#ifndef PROP
#define PROP "C02"
#endif

using namespace cbdc;
using namespace sh;

namespace {
    constexpr bool status = PROP[2] == '2';
    const hash_t A = id(10, 1), B = id(127, 2), P = id(127, 4), Q = id(10, 5);
    const hash_t ids[] = {A, B, P, Q};
    // keeps the shard's memory map and its hash in the same state every run
    tx mk(uint32_t n, std::vector<hash_t> in, std::vector<hash_t> out) {
        return tx{h::ctx_tx(id(64, 100 + n), std::move(in), std::move(out))};
    }
    enum class kind { lock, finish, discard, unspent, known };
    struct op {
        kind k{};
        int d{};                // the distributed transaction
        std::vector<bool> dec;  // decided; empty: what was accepted
        hash_t x{};             // asked for
        // observed
        uint64_t from{}, to{};
        std::string got;
    };
    const char* name(kind k) {
        static const char* n[]
            = {"lock", "apply", "discard", "unspent", "known"};
        return n[int(k)];
    }
    std::string what(const op& o) {
        return std::string(name(o.k))
             + (o.k == kind::unspent || o.k == kind::known
                    ? "(" + h::hx(o.x).substr(0, 4) + ")"
                    : mc::strf("(dtx%d)", o.d))
             + "=" + o.got;
    }
    // Is there an order?
    bool explain(const std::vector<std::vector<op>>& th,
                 std::vector<size_t> at,
                 const model& m,
                 const std::vector<std::vector<tx>>& dtx,
                 const std::string& fin,
                 std::set<std::string>& seen) {
        std::string k = m.key();
        bool end = true;
        uint64_t first = UINT64_MAX;
        for(size_t t = 0; t < th.size(); t++) {
            k += mc::strf(";%zu", at[t]);
            if(at[t] < th[t].size()) {
                end = false;
                first = std::min(first, th[t][at[t]].to);
            }
        }
        if(end) {
            std::string f;
            for(auto& x : ids) {
                f += m.free.count(x) != 0 ? '1' : '0';
            }
            return f == fin;
        }
        if(!seen.insert(k).second) {
            return false;
        }
        for(size_t t = 0; t < th.size(); t++) {
            if(at[t] == th[t].size() || th[t][at[t]].from > first) {
                continue;
            }
            auto& o = th[t][at[t]];
            auto n = m;
            std::string want;
            switch(o.k) {
                case kind::lock: {
                    auto& l = dtx[size_t(o.d)];
                    want = bits(n.lock(o.d, l,
                                       std::vector<bool>(l.size(), true)));
                    break;
                }
                case kind::finish: {
                    auto dec = o.dec;
                    n.apply(o.d, dec);
                    want = "1";
                    break;
                }
                case kind::discard:
                    n.applied.erase(o.d);
                    want = "1";
                    break;
                case kind::unspent:
                    want = n.free.count(o.x) != 0 || n.locked.count(o.x) != 0
                             ? "1"
                             : "0";
                    break;
                case kind::known: {
                    bool have = false;
                    for(auto& y : n.done) {
                        have = have || y == o.x;
                    }
                    want = have ? "1" : "0";
                    break;
                }
            }
            if(want != o.got) {
                continue;
            }
            auto at2 = at;
            at2[t]++;
            if(explain(th, at2, n, dtx, fin, seen)) {
                return true;
            }
        }
        return false;
    }
    void conc(mc::ctx& c,
              bool repl,
              std::vector<std::vector<tx>> dtx,
              std::vector<std::vector<op>> th) {
        config::options o;
        o.m_attestation_threshold = 0;
        auto did = [](int d) {
            return id(uint8_t(200 + d), 900 + uint32_t(d));
        };
        sched::options so;
        std::string fin;
        sched::run(c, so, [&] {
            sut s(repl, {10, 127}, 2, "", o);
            auto l = std::vector<tx>{mk(99, {}, {A, B})};
            auto res = s.lock(l, id(240));
            if(!res.has_value() || !s.apply({true}, id(240))
               || !s.discard(id(240))) {
                sched::fail("seed", "minting transaction refused");
            }
            uint64_t clock = 0;
            std::vector<std::thread> ts;
            for(auto& ops : th) {
                ts.emplace_back([&s, &ops, &clock, &dtx, &did] {
                    std::map<int, std::vector<bool>> mine;
                    auto tick = [&clock] {
                        sched::rt_guard g;
                        return ++clock;
                    };
                    for(auto& p : ops) {
                        p.from = tick();
                        switch(p.k) {
                            case kind::lock: {
                                auto r
                                    = s.lock(dtx[size_t(p.d)], did(p.d));
                                p.got = r.has_value() ? bits(*r) : "none";
                                if(r.has_value()) {
                                    mine[p.d] = *r;
                                }
                                break;
                            }
                            case kind::finish:
                                if(p.dec.empty()) {
                                    p.dec = mine[p.d];
                                }
                                p.got
                                    = s.apply(p.dec, did(p.d)) ? "1" : "0";
                                break;
                            case kind::discard:
                                p.got = s.discard(did(p.d)) ? "1" : "0";
                                break;
                            case kind::unspent: {
                                auto r = s.m_shard->check_unspent(p.x);
                                p.got = r.has_value() ? (*r ? "1" : "0")
                                                      : "none";
                                break;
                            }
                            case kind::known: {
                                auto r = s.m_shard->check_tx_id(p.x);
                                p.got = r.has_value() ? (*r ? "1" : "0")
                                                      : "none";
                                break;
                            }
                        }
                        p.to = tick();
                    }
                });
            }
            for(auto& t : ts) {
                t.join();
            }
            uint32_t n = 0;
            for(auto& x : ids) {
                // spendable now?
                auto r = s.lock({mk(500 + n, {x}, {})}, id(250, 700 + n));
                n++;
                fin += r.has_value() && r->size() == 1 && (*r)[0] ? '1'
                                                                   : '0';
            }
        });
        if(c.failed()) {
            return;
        }
        model m;
        m.lo = 10;
        m.hi = 127;
        m.cache = 2;
        m.free = {A, B};
        m.done = {mk(99, {}, {}).m_tx.m_id};
        std::string text;
        for(size_t t = 0; t < th.size(); t++) {
            text += mc::strf(" thread %zu:", t);
            for(auto& p : th[t]) {
                text += " " + what(p)
                      + mc::strf("@%d-%d", int(p.from), int(p.to));
            }
        }
        std::set<std::string> seen;
        if(!explain(th, std::vector<size_t>(th.size()), m, dtx, fin, seen)) {
            c.fail("not-linearizable",
                   "no order of the requests explains the answers:%s; "
                   "spendable at the end: %s",
                   text.c_str(), fin.c_str());
            return;
        }
        c.agreed();
        std::string out = fin;
        for(auto& l : th) {
            for(auto& p : l) {
                out += " " + p.got;
            }
        }
        c.outcome(out);
    }
    op L(int d) {
        return {kind::lock, d};
    }
    op F(int d, std::vector<bool> dec = {}) {
        return {kind::finish, d, std::move(dec)};
    }
    op D(int d) {
        return {kind::discard, d};
    }
    op U(const hash_t& x) {
        return {kind::unspent, 0, {}, x};
    }
    op N(uint32_t n) {
        return {kind::known, 0, {}, id(64, 100 + n)};
    }
}
int main(int argc, char** argv) {
    bool th = mc::thorough();
    std::vector<mc::scenario> s;
    uint32_t b = th ? 6 : (status ? 3 : 4);
    auto add = [&](const char* n, bool repl, std::vector<std::vector<tx>> dtx,
                   std::vector<std::vector<op>> ops) {
        s.push_back({n,
                     [=](mc::ctx& c) {
                         conc(c, repl, dtx, ops);
                     },
                     b, 8, 10,
                     mc::strf("%zu threads, every schedule with up to %u "
                              "preemptions",
                              ops.size(), b)});
    };
    // moves A to P, moves A and B to Q
    std::vector<tx> ap{mk(1, {A}, {P})}, abq{mk(2, {A, B}, {Q})};
    std::vector<tx> two{mk(3, {A}, {P}), mk(4, {B}, {Q})};
    if(status) {
        for(int r = 0; r < 2; r++) {
            auto nm = [&](const char* x) {
                static std::deque<std::string> keep;
                keep.push_back(std::string(x) + (r != 0 ? ", replicated" : ""));
                return keep.back().c_str();
            };
            bool repl = r != 0;
            add(nm("query during a commit"), repl, {ap},
                {{L(0), F(0), D(0)}, {U(A), U(P), N(1)}});
            add(nm("query during an abort"), repl, {ap},
                {{L(0), F(0, {false}), D(0)}, {U(A), U(P), U(A)}});
            add(nm("query during a batch"), repl, {two},
                {{L(0), F(0, {true, false})}, {U(A), U(B), U(P), U(Q)}});
            add(nm("two queries"), repl, {ap},
                {{L(0), F(0)}, {U(A), N(1)}, {U(P), U(A)}});
            add(nm("history overflows"), repl,
                {ap, {mk(5, {B}, {Q})}, {mk(6, {P}, {A})}},
                {{L(0), F(0), L(1), F(1), L(2), F(2)}, {N(1), N(5), N(1)}});
        }
    } else {
        add("two coordinators", false, {ap, abq},
            {{L(0), F(0), D(0)}, {L(1), F(1), D(1)}});
        add("two coordinators, one gives up", false, {abq, ap},
            {{L(0), F(0, {false}), D(0)}, {L(1), F(1)}});
        add("batches", false, {two, {mk(5, {B}, {}), mk(6, {P}, {A})}},
            {{L(0), F(0)}, {L(1), F(1)}});
        add("repeated requests", false, {ap},
            {{L(0), F(0)}, {L(0)}});
        add("three coordinators", false, {ap, abq, {mk(5, {B}, {P})}},
            {{L(0), F(0)}, {L(1), F(1)}, {L(2), F(2)}});
    }
    return mc::main(argc, argv, PROP, "model_checking",
                    "every schedule of the threads within the preemption "
                    "bound; answers checked for linearizability",
                    {}, s);
}
