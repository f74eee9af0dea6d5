// C01/C02: every sequence of lock / apply / discard / repeat requests of three
// competing distributed transactions, on the real shard, against the model.
#include "shard2pc.hpp"
#include "uhs/transaction/validation.hpp"
#include "util/serialization/ostream_serializer.hpp"

#include <fstream>
#ifndef PROP
#define PROP "C01"
#endif

using namespace cbdc;
using namespace sh;

namespace {
    constexpr bool status = PROP[2] == '2'; // C02 looks at the status queries
    // The shard's range is 10..127; edges are used on purpose.
    const hash_t A = id(10, 1), B = id(127, 2), C = id(64, 3), P = id(127, 4),
                 Q = id(10, 5), X = id(128, 6), Y = id(9, 7);

    tx mk(const hash_t& i, std::vector<hash_t> in, std::vector<hash_t> out) {
        return tx{h::ctx_tx(i, std::move(in), std::move(out))};
    }
    // Lists of transactions a distributed transaction may carry.
    std::vector<std::vector<tx>> menu(uint32_t d) {
        auto t = [&](uint8_t k, uint32_t n) {
            return id(k, 100 + d * 10 + n);
        };
        return {
            {mk(t(10, 0), {A}, {P, X})},
            {mk(t(127, 1), {B}, {Q})},
            {mk(t(20, 2), {A}, {P}), mk(t(128, 3), {A}, {Q})},
            {mk(t(9, 4), {X, A, Y}, {P, Q}), mk(t(30, 5), {B, A}, {C})},
            {mk(t(40, 6), {A, B}, {C, Y}), mk(t(41, 7), {P}, {A})},
            {mk(t(50, 8), {B, X}, {}), mk(t(51, 9), {C}, {Q})},
            {mk(t(60, 10), {X}, {Y, C})},
        };
    }
    const hash_t all_ids[] = {A, B, C, P, Q, X, Y};

    struct run {
        mc::ctx& c;
        sut s;
        model m;
        std::vector<std::vector<tx>> dtx;
        std::vector<std::vector<bool>> att;
        std::string hist;
        std::map<int, std::vector<bool>> finished_lock;

        run(mc::ctx& cc,
            bool repl,
            size_t cache,
            const std::string& pre,
            const config::options& o)
            : c(cc),
              s(repl, {10, 127}, cache, pre, o) {
            m.lo = 10;
            m.hi = 127;
            m.cache = cache;
        }
        hash_t did(int d) const {
            return id(uint8_t(200 + d), 900 + uint32_t(d));
        }
        bool check_state(const char* where) {
            for(auto& x : all_ids) {
                auto r = s.m_shard->check_unspent(x);
                bool want = m.free.count(x) != 0 || m.locked.count(x) != 0;
                if(!r.has_value() || *r != want) {
                    c.fail("unspent",
                           "after %s: check_unspent(%s) says %d, must be %d",
                           where,
                           h::hx(x).c_str(),
                           r.has_value() ? int(*r) : -1,
                           int(want));
                    return false;
                }
            }
            if(status) {
                std::set<hash_t> known(m.done.begin(), m.done.end());
                for(auto& l : dtx) {
                    for(auto& t : l) {
                        auto r = s.m_shard->check_tx_id(t.m_tx.m_id);
                        bool want = known.count(t.m_tx.m_id) != 0;
                        if(!r.has_value() || *r != want) {
                            c.fail("txid",
                                   "after %s: check_tx_id(%s) says %d, must "
                                   "be %d",
                                   where,
                                   h::hx(t.m_tx.m_id).c_str(),
                                   r.has_value() ? int(*r) : -1,
                                   int(want));
                            return false;
                        }
                    }
                }
            }
            c.agreed();
            return true;
        }
        // one operation; false on violation
        bool lock(int d) {
            auto r = s.lock(dtx[size_t(d)], did(d));
            auto w = m.lock(d, dtx[size_t(d)], att[size_t(d)]);
            c.note("lock(dtx%d) -> %s",
                   d,
                   r ? bits(*r).c_str() : "no answer");
            if(!r.has_value() || *r != w) {
                c.fail("lock-result",
                       "lock of dtx%d answered %s, must be %s",
                       d,
                       r ? bits(*r).c_str() : "nothing",
                       bits(w).c_str());
                return false;
            }
            return check_state("lock");
        }
        bool apply(int d, const std::vector<bool>& dec) {
            c.note("apply(dtx%d, %s)", d, bits(dec).c_str());
            auto r = s.apply(dec, did(d));
            m.apply(d, dec);
            if(!r) {
                c.fail("apply-result", "apply of dtx%d failed", d);
                return false;
            }
            return check_state("apply");
        }
        bool discard(int d) {
            c.note("discard(dtx%d)", d);
            auto r = s.discard(did(d));
            m.applied.erase(d);
            if(!r) {
                c.fail("discard-result", "discard of dtx%d failed", d);
                return false;
            }
            return check_state("discard");
        }
        // What can still be spent, asked of the shard itself.
        void probe() {
            int n = 0;
            for(auto& x : all_ids) {
                std::vector<tx> l{mk(id(1, uint32_t(500 + n)), {x}, {})};
                auto r = s.lock(l, id(250, uint32_t(700 + n++)));
                bool want = !m.in(x) || m.free.count(x) != 0;
                if(!r.has_value() || r->size() != 1 || (*r)[0] != want) {
                    c.fail("final-lock",
                           "at the end %s is %slockable, must be %d",
                           h::hx(x).c_str(),
                           r && r->size() == 1 && (*r)[0] ? "" : "not ",
                           int(want));
                    return;
                }
            }
        }
    };

    void sequences(mc::ctx& c,
                   bool repl,
                   uint32_t ndtx,
                   uint32_t depth,
                   size_t cache) {
        config::options o;
        o.m_attestation_threshold = 0;
        run r(c, repl, cache, "", o);
        // seed: A and B exist, C does not
        {
            std::vector<tx> l{mk(id(1, 99), {}, {A, B, X})};
            auto res = r.s.lock(l, id(240));
            bool ok = res.has_value() && res->size() == 1 && (*res)[0];
            ok = ok && r.s.apply({true}, id(240));
            ok = ok && r.s.discard(id(240));
            if(!ok) {
                c.fail("seed", "minting transaction refused");
                return;
            }
            r.m.free = {A, B};
        }
        uint32_t prev = 0;
        for(uint32_t d = 0; d < ndtx; d++) {
            auto l = menu(d);
            // dtxs are interchangeable: pick lists in non-decreasing order
            auto k = prev + c.choose(uint32_t(l.size()) - prev, "tx list");
            prev = k;
            r.dtx.push_back(l[k]);
            r.att.emplace_back(l[k].size(), true);
        }
        std::map<int, std::vector<bool>> decided;
        std::string last, last2;
        for(uint32_t step = 0; step < depth; step++) {
            // requests a coordinator may send now
            struct op {
                int kind, d;
                std::vector<bool> dec;
            };
            std::vector<op> ops;
            for(int d = 0; d < int(ndtx); d++) {
                bool prep = r.m.results.count(d) != 0;
                bool appl = r.m.applied.count(d) != 0;
                if(prep) {
                    auto& res = r.m.results[d];
                    // only accepted transactions may be completed
                    size_t n = 0;
                    for(auto b : res) {
                        n += b;
                    }
                    for(uint32_t mask = 0; mask < (1U << n); mask++) {
                        std::vector<bool> dec;
                        size_t k = 0;
                        for(auto b : res) {
                            dec.push_back(b && ((mask >> k) & 1U) != 0);
                            k += b;
                        }
                        ops.push_back({1, d, dec});
                    }
                    ops.push_back({0, d, {}}); // repeated lock
                } else if(appl) {
                    ops.push_back({2, d, {}});
                    ops.push_back({1, d, decided[d]}); // repeated apply
                } else if(decided.count(d) == 0) {
                    ops.push_back({0, d, {}});
                } else {
                    ops.push_back({2, d, {}}); // repeated discard
                }
            }
            auto k = c.choose(uint32_t(ops.size()), "request");
            auto& o2 = ops[k];
            bool ok = false;
            if(o2.kind == 0) {
                ok = r.lock(o2.d);
            } else if(o2.kind == 1) {
                decided[o2.d] = o2.dec;
                ok = r.apply(o2.d, o2.dec);
            } else {
                ok = r.discard(o2.d);
            }
            if(!ok) {
                return;
            }
            last2 = last;
            last = mc::strf("%d.%d.", o2.kind, o2.d) + bits(o2.dec);
            std::string key = r.m.key() + "#" + last + "#" + last2 + "#";
            for(auto& l : r.dtx) {
                key += h::hx(l[0].m_tx.m_id);
            }
            for(auto& [d, x] : decided) {
                key += mc::strf("%d", d) + bits(x);
            }
            if(step + 1 < depth && !c.visit(key, depth - step)) {
                return;
            }
        }
        r.probe();
        c.outcome(r.m.key());
    }

    // attestation rules decide acceptance, nothing else changes
    void attested(mc::ctx& c, bool repl) {
        config::options o;
        o.m_attestation_threshold = 0;
        o.m_sentinel_public_keys.insert(h::pub(1));
        o.m_sentinel_public_keys.insert(h::pub(2));
        o.m_attestation_threshold = 1 + c.choose(2, "threshold");
        auto pre = mc::scratch() + "/preseed";
        {
            std::ofstream f(pre, std::ios::binary);
            auto ser = ostream_serializer(f);
            std::unordered_set<hash_t, hashing::null> u{A, B, C};
            ser << u;
        }
        run r(c, repl, 3, pre, o);
        r.m.free = {A, B, C};
        if(!r.check_state("preseed")) {
            return;
        }
        auto l = menu(0);
        std::vector<tx> txs{mk(id(20, 1), {A}, {P}),
                            mk(id(21, 2), {A, B}, {Q})};
        std::vector<bool> att;
        for(auto& t : txs) {
            size_t valid = 0;
            bool bad = false;
            auto k = c.choose(7, "attestations");
            auto other = h::ctx_tx(id(99), {A}, {P});
            auto add = [&](uint8_t key) {
                t.m_tx.m_attestations.insert(
                    t.m_tx.sign(h::secp(), h::priv(key)));
                valid++;
            };
            switch(k) {
                case 0:
                    break;
                case 1:
                    add(1);
                    break;
                case 2:
                    add(1);
                    add(2);
                    break;
                case 3: { // signature over something else
                    add(2);
                    auto a = other.sign(h::secp(), h::priv(1));
                    t.m_tx.m_attestations.insert(a);
                    bad = true;
                    break;
                }
                case 4: { // not a sentinel
                    add(1);
                    t.m_tx.m_attestations.insert(
                        t.m_tx.sign(h::secp(), h::priv(3)));
                    bad = true;
                    break;
                }
                case 5: { // someone else's signature under a sentinel key
                    auto a = t.m_tx.sign(h::secp(), h::priv(1));
                    t.m_tx.m_attestations.insert({h::pub(2), a.second});
                    add(1);
                    bad = true;
                    break;
                }
                default: { // altered after attestation
                    add(1);
                    add(2);
                    t.m_tx.m_uhs_outputs.push_back(C);
                    bad = true;
                    break;
                }
            }
            att.push_back(!bad && valid >= o.m_attestation_threshold);
        }
        r.dtx = {txs};
        r.att = {att};
        if(!r.lock(0)) {
            return;
        }
        std::vector<bool> dec;
        for(auto b : r.m.results[0]) {
            dec.push_back(b && c.flip("complete"));
        }
        if(!r.apply(0, dec)) {
            return;
        }
        c.outcome(r.m.key());
    }

    void stopped(mc::ctx& c) {
        config::options o;
        o.m_attestation_threshold = 0;
        run r(c, false, 3, "", o);
        r.dtx = {{mk(id(20, 1), {}, {A})}, {mk(id(20, 2), {A}, {P})}};
        r.att = {{true}, {true}};
        auto n = c.choose(4, "stop before step");
        for(uint32_t k = 0; k < 4; k++) {
            if(k == n) {
                r.s.m_shard->stop();
                auto a = r.s.lock(r.dtx[1], r.did(1));
                bool b = r.s.apply({true}, r.did(0));
                bool d = r.s.discard(r.did(0));
                if(a.has_value() || b || d) {
                    c.fail("stopped", "request accepted after stop");
                    return;
                }
                r.check_state("stop");
                c.outcome(r.m.key());
                return;
            }
            if(k == 0 && !r.lock(0)) {
                return;
            }
            if(k == 1 && !r.apply(0, {true})) {
                return;
            }
            if(k == 2 && !r.discard(0)) {
                return;
            }
        }
    }
}

int main(int argc, char** argv) {
    bool th = mc::thorough();
    std::vector<mc::scenario> s;
    auto add = [&](const char* n, mc::body f, uint32_t w, const char* b) {
        s.push_back({n, std::move(f), 0, w, 2, b});
    };
    uint32_t d2 = th ? 9 : 7, d3 = th ? 8 : 6;
    add(
        "two-dtx",
        [=](mc::ctx& c) {
            sequences(c, false, 2, d2, 2);
        },
        4,
        "2 dtxs from 7 transaction lists, all request sequences to depth 7 (9)");
    add(
        "three-dtx",
        [=](mc::ctx& c) {
            sequences(c, false, 3, d3, 2);
        },
        8,
        "3 dtxs from 7 transaction lists, depth 6 (8)");
    add(
        "cache-1",
        [=](mc::ctx& c) {
            sequences(c, false, 2, th ? 7 : 6, 1);
        },
        2,
        "completed-transaction history of 1");
#ifdef WITH_SM
    add(
        "replicated",
        [=](mc::ctx& c) {
            sequences(c, true, 2, th ? 7 : 6, 3);
        },
        4,
        "the same through the replicated state machine and wire format");
    add(
        "attested-replicated",
        [](mc::ctx& c) {
            attested(c, true);
        },
        1,
        "preseeded shard, every attestation pattern");
#endif
    add(
        "attested",
        [](mc::ctx& c) {
            attested(c, false);
        },
        1,
        "preseeded shard, every attestation pattern");
    add("stopped", stopped, 1, "stop before every step");
    return mc::main(
        argc,
        argv,
        PROP,
        "model_checking",
        "every sequence of lock/apply/discard requests (with repeats) of "
        "competing distributed transactions over colliding UHS IDs and range "
        "edges; non-trivial = distinct reached states of the reference model",
        {"a coordinator sends apply only after lock and before discard, and "
         "completes only transactions the shard accepted",
         "IDs outside the alphabet behave like those in it"},
        s);
}
