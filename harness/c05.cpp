// C05: the atomizer against a reference that keeps the whole history.
#include "common.hpp"
#include "uhs/atomizer/atomizer/atomizer.hpp"
#include "uhs/atomizer/watchtower/tx_error_messages.hpp"
#include "util/serialization/buffer_serializer.hpp"

#include <algorithm>
#include <variant>
using namespace h;
namespace {
    struct tx {
        const char* name;
        std::vector<int> in;
    };
    const std::vector<tx> txs{{"t0", {0}},
                              {"t1", {0}},
                              {"t2", {1, 2}},
                              {"t3", {2}},
                              {"mint", {}},
                              {"t5", {0, 1, 3}}};
    transaction::compact_tx ctx(int t) {
        std::vector<hash_t> i;
        for(auto x : txs[size_t(t)].in) {
            i.push_back(id(uint8_t(x), 1));
        }
        return ctx_tx(id(uint8_t(100 + t), 2), i, {id(uint8_t(200 + t), 3)});
    }
    int tx_of(const hash_t& h) {
        for(int t = 0; t < int(txs.size()); t++) {
            if(ctx(t).m_id == h) {
                return t;
            }
        }
        return -1;
    }
    struct res { // ok, stale, spent(ids)
        char k{'o'};
        std::set<int> ids;
        bool operator==(const res& o) const {
            return k == o.k && ids == o.ids;
        }
        std::string str() const {
            std::string s = k == 'o' ? "accepted"
                          : k == 's' ? "rejected: too old"
                          : k == 'd' ? "rejected: spent"
                                     : "odd error";
            for(auto i : ids) {
                s += mc::strf(" %d", i);
            }
            return s;
        }
    };
    struct model {
        uint64_t depth, best;
        // completed: (transaction, height of the chain then)
        std::vector<std::pair<int, uint64_t>> done;
        std::vector<int> next; // for the next block
        // (height, transaction) -> attested inputs
        std::map<std::pair<uint64_t, int>, std::set<int>> pend;
        std::set<int> spent_since(const tx& t, uint64_t h) const {
            std::set<int> r;
            for(auto& [d, at] : done) {
                if(at >= h) {
                    for(auto i : txs[size_t(d)].in) {
                        if(std::count(t.in.begin(), t.in.end(), i) != 0) {
                            r.insert(i);
                        }
                    }
                }
            }
            return r;
        }
        bool stale(int t, uint64_t h) const {
            return (h > best || best - h > depth) && !txs[size_t(t)].in.empty();
        }
        res complete(int t, uint64_t h) {
            if(stale(t, h)) {
                return {'s', {}};
            }
            auto sp = spent_since(txs[size_t(t)], h);
            if(!sp.empty()) {
                return {'d', sp};
            }
            done.emplace_back(t, best);
            next.push_back(t);
            return {};
        }
        uint64_t lowest() const {
            return best > depth ? best - depth : 0;
        }
        res attest(int t, uint64_t h, const std::set<int>& a) {
            if(stale(t, h)) {
                return {'s', {}};
            }
            if(txs[size_t(t)].in.empty() && (h > best || h < lowest())) {
                h = lowest(); // where it is remembered does not matter
            }
            pend[{h, t}].insert(a.begin(), a.end());
            std::set<int> all;
            uint64_t oldest = best;
            for(auto& [k, v] : pend) {
                if(k.second == t) {
                    all.insert(v.begin(), v.end());
                    oldest = std::min(oldest, k.first);
                }
            }
            if(all.size() != txs[size_t(t)].in.size()) {
                return {};
            }
            auto sp = spent_since(txs[size_t(t)], oldest);
            if(!sp.empty()) {
                return {'d', sp};
            }
            for(auto it = pend.begin(); it != pend.end();) {
                it = it->first.second == t ? pend.erase(it) : std::next(it);
            }
            done.emplace_back(t, best);
            next.push_back(t);
            return {};
        }
        // errors for transactions ageing out
        std::multiset<int> block() {
            std::multiset<int> r;
            auto gone = best - depth; // may wrap below 0: no such height
            for(auto it = pend.begin(); it != pend.end();) {
                if(best >= depth && it->first.first == gone) {
                    r.insert(it->first.second);
                    it = pend.erase(it);
                } else {
                    ++it;
                }
            }
            next.clear();
            best++;
            return r;
        }
    };
    res conv(const std::optional<cbdc::watchtower::tx_error>& e, int t) {
        if(!e.has_value()) {
            return {};
        }
        auto info = e->info();
        if(e->tx_id() != ctx(t).m_id) {
            return {'x', {}};
        }
        if(std::holds_alternative<cbdc::watchtower::tx_error_stxo_range>(
               info)) {
            return {'s', {}};
        }
        if(auto* p = std::get_if<cbdc::watchtower::tx_error_inputs_spent>(
               &info)) {
            res r{'d', {}};
            for(auto& x : p->input_uhs_ids()) {
                r.ids.insert(x == id(x[0], 1) ? int(x[0]) : -1);
            }
            return r;
        }
        return {'x', {}};
    }
    struct op {
        int k; // 0 block, 1 complete, 2 attest
        int t{};
        uint64_t h{};
        std::set<int> a;
    };
    // mode: 1 complete transactions only (as the replicated state machine
    // drives it), 2 attestations only, 3 both.
    void run(mc::ctx& c, uint64_t start, size_t depth, uint32_t ops, int mode,
             bool honest, const std::vector<int>& use, bool edge,
             bool reload) {
        auto now = std::make_unique<cbdc::atomizer::atomizer>(start, depth);
        model m{depth, start, {}, {}, {}};
        std::string hist;
        // per completed transaction: block it must be in
        std::vector<std::pair<int, uint64_t>> accepted;
        for(uint32_t left = ops;; left--) {
            if(reload) {
                // the state written out and read back is the same state
                auto buf = now->serialize();
                auto rd = cbdc::buffer_serializer(buf);
                auto r = std::make_unique<cbdc::atomizer::atomizer>(0, depth);
                r->deserialize(rd);
                if(!rd || !(*r == *now)) {
                    c.fail("reload", "after%s: the state read back differs",
                           hist.c_str());
                    return;
                }
                now = std::move(r);
            }
            auto& at = *now;
            if(at.height() != m.best
               || at.pending_transactions() != m.next.size()) {
                c.fail("state",
                       "after%s: height %llu, %zu pending; must be %llu, %zu",
                       hist.c_str(),
                       (unsigned long long)at.height(),
                       at.pending_transactions(),
                       (unsigned long long)m.best,
                       m.next.size());
                return;
            }
            c.agreed();
            auto ser = at.serialize();
            std::string key(static_cast<const char*>(ser.data()), ser.size());
            key += '/';
            for(auto& [t, w] : m.done) {
                key += mc::strf("%d@%d ", t, int(w));
            }
            key += '/';
            for(auto& [k, a] : m.pend) {
                key += mc::strf("%d@%d:", k.second, int(k.first));
                for(auto i : a) {
                    key += mc::strf("%d ", i);
                }
            }
            if(left == 0 || !c.visit(key, left)) {
                c.outcome(key.substr(key.rfind('/', key.rfind('/') - 1))
                          + std::to_string(m.pend.size()) + "/"
                          + std::to_string(m.best));
                return;
            }
            std::vector<op> menu;
            menu.push_back({0, 0, 0, {}});
            for(auto t : use) {
                auto lo = m.best > depth + 1 ? m.best - depth - 1 : 0;
                for(auto hh = edge ? lo : m.lowest();
                    hh <= m.best + (edge ? 1 : 0);
                    hh++) {
                    // a shard that attests at height hh has seen no block up
                    // to hh spend the input
                    bool seen = false;
                    for(auto& [d, w] : m.done) {
                        for(auto i : txs[size_t(d)].in) {
                            seen |= w < hh
                                 && std::count(txs[size_t(t)].in.begin(),
                                               txs[size_t(t)].in.end(),
                                               i)
                                        != 0;
                        }
                    }
                    if(honest && seen) {
                        continue;
                    }
                    if((mode & 1) != 0) {
                        menu.push_back({1, t, hh, {}});
                    }
                    if((mode & 2) != 0) {
                        auto n = txs[size_t(t)].in.size();
                        for(uint32_t s = n == 0 ? 0 : 1; s < (1U << n); s++) {
                            std::set<int> a;
                            for(uint32_t k = 0; k < n; k++) {
                                if((s & (1U << k)) != 0) {
                                    a.insert(int(k));
                                }
                            }
                            menu.push_back({2, t, hh, a});
                        }
                    }
                }
            }
            auto& o = menu[c.choose(uint32_t(menu.size()), "operation")];
            if(o.k == 0) {
                auto want = m.next;
                auto [b, errs] = at.make_block();
                auto werr = m.block();
                hist += " block";
                std::vector<int> got;
                for(auto& x : b.m_transactions) {
                    auto t = tx_of(x.m_id);
                    if(t < 0 || !(x == ctx(t)) || x.m_inputs != ctx(t).m_inputs
                       || x.m_uhs_outputs != ctx(t).m_uhs_outputs) {
                        t = -1;
                    }
                    got.push_back(t);
                }
                if(got != want || b.m_height != m.best) {
                    c.fail("block",
                           "after%s: block %llu with %zu transactions; must "
                           "be %llu with the %zu accepted since the last, in "
                           "that order",
                           hist.c_str(),
                           (unsigned long long)b.m_height,
                           got.size(),
                           (unsigned long long)m.best,
                           want.size());
                    return;
                }
                std::multiset<int> gerr;
                for(auto& e : errs) {
                    auto t = tx_of(e.tx_id());
                    auto info = e.info();
                    gerr.insert(
                        std::holds_alternative<
                            cbdc::watchtower::tx_error_incomplete>(info)
                            ? t
                            : -2);
                }
                if(gerr != werr) {
                    c.fail("aged-out",
                           "after%s: %zu transactions reported incomplete, "
                           "must be %zu",
                           hist.c_str(),
                           gerr.size(),
                           werr.size());
                    return;
                }
                // no two of the remembered completed transactions conflict
                if(honest) {
                    for(size_t x = 0; x < m.done.size(); x++) {
                        for(size_t y = x + 1; y < m.done.size(); y++) {
                            for(auto i : txs[size_t(m.done[x].first)].in) {
                                auto& z = txs[size_t(m.done[y].first)].in;
                                if(std::count(z.begin(), z.end(), i) != 0) {
                                    c.fail("double-spend",
                                           "after%s: input %d spent twice",
                                           hist.c_str(),
                                           i);
                                    return;
                                }
                            }
                        }
                    }
                }
                continue;
            }
            res r, w;
            if(o.k == 1) {
                hist += mc::strf(" complete(%s@%d)", txs[size_t(o.t)].name, int(o.h));
                r = conv(at.insert_complete(o.h, ctx(o.t)), o.t);
                w = m.complete(o.t, o.h);
            } else {
                hist += mc::strf(" attest(%s@%d:", txs[size_t(o.t)].name, int(o.h));
                std::unordered_set<uint32_t> a;
                for(auto i : o.a) {
                    a.insert(uint32_t(i));
                    hist += mc::strf("%d", i);
                }
                hist += ")";
                r = conv(at.insert(o.h, ctx(o.t), a), o.t);
                w = m.attest(o.t, o.h, o.a);
            }
            if(!(r == w)) {
                c.fail("answer",
                       "spent history %zu, start %d,%s: %s; must be %s",
                       depth,
                       int(start),
                       hist.c_str(),
                       r.str().c_str(),
                       w.str().c_str());
                return;
            }
        }
    }
}
int main(int argc, char** argv) {
    bool T = mc::thorough();
    std::vector<mc::scenario> s;
    auto add = [&](const char* n, uint64_t st, size_t dep, uint32_t ops,
                   int mode, bool honest, std::vector<int> use, bool edge,
                   bool reload = false) {
        s.push_back({mc::strf("%s, spent history %zu", n, dep),
                     [=](mc::ctx& c) {
                         run(c, st, dep, ops, mode, honest, use, edge,
                             reload);
                     },
                     0, 8, 2,
                     mc::strf("every sequence of %u operations", ops)});
    };
    for(size_t d : {0, 1, 2, 3}) {
        add("complete", 10, d, T ? 8 : 6, 1, false, {0, 1, 2, 3, 4}, true);
        add("complete, honest shards", 10, d, T ? 9 : 7, 1, true,
            {0, 1, 2, 3, 5}, false);
        add("attestations", 10, d, T ? 6 : 4, 2, false, {0, 2, 3, 4}, true);
        add("attestations, honest shards", 10, d, T ? 7 : 5, 2, true,
            {0, 1, 2}, false);
    }
    for(size_t d : {1, 2}) {
        add("both", 10, d, T ? 6 : 4, 3, false, {0, 1, 2, 3, 4}, true);
        add("written out and read back after each operation", 10, d,
            T ? 6 : 4, 3, false, {0, 1, 2, 3, 4}, true, true);
        add("from genesis", 0, d, T ? 7 : 5, 3, false, {0, 1, 2}, true);
    }
    return mc::main(argc, argv, "C05", "model_checking",
                    "every sequence of attestation notifications, complete "
                    "transactions and blocks, each answer and block compared "
                    "with a reference that keeps the whole history; "
                    "non-trivial = distinct reference histories",
                    {"attested input positions are within the transaction "
                     "(the front end checks them)",
                     "the no-double-spend scenarios assume shards attest an "
                     "input at height h only if no block up to h spent it"},
                    s);
}
