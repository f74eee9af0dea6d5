// C10: watchtower answers against a reference that keeps plain lists.
#include "common.hpp"
#include "uhs/atomizer/watchtower/watchtower.hpp"
#include "uhs/atomizer/watchtower/status_update.hpp"
#ifdef CONCURRENT
#include "mc/sched.hpp"

#include <thread>
#endif

#include <deque>
using namespace h;
using namespace cbdc::watchtower;
using tower = cbdc::watchtower::watchtower;
namespace {
    struct tx {
        const char* name;
        std::vector<int> in, out;
    };
    // ids 0..9; 8 is mentioned by nobody
    const std::vector<tx> txs{
        {"t0", {0}, {2}},
        {"t1", {2}, {3}},       // spends t0's output
        {"t2", {0, 1}, {4, 5}}, // conflicts with t0
        {"t3", {1}, {6}},
        {"t4", {3}, {7}},
    };
    hash_t uid(int k) {
        return id(uint8_t(k), uint32_t(k) + 1);
    }
    hash_t tid(int k) {
        return id(uint8_t(100 + k), 50 + uint32_t(k));
    }
    transaction::compact_tx ctx(int t) {
        std::vector<hash_t> i, o;
        for(auto x : txs[size_t(t)].in) {
            i.push_back(uid(x));
        }
        for(auto x : txs[size_t(t)].out) {
            o.push_back(uid(x));
        }
        return ctx_tx(tid(t), i, o);
    }
    enum kind { sync_, dne, range, incomplete, spent_ };
    const char* kn[] = {"sync", "dne", "range", "incomplete", "spent"};
    struct err {
        int t;
        kind k;
        std::vector<int> ids;
    };
    tx_error make(const err& e) {
        std::vector<hash_t> v;
        std::unordered_set<hash_t, hashing::null> s;
        for(auto x : e.ids) {
            v.push_back(uid(x));
            s.insert(uid(x));
        }
        switch(e.k) {
            case sync_:
                return {tid(e.t), tx_error_sync{}};
            case dne:
                return {tid(e.t), tx_error_inputs_dne{v}};
            case range:
                return {tid(e.t), tx_error_stxo_range{}};
            case incomplete:
                return {tid(e.t), tx_error_incomplete{}};
            default:
                return {tid(e.t), tx_error_inputs_spent{s}};
        }
    }
    struct blk {
        uint64_t h;
        std::vector<int> t;
    };
    struct model {
        size_t kb, ke;
        std::deque<blk> b;
        std::deque<err> e;
        uint64_t best{0};
        std::set<int> done;  // ever committed
        std::set<int> spent; // ever spent
        // committed in a remembered block: spender / creator of id
        bool committed_with(int t, const std::vector<int>& ids) const {
            for(auto& x : b) {
                for(auto y : x.t) {
                    if(y == t) {
                        for(auto i : ids) {
                            for(auto z : txs[size_t(t)].in) {
                                if(z == i) {
                                    return true;
                                }
                            }
                            for(auto z : txs[size_t(t)].out) {
                                if(z == i && last(i) == 2) {
                                    return true;
                                }
                            }
                        }
                    }
                }
            }
            return false;
        }
        // 0 no history, 1 spent, 2 unspent (by remembered blocks)
        int last(int i, uint64_t* h = nullptr, int* by = nullptr) const {
            int r = 0;
            for(auto& x : b) {
                for(auto t : x.t) {
                    for(auto z : txs[size_t(t)].in) {
                        if(z == i) {
                            r = 1;
                            if(h != nullptr) {
                                *h = x.h;
                                *by = t;
                            }
                        }
                    }
                    for(auto z : txs[size_t(t)].out) {
                        if(z == i) {
                            r = 2;
                            if(h != nullptr) {
                                *h = x.h;
                                *by = t;
                            }
                        }
                    }
                }
            }
            return r;
        }
        void block(const blk& x) {
            b.push_back(x);
            if(kb != 0 && b.size() > kb) {
                b.pop_front();
            }
            best = std::max(best, x.h);
            for(auto t : x.t) {
                done.insert(t);
                for(auto i : txs[size_t(t)].in) {
                    spent.insert(i);
                }
            }
        }
        void errors(const std::vector<err>& v) {
            for(auto& x : v) {
                // an error naming inputs of a transaction that a remembered
                // block shows to have been committed is stale
                if((x.k == dne || x.k == spent_)
                   && committed_with(x.t, x.ids)) {
                    continue;
                }
                e.push_back(x);
                if(ke != 0 && e.size() > ke) {
                    e.pop_front();
                }
            }
        }
        // acceptable (status, height) for an id asked about with t
        std::set<std::pair<int, uint64_t>> want(int t, int i) const {
            std::set<std::pair<int, uint64_t>> r;
            uint64_t h{};
            int by{-1};
            int l = last(i, &h, &by);
            if(l != 0 && by == t) {
                return {{int(l == 1 ? search_status::spent
                                    : search_status::unspent),
                         h}};
            }
            bool named_any = false;
            for(auto& x : e) {
                for(auto z : x.ids) {
                    named_any |= z == i;
                }
            }
            for(auto& x : e) {
                if(x.t != t) {
                    continue;
                }
                // several remembered errors for one transaction: any of them
                // explains the answer
                if(x.k == sync_ || x.k == range) {
                    r.insert({int(search_status::internal_error), best});
                } else {
                    bool named = false;
                    for(auto z : x.ids) {
                        named |= z == i;
                    }
                    if(named_any) {
                        r.insert({int(search_status::invalid_input), best});
                    }
                    if(!named) {
                        r.insert({int(search_status::tx_rejected), best});
                    }
                }
            }
            if(r.empty()) {
                r.insert({int(search_status::no_history), best});
            }
            return r;
        }
        std::string key() const {
            std::string k;
            for(auto& x : b) {
                k += mc::strf("b%llu:", (unsigned long long)x.h);
                for(auto t : x.t) {
                    k += char('0' + t);
                }
            }
            for(auto& x : e) {
                k += mc::strf("e%d%d:", x.t, int(x.k));
                for(auto i : x.ids) {
                    k += char('0' + i);
                }
            }
            k += "/";
            for(auto t : done) {
                k += char('0' + t);
            }
            return k + mc::strf("/%llu", (unsigned long long)best);
        }
    };
    struct answer {
        std::vector<std::pair<int, uint64_t>> s;
    };
    // Asks about every transaction in one request; empty string when right.
    std::string ask(tower& w, const model& m, int nt, int ni) {
        tx_id_uhs_ids q;
        for(int t = 0; t < nt; t++) {
            std::vector<hash_t> v;
            for(int i = 0; i < ni; i++) {
                v.push_back(uid((i * 3 + t) % ni == i ? i : i));
            }
            if(t % 2 == 1) {
                std::reverse(v.begin(), v.end());
            }
            q[tid(t)] = v;
        }
        auto r = w.handle_status_update_request(status_update_request{q});
        if(!r) {
            return "no answer";
        }
        auto* p = std::get_if<status_request_check_success>(&r->payload());
        if(p == nullptr) {
            return "wrong kind of answer";
        }
        if(p->states().size() != size_t(nt)) {
            return "answer about a different set of transactions";
        }
        for(auto& [t, v] : q) {
            auto it = p->states().find(t);
            if(it == p->states().end()) {
                return "a transaction is missing from the answer";
            }
            int tn = 0;
            while(tid(tn) != t) {
                tn++;
            }
            if(it->second.size() != v.size()) {
                return mc::strf("%zu states for %zu ids of %s",
                                it->second.size(),
                                v.size(),
                                txs[size_t(tn)].name);
            }
            for(size_t k = 0; k < v.size(); k++) {
                auto& st = it->second[k];
                int in = 0;
                while(uid(in) != v[k]) {
                    in++;
                }
                if(st.uhs_id() != v[k]) {
                    return "states not in the order of the request";
                }
                auto w2 = m.want(tn, in);
                std::pair<int, uint64_t> got{int(st.status()),
                                             st.block_height()};
                if(w2.count(got) == 0) {
                    return mc::strf(
                        "status of id %d for %s is %d at %llu, must be %d at "
                        "%llu",
                        in,
                        txs[size_t(tn)].name,
                        got.first,
                        (unsigned long long)got.second,
                        w2.begin()->first,
                        (unsigned long long)w2.begin()->second);
                }
            }
        }
        auto bh = w.handle_best_block_height_request({});
        auto* bp = std::get_if<best_block_height_response>(&bh->payload());
        if(bp == nullptr || bp->height() != m.best) {
            return "best block height";
        }
        return {};
    }
    std::vector<std::vector<int>> block_menu(const model& m) {
        std::vector<std::vector<int>> r{{}};
        auto can = [&](int t) {
            if(m.done.count(t) != 0) {
                return false;
            }
            for(auto i : txs[size_t(t)].in) {
                if(m.spent.count(i) != 0) {
                    return false;
                }
                if(i >= 2) { // created by another transaction
                    bool ok = false;
                    for(auto d : m.done) {
                        for(auto o : txs[size_t(d)].out) {
                            ok |= o == i;
                        }
                    }
                    if(!ok) {
                        return false;
                    }
                }
            }
            return true;
        };
        for(int a = 0; a < int(txs.size()); a++) {
            if(!can(a)) {
                continue;
            }
            r.push_back({a});
            for(int b = 0; b < int(txs.size()); b++) {
                bool clash = false;
                for(auto i : txs[size_t(a)].in) {
                    for(auto j : txs[size_t(b)].in) {
                        clash |= i == j;
                    }
                }
                if(a < b && can(b) && !clash) {
                    r.push_back({a, b});
                }
            }
        }
        return r;
    }
    std::string show(const std::vector<err>& v) {
        std::string r;
        for(auto& x : v) {
            r += mc::strf("%s:%s(", txs[size_t(x.t)].name, kn[x.k]);
            for(auto i : x.ids) {
                r += mc::strf("%d ", i);
            }
            r += ") ";
        }
        return r;
    }
    const std::vector<std::vector<err>> error_menu{
        {{0, dne, {0}}},
        {{0, sync_, {}}},
        {{0, incomplete, {}}},
        {{2, spent_, {0}}},
        {{2, dne, {0, 1}}},
        {{2, range, {}}},
        {{1, spent_, {2}}},
        {{1, dne, {2}}},
        {{3, incomplete, {}}, {2, spent_, {1}}},
        {{0, spent_, {0}}, {2, dne, {0}}, {1, dne, {2}}},
    };
    void seq(mc::ctx& c, size_t kb, size_t ke, uint32_t depth, bool blocks,
             bool errors) {
        tower w(kb, ke);
        model m{kb, ke, {}, {}, 0, {}, {}};
        std::string hist;
        for(uint32_t left = depth;; left--) {
            auto why = ask(w, m, int(txs.size()), 9);
            if(!why.empty()) {
                c.fail("status",
                       "%zu blocks and %zu errors remembered, after%s: %s",
                       kb,
                       ke,
                       hist.c_str(),
                       why.c_str());
                return;
            }
            c.agreed();
            if(left == 0) {
                c.outcome(m.key());
                return;
            }
            auto bm = blocks ? block_menu(m) : std::vector<std::vector<int>>{};
            auto n = bm.size() + (errors ? error_menu.size() : 0);
            auto k = c.choose(uint32_t(n), "operation");
            if(k < bm.size()) {
                blk b{m.best + 1, bm[k]};
                cbdc::atomizer::block x;
                x.m_height = b.h;
                for(auto t : b.t) {
                    x.m_transactions.push_back(ctx(t));
                    hist += mc::strf(" %s", txs[size_t(t)].name);
                }
                hist += mc::strf(" |block %llu|", (unsigned long long)b.h);
                w.add_block(std::move(x));
                m.block(b);
            } else {
                auto& e = error_menu[k - bm.size()];
                std::vector<tx_error> v;
                for(auto& x : e) {
                    v.push_back(make(x));
                }
                hist += " errors " + show(e);
                w.add_errors(std::move(v));
                m.errors(e);
            }
        }
    }
    // heights arriving in any order: best is the highest seen
    void heights(mc::ctx& c) {
        tower w(2, 1);
        uint64_t best = 0;
        for(int k = 0; k < 4; k++) {
            cbdc::atomizer::block b;
            b.m_height = c.choose(4, "height");
            best = std::max(best, b.m_height);
            w.add_block(std::move(b));
            auto r = w.handle_best_block_height_request({});
            auto* p = std::get_if<best_block_height_response>(&r->payload());
            if(p == nullptr || p->height() != best) {
                c.fail("best", "best height %llu, must be %llu",
                       p ? (unsigned long long)p->height() : 0ULL,
                       (unsigned long long)best);
                return;
            }
        }
        c.agreed();
        c.outcome(std::to_string(best));
    }
#ifdef CONCURRENT
    // a block, an error batch and a query at the same time: the answer must
    // be that of some order
    void conc(mc::ctx& c) {
        sched::options o;
        auto which = c.choose(uint32_t(error_menu.size()), "errors");
        std::string out;
        sched::run(c, o, [&] {
            tower w(0, 2);
            bool ok = false;
            auto blkop = [&](auto& x, model& m) {
                (void)x;
                m.block({1, {0}});
            };
            std::string why[4];
            std::thread a([&] {
                cbdc::atomizer::block x;
                x.m_height = 1;
                x.m_transactions.push_back(ctx(0));
                w.add_block(std::move(x));
            });
            std::thread b([&] {
                std::vector<tx_error> v;
                for(auto& x : error_menu[which]) {
                    v.push_back(make(x));
                }
                w.add_errors(std::move(v));
            });
            std::vector<model> ms;
            for(int k = 0; k < 5; k++) {
                model m{0, 2, {}, {}, 0, {}, {}};
                if(k == 1 || k == 3) {
                    blkop(w, m);
                }
                if(k >= 2) {
                    m.errors(error_menu[which]);
                }
                if(k == 4) {
                    blkop(w, m);
                }
                ms.push_back(m);
            }
            // one query, compared with the five possible states: take the
            // answer once
            tx_id_uhs_ids q;
            q[tid(0)] = {uid(0), uid(2)};
            q[tid(2)] = {uid(0), uid(1)};
            auto r = w.handle_status_update_request(status_update_request{q});
            auto* p = std::get_if<status_request_check_success>(&r->payload());
            std::string got;
            if(p != nullptr) {
                for(auto& m : ms) {
                    bool all = true;
                    for(auto& [t, v] : q) {
                        auto it = p->states().find(t);
                        int tn = t == tid(0) ? 0 : 2;
                        if(it == p->states().end()
                           || it->second.size() != v.size()) {
                            all = false;
                            break;
                        }
                        for(size_t k = 0; k < v.size(); k++) {
                            int in = 0;
                            while(uid(in) != v[k]) {
                                in++;
                            }
                            auto s = m.want(tn, in);
                            all &= s.count({int(it->second[k].status()),
                                            it->second[k].block_height()})
                                != 0;
                        }
                    }
                    ok |= all;
                }
                for(auto& [t, v] : p->states()) {
                    for(auto& s : v) {
                        got += mc::strf("%d@%d ", int(s.status()), int(s.block_height()));
                    }
                }
            }
            a.join();
            b.join();
            if(!ok) {
                sched::fail("concurrent",
                            "no order of the calls explains the answer "
                                + got);
            }
            out = got;
        });
        if(!c.failed()) {
            c.agreed();
            c.outcome(out);
        }
    }
#endif
}
int main(int argc, char** argv) {
    bool T = mc::thorough();
    std::vector<mc::scenario> s;
#ifdef CONCURRENT
    (void)heights;
    (void)seq;
    s.push_back({"block, errors and query at once",
                 [](mc::ctx& c) { conc(c); },
                 T ? 4U : 2U,
                 8,
                 2,
                 "all schedules within the preemption bound"});
#else
    auto add = [&](size_t kb, size_t ke, uint32_t d, bool b, bool e) {
        s.push_back({mc::strf("%zu blocks, %zu errors%s%s", kb, ke,
                              b ? "" : ", errors only",
                              e ? "" : ", blocks only"),
                     [=](mc::ctx& c) { seq(c, kb, ke, d, b, e); },
                     0, 8, 2,
                     mc::strf("every sequence of %u blocks and error batches", d)});
    };
    uint32_t d = T ? 6 : 4;
    add(1, 1, d, true, true);
    add(1, 2, d, true, true);
    add(2, 2, d, true, true);
    add(2, 3, d, true, true);
    add(0, 0, d, true, true);
    add(1, 1, T ? 8 : 6, true, false);
    add(2, 1, T ? 8 : 6, true, false);
    add(3, 1, T ? 8 : 6, true, false);
    add(1, 1, T ? 6 : 5, false, true);
    add(1, 2, T ? 6 : 5, false, true);
    add(1, 3, T ? 6 : 5, false, true);
    s.push_back({"heights in any order", heights, 0, 1, 1,
                 "every sequence of 4 heights in 0..3"});
#endif
    return mc::main(argc, argv, "C10", "model_checking",
                    "every sequence of blocks and error batches up to the "
                    "depth, every id of every transaction queried after each "
                    "step and compared with lists of the last k blocks and "
                    "errors; non-trivial = distinct reference states",
                    {"blocks follow UHS rules (an id is created once, spent "
                     "at most once and after its creation)",
                     "several remembered errors for one transaction: the "
                     "answer may follow any of them"},
                    s);
}
