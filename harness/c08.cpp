// C08: the atomizer shard against a fold of the blocks it was given.
#include "common.hpp"

#include <algorithm>
#include <mutex>
#include <shared_mutex>
#ifdef CONCURRENT
#include "mc/sched.hpp"
#else
#include "mc/recfs.hpp"
#include <sys/wait.h>
#include <unistd.h>
#endif
#include "uhs/atomizer/shard/shard.hpp"

#include <thread>
using namespace h;
using shard_t = cbdc::shard::shard;
namespace {
    constexpr uint8_t lo = 10, hi = 20;
    // boundary ids of the range and outside of it
    const hash_t A = id(lo, 1), B = id(hi, 2), C = id(lo, 3), D = id(15, 4),
                 X = id(uint8_t(lo - 1), 5), Y = id(uint8_t(hi + 1), 6);
    const std::vector<std::pair<const char*, hash_t>> all{
        {"A", A}, {"B", B}, {"C", C}, {"D", D}, {"X", X}, {"Y", Y}};
    std::string nm(const hash_t& v) {
        for(auto& [n, i] : all) {
            if(i == v) {
                return n;
            }
        }
        return "?";
    }
    using txv = std::vector<transaction::compact_tx>;
    transaction::compact_tx T(uint8_t n, std::vector<hash_t> in,
                              std::vector<hash_t> out) {
        return ctx_tx(id(200, n), std::move(in), std::move(out));
    }
    struct content {
        const char* name;
        txv txs;
    };
    const std::vector<content> contents{
        {"empty", {}},
        {"mint A,X", {T(1, {}, {A, X})}},
        {"mint B,Y", {T(2, {}, {B}), T(3, {}, {Y})}},
        {"A,Y->C", {T(4, {A, Y}, {C})}},
        {"B->A,Y,D then C->X", {T(5, {B}, {A, Y, D}), T(6, {C}, {X})}},
        {"D->X, A,X,B->Y", {T(7, {D}, {X}), T(8, {A, X, B}, {Y})}},
    };
    cbdc::atomizer::block blk(uint64_t height, const content& c) {
        cbdc::atomizer::block b;
        b.m_height = height;
        b.m_transactions = c.txs;
        return b;
    }
    struct model {
        uint64_t height{};
        std::set<hash_t> uhs;
        static bool mine(const hash_t& x) {
            return x[0] >= lo && x[0] <= hi;
        }
        bool digest(const cbdc::atomizer::block& b) {
            if(b.m_height != height + 1) {
                return false;
            }
            height++;
            for(auto& t : b.m_transactions) {
                for(auto& o : t.m_uhs_outputs) {
                    if(mine(o)) {
                        uhs.insert(o);
                    }
                }
                for(auto& i : t.m_inputs) {
                    uhs.erase(i);
                }
            }
            return true;
        }
        std::string str() const {
            auto s = mc::strf("h%llu{", (unsigned long long)height);
            for(auto& u : uhs) {
                s += nm(u);
            }
            return s + "}";
        }
    };
    const std::vector<transaction::compact_tx>& queries() {
        static const auto q = []() {
            std::vector<transaction::compact_tx> v;
            uint8_t n = 50;
            for(auto& [s, i] : all) {
                v.push_back(T(n++, {i}, {D}));
            }
            v.push_back(T(n++, {}, {A}));
            v.push_back(T(n++, {A, B}, {C, X}));
            v.push_back(T(n++, {X, D, Y, C}, {A}));
            v.push_back(T(n++, {X, Y}, {A}));
            v.push_back(T(n++, {D, C, B, A, X}, {}));
            for(auto& t : v) {
                t.m_attestations.insert({pub(7), signature_t{1, 2, n}});
            }
            return v;
        }();
        return q;
    }
    using answer = std::variant<cbdc::atomizer::tx_notify_request,
                                cbdc::watchtower::tx_error>;
    std::string show(const answer& a) {
        if(auto* n = std::get_if<cbdc::atomizer::tx_notify_request>(&a)) {
            auto s = mc::strf("height %llu:",
                              (unsigned long long)n->m_block_height);
            std::set<uint64_t> o(n->m_attestations.begin(),
                                 n->m_attestations.end());
            for(auto i : o) {
                s += mc::strf(" %llu", (unsigned long long)i);
            }
            return s;
        }
        auto& e = std::get<cbdc::watchtower::tx_error>(a);
        auto i = e.info();
        if(std::holds_alternative<cbdc::watchtower::tx_error_sync>(i)) {
            return "error sync " + hx(e.tx_id());
        }
        if(auto* d = std::get_if<cbdc::watchtower::tx_error_inputs_dne>(&i)) {
            std::string s = "error missing " + hx(e.tx_id());
            std::vector<std::string> v;
            for(auto& x : d->input_uhs_ids()) {
                v.push_back(nm(x));
            }
            std::sort(v.begin(), v.end());
            for(auto& x : v) {
                s += " " + x;
            }
            return s;
        }
        return "other error";
    }
    std::string want(const model& m, const transaction::compact_tx& t) {
        if(m.height == 0) {
            return "error sync " + hx(t.m_id);
        }
        std::set<std::string> miss;
        auto s = mc::strf("height %llu:", (unsigned long long)m.height);
        for(size_t i = 0; i < t.m_inputs.size(); i++) {
            auto& x = t.m_inputs[i];
            if(!model::mine(x)) {
                continue;
            }
            if(m.uhs.count(x) != 0) {
                s += mc::strf(" %zu", i);
            } else {
                miss.insert(nm(x));
            }
        }
        if(miss.empty() && !t.m_inputs.empty()) {
            return s;
        }
        s = "error missing " + hx(t.m_id);
        for(auto& x : miss) {
            s += " " + x;
        }
        return s;
    }
    // "" when the shard answers every query as the model does
    std::string compare(mc::ctx& c, shard_t& s, const model& m) {
        if(s.best_block_height() != m.height) {
            return mc::strf("best height %llu, must be %llu",
                            (unsigned long long)s.best_block_height(),
                            (unsigned long long)m.height);
        }
        for(auto& t : queries()) {
            auto r = s.digest_transaction(t);
            auto got = show(r), w = want(m, t);
            if(got != w) {
                std::string in;
                for(auto& i : t.m_inputs) {
                    in += nm(i);
                }
                return "transaction spending {" + in + "} answered '" + got
                     + "', must be '" + w + "' in state " + m.str();
            }
            if(auto* n = std::get_if<cbdc::atomizer::tx_notify_request>(&r)) {
                if(n->m_tx.m_id != t.m_id || n->m_tx.m_inputs != t.m_inputs
                   || n->m_tx.m_uhs_outputs != t.m_uhs_outputs
                   || n->m_tx.m_attestations != t.m_attestations) {
                    return "the notification carries another transaction";
                }
            }
            c.agreed();
        }
        return {};
    }
}
#ifndef CONCURRENT
namespace {
    std::string dir(const char* n) {
        static int k = 0;
        return mc::scratch() + "/" + n + std::to_string(k++);
    }
    struct dirs {
        std::vector<std::string> d;
        std::string make(const char* n) {
            d.push_back(dir(n));
            return d.back();
        }
        ~dirs() {
            for(auto& x : d) {
                recfs::remove_dir(x);
            }
        }
    };
    std::unique_ptr<shard_t> open(const std::string& d) {
        auto s = std::make_unique<shard_t>(
            config::shard_range_t{lo, hi});
        auto e = s->open_db(d);
        if(e.has_value()) {
            return nullptr;
        }
        return s;
    }
    // every sequence of blocks, duplicates, gaps and restarts
    void sequences(mc::ctx& c, uint32_t len) {
        dirs d;
        auto dd = d.make("db");
        auto s = open(dd);
        model m;
        std::string text;
        auto check = [&]() {
            auto w = s ? compare(c, *s, m) : "database does not open";
            if(!w.empty()) {
                c.fail("state", "%s: %s", text.c_str(), w.c_str());
            }
            return w.empty();
        };
        if(!check()) {
            return;
        }
        for(uint32_t k = 0; k < len; k++) {
            auto n = uint32_t(contents.size());
            auto op = c.choose(n + 5, "operation");
            cbdc::atomizer::block b;
            if(op == n) { // restart
                text += " restart";
                s.reset();
                s = open(dd);
                if(!check()) {
                    return;
                }
                continue;
            }
            if(op < n) {
                b = blk(m.height + 1, contents[op]);
                text += std::string(" [") + contents[op].name + "]";
            } else {
                // not contiguous; content would change the state
                static const int64_t off[] = {0, 2, 3, -1};
                auto o = off[op - n - 1];
                if(o < 0 && m.height == 0) {
                    return;
                }
                b = blk(uint64_t(int64_t(m.height) + o), contents[4]);
                b.m_transactions.push_back(T(9, {A}, {C, D}));
                text += mc::strf(" [height%+d]", int(o));
            }
            auto w = m.digest(b);
            auto g = s->digest_block(b);
            if(w != g) {
                c.fail("accept", "%s: block %s", text.c_str(),
                       g ? "accepted" : "refused");
                return;
            }
            if(!check()) {
                return;
            }
        }
        c.outcome(m.str());
    }
    // crash at every file-system step of opening and digesting
    void crash(mc::ctx& c, uint32_t len) {
        dirs d;
        auto dd = d.make("db");
        std::vector<model> steps{model{}};
        std::vector<recfs::op> ops;
        // `done[k]`: number of file operations after which step k is over
        std::vector<size_t> done;
        std::string text;
        auto restart_at = c.choose(len + 1, "restart");
        recfs::start(dd);
        {
            auto s = open(dd);
            if(!s) {
                c.fail("open", "database does not open");
                recfs::stop();
                return;
            }
            for(uint32_t k = 0; k < len; k++) {
                if(k == restart_at) {
                    s.reset();
                    s = open(dd);
                    text += " restart";
                }
                auto n = c.choose(uint32_t(contents.size()), "block");
                text += std::string(" [") + contents[n].name + "]";
                auto m = steps.back();
                auto b = blk(m.height + 1, contents[n]);
                m.digest(b);
                s->digest_block(b);
                steps.push_back(m);
            }
        }
        ops = recfs::stop();
        // where each batch is written is known from the log: states reached
        // must be steps 0,1,..,len, never going back as more is written
        size_t reached = 0;
        auto pts = recfs::points(ops);
        mc::stat("crash_points", pts.size());
        for(auto& [n, torn] : pts) {
            auto rd = d.make("crash");
            recfs::write_dir(rd, recfs::after(ops, n, torn));
            auto what = mc::strf("crash at file operation %zu of %zu (+%zu "
                                 "bytes)",
                                 n, ops.size(), torn);
            auto s = open(rd);
            if(!s) {
                c.fail("crash-open", "%s: %s: database does not open",
                       text.c_str(), what.c_str());
                return;
            }
            auto hgt = s->best_block_height();
            if(hgt >= steps.size() || hgt < reached
               || (n == ops.size() && hgt != len)) {
                c.fail("crash-height", "%s: %s: restarts at height %llu",
                       text.c_str(), what.c_str(), (unsigned long long)hgt);
                return;
            }
            reached = hgt;
            auto w = compare(c, *s, steps[hgt]);
            if(w.empty()) {
                // goes on with the next block, and that survives too
                auto m = steps[hgt];
                auto b = blk(hgt + 1, contents[1]);
                m.digest(b);
                if(!s->digest_block(b)) {
                    w = "next block refused";
                } else {
                    s.reset();
                    s = open(rd);
                    w = s ? compare(c, *s, m) : "does not open again";
                }
            }
            if(!w.empty()) {
                c.fail("crash-state", "%s: %s: %s", text.c_str(),
                       what.c_str(), w.c_str());
                return;
            }
            s.reset();
            recfs::remove_dir(rd);
            c.count();
        }
        c.outcome(text);
    }
    // writes fail from some write on: the block is either digested or not,
    // and the shard must not claim the height of a block it did not store
    void full(mc::ctx& c) {
        dirs d;
        auto a = c.choose(uint32_t(contents.size()), "first");
        auto b = c.choose(uint32_t(contents.size()), "second");
        for(long k = 0; k < 3; k++) {
            auto dd = d.make("db");
            fflush(nullptr);
            auto pid = fork();
            if(pid == 0) {
                recfs::start(dd);
                auto s = open(dd);
                model m;
                auto b1 = blk(1, contents[a]), b2 = blk(2, contents[b]);
                m.digest(b1);
                if(!s || !s->digest_block(b1)) {
                    _exit(3);
                }
                recfs::fail_writes_from(long(recfs::writes()) + k);
                auto m2 = m;
                m2.digest(b2);
                auto ok = s->digest_block(b2);
                auto w = compare(c, *s, ok ? m2 : m);
                _exit(w.empty() ? 0 : 4);
            }
            int st = 0;
            waitpid(pid, &st, 0);
            // stopping by abort is a legitimate reaction
            bool stopped = WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT;
            if(!stopped && (!WIFEXITED(st) || WEXITSTATUS(st) != 0)) {
                c.fail("write-failed",
                       "[%s] [%s]: write %ld failed while digesting the "
                       "second block: %s",
                       contents[a].name, contents[b].name, k,
                       WIFEXITED(st) && WEXITSTATUS(st) == 4
                           ? "height and unspent set disagree"
                           : "shard died");
                return;
            }
            c.count();
        }
        c.outcome(mc::strf("%u %u", a, b));
    }
}
int main(int argc, char** argv) {
    bool th = mc::thorough();
    std::vector<mc::scenario> s;
    uint32_t a = th ? 5 : 4, b = th ? 3 : 2;
    s.push_back({"sequences", [=](mc::ctx& c) { sequences(c, a); }, 0, 8, 2,
                 mc::strf("every sequence of %u blocks (6 contents), "
                          "duplicates, gaps and restarts; 11 queries after "
                          "each",
                          a)});
    s.push_back({"crash", [=](mc::ctx& c) { crash(c, b); }, 0, 8, 2,
                 mc::strf("%u blocks with a restart anywhere, every "
                          "file-system step and torn write",
                          b)});
    s.push_back({"failing writes", full, 0, 8, 2,
                 "two blocks, every first failing write of the second"});
    return mc::main(argc, argv, "C08", "model_checking",
                    "every operation sequence within the depth, every crash "
                    "point; every query's answer compared with the fold of "
                    "the blocks; non-trivial = distinct resulting states",
                    {"crash = the process dies; what the kernel accepted "
                     "stays, the last write may be partial",
                     "leveldb itself is the installed library, run for real"},
                    s);
}
#else
#include "mc/memdb.hpp"
namespace {
    // transactions are checked while blocks are digested: each answer must
    // be that of one of the states, no older than the call's start and no
    // newer than its end
    void concurrent(mc::ctx& c, int readers, std::vector<int> blocks) {
        std::string out;
        sched::options o;
        sched::run(c, o, [&]() {
            std::vector<model> st{model{}};
            memdb::reset();
            shard_t s(config::shard_range_t{lo, hi});
            if(s.open_db("db").has_value()) {
                sched::fail("open", "does not open");
            }
            auto grow = [&](int k) {
                auto m = st.back();
                auto b = blk(m.height + 1, contents[size_t(k)]);
                m.digest(b);
                {
                    sched::atomic_section q;
                    st.push_back(m);
                }
                return b;
            };
            s.digest_block(grow(1));
            size_t done = 1; // blocks digested for certain
            std::vector<std::thread> t;
            std::string outs;
            for(int r = 0; r < readers; r++) {
                t.emplace_back([&, r]() {
                    auto& q = queries()[r == 0 ? 7 : 10];
                    for(int k = 0; k < 2; k++) {
                        size_t from = 0;
                        {
                            sched::atomic_section g;
                            from = done;
                        }
                        auto bh = s.best_block_height();
                        auto a = s.digest_transaction(q);
                        sched::atomic_section g;
                        auto got = show(a);
                        bool ok = false;
                        for(size_t i = from; i < st.size(); i++) {
                            ok = ok || got == want(st[i], q);
                        }
                        if(!ok) {
                            sched::fail("mixed-state",
                                        "answer '" + got
                                            + "' matches no state between "
                                              "the call's start and end");
                        }
                        if(bh < from || bh >= st.size()) {
                            sched::fail("height",
                                        "best height from another time");
                        }
                        outs += mc::strf("%d:", r) + got + ";";
                    }
                });
            }
            for(auto k : blocks) {
                auto b = grow(k);
                if(!s.digest_block(b)) {
                    sched::fail("accept", "contiguous block refused");
                }
                sched::atomic_section g;
                done = st.size() - 1;
            }
            for(auto& x : t) {
                x.join();
            }
            sched::atomic_section g;
            auto w = compare(c, s, st.back());
            if(!w.empty()) {
                sched::fail("state", w);
            }
            out = outs;
        });
        if(!c.failed()) {
            c.outcome(out);
        }
    }
}
int main(int argc, char** argv) {
    bool th = mc::thorough();
    std::vector<mc::scenario> s;
    s.push_back({"one reader", [](mc::ctx& c) { concurrent(c, 1, {2, 5}); },
                 th ? 4u : 3u, 8, 2, "1 reader, 2 blocks"});
    s.push_back({"two readers", [](mc::ctx& c) { concurrent(c, 2, {2, 5}); },
                 th ? 3u : 2u, 8, 2, "2 readers, 2 blocks"});
    return mc::main(argc, argv, "C08", "model_checking",
                    "every schedule within the preemption bound of queries "
                    "against block digestion; non-trivial = distinct answer "
                    "sequences",
                    {"leveldb is replaced by an in-memory stand-in with "
                     "atomic batches and snapshots; its calls are scheduling "
                     "points"},
                    s);
}
#endif
