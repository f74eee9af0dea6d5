// C09: the archiver against the chain it is given, block by block.
#include "common.hpp"

#include <algorithm>
#include <mutex>
#include <shared_mutex>
#ifdef CONCURRENT
#include "mc/memdb.hpp"
#include "mc/sched.hpp"
#include "mc/simnet.hpp"
#include "uhs/atomizer/atomizer/messages.hpp"
#else
#include "mc/recfs.hpp"
#include <unistd.h>
#endif
#include "uhs/atomizer/archiver/controller.hpp"
#include "uhs/atomizer/atomizer/atomizer_raft.hpp"
#include "uhs/atomizer/atomizer/format.hpp"
#include "util/serialization/format.hpp"
#include "util/serialization/util.hpp"

#include <thread>
using namespace h;
using ctl = cbdc::archiver::controller;
namespace {
    // the chain: every block different, some with several transactions
    cbdc::atomizer::block chain(uint64_t height, bool other = false) {
        cbdc::atomizer::block b;
        b.m_height = height;
        for(uint64_t k = 0; k < (height * 2) % 3 + (other ? 1 : 0); k++) {
            auto t = ctx_tx(id(uint8_t(height), uint32_t(k)),
                            {id(uint8_t(height + 50), uint32_t(k))},
                            {id(uint8_t(height + 100), uint32_t(k)),
                             id(uint8_t(height + 150), uint32_t(k))});
            if(k == 1) {
                t.m_attestations.insert({{1, 2, 3}, {4, 5, 6}});
            }
            if(height == 4) {
                t.m_inputs.clear();
            }
            b.m_transactions.push_back(t);
        }
        return b;
    }
    std::string bytes(const cbdc::buffer& b) {
        return {static_cast<const char*>(b.data()), b.size()};
    }
    std::string bytes(const cbdc::atomizer::block& b) {
        return bytes(*make_shared_buffer(b));
    }
    template<class T>
    network::message_t msg(const T& v) {
        network::message_t m;
        m.m_pkt = make_shared_buffer(v);
        return m;
    }
    config::options opts(const std::string& d) {
        config::options o;
        o.m_archiver_db_dirs.push_back(d);
        o.m_archiver_endpoints.push_back({"127.0.0.1", 7000});
        o.m_atomizer_endpoints.push_back({"127.0.0.1", 6000});
        return o;
    }
    std::string compare(ctl& a, uint64_t best, uint64_t upto) {
        if(a.best_block_height() != best) {
            return mc::strf("best height %llu, must be %llu",
                            (unsigned long long)a.best_block_height(),
                            (unsigned long long)best);
        }
        for(uint64_t k = 0; k <= upto; k++) {
            auto r = a.get_block(k);
            bool there = k >= 1 && k <= best;
            if(r.has_value() != there) {
                return mc::strf("block %llu is %s", (unsigned long long)k,
                                there ? "missing" : "stored too early");
            }
            if(there && bytes(*r) != bytes(chain(k))) {
                return mc::strf("block %llu comes back changed",
                                (unsigned long long)k);
            }
            auto p = a.server_handler(
                msg(cbdc::archiver::request{k}));
            auto q = p.has_value()
                       ? from_buffer<cbdc::archiver::response>(*p)
                       : std::nullopt;
            if(!q.has_value() || q->has_value() != there
               || (there && bytes(**q) != bytes(chain(k)))) {
                return mc::strf("request for block %llu answered wrongly",
                                (unsigned long long)k);
            }
        }
        return {};
    }
    struct model {
        uint64_t best{};
        std::set<uint64_t> deferred;
        void deliver(uint64_t k) {
            if(k <= best) {
                return;
            }
            deferred.insert(k);
            while(deferred.erase(best + 1) != 0) {
                best++;
            }
        }
    };
}
#ifndef CONCURRENT
namespace {
    std::string dir(const char* n) {
        static int k = 0;
        return mc::scratch() + "/" + n + std::to_string(k++);
    }
    struct dirs {
        std::vector<std::string> d;
        std::string make(const char* n) {
            d.push_back(dir(n));
            return d.back();
        }
        ~dirs() {
            for(auto& x : d) {
                recfs::remove_dir(x);
            }
        }
    };
    std::unique_ptr<ctl> open(const std::string& d) {
        auto a = std::make_unique<ctl>(0, opts(d), logger(), 0);
        if(!a->init_leveldb() || !a->init_best_block()) {
            return nullptr;
        }
        return a;
    }
    void sequences(mc::ctx& c, uint32_t len, uint32_t n) {
        dirs d;
        auto dd = d.make("db");
        auto a = open(dd);
        model m;
        std::string text;
        for(uint32_t k = 0; k < len; k++) {
            auto op = c.choose(n + 3, "operation");
            if(op < n) {
                text += mc::strf(" %u", op + 1);
                a->atomizer_handler(msg(chain(op + 1)));
                m.deliver(op + 1);
            } else if(op == n) {
                text += " restart";
                a.reset();
                a = open(dd);
                m.deferred.clear();
            } else if(op == n + 1) {
                // a different block at a height that is stored already
                if(m.best == 0) {
                    return;
                }
                text += " old";
                a->atomizer_handler(msg(chain(m.best, true)));
            } else {
                text += " garbage";
                a->atomizer_handler(msg(uint8_t{1}));
                auto r = a->server_handler(msg(uint8_t{1}));
                if(r.has_value()) {
                    c.fail("garbage", "a malformed request is answered");
                    return;
                }
            }
            auto w = a ? compare(*a, m.best, n + 1)
                       : "database does not open";
            if(!w.empty()) {
                c.fail("state", "deliveries%s: %s", text.c_str(), w.c_str());
                return;
            }
            c.agreed();
        }
        std::string o = mc::strf("%llu:", (unsigned long long)m.best);
        for(auto x : m.deferred) {
            o += mc::strf(" %llu", (unsigned long long)x);
        }
        c.outcome(o);
    }
    void crash(mc::ctx& c, uint32_t n) {
        dirs d;
        auto dd = d.make("db");
        // an arrival order of blocks 1..n
        std::vector<uint64_t> left, order;
        for(uint64_t k = 1; k <= n; k++) {
            left.push_back(k);
        }
        std::string text;
        while(!left.empty()) {
            auto k = c.choose(uint32_t(left.size()), "arrival");
            order.push_back(left[k]);
            text += mc::strf(" %llu", (unsigned long long)left[k]);
            left.erase(left.begin() + k);
        }
        auto restart = c.choose(n, "restart before");
        // (operations recorded, best height) when each delivery is over
        std::vector<std::pair<size_t, uint64_t>> marks;
        recfs::start(dd);
        {
            auto a = open(dd);
            model m;
            for(uint32_t k = 0; k < n; k++) {
                if(k == restart && k > 0) {
                    a.reset();
                    a = open(dd);
                    m.deferred.clear();
                }
                a->digest_block(chain(order[k]));
                m.deliver(order[k]);
                marks.emplace_back(recfs::recorded(), m.best);
            }
        }
        auto ops = recfs::stop();
        auto final_best = marks.back().second;
        auto at = [&](size_t n_ops) { // best height certainly reached
            uint64_t b = 0;
            for(auto& [k, v] : marks) {
                if(k <= n_ops) {
                    b = v;
                }
            }
            return b;
        };
        auto examine = [&](const recfs::image& img, size_t n_ops,
                           const std::string& what, uint64_t& reached) {
            auto rd = d.make("crash");
            recfs::write_dir(rd, img);
            std::string w;
            auto a = open(rd);
            if(!a) {
                w = "database does not open";
            } else {
                auto b = a->best_block_height();
                if(b < at(n_ops) || b > final_best) {
                    w = mc::strf("restarts at height %llu, stored up to %llu",
                                 (unsigned long long)b,
                                 (unsigned long long)at(n_ops));
                }
                reached = b;
                if(w.empty()) {
                    w = compare(*a, b, n + 1);
                }
                for(uint64_t k = n; w.empty() && k >= 1; k--) {
                    a->digest_block(chain(k));
                }
                if(w.empty()) {
                    a.reset();
                    a = open(rd);
                    w = a ? compare(*a, n, n + 1) : "does not open again";
                }
            }
            a.reset();
            recfs::remove_dir(rd);
            c.count();
            if(!w.empty()) {
                c.fail("crash-state", "arrivals%s, restart before %u, %s: %s",
                       text.c_str(), restart, what.c_str(), w.c_str());
            }
            return w.empty();
        };
        auto pts = recfs::points(ops);
        mc::stat("crash_points", pts.size());
        uint64_t before = 0, b = 0;
        for(auto& [k, torn] : pts) {
            if(!examine(recfs::after(ops, k, torn), k,
                        mc::strf("crash at file operation %zu of %zu (+%zu)",
                                 k, ops.size(), torn),
                        b)) {
                return;
            }
            if(b < before) {
                c.fail("crash-back", "height decreases as more is written");
                return;
            }
            before = b;
        }
        // blocks the archiver reports as stored (the atomizers prune them)
        // must also survive a power loss
        for(auto& [k, v] : marks) {
            if(!examine(recfs::after_power_loss(ops, k), k,
                        mc::strf("power loss after file operation %zu", k),
                        b)) {
                return;
            }
        }
        c.outcome(text + std::to_string(restart));
    }
    // A long part of the chain arrives out of order.
    void far(mc::ctx& c, uint64_t n) {
        auto order = c.choose(4, "order");
        auto stop = c.choose(3, "restart");
        std::vector<uint64_t> v;
        switch(order) {
            case 0: // backwards
                for(auto k = n; k >= 1; k--) {
                    v.push_back(k);
                }
                break;
            case 1: // the first one last
                for(uint64_t k = 2; k <= n; k++) {
                    v.push_back(k);
                }
                v.push_back(1);
                break;
            case 2: // every second one backwards, then the others
                for(auto k = n; k >= 1; k--) {
                    if(k % 2 == 0) {
                        v.push_back(k);
                    }
                }
                for(uint64_t k = 1; k <= n; k += 2) {
                    v.push_back(k);
                }
                break;
            default: // strides
                for(uint64_t r = 7; r >= 1; r--) {
                    for(auto k = r; k <= n; k += 7) {
                        v.push_back(k);
                    }
                }
        }
        dirs d;
        auto dd = d.make("db");
        auto a = open(dd);
        model m;
        for(size_t i = 0; i < v.size(); i++) {
            if(stop != 0 && i == v.size() * stop / 3) {
                a.reset(); // forgets what was deferred
                a = open(dd);
                m.deferred.clear();
            }
            a->atomizer_handler(msg(chain(v[i])));
            m.deliver(v[i]);
            if(a->best_block_height() != m.best) {
                c.fail("far",
                       "best height %llu, must be %llu, after block %llu of "
                       "%llu in order %u",
                       (unsigned long long)a->best_block_height(),
                       (unsigned long long)m.best,
                       (unsigned long long)v[i],
                       (unsigned long long)n,
                       order);
                return;
            }
        }
        auto e = compare(*a, m.best, n);
        if(!e.empty()) {
            c.fail("far", "%s (order %u)", e.c_str(), order);
            return;
        }
        c.agreed();
        c.outcome(mc::strf("%u %llu", order, (unsigned long long)m.best));
    }
}
int main(int argc, char** argv) {
    bool th = mc::thorough();
    std::vector<mc::scenario> s;
    s.push_back({"long gaps", [=](mc::ctx& c) { far(c, th ? 2000 : 250); }, 0,
                 4, 2, "four orders of a long chain, restarts"});
    uint32_t a = th ? 6 : 5, n = th ? 4 : 3;
    s.push_back({"sequences", [=](mc::ctx& c) { sequences(c, a, 4); }, 0, 8,
                 2,
                 mc::strf("every sequence of %u deliveries of 4 blocks, "
                          "stale blocks, garbage and restarts",
                          a)});
    s.push_back({"crash", [=](mc::ctx& c) { crash(c, n); }, 0, 8, 2,
                 mc::strf("every arrival order of %u blocks with a restart "
                          "anywhere, every file-system step and torn write, "
                          "power loss after each delivery",
                          n)});
    return mc::main(argc, argv, "C09", "model_checking",
                    "every delivery sequence within the depth and every "
                    "crash point; best height and every stored block "
                    "compared with the chain; non-trivial = distinct states",
                    {"crash = the process dies, what the kernel accepted "
                     "stays; power loss = writes after a file's last sync "
                     "are lost",
                     "leveldb itself is the installed library, run for real"},
                    s);
}
#else
namespace {
    using quiet = sched::atomic_section;
    // The real controller, connected to a scripted atomizer over the
    // simulated network. `order` is broadcast; requests are answered except
    // the first `lose`; a client asks the archiver meanwhile.
    void system_run(mc::ctx& c, std::vector<uint64_t> order, uint32_t lose,
                 bool client, bool cut) {
        std::string out;
        sched::options o;
        sched::run(c, o, [&]() {
            simnet::reset({});
            memdb::reset();
            uint64_t top = 0;
            for(auto k : order) {
                top = std::max(top, k);
            }
            network::tcp_listener l;
            if(!l.listen("127.0.0.1", 6000)) {
                sched::fail("unexpected:listen", "listen");
            }
            std::vector<uint64_t> asked;
            uint64_t pruned = 0;
            bool over = false, sent_all = false;
            std::vector<std::thread> t;
            t.emplace_back([&]() {
                size_t next = 0;
                bool cut_now = cut;
                auto lost = lose;
                while(!over) {
                    network::tcp_socket s;
                    if(!l.accept(s)) {
                        return;
                    }
                    std::mutex mut; // a socket is not for two senders
                    auto send = [&](uint64_t k) {
                        std::unique_lock<std::mutex> g(mut);
                        return s.send(chain(k));
                    };
                    std::thread rd([&]() {
                        cbdc::buffer b;
                        while(s.receive(b)) {
                            auto r
                                = from_buffer<cbdc::atomizer::request>(b);
                            if(!r.has_value()) {
                                sched::fail("request",
                                            "undecodable request");
                            }
                            if(auto* p = std::get_if<
                                   cbdc::atomizer::prune_request>(&*r)) {
                                quiet q;
                                if(p->m_block_height < pruned) {
                                    sched::fail("prune-order",
                                                "prune heights decrease");
                                }
                                pruned = p->m_block_height;
                                // the blocks pruned must be stored
                                auto m = memdb::contents("db");
                                for(uint64_t k = 1; k < pruned; k++) {
                                    if(m.count(std::to_string(k)) == 0) {
                                        sched::fail("prune-early",
                                                    "a block is pruned that "
                                                    "is not stored");
                                    }
                                }
                                continue;
                            }
                            if(auto* g = std::get_if<
                                   cbdc::atomizer::get_block_request>(&*r)) {
                                auto k = g->m_block_height;
                                bool drop = false;
                                {
                                    quiet q;
                                    asked.push_back(k);
                                    if(lost > 0) {
                                        lost--;
                                        drop = true;
                                    }
                                }
                                if(k == 0 || k > top) {
                                    sched::fail("request-range",
                                                "a block is requested that "
                                                "cannot be missing");
                                }
                                if(!drop && !send(k)) {
                                    break;
                                }
                            }
                        }
                    });
                    while(next < order.size()) {
                        auto k = order[next];
                        next++;
                        (void)send(k);
                        if(cut_now && next == order.size() - 1) {
                            cut_now = false;
                            sched::until(
                                [&]() {
                                    quiet q;
                                    return !asked.empty();
                                },
                                "a request");
                            break;
                        }
                    }
                    if(next < order.size()) {
                        s.disconnect();
                        rd.join();
                        continue;
                    }
                    {
                        quiet q;
                        sent_all = true;
                    }
                    rd.join();
                    return;
                }
            });
            {
                ctl a(0, opts("db"), logger(), 0);
                if(!a.init_leveldb() || !a.init_best_block()
                   || !a.init_atomizer_connection()
                   || !a.init_archiver_server()) {
                    sched::fail("unexpected:init", "init");
                }
                if(client) {
                    t.emplace_back([&]() {
                        network::tcp_socket s;
                        if(!s.connect({"127.0.0.1", 7000})) {
                            sched::fail("unexpected:connect", "connect");
                        }
                        bool had = false;
                        for(int k = 0; k < 2; k++) {
                            cbdc::buffer b;
                            if(!s.send(uint64_t{1}) || !s.receive(b)) {
                                sched::fail("no-answer", "no answer");
                            }
                            auto r = from_buffer<cbdc::archiver::response>(b);
                            if(!r.has_value()
                               || (r->has_value()
                                   && bytes(**r) != bytes(chain(1)))
                               || (had && !r->has_value())) {
                                sched::fail("answer", "wrong answer");
                            }
                            had = r->has_value();
                        }
                    });
                }
                sched::until(
                    [&]() {
                        quiet q;
                        return sent_all;
                    },
                    "broadcast");
                sched::quiesce();
                quiet q;
                auto m = memdb::contents("db");
                if(m["bestblock"] != std::to_string(top)) {
                    std::string as;
                    for(auto k : asked) {
                        as += mc::strf(" %llu", (unsigned long long)k);
                    }
                    sched::fail("stuck",
                                "best height stays " + m["bestblock"]
                                    + ", blocks requested:" + as);
                }
                for(uint64_t k = 1; k <= top; k++) {
                    if(m[std::to_string(k)] != bytes(chain(k))) {
                        sched::fail("stored", "block stored wrongly");
                    }
                }
                if(!cut && pruned != top) {
                    sched::fail("prune", "stored blocks are not pruned");
                }
                for(auto k : asked) {
                    out += mc::strf(" %llu", (unsigned long long)k);
                }
                over = true;
            }
            l.close();
            for(auto& x : t) {
                x.join();
            }
        });
        if(!c.failed()) {
            c.outcome(out);
        }
    }
}
int main(int argc, char** argv) {
    bool th = mc::thorough();
    uint32_t b = th ? 2 : 1;
    std::vector<mc::scenario> s;
    auto add = [&](const char* n, std::vector<uint64_t> o, uint32_t lose,
                   bool client, bool cut, uint32_t bound) {
        s.push_back({n,
                     [=](mc::ctx& c) { system_run(c, o, lose, client, cut); },
                     bound, 8, 2, ""});
    };
    add("in order, with a client", {1, 2}, 0, true, false, b);
    add("gap", {3}, 0, false, false, b);
    add("gap with duplicates", {1, 4, 4}, 0, false, false, b);
    add("lost reply", {1, 3, 4}, 1, false, false, b);
    add("lost reply, older block", {1, 4, 3, 5}, 2, false, false, b);
    add("connection lost", {3, 4}, 1, false, true, b);
    return mc::main(argc, argv, "C09", "model_checking",
                    "every schedule within the preemption bound of the real "
                    "controller against a scripted atomizer; non-trivial = "
                    "distinct request sequences",
                    {"leveldb is replaced by an in-memory stand-in with "
                     "atomic batches"},
                    s);
}
#endif
