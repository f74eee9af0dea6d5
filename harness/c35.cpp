// C35: the real replicated atomizer process: controller, aggregation, state
// machine and client network over a stand-in consensus library. Followers
// (as shards and archivers do) connect, notify, and receive the blocks; the
// watchtower receives the errors; leadership moves; processes stop.
#include "common.hpp"
#include "mc/sched.hpp"
#include "mc/simnet.hpp"
#include "uhs/atomizer/atomizer/atomizer_raft.hpp"
#include "uhs/atomizer/atomizer/controller.hpp"
#include "uhs/atomizer/atomizer/format.hpp"
#include "uhs/transaction/messages.hpp"
#include "util/raft/serialization.hpp"
#include "util/raft/util.hpp"
#include "util/serialization/format.hpp"
#include "util/serialization/util.hpp"

#include <algorithm>
#include <deque>
#include <thread>
#include <unistd.h>
using namespace h;
using quiet = sched::atomic_section;
namespace at = cbdc::atomizer;
namespace wt = cbdc::watchtower;
namespace {
    constexpr uint16_t at_port = 6000, raft_port = 6500, wt_port = 8000;
    constexpr uint64_t interval_ms = 200;
    network::endpoint_t ep(uint16_t p) {
        return {"127.0.0.1", p};
    }
    using result_ptr
        = nuraft::ptr<nuraft::cmd_result<nuraft::ptr<nuraft::buffer>>>;
    enum kind {
        one,       // one atomizer
        ask,       // blocks are asked for and pruned
        change,    // leadership moves to the other atomizer and back
        flap,      // the only atomizer loses and regains leadership
        stop,      // stopped at any point
        reject     // replication refuses or gives up on an entry
    };
    // a and b spend the same; c is attested by two shards; m is a mint
    const std::map<char, std::pair<uint8_t, std::vector<hash_t>>> T{
        {'a', {1, {id(1, 1)}}},
        {'b', {2, {id(1, 1), id(1, 4)}}},
        {'c', {3, {id(1, 2), id(1, 3)}}},
        {'m', {4, {}}},
        {'n', {5, {}}},
        {'o', {6, {id(1, 5)}}},
    };
    transaction::compact_tx mk(char c) {
        auto& t = T.at(c);
        return ctx_tx(id(t.first, 100), t.second, {id(t.first, 200)});
    }
    char name(const hash_t& i) {
        for(auto& [c, t] : T) {
            if(i == id(t.first, 100)) {
                return c;
            }
        }
        return '?';
    }
    std::string show(const at::block& b) {
        auto s = mc::strf("%llu:", (unsigned long long)b.m_height);
        for(auto& t : b.m_transactions) {
            s += name(t.m_id);
            if(!(t == mk(name(t.m_id)))) {
                s += "(altered)";
            }
        }
        return s;
    }
    struct world {
        struct node {
            std::unique_ptr<at::controller> ctl;
            nuraft::ptr<nuraft::raft_server> rs;
            uint64_t last{0}; // when it last asked for a block
        };
        struct entry {
            int node;
            nuraft::ptr<nuraft::buffer> b;
            result_ptr r;
        };
        kind k;
        std::vector<node> nodes;
        config::options opts;
        std::deque<entry> q;
        int leader{-1};
        bool over{false};
        bool busy{false};
        uint64_t base{0};
        uint32_t refused{0};
        std::map<uint64_t, std::string> chain; // committed blocks
        std::string in_blocks;                 // transactions in them
        std::string due;  // errors the leader was given to report
        std::string errs; // errors the watchtower received
        std::mutex m;
        std::condition_variable cv;
        std::thread eng, wth;
        network::tcp_listener wl;
        static void sorted(std::string& s) {
            std::sort(s.begin(), s.end());
        }
        void note_errors(const at::errors& e, std::string& to) {
            for(auto& x : e) {
                to += name(x.tx_id());
            }
        }
        result_ptr append(int n, const nuraft::ptr<nuraft::buffer>& b) {
            std::lock_guard lk(m);
            quiet qt;
            auto r = nuraft::cs_new<
                nuraft::cmd_result<nuraft::ptr<nuraft::buffer>>>();
            auto req = from_buffer<at::state_machine::request>(*b);
            if(!req.has_value()) {
                sched::fail("log-entry", "undecodable log entry");
            }
            if(leader != n) {
                r->set_result(nullptr, nullptr, nuraft::NOT_LEADER);
                return r;
            }
            if(std::holds_alternative<at::make_block_request>(*req)) {
                auto& l = nodes[size_t(n)].last;
                auto now = sched::now_ns();
                if(l != 0 && now - l < interval_ms * 1000000) {
                    sched::fail("interval",
                                "blocks closer than the configured interval");
                }
                l = now;
            }
            if(k == reject && refused < 2
               && std::holds_alternative<at::make_block_request>(*req)) {
                auto how = sched::choose(3, "replication", 1);
                if(how == 1) {
                    refused++;
                    r->set_result(nullptr, nullptr, nuraft::FAILED);
                    return r;
                }
                if(how == 2) {
                    refused++;
                    r->accept();
                    r->set_result(
                        nullptr,
                        std::make_shared<std::runtime_error>("failed"),
                        nuraft::FAILED);
                    return r;
                }
            }
            r->accept();
            q.push_back({n, b, r});
            cv.notify_one();
            return r;
        }
        // Applies one committed entry everywhere and answers the leader.
        void apply(entry& e, bool answer) {
            nuraft::ptr<nuraft::buffer> res, mine;
            for(size_t n = 0; n < nodes.size(); n++) {
                if(!nodes[n].rs) {
                    continue;
                }
                auto& sm = *nodes[n].rs->m_sm;
                auto c = nuraft::buffer::clone(*e.b);
                c->pos(0);
                auto r = sm.commit(sm.last_commit_index() + 1, *c);
                res = r;
                if(int(n) == e.node) {
                    mine = r;
                }
            }
            {
                quiet qt;
                if(res) {
                    auto v = from_buffer<at::state_machine::response>(*res);
                    if(!v.has_value()) {
                        sched::fail("answer", "undecodable answer");
                    }
                    if(auto* m = std::get_if<at::make_block_response>(&*v)) {
                        chain[m->m_blk.m_height] = show(m->m_blk);
                        for(auto& t : m->m_blk.m_transactions) {
                            in_blocks += name(t.m_id);
                        }
                        if(answer) {
                            note_errors(m->m_errs, due);
                        }
                    } else if(auto* x = std::get_if<at::errors>(&*v)) {
                        if(answer) {
                            note_errors(*x, due);
                        }
                    }
                    res->pos(0);
                }
                if(mine) {
                    mine->pos(0);
                }
            }
            if(answer) {
                e.r->set_result(mine, nullptr, nuraft::OK);
            }
        }
        void engine() {
            while(true) {
                {
                    std::unique_lock l(m);
                    cv.wait(l, [&]() {
                        return over || !q.empty();
                    });
                }
                entry e;
                {
                    quiet qt;
                    if(q.empty()) {
                        if(over) {
                            return;
                        }
                        continue;
                    }
                    e = q.front();
                    q.pop_front();
                    busy = true;
                }
                apply(e, true);
                quiet qt;
                busy = false;
            }
        }
        // The leader is none any more; what it still waits for is given up,
        // though the entries may survive.
        void depose(bool survive) {
            std::deque<entry> gone;
            int was;
            {
                quiet qt;
                was = leader;
                leader = -1;
                if(was >= 0) {
                    nodes[size_t(was)].rs->m_leader = false;
                }
                std::swap(gone, q);
            }
            sched::until(
                [&]() {
                    return !busy;
                },
                "commit");
            for(auto& e : gone) {
                if(survive) {
                    apply(e, false);
                }
                e.r->set_result(
                    nullptr,
                    std::make_shared<std::runtime_error>("cancelled"),
                    nuraft::CANCELLED);
            }
            if(was >= 0) {
                tell(was, nuraft::cb_func::BecomeFollower);
            }
        }
        void elect(int n) {
            {
                quiet qt;
                leader = n;
                nodes[size_t(n)].rs->m_leader = true;
            }
            tell(n, nuraft::cb_func::BecomeLeader);
        }
        void tell(int n, nuraft::cb_func::Type t) {
            nuraft::cb_func::Param p;
            if(nodes[size_t(n)].rs->m_cb(t, &p) != nuraft::cb_func::Ok) {
                sched::fail("callback", "callback refused");
            }
        }
        void up(int n_nodes) {
            if(!wl.listen("127.0.0.1", wt_port)) {
                sched::fail("unexpected:listen", "listen");
            }
            wth = std::thread([this]() {
                std::vector<std::thread> ts;
                std::deque<network::tcp_socket> ks;
                while(true) {
                    ks.emplace_back();
                    auto& s = ks.back();
                    if(!wl.accept(s)) {
                        break;
                    }
                    ts.emplace_back([this, &s]() {
                        cbdc::buffer b;
                        while(s.receive(b)) {
                            quiet qt;
                            auto v = from_buffer<std::vector<wt::tx_error>>(b);
                            if(!v.has_value() || v->empty()) {
                                sched::fail("errors", "odd error message");
                            }
                            note_errors(*v, errs);
                        }
                    });
                }
                for(auto& t : ts) {
                    t.join();
                }
            });
            for(int n = 0; n < n_nodes; n++) {
                opts.m_atomizer_endpoints.push_back(
                    ep(uint16_t(at_port + n)));
                opts.m_atomizer_raft_endpoints.push_back(
                    ep(uint16_t(raft_port + n)));
            }
            opts.m_watchtower_internal_endpoints.push_back(ep(wt_port));
            opts.m_stxo_cache_depth = 2;
            opts.m_target_block_interval = interval_ms;
            opts.m_attestation_threshold = 0;
            nodes.resize(size_t(n_nodes));
            eng = std::thread([this]() {
                engine();
            });
            for(int n = 0; n < n_nodes; n++) {
                nuraft::shim::on_launch
                    = [this, n](const nuraft::ptr<nuraft::raft_server>& s) {
                          s->m_leader = false;
                          s->m_append
                              = [this,
                                 n](nuraft::raft_server&,
                                    const nuraft::ptr<nuraft::buffer>& b) {
                                    return append(n, b);
                                };
                          nodes[size_t(n)].rs = s;
                      };
                auto& x = nodes[size_t(n)];
                x.ctl = std::make_unique<at::controller>(uint32_t(n), opts,
                                                         logger());
                if(!x.ctl->init()) {
                    sched::fail("unexpected:init", "init");
                }
            }
        }
        void down() {
            depose(false);
            for(auto& n : nodes) {
                n.ctl.reset(); // must return
            }
            {
                std::lock_guard lk(m);
                quiet qt;
                over = true;
                cv.notify_one();
            }
            eng.join();
            wl.close();
            wth.join();
        }
    };
    struct follower {
        world& w;
        network::connection_manager net;
        std::thread t;
        std::vector<uint64_t> got;
        explicit follower(world& w_) : w(w_) {}
        void start() {
            (void)net.cluster_connect(w.opts.m_atomizer_endpoints, false);
            t = net.start_handler([this](network::message_t&& m)
                                      -> std::optional<cbdc::buffer> {
                quiet qt;
                auto b = from_buffer<at::block>(*m.m_pkt);
                if(!b.has_value()) {
                    sched::fail("broadcast", "undecodable block");
                }
                auto it = w.chain.find(b->m_height);
                if(it == w.chain.end() || it->second != show(*b)) {
                    sched::fail("broadcast",
                                "received block " + show(*b) + ", committed "
                                    + (it == w.chain.end() ? "none"
                                                           : it->second));
                }
                got.push_back(b->m_height);
                return std::nullopt;
            });
        }
        void finish() {
            net.close();
            if(t.joinable()) {
                t.join();
            }
        }
        void connected() {
            for(int k = 0; !net.connected_to_one(); k++) {
                if(k == 40) {
                    sched::fail("not-listening",
                                "no connection to the leader");
                }
                std::this_thread::sleep_for(std::chrono::milliseconds(500));
            }
        }
        bool note(char c, std::set<uint64_t> att) {
            at::tx_notify_request n;
            n.m_tx = mk(c);
            n.m_attestations.insert(att.begin(), att.end());
            {
                quiet qt;
                auto best = w.chain.empty() ? 0 : w.chain.rbegin()->first;
                // the conflicting ones are attested before either is spent
                if(c == 'a' || c == 'b') {
                    if(w.base == 0) {
                        w.base = best;
                    }
                    best = w.base;
                }
                n.m_block_height = best;
            }
            return net.send_to_one(at::request{n});
        }
        uint64_t seen() {
            quiet qt;
            uint64_t m = 0;
            for(auto g : got) {
                m = std::max(m, g);
            }
            return m;
        }
        size_t times(uint64_t h) {
            quiet qt;
            return size_t(std::count(got.begin(), got.end(), h));
        }
        // another block arrives, made after now
        void wait_block(const char* key = "no-blocks") {
            uint64_t best;
            {
                quiet qt;
                best = w.chain.empty() ? 0 : w.chain.rbegin()->first;
            }
            for(int k = 0; seen() <= best; k++) {
                if(k == 40) {
                    sched::fail(key,
                                mc::strf("no block after %llu arrives",
                                         (unsigned long long)best));
                }
                std::this_thread::sleep_for(
                    std::chrono::milliseconds(interval_ms));
            }
        }
        // in order, without gaps; `extra` were asked for
        void judge(std::multiset<uint64_t> extra, bool gaps) {
            quiet qt;
            uint64_t last = 0;
            for(auto g : got) {
                if(last != 0 && g <= last) {
                    auto it = extra.find(g);
                    if(it == extra.end()) {
                        sched::fail("order",
                                    mc::strf("block %llu received after "
                                             "%llu",
                                             (unsigned long long)g,
                                             (unsigned long long)last));
                    }
                    extra.erase(it);
                    continue;
                }
                if(last != 0 && g != last + 1 && !gaps) {
                    sched::fail("gap", mc::strf("block %llu follows %llu",
                                                (unsigned long long)g,
                                                (unsigned long long)last));
                }
                last = g;
            }
            if(!extra.empty()) {
                sched::fail("requested", "a requested block did not arrive");
            }
        }
    };
    size_t n_of(const std::string& s, char c) {
        return size_t(std::count(s.begin(), s.end(), c));
    }
    // every one of them is in one block or reported once
    void settled(world& w, const std::string& sent) {
        for(int k = 0;; k++) {
            sched::quiesce();
            std::string open;
            {
                quiet qt;
                for(auto c : sent) {
                    auto b = n_of(w.in_blocks, c), e = n_of(w.errs, c);
                    if(b + e > 1) {
                        sched::fail("twice",
                                    mc::strf("transaction %c in %zu blocks, "
                                             "reported %zu times",
                                             c, b, e));
                    }
                    if(b + e == 0) {
                        open += c;
                    }
                }
            }
            if(open.empty()) {
                return;
            }
            if(k == 30) {
                sched::fail("lost", "never in a block nor reported: " + open);
            }
            std::this_thread::sleep_for(
                std::chrono::milliseconds(interval_ms));
        }
    }
    void judge(world& w, bool exact) {
        quiet qt;
        for(auto& [c, t] : T) {
            if(n_of(w.in_blocks, c) > 1) {
                sched::fail("twice", "a transaction in two blocks");
            }
        }
        if(n_of(w.in_blocks, 'a') + n_of(w.in_blocks, 'b') > 1) {
            sched::fail("double-spend", "both conflicting ones in blocks");
        }
        uint64_t h = 1;
        for(auto& [g, b] : w.chain) {
            if(g != h++) {
                sched::fail("heights", "heights are not contiguous");
            }
        }
        auto d = w.due, e = w.errs;
        world::sorted(d);
        world::sorted(e);
        if(exact ? d != e : !std::includes(d.begin(), d.end(), e.begin(),
                                           e.end())) {
            sched::fail("errors", "errors for '" + d + "', the watchtower "
                                                       "received '"
                                      + e + "'");
        }
    }
    void drive(world& w, std::string& out) {
        const bool two = w.k == change;
        w.up(two ? 2 : 1);
        follower f(w), g(w);
        if(w.k == stop) {
            auto at_ = sched::choose(5, "stop", 0);
            if(at_ > 0) {
                w.elect(0);
            }
            if(at_ > 1) {
                f.start();
            }
            if(at_ > 2) {
                f.connected();
                (void)f.note('a', {0});
                (void)f.note('c', {0});
                (void)f.note('b', {0, 1});
            }
            if(at_ > 3) {
                (void)f.net.send_to_one(
                    at::request{at::get_block_request{1}});
            }
            w.down();
            f.finish();
            judge(w, false);
            out = mc::strf("%u %zu", at_, w.chain.size());
            return;
        }
        // starting is explored elsewhere
        sched::calm(w.k == change);
        w.elect(0);
        f.start();
        f.connected();
        f.wait_block();
        sched::calm(false);
        std::multiset<uint64_t> extra;
        switch(w.k) {
            case one:
                (void)f.note('a', {0});
                (void)f.note('c', {1});
                (void)f.note('b', {0, 1});
                (void)f.note('m', {});
                (void)f.note('c', {0});
                settled(w, "abcm");
                break;
            case reject:
                (void)f.note('a', {0});
                (void)f.note('m', {});
                settled(w, "am");
                break;
            case ask: {
                g.start();
                g.connected();
                cbdc::buffer junk;
                junk.append("\x07\x07\x07", 3);
                (void)f.net.send_to_one(junk);
                (void)f.note('m', {});
                settled(w, "m");
                auto get = [&](uint64_t h) {
                    (void)f.net.send_to_one(
                        at::request{at::get_block_request{h}});
                };
                auto till = [&](uint64_t h, size_t n) {
                    for(int k = 0; f.times(h) < n; k++) {
                        if(k == 20) {
                            sched::fail("requested",
                                        "a requested block does not arrive");
                        }
                        std::this_thread::sleep_for(
                            std::chrono::milliseconds(interval_ms));
                    }
                };
                f.wait_block();
                auto before1 = f.times(1), before2 = f.times(2);
                get(1);
                get(77);
                till(1, before1 + 1);
                (void)f.net.send_to_one(
                    at::request{at::prune_request{2}});
                get(1);
                get(2);
                till(2, before2 + 1);
                f.wait_block();
                if(f.times(1) != before1 + 1) {
                    sched::fail("pruned", "a pruned block was sent");
                }
                {
                    quiet qt;
                    // asked for before, or after, it was received
                    auto first = *std::min_element(f.got.begin(),
                                                   f.got.end());
                    (void)first;
                    auto add = [&](uint64_t h) {
                        if(f.got.front() != h || before1 > 0 || h != 1) {
                            extra.insert(h);
                        }
                    };
                    add(1);
                    add(2);
                }
                break;
            }
            case change:
            case flap: {
                (void)f.note('a', {0});
                (void)f.note('c', {0});
                auto next = two ? 1 : 0;
                bool survive = sched::choose(2, "survive", 0) == 1;
                sched::calm(two);
                std::thread el([&]() {
                    w.depose(survive);
                    w.elect(next);
                });
                (void)f.note('m', {});
                el.join();
                // until the follower tries again
                sched::calm(true);
                f.wait_block("after-election");
                sched::calm(two);
                // whoever was told at the right time
                auto send = [&](char c, std::set<uint64_t> a) {
                    for(int k = 0; !f.note(c, a); k++) {
                        if(k == 20) {
                            sched::fail("not-listening", "cannot send");
                        }
                        std::this_thread::sleep_for(
                            std::chrono::milliseconds(500));
                    }
                };
                send('b', {0, 1});
                send('n', {});
                settled(w, "bn");
                if(two) {
                    sched::calm(false);
                    std::thread el2([&]() {
                        w.depose(!survive);
                        w.elect(0);
                    });
                    el2.join();
                    sched::calm(true);
                    f.wait_block("after-election");
                    send('o', {0});
                    settled(w, "bno");
                }
                break;
            }
            case stop:
                break;
        }
        f.wait_block();
        sched::quiesce();
        w.down();
        f.finish();
        g.finish();
        f.judge(extra, w.k == change || w.k == flap);
        g.judge({}, false);
        judge(w, w.k == one || w.k == ask);
        out = w.in_blocks + "|" + w.errs;
    }
    void go(mc::ctx& c, kind k) {
        std::string out;
        static bool there = chdir(mc::scratch().c_str()) == 0;
        (void)there;
        sched::options o;
        o.max_steps = 200000;
        sched::run(c, o, [&]() {
            simnet::reset({});
            world w;
            w.k = k;
            drive(w, out);
            nuraft::shim::on_launch = nullptr;
        });
        if(!c.failed()) {
            c.outcome(out);
        }
    }
}
unsigned std::thread::hardware_concurrency() noexcept {
    return 2;
}
int main(int argc, char** argv) {
    uint32_t b = mc::thorough() ? 2 : 1;
    std::vector<mc::scenario> s;
    auto add = [&](const char* n, kind k) {
        s.push_back({n, [=](mc::ctx& c) { go(c, k); }, b, 8, 2, ""});
    };
    add("one atomizer", one);
    add("blocks asked for and pruned", ask);
    add("leadership moves and returns", change);
    add("leadership lost and regained", flap);
    add("stopped at any point", stop);
    add("replication refuses", reject);
    return mc::main(argc, argv, "C35", "model_checking",
                    "every schedule within the preemption bound of the real "
                    "atomizer controllers with followers, watchtower and "
                    "leader changes; non-trivial = distinct sets of settled "
                    "transactions",
                    {"consensus is a stand-in: entries commit in order, "
                     "results of a deposed leader are cancelled",
                     "stopping the consensus library waits for its callbacks",
                     "callbacks run without a lock the request path needs"},
                    s);
}
