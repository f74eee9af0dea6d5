// C34: the real shard and watchtower controllers follow the chain. Scripted
// atomizers broadcast blocks (lost, repeated, late); a scripted archiver lags,
// drops connections or is away; clients ask meanwhile.
#include "common.hpp"
#include "mc/memdb.hpp"
#include "mc/sched.hpp"
#include "mc/simnet.hpp"
#include "uhs/atomizer/archiver/controller.hpp"
#include "uhs/atomizer/atomizer/atomizer_raft.hpp"
#include "uhs/atomizer/atomizer/format.hpp"
#include "uhs/atomizer/shard/controller.hpp"
#include "uhs/atomizer/watchtower/client.hpp"
#include "uhs/atomizer/watchtower/controller.hpp"
#include "uhs/transaction/messages.hpp"
#include "util/serialization/format.hpp"
#include "util/serialization/util.hpp"

#include <algorithm>
#include <mutex>
#include <thread>
using namespace h;
using quiet = sched::atomic_section;
namespace wt = cbdc::watchtower;
namespace {
    constexpr uint16_t at_port = 6000, arch_port = 7000, wti_port = 8000,
                       sh_port = 9000, wtc_port = 9100;
    network::endpoint_t ep(uint16_t p) {
        return {"127.0.0.1", p};
    }
    // ids 0..7; 3 and 6 are kept by another shard
    hash_t uid(int k) {
        return id(k % 3 == 0 && k != 0 ? uint8_t(200 + k) : uint8_t(10 + k),
                  uint32_t(k));
    }
    constexpr int n_ids = 8;
    struct txd {
        std::vector<int> in, out;
        uint64_t at; // its block
    };
    const std::vector<txd> txs{{{}, {0, 1}, 1},  {{0}, {2, 3}, 2},
                               {{1, 2}, {4}, 3}, {{}, {5}, 3},
                               {{5}, {6}, 4},    {{4, 6}, {0}, 5}};
    hash_t tid(int t) {
        return id(uint8_t(100 + t), 77);
    }
    transaction::compact_tx mk(int t) {
        std::vector<hash_t> i, o;
        for(auto x : txs[size_t(t)].in) {
            i.push_back(uid(x));
        }
        for(auto x : txs[size_t(t)].out) {
            o.push_back(uid(x));
        }
        return ctx_tx(tid(t), i, o);
    }
    cbdc::atomizer::block chain(uint64_t h) {
        cbdc::atomizer::block b;
        b.m_height = h;
        for(int t = 0; t < int(txs.size()); t++) {
            if(txs[size_t(t)].at == h) {
                b.m_transactions.push_back(mk(t));
            }
        }
        return b;
    }
    std::set<int> fold(uint64_t h) {
        std::set<int> s;
        for(auto& t : txs) {
            if(t.at <= h) {
                for(auto o : t.out) {
                    s.insert(o);
                }
                for(auto i : t.in) {
                    s.erase(i);
                }
            }
        }
        return s;
    }
    bool here(int k) {
        return uid(k)[0] < 128;
    }
    struct setup {
        bool tower{false};
        // blocks each atomizer broadcasts, per connection to it
        std::vector<std::vector<std::vector<uint64_t>>> feed;
        uint32_t missing{0}; // archiver: first requests find nothing
        int drop{-1};        // archiver: request that loses the connection
        bool away{false};    // archiver: refuses connections at first
        bool client{false};  // asks while blocks arrive
        bool stop{false};    // stopped while the archiver has nothing
        bool sign{false};    // attestations of a sentinel are required
        int preload{0};      // shard: blocks digested before a restart
    };
    struct world {
        setup s;
        uint64_t top{0};
        bool over{false};
        size_t done_feeds{0};
        std::vector<cbdc::atomizer::tx_notify_request> notes;
        std::vector<wt::tx_error> errs;
        uint32_t asked{0};
        std::vector<std::unique_ptr<network::tcp_listener>> ls;
        std::vector<std::thread> t;
        network::tcp_listener& listen(uint16_t port) {
            ls.push_back(std::make_unique<network::tcp_listener>());
            if(!ls.back()->listen("127.0.0.1", port)) {
                sched::fail("unexpected:listen", "listen");
            }
            return *ls.back();
        }
        void atomizers() {
            for(size_t a = 0; a < s.feed.size(); a++) {
                auto& l = listen(uint16_t(at_port + a));
                t.emplace_back([this, a, &l]() {
                    for(auto& f : s.feed[a]) {
                        network::tcp_socket k;
                        if(!l.accept(k)) {
                            return;
                        }
                        std::thread rd([&]() {
                            cbdc::buffer b;
                            while(k.receive(b)) {
                                auto r
                                    = from_buffer<cbdc::atomizer::request>(b);
                                auto* n = r.has_value()
                                            ? std::get_if<
                                                cbdc::atomizer::
                                                    tx_notify_request>(&*r)
                                            : nullptr;
                                if(n == nullptr) {
                                    sched::fail("request",
                                                "odd request to the "
                                                "atomizer");
                                }
                                quiet q;
                                notes.push_back(*n);
                            }
                        });
                        for(auto h : f) {
                            (void)k.send(chain(h));
                        }
                        {
                            quiet q;
                            done_feeds++;
                        }
                        rd.join();
                    }
                });
            }
        }
        void archiver() {
            auto& l = listen(arch_port);
            if(s.away) {
                simnet::refuse(arch_port, true);
                t.emplace_back([]() {
                    std::this_thread::sleep_for(
                        std::chrono::milliseconds(3500));
                    simnet::refuse(arch_port, false);
                });
            }
            t.emplace_back([this, &l]() {
                while(true) {
                    network::tcp_socket k;
                    if(!l.accept(k)) {
                        return;
                    }
                    cbdc::buffer b;
                    while(k.receive(b)) {
                        auto h = from_buffer<uint64_t>(b);
                        if(!h.has_value() || *h == 0 || *h > top) {
                            sched::fail("archiver-request",
                                        "a block is requested that cannot "
                                        "be missing");
                        }
                        cbdc::archiver::response r;
                        bool drop = false;
                        {
                            quiet q;
                            if(asked >= s.missing && !s.stop) {
                                r = chain(*h);
                            }
                            drop = int(asked) == s.drop;
                            asked++;
                        }
                        if(drop) {
                            break;
                        }
                        (void)k.send(r);
                    }
                }
            });
        }
        void errors() {
            auto& l = listen(wti_port);
            t.emplace_back([this, &l]() {
                while(true) {
                    network::tcp_socket k;
                    if(!l.accept(k)) {
                        return;
                    }
                    cbdc::buffer b;
                    while(k.receive(b)) {
                        auto v = from_buffer<std::vector<wt::tx_error>>(b);
                        if(!v.has_value() || v->empty()) {
                            sched::fail("errors", "odd error message");
                        }
                        quiet q;
                        for(auto& e : *v) {
                            errs.push_back(e);
                        }
                    }
                }
            });
        }
        void close() {
            over = true;
            for(auto& l : ls) {
                l->close();
            }
            for(auto& x : t) {
                x.join();
            }
        }
        size_t feeds() const {
            size_t n = 0;
            for(auto& a : s.feed) {
                n += a.size();
            }
            return n;
        }
        config::options opts() const {
            config::options o;
            for(size_t a = 0; a < s.feed.size(); a++) {
                o.m_atomizer_endpoints.push_back(ep(uint16_t(at_port + a)));
            }
            o.m_archiver_endpoints.push_back(ep(arch_port));
            o.m_watchtower_internal_endpoints.push_back(ep(wti_port));
            o.m_watchtower_client_endpoints.push_back(ep(wtc_port));
            o.m_shard_endpoints.push_back(ep(sh_port));
            o.m_shard_db_dirs.push_back("db");
            o.m_shard_ranges.push_back({0, 127});
            o.m_watchtower_block_cache_size = 2;
            o.m_watchtower_error_cache_size = 4;
            o.m_attestation_threshold = s.sign ? 1 : 0;
            if(s.sign) {
                o.m_sentinel_public_keys.insert(pub(1));
            }
            return o;
        }
    };
    // --- the shard ---
    // the transaction asking about one id; `n` tells them apart
    transaction::compact_tx probe(int k, uint32_t n) {
        return ctx_tx(id(uint8_t(k), 500 + n), {uid(k)}, {uid(k)});
    }
    // every answer must be the truth at its height
    void judge(world& w, bool final, uint64_t& best) {
        quiet q;
        best = 0;
        for(auto& n : w.notes) {
            auto& x = n.m_tx;
            int k = -1;
            for(int j = 0; j < n_ids; j++) {
                if(x.m_inputs == std::vector<hash_t>{uid(j)}) {
                    k = j;
                }
            }
            auto h = n.m_block_height;
            best = std::max(best, h);
            if(k < 0 || x.m_id[0] != k || h == 0 || h > w.top) {
                sched::fail("notification", "odd notification");
            }
            auto want = here(k) ? size_t(1) : size_t(0);
            if(n.m_attestations.size() != want
               || (want == 1 && fold(h).count(k) == 0)
               || (final && h != w.top)) {
                sched::fail("attested",
                            mc::strf("id %d attested at height %llu, chain "
                                     "at %llu: not so",
                                     k, (unsigned long long)h,
                                     (unsigned long long)w.top));
            }
        }
        for(auto& e : w.errs) {
            int k = e.tx_id()[0];
            auto i = e.info();
            if(std::holds_alternative<wt::tx_error_sync>(i) && !final) {
                continue;
            }
            auto* d = std::get_if<wt::tx_error_inputs_dne>(&i);
            bool ok = false;
            for(uint64_t h = final ? w.top : 1; h <= w.top; h++) {
                ok |= fold(h).count(k) == 0;
            }
            if(d == nullptr || k >= n_ids || !here(k) || !ok
               || d->input_uhs_ids() != std::vector<hash_t>{uid(k)}) {
                sched::fail("refused",
                            mc::strf("id %d refused, chain at %llu: %s", k,
                                     (unsigned long long)w.top,
                                     e.to_string().c_str()));
            }
        }
    }
    // Until everything asked is answered; every transaction once.
    void answered(world& w, size_t n) {
        for(int k = 0;; k++) {
            sched::quiesce();
            {
                quiet q;
                if(w.notes.size() + w.errs.size() >= n) {
                    if(w.notes.size() + w.errs.size() > n) {
                        sched::fail("twice", "a transaction answered twice");
                    }
                    return;
                }
            }
            if(k == 20) {
                sched::fail("unanswered",
                            mc::strf("%zu transactions of %zu answered",
                                     w.notes.size() + w.errs.size(), n));
            }
            std::this_thread::sleep_for(std::chrono::milliseconds(20));
        }
    }
    void drive_shard(world& w, bool ask) {
        cbdc::shard::controller ctl(0, w.opts(), logger());
        if(!ctl.init()) {
            sched::fail("unexpected:init", "init");
        }
        if(w.s.stop) {
            return; // must be able to stop
        }
        network::tcp_socket k;
        if(!k.connect(ep(sh_port))) {
            sched::fail("unexpected:connect", "connect");
        }
        size_t sent = 0;
        uint32_t n = 0;
        auto send = [&](int i) {
            auto p = probe(i, n++);
            if(w.s.sign) {
                // one nobody signed, one signed by a stranger: no answers
                (void)k.send(p);
                auto q = p;
                q.m_attestations.insert(q.sign(secp(), priv(2)));
                (void)k.send(q);
                p.m_attestations.insert(p.sign(secp(), priv(1)));
            }
            sent++;
            if(!k.send(p)) {
                sched::fail("unexpected:send", "send");
            }
        };
        if(ask) {
            for(int i : {0, 2, 5, 3}) {
                send(i);
            }
        }
        sched::until(
            [&]() {
                quiet q;
                return w.done_feeds == w.feeds() || !ask;
            },
            "broadcast");
        answered(w, sent);
        uint64_t best = 0;
        judge(w, false, best);
        // the shard gets to the top
        for(int tries = 0;; tries++) {
            send(0);
            answered(w, sent);
            judge(w, false, best);
            send(3);
            answered(w, sent);
            judge(w, false, best);
            if(best == w.top) {
                break;
            }
            if(tries == 20) {
                sched::fail("behind",
                            mc::strf("the shard stays at height %llu of %llu",
                                     (unsigned long long)best,
                                     (unsigned long long)w.top));
            }
            std::this_thread::sleep_for(std::chrono::milliseconds(400));
        }
        {
            quiet q;
            w.notes.clear();
            w.errs.clear();
        }
        sent = 0;
        for(int i = 0; i < n_ids; i++) {
            send(i);
        }
        answered(w, sent);
        judge(w, true, best);
        {
            quiet q;
            for(int i = 0; i < n_ids; i++) {
                bool yes = false, no = false;
                for(auto& x : w.notes) {
                    yes |= x.m_tx.m_id[0] == i;
                }
                for(auto& x : w.errs) {
                    no |= x.tx_id()[0] == i;
                }
                if(yes == no) {
                    sched::fail("answers", "not one answer per transaction");
                }
            }
            w.notes.clear();
            w.errs.clear();
        }
    }
    void run_shard(mc::ctx& c, const setup& s) {
        std::string out;
        sched::options o;
        sched::run(c, o, [&]() {
            simnet::reset({});
            memdb::reset();
            world w;
            w.s = s;
            for(auto& a : s.feed) {
                for(auto& f : a) {
                    for(auto h : f) {
                        w.top = std::max(w.top, h);
                    }
                }
            }
            if(s.preload > 0) {
                quiet q;
                cbdc::shard::shard p({0, 127});
                (void)p.open_db("db");
                for(uint64_t h = 1; h <= uint64_t(s.preload); h++) {
                    (void)p.digest_block(chain(h));
                }
            }
            w.atomizers();
            w.archiver();
            w.errors();
            drive_shard(w, s.client);
            out = mc::strf("%u %u", w.asked, sched::steps() / 64);
            w.close();
        });
        if(!c.failed()) {
            c.outcome(out);
        }
    }
    // --- the watchtower ---
    void run_tower(mc::ctx& c, const setup& s) {
        std::string out;
        uint64_t top = 0;
        for(auto& a : s.feed) {
            for(auto& f : a) {
                for(auto h : f) {
                    top = std::max(top, h);
                }
            }
        }
        // never in a block
        const wt::tx_error lost{tid(9), wt::tx_error_inputs_dne{{uid(7)}}};
        std::string ref;
        auto show = [](const wt::status_request_check_success& r) {
            std::map<hash_t, std::string> m;
            for(auto& [t, v] : r.states()) {
                for(auto& x : v) {
                    m[t] += mc::strf(" %s %d@%llu", hx(x.uhs_id()).c_str(),
                                     int(x.status()),
                                     (unsigned long long)x.block_height());
                }
            }
            std::string z;
            for(auto& [t, v] : m) {
                z += hx(t) + ":" + v + "; ";
            }
            return z;
        };
        wt::tx_id_uhs_ids ask;
        for(int t = 0; t < int(txs.size()); t++) {
            for(int i = 0; i < n_ids; i++) {
                ask[tid(t)].push_back(uid(i));
            }
        }
        ask[tid(9)].push_back(uid(7));
        {
            wt::watchtower x(2, 4);
            for(uint64_t h = 1; h <= top; h++) {
                x.add_block(chain(h));
            }
            x.add_errors({lost});
            auto r = x.handle_status_update_request(
                wt::status_update_request{ask});
            ref = show(std::get<wt::status_request_check_success>(
                r->payload()));
        }
        sched::options o;
        sched::run(c, o, [&]() {
            simnet::reset({});
            memdb::reset();
            world w;
            w.s = s;
            for(auto& a : s.feed) {
                for(auto& f : a) {
                    for(auto h : f) {
                        w.top = std::max(w.top, h);
                    }
                }
            }
            w.atomizers();
            w.archiver();
            {
                wt::controller ctl(0, w.opts(), logger());
                if(!ctl.init()) {
                    sched::fail("unexpected:init", "init");
                }
                if(!s.stop) {
                    network::tcp_socket k;
                    if(!k.connect(ep(wti_port))
                       || !k.send(std::vector<wt::tx_error>{lost})) {
                        sched::fail("unexpected:connect", "connect");
                    }
                    wt::blocking_client cl(ep(wtc_port));
                    if(!cl.init()) {
                        sched::fail("unexpected:connect", "connect");
                    }
                    uint64_t best = 0;
                    for(int tries = 0; best != w.top; tries++) {
                        auto r = cl.request_best_block_height();
                        auto g = ctl.get_block_height();
                        if(!r || r->height() < best || r->height() > w.top
                           || g < r->height() || g > w.top) {
                            sched::fail("height",
                                        mc::strf("answered height %llu after "
                                                 "%llu, chain at %llu",
                                                 (unsigned long long)(
                                                     r ? r->height() : 0),
                                                 (unsigned long long)best,
                                                 (unsigned long long)w.top));
                        }
                        best = r->height();
                        if(tries == 20) {
                            sched::fail("behind",
                                        mc::strf("the watchtower stays at "
                                                 "height %llu of %llu",
                                                 (unsigned long long)best,
                                                 (unsigned long long)w.top));
                        }
                        if(best != w.top && tries > 2) {
                            std::this_thread::sleep_for(
                                std::chrono::milliseconds(300));
                        }
                    }
                    sched::until(
                        [&]() {
                            quiet q;
                            return w.done_feeds == w.feeds();
                        },
                        "broadcast");
                    sched::quiesce();
                    auto r = cl.request_status_update(
                        wt::status_update_request{ask});
                    auto h = cl.request_best_block_height();
                    if(!r || !h) {
                        sched::fail("no-answer", "no answer");
                    }
                    if(h->height() != w.top) {
                        sched::fail("height", "the height went back");
                    }
                    auto got = show(*r);
                    if(got != ref) {
                        sched::fail("status",
                                    "answers " + got + " must be " + ref);
                    }
                }
            }
            out = mc::strf("%u %u", w.asked, sched::steps() / 64);
            w.close();
        });
        if(!c.failed()) {
            c.outcome(out);
        }
    }
}
// two request threads per shard
unsigned std::thread::hardware_concurrency() noexcept {
    return 2;
}
int main(int argc, char** argv) {
    bool th = mc::thorough();
    uint32_t b = th ? 2 : 1;
    std::vector<mc::scenario> s;
    auto add = [&](const char* n, setup x, uint32_t bound) {
        for(bool tower : {false, true}) {
            if(tower && (x.preload != 0 || x.sign)) {
                continue;
            }
            x.tower = tower;
            s.push_back({std::string(tower ? "watchtower: " : "shard: ") + n,
                         [=](mc::ctx& c) {
                             tower ? run_tower(c, x) : run_shard(c, x);
                         },
                         bound, 8, 2, ""});
        }
    };
    setup x;
    x.client = true;
    x.feed = {{{1, 2, 3}}};
    add("in order", x, b);
    x.sign = true;
    x.feed = {{{1, 2}}};
    add("attestations required", x, b);
    x = {};
    x.feed = {{{1, 4, 5}}};
    add("gap", x, b);
    x.feed = {{{1, 2, 2, 1, 3}}};
    add("repeated blocks", x, b);
    x.feed = {{{2, 5, 3, 4}}};
    add("late blocks", x, b);
    x.feed = {{{1, 3}}, {{2, 4}}};
    add("two atomizers", x, b);
    x.feed = {{{1}, {3, 4}}, {{}}};
    x.missing = 2;
    x.feed = {{{1, 4}}};
    add("archiver lags", x, b);
    x.missing = 0;
    x.drop = 1;
    add("archiver loses the connection", x, b);
    x.drop = -1;
    x.away = true;
    add("archiver comes up late", x, b);
    x.away = false;
    x.stop = true;
    x.feed = {{{3}}};
    add("stopped while blocks are missing", x, b);
    x.stop = false;
    x.preload = 2;
    x.feed = {{{5}}};
    add("restarted", x, b);
    return mc::main(argc, argv, "C34", "model_checking",
                    "every schedule within the preemption bound of the real "
                    "controllers against scripted atomizers and archiver; "
                    "non-trivial = distinct request counts and lengths",
                    {"leveldb is replaced by an in-memory stand-in with "
                     "atomic batches",
                     "the archiver answers or the connection breaks"},
                    s);
}
