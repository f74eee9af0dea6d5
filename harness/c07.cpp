// C07: the replicated atomizer across snapshots, restarts and crashes.
// Every replica's answers are compared with those of a replica that executed
// the whole log in one go.
#include "common.hpp"
#include "mc/recfs.hpp"
#include "uhs/atomizer/atomizer/format.hpp"
#include "uhs/atomizer/atomizer/state_machine.hpp"
#include "util/raft/serialization.hpp"
#include "util/raft/util.hpp"
#include "util/serialization/format.hpp"
#include "util/serialization/util.hpp"

#include <sys/wait.h>
#include <unistd.h>
using namespace h;
using sm_t = cbdc::atomizer::state_machine;
namespace {
    constexpr size_t depth = 1;
    transaction::compact_tx T(int t) {
        // t0, t1 conflict; t2 independent; t3 spends nothing
        static const std::vector<std::vector<hash_t>> in{
            {id(1, 1)},
            {id(1, 1), id(2, 1)},
            {id(3, 1)},
            {}};
        auto x = ctx_tx(id(uint8_t(100 + t), 9),
                        in[size_t(t)],
                        {id(uint8_t(150 + t), 9), id(uint8_t(160 + t), 9)});
        if(t == 1) {
            x.m_attestations.insert({{1, 2, 3}, {4, 5, 6}});
        }
        return x;
    }
    struct entry {
        const char* name;
        int kind; // 0 txs, 1 block, 2 get, 3 prune, 4 configuration
        std::vector<std::pair<int, int>> txs; // (transaction, age)
        int arg{};                            // relative to the best height
    };
    const std::vector<entry> menu{
        {"block", 1, {}, 0},
        {"t0", 0, {{0, 0}}, 0},
        {"t1,t2", 0, {{1, 1}, {2, 0}}, 0},
        {"mint", 0, {{3, 0}}, 0},
        {"stale", 0, {{2, 2}}, 0},
        {"prune", 3, {}, 0},
        {"config", 4, {}, 0},
    };
    nuraft::ptr<nuraft::buffer> encode(const entry& e, uint64_t best) {
        sm_t::request r;
        switch(e.kind) {
            case 0: {
                cbdc::atomizer::aggregate_tx_notify_request a;
                for(auto& [t, age] : e.txs) {
                    cbdc::atomizer::aggregate_tx_notification n;
                    n.m_tx = T(t);
                    n.m_oldest_attestation = best - uint64_t(age);
                    a.m_agg_txs.push_back(n);
                }
                r = a;
                break;
            }
            case 1:
                r = cbdc::atomizer::make_block_request{};
                break;
            case 2:
                r = cbdc::atomizer::get_block_request{uint64_t(e.arg)};
                break;
            default:
                r = cbdc::atomizer::prune_request{best};
        }
        return make_buffer<sm_t::request, nuraft::ptr<nuraft::buffer>>(r);
    }
    // Answer in a form that can be compared.
    std::string show(const transaction::compact_tx& x) {
        std::string s = hx(x.m_id) + "(";
        for(auto& i : x.m_inputs) {
            s += hx(i) + " ";
        }
        s += ">";
        for(auto& i : x.m_uhs_outputs) {
            s += hx(i) + " ";
        }
        for(auto& [k, v] : x.m_attestations) {
            s += mc::strf("a%d%d", k[0], v[0]);
        }
        return s + ")";
    }
    std::string show(const cbdc::atomizer::block& b) {
        auto s = mc::strf("block %llu:", (unsigned long long)b.m_height);
        for(auto& x : b.m_transactions) {
            s += show(x);
        }
        return s;
    }
    std::string show(const std::vector<cbdc::watchtower::tx_error>& v) {
        std::string s;
        for(auto& e : v) {
            auto i = e.info();
            s += mc::strf("err %zu ", i.index()) + hx(e.tx_id());
            if(auto* p = std::get_if<cbdc::watchtower::tx_error_inputs_spent>(
                   &i)) {
                std::set<hash_t> o;
                for(auto& x : p->input_uhs_ids()) {
                    o.insert(x);
                }
                for(auto& x : o) {
                    s += hx(x);
                }
            }
        }
        return s;
    }
    std::string answer(const nuraft::ptr<nuraft::buffer>& b) {
        if(!b) {
            return "-";
        }
        auto r = from_buffer<sm_t::response>(*b);
        if(!r.has_value()) {
            return "undecodable";
        }
        if(auto* m
           = std::get_if<cbdc::atomizer::make_block_response>(&*r)) {
            return show(m->m_blk) + show(m->m_errs);
        }
        if(auto* g = std::get_if<cbdc::atomizer::get_block_response>(&*r)) {
            return show(g->m_blk);
        }
        return show(std::get<cbdc::atomizer::errors>(*r));
    }
    struct logent {
        entry e;
        uint64_t best;
        std::string want; // answer of the reference
    };
    std::string exec(sm_t& s, const logent& l) {
        auto idx = s.last_commit_index() + 1;
        if(l.e.kind == 4) {
            auto c = nuraft::cs_new<nuraft::cluster_config>();
            s.commit_config(idx, c);
            return "config";
        }
        auto b = encode(l.e, l.best);
        b->pos(0);
        return answer(s.commit(idx, *b));
    }
    nuraft::ptr<nuraft::snapshot> snap(uint64_t idx) {
        auto c = nuraft::cs_new<nuraft::cluster_config>();
        return nuraft::cs_new<nuraft::snapshot>(idx, 1, c);
    }
    bool take(sm_t& s, uint64_t idx) {
        bool done = false;
        nuraft::async_result<bool>::handler_type hd
            = [&](bool& r, nuraft::ptr<std::exception>&) { done = r; };
        auto sn = snap(idx);
        s.create_snapshot(*sn, hd);
        return done;
    }
    std::string dir(const char* n) {
        static int k = 0;
        return mc::scratch() + "/" + n + std::to_string(k++);
    }
    struct dirs {
        std::vector<std::string> d;
        std::string make(const char* n) {
            d.push_back(dir(n));
            return d.back();
        }
        ~dirs() {
            for(auto& x : d) {
                recfs::remove_dir(x);
            }
        }
    };
    // what every replica must answer to after the log: all blocks, one more
    // block, a stale and a conflicting transaction
    std::vector<entry> probes(uint64_t best) {
        std::vector<entry> r;
        for(uint64_t k = 0; k <= best + 1; k++) {
            r.push_back({"get", 2, {}, int(k)});
        }
        r.push_back({"all", 0, {{0, 0}, {1, 1}, {2, 0}}, 0});
        r.push_back({"block", 1, {}, 0});
        r.push_back({"all-stale", 0, {{0, 1}, {1, 0}, {2, 2}}, 0});
        r.push_back({"block", 1, {}, 0});
        return r;
    }
    struct history {
        std::vector<logent> log; // including the probes
        size_t n{};              // entries before the probes
        std::string text;
    };
    // a fixed log of eight entries before the chosen ones
    const std::vector<size_t> long_start{1, 0, 3, 0, 2, 0, 6, 4};
    history make(mc::ctx& c, uint32_t len, dirs& d, uint32_t fixed = 0) {
        history h;
        sm_t ref(depth, d.make("ref"));
        uint64_t best = 0;
        std::map<uint64_t, std::string> blocks;
        cbdc::atomizer::atomizer plain(0, depth);
        auto same = [&](const std::string& want, const std::string& got) {
            if(want != got && !c.failed()) {
                c.fail("atomizer-answer", "log%s: answered %s, must be %s",
                       h.text.c_str(), got.c_str(), want.c_str());
            }
        };
        auto run = [&](const entry& e) {
            logent l{e, best, {}};
            l.want = exec(ref, l);
            // an atomizer given the same transactions answers the same
            if(e.kind == 0) {
                cbdc::atomizer::errors errs;
                for(auto& [t, age] : e.txs) {
                    auto x = plain.insert_complete(l.best - uint64_t(age),
                                                   T(t));
                    if(x.has_value()) {
                        errs.push_back(*x);
                    }
                }
                same(errs.empty() ? "-" : show(errs), l.want);
            } else if(e.kind == 1) {
                auto [b, errs] = plain.make_block();
                same(show(b) + show(errs), l.want);
            }
            // blocks stay available until they are pruned
            if(e.kind == 1) {
                best++;
                blocks[best] = l.want;
            } else if(e.kind == 3) {
                blocks.erase(blocks.begin(), blocks.lower_bound(l.best));
            } else if(e.kind == 2) {
                auto it = blocks.find(uint64_t(e.arg));
                bool ok = it == blocks.end()
                            ? l.want == "-"
                            : l.want.size() > 6
                                  && it->second.compare(0, l.want.size(),
                                                        l.want)
                                         == 0;
                if(!ok && !c.failed()) {
                    c.fail("block-cache",
                           "log%s: block %d is answered %s, must be %s",
                           h.text.c_str(), e.arg, l.want.c_str(),
                           it == blocks.end() ? "nothing"
                                              : it->second.c_str());
                }
            }
            h.log.push_back(l);
        };
        for(uint32_t k = 0; k < fixed + len; k++) {
            auto& e = menu[k < fixed
                               ? long_start[k % long_start.size()]
                               : c.choose(uint32_t(menu.size()), "entry")];
            h.text += std::string(" ") + e.name;
            run(e);
        }
        h.n = h.log.size();
        auto b = best;
        for(auto& e : probes(b)) {
            run(e);
        }
        return h;
    }
    // executes log entries from the replica's index on; "" when all answers
    // agree
    std::string follow(mc::ctx& c, sm_t& s, const history& h, size_t upto) {
        while(s.last_commit_index() < upto) {
            auto k = s.last_commit_index();
            auto got = exec(s, h.log[k]);
            if(s.last_commit_index() != k + 1) {
                return "index did not advance by one";
            }
            if(got != h.log[k].want) {
                return mc::strf("entry %llu (%s) answered %s, must be %s",
                                (unsigned long long)k + 1,
                                h.log[k].e.name,
                                got.c_str(),
                                h.log[k].want.c_str());
            }
            c.agreed();
        }
        return {};
    }
    void bad(mc::ctx& c, const char* key, const history& h,
             const std::string& what, const std::string& why) {
        c.fail(key, "log%s; %s: %s", h.text.c_str(), what.c_str(), why.c_str());
    }
    // snapshots at one or two positions, restart, replay of the rest
    void restart(mc::ctx& c, uint32_t len, uint32_t fixed = 0) {
        dirs d;
        auto h = make(c, len, d, fixed);
        auto s1 = fixed + c.choose(uint32_t(h.n - fixed + 1), "snapshot");
        auto s2 = s1 + c.choose(uint32_t(h.n - s1 + 1), "second snapshot");
        auto dd = d.make("sm");
        auto what = mc::strf("snapshots after %u and %u", s1, s2);
        {
            sm_t s(depth, dd);
            for(auto at : {s1, s2}) {
                auto w = follow(c, s, h, at);
                if(!w.empty()) {
                    bad(c, "answer", h, what, w);
                    return;
                }
                if(at != 0 && !take(s, at)) {
                    bad(c, "create", h, what, "snapshot not taken");
                    return;
                }
                auto l = s.last_snapshot();
                if((l == nullptr) != (at == 0)
                   || (l != nullptr && l->get_last_log_idx() != at)) {
                    bad(c, "last", h, what, "wrong last snapshot");
                    return;
                }
            }
            // the replica goes on unharmed
            auto w = follow(c, s, h, h.log.size());
            if(!w.empty()) {
                bad(c, "answer", h, what + ", same replica", w);
                return;
            }
        }
        sm_t r(depth, dd);
        if(r.last_commit_index() != s2) {
            bad(c,
                "restart-index",
                h,
                what,
                mc::strf("restarted at %llu",
                         (unsigned long long)r.last_commit_index()));
            return;
        }
        auto w = follow(c, r, h, h.log.size());
        if(!w.empty()) {
            bad(c, "answer-restarted", h, what + ", restarted", w);
            return;
        }
        c.outcome(h.text + what);
    }
    // a follower (fresh, or having executed a prefix, or with a snapshot of
    // its own) receives the leader's snapshot
    void install(mc::ctx& c, uint32_t len) {
        dirs d;
        auto h = make(c, len, d);
        if(h.n == 0) {
            return;
        }
        auto s1 = 1 + c.choose(uint32_t(h.n), "snapshot");
        auto f1 = c.choose(s1, "follower at");
        bool own = f1 > 0 && c.flip("follower has a snapshot");
        auto what = mc::strf("leader's snapshot after %u sent to a follower "
                             "at %u%s",
                             s1, f1, own ? " with a snapshot" : "");
        sm_t lead(depth, d.make("lead"));
        auto w = follow(c, lead, h, s1);
        if(!w.empty() || !take(lead, s1)) {
            bad(c, "leader", h, what, w + " (leader)");
            return;
        }
        auto fd = d.make("foll");
        {
            sm_t f(depth, fd);
            w = follow(c, f, h, f1);
            if(!w.empty() || (own && !take(f, f1))) {
                bad(c, "follower", h, what, w + " (follower)");
                return;
            }
            auto sn = lead.last_snapshot();
            if(!sn) {
                bad(c, "last", h, what, "leader has no snapshot");
                return;
            }
            void* ctxp = nullptr;
            nuraft::ulong obj = 0;
            bool last = false;
            int guard = 0;
            while(!last && guard++ < 100) {
                nuraft::ptr<nuraft::buffer> data;
                if(lead.read_logical_snp_obj(*sn, ctxp, obj, data, last) < 0
                   || !data) {
                    bad(c, "read", h, what, "snapshot cannot be read");
                    return;
                }
                data->pos(0);
                f.save_logical_snp_obj(*sn, obj, *data, obj == 0, last);
            }
            if(!f.apply_snapshot(*sn)) {
                bad(c, "apply", h, what, "snapshot cannot be applied");
                return;
            }
            if(f.last_commit_index() != s1) {
                bad(c, "apply", h, what, "wrong index after the snapshot");
                return;
            }
            w = follow(c, f, h, h.log.size());
            if(!w.empty()) {
                bad(c, "answer-installed", h, what, w);
                return;
            }
        }
        sm_t f(depth, fd);
        if(f.last_commit_index() != s1) {
            bad(c, "restart-index", h, what, "restart not at the snapshot");
            return;
        }
        w = follow(c, f, h, h.log.size());
        if(!w.empty()) {
            bad(c, "answer-restarted", h, what + ", restarted", w);
            return;
        }
        c.outcome(h.text + what);
    }
    // crash at any file-system step of taking (or receiving) a snapshot;
    // `own`: an older snapshot exists
    void crash(mc::ctx& c, uint32_t len, bool receive, uint32_t fixed = 0) {
        dirs d;
        auto h = make(c, len, d, fixed);
        if(h.n < 2) {
            return;
        }
        auto s0 = fixed + c.choose(2, "older snapshot");
        auto s1 = s0 + 1 + c.choose(uint32_t(h.n - s0), "snapshot");
        auto dd = d.make("sm");
        std::vector<recfs::op> ops;
        {
            sm_t s(depth, dd);
            auto w = follow(c, s, h, s0);
            if(w.empty() && s0 != 0 && !take(s, s0)) {
                w = "no snapshot";
            }
            if(receive) {
                sm_t lead(depth, d.make("lead"));
                w += follow(c, lead, h, s1);
                if(!take(lead, s1)) {
                    w = "no snapshot";
                }
                auto sn = lead.last_snapshot();
                nuraft::ptr<nuraft::buffer> data;
                void* ctxp = nullptr;
                nuraft::ulong obj = 0;
                bool last = false;
                lead.read_logical_snp_obj(*sn, ctxp, obj, data, last);
                data->pos(0);
                recfs::start(dd);
                s.save_logical_snp_obj(*sn, obj, *data, true, last);
                (void)s.apply_snapshot(*sn);
                ops = recfs::stop();
            } else {
                w += follow(c, s, h, s1);
                recfs::start(dd);
                if(!take(s, s1)) {
                    w = "no snapshot";
                }
                ops = recfs::stop();
            }
            if(!w.empty()) {
                bad(c, "answer", h, "before the crash", w);
                return;
            }
        }
        auto pts = recfs::points(ops);
        mc::stat("crash_points", pts.size());
        bool was_new = false;
        for(auto& [n, torn] : pts) {
            auto img = recfs::after(ops, n, torn);
            auto rd = d.make("crash");
            recfs::write_dir(rd, img);
            sm_t r(depth, rd);
            auto i = r.last_commit_index();
            auto what = mc::strf("snapshots after %u and %u, crash at step "
                                 "%zu of %zu (+%zu bytes)",
                                 s0, s1, n, ops.size(), torn);
            if((i != s0 && i != s1) || (was_new && i != s1)
               || (n == ops.size() && i != s1)) {
                bad(c,
                    "crash-index",
                    h,
                    what,
                    mc::strf("restarts at %llu", (unsigned long long)i));
                return;
            }
            was_new = i == s1;
            // the log is replayed from there; then a new snapshot can be
            // taken over the leftovers of the crash
            auto w = follow(c, r, h, h.n);
            if(w.empty() && h.n > i && !take(r, h.n)) {
                w = "no further snapshot possible";
            }
            if(w.empty()) {
                w = follow(c, r, h, h.log.size());
            }
            if(!w.empty()) {
                bad(c, "crash-answer", h, what, w);
                return;
            }
            sm_t r2(depth, rd);
            if(r2.last_commit_index() != h.n) {
                bad(c, "crash-again", h, what,
                    "the snapshot taken after the crash is not found");
                return;
            }
            c.count();
            recfs::remove_dir(rd);
        }
        c.outcome(h.text + std::to_string(s0) + std::to_string(s1));
    }
    // the disk is full from some write on: the replica may stop, but must
    // leave a complete snapshot behind
    void full(mc::ctx& c, uint32_t len) {
        dirs d;
        auto h = make(c, len, d);
        if(h.n < 2) {
            return;
        }
        auto s0 = c.choose(2, "older snapshot");
        auto s1 = s0 + 1 + c.choose(uint32_t(h.n - s0), "snapshot");
        for(long k = 0; k < 6; k++) {
            auto dd = d.make("sm");
            fflush(nullptr);
            auto pid = fork();
            if(pid == 0) {
                sm_t s(depth, dd);
                auto w = follow(c, s, h, s0);
                if(w.empty() && s0 != 0 && !take(s, s0)) {
                    w = "no snapshot";
                }
                w += follow(c, s, h, s1);
                if(!w.empty()) {
                    _exit(3);
                }
                recfs::start(dd);
                recfs::fail_writes_from(k);
                (void)take(s, s1);
                _exit(0);
            }
            int st = 0;
            waitpid(pid, &st, 0);
            bool stopped = WIFEXITED(st) && WEXITSTATUS(st) == 1;
            bool went_on = WIFEXITED(st) && WEXITSTATUS(st) == 0;
            auto what = mc::strf("snapshots after %u and %u, writes fail "
                                 "from number %ld on",
                                 s0, s1, k);
            if(!stopped && !went_on) {
                bad(c, "disk-full", h, what, "replica died");
                return;
            }
            // restart in a child: an unusable snapshot makes it exit
            pid = fork();
            if(pid == 0) {
                sm_t r(depth, dd);
                auto i = r.last_commit_index();
                _exit(i != s0 && i != s1     ? 4
                      : !follow(c, r, h, h.log.size()).empty() ? 5
                                                               : 0);
            }
            waitpid(pid, &st, 0);
            if(!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
                bad(c, "disk-full-restart", h, what,
                    "no complete snapshot is left: the replica cannot restart");
                return;
            }
            c.count();
        }
        c.outcome(h.text);
    }
}
int main(int argc, char** argv) {
    bool th = mc::thorough();
    std::vector<mc::scenario> s;
    auto add = [&](const char* n, std::function<void(mc::ctx&)> f,
                   const std::string& b) {
        s.push_back({n, std::move(f), 0, 8, 2, b});
    };
    uint32_t a = th ? 5 : 4, b = th ? 4 : 3;
    add("restart from a snapshot", [=](mc::ctx& c) { restart(c, a); },
        mc::strf("every log of %u entries, every two snapshot positions", a));
    add("restart from a snapshot, longer log",
        [=](mc::ctx& c) { restart(c, th ? 4 : 3, 8); },
        mc::strf("every %u entries after 8 given ones, every two snapshot "
                 "positions",
                 th ? 4 : 3));
    add("crash while taking a snapshot, longer log",
        [=](mc::ctx& c) { crash(c, 2, false, 8); },
        "every 2 entries after 8 given ones, every file-system step");
    add("snapshot sent to a follower", [=](mc::ctx& c) { install(c, a); },
        mc::strf("every log of %u entries, every position of both", a));
    add("crash while taking a snapshot",
        [=](mc::ctx& c) { crash(c, b, false); },
        mc::strf("every log of %u entries, every file-system step", b));
    add("crash while receiving a snapshot",
        [=](mc::ctx& c) { crash(c, b, true); },
        mc::strf("every log of %u entries, every file-system step", b));
    add("disk full while taking a snapshot",
        [=](mc::ctx& c) { full(c, th ? 3 : 2); },
        "every log of 2 (3) entries, every first failing write");
    return mc::main(argc, argv, "C07", "model_checking",
                    "every log up to the length, every snapshot position, "
                    "crash point and failing write; answers of the restored "
                    "replica compared with one that executed the whole log; "
                    "non-trivial = distinct histories",
                    {"the consensus library replays the log from the index "
                     "the state machine reports",
                     "crash = the process dies; what the kernel accepted "
                     "stays, the last write may be partial"},
                    s);
}
