// C06: aggregation of attestation notifications in front of the replicated
// atomizer. The consensus library is replaced by the shim, whose append hook
// sees every entry the front end asks to replicate.
#include "common.hpp"
#include "uhs/atomizer/atomizer/atomizer_raft.hpp"
#include "uhs/atomizer/atomizer/format.hpp"
#include "util/raft/serialization.hpp"
#include "util/raft/util.hpp"
#include "util/serialization/format.hpp"
#include "util/serialization/util.hpp"
#ifdef CONCURRENT
#include "mc/sched.hpp"

#include <thread>
#endif
#include <algorithm>
#include <unistd.h>
using namespace h;
namespace {
    struct tx {
        const char* name;
        int n; // inputs
    };
    const std::vector<tx> txs{{"t1", 1}, {"t2", 2}, {"mint", 0}};
    // sentinel signatures: 0 as required, 1 one missing, 2 one invalid, 3 one
    // by somebody who is not a sentinel
    transaction::compact_tx make(int t, int sig, size_t threshold) {
        static std::map<std::array<size_t, 3>, transaction::compact_tx> memo;
        auto& m = memo[{size_t(t), size_t(sig), threshold}];
        if(m.m_id != hash_t{}) {
            return m;
        }
        std::vector<hash_t> in;
        for(int k = 0; k < txs[size_t(t)].n; k++) {
            in.push_back(id(uint8_t(10 * t + k), 1));
        }
        auto x = ctx_tx(id(uint8_t(100 + t), 2), in, {id(uint8_t(200 + t), 3)});
        for(size_t k = 0; k < threshold; k++) {
            if(k == 0 && sig == 1) {
                continue;
            }
            auto a = x.sign(secp(),
                            priv(uint8_t(k == 0 && sig == 3 ? 99 : 1 + k)));
            if(k == 0 && sig == 2) {
                a.second[5] ^= 1;
            }
            x.m_attestations.insert(a);
        }
        m = x;
        return x;
    }
    int tx_of(const hash_t& v) {
        return v[0] >= 100 && v[0] < 100 + txs.size() ? v[0] - 100 : -1;
    }
    struct env {
        std::vector<cbdc::atomizer::aggregate_tx_notification> out;
        bool accept{true};
        std::unique_ptr<cbdc::atomizer::atomizer_raft> r;
        explicit env(size_t threshold) {
            // the replicated state machine makes its directory here
            static bool there = chdir(mc::scratch().c_str()) == 0;
            (void)there;
            config::options o;
            o.m_attestation_threshold = threshold;
            for(uint8_t k = 1; k <= 3; k++) {
                o.m_sentinel_public_keys.insert(pub(k));
            }
            nuraft::shim::on_launch
                = [this](const nuraft::ptr<nuraft::raft_server>& s) {
                      s->m_append = [this](nuraft::raft_server& sv,
                                           const nuraft::ptr<nuraft::buffer>&
                                               b) {
                          auto req = from_buffer<
                              cbdc::atomizer::state_machine::request>(*b);
                          if(req.has_value()) {
                              if(auto* a = std::get_if<
                                     cbdc::atomizer::
                                         aggregate_tx_notify_request>(
                                     &*req)) {
                                  out.insert(out.end(),
                                             a->m_agg_txs.begin(),
                                             a->m_agg_txs.end());
                              }
                          }
                          (void)sv;
                          auto r2 = nuraft::cs_new<nuraft::cmd_result<
                              nuraft::ptr<nuraft::buffer>>>();
                          r2->accept();
                          r2->set_result(nullptr, nullptr);
                          return r2;
                      };
                  };
            r = std::make_unique<cbdc::atomizer::atomizer_raft>(
                0,
                std::vector<network::endpoint_t>{{"127.0.0.1", 5000}},
                2,
                logger(),
                o,
                [](auto&&...) {
                    return nuraft::cb_func::ReturnCode::Ok;
                });
            nuraft::raft_params p;
            (void)r->init(p);
        }
    };
    cbdc::atomizer::tx_notify_request note_of(int t, int sig, uint64_t h,
                                              uint32_t mask, size_t thr) {
        cbdc::atomizer::tx_notify_request n;
        n.m_tx = make(t, sig, thr);
        n.m_block_height = h;
        for(uint32_t k = 0; k < 8; k++) {
            if((mask >> k & 1U) != 0) {
                n.m_attestations.insert(k);
            }
        }
        return n;
    }
    struct pend {
        std::map<int, std::set<uint64_t>> a;
    };
    struct exp {
        int t;
        uint64_t lo, hi; // admissible oldest height
    };
    struct model {
        std::map<int, pend> p;
        std::vector<exp> ready;
        void notify(int t, int sig, uint64_t h, uint32_t mask) {
            if(sig != 0) {
                return;
            }
            auto& e = p[t];
            for(uint32_t k = 0; k < 8; k++) {
                if((mask >> k & 1U) != 0) {
                    e.a[int(k)].insert(h);
                }
            }
            if(int(e.a.size()) < txs[size_t(t)].n) {
                return;
            }
            exp x{t, 0, 0};
            if(!e.a.empty()) {
                x.lo = x.hi = UINT64_MAX;
                for(auto& [k, hs] : e.a) {
                    x.lo = std::min(x.lo, *hs.begin());
                    x.hi = std::min(x.hi, *hs.rbegin());
                }
            }
            ready.push_back(x);
            p.erase(t);
        }
        std::string key() const {
            std::string r;
            for(auto& [t, e] : p) {
                r += mc::strf("%d:", t);
                for(auto& [k, hs] : e.a) {
                    r += mc::strf("%d@", k);
                    for(auto x : hs) {
                        r += mc::strf("%d,", int(x));
                    }
                }
            }
            r += "/";
            for(auto& x : ready) {
                r += mc::strf("%d:%d-%d ", x.t, int(x.lo), int(x.hi));
            }
            return r;
        }
    };
    // the entries sent match what was ready, in any order
    std::string match(std::vector<exp> want,
                      const std::vector<
                          cbdc::atomizer::aggregate_tx_notification>& got) {
        for(auto& g : got) {
            auto t = tx_of(g.m_tx.m_id);
            bool ok = false;
            for(auto it = want.begin(); it != want.end(); ++it) {
                auto full = make(t < 0 ? 0 : t, 0, 0);
                if(it->t == t && g.m_oldest_attestation >= it->lo
                   && g.m_oldest_attestation <= it->hi
                   && g.m_tx.m_inputs == full.m_inputs
                   && g.m_tx.m_uhs_outputs == full.m_uhs_outputs) {
                    want.erase(it);
                    ok = true;
                    break;
                }
            }
            if(!ok) {
                return mc::strf("%s with oldest attestation %llu must not be "
                                "sent",
                                t < 0 ? "?" : txs[size_t(t)].name,
                                (unsigned long long)g.m_oldest_attestation);
            }
        }
        if(!want.empty()) {
            return mc::strf("%s complete (oldest attestation %llu..%llu) but "
                            "not sent",
                            txs[size_t(want[0].t)].name,
                            (unsigned long long)want[0].lo,
                            (unsigned long long)want[0].hi);
        }
        return {};
    }
    void seq(mc::ctx& c, size_t thr, uint32_t depth,
             const std::vector<uint64_t>& heights, bool bad) {
        env e(thr);
        model m;
        std::string hist;
        for(uint32_t left = depth;; left--) {
            // send after every step: what is sent must be what is ready
            e.out.clear();
            if(c.flip("send") || left == 0) {
                bool any = !m.ready.empty();
                bool r = e.r->send_complete_txs(
                    [](auto&&...) {
                    });
                auto why = match(m.ready, e.out);
                if(!why.empty()) {
                    c.fail("sent", "after%s: %s", hist.c_str(), why.c_str());
                    return;
                }
                if(r != any) {
                    c.fail("send-result",
                           "after%s: send_complete_txs says %d",
                           hist.c_str(),
                           int(r));
                    return;
                }
                m.ready.clear();
                hist += " send";
                c.agreed();
            }
            if(left == 0) {
                c.outcome(m.key() + hist.substr(0, 40));
                return;
            }
            struct op {
                int t, sig;
                uint64_t h;
                uint32_t mask;
            };
            std::vector<op> menu;
            for(auto h : heights) {
                menu.push_back({0, 0, h, 1});
                for(uint32_t k = 1; k < 4; k++) {
                    menu.push_back({1, 0, h, k});
                }
            }
            menu.push_back({2, 0, heights[0], 0});
            if(bad) {
                for(int s = 1; s < 4; s++) {
                    menu.push_back({0, s, heights[0], 1});
                    menu.push_back({1, s, heights[0], 2});
                }
                menu.push_back({2, 2, heights[0], 0});
            }
            auto& o = menu[c.choose(uint32_t(menu.size()), "notification")];
            hist += mc::strf(" %s@%d:%u%s",
                             txs[size_t(o.t)].name,
                             int(o.h),
                             o.mask,
                             o.sig != 0 ? "(unattested)" : "");
            e.r->tx_notify(note_of(o.t, o.sig, o.h, o.mask, thr));
            m.notify(o.t, o.sig, o.h, o.mask);
        }
    }
#ifdef CONCURRENT
    // two notifying threads and the sender: every notification order of the
    // model that respects each thread's order is admissible
    void conc(mc::ctx& c, int variant) {
        struct n {
            int t;
            uint64_t h;
            uint32_t mask;
        };
        std::vector<std::vector<n>> prog;
        switch(variant) {
            case 0: // the two halves of one transaction
                prog = {{{1, 3, 1}}, {{1, 4, 2}}};
                break;
            case 1: // both carry everything, twice
                prog = {{{1, 3, 3}, {0, 2, 1}}, {{1, 4, 3}}};
                break;
            case 2: // overlapping halves
                prog = {{{1, 3, 1}, {1, 5, 2}}, {{1, 4, 2}, {0, 4, 1}}};
                break;
            default:
                prog = {{{2, 1, 0}, {1, 3, 1}}, {{1, 2, 2}, {2, 1, 0}}};
        }
        for(auto& p : prog) {
            for(auto& x : p) {
                (void)note_of(x.t, 0, x.h, x.mask, 0);
            }
        }
        std::string out;
        sched::options o;
        sched::run(c, o, [&] {
            std::unique_ptr<env> e;
            {
                e = std::make_unique<env>(0);
            }
            std::vector<std::vector<cbdc::atomizer::tx_notify_request>> q(2);
            for(size_t k = 0; k < 2; k++) {
                for(auto& x : prog[k]) {
                    q[k].push_back(note_of(x.t, 0, x.h, x.mask, 0));
                }
            }
            std::vector<std::thread> th;
            for(size_t k = 0; k < 2; k++) {
                th.emplace_back([&, k] {
                    for(auto& x : q[k]) {
                        e->r->tx_notify(std::move(x));
                    }
                });
            }
            (void)e->r->send_complete_txs([](auto&&...) {
            });
            for(auto& t : th) {
                t.join();
            }
            (void)e->r->send_complete_txs([](auto&&...) {
            });
            std::string first;
            bool ok = false;
            {
                sched::atomic_section as;
                std::function<void(model, size_t, size_t)> rec
                    = [&](model m, size_t i, size_t j) {
                          if(ok) {
                              return;
                          }
                          if(i == prog[0].size() && j == prog[1].size()) {
                              auto w = match(m.ready, e->out);
                              ok = w.empty();
                              if(first.empty()) {
                                  first = w;
                              }
                              return;
                          }
                          if(i < prog[0].size()) {
                              auto m2 = m;
                              auto& x = prog[0][i];
                              m2.notify(x.t, 0, x.h, x.mask);
                              rec(m2, i + 1, j);
                          }
                          if(j < prog[1].size()) {
                              auto m2 = m;
                              auto& x = prog[1][j];
                              m2.notify(x.t, 0, x.h, x.mask);
                              rec(m2, i, j + 1);
                          }
                      };
                rec({}, 0, 0);
                for(auto& g : e->out) {
                    out += mc::strf("%d@%d ",
                                    tx_of(g.m_tx.m_id),
                                    int(g.m_oldest_attestation));
                }
            }
            if(!ok) {
                sched::fail("concurrent",
                            "no order of the notifications explains what was "
                            "sent ("
                                + out + "): " + first);
            }
        });
        if(!c.failed()) {
            c.agreed();
            c.outcome(out);
        }
    }
#endif
}
int main(int argc, char** argv) {
    bool T = mc::thorough();
    std::vector<mc::scenario> s;
#ifdef CONCURRENT
    (void)seq;
    const char* nm[] = {"two halves", "complete twice", "overlapping", "mint"};
    for(int v = 0; v < 4; v++) {
        s.push_back({mc::strf("2 notifiers and the sender, %s", nm[v]),
                     [=](mc::ctx& c) { conc(c, v); },
                     T ? 4U : 3U, 8, 2,
                     "all schedules within the preemption bound"});
    }
#else
    s.push_back({"any order",
                 [=](mc::ctx& c) { seq(c, 0, T ? 5 : 4, {3, 5}, false); },
                 0, 8, 2, "every sequence of notifications and sends"});
    s.push_back({"from genesis",
                 [=](mc::ctx& c) { seq(c, 0, T ? 5 : 3, {0, 5, 1}, false); },
                 0, 8, 2, "heights including 0"});
    s.push_back({"1 sentinel required",
                 [=](mc::ctx& c) { seq(c, 1, T ? 4 : 3, {3}, true); },
                 0, 8, 2, "missing, invalid and foreign attestations"});
    s.push_back({"2 sentinels required",
                 [=](mc::ctx& c) { seq(c, 2, T ? 4 : 3, {3}, true); },
                 0, 8, 2, "missing, invalid and foreign attestations"});
#endif
    return mc::main(argc, argv, "C06", "model_checking",
                    "every sequence of notifications and sends, and every "
                    "schedule of two notifying threads with the sender, "
                    "compared with a reference aggregator; non-trivial = "
                    "distinct outcomes",
                    {"attested positions are within the transaction",
                     "consensus accepts what the leader appends"},
                    s);
}
