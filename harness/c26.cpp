// C26: sentinels attest, gather and forward; other components check.
#include <algorithm>
#include <atomic>
#include <functional>
#include <map>
#include <mutex>
#include <random>
#include <set>
#include <string>
#include <thread>
#include <time.h>
#include <vector>

#include "harness/common.hpp"
#include "uhs/sentinel/client.hpp"
#include "uhs/sentinel/format.hpp"
#include "uhs/transaction/messages.hpp"
#include "uhs/transaction/validation.hpp"
#include "uhs/twophase/coordinator/format.hpp"
#include "uhs/twophase/sentinel_2pc/controller.hpp"
#include "util/rpc/format.hpp"
#include "util/serialization/format.hpp"
#include "util/serialization/util.hpp"

using namespace cbdc;
namespace tr = cbdc::transaction;
namespace va = cbdc::transaction::validation;

// The order in which sentinels ask each other is random: the explorer chooses
// the seed.
namespace {
    uint32_t g_seed = 1;
}
#ifndef CONCURRENT
unsigned int std::random_device::_M_getval() {
    return g_seed;
}
#endif

namespace {
    network::endpoint_t sent_ep(size_t i) {
        return {"sentinel", uint16_t(100 + i)};
    }
    const network::endpoint_t coord{"coordinator", 50};

    // ---- transactions ----------------------------------------------------
    hash_t commitment(const pubkey_t& k) {
        return va::get_p2pk_witness_commitment(k);
    }
    tr::full_tx tx_of(const std::vector<std::pair<uint8_t, uint64_t>>& prev,
                      size_t outs) {
        tr::full_tx t;
        uint64_t total = 0;
        for(auto& [id, idx] : prev) {
            tr::input in;
            in.m_prevout = {h::id(id, 3), idx};
            in.m_prevout_data = tr::output(commitment(h::pub(50)), 10);
            t.m_inputs.push_back(in);
            total += 10;
        }
        for(size_t i = 0; i < outs; i++) {
            auto v = i + 1 == outs ? total : 1;
            t.m_outputs.emplace_back(commitment(h::pub(uint8_t(60 + i))), v);
            total -= v;
        }
        return t;
    }
    void sign(tr::full_tx& t) {
        static const auto kp = [] {
            secp256k1_keypair k{};
            if(secp256k1_keypair_create(h::secp(), &k, h::priv(50).data())
               != 1) {
                abort();
            }
            return k;
        }();
        static const auto pk = h::pub(50);
        auto id = tr::tx_id(t);
        signature_t s{};
        if(secp256k1_schnorrsig_sign(h::secp(), s.data(), id.data(), &kp,
                                     nullptr, nullptr)
           != 1) {
            abort();
        }
        t.m_witness.clear();
        for(size_t i = 0; i < t.m_inputs.size(); i++) {
            witness_t w{std::byte(va::witness_program_type::p2pk)};
            for(auto b : pk) {
                w.push_back(std::byte(b));
            }
            for(auto b : s) {
                w.push_back(std::byte(b));
            }
            t.m_witness.push_back(w);
        }
    }
    // 0-2 valid, the others not
    constexpr uint32_t n_kinds = 9;
    constexpr uint32_t n_valid = 3;
    tr::full_tx kind(uint32_t k) {
        auto t = tx_of({{1, 0}}, 1);
        if(k == 1) {
            t = tx_of({{1, 0}, {2, 1}}, 3);
        } else if(k == 2) {
            t = tx_of({{3, 0}, {3, 1}, {4, 0}}, 1);
        } else if(k == 7) {
            t = tx_of({{1, 0}, {1, 0}}, 1);
        }
        if(k == 5) {
            t.m_outputs[0].m_value++;
        } else if(k == 6) {
            t.m_outputs.clear();
        }
        sign(t);
        if(k == 3) {
            t.m_witness[0].back() ^= std::byte(1);
        } else if(k == 4) {
            t.m_witness.clear();
        } else if(k == 8) {
            t.m_inputs.clear();
            t.m_witness.clear();
        }
        return t;
    }
    const tr::full_tx& kept(uint32_t k) {
        static std::map<uint32_t, tr::full_tx> m;
        auto it = m.find(k);
        if(it == m.end()) {
            it = m.emplace(k, kind(k)).first;
        }
        return it->second;
    }
    bool same(const tr::compact_tx& a, const tr::compact_tx& b) {
        return a.m_id == b.m_id && a.m_inputs == b.m_inputs
            && a.m_uhs_outputs == b.m_uhs_outputs;
    }
    tr::sentinel_attestation attest(const tr::compact_tx& t, uint8_t key) {
        auto x = t;
        x.m_attestations.clear();
        return x.sign(h::secp(), h::priv(key));
    }
    // "" when every attestation is a valid one by a sentinel 0..n-1 and there
    // are enough
    std::string attested(const tr::compact_tx& t, size_t n, size_t threshold) {
        for(auto& a : t.m_attestations) {
            bool known = false;
            for(size_t i = 0; i < n; i++) {
                known |= a.first == h::pub(uint8_t(1 + i));
            }
            if(!known) {
                return "an attestation of nobody configured";
            }
            if(!t.verify(h::secp(), a)) {
                return "an attestation that does not verify";
            }
        }
        if(t.m_attestations.size() < threshold) {
            return mc::strf("%zu attestations instead of %zu",
                            t.m_attestations.size(), threshold);
        }
        return {};
    }

    // ---- what a remote sentinel may answer -------------------------------
    enum ans {
        good,
        refuses,
        bad_sig,
        foreign,
        copies_first,
        other_tx,
        other_key,
        wrong_kind,
        garbage_key,
        n_ans
    };
    std::optional<sentinel::response> answer(uint32_t a,
                                             size_t remote,
                                             const tr::full_tx& t,
                                             size_t n) {
        auto ct = tr::compact_tx(t);
        auto own = uint8_t(1 + remote);
        switch(a) {
            case good:
                return attest(ct, own);
            case refuses:
                return std::nullopt;
            case bad_sig: {
                auto r = attest(ct, own);
                r.second[10] ^= 1;
                return r;
            }
            case foreign:
                return attest(ct, 30);
            case copies_first:
                return attest(ct, 1);
            case other_tx: {
                auto o = ct;
                o.m_uhs_outputs.push_back(h::id(9));
                return attest(o, own);
            }
            case other_key:
                return attest(ct, uint8_t(1 + (remote % (n - 1)) + 1 <= n
                                              ? 1 + (remote % (n - 1)) + 1
                                              : own));
            case wrong_kind:
                return sentinel::execute_response{
                    sentinel::tx_status::confirmed,
                    std::nullopt};
            default: {
                auto r = attest(ct, own);
                r.first = pubkey_t{};
                return r;
            }
        }
    }

    config::options options_for(size_t n, size_t threshold, bool keys = true) {
        config::options o;
        o.m_twophase_mode = true;
        o.m_attestation_threshold = threshold;
        for(size_t i = 0; i < n; i++) {
            o.m_sentinel_endpoints.push_back(sent_ep(i));
            if(keys) {
                o.m_sentinel_private_keys[i] = h::priv(uint8_t(1 + i));
                o.m_sentinel_public_keys.insert(h::pub(uint8_t(1 + i)));
            }
        }
        o.m_coordinator_endpoints = {{coord}};
        return o;
    }
    using creq = rpc::request<coordinator::rpc::request>;
    using crsp = rpc::response<coordinator::rpc::response>;
    using sreq = rpc::request<sentinel::request>;
    using srsp = rpc::response<sentinel::response>;

    // A request to a sentinel's server and what comes back.
    struct asked {
        int replies{};
        std::optional<srsp> last;
        void reply(const buffer& b) {
            replies++;
            auto x = b;
            last = from_buffer<srsp>(x);
        }
    };
    void request(size_t i, sentinel::request q, asked& a, uint64_t id = 7) {
        sreq r;
        r.m_header.m_request_id = id;
        r.m_payload = std::move(q);
        auto f = faketcp::servers.at(sent_ep(i));
        auto now = f(make_buffer(r), [&a](buffer b) {
            a.reply(b);
        });
        if(now.has_value()) {
            a.reply(*now);
        }
    }
    sentinel::execute_request exec(const tr::full_tx& t) {
        return sentinel::execute_request{t};
    }
    sentinel::validate_request valid(const tr::full_tx& t) {
        return sentinel::validate_request{t};
    }
    bool same(const tr::full_tx& a, const tr::full_tx& b) {
        auto x = make_buffer(a), y = make_buffer(b);
        return x == y;
    }
    std::set<std::string>& orders() {
        static std::set<std::string> s;
        return s;
    }
}

#ifndef CONCURRENT
#ifdef DOWNSTREAM
#include "uhs/atomizer/atomizer/atomizer_raft.hpp"
#include "uhs/atomizer/atomizer/format.hpp"
#include "uhs/twophase/locking_shard/locking_shard.hpp"
#endif

// Waiting between attempts takes no time here.
extern "C" int clock_nanosleep(clockid_t, int, const timespec*, timespec*) {
    return 0;
}
extern "C" int nanosleep(const timespec*, timespec*) {
    return 0;
}

namespace {
#ifndef DOWNSTREAM
    // One real two-phase commit sentinel among n, the others and the
    // coordinator answer as chosen.
    void gather(mc::ctx& c, size_t n, size_t threshold, bool keys) {
        faketcp::servers.clear();
        faketcp::refuse_send = nullptr;
        g_seed = n > 2 ? 1 + c.choose(mc::thorough() ? 16 : 8, "seed") : 1;
        auto k = c.choose(n_kinds, "transaction");
        auto& t = kept(k);
        auto want = tr::compact_tx(t);
        bool ok = k < n_valid;
        std::map<size_t, int> asks;
        std::string order;
        size_t good_ones = keys && threshold > 0 ? 1 : 0;
        std::set<pubkey_t> have;
        if(good_ones != 0) {
            have.insert(h::pub(1));
        }
        bool poor = false; // some answer was not a usable attestation
        // the others may be started later
        auto start_others = [&]() {
        for(size_t i = 1; i < n; i++) {
            faketcp::servers[sent_ep(i)]
                = [&, i](buffer q, const faketcp::reply_fn&)
                -> std::optional<buffer> {
                auto r = from_buffer<sreq>(q);
                auto* v = r ? std::get_if<sentinel::validate_request>(
                              &r->m_payload)
                            : nullptr;
                if(v == nullptr || !same(*v, t)) {
                    c.fail("asks-other", "a remote sentinel is asked about "
                                         "something else");
                    return std::nullopt;
                }
                if(asks[i]++ > 0) {
                    c.fail("asks-twice", "sentinel %zu asked again", i);
                    return std::nullopt;
                }
                order += char('0' + i);
                auto a = c.choose(n_ans, "answer");
                c.note("sentinel %zu answers kind %u", i, a);
                auto x = answer(a, i, t, n);
                auto* w
                    = x ? std::get_if<sentinel::validate_response>(&*x)
                        : nullptr;
                bool counts = false;
                for(size_t s = 0; w != nullptr && s < n; s++) {
                    counts |= w->first == h::pub(uint8_t(1 + s))
                           && want.verify(h::secp(), *w);
                }
                if(counts) {
                    have.insert(w->first);
                } else {
                    poor = true;
                }
                return make_buffer(srsp{r->m_header, std::move(x)});
            };
        }
        };
        faketcp::strict_init = true;
        bool later = n > 1 && c.flip("others start later");
        if(!later) {
            start_others();
        }
        int flaky = n > 1 ? int(c.choose(2, "a remote is unreachable")) : 0;
        int lost = 0;
        uint32_t refused = 0;
        int forwarded = 0;
        uint32_t coord_says = 3;
        faketcp::servers[coord] = [&](buffer q, const faketcp::reply_fn&)
            -> std::optional<buffer> {
            auto r = from_buffer<creq>(q);
            if(!r.has_value()) {
                c.fail("garbled", "the coordinator cannot read the request");
                return std::nullopt;
            }
            forwarded++;
            auto& f = r->m_payload;
            if(!ok) {
                c.fail("forwards-invalid", "an invalid transaction (kind %u) "
                                           "is forwarded",
                       k);
            } else if(!same(f, want)) {
                c.fail("forwards-other", "another transaction is forwarded");
            } else if(auto e = attested(f, n, threshold); !e.empty()) {
                c.fail("forwards-unattested", "forwarded with %s", e.c_str());
            } else if(!va::check_attestations(
                          f,
                          options_for(n, threshold, keys)
                              .m_sentinel_public_keys,
                          threshold)) {
                c.fail("forwards-refused", "forwarded although every other "
                                           "component refuses it");
            }
            coord_says = c.choose(3, "coordinator");
            std::optional<bool> b;
            if(coord_says < 2) {
                b = coord_says == 0;
            }
            return make_buffer(crsp{r->m_header, b});
        };
        faketcp::refuse_send = [&](const network::endpoint_t& e) {
            if(e == coord) {
                if(refused < 2 && c.flip("coordinator unreachable")) {
                    refused++;
                    return true;
                }
                return false;
            }
            if(flaky != 0 && lost < 2 && e.first == "sentinel") {
                lost++;
                return true;
            }
            return false;
        };
        auto o = options_for(n, threshold, keys);
        sentinel_2pc::controller ctl(0, o, h::logger());
        if(!ctl.init()) {
            c.fail("init", "the sentinel does not start");
            return;
        }
        if(later) {
            start_others();
        }
        asked a;
        request(0, exec(t), a);
        if(c.failed()) {
            return;
        }
        if(a.replies != 1 || !a.last.has_value()) {
            c.fail("replies", "%d answers to one request", a.replies);
            return;
        }
        if(a.last->m_header.m_request_id != 7) {
            c.fail("reply-id", "answer to another request");
            return;
        }
        auto& p = a.last->m_payload;
        auto* e = p ? std::get_if<sentinel::execute_response>(&*p) : nullptr;
        if(p.has_value() && e == nullptr) {
            c.fail("reply-kind", "answer of the wrong kind");
            return;
        }
        auto told = e == nullptr ? std::string("nothing")
                                 : sentinel::to_string(e->m_tx_status);
        if(!ok) {
            auto err = va::check_tx(t);
            if(e == nullptr
               || e->m_tx_status != sentinel::tx_status::static_invalid
               || !(e->m_tx_error == err) || !err.has_value()) {
                c.fail("invalid-told", "an invalid transaction (kind %u) is "
                                       "answered with %s",
                       k, told.c_str());
            } else if(!order.empty() || forwarded != 0) {
                c.fail("invalid-asked", "others are asked about an invalid "
                                        "transaction");
            }
        } else if(forwarded > 1) {
            c.fail("forwarded-twice", "forwarded %d times", forwarded);
        } else if(forwarded == 1) {
            if(coord_says == 2
                   ? p.has_value()
                   : e == nullptr || e->m_tx_error.has_value()
                         || e->m_tx_status
                                != (coord_says == 0
                                        ? sentinel::tx_status::confirmed
                                        : sentinel::tx_status::
                                              state_invalid)) {
                c.fail("untrue", "the coordinator says %u, the client is "
                                 "told %s",
                       coord_says, told.c_str());
            }
        } else {
            if(p.has_value()) {
                c.fail("untrue", "not forwarded, the client is told %s",
                       told.c_str());
            } else if(!poor && (have.size() >= threshold
                                || asks.size() + 1 < n)) {
                c.fail("not-forwarded", "%zu attestations are enough, but it "
                                        "is not forwarded",
                       have.size());
            }
        }
        if(c.failed()) {
            return;
        }
        orders().insert(order);
        c.agreed();
        c.outcome(mc::strf("%u %s %d %s", k, order.c_str(), forwarded,
                           told.c_str()));
        faketcp::refuse_send = nullptr;
    }

    // What one sentinel attests to.
    void attests(mc::ctx& c) {
        faketcp::servers.clear();
        faketcp::refuse_send = nullptr;
        auto threshold = c.choose(3, "threshold");
        bool keys = c.flip("no keys") == 0;
        auto o = options_for(2, threshold, keys);
        sentinel_2pc::controller ctl(1, o, h::logger());
        auto up = ctl.init();
        if(up != (keys || threshold == 0)) {
            c.fail("init", "starts %d", up);
            return;
        }
        if(!up) {
            c.outcome("no start");
            return;
        }
        auto k = c.choose(n_kinds, "transaction");
        auto& t = kept(k);
        asked a;
        request(1, valid(t), a, 9);
        if(a.replies != 1 || !a.last.has_value()
           || a.last->m_header.m_request_id != 9) {
            c.fail("replies", "%d answers to one request", a.replies);
            return;
        }
        auto& p = a.last->m_payload;
        if(p.has_value() != (k < n_valid && keys)) {
            c.fail(p ? "attests-invalid" : "no-attestation",
                   "transaction kind %u", k);
            return;
        }
        if(p.has_value()) {
            auto* v = std::get_if<sentinel::validate_response>(&*p);
            auto ct = tr::compact_tx(t);
            if(v == nullptr || v->first != h::pub(2)
               || !ct.verify(h::secp(), *v)) {
                c.fail("bad-attestation", "transaction kind %u", k);
                return;
            }
            // it attests to nothing else
            for(uint32_t m = 0; m < 8; m++) {
                auto x = ct;
                switch(m) {
                    case 0:
                        x.m_id[5] ^= 1;
                        break;
                    case 1:
                        x.m_inputs[0][31] ^= 1;
                        break;
                    case 2:
                        x.m_inputs.pop_back();
                        break;
                    case 3:
                        x.m_uhs_outputs[0][0] ^= 0x80;
                        break;
                    case 4:
                        x.m_uhs_outputs.pop_back();
                        break;
                    case 5:
                        x.m_uhs_outputs.push_back(h::id(1));
                        break;
                    case 6:
                        x.m_inputs.push_back(x.m_inputs[0]);
                        break;
                    default:
                        x.m_inputs.swap(x.m_uhs_outputs);
                }
                if(x.verify(h::secp(), *v)) {
                    c.fail("loose-attestation", "an attestation also attests "
                                                "to a changed transaction "
                                                "(%u)",
                           m);
                    return;
                }
            }
        }
        // the same through the client
        sentinel::rpc::client cl({sent_ep(1)}, h::logger());
        (void)cl.init();
        auto r = cl.validate_transaction(t);
        if(r.has_value() != p.has_value()
           || (r && *r != std::get<sentinel::validate_response>(*p))) {
            c.fail("client", "the client sees another answer");
        }
        c.agreed();
        c.outcome(mc::strf("%u %d", k, p.has_value()));
    }

#else
    // Attestations are checked alike by everybody downstream.
    struct atomizer_env {
        size_t out{};
        std::unique_ptr<atomizer::atomizer_raft> r;
        explicit atomizer_env(const config::options& o) {
            static bool there = chdir(mc::scratch().c_str()) == 0;
            (void)there;
            nuraft::shim::on_launch
                = [this](const nuraft::ptr<nuraft::raft_server>& s) {
                      s->m_append = [this](nuraft::raft_server&,
                                           const nuraft::ptr<nuraft::buffer>&
                                               b) {
                          auto q
                              = from_buffer<atomizer::state_machine::request>(
                                  *b);
                          auto* a
                              = q ? std::get_if<
                                    atomizer::aggregate_tx_notify_request>(&*q)
                                  : nullptr;
                          out += a != nullptr ? a->m_agg_txs.size() : 0;
                          auto x = nuraft::cs_new<nuraft::cmd_result<
                              nuraft::ptr<nuraft::buffer>>>();
                          x->accept();
                          x->set_result(nullptr, nullptr);
                          return x;
                      };
                  };
            r = std::make_unique<atomizer::atomizer_raft>(
                0,
                std::vector<network::endpoint_t>{{"127.0.0.1", 5000}},
                2,
                h::logger(),
                o,
                [](auto&&...) {
                    return nuraft::cb_func::ReturnCode::Ok;
                });
            nuraft::raft_params p;
            (void)r->init(p);
        }
    };
    using att_list = std::vector<std::vector<tr::sentinel_attestation>>;
    bool combination(mc::ctx& c,
                     tr::compact_tx t,
                     const att_list& atts,
                     const std::vector<uint32_t>& kinds,
                     const std::set<pubkey_t>& conf,
                     const config::options& o,
                     atomizer_env& e,
                     locking_shard::locking_shard& shard,
                     const hash_t& dtx) {
        bool good_all = true;
        auto threshold = uint32_t(o.m_attestation_threshold);
        for(uint32_t i = 0; i < 4; i++) {
            auto k = kinds[i];
            if(k > 0) {
                t.m_attestations.insert(atts[i][k - 1]);
                good_all = good_all && k == 1
                        && conf.count(h::pub(uint8_t(1 + i))) != 0;
            }
        }
        bool expect = good_all && t.m_attestations.size() >= threshold;
        auto what = [&](const char* who, bool got) {
            if(got != expect) {
                c.fail(std::string(got ? "accepts:" : "refuses:") + who,
                       "%s %s a transaction with %zu attestations (%u%u%u%u), "
                       "threshold %u",
                       who, got ? "accepts" : "refuses",
                       t.m_attestations.size(), kinds[0], kinds[1], kinds[2],
                       kinds[3], threshold);
            }
            c.agreed();
        };
        what("check_attestations",
             va::check_attestations(t, o.m_sentinel_public_keys, threshold));
        if(c.failed()) {
            return false;
        }
        {
            // a transaction without inputs, attested in the same way
            static std::map<uint32_t, tr::sentinel_attestation> cache;
            tr::compact_tx m;
            m.m_id = h::id(77);
            m.m_uhs_outputs = {h::id(3)};
            for(uint8_t i = 0; i < 4; i++) {
                auto it = t.m_attestations.find(h::pub(uint8_t(1 + i)));
                if(it == t.m_attestations.end()) {
                    continue;
                }
                if(cache.count(i) == 0) {
                    cache[i] = attest(m, uint8_t(1 + i));
                }
                auto a = cache[i];
                bool g = it->second == atts[i][0].second;
                if(!g) {
                    a.second = it->second;
                }
                m.m_attestations.insert(a);
            }
            locking_shard::tx lt;
            lt.m_tx = m;
            auto r = shard.lock_outputs({lt}, dtx);
            if(!r || r->size() != 1) {
                c.fail("lock", "no answer");
                return false;
            }
            what("locking shard", (*r)[0]);
        }
        if(c.failed()) {
            return false;
        }
        {
            atomizer::tx_notify_request n;
            n.m_tx = t;
            for(uint64_t i = 0; i < t.m_inputs.size(); i++) {
                n.m_attestations.insert(i);
            }
            e.r->tx_notify(std::move(n));
            auto before = e.out;
            (void)e.r->send_complete_txs([](auto&&...) {});
            what("atomizer", e.out > before);
        }
        c.count();
        return !c.failed();
    }
    void downstream(mc::ctx& c) {
        auto threshold = c.choose(5, "threshold");
        auto mask = c.choose(8, "configured");
        config::options o;
        o.m_attestation_threshold = threshold;
        std::set<pubkey_t> conf;
        for(uint8_t i = 0; i < 3; i++) {
            if((mask >> i & 1U) != 0) {
                o.m_sentinel_public_keys.insert(h::pub(uint8_t(1 + i)));
                conf.insert(h::pub(uint8_t(1 + i)));
            }
        }
        auto t = tr::compact_tx(kept(1));
        static const auto atts = [&]() {
            std::vector<std::vector<tr::sentinel_attestation>> v;
            for(uint8_t i = 0; i < 4; i++) {
                std::vector<tr::sentinel_attestation> w;
                w.push_back(attest(t, uint8_t(1 + i)));
                auto b = w[0];
                b.second[63] ^= 1;
                w.push_back(b);
                for(int m = 0; m < 3; m++) {
                    auto x = t;
                    if(m == 0) {
                        x.m_id[0] ^= 1;
                    } else if(m == 1) {
                        x.m_inputs.pop_back();
                    } else {
                        x.m_uhs_outputs[2] = h::id(5);
                    }
                    w.push_back(attest(x, uint8_t(1 + i)));
                }
                // somebody else's signature
                auto s = attest(t, uint8_t(1 + (i + 1) % 4));
                s.first = w[0].first;
                w.push_back(s);
                v.push_back(w);
            }
            return v;
        }();
        auto first = c.choose(7);
        auto e = std::make_unique<atomizer_env>(o);
        locking_shard::locking_shard s({0, 255}, h::logger(), 16, "", o);
        uint32_t m = mc::thorough() ? 7 : 4;
        for(uint32_t k = 0; k < m * m * m; k++) {
            if(!combination(c, t, atts, {first, k % m, k / m % m, k / m / m},
                            conf, o, *e, s, h::id(2, k))) {
                return;
            }
        }
        c.outcome(mc::strf("%u %u %u", threshold, mask, first));
    }
#endif
}
int main(int argc, char** argv) {
    std::vector<mc::scenario> s;
#ifndef DOWNSTREAM
    for(size_t n = 1; n <= 4; n++) {
        for(size_t th = 0; th <= n + 1; th++) {
            s.push_back({mc::strf("%zu sentinels, threshold %zu", n, th),
                         [=](mc::ctx& c) { gather(c, n, th, true); },
                         0,
                         n >= 3 ? 8U : 1U,
                         3,
                         "every answer of every remote asked, every "
                         "transaction kind, coordinator unreachable up to "
                         "twice, every coordinator answer"});
        }
    }
    s.push_back({"no keys configured",
                 [](mc::ctx& c) { gather(c, 2, 0, false); },
                 0, 1, 2, "threshold 0"});
    s.push_back({"attesting", attests, 0, 1, 2,
                 "every transaction kind, key configuration and threshold"});
#else
    s.push_back({"accepting", downstream, 0, 8, 3,
                 "every combination of absent, valid, invalid and foreign "
                 "attestations, every set of configured sentinels, every "
                 "threshold"});
#endif
    return mc::main(argc, argv, "C26", "model_checking",
                    "complete enumeration of answers and attestations; "
                    "non-trivial = distinct complete outcomes",
                    {"TCP replaced by direct calls (its own checks are "
                     "C20-C22)"},
                    s);
}
#else // CONCURRENT
#ifndef PROP
#define PROP "C26"
#endif
#include "mc/sched.hpp"
#include "mc/simnet.hpp"
#include "uhs/atomizer/sentinel/controller.hpp"

namespace {
    using quiet = sched::atomic_section;
    void reset_fake() {
        faketcp::servers.clear();
        faketcp::refuse_send = nullptr;
        faketcp::deliver = nullptr;
        faketcp::carry = nullptr;
        faketcp::sync_waits = true;
        faketcp::join_servers = true;
        faketcp::join_clients = true;
        faketcp::guard = [](bool in) {
            if(in) {
                sched::hb_acquire(&faketcp::servers);
            } else {
                sched::hb_release(&faketcp::servers);
            }
        };
    }

    // A thread that delivers responses, as each client's handler thread.
    struct postman {
        std::mutex mut;
        std::condition_variable cv;
        std::vector<std::function<void()>> q;
        bool over{};
        std::thread t;
        void start() {
            t = std::thread([this]() {
                while(true) {
                    std::function<void()> f;
                    {
                        std::unique_lock<std::mutex> l(mut);
                        cv.wait(l, [&]() {
                            return over || !q.empty();
                        });
                        if(q.empty()) {
                            return;
                        }
                        f = q.front();
                        q.erase(q.begin());
                    }
                    f();
                }
            });
        }
        void post(std::function<void()> f) {
            std::unique_lock<std::mutex> l(mut);
            q.push_back(std::move(f));
            cv.notify_all();
        }
        void end() {
            {
                std::unique_lock<std::mutex> l(mut);
                over = true;
                cv.notify_all();
            }
            t.join();
        }
    };

    // Two clients use one sentinel at once; remotes and the coordinator
    // answer from other threads; the sentinel may be stopped at any point.
    void concurrent(mc::ctx& c, size_t n, size_t threshold, bool stop) {
        sched::options o;
        std::string out;
        sched::run(c, o, [&]() {
            reset_fake();
            sched::random_base = 1 + sched::choose(2, "seed");
            postman post[2];
            auto answers = [&](const void*, std::function<void()> f) {
                post[0].post(std::move(f));
            };
            std::array<int, 2> forwarded{};
            uint32_t progress = 0;
            const tr::full_tx* tx[2] = {&kept(0), &kept(1)};
            auto which = [&](const hash_t& id) {
                return tr::tx_id(*tx[0]) == id ? 0 : 1;
            };
            for(size_t i = 1; i < n; i++) {
                faketcp::servers[sent_ep(i)]
                    = [&, i](buffer q, const faketcp::reply_fn&)
                    -> std::optional<buffer> {
                    quiet g;
                    auto r = from_buffer<sreq>(q);
                    auto* v = r ? std::get_if<sentinel::validate_request>(
                                  &r->m_payload)
                                : nullptr;
                    if(v == nullptr) {
                        sched::fail("asks-other", "no validate request");
                    }
                    progress++;
                    return make_buffer(
                        srsp{r->m_header, answer(good, i, *v, n)});
                };
            }
            faketcp::servers[coord]
                = [&](buffer q,
                      const faketcp::reply_fn&) -> std::optional<buffer> {
                quiet g;
                auto r = from_buffer<creq>(q);
                if(!r.has_value()) {
                    sched::fail("garbled", "request");
                }
                auto k = which(r->m_payload.m_id);
                forwarded[size_t(k)]++;
                progress += 2;
                if(!same(r->m_payload, tr::compact_tx(*tx[k]))) {
                    sched::fail("forwards-other", "another transaction");
                }
                auto e = attested(r->m_payload, n, threshold);
                if(!e.empty()) {
                    sched::fail("forwards-unattested", e);
                }
                return make_buffer(
                    crsp{r->m_header, std::optional<bool>(k == 0)});
            };
            faketcp::deliver = answers;
            post[0].start();
            std::array<asked, 2> a;
            {
                auto opt = options_for(n, threshold);
                auto ctl = std::make_unique<sentinel_2pc::controller>(
                    0, opt, h::logger());
                if(!ctl->init()) {
                    sched::fail("init", "does not start");
                }
                std::thread t[2];
                std::array<std::mutex, 2> m;
                std::array<std::condition_variable, 2> cv;
                std::array<bool, 2> sent{};
                for(size_t k = 0; k < 2; k++) {
                    t[k] = std::thread([&, k]() {
                        sreq r;
                        r.m_header.m_request_id = 40 + k;
                        r.m_payload = exec(*tx[k]);
                        faketcp::serve_fn f;
                        {
                            faketcp::lock g;
                            auto it = faketcp::servers.find(sent_ep(0));
                            if(it == faketcp::servers.end()) {
                                return;
                            }
                            f = it->second;
                        }
                        auto now = f(make_buffer(r), [&, k](buffer b) {
                            std::unique_lock<std::mutex> l(m[k]);
                            quiet q;
                            a[k].reply(b);
                            cv[k].notify_all();
                        });
                        if(now.has_value()) {
                            std::unique_lock<std::mutex> l(m[k]);
                            quiet q;
                            a[k].reply(*now);
                        }
                    });
                }
                if(stop) {
                    // after so many requests of the sentinel
                    auto when = sched::choose(7, "stop");
                    sched::until(
                        [&]() {
                            quiet g;
                            return progress >= when;
                        },
                        "time to stop");
                    ctl.reset();
                }
                for(auto& x : t) {
                    x.join();
                }
                for(size_t k = 0; k < 2 && !stop; k++) {
                    std::unique_lock<std::mutex> l(m[k]);
                    cv[k].wait(l, [&]() {
                        return a[k].replies > 0;
                    });
                }
                ctl.reset();
            }
            post[0].end();
            for(size_t k = 0; k < 2; k++) {
                if(a[k].replies > 1 || forwarded[k] > 1) {
                    sched::fail("twice", mc::strf("%d answers, forwarded %d "
                                                  "times",
                                                  a[k].replies,
                                                  forwarded[k]));
                }
                auto* e = a[k].last && a[k].last->m_payload
                            ? std::get_if<sentinel::execute_response>(
                                  &*a[k].last->m_payload)
                            : nullptr;
                if(e != nullptr
                   && (forwarded[k] != 1
                       || e->m_tx_status
                              != (k == 0 ? sentinel::tx_status::confirmed
                                         : sentinel::tx_status::
                                               state_invalid))) {
                    sched::fail("untrue", "the client is told otherwise");
                }
                if(!stop && e == nullptr) {
                    sched::fail("no-answer", "no answer");
                }
                out += mc::strf("%d%d ", forwarded[k], a[k].replies);
            }
            faketcp::servers.clear();
            faketcp::deliver = nullptr;
        });
        if(!c.failed()) {
            c.outcome(out);
            c.agreed();
        }
    }

    // ---- atomizer architecture -------------------------------------------
    uint16_t shard_port(size_t i) {
        return uint16_t(3000 + i);
    }
    struct deployment {
        const char* name;
        std::vector<config::shard_range_t> ranges;
    };
    const std::vector<deployment>& deployments() {
        static const std::vector<deployment> d{
            {"one shard", {{0, 255}}},
            {"two shards", {{0, 127}, {128, 255}}},
            {"three shards", {{0, 63}, {64, 127}, {128, 255}}},
            {"replicated shards",
             {{0, 127}, {128, 255}, {0, 127}, {128, 255}}},
            {"overlapping shards", {{0, 200}, {100, 255}, {100, 200}}},
        };
        return d;
    }
    // a transaction whose inputs have these first bytes
    const tr::full_tx& tx_with(const std::vector<uint8_t>& first) {
        static std::map<std::vector<uint8_t>, tr::full_tx> m;
        auto it = m.find(first);
        if(it != m.end()) {
            return it->second;
        }
        static std::map<uint8_t, std::vector<std::pair<uint8_t, uint64_t>>> by;
        if(by.empty()) {
            for(uint8_t a = 0; a < 40; a++) {
                for(uint64_t b = 0; b < 40; b++) {
                    auto t = tx_of({{a, b}}, 1);
                    by[tr::compact_tx(t).m_inputs[0][0]].emplace_back(a, b);
                }
            }
        }
        std::map<uint8_t, size_t> used;
        std::vector<std::pair<uint8_t, uint64_t>> prev;
        for(auto f : first) {
            prev.push_back(by.at(f).at(used[f]++));
        }
        auto t = tx_of(prev, 2);
        sign(t);
        return m.emplace(first, t).first->second;
    }
    bool in(const config::shard_range_t& r, uint8_t b) {
        return b >= r.first && b <= r.second;
    }

    void routing(mc::ctx& c,
                 const deployment& d,
                 bool down,
                 size_t n,
                 size_t threshold) {
        sched::options o;
        o.races = true;
        std::string out;
        sched::run(c, o, [&]() {
            reset_fake();
            faketcp::join_clients = false;
            simnet::reset({});
            bool gather = n > 1;
            sched::random_base = 1 + sched::choose(gather ? 3 : 4, "seed");
            static const uint8_t bytes[]{0, 63, 64, 99, 127, 128, 200, 255};
            std::vector<uint8_t> first;
            const tr::full_tx* t = nullptr;
            bool ok = true;
            if(gather) {
                auto k = sched::choose(n_kinds, "transaction");
                t = &kept(k);
                ok = k < n_valid;
            } else {
                auto k = 1 + sched::choose(3, "inputs");
                for(uint32_t i = 0; i < k; i++) {
                    first.push_back(bytes[sched::choose(
                        mc::thorough() || k < 3 ? 8 : 4, "prefix")]);
                    if(k == 3 && !mc::thorough()) {
                        // 0, 64, 127, 128
                        auto& b = first.back();
                        b = b == 63 ? 128 : b == 99 ? 127 : b;
                    }
                }
                t = &tx_with(first);
            }
            auto want = tr::compact_tx(*t);
            std::vector<bool> up;
            config::options opt = options_for(n, threshold);
            opt.m_twophase_mode = false;
            opt.m_shard_ranges = d.ranges;
            for(size_t i = 0; i < d.ranges.size(); i++) {
                opt.m_shard_endpoints.push_back(
                    {"127.0.0.1", shard_port(i)});
                up.push_back(!down || sched::choose(2, "shard down") == 0);
            }
            bool poor = false;
            std::map<size_t, int> asks;
            std::set<pubkey_t> have{h::pub(1)};
            auto start_others = [&]() {
            for(size_t i = 1; i < n; i++) {
                faketcp::servers[sent_ep(i)]
                    = [&, i](buffer q, const faketcp::reply_fn&)
                    -> std::optional<buffer> {
                    quiet g;
                    auto r = from_buffer<sreq>(q);
                    auto* v = r ? std::get_if<sentinel::validate_request>(
                                  &r->m_payload)
                                : nullptr;
                    if(v == nullptr || !same(*v, *t) || asks[i]++ != 0) {
                        sched::fail("asks-other", "wrong request");
                    }
                    auto x = answer(sched::choose(n_ans, "answer"), i, *v, n);
                    auto* w = x ? std::get_if<sentinel::validate_response>(
                                  &*x)
                                : nullptr;
                    bool counts = false;
                    for(size_t s = 0; w != nullptr && s < n; s++) {
                        counts |= w->first == h::pub(uint8_t(1 + s))
                               && want.verify(h::secp(), *w);
                    }
                    if(counts) {
                        have.insert(w->first);
                    } else {
                        poor = true;
                    }
                    return make_buffer(srsp{r->m_header, std::move(x)});
                };
            }
            };
            faketcp::strict_init = true;
            bool later = n > 1 && sched::choose(2, "others start later") == 1;
            if(!later) {
                start_others();
            }
            std::vector<std::thread> ts;
            std::vector<std::vector<buffer>> got(d.ranges.size());
            std::vector<std::unique_ptr<network::tcp_listener>> ls;
            std::vector<bool> over(d.ranges.size());
            for(size_t i = 0; i < d.ranges.size(); i++) {
                if(!up[i]) {
                    ls.push_back(nullptr);
                    continue;
                }
                ls.push_back(std::make_unique<network::tcp_listener>());
                if(!ls[i]->listen("127.0.0.1", shard_port(i))) {
                    sched::fail("unexpected:listen", "listen");
                }
                ts.emplace_back([&, i]() {
                    network::tcp_socket s;
                    if(!ls[i]->accept(s)) {
                        return;
                    }
                    buffer b;
                    while(s.receive(b)) {
                        quiet g;
                        got[i].push_back(b);
                    }
                });
            }
            std::optional<sentinel::execute_response> r, rv;
            {
                sentinel::controller ctl(0, opt, h::logger());
                if(!ctl.init()) {
                    sched::fail("init", "the sentinel does not start");
                }
                if(later) {
                    start_others();
                }
                r = ctl.execute_transaction(*t);
            }
            for(auto& l : ls) {
                if(l) {
                    l->close();
                }
            }
            for(auto& x : ts) {
                x.join();
            }
            quiet g;
            auto err = va::check_tx(*t);
            if(!r || r->m_tx_status
                         != (ok ? sentinel::tx_status::pending
                                : sentinel::tx_status::static_invalid)
               || !(r->m_tx_error == err)) {
                sched::fail("untrue", "the client is told otherwise");
            }
            std::set<size_t> reached;
            for(size_t i = 0; i < got.size(); i++) {
                if(got[i].size() > 1) {
                    sched::fail("twice", "a shard gets it twice");
                }
                for(auto& b : got[i]) {
                    auto m = from_buffer<tr::compact_tx>(b);
                    if(!m) {
                        sched::fail("garbled", "a shard cannot read it");
                    }
                    if(!ok) {
                        sched::fail("forwards-invalid",
                                    "an invalid transaction is forwarded");
                    }
                    if(!same(*m, want)) {
                        sched::fail("forwards-other", "another transaction");
                    }
                    auto e = attested(*m, n, threshold);
                    if(!e.empty()) {
                        sched::fail("forwards-unattested", e);
                    }
                    bool any = false;
                    for(size_t j = 0; j < want.m_inputs.size(); j++) {
                        if(in(d.ranges[i], want.m_inputs[j][0])) {
                            any = true;
                            reached.insert(j);
                        }
                    }
                    if(!any) {
                        sched::fail("wrong-shard",
                                    "a shard gets a transaction it has no "
                                    "input of");
                    }
                }
            }
            bool forwarded = !reached.empty();
            bool must = ok && !poor && have.size() >= threshold;
            for(size_t j = 0; j < want.m_inputs.size(); j++) {
                bool can = false;
                for(size_t i = 0; i < up.size(); i++) {
                    can |= up[i] && in(d.ranges[i], want.m_inputs[j][0]);
                }
                if((must || forwarded) && can && reached.count(j) == 0) {
                    sched::fail("not-reached",
                                mc::strf("no shard of input %zu gets it", j));
                }
            }
            out = mc::strf("%d %zu", ok, reached.size());
        });
        if(!c.failed()) {
            c.outcome(out);
            c.agreed();
        }
    }
}
int main(int argc, char** argv) {
    std::vector<mc::scenario> s;
    auto th = mc::thorough();
#ifndef ROUTING
    for(auto stop : {false, true}) {
        s.push_back({stop ? "stopped at any point" : "two clients at once",
                     [=](mc::ctx& c) { concurrent(c, 3, 2, stop); },
                     uint32_t(th ? 3 : 2) - (stop ? 1 : 0), 8, mc::by_deviation,
                     mc::strf("every schedule with up to %d preemptions",
                              (th ? 3 : 2) - (stop ? 1 : 0))});
    }
#endif
    for(auto& d : deployments()) {
        auto many = d.ranges.size() > 1;
        s.push_back({std::string("routing: ") + d.name,
                     [&d](mc::ctx& c) { routing(c, d, false, 1, 1); },
                     0, 8, 3, "every choice of inputs, every shard reachable"});
        if(many) {
            s.push_back({std::string("routing, shards down: ") + d.name,
                         [&d](mc::ctx& c) { routing(c, d, true, 1, 1); },
                         0, 8, 3, "every choice of inputs and reachable "
                                  "shards"});
        }
    }
#ifndef ROUTING
    for(size_t t = 0; t <= 3; t++) {
        s.push_back({mc::strf("atomizer sentinel, 3 sentinels, threshold %zu",
                              t),
                     [=](mc::ctx& c) {
                         routing(c, deployments()[1], false, 3, t);
                     },
                     0, 8, 3, "every answer of every remote asked"});
    }
#endif
    return mc::main(argc, argv, PROP, "model_checking",
                    "every schedule within the preemption bound; every "
                    "choice of inputs, shards and answers",
                    {"RPC transport replaced by direct calls and a delivery "
                     "thread"},
                    s);
}
#endif
