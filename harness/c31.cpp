// C31: which shard is responsible for what: configured prefix ranges through
// every component that routes by them, and the PArSEC directory.
#include <algorithm>
#include <atomic>
#include <cstring>
#include <filesystem>
#include <mutex>
#include <set>
#include <thread>
#include <variant>
#include <vector>

#include "common.hpp"
#include "parsec/broker/impl.hpp"
#include "parsec/directory/impl.hpp"
#include "parsec/runtime_locking_shard/interface.hpp"
#include "parsec/ticket_machine/interface.hpp"
#include "uhs/atomizer/atomizer/format.hpp"
#include "uhs/atomizer/shard/shard.hpp"
#include "uhs/twophase/coordinator/distributed_tx.hpp"
#include "uhs/twophase/locking_shard/client.hpp"
#include "uhs/twophase/locking_shard/format.hpp"
#include "uhs/twophase/locking_shard/locking_shard.hpp"
#include "uhs/twophase/locking_shard/status_client.hpp"
#include "util/rpc/format.hpp"
#include "util/rpc/messages.hpp"
using namespace h;
namespace {
    using range = config::shard_range_t;
    namespace ls = cbdc::locking_shard;
    namespace rls = cbdc::parsec::runtime_locking_shard;
    namespace br = cbdc::parsec::broker;
    namespace tm_ = cbdc::parsec::ticket_machine;
    using atomic_tx = transaction::compact_tx;

    // the partition, stated once
    bool in(const range& r, unsigned byte) {
        return byte >= r.first && byte <= r.second;
    }
    struct recorder : ls::interface {
        recorder(range r) : interface(r) {}
        std::mutex m;
        int locks{0}, applies{0}, discards{0};
        std::vector<hash_t> got;
        std::vector<bool> flags;
        std::optional<std::vector<bool>> answer;
        auto lock_outputs(std::vector<ls::tx>&& txs, const hash_t&)
            -> std::optional<std::vector<bool>> override {
            std::unique_lock l(m);
            locks++;
            for(auto& t : txs) {
                got.push_back(t.m_tx.m_id);
            }
            auto r = std::vector<bool>(txs.size(), true);
            if(answer) {
                for(size_t i = 0; i < r.size(); i++) {
                    r[i] = (*answer)[i % answer->size()];
                }
            }
            return r;
        }
        auto apply_outputs(std::vector<bool>&& f, const hash_t&)
            -> bool override {
            std::unique_lock l(m);
            applies++;
            flags = std::move(f);
            return true;
        }
        auto discard_dtx(const hash_t&) -> bool override {
            std::unique_lock l(m);
            discards++;
            return true;
        }
        void stop() override {}
    };

    // ---- every range and prefix ----
    void x_ranges(mc::ctx& c) {
        const auto a = c.choose(256, "start");
        for(unsigned b = a; b < 256; b++) {
            const range r{uint8_t(a), uint8_t(b)};
            recorder s(r);
            logging::log log(logging::log_level::fatal);
            ls::rpc::client cl({{"x", 1}}, r, log);
            for(unsigned p = 0; p < 256; p++) {
                for(uint8_t rest : {0x00, 0xff}) {
                    hash_t v{};
                    v.fill(rest);
                    v[0] = uint8_t(p);
                    const auto want = in(r, p);
                    if(config::hash_in_shard_range(r, v) != want
                       || s.hash_in_shard_range(v) != want
                       || cl.hash_in_shard_range(v) != want) {
                        c.fail("range",
                               "prefix %u, range %u-%u: must %sbe in it",
                               p, a, b, want ? "" : "not ");
                        return;
                    }
                }
            }
        }
        c.count(256 - a);
        c.agreed();
    }

    const std::vector<std::vector<range>>& deployments() {
        static const std::vector<std::vector<range>> d{
            {{0, 255}},
            {{0, 127}, {128, 255}},
            {{128, 255}, {0, 127}},
            {{0, 0}, {1, 254}, {255, 255}},
            {{0, 84}, {85, 169}, {170, 255}},
            {{0, 200}, {100, 255}},
            {{0, 255}, {0, 255}},
            {{7, 7}, {9, 20}},
            {{0, 63}, {64, 127}, {128, 191}, {192, 255}},
        };
        return d;
    }
    // first and last of each range and their neighbours
    std::vector<uint8_t> edges(const std::vector<range>& d) {
        std::set<uint8_t> r;
        for(auto& x : d) {
            for(int v : {x.first - 1, int(x.first), int(x.second),
                         x.second + 1}) {
                if(v >= 0 && v <= 255) {
                    r.insert(uint8_t(v));
                }
            }
        }
        return {r.begin(), r.end()};
    }

    // ---- the coordinator's distributed transaction ----
    void x_dtx(mc::ctx& c) {
        const auto& d
            = deployments()[c.choose(uint32_t(deployments().size()), "ranges")];
        const auto e = edges(d);
        const auto n = uint32_t(e.size());
        const auto ntx = 1 + c.choose(2, "transactions");
        std::vector<atomic_tx> txs;
        uint32_t serial = 1;
        for(uint32_t t = 0; t < ntx; t++) {
            auto pick = [&](const char* what) {
                // the second one of a batch: some
                auto k = t == 0 ? c.choose(n, what)
                                : (c.choose(2, what) * (n - 1) + t) % n;
                return id(e[k], serial++);
            };
            auto i = pick("id");
            auto x = pick("input");
            std::vector<hash_t> inputs{x};
            auto o = pick("output");
            std::vector<hash_t> outputs{o};
            if(t == 1) {
                inputs.push_back(id(e[0], serial++));
                outputs.push_back(id(e[n - 1], serial++));
            }
            txs.push_back(ctx_tx(i, inputs, outputs));
        }
        // does a shard refuse one of them?
        const auto refuse = c.choose(uint32_t(d.size()) + 1, "refuses");
        std::vector<std::shared_ptr<recorder>> rec;
        std::vector<std::shared_ptr<ls::interface>> shards;
        for(size_t i = 0; i < d.size(); i++) {
            rec.push_back(std::make_shared<recorder>(d[i]));
            if(refuse == i + 1) {
                rec[i]->answer = std::vector<bool>{false, true};
            }
            shards.push_back(rec[i]);
        }
        coordinator::distributed_tx x(id(1, 1), shards, logger());
        for(auto& t : txs) {
            x.add_tx(t);
        }
        auto r = x.execute();
        if(!r || r->size() != txs.size()) {
            c.fail("dtx", "the batch was not executed");
            return;
        }
        std::vector<bool> want(txs.size(), true);
        std::vector<std::vector<size_t>> of(d.size());
        for(size_t s = 0; s < d.size(); s++) {
            for(size_t t = 0; t < txs.size(); t++) {
                bool mine = in(d[s], txs[t].m_id[0]);
                for(auto& v : txs[t].m_inputs) {
                    mine |= in(d[s], v[0]);
                }
                for(auto& v : txs[t].m_uhs_outputs) {
                    mine |= in(d[s], v[0]);
                }
                if(mine) {
                    if(rec[s]->answer
                       && !(*rec[s]->answer)[of[s].size() % 2]) {
                        want[t] = false;
                    }
                    of[s].push_back(t);
                }
            }
        }
        for(size_t s = 0; s < d.size(); s++) {
            const int k = of[s].empty() ? 0 : 1;
            if(rec[s]->locks != k || rec[s]->applies != k
               || rec[s]->discards != k) {
                c.fail("addressed",
                       "shard %zu was asked %d/%d/%d times, must be %d", s,
                       rec[s]->locks, rec[s]->applies, rec[s]->discards, k);
                return;
            }
            std::vector<hash_t> ids;
            std::vector<bool> flags;
            for(auto t : of[s]) {
                ids.push_back(txs[t].m_id);
                flags.push_back(want[t]);
            }
            if(ids != rec[s]->got) {
                c.fail("given", "shard %zu got other transactions", s);
                return;
            }
            if(flags != rec[s]->flags) {
                c.fail("applied", "shard %zu was told to apply others", s);
                return;
            }
        }
        if(*r != want) {
            c.fail("result", "other results than the shards gave");
            return;
        }
        c.agreed();
        c.outcome(mc::strf("%d%d", int(want[0]), int(want.back())));
    }

    // ---- two-phase shard ----
    const std::vector<range>& shard_ranges() {
        static const std::vector<range> r{
            {0, 255}, {0, 0}, {255, 255}, {0, 127}, {128, 255}, {1, 254},
            {100, 100}, {63, 64}};
        return r;
    }
    void x_locking(mc::ctx& c) {
        const auto& r
            = shard_ranges()[c.choose(uint32_t(shard_ranges().size()), "r")];
        config::options opt;
        opt.m_attestation_threshold = 0;
        ls::locking_shard s(r, logger(), 1000, "", opt);
        uint32_t k = 1;
        auto run = [&](const atomic_tx& t) {
            auto q = id(9, 1000 + k++);
            ls::tx x;
            x.m_tx = t;
            auto l = s.lock_outputs({x}, q);
            bool ok = l && l->size() == 1 && (*l)[0];
            if(!l || !s.apply_outputs(std::vector<bool>(*l), q)
               || !s.discard_dtx(q)) {
                c.fail("shard", "an operation failed");
            }
            return ok;
        };
        for(unsigned p = 0; p < 256; p++) {
            auto u = id(uint8_t(p), 1), w = id(uint8_t(p), 2);
            auto t = id(uint8_t(p), 3);
            const bool mine = in(r, p);
            // the transaction id in question, everything else elsewhere
            const uint8_t far = in(r, 0) ? 0 : 255;
            bool ok = run(ctx_tx(t, {}, {u}));
            if(!ok || s.check_unspent(u) != std::optional<bool>(mine)
               || s.check_tx_id(t) != std::optional<bool>(mine)) {
                c.fail("create",
                       "prefix %u, range %u-%u: created %d, unspent %d, "
                       "completed %d",
                       p, r.first, r.second, int(ok),
                       int(s.check_unspent(u).value_or(false)),
                       int(s.check_tx_id(t).value_or(false)));
                return;
            }
            if(!run(ctx_tx(id(far, 10 + p), {u}, {}))
               || s.check_unspent(u) != std::optional<bool>(false)) {
                c.fail("spend", "prefix %u, range %u-%u: not spent", p,
                       r.first, r.second);
                return;
            }
            if(run(ctx_tx(id(far, 300 + p), {w}, {})) == mine) {
                c.fail("missing",
                       "prefix %u, range %u-%u: an input that does not exist "
                       "was %s",
                       p, r.first, r.second, mine ? "locked" : "refused");
                return;
            }
        }
        c.count(256);
        c.agreed();
    }

    // ---- atomizer shard ----
    void x_atomizer(mc::ctx& c) {
        const auto& r
            = shard_ranges()[c.choose(uint32_t(shard_ranges().size()), "r")];
        auto dir = mc::scratch() + "/c31db";
        std::filesystem::remove_all(dir);
        shard::shard s(r);
        if(s.open_db(dir)) {
            c.fail("unexpected:open", "database");
            return;
        }
        cbdc::atomizer::block b;
        b.m_height = 1;
        std::vector<hash_t> all;
        for(unsigned p = 0; p < 256; p++) {
            all.push_back(id(uint8_t(p), 1));
        }
        b.m_transactions.push_back(ctx_tx(id(1, 1), {}, all));
        if(!s.digest_block(b)) {
            c.fail("unexpected:block", "block");
            return;
        }
        for(int spent = 0; spent < 2; spent++) {
            for(unsigned p = 0; p < 256; p++) {
                // one input; it and another one
                for(int two = 0; two < 2; two++) {
                    std::vector<hash_t> inputs{all[p]};
                    if(two == 1) {
                        inputs.push_back(all[255 - p]);
                    }
                    auto t = ctx_tx(id(uint8_t(p), 77), inputs, {id(1, 9)});
                    auto v = s.digest_transaction(t);
                    auto* n = std::get_if<cbdc::atomizer::tx_notify_request>(
                        &v);
                    std::set<size_t> want;
                    for(size_t i = 0; i < inputs.size(); i++) {
                        if(in(r, inputs[i][0])) {
                            want.insert(i);
                        }
                    }
                    if(spent == 1 && !want.empty()) {
                        if(n != nullptr) {
                            c.fail("spent",
                                   "prefix %u, range %u-%u: attests a spent "
                                   "input",
                                   p, r.first, r.second);
                            return;
                        }
                        continue;
                    }
                    std::set<size_t> got;
                    if(n != nullptr) {
                        for(auto a : n->m_attestations) {
                            got.insert(size_t(a));
                        }
                    }
                    if(n == nullptr || got != want) {
                        c.fail("attests",
                               "prefix %u, range %u-%u: attests %zu inputs, "
                               "must be %zu",
                               p, r.first, r.second, got.size(),
                               want.size());
                        return;
                    }
                }
            }
            b.m_height = 2;
            b.m_transactions = {ctx_tx(id(1, 2), all, {})};
            if(spent == 0 && !s.digest_block(b)) {
                c.fail("unexpected:block", "block");
                return;
            }
        }
        c.count(1024);
        c.agreed();
    }

    // ---- clients asking for the state ----
    void x_status(mc::ctx& c) {
        const auto& d
            = deployments()[c.choose(uint32_t(deployments().size()), "ranges")];
        std::vector<int> asked(d.size());
        bool tx{};
        hash_t what{};
        std::vector<std::vector<network::endpoint_t>> eps;
        faketcp::servers.clear();
        for(size_t i = 0; i < d.size(); i++) {
            eps.emplace_back();
            // the first node of each cluster is down
            for(int k = 0; k < 3; k++) {
                network::endpoint_t e{"s", uint16_t(100 + 10 * i + k)};
                eps[i].push_back(e);
                if(k == 0) {
                    continue;
                }
                faketcp::servers[e]
                    = [&, i](buffer q, const faketcp::reply_fn&)
                    -> std::optional<buffer> {
                    auto r = from_buffer<
                        cbdc::rpc::request<ls::rpc::status_request>>(q);
                    if(!r) {
                        return std::nullopt;
                    }
                    asked[i]++;
                    if(auto* t = std::get_if<ls::rpc::tx_status_request>(
                           &r->m_payload)) {
                        tx = true;
                        what = t->m_tx_id;
                    } else {
                        tx = false;
                        what = std::get<0>(r->m_payload).m_uhs_id;
                    }
                    cbdc::rpc::response<bool> a{r->m_header, true};
                    return make_buffer(a);
                };
            }
        }
        ls::rpc::status_client cl(eps, d);
        if(!cl.init()) {
            c.fail("init", "does not start");
            return;
        }
        for(unsigned p = 0; p < 256; p++) {
            for(int t = 0; t < 2; t++) {
                std::fill(asked.begin(), asked.end(), 0);
                auto v = id(uint8_t(p), p);
                auto r = t == 1 ? cl.check_tx_id(v) : cl.check_unspent(v);
                size_t sum = 0;
                bool any = false, wrong = false;
                for(size_t i = 0; i < d.size(); i++) {
                    any |= in(d[i], p);
                    sum += size_t(asked[i]);
                    wrong |= asked[i] != 0 && !in(d[i], p);
                }
                if(r.has_value() != any || wrong || sum != (any ? 1 : 0)
                   || (any && (tx != (t == 1) || what != v))) {
                    c.fail("asks",
                           "prefix %u: %zu shards asked, %s", p, sum,
                           wrong ? "not one responsible" : "");
                    return;
                }
            }
        }
        c.count(512);
        c.agreed();
    }

    // ---- PArSEC ----
    std::vector<buffer> keys() {
        std::vector<buffer> r;
        auto add = [&](const std::string& s) {
            buffer b;
            if(!s.empty()) {
                b.append(s.data(), s.size());
            }
            r.push_back(b);
        };
        add("");
        for(int i = 0; i < 256; i++) {
            add(std::string(1, char(i)));
            for(int j = 0; j < 256; j++) {
                add(std::string{char(i), char(j)});
            }
        }
        // longer ones: other lengths, differing at any one place
        for(size_t n = 3; n <= 40; n++) {
            add(std::string(n, '\0'));
            for(size_t k = 0; k < n; k++) {
                auto s = std::string(n, 'k');
                s[k] = char(n + k);
                add(s);
            }
        }
        return r;
    }
    size_t where(parsec::directory::interface& d, const buffer& k) {
        size_t got = size_t(-1);
        int calls = 0;
        buffer copy = k;
        bool ok = d.key_location(copy, [&](uint64_t v) {
            got = size_t(v);
            calls++;
        });
        return ok && calls == 1 ? got : size_t(-1);
    }
    // the whole mapping, as one number
    uint64_t mapping() {
        std::string s;
        for(size_t n = 1; n <= 8; n++) {
            parsec::directory::impl d(n);
            for(const auto& k : keys()) {
                s += char('0' + where(d, k));
            }
        }
        return mc::fnv(s);
    }
    void x_directory(mc::ctx& c, const std::string& self) {
        const size_t n = 1 + c.choose(16, "shards");
        parsec::directory::impl a(n);
        auto b = std::make_unique<parsec::directory::impl>(n);
        std::set<size_t> used;
        auto ks = keys();
        std::vector<size_t> first;
        for(const auto& k : ks) {
            auto s = where(a, k);
            first.push_back(s);
            used.insert(s);
            if(s >= n) {
                c.fail("no shard", "a key has no shard among %zu", n);
                return;
            }
        }
        if(used.size() != n) {
            c.fail("unused", "only %zu of %zu shards are responsible for any "
                             "key",
                   used.size(), n);
            return;
        }
        // again, in another order, by another instance, from another thread
        std::vector<size_t> second(ks.size());
        std::thread t([&]() {
            for(size_t i = ks.size(); i-- > 0;) {
                second[i] = where(*b, ks[i]);
            }
        });
        t.join();
        for(size_t i = 0; i < ks.size(); i++) {
            if(second[i] != first[i] || where(a, ks[i]) != first[i]) {
                c.fail("moves", "a key is at shard %zu and at %zu of %zu",
                       first[i], second[i], n);
                return;
            }
        }
        // in other runs
        if(n == 1) {
            uint64_t m = mapping();
            for(const char* env : {"", "env -i ", "cd / && exec "}) {
                auto* p = popen((env + self + " --map").c_str(), "r");
                char buf[64]{};
                bool ok = p != nullptr && fgets(buf, sizeof buf, p) != nullptr;
                if(p == nullptr || pclose(p) != 0 || !ok) {
                    c.fail("unexpected:run", "another run failed");
                    return;
                }
                if(strtoull(buf, nullptr, 16) != m) {
                    c.fail("other run", "another run has other locations");
                    return;
                }
            }
        }
        c.count(ks.size());
        c.agreed();
    }
    struct stub_tm : tm_::interface {
        uint64_t next{1};
        auto get_ticket_number(get_ticket_number_callback_type cb)
            -> bool override {
            auto n = next++;
            cb(ticket_number_range_type{n, n});
            return true;
        }
    };
    struct rshard : rls::interface {
        std::vector<buffer> locked;
        std::vector<rls::state_update_type> prepared;
        int commits{0}, finishes{0}, rollbacks{0};
        auto try_lock(rls::ticket_number_type, rls::broker_id_type,
                      rls::key_type key, rls::lock_type, bool,
                      try_lock_callback_type cb) -> bool override {
            locked.push_back(key);
            cb(buffer());
            return true;
        }
        auto prepare(rls::ticket_number_type, rls::broker_id_type,
                     rls::state_update_type u, prepare_callback_type cb)
            -> bool override {
            prepared.push_back(u);
            cb(std::nullopt);
            return true;
        }
        auto commit(rls::ticket_number_type, commit_callback_type cb)
            -> bool override {
            commits++;
            cb(std::nullopt);
            return true;
        }
        auto rollback(rls::ticket_number_type, rollback_callback_type cb)
            -> bool override {
            rollbacks++;
            cb(std::nullopt);
            return true;
        }
        auto finish(rls::ticket_number_type, finish_callback_type cb)
            -> bool override {
            finishes++;
            cb(std::nullopt);
            return true;
        }
        auto get_tickets(rls::broker_id_type, get_tickets_callback_type cb)
            -> bool override {
            cb(get_tickets_success_type{});
            return true;
        }
    };
    void x_broker(mc::ctx& c) {
        const size_t n = 1 + c.choose(4, "shards");
        static const auto all = keys();
        std::vector<std::shared_ptr<rshard>> sh;
        std::vector<std::shared_ptr<rls::interface>> si;
        for(size_t i = 0; i < n; i++) {
            sh.push_back(std::make_shared<rshard>());
            si.push_back(sh[i]);
        }
        auto dir = std::make_shared<parsec::directory::impl>(n);
        br::impl b(0, si, std::make_shared<stub_tm>(), dir, logger());
        uint64_t ticket = 0;
        if(!b.begin([&](auto r) {
               ticket = std::holds_alternative<rls::ticket_number_type>(r)
                          ? std::get<rls::ticket_number_type>(r)
                          : 0;
           })
           || ticket == 0) {
            c.fail("unexpected:begin", "begin");
            return;
        }
        parsec::directory::impl other(n);
        std::vector<std::set<std::string>> want(n), upd(n);
        rls::state_update_type updates;
        const auto k = 1 + c.choose(3, "keys");
        for(uint32_t i = 0; i < k; i++) {
            const auto& key = all[1 + c.choose(8, "key") * 37 + i * 300];
            const bool w = c.flip("write");
            auto s = where(other, key);
            std::string str(static_cast<const char*>(key.data()), key.size());
            want[s].insert(str);
            if(w) {
                upd[s].insert(str);
                updates.emplace(key, key);
            }
            bool ok = false;
            if(!b.try_lock(ticket, key,
                           w ? rls::lock_type::write : rls::lock_type::read,
                           [&](auto r) {
                               ok = std::holds_alternative<buffer>(r);
                           })
               || !ok) {
                c.fail("unexpected:lock", "lock");
                return;
            }
        }
        const bool back = c.flip("rolls back");
        bool ok = false;
        if(back) {
            ok = b.rollback(ticket, [](auto) {});
        } else {
            ok = b.commit(ticket, updates, [&](auto r) {
                if(r.has_value()) {
                    c.fail("unexpected:commit", "commit");
                }
            });
        }
        ok &= b.finish(ticket, [](auto) {});
        if(!ok) {
            c.fail("unexpected:end", "commit, rollback or finish");
            return;
        }
        for(size_t i = 0; i < n; i++) {
            std::set<std::string> got, put;
            for(auto& x : sh[i]->locked) {
                got.insert({static_cast<const char*>(x.data()), x.size()});
            }
            for(auto& u : sh[i]->prepared) {
                for(auto& [x, v] : u) {
                    put.insert({static_cast<const char*>(x.data()), x.size()});
                }
            }
            if(got != want[i]) {
                c.fail("locks at", "shard %zu of %zu was asked for other keys",
                       i, n);
                return;
            }
            if(!back && put != upd[i]) {
                c.fail("updates at", "shard %zu of %zu got other updates", i,
                       n);
                return;
            }
            const int part = want[i].empty() ? 0 : 1;
            if((back ? sh[i]->rollbacks : sh[i]->commits) != part
               || (back ? sh[i]->finishes > part : sh[i]->finishes != part)
               || (back ? sh[i]->commits : sh[i]->rollbacks) != 0) {
                c.fail("ends at",
                       "shard %zu of %zu: %d commits, %d rollbacks, %d "
                       "finishes, takes part: %d",
                       i, n, sh[i]->commits, sh[i]->rollbacks,
                       sh[i]->finishes, part);
                return;
            }
        }
        c.agreed();
        c.outcome(back ? "back" : "done");
    }

    // ---- seeds of the load generators ----
    void x_seeds(mc::ctx& c) {
        config::options o;
        o.m_seed_from = c.choose(3, "from") * 7;
        const size_t total = 1 + c.choose(30, "outputs");
        o.m_seed_to = o.m_seed_from + total;
        o.m_loadgen_count = 1 + c.choose(8, "generators");
        if(total < o.m_loadgen_count) {
            return;
        }
        std::set<size_t> used;
        for(size_t g = 0; g < o.m_loadgen_count; g++) {
            auto [a, b] = config::loadgen_seed_range(o, g);
            if(a > b || a < o.m_seed_from || b >= o.m_seed_to) {
                c.fail("seeds", "generator %zu of %zu: %zu-%zu of %zu-%zu", g,
                       o.m_loadgen_count, a, b, o.m_seed_from, o.m_seed_to);
                return;
            }
            for(size_t i = a; i <= b; i++) {
                if(!used.insert(i).second) {
                    c.fail("seed twice", "output %zu has two generators", i);
                    return;
                }
            }
        }
        c.agreed();
    }
}
int main(int argc, char** argv) {
    if(argc == 2 && std::string(argv[1]) == "--map") {
        printf("%llx\n", (unsigned long long)mapping());
        return 0;
    }
    auto self = std::filesystem::read_symlink("/proc/self/exe").string();
    std::vector<mc::scenario> s{
        {"ranges", x_ranges, 0, 8, 1, "every range and prefix"},
        {"distributed transactions", x_dtx, 0, 8, 3,
         "every id, input and output at the bounds of 9 deployments, batches "
         "of 1 and 2, each shard refusing"},
        {"locking shards", x_locking, 0, 8, 1, "8 ranges, every prefix"},
        {"atomizer shards", x_atomizer, 0, 8, 1, "8 ranges, every prefix"},
        {"status clients", x_status, 0, 4, 1, "9 deployments, every prefix"},
        {"directory", [self](mc::ctx& c) { x_directory(c, self); }, 0, 8, 1,
         "1 to 16 shards, 66000 keys, other instances, threads and runs"},
        {"brokers", x_broker, 0, 8, 2,
         "1 to 4 shards, up to 3 of 24 keys, commit and rollback"},
        {"load generators", x_seeds, 0, 4, 1, "every small range and count"},
    };
    return mc::main(argc, argv, "C31", "model_checking",
                    "every component agrees with one partition function",
                    {"TCP replaced by direct calls (its own checks are "
                     "C20-C22)"},
                    s);
}
