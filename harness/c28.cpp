// C28: the client's pending transactions, against a ledger.
#include <algorithm>
#include <array>
#include <cstring>
#include <deque>
#include <filesystem>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include "harness/common.hpp"
#ifdef CONCURRENT
#include "mc/sched.hpp"
#include "mc/simnet.hpp"
#else
#include "mc/recfs.hpp"
#endif
#include "uhs/atomizer/atomizer/format.hpp"
#include "uhs/atomizer/watchtower/watchtower.hpp"
#include "uhs/client/atomizer_client.hpp"
#include "uhs/client/twophase_client.hpp"
#include "uhs/sentinel/format.hpp"
#include "uhs/transaction/messages.hpp"
#include "uhs/transaction/validation.hpp"
#include "uhs/transaction/wallet.hpp"
#include "uhs/twophase/coordinator/format.hpp"
#include "uhs/twophase/coordinator/messages.hpp"
#include "uhs/twophase/locking_shard/format.hpp"
#include "uhs/twophase/locking_shard/status_messages.hpp"
#include "util/rpc/format.hpp"
#include "util/rpc/tcp_server.hpp"

namespace {
    using namespace cbdc;
    namespace tr = transaction;
    using key = std::pair<hash_t, uint64_t>;

    const network::endpoint_t sentinel_ep{"127.0.0.1", 11};
    const network::endpoint_t coordinator_ep{"127.0.0.1", 12};
    const network::endpoint_t shard_ep{"127.0.0.1", 13};
    const network::endpoint_t watchtower_ep{"127.0.0.1", 14};
    const network::endpoint_t atomizer_ep{"127.0.0.1", 15};

    config::options options() {
        config::options o;
        o.m_sentinel_endpoints = {sentinel_ep};
        o.m_coordinator_endpoints = {{coordinator_ep}};
        o.m_locking_shard_readonly_endpoints = {{shard_ep}};
        o.m_shard_ranges = {{0, 255}};
        o.m_watchtower_client_endpoints = {watchtower_ep};
        o.m_atomizer_endpoints = {atomizer_ep};
        o.m_attestation_threshold = 1;
        o.m_sentinel_private_keys = {{0, h::priv(3)}};
        return o;
    }

    key k_of(const tr::input& i) {
        return {i.m_prevout.m_tx_id, i.m_prevout.m_index};
    }
    tr::input in_of(const tr::full_tx& tx, uint32_t o) {
        tr::input in;
        in.m_prevout.m_tx_id = tr::tx_id(tx);
        in.m_prevout.m_index = o;
        in.m_prevout_data = tx.m_outputs[o];
        return in;
    }
    hash_t comm(const pubkey_t& p) {
        return tr::validation::get_p2pk_witness_commitment(p);
    }
    pubkey_t stranger() {
        static auto p = h::pub(77);
        return p;
    }

    enum class st { created, accepted, dead, applied };

    // The system the clients use.
    struct ledger {
        std::map<key, tr::input> unspent;
        std::map<hash_t, tr::full_tx> known; // transactions of the client
        std::map<hash_t, st> state;
        std::string error;
        void learn(const tr::full_tx& tx, st s) {
            auto id = tr::tx_id(tx);
            known.emplace(id, tx);
            state.emplace(id, s);
        }
        void apply(const tr::full_tx& tx) {
            auto id = tr::tx_id(tx);
            known.emplace(id, tx);
            if(state[id] == st::applied) {
                return;
            }
            state[id] = st::applied;
            for(auto& i : tx.m_inputs) {
                auto it = unspent.find(k_of(i));
                if(it == unspent.end() || !(it->second == i)) {
                    error = "a transaction of the client spends an output "
                            "that does not exist or is spent";
                } else {
                    unspent.erase(it);
                }
            }
            for(uint32_t o = 0; o < tx.m_outputs.size(); o++) {
                unspent.emplace(key{id, o}, in_of(tx, o));
            }
        }
        bool has(const hash_t& id) const {
            auto it = state.find(id);
            return it != state.end() && it->second == st::applied;
        }
    };

#ifndef CONCURRENT
    extern "C" int clock_nanosleep(clockid_t,
                                   int,
                                   const timespec*,
                                   timespec*) {
        return 0;
    }

    // sentinel answers
    enum mode { ok, later, reject, ok_silent, dead_silent };

    struct world {
        ledger l;
        mode m{ok};
        bool shard_silent{};
        std::vector<std::pair<size_t, ledger>> log; // by file operations
        bool recording{};
        std::string dir;
        rpc::blocking_tcp_server<sentinel::request, sentinel::response> sent{
            sentinel_ep};
        rpc::blocking_tcp_server<coordinator::rpc::request,
                                 coordinator::rpc::response>
            coord{coordinator_ep};
        rpc::blocking_tcp_server<locking_shard::rpc::status_request,
                                 locking_shard::rpc::status_response>
            shard{shard_ep};
        std::unique_ptr<twophase_client> c;
        std::optional<tr::full_tx> minting; // full form of the mint
        std::optional<tr::full_tx> created;
        tr::full_tx payment;
        bool pay_applied{};
        std::array<bool, 2> imported{};
        std::array<bool, 2> credited{};
        std::set<key> spendable; // outputs the client should know of

        world() {
            sent.register_handler_callback(
                [this](sentinel::request r)
                    -> std::optional<sentinel::response> {
                    auto* e = std::get_if<sentinel::execute_request>(&r);
                    if(e == nullptr) {
                        return std::nullopt;
                    }
                    tr::full_tx tx = *e;
                    note();
                    std::optional<sentinel::response> a;
                    sentinel::execute_response x;
                    if(m == ok || m == ok_silent) {
                        l.apply(tx);
                        x.m_tx_status = sentinel::tx_status::confirmed;
                    } else if(m == later) {
                        l.learn(tx, st::accepted);
                        l.state[tr::tx_id(tx)] = st::accepted;
                        x.m_tx_status = sentinel::tx_status::pending;
                    } else {
                        l.learn(tx, st::dead);
                        l.state[tr::tx_id(tx)] = st::dead;
                        x.m_tx_status = sentinel::tx_status::state_invalid;
                    }
                    note();
                    if(m == ok_silent || m == dead_silent) {
                        return std::nullopt;
                    }
                    return sentinel::response{x};
                });
            coord.register_handler_callback(
                [this](const coordinator::rpc::request& r)
                    -> std::optional<bool> {
                    note();
                    mint_mark = log.size();
                    last_mint = r;
                    if(m == ok || m == ok_silent) {
                        mint_applied = true;
                    }
                    note();
                    if(m == ok_silent || m == dead_silent) {
                        return std::nullopt;
                    }
                    return m == ok;
                });
            shard.register_handler_callback(
                [this](locking_shard::rpc::status_request r)
                    -> std::optional<bool> {
                    if(shard_silent) {
                        return std::nullopt;
                    }
                    auto* t = std::get_if<
                        locking_shard::rpc::tx_status_request>(&r);
                    return t != nullptr && l.has(t->m_tx_id);
                });
            if(!sent.init() || !coord.init() || !shard.init()) {
                abort();
            }
        }
        std::optional<tr::compact_tx> last_mint;
        bool mint_applied{};
        size_t mint_mark{};
        void note() {
            if(recording) {
                log.emplace_back(recfs::recorded(), l);
            }
        }
        std::string wf() const {
            return dir + "/wallet.dat";
        }
        std::string cf() const {
            return dir + "/client.dat";
        }
        bool open() {
            c = std::make_unique<twophase_client>(options(), h::logger(),
                                                  wf(), cf());
            return c->init();
        }
    };

    constexpr uint32_t n_ops = 28;

    // What the client should report.
    struct expect {
        std::map<key, tr::input> wallet;
        std::map<hash_t, tr::full_tx> txs;
        std::map<key, tr::input> spend; // taken from the wallet
        std::map<key, tr::input> inputs;
        std::set<hash_t> ours;
        uint64_t balance() const {
            uint64_t b = 0;
            for(auto& [k, i] : wallet) {
                b += i.m_prevout_data.m_value;
            }
            return b;
        }
        void confirm(const hash_t& id) {
            auto it = txs.find(id);
            if(it != txs.end()) {
                for(uint32_t o = 0; o < it->second.m_outputs.size(); o++) {
                    auto& w
                        = it->second.m_outputs[o].m_witness_program_commitment;
                    if(ours.count(w) > 0) {
                        wallet.emplace(key{id, o}, in_of(it->second, o));
                    }
                }
                for(auto& i : it->second.m_inputs) {
                    wallet.erase(k_of(i));
                    spend.erase(k_of(i));
                }
                txs.erase(it);
            }
            for(auto i = inputs.begin(); i != inputs.end();) {
                if(i->first.first == id) {
                    wallet.emplace(i->first, i->second);
                    i = inputs.erase(i);
                } else {
                    i++;
                }
            }
        }
        void abandon(const hash_t& id) {
            auto it = txs.find(id);
            if(it == txs.end()) {
                return;
            }
            auto tx = it->second;
            txs.erase(it);
            for(auto& i : tx.m_inputs) {
                bool other = false;
                for(auto& [k, t] : txs) {
                    for(auto& j : t.m_inputs) {
                        other = other || j == i;
                    }
                }
                if(!other && spend.erase(k_of(i)) > 0) {
                    wallet.emplace(k_of(i), i);
                }
            }
        }
        // a transaction made by the client
        std::string made(const tr::full_tx& tx,
                         const std::vector<std::pair<hash_t, uint64_t>>& pay,
                         bool pending) {
            std::multiset<uint64_t> want, got;
            for(auto& i : tx.m_inputs) {
                auto it = wallet.find(k_of(i));
                if(it == wallet.end()) {
                    return "spends what the wallet does not hold";
                }
                spend.insert(*it);
                wallet.erase(it);
            }
            for(auto& p : pay) {
                want.insert(p.second);
            }
            uint64_t sum = 0;
            for(auto& o : tx.m_outputs) {
                sum += o.m_value;
                if(o.m_witness_program_commitment == pay[0].first) {
                    got.insert(o.m_value);
                } else {
                    ours.insert(o.m_witness_program_commitment);
                }
            }
            if(want != got) {
                return "does not pay what was asked";
            }
            if(tr::validation::check_tx(tx).has_value()) {
                return "is invalid";
            }
            if(pending) {
                txs.emplace(tr::tx_id(tx), tx);
            }
            return "";
        }
    };

    std::string compare(client& c, const expect& e) {
        if(c.balance() != e.balance()
           || c.utxo_count() != e.wallet.size()) {
            return mc::strf("balance %llu of %llu in %zu of %zu outputs",
                            (unsigned long long)c.balance(),
                            (unsigned long long)e.balance(),
                            c.utxo_count(),
                            e.wallet.size());
        }
        if(c.pending_tx_count() != e.txs.size()) {
            return mc::strf("%zu of %zu pending transactions",
                            c.pending_tx_count(),
                            e.txs.size());
        }
        if(c.pending_input_count() != e.inputs.size()) {
            return mc::strf("%zu of %zu pending inputs",
                            c.pending_input_count(),
                            e.inputs.size());
        }
        for(auto& [id, t] : e.txs) {
            for(auto& i : t.m_inputs) {
                if(!c.check_pending(i)) {
                    return "an input of a pending transaction is not "
                           "pending";
                }
            }
        }
        for(auto& [k, i] : e.wallet) {
            if(c.check_pending(i)) {
                return "an output in the wallet is pending";
            }
        }
        return "";
    }

    struct run {
        world w;
        expect e;
        std::deque<tr::full_tx> acc, dead; // in order of creation
        pubkey_t addr{};
        bool created_open{};

        std::string settle_books(const std::string& x) {
            return x;
        }

        void classify(const tr::full_tx& tx) {
            switch(w.l.state[tr::tx_id(tx)]) {
                case st::accepted:
                    acc.push_back(tx);
                    break;
                case st::dead:
                    dead.push_back(tx);
                    break;
                default:
                    break;
            }
        }

        std::string do_mint(mode m) {
            w.m = m;
            w.last_mint.reset();
            w.mint_applied = false;
            auto before = w.c->pending_tx_count();
            (void)before;
            auto tx = w.c->mint(2, 2);
            for(auto& o : tx.m_outputs) {
                e.ours.insert(o.m_witness_program_commitment);
            }
            auto id = tr::tx_id(tx);
            if(!w.last_mint.has_value() || w.last_mint->m_id != id) {
                return "the mint was not sent to the coordinator";
            }
            if(w.last_mint->m_attestations.size() != 1) {
                return "the mint lacks its attestation";
            }
            e.txs.emplace(id, tx);
            if(w.mint_applied) {
                w.l.apply(tx);
                for(auto i = w.mint_mark; i < w.log.size(); i++) {
                    w.log[i].second.apply(tx); // when it was answered
                }
            } else {
                w.l.learn(tx, st::dead);
                dead.push_back(tx);
            }
            if(m == ok) {
                e.confirm(id);
            }
            return "";
        }

        std::string do_send(uint32_t v, const pubkey_t& to, mode m) {
            w.m = m;
            auto can = e.balance() >= v;
            auto n = w.l.known.size();
            auto bal = w.c->balance();
            auto [tx, res] = w.c->send(v, to);
            if(!can) {
                return tx.has_value() || w.l.known.size() != n
                            || w.c->balance() != bal
                         ? "sent more than the balance"
                         : "";
            }
            return sent(tx, res, {{comm(to), v}}, m, n);
        }

        std::string sent(const std::optional<tr::full_tx>& tx,
                         const std::optional<sentinel::execute_response>& res,
                         const std::vector<std::pair<hash_t, uint64_t>>& pay,
                         mode m,
                         size_t n) {
            // the transaction the sentinel was given
            if(w.l.known.size() != n + 1) {
                return "the transaction did not reach the sentinel";
            }
            tr::full_tx t;
            if(tx.has_value()) {
                t = tx.value();
            } else {
                if(m == ok || m == later || m == reject) {
                    return "the answer of the sentinel was lost";
                }
                for(auto& [id, k] : w.l.known) {
                    if(seen.count(id) == 0) {
                        t = k;
                    }
                }
            }
            if(m == ok || m == later || m == reject) {
                if(!res.has_value()
                   || (res->m_tx_status == sentinel::tx_status::confirmed)
                          != (m == ok)) {
                    return "the answer of the sentinel was changed";
                }
            }
            auto x = e.made(t, pay, true);
            if(!x.empty()) {
                return x;
            }
            if(m == ok) {
                e.confirm(tr::tx_id(t));
            }
            classify(t);
            return "";
        }

        std::set<hash_t> seen;

        std::string op(uint32_t o) {
            seen.clear();
            for(auto& [id, t] : w.l.known) {
                seen.insert(id);
            }
            auto self = addr;
            switch(o) {
                case 0:
                    return do_mint(ok);
                case 1:
                    return do_mint(reject);
                case 2:
                    return do_mint(ok_silent);
                case 3:
                    return do_send(1, stranger(), ok);
                case 4:
                    return do_send(1, stranger(), later);
                case 5:
                    return do_send(3, stranger(), reject);
                case 6:
                    return do_send(2, stranger(), ok_silent);
                case 7:
                    return do_send(1, stranger(), dead_silent);
                case 8:
                    return do_send(2, self, ok);
                case 9:
                    return do_send(2, self, later);
                case 10:
                case 11: {
                    auto m = o == 10 ? later : ok_silent;
                    auto to = o == 10 ? stranger() : self;
                    w.m = m;
                    auto can = e.balance() >= 2;
                    auto n = w.l.known.size();
                    auto [tx, res] = w.c->fan(2, 1, to);
                    if(!can) {
                        return tx.has_value() ? "fanned more than held" : "";
                    }
                    return sent(tx, res, {{comm(to), 1}, {comm(to), 1}}, m,
                                n);
                }
                case 12: {
                    if(w.created.has_value()) {
                        return "";
                    }
                    auto can = e.balance() >= 1;
                    auto t = w.c->create_transaction(1, stranger());
                    if(t.has_value() != can) {
                        return "create_transaction against the balance";
                    }
                    if(t.has_value()) {
                        w.created = t;
                        return e.made(t.value(), {{comm(stranger()), 1}},
                                      false);
                    }
                    return "";
                }
                case 13:
                case 14: {
                    if(!w.created.has_value()) {
                        return "";
                    }
                    auto t = w.created.value();
                    w.created.reset();
                    w.m = o == 13 ? later : reject;
                    auto r = w.c->send_transaction(t);
                    if(!r.has_value()) {
                        return "the answer of the sentinel was lost";
                    }
                    e.txs.emplace(tr::tx_id(t), t);
                    classify(t);
                    return "";
                }
                case 15: {
                    if(dead.empty()) {
                        return "";
                    }
                    auto id = tr::tx_id(dead.front());
                    dead.pop_front();
                    if(!w.c->abandon_transaction(id)) {
                        return "could not abandon a pending transaction";
                    }
                    e.abandon(id);
                    return w.c->abandon_transaction(id)
                             ? "abandoned a transaction twice"
                             : "";
                }
                case 16: {
                    for(auto& [id, t] : e.txs) {
                        if(w.l.has(id)) {
                            auto i = id;
                            if(!w.c->confirm_transaction(i)) {
                                return "could not confirm a pending "
                                       "transaction";
                            }
                            e.confirm(i);
                            return w.c->confirm_transaction(i)
                                     ? "confirmed a transaction twice"
                                     : "";
                        }
                    }
                    return "";
                }
                case 17:
                case 18: {
                    auto i = o - 17;
                    auto in = client::export_send_inputs(w.payment, addr0);
                    if(in.size() != 2) {
                        return "exported the wrong inputs";
                    }
                    auto k = k_of(in[i]);
                    if(w.credited[i]) {
                        return ""; // was ours before
                    }
                    w.c->import_send_input(in[i]);
                    w.imported[i] = true;
                    e.inputs.emplace(k, in[i]);
                    return "";
                }
                case 19:
                    w.l.apply(w.payment);
                    w.note();
                    return "";
                case 20:
                    if(!acc.empty()) {
                        w.l.apply(acc.front());
                        acc.pop_front();
                        w.note();
                    }
                    return "";
                case 21:
                case 22: {
                    w.shard_silent = o == 22;
                    auto r = w.c->sync();
                    auto any = !e.txs.empty() || !e.inputs.empty();
                    if(w.shard_silent) {
                        w.shard_silent = false;
                        return r && any ? "sync succeeded without answers"
                                        : "";
                    }
                    if(!r) {
                        return "sync failed";
                    }
                    std::vector<hash_t> c;
                    for(auto& [id, t] : w.l.state) {
                        if(t == st::applied) {
                            c.push_back(id);
                        }
                    }
                    for(auto& id : c) {
                        e.confirm(id);
                    }
                    return "";
                }
                case 23:
                    w.c.reset();
                    return w.open() ? "" : "could not start again";
                case 24: {
                    auto id = h::id(200);
                    if(w.c->confirm_transaction(id)
                       || w.c->abandon_transaction(id)) {
                        return "settled an unknown transaction";
                    }
                    return "";
                }
                case 25:
                    w.c->import_send_input(foreign);
                    return "";
                case 26:
                    addr = w.c->new_address();
                    e.ours.insert(comm(addr));
                    return "";
                case 27: {
                    // another transaction with the inputs of a pending one,
                    // as after changing and signing it again
                    if(!w.created.has_value()) {
                        return "";
                    }
                    auto t = w.created.value();
                    for(auto& x : t.m_outputs) {
                        if(x.m_witness_program_commitment
                           == comm(stranger())) {
                            x.m_witness_program_commitment = comm(addr0);
                        }
                    }
                    w.c->sign_transaction(t);
                    if(e.txs.count(tr::tx_id(t)) > 0
                       || tr::validation::check_tx(t).has_value()) {
                        return "a changed transaction could not be signed";
                    }
                    w.m = reject;
                    if(!w.c->send_transaction(t).has_value()) {
                        return "the answer of the sentinel was lost";
                    }
                    e.txs.emplace(tr::tx_id(t), t);
                    // Only one of the two may be abandoned before the other
                    // is settled, or their input is spent twice: send both.
                    w.m = reject;
                    auto u = w.created.value();
                    w.created.reset();
                    if(!w.c->send_transaction(u).has_value()) {
                        return "the answer of the sentinel was lost";
                    }
                    e.txs.emplace(tr::tx_id(u), u);
                    classify(t);
                    classify(u);
                    return "";
                }
            }
            return "";
        }
        pubkey_t addr0{};
        tr::input foreign{};

        std::string setup(const std::string& dir, bool coins) {
            w.dir = dir;
            recfs::remove_dir(dir);
            std::filesystem::create_directories(dir);
            if(!w.open()) {
                return "could not start";
            }
            addr0 = addr = w.c->new_address();
            e.ours.insert(comm(addr));
            tr::wallet payer;
            auto mt = payer.mint_new_coins(1, 5);
            payer.confirm_transaction(mt);
            w.l.apply(mt);
            auto p = payer.send_to(size_t{1}, size_t{2}, addr, true);
            w.payment = p.value();
            tr::wallet other;
            auto ot = other.mint_new_coins(1, 7);
            foreign = in_of(ot, 0);
            if(coins) {
                auto x = do_mint(ok);
                if(!x.empty()) {
                    return x;
                }
            }
            return "";
        }
    };

    std::string name_of(uint32_t o) {
        static const char* n[]{
            "mint", "mint rejected", "mint, answer lost", "send", "send",
            "send rejected", "send, answer lost", "send lost", "send to self",
            "send to self", "fan", "fan to self, answer lost", "create",
            "send created", "send created", "abandon", "confirm", "import",
            "import", "payment", "settlement", "sync", "sync unanswered",
            "restart", "unknown", "foreign input", "new address",
            "conflicting transactions"};
        return n[o];
    }

    void track(run& r) {
        // what has been credited to the wallet once
        auto id = tr::tx_id(r.w.payment);
        for(auto& [k, i] : r.e.wallet) {
            if(k.first == id && k.second < 2) {
                r.w.credited[k.second] = true;
            }
        }
        (void)id;
    }

    // Everything is settled; the client must then hold exactly what the
    // ledger says, and be able to spend it.
    std::string settle(client& c,
                       ledger l,
                       const std::set<hash_t>& ours,
                       const std::array<bool, 2>& imported,
                       const tr::full_tx& payment,
                       world& w) {
        for(auto& [id, s] : l.state) {
            if(s == st::accepted) {
                l.apply(l.known.at(id));
            }
        }
        if(imported[0] || imported[1]) {
            l.apply(payment);
        }
        auto keep = w.l;
        w.l = l;
        auto synced = c.sync();
        if(!synced) {
            w.l = keep;
            return "sync failed";
        }
        for(auto& [id, s] : l.state) {
            if(s == st::dead) {
                c.abandon_transaction(id);
            }
        }
        std::string x;
        uint64_t sum = 0;
        size_t n = 0;
        auto pid = tr::tx_id(payment);
        for(auto& [k, i] : l.unspent) {
            if(ours.count(i.m_prevout_data.m_witness_program_commitment) == 0
               || (k.first == pid && !imported[k.second])) {
                continue;
            }
            sum += i.m_prevout_data.m_value;
            n++;
        }
        if(c.pending_tx_count() != 0 || c.pending_input_count() != 0) {
            x = mc::strf("%zu transactions and %zu inputs are never settled",
                         c.pending_tx_count(),
                         c.pending_input_count());
        } else if(c.balance() != sum || c.utxo_count() != n) {
            x = mc::strf("the client has %llu in %zu outputs, by the ledger "
                         "%llu in %zu",
                         (unsigned long long)c.balance(),
                         c.utxo_count(),
                         (unsigned long long)sum,
                         n);
        } else if(sum > 0) {
            w.m = ok;
            auto [tx, res] = c.send(uint32_t(sum), stranger());
            if(!tx.has_value() || !res.has_value()) {
                x = "the client cannot send its whole balance";
            } else if(!w.l.error.empty()) {
                x = w.l.error;
            } else if(tr::validation::check_tx(tx.value()).has_value()) {
                x = "the client cannot sign for all it has";
            } else if(c.balance() != 0) {
                x = "the client has something left after sending all";
            }
        }
        w.l = keep;
        return x;
    }

    void histories(mc::ctx& c, int depth, bool coins) {
        faketcp::servers.clear();
        run r;
        auto dir = mc::scratch() + "/c";
        auto x = r.setup(dir, coins);
        if(!x.empty()) {
            c.fail("setup: " + x, "%s", x.c_str());
            return;
        }
        std::string trace;
        for(int d = 0; d < depth; d++) {
            auto o = c.choose(n_ops, "operation");
            trace += name_of(o) + ",";
            x = r.op(o);
            if(x.empty() && !r.w.l.error.empty()) {
                x = r.w.l.error;
            }
            if(x.empty()) {
                x = compare(*r.w.c, r.e);
            }
            if(!x.empty()) {
                c.fail(name_of(o) + ": " + x, "after %s %s", trace.c_str(),
                       x.c_str());
                return;
            }
            track(r);
            c.agreed();
            if(c.prefix() && d + 1 < depth) {
                continue; // done before
            }
            // what is on disk
            auto d2 = mc::scratch() + "/d";
            recfs::remove_dir(d2);
            std::filesystem::create_directories(d2);
            for(auto* f : {"/wallet.dat", "/client.dat"}) {
                if(std::filesystem::exists(dir + f)) {
                    std::filesystem::copy_file(dir + f, d2 + f);
                }
            }
            twophase_client n(options(), h::logger(), d2 + "/wallet.dat",
                              d2 + "/client.dat");
            if(!n.init()) {
                x = "could not be started from its files";
            } else {
                x = compare(n, r.e);
            }
            if(!x.empty()) {
                c.fail("on disk after " + name_of(o) + ": " + x,
                       "after %s the files differ: %s", trace.c_str(),
                       x.c_str());
                return;
            }
        }
        if(r.w.created.has_value()) {
            r.op(14);
        }
        auto bal = r.w.c->balance();
        x = settle(*r.w.c, r.w.l, r.e.ours, r.w.imported, r.w.payment, r.w);
        if(!x.empty()) {
            c.fail("in the end: " + x, "after %s and settling everything %s",
                   trace.c_str(), x.c_str());
            return;
        }
        c.outcome(mc::strf("%llu %zu %zu %zu", (unsigned long long)bal,
                           r.e.wallet.size(), r.e.txs.size(),
                           r.e.inputs.size()));
    }

    // The client stops at any point of an operation.
    void crash(mc::ctx& c, int depth) {
        faketcp::servers.clear();
        run r;
        auto dir = mc::scratch() + "/c";
        auto x = r.setup(dir, true);
        std::string trace;
        for(int d = 0; d < depth && x.empty(); d++) {
            auto o = c.choose(n_ops, "operation");
            trace += name_of(o) + ",";
            x = r.op(o);
            track(r);
        }
        if(r.w.created.has_value()) {
            r.op(14); // a created transaction belongs to the caller
        }
        auto o = c.choose(n_ops, "interrupted operation");
        if(o == 12 || o == 23 || o == 27) {
            return;
        }
        trace += name_of(o);
        if(!x.empty()) {
            c.fail("setup: " + x, "after %s %s", trace.c_str(), x.c_str());
            return;
        }
        auto imported = r.w.imported;
        auto pre = r.w.l;
        recfs::start(dir);
        r.w.recording = true;
        r.w.log.clear();
        x = r.op(o);
        r.w.recording = false;
        auto ops = recfs::stop();
        if(!x.empty()) {
            c.fail(name_of(o) + ": " + x, "after %s %s", trace.c_str(),
                   x.c_str());
            return;
        }
        auto fin = r.w.l;
        for(auto [n, torn] : recfs::points(ops)) {
            // the ledger as it was then; a request that was just being made
            // may have been answered or not
            std::vector<ledger> ls;
            ls.push_back(pre);
            for(auto& [at, l] : r.w.log) {
                if(at < n || (at == n && torn > 0)) {
                    ls.assign(1, l);
                } else if(at == n) {
                    ls.push_back(l);
                }
            }
            for(auto l : ls) {
                // transactions that were never sent are dead
                for(auto& [id, t] : fin.known) {
                    l.learn(t, st::dead);
                }
                auto d2 = mc::scratch() + "/d";
                recfs::remove_dir(d2);
                recfs::write_dir(d2, recfs::after(ops, n, torn));
                twophase_client k(options(), h::logger(), d2 + "/wallet.dat",
                                  d2 + "/client.dat");
                if(!k.init()) {
                    c.fail("crash: restart", "init failed");
                    return;
                }
                // an input whose import was interrupted: again
                auto im = imported;
                if(o == 17 || o == 18) {
                    auto in
                        = client::export_send_inputs(r.w.payment, r.addr0);
                    if(!r.w.credited[o - 17]) {
                        k.import_send_input(in[o - 17]);
                        im[o - 17] = true;
                    }
                }
                // an interrupted abandon may be called again: settle does
                auto y = settle(k, l, r.e.ours, im, r.w.payment, r.w);
                if(!y.empty()) {
                    c.fail("crash during " + name_of(o) + ": " + y,
                           "stopped during the last of %s, after %zu of %zu "
                           "file operations (%zu bytes): %s",
                           trace.c_str(), n, ops.size(), torn, y.c_str());
                    return;
                }
                c.count();
                c.agreed();
                c.outcome(mc::strf("%u %zu %zu", o, n, torn));
            }
        }
    }
}

int main(int argc, char** argv) {
    bool T = mc::thorough();
    std::vector<mc::scenario> s;
    int d = T ? 4 : 3;
    for(int coins = 0; coins < 2; coins++) {
        s.push_back({coins ? "histories, with coins" : "histories, empty",
                     [=](mc::ctx& c) { histories(c, d, coins == 1); }, 0, 8,
                     2,
                     mc::strf("every sequence of %d of %u operations and "
                              "answers, from %s", d, n_ops,
                              coins ? "two coins" : "an empty wallet")});
    }
    s.push_back({"stopped during an operation",
                 [=](mc::ctx& c) { crash(c, T ? 2 : 1); }, 0, 8, 2,
                 "every operation after every sequence of operations, every "
                 "file operation and torn write"});
    return mc::main(argc, argv, "C28", "model_checking",
                    "every operation history within the depth on the real "
                    "client with a simulated system; compared with a "
                    "reference after each operation, with a client started "
                    "from its files, and in the end with the ledger",
                    {"transactions are abandoned only when the system will "
                     "not settle them",
                     "process crashes, not power loss",
                     "created but unsent transactions are kept by the "
                     "caller"},
                    s);
}
#else // CONCURRENT
    struct quiet : sched::atomic_section {};

    void reset_fake() {
        faketcp::servers.clear();
        faketcp::refuse_send = nullptr;
        faketcp::deliver = nullptr;
        faketcp::carry = nullptr;
        faketcp::sync_waits = true;
        faketcp::join_servers = true;
        faketcp::join_clients = true;
        faketcp::guard = [](bool in) {
            if(in) {
                sched::hb_acquire(&faketcp::servers);
            } else {
                sched::hb_release(&faketcp::servers);
            }
        };
    }
    void wipe() {
        for(auto* f : {"/w", "/w.tmp", "/c", "/c.tmp"}) {
            std::error_code e;
            std::filesystem::remove(mc::scratch() + f, e);
        }
    }

    // The answer to a mint arrives at any time, also after the wait for it.
    void mint(mc::ctx& c) {
        sched::options o;
        std::string out;
        sched::run(c, o, [&]() {
            reset_fake();
            wipe();
            auto answer = sched::choose(3, "answer");
            auto when = sched::choose(3, "when"); // now, late, never
            std::mutex m;
            std::condition_variable cv;
            bool over = false;
            std::vector<std::thread> posted;
            using srv = rpc::async_tcp_server<coordinator::rpc::request,
                                              coordinator::rpc::response>;
            auto coord = std::make_unique<srv>(coordinator_ep);
            rpc::blocking_tcp_server<sentinel::request, sentinel::response>
                sent{sentinel_ep};
            using stat
                = rpc::blocking_tcp_server<locking_shard::rpc::status_request,
                                           locking_shard::rpc::status_response>;
            stat shard{shard_ep};
            coord->register_handler_callback(
                [&](const coordinator::rpc::request&,
                    std::function<void(std::optional<bool>)> cb) {
                    std::unique_lock<std::mutex> l(m);
                    posted.emplace_back([&, cb]() {
                        if(when == 2) {
                            return;
                        }
                        if(when == 1) {
                            std::this_thread::sleep_for(
                                std::chrono::seconds(7));
                        }
                        cb(answer == 2 ? std::nullopt
                                       : std::optional<bool>(answer == 1));
                    });
                    return true;
                });
            shard.register_handler_callback(
                [&](locking_shard::rpc::status_request)
                    -> std::optional<bool> {
                    return answer == 1;
                });
            if(!coord->init() || !shard.init()) {
                sched::fail("setup", "servers");
            }
            {
                twophase_client k(options(), h::logger(),
                                  mc::scratch() + "/w",
                                  mc::scratch() + "/c");
                if(!k.init()) {
                    sched::fail("setup", "client");
                }
                auto t0 = sched::now_ns();
                auto tx = k.mint(2, 3);
                auto took = sched::now_ns() - t0;
                auto b0 = k.balance();
                auto p0 = k.pending_tx_count();
                if((b0 != 0) != (p0 == 0) || (b0 != 0 && b0 != 6)) {
                    sched::fail("mint: half settled",
                                mc::strf("balance %llu, %zu pending",
                                         (unsigned long long)b0,
                                         p0));
                }
                if(b0 != 0 && answer != 1) {
                    sched::fail("mint: rejected but credited", "");
                }
                if(when == 0 && answer == 1 && b0 == 0
                   && took < 5000000000ULL) {
                    sched::fail("mint: confirmed but not credited", "");
                }
                // goes on being used while the answer may arrive
                for(int i = 0; i < 2; i++) {
                    if(!k.sync()) {
                        sched::fail("mint: sync", "failed");
                    }
                    std::this_thread::sleep_for(std::chrono::seconds(2));
                }
                if(k.balance() != (answer == 1 ? 6 : 0)
                   || k.pending_tx_count() != (answer == 1 ? 0 : 1)) {
                    sched::fail("mint: after sync",
                                mc::strf("balance %llu, %zu pending",
                                         (unsigned long long)k.balance(),
                                         k.pending_tx_count()));
                }
                out = mc::strf("%u %u %llu", answer, when,
                               (unsigned long long)b0);
            }
            std::vector<std::thread> ts;
            {
                std::unique_lock<std::mutex> l(m);
                ts.swap(posted);
            }
            for(auto& t : ts) {
                t.join();
            }
            (void)over;
        });
        if(!c.failed()) {
            c.agreed();
            c.outcome(out);
        }
    }

    // The atomizer client settles what the watchtower reports.
    void watch(mc::ctx& c, int down) {
        sched::options o;
        std::string out;
        sched::run(c, o, [&]() {
            reset_fake();
            simnet::reset({});
            wipe();
            rpc::blocking_tcp_server<sentinel::request, sentinel::response>
                sent{sentinel_ep};
            sent.register_handler_callback(
                [&](sentinel::request) -> std::optional<sentinel::response> {
                    sentinel::execute_response x;
                    x.m_tx_status = sentinel::tx_status::pending;
                    return sentinel::response{x};
                });
            if(!sent.init()) {
                sched::fail("setup", "sentinel");
            }
            using watchtower::search_status;
            std::map<hash_t, uint32_t> answers; // by transaction
            std::map<hash_t, std::vector<hash_t>> asked;
            bool stop_wt = false;
            network::connection_manager wt;
            auto serve = [&](network::message_t&& pkt)
                -> std::optional<buffer> {
                auto d = buffer_serializer(*pkt.m_pkt);
                auto req = watchtower::request(d);
                quiet q;
                return std::visit(
                    overloaded{
                        [&](const watchtower::status_update_request& r)
                            -> std::optional<buffer> {
                            watchtower::tx_id_states st;
                            for(auto& [id, u] : r.uhs_ids()) {
                                asked[id] = u;
                                std::vector<watchtower::status_update_state>
                                    v;
                                auto a = answers[id];
                                auto ins = size_t(a / 10);
                                for(size_t i = 0; i < u.size(); i++) {
                                    auto s = search_status::no_history;
                                    switch(a % 10) {
                                        case 0: // in a block
                                            s = i < ins
                                                  ? search_status::spent
                                                  : search_status::unspent;
                                            break;
                                        case 1:
                                            break;
                                        case 2:
                                            s = i == 0
                                                  ? search_status::
                                                      invalid_input
                                                  : search_status::
                                                      tx_rejected;
                                            break;
                                        case 3:
                                            s = search_status::
                                                internal_error;
                                            break;
                                        case 4: // outputs spent since
                                            if(i < ins) {
                                                s = search_status::spent;
                                            }
                                            break;
                                    }
                                    v.emplace_back(s, 5, u[i]);
                                }
                                st.emplace(id, v);
                            }
                            return make_buffer(watchtower::response{
                                watchtower::status_request_check_success{
                                    st}});
                        },
                        [&](const watchtower::best_block_height_request&)
                            -> std::optional<buffer> {
                            return make_buffer(watchtower::response{
                                watchtower::best_block_height_response{9}});
                        }},
                    req.payload());
            };
            std::optional<std::thread> wth;
            if(down != 1) {
                wth = wt.start_server(watchtower_ep, serve);
            }
            network::connection_manager at;
            std::vector<atomizer::tx_notify_request> notified;
            auto ath = at.start_server(
                atomizer_ep,
                [&](network::message_t&& pkt) -> std::optional<buffer> {
                    auto d = buffer_serializer(*pkt.m_pkt);
                    auto r = from_buffer<atomizer::request>(*pkt.m_pkt);
                    quiet q;
                    if(r.has_value()
                       && std::holds_alternative<
                           atomizer::tx_notify_request>(r.value())) {
                        notified.push_back(
                            std::get<atomizer::tx_notify_request>(
                                r.value()));
                    }
                    return std::nullopt;
                });
            if((down != 1 && !wth.has_value()) || !ath.has_value()) {
                sched::fail("setup", "network");
            }
            {
                atomizer_client k(options(), h::logger(),
                                  mc::scratch() + "/w",
                                  mc::scratch() + "/c");
                if(!k.init()) {
                    sched::fail("setup", "client");
                }
                auto pk = k.new_address();
                auto mt = k.mint(3, 2);
                if(down == 2) {
                    wt.close();
                    wth->join();
                    wth.reset();
                    stop_wt = true;
                }
                if(down != 0) {
                    // give the client time to see it
                    std::this_thread::sleep_for(
                        std::chrono::milliseconds(50));
                    if(k.sync()) {
                        sched::fail("no watchtower: sync succeeded", "");
                    }
                    auto m2 = k.mint(1, 1);
                    (void)m2;
                    if(k.pending_tx_count() != 2 || k.balance() != 0) {
                        sched::fail("no watchtower: settled", "");
                    }
                    out = "down";
                } else {
                    sched::until(
                        [&]() {
                            return notified.size() == 1;
                        },
                        "mint at the atomizer");
                    {
                        quiet q;
                        auto& n = notified[0];
                        if(n.m_tx.m_id != tr::tx_id(mt)
                           || n.m_tx.m_attestations.size() != 1
                           || n.m_block_height != 9) {
                            sched::fail("mint: wrong notification", "");
                        }
                        answers[n.m_tx.m_id] = 0;
                    }
                    if(!k.sync() || k.balance() != 6) {
                        sched::fail("mint: not settled",
                                    mc::strf("%llu",
                                             (unsigned long long)
                                                 k.balance()));
                    }
                    // two sends and two inputs of one payment
                    struct item {
                        hash_t id;
                        uint64_t gain;
                        size_t txs, ins, uhs;
                        uint32_t a;
                    };
                    std::vector<item> items;
                    for(int i = 0; i < 2; i++) {
                        auto [tx, r] = k.send(1, h::pub(77));
                        if(!tx.has_value()) {
                            sched::fail("setup", "send");
                        }
                        items.push_back({tr::tx_id(tx.value()), 1, 1, 0, 3,
                                         0});
                    }
                    tr::full_tx pay;
                    {
                        tr::wallet payer;
                        auto pm = payer.mint_new_coins(1, 5);
                        payer.confirm_transaction(pm);
                        pay = payer.send_to(size_t{1}, size_t{2}, pk, true)
                                  .value();
                    }
                    for(auto& i :
                        tr::wallet::export_send_inputs(pay, pk)) {
                        k.import_send_input(i);
                    }
                    items.push_back({tr::tx_id(pay), 5, 0, 2, 2, 0});
                    uint64_t bal = k.balance();
                    size_t txs = 2;
                    size_t ins = 2;
                    bool all = true;
                    for(auto& i : items) {
                        i.a = sched::choose(5, "status");
                        if(i.txs == 0 && i.a == 4) {
                            i.a = 0;
                        }
                        answers[i.id] = i.a + (i.txs > 0 ? 10U : 0U);
                        if(i.a == 0 || i.a == 4) {
                            bal += i.gain;
                            txs -= i.txs;
                            ins -= i.ins;
                        } else {
                            all = false;
                        }
                        out += char('0' + i.a);
                    }
                    asked.clear();
                    auto ok = k.sync();
                    if(ok != all) {
                        sched::fail("sync: result",
                                    "answers " + out
                                        + (ok ? " reported as settled"
                                              : " not reported as settled"));
                    }
                    if(k.balance() != bal || k.pending_tx_count() != txs
                       || k.pending_input_count() != ins) {
                        sched::fail(
                            "sync: settled the wrong transactions",
                            mc::strf("answers %s: balance %llu of %llu, "
                                     "pending %zu of %zu, inputs %zu of %zu",
                                     out.c_str(),
                                     (unsigned long long)k.balance(),
                                     (unsigned long long)bal,
                                     k.pending_tx_count(), txs,
                                     k.pending_input_count(), ins));
                    }
                    quiet q;
                    for(auto& i : items) {
                        if(asked[i.id].size() != i.uhs) {
                            sched::fail("sync: request",
                                        mc::strf("%zu of %zu UHS IDs",
                                                 asked[i.id].size(),
                                                 i.uhs));
                        }
                    }
                }
            }
            if(wth.has_value()) {
                wt.close();
                wth->join();
            }
            at.close();
            ath->join();
            (void)stop_wt;
        });
        if(!c.failed()) {
            c.agreed();
            c.outcome(out);
        }
    }
}

int main(int argc, char** argv) {
    bool T = mc::thorough();
    std::vector<mc::scenario> s;
    s.push_back({"mint answered at any time",
                 [](mc::ctx& c) { mint(c); }, T ? 2U : 1U, 8,
                 mc::by_deviation,
                 "confirmed, rejected or failed; at once, after the timeout "
                 "or never"});
    s.push_back({"watchtower answers",
                 [](mc::ctx& c) { watch(c, 0); }, T ? 1U : 0U, 8, 2,
                 "every status of 3 pending transactions"});
    s.push_back({"no watchtower at the start",
                 [](mc::ctx& c) { watch(c, 1); }, T ? 1U : 0U, 8,
                 mc::by_deviation, "requests without a connection"});
    s.push_back({"watchtower lost",
                 [](mc::ctx& c) { watch(c, 2); }, T ? 1U : 0U, 8,
                 mc::by_deviation, "requests after the connection is lost"});
    return mc::main(argc, argv, "C28", "model_checking",
                    "every schedule within the bound and every answer; "
                    "non-trivial = distinct results",
                    {"a request in flight when the connection to the "
                     "watchtower is lost is not covered (waits for ever)"},
                    s);
}
#endif
