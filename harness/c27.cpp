// C27: the wallet, against a reference holding the outputs it should hold.
#include <algorithm>
#include <array>
#include <cstring>
#include <deque>
#include <filesystem>
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

#include "harness/common.hpp"
#ifdef CONCURRENT
#include "mc/sched.hpp"
#include <thread>
#else
#include "mc/recfs.hpp"
#endif
#include "uhs/transaction/messages.hpp"
#include "uhs/transaction/validation.hpp"
#include "uhs/transaction/wallet.hpp"

namespace {
    using namespace cbdc;
    namespace tr = transaction;
    using key = std::pair<hash_t, uint64_t>;

    key k_of(const tr::input& i) {
        return {i.m_prevout.m_tx_id, i.m_prevout.m_index};
    }

    // What a wallet should hold.
    struct ref {
        std::map<key, tr::input> utxo;
        size_t from{}, to{};
        uint64_t seedval{};
        std::set<hash_t> ours; // commitments of its keys
        uint64_t balance() const {
            uint64_t b = (to - from) * seedval;
            for(auto& [k, i] : utxo) {
                b += i.m_prevout_data.m_value;
            }
            return b;
        }
        size_t count() const {
            return utxo.size() + (to - from);
        }
        void credit(const tr::input& i) {
            utxo.emplace(k_of(i), i);
        }
        void confirm(const tr::full_tx& tx) {
            auto id = tr::tx_id(tx);
            for(uint32_t o = 0; o < tx.m_outputs.size(); o++) {
                if(ours.count(tx.m_outputs[o].m_witness_program_commitment)
                   > 0) {
                    tr::input in;
                    in.m_prevout.m_tx_id = id;
                    in.m_prevout.m_index = o;
                    in.m_prevout_data = tx.m_outputs[o];
                    credit(in);
                }
            }
            for(auto& i : tx.m_inputs) {
                utxo.erase(k_of(i));
            }
        }
    };

    hash_t comm(const pubkey_t& p) {
        return tr::validation::get_p2pk_witness_commitment(p);
    }

    std::string stranger_name() {
        return "stranger";
    }
    pubkey_t stranger() {
        static auto p = h::pub(77);
        return p;
    }

    tr::input in_of(const tr::full_tx& tx, uint32_t o) {
        tr::input in;
        in.m_prevout.m_tx_id = tr::tx_id(tx);
        in.m_prevout.m_index = o;
        in.m_prevout_data = tx.m_outputs[o];
        return in;
    }

    // Is `tx` a proper transaction of wallet w (reference m) which takes
    // its inputs from what the wallet held and pays `pay` to `payee`?
    // Updates m. Returns an error text.
    std::string account(tr::wallet& w,
                        ref& m,
                        tr::full_tx tx,
                        const hash_t& payee,
                        const std::vector<uint64_t>& pay,
                        bool exact, // else: any values, all to payee
                        bool is_signed,
                        bool sequential = true) {
        std::set<key> seen;
        uint64_t in = 0;
        uint64_t out = 0;
        size_t seeds = 0;
        for(auto& i : tx.m_inputs) {
            if(!seen.insert(k_of(i)).second) {
                return "spends an output twice";
            }
            in += i.m_prevout_data.m_value;
            auto it = m.utxo.find(k_of(i));
            if(it != m.utxo.end()) {
                if(!(it->second == i)) {
                    return "changed the data of the output it spends";
                }
                m.utxo.erase(it);
                continue;
            }
            bool found = false;
            for(size_t s = m.from; s < m.to && !found; s++) {
                tr::full_tx st;
                st.m_inputs.resize(1);
                st.m_outputs.resize(1);
                st.m_inputs[0].m_prevout.m_tx_id = {0};
                st.m_inputs[0].m_prevout_data.m_value = m.seedval;
                st.m_inputs[0].m_prevout_data.m_witness_program_commitment
                    = {0};
                st.m_inputs[0].m_prevout.m_index = s;
                st.m_outputs[0].m_value = m.seedval;
                st.m_outputs[0].m_witness_program_commitment
                    = i.m_prevout_data.m_witness_program_commitment;
                found = m.ours.count(
                            i.m_prevout_data.m_witness_program_commitment)
                         > 0
                     && i == in_of(st, 0);
            }
            if(!found) {
                return "spends an output the wallet does not hold";
            }
            seeds++;
        }
        m.from += seeds;
        std::multiset<uint64_t> paid;
        for(uint32_t o = 0; o < tx.m_outputs.size(); o++) {
            auto& x = tx.m_outputs[o];
            out += x.m_value;
            if(x.m_value == 0) {
                return "has an output of nothing";
            }
            if(x.m_witness_program_commitment == payee) {
                paid.insert(x.m_value);
            } else {
                if(!exact) {
                    return "pays somebody else";
                }
                if(sequential
                   && m.ours.count(x.m_witness_program_commitment) > 0) {
                    // keys are not reused below 10000
                    return "reuses a key for the change";
                }
                if(!w.is_spendable(in_of(tx, o))) {
                    return "sends the change to a key that is not the "
                           "wallet's";
                }
                m.ours.insert(x.m_witness_program_commitment);
            }
        }
        if(in != out) {
            return mc::strf("inputs %llu, outputs %llu",
                            (unsigned long long)in,
                            (unsigned long long)out);
        }
        if(exact) {
            if(paid != std::multiset<uint64_t>(pay.begin(), pay.end())) {
                return "does not pay the amounts asked for";
            }
        } else if(paid.size() != pay.size()) {
            return "does not have the number of outputs asked for";
        }
        // what the recipient is told
        std::multiset<uint64_t> exported;
        auto pk = stranger();
        if(payee == comm(pk)) {
            for(auto& i : tr::wallet::export_send_inputs(tx, pk)) {
                if(!(i
                     == in_of(tx, uint32_t(i.m_prevout.m_index)))
                   || i.m_prevout_data.m_witness_program_commitment
                          != payee) {
                    return "exports an input that is not its output";
                }
                exported.insert(i.m_prevout_data.m_value);
            }
            if(exported != paid) {
                return "does not export all outputs of the payee";
            }
        }
        if(!is_signed) {
            w.sign(tx);
        }
        auto e = tr::validation::check_tx(tx);
        if(e.has_value()) {
            return "is invalid: " + tr::validation::to_string(e.value());
        }
        return "";
    }

#ifndef CONCURRENT
    extern "C" int clock_nanosleep(clockid_t,
                                   int,
                                   const timespec*,
                                   timespec*) {
        return 0;
    }

    struct world {
        std::array<std::unique_ptr<tr::wallet>, 2> w;
        std::array<ref, 2> m;
        struct slot {
            tr::full_tx tx;
            pubkey_t payee{};
            int from{-1};
        };
        std::deque<slot> txs; // most recent first
        std::array<pubkey_t, 2> addr{};
        void push(tr::full_tx t, const pubkey_t& p, int from) {
            txs.push_front({std::move(t), p, from});
            if(txs.size() > 3) {
                txs.pop_back();
            }
        }
    };

    std::string file(const char* n = "w") {
        return mc::scratch() + "/" + n;
    }

    void gone(const std::string& f) {
        std::error_code e;
        std::filesystem::remove(f, e);
        std::filesystem::remove(f + ".tmp", e);
    }

    // Everything the wallet would spend, taken out of it.
    bool same_outputs(mc::ctx& c,
                      tr::wallet& w,
                      ref m,
                      bool by_count,
                      const char* what) {
        if(w.balance() != m.balance() || w.count() != m.count()) {
            c.fail(std::string(what) + ": totals",
                   "balance %llu of %llu, count %zu of %zu",
                   (unsigned long long)w.balance(),
                   (unsigned long long)m.balance(),
                   w.count(),
                   m.count());
            return false;
        }
        auto n = m.count();
        if(n == 0) {
            return true;
        }
        std::optional<tr::full_tx> tx;
        if(by_count) {
            tx = w.send_to(n, size_t{1}, stranger(), true);
        } else if(m.balance() <= 0xffffffffULL) {
            tx = w.send_to(uint32_t(m.balance()), stranger(), true);
        } else {
            // more than one call can send
            return true;
        }
        if(!tx.has_value()) {
            c.fail(std::string(what) + ": cannot be spent",
                   "the wallet cannot send all it reports to hold");
            return false;
        }
        auto e = account(w, m, tx.value(), comm(stranger()),
                         {by_count ? 0 : w.balance()}, false, true);
        if(e.empty() && m.count() != 0) {
            e = "leaves outputs unspent";
        }
        if(!e.empty()) {
            c.fail(std::string(what) + ": " + e,
                   "spending everything the wallet holds: %s",
                   e.c_str());
            return false;
        }
        return true;
    }

    bool totals(mc::ctx& c, world& x, const char* what) {
        for(size_t i = 0; i < 2; i++) {
            if(x.w[i]->balance() != x.m[i].balance()
               || x.w[i]->count() != x.m[i].count()) {
                c.fail(std::string(what) + ": totals",
                       "wallet %zu: balance %llu, held %llu; count %zu, "
                       "held %zu",
                       i,
                       (unsigned long long)x.w[i]->balance(),
                       (unsigned long long)x.m[i].balance(),
                       x.w[i]->count(),
                       x.m[i].count());
                return false;
            }
        }
        return true;
    }

    tr::full_tx mint(world& x, int w, size_t n, uint32_t v) {
        auto t = x.w[size_t(w)]->mint_new_coins(n, v);
        for(auto& o : t.m_outputs) {
            x.m[size_t(w)].ours.insert(o.m_witness_program_commitment);
        }
        return t;
    }

    void histories(mc::ctx& c, int depth, bool seeded, uint32_t u, int start) {
        world x;
        for(size_t i = 0; i < 2; i++) {
            x.w[i] = std::make_unique<tr::wallet>();
        }
        if(seeded) {
            auto k = h::priv(9);
            if(!x.w[0]->seed(k, 2 * u, 5, 8)) {
                c.fail("seed refused", "a fresh wallet refused its seed");
                return;
            }
            x.m[0].from = 5;
            x.m[0].to = 8;
            x.m[0].seedval = 2 * uint64_t(u);
            x.m[0].ours.insert(comm(pubkey_from_privkey(k, h::secp())));
            if(x.w[0]->seed(h::priv(8), u, 1, 2)) {
                c.fail("seed twice", "a wallet with a key took a seed");
                return;
            }
        }
        for(size_t i = 0; i < 2; i++) {
            x.addr[i] = x.w[i]->generate_key();
            x.m[i].ours.insert(comm(x.addr[i]));
        }
        if(start > 0) {
            auto t = mint(x, 0, 1, 3 * u);
            x.w[0]->confirm_transaction(t);
            x.m[0].confirm(t);
            t = mint(x, 0, size_t(start), u);
            x.w[0]->confirm_transaction(t);
            x.m[0].confirm(t);
            t = mint(x, 1, 1, 2 * u);
            x.push(t, x.addr[1], -1);
        }
        std::string trace;
        for(int d = 0; d < depth; d++) {
            auto op = c.choose(27, "operation");
            const char* what = "";
            std::string err;
            auto sending = [&](std::optional<tr::full_tx> t, int w,
                               const pubkey_t& to, bool must, bool may,
                               const std::vector<uint64_t>& pay, bool exact,
                               bool is_signed) {
                trace += t.has_value() ? '+' : '-';
                if(t.has_value() ? !may : must) {
                    err = t.has_value()
                            ? "made although it should not be possible"
                            : "refused although the wallet holds enough";
                    return;
                }
                if(t.has_value()) {
                    err = account(*x.w[size_t(w)], x.m[size_t(w)], t.value(),
                                  comm(to), pay, exact, is_signed);
                    x.w[size_t(w)]->sign(t.value());
                    x.push(t.value(), to, w);
                }
            };
            auto send = [&](int w, uint32_t amount, const pubkey_t& to,
                            bool sgn) {
                what = "send";
                auto can = amount > 0
                        && amount <= x.m[size_t(w)].balance();
                auto own = comm(to) == comm(x.addr[size_t(w)]);
                auto t = x.w[size_t(w)]->send_to(amount, to, sgn);
                (void)own;
                sending(t, w, to, can, can, {amount}, true, sgn);
            };
            auto counts = [&](size_t in, size_t out, const pubkey_t& to,
                              bool sgn) {
                what = "send by count";
                std::vector<uint64_t> v(x.m[0].to - x.m[0].from,
                                        x.m[0].seedval);
                for(auto& [k, i] : x.m[0].utxo) {
                    v.push_back(i.m_prevout_data.m_value);
                }
                std::sort(v.begin(), v.end());
                uint64_t lo = 0;
                uint64_t hi = 0;
                for(size_t i = 0; i < in && i < v.size(); i++) {
                    lo += v[i];
                    hi += v[v.size() - 1 - i];
                }
                auto enough = v.size() >= in;
                auto t = x.w[0]->send_to(in, out, to, sgn);
                if(t.has_value() && t->m_inputs.size() != in) {
                    err = "does not have the number of inputs asked for";
                    return;
                }
                sending(t, 0, to, enough && lo >= out, enough && hi >= out,
                        std::vector<uint64_t>(out), false, sgn);
            };
            auto fan = [&](size_t n, uint32_t v, const pubkey_t& to) {
                what = "fan";
                auto a = uint64_t(n) * v;
                auto can = a > 0 && a <= x.m[0].balance();
                auto t = x.w[0]->fan(n, v, to, true);
                sending(t, 0, to, can, can, std::vector<uint64_t>(n, v),
                        true, true);
            };
            auto confirm = [&](size_t s, int w) {
                what = "confirm";
                if(s < x.txs.size()) {
                    x.w[size_t(w)]->confirm_transaction(x.txs[s].tx);
                    x.m[size_t(w)].confirm(x.txs[s].tx);
                }
            };
            switch(op) {
                case 0:
                    what = "mint";
                    x.push(mint(x, 0, 2, u), x.addr[0], -1);
                    break;
                case 1:
                    send(0, 0, x.addr[1], true);
                    break;
                case 2:
                    send(0, u, x.addr[1], true);
                    break;
                case 3:
                    send(0, 2 * u, x.addr[1], false);
                    break;
                case 4:
                    send(0, u < 4 ? 5 * u : 0xffffffffU, x.addr[1], true);
                    break;
                case 5:
                    send(0, u, x.addr[0], true);
                    break;
                case 6:
                    send(1, u, x.addr[0], true);
                    break;
                case 7:
                    counts(1, 1, x.addr[1], true);
                    break;
                case 8:
                    counts(2, 1, x.addr[1], false);
                    break;
                case 9:
                    counts(1, 2, x.addr[1], true);
                    break;
                case 10:
                    counts(3, 4, x.addr[0], true);
                    break;
                case 11:
                    fan(2, u, x.addr[1]);
                    break;
                case 12:
                    fan(2, 2 * u, stranger());
                    break;
                case 13:
                    fan(1, 0, x.addr[1]);
                    break;
                case 14:
                case 15:
                case 16:
                    confirm(op - 14, 0);
                    break;
                case 17:
                case 18:
                case 19:
                    confirm(op - 17, 1);
                    break;
                case 20:
                case 21: {
                    what = "receive";
                    if(op - 20 < x.txs.size()) {
                        auto& t = x.txs[op - 20];
                        auto in = tr::wallet::export_send_inputs(
                            t.tx, x.addr[1]);
                        std::multiset<key> want, got;
                        for(uint32_t o = 0; o < t.tx.m_outputs.size(); o++) {
                            if(t.tx.m_outputs[o].m_witness_program_commitment
                               == comm(x.addr[1])) {
                                want.insert(k_of(in_of(t.tx, o)));
                                x.m[1].credit(in_of(t.tx, o));
                            }
                        }
                        for(auto& i : in) {
                            got.insert(k_of(i));
                        }
                        if(want != got) {
                            err = "not all outputs of the payee exported";
                        }
                        x.w[1]->confirm_inputs(in);
                    }
                    break;
                }
                case 22:
                case 23:
                case 24: {
                    what = "abandon";
                    if(op - 22 < x.txs.size()
                       && x.txs[op - 22].from >= 0) {
                        auto& t = x.txs[op - 22];
                        x.w[size_t(t.from)]->confirm_inputs(t.tx.m_inputs);
                        for(auto& i : t.tx.m_inputs) {
                            x.m[size_t(t.from)].credit(i);
                        }
                    }
                    break;
                }
                case 25:
                    what = "new address";
                    x.addr[0] = x.w[0]->generate_key();
                    if(!x.m[0].ours.insert(comm(x.addr[0])).second) {
                        err = "repeats a key";
                    }
                    break;
                case 26: {
                    what = "save and load";
                    if(seeded) {
                        break; // seeds are configuration, not saved
                    }
                    auto f = file();
                    x.w[0]->save(f);
                    // into a wallet that held something else
                    auto n = std::make_unique<tr::wallet>();
                    auto t = n->mint_new_coins(1, 9);
                    n->confirm_transaction(t);
                    n->load(f);
                    gone(f);
                    x.w[0] = std::move(n);
                    break;
                }
            }
            trace += char('a' + op);
            if(!err.empty()) {
                c.fail(std::string(what) + ": " + err,
                       "operation %d (%s): %s",
                       d,
                       what,
                       err.c_str());
                return;
            }
            if(!totals(c, x, what)) {
                return;
            }
            c.agreed();
        }
        // the outputs themselves: the copy on disk, then the wallet
        if(!seeded) {
            auto f = file();
            x.w[0]->save(f);
            tr::wallet n;
            n.load(f);
            gone(f);
            if(!same_outputs(c, n, x.m[0], true, "saved copy")) {
                return;
            }
        }
        for(size_t i = 0; i < 2; i++) {
            if(!same_outputs(c, *x.w[i], x.m[i], (depth + int(i)) % 2 == 0,
                             "held outputs")) {
                return;
            }
        }
        c.outcome(mc::strf("%zu/%llu/%zu/%llu/%s", x.m[0].count(),
                           (unsigned long long)x.m[0].balance(),
                           x.m[1].count(),
                           (unsigned long long)x.m[1].balance(),
                           trace.c_str()));
    }

    struct saved {
        tr::wallet w;
        ref m;
        void mint(size_t n, uint32_t v) {
            auto t = w.mint_new_coins(n, v);
            for(auto& o : t.m_outputs) {
                m.ours.insert(o.m_witness_program_commitment);
            }
            w.confirm_transaction(t);
            m.confirm(t);
        }
    };

    // Loads in a child. 0: equals a, 1: equals b, 2: refused (exit), 3: wrong
    int load_as(const std::string& f, const ref& a, const ref& b) {
        auto p = fork();
        if(p == 0) {
            tr::wallet n;
            n.load(f);
            auto is = [&](const ref& r) {
                if(n.balance() != r.balance() || n.count() != r.count()) {
                    return false;
                }
                tr::wallet s;
                s.load(f);
                auto m = r;
                if(m.count() == 0) {
                    return true;
                }
                auto t = s.send_to(m.count(), size_t{1}, stranger(), true);
                return t.has_value()
                    && account(s, m, t.value(), comm(stranger()), {0}, false,
                               true)
                           .empty()
                    && m.count() == 0;
            };
            _exit(is(a) ? 40 : is(b) ? 41 : 43);
        }
        int st = 0;
        waitpid(p, &st, 0);
        if(!WIFEXITED(st)) {
            return 3;
        }
        switch(WEXITSTATUS(st)) {
            case 40:
                return 0;
            case 41:
                return 1;
            case EXIT_FAILURE:
                return 2;
            default:
                return 3;
        }
    }

    // A crash, or failing writes, at any point of replacing the wallet file.
    void interrupted(mc::ctx& c, bool failing) {
        saved a;
        auto first = c.choose(3, "saved before");
        auto d = mc::scratch() + "/w";
        recfs::remove_dir(d);
        std::filesystem::create_directories(d);
        auto f = d + "/wallet.dat";
        ref before;
        if(first > 0) {
            a.mint(first, 3);
            a.w.save(f);
            before = a.m;
        }
        a.mint(2, 2);
        auto t = a.w.send_to(4, stranger(), true);
        if(!t.has_value()) {
            if(first > 0 || true) {
                c.fail("setup", "send refused");
            }
            return;
        }
        account(a.w, a.m, t.value(), comm(stranger()), {4}, true, true);
        a.mint(3, 5);
        recfs::image img;
        if(failing) {
            auto k = c.choose(6, "first failing write");
            auto p = fork();
            if(p == 0) {
                recfs::start(d);
                recfs::fail_writes_from(long(k));
                a.w.save(f);
                recfs::fail_writes_from(-1);
                _exit(40);
            }
            int st = 0;
            waitpid(p, &st, 0);
            auto ok = WIFEXITED(st) && WEXITSTATUS(st) == 40;
            auto ex = WIFEXITED(st) && WEXITSTATUS(st) == EXIT_FAILURE;
            if(!ok && !ex) {
                c.fail("failed write: crash",
                       "saving with a full disk: status %d",
                       st);
                return;
            }
            auto r = std::filesystem::exists(f) ? load_as(f, before, a.m)
                                                : (first == 0 ? 0 : 3);
            if(ok ? r != 1 : r == 2 || r == 3) {
                c.fail("failed write: wallet lost",
                       "save %s with a full disk, the file then %s",
                       ok ? "succeeded" : "failed",
                       r == 0   ? "holds the old wallet"
                       : r == 2 ? "cannot be loaded"
                                : "holds something else");
                return;
            }
            c.agreed();
            c.outcome(mc::strf("%d %d %u %u", ok, r, k, first));
            recfs::remove_dir(d);
            return;
        }
        recfs::start(d);
        a.w.save(f);
        auto ops = recfs::stop();
        auto pts = recfs::points(ops);
        for(auto [n, torn] : pts) {
            auto i = recfs::after(ops, n, torn);
            auto rd = mc::scratch() + "/r";
            recfs::remove_dir(rd);
            recfs::write_dir(rd, i);
            auto g = rd + "/wallet.dat";
            auto r = std::filesystem::exists(g) ? load_as(g, before, a.m)
                                                : (first == 0 ? 0 : 3);
            recfs::remove_dir(rd);
            c.count();
            if(r > 1) {
                c.fail("crash while saving",
                       "after %zu of %zu operations (%zu bytes of the "
                       "next) the wallet file %s",
                       n,
                       ops.size(),
                       torn,
                       r == 2 ? "cannot be loaded"
                              : "holds neither the old nor the new wallet");
                return;
            }
            c.agreed();
            c.outcome(mc::strf("%u %zu %zu %d", first, n, torn, r));
        }
        recfs::remove_dir(d);
    }

    // Incomplete wallet files are not taken for wallets.
    void truncated(mc::ctx& c) {
        saved a;
        a.mint(1, 3);
        a.mint(2, 2);
        auto f = file("t");
        a.w.save(f);
        std::ifstream s(f, std::ios::binary);
        std::string all((std::istreambuf_iterator<char>(s)), {});
        gone(f);
        for(size_t n = 0; n <= all.size(); n += n < 10 ? 1 : 7) {
            auto k = std::min(n, all.size());
            {
                std::ofstream o(f, std::ios::binary);
                o.write(all.data(), std::streamsize(k));
            }
            auto r = load_as(f, a.m, a.m);
            if(k < all.size() ? r != 2 : r != 0) {
                c.fail("incomplete file",
                       "%zu of %zu bytes of a wallet file: %s",
                       k,
                       all.size(),
                       r == 2 ? "refused" : "loaded");
                return;
            }
            c.count();
            c.agreed();
            c.outcome(mc::strf("%zu %d", k, r));
        }
        if(load_as(f, a.m, a.m) == 0 || true) {
            std::ofstream o(f, std::ios::binary);
            o.write(all.data(), std::streamsize(all.size()));
        }
        if(load_as(f, a.m, a.m) != 0) {
            c.fail("whole file", "the whole wallet file is not loaded");
        }
        gone(f);
    }
#else
    // Two threads using one wallet.
    void conc(mc::ctx& c, int what) {
        sched::options o;
        std::string out;
        static std::string big;
        if(what >= 3 && big.empty()) {
            // a wallet file with more keys than are ever generated afresh
            big = mc::scratch() + "/big";
            std::ofstream s(big, std::ios::binary);
            auto put = [&](const void* p, size_t n) {
                s.write(static_cast<const char*>(p), std::streamsize(n));
            };
            uint64_t n = 10001;
            put(&n, 8);
            for(uint64_t i = 0; i < n; i++) {
                pubkey_t k{};
                k[0] = 9;
                std::memcpy(&k[8], &i, 8);
                put(k.data(), k.size());
                put(k.data(), k.size());
            }
            n = 0;
            put(&n, 8);
        }
        sched::run(c, o, [&]() {
            tr::wallet w;
            ref m;
            std::array<std::optional<tr::full_tx>, 2> t;
            std::array<pubkey_t, 2> k{};
            if(what >= 3) {
                sched::atomic_section as;
                w.load(big);
            } else {
                sched::atomic_section as;
                auto mt = w.mint_new_coins(2, 2);
                for(auto& x : mt.m_outputs) {
                    m.ours.insert(x.m_witness_program_commitment);
                }
                w.confirm_transaction(mt);
                m.confirm(mt);
            }
            auto f = mc::scratch() + "/s";
            auto th = [&](size_t i) {
                if(what == 0 || (what == 1 && i == 0)) {
                    t[i] = w.send_to(i == 0 ? 1 : 2, stranger(), true);
                } else if(what == 1) {
                    t[i] = w.send_to(size_t{1}, size_t{1}, stranger(), true);
                } else if(what == 2) {
                    if(i == 0) {
                        w.save(f);
                    } else {
                        auto mt = w.mint_new_coins(1, 5);
                        w.confirm_transaction(mt);
                    }
                } else {
                    k[i] = w.generate_key();
                }
            };
            std::thread a(th, 0);
            std::thread b(th, 1);
            auto bal = w.balance();
            auto cnt = w.count();
            a.join();
            b.join();
            sched::atomic_section as;
            if(what < 2) {
                if(bal > 4 || cnt > 2) {
                    sched::fail("balance",
                                mc::strf("balance %llu count %zu",
                                         (unsigned long long)bal,
                                         cnt));
                }
                for(size_t i = 0; i < 2; i++) {
                    if(!t[i].has_value()) {
                        sched::fail("concurrent send refused",
                                    "the wallet holds enough for both");
                    }
                    auto n = what == 0 && i == 0 ? 1U : 2U;
                    auto e = account(w, m, t[i].value(), comm(stranger()),
                                     {what == 1 && i == 0 ? 1U : n},
                                     !(what == 1 && i == 1), true, false);
                    if(!e.empty()) {
                        sched::fail("concurrent send: " + e, e);
                    }
                }
                if(w.balance() != m.balance() || w.count() != m.count()) {
                    sched::fail("concurrent send: totals", "differ");
                }
            } else if(what == 2) {
                tr::wallet n;
                n.load(f);
                if(n.balance() != 4 && n.balance() != 9) {
                    sched::fail("concurrent save: balance",
                                mc::strf("%llu",
                                         (unsigned long long)n.balance()));
                }
                auto tx = n.send_to(n.count(), size_t{1}, stranger(), true);
                if(!tx.has_value()
                   || tr::validation::check_tx(tx.value()).has_value()) {
                    sched::fail("concurrent save: key missing",
                                "an output was saved without its key");
                }
                out = mc::strf("%llu/%zu", (unsigned long long)n.balance(), n.count()); if(getenv("DBG")) fprintf(stderr,"%s\n",out.c_str());
                return;
            } else {
                for(auto& x : k) {
                    if(x[0] != 9) {
                        sched::fail("key", "not one of the wallet's keys");
                    }
                }
            }
            out = mc::strf("%llu %zu", (unsigned long long)bal, cnt);
        });
        if(!c.failed()) {
            c.agreed();
            c.outcome(out);
        }
    }
#endif
}

int main(int argc, char** argv) {
    bool T = mc::thorough();
    std::vector<mc::scenario> s;
#ifdef CONCURRENT
    (void)k_of;
    const char* names[]{"two sends", "send and send by count",
                        "save and mint", "key reuse"};
    for(int i = 0; i < 4; i++) {
        s.push_back({names[i],
                     [=](mc::ctx& c) { conc(c, i); },
                     i == 3 ? 1U : (T ? 3U : 2U),
                     8,
                     mc::by_deviation,
                     "2 threads on one wallet and a reader of its totals"});
    }
#else
    int d = T ? 4 : 3;
    for(int seeded = 0; seeded < 2; seeded++) {
        for(uint32_t u : {1U, 0x50000000U}) {
            for(int st = 0; st <= 2; st++) {
                if(seeded == 1 && st == 2) {
                    continue;
                }
                s.push_back(
                    {mc::strf("histories, %s, unit %u, start %d",
                              seeded ? "seeded" : "unseeded", u, st),
                     [=](mc::ctx& c) {
                         histories(c, d + (st == 2 && u == 1 ? 0 : 0),
                                   seeded == 1, u, st);
                     },
                     0, 8, 2,
                     mc::strf("every sequence of %d of 27 operations on two "
                              "wallets", d)});
            }
        }
    }
    s.push_back({"crash while saving",
                 [](mc::ctx& c) { interrupted(c, false); }, 0, 1, 2,
                 "every file operation and torn write, 3 previous contents"});
    s.push_back({"failing writes while saving",
                 [](mc::ctx& c) { interrupted(c, true); }, 0, 1, 2,
                 "disk full from each write on, 3 previous contents"});
    s.push_back({"incomplete wallet file",
                 [](mc::ctx& c) { truncated(c); }, 0, 1, 2,
                 "prefixes of a wallet file"});
#endif
    return mc::main(argc, argv, "C27", "model_checking",
                    "every operation history within the depth on the real "
                    "wallet, compared after each operation with a reference "
                    "set of outputs; non-trivial = distinct histories of "
                    "results",
                    {"preconditions of send_to(counts) hold",
                     "seeds are configuration and not saved",
                     "process crashes, not power loss"},
                    s);
}
