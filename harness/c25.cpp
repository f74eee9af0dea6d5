// C25: transaction validation against a reference written from its statement.
#include <algorithm>
#include <array>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <variant>
#include <vector>

#include "harness/common.hpp"
#include "uhs/transaction/messages.hpp"
#include "uhs/transaction/validation.hpp"
#include "util/serialization/format.hpp"
#include "util/serialization/util.hpp"

namespace {
    using namespace cbdc;
    namespace tr = transaction;
    namespace va = transaction::validation;
    using bytes = std::vector<std::byte>;

    // ---- SHA-256, independent of the repository's ----------------------
    struct sha {
        static uint32_t rr(uint32_t x, int n) {
            return x >> n | x << (32 - n);
        }
        static hash_t of(const unsigned char* p, size_t n) {
            static const auto k = [] {
                // the first 32 bits of the fractional parts of the cube
                // roots of the first 64 primes
                std::array<uint32_t, 64> r{};
                int i = 0;
                for(unsigned c = 2; i < 64; c++) {
                    bool prime = true;
                    for(unsigned d = 2; d * d <= c; d++) {
                        prime = prime && c % d != 0;
                    }
                    if(prime) {
                        // floor(cbrt(c) * 2^32) by integer search
                        unsigned __int128 lo = 0, hi = (unsigned __int128)8
                                                    << 32;
                        while(hi - lo > 1) {
                            auto m = (lo + hi) / 2;
                            // m^3 <= c * 2^96 ?  (m < 2^35: m^3 < 2^105)
                            if(m * m * m <= ((unsigned __int128)c << 96)) {
                                lo = m;
                            } else {
                                hi = m;
                            }
                        }
                        r[size_t(i++)] = uint32_t(lo);
                    }
                }
                return r;
            }();
            uint32_t s[8]{0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a,
                          0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
            std::string m(reinterpret_cast<const char*>(p), n);
            m += char(0x80);
            while(m.size() % 64 != 56) {
                m += char(0);
            }
            for(int i = 7; i >= 0; i--) {
                m += char((n * 8) >> (8 * i));
            }
            for(size_t b = 0; b < m.size(); b += 64) {
                uint32_t w[64], v[8];
                for(size_t i = 0; i < 16; i++) {
                    w[i] = 0;
                    for(size_t j = 0; j < 4; j++) {
                        w[i] = w[i] << 8 | (unsigned char)m[b + 4 * i + j];
                    }
                }
                for(size_t i = 16; i < 64; i++) {
                    auto a = w[i - 15], c = w[i - 2];
                    w[i] = w[i - 16] + w[i - 7]
                         + (rr(a, 7) ^ rr(a, 18) ^ a >> 3)
                         + (rr(c, 17) ^ rr(c, 19) ^ c >> 10);
                }
                memcpy(v, s, sizeof v);
                for(size_t i = 0; i < 64; i++) {
                    auto t = v[7] + (rr(v[4], 6) ^ rr(v[4], 11) ^ rr(v[4], 25))
                           + ((v[4] & v[5]) ^ (~v[4] & v[6])) + k[i] + w[i];
                    auto u = (rr(v[0], 2) ^ rr(v[0], 13) ^ rr(v[0], 22))
                           + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
                    for(int j = 7; j > 0; j--) {
                        v[j] = v[j - 1];
                    }
                    v[4] += t;
                    v[0] = t + u;
                }
                for(int j = 0; j < 8; j++) {
                    s[j] += v[j];
                }
            }
            hash_t r{};
            for(size_t i = 0; i < 32; i++) {
                r[i] = (unsigned char)(s[i / 4] >> (24 - 8 * (i % 4)));
            }
            return r;
        }
        static hash_t of(const bytes& b, size_t n) {
            return of(reinterpret_cast<const unsigned char*>(b.data()), n);
        }
    };

    // ---- signatures: who signed what -------------------------------------
    // A signature is valid exactly for the key that made it and the inputs
    // and outputs it was made for; nothing else is.
    struct signed_tx {
        pubkey_t pub;
        std::vector<tr::input> in;
        std::vector<tr::output> out;
    };
    std::map<std::string, signed_tx> g_signed;
    std::string key_of(const signature_t& s) {
        return {reinterpret_cast<const char*>(s.data()), s.size()};
    }
    const pubkey_t& pub(uint8_t n) {
        static std::map<uint8_t, pubkey_t> m;
        auto it = m.find(n);
        if(it == m.end()) {
            it = m.emplace(n, h::pub(n)).first;
        }
        return it->second;
    }
    signature_t sign(const tr::full_tx& t, uint8_t k) {
        static std::map<uint8_t, secp256k1_keypair> kps;
        auto it = kps.find(k);
        if(it == kps.end()) {
            secp256k1_keypair kp{};
            if(secp256k1_keypair_create(h::secp(), &kp, h::priv(k).data())
               != 1) {
                abort();
            }
            it = kps.emplace(k, kp).first;
        }
        signature_t s{};
        auto id = tr::tx_id(t);
        if(secp256k1_schnorrsig_sign(h::secp(), s.data(), id.data(),
                                     &it->second, nullptr, nullptr)
           != 1) {
            abort();
        }
        g_signed[key_of(s)] = {pub(k), t.m_inputs, t.m_outputs};
        return s;
    }
    bytes witness(const pubkey_t& p, const signature_t& s, uint8_t type = 0) {
        bytes w{std::byte(type)};
        for(auto b : p) {
            w.push_back(std::byte(b));
        }
        for(auto b : s) {
            w.push_back(std::byte(b));
        }
        return w;
    }
    hash_t commitment(const pubkey_t& p, uint8_t type = 0) {
        auto w = witness(p, {}, type);
        return sha::of(w, 33);
    }

    // ---- the statement ----------------------------------------------------
    struct verdict {
        bool dup{}, zero_in{}, zero_out{}, over{}, uneven{}, wit{};
        bool ok{};
    };
    bool good_witness(const tr::full_tx& t, size_t i) {
        const auto& w = t.m_witness[i];
        if(w.size() != 97 || w[0] != std::byte(0)
           || sha::of(w, 33)
                  != t.m_inputs[i].m_prevout_data.m_witness_program_commitment) {
            return false;
        }
        signature_t s{};
        memcpy(s.data(), w.data() + 33, 64);
        auto it = g_signed.find(key_of(s));
        return it != g_signed.end()
            && memcmp(it->second.pub.data(), w.data() + 1, 32) == 0
            && it->second.in == t.m_inputs && it->second.out == t.m_outputs;
    }
    verdict judge(const tr::full_tx& t) {
        verdict v;
        unsigned __int128 in = 0, out = 0;
        for(size_t i = 0; i < t.m_inputs.size(); i++) {
            auto& p = t.m_inputs[i];
            in += p.m_prevout_data.m_value;
            v.zero_in = v.zero_in || p.m_prevout_data.m_value == 0;
            for(size_t j = 0; j < i; j++) {
                auto& q = t.m_inputs[j];
                v.dup = v.dup
                     || (q.m_prevout.m_tx_id == p.m_prevout.m_tx_id
                         && q.m_prevout.m_index == p.m_prevout.m_index);
            }
        }
        for(auto& o : t.m_outputs) {
            out += o.m_value;
            v.zero_out = v.zero_out || o.m_value == 0;
        }
        auto max = (unsigned __int128)UINT64_MAX;
        v.over = in > max || out > max;
        v.uneven = in != out;
        v.wit = t.m_witness.size() != t.m_inputs.size();
        v.ok = !t.m_inputs.empty() && !t.m_outputs.empty() && !v.wit && !v.dup
            && !v.zero_in && !v.zero_out && !v.over && !v.uneven;
        for(size_t i = 0; v.ok && i < t.m_inputs.size(); i++) {
            v.ok = good_witness(t, i);
        }
        return v;
    }
    std::string show(const tr::full_tx& t) {
        std::string s;
        for(auto& i : t.m_inputs) {
            s += mc::strf(" in %02x.%llu=%llu", i.m_prevout.m_tx_id[0],
                          (unsigned long long)i.m_prevout.m_index,
                          (unsigned long long)i.m_prevout_data.m_value);
        }
        for(auto& o : t.m_outputs) {
            s += mc::strf(" out %llu", (unsigned long long)o.m_value);
        }
        for(auto& w : t.m_witness) {
            s += mc::strf(" wit %zu", w.size());
        }
        return s;
    }
    // The error must be true of the transaction.
    bool truthful(const tr::full_tx& t, const verdict& v,
                  const va::tx_error& e) {
        if(auto* c = std::get_if<va::tx_error_code>(&e)) {
            switch(*c) {
                case va::tx_error_code::no_inputs:
                    return t.m_inputs.empty();
                case va::tx_error_code::no_outputs:
                    return t.m_outputs.empty();
                case va::tx_error_code::missing_witness:
                    return v.wit;
                case va::tx_error_code::asymmetric_values:
                    return v.uneven;
                case va::tx_error_code::value_overflow:
                    // (a zero value is an overflow of the comparison used)
                    return v.over || v.zero_in || v.zero_out;
            }
            return false;
        }
        if(auto* i = std::get_if<va::input_error>(&e)) {
            if(i->m_idx >= t.m_inputs.size()) {
                return false;
            }
            if(i->m_code == va::input_error_code::duplicate) {
                return v.dup;
            }
            return t.m_inputs[i->m_idx].m_prevout_data.m_value == 0;
        }
        if(auto* o = std::get_if<va::output_error>(&e)) {
            return o->m_idx < t.m_outputs.size()
                && t.m_outputs[o->m_idx].m_value == 0;
        }
        auto& w = std::get<va::witness_error>(e);
        if(w.m_idx >= t.m_witness.size() || w.m_idx >= t.m_inputs.size()) {
            return false;
        }
        auto& b = t.m_witness[w.m_idx];
        switch(w.m_code) {
            case va::witness_error_code::missing_witness_program_type:
                return b.empty();
            case va::witness_error_code::unknown_witness_program_type:
                return !b.empty() && b[0] != std::byte(0);
            case va::witness_error_code::malformed:
                return b.size() != 97;
            case va::witness_error_code::program_mismatch:
                return b.size() != 97
                    || sha::of(b, 33)
                           != t.m_inputs[w.m_idx]
                                  .m_prevout_data.m_witness_program_commitment;
            case va::witness_error_code::invalid_public_key: {
                secp256k1_xonly_pubkey p{};
                return b.size() < 33
                    || secp256k1_xonly_pubkey_parse(
                           h::secp(), &p,
                           reinterpret_cast<const unsigned char*>(b.data()) + 1)
                           != 1;
            }
            case va::witness_error_code::invalid_signature:
                return !good_witness(t, w.m_idx);
        }
        return false;
    }
    bool check(mc::ctx& c, const tr::full_tx& t, const char* what) {
        auto v = judge(t);
        auto e = va::check_tx(t);
        c.agreed();
        if(e.has_value() == v.ok) {
            c.fail(v.ok ? "refused" : "accepted", "%s:%s%s%s", what,
                   show(t).c_str(), e ? " error " : "",
                   e ? va::to_string(*e).c_str() : "");
            return false;
        }
        if(e && !truthful(t, v, *e)) {
            c.fail("wrong-reason", "%s:%s is refused as %s", what,
                   show(t).c_str(), va::to_string(*e).c_str());
            return false;
        }
        return true;
    }

    tr::out_point point(uint32_t n) {
        // two outputs of one transaction, and others
        static const std::pair<uint8_t, uint64_t> p[]{
            {1, 0}, {1, 1}, {2, 0}, {2, 1}};
        return {h::id(p[n].first), p[n].second};
    }
    const std::vector<uint64_t>& values() {
        static const std::vector<uint64_t> q{0, 1, 2, 1ULL << 63, UINT64_MAX};
        static const std::vector<uint64_t> th{
            0, 1, 2, (1ULL << 63) - 1, 1ULL << 63, UINT64_MAX - 1, UINT64_MAX};
        return mc::thorough() ? th : q;
    }
    void sign_all(tr::full_tx& t, const std::vector<uint8_t>& keys) {
        t.m_witness.clear();
        std::map<uint8_t, signature_t> s;
        for(auto k : keys) {
            if(s.find(k) == s.end()) {
                s[k] = sign(t, k);
            }
            t.m_witness.push_back(witness(pub(k), s[k]));
        }
    }
    tr::full_tx make(const std::vector<std::pair<uint32_t, uint64_t>>& in,
                     const std::vector<uint64_t>& out,
                     const std::vector<uint8_t>& keys) {
        g_signed.clear();
        tr::full_tx t;
        for(size_t i = 0; i < in.size(); i++) {
            tr::input p;
            p.m_prevout = point(in[i].first);
            p.m_prevout_data
                = tr::output(commitment(pub(keys[i])), in[i].second);
            t.m_inputs.push_back(p);
        }
        for(size_t i = 0; i < out.size(); i++) {
            t.m_outputs.emplace_back(commitment(pub(uint8_t(20 + i))), out[i]);
        }
        sign_all(t, keys);
        return t;
    }

    // Counts, duplicates and values, correctly signed.
    void shapes(mc::ctx& c) {
        auto& V = values();
        auto nv = uint32_t(V.size());
        std::vector<std::pair<uint32_t, uint64_t>> in;
        auto n = c.choose(4);
        for(uint32_t i = 0; i < n; i++) {
            auto p = c.choose(std::min(i + 1, 3U));
            in.emplace_back(p, V[c.choose(nv)]);
        }
        std::vector<uint8_t> keys;
        for(uint32_t i = 0; i < n; i++) {
            keys.push_back(uint8_t(1 + i % 2));
        }
        uint64_t total = 0;
        std::vector<std::vector<uint64_t>> outs{{}};
        for(size_t at = 0; at < outs.size(); at++) {
            if(outs[at].size() < 3) {
                for(auto v : V) {
                    auto o = outs[at];
                    o.push_back(v);
                    outs.push_back(o);
                }
            }
        }
        for(auto& [p, v] : in) {
            total += v;
        }
        outs.push_back({total}); // also when it wraps around
        outs.push_back({total - 1, 1});
        for(auto& out : outs) {
            auto t = make(in, out, keys);
            if(!check(c, t, "signed")) {
                return;
            }
            if(out.size() == 1 && n <= 2) {
                // a witness more or less
                auto u = t;
                u.m_witness.push_back(u.m_witness.empty() ? bytes(97)
                                                          : u.m_witness[0]);
                if(!check(c, u, "a witness too many")) {
                    return;
                }
                u = t;
                if(n > 0) {
                    u.m_witness.pop_back();
                    if(!check(c, u, "a witness too few")) {
                        return;
                    }
                }
            }
        }
        c.outcome(mc::strf("%u", n));
    }

    // Values with carries: sums around 2^64 on both sides.
    void sums(mc::ctx& c) {
        auto n = 1 + c.choose(4);
        uint64_t first = std::vector<uint64_t>{
            1, 1ULL << 32, (1ULL << 63) - 1, 1ULL << 63, UINT64_MAX - 3,
            UINT64_MAX - 1, UINT64_MAX}[c.choose(7)];
        std::vector<std::pair<uint32_t, uint64_t>> in{{0, first}};
        std::vector<uint8_t> keys{1};
        for(uint32_t i = 1; i < n; i++) {
            in.emplace_back(i, std::vector<uint64_t>{
                                   1, 2, 1ULL << 63, UINT64_MAX}[c.choose(4)]);
            keys.push_back(1);
        }
        uint64_t total = 0;
        for(auto& [p, v] : in) {
            total += v;
        }
        for(uint64_t a : {total, total - 1, total + 1, total / 2, first}) {
            for(uint64_t b : {uint64_t(0), total - a, total - a + 1,
                              UINT64_MAX, uint64_t(1)}) {
                for(uint64_t d : {uint64_t(0), total - a - b, uint64_t(1),
                                  UINT64_MAX - total}) {
                    std::vector<uint64_t> out{a};
                    if(b != 0) {
                        out.push_back(b);
                    }
                    if(d != 0) {
                        out.push_back(d);
                    }
                    if(!check(c, make(in, out, keys), "sums")) {
                        return;
                    }
                }
            }
        }
        c.outcome(mc::strf("%u", n));
    }

    const std::vector<uint8_t> K2{1, 2};
    tr::full_tx base() {
        return make({{0, 5}, {1, 7}}, {4, 8}, K2);
    }
    bytes bad_witness(const tr::full_tx& t, size_t i, uint32_t kind) {
        auto& w = t.m_witness[i];
        auto other = uint8_t(2 - i), mine = uint8_t(1 + i);
        auto b = w;
        switch(kind) {
            case 0:
                return w;
            case 1:
                return {};
            case 2:
                b.pop_back();
                return b;
            case 3:
                b.push_back(std::byte(0));
                return b;
            case 4:
                b.resize(33);
                return b;
            case 5:
                b.resize(1);
                return b;
            case 6:
                b[0] = std::byte(1);
                return b;
            case 7:
                b[0] = std::byte(255);
                return b;
            case 8: // another owner, correctly signed by them
                return witness(pub(other), sign(t, other));
            case 9: // signed by somebody else
                return witness(pub(mine), sign(t, other));
            case 10: { // signed for another payee
                auto u = t;
                u.m_outputs[0].m_witness_program_commitment[3] ^= 1;
                return witness(pub(mine), sign(u, mine));
            }
            case 11: { // signed for another amount
                auto u = t;
                u.m_outputs[1].m_value++;
                return witness(pub(mine), sign(u, mine));
            }
            case 12: { // signed for another input
                auto u = t;
                u.m_inputs[i].m_prevout.m_index += 5;
                return witness(pub(mine), sign(u, mine));
            }
            case 13:
                return witness(pub(mine), {});
            case 14: {
                signature_t s{};
                s.fill(255);
                return witness(pub(mine), s);
            }
            case 15:
                return t.m_witness[1 - i];
            case 16: { // signed with the outputs exchanged
                auto u = t;
                std::swap(u.m_outputs[0], u.m_outputs[1]);
                return witness(pub(mine), sign(u, mine));
            }
            case 17: { // signed for one input only
                auto u = t;
                u.m_inputs.erase(u.m_inputs.begin() + (1 - long(i)));
                return witness(pub(mine), sign(u, mine));
            }
            default: { // signed without the last output
                auto u = t;
                u.m_outputs.pop_back();
                return witness(pub(mine), sign(u, mine));
            }
        }
    }
    void witnesses(mc::ctx& c) {
        auto t = base();
        auto a = c.choose(19), b = c.choose(19);
        auto u = t;
        u.m_witness[0] = bad_witness(t, 0, a);
        u.m_witness[1] = bad_witness(t, 1, b);
        check(c, u, mc::strf("witnesses %u %u", a, b).c_str());
        // with one more witness or input
        auto w = u;
        w.m_witness.push_back(t.m_witness[0]);
        check(c, w, "one more witness");
        w = u;
        w.m_witness.pop_back();
        check(c, w, "one witness less");
        std::swap(u.m_witness[0], u.m_witness[1]);
        check(c, u, "witnesses exchanged");
        c.outcome(mc::strf("%d", a == 0 && b == 0));
    }
    // A valid transaction with one bit changed anywhere.
    void bits(mc::ctx& c) {
        auto t = base();
        if(!judge(t).ok || !check(c, t, "unchanged")) {
            return c.fail("harness", "base");
        }
        auto bit = 1U << c.choose(8);
        auto where = c.choose(3);
        auto flip = [&](auto& b) {
            using T = std::decay_t<decltype(b)>;
            b = T(uint8_t(b) ^ bit);
        };
        if(where == 0) {
            for(size_t i = 0; i < 2; i++) {
                for(size_t at = 0; at < 97; at++) {
                    auto u = t;
                    flip(u.m_witness[i][at]);
                    if(!check(c, u, mc::strf("witness %zu byte %zu bit %x", i,
                                             at, bit)
                                        .c_str())) {
                        return;
                    }
                }
            }
        } else {
            for(size_t i = 0; i < 2; i++) {
                for(size_t at = 0; at < 32; at++) {
                    auto u = t;
                    if(where == 1) {
                        flip(u.m_inputs[i].m_prevout.m_tx_id[at]);
                        check(c, u, "input tx id");
                        u = t;
                        flip(u.m_inputs[i]
                                 .m_prevout_data
                                 .m_witness_program_commitment[at]);
                        check(c, u, "input commitment");
                    } else {
                        flip(u.m_outputs[i].m_witness_program_commitment[at]);
                        check(c, u, "output commitment");
                    }
                }
                for(int at = 0; at < 8; at++) {
                    auto x = uint64_t(bit) << (8 * at);
                    auto u = t;
                    if(where == 1) {
                        u.m_inputs[i].m_prevout.m_index ^= x;
                        check(c, u, "input index");
                        u = t;
                        u.m_inputs[i].m_prevout_data.m_value ^= x;
                        check(c, u, "input value");
                        // keep the sum
                        u.m_outputs[0].m_value
                            += u.m_inputs[i].m_prevout_data.m_value
                             - t.m_inputs[i].m_prevout_data.m_value;
                        check(c, u, "input and output value");
                        u = t;
                        u.m_inputs[i].m_prevout_data.m_value ^= x;
                        u.m_inputs[1 - i].m_prevout_data.m_value
                            -= u.m_inputs[i].m_prevout_data.m_value
                             - t.m_inputs[i].m_prevout_data.m_value;
                        check(c, u, "value moved between inputs");
                    } else {
                        u.m_outputs[i].m_value ^= x;
                        check(c, u, "output value");
                        u.m_outputs[1 - i].m_value
                            -= u.m_outputs[i].m_value - t.m_outputs[i].m_value;
                        check(c, u, "value moved between outputs");
                    }
                }
            }
            // order, repetition, removal
            auto u = t;
            std::swap(u.m_inputs[0], u.m_inputs[1]);
            check(c, u, "inputs exchanged");
            std::swap(u.m_witness[0], u.m_witness[1]);
            check(c, u, "inputs and witnesses exchanged");
            u = t;
            std::swap(u.m_outputs[0], u.m_outputs[1]);
            check(c, u, "outputs exchanged");
            u = t;
            u.m_outputs[0].m_value += u.m_outputs[1].m_value;
            u.m_outputs.pop_back();
            check(c, u, "outputs merged");
            u = t;
            u.m_outputs.push_back(u.m_outputs[0]);
            u.m_outputs[0].m_value = 1;
            u.m_outputs[2].m_value -= 1;
            check(c, u, "output divided");
            u = t;
            u.m_inputs.push_back(u.m_inputs[0]);
            u.m_witness.push_back(u.m_witness[0]);
            check(c, u, "input repeated");
            u.m_outputs.emplace_back(commitment(pub(30)), 5);
            check(c, u, "input repeated, sums equal");
            u = t;
            u.m_inputs.pop_back();
            u.m_witness.pop_back();
            check(c, u, "input removed");
            u.m_outputs.pop_back();
            u.m_outputs[0].m_value = 5;
            check(c, u, "input removed, sums equal");
        }
        c.outcome(mc::strf("%u", where));
    }
    // Witness programs other than pay-to-public-key, with fitting
    // commitments and signatures; keys that are none.
    void programs(mc::ctx& c) {
        auto type = c.choose(256);
        tr::full_tx t = make({{0, 5}}, {5}, {1});
        auto resign = [&](tr::full_tx& u, const pubkey_t& p, uint8_t ty) {
            u.m_inputs[0].m_prevout_data.m_witness_program_commitment
                = commitment(p, ty);
            auto s = sign(u, 1);
            u.m_witness = {witness(p, s, ty)};
        };
        auto u = t;
        resign(u, pub(1), uint8_t(type));
        check(c, u, mc::strf("program type %u", type).c_str());
        // keys: fields beyond the curve's, points not on it
        pubkey_t p{};
        p.fill(type % 2 == 0 ? 0 : 255);
        p[31] = uint8_t(type);
        u = t;
        u.m_inputs[0].m_prevout_data.m_witness_program_commitment
            = commitment(p);
        u.m_witness = {witness(p, sign(u, 1))};
        check(c, u, mc::strf("key %u", type).c_str());
        // longer and shorter programs whose hash is committed to
        for(size_t len = 0; len < 140; len++) {
            bytes w(len, std::byte(0));
            for(size_t i = 1; i < len && i < 33; i++) {
                w[i] = std::byte(pub(1)[i - 1]);
            }
            auto& cm = t.m_inputs[0]
                           .m_prevout_data.m_witness_program_commitment;
            for(size_t com : {len, std::min(len, size_t(33)),
                              len > 64 ? len - 64 : 0}) {
                if(type > 0) {
                    break;
                }
                cm = sha::of(w, com);
                auto s = sign(t, 1);
                auto x = w;
                for(size_t i = 0; i < 64 && i + 64 <= len; i++) {
                    x[len - 64 + i] = std::byte(s[i]);
                }
                u = t;
                u.m_witness = {x};
                check(c, u, mc::strf("program of %zu bytes", len).c_str());
                if(len < 64) {
                    auto y = w;
                    for(auto b : s) {
                        y.push_back(std::byte(b));
                    }
                    u.m_witness = {y};
                    check(c, u,
                          mc::strf("program of %zu bytes", len).c_str());
                }
            }
        }
        if(va::get_p2pk_witness_commitment(pub(uint8_t(type | 1)))
           != commitment(pub(uint8_t(type | 1)))) {
            c.fail("commitment", "the commitment to a key is not the hash of "
                                 "its program");
        }
        c.outcome("done");
    }
    // Wide transactions: one thing wrong at one place of many.
    void wide(mc::ctx& c) {
        static const std::vector<size_t> W{3,  4,  5,  6,  8,   9,   10,
                                           15, 16, 17, 32, 33, 100, 257};
        auto n = W[c.choose(uint32_t(W.size()))];
        auto kind = c.choose(12);
        // n inputs of 3 owners, m outputs of the same sum
        auto build = [&](size_t m) {
            g_signed.clear();
            tr::full_tx t;
            uint64_t sum = 0;
            for(size_t i = 0; i < n; i++) {
                tr::input p;
                p.m_prevout = {h::id(uint8_t(1 + i / 3)), i % 3 + (i / 700)};
                auto v = uint64_t(1000 + i);
                sum += v;
                p.m_prevout_data
                    = tr::output(commitment(pub(uint8_t(1 + i % 3))), v);
                t.m_inputs.push_back(p);
            }
            for(size_t i = 0; i < m; i++) {
                auto v = i + 1 < m ? uint64_t(1 + i % 7) : sum;
                sum -= v;
                t.m_outputs.emplace_back(commitment(pub(uint8_t(20 + i % 5))),
                                         v);
            }
            return t;
        };
        auto seal = [&](tr::full_tx& t) {
            std::vector<uint8_t> k;
            for(size_t i = 0; i < t.m_inputs.size(); i++) {
                k.push_back(uint8_t(1 + i % 3));
            }
            sign_all(t, k);
        };
        auto ref = build(n);
        seal(ref);
        std::vector<size_t> at;
        for(size_t i = 0; i < n; i++) {
            if(n <= 17 || i < 2 || i + 3 > n || i % 32 == 0 || i % 16 == 15) {
                at.push_back(i);
            }
        }
        for(auto i : at) {
            auto t = ref;
            auto w = mc::strf("%zu inputs, place %zu, %u", n, i, kind);
            switch(kind) {
                case 0: // nothing wrong, with other numbers of outputs
                    t = build(i + 1);
                    seal(t);
                    break;
                case 1:
                    t.m_witness[i].clear();
                    break;
                case 2:
                    t.m_witness[i].pop_back();
                    break;
                case 3: // another's
                    t.m_witness[i] = t.m_witness[(i + 1) % n];
                    break;
                case 4: { // not signed
                    auto z = t.m_witness[i];
                    std::fill(z.begin() + 33, z.end(), std::byte(0));
                    t.m_witness[i] = z;
                    break;
                }
                case 5: { // signed before the place was changed
                    auto u = t;
                    u.m_outputs[i].m_witness_program_commitment[9] ^= 1;
                    u.m_witness = t.m_witness;
                    t = u;
                    break;
                }
                case 6: { // an output without value; the sum kept
                    t.m_outputs[(i + 1) % n].m_value
                        += t.m_outputs[i].m_value;
                    t.m_outputs[i].m_value = 0;
                    seal(t);
                    break;
                }
                case 7: { // an input without value
                    auto& v = t.m_inputs[i].m_prevout_data.m_value;
                    t.m_inputs[(i + 1) % n].m_prevout_data.m_value += v;
                    v = 0;
                    seal(t);
                    break;
                }
                case 8: { // unequal by one
                    t.m_outputs[i].m_value++;
                    seal(t);
                    break;
                }
                case 9: { // unequal by the wrap-around
                    auto m = ~uint64_t(0);
                    t.m_outputs[i].m_value += m / 2 + 1;
                    t.m_outputs[(i + 1) % n].m_value += m / 2 + 1;
                    seal(t);
                    break;
                }
                case 10: { // a witness more or less
                    t.m_witness.insert(t.m_witness.begin() + long(i),
                                       t.m_witness[i]);
                    if(!check(c, t, w.c_str())) {
                        return;
                    }
                    t = ref;
                    t.m_witness.erase(t.m_witness.begin() + long(i));
                    break;
                }
                default: { // the same input twice, next to it and far
                    for(auto j : at) {
                        if(j == i) {
                            continue;
                        }
                        auto u = ref;
                        auto v = u.m_inputs[j].m_prevout_data.m_value;
                        u.m_inputs[j] = u.m_inputs[i];
                        u.m_inputs[j].m_prevout_data.m_value = v;
                        std::vector<uint8_t> k;
                        for(size_t x = 0; x < n; x++) {
                            k.push_back(uint8_t(1 + (x == j ? i : x) % 3));
                        }
                        sign_all(u, k);
                        if(!check(c, u, w.c_str())) {
                            return;
                        }
                        if(n > 33) {
                            // the same, with other contents: still twice
                            continue;
                        }
                        u.m_inputs[j].m_prevout_data
                            = tr::output(commitment(pub(uint8_t(1 + j % 3))),
                                         v);
                        seal(u);
                        if(!check(c, u, w.c_str())) {
                            return;
                        }
                    }
                    t = ref;
                    break;
                }
            }
            if(!check(c, t, w.c_str())) {
                return;
            }
        }
        // what it creates
        std::set<hash_t> uhs;
        auto id = tr::tx_id(ref);
        tr::compact_tx ct(ref);
        if(ct.m_id != id || ct.m_inputs.size() != n
           || ct.m_uhs_outputs.size() != n) {
            return c.fail("compact", "%zu inputs and outputs", n);
        }
        for(size_t i = 0; i < n; i++) {
            auto in = tr::input_from_output(ref, i);
            uhs.insert(ct.m_uhs_outputs[i]);
            if(!in || in->m_prevout.m_tx_id != id
               || in->m_prevout.m_index != i
               || !(in->m_prevout_data == ref.m_outputs[i])
               || in->hash() != ct.m_uhs_outputs[i]
               || ref.m_inputs[i].hash() != ct.m_inputs[i]) {
                return c.fail("spend", "output %zu of %zu is spent as another",
                              i, n);
            }
        }
        if(uhs.size() != n) {
            return c.fail("uhs-collision", "%zu outputs, %zu identifiers", n,
                          uhs.size());
        }
        c.outcome(mc::strf("%u", kind));
    }
    // Identifiers: equal exactly for equal contents; what a transaction
    // creates is what a later one spends.
    void ids(mc::ctx& c) {
        std::map<hash_t, std::string> seen, seen_uhs;
        auto n = c.choose(4), m = c.choose(4);
        auto put = [&](const tr::full_tx& t) {
            std::string s = show(t);
            for(auto& i : t.m_inputs) {
                s += mc::strf(" %02x%02x",
                              i.m_prevout_data.m_witness_program_commitment[0],
                              i.m_prevout.m_tx_id[1]);
            }
            for(auto& o : t.m_outputs) {
                s += mc::strf(" %02x", o.m_witness_program_commitment[0]);
            }
            auto id = tr::tx_id(t);
            auto [it, fresh] = seen.emplace(id, s);
            if(!fresh && it->second != s) {
                c.fail("id-collision", "%s and %s", s.c_str(),
                       it->second.c_str());
            }
            auto u = t;
            u.m_witness.assign(2, bytes(3));
            if(tr::tx_id(u) != id) {
                c.fail("id-witness", "%s", s.c_str());
            }
            tr::compact_tx ct(t);
            if(ct.m_id != id || ct.m_inputs.size() != t.m_inputs.size()
               || ct.m_uhs_outputs.size() != t.m_outputs.size()) {
                return c.fail("compact", "%s", s.c_str());
            }
            for(size_t i = 0; i < t.m_outputs.size(); i++) {
                auto in = tr::input_from_output(t, i);
                if(!in || in->m_prevout.m_tx_id != id
                   || in->m_prevout.m_index != i
                   || in->m_prevout_data != t.m_outputs[i]
                   || in->hash() != ct.m_uhs_outputs[i]) {
                    c.fail("spend", "output %zu of %s is spent as another",
                           i, s.c_str());
                }
                auto what = s + mc::strf("/%zu", i);
                auto [jt, f] = seen_uhs.emplace(ct.m_uhs_outputs[i], what);
                if(!f && jt->second != what) {
                    c.fail("uhs-collision", "%s and %s", what.c_str(),
                           jt->second.c_str());
                }
                tr::full_tx spend;
                spend.m_inputs = {*in};
                if(tr::compact_tx(spend).m_inputs.at(0)
                   != ct.m_uhs_outputs[i]) {
                    c.fail("spend", "output %zu of %s is spent as another",
                           i, s.c_str());
                }
            }
            for(size_t i = 0; i < t.m_inputs.size(); i++) {
                if(ct.m_inputs[i] != t.m_inputs[i].hash()) {
                    c.fail("compact", "%s", s.c_str());
                }
            }
            if(tr::input_from_output(t, t.m_outputs.size())) {
                c.fail("spend", "an output that does not exist");
            }
            c.agreed();
        };
        // all contents over two values of each field
        auto bitsn = n * 4 + m * 2;
        for(uint32_t x = 0; x < (1U << bitsn); x++) {
            if(!mc::thorough() && bitsn > 12 && x % 7 != 0) {
                continue;
            }
            tr::full_tx t;
            auto y = x;
            auto b = [&]() {
                auto r = y & 1;
                y >>= 1;
                return r;
            };
            for(uint32_t i = 0; i < n; i++) {
                tr::input in;
                in.m_prevout.m_tx_id = h::id(b() != 0 ? 0x10 : 0x20);
                in.m_prevout.m_index = b();
                in.m_prevout_data.m_value = 1 + b();
                in.m_prevout_data.m_witness_program_commitment
                    = h::id(b() != 0 ? 0x30 : 0x40);
                t.m_inputs.push_back(in);
            }
            for(uint32_t i = 0; i < m; i++) {
                auto v = 1 + b();
                t.m_outputs.emplace_back(h::id(b() != 0 ? 0x30 : 0x40), v);
            }
            put(t);
            if(c.failed()) {
                return;
            }
        }
        c.outcome("done");
    }
}

int main(int argc, char** argv) {
    std::vector<mc::scenario> s{
        {"counts and values", shapes, 0, 8, 3,
         "0-3 inputs over 3 outpoints and 5 values, 0-3 outputs over 5 "
         "values, a witness more or less; all correctly signed"},
        {"sums", sums, 0, 8, 2, "1-4 inputs, sums around 2^64"},
        {"witnesses", witnesses, 0, 8, 1,
         "19 witnesses for each of two inputs"},
        {"one bit", bits, 0, 8, 2,
         "every bit of a valid transaction changed; values moved; inputs and "
         "outputs exchanged, repeated, merged, divided, removed"},
        {"programs", programs, 0, 8, 1,
         "every program type, 256 keys, every length below 140"},
        {"wide transactions", wide, 0, 8, 2,
         "3 to 257 inputs and outputs with one thing wrong at one place: a "
         "witness, a value, the sum, a repeated input"},
        {"identifiers", ids, 0, 8, 2,
         "every content of 0-3 inputs and outputs over two values of each "
         "field"}};
    return mc::main(argc, argv, "C25", "model_checking",
                    "every transaction of each family", {}, s);
}
