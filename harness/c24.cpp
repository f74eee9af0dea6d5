// C24: text encodings of buffers, hashes and addresses, input by input.
#include <algorithm>
#include <array>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

#include "harness/common.hpp"
#include "uhs/client/client.hpp"
#include "uhs/transaction/messages.hpp"
#include "util/common/buffer.hpp"
#include "util/rpc/format.hpp"
#include "util/serialization/format.hpp"
#include "util/serialization/util.hpp"

int cli_main(int argc, char** argv);

namespace {
    using namespace cbdc;
    const char* const digits = "0123456789abcdef";
    // 0..15, or -1
    int digit(int c) {
        if(c >= '0' && c <= '9') {
            return c - '0';
        }
        if(c >= 'a' && c <= 'f') {
            return c - 'a' + 10;
        }
        if(c >= 'A' && c <= 'F') {
            return c - 'A' + 10;
        }
        return -1;
    }
    std::string ref_hex(const unsigned char* p, size_t n) {
        std::string s;
        for(size_t i = 0; i < n; i++) {
            s += digits[p[i] >> 4];
            s += digits[p[i] & 15];
        }
        return s;
    }
    // an exact heap copy, so that reading past it is seen
    std::string exact(const std::string& s) {
        std::string r(s);
        r.shrink_to_fit();
        return r;
    }
    bool from(const std::string& s, buffer& out) {
        auto b = buffer::from_hex(exact(s));
        if(b) {
            out = *b;
        }
        return b.has_value();
    }
    void buffer_text(mc::ctx& c, const std::string& s, const char* what) {
        bool good = !s.empty() && s.size() % 2 == 0;
        std::string want;
        for(size_t i = 0; i < s.size() && good; i++) {
            good = digit((unsigned char)s[i]) >= 0;
            if(i % 2 == 1 && good) {
                want += char(digit(s[i - 1]) * 16 + digit(s[i]));
            }
        }
        buffer b;
        bool ok = from(s, b);
        if(ok != good) {
            c.fail(good ? "hex-refused" : "hex-accepted",
                   "%s: '%s'",
                   what,
                   ref_hex((const unsigned char*)s.data(), s.size()).c_str());
        } else if(ok
                  && (b.size() != want.size()
                      || memcmp(b.data(), want.data(), want.size()) != 0)) {
            c.fail("hex-value", "%s: '%s' is read as %s", what, s.c_str(),
                   ref_hex(b.c_ptr(), b.size()).c_str());
        }
        c.agreed();
    }
    void hex_pairs(mc::ctx& c) {
        auto a = int(c.choose(256));
        for(int b = 0; b < 256; b++) {
            std::string p{char(a), char(b)};
            buffer_text(c, p, "two characters");
            buffer_text(c, p + "0a", "first two of four");
            buffer_text(c, "F0" + p, "last two of four");
        }
        // one byte, alone and at each place of longer buffers
        for(size_t n = 1; n <= 33; n++) {
            for(size_t at = 0; at < n; at++) {
                std::vector<unsigned char> v(n, at % 2 == 0 ? 0 : 0xff);
                v[at] = (unsigned char)a;
                buffer x;
                x.append(v.data(), n);
                auto s = x.to_hex();
                buffer y;
                if(s != ref_hex(v.data(), n) || !from(s, y) || !(x == y)) {
                    return c.fail("hex-round", "%zu bytes, %d at %zu: %s", n,
                                  a, at, s.c_str());
                }
                if(x.to_hex_prefixed() != "0x" + s
                   || x.to_hex_prefixed("u") != "u" + s) {
                    return c.fail("hex-prefix", "%s",
                                  x.to_hex_prefixed().c_str());
                }
                for(auto& [pre, t] :
                    std::vector<std::pair<std::string, std::string>>{
                        {"0x", s},
                        {"0x", "0x" + s},
                        {"pre:", "pre:" + s},
                        {"ab", "ab" + s},
                        {"ab", "12" + s},
                        {"", s}}) {
                    auto z = buffer::from_hex_prefixed(exact(t), pre);
                    auto want = x;
                    if(t == "12" + s && t.rfind(pre, 0) != 0) {
                        // the prefix may be left out
                        want = buffer();
                        const unsigned char b = 0x12;
                        want.append(&b, 1);
                        want.append(v.data(), n);
                    }
                    if(!z || !(*z == want)) {
                        return c.fail("hex-prefix", "'%s' is not read",
                                      t.c_str());
                    }
                }
                c.agreed(6);
            }
        }
        c.outcome("done");
    }
    void hex_lengths(mc::ctx& c) {
        auto len = c.choose(80);
        for(int ch = 0; ch < 256; ch++) {
            for(size_t at = 0; at < len; at++) {
                std::string s;
                for(size_t i = 0; i < len; i++) {
                    s += digits[(i * 5 + 1) % 16];
                }
                s[at] = char(ch);
                buffer_text(c, s, "one character replaced");
            }
        }
        // prefixed, odd lengths: a zero is put in front
        std::string s;
        for(size_t i = 0; i < len; i++) {
            s += digits[(i * 3 + 10) % 16];
        }
        auto full = len % 2 == 0 ? s : "0" + s;
        auto got = buffer::from_hex_prefixed("0x" + s);
        if(len > 0
           && (!got || got->to_hex() != full)) {
            c.fail("hex-prefix", "0x%s", s.c_str());
        }
        for(const char* bad : {"0y", "x0", "0X", "00x"}) {
            if(buffer::from_hex_prefixed(bad + s)) {
                c.fail("hex-prefix", "%s%s is accepted", bad, s.c_str());
            }
        }
        if(len > 0) {
            auto cut = buffer::from_hex_prefixed(
                exact(s.substr(0, 1)), "0x");
            if(!cut || cut->to_hex() != "0" + s.substr(0, 1)) {
                c.fail("hex-prefix", "one digit");
            }
        }
        // large ones
        size_t big = len < 40 ? 51200 - len : 1024 * len;
        if(big <= 51200) {
            buffer x;
            for(size_t i = 0; i < big; i++) {
                auto b = (unsigned char)(i * 11 + len);
                x.append(&b, 1);
            }
            buffer y;
            if(!from(x.to_hex(), y) || !(x == y)) {
                c.fail("hex-round", "%zu bytes", big);
            }
        }
        c.agreed(5);
        c.outcome("done");
    }

    std::optional<hash_t> parse_hash(const std::string& s) {
        auto h = maybe_hash_from_hex(exact(s));
        if(h && hash_from_hex(s) != *h) {
            return std::nullopt;
        }
        return h;
    }
    void hash_text(mc::ctx& c, const std::string& s) {
        bool good = s.size() == 64;
        for(size_t i = 0; i < s.size() && good; i++) {
            good = digit((unsigned char)s[i]) >= 0;
        }
        auto h = parse_hash(s);
        if(h.has_value() != good) {
            c.fail(good ? "hash-refused" : "hash-accepted", "'%s' (%zu)",
                   ref_hex((const unsigned char*)s.data(), s.size()).c_str(),
                   s.size());
        } else if(good) {
            for(size_t i = 0; i < 32; i++) {
                if((*h)[i] != digit(s[2 * i]) * 16 + digit(s[2 * i + 1])) {
                    return c.fail("hash-value", "%s is read as %s", s.c_str(),
                                  ref_hex(h->data(), 32).c_str());
                }
            }
        }
        c.agreed();
    }
    void hashes(mc::ctx& c) {
        auto at = c.choose(64);
        for(int ch = 0; ch < 256; ch++) {
            for(int bg = 0; bg < 3; bg++) {
                std::string s;
                for(int i = 0; i < 64; i++) {
                    s += bg == 0 ? '0'
                       : bg == 1 ? 'F'
                                 : digits[(i * 7 + 3) % 16];
                }
                s[at] = char(ch);
                hash_text(c, s);
                // every length
                if(ch == 'b' || ch == '0') {
                    for(size_t n = 0; n < 64; n++) {
                        hash_text(c, s.substr(0, n));
                        hash_text(c, s + s.substr(0, n + 1));
                    }
                    hash_text(c, s + std::string(10000, '1'));
                }
                hash_t h{};
                for(int i = 0; i < 32; i++) {
                    h[i] = bg == 0 ? 0 : bg == 1 ? 255 : (unsigned char)(i * 9);
                }
                h[at / 2] = (unsigned char)ch;
                auto t = to_string(h);
                auto back = parse_hash(t);
                if(t != ref_hex(h.data(), 32) || !back || *back != h) {
                    c.fail("hash-round", "%s", t.c_str());
                }
            }
        }
        c.outcome("done");
    }

    // ---- addresses: an encoder written from the standard (BIP 173)
    const char* const sym = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
    uint32_t step(uint32_t x, uint32_t v) {
        static const uint32_t g[]{0x3b6a57b2, 0x26508e6d, 0x1ea119fa,
                                  0x3d4233dd, 0x2a1462b3};
        auto top = x >> 25;
        x = ((x & 0x1ffffff) << 5) ^ v;
        for(int i = 0; i < 5; i++) {
            x ^= ((top >> i) & 1) != 0 ? g[i] : 0;
        }
        return x;
    }
    std::string bech(const std::string& hrp, const std::vector<int>& v) {
        uint32_t x = 1;
        for(unsigned char h : hrp) {
            x = step(x, h >> 5);
        }
        x = step(x, 0);
        for(unsigned char h : hrp) {
            x = step(x, h & 31);
        }
        auto s = hrp + "1";
        for(auto i : v) {
            x = step(x, uint32_t(i));
            s += sym[i];
        }
        for(int i = 0; i < 6; i++) {
            x = step(x, 0);
        }
        x ^= 1;
        for(int i = 0; i < 6; i++) {
            s += sym[(x >> (5 * (5 - i))) & 31];
        }
        return s;
    }
    std::vector<int> to5(const std::vector<unsigned char>& v) {
        std::vector<int> r;
        int acc = 0, n = 0;
        for(auto b : v) {
            acc = (acc << 8 | b) & 0xfff;
            n += 8;
            while(n >= 5) {
                n -= 5;
                r.push_back((acc >> n) & 31);
            }
        }
        if(n > 0) {
            r.push_back((acc << (5 - n)) & 31);
        }
        return r;
    }
    std::string addr_of(const hash_t& k, int type = 0) {
        std::vector<unsigned char> v{(unsigned char)type};
        v.insert(v.end(), k.begin(), k.end());
        return bech("usd", to5(v));
    }
    void refused(mc::ctx& c, const std::string& s, const char* what) {
        auto d = address::decode(exact(s));
        if(d) {
            c.fail("address-accepted", "%s: '%s' is taken for %s", what,
                   s.c_str(), ref_hex(d->data(), 32).c_str());
        }
        c.agreed();
    }
    hash_t key(uint32_t kind, uint32_t at = 32, int v = 0) {
        hash_t h{};
        for(uint32_t i = 0; i < 32; i++) {
            h[i] = kind == 0 ? 0 : kind == 1 ? 255 : (unsigned char)(i * 37);
        }
        if(at < 32) {
            h[at] = (unsigned char)v;
        }
        return h;
    }
    std::string upper(std::string s) {
        for(auto& ch : s) {
            ch = char(toupper(ch));
        }
        return s;
    }
    void addresses(mc::ctx& c) {
        auto at = c.choose(32);
        for(int v = 0; v < 256; v++) {
            for(uint32_t k = 0; k < 3; k++) {
                auto h = key(k, at, v);
                for(auto& s : {addr_of(h), upper(addr_of(h))}) {
                    auto d = address::decode(s);
                    if(!d || *d != h) {
                        c.fail("address-round", "%s: %s", s.c_str(),
                               d ? ref_hex(d->data(), 32).c_str()
                                 : "refused");
                    }
                    c.agreed();
                }
            }
        }
        c.outcome("done");
    }
    // One and two characters of an address replaced (the checksum detects up
    // to four).
    void typos(mc::ctx& c) {
        auto s = addr_of(key(2));
        auto i = c.choose(uint32_t(s.size()));
        for(int a = 1; a < 256; a++) {
            auto t = s;
            if(char(a) == t[i]) {
                continue;
            }
            t[i] = char(a);
            refused(c, t, "one character");
        }
        for(size_t j = i + 1; j < s.size(); j++) {
            for(int a = 0; a < 32; a++) {
                for(int b = 0; b < 32; b++) {
                    auto t = s;
                    t[i] = sym[a];
                    t[j] = sym[b];
                    if(t != s && (mc::thorough() || (a + b + j) % 4 == 0)) {
                        refused(c, t, "two characters");
                    }
                }
            }
            auto t = s;
            std::swap(t[i], t[j]);
            if(t != s) {
                refused(c, t, "exchanged");
            }
            t = s;
            t[i] = char(toupper(t[i]));
            if(t != s) {
                refused(c, t, "mixed case");
            }
        }
        auto t = s;
        refused(c, t.erase(i, 1), "one removed");
        refused(c, s.substr(0, i), "cut");
        for(int a = 0; a < 32; a++) {
            // (before a final p, a q makes another valid code: of another
            // length)
            t = s;
            refused(c, t.insert(i, 1, sym[a]), "one inserted");
        }
        c.outcome("done");
    }
    // Well-formed codes that are not addresses.
    void others(mc::ctx& c) {
        auto n = c.choose(83);
        for(int fill : {0, 1, 31, 7}) {
            std::vector<int> v(n, fill);
            auto s = bech("usd", v);
            bool good = n == 53 && fill == 0;
            auto d = address::decode(exact(s));
            if(d.has_value() != good) {
                c.fail(good ? "address-round" : "address-accepted",
                       "%u symbols %d: %s", n, fill, s.c_str());
            }
            if(n >= 2) {
                v[0] = v[1] = 0;
                // type 0 (the low bits of v[1] belong to the key)
                s = bech("usd", v);
                good = n == 53 && (fill & 1) == 0;
                d = address::decode(exact(s));
                if(d.has_value() != good) {
                    c.fail(good ? "address-round" : "address-accepted",
                           "%u symbols 0,0,%d..: %s", n, fill, s.c_str());
                }
            }
            c.agreed(2);
        }
        auto k = to5([] {
            std::vector<unsigned char> v{0};
            auto h = key(2);
            v.insert(v.end(), h.begin(), h.end());
            return v;
        }());
        if(n < 8) {
            // prefix, padding, extra symbols
            static const char* hrp[]{"us", "usdd", "bc", "dsu", "usd1", "u",
                                     "usc", "ust"};
            refused(c, bech(hrp[n], k), "other prefix");
            auto p = k;
            p.back() |= 1;
            refused(c, bech("usd", p), "padding");
            p = k;
            for(uint32_t i = 0; i <= n; i++) {
                p.push_back(0);
            }
            refused(c, bech("usd", p), "more symbols");
            p.back() = 1;
            refused(c, bech("usd", p), "more symbols");
            p = k;
            p.resize(k.size() - 1 - n);
            refused(c, bech("usd", p), "fewer symbols");
        }
        for(int t = 1; t < 256; t++) {
            refused(c, addr_of(key(n % 3), t), "type");
        }
        std::vector<unsigned char> w(n % 48 + 1);
        for(size_t i = 0; i < w.size(); i++) {
            w[i] = (unsigned char)(i * 3);
        }
        if(w.size() != 33) {
            refused(c, bech("usd", to5(w)), "length");
        }
        c.outcome("done");
    }
    // Every short text.
    void short_text(mc::ctx& c) {
        auto a = int(c.choose(256));
        for(int b = 0; b < 256; b++) {
            refused(c, std::string{char(a)}, "short");
            refused(c, std::string{char(a), char(b)}, "short");
            refused(c, std::string("usd1") + char(a) + char(b), "short");
            refused(c, std::string("usd") + char(a) + char(b) + "qqqqqq",
                    "short");
            std::string s(size_t(a) % 100, 'q');
            refused(c, s + char(b), "short");
        }
        c.outcome("done");
    }

    // The command line tool: addresses it prints decode to keys of the
    // wallet, malformed arguments are refused.
    int run_cli(const std::vector<std::string>& a, std::string& out) {
        std::vector<std::string> v{"client-cli", "cfg", "c.dat", "w.dat"};
        v.insert(v.end(), a.begin(), a.end());
        std::vector<char*> p;
        for(auto& s : v) {
            p.push_back(s.data());
        }
        p.push_back(nullptr);
        std::ostringstream o;
        auto* was = std::cout.rdbuf(o.rdbuf());
        auto r = cli_main(int(v.size()), p.data());
        std::cout.rdbuf(was);
        out = o.str();
        return r;
    }
    void cli(mc::ctx& c) {
        if(chdir(mc::scratch().c_str()) != 0) {
            return c.fail("harness", "scratch");
        }
        {
            std::ofstream f("cfg");
            f << "2pc=1\nsentinel_count=1\n"
                 "sentinel0_endpoint=\"127.0.0.1:5557\"\n"
                 "attestation_threshold=0\n"
                 "shard_count=1\nshard0_count=1\n"
                 "shard0_start=0\nshard0_end=255\n"
                 "shard0_0_endpoint=\"127.0.0.1:8888\"\n"
                 "shard0_0_raft_endpoint=\"127.0.0.1:8889\"\n"
                 "shard0_0_readonly_endpoint=\"127.0.0.1:8989\"\n"
                 "coordinator_count=1\ncoordinator0_count=1\n"
                 "coordinator0_0_endpoint=\"127.0.0.1:8886\"\n"
                 "coordinator0_0_raft_endpoint=\"127.0.0.1:8887\"\n"
                 "loglevel=\"FATAL\"\n";
        }
        std::string out;
        for(int i = 0; i < 3; i++) {
            auto r = run_cli({"newaddress"}, out);
            auto at = out.rfind("usd1");
            if(r != 0 || at == std::string::npos) {
                return c.fail("newaddress", "%d: %s", r, out.c_str());
            }
            auto s = out.substr(at);
            while(!s.empty() && (s.back() == '\n' || s.back() == ' ')) {
                s.pop_back();
            }
            auto d = address::decode(s);
            if(!d || addr_of(*d) != s) {
                return c.fail("newaddress", "%s", s.c_str());
            }
            // the key is one the wallet has
            std::ifstream w("w.dat", std::ios::binary);
            std::stringstream all;
            all << w.rdbuf();
            if(all.str().find(
                   std::string(reinterpret_cast<char*>(d->data()), 32))
               == std::string::npos) {
                return c.fail("newaddress", "%s is not the wallet's",
                              s.c_str());
            }
            c.agreed(2);
        }
        auto good = std::string(64, 'a');
        for(auto& s : {std::string(), std::string("a"), good.substr(1),
                       good + "a", good + good, std::string(5000, 'a'),
                       "0x" + good.substr(2), std::string(64, 'g'),
                       good}) {
            // (unknown transactions are refused in any case)
            if(run_cli({"confirmtx", s}, out) == 0) {
                return c.fail("confirmtx", "'%s' is accepted", s.c_str());
            }
            c.agreed();
        }
        transaction::input in;
        auto hex = make_buffer(in).to_hex();
        for(auto& s :
            {std::string("zz"), hex.substr(1), hex.substr(2), hex + "0",
             "g" + hex.substr(1), "+" + hex.substr(1), std::string("a"),
             std::string()}) {
            if(run_cli({"importinput", s}, out) == 0) {
                return c.fail("importinput", "'%s' is accepted", s.c_str());
            }
            c.agreed();
        }
        c.outcome("done");
    }
}

int main(int argc, char** argv) {
    std::ostream null(nullptr);
    std::cout.rdbuf(null.rdbuf());
    std::vector<mc::scenario> s{
        {"pairs of characters", hex_pairs, 0, 8, 1,
         "every pair of bytes as a hex byte; every byte at every place of "
         "buffers up to 33 bytes"},
        {"lengths", hex_lengths, 0, 8, 1,
         "every length below 80, every character at every place"},
        {"hashes", hashes, 0, 8, 1,
         "every character at every place, every length up to 128, every byte "
         "at every place"},
        {"addresses", addresses, 0, 8, 1, "every byte at every place of a key"},
        {"mistyped", typos, 0, 8, 1,
         "every replacement of one or two characters, removal, insertion, "
         "exchange"},
        {"not addresses", others, 0, 8, 1,
         "valid codes of every length, type, padding and other prefixes"},
        {"short texts", short_text, 0, 8, 1, "every pair of bytes"},
        {"command line", cli, 0, 1, 1, "well-formed and malformed arguments"}};
    return mc::main(argc, argv, "C24", "model_checking",
                    "every input of each family", {}, s);
}
