#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include "mc/mc.hpp"
#include "uhs/transaction/transaction.hpp"
#include "util/common/config.hpp"
#include "util/common/hash.hpp"
#include "util/common/keys.hpp"
#include "util/common/logging.hpp"

#include <memory>
#include <optional>
#include <secp256k1.h>
#include <secp256k1_schnorrsig.h>
#include <string>

namespace h {
    using namespace cbdc;
    // A 32-byte id: `prefix` selects the shard, the rest identifies it.
    inline hash_t id(uint8_t prefix, uint32_t n = 0) {
        hash_t r{};
        r[0] = prefix;
        r[1] = uint8_t(n >> 8);
        r[2] = uint8_t(n);
        // hashing::null reads the first 8 bytes; give distinct ones
        r[7] = uint8_t(n * 7 + prefix);
        r[31] = 0x5a;
        return r;
    }
    inline std::shared_ptr<logging::log> logger() {
        static auto l
            = std::make_shared<logging::log>(logging::log_level::fatal);
        return l;
    }
    inline std::string hx(const hash_t& v) {
        char b[16];
        snprintf(b, sizeof b, "%02x%02x%02x", v[0], v[1], v[2]);
        return b;
    }
    inline secp256k1_context* secp() {
        static auto* c = secp256k1_context_create(SECP256K1_CONTEXT_SIGN
                                                  | SECP256K1_CONTEXT_VERIFY);
        return c;
    }
    inline privkey_t priv(uint8_t n) {
        privkey_t k{};
        k[31] = n;
        k[0] = 1;
        return k;
    }
    inline pubkey_t pub(uint8_t n) {
        return pubkey_from_privkey(priv(n), secp());
    }
    inline transaction::compact_tx ctx_tx(const hash_t& txid,
                                          std::vector<hash_t> in,
                                          std::vector<hash_t> out) {
        transaction::compact_tx t;
        t.m_id = txid;
        t.m_inputs = std::move(in);
        t.m_uhs_outputs = std::move(out);
        return t;
    }
}
#endif
