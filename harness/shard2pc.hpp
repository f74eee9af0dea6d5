// Shared by C01 and C02: a real 2PC locking shard (called directly, or through
// its replicated state machine and its wire format) next to a reference model.
#ifndef VERIF_SHARD2PC_HPP
#define VERIF_SHARD2PC_HPP
#include "common.hpp"
#include "uhs/twophase/locking_shard/format.hpp"
#include "uhs/twophase/locking_shard/locking_shard.hpp"
#include "uhs/twophase/locking_shard/messages.hpp"
#include "util/rpc/format.hpp"
#include "util/serialization/buffer_serializer.hpp"
#include "util/serialization/format.hpp"
#include "util/serialization/util.hpp"
#ifdef WITH_SM
#include "uhs/twophase/locking_shard/state_machine.hpp"
#include "util/raft/serialization.hpp"
#endif

#include <deque>

namespace sh {
    using namespace cbdc;
    using h::id;
    using ls = locking_shard::locking_shard;
    using tx = locking_shard::tx;

    struct sut {
        std::shared_ptr<ls> m_shard;
#ifdef WITH_SM
        std::shared_ptr<locking_shard::state_machine> m_sm;
        uint64_t m_idx{0};
#endif
        sut(bool replicated,
            std::pair<uint8_t, uint8_t> range,
            size_t cache,
            const std::string& preseed,
            const config::options& o) {
#ifdef WITH_SM
            if(replicated) {
                m_sm = std::make_shared<locking_shard::state_machine>(
                    range,
                    h::logger(),
                    cache,
                    preseed,
                    o);
                m_shard = m_sm->get_shard_instance();
                return;
            }
#endif
            (void)replicated;
            m_shard
                = std::make_shared<ls>(range, h::logger(), cache, preseed, o);
        }
#ifdef WITH_SM
        std::optional<locking_shard::rpc::response>
        call(locking_shard::rpc::request r) {
            rpc::request<locking_shard::rpc::request> q;
            q.m_header.m_request_id = m_idx;
            q.m_payload = std::move(r);
            auto b = make_buffer(q);
            auto nb = nuraft::buffer::alloc(b.size());
            std::memcpy(nb->data_begin(), b.data(), b.size());
            auto rb = m_sm->commit(++m_idx, *nb);
            if(!rb) {
                return std::nullopt;
            }
            buffer ob;
            ob.append(rb->data_begin(), rb->size());
            auto resp
                = from_buffer<rpc::response<locking_shard::rpc::response>>(ob);
            if(!resp.has_value()
               || resp->m_header.m_request_id != q.m_header.m_request_id) {
                return std::nullopt;
            }
            return resp->m_payload;
        }
#endif
        std::optional<std::vector<bool>> lock(std::vector<tx> t,
                                              const hash_t& d) {
#ifdef WITH_SM
            if(m_sm) {
                auto r = call({d, locking_shard::rpc::lock_params(t)});
                if(!r || !std::holds_alternative<std::vector<bool>>(*r)) {
                    return std::nullopt;
                }
                return std::get<std::vector<bool>>(*r);
            }
#endif
            return m_shard->lock_outputs(std::move(t), d);
        }
        bool apply(std::vector<bool> c, const hash_t& d) {
#ifdef WITH_SM
            if(m_sm) {
                auto r = call({d, locking_shard::rpc::apply_params(c)});
                return r
                    && std::holds_alternative<
                           locking_shard::rpc::apply_response>(*r);
            }
#endif
            return m_shard->apply_outputs(std::move(c), d);
        }
        bool discard(const hash_t& d) {
#ifdef WITH_SM
            if(m_sm) {
                auto r = call({d, locking_shard::rpc::discard_params{}});
                return r
                    && std::holds_alternative<
                           locking_shard::rpc::discard_response>(*r);
            }
#endif
            return m_shard->discard_dtx(d);
        }
    };

    // The reference: plain sets, straight from the documentation.
    struct model {
        uint8_t lo{}, hi{};
        std::set<hash_t> free;                     // spendable, unlocked
        std::map<hash_t, int> locked;              // id -> dtx
        std::map<int, std::vector<tx>> prepared;   // dtx -> txs
        std::map<int, std::vector<bool>> results;
        std::set<int> applied;
        std::deque<hash_t> done; // completed tx ids, oldest first
        size_t cache{};
        bool in(const hash_t& x) const {
            return x[0] >= lo && x[0] <= hi;
        }
        std::vector<bool> lock(int d,
                               const std::vector<tx>& txs,
                               const std::vector<bool>& attested) {
            if(results.count(d) != 0) {
                return results[d];
            }
            std::vector<bool> r;
            for(size_t i = 0; i < txs.size(); i++) {
                bool ok = attested[i];
                for(auto& x : txs[i].m_tx.m_inputs) {
                    ok = ok && (!in(x) || free.count(x) != 0);
                }
                if(ok) {
                    for(auto& x : txs[i].m_tx.m_inputs) {
                        if(in(x)) {
                            free.erase(x);
                            locked[x] = d;
                        }
                    }
                }
                r.push_back(ok);
            }
            prepared[d] = txs;
            results[d] = r;
            return r;
        }
        void apply(int d, const std::vector<bool>& c) {
            if(prepared.count(d) == 0) {
                return;
            }
            auto txs = prepared[d];
            auto res = results[d];
            for(size_t i = 0; i < txs.size(); i++) {
                auto& t = txs[i].m_tx;
                if(res[i]) {
                    for(auto& x : t.m_inputs) {
                        if(in(x)) {
                            locked.erase(x);
                            if(!c[i]) {
                                free.insert(x);
                            }
                        }
                    }
                }
                if(c[i]) {
                    for(auto& x : t.m_uhs_outputs) {
                        if(in(x)) {
                            free.insert(x);
                        }
                    }
                    if(in(t.m_id)) {
                        bool have = false;
                        for(auto& y : done) {
                            have = have || y == t.m_id;
                        }
                        if(!have) {
                            done.push_back(t.m_id);
                            while(done.size() > cache) {
                                done.pop_front();
                            }
                        }
                    }
                }
            }
            prepared.erase(d);
            results.erase(d);
            applied.insert(d);
        }
        std::string key() const {
            std::string k;
            for(auto& x : free) {
                k += h::hx(x) + ",";
            }
            k += "|";
            for(auto& [x, d] : locked) {
                k += h::hx(x) + mc::strf(":%d,", d);
            }
            k += "|";
            for(auto& [d, r] : results) {
                k += mc::strf("%d:", d);
                for(auto b : r) {
                    k += b ? '1' : '0';
                }
            }
            k += "|";
            for(auto& d : applied) {
                k += mc::strf("%d,", d);
            }
            k += "|";
            for(auto& d : done) {
                k += h::hx(d) + ",";
            }
            return k;
        }
    };

    inline std::string bits(const std::vector<bool>& v) {
        std::string s;
        for(auto b : v) {
            s += b ? '1' : '0';
        }
        return s;
    }
}
#endif
