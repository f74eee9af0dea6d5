// C23: serialization. For every message and stored type: every value of a
// bounded value space, every strict prefix, every replaced byte and length.
#include <algorithm>
#include <array>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>

#include "harness/common.hpp"
#include "parsec/agent/format.hpp"
#include "parsec/agent/messages.hpp"
#include "parsec/runtime_locking_shard/format.hpp"
#include "parsec/runtime_locking_shard/messages.hpp"
#include "parsec/ticket_machine/messages.hpp"
#include "uhs/atomizer/atomizer/format.hpp"
#include "uhs/atomizer/atomizer/messages.hpp"
#include "uhs/atomizer/atomizer/state_machine.hpp"
#include "uhs/atomizer/watchtower/messages.hpp"
#include "uhs/atomizer/watchtower/status_update_messages.hpp"
#include "uhs/atomizer/watchtower/tx_error_messages.hpp"
#include "uhs/atomizer/watchtower/watchtower.hpp"
#include "uhs/sentinel/format.hpp"
#include "uhs/sentinel/interface.hpp"
#include "uhs/transaction/messages.hpp"
#include "uhs/twophase/coordinator/controller.hpp"
#include "uhs/twophase/coordinator/format.hpp"
#include "uhs/twophase/locking_shard/format.hpp"
#include "uhs/twophase/locking_shard/messages.hpp"
#include "uhs/twophase/locking_shard/status_messages.hpp"
#include "util/raft/serialization.hpp"
#include "util/rpc/format.hpp"
#include "util/rpc/messages.hpp"
#include "util/serialization/buffer_serializer.hpp"
#include "util/serialization/format.hpp"
#include "util/serialization/istream_serializer.hpp"
#include "util/serialization/ostream_serializer.hpp"
#include "util/serialization/size_serializer.hpp"
#include "util/serialization/util.hpp"

static size_t g_largest; // allocation while watching
static bool g_watch;
extern "C" void __sanitizer_malloc_hook(const volatile void*, size_t n) {
    if(g_watch && n > g_largest) {
        g_largest = n;
    }
}
extern "C" void __sanitizer_free_hook(const volatile void*) {}

namespace {
    using namespace cbdc;
    mc::ctx* C;
    uint32_t pick(uint32_t n) {
        return C->choose(n, "v", 1);
    }

    // ---- the value space ------------------------------------------------
    template<typename T, typename = void>
    struct gen;
    template<typename T>
    T make() {
        return gen<T>::make();
    }
    template<typename T>
    void dump(std::string& s, const T& x) {
        gen<T>::dump(s, x);
    }
    template<typename T>
    struct gen<T, std::enable_if_t<std::is_integral_v<T> || std::is_enum_v<T>>> {
        static T make() {
            if constexpr(std::is_same_v<T, bool>) {
                return pick(2) == 1;
            } else if constexpr(std::is_enum_v<T>) {
                return T(std::underlying_type_t<T>(pick(5)));
            } else {
                static const uint64_t v[]{0,
                                          1,
                                          0x0102030405060708ULL,
                                          0xffffffffffffffffULL};
                return T(v[pick(4)]);
            }
        }
        static void dump(std::string& s, T x) {
            s += mc::strf("%llx,", (unsigned long long)x);
        }
    };
    template<size_t N>
    struct gen<std::array<unsigned char, N>> {
        using T = std::array<unsigned char, N>;
        static T make() {
            T t{};
            auto k = pick(3);
            for(size_t i = 0; i < N; i++) {
                t[i] = k == 0 ? 0 : k == 1 ? 255 : uint8_t(i * 7 + 1);
            }
            return t;
        }
        static void dump(std::string& s, const T& x) {
            for(auto b : x) {
                s += mc::strf("%02x", b);
            }
            s += ',';
        }
    };
    template<>
    struct gen<buffer> {
        static buffer make() {
            static const size_t len[]{0, 1, 8, 70};
            buffer b;
            auto n = len[pick(4)];
            for(size_t i = 0; i < n; i++) {
                auto c = uint8_t(255 - i * 3);
                b.append(&c, 1);
            }
            return b;
        }
        static void dump(std::string& s, const buffer& x) {
            s += mc::strf("b%zu:", x.size()) + x.to_hex() + ",";
        }
    };
    template<>
    struct gen<std::monostate> {
        static std::monostate make() {
            return {};
        }
        static void dump(std::string& s, const std::monostate&) {
            s += "-";
        }
    };
    template<typename T>
    struct gen<std::optional<T>> {
        static std::optional<T> make() {
            if(pick(2) == 1) {
                return ::make<T>();
            }
            return std::nullopt;
        }
        static void dump(std::string& s, const std::optional<T>& x) {
            s += x ? "some(" : "none";
            if(x) {
                ::dump(s, *x);
                s += ")";
            }
        }
    };
    template<typename A, typename B>
    struct gen<std::pair<A, B>> {
        static std::pair<A, B> make() {
            auto a = ::make<A>();
            return {std::move(a), ::make<B>()};
        }
        static void dump(std::string& s, const std::pair<A, B>& x) {
            s += "(";
            ::dump(s, x.first);
            ::dump(s, x.second);
            s += ")";
        }
    };
    template<typename T>
    struct gen<std::vector<T>> {
        static std::vector<T> make() {
            std::vector<T> v;
            auto n = pick(4);
            for(uint32_t i = 0; i < n; i++) {
                v.push_back(::make<T>());
            }
            return v;
        }
        static void dump(std::string& s, const std::vector<T>& x) {
            s += mc::strf("[%zu:", x.size());
            for(size_t i = 0; i < x.size(); i++) {
                T e = x[i];
                ::dump(s, e);
            }
            s += "]";
        }
    };
    template<typename K, typename V, typename... R>
    struct gen<std::unordered_map<K, V, R...>> {
        using T = std::unordered_map<K, V, R...>;
        static T make() {
            T m;
            auto n = pick(3);
            for(uint32_t i = 0; i < n; i++) {
                auto k = ::make<K>();
                m.emplace(std::move(k), ::make<V>());
            }
            return m;
        }
        static void dump(std::string& s, const T& x) {
            std::set<std::string> e;
            for(auto& [k, v] : x) {
                std::string t;
                ::dump(t, k);
                t += "=>";
                ::dump(t, v);
                e.insert(t);
            }
            s += mc::strf("{%zu:", x.size());
            for(auto& t : e) {
                s += t + ";";
            }
            s += "}";
        }
    };
    template<typename T>
    struct gen_set {
        static T make() {
            T m;
            auto n = pick(3);
            for(uint32_t i = 0; i < n; i++) {
                m.insert(::make<typename T::value_type>());
            }
            return m;
        }
        static void dump(std::string& s, const T& x) {
            std::set<std::string> e;
            for(auto& k : x) {
                std::string t;
                ::dump(t, k);
                e.insert(t);
            }
            s += mc::strf("{%zu:", x.size());
            for(auto& t : e) {
                s += t + ";";
            }
            s += "}";
        }
    };
    template<typename K, typename... R>
    struct gen<std::unordered_set<K, R...>>
        : gen_set<std::unordered_set<K, R...>> {};
    template<typename K, typename... R>
    struct gen<std::set<K, R...>> : gen_set<std::set<K, R...>> {};
    template<typename... Ts>
    struct gen<std::variant<Ts...>> {
        using T = std::variant<Ts...>;
        template<size_t I>
        static T at(size_t i) {
            if constexpr(I + 1 < sizeof...(Ts)) {
                if(i != I) {
                    return at<I + 1>(i);
                }
            }
            return T(std::in_place_index<I>,
                     ::make<std::variant_alternative_t<I, T>>());
        }
        static T make() {
            return at<0>(pick(sizeof...(Ts)));
        }
        static void dump(std::string& s, const T& x) {
            s += mc::strf("v%zu:", x.index());
            std::visit(
                [&](const auto& a) {
                    ::dump(s, a);
                },
                x);
        }
    };

    // aggregates, field by field
    template<typename T>
    struct fields;
#define FIELD_1(m, ...)                                                       \
    f(x.m);                                                                   \
    __VA_OPT__(FIELD_2(__VA_ARGS__))
#define FIELD_2(m, ...)                                                       \
    f(x.m);                                                                   \
    __VA_OPT__(FIELD_3(__VA_ARGS__))
#define FIELD_3(m, ...)                                                       \
    f(x.m);                                                                   \
    __VA_OPT__(FIELD_4(__VA_ARGS__))
#define FIELD_4(m, ...)                                                       \
    f(x.m);                                                                   \
    __VA_OPT__(FIELD_5(__VA_ARGS__))
#define FIELD_5(m) f(x.m);
    template<typename T>
    struct gen_struct {
        static T make() {
            T t{};
            fields<T>::each(t, [](auto& m) {
                m = ::make<std::remove_reference_t<decltype(m)>>();
            });
            return t;
        }
        static void dump(std::string& s, const T& x) {
            s += "<";
            fields<T>::each(x, [&](const auto& m) {
                ::dump(s, m);
            });
            s += ">";
        }
    };
#define STRUCT(type, ...)                                                     \
    template<>                                                                \
    struct fields<type> {                                                     \
        template<typename X, typename F>                                      \
        static void each([[maybe_unused]] X& x, [[maybe_unused]] F f) {       \
            __VA_OPT__(FIELD_1(__VA_ARGS__))                                  \
        }                                                                     \
    };                                                                        \
    template<>                                                                \
    struct gen<type> : gen_struct<type> {};

    namespace tr = transaction;
    namespace va = transaction::validation;
    namespace ls = locking_shard;
    namespace at = atomizer;
    namespace wt = watchtower;
    namespace rl = parsec::runtime_locking_shard;
    namespace co = coordinator;
    using rsi = rl::replicated_shard_interface;

    STRUCT(tr::out_point, m_tx_id, m_index)
    STRUCT(tr::output, m_witness_program_commitment, m_value)
    STRUCT(tr::input, m_prevout, m_prevout_data)
    STRUCT(tr::full_tx, m_inputs, m_outputs, m_witness)
    STRUCT(tr::compact_tx, m_id, m_inputs, m_uhs_outputs, m_attestations)
    STRUCT(va::input_error, m_code, m_data_err, m_idx)
    STRUCT(va::output_error, m_code, m_idx)
    STRUCT(va::witness_error, m_code, m_idx)
    STRUCT(sentinel::execute_request, m_inputs, m_outputs, m_witness)
    STRUCT(sentinel::validate_request, m_inputs, m_outputs, m_witness)
    STRUCT(sentinel::execute_response, m_tx_status, m_tx_error)
    STRUCT(ls::tx, m_tx)
    STRUCT(ls::rpc::discard_params)
    STRUCT(ls::rpc::apply_response)
    STRUCT(ls::rpc::discard_response)
    STRUCT(ls::rpc::request, m_dtx_id, m_params)
    STRUCT(ls::rpc::uhs_status_request, m_uhs_id)
    STRUCT(ls::rpc::tx_status_request, m_tx_id)
    STRUCT(co::controller::sm_command_header, m_comm, m_dtx_id)
    STRUCT(co::controller::coordinator_state,
           m_prepare_txs,
           m_commit_txs,
           m_discard_txs)
    STRUCT(at::tx_notify_request, m_tx, m_attestations, m_block_height)
    STRUCT(at::aggregate_tx_notification, m_tx, m_oldest_attestation)
    STRUCT(at::aggregate_tx_notify_request, m_agg_txs)
    STRUCT(at::make_block_request)
    STRUCT(at::prune_request, m_block_height)
    STRUCT(at::get_block_request, m_block_height)
    STRUCT(at::block, m_height, m_transactions)
    STRUCT(at::make_block_response, m_blk, m_errs)
    STRUCT(at::get_block_response, m_blk)
    STRUCT(parsec::agent::rpc::exec_request,
           m_function,
           m_param,
           m_is_readonly_run)
    STRUCT(rl::wounded_details, m_wounding_ticket, m_wounding_key)
    STRUCT(rl::shard_error, m_error_code, m_wounded_details)
    STRUCT(rl::rpc::try_lock_request,
           m_ticket_number,
           m_broker_id,
           m_key,
           m_locktype,
           m_first_lock)
    STRUCT(rl::rpc::prepare_request,
           m_ticket_number,
           m_state_updates,
           m_broker_id)
    STRUCT(rl::rpc::commit_request, m_ticket_number)
    STRUCT(rl::rpc::rollback_request, m_ticket_number)
    STRUCT(rl::rpc::finish_request, m_ticket_number)
    STRUCT(rl::rpc::get_tickets_request, m_broker_id)
    STRUCT(rl::rpc::replicated_prepare_request,
           m_ticket_number,
           m_broker_id,
           m_state_update)
    STRUCT(rl::rpc::replicated_get_tickets_request)
    STRUCT(rsi::ticket_type, m_broker_id, m_state_update, m_state)
    STRUCT(rpc::header, m_request_id)
    template<typename T>
    struct fields<rpc::request<T>> {
        template<typename X, typename F>
        static void each(X& x, F f) {
            f(x.m_header);
            f(x.m_payload);
        }
    };
    template<typename T>
    struct gen<rpc::request<T>> : gen_struct<rpc::request<T>> {};
    template<typename T>
    struct fields<rpc::response<T>> {
        template<typename X, typename F>
        static void each(X& x, F f) {
            f(x.m_header);
            f(x.m_payload);
        }
    };
    template<typename T>
    struct gen<rpc::response<T>> : gen_struct<rpc::response<T>> {};

    // classes
#define OPAQUE(type, ...)                                                     \
    template<>                                                                \
    struct gen<type> {                                                        \
        static type make() {                                                  \
            return type();                                                    \
        }                                                                     \
        static void dump(std::string& s, const type&) {                       \
            s += #type;                                                       \
        }                                                                     \
    };
    OPAQUE(wt::tx_error_sync)
    OPAQUE(wt::tx_error_stxo_range)
    OPAQUE(wt::tx_error_incomplete)
    OPAQUE(wt::best_block_height_request)
#define WRAP(type, arg, get)                                                  \
    template<>                                                                \
    struct gen<type> {                                                        \
        using A = arg;                                                        \
        static type make() {                                                  \
            return type(::make<A>());                                         \
        }                                                                     \
        static void dump(std::string& s, const type& x) {                     \
            s += "w";                                                         \
            const A a = x.get();                                              \
            ::dump(s, a);                                                     \
        }                                                                     \
    };
    using ids_t = std::unordered_set<hash_t, hashing::null>;
    WRAP(wt::tx_error_inputs_dne, std::vector<hash_t>, input_uhs_ids)
    WRAP(wt::tx_error_inputs_spent, ids_t, input_uhs_ids)
    WRAP(wt::best_block_height_response, uint64_t, height)
    WRAP(wt::status_update_request, wt::tx_id_uhs_ids, uhs_ids)
    template<>
    struct gen<wt::status_update_state> {
        static wt::status_update_state make() {
            auto s = ::make<wt::search_status>();
            auto h = ::make<uint64_t>();
            return {s, h, ::make<hash_t>()};
        }
        static void dump(std::string& s, const wt::status_update_state& x) {
            ::dump(s, x.status());
            ::dump(s, x.block_height());
            ::dump(s, x.uhs_id());
        }
    };
    WRAP(wt::status_request_check_success, wt::tx_id_states, states)
    WRAP(wt::request, wt::request::request_t, payload)
    WRAP(wt::response, wt::response::response_t, payload)
    template<>
    struct gen<wt::tx_error> {
        static wt::tx_error make() {
            auto id = ::make<hash_t>();
            auto i = ::make<wt::tx_error_info>();
            return std::visit(
                [&](const auto& e) {
                    return wt::tx_error(id, e);
                },
                i);
        }
        static void dump(std::string& s, const wt::tx_error& x) {
            ::dump(s, x.tx_id());
            ::dump(s, x.info());
        }
    };
    // a command is read as its header, then its payload
    struct command : co::controller::sm_command {};
    using cmd_t = co::state_machine::command;
    template<>
    struct gen<command> {
        static command make() {
            command c;
            c.m_header = ::make<co::controller::sm_command_header>();
            if(c.m_header.m_comm == cmd_t::prepare) {
                c.m_data = ::make<co::controller::prepare_tx>();
            } else if(c.m_header.m_comm == cmd_t::commit) {
                c.m_data = ::make<co::controller::commit_tx>();
            }
            return c;
        }
        static void dump(std::string& s, const command& x) {
            ::dump(s, x.m_header);
            ::dump(s, x.m_data);
        }
    };
    cbdc::serializer& operator>>(cbdc::serializer& d, command& c) {
        if(!(d >> c.m_header)) {
            return d;
        }
        if(c.m_header.m_comm == cmd_t::prepare) {
            co::controller::prepare_tx t;
            d >> t;
            c.m_data = std::move(t);
        } else if(c.m_header.m_comm == cmd_t::commit) {
            co::controller::commit_tx t;
            d >> t;
            c.m_data = std::move(t);
        }
        return d;
    }

    // ---- the judgement --------------------------------------------------
    template<typename T>
    std::optional<T> read_one(serializer& d) {
        if constexpr(std::is_default_constructible_v<T>) {
            T t{};
            d >> t;
            if(!d) {
                return std::nullopt;
            }
            return t;
        } else {
            T t(d);
            if(!d) {
                return std::nullopt;
            }
            return t;
        }
    }
    enum back_end {
        in_buffer,
        in_stream,
        in_nuraft
    };
    const char* bn[]{"buffer", "stream", "nuraft"};
    // Reads one T from the bytes; whether it ends exactly at their end.
    template<typename T>
    std::optional<T> read(back_end e, const std::string& bytes, bool* end) {
        auto fin = [&](serializer& d) {
            auto r = read_one<T>(d);
            if(end != nullptr) {
                *end = r && d.end_of_buffer();
            }
            return r;
        };
        switch(e) {
            case in_buffer: {
                buffer b;
                b.append(bytes.data(), bytes.size());
                buffer_serializer d(b);
                return fin(d);
            }
            case in_stream: {
                std::istringstream is(bytes);
                istream_serializer d(is);
                return fin(d);
            }
            default: {
                auto b = nuraft::buffer::alloc(bytes.size());
                if(!bytes.empty()) {
                    b->put_raw(
                        reinterpret_cast<const nuraft::byte*>(bytes.data()),
                        bytes.size());
                }
                b->pos(0);
                nuraft_serializer d(*b);
                return fin(d);
            }
        }
    }
    std::string str(const buffer& b) {
        return {b.c_str(), b.size()};
    }
    // Remembers where the fields of a serialization are.
    class recorder final : public serializer {
      public:
        std::string m_out;
        std::vector<std::pair<size_t, size_t>> m_w;
        explicit operator bool() const final {
            return true;
        }
        void advance_cursor(size_t) final {}
        void reset() final {}
        void invalidate() {}
        bool end_of_buffer() const final {
            return false;
        }
        bool write(const void* d, size_t n) final {
            m_w.emplace_back(m_out.size(), n);
            m_out.append(static_cast<const char*>(d), n);
            return true;
        }
        bool read(void*, size_t) final {
            return false;
        }
    };

    std::string hex(const std::string& s) {
        std::string r;
        for(unsigned char x : s.substr(0, 100)) {
            r += mc::strf("%02x", x);
        }
        return r + (s.size() > 100 ? ".." : "");
    }
    template<typename T>
    void check(mc::ctx& c, const char* name, bool mutate) {
        C = &c;
        const T v = make<T>();
        std::string want;
        dump(want, v);
        auto fail = [&](const char* key, const std::string& m) {
            c.fail(key,
                   "%s: %s; value %s",
                   name,
                   m.c_str(),
                   want.substr(0, 400).c_str());
        };
        const auto bytes = str(make_buffer(v));
        if(serialized_size(v) != bytes.size()) {
            return fail("size", "computed size differs");
        }
        {
            std::ostringstream os;
            ostream_serializer s(os);
            s << v;
            if(!s || os.str() != bytes) {
                return fail("stream-write", "stream serializer differs");
            }
            auto b = nuraft::buffer::alloc(bytes.size());
            nuraft_serializer n(*b);
            n << v;
            if(!n || !n.end_of_buffer()
               || (!bytes.empty()
                   && memcmp(b->data_begin(), bytes.data(), bytes.size())
                          != 0)) {
                return fail("nuraft-write", "nuraft serializer differs");
            }
            if(!bytes.empty()) {
                auto sh = nuraft::buffer::alloc(bytes.size() - 1);
                nuraft_serializer m(*sh);
                m << v;
                if(m) {
                    return fail("nuraft-short",
                                "a buffer too small is reported as success");
                }
            }
            auto sb = make_shared_buffer(v);
            if(str(*sb) != bytes) {
                return fail("shared", "make_shared_buffer differs");
            }
        }
        recorder rec;
        rec << v;
        g_watch = true;
        for(auto e : {in_buffer, in_stream, in_nuraft}) {
            bool end{};
            auto r = read<T>(e, bytes, &end);
            if(!r) {
                return fail("rejected", std::string("not readable: ") + bn[e]);
            }
            std::string got;
            dump(got, *r);
            if(got != want) {
                return fail("round-trip",
                            std::string(bn[e]) + " gives "
                                + got.substr(0, 400));
            }
            if(!end) {
                return fail("consumed", std::string("bytes left: ") + bn[e]);
            }
            // followed by something else
            auto two = bytes + "\x07";
            r = read<T>(e, two, &end);
            got.clear();
            if(r) {
                dump(got, *r);
            }
            if(got != want || end) {
                return fail("consumed",
                            std::string("reads past its end: ") + bn[e]);
            }
            for(size_t k = 0; k < bytes.size(); k++) {
                if(read<T>(e, bytes.substr(0, k), nullptr)) {
                    return fail("prefix",
                                mc::strf("%zu of %zu bytes are accepted: %s",
                                         k,
                                         bytes.size(),
                                         bn[e]));
                }
            }
        }
        uint64_t tried = 0;
        if(mutate) {
            for(auto& [at, n] : rec.m_w) {
                if(n == 8) {
                    uint64_t was{};
                    memcpy(&was, bytes.data() + at, 8);
                    for(uint64_t x : {was + 1,
                                      was + 2,
                                      uint64_t{1} << 20,
                                      uint64_t{1} << 32,
                                      uint64_t{1} << 61,
                                      uint64_t{1} << 63,
                                      ~uint64_t{0} - 7,
                                      ~uint64_t{0}}) {
                        auto m = bytes;
                        memcpy(m.data() + at, &x, 8);
                        for(auto e : {in_buffer, in_stream, in_nuraft}) {
                            bool end{};
                            g_largest = 0;
                            auto r = read<T>(e, m, &end);
                            auto big = g_largest;
                            tried++;
                            if(big > (3U << 20) + 4 * m.size()) {
                                return fail(
                                    "allocation",
                                    mc::strf("allocates %zu bytes for a "
                                             "message of %zu: %s",
                                             big,
                                             m.size(),
                                             bn[e]));
                            }
                            if(!r) {
                                continue;
                            }
                            // a number: it is what was written
                            recorder again;
                            again << *r;
                            std::string a = again.m_out, b = m;
                            std::sort(a.begin(), a.end());
                            std::sort(b.begin(), b.end());
                            // (equal keys collapse: shorter)
                            if(x >= uint64_t{1} << 20 && end
                               && a.size() == b.size() && a != b) {
                                return fail(
                                    "length",
                                    mc::strf("a field of %llu at %zu is read "
                                             "as something else: %s as %s",
                                             (unsigned long long)x,
                                             at,
                                             hex(m).c_str(),
                                             hex(again.m_out).c_str()));
                            }
                        }
                    }
                } else if(n == 1 || n == 4) {
                    for(int x = 0; x < 256; x++) {
                        if(!mc::thorough() && x > 12 && x < 252 && x != 127
                           && x != 128) {
                            continue;
                        }
                        auto m = bytes;
                        m[at] = char(x);
                        for(auto e : {in_buffer, in_stream, in_nuraft}) {
                            auto r = read<T>(e, m, nullptr);
                            tried++;
                            if(r) {
                                std::string d;
                                dump(d, *r);
                            }
                        }
                    }
                }
            }
        }
        g_watch = false;
        c.agreed(bytes.size() + tried);
        c.outcome(mc::strf("%s %zu", name, bytes.size()));
    }
    // Around the sizes at which memory is reserved piecewise.
    template<typename T>
    void large(mc::ctx& c, const char* name, size_t per) {
        C = &c;
        size_t chunk = config::maximum_reservation / per;
        size_t n = std::vector<size_t>{chunk - 1, chunk, chunk + 1,
                                       2 * chunk, 2 * chunk + 1}[c.choose(5)];
        std::string bytes;
        uint64_t len = n;
        bytes.append(reinterpret_cast<char*>(&len), 8);
        for(size_t i = 0; i < n * per; i++) {
            // distinct keys for maps and sets
            bytes.push_back(char((i % per) < 4 ? (i / per) >> (8 * (i % per))
                                               : i % 251));
        }
        for(auto e : {in_buffer, in_stream, in_nuraft}) {
            bool end{};
            auto r = read<T>(e, bytes, &end);
            if(!r || !end || r->size() != n) {
                c.fail("large", "%s of %zu is not read: %s", name, n, bn[e]);
                return;
            }
            auto back = str(make_buffer(*r));
            if(back.size() != bytes.size()) {
                c.fail("large", "%s of %zu changes: %s", name, n, bn[e]);
                return;
            }
            if constexpr(std::is_same_v<T, buffer>
                         || std::is_same_v<T, std::vector<uint64_t>>) {
                if(back != bytes) {
                    c.fail("large", "%s of %zu changes: %s", name, n, bn[e]);
                    return;
                }
            }
            for(size_t cut : {size_t(1), per, chunk * per, chunk * per + 1}) {
                if(cut < bytes.size()
                   && read<T>(e,
                              bytes.substr(0, bytes.size() - cut),
                              nullptr)) {
                    c.fail("large", "%s of %zu cut short: %s", name, n, bn[e]);
                    return;
                }
            }
        }
        c.agreed();
        c.outcome(mc::strf("%s %zu", name, n));
    }
    // ---- the serializers themselves --------------------------------------
    // Every sequence of operations, against a byte string with a position.
    struct model {
        std::string data;
        size_t pos{};
        bool ok{true};
    };
    void ops_on(mc::ctx& c, int kind, uint32_t depth) {
        static const size_t lens[]{0, 1, 3};
        std::string start("\x11\x22\x33\x44", 4);
        model m;
        buffer b;
        std::istringstream is(start);
        std::ostringstream os;
        std::unique_ptr<serializer> d;
        bool reads = kind == 0 || kind == 1;
        bool writes = kind == 0 || kind == 2 || kind == 3;
        if(kind == 0) {
            m.data = start;
            b.append(start.data(), start.size());
            d = std::make_unique<buffer_serializer>(b);
        } else if(kind == 1) {
            m.data = start;
            d = std::make_unique<istream_serializer>(is);
        } else if(kind == 2) {
            d = std::make_unique<ostream_serializer>(os);
        } else {
            d = std::make_unique<size_serializer>();
        }
        std::string did;
        uint8_t next = 0xa0;
        auto bad = [&](const char* key, const std::string& what) {
            c.fail(key,
                   "%s serializer: %s after %s",
                   kind == 0   ? "buffer"
                   : kind == 1 ? "istream"
                   : kind == 2 ? "ostream"
                               : "size",
                   what.c_str(),
                   did.c_str());
        };
        for(uint32_t i = 0; i < depth; i++) {
            // Failed: only a reset brings it back.
            auto op = m.ok ? c.choose(5, "operation") : 4;
            if(op == 0) {
                if(!writes) {
                    return;
                }
                auto n = lens[c.choose(3, "length")];
                std::string w;
                for(size_t k = 0; k < n; k++) {
                    w.push_back(char(next++));
                }
                did += mc::strf(" write(%zu)", n);
                if(!d->write(w.data(), n)) {
                    return bad("op-write", "refused");
                }
                if(m.pos + n > m.data.size()) {
                    m.data.resize(m.pos + n);
                }
                m.data.replace(m.pos, n, w);
                m.pos += n;
            } else if(op == 1) {
                if(!reads) {
                    return;
                }
                auto k = c.choose(kind == 0 ? 6 : 4, "length");
                size_t n = k < 3 ? lens[k]
                         : k == 3 ? 9
                         : k == 4 ? ~size_t{0}
                                  : ~size_t{0} - 2;
                did += mc::strf(" read(%zu)", n);
                char to[16] = {};
                bool can = n <= m.data.size() - m.pos;
                if(d->read(to, n) != can) {
                    return bad("op-read", can ? "refused" : "accepted");
                }
                if(can) {
                    if(m.data.compare(m.pos, n, to, n) != 0) {
                        return bad("op-read", "other bytes");
                    }
                    m.pos += n;
                } else {
                    m.ok = false;
                }
            } else if(op == 2) {
                if(kind == 2) {
                    return; // seeking in an output: not portable
                }
                auto left = m.data.size() - m.pos;
                if(left == 0 && kind != 3) {
                    return;
                }
                did += " advance(1)";
                d->advance_cursor(1);
                m.pos++;
                if(kind == 3) {
                    m.data.resize(std::max(m.data.size(), m.pos));
                }
            } else if(op == 3) {
                if(kind == 3) {
                    return;
                }
                did += " invalidate";
                d->invalidate();
                m.ok = false;
            } else {
                did += " reset";
                d->reset();
                m.pos = 0;
                m.ok = true;
            }
            if(bool(*d) != m.ok) {
                return bad("op-state", m.ok ? "invalid" : "valid");
            }
            if(m.ok && kind != 3) {
                // looking does not move
                for(int k = 0; k < 2; k++) {
                    if(d->end_of_buffer() != (m.pos >= m.data.size())) {
                        return bad("op-end", "wrong end of buffer");
                    }
                }
            }
            if(kind == 3
               && static_cast<size_serializer&>(*d).size() != m.pos) {
                return bad("op-size", "wrong size");
            }
            if(kind == 0 && str(b) != m.data) {
                return bad("op-data", "buffer holds " + hex(str(b)));
            }
            if(kind == 2 && m.ok && os.str() != m.data) {
                return bad("op-data", "stream holds " + hex(os.str()));
            }
        }
        c.agreed();
        c.outcome(mc::strf("%zu %d", m.pos, int(m.ok)));
    }
    // The alternatives of a variant are numbered from 0: every other number
    // is rejected.
    template<typename T>
    void tags(mc::ctx& c, const char* name, size_t at, unsigned n) {
        C = &c;
        const T v = make<T>();
        auto bytes = str(make_buffer(v)) + std::string(400, '\0');
        if(uint8_t(bytes[at]) >= n) {
            c.fail("tag", "%s: number %u written", name, uint8_t(bytes[at]));
            return;
        }
        for(unsigned x = n; x < 256; x++) {
            bytes[at] = char(x);
            for(auto e : {in_buffer, in_stream, in_nuraft}) {
                if(read<T>(e, bytes, nullptr)) {
                    c.fail("tag",
                           "%s: alternative %u of %u accepted: %s",
                           name,
                           x,
                           n,
                           bn[e]);
                    return;
                }
            }
        }
        c.agreed(256);
        c.outcome(name);
    }
    // What an object held before it is read into does not show.
    template<typename T>
    void reused(mc::ctx& c, const char* name) {
        C = &c;
        T was = make<T>();
        const T v = make<T>();
        std::string want, got;
        dump(want, v);
        auto b = make_buffer(v);
        buffer_serializer d(b);
        d >> was;
        dump(got, was);
        if(!d || got != want) {
            c.fail("reused",
                   "%s read into a used object: %s, not %s",
                   name,
                   got.substr(0, 200).c_str(),
                   want.substr(0, 200).c_str());
            return;
        }
        c.agreed();
        c.outcome(got.substr(0, 100));
    }
    void flags(mc::ctx& c) {
        auto x = c.choose(256, "byte");
        for(auto e : {in_buffer, in_stream, in_nuraft}) {
            auto r = read<bool>(e, std::string(1, char(x)), nullptr);
            if(!r) {
                continue;
            }
            uint8_t raw{};
            memcpy(&raw, &*r, 1);
            if(raw > 1 || (raw == 1) != (x != 0)) {
                c.fail("flag", "byte %u is read as a flag of %u", x, raw);
                return;
            }
        }
        c.agreed();
        c.outcome(x != 0 ? "set" : "not set");
    }
}

int main(int argc, char** argv) {
    bool th = mc::thorough();
    std::vector<mc::scenario> s;
#define T(bound, ...)                                                         \
    s.push_back({#__VA_ARGS__,                                                \
                 [](mc::ctx& c) {                                             \
                     check<__VA_ARGS__>(c, #__VA_ARGS__, true);               \
                 },                                                           \
                 uint32_t(bound - (th ? 0 : 1)),                              \
                 8,                                                           \
                 mc::by_deviation,                                            \
                 "values that differ in at most so many choices from the "    \
                 "smallest one"});
    using full_map
        = std::unordered_map<hash_t, tr::full_tx, hashing::const_sip_hash<hash_t>>;
    using op_map = std::
        unordered_map<hash_t, tr::input, hashing::const_sip_hash<hash_t>>;
    T(4, tr::full_tx)
    T(4, tr::compact_tx)
    T(4, va::tx_error)
    T(3, full_map)
    T(3, op_map)
    T(3, rpc::request<sentinel::request>)
    T(4, rpc::response<sentinel::response>)
    T(4, rpc::request<co::rpc::request>)
    T(4, rpc::response<co::rpc::response>)
    T(4, command)
    T(4, rpc::request<ls::rpc::request>)
    T(4, rpc::response<ls::rpc::response>)
    T(4, rpc::request<ls::rpc::status_request>)
    T(4, rpc::response<ls::rpc::status_response>)
    T(4, rpc::request<at::request>)
    T(4, at::state_machine::request)
    T(4, at::state_machine::response)
    T(4, at::aggregate_tx_notify_request)
    T(4, at::block)
    T(3, at::state_machine::blockstore_t)
    T(4, wt::tx_error)
    T(3, at::errors)
    T(4, wt::request)
    T(4, wt::response)
    T(4, rpc::request<parsec::agent::rpc::request>)
    T(4, rpc::response<parsec::agent::rpc::response>)
    T(4, rpc::request<rl::rpc::request>)
    T(4, rpc::response<rl::rpc::response>)
    T(4, rl::rpc::replicated_request)
    T(4, rl::rpc::replicated_response)
    T(4, rpc::request<parsec::ticket_machine::rpc::request>)
    T(4, rpc::response<parsec::ticket_machine::rpc::response>)
    T(4, std::set<uint64_t>)
    T(4, std::vector<std::vector<uint64_t>>)
    T(4, std::vector<std::byte>)
#define L(per, ...)                                                           \
    s.push_back({"large " #__VA_ARGS__,                                       \
                 [](mc::ctx& c) {                                             \
                     large<__VA_ARGS__>(c, #__VA_ARGS__, per);                \
                 },                                                           \
                 0,                                                           \
                 1,                                                           \
                 1,                                                           \
                 "sizes around the multiples of what is reserved at once"});
    using hs = std::unordered_set<hash_t, hashing::const_sip_hash<hash_t>>;
    using hm = std::
        unordered_map<hash_t, uint64_t, hashing::const_sip_hash<hash_t>>;
    L(1, buffer)
    L(8, std::vector<uint64_t>)
    L(32, hs)
    L(40, hm)
    const char* kinds[]{"buffer", "istream", "ostream", "size"};
    uint32_t depth = th ? 7 : 5;
    for(int k = 0; k < 4; k++) {
        s.push_back({mc::strf("operations on the %s serializer", kinds[k]),
                     [=](mc::ctx& c) {
                         ops_on(c, k, depth);
                     },
                     0,
                     8,
                     4,
                     mc::strf("every sequence of %u operations", depth)});
    }
    s.push_back({"flags", flags, 0, 1, 1, "every byte"});
#define V(at, n, ...)                                                         \
    s.push_back({"tags " #__VA_ARGS__,                                        \
                 [](mc::ctx& c) {                                             \
                     tags<__VA_ARGS__>(c, #__VA_ARGS__, at, n);               \
                 },                                                           \
                 2,                                                           \
                 1,                                                           \
                 1,                                                           \
                 "every number that is not an alternative"});
    using var3 = std::variant<uint64_t, bool, buffer>;
    V(0, 3, var3)
    V(0, 2, wt::request)
    V(0, 2, wt::response)
    V(32, 5, wt::tx_error)
#define R(...)                                                                \
    s.push_back({"reused " #__VA_ARGS__,                                      \
                 [](mc::ctx& c) {                                             \
                     reused<__VA_ARGS__>(c, #__VA_ARGS__);                    \
                 },                                                           \
                 6,                                                           \
                 1,                                                           \
                 1,                                                           \
                 "every pair of values"});
    using ou = std::optional<uint64_t>;
    using pu = std::pair<uint64_t, std::optional<bool>>;
    R(bool)
    R(uint64_t)
    R(hash_t)
    R(buffer)
    R(ou)
    R(pu)
    R(var3)
    R(std::optional<hash_t>)
    R(std::optional<buffer>)
    R(tr::out_point)
    R(rpc::response<uint64_t>)
    return mc::main(argc,
                    argv,
                    "C23",
                    "model_checking",
                    "every value of each type within the bound, every strict "
                    "prefix, every one-byte field value, boundary values of "
                    "every 8-byte field, three back ends",
                    {},
                    s);
}
