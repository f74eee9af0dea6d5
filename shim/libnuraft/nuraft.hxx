// Stand-in for the parts of eBay NuRaft's API that opencbdc-tx uses (the
// library itself is not available offline). Only the data types and the
// single-node "replicate" path are modelled; what happens to a replicated
// entry is decided by the harness through nuraft::shim hooks.
#ifndef VERIF_SHIM_NURAFT_HXX
#define VERIF_SHIM_NURAFT_HXX
#include <atomic>
#include <cassert>
#include <cstdint>
#include <cstring>
#include <exception>
#include <functional>
#include <list>
#include <memory>
#include <mutex>
#include <string>
#include <vector>

namespace nuraft {
    using ulong = uint64_t;
    using byte = unsigned char;
    using int32 = int32_t;
    template<typename T>
    using ptr = std::shared_ptr<T>;
    template<typename T, typename... A>
    inline ptr<T> cs_new(A&&... a) {
        return std::make_shared<T>(std::forward<A>(a)...);
    }

    class buffer {
      public:
        explicit buffer(size_t n) : m_d(n) {}
        buffer(const buffer&) = delete;
        buffer& operator=(const buffer&) = delete;
        static ptr<buffer> alloc(size_t n) {
            return std::make_shared<buffer>(n);
        }
        // copy: from the current position; clone: all of it
        static ptr<buffer> copy(const buffer& b) {
            auto r = alloc(b.m_d.size() - b.m_pos);
            r->m_d.assign(b.m_d.begin() + long(b.m_pos), b.m_d.end());
            return r;
        }
        static ptr<buffer> clone(const buffer& b) {
            auto r = alloc(b.m_d.size());
            r->m_d = b.m_d;
            return r;
        }
        size_t container_size() const {
            return m_d.size();
        }
        size_t size() const {
            return m_d.size();
        }
        size_t pos() const {
            return m_pos;
        }
        void pos(size_t p) {
            m_pos = p < m_d.size() ? p : m_d.size();
        }
        byte* data() {
            return m_d.data() + m_pos;
        }
        byte* data_begin() const {
            return const_cast<byte*>(m_d.data());
        }
        void put_raw(const byte* d, size_t n) {
            assert(m_pos + n <= m_d.size());
            if(n != 0) {
                std::memcpy(m_d.data() + m_pos, d, n);
            }
            m_pos += n;
        }
        void put(ulong v) {
            put_raw(reinterpret_cast<byte*>(&v), sizeof v);
        }
        byte* get_raw(size_t n) {
            assert(m_pos + n <= m_d.size());
            auto* r = m_d.data() + m_pos;
            m_pos += n;
            return r;
        }

      private:
        std::vector<byte> m_d;
        size_t m_pos{0};
    };

    class buffer_serializer {
      public:
        explicit buffer_serializer(ptr<buffer>& b) : m_b(*b) {
            m_p = 0;
        }
        explicit buffer_serializer(buffer& b) : m_b(b) {}
        void put_u64(uint64_t v) {
            put_raw(&v, 8);
        }
        void put_i32(int32_t v) {
            put_raw(&v, 4);
        }
        void put_u8(uint8_t v) {
            put_raw(&v, 1);
        }
        void put_raw(const void* d, size_t n) {
            assert(m_p + n <= m_b.size());
            if(n != 0) {
                std::memcpy(m_b.data_begin() + m_p, d, n);
            }
            m_p += n;
        }
        void put_str(const std::string& s) {
            put_u64(s.size());
            put_raw(s.data(), s.size());
        }
        uint64_t get_u64() {
            uint64_t v{};
            get(&v, 8);
            return v;
        }
        int32_t get_i32() {
            int32_t v{};
            get(&v, 4);
            return v;
        }
        uint8_t get_u8() {
            uint8_t v{};
            get(&v, 1);
            return v;
        }
        std::string get_str() {
            std::string s(get_u64(), '\0');
            get(s.data(), s.size());
            return s;
        }
        void get_buffer(ptr<buffer>& dst) {
            get(dst->data_begin(), dst->size());
        }

      private:
        void get(void* d, size_t n) {
            assert(m_p + n <= m_b.size());
            if(n != 0) {
                std::memcpy(d, m_b.data_begin() + m_p, n);
            }
            m_p += n;
        }
        buffer& m_b;
        size_t m_p{0};
    };

    enum log_val_type : byte { app_log = 1, conf = 2 };

    class log_entry {
      public:
        log_entry(ulong term,
                  const ptr<buffer>& b,
                  log_val_type t = app_log)
            : m_term(term), m_t(t), m_b(b) {}
        ulong get_term() const {
            return m_term;
        }
        void set_term(ulong t) {
            m_term = t;
        }
        log_val_type get_val_type() const {
            return m_t;
        }
        bool is_buf_null() const {
            return !m_b;
        }
        buffer& get_buf() const {
            return *m_b;
        }
        ptr<buffer> get_buf_ptr() const {
            return m_b;
        }
        ptr<buffer> serialize() {
            auto r = buffer::alloc(9 + (m_b ? m_b->size() : 0));
            buffer_serializer s(r);
            s.put_u64(m_term);
            s.put_u8(m_t);
            if(m_b) {
                s.put_raw(m_b->data_begin(), m_b->size());
            }
            return r;
        }
        static ptr<log_entry> deserialize(buffer& b) {
            assert(b.size() >= 9);
            buffer_serializer s(b);
            auto term = s.get_u64();
            auto t = static_cast<log_val_type>(s.get_u8());
            auto d = buffer::alloc(b.size() - 9);
            s.get_buffer(d);
            return cs_new<log_entry>(term, d, t);
        }

      private:
        ulong m_term;
        log_val_type m_t;
        ptr<buffer> m_b;
    };

    class srv_config {
      public:
        srv_config(int32_t id, const std::string& ep) : m_id(id), m_ep(ep) {}
        int32_t get_id() const {
            return m_id;
        }
        const std::string& get_endpoint() const {
            return m_ep;
        }
        void set_priority(int32_t p) {
            m_prio = p;
        }
        int32_t get_priority() const {
            return m_prio;
        }

      private:
        int32_t m_id;
        std::string m_ep;
        int32_t m_prio{1};
    };

    class cluster_config {
      public:
        explicit cluster_config(ulong log_idx = 0, ulong prev = 0)
            : m_idx(log_idx), m_prev(prev) {}
        ulong get_log_idx() const {
            return m_idx;
        }
        ulong get_prev_log_idx() const {
            return m_prev;
        }
        std::list<ptr<srv_config>>& get_servers() {
            return m_srv;
        }
        const std::list<ptr<srv_config>>& get_servers() const {
            return m_srv;
        }
        ptr<buffer> serialize() const {
            size_t sz = 24;
            for(auto& s : m_srv) {
                sz += 16 + s->get_endpoint().size();
            }
            auto r = buffer::alloc(sz);
            buffer_serializer b(r);
            b.put_u64(m_idx);
            b.put_u64(m_prev);
            b.put_u64(m_srv.size());
            for(auto& s : m_srv) {
                b.put_i32(s->get_id());
                b.put_i32(s->get_priority());
                b.put_str(s->get_endpoint());
            }
            return r;
        }
        static ptr<cluster_config> deserialize(buffer& bu) {
            buffer_serializer b(bu);
            auto i = b.get_u64();
            auto p = b.get_u64();
            auto r = cs_new<cluster_config>(i, p);
            auto n = b.get_u64();
            for(uint64_t k = 0; k < n; k++) {
                auto id = b.get_i32();
                auto pr = b.get_i32();
                auto s = cs_new<srv_config>(id, b.get_str());
                s->set_priority(pr);
                r->m_srv.push_back(s);
            }
            return r;
        }

      private:
        ulong m_idx;
        ulong m_prev;
        std::list<ptr<srv_config>> m_srv;
    };

    class srv_state {
      public:
        srv_state() = default;
        srv_state(ulong term, int voted, bool et)
            : m_term(term), m_voted(voted), m_et(et) {}
        ulong get_term() const {
            return m_term;
        }
        int get_voted_for() const {
            return m_voted;
        }
        bool is_election_timer_allowed() const {
            return m_et;
        }
        ptr<buffer> serialize() const {
            auto r = buffer::alloc(13);
            buffer_serializer b(r);
            b.put_u64(m_term);
            b.put_i32(m_voted);
            b.put_u8(m_et ? 1 : 0);
            return r;
        }
        static ptr<srv_state> deserialize(buffer& bu) {
            buffer_serializer b(bu);
            auto t = b.get_u64();
            auto v = b.get_i32();
            auto e = b.get_u8();
            return cs_new<srv_state>(t, v, e != 0);
        }

      private:
        ulong m_term{0};
        int m_voted{-1};
        bool m_et{true};
    };

    class snapshot {
      public:
        snapshot(ulong idx,
                 ulong term,
                 const ptr<cluster_config>& cfg,
                 ulong size = 0)
            : m_idx(idx), m_term(term), m_size(size), m_cfg(cfg) {}
        ulong get_last_log_idx() const {
            return m_idx;
        }
        ulong get_last_log_term() const {
            return m_term;
        }
        ulong size() const {
            return m_size;
        }
        void set_size(ulong s) {
            m_size = s;
        }
        ptr<buffer> serialize() const {
            auto c = m_cfg ? m_cfg->serialize() : buffer::alloc(0);
            auto r = buffer::alloc(32 + c->size());
            buffer_serializer b(r);
            b.put_u64(m_idx);
            b.put_u64(m_term);
            b.put_u64(m_size);
            b.put_u64(c->size());
            b.put_raw(c->data_begin(), c->size());
            return r;
        }
        static ptr<snapshot> deserialize(buffer& bu) {
            buffer_serializer b(bu);
            auto i = b.get_u64();
            auto t = b.get_u64();
            auto s = b.get_u64();
            auto n = b.get_u64();
            ptr<cluster_config> c;
            if(n != 0) {
                auto cb = buffer::alloc(n);
                b.get_buffer(cb);
                c = cluster_config::deserialize(*cb);
            }
            return cs_new<snapshot>(i, t, c, s);
        }

      private:
        ulong m_idx;
        ulong m_term;
        ulong m_size;
        ptr<cluster_config> m_cfg;
    };

    enum cmd_result_code {
        OK = 0,
        CANCELLED = -1,
        TIMEOUT = -2,
        NOT_LEADER = -3,
        BAD_REQUEST = -4,
        SERVER_ALREADY_EXISTS = -5,
        CONFIG_CHANGING = -6,
        SERVER_IS_JOINING = -7,
        SERVER_NOT_FOUND = -8,
        CANNOT_REMOVE_LEADER = -9,
        SERVER_IS_LEAVING = -10,
        TERM_MISMATCH = -11,
        RESULT_NOT_EXIST_YET = -10000,
        FAILED = -32768,
    };

    template<typename T, typename TE = ptr<std::exception>>
    class cmd_result {
      public:
        using handler_type = std::function<void(cmd_result<T, TE>&, TE&)>;
        explicit cmd_result(T result) : m_res(std::move(result)) {
            m_has = true;
        }
        cmd_result() = default;
        void when_ready(const handler_type& h) {
            bool call = false;
            {
                std::lock_guard<std::mutex> g(m_l);
                if(m_has) {
                    call = true;
                } else {
                    m_h = h;
                }
            }
            if(call) {
                h(*this, m_err);
            }
        }
        void set_result(T res,
                        TE err,
                        cmd_result_code code = cmd_result_code::OK) {
            handler_type h;
            {
                std::lock_guard<std::mutex> g(m_l);
                m_res = std::move(res);
                m_err = std::move(err);
                m_has = true;
                m_code = code;
                h = m_h;
            }
            if(h) {
                h(*this, m_err);
            }
        }
        void accept() {
            m_acc = true;
        }
        bool get_accepted() const {
            return m_acc;
        }
        void set_result_code(cmd_result_code c) {
            m_code = c;
        }
        cmd_result_code get_result_code() const {
            if(m_has) {
                return m_code;
            }
            return RESULT_NOT_EXIST_YET;
        }
        T& get() {
            return m_res;
        }
        bool has_result() const {
            return m_has;
        }

      private:
        T m_res{};
        TE m_err{};
        bool m_has{false};
        bool m_acc{false};
        cmd_result_code m_code{OK};
        handler_type m_h;
        std::mutex m_l;
    };

    template<typename T, typename TE = ptr<std::exception>>
    using async_result = cmd_result<T, TE>;
    // NuRaft's async_result<bool>::handler_type is void(bool&, ptr<exc>&)
    // for create_snapshot; provided by this specialisation.
    template<>
    class cmd_result<bool, ptr<std::exception>> {
      public:
        using handler_type
            = std::function<void(bool&, ptr<std::exception>&)>;
    };

    struct cb_func {
        enum Type {
            ProcessReq = 1,
            GotAppendEntryRespFromPeer = 2,
            AppendLogs = 3,
            HeartBeat = 4,
            JoinedCluster = 5,
            BecomeLeader = 6,
            RequestAppendEntries = 7,
            SaveSnapshot = 8,
            NewConfig = 9,
            RemovedFromCluster = 10,
            BecomeFollower = 11,
            BecomeFresh = 12,
            BecomeStale = 13,
            GotAppendEntryReqFromLeader = 14,
            OutOfLogRangeWarning = 15,
            ConnectionOpened = 16,
            ConnectionClosed = 17,
            NewSessionFromLeader = 18,
            StateMachineExecution = 19,
        };
        struct Param {
            int32_t myId{-1};
            int32_t leaderId{-1};
            int32_t peerId{-1};
            void* ctx{nullptr};
        };
        enum ReturnCode { Ok = 0, ReturnNull = -1 };
        using func_type = std::function<ReturnCode(Type, Param*)>;
    };

    class state_machine {
      public:
        virtual ~state_machine() = default;
        virtual ptr<buffer> commit(const ulong log_idx, buffer& data) = 0;
        virtual void commit_config(const ulong /* log_idx */,
                                   ptr<cluster_config>& /* new_conf */) {}
        virtual ptr<buffer> pre_commit(const ulong, buffer&) {
            return nullptr;
        }
        virtual void rollback(const ulong, buffer&) {}
        virtual int read_logical_snp_obj(snapshot&,
                                         void*&,
                                         ulong,
                                         ptr<buffer>& data_out,
                                         bool& is_last_obj) {
            data_out = buffer::alloc(0);
            is_last_obj = true;
            return 0;
        }
        virtual void
        save_logical_snp_obj(snapshot&, ulong& obj_id, buffer&, bool, bool) {
            obj_id++;
        }
        virtual bool apply_snapshot(snapshot& s) = 0;
        virtual ptr<snapshot> last_snapshot() = 0;
        virtual ulong last_commit_index() = 0;
        virtual void
        create_snapshot(snapshot& s,
                        async_result<bool>::handler_type& when_done)
            = 0;
    };

    class log_store {
      public:
        virtual ~log_store() = default;
        virtual ulong next_slot() const = 0;
        virtual ulong start_index() const = 0;
        virtual ptr<log_entry> last_entry() const = 0;
        virtual ulong append(ptr<log_entry>& entry) = 0;
        virtual void write_at(ulong index, ptr<log_entry>& entry) = 0;
        virtual void end_of_append_batch(ulong, ulong) {}
        virtual ptr<std::vector<ptr<log_entry>>> log_entries(ulong start,
                                                             ulong end)
            = 0;
        virtual ptr<log_entry> entry_at(ulong index) = 0;
        virtual ulong term_at(ulong index) = 0;
        virtual ptr<buffer> pack(ulong index, int32 cnt) = 0;
        virtual void apply_pack(ulong index, buffer& pack) = 0;
        virtual bool compact(ulong last_log_index) = 0;
        virtual bool flush() = 0;
    };

    class state_mgr {
      public:
        virtual ~state_mgr() = default;
        virtual ptr<cluster_config> load_config() = 0;
        virtual void save_config(const cluster_config& config) = 0;
        virtual void save_state(const srv_state& state) = 0;
        virtual ptr<srv_state> read_state() = 0;
        virtual ptr<log_store> load_log_store() = 0;
        virtual int32 server_id() = 0;
        virtual void system_exit(const int exit_code) = 0;
    };

    class logger {
      public:
        virtual ~logger() = default;
        virtual void debug(const std::string&) {}
        virtual void put_details(int level,
                                 const char* source_file,
                                 const char* func_name,
                                 size_t line_number,
                                 const std::string& log_line)
            = 0;
        virtual void set_level(int) {}
        virtual int get_level() {
            return 6;
        }
    };

    struct raft_params {
        enum return_method_type { blocking = 0x0, async_handler = 0x1 };
        int32_t election_timeout_upper_bound_{500};
        int32_t election_timeout_lower_bound_{250};
        int32_t heart_beat_interval_{125};
        int32_t rpc_failure_backoff_{50};
        int32_t log_sync_batch_size_{1000};
        int32_t log_sync_stop_gap_{99999};
        int32_t snapshot_distance_{0};
        int32_t snapshot_block_size_{0};
        int32_t max_append_size_{100};
        int32_t reserved_log_items_{100000};
        int32_t client_req_timeout_{3000};
        bool auto_forwarding_{false};
        return_method_type return_method_{blocking};
    };

    struct asio_service {
        struct options {
            size_t thread_pool_size_{0};
        };
    };

    class raft_server;
    namespace shim {
        // Called for each append_entries; default executes the entry on the
        // server's own state machine and completes at once.
        using append_hook
            = std::function<ptr<cmd_result<ptr<buffer>>>(raft_server&,
                                                         const ptr<buffer>&)>;
    }

    class raft_server {
      public:
        struct init_options {
            cb_func::func_type raft_callback_;
            bool skip_initial_election_timeout_{false};
            bool start_server_in_constructor_{true};
            bool test_mode_flag_{false};
        };
        raft_server(ptr<state_machine> sm,
                    raft_params p,
                    cb_func::func_type cb)
            : m_sm(std::move(sm)), m_params(p), m_cb(std::move(cb)) {}
        bool is_initialized() const {
            return true;
        }
        bool is_leader() const {
            return m_leader;
        }
        void shutdown() {}
        ptr<cmd_result<ptr<buffer>>>
        append_entries(const std::vector<ptr<buffer>>& logs) {
            assert(logs.size() == 1);
            if(m_append) {
                return m_append(*this, logs[0]);
            }
            return execute(logs[0]);
        }
        ptr<cmd_result<ptr<buffer>>> execute(const ptr<buffer>& log) {
            auto r = cs_new<cmd_result<ptr<buffer>>>();
            if(!m_leader) {
                r->set_result(nullptr, nullptr, NOT_LEADER);
                return r;
            }
            r->accept();
            log->pos(0);
            ptr<buffer> res;
            {
                std::lock_guard<std::mutex> l(m_mut);
                res = m_sm->commit(m_sm->last_commit_index() + 1, *log);
            }
            r->set_result(res, nullptr, OK);
            return r;
        }

        ptr<state_machine> m_sm;
        raft_params m_params;
        cb_func::func_type m_cb;
        std::atomic<bool> m_leader{true};
        shim::append_hook m_append;
        std::mutex m_mut;
    };

    namespace shim {
        // Set by the harness to observe or configure each launched server.
        inline std::function<void(const ptr<raft_server>&)> on_launch;
        inline std::function<bool()> refuse_launch;
    }

    class raft_launcher {
      public:
        ptr<raft_server> init(const ptr<state_machine>& sm,
                              const ptr<state_mgr>& /* smgr */,
                              const ptr<logger>& /* lg */,
                              int /* port */,
                              const asio_service::options& /* o */,
                              const raft_params& p,
                              const raft_server::init_options& io) {
            if(shim::refuse_launch && shim::refuse_launch()) {
                return nullptr;
            }
            m_s = cs_new<raft_server>(sm, p, io.raft_callback_);
            if(shim::on_launch) {
                shim::on_launch(m_s);
            }
            return m_s;
        }
        bool shutdown(size_t /* t */ = 5) {
            return true;
        }

      private:
        ptr<raft_server> m_s;
    };
}
#endif
