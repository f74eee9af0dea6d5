// In-process stand-in for the TCP transport of the RPC layer: requests and
// responses are still serialized by the real client and server templates, but
// are handed over by direct calls, so that a harness can explore sequences of
// them without threads. (The TCP transport itself is explored by C20-C22.)
#ifndef VERIF_FAKETCP_HPP
#define VERIF_FAKETCP_HPP
#include "util/common/buffer.hpp"
#include "util/network/socket.hpp"

#include <functional>
#include <map>
#include <optional>

namespace faketcp {
    using reply_fn = std::function<void(cbdc::buffer)>;
    using serve_fn
        = std::function<std::optional<cbdc::buffer>(cbdc::buffer, reply_fn)>;
    inline std::map<cbdc::network::endpoint_t, serve_fn> servers;
    // how many servers have listened there so far
    inline std::map<cbdc::network::endpoint_t, uint64_t> opened;
    // Set by a harness: true makes the next sends fail.
    inline std::function<bool(const cbdc::network::endpoint_t&)> refuse_send;
    inline std::function<bool(const cbdc::network::endpoint_t&)> refuse_listen;
    // Set by a harness: responses travel through it instead of at once.
    inline std::function<void(const void* client, std::function<void()>)>
        deliver;
    // Set by a harness: requests travel through it instead of at once.
    inline std::function<void(const void* client, std::function<void()>)>
        carry;
    // Set by a harness with threads: called before (true) and after (false)
    // accesses of `servers`.
    inline std::function<void(bool)> guard;
    struct lock {
        lock() {
            if(guard) {
                guard(true);
            }
        }
        ~lock() {
            if(guard) {
                guard(false);
            }
        }
        lock(const lock&) = delete;
        auto operator=(const lock&) -> lock& = delete;
    };
    // Set by a harness with threads: a synchronous call waits for a response
    // that has not arrived yet, until its timeout.
    inline bool sync_waits{false};
    // Set by a harness with threads: destroying a server waits for the
    // requests it is handling, as joining its handler thread does.
    inline bool join_servers{false};
    // Set by a harness with threads: closing a client waits for the responses
    // it is handling, as joining its handler thread does. Responses must not
    // be delivered from within a call on the same client then.
    inline bool join_clients{false};
    // Set by a harness: starting a client fails, when its caller wants that,
    // if a server is not there yet.
    inline bool strict_init{false};
}
#endif
