#ifndef VERIF_FAKETCP_SERVER_HPP
#define VERIF_FAKETCP_SERVER_HPP
#include "fake.hpp"
#include "util/network/connection_manager.hpp"
#include "util/rpc/async_server.hpp"
#include "util/rpc/blocking_server.hpp"
#include "util/rpc/server.hpp"

#include <condition_variable>
#include <memory>
#include <mutex>

namespace cbdc::rpc {
    template<typename Server>
    class tcp_server : public Server {
      public:
        explicit tcp_server(network::endpoint_t ep) : m_ep(std::move(ep)) {}
        tcp_server(tcp_server&&) = delete;
        auto operator=(tcp_server&&) -> tcp_server& = delete;
        tcp_server(const tcp_server&) = delete;
        auto operator=(const tcp_server&) -> tcp_server& = delete;
        ~tcp_server() override {
            if(m_on) {
                faketcp::lock g;
                faketcp::servers.erase(m_ep);
            }
            if(faketcp::join_servers) {
                std::unique_lock<std::mutex> l(m_use->mut);
                m_use->closed = true;
                m_use->cv.wait(l, [&]() {
                    return m_use->n == 0;
                });
            }
        }
        [[nodiscard]] auto init() -> bool {
            faketcp::lock g;
            if(faketcp::servers.count(m_ep) != 0
               || (faketcp::refuse_listen && faketcp::refuse_listen(m_ep))) {
                return false;
            }
            m_on = true;
            faketcp::opened[m_ep]++;
            faketcp::servers[m_ep]
                = [this, u = m_use](cbdc::buffer req, faketcp::reply_fn reply)
                -> std::optional<cbdc::buffer> {
                auto h = holder(u);
                if(h.late) {
                    return std::nullopt; // arrived at a closed server
                }
                if constexpr(Server::handler == handler_type::async) {
                    return Server::async_call(std::move(req),
                                              std::move(reply));
                } else {
                    return Server::blocking_call(std::move(req));
                }
            };
            return true;
        }

      private:
        struct use {
            std::mutex mut;
            std::condition_variable cv;
            int n{0};
            bool closed{false};
        };
        struct holder {
            std::shared_ptr<use> u;
            bool late{false};
            explicit holder(std::shared_ptr<use> x) {
                if(faketcp::join_servers) {
                    u = std::move(x);
                    std::unique_lock<std::mutex> l(u->mut);
                    if(u->closed) {
                        late = true;
                    }
                    u->n++;
                }
            }
            ~holder() {
                if(u) {
                    std::unique_lock<std::mutex> l(u->mut);
                    u->n--;
                    u->cv.notify_all();
                }
            }
            holder(const holder&) = delete;
            auto operator=(const holder&) -> holder& = delete;
        };
        std::shared_ptr<use> m_use{std::make_shared<use>()};
        network::endpoint_t m_ep;
        bool m_on{false};
    };
    template<typename Request, typename Response>
    using blocking_tcp_server = tcp_server<blocking_server<Request, Response>>;
    template<typename Request, typename Response>
    using async_tcp_server = tcp_server<async_server<Request, Response>>;
}
#endif
