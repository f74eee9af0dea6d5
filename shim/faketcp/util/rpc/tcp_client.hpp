#ifndef VERIF_FAKETCP_CLIENT_HPP
#define VERIF_FAKETCP_CLIENT_HPP
#include "fake.hpp"
#include "util/common/variant_overloaded.hpp"
#include "util/network/connection_manager.hpp"
#include "util/rpc/client.hpp"

#include <condition_variable>
#include <map>
#include <memory>
#include <mutex>
#include <vector>

namespace cbdc::rpc {
    template<typename Request, typename Response>
    class tcp_client : public client<Request, Response> {
      public:
        explicit tcp_client(std::vector<network::endpoint_t> eps)
            : m_eps(std::move(eps)) {}
        tcp_client(tcp_client&&) = delete;
        auto operator=(tcp_client&&) -> tcp_client& = delete;
        tcp_client(const tcp_client&) = delete;
        auto operator=(const tcp_client&) -> tcp_client& = delete;
        using response_type =
            typename client<Request, Response>::response_type;
        ~tcp_client() override {
            close();
        }
        // Outstanding and later requests go unanswered.
        void close() {
            auto p = decltype(m_p->m)();
            {
                std::unique_lock<std::mutex> l(m_p->mut);
                m_p->closed = true;
                p.swap(m_p->m);
            }
            m_p->cv.notify_all();
            for(auto& [id, cb] : p) {
                cb(std::nullopt);
            }
            if(faketcp::join_clients) {
                std::unique_lock<std::mutex> l(m_p->mut);
                m_p->cv.wait(l, [&]() {
                    return m_p->busy == 0;
                });
            }
        }
        [[nodiscard]] auto init(std::optional<bool> fatal = std::nullopt)
            -> bool {
            if(!faketcp::strict_init
               || !fatal.value_or(m_eps.size() <= 1)) {
                return true;
            }
            faketcp::lock g;
            for(auto& e : m_eps) {
                if(faketcp::servers.find(e) == faketcp::servers.end()) {
                    return false;
                }
            }
            return true;
        }

      private:
        using raw_callback_type =
            typename client<Request, Response>::raw_callback_type;
        struct pending {
            std::mutex mut;
            std::condition_variable cv;
            bool closed{};
            int busy{}; // responses being handled
            std::map<request_id_type, raw_callback_type> m;
            auto extract(request_id_type id) {
                std::unique_lock<std::mutex> l(mut);
                return m.extract(id);
            }
        };
        std::vector<network::endpoint_t> m_eps;
        std::shared_ptr<pending> m_p{std::make_shared<pending>()};

        void answer(const std::weak_ptr<pending>& wp, cbdc::buffer b) {
            auto p = wp.lock();
            if(!p) {
                return;
            }
            auto r = client<Request, Response>::deserialize_response(b);
            if(!r.has_value()) {
                return;
            }
            if(faketcp::join_clients) {
                std::unique_lock<std::mutex> l(p->mut);
                if(p->closed) {
                    return;
                }
                p->busy++;
            }
            auto n = p->extract(r.value().m_header.m_request_id);
            if(!n.empty()) {
                n.mapped()(std::move(r.value()));
            }
            if(faketcp::join_clients) {
                std::unique_lock<std::mutex> l(p->mut);
                p->busy--;
                p->cv.notify_all();
            }
        }
        auto call_raw(cbdc::buffer req,
                      request_id_type id,
                      raw_callback_type cb) -> bool override {
            {
                std::unique_lock<std::mutex> l(m_p->mut);
                if(m_p->closed) {
                    return false;
                }
            }
            faketcp::serve_fn s;
            {
                faketcp::lock g;
                for(auto& e : m_eps) {
                    auto it = faketcp::servers.find(e);
                    if(it != faketcp::servers.end()
                       && !(faketcp::refuse_send
                            && faketcp::refuse_send(e))) {
                        s = it->second;
                        break;
                    }
                }
            }
            if(!s) {
                return false;
            }
            {
                std::unique_lock<std::mutex> l(m_p->mut);
                m_p->m[id] = std::move(cb);
            }
            std::weak_ptr<pending> wp = m_p;
            auto back = [this, wp](cbdc::buffer b) {
                if(faketcp::deliver) {
                    faketcp::deliver(this, [this, wp, b]() {
                        answer(wp, b);
                    });
                } else {
                    answer(wp, std::move(b));
                }
            };
            auto go = [serve = s, back](cbdc::buffer q) {
                auto now = serve(std::move(q), back);
                if(now.has_value()) {
                    back(std::move(now.value()));
                }
            };
            if(faketcp::carry) {
                faketcp::carry(this, [go, req]() {
                    go(req);
                });
            } else {
                go(std::move(req));
            }
            return true;
        }
        auto call_raw(cbdc::buffer req,
                      request_id_type id,
                      std::chrono::milliseconds timeout)
            -> std::optional<response_type> override {
            auto got = std::make_shared<std::optional<response_type>>();
            auto p = m_p;
            if(!call_raw(std::move(req),
                         id,
                         raw_callback_type(
                             [got, p](std::optional<response_type> r) {
                                 std::unique_lock<std::mutex> l(p->mut);
                                 *got = std::move(r);
                                 p->cv.notify_all();
                             }))) {
                return std::nullopt;
            }
            if(faketcp::sync_waits) {
                std::unique_lock<std::mutex> l(p->mut);
                auto ready = [&]() {
                    return got->has_value() || p->closed;
                };
                if(timeout == std::chrono::milliseconds::zero()) {
                    p->cv.wait(l, ready);
                } else {
                    p->cv.wait_for(l, timeout, ready);
                }
                p->m.erase(id);
                return *got;
            }
            (void)m_p->extract(id);
            return *got;
        }
    };
}
#endif
