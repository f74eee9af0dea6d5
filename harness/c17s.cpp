// C17, concurrently: the real agent server (Lua) with its retry and clean-up
// threads, answered by a model broker from several threads.
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <variant>
#include <vector>

#include "harness/common.hpp"
#include "mc/sched.hpp"
#include "parsec/agent/client.hpp"
#include "parsec/agent/format.hpp"
#include "parsec/agent/runners/lua/server.hpp"
#include "util/rpc/fake.hpp"
#include "util/rpc/format.hpp"
#include "util/serialization/format.hpp"

#include <lua.hpp>

namespace {
    using namespace cbdc;
    using namespace cbdc::parsec;
    using bi = broker::interface;
    using ec = bi::error_code;
    using sec = runtime_locking_shard::error_code;
    using serr = runtime_locking_shard::shard_error;
    using ticket_number_type = ticket_machine::ticket_number_type;

    buffer buf(const std::string& s) {
        buffer b;
        b.append(s.data(), s.size());
        return b;
    }
    std::string str(const buffer& b) {
        return std::string(reinterpret_cast<const char*>(b.data()), b.size());
    }
    buffer compile(const std::string& src) {
        auto* L = luaL_newstate();
        if(luaL_loadbuffer(L, src.data(), src.size(), "c") != LUA_OK) {
            abort();
        }
        buffer b;
        lua_dump(L,
                 [](lua_State*, const void* p, size_t n, void* u) {
                     static_cast<buffer*>(u)->append(p, n);
                     return 0;
                 },
                 &b,
                 0);
        lua_close(L);
        return b;
    }
    struct net {
        std::deque<std::function<void()>> q;
        bool done{};
        int busy{};
        void push(std::function<void()> f) {
            sched::atomic_section g;
            q.push_back(std::move(f));
            sched::hb_release(this);
        }
        void serve() {
            for(;;) {
                sched::until(
                    [&]() {
                        sched::atomic_section g;
                        return done || !q.empty();
                    },
                    "message");
                std::function<void()> f;
                {
                    sched::atomic_section g;
                    sched::hb_acquire(this);
                    if(q.empty()) {
                        return;
                    }
                    f = std::move(q.front());
                    q.pop_front();
                    busy++;
                }
                f();
                f = nullptr;
                sched::atomic_section g;
                busy--;
            }
        }
    };
    enum class trouble {
        none,
        wounded_lock,
        wounded_commit,
        begin_fails,
        finish_fails,
        commit_unreachable,
        rollback_fails,
        contract_error
    };
    struct model : bi {
        net& n;
        trouble t;
        buffer code;
        struct ticket {
            int state{}; // 0 begun 1 prepared 2 committed 3 aborted 4 gone
            std::map<std::string, std::string> upd;
        };
        std::map<ticket_number_type, ticket> tk;
        ticket_number_type next{1};
        bool hit{}; // the trouble strikes once
        model(net& x, trouble y, buffer b)
            : n(x),
              t(y),
              code(std::move(b)) {}
        bool strike(trouble k) {
            if(t == k && !hit) {
                hit = true;
                return true;
            }
            return false;
        }
        auto begin(begin_callback_type cb) -> bool override {
            sched::atomic_section g;
            if(strike(trouble::begin_fails)) {
                n.push([cb]() {
                    cb(ec::ticket_number_assignment);
                });
                return true;
            }
            auto x = next++;
            tk[x] = {};
            n.push([cb, x]() {
                cb(x);
            });
            return true;
        }
        auto try_lock(ticket_number_type x,
                      broker::key_type key,
                      broker::lock_type,
                      try_lock_callback_type cb) -> bool override {
            sched::atomic_section g;
            auto& y = tk[x];
            if(y.state == 3) {
                y.state = 0;
            }
            auto k = str(key);
            auto w = k != "ff" && strike(trouble::wounded_lock);
            auto v = k == "ff" ? code : buf("v");
            n.push([cb, w, v]() {
                if(w) {
                    cb(serr{sec::wounded, std::nullopt});
                } else {
                    cb(v);
                }
            });
            return true;
        }
        auto commit(ticket_number_type x,
                    broker::state_update_type u,
                    commit_callback_type cb) -> bool override {
            sched::atomic_section g;
            auto& y = tk[x];
            if(y.state == 0) {
                if(strike(trouble::wounded_commit)
                   || (t == trouble::rollback_fails && !hit)) {
                    n.push([cb]() {
                        cb(serr{sec::wounded, std::nullopt});
                    });
                    return true;
                }
                y.state = 1;
                for(auto& [k, v] : u) {
                    y.upd[str(k)] = str(v);
                }
                if(strike(trouble::commit_unreachable)) {
                    n.push([cb]() {
                        cb(ec::shard_unreachable);
                    });
                    return true;
                }
            } else if(y.state != 1) {
                sched::fail("commit", "commit in another state");
            }
            n.push([this, cb, x]() {
                {
                    sched::atomic_section g2;
                    tk[x].state = 2;
                }
                cb(std::nullopt);
            });
            return true;
        }
        auto finish(ticket_number_type x, finish_callback_type cb)
            -> bool override {
            sched::atomic_section g;
            if(tk[x].state != 2 && tk[x].state != 3) {
                sched::fail("finish", "finish of an open ticket");
            }
            auto f = strike(trouble::finish_fails);
            if(!f) {
                tk[x].state += 10;
            }
            n.push([cb, f]() {
                if(f) {
                    cb(ec::shard_unreachable);
                } else {
                    cb(std::nullopt);
                }
            });
            return true;
        }
        auto rollback(ticket_number_type x, rollback_callback_type cb)
            -> bool override {
            sched::atomic_section g;
            auto& y = tk[x];
            if(y.state == 1 || y.state == 2) {
                n.push([cb, s = y.state]() {
                    cb(s == 1 ? ec::prepared : ec::committed);
                });
                return true;
            }
            if(strike(trouble::rollback_fails)) {
                n.push([cb]() {
                    cb(ec::shard_unreachable);
                });
                return true;
            }
            y.state = 3;
            n.push([cb]() {
                cb(std::nullopt);
            });
            return true;
        }
        auto recover(recover_callback_type) -> bool override {
            return false;
        }
        auto highest_ticket() -> ticket_number_type override {
            return next;
        }
    };

    void server(mc::ctx& c, trouble t, int requests, int nets) {
        static const auto code = compile(
            "local v = coroutine.yield('k') ; return {k = v .. 'x'}");
        static const auto failing
            = compile("local v = coroutine.yield('k') ; error('no')");
        std::string out;
        sched::options o;
        sched::run(c, o, [&]() {
            net n;
            faketcp::servers.clear();
            faketcp::refuse_send = nullptr;
            faketcp::deliver = [&](const void*, std::function<void()> f) {
                f();
            };
            auto mb = std::make_shared<model>(
                n,
                t,
                t == trouble::contract_error ? failing : code);
            cbdc::parsec::config cfg{};
            network::endpoint_t ep{"agent", 7};
            auto srv = std::make_unique<agent::rpc::server>(
                std::make_unique<cbdc::rpc::async_tcp_server<
                    agent::rpc::request,
                    agent::rpc::response>>(ep),
                mb,
                h::logger(),
                cfg);
            if(!srv->init()) {
                sched::fail("init", "server does not start");
            }
            std::vector<std::thread> ts;
            for(int i = 0; i < nets; i++) {
                ts.emplace_back([&]() {
                    n.serve();
                });
            }
            int answers = 0, ok = 0;
            auto cl = std::make_unique<agent::rpc::client>(
                std::vector<network::endpoint_t>{ep});
            (void)cl->init();
            for(int i = 0; i < requests; i++) {
                auto* calls = new int(0);
                auto sent = cl->exec(
                    buf("ff"),
                    buf("p"),
                    false,
                    [&, calls](agent::interface::exec_return_type r) {
                        sched::atomic_section g;
                        if(++*calls > 1) {
                            sched::fail("twice", "answered twice");
                        }
                        answers++;
                        if(auto* u = std::get_if<agent::return_type>(&r)) {
                            ok++;
                            if(u->size() != 1
                               || str(u->begin()->second) != "vx") {
                                sched::fail("content",
                                            "other updates are reported");
                            }
                        } else if(std::get<agent::interface::error_code>(r)
                                  == agent::interface::error_code::retry) {
                            sched::fail("retry",
                                        "the client is told to retry");
                        }
                    });
                if(!sent) {
                    sched::fail("refused", "request refused");
                }
            }
            sched::until(
                [&]() {
                    sched::atomic_section g;
                    return answers == requests && n.q.empty() && n.busy == 0;
                },
                "answers to every client");
            {
                sched::atomic_section g;
                n.done = true;
            }
            for(auto& x : ts) {
                x.join();
            }
            srv.reset();
            cl.reset();
            faketcp::servers.clear();
            faketcp::deliver = nullptr;
            int committed = 0;
            for(auto& [x, y] : mb->tk) {
                if(y.state < 10) {
                    sched::fail("left-behind",
                                "a ticket is neither finished nor given up");
                }
                committed += y.state == 12 ? 1 : 0;
            }
            if(committed != ok) {
                sched::fail("count",
                            mc::strf("%d commits, %d reported",
                                     committed,
                                     ok));
            }
            auto expect = requests
                        - (t == trouble::begin_fails      ? 1
                           : t == trouble::contract_error ? requests
                                                          : 0);
            if(ok != expect) {
                sched::fail("outcome",
                            mc::strf("%d of %d requests succeed", ok, expect));
            }
            out = mc::strf("%d ok", ok);
        });
        if(!c.failed()) {
            c.agreed();
            c.outcome(out);
        }
    }
}
int main(int argc, char** argv) {
    bool th = mc::thorough();
    std::vector<mc::scenario> s;
    auto add = [&](const char* n, trouble t, int r, int nets, uint32_t q,
                   uint32_t d) {
        s.push_back({n,
                     [=](mc::ctx& c) {
                         server(c, t, r, nets);
                     },
                     th ? d : q,
                     8,
                     4,
                     mc::strf("%d requests, %d network threads", r, nets)});
    };
    add("one request", trouble::none, 1, 2, 2, 3);
    add("two requests", trouble::none, 2, 2, 2, 3);
    add("wounded while locking", trouble::wounded_lock, 1, 1, 2, 3);
    add("wounded while committing", trouble::wounded_commit, 1, 1, 2, 3);
    add("begin fails", trouble::begin_fails, 2, 1, 2, 3);
    add("finish fails", trouble::finish_fails, 1, 1, 2, 3);
    add("shard unreachable in commit", trouble::commit_unreachable, 1, 1, 2,
        3);
    add("rollback fails", trouble::rollback_fails, 1, 1, 2, 3);
    add("contract error", trouble::contract_error, 1, 2, 2, 3);
    return mc::main(argc, argv, "C17", "model_checking",
                    "every schedule within the preemption bound of the "
                    "server's threads and the broker's answers",
                    {}, s);
}
