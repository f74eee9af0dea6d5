// C22: RPC client and servers over the simulated network
#include "common.hpp"
#include "mc/sched.hpp"
#include "mc/simnet.hpp"
#include "util/rpc/format.hpp"
#include "util/rpc/tcp_client.hpp"
#include "util/rpc/tcp_server.hpp"
#include "util/serialization/format.hpp"
#include "util/serialization/util.hpp"

#include <map>
#include <thread>

using namespace cbdc;
using namespace std::chrono_literals;
using network::tcp_listener;
using network::tcp_socket;
namespace {
    using quiet = sched::atomic_section;
    using val = std::vector<uint64_t>;
    using client = rpc::tcp_client<val, val>;
    using req_t = rpc::request<val>;
    using rsp_t = rpc::response<val>;
    constexpr uint16_t port = 5000;
    network::endpoint_t ep(uint16_t p) {
        return {"127.0.0.1", p};
    }
    void must(bool b, const char* what) {
        if(!b) {
            sched::fail(std::string("unexpected:") + what, what);
        }
    }
    val f(const val& v) {
        auto r = v;
        r.push_back(v.empty() ? 0 : v[0] * 31 + 7);
        return r;
    }
    buffer enc(const rsp_t& r) {
        return make_buffer(r);
    }
    buffer junk(int k) {
        buffer b;
        if(k == 1) {
            uint64_t x = 0;
            b.append(&x, 7);
        } else if(k == 2) {
            // header of request 0, payload announced but missing
            uint64_t h[1] = {0};
            b.append(h, 8);
            uint8_t one = 1;
            b.append(&one, 1);
        } else if(k == 3) {
            uint64_t h[1] = {1};
            b.append(h, 8);
            uint8_t one = 1;
            b.append(&one, 1);
            uint64_t len = 3;
            b.append(&len, 8);
            b.append(&len, 8);
        }
        return b;
    }
    // What a scripted server does with the requests it collects.
    struct script {
        size_t batch{1};   // requests collected before answering
        bool order{};      // choose the order
        bool dup{}, unknown{}, garbage{}, empty{};
        bool drop{};       // may leave requests unanswered
        bool disconnect{}; // may cut the connection instead of answering
    };
    struct fake_server {
        tcp_listener l;
        std::vector<std::thread> t;
        size_t asked{}, answered{};
        std::map<uint64_t, int> ids;
        bool cut{};
        void run(const script& s, size_t conns) {
            must(l.listen("127.0.0.1", port), "listen");
            t.emplace_back([this, s, conns]() {
                for(size_t c = 0; c < conns; c++) {
                    tcp_socket k;
                    if(!l.accept(k)) {
                        return;
                    }
                    serve(k, s);
                }
            });
        }
        void serve(tcp_socket& k, const script& s) {
            std::vector<req_t> q;
            buffer b;
            while(k.receive(b)) {
                auto r = from_buffer<req_t>(b);
                must(r.has_value(), "client request decodes");
                {
                    quiet z;
                    asked++;
                    if(ids[r->m_header.m_request_id]++ != 0) {
                        sched::fail("id-reuse",
                                    "two requests with the same identity");
                    }
                }
                q.push_back(*r);
                if(q.size() < s.batch) {
                    continue;
                }
                if(s.disconnect && !cut
                   && sched::choose(2, "server disconnects") == 1) {
                    cut = true;
                    return;
                }
                while(!q.empty()) {
                    size_t i = 0;
                    if(s.order && q.size() > 1) {
                        i = sched::choose(uint32_t(q.size()), "answer order");
                    }
                    auto x = q[i];
                    q.erase(q.begin() + long(i));
                    if(s.garbage) {
                        auto g = sched::choose(5, "garbage first");
                        if(g > 0) {
                            (void)k.send(junk(int(g) - 1));
                        }
                    }
                    if(s.unknown && sched::choose(2, "unknown id") == 1) {
                        (void)k.send(enc({{777}, f({9})}));
                    }
                    if(s.drop && sched::choose(2, "no answer") == 1) {
                        continue;
                    }
                    rsp_t a{x.m_header, f(x.m_payload)};
                    if(s.empty && sched::choose(2, "failure answer") == 1) {
                        a.m_payload = std::nullopt;
                    }
                    (void)k.send(enc(a));
                    {
                        quiet z;
                        answered++;
                    }
                    if(s.dup && sched::choose(2, "duplicate") == 1) {
                        auto d = a;
                        d.m_payload = f({99});
                        (void)k.send(enc(d));
                    }
                }
            }
        }
        void stop() {
            l.close();
            for(auto& x : t) {
                x.join();
            }
        }
    };
    void check_sync(const std::optional<val>& r, uint64_t k, bool may_fail) {
        if(!r.has_value()) {
            if(!may_fail) {
                sched::fail("no-response", "call returned nothing");
            }
            return;
        }
        if(*r != f({k, 5})) {
            sched::fail("wrong-response",
                        mc::strf("call %d got another response", int(k)));
        }
    }
    void sync_calls(mc::ctx& c,
                    const script& s,
                    size_t threads,
                    size_t each,
                    std::chrono::milliseconds timeout) {
        std::string out;
        sched::options o;
        sched::run(c, o, [&]() {
            simnet::reset({});
            fake_server srv;
            srv.run(s, s.disconnect ? 3 : 1);
            {
                client cl({ep(port)});
                must(cl.init(), "init");
                bool may = s.drop || s.empty || timeout != 0ms
                        || s.disconnect;
                auto work = [&](size_t t) {
                    for(size_t i = 0; i < each; i++) {
                        auto k = t * 10 + i + 1;
                        auto t0 = sched::now_ns();
                        auto r = cl.call({k, 5}, timeout);
                        auto dt = (sched::now_ns() - t0) / 1000000;
                        check_sync(r, k, may);
                        if(timeout != 0ms
                           && dt > uint64_t(timeout.count())
                                       * (s.disconnect ? 100 : 1)) {
                            sched::fail("late",
                                        mc::strf("call took %d ms",
                                                 int(dt)));
                        }
                        quiet z;
                        out += r.has_value() ? 'v' : '-';
                    }
                };
                std::vector<std::thread> w;
                for(size_t t = 1; t < threads; t++) {
                    w.emplace_back([&, t]() { work(t); });
                }
                work(0);
                for(auto& x : w) {
                    x.join();
                }
            }
            srv.stop();
        });
        c.agreed();
        c.outcome(out);
    }
    void async_calls(mc::ctx& c, const script& s, size_t n, int mode) {
        std::string out;
        sched::options o;
        sched::run(c, o, [&]() {
            simnet::reset({});
            fake_server srv;
            srv.run(s, 1);
            std::vector<int> done(n + 1, 0), sent(n + 1, 0);
            {
                client cl({ep(port)});
                must(cl.init(), "init");
                auto cb = [&](size_t k) {
                    return [&, k](std::optional<val> r) {
                        quiet z;
                        done[k]++;
                        if(done[k] > 1) {
                            sched::fail("twice", "callback ran twice");
                        }
                        check_sync(r, k, s.empty);
                        out += char('0' + k);
                    };
                };
                auto go = [&](size_t k) {
                    auto ok = cl.call({k, 5}, cb(k));
                    quiet z;
                    sent[k] = ok;
                };
                if(mode == 0) { // two threads
                    std::thread t([&]() {
                        for(size_t k = 1; k < n; k += 2) {
                            go(k);
                        }
                    });
                    for(size_t k = 0; k < n; k += 2) {
                        go(k);
                    }
                    t.join();
                } else { // a callback that calls again
                    auto inner = cb(1);
                    auto outer = cb(0);
                    sent[0] = cl.call(
                        {0, 5},
                        [&, inner, outer](std::optional<val> r) {
                            outer(r);
                            auto ok = cl.call({1, 5}, inner);
                            quiet z;
                            sent[1] = ok;
                        });
                }
                if(mode != 2) {
                    sched::until(
                        [&]() {
                            size_t d = 0;
                            for(size_t k = 0; k < n; k++) {
                                d += size_t(done[k]);
                            }
                            return d == n;
                        },
                        "responses of all calls");
                }
            }
            srv.stop();
            quiet z;
            for(size_t k = 0; k < n; k++) {
                if(done[k] > 1 || (done[k] == 1 && sent[k] == 0)) {
                    sched::fail("twice", "callback count");
                }
            }
        });
        c.agreed();
        c.outcome(out);
    }

    // --- servers --------------------------------------------------------
    struct tally {
        std::map<std::pair<int, uint64_t>, int> handled; // client, request
    };
    // A raw client sends its requests (and junk) and collects the replies.
    void raw_client(int who,
                    size_t n,
                    int junk_at,
                    bool fails,
                    bool leave,
                    bool raw,
                    std::string& out) {
        tcp_socket s;
        must(s.connect(ep(port)), "connect");
        for(size_t i = 0; i < n; i++) {
            if(junk_at == int(i)) {
                auto k = sched::choose(raw ? 2 : 4, "malformed request");
                must(s.send(junk(int(k))), "send");
            }
            // both clients use the same identities
            req_t r{{i}, {uint64_t(who), i}};
            must(s.send(make_buffer(r)), "send");
        }
        if(leave) {
            return;
        }
        std::vector<int> got(n, 0);
        for(size_t i = 0; i < n; i++) {
            buffer b;
            must(s.receive(b), "reply");
            auto r = from_buffer<rsp_t>(b);
            must(r.has_value(), "reply decodes");
            auto id = r->m_header.m_request_id;
            if(id >= n || got[id]++ != 0) {
                sched::fail("reply-identity",
                            "reply with a wrong or repeated identity");
            }
            if(fails && id == 1) {
                if(r->m_payload.has_value()) {
                    sched::fail("wrong-reply", "payload in a failure");
                }
                continue;
            }
            if(!r->m_payload.has_value()
               || *r->m_payload != f({uint64_t(who), id})) {
                sched::fail("wrong-reply",
                            mc::strf("client %d got another reply", who));
            }
        }
        quiet z;
        out += char('a' + who);
    }
    // Payload types of a server: values, or the serialized buffers.
    template<typename S>
    struct io {
        static constexpr bool raw = false;
        using type = val;
        static val in(const val& v) {
            return v;
        }
        static std::optional<val> out(const val&, std::optional<val> r) {
            return r;
        }
    };
    using RS = rpc::tcp_server<rpc::raw_async_server>;
    template<>
    struct io<RS> {
        static constexpr bool raw = true;
        using type = buffer;
        static val in(buffer b) {
            auto r = from_buffer<req_t>(b);
            must(r.has_value(), "raw request decodes");
            return r->m_payload;
        }
        static std::optional<buffer> out(const val& v, std::optional<val> r) {
            if(!r.has_value()) {
                return std::nullopt;
            }
            return enc({{v[1]}, r});
        }
    };
    template<typename S>
    void server_scn(mc::ctx& c,
                    int clients,
                    size_t n,
                    bool with_junk,
                    bool fails,
                    bool leave,
                    int workers) {
        std::string out;
        sched::options o;
        sched::run(c, o, [&]() {
            simnet::reset({});
            tally ta;
            using P = typename io<S>::type;
            struct pend {
                val v;
                std::function<void(std::optional<P>)> cb;
            };
            std::vector<pend> q;
            std::vector<std::thread> w;
            bool stop = false;
            size_t total = size_t(clients) * n;
            size_t served = 0;
            auto seen = [&](const val& v) {
                quiet z;
                if(v.size() != 2) {
                    sched::fail("phantom", "handler got a malformed request");
                }
                if(ta.handled[{int(v[0]), v[1]}]++ != 0) {
                    sched::fail("twice", "request handled twice");
                }
                served++;
            };
            {
                S srv(ep(port));
                if constexpr(S::handler == rpc::handler_type::async) {
                    srv.register_handler_callback(
                        [&](P pv,
                            std::function<void(std::optional<P>)> cb) {
                            auto v = io<S>::in(pv);
                            seen(v);
                            if(fails && v[1] == 1) {
                                // refused at once, or answered with a
                                // failure
                                if(sched::choose(2, "refusal") == 0) {
                                    return false;
                                }
                            }
                            quiet z;
                            q.push_back({v, cb});
                            return true;
                        });
                    for(int k = 0; k < workers; k++) {
                        w.emplace_back([&]() {
                            while(true) {
                                sched::until(
                                    [&]() { return stop || !q.empty(); },
                                    "a request to answer");
                                if(stop && q.empty()) {
                                    return;
                                }
                                pend p;
                                {
                                    quiet z;
                                    if(q.empty()) {
                                        continue;
                                    }
                                    size_t i = 0;
                                    if(q.size() > 1) {
                                        i = sched::choose(
                                            uint32_t(q.size()),
                                            "answer order",
                                            1);
                                    }
                                    p = q[i];
                                    q.erase(q.begin() + long(i));
                                }
                                if(fails && p.v[1] == 1) {
                                    p.cb(std::nullopt);
                                } else {
                                    p.cb(io<S>::out(p.v, f(p.v)));
                                }
                            }
                        });
                    }
                } else {
                    srv.register_handler_callback(
                        [&](val v) -> std::optional<val> {
                            seen(v);
                            if(fails && v[1] == 1) {
                                return std::nullopt;
                            }
                            return f(v);
                        });
                }
                must(srv.init(), "init");
                std::vector<std::thread> t;
                for(int k = 0; k < clients; k++) {
                    t.emplace_back([&, k]() {
                        raw_client(k,
                                   n,
                                   with_junk && k == 0 ? 0 : -1,
                                   fails,
                                   leave && k == 0,
                                   io<S>::raw,
                                   out);
                    });
                }
                for(auto& x : t) {
                    x.join();
                }
                if(!leave) {
                    must(served == total, "every request handled");
                }
                {
                    quiet z;
                    stop = true;
                }
                for(auto& x : w) {
                    x.join();
                }
            }
        });
        c.agreed();
        c.outcome(out);
    }
    // client and server of this repository together
    template<typename S>
    void both(mc::ctx& c) {
        std::string out;
        sched::options o;
        sched::run(c, o, [&]() {
            simnet::reset({});
            S srv(ep(port));
            if constexpr(S::handler == rpc::handler_type::async) {
                srv.register_handler_callback(
                    [&](val v, std::function<void(std::optional<val>)> cb) {
                        cb(f(v));
                        return true;
                    });
            } else {
                srv.register_handler_callback(
                    [&](val v) -> std::optional<val> {
                        return f(v);
                    });
            }
            must(srv.init(), "init");
            {
                client cl({ep(port)});
                must(cl.init(), "init");
                int n = 0;
                must(cl.call({2, 5},
                             [&](std::optional<val> r) {
                                 quiet z;
                                 check_sync(r, 2, false);
                                 n++;
                             }),
                     "call");
                check_sync(cl.call({1, 5}), 1, false);
                sched::until([&]() { return n == 1; }, "asynchronous call");
            }
        });
        c.agreed();
        c.outcome(out);
    }
    // a client closed while calls wait for an answer that never comes
    void closed(mc::ctx& c) {
        std::string out;
        sched::options o;
        sched::run(c, o, [&]() {
            simnet::reset({});
            fake_server srv;
            script mute;
            mute.batch = 99;
            srv.run(mute, 1);
            {
                client cl({ep(port)});
                must(cl.init(), "init");
                int n = 0;
                std::thread t([&]() {
                    if(cl.call({1, 5}).has_value()) {
                        sched::fail("phantom-response", "never answered");
                    }
                });
                (void)cl.call({2, 5}, [&](std::optional<val> r) {
                    quiet z;
                    if(r.has_value()) {
                        sched::fail("phantom-response", "never answered");
                    }
                    n++;
                });
                cl.close();
                t.join();
                if(cl.call({3, 5}).has_value()) {
                    sched::fail("phantom-response", "call after close");
                }
                if(cl.call({4, 5}, [&](std::optional<val>) {
                       n = 9;
                   })) {
                    sched::fail("sent", "asynchronous call after close");
                }
                if(n > 1) {
                    sched::fail("twice", "callback count");
                }
            }
            srv.stop();
        });
        c.agreed();
        c.outcome(out);
    }
    // several endpoints, some down: a call fails or is answered
    void endpoints(mc::ctx& c) {
        std::string out;
        sched::options o;
        sched::run(c, o, [&]() {
            simnet::reset({});
            fake_server srv;
            srv.run({}, 1);
            {
                client cl({ep(port), ep(5999)});
                must(cl.init(), "init");
                check_sync(cl.call({1, 5}, 1000ms), 1, true);
                int n = 0;
                auto ok = cl.call({2, 5}, [&](std::optional<val> r) {
                    quiet z;
                    check_sync(r, 2, false);
                    n++;
                });
                if(ok) {
                    sched::until([&]() { return n == 1; }, "response");
                }
            }
            srv.stop();
        });
        c.agreed();
        c.outcome(out);
    }
}

int main(int argc, char** argv) {
    auto T = mc::thorough();
    std::vector<mc::scenario> s;
    auto add = [&](std::string n, mc::body fn, uint32_t b) {
        s.push_back({n,
                     fn,
                     b,
                     8,
                     8,
                     mc::strf("all schedules with at most %u deviations, all "
                              "server behaviours listed",
                              b)});
    };
    uint32_t b = T ? 2 : 1;
    script plain, order, noise, garb, dropping, cut;
    order.batch = 2;
    order.order = true;
    noise = order;
    noise.dup = noise.unknown = true;
    garb.garbage = true;
    garb.empty = true;
    dropping.drop = dropping.dup = true;
    cut.disconnect = true;
    add("2 threads call, answers in any order",
        [=](mc::ctx& c) { sync_calls(c, order, 2, 1, 0ms); },
        b);
    add("2 threads call, duplicate and unknown answers",
        [=](mc::ctx& c) { sync_calls(c, noise, 2, 1, 0ms); },
        b);
    add("malformed and failure answers",
        [=](mc::ctx& c) { sync_calls(c, garb, 1, 2, 0ms); },
        b);
    add("timeouts",
        [=](mc::ctx& c) { sync_calls(c, dropping, 1, 2, 500ms); },
        b);
    add("timeouts, 2 threads",
        [=](mc::ctx& c) { sync_calls(c, dropping, 2, 1, 500ms); },
        b);
    add("disconnection",
        [=](mc::ctx& c) { sync_calls(c, cut, 1, 2, 500ms); },
        b);
    add("asynchronous, 2 threads",
        [=](mc::ctx& c) { async_calls(c, noise, 2, 0); },
        b);
    add("asynchronous, nested",
        [=](mc::ctx& c) { async_calls(c, plain, 2, 1); },
        b);
    add("client destroyed with calls pending",
        [=](mc::ctx& c) { async_calls(c, dropping, 2, 2); },
        b);
    using B = rpc::blocking_tcp_server<val, val>;
    using A = rpc::async_tcp_server<val, val>;
    add("blocking server, 2 clients",
        [=](mc::ctx& c) { server_scn<B>(c, 2, 2, false, true, false, 0); },
        b);
    add("blocking server, malformed requests",
        [=](mc::ctx& c) { server_scn<B>(c, 1, 2, true, false, false, 0); },
        b);
    add("async server, 2 clients, 2 workers",
        [=](mc::ctx& c) { server_scn<A>(c, 2, 1, false, false, false, 2); },
        b);
    add("async server, refusals, malformed requests",
        [=](mc::ctx& c) { server_scn<A>(c, 1, 2, true, true, false, 1); },
        b);
    add("async server, a client leaves",
        [=](mc::ctx& c) { server_scn<A>(c, 2, 1, false, false, true, 1); },
        b);
    add("raw async server, refusals, malformed requests",
        [=](mc::ctx& c) { server_scn<RS>(c, 1, 2, true, true, false, 1); },
        b);
    add("raw async server, 2 clients, 2 workers",
        [=](mc::ctx& c) { server_scn<RS>(c, 2, 1, false, false, false, 2); },
        b);
    add("client closed with calls pending", closed, b);
    add("client and blocking server", both<B>, b);
    add("client and async server", both<A>, b);
    add("two endpoints, one down", endpoints, b);
    return mc::main(argc,
                    argv,
                    "C22",
                    "model_checking",
                    "every schedule within the deviation bound and every "
                    "server behaviour of the scripts, on the real RPC code "
                    "over a simulated kernel",
                    {"kernel sockets modelled by mc/simnet.cpp"},
                    s);
}
