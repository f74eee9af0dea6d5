// C21: connection manager over the simulated network, every bounded schedule
#include "common.hpp"
#include "mc/sched.hpp"
#include "mc/simnet.hpp"
#include "util/network/connection_manager.hpp"

#include <map>
#include <thread>

using namespace cbdc;
using network::connection_manager;
using network::message_t;
using network::tcp_listener;
using network::tcp_socket;
namespace {
    using quiet = sched::atomic_section;
    network::endpoint_t ep(uint16_t p) {
        return {"127.0.0.1", p};
    }
    std::shared_ptr<buffer> pkt(uint8_t who, uint8_t n, size_t len = 2) {
        auto b = std::make_shared<buffer>();
        for(size_t i = 0; i < len; i++) {
            uint8_t x = i == 0 ? who : i == 1 ? n : uint8_t(i);
            b->append(&x, 1);
        }
        return b;
    }
    int who(const buffer& b) {
        return b.size() < 2 ? -1 : static_cast<const uint8_t*>(b.data())[0];
    }
    int num(const buffer& b) {
        return b.size() < 2 ? -1 : static_cast<const uint8_t*>(b.data())[1];
    }
    struct rec {
        size_t id;
        int who, num;
    };
    struct world {
        std::vector<rec> got;
        std::map<int, size_t> id_of; // sender -> peer id
        void on(const message_t& m) {
            quiet q;
            if(!m.m_pkt) {
                sched::fail("null-message", "handler called without data");
            }
            auto w = who(*m.m_pkt), n = num(*m.m_pkt);
            // identity: one sender, one id; one id, one sender
            auto [it, fresh] = id_of.emplace(w, m.m_peer_id);
            if(!fresh && it->second != m.m_peer_id) {
                sched::fail("identity",
                            mc::strf("sender %d appears as peer %zu and %zu",
                                     w,
                                     it->second,
                                     m.m_peer_id));
            }
            for(auto& [k, v] : id_of) {
                if(k != w && v == m.m_peer_id) {
                    sched::fail("identity",
                                mc::strf("senders %d and %d share peer id "
                                         "%zu",
                                         k,
                                         w,
                                         v));
                }
            }
            for(auto& r : got) {
                if(r.who == w && r.num == n) {
                    sched::fail("duplicate", "message handled twice");
                }
                if(r.who == w && r.num > n) {
                    sched::fail("order", "messages of a peer out of order");
                }
            }
            got.push_back({m.m_peer_id, w, n});
        }
        size_t count(int w) {
            size_t n = 0;
            for(auto& r : got) {
                n += r.who == w;
            }
            return n;
        }
        // messages 0..k-1 of this sender, no gaps
        void prefix(int w) {
            int n = 0;
            for(auto& r : got) {
                if(r.who == w && r.num != n++) {
                    sched::fail("gap", "a message was lost in the middle");
                }
            }
        }
        std::string str() {
            std::string s;
            for(auto& r : got) {
                s += mc::strf("%d.%d ", r.who, r.num);
            }
            return s;
        }
    };
    void must(bool b, const char* what) {
        if(!b) {
            sched::fail(std::string("unexpected:") + what, what);
        }
    }

    // A. server answering clients
    void echo(mc::ctx& c, int clients, int each, bool late) {
        std::string out;
        sched::options o;
        o.race_ignore = {};
        sched::run(c, o, [&]() {
            simnet::reset({});
            world w;
            connection_manager cm;
            auto th = cm.start_server(
                ep(5000),
                [&](message_t&& m) -> std::optional<buffer> {
                    w.on(m);
                    return *m.m_pkt;
                });
            must(th.has_value(), "start_server");
            std::vector<std::thread> t;
            for(int k = 0; k < clients; k++) {
                t.emplace_back([&, k]() {
                    tcp_socket s;
                    must(s.connect(ep(5000)), "connect");
                    for(int i = 0; i < each; i++) {
                        must(s.send(*pkt(uint8_t(k), uint8_t(i))), "send");
                        if(late) {
                            continue;
                        }
                        buffer b;
                        must(s.receive(b), "reply");
                        if(who(b) != k || num(b) != i) {
                            sched::fail("misdelivered",
                                        mc::strf("client %d got the reply "
                                                 "to %d.%d",
                                                 k,
                                                 who(b),
                                                 num(b)));
                        }
                    }
                    for(int i = 0; late && i < each; i++) {
                        buffer b;
                        must(s.receive(b), "reply");
                        if(who(b) != k || num(b) != i) {
                            sched::fail("misdelivered", "wrong reply");
                        }
                    }
                });
            }
            for(auto& x : t) {
                x.join();
            }
            must(w.got.size() == size_t(clients * each), "all handled");
            cm.close();
            th->join();
            out = w.str();
        });
        c.agreed();
        c.outcome(out);
    }
    // B. close at any moment
    void close_any(mc::ctx& c, int clients, bool echo_back) {
        std::string out;
        sched::options o;
        sched::run(c, o, [&]() {
            simnet::reset({});
            world w;
            std::vector<std::thread> t;
            {
                connection_manager cm;
                auto th = cm.start_server(
                    ep(5000),
                    [&](message_t&& m) -> std::optional<buffer> {
                        w.on(m);
                        if(echo_back) {
                            return *m.m_pkt;
                        }
                        return std::nullopt;
                    });
                must(th.has_value(), "start_server");
                for(int k = 0; k < clients; k++) {
                    t.emplace_back([&, k]() {
                        tcp_socket s;
                        if(!s.connect(ep(5000))) {
                            return;
                        }
                        for(int i = 0; i < 2; i++) {
                            if(!s.send(*pkt(uint8_t(k), uint8_t(i)))) {
                                return;
                            }
                        }
                        buffer b;
                        while(s.receive(b)) {
                            if(who(b) != k) {
                                sched::fail("misdelivered", "wrong reply");
                            }
                        }
                    });
                }
                cm.close();
                th->join();
                must(cm.peer_count() == 0, "no peers after close");
            }
            for(auto& x : t) {
                x.join();
            }
            for(int k = 0; k < clients; k++) {
                w.prefix(k);
            }
            out = w.str();
        });
        c.agreed();
        c.outcome(out);
    }
    struct remote {
        tcp_listener l;
        std::vector<std::pair<int, int>> got;
    };
    // C. client side: addressing
    void cluster(mc::ctx& c, int mode) {
        std::string out;
        sched::options o;
        sched::run(c, o, [&]() {
            simnet::reset({});
            world w;
            remote r[2];
            for(int k = 0; k < 2; k++) {
                must(r[k].l.listen("127.0.0.1", uint16_t(6000 + k)),
                     "listen");
            }
            auto serve = [&](int k) {
                tcp_socket s;
                must(r[k].l.accept(s), "accept");
                buffer b;
                while(s.receive(b)) {
                    int n{};
                    {
                        quiet q;
                        r[k].got.emplace_back(who(b), num(b));
                        n = int(r[k].got.size()) - 1;
                    }
                    // acknowledge
                    if(!s.send(*pkt(uint8_t(100 + k), uint8_t(n)))) {
                        break;
                    }
                }
            };
            std::vector<std::thread> t;
            t.emplace_back([&]() { serve(0); });
            t.emplace_back([&]() { serve(1); });
            {
                connection_manager cm;
                auto th = cm.start_cluster_handler(
                    {ep(6000), ep(6001)},
                    [&](message_t&& m) -> std::optional<buffer> {
                        w.on(m);
                        return std::nullopt;
                    });
                must(th.has_value(), "start_cluster_handler");
                must(cm.peer_count() == 2, "two peers");
                size_t want = 0;
                if(mode == 0) {
                    cm.send(pkt(1, 0), 1);
                    cm.send(pkt(1, 1), 0);
                    cm.send(pkt(1, 2), 1);
                    cm.send(pkt(1, 3), 7); // nobody
                    want = 3;
                } else if(mode == 1) {
                    cm.broadcast(pkt(1, 0));
                    cm.send(pkt(1, 1), 0);
                    cm.broadcast(pkt(1, 2));
                    want = 5;
                } else {
                    std::thread x([&]() {
                        must(cm.send_to_one(pkt(2, 0)), "send_to_one");
                        cm.send(pkt(2, 1), 0);
                    });
                    must(cm.send_to_one(pkt(1, 0)), "send_to_one");
                    cm.send(pkt(1, 1), 1);
                    x.join();
                    want = 4;
                }
                sched::until(
                    [&]() {
                        quiet q;
                        return w.got.size() >= want;
                    },
                    "acknowledgements");
                must(cm.connected(0) && cm.connected(1)
                         && cm.connected_to_one() && !cm.connected(2),
                     "connected");
                cm.close();
                th->join();
            }
            for(auto& x : t) {
                x.join();
            }
            quiet q;
            using G = std::vector<std::pair<int, int>>;
            if(mode == 0
               && (r[0].got != G{{1, 1}} || r[1].got != G{{1, 0}, {1, 2}})) {
                sched::fail("misdelivered", "messages at the wrong peer");
            }
            if(mode == 1
               && (r[0].got != G{{1, 0}, {1, 1}, {1, 2}}
                   || r[1].got != G{{1, 0}, {1, 2}})) {
                sched::fail("misdelivered", "broadcast incomplete");
            }
            if(mode == 2) {
                std::map<std::pair<int, int>, int> n;
                for(auto& x : r) {
                    for(auto& g : x.got) {
                        n[g]++;
                    }
                }
                if(n.size() != 4 || r[0].got.size() + r[1].got.size() != 4) {
                    sched::fail("misdelivered", "lost or duplicated");
                }
            }
            if(w.id_of.count(100) != 0 && w.id_of[100] != 0) {
                sched::fail("identity", "first endpoint is not peer 0");
            }
            if(w.id_of.count(101) != 0 && w.id_of[101] != 1) {
                sched::fail("identity", "second endpoint is not peer 1");
            }
            out = w.str();
        });
        c.agreed();
        c.outcome(out);
    }
    // D. remotes that drop the connection; the manager reconnects
    void reconnect(mc::ctx& c, int mode, bool close_early) {
        std::string out;
        sched::options o;
        sched::run(c, o, [&]() {
            simnet::reset({});
            world w;
            remote r[2];
            for(int k = 0; k < 2; k++) {
                must(r[k].l.listen("127.0.0.1", uint16_t(6000 + k)),
                     "listen");
            }
            bool stop = false;
            auto serve = [&](int k) {
                int n = 0;
                for(int round = 0; round < 2; round++) {
                    tcp_socket s;
                    if(!r[k].l.accept(s)) {
                        return;
                    }
                    // one message per connection
                    if(!s.send(*pkt(uint8_t(100 + k), uint8_t(n++)))) {
                        continue;
                    }
                    if(round == 0 && (mode == 1 || k == 0)) {
                        continue; // drops the connection
                    }
                    buffer b;
                    while(s.receive(b)) {
                        quiet q;
                        r[k].got.emplace_back(who(b), num(b));
                    }
                    return;
                }
            };
            std::vector<std::thread> t;
            t.emplace_back([&]() { serve(0); });
            t.emplace_back([&]() { serve(1); });
            {
                connection_manager cm;
                auto th = cm.start_cluster_handler(
                    {ep(6000), ep(6001)},
                    [&](message_t&& m) -> std::optional<buffer> {
                        w.on(m);
                        return std::nullopt;
                    });
                must(th.has_value(), "start_cluster_handler");
                if(!close_early) {
                    sched::until(
                        [&]() {
                            quiet q;
                            // the second connection's message arrives
                            bool a = false, b = mode == 0;
                            for(auto& x : w.got) {
                                a = a || (x.who == 100 && x.num == 1);
                                b = b || (x.who == 101 && x.num == 1);
                            }
                            return a && b;
                        },
                        "message after reconnection");
                    must(cm.connected(0), "connected again");
                    cm.send(pkt(1, 0), 0);
                    sched::until(
                        [&]() {
                            quiet q;
                            return !r[0].got.empty();
                        },
                        "send after reconnection");
                }
                cm.close();
                stop = true;
                th->join();
                must(cm.peer_count() == 0, "no peers after close");
            }
            r[0].l.close();
            r[1].l.close();
            for(auto& x : t) {
                x.join();
            }
            for(int k = 0; k < 2; k++) {
                if(w.id_of.count(100 + k) != 0
                   && w.id_of[100 + k] != size_t(k)) {
                    sched::fail("identity", "wrong peer id");
                }
                for(auto& g : r[k].got) {
                    if(k != 0 || g != std::pair<int, int>{1, 0}) {
                        sched::fail("misdelivered",
                                    "message at the wrong peer");
                    }
                }
            }
            out = w.str();
        });
        c.agreed();
        c.outcome(out);
    }
    // E. a client that leaves does not disturb the others
    void leave(mc::ctx& c) {
        std::string out;
        sched::options o;
        sched::run(c, o, [&]() {
            simnet::reset({});
            world w;
            connection_manager cm;
            auto th = cm.start_server(
                ep(5000),
                [&](message_t&& m) -> std::optional<buffer> {
                    w.on(m);
                    return *m.m_pkt;
                });
            must(th.has_value(), "start_server");
            std::thread a([&]() {
                tcp_socket s;
                must(s.connect(ep(5000)), "connect");
                must(s.send(*pkt(0, 0)), "send");
                // leaves without waiting
            });
            std::thread b([&]() {
                tcp_socket s;
                must(s.connect(ep(5000)), "connect");
                for(int i = 0; i < 2; i++) {
                    must(s.send(*pkt(1, uint8_t(i))), "send");
                    buffer x;
                    must(s.receive(x), "reply");
                    must(who(x) == 1 && num(x) == i, "own reply");
                }
            });
            a.join();
            b.join();
            sched::until(
                [&]() {
                    quiet q;
                    return w.count(0) == 1;
                },
                "message of the client that left");
            must(w.count(1) == 2, "both messages");
            auto ida = w.id_of[0];
            sched::until(
                [&]() {
                    quiet q;
                    return !cm.connected(ida);
                },
                "disconnection noticed");
            cm.send(pkt(9, 9), ida);
            cm.close();
            th->join();
            out = w.str();
        });
        c.agreed();
        c.outcome(out);
    }
    // F. unreachable endpoint: retries, and close ends the retries
    void unreachable(mc::ctx& c, bool appears) {
        std::string out;
        sched::options o;
        sched::run(c, o, [&]() {
            simnet::reset({});
            world w;
            tcp_listener l;
            connection_manager cm;
            must(cm.cluster_connect({ep(6000)}, false), "cluster_connect");
            auto th = cm.start_handler(
                [&](message_t&& m) -> std::optional<buffer> {
                    w.on(m);
                    return std::nullopt;
                });
            std::thread t;
            if(appears) {
                must(l.listen("127.0.0.1", 6000), "listen");
                t = std::thread([&]() {
                    tcp_socket s;
                    must(l.accept(s), "accept");
                    must(s.send(*pkt(3, 0)), "send");
                    buffer b;
                    (void)s.receive(b);
                });
                sched::until(
                    [&]() {
                        quiet q;
                        return w.count(3) == 1;
                    },
                    "message once the endpoint is up");
            }
            cm.close();
            th.join();
            if(t.joinable()) {
                t.join();
            }
            out = w.str();
        });
        c.agreed();
        c.outcome(out);
    }
    // G. reset makes the manager usable again
    void again(mc::ctx& c) {
        std::string out;
        sched::options o;
        sched::run(c, o, [&]() {
            simnet::reset({});
            tcp_listener l;
            must(l.listen("127.0.0.1", 6000), "listen");
            std::thread t([&]() {
                for(int i = 0; i < 2; i++) {
                    tcp_socket s;
                    must(l.accept(s), "accept");
                    must(s.send(*pkt(3, uint8_t(i))), "send");
                    buffer b;
                    (void)s.receive(b);
                }
            });
            connection_manager cm;
            for(int i = 0; i < 2; i++) {
                world w;
                auto th = cm.start_cluster_handler(
                    {ep(6000)},
                    [&](message_t&& m) -> std::optional<buffer> {
                        w.on(m);
                        return std::nullopt;
                    });
                must(th.has_value(), "start_cluster_handler");
                sched::until(
                    [&]() {
                        quiet q;
                        return w.count(3) == 1;
                    },
                    "message");
                must(w.got[0].num == i && w.got[0].id == 0, "right message");
                cm.close();
                th->join();
                cm.reset();
                out += w.str();
            }
            t.join();
        });
        c.agreed();
        c.outcome(out);
    }
    // H. a server opened again, other sockets having come and gone
    void reopened(mc::ctx& c) {
        std::string out;
        sched::options o;
        sched::run(c, o, [&]() {
            simnet::reset({});
            auto before = sched::choose(7, "sockets before", 0);
            auto between = sched::choose(4, "sockets between", 0);
            std::vector<std::unique_ptr<tcp_listener>> other;
            auto open = [&](uint32_t n) {
                for(uint32_t i = 0; i < n; i++) {
                    other.push_back(std::make_unique<tcp_listener>());
                    must(other.back()->listen(
                             "127.0.0.1",
                             uint16_t(7000 + other.size())),
                         "listen");
                }
            };
            open(before);
            connection_manager cm;
            for(int i = 0; i < 2; i++) {
                auto th = cm.start_server(
                    ep(6000),
                    [&](message_t&& m) -> std::optional<buffer> {
                        return *m.m_pkt;
                    });
                must(th.has_value(), "start_server");
                {
                    tcp_socket s;
                    must(s.connect(ep(6000)), "connect");
                    must(s.send(*pkt(3, uint8_t(i))), "send");
                    buffer b;
                    must(s.receive(b) && b == *pkt(3, uint8_t(i)), "echo");
                }
                cm.close();
                th->join();
                cm.reset();
                other.clear();
                open(between);
            }
            out = "served twice";
        });
        c.agreed();
        c.outcome(out);
    }
}

int main(int argc, char** argv) {
    auto T = mc::thorough();
    std::vector<mc::scenario> s;
    auto add = [&](std::string n, mc::body f, uint32_t b) {
        s.push_back({n,
                     f,
                     b,
                     8,
                     8,
                     mc::strf("all schedules with at most %u deviations", b)});
    };
    uint32_t b = T ? 2 : 1;
    add("server, 1 client, 2 messages",
        [](mc::ctx& c) { echo(c, 1, 2, false); },
        b + 1);
    add("server, 2 clients, 2 messages, pipelined",
        [](mc::ctx& c) { echo(c, 2, 2, true); },
        b);
    add("close during traffic, 1 client",
        [](mc::ctx& c) { close_any(c, 1, true); },
        b + 1);
    add("close during traffic, 2 clients",
        [](mc::ctx& c) { close_any(c, 2, false); },
        b + 1);
    add("cluster: send", [](mc::ctx& c) { cluster(c, 0); }, b);
    add("cluster: broadcast", [](mc::ctx& c) { cluster(c, 1); }, b);
    add("cluster: send_to_one from two threads",
        [](mc::ctx& c) { cluster(c, 2); },
        b);
    add("reconnect one", [](mc::ctx& c) { reconnect(c, 0, false); }, b);
    add("reconnect two", [](mc::ctx& c) { reconnect(c, 1, false); }, b);
    add("close during reconnect",
        [](mc::ctx& c) { reconnect(c, 1, true); },
        b);
    add("a client leaves", leave, b);
    add("endpoint down, close",
        [](mc::ctx& c) { unreachable(c, false); },
        b + 1);
    add("endpoint comes up", [](mc::ctx& c) { unreachable(c, true); }, b);
    add("reset and reuse", again, b + 1);
    add("server opened again", reopened, b);
    return mc::main(argc,
                    argv,
                    "C21",
                    "model_checking",
                    "every schedule within the deviation bound of the real "
                    "connection manager, peers and sockets over a simulated "
                    "kernel; deadlock, livelock and data-race detection",
                    {"kernel sockets modelled by mc/simnet.cpp"},
                    s);
}
