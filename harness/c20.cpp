// C20: messages over a byte stream, for every way the kernel may cut it
#include "common.hpp"
#include "mc/sched.hpp"
#include "mc/simnet.hpp"
#include "util/network/tcp_listener.hpp"
#include "util/network/tcp_socket.hpp"

#include <sys/resource.h>
#include <thread>

using namespace cbdc;
namespace {
    using bytes = std::vector<uint8_t>;
    using msgs = std::vector<size_t>; // sizes
    constexpr uint16_t port = 7000;

    uint8_t byte_at(size_t m, size_t i) {
        return uint8_t(0x11 * (m + 1) + 7 * i);
    }
    buffer message(size_t m, size_t n) {
        buffer b;
        for(size_t i = 0; i < n; i++) {
            auto x = byte_at(m, i);
            b.append(&x, 1);
        }
        return b;
    }
    bool same(const buffer& b, size_t m, size_t n) {
        if(b.size() != n) {
            return false;
        }
        for(size_t i = 0; i < n; i++) {
            if(static_cast<const uint8_t*>(b.data())[i] != byte_at(m, i)) {
                return false;
            }
        }
        return true;
    }
    network::endpoint_t ep(uint16_t p) {
        return {"127.0.0.1", p};
    }
    // the bytes the sender puts on the wire for these messages
    bytes encode(const msgs& v, std::vector<size_t>* ends) {
        simnet::reset({});
        simnet::script(port, {});
        bytes all;
        network::tcp_socket s;
        if(!s.connect(ep(port))) {
            sched::fail("connect", "connect refused");
        }
        for(size_t i = 0; i < v.size(); i++) {
            if(!s.send(message(i, v[i]))) {
                sched::fail("send-fails", "send failed without a fault");
            }
            if(ends != nullptr) {
                ends->push_back(simnet::script_sent(port).size());
            }
        }
        return simnet::script_sent(port);
    }
    std::string name(const msgs& v) {
        std::string r;
        for(auto x : v) {
            r += mc::strf("%s%zu", r.empty() ? "" : ",", x);
        }
        return r;
    }
    // Receives from `wire`; exactly the first `whole` messages must come out.
    void expect(const msgs& v, size_t whole, bool exact, std::string& out) {
        network::tcp_socket s;
        if(!s.connect(ep(port))) {
            sched::fail("connect", "connect refused");
        }
        size_t n = 0;
        while(true) {
            buffer b;
            // stale content must not leak into the message
            b.append("zz", 2);
            if(!s.receive(b)) {
                break;
            }
            if(n >= whole) {
                sched::fail("phantom",
                            mc::strf("message %zu of %zu bytes delivered "
                                     "though the stream holds %zu whole "
                                     "messages",
                                     n,
                                     b.size(),
                                     whole));
            }
            if(!same(b, n, v[n])) {
                sched::fail("corrupt",
                            mc::strf("message %zu differs (%zu bytes, "
                                     "sent %zu)",
                                     n,
                                     b.size(),
                                     v[n]));
            }
            n++;
        }
        if(exact && n != whole) {
            sched::fail("lost",
                        mc::strf("%zu of %zu messages delivered", n, whole));
        }
        out = mc::strf("%zu", n);
    }
    // every partition of the incoming bytes
    void read_scn(mc::ctx& c, const msgs& v, int mode) {
        std::string out;
        sched::run(c, {}, [&]() {
            auto wire = encode(v, nullptr);
            simnet::options o;
            o.fragment_read = mode;
            o.frag_cost = mode == 2 ? 0 : 1;
            simnet::reset(o);
            simnet::script(port, wire);
            expect(v, v.size(), true, out);
        });
        c.agreed();
        c.outcome(out);
    }
    // every cut point, every partition with few deviations
    void cut_scn(mc::ctx& c, const msgs& v) {
        std::string out;
        sched::run(c, {}, [&]() {
            std::vector<size_t> ends;
            auto wire = encode(v, &ends);
            auto k = sched::choose(uint32_t(wire.size() + 1), "cut at");
            wire.resize(k);
            size_t whole = 0;
            for(auto e : ends) {
                whole += e <= k ? 1 : 0;
            }
            simnet::options o;
            o.fragment_read = 2;
            o.frag_cost = 1;
            simnet::reset(o);
            simnet::script(port, wire);
            expect(v, whole, true, out);
        });
        c.agreed();
        c.outcome(out);
    }
    // any read may fail
    void fail_scn(mc::ctx& c, const msgs& v) {
        std::string out;
        sched::run(c, {}, [&]() {
            auto wire = encode(v, nullptr);
            simnet::options o;
            o.fragment_read = 2;
            o.frag_cost = 1;
            o.fail_read = true;
            o.fail_cost = 1;
            simnet::reset(o);
            simnet::script(port, wire);
            expect(v, v.size(), false, out);
        });
        c.agreed();
        c.outcome(out);
    }
    // every way the outgoing bytes may be accepted, optionally with failures
    void write_scn(mc::ctx& c, const msgs& v, int mode, bool faults) {
        std::string out;
        sched::run(c, {}, [&]() {
            simnet::options o;
            o.fragment_write = mode;
            o.frag_cost = mode == 2 && !faults ? 0 : 1;
            o.fail_write = faults;
            simnet::reset(o);
            simnet::script(port, {});
            size_t sent = 0;
            {
                network::tcp_socket s;
                if(!s.connect(ep(port))) {
                    sched::fail("connect", "connect refused");
                }
                for(; sent < v.size(); sent++) {
                    if(!s.send(message(sent, v[sent]))) {
                        break;
                    }
                }
            }
            auto wire = simnet::script_sent(port);
            if(!faults && sent != v.size()) {
                sched::fail("send-fails", "send failed without a fault");
            }
            // whatever reached the wire holds exactly the messages reported
            // as sent
            simnet::reset({});
            simnet::script(port, wire);
            expect(v, sent, true, out);
        });
        c.agreed();
        c.outcome(out);
    }
    // both ends live, both directions, tiny socket buffers
    void duplex_scn(mc::ctx& c, const msgs& v, size_t cap, bool both) {
        std::string out;
        sched::run(c, {}, [&]() {
            simnet::options o;
            o.capacity = cap;
            o.fragment_read = 1;
            o.fragment_write = 1;
            o.frag_cost = 1;
            simnet::reset(o);
            network::tcp_listener l;
            if(!l.listen("127.0.0.1", port)) {
                sched::fail("listen", "listen failed");
            }
            network::tcp_socket a, b;
            std::vector<std::thread> t;
            t.emplace_back([&]() {
                if(!l.accept(b)) {
                    sched::fail("accept", "accept failed");
                }
            });
            if(!a.connect(ep(port))) {
                sched::fail("connect", "connect refused");
            }
            t[0].join();
            auto tx = [&](network::tcp_socket& s) {
                for(size_t i = 0; i < v.size(); i++) {
                    if(!s.send(message(i, v[i]))) {
                        sched::fail("send-fails",
                                    "send failed without a fault");
                    }
                }
            };
            auto rx = [&](network::tcp_socket& s) {
                for(size_t i = 0; i < v.size(); i++) {
                    buffer m;
                    if(!s.receive(m)) {
                        sched::fail("lost", "receive failed");
                    }
                    if(!same(m, i, v[i])) {
                        sched::fail("corrupt", "message differs");
                    }
                }
            };
            t.clear();
            t.emplace_back([&]() { tx(a); });
            t.emplace_back([&]() { rx(b); });
            if(both) {
                t.emplace_back([&]() { tx(b); });
                rx(a);
            }
            for(auto& x : t) {
                x.join();
            }
            a.disconnect();
            buffer m;
            if(b.receive(m)) {
                sched::fail("phantom", "message after disconnection");
            }
            out = "ok";
        });
        c.agreed();
        c.outcome(out);
    }
    // length fields that promise more than there is
    void hostile_scn(mc::ctx& c) {
        std::string out;
        sched::run(c, {}, [&]() {
            simnet::reset({});
            bytes w(8);
            auto k = sched::choose(64, "length bit");
            w[k / 8] = uint8_t(1U << (k % 8));
            if(sched::choose(2, "all lower bits too") == 1) {
                for(size_t i = 0; i < k / 8; i++) {
                    w[i] = 0xff;
                }
                w[k / 8] = uint8_t((2U << (k % 8)) - 1);
            }
            auto body = sched::choose(3, "bytes that follow");
            uint64_t len{};
            memcpy(&len, w.data(), 8);
            if(body >= len) {
                return;
            }
            w.resize(8 + body, 0x42);
            simnet::script(port, w);
            network::tcp_socket s;
            if(!s.connect(ep(port))) {
                sched::fail("connect", "connect refused");
            }
            buffer b;
            if(s.receive(b)) {
                sched::fail("phantom", "truncated message delivered");
            }
        });
        c.agreed();
        c.outcome("refused");
    }
    // larger messages, sizes around powers of two and page sizes
    void size_scn(mc::ctx& c) {
        std::string out;
        sched::run(c, {}, [&]() {
            static const size_t sz[]
                = {127,   128,   255,    256,    4095,   4096,  65535,
                   65536, 65537, 131071, 131072, 200001, 262145};
            msgs v{sz[sched::choose(13, "size")], 3};
            auto wire = encode(v, nullptr);
            simnet::options o;
            o.fragment_read = 1;
            o.frag_cost = 1;
            simnet::reset(o);
            simnet::script(port, wire);
            expect(v, v.size(), true, out);
        });
        c.agreed();
        c.outcome(out);
    }
}

int main(int argc, char** argv) {
    rlimit r{8ULL << 30, 8ULL << 30};
    setrlimit(RLIMIT_AS, &r);
    auto T = mc::thorough();
    std::vector<mc::scenario> s;
    std::vector<msgs> lists
        = {{0}, {1}, {2}, {5}, {0, 0}, {1, 2}, {3, 0}, {0, 3}};
    if(T) {
        lists.push_back({4, 3});
        lists.push_back({9});
    }
    for(auto& v : lists) {
        s.push_back({"read partitions " + name(v),
                     [v](mc::ctx& c) { read_scn(c, v, 2); },
                     0,
                     8,
                     5,
                     "every partition of the byte stream into reads"});
        s.push_back({"write partitions " + name(v),
                     [v](mc::ctx& c) { write_scn(c, v, 2, false); },
                     0,
                     8,
                     5,
                     "every partition of the bytes into writes"});
    }
    uint32_t d = T ? 4 : 3;
    for(auto& v : std::vector<msgs>{{0}, {2}, {1, 2}, {3, 0, 1}, {0, 7, 2}}) {
        s.push_back({"cut " + name(v),
                     [v](mc::ctx& c) { cut_scn(c, v); },
                     d,
                     8,
                     3,
                     mc::strf("every cut point x up to %u short reads of "
                              "every length",
                              d)});
        s.push_back({"read failures " + name(v),
                     [v](mc::ctx& c) { fail_scn(c, v); },
                     d,
                     8,
                     4,
                     mc::strf("up to %u short reads or failed reads", d)});
        s.push_back({"write failures " + name(v),
                     [v](mc::ctx& c) { write_scn(c, v, 2, true); },
                     d,
                     8,
                     4,
                     mc::strf("up to %u short writes or failed writes", d)});
    }
    uint32_t x = T ? 3 : 2;
    s.push_back({"duplex tiny buffers",
                 [](mc::ctx& c) { duplex_scn(c, {3, 0, 1}, 5, true); },
                 x,
                 8,
                 6,
                 mc::strf("schedules and cuts with up to %u deviations", x)});
    s.push_back({"one way, one-byte buffers",
                 [](mc::ctx& c) { duplex_scn(c, {2, 1}, 1, false); },
                 x,
                 8,
                 6,
                 mc::strf("schedules and cuts with up to %u deviations", x)});
    s.push_back({"hostile lengths", hostile_scn, 0, 4, 2,
                 "every power of two and 2^k-1 as length, 0-2 bytes after"});
    s.push_back({"sizes", size_scn, 2, 8, 2,
                 "13 sizes up to 256 KiB, up to 2 odd reads"});
    return mc::main(argc,
                    argv,
                    "C20",
                    "model_checking",
                    "every partition of short streams into reads and writes, "
                    "every cut and every failing call, on the real socket "
                    "code over a simulated kernel",
                    {"kernel sockets modelled by mc/simnet.cpp (ordered, "
                     "reliable byte stream per connection)"},
                    s);
}
