#include "simnet.hpp"

#include "sched.hpp"

#include <arpa/inet.h>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <dlfcn.h>
#include <map>
#include <memory>
#include <netdb.h>
#include <netinet/in.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <unistd.h>

namespace simnet {
    namespace {
        enum class kind { fresh, listener, conn, pipe_r, pipe_w };
        struct obj {
            kind k{kind::fresh};
            uint16_t port{};
            // listener
            std::deque<std::shared_ptr<obj>> queue;
            // connection / pipe
            std::weak_ptr<obj> peer;
            std::deque<uint8_t> rx;
            std::vector<uint8_t> tx; // log
            bool eof{};     // other side will send no more
            bool gone{};    // other side is closed
            bool rst{};     // errors after the buffered data
            bool shut_r{};
            bool shut_w{};
            bool closed{};
            bool scripted{};
            bool bound{};
        };
        using ptr = std::shared_ptr<obj>;
        struct net {
            options o;
            std::map<int, ptr> fds;
            std::map<uint16_t, ptr> ports;
            std::map<uint16_t, bool> refused;
            std::vector<ptr> all;
            std::map<uint16_t, std::vector<uint8_t>> scripts;
            std::map<uint16_t, ptr> scripted;
        };
        net* g = nullptr;
        char g_select; // anybody in select() waits on this
        constexpr int base = 400;

        bool on() {
            return g != nullptr && sched::active();
        }
        ptr get(int fd) {
            if(!on()) {
                return nullptr;
            }
            auto it = g->fds.find(fd);
            return it == g->fds.end() ? nullptr : it->second;
        }
        bool ours(int fd) {
            return on() && fd >= base;
        }
        int put(const ptr& p) {
            int fd = base;
            while(g->fds.count(fd) != 0) {
                fd++;
            }
            g->fds[fd] = p;
            return fd;
        }
        ptr make(kind k) {
            auto p = std::make_shared<obj>();
            p->k = k;
            g->all.push_back(p);
            return p;
        }
        void changed(const ptr& p) {
            sched::wake_all(p.get());
            sched::wake_all(&g_select);
        }
        std::pair<ptr, ptr> pair(uint16_t port) {
            auto a = make(kind::conn), b = make(kind::conn);
            a->peer = b;
            b->peer = a;
            a->port = b->port = port;
            return {a, b};
        }
        void drop_end(const ptr& p) {
            // p's side goes away
            if(auto q = p->peer.lock()) {
                q->eof = true;
                q->gone = true;
                changed(q);
            }
            p->shut_r = p->shut_w = true;
            changed(p);
        }
        bool readable(const ptr& p) {
            switch(p->k) {
                case kind::listener:
                    return !p->queue.empty() || p->shut_r;
                case kind::pipe_r:
                    return !p->rx.empty() || p->eof;
                case kind::conn:
                    return !p->rx.empty() || p->eof || p->shut_r || p->rst;
                default:
                    return true;
            }
        }
        size_t portion(size_t n, int mode, const char* what) {
            if(n <= 1 || mode == 0) {
                return n;
            }
            if(mode == 1) {
                auto k = sched::choose(n > 2 ? 3 : 2, what, g->o.frag_cost);
                return k == 0 ? n : k == 1 ? 1 : n - 1;
            }
            return n - sched::choose(uint32_t(n), what, g->o.frag_cost);
        }
        template<typename F>
        F real(const char* n) {
            return reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
        }
    }

    void reset(const options& o) {
        delete g;
        g = new net;
        g->o = o;
    }
    void sever(uint16_t port, bool drop) {
        for(auto& p : g->all) {
            if(p->k == kind::conn && p->port == port && !p->closed) {
                p->eof = true;
                p->rst = true;
                p->gone = true;
                if(drop) {
                    p->rx.clear();
                }
                changed(p);
            }
        }
    }
    void refuse(uint16_t port, bool yes) {
        g->refused[port] = yes;
    }
    size_t open_fds() {
        return g->fds.size();
    }
    bool listening(uint16_t port) {
        auto it = g->ports.find(port);
        return it != g->ports.end() && it->second->k == kind::listener;
    }
    static ptr do_connect(uint16_t port) {
        auto it = g->ports.find(port);
        if(auto sc = g->scripts.find(port); sc != g->scripts.end()) {
            auto p = make(kind::conn);
            p->rx.assign(sc->second.begin(), sc->second.end());
            p->eof = p->scripted = true;
            p->port = port;
            g->scripted[port] = p;
            return p;
        }
        if(it == g->ports.end() || it->second->k != kind::listener
           || g->refused[port]) {
            return nullptr;
        }
        auto [a, b] = pair(port);
        it->second->queue.push_back(b);
        changed(it->second);
        return a;
    }
    int raw_connect(uint16_t port) {
        auto a = do_connect(port);
        return a ? put(a) : -1;
    }
    bool raw_write(int fd, const std::vector<uint8_t>& d) {
        auto p = get(fd);
        auto q = p ? p->peer.lock() : nullptr;
        if(!q || q->closed) {
            return false;
        }
        sched::hb_release(q.get());
        q->rx.insert(q->rx.end(), d.begin(), d.end());
        changed(q);
        return true;
    }
    std::vector<uint8_t> raw_drain(int fd) {
        auto p = get(fd);
        std::vector<uint8_t> r;
        if(p) {
            sched::hb_acquire(p.get());
            r.assign(p->rx.begin(), p->rx.end());
            p->rx.clear();
            changed(p);
        }
        return r;
    }
    void raw_close(int fd) {
        auto p = get(fd);
        if(p) {
            g->fds.erase(fd);
            p->closed = true;
            drop_end(p);
        }
    }
    int scripted(const std::vector<uint8_t>& d) {
        auto p = make(kind::conn);
        p->rx.assign(d.begin(), d.end());
        p->eof = true;
        p->scripted = true;
        return put(p);
    }
    std::vector<uint8_t> sent_on(int fd) {
        auto p = get(fd);
        return p ? p->tx : std::vector<uint8_t>{};
    }

    void script(uint16_t port, const std::vector<uint8_t>& d) {
        g->scripts[port] = d;
    }
    std::vector<uint8_t> script_sent(uint16_t port) {
        return g->scripted[port]->tx;
    }

    static ssize_t do_read(int fd, void* buf, size_t n) {
        sched::point("read");
        auto p = get(fd);
        if(!p) {
            errno = EBADF;
            return -1;
        }
        if(p->k != kind::conn && p->k != kind::pipe_r) {
            errno = ENOTCONN;
            return -1;
        }
        if(n == 0) {
            return 0;
        }
        while(true) {
            if(p->k == kind::conn && g->o.fail_read
               && sched::choose(2, "read fails", g->o.fail_cost) == 1) {
                p->rst = true;
                p->rx.clear();
                errno = ECONNRESET;
                return -1;
            }
            if(!p->rx.empty()) {
                auto m = std::min(n, p->rx.size());
                if(p->k == kind::conn) {
                    m = portion(m, g->o.fragment_read, "bytes read");
                }
                sched::hb_acquire(p.get());
                for(size_t i = 0; i < m; i++) {
                    static_cast<uint8_t*>(buf)[i] = p->rx[i];
                }
                p->rx.erase(p->rx.begin(), p->rx.begin() + long(m));
                if(auto q = p->peer.lock()) {
                    changed(q);
                }
                return ssize_t(m);
            }
            if(p->rst) {
                errno = ECONNRESET;
                return -1;
            }
            if(p->eof || p->shut_r) {
                return 0;
            }
            sched::block_on(p.get(), "read");
        }
    }
    static ssize_t do_write(int fd, const void* buf, size_t n) {
        sched::point("write");
        auto p = get(fd);
        if(!p) {
            errno = EBADF;
            return -1;
        }
        if(p->k != kind::conn && p->k != kind::pipe_w) {
            errno = EPIPE;
            return -1;
        }
        if(n == 0) {
            return 0;
        }
        while(true) {
            if(p->k == kind::conn && g->o.fail_write
               && sched::choose(2, "write fails", g->o.fail_cost) == 1) {
                p->rst = true;
                p->shut_w = true;
                errno = ECONNRESET;
                return -1;
            }
            if(p->shut_w || p->rst) {
                errno = EPIPE;
                return -1;
            }
            auto* b = static_cast<const uint8_t*>(buf);
            if(p->scripted) {
                auto m = portion(n, g->o.fragment_write, "bytes written");
                p->tx.insert(p->tx.end(), b, b + m);
                return ssize_t(m);
            }
            auto q = p->peer.lock();
            if(!q || q->closed || p->gone) {
                // the kernel takes it; the answer is a reset
                p->rst = true;
                changed(p);
                return ssize_t(n);
            }
            auto room = g->o.capacity > q->rx.size()
                          ? g->o.capacity - q->rx.size()
                          : 0;
            if(room == 0) {
                sched::block_on(p.get(), "write");
                continue;
            }
            auto m = std::min(n, room);
            if(p->k == kind::conn) {
                m = portion(m, g->o.fragment_write, "bytes written");
                p->tx.insert(p->tx.end(), b, b + m);
            }
            sched::hb_release(q.get());
            q->rx.insert(q->rx.end(), b, b + m);
            changed(q);
            return ssize_t(m);
        }
    }
}

using namespace simnet;
extern "C" {
int socket(int d, int t, int p) noexcept {
    if(!on()) {
        return real<int (*)(int, int, int)>("socket")(d, t, p);
    }
    sched::rt_guard guard_;
    sched::point("socket");
    return put(make(kind::fresh));
}
int setsockopt(int fd,
               int l,
               int n,
               const void* v,
               socklen_t len) noexcept {
    if(!ours(fd)) {
        return real<int (*)(int, int, int, const void*, socklen_t)>(
            "setsockopt")(fd, l, n, v, len);
    }
    sched::rt_guard guard_;
    if(!get(fd)) {
        errno = EBADF;
        return -1;
    }
    return 0;
}
int bind(int fd, const sockaddr* a, socklen_t n) noexcept {
    if(!ours(fd)) {
        return real<int (*)(int, const sockaddr*, socklen_t)>("bind")(fd,
                                                                      a,
                                                                      n);
    }
    sched::rt_guard guard_;
    auto p = get(fd);
    if(!p) {
        errno = EBADF;
        return -1;
    }
    auto port = ntohs(reinterpret_cast<const sockaddr_in*>(a)->sin_port);
    if(g->ports.count(port) != 0) {
        errno = EADDRINUSE;
        return -1;
    }
    p->port = port;
    p->bound = true;
    g->ports[port] = p;
    return 0;
}
int listen(int fd, int backlog) noexcept {
    if(!ours(fd)) {
        return real<int (*)(int, int)>("listen")(fd, backlog);
    }
    sched::rt_guard guard_;
    sched::point("listen");
    auto p = get(fd);
    if(!p) {
        errno = EBADF;
        return -1;
    }
    p->k = kind::listener;
    return 0;
}
int accept(int fd, sockaddr* a, socklen_t* n) {
    if(!ours(fd) && !(on() && fd < 0)) {
        return real<int (*)(int, sockaddr*, socklen_t*)>("accept")(fd, a, n);
    }
    sched::rt_guard guard_;
    sched::point("accept");
    auto p = get(fd);
    if(!p) {
        errno = EBADF;
        return -1;
    }
    while(true) {
        if(p->shut_r) {
            errno = EINVAL;
            return -1;
        }
        if(!p->queue.empty()) {
            if(g->o.accept_fail
               && sched::choose(2, "accept fails", g->o.fail_cost) == 1) {
                errno = ECONNABORTED;
                return -1;
            }
            auto q = p->queue.front();
            p->queue.pop_front();
            return put(q);
        }
        sched::block_on(p.get(), "accept");
    }
}
int connect(int fd, const sockaddr* a, socklen_t n) {
    if(!ours(fd)) {
        return real<int (*)(int, const sockaddr*, socklen_t)>("connect")(fd,
                                                                         a,
                                                                         n);
    }
    sched::rt_guard guard_;
    sched::point("connect");
    auto p = get(fd);
    if(!p) {
        errno = EBADF;
        return -1;
    }
    auto port = ntohs(reinterpret_cast<const sockaddr_in*>(a)->sin_port);
    auto c = do_connect(port);
    if(!c) {
        errno = ECONNREFUSED;
        return -1;
    }
    g->fds[fd] = c;
    return 0;
}
int shutdown(int fd, int how) noexcept {
    if(!ours(fd) && !(on() && fd < 0)) {
        return real<int (*)(int, int)>("shutdown")(fd, how);
    }
    sched::rt_guard guard_;
    sched::point("shutdown");
    auto p = get(fd);
    if(!p) {
        errno = EBADF;
        return -1;
    }
    if(how == SHUT_RD || how == SHUT_RDWR) {
        p->shut_r = true;
    }
    if(how == SHUT_WR || how == SHUT_RDWR) {
        p->shut_w = true;
        if(auto q = p->peer.lock()) {
            q->eof = true;
            changed(q);
        }
    }
    if(p->k == kind::listener) {
        for(auto& c : p->queue) {
            drop_end(c);
        }
    }
    changed(p);
    return 0;
}
int close(int fd) {
    if(!ours(fd) && !(on() && fd < 0)) {
        return real<int (*)(int)>("close")(fd);
    }
    sched::rt_guard guard_;
    sched::point("close");
    auto p = get(fd);
    if(!p) {
        errno = EBADF;
        return -1;
    }
    g->fds.erase(fd);
    // a descriptor somebody is blocked on stays alive for them
    p->closed = true;
    if(p->bound) {
        g->ports.erase(p->port);
    }
    if(p->k == kind::conn || p->k == kind::pipe_r || p->k == kind::pipe_w) {
        if(auto q = p->peer.lock()) {
            q->eof = true;
            q->gone = true;
            changed(q);
        }
    }
    for(auto& c : p->queue) {
        drop_end(c);
    }
    return 0;
}
ssize_t read(int fd, void* b, size_t n) {
    if(!ours(fd) && !(on() && fd < 0)) {
        return real<ssize_t (*)(int, void*, size_t)>("read")(fd, b, n);
    }
    sched::rt_guard guard_;
    return do_read(fd, b, n);
}
ssize_t write(int fd, const void* b, size_t n) {
    if(!ours(fd) && !(on() && fd < 0)) {
        return real<ssize_t (*)(int, const void*, size_t)>("write")(fd, b, n);
    }
    sched::rt_guard guard_;
    return do_write(fd, b, n);
}
ssize_t recv(int fd, void* b, size_t n, int fl) {
    if(!ours(fd) && !(on() && fd < 0)) {
        return real<ssize_t (*)(int, void*, size_t, int)>("recv")(fd,
                                                                  b,
                                                                  n,
                                                                  fl);
    }
    sched::rt_guard guard_;
    if((fl & MSG_WAITALL) != 0) {
        size_t got = 0;
        while(got < n) {
            auto r = do_read(fd, static_cast<char*>(b) + got, n - got);
            if(r <= 0) {
                return got > 0 ? ssize_t(got) : r;
            }
            got += size_t(r);
        }
        return ssize_t(got);
    }
    return do_read(fd, b, n);
}
ssize_t send(int fd, const void* b, size_t n, int fl) {
    if(!ours(fd) && !(on() && fd < 0)) {
        return real<ssize_t (*)(int, const void*, size_t, int)>("send")(fd,
                                                                        b,
                                                                        n,
                                                                        fl);
    }
    sched::rt_guard guard_;
    return do_write(fd, b, n);
}
int pipe(int fds[2]) noexcept {
    if(!on()) {
        return real<int (*)(int*)>("pipe")(fds);
    }
    sched::rt_guard guard_;
    auto r = make(kind::pipe_r), wr = make(kind::pipe_w);
    r->peer = wr;
    wr->peer = r;
    fds[0] = put(r);
    fds[1] = put(wr);
    return 0;
}
int select(int nfds, fd_set* r, fd_set* wr, fd_set* e, struct timeval* t) {
    if(!on()) {
        return real<int (*)(int, fd_set*, fd_set*, fd_set*, struct timeval*)>(
            "select")(nfds, r, wr, e, t);
    }
    sched::rt_guard guard_;
    sched::point("select");
    std::vector<std::pair<int, ptr>> set;
    for(int i = 0; i < nfds; i++) {
        if(r != nullptr && FD_ISSET(i, r)) {
            auto p = get(i);
            if(!p) {
                errno = EBADF;
                return -1;
            }
            set.emplace_back(i, p);
        }
    }
    uint64_t dl = t == nullptr ? 0
                               : sched::now_ns()
                                     + uint64_t(t->tv_sec) * 1000000000ULL
                                     + uint64_t(t->tv_usec) * 1000;
    while(true) {
        int n = 0;
        bool first = true;
        for(auto& [fd, p] : set) {
            if(readable(p)) {
                if(first) {
                    FD_ZERO(r);
                    first = false;
                }
                FD_SET(fd, r);
                n++;
            }
        }
        if(n > 0) {
            return n;
        }
        if(t != nullptr) {
            if(!sched::block_on_timed(&g_select, "select", dl)) {
                FD_ZERO(r);
                return 0;
            }
        } else {
            sched::block_on(&g_select, "select");
        }
    }
}
int getaddrinfo(const char* host,
                const char* port,
                const addrinfo* hints,
                addrinfo** res) {
    if(!on()) {
        return real<
            int (*)(const char*, const char*, const addrinfo*, addrinfo**)>(
            "getaddrinfo")(host, port, hints, res);
    }
    sched::rt_guard guard_;
    if(host == nullptr || port == nullptr || strcmp(host, "nowhere") == 0) {
        return EAI_NONAME;
    }
    auto* a = static_cast<addrinfo*>(calloc(1, sizeof(addrinfo)));
    auto* s = static_cast<sockaddr_in*>(calloc(1, sizeof(sockaddr_in)));
    s->sin_family = AF_INET;
    s->sin_port = htons(uint16_t(atoi(port)));
    a->ai_family = AF_INET;
    a->ai_socktype = SOCK_STREAM;
    a->ai_addr = reinterpret_cast<sockaddr*>(s);
    a->ai_addrlen = sizeof(*s);
    a->ai_flags = 0x7e57;
    *res = a;
    return 0;
}
void freeaddrinfo(addrinfo* a) noexcept {
    if(a != nullptr && a->ai_flags == 0x7e57 && a->ai_canonname == nullptr) {
        free(a->ai_addr);
        free(a);
        return;
    }
    real<void (*)(addrinfo*)>("freeaddrinfo")(a);
}
}
