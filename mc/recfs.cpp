#include "recfs.hpp"

#include "mc.hpp"

#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace recfs {
    namespace {
        struct fdi {
            std::string rel;
            uint64_t pos;
            bool app;
        };
        bool g_on = false;
        std::string g_dir;
        image g_base;
        std::vector<op>* g_ops;
        std::map<int, fdi>* g_fd;
        long g_fail = -1;
        long g_nw = 0;
        // relative path below g_dir, or false
        bool rel(const char* p, std::string& r) {
            if(!g_on || p == nullptr) {
                return false;
            }
            std::string s = p;
            if(s.empty() || s[0] != '/') {
                char b[4096];
                if(getcwd(b, sizeof b) == nullptr) {
                    return false;
                }
                s = std::string(b) + "/" + s;
            }
            // squeeze "//" and "/./"
            std::string o;
            for(size_t i = 0; i < s.size(); i++) {
                if(s[i] == '/' && !o.empty() && o.back() == '/') {
                    continue;
                }
                if(s[i] == '.' && !o.empty() && o.back() == '/'
                   && (i + 1 == s.size() || s[i + 1] == '/')) {
                    continue;
                }
                o += s[i];
            }
            if(o.size() > 1 && o.back() == '/') {
                o.pop_back();
            }
            if(o.rfind(g_dir + "/", 0) != 0) {
                return false;
            }
            r = o.substr(g_dir.size() + 1);
            return true;
        }
        void opened(int fd, const char* p, int fl, bool existed) {
            std::string r;
            if(fd < 0 || !rel(p, r)) {
                return;
            }
            if((fl & O_ACCMODE) == O_RDONLY && (fl & O_CREAT) == 0) {
                return;
            }
            struct stat st {};
            if(fstat(fd, &st) == 0 && S_ISDIR(st.st_mode)) {
                return;
            }
            if(!existed) {
                g_ops->push_back({op::create, r, {}, 0, {}});
            } else if((fl & O_TRUNC) != 0) {
                g_ops->push_back({op::truncate, r, {}, 0, {}});
            }
            (*g_fd)[fd] = {r, 0, (fl & O_APPEND) != 0};
        }
        bool exists(const char* p) {
            struct stat st {};
            return stat(p, &st) == 0;
        }
        constexpr uint64_t at_end = UINT64_MAX;
        ssize_t do_write(int fd, const struct iovec* v, int n, bool at,
                         off_t off) {
            fdi* f = nullptr;
            if(g_on && g_fd != nullptr) {
                auto it = g_fd->find(fd);
                if(it != g_fd->end()) {
                    f = &it->second;
                }
            }
            if(f != nullptr) {
                auto k = g_nw++;
                if(g_fail >= 0 && k >= g_fail) {
                    errno = ENOSPC;
                    return -1;
                }
            }
            ssize_t r = at ? syscall(SYS_pwritev, fd, v, n, off, 0L)
                           : syscall(SYS_writev, fd, v, n);
            if(f != nullptr && r > 0) {
                op o{op::write, f->rel, {}, 0, {}};
                size_t left = size_t(r);
                for(int i = 0; i < n && left > 0; i++) {
                    auto m = std::min(left, v[i].iov_len);
                    o.data.append(static_cast<const char*>(v[i].iov_base), m);
                    left -= m;
                }
                o.off = f->app ? at_end : at ? uint64_t(off) : f->pos;
                if(!at && !f->app) {
                    f->pos += uint64_t(r);
                }
                g_ops->push_back(std::move(o));
            }
            return r;
        }
        void walk(const std::string& d, const std::string& pre, image& i) {
            DIR* h = opendir(d.c_str());
            if(h == nullptr) {
                return;
            }
            while(auto* e = readdir(h)) {
                std::string n = e->d_name;
                if(n == "." || n == "..") {
                    continue;
                }
                auto full = d + "/" + n;
                struct stat st {};
                if(lstat(full.c_str(), &st) != 0) {
                    continue;
                }
                if(S_ISDIR(st.st_mode)) {
                    i[pre + n + "/"] = "";
                    walk(full, pre + n + "/", i);
                } else {
                    std::string c;
                    int fd = int(syscall(SYS_openat, AT_FDCWD, full.c_str(),
                                         O_RDONLY | O_CLOEXEC, 0));
                    char b[65536];
                    ssize_t r;
                    while((r = read(fd, b, sizeof b)) > 0) {
                        c.append(b, size_t(r));
                    }
                    syscall(SYS_close, fd);
                    i[pre + n] = c;
                }
            }
            closedir(h);
        }
    }
    void start(const std::string& dir) {
        if(g_ops == nullptr) {
            g_ops = new std::vector<op>;
            g_fd = new std::map<int, fdi>;
        }
        g_on = false;
        g_ops->clear();
        g_fd->clear();
        g_dir = dir;
        g_base = read_dir(dir);
        g_nw = 0;
        g_fail = -1;
        g_on = true;
    }
    std::vector<op> stop() {
        g_on = false;
        auto r = std::move(*g_ops);
        g_ops->clear();
        g_fd->clear();
        return r;
    }
    const image& base() {
        return g_base;
    }
    void fail_writes_from(long nth) {
        g_fail = nth;
    }
    size_t writes() {
        return size_t(g_nw);
    }
    size_t recorded() {
        return g_ops == nullptr ? 0 : g_ops->size();
    }
    image read_dir(const std::string& dir) {
        image i;
        bool on = g_on;
        g_on = false;
        walk(dir, "", i);
        g_on = on;
        return i;
    }
    image after(const std::vector<op>& ops, size_t n, size_t torn) {
        auto i = g_base;
        for(size_t k = 0; k < ops.size() && (k < n || (k == n && torn > 0));
            k++) {
            auto& o = ops[k];
            switch(o.k) {
                case op::create:
                case op::truncate: {
                    auto& c = i[o.a];
                    c.resize(o.off, '\0');
                    break;
                }
                case op::write: {
                    auto& c = i[o.a];
                    auto d = k == n ? o.data.substr(0, torn) : o.data;
                    auto off = o.off == at_end ? c.size() : o.off;
                    if(c.size() < off + d.size()) {
                        c.resize(off + d.size(), '\0');
                    }
                    c.replace(off, d.size(), d);
                    break;
                }
                case op::rename: {
                    if(i.count(o.a) != 0) {
                        i[o.b] = i[o.a];
                        i.erase(o.a);
                    } else { // a directory
                        image m;
                        for(auto& [p, c] : i) {
                            if(p.rfind(o.a + "/", 0) == 0) {
                                m[o.b + p.substr(o.a.size())] = c;
                            } else {
                                m[p] = c;
                            }
                        }
                        i = m;
                    }
                    break;
                }
                case op::unlink:
                    i.erase(o.a);
                    break;
                case op::mkdir:
                    i[o.a + "/"] = "";
                    break;
                case op::rmdir:
                    i.erase(o.a + "/");
                    break;
                case op::sync:
                    break;
            }
        }
        return i;
    }
    image after_power_loss(const std::vector<op>& ops, size_t n) {
        // last sync of each file, following renames backwards
        std::vector<bool> kept(ops.size(), true);
        std::set<std::string> synced;
        for(size_t k = std::min(n, ops.size()); k-- > 0;) {
            auto& o = ops[k];
            if(o.k == op::sync) {
                synced.insert(o.a);
            } else if(o.k == op::write) {
                kept[k] = synced.count(o.a) != 0;
            } else if(o.k == op::rename) {
                auto had = synced.erase(o.b) != 0;
                if(had) {
                    synced.insert(o.a);
                } else {
                    synced.erase(o.a);
                }
            } else if(o.k == op::create || o.k == op::truncate) {
                synced.erase(o.a);
            }
        }
        std::vector<op> v;
        for(size_t k = 0; k < n && k < ops.size(); k++) {
            if(kept[k]) {
                v.push_back(ops[k]);
            }
        }
        return after(v, v.size(), 0);
    }
    std::vector<std::pair<size_t, size_t>> points(const std::vector<op>& ops) {
        std::vector<std::pair<size_t, size_t>> r;
        for(size_t n = 0; n <= ops.size(); n++) {
            r.emplace_back(n, 0);
            if(n < ops.size() && ops[n].k == op::write) {
                auto z = ops[n].data.size();
                if(z > 1) {
                    r.emplace_back(n, 1);
                }
                if(z > 3) {
                    r.emplace_back(n, z / 2);
                }
                if(z > 2) {
                    r.emplace_back(n, z - 1);
                }
            }
        }
        return r;
    }
    void remove_dir(const std::string& dir) {
        // contained: only what lies below this process's scratch folder
        auto s = mc::scratch();
        if(s.empty() || dir.rfind(s + "/", 0) != 0
           || dir.find("..") != std::string::npos) {
            return;
        }
        auto i = read_dir(dir);
        bool on = g_on;
        g_on = false;
        for(auto it = i.rbegin(); it != i.rend(); ++it) {
            auto p = dir + "/" + it->first;
            if(p.back() == '/') {
                ::rmdir(p.c_str());
            } else {
                ::unlink(p.c_str());
            }
        }
        ::rmdir(dir.c_str());
        g_on = on;
    }
    void write_dir(const std::string& dir, const image& i) {
        bool on = g_on;
        g_on = false;
        ::mkdir(dir.c_str(), 0755);
        for(auto& [p, c] : i) {
            auto f = dir + "/" + p;
            if(f.back() == '/') {
                ::mkdir(f.c_str(), 0755);
                continue;
            }
            int fd = int(syscall(SYS_openat, AT_FDCWD, f.c_str(),
                                 O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC,
                                 0644));
            size_t d = 0;
            while(d < c.size()) {
                auto r = syscall(SYS_write, fd, c.data() + d, c.size() - d);
                if(r <= 0) {
                    break;
                }
                d += size_t(r);
            }
            syscall(SYS_close, fd);
        }
        g_on = on;
    }
}

using namespace recfs;
#define NEXT(name) \
    static auto real = reinterpret_cast<decltype(&::name)>(dlsym(RTLD_NEXT, #name))

extern "C" {
static int open_common(int at, const char* p, int fl, mode_t m) {
    bool ex = g_on && exists(p);
    int fd = int(syscall(SYS_openat, at, p, fl, m));
    if(g_on && (at == AT_FDCWD || p[0] == '/')) {
        auto e = errno;
        opened(fd, p, fl, ex);
        errno = e;
    }
    return fd;
}
static mode_t mode_of(int fl, va_list a) {
    return (fl & (O_CREAT | O_TMPFILE)) != 0 ? va_arg(a, mode_t) : 0;
}
#define OPEN(name)                                                            \
    int name(const char* p, int fl, ...) {                                    \
        va_list a;                                                            \
        va_start(a, fl);                                                      \
        auto m = mode_of(fl, a);                                              \
        va_end(a);                                                            \
        return open_common(AT_FDCWD, p, fl, m);                               \
    }
OPEN(open)
OPEN(open64)
int openat(int at, const char* p, int fl, ...) {
    va_list a;
    va_start(a, fl);
    auto m = mode_of(fl, a);
    va_end(a);
    return open_common(at, p, fl, m);
}
int openat64(int at, const char* p, int fl, ...) {
    va_list a;
    va_start(a, fl);
    auto m = mode_of(fl, a);
    va_end(a);
    return open_common(at, p, fl, m);
}
int creat(const char* p, mode_t m) {
    return open_common(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m);
}
static int mode_flags(const char* m) {
    bool plus = strchr(m, '+') != nullptr;
    switch(m[0]) {
        case 'r':
            return plus ? O_RDWR : O_RDONLY;
        case 'w':
            return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
        default:
            return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    }
}
FILE* fopen(const char* p, const char* m) {
    NEXT(fopen);
    bool ex = g_on && exists(p);
    auto* f = real(p, m);
    if(g_on && f != nullptr) {
        opened(fileno(f), p, mode_flags(m), ex);
    }
    return f;
}
FILE* fopen64(const char* p, const char* m) {
    NEXT(fopen64);
    bool ex = g_on && exists(p);
    auto* f = real(p, m);
    if(g_on && f != nullptr) {
        opened(fileno(f), p, mode_flags(m), ex);
    }
    return f;
}
int fclose(FILE* f) {
    NEXT(fclose);
    if(g_on && f != nullptr) {
        g_fd->erase(fileno(f));
    }
    return real(f);
}
int close(int fd) {
    if(g_on) {
        g_fd->erase(fd);
    }
    return int(syscall(SYS_close, fd));
}
ssize_t write(int fd, const void* b, size_t n) {
    struct iovec v {
        const_cast<void*>(b), n
    };
    return do_write(fd, &v, 1, false, 0);
}
ssize_t writev(int fd, const struct iovec* v, int n) {
    return do_write(fd, v, n, false, 0);
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) {
    struct iovec v {
        const_cast<void*>(b), n
    };
    return do_write(fd, &v, 1, true, o);
}
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) {
    return pwrite(fd, b, n, o);
}
off_t lseek(int fd, off_t o, int w) {
    auto r = off_t(syscall(SYS_lseek, fd, o, w));
    if(g_on && r >= 0) {
        auto it = g_fd->find(fd);
        if(it != g_fd->end()) {
            it->second.pos = uint64_t(r);
        }
    }
    return r;
}
off64_t lseek64(int fd, off64_t o, int w) {
    return lseek(fd, o, w);
}
int rename(const char* a, const char* b) noexcept {
    auto r = int(syscall(SYS_rename, a, b));
    std::string x, y;
    if(r == 0 && rel(a, x) && rel(b, y)) {
        g_ops->push_back({op::rename, x, y, 0, {}});
    }
    return r;
}
int unlink(const char* a) noexcept {
    auto r = int(syscall(SYS_unlink, a));
    std::string x;
    if(r == 0 && rel(a, x)) {
        g_ops->push_back({op::unlink, x, {}, 0, {}});
    }
    return r;
}
int rmdir(const char* a) noexcept {
    auto r = int(syscall(SYS_rmdir, a));
    std::string x;
    if(r == 0 && rel(a, x)) {
        g_ops->push_back({op::rmdir, x, {}, 0, {}});
    }
    return r;
}
int remove(const char* a) noexcept {
    auto r = unlink(a);
    if(r != 0 && (errno == EISDIR || errno == EPERM)) {
        r = rmdir(a);
    }
    return r;
}
int mkdir(const char* a, mode_t m) noexcept {
    auto r = int(syscall(SYS_mkdir, a, m));
    std::string x;
    if(r == 0 && rel(a, x)) {
        g_ops->push_back({op::mkdir, x, {}, 0, {}});
    }
    return r;
}
int ftruncate(int fd, off_t n) noexcept {
    auto r = int(syscall(SYS_ftruncate, fd, n));
    if(g_on && r == 0) {
        auto it = g_fd->find(fd);
        if(it != g_fd->end()) {
            g_ops->push_back(
                {op::truncate, it->second.rel, {}, uint64_t(n), {}});
        }
    }
    return r;
}
int truncate(const char* p, off_t n) noexcept {
    auto r = int(syscall(SYS_truncate, p, n));
    std::string x;
    if(r == 0 && rel(p, x)) {
        g_ops->push_back({op::truncate, x, {}, uint64_t(n), {}});
    }
    return r;
}
static int do_sync(int fd, int nr) {
    if(g_on && g_fd != nullptr) {
        auto it = g_fd->find(fd);
        if(it != g_fd->end()) {
            g_ops->push_back({op::sync, it->second.rel, {}, 0, {}});
        }
    }
    (void)nr;
    return 0; // the scratch folder needs no real flush
}
int fsync(int fd) {
    return do_sync(fd, SYS_fsync);
}
int fdatasync(int fd) {
    return do_sync(fd, SYS_fdatasync);
}
}
