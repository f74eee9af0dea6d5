#include "sched.hpp"

#include <algorithm>
#include <array>
#include <cassert>
#include <cerrno>
#include <csetjmp>
#include <cstdlib>
#include <cxxabi.h>
#include <deque>
#include <dlfcn.h>
#include <future>
#include <link.h>
#include <list>
#include <mutex>
#include <pthread.h>
#include <random>
#include <sched.h>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#define REAL(ret, name, args)                                                 \
    using fn_##name = ret(*) args;                                            \
    static fn_##name real_##name() {                                          \
        static fn_##name f                                                    \
            = reinterpret_cast<fn_##name>(dlsym(RTLD_NEXT, #name));           \
        return f;                                                             \
    }

namespace sched {
    namespace {
        constexpr size_t max_fibers = 96;
        constexpr size_t stack_size = 512 * 1024;
        struct vc {
            std::array<uint32_t, max_fibers> c{};
            void join(const vc& o) {
                for(size_t i = 0; i < max_fibers; i++) {
                    c[i] = std::max(c[i], o.c[i]);
                }
            }
        };
        enum class st { runnable, blocked, done };
        struct fiber {
            uint32_t id{};
            void* sp{};
            char* stack{};
            std::function<void*()> fn;
            st state{st::runnable};
            const void* obj{};    // what it is blocked on
            const char* what{""};
            bool timed{};
            bool timed_out{};
            bool spurious_ok{};
            uint64_t deadline{};
            bool detached{};
            bool joined{};
            void* ret{};
            vc clk;
            uint32_t atomic{};
            uint32_t rt{};
            bool waiting{};       // in until()
            uint64_t seen{};      // progress when it last looked
            void* once_callable{};
            void (*once_call)(){};
            char eh[16]{};
        };
        struct world {
            mc::ctx* c{};
            options o;
            std::vector<fiber*> f;
            fiber* cur{};
            uint64_t now{};
            uint32_t steps{}, idle{}, yields{};
            uint64_t progress{};
            uint32_t gen{};
            bool dead{};
            bool calm{};
            int slow{-1};
            uint32_t slow_from{}; // kept waiting since that step
            jmp_buf* root{};
            void* root_sp{};
        };
        world* w = nullptr;
        uint32_t g_gen = 0;
        std::vector<char*> g_stacks;
        bool g_active = false;

        char* new_stack() {
            if(!g_stacks.empty()) {
                auto* s = g_stacks.back();
                g_stacks.pop_back();
                return s;
            }
            auto* p = static_cast<char*>(
                mmap(nullptr,
                     stack_size + 4096,
                     PROT_READ | PROT_WRITE,
                     MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE,
                     -1,
                     0));
            mprotect(p, 4096, PROT_NONE);
            return p;
        }

        extern "C" void verif_switch(void** save, void* to);
        asm(R"(
.text
.globl verif_switch
.type verif_switch,@function
verif_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size verif_switch,.-verif_switch
)");

        // All fibers share one OS thread, hence its thread-local storage.
        // What the runtime libraries keep there per thread is swapped here.
        void tls_out(fiber* f) {
            f->once_callable = std::__once_callable;
            f->once_call = std::__once_call;
            memcpy(f->eh, __cxxabiv1::__cxa_get_globals(), sizeof f->eh);
        }
        void tls_in(fiber* f) {
            std::__once_callable = f->once_callable;
            std::__once_call = f->once_call;
            memcpy(__cxxabiv1::__cxa_get_globals(), f->eh, sizeof f->eh);
        }
        struct tls_range {
            uintptr_t lo, hi;
        };
        std::vector<tls_range> g_tls;
        void find_tls() {
            g_tls.clear();
            dl_iterate_phdr(
                [](dl_phdr_info* i, size_t, void*) {
                    for(int k = 0; k < i->dlpi_phnum; k++) {
                        if(i->dlpi_phdr[k].p_type == PT_TLS
                           && i->dlpi_tls_data != nullptr) {
                            auto a = reinterpret_cast<uintptr_t>(
                                i->dlpi_tls_data);
                            g_tls.push_back(
                                {a, a + i->dlpi_phdr[k].p_memsz});
                        }
                    }
                    return 0;
                },
                nullptr);
        }
        bool in_tls(uintptr_t a) {
            for(const auto& r : g_tls) {
                if(a >= r.lo && a < r.hi) {
                    return true;
                }
            }
            return false;
        }
        void go(fiber* t) {
            auto* me = w->cur;
            if(t == me) {
                return;
            }
            tls_out(me);
            tls_in(t);
            w->cur = t;
            verif_switch(&me->sp, t->sp);
        }
        [[noreturn]] void to_root() {
            void* dummy{};
            w->cur = nullptr;
            verif_switch(&dummy, w->root_sp);
            abort();
        }
        std::string sym(const void* pc) {
            Dl_info i{};
            if(dladdr(pc, &i) != 0 && i.dli_sname != nullptr) {
                int s = 0;
                char* d
                    = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &s);
                std::string r = d != nullptr ? d : i.dli_sname;
                free(d);
                return r;
            }
            // internal-linkage code: no name, give the nearest thing
            return "?";
        }
        std::string shorten(std::string s);
        // Name of the repository function `pc` belongs to (inlined frames
        // included). Slow; failures only.
        std::string sym_full(const void* pc, bool line) {
            char exe[512]{};
            auto n = readlink("/proc/self/exe", exe, sizeof exe - 1);
            if(n <= 0) {
                return sym(pc);
            }
            Dl_info i{};
            uintptr_t base = 0;
            if(dladdr(reinterpret_cast<const void*>(&sym_full), &i) != 0) {
                base = reinterpret_cast<uintptr_t>(i.dli_fbase);
            }
            auto cmd = mc::strf("addr2line -f -i -C -e %s %#zx 2>/dev/null",
                                exe,
                                reinterpret_cast<uintptr_t>(pc) - 1 - base);
            std::string best, first, bl;
            if(auto* f = popen(cmd.c_str(), "r")) {
                char fn[4096], ln[4096];
                while(fgets(fn, sizeof fn, f) != nullptr
                      && fgets(ln, sizeof ln, f) != nullptr) {
                    std::string a(fn), b(ln);
                    a.erase(a.find_last_not_of('\n') + 1);
                    b.erase(b.find_last_not_of('\n') + 1);
                    auto sl = b.rfind('/');
                    b = sl == std::string::npos ? b : b.substr(sl + 1);
                    if(first.empty()) {
                        first = a;
                    }
                    {
                        // first frame that is not in the standard library
                        if(best.empty()
                           && std::string(ln).find("/usr/include")
                                  == std::string::npos) {
                            best = a;
                            bl = b;
                        }
                    }
                }
                pclose(f);
            }
            auto r = shorten(best.empty() ? first : best);
            if(line && getenv("VERIF_RACE_DEBUG") != nullptr) {
                bl += " | " + cmd;
            }
            return line ? r + " (" + bl + ")" : r;
        }
        std::string shorten(std::string s) {
            // drop template arguments and parameter lists
            std::string r;
            int depth = 0;
            for(size_t k = 0; k < s.size(); k++) {
                char ch = s[k];
                if(ch == '<') {
                    depth++;
                } else if(ch == '>' && (k == 0 || s[k - 1] != '-')) {
                    depth--;
                } else if(depth == 0) {
                    if(ch == '(' && s.compare(k, 11, "(anonymous ") != 0) {
                        // keep lambdas' enclosing function readable
                        int p = 0;
                        size_t e = k;
                        for(; e < s.size(); e++) {
                            p += s[e] == '(' ? 1 : s[e] == ')' ? -1 : 0;
                            if(p == 0) {
                                break;
                            }
                        }
                        k = e;
                        continue;
                    }
                    r += ch;
                }
            }
            return r.size() > 160 ? r.substr(0, 160) : r;
        }
        // Frame-pointer walk of a switched-out fiber.
        std::string where(fiber* f) {
            std::string r;
            auto* sp = static_cast<uintptr_t*>(f->sp);
            if(sp == nullptr) {
                return r;
            }
            auto lo = reinterpret_cast<uintptr_t>(f->stack);
            auto hi = lo + stack_size + 4096;
            uintptr_t bp = sp[5];
            int n = 0;
            for(int k = 0; k < 40 && bp > lo && bp + 16 <= hi && n < 6; k++) {
                auto* fr = reinterpret_cast<uintptr_t*>(bp);
                auto s = shorten(sym(reinterpret_cast<void*>(fr[1] - 1)));
                if(s.find("cbdc") != std::string::npos
                   && s.rfind("std::", 0) != 0) {
                    r += (r.empty() ? "" : " < ") + s;
                    n++;
                }
                if(fr[0] <= bp) {
                    break;
                }
                bp = fr[0];
            }
            return r;
        }

        std::vector<fiber*> runnable_after(fiber* me, bool include_me) {
            std::vector<fiber*> r;
            auto n = w->f.size();
            if(!me->waiting) {
                w->progress++;
            }
            for(size_t k = 1; k <= n; k++) {
                auto* f = w->f[(me->id + k) % n];
                if(f == me && !include_me) {
                    continue;
                }
                if(f->state == st::runnable
                   && (!f->waiting || f->seen != w->progress)) {
                    r.push_back(f);
                }
            }
            if(w->slow >= 0 && int(me->id) == w->slow) {
                w->slow_from = w->steps;
            } else if(w->steps - w->slow_from > 2000) {
                w->slow = -1; // others only poll
            }
            if(w->slow >= 0) {
                std::stable_partition(r.begin(), r.end(), [](fiber* f) {
                    return int(f->id) != w->slow;
                });
            }
            return r;
        }
        fiber* earliest_timer() {
            fiber* t = nullptr;
            for(auto* f : w->f) {
                if(f->state == st::blocked && f->timed
                   && (t == nullptr || f->deadline < t->deadline)) {
                    t = f;
                }
            }
            return t;
        }
        void fire(fiber* t) {
            w->now = std::max(w->now, t->deadline);
            t->timed = false;
            t->timed_out = true;
            t->state = st::runnable;
            t->obj = nullptr;
        }
        [[noreturn]] void die(const std::string& key, const std::string& msg) {
            w->c->fail(w->o.fail_prefix + key, "%s", msg.c_str());
            if(w->c->m_keep_notes) {
                w->c->note("%s", threads().c_str());
            }
            w->dead = true;
            to_root();
        }
        void tick() {
            if(++w->steps > w->o.max_steps) {
                die("livelock",
                    mc::strf("more than %u steps; ", w->o.max_steps)
                        + threads());
            }
        }
        // Chooses the next fiber when the current one cannot go on.
        void reschedule() {
            rt_guard guard_;
            tick();
            auto* me = w->cur;
            auto r = runnable_after(me, true);
            // a fiber that just yielded is last
            fiber* tm = earliest_timer();
            std::vector<fiber*> sp;
            if(w->o.spurious) {
                for(auto* f : w->f) {
                    if(f->state == st::blocked && f->spurious_ok) {
                        sp.push_back(f);
                    }
                }
            }
            if(r.empty()) {
                if(tm == nullptr) {
                    die("deadlock", threads());
                }
                if(++w->idle > w->o.max_idle) {
                    die("livelock",
                        "only polling threads make progress; " + threads());
                }
                fire(tm);
                go(tm);
                return;
            }
            w->idle = 0;
            // alternatives beyond the runnable ones
            auto extra = uint32_t(sp.size()) + (tm != nullptr ? 1U : 0U);
            uint32_t k = 0;
            if(r.size() > 1 && !w->calm) {
                k = w->c->choose(uint32_t(r.size()), "next", w->o.block_cost);
            }
            if(k == 0 && extra > 0 && !w->calm) {
                auto e = w->c->choose(1 + extra,
                                      "timer",
                                      w->o.timer_cost);
                if(e != 0) {
                    fiber* t = nullptr;
                    if(tm != nullptr && e == 1) {
                        t = tm;
                        fire(t);
                    } else {
                        t = sp[e - 1 - (tm != nullptr ? 1 : 0)];
                        t->state = st::runnable;
                        t->obj = nullptr;
                    }
                    go(t);
                    return;
                }
            }
            go(r[k]);
        }
        void pt(const char* what) {
            rt_guard guard_;
            if(!g_active || w->cur == nullptr || w->cur->atomic != 0) {
                return;
            }
            tick();
            if(w->calm) {
                return;
            }
            auto* me = w->cur;
            auto r = runnable_after(me, false);
            if(r.empty()) {
                return;
            }
            auto k = w->c->choose(uint32_t(1 + r.size()),
                                  what,
                                  w->o.preempt_cost);
            if(int(me->id) == w->slow) {
                // every other thread first
                if(k != r.size()) {
                    go(r[k]);
                }
            } else if(k != 0) {
                go(r[k - 1]);
            }
        }
        void block(const void* obj, const char* what) {
            auto* me = w->cur;
            me->state = st::blocked;
            me->obj = obj;
            me->what = what;
            me->timed_out = false;
            reschedule();
            me->timed = false;
        }
        void wake(const void* obj) {
            for(auto* f : w->f) {
                if(f->state == st::blocked && f->obj == obj) {
                    f->state = st::runnable;
                    f->obj = nullptr;
                    f->timed = false;
                }
            }
        }
        void incr() {
            w->cur->clk.c[w->cur->id]++;
        }

        // ---- synchronisation objects -----------------------------------
        struct mtx {
            int owner{-1};
            int depth{0};
            vc clk;
            bool recursive{};
        };
        struct rw {
            int writer{-1};
            std::vector<uint32_t> readers;
            vc wclk, rclk;
        };
        struct cnd {
            std::deque<fiber*> q;
        };
        struct once {
            vc clk;
        };
        std::deque<mtx> g_m;
        std::deque<rw> g_rw;
        std::deque<cnd> g_c;
        std::unordered_map<const void*, vc> g_sync; // atomics, files, once

        struct tag {
            uint32_t gen;
            uint32_t id;
        };
        template<typename T>
        T& obj_of(std::deque<T>& d, void* where, bool& fresh) {
            auto* t = static_cast<tag*>(where);
            fresh = false;
            if(t->gen != w->gen || t->id >= d.size()) {
                d.emplace_back();
                t->gen = w->gen;
                t->id = uint32_t(d.size() - 1);
                fresh = true;
            }
            return d[t->id];
        }
        mtx& mutex_of(pthread_mutex_t* m) {
            bool fresh{};
            auto& r = obj_of(g_m, reinterpret_cast<char*>(m) + 24, fresh);
            if(fresh) {
                int kind{};
                memcpy(&kind, reinterpret_cast<char*>(m) + 16, 4);
                r.recursive = (kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
            }
            return r;
        }
        rw& rw_of(pthread_rwlock_t* m) {
            bool fresh{};
            return obj_of(g_rw, reinterpret_cast<char*>(m) + 32, fresh);
        }
        cnd& cond_of(pthread_cond_t* m) {
            bool fresh{};
            return obj_of(g_c, reinterpret_cast<char*>(m) + 40, fresh);
        }
        void m_lock(pthread_mutex_t* pm, bool point) {
            if(point) {
                pt("lock");
            }
            auto me = int(w->cur->id);
            while(true) {
                auto& m = mutex_of(pm);
                if(m.owner == me && m.recursive) {
                    m.depth++;
                    return;
                }
                if(m.owner == -1) {
                    m.owner = me;
                    m.depth = 1;
                    w->cur->clk.join(m.clk);
                    return;
                }
                block(pm, "mutex");
            }
        }
        void m_unlock(pthread_mutex_t* pm) {
            auto& m = mutex_of(pm);
            if(m.owner != int(w->cur->id)) {
                return;
            }
            if(--m.depth > 0) {
                return;
            }
            m.owner = -1;
            m.clk = w->cur->clk;
            incr();
            wake(pm);
        }
        int c_wait(pthread_cond_t* pc,
                   pthread_mutex_t* pm,
                   const uint64_t* deadline) {
            pt("cond wait");
            auto* me = w->cur;
            cond_of(pc).q.push_back(me);
            auto& m = mutex_of(pm);
            int depth = m.depth;
            m.depth = 1;
            m_unlock(pm);
            me->timed = deadline != nullptr;
            me->deadline = deadline != nullptr ? *deadline : 0;
            me->spurious_ok = true;
            block(pc, deadline != nullptr ? "timed condition" : "condition");
            me->spurious_ok = false;
            auto& q = cond_of(pc).q;
            auto it = std::find(q.begin(), q.end(), me);
            bool signalled = it == q.end();
            if(!signalled) {
                q.erase(it);
            }
            bool to = me->timed_out && !signalled;
            m_lock(pm, false);
            mutex_of(pm).depth = depth;
            return to ? ETIMEDOUT : 0;
        }
        void c_signal(pthread_cond_t* pc, bool all) {
            pt(all ? "notify_all" : "notify_one");
            auto& q = cond_of(pc).q;
            if(q.empty()) {
                return;
            }
            auto up = [&](fiber* f) {
                if(f->state == st::blocked && f->obj == pc) {
                    f->state = st::runnable;
                    f->obj = nullptr;
                    f->timed = false;
                }
            };
            if(all) {
                for(auto* f : q) {
                    up(f);
                }
                q.clear();
                return;
            }
            uint32_t k = 0;
            if(q.size() > 1) {
                k = w->c->choose(uint32_t(q.size()), "wake", w->o.wake_cost);
            }
            auto* f = q[k];
            q.erase(q.begin() + k);
            up(f);
        }

        // ---- happens-before race detection ------------------------------
        struct acc {
            uint16_t tid{};
            uint8_t mask{};
            uint32_t clk{};
            const void* pc{};
        };
        struct cell {
            uintptr_t key{};
            uint32_t gen{};
            uint32_t nr{};
            acc wr[2];
            acc rd[4];
        };
        std::vector<cell> g_sh;
        size_t g_used = 0;
        uint32_t g_shgen = 1;
        size_t slot(uintptr_t k) {
            auto h = k * 0x9e3779b97f4a7c15ULL;
            return size_t(h >> 20) & (g_sh.size() - 1);
        }
        cell* find_cell(uintptr_t k, bool make) {
            if(g_sh.empty()) {
                g_sh.resize(1 << 15);
            }
            auto i = slot(k);
            while(true) {
                auto& c = g_sh[i];
                if(c.gen != g_shgen) {
                    if(!make) {
                        return nullptr;
                    }
                    if(g_used * 2 > g_sh.size()) {
                        std::vector<cell> old(g_sh.size() * 2);
                        old.swap(g_sh);
                        for(auto& o : old) {
                            if(o.gen == g_shgen) {
                                auto j = slot(o.key);
                                while(g_sh[j].gen == g_shgen) {
                                    j = (j + 1) & (g_sh.size() - 1);
                                }
                                g_sh[j] = o;
                            }
                        }
                        return find_cell(k, make);
                    }
                    g_used++;
                    c = cell{};
                    c.key = k;
                    c.gen = g_shgen;
                    return &c;
                }
                if(c.key == k) {
                    return &c;
                }
                i = (i + 1) & (g_sh.size() - 1);
            }
        }
        [[noreturn]] void race(const acc& a,
                               bool awr,
                               const void* pc,
                               bool wr,
                               bool& ignored) {
            (void)ignored;
            auto s1 = sym_full(a.pc, false);
            auto s2 = sym_full(pc, false);
            auto lo = std::min(s1, s2), hi = std::max(s1, s2);
            die("race:" + lo + "|" + hi,
                mc::strf("data race: %s in %s (thread %u) and %s in %s "
                         "(thread %u) are not ordered",
                         awr ? "write" : "read",
                         sym_full(a.pc, true).c_str(),
                         unsigned(a.tid),
                         wr ? "write" : "read",
                         sym_full(pc, true).c_str(),
                         w->cur->id));
        }
        bool ignored(const void* a, const void* b) {
            if(w->o.race_ignore.empty()) {
                return false;
            }
            auto s1 = sym_full(a, false), s2 = sym_full(b, false);
            for(auto& p : w->o.race_ignore) {
                if(s1.find(p) != std::string::npos
                   || s2.find(p) != std::string::npos) {
                    return true;
                }
            }
            return false;
        }
        void access8(uintptr_t k, uint8_t mask, bool wr, const void* pc) {
            auto* c = find_cell(k, true);
            auto* me = w->cur;
            auto tid = uint16_t(me->id);
            auto clk = me->clk.c[tid];
            bool ig{};
            for(auto& a : c->wr) {
                if((a.mask & mask) != 0 && a.tid != tid
                   && a.clk > me->clk.c[a.tid] && !ignored(a.pc, pc)) {
                    race(a, true, pc, wr, ig);
                }
            }
            if(wr) {
                for(auto& a : c->rd) {
                    if((a.mask & mask) != 0 && a.tid != tid
                       && a.clk > me->clk.c[a.tid] && !ignored(a.pc, pc)) {
                        race(a, false, pc, wr, ig);
                    }
                }
                // this write dominates what it covers
                for(auto& a : c->rd) {
                    a.mask &= uint8_t(~mask);
                }
                int put = -1;
                for(int i = 0; i < 2; i++) {
                    c->wr[i].mask &= uint8_t(~mask);
                    if(c->wr[i].mask == 0 && put < 0) {
                        put = i;
                    }
                }
                if(put < 0) {
                    put = 0;
                }
                c->wr[put] = {tid, mask, clk, pc};
            } else {
                int put = -1;
                for(int i = 0; i < 4; i++) {
                    auto& a = c->rd[i];
                    if(a.mask != 0 && a.tid == tid && a.mask == mask) {
                        put = i;
                        break;
                    }
                    if(put < 0
                       && (a.mask == 0 || a.clk <= me->clk.c[a.tid])) {
                        put = i;
                    }
                }
                if(put < 0) {
                    put = int(w->steps & 3U);
                }
                c->rd[put] = {tid, mask, clk, pc};
            }
        }
        inline void access(const void* p, size_t n, bool wr, const void* pc) {
            if(!g_active || w->cur == nullptr || !w->o.races
               || w->cur->atomic != 0 || w->cur->rt != 0 || w->f.size() < 2) {
                return;
            }
            auto a = reinterpret_cast<uintptr_t>(p);
            if(in_tls(a)) {
                return;
            }
            while(n > 0) {
                auto off = a & 7;
                auto len = std::min<size_t>(8 - off, n);
                auto mask = uint8_t(((1U << len) - 1) << off);
                access8(a >> 3, mask, wr, pc);
                a += len;
                n -= len;
            }
        }
        template<size_t N>
        void wipe(acc (&a)[N]) {
            for(auto& x : a) {
                x = acc{};
            }
        }
        void forget(const void* p, size_t n) {
            if(!g_active || g_sh.empty() || n == 0) {
                return;
            }
            auto a = reinterpret_cast<uintptr_t>(p) >> 3;
            auto e = (reinterpret_cast<uintptr_t>(p) + n + 7) >> 3;
            if(e - a > g_sh.size()) {
                for(auto& c : g_sh) {
                    if(c.gen == g_shgen && c.key >= a && c.key < e) {
                        wipe(c.wr);
                        wipe(c.rd);
                    }
                }
            } else {
                for(; a < e; a++) {
                    if(auto* c = find_cell(a, false)) {
                        wipe(c->wr);
                        wipe(c->rd);
                    }
                }
            }
            if(!g_sync.empty() && n <= 4096) {
                auto b = reinterpret_cast<const char*>(p);
                for(size_t i = 0; i < n; i++) {
                    if(((reinterpret_cast<uintptr_t>(b) + i) & 3) == 0
                       || n < 4) {
                        g_sync.erase(b + i);
                    }
                }
            }
        }

        void fiber_main() {
            auto* me = w->cur;
            me->ret = me->fn();
            me->fn = nullptr;
            me->rt++; // from here on only the runtime runs on this thread
            incr();
            me->state = st::done;
            wake(me);
            // all finished?
            bool all = true;
            for(auto* f : w->f) {
                all = all && f->state == st::done;
            }
            if(all || (me->id == 0 && w->o.leak_ok)) {
                to_root();
            }
            reschedule();
            abort();
        }
        fiber* spawn(std::function<void*()> fn) {
            if(w->f.size() >= max_fibers) {
                die("too-many-threads", "more threads than the runtime has");
            }
            auto* f = new fiber;
            f->id = uint32_t(w->f.size());
            f->fn = std::move(fn);
            f->stack = new_stack();
            auto top = reinterpret_cast<uintptr_t>(f->stack) + 4096
                     + stack_size;
            top &= ~uintptr_t(15);
            auto* s = reinterpret_cast<void**>(top);
            *--s = nullptr;
            *--s = reinterpret_cast<void*>(&fiber_main);
            for(int i = 0; i < 6; i++) {
                *--s = nullptr;
            }
            f->sp = s;
            forget(f->stack + 4096, 0);
            if(w->cur != nullptr) {
                f->clk = w->cur->clk;
                incr();
            }
            f->clk.c[f->id] = 1;
            w->f.push_back(f);
            return f;
        }
    }

    rt_guard::rt_guard() {
        if(g_active && w->cur != nullptr) {
            f = w->cur;
            w->cur->rt++;
        }
    }
    rt_guard::~rt_guard() {
        if(f != nullptr) {
            static_cast<fiber*>(f)->rt--;
        }
    }
    bool active() {
        return g_active;
    }
    std::string threads() {
        std::string r = "threads:";
        for(auto* f : w->f) {
            if(f->state == st::done) {
                continue;
            }
            r += mc::strf(" [%u %s",
                          f->id,
                          f->state == st::runnable ? "runnable" : f->what);
            if(f != w->cur) {
                r += " in " + where(f);
            }
            r += "]";
        }
        return r;
    }
    uint32_t slow_threads = 10;
    void run(mc::ctx& c, const options& o, const std::function<void()>& body) {
        // the C++ library must use its multi-threaded paths
        __libc_single_threaded = 0;
        if(g_tls.empty()) {
            find_tls();
        }
        world ww;
        w = &ww;
        w->c = &c;
        w->o = o;
        w->gen = ++g_gen;
        w->now = 1700000000ULL * 1000000000ULL;
        g_m.clear();
        g_rw.clear();
        g_c.clear();
        g_sync.clear();
        g_shgen++;
        g_used = 0;
        if(slow_threads != 0) {
            ww.slow = int(c.choose(slow_threads + 1,
                                   "slow thread",
                                   o.slow_cost)) - 1;
        }
        g_active = true;
        auto* root = spawn([&]() -> void* {
            body();
            return nullptr;
        });
        fiber outside;
        tls_out(&outside);
        tls_in(root);
        w->cur = root;
        verif_switch(&w->root_sp, root->sp);
        tls_in(&outside);
        g_active = false;
        mc::stat("scheduling_steps", w->steps);
        for(auto* f : w->f) {
            g_stacks.push_back(f->stack);
            delete f;
        }
        w = nullptr;
    }
    void point(const char* what) {
        rt_guard guard_;
        pt(what);
    }
    uint32_t choose(uint32_t n, const char* what, uint32_t cost) {
        rt_guard guard_;
        return w->c->choose(n, what, cost);
    }
    void calm(bool on) {
        w->calm = on;
    }
    void fail(const std::string& key, const std::string& msg) {
        rt_guard guard_;
        die(key, msg);
    }
    void end_path() {
        to_root();
    }
    void until(const std::function<bool()>& pred, const char* what) {
        rt_guard guard_;
        auto* me = w->cur;
        w->progress++;
        while(!pred()) {
            // like a condition nobody signals: runnable again once anything
            // else has run
            me->waiting = true;
            me->seen = w->progress;
            auto r = runnable_after(me, false);
            if(r.empty()) {
                auto* tm = earliest_timer();
                if(tm == nullptr) {
                    me->what = what;
                    die("deadlock",
                        std::string("waiting for ") + what + "; "
                            + threads());
                }
                if(++w->idle > w->o.max_idle) {
                    die("livelock",
                        std::string("waiting for ") + what + "; "
                            + threads());
                }
                fire(tm);
                go(tm);
                continue;
            }
            tick();
            uint32_t k = 0;
            if(r.size() > 1) {
                k = w->c->choose(uint32_t(r.size()), "next", w->o.block_cost);
            }
            go(r[k]);
        }
        me->waiting = false;
        w->progress++;
    }
    void quiesce() {
        rt_guard guard_;
        while(true) {
            auto r = runnable_after(w->cur, false);
            if(r.empty()) {
                return;
            }
            tick();
            uint32_t k = 0;
            if(r.size() > 1) {
                k = w->c->choose(uint32_t(r.size()), "next", w->o.block_cost);
            }
            go(r[k]);
        }
    }
    uint64_t now_ns() {
        return w != nullptr ? w->now : 0;
    }
    uint32_t self() {
        return w->cur->id;
    }
    uint32_t steps() {
        return w->steps;
    }
    void hb_release(const void* obj) {
        rt_guard guard_;
        g_sync[obj].join(w->cur->clk);
        incr();
    }
    void hb_acquire(const void* obj) {
        rt_guard guard_;
        auto it = g_sync.find(obj);
        if(it != g_sync.end()) {
            w->cur->clk.join(it->second);
        }
    }
    atomic_section::atomic_section() {
        if(g_active && w->cur != nullptr) {
            w->cur->atomic++;
        }
    }
    atomic_section::~atomic_section() {
        if(g_active && w->cur != nullptr) {
            w->cur->atomic--;
        }
    }
    void block_on(const void* obj, const char* what) {
        rt_guard guard_;
        block(obj, what);
    }
    bool block_on_timed(const void* obj, const char* what, uint64_t deadline) {
        rt_guard guard_;
        w->cur->timed = true;
        w->cur->deadline = deadline;
        block(obj, what);
        return !w->cur->timed_out;
    }
    void wake_all(const void* obj) {
        rt_guard guard_;
        wake(obj);
    }
}

using namespace sched;
static bool on() {
    return g_active && w->cur != nullptr;
}
static uint64_t ns(const struct timespec* t) {
    return uint64_t(t->tv_sec) * 1000000000ULL + uint64_t(t->tv_nsec);
}

// ---------------------------------------------------------------- pthreads
REAL(int, pthread_mutex_lock, (pthread_mutex_t*))
REAL(int, pthread_mutex_trylock, (pthread_mutex_t*))
REAL(int, pthread_mutex_unlock, (pthread_mutex_t*))
REAL(int, pthread_mutex_destroy, (pthread_mutex_t*))
REAL(int, pthread_rwlock_rdlock, (pthread_rwlock_t*))
REAL(int, pthread_rwlock_wrlock, (pthread_rwlock_t*))
REAL(int, pthread_rwlock_tryrdlock, (pthread_rwlock_t*))
REAL(int, pthread_rwlock_trywrlock, (pthread_rwlock_t*))
REAL(int, pthread_rwlock_unlock, (pthread_rwlock_t*))
REAL(int, pthread_cond_wait, (pthread_cond_t*, pthread_mutex_t*))
REAL(int,
     pthread_cond_timedwait,
     (pthread_cond_t*, pthread_mutex_t*, const timespec*))
REAL(int,
     pthread_cond_clockwait,
     (pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*))
REAL(int, pthread_cond_signal, (pthread_cond_t*))
REAL(int, pthread_cond_broadcast, (pthread_cond_t*))
REAL(int,
     pthread_create,
     (pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))
REAL(int, pthread_join, (pthread_t, void**))
REAL(int, pthread_detach, (pthread_t))
REAL(pthread_t, pthread_self, ())
REAL(int, pthread_once, (pthread_once_t*, void (*)()))
REAL(int, sched_yield, ())
REAL(int, nanosleep, (const timespec*, timespec*))
REAL(int, clock_nanosleep, (clockid_t, int, const timespec*, timespec*))
REAL(int, usleep, (useconds_t))
REAL(int, clock_gettime, (clockid_t, timespec*))

// the identity tag lives in bytes the C library's own implementation ignores
// for the kinds used here; wipe it when the object goes back to real use
static void untag(pthread_mutex_t* m) {
    memset(reinterpret_cast<char*>(m) + 24, 0, 8);
}

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
    if(!on()) {
        return real_pthread_mutex_lock()(m);
    }
    rt_guard guard_;
    m_lock(m, true);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if(!on()) {
        return real_pthread_mutex_trylock()(m);
    }
    rt_guard guard_;
    pt("trylock");
    auto& x = mutex_of(m);
    if(x.owner != -1 && !(x.recursive && x.owner == int(w->cur->id))) {
        return EBUSY;
    }
    m_lock(m, false);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if(!on()) {
        return real_pthread_mutex_unlock()(m);
    }
    rt_guard guard_;
    m_unlock(m);
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
    untag(m);
    return on() ? 0 : real_pthread_mutex_destroy()(m);
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    if(!on()) {
        return real_pthread_rwlock_rdlock()(m);
    }
    rt_guard guard_;
    pt("rdlock");
    while(rw_of(m).writer != -1) {
        block(m, "rwlock (read)");
    }
    auto& r = rw_of(m);
    r.readers.push_back(w->cur->id);
    w->cur->clk.join(r.wclk);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
    if(!on()) {
        return real_pthread_rwlock_wrlock()(m);
    }
    rt_guard guard_;
    pt("wrlock");
    while(rw_of(m).writer != -1 || !rw_of(m).readers.empty()) {
        block(m, "rwlock (write)");
    }
    auto& r = rw_of(m);
    r.writer = int(w->cur->id);
    w->cur->clk.join(r.wclk);
    w->cur->clk.join(r.rclk);
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) {
    if(!on()) {
        return real_pthread_rwlock_tryrdlock()(m);
    }
    rt_guard guard_;
    pt("tryrdlock");
    if(rw_of(m).writer != -1) {
        return EBUSY;
    }
    rw_of(m).readers.push_back(w->cur->id);
    w->cur->clk.join(rw_of(m).wclk);
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) {
    if(!on()) {
        return real_pthread_rwlock_trywrlock()(m);
    }
    rt_guard guard_;
    pt("trywrlock");
    if(rw_of(m).writer != -1 || !rw_of(m).readers.empty()) {
        return EBUSY;
    }
    rw_of(m).writer = int(w->cur->id);
    w->cur->clk.join(rw_of(m).wclk);
    w->cur->clk.join(rw_of(m).rclk);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
    if(!on()) {
        return real_pthread_rwlock_unlock()(m);
    }
    rt_guard guard_;
    auto& r = rw_of(m);
    if(r.writer == int(w->cur->id)) {
        r.writer = -1;
        r.wclk = w->cur->clk;
        r.rclk = vc{};
    } else {
        auto it = std::find(r.readers.begin(), r.readers.end(), w->cur->id);
        if(it != r.readers.end()) {
            r.readers.erase(it);
        }
        r.rclk.join(w->cur->clk);
    }
    incr();
    wake(m);
    return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t* m) {
    memset(reinterpret_cast<char*>(m) + 32, 0, 8);
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if(!on()) {
        return real_pthread_cond_wait()(c, m);
    }
    rt_guard guard_;
    return c_wait(c, m, nullptr);
}
int pthread_cond_timedwait(pthread_cond_t* c,
                           pthread_mutex_t* m,
                           const timespec* t) {
    if(!on()) {
        return real_pthread_cond_timedwait()(c, m, t);
    }
    rt_guard guard_;
    auto d = ns(t);
    return c_wait(c, m, &d);
}
int pthread_cond_clockwait(pthread_cond_t* c,
                           pthread_mutex_t* m,
                           clockid_t clk,
                           const timespec* t) {
    if(!on()) {
        return real_pthread_cond_clockwait()(c, m, clk, t);
    }
    rt_guard guard_;
    auto d = ns(t);
    return c_wait(c, m, &d);
}
int pthread_cond_signal(pthread_cond_t* c) {
    if(!on()) {
        return real_pthread_cond_signal()(c);
    }
    rt_guard guard_;
    c_signal(c, false);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if(!on()) {
        return real_pthread_cond_broadcast()(c);
    }
    rt_guard guard_;
    c_signal(c, true);
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
    memset(reinterpret_cast<char*>(c) + 40, 0, 8);
    return 0;
}
int pthread_create(pthread_t* t,
                   const pthread_attr_t* a,
                   void* (*fn)(void*),
                   void* arg) {
    if(!on()) {
        return real_pthread_create()(t, a, fn, arg);
    }
    rt_guard guard_;
    auto* f = spawn([fn, arg]() {
        return fn(arg);
    });
    *t = reinterpret_cast<pthread_t>(f);
    pt("thread start");
    return 0;
}
int pthread_join(pthread_t t, void** ret) {
    if(!on()) {
        return real_pthread_join()(t, ret);
    }
    rt_guard guard_;
    auto* f = reinterpret_cast<fiber*>(t);
    if(f == w->cur) {
        return EDEADLK;
    }
    pt("join");
    while(f->state != st::done) {
        block(f, "join");
    }
    w->cur->clk.join(f->clk);
    f->joined = true;
    if(ret != nullptr) {
        *ret = f->ret;
    }
    return 0;
}
int pthread_detach(pthread_t t) {
    if(!on()) {
        return real_pthread_detach()(t);
    }
    rt_guard guard_;
    reinterpret_cast<fiber*>(t)->detached = true;
    return 0;
}
pthread_t pthread_self() {
    if(!on()) {
        return real_pthread_self()();
    }
    rt_guard guard_;
    return reinterpret_cast<pthread_t>(w->cur);
}
int pthread_once(pthread_once_t* o, void (*fn)()) {
    if(!on()) {
        return real_pthread_once()(o, fn);
    }
    rt_guard guard_;
    // 0 new, 2 done (the C library's own value), 0x1001 running here
    while(*o == 0x1001) {
        block(o, "once");
    }
    if(*o == 2) {
        hb_acquire(o);
        return 0;
    }
    *o = 0x1001;
    auto rt = w->cur->rt;
    w->cur->rt = 0;
    fn();
    w->cur->rt = rt;
    *o = 2;
    hb_release(o);
    wake(o);
    return 0;
}
int sched_yield() {
    if(!on()) {
        return real_sched_yield()();
    }
    rt_guard guard_;
    tick();
    auto r = runnable_after(w->cur, false);
    // time passes while threads poll
    auto* polled = ++w->yields > 20 ? earliest_timer() : nullptr;
    if(polled != nullptr) {
        w->yields = 0;
        if(++w->idle > w->o.max_idle) {
            die("livelock", "spinning; " + threads());
        }
        fire(polled);
        go(polled);
    } else if(!r.empty()) {
        uint32_t k = 0;
        if(r.size() > 1) {
            k = w->c->choose(uint32_t(r.size()), "yield", w->o.block_cost);
        }
        go(r[k]);
    } else if(auto* t = earliest_timer()) {
        if(++w->idle > w->o.max_idle) {
            die("livelock", "spinning; " + threads());
        }
        fire(t);
        go(t);
    }
    return 0;
}
static void v_sleep(uint64_t until_ns) {
    w->cur->timed = true;
    w->cur->deadline = until_ns;
    block(w->cur, "sleep");
}
int nanosleep(const timespec* t, timespec* r) {
    if(!on()) {
        return real_nanosleep()(t, r);
    }
    rt_guard guard_;
    v_sleep(w->now + ns(t));
    return 0;
}
int clock_nanosleep(clockid_t c, int fl, const timespec* t, timespec* r) {
    if(!on()) {
        return real_clock_nanosleep()(c, fl, t, r);
    }
    rt_guard guard_;
    v_sleep((fl & TIMER_ABSTIME) != 0 ? ns(t) : w->now + ns(t));
    return 0;
}
int usleep(useconds_t u) {
    if(!on()) {
        return real_usleep()(u);
    }
    rt_guard guard_;
    v_sleep(w->now + uint64_t(u) * 1000);
    return 0;
}
int clock_gettime(clockid_t c, timespec* t) {
    if(!on()) {
        return real_clock_gettime()(c, t);
    }
    rt_guard guard_;
    t->tv_sec = time_t(w->now / 1000000000ULL);
    t->tv_nsec = long(w->now % 1000000000ULL);
    return 0;
}
int gettimeofday(struct timeval* t, void*) noexcept {
    timespec s{};
    clock_gettime(CLOCK_REALTIME, &s);
    t->tv_sec = s.tv_sec;
    t->tv_usec = s.tv_nsec / 1000;
    return 0;
}

// function-local statics
int verif_guard_acquire(uint64_t* g) asm("__cxa_guard_acquire");
void verif_guard_release(uint64_t* g) asm("__cxa_guard_release");
void verif_guard_abort(uint64_t* g) asm("__cxa_guard_abort");
int verif_guard_acquire(uint64_t* g) {
    rt_guard guard_;
    auto* b = reinterpret_cast<volatile char*>(g);
    while(true) {
        if(b[0] != 0) {
            if(on()) {
                hb_acquire(g);
            }
            return 0;
        }
        if(b[1] == 0) {
            b[1] = 1;
            return 1;
        }
        if(!on()) {
            return 0;
        }
        block(g, "static initialisation");
    }
}
void verif_guard_release(uint64_t* g) {
    rt_guard guard_;
    auto* b = reinterpret_cast<volatile char*>(g);
    b[0] = 1;
    b[1] = 0;
    if(on()) {
        hb_release(g);
        wake(g);
    }
}
void verif_guard_abort(uint64_t* g) {
    reinterpret_cast<volatile char*>(g)[1] = 0;
    if(on()) {
        wake(g);
    }
}

// ------------------------------------------------ compiler instrumentation
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define PC __builtin_return_address(0)
#define RW(n)                                                                 \
    void __tsan_read##n(void* p) {                                            \
        access(p, n, false, PC);                                              \
    }                                                                         \
    void __tsan_write##n(void* p) {                                           \
        access(p, n, true, PC);                                               \
    }                                                                         \
    void __tsan_unaligned_read##n(void* p) {                                  \
        access(p, n, false, PC);                                              \
    }                                                                         \
    void __tsan_unaligned_write##n(void* p) {                                 \
        access(p, n, true, PC);                                               \
    }                                                                         \
    void __tsan_volatile_read##n(void* p) {                                   \
        access(p, n, false, PC);                                              \
    }                                                                         \
    void __tsan_volatile_write##n(void* p) {                                  \
        access(p, n, true, PC);                                               \
    }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) {
    access(p, n, false, PC);
}
void __tsan_write_range(void* p, size_t n) {
    access(p, n, true, PC);
}
// block operations of instrumented code (symbols redirected at build time)
void* verif_memcpy(void* d, const void* s, size_t n) {
    access(s, n, false, PC);
    access(d, n, true, PC);
    return memmove(d, s, n);
}
void* verif_memmove(void* d, const void* s, size_t n) {
    access(s, n, false, PC);
    access(d, n, true, PC);
    return memmove(d, s, n);
}
void* verif_memset(void* d, int c, size_t n) {
    access(d, n, true, PC);
    return memset(d, c, n);
}
int verif_memcmp(const void* a, const void* b, size_t n) {
    access(a, n, false, PC);
    access(b, n, false, PC);
    return memcmp(a, b, n);
}
void __tsan_vptr_update(void** p, void* v) {
    if(*p != v) {
        access(p, 8, true, PC);
    }
}
void __tsan_vptr_read(void** p) {
    access(p, 8, false, PC);
}
}

// ----------------------------------------------------------------- atomics
// __ATOMIC_RELAXED 0 CONSUME 1 ACQUIRE 2 RELEASE 3 ACQ_REL 4 SEQ_CST 5
static void a_point(int mo, const char* what) {
    rt_guard guard_;
    // shared_ptr counts and futures' internal states use weaker orders; what
    // can be observed of them is bracketed by other scheduling points
    if(mo == __ATOMIC_SEQ_CST && on()) {
        pt(what);
    }
}
static void a_acq(const volatile void* p, int mo) {
    rt_guard guard_;
    if(on() && mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE) {
        hb_acquire(const_cast<const void*>(p));
    }
}
static void a_rel(const volatile void* p, int mo) {
    rt_guard guard_;
    if(on() && mo >= __ATOMIC_RELEASE) {
        hb_release(const_cast<const void*>(p));
    }
}
#define ATOMIC(bits, T)                                                       \
    extern "C" T __tsan_atomic##bits##_load(const volatile T* p, int mo) {    \
        a_point(mo, "load");                                                  \
        a_acq(p, mo);                                                         \
        return *p;                                                            \
    }                                                                         \
    extern "C" void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { \
        a_point(mo, "store");                                                 \
        a_rel(p, mo);                                                         \
        *p = v;                                                               \
    }                                                                         \
    extern "C" T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { \
        a_point(mo, "exchange");                                              \
        a_acq(p, mo);                                                         \
        a_rel(p, mo);                                                         \
        T o = *p;                                                             \
        *p = v;                                                               \
        return o;                                                             \
    }                                                                         \
    A_OP(bits, T, fetch_add, o + v)                                           \
    A_OP(bits, T, fetch_sub, o - v)                                           \
    A_OP(bits, T, fetch_and, o& v)                                            \
    A_OP(bits, T, fetch_or, o | v)                                            \
    A_OP(bits, T, fetch_xor, o ^ v)                                           \
    A_OP(bits, T, fetch_nand, ~(o & v))                                       \
    A_CAS(bits, T, compare_exchange_strong)                                   \
    A_CAS(bits, T, compare_exchange_weak)                                     \
    extern "C" T __tsan_atomic##bits##_compare_exchange_val(volatile T* p,    \
                                                            T e,              \
                                                            T v,              \
                                                            int mo,           \
                                                            int) {            \
        a_point(mo, "cas");                                                   \
        a_acq(p, mo);                                                         \
        T o = *p;                                                             \
        if(o == e) {                                                          \
            a_rel(p, mo);                                                     \
            *p = v;                                                           \
        }                                                                     \
        return o;                                                             \
    }
#define A_OP(bits, T, name, expr)                                             \
    extern "C" T __tsan_atomic##bits##_##name(volatile T* p, T v, int mo) {   \
        a_point(mo, #name);                                                   \
        a_acq(p, mo);                                                         \
        a_rel(p, mo);                                                         \
        T o = *p;                                                             \
        *p = T(expr);                                                         \
        return o;                                                             \
    }
#define A_CAS(bits, T, name)                                                  \
    extern "C" int __tsan_atomic##bits##_##name(volatile T* p,                \
                                                T* e,                         \
                                                T v,                          \
                                                int mo,                       \
                                                int) {                        \
        a_point(mo, "cas");                                                   \
        a_acq(p, mo);                                                         \
        if(*p == *e) {                                                        \
            a_rel(p, mo);                                                     \
            *p = v;                                                           \
            return 1;                                                         \
        }                                                                     \
        *e = *p;                                                              \
        return 0;                                                             \
    }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
extern "C" void __tsan_atomic_thread_fence(int) {}
extern "C" void __tsan_atomic_signal_fence(int) {}

// ----------------------------------------------------------------- futures
uint32_t sched::random_base = 0;
namespace std {
    bool __atomic_futex_unsigned_base::_M_futex_wait_until(
        unsigned* addr,
        unsigned val,
        bool has_timeout,
        chrono::seconds s,
        chrono::nanoseconds n) {
        rt_guard guard_;
        if(!on()) {
            while(__atomic_load_n(addr, __ATOMIC_ACQUIRE) == val) {
                usleep(100);
            }
            return true;
        }
        pt("future wait");
        while(*addr == val) {
            if(has_timeout) {
                uint64_t d = uint64_t(s.count()) * 1000000000ULL
                           + uint64_t(n.count());
                if(d <= w->now) {
                    return false;
                }
                if(!block_on_timed(addr, "timed future", d)
                   && *addr == val) {
                    return false;
                }
            } else {
                block(addr, "future");
            }
        }
        hb_acquire(addr);
        return true;
    }
    rt_guard guard_;
    bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(
        unsigned* addr,
        unsigned val,
        bool has_timeout,
        chrono::seconds s,
        chrono::nanoseconds n) {
        return _M_futex_wait_until(addr, val, has_timeout, s, n);
    }
    void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* addr) {
        rt_guard guard_;
        if(on()) {
            hb_release(addr);
            wake(addr);
        }
    }
    // deterministic randomness: a counter, restarted for every path
    random_device::result_type random_device::_M_getval() {
        static uint32_t outside = 1;
        static uint32_t gen = 0, n = 0;
        if(!on()) {
            return outside++;
        }
        if(gen != w->gen) {
            gen = w->gen;
            n = 0;
        }
        return sched::random_base + n++;
    }
    void random_device::_M_init(const string&) {}
    void random_device::_M_fini() {}
}

// ------------------------------------------------------- memory (lifetimes)
#ifndef SCHED_NO_NEW
#include <new>
#include <malloc.h>
// linked in when large tables are served by bigsched.cpp
extern "C" void* verif_big_alloc(size_t n) __attribute__((weak));
extern "C" bool verif_big_free(void* p) __attribute__((weak));
void* operator new(size_t n) {
    void* p = nullptr;
    if(verif_big_alloc != nullptr) {
        p = verif_big_alloc(n);
    }
    if(p == nullptr) {
        p = malloc(n != 0 ? n : 1);
    }
    if(p == nullptr) {
        fprintf(stderr, "allocation of %zu bytes failed\n", n);
        abort();
    }
    if(on() && w->cur->rt == 0) {
        // recycled memory that was not released through delete
        rt_guard guard_;
        forget(p, n);
    }
    return p;
}
static void del(void* p) {
    if(p == nullptr) {
        return;
    }
    if(verif_big_free != nullptr && verif_big_free(p)) {
        return;
    }
    if(on()) {
        auto n = malloc_usable_size(p);
        // the runtime's own containers end up here too
        if(w->cur->rt == 0) {
            rt_guard guard_;
            forget(p, n);
        }
        // make use after free visible
        memset(p, 0xdd, n);
    }
    free(p);
}
void operator delete(void* p) noexcept {
    del(p);
}
void operator delete(void* p, size_t) noexcept {
    del(p);
}
void* operator new[](size_t n) {
    return operator new(n);
}
void operator delete[](void* p) noexcept {
    del(p);
}
void operator delete[](void* p, size_t) noexcept {
    del(p);
}
#endif
