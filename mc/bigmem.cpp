// Large zero-filled allocations (hash tables with millions of buckets) are
// served by mmap and cleared by returning the pages, so that building the real
// objects afresh for every explored path stays cheap. Semantics unchanged.
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <new>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace {
    constexpr size_t big = 256 * 1024;
    struct region {
        char* p;
        size_t n;
        bool used;
        bool dirty;
    };
    region regs[64];
    size_t nregs;
    // raw system calls: sanitizer interceptors would walk the shadow of the
    // whole region each time
    void* big_alloc(size_t n) {
        n = (n + 4095) & ~size_t(4095);
        for(size_t i = 0; i < nregs; i++) {
            if(!regs[i].used && regs[i].n == n) {
                regs[i].used = true;
                return regs[i].p;
            }
        }
        if(nregs >= 60) {
            return nullptr;
        }
        auto* p = reinterpret_cast<char*>(
            syscall(SYS_mmap,
                    nullptr,
                    n,
                    PROT_READ | PROT_WRITE,
                    MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE,
                    -1,
                    0));
        if(p == reinterpret_cast<char*>(-1)) {
            return nullptr;
        }
        regs[nregs++] = {p, n, true, false};
        return p;
    }
    bool big_free(void* p) {
        for(size_t i = 0; i < nregs; i++) {
            if(regs[i].p == p && regs[i].used) {
                syscall(SYS_madvise, p, regs[i].n, MADV_DONTNEED);
                regs[i].used = false;
                return true;
            }
        }
        return false;
    }
}
extern "C" void* __real_memset(void*, int, size_t);
extern "C" void* __wrap_memset(void* d, int c, size_t n) {
    if(n >= big && c == 0) {
        for(size_t i = 0; i < nregs; i++) {
            if(regs[i].p <= d && static_cast<char*>(d) + n <= regs[i].p + regs[i].n
               && reinterpret_cast<uintptr_t>(d) % 4096 == 0) {
                syscall(SYS_madvise, d, n & ~size_t(4095), MADV_DONTNEED);
                if((n & 4095) != 0) {
                    __real_memset(static_cast<char*>(d) + (n & ~size_t(4095)),
                                  0,
                                  n & 4095);
                }
                return d;
            }
        }
    }
    return __real_memset(d, c, n);
}
#ifdef BIGMEM_SCHED
// sched.cpp owns operator new
extern "C" void* verif_big_alloc(size_t n) {
    return n >= big ? big_alloc(n) : nullptr;
}
extern "C" bool verif_big_free(void* p) {
    return nregs != 0 && (reinterpret_cast<uintptr_t>(p) & 4095) == 0
        && big_free(p);
}
#else
void* operator new(size_t n) {
    if(n >= big) {
        if(auto* p = big_alloc(n)) {
            return p;
        }
    }
    void* p = malloc(n != 0 ? n : 1);
    if(p == nullptr) {
        fprintf(stderr, "allocation of %zu bytes failed\n", n);
        abort();
    }
    return p;
}
void operator delete(void* p) noexcept {
    if(nregs != 0 && (reinterpret_cast<uintptr_t>(p) & 4095) == 0
       && p != nullptr && big_free(p)) {
        return;
    }
    free(p);
}
void operator delete(void* p, size_t) noexcept {
    operator delete(p);
}
void* operator new[](size_t n) {
    return operator new(n);
}
void operator delete[](void* p) noexcept {
    operator delete(p);
}
void operator delete[](void* p, size_t) noexcept {
    operator delete(p);
}
#endif
