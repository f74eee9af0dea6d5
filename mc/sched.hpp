// Controlled scheduler: every thread of the code under test is a fiber of one
// OS thread; pthread primitives, futures, sleeps, clocks and sequentially
// consistent atomics are scheduling points decided by the explorer. Plain
// accesses of instrumented code feed a happens-before race detector, so that
// scheduling only at synchronisation loses nothing.
#ifndef VERIF_SCHED_HPP
#define VERIF_SCHED_HPP
#include "mc.hpp"

#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sched {
    struct options {
        uint32_t preempt_cost{1};   // leaving a thread that could go on
        uint32_t block_cost{1};     // not the default successor when blocked
        uint32_t timer_cost{1};     // a timeout firing while others can run
        uint32_t wake_cost{1};      // waking other than the longest waiter
        uint32_t max_steps{60000};  // more is reported as livelock
        uint32_t max_idle{2000};    // consecutive time advances: livelock
        bool races{true};
        bool leak_ok{false};        // threads may still run at the end
        bool spurious{false};       // spurious condition-variable wake-ups
        std::vector<std::string> race_ignore; // substrings of function names
        uint32_t slow_cost{1}; // one thread goes on only when no other can
        std::string fail_prefix;    // prepended to failure keys
    };
    // Runs `body` as the first thread and returns when it and every thread it
    // started have ended, or when the path failed.
    void run(mc::ctx& c, const options& o, const std::function<void()>& body);
    bool active();
    // How many threads (in order of creation) are tried as the slow one.
    extern uint32_t slow_threads;
    // first value std::random_device gives in a run
    extern uint32_t random_base;
    // --- for harness code running inside a fiber ---
    void point(const char* what);
    // Blocks until pred() holds (re-evaluated whenever somebody else ran).
    void until(const std::function<bool()>& pred, const char* what);
    // Explicit nondeterminism inside a run.
    uint32_t choose(uint32_t n, const char* what, uint32_t cost = 0);
    // While calm only the default schedule is explored.
    void calm(bool on);
    // Fails the current path and ends it at once.
    [[noreturn]] void fail(const std::string& key, const std::string& msg);
    [[noreturn]] void end_path();
    // Lets every other thread run until all of them are blocked.
    void quiesce();
    uint64_t now_ns();
    uint32_t self();
    uint32_t steps();
    std::string threads(); // who is blocked on what
    // HB edges for modelled I/O
    void hb_release(const void* obj);
    void hb_acquire(const void* obj);
    // marks runtime code: its memory accesses are not recorded
    struct rt_guard {
        void* f{};
        rt_guard();
        ~rt_guard();
        rt_guard(const rt_guard&) = delete;
    };
    // suspend preemption (model code)
    struct atomic_section {
        atomic_section();
        ~atomic_section();
    };
    // blocking building blocks for the simulated network
    void block_on(const void* obj, const char* what);
    bool block_on_timed(const void* obj, const char* what, uint64_t deadline);
    void wake_all(const void* obj);
}
#endif
