// C19: queues and thread pool under every interleaving (bounded preemptions)
#include "common.hpp"
#include "mc/sched.hpp"
#include "util/common/blocking_queue.hpp"
#include "util/common/thread_pool.hpp"

#include <algorithm>
#include <thread>

using namespace cbdc;
namespace {
    struct op {
        char k{};         // u push, o pop, c clear
        int v{};          // element
        bool ok{};        // pop result
        uint32_t b{}, e{~0U};
    };
    struct history {
        std::vector<op> ops;
        uint32_t clock{};
        size_t begin(char k, int v = 0) {
            sched::atomic_section a;
            ops.push_back(op{k, v, false, ++clock, ~0U});
            return ops.size() - 1;
        }
        void end(size_t i, bool ok = true, int v = -1) {
            sched::atomic_section a;
            ops[i].e = ++clock;
            ops[i].ok = ok;
            if(v >= 0) {
                ops[i].v = v;
            }
        }
        std::string str() const {
            std::string r;
            for(auto& o : ops) {
                r += mc::strf("%c(%d)%s[%u,%u] ",
                              o.k,
                              o.v,
                              o.k == 'o' ? (o.ok ? "=ok" : "=none") : "",
                              o.b,
                              o.e);
            }
            return r;
        }
    };
    // Is the history explained by some order of the operations compatible
    // with real time? `prio`: largest first instead of first in.
    bool linear(const std::vector<op>& ops,
                uint32_t done,
                std::vector<int>& q,
                bool woken,
                bool prio,
                std::set<std::string>& seen) {
        if(done + 1 == (1U << ops.size())) {
            return true;
        }
        std::string key = mc::strf("%u|%d|", done, int(woken));
        for(auto x : q) {
            key += char(x + 1);
        }
        if(!seen.insert(key).second) {
            return false;
        }
        uint32_t first_end = ~0U;
        for(size_t i = 0; i < ops.size(); i++) {
            if((done >> i & 1) == 0) {
                first_end = std::min(first_end, ops[i].e);
            }
        }
        for(size_t i = 0; i < ops.size(); i++) {
            if((done >> i & 1) != 0 || ops[i].b > first_end) {
                continue;
            }
            auto q2 = q;
            auto w2 = woken;
            if(ops[i].k == 'u') {
                q2.push_back(ops[i].v);
            } else if(ops[i].k == 'c') {
                q2.clear();
                w2 = true;
            } else if(ops[i].ok) {
                if(q2.empty()) {
                    continue;
                }
                auto it = prio ? std::max_element(q2.begin(), q2.end())
                               : q2.begin();
                if(*it != ops[i].v) {
                    continue;
                }
                q2.erase(it);
            } else if(!q2.empty() || !woken) {
                continue;
            }
            if(linear(ops, done | 1U << i, q2, w2, prio, seen)) {
                return true;
            }
        }
        return false;
    }
    void judge(const history& h, bool prio) {
        std::vector<int> q;
        std::set<std::string> seen;
        bool ok = false;
        std::string s;
        {
            sched::atomic_section a;
            ok = linear(h.ops, 0, q, false, prio, seen);
            s = h.str();
        }
        if(!ok) {
            sched::fail("queue-order",
                        "no order of the operations explains: " + s);
        }
    }
    template<typename Q>
    void queue_scn(mc::ctx& c,
                   bool prio,
                   int producers,
                   int each,
                   int consumers,
                   bool clear,
                   bool spurious) {
        sched::options o;
        o.spurious = spurious;
        std::string out;
        sched::run(c, o, [&]() {
            history h;
            {
                Q q;
                std::vector<std::thread> t;
                int total = producers * each;
                for(int p = 0; p < producers; p++) {
                    t.emplace_back([&, p]() {
                        for(int i = 0; i < each; i++) {
                            // priorities deliberately not in push order
                            int v = prio ? (i * 7 + p * 3) % 11
                                         : p * 10 + i;
                            auto k = h.begin('u', v);
                            q.push(v);
                            h.end(k);
                        }
                    });
                }
                for(int k = 0; k < consumers; k++) {
                    int n = clear ? 99 : total / consumers;
                    t.emplace_back([&, n]() {
                        for(int i = 0; i < n; i++) {
                            int v = -1;
                            auto x = h.begin('o');
                            bool ok = q.pop(v);
                            h.end(x, ok, ok ? v : 0);
                            if(!ok) {
                                return;
                            }
                        }
                    });
                }
                if(clear) {
                    auto k = h.begin('c');
                    q.clear();
                    h.end(k);
                }
                for(auto& x : t) {
                    x.join();
                }
                if(clear) {
                    // all consumers are back: the queue can be reused
                    q.clear();
                    q.reset();
                    q.push(5);
                    int v = -1;
                    if(!q.pop(v) || v != 5) {
                        sched::fail("reuse", "queue unusable after reset");
                    }
                    std::thread w([&]() {
                        int y = -1;
                        if(!q.pop(y) || y != 6) {
                            sched::fail("reuse",
                                        "pop after reset returned without "
                                        "the element");
                        }
                    });
                    q.push(6);
                    w.join();
                }
            }
            judge(h, prio);
            sched::atomic_section a;
            int got = 0;
            for(auto& x : h.ops) {
                if(x.k == 'o') {
                    out += x.ok ? char('a' + x.v) : '-';
                    got += x.ok;
                }
            }
            if(!clear && got != producers * each) {
                sched::fail("lost", "elements missing: " + h.str());
            }
        });
        c.agreed();
        c.outcome(out);
    }

    // destruction wakes consumers... pushes tasks in several ways
    void pool_scn(mc::ctx& c, int mode) {
        sched::options o;
        std::string out;
        sched::run(c, o, [&]() {
            std::vector<int> ran(8, 0);
            std::vector<std::string> order;
            int tasks = 0;
            auto task = [&](int i) {
                auto from = sched::self();
                return [&, i, from]() {
                    sched::atomic_section a;
                    ran[size_t(i)]++;
                    if(sched::self() == from) {
                        sched::fail("on-caller", "task ran on its caller");
                    }
                    out += char('0' + i);
                };
            };
            {
                thread_pool p;
                switch(mode) {
                    case 0: // one submitter, pool destroyed at once
                        tasks = 3;
                        p.push(task(0));
                        p.push(task(1));
                        p.push(task(2));
                        break;
                    case 1: { // two submitters
                        tasks = 4;
                        std::thread t([&]() {
                            p.push(task(0));
                            p.push(task(1));
                        });
                        p.push(task(2));
                        p.push(task(3));
                        t.join();
                        break;
                    }
                    case 2: { // a task that waits for a later one
                        tasks = 2;
                        auto t0 = task(0), t1 = task(1);
                        bool done = false;
                        p.push([&, t0]() {
                            sched::until(
                                [&]() {
                                    sched::atomic_section a;
                                    return done;
                                },
                                "a task queued later");
                            t0();
                        });
                        p.push([&, t1]() {
                            t1();
                            sched::atomic_section a;
                            done = true;
                        });
                        sched::until(
                            [&]() {
                                sched::atomic_section a;
                                return ran[0] + ran[1] == 2;
                            },
                            "both tasks");
                        break;
                    }
                    case 3: { // reuse of a thread that just finished
                        tasks = 3;
                        p.push(task(0));
                        sched::until(
                            [&]() {
                                sched::atomic_section a;
                                return ran[0] == 1;
                            },
                            "first task");
                        p.push(task(1));
                        p.push(task(2));
                        break;
                    }
                    case 4: { // tasks submitted by a task
                        tasks = 3;
                        auto t0 = task(0);
                        p.push([&, t0]() {
                            t0();
                            p.push(task(1));
                            p.push(task(2));
                        });
                        sched::until(
                            [&]() {
                                sched::atomic_section a;
                                return ran[0] + ran[1] + ran[2] == 3;
                            },
                            "nested tasks");
                        break;
                    }
                }
            }
            sched::atomic_section a;
            for(int i = 0; i < tasks; i++) {
                if(ran[size_t(i)] != 1) {
                    sched::fail(ran[size_t(i)] == 0 ? "task-lost"
                                                    : "task-twice",
                                mc::strf("task %d ran %d times",
                                         i,
                                         ran[size_t(i)]));
                }
            }
        });
        c.agreed();
        c.outcome(out);
    }
}

int main(int argc, char** argv) {
    auto T = mc::thorough();
    using Q = blocking_queue<int>;
    using P = blocking_priority_queue<int>;
    uint32_t b = T ? 6 : 4;
    std::vector<mc::scenario> s;
    auto add = [&](std::string n, mc::body f, uint32_t bound) {
        s.push_back({n,
                     f,
                     bound,
                     8,
                     6,
                     mc::strf("all schedules with at most %u deviations from "
                              "run-to-completion (preemptions, unusual "
                              "wake-ups, timers first)",
                              bound)});
    };
    add("fifo 2x2 producers, 2 consumers",
        [](mc::ctx& c) { queue_scn<Q>(c, false, 2, 2, 2, false, false); },
        b);
    add("fifo 1x4 producer, 2 consumers",
        [](mc::ctx& c) { queue_scn<Q>(c, false, 1, 4, 2, false, false); },
        b);
    add("fifo 2x1, 2 consumers, clear",
        [](mc::ctx& c) { queue_scn<Q>(c, false, 2, 1, 2, true, false); },
        b);
    add("fifo 1x2, 1 consumer, clear, spurious wake-ups",
        [](mc::ctx& c) { queue_scn<Q>(c, false, 1, 2, 1, true, true); },
        b);
    add("priority 2x2, 2 consumers",
        [](mc::ctx& c) { queue_scn<P>(c, true, 2, 2, 2, false, false); },
        b);
    add("priority 1x3, 1 consumer, clear",
        [](mc::ctx& c) { queue_scn<P>(c, true, 1, 3, 1, true, false); },
        b);
    for(int m = 0; m < 5; m++) {
        static const char* n[] = {"destroyed at once",
                                  "two submitters",
                                  "dependent tasks",
                                  "thread reuse",
                                  "nested submission"};
        add(std::string("pool: ") + n[m],
            [m](mc::ctx& c) { pool_scn(c, m); },
            T ? 4 : 3);
    }
    return mc::main(argc,
                    argv,
                    "C19",
                    "model_checking",
                    "every schedule of the real queue/pool code within the "
                    "deviation bound; histories checked for linearizability, "
                    "plus deadlock, livelock and data-race detection",
                    {"clear() is followed by reset() before reuse"},
                    s);
}
