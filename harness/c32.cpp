// C32: bounded caches. Sequential histories (plain build) and, with
// -DCONCURRENT, all schedules of concurrent adders and readers.
#include "mc/mc.hpp"
#include <algorithm>
#include <functional>
#include <limits>
#include <mutex>
#include <shared_mutex>
#include "util/common/cache_set.hpp"

#include <deque>
#ifdef CONCURRENT
#include "mc/sched.hpp"

#include <thread>
#endif

namespace {
    struct model {
        size_t n;
        std::deque<int> q;
        bool has(int v) const {
            return std::find(q.begin(), q.end(), v) != q.end();
        }
        bool add(int v) {
            if(has(v)) {
                return false;
            }
            q.push_back(v);
            if(q.size() > n) {
                q.pop_front();
            }
            return true;
        }
    };
    // hashers: ordinary, and one that puts everything in one bucket
    struct same {
        size_t operator()(int) const {
            return 7;
        }
    };
    struct sparse {
        size_t operator()(int v) const {
            return size_t(v) * 1000003U;
        }
    };
    template<typename H>
    void seq(mc::ctx& c, size_t n, int dom, int depth) {
        cbdc::cache_set<int, H> s(n);
        model m{n, {}};
        for(int k = 0;; k++) {
            std::string key;
            for(auto v : m.q) {
                key += char('a' + v);
            }
            for(int v = 0; v < dom; v++) {
                bool r = s.contains(v);
                if(r != m.has(v)) {
                    c.fail("contains",
                           "limit %zu, recent [%s]: contains(%d) is %d",
                           n,
                           key.c_str(),
                           v,
                           int(r));
                    return;
                }
            }
            c.agreed();
            if(k == depth) {
                c.outcome(key);
                return;
            }
            // the implementation's hidden state is only determined by the
            // whole history, so nothing is merged
            int v = int(c.choose(uint32_t(dom), "add"));
            c.note("add(%d)", v);
            bool r = s.add(v);
            if(r != m.add(v)) {
                c.fail("add", "limit %zu: add(%d) answered %d", n, v, int(r));
                return;
            }
        }
    }
#ifdef CONCURRENT
    // Two threads add `na` values each, a third queries; afterwards the state
    // must be that of some interleaving of whole adds, and every answer
    // obtained must be explained by it.
    void conc(mc::ctx& c, size_t n, int na) {
        std::vector<int> a, b;
        for(int k = 0; k < na; k++) {
            a.push_back(int(c.choose(3, "a")));
            b.push_back(int(c.choose(3, "b")));
        }
        std::string out;
        sched::options o;
        sched::run(c, o, [&] {
            cbdc::cache_set<int> s(n);
            std::vector<int> ra, rb, rq;
            std::thread ta([&] {
                for(auto v : a) {
                    ra.push_back(int(s.add(v)));
                }
            });
            std::thread tb([&] {
                for(auto v : b) {
                    rb.push_back(int(s.add(v)));
                }
            });
            std::thread tq([&] {
                rq.push_back(int(s.contains(0)));
                rq.push_back(int(s.contains(1)));
            });
            ta.join();
            tb.join();
            tq.join();
            std::string fin;
            for(int v = 0; v < 3; v++) {
                fin += s.contains(v) ? '1' : '0';
            }
            auto obs = [](const std::vector<int>& x,
                          const std::vector<int>& y,
                          const std::vector<int>& z) {
                std::string r;
                for(auto* l : {&x, &y, &z}) {
                    for(auto v : *l) {
                        r += char('0' + v);
                    }
                    r += '|';
                }
                return r;
            };
            auto got = obs(ra, rb, rq) + fin;
            // all interleavings of the reference
            bool ok = false;
            std::function<void(model,
                               size_t,
                               size_t,
                               size_t,
                               std::vector<int>,
                               std::vector<int>,
                               std::vector<int>)>
                rec = [&](model m,
                          size_t i,
                          size_t j,
                          size_t k,
                          std::vector<int> xa,
                          std::vector<int> xb,
                          std::vector<int> xq) {
                    if(ok) {
                        return;
                    }
                    if(i == a.size() && j == b.size() && k == 2) {
                        std::string f;
                        for(int v = 0; v < 3; v++) {
                            f += m.has(v) ? '1' : '0';
                        }
                        ok = obs(xa, xb, xq) + f == got;
                        return;
                    }
                    if(i < a.size()) {
                        auto m2 = m;
                        auto x = xa;
                        x.push_back(int(m2.add(a[i])));
                        rec(m2, i + 1, j, k, x, xb, xq);
                    }
                    if(j < b.size()) {
                        auto m2 = m;
                        auto x = xb;
                        x.push_back(int(m2.add(b[j])));
                        rec(m2, i, j + 1, k, xa, x, xq);
                    }
                    if(k < 2) {
                        auto x = xq;
                        x.push_back(int(m.has(int(k))));
                        rec(m, i, j, k + 1, xa, xb, x);
                    }
                };
            {
                sched::atomic_section as;
                rec(model{n, {}}, 0, 0, 0, {}, {}, {});
            }
            if(!ok) {
                sched::fail("linearizable",
                            "limit " + std::to_string(n)
                                + ": no order of the calls explains "
                                + got);
            }
            out = got;
        });
        if(!c.failed()) {
            c.agreed();
            c.outcome(out);
        }
    }
#endif
}

int main(int argc, char** argv) {
    bool T = mc::thorough();
    std::vector<mc::scenario> s;
#ifdef CONCURRENT
    for(size_t n : {1, 2}) {
        s.push_back({mc::strf("3 threads, limit %zu", n),
                     [=](mc::ctx& c) { conc(c, n, 2); },
                     T ? 4U : 2U,
                     8,
                     3,
                     "2 adders of 2 values out of 3, 1 reader"});
    }
#else
    for(size_t n = 1; n <= 4; n++) {
        int d = T ? 9 : 7;
        s.push_back({mc::strf("limit %zu", n),
                     [=](mc::ctx& c) { seq<std::hash<int>>(c, n, int(n) + 2 > 5 ? 5 : int(n) + 2, d); },
                     0, 8, 2,
                     mc::strf("every sequence of %d insertions", d)});
        s.push_back({mc::strf("limit %zu, colliding hashes", n),
                     [=](mc::ctx& c) { seq<same>(c, n, 4, d); },
                     0, 8, 2,
                     mc::strf("every sequence of %d insertions of 4 values", d)});
        s.push_back({mc::strf("limit %zu, spread hashes", n),
                     [=](mc::ctx& c) { seq<sparse>(c, n, 4, d); },
                     0, 8, 2,
                     mc::strf("every sequence of %d insertions of 4 values", d)});
    }
#endif
    return mc::main(argc, argv, "C32", "model_checking",
                    "every insertion history (and every schedule of "
                    "concurrent calls) compared with a reference FIFO set; "
                    "non-trivial = distinct final contents or answers",
                    {"values only matter through equality and hash"},
                    s);
}
