// C17: one execution of an agent against every behaviour of a broker. The
// agent is real; broker and contract runner are models.
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <variant>
#include <vector>

#include "harness/common.hpp"
#include "parsec/agent/impl.hpp"
#include "parsec/broker/interface.hpp"

namespace {
    using namespace cbdc;
    using namespace cbdc::parsec;
    using bi = broker::interface;
    using ec = bi::error_code;
    using sec = runtime_locking_shard::error_code;
    using serr = runtime_locking_shard::shard_error;
    using aec = agent::interface::error_code;
    using ticket_number_type = ticket_machine::ticket_number_type;

    buffer buf(const std::string& s) {
        buffer b;
        b.append(s.data(), s.size());
        return b;
    }
    std::string str(const buffer& b) {
        return std::string(reinterpret_cast<const char*>(b.data()), b.size());
    }
    enum class ts {
        none,
        begun,
        prepared,
        committed,
        aborted,
        gone
    };
    enum class script {
        two_locks,   // one after the other, then writes both
        parallel,    // both at once
        no_locks,    // returns at once
        throws_late, // fails after the first lock
        refuses,     // run() returns false
        hazard       // writes a key it has not locked
    };
    struct options {
        script what{script::two_locks};
        bool readonly{};
        // a read-only run of a contract that writes
        int writes{}; // 1: nevertheless asks for read locks only
        int faults{2};
        bool defer{};     // answers come later by default
        size_t fn_size{2};
        bool restarts{};  // owner may call exec() at any point
        bool repeats{};   // callbacks may be invoked again
    };
    struct world;
    world* g_w{};

    struct world {
        mc::ctx& c;
        options o;
        // the broker
        ts st{ts::none};
        uint64_t epoch{0}; // attempts of the ticket at the broker
        uint64_t ticket{7};
        std::map<std::string, int> locked; // granted in this epoch
        bool finished{}, finishing{};
        std::optional<broker::state_update_type> effects; // committed
        std::optional<broker::state_update_type> decided; // prepared
        struct call {
            std::function<void()> f;
            std::string what;
            bool late{};
        };
        std::deque<call> pend;
        std::vector<call> old;
        int faults_left;
        // the owner
        std::vector<agent::interface::exec_return_type> finals;
        bool want_exec{}, stop{};
        int runs{}, execs{}, begins{};
        std::set<std::string> ran; // values seen by the runner, this attempt
        bool broken_commit{};
        std::shared_ptr<agent::impl> ag;
        struct runner_state {
            int answered{}, results{};
        };

        world(mc::ctx& x, const options& y)
            : c(x),
              o(y),
              faults_left(y.faults) {
            g_w = this;
        }
        void bad(const char* k, const std::string& m) {
            if(!stop) {
                c.fail(k, "%s", m.c_str());
                stop = true;
            }
        }
        // One of n: 0 is the ordinary answer, others use up a fault
        uint32_t fault(uint32_t n, const char* w) {
            if(n <= 1 || faults_left == 0 || stop) {
                return 0;
            }
            auto r = c.choose(n, w, 1);
            if(r != 0) {
                faults_left--;
            }
            return r;
        }
        // Answers now or later
        void answer(const char* w, std::function<void()> f) {
            auto later = o.defer;
            if(fault(2, "order") != 0) {
                later = !later;
            }
            call k{std::move(f), w, false};
            if(o.repeats) {
                old.push_back(k);
            }
            if(later) {
                pend.push_back(std::move(k));
            } else {
                k.f();
            }
        }
    };

    struct model : bi {
        world& w;
        explicit model(world& x) : w(x) {}
        auto begin(begin_callback_type cb) -> bool override {
            auto k = w.fault(3, "begin");
            if(w.o.restarts || w.begins == 0) {
                w.begins++;
            }
            if(k == 1) {
                w.c.note("begin: cannot be sent");
                return false;
            }
            if(k == 2) {
                w.c.note("begin: fails");
                w.answer("begin error", [cb]() {
                    cb(ec::ticket_number_assignment);
                });
                return true;
            }
            w.c.note("begin: ok");
            w.answer("begin", [this, cb]() {
                if(w.st == ts::none) {
                    w.st = ts::begun;
                }
                cb(w.ticket);
            });
            return true;
        }
        auto try_lock(ticket_number_type t,
                      broker::key_type key,
                      broker::lock_type lt,
                      try_lock_callback_type cb) -> bool override {
            if(t != w.ticket) {
                w.bad("ticket", "lock request for another ticket");
            }
            if(w.o.readonly && lt == broker::lock_type::write) {
                w.bad("write-lock", "a read-only run asks for a write lock");
            }
            auto name = str(key);
            switch(w.st) {
                case ts::begun:
                    break;
                case ts::aborted:
                    w.st = ts::begun;
                    w.epoch++;
                    w.locked.clear();
                    break;
                case ts::prepared:
                    cb(ec::prepared);
                    return true;
                case ts::committed:
                    cb(ec::committed);
                    return true;
                default:
                    w.answer("lock: unknown ticket", [cb]() {
                        cb(ec::unknown_ticket);
                    });
                    return true;
            }
            auto k = w.fault(5, "lock");
            w.c.note("try_lock %s: %s",
                     name.c_str(),
                     k == 0   ? "granted"
                     : k == 1 ? "cannot be sent"
                     : k == 2 ? "broker error"
                     : k == 3 ? "wounded"
                              : "shard error");
            if(k == 1) {
                return false;
            }
            auto e = w.epoch;
            w.answer("lock", [this, cb, k, e, name, lt]() {
                if(k == 2) {
                    cb(ec::shard_unreachable);
                } else if(k == 3 || k == 4) {
                    cb(serr{k == 3 ? sec::wounded : sec::lock_not_held,
                            std::nullopt});
                } else {
                    if(w.epoch == e && w.st == ts::begun) {
                        w.locked[name] = lt == broker::lock_type::write;
                    }
                    cb(buf(name + "@" + std::to_string(e)));
                }
            });
            return true;
        }
        void decide(const commit_callback_type& cb) {
            // the shards are prepared: the transaction will be committed
            auto k = w.fault(3, "commit phase");
            if(k == 0) {
                w.c.note("commit: done");
                w.answer("commit", [this, cb]() {
                    settle();
                    cb(std::nullopt);
                });
            } else if(k == 1) {
                w.c.note("commit: a shard is unreachable");
                w.answer("commit error", [cb]() {
                    cb(ec::shard_unreachable);
                });
            } else {
                // the error first, then a shard's late success
                w.c.note("commit: an error, later the success");
                w.answer("commit error", [cb]() {
                    cb(ec::commit_error);
                });
                w.pend.push_back({[this, cb]() {
                                      if(w.st == ts::prepared) {
                                          settle();
                                          cb(std::nullopt);
                                      }
                                  },
                                  "late success", true});
            }
        }
        void settle() {
            if(w.st == ts::prepared) {
                w.st = ts::committed;
                w.effects = w.decided;
            }
        }
        auto commit(ticket_number_type t,
                    broker::state_update_type updates,
                    commit_callback_type cb) -> bool override {
            if(t != w.ticket) {
                w.bad("ticket", "commit of another ticket");
            }
            auto k = w.fault(2, "commit sent");
            if(k == 1) {
                w.c.note("commit: cannot be sent");
                return false;
            }
            if(w.st == ts::prepared) {
                decide(cb);
                return true;
            }
            if(w.st != ts::begun) {
                auto e = w.st == ts::committed ? ec::committed
                       : w.st == ts::aborted   ? ec::aborted
                                               : ec::unknown_ticket;
                cb(e);
                return true;
            }
            if(w.o.what == script::hazard && updates.count(buf("x")) != 0) {
                w.c.note("commit: hazard");
                w.answer("prepare error", [cb]() {
                    cb(ec::commit_hazard);
                });
                return true;
            }
            judge_commit(updates);
            auto p = w.fault(5, "prepare");
            if(p == 0) {
                w.st = ts::prepared;
                w.decided = updates;
                decide(cb);
                return true;
            }
            w.c.note("commit: %s",
                     p == 1   ? "wounded"
                     : p == 2 ? "shard unreachable in prepare"
                     : p == 3 ? "shard error"
                              : "hazard");
            w.answer("prepare error", [cb, p]() {
                if(p == 1) {
                    cb(serr{sec::wounded, std::nullopt});
                } else if(p == 2) {
                    cb(ec::shard_unreachable);
                } else if(p == 3) {
                    cb(serr{sec::unknown_ticket, std::nullopt});
                } else {
                    cb(ec::commit_hazard);
                }
            });
            return true;
        }
        void judge_commit(const broker::state_update_type& u) {
            if(w.o.readonly && !u.empty()) {
                w.bad("readonly-commit", "a read-only run commits updates");
            }
            auto tag = "@" + std::to_string(w.epoch);
            for(auto& v : w.ran) {
                if(v.substr(v.find('@')) != tag) {
                    w.bad("stale",
                          "commit in attempt " + tag + " uses value " + v
                              + " of an abandoned attempt");
                    return;
                }
                auto n = v.substr(0, v.find('@'));
                if(w.locked.count(n) == 0) {
                    w.bad("unlocked",
                          "commit uses a value of " + n
                              + " that the ticket holds no lock on");
                    return;
                }
            }
            for(auto& [key, v] : u) {
                auto it = w.locked.find(str(key));
                if(it == w.locked.end() || it->second == 0) {
                    w.bad("unlocked", "update of a key that is not locked");
                    return;
                }
            }
        }
        auto finish(ticket_number_type t, finish_callback_type cb)
            -> bool override {
            if(t != w.ticket) {
                w.bad("ticket", "finish of another ticket");
            }
            // calling exec() unasked would be a misuse from now on
            w.finishing = true;
            auto k = w.fault(3, "finish");
            if(k == 1) {
                w.c.note("finish: cannot be sent");
                return false;
            }
            if(w.st != ts::committed && w.st != ts::aborted) {
                w.c.note("finish: refused");
                auto e = w.st == ts::begun    ? ec::begun
                       : w.st == ts::prepared ? ec::prepared
                                              : ec::unknown_ticket;
                cb(e);
                return true;
            }
            if(k == 2) {
                w.c.note("finish: shard unreachable");
                w.answer("finish error", [cb]() {
                    cb(ec::shard_unreachable);
                });
                return true;
            }
            w.c.note("finish: ok");
            w.answer("finish", [this, cb]() {
                if(w.st == ts::committed || w.st == ts::aborted) {
                    w.finished = true;
                    w.st = ts::gone;
                }
                cb(std::nullopt);
            });
            return true;
        }
        auto rollback(ticket_number_type t, rollback_callback_type cb)
            -> bool override {
            if(t != w.ticket) {
                w.bad("ticket", "rollback of another ticket");
            }
            auto k = w.fault(4, "rollback");
            if(k == 1) {
                w.c.note("rollback: cannot be sent");
                return false;
            }
            if(w.st != ts::begun) {
                w.c.note("rollback: refused");
                auto e = w.st == ts::committed ? ec::committed
                       : w.st == ts::aborted   ? ec::aborted
                       : w.st == ts::prepared  ? ec::prepared
                                               : ec::unknown_ticket;
                cb(e);
                return true;
            }
            w.c.note("rollback: %s",
                     k == 0   ? "ok"
                     : k == 2 ? "shard unreachable"
                              : "an error, but done in the end");
            if(k == 2) {
                w.answer("rollback error", [cb]() {
                    cb(ec::shard_unreachable);
                });
                return true;
            }
            w.answer("rollback", [this, cb, k, e = w.epoch]() {
                if(w.st == ts::begun && w.epoch == e) {
                    w.st = ts::aborted;
                }
                if(k == 3) {
                    cb(ec::rollback_error);
                } else {
                    cb(std::nullopt);
                }
            });
            return true;
        }
        auto recover(recover_callback_type) -> bool override {
            return false;
        }
        auto highest_ticket() -> ticket_number_type override {
            return w.ticket;
        }
    };

    struct contract : agent::runner::interface {
        world& w;
        agent::runner::interface::run_callback_type m_done;
        agent::runner::interface::try_lock_callback_type m_lock;
        std::shared_ptr<bool> m_alive{std::make_shared<bool>(true)};
        int m_got{};
        bool m_over{};
        broker::state_update_type m_upd;
        contract(std::shared_ptr<logging::log> l,
                 const cbdc::parsec::config& cfg,
                 runtime_locking_shard::value_type f,
                 agent::parameter_type p,
                 bool ro,
                 run_callback_type done,
                 try_lock_callback_type lock,
                 std::shared_ptr<secp256k1_context> s,
                 std::shared_ptr<thread_pool> tp,
                 ticket_number_type n)
            : interface(std::move(l),
                        cfg,
                        f,
                        std::move(p),
                        ro,
                        done,
                        lock,
                        std::move(s),
                        std::move(tp),
                        n),
              w(*g_w),
              m_done(std::move(done)),
              m_lock(std::move(lock)) {
            w.ran.clear();
            w.runs++;
            auto v = str(f);
            if(w.o.fn_size > 1) {
                w.ran.insert(v);
            }
        }
        ~contract() override {
            *m_alive = false;
        }
        void end(run_return_type r) {
            if(m_over) {
                return;
            }
            m_over = true;
            m_done(std::move(r));
        }
        void lock(const std::string& k, std::function<void()> next) {
            auto alive = m_alive;
            auto ok = m_lock(
                buf(k),
                w.o.readonly && w.o.writes != 2 ? broker::lock_type::read
                                            : broker::lock_type::write,
                [this, alive, k, next](bi::try_lock_return_type r) {
                    if(!*alive) {
                        g_w->bad("dead-runner",
                                 "a lock response reaches the runner of an "
                                 "abandoned attempt");
                        return;
                    }
                    if(auto* v = std::get_if<broker::value_type>(&r)) {
                        w.ran.insert(str(*v));
                        m_got++;
                        if(!w.o.readonly || w.o.writes != 0) {
                            m_upd[buf(k)] = buf("new" + str(*v));
                        }
                        next();
                    } else if(auto* e = std::get_if<serr>(&r);
                              e != nullptr
                              && e->m_error_code == sec::wounded) {
                        end(error_code::wounded);
                    } else {
                        end(error_code::lock_error);
                    }
                });
            if(!ok) {
                if(*alive) {
                    end(error_code::internal_error);
                }
            }
        }
        auto run() -> bool override {
            auto fin = [this]() {
                end(m_upd);
            };
            switch(w.o.what) {
                case script::refuses:
                    if(w.runs == 1) {
                        return false;
                    }
                    fin();
                    break;
                case script::no_locks:
                    fin();
                    break;
                case script::hazard:
                    lock("a", [this, fin]() {
                        m_upd[buf("x")] = buf("y");
                        fin();
                    });
                    break;
                case script::throws_late:
                    lock("a", [this]() {
                        end(error_code::exec_error);
                    });
                    break;
                case script::two_locks:
                    lock("a", [this, fin]() {
                        lock("b", fin);
                    });
                    break;
                case script::parallel: {
                    auto both = [this, fin]() {
                        if(m_got == 2) {
                            fin();
                        }
                    };
                    auto alive = m_alive;
                    lock("a", both);
                    if(*alive && !m_over) {
                        lock("b", both);
                    }
                    break;
                }
            }
            return true;
        }
    };

    void explore(mc::ctx& c, const options& o) {
        world w(c, o);
        auto mb = std::make_shared<model>(w);
        std::vector<std::pair<std::string, std::string>> snapshot;
        w.ag = std::make_shared<agent::impl>(
            h::logger(),
            cbdc::parsec::config{},
            agent::runner::factory<contract>::create,
            mb,
            buf(std::string(o.fn_size, 'f')),
            buf("p"),
            [&](agent::interface::exec_return_type r) {
                auto* e = std::get_if<aec>(&r);
                if(!w.finals.empty()) {
                    w.bad("two-results", "a second result is reported");
                    return;
                }
                if(e != nullptr && *e == aec::retry) {
                    w.c.note("-> retry");
                    w.want_exec = true;
                    return;
                }
                w.c.note("-> %s",
                         e != nullptr ? mc::strf("error %d", int(*e)).c_str()
                                      : "success");
                w.finals.push_back(r);
                // judged now: a client is told now
                if(e == nullptr) {
                    if(!w.effects.has_value() || !w.finished) {
                        w.bad("false-success",
                              "success is reported, but the broker has not "
                              "committed and finished");
                        return;
                    }
                    auto& u = std::get<agent::return_type>(r);
                    if(!o.readonly && u != w.effects.value()) {
                        w.bad("wrong-updates",
                              "the updates reported are not those committed");
                    }
                } else {
                    if(w.effects.has_value() || w.st == ts::prepared) {
                        w.bad("false-failure",
                              mc::strf("error %d is reported, but the broker "
                                       "commits",
                                       int(*e)));
                    } else if(w.st == ts::begun || w.st == ts::aborted) {
                        if(w.begins > 0
                           && (*e != aec::ticket_number_assignment
                               && *e != aec::broker_unreachable)) {
                            w.bad("not-released",
                                  mc::strf("error %d is reported, but the "
                                           "ticket is left behind",
                                           int(*e)));
                        }
                    }
                }
            },
            o.readonly ? broker::lock_type::read : broker::lock_type::write,
            o.readonly,
            nullptr,
            nullptr);
        w.execs++;
        (void)w.ag->exec();
        for(int n = 0; n < 60 && !w.stop; n++) {
            // what may happen next
            uint32_t normal
                = uint32_t(w.pend.size()) + (w.want_exec ? 1U : 0U);
            if(!w.finals.empty() && w.pend.empty()) {
                break;
            }
            uint32_t odd = 0;
            if(w.faults_left > 0) {
                odd = uint32_t(o.repeats ? w.old.size() : 0)
                    + (o.restarts && w.finals.empty() && !w.finishing ? 1U : 0U);
            }
            if(normal == 0 && odd == 0) {
                break;
            }
            if(normal != 0 || odd != 0) {
                uint32_t i = 0;
                if(odd != 0) {
                    i = c.choose(odd + 1, "odd", 1);
                }
                if(i != 0) {
                    w.faults_left--;
                    if(i <= (o.repeats ? w.old.size() : 0)) {
                        w.c.note("again: %s", w.old[i - 1].what.c_str());
                        auto f = w.old[i - 1].f;
                        f();
                    } else {
                        w.c.note("exec() called again");
                        w.want_exec = false;
                        w.execs++;
                        (void)w.ag->exec();
                    }
                    c.agreed();
                    continue;
                }
            }
            if(normal == 0) {
                break;
            }
            auto i = c.choose(normal, "next", o.restarts ? 1 : 0);
            if(i < w.pend.size()) {
                auto k = w.pend[i];
                w.pend.erase(w.pend.begin() + i);
                w.c.note("answer: %s", k.what.c_str());
                k.f();
            } else {
                w.want_exec = false;
                w.execs++;
                w.c.note("exec()");
                (void)w.ag->exec();
            }
            c.agreed();
        }
        if(!w.stop && w.finals.empty()) {
            w.bad("no-result",
                  mc::strf("no result after %d calls of exec(), agent state "
                           "%d",
                           w.execs,
                           int(w.ag->get_state())));
        }
        if(!w.stop && w.want_exec) {
            w.bad("retry-after-result", "a retry is asked for after a result");
        }
        if(!w.stop) {
            c.outcome(mc::strf("%d runs %s",
                               w.runs,
                               std::holds_alternative<aec>(w.finals[0])
                                   ? "failed"
                                   : "ok"));
            // destroying the agent must not end the process
            w.ag.reset();
        } else {
            // leak it: its destructor ends the process when unfinished
            new std::shared_ptr<agent::impl>(w.ag);
        }
        g_w = nullptr;
    }
}
int main(int argc, char** argv) {
    bool th = mc::thorough();
    std::vector<mc::scenario> s;
    auto add = [&](const char* n, options o, int q, int t) {
        o.faults = th ? t : q;
        s.push_back({n,
                     [o](mc::ctx& c) {
                         explore(c, o);
                     },
                     uint32_t(o.faults),
                     8,
                     14,
                     mc::strf("%d deviations", o.faults)});
    };
    options b;
    add("answers at once", b, 3, 4);
    b.defer = true;
    add("answers later", b, 3, 4);
    b.what = script::parallel;
    add("concurrent locks", b, 2, 3);
    b.what = script::no_locks;
    add("no locks", b, 4, 5);
    b.what = script::throws_late;
    add("contract error", b, 4, 5);
    b.what = script::hazard;
    add("contract writes what it has not locked", b, 3, 4);
    b.what = script::refuses;
    add("runner does not start", b, 3, 4);
    b.what = script::two_locks;
    b.readonly = true;
    add("read-only", b, 3, 4);
    b.writes = 1;
    add("read-only run of a contract that writes", b, 3, 4);
    b.writes = 2;
    add("read-only run of a contract that locks for writing", b, 2, 3);
    b.writes = 0;
    b.fn_size = 0;
    add("read-only, no function", b, 3, 4);
    b.fn_size = 1;
    b.readonly = false;
    add("one-byte function", b, 3, 4);
    b.fn_size = 2;
    b.restarts = true;
    add("exec at any point", b, 3, 4);
    b.what = script::parallel;
    add("exec at any point, concurrent locks", b, 3, 4);
    b.what = script::two_locks;
    b.restarts = false;
    b.repeats = true;
    add("repeated callbacks", b, 2, 3);
    return mc::main(argc, argv, "C17", "model_checking",
                    "every combination of broker answers, failures, delays, "
                    "repeated callbacks and restarts within the bound",
                    {"the broker refuses to roll back a decided ticket"},
                    s);
}
