// C29: the raft log store against an indexed log, and the stored
// configuration and election state, also after stops and write errors.
#include "common.hpp"

#include <algorithm>
#include <cstring>
#include <map>
#ifdef CONCURRENT
#include "mc/memdb.hpp"
#include "mc/sched.hpp"
#include <thread>
#else
#include "mc/recfs.hpp"
#include <fcntl.h>
#include <csignal>
#include <filesystem>
#include <sys/wait.h>
#include <unistd.h>
#endif
#include "util/raft/log_store.hpp"
#include "util/raft/state_manager.hpp"
using namespace h;
namespace {
    using nuraft::ptr;
    using u64 = uint64_t;
    // What an entry written at an index looks like, version v.
    std::string body(u64 i, int v) {
        std::string s = mc::strf("%llu/%d:", (unsigned long long)i, v);
        // different lengths, also longer ones
        s.append(size_t(1 + (i * 7 + u64(v) * 90) % 131), char('a' + v));
        return s;
    }
    u64 term(u64 i, int v) {
        return (i % 3) + 1 + u64(v) * ((i % 2) ? 3 : 0x100000000ULL);
    }
    ptr<nuraft::log_entry> entry(u64 i, int v) {
        auto b = body(i, v);
        auto buf = nuraft::buffer::alloc(b.size());
        std::memcpy(buf->data_begin(), b.data(), b.size());
        return nuraft::cs_new<nuraft::log_entry>(
            term(i, v), buf,
            (i % 4) == 2 ? nuraft::log_val_type::conf
                         : nuraft::log_val_type::app_log);
    }
    bool same(const ptr<nuraft::log_entry>& e, u64 i, int v) {
        if(!e || e->is_buf_null() || e->get_term() != term(i, v)
           || e->get_val_type() != entry(i, v)->get_val_type()) {
            return false;
        }
        auto b = body(i, v);
        return e->get_buf().size() == b.size()
            && std::memcmp(e->get_buf().data_begin(), b.data(), b.size()) == 0;
    }
    bool null(const ptr<nuraft::log_entry>& e) {
        return e && e->get_term() == 0 && e->is_buf_null();
    }
    struct model {
        u64 start{1}, next{1};
        std::map<u64, int> e;
        [[nodiscard]] std::string key() const {
            auto s = mc::strf("%llu-%llu", (unsigned long long)start,
                              (unsigned long long)next);
            for(auto [i, v] : e) {
                s += char('0' + v);
            }
            return s;
        }
        bool operator==(const model&) const = default;
    };
    using store = cbdc::raft::log_store;
    // Everything the interface answers; "" when it is what the model says.
    // brief: without the ranges
    std::string differs(store& s, const model& m, bool ranges) {
        if(s.next_slot() != m.next) {
            return mc::strf("next slot %llu, must be %llu",
                            (unsigned long long)s.next_slot(),
                            (unsigned long long)m.next);
        }
        if(s.start_index() != m.start) {
            return mc::strf("start index %llu, must be %llu",
                            (unsigned long long)s.start_index(),
                            (unsigned long long)m.start);
        }
        auto l = s.last_entry();
        if(m.e.empty() ? !null(l)
                       : !same(l, m.e.rbegin()->first, m.e.rbegin()->second)) {
            return "last entry is wrong";
        }
        for(u64 i = 0; i <= m.next + 1; i++) {
            auto f = m.e.find(i);
            auto g = s.entry_at(i);
            if(f == m.e.end() ? !null(g) : !same(g, i, f->second)) {
                return mc::strf("entry %llu is wrong", (unsigned long long)i);
            }
            auto t = s.term_at(i);
            if(t != (f == m.e.end() ? 0 : term(i, f->second))) {
                return mc::strf("term of %llu is wrong",
                                (unsigned long long)i);
            }
        }
        for(u64 a = m.start; ranges && a <= m.next; a++) {
            for(u64 b = a; b <= m.next; b++) {
                auto r = s.log_entries(a, b);
                if(!r || r->size() != b - a) {
                    return mc::strf("range %llu-%llu has the wrong length",
                                    (unsigned long long)a,
                                    (unsigned long long)b);
                }
                for(u64 i = a; i < b; i++) {
                    if(!same((*r)[i - a], i, m.e.at(i))) {
                        return mc::strf("range %llu-%llu: entry %llu is wrong",
                                        (unsigned long long)a,
                                        (unsigned long long)b,
                                        (unsigned long long)i);
                    }
                }
            }
        }
        // A range that is not all there must not be answered with others.
        auto gone = [&](u64 a, u64 b) {
            return s.log_entries(a, b) == nullptr;
        };
        if(ranges
           && ((m.start > 1
                && (!gone(m.start - 1, m.start) || !gone(m.start - 1, m.next)
                    || !gone(m.start - 1, m.next + 1)))
               || !gone(m.next, m.next + 1)
               || !gone(m.start, m.next + 1))) {
            return "a range with missing entries is answered";
        }
        return "";
    }
#ifndef CONCURRENT
    std::string fresh(const std::string& n) {
        auto d = mc::scratch() + "/" + n;
        recfs::remove_dir(d);
        return d;
    }
    std::unique_ptr<store> open(const std::string& d) {
        auto s = std::make_unique<store>();
        if(!s->load(d)) {
            return nullptr;
        }
        return s;
    }
    struct packed {
        u64 at{};
        std::vector<int> v;
        ptr<nuraft::buffer> b;
    };
    enum kind { append, write, pack, apply, compact, flush, reopen };
    struct op {
        kind k{};
        u64 a{}, b{};
    };
    std::vector<op> possible(const model& m, const packed& p, u64 limit) {
        std::vector<op> r;
        if(m.next <= limit) {
            r.push_back({append});
        }
        r.push_back({reopen});
        r.push_back({flush});
        for(u64 i = m.start; i <= std::min(m.next, limit); i++) {
            r.push_back({write, i, 0});
        }
        for(u64 i = m.start; i <= m.next + 1 && i <= limit; i++) {
            r.push_back({compact, i, 0});
        }
        if(m.start > 1) {
            r.push_back({compact, m.start - 1, 0}); // nothing left to do
            if(m.start > 2) {
                r.push_back({compact, 1, 0});
            }
        }
        for(u64 i = m.start; i < m.next; i++) {
            for(u64 n = 1; i + n <= m.next; n++) {
                r.push_back({pack, i, n});
            }
        }
        if(p.b) {
            // where it came from, if that joins the log
            if(m.e.empty() || (p.at >= m.start && p.at <= m.next)) {
                r.push_back({apply});
            }
        }
        return r;
    }
    // Performs o on both.
    void act(std::unique_ptr<store>& s, model& m, packed& p, const op& o,
             const std::string& d, std::string& err) {
        switch(o.k) {
            case append: {
                auto e = entry(m.next, 0);
                auto i = s->append(e);
                if(i != m.next) {
                    err = "append returned another index";
                }
                m.e[m.next] = 0;
                m.next++;
                break;
            }
            case write: {
                auto f = m.e.find(o.a);
                auto v = f == m.e.end() ? 1 : 1 - f->second;
                auto e = entry(o.a, v);
                s->write_at(o.a, e);
                m.e[o.a] = v;
                m.e.erase(m.e.upper_bound(o.a), m.e.end());
                m.next = o.a + 1;
                break;
            }
            case pack: {
                p = {};
                p.at = o.a;
                for(u64 i = 0; i < o.b; i++) {
                    p.v.push_back(m.e.at(o.a + i));
                }
                p.b = s->pack(o.a, int32_t(o.b));
                break;
            }
            case apply: {
                p.b->pos(0);
                s->apply_pack(p.at, *p.b);
                for(u64 i = 0; i < p.v.size(); i++) {
                    m.e[p.at + i] = p.v[i];
                }
                m.start = m.e.begin()->first;
                m.next = m.e.rbegin()->first + 1;
                break;
            }
            case compact: {
                if(!s->compact(o.a)) {
                    err = "compact failed";
                }
                m.e.erase(m.e.begin(), m.e.upper_bound(o.a));
                m.start = std::max(m.start, o.a + 1);
                m.next = std::max(m.next, m.start);
                break;
            }
            case flush:
                if(!s->flush()) {
                    err = "flush failed";
                }
                break;
            case reopen:
                s.reset();
                s = open(d);
                if(!s) {
                    err = "cannot be opened again";
                }
                break;
        }
    }
    const char* name(kind k) {
        static const char* n[] = {"append", "write_at", "pack", "apply_pack",
                                  "compact", "flush", "reopen"};
        return n[k];
    }
    void fill(std::unique_ptr<store>& s, model& m, u64 n) {
        packed p;
        std::string e;
        for(u64 k = 0; k < n; k++) {
            act(s, m, p, {append}, "", e);
        }
    }
    void histories(mc::ctx& c, int depth, u64 start, u64 limit) {
        auto d = fresh("db");
        auto s = open(d);
        if(!s) {
            c.fail("open", "a new store cannot be opened");
            return;
        }
        model m;
        packed p;
        fill(s, m, start);
        for(int k = 0; k < depth; k++) {
            auto ops = possible(m, p, limit);
            auto o = ops[c.choose(uint32_t(ops.size()), "operation")];
            c.note("%s %llu %llu", name(o.k), (unsigned long long)o.a,
                   (unsigned long long)o.b);
            std::string err;
            act(s, m, p, o, d, err);
            if(!c.prefix() || c.replaying()) {
                if(err.empty() && s) {
                    err = differs(*s, m, true);
                }
                if(err.empty() && o.k != reopen && o.k != pack) {
                    // what is stored is the same
                    s.reset();
                    s = open(d);
                    err = s ? differs(*s, m, true) : "cannot be opened";
                    if(!err.empty()) {
                        err = "after opening again: " + err;
                    } else {
                        c.agreed();
                    }
                }
                if(!err.empty()) {
                    c.fail(mc::strf("%s:%s", name(o.k),
                                    err.substr(0, 10).c_str()),
                           "after %s %llu %llu: %s", name(o.k),
                           (unsigned long long)o.a, (unsigned long long)o.b,
                           err.c_str());
                    return;
                }
                c.agreed();
            }
            auto key = m.key();
            if(p.b) {
                key += mc::strf("|%llu:", (unsigned long long)p.at);
                for(auto v : p.v) {
                    key += char('0' + v);
                }
            }
            if(!c.visit(key, uint32_t(depth - k - 1))) {
                return;
            }
        }
        c.outcome(m.key());
    }
    // The same without opening in between: what is kept in memory only.
    void long_lived(mc::ctx& c, int depth, u64 start, u64 limit) {
        auto d = fresh("db");
        auto s = open(d);
        model m;
        packed p;
        fill(s, m, start);
        for(int k = 0; k < depth; k++) {
            auto ops = possible(m, p, limit);
            ops.erase(std::remove_if(ops.begin(), ops.end(),
                                     [](const op& o) {
                                         return o.k == reopen;
                                     }),
                      ops.end());
            auto o = ops[c.choose(uint32_t(ops.size()), "operation")];
            c.note("%s %llu %llu", name(o.k), (unsigned long long)o.a,
                   (unsigned long long)o.b);
            std::string err;
            act(s, m, p, o, d, err);
            if(!c.prefix() || c.replaying()) {
                if(err.empty()) {
                    err = differs(*s, m, true);
                }
                if(!err.empty()) {
                    c.fail(mc::strf("%s:%s", name(o.k),
                                    err.substr(0, 10).c_str()),
                           "after %s %llu %llu: %s", name(o.k),
                           (unsigned long long)o.a, (unsigned long long)o.b,
                           err.c_str());
                    return;
                }
                c.agreed();
            }
        }
        s.reset();
        s = open(d);
        auto err = s ? differs(*s, m, true) : "cannot be opened";
        if(!err.empty()) {
            c.fail("reopened:" + err.substr(0, 10), "after opening again: %s",
                   err.c_str());
            return;
        }
        c.outcome(m.key());
    }
    // A pack taken from one store and applied to another.
    void transfer(mc::ctx& c) {
        u64 len = 1 + c.choose(5, "length");
        u64 cut = c.choose(uint32_t(len), "compacted");
        u64 at = cut + 1 + c.choose(uint32_t(len - cut), "from");
        u64 n = 1 + c.choose(uint32_t(len - at + 1), "number");
        u64 have = c.choose(4, "entries there");
        auto d1 = fresh("from");
        auto d2 = fresh("to");
        auto a = open(d1);
        auto b = open(d2);
        model ma, mb;
        packed p;
        std::string err;
        fill(a, ma, len);
        if(cut > 0) {
            act(a, ma, p, {compact, cut, 0}, d1, err);
        }
        act(a, ma, p, {pack, at, n}, d1, err);
        if(have == 3) {
            // a follower that was given a snapshot up to there
            act(b, mb, p, {compact, at - 1, 0}, d2, err);
        } else {
            if(have >= at) {
                have = at - 1;
            }
            fill(b, mb, have);
            if(have != 0 && have + 1 != at) {
                return; // would leave a gap
            }
        }
        if(c.flip("opened again")) {
            act(b, mb, p, {reopen}, d2, err);
        }
        act(b, mb, p, {apply}, d2, err);
        err = differs(*b, mb, true);
        if(err.empty()) {
            act(b, mb, p, {append}, d2, err);
            b.reset();
            b = open(d2);
            err = differs(*b, mb, true);
        }
        if(!err.empty()) {
            c.fail("transfer", "%s", err.c_str());
            return;
        }
        c.agreed();
        c.outcome(mb.key());
    }
    // The process stops at any file operation of any of the operations.
    void stopped(mc::ctx& c, int depth) {
        auto d = fresh("db");
        auto s = open(d);
        model m;
        packed p;
        std::string err;
        fill(s, m, 3);
        act(s, m, p, {pack, 2, 2}, d, err);
        auto opts = [&] {
            std::vector<op> r{{append}, {compact, m.start, 0}, {reopen},
                              {write, m.start, 0}, {flush}};
            if(m.next > m.start + 1) {
                r.push_back({write, m.next - 1, 0});
            }
            r.push_back({compact, m.next - 1, 0});
            if(m.e.empty() || (p.at >= m.start && p.at <= m.next)) {
                r.push_back({apply});
            }
            return r;
        };
        for(int k = 0; k + 1 < depth; k++) {
            auto ops = opts();
            act(s, m, p, ops[c.choose(uint32_t(ops.size()), "operation")], d,
                err);
        }
        auto before = m;
        auto ops = opts();
        auto o = ops[c.choose(uint32_t(ops.size()), "stopped operation")];
        // recording sees only files opened meanwhile
        s.reset();
        recfs::start(d);
        s = open(d);
        auto from = recfs::recorded();
        if(o.k == reopen) {
            from = 0;
        } else {
            act(s, m, p, o, d, err);
        }
        auto upto = recfs::recorded();
        s.reset();
        auto log = recfs::stop();
        auto rd = mc::scratch() + "/r";
        auto examine = [&](const recfs::image& img, bool may_old,
                           const char* what, size_t n, size_t torn) {
            recfs::remove_dir(rd);
            recfs::write_dir(rd, img);
            auto r = open(rd);
            std::string e1, e2;
            model mm;
            if(!r) {
                e1 = e2 = "cannot be opened";
            } else {
                e1 = differs(*r, m, false);
                mm = m;
                if(!e1.empty() && may_old) {
                    e2 = differs(*r, before, false);
                    mm = before;
                    if(e2.empty()) {
                        e1 = "";
                    }
                }
            }
            if(e1.empty()) {
                // and it goes on from there
                packed q;
                act(r, mm, q, {append}, rd, e1);
                act(r, mm, q, {reopen}, rd, e1);
                if(e1.empty()) {
                    e1 = differs(*r, mm, false);
                }
            }
            c.count();
            c.agreed();
            r.reset();
            if(!e1.empty()) {
                c.fail(mc::strf("%s:%s", what, name(o.k)),
                       "%s at operation %zu (+%zu bytes) of %s: %s", what, n,
                       torn, name(o.k), e1.c_str());
                return false;
            }
            return true;
        };
        for(auto [n, torn] : recfs::points(log)) {
            if(n < from) {
                continue;
            }
            if(!examine(recfs::after(log, n, torn), n < upto || torn > 0,
                        "stopped", n, torn)) {
                return;
            }
        }
        if(o.k == flush) {
            for(size_t n = upto; n <= log.size(); n++) {
                if(!examine(recfs::after_power_loss(log, n), false,
                            "power lost", n, 0)) {
                    return;
                }
            }
        }
        recfs::remove_dir(rd);
        c.outcome(m.key() + name(o.k));
    }
    // --- configuration and election state ---
    using smgr = cbdc::raft::state_manager;
    std::vector<network::endpoint_t> eps(u64 n) {
        std::vector<network::endpoint_t> r;
        for(u64 k = 0; k < n; k++) {
            r.emplace_back(mc::strf("host%llu", (unsigned long long)k),
                           (unsigned short)(7000 + k));
        }
        return r;
    }
    std::string text(nuraft::cluster_config& g) {
        auto s = mc::strf("%llu/%llu", (unsigned long long)g.get_log_idx(),
                          (unsigned long long)g.get_prev_log_idx());
        for(auto& x : g.get_servers()) {
            s += mc::strf(" %d=%s:%d", x->get_id(), x->get_endpoint().c_str(),
                          x->get_priority());
        }
        return s;
    }
    std::string text(const ptr<nuraft::srv_state>& g) {
        return g ? mc::strf("%llu/%d/%d", (unsigned long long)g->get_term(),
                            g->get_voted_for(),
                            int(g->is_election_timer_allowed()))
                 : "none";
    }
    nuraft::cluster_config cfg(uint32_t v) {
        nuraft::cluster_config g(100 + v, 50 * v);
        for(uint32_t k = 0; k <= v; k++) {
            auto x = nuraft::cs_new<nuraft::srv_config>(
                int32_t(k + 1), std::string(v * 40 + 3, char('p' + k)));
            x->set_priority(int32_t(10 * v + k));
            g.get_servers().push_back(x);
        }
        return g;
    }
    nuraft::srv_state st(uint32_t v) {
        return {u64(v) << 33, int(v) - 1, v % 2 == 0};
    }
    void manager(mc::ctx& c, int mode) {
        auto d = fresh("m");
        std::filesystem::create_directory(d);
        u64 n = 1 + c.choose(3, "servers");
        auto id = int32_t(1 + c.choose(uint32_t(n), "own"));
        auto mk = [&](const std::string& at) {
            return std::make_unique<smgr>(id, at + "/log", at + "/config",
                                          at + "/state", eps(n));
        };
        auto m = mk(d);
        std::string dflt = "0/0";
        for(u64 k = 0; k < n; k++) {
            dflt += mc::strf(" %d=host%llu:%llu:%d", int(k + 1),
                             (unsigned long long)k,
                             (unsigned long long)(7000 + k),
                             k == 0 ? 100 : 1);
        }
        std::string wc = dflt, ws = "none";
        auto look = [&](smgr& x, const std::string& a, const std::string& b) {
            return text(*x.load_config()) == a && text(x.read_state()) == b;
        };
        if(m->server_id() != id || !look(*m, wc, ws)) {
            c.fail("default", "defaults are wrong: %s %s",
                   text(*m->load_config()).c_str(),
                   text(m->read_state()).c_str());
            return;
        }
        int steps = mode == 0 ? 4 : 2;
        for(int k = 0; k < steps; k++) {
            auto w = c.choose(6, "save");
            auto oc = wc, os = ws;
            bool last = mode != 0 && k == steps - 1;
            auto save = [&](smgr& x) {
                if(w < 3) {
                    x.save_config(cfg(w));
                } else {
                    x.save_state(st(w - 3));
                }
            };
            if(w < 3) {
                auto g = cfg(w);
                wc = text(g);
            } else {
                ws = text(nuraft::cs_new<nuraft::srv_state>(st(w - 3)));
            }
            if(last && mode == 1) {
                recfs::start(d);
                save(*m);
                auto log = recfs::stop();
                auto rd = mc::scratch() + "/r";
                for(auto [p, torn] : recfs::points(log)) {
                    recfs::remove_dir(rd);
                    recfs::write_dir(rd, recfs::after(log, p, torn));
                    auto x = mk(rd);
                    bool done = p == log.size();
                    if(!(look(*x, wc, ws) || (!done && look(*x, oc, os)))) {
                        c.fail("stopped", "stopped at %zu (+%zu): %s %s", p,
                               torn, text(*x->load_config()).c_str(),
                               text(x->read_state()).c_str());
                        return;
                    }
                    // the next save works as well
                    save(*x);
                    if(!look(*x, wc, ws)) {
                        c.fail("stopped-next",
                               "a save after a stop at %zu is lost", p);
                        return;
                    }
                    c.agreed();
                    c.count();
                }
                recfs::remove_dir(rd);
            } else if(last) {
                // Writes fail from one on. Going on as if the vote or the
                // configuration had been stored is what must not happen.
                auto nth = c.choose(4, "first failing write");
                auto pid = fork();
                if(pid == 0) {
                    auto nul = ::open("/dev/null", O_WRONLY);
                    dup2(nul, 2);
                    signal(SIGABRT, SIG_DFL);
                    recfs::start(d);
                    recfs::fail_writes_from(long(nth));
                    save(*m);
                    recfs::fail_writes_from(-1);
                    _exit(0);
                }
                int status{};
                waitpid(pid, &status, 0);
                bool went_on = WIFEXITED(status) && WEXITSTATUS(status) == 0;
                auto x = mk(d);
                if(!(look(*x, wc, ws) || (!went_on && look(*x, oc, os)))) {
                    c.fail(went_on ? "lost" : "destroyed",
                           "write %u fails; went on: %d; stored now: %s %s",
                           nth, went_on, text(*x->load_config()).c_str(),
                           text(x->read_state()).c_str());
                    return;
                }
                c.agreed();
                c.outcome(mc::strf("%u %d", nth, went_on));
                return;
            } else {
                save(*m);
                auto x = mk(d);
                if(!look(*m, wc, ws) || !look(*x, wc, ws)) {
                    c.fail("saved", "read back: %s %s",
                           text(*x->load_config()).c_str(),
                           text(x->read_state()).c_str());
                    return;
                }
                c.agreed();
            }
        }
        auto l = m->load_log_store();
        if(!l || l->next_slot() != 1 || l->start_index() != 1) {
            c.fail("log", "the log store is not new");
            return;
        }
        auto e = entry(1, 0);
        l->append(e);
        l.reset();
        l = m->load_log_store();
        if(!l || l->next_slot() != 2 || !same(l->entry_at(1), 1, 0)) {
            c.fail("log", "the log store is not the same");
            return;
        }
        c.outcome(wc + ws);
    }
#else
    // Threads use one store: an appender, a compactor, readers.
    void shared(mc::ctx& c, int what) {
        memdb::reset();
        std::string out;
        sched::options o;
        sched::run(c, o, [&] {
            store s;
            if(!s.load("db")) {
                sched::fail("open", "cannot be opened");
            }
            for(u64 k = 1; k <= 3; k++) {
                auto e = entry(k, 0);
                s.append(e);
            }
            std::vector<std::thread> t;
            std::vector<u64> got[2];
            std::string seen[2];
            for(int w = 0; w < 2; w++) {
                t.emplace_back([&, w] {
                    for(int k = 0; k < (what == 2 ? 2 : 1) && w == 0; k++) {
                        auto e = entry(u64(4 + k), 0);
                        got[w].push_back(s.append(e));
                    }
                    if(w == 1 && what == 0) {
                        s.compact(2);
                    } else if(w == 1 && what == 1) {
                        s.compact(3);
                        s.flush();
                    } else if(w == 1) {
                        auto r = s.pack(1, 3);
                        if(!r) {
                            sched::fail("pack", "nothing packed");
                        }
                    }
                });
            }
            u64 ls = 0, ln = 0;
            for(int k = 0; k < 2; k++) {
                auto a = s.start_index();
                auto b = s.next_slot();
                if(a < ls || b < ln) {
                    sched::fail("back", "an index went back");
                }
                ls = a;
                ln = b;
                auto r = s.log_entries(a, b);
                if(r) {
                    for(u64 i = a; i < b; i++) {
                        if(!same((*r)[i - a], i, 0)) {
                            sched::fail("range",
                                        mc::strf("entry %llu of %llu-%llu is "
                                                 "another one",
                                                 (unsigned long long)i,
                                                 (unsigned long long)a,
                                                 (unsigned long long)b));
                        }
                    }
                }
                auto e = s.entry_at(3);
                if(!null(e) && !same(e, 3, 0)) {
                    sched::fail("entry", "entry 3 is another one");
                }
                auto l = s.last_entry();
                bool fine = null(l) && what == 1;
                for(u64 i = 3; i <= 5; i++) {
                    fine = fine || same(l, i, 0);
                }
                if(!fine) {
                    sched::fail("last", "the last entry is wrong");
                }
                out += mc::strf("%llu-%llu%c ", (unsigned long long)a,
                                (unsigned long long)b, r ? '+' : '-');
            }
            for(auto& x : t) {
                x.join();
            }
            model m;
            m.start = what == 0 ? 3 : what == 1 ? 4 : 1;
            m.next = what == 2 ? 6 : 5;
            for(u64 i = m.start; i < m.next; i++) {
                m.e[i] = 0;
            }
            auto err = differs(s, m, true);
            if(!err.empty()) {
                sched::fail("final", err);
            }
        });
        if(!c.failed()) {
            c.agreed();
            c.outcome(out);
        }
    }
#endif
}
int main(int argc, char** argv) {
    bool T = mc::thorough();
    std::vector<mc::scenario> s;
#ifndef CONCURRENT
    s.push_back({"histories", [=](mc::ctx& c) { histories(c, T ? 9 : 5, 0, T ? 6 : 5); }, 0, 8,
                 2, mc::strf("every sequence of %d operations, states merged; opened again after each", T ? 9 : 5)});
    s.push_back({"histories, filled", [=](mc::ctx& c) { histories(c, T ? 7 : 4, 4, 6); }, 0, 8,
                 2, mc::strf("every sequence of %d operations on 4 entries, states merged", T ? 7 : 4)});
    s.push_back({"long-lived", [=](mc::ctx& c) { long_lived(c, T ? 4 : 3, 3, 5); }, 0, 8,
                 2, mc::strf("every sequence of %d operations without opening again", T ? 4 : 3)});
    s.push_back({"transfer", transfer, 0, 8, 2, "every pack of up to 5 entries to another store"});
    s.push_back({"stopped", [=](mc::ctx& c) { stopped(c, T ? 3 : 2); }, 0, 8, 2,
                 "every file operation of the last of every sequence of operations, torn writes; power loss after flush"});
    s.push_back({"manager, saves", [](mc::ctx& c) { manager(c, 0); }, 0, 8, 2, "every sequence of 4 saves"});
    s.push_back({"manager, stopped", [](mc::ctx& c) { manager(c, 1); }, 0, 8, 2, "every file operation of the second save"});
    s.push_back({"manager, write errors", [](mc::ctx& c) { manager(c, 2); }, 0, 8, 2, "writes fail from each one on"});
    return mc::main(argc, argv, "C29", "model_checking",
                    "every operation history within the depth and every stop; every answer of the store compared with an indexed log",
                    {"NuRaft's own types are stand-ins"}, s);
#else
    const char* n[] = {"appending and compacting", "compacting everything", "appending and packing"};
    for(int k = 0; k < 3; k++) {
        s.push_back({n[k], [=](mc::ctx& c) { shared(c, k); }, T ? 3U : 2U, 8, mc::by_deviation, "every schedule within the preemption bound"});
    }
    return mc::main(argc, argv, "C29", "model_checking",
                    "every schedule within the preemption bound; non-trivial = distinct answers",
                    {"leveldb is replaced by an in-memory stand-in with atomic batches"}, s);
#endif
}
