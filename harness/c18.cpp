// C18: Lua contracts. The real runner executes real (compiled) contracts; the
// harness answers its lock requests.
#include <deque>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <variant>
#include <vector>

#include "harness/common.hpp"
#include "parsec/agent/runners/lua/impl.hpp"
#include "util/serialization/util.hpp"

namespace {
    using namespace cbdc;
    using namespace cbdc::parsec;
    using run_iface = agent::runner::interface;
    using bi = broker::interface;
    using rec = run_iface::error_code;
    using sec = runtime_locking_shard::error_code;
    using serr = runtime_locking_shard::shard_error;
    using updates = runtime_locking_shard::state_update_type;

    buffer buf(const std::string& s) {
        buffer b;
        b.append(s.data(), s.size());
        return b;
    }
    std::string str(const buffer& b) {
        return std::string(reinterpret_cast<const char*>(b.data()), b.size());
    }
    std::string lit(const std::string& s) {
        std::string r = "\"";
        for(unsigned char ch : s) {
            r += mc::strf("\\%03d", int(ch));
        }
        return r + "\"";
    }
    const buffer& compile(const std::string& src) {
        static std::map<std::string, buffer> cache;
        auto it = cache.find(src);
        if(it != cache.end()) {
            return it->second;
        }
        auto* L = luaL_newstate();
        if(luaL_loadbuffer(L, src.data(), src.size(), "c") != LUA_OK) {
            fprintf(stderr, "bad contract: %s\n%s\n", lua_tostring(L, -1),
                    src.c_str());
            abort();
        }
        buffer b;
        lua_dump(L,
                 [](lua_State*, const void* p, size_t n, void* u) {
                     static_cast<buffer*>(u)->append(p, n);
                     return 0;
                 },
                 &b,
                 0);
        lua_close(L);
        return cache.emplace(src, b).first->second;
    }

    // A value a contract yields: its source and, if it is a key, which.
    struct yield_kind {
        std::string src;
        std::optional<std::string> key;
        bool number{}; // a number: refused or taken as text
    };
    const std::vector<yield_kind>& yields() {
        static const std::vector<yield_kind> v{
            {lit("key"), "key", false},
            {lit(""), "", false},
            {lit(std::string("a\0b", 3)), std::string("a\0b", 3), false},
            {"string.rep('x', 5000)", std::string(5000, 'x'), false},
            {"\"k\"..acc:len()", "", false}, // key depends on values: see run
            {"12", "12", true},
            {"1.5", "1.5", true},
            {"nil", std::nullopt, false},
            {"", std::nullopt, false},
            {"'a','b'", std::nullopt, false},
            {"{}", std::nullopt, false},
            {"true", std::nullopt, false},
            {"print", std::nullopt, false},
        };
        return v;
    }
    constexpr size_t n_good = 5, dependent = 4;

    struct result_kind {
        std::string src; // statement
        bool ok;
        bool number; // contains numbers as values: refused or taken as text
        std::map<std::string, std::string> t; // "$" stands for acc
    };
    const std::vector<result_kind>& results() {
        static const std::vector<result_kind> v = []() {
            std::vector<result_kind> r{
                {"return {}", true, false, {}},
                {"return {k=acc}", true, false, {{"k", "$"}}},
                {"return {k=acc, j='x', [\"\"]=\"\"}",
                 true,
                 false,
                 {{"k", "$"}, {"j", "x"}, {"", ""}}},
                {"return {[\"a\\0b\"]=\"c\\0d\"}",
                 true,
                 false,
                 {{std::string("a\0b", 3), std::string("c\0d", 3)}}},
                {"return {['1']='a', ['2']='b'}",
                 true,
                 false,
                 {{"1", "a"}, {"2", "b"}}},
                {"return {k=1, j=2.5}", true, true, {{"k", "1"}, {"j", "2.5"}}},
                {"return setmetatable({k='v'}, {__index={z='z'}, "
                 "__len=function() return 9 end})",
                 true,
                 false,
                 {{"k", "v"}}},
                {"local co = coroutine.wrap(function() coroutine.yield('q') "
                 "end) ; return {k=co()}",
                 true,
                 false,
                 {{"k", "q"}}},
                {"local ok, e = pcall(error, 'x') ; return {k=e}",
                 true,
                 false,
                 {{"k", "x"}}},
                // not allowed
                {"return {'x'}", false, false, {}},
                {"return {[1]='x', ['1']='y', k='z'}", false, false, {}},
                {"local t = {} ; for i = 1, 40 do t[i] = 'v' end ; return t",
                 false,
                 false,
                 {}},
                {"local t = {} ; for i = 1, 40 do t[i * 1000] = 'v' ; "
                 "t['s' .. i] = 'w' end ; return t",
                 false,
                 false,
                 {}},
                {"return {[1.5]='x', a='b', c='d'}", false, false, {}},
                {"return {[true]='x'}", false, false, {}},
                {"return {[print]='x'}", false, false, {}},
                {"return {k=true}", false, false, {}},
                {"return {k={}}", false, false, {}},
                {"return {k=print, j='x'}", false, false, {}},
                {"return 'text'", false, false, {}},
                {"return 1", false, false, {}},
                {"return nil", false, false, {}},
                {"return", false, false, {}},
                {"", false, false, {}},
                {"return {k='v'}, {}", false, false, {}},
                {"return {k='v'}, nil", false, false, {}},
                {"return coroutine.create(print)", false, false, {}},
                {"error('x')", false, false, {}},
                {"error({})", false, false, {}},
                {"error()", false, false, {}},
                {"local x = nil ; x.y = 1", false, false, {}},
                {"local function f() return 1 + f() end ; f() ; return {}",
                 false,
                 false,
                 {}},
                {"check_sig() ; return {}", false, false, {}},
                {"check_sig('a', 'b', {}) ; return {}", false, false, {}},
                {"check_sig(1, 2, 3) ; return {}", false, false, {}},
            };
            // signatures
            auto key = h::pub(3);
            signature_t sig{};
            hash_t m = hash_data(
                reinterpret_cast<const std::byte*>("hello"), 5);
            secp256k1_keypair kp{};
            if(secp256k1_keypair_create(h::secp(), &kp, h::priv(3).data())
                   != 1
               || secp256k1_schnorrsig_sign(h::secp(),
                                            sig.data(),
                                            m.data(),
                                            &kp,
                                            nullptr,
                                            nullptr)
                      != 1) {
                abort();
            }
            auto ks = std::string(reinterpret_cast<char*>(key.data()), 32);
            auto ss = std::string(reinterpret_cast<char*>(sig.data()), 64);
            auto chk = [&](const std::string& a,
                           const std::string& b,
                           const std::string& d,
                           bool ok) {
                r.push_back({"check_sig(" + lit(a) + "," + lit(b) + ","
                                 + lit(d) + ") ; return {k='v'}",
                             ok,
                             false,
                             {{"k", "v"}}});
            };
            chk(ks, ss, "hello", true);
            chk(ks, ss, "hellp", false);
            chk(ks, ss, "", false);
            chk(ks.substr(1), ss, "hello", false);
            chk(ks + "x", ss, "hello", false);
            chk(ks, ss.substr(1), "hello", false);
            chk(ks, ss + "x", "hello", false);
            auto s2 = ss;
            s2[0] = char(s2[0] ^ 1);
            chk(ks, s2, "hello", false);
            chk(std::string(32, '\xff'), ss, "hello", false);
            chk("", "", "", false);
            return r;
        }();
        return v;
    }

    struct answer {
        const char* what;
        std::function<bi::try_lock_return_type()> f;
        std::optional<std::string> value;
        bool wounded;
    };
    const std::vector<answer>& answers() {
        static const std::vector<answer> v = []() {
            std::vector<answer> r;
            for(auto& s : {std::string("v1"), std::string(),
                           std::string("a\0b", 3), std::string(70000, 'y')}) {
                r.push_back({"value",
                             [s]() -> bi::try_lock_return_type {
                                 return buf(s);
                             },
                             s,
                             false});
            }
            for(auto e : {sec::wounded, sec::unknown_ticket, sec::lock_not_held,
                          sec::prepared, sec::internal_error}) {
                r.push_back({"shard error",
                             [e]() -> bi::try_lock_return_type {
                                 return serr{e, std::nullopt};
                             },
                             std::nullopt,
                             e == sec::wounded});
            }
            r.push_back({"wounded by another",
                         []() -> bi::try_lock_return_type {
                             return serr{
                                 sec::wounded,
                                 runtime_locking_shard::wounded_details{
                                     3,
                                     buf("k")}};
                         },
                         std::nullopt,
                         true});
            for(auto e : {bi::error_code::shard_unreachable,
                          bi::error_code::unknown_ticket,
                          bi::error_code::aborted}) {
                r.push_back({"broker error",
                             [e]() -> bi::try_lock_return_type {
                                 return e;
                             },
                             std::nullopt,
                             false});
            }
            return r;
        }();
        return v;
    }

    struct host {
        mc::ctx& c;
        std::vector<run_iface::run_return_type> res;
        struct req {
            std::string key;
            bi::try_lock_callback_type cb;
        };
        std::vector<std::string> keys;
        std::deque<req> open;
        bool done_after{};
        std::function<bool(req)> on_lock;
        std::unique_ptr<agent::runner::lua_runner> r;
        static const cbdc::parsec::config& cfg() {
            static const cbdc::parsec::config x{};
            return x;
        }
        host(mc::ctx& x, buffer code, const std::string& param)
            : c(x) {
            r = std::make_unique<agent::runner::lua_runner>(
                h::logger(),
                cfg(),
                std::move(code),
                buf(param),
                false,
                [this](run_iface::run_return_type v) {
                    res.push_back(std::move(v));
                },
                [this](broker::key_type k,
                       broker::lock_type lt,
                       bi::try_lock_callback_type cb) {
                    if(lt != broker::lock_type::write) {
                        c.fail("lock-type", "not a write lock");
                    }
                    if(!res.empty()) {
                        c.fail("after-result",
                               "a lock is requested after the result");
                    }
                    keys.push_back(str(k));
                    return on_lock(req{str(k), std::move(cb)});
                },
                nullptr,
                nullptr,
                7);
        }
    };

    const std::string params[]
        = {std::string("p"), std::string(), std::string("p\0q", 3),
           std::string(20000, 'z')};

    // A contract with up to `depth` yields and every kind of result; every
    // combination of answers.
    void contract(mc::ctx& c, int depth, bool all) {
        auto& ys = yields();
        auto& rs = results();
        auto& as = answers();
        auto n = c.choose(uint32_t(depth) + 1, "yields");
        std::vector<size_t> y;
        // at most one unusual yield, at the end: nothing runs after it
        for(uint32_t i = 0; i < n; i++) {
            auto lim = i + 1 == n ? ys.size() : n_good;
            y.push_back(c.choose(uint32_t(lim), "yield"));
        }
        bool dead = n > 0 && !ys[y.back()].key.has_value();
        size_t ri = 0;
        if(!dead) {
            // longer contracts differ in what they yield
            ri = c.choose(all || n < 2 ? uint32_t(rs.size()) : 11, "result");
        }
        auto& p = params[all || n == 0 ? c.choose(4, "param") : 0];
        std::string src = "local acc = ... ; acc = acc .. ''\n";
        for(auto k : y) {
            src += "do local v = coroutine.yield(" + ys[k].src
                 + ") ; acc = acc .. '|' .. v end\n";
        }
        src += rs[ri].src.rfind("return", 0) == 0
                 ? rs[ri].src
                 : "do " + rs[ri].src + " end";
        c.note("contract: %s", src.size() < 900 ? src.c_str() : "...");
        // the expected run
        std::string acc = p;
        enum {
            success,
            error,
            wounded,
            either
        } want
            = success;
        bool over = false;
        std::vector<std::string> want_keys;
        size_t next = 0;
        auto expect_next = [&]() {
            // what the contract does until its next stop
            if(over) {
                return;
            }
            if(next == y.size()) {
                over = true;
                want = !rs[ri].ok ? error
                     : rs[ri].number && want != either ? either
                     : want == either ? either
                                      : success;
                return;
            }
            auto& k = ys[y[next]];
            if(!k.key.has_value()) {
                over = true;
                want = error;
                return;
            }
            if(k.number) {
                want = either;
            }
            want_keys.push_back(y[next] == dependent
                                    ? "k" + std::to_string(acc.size())
                                    : k.key.value());
            next++;
        };
        host h(c, compile(src), p);
        bool stop = false;
        size_t inline_mode = c.choose(2, "answers at once");
        // one answer, chosen when needed
        auto reply = [&](const host::req& q, size_t a) {
            if(as[a].value.has_value()) {
                acc += "|" + as[a].value.value();
                expect_next();
            } else {
                over = true;
                want = as[a].wounded ? wounded : error;
            }
            q.cb(as[a].f());
        };
        h.on_lock = [&](host::req q) -> bool {
            if(over || want_keys.empty() || q.key != want_keys.back()
               || h.keys.size() != want_keys.size()) {
                if(!stop && !(want == either)) {
                    c.fail("key",
                           "the contract does not yield the key requested "
                           "(%zu bytes)",
                           q.key.size());
                    stop = true;
                }
                return false;
            }
            auto a = c.choose(uint32_t(as.size()) + 1, "answer");
            if(a == as.size()) {
                c.note("lock request is refused");
                over = true;
                want = error;
                return false;
            }
            c.note("answer: %s", as[a].what);
            if(inline_mode != 0) {
                reply(q, a);
            } else {
                h.open.push_back(std::move(q));
                h.open.back().key = std::to_string(a);
            }
            return true;
        };
        expect_next();
        if(!h.r->run()) {
            c.fail("run", "run() returns false");
            return;
        }
        while(!h.open.empty() && !stop && !c.failed()) {
            auto q = h.open.front();
            h.open.pop_front();
            reply(q, size_t(std::stoul(q.key)));
        }
        if(stop || c.failed()) {
            return;
        }
        if(h.res.size() != 1) {
            c.fail("results", "%zu results reported", h.res.size());
            return;
        }
        auto* u = std::get_if<updates>(&h.res[0]);
        auto e = u == nullptr ? std::get<rec>(h.res[0]) : rec{};
        if(u == nullptr) {
            if(want == success) {
                c.fail("refused", "error %d for a valid result", int(e));
            } else if((e == rec::wounded) != (want == wounded)) {
                c.fail("wounded",
                       "error %d, wounded %sexpected",
                       int(e),
                       want == wounded ? "" : "not ");
            }
        } else {
            if(want != success && want != either) {
                c.fail("accepted", "success for an execution that failed");
                return;
            }
            updates exp;
            for(auto& [k, v] : rs[ri].t) {
                exp[buf(k)] = buf(v == "$" ? acc : v);
            }
            if(!(exp == *u)) {
                c.fail("content",
                       "the updates reported are not the table returned (%zu "
                       "entries instead of %zu)",
                       u->size(),
                       exp.size());
            }
        }
        c.agreed();
        c.outcome(u == nullptr ? mc::strf("error %d", int(e)) : "success");
    }
    // Anything that is not a complete chunk of bytecode is refused
    void loading(mc::ctx& c) {
        static const std::string src
            = "local p = ... ; local v = coroutine.yield('k') ; return {k=v}";
        auto& code = compile(src);
        auto n = c.choose(uint32_t(code.size()) + 2, "bytes");
        buffer b;
        bool whole = n == code.size();
        if(n > code.size()) {
            b = buf(src); // source text is not bytecode
        } else if(n != 0) {
            b.append(code.data(), n);
        }
        host h(c, b, "p");
        h.on_lock = [&](host::req q) -> bool {
            if(!whole) {
                c.fail("ran", "part of a contract is executed");
                return false;
            }
            q.cb(buf("v"));
            return true;
        };
        if(!h.r->run() || h.res.size() != 1) {
            c.fail("results", "%zu results", h.res.size());
            return;
        }
        if(std::holds_alternative<updates>(h.res[0]) != whole) {
            c.fail("load", "%u of %zu bytes: %s", n, code.size(),
                   whole ? "refused" : "accepted");
        }
        c.outcome(whole ? "runs" : "refused");
    }
}
int main(int argc, char** argv) {
    bool th = mc::thorough();
    std::vector<mc::scenario> s;
    s.push_back({"contracts",
                 [=](mc::ctx& c) { contract(c, th ? 3 : 2, th); },
                 0, 8, 3,
                 th ? "up to 3 yields, every parameter"
                    : "up to 2 yields"});
    s.push_back({"loading", loading, 0, 1, 2, "every prefix of a contract"});
    return mc::main(argc, argv, "C18", "model_checking",
                    "every combination of yields, answers and result shapes",
                    {"the contract ends"}, s);
}
