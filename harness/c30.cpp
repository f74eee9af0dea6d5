// C30: configuration files and program arguments are read exactly as written
// or refused, against a reader of the documented grammar written for this
// check and a table of the documented parameters.
#include <cinttypes>
#include <cstdlib>
#include <fstream>
#include <map>
#include <set>
#include <unistd.h>
#include <vector>

#include "common.hpp"
#include "parsec/util.hpp"
using namespace h;
namespace {
    using std::optional;
    using std::string;
    using strs = std::vector<string>;
    using text = std::map<string, string>; // field -> printed value

    // ---- the grammar ----
    struct val {
        char kind{}; // 's'tring, 'n'umber, 'd'ecimal, 0: malformed
        string s;
        uint64_t n{};
        double d{};
    };
    bool number(const string& t, uint64_t& n) {
        if(t.empty()) {
            return false;
        }
        __uint128_t v = 0;
        for(char ch : t) {
            if(ch < '0' || ch > '9') {
                return false;
            }
            v = v * 10 + unsigned(ch - '0');
            if(v > __uint128_t(UINT64_MAX)) {
                return false;
            }
        }
        n = uint64_t(v);
        return true;
    }
    val read(const string& t) {
        val r;
        if(t.size() >= 2 && t.front() == '"' && t.back() == '"') {
            r.kind = 's';
            r.s = t.substr(1, t.size() - 2);
            return r;
        }
        if(number(t, r.n)) {
            r.kind = 'n';
            return r;
        }
        size_t dots = 0, digits = 0;
        for(char ch : t) {
            if(ch == '.') {
                dots++;
            } else if(ch >= '0' && ch <= '9') {
                digits++;
            } else {
                return r;
            }
        }
        if(dots == 1 && digits > 0) {
            r.kind = 'd';
            // digits / 10^places
            long double m = 0, p = 1;
            bool frac = false;
            for(char ch : t) {
                if(ch == '.') {
                    frac = true;
                } else {
                    m = m * 10 + (ch - '0');
                    p = frac ? p * 10 : p;
                }
            }
            r.d = double(m / p);
        }
        return r;
    }
    bool endpoint(const string& s, string& host, uint64_t& port) {
        auto p = s.find(':');
        if(p == string::npos || p == 0) {
            return false;
        }
        host = s.substr(0, p);
        return number(s.substr(p + 1), port) && port <= 65535;
    }
    const std::map<string, string> levels{{"TRACE", "0"},
                                          {"DEBUG", "1"},
                                          {"INFO", "2"},
                                          {"WARN", "3"},
                                          {"ERROR", "4"},
                                          {"FATAL", "5"}};
    string lev(logging::log_level l) {
        using L = logging::log_level;
        return l == L::trace ? "0"
             : l == L::debug ? "1"
             : l == L::info  ? "2"
             : l == L::warn  ? "3"
             : l == L::error ? "4"
             : l == L::fatal ? "5"
                             : "?";
    }
    bool hex32(const string& s, string& out) {
        if(s.size() != 64) {
            return false;
        }
        out.clear();
        for(char ch : s) {
            if(!isxdigit((unsigned char)ch)) {
                return false;
            }
            out += char(tolower(ch));
        }
        return true;
    }
    string u(uint64_t v) {
        return std::to_string(v);
    }
    string dbl(double d) {
        return mc::strf("%.15g", d);
    }

    // ---- what a file must load to; nullopt: it must be refused ----
    struct loader {
        const std::map<string, string>& kv;
        bool ok{true};
        text out;
        std::set<string> pubs{};

        optional<val> get(const string& k, char kind) {
            auto it = kv.find(k);
            if(it == kv.end()) {
                return std::nullopt;
            }
            auto v = read(it->second);
            if(v.kind != kind) {
                ok = false;
                return std::nullopt;
            }
            return v;
        }
        uint64_t num(const string& k, uint64_t dflt) {
            auto v = get(k, 'n');
            return v ? v->n : dflt;
        }
        uint64_t count(const string& k) {
            // what is not there can not be required: no more than 4 exist
            auto n = num(k, 0);
            if(n > 8) {
                ok = false;
            }
            return ok ? n : 0;
        }
        uint64_t need(const string& k) {
            if(kv.count(k) == 0) {
                ok = false;
            }
            return num(k, 0);
        }
        void ep(const string& k, const string& field) {
            auto v = get(k, 's');
            string host;
            uint64_t port{};
            if(!v || !endpoint(v->s, host, port)) {
                ok = false;
                return;
            }
            out[field] = host + "|" + u(port);
        }
        void level(const string& k, const string& field) {
            if(kv.count(k) == 0) {
                out[field] = "3";
                return;
            }
            auto v = get(k, 's');
            if(!v || levels.count(v->s) == 0) {
                ok = false;
                return;
            }
            out[field] = levels.at(v->s);
        }
        void db(const string& k, const string& field) {
            auto v = get(k, 's');
            if(!v) {
                ok = false;
                return;
            }
            out[field] = v->s;
        }
        void n(const string& k, const string& field, uint64_t dflt) {
            out[field] = u(num(k, dflt));
        }
        void i32(const string& k, const string& field, uint64_t dflt) {
            auto v = num(k, dflt);
            if(v > 0x7fffffffULL) {
                ok = false;
            }
            out[field] = u(v);
        }
        void d(const string& k, const string& field, double dflt) {
            auto v = get(k, 'd');
            out[field] = dbl(v ? v->d : dflt);
        }
        void load() {
            auto two = num("2pc", 0) != 0;
            out["2pc"] = two ? "1" : "0";
            auto thr = num("attestation_threshold", 1);
            out["threshold"] = u(thr);
            auto sentinels = count("sentinel_count");
            out["sentinels"] = u(sentinels);
            for(uint64_t i = 0; ok && i < sentinels; i++) {
                auto p = "sentinel" + u(i) + "_";
                ep(p + "endpoint", p + "endpoint");
                level(p + "loglevel", p + "loglevel");
                string key;
                if(auto v = get(p + "private_key", 's')) {
                    ok &= hex32(v->s, key);
                    out[p + "private"] = key;
                }
                if(auto v = get(p + "public_key", 's')) {
                    ok &= hex32(v->s, key);
                    pubs.insert(key);
                } else {
                    ok &= thr == 0;
                }
            }
            for(const auto& k : pubs) {
                out["pub " + k] = "1";
            }
            auto shards = count("shard_count");
            out[two ? "locking shards" : "shards"] = u(shards);
            out[two ? "shards" : "locking shards"] = "0";
            for(uint64_t i = 0; ok && i < shards; i++) {
                auto p = "shard" + u(i) + "_";
                if(two) {
                    auto nodes = count(p + "count");
                    ok &= kv.count(p + "count") == 1;
                    out[p + "nodes"] = u(nodes);
                    for(uint64_t j = 0; ok && j < nodes; j++) {
                        auto q = p + u(j) + "_";
                        ep(q + "endpoint", q + "endpoint");
                        ep(q + "raft_endpoint", q + "raft");
                        ep(q + "readonly_endpoint", q + "readonly");
                    }
                } else {
                    ep(p + "endpoint", p + "endpoint");
                    db(p + "db", p + "db");
                }
                level(p + "loglevel", p + "loglevel");
                auto a = need(p + "start"), b = need(p + "end");
                ok &= a <= b && b <= 255;
                out[p + "range"] = u(a) + "-" + u(b);
            }
            n("shard_completed_txs_cache_size", "completed", 10000000);
            auto from = num("seed_from", 0), to = num("seed_to", 0);
            out["seed"] = u(from) + "-" + u(to);
            out["seed value"] = "0";
            if(from != to) {
                string key;
                auto v = get("seed_privkey", 's');
                ok &= v && hex32(v->s, key);
                out["seed key"] = key;
                auto value = num("seed_value", 0);
                ok &= from < to && value != 0;
                out["seed value"] = u(value);
            }
            auto atomizers = count("atomizer_count");
            out["atomizers"] = u(atomizers);
            for(uint64_t i = 0; ok && i < atomizers; i++) {
                auto p = "atomizer" + u(i) + "_";
                ep(p + "endpoint", p + "endpoint");
                ep(p + "raft_endpoint", p + "raft");
                level(p + "loglevel", p + "loglevel");
            }
            n("target_block_interval", "interval", 250);
            n("stxo_cache_depth", "depth", 1);
            auto archivers = count("archiver_count");
            out["archivers"] = u(archivers);
            for(uint64_t i = 0; ok && i < archivers; i++) {
                auto p = "archiver" + u(i) + "_";
                ep(p + "endpoint", p + "endpoint");
                level(p + "loglevel", p + "loglevel");
                db(p + "db", p + "db");
            }
            auto towers = count("watchtower_count");
            out["watchtowers"] = u(towers);
            for(uint64_t i = 0; ok && i < towers; i++) {
                auto p = "watchtower" + u(i) + "_";
                ep(p + "client_endpoint", p + "client");
                ep(p + "internal_endpoint", p + "internal");
                level(p + "loglevel", p + "loglevel");
            }
            n("watchtower_block_cache_size", "wt blocks", 100);
            n("watchtower_error_cache_size", "wt errors", 1000000);
            auto coords = count("coordinator_count");
            out["coordinators"] = u(coords);
            for(uint64_t i = 0; ok && i < coords; i++) {
                auto p = "coordinator" + u(i) + "_";
                level(p + "loglevel", p + "loglevel");
                auto nodes = count(p + "count");
                ok &= kv.count(p + "count") == 1;
                out[p + "nodes"] = u(nodes);
                for(uint64_t j = 0; ok && j < nodes; j++) {
                    auto q = p + u(j) + "_";
                    ep(q + "endpoint", q + "endpoint");
                    ep(q + "raft_endpoint", q + "raft");
                }
            }
            n("coordinator_max_threads", "threads", 75);
            i32("election_timeout_upper", "upper", 4000);
            i32("election_timeout_lower", "lower", 2000);
            i32("heartbeat", "heartbeat", 1000);
            i32("snapshot_distance", "distance", 0);
            i32("raft_max_batch", "raft batch", 100000);
            n("batch_size", "batch", 2000);
            n("loadgen_sendtx_input_count", "inputs", 2);
            n("loadgen_sendtx_output_count", "outputs", 2);
            out["fixed"]
                = out["inputs"] != "0" && out["outputs"] != "0" ? "1" : "0";
            d("loadgen_invalid_tx_rate", "invalid", 0);
            d("loadgen_fixed_tx_rate", "fixed rate", 1);
            n("window_size", "window", 10000);
            n("initial_mint_count", "mint count", 20000);
            n("initial_mint_value", "mint value", 100);
            n("loadgen_count", "loadgens", 0);
            // what each architecture requires
            if(two) {
                ok &= sentinels >= 1 && sentinels >= thr && shards >= 1
                   && coords >= 1;
            } else {
                ok &= towers >= 1 && archivers >= 1 && atomizers >= 1
                   && (shards >= 1 || sentinels == 0);
            }
            ok &= pubs.size() >= thr;
        }
    };

    // ---- what a loaded configuration says ----
    string hexs(const std::array<unsigned char, 32>& a) {
        string r;
        for(auto b : a) {
            r += mc::strf("%02x", b);
        }
        return r;
    }
    template<class V>
    void eps(text& t, const string& p, const string& f, const V& v) {
        for(size_t i = 0; i < v.size(); i++) {
            t[p + u(i) + "_" + f] = v[i].first + "|" + u(v[i].second);
        }
    }
    template<class V>
    void levs(text& t, const string& p, const V& v) {
        for(size_t i = 0; i < v.size(); i++) {
            t[p + u(i) + "_loglevel"] = lev(v[i]);
        }
    }
    text printed(const config::options& o) {
        text t;
        t["2pc"] = o.m_twophase_mode ? "1" : "0";
        t["threshold"] = u(o.m_attestation_threshold);
        t["sentinels"] = u(o.m_sentinel_endpoints.size());
        eps(t, "sentinel", "endpoint", o.m_sentinel_endpoints);
        levs(t, "sentinel", o.m_sentinel_loglevels);
        for(const auto& [i, k] : o.m_sentinel_private_keys) {
            t["sentinel" + u(i) + "_private"] = hexs(k);
        }
        for(const auto& k : o.m_sentinel_public_keys) {
            t["pub " + hexs(k)] = "1";
        }
        t["locking shards"] = u(o.m_locking_shard_endpoints.size());
        t["shards"] = u(o.m_shard_endpoints.size());
        auto nested = [&](const auto& v, const string& p, const string& f) {
            for(size_t i = 0; i < v.size(); i++) {
                auto& c = t[p + u(i) + "_nodes"];
                auto s = u(v[i].size());
                c = c.empty() || c == s ? s : c + " and " + s;
                eps(t, p + u(i) + "_", f, v[i]);
            }
        };
        nested(o.m_locking_shard_endpoints, "shard", "endpoint");
        nested(o.m_locking_shard_raft_endpoints, "shard", "raft");
        nested(o.m_locking_shard_readonly_endpoints, "shard", "readonly");
        eps(t, "shard", "endpoint", o.m_shard_endpoints);
        for(size_t i = 0; i < o.m_shard_db_dirs.size(); i++) {
            t["shard" + u(i) + "_db"] = o.m_shard_db_dirs[i];
        }
        levs(t, "shard", o.m_shard_loglevels);
        for(size_t i = 0; i < o.m_shard_ranges.size(); i++) {
            t["shard" + u(i) + "_range"] = u(o.m_shard_ranges[i].first) + "-"
                                         + u(o.m_shard_ranges[i].second);
        }
        t["completed"] = u(o.m_shard_completed_txs_cache_size);
        t["seed"] = u(o.m_seed_from) + "-" + u(o.m_seed_to);
        t["seed value"] = u(o.m_seed_value);
        if(o.m_seed_privkey) {
            t["seed key"] = hexs(*o.m_seed_privkey);
        }
        t["atomizers"] = u(o.m_atomizer_endpoints.size());
        eps(t, "atomizer", "endpoint", o.m_atomizer_endpoints);
        eps(t, "atomizer", "raft", o.m_atomizer_raft_endpoints);
        levs(t, "atomizer", o.m_atomizer_loglevels);
        t["interval"] = u(o.m_target_block_interval);
        t["depth"] = u(o.m_stxo_cache_depth);
        t["archivers"] = u(o.m_archiver_endpoints.size());
        eps(t, "archiver", "endpoint", o.m_archiver_endpoints);
        levs(t, "archiver", o.m_archiver_loglevels);
        for(size_t i = 0; i < o.m_archiver_db_dirs.size(); i++) {
            t["archiver" + u(i) + "_db"] = o.m_archiver_db_dirs[i];
        }
        t["watchtowers"] = u(o.m_watchtower_client_endpoints.size());
        eps(t, "watchtower", "client", o.m_watchtower_client_endpoints);
        eps(t, "watchtower", "internal", o.m_watchtower_internal_endpoints);
        levs(t, "watchtower", o.m_watchtower_loglevels);
        t["wt blocks"] = u(o.m_watchtower_block_cache_size);
        t["wt errors"] = u(o.m_watchtower_error_cache_size);
        t["coordinators"] = u(o.m_coordinator_endpoints.size());
        nested(o.m_coordinator_endpoints, "coordinator", "endpoint");
        nested(o.m_coordinator_raft_endpoints, "coordinator", "raft");
        levs(t, "coordinator", o.m_coordinator_loglevels);
        t["threads"] = u(o.m_coordinator_max_threads);
        auto i = [](int32_t v) {
            return std::to_string(v);
        };
        t["upper"] = i(o.m_election_timeout_upper);
        t["lower"] = i(o.m_election_timeout_lower);
        t["heartbeat"] = i(o.m_heartbeat);
        t["distance"] = i(o.m_snapshot_distance);
        t["raft batch"] = i(o.m_raft_max_batch);
        t["batch"] = u(o.m_batch_size);
        t["inputs"] = u(o.m_input_count);
        t["outputs"] = u(o.m_output_count);
        t["fixed"] = o.m_fixed_tx_mode ? "1" : "0";
        t["invalid"] = dbl(o.m_invalid_rate);
        t["fixed rate"] = dbl(o.m_fixed_tx_rate);
        t["window"] = u(o.m_window_size);
        t["mint count"] = u(o.m_initial_mint_count);
        t["mint value"] = u(o.m_initial_mint_value);
        t["loadgens"] = u(o.m_loadgen_count);
        return t;
    }

    string tmpfile_name() {
        static auto s = mc::scratch() + "/c30.cfg";
        return s;
    }
    // kv: what counts (environment included); file: the lines
    void judge(mc::ctx& c,
               const std::map<string, string>& kv,
               bool well_formed,
               const string& file) {
        loader ref{kv};
        ref.ok = well_formed;
        ref.load();
        {
            std::ofstream f(tmpfile_name(), std::ios::trunc);
            f << file;
        }
        auto got = config::load_options(tmpfile_name());
        auto* o = std::get_if<config::options>(&got);
        if(!ref.ok) {
            if(o != nullptr) {
                c.fail("accepted", "a file that must be refused was loaded");
                return;
            }
            if(std::get<string>(got).empty()) {
                c.fail("no message", "refused without an error message");
                return;
            }
            c.agreed();
            c.outcome("refused");
            return;
        }
        if(o == nullptr) {
            c.fail("refused",
                   "a correct file was refused: %s",
                   std::get<string>(got).c_str());
            return;
        }
        auto t = printed(*o);
        for(const auto& [k, v] : ref.out) {
            auto it = t.find(k);
            if(it == t.end() || it->second != v) {
                c.fail("value of " + k,
                       "%s is %s, written as %s",
                       k.c_str(),
                       it == t.end() ? "absent" : it->second.c_str(),
                       v.c_str());
                return;
            }
            t.erase(it);
        }
        if(!t.empty()) {
            c.fail("value of " + t.begin()->first,
                   "%s is %s, but not written",
                   t.begin()->first.c_str(),
                   t.begin()->second.c_str());
            return;
        }
        c.agreed();
        c.outcome("loaded");
    }

    // ---- configurations: a base, each key with other values ----
    struct param {
        string key;
        string base; // "-": absent
        strs alts;
    };
    const string none = "-";
    string hexkey(char ch, size_t n = 64) {
        return "\"" + string(n, ch) + "\"";
    }
    strs alts_for(char kind) {
        strs r;
        switch(kind) {
            case 'c': // count
                r = {none, "0", "1", "2", "3", "9999999999999", "\"1\"", "1.0",
                     "-1", ""};
                break;
            case 'k': // count of nodes: clusters without any are not judged
                r = {none, "1", "2", "3", "18446744073709551615", "\"1\"",
                     "1x"};
                break;
            case 'n':
                r = {none, "0", "7", "18446744073709551615",
                     "18446744073709551616", "\"7\"", "7.5", "-7", "7 "};
                break;
            case 'i':
                r = {none, "0", "2147483647", "2147483648", "4294967303",
                     "18446744073709551615", "\"7\"", "-7"};
                break;
            case 'r': // range bound
                r = {none, "0", "127", "128", "255", "256", "257", "-1",
                     "\"1\""};
                break;
            case 'e':
                r = {none, "\"other:65535\"", "\"h:65536\"", "\"h\"", "\"h:\"",
                     "\":1\"", "\"h:0\"", "\"h:1:2\"", "\"h: 1\"", "\"h:1a\"",
                     "\"h:-1\"", "\"h:4294967297\"", "7", "h:1"};
                break;
            case 'l':
                r = {none, "\"TRACE\"", "\"DEBUG\"", "\"INFO\"", "\"WARN\"",
                     "\"ERROR\"", "\"FATAL\"", "\"trace\"", "\"\"",
                     "\"WARN \"", "3", "TRACE"};
                break;
            case 's':
                r = {none, "\"other\"", "\"a=b\"", "\"a\"b\"", "\"7\"", "7",
                     "\"x", "x\"", "\""};
                break;
            case 'p':
                r = {none, hexkey('a'), hexkey('B'), hexkey('c', 63),
                     hexkey('c', 65), hexkey('c', 62), hexkey('g'), "\"\"",
                     "7"};
                break;
            case 'd':
                r = {none, "0.0", "0.25", ".5", "5.", "1", ".", "1.2.3", "1e3",
                     "1.0e1", "-1.0", "\"1.0\"", "0.5x", "nan"};
                break;
            default:
                break;
        }
        return r;
    }
    struct layout {
        std::vector<param> p;
        void add(char kind, const string& key, const string& base) {
            p.push_back({key, base, alts_for(kind)});
        }
    };
    layout base(bool two) {
        layout l;
        int port = 5000;
        auto ep = [&](const string& k) {
            l.add('e', k, mc::strf("\"host%d:%d\"", port % 7, port));
            port++;
        };
        l.add('c', "2pc", two ? "1" : none);
        l.add('c', "attestation_threshold", two ? "1" : none);
        for(int i = 0; i < 2; i++) {
            auto p = "sentinel" + u(i) + "_";
            ep(p + "endpoint");
            l.add('l', p + "loglevel", i == 0 ? "\"ERROR\"" : none);
            l.add('p', p + "private_key", i == 0 ? hexkey('1') : none);
            l.add('p', p + "public_key", hexkey(char('a' + i)));
        }
        l.add('c', "sentinel_count", "2");
        for(int i = 0; i < 2; i++) {
            auto p = "shard" + u(i) + "_";
            if(two) {
                for(int j = 0; j < 2 - i; j++) {
                    auto q = p + u(j) + "_";
                    ep(q + "endpoint");
                    ep(q + "raft_endpoint");
                    ep(q + "readonly_endpoint");
                }
                l.add('k', p + "count", u(2 - i));
            } else {
                ep(p + "endpoint");
                l.add('s', p + "db", mc::strf("\"db%d\"", i));
            }
            l.add('l', p + "loglevel", i == 1 ? "\"INFO\"" : none);
            l.add('r', p + "start", i == 0 ? "0" : "128");
            l.add('r', p + "end", i == 0 ? "127" : "255");
        }
        l.add('c', "shard_count", "2");
        l.add('n', "seed_from", "10");
        l.add('n', "seed_to", "20");
        l.add('n', "seed_value", "5");
        l.add('p', "seed_privkey", hexkey('7'));
        l.add('n', "shard_completed_txs_cache_size", none);
        if(two) {
            for(int i = 0; i < 2; i++) {
                auto p = "coordinator" + u(i) + "_";
                for(int j = 0; j < 1 + i; j++) {
                    auto q = p + u(j) + "_";
                    ep(q + "endpoint");
                    ep(q + "raft_endpoint");
                }
                l.add('k', p + "count", u(1 + i));
                l.add('l', p + "loglevel", i == 0 ? "\"FATAL\"" : none);
            }
            l.add('c', "coordinator_count", "2");
            l.add('n', "coordinator_max_threads", "60");
        } else {
            for(int i = 0; i < 2; i++) {
                auto p = "atomizer" + u(i) + "_";
                ep(p + "endpoint");
                ep(p + "raft_endpoint");
                l.add('l', p + "loglevel", i == 1 ? "\"DEBUG\"" : none);
                p = "archiver" + u(i) + "_";
                ep(p + "endpoint");
                l.add('s', p + "db", mc::strf("\"arch%d\"", i));
                l.add('l', p + "loglevel", i == 0 ? "\"TRACE\"" : none);
                p = "watchtower" + u(i) + "_";
                ep(p + "client_endpoint");
                ep(p + "internal_endpoint");
                l.add('l', p + "loglevel", i == 1 ? "\"ERROR\"" : none);
            }
            l.add('c', "atomizer_count", "2");
            l.add('c', "archiver_count", "2");
            l.add('c', "watchtower_count", "2");
            l.add('n', "watchtower_block_cache_size", "11");
            l.add('n', "watchtower_error_cache_size", none);
            l.add('n', "target_block_interval", "300");
            l.add('n', "stxo_cache_depth", none);
        }
        l.add('n', "batch_size", "12");
        l.add('i', "election_timeout_upper", "4001");
        l.add('i', "election_timeout_lower", "2001");
        l.add('i', "heartbeat", "1001");
        l.add('i', "snapshot_distance", "13");
        l.add('i', "raft_max_batch", "14");
        l.add('n', "loadgen_sendtx_input_count", "15");
        l.add('n', "loadgen_sendtx_output_count", "16");
        l.add('d', "loadgen_invalid_tx_rate", "0.125");
        l.add('d', "loadgen_fixed_tx_rate", "0.5");
        l.add('n', "window_size", "17");
        l.add('n', "initial_mint_count", none);
        l.add('n', "initial_mint_value", "18");
        l.add('n', "loadgen_count", "19");
        return l;
    }
    string upper(string s) {
        for(auto& ch : s) {
            ch = char(toupper((unsigned char)ch));
        }
        return s;
    }
    // How a value may be given: in the file, or the file has another correct
    // one and the environment overrides it.
    void configurations(mc::ctx& c, bool two) {
        static std::map<bool, layout> bases;
        if(bases.count(two) == 0) {
            bases[two] = base(two);
        }
        const auto& l = bases[two];
        std::map<string, string> kv;
        strs lines;
        strs env;
        bool form = true;
        for(const auto& p : l.p) {
            const auto na = uint32_t(p.alts.size());
            const auto ne = mc::thorough() ? na : 3U;
            // in the file; by the environment; twice in the file
            const auto a = c.choose(1 + na + ne + 1, p.key.c_str(), 1);
            auto v = p.base, in_file = p.base;
            if(a >= 1 && a <= na) {
                v = in_file = p.alts[a - 1];
            } else if(a > na && a <= na + ne) {
                v = p.alts[ne == 3 ? std::vector<size_t>{1, 2, na - 1}[a - na - 1]
                                   : a - na - 1];
                if(v == none) {
                    // nothing to override: the same value as in the file
                    v = p.base;
                    if(v == none) {
                        return;
                    }
                }
                setenv(upper(p.key).c_str(), v.c_str(), 1);
                env.push_back(upper(p.key));
            } else if(a > na + ne) {
                if(v == none) {
                    v = in_file = p.alts[1];
                }
                lines.push_back(p.key + "=" + p.alts[1]);
                form = false;
            }
            if(in_file != none) {
                lines.push_back(p.key + "=" + in_file);
                form &= read(in_file).kind != 0;
            }
            if(v != none) {
                kv[p.key] = v;
            }
        }
        const auto order = c.choose(5, "layout of the file", 1);
        string file;
        if(order == 1) {
            lines = strs(lines.rbegin(), lines.rend());
        } else if(order == 2) {
            lines.insert(lines.begin() + 3, "");
            lines.push_back("not a parameter");
        } else if(order == 3) {
            lines.push_back("some_other_parameter=\"1\"");
        }
        for(const auto& s : lines) {
            file += s + "\n";
        }
        if(order == 4) {
            file.pop_back(); // no newline at the end
        }
        judge(c, kv, form, file);
        for(const auto& k : env) {
            unsetenv(k.c_str());
        }
    }

    // ---- every value text ----
    const char alphabet[] = {'"', '0', '7', '.', '-', 'a', ' ', ':', '=', '+'};
    void texts(mc::ctx& c, size_t len) {
        static const char* keys[] = {"window_size",
                                     "loadgen_invalid_tx_rate",
                                     "archiver0_db",
                                     "archiver0_endpoint",
                                     "heartbeat"};
        static const std::map<string, string> small{
            {"archiver_count", "1"},
            {"archiver0_endpoint", "\"a:1\""},
            {"archiver0_db", "\"x\""},
            {"atomizer_count", "1"},
            {"atomizer0_endpoint", "\"b:2\""},
            {"atomizer0_raft_endpoint", "\"c:3\""},
            {"watchtower_count", "1"},
            {"watchtower0_client_endpoint", "\"d:4\""},
            {"watchtower0_internal_endpoint", "\"e:5\""},
            {"attestation_threshold", "0"}};
        const string key = keys[c.choose(5, "key")];
        string v;
        const auto n = c.choose(uint32_t(len) + 1, "length");
        for(uint32_t i = 0; i < n; i++) {
            v += alphabet[c.choose(sizeof alphabet, "char")];
        }
        const bool quoted
            = key == "archiver0_db" || key == "archiver0_endpoint";
        if(quoted && c.flip("quotes around")) {
            v = "\"" + v + "\"";
        }
        auto kv = small;
        kv[key] = v;
        string file;
        for(const auto& [k, t] : kv) {
            file += k + "=" + t + "\n";
        }
        judge(c, kv, read(v).kind != 0, file);
    }

    // ---- PArSEC program arguments ----
    void arguments(mc::ctx& c) {
        struct arg {
            const char* key;
            char kind;
            const char* base;
        };
        // n number, e endpoint, l level, t load type, r runner, d decimal
        static const arg args[] = {{"component_id", 'n', "1"},
                                   {"node_id", 'o', nullptr},
                                   {"ticket_machine_count", 'c', "2"},
                                   {"ticket_machine0_endpoint", 'e', "t:10"},
                                   {"ticket_machine1_endpoint", 'e', "t:11"},
                                   {"shard_count", 'c', "2"},
                                   {"shard0_count", 'c', "2"},
                                   {"shard00_endpoint", 'e', "s:20"},
                                   {"shard01_endpoint", 'e', "s:21"},
                                   {"shard1_count", 'c', "1"},
                                   {"shard10_endpoint", 'e', "s:22"},
                                   {"agent_count", 'c', "1"},
                                   {"agent0_endpoint", 'e', "a:30"},
                                   {"loglevel", 'l', "ERROR"},
                                   {"loadgen_txtype", 't', "transfer"},
                                   {"contention_rate", 'd', "0.5"},
                                   {"loadgen_accounts", 'a', nullptr},
                                   {"runner_type", 'r', "lua"}};
        static const std::map<char, strs> alts{
            {'n', {none, "0", "18446744073709551615", "18446744073709551616",
                   "x", "1x", "", "-1", "+1", " 1", "1.0"}},
            {'o', {"0", "7", "x", "1x", "", "-1"}},
            {'a', {"0", "7", "x", "1x", "", "-1"}},
            {'c', {none, "0", "1", "2", "3", "x", "1x", "", "-1",
                   "18446744073709551615"}},
            {'e', {none, "h:65535", "h:65536", "h", "h:", ":1", "h:1:2",
                   "h:x", "", "h:-1"}},
            {'l', {"TRACE", "DEBUG", "INFO", "WARN", "FATAL", "trace", ""}},
            {'t', {"erc20", "other", ""}},
            {'d', {none, "0.0", "1", "0.25", "x", "0.5x", ""}},
            {'r', {none, "evm", "other", ""}}};
        std::map<string, string> kv;
        strs list{"prog"};
        for(const auto& a : args) {
            const auto& alt = alts.at(a.kind);
            auto i = c.choose(1 + uint32_t(alt.size()), a.key, 1);
            string v = i == 0 ? (a.base == nullptr ? none : a.base)
                              : alt[i - 1];
            if(v != none) {
                kv[a.key] = v;
                list.push_back("--" + string(a.key) + "=" + v);
            }
        }
        bool ok = true;
        // arguments that are no parameters, or are given twice
        static const char* odd[] = {"", "-x=1", "x=1", "--x", "--x=1=2", "--",
                                    "--x--y=1", "--component_id=1",
                                    "--loadgen_accounts"};
        const auto o = c.choose(9, "another argument", 1);
        const auto at = o == 0 ? 0 : c.choose(2, "where");
        if(o != 0) {
            // twice the component id: only if it is already there
            if(o == 7 && kv.count("component_id") == 0) {
                return;
            }
            list.insert(at == 0 ? list.begin() + 1 : list.end(), odd[o]);
            ok = false;
        }
        // what must come out
        text want;
        auto get = [&](const string& k) -> optional<string> {
            auto it = kv.find(k);
            return it == kv.end() ? std::nullopt : optional<string>(it->second);
        };
        auto num = [&](const string& k) {
            auto v = get(k);
            uint64_t n{};
            if(!v || !number(*v, n)) {
                ok = false;
            }
            return n;
        };
        auto list_of = [&](const string& k, const string& name) {
            auto n = num(k + "_count");
            want[name] = u(n);
            for(uint64_t i = 0; ok && i < n; i++) {
                auto v = get(k + u(i) + "_endpoint");
                string host;
                uint64_t port{};
                ok &= v && endpoint(*v, host, port);
                want[name + u(i)] = host + "|" + u(port);
            }
        };
        want["id"] = u(num("component_id"));
        if(get("node_id")) {
            want["node"] = u(num("node_id"));
        }
        list_of("ticket_machine", "t");
        auto n = num("shard_count");
        want["shards"] = u(n);
        for(uint64_t i = 0; ok && i < n; i++) {
            list_of("shard" + u(i), "shard " + u(i) + " ");
        }
        list_of("agent", "a");
        if(auto v = get("loglevel")) {
            ok &= levels.count(*v) == 1;
            want["level"] = ok ? levels.at(*v) : "";
        }
        if(auto v = get("loadgen_txtype")) {
            ok &= *v == "transfer" || *v == "erc20";
            want["type"] = *v;
        }
        if(auto v = get("contention_rate")) {
            auto r = read(*v);
            ok &= r.kind == 'd' || r.kind == 'n';
            want["rate"] = dbl(r.kind == 'n' ? double(r.n) : r.d);
        } else {
            want["rate"] = "0";
        }
        want["accounts"]
            = get("loadgen_accounts") ? u(num("loadgen_accounts")) : "1000";
        if(auto v = get("runner_type")) {
            ok &= *v == "lua" || *v == "evm";
            want["runner"] = *v;
        } else {
            want["runner"] = "evm";
        }
        // what comes out
        std::vector<char*> argv;
        for(auto& s : list) {
            argv.push_back(s.data());
        }
        argv.push_back(nullptr);
        auto got = parsec::read_config(int(list.size()), argv.data());
        if(got.has_value() != ok) {
            c.fail(ok ? "refused" : "accepted",
                   ok ? "correct arguments were refused"
                      : "arguments that must be refused were read");
            return;
        }
        if(!ok) {
            c.agreed();
            c.outcome("refused");
            return;
        }
        text t;
        t["id"] = u(got->m_component_id);
        if(got->m_node_id) {
            t["node"] = u(*got->m_node_id);
        }
        auto eplist = [&](const auto& v, const string& name) {
            t[name] = u(v.size());
            for(size_t i = 0; i < v.size(); i++) {
                t[name + u(i)] = v[i].first + "|" + u(v[i].second);
            }
        };
        eplist(got->m_ticket_machine_endpoints, "t");
        t["shards"] = u(got->m_shard_endpoints.size());
        for(size_t i = 0; i < got->m_shard_endpoints.size(); i++) {
            eplist(got->m_shard_endpoints[i], "shard " + u(i) + " ");
        }
        eplist(got->m_agent_endpoints, "a");
        if(want.count("level") != 0) {
            t["level"] = lev(got->m_loglevel);
        }
        if(want.count("type") != 0) {
            t["type"] = got->m_load_type == parsec::load_type::transfer
                          ? "transfer"
                          : "erc20";
        }
        t["rate"] = dbl(got->m_contention_rate);
        t["accounts"] = u(got->m_loadgen_accounts);
        t["runner"]
            = got->m_runner_type == parsec::runner_type::lua ? "lua" : "evm";
        for(const auto& [k, v] : want) {
            if(t[k] != v) {
                c.fail("argument " + k,
                       "%s is %s, written as %s",
                       k.c_str(),
                       t[k].c_str(),
                       v.c_str());
                return;
            }
        }
        if(t.size() != want.size()) {
            c.fail("argument more", "values that were not given");
            return;
        }
        c.agreed();
        c.outcome("read");
    }
}
int main(int argc, char** argv) {
    const uint32_t dev = mc::thorough() ? 3 : 2;
    const size_t len = mc::thorough() ? 5 : 4;
    std::vector<mc::scenario> s{
        {"two-phase files",
         [](mc::ctx& c) { configurations(c, true); },
         2, 8, mc::by_deviation,
         "2 sentinels, 2 shards, 2 coordinators; every pair of parameters "
         "with every listed value, absent, by environment or twice"},
        {"atomizer files",
         [](mc::ctx& c) { configurations(c, false); },
         2, 8, mc::by_deviation,
         "2 of every component; every pair of parameters with every listed "
         "value, absent, by environment or twice"},
        {"value texts",
         [len](mc::ctx& c) { texts(c, len); },
         0, 8, 2,
         mc::strf("every text up to length %zu over 10 characters for 5 "
                  "kinds of parameter", len)},
        {"program arguments",
         [](mc::ctx& c) { arguments(c); },
         dev, 8, mc::by_deviation,
         mc::strf("every %u deviations of the PArSEC arguments", dev)},
    };
    return mc::main(argc, argv, "C30", "model_checking",
                    "the loaded options are those of a reference reader of "
                    "the documented grammar, or both refuse",
                    {"clusters configured with no node, and parameters that "
                     "the chosen architecture does not read, are not judged"},
                    s);
}
