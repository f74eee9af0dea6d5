#include "mc.hpp"

#include <chrono>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {
    namespace {
        constexpr size_t max_cur = 1 << 16;
        struct shared {
            volatile uint64_t progress;
            volatile uint32_t npts;
            volatile uint32_t bound;
            uint32_t pts[max_cur];
        };
        shared* g_sh = nullptr;
        // Open-addressing tables shared by the workers of one scenario:
        // states reached (56 bits of hash, 8 bits of steps left) and work
        // items claimed (hash, worker).
        struct table {
            uint64_t* slots{};
            uint64_t mask{};
            void make(uint64_t n) {
                auto* p = mmap(nullptr,
                               n * 8,
                               PROT_READ | PROT_WRITE,
                               MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE,
                               -1,
                               0);
                if(p == MAP_FAILED) {
                    perror("mmap");
                    exit(3);
                }
                slots = static_cast<uint64_t*>(p);
                mask = n - 1;
            }
            void drop() {
                if(slots != nullptr) {
                    munmap(slots, (mask + 1) * 8);
                    slots = nullptr;
                }
            }
            // The slot of h (created if new); null: no room nearby.
            uint64_t* find(uint64_t h, uint64_t value, bool& fresh) {
                const uint64_t tag = h | 0x100; // never 0 in the upper part
                const uint64_t v = (tag & ~uint64_t{255}) | value;
                auto i = (h * 0x9e3779b97f4a7c15ULL) >> 20;
                fresh = false;
                for(int k = 0; k < 256; k++, i++) {
                    auto* p = &slots[i & mask];
                    auto cur = __atomic_load_n(p, __ATOMIC_ACQUIRE);
                    if(cur == 0) {
                        if(__atomic_compare_exchange_n(p,
                                                       &cur,
                                                       v,
                                                       false,
                                                       __ATOMIC_ACQ_REL,
                                                       __ATOMIC_ACQUIRE)) {
                            fresh = true;
                            return p;
                        }
                    }
                    if((cur ^ v) < 256) {
                        return p;
                    }
                }
                return nullptr;
            }
        };
        table g_seen_tab, g_claim_tab;
        std::map<std::string, uint64_t> g_stats;
        std::string g_scratch;
        bool g_known_loaded = false;
        std::set<std::string> g_known;
        std::string g_prop;
        std::string verif_dir() {
            const char* v = getenv("VERIF_DIR");
            return v != nullptr ? v : "/verif";
        }
        double now() {
            struct timespec t {};
            // raw syscall: harnesses may interpose clock_gettime
            syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
            return double(t.tv_sec) + double(t.tv_nsec) / 1e9;
        }
        std::string esc(const std::string& s) {
            std::string r;
            for(unsigned char c : s) {
                if(c == '"' || c == '\\') {
                    r += '\\';
                    r += char(c);
                } else if(c == '\n') {
                    r += "\\n";
                } else if(c < 32 || c > 126) {
                    char b[8];
                    snprintf(b, sizeof b, "\\u%04x", c);
                    r += b;
                } else {
                    r += char(c);
                }
            }
            return r;
        }
        // known findings: lines "KNOWN <property> <key> :: text"
        void load_known() {
            if(g_known_loaded) {
                return;
            }
            g_known_loaded = true;
            std::ifstream f(verif_dir() + "/known_findings.txt");
            std::string l;
            while(std::getline(f, l)) {
                if(l.rfind("KNOWN ", 0) != 0) {
                    continue;
                }
                std::istringstream ss(l);
                std::string k, p, key;
                ss >> k >> p >> key;
                g_known.insert(p + " " + key);
            }
        }
        bool is_known(const std::string& key) {
            load_known();
            return g_known.count(g_prop + " " + key) != 0;
        }
    }
    bool thorough() {
        const char* t = getenv("VERIF_TIER");
        return t != nullptr && std::string(t) == "thorough";
    }
    std::string strf(const char* fmt, ...) {
        char b[4096];
        va_list a;
        va_start(a, fmt);
        vsnprintf(b, sizeof b, fmt, a);
        va_end(a);
        return b;
    }
    void stat(const std::string& name, uint64_t add) {
        g_stats[name] += add;
    }
    std::string scratch() {
        return g_scratch;
    }

    uint32_t ctx::choose(uint32_t n, const char* what, uint32_t cost) {
        if(n == 0) {
            n = 1;
        }
        uint32_t r = 0;
        if(m_pos < m_fixed) {
            auto& p = m_pts[m_pos];
            if(p.n == 0xffffffffU) {
                p.n = n;
            }
            if(p.n != n) {
                // The same prefix met a different choice: nondeterminism the
                // harness does not control. Hard error.
                fprintf(stderr,
                        "MC-DIVERGENCE at %zu: %u alternatives, had %u (%s)\n",
                        m_pos,
                        n,
                        p.n,
                        what);
                m_diverged = true;
                _exit(97);
            }
            r = p.cur;
        } else {
            if(m_pts.size() <= m_pos) {
                m_pts.emplace_back();
            }
            m_pts.resize(m_pos + 1);
            auto& p = m_pts[m_pos];
            p.n = n;
            p.cur = 0;
            p.cost = cost;
            m_trans++;
            if(g_sh != nullptr && m_pos < max_cur) {
                g_sh->pts[m_pos] = 0;
                g_sh->npts = uint32_t(m_pos + 1);
            }
        }
        if(r != 0) {
            m_cost += cost;
        }
        if(m_keep_notes && n > 1) {
            note("[choice %zu: %s = %u of %u]", m_pos, what, r, n);
        }
        m_pos++;
        return r;
    }

    // Number of leading choices, among the first n, that name the work item.
    size_t ctx::item_size(size_t n) const {
        if(m_split != by_deviation) {
            return std::min(m_split, n);
        }
        for(size_t i = 0; i < n; i++) {
            if(m_pts[i].cur != 0) {
                return i + 1;
            }
        }
        return n;
    }

    bool ctx::claim() {
        if(m_mine < 0) {
            uint64_t h = 1469598103934665603ULL ^ (m_bound * 0x9e3779b9ULL);
            auto n = item_size(m_pos);
            for(size_t i = 0; i < n; i++) {
                h ^= m_pts[i].cur + 1;
                h *= 1099511628211ULL;
                h ^= h >> 29;
            }
            h *= 0xd6e8feb86659fd93ULL;
            bool fresh{};
            auto* p = g_claim_tab.find(h, m_worker, fresh);
            if(p == nullptr) {
                fprintf(stderr, "MC: too many work items\n");
                _exit(97);
            }
            m_mine = (__atomic_load_n(p, __ATOMIC_ACQUIRE) & 255) == m_worker;
        }
        return m_mine == 1;
    }

    bool ctx::visit(const std::string& key, uint32_t left) {
        if(m_replay) {
            return true;
        }
        if(m_shared) {
            if(m_split == by_deviation
                   ? item_size(m_pos) == m_pos
                         && (m_pos == 0 || m_pts[m_pos - 1].cur == 0)
                   : m_pos < m_split) {
                return true; // every worker walks these
            }
            if(!claim()) {
                return false; // another worker explores what follows
            }
        }
        if(m_pos < m_fixed) {
            return true;
        }
        auto h = fnv(key);
        const auto want = uint64_t{std::min(left, 254U)} + 1;
        if(m_shared) {
            h += m_bound * 0x9e3779b97f4a7c15ULL;
            h ^= h >> 31;
            h *= 0xd6e8feb86659fd93ULL;
            bool fresh{};
            auto* p = g_seen_tab.find(h, want, fresh);
            if(p == nullptr) {
                return true; // table full: explore without merging
            }
            if(fresh) {
                m_new++;
                return true;
            }
            auto cur = __atomic_load_n(p, __ATOMIC_ACQUIRE);
            while((cur & 255) < want) {
                if(__atomic_compare_exchange_n(p,
                                               &cur,
                                               (cur & ~uint64_t{255}) | want,
                                               false,
                                               __ATOMIC_ACQ_REL,
                                               __ATOMIC_ACQUIRE)) {
                    return true;
                }
            }
            m_cut++;
            return false;
        }
        auto [it, fresh] = m_seen.emplace(h, uint32_t(want));
        if(!fresh) {
            if(it->second >= want) {
                m_cut++;
                return false;
            }
            it->second = uint32_t(want);
        }
        return true;
    }

    void ctx::note(const char* fmt, ...) {
        if(!m_keep_notes) {
            return;
        }
        char b[4096];
        va_list a;
        va_start(a, fmt);
        vsnprintf(b, sizeof b, fmt, a);
        va_end(a);
        m_notes += b;
        m_notes += "\n";
        if(m_replay) {
            fprintf(stderr, "  %s\n", b);
        }
    }
    void ctx::fail(const std::string& key, const char* fmt, ...) {
        if(m_failed) {
            return;
        }
        char b[4096];
        va_list a;
        va_start(a, fmt);
        vsnprintf(b, sizeof b, fmt, a);
        va_end(a);
        m_failed = true;
        m_fail_key = key;
        m_fail_msg = b;
        if(m_replay) {
            fprintf(stderr, "FAIL %s: %s\n", key.c_str(), b);
        }
    }
    void ctx::outcome(const std::string& s) {
        m_outcomes_total++;
        if(m_outcomes.size() < 20000) {
            m_outcomes.insert(s);
        }
        if(m_first_outcome.empty()) {
            m_first_outcome = s;
        }
    }

    namespace {
        struct result {
            uint64_t paths{}, evals{}, agreed{}, trans{}, cut{}, states{},
                outcomes{};
            bool capped{}, failed{}, error{};
            std::string fkey, fmsg, notes, choices, sample;
            uint32_t bound_done{};
            uint32_t fbound{};
            std::map<std::string, uint64_t> known; // key -> count
            std::map<std::string, std::string> known_msg;
            std::map<std::string, uint64_t> stats;
        };
        std::string choices_str(const std::vector<point>& p, size_t n) {
            std::string s;
            for(size_t i = 0; i < n; i++) {
                s += std::to_string(p[i].cur);
                s += i + 1 < n ? "," : "";
            }
            return s;
        }
        void run_once(ctx& c, const body& fn) {
            c.m_pos = 0;
            c.m_cost = 0;
            c.m_failed = false;
            c.m_mine = -1;
            c.m_notes.clear();
            if(g_sh != nullptr) {
                auto n = std::min(c.m_pts.size(), max_cur);
                for(size_t i = 0; i < n; i++) {
                    g_sh->pts[i] = c.m_pts[i].cur;
                }
                g_sh->npts = uint32_t(n);
                g_sh->bound = c.m_bound;
                g_sh->progress = g_sh->progress + 1;
            }
            fn(c);
            c.m_pts.resize(c.m_pos);
            c.m_paths++;
        }
        // Moves to the next decision sequence; false when exhausted.
        bool advance(ctx& c, size_t from) {
            // cost of prefix
            std::vector<uint32_t> pre(c.m_pts.size() + 1, 0);
            for(size_t i = 0; i < c.m_pts.size(); i++) {
                pre[i + 1]
                    = pre[i] + (c.m_pts[i].cur != 0 ? c.m_pts[i].cost : 0);
            }
            size_t i = from;
            while(i > 0) {
                auto& p = c.m_pts[i - 1];
                if(p.cur + 1 < p.n
                   && (p.cost == 0 || pre[i - 1] + p.cost <= c.m_bound)) {
                    p.cur++;
                    c.m_pts.resize(i);
                    c.m_fixed = i;
                    c.m_trans++;
                    return true;
                }
                i--;
            }
            return false;
        }
        result explore(const scenario& s, uint32_t worker, double deadline) {
            result r;
            ctx c;
            c.m_shared = s.workers > 1;
            c.m_split = s.split;
            c.m_worker = worker;
            for(uint32_t b = 0; b <= s.bound; b++) {
                c.m_new = 0;
                c.m_pts.clear();
                c.m_fixed = 0;
                c.m_bound = b;
                c.m_seen.clear();
                bool more = true;
                while(more) {
                    const auto ev = c.m_evals, ag = c.m_agreed;
                    run_once(c, s.fn);
                    size_t from = c.m_pts.size();
                    // paths cheaper than b were counted in an earlier pass
                    bool mine = b == 0 || c.m_cost == b;
                    if(s.workers > 1) {
                        if(!c.claim()) {
                            from = c.item_size(c.m_pts.size());
                            c.m_failed = false;
                            mine = false;
                        }
                    }
                    if(mine) {
                        r.paths++;
                    } else {
                        c.m_evals = ev;
                        c.m_agreed = ag;
                    }
                    if(c.m_failed) {
                        if(is_known(c.m_fail_key)) {
                            r.known[c.m_fail_key]++;
                            r.known_msg.emplace(c.m_fail_key, c.m_fail_msg);
                        } else {
                            r.failed = true;
                            r.fkey = c.m_fail_key;
                            r.fmsg = c.m_fail_msg;
                            r.choices = choices_str(c.m_pts, c.m_pts.size());
                            r.fbound = b;
                            // replay before report
                            // (code that draws random numbers may need
                            // several attempts)
                            auto pts = c.m_pts;
                            bool again = false;
                            for(int n = 0; n < 30 && !again; n++) {
                                ctx d;
                                d.m_pts = pts;
                                d.m_fixed = pts.size();
                                d.m_bound = b;
                                d.m_keep_notes = true;
                                run_once(d, s.fn);
                                r.notes = d.m_notes;
                                again = d.m_failed;
                            }
                            if(!again) {
                                r.fmsg += " (not repeated by 30 further runs "
                                          "of the same choices)";
                            }
                            break;
                        }
                    }
                    if(r.sample.empty() && c.m_paths > 3
                       && !c.m_failed) {
                        // write one explored path out
                        ctx d;
                        d.m_pts = c.m_pts;
                        d.m_fixed = c.m_pts.size();
                        d.m_bound = b;
                        d.m_keep_notes = true;
                        d.m_seen = {};
                        run_once(d, s.fn);
                        r.sample = d.m_notes.substr(0, 1500);
                        if(r.sample.empty()) {
                            r.sample = "choices "
                                     + choices_str(c.m_pts, c.m_pts.size());
                        }
                    }
                    more = advance(c, from);
                    if((c.m_paths & 63) == 0 && now() > deadline) {
                        r.capped = more;
                        break;
                    }
                }
                r.states = std::max<uint64_t>(
                    r.states,
                    s.workers > 1 ? c.m_new : c.m_seen.size());
                if(r.failed || r.capped) {
                    break;
                }
                r.bound_done = b;
            }
            r.evals = c.m_evals != 0 ? c.m_evals : r.paths;
            r.agreed = c.m_agreed;
            r.trans = c.m_trans;
            r.cut = c.m_cut;
            r.outcomes = c.m_outcomes.size();
            if(!c.m_first_outcome.empty()) {
                r.sample += "\noutcome: " + c.m_first_outcome;
            }
            r.stats = g_stats;
            return r;
        }
        void put(std::ostream& o, const std::string& s) {
            o << s.size() << " " << s << "\n";
        }
        std::string get(std::istream& i) {
            size_t n{};
            i >> n;
            i.get();
            std::string s(n, 0);
            i.read(s.data(), long(n));
            i.get();
            return s;
        }
        void save(const result& r, const std::string& f) {
            std::ofstream o(f + ".tmp", std::ios::binary);
            o << r.paths << " " << r.evals << " " << r.agreed << " " << r.trans
              << " " << r.cut << " " << r.states << " " << r.outcomes << " "
              << r.capped << " " << r.failed << " " << r.error << " "
              << r.bound_done << " " << r.fbound << "\n";
            put(o, r.fkey);
            put(o, r.fmsg);
            put(o, r.notes);
            put(o, r.choices);
            put(o, r.sample);
            o << r.known.size() << "\n";
            for(auto& [k, v] : r.known) {
                put(o, k);
                put(o, r.known_msg.at(k));
                o << v << "\n";
            }
            o << r.stats.size() << "\n";
            for(auto& [k, v] : r.stats) {
                put(o, k);
                o << v << "\n";
            }
            o.close();
            rename((f + ".tmp").c_str(), f.c_str());
        }
        bool load(result& r, const std::string& f) {
            std::ifstream i(f, std::ios::binary);
            if(!i.good()) {
                return false;
            }
            i >> r.paths >> r.evals >> r.agreed >> r.trans >> r.cut >> r.states
                >> r.outcomes >> r.capped >> r.failed >> r.error
                >> r.bound_done >> r.fbound;
            r.fkey = get(i);
            r.fmsg = get(i);
            r.notes = get(i);
            r.choices = get(i);
            r.sample = get(i);
            size_t n{};
            i >> n;
            for(size_t k = 0; k < n; k++) {
                auto key = get(i);
                auto msg = get(i);
                i >> r.known[key];
                r.known_msg[key] = msg;
            }
            i >> n;
            for(size_t k = 0; k < n; k++) {
                auto key = get(i);
                i >> r.stats[key];
            }
            return true;
        }
        struct job {
            const scenario* s{};
            uint32_t worker{};
            pid_t pid{-1};
            shared* sh{};
            std::string out, err, dir;
            uint64_t last_progress{};
            double last_cpu{}, last_change{};
            bool done{}, hang{};
            int status{};
            result res;
        };
        std::string tail(const std::string& f, size_t n) {
            std::ifstream i(f, std::ios::binary);
            std::stringstream ss;
            ss << i.rdbuf();
            auto s = ss.str();
            // sanitizer reports: the head matters
            auto a = s.find("ERROR: AddressSanitizer");
            if(a != std::string::npos) {
                return s.substr(a, n);
            }
            return s.size() > n ? s.substr(s.size() - n) : s;
        }
        double cpu_of(pid_t p) {
            std::ifstream f("/proc/" + std::to_string(p) + "/stat");
            std::string l;
            std::getline(f, l);
            auto c = l.rfind(')');
            if(c == std::string::npos) {
                return 0;
            }
            std::istringstream ss(l.substr(c + 2));
            std::string t;
            double u{}, s{};
            for(int k = 3; k <= 15; k++) {
                ss >> t;
                if(k == 14) {
                    u = atof(t.c_str());
                }
                if(k == 15) {
                    s = atof(t.c_str());
                }
            }
            return (u + s) / double(sysconf(_SC_CLK_TCK));
        }
        void rmrf(const std::string& d) {
            // only ever called on directories this process created under
            // its own mkdtemp root
            if(d.find("/mcwork.") == std::string::npos) {
                return;
            }
            auto p = fork();
            if(p == 0) {
                execl("/bin/rm", "rm", "-rf", "--", d.c_str(), nullptr);
                _exit(127);
            }
            int st{};
            waitpid(p, &st, 0);
        }
        pid_t spawn(const std::string& dir,
                    const std::string& err,
                    const std::function<int()>& f) {
            fflush(nullptr);
            auto p = fork();
            if(p != 0) {
                return p;
            }
            struct rlimit rl {};
            setrlimit(RLIMIT_CORE, &rl);
            mkdir(dir.c_str(), 0755);
            if(chdir(dir.c_str()) != 0) {
                _exit(98);
            }
            g_scratch = dir;
            int fd = open(err.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
            dup2(fd, 2);
            int nul = open((dir + ".stdout").c_str(),
                           O_CREAT | O_WRONLY | O_TRUNC,
                           0644);
            dup2(nul, 1);
            int rc = f();
            fflush(nullptr);
            _exit(rc);
        }
    }

    int main(int argc,
             char** argv,
             const char* property,
             const char* level,
             const char* rule,
             const std::vector<std::string>& assumptions,
             const std::vector<scenario>& scenarios) {
        g_prop = property;
        double t0 = now();
        std::string tmpl = "/tmp/mcwork.XXXXXX";
        if(const char* t = getenv("VERIF_SCRATCH")) {
            tmpl = std::string(t) + "/mcwork.XXXXXX";
        }
        std::vector<char> tb(tmpl.begin(), tmpl.end());
        tb.push_back(0);
        if(mkdtemp(tb.data()) == nullptr) {
            perror("mkdtemp");
            return 3;
        }
        std::string root = tb.data();

        // --replay FILE
        if(argc >= 3 && std::string(argv[1]) == "--replay") {
            std::ifstream f(argv[2]);
            std::string l, name, ch;
            uint32_t bound = 0;
            while(std::getline(f, l)) {
                if(l.rfind("scenario: ", 0) == 0) {
                    name = l.substr(10);
                }
                if(l.rfind("choices: ", 0) == 0) {
                    ch = l.substr(9);
                }
                if(l.rfind("bound: ", 0) == 0) {
                    bound = uint32_t(atoi(l.c_str() + 7));
                }
            }
            int rc = 2;
            for(auto& s : scenarios) {
                if(s.name != name) {
                    continue;
                }
                auto dir = root + "/replay";
                mkdir(dir.c_str(), 0755);
                if(chdir(dir.c_str()) != 0) {
                    return 3;
                }
                g_scratch = dir;
                ctx c;
                c.m_replay = true;
                c.m_keep_notes = true;
                c.m_bound = bound;
                // recorded choices; the arity of each point is not checked
                std::istringstream ss(ch);
                std::string t;
                while(std::getline(ss, t, ',')) {
                    point p;
                    p.n = 0xffffffffU;
                    p.cur = uint32_t(atoi(t.c_str()));
                    c.m_pts.push_back(p);
                }
                c.m_fixed = c.m_pts.size();
                run_once(c, s.fn);
                rc = c.m_failed ? 1 : 0;
                fprintf(stderr,
                        "%s\n",
                        c.m_failed ? "replay: FAILS" : "replay: passes");
            }
            rmrf(root);
            return rc;
        }
        std::string only;
        if(argc >= 3 && std::string(argv[1]) == "--only") {
            only = argv[2];
        }

        uint32_t jobs_max = 8;
        double budget = thorough() ? 3 * 3600.0 : 780.0;
        if(const char* b = getenv("VERIF_BUDGET")) {
            budget = atof(b);
        }
        std::vector<job> jobs;
        for(auto& s : scenarios) {
            if(!only.empty() && s.name.find(only) == std::string::npos) {
                continue;
            }
            for(uint32_t w = 0; w < s.workers; w++) {
                job j;
                j.s = &s;
                j.worker = w;
                jobs.push_back(std::move(j));
            }
        }
        double deadline = t0 + budget;
        size_t next = 0, running = 0, finished = 0;
        bool stop = false;
        for(size_t i = 0; i < jobs.size(); i++) {
            auto& j = jobs[i];
            j.dir = root + "/j" + std::to_string(i);
            j.out = j.dir + ".res";
            j.err = j.dir + ".err";
        }
        constexpr double hang_cpu = 60, hang_wall = 240;
        while(finished < jobs.size()) {
            while(!stop && running < jobs_max && next < jobs.size()) {
                auto& j = jobs[next++];
                if(j.s->workers > 1 && j.worker == 0) {
                    // children keep their own mapping of an earlier
                    // scenario's tables
                    g_seen_tab.drop();
                    g_claim_tab.drop();
                    g_seen_tab.make(thorough() ? 1ULL << 28 : 1ULL << 25);
                    g_claim_tab.make(1ULL << 22);
                }
                j.sh = static_cast<shared*>(mmap(nullptr,
                                                 sizeof(shared),
                                                 PROT_READ | PROT_WRITE,
                                                 MAP_SHARED | MAP_ANONYMOUS,
                                                 -1,
                                                 0));
                j.pid = spawn(j.dir, j.err, [&]() {
                    g_sh = j.sh;
                    g_stats.clear();
                    auto r = explore(*j.s, j.worker, deadline);
                    save(r, j.out);
                    return 0;
                });
                j.last_change = now();
                running++;
            }
            if(stop && running == 0) {
                break;
            }
            int st{};
            auto p = waitpid(-1, &st, WNOHANG);
            if(p > 0) {
                for(auto& j : jobs) {
                    if(j.pid == p && !j.done) {
                        j.done = true;
                        j.status = st;
                        running--;
                        finished++;
                        load(j.res, j.out);
                        if(j.res.failed || !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
                            // a failure: no need to start further work
                            stop = true;
                        }
                        rmrf(j.dir);
                    }
                }
                continue;
            }
            for(auto& j : jobs) {
                if(j.pid > 0 && !j.done) {
                    auto pr = j.sh->progress;
                    auto c = cpu_of(j.pid);
                    if(pr != j.last_progress) {
                        j.last_progress = pr;
                        j.last_cpu = c;
                        j.last_change = now();
                    } else if((c - j.last_cpu > hang_cpu
                               || now() - j.last_change > hang_wall)
                              && !j.hang) {
                        j.hang = true;
                        kill(j.pid, SIGKILL);
                    }
                }
            }
            if(stop) {
                // a violation was found: end the rest
                for(auto& j : jobs) {
                    if(j.pid > 0 && !j.done) {
                        kill(j.pid, SIGKILL);
                        int s2{};
                        waitpid(j.pid, &s2, 0);
                        j.done = true;
                        j.status = 0;
                        running--;
                        finished++;
                        rmrf(j.dir);
                    }
                }
                break;
            }
            usleep(2000);
        }

        // --- collect ---
        result tot;
        std::string viol_msg, viol_path;
        bool violation = false, error = false;
        std::map<std::string, result> per;
        std::map<std::string, std::pair<uint64_t, std::string>> known;
        auto vdir = verif_dir();
        mkdir((vdir + "/replays").c_str(), 0755);
        int vn = 0;
        for(auto& j : jobs) {
            if(!j.done) {
                continue;
            }
            auto& r = j.res;
            bool crash = !(WIFEXITED(j.status) && WEXITSTATUS(j.status) == 0)
                      || j.hang;
            if(WIFEXITED(j.status) && WEXITSTATUS(j.status) == 97) {
                fprintf(stderr,
                        "harness error in %s: %s\n",
                        j.s->name.c_str(),
                        tail(j.err, 600).c_str());
                error = true;
                continue;
            }
            if(crash && !violation) {
                // replay the path it died on, alone
                std::vector<point> pts(j.sh->npts);
                for(size_t i = 0; i < pts.size(); i++) {
                    pts[i].cur = j.sh->pts[i];
                }
                auto dir = root + "/crash";
                auto err = root + "/crash.err";
                auto arf = root + "/crash.ar";
                auto bound = j.sh->bound;
                auto pid = spawn(dir, err, [&]() {
                    g_sh = nullptr;
                    ctx c;
                    c.m_bound = bound;
                    c.m_keep_notes = true;
                    c.m_replay = false;
                    for(auto& p : pts) {
                        p.n = 0xffffffffU; // wildcard
                    }
                    c.m_pts = pts;
                    c.m_fixed = pts.size();
                    // notes straight to stderr so that they survive
                    c.m_replay = true;
                    run_once(c, j.s->fn);
                    return c.m_failed ? 1 : 0;
                });
                int st{};
                double ts = now(), c0 = 0;
                bool hung = false;
                while(waitpid(pid, &st, WNOHANG) == 0) {
                    usleep(5000);
                    if(cpu_of(pid) - c0 > 2 * hang_cpu
                       || now() - ts > 2 * hang_wall) {
                        hung = true;
                        kill(pid, SIGKILL);
                        waitpid(pid, &st, 0);
                        break;
                    }
                }
                bool again = hung || !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
                if(WIFEXITED(st) && WEXITSTATUS(st) == 97) {
                    again = false;
                }
                auto why = tail(err, 3500);
                r.choices = choices_str(pts, pts.size());
                r.fbound = bound;
                r.notes = why;
                r.fkey = hung ? "hang:" + j.s->name : "crash:" + j.s->name;
                r.fmsg = hung ? "does not terminate" : "process died: " + why.substr(why.size() > 800 ? why.size() - 800 : 0);
                if(is_known(r.fkey)) {
                    known[r.fkey].first++;
                    known[r.fkey].second = r.fmsg;
                    r.failed = false;
                } else {
                    r.failed = true;
                }
                r.error = !again;
            }
            if(r.failed && r.error) {
                fprintf(stderr,
                        "harness error: %s: %s\n%s\n",
                        j.s->name.c_str(),
                        r.fmsg.c_str(),
                        tail(j.err, 2000).c_str());
                error = true;
            } else if(r.failed) {
                violation = true;
                auto path = vdir + "/replays/" + property + "-"
                          + std::to_string(vn++) + ".txt";
                std::ofstream o(path);
                o << "property: " << property << "\nscenario: " << j.s->name
                  << "\nbound: " << r.fbound << "\nchoices: " << r.choices
                  << "\nkey: " << r.fkey << "\nfailure: " << r.fmsg
                  << "\ntrace:\n"
                  << r.notes << "\n";
                o.close();
                if(vn == 1) {
                    viol_path = path;
                    viol_msg = r.fmsg;
                }
                printf("FAILED %s [%s]: %s\n",
                       j.s->name.c_str(),
                       r.fkey.c_str(),
                       r.fmsg.c_str());
            }
            for(auto& [k, v] : r.known) {
                known[k].first += v;
                known[k].second = r.known_msg[k];
            }
            auto& q = per[j.s->name];
            q.paths += r.paths;
            q.evals += r.evals;
            q.agreed += r.agreed;
            q.trans += r.trans;
            q.states += r.states;
            q.outcomes = std::max(q.outcomes, r.outcomes);
            q.capped |= r.capped;
            if(q.sample.empty() || q.sample.size() < r.sample.size()) {
                q.sample = r.sample;
            }
            tot.paths += r.paths;
            tot.evals += r.evals;
            tot.agreed += r.agreed;
            tot.trans += r.trans;
            tot.states += r.states;
            tot.outcomes += r.outcomes;
            tot.capped |= r.capped;
            for(auto& [k, v] : r.stats) {
                tot.stats[k] += v;
            }
        }
        rmrf(root);
        for(auto& [k, v] : known) {
            printf("KNOWN-FINDING: property=%s %s (%llu executions): %s\n",
                   property,
                   k.c_str(),
                   static_cast<unsigned long long>(v.first),
                   v.second.substr(0, 300).c_str());
        }
        if(error && !violation) {
            return 2;
        }

        // --- evidence ---
        mkdir((vdir + "/evidence").c_str(), 0755);
        auto evidence_file = vdir + "/evidence/" + property + ".json";
        if(const char* part = getenv("VERIF_PART")) {
            evidence_file = part;
        }
        {
            std::ofstream o(evidence_file + ".tmp");
            const char* seed = getenv("VERIF_SEED");
            o << "{\n \"property\": \"" << property << "\",\n \"tier\": \""
              << (thorough() ? "thorough" : "quick") << "\",\n \"seed\": "
              << (seed != nullptr ? atoi(seed) : 1) << ",\n \"level\": \""
              << level << "\",\n \"coverage\": {\n";
            o << "  \"evaluations\": " << tot.evals
              << ",\n  \"distinct_nontrivial\": "
              << std::max(tot.states, tot.outcomes)
              << ",\n  \"executions\": " << tot.paths
              << ",\n  \"states\": " << (tot.states != 0 ? tot.states : tot.outcomes)
              << ",\n  \"transitions\": " << tot.trans
              << ",\n  \"traces_validated_against_impl\": " << tot.paths
              << ",\n  \"steps_compared_with_reference\": " << tot.agreed
              << ",\n  \"distinct_outcomes\": " << tot.outcomes
              << ",\n  \"exhaustive\": "
              << (tot.capped ? "false" : "true") << ",\n  \"rule\": \""
              << esc(rule) << "\",\n  \"scenarios\": [\n";
            bool first = true;
            for(auto& s : scenarios) {
                auto it = per.find(s.name);
                if(it == per.end()) {
                    continue;
                }
                auto& q = it->second;
                o << (first ? "" : ",\n") << "   {\"name\": \"" << esc(s.name)
                  << "\", \"bounds\": \"" << esc(s.bounds)
                  << "\", \"deviation_bound\": " << s.bound
                  << ", \"executions\": " << q.paths
                  << ", \"evaluations\": " << q.evals
                  << ", \"states\": " << q.states
                  << ", \"transitions\": " << q.trans
                  << ", \"distinct_outcomes\": " << q.outcomes
                  << ", \"capped_by_time\": " << (q.capped ? "true" : "false")
                  << "}";
                first = false;
            }
            o << "\n  ],\n  \"stats\": {";
            first = true;
            for(auto& [k, v] : tot.stats) {
                o << (first ? "" : ", ") << "\"" << esc(k) << "\": " << v;
                first = false;
            }
            o << "},\n  \"samples\": [\n";
            first = true;
            for(auto& [n, q] : per) {
                o << (first ? "" : ",\n") << "   \"" << esc(n + ": " + q.sample)
                  << "\"";
                first = false;
            }
            o << "\n  ]\n },\n \"assumptions\": [";
            first = true;
            for(auto& a : assumptions) {
                o << (first ? "" : ", ") << "\"" << esc(a) << "\"";
                first = false;
            }
            o << "],\n \"wall_s\": " << now() - t0
              << ",\n \"violations\": " << vn << "\n}\n";
        }
        rename((evidence_file + ".tmp").c_str(), evidence_file.c_str());
        for(auto& [n, q] : per) {
            printf("  %-40s paths=%llu states=%llu transitions=%llu "
                   "outcomes=%llu%s\n",
                   n.c_str(),
                   static_cast<unsigned long long>(q.paths),
                   static_cast<unsigned long long>(q.states),
                   static_cast<unsigned long long>(q.trans),
                   static_cast<unsigned long long>(q.outcomes),
                   q.capped ? " (capped by time)" : "");
        }
        if(violation) {
            printf("VIOLATION property=%s replay=%s\n",
                   property,
                   viol_path.c_str());
            return 1;
        }
        printf("OK property=%s executions=%llu wall=%.1fs\n",
               property,
               static_cast<unsigned long long>(tot.paths),
               now() - t0);
        return 0;
    }
}
