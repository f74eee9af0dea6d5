// Explicit-state / stateless exploration driver.
//
// A scenario is a function that builds fresh real objects, asks the explorer
// for every nondeterministic decision (choose) and checks an oracle. The
// explorer enumerates *all* decision sequences depth first, within the bounds
// the scenario itself states (number of operations, cost of deviations).
// visit() cuts a path whose canonical state was reached before with at least
// as many steps left.
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace mc {
    bool thorough();

    struct point {
        uint32_t n{};      // alternatives
        uint32_t cur{};    // alternative taken
        uint32_t cost{};   // cost of alternatives other than 0
        std::string what;  // label, for reports (kept only when replaying)
    };

    // A work item is everything after one first non-default choice.
    constexpr uint32_t by_deviation = 0xffffffffU;

    class ctx {
      public:
        // One of 0..n-1. Alternatives other than 0 cost `cost` deviations.
        uint32_t choose(uint32_t n, const char* what = "", uint32_t cost = 0);
        bool flip(const char* what = "", uint32_t cost = 0) {
            return choose(2, what, cost) == 1;
        }
        // Canonical state `key` reached with `left` steps to go. false: already
        // explored from here with at least as many, stop this path.
        bool visit(const std::string& key, uint32_t left);
        // Note for the human reader (trace of the current path).
        void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
        // Property violated on this path. `key` identifies the failure for
        // the known-findings file. Returns after recording; the scenario
        // should return at once.
        void fail(const std::string& key, const char* fmt, ...)
            __attribute__((format(printf, 3, 4)));
        bool failed() const {
            return m_failed;
        }
        // Observable outcome of a complete path (distinct ones are counted).
        void outcome(const std::string& s);
        // Counts one evaluated case (defaults to one per path).
        void count(uint64_t n = 1) {
            m_evals += n;
        }
        // Steps at which the model/reference and the implementation agreed.
        void agreed(uint64_t n = 1) {
            m_agreed += n;
        }
        // Still on the prefix shared with an earlier path: visit() would
        // answer true, its key need not be computed.
        bool prefix() const {
            return m_pos < m_fixed || m_replay;
        }
        bool replaying() const {
            return m_replay;
        }
        // Total deviation cost used so far on this path.
        uint32_t used() const {
            return m_cost;
        }
        uint32_t bound() const {
            return m_bound;
        }
        size_t position() const {
            return m_pos;
        }

        // --- explorer side ---
        std::vector<point> m_pts;
        size_t m_pos{};
        size_t m_fixed{}; // prefix replayed on this run
        uint32_t m_cost{};
        uint32_t m_bound{};
        bool m_failed{};
        bool m_replay{};
        bool m_diverged{};
        std::string m_fail_key, m_fail_msg;
        std::string m_notes;
        bool m_keep_notes{};
        // partition of the search among processes (workers > 1)
        bool m_shared{};    // seen states and claims are shared
        size_t m_split{};   // choices that make up a work item
        [[nodiscard]] size_t item_size(size_t n) const;
        uint32_t m_worker{};
        int m_mine{-1};     // this path's work item: ours? (-1 not asked)
        uint64_t m_new{};   // states this process recorded
        bool claim();       // asks, once per path
        uint64_t m_evals{}, m_agreed{}, m_paths{}, m_trans{}, m_cut{};
        std::unordered_map<uint64_t, uint32_t> m_seen;
        std::set<std::string> m_outcomes;
        std::string m_first_outcome;
        uint64_t m_outcomes_total{};
    };

    using body = std::function<void(ctx&)>;

    struct scenario {
        std::string name;
        body fn;
        uint32_t bound{0};       // deviation bound (costs)
        uint32_t workers{1};     // parallel partitions
        uint32_t split{2};       // depth at which work is partitioned, or
                                 // by_deviation
        std::string bounds;      // text for the evidence file
    };

    // Registers scenarios and runs the check. `level` is the MANIFEST level.
    int main(int argc,
             char** argv,
             const char* property,
             const char* level,
             const char* rule,
             const std::vector<std::string>& assumptions,
             const std::vector<scenario>& scenarios);

    // Free-form counters added to the evidence file.
    void stat(const std::string& name, uint64_t add);

    inline uint64_t fnv(const std::string& s) {
        uint64_t h = 1469598103934665603ULL;
        for(unsigned char c : s) {
            h ^= c;
            h *= 1099511628211ULL;
        }
        h ^= h >> 32;
        h *= 0xd6e8feb86659fd93ULL;
        h ^= h >> 32;
        return h;
    }
    std::string scratch(); // per-process scratch directory, removed at exit
    std::string strf(const char* fmt, ...)
        __attribute__((format(printf, 1, 2)));
}
#endif
