// Records every file-system mutation below a directory (by interposing the C
// library), so that the state after a crash at any point, torn writes
// included, can be rebuilt. Also makes chosen writes fail.
#ifndef VERIF_RECFS_HPP
#define VERIF_RECFS_HPP
#include <cstdint>
#include <map>
#include <string>
#include <vector>

namespace recfs {
    struct op {
        enum kind { create, truncate, write, rename, unlink, mkdir, rmdir, sync };
        kind k{};
        std::string a, b;   // relative paths
        uint64_t off{};     // write offset / new length
        std::string data;
    };
    using image = std::map<std::string, std::string>; // path -> content;
                                                      // "dir/" for directories
    void start(const std::string& dir);
    std::vector<op> stop();
    const image& base(); // contents when recording started
    // Contents after the first n operations; of operation n (if it is a
    // write and torn > 0) the first `torn` bytes.
    image after(const std::vector<op>& ops, size_t n, size_t torn);
    // As after(n, 0), but writes to a file after its last sync are lost.
    image after_power_loss(const std::vector<op>& ops, size_t n);
    // Operations recorded so far.
    size_t recorded();
    image read_dir(const std::string& dir);
    void write_dir(const std::string& dir, const image& i);
    // Crash points: (n, torn) for every prefix, and for every write also with
    // 1 byte, half, and all but one byte done.
    std::vector<std::pair<size_t, size_t>> points(const std::vector<op>& ops);
    // The write calls numbered `nth`.. (from 0) below the recorded directory
    // fail with ENOSPC. -1: none.
    void fail_writes_from(long nth);
    size_t writes();
    void remove_dir(const std::string& dir); // only below the scratch folder
}
#endif
