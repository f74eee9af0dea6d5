// In-memory TCP: sockets, pipes and select for fibers of the controlled
// scheduler. Descriptors are reused lowest first, like the kernel does.
#ifndef VERIF_SIMNET_HPP
#define VERIF_SIMNET_HPP
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

namespace simnet {
    struct options {
        // how many bytes one read/write may move: 0 everything possible,
        // 1 everything | 1 byte | all but 1, 2 every amount
        int fragment_read{0};
        int fragment_write{0};
        uint32_t frag_cost{0};
        bool fail_read{false};  // any read may fail (ECONNRESET)
        bool fail_write{false}; // any write may fail, or end short
        uint32_t fail_cost{1};
        size_t capacity{size_t(-1)}; // bytes buffered per direction
        bool accept_fail{false};
        uint32_t backlog_fail_cost{1};
    };
    // Starts a fresh network for this execution.
    void reset(const options& o);
    // Everything written to connections towards/from `port` so far.
    // Cuts every established connection to/from `port` (both ends see EOF or
    // reset, buffered bytes are lost if `drop`).
    void sever(uint16_t port, bool drop);
    // Refuse connections to the port from now on (or accept again).
    void refuse(uint16_t port, bool yes);
    size_t open_fds();
    bool listening(uint16_t port);
    // raw client/server endpoints for harness code
    int raw_connect(uint16_t port);                 // -1 when refused
    // queue bytes as if written by `fd`; no scheduling point
    bool raw_write(int fd, const std::vector<uint8_t>& data);
    std::vector<uint8_t> raw_drain(int fd);         // what is readable now
    void raw_close(int fd);
    // Scripted descriptor: a connected socket whose incoming bytes are
    // `data` followed by end of stream.
    int scripted(const std::vector<uint8_t>& data);
    std::vector<uint8_t> sent_on(int fd);           // bytes written to it
    // The next connections to `port` find such a scripted endpoint there.
    void script(uint16_t port, const std::vector<uint8_t>& data);
    std::vector<uint8_t> script_sent(uint16_t port); // by the last of them
}
#endif
