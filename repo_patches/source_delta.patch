From 7c6871523b4680c7e975771b6be66d6b9176494f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:42 +0000
Subject: [PATCH 01/72] fix: do not report aborted transactions as completed in
 locking shard

---
 src/uhs/twophase/locking_shard/locking_shard.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uhs/twophase/locking_shard/locking_shard.cpp b/src/uhs/twophase/locking_shard/locking_shard.cpp
index 92a325f..6b651ee 100644
--- a/src/uhs/twophase/locking_shard/locking_shard.cpp
+++ b/src/uhs/twophase/locking_shard/locking_shard.cpp
@@ -157,7 +157,7 @@ namespace cbdc::locking_shard {
         }
         for(size_t i{0}; i < dtx.size(); i++) {
             auto&& tx = dtx[i];
-            if(hash_in_shard_range(tx.m_tx.m_id)) {
+            if(complete_txs[i] && hash_in_shard_range(tx.m_tx.m_id)) {
                 m_completed_txs.add(tx.m_tx.m_id);
             }
 
-- 
2.43.0


From 91b3b16c25c1cc62216583ca53896b974c30447d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:42 +0000
Subject: [PATCH 02/72] fix: locking shard releases only locks held by the
 applied dtx

---
 src/uhs/twophase/locking_shard/locking_shard.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/uhs/twophase/locking_shard/locking_shard.cpp b/src/uhs/twophase/locking_shard/locking_shard.cpp
index 6b651ee..6801296 100644
--- a/src/uhs/twophase/locking_shard/locking_shard.cpp
+++ b/src/uhs/twophase/locking_shard/locking_shard.cpp
@@ -147,6 +147,7 @@ namespace cbdc::locking_shard {
             return true;
         }
         auto& dtx = prepared_dtx_it->second.m_txs;
+        const auto& was_prepared = prepared_dtx_it->second.m_results;
         if(complete_txs.size() != dtx.size()) {
             // This would only happen due to a bug in the controller
             m_logger->fatal("Incorrect number of complete tx flags for apply",
@@ -167,7 +168,9 @@ namespace cbdc::locking_shard {
                 }
             }
             for(auto&& uhs_id : tx.m_tx.m_inputs) {
-                if(hash_in_shard_range(uhs_id)) {
+                // Only release locks this dtx obtained. A TX which failed to
+                // lock may share inputs with another dtx holding the lock.
+                if(was_prepared[i] && hash_in_shard_range(uhs_id)) {
                     auto was_locked = m_locked.erase(uhs_id);
                     if(!complete_txs[i] && (was_locked != 0U)) {
                         m_uhs.emplace(uhs_id);
-- 
2.43.0


From d52072e9194508e71401fef40aff32991e5b5bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:42 +0000
Subject: [PATCH 03/72] fix: cache_set keeps its configured number of elements

---
 src/util/common/cache_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/common/cache_set.hpp b/src/util/common/cache_set.hpp
index 51ef4b2..338486b 100644
--- a/src/util/common/cache_set.hpp
+++ b/src/util/common/cache_set.hpp
@@ -40,7 +40,7 @@ namespace cbdc {
             auto added = m_vals.emplace(std::forward<T>(val));
             if(added.second) {
                 m_eviction_queue.push(std::ref(*added.first));
-                if(m_eviction_queue.size() >= m_max_size) {
+                if(m_eviction_queue.size() > m_max_size) {
                     auto& v = m_eviction_queue.front();
                     m_vals.erase(v);
                     m_eviction_queue.pop();
-- 
2.43.0


From 877ec862c36ad0213adfd93aeac980dc00015e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:59 +0000
Subject: [PATCH 04/72] fix: blocking_queue keeps consumers unblocked between
 clear and reset

---
 src/util/common/blocking_queue.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/util/common/blocking_queue.hpp b/src/util/common/blocking_queue.hpp
index 6d3fc6c..671c386 100644
--- a/src/util/common/blocking_queue.hpp
+++ b/src/util/common/blocking_queue.hpp
@@ -42,7 +42,6 @@ namespace cbdc {
             auto sz = [&]() {
                 std::unique_lock<std::mutex> lck(m_mut);
                 m_buffer.push(item);
-                m_wake = true;
                 return m_buffer.size();
             }();
             m_cv.notify_one();
@@ -59,18 +58,15 @@ namespace cbdc {
         [[nodiscard]] auto pop(T& item) -> bool {
             {
                 std::unique_lock<std::mutex> lck(m_mut);
-                if(m_buffer.empty()) {
-                    m_cv.wait(lck, [&] {
-                        return m_wake;
-                    });
-                }
+                m_cv.wait(lck, [&] {
+                    return m_wake || !m_buffer.empty();
+                });
 
                 bool popped{false};
                 if(!m_buffer.empty()) {
                     item = std::move(first_item<T, Q>());
                     m_buffer.pop();
                     popped = true;
-                    m_wake = !m_buffer.empty();
                 }
 
                 return popped;
-- 
2.43.0


From 965a4a4dbe6d8f7e7f76c4fc2109edfd141eff41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 05/72] fix: thread_pool runs queued tasks before shutting down

---
 src/util/common/thread_pool.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/util/common/thread_pool.cpp b/src/util/common/thread_pool.cpp
index 7b4b899..2394c5c 100644
--- a/src/util/common/thread_pool.cpp
+++ b/src/util/common/thread_pool.cpp
@@ -9,7 +9,9 @@ namespace cbdc {
     thread_pool::~thread_pool() {
         std::unique_lock l(m_mut);
         for(auto& t : m_threads) {
-            t->m_queue.clear();
+            // An empty function ends the thread once it has run the task it
+            // may still have queued
+            t->m_queue.push(nullptr);
             if(t->m_thread.joinable()) {
                 t->m_thread.join();
             }
@@ -44,7 +46,7 @@ namespace cbdc {
 
     void thread_pool::thread_loop(const std::shared_ptr<thread_type>& thr) {
         auto f = std::function<void()>();
-        while(thr->m_queue.pop(f)) {
+        while(thr->m_queue.pop(f) && f) {
             f();
             thr->m_running = false;
         }
-- 
2.43.0


From b5c84393fe633a705c90e0357a1d7b6581a91214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:16 +0000
Subject: [PATCH 06/72] fix: do not allocate the announced message size up
 front in tcp_socket::receive

---
 src/util/network/tcp_socket.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/util/network/tcp_socket.cpp b/src/util/network/tcp_socket.cpp
index 35fbd7c..d30ef74 100644
--- a/src/util/network/tcp_socket.cpp
+++ b/src/util/network/tcp_socket.cpp
@@ -5,6 +5,7 @@
 
 #include "tcp_socket.hpp"
 
+#include <algorithm>
 #include <array>
 #include <cstring>
 #include <unistd.h>
@@ -105,9 +106,12 @@ namespace cbdc::network {
         pkt.clear();
 
         total_read = 0;
-        auto buf = std::vector<std::byte>(pkt_sz);
+        // The size comes from the peer, so don't allocate it all up front
+        static constexpr uint64_t max_read_sz = 64 * 1024;
+        auto buf = std::vector<std::byte>(std::min(pkt_sz, max_read_sz));
         while(total_read < pkt_sz) {
-            const auto buf_sz = pkt_sz - total_read;
+            const auto buf_sz
+                = std::min(pkt_sz - total_read, max_read_sz);
             auto n = read(m_sock_fd, buf.data(), buf_sz);
             if(n <= 0) {
                 return false;
-- 
2.43.0


From 798dd4ffc966a9203404db65061d9068438a79b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 07/72] fix: peer releases its socket only after its threads
 have stopped

---
 src/util/network/peer.cpp       | 4 +++-
 src/util/network/tcp_socket.cpp | 7 +++++++
 src/util/network/tcp_socket.hpp | 5 +++++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/util/network/peer.cpp b/src/util/network/peer.cpp
index e2c477d..6bf3abc 100644
--- a/src/util/network/peer.cpp
+++ b/src/util/network/peer.cpp
@@ -117,7 +117,7 @@ namespace cbdc::network {
 
     void peer::close() {
         m_running = false;
-        m_sock->disconnect();
+        m_sock->interrupt();
         m_send_queue.clear();
         if(m_send_thread.joinable()) {
             m_send_thread.join();
@@ -125,6 +125,8 @@ namespace cbdc::network {
         if(m_recv_thread.joinable()) {
             m_recv_thread.join();
         }
+        // Only release the socket now that no thread can be using it
+        m_sock->disconnect();
         m_send_queue.reset();
     }
 
diff --git a/src/util/network/tcp_socket.cpp b/src/util/network/tcp_socket.cpp
index d30ef74..fff5e45 100644
--- a/src/util/network/tcp_socket.cpp
+++ b/src/util/network/tcp_socket.cpp
@@ -45,6 +45,13 @@ namespace cbdc::network {
         return m_connected;
     }
 
+    void tcp_socket::interrupt() {
+        m_connected = false;
+        if(m_sock_fd != -1) {
+            shutdown(m_sock_fd, SHUT_RDWR);
+        }
+    }
+
     void tcp_socket::disconnect() {
         if(m_sock_fd != -1) {
             m_connected = false;
diff --git a/src/util/network/tcp_socket.hpp b/src/util/network/tcp_socket.hpp
index c9969ce..aef77fd 100644
--- a/src/util/network/tcp_socket.hpp
+++ b/src/util/network/tcp_socket.hpp
@@ -71,6 +71,11 @@ namespace cbdc::network {
         /// any blocking calls to this socket.
         void disconnect();
 
+        /// Shuts the connection down without releasing the socket, so that
+        /// threads blocked in \ref send or \ref receive return. Call
+        /// \ref disconnect once no other thread uses the socket.
+        void interrupt();
+
         /// Reconnects to the previously connected endpoint. If connect was
         /// never called before, returns an error. Disconnects any previous
         /// endpoint before re-connecting.
-- 
2.43.0


From 456f08880925cfff8b75f2b677a6ab58c7791184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:36 +0000
Subject: [PATCH 08/72] fix: make the socket descriptor atomic

---
 src/util/network/socket.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/network/socket.hpp b/src/util/network/socket.hpp
index 6cbfc1b..6d9acf6 100644
--- a/src/util/network/socket.hpp
+++ b/src/util/network/socket.hpp
@@ -6,6 +6,7 @@
 #ifndef OPENCBDC_TX_SRC_NETWORK_SOCKET_H_
 #define OPENCBDC_TX_SRC_NETWORK_SOCKET_H_
 
+#include <atomic>
 #include <memory>
 #include <netdb.h>
 #include <string>
@@ -40,7 +41,7 @@ namespace cbdc::network {
       private:
         socket();
 
-        int m_sock_fd{-1};
+        std::atomic<int> m_sock_fd{-1};
 
         friend class tcp_socket;
         friend class tcp_listener;
-- 
2.43.0


From 376e334fed65a724a34cd205573dc5d500d08497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:52 +0000
Subject: [PATCH 09/72] fix: do not lose the reconnect thread's wakeup in
 peer::shutdown

---
 src/util/network/peer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/util/network/peer.cpp b/src/util/network/peer.cpp
index 6bf3abc..905265e 100644
--- a/src/util/network/peer.cpp
+++ b/src/util/network/peer.cpp
@@ -31,7 +31,11 @@ namespace cbdc::network {
     }
 
     void peer::shutdown() {
-        m_shut_down = true;
+        {
+            // Without the lock the reconnect thread could miss the wakeup
+            std::lock_guard<std::mutex> l(m_reconnect_mut);
+            m_shut_down = true;
+        }
         m_reconnect_cv.notify_one();
         if(m_reconnect_thread.joinable()) {
             m_reconnect_thread.join();
-- 
2.43.0


From efa278821b9e589e7468016822ddf1d8760a4d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:17 +0000
Subject: [PATCH 10/72] fix: do not lose the message handler's wakeup in
 connection_manager::close

---
 src/util/network/connection_manager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/util/network/connection_manager.cpp b/src/util/network/connection_manager.cpp
index 2a2f457..cdedd10 100644
--- a/src/util/network/connection_manager.cpp
+++ b/src/util/network/connection_manager.cpp
@@ -195,6 +195,11 @@ namespace cbdc::network {
             std::unique_lock<std::shared_mutex> l(m_peer_mutex);
             m_peers.clear();
         }
+        {
+            // Waits for a handler that is between checking m_running and
+            // blocking, it would miss the notification
+            std::lock_guard<std::mutex> l(m_async_recv_mut);
+        }
         m_async_recv_cv.notify_all();
     }
 
-- 
2.43.0


From de867686480751a1fc48acc3a99cf63293a30fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:51 +0000
Subject: [PATCH 11/72] fix: serialize random peer selection in
 connection_manager::send_to_one

---
 src/util/network/connection_manager.cpp | 6 +++++-
 src/util/network/connection_manager.hpp | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/util/network/connection_manager.cpp b/src/util/network/connection_manager.cpp
index cdedd10..b7f1409 100644
--- a/src/util/network/connection_manager.cpp
+++ b/src/util/network/connection_manager.cpp
@@ -247,7 +247,11 @@ namespace cbdc::network {
             // across connections
             auto dist
                 = std::uniform_int_distribution<size_t>(0, m_peers.size() - 1);
-            auto offset = dist(m_rnd);
+            const auto offset = [&]() {
+                // Concurrent senders only share m_peer_mutex
+                std::lock_guard<std::mutex> ll(m_rnd_mut);
+                return dist(m_rnd);
+            }();
             for(size_t i = 0; i < m_peers.size(); i++) {
                 auto idx = (i + offset) % m_peers.size();
                 const auto& p = m_peers[idx];
diff --git a/src/util/network/connection_manager.hpp b/src/util/network/connection_manager.hpp
index d3b373f..1ef5085 100644
--- a/src/util/network/connection_manager.hpp
+++ b/src/util/network/connection_manager.hpp
@@ -233,6 +233,7 @@ namespace cbdc::network {
 
         std::random_device m_r{cbdc::config::random_source};
         std::default_random_engine m_rnd{m_r()};
+        std::mutex m_rnd_mut;
     };
 }
 
-- 
2.43.0


From b5a35e8af9d0d294097b9c3304eb5583fc4a3914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:49 +0000
Subject: [PATCH 12/72] fix: keep the newer of two watchtower errors for one ID
 when the older is evicted

---
 src/uhs/atomizer/watchtower/error_cache.cpp | 22 ++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/uhs/atomizer/watchtower/error_cache.cpp b/src/uhs/atomizer/watchtower/error_cache.cpp
index 624842e..6a9f380 100644
--- a/src/uhs/atomizer/watchtower/error_cache.cpp
+++ b/src/uhs/atomizer/watchtower/error_cache.cpp
@@ -16,20 +16,28 @@ namespace cbdc::watchtower {
     void error_cache::push_errors(std::vector<tx_error>&& errs) {
         for(auto&& err : errs) {
             if((m_k_errs != 0) && (m_errs.size() == m_k_errs)) {
-                auto& old_err = m_errs.front();
-                m_tx_id_errs.erase(old_err->tx_id());
+                auto old_err = m_errs.front();
+                // The index may already refer to a more recent error for the
+                // same ID, which must outlive the one being evicted.
+                auto evict = [&](auto& index, const hash_t& id) {
+                    auto it = index.find(id);
+                    if(it != index.end() && it->second == old_err) {
+                        index.erase(it);
+                    }
+                };
+                evict(m_tx_id_errs, old_err->tx_id());
 
                 std::visit(overloaded{
                                [](const tx_error_sync& /* unused */) {},
                                [&](const tx_error_inputs_dne& arg) {
                                    for(auto& uhs_id : arg.input_uhs_ids()) {
-                                       m_uhs_errs.erase(uhs_id);
+                                       evict(m_uhs_errs, uhs_id);
                                    }
                                },
                                [&](const tx_error_inputs_spent& arg) {
                                    for(const auto& uhs_id :
                                        arg.input_uhs_ids()) {
-                                       m_uhs_errs.erase(uhs_id);
+                                       evict(m_uhs_errs, uhs_id);
                                    }
                                },
                                [](const tx_error_stxo_range& /* unused */) {},
@@ -42,17 +50,17 @@ namespace cbdc::watchtower {
 
             auto new_err = std::make_shared<tx_error>(std::move(err));
             m_errs.push(new_err);
-            m_tx_id_errs.insert({new_err->tx_id(), new_err});
+            m_tx_id_errs.insert_or_assign(new_err->tx_id(), new_err);
             std::visit(overloaded{
                            [](const tx_error_sync& /* unused */) {},
                            [&](const tx_error_inputs_dne& arg) {
                                for(auto& uhs_id : arg.input_uhs_ids()) {
-                                   m_uhs_errs.insert({uhs_id, new_err});
+                                   m_uhs_errs.insert_or_assign(uhs_id, new_err);
                                }
                            },
                            [&](const tx_error_inputs_spent& arg) {
                                for(const auto& uhs_id : arg.input_uhs_ids()) {
-                                   m_uhs_errs.insert({uhs_id, new_err});
+                                   m_uhs_errs.insert_or_assign(uhs_id, new_err);
                                }
                            },
                            [](const tx_error_stxo_range& /* unused */) {},
-- 
2.43.0


From c49e0423a13d1842d958b77b34498ec68ec71776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:20 +0000
Subject: [PATCH 13/72] fix: report one watchtower status per UHS ID when an
 error precedes the block

---
 src/uhs/atomizer/watchtower/watchtower.cpp | 41 +++++++++++-----------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/uhs/atomizer/watchtower/watchtower.cpp b/src/uhs/atomizer/watchtower/watchtower.cpp
index 06a12af..ded5dfe 100644
--- a/src/uhs/atomizer/watchtower/watchtower.cpp
+++ b/src/uhs/atomizer/watchtower/watchtower.cpp
@@ -67,26 +67,6 @@ namespace cbdc::watchtower {
         states.reserve(uhs_ids.size());
         for(const auto& uhs_id : uhs_ids) {
             auto found_status = false;
-            if(internal_err) {
-                states.emplace_back(
-                    status_update_state{search_status::internal_error,
-                                        best_height,
-                                        uhs_id});
-                found_status = true;
-            } else if(tx_err) {
-                if(auto uhs_err = m_ec.check_uhs_id(uhs_id)) {
-                    states.emplace_back(
-                        status_update_state{search_status::invalid_input,
-                                            best_height,
-                                            uhs_id});
-                } else {
-                    states.emplace_back(
-                        status_update_state{search_status::tx_rejected,
-                                            best_height,
-                                            uhs_id});
-                }
-                found_status = true;
-            }
             if(auto spent = m_bc.check_spent(uhs_id)) {
                 auto [height, s_tx_id] = spent.value();
                 if(s_tx_id == tx_id) {
@@ -106,6 +86,27 @@ namespace cbdc::watchtower {
                     found_status = true;
                 }
             }
+            // An error is stale once the transaction is in a block.
+            if(!found_status && internal_err) {
+                states.emplace_back(
+                    status_update_state{search_status::internal_error,
+                                        best_height,
+                                        uhs_id});
+                found_status = true;
+            } else if(!found_status && tx_err) {
+                if(auto uhs_err = m_ec.check_uhs_id(uhs_id)) {
+                    states.emplace_back(
+                        status_update_state{search_status::invalid_input,
+                                            best_height,
+                                            uhs_id});
+                } else {
+                    states.emplace_back(
+                        status_update_state{search_status::tx_rejected,
+                                            best_height,
+                                            uhs_id});
+                }
+                found_status = true;
+            }
             if(!found_status) {
                 states.emplace_back(
                     status_update_state{search_status::no_history,
-- 
2.43.0


From 2a1bf2d5dca4196c7ae213230ef626303e400952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 14/72] fix: bound the atomizer's spent-history scan for
 transactions without inputs

---
 src/uhs/atomizer/atomizer/atomizer.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/uhs/atomizer/atomizer/atomizer.cpp b/src/uhs/atomizer/atomizer/atomizer.cpp
index cc83610..a240b4e 100644
--- a/src/uhs/atomizer/atomizer/atomizer.cpp
+++ b/src/uhs/atomizer/atomizer/atomizer.cpp
@@ -45,13 +45,16 @@ namespace cbdc::atomizer {
                           transaction::compact_tx tx,
                           std::unordered_set<uint32_t> attestations)
         -> std::optional<cbdc::watchtower::tx_error> {
-        const auto height_offset = get_notification_offset(block_height);
+        auto height_offset = get_notification_offset(block_height);
 
         auto offset_err = check_notification_offset(height_offset, tx);
         if(offset_err) {
             return offset_err;
         }
 
+        // Transactions without inputs pass the check at any height.
+        height_offset = std::min<uint64_t>(height_offset, m_spent_cache_depth);
+
         // Search the incomplete transactions vector for this notification's
         // block height offset. Note, we might be able to defer this insertion
         // until after we've checked if the transaction is complete.
@@ -141,7 +144,9 @@ namespace cbdc::atomizer {
             return offset_err;
         }
 
-        auto cache_check_range = height_offset;
+        // Transactions without inputs pass the check at any height.
+        auto cache_check_range
+            = std::min<uint64_t>(height_offset, m_spent_cache_depth);
 
         auto err_set = check_stxo_cache(tx, cache_check_range);
         if(err_set) {
-- 
2.43.0


From 9fcf728fd543dfbcdc0aa761dcfcfbd9c0a90935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:26 +0000
Subject: [PATCH 15/72] fix: count attestations at height zero when computing
 the oldest attestation

---
 src/uhs/atomizer/atomizer/atomizer_raft.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/uhs/atomizer/atomizer/atomizer_raft.cpp b/src/uhs/atomizer/atomizer/atomizer_raft.cpp
index 24681f2..20e0976 100644
--- a/src/uhs/atomizer/atomizer/atomizer_raft.cpp
+++ b/src/uhs/atomizer/atomizer/atomizer_raft.cpp
@@ -105,13 +105,14 @@ namespace cbdc::atomizer {
         auto& tx = maybe_tx.value();
         auto agg = aggregate_tx_notification();
         agg.m_tx = std::move(tx.key());
-        uint64_t oldest{0};
+        // Height zero is a valid attestation height.
+        auto oldest = std::optional<uint64_t>();
         for(const auto& att : tx.mapped()) {
-            if(oldest == 0 || att.second < oldest) {
+            if(!oldest.has_value() || att.second < oldest.value()) {
                 oldest = att.second;
             }
         }
-        agg.m_oldest_attestation = oldest;
+        agg.m_oldest_attestation = oldest.value_or(0);
 
         {
             std::lock_guard<std::mutex> l(m_complete_mut);
-- 
2.43.0


From d794c3a74541195b1ca50c78161a82be09160fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:06 +0000
Subject: [PATCH 16/72] fix: do not replace an atomizer snapshot with one that
 could not be flushed

---
 src/uhs/atomizer/atomizer/state_machine.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/uhs/atomizer/atomizer/state_machine.cpp b/src/uhs/atomizer/atomizer/state_machine.cpp
index 6ebc000..2f21fa1 100644
--- a/src/uhs/atomizer/atomizer/state_machine.cpp
+++ b/src/uhs/atomizer/atomizer/state_machine.cpp
@@ -174,6 +174,10 @@ namespace cbdc::atomizer {
 
             ss.flush();
             ss.close();
+            if(!ss.good()) {
+                // Don't replace a good snapshot with an incomplete one
+                std::exit(EXIT_FAILURE);
+            }
 
             auto path = get_snapshot_path(s.get_last_log_idx());
             auto err = std::error_code();
@@ -240,6 +244,10 @@ namespace cbdc::atomizer {
 
             ss.flush();
             ss.close();
+            if(!ss.good()) {
+                // Don't replace a good snapshot with an incomplete one
+                std::exit(EXIT_FAILURE);
+            }
 
             auto err = std::error_code();
             std::filesystem::rename(tmp_path, path, err);
-- 
2.43.0


From 8b78f76b56021ccaa5080540277a559f48edf903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:18 +0000
Subject: [PATCH 17/72] fix: shard does not advance its height past a block it
 could not store

---
 src/uhs/atomizer/shard/shard.cpp | 9 ++++++---
 src/uhs/atomizer/shard/shard.hpp | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/uhs/atomizer/shard/shard.cpp b/src/uhs/atomizer/shard/shard.cpp
index c328acf..13c88a7 100644
--- a/src/uhs/atomizer/shard/shard.cpp
+++ b/src/uhs/atomizer/shard/shard.cpp
@@ -85,18 +85,21 @@ namespace cbdc::shard {
         }
 
         // Bump the best block height
-        this->m_best_block_height++;
         std::array<char, sizeof(m_best_block_height)> height_arr{};
         std::memcpy(height_arr.data(),
-                    &m_best_block_height,
+                    &blk.m_height,
                     sizeof(m_best_block_height));
         leveldb::Slice newBestBlockHeight(height_arr.data(),
                                           sizeof(this->m_best_block_height));
         batch.Put(m_best_block_height_key, newBestBlockHeight);
 
         // Commit the changes atomically
-        this->m_db->Write(this->m_write_options, &batch);
+        const auto res = this->m_db->Write(this->m_write_options, &batch);
+        if(!res.ok()) {
+            return false;
+        }
 
+        this->m_best_block_height = blk.m_height;
         update_snapshot();
 
         return true;
diff --git a/src/uhs/atomizer/shard/shard.hpp b/src/uhs/atomizer/shard/shard.hpp
index 19ad733..5a8f1cd 100644
--- a/src/uhs/atomizer/shard/shard.hpp
+++ b/src/uhs/atomizer/shard/shard.hpp
@@ -58,7 +58,7 @@ namespace cbdc::shard {
         /// whose block height is one greater than the previous best block
         /// height; rejects non-contiguous blocks.
         /// \param blk the block to digest.
-        /// \return true if the shard successfully digested the block. False if the block height is not contiguous.
+        /// \return true if the shard successfully digested the block. False if the block height is not contiguous, or the block could not be stored.
         auto digest_block(const cbdc::atomizer::block& blk) -> bool;
 
         /// Returns the height of the most recently digested block.
-- 
2.43.0


From ae43f87b9d90cf08c74451603b041d7adb70b6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:00 +0000
Subject: [PATCH 18/72] fix: make the shard's best block height atomic

---
 src/uhs/atomizer/shard/shard.cpp | 31 +++++++++++++------------------
 src/uhs/atomizer/shard/shard.hpp |  2 +-
 2 files changed, 14 insertions(+), 19 deletions(-)

diff --git a/src/uhs/atomizer/shard/shard.cpp b/src/uhs/atomizer/shard/shard.cpp
index 13c88a7..faf8eb7 100644
--- a/src/uhs/atomizer/shard/shard.cpp
+++ b/src/uhs/atomizer/shard/shard.cpp
@@ -30,23 +30,20 @@ namespace cbdc::shard {
                                                   m_best_block_height_key,
                                                   &bestBlockHeight);
         if(bestBlockRes.IsNotFound()) {
-            this->m_best_block_height = 0;
-            std::array<char, sizeof(m_best_block_height)> height_arr{};
-            std::memcpy(height_arr.data(),
-                        &m_best_block_height,
-                        sizeof(m_best_block_height));
-            leveldb::Slice startBestBlockHeight(
-                height_arr.data(),
-                sizeof(this->m_best_block_height));
+            const uint64_t height{0};
+            this->m_best_block_height = height;
+            std::array<char, sizeof(height)> height_arr{};
+            std::memcpy(height_arr.data(), &height, sizeof(height));
+            leveldb::Slice startBestBlockHeight(height_arr.data(),
+                                                sizeof(height));
             this->m_db->Put(this->m_write_options,
                             m_best_block_height_key,
                             startBestBlockHeight);
         } else {
-            assert(bestBlockHeight.size()
-                   == sizeof(this->m_best_block_height));
-            std::memcpy(&this->m_best_block_height,
-                        bestBlockHeight.c_str(),
-                        sizeof(this->m_best_block_height));
+            uint64_t height{};
+            assert(bestBlockHeight.size() == sizeof(height));
+            std::memcpy(&height, bestBlockHeight.c_str(), sizeof(height));
+            this->m_best_block_height = height;
         }
 
         update_snapshot();
@@ -85,12 +82,10 @@ namespace cbdc::shard {
         }
 
         // Bump the best block height
-        std::array<char, sizeof(m_best_block_height)> height_arr{};
-        std::memcpy(height_arr.data(),
-                    &blk.m_height,
-                    sizeof(m_best_block_height));
+        std::array<char, sizeof(blk.m_height)> height_arr{};
+        std::memcpy(height_arr.data(), &blk.m_height, sizeof(blk.m_height));
         leveldb::Slice newBestBlockHeight(height_arr.data(),
-                                          sizeof(this->m_best_block_height));
+                                          sizeof(blk.m_height));
         batch.Put(m_best_block_height_key, newBestBlockHeight);
 
         // Commit the changes atomically
diff --git a/src/uhs/atomizer/shard/shard.hpp b/src/uhs/atomizer/shard/shard.hpp
index 5a8f1cd..97f9409 100644
--- a/src/uhs/atomizer/shard/shard.hpp
+++ b/src/uhs/atomizer/shard/shard.hpp
@@ -75,7 +75,7 @@ namespace cbdc::shard {
         leveldb::ReadOptions m_read_options;
         leveldb::WriteOptions m_write_options;
 
-        uint64_t m_best_block_height{};
+        std::atomic<uint64_t> m_best_block_height{};
 
         std::shared_ptr<const leveldb::Snapshot> m_snp;
         uint64_t m_snp_height{};
-- 
2.43.0


From e66e9957d006237cd4da7e2347fd85f7de52f172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:04 +0000
Subject: [PATCH 19/72] fix: archiver re-requests a missing block when an
 earlier request was lost

---
 src/uhs/atomizer/archiver/controller.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/uhs/atomizer/archiver/controller.cpp b/src/uhs/atomizer/archiver/controller.cpp
index 7fc850c..7522156 100644
--- a/src/uhs/atomizer/archiver/controller.cpp
+++ b/src/uhs/atomizer/archiver/controller.cpp
@@ -197,13 +197,18 @@ namespace cbdc::archiver {
             }
 
             if(blk.m_height != m_best_height + 1) {
-                // Not contiguous, check prev block isn't deferred already
-                auto it = m_deferred.find(blk.m_height - 1);
-                if(it == m_deferred.end()) {
-                    // Request previous block from atomizer cluster
-                    request_block(blk.m_height - 1);
+                // Not contiguous. Unless we have seen this block already,
+                // request the nearest missing predecessor from the atomizer
+                // cluster. An earlier request for it might have been lost.
+                const auto inserted
+                    = m_deferred.emplace(blk.m_height, blk).second;
+                if(inserted) {
+                    auto missing = blk.m_height - 1;
+                    while(m_deferred.find(missing) != m_deferred.end()) {
+                        missing--;
+                    }
+                    request_block(missing);
                 }
-                m_deferred.emplace(blk.m_height, blk);
                 return;
             }
 
-- 
2.43.0


From 59591d565fba5c2d93183bbd41fc777411f3ea48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:09 +0000
Subject: [PATCH 20/72] fix: runtime locking shard refuses to roll back a
 committed ticket

---
 src/parsec/runtime_locking_shard/impl.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parsec/runtime_locking_shard/impl.cpp b/src/parsec/runtime_locking_shard/impl.cpp
index e6e1c67..2423f69 100644
--- a/src/parsec/runtime_locking_shard/impl.cpp
+++ b/src/parsec/runtime_locking_shard/impl.cpp
@@ -369,6 +369,15 @@ namespace cbdc::parsec::runtime_locking_shard {
             }
             auto& ticket = ticket_it->second;
 
+            // The updates of a committed ticket are already visible and
+            // cannot be undone
+            if(ticket.m_state == ticket_state::committed) {
+                m_log->error(this,
+                             ticket_number,
+                             "rollback requested but already committed");
+                return shard_error{error_code::committed, std::nullopt};
+            }
+
             auto [wounded_callbacks, affected_keys]
                 = release_locks(ticket_number, ticket);
             callbacks = acquire_locks(affected_keys);
-- 
2.43.0


From 67c848a84e09778f254cd17769527fa7b1a1c809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:51 +0000
Subject: [PATCH 21/72] fix: broker answers commit and finish of a ticket
 without locks

---
 src/parsec/broker/impl.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/parsec/broker/impl.cpp b/src/parsec/broker/impl.cpp
index 1776796..b3a2b89 100644
--- a/src/parsec/broker/impl.cpp
+++ b/src/parsec/broker/impl.cpp
@@ -377,6 +377,7 @@ namespace cbdc::parsec::broker {
                       state_update_type state_updates,
                       commit_callback_type result_callback) -> bool {
         m_log->trace(this, "Broker got commit request for", ticket_number);
+        auto done = false;
         auto maybe_error = [&]() -> std::optional<error_code> {
             std::unique_lock l(m_mut);
             auto it = m_tickets.find(ticket_number);
@@ -422,6 +423,13 @@ namespace cbdc::parsec::broker {
                 }
             }
 
+            if(t_state->m_shard_states.empty()) {
+                // No shard is involved, so there is no response to wait for
+                t_state->m_state = ticket_state::committed;
+                done = true;
+                return std::nullopt;
+            }
+
             if(t_state->m_state == ticket_state::prepared) {
                 return do_commit(result_callback, ticket_number, t_state);
             }
@@ -437,6 +445,8 @@ namespace cbdc::parsec::broker {
                 "Broker calling commit callback with error from commit for",
                 ticket_number);
             result_callback(maybe_error.value());
+        } else if(done) {
+            result_callback(std::nullopt);
         }
 
         return true;
@@ -524,6 +534,12 @@ namespace cbdc::parsec::broker {
                     return std::nullopt;
             }
 
+            if(t_state->m_shard_states.empty()) {
+                m_tickets.erase(it);
+                done = true;
+                return std::nullopt;
+            }
+
             for(auto& shard : t_state->m_shard_states) {
                 m_log->trace(this,
                              "Broker requesting finish on",
-- 
2.43.0


From 5f312535c4f53044cf25557ff624ba688af4997f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:08 +0000
Subject: [PATCH 22/72] fix: broker forgets the shards' answers after a
 recovery without tickets

---
 src/parsec/broker/impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsec/broker/impl.cpp b/src/parsec/broker/impl.cpp
index b3a2b89..6c477c0 100644
--- a/src/parsec/broker/impl.cpp
+++ b/src/parsec/broker/impl.cpp
@@ -965,11 +965,11 @@ namespace cbdc::parsec::broker {
                                    }
                                }
                            }
+                           m_recovery_tickets.clear();
                            if(m_tickets.empty()) {
                                done = true;
                                return std::nullopt;
                            }
-                           m_recovery_tickets.clear();
                            return do_recovery(result_callback);
                        },
                        [&](const runtime_locking_shard::error_code& /* e */)
-- 
2.43.0


From ddd976c1d538b67e982c81d00305f7af440a7336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:54 +0000
Subject: [PATCH 23/72] fix: broker recovery works with shards that respond
 immediately

---
 src/parsec/broker/impl.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parsec/broker/impl.cpp b/src/parsec/broker/impl.cpp
index 6c477c0..f12d285 100644
--- a/src/parsec/broker/impl.cpp
+++ b/src/parsec/broker/impl.cpp
@@ -288,7 +288,10 @@ namespace cbdc::parsec::broker {
                              ticket_number);
                 break;
             }
-            if(shard.second.m_state == shard_state_type::committed) {
+            // The ticket might have been committed or even finished while
+            // sending a previous request, if shards respond immediately
+            if(shard.second.m_state != shard_state_type::prepared
+               && shard.second.m_state != shard_state_type::committing) {
                 continue;
             }
             shard.second.m_state = shard_state_type::committing;
@@ -988,7 +991,9 @@ namespace cbdc::parsec::broker {
 
     auto impl::do_recovery(const recover_callback_type& result_callback)
         -> std::optional<error_code> {
-        for(auto [ticket_number, ticket] : m_tickets) {
+        // Shards might respond immediately, which removes completed tickets
+        const auto tickets = m_tickets;
+        for(const auto& [ticket_number, ticket] : tickets) {
             size_t committed{};
             for(auto& [sidx, t_state] : ticket->m_shard_states) {
                 switch(t_state.m_state) {
-- 
2.43.0


From a6644bbb017808a991eeb16fdf369ff6f801b740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:12 +0000
Subject: [PATCH 24/72] fix: broker completes rollback, commit and finish
 requests that are repeated after a failed send

---
 src/parsec/broker/impl.cpp | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/parsec/broker/impl.cpp b/src/parsec/broker/impl.cpp
index f12d285..8b00bcf 100644
--- a/src/parsec/broker/impl.cpp
+++ b/src/parsec/broker/impl.cpp
@@ -334,6 +334,12 @@ namespace cbdc::parsec::broker {
                     return error_code::aborted;
             }
 
+            if(tss->m_shard_states[shard_idx].m_state
+               == shard_state_type::committed) {
+                // Response to a repeated request, already handled
+                return std::nullopt;
+            }
+
             if(tss->m_shard_states[shard_idx].m_state
                != shard_state_type::committing) {
                 m_log->error("Commit result when shard not committing");
@@ -690,7 +696,14 @@ namespace cbdc::parsec::broker {
                 case ticket_state::committed:
                     return error_code::committed;
                 case ticket_state::aborted:
-                    return error_code::aborted;
+                    // Response to a repeated request, already handled
+                    return std::nullopt;
+            }
+
+            if(tss->m_shard_states[shard_idx].m_state
+               == shard_state_type::rolled_back) {
+                // Response to a repeated request, already handled
+                return std::nullopt;
             }
 
             if(tss->m_shard_states[shard_idx].m_state
@@ -705,7 +718,11 @@ namespace cbdc::parsec::broker {
                 return error_code::invalid_shard_state;
             }
 
-            if(res.has_value()) {
+            // A shard which does not know the ticket never received a request
+            // for it or already rolled it back
+            if(res.has_value()
+               && res->m_error_code
+                      != runtime_locking_shard::error_code::unknown_ticket) {
                 m_log->error("Shard rollback error");
                 return error_code::rollback_error;
             }
@@ -830,7 +847,8 @@ namespace cbdc::parsec::broker {
             std::unique_lock lll(m_mut);
             auto ittt = m_tickets.find(ticket_number);
             if(ittt == m_tickets.end()) {
-                return error_code::unknown_ticket;
+                // Response to a repeated request, already handled
+                return std::nullopt;
             }
 
             auto tss = ittt->second;
@@ -845,6 +863,12 @@ namespace cbdc::parsec::broker {
                     return error_code::aborted;
             }
 
+            if(tss->m_shard_states[shard_idx].m_state
+               == shard_state_type::finished) {
+                // Response to a repeated request, already handled
+                return std::nullopt;
+            }
+
             if(tss->m_shard_states[shard_idx].m_state
                != shard_state_type::finishing) {
                 m_log->error(
@@ -857,7 +881,10 @@ namespace cbdc::parsec::broker {
                 return error_code::invalid_shard_state;
             }
 
-            if(res.has_value()) {
+            // A shard which does not know the ticket already finished it
+            if(res.has_value()
+               && res->m_error_code
+                      != runtime_locking_shard::error_code::unknown_ticket) {
                 m_log->error("Shard finish error");
                 return error_code::finish_error;
             }
-- 
2.43.0


From 177e152028ac754622b58db1c19f2375f2954229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 25/72] fix: replicated shard applies a repeated commit only
 once

---
 src/parsec/runtime_locking_shard/replicated_shard.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parsec/runtime_locking_shard/replicated_shard.cpp b/src/parsec/runtime_locking_shard/replicated_shard.cpp
index 87672e3..6a656fe 100644
--- a/src/parsec/runtime_locking_shard/replicated_shard.cpp
+++ b/src/parsec/runtime_locking_shard/replicated_shard.cpp
@@ -31,6 +31,11 @@ namespace cbdc::parsec::runtime_locking_shard {
                 return error_code::unknown_ticket;
             }
             auto& t = it->second;
+            // The updates of a ticket already committed were applied (and
+            // moved from) by the first request
+            if(t.m_state == ticket_state::committed) {
+                return std::nullopt;
+            }
             t.m_state = ticket_state::committed;
             for(auto&& [k, v] : t.m_state_update) {
                 m_state[k] = std::move(v);
-- 
2.43.0


From 5c6eb63d2a45a6a6d01beb0afe74abe362e4389b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:27 +0000
Subject: [PATCH 26/72] fix: shard server reports failed requests in the type
 the client expects

---
 src/parsec/runtime_locking_shard/server.cpp | 36 ++++++++++++++-------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/parsec/runtime_locking_shard/server.cpp b/src/parsec/runtime_locking_shard/server.cpp
index 062c91e..a956485 100644
--- a/src/parsec/runtime_locking_shard/server.cpp
+++ b/src/parsec/runtime_locking_shard/server.cpp
@@ -8,6 +8,15 @@
 #include "util/common/variant_overloaded.hpp"
 
 namespace cbdc::parsec::runtime_locking_shard::rpc {
+    namespace {
+        /// Response to a prepare, commit, rollback or finish request that
+        /// could not be completed.
+        auto failure_response() -> response {
+            return interface::prepare_return_type{
+                shard_error{error_code::internal_error, std::nullopt}};
+        }
+    }
+
     server::server(
         std::shared_ptr<logging::log> logger,
         std::shared_ptr<interface> impl,
@@ -27,6 +36,11 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
     auto server::handler_callback(
         const request& req,
         std::function<void(std::optional<response>)> callback) -> bool {
+        // The replicated shard refused the request, no result will follow
+        auto fail = [&]() {
+            callback(failure_response());
+            return true;
+        };
         auto success = std::visit(
             overloaded{
                 [&](const rpc::try_lock_request& msg) {
@@ -56,7 +70,7 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
                         [this, callback, msg](
                             replicated_shard_interface::return_type ret) {
                             handle_commit(ret, msg, callback);
-                        });
+                        }) || fail();
                 },
                 [&](rpc::rollback_request msg) {
                     return m_repl->finish(
@@ -64,7 +78,7 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
                         [this, callback, msg](
                             replicated_shard_interface::return_type ret) {
                             do_rollback(ret, msg, callback);
-                        });
+                        }) || fail();
                 },
                 [&](rpc::finish_request msg) {
                     return m_repl->finish(
@@ -72,7 +86,7 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
                         [this, callback, msg](
                             replicated_shard_interface::return_type ret) {
                             do_finish(ret, msg, callback);
-                        });
+                        }) || fail();
                 },
                 [&](rpc::get_tickets_request msg) {
                     return m_impl->get_tickets(
@@ -101,14 +115,14 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
             [this, callback](replicated_shard_interface::return_type res) {
                 if(res.has_value()) {
                     m_log->error("Error response during prepare replication");
-                    callback(error_code::internal_error);
+                    callback(failure_response());
                     return;
                 }
                 callback(interface::prepare_return_type{});
             });
         if(!success) {
             m_log->error("Error replicating prepare");
-            callback(error_code::internal_error);
+            callback(failure_response());
         }
     }
 
@@ -117,7 +131,7 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
                                const callback_type& callback) {
         if(ret.has_value()) {
             m_log->error("Error response during commit replication");
-            callback(error_code::internal_error);
+            callback(failure_response());
             return;
         }
 
@@ -128,7 +142,7 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
                              });
         if(!success) {
             m_log->error("Error initiating commit with internal shard");
-            callback(error_code::internal_error);
+            callback(failure_response());
         }
     }
 
@@ -138,7 +152,7 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
         if(ret.has_value()) {
             m_log->error("Error response during discard replication",
                          static_cast<int>(ret.value()));
-            callback(error_code::internal_error);
+            callback(failure_response());
             return;
         }
 
@@ -149,7 +163,7 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
             });
         if(!success) {
             m_log->error("Error initiating rollback with internal shard");
-            callback(error_code::internal_error);
+            callback(failure_response());
         }
     }
 
@@ -158,7 +172,7 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
                            const callback_type& callback) {
         if(ret.has_value()) {
             m_log->error("Error response during discard replication");
-            callback(error_code::internal_error);
+            callback(failure_response());
             return;
         }
 
@@ -169,7 +183,7 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
                              });
         if(!success) {
             m_log->error("Error initiating rollback with internal shard");
-            callback(error_code::internal_error);
+            callback(failure_response());
         }
     }
 }
-- 
2.43.0


From e70add52d5d664c17498bffcb0ac1d70821816f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 27/72] fix: shard server may be destroyed while replication of
 its requests is pending

---
 src/parsec/runtime_locking_shard/server.cpp | 119 ++++++++++++--------
 src/parsec/runtime_locking_shard/server.hpp |  39 ++++---
 2 files changed, 96 insertions(+), 62 deletions(-)

diff --git a/src/parsec/runtime_locking_shard/server.cpp b/src/parsec/runtime_locking_shard/server.cpp
index a956485..9f45ed2 100644
--- a/src/parsec/runtime_locking_shard/server.cpp
+++ b/src/parsec/runtime_locking_shard/server.cpp
@@ -59,34 +59,48 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
                         msg.m_ticket_number,
                         msg.m_broker_id,
                         msg.m_state_updates,
-                        [this, callback, msg](
+                        [log = m_log, repl = m_repl, callback, msg](
                             interface::prepare_return_type ret) {
-                            handle_prepare(std::move(ret), msg, callback);
+                            handle_prepare(log,
+                                           repl,
+                                           std::move(ret),
+                                           msg,
+                                           callback);
                         });
                 },
                 [&](rpc::commit_request msg) {
                     return m_repl->commit(
-                        msg.m_ticket_number,
-                        [this, callback, msg](
-                            replicated_shard_interface::return_type ret) {
-                            handle_commit(ret, msg, callback);
-                        }) || fail();
+                               msg.m_ticket_number,
+                               [log = m_log, impl = m_impl, callback, msg](
+                                   replicated_shard_interface::return_type
+                                       ret) {
+                                   handle_commit(log,
+                                                 impl,
+                                                 ret,
+                                                 msg,
+                                                 callback);
+                               })
+                        || fail();
                 },
                 [&](rpc::rollback_request msg) {
                     return m_repl->finish(
-                        msg.m_ticket_number,
-                        [this, callback, msg](
-                            replicated_shard_interface::return_type ret) {
-                            do_rollback(ret, msg, callback);
-                        }) || fail();
+                               msg.m_ticket_number,
+                               [log = m_log, impl = m_impl, callback, msg](
+                                   replicated_shard_interface::return_type
+                                       ret) {
+                                   do_rollback(log, impl, ret, msg, callback);
+                               })
+                        || fail();
                 },
                 [&](rpc::finish_request msg) {
                     return m_repl->finish(
-                        msg.m_ticket_number,
-                        [this, callback, msg](
-                            replicated_shard_interface::return_type ret) {
-                            do_finish(ret, msg, callback);
-                        }) || fail();
+                               msg.m_ticket_number,
+                               [log = m_log, impl = m_impl, callback, msg](
+                                   replicated_shard_interface::return_type
+                                       ret) {
+                                   do_finish(log, impl, ret, msg, callback);
+                               })
+                        || fail();
                 },
                 [&](rpc::get_tickets_request msg) {
                     return m_impl->get_tickets(
@@ -99,90 +113,99 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
         return success;
     }
 
-    void server::handle_prepare(interface::prepare_return_type ret,
-                                const rpc::prepare_request& msg,
-                                const callback_type& callback) {
+    void server::handle_prepare(
+        const std::shared_ptr<logging::log>& log,
+        const std::shared_ptr<replicated_shard_interface>& repl,
+        interface::prepare_return_type ret,
+        const rpc::prepare_request& msg,
+        const callback_type& callback) {
         if(ret.has_value()) {
-            m_log->trace("Error response during prepare");
+            log->trace("Error response during prepare");
             callback(std::move(ret));
             return;
         }
 
-        auto success = m_repl->prepare(
+        auto success = repl->prepare(
             msg.m_ticket_number,
             msg.m_broker_id,
             msg.m_state_updates,
-            [this, callback](replicated_shard_interface::return_type res) {
+            [log, callback](replicated_shard_interface::return_type res) {
                 if(res.has_value()) {
-                    m_log->error("Error response during prepare replication");
+                    log->error("Error response during prepare replication");
                     callback(failure_response());
                     return;
                 }
                 callback(interface::prepare_return_type{});
             });
         if(!success) {
-            m_log->error("Error replicating prepare");
+            log->error("Error replicating prepare");
             callback(failure_response());
         }
     }
 
-    void server::handle_commit(replicated_shard_interface::return_type ret,
+    void server::handle_commit(const std::shared_ptr<logging::log>& log,
+                               const std::shared_ptr<interface>& impl,
+                               replicated_shard_interface::return_type ret,
                                rpc::commit_request msg,
                                const callback_type& callback) {
         if(ret.has_value()) {
-            m_log->error("Error response during commit replication");
+            log->error("Error response during commit replication");
             callback(failure_response());
             return;
         }
 
         auto success
-            = m_impl->commit(msg.m_ticket_number,
-                             [callback](interface::commit_return_type res) {
-                                 callback(std::move(res));
-                             });
+            = impl->commit(msg.m_ticket_number,
+                           [callback](interface::commit_return_type res) {
+                               callback(std::move(res));
+                           });
         if(!success) {
-            m_log->error("Error initiating commit with internal shard");
+            log->error("Error initiating commit with internal shard");
             callback(failure_response());
         }
     }
 
-    void server::do_rollback(replicated_shard_interface::return_type ret,
+    void server::do_rollback(const std::shared_ptr<logging::log>& log,
+                             const std::shared_ptr<interface>& impl,
+                             replicated_shard_interface::return_type ret,
                              rpc::rollback_request msg,
                              const callback_type& callback) {
         if(ret.has_value()) {
-            m_log->error("Error response during discard replication",
-                         static_cast<int>(ret.value()));
+            log->error("Error response during discard replication",
+                       static_cast<int>(ret.value()));
             callback(failure_response());
             return;
         }
 
-        auto success = m_impl->rollback(
-            msg.m_ticket_number,
-            [callback](interface::rollback_return_type res) {
-                callback(std::move(res));
-            });
+        auto success
+            = impl->rollback(msg.m_ticket_number,
+                             [callback](interface::rollback_return_type res) {
+                                 callback(std::move(res));
+                             });
         if(!success) {
-            m_log->error("Error initiating rollback with internal shard");
+            log->error("Error initiating rollback with internal shard");
             callback(failure_response());
         }
     }
 
-    void server::do_finish(replicated_shard_interface::return_type ret,
+    void server::do_finish(const std::shared_ptr<logging::log>& log,
+                           const std::shared_ptr<interface>& impl,
+                           replicated_shard_interface::return_type ret,
                            rpc::finish_request msg,
                            const callback_type& callback) {
         if(ret.has_value()) {
-            m_log->error("Error response during discard replication");
+            log->error("Error response during discard replication");
             callback(failure_response());
             return;
         }
 
         auto success
-            = m_impl->finish(msg.m_ticket_number,
-                             [callback](interface::finish_return_type res) {
-                                 callback(std::move(res));
-                             });
+            = impl->finish(msg.m_ticket_number,
+                           [callback](interface::finish_return_type res) {
+                               callback(std::move(res));
+                           });
         if(!success) {
-            m_log->error("Error initiating rollback with internal shard");
+            log->error("Error initiating rollback with internal shard");
             callback(failure_response());
         }
     }
diff --git a/src/parsec/runtime_locking_shard/server.hpp b/src/parsec/runtime_locking_shard/server.hpp
index eada310..21d93fd 100644
--- a/src/parsec/runtime_locking_shard/server.hpp
+++ b/src/parsec/runtime_locking_shard/server.hpp
@@ -35,24 +35,35 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
 
         using callback_type = std::function<void(std::optional<response>)>;
 
-        auto handler_callback(const request& req, callback_type callback)
-            -> bool;
+        auto handler_callback(const request& req,
+                              callback_type callback) -> bool;
 
-        void handle_prepare(interface::prepare_return_type ret,
-                            const rpc::prepare_request& msg,
-                            const callback_type& callback);
+        // Completion handlers. Replication may complete after the server was
+        // destroyed (leadership lost), so they don't use it.
+        static void
+        handle_prepare(const std::shared_ptr<logging::log>& log,
+                       const std::shared_ptr<replicated_shard_interface>& repl,
+                       interface::prepare_return_type ret,
+                       const rpc::prepare_request& msg,
+                       const callback_type& callback);
 
-        void handle_commit(replicated_shard_interface::return_type ret,
-                           rpc::commit_request msg,
-                           const callback_type& callback);
+        static void handle_commit(const std::shared_ptr<logging::log>& log,
+                                  const std::shared_ptr<interface>& impl,
+                                  replicated_shard_interface::return_type ret,
+                                  rpc::commit_request msg,
+                                  const callback_type& callback);
 
-        void do_rollback(replicated_shard_interface::return_type ret,
-                         rpc::rollback_request msg,
-                         const callback_type& callback);
+        static void do_rollback(const std::shared_ptr<logging::log>& log,
+                                const std::shared_ptr<interface>& impl,
+                                replicated_shard_interface::return_type ret,
+                                rpc::rollback_request msg,
+                                const callback_type& callback);
 
-        void do_finish(replicated_shard_interface::return_type ret,
-                       rpc::finish_request msg,
-                       const callback_type& callback);
+        static void do_finish(const std::shared_ptr<logging::log>& log,
+                              const std::shared_ptr<interface>& impl,
+                              replicated_shard_interface::return_type ret,
+                              rpc::finish_request msg,
+                              const callback_type& callback);
     };
 }
 
-- 
2.43.0


From 76650427d29f1be73f62c188aa30c74773e5e450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:48 +0000
Subject: [PATCH 28/72] fix: ticket machine client answers waiting callers when
 a request fails

---
 src/parsec/ticket_machine/client.cpp | 38 +++++++++++++++++++---------
 src/parsec/ticket_machine/client.hpp |  6 ++++-
 2 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/src/parsec/ticket_machine/client.cpp b/src/parsec/ticket_machine/client.cpp
index 07dc623..9529d11 100644
--- a/src/parsec/ticket_machine/client.cpp
+++ b/src/parsec/ticket_machine/client.cpp
@@ -49,29 +49,38 @@ namespace cbdc::parsec::ticket_machine::rpc {
         return m_client->call(
             std::monostate{},
             [this](std::optional<get_ticket_number_return_type> res) {
-                assert(res.has_value());
+                if(!res.has_value()) {
+                    // The request failed, e.g. because the machine we asked
+                    // is not the leader
+                    handle_error(error_code{});
+                    return;
+                }
                 std::visit(overloaded{[&](ticket_number_range_type range) {
                                           handle_ticket_numbers(range);
                                       },
                                       [&](error_code e) {
-                                          auto callbacks
-                                              = decltype(m_callbacks)();
-                                          {
-                                              std::unique_lock ll(m_mut);
-                                              m_fetching_tickets = false;
-                                              callbacks.swap(m_callbacks);
-                                          }
-                                          while(!callbacks.empty()) {
-                                              callbacks.front()(e);
-                                              callbacks.pop();
-                                          }
+                                          handle_error(e);
                                       }},
                            res.value());
             });
     }
 
+    void client::handle_error(error_code err) {
+        auto callbacks = decltype(m_callbacks)();
+        {
+            std::unique_lock l(m_mut);
+            m_fetching_tickets = false;
+            callbacks.swap(m_callbacks);
+        }
+        while(!callbacks.empty()) {
+            callbacks.front()(err);
+            callbacks.pop();
+        }
+    }
+
     void client::handle_ticket_numbers(ticket_number_range_type range) {
         auto callbacks = decltype(m_callbacks)();
+        auto failed = decltype(m_callbacks)();
         auto tickets = decltype(m_tickets)();
         {
             std::unique_lock ll(m_mut);
@@ -90,6 +99,7 @@ namespace cbdc::parsec::ticket_machine::rpc {
                 auto fetch_res = fetch_tickets();
                 if(!fetch_res) {
                     m_fetching_tickets = false;
+                    failed.swap(m_callbacks);
                 }
             }
         }
@@ -100,5 +110,9 @@ namespace cbdc::parsec::ticket_machine::rpc {
             callbacks.pop();
             tickets.pop();
         }
+        while(!failed.empty()) {
+            failed.front()(error_code{});
+            failed.pop();
+        }
     }
 }
diff --git a/src/parsec/ticket_machine/client.hpp b/src/parsec/ticket_machine/client.hpp
index 52099d5..b2863fa 100644
--- a/src/parsec/ticket_machine/client.hpp
+++ b/src/parsec/ticket_machine/client.hpp
@@ -41,7 +41,6 @@ namespace cbdc::parsec::ticket_machine::rpc {
             -> bool override;
 
       private:
-        std::unique_ptr<cbdc::rpc::tcp_client<request, response>> m_client;
         std::queue<ticket_number_type> m_tickets;
         bool m_fetching_tickets{false};
 
@@ -49,8 +48,13 @@ namespace cbdc::parsec::ticket_machine::rpc {
 
         std::queue<get_ticket_number_callback_type> m_callbacks;
 
+        // Destroyed first, as it completes outstanding requests
+        std::unique_ptr<cbdc::rpc::tcp_client<request, response>> m_client;
+
         auto fetch_tickets() -> bool;
 
+        void handle_error(error_code err);
+
         void handle_ticket_numbers(ticket_number_range_type range);
     };
 }
-- 
2.43.0


From 693886962ebcba7f0e70d216862e053a604332a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:15 +0000
Subject: [PATCH 29/72] fix: agent survives a broker that fails to begin a
 ticket

---
 src/parsec/agent/impl.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parsec/agent/impl.cpp b/src/parsec/agent/impl.cpp
index 7fd050c..173e357 100644
--- a/src/parsec/agent/impl.cpp
+++ b/src/parsec/agent/impl.cpp
@@ -546,7 +546,7 @@ namespace cbdc::parsec::agent {
         get_result_callback()(m_result.value());
         m_log->trace(this,
                      "Agent handled result for",
-                     m_ticket_number.value());
+                     m_ticket_number.value_or(0));
     }
 
     void impl::do_finish() {
@@ -656,7 +656,8 @@ namespace cbdc::parsec::agent {
 
     impl::~impl() {
         std::unique_lock l(m_mut);
-        if(m_state != state::finish_complete) {
+        if(m_state != state::finish_complete && m_state != state::begin_failed
+           && m_state != state::init) {
             m_log->fatal(
                 this,
                 "Agent state wasn't finished at destruction, state was:",
-- 
2.43.0


From 15074b5e45011d6d78aae75c4a62f92b3d3c594f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:15 +0000
Subject: [PATCH 30/72] fix: agent retries unfinished commits, rollbacks and
 finishes and reports the true outcome

---
 src/parsec/agent/impl.cpp | 62 +++++++++++++++++++++++++++++----------
 src/parsec/agent/impl.hpp |  1 +
 2 files changed, 48 insertions(+), 15 deletions(-)

diff --git a/src/parsec/agent/impl.cpp b/src/parsec/agent/impl.cpp
index 173e357..4f9ba39 100644
--- a/src/parsec/agent/impl.cpp
+++ b/src/parsec/agent/impl.cpp
@@ -47,6 +47,7 @@ namespace cbdc::parsec::agent {
             // We already have a ticket number but need to start again
             case state::rollback_complete:
                 m_result = std::nullopt;
+                m_state_updates = std::nullopt;
                 m_wounded = false;
                 m_restarted = true;
                 do_start();
@@ -356,17 +357,15 @@ namespace cbdc::parsec::agent {
         assert(m_state == state::function_started
                || m_state == state::commit_failed
                || m_state == state::commit_sent);
-        assert(m_result.has_value());
+        assert(m_state_updates.has_value());
         assert(m_ticket_number.has_value());
-        assert(std::holds_alternative<broker::state_update_type>(
-            m_result.value()));
         m_state = state::commit_sent;
         m_log->trace(this,
                      "Agent requesting commit for",
                      m_ticket_number.value());
         auto payload = return_type();
         if(!m_is_readonly_run) {
-            payload = std::get<broker::state_update_type>(m_result.value());
+            payload = m_state_updates.value();
         }
         auto maybe_success = m_broker->commit(
             m_ticket_number.value(),
@@ -390,7 +389,7 @@ namespace cbdc::parsec::agent {
         }
         std::visit(
             overloaded{[&](runtime_locking_shard::state_update_type states) {
-                           m_result = std::move(states);
+                           m_state_updates = std::move(states);
                            do_commit();
                        },
                        [&](runner::interface::error_code e) {
@@ -432,7 +431,13 @@ namespace cbdc::parsec::agent {
                 "actual state:");
             return;
         }
-        if(res.has_value()) {
+        auto already_committed
+            = res.has_value()
+           && std::holds_alternative<broker::interface::error_code>(
+                  res.value())
+           && std::get<broker::interface::error_code>(res.value())
+                  == broker::interface::error_code::committed;
+        if(res.has_value() && !already_committed) {
             std::visit(
                 overloaded{
                     [&](broker::interface::error_code e) {
@@ -473,13 +478,14 @@ namespace cbdc::parsec::agent {
             m_log->trace(this,
                          "Agent handled commit for",
                          m_ticket_number.value());
+            m_result = m_state_updates.value();
             do_finish();
         }
     }
 
     void impl::do_result() {
         std::unique_lock l(m_mut);
-        assert(m_result.has_value());
+        assert(m_result.has_value() || m_state == state::rollback_failed);
         switch(m_state) {
             // No results should be reported in these states, fatal bugs
             case state::init:
@@ -524,12 +530,13 @@ namespace cbdc::parsec::agent {
                 return;
 
             case state::finish_failed:
-                // Committed but transient error running finish, cannot
-                // rollback, need to retry finish
+                // Transient error running finish, cannot rollback, need to
+                // retry finish before reporting the result
                 [[fallthrough]];
             case state::rollback_failed:
                 // Need to retry rollback
-                break;
+                get_result_callback()(error_code::retry);
+                return;
 
             // Failure due to permanent error, abort completely
             case state::function_get_error:
@@ -567,7 +574,6 @@ namespace cbdc::parsec::agent {
         if(!maybe_success) {
             m_state = state::finish_failed;
             m_log->error("Error contacting broker for finish");
-            m_result = error_code::broker_unreachable;
             do_result();
         }
     }
@@ -579,11 +585,14 @@ namespace cbdc::parsec::agent {
             m_log->warn("handle_finish while not in finish_sent state");
             return;
         }
-        if(finish_res.has_value()) {
+        // The broker forgets the ticket once an earlier finish request took
+        // effect
+        if(finish_res.has_value()
+           && finish_res.value()
+                  != broker::interface::error_code::unknown_ticket) {
             m_state = state::finish_failed;
             m_log->error("Broker error for finish for",
                          m_ticket_number.value());
-            m_result = error_code::finish_error;
             do_result();
         } else {
             m_state = state::finish_complete;
@@ -617,7 +626,6 @@ namespace cbdc::parsec::agent {
         if(!maybe_success) {
             m_state = state::rollback_failed;
             m_log->error("Error contacting broker for rollback");
-            m_result = error_code::broker_unreachable;
             do_result();
         }
     }
@@ -629,9 +637,33 @@ namespace cbdc::parsec::agent {
             m_log->warn("handle_rollback while not in rollback_sent state");
             return;
         }
+        auto aborted = true;
+        auto decided = false;
         if(rollback_res.has_value()) {
+            aborted = false;
+            if(std::holds_alternative<broker::interface::error_code>(
+                   rollback_res.value())) {
+                auto e = std::get<broker::interface::error_code>(
+                    rollback_res.value());
+                // An earlier rollback request took effect
+                aborted = e == broker::interface::error_code::aborted;
+                decided = e == broker::interface::error_code::prepared
+                       || e == broker::interface::error_code::committed;
+            }
+        }
+
+        if(decided && m_state_updates.has_value()) {
+            // All shards are prepared, so the ticket can no longer be rolled
+            // back. Need to retry commit
+            m_state = state::commit_failed;
+            m_log->warn("Broker already decided to commit",
+                        m_ticket_number.value());
+            get_result_callback()(error_code::retry);
+            return;
+        }
+
+        if(!aborted) {
             m_state = state::rollback_failed;
-            m_result = error_code::rollback_error;
             m_log->error("Broker error rolling back", m_ticket_number.value());
             do_result();
             return;
diff --git a/src/parsec/agent/impl.hpp b/src/parsec/agent/impl.hpp
index 8ee71ec..19a7614 100644
--- a/src/parsec/agent/impl.hpp
+++ b/src/parsec/agent/impl.hpp
@@ -111,6 +111,7 @@ namespace cbdc::parsec::agent {
         std::shared_ptr<broker::interface> m_broker;
         std::optional<ticket_machine::ticket_number_type> m_ticket_number;
         std::optional<exec_return_type> m_result;
+        std::optional<broker::state_update_type> m_state_updates;
         std::unique_ptr<runner::interface> m_runner;
         state m_state{state::init};
         bool m_permanent_error{false};
-- 
2.43.0


From 21fbc6df494b5f2118ff2ffbcd42b207af159c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:15 +0000
Subject: [PATCH 31/72] fix: agent ignores responses to requests of abandoned
 attempts

---
 src/parsec/agent/impl.cpp | 33 +++++++++++++++++++++++++--------
 src/parsec/agent/impl.hpp |  1 +
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/parsec/agent/impl.cpp b/src/parsec/agent/impl.cpp
index 4f9ba39..9ba7abe 100644
--- a/src/parsec/agent/impl.cpp
+++ b/src/parsec/agent/impl.cpp
@@ -136,6 +136,8 @@ namespace cbdc::parsec::agent {
         assert(m_state == state::begin_sent
                || m_state == state::rollback_complete);
         m_state = state::function_get_sent;
+        // Responses to requests of previous attempts are no longer relevant
+        m_attempt++;
 
         if(m_is_readonly_run && get_function().size() == 0) {
             // If this is a read-only run and the function key is empty, the
@@ -156,9 +158,12 @@ namespace cbdc::parsec::agent {
                 m_ticket_number.value(),
                 get_function(),
                 m_initial_lock_type,
-                [this](
+                [this, attempt = m_attempt](
                     const broker::interface::try_lock_return_type& lock_res) {
-                    handle_function(lock_res);
+                    std::unique_lock ll(m_mut);
+                    if(attempt == m_attempt) {
+                        handle_function(lock_res);
+                    }
                 });
             if(!tl_success) {
                 m_state = state::function_get_failed;
@@ -232,9 +237,12 @@ namespace cbdc::parsec::agent {
             m_ticket_number.value(),
             std::move(key),
             actual_lock_type,
-            [this, cb = std::move(res_cb)](
+            [this, cb = std::move(res_cb), attempt = m_attempt](
                 broker::interface::try_lock_return_type res) {
-                handle_try_lock_response(cb, std::move(res));
+                std::unique_lock ll(m_mut);
+                if(attempt == m_attempt) {
+                    handle_try_lock_response(cb, std::move(res));
+                }
             });
     }
 
@@ -370,8 +378,12 @@ namespace cbdc::parsec::agent {
         auto maybe_success = m_broker->commit(
             m_ticket_number.value(),
             payload,
-            [this](broker::interface::commit_return_type commit_res) {
-                handle_commit(std::move(commit_res));
+            [this, attempt = m_attempt](
+                broker::interface::commit_return_type commit_res) {
+                std::unique_lock ll(m_mut);
+                if(attempt == m_attempt) {
+                    handle_commit(std::move(commit_res));
+                }
             });
         if(!maybe_success) {
             m_state = state::commit_failed;
@@ -610,6 +622,7 @@ namespace cbdc::parsec::agent {
                || m_state == state::function_exception
                || m_state == state::function_failed
                || m_state == state::commit_error
+               || m_state == state::function_get_sent
                || m_state == state::function_get_failed
                || m_state == state::function_get_error
                || m_state == state::function_started
@@ -620,8 +633,12 @@ namespace cbdc::parsec::agent {
         m_permanent_error = finish;
         auto maybe_success = m_broker->rollback(
             m_ticket_number.value(),
-            [this](broker::interface::rollback_return_type rollback_res) {
-                handle_rollback(rollback_res);
+            [this, attempt = m_attempt](
+                broker::interface::rollback_return_type rollback_res) {
+                std::unique_lock ll(m_mut);
+                if(attempt == m_attempt) {
+                    handle_rollback(rollback_res);
+                }
             });
         if(!maybe_success) {
             m_state = state::rollback_failed;
diff --git a/src/parsec/agent/impl.hpp b/src/parsec/agent/impl.hpp
index 19a7614..41aca6b 100644
--- a/src/parsec/agent/impl.hpp
+++ b/src/parsec/agent/impl.hpp
@@ -122,6 +122,7 @@ namespace cbdc::parsec::agent {
         std::shared_ptr<thread_pool> m_threads;
         std::optional<hash_t> m_tx_id;
         bool m_wounded{false};
+        uint64_t m_attempt{0};
         broker::held_locks_set_type m_requested_locks{};
         bool m_restarted{false};
 
-- 
2.43.0


From 8f4aff6687cab798d691b11239dbe8e5eaa09361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:42 +0000
Subject: [PATCH 32/72] fix: Lua contract returning a table with a number as
 key crashed the agent

---
 src/parsec/agent/runners/lua/impl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parsec/agent/runners/lua/impl.cpp b/src/parsec/agent/runners/lua/impl.cpp
index 4c79dc1..86ec4a5 100644
--- a/src/parsec/agent/runners/lua/impl.cpp
+++ b/src/parsec/agent/runners/lua/impl.cpp
@@ -102,7 +102,10 @@ namespace cbdc::parsec::agent::runner {
 
         lua_pushnil(m_state.get());
         while(lua_next(m_state.get(), -2) != 0) {
-            auto key_buf = get_stack_string(-2);
+            // Converting a key which is a number would confuse lua_next
+            auto key_buf = lua_type(m_state.get(), -2) == LUA_TSTRING
+                             ? get_stack_string(-2)
+                             : std::nullopt;
             if(!key_buf.has_value()) {
                 m_log->error("Result key is not a string");
                 m_result_callback(error_code::result_key_type);
-- 
2.43.0


From f0d0b5a402a3584676cd14f43c0015842adf91fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:33 +0000
Subject: [PATCH 33/72] fix: RPC servers listen only once their request handler
 is registered

---
 src/parsec/runtime_locking_shard/controller.cpp |  9 ++++++---
 src/uhs/atomizer/sentinel/controller.cpp        | 11 +++++++----
 src/uhs/twophase/coordinator/controller.cpp     |  9 ++++++---
 src/uhs/twophase/locking_shard/controller.cpp   | 11 +++++++----
 src/uhs/twophase/sentinel_2pc/controller.cpp    | 11 +++++++----
 5 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/src/parsec/runtime_locking_shard/controller.cpp b/src/parsec/runtime_locking_shard/controller.cpp
index 65e5e49..2a90257 100644
--- a/src/parsec/runtime_locking_shard/controller.cpp
+++ b/src/parsec/runtime_locking_shard/controller.cpp
@@ -103,9 +103,7 @@ namespace cbdc::parsec::runtime_locking_shard {
         auto rpc_server = std::make_unique<cbdc::rpc::tcp_server<
             cbdc::rpc::async_server<rpc::request, rpc::response>>>(
             m_server_endpoint);
-        if(!rpc_server->init()) {
-            m_logger->fatal("Failed to start RPC server");
-        }
+        auto& listener = *rpc_server;
 
         m_server = std::make_unique<decltype(m_server)::element_type>(
             m_logger,
@@ -113,6 +111,11 @@ namespace cbdc::parsec::runtime_locking_shard {
             m_raft_client,
             std::move(rpc_server));
 
+        // Listen only once requests can be handled
+        if(!listener.init()) {
+            m_logger->fatal("Failed to start RPC server");
+        }
+
         m_logger->info("Recovered shard and started RPC server");
     }
 }
diff --git a/src/uhs/atomizer/sentinel/controller.cpp b/src/uhs/atomizer/sentinel/controller.cpp
index ac2af00..f6819fa 100644
--- a/src/uhs/atomizer/sentinel/controller.cpp
+++ b/src/uhs/atomizer/sentinel/controller.cpp
@@ -71,15 +71,18 @@ namespace cbdc::sentinel {
         auto rpc_server = std::make_unique<
             cbdc::rpc::tcp_server<cbdc::rpc::async_server<request, response>>>(
             m_opts.m_sentinel_endpoints[m_sentinel_id]);
-        if(!rpc_server->init()) {
-            m_logger->error("Failed to start sentinel RPC server");
-            return false;
-        }
+        auto& listener = *rpc_server;
 
         m_rpc_server = std::make_unique<decltype(m_rpc_server)::element_type>(
             this,
             std::move(rpc_server));
 
+        // Listen only once requests can be handled
+        if(!listener.init()) {
+            m_logger->error("Failed to start sentinel RPC server");
+            return false;
+        }
+
         return true;
     }
 
diff --git a/src/uhs/twophase/coordinator/controller.cpp b/src/uhs/twophase/coordinator/controller.cpp
index 5ddfc5d..63f6d81 100644
--- a/src/uhs/twophase/coordinator/controller.cpp
+++ b/src/uhs/twophase/coordinator/controller.cpp
@@ -644,13 +644,16 @@ namespace cbdc::coordinator {
         auto rpc_server = std::make_unique<cbdc::rpc::tcp_server<
             cbdc::rpc::async_server<rpc::request, rpc::response>>>(
             m_handler_endpoint);
-        if(!rpc_server->init()) {
-            m_logger->fatal("Failed to start RPC server");
-        }
+        auto& listener = *rpc_server;
 
         m_rpc_server = std::make_unique<decltype(m_rpc_server)::element_type>(
             this,
             std::move(rpc_server));
+
+        // Listen only once requests can be handled
+        if(!listener.init()) {
+            m_logger->fatal("Failed to start RPC server");
+        }
     }
 
     void controller::quit() {
diff --git a/src/uhs/twophase/locking_shard/controller.cpp b/src/uhs/twophase/locking_shard/controller.cpp
index 8b961f7..fd014bd 100644
--- a/src/uhs/twophase/locking_shard/controller.cpp
+++ b/src/uhs/twophase/locking_shard/controller.cpp
@@ -98,16 +98,19 @@ namespace cbdc::locking_shard {
             cbdc::rpc::blocking_tcp_server<rpc::status_request,
                                            rpc::status_response>>(
             m_opts.m_locking_shard_readonly_endpoints[m_shard_id][m_node_id]);
-        if(!status_rpc_server->init()) {
-            m_logger->error("Failed to start status RPC server");
-            return false;
-        }
+        auto& listener = *status_rpc_server;
 
         m_status_server
             = std::make_unique<decltype(m_status_server)::element_type>(
                 m_shard,
                 std::move(status_rpc_server));
 
+        // Listen only once requests can be handled
+        if(!listener.init()) {
+            m_logger->error("Failed to start status RPC server");
+            return false;
+        }
+
         return true;
     }
 
diff --git a/src/uhs/twophase/sentinel_2pc/controller.cpp b/src/uhs/twophase/sentinel_2pc/controller.cpp
index 4c6fc79..54d570e 100644
--- a/src/uhs/twophase/sentinel_2pc/controller.cpp
+++ b/src/uhs/twophase/sentinel_2pc/controller.cpp
@@ -83,15 +83,18 @@ namespace cbdc::sentinel_2pc {
             cbdc::rpc::async_server<cbdc::sentinel::request,
                                     cbdc::sentinel::response>>>(
             m_opts.m_sentinel_endpoints[m_sentinel_id]);
-        if(!rpc_server->init()) {
-            m_logger->error("Failed to start sentinel RPC server");
-            return false;
-        }
+        auto& listener = *rpc_server;
 
         m_rpc_server = std::make_unique<decltype(m_rpc_server)::element_type>(
             this,
             std::move(rpc_server));
 
+        // Listen only once requests can be handled
+        if(!listener.init()) {
+            m_logger->error("Failed to start sentinel RPC server");
+            return false;
+        }
+
         return true;
     }
 
-- 
2.43.0


From 000665b203fcb0bb8ca0f8beda2895bbf221fd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:09 +0000
Subject: [PATCH 34/72] fix: recovering coordinator tells the shards to discard
 a finished dtx

---
 src/uhs/twophase/coordinator/distributed_tx.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/uhs/twophase/coordinator/distributed_tx.cpp b/src/uhs/twophase/coordinator/distributed_tx.cpp
index 4aabaa6..16b5f7e 100644
--- a/src/uhs/twophase/coordinator/distributed_tx.cpp
+++ b/src/uhs/twophase/coordinator/distributed_tx.cpp
@@ -253,6 +253,11 @@ namespace cbdc::coordinator {
 
     void distributed_tx::recover_discard() {
         m_state = dtx_state::discard;
+        // The participating shards are no longer known. Tell all of them to
+        // discard the dtx, which has no effect on the others.
+        for(auto& idxs : m_tx_idxs) {
+            idxs.emplace_back(0);
+        }
     }
 
     auto distributed_tx::size() const -> size_t {
-- 
2.43.0


From c0027b4e181a6bde550e5f7df4684bf630c98855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:49 +0000
Subject: [PATCH 35/72] fix: locking shard client can be stopped while requests
 are in progress

---
 src/uhs/twophase/locking_shard/client.cpp | 6 ++++--
 src/util/rpc/tcp_client.hpp               | 7 +++++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/uhs/twophase/locking_shard/client.cpp b/src/uhs/twophase/locking_shard/client.cpp
index bfcb9a5..4bb9486 100644
--- a/src/uhs/twophase/locking_shard/client.cpp
+++ b/src/uhs/twophase/locking_shard/client.cpp
@@ -69,7 +69,9 @@ namespace cbdc::locking_shard::rpc {
     }
 
     void client::stop() {
-        m_running = false;
-        m_client.reset();
+        // Other threads may still be using m_client, keep it until destruction
+        if(m_running.exchange(false)) {
+            m_client->close();
+        }
     }
 }
diff --git a/src/util/rpc/tcp_client.hpp b/src/util/rpc/tcp_client.hpp
index 61cc3d3..f0a5343 100644
--- a/src/util/rpc/tcp_client.hpp
+++ b/src/util/rpc/tcp_client.hpp
@@ -38,6 +38,13 @@ namespace cbdc::rpc {
         /// Destructor. Disconnects from the RPC servers and stops the response
         /// handler thread.
         ~tcp_client() override {
+            close();
+        }
+
+        /// Disconnects from the servers and completes outstanding requests
+        /// without a response. Later requests fail. Requests may be in
+        /// progress in other threads.
+        void close() {
             m_net.close();
             if(m_handler_thread.joinable()) {
                 m_handler_thread.join();
-- 
2.43.0


From 33d3f8cf4bdd27141d53fa231fcada63bd8e4334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:49 +0000
Subject: [PATCH 36/72] fix: coordinator wakes every thread waiting for the
 current batch

---
 src/uhs/twophase/coordinator/controller.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/uhs/twophase/coordinator/controller.cpp b/src/uhs/twophase/coordinator/controller.cpp
index 63f6d81..c59ec11 100644
--- a/src/uhs/twophase/coordinator/controller.cpp
+++ b/src/uhs/twophase/coordinator/controller.cpp
@@ -187,8 +187,9 @@ namespace cbdc::coordinator {
             std::lock_guard<std::mutex> l(m_batch_mut);
             m_running = false;
         }
+        // The RPC handler may be waiting for space in the current batch
+        m_batch_cv.notify_all();
         m_rpc_server.reset();
-        m_batch_cv.notify_one();
 
         // Stop each of the locking shard clients to cancel any pending RPCs
         // and unblock any of the current dtxs so they can mark themselves as
@@ -407,7 +408,7 @@ namespace cbdc::coordinator {
 
             // Notify the handler thread it can re-start adding transactions to
             // the current batch
-            m_batch_cv.notify_one();
+            m_batch_cv.notify_all();
 
             // Lambda to execute the batch and respond to the sentinel with the
             // result
@@ -726,8 +727,9 @@ namespace cbdc::coordinator {
         }();
         if(added) {
             // If this was a new TX, notify the executor thread there's work to
-            // do
-            m_batch_cv.notify_one();
+            // do. Threads waiting for space in the batch share the condition
+            // variable.
+            m_batch_cv.notify_all();
         }
 
         return added;
-- 
2.43.0


From 2bf1c41f4d09198f7fe889f6949850cd1ad7fd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:59 +0000
Subject: [PATCH 37/72] fix: coordinator losing leadership or quitting during
 recovery stops recovering

---
 src/uhs/twophase/coordinator/controller.cpp | 30 ++++++++++++++-------
 src/uhs/twophase/coordinator/controller.hpp |  6 ++++-
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/uhs/twophase/coordinator/controller.cpp b/src/uhs/twophase/coordinator/controller.cpp
index c59ec11..41c4f6d 100644
--- a/src/uhs/twophase/coordinator/controller.cpp
+++ b/src/uhs/twophase/coordinator/controller.cpp
@@ -136,8 +136,11 @@ namespace cbdc::coordinator {
                 std::unique_lock<std::mutex> l(m_start_mut);
                 m_start_flag = false;
                 m_stop_flag = true;
+                m_cancelled = true;
             }
             m_start_cv.notify_one();
+            // Recovery may be waiting for the shards
+            cancel_shards();
             m_logger->warn("Done with become follower handler");
         }
         return nuraft::cb_func::ReturnCode::Ok;
@@ -194,13 +197,7 @@ namespace cbdc::coordinator {
         // Stop each of the locking shard clients to cancel any pending RPCs
         // and unblock any of the current dtxs so they can mark themselves as
         // failed and stop executing.
-        {
-            // The lock just protects m_shards which we're not modifying.
-            std::shared_lock<std::shared_mutex> l(m_shards_mut);
-            for(auto& s : m_shards) {
-                s->stop();
-            }
-        }
+        cancel_shards();
 
         // Join the handler and batch execution threads
         if(m_batch_exec_thread.joinable()) {
@@ -484,11 +481,21 @@ namespace cbdc::coordinator {
             }
             {
                 std::unique_lock<std::shared_mutex> l(m_shards_mut);
+                if(m_cancelled) {
+                    s->stop();
+                }
                 m_shards.emplace_back(std::move(s));
             }
         }
     }
 
+    void controller::cancel_shards() {
+        std::shared_lock<std::shared_mutex> l(m_shards_mut);
+        for(auto& s : m_shards) {
+            s->stop();
+        }
+    }
+
     void controller::schedule_exec(std::function<void(size_t)>&& f) {
         // Loop until we successfully scheduled the given lambda on a thread
         bool found_thread{false};
@@ -556,6 +563,8 @@ namespace cbdc::coordinator {
                     assert(m_start_flag ^ m_stop_flag);
                     if(m_stop_flag) {
                         stopping = true;
+                    } else {
+                        m_cancelled = false;
                     }
                     m_start_flag = false;
                     m_stop_flag = false;
@@ -608,12 +617,12 @@ namespace cbdc::coordinator {
                 continue;
             }
             recovered = true;
-        } while(!recovered && m_raft_serv->is_leader());
+        } while(!recovered && !m_cancelled && m_raft_serv->is_leader());
         m_logger->info("Recovery complete");
 
         // If we stopped being the leader while attempting to recover we
         // shouldn't bother starting and handler threads
-        if(!m_raft_serv->is_leader()) {
+        if(m_cancelled || !m_raft_serv->is_leader()) {
             return;
         }
 
@@ -664,8 +673,11 @@ namespace cbdc::coordinator {
         {
             std::unique_lock<std::mutex> l(m_start_mut);
             m_quit = true;
+            m_cancelled = true;
         }
         m_start_cv.notify_one();
+        // Recovery may be waiting for the shards
+        cancel_shards();
         if(m_start_thread.joinable()) {
             m_start_thread.join();
         }
diff --git a/src/uhs/twophase/coordinator/controller.hpp b/src/uhs/twophase/coordinator/controller.hpp
index b9ca620..353461b 100644
--- a/src/uhs/twophase/coordinator/controller.hpp
+++ b/src/uhs/twophase/coordinator/controller.hpp
@@ -170,7 +170,9 @@ namespace cbdc::coordinator {
         bool m_stop_flag{false};
         std::condition_variable m_start_cv;
         std::mutex m_start_mut;
-        bool m_quit{false};
+        std::atomic_bool m_quit{false};
+        // Set when the coordinator should stop talking to the shards
+        std::atomic_bool m_cancelled{false};
 
         void start_stop_func();
 
@@ -203,6 +205,8 @@ namespace cbdc::coordinator {
 
         void connect_shards();
 
+        void cancel_shards();
+
         void schedule_exec(std::function<void(size_t)>&& f);
 
         void join_execs();
-- 
2.43.0


From 23c8920df242d0140557df41f7dd8f74daff98ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:49 +0000
Subject: [PATCH 38/72] fix: coordinator quitting while it starts stops what it
 has started

---
 src/uhs/twophase/coordinator/controller.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/uhs/twophase/coordinator/controller.cpp b/src/uhs/twophase/coordinator/controller.cpp
index 41c4f6d..792ef65 100644
--- a/src/uhs/twophase/coordinator/controller.cpp
+++ b/src/uhs/twophase/coordinator/controller.cpp
@@ -542,7 +542,9 @@ namespace cbdc::coordinator {
     }
 
     void controller::start_stop_func() {
-        while(!m_quit) {
+        // Ends only once quitting has stopped what an earlier start may have
+        // left running
+        while(true) {
             bool stopping{false};
             bool quitting{false};
             {
-- 
2.43.0


From b214bd1d0110e6b4b968e78e2b008855e09ec964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:47 +0000
Subject: [PATCH 39/72] fix: deserializing a variant with an index out of range
 fails instead of aborting

---
 src/util/common/variant_overloaded.hpp       |  1 -
 src/util/raft/serialization.cpp              |  4 ++++
 src/util/raft/serialization.hpp              |  3 +++
 src/util/serialization/buffer_serializer.cpp |  4 ++++
 src/util/serialization/buffer_serializer.hpp |  3 +++
 src/util/serialization/format.hpp            | 12 ++++++++++--
 src/util/serialization/serializer.hpp        |  5 +++++
 src/util/serialization/size_serializer.cpp   |  2 ++
 src/util/serialization/size_serializer.hpp   |  3 +++
 src/util/serialization/stream_serializer.cpp |  4 ++++
 src/util/serialization/stream_serializer.hpp |  3 +++
 11 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/src/util/common/variant_overloaded.hpp b/src/util/common/variant_overloaded.hpp
index 9f4953b..6e9c8f7 100644
--- a/src/util/common/variant_overloaded.hpp
+++ b/src/util/common/variant_overloaded.hpp
@@ -52,7 +52,6 @@ namespace cbdc {
         static constexpr auto t = std::array{+[]() {
             return T{Ts{}};
         }...};
-        // TODO: deserialization error handling for variant indexes.
         return t.at(i)();
     }
 }
diff --git a/src/util/raft/serialization.cpp b/src/util/raft/serialization.cpp
index e6c23d2..decf91f 100644
--- a/src/util/raft/serialization.cpp
+++ b/src/util/raft/serialization.cpp
@@ -18,6 +18,10 @@ namespace cbdc {
         return m_valid;
     }
 
+    void nuraft_serializer::invalidate() {
+        m_valid = false;
+    }
+
     void nuraft_serializer::advance_cursor(size_t len) {
         m_buf.pos(m_buf.pos() + len);
     }
diff --git a/src/util/raft/serialization.hpp b/src/util/raft/serialization.hpp
index 084ffd4..298b971 100644
--- a/src/util/raft/serialization.hpp
+++ b/src/util/raft/serialization.hpp
@@ -25,6 +25,9 @@ namespace cbdc {
         /// \return false if the last serialization operation failed.
         explicit operator bool() const final;
 
+        /// Makes the serializer report failure until it is reset.
+        void invalidate() final;
+
         /// Moves the cursor inside the buffer forward by the given
         /// number of bytes. Does not change the size of the buffer.
         /// \param len number of bytes by which to advance the cursor.
diff --git a/src/util/serialization/buffer_serializer.cpp b/src/util/serialization/buffer_serializer.cpp
index 1e4cc74..bdeda37 100644
--- a/src/util/serialization/buffer_serializer.cpp
+++ b/src/util/serialization/buffer_serializer.cpp
@@ -14,6 +14,10 @@ namespace cbdc {
         return m_valid;
     }
 
+    void buffer_serializer::invalidate() {
+        m_valid = false;
+    }
+
     void buffer_serializer::advance_cursor(size_t len) {
         m_cursor += len;
     }
diff --git a/src/util/serialization/buffer_serializer.hpp b/src/util/serialization/buffer_serializer.hpp
index 97fd435..9d840b0 100644
--- a/src/util/serialization/buffer_serializer.hpp
+++ b/src/util/serialization/buffer_serializer.hpp
@@ -21,6 +21,9 @@ namespace cbdc {
         /// \return true if the last serialization operation succeeded.
         explicit operator bool() const final;
 
+        /// Makes the serializer report failure until it is reset.
+        void invalidate() final;
+
         /// Moves the cursor forward by the given number of bytes.
         /// \param len number of bytes by which to move the cursor forward.
         void advance_cursor(size_t len) final;
diff --git a/src/util/serialization/format.hpp b/src/util/serialization/format.hpp
index 683db37..37d6ddc 100644
--- a/src/util/serialization/format.hpp
+++ b/src/util/serialization/format.hpp
@@ -390,6 +390,10 @@ namespace cbdc {
         S idx{};
         deser >> idx;
         auto var_idx = static_cast<size_t>(idx);
+        if(var_idx >= sizeof...(Ts)) {
+            deser.invalidate();
+            return deser;
+        }
         var = expand_type<Ts...>(var_idx);
         std::visit(
             [&](auto&& arg) {
@@ -421,11 +425,15 @@ namespace cbdc {
             S idx{};
             deser >> idx;
             auto i = static_cast<size_t>(idx);
-            assert(i < std::variant_size_v<T>);
+            if(i >= std::variant_size_v<T>) {
+                // The caller gets a variant holding the first alternative and
+                // an invalid serializer.
+                deser.invalidate();
+                i = 0;
+            }
             static constexpr auto t = std::array{+[](serializer& d) {
                 return T{std::in_place_type<Ts>, d};
             }...};
-            // TODO: deserialization error handling for variant indexes.
             return t.at(i)(deser);
         }
     }
diff --git a/src/util/serialization/serializer.hpp b/src/util/serialization/serializer.hpp
index 54291c4..942af09 100644
--- a/src/util/serialization/serializer.hpp
+++ b/src/util/serialization/serializer.hpp
@@ -23,6 +23,11 @@ namespace cbdc {
         /// \return true if the last serialization succeeded.
         virtual explicit operator bool() const = 0;
 
+        /// Marks the data as invalid: the serializer reports failure until it
+        /// is reset. For deserializing operators that read a value they
+        /// cannot accept.
+        virtual void invalidate() = 0;
+
         /// Moves the serialization cursor forward by the given number of
         /// bytes.
         ///
diff --git a/src/util/serialization/size_serializer.cpp b/src/util/serialization/size_serializer.cpp
index 694a8cd..e0b92fa 100644
--- a/src/util/serialization/size_serializer.cpp
+++ b/src/util/serialization/size_serializer.cpp
@@ -10,6 +10,8 @@ namespace cbdc {
         return true;
     }
 
+    void size_serializer::invalidate() {}
+
     void size_serializer::advance_cursor(size_t len) {
         m_cursor += len;
     }
diff --git a/src/util/serialization/size_serializer.hpp b/src/util/serialization/size_serializer.hpp
index 00d8046..6b8a60e 100644
--- a/src/util/serialization/size_serializer.hpp
+++ b/src/util/serialization/size_serializer.hpp
@@ -22,6 +22,9 @@ namespace cbdc {
         /// \return true.
         explicit operator bool() const final;
 
+        /// Does nothing, as serialization always succeeds.
+        void invalidate() final;
+
         /// Increases the size counter by the given number of bytes.
         /// \param len number of bytes.
         void advance_cursor(size_t len) final;
diff --git a/src/util/serialization/stream_serializer.cpp b/src/util/serialization/stream_serializer.cpp
index 9a989bb..70cc12e 100644
--- a/src/util/serialization/stream_serializer.cpp
+++ b/src/util/serialization/stream_serializer.cpp
@@ -11,4 +11,8 @@ namespace cbdc {
     stream_serializer::operator bool() const {
         return m_str.good();
     }
+
+    void stream_serializer::invalidate() {
+        m_str.setstate(std::ios::failbit);
+    }
 }
diff --git a/src/util/serialization/stream_serializer.hpp b/src/util/serialization/stream_serializer.hpp
index d083406..cd1b7d2 100644
--- a/src/util/serialization/stream_serializer.hpp
+++ b/src/util/serialization/stream_serializer.hpp
@@ -25,6 +25,9 @@ namespace cbdc {
         /// \return true if the last serialization operation succeeded.
         explicit operator bool() const final;
 
+        /// Makes the stream report failure until the serializer is reset.
+        void invalidate() final;
+
       private:
         std::ios& m_str;
     };
-- 
2.43.0


From b05e23bb81ef6e970ec72cabe8c55fd7c5ed3220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:58 +0000
Subject: [PATCH 40/72] fix: deserializing a buffer trusted its size field,
 aborting the process or reading out of bounds

---
 src/util/raft/serialization.cpp              |  3 ++-
 src/util/serialization/buffer_serializer.cpp |  2 +-
 src/util/serialization/format.cpp            | 18 +++++++++++++++---
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/util/raft/serialization.cpp b/src/util/raft/serialization.cpp
index decf91f..42c52de 100644
--- a/src/util/raft/serialization.cpp
+++ b/src/util/raft/serialization.cpp
@@ -47,7 +47,8 @@ namespace cbdc {
     }
 
     auto nuraft_serializer::read(void* data, size_t len) -> bool {
-        if(m_buf.pos() + len > m_buf.size()) {
+        if(m_buf.pos() > m_buf.size()
+           || len > m_buf.size() - m_buf.pos()) {
             m_valid = false;
             return false;
         }
diff --git a/src/util/serialization/buffer_serializer.cpp b/src/util/serialization/buffer_serializer.cpp
index bdeda37..819b957 100644
--- a/src/util/serialization/buffer_serializer.cpp
+++ b/src/util/serialization/buffer_serializer.cpp
@@ -41,7 +41,7 @@ namespace cbdc {
     }
 
     auto buffer_serializer::read(void* data, size_t len) -> bool {
-        if(m_cursor + len > m_pkt.size()) {
+        if(m_cursor > m_pkt.size() || len > m_pkt.size() - m_cursor) {
             m_valid = false;
             return false;
         }
diff --git a/src/util/serialization/format.cpp b/src/util/serialization/format.cpp
index 8024d2a..cf8d7e7 100644
--- a/src/util/serialization/format.cpp
+++ b/src/util/serialization/format.cpp
@@ -29,9 +29,21 @@ namespace cbdc {
 
     auto operator>>(serializer& deser, buffer& b) -> serializer& {
         uint64_t sz{};
-        deser >> sz;
-        b.extend(sz);
-        deser.read(b.data(), sz);
+        if(!(deser >> sz)) {
+            return deser;
+        }
+        // Only allocate ahead of the data by a limited amount, as the size
+        // may not be true
+        b.clear();
+        uint64_t done = 0;
+        while(done < sz) {
+            const auto len = std::min(sz - done, config::maximum_reservation);
+            b.extend(len);
+            if(!deser.read(b.data_at(done), len)) {
+                return deser;
+            }
+            done += len;
+        }
         return deser;
     }
 }
-- 
2.43.0


From 4b82f248b9bcd17c68b21dad9c4dc059a18c439f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:46 +0000
Subject: [PATCH 41/72] fix: deserializing a bool from another byte than 0 or 1
 was undefined behaviour

---
 src/util/serialization/format.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/util/serialization/format.hpp b/src/util/serialization/format.hpp
index 37d6ddc..b9d73e1 100644
--- a/src/util/serialization/format.hpp
+++ b/src/util/serialization/format.hpp
@@ -86,7 +86,16 @@ namespace cbdc {
     auto operator>>(serializer& s, T& t) ->
         typename std::enable_if_t<std::is_integral_v<T> && !std::is_enum_v<T>,
                                   serializer&> {
-        s.read(&t, sizeof(t));
+        if constexpr(std::is_same_v<T, bool>) {
+            // Other bytes than 0 and 1 do not represent a bool
+            static_assert(sizeof(bool) == sizeof(uint8_t));
+            uint8_t val{};
+            if(s.read(&val, sizeof(val))) {
+                t = val != 0;
+            }
+        } else {
+            s.read(&t, sizeof(t));
+        }
         return s;
     }
 
-- 
2.43.0


From b350106fbde6d5d82aaded0f07716655526ab834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:27 +0000
Subject: [PATCH 42/72] fix: buffer::from_hex accepted text with characters
 that are not hexadecimal digits

---
 src/util/common/buffer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/util/common/buffer.cpp b/src/util/common/buffer.cpp
index b85491d..e7861a5 100644
--- a/src/util/common/buffer.cpp
+++ b/src/util/common/buffer.cpp
@@ -88,6 +88,11 @@ namespace cbdc {
             return std::nullopt;
         }
 
+        if(hex.find_first_not_of("0123456789abcdefABCDEF")
+           != std::string::npos) {
+            return std::nullopt;
+        }
+
         auto ret = cbdc::buffer();
 
         for(size_t i = 0; i < hex.size(); i += 2) {
-- 
2.43.0


From 739e5a00ca37c1a1dc9b37dc228b2dc7472643db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:27 +0000
Subject: [PATCH 43/72] fix: parsing a malformed hash wrote out of bounds or
 gave an arbitrary hash

---
 src/uhs/client/client-cli.cpp |  8 ++++++--
 src/util/common/config.cpp    | 24 +++++++++++++++++++-----
 src/util/common/hash.cpp      | 12 +++++++++++-
 src/util/common/hash.hpp      |  8 ++++++++
 4 files changed, 44 insertions(+), 8 deletions(-)

diff --git a/src/uhs/client/client-cli.cpp b/src/uhs/client/client-cli.cpp
index 439354d..4083ea4 100644
--- a/src/uhs/client/client-cli.cpp
+++ b/src/uhs/client/client-cli.cpp
@@ -161,8 +161,12 @@ auto importinput_command(cbdc::client& client,
 
 auto confirmtx_command(cbdc::client& client,
                        const std::vector<std::string>& args) -> bool {
-    const auto tx_id = cbdc::hash_from_hex(args[5]);
-    auto success = client.confirm_transaction(tx_id);
+    const auto tx_id = cbdc::maybe_hash_from_hex(args[5]);
+    if(!tx_id.has_value()) {
+        std::cout << "Invalid TXID" << std::endl;
+        return false;
+    }
+    auto success = client.confirm_transaction(tx_id.value());
     if(!success) {
         std::cout << "Unknown TXID" << std::endl;
         return false;
diff --git a/src/util/common/config.cpp b/src/util/common/config.cpp
index 02811f4..08b2150 100644
--- a/src/util/common/config.cpp
+++ b/src/util/common/config.cpp
@@ -351,7 +351,11 @@ namespace cbdc::config {
             if(priv_str.value().size() != sizeof(privkey_t) * 2) {
                 return "Invalid seed private key length";
             }
-            opts.m_seed_privkey = hash_from_hex(priv_str.value());
+            const auto seed_key = maybe_hash_from_hex(priv_str.value());
+            if(!seed_key.has_value()) {
+                return "Malformed seed private key";
+            }
+            opts.m_seed_privkey = seed_key.value();
             opts.m_seed_value
                 = cfg.get_ulong(seed_value).value_or(opts.m_seed_value);
         }
@@ -434,8 +438,14 @@ namespace cbdc::config {
             const auto sentinel_private_key
                 = cfg.get_string(sentinel_private_key_key);
             if(sentinel_private_key.has_value()) {
-                auto key = hash_from_hex(sentinel_private_key.value());
-                opts.m_sentinel_private_keys[i] = key;
+                const auto key
+                    = maybe_hash_from_hex(sentinel_private_key.value());
+                if(!key.has_value()) {
+                    return "Malformed private key for sentinel "
+                         + std::to_string(i) + " (" + sentinel_private_key_key
+                         + ")";
+                }
+                opts.m_sentinel_private_keys[i] = key.value();
             }
 
             const auto sentinel_public_key_key
@@ -450,8 +460,12 @@ namespace cbdc::config {
                      + std::to_string(i) + " (" + sentinel_public_key_key
                      + ")";
             }
-            auto key = hash_from_hex(sentinel_public_key.value());
-            opts.m_sentinel_public_keys.insert(key);
+            const auto key = maybe_hash_from_hex(sentinel_public_key.value());
+            if(!key.has_value()) {
+                return "Malformed public key for sentinel " + std::to_string(i)
+                     + " (" + sentinel_public_key_key + ")";
+            }
+            opts.m_sentinel_public_keys.insert(key.value());
         }
         return std::nullopt;
     }
diff --git a/src/util/common/hash.cpp b/src/util/common/hash.cpp
index f75dead..a5f95c2 100644
--- a/src/util/common/hash.cpp
+++ b/src/util/common/hash.cpp
@@ -23,9 +23,15 @@ namespace cbdc {
         return ret.str();
     }
 
-    auto hash_from_hex(const std::string& val) -> hash_t {
+    auto maybe_hash_from_hex(const std::string& val) -> std::optional<hash_t> {
         hash_t ret;
 
+        if(val.size() != ret.size() * 2
+           || val.find_first_not_of("0123456789abcdefABCDEF")
+                  != std::string::npos) {
+            return std::nullopt;
+        }
+
         for(size_t i = 0; i < val.size(); i += 2) {
             unsigned int v{};
             std::stringstream s;
@@ -37,6 +43,10 @@ namespace cbdc {
         return ret;
     }
 
+    auto hash_from_hex(const std::string& val) -> hash_t {
+        return maybe_hash_from_hex(val).value();
+    }
+
     auto hash_data(const std::byte* data, size_t len) -> hash_t {
         hash_t ret;
         CSHA256 sha;
diff --git a/src/util/common/hash.hpp b/src/util/common/hash.hpp
index 9d674df..4cc6cae 100644
--- a/src/util/common/hash.hpp
+++ b/src/util/common/hash.hpp
@@ -9,6 +9,7 @@
 #include "crypto/siphash.h"
 
 #include <array>
+#include <optional>
 #include <sstream>
 
 namespace cbdc {
@@ -25,6 +26,13 @@ namespace cbdc {
 
     /// Parses a hexadecimal representation of a hash.
     /// \param val string with a hex representation of a hash.
+    /// \return hash value of the string, or std::nullopt if the string is not
+    ///         exactly the hex representation of a hash.
+    auto maybe_hash_from_hex(const std::string& val) -> std::optional<hash_t>;
+
+    /// Parses a hexadecimal representation of a hash.
+    /// \param val string with a hex representation of a hash. Must be
+    ///        well-formed; use maybe_hash_from_hex otherwise.
     /// \return hash value of the string.
     auto hash_from_hex(const std::string& val) -> hash_t;
 
-- 
2.43.0


From bad85620a411c0497fb9ed3e420f14276204c7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:27 +0000
Subject: [PATCH 44/72] fix: decoding an address without data read out of
 bounds, and excess or non-zero padding was accepted

---
 src/uhs/client/client.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/uhs/client/client.cpp b/src/uhs/client/client.cpp
index 4b3bc60..cf6e886 100644
--- a/src/uhs/client/client.cpp
+++ b/src/uhs/client/client.cpp
@@ -35,18 +35,19 @@ namespace cbdc {
                 return std::nullopt;
             }
             auto data = std::vector<uint8_t>();
-            ConvertBits<bech32_bits_per_symbol, bits_per_byte, false>(
-                [&](uint8_t c) {
-                    data.push_back(c);
-                },
-                enc_data.begin(),
-                enc_data.end());
+            const auto valid_padding
+                = ConvertBits<bech32_bits_per_symbol, bits_per_byte, false>(
+                    [&](uint8_t c) {
+                        data.push_back(c);
+                    },
+                    enc_data.begin(),
+                    enc_data.end());
 
             auto pubkey = cbdc::hash_t();
-            if(data[0]
-                   != static_cast<uint8_t>(
-                       cbdc::client::address_type::public_key)
-               || data.size() != pubkey.size() + 1) {
+            if(!valid_padding || data.size() != pubkey.size() + 1
+               || data[0]
+                      != static_cast<uint8_t>(
+                          cbdc::client::address_type::public_key)) {
                 std::cout << "Address is not a supported type" << std::endl;
                 return std::nullopt;
             }
-- 
2.43.0


From b49f90b61e29cd6c806f9fb59163a88802d038ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:12 +0000
Subject: [PATCH 45/72] fix: atomizer sentinel chose shards by the wrong input

The index of the shard was used to look up the input, so inputs were not
sent to the shards responsible for them, and transactions with fewer inputs
than there are shards were read out of bounds.
---
 src/uhs/atomizer/sentinel/controller.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uhs/atomizer/sentinel/controller.cpp b/src/uhs/atomizer/sentinel/controller.cpp
index f6819fa..19b7a2b 100644
--- a/src/uhs/atomizer/sentinel/controller.cpp
+++ b/src/uhs/atomizer/sentinel/controller.cpp
@@ -195,7 +195,7 @@ namespace cbdc::sentinel {
                 if(inputs_sent.find(j) != inputs_sent.end()) {
                     continue;
                 }
-                if(!config::hash_in_shard_range(range, ctx.m_inputs[i])) {
+                if(!config::hash_in_shard_range(range, ctx.m_inputs[j])) {
                     continue;
                 }
                 inputs_sent.insert(j);
-- 
2.43.0


From e9009c8fc5c351cda546f813d8e414b498a40e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:12 +0000
Subject: [PATCH 46/72] fix: sentinels looped forever when too few sentinels
 could attest

Once every remote sentinel had been asked, the search for another one never
ended, and without remote sentinels it indexed an empty vector.
---
 src/uhs/atomizer/sentinel/controller.cpp     | 5 +++++
 src/uhs/twophase/sentinel_2pc/controller.cpp | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/src/uhs/atomizer/sentinel/controller.cpp b/src/uhs/atomizer/sentinel/controller.cpp
index 19b7a2b..77f8a2f 100644
--- a/src/uhs/atomizer/sentinel/controller.cpp
+++ b/src/uhs/atomizer/sentinel/controller.cpp
@@ -148,6 +148,11 @@ namespace cbdc::sentinel {
                                     const transaction::compact_tx& ctx,
                                     std::unordered_set<size_t> requested) {
         if(ctx.m_attestations.size() < m_opts.m_attestation_threshold) {
+            if(requested.size() >= m_sentinel_clients.size()) {
+                m_logger->error(cbdc::to_string(ctx.m_id),
+                                "not enough sentinels to attest to it");
+                return;
+            }
             auto success = false;
             while(!success) {
                 auto sentinel_id = [&]() {
diff --git a/src/uhs/twophase/sentinel_2pc/controller.cpp b/src/uhs/twophase/sentinel_2pc/controller.cpp
index 54d570e..830ceec 100644
--- a/src/uhs/twophase/sentinel_2pc/controller.cpp
+++ b/src/uhs/twophase/sentinel_2pc/controller.cpp
@@ -182,6 +182,12 @@ namespace cbdc::sentinel_2pc {
         const transaction::compact_tx& ctx,
         std::unordered_set<size_t> requested) {
         if(ctx.m_attestations.size() < m_opts.m_attestation_threshold) {
+            if(requested.size() >= m_sentinel_clients.size()) {
+                m_logger->error(to_string(ctx.m_id),
+                                "not enough sentinels to attest to it");
+                result_callback(std::nullopt);
+                return;
+            }
             auto success = false;
             while(!success) {
                 auto sentinel_id = m_dist(m_rand);
-- 
2.43.0


From 9a3ff1ba97d1bd7ec7fa1a3d77a28ffb74f4d3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:12 +0000
Subject: [PATCH 47/72] fix: sentinels forwarded unverified attestations of
 remote sentinels

Any pair of key and signature a remote sentinel answered counted towards the
threshold, so that transactions all other components refuse were forwarded.
---
 src/uhs/atomizer/sentinel/controller.cpp     | 7 +++++++
 src/uhs/atomizer/sentinel/controller.hpp     | 3 ++-
 src/uhs/twophase/sentinel_2pc/controller.cpp | 8 ++++++++
 src/uhs/twophase/sentinel_2pc/controller.hpp | 3 ++-
 4 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/uhs/atomizer/sentinel/controller.cpp b/src/uhs/atomizer/sentinel/controller.cpp
index 77f8a2f..2d563b6 100644
--- a/src/uhs/atomizer/sentinel/controller.cpp
+++ b/src/uhs/atomizer/sentinel/controller.cpp
@@ -139,6 +139,13 @@ namespace cbdc::sentinel {
                             "invalid according to remote sentinel");
             return;
         }
+        if(m_opts.m_sentinel_public_keys.find(v_res.value().first)
+               == m_opts.m_sentinel_public_keys.end()
+           || !ctx.verify(m_secp.get(), v_res.value())) {
+            m_logger->error(cbdc::to_string(ctx.m_id),
+                            "invalid attestation from remote sentinel");
+            return;
+        }
         ctx.m_attestations.insert(std::move(v_res.value()));
         gather_attestations(tx, ctx, std::move(requested));
     }
diff --git a/src/uhs/atomizer/sentinel/controller.hpp b/src/uhs/atomizer/sentinel/controller.hpp
index 483433c..8c45690 100644
--- a/src/uhs/atomizer/sentinel/controller.hpp
+++ b/src/uhs/atomizer/sentinel/controller.hpp
@@ -69,7 +69,8 @@ namespace cbdc::sentinel {
 
         std::unique_ptr<secp256k1_context,
                         decltype(&secp256k1_context_destroy)>
-            m_secp{secp256k1_context_create(SECP256K1_CONTEXT_SIGN),
+            m_secp{secp256k1_context_create(SECP256K1_CONTEXT_SIGN
+                                            | SECP256K1_CONTEXT_VERIFY),
                    &secp256k1_context_destroy};
 
         std::vector<std::unique_ptr<sentinel::rpc::client>>
diff --git a/src/uhs/twophase/sentinel_2pc/controller.cpp b/src/uhs/twophase/sentinel_2pc/controller.cpp
index 830ceec..c475f16 100644
--- a/src/uhs/twophase/sentinel_2pc/controller.cpp
+++ b/src/uhs/twophase/sentinel_2pc/controller.cpp
@@ -169,6 +169,14 @@ namespace cbdc::sentinel_2pc {
             result_callback(std::nullopt);
             return;
         }
+        if(m_opts.m_sentinel_public_keys.find(v_res.value().first)
+               == m_opts.m_sentinel_public_keys.end()
+           || !ctx.verify(m_secp.get(), v_res.value())) {
+            m_logger->error(to_string(ctx.m_id),
+                            "invalid attestation from remote sentinel");
+            result_callback(std::nullopt);
+            return;
+        }
         ctx.m_attestations.insert(std::move(v_res.value()));
         gather_attestations(tx,
                             std::move(result_callback),
diff --git a/src/uhs/twophase/sentinel_2pc/controller.hpp b/src/uhs/twophase/sentinel_2pc/controller.hpp
index b5485eb..fb61c7d 100644
--- a/src/uhs/twophase/sentinel_2pc/controller.hpp
+++ b/src/uhs/twophase/sentinel_2pc/controller.hpp
@@ -93,7 +93,8 @@ namespace cbdc::sentinel_2pc {
 
         std::unique_ptr<secp256k1_context,
                         decltype(&secp256k1_context_destroy)>
-            m_secp{secp256k1_context_create(SECP256K1_CONTEXT_SIGN),
+            m_secp{secp256k1_context_create(SECP256K1_CONTEXT_SIGN
+                                            | SECP256K1_CONTEXT_VERIFY),
                    &secp256k1_context_destroy};
 
         coordinator::rpc::client m_coordinator_client;
-- 
2.43.0


From c598d91c1169552f1bf3be1a035264792e5bf852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:12 +0000
Subject: [PATCH 48/72] fix: sentinel without a private key aborted when asked
 for an attestation

The key is optional when the attestation threshold is zero.
---
 src/uhs/twophase/sentinel_2pc/controller.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/uhs/twophase/sentinel_2pc/controller.cpp b/src/uhs/twophase/sentinel_2pc/controller.cpp
index c475f16..4dce3be 100644
--- a/src/uhs/twophase/sentinel_2pc/controller.cpp
+++ b/src/uhs/twophase/sentinel_2pc/controller.cpp
@@ -151,6 +151,11 @@ namespace cbdc::sentinel_2pc {
             result_callback(std::nullopt);
             return true;
         }
+        if(m_privkey == privkey_t{}) {
+            m_logger->error("No private key to attest with");
+            result_callback(std::nullopt);
+            return true;
+        }
         auto compact_tx = cbdc::transaction::compact_tx(tx);
         auto attestation = compact_tx.sign(m_secp.get(), m_privkey);
         result_callback(std::move(attestation));
-- 
2.43.0


From d2842fcd2299a6e2ccc8eecf3e7e3b5d1977de76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:12 +0000
Subject: [PATCH 49/72] fix: data race on the random generator of the two-phase
 commit sentinel

---
 src/uhs/twophase/sentinel_2pc/controller.cpp | 5 ++++-
 src/uhs/twophase/sentinel_2pc/controller.hpp | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/uhs/twophase/sentinel_2pc/controller.cpp b/src/uhs/twophase/sentinel_2pc/controller.cpp
index 4dce3be..f54a652 100644
--- a/src/uhs/twophase/sentinel_2pc/controller.cpp
+++ b/src/uhs/twophase/sentinel_2pc/controller.cpp
@@ -203,7 +203,10 @@ namespace cbdc::sentinel_2pc {
             }
             auto success = false;
             while(!success) {
-                auto sentinel_id = m_dist(m_rand);
+                auto sentinel_id = [&]() {
+                    std::unique_lock l(m_rand_mut);
+                    return m_dist(m_rand);
+                }();
                 if(requested.find(sentinel_id) != requested.end()) {
                     continue;
                 }
diff --git a/src/uhs/twophase/sentinel_2pc/controller.hpp b/src/uhs/twophase/sentinel_2pc/controller.hpp
index fb61c7d..2026653 100644
--- a/src/uhs/twophase/sentinel_2pc/controller.hpp
+++ b/src/uhs/twophase/sentinel_2pc/controller.hpp
@@ -17,6 +17,7 @@
 #include "util/common/hashmap.hpp"
 #include "util/network/connection_manager.hpp"
 
+#include <mutex>
 #include <random>
 
 namespace cbdc::sentinel_2pc {
@@ -105,6 +106,7 @@ namespace cbdc::sentinel_2pc {
         std::random_device m_r{};
         std::default_random_engine m_rand{m_r()};
         std::uniform_int_distribution<size_t> m_dist{};
+        std::mutex m_rand_mut;
 
         privkey_t m_privkey{};
     };
-- 
2.43.0


From 32f23f34bee5e45bbfdb9e12cb69602efda6f482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:12 +0000
Subject: [PATCH 50/72] fix: atomizer sentinels required each other to be
 running to start

Connecting to the other sentinels is retried in the background, as in the
two-phase commit sentinel; requiring it at start left no order in which more
than one sentinel could be started.
---
 src/uhs/atomizer/sentinel/controller.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/uhs/atomizer/sentinel/controller.cpp b/src/uhs/atomizer/sentinel/controller.cpp
index 2d563b6..a587821 100644
--- a/src/uhs/atomizer/sentinel/controller.cpp
+++ b/src/uhs/atomizer/sentinel/controller.cpp
@@ -59,9 +59,8 @@ namespace cbdc::sentinel {
             auto client = std::make_unique<sentinel::rpc::client>(
                 std::vector<network::endpoint_t>{ep},
                 m_logger);
-            if(!client->init()) {
-                m_logger->error("Failed to start sentinel client");
-                return false;
+            if(!client->init(false)) {
+                m_logger->warn("Failed to start sentinel client");
             }
             m_sentinel_clients.emplace_back(std::move(client));
         }
-- 
2.43.0


From 90b24a6d11f8d0df332abee92533d3b69abcc115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:06 +0000
Subject: [PATCH 51/72] fix: sentinels destroyed members still used by requests
 in progress

The RPC server was destroyed last, so requests arriving meanwhile and the
responses of other components used members already destroyed.
---
 src/uhs/atomizer/sentinel/controller.cpp     | 13 +++++++++++++
 src/uhs/atomizer/sentinel/controller.hpp     |  8 +++++++-
 src/uhs/atomizer/sentinel/server.cpp         |  2 ++
 src/uhs/sentinel/client.cpp                  |  4 ++++
 src/uhs/sentinel/client.hpp                  |  5 +++++
 src/uhs/twophase/coordinator/client.cpp      |  4 ++++
 src/uhs/twophase/coordinator/client.hpp      |  5 +++++
 src/uhs/twophase/sentinel_2pc/controller.cpp | 17 +++++++++++++++++
 src/uhs/twophase/sentinel_2pc/controller.hpp |  7 ++++++-
 9 files changed, 63 insertions(+), 2 deletions(-)

diff --git a/src/uhs/atomizer/sentinel/controller.cpp b/src/uhs/atomizer/sentinel/controller.cpp
index a587821..f94f808 100644
--- a/src/uhs/atomizer/sentinel/controller.cpp
+++ b/src/uhs/atomizer/sentinel/controller.cpp
@@ -19,6 +19,16 @@ namespace cbdc::sentinel {
           m_opts(std::move(opts)),
           m_logger(std::move(logger)) {}
 
+    controller::~controller() {
+        // The requests being handled and the responses from other sentinels
+        // use each other, so end both before destroying anything.
+        m_running = false;
+        for(auto& client : m_sentinel_clients) {
+            client->close();
+        }
+        m_rpc_server.reset();
+    }
+
     auto controller::init() -> bool {
         auto skey = m_opts.m_sentinel_private_keys.find(m_sentinel_id);
         if(skey == m_opts.m_sentinel_private_keys.end()) {
@@ -161,6 +171,9 @@ namespace cbdc::sentinel {
             }
             auto success = false;
             while(!success) {
+                if(!m_running) {
+                    return;
+                }
                 auto sentinel_id = [&]() {
                     std::unique_lock l(m_rand_mut);
                     return m_dist(m_rand);
diff --git a/src/uhs/atomizer/sentinel/controller.hpp b/src/uhs/atomizer/sentinel/controller.hpp
index 8c45690..e802b03 100644
--- a/src/uhs/atomizer/sentinel/controller.hpp
+++ b/src/uhs/atomizer/sentinel/controller.hpp
@@ -13,7 +13,9 @@
 #include "util/common/config.hpp"
 #include "util/network/connection_manager.hpp"
 
+#include <atomic>
 #include <memory>
+#include <mutex>
 #include <random>
 
 namespace cbdc::sentinel {
@@ -34,7 +36,9 @@ namespace cbdc::sentinel {
                    config::options opts,
                    std::shared_ptr<logging::log> logger);
 
-        ~controller() override = default;
+        /// Destructor. Completes the requests in progress before stopping the
+        /// server.
+        ~controller() override;
 
         /// Initializes the controller. Establishes connections to the shards
         /// \return true if initialization succeeded.
@@ -84,6 +88,8 @@ namespace cbdc::sentinel {
 
         privkey_t m_privkey{};
 
+        std::atomic_bool m_running{true};
+
         void send_transaction(const transaction::full_tx& tx);
 
         void validate_result_handler(async_interface::validate_result v_res,
diff --git a/src/uhs/atomizer/sentinel/server.cpp b/src/uhs/atomizer/sentinel/server.cpp
index 3d9f8f4..5ed63cd 100644
--- a/src/uhs/atomizer/sentinel/server.cpp
+++ b/src/uhs/atomizer/sentinel/server.cpp
@@ -32,6 +32,8 @@ namespace cbdc::sentinel::rpc {
                 t.join();
             }
         }
+        // Requests may still arrive until here.
+        m_srv.reset();
     }
 
     auto server::handle_request() -> bool {
diff --git a/src/uhs/sentinel/client.cpp b/src/uhs/sentinel/client.cpp
index c45eef1..c04c23d 100644
--- a/src/uhs/sentinel/client.cpp
+++ b/src/uhs/sentinel/client.cpp
@@ -23,6 +23,10 @@ namespace cbdc::sentinel::rpc {
         return true;
     }
 
+    void client::close() {
+        m_client.close();
+    }
+
     auto client::execute_transaction(cbdc::transaction::full_tx tx)
         -> std::optional<execute_response> {
         auto res = m_client.call(execute_request{std::move(tx)});
diff --git a/src/uhs/sentinel/client.hpp b/src/uhs/sentinel/client.hpp
index a08f1fe..8075ec3 100644
--- a/src/uhs/sentinel/client.hpp
+++ b/src/uhs/sentinel/client.hpp
@@ -37,6 +37,11 @@ namespace cbdc::sentinel::rpc {
         /// \see \ref cbdc::rpc::tcp_client::init(std::optional<bool>)
         auto init(std::optional<bool> error_fatal = std::nullopt) -> bool;
 
+        /// Disconnects from the sentinels. Outstanding requests remain
+        /// unanswered and later ones fail. Requests may be in progress in
+        /// other threads.
+        void close();
+
         /// Result type from execute_transaction.
         using execute_result_type
             = std::optional<cbdc::sentinel::execute_response>;
diff --git a/src/uhs/twophase/coordinator/client.cpp b/src/uhs/twophase/coordinator/client.cpp
index cbd5a57..46d386f 100644
--- a/src/uhs/twophase/coordinator/client.cpp
+++ b/src/uhs/twophase/coordinator/client.cpp
@@ -16,6 +16,10 @@ namespace cbdc::coordinator::rpc {
         return m_client->init();
     }
 
+    void client::close() {
+        m_client->close();
+    }
+
     auto client::execute_transaction(transaction::compact_tx tx,
                                      callback_type result_callback) -> bool {
         return m_client->call(std::move(tx), std::move(result_callback));
diff --git a/src/uhs/twophase/coordinator/client.hpp b/src/uhs/twophase/coordinator/client.hpp
index ceeb53c..e7b0d01 100644
--- a/src/uhs/twophase/coordinator/client.hpp
+++ b/src/uhs/twophase/coordinator/client.hpp
@@ -31,6 +31,11 @@ namespace cbdc::coordinator::rpc {
         ///         connecting to it failed. Otherwise true.
         auto init() -> bool;
 
+        /// Disconnects from the coordinators. Outstanding requests remain
+        /// unanswered and later ones fail. Requests may be in progress in
+        /// other threads.
+        void close();
+
         /// Requests execution of the given transaction using the coordinator
         /// cluster. \see interface::execute_transaction.
         /// \param tx transaction to execution.
diff --git a/src/uhs/twophase/sentinel_2pc/controller.cpp b/src/uhs/twophase/sentinel_2pc/controller.cpp
index f54a652..73948b8 100644
--- a/src/uhs/twophase/sentinel_2pc/controller.cpp
+++ b/src/uhs/twophase/sentinel_2pc/controller.cpp
@@ -24,6 +24,17 @@ namespace cbdc::sentinel_2pc {
                                                opts.m_coordinator_endpoints
                                                    .size())]) {}
 
+    controller::~controller() {
+        // The requests being handled and the responses from other components
+        // use each other, so end both before destroying anything.
+        m_running = false;
+        for(auto& client : m_sentinel_clients) {
+            client->close();
+        }
+        m_coordinator_client.close();
+        m_rpc_server.reset();
+    }
+
     auto controller::init() -> bool {
         if(m_opts.m_sentinel_endpoints.empty()) {
             m_logger->error("No sentinel endpoints are defined.");
@@ -203,6 +214,9 @@ namespace cbdc::sentinel_2pc {
             }
             auto success = false;
             while(!success) {
+                if(!m_running) {
+                    return;
+                }
                 auto sentinel_id = [&]() {
                     std::unique_lock l(m_rand_mut);
                     return m_dist(m_rand);
@@ -246,6 +260,9 @@ namespace cbdc::sentinel_2pc {
             //       reconnection events so we have to sleep here to
             //       prevent a needless spin. Instead, add such a callback
             //       or queue to the network to remove this sleep.
+            if(!m_running) {
+                return;
+            }
             static constexpr auto retry_delay = std::chrono::milliseconds(100);
             std::this_thread::sleep_for(retry_delay);
         };
diff --git a/src/uhs/twophase/sentinel_2pc/controller.hpp b/src/uhs/twophase/sentinel_2pc/controller.hpp
index 2026653..9101db1 100644
--- a/src/uhs/twophase/sentinel_2pc/controller.hpp
+++ b/src/uhs/twophase/sentinel_2pc/controller.hpp
@@ -17,6 +17,7 @@
 #include "util/common/hashmap.hpp"
 #include "util/network/connection_manager.hpp"
 
+#include <atomic>
 #include <mutex>
 #include <random>
 
@@ -38,7 +39,9 @@ namespace cbdc::sentinel_2pc {
                    const config::options& opts,
                    std::shared_ptr<logging::log> logger);
 
-        ~controller() override = default;
+        /// Destructor. Completes the requests in progress before stopping the
+        /// server.
+        ~controller() override;
 
         /// Initializes the controller. Connects to the shard coordinator
         /// network and launches a server thread for external clients.
@@ -109,6 +112,8 @@ namespace cbdc::sentinel_2pc {
         std::mutex m_rand_mut;
 
         privkey_t m_privkey{};
+
+        std::atomic_bool m_running{true};
     };
 }
 
-- 
2.43.0


From 5c2fb987dce3a99292e9e139ed4632f13a867391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:41 +0000
Subject: [PATCH 52/72] fix: sentinel client aborted on a response of the wrong
 type

A remote sentinel answering an attestation request with another kind of
response ended the asking sentinel.
---
 src/uhs/sentinel/client.cpp | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/uhs/sentinel/client.cpp b/src/uhs/sentinel/client.cpp
index c04c23d..b7f92c2 100644
--- a/src/uhs/sentinel/client.cpp
+++ b/src/uhs/sentinel/client.cpp
@@ -10,6 +10,18 @@
 #include "util/serialization/util.hpp"
 
 namespace cbdc::sentinel::rpc {
+    namespace {
+        /// Returns the response if there is one of the requested type.
+        template<typename T>
+        auto response_of(const std::optional<response>& res)
+            -> std::optional<T> {
+            if(!res.has_value() || !std::holds_alternative<T>(res.value())) {
+                return std::nullopt;
+            }
+            return std::get<T>(res.value());
+        }
+    }
+
     client::client(std::vector<network::endpoint_t> endpoints,
                    std::shared_ptr<logging::log> logger)
         : m_logger(std::move(logger)),
@@ -30,10 +42,7 @@ namespace cbdc::sentinel::rpc {
     auto client::execute_transaction(cbdc::transaction::full_tx tx)
         -> std::optional<execute_response> {
         auto res = m_client.call(execute_request{std::move(tx)});
-        if(!res.has_value()) {
-            return std::nullopt;
-        }
-        return std::get<execute_response>(res.value());
+        return response_of<execute_response>(res);
     }
 
     auto client::execute_transaction(
@@ -42,21 +51,14 @@ namespace cbdc::sentinel::rpc {
         return m_client.call(
             execute_request{std::move(tx)},
             [cb = std::move(result_callback)](std::optional<response> res) {
-                if(!res.has_value()) {
-                    cb(std::nullopt);
-                    return;
-                }
-                cb(std::get<execute_response>(res.value()));
+                cb(response_of<execute_response>(res));
             });
     }
 
     auto client::validate_transaction(cbdc::transaction::full_tx tx)
         -> std::optional<validate_response> {
         auto res = m_client.call(validate_request{std::move(tx)});
-        if(!res.has_value()) {
-            return std::nullopt;
-        }
-        return std::get<validate_response>(res.value());
+        return response_of<validate_response>(res);
     }
 
     auto client::validate_transaction(
@@ -65,11 +67,7 @@ namespace cbdc::sentinel::rpc {
         return m_client.call(
             validate_request{std::move(tx)},
             [cb = std::move(result_callback)](std::optional<response> res) {
-                if(!res.has_value()) {
-                    cb(std::nullopt);
-                    return;
-                }
-                cb(std::get<validate_response>(res.value()));
+                cb(response_of<validate_response>(res));
             });
     }
 }
-- 
2.43.0


From ef7f122d1ea653b570d54c514500ef0d140b6b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:03 +0000
Subject: [PATCH 53/72] fix: wallet kept a spent output in its spend queue

Confirming a transaction whose inputs the wallet still holds (one it did not
create itself) removed them from the set of outputs only, and aborted.
---
 src/uhs/transaction/wallet.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/uhs/transaction/wallet.cpp b/src/uhs/transaction/wallet.cpp
index 059bd68..3cab0a0 100644
--- a/src/uhs/transaction/wallet.cpp
+++ b/src/uhs/transaction/wallet.cpp
@@ -228,6 +228,9 @@ namespace cbdc {
             const auto erased = m_utxos_set.erase(inp) > 0;
             if(erased) {
                 m_balance -= inp.m_prevout_data.m_value;
+                m_spend_queue.remove_if([&](const transaction::input& utxo) {
+                    return utxo.m_prevout == inp.m_prevout;
+                });
             }
         }
         assert(m_spend_queue.size() == m_utxos_set.size());
-- 
2.43.0


From c1b719476b4d1ca7051a78f03670edea082698d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:03 +0000
Subject: [PATCH 54/72] fix: wallet created invalid transactions for sends of
 nothing

---
 src/uhs/transaction/wallet.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/uhs/transaction/wallet.cpp b/src/uhs/transaction/wallet.cpp
index 3cab0a0..89ade3a 100644
--- a/src/uhs/transaction/wallet.cpp
+++ b/src/uhs/transaction/wallet.cpp
@@ -496,6 +496,11 @@ namespace cbdc {
 
     auto transaction::wallet::accumulate_inputs(uint64_t amount)
         -> std::optional<std::pair<full_tx, uint64_t>> {
+        if(amount == 0) {
+            // A transaction needs inputs and non-zero outputs to be valid
+            return std::nullopt;
+        }
+
         uint64_t total_amount = 0;
         auto ret = full_tx();
         {
-- 
2.43.0


From 8cda48843de1829c5d70a701726b7aafb93d9405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:03 +0000
Subject: [PATCH 55/72] fix: concurrent key generation raced on the wallet's
 random engine

---
 src/uhs/transaction/wallet.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uhs/transaction/wallet.cpp b/src/uhs/transaction/wallet.cpp
index 89ade3a..512c21d 100644
--- a/src/uhs/transaction/wallet.cpp
+++ b/src/uhs/transaction/wallet.cpp
@@ -126,7 +126,8 @@ namespace cbdc {
         {
             // TODO: add config parameter where 0 = never reuse.
             static constexpr size_t max_keys = 10000;
-            std::shared_lock<std::shared_mutex> lg(m_keys_mut);
+            // Picking a random key changes the state of the generator
+            std::unique_lock<std::shared_mutex> lg(m_keys_mut);
             if(m_keys.size() > max_keys) {
                 std::uniform_int_distribution<size_t> keyshuffle_dist(
                     0,
-- 
2.43.0


From b1438dfd96fa08b05532b5c8738cbb98900cee84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:03 +0000
Subject: [PATCH 56/72] fix: interrupted or failed save destroyed the wallet

The wallet file was truncated and rewritten in place, write errors were
ignored, and an incomplete file was loaded (and then saved again) as if it
were the whole wallet.
---
 src/uhs/transaction/wallet.cpp | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/uhs/transaction/wallet.cpp b/src/uhs/transaction/wallet.cpp
index 512c21d..c91e7c4 100644
--- a/src/uhs/transaction/wallet.cpp
+++ b/src/uhs/transaction/wallet.cpp
@@ -11,6 +11,7 @@
 #include "util/serialization/istream_serializer.hpp"
 #include "util/serialization/ostream_serializer.hpp"
 
+#include <filesystem>
 #include <secp256k1_schnorrsig.h>
 
 namespace cbdc {
@@ -309,7 +310,10 @@ namespace cbdc {
     }
 
     void transaction::wallet::save(const std::string& wallet_file) const {
-        std::ofstream wal_file(wallet_file,
+        // Only replace the previous file once the new one is complete so that
+        // the keys survive if saving is interrupted.
+        const auto tmp_file = wallet_file + ".tmp";
+        std::ofstream wal_file(tmp_file,
                                std::ios::binary | std::ios::trunc
                                    | std::ios::out);
         if(!wal_file.good()) {
@@ -320,13 +324,19 @@ namespace cbdc {
         }
         auto ser = ostream_serializer(wal_file);
         {
+            // Lock both so that each saved output has its key saved too
             std::shared_lock<std::shared_mutex> lk(m_keys_mut);
-            ser << m_keys;
+            std::shared_lock<std::shared_mutex> lu(m_utxos_mut);
+            ser << m_keys << m_utxos_set;
         }
 
-        {
-            std::shared_lock<std::shared_mutex> lu(m_utxos_mut);
-            ser << m_utxos_set;
+        wal_file.close();
+        auto err = std::error_code();
+        if(wal_file.good()) {
+            std::filesystem::rename(tmp_file, wallet_file, err);
+        }
+        if(!wal_file.good() || err) {
+            std::exit(EXIT_FAILURE);
         }
     }
 
@@ -364,6 +374,12 @@ namespace cbdc {
                     m_spend_queue.push_back(utxo);
                 }
             }
+
+            if(!deser) {
+                // Continuing would overwrite the file with an incomplete
+                // wallet.
+                std::exit(EXIT_FAILURE);
+            }
         }
     }
 
-- 
2.43.0


From 1eeb4fd9af674f729a8e3ed8068a3a6368383ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:02 +0000
Subject: [PATCH 57/72] fix: client lost all but one of the inputs received
 from a transaction

Pending inputs were keyed by the transaction that created them, so that
importing a second output of the same transaction (a fan-out, say) was
silently ignored.
---
 src/uhs/client/atomizer_client.cpp |  4 ++--
 src/uhs/client/client.cpp          | 12 ++++++++----
 src/uhs/client/client.hpp          |  4 ++--
 src/uhs/client/twophase_client.cpp |  4 ++--
 4 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/uhs/client/atomizer_client.cpp b/src/uhs/client/atomizer_client.cpp
index 04274e8..e81a595 100644
--- a/src/uhs/client/atomizer_client.cpp
+++ b/src/uhs/client/atomizer_client.cpp
@@ -50,8 +50,8 @@ namespace cbdc {
                               ctx.m_uhs_outputs.end());
         }
 
-        for(const auto& [tx_id, in] : pending_inputs()) {
-            tus.insert({tx_id, {in.hash()}});
+        for(const auto& [in_hash, in] : pending_inputs()) {
+            tus[in.m_prevout.m_tx_id].push_back(in_hash);
         }
 
         cbdc::watchtower::status_update_request req{tus};
diff --git a/src/uhs/client/client.cpp b/src/uhs/client/client.cpp
index cf6e886..bb4ab21 100644
--- a/src/uhs/client/client.cpp
+++ b/src/uhs/client/client.cpp
@@ -203,7 +203,7 @@ namespace cbdc {
 
     void client::import_send_input(const transaction::input& in) {
         if(m_wallet.is_spendable(in)) {
-            m_pending_inputs.insert({in.m_prevout.m_tx_id, in});
+            m_pending_inputs.insert({in.hash(), in});
             save();
         } else {
             m_logger->warn("Ignoring non-spendable input");
@@ -295,10 +295,14 @@ namespace cbdc {
             success = true;
         }
 
-        const auto pi_it = m_pending_inputs.find(tx_id);
-        if(pi_it != m_pending_inputs.end()) {
+        for(auto pi_it = m_pending_inputs.begin();
+            pi_it != m_pending_inputs.end();) {
+            if(pi_it->second.m_prevout.m_tx_id != tx_id) {
+                pi_it++;
+                continue;
+            }
             m_wallet.confirm_inputs({pi_it->second});
-            m_pending_inputs.erase(pi_it);
+            pi_it = m_pending_inputs.erase(pi_it);
             success = true;
         }
 
diff --git a/src/uhs/client/client.hpp b/src/uhs/client/client.hpp
index ae3cb6d..40957e7 100644
--- a/src/uhs/client/client.hpp
+++ b/src/uhs/client/client.hpp
@@ -266,7 +266,7 @@ namespace cbdc {
         /// Returns the current set of pending inputs imported into this client
         /// via the \ref import_send_input method which the system has yet to
         /// confirm.
-        /// \return a map of transaction ID to pending input.
+        /// \return a map of input hash to pending input.
         [[nodiscard]] auto pending_inputs() const
             -> std::unordered_map<hash_t, transaction::input, hashing::null>;
 
@@ -288,7 +288,7 @@ namespace cbdc {
             m_pending_spend;
 
         /// List of pending inputs added by client::import_send_input, indexed
-        /// by the Tx ID of the transaction that created them.
+        /// by their hash as one transaction can create several of them.
         std::unordered_map<hash_t, transaction::input, hashing::null>
             m_pending_inputs;
 
diff --git a/src/uhs/client/twophase_client.cpp b/src/uhs/client/twophase_client.cpp
index 5c1cb4b..47b665f 100644
--- a/src/uhs/client/twophase_client.cpp
+++ b/src/uhs/client/twophase_client.cpp
@@ -40,8 +40,8 @@ namespace cbdc {
         for(const auto& [tx_id, tx] : pending_txs()) {
             txids.insert(tx_id);
         }
-        for(const auto& [tx_id, inp] : pending_inputs()) {
-            txids.insert(tx_id);
+        for(const auto& [in_hash, inp] : pending_inputs()) {
+            txids.insert(inp.m_prevout.m_tx_id);
         }
 
         for(const auto& tx_id : txids) {
-- 
2.43.0


From 510eebf4a04a3dc974f05a2871a3e10101896d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:02 +0000
Subject: [PATCH 58/72] fix: one unconfirmed transaction kept a client from
 settling the others

After a transaction that was not confirmed, atomizer_client::sync skipped all
later ones in the response.
---
 src/uhs/client/atomizer_client.cpp | 32 ++++++++++++++++--------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/uhs/client/atomizer_client.cpp b/src/uhs/client/atomizer_client.cpp
index e81a595..ae5717c 100644
--- a/src/uhs/client/atomizer_client.cpp
+++ b/src/uhs/client/atomizer_client.cpp
@@ -51,7 +51,7 @@ namespace cbdc {
         }
 
         for(const auto& [in_hash, in] : pending_inputs()) {
-            tus[in.m_prevout.m_tx_id].push_back(in_hash);
+            tus[in.m_prevout.m_tx_id].push_back(in.hash());
         }
 
         cbdc::watchtower::status_update_request req{tus};
@@ -62,24 +62,26 @@ namespace cbdc {
 
         bool success{true};
         for(const auto& [tx_id, uhs_states] : res->states()) {
+            // The transaction is in a block if any of its UHS IDs was spent
+            // or created by it.
+            bool confirmed{false};
             for(const auto& s : uhs_states) {
-                if((s.status() != cbdc::watchtower::search_status::unspent)
-                   && (s.status() != cbdc::watchtower::search_status::spent)) {
-                    m_logger->warn("Tx ID:",
-                                   to_string(tx_id),
-                                   ", UHS ID:",
-                                   to_string(s.uhs_id()),
-                                   ", status:",
-                                   static_cast<uint32_t>(s.status()));
-                    success = false;
-                    continue;
+                if((s.status() == cbdc::watchtower::search_status::unspent)
+                   || (s.status()
+                       == cbdc::watchtower::search_status::spent)) {
+                    confirmed = true;
+                    break;
                 }
-                break;
+                m_logger->warn("Tx ID:",
+                               to_string(tx_id),
+                               ", UHS ID:",
+                               to_string(s.uhs_id()),
+                               ", status:",
+                               static_cast<uint32_t>(s.status()));
             }
-            if(!success) {
-                continue;
+            if(!confirmed || !confirm_transaction(tx_id)) {
+                success = false;
             }
-            success = confirm_transaction(tx_id);
         }
 
         return success;
-- 
2.43.0


From e70f4735c1d9057ecef55ea44159733160e1f3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:02 +0000
Subject: [PATCH 59/72] fix: client hung or crashed without a watchtower

Requests to a watchtower that is not connected waited for ever, a missing
response was dereferenced and a client whose watchtower connection failed
aborted when it was destroyed.
---
 src/uhs/atomizer/watchtower/client.cpp | 14 ++++++++++++--
 src/uhs/client/atomizer_client.cpp     | 11 ++++++++++-
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/uhs/atomizer/watchtower/client.cpp b/src/uhs/atomizer/watchtower/client.cpp
index 8afee9d..f81ce0b 100644
--- a/src/uhs/atomizer/watchtower/client.cpp
+++ b/src/uhs/atomizer/watchtower/client.cpp
@@ -16,7 +16,9 @@ namespace cbdc::watchtower {
 
     blocking_client::~blocking_client() {
         m_network.close();
-        m_client_thread.join();
+        if(m_client_thread.joinable()) {
+            m_client_thread.join();
+        }
     }
 
     auto blocking_client::init() -> bool {
@@ -43,6 +45,9 @@ namespace cbdc::watchtower {
 
     auto blocking_client::request_best_block_height()
         -> std::shared_ptr<best_block_height_response> {
+        if(!m_network.connected_to_one()) {
+            return nullptr;
+        }
         auto data = request{cbdc::watchtower::best_block_height_request{}};
         auto pkt = make_shared_buffer(data);
         m_network.broadcast(pkt);
@@ -58,6 +63,9 @@ namespace cbdc::watchtower {
     auto
     blocking_client::request_status_update(const status_update_request& req)
         -> std::shared_ptr<status_request_check_success> {
+        if(!m_network.connected_to_one()) {
+            return nullptr;
+        }
         auto data = request{req};
         auto pkt = make_shared_buffer(data);
         m_network.broadcast(pkt);
@@ -79,7 +87,9 @@ namespace cbdc::watchtower {
         if(m_handler_thread.joinable()) {
             m_handler_thread.join();
         }
-        m_client_thread.join();
+        if(m_client_thread.joinable()) {
+            m_client_thread.join();
+        }
     }
 
     auto async_client::init() -> bool {
diff --git a/src/uhs/client/atomizer_client.cpp b/src/uhs/client/atomizer_client.cpp
index ae5717c..9e95d93 100644
--- a/src/uhs/client/atomizer_client.cpp
+++ b/src/uhs/client/atomizer_client.cpp
@@ -59,6 +59,10 @@ namespace cbdc {
         m_logger->debug("Checking watchtower state...");
 
         auto res = m_wc.request_status_update(req);
+        if(!res) {
+            m_logger->error("No response from watchtower");
+            return false;
+        }
 
         bool success{true};
         for(const auto& [tx_id, uhs_states] : res->states()) {
@@ -97,7 +101,12 @@ namespace cbdc {
             ctx.m_attestations.insert(att);
         }
         msg.m_tx = std::move(ctx);
-        msg.m_block_height = m_wc.request_best_block_height()->height();
+        auto best_height = m_wc.request_best_block_height();
+        if(!best_height) {
+            m_logger->error("No response from watchtower");
+            return false;
+        }
+        msg.m_block_height = best_height->height();
         return m_atomizer_network.send_to_one(atomizer::request{msg});
     }
 }
-- 
2.43.0


From a4ff46575a5a8df23e68670c6764085983100cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:02 +0000
Subject: [PATCH 60/72] fix: late mint response used destroyed variables

The callback referred to local variables after the wait for it timed out,
changed the client's state from another thread and did not end the wait when
the mint failed.
---
 src/uhs/client/twophase_client.cpp | 33 +++++++++++++++---------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/uhs/client/twophase_client.cpp b/src/uhs/client/twophase_client.cpp
index 47b665f..c82356f 100644
--- a/src/uhs/client/twophase_client.cpp
+++ b/src/uhs/client/twophase_client.cpp
@@ -81,23 +81,13 @@ namespace cbdc {
                 = ctx.sign(m_secp.get(), m_opts.m_sentinel_private_keys[i]);
             ctx.m_attestations.insert(att);
         }
-        auto done = std::promise<void>();
-        auto done_fut = done.get_future();
+        // The response may arrive after we stopped waiting for it
+        auto done = std::make_shared<std::promise<std::optional<bool>>>();
+        auto done_fut = done->get_future();
         auto res = m_coordinator_client.execute_transaction(
             ctx,
-            [&, tx_id = ctx.m_id](std::optional<bool> success) {
-                if(!success.has_value()) {
-                    m_logger->error(
-                        "Coordinator error processing transaction");
-                    return;
-                }
-                if(!success.value()) {
-                    m_logger->error("Coordinator rejected transaction");
-                    return;
-                }
-                confirm_transaction(tx_id);
-                m_logger->info("Confirmed mint TX");
-                done.set_value();
+            [done](std::optional<bool> success) {
+                done->set_value(success);
             });
         if(!res) {
             m_logger->error("Failed to send transaction to coordinator");
@@ -109,6 +99,17 @@ namespace cbdc {
             m_logger->error("Timed out waiting for mint response");
             return false;
         }
-        return res;
+        const auto success = done_fut.get();
+        if(!success.has_value()) {
+            m_logger->error("Coordinator error processing transaction");
+            return false;
+        }
+        if(!success.value()) {
+            m_logger->error("Coordinator rejected transaction");
+            return false;
+        }
+        confirm_transaction(ctx.m_id);
+        m_logger->info("Confirmed mint TX");
+        return true;
     }
 }
-- 
2.43.0


From be4f852db90969db529213f91deed8774d927d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:02 +0000
Subject: [PATCH 61/72] fix: client lost money if it stopped while saving its
 state

The client and wallet files were rewritten in place one after the other:
stopping in between lost the outputs of a transaction being confirmed or
abandoned, or allowed spending the same outputs again. A transaction was also
recorded only after its inputs had been taken from the wallet.
---
 src/uhs/client/client.cpp      | 48 +++++++++++++++++++++++++++++-----
 src/uhs/client/client.hpp      |  7 +++++
 src/uhs/transaction/wallet.cpp |  5 ++++
 src/uhs/transaction/wallet.hpp |  4 +++
 4 files changed, 57 insertions(+), 7 deletions(-)

diff --git a/src/uhs/client/client.cpp b/src/uhs/client/client.cpp
index bb4ab21..1f8a205 100644
--- a/src/uhs/client/client.cpp
+++ b/src/uhs/client/client.cpp
@@ -115,8 +115,6 @@ namespace cbdc {
         for(const auto& in : tx.m_inputs) {
             m_pending_spend.insert({in.hash(), in});
         }
-
-        save();
     }
 
     auto client::create_transaction(uint32_t value, const pubkey_t& payee)
@@ -127,6 +125,7 @@ namespace cbdc {
         }
 
         register_pending_tx(tx.value());
+        save();
 
         return tx;
     }
@@ -137,12 +136,15 @@ namespace cbdc {
         static constexpr auto null_return
             = std::make_pair(std::nullopt, std::nullopt);
 
-        auto spend_tx = create_transaction(value, payee);
+        auto spend_tx = m_wallet.send_to(value, payee, true);
         if(!spend_tx.has_value()) {
             m_logger->error("Failed to generate wallet spend tx.");
             return null_return;
         }
 
+        // Saved along with the transaction by send_transaction()
+        register_pending_tx(spend_tx.value());
+
         auto res = send_transaction(spend_tx.value());
         if(!res.has_value()) {
             return null_return;
@@ -273,7 +275,7 @@ namespace cbdc {
             success = true;
         }
 
-        save();
+        save_settled();
 
         return success;
     }
@@ -306,7 +308,7 @@ namespace cbdc {
             success = true;
         }
 
-        save();
+        save_settled();
 
         return success;
     }
@@ -320,22 +322,49 @@ namespace cbdc {
                  >> m_pending_spend)) {
                 m_logger->fatal("Error deserializing client file");
             }
+
+            // If we stopped between saving one file and the other the wallet
+            // may still hold outputs which are in use, or hold those it is
+            // to receive when the transaction is confirmed.
+            auto unavailable = std::vector<transaction::input>();
+            for(const auto& [in_hash, in] : m_pending_spend) {
+                unavailable.push_back(in);
+            }
+            for(const auto& [in_hash, in] : m_pending_inputs) {
+                unavailable.push_back(in);
+            }
+            for(const auto& [tx_id, tx] : m_pending_txs) {
+                for(uint32_t i = 0; i < tx.m_outputs.size(); i++) {
+                    unavailable.push_back(
+                        transaction::input_from_output(tx, i, tx_id).value());
+                }
+            }
+            m_wallet.remove_inputs(unavailable);
         } else {
             m_logger->warn("Existing client file not found");
         }
     }
 
     void client::save_client_state() {
-        std::ofstream client_file(m_client_file,
+        // Only replace the previous file once the new one is complete
+        const auto tmp_file = m_client_file + ".tmp";
+        std::ofstream client_file(tmp_file,
                                   std::ios::binary | std::ios::trunc
                                       | std::ios::out);
         if(!client_file.good()) {
             m_logger->fatal("Failed to open client file for saving");
         }
         auto ser = cbdc::ostream_serializer(client_file);
-        if(!(ser << m_pending_txs << m_pending_inputs << m_pending_spend)) {
+        ser << m_pending_txs << m_pending_inputs << m_pending_spend;
+        client_file.close();
+        if(!client_file.good()) {
             m_logger->fatal("Failed to write client data");
         }
+        auto err = std::error_code();
+        std::filesystem::rename(tmp_file, m_client_file, err);
+        if(err) {
+            m_logger->fatal("Failed to replace client file");
+        }
     }
 
     void client::save() {
@@ -343,6 +372,11 @@ namespace cbdc {
         m_wallet.save(m_wallet_file);
     }
 
+    void client::save_settled() {
+        m_wallet.save(m_wallet_file);
+        save_client_state();
+    }
+
     auto client::pending_txs() const
         -> std::unordered_map<hash_t, transaction::full_tx, hashing::null> {
         return m_pending_txs;
diff --git a/src/uhs/client/client.hpp b/src/uhs/client/client.hpp
index 40957e7..598f0ba 100644
--- a/src/uhs/client/client.hpp
+++ b/src/uhs/client/client.hpp
@@ -305,8 +305,15 @@ namespace cbdc {
         void load_client_state();
         void save_client_state();
 
+        /// Saves the client and wallet state after outputs moved from the
+        /// wallet to the pending transactions.
         void save();
 
+        /// Saves the client and wallet state after outputs moved from the
+        /// pending transactions to the wallet. Whichever file is saved last,
+        /// the outputs are in one of the files at any time.
+        void save_settled();
+
         void register_pending_tx(const transaction::full_tx& tx);
     };
 }
diff --git a/src/uhs/transaction/wallet.cpp b/src/uhs/transaction/wallet.cpp
index c91e7c4..e5690ed 100644
--- a/src/uhs/transaction/wallet.cpp
+++ b/src/uhs/transaction/wallet.cpp
@@ -471,6 +471,11 @@ namespace cbdc {
         update_balance(credits, {});
     }
 
+    void transaction::wallet::remove_inputs(
+        const std::vector<transaction::input>& debits) {
+        update_balance({}, debits);
+    }
+
     auto transaction::wallet::fan(size_t output_count,
                                   uint32_t value,
                                   const pubkey_t& payee,
diff --git a/src/uhs/transaction/wallet.hpp b/src/uhs/transaction/wallet.hpp
index 4414f58..c41292a 100644
--- a/src/uhs/transaction/wallet.hpp
+++ b/src/uhs/transaction/wallet.hpp
@@ -211,6 +211,10 @@ namespace cbdc::transaction {
         /// \param credits the inputs to add to the wallet's set of UTXOs.
         void confirm_inputs(const std::vector<input>& credits);
 
+        /// Removes the given inputs from the wallet, if it holds them.
+        /// \param debits inputs which are no longer available to spend.
+        void remove_inputs(const std::vector<input>& debits);
+
       private:
         struct cmp_input {
             auto operator()(const input& lhs, const input& rhs) const -> bool {
-- 
2.43.0


From 107b108e9427acf4caeeef31f9d4d901c585402a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:26 +0000
Subject: [PATCH 62/72] fix: raft state lost when it could not be written

A failed write of the cluster configuration or of the election state
(disk full, say) was ignored, and the incomplete file replaced the
previous one. The server could vote twice in a term after restarting.
---
 src/util/raft/state_manager.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/util/raft/state_manager.cpp b/src/util/raft/state_manager.cpp
index 45b2ff8..2e93e1a 100644
--- a/src/util/raft/state_manager.cpp
+++ b/src/util/raft/state_manager.cpp
@@ -7,9 +7,11 @@
 
 #include "log_store.hpp"
 
+#include <cstdlib>
 #include <cstring>
 #include <filesystem>
 #include <fstream>
+#include <iostream>
 #include <utility>
 
 namespace cbdc::raft {
@@ -33,13 +35,23 @@ namespace cbdc::raft {
 
         const auto tmp_file = filename + ".tmp";
         std::ofstream file(tmp_file, std::ios::binary | std::ios::trunc);
-        assert(file.good());
+        if(!file.good()) {
+            std::cerr << "Failed to open " << tmp_file << std::endl;
+            std::abort();
+        }
 
         file.write(char_buf.data(),
                    static_cast<std::streamsize>(char_buf.size()));
         file.flush();
         file.close();
 
+        if(!file.good()) {
+            // Continuing without having stored the configuration or vote
+            // would be unsafe, as would be replacing the previous file.
+            std::cerr << "Failed to write " << tmp_file << std::endl;
+            std::abort();
+        }
+
         std::filesystem::rename(tmp_file, filename);
     }
 
-- 
2.43.0


From 937f0247134b69d5b3246b433bfbcd0854d0e62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:26 +0000
Subject: [PATCH 63/72] fix: log store returned other entries than those asked
 for

If the first entries of the requested range had been compacted, the
following ones were returned in their place, so that a leader would have
sent entries under wrong indices. Return nullptr, as the interface
provides for.
---
 src/util/raft/log_store.cpp | 21 +++++++++++++--------
 src/util/raft/log_store.hpp |  3 ++-
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/util/raft/log_store.cpp b/src/util/raft/log_store.cpp
index e276bc1..2f1ccee 100644
--- a/src/util/raft/log_store.cpp
+++ b/src/util/raft/log_store.cpp
@@ -11,6 +11,13 @@
 #include <libnuraft/buffer_serializer.hxx>
 
 namespace cbdc::raft {
+    auto get_index(const leveldb::Slice& key) -> uint64_t {
+        uint64_t ret{};
+        assert(key.size() == sizeof(ret));
+        std::memcpy(&ret, key.data(), sizeof(ret));
+        return ret;
+    }
+
     template<bool First>
     auto get_first_or_last_index(leveldb::DB* db,
                                  const leveldb::ReadOptions& opt) -> uint64_t {
@@ -28,13 +35,7 @@ namespace cbdc::raft {
             }
         }
 
-        const auto last_log_key_slice = it->key();
-
-        uint64_t ret{};
-        assert(last_log_key_slice.size() == sizeof(ret));
-        std::memcpy(&ret, last_log_key_slice.data(), sizeof(ret));
-
-        return ret;
+        return get_index(it->key());
     }
 
     auto log_store::load(const std::string& db_dir) -> bool {
@@ -176,7 +177,10 @@ namespace cbdc::raft {
                     it->Next();
                     i++;
                 }()) {
-                assert(it->Valid());
+                if(!it->Valid() || get_index(it->key()) != start + i) {
+                    // Compacted meanwhile, or not written yet.
+                    return nullptr;
+                }
                 const auto val_slice = it->value();
                 auto entry = log_entry_from_slice(val_slice);
                 assert(entry);
@@ -218,6 +222,7 @@ namespace cbdc::raft {
         assert(cnt >= 0);
         const auto entries
             = log_entries(index, index + static_cast<uint64_t>(cnt));
+        assert(entries);
 
         std::vector<nuraft::ptr<nuraft::buffer>> bufs(
             static_cast<size_t>(cnt));
diff --git a/src/util/raft/log_store.hpp b/src/util/raft/log_store.hpp
index e993353..b98a9b1 100644
--- a/src/util/raft/log_store.hpp
+++ b/src/util/raft/log_store.hpp
@@ -63,7 +63,8 @@ namespace cbdc::raft {
         /// Return the log entries in the given range of indices.
         /// \param start first log entry to retrieve.
         /// \param end last log entry to retrieve (exclusive).
-        /// \return list of log entries.
+        /// \return list of log entries, or nullptr if some of them are not
+        ///         in the log.
         [[nodiscard]] auto log_entries(uint64_t start, uint64_t end)
             -> log_entries_t override;
 
-- 
2.43.0


From 50ff5432ec52376c7d966181106361567aba4685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:26 +0000
Subject: [PATCH 64/72] fix: log store reused indices after compacting all
 entries

A log whose entries were all compacted (after receiving a snapshot, say)
started again at index 1 when it was opened the next time. Store the
start index with the compaction. Compacting up to an index before the
start, which asked for a negative number of elements, does nothing.
---
 src/util/raft/log_store.cpp | 63 +++++++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 23 deletions(-)

diff --git a/src/util/raft/log_store.cpp b/src/util/raft/log_store.cpp
index 2f1ccee..becae30 100644
--- a/src/util/raft/log_store.cpp
+++ b/src/util/raft/log_store.cpp
@@ -5,7 +5,6 @@
 
 #include "log_store.hpp"
 
-#include <array>
 #include <cstring>
 #include <leveldb/write_batch.h>
 #include <libnuraft/buffer_serializer.hxx>
@@ -18,24 +17,36 @@ namespace cbdc::raft {
         return ret;
     }
 
+    /// There is no log entry 0. Its key holds the start index, which would
+    /// be lost otherwise when all entries are compacted.
+    static constexpr uint64_t start_index_key = 0;
+
     template<bool First>
     auto get_first_or_last_index(leveldb::DB* db,
                                  const leveldb::ReadOptions& opt) -> uint64_t {
         auto it = std::unique_ptr<leveldb::Iterator>(db->NewIterator(opt));
 
+        it->SeekToLast();
+        if(!it->Valid()) {
+            return First ? 1 : 0;
+        }
+
+        const auto last_idx = get_index(it->key());
+        if(last_idx == start_index_key) {
+            // No entries, but the log was compacted.
+            const auto start_idx = get_index(it->value());
+            return First ? start_idx : start_idx - 1;
+        }
+
         if constexpr(First) {
             it->SeekToFirst();
-            if(!it->Valid()) {
-                return 1;
-            }
-        } else {
-            it->SeekToLast();
-            if(!it->Valid()) {
-                return 0;
+            if(get_index(it->key()) == start_index_key) {
+                it->Next();
             }
+            return get_index(it->key());
         }
 
-        return get_index(it->key());
+        return last_idx;
     }
 
     auto log_store::load(const std::string& db_dir) -> bool {
@@ -92,7 +103,7 @@ namespace cbdc::raft {
 
             it->SeekToLast();
 
-            if(!it->Valid()) {
+            if(!it->Valid() || get_index(it->key()) == start_index_key) {
                 auto null_entry
                     = nuraft::cs_new<nuraft::log_entry>(0, nullptr);
                 return null_entry;
@@ -193,6 +204,10 @@ namespace cbdc::raft {
 
     auto log_store::entry_at(uint64_t index)
         -> nuraft::ptr<nuraft::log_entry> {
+        if(index == start_index_key) {
+            return nuraft::cs_new<nuraft::log_entry>(0, nullptr);
+        }
+
         const auto key = get_key_slice(index);
         std::string val;
 
@@ -298,6 +313,14 @@ namespace cbdc::raft {
         {
             std::lock_guard<std::mutex> l(m_db_mut);
 
+            if(last_log_index < m_start_idx) {
+                return true;
+            }
+
+            const auto start_key = get_key_slice(start_index_key);
+            const auto start_value = get_key_slice(last_log_index + 1);
+            batch.Put(start_key.first, start_value.first);
+
             const auto n_elems = last_log_index - m_start_idx + 1;
             std::vector<data_slice::second_type> data_slices(n_elems);
             for(uint64_t i{m_start_idx}; i <= last_log_index; i++) {
@@ -318,25 +341,19 @@ namespace cbdc::raft {
 
     auto log_store::flush() -> bool {
         // LevelDB does not provide a way to issue a single "flush" call. As a
-        // workaround make a dummy write with no lasting effects where sync =
-        // true.
+        // workaround write the start index, with no lasting effects, where
+        // sync = true.
 
         leveldb::WriteOptions sync_opts;
         sync_opts.sync = true;
 
-        leveldb::WriteBatch batch;
-
-        // Log entry 0 is always empty so we're not overwriting anything
-        // important
-        std::array<char, sizeof(uint64_t)> dummy_key_data{};
-        leveldb::Slice dummy_key_slice(dummy_key_data.data(),
-                                       dummy_key_data.size());
-        batch.Put(dummy_key_slice, dummy_key_slice);
-        batch.Delete(dummy_key_slice);
-
         {
             std::lock_guard<std::mutex> l(m_db_mut);
-            const auto status = m_db->Write(sync_opts, &batch);
+            const auto start_key = get_key_slice(start_index_key);
+            const auto start_value = get_key_slice(m_start_idx);
+            const auto status = m_db->Put(sync_opts,
+                                          start_key.first,
+                                          start_value.first);
             return status.ok();
         }
     }
-- 
2.43.0


From ae82b9a08a103b2f902e1959eace0b8d631c2a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:08 +0000
Subject: [PATCH 65/72] fix: malformed configuration values were misread

Values with trailing characters, negative numbers, unterminated strings,
empty values, log levels that do not exist, values of another type than
expected and parameters given twice were silently read as something else
or replaced by the default. Report an error instead.
---
 src/util/common/config.cpp | 114 +++++++++++++++++++++++++++----------
 src/util/common/config.hpp |  24 +++++++-
 2 files changed, 108 insertions(+), 30 deletions(-)

diff --git a/src/util/common/config.cpp b/src/util/common/config.cpp
index 08b2150..08b2b94 100644
--- a/src/util/common/config.cpp
+++ b/src/util/common/config.cpp
@@ -7,26 +7,43 @@
 
 #include <algorithm>
 #include <cassert>
+#include <charconv>
+#include <cstdlib>
+#include <limits>
 #include <sstream>
 
 namespace cbdc::config {
-    auto parse_ip_port(const std::string& in_str) -> network::endpoint_t {
-        // TODO: error handling for string parsing
-        std::istringstream ss(in_str);
+    auto parse_ulong(const std::string& in_str) -> std::optional<size_t> {
+        size_t ret{};
+        const auto* const end = in_str.data() + in_str.size();
+        const auto res = std::from_chars(in_str.data(), end, ret);
+        if(res.ec != std::errc() || res.ptr != end) {
+            return std::nullopt;
+        }
+        return ret;
+    }
 
-        std::string host;
-        [[maybe_unused]] const auto& host_res = std::getline(ss, host, ':');
-        assert(host_res);
+    auto maybe_parse_ip_port(const std::string& in_str)
+        -> std::optional<network::endpoint_t> {
+        const auto sep = in_str.find(':');
+        if(sep == std::string::npos || sep == 0) {
+            return std::nullopt;
+        }
 
-        std::string port_str;
-        [[maybe_unused]] const auto& port_res
-            = std::getline(ss, port_str, ':');
-        assert(port_res);
+        const auto port = parse_ulong(in_str.substr(sep + 1));
+        if(!port.has_value()
+           || port.value() > std::numeric_limits<unsigned short>::max()) {
+            return std::nullopt;
+        }
 
-        auto port = std::stoul(port_str);
-        assert(port <= std::numeric_limits<unsigned short>::max());
+        return network::endpoint_t{in_str.substr(0, sep),
+                                   static_cast<unsigned short>(port.value())};
+    }
 
-        return {host, static_cast<unsigned short>(port)};
+    auto parse_ip_port(const std::string& in_str) -> network::endpoint_t {
+        const auto ret = maybe_parse_ip_port(in_str);
+        assert(ret.has_value());
+        return ret.value();
     }
 
     void get_shard_key_prefix(std::stringstream& ss, size_t shard_id) {
@@ -676,6 +693,11 @@ namespace cbdc::config {
 
         read_loadgen_options(opts, cfg);
 
+        err = cfg.error();
+        if(err.has_value()) {
+            return err.value();
+        }
+
         return opts;
     }
 
@@ -794,8 +816,16 @@ namespace cbdc::config {
             std::string key;
             if(std::getline(line_stream, key, '=')) {
                 std::string value;
-                if(std::getline(line_stream, value)) {
-                    m_options.emplace(key, parse_value(value));
+                // A line without separator is not a parameter.
+                if(line_stream.eof()) {
+                    continue;
+                }
+                std::getline(line_stream, value);
+                const auto parsed = parse_value(value);
+                if(!parsed.has_value()) {
+                    set_error(key, "is malformed");
+                } else if(!m_options.emplace(key, parsed.value()).second) {
+                    set_error(key, "is specified more than once");
                 }
             }
         }
@@ -818,7 +848,11 @@ namespace cbdc::config {
             return std::nullopt;
         }
 
-        return parse_ip_port(val_str.value());
+        auto ret = maybe_parse_ip_port(val_str.value());
+        if(!ret.has_value()) {
+            set_error(key, "is not an endpoint");
+        }
+        return ret;
     }
 
     auto parser::get_loglevel(const std::string& key) const
@@ -827,7 +861,11 @@ namespace cbdc::config {
         if(!val_str.has_value()) {
             return std::nullopt;
         }
-        return logging::parse_loglevel(val_str.value());
+        auto ret = logging::parse_loglevel(val_str.value());
+        if(!ret.has_value()) {
+            set_error(key, "is not a log level");
+        }
+        return ret;
     }
 
     auto parser::get_decimal(const std::string& key) const
@@ -845,8 +883,11 @@ namespace cbdc::config {
                            return std::toupper(c);
                        });
         if(const auto* env_v = std::getenv(upper_key.c_str())) {
-            auto value = std::string(env_v);
-            return parse_value(value);
+            auto value = parse_value(env_v);
+            if(!value.has_value()) {
+                set_error(upper_key, "is malformed in the environment");
+            }
+            return value;
         }
 
         auto it = m_options.find(key);
@@ -857,17 +898,32 @@ namespace cbdc::config {
         return std::nullopt;
     }
 
-    auto parser::parse_value(const std::string& value) -> value_t {
-        if(value[0] != '\"' && value[value.size() - 1] != '\"') {
-            if(value.find('.') == std::string::npos) {
-                const auto as_int = static_cast<size_t>(std::stoull(value));
-                return as_int;
-            }
-            const auto as_dbl = std::stod(value);
-            return as_dbl;
+    auto parser::parse_value(const std::string& value)
+        -> std::optional<value_t> {
+        if(value.size() >= 2 && value.front() == '\"'
+           && value.back() == '\"') {
+            return value.substr(1, value.size() - 2);
         }
 
-        const auto unquoted = value.substr(1, value.size() - 2);
-        return unquoted;
+        if(value.find('.') == std::string::npos) {
+            return parse_ulong(value);
+        }
+
+        if(value.size() < 2 || std::count(value.begin(), value.end(), '.') != 1
+           || value.find_first_not_of("0123456789.") != std::string::npos) {
+            return std::nullopt;
+        }
+        return std::strtod(value.c_str(), nullptr);
+    }
+
+    auto parser::error() const -> std::optional<std::string> {
+        return m_error;
+    }
+
+    void parser::set_error(const std::string& key,
+                           const std::string& what) const {
+        if(!m_error.has_value()) {
+            m_error = "Configuration parameter " + key + " " + what;
+        }
     }
 }
diff --git a/src/util/common/config.hpp b/src/util/common/config.hpp
index 9ed00fe..c141811 100644
--- a/src/util/common/config.hpp
+++ b/src/util/common/config.hpp
@@ -365,6 +365,12 @@ namespace cbdc::config {
         [[nodiscard]] auto get_decimal(const std::string& key) const
             -> std::optional<double>;
 
+        /// Return the first error found while parsing the parameters or
+        /// retrieving one of them: a malformed value, one specified more than
+        /// once, or one of another type than requested.
+        /// \return error message or std::nullopt if there was no error.
+        [[nodiscard]] auto error() const -> std::optional<std::string>;
+
       private:
         using value_t = std::variant<std::string, size_t, double>;
 
@@ -380,6 +386,7 @@ namespace cbdc::config {
                 if(val != nullptr) {
                     return *val;
                 }
+                set_error(key, "has the wrong type");
             }
 
             return std::nullopt;
@@ -388,11 +395,26 @@ namespace cbdc::config {
         void init(std::istream& stream);
 
         [[nodiscard]] static auto parse_value(const std::string& val)
-            -> value_t;
+            -> std::optional<value_t>;
+
+        void set_error(const std::string& key, const std::string& what) const;
 
         std::map<std::string, value_t> m_options;
+        mutable std::optional<std::string> m_error;
     };
 
+    /// Parses a decimal number.
+    /// \param in_str string to parse.
+    /// \return the number or std::nullopt if the string contains anything
+    ///         else or the number is out of range.
+    auto parse_ulong(const std::string& in_str) -> std::optional<size_t>;
+
+    /// Parses an endpoint in the form "hostname:port".
+    /// \param in_str string to parse.
+    /// \return the endpoint or std::nullopt if the string is malformed.
+    auto maybe_parse_ip_port(const std::string& in_str)
+        -> std::optional<network::endpoint_t>;
+
     auto parse_ip_port(const std::string& in_str) -> network::endpoint_t;
 }
 
-- 
2.43.0


From 931a63c1aa8d56c89d9d3968654a8cb2390759ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:08 +0000
Subject: [PATCH 66/72] fix: configured numbers were silently truncated

A shard range above 255 or a raft parameter above 2^31 - 1 was reduced
to another value, so that a component would be responsible for other UHS
IDs than configured. Refuse these and shard ranges that end before they
start.
---
 src/util/common/config.cpp | 55 +++++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 16 deletions(-)

diff --git a/src/util/common/config.cpp b/src/util/common/config.cpp
index 08b2b94..b491d8d 100644
--- a/src/util/common/config.cpp
+++ b/src/util/common/config.cpp
@@ -6,6 +6,7 @@
 #include "config.hpp"
 
 #include <algorithm>
+#include <array>
 #include <cassert>
 #include <charconv>
 #include <cstdlib>
@@ -348,6 +349,11 @@ namespace cbdc::config {
                 return "No range end specified for shard " + std::to_string(i)
                      + " (" + end_key + ")";
             }
+            if(*range_end > std::numeric_limits<uint8_t>::max()
+               || *range_start > *range_end) {
+                return "Invalid range specified for shard " + std::to_string(i)
+                     + " (" + start_key + ", " + end_key + ")";
+            }
             const auto shard_range
                 = std::make_pair(static_cast<uint8_t>(*range_start),
                                  static_cast<uint8_t>(*range_end));
@@ -604,24 +610,38 @@ namespace cbdc::config {
         return std::nullopt;
     }
 
-    void read_raft_options(options& opts, const parser& cfg) {
-        opts.m_election_timeout_upper = static_cast<int32_t>(
-            cfg.get_ulong(election_timeout_upper_key)
-                .value_or(opts.m_election_timeout_upper));
-        opts.m_election_timeout_lower = static_cast<int32_t>(
-            cfg.get_ulong(election_timeout_lower_key)
-                .value_or(opts.m_election_timeout_lower));
-        opts.m_heartbeat = static_cast<int32_t>(
-            cfg.get_ulong(heartbeat_key).value_or(opts.m_heartbeat));
-        opts.m_snapshot_distance
-            = static_cast<int32_t>(cfg.get_ulong(snapshot_distance_key)
-                                       .value_or(opts.m_snapshot_distance));
-        opts.m_raft_max_batch
-            = static_cast<int32_t>(cfg.get_ulong(raft_batch_size_key)
-                                       .value_or(opts.m_raft_max_batch));
+    auto read_int32(int32_t& val, const parser& cfg, const std::string& key)
+        -> std::optional<std::string> {
+        const auto maybe_val = cfg.get_ulong(key);
+        if(!maybe_val.has_value()) {
+            return std::nullopt;
+        }
+        if(maybe_val.value() > std::numeric_limits<int32_t>::max()) {
+            return "Value out of range (" + key + ")";
+        }
+        val = static_cast<int32_t>(maybe_val.value());
+        return std::nullopt;
+    }
+
+    auto read_raft_options(options& opts, const parser& cfg)
+        -> std::optional<std::string> {
+        const auto params = std::array<std::pair<int32_t*, const char*>, 5>{
+            {{&opts.m_election_timeout_upper, election_timeout_upper_key},
+             {&opts.m_election_timeout_lower, election_timeout_lower_key},
+             {&opts.m_heartbeat, heartbeat_key},
+             {&opts.m_snapshot_distance, snapshot_distance_key},
+             {&opts.m_raft_max_batch, raft_batch_size_key}}};
+        for(const auto& [val, key] : params) {
+            auto err = read_int32(*val, cfg, key);
+            if(err.has_value()) {
+                return err;
+            }
+        }
 
         opts.m_batch_size
             = cfg.get_ulong(batch_size_key).value_or(opts.m_batch_size);
+
+        return std::nullopt;
     }
 
     void read_loadgen_options(options& opts, const parser& cfg) {
@@ -689,7 +709,10 @@ namespace cbdc::config {
             return err.value();
         }
 
-        read_raft_options(opts, cfg);
+        err = read_raft_options(opts, cfg);
+        if(err.has_value()) {
+            return err.value();
+        }
 
         read_loadgen_options(opts, cfg);
 
-- 
2.43.0


From bb8ac9416bc2239fc54642524e98d72247c9720f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:08 +0000
Subject: [PATCH 67/72] fix: malformed program arguments were misread or ended
 the process

PArSEC components took numbers and endpoints with trailing characters
for the leading part, an unknown log level for the default, and threw on
others, although malformed arguments are to be reported as an error.
---
 src/parsec/util.cpp | 54 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 13 deletions(-)

diff --git a/src/parsec/util.cpp b/src/parsec/util.cpp
index 4ac830f..f6748dd 100644
--- a/src/parsec/util.cpp
+++ b/src/parsec/util.cpp
@@ -5,6 +5,7 @@
 
 #include "util.hpp"
 
+#include <cstdlib>
 #include <future>
 #include <unordered_map>
 
@@ -41,7 +42,9 @@ namespace cbdc::parsec {
                 return std::nullopt;
             }
 
-            opts.emplace(elems[0], elems[1]);
+            if(!opts.emplace(elems[0], elems[1]).second) {
+                return std::nullopt;
+            }
         }
         return opts;
     }
@@ -57,16 +60,22 @@ namespace cbdc::parsec {
         if(it == opts.end()) {
             return std::nullopt;
         }
-        auto count = std::stoull(it->second);
+        auto count = cbdc::config::parse_ulong(it->second);
+        if(!count.has_value()) {
+            return std::nullopt;
+        }
 
-        for(size_t i = 0; i < count; i++) {
+        for(size_t i = 0; i < count.value(); i++) {
             auto ep_key = component_name + std::to_string(i) + "_endpoint";
             it = opts.find(ep_key);
             if(it == opts.end()) {
                 return std::nullopt;
             }
-            auto ep = cbdc::config::parse_ip_port(it->second);
-            ret.emplace_back(ep);
+            auto ep = cbdc::config::maybe_parse_ip_port(it->second);
+            if(!ep.has_value()) {
+                return std::nullopt;
+            }
+            ret.emplace_back(ep.value());
         }
 
         return ret;
@@ -83,9 +92,12 @@ namespace cbdc::parsec {
         if(it == opts.end()) {
             return std::nullopt;
         }
-        auto count = std::stoull(it->second);
+        auto count = cbdc::config::parse_ulong(it->second);
+        if(!count.has_value()) {
+            return std::nullopt;
+        }
 
-        for(size_t i = 0; i < count; i++) {
+        for(size_t i = 0; i < count.value(); i++) {
             auto node_name = component_name + std::to_string(i);
             auto eps = read_endpoints(opts, node_name);
             if(!eps.has_value()) {
@@ -111,16 +123,21 @@ namespace cbdc::parsec {
         if(it == opts->end()) {
             return std::nullopt;
         }
-        cfg.m_component_id = std::stoull(it->second);
+        auto component_id = cbdc::config::parse_ulong(it->second);
+        if(!component_id.has_value()) {
+            return std::nullopt;
+        }
+        cfg.m_component_id = component_id.value();
 
         cfg.m_loglevel = logging::log_level::trace;
         constexpr auto loglevel_key = "loglevel";
         it = opts->find(loglevel_key);
         if(it != opts->end()) {
             auto maybe_loglevel = logging::parse_loglevel(it->second);
-            if(maybe_loglevel.has_value()) {
-                cfg.m_loglevel = maybe_loglevel.value();
+            if(!maybe_loglevel.has_value()) {
+                return std::nullopt;
             }
+            cfg.m_loglevel = maybe_loglevel.value();
         }
 
         auto ticket_machine_endpoints
@@ -133,7 +150,10 @@ namespace cbdc::parsec {
         constexpr auto node_id_key = "node_id";
         it = opts->find(node_id_key);
         if(it != opts->end()) {
-            cfg.m_node_id = std::stoull(it->second);
+            cfg.m_node_id = cbdc::config::parse_ulong(it->second);
+            if(!cfg.m_node_id.has_value()) {
+                return std::nullopt;
+            }
         }
 
         auto shard_endpoints = read_cluster_endpoints(opts.value(), "shard");
@@ -165,7 +185,11 @@ namespace cbdc::parsec {
         constexpr auto contention_rate_key = "contention_rate";
         it = opts->find(contention_rate_key);
         if(it != opts->end()) {
-            cfg.m_contention_rate = std::stod(it->second);
+            char* end{};
+            cfg.m_contention_rate = std::strtod(it->second.c_str(), &end);
+            if(it->second.empty() || *end != '\0') {
+                return std::nullopt;
+            }
         }
 
         constexpr auto default_loadgen_accounts = 1000;
@@ -173,7 +197,11 @@ namespace cbdc::parsec {
         constexpr auto loadgen_accounts_key = "loadgen_accounts";
         it = opts->find(loadgen_accounts_key);
         if(it != opts->end()) {
-            cfg.m_loadgen_accounts = std::stoull(it->second);
+            auto accounts = cbdc::config::parse_ulong(it->second);
+            if(!accounts.has_value()) {
+                return std::nullopt;
+            }
+            cfg.m_loadgen_accounts = accounts.value();
         }
 
         constexpr auto runner_type_key = "runner_type";
-- 
2.43.0


From 290faf9648291540b863dd3402a78ee52cd93c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:55 +0000
Subject: [PATCH 68/72] fix: large component counts in the configuration ended
 the process

The endpoint lists were allocated for the configured count before it
was known that the components exist. Report the first one missing.
---
 src/util/common/config.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/util/common/config.cpp b/src/util/common/config.cpp
index b491d8d..a21051f 100644
--- a/src/util/common/config.cpp
+++ b/src/util/common/config.cpp
@@ -263,10 +263,10 @@ namespace cbdc::config {
         -> std::optional<std::string> {
         const auto shard_count = cfg.get_ulong(shard_count_key).value_or(0);
         if(opts.m_twophase_mode) {
-            opts.m_locking_shard_endpoints.resize(shard_count);
-            opts.m_locking_shard_raft_endpoints.resize(shard_count);
-            opts.m_locking_shard_readonly_endpoints.resize(shard_count);
             for(size_t i{0}; i < shard_count; i++) {
+                opts.m_locking_shard_endpoints.emplace_back();
+                opts.m_locking_shard_raft_endpoints.emplace_back();
+                opts.m_locking_shard_readonly_endpoints.emplace_back();
                 const auto node_count_key = get_shard_node_count_key(i);
                 const auto node_count = cfg.get_ulong(node_count_key);
                 if(!node_count) {
@@ -390,9 +390,9 @@ namespace cbdc::config {
         -> std::optional<std::string> {
         const auto coordinator_count
             = cfg.get_ulong(coordinator_count_key).value_or(0);
-        opts.m_coordinator_endpoints.resize(coordinator_count);
-        opts.m_coordinator_raft_endpoints.resize(coordinator_count);
         for(size_t i{0}; i < coordinator_count; i++) {
+            opts.m_coordinator_endpoints.emplace_back();
+            opts.m_coordinator_raft_endpoints.emplace_back();
             const auto loglevel_key = get_coordinator_loglevel_key(i);
             const auto coordinator_loglevel
                 = cfg.get_loglevel(loglevel_key).value_or(defaults::log_level);
-- 
2.43.0


From f3ed3f5a984866818c73aa8a9bcefae746a483b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:13 +0000
Subject: [PATCH 69/72] fix: archiver client never recovered from a lost
 connection

---
 src/uhs/atomizer/archiver/client.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/uhs/atomizer/archiver/client.cpp b/src/uhs/atomizer/archiver/client.cpp
index 953698b..116926f 100644
--- a/src/uhs/atomizer/archiver/client.cpp
+++ b/src/uhs/atomizer/archiver/client.cpp
@@ -23,8 +23,14 @@ namespace cbdc::archiver {
     auto client::get_block(uint64_t height)
         -> std::optional<cbdc::atomizer::block> {
         m_logger->info("Requesting block", height, "from archiver...");
+        if(!m_sock.connected() && !m_sock.connect(m_endpoint)) {
+            m_logger->error("Not connected to archiver.");
+            return std::nullopt;
+        }
+
         if(!m_sock.send(height)) {
             m_logger->error("Error requesting block from archiver.");
+            m_sock.disconnect();
             return std::nullopt;
         }
 
@@ -32,6 +38,7 @@ namespace cbdc::archiver {
         cbdc::buffer resp_pkt;
         if(!m_sock.receive(resp_pkt)) {
             m_logger->error("Error receiving block from archiver.");
+            m_sock.disconnect();
             return std::nullopt;
         }
 
-- 
2.43.0


From 8e1b87433b4091e1417eb00e5850d27350971e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:13 +0000
Subject: [PATCH 70/72] fix: watchtower hung on a block it already had

---
 src/uhs/atomizer/watchtower/controller.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/uhs/atomizer/watchtower/controller.cpp b/src/uhs/atomizer/watchtower/controller.cpp
index 7ffe9a2..cee548b 100644
--- a/src/uhs/atomizer/watchtower/controller.cpp
+++ b/src/uhs/atomizer/watchtower/controller.cpp
@@ -104,6 +104,10 @@ auto cbdc::watchtower::controller::atomizer_handler(
                     "with",
                     blk.m_transactions.size(),
                     "transactions.");
+    if(blk.m_height <= m_last_blk_height) {
+        m_logger->warn("Ignoring block", blk.m_height, "already received.");
+        return std::nullopt;
+    }
     if(blk.m_height != (m_last_blk_height + 1)) {
         m_logger->warn("Block not contiguous. Last block:", m_last_blk_height);
         while(blk.m_height != (m_last_blk_height + 1)) {
-- 
2.43.0


From f75c182c0da8826453c730b103d2e9c545e7d28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:13 +0000
Subject: [PATCH 71/72] fix: shard and watchtower could not stop while awaiting
 the archiver

---
 src/uhs/atomizer/shard/controller.cpp      | 4 ++++
 src/uhs/atomizer/shard/controller.hpp      | 2 ++
 src/uhs/atomizer/watchtower/controller.cpp | 4 ++++
 src/uhs/atomizer/watchtower/controller.hpp | 1 +
 4 files changed, 11 insertions(+)

diff --git a/src/uhs/atomizer/shard/controller.cpp b/src/uhs/atomizer/shard/controller.cpp
index 12ab569..231ee9a 100644
--- a/src/uhs/atomizer/shard/controller.cpp
+++ b/src/uhs/atomizer/shard/controller.cpp
@@ -21,6 +21,7 @@ namespace cbdc::shard {
           m_archiver_client(m_opts.m_archiver_endpoints[0], m_logger) {}
 
     controller::~controller() {
+        m_running = false;
         m_shard_network.close();
         m_atomizer_network.close();
 
@@ -140,6 +141,9 @@ namespace cbdc::shard {
                 if(past_blk) {
                     m_shard.digest_block(past_blk.value());
                 } else {
+                    if(!m_running) {
+                        return std::nullopt;
+                    }
                     m_logger->info("Waiting for archiver sync");
                     const auto wait_time = std::chrono::milliseconds(10);
                     std::this_thread::sleep_for(wait_time);
diff --git a/src/uhs/atomizer/shard/controller.hpp b/src/uhs/atomizer/shard/controller.hpp
index fde3870..782c50b 100644
--- a/src/uhs/atomizer/shard/controller.hpp
+++ b/src/uhs/atomizer/shard/controller.hpp
@@ -57,6 +57,8 @@ namespace cbdc::shard {
 
         cbdc::archiver::client m_archiver_client;
 
+        std::atomic_bool m_running{true};
+
         blocking_queue<network::message_t> m_request_queue;
         std::vector<std::thread> m_handler_threads;
 
diff --git a/src/uhs/atomizer/watchtower/controller.cpp b/src/uhs/atomizer/watchtower/controller.cpp
index cee548b..6aa27ab 100644
--- a/src/uhs/atomizer/watchtower/controller.cpp
+++ b/src/uhs/atomizer/watchtower/controller.cpp
@@ -23,6 +23,7 @@ cbdc::watchtower::controller::controller(
       m_archiver_client(m_opts.m_archiver_endpoints[0], log) {}
 
 cbdc::watchtower::controller::~controller() {
+    m_running = false;
     m_internal_network.close();
     m_external_network.close();
     m_atomizer_network.close();
@@ -114,6 +115,9 @@ auto cbdc::watchtower::controller::atomizer_handler(
             auto missed_blk
                 = m_archiver_client.get_block(m_last_blk_height + 1);
             if(!missed_blk) {
+                if(!m_running) {
+                    return std::nullopt;
+                }
                 m_logger->warn("Waiting for archiver sync");
                 static constexpr auto archiver_wait_time
                     = std::chrono::milliseconds(100);
diff --git a/src/uhs/atomizer/watchtower/controller.hpp b/src/uhs/atomizer/watchtower/controller.hpp
index a503dc8..23b9b6f 100644
--- a/src/uhs/atomizer/watchtower/controller.hpp
+++ b/src/uhs/atomizer/watchtower/controller.hpp
@@ -45,6 +45,7 @@ namespace cbdc::watchtower {
 
         watchtower m_watchtower;
         std::atomic<uint64_t> m_last_blk_height{0};
+        std::atomic_bool m_running{true};
 
         cbdc::network::connection_manager m_internal_network;
         cbdc::network::connection_manager m_external_network;
-- 
2.43.0


From 60a83cb6f85d7a7009086fa53796d2d9ad24da35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:14 +0000
Subject: [PATCH 72/72] fix: a listener opened again could wait on sockets of
 its earlier use

---
 src/util/network/socket_selector.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/util/network/socket_selector.cpp b/src/util/network/socket_selector.cpp
index 58affff..ff56f4a 100644
--- a/src/util/network/socket_selector.cpp
+++ b/src/util/network/socket_selector.cpp
@@ -17,6 +17,10 @@ namespace cbdc::network {
         m_ready_fds = m_fds;
         const auto nfds
             = select(m_fd_max + 1, &m_ready_fds, nullptr, nullptr, nullptr);
+        if(nfds < 0) {
+            // m_ready_fds is not meaningful
+            return false;
+        }
         // This macro does not bounds-check fd within m_fds. Since it comes
         // from the system library there's nothing we can do about it.
         // m_unblock_fds is set in init() and checked for validity so this
@@ -47,6 +51,15 @@ namespace cbdc::network {
     }
 
     auto socket_selector::init() -> bool {
+        // Forget the sockets of an earlier use, they might not exist anymore
+        FD_ZERO(&m_fds);
+        m_fd_max = -1;
+        for(auto& fd : m_unblock_fds) {
+            if(fd != -1) {
+                close(fd);
+                fd = -1;
+            }
+        }
         auto pipe_res = pipe(m_unblock_fds.data());
         if(pipe_res != 0) {
             return false;
-- 
2.43.0

