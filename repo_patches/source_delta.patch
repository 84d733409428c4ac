From 7e856e9fcbaed94053c92caafc2edfb547213ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:26 +0000
Subject: [PATCH 01/47] fix: SafeQueue blocking pushes treat a limit of 0 as no
 limit, as documented

---
 .../mem_mdlw/include/klepsydra/mem_core/safe_queue.h        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
index d331aab..c6b9e7f 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
@@ -89,7 +89,7 @@ public:
         std::unique_lock<std::mutex> lock(m_mutex);
         m_non_full_condition.wait(lock,
                                   [this]() // Lambda funct
-                                  { return m_queue.size() < m_max_num_items; });
+                                  { return m_max_num_items == 0 || m_queue.size() < m_max_num_items; });
 
         m_queue.push(item);
         m_non_empty_condition.notify_one();
@@ -106,7 +106,7 @@ public:
         std::unique_lock<std::mutex> lock(m_mutex);
         m_non_full_condition.wait(lock,
                                   [this]() // Lambda funct
-                                  { return m_queue.size() < m_max_num_items; });
+                                  { return m_max_num_items == 0 || m_queue.size() < m_max_num_items; });
 
         m_queue.push(item);
         m_non_empty_condition.notify_one();
@@ -123,7 +123,7 @@ public:
         std::unique_lock<std::mutex> lock(m_mutex);
         m_non_full_condition.wait(lock,
                                   [this]() // Lambda funct
-                                  { return m_queue.size() < m_max_num_items; });
+                                  { return m_max_num_items == 0 || m_queue.size() < m_max_num_items; });
 
         m_queue.push(std::move(item));
         m_non_empty_condition.notify_one();
-- 
2.43.0


From 1487c82f77b86a0b87f33c50935fcf84b87b32a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:26 +0000
Subject: [PATCH 02/47] fix: SafeQueue timed pops re-test for an item after
 waking up

A spurious wake-up, or another consumer taking the item first, made
timeout_pop and timeout_move_pop read the front of an empty queue.
---
 .../mem_mdlw/include/klepsydra/mem_core/safe_queue.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
index c6b9e7f..11168e7 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
@@ -287,8 +287,10 @@ public:
             if (timeout == 0)
                 return false;
 
-            if (m_non_empty_condition.wait_for(lock, std::chrono::microseconds(timeout)) ==
-                std::cv_status::timeout)
+            if (!m_non_empty_condition.wait_for(lock,
+                                                std::chrono::microseconds(timeout),
+                                                [this]() // Lambda funct
+                                                { return !m_queue.empty(); }))
                 return false;
         }
 
@@ -315,8 +317,10 @@ public:
             if (timeout == 0)
                 return false;
 
-            if (m_non_empty_condition.wait_for(lock, std::chrono::microseconds(timeout)) ==
-                std::cv_status::timeout)
+            if (!m_non_empty_condition.wait_for(lock,
+                                                std::chrono::microseconds(timeout),
+                                                [this]() // Lambda funct
+                                                { return !m_queue.empty(); }))
                 return false;
         }
 
-- 
2.43.0


From b5f68a40618fc898986745fdbcd59c6f45f7437a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:26 +0000
Subject: [PATCH 03/47] fix: SafeQueue copies and moves keep the limit of their
 source

They lost it, so a queue constructed from a bounded one was unbounded.
The move also read its source without the lock.
---
 .../mem_mdlw/include/klepsydra/mem_core/safe_queue.h     | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
index 11168e7..cfe5daf 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
@@ -59,7 +59,13 @@ public:
      * @brief SafeQueue
      * @param sq
      */
-    SafeQueue(SafeQueue &&sq) { m_queue = std::move(sq.m_queue); }
+    SafeQueue(SafeQueue &&sq)
+    {
+        std::lock_guard<std::mutex> lock(sq.m_mutex);
+        m_queue = std::move(sq.m_queue);
+        m_max_num_items = sq.m_max_num_items;
+        sq.m_non_full_condition.notify_all();
+    }
 
     /**
      * @brief SafeQueue
@@ -69,6 +75,7 @@ public:
     {
         std::lock_guard<std::mutex> lock(sq.m_mutex);
         m_queue = sq.m_queue;
+        m_max_num_items = sq.m_max_num_items;
     }
 
     ~SafeQueue() { std::lock_guard<std::mutex> lock(m_mutex); }
-- 
2.43.0


From 86f4ce2dcadec30a1f65e220341e1dbfa2332994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 04/47] fix: SafeQueue::set_max_num_items wakes producers
 waiting for room

A producer blocked on a full queue stayed blocked after the limit was
raised, and the limit was written without the lock.
---
 .../mem_mdlw/include/klepsydra/mem_core/safe_queue.h       | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
index cfe5daf..a2cddd3 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
@@ -84,7 +84,12 @@ public:
      * @brief set_max_num_items Sets the maximum number of items in the queue. Defaults is 0: No limit
      * @param max_num_items
      */
-    void set_max_num_items(unsigned int max_num_items) { m_max_num_items = max_num_items; }
+    void set_max_num_items(unsigned int max_num_items)
+    {
+        std::lock_guard<std::mutex> lock(m_mutex);
+        m_max_num_items = max_num_items;
+        m_non_full_condition.notify_all();
+    }
 
     /**
      * @brief push Pushes the item into the queue. It blocks if the queue is full
-- 
2.43.0


From 52ff2f024ecf7c455b389a040e40f05c211d7c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 05/47] fix: SafeQueue swap and assignment take both locks
 without deadlock

Two queues swapped with (or assigned to) each other concurrently took the
two locks in opposite orders; the move assignment did not lock its source;
producers waiting for room were not woken when the contents changed.
---
 .../include/klepsydra/mem_core/safe_queue.h   | 30 ++++++++++++++-----
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
index a2cddd3..4b501d1 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
@@ -379,8 +379,9 @@ public:
     void swap(SafeQueue &sq)
     {
         if (this != &sq) {
-            std::lock_guard<std::mutex> lock1(m_mutex);
-            std::lock_guard<std::mutex> lock2(sq.m_mutex);
+            std::unique_lock<std::mutex> lock1(m_mutex, std::defer_lock);
+            std::unique_lock<std::mutex> lock2(sq.m_mutex, std::defer_lock);
+            std::lock(lock1, lock2);
             m_queue.swap(sq.m_queue);
 
             if (!m_queue.empty())
@@ -388,6 +389,9 @@ public:
 
             if (!sq.m_queue.empty())
                 sq.m_non_empty_condition.notify_all();
+
+            m_non_full_condition.notify_all();
+            sq.m_non_full_condition.notify_all();
         }
     }
 
@@ -399,13 +403,16 @@ public:
     SafeQueue &operator=(const SafeQueue &sq)
     {
         if (this != &sq) {
-            std::lock_guard<std::mutex> lock1(m_mutex);
-            std::lock_guard<std::mutex> lock2(sq.m_mutex);
+            std::unique_lock<std::mutex> lock1(m_mutex, std::defer_lock);
+            std::unique_lock<std::mutex> lock2(sq.m_mutex, std::defer_lock);
+            std::lock(lock1, lock2);
             std::queue<T, Container> temp{sq.m_queue};
             m_queue.swap(temp);
 
             if (!m_queue.empty())
                 m_non_empty_condition.notify_all();
+
+            m_non_full_condition.notify_all();
         }
 
         return *this;
@@ -418,11 +425,18 @@ public:
      */
     SafeQueue &operator=(SafeQueue &&sq)
     {
-        std::lock_guard<std::mutex> lock(m_mutex);
-        m_queue = std::move(sq.m_queue);
+        if (this != &sq) {
+            std::unique_lock<std::mutex> lock1(m_mutex, std::defer_lock);
+            std::unique_lock<std::mutex> lock2(sq.m_mutex, std::defer_lock);
+            std::lock(lock1, lock2);
+            m_queue = std::move(sq.m_queue);
 
-        if (!m_queue.empty())
-            m_non_empty_condition.notify_all();
+            if (!m_queue.empty())
+                m_non_empty_condition.notify_all();
+
+            m_non_full_condition.notify_all();
+            sq.m_non_full_condition.notify_all();
+        }
 
         return *this;
     }
-- 
2.43.0


From 53df8a9a5ee58e1f1b5947cd8623e43daa96b579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:42 +0000
Subject: [PATCH 06/47] fix: multi producer capacity check no longer truncates
 the cursor to 32 bits

---
 .../high_performance/disruptor4cpp/multi_producer_sequencer.h   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
index 02fe4d2..49f4b61 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
@@ -230,7 +230,7 @@ private:
     static constexpr int INDEX_MASK = static_cast<int>(BufferSize) - 1;
     static constexpr int INDEX_SHIFT = util::log2(BufferSize);
 
-    bool has_available_capacity(int required_capacity, int cursor_value)
+    bool has_available_capacity(int required_capacity, int64_t cursor_value)
     {
         int64_t wrap_point = (cursor_value + required_capacity) - static_cast<int64_t>(BufferSize);
         int64_t cached_gating_sequence = gating_sequence_cache_.get();
-- 
2.43.0


From 51b08435fdaef4328181386cdb6e3f1bbce8388a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:42 +0000
Subject: [PATCH 07/47] fix: multi producer publication makes the event visible
 before its availability flag

---
 .../disruptor4cpp/multi_producer_sequencer.h         | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
index 49f4b61..6f59442 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
@@ -47,9 +47,9 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #ifndef DISRUPTOR4CPP_MULTI_PRODUCER_SEQUENCER_H_
 #define DISRUPTOR4CPP_MULTI_PRODUCER_SEQUENCER_H_
 
+#include <atomic>
 #include <cstddef>
 #include <cstdint>
-#include <cstring>
 #include <memory>
 #include <stdexcept>
 #include <thread>
@@ -79,7 +79,9 @@ public:
         , wait_strategy_()
         , gating_sequences_()
     {
-        std::memset(available_buffer_, ~0, sizeof(available_buffer_));
+        for (auto &flag : available_buffer_) {
+            flag.store(-1, std::memory_order_relaxed);
+        }
     }
 
     ~multi_producer_sequencer() = default;
@@ -209,7 +211,7 @@ public:
     {
         int index = calculate_index(seq);
         int flag = calculate_availability_flag(seq);
-        return available_buffer_[index] == flag;
+        return available_buffer_[index].load(std::memory_order_acquire) == flag;
     }
 
     int64_t get_highest_published_sequence(int64_t lower_bound, int64_t available_sequence) const
@@ -247,7 +249,7 @@ private:
     {
         int index = calculate_index(seq);
         int flag = calculate_availability_flag(seq);
-        available_buffer_[index] = flag;
+        available_buffer_[index].store(flag, std::memory_order_release);
     }
 
     int calculate_availability_flag(int64_t seq) const
@@ -261,7 +263,7 @@ private:
     TSequence gating_sequence_cache_;
     TWaitStrategy wait_strategy_;
     std::vector<TSequence *> gating_sequences_;
-    int available_buffer_[BufferSize];
+    std::atomic<int> available_buffer_[BufferSize];
 };
 } // namespace disruptor4cpp
 
-- 
2.43.0


From 80b1efa6b7ed62077736d97af993f1fe0bf14b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:42 +0000
Subject: [PATCH 08/47] fix: a batch event processor refuses a second run until
 a halted one has returned

---
 .../disruptor4cpp/batch_event_processor.h             | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/batch_event_processor.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/batch_event_processor.h
index 7ac664f..bee676a 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/batch_event_processor.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/batch_event_processor.h
@@ -72,6 +72,7 @@ public:
         , ring_buffer_(ring_buffer)
         , sequence_barrier_(sequence_barrier)
         , event_handler_(evt_handler)
+        , active_(false)
         , running_(false)
         , name_(name)
     {}
@@ -86,6 +87,7 @@ public:
         , sequence_barrier_(*sequence_barrier_ptr)
         , event_handler_(evt_handler)
         , sequence_barrier_ptr_(std::move(sequence_barrier_ptr))
+        , active_(false)
         , running_(false)
         , name_(name)
     {}
@@ -102,9 +104,11 @@ public:
 
     void run()
     {
-        bool expected_running_state = false;
-        if (!running_.compare_exchange_strong(expected_running_state, true))
+        // a halted run is still a run until it has returned
+        bool expected_active_state = false;
+        if (!active_.compare_exchange_strong(expected_active_state, true))
             throw std::runtime_error("Thread is already running");
+        running_.store(true, std::memory_order_release);
 
         sequence_barrier_.clear_alert();
         notify_start();
@@ -149,10 +153,12 @@ public:
             spdlog::debug("kpsr::high_perf::batch_event_processor. notify_shutdown on {}.", name_);
             notify_shutdown();
             running_.store(false, std::memory_order_release);
+            active_.store(false, std::memory_order_release);
             throw;
         }
         notify_shutdown();
         running_.store(false, std::memory_order_release);
+        active_.store(false, std::memory_order_release);
     }
 
 private:
@@ -188,6 +194,7 @@ private:
     typename TRingBuffer::sequence_barrier_type &sequence_barrier_;
     event_handler<typename TRingBuffer::event_type> &event_handler_;
     std::unique_ptr<typename TRingBuffer::sequence_barrier_type> sequence_barrier_ptr_;
+    std::atomic<bool> active_;
     std::atomic<bool> running_;
     std::string name_;
 };
-- 
2.43.0


From 5dc7bca97b757acf3999551585cd83532cf6f443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:42 +0000
Subject: [PATCH 09/47] fix: a halt during the start of a batch event processor
 is not lost

---
 .../high_performance/disruptor4cpp/batch_event_processor.h   | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/batch_event_processor.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/batch_event_processor.h
index bee676a..30cd5c8 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/batch_event_processor.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/batch_event_processor.h
@@ -97,6 +97,7 @@ public:
     void halt()
     {
         running_.store(false, std::memory_order_release);
+        std::atomic_thread_fence(std::memory_order_seq_cst);
         sequence_barrier_.alert();
     }
 
@@ -111,6 +112,10 @@ public:
         running_.store(true, std::memory_order_release);
 
         sequence_barrier_.clear_alert();
+        // a halt that came in after running_ was raised must survive the line above
+        std::atomic_thread_fence(std::memory_order_seq_cst);
+        if (!running_.load(std::memory_order_acquire))
+            sequence_barrier_.alert();
         notify_start();
 
         typename TRingBuffer::event_type *event = nullptr;
-- 
2.43.0


From e090832e24afe937b8e5f113c67807aad9fe72d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:28 +0000
Subject: [PATCH 10/47] fix: lite blocking wait strategy does not lose a signal
 racing with a new waiter

---
 .../wait_strategies/lite_blocking_wait_strategy.h           | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/wait_strategies/lite_blocking_wait_strategy.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/wait_strategies/lite_blocking_wait_strategy.h
index c3d65de..5b37a26 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/wait_strategies/lite_blocking_wait_strategy.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/wait_strategies/lite_blocking_wait_strategy.h
@@ -74,7 +74,9 @@ public:
         if ((available_sequence = cursor_sequence.get()) < seq) {
             std::unique_lock<std::recursive_mutex> lock(mutex_);
             do {
-                signal_needed_.store(true, std::memory_order_release);
+                // ordered with the exchange of the signalling thread: either that one sees the
+                // request, or what it did before signalling is seen here
+                signal_needed_.exchange(true, std::memory_order_acq_rel);
                 if ((available_sequence = cursor_sequence.get()) >= seq)
                     break;
 
@@ -91,7 +93,7 @@ public:
 
     void signal_all_when_blocking()
     {
-        if (signal_needed_.exchange(false, std::memory_order_release)) {
+        if (signal_needed_.exchange(false, std::memory_order_acq_rel)) {
             std::lock_guard<std::recursive_mutex> lock(mutex_);
             processor_notify_condition_.notify_all();
         }
-- 
2.43.0


From d0ad786ecdc1b6934e2bf02df6d56976c9bedc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:10 +0000
Subject: [PATCH 11/47] fix: halting a no-op event processor ends its run

---
 .../disruptor4cpp/no_op_event_processor.h             | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/no_op_event_processor.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/no_op_event_processor.h
index 833c6ff..e47862c 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/no_op_event_processor.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/no_op_event_processor.h
@@ -82,7 +82,12 @@ public:
 
     typename TRingBuffer::sequence_type &get_sequence() { return sequence_; }
 
-    void halt() { running_.store(false, std::memory_order_release); }
+    void halt()
+    {
+        running_.store(false, std::memory_order_release);
+        std::atomic_thread_fence(std::memory_order_seq_cst);
+        sequence_barrier_.alert();
+    }
 
     bool is_running() const { return running_.load(std::memory_order_acquire); }
 
@@ -95,6 +100,10 @@ public:
         // Implemenent with the same logic in batch event processor without notification.
         // Different from the java version.
         sequence_barrier_.clear_alert();
+        // a halt that came in after running_ was raised must survive the line above
+        std::atomic_thread_fence(std::memory_order_seq_cst);
+        if (!running_.load(std::memory_order_acquire))
+            sequence_barrier_.alert();
         int64_t next_sequence = sequence_.get() + 1;
         try {
             while (true) {
-- 
2.43.0


From 5205569a3ff500deb386ee162379679b92d7ac49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:53 +0000
Subject: [PATCH 12/47] fix: objects released while their pool is destroyed are
 not lost

The deleter used the pool through a raw pointer kept alive by nothing: a handle
released while the pool was being destroyed pushed into a deleted stack. It now
shares the stack of idle objects, which disposes of late objects.
---
 .../klepsydra/core/smart_object_pool.h        | 22 +++++++++----------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/smart_object_pool.h b/core/modules/core/include/klepsydra/core/smart_object_pool.h
index f4f1d36..6175fa5 100644
--- a/core/modules/core/include/klepsydra/core/smart_object_pool.h
+++ b/core/modules/core/include/klepsydra/core/smart_object_pool.h
@@ -42,27 +42,28 @@ template<class T, class D = std::default_delete<T>>
 class SmartObjectPool
 {
 private:
+    using Stack = LockFreeStack<std::unique_ptr<T, D>>;
+
     struct ReturnToPool_Deleter
     {
-        explicit ReturnToPool_Deleter(std::weak_ptr<SmartObjectPool<T, D> *> pool)
+        explicit ReturnToPool_Deleter(std::weak_ptr<Stack> pool)
             : pool_(pool)
         {}
 
         void operator()(T *ptr)
         {
             if (auto pool_ptr = pool_.lock()) {
-                spdlog::trace("{}. {}.", __PRETTY_FUNCTION__, (*pool_ptr)->_name);
-                (*pool_ptr)->add(std::unique_ptr<T, D>{ptr});
+                // shares the stack, which hence outlives this return even if the pool is destroyed
+                spdlog::trace("{}.", __PRETTY_FUNCTION__);
+                pool_ptr->push(std::unique_ptr<T, D>{ptr});
             } else
                 D{}(ptr);
         }
 
     private:
-        std::weak_ptr<SmartObjectPool<T, D> *> pool_;
+        std::weak_ptr<Stack> pool_;
     };
 
-    void add(std::unique_ptr<T, D> t) { pool_->push(std::move(t)); }
-
 public:
     using ptr_type = std::unique_ptr<T, ReturnToPool_Deleter>;
 
@@ -76,7 +77,6 @@ public:
                     std::function<void(T &)> initializerFunction = nullptr,
                     std::function<void(T &)> finalizerFunction = nullptr)
         : _finalizerFunction(finalizerFunction)
-        , this_ptr_(std::make_shared<SmartObjectPool<T, D> *>(this))
         , _name(name)
     {
         std::function<void(std::unique_ptr<T, D> &)> poolInitializer =
@@ -87,7 +87,7 @@ public:
                 }
             };
 
-        pool_ = new LockFreeStack<std::unique_ptr<T, D>>(size, poolInitializer);
+        pool_ = std::make_shared<Stack>(size, poolInitializer);
 
         spdlog::trace("{}. Init function for smartpool {} and size {}",
                       __PRETTY_FUNCTION__,
@@ -104,7 +104,6 @@ public:
             }
             t_ptr.reset();
         }
-        delete pool_;
     }
 
     /*!
@@ -121,7 +120,7 @@ public:
         }
 
         ptr_type tmp(element.release(),
-                     ReturnToPool_Deleter{std::weak_ptr<SmartObjectPool<T, D> *>{this_ptr_}});
+                     ReturnToPool_Deleter{std::weak_ptr<Stack>{pool_}});
         return tmp;
     }
 
@@ -143,8 +142,7 @@ public:
 
 private:
     std::function<void(T &)> _finalizerFunction;
-    std::shared_ptr<SmartObjectPool<T, D> *> this_ptr_;
-    LockFreeStack<std::unique_ptr<T, D>> *pool_;
+    std::shared_ptr<Stack> pool_;
     const std::string _name;
 };
 } // namespace kpsr
-- 
2.43.0


From fbe7652c9fc6f3a650b9f2ffc82c7dd40d4f92e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 13/47] fix: pollers end before what they use is destroyed

A provider or poller destroyed while running destroyed its queue, emitter and
virtual functions under the polling thread; they stop it first now.
---
 .../include/klepsydra/mem_core/basic_middleware_provider.h     | 3 +++
 .../klepsydra/mem_core/concurrent_middleware_provider.h        | 3 +++
 .../include/klepsydra/mem_core/concurrent_queue_poller.h       | 3 +++
 .../mem_mdlw/include/klepsydra/mem_core/safe_queue_poller.h    | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_middleware_provider.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_middleware_provider.h
index 8601697..7059072 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_middleware_provider.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_middleware_provider.h
@@ -78,6 +78,9 @@ public:
             new SafeQueuePoller<T>(_internalQueue, this->_eventEmitter, eventName, 1000));
     }
 
+    // the poller uses the queue, which is destroyed before it
+    ~BasicMiddlewareProvider() override { this->_poller->stop(); }
+
     SafeQueue<EventData<const T>> _internalQueue;
 };
 } // namespace mem
diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_middleware_provider.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_middleware_provider.h
index a14246f..4b4c8f4 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_middleware_provider.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_middleware_provider.h
@@ -86,6 +86,9 @@ public:
                                          _token));
     }
 
+    // the poller uses the queue, which is destroyed before it
+    ~ConcurrentMiddlewareProvider() override { this->_poller->stop(); }
+
     /**
      * @brief _internalQueue
      */
diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_queue_poller.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_queue_poller.h
index 04b0a68..54ed2d5 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_queue_poller.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_queue_poller.h
@@ -70,6 +70,9 @@ public:
         , _token(token)
     {}
 
+    // the polling thread uses this object, hence it ends first
+    ~ConcurrentQueuePoller() override { stop(); }
+
 private:
     void takeEventFromQueue() override
     {
diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue_poller.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue_poller.h
index 512cfdb..ac00ba1 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue_poller.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue_poller.h
@@ -63,6 +63,9 @@ public:
         , _internalQueue(safeQueue)
     {}
 
+    // the polling thread uses this object, hence it ends first
+    ~SafeQueuePoller() override { stop(); }
+
 private:
     void takeEventFromQueue() override
     {
-- 
2.43.0


From 7a08c42f5e0acbaa0683f59dee1349f87885b03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:22 +0000
Subject: [PATCH 14/47] fix: one-shot listeners of the safe event emitter run
 once under concurrent or nested emissions

---
 .../core/include/klepsydra/core/safe_event_emitter.h       | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/safe_event_emitter.h b/core/modules/core/include/klepsydra/core/safe_event_emitter.h
index 6354945..16d95d0 100644
--- a/core/modules/core/include/klepsydra/core/safe_event_emitter.h
+++ b/core/modules/core/include/klepsydra/core/safe_event_emitter.h
@@ -129,13 +129,14 @@ public:
                            [](const std::pair<const std::string, std::shared_ptr<ListenerBase>> &p) {
                                return p.second;
                            });
+            // one-shot listeners are removed before they run: no other emission can find them
+            for (auto i = range.first; i != range.second;) {
+                i = i->second->isOnce ? listeners.erase(i) : std::next(i);
+            }
         }
 
         for (auto &h : handlers) {
             h->runCallback(event, enqueuedTimeNs);
-            if (h->isOnce) {
-                removeListener(nullptr, h->id);
-            }
         }
     }
 
-- 
2.43.0


From 6404b0a4ccde2529fe54053cdfc597a45151752a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:22 +0000
Subject: [PATCH 15/47] fix: the safe event emitter locks all accesses to its
 listeners and detaches no missing statistics

---
 .../core/include/klepsydra/core/safe_event_emitter.h   | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/safe_event_emitter.h b/core/modules/core/include/klepsydra/core/safe_event_emitter.h
index 16d95d0..f188af7 100644
--- a/core/modules/core/include/klepsydra/core/safe_event_emitter.h
+++ b/core/modules/core/include/klepsydra/core/safe_event_emitter.h
@@ -117,7 +117,7 @@ public:
                    const Event &event) override
     {
         spdlog::trace("{}. subscriberName: {}", __PRETTY_FUNCTION__, subscriberName);
-        std::vector<std::shared_ptr<ListenerBase>> handlers(listeners.size());
+        std::vector<std::shared_ptr<ListenerBase>> handlers;
         {
             std::lock_guard<std::mutex> lock(mutex);
 
@@ -147,7 +147,7 @@ public:
      */
     void discardEvent(const std::string &subscriberName) override
     {
-        std::vector<std::shared_ptr<ListenerBase>> handlers(listeners.size());
+        std::vector<std::shared_ptr<ListenerBase>> handlers;
         {
             std::lock_guard<std::mutex> lock(mutex);
             auto range = listeners.equal_range(subscriberName);
@@ -177,6 +177,7 @@ public:
      */
     std::shared_ptr<SubscriptionStats> getListenerStats(const unsigned int &listenerId) override
     {
+        std::lock_guard<std::mutex> lock(mutex);
         auto i = std::find_if(listeners.begin(),
                               listeners.end(),
                               [&](std::pair<const std::string, std::shared_ptr<ListenerBase>> p) {
@@ -190,9 +191,12 @@ public:
 
     void removeAllListeners(Container *container) override
     {
+        std::lock_guard<std::mutex> lock(mutex);
         if (container) {
             for (auto &subscriberListenerBasePair : listeners) {
-                container->detach(subscriberListenerBasePair.second->listenerStats.get());
+                if (subscriberListenerBasePair.second->listenerStats) {
+                    container->detach(subscriberListenerBasePair.second->listenerStats.get());
+                }
             }
         }
         // clear the map
-- 
2.43.0


From fb7d1be8be1f9d2c9af50a935dc306375ff20d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:22 +0000
Subject: [PATCH 16/47] fix: unsafe multi listener emitter keeps and finds
 precisely the statistics of its listeners

---
 .../klepsydra/core/unsafe_multi_listener_event_emitter.h   | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/unsafe_multi_listener_event_emitter.h b/core/modules/core/include/klepsydra/core/unsafe_multi_listener_event_emitter.h
index 07a6d87..e768369 100644
--- a/core/modules/core/include/klepsydra/core/unsafe_multi_listener_event_emitter.h
+++ b/core/modules/core/include/klepsydra/core/unsafe_multi_listener_event_emitter.h
@@ -176,7 +176,7 @@ public:
         }
         _listenersNameMap.clear();
         _subscriberNameMap.clear();
-        _listenersNameMap.clear();
+        _listenerStats.clear();
         _listeners.clear();
     }
 
@@ -227,10 +227,11 @@ public:
      */
     std::shared_ptr<SubscriptionStats> getListenerStats(const unsigned int &listenerId) override
     {
-        if (_listenerStats.size() <= listenerId) {
+        auto listenerStatsIterator = _listenerStats.find(listenerId);
+        if (_listenerStats.end() == listenerStatsIterator) {
             return nullptr;
         }
-        return _listenerStats.at(listenerId);
+        return listenerStatsIterator->second;
     }
 
 private:
-- 
2.43.0


From c36cca9b4e5b78550f2728e1d129b5682369b460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:22 +0000
Subject: [PATCH 17/47] fix: asking for the statistics of an unknown listener
 does not register its name

---
 .../include/klepsydra/core/event_emitter_subscriber.h    | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/event_emitter_subscriber.h b/core/modules/core/include/klepsydra/core/event_emitter_subscriber.h
index 731899f..67047b2 100644
--- a/core/modules/core/include/klepsydra/core/event_emitter_subscriber.h
+++ b/core/modules/core/include/klepsydra/core/event_emitter_subscriber.h
@@ -167,11 +167,16 @@ public:
      */
     std::shared_ptr<SubscriptionStats> getSubscriptionStats(const std::string &name)
     {
+        auto listenerIterator = _listenersMap.find(name);
+        if (listenerIterator == _listenersMap.end()) {
+            spdlog::debug("{}. Listener {} not found.", __PRETTY_FUNCTION__, name);
+            return nullptr;
+        }
         spdlog::trace("{}. ListenerId {} for name: {}",
                       __PRETTY_FUNCTION__,
-                      _listenersMap[name],
+                      listenerIterator->second,
                       name);
-        return _eventEmitter->getListenerStats(_listenersMap[name]);
+        return _eventEmitter->getListenerStats(listenerIterator->second);
     }
 
 protected:
-- 
2.43.0


From b518c831280d08fc2f86ec5009fbcc0bee7379e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:22 +0000
Subject: [PATCH 18/47] fix: a listener refused by the single listener emitter
 does not get the id of the registered one

---
 .../klepsydra/core/unsafe_single_listener_event_emitter.h      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/modules/core/include/klepsydra/core/unsafe_single_listener_event_emitter.h b/core/modules/core/include/klepsydra/core/unsafe_single_listener_event_emitter.h
index 65e9710..568bdf1 100644
--- a/core/modules/core/include/klepsydra/core/unsafe_single_listener_event_emitter.h
+++ b/core/modules/core/include/klepsydra/core/unsafe_single_listener_event_emitter.h
@@ -91,6 +91,9 @@ public:
                 };
             }
             _listenerRegistered = true;
+        } else if (listenerName != _listenerName) {
+            spdlog::info("Listener {} refused, {} is registered.", listenerName, _listenerName);
+            return 1; // not the id of the registered listener, which it must not be able to remove
         }
         return 0;
     }
-- 
2.43.0


From 1fcbacbbf49f86b82edd63a8f875011f00c57b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:22 +0000
Subject: [PATCH 19/47] fix: an event loop gates its ring during its whole life
 and ends with its owner

---
 .../klepsydra/high_performance/event_loop.h      | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h
index 1c11a91..e2dfb39 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h
@@ -78,10 +78,6 @@ public:
         , _isStarted(false)
         , _eventLoopTask([this] {
             spdlog::trace("kpsr::high_perf::EventLoop::_eventLoopTask begin");
-            std::vector<disruptor4cpp::sequence *> sequences_to_add;
-            sequences_to_add.resize(1);
-            sequences_to_add[0] = &batchEventProcessor->get_sequence();
-            this->_ringBuffer.add_gating_sequences(sequences_to_add);
             spdlog::debug(EVENT_LOOP_START_MESSAGE);
             this->batchEventProcessor->run();
             spdlog::trace("kpsr::high_perf::EventLoop::_eventLoopTask end.");
@@ -93,6 +89,18 @@ public:
         auto barrier = _ringBuffer.new_barrier();
         batchEventProcessor = std::unique_ptr<BatchProcessor>(
             new BatchProcessor(_ringBuffer, std::move(barrier), _eventHandler, name));
+        // The loop gates the ring during its whole life: events published while it is not running
+        // wait for the next start instead of being skipped or overwritten.
+        _ringBuffer.add_gating_sequences({&batchEventProcessor->get_sequence()});
+    }
+
+    EventLoop(const EventLoop &) = delete;
+    EventLoop &operator=(const EventLoop &) = delete;
+
+    ~EventLoop()
+    {
+        stop();
+        _ringBuffer.remove_gating_sequence(batchEventProcessor->get_sequence());
     }
 
     /**
-- 
2.43.0


From 23b1b76789cb0101e82645f65c6903eece97526d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:22 +0000
Subject: [PATCH 20/47] fix: an event loop provider stops its loop before
 destroying its subscribers

---
 .../high_performance/event_loop_middleware_provider.h          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_middleware_provider.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_middleware_provider.h
index e063641..d9fce60 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_middleware_provider.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_middleware_provider.h
@@ -88,7 +88,8 @@ public:
         , _scheduler(nullptr)
     {}
 
-    ~EventLoopMiddlewareProvider() {}
+    // the loop must not call subscribers that are being destroyed
+    ~EventLoopMiddlewareProvider() { stop(); }
 
     template<class T>
     /**
-- 
2.43.0


From e1eb648b7f54bc9179b1e0606f7097ec4cb02c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:22 +0000
Subject: [PATCH 21/47] fix: concurrent publications to a full event loop are
 all counted as discarded

---
 .../include/klepsydra/high_performance/event_loop_publisher.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_publisher.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_publisher.h
index 22a5a45..c195d77 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_publisher.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_publisher.h
@@ -19,6 +19,7 @@
 
 #include <functional>
 #include <memory>
+#include <mutex>
 #include <tuple>
 
 #include <spdlog/spdlog.h>
@@ -123,6 +124,7 @@ public:
             _ringBuffer.publish(seq);
         } catch (disruptor4cpp::insufficient_capacity_exception &ice) {
             spdlog::info("EventLoopPublisher::internalPublish. no more capacity.{}", _eventName);
+            std::lock_guard<std::mutex> lock(_discardedMutex);
             _discardedMessages++;
         }
     }
@@ -133,6 +135,8 @@ public:
     long long unsigned int _discardedMessages;
 
 private:
+    // several threads may publish at the same time
+    std::mutex _discardedMutex;
     RingBuffer &_ringBuffer;
     std::string _eventName;
     int _poolSize;
-- 
2.43.0


From 053e03611c511da3d17f8da3032a8ae9959872b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 22/47] fix: the slots of a data multiplexer created from a
 model event do not share it

---
 .../data_multiplexer_middleware_provider.h                | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_middleware_provider.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_middleware_provider.h
index 2339a4b..4103304 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_middleware_provider.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_middleware_provider.h
@@ -82,7 +82,6 @@ public:
         std::function<void(const TEvent &, TEvent &)> eventCloner = nullptr)
         : _name(name)
         , _container(container)
-        , _modelEvent(nullptr)
         , _ringBuffer([&eventInitializer](DataMultiplexerDataWrapper<TEvent> &event) {
             if (eventInitializer) {
                 eventInitializer(*event.eventData);
@@ -107,8 +106,10 @@ public:
         std::function<void(const TEvent &, TEvent &)> eventCloner = nullptr)
         : _name(name)
         , _container(container)
-        , _modelEvent(new DataMultiplexerDataWrapper<TEvent>(std::make_shared<TEvent>(event)))
-        , _ringBuffer(_modelEvent.get())
+        , _ringBuffer([&event](DataMultiplexerDataWrapper<TEvent> &slot) {
+            // each slot owns its copy: publishing must not change events being read in other slots
+            slot.eventData = std::make_shared<TEvent>(event);
+        })
         , _publisher(container, name, eventCloner, _ringBuffer)
     {}
 
@@ -166,7 +167,6 @@ public:
 private:
     std::string _name;
     Container *_container;
-    std::unique_ptr<DataMultiplexerDataWrapper<TEvent>> _modelEvent;
 
     RingBuffer _ringBuffer;
 
-- 
2.43.0


From bb76af1e19d663daa74498638481217044e215ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:00 +0000
Subject: [PATCH 23/47] fix: callbacks of a callback handler may issue requests
 and receive replies themselves

---
 .../include/klepsydra/core/callback_handler.h | 60 ++++++++++++-------
 1 file changed, 39 insertions(+), 21 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/callback_handler.h b/core/modules/core/include/klepsydra/core/callback_handler.h
index 6808a56..3de3748 100644
--- a/core/modules/core/include/klepsydra/core/callback_handler.h
+++ b/core/modules/core/include/klepsydra/core/callback_handler.h
@@ -116,22 +116,19 @@ public:
     virtual void requestAndReply(const Request &request,
                                  const std::function<void(const Reply &)> &callback)
     {
-        std::pair<Request, std::function<void(const Reply &)>> pair = std::make_pair(request,
-                                                                                     callback);
-        _requestCallbackVector.push_back(pair);
+        addRequest(request, callback);
         _publisher->publish(request);
     }
 
 protected:
     virtual void onReplyReceived(const Reply &reply)
     {
-        for (auto it = _requestCallbackVector.begin(); it != _requestCallbackVector.end();) {
-            if (_correlationFunction((*it).first, reply)) {
-                (*it).second(reply);
-                _requestCallbackVector.erase(it);
-                return;
-            }
-            ++it;
+        // The request is no longer outstanding when its callback runs, so that the callback may
+        // issue further requests or cause further replies.
+        std::function<void(const Reply &)> callback;
+        if (takeRequest(reply, callback)) {
+            callback(reply);
+            return;
         }
         spdlog::info(
             "CallbackHandler::onReplyReceived. Reply not mapped. Callback name: {}. _publisher: {}",
@@ -139,6 +136,31 @@ protected:
             _publisher->name);
     }
 
+    /**
+     * @brief addRequest adds an outstanding request
+     */
+    virtual void addRequest(const Request &request,
+                            const std::function<void(const Reply &)> &callback)
+    {
+        _requestCallbackVector.push_back(std::make_pair(request, callback));
+    }
+
+    /**
+     * @brief takeRequest removes the first outstanding request correlated with the reply
+     * @return whether there was one
+     */
+    virtual bool takeRequest(const Reply &reply, std::function<void(const Reply &)> &callback)
+    {
+        for (auto it = _requestCallbackVector.begin(); it != _requestCallbackVector.end(); ++it) {
+            if (_correlationFunction((*it).first, reply)) {
+                callback = std::move((*it).second);
+                _requestCallbackVector.erase(it);
+                return true;
+            }
+        }
+        return false;
+    }
+
 private:
     Publisher<Request> *_publisher;
     Subscriber<Reply> *_subscriber;
@@ -221,23 +243,19 @@ public:
 
     virtual ~MultiThreadCallbackHandler() {}
 
-    /**
-     * @brief requestAndReply
-     * @param request Event to publish
-     * @param callback std::function to invoke when the reply is received.
-     */
-    void requestAndReply(const Request &request,
-                         const std::function<void(const Reply &)> &callback) override
+protected:
+    // The lock is not held while publishing or calling back.
+    void addRequest(const Request &request,
+                    const std::function<void(const Reply &)> &callback) override
     {
         std::lock_guard<std::mutex> lock(_mutex);
-        CallbackHandler<Request, Reply>::requestAndReply(request, callback);
+        CallbackHandler<Request, Reply>::addRequest(request, callback);
     }
 
-protected:
-    void onReplyReceived(const Reply &reply) override
+    bool takeRequest(const Reply &reply, std::function<void(const Reply &)> &callback) override
     {
         std::lock_guard<std::mutex> lock(_mutex);
-        CallbackHandler<Request, Reply>::onReplyReceived(reply);
+        return CallbackHandler<Request, Reply>::takeRequest(reply, callback);
     }
 
 private:
-- 
2.43.0


From ae5234ef5ff70d2255324b6f48313f2503ae9391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:45 +0000
Subject: [PATCH 24/47] fix: scheduled tasks end when they are replaced or
 their scheduler is destroyed

---
 .../mem_mdlw/include/klepsydra/mem_core/basic_scheduler.h  | 5 +++++
 core/modules/mem_mdlw/src/basic_scheduler.cpp              | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_scheduler.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_scheduler.h
index 4d75aa9..2d05f37 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_scheduler.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_scheduler.h
@@ -84,6 +84,11 @@ private:
          */
         ScheduledThread(const std::string &name, int after, bool repeat, std::function<void()> task);
 
+        /**
+         * @brief stops the task if it is still running
+         */
+        ~ScheduledThread();
+
         /**
          * @brief
          */
diff --git a/core/modules/mem_mdlw/src/basic_scheduler.cpp b/core/modules/mem_mdlw/src/basic_scheduler.cpp
index c138501..53b98e1 100644
--- a/core/modules/mem_mdlw/src/basic_scheduler.cpp
+++ b/core/modules/mem_mdlw/src/basic_scheduler.cpp
@@ -26,6 +26,11 @@ kpsr::mem::BasicScheduler::ScheduledThread::ScheduledThread(const std::string &n
     , _task(task)
 {}
 
+kpsr::mem::BasicScheduler::ScheduledThread::~ScheduledThread()
+{
+    stop();
+}
+
 void kpsr::mem::BasicScheduler::ScheduledThread::start()
 {
     _isRunning = true;
@@ -74,6 +79,8 @@ void kpsr::mem::BasicScheduler::startScheduledTask(const std::string &name,
                                                    bool repeat,
                                                    std::function<void()> task)
 {
+    // a task started again under the same name replaces the previous one
+    stopScheduledTask(name);
     _threadMap[name] = std::shared_ptr<ScheduledThread>(
         new ScheduledThread(name, after, repeat, task));
     _threadMap[name]->start();
-- 
2.43.0


From 26c62791aaab1d0e8cac6798b45d426b8abde09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:55 +0000
Subject: [PATCH 25/47] fix: the container detaches precisely the given object

---
 .../include/klepsydra/core/core_container.h   |  6 +++
 core/modules/core/src/core_container.cpp      | 42 +++++++++----------
 2 files changed, 27 insertions(+), 21 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/core_container.h b/core/modules/core/include/klepsydra/core/core_container.h
index 9c3c11d..db9ed02 100644
--- a/core/modules/core/include/klepsydra/core/core_container.h
+++ b/core/modules/core/include/klepsydra/core/core_container.h
@@ -99,6 +99,12 @@ public:
      */
     void attach(ServiceStats *serviceStats);
 
+    /**
+     * @brief detach a service statistics from the container
+     * @param serviceStats Pointer to a service stats.
+     */
+    void detach(ServiceStats *serviceStats);
+
     /**
      * @brief attach a publication statistics to the container
      * @param publicationStats Pointer to a publication stats.
diff --git a/core/modules/core/src/core_container.cpp b/core/modules/core/src/core_container.cpp
index b1d9542..c1a77ba 100644
--- a/core/modules/core/src/core_container.cpp
+++ b/core/modules/core/src/core_container.cpp
@@ -98,21 +98,13 @@ void kpsr::CoreContainer::detach(Service *service)
     }
     std::lock_guard<std::mutex> lock(_serviceMutex);
     {
-        auto itr = std::find_if(_managedServices.begin(),
-                                _managedServices.end(),
-                                [service](Service *item) {
-                                    return item->serviceStats.name == service->serviceStats.name;
-                                });
+        auto itr = std::find(_managedServices.begin(), _managedServices.end(), service);
         if (itr != _managedServices.end()) {
             _managedServices.erase(itr);
         }
     }
     {
-        auto itr = std::find_if(_serviceStats.begin(),
-                                _serviceStats.end(),
-                                [service](ServiceStats *item) {
-                                    return item->name == service->serviceStats.name;
-                                });
+        auto itr = std::find(_serviceStats.begin(), _serviceStats.end(), &service->serviceStats);
         if (itr != _serviceStats.end()) {
             _serviceStats.erase(itr);
         }
@@ -141,11 +133,7 @@ void kpsr::CoreContainer::detach(FunctionStats *functionStats)
         return;
     }
     std::lock_guard<std::mutex> lock(_functionStatsMutex);
-    auto itr = std::find_if(_functionStats.begin(),
-                            _functionStats.end(),
-                            [functionStats](FunctionStats *item) {
-                                return item->name == functionStats->name;
-                            });
+    auto itr = std::find(_functionStats.begin(), _functionStats.end(), functionStats);
     if (itr != _functionStats.end()) {
         _functionStats.erase(itr);
     }
@@ -167,6 +155,18 @@ void kpsr::CoreContainer::attach(ServiceStats *serviceStats)
     }
 }
 
+void kpsr::CoreContainer::detach(ServiceStats *serviceStats)
+{
+    if (nullptr == serviceStats) {
+        return;
+    }
+    std::lock_guard<std::mutex> lock(_serviceStatsMutex);
+    auto itr = std::find(_serviceStats.begin(), _serviceStats.end(), serviceStats);
+    if (itr != _serviceStats.end()) {
+        _serviceStats.erase(itr);
+    }
+}
+
 void kpsr::CoreContainer::attach(PublicationStats *publicationStats)
 {
     if (nullptr == publicationStats) {
@@ -205,11 +205,7 @@ void kpsr::CoreContainer::detach(SubscriptionStats *subscriptionStats)
         return;
     }
     std::lock_guard<std::mutex> lock(_subscriptionStatsMutex);
-    auto itr = std::find_if(_subscriptionStats.begin(),
-                            _subscriptionStats.end(),
-                            [subscriptionStats](SubscriptionStats *item) {
-                                return item->name == subscriptionStats->name;
-                            });
+    auto itr = std::find(_subscriptionStats.begin(), _subscriptionStats.end(), subscriptionStats);
     if (itr != _subscriptionStats.end()) {
         _subscriptionStats.erase(itr);
     }
@@ -220,7 +216,11 @@ void kpsr::CoreContainer::detach(PublicationStats *publicationStats)
     if (nullptr == publicationStats) {
         return;
     }
-    _publicationStats.clear();
+    std::lock_guard<std::mutex> lock(_publishStatsMutex);
+    auto itr = std::find(_publicationStats.begin(), _publicationStats.end(), publicationStats);
+    if (itr != _publicationStats.end()) {
+        _publicationStats.erase(itr);
+    }
 }
 
 std::string kpsr::CoreContainer::getName() const
-- 
2.43.0


From 4b4ecef4a324e805c078d51ffdfe132552fc067a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:55 +0000
Subject: [PATCH 26/47] fix: the container starts, stops and changes its lists
 under their locks

---
 core/modules/core/src/core_container.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/modules/core/src/core_container.cpp b/core/modules/core/src/core_container.cpp
index c1a77ba..b13d919 100644
--- a/core/modules/core/src/core_container.cpp
+++ b/core/modules/core/src/core_container.cpp
@@ -35,6 +35,10 @@ kpsr::CoreContainer::~CoreContainer()
 
 void kpsr::CoreContainer::start()
 {
+    std::lock_guard<std::mutex> serviceStatsLock(_serviceStatsMutex);
+    std::lock_guard<std::mutex> functionStatsLock(_functionStatsMutex);
+    std::lock_guard<std::mutex> publishStatsLock(_publishStatsMutex);
+    std::lock_guard<std::mutex> subscriptionStatsLock(_subscriptionStatsMutex);
     _running = true;
 
     for (auto stats : _serviceStats) {
@@ -56,6 +60,10 @@ void kpsr::CoreContainer::start()
 
 void kpsr::CoreContainer::stop()
 {
+    std::lock_guard<std::mutex> serviceStatsLock(_serviceStatsMutex);
+    std::lock_guard<std::mutex> functionStatsLock(_functionStatsMutex);
+    std::lock_guard<std::mutex> publishStatsLock(_publishStatsMutex);
+    std::lock_guard<std::mutex> subscriptionStatsLock(_subscriptionStatsMutex);
     _running = false;
 
     for (auto stats : _serviceStats) {
@@ -81,6 +89,7 @@ void kpsr::CoreContainer::attach(Service *service)
         return;
     }
     std::lock_guard<std::mutex> lock(_serviceMutex);
+    std::lock_guard<std::mutex> statsLock(_serviceStatsMutex);
     _managedServices.push_back(service);
     _serviceStats.push_back(&service->serviceStats);
     if (_running) {
@@ -97,6 +106,7 @@ void kpsr::CoreContainer::detach(Service *service)
         return;
     }
     std::lock_guard<std::mutex> lock(_serviceMutex);
+    std::lock_guard<std::mutex> statsLock(_serviceStatsMutex);
     {
         auto itr = std::find(_managedServices.begin(), _managedServices.end(), service);
         if (itr != _managedServices.end()) {
-- 
2.43.0


From 62765e3c756e2967b7625b37721fdabbbd568160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:47 +0000
Subject: [PATCH 27/47] fix: resetting a state machine drops the events queued
 before

---
 state_machine/modules/state_machine/src/state_machine_impl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/state_machine/modules/state_machine/src/state_machine_impl.cpp b/state_machine/modules/state_machine/src/state_machine_impl.cpp
index 684a9a2..2fa0734 100644
--- a/state_machine/modules/state_machine/src/state_machine_impl.cpp
+++ b/state_machine/modules/state_machine/src/state_machine_impl.cpp
@@ -42,6 +42,7 @@ void StateMachineImpl::reset()
 {
     _started = false;
     _currentStateId = _initialStateId;
+    std::queue<std::string>().swap(_eventQueue);
 }
 void StateMachineImpl::update()
 {
-- 
2.43.0


From 485f53de53c8c625ea96c8a6a86990dc40162b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:47 +0000
Subject: [PATCH 28/47] fix: observers of a state machine may update it and are
 told of every update once and in order

---
 .../state_machine/state_machine_impl.h        |  3 +++
 .../state_machine/src/state_machine_impl.cpp  | 20 +++++++++++++++++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/state_machine/modules/state_machine/include/klepsydra/state_machine/state_machine_impl.h b/state_machine/modules/state_machine/include/klepsydra/state_machine/state_machine_impl.h
index b12c37f..df73c85 100644
--- a/state_machine/modules/state_machine/include/klepsydra/state_machine/state_machine_impl.h
+++ b/state_machine/modules/state_machine/include/klepsydra/state_machine/state_machine_impl.h
@@ -19,6 +19,7 @@
 #include <memory>
 #include <string>
 #include <unordered_map>
+#include <utility>
 #include <vector>
 #include <queue>
 
@@ -54,6 +55,8 @@ private:
     std::unordered_map<std::string, std::vector<std::shared_ptr<Transition>>> _stateTransitionTable;
     std::vector<std::function<void(const std::string &currentState, bool stateChanged)>> _observers;
     std::queue<std::string> _eventQueue;
+    std::queue<std::pair<std::string, bool>> _notifications;
+    bool _notifying = false;
 
     void updateObservers(const std::string &stateId, bool stateChanged);
 };
diff --git a/state_machine/modules/state_machine/src/state_machine_impl.cpp b/state_machine/modules/state_machine/src/state_machine_impl.cpp
index 2fa0734..c1a8b3c 100644
--- a/state_machine/modules/state_machine/src/state_machine_impl.cpp
+++ b/state_machine/modules/state_machine/src/state_machine_impl.cpp
@@ -75,8 +75,24 @@ void StateMachineImpl::enqueueAndUpdate(const std::string &event)
 
 void StateMachineImpl::updateObservers(const std::string &stateId, bool stateChanged)
 {
-    for (auto observer : _observers) {
-        observer(_id + ":" + stateId, stateChanged);
+    // an observer may update the machine itself: its notifications follow this one, for all observers
+    _notifications.emplace(_id + ":" + stateId, stateChanged);
+    if (_notifying) {
+        return;
+    }
+    struct NotifyingGuard
+    {
+        bool &notifying;
+        ~NotifyingGuard() { notifying = false; }
+    } guard{_notifying};
+    _notifying = true;
+    while (!_notifications.empty()) {
+        const auto notification = _notifications.front();
+        _notifications.pop();
+        const auto observers = _observers;
+        for (const auto &observer : observers) {
+            observer(notification.first, notification.second);
+        }
     }
 }
 
-- 
2.43.0


From af9df8a83fb46781cf9005fac0e2df118aa840b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:47 +0000
Subject: [PATCH 29/47] fix: removing the actions of a state machine listener
 removes those of all kinds

---
 .../modules/state_machine/src/state_machine_listener.cpp    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/state_machine/modules/state_machine/src/state_machine_listener.cpp b/state_machine/modules/state_machine/src/state_machine_listener.cpp
index 61edb07..0597996 100644
--- a/state_machine/modules/state_machine/src/state_machine_listener.cpp
+++ b/state_machine/modules/state_machine/src/state_machine_listener.cpp
@@ -45,10 +45,14 @@ void StateMachineListener::addPeriodicAction(const std::string &stateId,
 void StateMachineListener::removeActions(const std::string &stateId)
 {
     std::string id = getCompleteName(stateId);
-    _periodicActions[id].clear();
+    _actions.erase(id);
+    _oneOffActions.erase(id);
+    _periodicActions.erase(id);
 }
 void StateMachineListener::removeActions()
 {
+    _actions.clear();
+    _oneOffActions.clear();
     _periodicActions.clear();
 }
 
-- 
2.43.0


From fa84885423a49ccdcbc6c1c20fe8ce0cd10c46e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:47 +0000
Subject: [PATCH 30/47] fix: actions of a state machine listener may add and
 remove actions

---
 .../src/state_machine_listener.cpp            | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/state_machine/modules/state_machine/src/state_machine_listener.cpp b/state_machine/modules/state_machine/src/state_machine_listener.cpp
index 0597996..cc65ca3 100644
--- a/state_machine/modules/state_machine/src/state_machine_listener.cpp
+++ b/state_machine/modules/state_machine/src/state_machine_listener.cpp
@@ -58,21 +58,28 @@ void StateMachineListener::removeActions()
 
 void StateMachineListener::updateCurrentState(const std::string &currentStateId, bool stateChanged)
 {
+    // actions may add and remove actions: run copies
     if (stateChanged) {
-        if (_oneOffActions.find(currentStateId) != _oneOffActions.end()) {
-            for (auto action : _oneOffActions[currentStateId]) {
+        const auto oneOffActions = _oneOffActions.find(currentStateId);
+        if (oneOffActions != _oneOffActions.end()) {
+            const auto actions = std::move(oneOffActions->second);
+            _oneOffActions.erase(oneOffActions);
+            for (const auto &action : actions) {
                 action(currentStateId);
             }
-            _oneOffActions.erase(currentStateId);
         }
-        if (_actions.find(currentStateId) != _actions.end()) {
-            for (auto action : _actions[currentStateId]) {
+        const auto stateActions = _actions.find(currentStateId);
+        if (stateActions != _actions.end()) {
+            const auto actions = stateActions->second;
+            for (const auto &action : actions) {
                 action(currentStateId);
             }
         }
     }
-    if (_periodicActions.find(currentStateId) != _periodicActions.end()) {
-        for (auto action : _periodicActions[currentStateId]) {
+    const auto periodicActions = _periodicActions.find(currentStateId);
+    if (periodicActions != _periodicActions.end()) {
+        const auto actions = periodicActions->second;
+        for (const auto &action : actions) {
             action(currentStateId);
         }
     }
-- 
2.43.0


From ac7985b5394f77c3fbf2f00c853bc76015a6408c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:11 +0000
Subject: [PATCH 31/47] fix: closing a socket reports success as success and
 closes its descriptor once

---
 core/modules/socket_mdlw/src/base_socket.cpp | 57 ++++++++++++--------
 1 file changed, 34 insertions(+), 23 deletions(-)

diff --git a/core/modules/socket_mdlw/src/base_socket.cpp b/core/modules/socket_mdlw/src/base_socket.cpp
index 506ef7b..7577d33 100644
--- a/core/modules/socket_mdlw/src/base_socket.cpp
+++ b/core/modules/socket_mdlw/src/base_socket.cpp
@@ -58,30 +58,41 @@ void kpsr::socket_mdlw::BaseSocket::close()
                               __func__,
                               ": accept called on a bad socket object (this object was moved)"));
     }
-    while (true) {
-        int state = ::close(socketId);
-        if (state == invalidSocketId) {
-            break;
-        }
-        switch (errno) {
-        case EBADF:
-            throw std::domain_error(buildErrorMessage(
-                "BaseSocket::", __func__, ": close: EBADF: ", socketId, " ", std::strerror(errno)));
-        case EIO:
-            throw std::runtime_error(buildErrorMessage(
-                "BaseSocket::", __func__, ": close: EIO:  ", socketId, " ", std::strerror(errno)));
-        case EINTR: {
-            // TODO: Check for user interrupt flags.
-            //       Beyond the scope of this project
-            //       so continue normal operations.
-            break;
-        }
-        default:
-            throw std::runtime_error(buildErrorMessage(
-                "BaseSocket::", __func__, ": close: ???:  ", socketId, " ", std::strerror(errno)));
-        }
-    }
+    // Whatever close reports, the descriptor is released: it may belong to somebody else afterwards.
+    const int closedSocketId = socketId;
     socketId = invalidSocketId;
+    if (::close(closedSocketId) == 0) {
+        return;
+    }
+    switch (errno) {
+    case EBADF:
+        throw std::domain_error(buildErrorMessage("BaseSocket::",
+                                                  __func__,
+                                                  ": close: EBADF: ",
+                                                  closedSocketId,
+                                                  " ",
+                                                  std::strerror(errno)));
+    case EIO:
+        throw std::runtime_error(buildErrorMessage("BaseSocket::",
+                                                   __func__,
+                                                   ": close: EIO:  ",
+                                                   closedSocketId,
+                                                   " ",
+                                                   std::strerror(errno)));
+    case EINTR: {
+        // TODO: Check for user interrupt flags.
+        //       Beyond the scope of this project
+        //       so continue normal operations.
+        break;
+    }
+    default:
+        throw std::runtime_error(buildErrorMessage("BaseSocket::",
+                                                   __func__,
+                                                   ": close: ???:  ",
+                                                   closedSocketId,
+                                                   " ",
+                                                   std::strerror(errno)));
+    }
 }
 
 void kpsr::socket_mdlw::BaseSocket::swap(kpsr::socket_mdlw::BaseSocket &other) noexcept
-- 
2.43.0


From 25617a58bc4dad450345e807f32606825add9604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:11 +0000
Subject: [PATCH 32/47] fix: data can be received from a socket with descriptor
 0

---
 .../socket_mdlw/include/klepsydra/socket_core/data_socket.tpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/modules/socket_mdlw/include/klepsydra/socket_core/data_socket.tpp b/core/modules/socket_mdlw/include/klepsydra/socket_core/data_socket.tpp
index c9323ea..f48a401 100644
--- a/core/modules/socket_mdlw/include/klepsydra/socket_core/data_socket.tpp
+++ b/core/modules/socket_mdlw/include/klepsydra/socket_core/data_socket.tpp
@@ -35,7 +35,7 @@ template<typename F>
  */
 std::size_t DataSocket::getMessageData(char* buffer, std::size_t size, F scanForEnd)
 {
-    if (getSocketId() == 0)
+    if (getSocketId() == invalidSocketId)
     {
         throw std::logic_error(buildErrorMessage("DataSocket::", __func__, ": accept called on a bad socket object (this object was moved)"));
     }
-- 
2.43.0


From 37d0fbaeb72272a1ea0d8f5051d09ae7f1e0d2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:10 +0000
Subject: [PATCH 33/47] fix: a conflict while loading a configuration does not
 skip the properties of other types

---
 core/modules/core/src/configuration_environment.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/core/modules/core/src/configuration_environment.cpp b/core/modules/core/src/configuration_environment.cpp
index 7b5ace3..2ba0f7b 100644
--- a/core/modules/core/src/configuration_environment.cpp
+++ b/core/modules/core/src/configuration_environment.cpp
@@ -143,13 +143,12 @@ bool ConfigurationEnvironment::loadFile(const std::string &fileName, const std::
 bool ConfigurationEnvironment::copyFrom(const ConfigurationEnvironment &otherEnvironment,
                                         const std::string &rootNode)
 {
-    bool copyResult = true;
-    copyResult = copyResult &&
-                 _stringProperties.copyFrom(otherEnvironment._stringProperties, rootNode);
-    copyResult = copyResult && _boolProperties.copyFrom(otherEnvironment._boolProperties, rootNode);
-    copyResult = copyResult && _intProperties.copyFrom(otherEnvironment._intProperties, rootNode);
-    copyResult = copyResult &&
-                 _floatProperties.copyFrom(otherEnvironment._floatProperties, rootNode);
+    // A conflict in the properties of one type does not keep those of the others from being copied.
+    bool copyResult = _stringProperties.copyFrom(otherEnvironment._stringProperties, rootNode);
+    copyResult = _boolProperties.copyFrom(otherEnvironment._boolProperties, rootNode) && copyResult;
+    copyResult = _intProperties.copyFrom(otherEnvironment._intProperties, rootNode) && copyResult;
+    copyResult = _floatProperties.copyFrom(otherEnvironment._floatProperties, rootNode) &&
+                 copyResult;
     return copyResult;
 }
 
-- 
2.43.0


From f2e39f3e2b3ff807ff4f9f707b4ba615a94a598b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:10 +0000
Subject: [PATCH 34/47] fix: a configuration with values of the wrong type is
 refused and changes nothing

---
 .../include/klepsydra/core/configuration_environment.h   | 8 ++++++++
 core/modules/core/src/configuration_environment.cpp      | 9 ++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/core/modules/core/include/klepsydra/core/configuration_environment.h b/core/modules/core/include/klepsydra/core/configuration_environment.h
index 2477a03..f7f93b5 100644
--- a/core/modules/core/include/klepsydra/core/configuration_environment.h
+++ b/core/modules/core/include/klepsydra/core/configuration_environment.h
@@ -155,21 +155,29 @@ private:
     {
         try {
             archive(cereal::make_nvp("StringProperties", _stringProperties));
+        } catch (const cereal::RapidJSONException &) {
+            throw; // present, but with values of another type
         } catch (const std::exception &e) {
             spdlog::debug("No string properties found");
         }
         try {
             archive(cereal::make_nvp("FloatProperties", _floatProperties));
+        } catch (const cereal::RapidJSONException &) {
+            throw; // present, but with values of another type
         } catch (const std::exception &e) {
             spdlog::debug("No float properties found");
         }
         try {
             archive(cereal::make_nvp("IntProperties", _intProperties));
+        } catch (const cereal::RapidJSONException &) {
+            throw; // present, but with values of another type
         } catch (const std::exception &e) {
             spdlog::debug("No int properties found");
         }
         try {
             archive(cereal::make_nvp("BoolProperties", _boolProperties));
+        } catch (const cereal::RapidJSONException &) {
+            throw; // present, but with values of another type
         } catch (const std::exception &e) {
             spdlog::debug("No bool properties found");
         }
diff --git a/core/modules/core/src/configuration_environment.cpp b/core/modules/core/src/configuration_environment.cpp
index 2ba0f7b..8cec9e6 100644
--- a/core/modules/core/src/configuration_environment.cpp
+++ b/core/modules/core/src/configuration_environment.cpp
@@ -156,13 +156,20 @@ bool ConfigurationEnvironment::updateConfiguration(const std::string &jsonConten
 {
     std::stringstream ss;
     ss << jsonContent;
+    // Updated aside, so that content which turns out to be malformed changes nothing.
+    ConfigurationEnvironment updated;
+    updated.copyFrom(*this, "");
     try {
         ::cereal::JSONInputArchive iarchive(ss);
-        serialize(iarchive);
+        updated.serialize(iarchive);
     } catch (::cereal::Exception &ex) {
         spdlog::error("{} Error loading Environment from json string", ex.what());
         return false;
     }
+    std::swap(_stringProperties, updated._stringProperties);
+    std::swap(_floatProperties, updated._floatProperties);
+    std::swap(_intProperties, updated._intProperties);
+    std::swap(_boolProperties, updated._boolProperties);
     return true;
 }
 
-- 
2.43.0


From e4f8ee0d3b7fd40c412835d3b4a8261b383c44cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:10 +0000
Subject: [PATCH 35/47] fix: environments keep the roots of properties apart
 and report missing ones

---
 .../core/src/prop_file_environment.cpp        | 27 +++++++++++++------
 core/modules/mem_mdlw/src/mem_env.cpp         | 23 ++++++++++------
 2 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/core/modules/core/src/prop_file_environment.cpp b/core/modules/core/src/prop_file_environment.cpp
index 4bc752b..860a50a 100644
--- a/core/modules/core/src/prop_file_environment.cpp
+++ b/core/modules/core/src/prop_file_environment.cpp
@@ -14,6 +14,13 @@
 
 #include <klepsydra/core/prop_file_environment.h>
 
+namespace {
+std::string fullKey(const std::string &key, const std::string &rootNode)
+{
+    return rootNode.empty() ? key : rootNode + "/" + key;
+}
+} // namespace
+
 kpsr::PropertyFileEnvironment::PropertyFileEnvironment(const std::string &propertyFileName)
     : _configFile(propertyFileName)
 {}
@@ -27,8 +34,9 @@ bool kpsr::PropertyFileEnvironment::getPropertyString(const std::string &key,
                                                       std::string const &defaultValue,
                                                       std::string const &rootNode)
 {
-    value = _configFile.getValueOfKey<std::string>(key, defaultValue);
-    return true;
+    const std::string propertyKey = fullKey(key, rootNode);
+    value = _configFile.getValueOfKey<std::string>(propertyKey, defaultValue);
+    return _configFile.keyExists(propertyKey);
 }
 
 bool kpsr::PropertyFileEnvironment::getPropertyInt(const std::string &key,
@@ -36,8 +44,9 @@ bool kpsr::PropertyFileEnvironment::getPropertyInt(const std::string &key,
                                                    const int defaultValue,
                                                    std::string const &rootNode)
 {
-    value = _configFile.getValueOfKey<int>(key, defaultValue);
-    return true;
+    const std::string propertyKey = fullKey(key, rootNode);
+    value = _configFile.getValueOfKey<int>(propertyKey, defaultValue);
+    return _configFile.keyExists(propertyKey);
 }
 
 bool kpsr::PropertyFileEnvironment::getPropertyFloat(const std::string &key,
@@ -45,8 +54,9 @@ bool kpsr::PropertyFileEnvironment::getPropertyFloat(const std::string &key,
                                                      const float defaultValue,
                                                      std::string const &rootNode)
 {
-    value = _configFile.getValueOfKey<float>(key, defaultValue);
-    return true;
+    const std::string propertyKey = fullKey(key, rootNode);
+    value = _configFile.getValueOfKey<float>(propertyKey, defaultValue);
+    return _configFile.keyExists(propertyKey);
 }
 
 bool kpsr::PropertyFileEnvironment::getPropertyBool(const std::string &key,
@@ -54,8 +64,9 @@ bool kpsr::PropertyFileEnvironment::getPropertyBool(const std::string &key,
                                                     const bool defaultValue,
                                                     std::string const &rootNode)
 {
-    value = _configFile.getValueOfKey<bool>(key, defaultValue);
-    return true;
+    const std::string propertyKey = fullKey(key, rootNode);
+    value = _configFile.getValueOfKey<bool>(propertyKey, defaultValue);
+    return _configFile.keyExists(propertyKey);
 }
 
 void kpsr::PropertyFileEnvironment::setPropertyString(const std::string &key,
diff --git a/core/modules/mem_mdlw/src/mem_env.cpp b/core/modules/mem_mdlw/src/mem_env.cpp
index b0d40bf..7c7458c 100644
--- a/core/modules/mem_mdlw/src/mem_env.cpp
+++ b/core/modules/mem_mdlw/src/mem_env.cpp
@@ -14,13 +14,20 @@
 
 #include <klepsydra/mem_core/mem_env.h>
 
+namespace {
+std::string fullKey(const std::string &key, const std::string &rootNode)
+{
+    return rootNode.empty() ? key : rootNode + "/" + key;
+}
+} // namespace
+
 bool kpsr::mem::MemEnv::getPropertyString(const std::string &key,
                                           std::string &value,
                                           std::string const &defaultValue,
                                           std::string const &rootNode)
 {
     std::lock_guard<std::mutex> lock(mutex);
-    auto it = stringDataMap.find(key);
+    auto it = stringDataMap.find(fullKey(key, rootNode));
     if (it == stringDataMap.end()) {
         value = defaultValue;
         return false;
@@ -36,7 +43,7 @@ bool kpsr::mem::MemEnv::getPropertyInt(const std::string &key,
                                        std::string const &rootNode)
 {
     std::lock_guard<std::mutex> lock(mutex);
-    auto it = intDataMap.find(key);
+    auto it = intDataMap.find(fullKey(key, rootNode));
     if (it == intDataMap.end()) {
         value = defaultValue;
         return false;
@@ -52,7 +59,7 @@ bool kpsr::mem::MemEnv::getPropertyFloat(const std::string &key,
                                          std::string const &rootNode)
 {
     std::lock_guard<std::mutex> lock(mutex);
-    auto it = floatDataMap.find(key);
+    auto it = floatDataMap.find(fullKey(key, rootNode));
     if (it == floatDataMap.end()) {
         value = defaultValue;
         return false;
@@ -68,7 +75,7 @@ bool kpsr::mem::MemEnv::getPropertyBool(const std::string &key,
                                         std::string const &rootNode)
 {
     std::lock_guard<std::mutex> lock(mutex);
-    auto it = boolDataMap.find(key);
+    auto it = boolDataMap.find(fullKey(key, rootNode));
     if (it == boolDataMap.end()) {
         value = defaultValue;
         return false;
@@ -83,7 +90,7 @@ void kpsr::mem::MemEnv::setPropertyString(const std::string &key,
                                           std::string const &rootNode)
 {
     std::lock_guard<std::mutex> lock(mutex);
-    stringDataMap[key] = value;
+    stringDataMap[fullKey(key, rootNode)] = value;
 }
 
 void kpsr::mem::MemEnv::setPropertyInt(const std::string &key,
@@ -91,7 +98,7 @@ void kpsr::mem::MemEnv::setPropertyInt(const std::string &key,
                                        const std::string &rootNode)
 {
     std::lock_guard<std::mutex> lock(mutex);
-    intDataMap[key] = value;
+    intDataMap[fullKey(key, rootNode)] = value;
 }
 
 void kpsr::mem::MemEnv::setPropertyFloat(const std::string &key,
@@ -99,7 +106,7 @@ void kpsr::mem::MemEnv::setPropertyFloat(const std::string &key,
                                          const std::string &rootNode)
 {
     std::lock_guard<std::mutex> lock(mutex);
-    floatDataMap[key] = value;
+    floatDataMap[fullKey(key, rootNode)] = value;
 }
 
 void kpsr::mem::MemEnv::setPropertyBool(const std::string &key,
@@ -107,7 +114,7 @@ void kpsr::mem::MemEnv::setPropertyBool(const std::string &key,
                                         const std::string &rootNode)
 {
     std::lock_guard<std::mutex> lock(mutex);
-    boolDataMap[key] = value;
+    boolDataMap[fullKey(key, rootNode)] = value;
 }
 
 bool kpsr::mem::MemEnv::loadFile(const std::string &fileName, const std::string &nodeName)
-- 
2.43.0


From 1f8c4eeeab02e64f218d9165b6fec13b6041b8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:10 +0000
Subject: [PATCH 36/47] fix: text properties of several words are read from
 property files completely

---
 .../core/include/klepsydra/core/prop_file_convert.h        | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/modules/core/include/klepsydra/core/prop_file_convert.h b/core/modules/core/include/klepsydra/core/prop_file_convert.h
index d4c9a40..e7dfcd4 100644
--- a/core/modules/core/include/klepsydra/core/prop_file_convert.h
+++ b/core/modules/core/include/klepsydra/core/prop_file_convert.h
@@ -52,6 +52,13 @@ public:
         return returnVal;
     }
 };
+
+// Text is taken as it is, also when it has several words or looks like a number.
+template<>
+inline std::string PropertyFileConvert::string_to_T<std::string>(const std::string &val)
+{
+    return val;
+}
 } // namespace kpsr
 
 #endif
-- 
2.43.0


From 271bff246f3b1b7a7537ed7382f52bde42d88921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:10 +0000
Subject: [PATCH 37/47] fix: dynamic configuration properties can be
 overwritten

---
 .../core/include/klepsydra/core/configuration_properties.h   | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/configuration_properties.h b/core/modules/core/include/klepsydra/core/configuration_properties.h
index 12216fb..61af7a1 100644
--- a/core/modules/core/include/klepsydra/core/configuration_properties.h
+++ b/core/modules/core/include/klepsydra/core/configuration_properties.h
@@ -59,9 +59,8 @@ public:
                 spdlog::debug("Overwriting old data with new value");
             }
         }
-        auto insertionResult = _properties.insert(
-            std::make_pair(propertyName, std::make_shared<Property<T>>(propertyValue)));
-        return insertionResult.second;
+        _properties[propertyName] = std::make_shared<Property<T>>(propertyValue);
+        return true;
     }
 
     void copyFrom(const DynamicConfigurationProperties &other, const std::string &prefix = "")
-- 
2.43.0


From 39d82846267ef5c95714a9a4fde744294c6e55e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:07 +0000
Subject: [PATCH 38/47] fix: the void caster and the identity mapper can be
 included together

---
 .../include/klepsydra/serialization/void_caster_mapper.h    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/serialization/modules/serialization/include/klepsydra/serialization/void_caster_mapper.h b/serialization/modules/serialization/include/klepsydra/serialization/void_caster_mapper.h
index 452b703..4cd414e 100644
--- a/serialization/modules/serialization/include/klepsydra/serialization/void_caster_mapper.h
+++ b/serialization/modules/serialization/include/klepsydra/serialization/void_caster_mapper.h
@@ -14,8 +14,8 @@
  * limitations under the License.
  */
 
-#ifndef IDENTITY_MAPPER_H
-#define IDENTITY_MAPPER_H
+#ifndef VOID_CASTER_MAPPER_H
+#define VOID_CASTER_MAPPER_H
 
 #include <cstring>
 #include <iostream>
@@ -62,4 +62,4 @@ public:
 };
 } // namespace kpsr
 
-#endif // IDENTITY_MAPPER_H
+#endif // VOID_CASTER_MAPPER_H
-- 
2.43.0


From 3c1b2f2f52a290a6967ee5f90e49b8f19bcab4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:07 +0000
Subject: [PATCH 39/47] fix: the void caster mapper refuses messages shorter
 than the event

---
 .../include/klepsydra/serialization/void_caster_mapper.h      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/serialization/modules/serialization/include/klepsydra/serialization/void_caster_mapper.h b/serialization/modules/serialization/include/klepsydra/serialization/void_caster_mapper.h
index 4cd414e..932259f 100644
--- a/serialization/modules/serialization/include/klepsydra/serialization/void_caster_mapper.h
+++ b/serialization/modules/serialization/include/klepsydra/serialization/void_caster_mapper.h
@@ -19,6 +19,7 @@
 
 #include <cstring>
 #include <iostream>
+#include <stdexcept>
 #include <vector>
 
 #include <klepsydra/serialization/mapper.h>
@@ -45,6 +46,9 @@ public:
      */
     void fromMiddleware(const std::vector<unsigned char> &message, T &event)
     {
+        if (message.size() < sizeof(T)) {
+            throw std::length_error("void caster mapper: message is shorter than the event");
+        }
         std::memcpy(&event, message.data(), sizeof(T));
     }
 
-- 
2.43.0


From 5d68c464c9081b2a9bd6d8fe84cf28b303c06d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:19 +0000
Subject: [PATCH 40/47] fix: a topic can be registered again on a ZMQ channel
 after it was unregistered

---
 .../klepsydra/zmq_core/from_zmq_middleware_provider.h       | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h
index f6be1db..cd22254 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h
@@ -86,7 +86,11 @@ public:
      * @brief unregisterFromTopic
      * @param topic
      */
-    void unregisterFromTopic(const std::string &topic) { _zmqPoller->unregisterFromTopic(topic); }
+    void unregisterFromTopic(const std::string &topic)
+    {
+        _zmqPoller->unregisterFromTopic(topic);
+        _subscriberMap.erase(topic);
+    }
 
     /**
      * @brief start Launches the polling thread.
-- 
2.43.0


From 2ef1b3b43f0b8ee772547323ba1f47cd7bba16de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:19 +0000
Subject: [PATCH 41/47] fix: ZMQ pollers end before what they use is destroyed

---
 .../zmq_mdlw/include/klepsydra/zmq_core/binary_zmq_poller.h    | 3 +++
 .../include/klepsydra/zmq_core/from_zmq_middleware_provider.h  | 3 +++
 .../zmq_mdlw/include/klepsydra/zmq_core/json_zmq_poller.h      | 3 +++
 .../include/klepsydra/zmq_core/void_caster_zmq_poller.h        | 3 +++
 core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h  | 2 +-
 5 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/binary_zmq_poller.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/binary_zmq_poller.h
index 1bf8079..2072df8 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/binary_zmq_poller.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/binary_zmq_poller.h
@@ -49,6 +49,9 @@ public:
         : ZMQPoller(subscriber, pollPeriod)
     {}
 
+    // the thread calls poll(), so it ends before this class is gone
+    ~BinaryZMQPoller() override { stop(); }
+
     /**
      * @brief poll
      */
diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h
index cd22254..97eea02 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h
@@ -58,6 +58,9 @@ public:
         : _zmqPoller(std::move(zmqPoller))
     {}
 
+    // the thread of the poller uses the channels, which are destroyed before it
+    ~FromZmqChannel() { _zmqPoller->stop(); }
+
     template<class T>
     /**
      * @brief registerToTopic
diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/json_zmq_poller.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/json_zmq_poller.h
index 564104b..12fa8c3 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/json_zmq_poller.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/json_zmq_poller.h
@@ -46,6 +46,9 @@ public:
         : ZMQPoller(subscriber, pollPeriod)
     {}
 
+    // the thread calls poll(), so it ends before this class is gone
+    ~JsonZMQPoller() override { stop(); }
+
     /**
      * @brief poll
      */
diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/void_caster_zmq_poller.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/void_caster_zmq_poller.h
index c19a2bb..92ac1b6 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/void_caster_zmq_poller.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/void_caster_zmq_poller.h
@@ -44,6 +44,9 @@ public:
         : ZMQPoller<std::vector<unsigned char>>(subscriber, pollPeriod)
     {}
 
+    // the thread calls poll(), so it ends before this class is gone
+    ~VoidCasterZMQPoller() override { stop(); }
+
     /**
      * @brief poll
      */
diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h
index 25dda71..8406a77 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h
@@ -97,7 +97,7 @@ public:
         _started.store(false, std::memory_order_release);
     }
 
-    ~ZMQPoller()
+    virtual ~ZMQPoller()
     {
         _running = false;
         if (_threadNotifier.joinable()) {
-- 
2.43.0


From ad5b843b1c4d30349eb3ee8b918851eedead1424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:34 +0000
Subject: [PATCH 42/47] fix: a message which cannot be processed does not end
 the thread of a ZMQ poller

---
 .../include/klepsydra/zmq_core/zmq_poller.h        | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h
index 8406a77..d2dba3a 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h
@@ -23,6 +23,11 @@
 #include <map>
 #include <mutex>
 #include <string>
+#include <thread>
+
+#include <spdlog/spdlog.h>
+
+#include <zmq.hpp>
 
 namespace kpsr {
 namespace zmq_mdlw {
@@ -136,7 +141,14 @@ public:
         std::lock_guard<std::mutex> lock(mutex);
         auto search = _functionTopicMap.find(topic);
         if (search != _functionTopicMap.end()) {
-            _functionTopicMap[topic](event);
+            try {
+                search->second(event);
+            } catch (const std::exception &e) {
+                spdlog::error("{}. Message of topic {} not processed: {}",
+                              __PRETTY_FUNCTION__,
+                              topic,
+                              e.what());
+            }
         }
     }
 
-- 
2.43.0


From b386da88bd7bec03d46583b784de3d36e52373b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:34 +0000
Subject: [PATCH 43/47] fix: a ZMQ environment publishes what it loaded from a
 file with conflicts

---
 core/modules/zmq_mdlw/src/zmq_env.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/core/modules/zmq_mdlw/src/zmq_env.cpp b/core/modules/zmq_mdlw/src/zmq_env.cpp
index 2315b74..4ebf470 100644
--- a/core/modules/zmq_mdlw/src/zmq_env.cpp
+++ b/core/modules/zmq_mdlw/src/zmq_env.cpp
@@ -157,12 +157,10 @@ void kpsr::zmq_mdlw::ZMQEnv::setPropertyBool(const std::string &key,
 
 bool kpsr::zmq_mdlw::ZMQEnv::loadFile(const std::string &fileName, const std::string &nodeName)
 {
-    if (_decorableEnv->loadFile(fileName, nodeName)) {
-        publishConfiguration();
-        return true;
-    } else {
-        return false;
-    }
+    // also when some properties conflict, the others are loaded
+    bool loaded = _decorableEnv->loadFile(fileName, nodeName);
+    publishConfiguration();
+    return loaded;
 }
 
 void kpsr::zmq_mdlw::ZMQEnv::publishConfiguration()
-- 
2.43.0


From 3330628a872eefb1e6988711576815d54a77c6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:34 +0000
Subject: [PATCH 44/47] fix: malformed data received by a ZMQ environment does
 not terminate the process

---
 core/modules/zmq_mdlw/src/zmq_env.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/modules/zmq_mdlw/src/zmq_env.cpp b/core/modules/zmq_mdlw/src/zmq_env.cpp
index 4ebf470..4749d5e 100644
--- a/core/modules/zmq_mdlw/src/zmq_env.cpp
+++ b/core/modules/zmq_mdlw/src/zmq_env.cpp
@@ -218,7 +218,13 @@ void kpsr::zmq_mdlw::ZMQConfigurationPoller::poll()
         std::string contentString(static_cast<char *>(content.data()), content.size());
         spdlog::info("kpsr::zmq_mdlw::ZMQConfigurationPoller::on_data_available.");
         ZMQEnvironmentData environmentData;
-        mapper.fromMiddleware(contentString, environmentData);
+        try {
+            mapper.fromMiddleware(contentString, environmentData);
+        } catch (const std::exception &e) {
+            spdlog::error("kpsr::zmq_mdlw::ZMQConfigurationPoller::poll. Malformed data: {}",
+                          e.what());
+            return;
+        }
         if ((environmentData._configurationKey == _zmqKey) &&
             (environmentData._sourceId != _sourceId)) {
             spdlog::info("kpsr::zmq_mdlw::ZMQConfigurationPoller::poll. new data: {}",
-- 
2.43.0


From 0ad7ef8ad93bf83164779aaefa63e714531ccce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:34 +0000
Subject: [PATCH 45/47] fix: ZMQ environments created in the same millisecond
 see each other's changes

---
 .../include/klepsydra/zmq_core/zmq_env.h      |  2 +-
 core/modules/zmq_mdlw/src/zmq_env.cpp         | 23 +++++++++++--------
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h
index 3b438dc..637acb5 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h
@@ -201,7 +201,7 @@ private:
     std::string _topicName;
     std::string _zmqKey;
     int _pollPeriod;
-    long _timestamp;
+    long _sourceId;
     ZMQConfigurationPoller *_poller;
     kpsr::Mapper<ZMQEnvironmentData, std::string> mapper;
     bool _isEnvLocal;
diff --git a/core/modules/zmq_mdlw/src/zmq_env.cpp b/core/modules/zmq_mdlw/src/zmq_env.cpp
index 4749d5e..cbdfc00 100644
--- a/core/modules/zmq_mdlw/src/zmq_env.cpp
+++ b/core/modules/zmq_mdlw/src/zmq_env.cpp
@@ -13,7 +13,7 @@
 // limitations under the License.
 
 #include <algorithm>
-#include <chrono>
+#include <random>
 #include <string.h>
 
 #include <spdlog/spdlog.h>
@@ -25,6 +25,13 @@ static const std::string DEFAULT_ZMQ_TOPIC_NAME = "DEFAULT_ZMQ_TOPIC_NAME";
 static const std::string DEFAULT_ZMQ_ENV_KEY = "DEFAULT_ZMQ_ENV_KEY";
 static const int DEFAULT_ZMQ_ENV_POOL_PERIOD = 1000;
 
+// tells environments apart, also those created at the same time
+static long uniqueSourceId()
+{
+    std::random_device device;
+    return static_cast<long>((static_cast<unsigned long>(device()) << 31) ^ device());
+}
+
 kpsr::zmq_mdlw::ZMQEnv::ZMQEnv(const std::string &configurationFileName,
                                std::string zmqKey,
                                std::string topicName,
@@ -40,13 +47,11 @@ kpsr::zmq_mdlw::ZMQEnv::ZMQEnv(const std::string &configurationFileName,
     , _topicName(topicName)
     , _zmqKey(zmqKey)
     , _pollPeriod(pollPeriod)
-    , _timestamp(std::chrono::duration_cast<std::chrono::milliseconds>(
-                     std::chrono::system_clock::now().time_since_epoch())
-                     .count())
+    , _sourceId(uniqueSourceId())
     , mapper()
     , _isEnvLocal(true)
 {
-    _poller = new ZMQConfigurationPoller(zmqKey, this, _timestamp, _pollPeriod);
+    _poller = new ZMQConfigurationPoller(zmqKey, this, _sourceId, _pollPeriod);
     _poller->start();
 }
 
@@ -66,9 +71,7 @@ kpsr::zmq_mdlw::ZMQEnv::ZMQEnv(ConfigurationEnvironment *configurationEnvironmen
     : _zmqSubscriber(zmqSubscriber)
     , _decorableEnv(configurationEnvironment)
     , _zmqPublisher(zmqPublisher)
-    , _timestamp(std::chrono::duration_cast<std::chrono::milliseconds>(
-                     std::chrono::system_clock::now().time_since_epoch())
-                     .count())
+    , _sourceId(uniqueSourceId())
     , mapper()
     , _isEnvLocal(false)
 {
@@ -82,7 +85,7 @@ kpsr::zmq_mdlw::ZMQEnv::ZMQEnv(ConfigurationEnvironment *configurationEnvironmen
                                   DEFAULT_ZMQ_ENV_POOL_PERIOD,
                                   rootNode);
 
-    _poller = new ZMQConfigurationPoller(_zmqKey, this, _timestamp, _pollPeriod);
+    _poller = new ZMQConfigurationPoller(_zmqKey, this, _sourceId, _pollPeriod);
     _poller->start();
 }
 
@@ -166,7 +169,7 @@ bool kpsr::zmq_mdlw::ZMQEnv::loadFile(const std::string &fileName, const std::st
 void kpsr::zmq_mdlw::ZMQEnv::publishConfiguration()
 {
     std::string configurationData = _decorableEnv->exportEnvironment();
-    ZMQEnvironmentData environmentData(_zmqKey, configurationData, _timestamp);
+    ZMQEnvironmentData environmentData(_zmqKey, configurationData, _sourceId);
     _zmqPublisher.send(zmq::const_buffer(_topicName.c_str(), _topicName.size()),
                        zmq::send_flags::sndmore);
     std::string serializeEnvironmentData;
-- 
2.43.0


From 986bbc551c68df59be1c4e85462909dafa7e295a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:21 +0000
Subject: [PATCH 46/47] fix: a ZMQ environment is not used while its poller
 updates it

---
 .../zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h      |  3 +++
 core/modules/zmq_mdlw/src/zmq_env.cpp                  | 10 ++++++++++
 2 files changed, 13 insertions(+)

diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h
index 637acb5..cac877c 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h
@@ -20,6 +20,7 @@
 #include <zmq.hpp>
 
 #include <future>
+#include <mutex>
 
 #include <klepsydra/serialization/json_cereal_mapper.h>
 
@@ -196,6 +197,8 @@ private:
     void publishConfiguration();
 
     ConfigurationEnvironment *_decorableEnv;
+    // the poller updates the environment while it is in use
+    std::mutex _environmentMutex;
 
     zmq::socket_t &_zmqPublisher;
     std::string _topicName;
diff --git a/core/modules/zmq_mdlw/src/zmq_env.cpp b/core/modules/zmq_mdlw/src/zmq_env.cpp
index cbdfc00..b6b35bb 100644
--- a/core/modules/zmq_mdlw/src/zmq_env.cpp
+++ b/core/modules/zmq_mdlw/src/zmq_env.cpp
@@ -91,6 +91,7 @@ kpsr::zmq_mdlw::ZMQEnv::ZMQEnv(ConfigurationEnvironment *configurationEnvironmen
 
 bool kpsr::zmq_mdlw::ZMQEnv::updateConfiguration(const std::string &configurationData)
 {
+    std::lock_guard<std::mutex> lock(_environmentMutex);
     return _decorableEnv->updateConfiguration(configurationData);
 }
 
@@ -99,6 +100,7 @@ bool kpsr::zmq_mdlw::ZMQEnv::getPropertyString(const std::string &key,
                                                const std::string &defaultValue,
                                                const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_environmentMutex);
     return _decorableEnv->getPropertyString(key, value, defaultValue, rootNode);
 }
 
@@ -107,6 +109,7 @@ bool kpsr::zmq_mdlw::ZMQEnv::getPropertyInt(const std::string &key,
                                             const int defaultValue,
                                             const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_environmentMutex);
     return _decorableEnv->getPropertyInt(key, value, defaultValue, rootNode);
 }
 
@@ -115,6 +118,7 @@ bool kpsr::zmq_mdlw::ZMQEnv::getPropertyFloat(const std::string &key,
                                               const float defaultValue,
                                               const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_environmentMutex);
     return _decorableEnv->getPropertyFloat(key, value, defaultValue, rootNode);
 }
 
@@ -123,6 +127,7 @@ bool kpsr::zmq_mdlw::ZMQEnv::getPropertyBool(const std::string &key,
                                              const bool defaultValue,
                                              const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_environmentMutex);
     return _decorableEnv->getPropertyBool(key, value, defaultValue, rootNode);
 }
 
@@ -130,6 +135,7 @@ void kpsr::zmq_mdlw::ZMQEnv::setPropertyString(const std::string &key,
                                                const std::string &value,
                                                const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_environmentMutex);
     _decorableEnv->setPropertyString(key, value, rootNode);
     publishConfiguration();
 }
@@ -138,6 +144,7 @@ void kpsr::zmq_mdlw::ZMQEnv::setPropertyInt(const std::string &key,
                                             const int &value,
                                             const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_environmentMutex);
     _decorableEnv->setPropertyInt(key, value, rootNode);
     publishConfiguration();
 }
@@ -146,6 +153,7 @@ void kpsr::zmq_mdlw::ZMQEnv::setPropertyFloat(const std::string &key,
                                               const float &value,
                                               const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_environmentMutex);
     _decorableEnv->setPropertyFloat(key, value, rootNode);
     publishConfiguration();
 }
@@ -154,12 +162,14 @@ void kpsr::zmq_mdlw::ZMQEnv::setPropertyBool(const std::string &key,
                                              const bool &value,
                                              const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_environmentMutex);
     _decorableEnv->setPropertyBool(key, value, rootNode);
     publishConfiguration();
 }
 
 bool kpsr::zmq_mdlw::ZMQEnv::loadFile(const std::string &fileName, const std::string &nodeName)
 {
+    std::lock_guard<std::mutex> lock(_environmentMutex);
     // also when some properties conflict, the others are loaded
     bool loaded = _decorableEnv->loadFile(fileName, nodeName);
     publishConfiguration();
-- 
2.43.0


From 14d15c51776e34b73384a4bd6bf0cbd968f6e3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:49 +0000
Subject: [PATCH 47/47] fix: a no-op event processor refuses a second run until
 a halted one has returned

---
 .../disruptor4cpp/no_op_event_processor.h             | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/no_op_event_processor.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/no_op_event_processor.h
index e47862c..c6d9527 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/no_op_event_processor.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/no_op_event_processor.h
@@ -67,6 +67,7 @@ public:
         : sequence_()
         , ring_buffer_(ring_buffer)
         , sequence_barrier_(sequence_barrier)
+        , active_(false)
         , running_(false)
     {}
 
@@ -77,6 +78,7 @@ public:
         , ring_buffer_(ring_buffer)
         , sequence_barrier_(*sequence_barrier_ptr)
         , sequence_barrier_ptr_(std::move(sequence_barrier_ptr))
+        , active_(false)
         , running_(false)
     {}
 
@@ -93,9 +95,11 @@ public:
 
     void run()
     {
-        bool expected_running_state = false;
-        if (!running_.compare_exchange_strong(expected_running_state, true))
+        // a halted run is still a run until it has returned
+        bool expected_active_state = false;
+        if (!active_.compare_exchange_strong(expected_active_state, true))
             throw std::runtime_error("Thread is already running");
+        running_.store(true, std::memory_order_release);
 
         // Implemenent with the same logic in batch event processor without notification.
         // Different from the java version.
@@ -124,9 +128,11 @@ public:
             }
         } catch (...) {
             running_.store(false, std::memory_order_release);
+            active_.store(false, std::memory_order_release);
             throw;
         }
         running_.store(false, std::memory_order_release);
+        active_.store(false, std::memory_order_release);
     }
 
 private:
@@ -134,6 +140,7 @@ private:
     TRingBuffer &ring_buffer_;
     typename TRingBuffer::sequence_barrier_type &sequence_barrier_;
     std::unique_ptr<typename TRingBuffer::sequence_barrier_type> sequence_barrier_ptr_;
+    std::atomic<bool> active_;
     std::atomic<bool> running_;
 };
 } // namespace disruptor4cpp
-- 
2.43.0

