From f0a6864f192db91673620c92656cfd47c26460e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:38 +0000
Subject: [PATCH 01/65] fix: IdentifierPool::reserve() terminated instead of
 throwing on exhaustion

---
 src/IdentifierPool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IdentifierPool.h b/src/IdentifierPool.h
index e6513cd..10825b1 100644
--- a/src/IdentifierPool.h
+++ b/src/IdentifierPool.h
@@ -142,7 +142,7 @@ public: /* Types: */
 
     private: /* Methods: */
 
-        IdHolder(std::shared_ptr<State> state) noexcept
+        IdHolder(std::shared_ptr<State> state)
             : m_id(state->reserve())
             , m_state(std::move(state))
         {}
-- 
2.43.0


From ad85394f088441133154e70fc4f2e13c3746858f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:38 +0000
Subject: [PATCH 02/65] fix: IdentifierPool of a strong type threw another
 pool's ReserveException

---
 src/IdentifierPool.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/IdentifierPool.h b/src/IdentifierPool.h
index 10825b1..95308f7 100644
--- a/src/IdentifierPool.h
+++ b/src/IdentifierPool.h
@@ -179,15 +179,12 @@ public: /* Types: */
 
     using ValueType = StrongType<T, Tag, Mixins...>;
 
-    SHAREMIND_DETAIL_DEFINE_EXCEPTION(sharemind::Exception, Exception);
+    using Exception = typename IdentifierPool<T>::Exception;
     /**
       \brief Signifies that ID reservation failed because the identifier space
              in type T is exhausted.
     */
-    SHAREMIND_DETAIL_DEFINE_EXCEPTION_CONST_MSG(
-            Exception,
-            ReserveException,
-            "No more identifiers can be reserved.");
+    using ReserveException = typename IdentifierPool<T>::ReserveException;
 
 public: /* Types: */
 
-- 
2.43.0


From b3367c47902cbe2d1c1299c7c6a041ead60db335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:39 +0000
Subject: [PATCH 03/65] fix: move-assigning to a Promise left its future
 waiting for ever

---
 src/Future.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Future.h b/src/Future.h
index b506507..76bde96 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -407,7 +407,11 @@ template <typename T> class PackagedTask;
             , m_futureState(m_state) \
         {} \
         Promise(Promise &&) noexcept = default; \
-        Promise & operator=(Promise &&) noexcept = default; \
+        Promise & operator=(Promise && move) noexcept { \
+            Promise tmp(std::move(move)); \
+            swap(tmp); \
+            return *this; \
+        } \
         ~Promise() noexcept { \
             if (m_state) \
                 m_state->setException( \
-- 
2.43.0


From 8cfc5bbf74db8817fab8d97322b426a70f1357d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:39 +0000
Subject: [PATCH 04/65] fix: the value in the shared state of a Future was
 never destroyed

---
 src/Future.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Future.h b/src/Future.h
index 76bde96..88cbf58 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -125,6 +125,11 @@ struct SharedState {
 
 /* Methods: */
 
+    ~SharedState() noexcept {
+        if (isSet && !exception)
+            reinterpret_cast<T *>(&m_data)->~T();
+    }
+
     template <typename ... Args>
     void emplaceValue(Args && ... args)
             noexcept(noexcept(T(std::forward<Args>(args)...)))
-- 
2.43.0


From 832a2845092813ed1f997f35619b5eaddadab62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:39 +0000
Subject: [PATCH 05/65] fix: only one of the threads waiting on a Future was
 woken up

---
 src/Future.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Future.h b/src/Future.h
index 88cbf58..c93a28b 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -62,7 +62,7 @@ struct ContinuationBase { \
                     assert(!isSet); \
                     exception = std::move(e_); \
                     isSet = true; \
-                    cond.notify_one(); \
+                    cond.notify_all(); \
                     return std::move(m_continuation); \
                 }(std::move(e))) \
             continuation->run(); \
@@ -140,7 +140,7 @@ struct SharedState {
                     assert(!isSet);
                     new(std::addressof(m_data)) T(std::forward<Args>(args_)...);
                     isSet = true;
-                    cond.notify_one();
+                    cond.notify_all();
                     return std::move(m_continuation);
                 }(std::forward<Args>(args)...))
             continuation->run();
@@ -172,7 +172,7 @@ struct SharedState<void> {
                     std::lock_guard<std::mutex> const guard(mutex);
                     assert(!isSet);
                     isSet = true;
-                    cond.notify_one();
+                    cond.notify_all();
                     return std::move(m_continuation);
                 }())
             continuation->run();
-- 
2.43.0


From e4ac8a1d44358da2c8b1473fa9795f59ff0681a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:39 +0000
Subject: [PATCH 06/65] fix: a throwing value constructor in a Promise
 terminated the program

---
 src/Future.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Future.h b/src/Future.h
index c93a28b..35d3208 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -135,7 +135,7 @@ struct SharedState {
             noexcept(noexcept(T(std::forward<Args>(args)...)))
     {
         if (auto const continuation =
-                [this](Args && ... args_) noexcept -> ContinuationPtr {
+                [this](Args && ... args_) -> ContinuationPtr {
                     std::lock_guard<std::mutex> const guard(mutex);
                     assert(!isSet);
                     new(std::addressof(m_data)) T(std::forward<Args>(args_)...);
@@ -475,8 +475,13 @@ public: /* Methods: */
                                     std::forward<Args>(args)...)))
     {
         assert(m_state);
-        return SharedStatePtr(std::move(m_state))->emplaceValue(
-                        std::forward<Args>(args)...);
+        SharedStatePtr state(std::move(m_state));
+        try {
+            state->emplaceValue(std::forward<Args>(args)...);
+        } catch (...) { // The value was not set, keep the promise:
+            m_state = std::move(state);
+            throw;
+        }
     }
 
     void setValue(T && v)
-- 
2.43.0


From 9567831025814cc0cfc2d733e03116f79f739973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:18 +0000
Subject: [PATCH 07/65] fix: PackagedTask::reset() did not compile

---
 src/Future.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Future.h b/src/Future.h
index 35d3208..6c3d4d8 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -603,7 +603,10 @@ public: /* Methods: */
 
     bool isValid() const noexcept { return m_promise.isValid(); }
 
-    void reset() { swap(PackagedTask(std::move(m_function))); }
+    void reset() {
+        PackagedTask tmp(std::move(m_function));
+        swap(tmp);
+    }
 
     void swap(PackagedTask & other) noexcept {
         m_promise.swap(other.m_promise);
-- 
2.43.0


From 03264109725f27463d03d80aba3048137f465e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:45 +0000
Subject: [PATCH 08/65] fix: the queries of AtomicFlags did not compile
 (non-const load())

---
 src/AtomicFlags.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AtomicFlags.h b/src/AtomicFlags.h
index 185f858..0450828 100644
--- a/src/AtomicFlags.h
+++ b/src/AtomicFlags.h
@@ -37,7 +37,7 @@ public: /* Methods: */
     constexpr explicit AtomicFlags(U const value) noexcept : m_flags{value} {}
 
     Flags<T, U> load(std::memory_order const memoryOrder =
-                             std::memory_order_seq_cst) noexcept
+                             std::memory_order_seq_cst) const noexcept
     { return m_flags.load(memoryOrder); }
 
     void store(U const flags,
-- 
2.43.0


From 35bb16e9144f9bad549bd887c24d1cfc630c3778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:11 +0000
Subject: [PATCH 09/65] fix: MpscWaitFreeSemiIntrusiveQueue handed over its
 nodes without synchronization

---
 src/MpscWaitFreeSemiIntrusiveQueue.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MpscWaitFreeSemiIntrusiveQueue.h b/src/MpscWaitFreeSemiIntrusiveQueue.h
index 1429a6e..51e54d2 100644
--- a/src/MpscWaitFreeSemiIntrusiveQueue.h
+++ b/src/MpscWaitFreeSemiIntrusiveQueue.h
@@ -81,15 +81,15 @@ public: /* Methods: */
         Node * const newNode = node.release();
         assert(!newNode->next.load(std::memory_order_relaxed));
         Node * const oldTail =
-                m_tail.exchange(newNode, std::memory_order_relaxed);
+                m_tail.exchange(newNode, std::memory_order_acq_rel);
         assert(oldTail);
-        oldTail->next.store(newNode, std::memory_order_relaxed);
+        oldTail->next.store(newNode, std::memory_order_release);
     }
 
     std::unique_ptr<Node> pop() noexcept {
         Node * const head = m_head.load(std::memory_order_consume);
         assert(head);
-        Node * const next = head->next.load(std::memory_order_relaxed);
+        Node * const next = head->next.load(std::memory_order_acquire);
 
         if (!next)
             return nullptr;
-- 
2.43.0


From 19228cdcaf3b57617da99429eeda2068d5cee8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:58 +0000
Subject: [PATCH 10/65] fix: a failing resource constructor in a
 SharedResourceMap terminated the program

---
 src/SharedResourceMap.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/SharedResourceMap.h b/src/SharedResourceMap.h
index 577a57e..cc5cd69 100644
--- a/src/SharedResourceMap.h
+++ b/src/SharedResourceMap.h
@@ -57,7 +57,6 @@ private: /* Types: */
                   typename Constructor,
                   typename ... Args>
         ValueObj_(C && c, K && k, Constructor constructor, Args && ... args)
-                noexcept
             : container(std::forward<C>(c))
             , key(std::forward<K>(k))
             , realPtr(constructor(key, std::forward<Args>(args)...))
-- 
2.43.0


From ee7e26b1dd2eaecb6eb92e11fdd7d97682a2a4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:07 +0000
Subject: [PATCH 11/65] fix: SharedResourceMap::forEach() deadlocked on the
 last reference to a resource

---
 src/SharedResourceMap.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/SharedResourceMap.h b/src/SharedResourceMap.h
index cc5cd69..d6eed83 100644
--- a/src/SharedResourceMap.h
+++ b/src/SharedResourceMap.h
@@ -26,6 +26,7 @@
 #include <memory>
 #include <mutex>
 #include <utility>
+#include <vector>
 
 
 namespace sharemind {
@@ -79,10 +80,16 @@ private: /* Types: */
 
         template <typename F>
         void forEach(F f) const {
+            // Releasing the last reference to a resource locks m_mutex:
+            std::vector<std::shared_ptr<Value> > keep;
             std::unique_lock<std::mutex> lock(m_mutex);
-            for (auto const & v : m_data)
-                if (auto ptr = v.second->weakPtr.lock())
+            keep.reserve(m_data.size());
+            for (auto const & v : m_data) {
+                if (auto ptr = v.second->weakPtr.lock()) {
+                    keep.emplace_back(ptr);
                     f(v.first, std::move(ptr));
+                }
+            }
         }
 
         void waitForEmpty() const noexcept {
-- 
2.43.0


From 02f7dcb45de56477f5b1050eadc35c5b0810404d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:34 +0000
Subject: [PATCH 12/65] fix: resources of a SharedResourceMap leaked or existed
 twice on racing releases

---
 src/SharedResourceMap.h | 51 ++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/src/SharedResourceMap.h b/src/SharedResourceMap.h
index d6eed83..b81aff4 100644
--- a/src/SharedResourceMap.h
+++ b/src/SharedResourceMap.h
@@ -118,6 +118,39 @@ private: /* Types: */
         Map_ m_data;
     };
 
+    /** Owned in common by all references to a resource. */
+    struct Releaser_ {
+
+    /* Methods: */
+
+        explicit Releaser_(std::shared_ptr<ValueObj_> valueObj_) noexcept
+            : valueObj(std::move(valueObj_))
+        {}
+
+        ~Releaser_() noexcept {
+            if (auto const cPtr = valueObj->container.lock()) {
+                Inner & c = *static_cast<Inner *>(cPtr.get());
+                std::lock_guard<std::mutex> const guard(c.m_mutex);
+                auto const it = c.m_data.find(valueObj->key);
+                if ((it != c.m_data.end())
+                    && (it->second == valueObj)
+                    && valueObj->weakPtr.expired())
+                {
+                    /* Other releasers might still be referring to valueObj,
+                       because of which we reset realPtr explicitly: */
+                    valueObj->realPtr.reset();
+                    c.m_data.erase(it);
+                    c.m_cond.notify_all();
+                }
+            }
+        }
+
+    /* Fields: */
+
+        std::shared_ptr<ValueObj_> valueObj;
+
+    };
+
 public: /* Types: */
 
     using type = SharedResourceMap<Key, Value>;
@@ -165,22 +198,8 @@ public: /* Methods: */
     {
         static auto const createShared = [](std::shared_ptr<ValueObj_> valueObj)
         {
-            std::shared_ptr<Value> r(
-                valueObj->realPtr.get(),
-                [valueObj](Value * const) mutable noexcept {
-                    if (auto cPtr = valueObj->container.lock()) {
-                        Inner & c = *static_cast<Inner *>(cPtr.get());
-                        std::lock_guard<std::mutex> const guard(c.m_mutex);
-                        auto const it = c.m_data.find(valueObj->key);
-                        if ((it != c.m_data.end())
-                            && it->second->weakPtr.expired())
-                        {
-                            valueObj.reset();
-                            c.m_data.erase(it);
-                            c.m_cond.notify_all();
-                        }
-                    }
-                });
+            auto const releaser(std::make_shared<Releaser_>(valueObj));
+            std::shared_ptr<Value> r(releaser, valueObj->realPtr.get());
             valueObj->weakPtr = r;
             return r;
         };
-- 
2.43.0


From f78a8fc3c641d0da01c5aa74a1331ad209fe14b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:04 +0000
Subject: [PATCH 13/65] fix: timed participation in a pool outlasted its
 deadline behind an idle thread

---
 src/ThreadPool.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ThreadPool.h b/src/ThreadPool.h
index 12ebe6b..bbd0ec7 100644
--- a/src/ThreadPool.h
+++ b/src/ThreadPool.h
@@ -211,7 +211,7 @@ private: /* Methods: */
     {}
 
     Task waitAndPop() noexcept {
-        std::lock_guard<std::mutex> const headGuard(m_headMutex);
+        std::lock_guard<decltype(m_headMutex)> const headGuard(m_headMutex);
         assert(m_head);
         {
             std::unique_lock<decltype(m_tailMutex)> tailLock(m_tailMutex);
@@ -238,7 +238,10 @@ private: /* Methods: */
     std::pair<Task, Status> waitAndPop(
             std::chrono::time_point<Clock, Duration> const & timepoint) noexcept
     {
-        std::lock_guard<std::mutex> const headGuard(m_headMutex);
+        std::unique_lock<decltype(m_headMutex)> const headLock(m_headMutex,
+                                                               timepoint);
+        if (!headLock.owns_lock())
+            return {Task(), Timeout};
         assert(m_head);
         {
             std::unique_lock<decltype(m_tailMutex)> tailLock(m_tailMutex);
@@ -271,7 +274,7 @@ private: /* Methods: */
 
 private: /* Fields: */
 
-    std::mutex m_headMutex;
+    std::timed_mutex m_headMutex;
     mutable TicketSpinLock m_tailMutex;
     std::condition_variable_any m_dataCond;
     TaskWrapper * m_tail;
-- 
2.43.0


From 4ee29a40c1fbed7f61a82dbdf48a4933fcbef16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:06 +0000
Subject: [PATCH 14/65] fix: destroying a pool or strand with many tasks left
 overflowed the stack

---
 src/Strand.h     | 6 ++++++
 src/ThreadPool.h | 6 +++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/Strand.h b/src/Strand.h
index 6cb3b2c..7195cd6 100644
--- a/src/Strand.h
+++ b/src/Strand.h
@@ -64,6 +64,12 @@ private: /* Types: */
             : m_threadPool(std::move(threadPool))
         {}
 
+        ~Internal() noexcept {
+            // Not recursively, there is no limit on the number of tasks left:
+            while (m_head)
+                m_head = std::move(m_head->m_next);
+        }
+
         void submit(ThreadPool::Task && task) noexcept {
             assert(task);
             assert(task->m_value);
diff --git a/src/ThreadPool.h b/src/ThreadPool.h
index bbd0ec7..41c4427 100644
--- a/src/ThreadPool.h
+++ b/src/ThreadPool.h
@@ -95,7 +95,11 @@ public: /* Methods: */
     ThreadPool & operator=(ThreadPool &&) = delete;
     ThreadPool & operator=(ThreadPool const &) = delete;
 
-    virtual ~ThreadPool() noexcept {}
+    virtual ~ThreadPool() noexcept {
+        // Not recursively, there is no limit on the number of tasks left:
+        while (m_head)
+            m_head = std::move(m_head->m_next);
+    }
 
     template <typename F>
     static Task createTask(F && f) {
-- 
2.43.0


From b5ed200c73f045df8faf6ed74b8010984a2d9efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 15/65] fix: EventLoop hung on certain numbers of pending
 notifications

---
 src/EventLoop.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/EventLoop.h b/src/EventLoop.h
index ef4d0de..590f2ea 100644
--- a/src/EventLoop.h
+++ b/src/EventLoop.h
@@ -328,12 +328,15 @@ public: /* Methods: */
                         auto const rd = ::read(m_closePipe.readEnd,
                                                events,
                                                DISCARD_SIZE);
-                        assert(static_cast<std::size_t>(rd) <= DISCARD_SIZE);
+                        assert(rd <= 0 ||
+                               static_cast<std::size_t>(rd) <= DISCARD_SIZE);
                         if (rd <= 0) {
                             if (rd == 0 // HUP or EOF
                                     || (static_cast<void>(assert(rd == -1)),
                                         (errno != EAGAIN) && (errno != EINTR)))
                                 return; // Error or stop signalled
+                            if (errno == EAGAIN) // Nothing left to flush
+                                goto Sharemind_EventLoop_run_continue;
                         } else if (static_cast<std::size_t>(rd) < DISCARD_SIZE)
                         { goto Sharemind_EventLoop_run_continue; }
                     }
-- 
2.43.0


From 79f4c878c93aaf775558c0bb8cd29d9335288c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 16/65] fix: waiting for the end of an EventLoop iteration hung
 or returned too early

---
 src/EventLoop.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/EventLoop.h b/src/EventLoop.h
index 590f2ea..8aca2b6 100644
--- a/src/EventLoop.h
+++ b/src/EventLoop.h
@@ -379,18 +379,22 @@ private: /* Methods: */
             if (w > 0)
                 break;
             assert(w == -1);
-            if (errno != EAGAIN
-                && errno != EINTR
-                #if defined(EWOULDBLOCK) && (EWOULDBLOCK != EAGAIN)
-                && errno != EWOULDBLOCK
-                #endif
+            /* If the pipe is full the loop has been notified already, and if
+               it is closed then the loop is about to stop: */
+            if (errno != EINTR
                 && errno != ENOSPC
                 && errno != EIO
                 && errno != ENOBUFS)
-                return;
+                break;
         }
-        while (m_loopCounter.load(std::memory_order_acquire) == start)
+        while (m_loopCounter.load(std::memory_order_acquire) == start) {
+            // Not running after all (only other waiters held the mutex):
+            if (m_stopMutex.try_lock()) {
+                m_stopMutex.unlock();
+                return;
+            }
             spinFunction();
+        }
     }
 
     #if defined(__linux__)
-- 
2.43.0


From 6fef3c86c78e4ef1d1821a66cafb95c2e07598cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 17/65] fix: stopping an EventLoop raced with other stops and
 with waits

---
 src/EventLoop.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/EventLoop.h b/src/EventLoop.h
index 8aca2b6..86c4a7d 100644
--- a/src/EventLoop.h
+++ b/src/EventLoop.h
@@ -162,6 +162,7 @@ private: /* Types: */
         }
 
         void writeEndClose() noexcept {
+            std::lock_guard<std::mutex> const guard{writeEndMutex};
             if (writeEnd == readEnd)
                 return;
             ::close(writeEnd);
@@ -172,6 +173,7 @@ private: /* Types: */
 
         int readEnd;
         int writeEnd;
+        std::mutex writeEndMutex;
 
     };
 
@@ -374,6 +376,7 @@ private: /* Methods: */
             return;
         static char const data = '\0';
         for (;;) {
+            std::lock_guard<std::mutex> const guard{m_closePipe.writeEndMutex};
             auto const w = ::write(m_closePipe.writeEnd, &data, 1u);
             assert(w <= 1);
             if (w > 0)
-- 
2.43.0


From 7e6a6b42f4317b5ea27c402a6582d24a2c9398b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:02 +0000
Subject: [PATCH 18/65] fix: SharedResourceMap destroyed resources unordered
 with their last use

A releaser which found the weak pointer expired destroyed the resource
although the thread that had let go of it last had not been synchronized
with.
---
 src/SharedResourceMap.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/SharedResourceMap.h b/src/SharedResourceMap.h
index b81aff4..605f8d6 100644
--- a/src/SharedResourceMap.h
+++ b/src/SharedResourceMap.h
@@ -22,6 +22,7 @@
 
 #include <cassert>
 #include <condition_variable>
+#include <cstddef>
 #include <map>
 #include <memory>
 #include <mutex>
@@ -69,6 +70,7 @@ private: /* Types: */
         std::weak_ptr<Value> weakPtr;
         Key key;
         std::shared_ptr<Value> realPtr;
+        std::size_t numReleasers = 0u;
 
     };
 
@@ -131,15 +133,13 @@ private: /* Types: */
             if (auto const cPtr = valueObj->container.lock()) {
                 Inner & c = *static_cast<Inner *>(cPtr.get());
                 std::lock_guard<std::mutex> const guard(c.m_mutex);
-                auto const it = c.m_data.find(valueObj->key);
-                if ((it != c.m_data.end())
-                    && (it->second == valueObj)
-                    && valueObj->weakPtr.expired())
-                {
+                /* The last releaser to get here destroys the resource, because
+                   everybody else is then known to have finished using it: */
+                if (--valueObj->numReleasers == 0u) {
                     /* Other releasers might still be referring to valueObj,
                        because of which we reset realPtr explicitly: */
                     valueObj->realPtr.reset();
-                    c.m_data.erase(it);
+                    c.m_data.erase(valueObj->key);
                     c.m_cond.notify_all();
                 }
             }
@@ -201,6 +201,7 @@ public: /* Methods: */
             auto const releaser(std::make_shared<Releaser_>(valueObj));
             std::shared_ptr<Value> r(releaser, valueObj->realPtr.get());
             valueObj->weakPtr = r;
+            ++valueObj->numReleasers;
             return r;
         };
 
-- 
2.43.0


From 461f9482405cdedb634e0328d7ee2f98e45eeac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:35 +0000
Subject: [PATCH 19/65] fix: a throwing copy or move constructor made Optional
 destroy a value never made

---
 src/Optional.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/Optional.h b/src/Optional.h
index a9d8ad6..d9e886d 100644
--- a/src/Optional.h
+++ b/src/Optional.h
@@ -173,10 +173,12 @@ struct CopyConstructorBase<T, 2>: DestructorBase<T> {
 
     CopyConstructorBase(CopyConstructorBase const & copy)
             noexcept(std::is_nothrow_copy_constructible<T>::value)
-        : DestructorBase<T>(copy.m_containsValue)
+        : DestructorBase<T>()
     {
-        if (copy.m_containsValue)
+        if (copy.m_containsValue) {
             new (std::addressof(this->m_data)) T(copy.m_data);
+            this->m_containsValue = true; // Only now, T() might have thrown
+        }
     }
 
     constexpr CopyConstructorBase(CopyConstructorBase &&) = default;
@@ -201,10 +203,12 @@ struct MoveConstructorBase<T, false>: CopyConstructorBase<T> {
 
     MoveConstructorBase(MoveConstructorBase && move)
             noexcept(std::is_nothrow_move_constructible<T>::value)
-        : CopyConstructorBase<T>(move.m_containsValue)
+        : CopyConstructorBase<T>()
     {
-        if (move.m_containsValue)
+        if (move.m_containsValue) {
             new (std::addressof(this->m_data)) T(std::move(move.m_data));
+            this->m_containsValue = true; // Only now, T() might have thrown
+        }
     }
 
     MoveConstructorBase & operator=(MoveConstructorBase const &) = default;
-- 
2.43.0


From d8cf90a44da7769b5f5ff71a15d897123e7d5686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:35 +0000
Subject: [PATCH 20/65] fix: converting an empty Optional to one of another
 type made up a value

---
 src/Optional.h | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/Optional.h b/src/Optional.h
index d9e886d..cf4048d 100644
--- a/src/Optional.h
+++ b/src/Optional.h
@@ -399,7 +399,10 @@ public: /* Methods: */
                 && !CanGetValueFromOptional<U>::value
                 && std::is_convertible<U const &, T>::value,
                 int>::type = 0>
-    constexpr Optional(Optional<U> const & v) : Optional(inPlace, *v) {}
+    constexpr Optional(Optional<U> const & v) : Optional() {
+        if (v.hasValue())
+            this->emplace(*v);
+    }
 
     template <
             typename U = T,
@@ -408,9 +411,10 @@ public: /* Methods: */
                 && !CanGetValueFromOptional<U>::value
                 && !std::is_convertible<U const &, T>::value,
                 int>::type = 0>
-    explicit constexpr Optional(Optional<U> const & v)
-        : Optional(inPlace, *v)
-    {}
+    explicit constexpr Optional(Optional<U> const & v) : Optional() {
+        if (v.hasValue())
+            this->emplace(*v);
+    }
 
     template <
             typename U = T,
@@ -419,7 +423,10 @@ public: /* Methods: */
                 && !CanGetValueFromOptional<U>::value
                 && std::is_convertible<U, T>::value,
                 int>::type = 0>
-    constexpr Optional(Optional<U> && v) : Optional(inPlace, std::move(*v)) {}
+    constexpr Optional(Optional<U> && v) : Optional() {
+        if (v.hasValue())
+            this->emplace(*std::move(v));
+    }
 
     template <
             typename U = T,
@@ -428,9 +435,10 @@ public: /* Methods: */
                 && !CanGetValueFromOptional<U>::value
                 && !std::is_convertible<U, T>::value,
                 int>::type = 0>
-    explicit constexpr Optional(Optional<U> && v)
-        : Optional(inPlace, std::move(*v))
-    {}
+    explicit constexpr Optional(Optional<U> && v) : Optional() {
+        if (v.hasValue())
+            this->emplace(*std::move(v));
+    }
 
     Optional & operator=(NullOption) noexcept {
         this->reset_();
-- 
2.43.0


From 4e1677d66377d54abc3e513b24b9b1a010f31697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:35 +0000
Subject: [PATCH 21/65] fix: swap() and converting assignment of Optional did
 not compile

---
 src/Optional.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Optional.h b/src/Optional.h
index cf4048d..115800d 100644
--- a/src/Optional.h
+++ b/src/Optional.h
@@ -328,6 +328,9 @@ class Optional
 
     static_assert(std::is_object<T>::value, "");
 
+    template <typename U, SHAREMIND_REQUIRE_CONCEPTS(Destructible(U))>
+    friend class Optional;
+
 private: /* Types: */
 
     template <typename U, bool isExplicit>
@@ -685,8 +688,10 @@ SHAREMIND_OPTIONAL_H_VALUECOMPARE(>=, false, true)
 #undef SHAREMIND_OPTIONAL_H_VALUECOMPARE
 
 template <typename T>
-std::enable_if<std::is_move_constructible<T>::value && IsSwappable<T>::value,
-               void>
+typename std::enable_if<
+        std::is_move_constructible<T>::value && IsSwappable<T>::value,
+        void
+    >::type
 swap(Optional<T> & a, Optional<T> & b) { return a.swap(b); }
 
 template <typename T>
-- 
2.43.0


From eccda69837cc2b8f6448981503c066b9297a0196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:46 +0000
Subject: [PATCH 22/65] fix: copies of an UnorderedMap shared their values with
 the original

---
 src/UnorderedMap.h | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/UnorderedMap.h b/src/UnorderedMap.h
index a3cdfba..6fb8f42 100644
--- a/src/UnorderedMap.h
+++ b/src/UnorderedMap.h
@@ -368,11 +368,10 @@ public: /* Methods: */
     UnorderedMap(UnorderedMap const & copy)
         : m_hasher(copy.m_hasher)
         , m_pred(copy.m_pred)
-        , m_container(copy.m_container)
         , m_allocator(
             std::allocator_traits<allocator_type>
                 ::select_on_container_copy_construction(copy.m_allocator))
-    {}
+    { m_container = copyContainer(copy.m_container, m_allocator); }
 
     UnorderedMap(UnorderedMap && move) = default;
 
@@ -383,7 +382,7 @@ public: /* Methods: */
     UnorderedMap(UnorderedMap const & copy, allocator_type const & allocator)
         : m_hasher(copy.m_hasher)
         , m_pred(copy.m_pred)
-        , m_container(copy.m_container)
+        , m_container(copyContainer(copy.m_container, allocator))
         , m_allocator(allocator)
     {}
 
@@ -400,9 +399,15 @@ public: /* Methods: */
 
     UnorderedMap & operator=(UnorderedMap const & rhs) {
         if (&rhs != this) {
+            auto allocator(m_allocator);
+            Detail::UnorderedMap::PropagateAllocator<
+                        std::allocator_traits<allocator_type>
+                            ::propagate_on_container_copy_assignment::value
+                    >::copy(allocator, rhs.m_allocator);
+            auto container(copyContainer(rhs.m_container, allocator));
             m_hasher = rhs.m_hasher;
             m_pred = rhs.m_pred;
-            m_container = rhs.m_container;
+            m_container = std::move(container);
             Detail::UnorderedMap::PropagateAllocator<
                         std::allocator_traits<allocator_type>
                             ::propagate_on_container_copy_assignment::value
@@ -970,6 +975,19 @@ public: /* Methods: */
 
     void reserve(size_type n) { m_container.reserve(n); }
 
+private: /* Methods: */
+
+    static InnerContainer copyContainer(InnerContainer const & container,
+                                        allocator_type const & allocator)
+    {
+        InnerContainer r(container); // This copies only the pointers
+        for (auto & v : r) {
+            value_type const & value = *v.second;
+            v.second = std::allocate_shared<value_type>(allocator, value);
+        }
+        return r;
+    }
+
 private: /* Fields: */
 
     hasher m_hasher;
-- 
2.43.0


From 728af09f6a5359de2e5716da8c4a2cc3b985ee38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:46 +0000
Subject: [PATCH 23/65] fix: UnorderedMap: assignment of lists and hinted
 insert_or_assign() did not compile

---
 src/UnorderedMap.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/UnorderedMap.h b/src/UnorderedMap.h
index 6fb8f42..ed69690 100644
--- a/src/UnorderedMap.h
+++ b/src/UnorderedMap.h
@@ -430,12 +430,12 @@ public: /* Methods: */
     }
 
     UnorderedMap & operator=(std::initializer_list<value_type> values) {
-        InnerContainer newInner;
-        for (auto & v : values)
-            newInner.emplace(std::allocate_shared<value_type>(m_allocator,
-                                                              std::move(v)));
-        newInner.rehash();
-        std::swap(m_container, newInner);
+        UnorderedMap newMap(std::move(values),
+                            InnerContainer().bucket_count(),
+                            m_hasher,
+                            m_pred,
+                            m_allocator);
+        std::swap(m_container, newMap.m_container);
         return *this;
     }
 
@@ -577,7 +577,7 @@ public: /* Methods: */
     iterator insert_or_assign(const_iterator /* hint */,
                               key_type && k,
                               Value && v)
-    { return insert_or_assign(std::move(k), std::forward<Value>(v)); }
+    { return insert_or_assign(std::move(k), std::forward<Value>(v)).first; }
 
     iterator erase(const_iterator position)
     { return iterator(m_container.erase(position.base())); }
-- 
2.43.0


From 9878712272202f51926196dad228d17dd22e00bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:46 +0000
Subject: [PATCH 24/65] fix: StringHasher: strings hashed differently from
 other ranges of characters with recent Boost

---
 src/StringHasher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringHasher.h b/src/StringHasher.h
index 29f3590..b6a9d09 100644
--- a/src/StringHasher.h
+++ b/src/StringHasher.h
@@ -137,7 +137,7 @@ struct StringHasher {
     std::size_t operator()(std::string const & v) const
             noexcept(noexcept(std::declval<StringHasher const &>()(v.begin(),
                                                                    v.end())))
-    { return boost::hash_range(v.begin(), v.end()); }
+    { return this->operator()(v.begin(), v.end()); }
 
     std::size_t operator()(char const * const v) const noexcept
     { return this->operator()(v, Detail::TerminatingNullCharacterSentinel()); }
-- 
2.43.0


From 824a9fa2dcf8803a28a5fbdfc91046fbb5dfe20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:29 +0000
Subject: [PATCH 25/65] fix: StringHasher: keys with null characters were equal
 to their beginnings

---
 src/StringHasher.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/StringHasher.h b/src/StringHasher.h
index b6a9d09..8d9689b 100644
--- a/src/StringHasher.h
+++ b/src/StringHasher.h
@@ -23,7 +23,6 @@
 #include <algorithm>
 #include <boost/functional/hash.hpp>
 #include <cstddef>
-#include <cstring>
 #include <iterator>
 #include <string>
 #include <utility>
@@ -111,11 +110,11 @@ struct StringHasher {
 
         bool operator()(char const * const a, std::string const & b)
                 const noexcept
-        { return std::strcmp(a, b.c_str()) == 0; }
+        { return a == b; }
 
         bool operator()(std::string const & a, char const * const b)
                 const noexcept
-        { return std::strcmp(a.c_str(), b) == 0; }
+        { return a == b; }
 
     };
 
-- 
2.43.0


From 57886bd2e3fe504fa8d980540831ff78bf868cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:22 +0000
Subject: [PATCH 26/65] fix: BitVec::append() read past empty vectors, mixed in
 bits out of range and left a block too many

---
 src/BitVector.h | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/BitVector.h b/src/BitVector.h
index 276ec64..6f11093 100644
--- a/src/BitVector.h
+++ b/src/BitVector.h
@@ -281,27 +281,28 @@ public: /* Methods: */
     }
 
     void append (const BitVec& other) {
-        using const_iter = typename store_type::const_iterator;
-        block_type r = m_num_bits % bits_per_block();
-        const_iter i = other.m_blocks.begin ();
-        const const_iter e = other.m_blocks.end ();
+        const size_type r = m_num_bits % bits_per_block();
+        const size_type n = other.num_blocks_ ();
+        const size_type num_bits = m_num_bits + other.m_num_bits;
+        size_type j = num_blocks_ ();
+        m_blocks.resize (compute_block_count (num_bits));
         if (r == 0) {
-            for (; i != e; ++ i) {
-                m_blocks.push_back (*i);
+            for (size_type i = 0; i < n; ++ i, ++ j) {
+                m_blocks[j] = other.m_blocks[i];
             }
         }
         else {
-            assert (! empty ());
-            assert (! m_blocks.empty ());
-            m_blocks.back () |= (*i << r);
-            do {
-                const block_type b = *i >> (bits_per_block() - r);
-                ++ i;
-                m_blocks.push_back (b | (i == e ? 0 : *i << r));
-            } while (i != e);
+            const block_type mask = bit_mask (r) - 1; /* bits in use before */
+            for (size_type i = 0; i < n; ++ i, ++ j) {
+                const block_type b = other.m_blocks[i];
+                m_blocks[j - 1] = (m_blocks[j - 1] & mask) | (b << r);
+                if (j < num_blocks_ ()) {
+                    m_blocks[j] = b >> (bits_per_block() - r);
+                }
+            }
         }
 
-        m_num_bits += other.m_num_bits;
+        m_num_bits = num_bits;
     }
 
     template <typename Rng>
-- 
2.43.0


From 76dfca47423873f36284f26a4cf872a5722986b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:22 +0000
Subject: [PATCH 27/65] fix: BitVec::clear_and_release() left a size without
 bits behind

---
 src/BitVector.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/BitVector.h b/src/BitVector.h
index 6f11093..86d573b 100644
--- a/src/BitVector.h
+++ b/src/BitVector.h
@@ -369,7 +369,10 @@ public: /* Methods: */
     friend bool operator == (const BitVec<B, A, S>& x,
                              const BitVec<B, A, S>& y);
 
-    void clear_and_release() { store_type().swap (m_blocks); }
+    void clear_and_release() {
+        store_type().swap (m_blocks);
+        m_num_bits = 0;
+    }
 
     void* data () { return static_cast<void*>(m_blocks.data ()); }
     const void* data () const { return static_cast<const void*>(m_blocks.data ()); }
-- 
2.43.0


From f6aa046cad932b75b4c78c74fc134b9a6e8eec24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:22 +0000
Subject: [PATCH 28/65] fix: operators &, ^ and | of BitVec did not compile,
 having no copies to work on

---
 src/BitVector.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BitVector.h b/src/BitVector.h
index 86d573b..1137ab2 100644
--- a/src/BitVector.h
+++ b/src/BitVector.h
@@ -146,6 +146,8 @@ public: /* Methods: */
         , m_num_bits (num_bits)
     { }
 
+    BitVec(const BitVec&) = default;
+
     BitVec(BitVec&& other)
         : m_blocks{std::move(other.m_blocks)}
         , m_num_bits{std::move(other.m_num_bits)}
@@ -153,6 +155,8 @@ public: /* Methods: */
         other.m_num_bits = 0;
     }
 
+    BitVec& operator=(const BitVec&) = default;
+
     BitVec& operator=(BitVec&& other) {
         m_blocks = std::move(other.m_blocks);
         m_num_bits = other.m_num_bits;
-- 
2.43.0


From 5bc138725f5ebaa90d3268f5b54837131c40e660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:27 +0000
Subject: [PATCH 29/65] fix: StringView::rfind() without a position found only
 what the view started with

---
 src/StringView.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/StringView.h b/src/StringView.h
index 0f069a4..976a93f 100644
--- a/src/StringView.h
+++ b/src/StringView.h
@@ -425,10 +425,12 @@ public: /* Methods: */
         return npos;
     }
 
-    constexpr SizeType rfind(BasicStringView v, SizeType pos = 0u) const noexcept
+    constexpr SizeType rfind(BasicStringView v, SizeType pos = npos)
+            const noexcept
     { return rfind(v.m_start, pos, v.m_size); }
 
-    constexpr SizeType rfind(CharT const * str, SizeType pos = 0u) const noexcept
+    constexpr SizeType rfind(CharT const * str, SizeType pos = npos)
+            const noexcept
     { return rfind(str, pos, Traits::length(str)); }
 
     constexpr SizeType findFirstOf(CharT c, SizeType pos = 0u) const noexcept
-- 
2.43.0


From 7ae84cbd06a3c848db0eff5943e17fbf3559c544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:38 +0000
Subject: [PATCH 30/65] fix: BasicInputMemoryStream did not compile for
 characters other than char

---
 src/InputMemoryStream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/InputMemoryStream.h b/src/InputMemoryStream.h
index c2730b8..bbd1dd6 100644
--- a/src/InputMemoryStream.h
+++ b/src/InputMemoryStream.h
@@ -51,7 +51,7 @@ public: /* Methods: */
 
     BasicInputMemoryStream(CharT const * data, std::size_t size)
         : Detail::BasicMemoryBuffer<CharT, Traits>(data, size)
-        , std::istream(
+        , std::basic_istream<CharT, Traits>(
               static_cast<Detail::BasicMemoryBuffer<CharT, Traits> *>(this))
     {}
 
-- 
2.43.0


From f14127815cac29569096d53369ea3098b39ba85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:38 +0000
Subject: [PATCH 31/65] fix: IncomingNetworkMessage::readSize() moved past
 sizes it rejected

---
 src/NetworkMessage.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/NetworkMessage.h b/src/NetworkMessage.h
index 64c534d..3235863 100644
--- a/src/NetworkMessage.h
+++ b/src/NetworkMessage.h
@@ -327,11 +327,14 @@ inline bool IncomingNetworkMessage::readSize(SizeType & size)
         noexcept(false)
 {
     SerializedSizeType rawSize;
+    auto const rollbackOffset(m_offset);
     auto const r(read(rawSize));
     if (r) {
         rawSize = sharemindNetToHostOrder(rawSize);
-        if (!SizeTypeInfo<SizeType>::fitsValue(rawSize))
+        if (!SizeTypeInfo<SizeType>::fitsValue(rawSize)) {
+            m_offset = rollbackOffset;
             throw OverflowException();
+        }
         size = static_cast<SizeType>(rawSize);
     }
     return r;
@@ -349,11 +352,14 @@ inline bool IncomingNetworkMessage::readSize(
     static_assert(std::is_unsigned<SizeType>::value, "");
 
     SerializedSizeType rawSize;
+    auto const rollbackOffset(m_offset);
     auto const r(read(rawSize));
     if (r) {
         rawSize = sharemindNetToHostOrder(rawSize);
-        if (!SizeTypeInfo<SizeType>::fitsValue(rawSize))
+        if (!SizeTypeInfo<SizeType>::fitsValue(rawSize)) {
+            m_offset = rollbackOffset;
             throw std::forward<OverflowException>(overflowException);
+        }
         size = static_cast<SizeType>(rawSize);
     }
     return r;
-- 
2.43.0


From cd8fa12fc33bc1133cc733ff0916ab637c42b5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:38 +0000
Subject: [PATCH 32/65] fix: reading from an empty IncomingNetworkMessage
 without data failed an assertion

---
 src/NetworkMessage.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/NetworkMessage.h b/src/NetworkMessage.h
index 3235863..b4bf809 100644
--- a/src/NetworkMessage.h
+++ b/src/NetworkMessage.h
@@ -238,11 +238,13 @@ inline IncomingNetworkMessage::IncomingNetworkMessage(
 inline bool IncomingNetworkMessage::readBytes(void * buffer, std::size_t size)
         noexcept
 {
-    assert(this->data);
+    assert(this->data || this->size == 0u);
     assert(m_offset <= this->size);
 
     if (this->size - m_offset < size)
         return false;
+    if (size == 0u)
+        return true;
 
     std::memcpy(buffer, ptrAdd(this->data, m_offset), size);
     m_offset += size;
@@ -252,7 +254,7 @@ inline bool IncomingNetworkMessage::readBytes(void * buffer, std::size_t size)
 
 template <typename T>
 inline bool IncomingNetworkMessage::read(T & val) noexcept {
-    assert(this->data);
+    assert(this->data || this->size == 0u);
     assert(m_offset <= this->size);
 
     if (this->size - m_offset < sizeof(T))
@@ -267,7 +269,7 @@ inline bool IncomingNetworkMessage::read(T & val) noexcept {
 }
 
 inline bool IncomingNetworkMessage::read(std::string & val) {
-    assert(this->data);
+    assert(this->data || this->size == 0u);
     assert(m_offset <= this->size);
 
     auto const rollbackOffset(m_offset);
@@ -298,7 +300,7 @@ inline bool IncomingNetworkMessage::read(std::string & val) {
 }
 
 inline bool IncomingNetworkMessage::read(bool & val) noexcept {
-    assert(this->data);
+    assert(this->data || this->size == 0u);
     assert(m_offset <= this->size);
 
     std::size_t const rollbackOffset = m_offset;
@@ -371,7 +373,7 @@ inline bool IncomingNetworkMessage::readArray(T * data, SizeType const size)
 {
     static_assert(std::is_unsigned<SizeType>::value, "");
 
-    assert(this->data);
+    assert(this->data || this->size == 0u);
     assert(m_offset <= this->size);
 
     using S = decltype(sizeof(T) * size);
@@ -382,6 +384,8 @@ inline bool IncomingNetworkMessage::readArray(T * data, SizeType const size)
     auto const sizeInBytes(sizeof(T) * size);
     if (getRemainingSize() < sizeInBytes)
         return false;
+    if (sizeInBytes == 0u)
+        return true;
 
     std::memcpy(data, ptrAdd(this->data, m_offset), sizeInBytes);
     m_offset += sizeInBytes;
-- 
2.43.0


From 7ef8942ff21952d2633eb0fac3971fb7bbc1a796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:38 +0000
Subject: [PATCH 33/65] fix: OutgoingNetworkMessage wrote the objects instead
 of the contents of non-const strings and messages

---
 src/NetworkMessage.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/NetworkMessage.h b/src/NetworkMessage.h
index b4bf809..40956f3 100644
--- a/src/NetworkMessage.h
+++ b/src/NetworkMessage.h
@@ -138,6 +138,20 @@ public: /* Methods: */
 
 class OutgoingNetworkMessage: public SeekableNetworkMessage {
 
+private: /* Types: */
+
+    /* Whether to write the bytes of the object itself, and not what one of the
+       overloads for characters, strings and messages would write: */
+    template <typename T,
+              typename U = typename std::remove_cv<
+                                typename std::remove_reference<T>::type>::type>
+    struct WritesObject: std::integral_constant<
+            bool,
+            !std::is_same<U, char *>::value
+            && !std::is_base_of<std::string, U>::value
+            && !std::is_base_of<NetworkMessage, U>::value>
+    {};
+
 public: /* Methods: */
 
     OutgoingNetworkMessage(OutgoingNetworkMessage const &) = delete;
@@ -155,7 +169,8 @@ public: /* Methods: */
     inline void write(std::string const & val) noexcept(false);
     inline void write(NetworkMessage const & val) noexcept(false);
 
-    template<typename T>
+    template<typename T,
+             typename = typename std::enable_if<WritesObject<T>::value>::type>
     inline void write(T && val) noexcept(false);
 
     template <typename SerializedSizeType = DefaultSizeType, typename SizeType>
@@ -418,7 +433,7 @@ inline void OutgoingNetworkMessage::write(NetworkMessage const & message)
         noexcept(false)
 { writeBytes(message.data, message.size); }
 
-template <typename T>
+template <typename T, typename>
 inline void OutgoingNetworkMessage::write(T && val) noexcept(false)
 { writeBytes(&val, sizeof(T)); }
 
-- 
2.43.0


From 1efb02a8def01fe80d884135512e5b9b416910a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:51 +0000
Subject: [PATCH 34/65] fix: assigning to an UnalignedReference copied the
 bytes of objects of other types, other references included

---
 src/UnalignedReference.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/UnalignedReference.h b/src/UnalignedReference.h
index 2000ee9..a84abd1 100644
--- a/src/UnalignedReference.h
+++ b/src/UnalignedReference.h
@@ -23,6 +23,7 @@
 #include <cstring>
 #include <memory>
 #include <type_traits>
+#include <utility>
 #include "CopyCv.h"
 
 
@@ -61,7 +62,8 @@ public: /* Methods: */
         type
     >::type &
     operator=(T_ && v) noexcept {
-        std::memcpy(this->m_unalignedData, std::addressof(v), sizeof(T));
+        T const & value = std::forward<T_>(v);
+        std::memcpy(this->m_unalignedData, std::addressof(value), sizeof(T));
         return *this;
     }
 
-- 
2.43.0


From 8142dbaa86ae95654b99a8bfa855219b027ef4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:52 +0000
Subject: [PATCH 35/65] fix: assigning to a DynamicPackedStruct returned
 nothing when moving and did not compile when copying

---
 src/DynamicPackedStruct.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/DynamicPackedStruct.h b/src/DynamicPackedStruct.h
index ce5a9e4..2bc3bfc 100644
--- a/src/DynamicPackedStruct.h
+++ b/src/DynamicPackedStruct.h
@@ -138,31 +138,31 @@ public: /* Methods: */
     DynamicPackedStruct & operator=(type && move) noexcept {
         m_data = std::move(move.m_data);
         m_sizes = std::move(move.m_sizes);
+        return *this;
     }
 
     DynamicPackedStruct & operator=(type const & copy) {
-        constexpr static auto lastSizesIndex = numDynamicFields() - 1u;
         if (copy.m_data) {
             if (m_data) {
-                if (m_sizes[lastSizesIndex] != copy.m_sizes[lastSizesIndex]) {
+                if (size() != copy.size()) {
                     if (void * const newData =
                             ::operator new(copy.size(), std::nothrow))
                     {
-                        m_data = newData;
+                        m_data.reset(newData);
                     } else {
-                        if (m_sizes[lastSizesIndex]
-                                < copy.m_sizes[lastSizesIndex])
+                        if (size() < copy.size())
                             throw std::bad_alloc();
                     }
                 }
             } else {
-                m_data = ::operator new(copy.size());
+                m_data.reset(::operator new(copy.size()));
             }
             std::memcpy(m_data.get(), copy.m_data.get(), copy.size());
         } else {
             m_data.reset();
         }
         m_sizes = copy.m_sizes;
+        return *this;
     }
 
     void * data() noexcept { return m_data.get(); }
-- 
2.43.0


From 6a834a7c9334abf7a147177ed575869dfedade25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:06 +0000
Subject: [PATCH 36/65] fix: the difference of two UnalignedPointers did not
 compile, and would not have been negative

---
 src/UnalignedPointer.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/UnalignedPointer.h b/src/UnalignedPointer.h
index a6af1f5..27d8e64 100644
--- a/src/UnalignedPointer.h
+++ b/src/UnalignedPointer.h
@@ -105,8 +105,15 @@ class UnalignedPointer {
                           UnalignedPointer<U_> const & rhs) noexcept;
 
     template <typename T_, typename U_>
-    friend bool operator-(UnalignedPointer<T_> const & lhs,
-                          UnalignedPointer<U_> const & rhs) noexcept;
+    friend typename std::enable_if<
+        std::is_same<
+            typename std::remove_cv<T_>::type,
+            typename std::remove_cv<U_>::type
+        >::value,
+        std::ptrdiff_t
+    >::type
+    operator-(UnalignedPointer<T_> const & lhs,
+              UnalignedPointer<U_> const & rhs) noexcept;
 
     template <typename T_>
     friend UnalignedPointer<T_> operator+(
@@ -226,7 +233,10 @@ typename std::enable_if<
 >::type
 operator-(UnalignedPointer<T> const & lhs, UnalignedPointer<U> const & rhs)
         noexcept
-{ return ptrDist(rhs.m_ptr, lhs.m_ptr) / sizeof(T); }
+{
+    return ptrDist<void const>(rhs.m_ptr, lhs.m_ptr)
+           / static_cast<std::ptrdiff_t>(sizeof(T));
+}
 
 template <typename T>
 UnalignedPointer<T> operator+(
-- 
2.43.0


From 52070325fd72a0c4c174785be4aab5288874f699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:06 +0000
Subject: [PATCH 37/65] fix: minSizeInBytes() of packed structures did not
 compile

---
 src/PackingInfo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PackingInfo.h b/src/PackingInfo.h
index 2a01657..bf727d6 100644
--- a/src/PackingInfo.h
+++ b/src/PackingInfo.h
@@ -160,7 +160,7 @@ struct PackingInfo {
     constexpr static std::size_t staticSize() \
     { return PackingInfo<__VA_ARGS__>::size(); } \
     constexpr static std::size_t minSizeInBytes() \
-    { return PackingInfo<__VA_ARGS__>::minSizeInBytes; } \
+    { return PackingInfo<__VA_ARGS__>::minSizeInBytes(); } \
     constexpr static std::size_t maxSizeInBytes() \
     { return PackingInfo<__VA_ARGS__>::maxSizeInBytes(); } \
     constexpr static std::size_t numFields() \
-- 
2.43.0


From fea8628ad0ac745c115c255c727efe3808776a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:22 +0000
Subject: [PATCH 38/65] fix: ref(), ptr(), voidPtr() and endVoidPtr() of
 PackedStructAccessors were ambiguous

---
 src/ConstPackedStructAccessor.h |  1 +
 src/PackedStruct.h              |  1 +
 src/PackingInfo.h               | 26 ++++++++++++++------------
 3 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/ConstPackedStructAccessor.h b/src/ConstPackedStructAccessor.h
index 1bcb22e..5596ae9 100644
--- a/src/ConstPackedStructAccessor.h
+++ b/src/ConstPackedStructAccessor.h
@@ -69,6 +69,7 @@ public: /* Methods: */
     type & operator=(type const &) noexcept = default;
 
     SHAREMIND_PACKINGINFO_DEFINE_READ_METHODS(Ts...)
+    SHAREMIND_PACKINGINFO_DEFINE_CONST_VIEW_METHODS(Ts...)
 
     void const * data() const noexcept { return m_data; }
     void const * constData() const noexcept { return m_data; }
diff --git a/src/PackedStruct.h b/src/PackedStruct.h
index 41be55b..88508e5 100644
--- a/src/PackedStruct.h
+++ b/src/PackedStruct.h
@@ -65,6 +65,7 @@ public: /* Methods: */
     ConstPackedStructAccessor<Ts...> crefs() const noexcept { return data(); }
 
     SHAREMIND_PACKINGINFO_DEFINE_READ_METHODS(Ts...)
+    SHAREMIND_PACKINGINFO_DEFINE_CONST_VIEW_METHODS(Ts...)
     SHAREMIND_PACKINGINFO_DEFINE_WRITE_METHODS(,Ts...)
 
     void * data() noexcept { return &m_data; }
diff --git a/src/PackingInfo.h b/src/PackingInfo.h
index bf727d6..eeb4b09 100644
--- a/src/PackingInfo.h
+++ b/src/PackingInfo.h
@@ -170,28 +170,17 @@ struct PackingInfo {
     constexpr static bool hasDynamicFields() \
     { return PackingInfo<__VA_ARGS__>::hasDynamicFields(); } \
     template <std::size_t I> \
-    void const * voidPtr() const noexcept \
-    { return PackingInfo<__VA_ARGS__>::template constVoidPtr<I>(data()); } \
-    template <std::size_t I> \
     void const * constVoidPtr() const noexcept \
     { return PackingInfo<__VA_ARGS__>::template constVoidPtr<I>(data()); } \
-    void const * endVoidPtr() const noexcept \
-    { return PackingInfo<__VA_ARGS__>::endConstVoidPtr(data()); } \
     void const * endConstVoidPtr() const noexcept \
     { return PackingInfo<__VA_ARGS__>::endConstVoidPtr(data()); } \
     template <std::size_t I> \
-    ConstPointerType<I> ptr() const noexcept \
-    { return PackingInfo<__VA_ARGS__>::template constPtr<I>(data()); } \
-    template <std::size_t I> \
     ConstPointerType<I> constPtr() const noexcept \
     { return PackingInfo<__VA_ARGS__>::template constPtr<I>(data()); } \
     template <std::size_t I> \
     ConstReferenceType<I> cref() const noexcept \
     { return PackingInfo<__VA_ARGS__>::template cref<I>(data()); } \
     template <std::size_t I> \
-    ConstReferenceType<I> ref() const noexcept \
-    { return PackingInfo<__VA_ARGS__>::template cref<I>(data()); } \
-    template <std::size_t I> \
     ElemType<I> get() const noexcept \
     { return PackingInfo<__VA_ARGS__>::template get<I>(data()); } \
     bool operator==(type const & rhs) const noexcept \
@@ -199,11 +188,24 @@ struct PackingInfo {
     bool operator!=(type const & rhs) const noexcept \
     { return std::memcmp(data(), rhs.data(), staticSize()) != 0; }
 
+#define SHAREMIND_PACKINGINFO_DEFINE_CONST_VIEW_METHODS(...) \
+    template <std::size_t I> \
+    void const * voidPtr() const noexcept \
+    { return PackingInfo<__VA_ARGS__>::template constVoidPtr<I>(data()); } \
+    void const * endVoidPtr() const noexcept \
+    { return PackingInfo<__VA_ARGS__>::endConstVoidPtr(data()); } \
+    template <std::size_t I> \
+    ConstPointerType<I> ptr() const noexcept \
+    { return PackingInfo<__VA_ARGS__>::template constPtr<I>(data()); } \
+    template <std::size_t I> \
+    ConstReferenceType<I> ref() const noexcept \
+    { return PackingInfo<__VA_ARGS__>::template cref<I>(data()); }
+
 #define SHAREMIND_PACKINGINFO_DEFINE_WRITE_METHODS(maybeConst,...) \
     template <std::size_t I> \
     void * voidPtr() maybeConst noexcept \
     { return PackingInfo<__VA_ARGS__>::template voidPtr<I>(data()); } \
-    void * endVoidPtr() noexcept \
+    void * endVoidPtr() maybeConst noexcept \
     { return PackingInfo<__VA_ARGS__>::endVoidPtr(data()); } \
     template <std::size_t I> \
     PointerType<I> ptr() maybeConst noexcept \
-- 
2.43.0


From 868ade3a555bfe1127bf9489bc34c74a86cf938c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:22 +0000
Subject: [PATCH 39/65] fix: maxSizeInBytes() of dynamic packed structures
 wrapped around

---
 src/DynamicPackingInfo.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/DynamicPackingInfo.h b/src/DynamicPackingInfo.h
index b1cb0fd..d027640 100644
--- a/src/DynamicPackingInfo.h
+++ b/src/DynamicPackingInfo.h
@@ -59,7 +59,12 @@ struct DynamicVectorFieldPlaceholder {
     constexpr static std::size_t min() { return min_; }
     constexpr static std::size_t max() { return max_; }
     constexpr static std::size_t minBytes() { return min_ * sizeof(valueType); }
-    constexpr static std::size_t maxBytes() { return max_ * sizeof(valueType); }
+    constexpr static std::size_t maxBytes() {
+        return (std::numeric_limits<std::size_t>::max() / sizeof(valueType)
+                < max_)
+               ? std::numeric_limits<std::size_t>::max()
+               : max_ * sizeof(valueType);
+    }
 };
 
 namespace Detail {
@@ -126,7 +131,10 @@ struct FieldsTraits<T, Ts...> {
     constexpr static std::size_t minBytes =
             FieldTraits<T>::minBytes + FieldsTraits<Ts...>::minBytes;
     constexpr static std::size_t maxBytes =
-            FieldTraits<T>::maxBytes + FieldsTraits<Ts...>::maxBytes;
+            (std::numeric_limits<std::size_t>::max() - FieldTraits<T>::maxBytes
+             < FieldsTraits<Ts...>::maxBytes)
+            ? std::numeric_limits<std::size_t>::max()
+            : FieldTraits<T>::maxBytes + FieldsTraits<Ts...>::maxBytes;
 };
 
 template <typename ... Ts> struct ValidSizes;
-- 
2.43.0


From 0c8d22601d7c85bb04885a9f1f73a6837e0c4c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:13 +0000
Subject: [PATCH 40/65] fix: shifting a uint_t by a uint_t did not compile

---
 src/uint_t.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uint_t.h b/src/uint_t.h
index bb167e3..c6b12d1 100644
--- a/src/uint_t.h
+++ b/src/uint_t.h
@@ -746,7 +746,7 @@ private: /* Methods: */
     // TODO: we are assuming that blocks are not greater than 64 bits!
     std::uint64_t as_uint64_t() const {
         std::uint64_t out = 0;
-        std::size_t const s = min(num_of_bits, 64u);
+        std::size_t const s = min(std::size_t(num_of_bits), std::size_t(64u));
         for (std::size_t i = 0u, j = 0u; j < s; ++i, j += bits_in_block)
             out ^= static_cast<std::uint64_t>(block (i)) << j;
         return out;
-- 
2.43.0


From bdd281a06b92aaf684fd0d87e4cfeaca7e985ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:31 +0000
Subject: [PATCH 41/65] fix: constructing a uint_t of up to 64 bits from a
 uint128_t failed an assertion

---
 src/uint_t.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/uint_t.h b/src/uint_t.h
index c6b12d1..082594a 100644
--- a/src/uint_t.h
+++ b/src/uint_t.h
@@ -813,8 +813,10 @@ private: /* Methods: */
     {
         static void impl(uint_t<N, B>& dest, const T& other) {
             dest = 0;
-            dest += other.upper ();
-            dest <<= 64;
+            if (N > 64u) {
+                dest += other.upper ();
+                dest <<= 64;
+            }
             dest += other.lower ();
         }
     };
-- 
2.43.0


From 66af88311ada6d459f406403ddf6efe50e578e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:31 +0000
Subject: [PATCH 42/65] fix: dividing a uint_t of one bit failed an assertion

---
 src/uint_t.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/uint_t.h b/src/uint_t.h
index 082594a..9273ee8 100644
--- a/src/uint_t.h
+++ b/src/uint_t.h
@@ -564,13 +564,16 @@ public: /* Methods: */
         uint_t bit = 1;
         bit <<= (num_of_bits - 1);
         while (bit != 0) {
-            rem <<= 1;
+            if (num_of_bits > 1u)
+                rem <<= 1;
             rem[0] |= !!(x & bit);
             if (rem >= y) {
                 rem -= y;
                 quot |= bit;
             }
 
+            if (num_of_bits <= 1u)
+                break;
             bit >>= 1;
         }
 
-- 
2.43.0


From 3d24a5a32b6ec17f098bbeab61c5717058374bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:31 +0000
Subject: [PATCH 43/65] fix: negative numbers converted to wide integers were
 not taken modulo 2^N

---
 src/uint128_t.h | 4 ++--
 src/uint_t.h    | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/uint128_t.h b/src/uint128_t.h
index 19da989..bde4bd7 100644
--- a/src/uint128_t.h
+++ b/src/uint128_t.h
@@ -61,7 +61,7 @@ public: /* Methods: */
 
     template <typename T>
     uint128_t (T rhs)
-        : m_upper (0)
+        : m_upper (rhs < T(0) ? ~ std::uint64_t (0) : 0)
         , m_lower (static_cast<std::uint64_t>(rhs))
     { }
 
@@ -72,7 +72,7 @@ public: /* Methods: */
 
     template <typename T>
     uint128_t& operator = (T rhs) {
-        m_upper = 0;
+        m_upper = rhs < T(0) ? ~ std::uint64_t (0) : 0;
         m_lower = static_cast<std::uint64_t>(rhs);
         return *this;
     }
diff --git a/src/uint_t.h b/src/uint_t.h
index 9273ee8..0752c1f 100644
--- a/src/uint_t.h
+++ b/src/uint_t.h
@@ -767,6 +767,8 @@ private: /* Methods: */
     >
     {
         static void impl (uint_t<N, B>& dest, const T& val) {
+            if (val < T(0))
+                std::fill(dest.begin(), dest.end(), block_t(~block_t(0)));
             dest.least_significant_block() = static_cast<block_t>(val);
         }
     };
-- 
2.43.0


From 725de7126176f2037366397848ff80b7ed116006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:31 +0000
Subject: [PATCH 44/65] fix: multiplying uint_t of one 16-bit block overflowed
 an int

---
 src/uint_t.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uint_t.h b/src/uint_t.h
index 0752c1f..112255b 100644
--- a/src/uint_t.h
+++ b/src/uint_t.h
@@ -480,7 +480,8 @@ public: /* Methods: */
 
         // static if
         if (num_of_blocks == 1) {
-            uint_t result = x.least_significant_block() * y.least_significant_block();
+            uint_t result = multHiLo(x.least_significant_block(),
+                                     y.least_significant_block()).lo;
             result.clear_unused_bits_();
             return result;
         }
-- 
2.43.0


From 4fb27e4bf10f042aa9a39cc16100a976db4d8dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:31 +0000
Subject: [PATCH 45/65] fix: the output of a wide uint_t of zero leaked memory
 when the stream threw

---
 src/uint_t.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/uint_t.h b/src/uint_t.h
index 112255b..e20668c 100644
--- a/src/uint_t.h
+++ b/src/uint_t.h
@@ -583,6 +583,9 @@ public: /* Methods: */
     }
 
     friend std::ostream& operator << (std::ostream& os, uint_t x) {
+        if (x == 0)
+            return os << '0';
+
         // each octal digit represents 3 bits + room for sign:
         static constexpr std::size_t buff_size =
                 1 + (num_of_bits + 2u)/3u;
@@ -598,10 +601,7 @@ public: /* Methods: */
             buff = new char[buff_size];
         }
 
-        if (x == 0) {
-            os << '0';
-        }
-        else {
+        {
             uint_t base = 10;
             const char* table = lower;
             if (os.flags () & std::ios::hex) base = 16;
-- 
2.43.0


From 538622b487055952f181c2ef7315ded84f4761fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:05 +0000
Subject: [PATCH 46/65] fix: items equal to one already in an
 IntrusiveUnorderedSharedItemSet leaked when inserted

---
 src/IntrusiveUnorderedSharedItemSet.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/IntrusiveUnorderedSharedItemSet.h b/src/IntrusiveUnorderedSharedItemSet.h
index 2b703de..33a50eb 100644
--- a/src/IntrusiveUnorderedSharedItemSet.h
+++ b/src/IntrusiveUnorderedSharedItemSet.h
@@ -188,7 +188,8 @@ public: /* Methods: */
     {
         auto & item = *v;
         auto r(m_container.insert(item));
-        ItemTraits::putPtr(item, std::move(v));
+        if (r.second)
+            ItemTraits::putPtr(item, std::move(v));
         return r;
     }
 
-- 
2.43.0


From 21cf2fe87263bbada42d2021fe7586114d7f5613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:05 +0000
Subject: [PATCH 47/65] fix: assigning to an UninitializedDynamicArray returned
 nothing

---
 src/UninitializedDynamicArray.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/UninitializedDynamicArray.h b/src/UninitializedDynamicArray.h
index 098e923..49e8450 100644
--- a/src/UninitializedDynamicArray.h
+++ b/src/UninitializedDynamicArray.h
@@ -70,6 +70,7 @@ public: /* Methods: */
         m_size = move.m_size;
         m_data = std::move(move.m_data);
         move.m_size = 0u;
+        return *this;
     }
 
     UninitializedDynamicArray & operator=(
-- 
2.43.0


From 073765a6363e0e6bbfed1499b7afb395e2961a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:05 +0000
Subject: [PATCH 48/65] fix: AlignedAllocator could not allocate objects
 aligned to less than pointers

---
 src/AlignedAllocator.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/AlignedAllocator.h b/src/AlignedAllocator.h
index d2ddfc9..cd420ea 100644
--- a/src/AlignedAllocator.h
+++ b/src/AlignedAllocator.h
@@ -34,8 +34,11 @@ template <std::size_t ALIGNMENT>
 inline void * allocateAlignedStorage(std::size_t const size,
                                      std::nothrow_t const &) noexcept
 {
+    /* posix_memalign() only accepts multiples of the size of a pointer: */
+    constexpr auto const alignment =
+            (ALIGNMENT < sizeof(void *)) ? sizeof(void *) : ALIGNMENT;
     void * p;
-    if (::posix_memalign(&p, ALIGNMENT, size) != 0)
+    if (::posix_memalign(&p, alignment, size) != 0)
         return nullptr;
     return p;
 }
-- 
2.43.0


From 7bbcffd0738e179c80a106bdcca5bef5878ee69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:05 +0000
Subject: [PATCH 49/65] fix: makeScopeExit() did not compile

---
 src/ScopeExit.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ScopeExit.h b/src/ScopeExit.h
index 31ce1c2..22f167a 100644
--- a/src/ScopeExit.h
+++ b/src/ScopeExit.h
@@ -32,7 +32,14 @@ public: /* Methods: */
 
     template <typename ... Args>
     ScopeExit(Args && ... args) : m_f{std::forward<Args>(args)...} {}
-    ~ScopeExit() noexcept(false) { m_f(); }
+
+    ScopeExit(ScopeExit && move) noexcept : m_f{std::move(move.m_f)}
+    { move.m_f = nullptr; }
+
+    ~ScopeExit() noexcept(false) {
+        if (m_f)
+            m_f();
+    }
 
 private: /* Fields: */
 
-- 
2.43.0


From 6df3b63add7d886a3b79283c1d8909ddc3d221af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:05 +0000
Subject: [PATCH 50/65] fix: loading a Datum from a file failed an assertion
 when interrupted

---
 src/Datum.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Datum.h b/src/Datum.h
index 4e5ce28..1dac66f 100644
--- a/src/Datum.h
+++ b/src/Datum.h
@@ -180,7 +180,8 @@ private: /* Methods: */
                 for (;;) {
                     auto const toReadAtOnce(std::min(umax, leftToRead));
                     auto const read = ::read(inFd, buf, toReadAtOnce);
-                    assert(static_cast<U>(read) <= toReadAtOnce);
+                    assert(read < 0
+                           || static_cast<U>(read) <= toReadAtOnce);
                     if (read == 0) {
                         throw FileSizeChangedException();
                     } else if (read < 0) {
-- 
2.43.0


From 243a7ddc81fb81b06b06c1b3b13b1b170f8fe8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:05 +0000
Subject: [PATCH 51/65] fix: an empty Datum accessed characters it did not have

---
 src/Datum.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Datum.h b/src/Datum.h
index 1dac66f..f5507a6 100644
--- a/src/Datum.h
+++ b/src/Datum.h
@@ -113,20 +113,20 @@ public: /* Methods: */
         m_data.resize(size);
         std::copy(static_cast<char const *>(data),
                   static_cast<char const *>(data) + size,
-                  &m_data[0]);
+                  m_data.data());
     }
 
     HashValue hash() const noexcept
-    { return hashRawData(&m_data[0u], m_data.size()); }
+    { return hashRawData(m_data.data(), m_data.size()); }
 
     void clear() noexcept { m_data.clear(); }
     bool empty() const noexcept { return m_data.empty(); }
     size_type size() const noexcept { return m_data.size(); }
-    void * data() noexcept { return &m_data[0u]; }
-    void * dataEnd() noexcept { return &*m_data.end(); }
-    void const * constData() const noexcept { return &m_data[0u]; }
+    void * data() noexcept { return m_data.data(); }
+    void * dataEnd() noexcept { return m_data.data() + m_data.size(); }
+    void const * constData() const noexcept { return m_data.data(); }
     void const * constDataEnd() const noexcept
-    { return &*m_data.end(); }
+    { return m_data.data() + m_data.size(); }
 
 private: /* Methods: */
 
-- 
2.43.0


From a5b25647bebdd798bfd84bfd60e0e076a732ad0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:05 +0000
Subject: [PATCH 52/65] fix: the exceptions of FileDescriptor were inaccessible

---
 src/FileDescriptor.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/FileDescriptor.h b/src/FileDescriptor.h
index 27e439a..56af3a9 100644
--- a/src/FileDescriptor.h
+++ b/src/FileDescriptor.h
@@ -19,6 +19,8 @@ namespace sharemind {
 
 class FileDescriptor {
 
+public: /* Types: */
+
     SHAREMIND_DETAIL_DEFINE_EXCEPTION(sharemind::Exception, Exception);
     SHAREMIND_DETAIL_DEFINE_EXCEPTION_CONST_MSG(
             Exception,
-- 
2.43.0


From 772baaa302af414df541e812649bd73b2edb5bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:14 +0000
Subject: [PATCH 53/65] fix: reverseRange() of arrays had a size() that did not
 compile

---
 src/ReversedRange.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ReversedRange.h b/src/ReversedRange.h
index 2d5afba..238cb37 100644
--- a/src/ReversedRange.h
+++ b/src/ReversedRange.h
@@ -25,6 +25,7 @@
 #include "Iterator.h"
 #include "Range.h"
 #include "RemoveCvref.h"
+#include "Size.h"
 
 
 namespace sharemind {
@@ -139,7 +140,7 @@ struct RangeReversionWrapperImpl { SHAREMIND_REVERSEDRANGE_H_ };
 template <typename T>
 struct RangeReversionWrapperImpl<T, true> {
     SHAREMIND_REVERSEDRANGE_H_
-    auto size() const { return this->m_range.size(); }
+    auto size() const { return ::sharemind::size(this->m_range); }
 };
 #undef SHAREMIND_REVERSEDRANGE_H_
 
-- 
2.43.0


From a7c5d33d99bbc8d95dddd3bb2f6e4de864ba191a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:14 +0000
Subject: [PATCH 54/65] fix: constructing a CRefVec from a RefVec did not
 compile

---
 src/ReferenceVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ReferenceVector.h b/src/ReferenceVector.h
index cd4fa88..13ab7dc 100644
--- a/src/ReferenceVector.h
+++ b/src/ReferenceVector.h
@@ -142,7 +142,7 @@ public: /* Methods: */
     { }
 
     explicit CRefVec(RefVec<T> const & immvec)
-        : Base(immvec)
+        : Base(immvec.begin(), immvec.size())
     {}
 
     using Base::empty;
-- 
2.43.0


From f16669ccd3927a7f31a5f73fc53598e9597f70f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:12 +0000
Subject: [PATCH 55/65] fix: verbosePrintException() failed on exceptions
 nested upon nothing

---
 src/DebugVerboseHandlers.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DebugVerboseHandlers.h b/src/DebugVerboseHandlers.h
index 6336e3e..2dd9363 100644
--- a/src/DebugVerboseHandlers.h
+++ b/src/DebugVerboseHandlers.h
@@ -50,7 +50,8 @@ inline void verbosePrintException(std::exception_ptr e,
             if (!ne)
                 return;
             e = ne->nested_ptr();
-            assert(e);
+            if (!e)
+                return;
         } catch (...) {
             oss << n << ": [" SHAREMIND_T "]" << std::endl
                 << "... unable to continue printing nested exceptions, if any "
-- 
2.43.0


From 2df7e6390f689d94a4f54ad28c2559a874f5fe86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:21 +0000
Subject: [PATCH 56/65] fix: strong types with StrongTypeSwappable could not be
 swapped

---
 src/StrongType.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/StrongType.h b/src/StrongType.h
index bcbe70f..29e6b29 100644
--- a/src/StrongType.h
+++ b/src/StrongType.h
@@ -277,9 +277,11 @@ using StrongTypeStreamable = StrongTypeStreamableTo<std::ostream>;
 struct StrongTypeSwappable {
     template <typename T>
     struct impl {
-        friend void swap(T & a, T & b) noexcept(IsNothrowSwappable<T>::value) {
+        friend void swap(T & a, T & b)
+                noexcept(IsNothrowSwappable<typename T::ValueType>::value)
+        {
             using std::swap;
-            swap(a.value(), b.value());
+            swap(a.get(), b.get());
         }
     };
 };
-- 
2.43.0


From 699a34f8599709f364f7da7c7ed4fbfd5d4cedb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:48 +0000
Subject: [PATCH 57/65] fix: stopping a TimeoutsThread did not come before
 tasks of the earliest times

---
 src/TimeoutsThread.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/TimeoutsThread.h b/src/TimeoutsThread.h
index cc3fb3a..60838bb 100644
--- a/src/TimeoutsThread.h
+++ b/src/TimeoutsThread.h
@@ -129,6 +129,11 @@ private: /* Types: */
 
         iterator insert(reference t) noexcept { return m_data.insert(t); }
 
+        void insertFirst(reference t) noexcept {
+            t.m_timePoint = Clock::time_point::min();
+            m_data.push_front(t);
+        }
+
         bool empty() const noexcept { return m_data.empty(); }
 
         std::unique_ptr<Task> takeFirstTask() noexcept {
@@ -257,8 +262,13 @@ public: /* Methods: */
     }
 
     void stop() noexcept {
-        if (m_stopTask)
-            addTask(Clock::time_point(), std::move(m_stopTask));
+        if (m_stopTask) {
+            auto & t = *m_stopTask;
+            t.m_selfPtr = std::move(m_stopTask);
+            std::lock_guard<std::mutex> const guard(m_mutex);
+            m_tasks.insertFirst(t); // Before all tasks, whatever their time
+            m_cond.notify_one();
+        }
     }
 
 private: /* Fields: */
-- 
2.43.0


From dc770212451f1b348e1f4e9cba029fe631374901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:27 +0000
Subject: [PATCH 58/65] fix: an identifier holder moved onto itself gave its
 identifier back but kept it

---
 src/IdentifierPool.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/IdentifierPool.h b/src/IdentifierPool.h
index 95308f7..cf77833 100644
--- a/src/IdentifierPool.h
+++ b/src/IdentifierPool.h
@@ -116,10 +116,12 @@ public: /* Types: */
         {}
 
         IdHolder & operator=(IdHolder && move) noexcept {
-            if (m_state)
-                m_state->recycle(m_id);
-            m_id = move.m_id;
-            m_state = std::move(move.m_state);
+            if (this != &move) {
+                if (m_state)
+                    m_state->recycle(m_id);
+                m_id = move.m_id;
+                m_state = std::move(move.m_state);
+            }
             return *this;
         }
 
-- 
2.43.0


From 8462d5bcdd1e8ff0df2b4c23b7e4d69d029889f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:27 +0000
Subject: [PATCH 59/65] fix: CstddefLiterals.h was empty after
 CstdintLiterals.h (same include guard)

---
 src/CstddefLiterals.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/CstddefLiterals.h b/src/CstddefLiterals.h
index 363bff4..fa72120 100644
--- a/src/CstddefLiterals.h
+++ b/src/CstddefLiterals.h
@@ -17,8 +17,8 @@
  * For further information, please contact us at sharemind@cyber.ee.
  */
 
-#ifndef SHAREMIND_CSTDINTLITERALS_H
-#define SHAREMIND_CSTDINTLITERALS_H
+#ifndef SHAREMIND_CSTDDEFLITERALS_H
+#define SHAREMIND_CSTDDEFLITERALS_H
 
 #include <cstddef>
 #include "IntegerLiterals.h"
@@ -35,4 +35,4 @@ SHAREMIND_INTEGERLITERAL_UNSIGNED_OPS(std::size_t,
 
 } /* namespace sharemind { */
 
-#endif /* #ifndef SHAREMIND_CSTDINTLITERALS_H */
+#endif /* #ifndef SHAREMIND_CSTDDEFLITERALS_H */
-- 
2.43.0


From fdb53f11b0ab970a015c073442e42c958a8b2731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:27 +0000
Subject: [PATCH 60/65] fix: overflow of integer literals was missed (or failed
 to compile) when the rank of their first digit wrapped around

---
 src/IntegerLiterals.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/IntegerLiterals.h b/src/IntegerLiterals.h
index 2e9e44c..a8512ba 100644
--- a/src/IntegerLiterals.h
+++ b/src/IntegerLiterals.h
@@ -50,6 +50,7 @@ struct LastDigit: LiteralBase<Base> {
     constexpr static bool valid = true;
     constexpr static std::uintmax_t value = Value;
     constexpr static std::uintmax_t rank = 1u;
+    constexpr static bool rankOverflow = false;
     constexpr static std::uintmax_t digits = 1u;
 };
 
@@ -136,12 +137,17 @@ struct LiteralStep {
     using Tail = T<Max, C, Cs...>;
     static_assert(Head::base == Tail::base, "");
     constexpr static std::uintmax_t base = Head::base;
+    constexpr static bool rankOverflow =
+            Tail::rankOverflow
+            || (Tail::rank
+                > (std::numeric_limits<std::uintmax_t>::max() / base));
     constexpr static bool overflow =
             Head::overflow
             || Tail::overflow
             || ((Head::value != 0)
                 && (
-                    (Tail::rank > (Max / base))
+                    rankOverflow
+                    || (Tail::rank > (Max / base))
                     || (Head::value > (Max / (Tail::rank * base)))
                     || (Tail::value
                         > (Max - (Head::value * (Tail::rank * base))))
-- 
2.43.0


From b1548e8e8c699296240f865d71835a71740e7db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:27 +0000
Subject: [PATCH 61/65] fix: floating point, binary and otherwise unsupported
 integer literals silently evaluated to 0

---
 src/IntegerLiterals.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/IntegerLiterals.h b/src/IntegerLiterals.h
index a8512ba..5465776 100644
--- a/src/IntegerLiterals.h
+++ b/src/IntegerLiterals.h
@@ -241,12 +241,14 @@ struct Literal: Literal_<Max, Cs...>
     template <char ... Cs> \
     constexpr T operator "" SHAREMIND_C(_,P)() { \
         using L = C<Cs...>; \
+        static_assert(L::valid, "Invalid _" #P " literal!"); \
         static_assert(!L::overflow, "Overflow in _" #P " literal!"); \
         return static_cast<T>(L::value); \
     } \
     template <char ... Cs> \
     constexpr T operator "" SHAREMIND_C3(_,P,_overflow)() { \
         using L = C<Cs...>; \
+        static_assert(L::valid, "Invalid _" #P " literal!"); \
         return static_cast<T>(L::value); \
     }
 
@@ -254,11 +256,13 @@ struct Literal: Literal_<Max, Cs...>
     template <char ... Cs> \
     constexpr T operator "" SHAREMIND_C(_,P)() { \
         using L = C<Cs...>; \
+        static_assert(L::valid, "Invalid _" #P " literal!"); \
         return static_cast<T>(L::value); \
     } \
     template <char ... Cs> \
     constexpr T operator "" SHAREMIND_C3(_,P,_no_overflow)() { \
         using L = C<Cs...>; \
+        static_assert(L::valid, "Invalid _" #P " literal!"); \
         static_assert(!L::overflow, \
                       "Overflow in _" #P "_no_overflow literal!"); \
         return static_cast<T>(L::value); \
-- 
2.43.0


From 860d89bf7b6cfc9eabb597d1bf70e77060685c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:08 +0000
Subject: [PATCH 62/65] fix: TemplateContainsType failed to compile for types
 contained more than once

---
 src/TemplateContainsType.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/TemplateContainsType.h b/src/TemplateContainsType.h
index d0f59de..b75d2db 100644
--- a/src/TemplateContainsType.h
+++ b/src/TemplateContainsType.h
@@ -28,7 +28,8 @@ namespace sharemind {
 template <typename Needle, typename ... Haystack>
 using TemplateContainsType =
         std::integral_constant<bool,
-                               TemplateCountTypes<Needle, Haystack...>::value>;
+                               (TemplateCountTypes<Needle, Haystack...>::value
+                                > 0u)>;
 
 template <typename Needle, typename ... Haystack>
 constexpr auto TemplateContainsType_v =
-- 
2.43.0


From 43d1acf0b0881781ec8c2a82deb760091258f1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:08 +0000
Subject: [PATCH 63/65] fix: TemplateFilter and TemplateInverseFilter failed to
 compile for most lists

---
 src/TemplatePrepend.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/TemplatePrepend.h b/src/TemplatePrepend.h
index e8c15dd..6d50e55 100644
--- a/src/TemplatePrepend.h
+++ b/src/TemplatePrepend.h
@@ -20,6 +20,8 @@
 #ifndef SHAREMIND_TEMPLATEPREPEND_H
 #define SHAREMIND_TEMPLATEPREPEND_H
 
+#include "TemplateList.h"
+
 namespace sharemind {
 
 template <typename T, typename TmplInstance, T ... vs>
@@ -33,6 +35,10 @@ template <typename T, template <T ...> class Tmpl, T ... Tvs, T ... vs>
 struct TemplatePrepend<T, Tmpl<Tvs...>, vs...>
 { using type = Tmpl<vs..., Tvs...>; };
 
+template <typename T, T ... Tvs, T ... vs>
+struct TemplatePrepend<T, TemplateList<T, Tvs...>, vs...>
+{ using type = TemplateList<T, vs..., Tvs...>; };
+
 } /* namespace Sharemind { */
 
 #endif /* SHAREMIND_TEMPLATEPREPEND_H */
-- 
2.43.0


From 0e46a1c3f6896db956120013e714f225e2b141ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:21 +0000
Subject: [PATCH 64/65] fix: FunctionTraits failed to compile for (references
 to) constant pointers to functions

---
 src/FunctionTraits.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/FunctionTraits.h b/src/FunctionTraits.h
index e0ce942..ec1f8fe 100644
--- a/src/FunctionTraits.h
+++ b/src/FunctionTraits.h
@@ -58,6 +58,11 @@ template <typename C, typename R, typename ... Args>
 struct FunctionTraits<R(C::*)(Args...) const volatile>
     : FunctionTraits<R(C const volatile *,Args...)> {};
 
+template <typename F> struct FunctionTraits<F const>: FunctionTraits<F> {};
+template <typename F> struct FunctionTraits<F volatile>: FunctionTraits<F> {};
+template <typename F>
+struct FunctionTraits<F const volatile>: FunctionTraits<F> {};
+
 template <typename F> struct FunctionTraits<F &>: FunctionTraits<F> {};
 
 template <typename F> struct FunctionTraits<const F &>
-- 
2.43.0


From e7f8f8e792b168a7d4d9678f3ed9888be33f554e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:33 +0000
Subject: [PATCH 65/65] fix: IsSwappable and IsNothrowSwappable failed to
 compile for void and functions no reference can be to

---
 src/IsSwappable.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/IsSwappable.h b/src/IsSwappable.h
index 0a72357..dc2dfb7 100644
--- a/src/IsSwappable.h
+++ b/src/IsSwappable.h
@@ -71,7 +71,9 @@ struct IsSwappable
             bool,
             std::conditional<
                 IsReferenceable<T>::value,
-                IsSwappableWith<T &, T &>,
+                IsSwappableWith<
+                    typename std::add_lvalue_reference<T>::type,
+                    typename std::add_lvalue_reference<T>::type>,
                 std::false_type
             >::type::value>
 {};
@@ -89,7 +91,9 @@ struct IsNothrowSwappable
             bool,
             std::conditional<
                 IsReferenceable<T>::value,
-                IsNothrowSwappableWith<T &, T &>,
+                IsNothrowSwappableWith<
+                    typename std::add_lvalue_reference<T>::type,
+                    typename std::add_lvalue_reference<T>::type>,
                 std::false_type
             >::type::value>
 {};
-- 
2.43.0

