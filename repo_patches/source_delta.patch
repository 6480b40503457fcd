From f0622819ba711c77d8909a666c0ff85503f14668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:05 +0000
Subject: [PATCH 01/43] fix: release the owned mutex when a scoped_lock is
 move-assigned over

---
 include/coro/mutex.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/coro/mutex.hpp b/include/coro/mutex.hpp
index 7fe1c05..a965dcd 100644
--- a/include/coro/mutex.hpp
+++ b/include/coro/mutex.hpp
@@ -99,6 +99,8 @@ public:
     {
         if (std::addressof(other) != this)
         {
+            // Release the mutex this lock currently owns, otherwise it would stay locked forever.
+            unlock();
             m_mutex = std::exchange(other.m_mutex, nullptr);
         }
         return *this;
-- 
2.43.0


From 9efdd606c554c8fcf9d30efaf0a5722f02e586b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:58 +0000
Subject: [PATCH 02/43] fix: release the shared_mutex when the scoped task
 throws

---
 include/coro/shared_mutex.hpp | 37 +++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/include/coro/shared_mutex.hpp b/include/coro/shared_mutex.hpp
index f9af741..ca15741 100644
--- a/include/coro/shared_mutex.hpp
+++ b/include/coro/shared_mutex.hpp
@@ -6,6 +6,7 @@
 
 #include <atomic>
 #include <coroutine>
+#include <exception>
 
 namespace coro
 {
@@ -125,8 +126,24 @@ public:
     {
         co_await m_mutex.lock();
         co_await detail::shared_lock_operation<executor_type>{*this, false};
-        co_await scoped_task;
+
+        // The lock must be released even if the user's task throws, otherwise it would be held forever.
+        std::exception_ptr exception{nullptr};
+        try
+        {
+            co_await scoped_task;
+        }
+        catch (...)
+        {
+            exception = std::current_exception();
+        }
+
         co_await unlock_shared();
+
+        if (exception != nullptr)
+        {
+            std::rethrow_exception(exception);
+        }
         co_return;
     }
 
@@ -140,8 +157,24 @@ public:
     {
         co_await m_mutex.lock();
         co_await detail::shared_lock_operation<executor_type>{*this, true};
-        co_await scoped_task;
+
+        // The lock must be released even if the user's task throws, otherwise it would be held forever.
+        std::exception_ptr exception{nullptr};
+        try
+        {
+            co_await scoped_task;
+        }
+        catch (...)
+        {
+            exception = std::current_exception();
+        }
+
         co_await unlock();
+
+        if (exception != nullptr)
+        {
+            std::rethrow_exception(exception);
+        }
         co_return;
     }
 
-- 
2.43.0


From 55a6ff2e96aee36ff0efc2a84515784b1853e921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:26 +0000
Subject: [PATCH 03/43] fix: condition_variable notifiers must not pop the same
 waiter concurrently

---
 include/coro/condition_variable.hpp |  7 ++++++-
 src/condition_variable.cpp          | 15 +++++++++++++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/coro/condition_variable.hpp b/include/coro/condition_variable.hpp
index 654bca5..da13409 100644
--- a/include/coro/condition_variable.hpp
+++ b/include/coro/condition_variable.hpp
@@ -12,6 +12,7 @@
 #include <chrono>
 #include <condition_variable>
 #include <functional>
+#include <mutex>
 #include <optional>
 
 #ifdef LIBCORO_FEATURE_NETWORKING
@@ -387,7 +388,7 @@ public:
     template<coro::concepts::executor executor_type>
     auto notify_all(std::unique_ptr<executor_type>& executor) -> void
     {
-        auto* waiter = detail::awaiter_list_pop_all(m_awaiters);
+        auto* waiter = pop_all_awaiters();
 
         while (waiter != nullptr)
         {
@@ -530,6 +531,10 @@ public:
 private:
     /// @brief The list of waiters.
     std::atomic<awaiter_base*> m_awaiters{nullptr};
+    /// @brief Notifiers take waiters off the list one at a time, a popped waiter can be destroyed once its resumed.
+    std::mutex m_pop_mutex{};
+
+    auto pop_all_awaiters() -> awaiter_base*;
 
     auto make_notify_all_executor_individual_task(awaiter_base* waiter) -> coro::task<void>
     {
diff --git a/src/condition_variable.cpp b/src/condition_variable.cpp
index aa641d4..e691af1 100644
--- a/src/condition_variable.cpp
+++ b/src/condition_variable.cpp
@@ -201,7 +201,12 @@ auto condition_variable::notify_one() -> coro::task<void>
     // The loop is here in case there are *dead* awaiter_hook_tasks that need to be skipped.
     while (true)
     {
-        auto* waiter = detail::awaiter_list_pop(m_awaiters);
+        awaiter_base* waiter{nullptr};
+        {
+            // Popping looks into the waiter, make sure no other notifier can pop and resume (destroy) it meanwhile.
+            std::scoped_lock lk{m_pop_mutex};
+            waiter = detail::awaiter_list_pop(m_awaiters);
+        }
         if (waiter == nullptr)
         {
             co_return; // There is nobody to currently notify.
@@ -223,9 +228,15 @@ auto condition_variable::notify_one() -> coro::task<void>
     }
 }
 
+auto condition_variable::pop_all_awaiters() -> awaiter_base*
+{
+    std::scoped_lock lk{m_pop_mutex};
+    return detail::awaiter_list_pop_all(m_awaiters);
+}
+
 auto condition_variable::notify_all() -> coro::task<void>
 {
-    auto* waiter = detail::awaiter_list_pop_all(m_awaiters);
+    auto* waiter = pop_all_awaiters();
 
     while (waiter != nullptr)
     {
-- 
2.43.0


From d06c0ebd090a932204e97f22bbaa832204d5886a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:23 +0000
Subject: [PATCH 04/43] fix: re-enqueue a condition_variable waiter before
 unlocking so no notification is lost

A waiter whose predicate was not ready was put back into the list of waiters by
the notifier after the waiter's mutex had been unlocked. The next owner of the
mutex could make the predicate true and notify while the waiter was in no list,
the waiter then slept forever.
---
 include/coro/condition_variable.hpp |  5 ++---
 src/condition_variable.cpp          | 22 ++++++++++++++--------
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/include/coro/condition_variable.hpp b/include/coro/condition_variable.hpp
index da13409..5919c43 100644
--- a/include/coro/condition_variable.hpp
+++ b/include/coro/condition_variable.hpp
@@ -39,7 +39,7 @@ private:
     {
         /// @brief The waiter is ready to be resumed, either the predicate passed or its been requested to stop.
         ready,
-        /// @brief The waiter is not ready to be resumed
+        /// @brief The waiter is not ready to be resumed and has put itself back into the list of waiters.
         not_ready,
         /// @brief The waiter is a hook and has timed out and is dead.
         awaiter_dead,
@@ -541,8 +541,7 @@ private:
         switch (co_await waiter->on_notify())
         {
             case notify_status_t::not_ready:
-                // Re-enqueue since the predicate isn't ready and return since the notify has been satisfied.
-                detail::awaiter_list_push(m_awaiters, waiter);
+                // The waiter has re-enqueued itself since the predicate isn't ready, the notify has been satisfied.
                 break;
             case notify_status_t::ready:
             case notify_status_t::awaiter_dead:
diff --git a/src/condition_variable.cpp b/src/condition_variable.cpp
index e691af1..e1bd63d 100644
--- a/src/condition_variable.cpp
+++ b/src/condition_variable.cpp
@@ -67,14 +67,17 @@ auto condition_variable::awaiter_with_predicate::await_suspend(std::coroutine_ha
 
 auto condition_variable::awaiter_with_predicate::on_notify() -> coro::task<condition_variable::notify_status_t>
 {
-    co_await m_lock.m_mutex->lock();
+    auto* waiter_mutex = m_lock.m_mutex;
+    co_await waiter_mutex->lock();
     if (m_predicate())
     {
         m_awaiting_coroutine.resume();
         co_return notify_status_t::ready;
     }
 
-    m_lock.m_mutex->unlock();
+    // Re-enqueue prior to unlocking, otherwise a notify issued by the next lock owner would be lost.
+    coro::detail::awaiter_list_push(m_condition_variable.m_awaiters, static_cast<awaiter_base*>(this));
+    waiter_mutex->unlock();
     co_return notify_status_t::not_ready;
 }
 
@@ -109,7 +112,8 @@ auto condition_variable::awaiter_with_predicate_stop_token::await_suspend(std::c
 
 auto condition_variable::awaiter_with_predicate_stop_token::on_notify() -> coro::task<condition_variable::notify_status_t>
 {
-    co_await m_lock.m_mutex->lock();
+    auto* waiter_mutex = m_lock.m_mutex;
+    co_await waiter_mutex->lock();
     m_predicate_result = m_predicate();
 
     // If the predicate is ready or a stop has been requested resume.
@@ -119,7 +123,9 @@ auto condition_variable::awaiter_with_predicate_stop_token::on_notify() -> coro:
         co_return notify_status_t::ready;
     }
 
-    m_lock.m_mutex->unlock();
+    // Re-enqueue prior to unlocking, otherwise a notify issued by the next lock owner would be lost.
+    coro::detail::awaiter_list_push(m_condition_variable.m_awaiters, static_cast<awaiter_base*>(this));
+    waiter_mutex->unlock();
     co_return notify_status_t::not_ready;
 }
 
@@ -190,6 +196,8 @@ auto condition_variable::awaiter_with_wait_hook::on_notify() -> coro::task<condi
         co_return notify_status_t::ready;
     }
 
+    // Re-enqueue prior to unlocking, otherwise a notify issued by the next lock owner would be lost.
+    coro::detail::awaiter_list_push(m_condition_variable.m_awaiters, static_cast<awaiter_base*>(this));
     waiter_mutex->unlock();
     co_return notify_status_t::not_ready;
 }
@@ -218,8 +226,7 @@ auto condition_variable::notify_one() -> coro::task<void>
                 // The predicate was ready and the awaiter is resumed.
                 co_return;
             case notify_status_t::not_ready:
-                // Re-enqueue since the predicate isn't ready and return since the notify has been satisfied.
-                coro::detail::awaiter_list_push(m_awaiters, waiter);
+                // The waiter has re-enqueued itself since the predicate isn't ready, the notify has been satisfied.
                 co_return;
             case notify_status_t::awaiter_dead:
                 // This is an awaiter_with_wait_hook that timed out, try the next awaiter.
@@ -246,8 +253,7 @@ auto condition_variable::notify_all() -> coro::task<void>
         switch (co_await waiter->on_notify())
         {
             case notify_status_t::not_ready:
-                // Re-enqueue since the predicate isn't ready and return since the notify has been satisfied.
-                coro::detail::awaiter_list_push(m_awaiters, waiter);
+                // The waiter has re-enqueued itself since the predicate isn't ready, the notify has been satisfied.
                 break;
             case notify_status_t::ready:
             case notify_status_t::awaiter_dead:
-- 
2.43.0


From 403716ee1da94acf90c5379b3f5097f362d3624b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:33 +0000
Subject: [PATCH 05/43] fix: condition_variable timed wait must not read the
 awaiter after it was resumed

The task waiting for the notify callback read the status of the wait_for() or
wait_until() awaiter after a timeout had already resumed its coroutine, and the
timeout task read the executor and duration from it after a notify could already
have resumed it. Both can be destroyed by then.
---
 include/coro/condition_variable.hpp | 19 +++++++++++++++----
 src/condition_variable.cpp          |  2 ++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/coro/condition_variable.hpp b/include/coro/condition_variable.hpp
index 5919c43..2d22123 100644
--- a/include/coro/condition_variable.hpp
+++ b/include/coro/condition_variable.hpp
@@ -158,6 +158,9 @@ private:
         coro::event m_notify_callback{};
         /// @brief Flag to notify if the awaiter has completed via no_timeout or timeout.
         std::atomic<bool> m_awaiter_completed{false};
+        /// @brief Set prior to m_notify_callback if the awaiter has completed via no_timeout. m_status cannot tell since
+        /// on a timeout it does not outlive the resumed wait() call.
+        bool m_notified{false};
         /// @brief The status of the wait() call, this is _ONLY_ valid if the m_awaiter_completed flag was obtained,
         /// otherwise its a dangling reference.
         std::optional<std::cv_status>& m_status;
@@ -226,7 +229,7 @@ private:
             co_await data.m_notify_callback;
 
             // If this is the condition and not a timeout resume from this task.
-            if (m_status.value() == std::cv_status::no_timeout)
+            if (data.m_notified)
             {
                 // The condition coroutine is resumed from here instead of the awaiter hook task to
                 // guarantee the controller is still alive until the caller's coroutine is completed.
@@ -241,11 +244,16 @@ private:
          * @brief Task to handle the timeout case, this will always wait the duration of the timeout before exiting.
          *
          * @param data The controller task data.
+         * @param executor The executor to wait for the timeout on, this task can start after a notify has already
+         *                 resumed (and destroyed) the wait_[for|until]() awaiter.
+         * @param wait_for The amount of time to wait for before timing out.
          * @return coro::task<void>
          */
-        auto make_timeout_task(controller_data& data) -> coro::task<void>
+        auto make_timeout_task(
+            controller_data& data, io_executor_type* executor, const std::chrono::nanoseconds wait_for)
+            -> coro::task<void>
         {
-            co_await m_executor->schedule_after(m_wait_for);
+            co_await executor->schedule_after(wait_for);
             auto lock = co_await data.m_event_mutex.scoped_lock();
             bool expected{false};
             if (data.m_awaiter_completed.compare_exchange_strong(
@@ -277,13 +285,16 @@ private:
         auto make_controller_task() -> coro::detail::task_self_deleting
         {
             controller_data data{m_status, m_predicate_result, std::move(m_predicate), std::move(m_stop_token)};
+            // Once the lock is unlocked a notify can resume (and destroy) this awaiter, grab what is needed afterwards.
+            auto*      executor = m_executor.get();
+            const auto wait_for = m_wait_for;
             // We enqueue the hook_task since we can make it live until the notify occurs and will properly resume the
             // actual coroutine only once.
             awaiter_with_wait_hook hook_task{m_condition_variable, m_lock, data};
             detail::awaiter_list_push(m_condition_variable.m_awaiters, static_cast<awaiter_base*>(&hook_task));
             m_lock.m_mutex->unlock(); // Unlock the actual lock now that we are setup, not the fake hook task.
 
-            co_await coro::when_all(make_on_notify_callback_task(data), make_timeout_task(data));
+            co_await coro::when_all(make_on_notify_callback_task(data), make_timeout_task(data, executor, wait_for));
             co_return;
         }
 
diff --git a/src/condition_variable.cpp b/src/condition_variable.cpp
index e1bd63d..01f8e81 100644
--- a/src/condition_variable.cpp
+++ b/src/condition_variable.cpp
@@ -179,6 +179,7 @@ auto condition_variable::awaiter_with_wait_hook::on_notify() -> coro::task<condi
     {
         m_data.m_awaiter_completed.exchange(true, std::memory_order::release);
         m_data.m_status = {std::cv_status::no_timeout};
+        m_data.m_notified = true;
         event_lock.unlock();
         m_data.m_notify_callback.set();
         co_return notify_status_t::ready;
@@ -191,6 +192,7 @@ auto condition_variable::awaiter_with_wait_hook::on_notify() -> coro::task<condi
     {
         m_data.m_awaiter_completed.exchange(true, std::memory_order::release);
         m_data.m_status = {std::cv_status::no_timeout};
+        m_data.m_notified = true;
         event_lock.unlock();
         m_data.m_notify_callback.set();
         co_return notify_status_t::ready;
-- 
2.43.0


From 6723ae1ad3d9d1af59aecbea3ea72f5f62f50c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:09 +0000
Subject: [PATCH 06/43] fix: task_self_deleting::resume must not look at the
 frame after resuming it

The coroutine deletes its own frame when it completes, during resume() or on
another thread before resume() returns, asking it whether it is done afterwards
is a use after free.
---
 include/coro/detail/task_self_deleting.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/coro/detail/task_self_deleting.hpp b/include/coro/detail/task_self_deleting.hpp
index 06f8ea2..ada206c 100644
--- a/include/coro/detail/task_self_deleting.hpp
+++ b/include/coro/detail/task_self_deleting.hpp
@@ -69,14 +69,14 @@ public:
         return std::coroutine_handle<promise_self_deleting>::from_promise(*m_promise);
     }
 
-    auto resume() -> bool
+    /// The coroutine frame can be gone once this returns, it deletes itself when it completes.
+    auto resume() -> void
     {
         const auto h = handle();
         if (!h.done())
         {
             h.resume();
         }
-        return !h.done();
     }
 
 private:
-- 
2.43.0


From ed8ea54422ea32ef8e57d2366b57dfe1f35950f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:45 +0000
Subject: [PATCH 07/43] fix: shutdown of queue and ring_buffer must not be
 dropped when it races with shutdown_drain

---
 include/coro/queue.hpp       | 3 +--
 include/coro/ring_buffer.hpp | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/coro/queue.hpp b/include/coro/queue.hpp
index 4402748..5396897 100644
--- a/include/coro/queue.hpp
+++ b/include/coro/queue.hpp
@@ -341,8 +341,7 @@ public:
 
         // We use the lock to guarantee the m_running_state has propagated.
         auto lk = co_await m_mutex.scoped_lock();
-        if (!m_running_state.compare_exchange_strong(
-                expected, running_state_t::stopped, std::memory_order::acq_rel, std::memory_order::relaxed))
+        if (m_running_state.exchange(running_state_t::stopped, std::memory_order::acq_rel) == running_state_t::stopped)
         {
             co_return;
         }
diff --git a/include/coro/ring_buffer.hpp b/include/coro/ring_buffer.hpp
index 0aeae52..a2ed997 100644
--- a/include/coro/ring_buffer.hpp
+++ b/include/coro/ring_buffer.hpp
@@ -328,7 +328,7 @@ public:
 
         auto lk = co_await m_mutex.scoped_lock();
         // Only let one caller do the wake-ups, this can go from running or draining to stopped
-        if (!m_running_state.compare_exchange_strong(expected, running_state_t::stopped, std::memory_order::acq_rel, std::memory_order::relaxed))
+        if (m_running_state.exchange(running_state_t::stopped, std::memory_order::acq_rel) == running_state_t::stopped)
         {
             co_return;
         }
-- 
2.43.0


From 4401a8cd4c551c0b65c7b8d3a6de43a28429349f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:45 +0000
Subject: [PATCH 08/43] fix: ring_buffer::shutdown_drain must tell waiting
 producers that it stopped

---
 include/coro/ring_buffer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/coro/ring_buffer.hpp b/include/coro/ring_buffer.hpp
index a2ed997..bb245c6 100644
--- a/include/coro/ring_buffer.hpp
+++ b/include/coro/ring_buffer.hpp
@@ -375,6 +375,7 @@ public:
         while (produce_waiters != nullptr)
         {
             auto* next = produce_waiters->m_next;
+            produce_waiters->m_result = ring_buffer_result::produce::stopped;
             produce_waiters->m_awaiting_coroutine.resume();
             produce_waiters = next;
         }
-- 
2.43.0


From 0565f004165e58d6cc45ec65678bf8a88525da9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:05 +0000
Subject: [PATCH 09/43] fix: queue must not lose the waiting consumer when
 transferring the element throws

---
 include/coro/queue.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/coro/queue.hpp b/include/coro/queue.hpp
index 5396897..55c025b 100644
--- a/include/coro/queue.hpp
+++ b/include/coro/queue.hpp
@@ -185,11 +185,12 @@ public:
         // assert(m_element.empty())
         if (m_waiters != nullptr)
         {
-            auto* waiter = std::exchange(m_waiters, m_waiters->m_next);
+            // Transfer the element directly to the awaiter, if this throws the awaiter must still be waiting.
+            auto* waiter      = m_waiters;
+            waiter->m_element = element;
+            m_waiters         = waiter->m_next;
             lock.unlock();
 
-            // Transfer the element directly to the awaiter.
-            waiter->m_element = element;
             waiter->m_awaiting_coroutine.resume();
         }
         else
@@ -219,11 +220,12 @@ public:
 
         if (m_waiters != nullptr)
         {
-            auto* waiter = std::exchange(m_waiters, m_waiters->m_next);
+            // Transfer the element directly to the awaiter, if this throws the awaiter must still be waiting.
+            auto* waiter      = m_waiters;
+            waiter->m_element = std::move(element);
+            m_waiters         = waiter->m_next;
             lock.unlock();
 
-            // Transfer the element directly to the awaiter.
-            waiter->m_element = std::move(element);
             waiter->m_awaiting_coroutine.resume();
         }
         else
@@ -253,10 +255,12 @@ public:
 
         if (m_waiters != nullptr)
         {
-            auto* waiter = std::exchange(m_waiters, m_waiters->m_next);
+            // Transfer the element directly to the awaiter, if this throws the awaiter must still be waiting.
+            auto* waiter = m_waiters;
+            waiter->m_element.emplace(std::forward<args_type>(args)...);
+            m_waiters = waiter->m_next;
             lock.unlock();
 
-            waiter->m_element.emplace(std::forward<args_type>(args)...);
             waiter->m_awaiting_coroutine.resume();
         }
         else
-- 
2.43.0


From 0c7816a2da2653ecf1bdb5aa1b5c0463d136c04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:28 +0000
Subject: [PATCH 10/43] fix: sync_wait_task move assignment must free the frame
 it owned

---
 include/coro/sync_wait.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/coro/sync_wait.hpp b/include/coro/sync_wait.hpp
index 2a60adc..31bcb24 100644
--- a/include/coro/sync_wait.hpp
+++ b/include/coro/sync_wait.hpp
@@ -269,6 +269,10 @@ public:
     {
         if (std::addressof(other) != this)
         {
+            if (m_coroutine)
+            {
+                m_coroutine.destroy();
+            }
             m_coroutine = std::exchange(other.m_coroutine, coroutine_type{});
         }
 
-- 
2.43.0


From fcb464040d1b6ed01ca940e7ac7302cc0498598e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:28 +0000
Subject: [PATCH 11/43] fix: task_group destructor must not destroy the event
 the last task is about to set

---
 include/coro/task_group.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/coro/task_group.hpp b/include/coro/task_group.hpp
index 14a9ae1..77c1d8f 100644
--- a/include/coro/task_group.hpp
+++ b/include/coro/task_group.hpp
@@ -81,7 +81,8 @@ public:
      */
     ~task_group()
     {
-        while (!empty())
+        // The event is set after the size dropped to zero, it must not be destroyed in between.
+        while (!empty() || !m_on_empty_event.is_set())
         {
             // Sleep a bit so the cpu doesn't totally churn.
             std::this_thread::sleep_for(std::chrono::milliseconds{10});
-- 
2.43.0


From 5dccf1ed3644c74d5b97d444fffea57e2aa80c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:28 +0000
Subject: [PATCH 12/43] fix: task_group must free a task the executor refused

---
 include/coro/task_group.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/coro/task_group.hpp b/include/coro/task_group.hpp
index 77c1d8f..ea8d191 100644
--- a/include/coro/task_group.hpp
+++ b/include/coro/task_group.hpp
@@ -106,6 +106,8 @@ public:
         // Kick it.
         if (!m_executor->resume(wrapper_task.handle()))
         {
+            // The executor did not take it, so it will never run and delete itself.
+            wrapper_task.handle().destroy();
             count_down();
             return false;
         }
-- 
2.43.0


From 510b5d2406f521389a3058c7fc0d8982bc355e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:28 +0000
Subject: [PATCH 13/43] fix: task_group must reject an empty unique_ptr
 executor like a null pointer

---
 include/coro/task_group.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/coro/task_group.hpp b/include/coro/task_group.hpp
index ea8d191..04ccd1b 100644
--- a/include/coro/task_group.hpp
+++ b/include/coro/task_group.hpp
@@ -58,7 +58,7 @@ public:
     }
 
     explicit task_group(std::unique_ptr<executor_type>& executor)
-        : m_executor(executor.get())
+        : task_group(executor.get())
     { }
 
     explicit task_group(std::unique_ptr<executor_type>& executor, coro::task<void>&& task)
-- 
2.43.0


From 3d38acbfec081ed024779fc5726103290474bb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:28 +0000
Subject: [PATCH 14/43] fix: spawn_detached must free and un-count a task that
 was refused

---
 src/scheduler.cpp   | 9 ++++++++-
 src/thread_pool.cpp | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 07b6f8e..5be2fa8 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -87,7 +87,14 @@ auto scheduler::spawn_detached(coro::task<void>&& task) -> bool
     m_size.fetch_add(1, std::memory_order::release);
     auto wrapper_task = detail::make_task_self_deleting(std::move(task));
     wrapper_task.promise().user_final_suspend([this]() -> void { m_size.fetch_sub(1, std::memory_order::release); });
-    return resume(wrapper_task.handle());
+    if (!resume(wrapper_task.handle()))
+    {
+        // It was refused, so it will never run, delete itself and drop its count.
+        wrapper_task.handle().destroy();
+        m_size.fetch_sub(1, std::memory_order::release);
+        return false;
+    }
+    return true;
 }
 
 auto scheduler::spawn_joinable(coro::task<void>&& task) -> coro::task<void>
diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 5310c84..3e389ec 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -67,7 +67,14 @@ auto thread_pool::spawn_detached(coro::task<void>&& task) noexcept -> bool
     m_size.fetch_add(1, std::memory_order::release);
     auto wrapper_task = detail::make_task_self_deleting(std::move(task));
     wrapper_task.promise().user_final_suspend([this]() -> void { m_size.fetch_sub(1, std::memory_order::release); });
-    return resume(wrapper_task.handle());
+    if (!resume(wrapper_task.handle()))
+    {
+        // It was refused, so it will never run, delete itself and drop its count.
+        wrapper_task.handle().destroy();
+        m_size.fetch_sub(1, std::memory_order::release);
+        return false;
+    }
+    return true;
 }
 
 auto thread_pool::spawn_joinable(coro::task<void>&& task) noexcept -> coro::task<void>
-- 
2.43.0


From 39b024658854e190820d67bf5fc3bd98b82659c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:28 +0000
Subject: [PATCH 15/43] fix: thread_pool must refuse work its executors can no
 longer see after shutdown

---
 include/coro/thread_pool.hpp | 13 +++++++++----
 src/thread_pool.cpp          | 27 ++++++++++++++++++++++-----
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/include/coro/thread_pool.hpp b/include/coro/thread_pool.hpp
index 4853654..0360221 100644
--- a/include/coro/thread_pool.hpp
+++ b/include/coro/thread_pool.hpp
@@ -54,10 +54,10 @@ public:
         auto await_ready() noexcept -> bool { return false; }
 
         /**
-         * Suspending always returns to the caller (using void return of await_suspend()) and
-         * stores the coroutine internally for the executing thread to resume from.
+         * Suspending stores the coroutine internally for the executing thread to resume from.
+         * @return False if the thread pool was shutdown and the coroutine continues on its current thread.
          */
-        auto await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> void;
+        auto await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> bool;
 
         /**
          * no-op as this is the function called first by the thread pool's executing thread.
@@ -184,6 +184,11 @@ public:
 
         {
             std::scoped_lock lk{m_wait_mutex};
+            if (m_shutdown_requested.load(std::memory_order::acquire))
+            {
+                m_size.fetch_sub(std::size(handles), std::memory_order::release);
+                return 0;
+            }
             for (const auto& handle : handles)
             {
                 if (handle != nullptr) [[likely]]
@@ -279,7 +284,7 @@ private:
     /**
      * @param handle Schedules the given coroutine to be executed upon the first available thread.
      */
-    auto schedule_impl(std::coroutine_handle<> handle) noexcept -> void;
+    auto schedule_impl(std::coroutine_handle<> handle) noexcept -> bool;
 
     /// The number of tasks in the queue + currently executing.
     std::atomic<std::size_t> m_size{0};
diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 3e389ec..07d1fac 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -19,9 +19,15 @@ thread_pool::schedule_operation::schedule_operation(thread_pool& tp) noexcept :
 {
 }
 
-auto thread_pool::schedule_operation::await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> void
+auto thread_pool::schedule_operation::await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> bool
 {
-    m_thread_pool.schedule_impl(awaiting_coroutine);
+    if (!m_thread_pool.schedule_impl(awaiting_coroutine))
+    {
+        // The pool was shutdown since schedule(), no executor would ever resume it.
+        m_thread_pool.m_size.fetch_sub(1, std::memory_order::release);
+        return false;
+    }
+    return true;
 }
 
 thread_pool::thread_pool(options&& opts, private_constructor) : m_opts(opts)
@@ -97,7 +103,11 @@ auto thread_pool::resume(std::coroutine_handle<> handle) noexcept -> bool
         return false;
     }
 
-    schedule_impl(handle);
+    if (!schedule_impl(handle))
+    {
+        m_size.fetch_sub(1, std::memory_order::release);
+        return false;
+    }
     return true;
 }
 
@@ -176,18 +186,25 @@ auto thread_pool::executor(std::size_t idx) -> void
     }
 }
 
-auto thread_pool::schedule_impl(std::coroutine_handle<> handle) noexcept -> void
+auto thread_pool::schedule_impl(std::coroutine_handle<> handle) noexcept -> bool
 {
     if (handle == nullptr || handle.done())
     {
-        return;
+        return false;
     }
 
     {
         std::scoped_lock lk{m_wait_mutex};
+        // Executors exit after seeing shutdown and an empty queue under this lock.
+        if (m_shutdown_requested.load(std::memory_order::acquire))
+        {
+            return false;
+        }
         m_queue.emplace_back(handle);
         m_wait_cv.notify_one();
     }
+
+    return true;
 }
 
 } // namespace coro
-- 
2.43.0


From 64eec7a4dec2e10d51072916927637796a7d87a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:28 +0000
Subject: [PATCH 16/43] fix: thread_pool::queue_size must read the queue under
 its lock

---
 include/coro/thread_pool.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/coro/thread_pool.hpp b/include/coro/thread_pool.hpp
index 0360221..b56ce0d 100644
--- a/include/coro/thread_pool.hpp
+++ b/include/coro/thread_pool.hpp
@@ -255,7 +255,7 @@ public:
      */
     auto queue_size() const noexcept -> std::size_t
     {
-        std::atomic_thread_fence(std::memory_order::acquire);
+        std::scoped_lock lk{m_wait_mutex};
         return m_queue.size();
     }
 
@@ -270,7 +270,7 @@ private:
     /// The background executor threads.
     std::vector<std::thread> m_threads;
     /// Mutex for executor threads to sleep on the condition variable.
-    std::mutex m_wait_mutex;
+    mutable std::mutex m_wait_mutex;
     /// Condition variable for each executor thread to wait on when no tasks are available.
     std::condition_variable_any m_wait_cv;
     /// FIFO queue of tasks waiting to be executed.
-- 
2.43.0


From c028e783368a8a0f944a0bad1cbe22b3d2862f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:23 +0000
Subject: [PATCH 17/43] fix: scheduler must not lose coroutines its thread pool
 refuses

---
 include/coro/scheduler.hpp | 6 ++++--
 src/scheduler.cpp          | 9 ++++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/coro/scheduler.hpp b/include/coro/scheduler.hpp
index 25e16f7..7155d97 100644
--- a/include/coro/scheduler.hpp
+++ b/include/coro/scheduler.hpp
@@ -144,7 +144,7 @@ public:
          * Suspending always returns to the caller (using void return of await_suspend()) and
          * stores the coroutine internally for the executing thread to resume from.
          */
-        auto await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> void
+        auto await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> bool
         {
             if (m_scheduler.m_opts.execution_strategy == execution_strategy_t::process_tasks_inline)
             {
@@ -166,10 +166,12 @@ public:
                             << written << "\n";
                     }
                 }
+                return true;
             }
             else
             {
-                m_scheduler.m_thread_pool->resume(awaiting_coroutine);
+                // If the thread pool refuses it will never resume the coroutine, continue on this thread.
+                return m_scheduler.m_thread_pool->resume(awaiting_coroutine);
             }
         }
 
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 5be2fa8..edb98f3 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -323,7 +323,14 @@ auto scheduler::process_events_execute(std::chrono::milliseconds timeout) -> voi
         }
         else
         {
-            m_thread_pool->resume(m_handles_to_resume);
+            if (m_thread_pool->resume(m_handles_to_resume) == 0)
+            {
+                // The thread pool is shutdown and took none of them.
+                for (auto& handle : m_handles_to_resume)
+                {
+                    handle.resume();
+                }
+            }
             m_size.fetch_sub(m_handles_to_resume.size(), std::memory_order::release);
         }
 
-- 
2.43.0


From 06189a6da89b146d2f4e2e4e0b67d79cf06a73de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:23 +0000
Subject: [PATCH 18/43] fix: a poll that ends must also deregister its
 cancellation trigger

---
 src/detail/io_notifier_epoll.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/detail/io_notifier_epoll.cpp b/src/detail/io_notifier_epoll.cpp
index 4723aa5..d5b3bf9 100644
--- a/src/detail/io_notifier_epoll.cpp
+++ b/src/detail/io_notifier_epoll.cpp
@@ -118,6 +118,11 @@ auto io_notifier_epoll::unwatch(fd_t fd, poll_op) -> bool
 
 auto io_notifier_epoll::unwatch(poll_info& pi) -> bool
 {
+    if (pi.m_cancel_trigger.has_value())
+    {
+        unwatch(pi.m_cancel_trigger.value().native_handle(), poll_op::read);
+    }
+
     return unwatch(pi.m_fd, pi.m_op);
 }
 
-- 
2.43.0


From 590e2886b45fdf211e8c93172d2afe2ec41e369f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:23 +0000
Subject: [PATCH 19/43] fix: only events of poll operations have a poll_info to
 look at

---
 src/detail/io_notifier_epoll.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/detail/io_notifier_epoll.cpp b/src/detail/io_notifier_epoll.cpp
index d5b3bf9..8f02d88 100644
--- a/src/detail/io_notifier_epoll.cpp
+++ b/src/detail/io_notifier_epoll.cpp
@@ -158,7 +158,7 @@ auto io_notifier_epoll::next_events(
         else
         {
             ready_events.emplace_back(pi, io_notifier_epoll::event_to_poll_status(ready_set[i]));
-            if (pi->m_cancel_trigger.has_value() && !keep_registered)
+            if (!keep_registered && pi->m_cancel_trigger.has_value())
             {
                 unwatch(pi->m_cancel_trigger.value().native_handle(), poll_op::read);
             }
-- 
2.43.0


From 397d1351b7abfb3ba10bf51162cb1e1004877f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:40 +0000
Subject: [PATCH 20/43] fix: a poll of a descriptor that cannot be watched must
 fail, and its events must wait until it has suspended

---
 include/coro/detail/poll_info.hpp |  5 ++--
 src/detail/io_notifier_epoll.cpp  |  5 +++-
 src/scheduler.cpp                 | 40 ++++++++++++++++++-------------
 3 files changed, 29 insertions(+), 21 deletions(-)

diff --git a/include/coro/detail/poll_info.hpp b/include/coro/detail/poll_info.hpp
index 7992ff9..8147cfe 100644
--- a/include/coro/detail/poll_info.hpp
+++ b/include/coro/detail/poll_info.hpp
@@ -53,8 +53,7 @@ struct poll_info
         auto await_ready() const noexcept -> bool { return false; }
         auto await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> void
         {
-            m_pi.m_awaiting_coroutine = awaiting_coroutine;
-            std::atomic_thread_fence(std::memory_order::release);
+            m_pi.m_awaiting_coroutine.store(awaiting_coroutine, std::memory_order::release);
         }
         auto await_resume() noexcept -> coro::poll_status { return m_pi.m_poll_status; }
 
@@ -73,7 +72,7 @@ struct poll_info
     /// the timeout within epoll.
     std::optional<timed_events::iterator> m_timer_pos{std::nullopt};
     /// The awaiting coroutine for this poll info to resume upon event or timeout.
-    std::coroutine_handle<> m_awaiting_coroutine;
+    std::atomic<std::coroutine_handle<>> m_awaiting_coroutine{nullptr};
     /// The status of the poll operation.
     coro::poll_status m_poll_status{coro::poll_status::error};
     /// Did the timeout and event trigger at the same time on the same epoll_wait call?
diff --git a/src/detail/io_notifier_epoll.cpp b/src/detail/io_notifier_epoll.cpp
index 8f02d88..2530f9d 100644
--- a/src/detail/io_notifier_epoll.cpp
+++ b/src/detail/io_notifier_epoll.cpp
@@ -101,7 +101,10 @@ auto io_notifier_epoll::watch(fd_t fd, poll_op op, void* data, bool keep, bool i
 
 auto io_notifier_epoll::watch(poll_info& pi) -> bool
 {
-    watch(pi.m_fd, pi.m_op, static_cast<void*>(&pi), false, false);
+    if (!watch(pi.m_fd, pi.m_op, static_cast<void*>(&pi), false, false))
+    {
+        return false;
+    }
 
     if (pi.m_cancel_trigger.has_value())
     {
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index edb98f3..ff8b4a4 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -148,14 +148,17 @@ auto scheduler::poll(
 
     auto pi = detail::poll_info{fd, op, cancel_trigger};
 
-    if (timeout_requested)
+    if (!m_io_notifier.watch(pi))
     {
-        pi.m_timer_pos = add_timer_token(clock::now() + timeout, pi);
+        // Nothing would ever resume this coroutine, there is no event and no timeout yet.
+        std::cerr << "Failed to add " << fd << " to watch list\n";
+        m_size.fetch_sub(1, std::memory_order::release);
+        co_return poll_status::error;
     }
 
-    if (!m_io_notifier.watch(pi))
+    if (timeout_requested)
     {
-        std::cerr << "Failed to add " << fd << " to watch list\n";
+        pi.m_timer_pos = add_timer_token(clock::now() + timeout, pi);
     }
 
     // The event loop will 'clean-up' whichever event didn't win since the coroutine is scheduled
@@ -400,11 +403,17 @@ auto scheduler::process_event_execute(detail::poll_info* pi, poll_status status)
 {
     if (!pi->m_processed)
     {
-        std::atomic_thread_fence(std::memory_order::acquire);
         // Its possible the event and the timeout occurred in the same epoll, make sure only one
         // is ever processed, the other is discarded.
         pi->m_processed = true;
 
+        // The polling coroutine may still be setting up its event and timeout, wait until it has suspended.
+        auto awaiting_coroutine = pi->m_awaiting_coroutine.load(std::memory_order::acquire);
+        while (awaiting_coroutine == nullptr)
+        {
+            awaiting_coroutine = pi->m_awaiting_coroutine.load(std::memory_order::acquire);
+        }
+
         // Given a valid fd always remove it from epoll so the next poll can blindly EPOLL_CTL_ADD.
         if (pi->m_fd != -1)
         {
@@ -419,12 +428,7 @@ auto scheduler::process_event_execute(detail::poll_info* pi, poll_status status)
 
         pi->m_poll_status = status;
 
-        while (pi->m_awaiting_coroutine == nullptr)
-        {
-            std::atomic_thread_fence(std::memory_order::acquire);
-        }
-
-        m_handles_to_resume.emplace_back(pi->m_awaiting_coroutine);
+        m_handles_to_resume.emplace_back(awaiting_coroutine);
     }
 }
 
@@ -460,18 +464,20 @@ auto scheduler::process_timeout_execute() -> void
             // is ever processed, the other is discarded.
             pi->m_processed = true;
 
-            // Since this timed out, remove its corresponding event if it has one.
-            if (pi->m_fd != -1)
+            // The polling coroutine may still be setting up its event and timeout, wait until it has suspended.
+            auto awaiting_coroutine = pi->m_awaiting_coroutine.load(std::memory_order::acquire);
+            while (awaiting_coroutine == nullptr)
             {
-                m_io_notifier.unwatch(*pi);
+                awaiting_coroutine = pi->m_awaiting_coroutine.load(std::memory_order::acquire);
             }
 
-            while (pi->m_awaiting_coroutine == nullptr)
+            // Since this timed out, remove its corresponding event if it has one.
+            if (pi->m_fd != -1)
             {
-                std::atomic_thread_fence(std::memory_order::acquire);
+                m_io_notifier.unwatch(*pi);
             }
 
-            m_handles_to_resume.emplace_back(pi->m_awaiting_coroutine);
+            m_handles_to_resume.emplace_back(awaiting_coroutine);
             pi->m_poll_status = coro::poll_status::timeout;
         }
     }
-- 
2.43.0


From 7963869c9d4430fbbabf14ffccd022cb62b9eb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:40 +0000
Subject: [PATCH 21/43] fix: the timers must be read under their lock when
 re-arming after a timeout

---
 src/scheduler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index ff8b4a4..a250535 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -484,6 +484,7 @@ auto scheduler::process_timeout_execute() -> void
 
     // Update the time to the next smallest time point, re-take the current now time
     // since updating and resuming tasks could shift the time.
+    std::scoped_lock lk{m_timed_events_mutex};
     update_timeout(clock::now());
 }
 
-- 
2.43.0


From e6a2ae10fa4d137bc769b27e2335722965d983f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:40 +0000
Subject: [PATCH 22/43] fix: a deadline must not be rounded down to
 milliseconds

---
 include/coro/scheduler.hpp | 4 ++--
 src/scheduler.cpp          | 4 +---
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/coro/scheduler.hpp b/include/coro/scheduler.hpp
index 7155d97..33c0c92 100644
--- a/include/coro/scheduler.hpp
+++ b/include/coro/scheduler.hpp
@@ -248,7 +248,7 @@ public:
         using namespace std::chrono_literals;
 
         // If negative or 0 timeout, just schedule the task as normal.
-        auto timeout_ms = std::max(std::chrono::duration_cast<std::chrono::milliseconds>(timeout), 0ms);
+        auto timeout_ms = std::max(std::chrono::ceil<std::chrono::milliseconds>(timeout), 0ms);
         if (timeout_ms == 0ms)
         {
             if constexpr (std::is_void_v<return_type>)
@@ -300,7 +300,7 @@ public:
         using namespace std::chrono_literals;
 
         // If negative or 0 timeout, just schedule the task as normal.
-        auto timeout_ms = std::max(std::chrono::duration_cast<std::chrono::milliseconds>(timeout), 0ms);
+        auto timeout_ms = std::max(std::chrono::ceil<std::chrono::milliseconds>(timeout), 0ms);
         if (timeout_ms == 0ms)
         {
             if constexpr (std::is_void_v<return_type>)
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index a250535..1cbe860 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -121,10 +121,8 @@ auto scheduler::yield_until(time_point time) -> coro::task<void>
     {
         m_size.fetch_add(1, std::memory_order::release);
 
-        auto amount = std::chrono::duration_cast<std::chrono::milliseconds>(time - now);
-
         detail::poll_info pi{};
-        add_timer_token(now + amount, pi);
+        add_timer_token(time, pi);
         co_await pi;
     }
     co_return;
-- 
2.43.0


From 7dc551a54af5a73b08123b339e96bc75fbe7cb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:40 +0000
Subject: [PATCH 23/43] fix: taking over event processing must acquire what the
 previous thread left

---
 src/scheduler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 1cbe860..1984325 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -244,7 +244,7 @@ auto scheduler::yield_for_internal(std::chrono::nanoseconds amount) -> coro::tas
 auto scheduler::process_events_manual(std::chrono::milliseconds timeout) -> void
 {
     bool expected{false};
-    if (m_io_processing.compare_exchange_strong(expected, true, std::memory_order::release, std::memory_order::relaxed))
+    if (m_io_processing.compare_exchange_strong(expected, true, std::memory_order::acq_rel, std::memory_order::relaxed))
     {
         process_events_execute(timeout);
         m_io_processing.exchange(false, std::memory_order::release);
-- 
2.43.0


From 1d8b11ea4bc9d53028bb9f1437a5561c7150153a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:40 +0000
Subject: [PATCH 24/43] fix: pipe_t must not own descriptor 0 after a move nor
 leak its descriptors in an assignment

---
 include/coro/detail/pipe.hpp | 2 +-
 src/detail/pipe.cpp          | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/coro/detail/pipe.hpp b/include/coro/detail/pipe.hpp
index 8da95a0..0559797 100644
--- a/include/coro/detail/pipe.hpp
+++ b/include/coro/detail/pipe.hpp
@@ -28,7 +28,7 @@ public:
     auto close() -> void;
 
 private:
-    std::array<fd_t, 2> m_fds{-1};
+    std::array<fd_t, 2> m_fds{-1, -1};
 };
 
 } // namespace coro::detail
diff --git a/src/detail/pipe.cpp b/src/detail/pipe.cpp
index 281d9ba..b05629b 100644
--- a/src/detail/pipe.cpp
+++ b/src/detail/pipe.cpp
@@ -42,13 +42,14 @@ pipe_t::pipe_t(const pipe_t& other)
 
 pipe_t::pipe_t(pipe_t&& other) noexcept
 {
-    m_fds = std::exchange(other.m_fds, {-1});
+    m_fds = std::exchange(other.m_fds, {-1, -1});
 }
 
 auto pipe_t::operator=(const pipe_t& other) -> pipe_t&
 {
     if (std::addressof(other) != this)
     {
+        close();
         m_fds[0] = dup(other.m_fds[0]);
         m_fds[1] = dup(other.m_fds[1]);
     }
@@ -60,7 +61,8 @@ auto pipe_t::operator=(pipe_t&& other) noexcept -> pipe_t&
 {
     if (std::addressof(other) != this)
     {
-        m_fds = std::exchange(other.m_fds, {-1});
+        close();
+        m_fds = std::exchange(other.m_fds, {-1, -1});
     }
 
     return *this;
-- 
2.43.0


From 35a4a55b493f243a9de5cd0dbe85d6acd7382014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:40 +0000
Subject: [PATCH 25/43] fix: to_string(poll_status) must know cancelled

---
 src/poll.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/poll.cpp b/src/poll.cpp
index c53b787..ebef09e 100644
--- a/src/poll.cpp
+++ b/src/poll.cpp
@@ -29,6 +29,7 @@ static const std::string poll_status_write{"write"};
 static const std::string poll_status_timeout{"timeout"};
 static const std::string poll_status_error{"error"};
 static const std::string poll_status_closed{"closed"};
+static const std::string poll_status_cancelled{"cancelled"};
 
 auto to_string(poll_status status) -> const std::string&
 {
@@ -44,6 +45,8 @@ auto to_string(poll_status status) -> const std::string&
             return poll_status_error;
         case poll_status::closed:
             return poll_status_closed;
+        case poll_status::cancelled:
+            return poll_status_cancelled;
         default:
             return poll_unknown;
     }
-- 
2.43.0


From ba1d2993675ad7bd6b129eafe196e3d19a8479de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:33 +0000
Subject: [PATCH 26/43] fix: timer_handle must close its timer and report one
 that cannot be registered

---
 include/coro/detail/timer_handle.hpp |  6 ++++++
 src/detail/timer_handle.cpp          | 18 +++++++++++++++++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/coro/detail/timer_handle.hpp b/include/coro/detail/timer_handle.hpp
index 4d97d0f..aed29de 100644
--- a/include/coro/detail/timer_handle.hpp
+++ b/include/coro/detail/timer_handle.hpp
@@ -16,6 +16,12 @@ class timer_handle
 
 public:
     timer_handle(const void* timer_handle_ptr, io_notifier& notifier);
+    ~timer_handle();
+
+    timer_handle(const timer_handle&)                    = delete;
+    timer_handle(timer_handle&&)                         = delete;
+    auto operator=(const timer_handle&) -> timer_handle& = delete;
+    auto operator=(timer_handle&&) -> timer_handle&      = delete;
 
     coro::fd_t get_fd() const { return m_fd; }
 
diff --git a/src/detail/timer_handle.cpp b/src/detail/timer_handle.cpp
index 81c2cc0..f6676e7 100644
--- a/src/detail/timer_handle.cpp
+++ b/src/detail/timer_handle.cpp
@@ -2,6 +2,8 @@
 
 #include "coro/io_notifier.hpp"
 
+#include <stdexcept>
+
 namespace coro::detail
 {
 
@@ -16,13 +18,27 @@ timer_handle::timer_handle(const void* timer_handle_ptr, io_notifier& notifier)
     (void)notifier;
 }
 
+timer_handle::~timer_handle() = default;
+
 #elif defined(__linux__)
 
 timer_handle::timer_handle(const void* timer_handle_ptr, io_notifier& notifier)
     : m_fd(::timerfd_create(CLOCK_MONOTONIC, TFD_NONBLOCK | TFD_CLOEXEC)),
       m_timer_handle_ptr(timer_handle_ptr)
 {
-    notifier.watch(m_fd, poll_op::read, const_cast<void*>(m_timer_handle_ptr), true);
+    if (m_fd == -1 || !notifier.watch(m_fd, poll_op::read, const_cast<void*>(m_timer_handle_ptr), true))
+    {
+        if (m_fd != -1)
+        {
+            ::close(m_fd);
+        }
+        throw std::runtime_error{"Failed to create or register the timer."};
+    }
+}
+
+timer_handle::~timer_handle()
+{
+    ::close(m_fd);
 }
 
 #endif
-- 
2.43.0


From 8de97d6cd4e023c3e816f9ed5bc9181a81d88ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:36 +0000
Subject: [PATCH 27/43] fix: spawn_joinable must not report a refused task as
 joined

---
 src/scheduler.cpp   | 11 ++++++++---
 src/thread_pool.cpp | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 1984325..a0a9b6a 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -17,8 +17,12 @@ namespace coro
 namespace detail
 {
 static auto
-    make_spawned_joinable_wait_task(std::unique_ptr<coro::task_group<coro::scheduler>> group_ptr) -> coro::task<void>
+    make_spawned_joinable_wait_task(std::unique_ptr<coro::task_group<coro::scheduler>> group_ptr, bool started) -> coro::task<void>
 {
+    if (!started)
+    {
+        throw std::runtime_error("coro::scheduler is shutting down, the task was not spawned.");
+    }
     co_await *group_ptr;
     co_return;
 }
@@ -99,8 +103,9 @@ auto scheduler::spawn_detached(coro::task<void>&& task) -> bool
 
 auto scheduler::spawn_joinable(coro::task<void>&& task) -> coro::task<void>
 {
-    auto group_ptr = std::make_unique<coro::task_group<coro::scheduler>>(this, std::move(task));
-    return detail::make_spawned_joinable_wait_task(std::move(group_ptr));
+    auto       group_ptr = std::make_unique<coro::task_group<coro::scheduler>>(this);
+    const bool started   = group_ptr->start(std::move(task));
+    return detail::make_spawned_joinable_wait_task(std::move(group_ptr), started);
 }
 
 auto scheduler::schedule_at(time_point time) -> coro::task<void>
diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 07d1fac..669f20f 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -7,8 +7,12 @@ namespace coro
 namespace detail
 {
 static auto
-    make_spawned_joinable_wait_task(std::unique_ptr<coro::task_group<coro::thread_pool>> group_ptr) -> coro::task<void>
+    make_spawned_joinable_wait_task(std::unique_ptr<coro::task_group<coro::thread_pool>> group_ptr, bool started) -> coro::task<void>
 {
+    if (!started)
+    {
+        throw std::runtime_error("coro::thread_pool is shutting down, the task was not spawned.");
+    }
     co_await *group_ptr;
     co_return;
 }
@@ -85,8 +89,9 @@ auto thread_pool::spawn_detached(coro::task<void>&& task) noexcept -> bool
 
 auto thread_pool::spawn_joinable(coro::task<void>&& task) noexcept -> coro::task<void>
 {
-    auto group_ptr = std::make_unique<coro::task_group<coro::thread_pool>>(this, std::move(task));
-    return detail::make_spawned_joinable_wait_task(std::move(group_ptr));
+    auto       group_ptr = std::make_unique<coro::task_group<coro::thread_pool>>(this);
+    const bool started   = group_ptr->start(std::move(task));
+    return detail::make_spawned_joinable_wait_task(std::move(group_ptr), started);
 }
 
 auto thread_pool::resume(std::coroutine_handle<> handle) noexcept -> bool
-- 
2.43.0


From f31cc4041fa88f45379fa17db4e5af880a6ce338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:41 +0000
Subject: [PATCH 28/43] fix: schedule_operation must not be touched after it
 was queued

---
 include/coro/scheduler.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/coro/scheduler.hpp b/include/coro/scheduler.hpp
index 33c0c92..6f64cab 100644
--- a/include/coro/scheduler.hpp
+++ b/include/coro/scheduler.hpp
@@ -148,17 +148,19 @@ public:
         {
             if (m_scheduler.m_opts.execution_strategy == execution_strategy_t::process_tasks_inline)
             {
-                m_scheduler.m_size.fetch_add(1, std::memory_order::release);
+                // Once this is pushed the event loop may resume and destroy it at any time.
+                auto& s = m_scheduler;
+                s.m_size.fetch_add(1, std::memory_order::release);
                 m_awaiting_coroutine = awaiting_coroutine;
-                detail::awaiter_list_push(m_scheduler.m_scheduled_ops, this);
+                detail::awaiter_list_push(s.m_scheduled_ops, this);
 
                 // Trigger the event to wake-up the scheduler if this event isn't currently triggered.
                 bool expected{false};
-                if (m_scheduler.m_schedule_pipe_triggered.compare_exchange_strong(
+                if (s.m_schedule_pipe_triggered.compare_exchange_strong(
                         expected, true, std::memory_order::release, std::memory_order::relaxed))
                 {
                     constexpr int control = 1;
-                    ssize_t       written = m_scheduler.m_schedule_pipe.write(&control, sizeof(control));
+                    ssize_t       written = s.m_schedule_pipe.write(&control, sizeof(control));
                     if (written != sizeof(control))
                     {
                         std::cerr
-- 
2.43.0


From 209c28fbcc2a62545459c33cee3c23abb33fc33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:28 +0000
Subject: [PATCH 29/43] fix: socket assignment keeps its descriptor on
 self-assignment and closes the one it replaces

---
 src/net/socket.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/net/socket.cpp b/src/net/socket.cpp
index ed593e0..cedcf6d 100644
--- a/src/net/socket.cpp
+++ b/src/net/socket.cpp
@@ -19,8 +19,12 @@ auto socket::type_to_os(type_t type) -> int
 
 auto socket::operator=(const socket& other) noexcept -> socket&
 {
-    this->close();
-    this->m_fd = dup(other.m_fd);
+    if (std::addressof(other) != this)
+    {
+        this->close();
+        this->m_fd = dup(other.m_fd);
+    }
+
     return *this;
 }
 
@@ -28,6 +32,7 @@ auto socket::operator=(socket&& other) noexcept -> socket&
 {
     if (std::addressof(other) != this)
     {
+        this->close();
         m_fd = std::exchange(other.m_fd, -1);
     }
 
-- 
2.43.0


From c55df2a2caef5b80db74fd018a9784124fd11aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:28 +0000
Subject: [PATCH 30/43] fix: tls::context cannot be copied, copies freed the
 same SSL_CTX twice

---
 include/coro/net/tls/context.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/coro/net/tls/context.hpp b/include/coro/net/tls/context.hpp
index e66d7fa..70cde62 100644
--- a/include/coro/net/tls/context.hpp
+++ b/include/coro/net/tls/context.hpp
@@ -54,6 +54,10 @@ public:
         std::filesystem::path private_key,
         tls_file_type         private_key_type,
         verify_peer_t         verify_peer = verify_peer_t::yes);
+    context(const context&)                    = delete;
+    context(context&&)                         = delete;
+    auto operator=(const context&) -> context& = delete;
+    auto operator=(context&&) -> context&      = delete;
     ~context();
 
 private:
-- 
2.43.0


From 5992e637f4d9374df72fa7fb1c9f5f7dc89145c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:28 +0000
Subject: [PATCH 31/43] fix: dns resolvers share one library reference count
 across translation units

---
 include/coro/net/dns/resolver.hpp | 4 ++--
 src/net/dns/resolver.cpp          | 5 -----
 2 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/coro/net/dns/resolver.hpp b/include/coro/net/dns/resolver.hpp
index f9e9570..354c6e3 100644
--- a/include/coro/net/dns/resolver.hpp
+++ b/include/coro/net/dns/resolver.hpp
@@ -25,9 +25,9 @@ namespace coro::net::dns
 namespace detail
 {
 /// Global count to track if c-ares has been initialized or cleaned up.
-static uint64_t m_ares_count;
+inline uint64_t m_ares_count{0};
 /// Critical section around the c-ares global init/cleanup to prevent heap corruption.
-static std::mutex m_ares_mutex;
+inline std::mutex m_ares_mutex{};
 } // namespace detail
 
 template<concepts::io_executor executor_type>
diff --git a/src/net/dns/resolver.cpp b/src/net/dns/resolver.cpp
index 78bcb92..81beba9 100644
--- a/src/net/dns/resolver.cpp
+++ b/src/net/dns/resolver.cpp
@@ -1,7 +1,2 @@
 #include "coro/net/dns/resolver.hpp"
 
-namespace coro::net::dns
-{
-uint64_t   m_ares_count{0};
-std::mutex m_ares_mutex{};
-} // namespace coro::net::dns
-- 
2.43.0


From 4de14eac6b7fbde1fa43e566613546026779467b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:28 +0000
Subject: [PATCH 32/43] fix: dns resolver gives up its library reference when
 its construction fails

---
 include/coro/net/dns/resolver.hpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/coro/net/dns/resolver.hpp b/include/coro/net/dns/resolver.hpp
index 354c6e3..0b56e58 100644
--- a/include/coro/net/dns/resolver.hpp
+++ b/include/coro/net/dns/resolver.hpp
@@ -107,6 +107,7 @@ public:
         auto channel_init_status = ares_init_options(&m_ares_channel, &options, ARES_OPT_SOCK_STATE_CB);
         if (channel_init_status != ARES_SUCCESS)
         {
+            release_library();
             throw std::runtime_error{ares_strerror(channel_init_status)};
         }
     }
@@ -124,14 +125,7 @@ public:
             m_ares_channel = nullptr;
         }
 
-        {
-            std::scoped_lock g{detail::m_ares_mutex};
-            --detail::m_ares_count;
-            if (detail::m_ares_count == 0)
-            {
-                ares_library_cleanup();
-            }
-        }
+        release_library();
     }
 
     /**
@@ -172,6 +166,17 @@ private:
     /// are not setup when socket state is changed.
     std::unordered_map<fd_t, poll_op> m_active_sockets{};
 
+    /// Gives up this resolver's use of the library, the last one to do so cleans it up.
+    static auto release_library() -> void
+    {
+        std::scoped_lock g{detail::m_ares_mutex};
+        --detail::m_ares_count;
+        if (detail::m_ares_count == 0)
+        {
+            ares_library_cleanup();
+        }
+    }
+
     auto make_poll_task(fd_t fd) -> coro::task<void>
     {
         // The loop ensures non-blocking polling until the socket is closed by c-ares.
-- 
2.43.0


From fca9510b8a32f42f80c936bfa5e183e83b376f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:28 +0000
Subject: [PATCH 33/43] fix: dns lookups finish when polling one of their
 sockets fails

---
 include/coro/net/dns/resolver.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/coro/net/dns/resolver.hpp b/include/coro/net/dns/resolver.hpp
index 0b56e58..635fc82 100644
--- a/include/coro/net/dns/resolver.hpp
+++ b/include/coro/net/dns/resolver.hpp
@@ -197,14 +197,18 @@ private:
                     ares_process_fd(m_ares_channel, ARES_SOCKET_BAD, ARES_SOCKET_BAD);
                     break;
                 case poll_status::closed:
-                    // might need to do something like call with two ARES_SOCKET_BAD?
-                    m_active_sockets.erase(fd);
-                    break;
                 case poll_status::error:
-                    // might need to do something like call with two ARES_SOCKET_BAD?
-                    m_active_sockets.erase(fd);
-                    break;
+                    // c-ares finds out about the failure by using the socket, it then closes it and fails or
+                    // retries the queries that were waiting on it.
+                    ares_process_fd(m_ares_channel, fd, fd);
+                    if (!m_active_sockets.contains(fd))
+                    {
+                        break;
+                    }
+                    [[fallthrough]];
                 case poll_status::cancelled:
+                    // Nothing will report this socket's events, the queries waiting on it can only fail.
+                    ares_cancel(m_ares_channel);
                     m_active_sockets.erase(fd);
                     break;
             }
-- 
2.43.0


From 2f1b1ee4bbb43232147c8777d1aaa6b403bac97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:28 +0000
Subject: [PATCH 34/43] fix: dns poll tasks do not use a destroyed resolver or
 a socket c-ares has closed

---
 include/coro/net/dns/resolver.hpp | 44 ++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/include/coro/net/dns/resolver.hpp b/include/coro/net/dns/resolver.hpp
index 635fc82..e9c8edf 100644
--- a/include/coro/net/dns/resolver.hpp
+++ b/include/coro/net/dns/resolver.hpp
@@ -13,6 +13,7 @@
 #include <netdb.h>
 
 #include <array>
+#include <atomic>
 #include <chrono>
 #include <functional>
 #include <memory>
@@ -162,9 +163,19 @@ private:
     /// The libc-ares channel for looking up dns entries.
     ares_channel m_ares_channel{nullptr};
 
+    /// A socket c-ares wants to be watched. Its poll task shares it, the task can be left waiting on a socket that c-ares
+    /// has closed, whose number has been given to another socket since, or whose resolver is gone.
+    struct active_socket
+    {
+        explicit active_socket(poll_op ops) : m_ops(ops) {}
+
+        std::atomic<poll_op> m_ops;
+        std::atomic<bool>    m_active{true};
+    };
+
     /// This is the map of sockets that are currently being actively polled so multiple poll tasks
     /// are not setup when socket state is changed.
-    std::unordered_map<fd_t, poll_op> m_active_sockets{};
+    std::unordered_map<fd_t, std::shared_ptr<active_socket>> m_active_sockets{};
 
     /// Gives up this resolver's use of the library, the last one to do so cleans it up.
     static auto release_library() -> void
@@ -177,13 +188,17 @@ private:
         }
     }
 
-    auto make_poll_task(fd_t fd) -> coro::task<void>
+    auto make_poll_task(fd_t fd, std::shared_ptr<active_socket> socket) -> coro::task<void>
     {
         // The loop ensures non-blocking polling until the socket is closed by c-ares.
-        while (m_active_sockets.contains(fd))
+        while (socket->m_active.load(std::memory_order::acquire))
         {
-            auto ops    = m_active_sockets[fd];
-            auto result = co_await m_executor->poll(fd, ops, m_timeout);
+            auto result = co_await m_executor->poll(fd, socket->m_ops.load(std::memory_order::acquire), m_timeout);
+            if (!socket->m_active.load(std::memory_order::acquire))
+            {
+                break;
+            }
+
             switch (result)
             {
                 case poll_status::read:
@@ -201,7 +216,7 @@ private:
                     // c-ares finds out about the failure by using the socket, it then closes it and fails or
                     // retries the queries that were waiting on it.
                     ares_process_fd(m_ares_channel, fd, fd);
-                    if (!m_active_sockets.contains(fd))
+                    if (!socket->m_active.load(std::memory_order::acquire))
                     {
                         break;
                     }
@@ -209,7 +224,6 @@ private:
                 case poll_status::cancelled:
                     // Nothing will report this socket's events, the queries waiting on it can only fail.
                     ares_cancel(m_ares_channel);
-                    m_active_sockets.erase(fd);
                     break;
             }
         }
@@ -235,15 +249,21 @@ private:
         auto poll_ops = static_cast<poll_op>(ops);
         if (ops != 0)
         {
-            auto [it, inserted] = self->m_active_sockets.insert_or_assign(fd, poll_ops);
-            if (inserted)
+            auto& socket = self->m_active_sockets[fd];
+            if (socket == nullptr)
+            {
+                socket = std::make_shared<active_socket>(poll_ops);
+                self->m_executor->spawn_detached(self->make_poll_task(fd, socket));
+            }
+            else
             {
-                self->m_executor->spawn_detached(self->make_poll_task(fd));
+                socket->m_ops.store(poll_ops, std::memory_order::release);
             }
         }
-        else
+        else if (auto it = self->m_active_sockets.find(fd); it != self->m_active_sockets.end())
         {
-            self->m_active_sockets.erase(fd);
+            it->second->m_active.store(false, std::memory_order::release);
+            self->m_active_sockets.erase(it);
         }
     }
 
-- 
2.43.0


From d032911618a91c117a5fe546adbd0f6f54b355fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:28 +0000
Subject: [PATCH 35/43] fix: connect reports an error when the result of the
 connection attempt cannot be read

---
 src/net/tcp/client.cpp | 3 +--
 src/net/tls/client.cpp | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/net/tcp/client.cpp b/src/net/tcp/client.cpp
index b0e0cef..716c661 100644
--- a/src/net/tcp/client.cpp
+++ b/src/net/tcp/client.cpp
@@ -112,8 +112,7 @@ auto client::connect(std::chrono::milliseconds timeout) -> coro::task<connect_st
                 {
                     std::cerr << "connect failed to getsockopt after write poll event\n";
                 }
-
-                if (result == 0)
+                else if (result == 0)
                 {
                     co_return return_value(connect_status::connected);
                 }
diff --git a/src/net/tls/client.cpp b/src/net/tls/client.cpp
index 90c6cb6..6f45f16 100644
--- a/src/net/tls/client.cpp
+++ b/src/net/tls/client.cpp
@@ -120,8 +120,7 @@ auto client::connect(std::chrono::milliseconds timeout) -> coro::task<connection
                 {
                     std::cerr << "connect failed to getsockopt after write poll event\n";
                 }
-
-                if (result == 0)
+                else if (result == 0)
                 {
                     // TODO: delta the already used time and remove from the handshake timeout.
                     co_return return_value(co_await handshake(timeout));
-- 
2.43.0


From 91bd259e1f78ba51a427f86c133c519baced6159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:28 +0000
Subject: [PATCH 36/43] fix: tcp reads take buffers of single byte elements
 only, like writes

---
 include/coro/net/tcp/client.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/coro/net/tcp/client.hpp b/include/coro/net/tcp/client.hpp
index 642a66c..79d33b6 100644
--- a/include/coro/net/tcp/client.hpp
+++ b/include/coro/net/tcp/client.hpp
@@ -75,6 +75,8 @@ public:
     auto read_some(buffer_type& buffer, const std::chrono::milliseconds timeout = std::chrono::milliseconds{0})
         -> coro::task<std::pair<io_status, std::span<element_type>>>
     {
+        static_assert(sizeof(element_type) == 1);
+
         if (buffer.empty())
         {
             co_return {io_status{io_status::kind::ok}, {}};
@@ -113,6 +115,8 @@ public:
     auto read_exact(buffer_type& buffer, const std::chrono::milliseconds timeout = std::chrono::milliseconds{0})
         -> coro::task<std::pair<io_status, std::span<element_type>>>
     {
+        static_assert(sizeof(element_type) == 1);
+
         if (buffer.empty())
         {
             co_return {io_status{io_status::kind::ok}, {}};
-- 
2.43.0


From 7da93fa1d60b196070e633eefca65bfdb05846a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:28 +0000
Subject: [PATCH 37/43] fix: tcp writes to a closed peer report it instead of
 raising SIGPIPE

---
 include/coro/net/tcp/client.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/coro/net/tcp/client.hpp b/include/coro/net/tcp/client.hpp
index 79d33b6..397f6db 100644
--- a/include/coro/net/tcp/client.hpp
+++ b/include/coro/net/tcp/client.hpp
@@ -402,7 +402,13 @@ private:
         typename element_type = typename concepts::const_buffer_traits<buffer_type>::element_type>
     auto send(const buffer_type& buffer) -> std::pair<io_status, std::span<element_type>>
     {
-        auto bytes_sent = ::send(m_socket.native_handle(), buffer.data(), buffer.size(), 0);
+#if defined(MSG_NOSIGNAL)
+        // A peer that closed the connection is reported as an error and not as a signal.
+        constexpr int flags{MSG_NOSIGNAL};
+#else
+        constexpr int flags{0};
+#endif
+        auto bytes_sent = ::send(m_socket.native_handle(), buffer.data(), buffer.size(), flags);
         if (bytes_sent >= 0)
         {
             // Some or all of the bytes were written.
-- 
2.43.0


From 96219948f2455e284df1739bb1b74b42d4d91606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:28 +0000
Subject: [PATCH 38/43] fix: tls handshake clears the error queue before every
 attempt

---
 src/net/tls/client.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/net/tls/client.cpp b/src/net/tls/client.cpp
index 6f45f16..138107d 100644
--- a/src/net/tls/client.cpp
+++ b/src/net/tls/client.cpp
@@ -160,10 +160,15 @@ auto client::handshake(std::chrono::milliseconds timeout) -> coro::task<connecti
         SSL_set_accept_state(tls);
     }
 
-    int r{0};
-    ERR_clear_error();
-    while ((r = SSL_connect(tls)) != 1)
+    while (true)
     {
+        ERR_clear_error();
+        int r = SSL_connect(tls);
+        if (r == 1)
+        {
+            break;
+        }
+
         poll_op op{poll_op::read_write};
         int     err = SSL_get_error(tls, r);
         if (err == SSL_ERROR_WANT_WRITE)
-- 
2.43.0


From cefa13b5e3f99129687a5ac569534bbec2a52e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:28 +0000
Subject: [PATCH 39/43] fix: tls recv and send retry once the direction they
 wait for is ready

---
 include/coro/net/tls/client.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/coro/net/tls/client.hpp b/include/coro/net/tls/client.hpp
index 8bca125..e4669e1 100644
--- a/include/coro/net/tls/client.hpp
+++ b/include/coro/net/tls/client.hpp
@@ -108,9 +108,9 @@ public:
             switch (pstatus)
             {
                 case poll_status::read:
-                    break;
                 case poll_status::write:
-                    continue;
+                    // Ready for what the last attempt asked for, try (again).
+                    break;
                 case poll_status::timeout:
                     co_return {recv_status::timeout, std::span<element_type>{}};
                 case poll_status::error:
@@ -204,9 +204,9 @@ public:
             switch (pstatus)
             {
                 case poll_status::write:
-                    break;
                 case poll_status::read:
-                    continue;
+                    // Ready for what the last attempt asked for, try (again).
+                    break;
                 case poll_status::timeout:
                     co_return {send_status::timeout, std::span<element_type>{}};
                 case poll_status::error:
-- 
2.43.0


From 6c48692e7a1769719f37ee26c9e7447f99ff69ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:28 +0000
Subject: [PATCH 40/43] fix: tls recv returns data already decrypted without
 waiting for the socket

---
 include/coro/net/tls/client.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/coro/net/tls/client.hpp b/include/coro/net/tls/client.hpp
index e4669e1..2ffe363 100644
--- a/include/coro/net/tls/client.hpp
+++ b/include/coro/net/tls/client.hpp
@@ -79,6 +79,17 @@ public:
 
         auto* tls = m_tls_info.m_tls_ptr.get();
 
+        // Data of an already received record is readable without the socket becoming readable again.
+        if (SSL_pending(tls) > 0)
+        {
+            size_t bytes_recv{0};
+            ERR_clear_error();
+            if (SSL_read_ex(tls, buffer.data(), buffer.size(), &bytes_recv) == 1)
+            {
+                co_return {recv_status::ok, std::span<element_type>{buffer.data(), bytes_recv}};
+            }
+        }
+
         auto op = poll_op::read;
 
         auto                                  first = true;
-- 
2.43.0


From 5ab7af9d5da01a39c1a3a629d366f4da9cef8af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:28 +0000
Subject: [PATCH 41/43] fix: tls::server::accept does not present a failed
 handshake as connected

---
 src/net/tls/server.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/net/tls/server.cpp b/src/net/tls/server.cpp
index 171b788..edcf67a 100644
--- a/src/net/tls/server.cpp
+++ b/src/net/tls/server.cpp
@@ -58,8 +58,8 @@ auto server::accept(std::chrono::milliseconds timeout) -> coro::task<coro::net::
 
     auto tls_client = tls::client{m_scheduler, m_tls_ctx, std::move(s), client_endpoint};
 
-    auto hstatus = co_await tls_client.handshake(timeout);
-    (void)hstatus; // user must check result.
+    // The user must check the result, connect() reports it.
+    tls_client.m_connect_status = co_await tls_client.handshake(timeout);
     co_return std::move(tls_client);
 };
 
-- 
2.43.0


From 8f5e8129efda260a5122ba74baa1ec8b6555c49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:28 +0000
Subject: [PATCH 42/43] fix: tls recv and send without a session report an
 error

---
 include/coro/net/tls/client.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/coro/net/tls/client.hpp b/include/coro/net/tls/client.hpp
index 2ffe363..b5f1043 100644
--- a/include/coro/net/tls/client.hpp
+++ b/include/coro/net/tls/client.hpp
@@ -78,6 +78,11 @@ public:
         }
 
         auto* tls = m_tls_info.m_tls_ptr.get();
+        if (tls == nullptr)
+        {
+            // There is no connection.
+            co_return {recv_status::error, std::span<element_type>{}};
+        }
 
         // Data of an already received record is readable without the socket becoming readable again.
         if (SSL_pending(tls) > 0)
@@ -185,6 +190,11 @@ public:
         }
 
         auto* tls = m_tls_info.m_tls_ptr.get();
+        if (tls == nullptr)
+        {
+            // There is no connection.
+            co_return {send_status::error, std::span<element_type>{}};
+        }
 
         auto op = poll_op::write;
 
-- 
2.43.0


From 8a356912eaaf13cf31dc7db326b089663d6fbdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:28 +0000
Subject: [PATCH 43/43] fix: tls shutdown waits when the session would block

---
 src/net/tls/client.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/net/tls/client.cpp b/src/net/tls/client.cpp
index 138107d..316f051 100644
--- a/src/net/tls/client.cpp
+++ b/src/net/tls/client.cpp
@@ -220,7 +220,7 @@ auto client::tls_shutdown_and_free(std::chrono::milliseconds timeout) -> coro::t
         {
             co_return;
         }
-        else if (r == 0) // shutdown in progress
+        else // shutdown in progress, would block (r < 0) or failed
         {
             coro::poll_op op{coro::poll_op::read_write};
             auto          err = SSL_get_error(tls_ptr, r);
@@ -250,10 +250,6 @@ auto client::tls_shutdown_and_free(std::chrono::milliseconds timeout) -> coro::t
                     break;
             }
         }
-        else // r < 0 error
-        {
-            co_return;
-        }
     }
 }
 
-- 
2.43.0

