From a681720320308402b0742661f3098ebd157394aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:11 +0000
Subject: [PATCH 01/59] fix: multi_consumer_event::set() must not report a
 resumed coroutine when none was waiting

---
 include/asyncpp/event.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/event.h b/include/asyncpp/event.h
index e6092e3..ed4e5bc 100644
--- a/include/asyncpp/event.h
+++ b/include/asyncpp/event.h
@@ -339,7 +339,7 @@ namespace asyncpp {
          */
 		bool set(dispatcher* resume_dispatcher = nullptr) noexcept {
 			auto state = m_state.exchange(this, std::memory_order::acq_rel);
-			if (state == this) return false;
+			if (state == this || state == nullptr) return false;
 			auto await = static_cast<awaiter*>(state);
 			while (await != nullptr) {
 				auto next = await->m_next;
-- 
2.43.0


From f2b5cb4eee7329450aa2a984b3b258ad038eddce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:36 +0000
Subject: [PATCH 02/59] fix: multi_consumer_auto_reset_event must acquire what
 the setter or waiter published

Consuming the signal and taking the list of waiters used release ordering only,
so the data written before set() was not visible to the coroutine it let through.
---
 include/asyncpp/event.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/asyncpp/event.h b/include/asyncpp/event.h
index ed4e5bc..dce6dcb 100644
--- a/include/asyncpp/event.h
+++ b/include/asyncpp/event.h
@@ -489,7 +489,7 @@ namespace asyncpp {
 				await = static_cast<awaiter*>(old_state);
 				// if the event had awaiters we update the state to "unset", if it was previously unset we transition to set
 				new_state = (old_state == nullptr) ? this : nullptr;
-			} while (!m_state.compare_exchange_weak(old_state, new_state, std::memory_order::release,
+			} while (!m_state.compare_exchange_weak(old_state, new_state, std::memory_order::acq_rel,
 													std::memory_order::acquire));
 
 			// Execute the awaiters (if any)
@@ -560,7 +560,7 @@ namespace asyncpp {
 				//       because in that case we just enter the main loop in await_suspend
 				// Returns true if the value was updated (i.e. old_state equalled m_parent and cas succeeded)
 				return m_parent->m_state.compare_exchange_weak( //
-					old_state, nullptr, std::memory_order::release, std::memory_order::acquire);
+					old_state, nullptr, std::memory_order::acq_rel, std::memory_order::acquire);
 			}
 			[[nodiscard]] bool await_suspend(coroutine_handle<> hdl) noexcept {
 				m_handle = hdl;
@@ -569,7 +569,7 @@ namespace asyncpp {
 					// If the event is set, reset it and resume the coroutine
 					if (old_state == m_parent) {
 						if (m_parent->m_state.compare_exchange_weak( //
-								old_state, nullptr, std::memory_order::release, std::memory_order::acquire))
+								old_state, nullptr, std::memory_order::acq_rel, std::memory_order::acquire))
 							return false;
 						// the state changed between load and compare (either because another coroutine was faster or the event was reset).
 						// Retry from the start
-- 
2.43.0


From e25527951d91544b28d8716e92379d5624b1670d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:11 +0000
Subject: [PATCH 03/59] fix: multi_consumer_auto_reset_event wait must not lose
 the signal or other waiters when its consuming exchange fails

---
 include/asyncpp/event.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/asyncpp/event.h b/include/asyncpp/event.h
index dce6dcb..e9a2c28 100644
--- a/include/asyncpp/event.h
+++ b/include/asyncpp/event.h
@@ -565,7 +565,7 @@ namespace asyncpp {
 			[[nodiscard]] bool await_suspend(coroutine_handle<> hdl) noexcept {
 				m_handle = hdl;
 				void* old_state = m_parent->m_state.load(std::memory_order::acquire);
-				do {
+				while (true) {
 					// If the event is set, reset it and resume the coroutine
 					if (old_state == m_parent) {
 						if (m_parent->m_state.compare_exchange_weak( //
@@ -577,9 +577,10 @@ namespace asyncpp {
 					}
 					// The event is unset, add the existing awaiter (if any) to the list and suspend the coroutine
 					m_next = static_cast<awaiter*>(old_state);
-				} while (!m_parent->m_state.compare_exchange_weak( //
-					old_state, this, std::memory_order::release, std::memory_order::acquire));
-				return true;
+					if (m_parent->m_state.compare_exchange_weak( //
+							old_state, this, std::memory_order::release, std::memory_order::acquire))
+						return true;
+				}
 			}
 			constexpr void await_resume() const noexcept {}
 
-- 
2.43.0


From f2f92c963e87f4b797341c8b218aa1c9915f6e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:02 +0000
Subject: [PATCH 04/59] fix: multi_consumer_auto_reset_event::set() must
 publish to the consumer even if the event is already set

---
 include/asyncpp/event.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/asyncpp/event.h b/include/asyncpp/event.h
index e9a2c28..d94588b 100644
--- a/include/asyncpp/event.h
+++ b/include/asyncpp/event.h
@@ -483,12 +483,12 @@ namespace asyncpp {
 			void* old_state = m_state.load(std::memory_order::acquire);
 			void* new_state;
 			do {
-				// If the state is already set we can just return
-				if (old_state == this) return false;
+				// If the state is already set it stays set, but we still need to write it: The loaded value might be outdated
+				// (i.e. the signal was already consumed) and our writes need to be visible to whoever consumes the signal.
 				// Otherwise store the state as an awaiter
-				await = static_cast<awaiter*>(old_state);
+				await = (old_state == this) ? nullptr : static_cast<awaiter*>(old_state);
 				// if the event had awaiters we update the state to "unset", if it was previously unset we transition to set
-				new_state = (old_state == nullptr) ? this : nullptr;
+				new_state = (await == nullptr) ? this : nullptr;
 			} while (!m_state.compare_exchange_weak(old_state, new_state, std::memory_order::acq_rel,
 													std::memory_order::acquire));
 
-- 
2.43.0


From 3df3aed4353b0f3a177eee3f614db77f5182391f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:17 +0000
Subject: [PATCH 05/59] fix: latch must open when the count reaches zero

---
 include/asyncpp/latch.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/latch.h b/include/asyncpp/latch.h
index 2099ddd..b8fe44e 100644
--- a/include/asyncpp/latch.h
+++ b/include/asyncpp/latch.h
@@ -39,7 +39,7 @@ namespace asyncpp {
          * \note It is undefined if the sum of all decrement calls exceeds the counter value.
          */
 		void decrement(std::size_t n = 1) noexcept {
-			if (m_count.fetch_sub(n, std::memory_order::acq_rel) == 0) { m_event.set(); }
+			if (m_count.fetch_sub(n, std::memory_order::acq_rel) == n) { m_event.set(); }
 		}
 
 		/**
-- 
2.43.0


From b496b14a23c01670e0af50bcb3aa5a9182cdd889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:59 +0000
Subject: [PATCH 06/59] fix: channel read must not suspend on a channel that is
 being closed

---
 include/asyncpp/channel.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asyncpp/channel.h b/include/asyncpp/channel.h
index 6757539..5ad37ab 100644
--- a/include/asyncpp/channel.h
+++ b/include/asyncpp/channel.h
@@ -229,6 +229,7 @@ namespace asyncpp {
 		m_handle = hndl;
 		m_next = nullptr;
 		std::unique_lock lck{m_parent->m_mtx};
+		if (m_parent->m_closed.load(std::memory_order::relaxed)) return false;
 		// Check if there is a writer waiting
 		if (auto wrt = m_parent->m_writer_list; wrt != nullptr) {
 			// Unhook writer
-- 
2.43.0


From 4f2142a1901ef55e65d1f08a0aa42b79b9abf429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:07 +0000
Subject: [PATCH 07/59] fix: channel write must report success if it delivered
 the value to a waiting reader

---
 include/asyncpp/channel.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asyncpp/channel.h b/include/asyncpp/channel.h
index 5ad37ab..f679f45 100644
--- a/include/asyncpp/channel.h
+++ b/include/asyncpp/channel.h
@@ -282,6 +282,7 @@ namespace asyncpp {
 			lck.unlock();
 			// Copy the value over
 			rdr->m_result = std::move(m_value);
+			m_result = true;
 			// Resume reader
 			if (rdr->m_dispatcher != nullptr)
 				rdr->m_dispatcher->push([rdr]() { rdr->m_handle.resume(); });
-- 
2.43.0


From d3e909fd668ab81b982069307d454ed8c2199b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:00 +0000
Subject: [PATCH 08/59] fix: thread_safe_refcount must acquire before the last
 owner deletes the object

---
 include/asyncpp/ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/ref.h b/include/asyncpp/ref.h
index 6ca7a8a..626606d 100644
--- a/include/asyncpp/ref.h
+++ b/include/asyncpp/ref.h
@@ -31,7 +31,7 @@ namespace asyncpp {
 		thread_safe_refcount& operator=(const thread_safe_refcount& other) = delete;
 
 		size_t fetch_increment() noexcept { return m_count.fetch_add(1, std::memory_order::acquire); }
-		[[nodiscard]] size_t fetch_decrement() noexcept { return m_count.fetch_sub(1, std::memory_order::release); }
+		[[nodiscard]] size_t fetch_decrement() noexcept { return m_count.fetch_sub(1, std::memory_order::acq_rel); }
 		[[nodiscard]] size_t count() const noexcept { return m_count.load(std::memory_order::relaxed); }
 	};
 	/**
-- 
2.43.0


From 14c4ec45c06421a56d0b277945ae489eeb13440b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:00 +0000
Subject: [PATCH 09/59] fix: ref must keep the new object alive while it is
 being reassigned

---
 include/asyncpp/ref.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/asyncpp/ref.h b/include/asyncpp/ref.h
index 626606d..3d8783b 100644
--- a/include/asyncpp/ref.h
+++ b/include/asyncpp/ref.h
@@ -169,8 +169,8 @@ namespace asyncpp {
 		/// \brief Move assignment operator
 		//NOLINTNEXTLINE(hicpp-noexcept-move,performance-noexcept-move-constructor)
 		ref& operator=(ref&& other) noexcept(noexcept(refcounted_remove_ref(std::declval<T*>()))) {
-			if (m_ptr) refcounted_remove_ref(m_ptr);
-			m_ptr = std::exchange(other.m_ptr, nullptr);
+			// Release the old pointer last, because other might be *this or owned by it
+			reset(other.release(), adopt_ref);
 			return *this;
 		}
 		/**
@@ -180,9 +180,9 @@ namespace asyncpp {
 		 */
 		void reset(T* ptr) noexcept(noexcept(refcounted_add_ref(std::declval<T*>())) &&
 									noexcept(refcounted_remove_ref(std::declval<T*>()))) {
-			if (m_ptr) refcounted_remove_ref(m_ptr);
-			m_ptr = ptr;
-			if (m_ptr) refcounted_add_ref(m_ptr);
+			// Release the old pointer last, because ptr might be identical to or owned by it
+			if (ptr) refcounted_add_ref(ptr);
+			reset(ptr, adopt_ref);
 		}
 		/**
 		 * \brief Reset the handle with a new value
@@ -190,8 +190,8 @@ namespace asyncpp {
 		 * \param adopt_ref the reference count is already incremented, keep it as is
 		 */
 		void reset(T* ptr, decltype(adopt_ref)) noexcept(noexcept(refcounted_remove_ref(std::declval<T*>()))) {
-			if (m_ptr) refcounted_remove_ref(m_ptr);
-			m_ptr = ptr;
+			auto old = std::exchange(m_ptr, ptr);
+			if (old) refcounted_remove_ref(old);
 		}
 		/**
 		 * \brief Reset the handle to nullptr
-- 
2.43.0


From 00edd25e239b1c47a1702178648c75b14b50db08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:56 +0000
Subject: [PATCH 10/59] fix: promise must stay pending if storing the value
 throws

---
 include/asyncpp/promise.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/promise.h b/include/asyncpp/promise.h
index 0360c71..910d60d 100644
--- a/include/asyncpp/promise.h
+++ b/include/asyncpp/promise.h
@@ -33,7 +33,13 @@ namespace asyncpp {
 			bool try_fulfill(auto&& value) {
 				std::unique_lock lck{m_mtx};
 				if (m_value.index() != pending_index) return false;
-				m_value.template emplace<fulfilled_index>(std::forward<decltype(value)>(value));
+				try {
+					m_value.template emplace<fulfilled_index>(std::forward<decltype(value)>(value));
+				} catch (...) {
+					// Stay pending if the value can not be stored
+					m_value.template emplace<pending_index>();
+					throw;
+				}
 				m_cv.notify_all();
 				auto settle_cbs = std::move(m_on_settle);
 				auto fulfill_cbs = std::move(m_on_fulfill);
-- 
2.43.0


From 141a97d724a7b2ddf3349c90e4766040334c8f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:52 +0000
Subject: [PATCH 11/59] fix: promise_first_successful must not be rejected
 while an argument is being fulfilled

---
 include/asyncpp/promise.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/asyncpp/promise.h b/include/asyncpp/promise.h
index 910d60d..fbcf173 100644
--- a/include/asyncpp/promise.h
+++ b/include/asyncpp/promise.h
@@ -500,10 +500,7 @@ namespace asyncpp {
 		promise<T> result_promise;
 		auto finished = std::make_shared<std::atomic<size_t>>(0);
 		(args.then(
-			 [result_promise, finished](const typename promise<TArgs>::result_type& res) mutable {
-				 finished->fetch_add(1);
-				 result_promise.try_fulfill(res);
-			 },
+			 [result_promise](const typename promise<TArgs>::result_type& res) mutable { result_promise.try_fulfill(res); },
 			 [result_promise, finished](const std::exception_ptr& exception) mutable {
 				 if (finished->fetch_add(1) + 1 == sizeof...(args)) result_promise.try_reject(exception);
 			 }),
-- 
2.43.0


From 80cbebaae4070181d5724454337d210727adfd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:48 +0000
Subject: [PATCH 12/59] fix: thread_pool must not hold its lock while
 destroying a finished task

---
 include/asyncpp/thread_pool.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/asyncpp/thread_pool.h b/include/asyncpp/thread_pool.h
index ea81125..a5fd932 100644
--- a/include/asyncpp/thread_pool.h
+++ b/include/asyncpp/thread_pool.h
@@ -144,6 +144,8 @@ namespace asyncpp {
 							queue.pop();
 							lck.unlock();
 							cbfn();
+							// Destroy the task without holding the lock, because it might push to us
+							cbfn = nullptr;
 							lck.lock();
 						}
 					}
-- 
2.43.0


From 9ab78ad3b9f43ec5c528374f83f455b0f608fc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:48 +0000
Subject: [PATCH 13/59] fix: thread_pool::push must not run tasks on a
 different pool if called from one

---
 include/asyncpp/thread_pool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/thread_pool.h b/include/asyncpp/thread_pool.h
index a5fd932..e1d08af 100644
--- a/include/asyncpp/thread_pool.h
+++ b/include/asyncpp/thread_pool.h
@@ -40,7 +40,7 @@ namespace asyncpp {
 		 */
 		void push(std::function<void()> cbfn) override {
 			if (!cbfn) return;
-			if (g_current_thread != nullptr) {
+			if (g_current_thread != nullptr && g_current_thread->pool == this) {
 				std::unique_lock lck{g_current_thread->mutex};
 				g_current_thread->queue.emplace(std::move(cbfn));
 			} else {
-- 
2.43.0


From b13656cfde7681d33ad7cc707cd6f38baa2f3df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:48 +0000
Subject: [PATCH 14/59] fix: thread_pool must run all accepted tasks while
 shrinking

---
 include/asyncpp/thread_pool.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/asyncpp/thread_pool.h b/include/asyncpp/thread_pool.h
index e1d08af..abb5204 100644
--- a/include/asyncpp/thread_pool.h
+++ b/include/asyncpp/thread_pool.h
@@ -62,8 +62,12 @@ namespace asyncpp {
 			std::unique_lock lck{m_resize_mtx};
 			auto old = m_target_size.load();
 			if (old > target_size) {
-				// Prevent new tasks from being scheduled on those threads
-				m_valid_size = target_size;
+				// Prevent new tasks from being scheduled on those threads. Taking the lock makes sure that everyone that
+				// still uses the old size is done before the threads are allowed to exit.
+				{
+					std::unique_lock threads_lck{m_threads_mtx};
+					m_valid_size = target_size;
+				}
 				m_target_size = target_size;
 				// Notify all and join threads, if the threads index is greater or equal to m_target_size,
 				// it will invoke its remaining tasks and exit.
@@ -160,14 +164,15 @@ namespace asyncpp {
 					}
 				}
 				std::unique_lock lck{mutex};
-				g_current_thread = nullptr;
 				while (!queue.empty()) {
-					auto& cbfn = queue.front();
+					auto cbfn = std::move(queue.front());
+					queue.pop();
 					lck.unlock();
 					cbfn();
+					cbfn = nullptr;
 					lck.lock();
-					queue.pop();
 				}
+				g_current_thread = nullptr;
 				dispatcher::current(nullptr);
 			}
 		};
-- 
2.43.0


From bf2f7b28b14170c36a840055c3413ab2def8eeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:05 +0000
Subject: [PATCH 15/59] fix: thread_pool must stay consistent if a thread can
 not be created

---
 include/asyncpp/thread_pool.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/asyncpp/thread_pool.h b/include/asyncpp/thread_pool.h
index abb5204..c578883 100644
--- a/include/asyncpp/thread_pool.h
+++ b/include/asyncpp/thread_pool.h
@@ -79,13 +79,25 @@ namespace asyncpp {
 				std::unique_lock lck{m_threads_mtx};
 				m_threads.resize(target_size);
 			} else if (old < target_size) {
-				m_target_size = target_size;
 				std::unique_lock threads_lck{m_threads_mtx};
 				m_threads.resize(target_size);
 				threads_lck.unlock();
+				m_target_size = target_size;
 				// We need some new threads, spawn them with the relevant indexes
-				for (size_t i = old; i < target_size; i++) {
-					m_threads[i] = std::make_unique<thread_state>(this, i);
+				try {
+					for (size_t i = old; i < target_size; i++) {
+						m_threads[i] = std::make_unique<thread_state>(this, i);
+					}
+				} catch (...) {
+					// Stop the threads we already started and go back to the old size
+					m_target_size = old;
+					for (size_t i = old; i < target_size && m_threads[i]; i++) {
+						m_threads[i]->cv.notify_all();
+						m_threads[i]->thread.join();
+					}
+					threads_lck.lock();
+					m_threads.resize(old);
+					throw;
 				}
 				// Allow pushing work to our new threads
 				m_valid_size = target_size;
-- 
2.43.0


From 28e6d363b772c144e205df43379b9a2aa392fa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:33 +0000
Subject: [PATCH 16/59] fix: timer must be the current dispatcher on its thread

---
 include/asyncpp/timer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asyncpp/timer.h b/include/asyncpp/timer.h
index 3724245..da6dd9d 100644
--- a/include/asyncpp/timer.h
+++ b/include/asyncpp/timer.h
@@ -292,6 +292,7 @@ namespace asyncpp {
 #ifdef __linux__
 			pthread_setname_np(pthread_self(), "asyncpp_timer");
 #endif
+			dispatcher::current(this);
 			while (true) {
 				std::unique_lock lck(m_mtx);
 				while (!m_pushed.empty()) {
-- 
2.43.0


From 5c56ef14de081d8a493c06a93715342df3dcd5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:08 +0000
Subject: [PATCH 17/59] fix: timer must not hold its lock while destroying an
 invoked callback

---
 include/asyncpp/timer.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/asyncpp/timer.h b/include/asyncpp/timer.h
index da6dd9d..e60fcc9 100644
--- a/include/asyncpp/timer.h
+++ b/include/asyncpp/timer.h
@@ -303,6 +303,8 @@ namespace asyncpp {
 						try {
 							entry();
 						} catch (...) { std::terminate(); }
+						// Destroying the callback might call back into the timer
+						entry = nullptr;
 						lck.lock();
 					}
 				}
@@ -316,6 +318,7 @@ namespace asyncpp {
 						try {
 							handle.value().invokable(true);
 						} catch (...) { std::terminate(); }
+						handle.value().invokable = nullptr;
 						lck.lock();
 					}
 				}
@@ -329,6 +332,7 @@ namespace asyncpp {
 						try {
 							handle.value().invokable(true);
 						} catch (...) { std::terminate(); }
+						handle.value().invokable = nullptr;
 						lck.lock();
 					}
 				}
-- 
2.43.0


From c992efb8236ab4d83fc4ac50d8d581bac7525b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:26 +0000
Subject: [PATCH 18/59] fix: timer must not lose entries added while it is
 being destroyed

---
 include/asyncpp/timer.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/asyncpp/timer.h b/include/asyncpp/timer.h
index e60fcc9..5067f5b 100644
--- a/include/asyncpp/timer.h
+++ b/include/asyncpp/timer.h
@@ -101,8 +101,8 @@ namespace asyncpp {
 		 * \param cbfn Callback to execute
 		 */
 		void push(std::function<void()> cbfn) override {
-			if (m_exit) throw std::logic_error("shutting down");
 			std::unique_lock lck(m_mtx);
+			if (m_exit) throw std::logic_error("shutting down");
 			m_pushed.emplace(std::move(cbfn));
 			m_cv.notify_all();
 		}
@@ -113,8 +113,8 @@ namespace asyncpp {
 		 * \param timeout The time_point at which the callback should get executed
 		 */
 		void schedule(std::function<void(bool)> cbfn, std::chrono::steady_clock::time_point timeout) {
-			if (m_exit) throw std::logic_error("shutting down");
 			std::unique_lock lck(m_mtx);
+			if (m_exit) throw std::logic_error("shutting down");
 			m_scheduled_set.emplace(timeout, std::move(cbfn));
 			m_cv.notify_all();
 		}
@@ -144,8 +144,8 @@ namespace asyncpp {
 		 */
 		void schedule(std::function<void(bool)> cbfn, std::chrono::steady_clock::time_point timeout,
 					  asyncpp::stop_token stoken) {
-			if (m_exit) throw std::logic_error("shutting down");
 			std::unique_lock lck(m_mtx);
+			if (m_exit) throw std::logic_error("shutting down");
 			auto iter = m_scheduled_cancellable_set.emplace(timeout, std::move(cbfn));
 			iter->cancel_token.emplace(std::move(stoken), cancellable_scheduled_entry::cancel_callback{this, iter});
 			iter->in_construction = false;
@@ -364,9 +364,6 @@ namespace asyncpp {
 					} catch (...) { std::terminate(); }
 				}
 			}
-			lck.lock();
-			m_scheduled_set.clear();
-			m_scheduled_cancellable_set.clear();
 		}
 	};
 
-- 
2.43.0


From 912d8f5da8eceebc79bc43853e9c76fd589bd062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:03 +0000
Subject: [PATCH 19/59] fix: timer must run scheduled entries even if callbacks
 keep pushing

---
 include/asyncpp/timer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/timer.h b/include/asyncpp/timer.h
index 5067f5b..a397eb2 100644
--- a/include/asyncpp/timer.h
+++ b/include/asyncpp/timer.h
@@ -295,7 +295,8 @@ namespace asyncpp {
 			dispatcher::current(this);
 			while (true) {
 				std::unique_lock lck(m_mtx);
-				while (!m_pushed.empty()) {
+				// Callbacks might push again, limit this to the ones already there to not delay the scheduled entries
+				for (auto remaining = m_pushed.size(); remaining > 0; remaining--) {
 					auto entry = std::move(m_pushed.front());
 					m_pushed.pop();
 					if (entry) {
-- 
2.43.0


From 4c96f889d96c516c15eab8ec9cacdeb5ff339558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:30 +0000
Subject: [PATCH 20/59] fix: timer must not deadlock, lose or corrupt entries
 on cancellation

---
 include/asyncpp/timer.h | 110 +++++++++++++++++++++-------------------
 1 file changed, 58 insertions(+), 52 deletions(-)

diff --git a/include/asyncpp/timer.h b/include/asyncpp/timer.h
index a397eb2..dfd84ca 100644
--- a/include/asyncpp/timer.h
+++ b/include/asyncpp/timer.h
@@ -33,44 +33,34 @@ namespace asyncpp {
 			};
 		};
 		struct cancellable_scheduled_entry : public scheduled_entry {
+			using set_type = std::multiset<cancellable_scheduled_entry, scheduled_entry::time_less>;
 			/// \brief Callback type used with stop_tokens
 			struct cancel_callback {
 				/// \brief Pointer to the timer containing this node
 				timer* parent;
-				/// \brief Iterator to this node in the entry set
-				std::multiset<cancellable_scheduled_entry, scheduled_entry::time_less>::const_iterator it;
+				/// \brief The cancelled entry
+				const cancellable_scheduled_entry* entry;
 				/// \brief Invocation operator called on cancellation
 				void operator()() const {
-					// We have to distinguish between cancellation while in the process of construction and
-					// cancellation afterwards. If the stop_token is signalled at the time of construction it directly
-					// invokes the callback, however if we would lock at that point we would cause a deadlock with the
-					// outside lock in schedule(). We also can't directly delete the node in this case because
-					// std::optional<>::emplace tries to set a flag after construction which would cause use after free.
-					// Thus we set a flag in schedule() and postpone both the invoke and deletion until after emplace is done.
-					// If we are not in construction we need to lock and can directly destroy the node once we are done.
-					if (it->in_construction) {
-						auto entry =
-							new std::multiset<cancellable_scheduled_entry, scheduled_entry::time_less>::node_type(
-								parent->m_scheduled_cancellable_set.extract(it));
-						if (entry->value().invokable) {
-							parent->m_pushed.emplace([entry]() {
-								entry->value().invokable(false);
-								delete entry;
-							});
-						}
-					} else {
-						std::unique_lock lck{parent->m_mtx};
-						auto entry = parent->m_scheduled_cancellable_set.extract(it);
-						lck.unlock();
-						if (entry.value().invokable) {
-							parent->m_pushed.emplace([cbfn = std::move(entry.value().invokable)]() { cbfn(false); });
-							parent->m_cv.notify_all();
-						}
-					}
+					// The entry can not go away while we are running because it contains the stop_callback and the
+					// destructor of the stop_callback waits for us. We only hand it over to the timer thread, because
+					// destroying it here would destroy the stop_callback from within its own callback.
+					std::unique_lock lck{parent->m_mtx};
+					entry->cancelled = true;
+					// Either schedule() did not insert it yet and is going to check the flag or it expired already.
+					if (!entry->scheduled) return;
+					entry->scheduled = false;
+					parent->m_cancelled_set.insert(parent->m_scheduled_cancellable_set.extract(entry->it));
+					parent->m_cv.notify_all();
 				}
 			};
+			/// \brief Iterator to this node in the entry set, valid if scheduled is true
+			mutable set_type::const_iterator it{};
+			/// \brief Set while the entry is inside m_scheduled_cancellable_set
+			mutable bool scheduled{false};
+			/// \brief Set once cancellation was requested
+			mutable bool cancelled{false};
 			mutable std::optional<asyncpp::stop_callback<cancel_callback>> cancel_token;
-			mutable bool in_construction{true};
 
 			cancellable_scheduled_entry(std::chrono::steady_clock::time_point time,
 										std::function<void(bool)> cbfn) noexcept
@@ -92,6 +82,7 @@ namespace asyncpp {
 			assert(m_pushed.empty());
 			assert(m_scheduled_set.empty());
 			assert(m_scheduled_cancellable_set.empty());
+			assert(m_cancelled_set.empty());
 		}
 		timer(const timer&) = delete;
 		timer& operator=(const timer&) = delete;
@@ -144,11 +135,20 @@ namespace asyncpp {
 		 */
 		void schedule(std::function<void(bool)> cbfn, std::chrono::steady_clock::time_point timeout,
 					  asyncpp::stop_token stoken) {
+			// The callback locks the mutex and might get invoked right away, so it needs to be registered unlocked.
+			// The entry is only visible to the callback until it is complete.
+			cancellable_scheduled_entry::set_type pending;
+			auto iter = pending.emplace(timeout, std::move(cbfn));
+			iter->cancel_token.emplace(std::move(stoken), cancellable_scheduled_entry::cancel_callback{this, &*iter});
 			std::unique_lock lck(m_mtx);
 			if (m_exit) throw std::logic_error("shutting down");
-			auto iter = m_scheduled_cancellable_set.emplace(timeout, std::move(cbfn));
-			iter->cancel_token.emplace(std::move(stoken), cancellable_scheduled_entry::cancel_callback{this, iter});
-			iter->in_construction = false;
+			if (iter->cancelled) {
+				m_cancelled_set.insert(pending.extract(iter));
+			} else {
+				iter = m_scheduled_cancellable_set.insert(pending.extract(iter));
+				iter->it = iter;
+				iter->scheduled = true;
+			}
 			m_cv.notify_all();
 		}
 		/**
@@ -284,7 +284,9 @@ namespace asyncpp {
 		std::condition_variable m_cv{};
 		std::queue<std::function<void()>> m_pushed{};
 		std::multiset<scheduled_entry, scheduled_entry::time_less> m_scheduled_set{};
-		std::multiset<cancellable_scheduled_entry, scheduled_entry::time_less> m_scheduled_cancellable_set{};
+		cancellable_scheduled_entry::set_type m_scheduled_cancellable_set{};
+		/// \brief Cancelled entries waiting to be invoked by the timer thread
+		cancellable_scheduled_entry::set_type m_cancelled_set{};
 		std::atomic<bool> m_exit{};
 		std::thread m_thread{};
 
@@ -326,30 +328,30 @@ namespace asyncpp {
 				while (!m_scheduled_cancellable_set.empty()) {
 					auto elem = m_scheduled_cancellable_set.begin();
 					if (elem->timepoint > now) break;
-					auto handle = m_scheduled_cancellable_set.extract(elem);
-					if (handle.value().invokable) {
-						handle.value().cancel_token.reset();
-						lck.unlock();
-						try {
-							handle.value().invokable(true);
-						} catch (...) { std::terminate(); }
-						handle.value().invokable = nullptr;
-						lck.lock();
-					}
+					elem->scheduled = false;
+					invoke_cancellable(lck, m_scheduled_cancellable_set.extract(elem), true);
 				}
+				for (auto remaining = m_cancelled_set.size(); remaining > 0; remaining--)
+					invoke_cancellable(lck, m_cancelled_set.extract(m_cancelled_set.begin()), false);
 				now = std::chrono::steady_clock::now();
 				std::chrono::nanoseconds timeout{500 * 1000 * 1000};
 				if (!m_scheduled_set.empty()) timeout = (std::min)(m_scheduled_set.begin()->timepoint - now, timeout);
 				if (!m_scheduled_cancellable_set.empty())
 					timeout = (std::min)(m_scheduled_cancellable_set.begin()->timepoint - now, timeout);
-				if (m_pushed.empty() && timeout.count() > 0) {
+				if (m_pushed.empty() && m_cancelled_set.empty() && timeout.count() > 0) {
 					if (m_exit) break;
 					m_cv.wait_for(lck, timeout);
 				}
 			}
 			std::unique_lock lck(m_mtx);
 			auto set = std::move(m_scheduled_set);
-			auto cset = std::move(m_scheduled_cancellable_set);
+			while (!m_scheduled_cancellable_set.empty()) {
+				auto elem = m_scheduled_cancellable_set.begin();
+				elem->scheduled = false;
+				invoke_cancellable(lck, m_scheduled_cancellable_set.extract(elem), false);
+			}
+			while (!m_cancelled_set.empty())
+				invoke_cancellable(lck, m_cancelled_set.extract(m_cancelled_set.begin()), false);
 			lck.unlock();
 			for (const auto& entry : set) {
 				if (entry.invokable) {
@@ -358,13 +360,17 @@ namespace asyncpp {
 					} catch (...) { std::terminate(); }
 				}
 			}
-			for (const auto& entry : cset) {
-				if (entry.invokable) {
-					try {
-						entry.invokable(false);
-					} catch (...) { std::terminate(); }
-				}
-			}
+		}
+
+		/// \brief Invoke and destroy an entry that was removed from its set without holding the lock.
+		void invoke_cancellable(std::unique_lock<std::mutex>& lck, cancellable_scheduled_entry::set_type::node_type handle,
+								bool res) noexcept {
+			lck.unlock();
+			// Waits for a running cancel_callback, which needs the lock
+			handle.value().cancel_token.reset();
+			if (handle.value().invokable) handle.value().invokable(res);
+			handle = {};
+			lck.lock();
 		}
 	};
 
-- 
2.43.0


From fb7d7133f2f9610eee554d5652c6820a84da347e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:36 +0000
Subject: [PATCH 21/59] fix: simple_dispatcher::run() must not miss a
 concurrent stop()

---
 include/asyncpp/simple_dispatcher.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/simple_dispatcher.h b/include/asyncpp/simple_dispatcher.h
index 9f51937..0c67cbc 100644
--- a/include/asyncpp/simple_dispatcher.h
+++ b/include/asyncpp/simple_dispatcher.h
@@ -43,8 +43,10 @@ namespace asyncpp {
          */
 		void run() {
 			dispatcher* const old_dispatcher = dispatcher::current(this);
-			while (!m_done) {
+			while (true) {
 				std::unique_lock lck{m_mtx};
+				// Needs to be checked with the lock held to not miss a stop() right before waiting
+				if (m_done) break;
 				if (m_queue.empty()) {
 					m_cv.wait(lck);
 					continue;
-- 
2.43.0


From 1e8fc45370b798d83c7a6cbf1475f5978a6fbcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:37 +0000
Subject: [PATCH 22/59] fix: simple_dispatcher::run() must restore the current
 dispatcher if a task throws

---
 include/asyncpp/simple_dispatcher.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/simple_dispatcher.h b/include/asyncpp/simple_dispatcher.h
index 0c67cbc..031cc38 100644
--- a/include/asyncpp/simple_dispatcher.h
+++ b/include/asyncpp/simple_dispatcher.h
@@ -1,5 +1,6 @@
 #pragma once
 #include <asyncpp/dispatcher.h>
+#include <asyncpp/scope_guard.h>
 
 #include <atomic>
 #include <condition_variable>
@@ -43,6 +44,8 @@ namespace asyncpp {
          */
 		void run() {
 			dispatcher* const old_dispatcher = dispatcher::current(this);
+			// Restore it even if a task throws
+			scope_guard guard{[old_dispatcher]() noexcept { dispatcher::current(old_dispatcher); }};
 			while (true) {
 				std::unique_lock lck{m_mtx};
 				// Needs to be checked with the lock held to not miss a stop() right before waiting
@@ -56,7 +59,6 @@ namespace asyncpp {
 				lck.unlock();
 				if (cbfn) cbfn();
 			}
-			dispatcher::current(old_dispatcher);
 		}
 	};
 } // namespace asyncpp
-- 
2.43.0


From 311302801aba85101f7d7ba632eaa404d68b411a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:37 +0000
Subject: [PATCH 23/59] fix: fire_and_forget_task must be suspended before it
 drops its reference

---
 include/asyncpp/fire_and_forget.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/asyncpp/fire_and_forget.h b/include/asyncpp/fire_and_forget.h
index fd93659..ce6d1b7 100644
--- a/include/asyncpp/fire_and_forget.h
+++ b/include/asyncpp/fire_and_forget.h
@@ -44,10 +44,12 @@ namespace asyncpp {
 				auto final_suspend() noexcept {
 					struct awaiter {
 						promise_type* self;
-						[[nodiscard]] constexpr bool await_ready() const noexcept {
-							return self->m_ref_count.fetch_sub(1) == 1;
+						[[nodiscard]] constexpr bool await_ready() const noexcept { return false; }
+						// The last handle might destroy the coroutine right after we dropped our reference,
+						// so this can only happen once it is suspended.
+						[[nodiscard]] bool await_suspend(coroutine_handle<>) const noexcept {
+							return self->m_ref_count.fetch_sub(1) != 1;
 						}
-						void await_suspend(coroutine_handle<>) const noexcept {}
 						constexpr void await_resume() const noexcept {}
 					};
 					return awaiter{this};
-- 
2.43.0


From 09bdbb59de29a8591c26f25f1cbaee0ef7e56630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:45 +0000
Subject: [PATCH 24/59] fix: async_launch_scope does not touch the scope or
 awaiter once the other side may have destroyed it

A task finishing as the last one and a join() suspending at the same time
used two separate atomics: the joiner could be resumed although the count
was reread after it registered, the scope could be destroyed between the
decrement and the exchange of the continuation, and a join that found
nothing left to wait for remained registered.
---
 include/asyncpp/launch.h | 71 +++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 34 deletions(-)

diff --git a/include/asyncpp/launch.h b/include/asyncpp/launch.h
index 5cc02b2..b4fe125 100644
--- a/include/asyncpp/launch.h
+++ b/include/asyncpp/launch.h
@@ -49,9 +49,28 @@ namespace asyncpp {
 	 * \brief Holder class for spawning child tasks. Allows waiting for all of them to finish.
 	 */
 	class async_launch_scope {
+		// Set in m_count while a coroutine is suspended in join(), the bits above count the unfinished tasks
+		static constexpr size_t joining_flag = 1U;
+		static constexpr size_t one_task = 2U;
+
 		std::atomic<size_t> m_count{0U};
 		std::atomic<void*> m_continuation{nullptr};
 
+		void task_started() noexcept { m_count.fetch_add(one_task); }
+		void task_finished() noexcept {
+			auto count = m_count.load();
+			size_t remaining{};
+			do {
+				// If this is the last task it also takes over responsibility for the awaiter
+				remaining = count - one_task;
+				if (remaining == joining_flag) remaining = 0;
+			} while (!m_count.compare_exchange_weak(count, remaining));
+			// Unless there is an awaiter left to resume the scope might already be gone
+			if (count != (one_task | joining_flag)) return;
+			auto hdl = m_continuation.exchange(nullptr);
+			coroutine_handle<>::from_address(hdl).resume();
+		}
+
 	public:
 		constexpr async_launch_scope() noexcept = default;
 		async_launch_scope(const async_launch_scope&) = delete;
@@ -67,16 +86,8 @@ namespace asyncpp {
 		void launch(Awaitable&& awaitable, const Allocator& allocator = {}) {
 			[](async_launch_scope* scope, std::decay_t<Awaitable> awaitable,
 			   const Allocator&) -> detail::launch_task<Allocator> {
-				scope->m_count.fetch_add(1);
-				scope_guard guard{[scope]() noexcept {
-					// If this is the last task
-					if (scope->m_count.fetch_sub(1) == 1) {
-						// And we are being awaited
-						auto hdl = scope->m_continuation.exchange(nullptr);
-						// Resume the awaiter
-						if (hdl != nullptr) coroutine_handle<>::from_address(hdl).resume();
-					}
-				}};
+				scope->task_started();
+				scope_guard guard{[scope]() noexcept { scope->task_finished(); }};
 				co_await awaitable;
 			}(this, std::forward<decltype(awaitable)>(awaitable), allocator);
 		}
@@ -93,16 +104,8 @@ namespace asyncpp {
 		void invoke_tuple(Callable&& callable, std::tuple<Args...>&& args, const Allocator& allocator = {}) {
 			[](async_launch_scope* scope, Callable callable, std::tuple<Args...>&& args,
 			   const Allocator&) -> detail::launch_task<Allocator> {
-				scope->m_count.fetch_add(1);
-				scope_guard guard{[scope]() noexcept {
-					// If this is the last task
-					if (scope->m_count.fetch_sub(1) == 1) {
-						// And we are being awaited
-						auto hdl = scope->m_continuation.exchange(nullptr);
-						// Resume the awaiter
-						if (hdl != nullptr) coroutine_handle<>::from_address(hdl).resume();
-					}
-				}};
+				scope->task_started();
+				scope_guard guard{[scope]() noexcept { scope->task_finished(); }};
 				co_await std::apply(callable, std::move(args));
 			}(this, std::forward<Callable>(callable), std::move(args), allocator);
 		}
@@ -118,16 +121,8 @@ namespace asyncpp {
 			requires(std::is_invocable_v<Callable, Args...>)
 		void invoke(Callable&& callable, Args&&... args) {
 			[](async_launch_scope* scope, Callable callable, Args&&... args) -> detail::launch_task<> {
-				scope->m_count.fetch_add(1);
-				scope_guard guard{[scope]() noexcept {
-					// If this is the last task
-					if (scope->m_count.fetch_sub(1) == 1) {
-						// And we are being awaited
-						auto hdl = scope->m_continuation.exchange(nullptr);
-						// Resume the awaiter
-						if (hdl != nullptr) coroutine_handle<>::from_address(hdl).resume();
-					}
-				}};
+				scope->task_started();
+				scope_guard guard{[scope]() noexcept { scope->task_finished(); }};
 				co_await std::invoke(callable, std::forward<Args>(args)...);
 			}(this, std::forward<Callable>(callable), std::forward<Args>(args)...);
 		}
@@ -141,15 +136,23 @@ namespace asyncpp {
 				async_launch_scope* m_scope;
 				[[nodiscard]] bool await_ready() const noexcept {
 					// Dont wait if theres nothing to await
-					return m_scope->m_count.load() == 0;
+					return m_scope->m_count.load() / one_task == 0;
 				}
 				[[nodiscard]] bool await_suspend(coroutine_handle<> hdl) const {
 					// Set our coroutine if there is noone waiting
 					void* expected = nullptr;
 					if (!m_scope->m_continuation.compare_exchange_strong(expected, hdl.address()))
 						throw std::logic_error("duplicate join");
-					// We might have nothing left to wait on if the last coroutine finished in the meantime
-					return m_scope->m_count.load() != 0;
+					auto count = m_scope->m_count.load();
+					do {
+						// We might have nothing left to wait on if the last coroutine finished in the meantime
+						if (count / one_task == 0) {
+							m_scope->m_continuation.store(nullptr);
+							return false;
+						}
+						// Once the flag is set we might get resumed (and destroyed) at any time
+					} while (!m_scope->m_count.compare_exchange_weak(count, count | joining_flag));
+					return true;
 				}
 				constexpr void await_resume() const noexcept {}
 			};
@@ -178,7 +181,7 @@ namespace asyncpp {
 		 * \brief Returns the number of active task on this scope
 		 * \warning Only use this value for informational purposes, it might change at any time.
 		 */
-		[[nodiscard]] size_t inflight_coroutines() const noexcept { return m_count.load(std::memory_order::relaxed); }
+		[[nodiscard]] size_t inflight_coroutines() const noexcept { return m_count.load(std::memory_order::relaxed) / one_task; }
 
 		/**
 		 * \brief Returns true if there is no active task currently running on this scope
-- 
2.43.0


From c4fe6394c293bda1b6d31ee94d05b6c86833f9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:59 +0000
Subject: [PATCH 25/59] fix: async_launch_scope::invoke copies lvalue callables
 into the task

The callable was deduced as a reference for lvalues, so the task kept using
the caller's object instead of the documented copy.
---
 include/asyncpp/launch.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/launch.h b/include/asyncpp/launch.h
index b4fe125..df45a13 100644
--- a/include/asyncpp/launch.h
+++ b/include/asyncpp/launch.h
@@ -102,7 +102,7 @@ namespace asyncpp {
 		template<typename Callable, typename... Args, ByteAllocator Allocator = default_allocator_type>
 			requires(std::is_invocable_v<Callable, Args...>)
 		void invoke_tuple(Callable&& callable, std::tuple<Args...>&& args, const Allocator& allocator = {}) {
-			[](async_launch_scope* scope, Callable callable, std::tuple<Args...>&& args,
+			[](async_launch_scope* scope, std::decay_t<Callable> callable, std::tuple<Args...>&& args,
 			   const Allocator&) -> detail::launch_task<Allocator> {
 				scope->task_started();
 				scope_guard guard{[scope]() noexcept { scope->task_finished(); }};
@@ -120,7 +120,7 @@ namespace asyncpp {
 		template<typename Callable, typename... Args>
 			requires(std::is_invocable_v<Callable, Args...>)
 		void invoke(Callable&& callable, Args&&... args) {
-			[](async_launch_scope* scope, Callable callable, Args&&... args) -> detail::launch_task<> {
+			[](async_launch_scope* scope, std::decay_t<Callable> callable, Args&&... args) -> detail::launch_task<> {
 				scope->task_started();
 				scope_guard guard{[scope]() noexcept { scope->task_finished(); }};
 				co_await std::invoke(callable, std::forward<Args>(args)...);
-- 
2.43.0


From fff996dcab5ddd326691f5970a8ab8bf94fe2ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:59 +0000
Subject: [PATCH 26/59] fix: exception_policy::ignore does not terminate

It was an empty handler, which the tasks treat like no policy at all.
---
 include/asyncpp/policy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/policy.h b/include/asyncpp/policy.h
index 74d4519..7d7da04 100644
--- a/include/asyncpp/policy.h
+++ b/include/asyncpp/policy.h
@@ -25,5 +25,5 @@ namespace asyncpp {
 		static exception_policy handle(std::function<void()> cbfn) { return exception_policy{std::move(cbfn)}; }
 	};
 	inline const exception_policy exception_policy::terminate = {[]() { std::terminate(); }};
-	inline const exception_policy exception_policy::ignore = {};
+	inline const exception_policy exception_policy::ignore = {[]() {}};
 } // namespace asyncpp
-- 
2.43.0


From 75459a3654153d493904f0abec2db2973ef5c910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:16 +0000
Subject: [PATCH 27/59] fix: fire_and_forget_task is started only once through
 all of its copies

start() on a second copy resumed the coroutine while it was running on
another thread or suspended at some co_await.
---
 include/asyncpp/fire_and_forget.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/asyncpp/fire_and_forget.h b/include/asyncpp/fire_and_forget.h
index ce6d1b7..46bc2ef 100644
--- a/include/asyncpp/fire_and_forget.h
+++ b/include/asyncpp/fire_and_forget.h
@@ -23,6 +23,7 @@ namespace asyncpp {
 			// Promise type of this task
 			class promise_type : public promise_allocator_base<Allocator> {
 				std::atomic<size_t> m_ref_count{1};
+				std::atomic<bool> m_started{Eager};
 				std::function<void()> m_exception_handler{};
 
 			public:
@@ -75,6 +76,7 @@ namespace asyncpp {
 					if (m_ref_count.fetch_sub(1) == 1) coroutine_handle<promise_type>::from_promise(*this).destroy();
 				}
 				void ref() noexcept { m_ref_count.fetch_add(1); }
+				[[nodiscard]] bool try_start() noexcept { return !m_started.exchange(true); }
 			};
 
 			/// \brief Construct from a handle
@@ -112,11 +114,11 @@ namespace asyncpp {
 			void start() noexcept
 				requires(!Eager)
 			{
-				if (m_coro && !m_coro.done()) {
-					m_coro.resume();
-					// Make sure it is only started once
-					m_coro.promise().unref();
-					m_coro = nullptr;
+				// The coroutine might destroy this handle once it runs
+				if (auto coro = std::exchange(m_coro, {}); coro) {
+					// Make sure it is only started once, copies of this handle might be used to start it as well
+					if (coro.promise().try_start()) coro.resume();
+					coro.promise().unref();
 				}
 			}
 
-- 
2.43.0


From b47690c063f19ceb5091d2158fd1aa183e7f2588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:48 +0000
Subject: [PATCH 28/59] fix: coroutine frames from stateful allocators are
 properly aligned

The allocator is stored in front of the frame, which shifted it by the
size of the allocator, and the memory was only requested with the
alignment of std::byte.
---
 .../asyncpp/detail/promise_allocator_base.h   | 34 +++++++++++++++----
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/include/asyncpp/detail/promise_allocator_base.h b/include/asyncpp/detail/promise_allocator_base.h
index 66939c0..08f645f 100644
--- a/include/asyncpp/detail/promise_allocator_base.h
+++ b/include/asyncpp/detail/promise_allocator_base.h
@@ -2,7 +2,11 @@
 #include <asyncpp/detail/concepts.h>
 #include <asyncpp/detail/parameter_pack.h>
 #include <asyncpp/detail/std_import.h>
+#include <cstddef>
+#include <memory>
+#include <new>
 #include <type_traits>
+#include <utility>
 
 namespace asyncpp {
 #ifndef ASYNCPP_DEFAULT_ALLOCATOR
@@ -18,6 +22,18 @@ namespace asyncpp::detail {
 	public:
 		using allocator_type = Allocator;
 
+	private:
+		// Stored right in front of the coroutine frame if the allocator has state
+		struct header {
+			allocator_type alloc;
+			std::byte* block;
+		};
+		static constexpr size_t frame_align =
+			alignof(header) > __STDCPP_DEFAULT_NEW_ALIGNMENT__ ? alignof(header) : __STDCPP_DEFAULT_NEW_ALIGNMENT__;
+		// The allocator only provides memory aligned for std::byte
+		static constexpr size_t header_size = sizeof(header) + frame_align - 1;
+
+	public:
 		template<typename... Args>
 		void* operator new(size_t size, Args&&... args) {
 			if constexpr (std::allocator_traits<allocator_type>::is_always_equal::value) {
@@ -29,9 +45,12 @@ namespace asyncpp::detail {
 				static_assert(std::is_convertible_v<std::remove_cvref_t<decltype(alloc)>&, allocator_type> ||
 								  std::is_constructible_v<allocator_type, decltype(alloc)>,
 							  "last argument is not of allocator type");
-				auto ptr = std::allocator_traits<allocator_type>::allocate(alloc, size + sizeof(allocator_type));
-				auto aptr = new (ptr) allocator_type{std::move(alloc)};
-				return aptr + 1;
+				std::byte* block = std::allocator_traits<allocator_type>::allocate(alloc, size + header_size);
+				void* frame = block + sizeof(header);
+				size_t space = size + frame_align - 1;
+				frame = std::align(frame_align, size, frame, space);
+				new (static_cast<header*>(frame) - 1) header{std::move(alloc), block};
+				return frame;
 			}
 		}
 		void operator delete(void* ptr, size_t size) {
@@ -40,10 +59,11 @@ namespace asyncpp::detail {
 				allocator_type alloc{};
 				std::allocator_traits<allocator_type>::deallocate(alloc, static_cast<std::byte*>(ptr), size);
 			} else {
-				allocator_type* info = static_cast<allocator_type*>(ptr) - 1;
-				auto alloc = std::move(*info);
-				std::allocator_traits<allocator_type>::deallocate(
-					alloc, static_cast<std::byte*>(static_cast<void*>(info)), size + sizeof(Allocator));
+				header* info = static_cast<header*>(ptr) - 1;
+				auto alloc = std::move(info->alloc);
+				auto block = info->block;
+				info->~header();
+				std::allocator_traits<allocator_type>::deallocate(alloc, block, size + header_size);
 			}
 		}
 	};
-- 
2.43.0


From 43f55600dfc8469cf0136b827a442d092df9fd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:46 +0000
Subject: [PATCH 29/59] fix: awaiting a fiber rvalue moves the result

operator co_await() && called the lvalue overload of await(), which copies
the result and does not compile for types that can only be moved.
---
 include/asyncpp/fiber.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index 5e84505..5df6eff 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -1082,7 +1082,7 @@ namespace asyncpp {
 		 * \brief Get an awaitable for this fiber.
 		 * \return auto An awaiter that is resumed once the fiber finishes
 		 */
-		auto operator co_await() && { return await(); }
+		auto operator co_await() && { return std::move(*this).await(); }
 	};
 
 	template<typename FN>
-- 
2.43.0


From af41dc63b06d33ca345222f5b30f0eb132f81f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:09 +0000
Subject: [PATCH 30/59] fix: fibers start with a usable floating point
 environment

The initial MXCSR and x87 control word were zero, so the first inexact
floating point operation inside of a fiber raised SIGFPE.
---
 include/asyncpp/fiber.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index 5df6eff..70e841b 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -155,6 +155,11 @@ namespace asyncpp::detail {
 		auto frame = reinterpret_cast<stack_frame*>(sp);
 		frame->ret_addr = reinterpret_cast<uintptr_t>(entry_fn);
 		frame->param = reinterpret_cast<uintptr_t>(arg);
+		// Start with the floating point environment of the creator, all zeros would unmask every floating point exception
+		//NOLINTNEXTLINE(hicpp-no-assembler)
+		asm volatile("stmxcsr %0" : "=m"(frame->mmx_cw));
+		//NOLINTNEXTLINE(hicpp-no-assembler)
+		asm volatile("fnstcw %0" : "=m"(frame->x87_cw));
 		assert((reinterpret_cast<uintptr_t>(sp) % 16) == 0xc);
 #elif defined(__x86_64__)
 		// The restore code adds 72 byte and ret another 8. Since we want
@@ -183,6 +188,11 @@ namespace asyncpp::detail {
 		auto frame = reinterpret_cast<stack_frame*>(sp);
 		frame->ret_addr = reinterpret_cast<uintptr_t>(entry_fn);
 		frame->param = reinterpret_cast<uintptr_t>(arg);
+		// Start with the floating point environment of the creator, all zeros would unmask every floating point exception
+		//NOLINTNEXTLINE(hicpp-no-assembler)
+		asm volatile("stmxcsr %0" : "=m"(frame->mmx_cw));
+		//NOLINTNEXTLINE(hicpp-no-assembler)
+		asm volatile("fnstcw %0" : "=m"(frame->x87_cw));
 #elif defined(__arm__)
 		// Stack needs to be 64bit aligned for vstmia
 		sp -= 16;
-- 
2.43.0


From fd739fbd320a932e13daf12e1916c009b15edd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:40 +0000
Subject: [PATCH 31/59] fix: fibers are not touched after they got suspended

resume() looked at the fiber after await_suspend() returned, even though
it could be resumed, finished and destroyed on another thread by then. If
it was only finished its awaiter got resumed twice.
---
 include/asyncpp/fiber.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index 70e841b..d6e1bbf 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -764,12 +764,16 @@ namespace asyncpp::detail {
 					auto handler = std::exchange(hndl->suspend_handler, nullptr);
 					auto ptr = std::exchange(hndl->suspend_handler_ptr, nullptr);
 					try {
-						if (handler(ptr, coroutine_handle<>::from_address(static_cast<void*>(hndl)))) break;
+						if (handler(ptr, coroutine_handle<>::from_address(static_cast<void*>(hndl)))) {
+							// The fiber is suspended, so someone else might have resumed and even destroyed it by now
+							g_current_fiber = old;
+							return;
+						}
 					} catch (...) { hndl->suspend_exception = std::current_exception(); }
 				}
 			}
 			g_current_fiber = old;
-			if (hndl->resume_cb == nullptr && hndl->continuation != nullptr) { hndl->continuation.resume(); }
+			if (hndl->continuation != nullptr) { hndl->continuation.resume(); }
 		};
 		hndl->destroy_cb = [](fiber_handle_base* hndl) {
 			// Signal destruction and resume, then delete self
-- 
2.43.0


From dca7175a93c31356fda3dd651a6ee93da6a9479b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:40 +0000
Subject: [PATCH 32/59] fix: destroying a suspended fiber does not resume its
 awaiter

The awaiter continued without a result and, if it owned the fiber, while
it was being destroyed itself.
---
 include/asyncpp/fiber.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index d6e1bbf..211c70a 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -779,6 +779,8 @@ namespace asyncpp::detail {
 			// Signal destruction and resume, then delete self
 			if (hndl->resume_cb != nullptr && hndl->was_started) {
 				hndl->want_destroy = true;
+				// It does not finish, so whoever awaits it must not continue (and might be getting destroyed as well)
+				hndl->continuation = nullptr;
 				hndl->resume_cb(hndl);
 				assert(hndl->resume_cb == nullptr);
 			}
-- 
2.43.0


From ee5ea6980e371aeee98b839c1ad4a63a51acf5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:15 +0000
Subject: [PATCH 33/59] fix: fiber<void> copies lvalue callables

It kept a reference to the caller's object, unlike fiber<T>.
---
 include/asyncpp/fiber.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index 211c70a..6897853 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -733,7 +733,7 @@ namespace asyncpp::detail {
 	template<typename FN>
 	static coroutine_handle<> make_fiber_handle(size_t stack_size, FN&& cbfn) {
 		struct handle : fiber_handle_base {
-			FN function;
+			std::decay_t<FN> function;
 			explicit handle(FN&& cbfn) : function(std::forward<FN>(cbfn)) {}
 		};
 
-- 
2.43.0


From e113aa95785953da7cf0b2e608392466fd292380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:36 +0000
Subject: [PATCH 34/59] fix: fibers keep the exceptions they are handling when
 they move between threads

The stack of caught exceptions is stored per thread. A fiber suspended in
a catch block lost its current exception when continuing elsewhere and
left it behind on the previous thread.
---
 include/asyncpp/fiber.h | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index 6897853..920a33e 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -16,6 +16,13 @@
 #define ASYNCPP_FIBER_KEYWORDS 1
 #endif
 
+#if !defined(_WIN32) && __has_include(<cxxabi.h>)
+#include <cxxabi.h>
+#define ASYNCPP_FIBER_HAS_CXXABI 1
+#else
+#define ASYNCPP_FIBER_HAS_CXXABI 0
+#endif
+
 #ifndef _WIN32
 
 #include <sys/mman.h>
@@ -684,6 +691,28 @@ namespace asyncpp {
 	class fiber;
 } // namespace asyncpp
 namespace asyncpp::detail {
+#if ASYNCPP_FIBER_HAS_CXXABI
+	// The exceptions being handled are tracked per thread, but belong to the fiber while it is running.
+	// This matches __cxa_eh_globals from the Itanium C++ ABI, which is opaque in the public header.
+	struct fiber_exception_state {
+		void* caught_exceptions;
+		unsigned int uncaught_exceptions;
+#if defined(__ARM_EABI_UNWINDER__)
+		void* propagating_exceptions;
+#endif
+	};
+	inline void fiber_swap_exception_state(fiber_exception_state& state) noexcept {
+		fiber_exception_state current;
+		void* const globals = abi::__cxa_get_globals();
+		memcpy(&current, globals, sizeof(current));
+		memcpy(globals, &state, sizeof(state));
+		state = current;
+	}
+#else
+	struct fiber_exception_state {};
+	inline void fiber_swap_exception_state(fiber_exception_state&) noexcept {}
+#endif
+
 	struct fiber_handle_base {
 		// C++20 coroutine ABI dictates those
 		void (*resume_cb)(fiber_handle_base*) = nullptr;
@@ -696,6 +725,7 @@ namespace asyncpp::detail {
 		bool (*suspend_handler)(void* ptr, coroutine_handle<> hndl) = nullptr;
 		void* suspend_handler_ptr = nullptr;
 		std::exception_ptr suspend_exception = nullptr;
+		fiber_exception_state exception_state{};
 
 		coroutine_handle<> continuation{};
 
@@ -752,7 +782,9 @@ namespace asyncpp::detail {
 				hndl->tsan_parent = __tsan_get_current_fiber();
 				__tsan_switch_to_fiber(hndl->tsan_fiber, 0);
 #endif
+				fiber_swap_exception_state(hndl->exception_state);
 				detail::fiber_swapcontext(&hndl->main_context, &hndl->fiber_context);
+				fiber_swap_exception_state(hndl->exception_state);
 #if ASYNCPP_HAS_ASAN
 				const void* fiber_stack;
 				size_t fiber_stack_size;
-- 
2.43.0


From 2c98a205813101a1532ae111bc5247a586a9fcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:51 +0000
Subject: [PATCH 35/59] fix: a fiber being destroyed can not suspend again

Its stack was freed without unwinding if it caught the request to destroy
itself and awaited something else afterwards.
---
 include/asyncpp/fiber.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index 920a33e..eba80de 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -897,6 +897,11 @@ namespace asyncpp::detail {
 			assert(__builtin_frame_address(0) <
 				   (static_cast<uint8_t*>(hndl->fiber_stack.mmap_base) + hndl->fiber_stack.mmap_size));
 #endif
+			// A fiber that caught the request to destroy itself can not suspend anymore
+			if (hndl->want_destroy) {
+				// NOLINTNEXTLINE(hicpp-exception-baseclass)
+				throw fiber_destroy_requested_exception{};
+			}
 			using AwaitResult = decltype(awaiter.await_suspend(std::declval<coroutine_handle<>>()));
 			hndl->suspend_handler = [](void* ptr, coroutine_handle<> hndl) {
 				if constexpr (std::is_same_v<AwaitResult, void>) {
-- 
2.43.0


From 952974c1c9853937aebed2ddb1d0110cfb5dce83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:36 +0000
Subject: [PATCH 36/59] fix: signal::prepend stores the tail of an empty signal
 as a pointer

---
 include/asyncpp/signal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index 68b3b77..d3317ab 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -345,7 +345,7 @@ namespace asyncpp {
 			m_head = new_node;
 		} else {
 			m_head = new_node;
-			m_tail = new_node;
+			m_tail = new_node.get();
 		}
 		return handle(static_ref_cast<detail::signal_node_base>(new_node));
 	}
-- 
2.43.0


From 0e6aa9e2a9b5d7dca09212e8533b96e5804cdeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:36 +0000
Subject: [PATCH 37/59] fix: signal copies lvalue callables

---
 include/asyncpp/signal.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index d3317ab..4050e8a 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -6,6 +6,7 @@
 #include <cstddef>
 #include <mutex>
 #include <shared_mutex>
+#include <type_traits>
 #include <unordered_map>
 #include <utility>
 
@@ -110,7 +111,8 @@ namespace asyncpp {
 			~node_impl() noexcept = default;
 			void invoke(const TParams&... params) override { m_fn(params...); }
 			[[no_unique_address]] FN m_fn;
-			explicit node_impl(FN&& fncb) : m_fn(std::move(fncb)) {}
+			template<typename Arg>
+			explicit node_impl(Arg&& fncb) : m_fn(std::forward<Arg>(fncb)) {}
 		};
 
 	public:
@@ -321,7 +323,7 @@ namespace asyncpp {
 	template<typename... TParams, typename TTraits>
 	template<typename FN>
 	inline typename signal<void(TParams...), TTraits>::handle signal<void(TParams...), TTraits>::append(FN&& fncb) {
-		ref<node> new_node(new node_impl<FN>(std::forward<decltype(fncb)>(fncb)));
+		ref<node> new_node(new node_impl<std::decay_t<FN>>(std::forward<decltype(fncb)>(fncb)));
 		new_node->counter = get_next_counter();
 		if (std::lock_guard lck{m_mutex}; m_head) {
 			new_node->previous = m_tail;
@@ -337,7 +339,7 @@ namespace asyncpp {
 	template<typename... TParams, typename TTraits>
 	template<typename FN>
 	inline typename signal<void(TParams...), TTraits>::handle signal<void(TParams...), TTraits>::prepend(FN&& fncb) {
-		ref<node> new_node(new node_impl<FN>(std::forward<decltype(fncb)>(fncb)));
+		ref<node> new_node(new node_impl<std::decay_t<FN>>(std::forward<decltype(fncb)>(fncb)));
 		new_node->counter = get_next_counter();
 		if (std::lock_guard lck{m_mutex}; m_head) {
 			new_node->next = m_head;
-- 
2.43.0


From 3f32ad4ef28da24c37291db26d967267b9ab812a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:36 +0000
Subject: [PATCH 38/59] fix: an emission does not invoke slots connected while
 it runs

---
 include/asyncpp/signal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index 4050e8a..6594d3c 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -387,7 +387,7 @@ namespace asyncpp {
 
 		const auto counter = m_current_counter.load(std::memory_order_acquire);
 		do {
-			if (node->counter != detail::signal_removed_counter && counter >= node->counter) {
+			if (node->counter != detail::signal_removed_counter && counter > node->counter) {
 				node->invoke(params...);
 				++ninvoked;
 			}
-- 
2.43.0


From 11988493e073098d21623944e478737d6a1affe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:36 +0000
Subject: [PATCH 39/59] fix: signal slots are unlinked only once

---
 include/asyncpp/signal.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index 6594d3c..a629e9e 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -171,11 +171,15 @@ namespace asyncpp {
 		}
 
 		void free_node(ref<node>& node) const noexcept {
+			node->counter = detail::signal_removed_counter;
+			// The node might already be unlinked (it stays around for handles and running invocations)
+			if (!node->previous && m_head != node) return;
 			if (node->next) { node->next->previous = node->previous; }
 			if (node->previous) { node->previous->next = node->next; }
-			node->counter = detail::signal_removed_counter;
 			if (m_head == node) m_head = node->next;
 			if (m_tail == node) m_tail = node->previous;
+			// next is kept, because a running invocation might still need to find the following node
+			node->previous = nullptr;
 		}
 	};
 
-- 
2.43.0


From 2341213fbe46aae3028181526f1b8b57cbba48d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:36 +0000
Subject: [PATCH 40/59] fix: signal move assignment returns itself and destroys
 the old slots unlocked

---
 include/asyncpp/signal.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index a629e9e..e4d824b 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -284,9 +284,15 @@ namespace asyncpp {
 	template<typename... TParams, typename TTraits>
 	//NOLINTNEXTLINE(performance-noexcept-move-constructor)
 	inline signal<void(TParams...), TTraits>& signal<void(TParams...), TTraits>::operator=(signal&& other) {
-		std::scoped_lock lck{m_mutex, other.m_mutex};
-		auto node = m_head;
-		m_head.reset();
+		if (this == &other) return *this;
+		ref<signal::node> node{};
+		{
+			std::scoped_lock lck{m_mutex, other.m_mutex};
+			node = std::exchange(m_head, nullptr);
+			m_head = std::exchange(other.m_head, nullptr);
+			m_tail = std::exchange(other.m_tail, nullptr);
+			m_current_counter.store(other.m_current_counter.exchange(1));
+		}
 		while (node) {
 			auto next = node->next;
 			node->previous = nullptr;
@@ -294,9 +300,7 @@ namespace asyncpp {
 			node = next;
 		}
 		assert(!node);
-		m_head = std::exchange(other.m_head, nullptr);
-		m_tail = std::exchange(other.m_tail, nullptr);
-		m_current_counter.store(other.m_current_counter.exchange(1));
+		return *this;
 	}
 
 	template<typename... TParams, typename TTraits>
-- 
2.43.0


From 0e8203974884db19e55aeb111b68a5eca8fba16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:36 +0000
Subject: [PATCH 41/59] fix: scoped_signal_handle does not disconnect when
 moved

---
 include/asyncpp/signal.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index e4d824b..63f7e4b 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -72,6 +72,17 @@ namespace asyncpp {
 		scoped_signal_handle(ref<detail::signal_node_base> hdl = {}) : m_handle(std::move(hdl)) {}
 		//NOLINTNEXTLINE(google-explicit-constructor)
 		scoped_signal_handle(signal_handle hdl) : m_handle(std::move(hdl)) {}
+		scoped_signal_handle(const scoped_signal_handle&) = delete;
+		scoped_signal_handle& operator=(const scoped_signal_handle&) = delete;
+		scoped_signal_handle(scoped_signal_handle&& other) noexcept
+			: m_handle(std::exchange(other.m_handle, signal_handle{})) {}
+		scoped_signal_handle& operator=(scoped_signal_handle&& other) noexcept {
+			if (this != &other) {
+				m_handle.disconnect();
+				m_handle = std::exchange(other.m_handle, signal_handle{});
+			}
+			return *this;
+		}
 		~scoped_signal_handle() noexcept { m_handle.disconnect(); }
 		explicit operator bool() const noexcept { return valid(); }
 		[[nodiscard]] bool operator!() const noexcept { return !valid(); }
-- 
2.43.0


From 23cadd1488b3488e5f0cb69922145dcd3e431ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:36 +0000
Subject: [PATCH 42/59] fix: signal does not destroy slots while holding its
 lock

---
 include/asyncpp/signal.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index 63f7e4b..a2fb60d 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -411,9 +411,11 @@ namespace asyncpp {
 				++ninvoked;
 			}
 
+			// Keep the node alive until we released the lock, because the callables destructor might use the signal
+			auto current = node;
 			std::lock_guard lck(m_mutex);
 			if (node->counter == detail::signal_removed_counter) { free_node(node); }
-			node = node->next;
+			node = current->next;
 		} while (node);
 		return ninvoked;
 	}
-- 
2.43.0


From e12529c5014bf1e12ff46b6908311164122fa3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:36 +0000
Subject: [PATCH 43/59] fix: signal slots connected while the signal is moved
 are not lost

---
 include/asyncpp/signal.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index a2fb60d..185ca0f 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -165,16 +165,14 @@ namespace asyncpp {
 		mutable node* m_tail{};
 		std::atomic<size_t> m_current_counter{1};
 
+		// Note: Needs to be called with m_mutex locked
 		size_t get_next_counter() {
 			const auto result = m_current_counter.fetch_add(1, std::memory_order::seq_cst);
 			if (result == 0) { // overflow, let's reset all nodes' counters.
-				{
-					std::lock_guard lck(m_mutex);
-					auto node = m_head;
-					while (node) {
-						node->counter = 1;
-						node = node->next;
-					}
+				auto node = m_head;
+				while (node) {
+					node->counter = 1;
+					node = node->next;
 				}
 				return m_current_counter.fetch_add(1, std::memory_order::seq_cst);
 			}
@@ -343,8 +341,9 @@ namespace asyncpp {
 	template<typename FN>
 	inline typename signal<void(TParams...), TTraits>::handle signal<void(TParams...), TTraits>::append(FN&& fncb) {
 		ref<node> new_node(new node_impl<std::decay_t<FN>>(std::forward<decltype(fncb)>(fncb)));
+		std::lock_guard lck{m_mutex};
 		new_node->counter = get_next_counter();
-		if (std::lock_guard lck{m_mutex}; m_head) {
+		if (m_head) {
 			new_node->previous = m_tail;
 			m_tail->next = new_node;
 			m_tail = new_node.get();
@@ -359,8 +358,9 @@ namespace asyncpp {
 	template<typename FN>
 	inline typename signal<void(TParams...), TTraits>::handle signal<void(TParams...), TTraits>::prepend(FN&& fncb) {
 		ref<node> new_node(new node_impl<std::decay_t<FN>>(std::forward<decltype(fncb)>(fncb)));
+		std::lock_guard lck{m_mutex};
 		new_node->counter = get_next_counter();
-		if (std::lock_guard lck{m_mutex}; m_head) {
+		if (m_head) {
 			new_node->next = m_head;
 			m_head->previous = new_node.get();
 			m_head = new_node;
-- 
2.43.0


From 385ef55acffaf4fabd8a636fe939856ac61d7275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:36 +0000
Subject: [PATCH 44/59] fix: signal_manager does not hold its lock while using
 a signal

---
 include/asyncpp/signal.h | 58 +++++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 27 deletions(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index 185ca0f..692134b 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -4,11 +4,13 @@
 #include <atomic>
 #include <cassert>
 #include <cstddef>
+#include <memory>
 #include <mutex>
 #include <shared_mutex>
 #include <type_traits>
 #include <unordered_map>
 #include <utility>
+#include <vector>
 
 namespace asyncpp {
 	struct signal_traits_mt {
@@ -218,44 +220,45 @@ namespace asyncpp {
 
 		template<typename FN>
 		handle append(event_type event, FN&& fncb) {
-			auto iter = find_or_create_slot(event);
-			assert(iter != m_mapping.end());
-			return iter->second.append(std::forward<decltype(fncb)>(fncb));
+			auto slot = find_or_create_slot(event);
+			assert(slot);
+			return slot->append(std::forward<decltype(fncb)>(fncb));
 		}
 		template<typename FN>
 		handle prepend(event_type event, FN&& fncb) {
-			auto iter = find_or_create_slot(event);
-			assert(iter != m_mapping.end());
-			return iter->second.prepend(std::forward<decltype(fncb)>(fncb));
+			auto slot = find_or_create_slot(event);
+			assert(slot);
+			return slot->prepend(std::forward<decltype(fncb)>(fncb));
 		}
 
 		bool remove(event_type event, const handle& hdl) {
-			std::shared_lock lck{m_mutex};
-			auto iter = m_mapping.find(event);
-			return iter != m_mapping.end() && iter->second.remove(hdl);
+			auto slot = find_slot(event);
+			return slot && slot->remove(hdl);
 		}
 
 		bool owns_handle(event_type event, const handle& hdl) const {
-			std::shared_lock lck{m_mutex};
-			auto iter = m_mapping.find(event);
-			return iter != m_mapping.end() && iter->second.owns_handle(hdl);
+			auto slot = find_slot(event);
+			return slot && slot->owns_handle(hdl);
 		}
 
 		size_t invoke(event_type event, const TParams&... params) const {
-			std::shared_lock lck{m_mutex};
-			auto iter = m_mapping.find(event);
-			if (iter == m_mapping.end()) return 0;
-			return iter->second(params...);
+			auto slot = find_slot(event);
+			if (!slot) return 0;
+			return (*slot)(params...);
 		}
 
 		size_t operator()(event_type event, const TParams&... params) const { return invoke(event, params...); }
 
 		size_t shrink_to_fit() {
+			// Destroyed after unlocking, because callables might use the manager in their destructor
+			std::vector<std::shared_ptr<signal_type>> unused;
 			std::unique_lock lck{m_mutex};
 			size_t res = 0;
 			for (auto it = m_mapping.begin(); it != m_mapping.end();) {
-				if (it->second.empty()) {
+				// Signals are only handed out with the lock held, so nobody else can be using it
+				if (it->second.use_count() == 1 && it->second->empty()) {
 					res++;
+					unused.push_back(it->second);
 					it = m_mapping.erase(it);
 				} else
 					it++;
@@ -265,19 +268,20 @@ namespace asyncpp {
 
 	private:
 		mutable std::shared_mutex m_mutex{};
-		std::unordered_map<event_type, signal_type> m_mapping;
+		std::unordered_map<event_type, std::shared_ptr<signal_type>> m_mapping;
 
-		auto find_or_create_slot(event_type evt) {
+		std::shared_ptr<signal_type> find_slot(const event_type& evt) const {
 			std::shared_lock lck{m_mutex};
 			auto iter = m_mapping.find(evt);
-			if (iter == m_mapping.end()) {
-				lck.unlock();
-				std::unique_lock unique{m_mutex};
-				iter = m_mapping.find(evt);
-				if (iter != m_mapping.end()) return iter;
-				iter = m_mapping.emplace(evt, signal_type{}).first;
-			}
-			return iter;
+			return iter == m_mapping.end() ? nullptr : iter->second;
+		}
+
+		std::shared_ptr<signal_type> find_or_create_slot(const event_type& evt) {
+			if (auto slot = find_slot(evt)) return slot;
+			std::unique_lock unique{m_mutex};
+			auto iter = m_mapping.find(evt);
+			if (iter == m_mapping.end()) iter = m_mapping.emplace(evt, std::make_shared<signal_type>()).first;
+			return iter->second;
 		}
 	};
 
-- 
2.43.0


From d301fbd8d8b0bf424beb1a82dbcbfad807d1c474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:36 +0000
Subject: [PATCH 45/59] fix: signal_manager can be moved

---
 include/asyncpp/signal.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index 692134b..0d6f346 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -212,9 +212,20 @@ namespace asyncpp {
 
 		signal_manager() = default;
 		//NOLINTNEXTLINE(performance-noexcept-move-constructor)
-		signal_manager(signal_manager&&);
+		signal_manager(signal_manager&& other) {
+			std::unique_lock lck{other.m_mutex};
+			m_mapping.swap(other.m_mapping);
+		}
 		//NOLINTNEXTLINE(performance-noexcept-move-constructor)
-		signal_manager& operator=(signal_manager&&);
+		signal_manager& operator=(signal_manager&& other) {
+			if (this == &other) return *this;
+			// Destroyed after unlocking, because callables might use the manager in their destructor
+			decltype(m_mapping) old;
+			std::scoped_lock lck{m_mutex, other.m_mutex};
+			old.swap(m_mapping);
+			m_mapping.swap(other.m_mapping);
+			return *this;
+		}
 		signal_manager(const signal_manager&) = delete;
 		signal_manager& operator=(const signal_manager&) = delete;
 
-- 
2.43.0


From 20786e3d066619eb3cc63e39f9b7c30b14554470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:09 +0000
Subject: [PATCH 46/59] fix: a slot disconnected while an emission checks it is
 not invoked out of turn

---
 include/asyncpp/signal.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index 0d6f346..8354cf9 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -421,7 +421,9 @@ namespace asyncpp {
 
 		const auto counter = m_current_counter.load(std::memory_order_acquire);
 		do {
-			if (node->counter != detail::signal_removed_counter && counter > node->counter) {
+			// Only load it once, it might get disconnected in between
+			const auto node_counter = node->counter.load(std::memory_order_acquire);
+			if (node_counter != detail::signal_removed_counter && counter > node_counter) {
 				node->invoke(params...);
 				++ninvoked;
 			}
-- 
2.43.0


From 925f7d52655e20751951dc815a04933c481e3121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:37 +0000
Subject: [PATCH 47/59] fix: signal::remove leaves slots of other signals alone

---
 include/asyncpp/signal.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index 8354cf9..fdf76c8 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -391,6 +391,11 @@ namespace asyncpp {
 		auto node = static_ref_cast<signal::node>(hdl.m_node);
 		if (!node) return false;
 		std::lock_guard lck{m_mutex};
+		// The handle might belong to a different signal (e.g. one already removed from a signal_manager)
+		auto owned = m_head.get();
+		while (owned && owned != node.get())
+			owned = owned->next.get();
+		if (!owned) return false;
 		free_node(node);
 		return true;
 	}
-- 
2.43.0


From a1f115bf3a9aafc4f8bd5bf4b394bc5208e53390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:30 +0000
Subject: [PATCH 48/59] fix: atomic_ref can be used with more than one type

---
 include/asyncpp/ref.h | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/include/asyncpp/ref.h b/include/asyncpp/ref.h
index 3d8783b..d1c800e 100644
--- a/include/asyncpp/ref.h
+++ b/include/asyncpp/ref.h
@@ -237,20 +237,17 @@ namespace asyncpp {
 	template<RefCountable T>
 	class atomic_ref {
 		friend struct std::hash<asyncpp::atomic_ref<T>>;
-		template<RefCountable T2>
-		friend constexpr auto operator<=>(const atomic_ref<T2>& lhs, const atomic_ref<T2>& rhs) noexcept {
-			return (lhs.m_ptr.load(std::memory_order::relaxed) & ~atomic_ref<T2>::lock_mask) <=>
-				   (rhs.m_ptr.load(std::memory_order::relaxed) & ~atomic_ref<T2>::lock_mask);
+		friend constexpr auto operator<=>(const atomic_ref& lhs, const atomic_ref& rhs) noexcept {
+			return (lhs.m_ptr.load(std::memory_order::relaxed) & ~atomic_ref::lock_mask) <=>
+				   (rhs.m_ptr.load(std::memory_order::relaxed) & ~atomic_ref::lock_mask);
 		}
-		template<RefCountable T2>
-		friend constexpr auto operator<=>(const atomic_ref<T2>& lhs, const T2* rhs) noexcept {
-			return (lhs.m_ptr.load(std::memory_order::relaxed) & ~atomic_ref<T>::lock_mask) <=>
+		friend constexpr auto operator<=>(const atomic_ref& lhs, const T* rhs) noexcept {
+			return (lhs.m_ptr.load(std::memory_order::relaxed) & ~atomic_ref::lock_mask) <=>
 				   reinterpret_cast<uintptr_t>(rhs);
 		}
-		template<RefCountable T2>
-		friend constexpr auto operator<=>(const T2* lhs, const atomic_ref<T2>& rhs) noexcept {
+		friend constexpr auto operator<=>(const T* lhs, const atomic_ref& rhs) noexcept {
 			return reinterpret_cast<uintptr_t>(lhs) <=>
-				   (rhs.m_ptr.load(std::memory_order::relaxed) & ~atomic_ref<T>::lock_mask);
+				   (rhs.m_ptr.load(std::memory_order::relaxed) & ~atomic_ref::lock_mask);
 		}
 		mutable std::atomic<uintptr_t> m_ptr;
 
-- 
2.43.0


From 75edc05e102122750e666e270b41612a395f9aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:30 +0000
Subject: [PATCH 49/59] fix: atomic_ref::exchange does not leak an invalid
 pointer

---
 include/asyncpp/ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/ref.h b/include/asyncpp/ref.h
index d1c800e..005a445 100644
--- a/include/asyncpp/ref.h
+++ b/include/asyncpp/ref.h
@@ -372,8 +372,8 @@ namespace asyncpp {
 		 * \throw std::logic_error if the pointer value collides with the lock_mask
 		 */
 		ref<T> exchange(ref<T> hdl) {
+			if ((reinterpret_cast<uintptr_t>(hdl.get()) & lock_mask) != 0) throw std::logic_error("invalid pointer");
 			auto ptr = hdl.release();
-			if ((reinterpret_cast<uintptr_t>(ptr) & lock_mask) != 0) throw std::logic_error("invalid pointer");
 
 			// Lock the current pointer value
 			auto val = lock();
-- 
2.43.0


From 7bed34b7ae61480dc87404f838fe3223ef6b36e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:49 +0000
Subject: [PATCH 50/59] fix: stop_source move assignment gives up its previous
 state

---
 include/asyncpp/stop_token.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/stop_token.h b/include/asyncpp/stop_token.h
index a38a46c..55fa863 100644
--- a/include/asyncpp/stop_token.h
+++ b/include/asyncpp/stop_token.h
@@ -305,7 +305,10 @@ namespace asyncpp {
 			return *this;
 		}
 
-		stop_source& operator=(stop_source&&) noexcept = default;
+		stop_source& operator=(stop_source&& other) noexcept {
+			stop_source(std::move(other)).swap(*this);
+			return *this;
+		}
 
 		~stop_source() {
 			if (m_state) m_state->sub_ssrc();
-- 
2.43.0


From 72120a6ed80d40c42fcb5e77ce159407628d3627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:48 +0000
Subject: [PATCH 51/59] fix: threadsafe_queue can be copied

---
 include/asyncpp/threadsafe_queue.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/threadsafe_queue.h b/include/asyncpp/threadsafe_queue.h
index 3244203..f35fd01 100644
--- a/include/asyncpp/threadsafe_queue.h
+++ b/include/asyncpp/threadsafe_queue.h
@@ -3,6 +3,7 @@
 #include <mutex>
 #include <optional>
 #include <queue>
+#include <type_traits>
 #include <utility>
 
 namespace asyncpp {
@@ -14,7 +15,7 @@ namespace asyncpp {
 	 */
 	template<typename T, typename Container = std::deque<T>>
 	class threadsafe_queue {
-		std::mutex m_mutex{};
+		mutable std::mutex m_mutex{};
 		std::queue<T, Container> m_queue{};
 
 	public:
@@ -23,6 +24,7 @@ namespace asyncpp {
 		* \param args Arguments to forward to the container constructor
 		*/
 		template<typename... Args>
+			requires(!(sizeof...(Args) == 1 && (std::is_same_v<std::remove_cvref_t<Args>, threadsafe_queue> && ...)))
 		explicit threadsafe_queue(Args&&... args) : m_queue(std::forward<Args>(args)...) {}
 
 		threadsafe_queue(const threadsafe_queue& other) {
-- 
2.43.0


From a4855632ded71ad4c05058b35e471601e3947c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:04 +0000
Subject: [PATCH 52/59] fix: Fail to create a fiber if the guard pages can not
 be protected

---
 include/asyncpp/fiber.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index eba80de..c248f3e 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -66,10 +66,12 @@ namespace asyncpp::detail {
 		if (stack == MAP_FAILED) return false;
 
 		// Protect a page at the bottom and top to cause fault on stack over/underflow
-		[[maybe_unused]] auto res = ::mprotect(stack, pagesize, PROT_NONE);
-		assert(res == 0);
-		res = ::mprotect(static_cast<std::byte*>(stack) + size + pagesize, pagesize, PROT_NONE);
-		assert(res == 0);
+		if (::mprotect(stack, pagesize, PROT_NONE) != 0 ||
+			::mprotect(static_cast<std::byte*>(stack) + size + pagesize, pagesize, PROT_NONE) != 0) {
+			// This can fail because splitting the mapping needs resources as well
+			::munmap(stack, alloc_size);
+			return false;
+		}
 
 		ctx.stack = static_cast<std::byte*>(stack) + size + pagesize;
 		ctx.stack_size = size;
-- 
2.43.0


From 805aab859a01756fe57332a30d69b8b2589e9693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:04 +0000
Subject: [PATCH 53/59] fix: Keep the peer of a channel operation waiting if
 transferring the value throws

---
 include/asyncpp/channel.h | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/asyncpp/channel.h b/include/asyncpp/channel.h
index f679f45..b03db64 100644
--- a/include/asyncpp/channel.h
+++ b/include/asyncpp/channel.h
@@ -144,12 +144,12 @@ namespace asyncpp {
 		std::unique_lock lck{m_mtx};
 		// Check if there is a writer waiting
 		if (auto wrt = m_writer_list; wrt != nullptr && !m_closed.load(std::memory_order::relaxed)) {
+			// Take the value out, the writer keeps waiting if this throws
+			std::optional<T> res = std::move(wrt->m_value);
+			wrt->m_result = true;
 			// Unhook writer
 			m_writer_list = wrt->m_next;
 			lck.unlock();
-			// Take the value out
-			std::optional<T> res = std::move(wrt->m_value);
-			wrt->m_result = true;
 			// Resume writer
 			if (wrt->m_dispatcher != nullptr)
 				wrt->m_dispatcher->push([wrt]() { wrt->m_handle.resume(); });
@@ -171,11 +171,11 @@ namespace asyncpp {
 		std::unique_lock lck{m_mtx};
 		// Check if there is a reader waiting
 		if (auto rdr = m_reader_list; rdr != nullptr && !m_closed.load(std::memory_order::relaxed)) {
+			// Copy the value over, the reader keeps waiting if this throws
+			rdr->m_result = std::move(value);
 			// Unhook reader
 			m_reader_list = rdr->m_next;
 			lck.unlock();
-			// Take the value out
-			rdr->m_result = std::move(value);
 			// Resume writer
 			if (rdr->m_dispatcher != nullptr)
 				rdr->m_dispatcher->push([rdr]() { rdr->m_handle.resume(); });
@@ -232,12 +232,12 @@ namespace asyncpp {
 		if (m_parent->m_closed.load(std::memory_order::relaxed)) return false;
 		// Check if there is a writer waiting
 		if (auto wrt = m_parent->m_writer_list; wrt != nullptr) {
+			// Take the value out, the writer keeps waiting if this throws
+			m_result = std::move(wrt->m_value);
+			wrt->m_result = true;
 			// Unhook writer
 			m_parent->m_writer_list = wrt->m_next;
 			lck.unlock();
-			// Take the value out
-			m_result = std::move(wrt->m_value);
-			wrt->m_result = true;
 			// Resume writer
 			if (wrt->m_dispatcher != nullptr)
 				wrt->m_dispatcher->push([wrt]() { wrt->m_handle.resume(); });
@@ -277,12 +277,12 @@ namespace asyncpp {
 		if (m_parent->m_closed.load(std::memory_order::relaxed)) return false;
 		// Check if there is a reader waiting
 		if (auto rdr = m_parent->m_reader_list; rdr != nullptr) {
+			// Copy the value over, the reader keeps waiting if this throws
+			rdr->m_result = std::move(m_value);
+			m_result = true;
 			// Unhook reader
 			m_parent->m_reader_list = rdr->m_next;
 			lck.unlock();
-			// Copy the value over
-			rdr->m_result = std::move(m_value);
-			m_result = true;
 			// Resume reader
 			if (rdr->m_dispatcher != nullptr)
 				rdr->m_dispatcher->push([rdr]() { rdr->m_handle.resume(); });
-- 
2.43.0


From d13b73599f2ca1ea127805d84bba500a5e455b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:37 +0000
Subject: [PATCH 54/59] fix: Awaiting a promise reports a failed allocation to
 the awaiter

---
 include/asyncpp/promise.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/promise.h b/include/asyncpp/promise.h
index fbcf173..0b83494 100644
--- a/include/asyncpp/promise.h
+++ b/include/asyncpp/promise.h
@@ -315,7 +315,7 @@ namespace asyncpp {
 					std::unique_lock lck{m_state->m_mtx};
 					return m_state->m_value.index() != state::pending_index;
 				}
-				[[nodiscard]] bool await_suspend(coroutine_handle<> hndl) noexcept {
+				[[nodiscard]] bool await_suspend(coroutine_handle<> hndl) {
 					assert(m_state);
 					assert(hndl);
 					std::unique_lock lck{m_state->m_mtx};
@@ -435,7 +435,7 @@ namespace asyncpp {
 				constexpr explicit awaiter(decltype(m_awaiter)&& awaiter)
 					: m_awaiter(std::forward<decltype(awaiter)>(awaiter)) {}
 				[[nodiscard]] constexpr bool await_ready() noexcept { return m_awaiter.await_ready(); }
-				[[nodiscard]] bool await_suspend(coroutine_handle<> hndl) noexcept {
+				[[nodiscard]] bool await_suspend(coroutine_handle<> hndl) {
 					return m_awaiter.await_suspend(hndl);
 				}
 				void await_resume() { static_cast<void>(m_awaiter.await_resume()); }
-- 
2.43.0


From d847b016fa9f5d7214b46a74e11772db6228d19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:08 +0000
Subject: [PATCH 55/59] fix: promise::then registers both callbacks or none

---
 include/asyncpp/promise.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/promise.h b/include/asyncpp/promise.h
index 0b83494..5c0c8bf 100644
--- a/include/asyncpp/promise.h
+++ b/include/asyncpp/promise.h
@@ -90,8 +90,15 @@ namespace asyncpp {
 				std::unique_lock lck{m_mtx};
 				switch (m_value.index()) {
 				case pending_index:
-					if (then_cb) m_on_fulfill.emplace_back(std::move(then_cb));
-					if (catch_cb) m_on_reject.emplace_back(std::move(catch_cb));
+					// Register either both or none of them
+					if (catch_cb) m_on_reject.emplace_back();
+					try {
+						if (then_cb) m_on_fulfill.emplace_back(std::move(then_cb));
+					} catch (...) {
+						if (catch_cb) m_on_reject.pop_back();
+						throw;
+					}
+					if (catch_cb) m_on_reject.back() = std::move(catch_cb);
 					break;
 				case fulfilled_index:
 					lck.unlock();
-- 
2.43.0


From be81cc17181a12086a3ca421e41169e9ef63c2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:21 +0000
Subject: [PATCH 56/59] fix: Keep the task waiting in queue::pop if
 constructing its value throws

---
 include/asyncpp/queue.h | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/asyncpp/queue.h b/include/asyncpp/queue.h
index 547588d..735da3b 100644
--- a/include/asyncpp/queue.h
+++ b/include/asyncpp/queue.h
@@ -104,7 +104,7 @@ namespace asyncpp {
 		friend class queue<T, TContainer>::push_awaiter;
 		friend class queue<T, TContainer>;
 
-		void resume(T&& value);
+		void resume();
 
 	public:
 		explicit pop_awaiter(queue* parent) noexcept : m_parent(parent) {}
@@ -229,11 +229,13 @@ namespace asyncpp {
 		if (m_queue.size() >= m_max_size) return false;
 		// Check if there is an task waiting in pop
 		if (auto awaiter = m_pop_list; awaiter != nullptr) {
-			m_pop_list = awaiter->m_next;
 			// There should never be a task waiting in pop with a non empty queue
 			assert(m_queue.empty());
+			// Move the value right to the awaiter, it keeps waiting if this throws
+			awaiter->m_result.emplace(std::forward<T>(value));
+			m_pop_list = awaiter->m_next;
 			lck.unlock();
-			awaiter->resume(std::forward<T>(value));
+			awaiter->resume();
 		} else {
 			// There is noone waiting for the data (yet), so we just queue it
 			m_queue.push(std::forward<T>(value));
@@ -249,11 +251,13 @@ namespace asyncpp {
 		if (m_queue.size() >= m_max_size) return false;
 		// Check if there is an task waiting in pop
 		if (auto awaiter = m_pop_list; awaiter != nullptr) {
-			m_pop_list = awaiter->m_next;
 			// There should never be a task waiting in pop with a non empty queue
 			assert(m_queue.empty());
+			// Move the value right to the awaiter, it keeps waiting if this throws
+			awaiter->m_result.emplace(T{std::forward<Args>(args)...});
+			m_pop_list = awaiter->m_next;
 			lck.unlock();
-			awaiter->resume(T{std::forward<Args>(args)...});
+			awaiter->resume();
 		} else {
 			// There is noone waiting for the data (yet), so we just queue it
 			m_queue.emplace(std::forward<Args>(args)...);
@@ -311,11 +315,8 @@ namespace asyncpp {
 	}
 
 	template<typename T, typename TContainer>
-	inline void queue<T, TContainer>::pop_awaiter::resume(T&& value) {
+	inline void queue<T, TContainer>::pop_awaiter::resume() {
 		// NOTE: Because we do not update the m_parent variable in move constructors we can not use it here
-		// Move the value right to this awaiter
-		m_result.emplace(std::forward<T>(value));
-		// And resume
 		if (m_dispatcher != nullptr)
 			m_dispatcher->push([this]() { m_handle.resume(); });
 		else
@@ -384,9 +385,11 @@ namespace asyncpp {
 		if (m_parent->m_pop_list != nullptr) {
 			assert(m_parent->m_queue.empty());
 			auto awaiter = m_parent->m_pop_list;
+			// Move the value right to the awaiter, it keeps waiting if this throws
+			awaiter->m_result.emplace(std::move(m_value));
 			m_parent->m_pop_list = awaiter->m_next;
 			lck.unlock();
-			awaiter->resume(std::move(m_value));
+			awaiter->resume();
 			return true;
 		}
 		// If there is space in the queue push to it
-- 
2.43.0


From 2f35701c4d07cf7a282f8ee641c11d9ca07104ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:00 +0000
Subject: [PATCH 57/59] fix: queue::pop neither loses the popped nor the pushed
 value if storing the latter throws

---
 include/asyncpp/queue.h | 53 ++++++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 22 deletions(-)

diff --git a/include/asyncpp/queue.h b/include/asyncpp/queue.h
index 735da3b..8adba04 100644
--- a/include/asyncpp/queue.h
+++ b/include/asyncpp/queue.h
@@ -26,6 +26,8 @@ namespace asyncpp {
 		pop_awaiter* m_pop_list{};
 		push_awaiter* m_push_list{};
 
+		push_awaiter* take_front(std::optional<T>& result);
+
 	public:
 		/**
 		 * \brief Construct a new queue
@@ -222,11 +224,32 @@ namespace asyncpp {
 		return m_queue.empty() && m_push_list == nullptr;
 	}
 
+	/// \brief Take the first value with the lock held. Returns the task waiting in push that needs to be resumed.
+	template<typename T, typename TContainer>
+	inline typename queue<T, TContainer>::push_awaiter* queue<T, TContainer>::take_front(std::optional<T>& result) {
+		auto awaiter = m_push_list;
+		if (!m_queue.empty()) {
+			result.emplace(std::move(m_queue.front()));
+			m_queue.pop();
+			// Check if there is someone waiting in push
+			if (awaiter == nullptr) return nullptr;
+			// If its value can not be stored it stays first in line for the next pop
+			try {
+				m_queue.push(std::move(awaiter->m_value));
+			} catch (...) { return nullptr; }
+		} else {
+			// The queue had no room for the values of the waiting tasks
+			result.emplace(std::move(awaiter->m_value));
+		}
+		m_push_list = awaiter->m_next;
+		return awaiter;
+	}
+
 	template<typename T, typename TContainer>
 	inline bool queue<T, TContainer>::try_push(T&& value) {
 		std::unique_lock lck{m_mtx};
 		// Early exit if we are oversized
-		if (m_queue.size() >= m_max_size) return false;
+		if (m_queue.size() >= m_max_size || m_push_list != nullptr) return false;
 		// Check if there is an task waiting in pop
 		if (auto awaiter = m_pop_list; awaiter != nullptr) {
 			// There should never be a task waiting in pop with a non empty queue
@@ -248,7 +271,7 @@ namespace asyncpp {
 	inline bool queue<T, TContainer>::try_emplace(Args&&... args) {
 		std::unique_lock lck{m_mtx};
 		// Early exit if we are oversized
-		if (m_queue.size() >= m_max_size) return false;
+		if (m_queue.size() >= m_max_size || m_push_list != nullptr) return false;
 		// Check if there is an task waiting in pop
 		if (auto awaiter = m_pop_list; awaiter != nullptr) {
 			// There should never be a task waiting in pop with a non empty queue
@@ -269,16 +292,10 @@ namespace asyncpp {
 	inline std::optional<T> queue<T, TContainer>::try_pop() {
 		std::unique_lock lck{m_mtx};
 		// Early out if the queue is empty
-		if (m_queue.empty()) return std::nullopt;
+		if (m_queue.empty() && m_push_list == nullptr) return std::nullopt;
 		// Pop the first value
-		std::optional<T> res{std::move(m_queue.front())};
-		m_queue.pop();
-		// Check if there is someone waiting in push
-		if (auto awaiter = m_push_list; awaiter != nullptr) {
-			m_push_list = awaiter->m_next;
-			// This can only happen if the queue used to be full
-			assert(m_queue.size() == m_max_size - 1);
-			m_queue.push(std::move(awaiter->m_value));
+		std::optional<T> res;
+		if (auto awaiter = take_front(res); awaiter != nullptr) {
 			lck.unlock();
 			// Resume the first task waiting to push a value
 			awaiter->resume();
@@ -326,19 +343,11 @@ namespace asyncpp {
 	template<typename T, typename TContainer>
 	inline bool queue<T, TContainer>::pop_awaiter::await_ready() {
 		std::unique_lock lck{m_parent->m_mtx};
-		if (m_parent->m_queue.empty()) {
+		if (m_parent->m_queue.empty() && m_parent->m_push_list == nullptr) {
 			lck.release(); // We unlock inside suspend
 			return false;
 		}
-		m_result.emplace(std::move(m_parent->m_queue.front()));
-		m_parent->m_queue.pop();
-		// Check if there is someone waiting in push
-		auto awaiter = m_parent->m_push_list;
-		if (awaiter != nullptr) {
-			m_parent->m_push_list = awaiter->m_next;
-			// This can only happen if the queue used to be full
-			assert(m_parent->m_queue.size() == m_parent->m_max_size - 1);
-			m_parent->m_queue.push(std::move(awaiter->m_value));
+		if (auto awaiter = m_parent->take_front(m_result); awaiter != nullptr) {
 			lck.unlock();
 			// Resume the first task waiting to push a value
 			awaiter->resume();
@@ -393,7 +402,7 @@ namespace asyncpp {
 			return true;
 		}
 		// If there is space in the queue push to it
-		if (m_parent->m_queue.size() < m_parent->m_max_size) {
+		if (m_parent->m_queue.size() < m_parent->m_max_size && m_parent->m_push_list == nullptr) {
 			m_parent->m_queue.push(std::move(m_value));
 			return true;
 		}
-- 
2.43.0


From 988198bd3154a211a2e9b38f35f144d023da2cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 58/59] fix: promise_all() without arguments never settled

---
 include/asyncpp/promise.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/asyncpp/promise.h b/include/asyncpp/promise.h
index 5c0c8bf..a984cec 100644
--- a/include/asyncpp/promise.h
+++ b/include/asyncpp/promise.h
@@ -534,6 +534,8 @@ namespace asyncpp {
 			if (curid + 1 == sizeof...(args)) { shared->result.fulfill(); }
 		}),
 		 ...);
+		// Without arguments there is nothing left to wait for
+		if constexpr (sizeof...(args) == 0) shared->result.fulfill();
 		return shared->result;
 	}
 } // namespace asyncpp
-- 
2.43.0


From 482ac0f47b1114ec010c2abe33420f3321057961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:24 +0000
Subject: [PATCH 59/59] fix: thread_pool worker went to sleep although a task
 was pushed to it meanwhile

---
 include/asyncpp/thread_pool.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/asyncpp/thread_pool.h b/include/asyncpp/thread_pool.h
index c578883..2908f1e 100644
--- a/include/asyncpp/thread_pool.h
+++ b/include/asyncpp/thread_pool.h
@@ -172,6 +172,8 @@ namespace asyncpp {
 					}
 					if (thread_index < pool->m_target_size) {
 						std::unique_lock lck{mutex};
+						// Someone might have pushed to us since we last looked, we would not get notified about that
+						if (!queue.empty()) continue;
 						cv.wait_for(lck, std::chrono::milliseconds{100});
 					}
 				}
-- 
2.43.0

