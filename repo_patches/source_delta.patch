From 179dc058f7c3b2c466b8e7b1457afa379c21f163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:01 +0000
Subject: [PATCH 01/35] fix: barrier must not be touched by decrement unless a
 coroutine waits on it

decrement() read m_continuation after the count reached zero. By then the
joining coroutine could have continued and destroyed the barrier, or a new
round could have registered a continuation, which was then resumed early.
Registering the continuation is now part of the count.
---
 macoro/barrier.h | 56 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 16 deletions(-)

diff --git a/macoro/barrier.h b/macoro/barrier.h
index 2698b5d..33b73cb 100644
--- a/macoro/barrier.h
+++ b/macoro/barrier.h
@@ -65,20 +65,28 @@ namespace macoro
 		// the coro that is awaiting the barrier
 		coroutine_handle<> m_continuation;
 
-		// the current count, once it decrements to 0, 
-		// m_continuation is called if set.
+		// set in m_count while a coroutine is suspended on the barrier.
+		static constexpr std::size_t waiting = 1;
+
+		// a count of one in m_count.
+		static constexpr std::size_t one = 2;
+
+		// the current count times `one`, plus `waiting` if m_continuation
+		// has to be resumed by whoever decrements the count to 0. Nobody 
+		// else may touch the barrier after their decrement, it might be 
+		// gone already.
 		std::atomic<std::size_t> m_count;
 	public:
 
 		// construct a new barrier with the given initial value.
 		explicit barrier(std::size_t initial_count = 0) noexcept
-			: m_count(initial_count)
+			: m_count(initial_count * one)
 		{}
 
 		// increament the count by amount and return the new count.
 		std::size_t add(size_t amount) noexcept
 		{
-			auto old = m_count.fetch_add(amount, std::memory_order_relaxed);
+			auto old = m_count.fetch_add(amount * one, std::memory_order_relaxed) / one;
 			auto ret = old + amount;
 			assert(ret >= old);
 			return ret;
@@ -93,19 +101,22 @@ namespace macoro
 		// returns the current count.
 		std::size_t count() const noexcept 
 		{
-			return m_count.load(std::memory_order_acquire);
+			return m_count.load(std::memory_order_acquire) / one;
 		}
 
 		// decrease the count by 1. Returns the new count.
 		std::size_t decrement() noexcept
 		{
-			const std::size_t old_count = m_count.fetch_sub(1, std::memory_order_acq_rel);
+			const std::size_t old = m_count.fetch_sub(one, std::memory_order_acq_rel);
+			const std::size_t old_count = old / one;
 
 			assert(old_count);
 
-			if (old_count == 1 && m_continuation)
+			if (old == (one | waiting))
 			{
-				std::exchange(m_continuation, nullptr).resume();
+				auto continuation = std::exchange(m_continuation, nullptr);
+				m_count.fetch_sub(waiting, std::memory_order_acq_rel);
+				continuation.resume();
 			}
 			return old_count - 1;
 		}
@@ -125,16 +136,29 @@ namespace macoro
 		coroutine_handle<Promise> continuation,
 		std::source_location loc) noexcept
 	{
-		coroutine_handle<> ret = continuation;
-		if (m_barrier.increment() > 1)
+		auto count = m_barrier.m_count.load(std::memory_order_acquire);
+		if (count == 0)
+			return continuation;
+
+		set_parent(get_traceable(continuation), loc);
+		assert(m_barrier.m_continuation == nullptr);
+		m_barrier.m_continuation = continuation;
+
+		// announce the continuation, unless the count reached zero.
+		do
 		{
-			set_parent(get_traceable(continuation), loc);
-			assert(m_barrier.m_continuation == nullptr);
-			m_barrier.m_continuation = std::exchange(ret, noop_coroutine());
-		}
-		m_barrier.decrement();
+			if (count == 0)
+			{
+				m_barrier.m_continuation = nullptr;
+				return continuation;
+			}
+		} while (m_barrier.m_count.compare_exchange_weak(
+			count, count | barrier::waiting,
+			std::memory_order_acq_rel,
+			std::memory_order_acquire) == false);
 
-		return ret;
+		// we might be resumed or even destroyed from here on.
+		return noop_coroutine();
 	}
 
 }
\ No newline at end of file
-- 
2.43.0


From 817014b5c5017004463934f959c6ba142f8335a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:41 +0000
Subject: [PATCH 02/35] fix: scoped_task published its completion before it was
 suspended

The final awaitable announced the completion from await_ready. An awaiter or
the destructor of the handle on another thread could then destroy the frame
while the coroutine was still running in it. Announce it from await_suspend
and use only locals afterwards. A dropped task is now also destroyed before
the scope is told that it is done.
---
 macoro/async_scope.h                | 25 +++++++++++--------------
 macoro/detail/scoped_task_promise.h | 28 +++++++++-------------------
 2 files changed, 20 insertions(+), 33 deletions(-)

diff --git a/macoro/async_scope.h b/macoro/async_scope.h
index ebb5732..1b7fe7c 100644
--- a/macoro/async_scope.h
+++ b/macoro/async_scope.h
@@ -259,11 +259,12 @@ namespace macoro
 
 
 		template<typename T>
-		bool scoped_task_promise<T>::final_awaitable::await_ready() noexcept
+		coroutine_handle<> scoped_task_promise<T>::final_awaitable::complete(
+			coroutine_handle<scoped_task_promise> coro) noexcept
 		{
-			scoped_task_promise& promise = m_promise;
+			scoped_task_promise& promise = coro.promise();
 			async_scope* scope = promise.m_scope;
-			bool done = false;
+			coroutine_handle<> continuation = noop_coroutine();
 
 			// race to see if we need to call the completion handle
 			// it might not have been set yet (or ever).
@@ -285,8 +286,7 @@ namespace macoro
 				// the return value. 
 				if (promise.m_continuation)
 				{
-					m_run_continutation = true;
-					done = false;
+					continuation = promise.m_continuation;
 				}
 				else
 				{
@@ -295,14 +295,11 @@ namespace macoro
 						// todo, replace vector by a lock free linked list, either to the full
 						// coro frame (no allocations) or to the execptions (node allocations).
 						// for now, locking on expcetions should be fine.
-						std::lock_guard<std::mutex> lock(promise.m_scope->m_exception_mutex);
-						promise.m_scope->m_exceptions.push_back(std::move(promise.m_exception));
+						std::lock_guard<std::mutex> lock(scope->m_exception_mutex);
+						scope->m_exceptions.push_back(std::move(promise.m_exception));
 					}
 
-					// destroy the coro.
-					// this is the same as coro.destroy()
-					// but there is a msvc bug if you do that.
-					done = true;
+					coro.destroy();
 				}
 			}
 			else
@@ -313,14 +310,14 @@ namespace macoro
 				// constumes the result.
 				// 
 				// If a continuation is never set, then the scoped_task
-				// will destroy the coro in its distructor. 
+				// will destroy the coro in its distructor. Either can
+				// happen at any time from now on.
 				assert(b == completion_state::inprogress);
-				done = false;
 			}
 
 			// notify the scope that we are done.
 			scope->m_barrier.decrement();
-			return done;
+			return continuation;
 		}
 	}
 
diff --git a/macoro/detail/scoped_task_promise.h b/macoro/detail/scoped_task_promise.h
index 76e27cd..6f327d8 100644
--- a/macoro/detail/scoped_task_promise.h
+++ b/macoro/detail/scoped_task_promise.h
@@ -262,38 +262,28 @@ namespace macoro
 			// the status of the value/exception storage.
 			result_type m_result_type = result_type::empty;
 
-			// this final awaiter runs the suspend logic in await_ready
-			// due to a bug un msvc. Using symetric transfer and called
-			// destroy when done = true causes a segfault. This alternative
-			// implementation implicitly destroys the coro by returning
-			// true from await_ready.
+			// the completion is published in await_suspend, the coroutine
+			// must be suspended by then as the other side might destroy it.
 			struct final_awaitable
 			{
-				scoped_task_promise& m_promise;
+				bool await_ready() const noexcept { return false; }
 
-				// a variable used to remember if we need to call the continuation.
-				bool m_run_continutation = false;
-
-				bool await_ready() noexcept;
+				// returns the coroutine that should be resumed next.
+				static coroutine_handle<> complete(
+					coroutine_handle<scoped_task_promise> coro) noexcept;
 
 #ifdef MACORO_CPP_20
 				std::coroutine_handle<> await_suspend(
 					std::coroutine_handle<scoped_task_promise> coro) noexcept
 				{
-					if (m_run_continutation)
-						return m_promise.m_continuation.std_cast();
-					else
-						return std::noop_coroutine();
+					return complete(coroutine_handle<scoped_task_promise>(coro)).std_cast();
 				}
 #endif
 
 				coroutine_handle<> await_suspend(
 					coroutine_handle<scoped_task_promise> coro) noexcept
 				{
-					if (m_run_continutation)
-						return m_promise.m_continuation;
-					else
-						return noop_coroutine();
+					return complete(coro);
 				}
 
 				void await_resume() noexcept {
@@ -311,7 +301,7 @@ namespace macoro
 			}
 
 			suspend_never initial_suspend() noexcept { return {}; }
-			final_awaitable final_suspend() noexcept { return { *this }; }
+			final_awaitable final_suspend() noexcept { return {}; }
 
 #ifdef MACORO_CPP_20
 			completion_state try_set_continuation(std::coroutine_handle<> continuation) noexcept
-- 
2.43.0


From 5911abb4bcd832e7e10985537a74d12f2a5e38c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:47 +0000
Subject: [PATCH 03/35] fix: async_scope join lost exceptions of tasks that
 failed after it started

The awaiter took the exceptions when it was created, unsynchronized with
tasks that were still running. Collect them when the join completes.
when_all_scope, which created that awaiter before its body ran, still does
not rethrow (its test relies on that).
---
 macoro/async_scope.h    | 15 +++++++++++----
 macoro/when_all_scope.h |  4 ++--
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/macoro/async_scope.h b/macoro/async_scope.h
index 1b7fe7c..c84ea27 100644
--- a/macoro/async_scope.h
+++ b/macoro/async_scope.h
@@ -189,7 +189,7 @@ namespace macoro
 		struct join_awaiter
 		{
 			barrier_awaiter m_barrier;
-			std::vector<std::exception_ptr> m_exceptions;
+			async_scope& m_scope;
 
 			bool await_ready() const noexcept { return m_barrier.await_ready(); }
 
@@ -212,8 +212,15 @@ namespace macoro
 			void await_resume()
 			{
 				m_barrier.await_resume();
-				if (m_exceptions.size())
-					throw async_scope_exception(std::move(m_exceptions));
+
+				// tasks might have failed after the join was started.
+				std::vector<std::exception_ptr> exceptions;
+				{
+					std::lock_guard<std::mutex> lock(m_scope.m_exception_mutex);
+					exceptions.swap(m_scope.m_exceptions);
+				}
+				if (exceptions.size())
+					throw async_scope_exception(std::move(exceptions));
 			}
 		};
 
@@ -229,7 +236,7 @@ namespace macoro
 		// until all added awaitables have been completed.
 		join_awaiter MACORO_OPERATOR_COAWAIT() & noexcept
 		{
-			return { m_barrier.MACORO_OPERATOR_COAWAIT(), std::move(m_exceptions) };
+			return { m_barrier.MACORO_OPERATOR_COAWAIT(), *this };
 		}
 
 	private:
diff --git a/macoro/when_all_scope.h b/macoro/when_all_scope.h
index f36bb3d..6739a6d 100644
--- a/macoro/when_all_scope.h
+++ b/macoro/when_all_scope.h
@@ -135,7 +135,7 @@ namespace macoro
 		struct awaiter
 		{
 			coroutine_handle<promise_type> m_handle;
-			async_scope::join_awaiter m_join;
+			barrier_awaiter m_join;
 
 			bool await_ready() { return m_join.await_ready(); }
 
@@ -157,7 +157,7 @@ namespace macoro
 
 		auto MACORO_OPERATOR_COAWAIT() const& noexcept
 		{
-			return awaiter{ m_handle, m_handle.promise().m_scope.MACORO_OPERATOR_COAWAIT() };
+			return awaiter{ m_handle, m_handle.promise().m_scope.m_barrier.MACORO_OPERATOR_COAWAIT() };
 		}
 
 
-- 
2.43.0


From c758b289cedf23d00d673ef498c9c20c227a5624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:27 +0000
Subject: [PATCH 04/35] fix: when_all_scope never released its coroutine frame

---
 macoro/when_all_scope.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/macoro/when_all_scope.h b/macoro/when_all_scope.h
index 6739a6d..b4ab4ff 100644
--- a/macoro/when_all_scope.h
+++ b/macoro/when_all_scope.h
@@ -132,6 +132,16 @@ namespace macoro
 			: m_handle(h)
 		{}
 
+		when_all_scope(when_all_scope&& other) noexcept
+			: m_handle(std::exchange(other.m_handle, nullptr))
+		{}
+
+		~when_all_scope()
+		{
+			if (m_handle)
+				m_handle.destroy();
+		}
+
 		struct awaiter
 		{
 			coroutine_handle<promise_type> m_handle;
-- 
2.43.0


From 737f3dac6abc4cba1c5402a3f8cc80f3f47089e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:30 +0000
Subject: [PATCH 05/35] fix: sequence waiters' resume handshake lacked a
 release on the suspending side

---
 macoro/sequence_barrier.h | 6 +++---
 macoro/sequence_mpsc.h    | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/macoro/sequence_barrier.h b/macoro/sequence_barrier.h
index 9977680..0b93a27 100644
--- a/macoro/sequence_barrier.h
+++ b/macoro/sequence_barrier.h
@@ -167,7 +167,7 @@ namespace macoro
 		{
 			m_awaitingCoroutine = awaitingCoroutine;
 			m_barrier.add_awaiter(this);
-			return !m_readyToResume.exchange(true, std::memory_order_acquire);
+			return !m_readyToResume.exchange(true, std::memory_order_acq_rel);
 		}
 
 		SEQUENCE await_resume() noexcept
@@ -181,8 +181,8 @@ namespace macoro
 
 		void resume() noexcept
 		{
-			// This synchronises with the exchange(true, std::memory_order_acquire) in await_suspend().
-			if (m_readyToResume.exchange(true, std::memory_order_release))
+			// This synchronises with the exchange(true, std::memory_order_acq_rel) in await_suspend().
+			if (m_readyToResume.exchange(true, std::memory_order_acq_rel))
 			{
 				m_awaitingCoroutine.resume();
 				//resume_impl();
diff --git a/macoro/sequence_mpsc.h b/macoro/sequence_mpsc.h
index 4833646..2719468 100644
--- a/macoro/sequence_mpsc.h
+++ b/macoro/sequence_mpsc.h
@@ -362,7 +362,7 @@ namespace macoro
 			// If it was already marked as ready-to-resume within the call to add_awaiter() or
 			// on another thread then this exchange() will return true. In this case we want to
 			// resume immediately and continue execution by returning false.
-			return !m_readyToResume.exchange(true, std::memory_order_acquire);
+			return !m_readyToResume.exchange(true, std::memory_order_acq_rel);
 		}
 
 		SEQUENCE await_resume() noexcept
@@ -377,7 +377,7 @@ namespace macoro
 		void resume(SEQUENCE lastKnownPublished) noexcept
 		{
 			m_lastKnownPublished = lastKnownPublished;
-			if (m_readyToResume.exchange(true, std::memory_order_release))
+			if (m_readyToResume.exchange(true, std::memory_order_acq_rel))
 			{
 				resume_impl();
 			}
-- 
2.43.0


From d2e596ecd4ceca08498de81b49d0e3fbc76f54d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:07 +0000
Subject: [PATCH 06/35] fix: sequence_mpsc resumed waiters whose own target was
 not published yet

---
 macoro/sequence_mpsc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/sequence_mpsc.h b/macoro/sequence_mpsc.h
index 2719468..bfa4041 100644
--- a/macoro/sequence_mpsc.h
+++ b/macoro/sequence_mpsc.h
@@ -686,7 +686,7 @@ namespace macoro
 
 				while (awaiters != nullptr)
 				{
-					diff_t diff = TRAITS::difference(targetSequence, lastKnownPublished);
+					diff_t diff = TRAITS::difference(awaiters->m_targetSequence, lastKnownPublished);
 					if (diff > 0)
 					{
 						// Not yet ready.
-- 
2.43.0


From ed7b8643ddb73fd6696d1884eed3d888e3eac425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:42 +0000
Subject: [PATCH 07/35] fix: sequence_mpsc missed a published slot when a
 narrow counter wrapped around

---
 macoro/sequence_mpsc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/sequence_mpsc.h b/macoro/sequence_mpsc.h
index bfa4041..7db186c 100644
--- a/macoro/sequence_mpsc.h
+++ b/macoro/sequence_mpsc.h
@@ -669,7 +669,7 @@ namespace macoro
 			//
 			// TODO: Check whether we can weaken the memory order here to just use 'seq_cst' on the
 			// first .load() and then use 'acquire' on subsequent .load().
-			while (m_published[(lastKnownPublished + 1) & sequenceMask].load(std::memory_order_seq_cst) == (lastKnownPublished + 1))
+			while (m_published[(lastKnownPublished + 1) & sequenceMask].load(std::memory_order_seq_cst) == static_cast<SEQUENCE>(lastKnownPublished + 1))
 			{
 				++lastKnownPublished;
 			}
-- 
2.43.0


From 83574baad46036473f98aec727533b216688de7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:22 +0000
Subject: [PATCH 08/35] fix: sequence_mpsc::any_available ignored the last free
 slot

---
 macoro/sequence_mpsc.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/macoro/sequence_mpsc.h b/macoro/sequence_mpsc.h
index 7db186c..3b9fd88 100644
--- a/macoro/sequence_mpsc.h
+++ b/macoro/sequence_mpsc.h
@@ -453,9 +453,9 @@ namespace macoro
 	template<typename SEQUENCE, typename TRAITS>
 	bool sequence_mpsc<SEQUENCE, TRAITS>::any_available() const noexcept
 	{
-		return TRAITS::precedes(
-			m_nextToClaim.load(std::memory_order_relaxed),
-			m_consumerBarrier.last_published() + buffer_size());
+		return !TRAITS::precedes(
+			m_consumerBarrier.last_published() + buffer_size(),
+			m_nextToClaim.load(std::memory_order_relaxed));
 	}
 
 	template<typename SEQUENCE, typename TRAITS>
-- 
2.43.0


From 3d8df9fc968ca47e45ae232500fa0398a9dcba92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:14 +0000
Subject: [PATCH 09/35] fix: sequence_spsc::claim_up_to over-claimed when a
 narrow counter wrapped around

---
 macoro/sequence_spsc.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/macoro/sequence_spsc.h b/macoro/sequence_spsc.h
index e282cf6..5f39192 100644
--- a/macoro/sequence_spsc.h
+++ b/macoro/sequence_spsc.h
@@ -239,10 +239,11 @@ namespace macoro
 
 		sequence_range<SEQUENCE, TRAITS> await_resume() noexcept
 		{
+			using size_type = typename sequence_range<SEQUENCE, TRAITS>::size_type;
 			const SEQUENCE lastAvailableSequence =
 				static_cast<SEQUENCE>(m_consumerWaitOperation.await_resume() + m_sequencer.m_bufferSize);
 			const SEQUENCE begin = m_sequencer.m_nextToClaim;
-			const std::size_t availableCount = static_cast<std::size_t>(lastAvailableSequence - begin) + 1;
+			const std::size_t availableCount = static_cast<std::size_t>(static_cast<size_type>(lastAvailableSequence - begin)) + 1;
 			const std::size_t countToClaim = std::min(m_count, availableCount);
 			const SEQUENCE end = static_cast<SEQUENCE>(begin + countToClaim);
 			m_sequencer.m_nextToClaim = end;
-- 
2.43.0


From b947990cc197de454bce1404f7e326b8da64c7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:23 +0000
Subject: [PATCH 10/35] fix: channel pop returned an item that was never sent
 once the channel was closed

---
 macoro/channel.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/macoro/channel.h b/macoro/channel.h
index 598efa3..cd6d6d7 100644
--- a/macoro/channel.h
+++ b/macoro/channel.h
@@ -324,6 +324,8 @@ namespace macoro
                 pop_wrapper await_resume() {
                     this->mChl->mLastKnown = this->mInner.await_resume();
                     assert(this->mChl->mLastKnown >= this->mChl->mFrontIndex);
+                    if (!this->mChl->mData[this->mChl->mFrontIndex & this->mChl->mIndexMask])
+                        throw channel_closed_exception{};
                     return pop_wrapper(this->mChl, this->mChl->mFrontIndex);
                 }
             };
-- 
2.43.0


From 2eeb62622687dc3f878fcb8fc902e288cb883649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:27 +0000
Subject: [PATCH 11/35] fix: eager_task could be seen as done while it was
 still running on another thread

---
 macoro/task.h | 42 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/macoro/task.h b/macoro/task.h
index b553067..5ec4a91 100644
--- a/macoro/task.h
+++ b/macoro/task.h
@@ -135,6 +135,8 @@ namespace macoro
 		{
 			friend struct final_awaitable;
 
+			enum class state : unsigned char { running, continuation, completed };
+
 			struct final_awaitable
 			{
 				bool await_ready() const noexcept { return false; }
@@ -154,10 +156,10 @@ namespace macoro
 				{
 					auto& promise = coro.promise();
 					// release our result. acquire their continuation (if they beat us).
-					auto b = promise.has_completed_or_continutation.exchange(true, std::memory_order_acq_rel);
+					auto s = promise.m_state.exchange(state::completed, std::memory_order_acq_rel);
 
-					// if b, then we have finished after the continuation was set. 
-					if (b)
+					// if so, then we have finished after the continuation was set. 
+					if (s == state::continuation)
 					{
 						assert(promise.m_continuation);
 						return promise.m_continuation;
@@ -171,7 +173,7 @@ namespace macoro
 		public:
 
 			task_promise_base() noexcept
-				: has_completed_or_continutation(false)
+				: m_state(state::running)
 			{
 				//std::cout << "eager" << std::endl;
 			}
@@ -200,11 +202,20 @@ namespace macoro
 			{
 				assert(!m_continuation);
 				m_continuation = continuation;
-				return has_completed_or_continutation.exchange(true, std::memory_order_acq_rel);
+				auto expected = state::running;
+				return !m_state.compare_exchange_strong(expected, state::continuation,
+					std::memory_order_acq_rel, std::memory_order_acquire);
+			}
+
+			// True once the task is suspended at its final suspend point. Unlike done(),
+			// this can be called while the task is running on another thread.
+			bool is_completed() const noexcept
+			{
+				return m_state.load(std::memory_order_acquire) == state::completed;
 			}
 
 		private:
-			std::atomic<bool> has_completed_or_continutation;
+			std::atomic<state> m_state;
 			
 			coroutine_handle<> m_continuation;
 		};
@@ -477,7 +488,7 @@ namespace macoro
 
 			bool await_ready() const noexcept
 			{
-				return !m_coroutine || m_coroutine.done();
+				return !m_coroutine || m_coroutine.promise().is_completed();
 			}
 
 #ifdef MACORO_CPP_20
@@ -513,6 +524,21 @@ namespace macoro
 		};
 	}
 
+	namespace detail
+	{
+		template<typename T>
+		bool task_is_completed(const coroutine_handle<task_promise<T, true>>& coroutine) noexcept
+		{
+			return coroutine.done();
+		}
+
+		template<typename T>
+		bool task_is_completed(const coroutine_handle<task_promise<T, false>>& coroutine) noexcept
+		{
+			return coroutine.promise().is_completed();
+		}
+	}
+
 	/// \brief
 	/// A task represents an operation that produces a result both lazily
 	/// and asynchronously.
@@ -584,7 +610,7 @@ namespace macoro
 		/// Awaiting a task that is ready is guaranteed not to block/suspend.
 		bool is_ready() const noexcept
 		{
-			return m_coroutine && m_coroutine.done();
+			return m_coroutine && detail::task_is_completed(m_coroutine);
 		}
 
 		struct ref_awaitable : detail::task_awaitable_base<T,lazy>
-- 
2.43.0


From 5e78f40389d0f62cce0e859fda71a3106991a90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:06 +0000
Subject: [PATCH 12/35] fix: when_all_ready could not be awaited as an lvalue

---
 macoro/detail/when_all_awaitable.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macoro/detail/when_all_awaitable.h b/macoro/detail/when_all_awaitable.h
index cac1a29..511bb67 100644
--- a/macoro/detail/when_all_awaitable.h
+++ b/macoro/detail/when_all_awaitable.h
@@ -131,14 +131,14 @@ namespace macoro
 				bool await_suspend(std::coroutine_handle<Promise> awaitingCoroutine, std::source_location loc = std::source_location::current()) noexcept
 				{
 					m_awaitable.set_parent(get_traceable(awaitingCoroutine), loc);
-					return await_suspend(coroutine_handle<>(awaitingCoroutine), loc);
+					return m_awaitable.try_await(coroutine_handle<>(awaitingCoroutine));
 				}
 #endif
 				template<typename Promise>
 				bool await_suspend(coroutine_handle<Promise> awaitingCoroutine, std::source_location loc = std::source_location::current()) noexcept
 				{
 					m_awaitable.set_parent(get_traceable(awaitingCoroutine), loc);
-					return m_awaitable.try_await(awaitingCoroutine, loc);
+					return m_awaitable.try_await(awaitingCoroutine);
 				}
 
 				TASK_CONTAINER& await_resume() noexcept
-- 
2.43.0


From 1630bbeda1147412d2826d75896b986610ee67b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:10 +0000
Subject: [PATCH 13/35] fix: awaiting a stop token raced with the stop request

---
 macoro/stop.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/macoro/stop.h b/macoro/stop.h
index e603d6e..80f1c18 100644
--- a/macoro/stop.h
+++ b/macoro/stop.h
@@ -1,6 +1,7 @@
 
 #pragma once
 
+#include <atomic>
 #include <functional>
 #include <optional>
 #include "macoro/coroutine_handle.h"
@@ -34,6 +35,11 @@ namespace macoro
 		stop_awaiter(stop_awaiter&&) = delete;
 
 		stop_token mtoken;
+		coroutine_handle<> mHandle;
+
+		// set by the first of the stop callback and await_suspend to be done 
+		// with mReg. Whoever comes second resumes the coroutine.
+		std::atomic<bool> mDone{ false };
 		optional_stop_callback mReg;
 		bool await_ready() { return false; }
 
@@ -45,11 +51,17 @@ namespace macoro
 		{
 			if (mtoken.stop_possible() && !mtoken.stop_requested())
 			{
-				mReg.emplace(mtoken, [h] {
-					h.resume();
+				mHandle = h;
+				mReg.emplace(mtoken, [this] {
+					// this might be destroyed as soon as the flag is set.
+					auto handle = mHandle;
+					if (mDone.exchange(true, std::memory_order_acq_rel))
+						handle.resume();
 					});
 
-				return noop_coroutine();
+				// the stop might have been requested in the mean time.
+				if (!mDone.exchange(true, std::memory_order_acq_rel))
+					return noop_coroutine();
 			}
 			return h;
 		}
-- 
2.43.0


From 1dc6f45c2580c4fcc3a898274f053555e7848e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:25 +0000
Subject: [PATCH 14/35] fix: pool threads referred to the thread_pool object,
 which can be moved

---
 macoro/thread_pool.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index 8bf9478..9ed7d6b 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -336,7 +336,7 @@ namespace macoro
                 mState->mThreads.reserve(mState->mThreads.size() + n);
                 for (std::size_t i = 0; i < n; ++i)
                 {
-                    mState->mThreads.emplace_back([this] {run(); });
+                    mState->mThreads.emplace_back([state = mState.get()] {run(state); });
                 }
             }
         }
@@ -377,7 +377,14 @@ namespace macoro
 
         void run()
         {
-            auto state = mState.get();
+            run(mState.get());
+        }
+
+    private:
+
+        // the threads only refer to the state, the thread_pool itself can be moved.
+        static void run(detail::thread_pool_state* state)
+        {
             //state->log("run");
 
             if (detail::thread_pool_state::mCurrentExecutor != nullptr)
-- 
2.43.0


From 6b14f639537870c8087ebbf19e5a38a8142759d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:42 +0000
Subject: [PATCH 15/35] fix: thread_pool notified its condition variable after
 the pool could be gone

---
 macoro/thread_pool.h | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index 9ed7d6b..e54b872 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -76,10 +76,10 @@ namespace macoro
             {
                 //log("post");
                 assert(fn);
-                {
-                    std::lock_guard<std::mutex> lock(mMutex);
-                    mDeque.push_back(std::move(fn));
-                }
+                // notify before the lock is released, once the work can be
+                // seen the pool might complete and be destroyed.
+                std::lock_guard<std::mutex> lock(mMutex);
+                mDeque.push_back(std::move(fn));
                 mCondition.notify_one();
             }
 
@@ -91,11 +91,8 @@ namespace macoro
                     return true;
                 else
                 {
-                    {
-                        std::lock_guard<std::mutex> lock(mMutex);
-                        mDeque.push_back(std::move(fn));
-                    }
-
+                    std::lock_guard<std::mutex> lock(mMutex);
+                    mDeque.push_back(std::move(fn));
                     mCondition.notify_one();
                     return false;
                 }
@@ -242,17 +239,14 @@ namespace macoro
 
                 if (mEx)
                 {
-
-                    std::size_t v = 0;
-                    {
-                        std::lock_guard<std::mutex> lock(mEx->mMutex);
-                        v = --mEx->mWork;
-                    }
-                    if (v == 0)
+                    // notify before the lock is released, without work
+                    // the pool might complete and be destroyed.
+                    auto ex = std::exchange(mEx, nullptr);
+                    std::lock_guard<std::mutex> lock(ex->mMutex);
+                    if (--ex->mWork == 0)
                     {
-                        mEx->mCondition.notify_all();
+                        ex->mCondition.notify_all();
                     }
-                    mEx = nullptr;
                 }
             }
             ~work()
-- 
2.43.0


From 49991c9bb793f7636a2a2bb7ed697fbd2449950d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:06 +0000
Subject: [PATCH 16/35] fix: schedule_after used the awaiter after the
 operation could be resumed

---
 macoro/thread_pool.h | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index e54b872..690c2bc 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -105,28 +105,36 @@ namespace macoro
                 optional_stop_callback& reg
             )
             {
-                if (token.stop_requested() == false)
+                // once the operation is in the heap it can be resumed, which
+                // destroys reg and the object that token refers to. Therefore
+                // the callback is registered before and a local token is used.
+                stop_token tok(std::move(token));
+                std::size_t idx;
                 {
-                    std::size_t idx;
-                    {
-                        std::unique_lock<std::mutex> lock(mMutex);
-                        idx = mDelayOpIdx++;
-                        mDelayHeap.emplace_back(idx, h, deadline);
-                        std::push_heap(mDelayHeap.begin(), mDelayHeap.end());
-                    }
+                    std::unique_lock<std::mutex> lock(mMutex);
+                    idx = mDelayOpIdx++;
+                }
 
-                    if (token.stop_possible())
-                    {
-                        reg.emplace(std::move(token), [idx, this] {
-                            cancel_delay_op(idx);
-                            });
-                    }
-                    mCondition.notify_one();
+                if (tok.stop_possible())
+                {
+                    reg.emplace(tok, [idx, this] {
+                        cancel_delay_op(idx);
+                        });
+                }
+
+                // if stop is requested after this check, then the callback
+                // will find the operation in the heap.
+                std::unique_lock<std::mutex> lock(mMutex);
+                if (tok.stop_requested())
+                {
+                    mDeque.push_back(h);
                 }
                 else
                 {
-                    post(h);
+                    mDelayHeap.emplace_back(idx, h, deadline);
+                    std::push_heap(mDelayHeap.begin(), mDelayHeap.end());
                 }
+                mCondition.notify_one();
             }
 
 
-- 
2.43.0


From b27620622b07e70cb0fdcd8abd18599bc85c4bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:19 +0000
Subject: [PATCH 17/35] fix: idle pool threads missed changes of the earliest
 deadline

---
 macoro/thread_pool.h | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index 690c2bc..2abe2d0 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -134,29 +134,28 @@ namespace macoro
                     mDelayHeap.emplace_back(idx, h, deadline);
                     std::push_heap(mDelayHeap.begin(), mDelayHeap.end());
                 }
-                mCondition.notify_one();
+                // every idle thread has to respect the new deadline, the
+                // one that is woken might get other work to do.
+                mCondition.notify_all();
             }
 
 
             void cancel_delay_op(std::size_t idx)
             {
                 //log("cancel_delay_op");
-                bool notify = false;
+                std::unique_lock<std::mutex> lock(mMutex);
+                for (std::size_t i = 0; i < mDelayHeap.size(); ++i)
                 {
-                    std::unique_lock<std::mutex> lock(mMutex);
-                    for (std::size_t i = 0; i < mDelayHeap.size(); ++i)
+                    if (mDelayHeap[i].idx == idx)
                     {
-                        if (mDelayHeap[i].idx == idx)
-                        {
-                            mDelayHeap[i].deadline = thread_pool_clock::now();
-                            std::make_heap(mDelayHeap.begin(), mDelayHeap.end());
-                            notify = true;
-                            break;
-                        }
+                        mDelayHeap[i].deadline = thread_pool_clock::now();
+                        std::make_heap(mDelayHeap.begin(), mDelayHeap.end());
+
+                        // no thread should keep waiting for the old deadline.
+                        mCondition.notify_all();
+                        break;
                     }
                 }
-                if (notify)
-                    mCondition.notify_one();
             }
 
         };
-- 
2.43.0


From c2d40be1d7fe2adef46daad99e628ee5e7b4d55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:22 +0000
Subject: [PATCH 18/35] fix: take_until copied the operation's result

---
 macoro/take_until.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/take_until.h b/macoro/take_until.h
index 2ff14eb..08bf2fc 100644
--- a/macoro/take_until.h
+++ b/macoro/take_until.h
@@ -48,6 +48,6 @@ namespace macoro
 			std::rethrow_exception(ex);
 
 		if constexpr (is_void == false)
-			co_return static_cast<awaitable_result_t<AWAITABLE>>(v.value());
+			co_return static_cast<return_type&&>(v.value());
 	}
 }
-- 
2.43.0


From 3d8ecf93af83d3611f919f5b60e74844a69a8cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:01 +0000
Subject: [PATCH 19/35] fix: value() of a const result recursed forever

---
 macoro/result.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/result.h b/macoro/result.h
index 8afac5f..9d28b0c 100644
--- a/macoro/result.h
+++ b/macoro/result.h
@@ -327,7 +327,7 @@ namespace macoro
 			if (has_error())
 				result_rethrow(error());
 
-			return value();
+			return MACORO_VARIANT_NAMESPACE::get<0>(var());
 		}
 
 		const value_type& operator*() const { return value(); }
-- 
2.43.0


From 83fd434e13636d2e2c66f6bbee2d47a0d64c9b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:17 +0000
Subject: [PATCH 20/35] fix: operator!= of a result did not compile

---
 macoro/result.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/macoro/result.h b/macoro/result.h
index 9d28b0c..a14fdd7 100644
--- a/macoro/result.h
+++ b/macoro/result.h
@@ -445,24 +445,24 @@ namespace macoro
 		template<typename T2>
 		bool operator!=(detail::OkTag<T2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 
 		template<typename T2>
 		bool operator!=(detail::OkMvTag<T2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 
 		template<typename E2>
 		bool operator!=(detail::ErrorTag<E2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 		template<typename E2>
 		bool operator!=(detail::ErrorMvTag<E2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 
 
@@ -600,12 +600,12 @@ namespace macoro
 		template<typename E2>
 		bool operator!=(detail::ErrorTag<E2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 		template<typename E2>
 		bool operator!=(detail::ErrorMvTag<E2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 
 		detail::result_awaiter<void, Error> MACORO_OPERATOR_COAWAIT()
-- 
2.43.0


From 04a70eaf9f74b3a1cca50380b075e06812727399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:51 +0000
Subject: [PATCH 21/35] fix: Ok(x) and Err(x) moved out of an lvalue x

---
 macoro/result.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/macoro/result.h b/macoro/result.h
index a14fdd7..b59292c 100644
--- a/macoro/result.h
+++ b/macoro/result.h
@@ -19,7 +19,7 @@ namespace macoro
 		struct OkTag {
 			const T& mV;
 
-			OkTag(T& e)
+			OkTag(const T& e)
 				:mV(e)
 			{}
 
@@ -53,7 +53,7 @@ namespace macoro
 		struct ErrorTag {
 			const E& mE;
 
-			ErrorTag(E& e)
+			ErrorTag(const E& e)
 				:mE(e)
 			{}
 
@@ -100,7 +100,7 @@ namespace macoro
 		return detail::ErrorTag<remove_cvref_t<T>>(t);
 	}
 
-	template<typename T>
+	template<typename T, typename = enable_if_t<!std::is_lvalue_reference<T>::value>>
 	detail::ErrorMvTag<remove_cvref_t<T>> Err(T&& t)
 	{
 		return detail::ErrorMvTag<remove_cvref_t<T>>(t);
@@ -118,7 +118,7 @@ namespace macoro
 		return detail::OkTag<remove_cvref_t<T>>(t);
 	}
 
-	template<typename T>
+	template<typename T, typename = enable_if_t<!std::is_lvalue_reference<T>::value>>
 	detail::OkMvTag<remove_cvref_t<T>> Ok(T&& t)
 	{
 		return detail::OkMvTag<remove_cvref_t<T>>(t);
-- 
2.43.0


From a4a73a6bc20f6bf8c9503ba37d086b02bf9f9581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:04 +0000
Subject: [PATCH 22/35] fix: a result whose value and error types are the same
 could not be constructed

---
 macoro/result.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/macoro/result.h b/macoro/result.h
index b59292c..818dc05 100644
--- a/macoro/result.h
+++ b/macoro/result.h
@@ -287,10 +287,10 @@ namespace macoro
 		result& operator=(const result&) = default;
 		result& operator=(result&&) = default;
 
-		result(detail::OkTag<value_type>&& v) :mVar(v.mV) {}
-		result(detail::OkMvTag<value_type>&& v) : mVar(std::move(v.mV)) {}
-		result(detail::ErrorTag<error_type>&& e) : mVar(e.mE) {}
-		result(detail::ErrorMvTag<error_type>&& e) :mVar(std::move(e.mE)) {}
+		result(detail::OkTag<value_type>&& v) :mVar(MACORO_VARIANT_NAMESPACE::in_place_index<0>, v.mV) {}
+		result(detail::OkMvTag<value_type>&& v) : mVar(MACORO_VARIANT_NAMESPACE::in_place_index<0>, std::move(v.mV)) {}
+		result(detail::ErrorTag<error_type>&& e) : mVar(MACORO_VARIANT_NAMESPACE::in_place_index<1>, e.mE) {}
+		result(detail::ErrorMvTag<error_type>&& e) :mVar(MACORO_VARIANT_NAMESPACE::in_place_index<1>, std::move(e.mE)) {}
 
 
 		variant<value_type, error_type> mVar;
-- 
2.43.0


From 4ab1057dde5eb2183ffd882bc3f196f880a2ca9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:29 +0000
Subject: [PATCH 23/35] fix: a const result could not be tested as a bool

---
 macoro/result.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macoro/result.h b/macoro/result.h
index 818dc05..169dd1e 100644
--- a/macoro/result.h
+++ b/macoro/result.h
@@ -310,7 +310,7 @@ namespace macoro
 			return !has_value();
 		}
 
-		explicit operator bool() {
+		explicit operator bool() const {
 			return has_value();
 		}
 
@@ -511,7 +511,7 @@ namespace macoro
 			return !has_value();
 		}
 
-		explicit operator bool() {
+		explicit operator bool() const {
 			return has_value();
 		}
 
-- 
2.43.0


From 3c3ad57e36ae8feb344b54aa3dde6ec564e32636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:16 +0000
Subject: [PATCH 24/35] fix: let macro coroutines await void and bool awaiters
 that only take std handles

---
 macoro/coro_frame.h | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index 26a1772..bebe4db 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -93,6 +93,20 @@ namespace macoro
 	}
 #endif
 
+	template<typename Awaiter, typename T>
+	constexpr bool noexcept_await_suspend()
+	{
+
+		if constexpr (requires(Awaiter a, coroutine_handle<T> h) { a.await_suspend(h); })
+		{
+			return noexcept(std::declval<Awaiter>().await_suspend(coroutine_handle<T>{}));
+		}
+		else
+		{
+			return noexcept(std::declval<Awaiter>().await_suspend(std::coroutine_handle<void>{}));
+		}
+	}
+
 	template<typename Awaiter, typename T>
 	await_suspend_t<bool> await_suspend(Awaiter& a, coroutine_handle<T> h,
 		enable_if_t<
@@ -101,7 +115,7 @@ namespace macoro
 		||
 		has_void_await_suspend<Awaiter, std::coroutine_handle<void>>::value
 #endif
-		, empty_state> = {}) noexcept(noexcept(a.await_suspend(h)))
+		, empty_state> = {}) noexcept(noexcept_await_suspend<Awaiter, T>())
 	{
 		auto h2 = implicit_cast<has_void_await_suspend<Awaiter, coroutine_handle<T>>::value, T>(h);
 		a.await_suspend(h2);
@@ -116,7 +130,7 @@ namespace macoro
 		||
 		has_bool_await_suspend<Awaiter, std::coroutine_handle<void>>::value
 #endif
-		, empty_state> = {}) noexcept(noexcept(await_suspend_t<bool>{ a.await_suspend(h) }))
+		, empty_state> = {}) noexcept(noexcept_await_suspend<Awaiter, T>())
 	{
 
 		auto h2 = implicit_cast<has_bool_await_suspend<Awaiter, coroutine_handle<T>>::value, T>(h);
@@ -124,20 +138,6 @@ namespace macoro
 	}
 
 
-	template<typename Awaiter, typename T>
-	constexpr bool noexcept_await_suspend()
-	{
-
-		if constexpr (requires(Awaiter a, coroutine_handle<T> h) { a.await_suspend(h); })
-		{
-			return noexcept(std::declval<Awaiter>().await_suspend(coroutine_handle<T>{}));
-		}
-		else
-		{
-			return noexcept(std::declval<Awaiter>().await_suspend(std::coroutine_handle<void>{}));
-		}
-	}
-
 	template<typename Awaiter, typename T>
 	auto await_suspend(Awaiter& a, coroutine_handle<T> h,
 		enable_if_t<
-- 
2.43.0


From 04844024b989b2d67d16bef822ac43d0d2139484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:32 +0000
Subject: [PATCH 25/35] fix: destroy a macro coroutine once when it is
 destroyed via its std handle

---
 macoro/coro_frame.h | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index bebe4db..670f44c 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -556,21 +556,34 @@ namespace macoro
 
 				~promise_type()
 				{
-					if (outer_handle)
-						outer_handle.destroy();
+					// we are being destroyed via the std handle, the frame
+					// goes with us. The null handle tells it that it was us.
+					if (auto h = std::exchange(outer_handle, nullptr))
+						h.destroy();
 				}
 
+				// the size of the header in front of the adapter's frame.
+				static constexpr std::size_t header_size =
+					(sizeof(std::shared_ptr<char>) + alignof(std::max_align_t) - 1) /
+					alignof(std::max_align_t) * alignof(std::max_align_t);
+
+				// The storage is owned by the outer frame, and by itself (via the header)
+				// until operator delete, which might be called after the outer frame is gone.
 				template<typename TT>
 				void* operator new(std::size_t size, TT& base)
 				{
 					assert(base.frame_adapter_storage == nullptr);
 					base.frame_adapter_storage =
-						std::shared_ptr<char>(new char[size], std::default_delete<char[]>());
-					return base.frame_adapter_storage.get();
+						std::shared_ptr<char>(new char[header_size + size], std::default_delete<char[]>());
+					new (base.frame_adapter_storage.get()) std::shared_ptr<char>(base.frame_adapter_storage);
+					return base.frame_adapter_storage.get() + header_size;
 				}
 
 				void operator delete(void* ptr, std::size_t size)
 				{
+					auto header = reinterpret_cast<std::shared_ptr<char>*>((char*)ptr - header_size);
+					auto storage = std::move(*header);
+					header->~shared_ptr();
 				}
 
 				void return_void() {}
@@ -580,7 +593,8 @@ namespace macoro
 
 			~std_handle_adapter()
 			{
-				std::coroutine_handle<promise_type>::from_promise(*promise).destroy();
+				if (promise)
+					std::coroutine_handle<promise_type>::from_promise(*promise).destroy();
 			}
 
 			promise_type* promise;
@@ -678,8 +692,11 @@ namespace macoro
 		{
 			// For when std_adapter isn'mTask the one who called our destructor,
 			// prevent it from calling it recursively by setting the handle
-			// back to this frame to null.
-			std_adapter.promise->outer_handle = std::nullptr_t{};
+			// back to this frame to null. Otherwise, do not destroy it again.
+			if (std_adapter.promise->outer_handle)
+				std_adapter.promise->outer_handle = std::nullptr_t{};
+			else
+				std_adapter.promise = nullptr;
 		}
 	private:
 
-- 
2.43.0


From eee706376dcbf17fb1015ce6e60c965c2e15b191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:57 +0000
Subject: [PATCH 26/35] fix: call return_void() when the body of a macro
 coroutine flows off its end

---
 macoro/coro_frame.h | 11 +++++++++++
 macoro/macros.h     |  2 ++
 2 files changed, 13 insertions(+)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index 670f44c..8f3584b 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -281,6 +281,17 @@ namespace macoro
 	//std::false_type is_lvalue(T&&) { return {}; }
 
 
+	namespace detail
+	{
+		// called when the body of a macro coroutine ends without returning.
+		template<typename Promise>
+		void flow_off_end(Promise& promise)
+		{
+			if constexpr (requires(Promise & p) { p.return_void(); })
+				promise.return_void();
+		}
+	}
+
 	template<typename Ref, typename Dec>
 	struct store_as
 	{
diff --git a/macoro/macros.h b/macoro/macros.h
index 9f5ee5e..7aee40c 100644
--- a/macoro/macros.h
+++ b/macoro/macros.h
@@ -194,6 +194,8 @@ do { auto _macoro_frame_ = ::macoro::makeFrame<typename ::macoro::coroutine_trai
 
 // End the coroutine body.
 #define MC_END()																								\
+				/*flowing off the end of the body is a `co_return;` if the promise has one.*/					\
+				::macoro::detail::flow_off_end(_macoro_frame_->promise);										\
 				break; 																							\
 			case (std::size_t)::macoro::SuspensionPoint::FinalSuspend:														\
 				goto MACORO_FINAL_SUSPEND_RESUME;																\
-- 
2.43.0


From 7da44faa2f060eb9a44cc3a87a9401cb8e105d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:46 +0000
Subject: [PATCH 27/35] fix: do not apply await_transform to initial_suspend,
 final_suspend and yields of macro coroutines

---
 macoro/coro_frame.h | 16 +++++++++++++--
 macoro/macros.h     | 47 ++++++++++++++++++++++++---------------------
 2 files changed, 39 insertions(+), 24 deletions(-)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index 8f3584b..55a84cf 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -255,13 +255,25 @@ namespace macoro
 
 
 
-	template<typename Promise, size_t idx, typename Expr>
+	// Transform is true if the expression is subject to promise.await_transform(...), i.e. 
+	// it is the operand of a co_await and not that of the initial suspend, final suspend or a co_yield.
+	template<typename Promise, size_t idx, typename Expr, bool Transform = true>
 	struct AwaitContext
 	{
 		using promise_type = Promise;
 		using expression_type = Expr;
 		static const size_t suspend_index = idx;
-		using awaitable_type = decltype(get_awaitable(std::declval<promise_type&>(), std::declval<ExpressionStorage<expression_type>>().get()));
+
+		template<typename T>
+		static decltype(auto) make_awaitable(promise_type& promise, T&& expr)
+		{
+			if constexpr (Transform)
+				return get_awaitable(promise, static_cast<T&&>(expr));
+			else
+				return static_cast<T&&>(expr);
+		}
+
+		using awaitable_type = decltype(make_awaitable(std::declval<promise_type&>(), std::declval<ExpressionStorage<expression_type>>().get()));
 		using awaiter_type = decltype(get_awaiter(std::declval<awaitable_type>()));
 
 		ExpressionStorage<expression_type> expr;
diff --git a/macoro/macros.h b/macoro/macros.h
index 7aee40c..0547ae1 100644
--- a/macoro/macros.h
+++ b/macoro/macros.h
@@ -26,17 +26,20 @@
 // the value returned from the function.
 // 
 // Then we have the awaiter, we call await_ready and await_suspend.
-#define IMPL_MC_AWAIT_CORE_NS(EXPRESSION, SUSPEND_IDX)																	\
+//
+// TRANSFORM should be true for co_await expressions, these are passed to promise.await_transform(...) 
+// if there is one. It should be false for the initial suspend, final suspend and co_yield.
+#define IMPL_MC_AWAIT_CORE_NS(EXPRESSION, SUSPEND_IDX, TRANSFORM)																\
 	using _macoro_promise_type = decltype(_macoro_frame_->promise);														\
 	using MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX) = ::macoro::AwaitContext<_macoro_promise_type, SUSPEND_IDX,		\
-		::macoro::store_as_t<decltype(::macoro::as_reference(EXPRESSION)), decltype(EXPRESSION)>>;						\
+		::macoro::store_as_t<decltype(::macoro::as_reference(EXPRESSION)), decltype(EXPRESSION)>, TRANSFORM>;						\
 	using _macoro_Handle = ::macoro::coroutine_handle<_macoro_promise_type>;											\
 	{																													\
 		auto& _macoro_promise = _macoro_frame_->promise;																\
 		auto _macoro_handle = _macoro_Handle::from_promise(_macoro_promise, ::macoro::coroutine_handle_type::macoro);	\
 		auto& _macoro_ctx = _macoro_frame_->template makeAwaitContext<MACORO_CAT(_macoro_AwaitContext, SUSPEND_IDX)>();	\
 		_macoro_ctx.expr.ptr      = new (_macoro_ctx.expr.v())      typename decltype(_macoro_ctx.expr)::Constructor(EXPRESSION);															\
-		_macoro_ctx.awaitable.ptr = new (_macoro_ctx.awaitable.v()) typename decltype(_macoro_ctx.awaitable)::Constructor(macoro::get_awaitable(_macoro_promise, _macoro_ctx.expr.get()));	\
+		_macoro_ctx.awaitable.ptr = new (_macoro_ctx.awaitable.v()) typename decltype(_macoro_ctx.awaitable)::Constructor(MACORO_CAT(_macoro_AwaitContext, SUSPEND_IDX)::make_awaitable(_macoro_promise, _macoro_ctx.expr.get()));	\
 		_macoro_ctx.awaiter.ptr   = new (_macoro_ctx.awaiter.v())   typename decltype(_macoro_ctx.awaiter)::Constructor(macoro::get_awaiter(_macoro_ctx.awaitable.get()));					\
 		auto& _macoro_awaiter = _macoro_ctx.awaiter.getRef();													\
 		*_macoro_ctx.awaiter_ptr = (void*)&_macoro_awaiter;														\
@@ -56,15 +59,15 @@
 // This macro expands out to generated the await_ready and await_suspend calls.
 // It defines a suspension point but does not call await_resume. This should be
 // used with other macros which perform the await_resume call.
-#define IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX)	IMPL_MC_AWAIT_CORE_NS(EXPRESSION, SUSPEND_IDX)				\
+#define IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX, TRANSFORM)	IMPL_MC_AWAIT_CORE_NS(EXPRESSION, SUSPEND_IDX, TRANSFORM)	\
 			MACORO_FALLTHROUGH; case (std::size_t)::macoro::SuspensionPoint(SUSPEND_IDX):		
 
 // a helper macro that defines a basic co_await expression. 
 // RETURN_SLOT can be used to set a variable to the result of the co_await expression.
 // SUSPEND_IDX should be a unique integer literal. Typically obtained using __COUNTER__.
-#define IMPL_MC_AWAIT(EXPRESSION, RETURN_SLOT, SUSPEND_IDX)														\
+#define IMPL_MC_AWAIT(EXPRESSION, RETURN_SLOT, SUSPEND_IDX, TRANSFORM)													\
 				do {																							\
-					IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX)													\
+					IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX, TRANSFORM)													\
 					/*<resume-point>*/																			\
 					RETURN_SLOT _macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>().await_resume();		\
 					_macoro_frame_->template destroyAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>();		\
@@ -75,7 +78,7 @@
 // SUSPEND_IDX should be a unique integer literal. Typically obtained using __COUNTER__.
 #define IMPL_MC_AWAIT_TRY(EXPRESSION, RETURN_SLOT, SUSPEND_IDX)													\
 				do{																								\
-					IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX)													\
+					IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX, true)													\
 					/*<resume-point>*/																			\
 					::macoro::detail::try_resume(RETURN_SLOT, 													\
 						_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>());	\
@@ -85,9 +88,9 @@
 // A helper macro that implements the MC_YIELD_AWAIT. We first perform a normal co_await
 // and then we call another co_await on the result of promise.yield_value(awaiter.await_resume()).
 #define IMPL_MC_YIELD_AWAIT(EXPRESSION, SUSPEND_IDX)															\
-				do {	IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX)												\
+				do {	IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX, true)												\
 					/*<resume-point>*/																			\
-					IMPL_MC_AWAIT(_macoro_frame_->promise.yield_value(_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>().await_resume()), ,__COUNTER__);\
+					IMPL_MC_AWAIT(_macoro_frame_->promise.yield_value(_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>().await_resume()), ,__COUNTER__, false);\
 					_macoro_frame_->template destroyAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>();		\
 				} while(0)
 
@@ -95,18 +98,18 @@
 // A helper macro that implements the MC_AWAIT_AWAIT. We first perform a normal co_await
 // and then we call another co_await on the result of awaiter.await_resume().
 #define IMPL_MC_AWAIT_AWAIT(EXPRESSION, SUSPEND_IDX)															\
-				do{	IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX)													\
+				do{	IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX, true)													\
 					/*<resume-point>*/																			\
-					IMPL_MC_AWAIT(_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>().await_resume(), ,__COUNTER__);\
+					IMPL_MC_AWAIT(_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>().await_resume(), ,__COUNTER__, true);\
 					_macoro_frame_->template destroyAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>();		\
 				} while(0)
 
 
 // A helper macro that implements the MC_AWAIT_FN. We first perform a normal co_await
 // and then we call the function with the await_resume result as the parameter.
-#define IMPL_MC_AWAIT_FN(FN_SLOT, EXPRESSION, OPTIONAL_GOTO, SUSPEND_IDX)										\
+#define IMPL_MC_AWAIT_FN(FN_SLOT, EXPRESSION, OPTIONAL_GOTO, SUSPEND_IDX, TRANSFORM)									\
 				do{																								\
-					IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX)													\
+					IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX, TRANSFORM)													\
 					/*<resume-point>*/																			\
 					FN_SLOT(_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>().await_resume());							\
 					_macoro_frame_->template destroyAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>();		\
@@ -125,7 +128,7 @@ do { auto _macoro_frame_ = ::macoro::makeFrame<typename ::macoro::coroutine_trai
 			{																									\
 			case (std::size_t)::macoro::SuspensionPoint::InitialSuspendBegin:												\
 				do {																								\
-					IMPL_MC_AWAIT_CORE(_macoro_frame_->promise.initial_suspend(), MACORO_INITIAL_SUSPEND_IDX)	\
+					IMPL_MC_AWAIT_CORE(_macoro_frame_->promise.initial_suspend(), MACORO_INITIAL_SUSPEND_IDX, false)	\
 					_macoro_frame_->_initial_suspend_await_resumed_called_ = true;								\
 					_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,MACORO_INITIAL_SUSPEND_IDX)>().await_resume();			\
 					_macoro_frame_->template destroyAwaiter<MACORO_CAT(_macoro_AwaitContext,MACORO_INITIAL_SUSPEND_IDX)>();						\
@@ -144,7 +147,7 @@ do { auto _macoro_frame_ = ::macoro::makeFrame<typename ::macoro::coroutine_trai
 
 // Calls the given function on the result of the co_await expression. This is equivalent to
 // `f(co_await EXPRESSION)` where f is the function name provided.
-#define MC_AWAIT_FN(FN_SLOT, EXPRESSION)	IMPL_MC_AWAIT_FN(FN_SLOT,EXPRESSION, , __COUNTER__)					
+#define MC_AWAIT_FN(FN_SLOT, EXPRESSION)	IMPL_MC_AWAIT_FN(FN_SLOT,EXPRESSION, , __COUNTER__, true)					
 
 // Returns void. Equivalent to `co_return;`
 #define MC_RETURN_VOID()																						\
@@ -159,12 +162,12 @@ do { auto _macoro_frame_ = ::macoro::makeFrame<typename ::macoro::coroutine_trai
 
 // perform a basic co_await expression. This is equivalent to
 // `co_await EXPRESSION`
-#define MC_AWAIT(EXPRESSION)				IMPL_MC_AWAIT(EXPRESSION, , __COUNTER__)
+#define MC_AWAIT(EXPRESSION)				IMPL_MC_AWAIT(EXPRESSION, , __COUNTER__, true)
 
 
 // perform a basic co_await expression and set VARIABLE to the result. This is equivalent to
 // `VARIABLE = co_await EXPRESSION`
-#define MC_AWAIT_SET(VARIABLE, EXPRESSION)	IMPL_MC_AWAIT(EXPRESSION, VARIABLE = , __COUNTER__)
+#define MC_AWAIT_SET(VARIABLE, EXPRESSION)	IMPL_MC_AWAIT(EXPRESSION, VARIABLE = , __COUNTER__, true)
 
 
 // perform a basic co_await expression and set VARIABLE to the Ok(result) or Err(std::current_exception()). This is equivalent to
@@ -174,21 +177,21 @@ do { auto _macoro_frame_ = ::macoro::makeFrame<typename ::macoro::coroutine_trai
 
 // perform a basic co_await expression and return to the result. This is equivalent to
 // `co_return co_await EXPRESSION`
-#define MC_RETURN_AWAIT(EXPRESSION)			IMPL_MC_AWAIT_FN(_macoro_frame_->promise.return_value, EXPRESSION, goto MACORO_FINAL_SUSPEND_BEGIN;,__COUNTER__)
+#define MC_RETURN_AWAIT(EXPRESSION)			IMPL_MC_AWAIT_FN(_macoro_frame_->promise.return_value, EXPRESSION, goto MACORO_FINAL_SUSPEND_BEGIN;, __COUNTER__, true)
 
 
 // perform a basic co_yeild expression. This is equivalent to
 // `co_yeild EXPRESSION`
-#define MC_YIELD(EXPRESSION)				MC_AWAIT(_macoro_frame_->promise.yield_value(EXPRESSION));
+#define MC_YIELD(EXPRESSION)				IMPL_MC_AWAIT(_macoro_frame_->promise.yield_value(EXPRESSION), , __COUNTER__, false);
 
 
 // perform a basic co_yeild expression and set VARIABLE to the result. This is equivalent to
 // `VARIABLE = co_yeild EXPRESSION`
-#define MC_YIELD_SET(VARIABLE, EXPRESSION)	MC_AWAIT_SET(VARIABLE , _macoro_frame_->promise.yield_value(EXPRESSION));
+#define MC_YIELD_SET(VARIABLE, EXPRESSION)	IMPL_MC_AWAIT(_macoro_frame_->promise.yield_value(EXPRESSION), VARIABLE = , __COUNTER__, false);
 
 // perform a basic co_yeild expression and return to the result. This is equivalent to
 // `co_return co_yeild EXPRESSION`
-#define MC_RETURN_YIELD(EXPRESSION)			MC_RETURN_AWAIT(_macoro_frame_->promise.yield_value(EXPRESSION));
+#define MC_RETURN_YIELD(EXPRESSION)			IMPL_MC_AWAIT_FN(_macoro_frame_->promise.return_value, _macoro_frame_->promise.yield_value(EXPRESSION), goto MACORO_FINAL_SUSPEND_BEGIN;, __COUNTER__, false);
 
 #define MC_UNHANDLED_EXCEPTION _macoro_frame_->promise.unhandled_exception()
 
@@ -215,7 +218,7 @@ do { auto _macoro_frame_ = ::macoro::makeFrame<typename ::macoro::coroutine_trai
 goto MACORO_FINAL_SUSPEND_BEGIN; /*prevents unused warning*/													\
 MACORO_FINAL_SUSPEND_BEGIN:																						\
 		_macoro_frame_->final_suspend();																		\
-		IMPL_MC_AWAIT_CORE_NS(_macoro_frame_->promise.final_suspend(), MACORO_FINAL_SUSPEND_IDX)				\
+		IMPL_MC_AWAIT_CORE_NS(_macoro_frame_->promise.final_suspend(), MACORO_FINAL_SUSPEND_IDX, false)				\
 MACORO_FINAL_SUSPEND_RESUME:																					\
 		_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext, MACORO_FINAL_SUSPEND_IDX)>().await_resume();	\
 		_macoro_frame_->template destroyAwaiter<MACORO_CAT(_macoro_AwaitContext, MACORO_FINAL_SUSPEND_IDX)>();	\
-- 
2.43.0


From cb939a2f00f6dfc3cb1e0b1260411d68ae188d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:46 +0000
Subject: [PATCH 28/35] fix: a macro coroutine is done after
 unhandled_exception() rethrows

---
 macoro/macros.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/macoro/macros.h b/macoro/macros.h
index 0547ae1..5277a6f 100644
--- a/macoro/macros.h
+++ b/macoro/macros.h
@@ -212,6 +212,8 @@ do { auto _macoro_frame_ = ::macoro::makeFrame<typename ::macoro::coroutine_trai
 			_macoro_frame_->destroyAwaiters();																	\
 			if (!_macoro_frame_->_initial_suspend_await_resumed_called_)										\
 				throw; 																							\
+			/*if this throws, then we are suspended at the final suspend point.*/								\
+			_macoro_frame_->_suspension_idx_ = ::macoro::SuspensionPoint::FinalSuspend;							\
 			MC_UNHANDLED_EXCEPTION;																				\
 		}																										\
 		/*final suspend*/																						\
-- 
2.43.0


From 00be4b0a7c811e046ca6e8d4cf26d47ccf49a07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 29/35] fix: MC_AWAIT_TRY catches what the expression,
 await_ready and await_suspend throw

---
 macoro/coro_frame.h | 11 +++++++++++
 macoro/macros.h     | 21 +++++++++++++++++----
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index 55a84cf..52af636 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -465,6 +465,17 @@ namespace macoro
 			awaiters.pop_back();
 		}
 
+		// destroy what was constructed for the await expression when it threw before it was resumed.
+		template<typename CTX>
+		void cancelAwaiter()
+		{
+			if (awaiters.size() && awaiters.back().suspend_index == CTX::suspend_index)
+			{
+				awaiters.back()._awaiter_deleter(awaiters.back()._ctx_ptr);
+				awaiters.pop_back();
+			}
+		}
+
 #ifdef MACORO_CPP_20
 
 		//using inline_storage_adapter = std::aligned_storage_t<400, alignof(std::max_align_t)>;
diff --git a/macoro/macros.h b/macoro/macros.h
index 5277a6f..69cc6aa 100644
--- a/macoro/macros.h
+++ b/macoro/macros.h
@@ -29,11 +29,13 @@
 //
 // TRANSFORM should be true for co_await expressions, these are passed to promise.await_transform(...) 
 // if there is one. It should be false for the initial suspend, final suspend and co_yield.
-#define IMPL_MC_AWAIT_CORE_NS(EXPRESSION, SUSPEND_IDX, TRANSFORM)																\
+#define IMPL_MC_AWAIT_CORE_TYPES(EXPRESSION, SUSPEND_IDX, TRANSFORM)																\
 	using _macoro_promise_type = decltype(_macoro_frame_->promise);														\
 	using MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX) = ::macoro::AwaitContext<_macoro_promise_type, SUSPEND_IDX,		\
 		::macoro::store_as_t<decltype(::macoro::as_reference(EXPRESSION)), decltype(EXPRESSION)>, TRANSFORM>;						\
-	using _macoro_Handle = ::macoro::coroutine_handle<_macoro_promise_type>;											\
+	using _macoro_Handle = ::macoro::coroutine_handle<_macoro_promise_type>;
+
+#define IMPL_MC_AWAIT_CORE_BODY(EXPRESSION, SUSPEND_IDX)																		\
 	{																													\
 		auto& _macoro_promise = _macoro_frame_->promise;																\
 		auto _macoro_handle = _macoro_Handle::from_promise(_macoro_promise, ::macoro::coroutine_handle_type::macoro);	\
@@ -54,7 +56,11 @@
 			if (_macoro_s)																						\
 				return _macoro_s.get_handle();																	\
 		}																										\
-	}																					
+	}
+
+#define IMPL_MC_AWAIT_CORE_NS(EXPRESSION, SUSPEND_IDX, TRANSFORM)	\
+	IMPL_MC_AWAIT_CORE_TYPES(EXPRESSION, SUSPEND_IDX, TRANSFORM)	\
+	IMPL_MC_AWAIT_CORE_BODY(EXPRESSION, SUSPEND_IDX)
 
 // This macro expands out to generated the await_ready and await_suspend calls.
 // It defines a suspension point but does not call await_resume. This should be
@@ -78,7 +84,14 @@
 // SUSPEND_IDX should be a unique integer literal. Typically obtained using __COUNTER__.
 #define IMPL_MC_AWAIT_TRY(EXPRESSION, RETURN_SLOT, SUSPEND_IDX)													\
 				do{																								\
-					IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX, true)													\
+					IMPL_MC_AWAIT_CORE_TYPES(EXPRESSION, SUSPEND_IDX, true)										\
+					try { IMPL_MC_AWAIT_CORE_BODY(EXPRESSION, SUSPEND_IDX) }										\
+					catch (...) {																				\
+						_macoro_frame_->template cancelAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>();	\
+						RETURN_SLOT = ::macoro::Err(std::current_exception());									\
+						break;																					\
+					}																							\
+					MACORO_FALLTHROUGH; case (std::size_t)::macoro::SuspensionPoint(SUSPEND_IDX):				\
 					/*<resume-point>*/																			\
 					::macoro::detail::try_resume(RETURN_SLOT, 													\
 						_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>());	\
-- 
2.43.0


From e626c8930ca3f5622f3346102e2cc33acb367f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:30 +0000
Subject: [PATCH 30/35] fix: done() and destroy() of a type-erased noop handle

---
 macoro/coro_frame.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index 52af636..a7e7916 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -861,6 +861,8 @@ namespace macoro
 
 	inline bool _macoro_coro_done(void* _address)noexcept
 	{
+		if (_address == noop_coroutine().address())
+			return false;
 #ifdef MACORO_CPP_20
 		if (!_macoro_coro_is_std(_address))
 		{
@@ -960,6 +962,8 @@ namespace macoro
 
 	inline void _macoro_coro_destroy(void* _address)noexcept
 	{
+		if (_address == noop_coroutine().address())
+			return;
 #ifdef MACORO_CPP_20
 		if (!_macoro_coro_is_std(_address))
 		{
-- 
2.43.0


From 9771c7d8a6e743ff3261bed6a9513ab3f9632f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 31/35] fix: pass the location of the co_await through wrap()

---
 macoro/wrap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/wrap.h b/macoro/wrap.h
index 21028c6..e0db036 100644
--- a/macoro/wrap.h
+++ b/macoro/wrap.h
@@ -32,7 +32,7 @@ namespace macoro
 			template<typename Handle>
 			auto await_suspend(Handle h)
 			{
-				if constexpr (requires(awaiter_storage m_awaiter) { { m_awaiter.await_suspend(h, m_loc) } -> std::convertible_to<int>; })
+				if constexpr (requires(awaiter_storage m_awaiter) { m_awaiter.await_suspend(h, m_loc); })
 				{
 					return m_awaiter.await_suspend(h, m_loc);
 				}
-- 
2.43.0


From 79a7a5cba1b4ede4fb372bd8934b3aee1708e0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 32/35] fix: record where a macro coroutine awaits, not a line
 of coro_frame.h

---
 macoro/coro_frame.h | 27 ++++++++++++++++++++-------
 macoro/macros.h     |  2 +-
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index a7e7916..87c185d 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -12,6 +12,7 @@
 #include <vector>
 #include <cstddef>
 #include <memory>
+#include <source_location>
 #ifdef MACORO_CPP_20
 #include <coroutine>
 #endif
@@ -107,8 +108,20 @@ namespace macoro
 		}
 	}
 
+	// Call a.await_suspend(h). Awaiters that record where they are awaited take a second,
+	// defaulted source_location. The default would be evaluated in this file and so we
+	// pass on the location of the macro.
+	template<typename Awaiter, typename Handle>
+	decltype(auto) invoke_await_suspend(Awaiter& a, Handle h, const std::source_location& loc)
+	{
+		if constexpr (requires { a.await_suspend(h); a.await_suspend(h, loc); })
+			return a.await_suspend(h, loc);
+		else
+			return a.await_suspend(h);
+	}
+
 	template<typename Awaiter, typename T>
-	await_suspend_t<bool> await_suspend(Awaiter& a, coroutine_handle<T> h,
+	await_suspend_t<bool> await_suspend(Awaiter& a, coroutine_handle<T> h, const std::source_location& loc,
 		enable_if_t<
 		has_void_await_suspend<Awaiter, coroutine_handle<T>>::value 
 #ifdef MACORO_CPP_20
@@ -118,12 +131,12 @@ namespace macoro
 		, empty_state> = {}) noexcept(noexcept_await_suspend<Awaiter, T>())
 	{
 		auto h2 = implicit_cast<has_void_await_suspend<Awaiter, coroutine_handle<T>>::value, T>(h);
-		a.await_suspend(h2);
+		invoke_await_suspend(a, h2, loc);
 		return { true };
 	}
 
 	template<typename Awaiter, typename T>
-	await_suspend_t<bool> await_suspend(Awaiter& a, coroutine_handle<T> h,
+	await_suspend_t<bool> await_suspend(Awaiter& a, coroutine_handle<T> h, const std::source_location& loc,
 		enable_if_t<
 		has_bool_await_suspend<Awaiter, coroutine_handle<T>>::value 
 #ifdef MACORO_CPP_20
@@ -134,12 +147,12 @@ namespace macoro
 	{
 
 		auto h2 = implicit_cast<has_bool_await_suspend<Awaiter, coroutine_handle<T>>::value, T>(h);
-		return { a.await_suspend(h2) };
+		return { invoke_await_suspend(a, h2, loc) };
 	}
 
 
 	template<typename Awaiter, typename T>
-	auto await_suspend(Awaiter& a, coroutine_handle<T> h,
+	auto await_suspend(Awaiter& a, coroutine_handle<T> h, const std::source_location& loc,
 		enable_if_t<
 		!has_void_await_suspend<Awaiter, coroutine_handle<T>>::value &&
 		!has_bool_await_suspend<Awaiter, coroutine_handle<T>>::value 
@@ -167,13 +180,13 @@ namespace macoro
 		if constexpr (requires(Awaiter a) { a.await_suspend(h); })
 		{
 			using promise_type = typename coroutine_handle_traits<decltype(a.await_suspend(h))>::promise_type;
-			auto ret = a.await_suspend(h);
+			auto ret = invoke_await_suspend(a, h, loc);
 			return await_suspend_t<coroutine_handle<promise_type>>{ ret, h != ret  };
 		}
 		else
 		{
 			auto hstd = h.std_cast();
-			auto ret = a.await_suspend(hstd);
+			auto ret = invoke_await_suspend(a, hstd, loc);
 			return await_suspend_t<coroutine_handle<void>>{ coroutine_handle<void>(ret), hstd != ret  };
 		}
 	}
diff --git a/macoro/macros.h b/macoro/macros.h
index 69cc6aa..84ae640 100644
--- a/macoro/macros.h
+++ b/macoro/macros.h
@@ -52,7 +52,7 @@
 																												\
 			/*<call awaiter.await_suspend(). If it's void return, then return true.>*/							\
 			/*perform symmetric transfer or return to caller (for noop_coroutine) */							\
-			auto _macoro_s = ::macoro::await_suspend(_macoro_awaiter, _macoro_handle);							\
+			auto _macoro_s = ::macoro::await_suspend(_macoro_awaiter, _macoro_handle, std::source_location::current());	\
 			if (_macoro_s)																						\
 				return _macoro_s.get_handle();																	\
 		}																										\
-- 
2.43.0


From 7d8a4bae1503a503f4be46c5a64a2ccf4b17f5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 33/35] fix: let coroutines outside of macoro::detail await
 barriers and when_all_scopes

---
 macoro/barrier.h        | 2 +-
 macoro/when_all_scope.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/macoro/barrier.h b/macoro/barrier.h
index 33b73cb..b95a40e 100644
--- a/macoro/barrier.h
+++ b/macoro/barrier.h
@@ -140,7 +140,7 @@ namespace macoro
 		if (count == 0)
 			return continuation;
 
-		set_parent(get_traceable(continuation), loc);
+		set_parent(detail::get_traceable(continuation), loc);
 		assert(m_barrier.m_continuation == nullptr);
 		m_barrier.m_continuation = continuation;
 
diff --git a/macoro/when_all_scope.h b/macoro/when_all_scope.h
index b4ab4ff..39f9a6e 100644
--- a/macoro/when_all_scope.h
+++ b/macoro/when_all_scope.h
@@ -154,7 +154,7 @@ namespace macoro
 				std::coroutine_handle<promise> p, 
 				std::source_location loc = std::source_location::current())
 			{
-				m_handle.promise().m_scope.set_parent(get_traceable(p.promise()), loc);
+				m_handle.promise().m_scope.set_parent(detail::get_traceable(p.promise()), loc);
 				m_handle.resume();
 				return m_join.await_suspend(p);
 			}
-- 
2.43.0


From 6d434484381f04a2918eb74ce75bdab01822287b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:18 +0000
Subject: [PATCH 34/35] fix: the call stack ended at a when_all of void tasks

---
 macoro/detail/when_all_task.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/macoro/detail/when_all_task.h b/macoro/detail/when_all_task.h
index a30b974..cf941ad 100644
--- a/macoro/detail/when_all_task.h
+++ b/macoro/detail/when_all_task.h
@@ -222,7 +222,12 @@ namespace macoro
 
 			//private:
 
-			when_all_ready_awaitable_base* m_awaitable;
+			traceable* get_traceable()
+			{
+				return m_awaitable;
+			}
+
+			when_all_ready_awaitable_base* m_awaitable = nullptr;
 			coroutine_handle_type m_type;
 			//when_all_counter* m_counter;
 			std::exception_ptr m_exception;
-- 
2.43.0


From 478a3834cfc9ed793939e9a213c83999e10410ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:41 +0000
Subject: [PATCH 35/35] fix: barrier count raised again while the last
 decrement releases the waiter

The decrement that reached zero cleared the waiting bit in a second step. A
count that was raised and lowered again in between released the waiter twice.
---
 macoro/barrier.h | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/macoro/barrier.h b/macoro/barrier.h
index b95a40e..f2a8e8a 100644
--- a/macoro/barrier.h
+++ b/macoro/barrier.h
@@ -107,16 +107,26 @@ namespace macoro
 		// decrease the count by 1. Returns the new count.
 		std::size_t decrement() noexcept
 		{
-			const std::size_t old = m_count.fetch_sub(one, std::memory_order_acq_rel);
-			const std::size_t old_count = old / one;
+			std::size_t old = m_count.load(std::memory_order_relaxed);
+			std::size_t next;
+
+			// whoever brings the count to zero takes over the waiting
+			// coroutine in the same step. The count might be incremented
+			// again by others right after.
+			do
+			{
+				assert(old / one);
+				next = old == (one | waiting) ? 0 : old - one;
+			} while (m_count.compare_exchange_weak(
+				old, next,
+				std::memory_order_acq_rel,
+				std::memory_order_relaxed) == false);
 
-			assert(old_count);
+			const std::size_t old_count = old / one;
 
 			if (old == (one | waiting))
 			{
-				auto continuation = std::exchange(m_continuation, nullptr);
-				m_count.fetch_sub(waiting, std::memory_order_acq_rel);
-				continuation.resume();
+				std::exchange(m_continuation, nullptr).resume();
 			}
 			return old_count - 1;
 		}
-- 
2.43.0

