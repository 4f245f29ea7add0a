// Shared building blocks of the scenarios (instrumented code, runs on simulated threads).
#pragma once
#include "../sim/sim.h"
#include <asyncpp/dispatcher.h>
#include <asyncpp/detail/std_import.h>

#include <condition_variable>
#include <cstdint>
#include <deque>
#include <exception>
#include <functional>
#include <memory>
#include <mutex>
#include <thread>
#include <utility>
#include <vector>

namespace h {
	using asyncpp::coroutine_handle;
	using asyncpp::dispatcher;

	/// Eager detached harness coroutine
	struct co {
		struct promise_type {
			co get_return_object() noexcept { return {}; }
			asyncpp::suspend_never initial_suspend() noexcept { return {}; }
			asyncpp::suspend_never final_suspend() noexcept { return {}; }
			void return_void() noexcept {}
			void unhandled_exception() noexcept { sim::fail("unexpected-exception", "an exception escaped into a harness coroutine"); }
			// frames of harness coroutines are not subject to injected allocation failures
			void* operator new(std::size_t n) {
				sim::no_faults nf;
				return ::operator new(n);
			}
			void operator delete(void* p) { ::operator delete(p); }
		};
	};

	/// A number past the range of a narrow counter
	inline int many() {
		sim::limits(600'000'000'000LL, 4000, 20'000'000);
		return sim::biased(2, 0.03) ? 66'000 : 120 + (int)sim::param(200);
	}

	/// Group of simulated threads
	struct threads {
		std::vector<std::thread> t;
		threads() { t.reserve(16); }
		template<class F>
		void go(F&& f) {
			sim::no_faults nf;
			t.emplace_back(std::forward<F>(f));
		}
		void join() {
			for (auto& e : t)
				if (e.joinable()) e.join();
			t.clear();
		}
		~threads() { join(); }
	};

	/// Dispatcher with one simulated thread of its own
	class worker : public dispatcher {
		std::mutex m;
		std::condition_variable cv;
		std::deque<std::function<void()>> q;
		bool stopping = false;
		std::thread th;
		int tid = -1;
		const bool anonymous; // its thread does not belong to a dispatcher

	public:
		explicit worker(bool anon = false) : anonymous(anon) {
			sim::no_faults nf;
			th = std::thread([this] { run(); });
		}
		~worker() { stop(); }
		void stop() {
			{
				std::unique_lock lk(m);
				stopping = true;
				cv.notify_all();
			}
			if (th.joinable()) th.join();
		}
		void push(std::function<void()> f) override {
			sim::no_faults nf;
			std::unique_lock lk(m);
			q.emplace_back(std::move(f));
			cv.notify_one();
		}
		bool here() const noexcept { return sim::self() == tid; }
		/// simulated thread id (-1 until the thread ran)
		int thread_id() const noexcept {
			sim::quiet q;
			return tid;
		}

	private:
		void run() {
			sim::quiet_begin();
			tid = sim::self();
			sim::quiet_end();
			if (!anonymous) current(this);
			std::unique_lock lk(m);
			while (true) {
				while (q.empty() && !stopping) cv.wait(lk);
				if (q.empty()) break;
				auto f = std::move(q.front());
				q.pop_front();
				lk.unlock();
				f();
				f = nullptr;
				lk.lock();
			}
			current(nullptr);
		}
	};

	/// Run everything handed to these workers until nothing is recorded any more
	inline void drain(std::initializer_list<worker*> ws) {
		constexpr unsigned slot = 63;
		for (int k = 0; k < 16; k++) {
			const std::size_t before = sim::log_size();
			for (auto* w : ws) {
				if (!w) continue;
				sim::set(slot, 0);
				w->worker::push([] {
					sim::set(slot, 1);
					sim::release();
				});
				sim::await_acquire([] { return sim::get(slot) == 1; }, "dispatcher drained");
			}
			if (sim::log_size() == before) break;
		}
	}

	/// Dispatcher that runs everything inside push()
	class inline_dispatcher : public dispatcher {
	public:
		void push(std::function<void()> f) override {
			auto old = current(this);
			f();
			current(old);
		}
	};

	/// Makes the calling thread appear to belong to a dispatcher
	class on_dispatcher : private dispatcher {
		dispatcher* old;

	public:
		explicit on_dispatcher(dispatcher* d) : old(dispatcher::current(d)) {}
		~on_dispatcher() { dispatcher::current(old); }
		void push(std::function<void()>) override {}
	};

	// history kinds of traced awaits: a = id, b = operation, c = result
	enum log_kind : int { K_BEGIN = 1, K_SUSP, K_RESUME, K_USER };

	/// Wraps an awaiter and records when the wait began, when it was registered and when it continued
	template<class A>
	struct traced {
		A a;
		int id;
		int op;
		bool await_ready() noexcept(noexcept(a.await_ready())) {
			sim::log(K_BEGIN, id, op);
			return a.await_ready();
		}
		bool await_suspend(coroutine_handle<> hd) noexcept(noexcept(a.await_suspend(hd))) {
			const int i = id, o = op;
			bool r = true;
			if constexpr (std::is_void_v<decltype(a.await_suspend(hd))>) a.await_suspend(hd);
			else r = a.await_suspend(hd);
			// the coroutine may be gone already: only locals below
			sim::log(K_SUSP, i, o, r);
			return r;
		}
		decltype(auto) await_resume() noexcept(noexcept(a.await_resume())) {
			sim::log(K_RESUME, id, op);
			return a.await_resume();
		}
	};
	template<class A>
	traced(A, int, int) -> traced<A>;

	inline bool logged(int kind, int64_t a, int64_t b) {
		for (std::size_t i = 0; i < sim::log_size(); i++) {
			auto& e = sim::log_at(i);
			if (e.kind == kind && e.a == a && e.b == b) return true;
		}
		return false;
	}
	/// sequence number of the first matching event, 0 if none
	inline uint64_t when(int kind, int64_t a, int64_t b) {
		for (std::size_t i = 0; i < sim::log_size(); i++) {
			auto& e = sim::log_at(i);
			if (e.kind == kind && e.a == a && e.b == b) return e.seq;
		}
		return 0;
	}
	inline const sim::event* find(int kind, int64_t a, int64_t b) {
		for (std::size_t i = 0; i < sim::log_size(); i++) {
			auto& e = sim::log_at(i);
			if (e.kind == kind && e.a == a && e.b == b) return &e;
		}
		return nullptr;
	}
	inline int count(int kind, int64_t a, int64_t b) {
		int n = 0;
		for (std::size_t i = 0; i < sim::log_size(); i++) {
			auto& e = sim::log_at(i);
			n += e.kind == kind && e.a == a && e.b == b;
		}
		return n;
	}
	constexpr int64_t ms(int64_t n) { return n * 1'000'000; }

	/// counts live instances; detects double destruction and use after destruction through the memory checker
	struct token {
		int slot;
		int* heap;
		explicit token(int s) : slot(s), heap(new int(7)) { sim::add(s, 1); }
		token(const token& o) : slot(o.slot), heap(new int(*o.heap)) { sim::add(slot, 1); }
		token(token&& o) noexcept : slot(o.slot), heap(o.heap) { o.heap = nullptr; }
		token& operator=(const token& o) {
			if (this != &o) *this = token(o);
			return *this;
		}
		token& operator=(token&& o) noexcept {
			std::swap(slot, o.slot);
			std::swap(heap, o.heap);
			return *this;
		}
		~token() {
			if (heap) {
				sim::add(slot, -1);
				delete heap;
			}
		}
		bool ok() const { return heap && *heap == 7; }
	};
} // namespace h
