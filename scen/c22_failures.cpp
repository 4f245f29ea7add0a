// Resource failures and throwing element operations: every request either takes effect or fails without a trace.
#include "common.h"
#include <asyncpp/async_generator.h>
#include <asyncpp/channel.h>
#include <asyncpp/fiber.h>
#include <asyncpp/fire_and_forget.h>
#include <asyncpp/generator.h>
#include <asyncpp/launch.h>
#include <asyncpp/promise.h>
#include <asyncpp/queue.h>
#include <asyncpp/ref.h>
#include <asyncpp/signal.h>
#include <asyncpp/simple_dispatcher.h>
#include <asyncpp/stop_token.h>
#include <asyncpp/sync_wait.h>
#include <asyncpp/task.h>
#include <asyncpp/thread_pool.h>
#include <asyncpp/threadsafe_queue.h>
#include <asyncpp/timer.h>
#include <future>
#include <optional>
#include <system_error>
using namespace h;

namespace {
	enum { S_TOKENS = 1, S_NEXT, S_P, S_LIVE, S_DONE, S_LOSS, S_RUN = 100, S_OK = 250, S_STATE = 400 };
	enum { K_RAN = K_USER, K_PUSHED, K_POPPED };
	constexpr int MAXID = 140;

	struct thrown {
		int id;
	};
	double prob() { return (double)sim::get(S_P) / 100; }
	void setup() {
		static constexpr int p[] = {20, 5, 50, 0};
		sim::set(S_P, p[sim::param(4)]);
	}
	int fresh() {
		const int id = (int)sim::add(S_NEXT, 1);
		SIM_CHECK(id < MAXID, "harness", "too many identifiers");
		return id;
	}
	void ran(int id) { sim::add(S_RUN + (unsigned)id, 1); }
	int runs(int id) { return (int)sim::get(S_RUN + (unsigned)id); }
	void accepted(int id) { sim::set(S_OK + (unsigned)id, 1); }

	/// a library call that may fail: true if it was accepted
	template<class F>
	bool attempt(F&& f, bool once = false) {
		sim::faults on(prob(), once);
		try {
			f();
			return true;
		} catch (const std::bad_alloc&) {
		} catch (const std::system_error&) {
		} catch (const thrown&) {}
		SIM_CHECK(on.fired(), "spurious-failure", "an operation failed although nothing it needs failed");
		SIM_PROBE("failed");
		return false;
	}
	/// the same for what a coroutine does around a suspension
	template<class A>
	struct armed {
		A a;
		bool await_ready() {
			sim::faults on(prob());
			return a.await_ready();
		}
		auto await_suspend(coroutine_handle<> hd) {
			sim::faults on(prob());
			return a.await_suspend(hd);
		}
		decltype(auto) await_resume() {
			sim::disarm(); // might run inside of an operation of somebody else
			return a.await_resume();
		}
	};
	template<class A>
	armed(A) -> armed<A>;

	template<class A>
	struct unarmed {
		A a;
		bool await_ready() { return a.await_ready(); }
		auto await_suspend(coroutine_handle<> hd) { return a.await_suspend(hd); }
		decltype(auto) await_resume() {
			sim::disarm();
			return a.await_resume();
		}
	};
	template<class A>
	unarmed(A) -> unarmed<A>;

	/// exactly the accepted requests were served, once each
	void check_served(const char* what) {
		for (int id = 1; id <= (int)sim::get(S_NEXT); id++) {
			const int n = runs(id), ok = (int)sim::get(S_OK + (unsigned)id);
			SIM_CHECK(n == 0 || ok, "ran-rejected", "%s: request %d reported a failure but took effect", what, id);
			if (ok && !n && sim::get(S_LOSS) > 0) sim::add(S_LOSS, -1);
			else SIM_CHECK(n > 0 || !ok, "lost", "%s: request %d was accepted but never served", what, id);
			SIM_CHECK(n <= 1, "twice", "%s: request %d was served %d times", what, id, n);
		}
	}
	void check_clean(const char* what) {
		SIM_CHECK(sim::get(S_TOKENS) == 0, "leak", "%s: %d copies of user objects are still alive", what, (int)sim::get(S_TOKENS));
	}

	// ---- dispatchers -----------------------------------------------------------------------------------
	void pool_op(asyncpp::thread_pool& p, int depth) {
		const int id = fresh();
		std::function<void()> fn = [&p, id, depth, t = token{S_TOKENS}] {
			SIM_CHECK(t.ok(), "dead", "a task runs after it was destroyed");
			ran(id);
			if (depth < 2 && sim::param(3) == 1) pool_op(p, depth + 1);
		};
		if (attempt([&] { p.push(std::move(fn)); })) accepted(id);
	}

	struct pusher_done {
		~pusher_done() { sim::add(S_DONE, 1); }
	};
} // namespace

SIM_SCENARIO(thread_pool, 1.2) {
	setup();
	{
		std::optional<asyncpp::thread_pool> pool;
		const unsigned n = 1 + sim::param(3);
		for (int k = 0; k < 3 && !pool; k++) attempt([&] { pool.emplace(n); });
		if (!pool) pool.emplace(n);
		auto& p = *pool;
		SIM_CHECK(p.size() == n, "size", "a pool of %u threads reports %zu", n, p.size());
		threads t;
		for (unsigned i = 0, k = 1 + sim::param(2); i < k; i++)
			t.go([&p] {
				for (unsigned j = 0, m = 1 + sim::param(4); j < m; j++) pool_op(p, 0);
			});
		for (unsigned i = 0, k = sim::param(4); i < k; i++) {
			const std::size_t old = p.size(), want = 1 + sim::param(4);
			const bool ok = attempt([&] { p.resize(want); });
			SIM_CHECK(p.size() == (ok ? want : old), "size", "resizing from %zu to %zu threads %s but left %zu threads", old, want, ok ? "succeeded" : "failed", p.size());
			if (sim::flip()) pool_op(p, 0);
		}
		t.join();
	}
	check_served("thread pool");
	check_clean("thread pool");
}

SIM_SCENARIO(simple_dispatcher, 0.5) {
	setup();
	{
		asyncpp::simple_dispatcher d;
		threads t;
		t.go([&d] { d.run(); });
		const int k = 1 + (int)sim::param(3);
		for (int i = 0; i < k; i++)
			t.go([&d, i] {
				for (int j = 0, m = 1 + (int)sim::param(4); j < m; j++) {
					const int id = fresh();
					std::function<void()> fn = [id, i, j, tk = token{S_TOKENS}] {
						SIM_CHECK(tk.ok(), "dead", "a task runs after it was destroyed");
						ran(id);
						SIM_CHECK(sim::get(S_STATE + (unsigned)i) <= j, "order", "tasks of one thread ran out of order");
						sim::set(S_STATE + (unsigned)i, j);
					};
					if (attempt([&] { d.push(std::move(fn)); })) accepted(id);
				}
				sim::add(S_DONE, 1);
			});
		sim::await([k] { return sim::get(S_DONE) == k; }, "pushing threads");
		d.push([&d] { d.stop(); });
		t.join();
	}
	check_served("simple_dispatcher");
	check_clean("simple_dispatcher");
}

namespace {
	co timer_wait(asyncpp::timer& tm, int64_t delay, asyncpp::stop_token st, bool cancellable, int id) {
		sim::add(S_LIVE, 1);
		{
			token tk{S_TOKENS};
			try {
				if (cancellable) co_await armed{tm.wait(std::chrono::nanoseconds(delay), st)};
				else co_await armed{tm.wait(std::chrono::nanoseconds(delay))};
				accepted(id);
				ran(id);
			} catch (const std::bad_alloc&) {} catch (const std::system_error&) {}
			SIM_CHECK(tk.ok(), "dead", "a waiting coroutine was damaged");
		}
		sim::add(S_LIVE, -1);
	}
} // namespace

SIM_SCENARIO(timer, 1.2) {
	setup();
	{
		std::optional<asyncpp::timer> tm;
		for (int k = 0; k < 2 && !tm; k++) attempt([&] { tm.emplace(); });
		if (!tm) tm.emplace();
		std::optional<asyncpp::stop_source> src;
		for (int k = 0; k < 2 && !src; k++) attempt([&] { src.emplace(); });
		if (!src) src.emplace();
		{
			threads t;
			for (unsigned i = 0, k = 1 + sim::param(2); i < k; i++)
				t.go([&] {
					for (unsigned j = 0, m = 1 + sim::param(4); j < m; j++) {
						const int id = fresh();
						const int64_t delay = sim::flip() ? ms(1 + sim::param(50)) : -ms(1);
						auto body = [id, tk = token{S_TOKENS}] {
							SIM_CHECK(tk.ok(), "dead", "a callback runs after it was destroyed");
							ran(id);
						};
						switch (sim::param(5)) {
						case 0: {
							std::function<void()> fn = body;
							if (attempt([&] { tm->push(std::move(fn)); })) accepted(id);
							break;
						}
						case 1: {
							std::function<void(bool)> fn = [body](bool) { body(); };
							if (attempt([&] { tm->schedule(std::move(fn), std::chrono::nanoseconds(delay)); })) accepted(id);
							break;
						}
						case 2: {
							std::function<void(bool)> fn = [body](bool) { body(); };
							auto tok = src->get_token();
							if (attempt([&] { tm->schedule(std::move(fn), std::chrono::nanoseconds(delay), std::move(tok)); })) accepted(id);
							break;
						}
						case 3: timer_wait(*tm, delay, src->get_token(), true, id); break;
						default: timer_wait(*tm, delay, src->get_token(), false, id); break;
						}
					}
				});
			if (sim::flip()) t.go([&] {
				if (sim::flip()) sim::sleep(ms(5));
				src->request_stop();
			});
			t.join();
		}
		if (sim::flip()) src.reset();
		tm.reset();
	}
	SIM_CHECK(sim::get(S_LIVE) == 0, "stuck", "%d coroutines still wait on a timer that is gone", (int)sim::get(S_LIVE));
	check_served("timer");
	check_clean("timer");
}

// ---- containers ----------------------------------------------------------------------------------------
namespace {
	/// element whose copies and moves may throw
	template<bool Throwing>
	struct item {
		int id;
		token t{S_TOKENS};
		explicit item(int i) : id(i) {}
		item(int a, int b) : id(a + b) {
			if (sim::throwing()) throw thrown{id};
		}
		item(const item& o) : id((may(o.id), o.id)), t(o.t) {}
		item(item&& o) noexcept(!Throwing) : id((may(o.id), o.id)), t(std::move(o.t)) { o.id = -1; }
		item& operator=(const item& o) {
			if (this != &o) *this = item(o);
			return *this;
		}
		item& operator=(item&& o) noexcept(!Throwing) {
			may(o.id);
			std::swap(id, o.id);
			t = std::move(o.t);
			return *this;
		}
		static void may(int id) {
			if constexpr (Throwing)
				if (sim::throwing(0.6)) throw thrown{id};
		}
		void check() const { SIM_CHECK(id > 0 && t.ok(), "dead", "an element was handed out moved-from or destroyed"); }
	};
	template<class T>
	void got(const std::optional<T>& r) {
		if (!r) return;
		r->check();
		ran(r->id);
		sim::log(K_POPPED, r->id, sim::self());
	}
	// elements of one producer are received in the order it offered them, as far as one consumer can tell
	template<class T>
	struct queue_world {
		asyncpp::queue<T> q;
		worker* w;
		explicit queue_world(std::size_t max, worker* ww) : q(max), w(ww) {}
	};
	template<class T>
	co queue_pop(queue_world<T>& w) {
		sim::add(S_LIVE, 1);
		// retries without failures, so that elements are left behind only if nobody came for them
		bool again = false;
		try {
			auto aw = w.q.pop();
			aw.resume_on(w.w);
			got(co_await armed{std::move(aw)});
		} catch (const std::bad_alloc&) { again = true; } catch (const thrown&) { again = true; }
		if (again) {
			SIM_PROBE("pop-failed");
			sim::disarm();
			auto aw = w.q.pop();
			aw.resume_on(w.w);
			got(co_await unarmed{std::move(aw)});
		}
		sim::add(S_LIVE, -1);
	}
	template<class T>
	co queue_push(queue_world<T>& w, int id) {
		sim::add(S_LIVE, 1);
		try {
			T v{id};
			auto aw = w.q.push(std::move(v));
			aw.resume_on(w.w);
			if (co_await armed<decltype(aw)&>{aw}) accepted(id);
		} catch (const std::bad_alloc&) {} catch (const thrown&) {}
		sim::add(S_LIVE, -1);
	}
	template<class T>
	void queue_run() {
		{
			std::unique_ptr<worker> wk;
			if (sim::flip()) wk = std::make_unique<worker>();
			static constexpr std::size_t sizes[] = {std::numeric_limits<std::size_t>::max(), 1, 2, 3};
			queue_world<T> w{sizes[sim::param(4)], wk.get()};
			{
				threads t;
				for (unsigned i = 0, k = 1 + sim::param(3); i < k; i++)
					t.go([&w] {
						for (unsigned j = 0, m = 1 + sim::param(6); j < m; j++) {
							switch (sim::param(5)) {
							case 0: {
								const int id = fresh();
								T v{id};
								bool res = false;
								if (attempt([&] { res = w.q.try_push(std::move(v)); }) && res) accepted(id);
								break;
							}
							case 1: {
								const int id = fresh();
								bool res = false;
								if (attempt([&] { res = w.q.try_emplace(id - 1, 1); }) && res) accepted(id);
								break;
							}
							case 2: {
								// an element whose own move fails on the way out of the call may be gone
								const bool ok = attempt([&] {
									auto r = w.q.try_pop();
									sim::disarm();
									got(r);
								});
								if (!ok && !std::is_nothrow_move_constructible_v<T>) sim::add(S_LOSS, 1);
								break;
							}
							case 3: queue_pop(w); break;
							default: queue_push(w, fresh()); break;
							}
						}
					});
				t.join();
			}
			// everything accepted is still there, and everyone waiting gets served
			for (int k = 0, pushed = 0; k < 400; k++) {
				if (wk) drain({wk.get()});
				if (w.q.empty() && !sim::get(S_LIVE)) break;
				if (auto r = w.q.try_pop()) {
					got(r);
					continue;
				}
				// only consumers are left
				if (pushed++ >= 40) break;
				const int id = fresh();
				SIM_CHECK(w.q.try_push(T{id}), "full", "an empty queue refuses an element");
				accepted(id);
			}
			if (wk) drain({wk.get()});
			SIM_CHECK(sim::get(S_LIVE) == 0, "stuck", "%d coroutines wait forever on the queue", (int)sim::get(S_LIVE));
			SIM_CHECK(w.q.empty(), "stuck", "elements can not be taken out of the queue");
			if (wk) wk->stop();
		}
		check_served("queue");
		check_clean("queue");
	}
	// one thread: the order of elements while storing or handing them out fails
	template<class T>
	co ordered_push(asyncpp::queue<T>& q, int id) {
		int r = 3;
		try {
			T v{id};
			auto aw = q.push(std::move(v));
			r = (co_await armed<decltype(aw)&>{aw}) ? 1 : 2;
		} catch (const std::bad_alloc&) {} catch (const thrown&) {}
		sim::set(S_STATE + (unsigned)id, r);
	}
	template<class T>
	co ordered_pop(asyncpp::queue<T>& q, unsigned slot) {
		int r = -1;
		try {
			if (auto v = co_await armed{q.pop()}) {
				v->check();
				r = v->id;
			}
		} catch (const std::bad_alloc&) { r = -2; } catch (const thrown&) { r = -2; }
		sim::set(slot, r);
	}
	template<class T>
	void queue_order() {
		{
			static constexpr std::size_t sizes[] = {1, 2, 3, std::numeric_limits<std::size_t>::max()};
			const std::size_t max = sizes[sim::param(4)];
			asyncpp::queue<T> q{max};
			std::deque<int> order; // what is stored, then what waits to be stored
			bool maybe_lost = false; // the first of them
			auto popped = [&](int id) {
				if (maybe_lost && order.size() > 1 && order[0] != id) order.pop_front();
				maybe_lost = false;
				SIM_CHECK(!order.empty() && order[0] == id, "fifo", "element %d came out, but %d was accepted before it", id, order.empty() ? 0 : order[0]);
				order.pop_front();
			};
			auto waiting = [&] {
				std::size_t n = 0;
				for (int id : order) n += sim::get(S_STATE + (unsigned)id) == 0;
				return n;
			};
			for (unsigned k = 0, n = 4 + sim::param(24); k < n; k++) {
				const std::size_t before = waiting();
				switch (sim::param(5)) {
				case 0: {
					const int id = fresh();
					T v{id};
					bool res = false;
					const bool em = sim::flip();
					if (!attempt([&] { res = em ? q.try_emplace(id - 1, 1) : q.try_push(std::move(v)); })) break;
					if (res) sim::set(S_STATE + (unsigned)id, 1), order.push_back(id);
					else SIM_CHECK(before || order.size() >= max || maybe_lost, "full", "a queue with %zu of %zu elements refuses another", order.size(), max);
					if (res) SIM_CHECK(!before, "fifo", "an element was accepted ahead of one that waits for space");
					break;
				}
				case 1: {
					const int id = fresh();
					ordered_push(q, id);
					const auto r = sim::get(S_STATE + (unsigned)id);
					SIM_CHECK(r != 2, "push-failed", "push() failed without a clear()");
					if (r == 3) break;
					if (r == 1) SIM_CHECK(!before, "fifo", "an element was accepted ahead of one that waits for space");
					else SIM_CHECK(before || order.size() >= max || maybe_lost, "full", "push() waits although only %zu of %zu places are used", order.size(), max);
					order.push_back(id);
					break;
				}
				case 2: {
					int id = 0;
					const bool ok = attempt([&] {
						auto r = q.try_pop();
						sim::disarm();
						if (r) r->check(), id = r->id;
					});
					// an element whose own move fails on the way out of the call may be gone
					if (!ok && !order.empty() && !std::is_nothrow_move_constructible_v<T>) {
						// two in a row: find out what is left
						if (maybe_lost || order.size() == 1) {
							const std::size_t have = q.size();
							SIM_CHECK(have <= order.size() && have + 2 >= order.size(), "size", "%zu elements are left of %zu", have, order.size());
							while (order.size() > have) order.pop_front();
							maybe_lost = false;
						} else
							maybe_lost = q.size() < order.size();
						break;
					}
					if (!ok) break;
					if (id) popped(id);
					else SIM_CHECK(order.empty(), "lost", "the queue looks empty with %zu elements in it", order.size());
					break;
				}
				default: {
					if (order.empty()) break;
					constexpr unsigned slot = 99;
					sim::set(slot, 0);
					ordered_pop(q, slot);
					const auto r = (int)sim::get(slot);
					SIM_CHECK(r != 0, "stuck", "pop() waits although there are %zu elements", order.size());
					if (r > 0) popped(r);
					else SIM_CHECK(r == -2, "pop-failed", "pop() failed although the queue was not replaced");
					break;
				}
				}
				if (!maybe_lost) {
					SIM_CHECK(q.size() == order.size(), "size", "size() is %zu with %zu elements", q.size(), order.size());
					SIM_CHECK(q.empty() == order.empty(), "size", "empty() is %d with %zu elements", q.empty(), order.size());
				}
				const std::size_t now = waiting();
				SIM_CHECK(order.size() - now - maybe_lost <= max, "bound", "%zu elements are stored in a queue of at most %zu", order.size() - now, max);
			}
			while (true) {
				auto r = q.try_pop();
				if (!r) break;
				popped(r->id);
			}
			SIM_CHECK(order.empty() && q.empty(), "lost", "%zu accepted elements never came out", order.size());
		}
		check_clean("queue");
	}
} // namespace

SIM_SCENARIO(queue, 1) { setup(); queue_run<item<false>>(); }
SIM_SCENARIO(queue_order, 0.5) {
	setup();
	if (sim::flip()) queue_order<item<false>>();
	else queue_order<item<true>>();
}
SIM_SCENARIO(queue_throwing, 1) { setup(); queue_run<item<true>>(); }

SIM_SCENARIO(threadsafe_queue, 0.4) {
	setup();
	using T = item<true>;
	{
		asyncpp::threadsafe_queue<T> q;
		threads t;
		for (unsigned i = 0, k = 1 + sim::param(3); i < k; i++)
			t.go([&q] {
				for (unsigned j = 0, m = 1 + sim::param(6); j < m; j++) {
					switch (sim::param(3)) {
					case 0: {
						const int id = fresh();
						T v{id};
						if (attempt([&] { q.push(std::move(v)); })) accepted(id);
						break;
					}
					case 1: {
						const int id = fresh();
						if (attempt([&] { q.emplace(id - 1, 1); })) accepted(id);
						break;
					}
					default: {
						const bool ok = attempt([&] {
							auto r = q.pop();
							sim::disarm();
							got(r);
						});
						if (!ok) sim::add(S_LOSS, 1);
						break;
					}
					}
				}
			});
		t.join();
		while (auto r = q.pop()) got(r);
	}
	check_served("threadsafe_queue");
	check_clean("threadsafe_queue");
}

// ---- channel --------------------------------------------------------------------------------------------
namespace {
	using chan = asyncpp::channel<item<true>>;
	co chan_read(chan& c, worker* w) {
		sim::add(S_LIVE, 1);
		try {
			auto aw = c.read();
			aw.resume_on(w);
			got(co_await armed{std::move(aw)});
		} catch (const thrown&) {} catch (const std::bad_alloc&) {}
		sim::add(S_LIVE, -1);
	}
	co chan_write(chan& c, int id, worker* w) {
		sim::add(S_LIVE, 1);
		try {
			auto aw = c.write(item<true>{id});
			aw.resume_on(w);
			if (co_await armed<decltype(aw)&>{aw}) accepted(id);
		} catch (const thrown&) {} catch (const std::bad_alloc&) {}
		sim::add(S_LIVE, -1);
	}
} // namespace

SIM_SCENARIO(channel, 0.8) {
	setup();
	{
		std::unique_ptr<worker> wk;
		if (sim::flip()) wk = std::make_unique<worker>();
		chan c;
		{
			threads t;
			for (unsigned i = 0, k = 1 + sim::param(3); i < k; i++)
				t.go([&c, w = wk.get()] {
					for (unsigned j = 0, m = 1 + sim::param(5); j < m; j++) {
						switch (sim::param(4)) {
						case 0: {
							const int id = fresh();
							item<true> v{id};
							bool res = false;
							if (attempt([&] { res = c.try_write(std::move(v)); }) && res) accepted(id);
							break;
						}
						case 1: {
							const bool ok = attempt([&] {
								auto r = c.try_read();
								sim::disarm();
								got(r);
							});
							if (!ok) sim::add(S_LOSS, 1);
							break;
						}
						case 2: chan_read(c, w); break;
						default: chan_write(c, fresh(), w); break;
						}
					}
				});
			t.join();
		}
		for (int k = 0; k < 200; k++) {
			if (wk) drain({wk.get()});
			if (!sim::get(S_LIVE)) break;
			if (auto r = c.try_read()) {
				got(r);
				continue;
			}
			const int id = fresh();
			SIM_CHECK(c.try_write(item<true>{id}), "stuck", "%d coroutines wait on a channel that knows of none", (int)sim::get(S_LIVE));
			accepted(id);
		}
		SIM_CHECK(sim::get(S_LIVE) == 0, "stuck", "%d coroutines wait forever on the channel", (int)sim::get(S_LIVE));
		if (wk) wk->stop();
	}
	check_served("channel");
	check_clean("channel");
}

// ---- promise ---------------------------------------------------------------------------------------------
namespace {
	template<class P>
	co promise_wait(P p, int id) {
		sim::add(S_LIVE, 1);
		bool waited = false;
		try {
			auto aw = p.operator co_await();
			if constexpr (std::is_void_v<typename P::result_type>) co_await armed<decltype(aw)&>{aw};
			else {
				auto& v = co_await armed<decltype(aw)&>{aw};
				v.check();
			}
			waited = true;
		} catch (const std::bad_alloc&) {} catch (const std::logic_error&) { waited = true; }
		if (waited) {
			SIM_CHECK(!p.is_pending(), "early", "a coroutine continued before the promise settled");
			accepted(id);
			ran(id);
		}
		sim::add(S_LIVE, -1);
	}
	template<class P>
	void promise_run() {
		constexpr bool is_void = std::is_void_v<typename P::result_type>;
		{
			std::optional<P> pr;
			for (int k = 0; k < 2 && !pr; k++) attempt([&] { pr.emplace(); });
			if (!pr) pr.emplace();
			{
				threads t;
				for (unsigned i = 0, k = 1 + sim::param(3); i < k; i++)
					t.go([p = *pr]() mutable {
						for (unsigned j = 0, m = 1 + sim::param(4); j < m; j++) {
							switch (sim::param(6)) {
							case 0: {
								const int id = fresh();
								std::function<void()> fn = [id, tk = token{S_TOKENS}] {
									sim::disarm();
									ran(id);
								};
								if (attempt([&] { p.on_settle(std::move(fn)); })) accepted(id);
								break;
							}
							case 1: {
								const int id = fresh();
								std::function<void(const std::exception_ptr&)> rj = [id, tk = token{S_TOKENS}](const std::exception_ptr&) {
									sim::disarm();
									ran(id);
								};
								bool ok = false;
								if constexpr (is_void) {
									std::function<void()> fn = [id, tk = token{S_TOKENS}] {
										sim::disarm();
										ran(id);
									};
									ok = attempt([&] { p.then(std::move(fn), std::move(rj)); });
								} else {
									std::function<void(const typename P::result_type&)> fn = [id, tk = token{S_TOKENS}](const typename P::result_type& r) {
										sim::disarm();
										r.check();
										ran(id);
									};
									ok = attempt([&] { p.then(std::move(fn), std::move(rj)); });
								}
								if (ok) accepted(id);
								break;
							}
							case 2: promise_wait(p, fresh()); break;
							case 3: {
								bool res = false;
								if constexpr (is_void) attempt([&] { res = p.try_fulfill(); });
								else {
									item<true> v{1};
									const bool ok = attempt([&] {
										if (sim::flip()) res = p.try_fulfill(v);
										else res = p.try_fulfill(std::move(v));
									});
									if (ok) SIM_CHECK(!p.is_pending(), "pending", "try_fulfill returned but the promise is pending");
								}
								if (res) SIM_CHECK(sim::add(S_STATE, 1) == 1 && p.is_fulfilled(), "settled-twice", "a promise was settled twice");
								break;
							}
							case 4: {
								bool res = false;
								if (sim::param(3) == 1) {
									attempt([&] { res = p.template try_reject<std::logic_error>("no"); });
									if (res) SIM_CHECK(sim::add(S_STATE, 1) == 1 && p.is_rejected(), "settled-twice", "a promise was settled twice");
								}
								break;
							}
							default: {
								P c = p;
								p = c;
								static_cast<void>(p.try_get(std::nothrow));
								break;
							}
							}
						}
					});
				t.join();
			}
			bool settled = !pr->is_pending();
			SIM_CHECK(settled == (sim::get(S_STATE) == 1), "state", "the promise is settled although no call reported it");
			if (!settled) {
				if constexpr (is_void) pr->fulfill();
				else pr->fulfill(item<true>{1});
			}
			SIM_CHECK(sim::get(S_LIVE) == 0, "stuck", "%d coroutines wait on a settled promise", (int)sim::get(S_LIVE));
			check_served("promise");
		}
		check_clean("promise");
	}
} // namespace

SIM_SCENARIO(promise, 0.8) { setup(); promise_run<asyncpp::promise<item<true>>>(); }
SIM_SCENARIO(promise_void, 0.4) { setup(); promise_run<asyncpp::promise<void>>(); }

SIM_SCENARIO(combinators, 0.5) {
	setup();
	using P = asyncpp::promise<item<false>>;
	{
		P a, b, c;
		std::optional<P> first;
		std::optional<asyncpp::promise<void>> all;
		const int kind = (int)sim::param(3);
		bool ok = false;
		threads t;
		if (sim::flip()) t.go([a]() mutable { a.fulfill(item<false>{1}); });
		else t.go([a]() mutable { a.reject(std::make_exception_ptr(1)); });
		t.go([b]() mutable { b.fulfill(item<false>{2}); });
		for (unsigned k = 0, m = 1 + sim::param(3); k < m && !ok; k++)
			ok = attempt([&] {
				if (kind == 0) first.emplace(asyncpp::promise_first<item<false>>(a, b, c));
				if (kind == 1) first.emplace(asyncpp::promise_first_successful<item<false>>(a, b, c));
				if (kind == 2) all.emplace(asyncpp::promise_all(a, b, c));
			});
		t.join();
		c.fulfill(item<false>{3});
		if (first) SIM_CHECK(kind == 0 ? !first->is_pending() : first->is_fulfilled(), "pending", "the combined promise is not settled although its arguments are");
		if (all) SIM_CHECK(all->is_fulfilled(), "pending", "the combined promise is not settled although its arguments are");
	}
	check_clean("combinators");
}

// ---- signals ----------------------------------------------------------------------------------------------
namespace {
	struct callable {
		int id;
		token t{S_TOKENS};
		explicit callable(int i) : id(i) {}
		callable(const callable& o) : id((item<true>::may(o.id), o.id)), t(o.t) {}
		callable(callable&& o) : id((item<true>::may(o.id), o.id)), t(std::move(o.t)) {}
		void operator()(int add) const {
			SIM_CHECK(t.ok(), "dead", "a callable runs after it was destroyed");
			for (; add; add--) ran(id);
		}
	};
} // namespace

SIM_SCENARIO(signal, 0.5) {
	setup();
	{
		asyncpp::signal<void(int)> s;
		asyncpp::signal_manager<int, void(int)> m;
		std::vector<asyncpp::signal_handle> keep;
		threads t;
		for (unsigned i = 0, k = 1 + sim::param(2); i < k; i++)
			t.go([&] {
				for (unsigned j = 0, n = 1 + sim::param(5); j < n; j++) {
					const int id = fresh();
					callable fn{id};
					asyncpp::signal_handle h;
					const bool front = sim::flip();
					const int ev = (int)sim::param(4);
					const bool ok = attempt([&] {
						if (ev == 3) h = front ? s.prepend(std::move(fn)) : s.append(fn);
						else h = front ? m.prepend(ev, fn) : m.append(ev, std::move(fn));
					});
					SIM_CHECK(ok == h.valid(), "handle", "the handle of a connection does not match the result");
					if (ok) accepted(id);
					if (sim::flip()) attempt([&] {
						if (ev == 3) s(0);
						else m(ev, 0);
					});
					if (sim::param(3) == 1) attempt([&] { m.shrink_to_fit(); });
				}
			});
		t.join();
		s(1);
		for (int e = 0; e < 3; e++) m(e, 1);
		check_served("signal");
	}
	check_clean("signal");
}

// ---- coroutines --------------------------------------------------------------------------------------------
namespace {
	using arg = item<false>;
	asyncpp::task<int> a_task(arg a) {
		a.check();
		ran(a.id);
		co_return a.id;
	}
	asyncpp::task<arg> an_arg_task(arg a) {
		a.check();
		ran(a.id);
		co_return a;
	}
	asyncpp::generator<int> a_gen(arg a) {
		ran(a.id);
		for (int i = 0; i < 2; i++) co_yield a.id + i;
	}
	asyncpp::async_generator<int> an_agen(arg a) {
		ran(a.id);
		for (int i = 0; i < 2; i++) co_yield a.id + i;
	}
	asyncpp::fire_and_forget_task<> a_faf(arg a) {
		a.check();
		ran(a.id);
		co_return;
	}
	asyncpp::eager_fire_and_forget_task<> an_efaf(arg a) {
		a.check();
		ran(a.id);
		co_return;
	}
	co run_agen(asyncpp::async_generator<int> g, int id) {
		int n = 0;
		for (auto it = co_await g.begin(); it != g.end(); co_await ++it) SIM_CHECK(*it == id + n++, "value", "an async_generator yields a wrong value");
		SIM_CHECK(n == 2, "value", "an async_generator yields %d instead of 2 values", n);
	}
	co run_task(asyncpp::task<int> t, int id) { SIM_CHECK(co_await t == id, "value", "a task returns a wrong value"); }

	struct boom {};
	/// a copyable awaitable that fails to suspend, or continues
	struct step {
		int id;
		arg a;
		bool await_ready() const noexcept { return false; }
		bool await_suspend(coroutine_handle<>) {
			a.check();
			ran(id);
			return false;
		}
		void await_resume() const noexcept {}
	};
} // namespace

SIM_SCENARIO(coroutines, 0.8) {
	setup();
	{
		auto scope = std::make_unique<asyncpp::async_launch_scope>();
		for (unsigned j = 0, n = 1 + sim::param(5); j < n; j++) {
			const int id = fresh();
			arg a{id};
			bool ok = false;
			switch (sim::param(11)) {
			case 0: {
				std::optional<asyncpp::task<int>> t;
				ok = attempt([&] { t.emplace(a_task(std::move(a))); });
				if (ok && sim::param(4) == 1) ran(id); // never started
				else if (ok) run_task(std::move(*t), id);
				break;
			}
			case 1: {
				std::optional<asyncpp::generator<int>> g;
				ok = attempt([&] { g.emplace(a_gen(std::move(a))); });
				if (!ok) break;
				int k = 0;
				for (int v : *g) SIM_CHECK(v == id + k++, "value", "a generator yields a wrong value");
				SIM_CHECK(k == 2, "value", "a generator yields %d instead of 2 values", k);
				break;
			}
			case 2: {
				std::optional<asyncpp::async_generator<int>> g;
				ok = attempt([&] { g.emplace(an_agen(std::move(a))); });
				if (ok) run_agen(std::move(*g), id);
				break;
			}
			case 3: ok = attempt([&] { a_faf(std::move(a)).start(); }); break;
			case 4: ok = attempt([&] { an_efaf(std::move(a)); }); break;
			case 5: ok = attempt([&] { asyncpp::launch(a_task(std::move(a))); }); break;
			case 6: ok = attempt([&] { scope->launch(a_task(std::move(a))); }); break;
			case 7: ok = attempt([&] { 
				scope->invoke(
					[](arg x) {
						sim::disarm(); // exceptions leaving a launched coroutine terminate
						return a_task(std::move(x));
					},
					std::move(a));
			}); break;
			case 8: {
				// the callable is copied into the frame
				step st{id, std::move(a)};
				ok = attempt([&] { 
				scope->invoke([st] {
					sim::disarm();
					return st;
				});
			});
				break;
			}
			case 9: {
				std::future<int> f;
				ok = attempt([&] { f = asyncpp::as_promise(a_task(std::move(a))); }, true); // std::promise terminates if it can not report that it was abandoned
				if (ok) SIM_CHECK(f.get() == id, "value", "as_promise delivers a wrong value");
				break;
			}
			default: {
				std::future<void> f;
				step st{id, std::move(a)};
				ok = attempt([&] { f = asyncpp::as_promise(st); }, true);
				if (ok) f.get();
				break;
			}
			}
			if (ok) accepted(id);
			SIM_CHECK(scope->all_done(), "scope", "a launch_scope counts a coroutine that was not created");
		}
	}
	check_served("coroutines");
	check_clean("coroutines");
}

SIM_SCENARIO(fiber, 0.8) {
	setup();
	static const std::size_t maps = sim::live_maps();
	for (unsigned j = 0, n = 1 + sim::param(4); j < n; j++) {
		const int id = fresh();
		bool ok = false;
		if (sim::flip()) {
			std::optional<asyncpp::fiber<void>> f;
			auto body = [id, t = token{S_TOKENS}] {
				SIM_CHECK(t.ok(), "dead", "a fiber runs a destroyed function");
				sim::disarm();
				ran(id);
			};
			ok = attempt([&] { f.emplace(std::move(body), 16384); });
			if (ok) [](asyncpp::fiber<void>& f) -> co { co_await f; }(*f);
		} else {
			std::optional<asyncpp::fiber<int>> f;
			auto body = [id, t = token{S_TOKENS}] {
				SIM_CHECK(t.ok(), "dead", "a fiber runs a destroyed function");
				ran(id);
				return id;
			};
			ok = attempt([&] { f.emplace(body, 16384); });
			if (ok) [](asyncpp::fiber<int>& f, int id) -> co { SIM_CHECK(co_await f == id, "value", "a fiber returns a wrong value"); }(*f, id);
		}
		if (ok) accepted(id);
		SIM_CHECK(sim::live_maps() == maps, "leak-map", "%zu stacks stay mapped", sim::live_maps() - maps);
	}
	check_served("fiber");
	check_clean("fiber");
}
