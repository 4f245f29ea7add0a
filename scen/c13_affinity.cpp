#include "common.h"
#include <asyncpp/channel.h>
#include <asyncpp/defer.h>
#include <asyncpp/event.h>
#include <asyncpp/latch.h>
#include <asyncpp/queue.h>
#include <asyncpp/simple_dispatcher.h>
#include <asyncpp/thread_pool.h>
#include <asyncpp/timer.h>
using namespace h;

namespace {
	enum { S_DONE = 1, S_FUNCTORS, S_HOP, S_PEERS, S_PLACE = 100, S_HOPS = 200 };
	constexpr int ND = 6;

	struct refusing : dispatcher {
		void push(std::function<void()>) override { throw std::runtime_error("refused"); }
	};
	struct world {
		std::unique_ptr<asyncpp::thread_pool> pool;
		std::unique_ptr<asyncpp::timer> timer;
		std::unique_ptr<asyncpp::simple_dispatcher> simple;
		std::unique_ptr<worker> own, plain;
		std::unique_ptr<asyncpp::thread_pool> pool2;
		dispatcher* d[ND]{};
		int nd = 0;
		int pool2_at = -1;
	};
	dispatcher* pick(world& w) { return w.d[sim::param((unsigned)w.nd)]; }

	/// the thread we are on belongs to exactly one dispatcher for its whole life
	void check_place(world& w, dispatcher* expected, const char* after) {
		SIM_CHECK(dispatcher::current() == expected, "dispatcher", "after %s the coroutine continued with dispatcher::current() = %p instead of %p", after, (void*)dispatcher::current(), (void*)expected);
		if (!expected) return;
		int idx = 0;
		for (int i = 0; i < w.nd; i++)
			if (w.d[i] == expected) idx = i + 1;
		const unsigned slot = S_PLACE + (unsigned)sim::self();
		if (!sim::get(slot)) sim::set(slot, idx);
		SIM_CHECK(idx == 0 || sim::get(slot) == idx, "thread", "after %s the coroutine continued on a thread of dispatcher #%ld instead of #%d", after, (long)sim::get(slot) - 1, idx - 1);
	}

	/// runs f somewhere
	template<class F>
	void complete(world& w, F f) {
		const unsigned k = sim::param(4);
		if (k == 0) w.plain->push(std::move(f));
		else if (k == 1) pick(w)->push(std::move(f));
		else if (k == 2) w.timer->schedule([f = std::move(f)](bool) mutable { f(); }, std::chrono::milliseconds(sim::param(3)));
		else f();
	}

	/// remembers whether the coroutine was suspended
	template<class A>
	struct watch {
		A a;
		bool* susp;
		bool await_ready() { return a.await_ready(); }
		bool await_suspend(coroutine_handle<> hd) {
			bool* const s = susp;
			*s = true;
			if constexpr (std::is_void_v<decltype(a.await_suspend(hd))>) {
				a.await_suspend(hd);
				return true;
			} else {
				const bool r = a.await_suspend(hd);
				if (!r) *s = false; // still ours
				return r;
			}
		}
		decltype(auto) await_resume() { return a.await_resume(); }
	};
	template<class A>
	watch(A, bool*) -> watch<A>;

	struct hop_guard {
		unsigned id;
		hop_guard() : id((unsigned)sim::add(S_HOP, 1)) {}
		void passed() { SIM_CHECK(sim::add(S_HOPS + id, 1) == 1, "resumed-twice", "one await continued twice"); }
	};

	template<class E>
	co waiting(world& w, E* e, dispatcher* named, bool use_named, int* left);

	template<class E>
	auto await_event(E& e, dispatcher* named, bool use_named, bool* susp) {
		return watch<decltype(e.operator co_await())>{use_named ? e.wait(named) : e.operator co_await(), susp};
	}

	asyncpp::defer<dispatcher> to(dispatcher* d) { return asyncpp::defer<dispatcher>{d}; }

	co walk(world& w, int steps) {
		token alive{S_FUNCTORS};
		int path = 0; // lives in the frame: moves with the coroutine
		for (int i = 0; i < steps; i++) {
			SIM_CHECK(path == i, "frame", "coroutine state got lost");
			path++;
			hop_guard hop;
			dispatcher* const here = dispatcher::current();
			const int thread = sim::self();
			bool susp = false;
			const bool use_named = sim::flip();
			dispatcher* const named = use_named ? pick(w) : nullptr;
			dispatcher* const expect_susp = use_named ? named : here;
			const char* what = "?";
			// outside of any dispatcher and without a name the completing side decides
			bool free_choice = false;
			switch (sim::param(13)) {
			case 0:
			case 1: {
				what = "defer";
				dispatcher* const t = pick(w);
				co_await to(t);
				hop.passed();
				check_place(w, t, what);
				continue;
			}
			case 2: {
				co_await to(nullptr);
				hop.passed();
				SIM_CHECK(sim::self() == thread && dispatcher::current() == here, "null", "defer to a null dispatcher moved the coroutine");
				continue;
			}
			case 3: {
				refusing r;
				bool threw = false;
				try {
					co_await asyncpp::defer{r};
				} catch (const std::runtime_error&) {
					threw = true;
				}
				hop.passed();
				SIM_CHECK(threw && sim::self() == thread && dispatcher::current() == here, "refused", "defer to a refusing dispatcher did not report it in place");
				continue;
			}
			case 4: {
				what = "timer.wait";
				const bool r = co_await watch{w.timer->wait(std::chrono::milliseconds(1 + sim::param(3))), &susp};
				SIM_CHECK(r, "result", "an uncancelled wait reported cancellation");
				hop.passed();
				check_place(w, susp ? w.timer.get() : here, what);
				continue;
			}
			case 5: {
				what = "single_consumer_event";
				auto e = std::make_shared<asyncpp::single_consumer_event>();
				dispatcher* s = sim::flip() ? pick(w) : nullptr;
				complete(w, [e, s] { e->set(s); });
				co_await await_event(*e, named, use_named, &susp);
				break;
			}
			case 6: {
				what = "multi_consumer_event";
				auto e = std::make_shared<asyncpp::multi_consumer_event>();
				dispatcher* s = sim::flip() ? pick(w) : nullptr;
				complete(w, [e, s] { e->set(s); });
				co_await await_event(*e, named, use_named, &susp);
				break;
			}
			case 7: {
				what = "single_consumer_auto_reset_event";
				auto e = std::make_shared<asyncpp::single_consumer_auto_reset_event>();
				dispatcher* s = sim::flip() ? pick(w) : nullptr;
				complete(w, [e, s] { e->set(s); });
				co_await await_event(*e, named, use_named, &susp);
				break;
			}
			case 8: {
				what = "multi_consumer_auto_reset_event";
				auto e = std::make_shared<asyncpp::multi_consumer_auto_reset_event>();
				dispatcher* s = sim::flip() ? pick(w) : nullptr;
				complete(w, [e, s] { e->set(s); });
				co_await await_event(*e, named, use_named, &susp);
				break;
			}
			case 9: {
				what = "latch";
				const int n = 1 + (int)sim::param(2);
				auto l = std::make_shared<asyncpp::latch>(n);
				for (int k = 0; k < n; k++) complete(w, [l] { l->decrement(); });
				co_await await_event(*l, named, use_named, &susp);
				break;
			}
			case 10: {
				what = "channel";
				auto c = std::make_shared<asyncpp::channel<int>>();
				sim::add(S_PEERS, 1);
				if (sim::flip()) {
					// the writer is a coroutine of its own
					complete(w, [c]() mutable { [](std::shared_ptr<asyncpp::channel<int>> c) -> co {
							SIM_CHECK(co_await c->write(5), "result", "channel write failed");
							sim::add(S_PEERS, -1);
							sim::release();
						}(c); });
					auto a = c->read();
					if (use_named) a.resume_on(named);
					auto r = co_await watch<decltype(a)>{std::move(a), &susp};
					SIM_CHECK(r && *r == 5, "result", "channel read failed");
				} else {
					complete(w, [c]() mutable {
						[](std::shared_ptr<asyncpp::channel<int>> c) -> co {
							auto r = co_await c->read();
							SIM_CHECK(r && *r == 6, "result", "channel read failed");
							sim::add(S_PEERS, -1);
							sim::release();
						}(c);
					});
					auto a = c->write(6);
					if (use_named) a.resume_on(named);
					const bool r = co_await watch<decltype(a)>{std::move(a), &susp};
					SIM_CHECK(r, "result", "channel write failed");
				}
				break;
			}
			case 11: {
				what = "queue.pop";
				dispatcher* def = sim::flip() ? pick(w) : nullptr;
				auto q = std::make_shared<asyncpp::queue<int>>(4, def);
				complete(w, [q] { SIM_CHECK(q->try_push(7), "result", "queue push failed"); });
				auto a = q->pop();
				if (use_named) a.resume_on(named);
				auto r = co_await watch<decltype(a)>{std::move(a), &susp};
				SIM_CHECK(r && *r == 7, "result", "queue pop failed");
				if (!expect_susp && def && susp) {
					hop.passed();
					check_place(w, def, what);
					continue;
				}
				break;
			}
			case 12: {
				what = "queue.push";
				dispatcher* def = sim::flip() ? pick(w) : nullptr;
				auto q = std::make_shared<asyncpp::queue<int>>(1, def);
				SIM_CHECK(q->try_push(1), "result", "queue push failed");
				complete(w, [q] {
					auto r = q->try_pop();
					SIM_CHECK(r && *r == 1, "result", "queue pop failed");
				});
				auto a = q->push(8);
				if (use_named) a.resume_on(named);
				const bool r = co_await watch<decltype(a)>{std::move(a), &susp};
				SIM_CHECK(r, "result", "queue push failed");
				if (!expect_susp && def && susp) {
					hop.passed();
					check_place(w, def, what);
					continue;
				}
				break;
			}
			}
			hop.passed();
			if (!susp) {
				SIM_CHECK(sim::self() == thread && dispatcher::current() == here, "moved", "%s did not suspend but moved the coroutine", what);
			} else {
				free_choice = expect_susp == nullptr;
				if (!free_choice) check_place(w, expect_susp, what);
			}
			if (sim::biased(2, 0.1)) {
				// a loop inside the callback of another dispatcher
				dispatcher* const now = dispatcher::current();
				asyncpp::simple_dispatcher inner;
				inner.push([&] {
					SIM_CHECK(dispatcher::current() == &inner, "nested", "dispatcher::current() is not the nested dispatcher");
					inner.stop();
				});
				inner.run();
				SIM_CHECK(dispatcher::current() == now, "nested", "a nested dispatcher did not restore the outer one");
			}
			if (sim::biased(2, 0.2)) sim::point();
		}
		sim::add(S_DONE, 1);
		sim::release();
	}

	void run(bool small) {
		world w;
		w.pool = std::make_unique<asyncpp::thread_pool>(1 + sim::param(2));
		w.timer = std::make_unique<asyncpp::timer>();
		w.plain = std::make_unique<worker>(true);
		w.d[w.nd++] = w.pool.get();
		w.d[w.nd++] = w.timer.get();
		if (!small) {
			w.simple = std::make_unique<asyncpp::simple_dispatcher>();
			w.own = std::make_unique<worker>();
			w.d[w.nd++] = w.simple.get();
			w.d[w.nd++] = w.own.get();
			if (sim::flip()) {
				w.pool2 = std::make_unique<asyncpp::thread_pool>(1);
				w.d[w.nd++] = w.pool2.get();
			}
		}
		threads t;
		if (w.simple) t.go([&] {
			w.simple->run();
			SIM_CHECK(dispatcher::current() == nullptr, "restored", "run() left a dispatcher behind");
		});
		const int n = 1 + (int)sim::param(3);
		{
			threads s;
			for (int i = 0; i < n; i++) {
				const int steps = 1 + (int)sim::param(5);
				const unsigned from = sim::param(3);
				if (from == 0) walk(w, steps);
				else if (from == 1) s.go([&, steps] { walk(w, steps); });
				else pick(w)->push([&w, steps] { walk(w, steps); });
			}
		}
		sim::await_acquire([n] { return sim::get(S_DONE) == n && sim::get(S_PEERS) == 0; }, "every suspended coroutine is resumed", 600'000'000'000LL);
		w.plain->stop();
		if (w.simple) w.simple->stop();
		t.join();
		// tasks of one may still push to another until all are idle
		w.timer.reset();
		if (w.own) w.own->stop();
		w.pool.reset();
		w.pool2.reset();
		w.simple.reset();
		SIM_CHECK(dispatcher::current() == nullptr, "main", "the main thread was made part of a dispatcher");
		SIM_CHECK(sim::get(S_FUNCTORS) == 0, "leak", "%ld coroutine frames are left", (long)sim::get(S_FUNCTORS));
	}
} // namespace
SIM_SCENARIO(two, 1) { run(true); }
SIM_SCENARIO(many, 2) { run(false); }
