#include "common.h"
#include <asyncpp/defer.h>
#include <asyncpp/simple_dispatcher.h>
#define main simulated_async_main
#include <asyncpp/async_main.h>
#undef main
#include <stdexcept>
using namespace h;

namespace {
	enum { S_NEXT = 1, S_FUNCTORS, S_EXEC, S_MAIN_RUNS, S_MAIN_DONE, S_RUN = 300 };
	enum { K_PUSH_B = K_USER, K_PUSH_E, K_RUN, K_STOP_B, K_STOP_E, K_RUN_B, K_RUN_E };
	constexpr int MAXT = 40;
	struct boom { int id; };

	struct world {
		std::unique_ptr<asyncpp::simple_dispatcher> d;
		int data[MAXT + 1]{};
		bool throwing = false, self_stop = false;
		int runners = 1;
	};
	int push(world& w, int depth);
	void stop(world& w) {
		auto* d = w.d.get();
		sim::log(K_STOP_B);
		d->stop();
		sim::log(K_STOP_E);
	}
	struct task {
		world* w;
		int id, depth;
		bool last_words;
		token t{S_FUNCTORS};
		task(world* ww, int i, int d, bool lw) : w(ww), id(i), depth(d), last_words(lw) {}
		task(const task&) = delete;
		~task() {
			if (last_words && sim::get(S_RUN + (unsigned)id)) push(*w, 0);
		}
		void operator()() {
			SIM_CHECK(t.ok(), "functor", "a task ran after its callable was destroyed");
			SIM_CHECK(sim::add(S_RUN + (unsigned)id, 1) == 1, "run-twice", "task %d ran twice", id);
			sim::log(K_RUN, id);
			sim::add(S_EXEC, 1);
			struct g {
				~g() { sim::add(S_EXEC, -1); }
			} g;
			SIM_CHECK(w->data[id] == id * 3, "visibility", "data written before push() is not visible to the task");
			auto* const d = w->d.get();
			SIM_CHECK(dispatcher::current() == d, "current", "dispatcher::current() is not the simple_dispatcher inside its task");
			switch (sim::param(9)) {
			case 1: sim::sleep(ms(10)); break;
			case 2:
			case 3:
				if (depth > 0) push(*w, depth - 1);
				break;
			case 4:
				if (w->self_stop) {
					// stop from inside: nothing else may run (on this thread)
					stop(*w);
					if (depth > 0) push(*w, depth - 1);
				}
				break;
			case 5:
				if (w->throwing) throw boom{id};
				break;
			case 6: { // another dispatcher's loop inside this one's task
				asyncpp::simple_dispatcher inner;
				int n = 0;
				inner.push([&] {
					SIM_CHECK(dispatcher::current() == &inner, "current", "dispatcher::current() is not the nested dispatcher");
					n++;
				});
				inner.push([&] { inner.stop(); n++; });
				inner.push([&] { n += 100; });
				inner.run();
				SIM_CHECK(n == 2, "nested", "the nested dispatcher ran the wrong tasks (%d)", n);
				SIM_CHECK(dispatcher::current() == d, "restored", "run() of a nested dispatcher did not restore the current dispatcher");
				break;
			}
			case 7: { // a dispatcher stopped before it runs, whose task throws otherwise
				asyncpp::simple_dispatcher inner;
				inner.push([] { throw boom{0}; });
				if (sim::flip()) inner.stop();
				try {
					inner.run();
				} catch (const boom&) {}
				SIM_CHECK(dispatcher::current() == d, "restored", "run() of a nested dispatcher did not restore the current dispatcher after an exception");
				break;
			}
			default: break;
			}
		}
	};
	int push(world& w, int depth) {
		const int id = (int)sim::add(S_NEXT, 1);
		if (id >= MAXT) return 0;
		w.data[id] = id * 3;
		auto t = std::make_shared<task>(&w, id, depth, sim::biased(2, 0.1) && depth > 0);
		sim::log(K_PUSH_B, id);
		w.d->push([t = std::move(t)] { (*t)(); });
		sim::log(K_PUSH_E, id);
		if (sim::biased(2, 0.08)) w.d->push({}); // an empty callable is ignored
		return id;
	}
	bool idle() {
		if (sim::get(S_EXEC)) return false;
		for (int i = 1; i <= (int)sim::get(S_NEXT) && i < MAXT; i++)
			if (find(K_PUSH_E, i, 0) && !sim::get(S_RUN + (unsigned)i)) return false;
		return true;
	}
	void run_loop(world& w, int k) {
		struct outer : dispatcher {
			using dispatcher::current;
			void push(std::function<void()>) override {}
		} other;
		dispatcher* const prev = sim::flip() ? &other : nullptr;
		outer::current(prev);
		for (;;) {
			sim::log(K_RUN_B, k);
			bool threw = false;
			try {
				w.d->run();
			} catch (const boom&) {
				threw = true;
			}
			SIM_CHECK(dispatcher::current() == prev, "restored", "run() did not restore the previous dispatcher%s", threw ? " when a task threw" : "");
			if (!threw) break;
			SIM_PROBE("task threw out of run()");
		}
		sim::log(K_RUN_E, k);
		outer::current(nullptr);
	}
	struct rec { int id = 0, tid = -1; uint64_t b = 0, e = UINT64_MAX, r = UINT64_MAX; };
	void check(int runners) {
		sim::quiet q;
		std::vector<rec> v(MAXT + 1);
		uint64_t stopped = UINT64_MAX, ran = UINT64_MAX;
		int stop_tid = -1;
		for (size_t i = 0; i < sim::log_size(); i++) {
			auto& x = sim::log_at(i);
			auto& r = v[(size_t)x.a];
			if (x.kind == K_PUSH_B) r.id = (int)x.a, r.b = x.seq, r.tid = x.tid;
			if (x.kind == K_PUSH_E) r.e = x.seq;
			if (x.kind == K_RUN) r.r = x.seq;
			if (x.kind == K_STOP_E && stopped == UINT64_MAX) stopped = x.seq, stop_tid = x.tid;
			if (x.kind == K_RUN_B && ran == UINT64_MAX) ran = x.seq;
		}
		int after = 0;
		for (auto& a : v) {
			if (!a.id || a.r == UINT64_MAX) continue;
			if (a.r > stopped) after++;
			for (auto& b : v)
				if (runners == 1 && b.id && b.e < a.b) SIM_CHECK(b.r < a.r, "order", "task %d ran before task %d, which had been pushed before", a.id, b.id);
		}
		SIM_CHECK(stopped != UINT64_MAX, "returned", "run() returned without stop()");
		bool inside = false; // stop() was called by a task
		for (size_t i = 0; i < sim::log_size(); i++) inside |= sim::log_at(i).kind == K_RUN_B && sim::log_at(i).tid == stop_tid;
		if (runners == 1) SIM_CHECK(after <= (inside || stopped < ran ? 0 : 1), "after-stop", "%d tasks were started after stop() had returned", after);
		else SIM_CHECK(after <= runners, "after-stop", "%d tasks were started after stop() had returned", after);
	}

	void go(int runners) {
		world w;
		w.d = std::make_unique<asyncpp::simple_dispatcher>();
		w.throwing = sim::flip();
		w.self_stop = sim::flip();
		w.runners = runners;
		const bool wait_idle = !w.self_stop && sim::flip();
		const bool early = !wait_idle && sim::flip();
		const int np = 1 + (int)sim::param(2);
		bool destroy_now = false;
		{
			threads p, s, r;
			if (sim::flip()) push(w, 1);
			for (int i = 0; i < np; i++)
				p.go([&] {
					const int n = 1 + (int)sim::param(4);
					for (int k = 0; k < n; k++) {
						push(w, 2);
						if (sim::biased(2, 0.2)) sim::sleep(ms(20));
					}
				});
			// the dispatcher must outlive the pushers, but not stop()
			const bool pushers_first = !early || sim::flip();
			if (pushers_first && !wait_idle) p.join();
			s.go([&] {
				if (wait_idle) {
					p.join();
					sim::await([] { return idle(); }, "every pushed task runs", 600'000'000'000LL);
				} else if (sim::flip()) sim::sleep(ms(15));
				stop(w);
			});
			for (int i = 1; i < runners; i++) r.go([&, i] { run_loop(w, i); });
			run_loop(w, 0);
			if (runners == 1 && pushers_first && !w.self_stop) {
				destroy_now = true;
				check(runners);
				w.d.reset(); // like async_main: the thread that called stop() may still be on its way out
			}
		}
		if (!destroy_now) {
			check(runners);
			w.d.reset();
		}
		SIM_CHECK(sim::get(S_FUNCTORS) == 0, "leaked-callable", "%ld callables alive after the dispatcher is gone", (long)sim::get(S_FUNCTORS));
	}

	worker* g_w[2];
	int g_plan;
	asyncpp::task<int> inner(int depth) {
		token t{S_FUNCTORS};
		if (depth > 0) {
			const int r = co_await inner(depth - 1);
			co_return r + 1;
		}
		const unsigned n = sim::param(4);
		for (unsigned i = 0; i < n; i++) {
			const unsigned k = sim::param(4);
			if (k < 2) {
				co_await asyncpp::defer{g_w[k]};
				SIM_CHECK(g_w[k]->here(), "where", "defer did not continue on the dispatcher's thread");
			}
			if (k == 2) sim::sleep(ms(5));
		}
		if (g_plan == 1) throw boom{7};
		co_return 40;
	}
} // namespace

asyncpp::task<int> async_main(int argc, const char** argv) {
	SIM_CHECK(sim::add(S_MAIN_RUNS, 1) == 1, "run-twice", "async_main ran twice");
	SIM_CHECK(argc == 3 && argv[1][0] == 'x', "arguments", "async_main got other arguments");
	SIM_CHECK(dispatcher::current() != nullptr, "current", "async_main does not start on its dispatcher");
	const int r = co_await inner(2);
	sim::set(S_MAIN_DONE, 1);
	co_return r;
}

SIM_SCENARIO(one_runner, 4) { go(1); }
SIM_SCENARIO(two_runners, 1) { go(2); }
// a task that waits for another one does not keep a second thread in run() from running that one
SIM_SCENARIO(meet, 0.7) {
	enum { S_MET = 600 };
	world w;
	w.d = std::make_unique<asyncpp::simple_dispatcher>();
	auto* const d = w.d.get();
	const int rounds = 1 + (int)sim::param(3);
	{
		threads r, p;
		for (int i = 0; i < 2; i++)
			r.go([d] {
				d->run();
				SIM_CHECK(dispatcher::current() == nullptr, "restored", "run() did not restore the previous dispatcher");
			});
		const bool from_inside = sim::flip(), two = sim::flip();
		for (int k = 0; k < rounds; k++) {
			auto half = [k, d, from_inside](int x) {
				return [k, d, x, from_inside] {
					SIM_CHECK(dispatcher::current() == d, "current", "dispatcher::current() is not the simple_dispatcher inside its task");
					if (x == 0 && from_inside) d->push([k] {
						sim::add(S_MET + (unsigned)k, 1);
						sim::release();
					});
					sim::add(S_MET + (unsigned)k, 1);
					sim::release();
					sim::await_acquire([k] { return sim::get(S_MET + (unsigned)k) >= 2; }, "a task runs on another thread inside run() while one is blocked");
				};
			};
			const unsigned pause = sim::param(3);
			if (pause) sim::sleep(ms(pause * 5));
			if (from_inside) d->push(half(0));
			else if (two) {
				p.go([d, half] { d->push(half(0)); });
				p.go([d, half] { d->push(half(1)); });
			} else {
				d->push(half(0));
				d->push(half(1));
			}
			// the next round needs both threads
			sim::await_acquire([k] { return sim::get(S_MET + (unsigned)k) == 2; }, "a task runs on another thread inside run() while one is blocked");
		}
		p.join();
		d->stop();
	}
	w.d.reset();
}
SIM_SCENARIO(async_main, 2) {
	worker a, b;
	sim::quiet_begin();
	g_w[0] = &a;
	g_w[1] = &b;
	sim::quiet_end();
	const int plan = (int)sim::param(2);
	sim::quiet_begin();
	g_plan = plan;
	sim::quiet_end();
	const char* argv[] = {"p", "x", "y", nullptr};
	bool threw = false;
	int res = 0;
	try {
		res = simulated_async_main(3, argv);
	} catch (const boom& e) {
		threw = true;
		SIM_CHECK(e.id == 7, "result", "async_main rethrew a different exception");
	}
	SIM_CHECK(threw == (plan == 1), "result", "async_main %s although its task %s", threw ? "threw" : "returned", plan ? "threw" : "returned");
	if (!threw) {
		SIM_CHECK(res == 42, "result", "async_main returned %d instead of 42", res);
		SIM_CHECK(sim::get(S_MAIN_DONE) == 1, "result", "main returned before async_main was done");
	}
	SIM_CHECK(sim::get(S_MAIN_RUNS) == 1, "run", "async_main did not run");
	SIM_CHECK(dispatcher::current() == nullptr, "restored", "main left its dispatcher as the current one");
	a.stop();
	b.stop();
	SIM_CHECK(sim::get(S_FUNCTORS) == 0, "leak", "%ld coroutine locals were not destroyed", (long)sim::get(S_FUNCTORS));
}



// crowd: very many tasks
SIM_SCENARIO(crowd, 0.05) {
	const int n = many();
	asyncpp::simple_dispatcher d;
	int next[2] = {0, 0}; // only used on the running thread
	const int cut = (int)sim::param((unsigned)n + 1), total[2] = {cut, n - cut};
	const bool before = sim::flip(), chained = sim::flip();
	auto task = [&](int who, int i) {
		SIM_CHECK(next[who] == i, "order", "task %d of pusher %d ran when %d was expected", i, who, next[who]);
		SIM_CHECK(dispatcher::current() == &d, "current", "dispatcher::current() is not the simple_dispatcher inside its task");
		next[who]++;
		if (next[0] == total[0] && next[1] == total[1]) d.stop();
	};
	std::function<void(int)> chain = [&](int i) {
		task(0, i);
		if (i + 1 < total[0]) d.push([&chain, i] { chain(i + 1); });
	};
	auto push = [&](int who) {
		if (who == 0 && chained) {
			if (total[0]) d.push([&chain] { chain(0); });
			return;
		}
		for (int i = 0; i < total[who]; i++) d.push([&task, who, i] { task(who, i); });
	};
	if (before) push(0);
	{
		threads t;
		if (!before) t.go([&] { push(0); });
		t.go([&] { push(1); });
		d.run();
	}
	SIM_CHECK(next[0] == total[0] && next[1] == total[1], "lost-task", "%d and %d of %d and %d tasks ran", next[0], next[1], total[0], total[1]);
}
