#include "common.h"
#include <asyncpp/defer.h>
#include <asyncpp/launch.h>
#include <asyncpp/task.h>
#include <optional>
#include <tuple>
using namespace h;

namespace {
	enum { S_NEXT = 1, S_FUNCTORS, S_JOINERS, S_JOINED, S_OUT, S_FREE, S_GO, S_ARRIVED, S_EPOCH, S_FLAT, S_FIN = 300 };
	enum { K_LAUNCH_B = K_USER, K_LAUNCH_E, K_FIN, K_JOIN_B, K_JOIN_E };
	constexpr int MAXC = 60;

	struct world {
		std::unique_ptr<asyncpp::async_launch_scope> scope;
		std::unique_ptr<worker> w[2];
		int data[MAXC + 1]{}; // written by the child, read after the join
	};
	void launch(world& w, asyncpp::async_launch_scope& s, int depth);

	void finish(world& w, int id) {
		w.data[id] = id * 5;
		sim::set(S_FIN + (unsigned)id, 1);
		sim::log(K_FIN, id);
	}
	asyncpp::task<> child(world& w, asyncpp::async_launch_scope& s, int id, int depth, token t) {
		struct last {
			world& w;
			int id;
			~last() { finish(w, id); }
		} l{w, id};
		const unsigned hops = sim::param(4);
		for (unsigned i = 0; i < hops; i++) {
			const unsigned k = sim::param(3);
			if (k < 2) co_await asyncpp::defer{w.w[k].get()};
			else sim::point();
			if (!sim::get(S_FLAT) && depth > 0 && sim::biased(2, 0.2)) launch(w, s, depth - 1);
		}
		SIM_CHECK(t.ok(), "parameter", "a parameter of a running task was destroyed");
		co_return;
	}
	struct callable {
		world* w;
		asyncpp::async_launch_scope* s;
		int id, depth;
		token t{S_FUNCTORS};
		callable(world* ww, asyncpp::async_launch_scope* ss, int i, int d) : w(ww), s(ss), id(i), depth(d) {}
		callable(const callable&) = default;
		callable(callable&&) = default;
		// a coroutine using its callable object all along: it has to live in the launched task
		asyncpp::task<> operator()(int a, std::unique_ptr<int> b) const {
			token local{S_FUNCTORS};
			struct last {
				const callable* c;
				~last() { finish(*c->w, c->id); }
			} l{this};
			const unsigned hops = sim::param(3);
			for (unsigned i = 0; i < hops; i++) {
				co_await asyncpp::defer{w->w[sim::param(2)].get()};
				SIM_CHECK(t.ok(), "callable", "the callable was destroyed while its task is running");
				if (!sim::get(S_FLAT) && depth > 0 && sim::biased(2, 0.2)) launch(*w, *s, depth - 1);
			}
			SIM_CHECK(a == id && *b == id, "arguments", "a launched callable got other arguments");
		}
	};
	void launch(world& w, asyncpp::async_launch_scope& s, int depth) {
		const int id = (int)sim::add(S_NEXT, 1);
		if (id >= MAXC) return;
		sim::log(K_LAUNCH_B, id);
		switch (sim::param(4)) {
		case 0: s.launch(child(w, s, id, depth, token{S_FUNCTORS})); break;
		case 1: s.invoke(callable{&w, &s, id, depth}, int(id), std::make_unique<int>(id)); break;
		case 2: s.invoke_tuple(callable{&w, &s, id, depth}, std::tuple<int, std::unique_ptr<int>>(id, std::make_unique<int>(id))); break;
		case 3: {
			callable c{&w, &s, id, depth};
			s.invoke(c, int(id), std::make_unique<int>(id)); // the caller's object goes away
			break;
		}
		}
		sim::log(K_LAUNCH_E, id);
	}
	/// everything launched before seq has finished, and its results are visible
	void check_joined(world& w, uint64_t begin) {
		std::vector<int> must;
		{
			sim::quiet q;
			for (size_t i = 0; i < sim::log_size(); i++) {
				auto& e = sim::log_at(i);
				if (e.kind == K_LAUNCH_E && e.seq < begin) must.push_back((int)e.a);
			}
		}
		for (int id : must) {
			SIM_CHECK(sim::get(S_FIN + (unsigned)id), "early", "join() continued before task %d, launched before it, was done", id);
			SIM_CHECK(w.data[id] == id * 5, "visibility", "the result of task %d is not visible after join()", id);
		}
	}
	/// one join; returns false if it was refused
	asyncpp::task<bool> join(world& w, asyncpp::async_launch_scope& s, int j) {
		sim::log(K_JOIN_B, j);
		const uint64_t b = sim::seq();
		try {
			co_await s.join();
		} catch (const std::logic_error&) {
			sim::log(K_JOIN_E, j, 0);
			co_return false;
		}
		SIM_CHECK(sim::add(100 + (unsigned)j, 1) == 1, "joined-twice", "join() continued twice");
		sim::log(K_JOIN_E, j, 1);
		check_joined(w, b);
		co_return true;
	}
	void check_refusals() {
		sim::quiet q;
		// a refused join must have overlapped another one
		for (size_t i = 0; i < sim::log_size(); i++) {
			auto& r = sim::log_at(i);
			if (r.kind != K_JOIN_E || r.b) continue;
			const uint64_t b = when(K_JOIN_B, r.a, 0);
			bool overlap = false;
			for (size_t k = 0; k < sim::log_size(); k++) {
				auto& o = sim::log_at(k);
				if (o.kind != K_JOIN_B || o.a == r.a) continue;
				auto* e = find(K_JOIN_E, o.a, 1);
				if (o.seq < r.seq && (!e || e->seq > b)) overlap = true;
			}
			SIM_CHECK(overlap, "refused", "a join() was refused although no other join() was in progress");
		}
	}
	void make(world& w) {
		w.scope = std::make_unique<asyncpp::async_launch_scope>();
		for (auto& x : w.w) x = std::make_unique<worker>();
	}
	void done(world& w) {
		for (auto& x : w.w) x->stop();
		check_refusals();
		SIM_CHECK(sim::get(S_FUNCTORS) == 0, "leak", "%ld tasks, callables or parameters were not destroyed", (long)sim::get(S_FUNCTORS));
	}

	// one owner launches, joins and then destroys the scope or starts over
	co owner(world& w, int rounds) {
		for (int r = 0; r < rounds; r++) {
			const int n = (int)sim::param(4);
			for (int k = 0; k < n; k++) launch(w, *w.scope, 1);
			if (sim::biased(2, 0.3)) co_await asyncpp::defer{w.w[sim::param(2)].get()};
			const bool ok = co_await join(w, *w.scope, r);
			SIM_CHECK(ok, "refused", "the only join() was refused");
			SIM_CHECK(w.scope->inflight_coroutines() == 0 && w.scope->all_done(), "count", "inflight_coroutines() is %zu when idle", w.scope->inflight_coroutines());
			if (sim::flip()) {
				w.scope.reset();
				if (r + 1 < rounds) w.scope = std::make_unique<asyncpp::async_launch_scope>();
			}
		}
		w.scope.reset();
		sim::set(S_OUT, 1);
		sim::release();
	}
} // namespace

SIM_SCENARIO(owner, 3) {
	world w;
	make(w);
	owner(w, 1 + (int)sim::param(3));
	sim::await_acquire([] { return sim::get(S_OUT) == 1; }, "join() continues once all tasks are done");
	done(w);
}
SIM_SCENARIO(future, 2) {
	world w;
	make(w);
	const int rounds = 1 + (int)sim::param(2);
	for (int r = 0; r < rounds; r++) {
		const int n = (int)sim::param(4);
		for (int k = 0; k < n; k++) launch(w, *w.scope, 1);
		const uint64_t b = sim::seq();
		auto f = w.scope->join_future();
		f.get();
		check_joined(w, b);
		SIM_CHECK(w.scope->inflight_coroutines() == 0, "count", "inflight_coroutines() is %zu when idle", w.scope->inflight_coroutines());
		if (sim::flip()) w.scope = std::make_unique<asyncpp::async_launch_scope>();
	}
	w.scope.reset();
	done(w);
}
// several threads launch and join the same scope
SIM_SCENARIO(concurrent, 3) {
	world w;
	make(w);
	const int nl = 1 + (int)sim::param(2), nj = 1 + (int)sim::param(3);
	{
		threads t;
		for (int i = 0; i < nl; i++)
			t.go([&] {
				const int n = 1 + (int)sim::param(3);
				for (int k = 0; k < n; k++) {
					launch(w, *w.scope, 1);
					if (sim::biased(2, 0.2)) sim::sleep(ms(1));
				}
			});
		for (int i = 0; i < nj; i++)
			t.go([&, i] {
				const int n = 1 + (int)sim::param(2);
				for (int k = 0; k < n; k++) {
					const int j = i * 4 + k;
					[](world& w, int j) -> co {
						sim::add(S_JOINERS, 1);
						(void)co_await join(w, *w.scope, j);
						sim::add(S_JOINED, 1);
						sim::release();
					}(w, j);
					if (sim::flip()) sim::sleep(ms(1));
				}
			});
	}
	sim::await_acquire([] { return sim::get(S_JOINED) == sim::get(S_JOINERS); }, "join() continues once all tasks are done");
	// now nothing is launched any more
	sim::set(S_FLAT, 1);
	auto f = w.scope->join_future();
	const uint64_t b = sim::seq();
	f.get();
	check_joined(w, b);
	SIM_CHECK(w.scope->inflight_coroutines() == 0, "count", "inflight_coroutines() is %zu when idle", w.scope->inflight_coroutines());
	w.scope.reset();
	done(w);
}
// the counter while tasks are held
SIM_SCENARIO(count, 1) {
	world w;
	make(w);
	sim::set(S_FLAT, 1);
	const int n = sim::biased(2, 0.02) ? many() % 512 : 1 + (int)sim::param(4);
	for (int k = 0; k < n; k++)
		w.scope->invoke([](world* w, int k) -> asyncpp::task<> {
			co_await asyncpp::defer{w->w[k % 2].get()};
			sim::add(S_ARRIVED, 1);
			sim::await([k] { return sim::get(S_GO) > k; }, "the harness lets a task go");
		}, &w, int(k));
	SIM_CHECK(w.scope->inflight_coroutines() == (size_t)n && !w.scope->all_done(), "count", "inflight_coroutines() is %zu with %d unfinished tasks", w.scope->inflight_coroutines(), n);
	const bool joined = sim::flip();
	std::optional<std::future<void>> f;
	if (joined) {
		f = w.scope->join_future();
		SIM_CHECK(f->wait_for(std::chrono::seconds(0)) == std::future_status::timeout, "early", "join() continued while tasks are running");
		SIM_CHECK(w.scope->inflight_coroutines() == (size_t)n && !w.scope->all_done(), "count", "inflight_coroutines() is %zu with %d unfinished tasks and a join", w.scope->inflight_coroutines(), n);
		// a second join is refused and leaves the first alone
		auto g = w.scope->join_future();
		bool refused = false;
		try {
			g.get();
		} catch (const std::logic_error&) {
			refused = true;
		}
		SIM_CHECK(refused, "second-join", "a second concurrent join() was not refused");
	}
	sim::set(S_GO, n);
	if (joined) f->get();
	else w.scope->join_future().get();
	SIM_CHECK(w.scope->inflight_coroutines() == 0 && w.scope->all_done(), "count", "inflight_coroutines() is %zu when idle", w.scope->inflight_coroutines());
	w.scope.reset();
	done(w);
}
