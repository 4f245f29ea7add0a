#include "common.h"
#include <asyncpp/async_generator.h>
#include <asyncpp/defer.h>
#include <asyncpp/event.h>
#include <asyncpp/fire_and_forget.h>
#include <asyncpp/generator.h>
#include <asyncpp/launch.h>
#include <asyncpp/policy.h>
#include <asyncpp/sync_wait.h>
#include <asyncpp/task.h>
#include <future>
#include <optional>
#include <string>
using namespace h;

namespace {
	enum { S_NEXT = 1, S_TOKENS, S_STARTS, S_OUT, S_EXPECT, S_READY, S_RUN = 100, S_END = 200, S_GOT = 300, S_DEAD = 400, S_HANDLER = 500 };
	constexpr int MAXID = 90;

	struct boom {
		int id;
	};
	struct world {
		std::unique_ptr<worker> w[2];
		int data[MAXID + 1]{};
		world() {
			w[0] = std::make_unique<worker>();
			w[1] = std::make_unique<worker>(true);
		}
		void stop() {
			for (auto& x : w) x->stop();
		}
	};
	int fresh() {
		const int id = (int)sim::add(S_NEXT, 1);
		return id;
	}
	/// the frame of a coroutine: counted, and every parameter and local has to be fine as long as it runs
	struct frame {
		world& w;
		int id;
		token t{S_TOKENS};
		frame(world& ww, int i) : w(ww), id(i) { SIM_CHECK(sim::add(S_RUN + (unsigned)id, 1) == 1, "ran-twice", "the body of coroutine %d was entered twice", id); }
		~frame() { SIM_CHECK(sim::add(S_END + (unsigned)id, 1) == 1, "ended-twice", "the body of coroutine %d ended twice", id); }
	};

	struct hop_await {
		world& w;
		bool await_ready() const noexcept { return false; }
		bool await_suspend(coroutine_handle<> hd) {
			const unsigned k = sim::param(4);
			if (k == 3) return false;
			if (k == 2) {
				// resumed by a thread while this one is still in await_suspend
				auto* x = w.w[sim::param(2)].get();
				x->push([hd] { hd.resume(); });
				sim::point();
				return true;
			}
			w.w[k]->push([hd] { hd.resume(); });
			return true;
		}
		void await_resume() const noexcept {}
	};

	// --------------------------------------------------------------- task
	enum end_kind : unsigned { E_VALUE, E_THROW };
	asyncpp::task<> leaf(world& w, int id, token p, end_kind e) {
		frame f{w, id};
		const unsigned hops = sim::param(3);
		for (unsigned i = 0; i < hops; i++) {
			co_await hop_await{w};
			SIM_CHECK(p.ok() && f.t.ok(), "frame", "parameters or locals of a running task are gone");
		}
		w.data[id] = id + 1000;
		if (e == E_THROW) throw boom{id};
	}
	void got(world& w, int id) {
		SIM_CHECK(sim::get(S_RUN + (unsigned)id) == 1, "not-run", "the awaiter of task %d continued although it did not run", id);
		SIM_CHECK(sim::get(S_END + (unsigned)id) == 1, "early", "the awaiter of task %d continued before it ended", id);
		SIM_CHECK(w.data[id] == id + 1000, "visibility", "the effects of task %d are not visible to its awaiter", id);
		SIM_CHECK(sim::add(S_GOT + (unsigned)id, 1) == 1, "delivered-twice", "the result of task %d was delivered twice", id);
	}
	void no_run(int id) { SIM_CHECK(sim::get(S_RUN + (unsigned)id) == 0, "started", "task %d ran although nobody awaited it", id); }

	asyncpp::task<std::unique_ptr<int>> tree(world& w, int id, int depth, token p, end_kind e);

	// creates tasks, moves them around, awaits some of them and drops the others
	asyncpp::task<> use_some(world& w, int depth) {
		const unsigned n = sim::param(4);
		for (unsigned k = 0; k < n; k++) {
			const int id = fresh();
			if (id >= MAXID) co_return;
			const end_kind e = sim::biased(2, 0.25) ? E_THROW : E_VALUE;
			bool threw = false;
			switch (sim::param(5)) {
			case 0: // dropped without being started
			{
				auto t = leaf(w, id, token{S_TOKENS}, e);
				if (sim::flip()) {
					asyncpp::task<> u{nullptr};
					SIM_CHECK(!u && !static_cast<bool>(u), "null", "a null task claims to hold a coroutine");
					u = std::move(t);
					SIM_CHECK(!!u, "null", "a task lost its coroutine in a move");
				}
				no_run(id);
				continue;
			}
			case 1: {
				auto a = leaf(w, id, token{S_TOKENS}, e);
				auto b = std::move(a);
				try {
					co_await b;
				} catch (const boom& x) {
					SIM_CHECK(x.id == id, "exception", "the exception of another task was delivered");
					threw = true;
				}
				break;
			}
			case 2: {
				try {
					co_await leaf(w, id, token{S_TOKENS}, e);
				} catch (const boom& x) {
					SIM_CHECK(x.id == id, "exception", "the exception of another task was delivered");
					threw = true;
				}
				break;
			}
			case 3: {
				// the task is handed to another thread unstarted
				auto t = leaf(w, id, token{S_TOKENS}, e);
				no_run(id);
				co_await hop_await{w};
				try {
					co_await std::move(t);
				} catch (const boom& x) {
					SIM_CHECK(x.id == id, "exception", "the exception of another task was delivered");
					threw = true;
				}
				break;
			}
			case 4: {
				if (depth <= 0) continue;
				std::unique_ptr<int> r;
				try {
					r = co_await tree(w, id, depth - 1, token{S_TOKENS}, e);
					SIM_CHECK(r && *r == id, "value", "a task delivered another value than the returned one");
				} catch (const boom& x) {
					SIM_CHECK(x.id == id, "exception", "the exception of another task was delivered");
					threw = true;
				}
				break;
			}
			}
			SIM_CHECK(threw == (e == E_THROW), "outcome", "task %d delivered %s", id, threw ? "an exception it did not throw" : "no exception although it threw");
			got(w, id);
		}
	}
	asyncpp::task<std::unique_ptr<int>> tree(world& w, int id, int depth, token p, end_kind e) {
		frame f{w, id};
		co_await use_some(w, depth);
		co_await hop_await{w};
		SIM_CHECK(p.ok() && f.t.ok(), "frame", "parameters or locals of a running task are gone");
		w.data[id] = id + 1000;
		if (e == E_THROW) throw boom{id};
		co_return std::make_unique<int>(id);
	}
	void clean(world& w) {
		w.stop();
		SIM_CHECK(sim::get(S_TOKENS) == 0, "leak", "%ld parameters or locals were not destroyed", (long)sim::get(S_TOKENS));
		for (unsigned i = 0; i <= MAXID; i++)
			SIM_CHECK(sim::get(S_RUN + i) == sim::get(S_END + i), "lost", "coroutine %u was entered but never ended", i);
	}
} // namespace

// trees of tasks
SIM_SCENARIO(tasks, 3) {
	world w;
	[](world& w) -> co {
		co_await use_some(w, 2);
		sim::set(S_OUT, 1);
		sim::release();
	}(w);
	sim::await_acquire([] { return sim::get(S_OUT) == 1; }, "the awaiter of finished tasks continues");
	clean(w);
}

// as_promise of tasks started by several threads
SIM_SCENARIO(future, 2) {
	world w;
	const int n = 1 + (int)sim::param(3);
	{
		threads t;
		for (int i = 0; i < n; i++)
			t.go([&] {
				const int id = fresh();
				const end_kind e = sim::biased(2, 0.3) ? E_THROW : E_VALUE;
				bool threw = false;
				if (sim::flip()) {
					auto f = asyncpp::as_promise(leaf(w, id, token{S_TOKENS}, e));
					try {
						f.get();
					} catch (const boom& x) {
						SIM_CHECK(x.id == id, "exception", "the exception of another task was delivered");
						threw = true;
					}
				} else {
					auto tk = tree(w, id, 1, token{S_TOKENS}, e);
					auto f = asyncpp::as_promise(std::move(tk));
					try {
						auto r = f.get();
						SIM_CHECK(r && *r == id, "value", "a task delivered another value than the returned one");
					} catch (const boom& x) {
						SIM_CHECK(x.id == id, "exception", "the exception of another task was delivered");
						threw = true;
					}
				}
				SIM_CHECK(threw == (e == E_THROW), "outcome", "task %d delivered %s", id, threw ? "an exception it did not throw" : "no exception although it threw");
				got(w, id);
			});
	}
	clean(w);
}

// the future is dropped, nobody waits
SIM_SCENARIO(forgotten, 1) {
	world w;
	const int n = 1 + (int)sim::param(3);
	for (int i = 0; i < n; i++) {
		const int id = fresh();
		if (sim::flip()) (void)asyncpp::as_promise(leaf(w, id, token{S_TOKENS}, sim::flip() ? E_THROW : E_VALUE));
		else asyncpp::launch(leaf(w, id, token{S_TOKENS}, E_VALUE));
	}
	drain({w.w[0].get(), w.w[1].get()});
	sim::await_acquire([n] {
		for (int i = 1; i <= n; i++)
			if (!sim::get(S_END + (unsigned)i)) return false;
		return true;
	}, "a started coroutine finishes");
	clean(w);
}

// --------------------------------------------------------------- fire and forget
namespace {
	enum body_kind : unsigned { B_PLAIN, B_IGNORE, B_HANDLE, B_KINDS };
	struct gate {
		asyncpp::single_consumer_event ev;
	};
	// one body for both flavours
	template<class Task>
	Task faf(world& w, int id, token p, body_kind k, gate* g) {
		frame f{w, id};
		if (k == B_IGNORE) co_await asyncpp::exception_policy::ignore;
		if (k == B_HANDLE)
			co_await asyncpp::exception_policy::handle([id, t = token{S_TOKENS}] {
				SIM_CHECK(t.ok(), "frame", "the exception handler was destroyed before it ran");
				SIM_CHECK(sim::add(S_HANDLER + (unsigned)id, 1) == 1, "handler-twice", "the exception handler was called twice");
				try {
					auto e = std::current_exception();
					SIM_CHECK(e != nullptr, "exception", "the handler does not see the exception");
					std::rethrow_exception(e);
				} catch (const boom& b) {
					SIM_CHECK(b.id == id, "exception", "the handler sees another exception");
				}
			});
		const unsigned hops = sim::param(4);
		for (unsigned i = 0; i < hops; i++) {
			co_await hop_await{w};
			SIM_CHECK(p.ok() && f.t.ok(), "frame", "parameters or locals of a running coroutine are gone");
		}
		if (g) {
			co_await g->ev;
			SIM_CHECK(p.ok() && f.t.ok(), "frame", "parameters or locals of a running coroutine are gone");
		}
		w.data[id] = id + 1000;
		if (k != B_PLAIN) throw boom{id};
	}
	template<class Task>
	void juggle(std::vector<Task>& own) {
		const unsigned n = sim::param(4);
		for (unsigned i = 0; i < n && !own.empty(); i++) {
			switch (sim::param(5)) {
			case 0: own.pop_back(); break;
			case 1: own.push_back(Task(own[sim::param((unsigned)own.size())])); break;
			case 2: own.push_back(std::move(own[sim::param((unsigned)own.size())])); break;
			case 3: own[sim::param((unsigned)own.size())] = std::as_const(own[sim::param((unsigned)own.size())]); break;
			case 4: own[sim::param((unsigned)own.size())] = std::move(own[sim::param((unsigned)own.size())]); break;
			}
		}
	}
	using lazy = asyncpp::fire_and_forget_task<>;
	using eager = asyncpp::eager_fire_and_forget_task<>;

	void wait_end(int id) {
		sim::await_acquire([id] { return sim::get(S_END + (unsigned)id) == 1; }, "a started coroutine finishes");
	}
	// somebody opens the gate, before, while or after everything else happens
	void opener(threads& t, gate* g) {
		if (g) t.go([g] { g->ev.set(nullptr); });
	}
	void check_handler(int id, body_kind k) {
		SIM_CHECK(sim::get(S_HANDLER + (unsigned)id) == (k == B_HANDLE), "handler", "the exception handler was called %ld times", (long)sim::get(S_HANDLER + (unsigned)id));
	}
} // namespace

SIM_SCENARIO(lazy, 3) {
	world w;
	const body_kind k = (body_kind)sim::param(B_KINDS);
	const int id = fresh();
	gate g;
	gate* gp = sim::flip() ? &g : nullptr;
	{
		threads t;
		std::vector<std::vector<lazy>> sets;
		{
			lazy first = faf<lazy>(w, id, token{S_TOKENS}, k, gp);
			const int n = 1 + (int)sim::param(3);
			for (int i = 0; i < n; i++) {
				sets.emplace_back();
				sets.back().push_back(first);
			}
			if (sim::flip()) sets.back().push_back(std::move(first));
		}
		no_run(id);
		opener(t, gp);
		for (auto& s : sets)
			t.go([own = std::move(s)]() mutable {
				juggle(own);
				if (!own.empty() && sim::flip()) {
					auto& x = own[sim::param((unsigned)own.size())];
					sim::add(S_STARTS, 1); // counted even if the handle turns out empty
					x.start();
					if (sim::flip()) x.start(); // empty by now
				}
				juggle(own);
			});
	}
	drain({w.w[0].get(), w.w[1].get()});
	if (sim::get(S_RUN + (unsigned)id)) {
		SIM_CHECK(sim::get(S_STARTS) > 0, "started", "a lazy coroutine ran without start()");
		wait_end(id);
		check_handler(id, k);
	}
	clean(w);
}
// start() through one handle that is certainly not empty
SIM_SCENARIO(started, 2) {
	world w;
	const body_kind k = (body_kind)sim::param(B_KINDS);
	const int id = fresh();
	gate g;
	gate* gp = sim::flip() ? &g : nullptr;
	{
		threads t;
		lazy first = faf<lazy>(w, id, token{S_TOKENS}, k, gp);
		lazy second = first;
		opener(t, gp);
		t.go([x = std::move(second)]() mutable {
			if (sim::flip()) x.start();
		});
		if (sim::flip()) {
			first.start();
		} else {
			t.go([x = first]() mutable { x.start(); });
			if (sim::flip()) sim::point();
		}
	}
	wait_end(id);
	check_handler(id, k);
	clean(w);
}
SIM_SCENARIO(eager, 2) {
	world w;
	const body_kind k = (body_kind)sim::param(B_KINDS);
	const int id = fresh();
	gate g;
	gate* gp = sim::flip() ? &g : nullptr;
	{
		threads t;
		if (sim::flip()) opener(t, gp);
		else if (gp) g.ev.set(nullptr);
		std::vector<std::vector<eager>> sets;
		{
			eager first = faf<eager>(w, id, token{S_TOKENS}, k, gp);
			SIM_CHECK(sim::get(S_RUN + (unsigned)id) == 1, "eager", "an eager coroutine did not start at once");
			const int n = (int)sim::param(3);
			for (int i = 0; i < n; i++) {
				sets.emplace_back();
				sets.back().push_back(first);
			}
		}
		for (auto& s : sets)
			t.go([own = std::move(s)]() mutable { juggle(own); });
	}
	wait_end(id);
	check_handler(id, k);
	clean(w);
}
// without a policy, or with exception_policy::terminate, the process terminates
SIM_SCENARIO(terminates, 1) {
	world w;
	const unsigned policy = sim::param(3);
	sim::expect_terminate();
	auto body = [](world& w, unsigned policy) -> eager {
		if (policy == 1) co_await asyncpp::exception_policy::terminate;
		if (policy == 2) {
			co_await asyncpp::exception_policy::ignore;
			co_await asyncpp::exception_policy::terminate;
		}
		const unsigned hops = sim::param(3);
		for (unsigned i = 0; i < hops; i++) co_await hop_await{w};
		throw boom{1};
	};
	body(w, policy);
	drain({w.w[0].get(), w.w[1].get()});
	sim::sleep(ms(1));
	w.stop();
	sim::fail("terminate", "an exception left a fire and forget task and nothing happened");
}
SIM_SCENARIO(launch_terminates, 0.3) {
	world w;
	sim::expect_terminate();
	asyncpp::launch(leaf(w, fresh(), token{S_TOKENS}, E_THROW));
	drain({w.w[0].get(), w.w[1].get()});
	sim::sleep(ms(1));
	w.stop();
	sim::fail("terminate", "an exception left a launched task and nothing happened");
}

// handles of several lazy coroutines, checked against a model of what each of them refers to
namespace {
	lazy counted(world& w, int id, token p) {
		frame f{w, id};
		co_await hop_await{w};
		SIM_CHECK(p.ok() && f.t.ok(), "frame", "parameters or locals of a running coroutine are gone");
	}
} // namespace
SIM_SCENARIO(handles, 1) {
	world w;
	struct slot {
		std::optional<lazy> h;
		int id = 0; // 0: empty, -1: moved from (valid, but unspecified)
	};
	slot s[4];
	bool started[MAXID + 1]{};
	int made = 0;
	const unsigned full = 1 + sim::param(3);
	for (unsigned k = 0; k < full; k++) {
		s[k].id = made = fresh();
		s[k].h.emplace(counted(w, made, token{S_TOKENS}));
	}
	const unsigned n = 1 + sim::param(8);
	for (unsigned k = 0; k < n; k++) {
		slot& a = s[sim::param(4)];
		slot& b = s[sim::param(4)];
		switch (sim::param(7)) {
		case 0: // a new coroutine
			if (made < 8) {
				const int id = fresh();
				made = id;
				a.h.reset();
				a.h.emplace(counted(w, id, token{S_TOKENS}));
				a.id = id;
			}
			break;
		case 1: // copy construct
			if (&a != &b && b.h) {
				a.h.reset();
				a.h.emplace(std::as_const(*b.h));
				a.id = b.id;
			}
			break;
		case 2: // move construct
			if (&a != &b && b.h) {
				a.h.reset();
				a.h.emplace(std::move(*b.h));
				a.id = b.id;
				b.id = -1;
			}
			break;
		case 3:
			if (a.h && b.h) {
				*a.h = std::as_const(*b.h);
				a.id = b.id;
			}
			break;
		case 4:
			if (a.h && b.h && &a != &b) {
				*a.h = std::move(*b.h);
				a.id = b.id;
				b.id = -1;
			}
			break;
		case 5:
			a.h.reset();
			a.id = 0;
			break;
		case 6:
			if (a.h && a.id > 0) {
				const int id = a.id;
				SIM_CHECK(sim::get(S_RUN + (unsigned)id) == started[id], "started", "coroutine %d ran without start()", id);
				a.h->start();
				a.id = -1;
				SIM_CHECK(sim::get(S_RUN + (unsigned)id) == 1, "not-started", "start() did not start the coroutine this handle refers to (%d)", id);
				started[id] = true;
			}
			break;
		}
	}
	drain({w.w[0].get(), w.w[1].get()});
	for (int id = 1; id <= made; id++) {
		if (started[id]) wait_end(id);
		SIM_CHECK(sim::get(S_RUN + (unsigned)id) == started[id], "started", "coroutine %d %s", id, started[id] ? "did not run" : "ran without start()");
	}
	for (auto& x : s) x.h.reset();
	clean(w);
}

// a coroutine that uses the handle it is started with while start() has not returned yet
namespace {
	struct holder {
		std::optional<lazy> h;
		int second = 0;
	};
	lazy uses_handle(world& w, int id, token p, std::unique_ptr<holder>& o, unsigned what) {
		frame f{w, id};
		switch (what) {
		case 0: o.reset(); break;
		case 1: {
			const int n = fresh();
			o->h.emplace(counted(w, n, token{S_TOKENS}));
			o->second = n;
			break;
		}
		case 2: {
			const int n = fresh();
			auto x = counted(w, n, token{S_TOKENS});
			*o->h = std::move(x);
			o->second = n;
			break;
		}
		case 3: {
			const int n = fresh();
			const auto x = counted(w, n, token{S_TOKENS});
			*o->h = x;
			o->second = n;
			break;
		}
		case 4: o->h->start(); break;
		case 5: {
			const lazy c = std::as_const(*o->h);
			o->h.reset();
			break;
		}
		}
		SIM_CHECK(p.ok() && f.t.ok(), "frame", "parameters or locals of a running coroutine are gone");
		co_await hop_await{w};
		SIM_CHECK(p.ok() && f.t.ok(), "frame", "parameters or locals of a running coroutine are gone");
	}
} // namespace
SIM_SCENARIO(own_handle, 0.7) {
	world w;
	auto o = std::make_unique<holder>();
	const int id = fresh();
	const unsigned what = sim::param(6);
	o->h.emplace(uses_handle(w, id, token{S_TOKENS}, o, what));
	std::optional<lazy> copy;
	if (sim::flip()) copy.emplace(std::as_const(*o->h));
	o->h->start();
	int second = 0;
	if (o && o->h) {
		second = o->second;
		if (second) SIM_CHECK(sim::get(S_RUN + (unsigned)second) == 0, "started", "a coroutine ran without start()");
		// the handle refers to what was assigned last
		const bool start = sim::flip();
		if (start) o->h->start();
		if (second) {
			SIM_CHECK(sim::get(S_RUN + (unsigned)second) == start, "not-started", "start() did not start the coroutine that was assigned to the handle while an earlier one was started");
			if (start) wait_end(second);
		}
	}
	if (copy && sim::flip()) copy->start();
	copy.reset();
	o.reset();
	wait_end(id);
	SIM_CHECK(sim::get(S_RUN + (unsigned)id) == 1, "ran-twice", "the coroutine ran %ld times", (long)sim::get(S_RUN + (unsigned)id));
	clean(w);
}

// several tasks, checked against a model of what each of them refers to
namespace {
	asyncpp::task<int> counted_task(world& w, int id, token p) {
		frame f{w, id};
		co_await hop_await{w};
		SIM_CHECK(p.ok() && f.t.ok(), "frame", "parameters or locals of a running task are gone");
		co_return id;
	}
} // namespace
SIM_SCENARIO(task_handles, 0.7) {
	world w;
	[](world& w) -> co {
		using task = asyncpp::task<int>;
		struct slot {
			std::optional<task> h;
			int id = 0; // 0: empty, -1: moved from or awaited (valid, but unspecified)
		};
		slot s[4];
		const unsigned n = 2 + sim::param(10);
		int made = 0;
		for (unsigned k = 0; k < n; k++) {
			slot& a = s[sim::param(4)];
			slot& b = s[sim::param(4)];
			switch (sim::param(6)) {
			case 0:
			case 1:
				if (made < 10) {
					made++;
					const int id = fresh();
					if (a.h && sim::flip()) *a.h = counted_task(w, id, token{S_TOKENS});
					else {
						a.h.reset();
						a.h.emplace(counted_task(w, id, token{S_TOKENS}));
					}
					a.id = id;
				}
				break;
			case 2:
				if (&a != &b && b.h) {
					a.h.reset();
					a.h.emplace(std::move(*b.h));
					a.id = b.id;
					b.id = -1;
					SIM_CHECK(!*b.h && !static_cast<bool>(*b.h), "moved", "a moved from task still reports a coroutine");
				}
				break;
			case 3:
				if (a.h && b.h) {
					auto* volatile same = &*b.h;
					*a.h = std::move(*same);
					if (&a != &b) {
						a.id = b.id;
						b.id = -1;
					} else if (!*a.h) a.id = -1;
				}
				break;
			case 4:
				a.h.reset();
				a.id = 0;
				break;
			case 5:
				if (a.h && a.id > 0) {
					const int id = a.id;
					SIM_CHECK(sim::get(S_RUN + (unsigned)id) == 0, "started", "task %d ran before it was awaited", id);
					a.id = -1;
					const int got = sim::flip() ? co_await *a.h : co_await std::move(*a.h);
					SIM_CHECK(got == id, "value", "awaiting task %d delivered the value of %d", id, got);
					SIM_CHECK(sim::get(S_RUN + (unsigned)id) == 1 && sim::get(S_END + (unsigned)id) == 1, "not-run", "task %d did not run to its end before its awaiter continued", id);
					a.h.reset();
					a.id = 0;
				}
				break;
			}
			for (auto& x : s)
				if (x.h && x.id > 0) SIM_CHECK(static_cast<bool>(*x.h) && sim::get(S_RUN + (unsigned)x.id) == 0, "valid", "a task that holds a coroutine does not report it, or it ran by itself");
		}
		for (auto& x : s) x.h.reset();
		SIM_CHECK(sim::get(S_TOKENS) == 0, "leak", "%ld parameters of dropped or finished tasks are left", (long)sim::get(S_TOKENS));
		sim::set(S_OUT, 1);
		sim::release();
	}(w);
	sim::await_acquire([] { return sim::get(S_OUT) == 1; }, "the awaiter of finished tasks continues");
	clean(w);
}

// very many handles of one coroutine that was not started
SIM_SCENARIO(many, 0.05) {
	world w;
	const size_t n = (size_t)many();
	const int id = fresh();
	std::vector<lazy> v;
	v.reserve(n);
	v.push_back(counted(w, id, token{S_TOKENS}));
	while (v.size() < n) v.push_back(std::as_const(v.back()));
	while (v.size() > 1) {
		v.pop_back();
		SIM_CHECK(sim::get(S_TOKENS) == 1, "destroyed", "a coroutine that was not started was destroyed while %zu handles are left", v.size());
	}
	const bool start = sim::flip();
	if (start) v[0].start();
	v.clear();
	if (start) wait_end(id);
	SIM_CHECK(sim::get(S_RUN + (unsigned)id) == start, "started", "the coroutine ran %ld times", (long)sim::get(S_RUN + (unsigned)id));
	clean(w);
}

// every way to return a value from a task
namespace {
	struct val {
		int v;
		bool moved = false;
		token t{S_TOKENS};
		explicit val(int x) : v(x) {}
		val(const val&) = default;
		val(val&& o) noexcept : v(o.v), t(o.t) { o.moved = true; }
		val& operator=(const val&) = default;
	};
	struct makes_val {
		int v;
		operator val() const { return val(v); }
	};
	asyncpp::task<val> returns(world& w, unsigned how, const val& outer) {
		co_await hop_await{w};
		const val c(7);
		val l(7);
		switch (how) {
		case 0: co_return val(7);
		case 1: co_return l;
		case 2: co_return c;
		case 3: co_return outer;
		case 4: co_return std::move(l);
		default: co_return makes_val{7};
		}
	}
	asyncpp::task<std::string> strings(world& w, unsigned how, const std::string& outer) {
		co_await hop_await{w};
		switch (how) {
		case 0: co_return "a string that does not fit into the object";
		case 1: co_return outer;
		case 2: {
			const std::string c = outer;
			co_return c;
		}
		default: {
			std::string l = outer;
			co_return l;
		}
		}
	}
} // namespace
SIM_SCENARIO(returned, 0.5) {
	world w;
	[](world& w) -> co {
		const val outer(7);
		for (unsigned k = 0; k < 3; k++) {
			const unsigned how = sim::param(6);
			auto r = co_await returns(w, how, outer);
			SIM_CHECK(r.v == 7 && !r.moved && r.t.ok(), "value", "a task delivered another value than the returned one (%d, way %u)", r.v, how);
			SIM_CHECK(outer.v == 7 && !outer.moved && outer.t.ok(), "value", "returning an object from a task changed it");
			const std::string so = "a string that does not fit into the object";
			const unsigned hs = sim::param(4);
			auto str = co_await strings(w, hs, so);
			SIM_CHECK(str == so, "value", "a task delivered another value than the returned one (way %u)", hs);
		}
		sim::set(S_OUT, 1);
		sim::release();
	}(w);
	sim::await_acquire([] { return sim::get(S_OUT) == 1; }, "the awaiter of finished tasks continues");
	clean(w);
}

// --------------------------------------------------------------- allocators
namespace {
	// hands out memory aligned for std::byte only as far as it was asked to, like a monotonic buffer
	struct pool {
		alignas(64) unsigned char mem[16384];
		size_t used = 0;
		struct block {
			unsigned char* p;
			size_t n;
			bool live;
		};
		block blocks[64];
		unsigned nb = 0;
		std::mutex m;
		unsigned total() {
			std::lock_guard lk(m);
			return nb;
		}
		unsigned live() {
			std::lock_guard lk(m);
			unsigned l = 0;
			for (unsigned i = 0; i < nb; i++) l += blocks[i].live;
			return l;
		}
	};
	template<class T>
	struct pool_alloc {
		using value_type = T;
		using is_always_equal = std::false_type;
		pool* p;
		token t{S_TOKENS};
		explicit pool_alloc(pool* pp) : p(pp) {}
		pool_alloc(const pool_alloc&) = default;
		pool_alloc& operator=(const pool_alloc&) = default;
		template<class U>
		pool_alloc(const pool_alloc<U>& o) : p(o.p) {}
		T* allocate(size_t n) {
			std::lock_guard lk(p->m);
			const size_t al = alignof(T);
			p->used = (p->used + 1 + al - 1) / al * al;
			SIM_CHECK(p->used + n * sizeof(T) <= sizeof p->mem && p->nb < 64, "harness", "pool too small");
			unsigned char* r = p->mem + p->used;
			p->used += n * sizeof(T);
			p->blocks[p->nb++] = {r, n * sizeof(T), true};
			return (T*)(void*)r;
		}
		void deallocate(T* x, size_t n) {
			std::lock_guard lk(p->m);
			for (unsigned i = 0; i < p->nb; i++)
				if (p->blocks[i].p == (unsigned char*)x && p->blocks[i].live) {
					SIM_CHECK(p->blocks[i].n == n * sizeof(T), "allocator-size", "a frame of %zu bytes was returned to its allocator as %zu bytes", p->blocks[i].n, n * sizeof(T));
					p->blocks[i].live = false;
					return;
				}
			sim::fail("allocator", "something was returned to an allocator that does not own it");
		}
		bool operator==(const pool_alloc& o) const { return p == o.p; }
	};
	using palloc = pool_alloc<std::byte>;

	struct alignas(16) wide {
		int a[4];
	};
	void aligned(const wide* x) { SIM_CHECK(((uintptr_t)x & 15) == 0, "alignment", "a local of a coroutine with a custom allocator is misaligned"); }
	asyncpp::task<int, palloc> atask(world& w, int id, token p, palloc) {
		frame f{w, id};
		wide x{};
		co_await hop_await{w};
		aligned(&x);
		SIM_CHECK(p.ok() && f.t.ok(), "frame", "parameters or locals of a running task are gone");
		co_return id;
	}
	asyncpp::fire_and_forget_task<palloc> afaf(world& w, int id, token p, palloc) {
		frame f{w, id};
		wide x{};
		co_await hop_await{w};
		aligned(&x);
		SIM_CHECK(p.ok() && f.t.ok(), "frame", "parameters or locals of a running task are gone");
	}
	asyncpp::async_generator<int, palloc> agen(world& w, int id, token p, palloc) {
		frame f{w, id};
		wide x{};
		co_await hop_await{w};
		aligned(&x);
		co_yield 1;
		co_await hop_await{w};
		SIM_CHECK(p.ok() && f.t.ok(), "frame", "parameters or locals of a running generator are gone");
		co_yield 2;
	}
	asyncpp::generator<int, palloc> gen(world& w, int id, token p, palloc) {
		frame f{w, id};
		wide x{};
		aligned(&x);
		co_yield 1;
		co_yield 2;
	}
} // namespace
SIM_SCENARIO(allocators, 1) {
	world w;
	auto pl = std::make_unique<pool>();
	const unsigned n = 1 + sim::param(4);
	for (unsigned i = 0; i < n; i++) {
		const int id = fresh();
		const unsigned before = pl->total();
		const unsigned kind = sim::param(7);
		const bool drop = sim::biased(2, 0.2);
		sim::set(S_OUT, 0);
		switch (kind) {
		case 0: {
			auto t = atask(w, id, token{S_TOKENS}, palloc{pl.get()});
			SIM_CHECK(pl->total() == before + 1, "allocator", "a task did not take its frame from the allocator it was given");
			if (!drop) SIM_CHECK(asyncpp::as_promise(std::move(t)).get() == id, "value", "wrong result");
			break;
		}
		case 1: {
			auto t = afaf(w, id, token{S_TOKENS}, palloc{pl.get()});
			SIM_CHECK(pl->total() == before + 1, "allocator", "a task did not take its frame from the allocator it was given");
			if (!drop) {
				t.start();
				wait_end(id);
			}
			break;
		}
		case 2: {
			[](world& w, asyncpp::async_generator<int, palloc> g, bool drop) -> co {
				if (!drop) {
					int k = 0;
					for (auto it = co_await g.begin(); it != g.end(); co_await ++it) SIM_CHECK(*it == ++k, "value", "wrong element");
					SIM_CHECK(k == 2, "value", "elements missing");
				}
				g = {};
				sim::set(S_OUT, 1);
				sim::release();
			}(w, agen(w, id, token{S_TOKENS}, palloc{pl.get()}), drop);
			sim::await_acquire([] { return sim::get(S_OUT) == 1; }, "the generator continues its consumer");
			break;
		}
		case 3: {
			auto g = gen(w, id, token{S_TOKENS}, palloc{pl.get()});
			SIM_CHECK(pl->total() == before + 1, "allocator", "a generator did not take its frame from the allocator it was given");
			if (!drop) {
				int k = 0;
				for (int v : g) SIM_CHECK(v == ++k, "value", "wrong element");
				SIM_CHECK(k == 2, "value", "elements missing");
			}
			break;
		}
		case 4: {
			if (drop) break;
			asyncpp::launch(leaf(w, id, token{S_TOKENS}, E_VALUE), palloc{pl.get()});
			SIM_CHECK(pl->total() == before + 1, "allocator", "launch() did not take its frame from the allocator it was given");
			wait_end(id);
			break;
		}
		default: {
			asyncpp::async_launch_scope scope;
			if (kind == 5) scope.launch(leaf(w, id, token{S_TOKENS}, E_VALUE), palloc{pl.get()});
			else scope.invoke_tuple([](world* w, int id) { return leaf(*w, id, token{S_TOKENS}, E_VALUE); }, std::tuple<world*, int>(&w, id), palloc{pl.get()});
			SIM_CHECK(pl->total() == before + 1, "allocator", "a task of a scope did not take its frame from the allocator it was given");
			scope.join_future(palloc{pl.get()}).get();
			SIM_CHECK(pl->total() == before + 2, "allocator", "join_future() did not take its frame from the allocator it was given");
			got(w, id);
			break;
		}
		}
	}
	w.stop();
	SIM_CHECK(pl->live() == 0, "allocator", "%u frames were not returned to their allocator", pl->live());
	clean(w);
}

#ifdef SIM_DEEP
// optimised build: chains of tasks do not need more stack the longer they are
namespace {
	asyncpp::task<int> leaf(world& w, int i, int every) {
		token t{S_TOKENS};
		if (every && i % every == every - 1) co_await hop_await{w};
		co_return i;
	}
	asyncpp::task<void> leaf_void(world& w, int i, int every) {
		token t{S_TOKENS};
		if (every && i % every == every - 1) co_await hop_await{w};
	}
	asyncpp::task<int> nested(world& w, int n, int hops, int fail) {
		token t{S_TOKENS};
		if (n == 0) {
			if (hops) co_await hop_await{w};
			if (fail) throw 5;
			co_return 0;
		}
		co_return 1 + co_await nested(w, n - 1, hops, fail);
	}
	asyncpp::task<long> series(world& w, int n, int every) {
		token t{S_TOKENS};
		long s = 0;
		for (int i = 0; i < n; i++) {
			s += co_await leaf(w, i, every);
			if (i % 2) co_await leaf_void(w, i, every);
		}
		co_return s;
	}
} // namespace
SIM_SCENARIO(deep, 1) {
	sim::limits(600'000'000'000LL, 4000, 20'000'000);
	world w;
	const int n = 8'000;
	const unsigned k = sim::param(3);
	const int every = (int)sim::param(3) * 3'000, hops = (int)sim::param(2), fail = sim::biased(2, 0.2) ? 1 : 0;
	auto outer = [&]() -> co {
		if (k == 0) {
			const long r = co_await series(w, n, every);
			SIM_CHECK(r == (long)n * (n - 1) / 2, "result", "the sum of %d tasks is %ld", n, r);
		} else {
			const int depth = fail ? 300 : n;
			try {
				const int r = co_await nested(w, depth, hops, fail);
				SIM_CHECK(!fail && r == depth, "result", "%d tasks deep the result is %d", depth, r);
			} catch (int e) { SIM_CHECK(fail && e == 5, "exception", "a task failed with %d", e); }
		}
		sim::set(S_OUT, 1);
		sim::release();
	};
	outer();
	sim::await_acquire([] { return sim::get(S_OUT) == 1; }, "a long chain of tasks ends");
	clean(w);
	SIM_CHECK(sim::get(S_TOKENS) == 0, "leak", "%ld locals alive at the end", (long)sim::get(S_TOKENS));
}
#endif
