#include "common.h"
#include <asyncpp/defer.h>
#include <asyncpp/event.h>
#include <asyncpp/fiber.h>
#include <asyncpp/launch.h>
#include <asyncpp/sync_wait.h>
#include <asyncpp/task.h>
#include <cfenv>
#include <utility>
using namespace h;

namespace {
	enum { S_NEXT = 1, S_TOKENS, S_OUT, S_CALLABLES, S_ENTERED = 100, S_LEFT = 200, S_GOT = 300, S_AWAITS = 400, S_PASSED = 500, S_AWAIT = 20 };
	constexpr int MAXID = 40;
	struct boom {
		int id;
		token t{S_TOKENS};
		explicit boom(int i) : id(i) {}
	};
	struct world {
		std::unique_ptr<worker> w[2];
		int data[MAXID + 1]{};
		world() {
			w[0] = std::make_unique<worker>();
			w[1] = std::make_unique<worker>(true);
		}
		void stop() {
			for (auto& x : w) x->stop();
		}
	};
	int fresh() { return (int)sim::add(S_NEXT, 1); }

	/// one await: continues exactly once
	struct once {
		unsigned k;
		once() : k((unsigned)sim::add(S_AWAIT, 1) % 400) {}
		void passed() const { SIM_CHECK(sim::add(S_PASSED + k, 1) == 1, "continued-twice", "one fib_await continued twice"); }
	};
	struct base_await {
		world& w;
		once o{};
		bool await_ready() const noexcept { return false; }
		int await_resume() const {
			o.passed();
			return 77;
		}
		void go(coroutine_handle<> hd, unsigned k) {
			w.w[k & 1]->push([hd] { hd.resume(); });
		}
	};
	struct hop_bool : base_await {
		bool await_suspend(coroutine_handle<> hd) {
			const unsigned k = sim::param(5);
			if (k == 4) return false;
			go(hd, k);
			if (k >= 2) sim::point();
			return true;
		}
	};
	struct hop_void : base_await {
		void await_suspend(coroutine_handle<> hd) {
			const unsigned k = sim::param(5);
			if (k == 4) {
				hd.resume();
				return;
			}
			go(hd, k);
			if (k >= 2) sim::point();
		}
	};
	struct hop_handle : base_await {
		coroutine_handle<> await_suspend(coroutine_handle<> hd) {
			const unsigned k = sim::param(5);
			if (k == 4) return hd;
			go(hd, k);
			if (k >= 2) sim::point();
			return asyncpp::noop_coroutine();
		}
	};
	struct throws_suspend : base_await {
		int id;
		throws_suspend(world& ww, int i) : base_await{ww}, id(i) {}
		bool await_suspend(coroutine_handle<>) { throw boom{id}; }
	};
	struct throws_resume : hop_bool {
		int id;
		throws_resume(world& ww, int i) : hop_bool{{ww}}, id(i) {}
		int await_resume() {
			o.passed();
			throw boom{id};
		}
	};
	struct ready : base_await {
		bool await_ready() const noexcept { return true; }
		void await_suspend(coroutine_handle<>) { sim::fail("suspended", "await_suspend() was called although the awaitable is ready"); }
	};

	asyncpp::task<int> some_task(world& w, int v, bool fail) {
		token t{S_TOKENS};
		if (sim::flip()) co_await hop_bool{{w}};
		SIM_CHECK(t.ok(), "frame", "locals of a task are gone");
		if (fail) throw boom{v};
		co_return v;
	}

	double third(double v) { volatile double x = v; return 1.0 / x; }
	long double lthird(long double v) { volatile long double x = v; return 1.0L / x; }

	int steps(world& w, int id, int depth, int n);
	void hop(world& w) {
		int r = 0;
		switch (sim::param(3)) {
		case 0: r = fib_await hop_bool{{w}}; break;
		case 1: r = fib_await hop_void{{w}}; break;
		case 2: r = fib_await hop_handle{{w}}; break;
		}
		SIM_CHECK(r == 77, "value", "fib_await returned something else than the awaited value");
	}
	// every frame on the fiber's stack has something to lose
	__attribute__((noinline)) int recurse(world& w, int id, int depth, int n) {
		int block[24];
		for (int i = 0; i < 24; i++) block[i] = id * 100 + depth * 10 + i;
		token t{S_TOKENS};
		steps(w, id, depth - 1, n);
		for (int i = 0; i < 24; i++) SIM_CHECK(block[i] == id * 100 + depth * 10 + i, "stack", "a local on the fiber's stack changed");
		SIM_CHECK(t.ok(), "stack", "a local on the fiber's stack was destroyed");
		return depth;
	}
	int steps(world& w, int id, int depth, int n) {
		int acc = 0;
		for (int i = 0; i < n; i++) {
			token t{S_TOKENS};
			acc += i;
			switch (sim::param(12)) {
			case 0: hop(w); break;
			case 1: {
				const int r = fib_await ready{{w}};
				SIM_CHECK(r == 77, "value", "fib_await returned something else than the awaited value");
				break;
			}
			case 2: {
				bool caught = false;
				try {
					if (sim::flip()) fib_await throws_suspend{w, id};
					else fib_await throws_resume{w, id};
				} catch (const boom& b) {
					SIM_CHECK(b.id == id && b.t.ok(), "exception", "fib_await threw another exception");
					caught = true;
				}
				SIM_CHECK(caught, "exception", "an exception of an awaiter was lost");
				break;
			}
			case 3: {
				const bool fail = sim::flip();
				int r = 0, c = 0;
				auto tk = some_task(w, id, fail);
				try {
					r = fib_await tk.operator co_await();
				} catch (const boom& b) {
					c = b.id;
				}
				SIM_CHECK((fail ? c : r) == id, "value", "awaiting a task in a fiber gave the wrong outcome");
				break;
			}
			case 4:
				if (depth > 0) acc += recurse(w, id, depth, 1 + (int)sim::param(2)) - depth;
				break;
			case 5: {
				// suspended while an exception is being handled
				bool outer = false;
				try {
					try {
						throw boom{id + 7};
					} catch (const boom& b) {
						SIM_PROBE("await in catch");
						hop(w);
						SIM_CHECK(b.id == id + 7 && b.t.ok(), "exception", "the exception being handled was destroyed");
						auto e = std::current_exception();
						SIM_CHECK(e != nullptr, "exception", "the exception being handled is not the current one after fib_await");
						try {
							std::rethrow_exception(e);
						} catch (const boom& b2) {
							SIM_CHECK(b2.id == id + 7, "exception", "another exception is the current one after fib_await");
						}
						if (sim::flip()) hop(w);
						if (sim::flip()) throw;
						outer = true;
					}
				} catch (const boom& b) {
					SIM_CHECK(b.id == id + 7, "exception", "throw; threw another exception");
					outer = true;
				}
				SIM_CHECK(outer, "exception", "throw; did not throw");
				SIM_CHECK(!std::current_exception(), "exception", "an exception is still current after its handler ended");
				break;
			}
			case 6: {
				const double before = third(3);
				const long double lb = lthird(3);
				hop(w);
				SIM_CHECK(third(3) == before && before * 3 == 1.0 && lthird(3) == lb, "float", "floating point arithmetic changed");
				break;
			}
			case 7: {
				// another fiber
				const int v = fresh();
				if (v > MAXID) break;
				sim::add(S_CALLABLES, 1);
				asyncpp::fiber<int> child{[&w, v, c = token{S_TOKENS}] {
					sim::add(S_CALLABLES, -1);
					SIM_CHECK(c.ok(), "callable", "the callable of a fiber was destroyed");
					if (sim::flip()) hop(w);
					return v;
				}};
				const int r = fib_await child.await();
				SIM_CHECK(r == v, "value", "a fiber delivered %d instead of %d to a fiber", r, v);
				break;
			}
			case 8: {
				asyncpp::launch(some_task(w, id, false));
				break;
			}
			case 9: {
				// handled while the thread is unwinding something else: the fiber is not
				hop(w);
				SIM_CHECK(!std::current_exception(), "exception", "an exception of another execution leaked into the fiber");
				SIM_CHECK(std::uncaught_exceptions() == 0, "exception", "the fiber believes to be unwinding");
				break;
			}
			case 10: {
				asyncpp::single_consumer_event ev;
				w.w[sim::param(2)]->push([&ev] { ev.set(nullptr); });
				fib_await ev.wait(nullptr);
				break;
			}
			case 11: sim::point(); break;
			}
			SIM_CHECK(t.ok(), "stack", "a local on the fiber's stack was destroyed");
		}
		return acc;
	}
	struct body_guard {
		int id;
		token t{S_TOKENS};
		explicit body_guard(int i) : id(i) { SIM_CHECK(sim::add(S_ENTERED + (unsigned)i, 1) == 1, "ran-twice", "the body of fiber %d was entered twice", i); }
		~body_guard() { SIM_CHECK(sim::add(S_LEFT + (unsigned)id, 1) == 1, "left-twice", "the body of fiber %d was left twice", id); }
	};
	struct body {
		world* w;
		int id;
		token t{S_TOKENS};
		body(world& ww, int i) : w(&ww), id(i) {}
		void operator()() const {
			body_guard g{id};
			const int n = (int)sim::param(4);
			const int acc = steps(*w, id, 2, n);
			SIM_CHECK(acc == n * (n - 1) / 2, "stack", "a local on the fiber's stack changed");
			SIM_CHECK(t.ok() && g.t.ok(), "callable", "the callable of a running fiber was destroyed");
			w->data[id] = id + 5;
		}
	};
	struct body_int : body {
		using body::body;
		int operator()() const {
			body::operator()();
			return id * 3;
		}
	};
	struct body_ptr : body {
		using body::body;
		std::unique_ptr<int> operator()() const {
			body::operator()();
			return std::make_unique<int>(id * 3);
		}
	};
	void got(world& w, int id) {
		SIM_CHECK(sim::get(S_ENTERED + (unsigned)id) == 1 && sim::get(S_LEFT + (unsigned)id) == 1, "early", "the awaiter of fiber %d continued before the fiber ended", id);
		SIM_CHECK(w.data[id] == id + 5, "visibility", "the effects of fiber %d are not visible to its awaiter", id);
		SIM_CHECK(sim::add(S_GOT + (unsigned)id, 1) == 1, "delivered-twice", "the awaiter of fiber %d continued twice", id);
	}
	void clean(world& w) {
		w.stop();
		SIM_CHECK(sim::get(S_TOKENS) == 0, "leak", "%ld callables, locals or exceptions were not destroyed", (long)sim::get(S_TOKENS));
		SIM_CHECK(sim::live_maps() == 0, "leak", "%zu stacks were not returned", sim::live_maps());
		for (unsigned i = 0; i <= MAXID; i++)
			SIM_CHECK(sim::get(S_ENTERED + i) == sim::get(S_LEFT + i), "lost", "the body of fiber %u was not left", i);
	}
	// the requested size is rounded up to pages by the fiber
	struct stack_size {
		operator size_t() const {
			constexpr size_t sizes[] = {65536, 65537, 69631, 69632, 100000};
			return sizes[sim::param(5)];
		}
	};
	constexpr stack_size small;

	asyncpp::task<> use_one(world& w) {
		const int id = fresh();
		if (id > MAXID) co_return;
		switch (sim::param(6)) {
		case 0: {
			asyncpp::fiber<void> f{body{w, id}, small};
			if (sim::flip()) {
				asyncpp::fiber<void> g;
				g = std::move(f);
				bool refused = false;
				try {
					co_await f;
				} catch (const std::logic_error&) {
					refused = true;
				}
				SIM_CHECK(refused, "empty", "awaiting an empty fiber was not refused");
				f = std::move(g);
			}
			if (sim::flip()) co_await hop_bool{{w}};
			SIM_CHECK(sim::get(S_ENTERED + (unsigned)id) == 0, "started", "a fiber started before it was awaited");
			co_await f;
			got(w, id);
			if (sim::flip()) co_await hop_bool{{w}};
			if (sim::flip()) co_await f; // finished: at once
			break;
		}
		case 1: {
			asyncpp::fiber<int> f{body_int{w, id}, small};
			const int r = co_await f;
			SIM_CHECK(r == id * 3, "value", "a fiber delivered %d instead of %d", r, id * 3);
			got(w, id);
			if (sim::flip()) {
				if (sim::flip()) co_await hop_bool{{w}};
				SIM_CHECK(co_await f == id * 3, "value", "the second await delivered something else");
			}
			break;
		}
		case 2: {
			auto r = co_await asyncpp::fiber<std::unique_ptr<int>>{body_ptr{w, id}, small};
			SIM_CHECK(r && *r == id * 3, "value", "a fiber delivered the wrong value");
			got(w, id);
			break;
		}
		case 3: { // never started
			asyncpp::fiber<void> f{body{w, id}, small};
			if (sim::flip()) co_await hop_bool{{w}};
			if (sim::flip()) f = asyncpp::fiber<void>{};
			break;
		}
		case 4: { // replaced by a new one
			asyncpp::fiber<void> f{body{w, id}, small};
			if (sim::flip()) {
				co_await f;
				got(w, id);
			}
			const int id2 = fresh();
			if (id2 > MAXID) break;
			f = asyncpp::fiber<void>{body{w, id2}, small};
			co_await f;
			got(w, id2);
			break;
		}
		case 5: { // the callable object is the caller's and goes away
			asyncpp::fiber<void> f;
			{
				body b{w, id};
				if (sim::flip()) f = asyncpp::fiber<void>{b, small};
				else f = asyncpp::fiber<void>{std::as_const(b), small};
			}
			co_await f;
			got(w, id);
			break;
		}
		}
	}
} // namespace

SIM_SCENARIO(run, 4) {
	world w;
	const int n = 1 + (int)sim::param(3);
	for (int i = 0; i < n; i++)
		[](world& w) -> co {
			const int k = 1 + (int)sim::param(2);
			for (int j = 0; j < k; j++) co_await use_one(w);
			sim::add(S_OUT, 1);
			sim::release();
		}(w);
	sim::await_acquire([n] { return sim::get(S_OUT) == n; }, "the awaiter of a finished fiber continues");
	clean(w);
}

// --------------------------------------------------------------- floating point environment
namespace {
	constexpr int modes[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
	/// the rounding mode the two floating point units work with
	__attribute__((noinline)) int rounding(long double& x87) {
		volatile double a = 1.0, b = 3.0, t = 10.0;
		volatile long double la = 1.0L, lb = 3.0L;
		x87 = la / lb;
		// to the nearest, the first one is rounded down and the second one is rounded up
		if (a / b > 1.0 / 3.0) return 1;
		if (-a / b < -(1.0 / 3.0)) return 2;
		return a / t == 1.0 / 10.0 ? 0 : 3;
	}
	struct fpu {
		unsigned m;
		long double q;
		explicit fpu(unsigned mode) : m(mode) {
			std::fesetround(modes[m]);
			const int r = rounding(q);
			SIM_CHECK(r == (int)m, "harness", "rounding mode %u is seen as %d", m, r);
		}
		void check(const char* who) const {
			long double x;
			const int r = rounding(x);
			SIM_CHECK(r == (int)m && std::fegetround() == modes[m], "rounding", "%s rounds in mode %d instead of %u after a wait", who, r, m);
			SIM_CHECK(x == q, "rounding", "the x87 unit of %s rounds in another mode after a wait", who);
		}
	};
	void float_fiber(world& w, unsigned creator, bool nested) {
		{
			long double x;
			SIM_CHECK(rounding(x) == (int)creator, "rounding", "a fiber did not start with the floating point environment of its creator");
		}
		fpu f{(unsigned)sim::param(4)};
		for (unsigned k = 0; k < 3; k++) {
			hop(w);
			f.check("a fiber");
			if (nested) {
				asyncpp::fiber<void> g{[&w, m = f.m] { float_fiber(w, m, false); }, small};
				fib_await g.await();
				f.check("a fiber");
			}
		}
	}
} // namespace
SIM_SCENARIO(floats, 0.4) {
	world w;
	const unsigned mine = sim::param(4), n = 1 + sim::param(2);
	for (unsigned i = 0; i < n; i++)
		[](world& w, unsigned mine, unsigned nested) -> co {
			fpu f{mine};
			{
				asyncpp::fiber<void> g{[&] { float_fiber(w, mine, nested); }, small};
				// whatever suspends or resumes the fiber keeps its own environment
				f.check("the creator of a fiber");
				co_await g;
			}
			sim::add(S_OUT, 1);
			sim::release();
		}(w, mine, sim::param(2));
	{
		fpu f{mine};
		for (unsigned k = 0; k < 4; k++) {
			f.check("the thread that started fibers");
			sim::point();
		}
	}
	sim::await_acquire([n] { return sim::get(S_OUT) == n; }, "the awaiter of a finished fiber continues");
	std::fesetround(FE_TONEAREST);
	drain({w.w[0].get(), w.w[1].get()});
	for (auto& x : w.w)
		x->push([] {
			long double q;
			SIM_CHECK(rounding(q) == 0, "rounding", "a fiber changed the floating point environment of a thread that resumed it");
			sim::add(S_OUT, 1);
			sim::release();
		});
	sim::await_acquire([n] { return sim::get(S_OUT) == n + 2; }, "the workers go on");
	clean(w);
}

// --------------------------------------------------------------- all of the requested stack
SIM_SCENARIO(stack, 0.3) {
	world w;
	[](world& w) -> co {
		constexpr size_t sizes[] = {1, 4096, 32769, 65536, 100000, 262144, 1000001};
		const size_t size = sizes[sim::param(7)];
		const size_t use = size > 40000 ? size - 24576 : 64; // the rest is for the frames of what is called below
		bool ran = false;
		auto fn = [&] {
			auto* p = static_cast<volatile unsigned char*>(__builtin_alloca(use));
			if (size > 40000) {
				for (size_t i = 0; i < use; i += 509) p[i] = (unsigned char)(i * 7);
				hop(w);
				for (size_t i = 0; i < use; i += 509) SIM_CHECK(p[i] == (unsigned char)(i * 7), "stack", "a local on the fiber's stack changed");
			} else
				p[0] = 1;
			ran = true;
		};
		if (size == 262144 && sim::flip()) {
			asyncpp::fiber<void> f{fn};
			co_await f;
		} else if (size > 40000 || sim::flip()) {
			asyncpp::fiber<void> f{fn, size};
			co_await f;
		} else {
			ran = true;
			asyncpp::fiber<void> f{fn, size};
		}
		SIM_CHECK(ran, "early", "the awaiter of a fiber continued before the fiber ended");
		sim::add(S_OUT, 1);
		sim::release();
	}(w);
	sim::await_acquire([] { return sim::get(S_OUT) == 1; }, "the awaiter of a finished fiber continues");
	clean(w);
}

// --------------------------------------------------------------- nobody can handle these
namespace {
	struct waits_in_destructor {
		world& w;
		~waits_in_destructor() { hop(w); }
	};
} // namespace
SIM_SCENARIO(terminates, 0.3) {
	world w;
	const unsigned how = sim::param(3);
	sim::expect_terminate();
	[](world& w, unsigned how) -> co {
		auto fn = [&] {
			if (sim::flip()) hop(w);
			try {
				if (how == 1) {
					waits_in_destructor d{w};
					throw boom{1};
				}
				throw boom{1};
			} catch (const boom&) {
				if (how == 1) sim::fail("terminate", "a fiber waited while an exception is being thrown and nothing happened");
				throw;
			}
		};
		if (how == 2) {
			asyncpp::fiber<int> f{[&] {
				fn();
				return 1;
			}};
			co_await f;
		} else {
			asyncpp::fiber<void> f{fn, small};
			co_await f;
		}
	}(w, how);
	drain({w.w[0].get(), w.w[1].get()});
	sim::sleep(ms(1));
	w.stop();
	sim::fail("terminate", "an exception left a fiber and nothing happened");
}
SIM_SCENARIO(threads, 1) {
	world w;
	const int n = 1 + (int)sim::param(2);
	{
		threads t;
		for (int i = 0; i < n; i++) t.go([&] { asyncpp::as_promise(use_one(w)).get(); });
	}
	clean(w);
}

// --------------------------------------------------------------- dropped while suspended
namespace {
	struct park : base_await {
		coroutine_handle<>* out;
		park(world& ww, coroutine_handle<>* o) : base_await{ww}, out(o) {}
		void await_suspend(coroutine_handle<> hd) {
			*out = hd;
			sim::add(S_AWAITS, 1);
			sim::release();
		}
	};
	/// a coroutine whose owner may destroy it while it is suspended
	struct owned {
		struct promise_type {
			owned get_return_object() { return {coroutine_handle<promise_type>::from_promise(*this)}; }
			asyncpp::suspend_never initial_suspend() noexcept { return {}; }
			asyncpp::suspend_always final_suspend() noexcept { return {}; }
			void return_void() noexcept {}
			void unhandled_exception() noexcept { sim::fail("unexpected-exception", "an exception escaped"); }
		};
		coroutine_handle<promise_type> hd;
	};
	void park_deep(world& w, int depth, coroutine_handle<>* out, bool swallow) {
		token t{S_TOKENS};
		if (depth > 0) {
			park_deep(w, depth - 1, out, swallow);
			return;
		}
		if (swallow) {
			try {
				fib_await park{w, out};
			} catch (...) { // notices the destruction, and ends
				SIM_PROBE("destruction caught");
				if (sim::flip()) {
					// and tries to wait again, which it can not any more
					bool refused = false;
					try {
						fib_await park{w, out};
					} catch (...) { refused = true; }
					SIM_CHECK(refused, "continued", "a fiber that is being destroyed was suspended and continued again");
				}
				return;
			}
		} else
			fib_await park{w, out};
		sim::fail("continued", "a suspended fiber that was dropped continued");
	}
} // namespace
SIM_SCENARIO(dropped, 2) {
	world w;
	coroutine_handle<> parked;
	const int id = fresh();
	const bool swallow = sim::flip();
	const unsigned depth = sim::param(3);
	auto fn = [&, c = token{S_TOKENS}] {
		body_guard g{id};
		if (sim::flip()) hop(w);
		if (sim::flip()) {
			try {
				throw boom{3};
			} catch (const boom&) { park_deep(w, (int)depth, &parked, swallow); }
		} else
			park_deep(w, (int)depth, &parked, swallow);
		SIM_CHECK(c.ok(), "callable", "the callable of a running fiber was destroyed");
	};
	bool continued = false;
	const bool owner_first = sim::flip();
	if (owner_first) {
		// the awaiting coroutine owns the fiber and is destroyed
		owned o = [](auto fn, bool* continued) -> owned {
			token t{S_TOKENS};
			asyncpp::fiber<void> f{std::move(fn), small};
			co_await f;
			*continued = true;
		}(fn, &continued);
		sim::await_acquire([] { return sim::get(S_AWAITS) == 1; }, "the fiber gets to its await");
		drain({w.w[0].get(), w.w[1].get()});
		o.hd.destroy();
	} else {
		auto f = std::make_unique<asyncpp::fiber<void>>(fn, small);
		owned o = [](asyncpp::fiber<void>* f, bool* continued) -> owned {
			token t{S_TOKENS};
			co_await *f;
			*continued = true;
		}(f.get(), &continued);
		sim::await_acquire([] { return sim::get(S_AWAITS) == 1; }, "the fiber gets to its await");
		drain({w.w[0].get(), w.w[1].get()});
		if (sim::flip()) {
			bool refused = false;
			// it is being awaited already
			[](asyncpp::fiber<void>* f, bool* refused) -> co {
				try {
					co_await *f;
				} catch (const std::logic_error&) {
					*refused = true;
				}
			}(f.get(), &refused);
			SIM_CHECK(refused, "second-await", "a second concurrent await of one fiber was not refused");
		}
		f.reset();
		SIM_CHECK(!continued, "continued", "the awaiter of a fiber that was dropped before it finished continued");
		o.hd.destroy();
	}
	SIM_CHECK(!continued, "continued", "the awaiter of a fiber that was dropped before it finished continued");
	SIM_CHECK(!std::current_exception() && std::uncaught_exceptions() == 0, "exception", "the destruction of a fiber left an exception behind");
	{
		auto gone = std::move(fn); // the scenario's own copy
	}
	clean(w);
}

// --------------------------------------------------------------- resumed while the resumer handles or throws an exception
namespace {
	int64_t current_id() {
		auto e = std::current_exception();
		if (!e) return 0;
		try {
			std::rethrow_exception(e);
		} catch (const boom& b) { return b.id; } catch (...) { return -1; }
	}
	void exceptions_are(int64_t current, int uncaught, const char* who) {
		SIM_CHECK(std::uncaught_exceptions() == uncaught, "exception", "%s has %d instead of %d exceptions in flight", who, std::uncaught_exceptions(), uncaught);
		if (!uncaught) SIM_CHECK(current_id() == current, "exception", "%s handles exception %ld instead of %ld", who, (long)current_id(), (long)current);
	}
	template<class F>
	struct at_exit {
		F& f;
		int uncaught;
		~at_exit() {
			f();
			exceptions_are(0, uncaught, "a thread that unwinds");
		}
	};
	/// runs f as is, in an exception handler, during unwinding, or both
	template<class F>
	void somewhere(F f) {
		const unsigned how = sim::param(4);
		const auto unwind = [&] {
			try {
				at_exit<F> a{f, 1};
				throw boom{8};
			} catch (const boom& b) {
				SIM_CHECK(b.id == 8, "exception", "an exception changed");
				exceptions_are(8, 0, "a thread in its handler");
			}
		};
		if (how == 0) f();
		if (how == 1 || how == 3) {
			try {
				throw boom{9};
			} catch (const boom& b) {
				if (how == 1) f();
				else unwind();
				SIM_CHECK(b.id == 9, "exception", "an exception changed");
				exceptions_are(9, 0, "a thread in its handler");
				if (sim::flip()) {
					try {
						throw;
					} catch (const boom& c) { SIM_CHECK(c.id == 9, "exception", "a handler rethrows another exception"); }
				}
			}
		}
		if (how == 2) unwind();
		exceptions_are(0, 0, "a thread");
	}
	template<class R>
	void in_handlers() {
		world w;
		coroutine_handle<> parked;
		int64_t got = 0;
		const unsigned waits = sim::param(4);
		const bool swallow = sim::flip();
		const auto wait = [&](int bit) {
			if (!(waits & (1u << bit))) return;
			fib_await park{w, &parked};
		};
		auto fn = [&, c = token{S_TOKENS}]() -> R {
			exceptions_are(0, 0, "a new fiber");
			try {
				try {
					throw boom{1};
				} catch (const boom& b) {
					wait(0);
					exceptions_are(1, 0, "a fiber in its handler");
					SIM_CHECK(b.id == 1, "exception", "an exception changed");
				}
				exceptions_are(0, 0, "a fiber");
				wait(1);
				exceptions_are(0, 0, "a fiber");
			} catch (...) {
				if (!swallow) throw; // being destroyed
			}
			if constexpr (!std::is_void_v<R>) return R(1, std::make_unique<int>(77));
		};
		{
			std::optional<asyncpp::fiber<R>> f;
			const auto put = [&] { f.emplace(fn, small); };
			put();
			std::optional<owned> o;
			somewhere([&] {
				o.emplace([](asyncpp::fiber<R>& f, int64_t* got) -> owned {
					if constexpr (std::is_void_v<R>) {
						co_await f;
						*got = 77;
					} else {
						R r = co_await std::move(f);
						*got = **r.begin();
					}
				}(*f, &got));
			});
			while (parked) {
				auto hd = std::exchange(parked, {});
				if (sim::biased(2, 0.3)) break; // dropped instead
				somewhere([&] { hd.resume(); });
			}
			const bool done = o->hd.done();
			SIM_CHECK(!done || got == 77, "result", "the result of a fiber is wrong");
			somewhere([&] {
				switch (sim::param(3)) {
				case 0: f.reset(); break;
				case 1: *f = asyncpp::fiber<R>{}; break;
				case 2: {
					auto x = std::move(*f);
					break;
				}
				}
			});
			SIM_CHECK(o->hd.done() == done, "continued", "the awaiter of a fiber that was dropped before it finished continued");
			o->hd.destroy();
		}
		{
			auto gone = std::move(fn);
		}
		clean(w);
	}
	/// a result whose content lives on the heap
	struct heaped {
		std::unique_ptr<int> p;
		heaped(int, std::unique_ptr<int> q) : p(std::move(q)) {}
		heaped(heaped&&) noexcept = default;
		heaped(const heaped& o) : p(std::make_unique<int>(*o.p)) {}
		const std::unique_ptr<int>* begin() const { return &p; }
	};
} // namespace
SIM_SCENARIO(in_handlers, 0.5) { in_handlers<void>(); }
SIM_SCENARIO(in_handlers_value, 0.5) { in_handlers<heaped>(); }



// crowd: very many waits, or many fibers that live at the same time
SIM_SCENARIO(crowd, 0.05) {
	const int n = many() % 380;
	world w;
	if (sim::flip()) {
		int sum = 0;
		auto outer = [&]() -> co {
			asyncpp::fiber<int> f([&, t = token{S_TOKENS}] {
				int s = 0;
				for (int i = 0; i < n; i++) {
					int local = i * 3;
					s += fib_await hop_bool{{w}};
					SIM_CHECK(local == i * 3, "stack", "a local changed across a wait");
				}
				return s;
			}, 32768);
			sum = co_await f;
			sim::set(S_OUT, 1);
			sim::release();
		};
		outer();
		sim::await_acquire([] { return sim::get(S_OUT) == 1; }, "a fiber with very many waits ends");
		SIM_CHECK(sum == 77 * n, "result", "the sum of %d results is %d", n, sum);
	} else {
		const int k = n % 100;
		asyncpp::multi_consumer_event e;
		std::vector<int> out((size_t)k);
		auto outer = [&](int i) -> co {
			asyncpp::fiber<int> f([&, i, t = token{S_TOKENS}] {
				token t2{S_TOKENS};
				fib_await e.wait();
				if (i % 7 == 3) fib_await hop_bool{{w}};
				return i * 5;
			}, 32768);
			out[(size_t)i] = co_await f;
			sim::add(S_OUT, 1);
			sim::release();
		};
		for (int i = 0; i < k; i++) outer(i);
		SIM_CHECK(sim::get(S_OUT) == 0, "early", "a fiber continued although the event is not set");
		e.set();
		sim::await_acquire([k] { return sim::get(S_OUT) == k; }, "each of many fibers ends");
		for (int i = 0; i < k; i++) SIM_CHECK(out[(size_t)i] == i * 5, "result", "fiber %d returned %d", i, out[(size_t)i]);
	}
	w.stop();
	SIM_CHECK(sim::get(S_TOKENS) == 0, "leak", "%ld locals or callables alive at the end", (long)sim::get(S_TOKENS));
	SIM_CHECK(sim::live_maps() == 0, "stack", "%zu stacks are still mapped", sim::live_maps());
}
