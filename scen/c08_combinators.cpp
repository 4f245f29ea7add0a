#include "common.h"
#include <asyncpp/promise.h>
#include <stdexcept>
using namespace h;

namespace {
	enum { S_TOKENS = 1, S_DONE, S_CALLED };
	enum { K_SET_B = K_USER, K_SET_E, K_COMB_B, K_COMB_E, K_RES };

	struct payload {
		int64_t id;
		token t;
		explicit payload(int64_t i) : id(i), t(S_TOKENS) {}
	};
	struct error : std::runtime_error {
		int64_t id;
		explicit error(int64_t i) : std::runtime_error("error"), id(i) {}
	};
	int64_t outcome_of(const std::exception_ptr& e) {
		try {
			std::rethrow_exception(e);
		} catch (const error& x) { return -x.id; } catch (...) {
			sim::fail("wrong-exception", "the result carries an exception no argument was rejected with");
		}
	}
	using P = asyncpp::promise<payload>;

	void settle(P& p, int i, bool ok) {
		sim::log(K_SET_B, i);
		if (ok) p.fulfill(payload(i));
		else p.reject<error>(i);
		sim::log(K_SET_E, i, ok);
	}
	int64_t value(const P& r) {
		auto v = r.try_get(std::nothrow);
		if (v.first) {
			SIM_CHECK(v.first->t.ok(), "value", "the result is broken");
			return v.first->id;
		}
		return v.second ? outcome_of(v.second) : 0;
	}
	int64_t value(const asyncpp::promise<void>& r) {
		auto v = r.try_get(std::nothrow);
		return v.second ? -1000 : v.first ? 1000 : 0;
	}

	enum which { FIRST, FIRST_OK, ALL };
	struct arg { uint64_t b = 0, e = UINT64_MAX; bool ok = false; };

	/// number of arguments that have certainly / possibly settled at a moment
	template<class R>
	void on_result(R& r, which w, const std::vector<bool>& oks, int n) {
		// called as soon as the result settles
		sim::quiet q;
		int possible = 0, possible_ok = 0, possible_bad = 0;
		for (int i = 1; i <= n; i++) {
			const bool began = when(K_SET_B, i, 0) != 0;
			possible += began;
			(oks[(size_t)i - 1] ? possible_ok : possible_bad) += began;
		}
		if (w == ALL) SIM_CHECK(possible == n, "early", "promise_all settled with %d of %d arguments settled", possible, n);
		if (w == FIRST) SIM_CHECK(possible >= 1, "early", "promise_first settled before any argument");
		if (w == FIRST_OK) SIM_CHECK(possible_ok >= 1 || possible_bad == n, "early", "promise_first_successful settled too early");
		(void)r;
	}

	template<class R, class C>
	void run(which w, int n, C&& combine) {
		std::vector<bool> oks;
		{
			std::vector<P> a((size_t)n);
			std::vector<int> phase; // 0 settled before the call, 1 concurrently, 2 after, 3 never
			for (int i = 0; i < n; i++) {
				oks.push_back(w == FIRST_OK ? sim::biased(2, 0.4) : sim::flip());
				phase.push_back((int)sim::param(3) + (sim::biased(2, 0.1) ? 1 : 0));
			}
			std::unique_ptr<R> r;
			int64_t at_return = 0;
			{
				threads t;
				for (int k = 0; k < n; k++) {
					// settle the early ones in a random order
					const int i = (k + (int)sim::param((unsigned)n)) % n;
					if (phase[(size_t)i] == 0 && a[(size_t)i].is_pending()) settle(a[(size_t)i], i + 1, oks[(size_t)i]);
				}
				for (int i = 0; i < n; i++)
					if (phase[(size_t)i] == 0 && a[(size_t)i].is_pending()) settle(a[(size_t)i], i + 1, oks[(size_t)i]);
				for (int i = 0; i < n; i++)
					if (phase[(size_t)i] == 1)
						t.go([&, i, p = a[(size_t)i]]() mutable { settle(p, i + 1, oks[(size_t)i]); });
				sim::log(K_COMB_B);
				r = std::make_unique<R>(combine(a));
				sim::log(K_COMB_E);
				at_return = value(*r);
				r->on_settle([&] {
					sim::add(S_CALLED, 1);
					on_result(*r, w, oks, n);
				});
				for (int i = 0; i < n; i++)
					if (phase[(size_t)i] == 2)
						t.go([&, i, p = a[(size_t)i]]() mutable { settle(p, i + 1, oks[(size_t)i]); });
			}
			// everything that settles has settled
			const int64_t res = value(*r);
			SIM_CHECK(sim::get(S_CALLED) == (res != 0), "callback", "observer of the result called %ld times", (long)sim::get(S_CALLED));
			SIM_CHECK(at_return == 0 || at_return == res, "changed", "the result changed from %ld to %ld", (long)at_return, (long)res);
			{
				sim::quiet q;
				std::vector<arg> s((size_t)n);
				int settled = 0, good = 0;
				for (int i = 0; i < n; i++) {
					auto* b = find(K_SET_B, i + 1, 0);
					auto* e = b ? find(K_SET_E, i + 1, oks[(size_t)i]) : nullptr;
					if (e) s[(size_t)i] = {b->seq, e->seq, oks[(size_t)i]}, settled++, good += oks[(size_t)i];
				}
				const uint64_t cb = when(K_COMB_B, 0, 0), ce = when(K_COMB_E, 0, 0);
				// x certainly counted before y
				auto before = [&](int x, int y) {
					auto &X = s[(size_t)x], &Y = s[(size_t)y];
					if (std::max(X.e, ce) < Y.b) return true; // y settled after the call and after x
					return X.e < cb && x < y; // x was settled already, it counts in argument order
				};
				if (w == ALL) {
					SIM_CHECK((res != 0) == (settled == n), res ? "early" : "pending", "promise_all is %s with %d of %d arguments settled", res ? "settled" : "pending", settled, n);
					SIM_CHECK(res == 0 || res == 1000, "value", "promise_all was rejected");
				} else if (w == FIRST || (w == FIRST_OK && good)) {
					SIM_CHECK((res != 0) == (settled > 0), res ? "invented" : "pending", "the result is %ld with %d settled arguments", (long)res, settled);
					if (res) {
						if (w == FIRST_OK) SIM_CHECK(res > 0, "rejected", "rejected although an argument was fulfilled");
						const int win = (int)(res > 0 ? res : -res) - 1;
						SIM_CHECK(win >= 0 && win < n && s[(size_t)win].e != UINT64_MAX && s[(size_t)win].ok == (res > 0), "value", "the result %ld is not the outcome of an argument", (long)res);
						for (int i = 0; i < n; i++)
							if (i != win && s[(size_t)i].e != UINT64_MAX && (w == FIRST || s[(size_t)i].ok) && before(i, win)) sim::fail("not-first", "the result is that of argument %d although argument %d settled before it", win, i);
					}
				} else { // nothing fulfilled
					SIM_CHECK((res != 0) == (settled == n), res ? "early" : "pending", "promise_first_successful is %ld with %d of %d arguments rejected", (long)res, settled, n);
					if (res) {
						SIM_CHECK(res < 0, "value", "fulfilled although every argument was rejected");
						const int win = (int)-res - 1;
						SIM_CHECK(win >= 0 && win < n, "value", "unknown exception");
						for (int i = 0; i < n; i++)
							if (i != win && before(win, i)) sim::fail("not-last", "the result carries the exception of argument %d although argument %d was rejected after it", win, i);
					}
				}
				if (res) SIM_PROBE("settled");
				else SIM_PROBE("pending");
			}
		}
		SIM_CHECK(sim::get(S_TOKENS) == 0, "leaked-value", "%ld values alive at the end", (long)sim::get(S_TOKENS));
	}

	template<class F>
	auto spread(std::vector<P>& a, F&& f) {
		switch (a.size()) {
		case 1: return f(a[0]);
		case 2: return f(a[0], a[1]);
		case 3: return f(a[0], a[1], a[2]);
		default: return f(a[0], a[1], a[2], a[3]);
		}
	}

	// a result that is awaited by a coroutine and combinators of combinators
	co await_all(asyncpp::promise<void> p, const int* data, int n) {
		co_await p;
		for (int i = 0; i < n; i++) SIM_CHECK(data[i] == 1, "visibility", "data written before argument %d settled is not visible", i);
		sim::add(S_DONE, 1);
		sim::release();
	}
	void run_nested() {
		const int n = 4;
		int data[n]{};
		P a, b, c, d;
		P* ps[n] = {&a, &b, &c, &d};
		{
			threads t;
			for (int i = 0; i < n; i++)
				t.go([&, i, p = *ps[i]]() mutable {
					data[i] = 1;
					if (sim::flip()) p.fulfill(payload(i + 1));
					else p.reject<error>(i + 1);
				});
			auto x = asyncpp::promise_all(asyncpp::promise_all(a, b), asyncpp::promise_all(c, d));
			await_all(x, data, n);
			auto y = asyncpp::promise_first<payload>(asyncpp::promise_first_successful<payload>(a, b), asyncpp::promise_first_successful<payload>(c, d));
			t.join();
			SIM_CHECK(!x.is_pending() && x.is_fulfilled(), "pending", "nested promise_all is not fulfilled");
			SIM_CHECK(!y.is_pending(), "pending", "nested promise_first is not settled");
		}
		SIM_CHECK(sim::get(S_DONE) == 1, "lost-wakeup", "the coroutine that awaits promise_all did not continue");
	}
	int count_args() { return 1 + (int)sim::param(4); }
} // namespace
SIM_SCENARIO(first, 2) {
	run<P>(FIRST, count_args(), [](std::vector<P>& a) { return spread(a, [](auto&... p) { return asyncpp::promise_first<payload>(p...); }); });
}
SIM_SCENARIO(first_successful, 2) {
	run<P>(FIRST_OK, count_args(), [](std::vector<P>& a) { return spread(a, [](auto&... p) { return asyncpp::promise_first_successful<payload>(p...); }); });
}
SIM_SCENARIO(all, 2) {
	if (sim::biased(2, 0.01)) { // nothing to wait for
		auto r = asyncpp::promise_all();
		SIM_CHECK(r.is_fulfilled(), "pending", "promise_all without arguments is pending");
	}
	run<asyncpp::promise<void>>(ALL, count_args(), [](std::vector<P>& a) { return spread(a, [](auto&... p) { return asyncpp::promise_all(p...); }); });
}
SIM_SCENARIO(nested, 1) { run_nested(); }
