#include "common.h"
#include <asyncpp/promise.h>
#include <chrono>
#include <stdexcept>
using namespace h;
using namespace std::chrono_literals;

namespace {
	enum { S_DONE = 1, S_TOKENS, S_WINS, S_WIN_ID, S_FTOK, S_OBS, S_RET, S_ENTERED, S_FAULTY };
	enum { K_SET_B = K_USER, K_SET_E, K_REG_B, K_REG_E, K_CALLED, K_TIMED_B, K_TIMED_E, K_QUERY_B, K_QUERY_E };

	struct copy_error : std::exception {};
	/// value whose copy and construction may throw (only while a settler is active)
	struct payload {
		int64_t id;
		token t;
		explicit payload(int64_t i) : id(i), t(S_TOKENS) {}
		payload(const payload& o) : id(o.id), t((maybe_throw(), o.t)) {}
		payload(payload&& o) noexcept : id(o.id), t(std::move(o.t)) {}
		static void maybe_throw() {
			if (sim::get(S_FAULTY) && sim::inject(sim::f_exception, 0.3)) throw copy_error();
		}
	};
	struct error : std::runtime_error {
		int64_t id;
		explicit error(int64_t i) : std::runtime_error("error"), id(i) {}
	};

	// outcome: id of the settle call; negative = rejected
	int64_t outcome_of(const std::exception_ptr& e) {
		try {
			std::rethrow_exception(e);
		} catch (const error& x) { return -x.id; } catch (...) {
			sim::fail("wrong-exception", "an observer got an exception nobody rejected with");
		}
	}
	void seen(int64_t outcome) {
		SIM_CHECK(outcome != 0, "value", "empty outcome");
		// whichever observer comes first fixes the outcome all others must agree with
		if (sim::get(S_OBS) == 0) sim::set(S_OBS, outcome);
		SIM_CHECK(sim::get(S_OBS) == outcome, "different-results", "one observer saw result %ld, another %ld", (long)sim::get(S_OBS), (long)outcome);
	}

	template<class T>
	struct tr {
		using P = asyncpp::promise<T>;
		static int64_t of(const T& v) {
			SIM_CHECK(v.t.ok(), "value", "the value is broken");
			return v.id;
		}
		static void fulfill(P& p, int64_t id, bool copy) {
			if (copy) {
				const T v(id);
				p.fulfill(v);
			} else
				p.fulfill(T(id));
		}
		static bool try_fulfill(P& p, int64_t id, bool copy) {
			if (copy) {
				const T v(id);
				return p.try_fulfill(v);
			}
			return p.try_fulfill(T(id));
		}
		static int64_t get(const P& p) { return of(p.get()); }
		template<class D>
		static int64_t get(const P& p, D d) {
			T* r = p.get(d);
			return r ? of(*r) : 0;
		}
		static int64_t try_get(const P& p, bool nothrow) {
			if (nothrow) {
				auto r = p.try_get(std::nothrow);
				SIM_CHECK(!(r.first && r.second), "value", "try_get returned a value and an exception");
				return r.first ? of(*r.first) : r.second ? outcome_of(r.second) : 0;
			}
			T* r = p.try_get();
			return r ? of(*r) : 0;
		}
		template<class F, class G>
		static void then(P& p, F f, G g) {
			p.then([f](const T& v) mutable { f(of(v)); }, g);
		}
		static co await(P p, int n, int id) {
			int64_t r = 0;
			try {
				auto a = p.operator co_await();
				T& v = co_await traced<decltype(a)>{std::move(a), id, 0};
				r = of(v);
			} catch (const error& e) { r = -e.id; }
			sim::log(K_CALLED, n, r);
			seen(r);
			sim::add(S_DONE, 1);
			sim::release();
		}
	};
	// promise<void>: the value carries no identity
	template<>
	struct tr<void> {
		using P = asyncpp::promise<void>;
		static constexpr int64_t V = 1000;
		static void fulfill(P& p, int64_t, bool) { p.fulfill(); }
		static bool try_fulfill(P& p, int64_t, bool) { return p.try_fulfill(); }
		static int64_t get(const P& p) {
			p.get();
			return V;
		}
		template<class D>
		static int64_t get(const P& p, D d) {
			return p.get(d) ? V : 0;
		}
		static int64_t try_get(const P& p, bool nothrow) {
			if (nothrow) {
				auto r = p.try_get(std::nothrow);
				return r.second ? outcome_of(r.second) : r.first ? V : 0;
			}
			return p.try_get() ? V : 0;
		}
		template<class F, class G>
		static void then(P& p, F f, G g) {
			p.then([f]() mutable { f(V); }, g);
		}
		static co await(P p, int n, int id) {
			int64_t r = V;
			try {
				auto a = p.operator co_await();
				co_await traced<decltype(a)>{std::move(a), id, 0};
			} catch (const error& e) { r = -e.id; }
			sim::log(K_CALLED, n, r);
			seen(r);
			sim::add(S_DONE, 1);
			sim::release();
		}
	};

	template<class T>
	void settle(asyncpp::promise<T>& p) {
		using X = tr<T>;
		const int64_t id = sim::add(S_ENTERED, 1);
		const unsigned how = sim::param(6);
		sim::log(K_SET_B, id);
		bool won = false, threw = false;
		int64_t outcome = std::is_void_v<T> ? 1000 : id;
		try {
			switch (how) {
			case 0: won = X::try_fulfill(p, id, sim::flip()); break;
			case 1:
				outcome = -id;
				won = p.try_reject(std::make_exception_ptr(error(id)));
				break;
			case 2:
				X::fulfill(p, id, sim::flip());
				won = true;
				break;
			case 3:
				outcome = -id;
				p.reject(std::make_exception_ptr(error(id)));
				won = true;
				break;
			case 4:
				outcome = -id;
				won = p.template try_reject<error>(id);
				break;
			case 5:
				outcome = -id;
				p.template reject<error>(id);
				won = true;
				break;
			}
		} catch (const std::logic_error&) {
			SIM_CHECK(how == 2 || how == 3 || how == 5, "try-threw", "a try_ form threw");
			threw = true;
		} catch (const copy_error&) {
			// settling with a value that cannot be copied settles nothing
			sim::log(K_SET_E, id, 0, 1);
			return;
		}
		sim::log(K_SET_E, id, won, 0);
		if (won) {
			SIM_CHECK(sim::add(S_WINS, 1) == 1, "settled-twice", "two calls settled the promise");
			sim::set(S_WIN_ID, outcome);
			seen(outcome);
		}
		if (!won && !threw) SIM_CHECK(how != 2 && how != 3 && how != 5, "no-throw", "a losing fulfill()/reject() did not throw");
		SIM_CHECK(!p.is_pending(), "reverted", "the promise is pending after it was settled");
		if (won) SIM_CHECK(outcome > 0 ? p.is_fulfilled() : p.is_rejected(), "state", "state query disagrees with the settle call");
	}

	/// functor state that must be destroyed exactly once
	template<class T>
	struct cb {
		asyncpp::promise<T>* p; // the promise is alive as long as callbacks run
		int n;
		token t{S_FTOK};
		cb(asyncpp::promise<T>* pp, int nn) : p(pp), n(nn) {}
		void operator()(int64_t outcome) {
			SIM_CHECK(t.ok(), "callback", "callback state was destroyed before the call");
			sim::log(K_CALLED, n, outcome);
			seen(outcome);
			if (sim::flip()) { // re-entrance
				SIM_CHECK(!p->try_reject(std::make_exception_ptr(error(99))), "settled-twice", "a callback could settle the promise again");
				SIM_CHECK(tr<T>::try_get(*p, true) == outcome, "different-results", "try_get() inside a callback disagrees");
			}
		}
	};

	template<class T>
	void observe(asyncpp::promise<T> p, int n, asyncpp::promise<T>* stable) {
		using X = tr<T>;
		const unsigned how = sim::param(7);
		switch (how) {
		case 0: {
			int64_t r;
			sim::log(K_REG_B, n, how);
			try {
				r = X::get(p);
			} catch (const error& e) { r = -e.id; }
			sim::log(K_CALLED, n, r);
			sim::log(K_REG_E, n, how);
			seen(r);
			sim::add(S_DONE, 1);
			break;
		}
		case 1: {
			for (int k = 0; k < 3; k++) {
				const bool fine = sim::biased(2, 0.2);
				const int64_t t = ms((int64_t)sim::param(4)) * 50 + fine * 900, now = sim::now();
				int64_t r;
				sim::log(K_TIMED_B, n, t);
				try {
					r = fine || sim::flip() ? X::get(p, std::chrono::nanoseconds(t)) : X::get(p, std::chrono::duration<double, std::milli>((double)t / 1e6));
				} catch (const error& e) { r = -e.id; }
				sim::log(K_TIMED_E, n, r, t);
				if (r) seen(r);
				else SIM_CHECK(sim::now() - now >= t, "early-timeout", "timed get returned nullptr after %ld of %ld ns", (long)(sim::now() - now), (long)t);
			}
			sim::add(S_DONE, 1);
			break;
		}
		case 2: {
			bool settled = false;
			for (int k = 0; k < 4; k++) {
				int64_t r = 0;
				sim::log(K_QUERY_B, n);
				const unsigned q = sim::param(4);
				try {
					if (q == 0) r = X::try_get(p, false);
					else if (q == 1) r = X::try_get(p, true);
				} catch (const error& e) { r = -e.id; }
				bool now_settled = r != 0;
				if (q == 2) now_settled = !p.is_pending();
				if (q == 3) {
					const bool f = p.is_fulfilled(), j = p.is_rejected();
					SIM_CHECK(!(f && j), "state", "fulfilled and rejected at once");
					now_settled = f || j;
				}
				sim::log(K_QUERY_E, n, now_settled);
				if (r) seen(r);
				if (!(q == 3)) SIM_CHECK(now_settled || !settled, "reverted", "a settled promise looks pending");
				settled |= now_settled;
				sim::point();
			}
			sim::add(S_DONE, 1);
			break;
		}
		case 3:
			sim::log(K_REG_B, n, how);
			X::await(p, n, 500 + n);
			sim::log(K_REG_E, n, how);
			break; // counts as done in the coroutine
		case 4:
			sim::log(K_REG_B, n, how);
			X::then(p, cb<T>(stable, n), [c = cb<T>(stable, n)](const std::exception_ptr& e) mutable { c(outcome_of(e)); });
			sim::log(K_REG_E, n, how);
			sim::add(S_DONE, 1);
			break;
		case 5:
			sim::log(K_REG_B, n, how);
			p.on_settle([c = cb<T>(stable, n)]() mutable { c(tr<T>::try_get(*c.p, true)); });
			sim::log(K_REG_E, n, how);
			sim::add(S_DONE, 1);
			break;
		case 6: { // only one side registered
			sim::log(K_REG_B, n, 6);
			const bool ok = sim::flip();
			if (ok) p.then([](const auto&...) { sim::add(S_RET, 1); }, nullptr);
			else p.then(nullptr, [](const std::exception_ptr&) { sim::add(S_RET, 1000); });
			sim::log(K_REG_E, n, 6, ok);
			sim::add(S_DONE, 1);
			break;
		}
		}
		sim::release();
	}

	void check(int nobs) {
		sim::quiet q;
		const int64_t outcome = sim::get(S_WIN_ID);
		SIM_CHECK(sim::get(S_OBS) == outcome, "different-results", "observers saw %ld, the settling call gave %ld", (long)sim::get(S_OBS), (long)outcome);
		const sim::event *wb = nullptr, *we = nullptr;
		for (size_t i = 0; i < sim::log_size(); i++) {
			auto& e = sim::log_at(i);
			if (e.kind == K_SET_E && e.b) {
				we = &e;
				wb = find(K_SET_B, e.a, 0);
			}
		}
		SIM_CHECK(wb && we, "settled", "no settle call succeeded");
		int half_f = 0, half_r = 0;
		for (int n = 0; n < nobs; n++) {
			const sim::event *rb = nullptr, *re = nullptr, *called = nullptr, *tb = nullptr, *qb = nullptr;
			int calls = 0;
			for (size_t i = 0; i < sim::log_size(); i++) {
				auto& e = sim::log_at(i);
				if (e.a != n) continue;
				if (e.kind == K_REG_B) rb = &e;
				if (e.kind == K_REG_E) re = &e;
				if (e.kind == K_CALLED) {
					called = &e;
					calls++;
				}
				if (e.kind == K_TIMED_B) tb = &e;
				if (e.kind == K_TIMED_E && e.b == 0) {
					SIM_CHECK(!(we->seq < tb->seq), "lost-result", "timed get() missed a promise settled before it started");
					SIM_CHECK(!(we->time < tb->time + e.c), "lost-result", "timed get() returned nullptr although the promise was settled before its deadline");
					SIM_PROBE("timed out");
				}
				if (e.kind == K_QUERY_B) qb = &e;
				if (e.kind == K_QUERY_E && qb) SIM_CHECK(e.b || !(we->seq < qb->seq), "reverted", "a query missed a promise settled before it");
			}
			if (!rb) continue;
			if (rb->b == 6) {
				(re->c ? half_f : half_r)++;
				continue;
			}
			SIM_CHECK(calls == 1, calls ? "called-twice" : "lost-observer", "observer %d was completed %d times", n, calls);
			SIM_CHECK(called->b == outcome, "different-results", "observer %d saw %ld instead of %ld", n, (long)called->b, (long)outcome);
			if (rb->b >= 3) {
				const bool inl = called->tid == rb->tid && called->seq > rb->seq && called->seq < re->seq;
				const bool in_settle = called->tid == wb->tid && called->seq > wb->seq && called->seq < we->seq;
				SIM_CHECK(inl || in_settle, "wrong-place", "observer %d was called neither inside its registration nor inside the settling call", n);
				SIM_PROBE(inl ? "inline" : "deferred");
			}
		}
		SIM_CHECK(sim::get(S_RET) == (outcome > 0 ? half_f : 1000 * half_r), "then-side", "the wrong side of then() was called, or not once (%ld)", (long)sim::get(S_RET));
	}

	template<class T>
	void run(bool faulty) {
		const int nset = (int)sim::param(4), nobs = (int)sim::param(5), early = nobs ? (int)sim::param((unsigned)nobs + 1) : 0;
		{
			asyncpp::promise<T> p;
			sim::set(S_FAULTY, faulty);
			SIM_CHECK(p.is_pending() && !p.is_fulfilled() && !p.is_rejected(), "initial", "a new promise is not pending");
			{
				threads t;
				for (int i = 0; i < nobs; i++)
					t.go([&, i] {
						if (i >= early) sim::sleep(ms(30));
						observe<T>(p, i, &p);
					});
				for (int i = 0; i < nset; i++)
					t.go([&] {
						auto mine = p;
						if (sim::flip()) sim::sleep(ms(10) * (1 + sim::param(10)));
						settle<T>(mine);
					});
				// make sure somebody settles
				t.go([&] {
					sim::sleep(ms(120));
					sim::set(S_FAULTY, 0);
					for (int k = 0; sim::get(S_WINS) == 0; k++) {
						if (!p.is_pending()) { // another settler is inside its call
							sim::sleep(ms(1));
							SIM_CHECK(k < 100000, "stuck", "a settle call does not finish");
							continue;
						}
						settle<T>(p);
					}
				});
			}
			sim::await_acquire([&] { return sim::get(S_DONE) == nobs; }, "every observer is completed once the promise is settled");
			const int64_t r = tr<T>::try_get(p, true);
			SIM_CHECK(r == sim::get(S_WIN_ID), "different-results", "the final value is %ld, not %ld", (long)r, (long)sim::get(S_WIN_ID));
			// observers that come late
			observe<T>(p, nobs, &p);
			check(nobs + 1);
		}
		SIM_CHECK(sim::get(S_TOKENS) == 0, "leaked-value", "%ld values alive after the last handle is gone", (long)sim::get(S_TOKENS));
		SIM_CHECK(sim::get(S_FTOK) == 0, "leaked-callback", "%ld callbacks alive after the last handle is gone", (long)sim::get(S_FTOK));
	}

	// an unsettled promise that is dropped releases its callbacks
	void run_abandoned() {
		{
			asyncpp::promise<payload> p;
			for (int i = 0; i < 2; i++) p.on_settle([c = cb<payload>(&p, i)]() mutable { sim::fail("called", "callback of an abandoned promise called"); });
			p.then([c = cb<payload>(&p, 5)](const payload&) {}, nullptr);
			threads t;
			t.go([q = p]() mutable { (void)q.is_pending(); });
		}
		SIM_CHECK(sim::get(S_FTOK) == 0, "leaked-callback", "%ld callbacks alive", (long)sim::get(S_FTOK));
		auto a = asyncpp::promise<payload>::make_fulfilled(payload(7));
		SIM_CHECK(a.is_fulfilled() && a.get().id == 7, "make", "make_fulfilled()");
		auto b = asyncpp::promise<void>::make_rejected<error>(3);
		SIM_CHECK(b.is_rejected() && tr<void>::try_get(b, true) == -3, "make", "make_rejected()");
	}

	// handles of several promises: which one a handle refers to, and what a promise keeps alive
	template<class T>
	void run_handles() {
		using P = asyncpp::promise<T>;
		using X = tr<T>;
		constexpr int H = 4;
		struct model {
			int64_t outcome = 0;
			int waiting[3]{}; // registered: any outcome, value only, error only
			int calls[3]{};
		};
		{
			auto st = std::make_unique<model[]>(64);
			int nst = 0;
			std::vector<P> p, all;
			int of[H];
			p.reserve(H), all.reserve(64);
			auto fresh = [&](const P& x) {
				all.push_back(x);
				return nst++;
			};
			for (int i = 0; i < H; i++) p.emplace_back(), of[i] = fresh(p.back());
			auto settled = [&](int m, int64_t o) {
				st[(size_t)m].outcome = o;
				st[(size_t)m].waiting[0] = st[(size_t)m].waiting[1] = st[(size_t)m].waiting[2] = 0;
			};
			int64_t id = 0;
			int want[3] = {};
			const unsigned n = 1 + sim::param(24);
			for (unsigned k = 0; k < n && nst < 60; k++) {
				const auto i = sim::param(H), j = sim::param(H);
				model& m = st[(size_t)of[i]];
				switch (sim::param(9)) {
				case 0: p[i] = p[j], of[i] = of[j]; break;
				case 1: {
					P c{p[j]};
					if (sim::flip()) p[i] = std::move(c);
					else p[i] = c;
					of[i] = of[j];
					break;
				}
				case 2: p[i] = P{}, of[i] = fresh(p[i]); break;
				case 3:
				case 4: { // settle
					id++;
					const bool good = sim::flip();
					const int64_t o = !good ? -id : std::is_void_v<T> ? 1000 : id;
					bool won = true;
					try {
						if (good && sim::flip()) won = X::try_fulfill(p[i], id, sim::flip());
						else if (good) X::fulfill(p[i], id, sim::flip());
						else if (sim::flip()) won = p[i].try_reject(std::make_exception_ptr(error(id)));
						else if (sim::flip()) won = p[i].template try_reject<error>(id);
						else if (sim::flip()) p[i].template reject<error>(id);
						else p[i].reject(std::make_exception_ptr(error(id)));
					} catch (const std::logic_error&) { won = false; }
					SIM_CHECK(won == (m.outcome == 0), "settled-twice", "settling a promise gave %d", won);
					if (won) {
						want[0] += m.waiting[0];
						if (o > 0) want[1] += m.waiting[1];
						else want[2] += m.waiting[2];
						settled(of[i], o);
					}
					break;
				}
				case 5:
				case 6: { // callbacks that keep the promise alive until they ran or are not needed any more
					const bool keep = sim::flip();
					auto hold = keep ? std::make_unique<P>(p[i]) : nullptr;
					auto body = [h = std::shared_ptr<P>(std::move(hold)), t = token{S_FTOK}](unsigned which, int64_t o) {
						SIM_CHECK(t.ok(), "callback", "callback state was destroyed before the call");
						if (h) SIM_CHECK(X::try_get(*h, true) == o || o == 0, "different-results", "the handle inside a callback sees another result");
						sim::add(S_RET + 10 + which, 1);
					};
					const unsigned which = sim::param(4);
					const auto total = [&](unsigned w) {
						if (m.outcome == 0) m.waiting[w]++;
						else if (w == 0 || (w == 1) == (m.outcome > 0)) want[w]++;
					};
					if (which == 0) {
						if (sim::flip()) p[i].on_settle([body] { body(0, 0); }), total(0);
						else p[i].on_settle({}); // nothing to call
					} else {
						std::function<void(const std::exception_ptr&)> r;
						if (which & 2) r = [body](const std::exception_ptr& e) { body(2, outcome_of(e)); }, total(2);
						if constexpr (std::is_void_v<T>) {
							std::function<void()> f;
							if (which & 1) f = [body] { body(1, X::V); }, total(1);
							p[i].then(std::move(f), std::move(r));
						} else {
							std::function<void(const T&)> f;
							if (which & 1) f = [body](const T& v) { body(1, X::of(v)); }, total(1);
							p[i].then(std::move(f), std::move(r));
						}
					}
					break;
				}
				case 7: { // a promise that is settled from the start
					id++;
					const unsigned how = sim::param(3);
					if (how == 0) {
						if constexpr (std::is_void_v<T>) p[i] = P::make_fulfilled();
						else p[i] = P::make_fulfilled(T(id));
					} else if (how == 1) p[i] = P::make_rejected(std::make_exception_ptr(error(id)));
					else p[i] = P::template make_rejected<error>(id);
					of[i] = fresh(p[i]);
					settled(of[i], how ? -id : std::is_void_v<T> ? 1000 : id);
					break;
				}
				case 8: // nobody to tell
					if constexpr (std::is_void_v<T>) p[i].then(std::function<void()>{}, {});
					else p[i].then(std::function<void(const T&)>{}, {});
					break;
				}
				for (size_t x = 0; x < H; x++) {
					const int64_t o = st[(size_t)of[x]].outcome;
					SIM_CHECK(p[x].is_pending() == (o == 0) && p[x].is_fulfilled() == (o > 0) && p[x].is_rejected() == (o < 0), "state", "state query disagrees with what the promise was settled with");
					SIM_CHECK(X::try_get(p[x], true) == o, "different-results", "a handle sees result %ld instead of %ld", (long)X::try_get(p[x], true), (long)o);
					if constexpr (std::is_void_v<T>)
						if (o < 0) SIM_CHECK(p[x].try_get(std::nothrow).first, "value", "try_get() of a rejected promise<void> says it is pending");
					int64_t r = 0;
					try {
						r = X::try_get(p[x], false);
					} catch (const error& e) { r = -e.id; }
					SIM_CHECK(r == o, "different-results", "try_get() gives %ld instead of %ld", (long)r, (long)o);
					if (o) {
						try {
							r = sim::flip() ? X::get(p[x]) : X::get(p[x], std::chrono::nanoseconds(0));
						} catch (const error& e) { r = -e.id; }
						SIM_CHECK(r == o, "different-results", "get() gives %ld instead of %ld", (long)r, (long)o);
					}
				}
				for (unsigned w = 0; w < 3; w++)
					SIM_CHECK(sim::get(S_RET + 10 + w) == want[w], sim::get(S_RET + 10 + w) < want[w] ? "lost-observer" : "called-twice", "%ld instead of %d callbacks of kind %u were called", (long)sim::get(S_RET + 10 + w), want[w], w);
			}
			// a pending promise is kept alive by the callbacks that refer to it, a settled one is not
			for (auto& x : all)
				if (x.is_pending()) (void)X::try_fulfill(x, 77, false);
		}
		SIM_CHECK(sim::get(S_TOKENS) == 0, "leaked-value", "%ld values alive after the last handle is gone", (long)sim::get(S_TOKENS));
		SIM_CHECK(sim::get(S_FTOK) == 0, "leaked-callback", "%ld callbacks alive after the last handle is gone", (long)sim::get(S_FTOK));
	}
} // namespace
SIM_SCENARIO(promise_value, 4) { run<payload>(false); }
SIM_SCENARIO(promise_throwing, 1) { run<payload>(true); }
SIM_SCENARIO(promise_void, 2) { run<void>(false); }
SIM_SCENARIO(promise_abandoned, 0.2) { run_abandoned(); }
SIM_SCENARIO(promise_handles, 1) { run_handles<payload>(); }
SIM_SCENARIO(promise_handles_void, 0.5) { run_handles<void>(); }

namespace {
	// several threads copy from and assign from one const promise
	template<class T>
	void shared_source() {
		using X = tr<T>;
		using P = asyncpp::promise<T>;
		const int early = sim::flip();
		{
			auto src = std::make_unique<const P>();
			const P other{};
			if (early) X::fulfill(*std::make_unique<P>(*src), 5, false);
			{
				threads t;
				for (int i = 0; i < 3; i++)
					t.go([&] {
						P a{*src}, b{};
						const bool twice = sim::flip();
						b = *src;
						if (twice) b = other, a = b, b = a, a = *src, b = a;
						P c{};
						c = b;
						SIM_CHECK(!early || X::get(c) == (std::is_void_v<T> ? 1000 : 5), "different-results", "a copy of the settled promise has another result");
						if (!early) (void)X::try_fulfill(c, 5, sim::flip());
						SIM_CHECK(X::get(a) == X::get(b) && X::get(b) == (std::is_void_v<T> ? 1000 : 5), "different-results", "copies of one promise have different results");
					});
			}
			SIM_CHECK(src->is_fulfilled() && other.is_pending(), "state", "a promise that was only copied changed its state");
		}
		SIM_CHECK(sim::get(S_TOKENS) == 0, "leaked-value", "%ld values alive after the last handle is gone", (long)sim::get(S_TOKENS));
	}
	// a timed get() of a promise nobody settles ends soon after its timeout, however often it is woken before
	template<class T>
	void deadline() {
		asyncpp::promise<T> p;
		std::unique_ptr<std::atomic<int>> done = std::make_unique<std::atomic<int>>(0);
		threads t;
		t.go([&] {
			for (int i = 0; i < 60 && !done->load(std::memory_order_relaxed); i++) sim::sleep(ms(1));
		});
		const int n = 1 + (int)sim::param(3);
		for (int i = 0; i < n; i++) {
			const int64_t timeout = sim::biased(2, 0.2) ? (int64_t)sim::param(5) * 400'000 : ms(1 + (int64_t)sim::param(25)), now = sim::now();
			const int64_t r = tr<T>::get(p, std::chrono::nanoseconds(timeout));
			const int64_t took = sim::now() - now;
			SIM_CHECK(r == 0, "value", "timed get() of an unsettled promise has a result");
			SIM_CHECK(took >= timeout, "early-timeout", "timed get() returned nullptr after %ld of %ld ns", (long)took, (long)timeout);
			if (!sim::injected(sim::f_time_jump)) SIM_CHECK(took <= timeout + ms(2), "late-timeout", "timed get() returned nullptr after %ld instead of %ld ns", (long)took, (long)timeout);
		}
		*done = 1;
	}
} // namespace
SIM_SCENARIO(promise_shared_source, 0.4) { shared_source<payload>(); }
SIM_SCENARIO(promise_shared_source_void, 0.2) { shared_source<void>(); }
SIM_SCENARIO(promise_deadline, 0.3) { deadline<payload>(); }
SIM_SCENARIO(promise_deadline_void, 0.2) { deadline<void>(); }



// crowd: very many observers and handles
SIM_SCENARIO(crowd, 0.05) {
	{
		using P = asyncpp::promise<payload>;
		const int n = many() % 512;
		P p;
		std::vector<P> copies;
		const bool rejected = sim::flip();
		auto settle = [&p, rejected] {
			if (rejected) p.reject<error>(7);
			else p.fulfill(payload(7));
		};
		const int64_t expect = rejected ? -7 : 7;
		auto called = [expect](int i, int64_t r) {
			SIM_CHECK(r == expect, "value", "observer %d got result %ld instead of %ld", i, (long)r, (long)expect);
			sim::add(100 + (unsigned)i, 1);
			sim::add(S_DONE, 1);
			sim::release();
		};
		auto awaiter = [called](P q, int i) -> co {
			int64_t r = 0;
			try {
				r = tr<payload>::of(co_await q);
			} catch (const error& e) { r = -e.id; }
			called(i, r);
		};
		auto observe = [&](P& q, int i) {
			switch (i % 3) {
			case 0:
				q.then([=, t = token{S_FTOK}](const payload& v) { called(i, tr<payload>::of(v)); }, [=, t = token{S_FTOK}](const std::exception_ptr& e) { called(i, outcome_of(e)); });
				break;
			case 1:
				q.on_settle([=, t = token{S_FTOK}] { called(i, expect); });
				break;
			default: awaiter(q, i);
			}
		};
		const int cut = (int)sim::param((unsigned)n + 1);
		const bool racing = sim::flip();
		if (sim::flip()) copies.assign((size_t)many(), p);
		{
			threads t;
			t.go([&, q = p]() mutable {
				for (int i = 0; i < cut; i++) observe(q, i);
			});
			if (racing) t.go(settle);
			for (int i = cut; i < n; i++) observe(p, i);
		}
		if (!racing) {
			SIM_CHECK(sim::get(S_DONE) == 0 && p.is_pending(), "early", "an observer of a pending promise was called");
			settle();
		}
		sim::await_acquire([n] { return sim::get(S_DONE) == n; }, "each of very many observers is called");
		for (int i = 0; i < n; i++) SIM_CHECK(sim::get(100 + (unsigned)i) == 1, "observer-once", "observer %d of %d was called %ld times", i, n, (long)sim::get(100 + (unsigned)i));
		SIM_CHECK(sim::get(S_FTOK) == 0, "callbacks-kept", "a settled promise keeps %ld callables", (long)sim::get(S_FTOK));
	}
	SIM_CHECK(sim::get(S_TOKENS) == 0, "leaked-value", "%ld values alive at the end", (long)sim::get(S_TOKENS));
}
