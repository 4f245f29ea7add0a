// Timer scenarios: entries of every kind, recorded and checked against deadlines, stop requests and destruction.
#pragma once
#include "common.h"
#include <asyncpp/stop_token.h>
#include <asyncpp/timer.h>
#include <chrono>
#include <optional>
#include <stdexcept>

namespace tmr {
	using namespace h;
	using clk = std::chrono::steady_clock;
	using std::chrono::nanoseconds;
	enum { S_NEXT = 1, S_FUNCTORS, S_ACTIVE, S_TID, S_HOLD, S_DTOR, S_OPEN, S_WALL, S_RUN = 300 };
	enum { K_ADD_B = K_USER, K_ADD_E, K_DL, K_RUN, K_STOP_B, K_STOP_E, K_DTOR_B, K_DTOR_E, K_BUSY_B, K_BUSY_E };
	enum kind { PUSH, AT, AFTER, AFTER_WALL, WAIT_AT, WAIT_AFTER, WAIT_WALL, AT_T, AFTER_T, WAIT_AT_T, WAIT_AFTER_T, AFTER_WALL_T, WAIT_WALL_T, KINDS };
	constexpr int MAXE = 40, NSRC = 3;
	inline bool has_token(int k) { return k >= AT_T; }
	inline bool is_wall(int k) { return k == AFTER_WALL || k == AFTER_WALL_T || k == WAIT_WALL || k == WAIT_WALL_T; }
	inline bool is_wait(int k) { return k == WAIT_AT || k == WAIT_AFTER || k == WAIT_WALL || k == WAIT_AT_T || k == WAIT_AFTER_T || k == WAIT_WALL_T; }
	/// the meaning of a wall clock deadline is fixed by the call that takes it: no jumps during that call
	struct wall_guard {
		const bool on;
		explicit wall_guard(bool o) : on(o) {
			if (on) sim::add(S_WALL, 1);
		}
		~wall_guard() {
			if (on) sim::add(S_WALL, -1);
		}
		wall_guard(const wall_guard&) = delete;
	};
	inline void jump_wall() {
		if (!sim::get(S_WALL)) sim::inject(sim::f_wall_jump, 0.8);
	}

	struct world {
		asyncpp::timer* t = nullptr;
		int data[MAXE + 1]{};
		std::optional<asyncpp::stop_source> src[NSRC];
		double p_token = 0;
		bool inner_stop = false; // callbacks request stop as well
	};
	inline clk::time_point tp(int64_t ns) { return clk::time_point(nanoseconds(ns)); }
	inline int add(world& w, int depth, int kind_ = -1, int64_t delay = -1, int source = -1);

	inline void stop(world& w, int s) {
		sim::log(K_STOP_B, s);
		const bool r = w.src[s]->request_stop();
		sim::log(K_STOP_E, s, r);
	}

	/// what a callback or a resumed coroutine does (on the timer's thread)
	inline void body(world& w, int id, int depth, bool res, bool inlined) {
		SIM_CHECK(sim::add(S_RUN + (unsigned)id, 1) == 1, "run-twice", "entry %d was invoked twice", id);
		sim::log(K_RUN, id, res, inlined);
		SIM_CHECK(w.data[id] == id * 3, "visibility", "data written before scheduling is not visible in the callback");
		if (inlined) return;
		SIM_CHECK(dispatcher::current() == w.t, "current", "dispatcher::current() is not the timer inside its callback");
		const int64_t tid = sim::get(S_TID);
		if (!tid) sim::set(S_TID, sim::self() + 1);
		else SIM_CHECK(tid == sim::self() + 1, "wrong-thread", "entry %d was invoked on thread t%d, not on the timer's thread", id, sim::self());
		const unsigned act = sim::param(8);
		if (act == 1 || act == 2) {
			const int64_t d = act == 1 ? ms(3) : ms(30);
			sim::log(K_BUSY_B);
			sim::sleep(d);
			sim::log(K_BUSY_E);
		}
		if (act >= 3 && act <= 5 && depth > 0) add(w, depth - 1);
		if (act == 6 && w.inner_stop) stop(w, (int)sim::param(NSRC));
	}

	struct callable {
		world* w;
		int id, depth;
		bool last_words;
		token t{S_FUNCTORS};
		callable(world* ww, int i, int d, bool lw) : w(ww), id(i), depth(d), last_words(lw) {}
		callable(const callable&) = delete;
		~callable() {
			if (last_words && sim::get(S_RUN + (unsigned)id)) add(*w, 0); // from its destructor, on the timer's thread
		}
		void operator()(bool res) {
			SIM_CHECK(t.ok(), "functor", "a callback ran after it was destroyed");
			body(*w, id, depth, res, false);
		}
	};

	/// records whether the wait suspended
	template<class A>
	struct timed {
		A a;
		int id;
		bool* susp;
		bool await_ready() { return a.await_ready(); }
		void await_suspend(coroutine_handle<> hd) {
			const int i = id;
			*susp = true;
			a.await_suspend(hd);
			sim::log(K_ADD_E, i, 1);
		}
		bool await_resume() { return a.await_resume(); }
	};
	template<class A>
	timed(A, int, bool*) -> timed<A>;

	template<class W>
	inline co waiter(world& w, int id, int depth, W make) {
		bool susp = false;
		bool res;
		try {
			res = co_await timed{make(), id, &susp};
		} catch (const std::logic_error&) {
			sim::log(K_ADD_E, id, 0);
			sim::add(S_OPEN, -1);
			co_return;
		}
		if (!susp) sim::log(K_ADD_E, id, 1);
		token t{S_FUNCTORS};
		body(w, id, depth, res, !susp);
		sim::add(S_OPEN, -1);
	}

	inline int add(world& w, int depth, int kind_, int64_t delay, int source) {
		const int id = (int)sim::add(S_NEXT, 1);
		if (id >= MAXE) return 0;
		w.data[id] = id * 3;
		int k = kind_;
		if (k < 0) k = sim::biased(2, w.p_token) ? (int)AT_T + (int)sim::param(KINDS - AT_T) : (int)sim::param(AT_T);
		static constexpr int64_t delays[] = {ms(10), ms(20), ms(11), 0, ms(-5), ms(400), ms(600), ms(1), 700, ms(10) + 900};
		if (delay < 0) delay = delays[sim::param(10)];
		const int s = has_token(k) ? (source < 0 ? (int)sim::param(NSRC) : source) : -1;
		const bool lw = sim::biased(2, 0.1) && depth > 0;
		asyncpp::stop_token tok;
		if (s >= 0) tok = w.src[s]->get_token();
		const int64_t base = k == PUSH || delay % ms(1) ? sim::now() : (sim::now() / ms(1)) * ms(1); // deadlines may coincide
		const int64_t at = base + delay;
		sim::log(K_ADD_B, id, k, s);
		wall_guard wg(is_wall(k) && !is_wait(k));
		auto fn = [&] { return [c = std::make_shared<callable>(&w, id, depth, lw)](bool r) { (*c)(r); }; };
		int64_t lo = at;
		if (k == AFTER || k == WAIT_AFTER || k == AFTER_T || k == WAIT_AFTER_T || is_wall(k)) lo = sim::now() + delay;
		if (k == PUSH) lo = INT64_MIN;
		sim::log(K_DL, id, lo);
		if (is_wait(k)) {
			sim::add(S_OPEN, 1);
			if (k == WAIT_AT) waiter(w, id, depth, [&w, at] { return w.t->wait(tp(at)); });
			else if (k == WAIT_AFTER) waiter(w, id, depth, [&w, delay] { return w.t->wait(nanoseconds(delay)); });
			else if (k == WAIT_AT_T) waiter(w, id, depth, [&w, at, tok] { return w.t->wait(tp(at), tok); });
			else if (k == WAIT_WALL) {
				waiter(w, id, depth, [&w, delay] {
					wall_guard g(true);
					return w.t->wait(std::chrono::system_clock::now() + nanoseconds(delay));
				});
			} else if (k == WAIT_WALL_T) {
				waiter(w, id, depth, [&w, delay, tok] {
					wall_guard g(true);
					return w.t->wait(std::chrono::system_clock::now() + nanoseconds(delay), tok);
				});
			} else waiter(w, id, depth, [&w, delay, tok] { return w.t->wait(nanoseconds(delay), tok); });
			return id;
		}
		try {
			switch (k) {
			case PUSH: w.t->push([f = fn()]() mutable { f(true); }); break;
			case AT: w.t->schedule(fn(), tp(at)); break;
			case AFTER: w.t->schedule(fn(), nanoseconds(delay)); break;
			case AFTER_WALL: w.t->schedule(fn(), std::chrono::system_clock::now() + nanoseconds(delay)); break;
			case AT_T: w.t->schedule(fn(), tp(at), tok); break;
			case AFTER_T: w.t->schedule(fn(), nanoseconds(delay), tok); break;
			case AFTER_WALL_T: w.t->schedule(fn(), std::chrono::system_clock::now() + nanoseconds(delay), tok); break;
			}
		} catch (const std::logic_error&) {
			sim::log(K_ADD_E, id, 0);
			return 0;
		}
		sim::log(K_ADD_E, id, 1);
		return id;
	}

	/// empty callables are accepted and ignored
	inline void add_empty(world& w) {
		const auto at = tp(sim::now() + ms(3) * (int64_t)sim::param(3));
		try {
			switch (sim::param(3)) {
			case 0: w.t->push({}); break;
			case 1: w.t->schedule({}, at); break;
			default: w.t->schedule({}, at, w.src[sim::param(NSRC)]->get_token()); break;
			}
			SIM_PROBE("empty callable");
		} catch (const std::logic_error&) {}
	}

	struct entry {
		int id = 0, kind = 0, src = -1;
		int64_t lo = 0, hi = 0; // earliest/latest meaning of the deadline
		uint64_t b = 0, e = UINT64_MAX, r = UINT64_MAX;
		int64_t tb = 0, te = 0, tr = 0;
		bool ok = false, run = false, res = false, inlined = false;
	};
	struct hist {
		std::vector<entry> v;
		uint64_t stop_b[NSRC]{UINT64_MAX, UINT64_MAX, UINT64_MAX};
		int64_t stop_te[NSRC]{INT64_MAX, INT64_MAX, INT64_MAX};
		uint64_t dtor = UINT64_MAX;
	};
	inline hist history() {
		hist x;
		x.v.resize(MAXE + 1);
		for (size_t i = 0; i < sim::log_size(); i++) {
			auto& l = sim::log_at(i);
			if (l.kind == K_STOP_B && x.stop_b[l.a] == UINT64_MAX) x.stop_b[l.a] = l.seq;
			if (l.kind == K_STOP_E && l.b && x.stop_te[l.a] == INT64_MAX) x.stop_te[l.a] = l.time;
			if (l.kind == K_DTOR_B) x.dtor = l.seq;
			if (l.kind < K_ADD_B || l.kind > K_RUN) continue;
			auto& e = x.v[(size_t)l.a];
			if (l.kind == K_ADD_B) e.id = (int)l.a, e.kind = (int)l.b, e.src = (int)l.c, e.b = l.seq, e.tb = l.time;
			if (l.kind == K_DL) e.lo = l.b;
			if (l.kind == K_ADD_E) e.ok = l.b, e.e = l.seq, e.te = l.time;
			if (l.kind == K_RUN) e.run = true, e.res = l.b, e.inlined = l.c, e.r = l.seq, e.tr = l.time;
		}
		std::vector<entry> o;
		for (auto& e : x.v)
			if (e.id) {
				const bool rel = e.kind != AT && e.kind != AT_T && e.kind != WAIT_AT && e.kind != WAIT_AT_T && e.kind != PUSH;
				e.hi = e.lo + (rel && e.e != UINT64_MAX ? e.te - e.tb : 0);
				o.push_back(e);
			}
		x.v = std::move(o);
		return x;
	}
	/// every accepted entry was invoked
	inline bool idle() {
		if (sim::get(S_OPEN)) return false;
		for (int i = 1; i <= (int)sim::get(S_NEXT) && i < MAXE; i++) {
			auto* b = find(K_ADD_B, i, PUSH);
			(void)b;
			if (find(K_ADD_E, i, 1) && !sim::get(S_RUN + (unsigned)i)) return false;
		}
		return true;
	}

	/// prompt: nothing held the timer's thread but recorded sleeps
	inline void check(bool prompt) {
		sim::quiet q;
		auto x = history();
		prompt = prompt && !sim::injected(sim::f_time_jump);
		// time the timer's thread spent inside of callbacks
		std::vector<std::pair<int64_t, int64_t>> busy;
		for (size_t i = 0; i < sim::log_size(); i++) {
			auto& l = sim::log_at(i);
			if (l.kind == K_BUSY_B) busy.emplace_back(l.time, INT64_MAX);
			if (l.kind == K_BUSY_E) busy.back().second = l.time;
		}
		auto idle_between = [&](int64_t from, int64_t to) {
			int64_t t = to - from;
			for (auto& b : busy) t -= std::max<int64_t>(0, std::min(to, b.second) - std::max(from, b.first));
			return t;
		};
		const int64_t slack = ms(2);
		for (auto& e : x.v) {
			if (!e.ok) {
				SIM_CHECK(!e.run, "refused-ran", "entry %d was refused but invoked", e.id);
				continue;
			}
			SIM_CHECK(e.run, "lost", "entry %d (kind %d) was accepted but never invoked", e.id, e.kind);
			if (e.kind == PUSH) {
				if (prompt) SIM_CHECK(idle_between(e.te, e.tr) <= slack, "late", "pushed entry %d ran %.3f s after the push although nothing else was running", e.id, (e.tr - e.te) / 1e9);
				continue;
			}
			const int s = e.src;
			const uint64_t sb = s >= 0 ? x.stop_b[s] : UINT64_MAX;
			if (e.res) {
				SIM_CHECK(e.tr >= e.lo, "early", "entry %d was invoked %.6f s before its time", e.id, (e.lo - e.tr) / 1e9);
				if (s >= 0 && !e.inlined && x.stop_te[s] < e.lo && e.tb < e.lo)
					SIM_CHECK(false, "not-cancelled", "entry %d was invoked with true although stop was requested %.6f s before its deadline", e.id, (e.lo - x.stop_te[s]) / 1e9);
			} else {
				SIM_CHECK(sb < e.r || x.dtor < e.r, "spurious-cancel", "entry %d was invoked with false without a stop request or destruction", e.id);
				SIM_CHECK(!e.inlined, "inline-cancel", "wait %d did not suspend but reported cancellation", e.id);
			}
			if (prompt) {
				int64_t due = std::max(e.hi, e.te);
				if (s >= 0 && x.stop_te[s] != INT64_MAX) due = std::min(due, std::max(x.stop_te[s], e.te));
				SIM_CHECK(idle_between(due, e.tr) <= slack, "late", "entry %d (kind %d) was invoked %.3f s late although nothing else was running", e.id, e.kind, (e.tr - due) / 1e9);
			}
		}
		// order of deadlines
		for (auto& a : x.v)
			for (auto& b : x.v) {
				if (a.kind == PUSH || b.kind == PUSH || !a.ok || !b.ok || !a.res || !b.res || a.inlined || b.inlined) continue;
				if (has_token(a.kind) != has_token(b.kind)) continue;
				if (a.hi < b.lo && a.te < b.lo) SIM_CHECK(a.r < b.r, "order", "entry %d ran before entry %d, which was due %.6f s earlier", b.id, a.id, (b.lo - a.hi) / 1e9);
			}
	}

	enum ending { E_IDLE, E_EARLY, E_HOLD_PUSH, E_HOLD_SCHED };
	inline void run(double p_token, int stoppers, bool inner_stop) {
		world w;
		w.p_token = p_token;
		w.inner_stop = inner_stop;
		for (auto& s : w.src) s.emplace();
		auto t = std::make_unique<asyncpp::timer>();
		w.t = t.get();
		const unsigned end = sim::param(4);
		const int nthr = 1 + (int)sim::param(2);
		sim::set(S_ACTIVE, nthr);
		bool held = false;
		if (end >= E_HOLD_PUSH) {
			// keeps the timer's thread (and with it the timer) until the others are done
			held = true;
			auto hold = [&w] {
				sim::set(S_HOLD, 1);
				sim::await_acquire([] { return sim::get(S_ACTIVE) == 0; }, "operations on the timer return while a callback is running");
				(void)w;
			};
			if (end == E_HOLD_PUSH) t->push(hold);
			else {
				if (sim::flip()) t->schedule([hold](bool) { hold(); }, tp(sim::now() + ms(900'000)));
				else t->schedule([hold](bool) { hold(); }, tp(sim::now() + ms(900'000)), asyncpp::stop_token{});
			}
		}
		{
			threads g, st;
			for (int i = 0; i < nthr; i++)
				g.go([&] {
					if (held && sim::flip()) sim::await([] { return sim::get(S_HOLD) != 0 || sim::get(S_DTOR) != 0; }, "the timer runs the callback that holds it");
					const int n = 1 + (int)sim::param(3);
					for (int k = 0; k < n; k++) {
						add(w, 2);
						if (sim::biased(2, 0.1)) add_empty(w);
						if (sim::biased(2, 0.3)) sim::sleep(ms(5) * (1 + (int64_t)sim::param(4)));
					}
					sim::add(S_ACTIVE, -1);
					sim::release();
				});
			if (sim::biased(2, 0.3))
				st.go([] {
					for (int k = 0; k < 3; k++) {
						jump_wall();
						sim::sleep(ms(1) * (int64_t)sim::param(12));
					}
				});
			for (int i = 0; i < stoppers; i++)
				st.go([&] {
					const int n = 1 + (int)sim::param(2);
					for (int k = 0; k < n; k++) {
						const unsigned d = sim::param(6);
						if (d) {
							static constexpr int64_t until[] = {0, ms(1), ms(10), ms(11), ms(20), ms(100)};
							sim::sleep(until[d]);
						}
						stop(w, (int)sim::param(NSRC));
					}
				});
			if (!held) g.join();
			if (end == E_IDLE) {
				sim::await([] { return idle(); }, "every accepted callback is invoked", 600'000'000'000LL);
			} else if (sim::flip()) sim::sleep(ms(4) * (1 + (int64_t)sim::param(6)));
			sim::log(K_DTOR_B);
			sim::set(S_DTOR, 1);
			t.reset();
			sim::log(K_DTOR_E);
			if (sim::flip()) st.join();
		}
		SIM_CHECK(sim::live_threads() == 1, "thread", "the timer's thread survived its destructor");
		SIM_CHECK(sim::get(S_OPEN) == 0, "suspended", "%ld coroutines are still suspended after the timer is gone", (long)sim::get(S_OPEN));
		check(!held);
		for (auto& s : w.src) s.reset();
		SIM_CHECK(sim::get(S_FUNCTORS) == 0, "leaked-callable", "%ld callables alive after the timer is gone", (long)sim::get(S_FUNCTORS));
	}
} // namespace tmr
