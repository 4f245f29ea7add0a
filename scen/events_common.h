// Workload and oracle shared by the event scenarios (C01, C02).
#pragma once
#include "common.h"
#include <asyncpp/event.h>

namespace ev {
	using namespace h;
	enum { S_DONE = 1, S_TOTAL, S_NEXT };
	enum { K_SET_B = K_USER, K_SET_E, K_RST_B, K_RST_E, K_PUSH };

	/// worker that records pushes in the history (attribution of releases to set() calls)
	class log_worker : public worker {
	public:
		int no;
		explicit log_worker(int n) : no(n) {}
		void push(std::function<void()> f) override {
			sim::log(K_PUSH, no);
			worker::push(std::move(f));
		}
	};
	enum style { W_NULL, W_NAMED, W_CURRENT_NONE, W_CURRENT };

	struct world {
		std::unique_ptr<log_worker> wait_w, set_w;
		int plain = 0; // written once, before the only set() of the run
		bool single_set = false;
		bool initial = false;

	};

	template<class E>
	co waiter(world& w, E& e, int id, int rounds) {
		for (int r = 0; r < rounds; r++) {
			unsigned st = sim::param(w.wait_w ? 4 : 2);
			if (!w.wait_w) st = st == 1 ? (unsigned)W_CURRENT_NONE : (unsigned)W_NULL;
			const int op = r * 4 + (int)st;
			if (st == W_NULL) co_await traced{e.wait(), id, op};
			else if (st == W_NAMED)
				co_await traced{e.wait(w.wait_w.get()), id, op};
			else if (st == W_CURRENT_NONE) {
				auto a = [&] {
					on_dispatcher d(nullptr);
					return e.operator co_await();
				}();
				co_await traced<decltype(a)>{a, id, op};
			} else {
				auto a = [&] {
					on_dispatcher d(w.wait_w.get());
					return e.operator co_await();
				}();
				co_await traced<decltype(a)>{a, id, op};
			}
			if (w.single_set) SIM_CHECK(w.plain == 42, "visibility", "data written before set() is not visible after the wait");
			sim::point();
		}
		sim::add(S_DONE, 1);
		sim::release();
	}

	template<class E>
	bool do_set(world& w, E& e) {
		const int k = (int)sim::add(S_NEXT, 1);
		const bool use = w.set_w && sim::flip();
		sim::log(K_SET_B, k, use);
		bool r = e.set(use ? w.set_w.get() : nullptr);
		sim::log(K_SET_E, k, r);
		return r;
	}
	template<class E>
	void do_reset(E& e, int k) {
		sim::log(K_RST_B, k);
		e.reset();
		sim::log(K_RST_E, k);
	}

	struct op_rec {
		int id, op;
		const sim::event *begin, *susp, *resume;
		bool registered() const { return susp && susp->c; }
	};
	inline std::vector<op_rec> waits(bool need_done = true) {
		std::vector<op_rec> v;
		for (size_t i = 0; i < sim::log_size(); i++) {
			auto& e = sim::log_at(i);
			if (e.kind != K_BEGIN) continue;
			op_rec o{(int)e.a, (int)e.b, &e, nullptr, nullptr};
			int nres = 0;
			for (size_t k = i; k < sim::log_size(); k++) {
				auto& f = sim::log_at(k);
				if (f.a != e.a || f.b != e.b) continue;
				if (f.kind == K_SUSP) o.susp = &f;
				if (f.kind == K_RESUME) {
					o.resume = &f;
					nres++;
				}
			}
			SIM_CHECK(nres <= 1, "resume-once", "wait %d/%d continued %d times", o.id, o.op, nres);
			if (need_done) SIM_CHECK(nres == 1, "lost-wakeup", "wait %d/%d never continued", o.id, o.op);
			v.push_back(o);
		}
		return v;
	}
	struct set_rec {
		int k;
		const sim::event *b, *e;
		int released;
	};
	inline std::vector<set_rec> sets(const std::vector<op_rec>& ws) {
		std::vector<set_rec> v;
		for (size_t i = 0; i < sim::log_size(); i++) {
			auto& e = sim::log_at(i);
			if (e.kind != K_SET_B) continue;
			set_rec s{(int)e.a, &e, nullptr, 0};
			for (size_t k = i; k < sim::log_size() && !s.e; k++) {
				auto& f = sim::log_at(k);
				if (f.kind == K_SET_E && f.a == e.a) s.e = &f;
				if (f.kind == K_PUSH && f.tid == e.tid) s.released++;
			}
			for (auto& o : ws)
				if (o.registered() && o.resume && o.resume->tid == e.tid && o.resume->seq > e.seq && (!s.e || o.resume->seq < s.e->seq)) s.released++;
			v.push_back(s);
		}
		return v;
	}
	struct ids { int wait_tid = -1, set_tid = -1; };
	/// waits continue where they asked to, and set() reports a release exactly when it made one
	inline void check_place(ids t, const std::vector<op_rec>& ws, const std::vector<set_rec>& ss) {
		for (auto& o : ws) {
			if (!o.resume) continue;
			if (!o.registered()) {
				SIM_CHECK(o.resume->tid == o.begin->tid, "wrong-thread", "a wait that does not suspend changed its thread");
				SIM_PROBE("passed");
				continue;
			}
			SIM_PROBE("suspended");
			const int st = o.op % 4;
			if (st == W_NAMED || st == W_CURRENT) {
				SIM_CHECK(o.resume->tid == t.wait_tid, "wrong-dispatcher", "wait %d/%d named a dispatcher but continued on thread t%d", o.id, o.op, o.resume->tid);
				continue;
			}
			bool ok = false;
			for (auto& s : ss) {
				if (s.b->seq > o.resume->seq) continue;
				if (s.b->b) ok |= o.resume->tid == t.set_tid;
				else ok |= o.resume->tid == s.b->tid && (!s.e || o.resume->seq < s.e->seq);
			}
			SIM_CHECK(ok, "wrong-dispatcher", "wait %d/%d continued on t%d: neither inside a set() nor on the dispatcher given to one", o.id, o.op, o.resume->tid);
		}
		for (auto& s : ss) {
			SIM_CHECK(s.e, "set-returns", "set() did not return");
			SIM_CHECK((s.e->b != 0) == (s.released > 0), "set-result", "set() returned %s but released %d waiting coroutine(s)", s.e->b ? "true" : "false", s.released);
		}
	}

	// very many waits at once, or one after the other
	template<class E>
	co crowd_waiter(E& e, unsigned slot, dispatcher* d, int rounds) {
		for (int r = 0; r < rounds; r++) {
			co_await e.wait(d);
			sim::add(slot, 1);
		}
		sim::add(S_DONE, 1);
		sim::release();
	}
	template<class E>
	void run_crowd(bool multi, bool auto_reset) {
		std::unique_ptr<worker> w;
		E e;
		if (multi && sim::biased(4, 0.75)) {
			const int n = many() % 512;
			if (sim::flip()) w = std::make_unique<worker>();
			const int here = (int)sim::param((unsigned)n + 1), sets = (int)sim::param(3);
			auto spawn = [&](int a, int b) {
				for (int i = a; i < b; i++) crowd_waiter(e, 100 + (unsigned)i, w && i % 3 ? w.get() : nullptr, 1);
			};
			bool s = false;
			{
				threads t;
				t.go([&] { spawn(here, n); });
				if (sets)
					t.go([&] {
						for (int i = 0; i < sets; i++) s |= e.set();
					});
				spawn(0, here);
			}
			const bool waiting = e.is_awaited();
			const bool r = e.set();
			SIM_CHECK(r == waiting, "set-result", "set() of %d waits returned %d", n, r);
			SIM_CHECK(!e.is_awaited(), "lost-wakeup", "set() left a waiting coroutine behind");
			sim::await_acquire([&] { return sim::get(S_DONE) == n; }, "each of very many waits continues");
			w.reset();
			for (int i = 0; i < n; i++) SIM_CHECK(sim::get(100 + (unsigned)i) == 1, "resume-once", "wait %d of %d continued %ld times", i, n, (long)sim::get(100 + (unsigned)i));
			SIM_CHECK(e.is_set() == (!auto_reset || !waiting), "model", "is_set() is %d afterwards", e.is_set());
		} else {
			const int n = many();
			crowd_waiter(e, 100, nullptr, n);
			for (int i = 0; i < n; i++) {
				SIM_CHECK(sim::get(100) == i, "lost-wakeup", "%ld waits continued after %d calls of set()", (long)sim::get(100), i);
				const bool r = e.set();
				SIM_CHECK(r, "set-result", "set() %d did not find the waiting coroutine", i);
				if (!auto_reset) {
					// the coroutine runs through all its waits while the event stays set
					SIM_CHECK(sim::get(100) == n, "model", "a wait for a set event did not continue");
					break;
				}
			}
			SIM_CHECK(sim::get(S_DONE) == 1, "lost-wakeup", "a wait never continued");
			for (int i = 0; i < n; i++) {
				e.reset();
				SIM_CHECK(!e.is_set(), "model", "reset() left the event set");
				const bool sw = sim::get(101) == i;
				crowd_waiter(e, 101, nullptr, 1);
				SIM_CHECK(sw && sim::get(101) == i && e.is_awaited(), "model", "a wait for an unset event continued");
				SIM_CHECK(e.set() && sim::get(101) == i + 1, "lost-wakeup", "round %d: the wait did not continue", i);
				SIM_CHECK(e.is_set() == !auto_reset, "model", "round %d: is_set() is %d after a release", i, e.is_set());
			}
		}
	}
} // namespace ev
