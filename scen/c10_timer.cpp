#include "timer_common.h"
SIM_SCENARIO(plain, 3) { tmr::run(0, 0, false); }
SIM_SCENARIO(mixed, 1) { tmr::run(0.3, 0, false); }
namespace {
	// something that polls by pushing itself again must not keep scheduled entries from running
	struct poller {
		tmr::world* w;
		unsigned what;
		void operator()(bool) {
			if (sim::get(tmr::S_RUN + 1)) return;
			if (what == 0) w->t->push([p = *this]() mutable { p(true); });
			else w->t->schedule(*this, std::chrono::nanoseconds(1000));
		}
	};
	void starve(int kind) {
		using namespace tmr;
		world w;
		for (auto& s : w.src) s.emplace();
		auto t = std::make_unique<asyncpp::timer>();
		w.t = t.get();
		{
			threads g;
			const int polls = 1 + (int)sim::param(2);
			g.go([&] {
				if (sim::flip()) add(w, 0, kind, sim::flip() ? 0 : 2000, 0);
				for (int i = 0; i < polls; i++) {
					poller p{&w, sim::param(2)};
					p(true);
				}
				if (!sim::get(S_NEXT)) add(w, 0, kind, sim::flip() ? 0 : 2000, 0);
			});
		}
		sim::await([] { return idle(); }, "a scheduled entry runs although other callbacks keep pushing themselves");
		t.reset();
		check(false);
	}
} // namespace
SIM_SCENARIO(starve, 0.5) { starve(tmr::AT); }
SIM_SCENARIO(starve_cancellable, 0.5) { starve(tmr::AT_T); }

namespace {
	// the global timer behind co_await <duration> / <time_point>: created by whoever comes first, destroyed at exit
	template<class W>
	h::co sleeper(int id, int64_t lo, bool must, W make) {
		using namespace tmr;
		lo = std::max(lo, sim::now()); // (a deadline in the past)
		const bool res = co_await make();
		SIM_CHECK(sim::add(S_RUN + (unsigned)id, 1) == 1, "run-twice", "wait %d continued twice", id);
		SIM_CHECK(res || !must, "spurious-cancel", "wait %d was reported as cancelled", id);
		SIM_CHECK(!res || sim::now() >= lo, "early", "wait %d continued %.6f s too early", id, (lo - sim::now()) / 1e9);
		if (res && must && !sim::injected(sim::f_time_jump)) SIM_CHECK(sim::now() <= lo + ms(2), "late", "wait %d continued %.3f s late", id, (sim::now() - lo) / 1e9);
		sim::add(S_OPEN, -1);
		sim::release();
	}
	void global_timer() {
		using namespace tmr;
		const int nthr = 1 + (int)sim::param(3);
		{
			threads g;
			for (int i = 0; i < nthr; i++)
				g.go([i] {
					using asyncpp::operator co_await;
					const int n = 1 + (int)sim::param(2);
					for (int k = 0; k < n; k++) {
						const int id = i * 4 + k;
						static constexpr int64_t delays[] = {ms(10), ms(20), 0, ms(-5), ms(700), 800, ms(10) + 300};
						const int64_t d = delays[sim::param(7)];
						sim::add(S_OPEN, 1);
						// no harness time passes between now() and the wait but single steps of the clock
						switch (sim::param(4)) {
						case 0: sleeper(id, sim::now() + d, true, [d] { return operator co_await(nanoseconds(d)); }); break;
						case 1: {
							const int64_t at = sim::now() + d;
							sleeper(id, at, true, [at] { return operator co_await(tp(at)); });
							break;
						}
						case 2: sleeper(id, sim::now() + d, true, [d] { return operator co_await(std::chrono::system_clock::now() + nanoseconds(d)); }); break;
						default: sleeper(id, sim::now() + d, true, [d] { return asyncpp::timer::get_default().wait(nanoseconds(d)); }); break;
						}
						if (sim::flip()) sim::sleep(ms(6));
					}
				});
		}
		sim::await_acquire([] { return sim::get(S_OPEN) == 0; }, "every wait on the global timer continues");
		SIM_CHECK(sim::live_threads() == 2, "thread", "%d threads are alive, there should be one global timer", sim::live_threads());
		// a wait that is still pending when the program ends is cancelled by the destruction of the timer
		if (sim::flip()) {
			using asyncpp::operator co_await;
			sim::add(S_OPEN, 1);
			sleeper(30, sim::now() + ms(3000), false, [] { return operator co_await(std::chrono::seconds(3)); });
		}
	}
} // namespace
SIM_SCENARIO(global, 0.5) { global_timer(); }



// crowd: very many entries, deadlines of every size
namespace {
	void crowd_timer(double p_token) {
		using namespace tmr;
		sim::limits(4'000'000'000'000'000'000LL, 4000, 20'000'000);
		const int n = 60 + (int)sim::param(220);
		std::vector<int> calls((size_t)n), res((size_t)n);
		std::vector<int64_t> at((size_t)n), when((size_t)n);
		std::vector<char> tok((size_t)n);
		std::vector<int> order;
		order.reserve((size_t)n);
		const int destroy = sim::biased(2, 0.5) ? 1 : 0;
		const unsigned spans = destroy ? 7 : 4, span = sim::param(spans); // the timer looks at its entries twice a second
		bool jumped = false, ordered = false;
		asyncpp::stop_source src;
		{
			asyncpp::timer t;
			const int64_t base = sim::now() + ms(50);
			for (int i = 0; i < n; i++) {
				static constexpr int64_t unit[] = {0, 1, 1'000'000, 1'000'000'000, 3'600'000'000'000, 86'400'000'000'000 * 25, 86'400'000'000'000 * 366};
				at[(size_t)i] = base + unit[sim::biased(2, 0.2) ? sim::param(spans) : span] * (int64_t)sim::param(90);
				tok[(size_t)i] = (char)sim::biased(2, p_token);
				auto fn = [&, i, t = token{S_FUNCTORS}](bool r) {
					calls[(size_t)i]++;
					res[(size_t)i] = r;
					when[(size_t)i] = sim::now();
					order.push_back(i);
					sim::add(S_NEXT, 1);
					sim::release();
				};
				if (tok[(size_t)i]) t.schedule(fn, tp(at[(size_t)i]), src.get_token());
				else t.schedule(fn, tp(at[(size_t)i]));
			}
			ordered = sim::now() < base; // all were known before the first one expired
			if (!destroy) sim::await_acquire([n] { return sim::get(S_NEXT) == n; }, "each of very many entries is invoked", 4'000'000'000'000'000'000LL);
			else sim::sleep(sim::flip() ? 0 : ms(50) + ms(1) * (int64_t)sim::param(100));
			jumped = sim::injected(sim::f_time_jump) || sim::injected(sim::f_stall);
		}
		SIM_CHECK(sim::get(S_FUNCTORS) == 0, "leak", "%ld callbacks were not destroyed", (long)sim::get(S_FUNCTORS));
		int64_t last[2] = {INT64_MIN, INT64_MIN};
		for (int i = 0; i < n; i++) SIM_CHECK(calls[(size_t)i] == 1, "once", "entry %d of %d was invoked %d times", i, n, calls[(size_t)i]);
		for (int i : order) {
			const size_t k = (size_t)i;
			SIM_CHECK(res[k] || destroy, "cancelled", "entry %d was invoked with false although the timer lives", i);
			if (!res[k]) continue;
			SIM_CHECK(when[k] >= at[k], "early", "entry %d was invoked %.6f s early", i, (at[k] - when[k]) / 1e9);
			if (ordered) SIM_CHECK(at[k] >= last[(int)tok[k]], "order", "entry %d was invoked after one with a later deadline", i);
			last[(int)tok[k]] = at[k];
			if (!jumped) SIM_CHECK(when[k] - at[k] < ms(20), "late", "entry %d was invoked %.3f s late", i, (when[k] - at[k]) / 1e9);
		}
	}
} // namespace
SIM_SCENARIO(crowd, 0.05) { crowd_timer(sim::flip() ? 0.4 : 0); }
