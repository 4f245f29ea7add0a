#include "timer_common.h"
SIM_SCENARIO(stop, 3) { tmr::run(0.8, 1 + (int)sim::param(2), false); }
SIM_SCENARIO(stop_inside, 2) { tmr::run(0.7, (int)sim::param(2), true); }



// crowd: very many cancellable entries, deadlines of every size
SIM_SCENARIO(crowd, 0.05) {
	using namespace tmr;
	sim::limits(4'000'000'000'000'000'000LL, 4000, 20'000'000);
	const int n = 60 + (int)sim::param(220), ns = 1 + (int)sim::param(n);
	std::vector<int> calls((size_t)n), res((size_t)n);
	std::vector<char> stopped((size_t)ns);
	std::vector<asyncpp::stop_source> src((size_t)ns);
	const unsigned span = sim::param(3);
	{
		asyncpp::timer t;
		const int64_t base = sim::now() + ms(500);
		for (int i = 0; i < n; i++) {
			static constexpr int64_t unit[] = {1'000'000'000, 3'600'000'000'000, 86'400'000'000'000 * 366};
			const auto at = tp(base + unit[span] * (int64_t)(1 + sim::param(90)));
			auto fn = [&, i, t = token{S_FUNCTORS}](bool r) {
				calls[(size_t)i]++;
				res[(size_t)i] = r;
				sim::add(S_NEXT, 1);
				sim::release();
			};
			if (i % 4 == 3) {
				[](asyncpp::timer& t, clk::time_point at, asyncpp::stop_token tok, auto fn) -> co { fn(co_await t.wait(at, tok)); }(t, at, src[(size_t)(i % ns)].get_token(), fn);
			} else t.schedule(fn, at, src[(size_t)(i % ns)].get_token());
		}
		const bool calm = !sim::injected(sim::f_time_jump) && sim::now() < base;
		int hit = 0;
		for (int s = 0; s < ns; s++)
			if (sim::flip()) {
				stopped[(size_t)s] = 1;
				for (int i = s; i < n; i += ns) hit++;
				SIM_CHECK(src[(size_t)s].request_stop(), "stop", "the only request_stop() returned false");
			}
		sim::await_acquire([hit] { return sim::get(S_NEXT) >= hit; }, "stopped entries are invoked", 4'000'000'000'000'000'000LL);
		if (calm && !sim::injected(sim::f_time_jump)) {
			SIM_PROBE("crowd stopped");
			SIM_CHECK(sim::now() < base + ms(100), "late", "stopped entries were only invoked after %.3f s", (sim::now() - base) / 1e9);
			if (span == 0) sim::await_acquire([n] { return sim::get(S_NEXT) == n; }, "the other entries are invoked", 4'000'000'000'000'000'000LL);
			else SIM_CHECK(sim::get(S_NEXT) == hit, "early", "%ld entries were invoked long before their time", (long)(sim::get(S_NEXT) - hit));
			for (int i = 0; i < n && span == 0; i++) SIM_CHECK(res[(size_t)i] == !stopped[(size_t)(i % ns)], "independent", "entry %d of %d (%s) was invoked with %s", i, n, stopped[(size_t)(i % ns)] ? "stopped" : "not stopped", res[(size_t)i] ? "true" : "false");
		}
	}
	for (int i = 0; i < n; i++) SIM_CHECK(calls[(size_t)i] == 1, "once", "entry %d of %d was invoked %d times", i, n, calls[(size_t)i]);
	for (int i = 0; i < n && span; i++) SIM_CHECK(!res[(size_t)i], "early", "entry %d was invoked with true long before its time", i);
	SIM_CHECK(sim::get(S_FUNCTORS) == 0, "leak", "%ld callbacks were not destroyed", (long)sim::get(S_FUNCTORS));
}
