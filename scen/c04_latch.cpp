#include "common.h"
#include <asyncpp/latch.h>
using namespace h;

namespace {
	enum { S_DONE = 1, S_STARTED, S_COMPLETED, S_LEFT };
	constexpr int MAXD = 8;

	struct shared {
		std::size_t count = 0;
		int data[MAXD]{}; // written by decrementer i before its decrement
		int ndata = 0;
	};

	// every decrement that takes part in opening has been started before anybody sees the latch open
	void opened(const shared& s, const char* what) {
		SIM_CHECK((std::size_t)sim::get(S_STARTED) == s.count, "early", "%s although only %ld of %zu decrements were made", what, (long)sim::get(S_STARTED), s.count);
	}

	co waiter(shared& s, asyncpp::latch& l, dispatcher* d, int id, bool named, worker* w) {
		if (named) co_await traced{l.wait(d), id, 0};
		else {
			auto a = [&] {
				on_dispatcher o(d);
				return l.operator co_await();
			}();
			co_await traced<decltype(a)>{a, id, 0};
		}
		opened(s, "a waiter continued");
		SIM_CHECK(l.is_ready(), "not-ready", "a waiter continued but is_ready() is false");
		for (int i = 0; i < s.ndata; i++) SIM_CHECK(s.data[i] == 1, "visibility", "data written before decrement %d is not visible", i);
		{
			sim::quiet q;
			auto* sp = find(K_SUSP, id, 0);
			if (w && sp && sp->c) SIM_CHECK(w->here(), "wrong-dispatcher", "the waiter named a dispatcher but continued elsewhere");
		}
		// an open latch does not suspend
		co_await traced{l.wait(), id, 1};
		{
			sim::quiet q;
			auto* sp = find(K_SUSP, id, 1);
			SIM_CHECK(!sp || !sp->c, "suspended-while-open", "waiting for an open latch suspended");
		}
		sim::add(S_DONE, 1);
		sim::release();
	}

	void run() {
		shared s;
		std::unique_ptr<worker> w;
		if (sim::flip()) w = std::make_unique<worker>();
		const int nd = (int)sim::param(5), nw = (int)sim::param(4), np = (int)sim::param(2);
		std::size_t n[MAXD];
		const unsigned big = sim::biased(3, 0.2);
		for (int i = 0; i < nd; i++) {
			n[i] = 1 + sim::param(3);
			static constexpr unsigned bits[] = {32, 8, 16, 31, 48};
			if (big == 1 && i == 0) n[i] = std::size_t(1) << bits[sim::param(5)];
			s.count += n[i];
		}
		if (big == 2 && nd) { // the largest supported counter
			n[nd - 1] += asyncpp::latch::max - s.count;
			s.count = asyncpp::latch::max;
		}
		s.ndata = nd;
		asyncpp::latch l(s.count);
		SIM_CHECK(l.is_ready() == (s.count == 0), "initial", "a latch of %zu starts %s", s.count, l.is_ready() ? "open" : "closed");
		const int before = nw ? (int)sim::param((unsigned)nw + 1) : 0;
		auto spawn = [&](int i) {
			const bool use = w && sim::flip();
			waiter(s, l, use ? w.get() : nullptr, i, sim::flip(), use ? w.get() : nullptr);
		};
		for (int i = 0; i < before; i++) spawn(i);
		SIM_CHECK(s.count == 0 || sim::get(S_DONE) == 0, "early", "a waiter of a closed latch continued");
		{
			threads t;
			for (int i = before; i < nw; i++) t.go([&, i] { spawn(i); });
			for (int i = 0; i < nd; i++)
				t.go([&, i] {
					s.data[i] = 1;
					sim::add(S_STARTED, (int64_t)n[i]);
					if (sim::biased(2, 0.1)) l.decrement(0);
					if (n[i] == 1 && sim::flip()) l.decrement();
					else if (n[i] < 4 && sim::flip()) for (std::size_t k = 0; k < n[i]; k++) l.decrement(1);
					else l.decrement(n[i]);
				});
			for (int i = 0; i < np; i++)
				t.go([&] {
					bool ready = false;
					for (int k = 0; k < 4; k++) {
						const bool r = l.is_ready();
						SIM_CHECK(r || !ready, "reverted", "is_ready() went back to false");
						if (r) {
							opened(s, "is_ready() is true");
							for (int j = 0; j < nd; j++) SIM_CHECK(s.data[j] == 1, "visibility", "data written before decrement %d is not visible", j);
						}
						ready = r;
						sim::point();
					}
				});
		}
		SIM_CHECK(l.is_ready(), "not-ready", "the sum of all decrements reached the count but the latch is closed");
		sim::await_acquire([&] { return sim::get(S_DONE) == nw; }, "every waiter of an open latch continues");
		w.reset();
		for (int i = 0; i < nw; i++) SIM_CHECK(count(K_RESUME, i, 0) == 1, "resume-once", "waiter %d continued %d times", i, count(K_RESUME, i, 0));
	}

	// sequential histories against a counter
	co model_waiter(asyncpp::latch& l, int id) {
		co_await l.wait();
		sim::add(10 + (unsigned)id, 1);
	}
	void run_model() {
		std::size_t left = sim::param(8);
		asyncpp::latch l(left);
		int n = 0;
		auto check = [&] {
			SIM_CHECK(l.is_ready() == (left == 0), "model", "is_ready() is %d with %zu left", l.is_ready(), left);
			for (int i = 0; i < n; i++) SIM_CHECK(sim::get(10 + (unsigned)i) == (left == 0), "model", "waiter %d continued %ld times with %zu left", i, (long)sim::get(10 + (unsigned)i), left);
		};
		check();
		for (int k = 0; k < 12 && n < 6; k++) {
			if (sim::flip()) model_waiter(l, n++);
			else {
				std::size_t d = left ? sim::param((unsigned)left + 1) : 0;
				left -= d;
				l.decrement(d);
			}
			check();
		}
		const std::size_t d = left;
		left = 0;
		if (d) l.decrement(d);
		check();
	}

	// barrier: the latch lives in the waiting coroutine, which destroys it once it is released
	co owner(std::atomic<asyncpp::latch*>& pub, dispatcher* d, int n) {
		{
			asyncpp::latch l((std::size_t)n);
			pub.store(&l, std::memory_order_release);
			co_await l.wait(d);
		}
		sim::add(S_DONE, 1);
		sim::release();
	}
	void run_owned() {
		std::unique_ptr<worker> w;
		if (sim::flip()) w = std::make_unique<worker>();
		std::atomic<asyncpp::latch*> pub{nullptr};
		const int n = 1 + (int)sim::param(3);
		{
			threads t;
			t.go([&] { owner(pub, w.get(), n); });
			for (int i = 0; i < n; i++)
				t.go([&] {
					asyncpp::latch* l;
					while (!(l = pub.load(std::memory_order_acquire))) std::this_thread::yield();
					l->decrement();
				});
		}
		sim::await_acquire([&] { return sim::get(S_DONE) == 1; }, "the owner of the latch continues");
	}
} // namespace

SIM_SCENARIO(latch, 4) { run(); }
SIM_SCENARIO(latch_model, 1) { run_model(); }
SIM_SCENARIO(latch_owned, 0.5) { run_owned(); }

// very many waiters and decrements
SIM_SCENARIO(crowd, 0.05) {
	const int n = many() % 512, nw = (int)sim::param(400);
	std::unique_ptr<worker> w;
	if (sim::flip()) w = std::make_unique<worker>();
	asyncpp::latch l((std::size_t)n);
	auto waiter = [&](int i) -> co {
		co_await l.wait(w && i % 2 ? w.get() : nullptr);
		SIM_CHECK(sim::get(S_STARTED) == n, "early", "waiter %d continued after %ld of %d decrements", i, (long)sim::get(S_STARTED), n);
		sim::add(100 + (unsigned)i, 1);
		sim::add(S_DONE, 1);
		sim::release();
	};
	const int cut = (int)sim::param((unsigned)nw + 1), cutn = (int)sim::param((unsigned)n + 1);
	{
		threads t;
		t.go([&] {
			for (int i = 0; i < cut; i++) waiter(i);
		});
		t.go([&] {
			for (int i = 0; i < cutn; i++) {
				sim::add(S_STARTED, 1);
				l.decrement();
			}
		});
		for (int i = cut; i < nw; i++) waiter(i);
		for (int i = cutn; i < n; i++) {
			sim::add(S_STARTED, 1);
			l.decrement();
		}
	}
	SIM_CHECK(l.is_ready(), "not-ready", "the sum of all decrements reached the count but the latch is closed");
	sim::await_acquire([&] { return sim::get(S_DONE) == nw; }, "every waiter of an open latch continues");
	w.reset();
	for (int i = 0; i < nw; i++) SIM_CHECK(sim::get(100 + (unsigned)i) == 1, "resume-once", "waiter %d continued %ld times", i, (long)sim::get(100 + (unsigned)i));
}
