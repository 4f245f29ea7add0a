#include "events_common.h"
using namespace ev;

namespace {
	template<class E>
	void check_auto(world& w, ids t, bool sequential_last) {
		sim::quiet q;
		auto ws = waits();
		auto ss = sets(ws);
		check_place(t, ws, ss);
		int passes = 0, falses = 0;
		for (auto& o : ws) passes += !o.registered();
		for (auto& s : ss) falses += !s.e->b;
		SIM_CHECK(passes <= falses + (w.initial ? 1 : 0), "duplicated-signal", "%d waits passed without being released, but only %d signals were stored", passes, falses + w.initial);
		(void)sequential_last;
	}

	/// what must hold when nothing is running: no waiter older than a completed set() may still be suspended
	void check_quiescent(bool is_set, int nrst) {
		sim::quiet q;
		auto ws = waits(false);
		const sim::event *last = nullptr, *last_e = nullptr;
		bool overlap = false;
		uint64_t max_end = 0;
		for (size_t i = 0; i < sim::log_size(); i++) {
			auto& e = sim::log_at(i);
			if (e.kind == K_SET_B) {
				last = &e;
				last_e = nullptr;
			}
			if (e.kind == K_SET_E) {
				if (last && last->a == e.a) {
					last_e = &e;
					overlap = max_end > last->seq;
				}
				if (e.seq > max_end && (!last || e.a != last->a)) max_end = e.seq;
			}
			for (auto& o : ws)
				if (e.kind == K_SET_B && !o.resume && o.registered() && o.susp->seq < e.seq)
					sim::fail("lost-wakeup", "wait %d/%d is still suspended although a set() that began after it was registered has completed", o.id, o.op);
		}
		if (last && last_e && !last_e->b && !overlap && max_end < last->seq && !nrst && !is_set) {
			bool consumed = false;
			for (auto& o : ws)
				if (o.resume && !o.registered() && o.resume->seq > last->seq) consumed = true;
			SIM_CHECK(consumed, "lost-signal", "the last set() found no waiter, nobody consumed the signal, but the event is unset");
		}
	}

	template<class E>
	void run(bool multi) {
		world w;
		if (sim::flip()) w.wait_w = std::make_unique<log_worker>(1);
		if (sim::flip()) w.set_w = std::make_unique<log_worker>(2);
		const int nw = multi ? 1 + (int)sim::param(4) : 1, rounds = 1 + (int)sim::param(3);
		const int nset = (int)sim::param(4), per = 1 + (int)sim::param(3);
		const int nrst = sim::flip() ? (int)sim::param(3) : 0;
		w.initial = sim::biased(2, 0.2);
		const int npoll = sim::flip() ? 1 + (int)sim::param(6) : 0;
		w.single_set = !w.initial && nset * per == 1;
		E e(w.initial);
		{
			threads t;
			for (int i = 0; i < nw; i++) t.go([&, i] { waiter(w, e, i, rounds); });
			for (int i = 0; i < nset; i++)
				t.go([&] {
					for (int k = 0; k < per; k++) {
						if (w.single_set) w.plain = 42;
						do_set(w, e);
					}
				});
			if (npoll)
				t.go([&] {
					for (int k = 0; k < npoll; k++) {
						if (e.is_set()) {
							if (w.single_set) SIM_CHECK(w.plain == 42, "visibility", "data written before set() is not visible to whoever saw is_set() return true");
							SIM_PROBE("poll-set");
							break;
						}
						std::this_thread::yield();
					}
				});
			const int resetters = nrst ? 1 + (int)sim::param(2) : 0;
			for (int i = 0; i < resetters; i++)
				t.go([&, i] {
					for (int k = 0; k < nrst; k++) do_reset(e, i * 10 + k);
				});
		}
		// let the dispatchers drain, then look at the quiescent state
		drain({w.wait_w.get(), w.set_w.get()});
		const bool is_set = e.is_set();
		check_quiescent(is_set, nrst);
		for (int k = 0; sim::get(S_DONE) < nw; k++) {
			do_set(w, e);
			sim::sleep(1000000);
			SIM_CHECK(k < 200, "lost-wakeup", "a waiter stays suspended although set() is called again and again");
		}
		sim::await_acquire([&] { return sim::get(S_DONE) == nw; }, "every wait continues");
		ids t{w.wait_w ? w.wait_w->thread_id() : -1, w.set_w ? w.set_w->thread_id() : -1};
		w.wait_w.reset();
		w.set_w.reset();
		SIM_CHECK(!e.is_awaited(), "awaited", "the event still reports a waiter");
		check_auto<E>(w, t, false);
		e.reset();
		SIM_CHECK(!e.is_set(), "state", "reset() left the event set");
	}

	// a token of ownership handed back and forth through two events: mutual exclusion and visibility
	template<class E>
	co player(E& mine, E& other, long& shared, int rounds, dispatcher* d, bool second) {
		for (int r = 0; r < rounds; r++) {
			co_await mine.wait(d);
			SIM_CHECK(shared == 2 * r + (second ? 1 : 0), "ping-pong", "the counter is %ld in round %d", shared, r);
			shared++;
			other.set();
		}
		sim::add(S_DONE, 1);
		sim::release();
	}
	template<class E>
	void run_pingpong() {
		E a(false), b(false);
		long shared = 0;
		const int rounds = 1 + (int)sim::param(4);
		std::unique_ptr<worker> w1, w2;
		if (sim::flip()) w1 = std::make_unique<worker>();
		if (sim::flip()) w2 = std::make_unique<worker>();
		threads t;
		t.go([&] { player<E>(a, b, shared, rounds, w1.get(), false); });
		t.go([&] { player<E>(b, a, shared, rounds, w2.get(), true); });
		t.go([&] { a.set(); });
		t.join();
		sim::await_acquire([&] { return sim::get(S_DONE) == 2; }, "both sides of the exchange finish");
		w1.reset();
		w2.reset();
		SIM_CHECK(shared == 2 * rounds, "ping-pong", "final counter %ld", shared);
	}

	// data published before a single set(); the one waiter it lets through must see it
	template<class E>
	co reader(E& e, int& plain, dispatcher* d) {
		co_await e.wait(d);
		SIM_CHECK(plain == 42, "visibility", "data written before set() is not visible");
		sim::add(S_DONE, 1);
		sim::release();
	}
	template<class E>
	void run_publish() {
		E e;
		int plain = 0;
		std::unique_ptr<worker> w;
		if (sim::flip()) w = std::make_unique<worker>();
		threads t;
		t.go([&] { reader<E>(e, plain, w.get()); });
		t.go([&] {
			plain = 42;
			e.set();
		});
		t.join();
		sim::await_acquire([&] { return sim::get(S_DONE) == 1; }, "the waiter continues after set()");
		SIM_CHECK(!e.is_set(), "state", "the event stayed set although its signal was consumed");
	}

	// lock-free mailbox: whatever was posted before a set() must reach the consumer, however many setters there are
	struct mailbox {
		std::atomic<int> item[6]{};
		std::atomic<bool> stop{false};
	};
	template<class E>
	co consumer(E& e, mailbox& m, int n, dispatcher* d) {
		while (!m.stop.load(std::memory_order::relaxed)) {
			co_await e.wait(d);
			for (int i = 0; i < n; i++)
				if (m.item[i].load(std::memory_order::relaxed)) sim::set(10 + (unsigned)i, 1);
		}
		sim::add(S_DONE, 1);
		sim::release();
	}
	template<class E>
	void run_mailbox() {
		E e;
		mailbox m;
		const int n = 1 + (int)sim::param(6);
		std::unique_ptr<worker> w;
		if (sim::flip()) w = std::make_unique<worker>();
		{
			threads t;
			if (sim::flip()) t.go([&] { consumer<E>(e, m, n, w.get()); });
			else consumer<E>(e, m, n, w.get());
			const int nt = 1 + (int)sim::param(3);
			for (int k = 0; k < nt; k++)
				t.go([&, k] {
					for (int i = k; i < n; i += nt) {
						m.item[i].store(1, std::memory_order::relaxed);
						(void)e.set();
					}
				});
		}
		for (int i = 0; i < n; i++) sim::await([&, i] { return sim::get(10 + (unsigned)i) == 1; }, "an item posted before set() reaches the consumer");
		m.stop = true;
		for (int k = 0; sim::get(S_DONE) == 0; k++) {
			(void)e.set();
			sim::sleep(1000000);
			SIM_CHECK(k < 100, "lost-wakeup", "the consumer does not wake up");
		}
		sim::await_acquire([&] { return sim::get(S_DONE) == 1; }, "the consumer stops");
		w.reset();
	}

	// the same operations one after the other against a reference state machine
	template<class E>
	co model_waiter(E& e, int id) {
		co_await e.wait();
		sim::add(10 + (unsigned)id, 1);
	}
	template<class E>
	void run_model(bool multi) {
		bool set = sim::flip();
		E e(set);
		int waiting = 0, next = 0, done = 0;
		const int n = 3 + (int)sim::param(10);
		auto dones = [&] {
			int c = 0;
			for (int i = 0; i < next; i++) {
				SIM_CHECK(sim::get(10 + (unsigned)i) <= 1, "resume-once", "continued twice");
				c += (int)sim::get(10 + (unsigned)i);
			}
			return c;
		};
		for (int i = 0; i < n; i++) {
			switch (sim::param(3)) {
			case 0:
				if (!multi && waiting) break;
				model_waiter(e, next++);
				if (set) {
					set = false;
					done++;
				} else
					waiting++;
				break;
			case 1: {
				bool r = e.set();
				SIM_CHECK(r == (waiting > 0), "set-result", "set() returned %d with %d waiters", r, waiting);
				if (waiting) {
					done += waiting;
					waiting = 0;
				} else
					set = true;
				break;
			}
			case 2:
				e.reset();
				set = false;
				break;
			}
			SIM_CHECK(e.is_set() == set, "model", "is_set() is %d, expected %d", e.is_set(), set);
			SIM_CHECK(e.is_awaited() == (waiting > 0), "model", "is_awaited() is %d with %d waiters", e.is_awaited(), waiting);
			SIM_CHECK(dones() == done, "model", "%d waits continued, expected %d", dones(), done);
		}
		if (waiting) {
			e.set();
			SIM_CHECK(dones() == done + waiting, "model", "set() did not release everybody");
		}
	}
} // namespace

SIM_SCENARIO(single_auto, 2) { run<asyncpp::single_consumer_auto_reset_event>(false); }
SIM_SCENARIO(multi_auto, 4) { run<asyncpp::multi_consumer_auto_reset_event>(true); }
SIM_SCENARIO(pingpong_single, 1) { run_pingpong<asyncpp::single_consumer_auto_reset_event>(); }
SIM_SCENARIO(pingpong_multi, 1) { run_pingpong<asyncpp::multi_consumer_auto_reset_event>(); }
SIM_SCENARIO(publish_single, 0.5) { run_publish<asyncpp::single_consumer_auto_reset_event>(); }
SIM_SCENARIO(publish_multi, 0.5) { run_publish<asyncpp::multi_consumer_auto_reset_event>(); }
SIM_SCENARIO(model_single, 0.3) { run_model<asyncpp::single_consumer_auto_reset_event>(false); }
SIM_SCENARIO(model_multi, 0.3) { run_model<asyncpp::multi_consumer_auto_reset_event>(true); }
SIM_SCENARIO(mailbox_single, 1) { run_mailbox<asyncpp::single_consumer_auto_reset_event>(); }
SIM_SCENARIO(mailbox_multi, 1) { run_mailbox<asyncpp::multi_consumer_auto_reset_event>(); }
SIM_SCENARIO(crowd_single, 0.03) { ev::run_crowd<asyncpp::single_consumer_auto_reset_event>(false, true); }
SIM_SCENARIO(crowd_multi, 0.05) { ev::run_crowd<asyncpp::multi_consumer_auto_reset_event>(true, true); }
