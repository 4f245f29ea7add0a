#include "events_common.h"
using namespace ev;

namespace {
	/// every wait passes only because of a set() and suspends only if no earlier set() holds
	void check_manual(world& w, ids t) {
		sim::quiet q;
		auto ws = waits();
		auto ss = sets(ws);
		check_place(t, ws, ss);
		if (!sim::sequential()) return; // the rest compares events in real time
		struct rst { uint64_t b, e; };
		std::vector<rst> rs;
		for (size_t i = 0; i < sim::log_size(); i++) {
			auto& e = sim::log_at(i);
			if (e.kind != K_RST_B) continue;
			uint64_t end = UINT64_MAX;
			for (size_t k = i; k < sim::log_size(); k++)
				if (sim::log_at(k).kind == K_RST_E && sim::log_at(k).a == e.a) end = sim::log_at(k).seq;
			rs.push_back({e.seq, end});
		}
		for (auto& o : ws) {
			bool possible = w.initial && [&] {
				for (auto& r : rs)
					if (r.e < o.begin->seq) return false;
				return true;
			}();
			for (auto& s : ss) {
				if (s.b->seq > o.resume->seq) continue;
				bool undone = false;
				for (auto& r : rs)
					if (s.e && s.e->seq < r.b && r.e < o.begin->seq) undone = true;
				if (!undone || o.registered()) possible = true;
			}
			SIM_CHECK(possible, "invented", "wait %d/%d continued although no set() can have let it through", o.id, o.op);
			if (o.registered()) {
				auto certain = [&](uint64_t sb, uint64_t se) {
					if (se >= o.begin->seq) return false;
					for (auto& r : rs)
						if (r.e > sb && r.b < o.susp->seq) return false;
					return true;
				};
				for (auto& s : ss)
					if (s.e && certain(s.b->seq, s.e->seq)) sim::fail("suspended-while-set", "wait %d/%d suspended although the event was set", o.id, o.op);
				if (w.initial && certain(0, 0)) sim::fail("suspended-while-set", "wait %d/%d suspended although the event was constructed set", o.id, o.op);
			}
		}
	}

	template<class E>
	void run(bool multi) {
		world w;
		if (sim::flip()) w.wait_w = std::make_unique<log_worker>(1);
		if (sim::flip()) w.set_w = std::make_unique<log_worker>(2);
		const int nw = multi ? 1 + (int)sim::param(4) : 1, rounds = 1 + (int)sim::param(3);
		const int nset = (int)sim::param(4), per = 1 + (int)sim::param(2);
		const int nrst = sim::flip() ? (int)sim::param(3) : 0;
		const int npoll = sim::flip() ? 1 + (int)sim::param(6) : 0;
		w.initial = sim::biased(2, 0.2);
		w.single_set = !w.initial && nset * per <= 1;
		E e(w.initial);
		{
			threads t;
			for (int i = 0; i < nw; i++) t.go([&, i] { waiter(w, e, i, rounds); });
			for (int i = 0; i < nset; i++)
				t.go([&, i] {
					for (int k = 0; k < per; k++) {
						if (w.single_set) w.plain = 42;
						do_set(w, e);
					}
				});
			const int resetters = nrst ? 1 + (int)sim::param(2) : 0;
			for (int i = 0; i < resetters; i++)
				t.go([&, i] {
					for (int k = 0; k < nrst; k++) do_reset(e, i * 10 + k);
				});
			if (npoll)
				t.go([&] {
					for (int k = 0; k < npoll; k++) {
						if (e.is_set()) {
							if (w.single_set) SIM_CHECK(w.plain == 42, "visibility", "data written before set() is not visible to whoever saw is_set() return true");
							SIM_PROBE("poll-set");
							break;
						}
						SIM_CHECK(!w.initial || nrst, "state", "an event that was constructed set and never reset reports unset");
						std::this_thread::yield();
					}
				});
		}
		// all resets are over: one more completed set() must let everybody through
		if (w.single_set && nset == 0) w.plain = 42;
		// (the only set() of a single-set run may have been reset before the last waiter came)
		const bool final_set = !(w.single_set && nset) || (nrst && sim::get(S_DONE) < nw);
		if (final_set) do_set(w, e);
		sim::await_acquire([&] { return sim::get(S_DONE) == nw; }, "every wait continues after a completed set()");
		ids t{w.wait_w ? w.wait_w->thread_id() : -1, w.set_w ? w.set_w->thread_id() : -1};
		w.wait_w.reset();
		w.set_w.reset();
		SIM_CHECK(!e.is_awaited(), "awaited", "the event still reports a waiter");
		check_manual(w, t);
		if (final_set || (!nrst && nset)) SIM_CHECK(e.is_set(), "state", "the event is not set after the last set()");
		e.reset();
		SIM_CHECK(!e.is_set(), "state", "reset() left the event set");
	}

	// the released coroutine owns the event and destroys it
	template<class E>
	struct one_shot {
		int* result;
		E e;
	};
	template<class E>
	co own_event(std::atomic<E*>& pub, int& out, dispatcher* d) {
		int data = 0;
		{
			struct box { E e{}; int data = 0; } b;
			pub.store(&b.e, std::memory_order_release);
			co_await b.e.wait(d);
			data = 5;
		}
		out = data;
		sim::add(S_DONE, 1);
		sim::release();
	}
	template<class E>
	void run_owned() {
		std::unique_ptr<worker> w;
		if (sim::flip()) w = std::make_unique<worker>();
		std::atomic<E*> pub{nullptr};
		int out = 0;
		threads t;
		t.go([&] { own_event<E>(pub, out, w.get()); });
		t.go([&] {
			E* e;
			while (!(e = pub.load(std::memory_order_acquire))) std::this_thread::yield();
			e->set();
		});
		t.join();
		sim::await_acquire([&] { return sim::get(S_DONE) == 1; }, "the owner of the event continues");
		SIM_CHECK(out == 5, "visibility", "result lost");
	}
} // namespace

SIM_SCENARIO(single_consumer, 2) { run<asyncpp::single_consumer_event>(false); }
SIM_SCENARIO(multi_consumer, 4) { run<asyncpp::multi_consumer_event>(true); }
SIM_SCENARIO(owned_single, 0.3) { run_owned<asyncpp::single_consumer_event>(); }
SIM_SCENARIO(owned_multi, 0.3) { run_owned<asyncpp::multi_consumer_event>(); }
SIM_SCENARIO(crowd_single, 0.03) { ev::run_crowd<asyncpp::single_consumer_event>(false, false); }
SIM_SCENARIO(crowd_multi, 0.05) { ev::run_crowd<asyncpp::multi_consumer_event>(true, false); }
