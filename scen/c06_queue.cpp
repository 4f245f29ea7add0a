#include "ops.h"
#include <asyncpp/queue.h>
#include <asyncpp/defer.h>
#include <list>
#include <optional>
using namespace ops;

namespace {
	enum { S_DONE = 1, S_TOKENS, S_VAL };
	enum type { PUSH, TRY_PUSH, POP, TRY_POP, CLEAR, SIZE, EMPTY };

	/// an argument for emplace: an item made from what is left after it was moved is wrong
	struct box {
		int64_t v;
		explicit box(int64_t x) : v(x) {}
		box(box&& o) noexcept : v(std::exchange(o.v, -1)) {}
	};
	struct msg {
		int64_t v;
		token t;
		explicit msg(int64_t x) : v(x), t(S_TOKENS) {}
		explicit msg(box&& b) : v(std::exchange(b.v, -1)), t(S_TOKENS) {}
		msg(msg&&) = default;
		msg& operator=(msg&&) = default;
	};
	template<class Q>
	struct world {
		std::unique_ptr<worker> w[2];
		int nw = 0, def = 0;
		std::size_t max = 1;
		std::unique_ptr<Q> q;
		dispatcher* disp(int d) { return d == 0 ? nullptr : (dispatcher*)w[d - 1].get(); }
		int pick() { return (int)sim::param((unsigned)nw + 1); }
	};
	template<class W, class F>
	auto make(W& s, int d, F&& f) {
		if (sim::flip()) {
			auto a = f();
			a.resume_on(s.disp(d));
			return a;
		}
		on_dispatcher o(s.disp(d));
		return f();
	}
	int64_t next_val() { return sim::add(S_VAL, 1); }

	template<class W>
	co pusher(W& s, int n, int start, bool tries) {
		if (start) co_await asyncpp::defer(s.disp(start));
		for (int i = 0; i < n; i++) {
			const int64_t v = next_val();
			if (tries && sim::flip()) {
				const bool em = sim::flip();
				const int id = begin(TRY_PUSH, v, 0);
				const bool r = em ? sim::flip() ? s.q->try_emplace(v) : s.q->try_emplace(box{v}) : s.q->try_push(msg(v));
				end(id, r);
			} else {
				const int d = s.pick();
				const int id = begin(PUSH, v, d ? d : s.def);
				auto a = make(s, d, [&] { return s.q->push(msg(v)); });
				const bool r = co_await tracked<decltype(a)>{std::move(a), id};
				end(id, r);
			}
			sim::point();
		}
		sim::add(S_DONE, 1);
		sim::release();
	}
	void take(int id, std::optional<msg> r) {
		if (r) SIM_CHECK(r->t.ok(), "value", "popped a value that was moved away");
		end(id, r.has_value(), r ? r->v : 0);
	}
	template<class W>
	co popper(W& s, int n, int start, bool tries) {
		if (start) co_await asyncpp::defer(s.disp(start));
		for (int i = 0; i < n; i++) {
			if (tries && sim::flip()) {
				const int id = begin(TRY_POP, 0, 0);
				take(id, s.q->try_pop());
			} else {
				const int d = s.pick();
				const int id = begin(POP, 0, d ? d : s.def);
				auto a = make(s, d, [&] { return s.q->pop(); });
				std::optional<msg> r = co_await tracked<decltype(a)>{std::move(a), id};
				take(id, std::move(r));
			}
			sim::point();
		}
		sim::add(S_DONE, 1);
		sim::release();
	}

	bool is_push(const rec& r) { return r.type == PUSH || r.type == TRY_PUSH; }
	bool is_pop(const rec& r) { return r.type == POP || r.type == TRY_POP; }
	/// a definitely took effect before b
	bool first(const rec& a, const rec& b) { return a.e < b.b || (a.susp && a.s < b.b); }

	struct item {
		const rec *in, *out = nullptr;
		// certain to be in the queue (or handed to it) from..to, possible from..to
		uint64_t sure_b() const { return in->susp ? in->s : in->e; }
		uint64_t sure_e() const { return out ? out->b : UINT64_MAX; }
		uint64_t may_b() const { return in->b; }
		uint64_t may_e() const { return out ? out->e : UINT64_MAX; }
	};

	void check(std::size_t max, bool final, const int wt[2]) {
		sim::quiet q;
		auto h = history();
		std::vector<const rec*> clears;
		for (auto& r : h)
			if (r.type == CLEAR) clears.push_back(&r);
		std::vector<item> items;
		for (auto& r : h)
			if (is_push(r) && (!r.done() || r.ok)) items.push_back({&r});
		int waiting_push = 0, waiting_pop = 0, stored = 0;
		for (auto& r : h) {
			if (!r.done()) {
				SIM_CHECK(!final && r.susp, "stuck", "operation %d (type %d) never finished", r.id, r.type);
				(is_push(r) ? waiting_push : waiting_pop)++;
			}
			if (is_pop(r) && r.done() && r.ok) {
				item* m = nullptr;
				for (auto& it : items)
					if (it.in->val == r.res) m = &it;
				SIM_CHECK(m, "invented", "popped %ld which nobody pushed successfully", (long)r.res);
				SIM_CHECK(!m->out, "duplicated", "item %ld was popped twice", (long)r.res);
				m->out = &r;
				SIM_CHECK(m->in->b < r.e, "invented", "item %ld popped before it was pushed", (long)r.res);
			}
			if (r.type == POP && r.done()) SIM_CHECK(r.ok, "pop-failed", "pop %d failed although the queue was not replaced", r.id);
			if (r.type == PUSH && r.done() && !r.ok) {
				bool ok = false;
				for (auto* c : clears) ok |= c->b < r.e && r.b < c->e;
				SIM_CHECK(ok && r.susp, "push-failed", "push %d failed without a clear()", r.id);
			}
		}
		for (auto& it : items) {
			bool dropped = false, must_drop = false;
			for (auto* c : clears) {
				dropped |= it.in->b < c->e;
				must_drop |= it.sure_b() < c->b && it.out && it.out->b > c->e && !(it.in->susp && it.in->e > c->b);
			}
			SIM_CHECK(!must_drop, "cleared-item", "item %ld was popped after clear() dropped it", (long)it.in->val);
			if (!it.out && it.in->done()) {
				if (!dropped) stored++;
				SIM_CHECK(!final || dropped, "lost", "item %ld was accepted but never came out", (long)it.in->val);
			}
		}
		// what clear() takes away it takes together with everything that stands in line behind it
		if (final && !clears.empty())
			for (auto& a : items)
				for (auto& b : items) {
					if (a.out || !a.in->done() || !b.out || !first(*a.in, *b.in)) continue;
					bool behind = true; // whenever a can have been dropped
					for (auto* c : clears) behind &= c->e <= a.in->b || b.sure_b() < c->b;
					SIM_CHECK(!behind, "cleared-half", "clear() dropped item %ld, but item %ld, which stood in line behind it, was popped", (long)a.in->val, (long)b.in->val);
				}
		if (clears.empty()) {
			if (!final) {
				SIM_CHECK(!waiting_pop || (!stored && !waiting_push), "lost-wakeup", "%d pop(s) suspended although %d item(s) are stored and %d push(es) wait", waiting_pop, stored, waiting_push);
				SIM_CHECK(!waiting_push || (std::size_t)stored >= max, "lost-wakeup", "%d push(es) suspended although only %d of %zu places are used", waiting_push, stored, max);
			}
			for (auto& a : items)
				for (auto& b : items) {
					if (&a == &b || !b.out || !first(*a.in, *b.in)) continue;
					if (a.out ? first(*b.out, *a.out) : final) sim::fail("fifo", "item %ld was accepted before %ld but came out after it", (long)a.in->val, (long)b.in->val);
				}
			auto surely = [&](uint64_t t) { // items certainly stored at time t
				std::size_t n = 0;
				for (auto& it : items) n += (it.in->done() && it.in->e < t) && it.sure_e() > t;
				return n;
			};
			auto possibly = [&](uint64_t b, uint64_t e) { // most items that can have been present in the interval
				std::size_t n = 0;
				for (auto& it : items) n += it.may_b() < e && it.may_e() > b;
				return n;
			};
			auto throughout = [&](uint64_t b, uint64_t e) {
				std::size_t n = 0;
				for (auto& it : items) n += it.sure_b() < b && it.sure_e() > e;
				return n;
			};
			for (auto& r : h) {
				if (is_push(r) && r.done() && r.ok) SIM_CHECK(surely(r.e + 1) <= max, "bound", "%zu items stored in a queue of at most %zu", surely(r.e + 1), max);
				const uint64_t fe = r.susp ? r.s : r.e;
				if ((r.type == TRY_PUSH && !r.ok) || (r.type == PUSH && r.susp)) {
					std::size_t n = possibly(r.b, fe);
					if (r.type == PUSH) n--; // itself
					SIM_CHECK(n >= max, "push-not-full", "operation %d found the queue full, but at most %zu of %zu places can have been in use", r.id, n, max);
				}
				if ((r.type == TRY_POP && !r.ok) || (r.type == POP && r.susp)) {
					// items reserved for pops that wait already do not count
					std::size_t n = throughout(r.b, fe);
					SIM_CHECK(n == 0 || r.susp, "pop-not-empty", "operation %d found the queue empty although %zu item(s) were in it", r.id, n);
					if (r.susp) {
						n = 0;
						for (auto& it : items) n += it.sure_b() < r.b && it.sure_e() > fe && it.out != &r;
						SIM_CHECK(n == 0, "pop-not-empty", "pop %d suspended although %zu item(s) were in the queue", r.id, n);
					}
				}
				if (r.type == SIZE || r.type == EMPTY) {
					const std::size_t lo = throughout(r.b, r.e), hi = possibly(r.b, r.e), n = (std::size_t)r.res;
					if (r.type == SIZE) SIM_CHECK(n >= lo && n <= hi, "size", "size() is %zu, expected between %zu and %zu", n, lo, hi);
					else SIM_CHECK(n ? lo == 0 : hi > 0, "empty", "empty() is %zu with %zu to %zu items", n, lo, hi);
				}
			}
		}
		for (auto& r : h) {
			if (!r.done() || !(is_push(r) || is_pop(r))) continue;
			if (!r.susp) {
				SIM_CHECK(r.etid == r.tid, "wrong-thread", "operation %d did not suspend but changed threads", r.id);
			} else if (r.disp) SIM_CHECK(r.etid == wt[r.disp - 1], "wrong-dispatcher", "operation %d belongs on dispatcher %d but continued on t%d", r.id, r.disp, r.etid);
			else {
				bool ok = false;
				for (auto& o : h)
					if (o.id != r.id && o.b < r.e && o.e > r.e && o.tid == r.etid && (o.type == CLEAR || (is_push(o) && is_pop(r)) || (is_pop(o) && is_push(r)))) ok = true;
				SIM_CHECK(ok, "wrong-dispatcher", "operation %d chose no dispatcher but continued on t%d outside of any call that completed it", r.id, r.etid);
			}
		}
	}

	template<class Q>
	void run(bool with_clear) {
		world<Q> s;
		s.nw = (int)sim::param(3);
		for (int i = 0; i < s.nw; i++) s.w[i] = std::make_unique<worker>();
		s.def = s.pick();
		s.max = 1 + sim::param(3);
		const bool unbounded = sim::biased(2, 0.1);
		if (unbounded) s.max = std::numeric_limits<std::size_t>::max();
		s.q = std::make_unique<Q>(s.max, s.disp(s.def));
		const int npush = (int)sim::param(4), npop = (int)sim::param(4);
		const bool tries = sim::flip(), observer = sim::biased(2, 0.4);
		int actors = npush + npop, want_pops = 0;
		{
			threads t;
			for (int i = 0; i < npush; i++) {
				const int n = 1 + (int)sim::param(4), st = s.pick();
				t.go([&, n, st] { pusher(s, n, st, tries); });
			}
			for (int i = 0; i < npop; i++) {
				const int n = 1 + (int)sim::param(4), st = s.pick();
				want_pops += n;
				t.go([&, n, st] { popper(s, n, st, tries); });
			}
			if (observer)
				t.go([&] {
					for (int i = 0; i < 4; i++) {
						const bool sz = sim::flip();
						const int id = begin(sz ? SIZE : EMPTY, 0, 0);
						end(id, true, sz ? (int64_t)s.q->size() : (int64_t)s.q->empty());
					}
				});
			if (with_clear)
				t.go([&] {
					for (int i = 0; i < 2; i++) {
						const int id = begin(CLEAR, 0, 0);
						s.q->clear();
						end(id, true);
					}
				});
		}
		drain({s.w[0].get(), s.w[1].get()});
		const int wt[2] = {s.w[0] ? s.w[0]->thread_id() : -1, s.w[1] ? s.w[1]->thread_id() : -1};
		check(s.max, false, wt);
		// serve everybody who still waits
		for (int k = 0; sim::get(S_DONE) < actors; k++) {
			SIM_CHECK(k < 60, "stuck", "a suspended operation does not finish although items and space are provided");
			{
				const int id = begin(TRY_POP, 0, 0);
				take(id, s.q->try_pop());
			}
			if (want_pops && sim::get(S_DONE) < actors) {
				const int64_t v = next_val();
				const int id = begin(TRY_PUSH, v, 0);
				end(id, s.q->try_push(msg(v)));
			}
			drain({s.w[0].get(), s.w[1].get()});
		}
		while (true) {
			const int id = begin(TRY_POP, 0, 0);
			auto r = s.q->try_pop();
			const bool more = r.has_value();
			take(id, std::move(r));
			if (!more) break;
		}
		sim::await_acquire([&] { return sim::get(S_DONE) == actors; }, "every operation finishes");
		SIM_CHECK(s.q->empty() && s.q->size() == 0, "size", "an exhausted queue is not empty");
		for (auto& w : s.w) w.reset();
		check(s.max, true, wt);
		s.q.reset();
		SIM_CHECK(sim::get(S_TOKENS) == 0, "leaked-value", "%ld items alive at the end", (long)sim::get(S_TOKENS));
	}

	// one thread, against a reference model, including clear() and moves between two queues
	struct mq {
		std::size_t max = 0;
		std::deque<int64_t> items;
		std::deque<std::pair<int, int64_t>> pushers; // op, value
		std::deque<int> poppers;
		dispatcher* def = nullptr;
	};
	enum { R_PENDING, R_FALSE, R_TRUE };
	int64_t here() { return (int64_t)(intptr_t)dispatcher::current(); }
	// how: 0 nothing chosen, 1 with resume_on(), 2 from a thread of d
	template<class A>
	A m_make(int how, dispatcher* d, A a) {
		if (how == 1) a.resume_on(d);
		return a;
	}
	template<class Q>
	co m_push(Q& q, int op, int64_t v, int how = 0, dispatcher* d = nullptr, std::unique_ptr<Q>* all = nullptr) {
		auto a = [&] {
			on_dispatcher o(how == 2 ? d : nullptr);
			return m_make(how, d, q.push(msg(v)));
		}();
		const bool r = co_await a;
		if (all && *all) (void)(*all)->size(); // whoever lets it continue holds no lock
		sim::set(200 + (unsigned)op, here());
		sim::set(100 + (unsigned)op, r ? R_TRUE : R_FALSE);
	}
	template<class Q>
	co m_pop(Q& q, int op, int how = 0, dispatcher* d = nullptr, std::unique_ptr<Q>* all = nullptr) {
		auto a = [&] {
			on_dispatcher o(how == 2 ? d : nullptr);
			return m_make(how, d, q.pop());
		}();
		auto r = co_await a;
		if (all && *all) (void)(*all)->empty();
		sim::set(200 + (unsigned)op, here());
		sim::set(100 + (unsigned)op, r ? 1000 + r->v : (int64_t)R_FALSE);
	}
	template<class Q>
	void run_model() {
		mq m[2];
		std::unique_ptr<Q> q[2];
		inline_dispatcher ds[2];
		const bool dispatched = sim::flip();
		auto pick = [&]() -> dispatcher* {
			const unsigned d = dispatched ? sim::param(3) : 0;
			return d ? &ds[d - 1] : nullptr;
		};
		for (int i = 0; i < 2; i++) {
			m[i].max = 1 + sim::param(3);
			m[i].def = pick();
			q[i] = std::make_unique<Q>(m[i].max, m[i].def);
		}
		dispatcher* where[64] = {}; // a suspended operation continues there
		int nops = 0;
		int64_t expect[64] = {};
		auto push = [&](mq& a, int64_t v) { // accepted without waiting
			if (!a.poppers.empty()) {
				expect[a.poppers.front()] = 1000 + v;
				a.poppers.pop_front();
			} else
				a.items.push_back(v);
		};
		auto pop = [&](mq& a) {
			const int64_t v = a.items.front();
			a.items.pop_front();
			if (!a.pushers.empty()) {
				a.items.push_back(a.pushers.front().second);
				expect[a.pushers.front().first] = R_TRUE;
				a.pushers.pop_front();
			}
			return v;
		};
		auto fail_all = [&](mq& a) {
			for (auto& p : a.pushers) expect[p.first] = R_FALSE;
			for (auto& p : a.poppers) expect[p] = R_FALSE;
			a.pushers.clear();
			a.poppers.clear();
		};
		auto compare = [&](const char* what) {
			for (int i = 0; i < nops; i++) SIM_CHECK(sim::get(100 + (unsigned)i) == expect[i], "model", "after %s operation %d has result %ld, expected %ld", what, i, (long)sim::get(100 + (unsigned)i), (long)expect[i]);
			for (int i = 0; i < nops; i++)
				if (expect[i]) SIM_CHECK(sim::get(200 + (unsigned)i) == (int64_t)(intptr_t)where[i], "wrong-dispatcher", "after %s operation %d did not continue where it asked to", what, i);
			for (int i = 0; i < 2; i++) {
				SIM_CHECK(q[i]->size() == m[i].items.size() + m[i].pushers.size(), "model", "after %s size() is %zu, expected %zu", what, q[i]->size(), m[i].items.size() + m[i].pushers.size());
				SIM_CHECK(q[i]->empty() == (q[i]->size() == 0), "model", "empty() and size() disagree");
			}
		};
		const int n = 4 + (int)sim::param(20);
		for (int k = 0; k < n; k++) {
			const unsigned i = sim::param(2);
			auto& a = m[i];
			const unsigned what = sim::param(8);
			switch (what) {
			case 0:
			case 1: {
				const int op = nops++;
				const int64_t v = k + 1;
				const int how = (int)sim::param(3);
				auto* const d = pick();
				if (a.items.size() < a.max) {
					expect[op] = R_TRUE;
					push(a, v);
				} else {
					a.pushers.push_back({op, v});
					where[op] = how && d ? d : a.def;
				}
				m_push(*q[i], op, v, how, d, &q[sim::param(2)]);
				break;
			}
			case 2:
			case 3: {
				const int op = nops++;
				const int how = (int)sim::param(3);
				auto* const d = pick();
				if (!a.items.empty()) expect[op] = 1000 + pop(a);
				else {
					a.poppers.push_back(op);
					where[op] = how && d ? d : a.def;
				}
				m_pop(*q[i], op, how, d, &q[sim::param(2)]);
				break;
			}
			case 4: {
				const bool room = a.items.size() < a.max;
				if (room) push(a, k + 1);
				const bool r = sim::flip() ? q[i]->try_push(msg(k + 1)) : q[i]->try_emplace(k + 1);
				SIM_CHECK(r == room, "model", "try_push() returned %d with %zu of %zu items", r, a.items.size(), a.max);
				break;
			}
			case 5: {
				const bool any = !a.items.empty();
				const int64_t v = any ? pop(a) : 0;
				auto r = q[i]->try_pop();
				SIM_CHECK(r.has_value() == any && (!any || r->v == v), "model", "try_pop() returned %ld, expected %ld", r ? (long)r->v : -1L, any ? (long)v : -1L);
				break;
			}
			case 6:
				if (!sim::biased(2, 0.5)) break;
				a.items.clear();
				for (auto& p : a.pushers) expect[p.first] = R_FALSE;
				a.pushers.clear();
				q[i]->clear();
				break;
			case 7: {
				auto& b = m[1 - i];
				if (sim::flip()) {
					fail_all(a);
					a = std::move(b);
					b.items.clear(), b.pushers.clear(), b.poppers.clear();
					*q[i] = std::move(*q[1 - i]);
				} else {
					// move construction: nothing is left behind in the source
					auto nq = std::make_unique<Q>(std::move(*q[i]));
					SIM_CHECK(q[i]->empty() && q[i]->size() == 0 && !q[i]->try_pop(), "model", "a queue that was moved away is not empty");
					if (sim::flip()) SIM_CHECK(q[i]->try_push(msg(999)) && q[i]->size() == 1, "model", "an item pushed to the source of a move went elsewhere");
					q[i] = std::move(nq);
				}
				break;
			}
			}
			compare("a step");
		}
		for (int i = 0; i < 2; i++) {
			while (!m[i].items.empty()) {
				pop(m[i]);
				(void)q[i]->try_pop();
			}
			while (!m[i].poppers.empty()) {
				push(m[i], 900);
				SIM_CHECK(q[i]->try_push(msg(900)), "model", "try_push() failed with a consumer waiting");
			}
		}
		compare("the end");
		for (auto& e : q) e.reset();
		SIM_CHECK(sim::get(S_TOKENS) == 0, "leaked-value", "%ld items alive at the end", (long)sim::get(S_TOKENS));
	}
	// queues change places while others use them: waiting operations go along, those of a replaced queue fail
	template<class Q>
	void run_moves() {
		constexpr int SEEN = 300, MAX = 150;
		world<Q> s;
		s.nw = (int)sim::param(2);
		for (int i = 0; i < s.nw; i++) s.w[i] = std::make_unique<worker>();
		std::unique_ptr<Q> q[2];
		for (auto& e : q) e = std::make_unique<Q>(1 + sim::param(3), s.disp(s.pick()));
		auto got = [](std::optional<msg> r) {
			if (!r) return;
			SIM_CHECK(r->t.ok() && r->v > 0 && r->v <= MAX, "value", "popped something else than an item");
			SIM_CHECK(sim::add(SEEN + (unsigned)r->v, 1) == 1, "duplicated", "item %ld was popped twice", (long)r->v);
		};
		auto push = [&](Q& q) -> co {
			const int64_t v = next_val();
			(void)co_await q.push(msg(v));
			sim::add(S_DONE, -1);
			sim::release();
		};
		auto pop = [&](Q& q) -> co {
			got(co_await q.pop());
			sim::add(S_DONE, -1);
			sim::release();
		};
		{
			threads t;
			const int n = 1 + (int)sim::param(3);
			for (int i = 0; i < n; i++)
				t.go([&] {
					const int k = 1 + (int)sim::param(4);
					for (int j = 0; j < k; j++) {
						auto& a = *q[sim::param(2)];
						switch (sim::param(6)) {
						case 0:
							sim::add(S_DONE, 1);
							push(a);
							break;
						case 1:
							sim::add(S_DONE, 1);
							pop(a);
							break;
						case 2: (void)a.try_push(msg(next_val())); break;
						case 3: got(a.try_pop()); break;
						case 4: (void)a.empty(); break;
						default: SIM_CHECK(a.size() <= MAX, "size", "size() is %zu", a.size());
						}
					}
				});
			for (int m = 0, movers = 1 + (int)sim::param(2); m < movers; m++)
				t.go([&] {
					const int k = 1 + (int)sim::param(3);
					for (int j = 0; j < k; j++) {
						const auto i = sim::param(2);
						if (sim::flip()) *q[i] = std::move(*q[1 - i]);
						else *q[i] = Q(std::move(*q[1 - i]));
					}
				});
		}
		drain({s.w[0].get(), s.w[1].get()});
		for (auto& e : q) // serve everybody who still waits
			for (int k = 0; k < 40; k++) {
				got(e->try_pop());
				drain({s.w[0].get(), s.w[1].get()});
			}
		for (auto& e : q)
			for (int k = 0; k < 40 && sim::get(S_DONE); k++) {
				(void)e->try_push(msg(next_val()));
				drain({s.w[0].get(), s.w[1].get()});
			}
		sim::await_acquire([] { return sim::get(S_DONE) == 0; }, "every operation on a queue that was moved or replaced finishes");
		for (auto& w : s.w) w.reset();
		for (auto& e : q) e.reset();
		SIM_CHECK(sim::get(S_TOKENS) == 0, "leaked-value", "%ld items alive at the end", (long)sim::get(S_TOKENS));
	}
	using qd = asyncpp::queue<msg>;
	using ql = asyncpp::queue<msg, std::list<msg>>;
} // namespace
SIM_SCENARIO(queue, 4) { run<qd>(false); }
SIM_SCENARIO(queue_list, 0.5) { run<ql>(false); }
SIM_SCENARIO(queue_clear, 1) { run<qd>(true); }
SIM_SCENARIO(queue_model, 0.7) { run_model<qd>(); }
SIM_SCENARIO(queue_moves, 0.4) { run_moves<qd>(); }
// large bounds
SIM_SCENARIO(many, 0.03) {
	const int max = many();
	{
		qd q((std::size_t)max);
		for (int i = 0; i < max; i++) SIM_CHECK(q.try_push(msg(i)), "model", "try_push() failed with %d of %d items", i, max);
		SIM_CHECK(!q.try_push(msg(0)) && q.size() == (std::size_t)max, "model", "a queue of %d items took more (%zu)", max, q.size());
		m_push(q, 0, max);
		SIM_CHECK(sim::get(100) == 0, "model", "push() continued although the queue is full");
		for (int i = 0; i <= max; i++) {
			auto r = q.try_pop();
			SIM_CHECK(r && r->v == i, "model", "item %d was expected", i);
		}
		SIM_CHECK(sim::get(100) == R_TRUE && q.empty(), "model", "push() did not continue once there was space");
	}
	SIM_CHECK(sim::get(S_TOKENS) == 0, "leaked-value", "%ld items alive at the end", (long)sim::get(S_TOKENS));
}
// very many producers or consumers wait at once
SIM_SCENARIO(crowd, 0.05) {
	{
		const int n = many() % 512, max = 1 + (int)sim::param(3);
		qd q((std::size_t)max);
		const bool popping = sim::flip();
		int served = 0;
		auto popper = [&](int i) -> co {
			auto r = co_await q.pop();
			if (r) {
				SIM_CHECK(r->v == i && r->t.ok(), "order", "consumer %d of very many got item %ld", i, (long)r->v);
				SIM_CHECK(served++ == i, "order", "consumer %d was not served in order", i);
			} else
				sim::add(101, 1);
			sim::add(100, 1);
		};
		auto pusher = [&](int i) -> co {
			const bool ok = co_await q.push(msg(i));
			if (ok) SIM_CHECK(served++ == i, "order", "producer %d was not served in order", i);
			else sim::add(101, 1);
			sim::add(100, 1);
		};
		for (int i = 0; i < n; i++)
			if (popping) popper(i);
			else pusher(i);
		SIM_CHECK(sim::get(100) == (popping ? 0 : max), "model", "%ld of %d operations continued", (long)sim::get(100), n);
		const int k = (int)sim::param((unsigned)n + 1);
		for (int i = 0; i < k; i++) {
			if (popping) {
				SIM_CHECK(q.try_push(msg(i)), "model", "try_push() fails with %d consumers waiting", n - i);
				SIM_CHECK(sim::get(100) == i + 1, "lost-wakeup", "consumer %d did not continue", i);
			} else {
				auto r = q.try_pop();
				SIM_CHECK(r && r->v == i, "order", "try_pop() did not get item %d", i);
				SIM_CHECK(sim::get(100) == (i + 1 + max < n ? i + 1 + max : n), "lost-wakeup", "producer %d did not continue", i + max);
			}
		}
		const int before = (int)sim::get(100);
		q.clear();
		if (popping) { // they wait for further items
			SIM_CHECK(sim::get(100) == before, "clear", "consumers continued in clear()");
			for (int i = k; i < n; i++) SIM_CHECK(q.try_push(msg(i)), "model", "try_push() fails with %d consumers waiting", n - i);
			SIM_CHECK(sim::get(100) == n && sim::get(101) == 0, "lost-wakeup", "%ld of %d consumers continued", (long)sim::get(100), n);
		} else
			SIM_CHECK(sim::get(100) == n && sim::get(101) == n - before, "clear", "%ld of %d operations continued after clear(), %ld of them failed (%d expected)", (long)sim::get(100), n, (long)sim::get(101), n - before);
		SIM_CHECK(q.empty(), "clear", "items are left after clear()");
	}
	SIM_CHECK(sim::get(S_TOKENS) == 0, "leaked-value", "%ld items alive at the end", (long)sim::get(S_TOKENS));
}
// a long sequence through a small queue
SIM_SCENARIO(sequence, 0.03) {
	const int n = many();
	std::unique_ptr<worker> w;
	if (sim::flip()) w = std::make_unique<worker>();
	{
		qd q(1 + (std::size_t)sim::param(3));
		auto consumer = [&]() -> co {
			for (int i = 0; i < n; i++) {
				auto r = co_await q.pop();
				SIM_CHECK(r && r->v == i, "order", "item %d was expected", i);
			}
			sim::add(100, 1);
			sim::release();
		};
		auto producer = [&](int stop, int& i) -> co {
			for (; i < stop; i++) SIM_CHECK(co_await q.push(msg(i)), "model", "push() of item %d failed", i);
			sim::add(100, 1);
			sim::release();
		};
		int i = 0;
		const bool first = sim::flip();
		if (first) consumer();
		if (w) {
			w->push([&] { producer(n, i); });
		} else producer(n, i);
		if (!first) consumer();
		sim::await_acquire([] { return sim::get(100) == 2; }, "producer and consumer of a long sequence finish");
		w.reset();
	}
	SIM_CHECK(sim::get(S_TOKENS) == 0, "leaked-value", "%ld items alive at the end", (long)sim::get(S_TOKENS));
}
