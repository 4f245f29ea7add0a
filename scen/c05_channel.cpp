#include "ops.h"
#include <asyncpp/channel.h>
#include <asyncpp/defer.h>
#include <optional>
using namespace ops;

namespace {
	enum { S_DONE = 1, S_TOKENS, S_ACTORS };
	enum type { READ, TRY_READ, WRITE, TRY_WRITE, CLOSE };

	struct msg {
		int64_t v;
		token t;
		explicit msg(int64_t x) : v(x), t(S_TOKENS) {}
		msg(msg&&) = default;
		msg& operator=(msg&&) = default;
	};
	using chan = asyncpp::channel<msg>;

	struct world {
		chan c;
		std::unique_ptr<worker> w[2];
		dispatcher* disp(int d) { return d == 0 ? nullptr : (dispatcher*)w[d - 1].get(); }
		int nw = 0;
		int pick() { return (int)sim::param((unsigned)nw + 1); }
	};

	// select the dispatcher of an operation: explicitly or through the current one
	template<class F>
	auto make(world& s, int d, F&& f) {
		if (sim::flip()) {
			auto a = f();
			a.resume_on(s.disp(d));
			return a;
		}
		on_dispatcher o(s.disp(d));
		return f();
	}

	void got(std::optional<msg>& r) {
		if (r) SIM_CHECK(r->t.ok(), "value", "received a value that was already moved away");
	}

	co reader(world& s, int n, int start) {
		if (start) co_await asyncpp::defer(s.disp(start));
		for (int i = 0; i < n; i++) {
			const int d = s.pick();
			if (sim::biased(2, 0.25)) {
				const int id = begin(TRY_READ, 0, 0);
				auto r = s.c.try_read();
				got(r);
				end(id, r.has_value(), r ? r->v : 0);
			} else {
				const int id = begin(READ, 0, d);
				auto a = make(s, d, [&] { return s.c.read(); });
				std::optional<msg> r = co_await tracked<decltype(a)>{std::move(a), id};
				got(r);
				end(id, r.has_value(), r ? r->v : 0);
				if (!r && sim::flip()) break;
			}
			sim::point();
		}
		sim::add(S_DONE, 1);
		sim::release();
	}
	co writer(world& s, int who, int n, int start) {
		if (start) co_await asyncpp::defer(s.disp(start));
		for (int i = 0; i < n; i++) {
			const int d = s.pick();
			const int64_t v = who * 100 + i + 1;
			if (sim::biased(2, 0.25)) {
				const int id = begin(TRY_WRITE, v, 0);
				const bool r = s.c.try_write(msg(v));
				end(id, r);
			} else {
				const int id = begin(WRITE, v, d);
				auto a = make(s, d, [&] { return s.c.write(msg(v)); });
				const bool r = co_await tracked<decltype(a)>{std::move(a), id};
				end(id, r);
				if (!r && sim::flip()) break;
			}
			sim::point();
		}
		sim::add(S_DONE, 1);
		sim::release();
	}
	void close(world& s) {
		const int id = begin(CLOSE, 0, 0);
		s.c.close();
		end(id, true);
		SIM_CHECK(s.c.is_closed(), "closed", "is_closed() is false after close()");
	}

	bool is_write(const rec& r) { return r.type == WRITE || r.type == TRY_WRITE; }
	bool is_read(const rec& r) { return r.type == READ || r.type == TRY_READ; }

	const rec* partner(const std::vector<rec>& h, const rec& r) {
		for (auto& o : h) {
			if (is_read(r) && r.ok && is_write(o) && o.val == r.res) return &o;
			if (is_write(r) && is_read(o) && o.done() && o.ok && o.res == r.val) return &o;
		}
		return nullptr;
	}

	void check(world& s, bool quiescent, int wt[2]) {
		sim::quiet q;
		auto h = history();
		uint64_t close_b = UINT64_MAX, close_e = UINT64_MAX;
		for (auto& r : h)
			if (r.type == CLOSE) {
				close_b = std::min(close_b, r.b);
				close_e = std::min(close_e, r.e);
			}
		int wait_r = 0, wait_w = 0;
		for (auto& r : h) {
			if (!r.done()) {
				SIM_CHECK(quiescent && r.susp, "stuck", "operation %d (type %d) never finished", r.id, r.type);
				// (its partner may already be recorded only if it was resumed)
				(is_read(r) ? wait_r : wait_w)++;
				SIM_CHECK(!is_write(r) || !partner(h, r), "stuck", "the value of write %d was received but the writer stays suspended", r.id);
				SIM_CHECK(close_e == UINT64_MAX, "stuck-on-closed", "operation %d is suspended on a closed channel", r.id);
				continue;
			}
			if (r.type == CLOSE) continue;
			auto* p = partner(h, r);
			if (is_read(r) && r.ok) {
				SIM_CHECK(p, "invented", "received %ld which nobody wrote", (long)r.res);
				for (auto& o : h)
					if (&o != &r && is_read(o) && o.done() && o.ok) SIM_CHECK(o.res != r.res, "duplicated", "value %ld was received twice", (long)r.res);
				if (p->done()) SIM_CHECK(p->ok, "failed-but-received", "the write of %ld reported failure but the value was received", (long)r.res);
				SIM_CHECK(p->b < r.e, "invented", "value %ld received before it was written", (long)r.res);
			}
			if (is_write(r) && r.ok) {
				SIM_CHECK(p || quiescent, "lost", "write of %ld succeeded but nobody received it", (long)r.val);
				if (p) SIM_CHECK(p->b < r.e, "rendezvous", "write of %ld finished before the read that received it began", (long)r.val);
			}
			if ((r.type == READ || r.type == WRITE) && !r.ok) SIM_CHECK(close_b < r.e, "failed-while-open", "operation %d failed although the channel was not closed", r.id);
			if (close_e < r.b) SIM_CHECK(!r.ok, "success-after-close", "operation %d started after close() but succeeded", r.id);
			// where it continued
			if (!r.susp) {
				if (r.type != TRY_READ && r.type != TRY_WRITE) SIM_CHECK(r.etid == r.tid, "wrong-thread", "operation %d did not suspend but changed threads", r.id);
			} else if (r.disp) SIM_CHECK(r.etid == wt[r.disp - 1], "wrong-dispatcher", "operation %d chose dispatcher %d but continued on t%d", r.id, r.disp, r.etid);
			else {
				bool ok = false;
				for (auto& o : h)
					if (o.id != r.id && o.b < r.e && o.e > r.e && o.tid == r.etid && (o.type == CLOSE || is_read(o) != is_read(r))) ok = true;
				// the caller's own operation may be recorded as ended on another thread only if it suspended later
				SIM_CHECK(ok, "wrong-dispatcher", "operation %d chose no dispatcher but continued on t%d outside of any call that completed it", r.id, r.etid);
			}
		}
		SIM_CHECK(!wait_r || !wait_w, "both-suspended", "%d reader(s) and %d writer(s) are suspended at the same time", wait_r, wait_w);
		// first come first served
		for (auto& a : h)
			for (auto& b : h) {
				if (!a.susp || (a.type != READ && a.type != WRITE) || a.type != b.type || a.s >= b.b || !b.done() || !b.ok) continue;
				auto* pb = partner(h, b);
				if (!pb) continue;
				if (a.done() && a.ok) {
					auto* pa = partner(h, a);
					if (pa) SIM_CHECK(!(pb->e < pa->b), "fifo", "operation %d was served before %d which waited first", b.id, a.id);
				} else if (pb->done() && (!a.done() ? !quiescent : close_b > pb->e))
					sim::fail("fifo", "operation %d was served while %d which waited first was not", b.id, a.id);
				else if (!a.done() && quiescent) sim::fail("fifo", "operation %d was served while %d which waited first is still suspended", b.id, a.id);
			}
		// values of one writer arrive in order at every reader; try operations fail only with nobody waiting
		for (auto& a : h)
			for (auto& b : h) {
				if (is_read(a) && is_read(b) && a.done() && b.done() && a.ok && b.ok && a.res / 100 == b.res / 100 && a.before(b)) {
					auto *pa = partner(h, a), *pb = partner(h, b);
					if (pa && pb) SIM_CHECK(a.res < b.res, "order", "%ld was received before %ld of the same writer", (long)a.res, (long)b.res);
				}
				if ((a.type == TRY_WRITE || a.type == TRY_READ) && a.done() && !a.ok && b.susp && b.type == (a.type == TRY_WRITE ? READ : WRITE) && b.s < a.b && close_b > a.e) {
					auto* pb = b.done() ? partner(h, b) : nullptr;
					if ((pb && pb->b > a.e) || (!pb && (!b.done() || (!b.ok && close_b > a.e)))) sim::fail("try-failed", "try operation %d failed although operation %d was waiting", a.id, b.id);
				}
			}
		(void)s;
	}

	void run() {
		world s;
		s.nw = (int)sim::param(3);
		for (int i = 0; i < s.nw; i++) s.w[i] = std::make_unique<worker>();
		const int nr = (int)sim::param(4), nw = (int)sim::param(4);
		const bool race_close = sim::flip();
		int actors = nr + nw;
		{
			threads t;
			for (int i = 0; i < nr; i++) {
				const int n = 1 + (int)sim::param(4), st = s.pick();
				t.go([&, n, st] { reader(s, n, st); });
			}
			for (int i = 0; i < nw; i++) {
				const int n = 1 + (int)sim::param(4), st = s.pick();
				t.go([&, i, n, st] { writer(s, i + 1, n, st); });
			}
			if (race_close) {
				t.go([&] { close(s); });
				if (sim::flip()) t.go([&] { close(s); });
			}
		}
		drain({s.w[0].get(), s.w[1].get()});
		int wt[2] = {s.w[0] ? s.w[0]->thread_id() : -1, s.w[1] ? s.w[1]->thread_id() : -1};
		check(s, true, wt);
		close(s);
		sim::await_acquire([&] { return sim::get(S_DONE) == actors; }, "every operation on a closed channel finishes");
		for (auto& w : s.w) w.reset();
		// operations on the closed channel do not suspend
		{
			auto r = s.c.try_read();
			SIM_CHECK(!r && !s.c.try_write(msg(1)), "after-close", "an operation on a closed channel succeeded");
			reader(s, 1, 0);
			writer(s, 9, 1, 0);
			SIM_CHECK(sim::get(S_DONE) == actors + 2, "after-close", "an operation on a closed channel suspended");
		}
		check(s, false, wt);
		SIM_CHECK(sim::get(S_TOKENS) == 0, "leaked-value", "%ld values alive at the end", (long)sim::get(S_TOKENS));
	}
} // namespace
SIM_SCENARIO(channel, 1) { run(); }

// very many readers or writers wait at once; long sequences through one pair
SIM_SCENARIO(crowd, 0.05) {
	std::unique_ptr<worker> w;
	if (sim::flip()) w = std::make_unique<worker>();
	const int n = many();
	if (n < 512) {
		chan c;
		const bool reading = sim::flip();
		int served = 0; // waiters that got a value, in order
		auto reader = [&](int i) -> co {
			auto r = co_await c.read();
			if (r) {
				SIM_CHECK(r->v == i && r->t.ok(), "order", "reader %d of very many got value %ld", i, (long)r->v);
				SIM_CHECK(served++ == i, "order", "reader %d was not served in order", i);
			} else
				sim::add(S_ACTORS, 1);
			sim::add(S_DONE, 1);
		};
		auto writer = [&](int i) -> co {
			const bool ok = co_await c.write(msg(i));
			if (ok) SIM_CHECK(served++ == i, "order", "writer %d was not served in order", i);
			else sim::add(S_ACTORS, 1);
			sim::add(S_DONE, 1);
		};
		for (int i = 0; i < n; i++)
			if (reading) reader(i);
			else writer(i);
		SIM_CHECK(sim::get(S_DONE) == 0, "lost-wakeup", "a reader or writer continued without a partner");
		const int k = (int)sim::param((unsigned)n + 1);
		for (int i = 0; i < k; i++) {
			if (reading) SIM_CHECK(c.try_write(msg(i)), "model", "try_write() fails with %d readers waiting", n - i);
			else {
				auto r = c.try_read();
				SIM_CHECK(r && r->v == i, "order", "try_read() did not get the value of writer %d", i);
			}
			SIM_CHECK(sim::get(S_DONE) == i + 1, "lost-wakeup", "partner %d did not continue", i);
		}
		c.close();
		SIM_CHECK(sim::get(S_DONE) == n && sim::get(S_ACTORS) == n - k, "closed", "%ld of %d waiters continued after close(), %ld of them failed", (long)sim::get(S_DONE), n, (long)sim::get(S_ACTORS));
	} else {
		chan c;
		auto reader = [&]() -> co {
			for (int i = 0;; i++) {
				auto r = co_await c.read();
				if (!r) {
					SIM_CHECK(i == n, "closed", "reader ended after %d of %d values", i, n);
					break;
				}
				SIM_CHECK(r->v == i, "order", "value %ld instead of %d", (long)r->v, i);
			}
			sim::add(S_DONE, 1);
			sim::release();
		};
		auto writer = [&](dispatcher* d) -> co {
			if (d) co_await asyncpp::defer(d);
			for (int i = 0; i < n; i++) {
				const bool ok = co_await c.write(msg(i));
				SIM_CHECK(ok, "write-result", "write %d failed", i);
			}
			c.close();
			sim::add(S_DONE, 1);
			sim::release();
		};
		reader();
		writer(nullptr);
		sim::await_acquire([&] { return sim::get(S_DONE) == 2; }, "reader and writer of a long sequence finish");
	}
	w.reset();
	SIM_CHECK(sim::get(S_TOKENS) == 0, "leaked-value", "%ld values alive at the end", (long)sim::get(S_TOKENS));
}
