#include "common.h"
#include <asyncpp/signal.h>
#include <optional>
using namespace h;

namespace {
	using asyncpp::scoped_signal_handle;
	using asyncpp::signal_handle;
	enum { S_ID = 1, S_EMIT, S_TOKENS, S_ALIVE, S_CALLED, S_DESTROYED = 100, S_CTX = 600, S_DEPTH = 700, S_STATE = 800, S_ALONE = 900 };
	enum { K_CONN_B = K_USER, K_CONN_E, K_DISC_B, K_DISC_E, K_EMIT_B, K_EMIT_E, K_CALL };
	constexpr int MAXID = 60;
	constexpr int EVENTS = 3;

	struct payload {
		int a, b;
	};
	using sig_t = asyncpp::signal<void(int, const payload&)>;
	using sig_st = asyncpp::signal_st<void(int, const payload&)>;
	using mgr_t = asyncpp::signal_manager<int, void(int, const payload&)>;

	// the same operations on a signal or on one event of a manager
	template<class S>
	struct on_signal {
		S s;
		static constexpr int events = 1;
		template<class F> signal_handle append(int, F&& f) { return sim::flip() ? s.append(std::forward<F>(f)) : (s += std::forward<F>(f)); }
		template<class F> signal_handle prepend(int, F&& f) { return s.prepend(std::forward<F>(f)); }
		void remove(int, const signal_handle& h) {
			if (sim::flip()) s.remove(h);
			else s -= h;
		}
		bool owns(int, const signal_handle& h) { return s.owns_handle(h); }
		size_t emit(int, int e, const payload& p) { return s(e, p); }
		void misc() {
			const size_t n = s.size();
			const bool e = s.empty();
			if (!sim::get(S_ALONE)) return;
			size_t live = 0;
			for (int i = 1; i <= MAXID; i++) live += sim::get(S_STATE + (unsigned)i) == 1;
			SIM_CHECK(n == live && e == (live == 0), "size", "size() is %zu with %zu connected slots", n, live);
		}
		void touch() { (void)s.size(); }
		void final_size(size_t n) { SIM_CHECK(s.size() == n && s.empty() == (n == 0), "size", "size() is %zu with %zu connected slots", s.size(), n); }
	};
	struct on_manager {
		mgr_t s;
		static constexpr int events = EVENTS;
		template<class F> signal_handle append(int ev, F&& f) { return s.append(ev, std::forward<F>(f)); }
		template<class F> signal_handle prepend(int ev, F&& f) { return s.prepend(ev, std::forward<F>(f)); }
		void remove(int ev, const signal_handle& h) { s.remove(ev, h); }
		bool owns(int ev, const signal_handle& h) { return s.owns_handle(ev, h); }
		size_t emit(int ev, int e, const payload& p) { return sim::flip() ? s(ev, e, p) : s.invoke(ev, e, p); }
		void misc() { (void)s.shrink_to_fit(); }
		void touch() { (void)s.owns_handle(0, signal_handle{}); }
		void final_size(size_t n) {
			(void)s.shrink_to_fit();
			if (n == 0) SIM_CHECK(s.shrink_to_fit() == 0, "shrink", "shrink_to_fit() left empty events behind");
		}
	};

	template<class W>
	struct ctx {
		W& w;
		struct item {
			int id, ev;
			signal_handle h;
		};
		std::vector<item> mine;
		struct sitem {
			int id, ev;
			scoped_signal_handle h;
		};
		std::vector<sitem> scoped;
	};
	template<class W> ctx<W>* here() { return (ctx<W>*)sim::get(S_CTX + (unsigned)sim::self()); }
	template<class W> void act(ctx<W>& c);
	template<class W> void emit(ctx<W>& c, int ev);

	struct boom {};

	template<class W>
	struct slot {
		W* w;
		int id;
		bool reenter; // its destructor uses the signal
		token t{S_TOKENS};
		slot(W& ww, int i, bool r) : w(&ww), id(i), reenter(r) {}
		slot(slot&& o) noexcept = default;
		slot(const slot& o) = default;
		~slot() {
			if (!t.heap) return;
			sim::add(S_DESTROYED + (unsigned)id, 1);
			if (reenter && sim::get(S_ALIVE)) w->touch();
		}
		void operator()(int e, const payload& p) {
			sim::log(K_CALL, e, id);
			SIM_CHECK(t.ok(), "callable", "the callable of slot %d was destroyed while it is called", id);
			SIM_CHECK(p.a == e * 3 && p.b == 7, "arguments", "slot %d got other arguments", id);
			auto* c = here<W>();
			if (sim::get(S_DEPTH + (unsigned)sim::self()) < 3) {
				const unsigned n = sim::biased(3, 0.4);
				for (unsigned i = 0; i < n; i++) act(*c);
			}
			if (sim::biased(2, 0.03)) throw boom{};
			SIM_CHECK(t.ok(), "callable", "the callable of slot %d was destroyed while it is called", id);
		}
	};

	template<class W>
	void connect(ctx<W>& c, int ev) {
		const int id = (int)sim::add(S_ID, 1);
		if (id > MAXID) return;
		const bool front = sim::flip();
		slot<W> f{c.w, id, (bool)sim::biased(2, 0.3)};
		sim::log(K_CONN_B, id, front, ev);
		signal_handle h;
		if (sim::biased(2, 0.25)) h = front ? c.w.prepend(ev, f) : c.w.append(ev, f);
		else h = front ? c.w.prepend(ev, std::move(f)) : c.w.append(ev, std::move(f));
		sim::set(S_STATE + (unsigned)id, 1);
		sim::log(K_CONN_E, id, front, ev);
		SIM_CHECK(!!h, "handle", "append() or prepend() returned an invalid handle");
		switch (sim::param(4)) {
		case 0:
		case 1: c.mine.push_back({id, ev, std::move(h)}); break;
		case 2: break; // stays connected without a handle
		case 3: {
			scoped_signal_handle s = h;
			if (sim::flip()) {
				scoped_signal_handle o;
				o = std::move(s);
				SIM_CHECK(o.valid() && h.valid(), "scoped", "moving a scoped_signal_handle disconnected its slot");
				s = std::move(o);
			}
			c.scoped.push_back({id, ev, std::move(s)});
			break;
		}
		}
	}
	template<class W>
	void disconnect(ctx<W>& c) {
		if (c.mine.empty()) return;
		auto& chosen = c.mine[sim::param((unsigned)c.mine.size())];
		auto it = typename ctx<W>::item{chosen.id, chosen.ev, chosen.h};
		if (sim::biased(2, 0.7)) {
			for (size_t i = 0; i < c.mine.size(); i++)
				if (c.mine[i].id == it.id) {
					c.mine.erase(c.mine.begin() + (long)i);
					break;
				}
		}
		if (sim::get(S_ALONE)) {
			const bool live = sim::get(S_STATE + (unsigned)it.id) == 1;
			SIM_CHECK(it.h.valid() == live && c.w.owns(it.ev, it.h) == live, "owns", "a handle of slot %d is %svalid and %sowned, but it is %sconnected", it.id, it.h.valid() ? "" : "not ", c.w.owns(it.ev, it.h) ? "" : "not ", live ? "" : "not ");
		}
		sim::log(K_DISC_B, it.id);
		sim::set(S_STATE + (unsigned)it.id, 0);
		if (sim::flip()) {
			it.h.disconnect();
			SIM_CHECK(!it.h.valid(), "handle", "a handle is valid after disconnect()");
		} else {
			c.w.remove(it.ev, it.h);
			SIM_CHECK(!it.h.valid(), "handle", "a handle is valid after its slot was removed");
			SIM_CHECK(!c.w.owns(it.ev, it.h), "owns", "owns_handle() of a removed slot");
		}
		sim::log(K_DISC_E, it.id);
	}
	template<class W>
	void act(ctx<W>& c) {
		switch (sim::param(8)) {
		case 7: {
			if (c.mine.empty()) break;
			auto& it = c.mine[sim::param((unsigned)c.mine.size())];
			const bool r = c.w.owns(it.ev, it.h);
			if (sim::get(S_STATE + (unsigned)it.id) == 1) SIM_CHECK(r, "owns", "owns_handle() says slot %d is not connected", it.id);
			break;
		}
		case 0: connect(c, (int)sim::param(W::events)); break;
		case 1:
		case 2: disconnect(c); break;
		case 3:
		case 4:
			if (sim::get(S_DEPTH + (unsigned)sim::self()) < 2) emit(c, (int)sim::param(W::events));
			break;
		case 5: c.w.misc(); break;
		case 6: {
			if (c.scoped.empty()) break;
			const size_t i = sim::param((unsigned)c.scoped.size());
			auto it = std::move(c.scoped[i]);
			c.scoped.erase(c.scoped.begin() + (long)i);
			if (sim::biased(2, 0.2)) {
				it.h.release(); // stays connected
				break;
			}
			sim::log(K_DISC_B, it.id);
			sim::set(S_STATE + (unsigned)it.id, 0);
			{ auto gone = std::move(it); }
			sim::log(K_DISC_E, it.id);
			break;
		}
		}
	}
	template<class W>
	void emit(ctx<W>& c, int ev) {
		const int e = (int)sim::add(S_EMIT, 1);
		const unsigned d = S_DEPTH + (unsigned)sim::self();
		sim::add(d, 1);
		sim::log(K_EMIT_B, e, ev);
		const payload p{e * 3, 7};
		try {
			const size_t n = c.w.emit(ev, e, p);
			sim::log(K_EMIT_E, e, (int64_t)n, 0);
		} catch (const boom&) { sim::log(K_EMIT_E, e, -1, 1); }
		sim::add(d, -1);
	}

	struct rec {
		uint64_t conn_b = 0, conn_e = 0, disc_b = 0, disc_e = 0;
		int conn_tid = -1, ev = 0;
		bool front = false;
	};
	/// checks every emission against the history; returns the number of slots connected at the end
	size_t check() {
		sim::quiet q;
		std::vector<rec> s(MAXID + 1);
		const size_t n = sim::log_size();
		for (size_t i = 0; i < n; i++) {
			auto& e = sim::log_at(i);
			rec* r = e.kind >= K_CONN_B && e.kind <= K_DISC_E ? &s[(size_t)e.a] : nullptr;
			switch (e.kind) {
			case K_CONN_B: r->conn_b = e.seq, r->conn_tid = e.tid, r->front = e.b, r->ev = (int)e.c; break;
			case K_CONN_E: r->conn_e = e.seq; break;
			case K_DISC_B: if (!r->disc_b) r->disc_b = e.seq; break;
			case K_DISC_E: if (!r->disc_e) r->disc_e = e.seq; break;
			default: break;
			}
		}
		for (size_t i = 0; i < n; i++) {
			auto& b = sim::log_at(i);
			if (b.kind != K_EMIT_B) continue;
			const int64_t e = b.a, ev = b.b;
			const sim::event* end = nullptr;
			std::vector<std::pair<int, uint64_t>> calls;
			for (size_t k = i; k < n; k++) {
				auto& x = sim::log_at(k);
				if (x.kind == K_EMIT_E && x.a == e) end = &x;
				if (x.kind == K_CALL && x.a == e) {
					SIM_CHECK(x.tid == b.tid, "thread", "a slot was called on another thread than the emitting one");
					calls.emplace_back((int)x.b, x.seq);
				}
			}
			SIM_CHECK(end, "unfinished", "an emission did not end");
			const bool aborted = end->c;
			if (!aborted) SIM_CHECK(end->b == (int64_t)calls.size(), "count", "an emission returned %ld after %zu calls", (long)end->b, calls.size());
			for (size_t x = 0; x < calls.size(); x++) {
				auto& r = s[(size_t)calls[x].first];
				SIM_CHECK(r.ev == ev, "event", "a slot of another event was called");
				SIM_CHECK(!r.disc_e || r.disc_e > b.seq, "disconnected", "slot %d was called by an emission that started after its disconnection", calls[x].first);
				SIM_CHECK(r.conn_b < calls[0].second && (r.conn_tid != b.tid || r.conn_b < b.seq), "late", "slot %d was called by an emission that was already running when it got connected", calls[x].first);
				// disconnected by the emitting thread itself, before its turn
				for (size_t k = i; k < n; k++) {
					auto& d = sim::log_at(k);
					if (d.seq > calls[x].second) break;
					SIM_CHECK(!(d.kind == K_DISC_E && d.a == calls[x].first && d.tid == b.tid), "disconnected", "slot %d was called although an earlier slot of the emission disconnected it", calls[x].first);
				}
				for (size_t y = x + 1; y < calls.size(); y++) {
					SIM_CHECK(calls[x].first != calls[y].first, "twice", "slot %d was called twice by one emission", calls[x].first);
					// y was called after x: it must not belong before it
					auto& l = s[(size_t)calls[y].first];
					const bool wrong = l.front != r.front ? l.front : l.front ? r.conn_e < l.conn_b : l.conn_e < r.conn_b;
					SIM_CHECK(!wrong, "order", "slots %d and %d were called in the wrong order", calls[x].first, calls[y].first);
				}
			}
			if (aborted) continue;
			for (int id = 1; id <= MAXID; id++) {
				auto& r = s[(size_t)id];
				if (!r.conn_e || r.ev != ev || r.conn_e > b.seq || (r.disc_b && r.disc_b < end->seq)) continue;
				bool called = false;
				for (auto& c : calls) called |= c.first == id;
				SIM_CHECK(called, "missed", "slot %d was connected throughout an emission but not called", id);
			}
		}
		size_t c = 0;
		for (auto& r : s) c += r.conn_e && !r.disc_b;
		return c;
	}
	template<class W>
	void run(int nthreads) {
		sim::set(S_ALIVE, 1);
		sim::set(S_ALONE, !nthreads);
		{
			auto w = std::make_unique<W>();
			ctx<W> m{*w, {}, {}};
			sim::set(S_CTX + (unsigned)sim::self(), (int64_t)(intptr_t)&m);
			const unsigned n0 = sim::param(4);
			for (unsigned i = 0; i < n0; i++) connect(m, (int)sim::param(W::events));
			if (nthreads) {
				threads t;
				for (int i = 0; i < nthreads; i++)
					t.go([&w, mine = m.mine]() mutable {
						ctx<W> c{*w, std::move(mine), {}};
						sim::set(S_CTX + (unsigned)sim::self(), (int64_t)(intptr_t)&c);
						const unsigned n = 1 + sim::param(4);
						for (unsigned k = 0; k < n; k++) act(c);
						for (auto& s : c.scoped) s.h.release();
					});
			} else {
				const unsigned n = 1 + sim::param(8);
				for (unsigned k = 0; k < n; k++) act(m);
			}
			for (auto& s : m.scoped) s.h.release();
			// everything is quiet now
			sim::set(S_DEPTH + (unsigned)sim::self(), 9); // the slots do nothing any more
			for (int ev = 0; ev < W::events; ev++) emit(m, ev);
			const size_t c = check();
			w->final_size(c);
			for (int ev = 0; ev < W::events; ev++) emit(m, ev);
			check();
			sim::set(S_ALIVE, 0);
			if (sim::flip()) m.mine.clear();
			w.reset();
			for (auto& x : m.mine) x.h.disconnect();
		}
		SIM_CHECK(sim::get(S_TOKENS) == 0, "leak", "%ld callables were not destroyed", (long)sim::get(S_TOKENS));
	}
} // namespace

SIM_SCENARIO(concurrent, 3) { run<on_signal<sig_t>>(2 + (int)sim::param(2)); }
SIM_SCENARIO(alone, 1) { run<on_signal<sig_t>>(0); }
SIM_SCENARIO(single_threaded, 0.5) { run<on_signal<sig_st>>(0); }
SIM_SCENARIO(manager, 2) { run<on_manager>(2 + (int)sim::param(2)); }
SIM_SCENARIO(manager_alone, 0.7) { run<on_manager>(0); }

// very many slots over the life of a signal
namespace {
	template<class S>
	void run_many() {
		{
			S a;
			size_t n = (size_t)many();
			auto f = [t = token{S_TOKENS}](int, const payload&) { sim::add(S_CALLED, 1); };
			const payload p{0, 0};
			std::vector<signal_handle> keep;
			const unsigned how = sim::param(3);
			n %= 4096;
			if (how != 1) n %= 512; // disconnected slots stay allocated until the next emission
			if (sim::flip()) keep.push_back(a.append(f));
			if (how == 2) { // all connected at once
				while (keep.size() < n) keep.push_back(sim::flip() ? a.append(f) : a.prepend(f));
			} else
				for (size_t i = 0; i < n; i++) {
					auto hd = a.append(f);
					if (how == 0) hd.disconnect();
					else SIM_CHECK(a.remove(hd), "remove", "remove() of a connected slot returned false");
				}
			SIM_CHECK(a.size() == keep.size(), "size", "size() is %zu with %zu slots", a.size(), keep.size());
			if (sim::flip()) keep.push_back(a.append(f));
			const size_t called = a(0, p);
			SIM_CHECK(called == keep.size() && (size_t)sim::get(S_CALLED) == called, "calls", "%zu slots are connected, %zu were reported and %ld called", keep.size(), called, (long)sim::get(S_CALLED));
			for (auto& e : keep) SIM_CHECK(e.valid(), "valid", "the handle of a connected slot is not valid");
			for (auto& e : keep) e.disconnect();
			SIM_CHECK(a.empty() && a(0, p) == 0, "size", "slots are left after all were disconnected");
		}
		SIM_CHECK(sim::get(S_TOKENS) == 0, "leak", "%ld callables were not destroyed", (long)sim::get(S_TOKENS));
	}
} // namespace
SIM_SCENARIO(many, 0.05) {
	if (sim::biased(2, 0.7)) run_many<sig_t>();
	else run_many<sig_st>();
}

// a signal is moved while slots are connected and disconnected
SIM_SCENARIO(moved, 1) {
	struct small {
		int id;
		token t{S_TOKENS};
		void operator()(int, const payload&) {
			SIM_CHECK(t.ok(), "callable", "the callable of slot %d was destroyed while it is called", id);
			sim::add(S_DESTROYED + (unsigned)id, 1); // calls
		}
	};
	struct nosy : small { // its destructor uses the signal
		sig_t* sig;
		nosy(int i, sig_t* s) : small{i}, sig(s) {}
		nosy(nosy&&) noexcept = default;
		~nosy() {
			if (t.heap && sim::get(S_ALIVE)) (void)sig->size();
		}
	};
	{
		sig_t a;
		std::optional<sig_t> b;
		const bool construct = sim::flip();
		if (!construct) {
			b.emplace();
			if (sim::flip()) b->append(small{50}); // goes away in the assignment
			if (sim::flip()) b->append(nosy{50, &*b});
		}
		sim::set(S_ALIVE, 1);
		const int n0 = (int)sim::param(3);
		std::vector<signal_handle> initial;
		for (int i = 0; i < n0; i++) initial.push_back(a.append(small{(int)sim::add(S_ID, 1)}));
		const int drop = (int)sim::param((unsigned)n0 + 1); // disconnects this many of them
		{
			threads t;
			t.go([&] {
				if (construct) b.emplace(std::move(a));
				else {
					sig_t& r = (*b = std::move(a));
					SIM_CHECK(&r == &*b, "assign", "the assignment returned another signal");
				}
			});
			const int nt = 1 + (int)sim::param(2);
			for (int i = 0; i < nt; i++)
				t.go([&, i] {
					if (i == 0)
						for (int k = 0; k < drop; k++) initial[(size_t)k].disconnect();
					if (!construct && sim::flip()) {
						SIM_CHECK(b->size() <= 40, "size", "size() of a signal being assigned");
						(void)b->owns_handle(signal_handle{});
					}
					const int n = (int)sim::param(3);
					for (int k = 0; k < n; k++) {
						const int id = (int)sim::add(S_ID, 1);
						if (sim::flip()) a.append(small{id});
						else a.prepend(small{id});
					}
				});
		}
		const size_t total = a.size() + b->size();
		const payload p{0, 0};
		const size_t called = a(0, p) + (*b)(0, p);
		const int n = (int)sim::get(S_ID);
		SIM_CHECK(total == (size_t)(n - drop) && called == total, "moved", "%d slots are connected, but size() says %zu and %zu got called", n - drop, total, called);
		for (int i = 1; i <= n; i++) SIM_CHECK(sim::get(S_DESTROYED + (unsigned)i) == (i > drop), "moved", "slot %d was called %ld times after the move", i, (long)sim::get(S_DESTROYED + (unsigned)i));
		SIM_CHECK(sim::get(S_DESTROYED + 50) == 0, "moved", "a slot of the overwritten signal was called");
		if (sim::flip()) {
			auto& self = *b;
			*b = std::move(self);
			SIM_CHECK(b->size() <= total, "moved", "self assignment");
		}
		// and the moved from signal works on
		const int id = 60;
		sim::set(S_DESTROYED + 60, 0);
		auto hd = a.append(small{id});
		SIM_CHECK(a.owns_handle(hd) && !b->owns_handle(hd), "owns", "owns_handle() is wrong after a move");
		(void)a(0, p);
		SIM_CHECK(sim::get(S_DESTROYED + 60) == 1, "moved", "the moved from signal does not call its slots");
		sim::set(S_ALIVE, 0);
	}
	SIM_CHECK(sim::get(S_TOKENS) == 0, "leak", "%ld callables were not destroyed", (long)sim::get(S_TOKENS));
}
// a whole manager is moved, alone
SIM_SCENARIO(moved_manager, 0.3) {
	{
		mgr_t a;
		int calls[EVENTS]{};
		const int n = (int)sim::param(5);
		int per[EVENTS]{};
		for (int i = 0; i < n; i++) {
			const int ev = (int)sim::param(EVENTS);
			per[ev]++;
			a.append(ev, [&calls, ev, t = token{S_TOKENS}](int, const payload&) { calls[ev] += t.ok(); });
		}
		mgr_t b{std::move(a)};
		mgr_t c;
		c.append(0, [t = token{S_TOKENS}](int, const payload&) { sim::fail("moved", "a slot of an overwritten manager was called"); });
		c = std::move(b);
		for (int ev = 0; ev < EVENTS; ev++) {
			const size_t r = a(ev, 0, {}) + b(ev, 0, {}) + c(ev, 0, {});
			SIM_CHECK(r == (size_t)per[ev] && calls[ev] == per[ev], "moved", "%d slots of a moved manager are connected, %d got called", per[ev], calls[ev]);
		}
		a.append(1, [t = token{S_TOKENS}](int, const payload&) {});
		SIM_CHECK(a(1, 0, {}) == 1, "moved", "a moved from manager does not call its slots");
	}
	SIM_CHECK(sim::get(S_TOKENS) == 0, "leak", "%ld callables were not destroyed", (long)sim::get(S_TOKENS));
}

// handles only affect the signal they belong to
SIM_SCENARIO(two_signals, 0.3) {
	{
		sig_t s[2];
		struct item {
			signal_handle h;
			int of;
			bool live;
		};
		std::vector<item> all;
		int live[2]{};
		const payload p{0, 0};
		const unsigned n = 1 + sim::param(10);
		for (unsigned i = 0; i < n; i++) {
			const int w = (int)sim::param(2);
			switch (sim::param(3)) {
			case 0: {
				auto f = [t = token{S_TOKENS}](int, const payload&) { SIM_CHECK(t.ok(), "callable", "a destroyed callable got called"); };
				all.push_back({sim::flip() ? s[w].append(f) : s[w].prepend(std::move(f)), w, true});
				live[w]++;
				break;
			}
			case 1: {
				if (all.empty()) break;
				auto& it = all[sim::param((unsigned)all.size())];
				const bool r = s[w].remove(it.h);
				if (it.live) SIM_CHECK(r == (it.of == w), "remove", "remove() of a slot of %s signal returned %d", it.of == w ? "this" : "another", r);
				if (it.live && it.of == w) it.live = false, live[w]--;
				SIM_CHECK(it.h.valid() == it.live, "remove", "remove() disconnected a slot of another signal");
				break;
			}
			case 2: {
				const size_t c = s[w](0, p);
				SIM_CHECK(c == (size_t)live[w] && s[w].size() == (size_t)live[w], "count", "an emission called %zu of %d slots", c, live[w]);
				break;
			}
			}
			for (auto& it : all) SIM_CHECK(s[w].owns_handle(it.h) == (it.live && it.of == w), "owns", "owns_handle() is wrong");
		}
		if (sim::flip()) all.clear();
	}
	SIM_CHECK(sim::get(S_TOKENS) == 0, "leak", "%ld callables were not destroyed", (long)sim::get(S_TOKENS));
}

// several signals and any number of handles against a model: exact order, return values, lifetimes
namespace {
	template<class S>
	struct model {
		static constexpr int N = 3;
		struct call {
			int id;
			model* m;
			token t{S_TOKENS};
			void operator()(int, const payload&) {
				SIM_CHECK(t.ok(), "callable", "the callable of slot %d was destroyed while it is called", id);
				m->calling(id);
				SIM_CHECK(t.ok(), "callable", "the callable of slot %d was destroyed while it is called", id);
			}
		};
		struct running { // an emission
			int i;
			std::vector<int> at_start;
			size_t next = 0, calls = 0;
			/// the next slot that has to be called: connected since the start
			int expected(model& m) {
				while (next < at_start.size() && m.where(at_start[next]) != i) next++;
				return next < at_start.size() ? at_start[next] : 0;
			}
		};
		struct held {
			int id; // 0: empty
			signal_handle h;
		};
		struct sheld {
			int id;
			scoped_signal_handle h;
		};
		std::optional<S> s[N];
		std::vector<int> order[N];
		std::vector<running*> emissions;
		bool acting = false; // slots do something when they are called
		std::vector<held> hs;
		std::vector<sheld> scs;
		int next = 0;
		bool gone[MAXID + 1]{}; // disconnected, or its signal was destroyed
		bool orphan[MAXID + 1]{}; // its signal was destroyed or overwritten
		bool removed[MAXID + 1]{}; // by remove()

		int where(int id) {
			for (int i = 0; i < N; i++)
				for (int x : order[i])
					if (x == id) return i;
			return -1;
		}
		void drop(int id) {
			if (const int w = where(id); w >= 0) std::erase(order[w], id);
			gone[id] = true;
		}
		void overwrite(int i) {
			for (int x : order[i]) gone[x] = orphan[x] = true;
			order[i].clear();
		}
		void connect(int i) {
			if (next == MAXID) return;
			const int id = ++next;
			call f{id, this};
			signal_handle h;
			switch (sim::param(3)) {
			case 0: h = s[i]->append(sim::flip() ? std::move(f) : call(f)), order[i].push_back(id); break;
			case 1: h = (*s[i] += std::move(f)), order[i].push_back(id); break;
			case 2: h = s[i]->prepend(std::move(f)), order[i].insert(order[i].begin(), id); break;
			}
			SIM_CHECK(h.valid() && !!h && !!bool(h) && s[i]->owns_handle(h), "handle", "the handle of a new slot is not valid");
			for (int k = (int)sim::param(3); k > 0; k--) {
				if (sim::flip()) hs.push_back({id, h});
				else if (sim::flip()) scs.push_back({id, scoped_signal_handle{h}});
				else hs.push_back({id, std::move(h)}), k = 0, h = {};
			}
		}
		void calling(int id) {
			SIM_CHECK(!emissions.empty(), "order", "slot %d is called, but nothing was emitted", id);
			running& r = *emissions.back();
			const int want = r.expected(*this);
			SIM_CHECK(id == want, "order", "slot %d is called instead of slot %d (order at the start %s)", id, want, str(r.at_start).c_str());
			r.next++, r.calls++;
			if (!acting || !sim::biased(2, 0.4)) return;
			for (int k = 1 + (int)sim::param(3); k > 0; k--) act(r, id);
		}
		void act(running& r, int id) {
			const int i = sim::flip() ? r.i : (int)sim::param(N);
			switch (sim::param(6)) {
			case 0: connect(i); break;
			case 1:
			case 2: {
				if (hs.empty()) break;
				held x = hs[sim::param((unsigned)hs.size())];
				if (sim::flip()) // itself
					for (auto& y : hs)
						if (y.id == id) x = y;
				if (!x.id || orphan[x.id]) break;
				const int w = where(x.id);
				if (sim::flip()) x.h.disconnect(), drop(x.id);
				else if (w >= 0) {
					const bool ok = s[w]->remove(x.h);
					SIM_CHECK(ok, "remove", "remove() of slot %d returned 0", x.id);
					drop(x.id), removed[x.id] = true;
				}
				break;
			}
			case 3:
				if (scs.empty()) break;
				else {
					auto& x = scs[sim::param((unsigned)scs.size())];
					if (x.id && orphan[x.id]) break;
					x.h.disconnect();
					if (x.id) drop(x.id);
					x.id = 0;
				}
				break;
			default:
				if (emissions.size() < 3) emit(i);
			}
			check();
		}
		void emit(int i) {
			const payload p{0, 7};
			running r{i, order[i]};
			emissions.push_back(&r);
			const size_t n = (*s[i])(0, p);
			emissions.pop_back();
			const int left = r.expected(*this);
			SIM_CHECK(left == 0, "order", "slot %d was not called (order at the start %s)", left, str(r.at_start).c_str());
			SIM_CHECK(n == r.calls, "count", "an emission that called %zu slots returned %zu", r.calls, n);
		}
		static std::string str(const std::vector<int>& v) {
			std::string r;
			for (int x : v) r += std::to_string(x) + ' ';
			return r;
		}
		void check() {
			for (int i = 0; i < N; i++)
				SIM_CHECK(s[i]->size() == order[i].size() && s[i]->empty() == order[i].empty(), "size", "size() is %zu with %zu connected slots", s[i]->size(), order[i].size());
			for (auto& x : hs) {
				const int w = x.id ? where(x.id) : -1;
				if (!x.id || !orphan[x.id]) SIM_CHECK(x.h.valid() == (w >= 0) && !x.h == (w < 0) && bool(x.h) == (w >= 0), "valid", "valid() of a handle of slot %d is wrong", x.id);
				for (int i = 0; i < N; i++) SIM_CHECK(s[i]->owns_handle(x.h) == (w == i), "owns", "owns_handle() of slot %d is wrong", x.id);
			}
			for (auto& x : scs) {
				const int w = x.id ? where(x.id) : -1;
				if (!x.id || !orphan[x.id]) SIM_CHECK(x.h.valid() == (w >= 0) && !x.h == (w < 0) && bool(x.h) == (w >= 0), "valid", "valid() of a scoped handle of slot %d is wrong", x.id);
			}
		}
		/// callables of disconnected slots go away once no handle refers to one and an emission passed by
		void check_released() {
			size_t live = 0;
			bool kept[MAXID + 1]{};
			auto look = [&](int id) {
				if (id && orphan[id] && !kept[id]) kept[id] = true, live++; // kept by its handle alone
				return !id || !gone[id] || orphan[id];
			};
			for (auto& x : hs)
				if (!look(x.id)) return;
			for (auto& x : scs)
				if (!look(x.id)) return;
			acting = false;
			for (int i = 0; i < N; i++) emit(i);
			for (auto& o : order) live += o.size();
			SIM_CHECK((size_t)sim::get(S_TOKENS) == live, "released", "%zu slots are connected or have a handle, but %ld callables are alive", live, (long)sim::get(S_TOKENS));
		}
		void op() {
			const int i = (int)sim::param(N);
			switch (sim::param(14)) {
			case 0:
			case 1:
			case 2: connect(i); break;
			case 3:
				acting = sim::flip();
				emit(i);
				acting = false;
				break;
			case 4: { // remove with any handle from any signal
				if (hs.empty()) break;
				auto& x = hs[sim::param((unsigned)hs.size())];
				const int w = x.id ? where(x.id) : -1;
				if (w == i && sim::flip()) {
					*s[i] -= x.h;
				} else {
					const bool r = s[i]->remove(x.h);
					// a slot disconnected otherwise may still be around
					if (w >= 0 || !x.id || removed[x.id] || orphan[x.id]) SIM_CHECK(r == (w == i), "remove", "remove() of slot %d returned %d", x.id, r);
				}
				if (w == i) drop(x.id), removed[x.id] = true;
				break;
			}
			case 5: {
				if (hs.empty()) break;
				auto& x = hs[sim::param((unsigned)hs.size())];
				if (x.id && orphan[x.id]) break;
				x.h.disconnect();
				if (x.id) drop(x.id);
				x.id = 0;
				break;
			}
			case 6: { // copies and moves of handles
				if (hs.empty()) break;
				auto& a = hs[sim::param((unsigned)hs.size())];
				auto& b = hs[sim::param((unsigned)hs.size())];
				if (sim::flip()) {
					auto& r = a;
					a.h = r.h, a.h = b.h, a.id = b.id;
				} else if (&a != &b) {
					a.h = std::move(b.h), a.id = b.id, b.id = 0;
					SIM_CHECK(!b.h, "handle", "a moved from handle is valid");
				}
				break;
			}
			case 7: { // comparisons
				if (hs.empty()) break;
				auto& a = hs[sim::param((unsigned)hs.size())];
				auto& b = hs[sim::param((unsigned)hs.size())];
				const bool same = a.id == b.id;
				SIM_CHECK((a.h == b.h) == same && (a.h != b.h) != same && ((a.h <=> b.h) == 0) == same, "compare", "comparison of handles of slots %d and %d", a.id, b.id);
				SIM_CHECK(((a.h <=> b.h) < 0) == ((b.h <=> a.h) > 0), "compare", "handles of slots %d and %d are not ordered consistently", a.id, b.id);
				if (scs.empty()) break;
				auto& c = scs[sim::param((unsigned)scs.size())];
				auto& d = scs[sim::param((unsigned)scs.size())];
				const bool same2 = c.id == d.id;
				SIM_CHECK((c.h == d.h) == same2 && (c.h != d.h) != same2 && ((c.h <=> d.h) == 0) == same2, "compare", "comparison of scoped handles of slots %d and %d", c.id, d.id);
				SIM_CHECK(((c.h <=> d.h) < 0) == ((d.h <=> c.h) > 0), "compare", "scoped handles of slots %d and %d are not ordered consistently", c.id, d.id);
				const signal_handle& cr = c.h;
				SIM_CHECK((cr == a.h) == (c.id == a.id), "compare", "the handle inside a scoped one differs");
				break;
			}
			case 8: { // scoped handles
				if (scs.empty()) break;
				const size_t k = sim::param((unsigned)scs.size());
				auto& x = scs[k];
				auto ends = [&](int id) {
					if (id) drop(id);
				};
				switch (sim::param(6)) {
				case 0: x.h.release(), x.id = 0; break;
				case 1: {
					if (x.id && orphan[x.id]) break;
					x.h.disconnect(), ends(x.id), x.id = 0;
					break;
				}
				case 2: {
					auto& y = scs[sim::param((unsigned)scs.size())];
					if (&x == &y) {
						auto& r = x.h;
						x.h = std::move(r); // keeps everything
						break;
					}
					x.h = std::move(y.h), ends(x.id), x.id = y.id, y.id = 0;
					SIM_CHECK(!y.h, "scoped", "a moved from scoped handle is valid");
					break;
				}
				case 3: {
					scoped_signal_handle t{std::move(x.h)};
					SIM_CHECK(!x.h.valid(), "scoped", "a moved from scoped handle is valid");
					ends(x.id), x.id = 0;
					break;
				}
				case 4: {
					if (x.id) ends(x.id);
					auto gone = std::move(scs[k]);
					scs.erase(scs.begin() + (long)k);
					break;
				}
				case 5: {
					const int w = x.id ? where(x.id) : -1;
					signal_handle& h = x.h;
					const bool r = s[i]->remove(h);
					if (w >= 0 || !x.id) SIM_CHECK(r == (w == i), "remove", "remove() with a scoped handle of slot %d returned %d", x.id, r);
					if (w == i) drop(x.id), removed[x.id] = true;
					break;
				}
				}
				break;
			}
			case 9: {
				if (hs.empty()) break;
				if (sim::flip()) hs.erase(hs.begin() + (long)sim::param((unsigned)hs.size()));
				else {
					const signal_handle none;
					SIM_CHECK(!none.valid() && !s[i]->owns_handle(none) && !s[i]->remove(none), "empty", "an empty handle refers to something");
				}
				break;
			}
			case 10:
			case 11: { // moves
				const int j = (int)sim::param(N);
				if (i == j) {
					auto& self = *s[i];
					S& r = (*s[i] = std::move(self));
					SIM_CHECK(&r == &self, "assign", "the assignment returned another signal");
					break;
				}
				if (sim::flip()) {
					overwrite(i);
					S& r = (*s[i] = std::move(*s[j]));
					SIM_CHECK(&r == &*s[i], "assign", "the assignment returned another signal");
				} else {
					overwrite(i);
					s[i].reset();
					s[i].emplace(std::move(*s[j]));
				}
				order[i].swap(order[j]);
				break;
			}
			case 12: {
				overwrite(i);
				s[i].reset();
				s[i].emplace();
				break;
			}
			case 13: check_released(); break;
			}
		}
		void run() {
			for (auto& x : s) x.emplace();
			const unsigned n = 1 + sim::param(20);
			for (unsigned k = 0; k < n; k++) {
				op();
				check();
			}
			for (int i = 0; i < N; i++) emit(i);
			if (sim::flip()) {
				// dropping the plain handles changes nothing
				hs.clear();
				check();
				for (auto& x : scs)
					if (x.id && !orphan[x.id]) drop(x.id);
				scs.clear();
				check();
				check_released();
			}
			for (auto& x : s) x.reset();
		}
	};
	template<class S>
	void run_model() {
		{
			model<S> m;
			m.run();
		}
		SIM_CHECK(sim::get(S_TOKENS) == 0, "leak", "%ld callables were not destroyed", (long)sim::get(S_TOKENS));
	}

	// the same for managers
	struct mgr_model {
		static constexpr int N = 2;
		using M = asyncpp::signal_manager<std::string, void(int, const payload&)>;
		struct ev_t {
			std::vector<int> order;
			bool exists = false; // has an entry in the manager
		};
		struct held {
			int id;
			signal_handle h;
		};
		std::optional<M> m[N];
		ev_t ev[N][EVENTS];
		std::vector<int> called;
		std::vector<held> hs;
		bool orphan[MAXID + 1]{};
		int next = 0;
		static std::string name(int e) { return std::string(1 + (size_t)e * 20, 'e'); }
		bool find(int id, int& a, int& b) {
			for (a = 0; a < N; a++)
				for (b = 0; b < EVENTS; b++)
					for (int x : ev[a][b].order)
						if (x == id) return true;
			return false;
		}
		void overwrite(int i) {
			for (auto& e : ev[i]) {
				for (int x : e.order) orphan[x] = true;
				e = {};
			}
		}
		void emit(int i, int e) {
			called.clear();
			const payload p{0, 7};
			const size_t n = sim::flip() ? (*m[i])(name(e), 0, p) : m[i]->invoke(name(e), 0, p);
			SIM_CHECK(n == ev[i][e].order.size(), "count", "an emission with %zu connected slots returned %zu", ev[i][e].order.size(), n);
			SIM_CHECK(called == ev[i][e].order, "order", "the slots of an event were not called in their order");
		}
		void op() {
			const int i = (int)sim::param(N), e = (int)sim::param(EVENTS);
			switch (sim::param(9)) {
			case 0:
			case 1:
			case 2: {
				if (next == MAXID) break;
				const int id = ++next;
				auto f = [this, id, t = token{S_TOKENS}](int, const payload&) {
					SIM_CHECK(t.ok(), "callable", "the callable of slot %d was destroyed while it is called", id);
					called.push_back(id);
				};
				auto& o = ev[i][e].order;
				signal_handle h;
				if (sim::flip()) h = m[i]->append(name(e), f), o.push_back(id);
				else h = m[i]->prepend(name(e), std::move(f)), o.insert(o.begin(), id);
				ev[i][e].exists = true;
				SIM_CHECK(h.valid(), "handle", "the handle of a new slot is not valid");
				hs.push_back({id, std::move(h)});
				break;
			}
			case 3: emit(i, e); break;
			case 4:
			case 5: {
				if (hs.empty()) break;
				const size_t k = sim::param((unsigned)hs.size());
				auto& x = hs[k];
				int a, b;
				const bool live = find(x.id, a, b);
				const int ri = live && sim::flip() ? a : i, re = live && sim::flip() ? b : e;
				if (sim::flip()) {
					const bool r = m[ri]->remove(name(re), x.h);
					SIM_CHECK(r == (live && a == ri && b == re), "remove", "remove() of slot %d returned %d", x.id, r);
					if (r) std::erase(ev[a][b].order, x.id);
				} else {
					if (live) std::erase(ev[a][b].order, x.id);
					x.h.disconnect();
					hs.erase(hs.begin() + (long)k);
				}
				break;
			}
			case 6: {
				size_t n = 0;
				for (auto& v : ev[i])
					if (v.exists && v.order.empty()) n++, v.exists = false;
				const size_t r = m[i]->shrink_to_fit();
				SIM_CHECK(r == n, "shrink", "shrink_to_fit() dropped %zu of %zu unused events", r, n);
				break;
			}
			case 7: {
				const int j = (int)sim::param(N);
				if (i == j) {
					auto& self = *m[i];
					M& r = (*m[i] = std::move(self));
					SIM_CHECK(&r == &self, "assign", "the assignment returned another manager");
					break;
				}
				overwrite(i);
				if (sim::flip()) {
					M& r = (*m[i] = std::move(*m[j]));
					SIM_CHECK(&r == &*m[i], "assign", "the assignment returned another manager");
				} else {
					m[i].reset();
					m[i].emplace(std::move(*m[j]));
				}
				for (int k = 0; k < EVENTS; k++) std::swap(ev[i][k], ev[j][k]);
				break;
			}
			case 8: {
				const signal_handle none;
				SIM_CHECK(!m[i]->remove(name(e), none) && !m[i]->owns_handle(name(e), none), "empty", "an empty handle refers to something");
				break;
			}
			}
			for (auto& x : hs) {
				int a, b;
				const bool live = find(x.id, a, b);
				if (!orphan[x.id]) SIM_CHECK(x.h.valid() == live, "valid", "valid() of a handle of slot %d is wrong", x.id);
				for (int k = 0; k < N; k++)
					for (int l = 0; l < EVENTS; l++) SIM_CHECK(m[k]->owns_handle(name(l), x.h) == (live && a == k && b == l), "owns", "owns_handle() of slot %d is wrong", x.id);
			}
		}
		void run() {
			for (auto& x : m) x.emplace();
			const unsigned n = 1 + sim::param(20);
			for (unsigned k = 0; k < n; k++) op();
			for (int i = 0; i < N; i++)
				for (int e = 0; e < EVENTS; e++) emit(i, e);
			hs.clear();
			// disconnected slots are released in an emission at the latest, and overwritten managers released theirs
			for (int i = 0; i < N; i++)
				for (int e = 0; e < EVENTS; e++) emit(i, e);
			size_t live = 0;
			for (auto& a : ev)
				for (auto& b : a) live += b.order.size();
			SIM_CHECK((size_t)sim::get(S_TOKENS) == live, "released", "%zu slots are connected, but %ld callables are alive", live, (long)sim::get(S_TOKENS));
		}
	};
} // namespace
SIM_SCENARIO(model_mt, 1.5) { run_model<sig_t>(); }
SIM_SCENARIO(model_st, 0.5) { run_model<sig_st>(); }
SIM_SCENARIO(model_manager, 0.5) {
	{
		mgr_model m;
		m.run();
	}
	SIM_CHECK(sim::get(S_TOKENS) == 0, "leak", "%ld callables were not destroyed", (long)sim::get(S_TOKENS));
}

// a manager is moved while slots are connected, disconnected and called
SIM_SCENARIO(manager_moves, 0.7) {
	{
		mgr_t a;
		std::optional<mgr_t> b;
		const bool construct = sim::flip();
		struct nosy { // its destructor uses the manager
			mgr_t* m;
			token t{S_TOKENS};
			nosy(mgr_t* mm) : m(mm) {}
			nosy(nosy&&) noexcept = default;
			~nosy() {
				if (t.heap && sim::get(S_ALIVE)) (void)m->owns_handle(0, signal_handle{});
			}
			void operator()(int e, const payload&) { SIM_CHECK(e != 1, "moved", "a slot of an overwritten manager was called"); }
		};
		if (!construct) {
			b.emplace();
			if (sim::flip()) b->append((int)sim::param(2), nosy{&*b}); // goes away in the assignment
		}
		sim::set(S_ALIVE, 1);
		auto f = [](int id) {
			return [id, t = token{S_TOKENS}](int e, const payload&) {
				SIM_CHECK(t.ok(), "callable", "the callable of slot %d was destroyed while it is called", id);
				if (e == 1) sim::add(S_DESTROYED + (unsigned)id, 1); // calls
			};
		};
		const int n0 = (int)sim::param(3);
		for (int i = 0; i < n0; i++) a.append(0, f((int)sim::add(S_ID, 1)));
		{
			threads t;
			t.go([&] {
				if (construct) b.emplace(std::move(a));
				else *b = std::move(a);
			});
			const int nt = 1 + (int)sim::param(2);
			for (int i = 0; i < nt; i++)
				t.go([&] {
					const int n = (int)sim::param(3);
					for (int k = 0; k < n; k++) {
						const int ev = (int)sim::param(2);
						switch (sim::param(5)) {
						case 4:
							if (!construct) (void)(*b)(ev, 0, payload{0, 0});
							break;
						case 0: a.append(ev, f((int)sim::add(S_ID, 1))); break;
						case 1: a.prepend(ev, f((int)sim::add(S_ID, 1))); break;
						case 2: (void)a(ev, 0, payload{0, 0}); break;
						case 3: (void)a.shrink_to_fit(); break;
						}
					}
				});
		}
		const payload p{0, 0};
		size_t called = 0;
		for (int ev = 0; ev < 2; ev++) called += a(ev, 1, p) + (*b)(ev, 1, p);
		const int n = (int)sim::get(S_ID);
		SIM_CHECK(called == (size_t)n, "moved", "%d slots are connected to the two managers, %zu got called", n, called);
		for (int i = 1; i <= n; i++) SIM_CHECK(sim::get(S_DESTROYED + (unsigned)i) == 1, "moved", "slot %d was called %ld times after the move", i, (long)sim::get(S_DESTROYED + (unsigned)i));
		sim::set(S_ALIVE, 0);
	}
	SIM_CHECK(sim::get(S_TOKENS) == 0, "leak", "%ld callables were not destroyed", (long)sim::get(S_TOKENS));
}
