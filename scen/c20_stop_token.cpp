#include "common.h"
#include <asyncpp/stop_token.h>
#include <atomic>
#include <optional>
using namespace h;
using asyncpp::stop_source;
using asyncpp::stop_token;

namespace {
	enum { S_TOKENS = 1, S_ID, S_TRUE, S_DEPTH = 20, S_CALLS = 100, S_STATE = 400 };
	enum { K_CTOR_B = K_USER, K_CTOR_E, K_DTOR_B, K_DTOR_E, K_CALL_B, K_CALL_E, K_REQ_B, K_REQ_E, K_SEEN };
	constexpr int MAXCB = 80;
	constexpr int BOX = 4;

	struct shared;
	void in_callback(shared& s, int id);
	struct callback {
		shared* s;
		int id;
		int data = 0; // written by the callback, read by whoever destroyed it
		int* result;
		token t{S_TOKENS};
		callback(shared& sh, int i, int* r) : s(&sh), id(i), result(r) {}
		callback(callback&&) = default;
		void operator()();
	};
	struct entry {
		int id;
		int result = 0;
		std::optional<asyncpp::stop_callback<callback>> cb;
	};
	struct shared {
		stop_source src;
		int prepared[8]{}; // prepared[tid] is written by a thread before it requests the stop
		std::atomic<entry*> box[BOX]{}; // callbacks anyone may destroy
	};
	void callback::operator()() {
		sim::log(K_CALL_B, id);
		SIM_CHECK(sim::add(S_CALLS + (unsigned)id, 1) == 1, "twice", "callback %d ran twice", id);
		auto* sh = s;
		const int me = id;
		int* const res = result;
		(*res)++;
		data++;
		// what the requester did before its request is visible
		const auto req = sim::get(S_TRUE);
		if (req > 0) SIM_CHECK(sh->prepared[req - 1] == 1, "visible", "the requester's writes are not visible in callback %d", me);
		SIM_CHECK(t.ok(), "callable", "callback %d was destroyed before it ran", me);
		in_callback(*sh, me); // might destroy *this
		sim::log(K_CALL_E, me);
	}
	void destroy(entry* e) {
		const int id = e->id;
		sim::log(K_DTOR_B, id);
		e->cb.reset();
		sim::log(K_DTOR_E, id);
		// the callback is not running any more, unless it is this thread that runs it
		SIM_CHECK(e->result <= 1, "twice", "callback %d ran twice", id);
		delete e;
	}
	entry* make(shared& s, const stop_token& tok) {
		const int id = (int)sim::add(S_ID, 1);
		if (id > MAXCB) return nullptr;
		auto* e = new entry{id};
		sim::log(K_CTOR_B, id);
		if (sim::flip()) e->cb.emplace(tok, callback{s, id, &e->result});
		else e->cb.emplace(stop_token{tok}, callback{s, id, &e->result});
		sim::set(S_STATE + (unsigned)id, (int64_t)(intptr_t)e);
		sim::log(K_CTOR_E, id);
		return e;
	}
	void request(shared& s, const stop_source& src) {
		const int me = sim::self();
		if (me >= 8) return;
		if (!s.prepared[me]) s.prepared[me] = 1; // only ever written by this thread
		sim::log(K_REQ_B);
		const bool ok = src.request_stop();
		if (ok) sim::set(S_TRUE, me + 1);
		sim::log(K_REQ_E, ok);
		SIM_CHECK(src.stop_requested() && src.get_token().stop_requested() && src.get_token().stop_possible(), "requested", "a stop is not reported after request_stop()");
	}
	void look(shared& s, const stop_token& t) {
		if (t.stop_requested()) {
			sim::log(K_SEEN);
			// what the requester did before its request is visible
			if (const auto req = sim::get(S_TRUE)) SIM_CHECK(s.prepared[req - 1] == 1, "visible", "the requester's writes are not visible");
			SIM_CHECK(t.stop_requested() && t.stop_possible() && s.src.stop_requested(), "requested", "a reported stop request vanished");
		}
	}
	void step(shared& s, bool may_request, int depth) {
		switch (sim::param(7)) {
		case 0:
		case 1: {
			auto tok = s.src.get_token();
			entry* e = make(s, tok);
			if (!e) break;
			const unsigned where = sim::param(BOX + 1);
			if (where == BOX) { // keep it for a moment only
				if (sim::flip()) step(s, false, depth + 1);
				destroy(e);
				break;
			}
			if (auto* old = s.box[where].exchange(e)) destroy(old);
			break;
		}
		case 2:
		case 3:
			if (auto* old = s.box[sim::param(BOX)].exchange(nullptr)) destroy(old);
			break;
		case 4:
			if (may_request) {
				if (sim::flip()) request(s, s.src);
				else {
					stop_source copy{s.src};
					request(s, copy);
				}
			}
			break;
		case 5: look(s, s.src.get_token()); break;
		case 6: {
			// sources and tokens come and go
			stop_source a{s.src}, b{asyncpp::nostopstate};
			if (sim::flip()) b = a;
			else b = std::move(a);
			stop_token t = b.get_token(), u;
			u = std::move(t);
			look(s, u);
			if (sim::flip()) a = stop_source{};
			SIM_CHECK(b == s.src && u == b.get_token(), "compare", "a copied source or token belongs to another state");
			break;
		}
		}
	}
	void in_callback(shared& s, int id) {
		const unsigned d = S_DEPTH + (unsigned)sim::self();
		if (sim::add(d, 1) <= 2) {
			if (sim::biased(2, 0.3)) { // destroys itself (if it still can)
				for (auto& b : s.box) {
					auto* e = b.load();
					// only a pointer to itself can not be freed by others meanwhile
					if (e && sim::get(S_STATE + (unsigned)id) == (int64_t)(intptr_t)e && b.compare_exchange_strong(e, nullptr)) {
						destroy(e);
						break;
					}
				}
			}
			const unsigned n = sim::biased(3, 0.4);
			for (unsigned i = 0; i < n; i++) step(s, true, 1);
		}
		sim::add(d, -1);
	}
	struct rec {
		uint64_t cb = 0, ce = 0, db = 0, de = 0, rb = 0, re = 0;
		int ctid = -1, dtid = -1, rtid = -1;
	};
	void check() {
		sim::quiet q;
		std::vector<rec> v(MAXCB + 1);
		int trues = 0, calls = 0;
		uint64_t req_b = 0, req_e = 0;
		int requester = -1;
		const size_t n = sim::log_size();
		std::vector<std::pair<int, uint64_t>> stack; // nested requests of a thread
		for (size_t i = 0; i < n; i++) {
			auto& e = sim::log_at(i);
			rec* r = e.kind <= K_CALL_E ? &v[(size_t)e.a] : nullptr;
			switch (e.kind) {
			case K_CTOR_B: r->cb = e.seq, r->ctid = e.tid; break;
			case K_CTOR_E: r->ce = e.seq; break;
			case K_DTOR_B: r->db = e.seq, r->dtid = e.tid; break;
			case K_DTOR_E: r->de = e.seq; break;
			case K_CALL_B: r->rb = e.seq, r->rtid = e.tid; break;
			case K_CALL_E: r->re = e.seq; break;
			case K_REQ_B: stack.emplace_back(e.tid, e.seq); break;
			case K_REQ_E: {
				calls++;
				for (size_t k = stack.size(); k-- > 0;)
					if (stack[k].first == e.tid) {
						if (e.a) trues++, req_b = stack[k].second, req_e = e.seq, requester = e.tid;
						stack.erase(stack.begin() + (long)k);
						break;
					}
				break;
			}
			default: break;
			}
		}
		SIM_CHECK(trues == (calls ? 1 : 0), "once", "%d of %d requests returned true", trues, calls);
		const bool seq = sim::sequential();
		for (int i = 1; i <= MAXCB; i++) {
			auto& r = v[(size_t)i];
			if (!r.ce) continue;
			if (!r.rb) {
				// allowed if no stop was requested before its destruction began, or it ended before the request returned
				const bool fine = !trues || r.db < req_e;
				SIM_CHECK(fine || (!seq && r.ctid != requester), "lost", "callback %d never ran", i);
				continue;
			}
			SIM_CHECK(trues, "spurious", "callback %d ran without a stop request", i);
			const bool in_ctor = r.rb > r.cb && r.rb < r.ce && r.rtid == r.ctid;
			SIM_CHECK(in_ctor || (r.rtid == requester && r.rb > req_b && r.rb < req_e), "thread", "callback %d ran neither in its constructor nor in the requesting call", i);
			SIM_CHECK(r.rb > req_b, "early", "callback %d ran before the request", i);
			SIM_CHECK(r.rb < r.de, "late", "callback %d ran after its destruction", i);
			if (r.dtid != r.rtid) SIM_CHECK(r.re && r.re < r.de, "wait", "callback %d was destroyed while it runs", i);
			if (r.ce < req_b && (seq || r.ctid == requester)) SIM_CHECK(r.rtid == requester, "thread", "callback %d ran in another than the requesting thread", i);
		}
	}
} // namespace

SIM_SCENARIO(concurrent, 3) {
	{
		auto s = std::make_unique<shared>();
		stop_token last;
		{
			threads t;
			const int n = 2 + (int)sim::param(3);
			for (int i = 0; i < n; i++)
				t.go([&s] {
					const unsigned n = 1 + sim::param(5);
					for (unsigned k = 0; k < n; k++) step(*s, true, 0);
				});
		}
		for (auto& b : s->box) // the threads are gone, and so is every running callback
			if (auto* e = b.exchange(nullptr)) destroy(e);
		last = s->src.get_token();
		SIM_CHECK(last.stop_possible(), "possible", "stop_possible() is false while a source is left");
		const bool requested = last.stop_requested();
		s.reset();
		SIM_CHECK(last.stop_requested() == requested && last.stop_possible() == requested, "possible", "stop_possible() is %d without any source", last.stop_possible());
		check();
	}
	SIM_CHECK(sim::get(S_TOKENS) == 0, "leak", "%ld callbacks were not destroyed", (long)sim::get(S_TOKENS));
}

// one thread requests, others register and unregister: the hot spots of the protocol in isolation
SIM_SCENARIO(deregister, 2) {
	{
		auto s = std::make_unique<shared>();
		{
			threads t;
			const int n = 1 + (int)sim::param(3);
			t.go([&s] { request(*s, s->src); });
			for (int i = 0; i < n; i++)
				t.go([&s] {
					const unsigned n = 1 + sim::param(3);
					std::vector<entry*> mine;
					for (unsigned k = 0; k < n; k++)
						if (auto* e = make(*s, s->src.get_token())) mine.push_back(e);
					while (!mine.empty()) {
						const auto k = sim::param((unsigned)mine.size());
						destroy(mine[k]);
						mine.erase(mine.begin() + k);
					}
				});
		}
		for (auto& b : s->box)
			if (auto* e = b.exchange(nullptr)) destroy(e);
		check();
	}
	SIM_CHECK(sim::get(S_TOKENS) == 0, "leak", "%ld callbacks were not destroyed", (long)sim::get(S_TOKENS));
}

// state owned only by a callback, dropped from all sides at once
SIM_SCENARIO(ownership, 1) {
	{
		stop_source src;
		const int n = 1 + (int)sim::param(3);
		threads t;
		for (int i = 0; i < n; i++) {
			const int how = (int)sim::param(4);
			t.go([how, src = how & 1 ? src : stop_source{asyncpp::nostopstate}, tok = src.get_token()]() mutable {
				if (how & 2) {
					auto f = [t = token{S_TOKENS}] { sim::add(S_CALLS, 1); };
					asyncpp::stop_callback<decltype(f)> cb{std::move(tok), std::move(f)};
					if (how & 1) {
						const bool first = src.request_stop();
						if (first) sim::add(S_TRUE, 1);
						SIM_CHECK(src.stop_requested(), "requested", "no stop is reported after request_stop()");
					}
					src = stop_source{asyncpp::nostopstate};
					sim::point();
				} else if (sim::flip()) tok = stop_token{};
				(void)tok.stop_requested();
			});
		}
		src = stop_source{asyncpp::nostopstate};
	}
	SIM_CHECK(sim::get(S_TRUE) <= 1, "once", "%ld requests returned true", (long)sim::get(S_TRUE));
	SIM_CHECK(sim::get(S_TOKENS) == 0, "leak", "%ld callbacks were not destroyed", (long)sim::get(S_TOKENS));
}

// tokens without any source left, while callbacks go away
SIM_SCENARIO(no_source, 0.5) {
	{
		stop_source src;
		threads t;
		const int n = 1 + (int)sim::param(2);
		for (int i = 0; i < n; i++)
			t.go([tok = src.get_token()]() mutable {
				auto f = [t = token{S_TOKENS}] { sim::fail("spurious", "a callback ran without a stop request"); };
				asyncpp::stop_callback<decltype(f)> cb{std::move(tok), std::move(f)};
			});
		t.go([tok = src.get_token()]() mutable {
			const unsigned n = 1 + sim::param(3);
			for (unsigned k = 0; k < n; k++) {
				const bool gone = sim::get(S_TRUE);
				const bool possible = tok.stop_possible();
				SIM_CHECK(!gone || !possible || !sim::sequential(), "possible", "stop_possible() is true without any source");
				SIM_CHECK(!tok.stop_requested(), "spurious", "a stop is reported, but nobody requested it");
			}
		});
		t.go([src = std::move(src)]() mutable {
			stop_source copy{src};
			{ auto a = std::move(src); }
			SIM_CHECK(copy.get_token().stop_possible(), "possible", "stop_possible() is false while a source is left");
			if (sim::flip()) copy = stop_source{};
			else { auto b = std::move(copy); }
			sim::set(S_TRUE, 1);
		});
	}
	SIM_CHECK(sim::get(S_TOKENS) == 0, "leak", "%ld callbacks were not destroyed", (long)sim::get(S_TOKENS));
}

// very many handles of one state
SIM_SCENARIO(many, 0.05) {
	{
		const size_t n = (size_t)many();
		std::optional<stop_source> src{std::in_place};
		auto f = [t = token{S_TOKENS}] { sim::add(S_CALLS, 1); };
		stop_token last = src->get_token();
		asyncpp::stop_callback<decltype(f)> cb{last, std::move(f)};
		std::vector<stop_source> s;
		std::vector<stop_token> t;
		s.reserve(n), t.reserve(n);
		const bool sources = sim::flip();
		if (sources)
			while (s.size() < n) s.push_back(*src);
		else
			while (t.size() < n) t.push_back(last);
		SIM_CHECK(last.stop_possible() && !last.stop_requested() && src->stop_possible(), "possible", "wrong state with %zu handles", n);
		const unsigned how = sim::param(3);
		if (how == 0) {
			SIM_CHECK(src->request_stop() && sim::get(S_CALLS) == 1, "once", "the stop request did not run the callback");
		}
		if (how == 1) { // the last source goes away
			src.reset();
			s.clear();
			SIM_CHECK(!last.stop_possible(), "possible", "stop_possible() is true without any source");
		}
		if (how == 2 && sources) {
			src.reset();
			while (s.size() > 1) {
				s.pop_back();
				SIM_CHECK(last.stop_possible() && !last.stop_requested(), "possible", "stop_possible() is false with %zu sources left", s.size());
			}
			SIM_CHECK(s[0].request_stop() && sim::get(S_CALLS) == 1, "once", "the stop request did not run the callback");
		}
		s.clear();
		t.clear();
		SIM_CHECK(last.stop_requested() == (sim::get(S_CALLS) == 1), "requested", "stop_requested() is %d", last.stop_requested());
	}
	SIM_CHECK(sim::get(S_TOKENS) == 0, "leak", "%ld callbacks were not destroyed", (long)sim::get(S_TOKENS));
}

// all operations of one thread against a model
SIM_SCENARIO(alone, 1) {
	struct model {
		int sources = 0;
		bool requested = false;
	};
	{
		std::vector<model> st;
		struct msrc {
			stop_source s{asyncpp::nostopstate};
			int of = -1;
		} src[3];
		struct mtok {
			stop_token t;
			int of = -1;
		} tok[3];
		struct mcb {
			int of, calls = 0;
		};
		auto body = [](mcb* m) {
			return [m, t = token{S_TOKENS}] { m->calls++; };
		};
		using cb_t = asyncpp::stop_callback<decltype(body(nullptr))>;
		struct holder {
			mcb m;
			bool ran;
			std::optional<cb_t> cb;
		};
		std::vector<std::unique_ptr<holder>> cbs;
		auto drop = [&](msrc& m) {
			if (m.of >= 0) st[(size_t)m.of].sources--;
			m.of = -1;
		};
		auto take = [&](msrc& m, int of) {
			m.of = of;
			if (of >= 0) st[(size_t)of].sources++;
		};
		const unsigned n = 1 + sim::param(16);
		for (unsigned k = 0; k < n; k++) {
			auto& a = src[sim::param(3)];
			auto& b = src[sim::param(3)];
			auto& t = tok[sim::param(3)];
			auto& u = tok[sim::param(3)];
			switch (sim::param(14)) {
			case 12: { // copy construction, also of sources and tokens without a state
				stop_source c{b.s};
				SIM_CHECK(c == b.s && c.stop_possible() == (b.of >= 0), "compare", "a copied source belongs to another state");
				if (&a != &b) {
					const int of = b.of;
					if (sim::flip()) a.s = c;
					else a.s = std::move(c);
					drop(a), take(a, of);
				}
				stop_token d{u.t};
				SIM_CHECK(d == u.t, "compare", "a copied token belongs to another state");
				if (sim::flip()) t.t = d;
				else t.t = std::move(d);
				t.of = u.of;
				break;
			}
			case 13: { // assignment and exchange with itself
				auto& same = *&a.s;
				if (sim::flip()) a.s = same;
				else if (sim::flip()) a.s = std::move(same);
				else a.s.swap(same);
				auto& self = *&t.t;
				if (sim::flip()) t.t = self;
				else if (sim::flip()) t.t = std::move(self);
				else t.t.swap(self);
				break;
			}
			case 0:
				a.s = stop_source{};
				drop(a);
				st.push_back({});
				take(a, (int)st.size() - 1);
				break;
			case 1: {
				const int of = b.of;
				a.s = b.s;
				if (&a != &b) drop(a), take(a, of);
				break;
			}
			case 2: {
				if (&a == &b) break;
				const int of = b.of;
				a.s = std::move(b.s);
				drop(a), drop(b), take(a, of);
				break;
			}
			case 3:
				if (sim::flip()) a.s.swap(b.s);
				else swap(a.s, b.s);
				std::swap(a.of, b.of);
				break;
			case 4: {
				const bool r = a.s.request_stop();
				const bool want = a.of >= 0 && !st[(size_t)a.of].requested;
				SIM_CHECK(r == want, "once", "request_stop() returned %d", r);
				if (a.of >= 0) st[(size_t)a.of].requested = true;
				for (auto& c : cbs)
					if (c->m.of == a.of && a.of >= 0) c->ran = true;
				break;
			}
			case 5: t.t = a.s.get_token(), t.of = a.of; break;
			case 6: t.t = u.t, t.of = u.of; break;
			case 7:
				if (&t == &u) break;
				t.t = std::move(u.t);
				t.of = u.of, u.of = -1;
				u.t = stop_token{};
				break;
			case 8:
				if (sim::flip()) t.t.swap(u.t);
				else swap(t.t, u.t);
				std::swap(t.of, u.of);
				break;
			case 9: a.s = stop_source{asyncpp::nostopstate}, drop(a); break;
			case 10: {
				auto h = std::make_unique<holder>();
				const bool dead = t.of >= 0 && !st[(size_t)t.of].requested && st[(size_t)t.of].sources == 0;
				h->m.of = dead ? -1 : t.of;
				h->ran = t.of >= 0 && st[(size_t)t.of].requested;
				if (sim::flip()) h->cb.emplace(t.t, body(&h->m));
				else { // the token moves into the callback
					h->cb.emplace(std::move(t.t), body(&h->m));
					t.t = stop_token{};
					t.of = -1;
				}
				cbs.push_back(std::move(h));
				break;
			}
			case 11:
				if (!cbs.empty()) cbs.erase(cbs.begin() + sim::param((unsigned)cbs.size()));
				break;
			}
			for (auto& m : src) {
				SIM_CHECK(m.s.stop_possible() == (m.of >= 0), "possible", "stop_possible() of a source is %d", m.s.stop_possible());
				SIM_CHECK(m.s.stop_requested() == (m.of >= 0 && st[(size_t)m.of].requested), "requested", "stop_requested() of a source is %d", m.s.stop_requested());
				for (auto& o : src) SIM_CHECK((m.s == o.s) == (m.of == o.of), "compare", "comparison of sources is wrong");
			}
			for (auto& m : tok) {
				SIM_CHECK(m.t.stop_requested() == (m.of >= 0 && st[(size_t)m.of].requested), "requested", "stop_requested() of a token is %d", m.t.stop_requested());
				SIM_CHECK(m.t.stop_possible() == (m.of >= 0 && (st[(size_t)m.of].requested || st[(size_t)m.of].sources > 0)), "possible", "stop_possible() of a token is %d", m.t.stop_possible());
				for (auto& o : tok) SIM_CHECK((m.t == o.t) == (m.of == o.of), "compare", "comparison of tokens is wrong");
			}
			for (auto& c : cbs) SIM_CHECK(c->m.calls == c->ran, "calls", "a callback ran %d times", c->m.calls);
		}
	}
	SIM_CHECK(sim::get(S_TOKENS) == 0, "leak", "%ld callbacks were not destroyed", (long)sim::get(S_TOKENS));
}



// crowd: very many callbacks of one state
SIM_SCENARIO(crowd, 0.05) {
	const int n = many() % 512;
	{
		stop_source src;
		auto make = [](int i) {
			return [i, t = token{S_TOKENS}] { sim::add(100 + (unsigned)i, 1); };
		};
		using cb = asyncpp::stop_callback<decltype(make(0))>;
		std::vector<std::unique_ptr<cb>> cbs((size_t)n);
		const int cut = (int)sim::param((unsigned)n + 1), gone = (int)sim::param((unsigned)n + 1);
		const bool racing = sim::flip();
		auto reg = [&](int a, int b) {
			for (int i = a; i < b; i++) cbs[(size_t)i] = std::make_unique<cb>(src.get_token(), make(i));
		};
		{
			threads t;
			t.go([&] { reg(0, cut); });
			if (racing) t.go([&] { SIM_CHECK(src.request_stop(), "winner", "the only request_stop() returned false"); });
			reg(cut, n);
		}
		const unsigned step = 1 + sim::param(5);
		for (int i = 0; i < gone; i += (int)step) cbs[(size_t)i].reset();
		if (!racing) SIM_CHECK(src.request_stop(), "winner", "the only request_stop() returned false");
		for (int i = 0; i < n; i++) {
			const bool destroyed = !cbs[(size_t)i] && !racing;
			SIM_CHECK(sim::get(100 + (unsigned)i) == !destroyed, "once", "callback %d of %d (%s) ran %ld times", i, n, destroyed ? "destroyed before the request" : "registered", (long)sim::get(100 + (unsigned)i));
		}
		SIM_CHECK(!src.request_stop(), "winner", "a second request_stop() returned true");
	}
	SIM_CHECK(sim::get(S_TOKENS) == 0, "leak", "%ld callbacks were not destroyed", (long)sim::get(S_TOKENS));
}
