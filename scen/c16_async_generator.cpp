#include "common.h"
#include <optional>
#include <asyncpp/async_generator.h>
#include <asyncpp/defer.h>
#include <asyncpp/sync_wait.h>
#include <asyncpp/task.h>
using namespace h;

namespace {
	enum { S_NEXT = 1, S_TOKENS, S_OUT, S_CONSUMERS, S_MADE = 100, S_ENTERED = 200, S_LEFT = 300, S_ASKED = 400 };
	struct boom {
		int id;
	};
	struct world {
		std::unique_ptr<worker> w[2];
		world() {
			w[0] = std::make_unique<worker>();
			w[1] = std::make_unique<worker>(true);
		}
		void stop() {
			for (auto& x : w) x->stop();
		}
	};
	struct item {
		int gen, no;
		std::unique_ptr<int> heap;
		token t{S_TOKENS};
		item(int g, int n) : gen(g), no(n), heap(new int(g * 1000 + n)) {}
		item(item&&) = default;
		item& operator=(item&&) = default;
		bool ok() const { return heap && *heap == gen * 1000 + no && t.ok(); }
	};
	struct hop {
		world& w;
		bool await_ready() const noexcept { return false; }
		bool await_suspend(coroutine_handle<> hd) {
			const unsigned k = sim::param(4);
			if (k == 3) return false;
			w.w[k & 1]->push([hd] { hd.resume(); });
			if (k == 2) sim::point();
			return true;
		}
		void await_resume() const noexcept {}
	};
	struct frame {
		int id;
		token t{S_TOKENS};
		explicit frame(int i) : id(i) { SIM_CHECK(sim::add(S_ENTERED + (unsigned)i, 1) == 1, "ran-twice", "the body of generator %d was entered twice", i); }
		~frame() { SIM_CHECK(sim::add(S_LEFT + (unsigned)id, 1) == 1, "left-twice", "the locals of generator %d were destroyed twice", id); }
	};
	/// elements are made only when they are asked for
	void made(int id, int no) {
		sim::add(S_MADE + (unsigned)id, 1);
		SIM_CHECK(sim::get(S_ASKED + (unsigned)id) == no, "demand", "generator %d works on element %d although only %ld were asked for", id, no, (long)sim::get(S_ASKED + (unsigned)id));
	}

	struct plan {
		int n;
		bool fails; // throws after n elements
	};
	plan make_plan() { return {(int)sim::param(5), (bool)sim::biased(2, 0.25)}; }
	using gen = asyncpp::async_generator<item>;
	using cgen = asyncpp::async_generator<const int>;

	gen numbers(world& w, int id, plan p, token param) {
		frame f{id};
		for (int i = 1; i <= p.n; i++) {
			const unsigned hops = sim::param(3);
			for (unsigned k = 0; k < hops; k++) co_await hop{w};
			made(id, i);
			SIM_CHECK(param.ok() && f.t.ok(), "frame", "parameters or locals of a generator are gone");
			if (sim::flip()) {
				co_yield item{id, i};
			} else {
				item x{id, i};
				co_yield x;
				SIM_CHECK(x.ok(), "frame", "a yielded local was destroyed");
			}
		}
		if (sim::flip()) co_await hop{w};
		made(id, p.n + 1);
		if (p.fails) throw boom{id};
	}
	/// passes on what another generator yields
	gen relay(world& w, int id, gen inner, int inner_id, token param) {
		frame f{id};
		int i = 0;
		sim::add(S_ASKED + (unsigned)inner_id, 1);
		for (auto it = co_await inner.begin(); it != inner.end();) {
			i++;
			SIM_CHECK((*it).ok() && (*it).no == i && (*it).gen == inner_id, "value", "element %d of the inner generator is wrong", i);
			made(id, i);
			co_yield item{id, i};
			if (sim::flip()) co_await hop{w};
			SIM_CHECK((*it).ok(), "frame", "a yielded element was destroyed before the next one was asked for");
			sim::add(S_ASKED + (unsigned)inner_id, 1);
			co_await ++it;
		}
		made(id, i + 1);
		SIM_CHECK(param.ok() && f.t.ok(), "frame", "parameters or locals of a generator are gone");
	}
	struct source {
		gen g;
		int id;
		plan p;
		int inner_id = 0;
	};
	source make(world& w) {
		const int id = (int)sim::add(S_NEXT, 1);
		const plan p = make_plan();
		if (sim::biased(2, 0.25)) {
			const int in = (int)sim::add(S_NEXT, 1);
			return {relay(w, id, numbers(w, in, p, token{S_TOKENS}), in, token{S_TOKENS}), id, p, in};
		}
		return {numbers(w, id, p, token{S_TOKENS}), id, p};
	}
	asyncpp::task<> consume(world& w) {
		source s = make(w);
		SIM_CHECK(sim::get(S_ENTERED + (unsigned)s.id) == 0, "demand", "a generator started before it was iterated");
		const unsigned drop_at = sim::param(7); // 0: never started; larger than the length: to the end
		if (drop_at == 0) co_return;
		const bool move = sim::flip();
		if (move) {
			gen other;
			if (sim::flip()) other = std::move(s.g);
			else swap(other, s.g);
			// an empty generator yields nothing
			auto it = co_await s.g.begin();
			SIM_CHECK(it == s.g.end(), "empty", "a generator without a coroutine yielded something");
			s.g = std::move(other);
		}
		if (sim::flip()) co_await hop{w};
		int got = 0;
		bool threw = false, ended = false;
		try {
			sim::add(S_ASKED + (unsigned)s.id, 1);
			auto it = co_await s.g.begin();
			while (it != s.g.end()) {
				got++;
				SIM_CHECK(got <= s.p.n, "extra", "generator %d yielded more than %d elements", s.id, s.p.n);
				item& x = *it;
				SIM_CHECK(x.ok() && x.no == got && x.gen == s.id, "value", "element %d arrived as element %d of generator %d", got, x.no, x.gen);
				SIM_CHECK(sim::get(S_MADE + (unsigned)s.id) == got, "demand", "generator %d went on without being asked", s.id);
				if (sim::biased(2, 0.3)) {
					gen moved = std::move(s.g);
					co_await hop{w};
					s.g = std::move(moved);
				} else if (sim::flip()) co_await hop{w};
				SIM_CHECK(x.ok(), "value", "element %d was destroyed while the consumer used it", got);
				SIM_CHECK(sim::get(S_MADE + (unsigned)s.id) == got, "demand", "generator %d went on without being asked", s.id);
				if (sim::flip()) { item taken = std::move(x); x = item{s.id, got}; }
				if ((unsigned)got == drop_at) {
					if (sim::flip()) s.g = gen{};
					co_return; // dropped while suspended at this element
				}
				sim::add(S_ASKED + (unsigned)s.id, 1);
				try {
					auto& r = co_await ++it;
					SIM_CHECK(&r == &it, "iterator", "the increment returned another iterator");
				} catch (...) {
					SIM_CHECK(it == s.g.end() && !(it != s.g.end()), "end", "the iteration is not over after generator %d failed", s.id);
					throw;
				}
			}
			ended = true;
		} catch (const boom& b) {
			threw = true;
			SIM_CHECK(b.id == (s.inner_id ? s.inner_id : s.id), "exception", "the exception of another generator arrived");
		}
		SIM_CHECK(got == s.p.n, "missing", "generator %d yielded %d of %d elements", s.id, got, s.p.n);
		SIM_CHECK(threw == s.p.fails, "outcome", "generator %d %s", s.id, threw ? "threw out of nowhere" : "swallowed an exception");
		SIM_CHECK(ended == !threw, "outcome", "both");
		SIM_CHECK(sim::get(S_LEFT + (unsigned)s.id) == 1, "end", "the body of generator %d is not done", s.id);
	}
	void clean(world& w) {
		w.stop();
		SIM_CHECK(sim::get(S_TOKENS) == 0, "leak", "%ld parameters, locals or elements were not destroyed", (long)sim::get(S_TOKENS));
		for (unsigned i = 1; i <= (unsigned)sim::get(S_NEXT); i++)
			SIM_CHECK(sim::get(S_ENTERED + i) == sim::get(S_LEFT + i), "lost", "the locals of generator %u were not destroyed", i);
	}
} // namespace

SIM_SCENARIO(iterate, 3) {
	world w;
	const int n = 1 + (int)sim::param(3);
	for (int i = 0; i < n; i++)
		[](world& w) -> co {
			co_await consume(w);
			sim::add(S_OUT, 1);
			sim::release();
		}(w);
	sim::await_acquire([n] { return sim::get(S_OUT) == n; }, "the consumer of a generator continues");
	clean(w);
}
// the consumer threads hand the generator to each other
SIM_SCENARIO(threads, 1) {
	world w;
	const int n = 1 + (int)sim::param(2);
	{
		threads t;
		for (int i = 0; i < n; i++) t.go([&] { asyncpp::as_promise(consume(w)).get(); });
	}
	clean(w);
}
// const and scalar elements; arbitrary drop points
SIM_SCENARIO(scalars, 1) {
	world w;
	auto body = [](world& w, int n) -> cgen {
		int sum = 0;
		for (int i = 0; i < n; i++) {
			if (sim::flip()) co_await hop{w};
			sum += i;
			co_yield sum;
		}
	};
	[](world& w, cgen g, int n, int stop) -> co {
		int sum = 0, i = 0;
		for (auto it = co_await g.begin(); it != g.end(); co_await ++it) {
			sum += i;
			SIM_CHECK(*it == sum && i < n, "value", "element %d is %d instead of %d", i, *it, sum);
			i++;
			if (i == stop) break;
			if (sim::flip()) co_await hop{w};
		}
		SIM_CHECK(i == n || i == stop, "missing", "%d of %d elements arrived", i, n);
		sim::set(S_OUT, 1);
		sim::release();
	}(w, body(w, 4), 4, (int)sim::param(6));
	sim::await_acquire([] { return sim::get(S_OUT) == 1; }, "the consumer of a generator continues");
	clean(w);
}
namespace {
	/// A generator shared by several coroutines that take turns advancing its iterator
	struct shared_gen {
		world& w;
		source s;
		std::optional<gen::iterator> it;
		int got = 0;
		bool iterating = false;
		token t{S_TOKENS};
	};
	void over(const std::shared_ptr<shared_gen>& sh, bool threw) {
		const source& s = sh->s;
		SIM_CHECK(sh->got == s.p.n, "missing", "generator %d yielded %d of %d elements", s.id, sh->got, s.p.n);
		SIM_CHECK(threw == s.p.fails, "outcome", "generator %d %s", s.id, threw ? "threw out of nowhere" : "swallowed an exception");
		SIM_CHECK(sim::get(S_LEFT + (unsigned)s.id) == 1, "end", "the body of generator %d is not done", s.id);
		sim::add(S_OUT, 1);
		sim::release();
	}
	co leg(std::shared_ptr<shared_gen> sh, token t) {
		world& w = sh->w;
		source& s = sh->s;
		const int turns = 1 + (int)sim::param(2);
		for (int i = 0; i < turns; i++) {
			if (sim::flip()) co_await hop{w};
			SIM_CHECK(!sh->iterating, "wrong-consumer", "a coroutine that does not iterate generator %d right now was resumed", s.id);
			sh->iterating = true;
			sim::add(S_ASKED + (unsigned)s.id, 1);
			bool threw = false;
			try {
				if (!sh->it) sh->it = co_await s.g.begin();
				else co_await ++*sh->it;
			} catch (const boom&) { threw = true; }
			SIM_CHECK(sh->iterating, "wrong-consumer", "a coroutine was resumed twice for an element of generator %d", s.id);
			sh->iterating = false;
			if (threw && sh->it) SIM_CHECK(*sh->it == s.g.end(), "end", "the iteration is not over after generator %d failed", s.id);
			if (threw || *sh->it == s.g.end()) {
				over(sh, threw);
				co_return;
			}
			sh->got++;
			item& x = **sh->it;
			SIM_CHECK(x.ok() && x.no == sh->got && x.gen == s.id, "value", "element %d arrived as element %d of generator %d", sh->got, x.no, x.gen);
		}
		SIM_CHECK(t.ok(), "frame", "a consumer is gone");
		// the next one takes over: from here or from another thread, while this one waits, goes on or ends
		switch (sim::param(3)) {
		case 0: leg(sh, token{S_TOKENS}); break;
		case 1: w.w[sim::param(2)]->push([sh] { leg(sh, token{S_TOKENS}); }); break;
		case 2: co_await hop{w}; leg(sh, token{S_TOKENS}); break;
		}
		SIM_CHECK(t.ok(), "frame", "a consumer is gone");
	}
} // namespace
// the iterator is handed from one coroutine to the next one
SIM_SCENARIO(handover, 2) {
	world w;
	const int n = 1 + (int)sim::param(2);
	for (int i = 0; i < n; i++) leg(std::make_shared<shared_gen>(w, make(w)), token{S_TOKENS});
	sim::await_acquire([n] { return sim::get(S_OUT) == n; }, "the consumer of a generator continues");
	clean(w);
}
// elements are references to what the body yields
SIM_SCENARIO(references, 1) {
	world w;
	auto body = [](world& w, int n) -> asyncpp::async_generator<item> {
		item x{0, 0};
		for (int i = 1; i <= n; i++) {
			if (sim::flip()) co_await hop{w};
			SIM_CHECK(x.no == (i == 1 ? 0 : -(i - 1)), "reference", "the consumer changed something else");
			x = item{7, i};
			co_yield x;
		}
	};
	[](world& w, asyncpp::async_generator<item> g, int n, int stop) -> co {
		int i = 0;
		for (auto it = co_await g.begin(); it != g.end(); co_await ++it) {
			i++;
			SIM_CHECK((*it).ok() && (*it).no == i && i <= n, "value", "element %d is wrong", i);
			if (sim::flip()) co_await hop{w};
			(*it).no = -i;
			if (i == stop) break;
		}
		SIM_CHECK(i == n || i == stop, "missing", "%d of %d elements arrived", i, n);
		sim::set(S_OUT, 1);
		sim::release();
	}(w, body(w, 4), 4, (int)sim::param(6));
	sim::await_acquire([] { return sim::get(S_OUT) == 1; }, "the consumer of a generator continues");
	clean(w);
}

namespace {
	enum { S_GONE = 601 /* + body */ };
	struct vars {
		static constexpr int V = 4;
		using G = asyncpp::async_generator<int>;
		struct body {
			int n = 0, got = 0; // elements it has, elements taken
			int inner = 0; // generator that its parameters hold
			bool fails = false, over = false;
			std::optional<G::iterator> it;
		};
		G g[V];
		int who[V]{}; // body of each variable, 0: none
		body b[64];
		int last = 0;
	};
	struct witness {
		vars* v;
		int id;
		token t{S_TOKENS};
		witness(vars* vv, int i) : v(vv), id(i) {}
		witness(const witness&) = delete;
		~witness() { sim::add(S_GONE + (unsigned)id, 1); }
	};
	vars::G body_of(vars& v, int id, vars::G inner, vars::G** out) {
		witness w{&v, id};
		if (out) *out = &inner;
		for (int i = 1; i <= v.b[id].n; i++) co_yield id * 100 + i;
		if (v.b[id].fails) throw boom{id};
	}
	co take(vars& v, int i) {
		const int id = v.who[i];
		auto& b = v.b[id];
		bool threw = false;
		if (!id) {
			auto it = co_await v.g[i].begin();
			SIM_CHECK(it == v.g[i].end(), "end", "an empty generator yields something");
			co_return;
		}
		try {
			if (!b.it) b.it = co_await v.g[i].begin();
			else co_await ++*b.it;
		} catch (const boom& e) { threw = true; }
		if (b.got == b.n) {
			SIM_CHECK(threw == b.fails, "outcome", "generator %d %s", id, threw ? "threw out of nowhere" : "swallowed an exception");
			SIM_CHECK(threw ? !b.it || *b.it == v.g[i].end() : *b.it == v.g[i].end(), "end", "generator %d does not end", id);
			b.over = true;
			co_return;
		}
		SIM_CHECK(!threw && *b.it != v.g[i].end(), "missing", "generator %d ended after %d of %d elements", id, b.got, b.n);
		b.got++;
		SIM_CHECK(**b.it == id * 100 + b.got, "value", "element %d of generator %d is %d", b.got, id, **b.it);
	}
} // namespace
// which body a variable holds, after any sequence of moves, swaps and replacements
SIM_SCENARIO(moves, 1) {
	{
		auto st = std::make_unique<vars>();
		vars& v = *st;
		int alive = 0;
		auto fresh = [&](bool nested, int inner_of, vars::G** out) {
			const int id = ++v.last;
			v.b[id].n = (int)sim::param(4);
			v.b[id].fails = sim::biased(2, 0.3);
			vars::G in;
			if (nested && inner_of >= 0) in = std::move(v.g[inner_of]), v.b[id].inner = std::exchange(v.who[inner_of], 0);
			alive++;
			return std::pair{body_of(v, id, std::move(in), out), id};
		};
		const unsigned n = 1 + sim::param(24);
		for (unsigned k = 0; k < n && v.last < 60; k++) {
			const int i = (int)sim::param(vars::V), j = (int)sim::param(vars::V);
			using std::swap;
			switch (sim::param(8)) {
			case 0: {
				auto [g, id] = fresh(false, -1, nullptr);
				v.g[i] = std::move(g);
				v.who[i] = id;
				break;
			}
			case 1:
				if (i == j) break;
				v.g[i] = std::move(v.g[j]);
				v.who[i] = std::exchange(v.who[j], 0);
				break;
			case 2:
				if (sim::flip()) swap(v.g[i], v.g[j]);
				else v.g[i].swap(v.g[j]);
				swap(v.who[i], v.who[j]);
				break;
			case 3: v.g[i] = vars::G{}, v.who[i] = 0; break;
			case 4: {
				vars::G tmp{std::move(v.g[i])};
				const int id = std::exchange(v.who[i], 0);
				if (sim::flip()) break; // dropped
				v.g[j] = std::move(tmp);
				v.who[j] = id;
				break;
			}
			case 5: { // replaced by a generator that only lives inside the replaced one
				if (!v.who[j] || i == j) break;
				vars::G* in = nullptr;
				const int inner = v.who[j];
				{
					auto [g, id] = fresh(true, j, &in);
					v.g[i] = std::move(g);
					v.who[i] = id;
				}
				if (v.b[v.last].n == 0) break; // its parameters are only reachable while it is suspended
				take(v, i);
				v.g[i] = std::move(*in);
				v.b[v.last].inner = 0;
				v.who[i] = inner;
				break;
			}
			default:
				if (!v.b[v.who[i]].over) take(v, i);
			}
			bool held[64]{};
			for (int id : v.who)
				for (; id; id = v.b[id].inner) held[id] = true;
			for (int id = 1; id <= v.last; id++) {
				const bool started = v.b[id].it.has_value() || v.b[id].over;
				const bool gone = started && (!held[id] || v.b[id].over);
				SIM_CHECK(sim::get(S_GONE + (unsigned)id) == gone, "frame", gone ? "generator %d is not destroyed although it was replaced or ended" : "generator %d was destroyed while it is still held", id);
			}
		}
	}
	SIM_CHECK(sim::get(S_TOKENS) == 0, "leak", "%ld locals of generators were not destroyed", (long)sim::get(S_TOKENS));
}



// crowd: a long sequence, at once or with a few suspensions
namespace {
	asyncpp::async_generator<int> count_to(world& w, int n, int every) {
		token t{S_TOKENS};
		for (int i = 0; i < n; i++) {
			if (every && i % every == every - 1) co_await hop{w};
			co_yield i;
		}
	}
	co count_all(world& w, int n, int every, int hops) {
		{
			auto g = count_to(w, n, every);
			int i = 0;
			for (auto it = co_await g.begin(); it != g.end(); co_await ++it) {
				SIM_CHECK(*it == i, "sequence", "element %d of a long sequence is %d", i, *it);
				i++;
				if (hops && i % hops == 0) co_await hop{w};
			}
			SIM_CHECK(i == n, "sequence", "a sequence of %d elements ended after %d", n, i);
		}
		sim::add(S_OUT, 1);
		sim::release();
	}
} // namespace
SIM_SCENARIO(crowd, 0.05) {
	world w;
	const int n = many() % 512;
	count_all(w, n, sim::flip() ? 1 + (int)sim::param(40) : 0, sim::flip() ? 1 + (int)sim::param(40) : 0);
	sim::await_acquire([] { return sim::get(S_OUT) == 1; }, "a long sequence ends");
	w.stop();
	SIM_CHECK(sim::get(S_TOKENS) == 0, "leak", "%ld locals alive at the end", (long)sim::get(S_TOKENS));
}

#ifdef SIM_DEEP
// optimised build: the stack does not grow with the length of the sequence
SIM_SCENARIO(deep, 1) {
	sim::limits(600'000'000'000LL, 4000, 20'000'000);
	world w;
	const unsigned every = sim::param(3), hops = sim::param(3);
	const int n = 20'000;
	count_all(w, n, every ? (every == 1 ? 7'000 : 5'001) : 0, hops ? (hops == 1 ? 8'000 : 4'999) : 0);
	sim::await_acquire([] { return sim::get(S_OUT) == 1; }, "a long sequence ends");
	w.stop();
	SIM_CHECK(sim::get(S_TOKENS) == 0, "leak", "%ld locals alive at the end", (long)sim::get(S_TOKENS));
}
#endif
