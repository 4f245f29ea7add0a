#include "common.h"
#include "linear.h"
#include <asyncpp/threadsafe_queue.h>
#include <array>
#include <list>
using namespace h;
using asyncpp::threadsafe_queue;

namespace {
	enum { S_TOKENS = 1, S_ID, S_OP };
	enum { K_OP_B = K_USER, K_OP_E, K_ITEM };
	enum { O_PUSH, O_EMPLACE, O_POP, O_COPY_ASSIGN, O_MOVE_ASSIGN, O_COPY, O_MOVE };
	constexpr int MAXQ = 3;

	struct item {
		int id;
		token t{S_TOKENS};
		explicit item(int i) : id(i) {}
		item(int a, int b) : id(a * 1000 + b) {}
	};
	struct op {
		int type = 0, q = 0, q2 = 0;
		int64_t val = 0, res = 0;
		uint64_t b = 0, e = 0;
		std::vector<int> items; // contents of a copied or moved queue
	};
	using state = std::array<std::vector<int>, MAXQ>;
	bool apply(state& s, const op& o) {
		auto& q = s[(size_t)o.q];
		switch (o.type) {
		case O_PUSH:
		case O_EMPLACE: q.push_back((int)o.val); return true;
		case O_POP:
			if (q.empty()) return o.res == -1;
			if (o.res != q.front()) return false;
			q.erase(q.begin());
			return true;
		case O_COPY_ASSIGN: q = s[(size_t)o.q2]; return true;
		case O_MOVE_ASSIGN:
			if (o.q != o.q2) {
				q = s[(size_t)o.q2];
				s[(size_t)o.q2].clear();
			}
			return true;
		case O_COPY: return q == o.items;
		case O_MOVE:
			if (q != o.items) return false;
			q.clear();
			return true;
		}
		return false;
	}
	template<class Q>
	int64_t pop(Q& q) {
		auto r = q.pop();
		if (!r) return -1;
		SIM_CHECK(r->t.ok(), "dead", "a popped item was destroyed");
		return r->id;
	}
	template<class Q>
	void step(std::vector<std::unique_ptr<Q>>& qs, bool transfers) {
		const int q = (int)sim::param((unsigned)qs.size());
		const int q2 = (int)sim::param((unsigned)qs.size());
		auto& a = *qs[(size_t)q];
		auto& b = *qs[(size_t)q2];
		const int type = (int)sim::param(transfers ? 8 : 5);
		const int id = (int)sim::add(S_OP, 1);
		auto begin = [&](int t, int64_t v = 0) { sim::log(K_OP_B, id, t | q << 8 | q2 << 16, v); };
		int64_t res = 0;
		switch (type) {
		case 0: {
			item it{(int)sim::add(S_ID, 1)};
			begin(O_PUSH, it.id);
			if (sim::flip()) a.push(it);
			else a.push(std::move(it));
			break;
		}
		case 1: {
			const int v = (int)sim::add(S_ID, 1);
			begin(O_EMPLACE, 1000 + v);
			a.emplace(1, v);
			break;
		}
		case 2:
		case 3:
		case 4:
			begin(O_POP);
			res = pop(a);
			break;
		case 5:
			begin(O_COPY_ASSIGN);
			a = b;
			break;
		case 6:
			begin(O_MOVE_ASSIGN);
			a = std::move(b);
			break;
		case 7: {
			const bool move = sim::flip();
			begin(move ? O_MOVE : O_COPY);
			std::optional<Q> c;
			switch (move ? 2 : sim::param(2)) {
			case 0: c.emplace(a); break;
			case 1: c.emplace(std::as_const(a)); break;
			case 2: c.emplace(std::move(a)); break;
			}
			sim::log(K_OP_E, id, 0);
			for (int64_t i; (i = pop(*c)) != -1;) sim::log(K_ITEM, id, i);
			return;
		}
		}
		sim::log(K_OP_E, id, res);
	}
	template<class Q>
	void run(int nthreads, bool transfers) {
		{
			std::vector<std::unique_ptr<Q>> qs;
			const int nq = transfers ? 1 + (int)sim::param(MAXQ) : 1;
			for (int i = 0; i < nq; i++) qs.push_back(std::make_unique<Q>());
			const int n0 = (int)sim::param(3);
			for (int i = 0; i < n0; i++) step(qs, false);
			{
				threads t;
				for (int i = 0; i < nthreads; i++)
					t.go([&qs, transfers] {
						const unsigned n = 1 + sim::param(5);
						for (unsigned k = 0; k < n; k++) step(qs, transfers);
					});
			}
			if (!nthreads) {
				const unsigned n = 1 + sim::param(14);
				for (unsigned k = 0; k < n; k++) step(qs, transfers);
			}
			// what is left
			for (size_t i = 0; i < qs.size(); i++) {
				for (bool more = true; more;) {
					const int id = (int)sim::add(S_OP, 1);
					sim::log(K_OP_B, id, O_POP | (int64_t)i << 8);
					const auto r = pop(*qs[i]);
					sim::log(K_OP_E, id, r);
					more = r != -1;
				}
			}
		}
		SIM_CHECK(sim::get(S_TOKENS) == 0, "leak", "%ld items were not destroyed", (long)sim::get(S_TOKENS));
		sim::quiet q;
		std::vector<op> ops((size_t)sim::get(S_OP));
		for (size_t i = 0; i < sim::log_size(); i++) {
			auto& e = sim::log_at(i);
			auto& o = ops[(size_t)e.a - 1];
			if (e.kind == K_OP_B) o.type = (int)(e.b & 255), o.q = (int)(e.b >> 8 & 255), o.q2 = (int)(e.b >> 16), o.val = e.c, o.b = e.seq;
			else if (e.kind == K_OP_E) o.res = e.b, o.e = e.seq;
			else o.items.push_back((int)e.b);
		}
		const bool ok = linear::check(
			state{}, ops, apply, [](const op& a, const op& b) { return a.e < b.b; }, [](const op&) { return false; });
		SIM_CHECK(ok, "linearizable", "no order of the %zu operations explains their results", ops.size());
	}
} // namespace

SIM_SCENARIO(fifo, 2) { run<threadsafe_queue<item>>(2 + (int)sim::param(3), false); }
SIM_SCENARIO(transfer, 2) { run<threadsafe_queue<item>>(2 + (int)sim::param(2), true); }
SIM_SCENARIO(list_container, 0.5) { run<threadsafe_queue<item, std::list<item>>>(2, true); }
SIM_SCENARIO(alone, 0.5) { run<threadsafe_queue<item>>(0, true); }

// move-only items through many threads: conservation and order per producer, without limits on the history
SIM_SCENARIO(pipeline, 1) {
	struct cell {
		int producer, seq;
		int data; // plain, checked by the race detector
		token t{S_TOKENS};
	};
	{
		threadsafe_queue<std::unique_ptr<cell>> q;
		const int np = 1 + (int)sim::param(3), nc = 1 + (int)sim::param(2);
		int sent[3]{};
		for (int p = 0; p < np; p++) sent[p] = (int)sim::param(6);
		std::vector<std::vector<std::pair<int, int>>> got((size_t)nc + 1);
		auto consume = [&q](std::vector<std::pair<int, int>>& mine) {
			auto r = q.pop();
			if (!r) return false;
			SIM_CHECK(*r && (*r)->t.ok(), "dead", "a popped item is gone");
			SIM_CHECK((*r)->data == (*r)->seq * 7, "data", "a popped item has other contents");
			mine.emplace_back((*r)->producer, (*r)->seq);
			return true;
		};
		{
			threads t;
			for (int p = 0; p < np; p++)
				t.go([&q, p, n = sent[p]] {
					for (int i = 0; i < n; i++) {
						auto c = std::make_unique<cell>(cell{p, i, 0});
						c->data = i * 7;
						if (sim::flip()) q.push(std::move(c));
						else q.emplace(c.release());
					}
				});
			for (int c = 0; c < nc; c++)
				t.go([&, c] {
					const unsigned n = sim::param(8);
					for (unsigned i = 0; i < n; i++) (void)consume(got[(size_t)c]);
				});
		}
		if (sim::flip()) {
			threadsafe_queue<std::unique_ptr<cell>> other{std::move(q)};
			SIM_CHECK(!q.pop(), "moved", "a moved from queue is not empty");
			q = std::move(other);
		}
		const bool drained = sim::flip();
		if (drained)
			while (consume(got[(size_t)nc])) {}
		else { // the rest is destroyed with the queue
			auto& rest = got[(size_t)nc];
			const unsigned n = sim::param(4);
			for (unsigned i = 0; i < n; i++)
				if (!consume(rest)) break;
			std::vector<bool> seen(3 * 8);
			for (auto& g : got)
				for (auto& x : g) {
					const size_t k = (size_t)(x.first * 8 + x.second);
					SIM_CHECK(!seen[k], "twice", "an item was popped twice");
					seen[k] = true;
				}
		}
		std::vector<int> count(3);
		for (auto& g : got) {
			std::vector<int> last(3, -1);
			for (auto& x : g) {
				SIM_CHECK(x.second > last[(size_t)x.first], "order", "items of one producer were popped in another order");
				last[(size_t)x.first] = x.second;
				count[(size_t)x.first]++;
			}
		}
		for (int p = 0; p < np; p++) SIM_CHECK(drained ? count[(size_t)p] == sent[p] : count[(size_t)p] <= sent[p], "lost", "%d of %d items of a producer were popped", count[(size_t)p], sent[p]);
	}
	SIM_CHECK(sim::get(S_TOKENS) == 0, "leak", "%ld items were not destroyed", (long)sim::get(S_TOKENS));
}



// crowd: very many items
SIM_SCENARIO(crowd, 0.05) {
	const int n = many();
	{
		threadsafe_queue<item> q, r;
		const int cut = (int)sim::param((unsigned)n + 1);
		std::vector<int> got;
		got.reserve((size_t)n);
		const bool racing = sim::flip(), moving = sim::flip();
		{
			threads t;
			t.go([&] {
				for (int i = 0; i < cut; i++) q.push(item(i));
			});
			if (racing)
				t.go([&] {
					for (int k = 0; k < 20 + n / 2; k++)
						if (auto x = q.pop()) got.push_back(x->id);
				});
			for (int i = cut; i < n; i++) q.emplace(i);
		}
		if (moving) {
			r = std::move(q);
			SIM_CHECK(!q.pop(), "moved", "a queue that was moved from still has items");
			threadsafe_queue<item> m(std::move(r));
			r = std::move(m);
		}
		auto& s = moving ? r : q;
		while (auto x = s.pop()) got.push_back(x->id);
		int next[2] = {0, cut};
		for (int id : got) {
			int& e = next[id >= cut];
			SIM_CHECK(e == id, "order", "item %d was popped when %d was expected", id, e);
			e++;
		}
		SIM_CHECK(got.size() == (size_t)n, "lost-item", "%zu of %d items were popped", got.size(), n);
	}
	SIM_CHECK(sim::get(S_TOKENS) == 0, "leak", "%ld items were not destroyed", (long)sim::get(S_TOKENS));
}
