#include "common.h"
#include <asyncpp/thread_pool.h>
#include <system_error>
using namespace h;

namespace {
	enum { S_NEXT = 1, S_FUNCTORS, S_DATA, S_BLOCK, S_EXEC, S_TID = 200, S_RUN = 300 };
	enum { K_PUSH_B = K_USER, K_PUSH_E, K_RUN, K_RS_B, K_RS_E };
	constexpr int MAXTASK = 60;

	struct world {
		asyncpp::thread_pool* pool[2]{};
		int data[MAXTASK + 1]{};
		bool may_refuse = false; // pool 0 may be without threads
		int budget = 20;         // bound on children
		bool check_threads = true;
	};

	struct task {
		world* w;
		int id, pool;
		int depth;
		bool last_words; // pushes from its destructor
		token t{S_FUNCTORS};
		task(world* ww, int i, int p, int d, bool lw) : w(ww), id(i), pool(p), depth(d), last_words(lw) {}
		task(const task&) = default;
		task(task&& o) noexcept : w(o.w), id(o.id), pool(o.pool), depth(o.depth), last_words(std::exchange(o.last_words, false)), t(std::move(o.t)) {}
		~task();
		void operator()();
	};

	/// returns the task id, 0 if refused
	int push(world& w, int pool, int depth) {
		const int id = (int)sim::add(S_NEXT, 1);
		if (id >= MAXTASK) return 0;
		w.data[id] = id * 3;
		const bool lw = sim::biased(2, 0.15);
		sim::log(K_PUSH_B, id, pool);
		try {
			auto t = std::make_shared<task>(&w, id, pool, depth, lw);
			w.pool[pool]->push([t = std::move(t)] { (*t)(); });
		} catch (const std::runtime_error&) {
			sim::log(K_PUSH_E, id, 0);
			return 0;
		}
		sim::log(K_PUSH_E, id, 1);
		return id;
	}

	task::~task() {
		if (last_words && depth > 0 && t.heap && sim::get(S_RUN + (unsigned)id)) {
			// the callable is destroyed after it ran: on a thread of the pool
			push(*w, pool, 0);
		}
	}
	void task::operator()() {
		SIM_CHECK(t.ok(), "functor", "a task ran after its callable was destroyed");
		struct guard {
			guard() { sim::add(S_EXEC, 1); }
			~guard() { sim::add(S_EXEC, -1); }
		} g;
		SIM_CHECK(sim::add(S_RUN + (unsigned)id, 1) == 1, "run-twice", "task %d ran twice", id);
		SIM_CHECK(w->data[id] == id * 3, "visibility", "data written before push() is not visible to the task");
		SIM_CHECK(dispatcher::current() == w->pool[pool], "current", "dispatcher::current() is not the pool the task was pushed to");
		const int tid = sim::self();
		if (w->check_threads) {
			const int64_t owner = sim::get(S_TID + (unsigned)tid);
			SIM_CHECK(owner == 0 || owner == pool + 1, "wrong-thread", "task %d of pool %d ran on thread t%d, which belongs to %s", id, pool, tid, owner == 9 ? "the caller" : "the other pool");
			sim::set(S_TID + (unsigned)tid, pool + 1);
		}
		sim::log(K_RUN, id, pool);
		const unsigned act = sim::param(6);
		if (act == 1) sim::sleep(ms((int64_t)sim::param(4)) * 40);
		if ((act == 2 || act == 3) && depth > 0) {
			const int n = 1 + (int)sim::param(2);
			for (int i = 0; i < n; i++) {
				const int other = pool == 0 && w->pool[1] && sim::flip() ? 1 : pool;
				const int c = push(*w, other, depth - 1);
				if (!c && sim::get(S_NEXT) < MAXTASK) SIM_CHECK(other == 0 && w->may_refuse, "refused", "push() from a task was refused although the pool has threads");
			}
		}
		if (act == 4 && depth > 0 && pool == 0 && sim::get(S_BLOCK) && sim::add(S_DATA, 1) == 1) {
			// wait for a child: another thread of the pool has to steal it
			const int c = push(*w, pool, 0);
			if (c) {
				SIM_PROBE("blocked on child");
				sim::await([c] { return sim::get(S_RUN + (unsigned)c) == 1; }, "an idle thread of the pool takes over a task queued behind a blocked one");
			}
		}
		if (act == 5) sim::point();
	}

	void outsider() { sim::set(S_TID + (unsigned)sim::self(), 9); }

	struct pushrec { int id, pool; bool ok; uint64_t b, e; };
	std::vector<pushrec> pushes() {
		std::vector<pushrec> v;
		for (size_t i = 0; i < sim::log_size(); i++) {
			auto& x = sim::log_at(i);
			if (x.kind == K_PUSH_B) v.push_back({(int)x.a, (int)x.b, false, x.seq, UINT64_MAX});
			if (x.kind == K_PUSH_E)
				for (auto& p : v)
					if (p.id == x.a) p.ok = x.b, p.e = x.seq;
		}
		return v;
	}

	void check_all_run(bool final) {
		sim::quiet q;
		for (auto& p : pushes()) {
			if (p.e == UINT64_MAX) continue;
			const int64_t n = sim::get(S_RUN + (unsigned)p.id);
			if (p.ok) SIM_CHECK(n == 1, "lost-task", "task %d was accepted by pool %d but ran %ld times%s", p.id, p.pool, (long)n, final ? "" : " although the pool is idle");
			else SIM_CHECK(n == 0, "refused-task-ran", "task %d was refused but ran", p.id);
		}
	}
	bool idle() {
		if (sim::get(S_EXEC)) return false;
		for (int i = 1; i <= (int)sim::get(S_NEXT) && i < MAXTASK; i++)
			if (auto* e = find(K_PUSH_E, i, 1); e && !sim::get(S_RUN + (unsigned)i)) return false;
		return true;
	}

	void run(bool resizing, bool zero, bool two) {
		world w;
		outsider();
		int size0 = (zero ? 0 : 1) + (int)sim::param(3);
		w.may_refuse = zero;
		auto p0 = std::make_unique<asyncpp::thread_pool>((size_t)size0);
		auto p1 = two ? std::make_unique<asyncpp::thread_pool>(1 + (size_t)sim::param(2)) : nullptr;
		w.pool[0] = p0.get();
		w.pool[1] = p1.get();
		const size_t size1 = p1 ? p1->size() : 0;
		SIM_CHECK(p0->size() == (size_t)size0, "size", "size() is %zu after construction with %d", p0->size(), size0);
		sim::set(S_BLOCK, !resizing && size0 >= 2);
		const int npush = 1 + (int)sim::param(3), per = 1 + (int)sim::param(4);
		const int nres = resizing ? 1 + (int)sim::param(2) : 0;
		{
			threads t;
			for (int i = 0; i < npush; i++)
				t.go([&] {
					outsider();
					for (int k = 0; k < per; k++) {
						const int pool = two && sim::biased(2, 0.3) ? 1 : 0;
						const int id = push(w, pool, 2);
						if (!id && sim::get(S_NEXT) < MAXTASK) SIM_CHECK(pool == 0 && w.may_refuse, "refused", "push() was refused although the pool has threads");
						if (sim::biased(2, 0.1)) { // an empty callable is ignored
							try {
								w.pool[pool]->push({});
							} catch (const std::runtime_error&) {
								SIM_CHECK(pool == 0 && w.may_refuse, "refused", "push() of an empty callable was refused although the pool has threads");
							}
						}
						if (sim::biased(2, 0.2)) sim::sleep(ms(30));
					}
				});
			for (int i = 0; i < nres; i++)
				t.go([&, i] {
					outsider();
					const int n = 1 + (int)sim::param(3);
					for (int k = 0; k < n; k++) {
						const size_t to = (zero ? 0 : 1) + sim::param(3);
						sim::log(K_RS_B, i * 10 + k, (int64_t)to);
						p0->resize(to);
						sim::log(K_RS_E, i * 10 + k, (int64_t)to);
						if (nres == 1) SIM_CHECK(p0->size() == to, "size", "size() is %zu after resize(%zu)", p0->size(), to);
						if (sim::flip()) sim::sleep(ms(60));
					}
				});
		}
		// nobody but the pools' own tasks acts now
		if (p0->size() > 0) {
			sim::await([] { return idle(); }, "every accepted task runs", 600'000'000'000LL);
			sim::await([&] { return sim::live_threads() == 1 + (int)p0->size() + (int)size1; }, "the pool has exactly size() threads");
		}
		sim::set(S_BLOCK, 0);
		if (resizing) {
			const size_t last = (zero ? 0 : 1) + sim::param(3);
			for (int k = 0; k < 2 && last < 3; k++) push(w, 0, 1);
			p0->resize(last);
			SIM_CHECK(p0->size() == last, "size", "size() is %zu after resize(%zu)", p0->size(), last);
			SIM_CHECK(sim::live_threads() == 1 + (int)last + (int)size1, "threads", "%d threads of the pool are alive after resize(%zu)", sim::live_threads() - 1 - (int)size1, last);
			if (zero && last == 0) {
				check_all_run(false);
				SIM_CHECK(push(w, 0, 0) == 0 || sim::get(S_NEXT) >= MAXTASK, "accepted", "a pool without threads accepted a task");
				p0->resize(1);
				push(w, 0, 0);
			}
		} else if (sim::flip()) // leave work behind for the destructor
			for (int k = 0; k < 3; k++) push(w, 0, 2);
		p0.reset();
		w.pool[0] = nullptr;
		SIM_CHECK(sim::live_threads() == 1 + (int)size1, "threads", "%d threads of the pool survived its destructor", sim::live_threads() - 1 - (int)size1);
		{
			sim::quiet q;
			for (auto& p : pushes())
				if (p.pool == 0 && p.ok) SIM_CHECK(sim::get(S_RUN + (unsigned)p.id) == 1, "lost-task", "task %d was accepted but the pool was destroyed without running it", p.id);
		}
		p1.reset();
		check_all_run(true);
		SIM_CHECK(sim::get(S_FUNCTORS) == 0, "leaked-callable", "%ld callables alive after the pools are gone", (long)sim::get(S_FUNCTORS));
	}
} // namespace
SIM_SCENARIO(fixed, 2) { run(false, false, false); }
SIM_SCENARIO(two_pools, 2) { run(false, false, true); }
SIM_SCENARIO(resize, 3) { run(true, false, sim::flip()); }
SIM_SCENARIO(resize_zero, 2) { run(true, true, false); }

namespace {
	// a task pushed to an idle pool starts at once, not when some worker looks for work the next time
	void idle_start() {
		world w;
		outsider();
		const int size = 1 + (int)sim::param(3);
		auto p = std::make_unique<asyncpp::thread_pool>((size_t)size);
		w.pool[0] = p.get();
		for (int k = 0; k < 3; k++) {
			sim::sleep(ms(250) + ms(7) * (int64_t)sim::param(20)); // time only advances while everybody is blocked
			const int64_t t0 = sim::now();
			const bool calm = !sim::injected(sim::f_time_jump);
			const int id = push(w, 0, 0);
			sim::await([id] { return sim::get(S_RUN + (unsigned)id) == 1; }, "a task pushed to an idle pool runs");
			if (calm && !sim::injected(sim::f_time_jump)) {
				SIM_PROBE("idle start");
				auto* r = find(K_RUN, id, 0);
				SIM_CHECK(r && r->time - t0 < ms(2), "late", "a task pushed to an idle pool of %d threads started after %.3f s", size, (sim::now() - t0) / 1e9);
			}
			sim::await([] { return idle(); }, "the pool becomes idle again", 600'000'000'000LL);
		}
		p.reset();
		check_all_run(true);
	}
} // namespace
SIM_SCENARIO(idle_start, 0.5) { idle_start(); }



// crowd: very many tasks, many threads
SIM_SCENARIO(crowd, 0.05) {
	const int n = many();
	std::vector<int> ran((size_t)n), seen((size_t)n);
	std::function<void(int)> go; // outlives the pool
	{
		const size_t size = 1 + sim::param(n < 512 ? 12 : 3);
		asyncpp::thread_pool p(size);
		SIM_CHECK(p.size() == size, "size", "size() is %zu after construction with %zu", p.size(), size);
		const bool chained = sim::flip();
		const int busy = (int)sim::param(3);
		go = [&ran, &seen, &go, &p, n, busy, chained](int i) {
			ran[(size_t)i]++;
			if (dispatcher::current() == &p) seen[(size_t)i] = 1;
			if (busy == 1 && i % 50 == 0) sim::sleep(ms(1));
			if (chained && 2 * i + 2 < n)
				for (int k = 1; k <= 2; k++) p.push([&go, c = 2 * i + k] { go(c); });
			if (chained && 2 * i + 2 == n) p.push([&go, c = 2 * i + 1] { go(c); });
		};
		const int resizes = n < 512 && sim::flip() ? 1 + (int)sim::param(4) : 0;
		if (chained) p.push([&] { go(0); });
		else {
			threads t;
			const int cut = (int)sim::param((unsigned)n + 1);
			t.go([&] {
				for (int i = 0; i < cut; i++) p.push([&go, i] { go(i); });
			});
			for (int i = cut; i < n; i++) p.push([&go, i] { go(i); });
		}
		for (int i = 0; i < resizes; i++) {
			const size_t s = 1 + sim::param(4);
			p.resize(s);
			SIM_CHECK(p.size() == s, "size", "size() is %zu after resize(%zu)", p.size(), s);
		}
	}
	for (int i = 0; i < n; i++) SIM_CHECK(ran[(size_t)i] == 1 && seen[(size_t)i], "lost-task", "task %d of %d ran %d times", i, n, ran[(size_t)i]);
}
