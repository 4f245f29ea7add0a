#include "common.h"
#include <asyncpp/defer.h>
#include <asyncpp/mutex.h>
#include <optional>
using namespace h;
using asyncpp::mutex_lock;

namespace {
	enum { S_INCS = 1, S_DONE, S_ACTIVE, S_EPOCH, S_ACQ };
	enum { K_ACQ = K_USER, K_REL };
	struct state {
		asyncpp::mutex mtx;
		long counter = 0; // protected by mtx
		long last = -1;
		worker* w = nullptr;
		int rounds;
	};

	void enter(state& s, int id) {
		SIM_CHECK(sim::add(S_INCS, 1) == 1, "exclusion", "coroutine %d acquired the mutex while another one holds it", id);
		SIM_CHECK(s.mtx.is_locked(), "locked-state", "the mutex reports unlocked while it is held by %d", id);
		s.counter++;
		s.last = id;
		sim::add(S_ACQ, 1);
	}
	void leave(state& s, int id) {
		SIM_CHECK(s.last == id, "exclusion", "the critical section of %d was entered by another coroutine", id);
		SIM_CHECK(sim::add(S_INCS, -1) == 0, "exclusion", "two holders at unlock");
	}
	void begin_op() {
		sim::add(S_ACTIVE, 1);
		sim::add(S_EPOCH, 1);
	}
	void end_op() {
		sim::add(S_ACTIVE, -1);
		sim::add(S_EPOCH, 1);
	}
	template<class F>
	bool checked_try(F f) {
		bool quiet = sim::get(S_ACTIVE) == 0;
		int64_t ep = sim::add(S_EPOCH, 1);
		sim::add(S_ACTIVE, 1);
		bool r = f();
		if (!r) {
			SIM_CHECK(!(quiet && sim::get(S_EPOCH) == ep), "try-lock", "try_lock failed although the mutex was free");
			end_op();
		}
		return r;
	}

	co user(state& s, int id) {
		for (int r = 0; r < s.rounds; r++) {
			const int op = r;
			const unsigned how = sim::param(6);
			const bool hop = s.w && sim::flip();
			switch (how) {
			default: { // plain lock()
				begin_op();
				co_await traced{s.mtx.lock(), id, op};
				enter(s, id);
				if (hop) co_await asyncpp::defer(s.w);
				sim::point();
				leave(s, id);
				s.mtx.unlock();
				end_op();
				break;
			}
			case 1: {
				begin_op();
				{
					mutex_lock l = co_await traced{s.mtx.lock_scoped(), id, op};
					SIM_CHECK(l.is_locked() && &l.mutex() == &s.mtx, "scoped", "lock_scoped result does not own the mutex");
					enter(s, id);
					if (hop) co_await asyncpp::defer(s.w);
					sim::point();
					mutex_lock l2(std::move(l));
					SIM_CHECK(!l.is_locked() && l2.is_locked(), "scoped", "moving a mutex_lock did not move ownership");
					leave(s, id);
				}
				end_op();
				break;
			}
			case 2: {
				begin_op();
				{
					mutex_lock l(s.mtx);
					SIM_CHECK(!l.is_locked(), "scoped", "a mutex_lock constructed unlocked claims ownership");
					co_await traced{l.lock(), id, op};
					SIM_CHECK(l.is_locked(), "scoped", "mutex_lock::lock() does not own afterwards");
					co_await l.lock(); // already owned: must not suspend
					enter(s, id);
					if (hop) co_await asyncpp::defer(s.w);
					sim::point();
					leave(s, id);
					if (sim::flip()) {
						l.unlock();
						SIM_CHECK(!l.is_locked(), "scoped", "unlock() keeps ownership");
					}
				}
				end_op();
				break;
			}
			case 3: {
				if (checked_try([&] { return s.mtx.try_lock(); })) {
					enter(s, id);
					if (hop) co_await asyncpp::defer(s.w);
					sim::point();
					leave(s, id);
					s.mtx.unlock();
					end_op();
				} else
					SIM_PROBE("try_lock_failed");
				break;
			}
			case 4: {
				mutex_lock l(s.mtx);
				if (checked_try([&] { return l.try_lock(); })) {
					enter(s, id);
					sim::point();
					leave(s, id);
					mutex_lock l2(s.mtx);
					l2 = std::move(l);
					SIM_CHECK(l2.is_locked() && !l.is_locked(), "scoped", "move assignment did not transfer ownership");
					{ mutex_lock l3(std::move(l2)); }
					end_op();
				}
				break;
			}
			case 5: { // exception while holding
				begin_op();
				try {
					mutex_lock l = co_await traced{s.mtx.lock_scoped(), id, op};
					enter(s, id);
					sim::point();
					leave(s, id);
					throw 1;
				} catch (int) { SIM_PROBE("exception_unlock"); }
				end_op();
				break;
			}
			}
		}
		sim::add(S_DONE, 1);
		sim::release();
	}

	void check_fifo(int n, int rounds) {
		for (int a = 0; a < n; a++)
			for (int ra = 0; ra < rounds; ra++) {
				auto ea = find(K_SUSP, a, ra);
				if (!ea || !ea->c) continue;
				for (int b = 0; b < n; b++)
					for (int rb = 0; rb < rounds; rb++) {
						if (a == b) continue;
						auto eb = find(K_SUSP, b, rb);
						if (!eb || !eb->c) continue;
						if (ea->seq < when(K_BEGIN, b, rb)) {
							if (when(K_RESUME, a, ra) > when(K_BEGIN, b, rb)) SIM_PROBE("fifo_pair");
							SIM_CHECK(when(K_RESUME, a, ra) < when(K_RESUME, b, rb), "fifo", "coroutine %d queued before %d but acquired the mutex later", a, b);
						}
					}
			}
		for (int a = 0; a < n; a++)
			for (int ra = 0; ra < rounds; ra++) SIM_CHECK(count(K_RESUME, a, ra) <= 1, "resume-once", "lock wait of %d continued twice", a);
	}

	void finish(state& s, int total, int rounds) {
		sim::await_acquire([&] { return sim::get(S_DONE) == total; }, "every coroutine that awaits the lock acquires it");
		check_fifo(total, rounds);
		SIM_CHECK(!s.mtx.is_locked(), "unlocked-at-end", "mutex is still locked after everybody unlocked");
		SIM_CHECK(s.mtx.try_lock(), "unlocked-at-end", "try_lock fails on an idle mutex");
		SIM_CHECK(s.counter == sim::get(S_ACQ), "lost-update", "the protected counter lost an update: %ld of %ld", s.counter, (long)sim::get(S_ACQ));
		s.mtx.unlock();
	}
} // namespace

// coroutines on several threads, all kinds of acquisition, holders that move to another thread
SIM_SCENARIO(mutex_mix, 3) {
	auto s = std::make_unique<state>();
	std::unique_ptr<worker> w;
	if (sim::flip()) w = std::make_unique<worker>();
	s->w = w.get();
	const int nt = 1 + (int)sim::param(4), per = 1 + (int)sim::param(2);
	s->rounds = 1 + (int)sim::param(3);
	{
		threads t;
		for (int i = 0; i < nt; i++)
			t.go([&, i] {
				for (int k = 0; k < per; k++) user(*s, i * per + k);
			});
	}
	sim::await([&] { return sim::get(S_DONE) == nt * per; }, "every coroutine that awaits the lock acquires it");
	w.reset();
	finish(*s, nt * per, s->rounds);
}

// waiters pile up behind a holder (constructed locked), then it is released: strict order
SIM_SCENARIO(mutex_queue, 1) {
	struct st : state {
		st() {}
	};
	state s;
	const int n = 2 + (int)sim::param(4);
	s.rounds = 1;
	SIM_CHECK(s.mtx.try_lock(), "try-lock", "try_lock fails on a fresh mutex");
	threads t;
	auto body = [&](int id) -> co {
		co_await traced{s.mtx.lock(), id, 0};
		enter(s, id);
		sim::point();
		leave(s, id);
		s.mtx.unlock();
		sim::add(S_DONE, 1);
		sim::release();
	};
	for (int i = 0; i < n; i++) t.go([&, i] { body(i); });
	if (sim::flip()) sim::await([&] { return sim::log_size() >= (size_t)n; }, "started");
	s.mtx.unlock();
	t.join();
	finish(s, n, 1);
}

// a locked-from-construction mutex
SIM_SCENARIO(mutex_construct_locked, 0.5) {
	asyncpp::mutex m(asyncpp::mutex::construct_locked);
	SIM_CHECK(m.is_locked() && !m.try_lock(), "construct-locked", "mutex constructed locked is not locked");
	int got = 0;
	auto body = [&]() -> co {
		auto l = co_await m.lock_scoped();
		got++;
		sim::add(S_DONE, 1);
		sim::release();
	};
	{
		threads t;
		t.go([&] { body(); });
		t.go([&] { body(); });
		t.go([&] { m.unlock(); });
	}
	sim::await_acquire([&] { return sim::get(S_DONE) == 2; }, "waiters of a mutex constructed locked");
	SIM_CHECK(got == 2, "lost-update", "protected counter is %d", got);
	SIM_CHECK(m.try_lock(), "unlocked-at-end", "mutex still locked");
	m.unlock();
}

// a mutex_lock that waits does not own yet
SIM_SCENARIO(mutex_lock_waiting, 0.2) {
	asyncpp::mutex mtx;
	std::optional<mutex_lock> l[2];
	bool got[2]{};
	for (auto& x : l) x.emplace(mtx);
	auto locker = [&](int i) -> co {
		co_await l[i]->lock();
		SIM_CHECK(l[i]->is_locked(), "scoped", "mutex_lock::lock() does not own afterwards");
		got[i] = true;
	};
	SIM_CHECK(mtx.try_lock(), "try-lock", "try_lock fails on a free mutex");
	const int first = (int)sim::param(2), second = 1 - first;
	locker(first);
	const bool both = sim::flip();
	if (both) locker(second);
	for (int i = 0; i < 2; i++) SIM_CHECK(!l[i]->is_locked() && !got[i], "scoped", "a mutex_lock that waits claims ownership");
	mtx.unlock();
	SIM_CHECK(got[first] && l[first]->is_locked() && mtx.is_locked(), "scoped", "the waiting mutex_lock did not get the mutex");
	SIM_CHECK(!got[second] && !l[second]->is_locked(), "scoped", "a mutex_lock that waits claims ownership");
	// moving the owner does not disturb the other one
	std::optional<mutex_lock> m;
	if (sim::flip()) m.emplace(std::move(*l[first]));
	(m ? *m : *l[first]).unlock();
	SIM_CHECK(got[second] == both && l[second]->is_locked() == both && mtx.is_locked() == both, "scoped", "the mutex was handed to nobody or to the wrong one");
	m.reset();
	l[first].reset();
	SIM_CHECK(mtx.is_locked() == both, "exclusion", "a mutex_lock that owns nothing unlocked the mutex");
	l[second].reset();
	SIM_CHECK(!mtx.is_locked(), "unlocked-at-end", "mutex is still locked after everybody unlocked");
}

// ownership against a model: every way to create, move, assign and drop mutex_locks, with and without waiters
SIM_SCENARIO(mutex_model, 0.5) {
	constexpr int NM = 2, NL = 4;
	struct slot {
		std::optional<mutex_lock> l;
		int m = -1; // mutex it refers to, -1: none
		bool owns = false;
	};
	std::optional<asyncpp::mutex> mtx[NM];
	int owner[NM] = {-1, -1}, waiting[NM] = {0, 0}, served[NM] = {0, 0};
	for (auto& m : mtx) m.emplace();
	{
		slot s[NL];
		auto waiter = [&](int m, bool scoped) -> co {
			if (scoped) {
				auto l = co_await mtx[m]->lock_scoped();
				served[m]++;
			} else {
				co_await mtx[m]->lock();
				served[m]++;
				mtx[m]->unlock();
			}
		};
		auto locker = [&](slot& x) -> co {
			co_await x.l->lock();
			x.owns = true;
		};
		auto taker = [&](slot& x, int m) -> co {
			x.l.emplace(co_await mtx[m]->lock_scoped());
			x.m = m;
			x.owns = true;
		};
		auto freed = [&](int m) { // everybody waiting was served inline
			owner[m] = -1;
			SIM_CHECK(served[m] == waiting[m], "lost-wakeup", "%d of %d waiters were served after the lock was released", served[m], waiting[m]);
		};
		const int ops = 3 + (int)sim::param(14);
		for (int k = 0; k < ops; k++) {
			const int i = (int)sim::param(NL), j = (int)sim::param(NL), m = (int)sim::param(NM);
			auto &a = s[i], &b = s[j];
			switch (sim::param(9)) {
			case 0: // take it somehow
				if (a.l || owner[m] >= 0) break;
				if (sim::flip()) {
					SIM_CHECK(mtx[m]->try_lock(), "try-lock", "try_lock fails on a free mutex");
					a.l.emplace(*mtx[m], std::adopt_lock);
					a.m = m, a.owns = true;
				} else
					taker(a, m);
				SIM_CHECK(a.owns, "suspended", "locking a free mutex did not complete");
				owner[m] = i;
				break;
			case 1: // refer to it without owning
				if (a.l) break;
				a.l.emplace(*mtx[m]);
				a.m = m, a.owns = false;
				break;
			case 2: // move assignment (self assignment is left out: its result is not specified)
				if (i == j || !a.l || !b.l) break;
				{
					const int old = a.owns ? a.m : -1;
					*a.l = std::move(*b.l);
					a.m = b.m, a.owns = b.owns;
					b.m = -1, b.owns = false;
					if (old >= 0) freed(old);
					if (a.owns) owner[a.m] = i;
				}
				break;
			case 3: // move construction
				if (i == j || a.l || !b.l) break;
				a.l.emplace(std::move(*b.l));
				a.m = b.m, a.owns = b.owns;
				b.m = -1, b.owns = false;
				if (a.owns) owner[a.m] = i;
				break;
			case 4: // drop
				if (!a.l) break;
				{
					const int old = a.owns ? a.m : -1;
					a.l.reset();
					a.m = -1, a.owns = false;
					if (old >= 0) freed(old);
				}
				break;
			case 5:
				if (!a.l || !a.owns) break;
				a.l->unlock();
				a.owns = false;
				freed(a.m);
				break;
			case 6:
				if (!a.l || a.m < 0 || a.owns) break;
				{
					const bool r = a.l->try_lock();
					SIM_CHECK(r == (owner[a.m] < 0), "try-lock", "try_lock of a mutex_lock returned %d on a mutex that is %s", r, owner[a.m] < 0 ? "free" : "locked");
					if (r) a.owns = true, owner[a.m] = i;
				}
				break;
			case 7:
				if (!a.l || a.m < 0 || (owner[a.m] >= 0 && !a.owns)) break;
				locker(a);
				SIM_CHECK(a.owns, "suspended", "mutex_lock::lock() of a free or owned mutex did not complete");
				owner[a.m] = i;
				break;
			default: // somebody else waits for it
				waiting[m]++;
				waiter(m, sim::flip());
				SIM_CHECK((served[m] == waiting[m]) == (owner[m] < 0), "exclusion", "a coroutine %s a mutex that is %s", served[m] == waiting[m] ? "acquired" : "did not acquire", owner[m] < 0 ? "free" : "locked");
			}
			for (int x = 0; x < NM; x++) SIM_CHECK(mtx[x]->is_locked() == (owner[x] >= 0), "locked-state", "mutex %d is %s", x, owner[x] >= 0 ? "unlocked although a mutex_lock owns it" : "still locked");
			for (int x = 0; x < NL; x++)
				if (s[x].l) SIM_CHECK(s[x].l->is_locked() == s[x].owns, "scoped", "mutex_lock %d reports %d", x, s[x].l->is_locked());
		}
		for (int x = 0; x < NL; x++) {
			s[x].l.reset();
			if (s[x].owns) freed(s[x].m);
		}
	}
	for (int x = 0; x < NM; x++) {
		SIM_CHECK(!mtx[x]->is_locked(), "unlocked-at-end", "mutex is still locked after everybody unlocked");
		SIM_CHECK(served[x] == waiting[x], "lost-wakeup", "%d waiters were never served", waiting[x] - served[x]);
	}
}

// very many coroutines queue for one mutex, or take it one after the other
SIM_SCENARIO(crowd, 0.05) {
	asyncpp::mutex m;
	long counter = 0;
	const int n = many();
	if (n < 512) {
		std::unique_ptr<worker> w;
		if (sim::flip()) w = std::make_unique<worker>();
		int order = 0; // protected by m
		bool ok = true;
		const bool fifo = sim::flip();
		auto waiter = [&](int i) -> co {
			if (w && i % 3 == 1) co_await asyncpp::defer(w.get());
			if (i % 2) {
				auto l = co_await m.lock_scoped();
				if (fifo && order != i) ok = false;
				order++;
				counter++;
			} else {
				co_await m.lock();
				if (fifo && order != i) ok = false;
				order++;
				counter++;
				m.unlock();
			}
			sim::add(S_DONE, 1);
			sim::release();
		};
		if (fifo) {
			w.reset();
			SIM_CHECK(m.try_lock(), "try-lock", "try_lock fails on a free mutex");
			for (int i = 0; i < n; i++) waiter(i);
			SIM_CHECK(sim::get(S_DONE) == 0, "exclusion", "a coroutine acquired a locked mutex");
			m.unlock();
		} else {
			threads t;
			const int cut = (int)sim::param((unsigned)n);
			t.go([&] {
				for (int i = 0; i < cut; i++) waiter(i);
			});
			for (int i = cut; i < n; i++) waiter(i);
			t.join();
		}
		sim::await_acquire([&] { return sim::get(S_DONE) == n; }, "each of very many waits for the mutex is served");
		w.reset();
		SIM_CHECK(ok, "fifo", "very many coroutines were not served in the order they queued");
	} else {
		auto locker = [&]() -> co {
			for (int i = 0; i < n; i++) {
				if (i % 3 == 0) {
					co_await m.lock();
					counter++;
					m.unlock();
				} else if (i % 3 == 1) {
					auto l = co_await m.lock_scoped();
					counter++;
				} else {
					SIM_CHECK(m.try_lock(), "try-lock", "try_lock %d fails on a free mutex", i);
					counter++;
					m.unlock();
				}
			}
			sim::add(S_DONE, 1);
		};
		locker();
		SIM_CHECK(sim::get(S_DONE) == 1, "lost-wakeup", "locking a free mutex suspended");
	}
	SIM_CHECK(counter == n, "lost-update", "protected counter is %ld of %d", counter, n);
	SIM_CHECK(!m.is_locked() && m.try_lock(), "unlocked-at-end", "mutex still locked");
	m.unlock();
}
