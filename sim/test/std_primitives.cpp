// Self test of the simulator: synchronisation primitives the library does not use today, but might after a refactoring.
#include "../../scen/common.h"
#include <barrier>
#include <condition_variable>
#include <future>
#include <latch>
#include <semaphore>
#include <shared_mutex>
#include <stop_token>
#include <deque>
using namespace h;

SIM_SCENARIO(atomic_wait, 1) {
	std::atomic<int> a{0};
	int data = 0;
	std::thread t([&] { a.wait(0); SIM_CHECK(data == 1, "x", "x"); });
	data = 1;
	a.store(1);
	a.notify_all();
	t.join();
}
SIM_SCENARIO(latch_barrier, 1) {
	std::latch l(2);
	std::barrier b(3);
	int d[3]{};
	threads t;
	for (int i = 0; i < 3; i++)
		t.go([&, i] {
			d[i] = 1;
			if (i < 2) l.count_down();
			else { l.wait(); SIM_CHECK(d[0] && d[1], "x", "x"); }
			b.arrive_and_wait();
			SIM_CHECK(d[0] + d[1] + d[2] == 3, "x", "x");
		});
}
// std::counting_semaphore::acquire() is left out: the simulator finds the lost wake-up of libstdc++ 13 (PR 104928) in it
SIM_SCENARIO(semaphore, 1) {
	std::counting_semaphore<4> s(1);
	long c = 0;
	threads t;
	for (int i = 0; i < 3; i++)
		t.go([&] {
			while (!s.try_acquire_for(std::chrono::milliseconds(5))) {}
			c++;
			s.release();
		});
	t.join();
	SIM_CHECK(c == 3, "x", "x");
}
SIM_SCENARIO(locks, 1) {
	std::shared_mutex sm;
	std::recursive_mutex rm;
	std::timed_mutex tm;
	std::recursive_timed_mutex rtm;
	std::shared_timed_mutex stm;
	std::once_flag once;
	long a = 0, b = 0, c = 0, d = 0, e = 0, f = 0;
	threads t;
	for (int i = 0; i < 3; i++)
		t.go([&, i] {
			if (i) { std::unique_lock l(sm); a++; } else { std::shared_lock l(sm); (void)a; }
			{ std::scoped_lock l(rm); std::scoped_lock l2(rm); b++; }
			{ std::unique_lock l(tm, std::defer_lock); if (l.try_lock_for(std::chrono::milliseconds(1 + i))) c++; }
			{ std::scoped_lock l(rtm); std::unique_lock l2(rtm, std::chrono::milliseconds(3)); d++; }
			{ std::unique_lock l(stm, std::chrono::seconds(1)); if (l) e++; }
			{ std::shared_lock l(stm, std::chrono::seconds(1)); }
			std::call_once(once, [&] { f++; });
			{ std::unique_lock l(sm, std::try_to_lock); if (l) a++; }
		});
	t.join();
	SIM_CHECK(b == 3 && d == 3 && f == 1, "x", "x");
}
SIM_SCENARIO(cv_any, 1) {
	std::condition_variable_any cv;
	std::shared_mutex m;
	bool ready = false;
	std::stop_source src;
	std::thread t([&] {
		std::shared_lock l(m);
		if (sim::flip()) cv.wait(l, [&] { return ready; });
		else (void)cv.wait(l, src.get_token(), [&] { return ready; });
	});
	std::thread t2([&] {
		std::shared_lock l(m);
		(void)cv.wait_for(l, std::chrono::seconds(1), [&] { return ready; });
	});
	{ std::unique_lock l(m); ready = true; }
	if (sim::flip()) src.request_stop();
	cv.notify_all();
	t.join();
	t2.join();
}
SIM_SCENARIO(jthreads, 1) {
	int x = 0;
	{
		std::jthread j([&](std::stop_token st) {
			while (!st.stop_requested()) std::this_thread::yield();
			x = 1;
		});
	}
	SIM_CHECK(x == 1, "x", "x");
}
SIM_SCENARIO(shared_ptrs, 1) {
	std::atomic<std::shared_ptr<int>> p{std::make_shared<int>(1)};
	threads t;
	t.go([&] { p.store(std::make_shared<int>(2)); });
	t.go([&] { auto q = p.load(); SIM_CHECK(*q == 1 || *q == 2, "x", "x"); });
	t.go([&] { auto w = std::weak_ptr<int>(p.load()); (void)w.lock(); });
}
SIM_SCENARIO(futures, 1) {
	auto f = std::async(std::launch::async, [] { return 1; });
	std::packaged_task<int()> pt([] { return 2; });
	auto g = pt.get_future();
	std::thread t(std::move(pt));
	std::promise<int> pr;
	auto s = pr.get_future().share();
	std::thread t2([&] { pr.set_value(3); });
	SIM_CHECK(f.get() == 1 && g.get() == 2, "x", "x");
	while (s.wait_for(std::chrono::milliseconds(1)) != std::future_status::ready) {}
	SIM_CHECK(s.get() == 3, "x", "x");
	t.join();
	t2.join();
}
static std::atomic_flag flag = ATOMIC_FLAG_INIT;
SIM_SCENARIO(flags, 1) {
	long c = 0;
	flag.clear();
	threads t;
	for (int i = 0; i < 3; i++)
		t.go([&] {
			while (flag.test_and_set(std::memory_order_acquire)) flag.wait(true, std::memory_order_relaxed);
			c++;
			flag.clear(std::memory_order_release);
			flag.notify_one();
		});
	t.join();
	SIM_CHECK(c == 3, "x", "x");
}
struct tl {
	int v = 0;
	tl() { v = 1; }
	~tl() { sim::add(5, 1); }
};
static thread_local tl tls_obj;
SIM_SCENARIO(tls, 1) {
	threads t;
	for (int i = 0; i < 3; i++) t.go([&] { SIM_CHECK(tls_obj.v++ == 1, "x", "x"); });
	t.join();
	SIM_CHECK(sim::get(5) == 3, "x", "%ld", (long)sim::get(5));
}
SIM_SCENARIO(atomic_refs, 1) {
	int x = 0;
	double dsum = 0;
	std::atomic<double> ad{0};
	std::atomic<void*> ptr{nullptr};
	struct pair16 { void* a; void* b; };
	threads t;
	for (int i = 0; i < 3; i++)
		t.go([&] {
			std::atomic_ref<int> r(x);
			r.fetch_add(1, std::memory_order_relaxed);
			ad.fetch_add(1.0);
			void* e = nullptr;
			ptr.compare_exchange_strong(e, &x);
			std::atomic_thread_fence(std::memory_order_seq_cst);
		});
	t.join();
	(void)dsum;
	SIM_CHECK(x == 3 && ad.load() == 3.0, "x", "x");
}
SIM_SCENARIO(sleeps, 1) {
	threads t;
	t.go([] { std::this_thread::sleep_for(std::chrono::milliseconds(3)); });
	t.go([] { std::this_thread::sleep_until(std::chrono::system_clock::now() + std::chrono::milliseconds(3)); });
	std::mutex m;
	std::condition_variable cv;
	std::unique_lock l(m);
	SIM_CHECK(!cv.wait_until(l, std::chrono::system_clock::now() + std::chrono::milliseconds(2), [] { return false; }), "x", "x");
	SIM_CHECK(!cv.wait_until(l, std::chrono::steady_clock::now() + std::chrono::milliseconds(2), [] { return false; }), "x", "x");
}
