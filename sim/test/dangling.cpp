// Self test of the simulator: uses of stack objects whose function returned. Every scenario must be reported as use-after-return.
#include "../../scen/common.h"
#include <asyncpp/fiber.h>
#include <asyncpp/sync_wait.h>
#include <asyncpp/task.h>
using namespace h;

__attribute__((noinline)) static int* leak_local(int v) {
	volatile int buf[8] = {v, v, v, v, v, v, v, v};
	int* p = const_cast<int*>(&buf[3]);
	asm volatile("" : "+r"(p) : : "memory");
	return p;
}
SIM_SCENARIO(own_stack, 1) {
	int* p = leak_local(4);
	*p = 5;
}
SIM_SCENARIO(other_stack, 1) {
	std::atomic<int*> ptr{nullptr};
	std::atomic<bool> done{false};
	std::thread t([&] {
		ptr.store(leak_local(3));
		while (!done.load()) std::this_thread::yield();
	});
	while (!ptr.load()) std::this_thread::yield();
	int* p = ptr.load();
	*p = 6;
	done.store(true);
	t.join();
}
SIM_SCENARIO(atomic_object, 1) {
	auto a = reinterpret_cast<std::atomic<int>*>(leak_local(4));
	a->store(1);
}
SIM_SCENARIO(finished_thread, 1) {
	int* p = nullptr;
	std::thread t([&] { p = leak_local(3); });
	t.join();
	*p = 7;
}
SIM_SCENARIO(on_fiber, 1) {
	asyncpp::as_promise([]() -> asyncpp::task<> {
		co_await asyncpp::fiber<void>{[] {
			int* p = leak_local(2);
			*p = 1;
		}};
	}()).get();
}
