// Public API of the deterministic simulator, used by scenario code (instrumented TUs).
#pragma once
#include <cstddef>
#include <cstdint>

namespace sim {
	// ---- choices -------------------------------------------------------
	/// Scenario parameter: a recorded choice in [0,n); 0 is the simplest value.
	unsigned param(unsigned n);
	/// Scenario parameter that is biased: nonzero with probability p.
	unsigned biased(unsigned n, double p);
	inline bool flip() { return param(2) != 0; }

	enum fault_kind : unsigned {
		f_stall, f_time_jump, f_spurious_wake, f_weak_cas, f_trylock, f_stale_read, f_alloc, f_thread_create,
		f_mmap, f_exception, f_wall_jump, f_user, f_count
	};
	/// Injects a user level fault with probability p (recorded choice); counts it.
	bool inject(fault_kind k, double p = 0.3);
	/// How often a fault kind fired so far in this run
	uint64_t injected(fault_kind k) noexcept;
	/// True if no stale atomic read happened: oracles may then rely on the order of unsynchronised events
	inline bool sequential() noexcept { return injected(f_stale_read) == 0; }
	/// While it lives, resource requests of the calling thread (operator new, pthread_create, mmap) fail with
	/// probability p each. Only spans library calls; harness code running inside them uses no_faults.
	struct faults {
		double old;
		unsigned base;
		bool oldonce;
		/// once: only the first request that is hit fails
		explicit faults(double p, bool once = false);
		~faults();
		faults(const faults&) = delete;
		/// failures that hit this thread since the scope began
		unsigned fired() const noexcept;
	};
	/// The calling thread is exempt for this scope
	struct no_faults : faults {
		no_faults() : faults(0) {}
	};
	/// Ends the enclosing scope of the calling thread early: harness code was reached from inside the library
	void disarm() noexcept;
	/// True if a user operation (copy, move, comparison ...) running in an armed scope should throw now
	bool throwing(double p = 1);

	// ---- scheduling ----------------------------------------------------
	void point();
	int64_t now() noexcept; // simulated ns (steady clock)
	void sleep(int64_t ns);
	int self() noexcept; // simulated thread id
	int live_threads() noexcept;
	/// Give the run its own liveness budget: simulated-time cap and number of steps before the fair tail
	void limits(int64_t max_time_ns, unsigned fair_after = 4000, unsigned max_steps = 80000);
	/// Block until pred() holds. Violation "stuck:<what>" if it does not within max_ns of simulated time.
	void await_raw(bool (*fn)(void*), void* arg, const char* what, int64_t max_ns, bool acquire);
	template<class F>
	inline void await(F&& f, const char* what, int64_t max_ns = 60'000'000'000LL) {
		await_raw([](void* p) { return bool((*static_cast<F*>(p))()); }, &f, what, max_ns, false);
	}
	/// Same, and everything every thread did up to its last sim::release() happens before what follows.
	template<class F>
	inline void await_acquire(F&& f, const char* what, int64_t max_ns = 60'000'000'000LL) {
		await_raw([](void* p) { return bool((*static_cast<F*>(p))()); }, &f, what, max_ns, true);
	}
	void release() noexcept;
	/// Turn off faults, preemption and stale reads: round-robin from here on
	void calm();

	// ---- harness state the race detector and scheduler do not see ------------
	int64_t get(unsigned slot) noexcept;
	void set(unsigned slot, int64_t v) noexcept;
	int64_t add(unsigned slot, int64_t v) noexcept; // returns new value
	uint64_t seq() noexcept; // global event sequence number (monotonic)

	/// append to the run's history; records (seq, thread)
	struct event { uint64_t seq; int64_t time; int tid; int kind; int64_t a, b, c; };
	void log(int kind, int64_t a = 0, int64_t b = 0, int64_t c = 0) noexcept;
	size_t log_size() noexcept;
	const event& log_at(size_t i) noexcept;

	// ---- verdicts ------------------------------------------------------
	[[noreturn]] void fail(const char* tag, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define SIM_CHECK(cond, tag, ...)                                                                                      \
	do {                                                                                                               \
		if (!(cond)) ::sim::fail(tag, __VA_ARGS__);                                                                    \
	} while (0)
	void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
	void probe_hit(const char* name) noexcept;
#define SIM_PROBE(name) ::sim::probe_hit(name)
	/// From now on std::terminate() ends the run successfully; not reaching it has to be reported by the scenario
	void expect_terminate() noexcept;
	/// block kept alive on purpose (not a leak)
	void leak_ok(void* p) noexcept;
	size_t live_allocs() noexcept; // live blocks right now
	size_t live_maps() noexcept;
	/// Run f with the simulator blind (no schedule points, no race checks): only for harness bookkeeping
	void quiet_begin() noexcept;
	void quiet_end() noexcept;
	struct quiet {
		quiet() { quiet_begin(); }
		~quiet() { quiet_end(); }
	};

	// ---- registration --------------------------------------------------
	struct scenario {
		const char* name;
		void (*fn)();
		double weight;
		scenario* next;
		scenario(const char* n, void (*f)(), double w);
	};
#define SIM_SCENARIO(name, weight)                                                                                     \
	static void scen_##name();                                                                                         \
	static ::sim::scenario reg_##name{#name, scen_##name, weight};                                                     \
	static void scen_##name()
} // namespace sim
