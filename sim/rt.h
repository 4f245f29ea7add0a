// Internal interface between runtime and driver (uninstrumented code only).
#pragma once
#include "sim.h"
#include <cstdint>
#include <cstddef>

namespace simrt {
	constexpr int MAXT = 32;
	constexpr unsigned MAXCH = 1 << 17;
	constexpr unsigned MAXPROBE = 256;

	struct Report { // in shared memory, one per worker / child
		volatile int set;
		char kind[64];
		char tag[128]; // class key: kind + tag identify the violation class
		char msg[8192];
		uint64_t seed;
		uint64_t hash;
		int scenario;
		unsigned nchoice;
		uint8_t choices[MAXCH];
		uint64_t steps;
		int64_t simtime;
		unsigned ntrace;
		char trace[1 << 20];
	};
	struct Stats { // shared between workers; relaxed atomic adds
		uint64_t runs, steps, simtime_ns, switches, preemptions, choices, accesses, allocs, threads;
		uint64_t faults[sim::f_count];
		uint64_t fault_runs;
		uint64_t nontrivial; // runs with at least one preemption and >= 2 threads
		uint64_t distinct, distinct_nontrivial, set_full;
		uint64_t scen_runs[64];
		uint64_t fair_runs, stale_sites;
		uint64_t max_steps;
		struct { char name[64]; uint64_t runs, hits; } probes[MAXPROBE];
		uint64_t nprobes;
	};
	struct RunIn {
		int scenario;
		uint64_t seed;
		const uint8_t* replay; // nullptr => generate
		unsigned nreplay;
		bool trace;
		bool quiet_exit; // used for gate runs
	};
	struct RunOut {
		uint64_t hash;
		uint64_t steps;
		int64_t simtime;
		unsigned nchoice;
	};
	extern Report* g_report; // where a violation is written
	extern Stats* g_stats;
	void rt_init_process();
	/// Executes one run. Violations are written to g_report and the process exits with code 42.
	RunOut run_one(const RunIn& in);
	const uint8_t* last_choices();
	sim::scenario* scenario_list();
	int scenario_count();
	sim::scenario* scenario_at(int i);
	void insert_distinct(uint64_t hash, bool nontrivial);
	extern uint64_t* g_set; // shared open-addressing set of run hashes
	extern uint64_t g_set_cap;
} // namespace simrt
