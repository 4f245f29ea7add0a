// The deterministic simulator runtime. Compiled WITHOUT instrumentation.
// Implements: thread contexts + scheduler, choice stream, simulated clock, the TSan ABI (race detector and
// schedule points), pthread/futex/clock/mmap/allocator interposition, fault injection and violation reports.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <immintrin.h>
#include <initializer_list>
#include <link.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <sys/auxv.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <typeinfo>
#include <unistd.h>
#include <unwind.h>
#include <asm/prctl.h>

#define EX extern "C" __attribute__((visibility("default"), used))
#define RA ((uint32_t)(uintptr_t)__builtin_return_address(0))

extern "C" char __data_start, _end;

namespace simrt {
	// -------------------------------------------------------------------------------------------------
	// address space layout
	constexpr uintptr_t BASE = 0x200000000000ULL;
	constexpr size_t ARENA = 64u << 20;
	constexpr size_t STK = 256u << 10;
	constexpr size_t STACKS = STK * MAXT;
	constexpr size_t FIBERS = 48u << 20;
	constexpr uintptr_t STK_BASE = BASE + ARENA;
	constexpr uintptr_t FIB_BASE = STK_BASE + STACKS;
	constexpr size_t TOTAL = ARENA + STACKS + FIBERS;
	constexpr uintptr_t SHADOW = 0x210000000000ULL;
	constexpr uintptr_t ASTATE = 0x220000000000ULL;

	struct Ent {
		uint32_t clk, pc;
		uint8_t tid, mask, flags, pad; // flags: 1 write, 2 atomic, 4 free
	};
	struct Cell {
		uint32_t run; // run tag (upper 24 bits) | has_atomic (bit 0)
		Ent e[5];
	};
	static_assert(sizeof(Cell) == 64);

	static Cell* const shadow = (Cell*)SHADOW;
	static uint8_t* const astate = (uint8_t*)ASTATE;
	static Cell* gshadow;
	static uintptr_t g_lo, g_sz;

	struct VC { uint32_t c[MAXT]; };
	enum State : uint8_t { RUNNABLE, BLOCKED, FINISHED };
	enum Wait : uint8_t { W_NONE, W_MUTEX, W_COND, W_RWLOCK, W_JOIN, W_FUTEX, W_SLEEP, W_PRED, W_GUARD, W_ONCE };
	static const char* const wait_name[] = {"-", "mutex", "condvar", "rwlock", "join", "futex", "sleep", "await", "static-init", "once"};

	struct Dtor { void (*fn)(void*); void* arg; Dtor* next; };
	struct Thr {
		int id;
		State st;
		Wait wk;
		void* wobj;
		int64_t deadline; // -1 none
		bool timed_out, spurious;
		bool detached, joined;
		uint64_t wseq;
		void* rsp;
		uint64_t fs;
		VC vc, acqf, relf;
		bool has_relf;
		uint64_t sc_step;
		void* (*fn)(void*);
		void* arg;
		void* ret;
		bool (*pred)(void*);
		void* predarg;
		const char* what;
		Dtor* dtors;
		uint64_t prio;
		unsigned consec;
		uintptr_t min_sp;
		char* stack;
		double fault_p; // injected resource failures in the armed scope of this thread
		unsigned fault_n;
		bool fault_once;
	};

	struct Store {
		uint64_t val;
		uint64_t step;
		uint32_t tid, clk;
		bool hasrel;
		VC rel;
		uint32_t rclk[MAXT];
	};
	constexpr int HIST = 4;
	struct Loc {
		uintptr_t addr;
		uint32_t run;
		uint8_t size;
		uint8_t n;
		Store h[HIST];
	};
	constexpr unsigned NLOC = 8192;
	static Loc* locs;
	struct SyncObj { uintptr_t addr; uint32_t run; VC vc; };
	constexpr unsigned NSYNC = 8192;
	static SyncObj* syncs;

	struct Alloc { uintptr_t p; uint32_t size; uint32_t pc, freepc; uint8_t live, ok; uint8_t tid; void* bt[10]; };
	constexpr unsigned NALLOC = 1 << 17;
	static Alloc* allocs;
	static unsigned nallocs, nlive;
	static uintptr_t arena_top;

	struct Map { uintptr_t p; size_t size; bool live; uint32_t pc; };
	constexpr unsigned NMAP = 512;
	static Map maps[NMAP];
	static unsigned nmaps;
	static uintptr_t fib_top;

	// -------------------------------------------------------------------------------------------------
	static bool g_active; // a run is in progress (we are on a simulated thread)
	static int g_quiet;   // runtime or harness bookkeeping in progress
	static bool g_dead;   // violation being reported
	static uint32_t g_run;
	static Thr thr[MAXT];
	static int nthr;
	static Thr* cur;
	static void* host_rsp;
	static uint64_t host_fs;
	static uint64_t donor_fs[MAXT];
	static int ndonor;
	static bool g_fsgs;

	static RunIn in;
	static uint64_t rng[4];
	static unsigned nch;
	static uint8_t* chv;
	static uint64_t g_hash;
	static uint64_t g_steps, g_accs;
	static uint64_t g_seq;
	static int64_t g_now, g_wall_off;
	static bool g_fair;
	static unsigned lim_fair, lim_steps;
	static int64_t lim_time;
	static uint64_t n_switch, n_preempt;
	static uint64_t n_fault[sim::f_count];
	static int64_t slots[1024];
	static uint64_t waitseq;
	static VC harness_vc;
	constexpr unsigned NLOG = 1 << 16;
	static sim::event* hlog;
	static unsigned nhlog;
	struct AtExit { void (*fn)(void*); void* arg; };
	static AtExit atexits[64];
	static unsigned natexit;
	static uint64_t* guards[64];
	static unsigned nguards;
	static const char* hit_probes[128];
	static unsigned nhit;
	static Dtor dtor_pool[256];
	static unsigned ndtor;

	// generator configuration for this run (swarm)
	static struct {
		int mode; // 0 random walk, 1 PCT, 2 uniform, 3 run-to-block + rare
		double p_switch;
		double p_time, p_spur, p_weak, p_try, p_stale;
		unsigned pct_pts[8];
		int npct;
		int victim;
		uint64_t vic_from, vic_to;
		unsigned quantum;
	} gen;

	Report* g_report;
	Stats* g_stats;
	uint64_t* g_set;
	uint64_t g_set_cap;

	// TLS of the executable
	static uintptr_t tls_off; // fs - tls block start
	static const void* tls_init;
	static size_t tls_filesz, tls_memsz;

	// trace
	static char* tr;
	static unsigned trn, trcap;

	static void tracef(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
	static void tracef(const char* fmt, ...) {
		if (!tr || trn + 400 > trcap) return;
		va_list ap;
		va_start(ap, fmt);
		int n = vsnprintf(tr + trn, 390, fmt, ap);
		va_end(ap);
		if (n > 389) n = 389;
		trn += (unsigned)n;
	}
	#define TR(...) do { if (__builtin_expect(tr != nullptr, 0)) tracef(__VA_ARGS__); } while (0)

	static inline uint64_t mix(uint64_t h, uint64_t v) {
		h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
		h *= 0xff51afd7ed558ccdULL;
		return h ^ (h >> 32);
	}
	static inline bool tracked(uintptr_t a) { return a - BASE < TOTAL || a - g_lo < g_sz; }
	static inline void hash_ev(uint64_t a, uint64_t b) { g_hash = mix(g_hash, a * 0x100000001b3ULL + b); }

	static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
	static uint64_t rnd() {
		uint64_t r = rotl(rng[1] * 5, 7) * 9, t = rng[1] << 17;
		rng[2] ^= rng[0];
		rng[3] ^= rng[1];
		rng[1] ^= rng[2];
		rng[0] ^= rng[3];
		rng[2] ^= t;
		rng[3] = rotl(rng[3], 45);
		return r;
	}
	static double rnd01() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }
	static void seed_rng(uint64_t s) {
		for (auto& x : rng) {
			s += 0x9e3779b97f4a7c15ULL;
			uint64_t z = s;
			z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
			z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
			x = z ^ (z >> 31);
		}
	}

	// -------------------------------------------------------------------------------------------------
	// violations
	struct BtArg { void** v; int n, max; };
	static _Unwind_Reason_Code bt_cb(_Unwind_Context* c, void* a) {
		auto b = (BtArg*)a;
		uintptr_t ip = _Unwind_GetIP(c);
		if (!ip || b->n >= b->max) return _URC_END_OF_STACK;
		b->v[b->n++] = (void*)ip;
		return _URC_NO_REASON;
	}
	static int get_bt(void** v, int max) {
		BtArg a{v, 0, max};
		_Unwind_Backtrace(bt_cb, &a);
		return a.n;
	}

	[[noreturn]] static void finish_violation();
	static void vadd(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
	static void vadd(const char* fmt, ...) {
		size_t l = strlen(g_report->msg);
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(g_report->msg + l, sizeof(g_report->msg) - l, fmt, ap);
		va_end(ap);
	}
	static void begin_violation(const char* kind, const char* tag) {
		if (g_dead) _exit(43);
		g_dead = true;
		g_quiet = 1000;
		auto& r = *g_report;
		snprintf(r.kind, sizeof r.kind, "%s", kind);
		snprintf(r.tag, sizeof r.tag, "%s", tag);
		r.msg[0] = 0;
		r.seed = in.seed;
		r.scenario = in.scenario;
		r.nchoice = nch;
		memcpy(r.choices, chv, nch);
		r.hash = g_hash;
		r.steps = g_steps;
		r.simtime = g_now;
		r.set = 1;
	}
	[[noreturn]] static void finish_violation() {
		vadd("\n  in thread t%d at step %lu, simulated time %.6f s\n", cur ? cur->id : -1, (unsigned long)g_steps, g_now / 1e9);
		for (int i = 0; i < nthr; i++) {
			auto& t = thr[i];
			vadd("  t%d: %s", i, t.st == RUNNABLE ? "runnable" : t.st == FINISHED ? "finished" : "blocked on ");
			if (t.st == BLOCKED) {
				vadd("%s", wait_name[t.wk]);
				if (t.wk == W_PRED) vadd(" '%s'", t.what);
				if (t.wk == W_JOIN) vadd(" t%d", ((Thr*)t.wobj)->id);
				if (t.deadline >= 0) vadd(" (deadline %.6f s)", t.deadline / 1e9);
			}
			vadd("\n");
		}
		if (tr) {
			unsigned n = trn < sizeof(g_report->trace) - 1 ? trn : sizeof(g_report->trace) - 1;
			memcpy(g_report->trace, tr, n);
			g_report->ntrace = n;
		}
		g_report->set = 2;
		void* v[24];
		int n = get_bt(v, 24);
		vadd("  backtrace:");
		for (int i = 1; i < n; i++) vadd(" %p", v[i]);
		vadd("\n");
		_exit(42);
	}
	[[noreturn]] static void violation(const char* kind, const char* tag, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
	[[noreturn]] static void violation(const char* kind, const char* tag, const char* fmt, ...) {
		begin_violation(kind, tag);
		size_t l = 0;
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(g_report->msg + l, sizeof(g_report->msg) - l, fmt, ap);
		va_end(ap);
		finish_violation();
	}
	// an error of the harness itself: never reported as a property violation
	[[noreturn]] static void harness_error(const char* what) {
		fprintf(stderr, "SIM-ERROR: %s (scenario %d seed %lu)\n", what, in.scenario, (unsigned long)in.seed);
		_exit(44);
	}

	// -------------------------------------------------------------------------------------------------
	// choices
	static uint32_t record(uint32_t v, uint32_t n) {
		if (nch >= MAXCH) violation("livelock", "resources", "the run exhausts the simulator: too many choices");
		chv[nch++] = (uint8_t)v;
		(void)n;
		return v;
	}
	static uint32_t choose(uint32_t n, double p) {
		if (n <= 1) return 0;
		if (n > 255) n = 255;
		uint32_t v;
		if (in.replay) {
			v = nch < in.nreplay ? in.replay[nch] : 0;
			if (v >= n) v = 0;
		} else
			v = (p > 0 && rnd01() < p) ? 1 + (uint32_t)(rnd() % (n - 1)) : 0;
		return record(v, n);
	}

	// -------------------------------------------------------------------------------------------------
	// contexts
	extern "C" void simrt_swap(void** save, void* load);
	asm(R"(
	.text
	.globl simrt_swap
	.type simrt_swap,@function
simrt_swap:
	.cfi_startproc
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	leaq -8(%rsp), %rsp
	stmxcsr (%rsp)
	fnstcw 4(%rsp)
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	ldmxcsr (%rsp)
	fldcw 4(%rsp)
	leaq 8(%rsp), %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
	.cfi_endproc
	.size simrt_swap,.-simrt_swap
	.globl simrt_entry
	.type simrt_entry,@function
simrt_entry:
	.cfi_startproc
	.cfi_undefined rip
	xorl %ebp, %ebp
	call simrt_thread_main
	ud2
	.cfi_endproc
	.size simrt_entry,.-simrt_entry
	)");
	extern "C" void simrt_entry();

	static inline void set_fs(uint64_t v) {
		if (g_fsgs)
			asm volatile("wrfsbase %0" ::"r"(v) : "memory");
		else
			syscall(SYS_arch_prctl, ARCH_SET_FS, v);
	}
	static inline uint64_t get_fs() {
		uint64_t v;
		asm volatile("mov %%fs:0, %0" : "=r"(v));
		return v;
	}

	static int (*real_pthread_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
	static volatile uint64_t donor_tmp;
	static void* donor_main(void*) {
		donor_tmp = get_fs();
		asm volatile("" ::: "memory");
		syscall(SYS_futex, &donor_tmp, FUTEX_WAKE, 1, nullptr, nullptr, 0);
		for (;;) ::pause();
		return nullptr;
	}
	static long raw_syscall6(long n, long a, long b, long c, long d, long e, long f) {
		long ret;
		register long r10 asm("r10") = d;
		register long r8 asm("r8") = e;
		register long r9 asm("r9") = f;
		asm volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
		return ret;
	}
	static void need_donor() {
		donor_tmp = 0;
		pthread_attr_t at;
		pthread_attr_init(&at);
		pthread_attr_setstacksize(&at, 65536);
		pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
		sigset_t all, old;
		sigfillset(&all);
		sigprocmask(SIG_BLOCK, &all, &old);
		pthread_t t;
		if (real_pthread_create(&t, &at, donor_main, nullptr) != 0) {
			fprintf(stderr, "SIM-ERROR: cannot create donor thread\n");
			_exit(44);
		}
		sigprocmask(SIG_SETMASK, &old, nullptr);
		while (!donor_tmp) raw_syscall6(SYS_futex, (long)&donor_tmp, FUTEX_WAIT, 0, 0, 0, 0);
		donor_fs[ndonor++] = donor_tmp;
	}
	static void reset_tls(uint64_t fs) {
		char* p = (char*)(fs - tls_off);
		memcpy(p, tls_init, tls_filesz);
		memset(p + tls_filesz, 0, tls_memsz - tls_filesz);
	}

	static void join_vc(VC& a, const VC& b) {
		for (int i = 0; i < nthr; i++)
			if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
	}

	// -------------------------------------------------------------------------------------------------
	// sync object clocks
	static SyncObj& sync_at(const volatile void* p) {
		uintptr_t a = (uintptr_t)p;
		unsigned i = (unsigned)((a * 0x9e3779b97f4a7c15ULL) >> 40) & (NSYNC - 1);
		for (unsigned k = 0; k < NSYNC; k++, i = (i + 1) & (NSYNC - 1)) {
			auto& s = syncs[i];
			if (s.run != g_run) {
				s.run = g_run;
				s.addr = a;
				memset(&s.vc, 0, sizeof s.vc);
				return s;
			}
			if (s.addr == a) return s;
		}
		violation("livelock", "resources", "the run exhausts the simulator: sync table full");
	}
	static void hb_release(const volatile void* p) {
		auto& s = sync_at(p);
		join_vc(s.vc, cur->vc);
		cur->vc.c[cur->id]++;
	}
	static void hb_acquire(const volatile void* p) { join_vc(cur->vc, sync_at(p).vc); }

	// -------------------------------------------------------------------------------------------------
	// scheduler
	static void switch_to(Thr* t) {
		if (t == cur) return;
		n_switch++;
		Thr* from = cur;
		uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
		if (sp - (uintptr_t)from->stack < STK && sp < from->min_sp) from->min_sp = sp;
		cur = t;
		int q = g_quiet;
		set_fs(t->fs);
		simrt_swap(&from->rsp, t->rsp);
		g_quiet = q;
	}

	static void limit_check() {
		if (g_steps > lim_steps) violation("livelock", "steps", "no termination within %u scheduling steps, the last %u of them under fair fault-free scheduling", lim_steps, lim_steps - lim_fair);
		if (g_now > lim_time) violation("stuck", "time", "the run did not finish within %.1f s of simulated time", lim_time / 1e9);
	}

	static void wake_timed() {
		for (int i = 0; i < nthr; i++) {
			auto& t = thr[i];
			if (t.st == BLOCKED && t.deadline >= 0 && t.deadline <= g_now) {
				if (t.wk == W_PRED) {
					if (t.pred(t.predarg)) { t.st = RUNNABLE; t.deadline = -1; continue; }
					char tag[100];
					snprintf(tag, sizeof tag, "%s", t.what);
					cur = cur ? cur : &t;
					violation("stuck", tag, "condition '%s' did not become true in time (simulated time %.3f s)", t.what, g_now / 1e9);
				}
				t.st = RUNNABLE;
				t.timed_out = true;
				t.deadline = -1;
			}
		}
	}
	static void wake_preds() {
		for (int i = 0; i < nthr; i++) {
			auto& t = thr[i];
			if (t.st == BLOCKED && t.wk == W_PRED) {
				g_quiet++;
				bool r = t.pred(t.predarg);
				g_quiet--;
				if (r) { t.st = RUNNABLE; t.deadline = -1; }
			}
		}
	}

	static const int64_t jumps[] = {1'000'000, 50'000'000, 700'000'000, 10'000'000'000};

	// picks the next thread; cur may be runnable (can continue) or not
	static Thr* pick(bool yielding) {
		for (;;) {
			wake_preds();
			wake_timed();
			Thr* cand[MAXT];
			int n = 0;
			bool cur_run = cur->st == RUNNABLE;
			if (cur_run && !yielding) cand[n++] = cur;
			for (int k = 1; k < nthr; k++) {
				int i = (cur->id + k) % nthr;
				if (thr[i].st == RUNNABLE) cand[n++] = &thr[i];
			}
			if (cur_run && yielding) cand[n++] = cur;
			if (n == 0) {
				// nothing can run: advance simulated time to the next deadline
				int64_t d = -1;
				for (int i = 0; i < nthr; i++)
					if (thr[i].st == BLOCKED && thr[i].deadline >= 0 && thr[i].wk != W_PRED && (d < 0 || thr[i].deadline < d)) d = thr[i].deadline;
				if (d < 0) {
					// only awaiting harness conditions (or nothing at all) remains: nobody can ever make progress
					for (int i = 0; i < nthr; i++)
						if (thr[i].st == BLOCKED && thr[i].wk == W_PRED) {
							char tag[100];
							snprintf(tag, sizeof tag, "%s", thr[i].what);
							violation("stuck", tag, "deadlock: no thread can run and no timer is pending, but '%s' does not hold", thr[i].what);
						}
					violation("deadlock", "no-progress", "deadlock: no thread can run and no timer is pending");
				}
				g_now = d > g_now ? d : g_now;
				if (g_now > lim_time) limit_check();
				g_steps++;
				limit_check();
				continue;
			}
			if (g_fair) {
				if (n == 1) return cand[0];
				if (cur_run && !yielding && (g_steps % 7)) return cand[0];
				return cand[cur_run && !yielding ? 1 : 0];
			}
			// fault options
			Thr* sp[MAXT];
			int ns = 0;
			for (int i = 0; i < nthr; i++)
				if (thr[i].st == BLOCKED && thr[i].wk == W_COND) sp[ns++] = &thr[i];
			const int nj = 4;
			int total = n + ns + nj;
			uint32_t v;
			if (in.replay) {
				v = nch < in.nreplay ? in.replay[nch] : 0;
				if ((int)v >= total) v = 0;
			} else {
				v = 0;
				if (ns && gen.p_spur > 0 && rnd01() < gen.p_spur)
					v = n + (uint32_t)(rnd() % ns);
				else if (gen.p_time > 0 && rnd01() < gen.p_time)
					v = n + ns + (uint32_t)(rnd() % nj);
				else if (n > 1) {
					bool vic = gen.victim >= 0 && g_steps >= gen.vic_from && g_steps < gen.vic_to;
					switch (gen.mode) {
					case 1: { // PCT
						for (int i = 0; i < gen.npct; i++)
							if (gen.pct_pts[i] == g_steps && cur_run) cur->prio = 1 + (gen.npct - i);
						if (yielding || (cur_run && cur->consec > 60)) cur->prio = 0, cur->consec = 0;
						uint64_t best = 0;
						for (int i = 0; i < n; i++)
							if (cand[i]->prio + 1 > best) { best = cand[i]->prio + 1; v = (uint32_t)i; }
						break;
					}
					case 2: v = (uint32_t)(rnd() % n); break;
					default:
						if (!cur_run || yielding)
							v = (uint32_t)(rnd() % n);
						else if (rnd01() < gen.p_switch)
							v = 1 + (uint32_t)(rnd() % (n - 1));
					}
					if (vic && cand[v]->id == gen.victim) {
						v = (v + 1) % n;
						n_fault[sim::f_stall]++;
					}
				}
			}
			record(v, total);
			if ((int)v < n) {
				Thr* t = cand[v];
				if (cur_run && !yielding && t != cur) n_preempt++;
				if (t == cur) cur->consec++;
				else t->consec = 0;
				return t;
			}
			v -= n;
			if ((int)v < ns) {
				n_fault[sim::f_spurious_wake]++;
				sp[v]->st = RUNNABLE;
				sp[v]->spurious = true;
				sp[v]->deadline = -1;
				hash_ev(0xA0, sp[v]->id);
				TR("    [fault] spurious wake-up of t%d\n", sp[v]->id);
				continue;
			}
			v -= ns;
			n_fault[sim::f_time_jump]++;
			// the whole process is stalled: liveness bounds are not charged for an injected stall
			g_now += jumps[v];
			lim_time += jumps[v];
			for (int i = 0; i < nthr; i++)
				if (thr[i].st == BLOCKED && thr[i].wk == W_PRED && thr[i].deadline >= 0) thr[i].deadline += jumps[v];
			hash_ev(0xA1, v);
			TR("    [fault] stall: clock advances %.3f s\n", jumps[v] / 1e9);
		}
	}

	static void step(const char* op, const volatile void* obj, uint32_t pc) {
		g_steps++;
		g_now += 40;
		if (!g_fair && g_steps >= lim_fair) {
			g_fair = true;
			TR("    -- fair, fault-free tail from here --\n");
		}
		limit_check();
		if (tr) TR("t%d %s %p @%x\n", cur->id, op, (void*)obj, pc);
	}
	static void sched_point(const char* op, const volatile void* obj, uint32_t pc, bool yielding = false) {
		g_quiet++;
		step(op, obj, pc);
		Thr* t = pick(yielding);
		if (t != cur) {
			TR("    -> t%d\n", t->id);
			hash_ev(0x51, t->id);
		}
		switch_to(t);
		hash_ev(cur->id, tracked((uintptr_t)obj) ? (uintptr_t)obj : 0);
		g_quiet--;
	}
	static void block(Wait k, void* obj, int64_t deadline, const char* what) {
		g_quiet++;
		cur->st = BLOCKED;
		cur->wk = k;
		cur->wobj = obj;
		cur->deadline = deadline;
		cur->timed_out = cur->spurious = false;
		cur->wseq = ++waitseq;
		if (what) cur->what = what;
		TR("t%d blocks on %s %p\n", cur->id, wait_name[k], obj);
		step("blocked", obj, 0);
		Thr* t = pick(false);
		TR("    -> t%d\n", t->id);
		hash_ev(0x52, t->id);
		switch_to(t);
		cur->wk = W_NONE;
		cur->deadline = -1;
		g_quiet--;
	}
	static void wake(Thr* t) {
		t->st = RUNNABLE;
		t->deadline = -1;
	}
	static void wake_all(Wait k, void* obj) {
		for (int i = 0; i < nthr; i++)
			if (thr[i].st == BLOCKED && thr[i].wk == k && thr[i].wobj == obj) wake(&thr[i]);
	}

	// -------------------------------------------------------------------------------------------------
	// race detector / memory checker
	static inline Cell* cell_of(uintptr_t a) {
		uintptr_t o = a - BASE;
		if (__builtin_expect(o < TOTAL, 1)) return shadow + (o >> 3);
		o = a - g_lo;
		if (o < g_sz) return gshadow + (o >> 3);
		return nullptr;
	}
	static const char* region(uintptr_t a) {
		static char buf[160];
		if (a - BASE < ARENA) {
			for (unsigned i = 0; i < nallocs; i++)
				if (a + 16 >= allocs[i].p && a < allocs[i].p + allocs[i].size + 16) {
					snprintf(buf, sizeof buf, "heap block #%u of %u bytes, offset %ld, allocated by t%d @%x%s", i, allocs[i].size, (long)(a - allocs[i].p), allocs[i].tid, allocs[i].pc, allocs[i].live ? "" : ", freed");
					if (!allocs[i].live) snprintf(buf + strlen(buf), sizeof buf - strlen(buf), " @%x", allocs[i].freepc);
					return buf;
				}
			return "unallocated heap";
		}
		if (a - STK_BASE < STACKS) {
			snprintf(buf, sizeof buf, "stack of t%d", (int)((a - STK_BASE) / STK));
			return buf;
		}
		if (a - FIB_BASE < FIBERS) return "fiber stack";
		return "global";
	}
	[[noreturn]] static __attribute__((noinline)) void race(uintptr_t a, unsigned size, unsigned flags, uint32_t pc, const Ent& e) {
		char tag[8] = "";
		violation("race", tag, "data race on %p (%s): %s%s of %u bytes by t%d @%x conflicts with earlier unordered %s%s by t%d @%x", (void*)a, region(a),
				  flags & 4 ? "free/destroy" : flags & 1 ? "write" : "read", flags & 2 ? " (atomic)" : "", size, cur->id, pc,
				  e.flags & 4 ? "free/destroy" : e.flags & 1 ? "write" : "read", e.flags & 2 ? " (atomic)" : "", e.tid, e.pc);
	}
	static __attribute__((noinline)) void bad_access(uintptr_t a, unsigned size, bool w, uint32_t pc) {
		uint8_t s = astate[(a - BASE) >> 3];
		violation(s == 0xFD ? "use-after-free" : "heap-overflow", "", "%s of %u bytes at %p by t%d @%x: %s", w ? "write" : "read", size, (void*)a, cur->id, pc, region(a));
	}
	static Loc* find_loc(uintptr_t a, bool create);

	// Anything below the stack pointer of the thread that runs (or stopped) on a stack belongs to functions that returned.
	static uintptr_t fib_lo, fib_hi; // mapping the running code's stack pointer was last seen in
	static __attribute__((noinline)) void dead_stack(uintptr_t a, unsigned size, bool w, uint32_t pc) {
		violation("use-after-return", "", "%s of %u bytes at %p by t%d @%x: %s, in a part no function uses any more", w ? "write" : "read", size, (void*)a, cur->id, pc, region(a));
	}
	static __attribute__((noinline)) void find_fiber_stack(uintptr_t sp) {
		fib_lo = fib_hi = 0;
		for (unsigned i = 0; i < nmaps; i++)
			if (sp - maps[i].p < maps[i].size) fib_lo = maps[i].p, fib_hi = maps[i].p + maps[i].size;
	}
	static inline void check_stack(uintptr_t a, unsigned size, bool w, uint32_t pc, uintptr_t sp) {
		if (a - STK_BASE < STACKS) {
			const int t = (int)((a - STK_BASE) / STK);
			if (t >= nthr) dead_stack(a, size, w, pc);
			const uintptr_t lo = (uintptr_t)thr[t].stack;
			const uintptr_t p = t == cur->id ? sp : (uintptr_t)thr[t].rsp;
			// a thread that runs a fiber left its own stack at a point we do not know
			if (p - lo < STK && a < p) dead_stack(a, size, w, pc);
		} else if (a - FIB_BASE < FIBERS && sp - FIB_BASE < FIBERS) {
			if (sp - fib_lo >= fib_hi - fib_lo) find_fiber_stack(sp);
			if (a >= fib_lo && a < sp) dead_stack(a, size, w, pc);
		}
	}

	static inline void access_cell(Cell* c, uintptr_t a, uint8_t mask, uint8_t fl, unsigned size, uint32_t pc) {
		if (c->run >> 1 != g_run) {
			c->run = g_run << 1;
			for (auto& e : c->e) e.mask = 0;
			c->e[0] = Ent{cur->vc.c[cur->id], pc, (uint8_t)cur->id, mask, fl, 0};
			return;
		}
		if ((c->run & 1) && (fl & 3) == 1) { // plain write over an atomic location: a new object lives here
			uintptr_t g = a & ~7ull;
			for (unsigned i = 0; i < 8; i++)
				if (mask & (1u << i))
					if (auto l = find_loc(g + i, false)) l->n = 0;
		}
		const uint8_t id = (uint8_t)cur->id;
		const uint32_t clk = cur->vc.c[id];
		int freei = -1, oldi = 0;
		uint32_t oldc = 0xffffffff;
		int same = -1;
		for (int i = 0; i < 5; i++) {
			auto& e = c->e[i];
			if (!e.mask) {
				if (freei < 0) freei = i;
				continue;
			}
			if (e.tid == id) {
				if (e.flags == fl && (mask & e.mask) == mask) {
					if (e.clk == clk) return; // already known in this epoch
					if (e.mask == mask) {
						if (same < 0) same = i;
					} else
						e.mask &= (uint8_t)~mask; // the bytes touched again get an entry of their own
				} else if ((e.mask & ~mask) == 0 && (fl & 1) && !(fl & 2)) {
					e.mask = 0; // subsumed by our stronger plain write
					if (freei < 0) freei = i;
				}
				if (e.clk < oldc) oldc = e.clk, oldi = i;
				continue;
			}
			if (!(e.mask & mask)) continue;
			bool ordered = e.clk <= cur->vc.c[e.tid];
			if (((e.flags | fl) & 1) && !((e.flags & fl) & 2)) {
				if (!ordered) race(a, size, fl, pc, e);
			}
			if (ordered && (e.mask & ~mask) == 0 && ((fl & 1) && !(fl & 2))) {
				e.mask = 0; // fully superseded by our plain write
				if (freei < 0) freei = i;
			}
		}
		if (same >= 0) {
			c->e[same].clk = clk;
			c->e[same].pc = pc;
			return;
		}
		c->e[freei >= 0 ? freei : oldi] = Ent{clk, pc, id, mask, fl, 0};
	}
	static void access(uintptr_t a, unsigned size, uint8_t fl, uint32_t pc, uintptr_t sp = 0) {
		if (++g_accs > 60'000'000) violation("livelock", "memory", "more than 60M memory accesses in one run (endless loop?)");
		Cell* c = cell_of(a);
		if (!c) return;
		bool heap = a - BASE < ARENA;
		if (!heap) check_stack(a, size, fl & 1, pc, sp ? sp : (uintptr_t)__builtin_frame_address(0));
		while (size) {
			unsigned off = a & 7, n = 8 - off;
			if (n > size) n = size;
			if (heap) {
				uint8_t s = astate[(a - BASE) >> 3];
				if (__builtin_expect(s == 0 || s > 8 || off + n > s, 0)) bad_access(a, n, fl & 1, pc);
			}
			access_cell(c, a, (uint8_t)(((1u << n) - 1) << off), fl, n, pc);
			a += n;
			size -= n;
			c++;
		}
	}

	// -------------------------------------------------------------------------------------------------
	// atomics
	static Loc* find_loc(uintptr_t a, bool create) {
		unsigned i = (unsigned)((a * 0x9e3779b97f4a7c15ULL) >> 40) & (NLOC - 1);
		for (unsigned k = 0; k < NLOC; k++, i = (i + 1) & (NLOC - 1)) {
			auto& l = locs[i];
			if (l.run != g_run) {
				if (!create) return nullptr;
				l.run = g_run;
				l.addr = a;
				l.n = 0;
				return &l;
			}
			if (l.addr == a) return &l;
		}
		violation("livelock", "resources", "the run exhausts the simulator: atomic table full");
	}
	static uint64_t memload(const volatile void* p, unsigned size) {
		switch (size) {
		case 1: return *(const volatile uint8_t*)p;
		case 2: return *(const volatile uint16_t*)p;
		case 4: return *(const volatile uint32_t*)p;
		default: return *(const volatile uint64_t*)p;
		}
	}
	static void memstore(volatile void* p, unsigned size, uint64_t v) {
		switch (size) {
		case 1: *(volatile uint8_t*)p = (uint8_t)v; break;
		case 2: *(volatile uint16_t*)p = (uint16_t)v; break;
		case 4: *(volatile uint32_t*)p = (uint32_t)v; break;
		default: *(volatile uint64_t*)p = v;
		}
	}
	static Loc* loc_for(const volatile void* p, unsigned size, uint32_t pc, uintptr_t sp) {
		check_stack((uintptr_t)p, size, true, pc, sp);
		Loc* l = find_loc((uintptr_t)p, true);
		uint64_t v = memload(p, size);
		if (l->n == 0 || l->size != size || l->h[l->n - 1].val != v) {
			l->n = 1;
			l->size = (uint8_t)size;
			auto& s = l->h[0];
			s.val = v;
			s.step = 0;
			s.tid = 0;
			s.clk = 0;
			s.hasrel = false;
			memset(s.rclk, 0, sizeof s.rclk);
		}
		if (Cell* c = cell_of((uintptr_t)p)) if (c->run >> 1 == g_run) c->run |= 1;
		return l;
	}
	static inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
	static inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

	static void read_from(Store& s, int mo) {
		s.rclk[cur->id] = cur->vc.c[cur->id];
		if (s.hasrel) {
			if (is_acq(mo)) join_vc(cur->vc, s.rel);
			join_vc(cur->acqf, s.rel);
		}
		if (mo == __ATOMIC_SEQ_CST) cur->sc_step = g_steps;
	}
	static void push_store(Loc* l, uint64_t v, int mo, bool rmw) {
		if (l->n == HIST) {
			memmove(&l->h[0], &l->h[1], sizeof(Store) * (HIST - 1));
			l->n--;
		}
		Store& o = l->h[l->n - 1];
		Store& s = l->h[l->n];
		s.val = v;
		s.step = g_steps;
		s.tid = (uint32_t)cur->id;
		s.clk = cur->vc.c[cur->id];
		memset(s.rclk, 0, sizeof(uint32_t) * MAXT);
		s.hasrel = false;
		if (rmw && l->n > 0 && o.hasrel) {
			s.rel = o.rel;
			s.hasrel = true;
		}
		if (is_rel(mo) || cur->has_relf) {
			if (!s.hasrel) memset(&s.rel, 0, sizeof s.rel);
			s.hasrel = true;
			join_vc(s.rel, is_rel(mo) ? cur->vc : cur->relf);
		}
		l->n++;
		if (mo == __ATOMIC_SEQ_CST) cur->sc_step = g_steps;
		if (is_rel(mo)) cur->vc.c[cur->id]++;
		else cur->vc.c[cur->id]++; // new epoch so that reads/writes around it stay distinguishable
	}

	static bool passthru() { return !g_active || g_quiet > 0; }
	static void bad_atomic(const volatile void* p) {
		if ((uintptr_t)p < 4096) violation("crash", "null", "atomic operation on address %p", (void*)p);
	}

	static uint64_t do_load(const volatile void* p, unsigned size, int mo, uint32_t pc, uintptr_t sp) {
		if (passthru()) return memload(p, size);
		bad_atomic(p);
		sched_point("load", p, pc);
		g_quiet++;
		access((uintptr_t)p, size, 2, pc);
		Loc* l = loc_for(p, size, pc, sp);
		int i = l->n - 1;
		if (!g_fair && i > 0 && mo != __ATOMIC_SEQ_CST) {
			int cnt = 1;
			for (int k = i; k > 0; k--) { // may we read k-1, i.e. skip store k?
				Store& s = l->h[k];
				if (s.clk <= cur->vc.c[s.tid]) break; // store k happens before this load
				if (s.step <= cur->sc_step) break;	   // conservative rule for seq_cst
				if (g_steps - s.step > 300) break;	   // visibility in finite time
				bool seen = false;
				for (int u = 0; u < nthr; u++)
					if (s.rclk[u] && s.rclk[u] <= cur->vc.c[u]) { seen = true; break; }
				if (seen) break;
				cnt++;
			}
			if (cnt > 1) {
				uint32_t v = choose((uint32_t)cnt, gen.p_stale);
				if (v) {
					n_fault[sim::f_stale_read]++;
					TR("    [fault] stale read: %d store(s) behind\n", v);
					i -= (int)v;
				}
			}
		}
		Store& s = l->h[i];
		read_from(s, mo);
		hash_ev(0x10, s.val < 4096 ? s.val : 0);
		TR("      = 0x%lx\n", (unsigned long)s.val);
		uint64_t r = s.val;
		g_quiet--;
		return r;
	}
	static void do_store(volatile void* p, unsigned size, uint64_t v, int mo, uint32_t pc, uintptr_t sp) {
		if (passthru()) return memstore(p, size, v);
		bad_atomic(p);
		sched_point("store", p, pc);
		g_quiet++;
		access((uintptr_t)p, size, 3, pc);
		Loc* l = loc_for(p, size, pc, sp);
		memstore(p, size, v);
		push_store(l, memload(p, size), mo, false);
		TR("      := 0x%lx\n", (unsigned long)v);
		g_quiet--;
	}
	static uint64_t apply(int op, uint64_t o, uint64_t v) {
		switch (op) {
		case 1: return o + v;
		case 2: return o - v;
		case 3: return o & v;
		case 4: return o | v;
		case 5: return o ^ v;
		case 6: return ~(o & v);
		default: return v;
		}
	}
	static uint64_t do_rmw(volatile void* p, unsigned size, int op, uint64_t v, int mo, uint32_t pc, uintptr_t sp) {
		if (passthru()) {
			uint64_t o = memload(p, size);
			memstore(p, size, apply(op, o, v));
			return o;
		}
		bad_atomic(p);
		sched_point("rmw", p, pc);
		g_quiet++;
		access((uintptr_t)p, size, 3, pc);
		Loc* l = loc_for(p, size, pc, sp);
		Store& s = l->h[l->n - 1];
		uint64_t o = s.val;
		read_from(s, mo);
		memstore(p, size, apply(op, o, v));
		push_store(l, memload(p, size), mo, true);
		hash_ev(0x11, o < 4096 ? o : 0);
		TR("      0x%lx -> 0x%lx\n", (unsigned long)o, (unsigned long)memload(p, size));
		g_quiet--;
		return o;
	}
	static bool do_cas(volatile void* p, unsigned size, void* expected, uint64_t d, bool weak, int so, int fo, uint32_t pc, uintptr_t sp) {
		uint64_t e = 0;
		memcpy(&e, expected, size);
		if (passthru()) {
			uint64_t o = memload(p, size);
			if (o == e) {
				memstore(p, size, d);
				return true;
			}
			memcpy(expected, &o, size);
			return false;
		}
		bad_atomic(p);
		sched_point(weak ? "cas_weak" : "cas", p, pc);
		g_quiet++;
		access((uintptr_t)p, size, 3, pc);
		Loc* l = loc_for(p, size, pc, sp);
		Store& s = l->h[l->n - 1];
		bool ok = s.val == e;
		if (ok && weak && !g_fair && choose(2, gen.p_weak)) {
			ok = false;
			n_fault[sim::f_weak_cas]++;
			TR("    [fault] spurious compare_exchange_weak failure\n");
		}
		uint64_t o = s.val;
		if (ok) {
			read_from(s, so);
			memstore(p, size, d);
			push_store(l, memload(p, size), so, true);
		} else {
			read_from(s, fo);
			memcpy(expected, &o, size);
		}
		hash_ev(0x12 + ok, o < 4096 ? o : 0);
		TR("      %s 0x%lx -> 0x%lx\n", ok ? "ok" : "failed", (unsigned long)o, (unsigned long)d);
		g_quiet--;
		return ok;
	}
	static void do_fence(int mo) {
		if (passthru()) return;
		g_quiet++;
		step("fence", nullptr, 0);
		if (is_acq(mo)) join_vc(cur->vc, cur->acqf);
		if (is_rel(mo)) {
			cur->relf = cur->vc;
			cur->has_relf = true;
			cur->vc.c[cur->id]++;
		}
		if (mo == __ATOMIC_SEQ_CST) cur->sc_step = g_steps;
		g_quiet--;
	}

	// -------------------------------------------------------------------------------------------------
	// threads
	static int64_t fake_id(int id) {
		// identities are a function of the creation order only, so that a choice vector fixes the execution
		uint64_t y = 0x51ed27 + (uint64_t)(id + 1) * 0xbf58476d1ce4e5b9ULL;
		y ^= y >> 31;
		return (int64_t)((y & 0x7fffffffff00ULL) | 0x100000000000ULL | (uint64_t)id);
	}
	static Thr* new_thread(void* (*fn)(void*), void* arg) {
		if (nthr >= MAXT) violation("livelock", "resources", "the run exhausts the simulator: too many simulated threads");
		if (nthr >= ndonor) need_donor();
		Thr& t = thr[nthr];
		char* keep = t.stack;
		uintptr_t min_sp = t.min_sp;
		memset(&t, 0, sizeof t);
		t.stack = keep;
		t.min_sp = min_sp;
		t.id = nthr;
		t.fs = donor_fs[nthr];
		reset_tls(t.fs);
		t.fn = fn;
		t.arg = arg;
		t.deadline = -1;
		t.st = RUNNABLE;
		t.stack = (char*)STK_BASE + STK * (size_t)nthr;
		t.min_sp = (uintptr_t)t.stack + STK;
		nthr++;
		if (cur) {
			t.vc = cur->vc;
			cur->vc.c[cur->id]++;
		}
		t.vc.c[t.id] = 1;
		t.prio = 100 + (in.replay ? 0 : rnd() % 1000);
		uint64_t* sp = (uint64_t*)(t.stack + STK);
		*--sp = 0;
		*--sp = 0; // entry is reached by ret => rsp % 16 == 0 before its call
		*--sp = (uint64_t)simrt_entry;
		for (int i = 0; i < 6; i++) *--sp = 0;
		// a thread starts with the floating point environment of its creator
		uint32_t mx;
		uint16_t cw;
		asm volatile("stmxcsr %0\n\tfnstcw %1" : "=m"(mx), "=m"(cw));
		*--sp = mx | (uint64_t)cw << 32;
		t.rsp = sp;
		return &t;
	}
	static constexpr unsigned NKEYS = 64;
	static bool tsd_used[NKEYS];
	static void (*tsd_dtor[NKEYS])(void*);
	static void* tsd_val[MAXT + 1][NKEYS];
	static void run_dtors(Thr* t) {
		while (t->dtors) {
			Dtor* d = t->dtors;
			t->dtors = d->next;
			d->fn(d->arg);
		}
		for (int round = 0; round < 4; round++)
			for (unsigned k = 0; k < NKEYS; k++) {
				void* v = tsd_val[t->id][k];
				tsd_val[t->id][k] = nullptr;
				if (v && tsd_used[k] && tsd_dtor[k]) tsd_dtor[k](v);
			}
	}
	static void end_of_run();
	extern "C" __attribute__((used, noreturn)) void simrt_thread_main() {
		Thr* me = cur;
		g_quiet = 0;
		void* r = nullptr;
		try {
			r = me->fn(me->arg);
		} catch (...) {
			violation("terminate", "uncaught", "uncaught exception leaves a thread");
		}
		run_dtors(me);
		sched_point("thread-exit", me, 0);
		g_quiet++;
		me->ret = r;
		me->st = FINISHED;
		hb_release(me);
		wake_all(W_JOIN, me);
		TR("t%d exits\n", me->id);
		if (me->id == 0) {
			// main returned: let the others finish
			end_of_run();
		}
		if (thr[0].st == FINISHED) {
			bool all = true;
			for (int i = 0; i < nthr; i++) all &= thr[i].st == FINISHED;
			if (all) {
				g_active = false;
				set_fs(host_fs);
				void* dummy;
				simrt_swap(&dummy, host_rsp);
			}
		}
		step("exited", nullptr, 0);
		Thr* t = pick(false);
		TR("    -> t%d\n", t->id);
		switch_to(t);
		__builtin_unreachable();
	}
	// runs on thread 0 before it is marked finished
	static void main_tail() {
		// wait for every other thread (function-local statics may own threads: their destructors come first then)
		while (!natexit) {
			Thr* alive = nullptr;
			for (int i = 1; i < nthr; i++)
				if (thr[i].st != FINISHED) alive = &thr[i];
			if (!alive) break;
			g_quiet++;
			cur->st = BLOCKED;
			cur->wk = W_JOIN;
			cur->wobj = alive;
			cur->deadline = -1;
			cur->what = "thread exit";
			step("main waits for thread", alive, 0);
			Thr* t = pick(false);
			switch_to(t);
			cur->wk = W_NONE;
			g_quiet--;
			hb_acquire(alive);
		}
		for (int i = 1; i < nthr; i++)
			if (thr[i].st == FINISHED) hb_acquire(&thr[i]);
		// destroy function-local statics initialised during this run
		while (natexit) {
			auto a = atexits[--natexit];
			a.fn(a.arg);
			for (;;) {
				Thr* alive = nullptr;
				for (int i = 1; i < nthr; i++)
					if (thr[i].st != FINISHED) alive = &thr[i];
				if (!alive) break;
				block(W_JOIN, alive, -1, "thread exit");
				hb_acquire(alive);
			}
		}
		for (unsigned i = 0; i < nguards; i++) *guards[i] = 0;
		nguards = 0;
	}
	static void* main_thread_fn(void* p) {
		auto s = (sim::scenario*)p;
		s->fn();
		main_tail();
		return nullptr;
	}
	static void end_of_run() {
		if (nlive)
			for (unsigned i = 0; i < nallocs; i++)
				if (allocs[i].live && !allocs[i].ok) {
					begin_violation("leak", "heap");
					vadd("memory leak: heap block of %u bytes allocated by t%d @%x is still live at the end of the run (%u live)", allocs[i].size, allocs[i].tid, allocs[i].pc, nlive);
					vadd("\n  allocated at:");
					for (auto b : allocs[i].bt)
						if (b) vadd(" %p", b);
					finish_violation();
				}
		for (unsigned i = 0; i < nmaps; i++)
			if (maps[i].live) violation("leak", "mapping", "mapping of %zu bytes created @%x is still mapped at the end of the run", maps[i].size, maps[i].pc);
	}

	// -------------------------------------------------------------------------------------------------
	// allocator
	static void* arena_alloc(size_t size, size_t align, uint32_t pc) {
		uintptr_t p = arena_top + 16;
		p = (p + align - 1) & ~(uintptr_t)(align - 1);
		size_t sz = size ? size : 1;
		uintptr_t e = (p + sz + 15) & ~15ull;
		if (e + 16 > BASE + ARENA || nallocs >= NALLOC || sz > (16u << 20)) {
			if (sz > (16u << 20)) return nullptr; // absurd size: genuine bad_alloc
			violation("livelock", "memory", "more than 64 MB or 128k blocks allocated in one run");
		}
		auto& a = allocs[nallocs];
		a.p = p;
		a.size = (uint32_t)sz;
		a.pc = pc;
		a.live = 1;
		a.ok = 0;
		a.tid = (uint8_t)cur->id;
		memset(a.bt, 0, sizeof a.bt);
		if (tr) get_bt(a.bt, 10);
		*(uint32_t*)(p - 8) = nallocs ^ 0x5a5a0000u;
		uint8_t* st = astate + ((p - BASE) >> 3);
		size_t g = sz / 8;
		memset(st, 8, g);
		if (sz % 8) st[g] = (uint8_t)(sz % 8);
		memset((void*)p, 0xCB, sz);
		arena_top = e;
		nallocs++;
		nlive++;
		return (void*)p;
	}
	static Alloc* find_alloc(void* v) {
		uintptr_t p = (uintptr_t)v;
		if (p - BASE >= ARENA || (p & 7)) return nullptr;
		uint32_t i = *(uint32_t*)(p - 8) ^ 0x5a5a0000u;
		if (i >= nallocs || allocs[i].p != p) return nullptr;
		return &allocs[i];
	}
	static void arena_free(void* v, uint32_t pc) {
		Alloc* a = find_alloc(v);
		if (!a) violation("bad-free", "", "delete of %p (%s), which is not the start of an allocated block, @%x", v, tracked((uintptr_t)v) ? region((uintptr_t)v) : "foreign memory", pc);
		if (!a->live) violation("double-free", "", "double delete of %p (%s) @%x", v, region((uintptr_t)v), pc);
		access(a->p, a->size, 1 | 4, pc);
		memset(astate + ((a->p - BASE) >> 3), 0xFD, (a->size + 7) / 8);
		memset((void*)a->p, 0xDD, a->size);
		a->live = 0;
		a->freepc = pc;
		nlive--;
		hash_ev(0x70, (uintptr_t)v);
		TR("t%d free %p @%x\n", cur->id, v, pc);
	}
	static void resource_fault() {
		cur->fault_n++;
		if (cur->fault_once) cur->fault_p = 0;
	}
	static void* sim_new(size_t size, size_t align, bool nothrow, uint32_t pc) {
		if (passthru()) {
			void* p = nullptr;
			if (align > 16) {
				if (posix_memalign(&p, align, size ? size : 1)) p = nullptr;
			} else
				p = malloc(size ? size : 1);
			if (!p && !nothrow) throw std::bad_alloc();
			return p;
		}
		g_quiet++;
		if (cur->fault_p > 0 && !g_fair && choose(2, cur->fault_p)) {
			resource_fault();
			n_fault[sim::f_alloc]++;
			TR("    [fault] allocation of %zu bytes fails @%x\n", size, pc);
			hash_ev(0xA2, size);
			g_quiet--;
			if (nothrow) return nullptr;
			throw std::bad_alloc();
		}
		void* p = arena_alloc(size, align, pc);
		TR("t%d new %zu = %p @%x\n", cur->id, size, p, pc);
		g_quiet--;
		if (!p && !nothrow) throw std::bad_alloc();
		return p;
	}
	static void sim_delete(void* p, uint32_t pc) {
		if (!p) return;
		bool inarena = (uintptr_t)p - BASE < ARENA;
		if (!inarena && (!g_active || !tracked((uintptr_t)p))) {
			free(p);
			return;
		}
		if (!g_active) return;
		if (g_quiet) {
			// harness bookkeeping in quiet mode releasing an arena block
			Alloc* a = find_alloc(p);
			if (a && a->live) {
				a->live = 0;
				nlive--;
				memset(astate + ((a->p - BASE) >> 3), 0xFD, (a->size + 7) / 8);
			}
			return;
		}
		g_quiet++;
		arena_free(p, pc);
		g_quiet--;
	}

	// -------------------------------------------------------------------------------------------------
	static void handler(int sig, siginfo_t* si, void* uc) {
		if (!g_report) _exit(45);
		if (g_dead) _exit(42); // while symbolising
		auto c = (ucontext_t*)uc;
		if (sig == SIGVTALRM) {
			violation("hang", "cpu", "the run makes no progress (endless loop without synchronisation) @%lx", (unsigned long)c->uc_mcontext.gregs[REG_RIP]);
		}
		if (!g_active) {
			fprintf(stderr, "SIM-ERROR: signal %d outside a run, addr %p ip %lx\n", sig, si->si_addr, (unsigned long)c->uc_mcontext.gregs[REG_RIP]);
			_exit(45);
		}
		violation("crash", "signal", "signal %d (%s) at address %p, instruction @%lx", sig, strsignal(sig), si->si_addr, (unsigned long)c->uc_mcontext.gregs[REG_RIP]);
	}
	static bool g_term_ok;
	static void on_terminate() {
		if (!g_active) {
			fprintf(stderr, "SIM-ERROR: std::terminate outside a run\n");
			_exit(45);
		}
		if (g_term_ok) {
			// the scenario ends here, successfully
			g_quiet++;
			TR("t%d std::terminate, as expected\n", cur->id);
			hash_ev(0x7e, 0);
			for (unsigned i = 0; i < nguards; i++) *guards[i] = 0;
			nguards = natexit = 0;
			g_active = false;
			set_fs(host_fs);
			void* dummy;
			simrt_swap(&dummy, host_rsp);
		}
		const char* what = "";
		const char* ty = "no active exception";
		g_quiet++;
		if (auto t = abi::__cxa_current_exception_type()) {
			ty = t->name();
			try {
				throw;
			} catch (std::exception& e) {
				what = e.what();
			} catch (...) {}
		}
		violation("terminate", "std::terminate", "std::terminate called (%s %s)", ty, what);
	}

	static void init_real();
	void rt_init_process() {
		init_real();
		g_fsgs = getauxval(AT_HWCAP2) & 2;
		g_lo = (uintptr_t)&__data_start & ~7ull;
		g_sz = (uintptr_t)&_end - g_lo;
		auto rsv = [](uintptr_t at, size_t sz, int prot) {
			void* p = (void*)raw_syscall6(SYS_mmap, (long)at, (long)sz, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
			if ((uintptr_t)p != at) {
				fprintf(stderr, "SIM-ERROR: cannot reserve address space at %lx\n", (unsigned long)at);
				_exit(45);
			}
		};
		rsv(BASE, ARENA + STACKS, PROT_READ | PROT_WRITE);
		for (int i = 0; i < MAXT; i++) // guard page below each stack
		{
			raw_syscall6(SYS_mprotect, (long)(STK_BASE + STK * (size_t)i), 4096, PROT_NONE, 0, 0, 0);
			memset((void*)(STK_BASE + STK * (size_t)i + 4096), 0xCB, STK - 4096); // uninitialised variables are not zero
		}
		rsv(FIB_BASE, FIBERS, PROT_NONE);
		rsv(SHADOW, TOTAL / 8 * sizeof(Cell), PROT_READ | PROT_WRITE);
		rsv(ASTATE, ARENA / 8, PROT_READ | PROT_WRITE);
		auto mm = [](size_t sz) {
			return (void*)raw_syscall6(SYS_mmap, 0, (long)sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		};
		gshadow = (Cell*)mm((g_sz / 8 + 2) * sizeof(Cell));
		locs = (Loc*)mm(sizeof(Loc) * NLOC);
		syncs = (SyncObj*)mm(sizeof(SyncObj) * NSYNC);
		allocs = (Alloc*)mm(sizeof(Alloc) * NALLOC);
		hlog = (sim::event*)mm(sizeof(sim::event) * NLOG);
		chv = (uint8_t*)mm(MAXCH);
		// executable's TLS image
		dl_iterate_phdr(
			[](dl_phdr_info* i, size_t, void*) {
				for (int k = 0; k < i->dlpi_phnum; k++)
					if (i->dlpi_phdr[k].p_type == PT_TLS) {
						tls_init = (void*)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr);
						tls_filesz = i->dlpi_phdr[k].p_filesz;
						tls_memsz = i->dlpi_phdr[k].p_memsz;
						tls_off = get_fs() - (uintptr_t)i->dlpi_tls_data;
					}
				return 1; // the first object is the executable
			},
			nullptr);
		stack_t ss{};
		ss.ss_sp = mm(65536);
		ss.ss_size = 65536;
		sigaltstack(&ss, nullptr);
		struct sigaction sa {};
		sa.sa_sigaction = handler;
		sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
		for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP, SIGVTALRM}) sigaction(s, &sa, nullptr);
		std::set_terminate(on_terminate);
	}

	static void gen_config() {
		memset(&gen, 0, sizeof gen);
		gen.victim = -1;
		double ps[] = {0.02, 0.05, 0.1, 0.2, 0.35, 0.5};
		gen.p_switch = ps[rnd() % 6];
		unsigned m = rnd() % 10;
		gen.mode = m < 5 ? 0 : m < 8 ? 1 : m < 9 ? 2 : 0;
		if (m == 9) gen.p_switch = 0.005;
		gen.npct = 1 + (int)(rnd() % 5);
		unsigned est[] = {30, 60, 120, 250, 500, 1000, 2000};
		unsigned k = est[rnd() % 7];
		for (int i = 0; i < gen.npct; i++) gen.pct_pts[i] = 1 + (unsigned)(rnd() % k);
		auto on = [](double p) { return rnd01() < p; };
		gen.p_time = on(0.35) ? (on(0.3) ? 0.05 : 0.008) : 0;
		gen.p_spur = on(0.35) ? (on(0.3) ? 0.2 : 0.02) : 0;
		gen.p_weak = on(0.4) ? (on(0.3) ? 0.5 : 0.1) : 0;
		gen.p_try = on(0.4) ? 0.2 : 0;
		gen.p_stale = on(0.5) ? (on(0.5) ? 0.5 : 0.1) : 0;
		if (on(0.3)) {
			gen.victim = (int)(rnd() % 6);
			gen.vic_from = rnd() % k;
			gen.vic_to = gen.vic_from + 20 + rnd() % 1500;
		}
	}

	RunOut run_one(const RunIn& i) {
		in = i;
		g_run++;
		if (g_run >= 0x7ffffff0) harness_error("run tag overflow");
		// reset per-run state
		nthr = 0;
		nch = 0;
		g_hash = 0x1234567 + (uint64_t)in.scenario;
		g_steps = g_accs = g_seq = 0;
		g_now = 1'000'000'000'000LL;
		g_wall_off = 1'700'000'000'000'000'000LL;
		g_fair = false;
		lim_fair = 4000;
		lim_steps = 80000;
		lim_time = g_now + 600'000'000'000LL;
		n_switch = n_preempt = 0;
		memset(n_fault, 0, sizeof n_fault);
		memset(slots, 0, sizeof slots);
		memset(&harness_vc, 0, sizeof harness_vc);
		nhlog = 0;
		natexit = nguards = 0;
		g_term_ok = false;
		nhit = 0;
		ndtor = 0;
		waitseq = 0;
		memset(astate, 0, (arena_top > BASE ? arena_top - BASE : 0) / 8 + 8);
		arena_top = BASE + 64;
		nallocs = nlive = 0;
		if (nmaps) {
			raw_syscall6(SYS_mmap, (long)FIB_BASE, (long)(fib_top - FIB_BASE), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
			nmaps = 0;
		}
		fib_top = FIB_BASE;
		fib_lo = fib_hi = 0;
		trn = 0;
		if (in.trace && !tr) {
			trcap = (1u << 20) - 1;
			tr = (char*)malloc(trcap);
		}
		seed_rng(in.seed);
		if (!in.replay) gen_config();
		else { memset(&gen, 0, sizeof gen); gen.victim = -1; }
		cur = nullptr;
		Thr* t0 = new_thread(main_thread_fn, scenario_at(in.scenario));
		cur = t0;
		host_fs = get_fs();
		g_quiet = 1;
		g_active = true;
		set_fs(t0->fs);
		simrt_swap(&host_rsp, t0->rsp);
		g_active = false;
		cur = nullptr;
		// scrub the parts of the stacks that were used so that stale contents do not differ between runs
		for (int t = 0; t < nthr; t++) {
			uintptr_t lo = thr[t].min_sp;
			lo = lo > (uintptr_t)thr[t].stack + 65536 ? lo - 65536 : (uintptr_t)thr[t].stack;
			if (lo < (uintptr_t)thr[t].stack + 4096) lo = (uintptr_t)thr[t].stack + 4096;
			memset((void*)lo, 0xCB, (uintptr_t)thr[t].stack + STK - lo);
		}
		if (tr && g_report) {
			unsigned n = trn < sizeof(g_report->trace) - 1 ? trn : (unsigned)sizeof(g_report->trace) - 1;
			memcpy(g_report->trace, tr, n);
			g_report->ntrace = n;
		}
		// statistics
		if (g_stats) {
			auto& s = *g_stats;
			auto ad = [](uint64_t& x, uint64_t v) { if (v) __atomic_fetch_add(&x, v, __ATOMIC_RELAXED); };
			ad(s.runs, 1);
			ad(s.steps, g_steps);
			ad(s.simtime_ns, (uint64_t)(g_now - 1'000'000'000'000LL));
			ad(s.switches, n_switch);
			ad(s.preemptions, n_preempt);
			ad(s.choices, nch);
			ad(s.accesses, g_accs);
			ad(s.allocs, nallocs);
			ad(s.threads, (uint64_t)nthr);
			uint64_t any = 0;
			for (unsigned f = 0; f < sim::f_count; f++) { ad(s.faults[f], n_fault[f]); any += n_fault[f]; }
			ad(s.fault_runs, any != 0);
			ad(s.fair_runs, g_fair);
			ad(s.scen_runs[in.scenario & 63], 1);
			uint64_t m = __atomic_load_n(&s.max_steps, __ATOMIC_RELAXED);
			while (g_steps > m && !__atomic_compare_exchange_n(&s.max_steps, &m, g_steps, true, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {}
			bool nontriv = n_preempt > 0 || n_switch > 2 || any != 0;
			ad(s.nontrivial, nontriv);
			insert_distinct(g_hash, nontriv);
			for (unsigned h = 0; h < nhit; h++) {
				bool dup = false;
				for (unsigned k = 0; k < h; k++) dup |= hit_probes[k] == hit_probes[h];
				for (unsigned k = 0; k < MAXPROBE; k++) {
					auto& p = s.probes[k];
					if (!p.name[0]) {
						// racy between workers, harmless: identical names merge in the report
						snprintf(p.name, sizeof p.name, "%s", hit_probes[h]);
					}
					if (!strcmp(p.name, hit_probes[h])) {
						ad(p.hits, 1);
						if (!dup) ad(p.runs, 1);
						break;
					}
				}
			}
		}
		return RunOut{g_hash, g_steps, g_now, nch};
	}
	const uint8_t* last_choices() { return chv; }
	void insert_distinct(uint64_t h, bool nontriv) {
		if (!g_set || !h) return;
		uint64_t m = g_set_cap - 1, i = (h * 0x9e3779b97f4a7c15ULL) & m;
		for (int k = 0; k < 64; k++, i = (i + 1) & m) {
			uint64_t v = __atomic_load_n(&g_set[i], __ATOMIC_RELAXED);
			if (v == h) return;
			if (v == 0) {
				uint64_t z = 0;
				if (__atomic_compare_exchange_n(&g_set[i], &z, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
					__atomic_fetch_add(&g_stats->distinct, 1, __ATOMIC_RELAXED);
					if (nontriv) __atomic_fetch_add(&g_stats->distinct_nontrivial, 1, __ATOMIC_RELAXED);
					return;
				}
				if (z == h) return;
			}
		}
		__atomic_fetch_add(&g_stats->set_full, 1, __ATOMIC_RELAXED);
	}

	static sim::scenario* scen_head;
	sim::scenario* scenario_list() { return scen_head; }
	int scenario_count() {
		int n = 0;
		for (auto s = scen_head; s; s = s->next) n++;
		return n;
	}
	sim::scenario* scenario_at(int i) {
		auto s = scen_head;
		while (i-- > 0 && s) s = s->next;
		return s;
	}

	// -------------------------------------------------------------------------------------------------
	// real functions for use outside simulated threads
	static int (*real_mutex_lock)(pthread_mutex_t*);
	static int (*real_mutex_trylock)(pthread_mutex_t*);
	static int (*real_mutex_unlock)(pthread_mutex_t*);
	static int (*real_once)(pthread_once_t*, void (*)());
	static int (*real_clock_gettime)(clockid_t, timespec*);
	static int (*real_cxa_atexit)(void (*)(void*), void*, void*);
	static bool real_ready;
	static void init_real() {
		if (real_ready) return;
		real_ready = true;
		real_pthread_create = (decltype(real_pthread_create))dlsym(RTLD_NEXT, "pthread_create");
		real_mutex_lock = (decltype(real_mutex_lock))dlsym(RTLD_NEXT, "pthread_mutex_lock");
		real_mutex_trylock = (decltype(real_mutex_trylock))dlsym(RTLD_NEXT, "pthread_mutex_trylock");
		real_mutex_unlock = (decltype(real_mutex_unlock))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
		real_once = (decltype(real_once))dlsym(RTLD_NEXT, "pthread_once");
		real_clock_gettime = (decltype(real_clock_gettime))dlsym(RTLD_NEXT, "clock_gettime");
		real_cxa_atexit = (decltype(real_cxa_atexit))dlsym(RTLD_NEXT, "__cxa_atexit");
	}

	// mutex state lives in the pthread_mutex_t itself: word 0 = owner+1
	static inline int& mword(pthread_mutex_t* m) { return *(int*)m; }
	// word 1 = recursion depth below the outermost lock; the kind stays where glibc keeps it
	static inline int& mdepth(pthread_mutex_t* m) { return ((int*)m)[1]; }
	static inline bool mrecursive(pthread_mutex_t* m) { return (((int*)m)[4] & 3) == PTHREAD_MUTEX_RECURSIVE; }
	static bool m_acquire(pthread_mutex_t* m, uint32_t pc, int64_t deadline = -1) {
		if (mword(m) == cur->id + 1 && mrecursive(m)) {
			mdepth(m)++;
			return true;
		}
		while (mword(m) != 0) {
			if (mword(m) == cur->id + 1 && deadline < 0) violation("deadlock", "self", "t%d locks mutex %p it already holds @%x", cur->id, (void*)m, pc);
			if (deadline >= 0 && deadline <= g_now) return false;
			block(W_MUTEX, m, deadline, nullptr);
			access((uintptr_t)m, 4, 3, pc);
		}
		mword(m) = cur->id + 1;
		hb_acquire(m);
		return true;
	}
	static void m_release(pthread_mutex_t* m) {
		hb_release(m);
		mword(m) = 0;
		wake_all(W_MUTEX, m);
	}
	/// the wall clock is set while the program runs (choice 0: not)
	static bool wall_jump(double p) {
		static const int64_t d[] = {-3600'000'000'000LL, 3600'000'000'000LL, -1'000'000LL, 86400'000'000'000LL * 365};
		const uint32_t v = choose(5, p);
		if (!v) return false;
		n_fault[sim::f_wall_jump]++;
		g_wall_off += d[v - 1];
		hash_ev(0x33, v);
		TR("    [fault] the wall clock is set by %+.3f s\n", d[v - 1] / 1e9);
		return true;
	}
	static int64_t to_ns(const timespec* t, clockid_t c) {
		// somebody waits for a point of the wall clock: it may be set during the wait
		if (c == CLOCK_REALTIME && !g_fair) wall_jump(0.2);
		int64_t v = (int64_t)t->tv_sec * 1'000'000'000LL + t->tv_nsec;
		if (t->tv_sec > 9'000'000'000LL) v = INT64_MAX / 2;
		if (c == CLOCK_REALTIME) v -= g_wall_off;
		return v < 0 ? 0 : v;
	}
	static int cond_wait_impl(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline, uint32_t pc) {
		sched_point("cond_wait", c, pc);
		g_quiet++;
		access((uintptr_t)c, 4, 3, pc);
		access((uintptr_t)m, 4, 3, pc);
		if (mword(m) != cur->id + 1) violation("misuse", "condwait", "condition variable wait without holding its mutex");
		const int depth = mdepth(m);
		mdepth(m) = 0;
		m_release(m);
		bool to = false;
		if (deadline >= 0 && deadline <= g_now) {
			to = true;
		} else {
			block(W_COND, c, deadline, nullptr);
			to = cur->timed_out;
			access((uintptr_t)c, 4, 3, pc);
			access((uintptr_t)m, 4, 3, pc);
		}
		m_acquire(m, pc);
		mdepth(m) = depth;
		g_quiet--;
		return to ? ETIMEDOUT : 0;
	}
} // namespace simrt

using namespace simrt;

// =====================================================================================================
// TSan ABI
EX void __tsan_init() {}
EX void __tsan_func_entry(void*) {}
EX void __tsan_func_exit() {}
#define FA (uintptr_t)__builtin_frame_address(0)
#define ACC(a, n, fl)                                                                                                  \
	do {                                                                                                               \
		if (__builtin_expect(!g_active || g_quiet, 0)) return;                                                         \
		access((uintptr_t)(a), (unsigned)(n), fl, RA, FA);                                                              \
	} while (0)
#define RW(n)                                                                                                          \
	EX void __tsan_read##n(void* a) { ACC(a, n, 0); }                                                                  \
	EX void __tsan_write##n(void* a) { ACC(a, n, 1); }                                                                 \
	EX void __tsan_unaligned_read##n(void* a) { ACC(a, n, 0); }                                                        \
	EX void __tsan_unaligned_write##n(void* a) { ACC(a, n, 1); }                                                       \
	EX void __tsan_volatile_read##n(void* a) { ACC(a, n, 0); }                                                         \
	EX void __tsan_volatile_write##n(void* a) { ACC(a, n, 1); }                                                        \
	EX void __tsan_unaligned_volatile_read##n(void* a) { ACC(a, n, 0); }                                               \
	EX void __tsan_unaligned_volatile_write##n(void* a) { ACC(a, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EX void __tsan_read_range(void* a, unsigned long n) { ACC(a, n, 0); }
EX void __tsan_write_range(void* a, unsigned long n) { ACC(a, n, 1); }
EX void __tsan_vptr_update(void** a, void* nv) {
	if (!g_active || g_quiet) return;
	if ((uintptr_t)a - BASE < ARENA) {
		uint8_t s = astate[((uintptr_t)a - BASE) >> 3];
		if (s == 0 || s > 8) access((uintptr_t)a, 8, 1, RA);
	}
	if (*a != nv) access((uintptr_t)a, 8, 1, RA);
}
EX void __tsan_vptr_read(void** a) { ACC(a, 8, 0); }

EX uint64_t simrt_atomic_load(const volatile void* p, unsigned size, int mo) { return do_load(p, size, mo & 7, RA, FA); }
EX void simrt_atomic_store(volatile void* p, unsigned size, uint64_t v, int mo) { do_store(p, size, v, mo & 7, RA, FA); }
EX uint64_t simrt_atomic_rmw(volatile void* p, unsigned size, int op, uint64_t v, int mo) { return do_rmw(p, size, op, v, mo & 7, RA, FA); }
EX bool simrt_atomic_cas(volatile void* p, unsigned size, void* e, uint64_t d, bool weak, int s, int f) { return do_cas(p, size, e, d, weak, s & 7, f & 7, RA, FA); }
EX void simrt_atomic_fence(int mo) { do_fence(mo & 7); }

#define ATOM(bits, T)                                                                                                  \
	EX T __tsan_atomic##bits##_load(const volatile T* a, int mo) { return (T)do_load(a, sizeof(T), mo & 7, RA, FA); }      \
	EX void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { do_store(a, sizeof(T), (uint64_t)v, mo & 7, RA, FA); } \
	EX T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { return (T)do_rmw(a, sizeof(T), 0, (uint64_t)v, mo & 7, RA, FA); } \
	EX T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { return (T)do_rmw(a, sizeof(T), 1, (uint64_t)v, mo & 7, RA, FA); } \
	EX T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { return (T)do_rmw(a, sizeof(T), 2, (uint64_t)v, mo & 7, RA, FA); } \
	EX T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { return (T)do_rmw(a, sizeof(T), 3, (uint64_t)v, mo & 7, RA, FA); } \
	EX T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { return (T)do_rmw(a, sizeof(T), 4, (uint64_t)v, mo & 7, RA, FA); } \
	EX T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { return (T)do_rmw(a, sizeof(T), 5, (uint64_t)v, mo & 7, RA, FA); } \
	EX T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { return (T)do_rmw(a, sizeof(T), 6, (uint64_t)v, mo & 7, RA, FA); } \
	EX bool __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int s, int f) { return do_cas(a, sizeof(T), c, (uint64_t)v, false, s & 7, f & 7, RA, FA); } \
	EX bool __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int s, int f) { return do_cas(a, sizeof(T), c, (uint64_t)v, true, s & 7, f & 7, RA, FA); }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
EX void __tsan_atomic_thread_fence(int mo) { do_fence(mo & 7); }
EX void __tsan_atomic_signal_fence(int) {}
// annotations of the standard library around its own locks (std::atomic<std::shared_ptr>)
EX void __tsan_mutex_create(void*, unsigned) {}
EX void __tsan_mutex_destroy(void*, unsigned) {}
EX void __tsan_mutex_pre_lock(void*, unsigned) {}
EX void __tsan_mutex_post_lock(void* a, unsigned, int) {
	if (g_active && !g_quiet) hb_acquire((char*)a + 1);
}
EX int __tsan_mutex_pre_unlock(void* a, unsigned) {
	if (g_active && !g_quiet) hb_release((char*)a + 1);
	return 0;
}
EX void __tsan_mutex_post_unlock(void*, unsigned) {}
EX void __tsan_mutex_pre_signal(void*, unsigned) {}
EX void __tsan_mutex_post_signal(void*, unsigned) {}
EX void __tsan_mutex_pre_divert(void*, unsigned) {}
EX void __tsan_mutex_post_divert(void*, unsigned) {}

// =====================================================================================================
// allocator
#define ON_NEW(sz, al, nt) return sim_new(sz, (size_t)(al), nt, RA)
EX void* _Znwm(size_t n) { ON_NEW(n, 16, false); }
EX void* _Znam(size_t n) { ON_NEW(n, 16, false); }
EX void* _ZnwmRKSt9nothrow_t(size_t n, const std::nothrow_t&) { ON_NEW(n, 16, true); }
EX void* _ZnamRKSt9nothrow_t(size_t n, const std::nothrow_t&) { ON_NEW(n, 16, true); }
EX void* _ZnwmSt11align_val_t(size_t n, std::align_val_t a) { ON_NEW(n, a, false); }
EX void* _ZnamSt11align_val_t(size_t n, std::align_val_t a) { ON_NEW(n, a, false); }
EX void* _ZnwmSt11align_val_tRKSt9nothrow_t(size_t n, std::align_val_t a, const std::nothrow_t&) { ON_NEW(n, a, true); }
EX void _ZdlPv(void* p) { sim_delete(p, RA); }
EX void _ZdaPv(void* p) { sim_delete(p, RA); }
EX void _ZdlPvm(void* p, size_t) { sim_delete(p, RA); }
EX void _ZdaPvm(void* p, size_t) { sim_delete(p, RA); }
EX void _ZdlPvRKSt9nothrow_t(void* p, const std::nothrow_t&) { sim_delete(p, RA); }
EX void _ZdlPvSt11align_val_t(void* p, std::align_val_t) { sim_delete(p, RA); }
EX void _ZdlPvmSt11align_val_t(void* p, size_t, std::align_val_t) { sim_delete(p, RA); }
EX void _ZdaPvSt11align_val_t(void* p, std::align_val_t) { sim_delete(p, RA); }
EX void _ZdaPvmSt11align_val_t(void* p, size_t, std::align_val_t) { sim_delete(p, RA); }

// =====================================================================================================
// pthread
EX int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
	if (!g_active) {
		init_real();
		return real_pthread_create(out, at, fn, arg);
	}
	sched_point("pthread_create", nullptr, RA);
	g_quiet++;
	if (cur->fault_p > 0 && !g_fair && choose(2, cur->fault_p)) {
		resource_fault();
		n_fault[sim::f_thread_create]++;
		TR("    [fault] thread creation fails\n");
		hash_ev(0xA3, 0);
		g_quiet--;
		return EAGAIN;
	}
	Thr* t = new_thread(fn, arg);
	*out = (pthread_t)fake_id(t->id);
	if (at) {
		int ds = 0;
		pthread_attr_getdetachstate(at, &ds);
		t->detached = ds == PTHREAD_CREATE_DETACHED;
	}
	TR("t%d creates t%d\n", cur->id, t->id);
	g_quiet--;
	return 0;
}
static Thr* thr_of(pthread_t p) {
	for (int i = 0; i < nthr; i++)
		if ((pthread_t)fake_id(i) == p) return &thr[i];
	violation("misuse", "pthread_t", "invalid thread handle");
}
EX int pthread_join(pthread_t p, void** ret) {
	if (!g_active) return EINVAL;
	sched_point("pthread_join", nullptr, RA);
	g_quiet++;
	Thr* t = thr_of(p);
	if (t == cur) {
		g_quiet--;
		return EDEADLK;
	}
	if (t->joined || t->detached) violation("misuse", "join", "join of a joined or detached thread");
	while (t->st != FINISHED) block(W_JOIN, t, -1, nullptr);
	t->joined = true;
	hb_acquire(t);
	if (ret) *ret = t->ret;
	g_quiet--;
	return 0;
}
EX int pthread_detach(pthread_t p) {
	if (!g_active) return 0;
	thr_of(p)->detached = true;
	return 0;
}
EX pthread_t pthread_self() {
	if (!g_active || !cur) return (pthread_t)get_fs();
	return (pthread_t)fake_id(cur->id);
}
EX int pthread_setname_np(pthread_t, const char*) { return 0; }
EX int sched_yield() {
	if (g_active && !g_quiet) sched_point("yield", nullptr, RA, true);
	return 0;
}
EX int get_nprocs() { return 4; }

EX int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* at) {
	memset(m, 0, sizeof *m);
	int kind = 0;
	if (at) pthread_mutexattr_gettype(at, &kind);
	((int*)m)[4] = kind & 3;
	return 0;
}
EX int pthread_mutex_destroy(pthread_mutex_t* m) {
	if (passthru()) return 0;
	g_quiet++;
	access((uintptr_t)m, 40, 5, RA);
	g_quiet--;
	return 0;
}
EX int pthread_mutex_lock(pthread_mutex_t* m) {
	if (passthru()) {
		if (g_active) { mword(m) = 0; return 0; }
		init_real();
		return real_mutex_lock(m);
	}
	bad_atomic(m);
	sched_point("mutex_lock", m, RA);
	g_quiet++;
	access((uintptr_t)m, 4, 3, RA);
	m_acquire(m, RA);
	g_quiet--;
	return 0;
}
EX int pthread_mutex_trylock(pthread_mutex_t* m) {
	if (passthru()) {
		if (g_active) return 0;
		init_real();
		return real_mutex_trylock(m);
	}
	bad_atomic(m);
	sched_point("mutex_trylock", m, RA);
	g_quiet++;
	access((uintptr_t)m, 4, 3, RA);
	int r = 0;
	if (mword(m) == cur->id + 1 && mrecursive(m)) mdepth(m)++;
	else if (mword(m) != 0) r = EBUSY;
	else if (!g_fair && choose(2, gen.p_try)) {
		n_fault[sim::f_trylock]++;
		TR("    [fault] spurious try_lock failure\n");
		r = EBUSY;
	} else {
		mword(m) = cur->id + 1;
		hb_acquire(m);
	}
	hash_ev(0x20, (uint64_t)r);
	g_quiet--;
	return r;
}
EX int pthread_mutex_unlock(pthread_mutex_t* m) {
	if (passthru()) {
		if (g_active) { return 0; }
		init_real();
		return real_mutex_unlock(m);
	}
	bad_atomic(m);
	sched_point("mutex_unlock", m, RA);
	g_quiet++;
	access((uintptr_t)m, 4, 3, RA);
	if (mword(m) != cur->id + 1) violation("misuse", "unlock", "t%d unlocks mutex %p it does not hold", cur->id, (void*)m);
	if (mdepth(m)) mdepth(m)--;
	else m_release(m);
	g_quiet--;
	return 0;
}
EX int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* t) {
	if (passthru()) return pthread_mutex_lock(m);
	bad_atomic(m);
	sched_point("mutex_timedlock", m, RA);
	g_quiet++;
	access((uintptr_t)m, 4, 3, RA);
	const bool ok = m_acquire(m, RA, to_ns(t, c));
	hash_ev(0x21, ok);
	g_quiet--;
	return ok ? 0 : ETIMEDOUT;
}
EX int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) { return pthread_mutex_clocklock(m, CLOCK_REALTIME, t); }

// thread specific data
EX int pthread_key_create(pthread_key_t* k, void (*d)(void*)) {
	for (unsigned i = 0; i < NKEYS; i++)
		if (!tsd_used[i]) {
			tsd_used[i] = true;
			tsd_dtor[i] = d;
			for (auto& t : tsd_val) t[i] = nullptr;
			*k = i;
			return 0;
		}
	return EAGAIN;
}
EX int pthread_key_delete(pthread_key_t k) {
	if (k >= NKEYS || !tsd_used[k]) return EINVAL;
	tsd_used[k] = false;
	return 0;
}
EX void* pthread_getspecific(pthread_key_t k) { return k < NKEYS ? tsd_val[g_active && cur ? cur->id : MAXT][k] : nullptr; }
EX int pthread_setspecific(pthread_key_t k, const void* v) {
	if (k >= NKEYS || !tsd_used[k]) return EINVAL;
	tsd_val[g_active && cur ? cur->id : MAXT][k] = (void*)v;
	return 0;
}

EX int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) {
	memset(c, 0, sizeof *c);
	return 0;
}
EX int pthread_cond_destroy(pthread_cond_t* c) {
	if (passthru()) return 0;
	g_quiet++;
	for (int i = 0; i < nthr; i++)
		if (thr[i].st == BLOCKED && thr[i].wk == W_COND && thr[i].wobj == c) violation("misuse", "cond-destroy", "condition variable destroyed while t%d waits on it", i);
	access((uintptr_t)c, 48, 5, RA);
	g_quiet--;
	return 0;
}
EX int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
	if (passthru()) return 0;
	bad_atomic(c);
	return cond_wait_impl(c, m, -1, RA);
}
EX int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) {
	if (passthru()) return ETIMEDOUT;
	bad_atomic(c);
	return cond_wait_impl(c, m, to_ns(t, CLOCK_REALTIME), RA);
}
EX int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const timespec* t) {
	if (passthru()) return ETIMEDOUT;
	bad_atomic(c);
	return cond_wait_impl(c, m, to_ns(t, clk), RA);
}
EX int pthread_cond_signal(pthread_cond_t* c) {
	if (passthru()) return 0;
	bad_atomic(c);
	sched_point("cond_signal", c, RA);
	g_quiet++;
	access((uintptr_t)c, 4, 3, RA);
	Thr* w[MAXT];
	int n = 0;
	for (int i = 0; i < nthr; i++)
		if (thr[i].st == BLOCKED && thr[i].wk == W_COND && thr[i].wobj == c) w[n++] = &thr[i];
	if (n) {
		uint32_t v = g_fair ? 0 : choose((uint32_t)n, 0.5);
		wake(w[v]);
		TR("      wakes t%d\n", w[v]->id);
	}
	g_quiet--;
	return 0;
}
EX int pthread_cond_broadcast(pthread_cond_t* c) {
	if (passthru()) return 0;
	bad_atomic(c);
	sched_point("cond_broadcast", c, RA);
	g_quiet++;
	access((uintptr_t)c, 4, 3, RA);
	wake_all(W_COND, c);
	g_quiet--;
	return 0;
}

// rwlock: word 0 = writer id + 1, word 1 = reader count
static inline int* rww(pthread_rwlock_t* l) { return (int*)l; }
EX int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) {
	memset(l, 0, sizeof *l);
	return 0;
}
EX int pthread_rwlock_destroy(pthread_rwlock_t* l) {
	if (passthru()) return 0;
	g_quiet++;
	access((uintptr_t)l, 56, 5, RA);
	if (rww(l)[0] || rww(l)[1]) violation("misuse", "rwlock-destroy", "shared mutex destroyed while locked");
	g_quiet--;
	return 0;
}
static void rw_rd_clock(pthread_rwlock_t* l, bool rel) { // readers' clock kept beside the writer's
	const char* k = (const char*)l + 1;
	if (rel) hb_release(k);
	else hb_acquire(k);
}
static int rw_lock(pthread_rwlock_t* l, bool write, int64_t deadline, uint32_t pc) {
	sched_point(write ? "rwlock_wrlock" : "rwlock_rdlock", l, pc);
	g_quiet++;
	access((uintptr_t)l, 4, 3, pc);
	int r = 0;
	while (rww(l)[0] || (write && rww(l)[1])) {
		if (rww(l)[0] == cur->id + 1 && deadline < 0) violation("deadlock", "self", "t%d locks a shared mutex it holds exclusively", cur->id);
		if (deadline >= 0 && deadline <= g_now) {
			r = ETIMEDOUT;
			break;
		}
		block(W_RWLOCK, l, deadline, nullptr);
	}
	if (!r) {
		if (write) rww(l)[0] = cur->id + 1;
		else rww(l)[1]++;
		hb_acquire(l);
		if (write) rw_rd_clock(l, false);
	}
	if (deadline >= 0) hash_ev(0x22, (uint64_t)r);
	g_quiet--;
	return r;
}
EX int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return passthru() ? 0 : rw_lock(l, false, -1, RA); }
EX int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t c, const timespec* t) { return passthru() ? 0 : rw_lock(l, false, to_ns(t, c), RA); }
EX int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const timespec* t) { return passthru() ? 0 : rw_lock(l, false, to_ns(t, CLOCK_REALTIME), RA); }
EX int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t c, const timespec* t) { return passthru() ? 0 : rw_lock(l, true, to_ns(t, c), RA); }
EX int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const timespec* t) { return passthru() ? 0 : rw_lock(l, true, to_ns(t, CLOCK_REALTIME), RA); }
EX int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
	if (passthru()) return 0;
	sched_point("rwlock_tryrdlock", l, RA);
	g_quiet++;
	access((uintptr_t)l, 4, 3, RA);
	int r = 0;
	if (rww(l)[0]) r = EBUSY;
	else if (!g_fair && choose(2, gen.p_try)) {
		n_fault[sim::f_trylock]++;
		r = EBUSY;
	} else {
		rww(l)[1]++;
		hb_acquire(l);
	}
	hash_ev(0x21, (uint64_t)r);
	g_quiet--;
	return r;
}
EX int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return passthru() ? 0 : rw_lock(l, true, -1, RA); }
EX int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
	if (passthru()) return 0;
	sched_point("rwlock_trywrlock", l, RA);
	g_quiet++;
	access((uintptr_t)l, 4, 3, RA);
	int r = 0;
	if (rww(l)[0] || rww(l)[1] || (!g_fair && choose(2, gen.p_try))) r = EBUSY;
	else {
		rww(l)[0] = cur->id + 1;
		hb_acquire(l);
		rw_rd_clock(l, false);
	}
	g_quiet--;
	return r;
}
EX int pthread_rwlock_unlock(pthread_rwlock_t* l) {
	if (passthru()) return 0;
	sched_point("rwlock_unlock", l, RA);
	g_quiet++;
	access((uintptr_t)l, 4, 3, RA);
	if (rww(l)[0]) {
		if (rww(l)[0] != cur->id + 1) violation("misuse", "unlock", "unlock of a shared mutex held by another thread");
		rww(l)[0] = 0;
		hb_release(l);
	} else {
		if (rww(l)[1] <= 0) violation("misuse", "unlock", "unlock of a shared mutex that is not locked");
		rww(l)[1]--;
		rw_rd_clock(l, true);
	}
	wake_all(W_RWLOCK, l);
	g_quiet--;
	return 0;
}

EX int pthread_once(pthread_once_t* o, void (*fn)()) {
	if (passthru()) {
		if (g_active) {
			if (*o != 2) { fn(); *o = 2; }
			return 0;
		}
		init_real();
		return real_once(o, fn);
	}
	sched_point("once", o, RA);
	g_quiet++;
	access((uintptr_t)o, 4, 3, RA);
	while (*o == 1) block(W_ONCE, o, -1, nullptr);
	if (*o == 2) {
		hb_acquire(o);
		g_quiet--;
		return 0;
	}
	*o = 1;
	g_quiet--;
	try {
		fn();
	} catch (...) {
		*o = 0;
		wake_all(W_ONCE, o);
		throw;
	}
	g_quiet++;
	hb_release(o);
	*o = 2;
	wake_all(W_ONCE, o);
	g_quiet--;
	return 0;
}

EX int __cxa_guard_acquire(uint64_t* g) {
	auto b = (volatile uint8_t*)g;
	if (b[0]) {
		if (!passthru()) hb_acquire(g);
		return 0;
	}
	if (passthru()) {
		b[1] = 1;
		return 1;
	}
	sched_point("static-guard", g, RA);
	g_quiet++;
	while (!b[0] && b[1]) block(W_GUARD, g, -1, nullptr);
	int r = 0;
	if (!b[0]) {
		b[1] = 1;
		r = 1;
		if (nguards < 64) guards[nguards++] = g;
		else violation("livelock", "resources", "the run exhausts the simulator: too many static guards");
	} else
		hb_acquire(g);
	g_quiet--;
	return r;
}
EX void __cxa_guard_release(uint64_t* g) {
	auto b = (volatile uint8_t*)g;
	if (passthru()) {
		b[1] = 0;
		b[0] = 1;
		return;
	}
	g_quiet++;
	hb_release(g);
	g_quiet--;
	do_store(b, 1, 1, __ATOMIC_RELEASE, RA, FA);
	g_quiet++;
	b[1] = 0;
	wake_all(W_GUARD, g);
	g_quiet--;
}
EX void __cxa_guard_abort(uint64_t* g) {
	auto b = (volatile uint8_t*)g;
	b[1] = 0;
	if (g_active) wake_all(W_GUARD, g);
}
EX int __cxa_atexit(void (*fn)(void*), void* arg, void* dso) {
	if (g_active && !g_quiet) {
		if (natexit >= 64) violation("livelock", "resources", "the run exhausts the simulator: too many atexit handlers");
		atexits[natexit++] = {fn, arg};
		return 0;
	}
	init_real();
	return real_cxa_atexit(fn, arg, dso);
}
EX int __cxa_thread_atexit(void (*fn)(void*), void* arg, void*) {
	if (g_active && cur) {
		if (ndtor >= 256) violation("livelock", "resources", "the run exhausts the simulator: too many thread_local destructors");
		Dtor* d = &dtor_pool[ndtor++];
		d->fn = fn;
		d->arg = arg;
		d->next = cur->dtors;
		cur->dtors = d;
	}
	return 0;
}

// =====================================================================================================
// time
EX int clock_gettime(clockid_t c, timespec* t) {
	if (!g_active) {
		init_real();
		return real_clock_gettime(c, t);
	}
	if (!g_quiet) {
		sched_point("clock", nullptr, RA);
		g_now += 10;
	}
	int64_t v = g_now;
	if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) v += g_wall_off;
	t->tv_sec = v / 1'000'000'000LL;
	t->tv_nsec = v % 1'000'000'000LL;
	return 0;
}
static int sim_sleep(int64_t until) {
	sched_point("sleep", nullptr, RA);
	if (until > g_now) {
		g_quiet++;
		while (g_now < until) block(W_SLEEP, nullptr, until, nullptr);
		g_quiet--;
	}
	return 0;
}
EX int nanosleep(const timespec* r, timespec*) {
	if (!g_active) return (int)raw_syscall6(SYS_nanosleep, (long)r, 0, 0, 0, 0, 0);
	return sim_sleep(g_now + (int64_t)r->tv_sec * 1'000'000'000LL + r->tv_nsec);
}
EX int clock_nanosleep(clockid_t c, int flags, const timespec* r, timespec* rem) {
	if (!g_active) return -(int)raw_syscall6(SYS_clock_nanosleep, c, flags, (long)r, (long)rem, 0, 0);
	if (flags & TIMER_ABSTIME) return sim_sleep(to_ns(r, c));
	return sim_sleep(g_now + (int64_t)r->tv_sec * 1'000'000'000LL + r->tv_nsec);
}

// futex (std::future, std::atomic::wait, semaphores)
EX long syscall(long nr, ...) {
	va_list ap;
	va_start(ap, nr);
	long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
	va_end(ap);
	if (nr == SYS_futex && g_active && !g_quiet) {
		int op = (int)b & FUTEX_CMD_MASK;
		volatile int* addr = (volatile int*)a;
		bool rt = (b & FUTEX_CLOCK_REALTIME) != 0;
		if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
			sched_point("futex_wait", addr, RA);
			if (*addr != (int)c) {
				errno = EAGAIN;
				return -1;
			}
			int64_t dl = -1;
			if (d) {
				auto ts = (const timespec*)d;
				dl = op == FUTEX_WAIT ? g_now + (int64_t)ts->tv_sec * 1'000'000'000LL + ts->tv_nsec : to_ns(ts, rt ? CLOCK_REALTIME : CLOCK_MONOTONIC);
				if (dl <= g_now) {
					errno = ETIMEDOUT;
					return -1;
				}
			}
			block(W_FUTEX, (void*)addr, dl, nullptr);
			if (cur->timed_out) {
				errno = ETIMEDOUT;
				return -1;
			}
			return 0;
		}
		if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
			sched_point("futex_wake", addr, RA);
			int n = 0;
			for (int i = 0; i < nthr && n < (int)c; i++)
				if (thr[i].st == BLOCKED && thr[i].wk == W_FUTEX && thr[i].wobj == (void*)addr) {
					wake(&thr[i]);
					n++;
				}
			return n;
		}
		harness_error("unsupported futex operation");
	}
	long r = raw_syscall6(nr, a, b, c, d, e, f);
	if (r < 0 && r > -4096) {
		errno = (int)-r;
		return -1;
	}
	return r;
}

// =====================================================================================================
// mappings (fiber stacks)
EX int mprotect(void* at, size_t len, int prot) {
	if (g_active && !g_quiet && cur->fault_p > 0 && !g_fair) {
		g_quiet++;
		const bool f = choose(2, cur->fault_p);
		if (f) {
			resource_fault();
			n_fault[sim::f_mmap]++;
			TR("    [fault] mprotect fails\n");
			hash_ev(0xA5, 0);
		}
		g_quiet--;
		if (f) {
			errno = ENOMEM;
			return -1;
		}
	}
	long r = raw_syscall6(SYS_mprotect, (long)at, (long)len, prot, 0, 0, 0);
	if (r < 0 && r > -4096) {
		errno = (int)-r;
		return -1;
	}
	return 0;
}
EX void* mmap(void* at, size_t len, int prot, int flags, int fd, off_t off) {
	if (!g_active || g_quiet || !(flags & MAP_ANONYMOUS)) {
		long r = raw_syscall6(SYS_mmap, (long)at, (long)len, prot, flags, fd, off);
		if (r < 0 && r > -4096) {
			errno = (int)-r;
			return MAP_FAILED;
		}
		return (void*)r;
	}
	g_quiet++;
	if (cur->fault_p > 0 && !g_fair && choose(2, cur->fault_p)) {
		resource_fault();
		n_fault[sim::f_mmap]++;
		TR("    [fault] mmap fails\n");
		hash_ev(0xA4, 0);
		g_quiet--;
		errno = ENOMEM;
		return MAP_FAILED;
	}
	size_t sz = (len + 4095) & ~4095ul;
	if (nmaps >= NMAP || fib_top + sz + 4096 > FIB_BASE + FIBERS) {
		if (sz > FIBERS / 4) {
			g_quiet--;
			errno = ENOMEM;
			return MAP_FAILED;
		}
		violation("livelock", "mappings", "too many stack mappings in one run");
	}
	uintptr_t p = fib_top + 4096;
	fib_top = p + sz;
	long r = raw_syscall6(SYS_mmap, (long)p, (long)sz, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
	if ((uintptr_t)r != p) harness_error("mmap");
	maps[nmaps++] = Map{p, sz, true, RA};
	g_quiet--;
	return (void*)p;
}
EX int munmap(void* p, size_t len) {
	uintptr_t a = (uintptr_t)p;
	if (!g_active || a - FIB_BASE >= FIBERS) {
		long r = raw_syscall6(SYS_munmap, (long)p, (long)len, 0, 0, 0, 0);
		if (r < 0) {
			errno = (int)-r;
			return -1;
		}
		return 0;
	}
	g_quiet++;
	size_t sz = (len + 4095) & ~4095ul;
	for (unsigned i = 0; i < nmaps; i++)
		if (maps[i].p == a) {
			if (!maps[i].live) violation("double-free", "mapping", "stack mapping %p unmapped twice", p);
			if (maps[i].size != sz) violation("bad-free", "mapping", "stack mapping %p of %zu bytes unmapped with length %zu", p, maps[i].size, sz);
			maps[i].live = false;
			uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
			if (sp - a < sz) violation("use-after-free", "mapping", "a stack is unmapped while running on it");
			// unmapping conflicts with any unordered access to the stack
			Cell* c = cell_of(a);
			for (size_t k = 0; k < sz / 8; k++)
				if (c[k].run >> 1 == g_run) access_cell(&c[k], a + k * 8, 0xff, 5, 8, RA);
			raw_syscall6(SYS_mmap, (long)a, (long)sz, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
			g_quiet--;
			return 0;
		}
	violation("bad-free", "mapping", "munmap of %p, which is not a mapping", p);
}

// =====================================================================================================
EX void __assert_fail(const char* expr, const char* file, unsigned line, const char* fn) {
	if (!g_active) {
		fprintf(stderr, "SIM-ERROR: assertion outside a run: %s %s:%u\n", expr, file, line);
		_exit(45);
	}
	const char* b = strrchr(file, '/');
	violation("assert", "assert", "assertion '%s' failed at %s:%u (%s)", expr, b ? b + 1 : file, line, fn);
}
namespace std {
	void __glibcxx_assert_fail(const char* file, int line, const char* fn, const char* cond) noexcept {
		violation("assert", "glibcxx", "libstdc++ assertion '%s' failed at %s:%d (%s)", cond ? cond : "?", file, line, fn);
	}
}
EX void abort() {
	if (g_active) violation("abort", "abort", "abort() called");
	_exit(134);
}

// =====================================================================================================
// scenario API
namespace sim {
	scenario::scenario(const char* n, void (*f)(), double w) : name(n), fn(f), weight(w), next(nullptr) {
		// keep registration order
		if (!scen_head) scen_head = this;
		else {
			auto s = scen_head;
			while (s->next) s = s->next;
			s->next = this;
		}
	}
	unsigned param(unsigned n) {
		if (!g_active || n <= 1) return 0;
		uint32_t v = choose(n, n > 1 ? (n - 1.0) / n : 0);
		hash_ev(0x30, v);
		TR("    param %u of %u\n", v, n);
		return v;
	}
	unsigned biased(unsigned n, double p) {
		if (!g_active || n <= 1) return 0;
		uint32_t v = choose(n, p);
		hash_ev(0x31, v);
		TR("    param %u of %u\n", v, n);
		return v;
	}
	bool inject(fault_kind k, double p) {
		if (!g_active || g_fair) return false;
		if (k == f_wall_jump) return wall_jump(p);
		uint32_t v = choose(2, p);
		if (v) {
			n_fault[k]++;
			TR("    [fault] injected user fault\n");
		}
		hash_ev(0x32, v);
		return v != 0;
	}
	uint64_t injected(fault_kind k) noexcept { return n_fault[k]; }
	faults::faults(double prob, bool once) : old(cur ? cur->fault_p : 0), base(cur ? cur->fault_n : 0), oldonce(cur && cur->fault_once) {
		if (!cur) return;
		cur->fault_p = prob;
		cur->fault_once = once;
	}
	faults::~faults() {
		if (!cur) return;
		cur->fault_p = old;
		cur->fault_once = oldonce;
	}
	unsigned faults::fired() const noexcept { return cur ? cur->fault_n - base : 0; }
	void disarm() noexcept {
		if (cur) cur->fault_p = 0;
	}
	bool throwing(double p) {
		if (!g_active || g_quiet || cur->fault_p <= 0 || g_fair) return false;
		const bool r = inject(f_exception, cur->fault_p * p);
		if (r) resource_fault();
		return r;
	}
	void point() {
		if (!passthru()) sched_point("point", nullptr, RA);
	}
	int64_t now() noexcept { return g_now; }
	void sleep(int64_t ns) {
		if (g_active) sim_sleep(g_now + ns);
	}
	int self() noexcept { return cur ? cur->id : -1; }
	int live_threads() noexcept {
		int n = 0;
		for (int i = 0; i < nthr; i++) n += thr[i].st != FINISHED;
		return n;
	}
	void limits(int64_t max_time_ns, unsigned fair_after, unsigned max_steps) {
		lim_time = g_now + max_time_ns;
		lim_fair = fair_after;
		lim_steps = max_steps;
	}
	void calm() {
		g_fair = true;
		TR("    -- calm: fair, fault-free from here --\n");
	}
	void await_raw(bool (*fn)(void*), void* arg, const char* what, int64_t max_ns, bool acquire) {
		if (passthru()) return;
		sched_point("await", nullptr, RA);
		g_quiet++;
		if (!fn(arg)) {
			cur->pred = fn;
			cur->predarg = arg;
			block(W_PRED, nullptr, g_now + max_ns, what);
		}
		if (acquire) join_vc(cur->vc, harness_vc);
		g_quiet--;
	}
	void release() noexcept {
		if (!g_active) return;
		join_vc(harness_vc, cur->vc);
		cur->vc.c[cur->id]++;
	}
	int64_t get(unsigned s) noexcept { return slots[s]; }
	void set(unsigned s, int64_t v) noexcept { slots[s] = v; }
	int64_t add(unsigned s, int64_t v) noexcept { return slots[s] += v; }
	uint64_t seq() noexcept { return ++g_seq; }
	void log(int kind, int64_t a, int64_t b, int64_t c) noexcept {
		if (nhlog >= NLOG) violation("livelock", "resources", "the run exhausts the simulator: history too long");
		hlog[nhlog++] = event{++g_seq, g_now, cur ? cur->id : -1, kind, a, b, c};
		TR("t%d log %d (%ld, %ld, %ld)\n", cur->id, kind, (long)a, (long)b, (long)c);
	}
	size_t log_size() noexcept { return nhlog; }
	const event& log_at(size_t i) noexcept { return hlog[i]; }
	void fail(const char* tag, const char* fmt, ...) {
		g_quiet++;
		begin_violation("oracle", tag);
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(g_report->msg, sizeof(g_report->msg), fmt, ap);
		va_end(ap);
		finish_violation();
	}
	void note(const char* fmt, ...) {
		if (!tr || trn + 500 > trcap) return;
		va_list ap;
		va_start(ap, fmt);
		int n = vsnprintf(tr + trn, 400, fmt, ap);
		va_end(ap);
		trn += (unsigned)(n > 399 ? 399 : n);
		tr[trn++] = '\n';
	}
	void probe_hit(const char* name) noexcept {
		if (nhit < 128) hit_probes[nhit++] = name;
	}
	void expect_terminate() noexcept { simrt::g_term_ok = true; }
	void leak_ok(void* p) noexcept {
		if (auto a = find_alloc(p)) a->ok = 1;
	}
	size_t live_allocs() noexcept { return nlive; }
	size_t live_maps() noexcept {
		size_t n = 0;
		for (unsigned i = 0; i < nmaps; i++) n += maps[i].live;
		return n;
	}
	void quiet_begin() noexcept { g_quiet++; }
	void quiet_end() noexcept { g_quiet--; }
} // namespace sim
