// Seeded search driver: forks workers, collects violations, checks reproducibility, minimises, replays.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <map>
#include <set>
#include <string>
#include <sched.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

using namespace simrt;
using std::string;

static double wall() {
	timespec t;
	syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
	return (double)t.tv_sec + (double)t.tv_nsec / 1e9;
}
static void* shm(size_t n) {
	void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) {
		fprintf(stderr, "SIM-ERROR: shared memory\n");
		exit(2);
	}
	return p;
}
static uint64_t mix64(uint64_t z) {
	z += 0x9e3779b97f4a7c15ULL;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}
static uint64_t hash_str(const char* s) {
	uint64_t h = 1469598103934665603ULL;
	for (; *s; s++) h = (h ^ (uint8_t)*s) * 1099511628211ULL;
	return h;
}

struct Ctl {
	uint64_t next;
	uint64_t stop;
	uint64_t cur_seed[64];
	int cur_scen[64];
};
static Ctl* ctl;
static Report* reports; // one per worker + 1 for replays
static std::vector<double> cumw;
static uint64_t g_base;
static std::vector<bool> chosen; // empty: all

static int pick_scenario(uint64_t seed) {
	double x = (double)(mix64(seed ^ 0xabcdef) >> 11) / 9007199254740992.0 * cumw.back();
	int i = 0;
	while (i + 1 < (int)cumw.size() && x >= cumw[i]) i++;
	return i;
}
static uint64_t seed_of(uint64_t i) { return mix64(g_base + i * 0x632be59bd9b4e019ULL); }

static void arm(int s) {
	itimerval it{};
	it.it_value.tv_sec = s;
	setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

struct Outcome {
	int code = 0; // 0 clean, 42 violation, otherwise abnormal
	string kind, tag, msg;
	uint64_t hash = 0;
	std::vector<uint8_t> ch;
	bool same_class(const Outcome& o) const { return code == o.code && kind == o.kind && tag == o.tag; }
};
struct ChildOut { volatile int done; uint64_t hash; unsigned n; };
static ChildOut* child_out;

// executes one run in a forked child
static Outcome try_run(int scen, uint64_t seed, const std::vector<uint8_t>* ch, bool trace) {
	Report* r = &reports[63];
	r->set = 0;
	r->ntrace = 0;
	child_out->done = 0;
	fflush(nullptr);
	pid_t p = fork();
	if (p == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		int nul = open("/dev/null", O_WRONLY);
		if (!getenv("SIM_STDERR")) dup2(nul, 2);
		g_report = r;
		g_stats = nullptr;
		g_set = nullptr;
		rt_init_process();
		arm(10);
		static const uint8_t none[1] = {0};
		RunIn in{scen, seed, ch ? (ch->empty() ? none : ch->data()) : nullptr, ch ? (unsigned)ch->size() : 0, trace, false};
		RunOut o = run_one(in);
		child_out->hash = o.hash;
		child_out->n = o.nchoice;
		memcpy(r->choices, last_choices(), o.nchoice);
		child_out->done = 1;
		_exit(0);
	}
	int st = 0;
	waitpid(p, &st, 0);
	Outcome o;
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && child_out->done) {
		o.hash = child_out->hash;
		o.ch.assign(r->choices, r->choices + child_out->n);
		return o;
	}
	if (r->set == 2 || (r->set == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 42)) {
		o.code = 42;
		o.kind = r->kind;
		o.tag = r->tag;
		o.msg = r->msg;
		o.hash = r->hash;
		o.ch.assign(r->choices, r->choices + r->nchoice);
		return o;
	}
	o.code = WIFSIGNALED(st) ? 1000 + WTERMSIG(st) : WEXITSTATUS(st);
	o.kind = "crash";
	o.tag = "process";
	o.msg = "the simulated process died abnormally (status " + std::to_string(o.code) + ")";
	return o;
}

static unsigned nonzero(const std::vector<uint8_t>& v) { return (unsigned)std::count_if(v.begin(), v.end(), [](uint8_t x) { return x != 0; }); }
static void trim(std::vector<uint8_t>& v) {
	while (!v.empty() && v.back() == 0) v.pop_back();
}

static std::vector<uint8_t> minimise(int scen, uint64_t seed, const Outcome& ref, double budget, unsigned& attempts) {
	std::vector<uint8_t> best = ref.ch;
	trim(best);
	double end = wall() + budget;
	attempts = 0;
	auto test = [&](std::vector<uint8_t> c) {
		trim(c);
		attempts++;
		Outcome o = try_run(scen, seed, &c, false);
		if (!o.same_class(ref)) return false;
		std::vector<uint8_t> real = o.ch; // what was consumed up to the violation
		trim(real);
		if (real.size() <= c.size() && nonzero(real) <= nonzero(c)) c = real;
		if (nonzero(c) < nonzero(best) || (nonzero(c) == nonzero(best) && c.size() < best.size())) {
			best = c;
			return true;
		}
		return false;
	};
	// shortest failing prefix
	size_t lo = 0, hi = best.size();
	while (lo < hi && wall() < end) {
		size_t mid = (lo + hi) / 2;
		std::vector<uint8_t> c(best.begin(), best.begin() + (long)std::min(mid, best.size()));
		if (test(c)) hi = std::min(mid, best.size());
		else lo = mid + 1;
	}
	bool progress = true;
	while (progress && wall() < end) {
		progress = false;
		std::vector<size_t> nz;
		auto collect = [&] {
			nz.clear();
			for (size_t i = 0; i < best.size(); i++)
				if (best[i]) nz.push_back(i);
		};
		collect();
		for (size_t chunk = std::max<size_t>(1, nz.size() / 2);; chunk /= 2) {
			for (size_t i = 0; i < nz.size() && wall() < end;) {
				auto c = best;
				for (size_t k = i; k < std::min(nz.size(), i + chunk); k++) c[nz[k]] = 0;
				if (test(c)) {
					progress = true;
					collect();
				} else
					i += chunk;
			}
			if (chunk <= 1) break;
		}
		// deletions (shift the remaining schedule)
		for (size_t chunk = std::max<size_t>(1, best.size() / 4);; chunk /= 2) {
			for (size_t i = 0; i < best.size() && wall() < end;) {
				auto c = best;
				c.erase(c.begin() + (long)i, c.begin() + (long)std::min(best.size(), i + chunk));
				if (test(c)) progress = true;
				else i += chunk;
			}
			if (chunk <= 1 || attempts > 6000) break;
		}
		// smaller values
		for (size_t i = 0; i < best.size() && wall() < end; i++)
			if (best[i] > 1) {
				auto c = best;
				c[i] = 1;
				Outcome o = try_run(scen, seed, &c, false);
				attempts++;
				if (o.same_class(ref)) {
					auto real = o.ch;
					trim(real);
					if (nonzero(real) <= nonzero(best) && real.size() <= best.size()) best = real;
				}
			}
	}
	return best;
}

static void jstr(FILE* f, const string& s) {
	fputc('"', f);
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
		else if (c == '\n') fputs("\\n", f);
		else if (c == '\t') fputs("\\t", f);
		else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
		else fputc(c, f);
	}
	fputc('"', f);
}
static const char* const fault_names[] = {"thread_stall", "clock_jump_stall", "spurious_condvar_wakeup", "spurious_weak_cas_failure", "spurious_try_lock_failure",
										  "stale_relaxed_read", "allocation_failure", "thread_create_failure", "mmap_failure", "exception_injected", "wall_clock_jump", "other"};
static_assert(sizeof(fault_names) / sizeof(*fault_names) == sim::f_count);

int main(int argc, char** argv) {
	if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
		personality((unsigned long)personality(0xffffffff) | ADDR_NO_RANDOMIZE);
		if (!getenv("SIM_REEXEC")) {
			setenv("SIM_REEXEC", "1", 1);
			execv("/proc/self/exe", argv);
		}
	}
	string mode = argc > 1 ? argv[1] : "run", out, replay_file, prop = "X";
	uint64_t seed = 1, runs = 1000, first = 0;
	int workers = 8;
	double cap = 60, minb = 20;
	bool trace = false;
	std::set<string> known;
	for (int i = 2; i < argc; i++) {
		string a = argv[i];
		auto val = [&]() { return string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 0);
		else if (a == "--runs") runs = strtoull(val().c_str(), nullptr, 0);
		else if (a == "--first") first = strtoull(val().c_str(), nullptr, 0);
		else if (a == "--workers") workers = atoi(val().c_str());
		else if (a == "--wall") cap = atof(val().c_str());
		else if (a == "--min") minb = atof(val().c_str());
		else if (a == "--out") out = val();
		else if (a == "--prop") prop = val();
		else if (a == "--replay") replay_file = val();
		else if (a == "--trace") trace = true;
		else if (a == "--known") known.insert(val());
		else if (a == "--scen") {
			string s = val() + ",";
			chosen.assign((size_t)scenario_count(), false);
			for (size_t from = 0, to; (to = s.find(',', from)) != string::npos; from = to + 1) {
				bool found = false;
				for (int k = 0; k < scenario_count(); k++)
					if (s.substr(from, to - from) == scenario_at(k)->name) chosen[(size_t)k] = found = true;
				if (!found) {
					fprintf(stderr, "no scenario %s\n", s.substr(from, to - from).c_str());
					return 2;
				}
			}
		} else {
			fprintf(stderr, "bad argument %s\n", a.c_str());
			return 2;
		}
	}
	if (workers > 32) workers = 32;
	reports = (Report*)shm(sizeof(Report) * 64);
	ctl = (Ctl*)shm(sizeof(Ctl));
	child_out = (ChildOut*)shm(4096);
	auto stats = (Stats*)shm(sizeof(Stats));
	double tot = 0;
	for (int i = 0; i < scenario_count(); i++) cumw.push_back(tot += chosen.empty() || chosen[(size_t)i] ? scenario_at(i)->weight : 0);
	g_base = mix64(seed * 1000003 + hash_str(prop.c_str()));

	if (mode == "list") {
		for (int i = 0; i < scenario_count(); i++) printf("%s %g\n", scenario_at(i)->name, scenario_at(i)->weight);
		return 0;
	}
	if (mode == "one") { // a single seed (with trace) for debugging: --first is the seed itself
		uint64_t s = first;
		Outcome o = try_run(pick_scenario(s), s, nullptr, trace);
		if (trace) fwrite(reports[63].trace, 1, reports[63].ntrace, stdout);
		printf("scenario %s seed %lu code %d kind %s tag %s hash %016lx choices %zu\n%s\n", scenario_at(pick_scenario(s))->name, (unsigned long)s, o.code, o.kind.c_str(), o.tag.c_str(),
			   (unsigned long)o.hash, o.ch.size(), o.msg.c_str());
		return o.code != 0;
	}
	if (mode == "replay") {
		// text file: scenario name \n seed \n usechoices \n n \n idx:val ...
		FILE* f = fopen(replay_file.c_str(), "r");
		if (!f) return 2;
		char name[128];
		unsigned long sd;
		int use;
		unsigned n;
		if (fscanf(f, "%127s %lu %d %u", name, &sd, &use, &n) != 4) return 2;
		std::vector<uint8_t> ch(n);
		unsigned idx, v;
		while (fscanf(f, "%u:%u", &idx, &v) == 2)
			if (idx < n) ch[idx] = (uint8_t)v;
		fclose(f);
		int sc = -1;
		for (int k = 0; k < scenario_count(); k++)
			if (!strcmp(name, scenario_at(k)->name)) sc = k;
		if (sc < 0) return 2;
		Outcome o = try_run(sc, sd, use ? &ch : nullptr, trace);
		FILE* g = out.empty() ? stdout : fopen(out.c_str(), "w");
		fprintf(g, "{\"code\": %d, \"kind\": ", o.code);
		jstr(g, o.kind);
		fprintf(g, ", \"tag\": ");
		jstr(g, o.tag);
		fprintf(g, ", \"hash\": \"%016lx\", \"message\": ", (unsigned long)o.hash);
		jstr(g, o.msg);
		fprintf(g, ", \"trace\": ");
		jstr(g, string(reports[63].trace, reports[63].ntrace));
		fprintf(g, "}\n");
		if (g != stdout) fclose(g);
		return o.code ? 1 : 0;
	}
	if (mode == "selftest") {
		// every seed twice: once in a long-lived worker after other runs, once in a fresh process, and once replayed from its choices
		unsigned bad = 0, n = 0;
		auto hs = (uint64_t*)shm(runs * 8);
		pid_t p = fork();
		if (p == 0) {
			g_report = &reports[0];
			rt_init_process();
			for (uint64_t i = 0; i < runs; i++) {
				uint64_t s = seed_of(first + i);
				ctl->next = i;
				arm(10);
				RunIn in{pick_scenario(s), s, nullptr, 0, false, false};
				hs[i] = run_one(in).hash;
			}
			_exit(0);
		}
		int st;
		waitpid(p, &st, 0);
		for (uint64_t i = 0; i < runs && hs[i]; i++) {
			uint64_t s = seed_of(first + i);
			Outcome a = try_run(pick_scenario(s), s, nullptr, i % 2);
			Outcome b = try_run(pick_scenario(s), s ^ 0x5555, &a.ch, false);
			n++;
			if (a.hash != hs[i] || b.hash != a.hash || a.code || b.code) {
				if (bad++ < 5)
					printf("NONDETERMINISM scenario %s seed %lu: worker %016lx fresh %016lx (code %d) replay %016lx (code %d)\n", scenario_at(pick_scenario(s))->name, (unsigned long)s, (unsigned long)hs[i],
						   (unsigned long)a.hash, a.code, (unsigned long)b.hash, b.code);
			}
		}
		printf("selftest %s: %u seeds executed 3x, %u mismatches%s\n", prop.c_str(), n, bad, hs[runs - 1] ? "" : " (stopped early by a violation)");
		return bad ? 1 : 0;
	}

	// ---------------------------------------------------------------- search
	g_set_cap = 1;
	while (g_set_cap < runs * 2 && g_set_cap < (1ull << 26)) g_set_cap <<= 1;
	auto set = (uint64_t*)shm(g_set_cap * 8);
	double t0 = wall();
	std::map<pid_t, int> kids;
	auto spawn = [&](int w) {
		fflush(nullptr);
		pid_t p = fork();
		if (p == 0) {
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			if (!getenv("SIM_STDERR")) {
				int nul = open("/dev/null", O_WRONLY);
				dup2(nul, 2);
			}
			cpu_set_t cs;
			CPU_ZERO(&cs);
			cpu_set_t av;
			sched_getaffinity(0, sizeof av, &av);
			int ncpu = CPU_COUNT(&av), want = w % (ncpu ? ncpu : 1);
			for (int c = 0, k = 0; c < CPU_SETSIZE; c++)
				if (CPU_ISSET(c, &av)) {
					if (k++ == want) CPU_SET(c, &cs);
				}
			sched_setaffinity(0, sizeof cs, &cs);
			g_report = &reports[w];
			g_report->set = 0;
			g_stats = stats;
			g_set = set;
			rt_init_process();
			while (!__atomic_load_n(&ctl->stop, __ATOMIC_RELAXED)) {
				uint64_t b = __atomic_fetch_add(&ctl->next, 16, __ATOMIC_RELAXED);
				if (b >= runs) break;
				for (uint64_t i = b; i < b + 16 && i < runs; i++) {
					uint64_t s = seed_of(first + i);
					ctl->cur_seed[w] = s;
					ctl->cur_scen[w] = pick_scenario(s);
					arm(10);
					RunIn in{ctl->cur_scen[w], s, nullptr, 0, false, false};
					run_one(in);
				}
				if (wall() - t0 > cap) break;
			}
			_exit(0);
		}
		kids[p] = w;
	};
	for (int w = 0; w < workers; w++) spawn(w);
	struct Cand { int scen; uint64_t seed; Outcome o; };
	std::vector<Cand> cands;
	std::map<string, uint64_t> known_hits;
	unsigned errors = 0, unrepro = 0;
	while (!kids.empty()) {
		int st = 0;
		pid_t p = waitpid(-1, &st, 0);
		if (p < 0) break;
		auto it = kids.find(p);
		if (it == kids.end()) continue;
		int w = it->second;
		kids.erase(it);
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
		Report& r = reports[w];
		Cand c;
		c.scen = ctl->cur_scen[w];
		c.seed = ctl->cur_seed[w];
		if (r.set) {
			c.o.code = 42;
			c.o.kind = r.kind;
			c.o.tag = r.tag;
			c.o.msg = r.msg;
			c.o.hash = r.hash;
			c.o.ch.assign(r.choices, r.choices + r.nchoice);
		} else {
			c.o.code = WIFSIGNALED(st) ? 1000 + WTERMSIG(st) : WEXITSTATUS(st);
			c.o.kind = "crash";
			c.o.tag = "process";
			errors++;
		}
		string key = string(scenario_at(c.scen)->name) + "/" + c.o.kind + "/" + c.o.tag;
		if (known.count(key)) {
			known_hits[key]++;
			if (wall() - t0 < cap) spawn(w);
			continue;
		}
		// Memory that got corrupted can make a run depend on what its process did before: only stop for what repeats
		if (unrepro < 300 && wall() - t0 < cap) {
			Outcome a = try_run(c.scen, c.seed, nullptr, false), b = try_run(c.scen, c.seed, nullptr, false);
			if (!a.code || !a.same_class(b)) {
				unrepro++;
				if (!__atomic_load_n(&ctl->stop, __ATOMIC_RELAXED)) spawn(w);
				continue;
			}
		}
		cands.push_back(c);
		__atomic_store_n(&ctl->stop, 1, __ATOMIC_RELAXED);
	}
	double t1 = wall();
	int rc = 0;
	FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
	if (!f) return 2;
	fprintf(f, "{\"property\": \"%s\", \"seed\": %lu, \"runs\": %lu, \"requested\": %lu, \"workers\": %d, \"wall_s\": %.3f,\n", prop.c_str(), (unsigned long)seed, (unsigned long)stats->runs, (unsigned long)runs, workers, t1 - t0);
	fprintf(f, " \"steps\": %lu, \"sim_seconds\": %.3f, \"switches\": %lu, \"preemptions\": %lu, \"choices\": %lu, \"accesses\": %lu, \"allocs\": %lu, \"threads\": %lu,\n", (unsigned long)stats->steps,
			(double)stats->simtime_ns / 1e9, (unsigned long)stats->switches, (unsigned long)stats->preemptions, (unsigned long)stats->choices, (unsigned long)stats->accesses, (unsigned long)stats->allocs,
			(unsigned long)stats->threads);
	fprintf(f, " \"fault_runs\": %lu, \"nontrivial\": %lu, \"distinct\": %lu, \"distinct_nontrivial\": %lu, \"set_full\": %lu, \"fair_runs\": %lu, \"max_steps\": %lu,\n \"faults\": {", (unsigned long)stats->fault_runs,
			(unsigned long)stats->nontrivial, (unsigned long)stats->distinct, (unsigned long)stats->distinct_nontrivial, (unsigned long)stats->set_full, (unsigned long)stats->fair_runs, (unsigned long)stats->max_steps);
	for (unsigned i = 0; i < sim::f_count; i++) fprintf(f, "%s\"%s\": %lu", i ? ", " : "", fault_names[i], (unsigned long)stats->faults[i]);
	fprintf(f, "},\n \"scenarios\": {");
	for (int i = 0; i < scenario_count(); i++) fprintf(f, "%s\"%s\": %lu", i ? ", " : "", scenario_at(i)->name, (unsigned long)stats->scen_runs[i & 63]);
	fprintf(f, "},\n \"probes\": {");
	std::map<string, std::pair<uint64_t, uint64_t>> pr;
	for (auto& p : stats->probes)
		if (p.name[0]) pr[p.name].first += p.runs, pr[p.name].second += p.hits;
	bool firstp = true;
	for (auto& [k, v] : pr) {
		fprintf(f, "%s\"%s\": %lu", firstp ? "" : ", ", k.c_str(), (unsigned long)v.first);
		firstp = false;
	}
	fprintf(f, "},\n \"known_hits\": {");
	firstp = true;
	for (auto& [k, v] : known_hits) {
		fprintf(f, "%s\"%s\": %lu", firstp ? "" : ", ", k.c_str(), (unsigned long)v);
		firstp = false;
	}
	fprintf(f, "},\n \"samples\": [");
	for (uint64_t i = 0; i < 3 && i < runs && cands.empty(); i++) {
		uint64_t s = seed_of(first + i);
		Outcome o = try_run(pick_scenario(s), s, nullptr, true);
		string tr(reports[63].trace, reports[63].ntrace);
		if (tr.size() > 1500) tr = tr.substr(0, 1500) + "...";
		fprintf(f, "%s{\"scenario\": \"%s\", \"seed\": %lu, \"hash\": \"%016lx\", \"choices\": %zu, \"nonzero_choices\": %u, \"trace_head\": ", i ? ", " : "", scenario_at(pick_scenario(s))->name, (unsigned long)s,
				(unsigned long)o.hash, o.ch.size(), nonzero(o.ch));
		jstr(f, tr);
		fprintf(f, "}");
	}
	fprintf(f, "],\n \"violations\": [");
	std::set<string> done;
	bool firstv = true;
	std::sort(cands.begin(), cands.end(), [](const Cand& a, const Cand& b) { return a.o.ch.size() < b.o.ch.size(); });
	for (auto& c : cands) {
		string key = string(scenario_at(c.scen)->name) + "/" + c.o.kind + "/" + c.o.tag;
		if (done.count(key) || done.size() >= 3) continue;
		// gate: the seed alone must reproduce it, twice, with the identical execution
		Outcome a = try_run(c.scen, c.seed, nullptr, false), b = try_run(c.scen, c.seed, nullptr, false);
		bool exact = a.same_class(c.o) && b.same_class(c.o) && a.hash == b.hash && a.hash == c.o.hash;
		bool repro = a.code && a.same_class(b);
		if (!repro) {
			unrepro++;
			fprintf(stderr, "SIM-ERROR: %s seed %lu not reproducible (%d/%d/%d)\n", key.c_str(), (unsigned long)c.seed, c.o.code, a.code, b.code);
			continue;
		}
		done.insert(key);
		bool use = false;
		std::vector<uint8_t> best;
		unsigned attempts = 0;
		unsigned orig = 0;
		Outcome ref = a;
		if (a.code == 42) {
			trim(ref.ch);
			orig = nonzero(ref.ch);
			Outcome d = try_run(c.scen, c.seed, &ref.ch, false);
			if (d.same_class(a)) {
				use = true;
				best = ref.ch;
				if (firstv && minb > 0) best = minimise(c.scen, c.seed, a, minb, attempts);
			}
		}
		Outcome fin = try_run(c.scen, c.seed, use ? &best : nullptr, true);
		string tr(reports[63].trace, reports[63].ntrace);
		Outcome fin2 = try_run(c.scen, c.seed, use ? &best : nullptr, false);
		bool final_exact = fin.same_class(fin2) && fin.hash == fin2.hash;
		if (tr.size() > 400000) tr = tr.substr(0, 200000) + "\n...\n" + tr.substr(tr.size() - 200000);
		fprintf(f, "%s\n  {\"scenario\": \"%s\", \"seed\": %lu, \"kind\": ", firstv ? "" : ",", scenario_at(c.scen)->name, (unsigned long)c.seed);
		jstr(f, fin.kind);
		fprintf(f, ", \"tag\": ");
		jstr(f, fin.tag);
		fprintf(f, ", \"exact\": %s, \"hash\": \"%016lx\", \"original_nonzero\": %u, \"minimised_nonzero\": %u, \"minimise_attempts\": %u, \"use_choices\": %s, \"nchoices\": %zu,\n   \"choices\": [", exact && final_exact ? "true" : "false",
				(unsigned long)fin.hash, orig, nonzero(best), attempts, use ? "true" : "false", best.size());
		bool fc = true;
		for (size_t i = 0; i < best.size(); i++)
			if (best[i]) {
				fprintf(f, "%s[%zu,%u]", fc ? "" : ",", i, best[i]);
				fc = false;
			}
		fprintf(f, "],\n   \"message\": ");
		jstr(f, fin.msg);
		fprintf(f, ",\n   \"trace\": ");
		jstr(f, tr);
		fprintf(f, "}");
		firstv = false;
		rc = 1;
	}
	fprintf(f, "],\n \"candidates\": %zu, \"unreproducible\": %u, \"abnormal\": %u}\n", cands.size(), unrepro, errors);
	if (f != stdout) fclose(f);
	if (!rc && !cands.empty()) rc = 2;
	return rc;
}
