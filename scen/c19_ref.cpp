#include "common.h"
#include "linear.h"
#include <asyncpp/ref.h>
#include <unordered_set>
using namespace h;
using asyncpp::adopt_ref;
using asyncpp::atomic_ref;
using asyncpp::ref;

namespace {
	enum { S_TOKENS = 1, S_NEXT, S_DEAD = 100, S_FAKE = 300 };
	constexpr int MAXOBJ = 120;
	constexpr int CELLS = 6;

	template<class C>
	struct more; // an object can not have an atomic_ref to its own, still incomplete type
	template<class C>
	struct base_obj : asyncpp::intrusive_refcount<base_obj<C>, C> {
		int id;
		int cell[CELLS]{};
		ref<base_obj> child;
		std::unique_ptr<more<C>> ext = std::make_unique<more<C>>();
		token t{S_TOKENS};
		explicit base_obj(int i) : id(i) {}
		virtual ~base_obj() noexcept {
			// everything the owners did is visible here
			for (int& c : cell) c++;
			sim::add(S_DEAD + (unsigned)id, 1);
		}
		size_t refs() const { return this->use_count(); }
		void use(int tid) const {
			SIM_CHECK(t.ok(), "dead", "object %d is destroyed while it is referenced", id);
			const_cast<base_obj*>(this)->cell[tid]++;
		}
	};
	template<class C>
	struct more {
		atomic_ref<base_obj<C>> shared_child;
	};
	template<class C>
	struct derived_obj final : base_obj<C> {
		int tail = 5;
		using base_obj<C>::base_obj;
		~derived_obj() noexcept override { tail++; }
	};
	template<class C>
	struct other_obj final : base_obj<C> {
		using base_obj<C>::base_obj;
	};

	template<class C>
	struct shared_state {
		std::mutex m;
		std::vector<ref<base_obj<C>>> box; // guarded by m
		atomic_ref<base_obj<C>> at[2];
	};
	template<class C>
	ref<base_obj<C>> create() {
		const int id = (int)sim::add(S_NEXT, 1);
		if (id > MAXOBJ) return {};
		switch (sim::param(4)) {
		case 0: return asyncpp::make_ref<base_obj<C>>(id);
		case 1: return asyncpp::static_ref_cast<base_obj<C>>(asyncpp::make_ref<derived_obj<C>>(id));
		case 2: return ref<base_obj<C>>(new other_obj<C>(id));
		default: {
			auto* p = new derived_obj<C>(id);
			base_obj<C>* b = p;
			refcounted_add_ref(b);
			return ref<base_obj<C>>(b, adopt_ref);
		}
		}
	}
	template<class C>
	using refs = std::vector<ref<base_obj<C>>>;

	// exact count check: only meaningful if nothing else runs
	template<class C>
	void check_counts(const refs<C>& r, const shared_state<C>& s, int nthreads_refs = 0) {
		(void)nthreads_refs;
		sim::quiet q;
		const int n = (int)std::min<int64_t>(sim::get(S_NEXT), MAXOBJ);
		std::vector<size_t> held((size_t)n + 1);
		std::vector<const base_obj<C>*> todo, live((size_t)n + 1);
		auto see = [&](const base_obj<C>* p) {
			if (!p) return;
			held[(size_t)p->id]++;
			if (live[(size_t)p->id]) return;
			live[(size_t)p->id] = p;
			todo.push_back(p);
		};
		auto peek = [&](const atomic_ref<base_obj<C>>& a) {
			const base_obj<C>* p;
			{
				auto l = a.load();
				p = l.get();
			}
			see(p);
		};
		for (auto& e : r) see(e.get());
		for (auto& e : s.box) see(e.get());
		for (auto& e : s.at) peek(e);
		while (!todo.empty()) {
			auto* p = todo.back();
			todo.pop_back();
			see(p->child.get());
			peek(p->ext->shared_child);
		}
		for (int i = 1; i <= n; i++) {
			const auto dead = sim::get(S_DEAD + (unsigned)i);
			if (!live[(size_t)i]) {
				SIM_CHECK(dead == 1, "leak", "object %d was destroyed %ld times, but nothing refers to it any more", i, (long)dead);
				continue;
			}
			SIM_CHECK(dead == 0, "dead", "object %d was destroyed while it is referenced", i);
			SIM_CHECK(live[(size_t)i]->refs() == held[(size_t)i], "count", "object %d has a count of %zu with %zu references", i, live[(size_t)i]->refs(), held[(size_t)i]);
		}
	}

	template<class C>
	void step(refs<C>& r, shared_state<C>& s, int tid, bool alone) {
		auto pick = [&]() -> ref<base_obj<C>>& { return r[sim::param((unsigned)r.size())]; };
		auto& a = pick();
		auto& at = s.at[sim::param(2)];
		switch (sim::param(20)) {
		case 0: a = create<C>(); break;
		case 1: a = pick(); break; // possibly itself
		case 2: {
			auto& b = pick();
			a = std::move(b);
			break;
		}
		case 3: a.reset(); break;
		case 4: {
			using std::swap;
			swap(a, pick());
			break;
		}
		case 5: a.reset(pick().get()); break;
		case 6: {
			auto* p = a.release();
			SIM_CHECK(!a && a.get() == nullptr, "release", "a released ref is not empty");
			a.reset(p, adopt_ref);
			break;
		}
		case 7:
			if (a) {
				// reachable only through the object that gets replaced
				if (sim::flip()) a = a->child;
				else a.reset(a->child.get());
			}
			break;
		case 8:
			if (a && alone) a = std::move(a->child);
			break;
		case 9: {
			// a new object that keeps another one alive
			auto n = create<C>();
			if (!n) break;
			n->child = a;
			if (sim::flip()) n->ext->shared_child = pick();
			a = std::move(n);
			break;
		}
		case 10: {
			auto d = asyncpp::dynamic_ref_cast<derived_obj<C>>(a);
			if (d) SIM_CHECK(d->tail == 5, "cast", "dynamic_ref_cast gave another object");
			if (sim::flip()) {
				const bool had = !!a;
				auto d2 = asyncpp::dynamic_ref_cast<derived_obj<C>>(std::move(a));
				SIM_CHECK(!had || !!d2 == !a, "cast", "dynamic_ref_cast of an rvalue %s", a ? "copied" : "lost the object");
				if (d2) a = asyncpp::static_ref_cast<base_obj<C>>(std::move(d2));
			}
			break;
		}
		case 11: {
			auto c = asyncpp::const_ref_cast<const base_obj<C>>(a);
			if (c) c->use(tid);
			auto m = sim::flip() ? asyncpp::const_ref_cast<base_obj<C>>(c) : asyncpp::const_ref_cast<base_obj<C>>(std::move(c));
			pick() = std::move(m);
			break;
		}
		case 12: {
			std::unique_lock lk(s.m);
			if (!s.box.empty() && sim::flip()) {
				a = std::move(s.box.back());
				s.box.pop_back();
			} else if (s.box.size() < 4) s.box.push_back(a);
			break;
		}
		case 13: a = at.load(); break;
		case 14:
			switch (sim::param(6)) {
			case 0: at.store(a); break;
			case 1: at.store(std::move(a)); break;
			case 2: at = a; break;
			case 3: at = std::move(a); break;
			case 4: at.store(s.at[sim::param(2)]); break;
			case 5: at = s.at[sim::param(2)]; break;
			}
			break;
		case 15: a = sim::flip() ? at.exchange(pick()) : at.exchange(s.at[sim::param(2)]); break;
		case 16: at.reset(); break;
		case 17:
			switch (sim::param(3)) {
			case 0: a.reset(at.release(), adopt_ref); break;
			case 1: at = std::move(s.at[sim::param(2)]); break;
			case 2: {
				if (auto l = at.load()) a = l->ext->shared_child.load();
				break;
			}
			}
			break;
		case 18: {
			if (auto x = at.operator->()) x->use(tid);
			(void)(bool)at, (void)!at;
			(void)(at == s.at[0]), (void)(at != a.get()), (void)(a.get() == at);
			break;
		}
		case 19: {
			auto& b = pick();
			SIM_CHECK((a == b) == (a.get() == b.get()) && (a != b) == (a.get() != b.get()), "compare", "comparison of refs is wrong");
			std::unordered_set<ref<base_obj<C>>> set;
			{
				sim::quiet q;
				set.reserve(4);
			}
			set.insert(a);
			set.insert(b);
			SIM_CHECK(set.size() == (a == b ? 1u : 2u), "hash", "hashed refs are not distinguished by their pointer");
			break;
		}
		}
		for (auto& e : r)
			if (e) e->use(tid);
	}
	template<class C>
	void run(int nthreads) {
		{
			shared_state<C> s;
			refs<C> r(3);
			const int n0 = (int)sim::param(4);
			for (int i = 0; i < n0; i++) r[(size_t)i % 3] = create<C>();
			s.at[0] = r[0];
			if (nthreads) {
				threads t;
				for (int i = 0; i < nthreads; i++)
					t.go([&s, i, mine = r]() mutable {
						const unsigned n = 1 + sim::param(5);
						for (unsigned k = 0; k < n; k++) step(mine, s, i + 1, false);
						if (sim::flip()) mine.clear();
					});
				const unsigned n = sim::param(4);
				for (unsigned k = 0; k < n; k++) step(r, s, 0, false);
			} else {
				const unsigned n = 1 + sim::param(14);
				for (unsigned k = 0; k < n; k++) {
					step(r, s, 0, true);
					check_counts<C>(r, s);
				}
			}
			check_counts<C>(r, s);
		}
		const int n = (int)std::min<int64_t>(sim::get(S_NEXT), MAXOBJ);
		for (int i = 1; i <= n; i++) SIM_CHECK(sim::get(S_DEAD + (unsigned)i) == 1, "leak", "object %d was destroyed %ld times", i, (long)sim::get(S_DEAD + (unsigned)i));
		SIM_CHECK(sim::get(S_TOKENS) == 0, "leak", "members of an object were not destroyed");
	}
} // namespace

SIM_SCENARIO(concurrent, 3) { run<asyncpp::thread_safe_refcount>(2 + (int)sim::param(3)); }
SIM_SCENARIO(alone, 1) { run<asyncpp::thread_safe_refcount>(0); }
SIM_SCENARIO(alone_unsafe, 0.5) { run<asyncpp::thread_unsafe_refcount>(0); }

// the last references of one object are dropped on several threads at once
SIM_SCENARIO(last_drop, 1) {
	struct obj : asyncpp::intrusive_refcount<obj> {
		int cell[5]{};
		token t{S_TOKENS};
		~obj() noexcept {
			int sum = 0;
			for (int c : cell) sum += c;
			sim::set(S_DEAD, sim::get(S_DEAD) + 1);
			sim::set(S_DEAD + 1, sum);
		}
	};
	const int n = 2 + (int)sim::param(3);
	int64_t expect = 0;
	{
		auto o = asyncpp::make_ref<obj>();
		threads t;
		for (int i = 0; i < n; i++) {
			const int w = (int)sim::param(3);
			expect += w;
			t.go([i, w, mine = o]() mutable {
				for (int k = 0; k < w; k++) {
					auto c = mine; // more references
					c->cell[i]++;
				}
				mine.reset();
			});
		}
		if (sim::flip()) o.reset();
	}
	SIM_CHECK(sim::get(S_DEAD) == 1 && sim::get(S_DEAD + 1) == expect, "destroyed", "destroyed %ld times, %ld of %ld writes seen", (long)sim::get(S_DEAD), (long)sim::get(S_DEAD + 1), (long)expect);
	SIM_CHECK(sim::get(S_TOKENS) == 0, "leak", "members of the object were not destroyed");
}

// very many references to one object
namespace {
	template<class C>
	struct popular : asyncpp::intrusive_refcount<popular<C>, C> {
		token t{S_TOKENS};
		~popular() noexcept { sim::add(S_DEAD, 1); }
		size_t refs() const { return this->use_count(); }
	};
	template<class C>
	void run_many() {
		{
			const size_t n = (size_t)many();
			std::vector<ref<popular<C>>> v;
			v.reserve(n);
			v.push_back(asyncpp::make_ref<popular<C>>());
			while (v.size() < n) v.push_back(v.back());
			SIM_CHECK(v[0]->refs() == n, "count", "a count of %zu with %zu references", v[0]->refs(), n);
			while (v.size() > 1) {
				v.pop_back();
				SIM_CHECK(sim::get(S_DEAD) == 0, "dead", "the object was destroyed while %zu references are left", v.size());
			}
			SIM_CHECK(v[0]->refs() == 1, "count", "a count of %zu with one reference", v[0]->refs());
		}
		SIM_CHECK(sim::get(S_DEAD) == 1 && sim::get(S_TOKENS) == 0, "leak", "the object was destroyed %ld times", (long)sim::get(S_DEAD));
	}
} // namespace
SIM_SCENARIO(many, 0.05) {
	if (sim::flip()) run_many<asyncpp::thread_safe_refcount>();
	else run_many<asyncpp::thread_unsafe_refcount>();
}

// atomic_ref is a linearizable register
namespace {
	enum { K_OP_B = K_USER, K_OP_E };
	enum { O_LOAD, O_STORE, O_XCHG, O_RELEASE, O_EMPTY };
	struct small : asyncpp::intrusive_refcount<small> {
		int id;
		token t{S_TOKENS};
		explicit small(int i) : id(i) {}
	};
	struct rop {
		int type = 0, tid = 0;
		int64_t val = 0, res = 0;
		uint64_t b = 0, e = 0;
	};
} // namespace
SIM_SCENARIO(linearizable, 2) {
	{
		atomic_ref<small> at;
		int64_t init = 0;
		if (sim::flip()) at.store(asyncpp::make_ref<small>((int)(init = sim::add(S_NEXT, 1))));
		{
			threads t;
			const int n = 2 + (int)sim::param(2);
			for (int i = 0; i < n; i++)
				t.go([&at] {
					const unsigned n = 1 + sim::param(4);
					for (unsigned k = 0; k < n; k++) {
						const int type = (int)sim::param(5);
						const int64_t id = type == O_STORE || type == O_XCHG ? sim::add(S_NEXT, 1) : 0;
						ref<small> v, old;
						if (id) v = asyncpp::make_ref<small>((int)id);
						const bool keep = sim::flip();
						const int op = (int)sim::add(S_FAKE, 1);
						int64_t res = 0;
						sim::log(K_OP_B, op, type, id);
						switch (type) {
						case O_LOAD:
							old = at.load();
							res = old ? old->id : 0;
							break;
						case O_STORE:
							if (keep) at.store(v);
							else at = std::move(v);
							break;
						case O_XCHG:
							old = keep ? at.exchange(v) : at.exchange(std::move(v));
							res = old ? old->id : 0;
							break;
						case O_RELEASE:
							old.reset(at.release(), adopt_ref);
							res = old ? old->id : 0;
							break;
						case O_EMPTY: res = sim::flip() ? !at : !(bool)at; break;
						}
						sim::log(K_OP_E, op, res);
						if (old) SIM_CHECK(old->t.ok(), "dead", "atomic_ref gave a destroyed object");
						if (v) SIM_CHECK(v->t.ok(), "dead", "the stored object was destroyed while it is referenced");
					}
				});
		}
		{
			sim::quiet q;
			std::vector<rop> ops((size_t)sim::get(S_FAKE));
			for (size_t i = 0; i < sim::log_size(); i++) {
				auto& e = sim::log_at(i);
				auto& o = ops[(size_t)e.a - 1];
				if (e.kind == K_OP_B) o.type = (int)e.b, o.val = e.c, o.tid = e.tid, o.b = e.seq;
				else o.res = e.b, o.e = e.seq;
			}
			{
				auto l = at.load();
				rop fin;
				fin.type = O_LOAD, fin.res = l ? l->id : 0, fin.b = UINT64_MAX - 1, fin.e = UINT64_MAX, fin.tid = -1;
				ops.push_back(fin);
			}
			const bool seq = sim::sequential();
			const bool ok = linear::check(
				init, ops,
				[](int64_t& s, const rop& o) {
					switch (o.type) {
					case O_LOAD: return o.res == s;
					case O_STORE: s = o.val; return true;
					case O_XCHG: return o.res == s ? (s = o.val, true) : false;
					case O_RELEASE: return o.res == s ? (s = 0, true) : false;
					default: return o.res == (s == 0);
					}
				},
				[seq](const rop& a, const rop& b) { return a.e < b.b && (seq || a.tid == b.tid || b.tid == -1); }, [](const rop&) { return false; });
			SIM_CHECK(ok, "linearizable", "no order of the %zu operations explains their results", ops.size());
		}
	}
	SIM_CHECK(sim::get(S_TOKENS) == 0, "leak", "%ld objects were not destroyed", (long)sim::get(S_TOKENS));
}

// any type with the two functions works; pointers that collide with the lock bit are rejected without losing a reference
namespace {
	struct fake {};
	inline void refcounted_add_ref(const fake*) noexcept { sim::add(S_FAKE, 1); }
	inline void refcounted_remove_ref(const fake*) noexcept { sim::add(S_FAKE, -1); }
} // namespace
SIM_SCENARIO(foreign_types, 0.3) {
	auto* const good = reinterpret_cast<fake*>(uintptr_t{0x1000});
	auto* const bad = reinterpret_cast<fake*>(uintptr_t{1} << (sizeof(uintptr_t) * 8 - 1) | 0x1000);
	{
		atomic_ref<fake> at;
		const unsigned n = 1 + sim::param(6);
		const fake* cur = nullptr;
		for (unsigned i = 0; i < n; i++) {
			ref<fake> r{sim::flip() ? bad : good};
			const bool is_bad = r.get() == bad;
			bool threw = false;
			try {
				switch (sim::param(5)) {
				case 0: at.store(r); break;
				case 1: at.store(std::move(r)); break;
				case 2: at = r; break;
				case 3: at = std::move(r); break;
				case 4: {
					atomic_ref<fake> tmp{r};
					at = std::move(tmp);
					break;
				}
				}
				cur = good;
			} catch (const std::logic_error&) { threw = true; }
			SIM_CHECK(threw == is_bad, "invalid", "a pointer was %s", threw ? "rejected" : "accepted");
			SIM_CHECK(at == cur, "invalid", "a rejected store changed the value");
		}
	}
	SIM_CHECK(sim::get(S_FAKE) == 0, "leak", "%ld references were lost", (long)sim::get(S_FAKE));
}

// every operation of one thread against a model of what each handle refers to
namespace {
	template<class C>
	void run_model() {
		using base = base_obj<C>;
		using derived = derived_obj<C>;
		constexpr int R = 4, A = 2, MAX = 60;
		{
			ref<base> r[R];
			atomic_ref<base> at[A];
			base* at_of[A] = {};
			base* of[R] = {};
			struct object {
				base* p;
				bool derived;
			};
			std::vector<object> objs;
			auto fresh = [&](bool d) -> base* {
				const int id = (int)objs.size() + 1;
				base* p = d ? new derived(id) : new base(id);
				objs.push_back({p, d});
				return p;
			};
			auto is_derived = [&](base* p) {
				for (auto& o : objs)
					if (p && o.p == p) return o.derived;
				return false;
			};
			const unsigned n = 1 + sim::param(20);
			for (unsigned k = 0; k < n && (int)objs.size() < MAX; k++) {
				const auto i = sim::param(R), j = sim::param(R), x = sim::param(A), y = sim::param(A);
				auto &a = r[i], &b = r[j];
				const auto& cb = b;
				switch (sim::param(24)) {
				case 0: a = ref<base>(of[i] = fresh(sim::flip())); break;
				case 1: a = asyncpp::make_ref<base>(MAX + 1), of[i] = nullptr, a = nullptr; break;
				case 2: a = cb, of[i] = of[j]; break;
				case 3:
					a = std::move(b);
					if (i != j) of[i] = of[j], of[j] = nullptr;
					break;
				case 4: a.reset(cb.get()), of[i] = of[j]; break;
				case 5: a.reset(), of[i] = nullptr; break;
				case 6: a.reset(nullptr), of[i] = nullptr; break;
				case 7:
					std::swap(a, b);
					std::swap(of[i], of[j]);
					break;
				case 8: { // copies and moves by construction
					ref<base> c{cb};
					SIM_CHECK(c == cb && c.get() == of[j], "copy", "a copied ref refers to another object");
					ref<base> d{std::move(c)};
					SIM_CHECK(d == cb && !c, "move", "a moved ref refers to another object");
					a = sim::flip() ? std::move(d) : d;
					of[i] = of[j];
					break;
				}
				case 9: {
					auto d = asyncpp::dynamic_ref_cast<derived>(cb);
					SIM_CHECK(!!d == is_derived(of[j]), "cast", "dynamic_ref_cast gave %s", d ? "an object of another type" : "nothing");
					if (!d) break;
					a = sim::flip() ? asyncpp::static_ref_cast<base>(d) : asyncpp::static_ref_cast<base>(std::move(d));
					of[i] = of[j];
					break;
				}
				case 10: {
					const bool is = is_derived(of[j]);
					auto d = asyncpp::dynamic_ref_cast<derived>(std::move(b));
					SIM_CHECK(!!d == is && !!b == (of[j] && !is), "cast", "dynamic_ref_cast of an rvalue gave %s", d ? "an object of another type" : "nothing");
					if (d) b = asyncpp::static_ref_cast<base>(std::move(d));
					break;
				}
				case 11: {
					auto c = sim::flip() ? asyncpp::const_ref_cast<const base>(cb) : asyncpp::const_ref_cast<const base>(ref<base>(cb));
					SIM_CHECK(c.get() == of[j], "cast", "const_ref_cast gave another object");
					a = sim::flip() ? asyncpp::const_ref_cast<base>(c) : asyncpp::const_ref_cast<base>(std::move(c));
					of[i] = of[j];
					break;
				}
				case 12: at[x] = cb, at_of[x] = of[j]; break;
				case 13: at[x] = std::move(b), at_of[x] = of[j], of[j] = nullptr; break;
				case 14: at[x] = at[y], at_of[x] = at_of[y]; break;
				case 15:
					at[x] = std::move(at[y]);
					if (x != y) at_of[x] = at_of[y], at_of[y] = nullptr;
					break;
				case 16:
					if (sim::flip()) at[x].store(cb), at_of[x] = of[j];
					else at[x].store(at[y]), at_of[x] = at_of[y];
					break;
				case 17: a = at[x].load(), of[i] = at_of[x]; break;
				case 18: {
					base* const old = at_of[x];
					if (sim::flip()) at_of[x] = of[j], a = at[x].exchange(cb);
					else at_of[x] = at_of[y], a = at[x].exchange(at[y]);
					of[i] = old;
					break;
				}
				case 19: a.reset(at[x].release(), adopt_ref), of[i] = std::exchange(at_of[x], nullptr); break;
				case 20: at[x].reset(), at_of[x] = nullptr; break;
				case 21: {
					atomic_ref<base> c{cb};
					SIM_CHECK(c == of[j] && (bool)c == (of[j] != nullptr), "copy", "a constructed atomic_ref refers to another object");
					if (of[j]) SIM_CHECK(c->id == of[j]->id, "copy", "a constructed atomic_ref refers to another object");
					break;
				}
				case 22: {
					base* p = a.release();
					SIM_CHECK(p == of[i] && !a, "release", "release() gave another object");
					a = ref<base>(p, adopt_ref);
					break;
				}
				case 23: { // a ref that is found only in the object it replaces
					if (!of[i] || of[i]->child) break;
					base* const p = fresh(sim::flip());
					of[i]->child = ref<base>(p);
					switch (sim::param(3)) {
					case 0: a = a->child; break;
					case 1: a.reset(a->child.get()); break;
					default: a = ref<base>(a->child); break;
					}
					base* const old = std::exchange(of[i], p);
					bool kept = false;
					for (auto* q : of) kept |= q == old;
					for (auto* q : at_of) kept |= q == old;
					if (kept) old->child.reset();
					break;
				}
				}
				size_t nobj = 0;
				for (auto& o : objs) {
					nobj++;
					if (!o.p) continue;
					size_t held = 0;
					for (auto* q : of) held += q == o.p;
					for (auto* q : at_of) held += q == o.p;
					const auto dead = sim::get(S_DEAD + (unsigned)nobj);
					if (!held) {
						SIM_CHECK(dead == 1, "leak", "object %zu was destroyed %ld times, but nothing refers to it any more", nobj, (long)dead);
						o.p = nullptr; // its address might be used again
						continue;
					}
					SIM_CHECK(dead == 0, "dead", "object %zu was destroyed while it is referenced", nobj);
					SIM_CHECK(o.p->refs() == held && o.p->t.ok(), "count", "object %zu has a count of %zu with %zu references", nobj, o.p->refs(), held);
				}
				auto one = [](std::strong_ordering got, const base* p, const base* q) {
					const std::compare_three_way c{};
					SIM_CHECK(got == c(p, q), "compare", "ordering of references is wrong");
				};
				for (int u = 0; u < R; u++) {
					SIM_CHECK(r[u].get() == of[u] && !!r[u] == (of[u] != nullptr) && !r[u] == !of[u], "value", "ref %d refers to another object", u);
					if (of[u]) SIM_CHECK(&*r[u] == of[u] && r[u]->id == of[u]->id, "value", "ref %d refers to another object", u);
					const int v = (u + 1) % R;
					const base *p = of[u], *q = of[v];
					one(r[u] <=> r[v], p, q);
					one(r[u] <=> q, p, q);
					one(p <=> r[v], p, q);
					SIM_CHECK((r[u] == r[v]) == (p == q) && (r[u] == q) == (p == q) && (q == r[u]) == (p == q), "compare", "comparison of refs is wrong");
					SIM_CHECK((r[u] != r[v]) == (p != q) && (r[u] != q) == (p != q) && (q != r[u]) == (p != q), "compare", "comparison of refs is wrong");
					SIM_CHECK((std::hash<ref<base>>{}(r[u]) == std::hash<ref<base>>{}(r[v])) || p != q, "hash", "equal refs have different hashes");
				}
				for (int u = 0; u < A; u++) {
					SIM_CHECK((bool)at[u] == (at_of[u] != nullptr) && !at[u] == !at_of[u], "value", "atomic_ref %d refers to another object", u);
					const base *p = at_of[u], *q = at_of[1 - u];
					one(at[u] <=> at[1 - u], p, q);
					one(at[u] <=> q, p, q);
					one(p <=> at[1 - u], p, q);
					SIM_CHECK((at[u] == at[1 - u]) == (p == q) && (at[u] == q) == (p == q) && (q == at[u]) == (p == q) && at[u] == p, "compare", "comparison of atomic_refs is wrong");
					SIM_CHECK((at[u] != at[1 - u]) == (p != q) && (at[u] != q) == (p != q) && (q != at[u]) == (p != q), "compare", "comparison of atomic_refs is wrong");
					SIM_CHECK(p != q || std::hash<atomic_ref<base>>{}(at[u]) == std::hash<atomic_ref<base>>{}(at[1 - u]), "hash", "equal atomic_refs have different hashes");
					SIM_CHECK(at[u].load().get() == p, "value", "atomic_ref %d refers to another object", u);
				}
			}
		}
		SIM_CHECK(sim::get(S_TOKENS) == 0, "leak", "members of an object were not destroyed");
	}
} // namespace
SIM_SCENARIO(model, 1) {
	if (sim::flip()) run_model<asyncpp::thread_safe_refcount>();
	else run_model<asyncpp::thread_unsafe_refcount>();
}

namespace {
	// the destructor of an object looks at, and may change, the handle that held it
	template<class C>
	struct homely final : asyncpp::intrusive_refcount<homely<C>, C> {
		using R = ref<homely>;
		R* home = nullptr;
		void* ahome = nullptr; // atomic_ref<homely>
		bool (*in_ahome)(void*, const homely*) = nullptr;
		void (*set_ahome)(void*, R) = nullptr;
		int id;
		token t{S_TOKENS};
		explicit homely(int i) : id(i) {}
		~homely() noexcept {
			SIM_CHECK(sim::add(S_DEAD + (unsigned)id, 1) == 1, "destroyed-twice", "object %d is destroyed twice", id);
			const unsigned how = sim::param(4);
			if (home) {
				SIM_CHECK(home->get() != this, "dangling", "a handle refers to object %d while that is being destroyed", id);
				if (how == 1) home->reset();
				if (how == 2) *home = R{};
				if (how == 3) {
					R x{std::move(*home)};
					*home = x;
				}
			}
			if (ahome) {
				SIM_CHECK(!in_ahome(ahome, this), "dangling", "a handle refers to object %d while that is being destroyed", id);
				if (how == 1) set_ahome(ahome, {});
				if (how == 2 && sim::get(S_NEXT) < 50) set_ahome(ahome, asyncpp::make_ref<homely>((int)sim::add(S_NEXT, 1)));
			}
		}
	};
	template<class C>
	void reentrant() {
		using O = homely<C>;
		{
			ref<O> h;
			atomic_ref<O> a;
			auto fresh = [&] {
				auto r = asyncpp::make_ref<O>((int)sim::add(S_NEXT, 1));
				if (sim::flip()) r->home = &h;
				else {
					r->ahome = &a;
					r->in_ahome = [](void* p, const O* o) { return static_cast<atomic_ref<O>*>(p)->load().get() == o; };
					r->set_ahome = [](void* p, ref<O> v) { static_cast<atomic_ref<O>*>(p)->store(std::move(v)); };
				}
				return r;
			};
			const unsigned n = 1 + sim::param(12);
			for (unsigned k = 0; k < n; k++) {
				switch (sim::param(10)) {
				case 0: h = fresh(); break;
				case 1: h.reset(fresh().release(), adopt_ref); break;
				case 2: {
					auto f = fresh();
					h = f;
					break;
				}
				case 3: {
					auto f = fresh();
					h.reset(f.get());
					break;
				}
				case 4: h.reset(); break;
				case 5: a = fresh(); break;
				case 6: a.store(fresh()); break;
				case 7: (void)a.exchange(fresh()); break;
				case 8: a.reset(); break;
				case 9: h = a.load(); break;
				}
			}
			h.reset();
			for (int k = 0; a && k < 100; k++) a.reset();
		}
		SIM_CHECK(sim::get(S_TOKENS) == 0, "leak", "%ld objects are left", (long)sim::get(S_TOKENS));
	}
} // namespace
SIM_SCENARIO(reentrant, 0.5) { reentrant<asyncpp::thread_safe_refcount>(); }
SIM_SCENARIO(reentrant_unsafe, 0.3) { reentrant<asyncpp::thread_unsafe_refcount>(); }
