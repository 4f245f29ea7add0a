// Recorded operations (begin / suspended / end with result) on a shared object, used by channel and queue scenarios.
#pragma once
#include "common.h"

namespace ops {
	using namespace h;
	enum { L_B = 100, L_S, L_E, L_P };
	enum { S_OPID = 60 };

	inline int begin(int type, int64_t val, int disp) {
		const int id = (int)sim::add(S_OPID, 1);
		sim::log(L_P, id, disp);
		sim::log(L_B, id, type, val);
		return id;
	}
	inline void end(int id, bool ok, int64_t val = 0) { sim::log(L_E, id, ok, val); }

	/// awaiter wrapper that records whether the operation was left suspended
	template<class A>
	struct tracked {
		A a;
		int id;
		bool await_ready() { return a.await_ready(); }
		bool await_suspend(coroutine_handle<> hd) {
			const int i = id;
			bool r = true;
			if constexpr (std::is_void_v<decltype(a.await_suspend(hd))>) a.await_suspend(hd);
			else r = a.await_suspend(hd);
			sim::log(L_S, i, r);
			return r;
		}
		decltype(auto) await_resume() { return a.await_resume(); }
	};
	template<class A>
	tracked(A, int) -> tracked<A>;

	struct rec {
		int id = 0, type = 0, disp = 0, tid = -1, etid = -1;
		int64_t val = 0, res = 0;
		uint64_t b = 0, s = 0, e = UINT64_MAX; // begin, registered, end
		bool ok = false, susp = false;
		bool done() const { return e != UINT64_MAX; }
		bool before(const rec& o) const { return e < o.b; } // real time order
	};
	inline std::vector<rec> history() {
		std::vector<rec> v((std::size_t)sim::get(S_OPID) + 1);
		for (std::size_t i = 0; i < sim::log_size(); i++) {
			auto& x = sim::log_at(i);
			if (x.kind < L_B || x.kind > L_P) continue;
			auto& r = v[(std::size_t)x.a];
			r.id = (int)x.a;
			if (x.kind == L_P) r.disp = (int)x.b;
			if (x.kind == L_B) {
				r.type = (int)x.b;
				r.val = x.c;
				r.b = x.seq;
				r.tid = x.tid;
			}
			if (x.kind == L_S && x.b) {
				r.susp = true;
				r.s = x.seq;
			}
			if (x.kind == L_E) {
				SIM_CHECK(!r.done(), "resume-once", "operation %d finished twice", r.id);
				r.e = x.seq;
				r.ok = x.b;
				r.res = x.c;
				r.etid = x.tid;
			}
		}
		v.erase(v.begin());
		return v;
	}
} // namespace ops
