// Force-included into every instrumented TU: routes the compiler's atomic builtins to the simulator,
// keeping run-time memory orders and the weak flag of compare_exchange.
#pragma once
#ifdef __cplusplus
#include <cstddef>
#include <cstdint>
#include <cstring>
extern "C" {
uint64_t simrt_atomic_load(const volatile void* p, unsigned size, int mo);
void simrt_atomic_store(volatile void* p, unsigned size, uint64_t v, int mo);
// op: 0 xchg 1 add 2 sub 3 and 4 or 5 xor 6 nand ; returns old
uint64_t simrt_atomic_rmw(volatile void* p, unsigned size, int op, uint64_t v, int mo);
bool simrt_atomic_cas(volatile void* p, unsigned size, void* expected, uint64_t desired, bool weak, int s, int f);
void simrt_atomic_fence(int mo);
}
namespace simrt {
	template<class T>
	inline __attribute__((always_inline)) uint64_t to_u(T v) {
		static_assert(sizeof(T) <= 8);
		uint64_t r = 0;
		__builtin_memcpy(&r, &v, sizeof(T));
		return r;
	}
	template<class T>
	inline __attribute__((always_inline)) T from_u(uint64_t v) {
		T r;
		__builtin_memcpy(&r, &v, sizeof(T));
		return r;
	}
	template<class T> struct rcv { using type = T; };
	template<class T> struct rcv<const T> { using type = T; };
	template<class T> struct rcv<volatile T> { using type = T; };
	template<class T> struct rcv<const volatile T> { using type = T; };
	template<class T> using rcv_t = typename rcv<T>::type;

	template<class T>
	inline __attribute__((always_inline)) rcv_t<T> load_n(T* p, int mo) { return from_u<rcv_t<T>>(simrt_atomic_load(p, sizeof(T), mo)); }
	template<class T, class V>
	inline __attribute__((always_inline)) void store_n(T* p, V v, int mo) { simrt_atomic_store(p, sizeof(T), to_u<rcv_t<T>>((rcv_t<T>)v), mo); }
	template<class T, class V>
	inline __attribute__((always_inline)) rcv_t<T> exchange_n(T* p, V v, int mo) {
		return from_u<rcv_t<T>>(simrt_atomic_rmw(p, sizeof(T), 0, to_u<rcv_t<T>>((rcv_t<T>)v), mo));
	}
	template<class T, class V>
	inline __attribute__((always_inline)) bool cas_n(T* p, void* e, V d, bool weak, int s, int f) {
		return simrt_atomic_cas(p, sizeof(T), e, to_u<rcv_t<T>>((rcv_t<T>)d), weak, s, f);
	}
	template<class T, class R>
	inline __attribute__((always_inline)) void load_g(T* p, R* r, int mo) {
		uint64_t v = simrt_atomic_load(p, sizeof(T), mo);
		__builtin_memcpy((void*)r, &v, sizeof(T));
	}
	template<class T, class R>
	inline __attribute__((always_inline)) void store_g(T* p, R* r, int mo) {
		uint64_t v = 0;
		__builtin_memcpy(&v, (const void*)r, sizeof(T));
		simrt_atomic_store(p, sizeof(T), v, mo);
	}
	template<class T, class R, class Q>
	inline __attribute__((always_inline)) void exchange_g(T* p, R* v, Q* r, int mo) {
		uint64_t x = 0;
		__builtin_memcpy(&x, (const void*)v, sizeof(T));
		x = simrt_atomic_rmw(p, sizeof(T), 0, x, mo);
		__builtin_memcpy((void*)r, &x, sizeof(T));
	}
	template<class T, class E, class D>
	inline __attribute__((always_inline)) bool cas_g(T* p, E* e, D* d, bool weak, int s, int f) {
		uint64_t x = 0;
		__builtin_memcpy(&x, (const void*)d, sizeof(T));
		return simrt_atomic_cas(p, sizeof(T), (void*)e, x, weak, s, f);
	}
	template<class T>
	inline __attribute__((always_inline)) uint64_t arg_u(T v) { return (uint64_t)(int64_t)v; }
	template<class T>
	inline __attribute__((always_inline)) uint64_t arg_u(T* v) { return (uint64_t)(uintptr_t)v; }
	template<class T, class V>
	inline __attribute__((always_inline)) rcv_t<T> rmw(T* p, int op, V v, int mo) {
		return from_u<rcv_t<T>>(simrt_atomic_rmw(p, sizeof(T), op, arg_u(v), mo));
	}
	template<class T>
	inline __attribute__((always_inline)) rcv_t<T> apply(T, int) = delete;
	inline uint64_t opv(uint64_t o, int op, uint64_t v) {
		switch (op) {
		case 1: return o + v;
		case 2: return o - v;
		case 3: return o & v;
		case 4: return o | v;
		case 5: return o ^ v;
		case 6: return ~(o & v);
		default: return v;
		}
	}
	template<class T, class V>
	inline __attribute__((always_inline)) rcv_t<T> rmw_after(T* p, int op, V v, int mo) {
		return from_u<rcv_t<T>>(opv(simrt_atomic_rmw(p, sizeof(T), op, arg_u(v), mo), op, arg_u(v)));
	}
} // namespace simrt
#define __atomic_load_n(p, mo) ::simrt::load_n(p, int(mo))
#define __atomic_store_n(p, v, mo) ::simrt::store_n(p, v, int(mo))
#define __atomic_exchange_n(p, v, mo) ::simrt::exchange_n(p, v, int(mo))
#define __atomic_compare_exchange_n(p, e, d, w, s, f) ::simrt::cas_n(p, e, d, w, int(s), int(f))
#define __atomic_load(p, r, mo) ::simrt::load_g(p, r, int(mo))
#define __atomic_store(p, r, mo) ::simrt::store_g(p, r, int(mo))
#define __atomic_exchange(p, v, r, mo) ::simrt::exchange_g(p, v, r, int(mo))
#define __atomic_compare_exchange(p, e, d, w, s, f) ::simrt::cas_g(p, e, d, w, int(s), int(f))
#define __atomic_fetch_add(p, v, mo) ::simrt::rmw(p, 1, v, int(mo))
#define __atomic_fetch_sub(p, v, mo) ::simrt::rmw(p, 2, v, int(mo))
#define __atomic_fetch_and(p, v, mo) ::simrt::rmw(p, 3, v, int(mo))
#define __atomic_fetch_or(p, v, mo) ::simrt::rmw(p, 4, v, int(mo))
#define __atomic_fetch_xor(p, v, mo) ::simrt::rmw(p, 5, v, int(mo))
#define __atomic_add_fetch(p, v, mo) ::simrt::rmw_after(p, 1, v, int(mo))
#define __atomic_sub_fetch(p, v, mo) ::simrt::rmw_after(p, 2, v, int(mo))
#define __atomic_and_fetch(p, v, mo) ::simrt::rmw_after(p, 3, v, int(mo))
#define __atomic_or_fetch(p, v, mo) ::simrt::rmw_after(p, 4, v, int(mo))
#define __atomic_xor_fetch(p, v, mo) ::simrt::rmw_after(p, 5, v, int(mo))
#define __atomic_test_and_set(p, mo) (::simrt_atomic_rmw(p, 1, 0, 1, int(mo)) != 0)
#define __atomic_clear(p, mo) ::simrt_atomic_store(p, 1, 0, int(mo))
#define __atomic_thread_fence(mo) ::simrt_atomic_fence(int(mo))
#define __atomic_signal_fence(mo) ((void)0)
#endif
