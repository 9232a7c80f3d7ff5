// Vector-clock race detection and preemption at every memory access of the library (build B only).
#include "race.h"
#ifndef SIM_RACE
void race_reset() {}
#else
typedef std::vector<uint32_t> VC;
static inline uint32_t vget(const VC &v, size_t i) { return i < v.size() ? v[i] : 0; }
static inline void vset(VC &v, size_t i, uint32_t x) { if (i >= v.size()) v.resize(i + 1); v[i] = x; }
static inline void vjoin(VC &a, const VC &b) { if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); i++) if (b[i] > a[i]) a[i] = b[i]; }
struct Cell { // one 8 byte word; per byte mask of the last accesses
	struct Acc { uint32_t tid = 0, clk = 0; uint8_t mask = 0; const void *pc = nullptr; bool atomic = false; };
	std::vector<Acc> w, r;
};
static std::unordered_map<uintptr_t, Cell> shadow; static std::unordered_map<uintptr_t, VC> syncs; static int atomics_depth;
static std::map<uintptr_t, size_t> freed;
void race_reset() { shadow.clear(); syncs.clear(); freed.clear(); }
void race_freed(void *p, size_t n) { freed[(uintptr_t)p] = n ? n : 1; }
static VC &myvc() { VC &v = cur->vc; if (vget(v, cur->id) == 0) vset(v, cur->id, 1); return v; }
void race_acquire(const void *o) { if (!cur) return; auto it = syncs.find((uintptr_t)o); if (it != syncs.end()) vjoin(myvc(), it->second); }
void race_release(const void *o) { if (!cur) return; VC &v = myvc(); vjoin(syncs[(uintptr_t)o], v); v[cur->id]++; }
void race_sync_destroy(const void *o) { syncs.erase((uintptr_t)o); }
void race_fork(Fiber *c) { if (!cur) return; VC &v = myvc(); c->vc = v; vset(c->vc, c->id, 1); v[cur->id]++; }
void race_join(Fiber *c) { if (!cur) return; vjoin(myvc(), c->vc); }
void race_forget(void *p, size_t n) { if (shadow.empty()) return; uintptr_t a = (uintptr_t)p & ~7ull, e = (uintptr_t)p + n; if ((e - a) / 8 > shadow.size() * 2) { for (auto it = shadow.begin(); it != shadow.end();) if (it->first >= a && it->first < e) it = shadow.erase(it); else ++it; return; } for (; a < e; a += 8) shadow.erase(a); }
static bool on_stack(uintptr_t a) { return cur && a >= (uintptr_t)cur->stk && a < (uintptr_t)cur->stk + cur->stksz; }
static bool multi() { return cur->p && cur->p->fibers.size() > 1; }
static void access(uintptr_t a, size_t n, bool write, const void *pc, bool at = false) {
	if (!cur || W->over || cur->in_signal) return;
	if (on_stack(a)) return;
	if (!freed.empty()) { auto it = freed.upper_bound(a + n - 1); if (it != freed.begin()) { --it; if (a < it->first + it->second) violate("ASAN", "%s of %zu byte(s) of freed memory by thread %s", write ? "write" : "read", n, cur->name); } }
	if (!multi()) return;
	VC &v = myvc(); uint32_t me = cur->id, myclk = v[me];
	while (n) {
		uintptr_t w = a & ~7ull; size_t o = a - w, k = std::min<size_t>(8 - o, n); uint8_t m = (uint8_t)(((1u << k) - 1) << o); Cell &c = shadow[w];
		auto chk = [&](std::vector<Cell::Acc> &l, const char *kind) {
			for (auto &x : l) if (x.tid != me && (x.mask & m) && vget(v, x.tid) < x.clk && !(at && x.atomic) && !(!write && x.atomic) && !(at && &l == &c.r))
				violate("RACE", "data race: %s of %zu byte(s) by thread %s with no ordering after a %s by thread %s", write ? "write" : "read", k, cur->name, kind, W->fibers[x.tid]->name);
		};
		// a plain read of a counter changed by atomic operations, followed by a branch on it, orders what depends on it
		if (!write && !at) { bool am = !c.w.empty(); for (auto &x : c.w) if (!x.atomic) am = false; if (am) { race_acquire((void *)a); } }
		chk(c.w, "write"); if (write) chk(c.r, "read");
		auto &l = write ? c.w : c.r; size_t keep = 0;
		for (auto &x : l) { if (x.tid == me) x.mask &= ~m; else if (write) x.mask &= ~m; if (x.mask) l[keep++] = x; }
		l.resize(keep); if (write) { keep = 0; for (auto &x : c.r) { x.mask &= ~m; if (x.mask) c.r[keep++] = x; } c.r.resize(keep); }
		l.push_back({me, myclk, m, pc, at}); a += k; n -= k;
	}
}
void race_range(const void *p, size_t n, bool write) { if (n) access((uintptr_t)p, n, write, __builtin_return_address(0)); }
#define PC __builtin_return_address(0)
static inline void acc(void *p, size_t n, bool w, const void *pc) { preempt_point(); access((uintptr_t)p, n, w, pc); }
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void *p) { acc(p, n, false, PC); } void __tsan_write##n(void *p) { acc(p, n, true, PC); } \
	void __tsan_unaligned_read##n(void *p) { acc(p, n, false, PC); } void __tsan_unaligned_write##n(void *p) { acc(p, n, true, PC); } \
	void __tsan_read_write##n(void *p) { acc(p, n, false, PC); access((uintptr_t)p, n, true, PC); } void __tsan_unaligned_read_write##n(void *p) { acc(p, n, false, PC); access((uintptr_t)p, n, true, PC); } \
	void __tsan_volatile_read##n(void *p) { acc(p, n, false, PC); } void __tsan_volatile_write##n(void *p) { acc(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, long n) { acc(p, n, false, PC); } void __tsan_write_range(void *p, long n) { acc(p, n, true, PC); }
void __tsan_vptr_update(void **, void *) {} void __tsan_vptr_read(void **) {}
void *__tsan_memcpy(void *d, const void *s, size_t n) { if (n) { race_range(s, n, false); race_range(d, n, true); } return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { if (n) { race_range(s, n, false); race_range(d, n, true); } return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { if (n) race_range(d, n, true); return memset(d, c, n); }
// atomics: sequentially consistent and acquire/release are treated alike; relaxed ones order nothing
typedef __attribute__((mode(TI))) int i128; static bool sync_mo(int mo) { return mo >= 1; }
#define AT(T, B) \
T __tsan_atomic##B##_load(const volatile T *p, int mo) { preempt_point(); if (sync_mo(mo)) race_acquire((void *)p); access((uintptr_t)p, sizeof(T), false, PC, true); return *p; } \
void __tsan_atomic##B##_store(volatile T *p, T v, int mo) { preempt_point(); access((uintptr_t)p, sizeof(T), true, PC, true); if (sync_mo(mo)) race_release((void *)p); *p = v; } \
T __tsan_atomic##B##_exchange(volatile T *p, T v, int mo) { preempt_point(); if (sync_mo(mo)) race_acquire((void *)p); access((uintptr_t)p, sizeof(T), true, PC, true); if (sync_mo(mo)) race_release((void *)p); T o = *p; *p = v; return o; } \
T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int mo) { preempt_point(); if (sync_mo(mo)) race_acquire((void *)p); access((uintptr_t)p, sizeof(T), true, PC, true); if (sync_mo(mo)) race_release((void *)p); T o = *p; *p = o + v; return o; } \
T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int mo) { preempt_point(); if (sync_mo(mo)) race_acquire((void *)p); access((uintptr_t)p, sizeof(T), true, PC, true); if (sync_mo(mo)) race_release((void *)p); T o = *p; *p = o - v; return o; } \
T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int mo) { preempt_point(); if (sync_mo(mo)) race_acquire((void *)p); access((uintptr_t)p, sizeof(T), true, PC, true); if (sync_mo(mo)) race_release((void *)p); T o = *p; *p = o & v; return o; } \
T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int mo) { preempt_point(); if (sync_mo(mo)) race_acquire((void *)p); access((uintptr_t)p, sizeof(T), true, PC, true); if (sync_mo(mo)) race_release((void *)p); T o = *p; *p = o | v; return o; } \
T __tsan_atomic##B##_fetch_xor(volatile T *p, T v, int mo) { preempt_point(); if (sync_mo(mo)) race_acquire((void *)p); access((uintptr_t)p, sizeof(T), true, PC, true); if (sync_mo(mo)) race_release((void *)p); T o = *p; *p = o ^ v; return o; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *c, T v, int mo, int) { preempt_point(); if (sync_mo(mo)) race_acquire((void *)p); access((uintptr_t)p, sizeof(T), true, PC, true); if (*p == *c) { *p = v; if (sync_mo(mo)) race_release((void *)p); return 1; } *c = *p; return 0; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *c, T v, int mo, int fmo) { return __tsan_atomic##B##_compare_exchange_strong(p, c, v, mo, fmo); } \
T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T c, T v, int mo, int fmo) { __tsan_atomic##B##_compare_exchange_strong(p, &c, v, mo, fmo); return c; }
AT(uint8_t, 8) AT(uint16_t, 16) AT(uint32_t, 32) AT(uint64_t, 64)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
}
#endif
