// Happens-before race detector over the compiler's thread-sanitizer instrumentation (build B). No-ops in build A.
#pragma once
#include "sim.h"
#ifdef SIM_RACE
void race_acquire(const void *obj); void race_release(const void *obj); void race_sync_destroy(const void *obj);
void race_fork(Fiber *child); void race_join(Fiber *child); void race_forget(void *p, size_t n); void race_range(const void *p, size_t n, bool write); void race_freed(void *p, size_t n);
#else
inline void race_acquire(const void *) {} inline void race_release(const void *) {} inline void race_sync_destroy(const void *) {}
inline void race_fork(Fiber *) {} inline void race_join(Fiber *) {} inline void race_forget(void *, size_t) {} inline void race_range(const void *, size_t, bool) {} inline void race_freed(void *, size_t) {}
#endif
