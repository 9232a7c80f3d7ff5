// Scenario on timers (C10).
#include "app.h"
#include <unistd.h>
namespace tmr {
struct T {
	int id; pomp_timer *t = nullptr; bool armed = false; ns lo = 0, hi = 0, delay = 0, period = 0; uint64_t n = 0; ns last = 0; uint64_t gen = 0; void *ud; bool forever = false;
};
static std::deque<T> *ts; static pomp_loop *loop; static uint32_t nops, budget; static int depth; static bool done;
static void op(int where);
static void cb(pomp_timer *t, void *ud) {
	T *x = (T *)ud; ns now = W->now; W->ops++; TR("timer %d callback", x->id);
	if (x->t != t) violate("C10", "callback of timer %d with a timer that is not its own (destroyed or replaced)", x->id);
	if (!x->armed) violate("C10", "timer %d called back while it is not armed (cleared, or one-shot that already fired)", x->id);
	ns early = x->lo + x->delay + (ns)x->n * x->period;
	if (x->n && !x->period) violate("C10", "one-shot timer %d called back twice", x->id);
	if (now < early) violate("C10", "timer %d: callback number %llu at %lld us, %lld us before its time", x->id, (unsigned long long)x->n + 1, (long long)(now / US), (long long)((early - now) / US));
	x->n++; x->last = now; if (!x->period) x->armed = false;
	hashmix(x->id * 31 + x->n);
	if (depth < 3) { depth++; uint32_t k = choosew({6, 3, 1}); while (k--) if (budget) op(x->id + 1); if (chance(600)) { sleep_ns(range(1, 4000) * (ns)MS / 10); fault_fired(F_OVERRUN); } depth--; }
}
static bool set(T &x, ns d, ns p) {
	x.lo = W->now; int r = p ? pomp_timer_set_periodic(x.t, (uint32_t)(d / MS), (uint32_t)(p / MS)) : pomp_timer_set(x.t, (uint32_t)(d / MS)); x.hi = W->now;
	if (r < 0) { if (!W->fired[F_TIMERSET]) violate("C10", "setting timer %d fails with %d", x.id, r); x.armed = false; return false; }
	x.armed = true; x.delay = d; x.period = p; x.n = 0; x.gen++; x.last = 0; return true;
}
static void create(T &x) { x.t = pomp_timer_new(loop, cb, &x); if (!x.t && !W->nfired) violate("C10", "no timer could be created"); x.armed = false; }
static ns ms() { switch (choosew({3, 4, 3, 1})) { case 0: return range(1, 3) * MS; case 1: return range(1, 20) * MS; case 2: return range(10, 300) * MS; default: return range(900, 4000) * MS; } }
static void op(int where) {
	if (!budget) return; budget--; W->ops++;
	uint32_t i = choose((uint32_t)ts->size()); T &x = (*ts)[i]; if (where && chance(6000)) { i = where - 1; }
	T &y = (*ts)[i]; (void)x;
	if (!y.t) { create(y); if (!y.t) return; }
	switch (choosew({5, 5, 4, 2, 2})) {
	case 0: TR("set timer %d", y.id); set(y, ms(), 0); break;
	case 1: TR("set periodic %d", y.id); set(y, ms(), chance(1500) ? range(900, 2500) * MS : range(1, 40) * MS); break;
	case 2: TR("clear %d", y.id); { int r = pomp_timer_clear(y.t); if (r < 0 && !W->fired[F_TIMERSET]) violate("C10", "clearing timer %d fails with %d", y.id, r); y.armed = false; } break;
	case 3: { TR("destroy %d", y.id); pomp_timer *t = y.t; y.t = nullptr; y.armed = false; int r = pomp_timer_destroy(t); if (r < 0) violate("C10", "destroying a timer fails with %d", r); if (chance(7000)) create(y); break; }
	default: sleep_ns(range(1, 60) * MS); break;
	}
}
// After the loop had nothing to do, every expiry that was due when it began to wait has been reported.
static void due(ns t0) {
	for (T &x : *ts) if (x.armed && x.t) {
		ns first = x.hi + x.delay; if (first > t0 - 200 * US) continue;
		if (!x.n) violate("C10", "timer %d set at %lld us for %lld us has not called back by %lld us although the loop was run and idle", x.id, (long long)(x.hi / US), (long long)(x.delay / US), (long long)(W->now / US));
		if (x.period) { ns k = (t0 - 200 * US - first) / x.period, e = first + k * x.period; if (x.last < e - (x.hi - x.lo)) violate("C10", "periodic timer %d has stopped: last callback at %lld us, an expiry at %lld us was never reported", x.id, (long long)(x.last / US), (long long)(e / US)); }
	}
}
static void main_() {
	Proc *p = cur->p; loop = pomp_loop_new(); if (!loop) { if (!W->nfired) violate("C10", "no loop could be created"); end_run(); }
	uint32_t nt = range(1, 4); for (uint32_t i = 0; i < nt; i++) { ts->emplace_back(); ts->back().id = (int)i; create(ts->back()); }
	budget = range(4, 60);
	while (budget) {
		uint32_t k = choosew({5, 3, 1}); while (k--) op(0);
		if (chance(500)) { sleep_ns(range(1, 500) * MS); fault_fired(F_STALL); }
		ns t0 = W->now; int to = (int)pick<uint32_t>({10, 0, 1, 3, 50, 200, 1000}); int r = pomp_loop_wait_and_process(loop, to); if (r == -ETIMEDOUT) due(t0);
		if (!budget || chance(300)) break;
	}
	budget = 0; W->faults_on = false;
	// faults over: run until nothing is left but periodic timers
	ns end = W->now + 5 * SEC; while (W->now < end) { ns t0 = W->now; int r = pomp_loop_wait_and_process(loop, 100); if (r == -ETIMEDOUT) due(t0); }
	for (T &x : *ts) if (x.armed && !x.period) violate("C10", "one-shot timer %d never called back", x.id);
	for (T &x : *ts) if (x.t) { if (chance(3000)) pomp_timer_clear(x.t); pomp_timer *t = x.t; x.t = nullptr; x.armed = false; pomp_timer_destroy(t); if (chance(3000)) pomp_loop_wait_and_process(loop, 0); }
	sleep_ns(range(1, 50) * MS); pomp_loop_wait_and_process(loop, 0);
	int r = pomp_loop_destroy(loop); if (r < 0) violate("C07", "the loop cannot be destroyed (%d) although nothing is left in it", r);
	sleep_ns(100 * MS); check_clean(p, "C07"); end_run();
}
}
void scen_timer(const char *) {
	static std::deque<tmr::T> d; d.clear(); tmr::ts = &d; tmr::depth = 0; tmr::loop = nullptr;
	Proc *p = mkproc("app", ipa(1)); W->faults_on = true;
	if (chance(7000)) { uint32_t l = range(1, 4); W->rate[F_EINTR] = 100 * l * choose(3); W->rate[F_LATENCY] = 50; W->rate[F_WAKE_WRITE] = 0; }
	if (chance(2500)) { W->rate[F_ALLOC] = 200; W->rate[F_EMFILE] = 200; W->rate[F_TIMER] = 300; W->rate[F_PIPE] = 300; W->rate[F_EPOLL_ADD] = 200; W->rate[F_FCNTL] = 200; }
	K->ready_random = chance(5000);
	spawn(p, "main", tmr::main_); if (chance(3000)) spawn(p, "other", []() { for (;;) sleep_ns(1 * SEC); });
}

