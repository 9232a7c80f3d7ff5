// Scenario: watchdog of a loop (C14). One or two loops, each run by its own thread; the time a dispatch lasts is set by
// what its callbacks sleep. The oracle knows when each wait of the loop returned and which settings were in effect.
#include "app.h"
namespace wd {
struct Cfg { uint32_t delay; int cbn; int ud; };
struct L {
	int id; pomp_loop *loop = nullptr; Fiber *f = nullptr; bool on = false; Cfg cfg{}; Cfg next{}; bool changing = false, after_on = false;
	bool inwait = false; ns tcall = 0, tlast = 0; std::vector<uint32_t> delays; int changes = 0, calls = 0; ns lat0 = 0; uint64_t total = 0; uint32_t budget = 0, work = 0; int depth = 0; bool touched = false;
};
static std::deque<L> *ls; static int left; static char uds[8]; static Proc *proc;
static void expired(int cbn, pomp_loop *loop, void *ud) {
	W->ops++; ns now = W->now; L *l = nullptr; for (L &x : *ls) if (x.loop == loop) l = &x;
	if (!l) violate("C14", "watchdog callback with an unknown loop");
	TR("watchdog callback of loop %d", l->id); hashmix(0xd000 + l->id); l->calls++; l->total++;
	if (cur == l->f) violate("C14", "the watchdog callback is called by the loop's own thread");
	if (!l->on && !l->changing) violate("C14", "watchdog callback although it is disabled");
	int u = (int)((char *)ud - uds); auto is = [&](Cfg &c) { return c.cbn == cbn && c.ud == u; };
	if (!(l->on && is(l->cfg)) && !(l->changing && l->after_on && is(l->next))) violate("C14", "watchdog callback with a function or user data of an earlier setting");
	if (!l->inwait || l->f->t_waitret < l->tcall) violate("C14", "watchdog callback while the loop is not dispatching");
	uint32_t d = ~0u; for (uint32_t x : l->delays) d = std::min(d, x);
	if (d == ~0u) violate("C14", "watchdog callback without any delay in effect");
	if (now - l->f->t_waitret < (ns)d * MS) violate("C14", "watchdog callback %lld us after the dispatch began, the delay is %u ms", (long long)((now - l->f->t_waitret) / US), d);
	if (l->calls > 1 + l->changes) violate("C14", "watchdog called %d times during one dispatch", l->calls);
	if (chance(2000)) sleep_ns(range(1, 20) * MS);
	TR("watchdog callback of loop %d done", l->id);
}
static void cb0(pomp_loop *l, void *u) { expired(0, l, u); }
static void cb1(pomp_loop *l, void *u) { expired(1, l, u); }
static uint32_t rdelay() { switch (choosew({4, 3, 2, 2, 1, 1})) { case 0: return range(1, 300); case 1: return 100 * range(1, 12); case 2: return range(1, 20); case 3: return 1000 * range(1, 4); case 4: return 1000 * range(1, 3) - 1; default: return range(1, 5000); } }
static void enable(L &l) {
	Cfg c{l.on && chance(3000) ? l.cfg.delay : rdelay(), (int)choose(2), (int)choose(8)}; uint32_t f0 = W->fired[F_THREAD]; TR("loop %d: enable watchdog %u ms", l.id, c.delay); bool was = l.on; l.changes++;
	l.next = c; l.after_on = true; l.changing = true; l.delays.push_back(c.delay); int r = pomp_loop_watchdog_enable(l.loop, c.delay, c.cbn ? cb1 : cb0, &uds[c.ud]); l.changing = false;
	if (r < 0) { if (W->fired[F_THREAD] == f0) violate("C14", "the watchdog cannot be enabled (%d)", r); if (was) violate("C14", "changing the watchdog needs a new thread"); return; }
	l.on = true; l.cfg = c; l.touched = true;
}
static void disable(L &l) {
	TR("loop %d: disable watchdog", l.id); l.changes++; l.after_on = false; l.changing = true; int r = pomp_loop_watchdog_disable(l.loop); l.changing = false; l.on = false; if (r < 0) violate("C14", "the watchdog cannot be disabled (%d)", r);
}
static void conf(L &l) { if (!l.on) { if (chance(9000)) enable(l); else disable(l); } else if (chance(5000)) enable(l); else disable(l); }
static void work(void *ud) {
	L &l = *(L *)ud; W->ops++; if (l.work) l.work--; TR("loop %d: work", l.id); ns D = (l.on ? l.cfg.delay : 100) * MS;
	if (l.budget && chance(900)) { l.budget--; conf(l); }
	switch (choosew({6, 3, 3, 3, 2, 2, 4})) {
	case 0: break;
	case 6: { ns e = l.f->t_waitret + D + (ns)range(0, 30) * US - 12 * US - W->now; if (e > 0) sleep_ns(e); break; } // ends about when the delay is over
	case 1: sleep_ns(range(1, 20) * MS); break;
	case 2: sleep_ns(std::max<ns>(D - (ns)range(0, 3) * MS, 1)); break;
	case 3: sleep_ns(D + 60 * MS); break;
	case 4: sleep_ns(D + (ns)range(0, 2) * MS); break;
	default: sleep_ns(D * 2 + 70 * MS); break;
	}
	if (l.budget && chance(700)) { l.budget--; conf(l); if (chance(3000)) conf(l); if (chance(4000)) sleep_ns((ns)range(1, 300) * MS); }
	if (l.budget && l.work < 4 && chance(1500)) { l.budget--; l.work++; if (pomp_loop_idle_add(l.loop, work, &l) < 0) l.work--; }
	l.tlast = W->now;
}
static void wait_(L &l, int to) {
	l.delays.clear(); if (l.on) l.delays.push_back(l.cfg.delay); l.changes = l.calls = 0; l.tcall = W->now; l.tlast = 0; l.lat0 = W->clk_lat; bool on0 = l.on; uint32_t d0 = l.cfg.delay; l.f->t_waitret = 0; W->now += 1; // (so that a wait that returns at once is after the call)
	l.inwait = true; int r = pomp_loop_wait_and_process(l.loop, to); l.inwait = false; ns tw = l.f->t_waitret; TR("loop %d: wait %d = %d", l.id, to, r);
	if (r < 0 && r != -ETIMEDOUT) violate("C14", "running the loop fails (%d)", r);
	if (tw >= l.tcall && l.tlast && on0 && !l.changes && l.tlast - tw >= (ns)d0 * MS + 50 * MS + (W->clk_lat - l.lat0)) { probe("overlong"); if (l.calls != 1) violate("C14", "a dispatch of %lld ms has called the watchdog (delay %u ms) %d times", (long long)((l.tlast - tw) / MS), d0, l.calls); }
}
static void loop_main(L &l) {
	l.f = cur; { l.loop = pomp_loop_new(); } if (!l.loop) violate("C14", "no loop could be created");
	l.budget = range(3, 40); if (chance(8000)) enable(l);
	while (l.budget) {
		l.budget--; W->ops++;
		switch (choosew({6, 2, 2, 1})) {
		case 0: { uint32_t n = 1 + choosew({4, 2, 1}); while (n--) { l.work++; if (pomp_loop_idle_add(l.loop, work, &l) < 0) l.work--; } break; }
		case 1: conf(l); if (chance(3000)) conf(l); break;
		case 2: sleep_ns((ns)range(1, 400) * MS); break;
		default: pomp_loop_wakeup(l.loop); break;
		}
		if (chance(8000)) do wait_(l, (int)pick<uint32_t>({0, 1, 10, 50, 300, 1000})); while (l.work && chance(6000));
	}
	W->faults_on = false; for (int i = 0; i < 60 && (l.work || i < 3); i++) wait_(l, 1);
	if (chance(3000)) { disable(l); sleep_ns((ns)range(1, 3000) * MS); }
	// After a setting made now, an over-long dispatch is noticed and a short one is not, whatever happened before.
	for (int i = 0; i < 2; i++) { l.budget = 0; if (!l.on || chance(5000)) enable(l); l.work++; pomp_loop_idle_add(l.loop, work, &l); wait_(l, 10); }
	pomp_loop *x = l.loop; l.changing = true; l.after_on = false; int r = pomp_loop_destroy(x); l.on = false; l.changing = false; l.loop = nullptr; if (r < 0) violate("C07", "the loop cannot be destroyed (%d)", r);
	if (--left == 0) { sleep_ns(10 * SEC); check_clean(proc, "C14"); end_run(); }
}
}
void scen_watchdog(const char *) {
	using namespace wd; static std::deque<L> d; d.clear(); ls = &d; proc = mkproc("app", ipa(1)); W->faults_on = true; W->must_finish = true; W->preempt_mode = choosew({1, 3, 4});
	W->now += (ns)choose(1000) * MS + choose(3) * choose(1000000);
	if (chance(3000)) W->rate[F_THREAD] = 2500; if (chance(4000)) W->rate[F_SPURIOUS_WAKE] = 2000; if (chance(3000)) W->rate[F_EINTR] = 300; if (chance(5000)) W->clk_round = pick<ns>({1 * MS, 10 * MS, 100 * MS, 100 * MS});
	left = chance(2500) ? 2 : 1; static const char *nm[] = {"loop0", "loop1"};
	for (int i = 0; i < left; i++) { d.emplace_back(); L &l = d.back(); l.id = i; spawn(proc, nm[i], [&l]() { loop_main(l); }); }
	if (chance(3000)) for (int i = 0; i < 8; i++) at(W->now + (ns)range(1, 4000) * MS, []() { W->rt_off += ((ns)range(0, 7200) - 3600) * SEC; fault_fired(F_CLOCK_JUMP); });
}
