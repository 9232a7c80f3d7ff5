// Scenario: one loop used from several threads (C11: idle functions, C12: events and wakeups).
#include "app.h"
namespace th {
struct Key { int id, cbn, thread; int cookie; bool retired = false; };
struct Ent { Key *k; uint64_t ab = 0, ae = 0; ns ae_t = 0; bool called = false, optional = false, removed = false, failed = false, by_loop = false; uint64_t re = 0; bool rem_loop = false; };
struct Rem { Key *k; int cookie; uint64_t rb; };
struct Sig { uint64_t sb, se; ns sb_t, se_t; };
struct Clr { uint64_t b, e; ns e_t; };
struct Ev { int id; pomp_evt *e = nullptr; bool attached = false, loop_only = false; uint64_t at = 0; std::deque<Sig> s; std::deque<Clr> c; uint64_t lastcs = 0; int ncl = 0; };
struct Wk { uint64_t wb, we; ns wb_t, we_t; };
struct St {
	pomp_loop *loop = nullptr; std::deque<Key> keys; std::deque<Ent> ents; std::list<Rem> rems; std::deque<Ev> evs; std::deque<Wk> wks; std::vector<int> modes; // -2 dispatch, -1 flush, >=0 flush by cookie
	uint64_t tick = 0, lb = 0; Fiber *looper = nullptr; Proc *p = nullptr; uint32_t budget = 0; int depth = 0; uint64_t lastcbend = 0; ns prev_tw = 0; bool infwait = false; uint64_t waitno = 0; std::string prop; int live = 0; uint32_t w[10]; char cookies[4]; uint32_t f0 = 0; std::vector<Fiber *> ws; bool handlers = false;
};
static St *S;
#define T() (++S->tick)
static void LB() { if (cur == S->looper && !cur->in_signal) S->lb = T(); }
static void ops(int n);
static void idle_called(int cbn, void *ud) {
	Key *k = nullptr; for (Key &x : S->keys) if (&x == ud) k = &x;
	uint64_t lb0 = S->lb; LB(); W->ops++; if (!k) violate("C11", "idle function called with unknown user data");
	TR("idle callback key %d", k->id); hashmix(0xa000 + k->id);
	if (cur != S->looper) violate("C11", "idle function called by thread %s instead of the loop's", cur->name);
	if (S->modes.empty()) violate("C11", "idle function called outside the loop's dispatch and outside a flush");
	if (k->cbn != cbn) violate("C11", "the wrong idle function is called");
	Ent *e = nullptr, *inhand = nullptr, *opt = nullptr, *old = nullptr;
	for (Ent &x : S->ents) if (x.k == k) {
		old = &x; if (x.called || x.failed) continue;
		if (x.removed) { if (!inhand && !x.rem_loop && lb0 < x.re) inhand = &x; continue; }
		if (x.optional) { if (!opt) opt = &x; continue; }
		if (!e) e = &x;
	}
	if (inhand) { inhand->called = true; e = inhand; probe("removed_in_hand"); }
	else if (opt && (!e || opt->ab < e->ab)) e = opt; // an entry whose removal may or may not have taken effect
	if (!e) violate("C11", "idle function %d is called %s", k->id, old && old->removed ? "after it was removed" : old && old->failed ? "although adding it failed" : "more often than it was added");
	int mode = S->modes.back(); if (mode >= 0 && k->cookie != mode) violate("C11", "flushing by cookie calls a function with another cookie");
	if (!e->removed) for (Ent &a : S->ents) if (!a.called && !a.failed && !a.removed && !a.optional && a.ae && a.ae < e->ab && (mode < 0 || a.k->cookie == mode)) violate("C11", "idle function %d is called before function %d, which was added earlier", k->id, a.k->id);
	e->called = true;
	if (S->depth < 2) { S->depth++; uint32_t n = choosew({5, 3, 1, 1}); ops((int)n); if (chance(150)) sleep_ns(range(1, 20) * MS); S->depth--; }
	TR("idle callback key %d done", k->id); LB(); S->lastcbend = S->tick;
}
static void icb0(void *ud) { idle_called(0, ud); }
static void icb1(void *ud) { idle_called(1, ud); }
static void evt_called(pomp_evt *e, void *ud) {
	Ev *v = nullptr; for (Ev &x : S->evs) if (&x == ud) v = &x; uint64_t lb0 = S->lb; LB(); W->ops++;
	if (!v || v->e != e) violate("C12", "event callback with the wrong event or user data");
	TR("event %d callback", v->id); hashmix(0xb000 + v->id);
	if (cur != S->looper || S->modes.empty() || S->modes.back() != -2) violate("C12", "event callback outside the dispatch of the loop's thread");
	if (!v->attached) violate("C12", "callback of event %d which is not attached", v->id);
	ns tw = cur->t_waitret; bool ok = false;
	for (Sig &s : v->s) { if (s.sb_t > tw) continue; bool dead = false; for (Clr &c : v->c) if (s.se && s.se < c.b && c.e && c.e_t < tw) dead = true; if (!dead) ok = true; }
	if (!ok) violate("C12", "callback of event %d without a signal", v->id);
	v->c.push_back({lb0, S->tick, W->now}); v->lastcs = S->tick;
	if (S->depth < 2) { S->depth++; uint32_t n = choosew({5, 3, 1, 1}); ops((int)n); S->depth--; }
	LB(); TR("event callback done");
}
static void idle_add() {
	int me = cur->id; Key *k = nullptr; std::vector<Key *> own; for (Key &x : S->keys) if (x.thread == me && !x.retired) own.push_back(&x);
	if (!own.empty() && chance(2500)) k = own[choose((uint32_t)own.size())];
	else { S->keys.emplace_back(); k = &S->keys.back(); k->id = (int)S->keys.size() - 1; k->cbn = (int)choose(2); k->thread = me; k->cookie = chance(5000) ? (int)choose(3) : -1; }
	S->ents.emplace_back(); Ent &e = S->ents.back(); e.k = k; e.by_loop = cur == S->looper; LB(); e.ab = T(); for (Rem &r : S->rems) if (r.k == k || (r.cookie >= 0 && r.cookie == k->cookie)) e.optional = k->retired = true;
	TR("idle add key %d cookie %d", k->id, k->cookie); uint32_t f0 = W->fired[F_ALLOC]; pomp_idle_cb_t f = k->cbn ? icb1 : icb0; cur->noblock = "C12";
	int r = k->cookie >= 0 ? pomp_loop_idle_add_with_cookie(S->loop, f, k, &S->cookies[k->cookie]) : pomp_loop_idle_add(S->loop, f, k); cur->noblock = nullptr;
	e.ae = T(); e.ae_t = W->now; LB();
	if (r < 0) { if (W->fired[F_ALLOC] == f0) violate("C11", "an idle function cannot be added (%d)", r); if (e.called) violate("C11", "an idle function was called although adding it failed"); e.failed = true; }
}
static void idle_remove() {
	if (S->keys.empty()) return; Key *k = &S->keys[choose((uint32_t)S->keys.size())]; int cookie = -1; if (k->cookie >= 0 && chance(5000)) cookie = k->cookie;
	bool me = cur == S->looper; LB(); S->rems.push_back({k, cookie, T()}); auto it = std::prev(S->rems.end()); uint64_t rb = it->rb;
	auto hit = [&](Ent &e) { return cookie >= 0 ? e.k->cookie == cookie : e.k == k; }; std::vector<Ent *> sure;
	for (Key &x : S->keys) if (cookie >= 0 ? x.cookie == cookie : &x == k) x.retired = true;
	for (Ent &e : S->ents) if (hit(e) && !e.called && !e.failed && !e.removed) { if (e.ae && e.ae < rb && !e.optional) sure.push_back(&e); e.optional = true; }
	TR("idle remove key %d cookie %d", k->id, cookie); int r = cookie >= 0 ? pomp_loop_idle_remove_by_cookie(S->loop, &S->cookies[cookie]) : pomp_loop_idle_remove(S->loop, k->cbn ? icb1 : icb0, k);
	if (r < 0) violate("C11", "removing idle functions fails (%d)", r);
	uint64_t re = T(); for (Ent *e : sure) if (!e->called) { e->removed = true; e->re = re; e->rem_loop = me; } S->rems.erase(it); LB();
}
static void flush_(int cookie) {
	LB(); uint64_t b = S->tick; S->lastcbend = 0; TR("flush %d", cookie); S->modes.push_back(cookie); int r = cookie >= 0 ? pomp_loop_idle_flush_by_cookie(S->loop, &S->cookies[cookie]) : pomp_loop_idle_flush(S->loop); S->modes.pop_back();
	if (r < 0) violate("C11", "flushing idle functions fails (%d)", r); uint64_t lim = std::max(b, S->lastcbend); LB();
	for (Ent &e : S->ents) if (!e.called && !e.failed && !e.removed && !e.optional && e.ae && (cookie < 0 || e.k->cookie == cookie) && (e.ae < lim || e.by_loop)) violate("C11", "idle function %d is still pending after a flush", e.k->id);
	TR("flush done");
}
static void wakeup(int n) {
	while (n--) { LB(); S->wks.push_back({T(), 0, W->now, 0}); Wk &w = S->wks.back(); TR("wakeup"); const char *nb = cur->noblock; cur->noblock = "C12"; int r = pomp_loop_wakeup(S->loop); cur->noblock = nb; w.we = T(); w.we_t = W->now; LB(); if (r < 0) violate("C12", "waking the loop up fails (%d)", r); }
}
static void signal_(Ev &v) {
	LB(); v.s.push_back({T(), 0, W->now, 0}); Sig &s = v.s.back(); TR("signal event %d", v.id); const char *nb = cur->noblock; cur->noblock = "C12"; int r = pomp_evt_signal(v.e); cur->noblock = nb; s.se = T(); s.se_t = W->now; LB(); if (r < 0) violate("C12", "signalling an event fails (%d)", r);
}
static void clear_(Ev &v) { LB(); v.c.push_back({T(), 0, 0}); Clr &c = v.c.back(); v.ncl++; TR("clear event %d", v.id); int r = pomp_evt_clear(v.e); v.ncl--; c.e = T(); c.e_t = W->now; LB(); if (r < 0) violate("C12", "clearing an event fails (%d)", r); }
static void attach(Ev &v) { LB(); v.attached = true; TR("attach event %d", v.id); uint64_t f0 = W->nfired; int r = pomp_evt_attach_to_loop(v.e, S->loop, evt_called, &v); v.at = T(); if (r < 0) { v.attached = false; if (W->nfired == f0) violate("C12", "an event cannot be attached (%d)", r); } if (pomp_evt_is_attached(v.e, S->loop) != (v.attached ? 1 : 0)) violate("C12", "an event is wrong about being attached"); LB(); }
static void detach(Ev &v) { LB(); v.attached = false; TR("detach event %d", v.id); int r = pomp_evt_detach_from_loop(v.e, S->loop); if (r < 0) violate("C12", "an event cannot be detached (%d)", r); if (pomp_evt_is_attached(v.e, nullptr)) violate("C12", "an event is attached after it was detached"); LB(); }
static void op() {
	bool lt = cur == S->looper; W->ops++; uint32_t *w = S->w; Ev *v = S->evs.empty() ? nullptr : &S->evs[choose((uint32_t)S->evs.size())]; if (v && (!v->e || (v->loop_only && !lt))) v = nullptr;
	switch (choosew({w[0], w[1], w[2], w[3], w[4], w[5], lt ? w[6] : 0, lt ? w[7] : 0})) {
	case 0: idle_add(); break;
	case 1: idle_remove(); break;
	case 2: if (v) { uint32_t n = 1 + (chance(1000) ? choose(30) : 0); while (n--) signal_(*v); } break;
	case 3: if (v) clear_(*v); break;
	case 4: wakeup(1 + (int)(chance(1500) ? choose(30) : 0)); break;
	case 5: if (lt && S->depth) break; sleep_ns((ns)(1 + geom(4000)) * US); break;
	case 6: if (S->depth < 2) flush_(chance(5000) ? (int)choose(3) : -1); break;
	default:
		if (v && v->e && cur == S->looper) {
			if (v->attached) { int r = pomp_evt_destroy(v->e); if (r >= 0) violate("C12", "an attached event can be destroyed"); detach(*v); if (v->loop_only && chance(4000)) { int r2 = pomp_evt_destroy(v->e); if (r2 < 0) violate("C12", "a detached event cannot be destroyed (%d)", r2); v->e = nullptr; v->s.clear(); v->c.clear(); if (chance(8000)) v->e = pomp_evt_new(); } if (v->e && chance(6000)) attach(*v); }
			else attach(*v);
		}
	}
}
static void ops(int n) { while (n-- && S->budget) { S->budget--; op(); } }
static void wait_(int to) {
	LB(); S->waitno++; S->modes.push_back(-2); TR("wait %d", to); S->infwait = to < 0; int r = pomp_loop_wait_and_process(S->loop, to); S->infwait = false; S->modes.pop_back(); LB(); ns tw = cur->t_waitret; TR("wait = %d", r);
	if (r < 0 && r != -ETIMEDOUT && !W->fired[F_POLL] && !W->fired[F_ALLOC]) violate("C12", "running the loop fails (%d)", r);
	if (r == -ETIMEDOUT) {
		for (Ent &e : S->ents) if (!e.called && !e.failed && !e.removed && !e.optional && e.ae && e.ae_t < tw) violate("C11", "the loop timed out although idle function %d was pending", e.k->id);
		for (Ev &v : S->evs) if (v.e && v.attached) for (Sig &s : v.s) if (s.se && s.se_t < tw && s.sb > v.at && s.sb > v.lastcs) {
			bool cleared = v.ncl > 0; for (Clr &c : v.c) if (!c.e || c.e > s.sb) cleared = true;
			if (!cleared) violate("C12", "the loop timed out although event %d was signalled and its callback was not called since", v.id);
		}
		for (Wk &k : S->wks) if (k.we && k.we_t < tw && k.wb_t > S->prev_tw) violate("C12", "the loop timed out although it was woken up");
	}
	else S->prev_tw = W->now;
	while (S->wks.size() > 200) S->wks.pop_front();
}
static void handler(int, void *, void *) { if (!S || !S->loop || W->over) return; int e = cur->err; probe("signal_handler"); if (choose(2) || S->evs.empty()) wakeup(1); else { Ev &v = S->evs[choose((uint32_t)S->evs.size())]; if (v.e && !v.loop_only) signal_(v); else wakeup(1); } cur->err = e; }
static void worker(int i) {
	uint32_t n = range(3, 50);
	while (n-- && S->budget) { S->budget--; op(); if (chance(2500)) sleep_ns((ns)(1 + geom(3000)) * US); }
	// a loop that waits for ever is woken up by the last thread
	if (--S->live == 0) {
		for (int k = 0; k < 50; k++) { uint64_t w0 = S->waitno; if (S->infwait) { wakeup(1); sleep_ns(5 * SEC); if (S->infwait && S->waitno == w0) violate("C12", "a loop waiting without limit is not woken up"); } else break; }
	}
}
static void main_() {
	S->looper = cur; cur->p->fibers[0] == cur; S->loop = pomp_loop_new(); if (!S->loop) { if (!W->nfired) violate("C11", "no loop could be created"); end_run(); }
	uint32_t ne = S->prop == "C12" ? range(1, 3) : choose(2); for (uint32_t i = 0; i < ne; i++) { S->evs.emplace_back(); Ev &v = S->evs.back(); v.id = (int)i; v.loop_only = chance(2500); v.e = pomp_evt_new(); if (!v.e) { if (!W->nfired) violate("C12", "no event could be created"); continue; } if (chance(9000)) attach(v); }
	uint32_t nw = range(1, 3); S->budget = range(6, 160); S->live = (int)nw; static const char *nm[] = {"w1", "w2", "w3"};
	for (uint32_t i = 0; i < nw; i++) { Fiber *f = spawn(S->p, nm[i], [i]() { worker((int)i); }); race_fork(f); S->ws.push_back(f); }
	while (S->live > 0 || S->budget) {
		ops((int)choosew({4, 3, 1})); bool inf = S->live > 0 && chance(800);
		wait_(inf ? -1 : (int)pick<uint32_t>({1, 0, 0, 3, 20, 100})); if (S->live <= 0 && chance(1500)) break;
	}
	for (Fiber *f : S->ws) { if (!f->finished) block_until([f]() { return f->finished; }); race_join(f); }
	S->handlers = false; S->budget = 0; W->faults_on = false; if (chance(3000)) flush_(-1);
	for (int i = 0; i < 3; i++) { for (int k = 0; k < 400; k++) { uint64_t t = S->tick; wait_(10); if (S->tick <= t + 2) break; } }
	for (Ent &e : S->ents) if (!e.called && !e.failed && !e.removed && !e.optional) violate("C11", "idle function %d was never called", e.k->id);
	for (Ev &v : S->evs) if (v.e) { if (v.attached) detach(v); pomp_evt_destroy(v.e); v.e = nullptr; }
	for (int i = 0; i < 40; i++) wait_(0);
	int r = pomp_loop_destroy(S->loop); S->loop = nullptr; if (r < 0) violate("C07", "the loop cannot be destroyed (%d) although nothing is left in it", r);
	check_clean(S->p, "C07"); end_run();
}
}
void scen_threads(const char *prop) {
	using namespace th; static St *old; delete old; S = old = new St; S->prop = prop; W->must_finish = true;
	S->p = mkproc("app", ipa(1)); W->faults_on = true; W->preempt_mode = choosew({1, 3, 4});
	uint32_t idle[] = {8, 4, 2, 1, 1, 2, 2, 1}, evt[] = {2, 1, 8, 2, 5, 3, 1, 3}; for (int i = 0; i < 8; i++) S->w[i] = S->prop == "C12" ? evt[i] : idle[i]; if (chance(3000)) S->w[choose(5)] = 12; if (chance(3000)) S->w[1] = S->w[3] = 0;
	if (chance(4000)) K->pipe_cap = range(1, 20);
	if (chance(5000)) W->rate[F_EINTR] = 300 * choose(3); if (chance(2000)) W->rate[F_ALLOC] = 200; if (chance(3000)) W->rate[F_STALL] = 100;
	Proc *p = S->p; p->sig[10].h = handler; p->sig[10].flags = 0; S->handlers = chance(4000);
	spawn(p, "main", main_);
	if (S->handlers) for (int i = 0; i < 12; i++) at(W->now + (ns)range(1, 60000) * US, [p]() { if (S->handlers && S->loop && S->looper) add_signal(p, 10, -1); });
}
