// Scenario: descriptors on one loop (C13). The oracle keeps, per descriptor, the history of what was true of it and,
// per registration, of what was requested; every callback and every idle return of the loop is judged against them.
#include "app.h"
namespace lp {
struct Hist { std::vector<std::pair<uint64_t, uint32_t>> v; // (tick, value from that tick on)
	void set(uint64_t t, uint32_t x) { if (!v.empty() && v.back().second == x) return; v.push_back({t, x}); }
	uint32_t at(uint64_t t) const { uint32_t r = 0; for (auto &e : v) { if (e.first > t) break; r = e.second; } return r; }
	uint32_t since(uint64_t t) const { uint32_t r = at(t); for (auto &e : v) if (e.first > t) r |= e.second; return r; } };
struct Src { TagFile *f; Hist m; };
struct Reg { int id; int fd; Src *s; bool active = false; Hist want; uint64_t since = 0; int wait = 0; uint64_t calls = 0; int cbn = 0; uint32_t round_calls = 0; };
static std::deque<Src> *srcs; static std::deque<Reg> *regs; static std::vector<int> freefd; // (fd numbers the application holds, by source)
struct Slot { int fd; Src *s; Reg *r; }; static std::vector<Slot> *slots;
static pomp_loop *loop; static uint64_t tick; static uint64_t wait0; static int waitno, depth; static bool indisp, quiet_; static uint32_t budget; static Proc *proc; static uint32_t ncalls; static Fiber *looper;
static const uint32_t ERRS = EPOLLERR | EPOLLHUP;
static uint32_t rmask() { static const uint32_t b[] = {1, 4, 2, 8, 0x10}; uint32_t m = 0; uint32_t k = choosew({3, 6, 3, 1}); while (k--) m |= b[choosew({8, 6, 2, 1, 1})]; return m; }
static uint32_t revt() { uint32_t m = 0; uint32_t k = 1 + choosew({6, 3, 1}); while (k--) m |= pick<uint32_t>({1, 4, 2}); if (chance(1000)) m |= 0x18; return m; }
static void setmask(Src *s, uint32_t m) { tick++; s->f->pollmask = m; s->m.set(tick, m); TR("descriptor file %d is now %x", s->f->tag, m); changed(); }
static void op(int where);
static void called(int n, int fd, uint32_t ev, void *ud) {
	Reg *r = nullptr; for (Reg &x : *regs) if (&x == ud) r = &x;
	W->ops++; ncalls++; tick++;
	if (!r) violate("C13", "callback for descriptor %d with unknown user data", fd);
	TR("callback reg %d fd %d events %x", r->id, fd, ev); hashmix(r->id * 77 + ev);
	if (cur != looper || !indisp) violate("C13", "callback of descriptor %d outside the loop's dispatch", fd);
	if (!r->active) violate("C13", "callback of registration %d of descriptor %d, which was removed", r->id, fd);
	if (r->fd != fd) violate("C13", "callback of registration %d is given descriptor %d instead of %d", r->id, fd, r->fd);
	if (r->cbn != n) violate("C13", "the wrong function is called for descriptor %d", fd);
	if (!ev) violate("C13", "callback of descriptor %d without any event", fd);
	uint64_t t = std::max(wait0, r->since); uint32_t tru = r->s->m.since(t), want = r->want.since(t) | ERRS;
	if (ev & ~tru) violate("C13", "callback of descriptor %d with events %x of which %x was not true of it%s", fd, ev, ev & ~tru, r->since > wait0 ? " since it was registered anew" : "");
	if (ev & ~want) violate("C13", "callback of descriptor %d with events %x of which %x was not requested", fd, ev, ev & ~want);
	if (r->since > wait0) probe("called_in_same_dispatch");
	r->calls++; r->round_calls++;
	if (quiet_) return;
	if (depth < 2) { depth++; uint32_t k = choosew({5, 4, 2, 1}); while (k--) if (budget) op(r->id + 1); if (chance(200)) sleep_ns(range(1, 30) * MS); depth--; }
}
static void cb0(int fd, uint32_t ev, void *ud) { called(0, fd, ev, ud); }
static void cb1(int fd, uint32_t ev, void *ud) { called(1, fd, ev, ud); }
static bool excused(uint32_t f0) { return W->fired[F_ALLOC] + W->fired[F_EPOLL_ADD] + W->fired[F_MEMLIMIT] != f0; }
static uint32_t fcount() { return W->fired[F_ALLOC] + W->fired[F_EPOLL_ADD] + W->fired[F_MEMLIMIT]; }
static void add(Slot &s) {
	regs->emplace_back(); Reg &r = regs->back(); r.id = (int)regs->size() - 1; r.fd = s.fd; r.s = s.s; r.cbn = (int)choose(2); r.wait = indisp ? waitno : 0;
	uint32_t ev = revt(), f0 = fcount(); tick++; r.since = tick; r.want.set(tick, ev); r.active = true; TR("add fd %d events %x: reg %d", s.fd, ev, r.id);
	int x = pomp_loop_add(loop, s.fd, ev, r.cbn ? cb1 : cb0, &r);
	if (x < 0) { r.active = false; if (!excused(f0)) violate("C13", "descriptor %d cannot be registered (%d)", s.fd, x); if (pomp_loop_has_fd(loop, s.fd)) violate("C13", "descriptor %d is in the loop although registering it failed", s.fd); return; }
	s.r = &r; if (!pomp_loop_has_fd(loop, s.fd)) violate("C13", "descriptor %d is not in the loop after it was registered", s.fd);
}
static void rem(Slot &s) {
	TR("remove fd %d reg %d", s.fd, s.r->id); tick++; s.r->active = false; s.r = nullptr; int x = pomp_loop_remove(loop, s.fd);
	if (x < 0) violate("C13", "descriptor %d cannot be removed (%d)", s.fd, x);
	if (pomp_loop_has_fd(loop, s.fd)) violate("C13", "descriptor %d is in the loop after it was removed", s.fd);
}
static Src *newsrc() { srcs->emplace_back(); Src &s = srcs->back(); s.f = nullptr; return &s; }
static void openfd(int minfd) { // a new file with an unused descriptor number >= minfd, or a second descriptor of a file
	NoFault nf; Slot s; s.r = nullptr;
	if (!slots->empty() && chance(1200)) { Slot &o = (*slots)[choose((uint32_t)slots->size())]; s.fd = k_dup(proc, o.fd, minfd, false); s.s = o.s; if (s.fd < 0) return; TR("dup fd %d of %d", s.fd, o.fd); }
	else { s.s = newsrc(); int f; s.s->f = appfile(proc, &f); s.s->m.set(++tick, 0); s.s->f->pollmask = 0; s.fd = f; if (minfd > f) { int d = k_dup(proc, f, minfd, false); if (d >= 0) { k_close(proc, f); s.fd = d; } } setmask(s.s, rmask()); TR("open fd %d file %d", s.fd, s.s->f->tag); }
	slots->push_back(s);
}
static void closefd(size_t i) { NoFault nf; Slot s = (*slots)[i]; slots->erase(slots->begin() + i); TR("close fd %d", s.fd); k_close(proc, s.fd); }
static void op(int where) {
	if (!budget) return; budget--; W->ops++;
	if (slots->empty()) { openfd(0); return; }
	size_t i = choose((uint32_t)slots->size());
	if (where && chance(3500)) { Reg &me = (*regs)[where - 1]; for (size_t k = 0; k < slots->size(); k++) if ((*slots)[k].r == &me) i = k; }
	Slot &s = (*slots)[i];
	switch (choosew({6, 5, 4, 4, 4, 2, 1, 1, 1})) {
	case 0: // register
		if (!s.r) add(s); else { int x = pomp_loop_add(loop, s.fd, revt(), cb0, nullptr); if (x >= 0) violate("C13", "descriptor %d can be registered twice", s.fd); } break;
	case 1: if (s.r) rem(s); else { int x = pomp_loop_remove(loop, s.fd); if (x >= 0) violate("C13", "a descriptor that is not registered can be removed"); } break;
	case 2: if (s.r) { uint32_t ev = chance(1500) ? 0 : revt(), f0 = W->nfired; tick++; TR("update fd %d events %x", s.fd, ev); int x = pomp_loop_update(loop, s.fd, ev); if (x >= 0) s.r->want.set(++tick, ev); else if (W->nfired == f0) violate("C13", "the events of descriptor %d cannot be changed (%d)", s.fd, x); }
		else { int x = pomp_loop_update(loop, s.fd, revt()); if (x >= 0) violate("C13", "the events of a descriptor that is not registered can be changed"); } break;
	case 3: if (s.r) { uint32_t a = revt(), d = chance(7000) ? revt() : 0, f0 = W->nfired, old = s.r->want.v.back().second; if (chance(3000)) a = 0; d &= ~a; TR("update2 fd %d +%x -%x", s.fd, a, d); tick++; int x = pomp_loop_update2(loop, s.fd, a, d); if (x >= 0) s.r->want.set(++tick, (old | a) & ~d); else if (W->nfired == f0) violate("C13", "the events of descriptor %d cannot be changed (%d)", s.fd, x); }
		else { int x = pomp_loop_update2(loop, s.fd, revt(), 0); if (x >= 0) violate("C13", "the events of a descriptor that is not registered can be changed"); } break;
	case 4: { // removed, closed, and its number used again for another file, perhaps registered at once
		int fd = s.fd; bool had = s.r != nullptr; if (s.r) rem(s); if (chance(6000)) { closefd(i); if (chance(8000)) { NoFault nf; Slot n; n.r = nullptr; n.s = newsrc(); int f; n.s->f = appfile(proc, &f); n.s->m.set(++tick, 0); n.s->f->pollmask = 0; n.fd = f; if (f != fd) { int d = k_dup(proc, f, fd, false); if (d >= 0) { k_close(proc, f); n.fd = d; } } setmask(n.s, rmask()); TR("reuse fd %d as %d file %d", fd, n.fd, n.s->f->tag); slots->push_back(n); if (n.fd == fd && had) probe("fd_reused"); if (chance(8000)) { W->nofault--; add(slots->back()); W->nofault++; } } }
		else if (chance(7000)) { add(s); probe("fd_readded"); } break; }
	case 5: setmask(s.s, rmask()); break;
	case 6: { int x = pomp_loop_wakeup(loop); if (x < 0 && !W->nfired) violate("C12", "waking the loop up fails (%d)", x); tick++; break; }
	case 7: openfd(chance(5000) ? 0 : (int)range(0, 900)); break;
	default: if (pomp_loop_has_fd(loop, s.fd) != (s.r ? 1 : 0)) violate("C13", "the loop says %d for a descriptor that is%s registered", pomp_loop_has_fd(loop, s.fd), s.r ? "" : " not"); break;
	}
}
// was something due for this registration at every instant of [t0, now]?
static bool always(Reg &r, uint64_t t0) {
	if (!r.active || r.since > t0) return false;
	auto rdy = [&](uint64_t t) { return r.s->m.at(t) & (r.want.at(t) | ERRS); };
	if (!rdy(t0)) return false;
	for (auto &e : r.s->m.v) if (e.first > t0 && !rdy(e.first)) return false;
	for (auto &e : r.want.v) if (e.first > t0 && !rdy(e.first)) return false;
	return true;
}
static bool wait_(int to, bool own) {
	waitno++; wait0 = ++tick; uint32_t c0 = ncalls; uint64_t f0 = W->nfired; uint32_t e0 = W->fired[F_EINTR]; ns t0 = W->now; int r;
	if (own) {
		int lfd = (int)pomp_loop_get_fd(loop); if (lfd < 0) { if (!g_be.loop) violate("C13", "the loop has no descriptor (%d)", lfd); own = false; }
		else { // the application's own poll() on the loop's descriptor
			pollfd p = {lfd, POLLIN, 0}; int k; { NoFault nf; k = k_poll(proc, &p, 1, W->now + to * MS); } tick++;
			if (k == 0) { for (Reg &x : *regs) if (always(x, wait0)) violate("C13", "descriptor %d has had events all the time but the loop's own descriptor is not readable", x.fd); return false; }
			probe("own_fd"); indisp = true; r = pomp_loop_process_fd(loop); indisp = false; tick++; goto done;
		}
	}
	indisp = true; TR("wait %d", to); r = pomp_loop_wait_and_process(loop, to); indisp = false; tick++; TR("wait = %d", r);
done:
	if (r == -ETIMEDOUT) {
		if (ncalls != c0) violate("C13", "the loop reports a timeout although it called callbacks");
		if (!own && W->now - t0 < (ns)to * MS) violate("C13", "the loop reports a timeout after %lld us of %d ms", (long long)((W->now - t0) / US), to);
		if (!own && W->now - t0 > (ns)to * MS * (1 + (ns)(W->fired[F_EINTR] - e0)) + 5 * MS && W->fired[F_STALL] == 0) violate("C13", "a wait of %d ms lasts %lld us", to, (long long)((W->now - t0) / US));
		for (Reg &x : *regs) if (always(x, wait0)) violate("C13", "descriptor %d has had events all the time but the loop timed out", x.fd);
		return false;
	}
	if (r < 0 && W->nfired == f0) violate("C13", "running the loop fails (%d)", r);
	return true;
}
static void main_() {
	looper = cur; loop = pomp_loop_new(); if (!loop) { if (!W->nfired) violate("C13", "no loop could be created"); end_run(); }
	uint32_t n = choosew({3, 2, 2}) ; n = n == 0 ? range(1, 5) : n == 1 ? range(5, 20) : range(17, 45); bool big = chance(4000);
	for (uint32_t i = 0; i < n; i++) { openfd(big ? (int)range(0, 900) : 0); if (chance(7000) && !slots->empty()) add(slots->back()); }
	budget = range(6, 120); bool own = chance(2500);
	while (budget) {
		uint32_t k = choosew({4, 3, 2}); while (k--) op(0);
		int to = (int)pick<uint32_t>({10, 0, 0, 1, 5, 50}); bool ready = false; for (Reg &x : *regs) if (x.active && (x.s->f->pollmask & (x.want.v.back().second | ERRS))) ready = true;
		if (ready && !W->rate[F_STALL] && chance(500) && !own) { bool world = false; for (Fiber *f : proc->fibers) if (f != cur && !f->dead) world = true; if (!world) to = -1; }
		wait_(to, own); if (chance(300)) break; if (budget) budget--;
	}
	budget = 0; W->faults_on = false; quiet_ = true; K->ready_random = false;
	// fairness: whatever stays ready is reported even though many others are ready as well
	for (Slot &s : *slots) { if (!s.r && chance(6000)) add(s); if (chance(8000)) setmask(s.s, s.s->f->pollmask | 1 | (chance(3000) ? 4 : 0)); if (s.r) { tick++; pomp_loop_update2(loop, s.fd, 1, 0); s.r->want.set(++tick, s.r->want.v.back().second | 1); } }
	for (Reg &x : *regs) x.round_calls = 0; uint64_t t0 = ++tick;
	for (int i = 0; i < 64; i++) wait_(0, own && i & 1);
	for (Reg &x : *regs) if (always(x, t0) && !x.round_calls) violate("C13", "descriptor %d stays ready but its callback is not called in 64 rounds of the loop", x.fd);
	for (size_t i = 0; i < slots->size(); i++) if ((*slots)[i].r) rem((*slots)[i]);
	wait_(0, false); wait_(1, false);
	int r = pomp_loop_destroy(loop); if (r < 0) violate("C07", "the loop cannot be destroyed (%d) although nothing is left in it", r);
	check_clean(proc, "C07"); end_run();
}
}
void scen_loop(const char *) {
	using namespace lp; static std::deque<Src> a; static std::deque<Reg> b; static std::vector<Slot> c; a.clear(); b.clear(); c.clear(); srcs = &a; regs = &b; slots = &c; tick = 0; waitno = depth = 0; indisp = quiet_ = false; loop = nullptr; ncalls = 0;
	proc = mkproc("app", ipa(1)); W->faults_on = true; K->ready_random = chance(5000); W->rate[F_READY_ORDER] = K->ready_random ? 5000 : 0;
	if (chance(5000)) W->rate[F_EINTR] = 300 * choose(3);
	if (chance(2500)) { W->rate[F_ALLOC] = 300; W->rate[F_EPOLL_ADD] = 500; W->rate[F_POLL] = 200; }
	if (chance(1000)) { W->rate[F_EMFILE] = 300; W->rate[F_PIPE] = W->rate[F_EVENTFD] = W->rate[F_FCNTL] = 300; }
	spawn(proc, "main", main_);
	if (chance(6000)) spawn(proc, "world", []() { for (int i = 0; i < 200 && W->faults_on; i++) { sleep_ns((ns)range(1, 8000) * US); if (!W->faults_on) break; uint32_t k = choosew({5, 2, 1}) + 1; while (k--) if (!srcs->empty()) { Src &s = (*srcs)[choose((uint32_t)srcs->size())]; if (s.f && !s.f->dead) setmask(&s, rmask()); } } });
	W->preempt_mode = choose(2);
}
