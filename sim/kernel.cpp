#include "kernel.h"
#include <netinet/tcp.h>
#include <sys/timerfd.h>
#include <sys/eventfd.h>
Kernel *K;
void kernel_init() { K = new Kernel; }
void kernel_reset() {
	if (!K) return;
	for (File *f : K->all) delete f;
	for (Conn *c : K->conns) delete c;
	for (PipeBuf *b : K->pipes) delete b;
	delete K; K = nullptr;
}
bool lf(Fault f) { return cur && cur->inlib && fault(f); }
int owner_now() { return cur && cur->inlib ? OWN_LIB : OWN_APP; }
File::File(Kind k) : kind(k) { id = W->nextfile++; K->all.push_back(this); creator = cur ? cur->p : nullptr; }
void file_get(File *f) { f->refs++; }
void file_put(File *f) {
	if (--f->refs) return;
	changed(); f->dead = true;
	for (Epoll *e : f->eps) for (size_t i = 0; i < e->items.size();) { if (e->items[i].f == f) e->items.erase(e->items.begin() + i); else i++; }
	f->eps.clear(); f->release();
}
// ------------------------------------------------------------ fd table
int fd_alloc(Proc *p, File *f, bool cloexec, int owner, const char *how) {
	int i = 0; for (; i < (int)p->fds.size(); i++) if (!p->fds[i].f) break;
	if (i >= p->fdlimit && !W->nofault) { fault_fired(F_EMFILE); return -EMFILE; }
	if (i == (int)p->fds.size()) p->fds.emplace_back();
	p->fds[i] = {f, cloexec, owner, K->fdseq++, how}; return i;
}
File *fd_file(Proc *p, int fd) { return fd < 0 || fd >= (int)p->fds.size() ? nullptr : p->fds[fd].f; }
int k_close(Proc *p, int fd) {
	sys_enter("close"); TR("close(%d)", fd); hashmix(0x100 + fd);
	if (!fd_file(p, fd)) {
		if (cur && cur->inlib && K->strict_fd) violate("C07", "close() of descriptor %d which is not open", fd);
		return -EBADF;
	}
	if (cur && cur->inlib && p->fds[fd].owner != OWN_LIB && K->strict_fd) violate("C07", "library closes descriptor %d which belongs to the application (%s)", fd, p->fds[fd].how);
	File *f = p->fds[fd].f; p->fds[fd] = {}; K->closes++; file_put(f); changed(); return 0;
}
int k_dup(Proc *p, int fd, int minfd, bool cloexec) {
	sys_enter("dup"); File *f = fd_file(p, fd); if (!f) return -EBADF;
	if (lf(F_EMFILE) || lf(F_DUP)) return -EMFILE;
	int i = minfd; while ((int)p->fds.size() <= i) p->fds.emplace_back();
	for (; i < (int)p->fds.size(); i++) if (!p->fds[i].f) break;
	if (i >= p->fdlimit && !W->nofault) { fault_fired(F_EMFILE); return -EMFILE; }
	if (i == (int)p->fds.size()) p->fds.emplace_back();
	p->fds[i] = {f, cloexec, owner_now(), K->fdseq++, "dup"}; file_get(f); TR("dup(%d)=%d", fd, i); hashmix(0x200 + i); return i;
}
std::string leak_report(Proc *p, int owner) {
	std::string s; for (size_t i = 0; i < p->fds.size(); i++) if (p->fds[i].f && p->fds[i].owner == owner) { char b[64]; snprintf(b, 64, "%s%zu(%s)", s.empty() ? "" : " ", i, p->fds[i].how); s += b; }
	return s;
}
// ------------------------------------------------------------ pipes, eventfd, timerfd
uint32_t PipeEnd::poll() {
	if (kind == K_PIPE_R) return (b->q.empty() ? 0 : EPOLLIN) | (b->writers ? 0 : EPOLLHUP);
	return (b->cap - b->q.size() >= std::min<size_t>(b->cap, 4096) / 2 + 1 || b->q.empty() ? EPOLLOUT : 0) | (b->readers ? 0 : EPOLLERR);
}
ssize_t PipeEnd::read(char *d, size_t n) {
	if (kind != K_PIPE_R) return -EBADF;
	if (n == 0) return 0;
	if (b->q.empty()) return b->writers ? -EAGAIN : 0;
	size_t k = std::min(n, b->q.size()); for (size_t i = 0; i < k; i++) { d[i] = b->q.front(); b->q.pop_front(); } changed(); return k;
}
ssize_t PipeEnd::write(const char *d, size_t n) {
	if (kind != K_PIPE_W) return -EBADF;
	if (!b->readers) return -EPIPE;
	size_t fr = b->cap - b->q.size(); if (fr == 0 || (n <= 4096 && fr < n)) return -EAGAIN;
	size_t k = std::min(n, fr); b->q.insert(b->q.end(), d, d + k); changed(); return k;
}
void PipeEnd::release() { if (kind == K_PIPE_R) b->readers--; else b->writers--; }
ssize_t EventFd::read(char *d, size_t n) {
	if (n < 8) return -EINVAL; if (!cnt) return -EAGAIN;
	uint64_t v = sem ? 1 : cnt; memcpy(d, &v, 8); cnt -= v; changed(); return 8;
}
ssize_t EventFd::write(const char *d, size_t n) {
	if (n < 8) return -EINVAL; uint64_t v; memcpy(&v, d, 8); if (v == UINT64_MAX) return -EINVAL;
	if (cnt > UINT64_MAX - 1 - v) return -EAGAIN; cnt += v; changed(); return 8;
}
static void tfd_expire(TimerFd *t, uint64_t g) {
	if (t->gen != g || t->dead) return;
	t->ticks++; changed();
	if (t->interval) { t->next += t->interval; at(t->next, [t, g]() { tfd_expire(t, g); }); } else t->next = 0;
}
void TimerFd::arm() { uint64_t g = ++gen; if (!next) return; TimerFd *t = this; at(next, [t, g]() { tfd_expire(t, g); }); }
ssize_t TimerFd::read(char *d, size_t n) { if (n < 8) return -EINVAL; if (!ticks) return -EAGAIN; memcpy(d, &ticks, 8); ticks = 0; changed(); return 8; }

// ------------------------------------------------------------ epoll / poll
bool Epoll::any() { for (auto &i : items) if (!i.disabled && (i.f->poll() & (i.ev | EPOLLERR | EPOLLHUP))) return true; return false; }
uint32_t Epoll::poll() { return any() ? EPOLLIN : 0; }
void Epoll::release() { for (auto &i : items) { auto &v = i.f->eps; v.erase(std::remove(v.begin(), v.end(), this), v.end()); } items.clear(); }
int k_epoll_create(Proc *p, int flags) {
	sys_enter("epoll_create"); if (lf(F_EMFILE)) return -EMFILE; if (lf(F_ENFILE)) return -ENFILE;
	Epoll *e = new Epoll; int fd = fd_alloc(p, e, flags & O_CLOEXEC, owner_now(), "epoll"); if (fd < 0) file_put(e); TR("epoll_create=%d", fd); return fd;
}
int k_epoll_ctl(Proc *p, int efd, int op, int fd, const epoll_event *ev) {
	sys_enter("epoll_ctl"); Epoll *e = dynamic_cast<Epoll *>(fd_file(p, efd)); File *f = fd_file(p, fd);
	TR("epoll_ctl(%d, %d, %d, %x)", efd, op, fd, ev ? ev->events : 0); hashmix(0x300 + op * 64 + fd + (ev ? (uint64_t)ev->events << 20 : 0));
	if (!e || !f) return fd_file(p, efd) && f ? -EINVAL : -EBADF;
	if (f == e) return -EINVAL;
	size_t i = 0; for (; i < e->items.size(); i++) if (e->items[i].fd == fd && e->items[i].f == f) break;
	bool has = i < e->items.size();
	switch (op) {
	case EPOLL_CTL_ADD:
		if (has) return -EEXIST;
		if (!ev) return -EFAULT;
		if (lf(F_EPOLL_ADD)) return choose(2) ? -ENOSPC : -ENOMEM;
		e->items.push_back({fd, f, ev->events, ev->data.u64, W->seq++}); f->eps.push_back(e); changed(); return 0;
	case EPOLL_CTL_MOD:
		if (!has) return -ENOENT;
		if (!ev) return -EFAULT;
		e->items[i].ev = ev->events; e->items[i].data = ev->data.u64; e->items[i].disabled = false; e->items[i].last = 0; changed(); return 0;
	case EPOLL_CTL_DEL:
		if (!has) return -ENOENT;
		e->items.erase(e->items.begin() + i); { bool more = false; for (auto &x : e->items) more |= x.f == f; if (!more) { auto &v = f->eps; v.erase(std::remove(v.begin(), v.end(), e), v.end()); } }
		changed(); return 0;
	}
	return -EINVAL;
}
int k_epoll_wait(Proc *p, int efd, epoll_event *out, int max, ns deadline) {
	sys_enter("epoll_wait"); Epoll *e = dynamic_cast<Epoll *>(fd_file(p, efd)); if (!e) return fd_file(p, efd) ? -EINVAL : -EBADF;
	if (max <= 0) return -EINVAL;
	if (lf(F_EINTR)) return -EINTR;
	for (;;) {
		if (e->dead) return -EBADF;
		std::vector<size_t> rdy;
		for (size_t i = 0; i < e->items.size(); i++) {
			auto &it = e->items[i]; if (it.disabled) continue;
			uint32_t m = it.f->poll() & (it.ev | EPOLLERR | EPOLLHUP);
			if (it.ev & EPOLLET) { uint32_t x = m; m = m & ~it.last; it.last = x; }
			if (m) rdy.push_back(i);
		}
		if (!rdy.empty()) {
			if (K->ready_random && rdy.size() > 1 && fault(F_READY_ORDER)) for (size_t i = rdy.size() - 1; i > 0; i--) std::swap(rdy[i], rdy[i - choose((uint32_t)i + 1)]);
			int n = 0; std::vector<Epoll::Item> rep;
			for (size_t k = 0; k < rdy.size() && n < max; k++) {
				auto &it = e->items[rdy[k]]; out[n].events = it.f->poll() & ((it.ev & 0xffff) | EPOLLERR | EPOLLHUP); out[n].data.u64 = it.data; hashmix(0x400 + it.fd * 64 + out[n].events); TR("  ready fd=%d ev=%x", it.fd, out[n].events); n++;
				if (it.ev & EPOLLONESHOT) it.disabled = true;
				rep.push_back(it);
			}
			// level triggered: those reported go to the tail of the ready list
			for (auto &r : rep) for (size_t i = 0; i < e->items.size(); i++) if (e->items[i].fd == r.fd && e->items[i].f == r.f) { auto x = e->items[i]; e->items.erase(e->items.begin() + i); e->items.push_back(x); break; }
			return n;
		}
		if (deadline <= W->now) return 0;
		int r = block_until([e]() { return e->dead || e->any(); }, deadline, true);
		if (r == 2) return -EINTR;
		if (r == 1) return 0;
	}
}
int k_poll(Proc *p, pollfd *fds, unsigned n, ns deadline) {
	sys_enter("poll");
	if (lf(F_EINTR)) return -EINTR;
	if (lf(F_POLL)) return -ENOMEM;
	auto scan = [&]() {
		int c = 0;
		for (unsigned i = 0; i < n; i++) {
			fds[i].revents = 0; if (fds[i].fd < 0) continue; File *f = fd_file(p, fds[i].fd);
			if (!f) fds[i].revents = POLLNVAL; else { uint32_t m = f->poll(); fds[i].revents = (short)(m & ((fds[i].events & 0xffff) | POLLERR | POLLHUP)); }
			if (fds[i].revents) c++;
		}
		return c;
	};
	for (;;) {
		int c = scan(); if (c) { for (unsigned i = 0; i < n; i++) if (fds[i].revents) { hashmix(0x500 + fds[i].fd * 64 + fds[i].revents); TR("  poll ready fd=%d ev=%x", fds[i].fd, fds[i].revents); } return c; }
		if (deadline <= W->now) return 0;
		int r = block_until([&]() { return scan() > 0; }, deadline, true);
		if (r == 2) return -EINTR;
		if (r == 1) { scan(); return 0; }
	}
}
int k_eventfd(Proc *p, unsigned init, int flags) {
	sys_enter("eventfd"); if (lf(F_EVENTFD) || lf(F_EMFILE)) return -EMFILE;
	EventFd *e = new EventFd; e->cnt = init; e->sem = flags & EFD_SEMAPHORE; e->nonblock = flags & EFD_NONBLOCK;
	int fd = fd_alloc(p, e, flags & EFD_CLOEXEC, owner_now(), "eventfd"); if (fd < 0) file_put(e); TR("eventfd=%d", fd); return fd;
}
int k_timerfd_create(Proc *p, int clk, int flags) {
	sys_enter("timerfd_create"); if (lf(F_EMFILE) || lf(F_TIMER)) return -EMFILE;
	TimerFd *t = new TimerFd; t->clk = clk; t->nonblock = flags & TFD_NONBLOCK; int fd = fd_alloc(p, t, flags & TFD_CLOEXEC, owner_now(), "timerfd"); if (fd < 0) file_put(t); return fd;
}
static bool tsok(const timespec &t) { return t.tv_sec >= 0 && t.tv_nsec >= 0 && t.tv_nsec < 1000000000; }
static ns tsns(const timespec &t) { return t.tv_sec > 4000000000ll ? 4000000000ll * SEC : t.tv_sec * SEC + t.tv_nsec; }
ns clk_now(int clk);
int k_timerfd_settime(Proc *p, int fd, int flags, const itimerspec *nv, itimerspec *ov) {
	sys_enter("timerfd_settime"); File *f = fd_file(p, fd); if (!f) return -EBADF; TimerFd *t = dynamic_cast<TimerFd *>(f); if (!t) return -EINVAL;
	if (!nv) return -EFAULT; if (!tsok(nv->it_value) || !tsok(nv->it_interval)) return -EINVAL;
	if (lf(F_TIMERSET)) return -ENOMEM;
	if (ov) { ns rem = t->next ? std::max<ns>(t->next - W->now, 1) : 0; ov->it_value.tv_sec = rem / SEC; ov->it_value.tv_nsec = rem % SEC; ov->it_interval.tv_sec = t->interval / SEC; ov->it_interval.tv_nsec = t->interval % SEC; }
	ns v = tsns(nv->it_value), iv = tsns(nv->it_interval); TR("timerfd_settime(%d, %lld, %lld)", fd, (long long)v, (long long)iv); hashmix(0x600 + fd); hashmix(v);
	t->ticks = 0; t->interval = iv; t->next = v == 0 ? 0 : (flags & TFD_TIMER_ABSTIME) ? std::max<ns>(v - (clk_now(t->clk) - W->now), 1) : W->now + v; t->arm(); changed(); return 0;
}
int k_pipe(Proc *p, int out[2], int flags) {
	sys_enter("pipe"); if (lf(F_PIPE) || lf(F_EMFILE)) return -EMFILE; if (lf(F_ENFILE)) return -ENFILE;
	PipeBuf *b = new PipeBuf; K->pipes.push_back(b); b->cap = K->pipe_cap; PipeEnd *r = new PipeEnd(b, false), *w = new PipeEnd(b, true); b->readers = b->writers = 1; r->nonblock = w->nonblock = flags & O_NONBLOCK; r->accmode = O_RDONLY; w->accmode = O_WRONLY;
	int a = fd_alloc(p, r, flags & O_CLOEXEC, owner_now(), "pipe"); if (a < 0) { file_put(r); file_put(w); return a; }
	int c = fd_alloc(p, w, flags & O_CLOEXEC, owner_now(), "pipe"); if (c < 0) { p->fds[a] = {}; file_put(r); file_put(w); return c; }
	out[0] = a; out[1] = c; TR("pipe=%d,%d", a, c); return 0;
}
int k_fcntl(Proc *p, int fd, int cmd, long arg) {
	if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) return k_dup(p, fd, (int)arg, cmd == F_DUPFD_CLOEXEC);
	sys_enter("fcntl"); File *f = fd_file(p, fd); if (!f) return -EBADF;
	if (lf(F_FCNTL)) return -EINTR;
	switch (cmd) {
	case F_GETFL: return f->accmode | (f->nonblock ? O_NONBLOCK : 0);
	case F_SETFL: if (cur && cur->inlib && p->fds[fd].owner == OWN_APP && f->nonblock != !!(arg & O_NONBLOCK)) violate("C07", "library changes the flags of descriptor %d of the application", fd);
		f->nonblock = arg & O_NONBLOCK; changed(); return 0;
	case F_GETFD: return p->fds[fd].cloexec ? FD_CLOEXEC : 0;
	case F_SETFD: p->fds[fd].cloexec = arg & FD_CLOEXEC; return 0;
	}
	return -EINVAL;
}
// ------------------------------------------------------------ network
Link &link_of(Proc *a, Proc *b) {
	auto k = std::make_pair(std::min(a->id, b->id), std::max(a->id, b->id)); auto it = K->links.find(k);
	if (it == K->links.end()) { Link l; l.lat = K->lat_default; l.var = K->var_default; it = K->links.emplace(k, l).first; }
	return it->second;
}
static bool same_host(Proc *a, Proc *b) { return a == b || a->ip == b->ip; }
Proc *host_of_ip(uint32_t ip) { // last process alive with that address
	Proc *r = nullptr; for (Proc *p : W->procs) if (p->alive) for (uint32_t x : p->ips) if (x == ip || ip == 0x7f000001) r = r ? r : p; return r;
}
static ns lat(Proc *a, Proc *b) {
	if (same_host(a, b)) return 5 * US;
	Link &l = link_of(a, b); ns d = l.lat + (l.var ? (ns)choose((uint32_t)(l.var / US) + 1) * US : 0);
	if (W->rate[F_LATENCY] && fault(F_LATENCY)) d += (ns)(1 + geom(3000)) * MS;
	return d;
}
static bool cut(Proc *a, Proc *b) { return !same_host(a, b) && link_of(a, b).cut; }
static void pump(Conn *c, int side);
static void sched_pump(Conn *c, int side) {
	Dir &d = c->d[side]; if (d.fly.empty() || d.pump_scheduled) return;
	d.pump_scheduled = true; at(d.fly.front().arr, [c, side]() { c->d[side].pump_scheduled = false; pump(c, side); });
}
static void drop_fds(Seg &s) { for (File *f : s.fds) file_put(f); s.fds.clear(); }
static void drop_fly(Dir &d) { // data is lost, a reset on its way still arrives
	std::deque<Seg> k; for (auto &s : d.fly) { if (s.rst) { k.push_back(std::move(s)); continue; } d.nb -= s.d.size(); d.lost += s.d.size(); drop_fds(s); } d.fly.swap(k);
}
// the endpoint `side` learns of a reset
static void apply_rst(Conn *c, int side, int err) {
	Stream *s = c->s[side]; if (c->reset && !s) return;
	c->reset = true; c->t_reset = W->now; drop_fly(c->d[side]);
	if (s && s->st != Stream::CLOSED) { s->soerr = err ? err : (c->d[1 - side].fin_arr ? EPIPE : ECONNRESET); s->st = Stream::CLOSED; TR("  conn %d side %d reset", c->id, side); }
	changed();
}
static void send_rst(Conn *c, int from) { // `from` tells the other side that the connection does not exist
	int to = 1 - from; if (!c->s[to]) return; if (c->rst_sent[from]) return; c->rst_sent[from] = true;
	Seg s; s.rst = true; s.arr = std::max(c->d[from].last_arr, W->now + lat(c->host[from], c->host[to])); c->d[from].last_arr = s.arr; c->d[from].fly.push_back(std::move(s)); sched_pump(c, from);
}
static void ka_schedule(Conn *c, int side, ns when);
static void pump(Conn *c, int side) { // moves arrived segments of direction side -> 1-side
	Dir &d = c->d[side]; int o = 1 - side;
	while (!d.fly.empty()) {
		d.t_fly = W->now;
		Seg &s = d.fly.front();
		if (!c->un && cut(c->host[side], c->host[o])) return;           // held until the link heals
		if (s.arr > W->now) { sched_pump(c, side); return; }
		if (!c->un && c->vanished[o]) { if (!c->host[o]->alive) { // host down: nobody answers; after reboot the data gets a reset
				bool up = host_of_ip(c->host[o]->ip) != nullptr; if (!up) { ns w = d.last_write + K->rto_fail; if (W->now >= w) { apply_rst(c, side, ETIMEDOUT); c->rto_fired[side] = true; return; } s.arr = std::min(W->now + SEC, w); sched_pump(c, side); return; } }
			if (!s.rst) { bool f = s.fin; drop_fly(d); d.fly.clear(); (void)f; send_rst(c, o); } else d.fly.clear(); return; }
		Seg x = std::move(s); d.fly.pop_front(); changed();
		if (side < 2) c->last_rx[o] = W->now, c->probes[o] = 0;
		c->last_rx[side] = std::max(c->last_rx[side], W->now);             // acknowledgement
		if (x.rst) { apply_rst(c, o, 0); d.nb -= x.d.size(); continue; }
		if (x.fin) { d.fin_arr = true; continue; }
		if (!c->s[o] || c->s[o]->st == Stream::CLOSED) { // data for a closed socket
			d.nb -= x.d.size(); d.lost += x.d.size(); drop_fds(x); if (!c->un) { Stream *me = c->s[side]; drop_fly(d); (void)me; send_rst(c, o); } continue; }
		d.q.push_back(std::move(x));
	}
}
void conn_reset(Conn *c, int from) { // an active reset by something in the network or by an abortive close
	int to = 1 - from; Dir &d = c->d[from];
	// a random suffix of what is in flight is lost with it
	size_t keep = d.fly.empty() ? 0 : choose((uint32_t)d.fly.size() + 1); while (d.fly.size() > keep) { Seg &s = d.fly.back(); d.nb -= s.d.size(); d.lost += s.d.size(); drop_fds(s); d.fly.pop_back(); }
	if (!c->s[to]) return; c->rst_sent[from] = true; c->reset = true;
	Seg s; s.rst = true; s.arr = std::max(W->now + lat(c->host[from], c->host[to]), d.fly.empty() ? 0 : d.fly.back().arr); d.last_arr = s.arr; d.fly.push_back(std::move(s)); sched_pump(c, from); changed();
}
void conn_abort_both(Conn *c, int e0, int e1) { for (int i = 0; i < 2; i++) { drop_fly(c->d[i]); c->d[i].fly.clear(); } apply_rst(c, 0, e0); apply_rst(c, 1, e1); }
void link_cut(Proc *a, Proc *b, bool v) {
	Link &l = link_of(a, b); if (l.cut == v) return; l.cut = v; TR("  link %s-%s %s", a->name.c_str(), b->name.c_str(), v ? "cut" : "healed"); changed();
	if (!v) for (Conn *c : K->conns) for (int s = 0; s < 2; s++) if (!c->un && !c->d[s].fly.empty()) { Dir &d = c->d[s]; ns base = W->now + l.lat; for (auto &x : d.fly) x.arr = std::max(x.arr, base); d.last_arr = std::max(d.last_arr, d.fly.back().arr); d.pump_scheduled = false; sched_pump(c, s); }
}
// keepalive machine of one side
static void ka_tick(Conn *c, int side, uint64_t g) {
	if (c->kagen[side] != g) return; Stream *s = c->s[side]; if (!s || s->st != Stream::EST || !s->ka) return;
	Dir &d = c->d[side]; int o = 1 - side;
	ns idle = (ns)s->ka_idle * SEC, iv = (ns)s->ka_intvl * SEC;
	if (!d.fly.empty()) { d.t_fly = W->now; ka_schedule(c, side, W->now + idle); return; }       // data in flight: the retransmission timer rules
	ns el = W->now - c->last_rx[side];
	if (c->probes[side] == 0 && el < idle) { ka_schedule(c, side, c->last_rx[side] + idle); return; }
	if (c->probes[side] >= s->ka_cnt) { c->ka_fired[side] = true; TR("  keepalive: conn %d side %d times out", c->id, side); apply_rst(c, side, ETIMEDOUT); send_rst(c, side); return; }
	bool reach = !cut(c->host[side], c->host[o]);
	if (reach) {
		if (c->vanished[o]) { if (host_of_ip(c->host[o]->ip)) { send_rst(c, o); return; } reach = false; }
		else if ((!c->s[o] || c->s[o]->st == Stream::CLOSED) && c->reset) { send_rst(c, o); return; }
	}
	if (reach) { c->last_rx[side] = W->now; c->probes[side] = 0; c->last_rx[o] = W->now; ka_schedule(c, side, W->now + idle); }
	else { c->probes[side]++; ka_schedule(c, side, W->now + iv); }
}
static void ka_schedule(Conn *c, int side, ns when) { uint64_t g = ++c->kagen[side]; at(when, [c, side, g]() { ka_tick(c, side, g); }); }
static void ka_start(Stream *s) { if (s->c && !s->c->un && s->ka && s->st == Stream::EST) { Conn *c = s->c; c->probes[s->side] = 0; ka_schedule(c, s->side, std::max(c->last_rx[s->side] + (ns)s->ka_idle * SEC, W->now + 10 * MS)); } }

bool Stream::writable() { Dir &d = c->d[side]; if (d.nb >= d.cap) return false; size_t fr = d.cap - d.nb; return c->un ? d.nb * 4 <= d.cap || d.nb == 0 : fr * 3 >= d.cap; }
uint32_t Stream::poll() {
	uint32_t m = soerr ? EPOLLERR : 0;
	switch (st) {
	case NEW: if (unconnected_inprogress) return m | EPOLLOUT | EPOLLHUP; return m | EPOLLOUT | EPOLLHUP;
	case LISTEN: return m | (acceptq.empty() ? 0 : EPOLLIN);
	case CONNECTING: return m;
	case CLOSED: return m | EPOLLIN | EPOLLOUT | EPOLLHUP | EPOLLRDHUP;
	case EST: break;
	}
	Dir &in = c->d[1 - side];
	if (!in.q.empty()) m |= EPOLLIN;
	if (in.fin_arr || shut_rd) m |= EPOLLIN | EPOLLRDHUP;
	if (c->un) {
		bool peergone = c->s[1 - side] == nullptr;
		if (peergone || (shut_wr && in.fin_arr)) m |= EPOLLHUP;
		if (peergone || writable()) m |= EPOLLOUT;
	} else {
		if (shut_wr && in.fin_arr) m |= EPOLLHUP;
		if (shut_wr || writable()) m |= EPOLLOUT;
	}
	return m;
}
bool Stream::can_read() { uint32_t m = poll(); return m & (EPOLLIN | EPOLLERR | EPOLLHUP); }
bool Stream::can_write(size_t) { uint32_t m = poll(); return m & (EPOLLOUT | EPOLLERR | EPOLLHUP); }
ssize_t Stream::do_recv(char *b, size_t n, std::vector<File *> *fds, bool peek) {
	if (st == LISTEN || (st == NEW && !soerr)) return st == LISTEN ? -EINVAL : (family == AF_UNIX ? -EINVAL : -ENOTCONN);
	if (!c) { if (soerr) { int e = soerr; soerr = 0; return -e; } return st == CLOSED ? 0 : -ENOTCONN; }
	nread_calls++;
	Dir &in = c->d[1 - side]; size_t got = 0; bool stop = false;
	if (n == 0) return 0;
	bool lib = cur && cur->inlib;
	if (lib && !in.q.empty()) {
		if (fault(F_READ_ERR)) { c->injected_err[side] = true; return choose(2) ? -ENOMEM : -EIO; }
		if (n > 1 && fault(F_SHORT_READ)) n = 1 + choose((uint32_t)std::min<size_t>(n, 200) - (n < 200 ? 1 : 0));
	}
	while (got < n && !in.q.empty() && !stop) {
		Seg &s = in.q.front(); size_t k = std::min(n - got, s.d.size() - s.off); memcpy(b + got, s.d.data() + s.off, k); got += k; if (peek) break; s.off += k; in.nb -= k; in.rtotal += k;
		if (!s.fds.empty()) {
			if (fds) { fds->insert(fds->end(), s.fds.begin(), s.fds.end()); s.fds.clear(); } else { c->fds_plain_read = true; drop_fds(s); }
			s.hadfds = true; stop = true;
		}
		if (s.off < s.d.size()) break;
		in.q.pop_front();
	}
	if (got) { changed(); return got; }
	if (soerr) { int e = soerr; soerr = 0; changed(); return -e; }
	if (in.fin_arr || st == CLOSED || shut_rd) return 0;
	return -EAGAIN;
}
ssize_t Stream::read(char *b, size_t n) { return do_recv(b, n, nullptr); }
ssize_t Stream::do_send(const char *b, size_t n, std::vector<File *> *fds) {
	if (soerr && st != EST) { int e = soerr; soerr = 0; changed(); if (c) c->werrs[side]++; return -e; }
	if (!c || st == NEW || st == LISTEN || st == CONNECTING) return st == CONNECTING ? -EAGAIN : family == AF_UNIX ? -ENOTCONN : -EPIPE;
	if (soerr) { int e = soerr; soerr = 0; changed(); c->werrs[side]++; return -e; }
	if (shut_wr || st == CLOSED) { c->d[side].epipe++; c->werrs[side]++; return -EPIPE; }
	Dir &d = c->d[side]; bool lib = cur && cur->inlib;
	if (c->un && !c->s[1 - side]) { d.epipe++; c->werrs[side]++; return -EPIPE; }
	if (lib && n && fault(F_WRITE_ERR)) { c->injected_err[side] = true; c->werrs[side]++; return choose(2) ? -ENOBUFS : -ENOMEM; }
	if (n == 0) return 0;
	if (lib && d.nb * 3 >= d.cap && fault(F_SOCKBUF_FULL)) return -EAGAIN;
	size_t fr = d.nb >= d.cap ? 0 : d.cap - d.nb; if (!fr) { if (lib) fault_fired(F_SOCKBUF_FULL); return -EAGAIN; }
	size_t take = std::min(n, fr);
	if (lib && take > 1 && fault(F_SHORT_WRITE)) take = 1 + choose((uint32_t)(take - 1));
	size_t off = 0; bool first = true;
	while (off < take) {
		Seg s; size_t k = take - off;
		if (K->split_segs && k > 1 && chance(3000)) k = 1 + choose((uint32_t)k - 1);
		s.d.assign(b + off, k); off += k; d.nb += k; d.wtotal += k;
		if (first && fds) { s.fds = *fds; for (File *f : s.fds) file_get(f); }
		first = false; d.last_write = W->now;
		if (c->un) { s.arr = W->now; d.q.push_back(std::move(s)); }
		else { s.arr = std::max(d.last_arr, W->now + lat(c->host[side], c->host[1 - side])); d.last_arr = s.arr; d.fly.push_back(std::move(s)); sched_pump(c, side); }
	}
	changed(); return take;
}
ssize_t Stream::write(const char *b, size_t n) { return do_send(b, n, nullptr); }
static void send_fin(Conn *c, int side) {
	Dir &d = c->d[side]; if (d.fin_sent) return; d.fin_sent = true;
	if (c->un) { d.fin_arr = true; changed(); return; }
	Seg s; s.fin = true; s.arr = std::max(d.last_arr, W->now + lat(c->host[side], c->host[1 - side])); d.last_arr = s.arr; d.fly.push_back(std::move(s)); sched_pump(c, side);
}
static uint64_t akey(const sockaddr_storage &a) { if (a.ss_family == AF_INET) { auto *s = (const sockaddr_in *)&a; return ((uint64_t)ntohl(s->sin_addr.s_addr) << 16) | ntohs(s->sin_port); } if (a.ss_family == AF_INET6) { auto *s = (const sockaddr_in6 *)&a; uint32_t ip; memcpy(&ip, (const char *)&s->sin6_addr + 12, 4); return ((uint64_t)ntohl(ip) << 16) | ntohs(s->sin6_port) | (1ull << 60); } return 0; }
void Stream::release() {
	auto &L = K->listeners; L.erase(std::remove(L.begin(), L.end(), this), L.end());
	if (bound && family == AF_UNIX && !path.empty() && path[0] == 0) { auto it = K->abstract.find(path); if (it != K->abstract.end() && it->second == this) K->abstract.erase(it); }
	for (auto &n : K->paths) if (n.second.sock == this) n.second.sock = nullptr;
	ngen++;
	for (Stream *s : acceptq) { if (s->c) { Conn *c = s->c; c->s[s->side] = nullptr; if (c->un) { c->d[s->side].fin_arr = true; if (c->s[1 - s->side]) c->s[1 - s->side]->soerr = ECONNRESET, c->reset = true; } else { c->reset = true; send_rst(c, s->side); } } }
	acceptq.clear();
	if (!c || c->s[side] != this) return;
	Conn *cc = c; int o = 1 - side; Dir &in = cc->d[o]; size_t unread = 0; for (auto &s : in.q) unread += s.d.size() - s.off;
	cc->s[side] = nullptr; for (auto &s : in.q) drop_fds(s);
	if (family != AF_UNIX && st == EST && !cc->d[o].fin_arr) K->timewait[akey(local)] = W->now + 60 * SEC;
	cc->kagen[side]++;
	if (cc->vanished[side]) return;
	if (cc->un) {
		if (st == EST) { cc->d[side].fin_sent = true; cc->d[side].fin_arr = true; if (cc->s[o] && unread) { cc->s[o]->soerr = ECONNRESET; cc->reset = true; probe("unix_close_unread"); } cc->clean_close[side] = !unread; }
	} else if (st == EST) {
		if (unread) { probe("tcp_close_unread"); cc->reset = true; conn_reset(cc, side); } else { cc->clean_close[side] = true; send_fin(cc, side); }
	} else if (st == CONNECTING) { cc->reset = true; send_rst(cc, side); } // the handshake is answered by a reset
	changed();
}
int k_socket(Proc *p, int dom, int type, int) {
	sys_enter("socket"); if (lf(F_EMFILE)) return -EMFILE; if (lf(F_ENFILE)) return -ENFILE; if (lf(F_ENOBUFS)) return -ENOBUFS;
	File *f; int t = type & 0xf; if (dom != AF_INET && dom != AF_INET6 && dom != AF_UNIX) return -EAFNOSUPPORT;
	if (t == SOCK_STREAM) f = new Stream(dom); else if (t == SOCK_DGRAM) { auto *d = new Dgram(dom); d->host = p; d->qcap = K->dgram_qcap; K->dgrams.push_back(d); f = d; } else return -EPROTONOSUPPORT;
	f->nonblock = type & SOCK_NONBLOCK; int fd = fd_alloc(p, f, type & SOCK_CLOEXEC, owner_now(), "socket"); if (fd < 0) file_put(f); TR("socket(%d,%d)=%d", dom, t, fd); hashmix(0x700 + fd); return fd;
}
static bool addr_local(Proc *p, const sockaddr *a, bool *any) {
	uint32_t ip; if (a->sa_family == AF_INET) ip = ntohl(((const sockaddr_in *)a)->sin_addr.s_addr); else { const uint8_t *b = (const uint8_t *)&((const sockaddr_in6 *)a)->sin6_addr; uint32_t x; memcpy(&x, b + 12, 4); ip = ntohl(x); }
	*any = ip == 0; if (ip == 0 || ip == 0x7f000001) return true; if (W->now < p->ip_up_at) return false;
	for (uint32_t x : p->ips) if (x == ip) return true;
	return false;
}
int k_bind(Proc *p, int fd, const sockaddr *a, socklen_t len) {
	sys_enter("bind"); File *f = fd_file(p, fd); if (!f) return -EBADF; Stream *s = dynamic_cast<Stream *>(f); Dgram *d = dynamic_cast<Dgram *>(f);
	if (!s && !d) return -ENOTSOCK;
	TR("bind(%d)", fd); hashmix(0x800 + fd);
	if (lf(F_ADDR_DOWN)) return -EADDRNOTAVAIL;
	if (lf(F_BIND)) return choose(2) ? -EACCES : -EADDRINUSE;
	int fam = s ? s->family : d->family; if (a->sa_family != fam) return -EINVAL;
	if (fam == AF_UNIX) {
		const sockaddr_un *u = (const sockaddr_un *)a; if (len <= offsetof(sockaddr_un, sun_path) || len > sizeof(*u)) return -EINVAL;
		size_t n = len - offsetof(sockaddr_un, sun_path); std::string pa = u->sun_path[0] ? std::string(u->sun_path, strnlen(u->sun_path, n)) : std::string(u->sun_path, n);
		if (d) {
			if (d->bound) return -EINVAL;
			if (pa[0]) { if (K->paths.count(pa)) return -EADDRINUSE; K->paths[pa] = {pa, 0777u & ~p->umask_, d, W->nextino++, p->id}; } else { if (K->abstract_dg.count(pa)) return -EADDRINUSE; K->abstract_dg[pa] = d; }
			d->path = pa; d->bound = true; memset(&d->local, 0, sizeof d->local); memcpy(&d->local, a, len); d->llen = pa[0] ? (socklen_t)(offsetof(sockaddr_un, sun_path) + pa.size() + 1) : len; changed(); return 0;
		}
		if (pa[0]) { if (K->paths.count(pa)) return -EADDRINUSE; K->paths[pa] = {pa, 0777u & ~p->umask_, s, s->ino = W->nextino++, p->id}; } else { if (K->abstract.count(pa)) return -EADDRINUSE; K->abstract[pa] = s; }
		s->path = pa; s->bound = true; memset(&s->local, 0, sizeof s->local); memcpy(&s->local, a, len); s->llen = pa[0] ? (socklen_t)(offsetof(sockaddr_un, sun_path) + pa.size() + 1) : len; changed(); return 0;
	}
	bool any; if (!addr_local(p, a, &any)) { fault_fired(F_ADDR_DOWN); return -EADDRNOTAVAIL; }
	sockaddr_storage ss; memset(&ss, 0, sizeof ss); memcpy(&ss, a, std::min<size_t>(len, sizeof ss));
	uint16_t *port = fam == AF_INET ? &((sockaddr_in *)&ss)->sin_port : &((sockaddr_in6 *)&ss)->sin6_port; if (*port == 0) *port = htons(K->eph++);
	uint64_t k = akey(ss) & 0xffff;
	if (s) {
		for (Stream *l : K->listeners) if (l->host_match(p) && (akey(l->local) & 0xffff) == k && (akey(l->local) == akey(ss) || !(akey(l->local) >> 16) || any)) return -EADDRINUSE;
		auto it = K->timewait.find(akey(ss)); if (it != K->timewait.end() && it->second > W->now && !s->reuse) return -EADDRINUSE;
		if (!s->reuse) for (Conn *c : K->conns) for (int i = 0; i < 2; i++) if (c->s[i] && c->host[i] == p && (akey(c->s[i]->local) & 0xffff) == k) return -EADDRINUSE;
		s->local = ss; s->llen = fam == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6); s->bound = true;
	} else {
		for (Dgram *o : K->dgrams) if (o != d && !o->dead && o->bound && o->host == p && akey(o->local) == akey(ss) && !(o->reuse && d->reuse)) return -EADDRINUSE;
		d->local = ss; d->llen = fam == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6); d->bound = true;
	}
	changed(); return 0;
}
int k_listen(Proc *p, int fd, int backlog) {
	sys_enter("listen"); File *f = fd_file(p, fd); if (!f) return -EBADF; Stream *s = dynamic_cast<Stream *>(f); if (!s) return -EOPNOTSUPP;
	if (lf(F_LISTEN)) return -EADDRINUSE;
	if (s->st != Stream::NEW && s->st != Stream::LISTEN) return -EINVAL;
	if (s->st == Stream::NEW) { s->st = Stream::LISTEN; K->listeners.push_back(s); } s->lhost = p; s->backlog = backlog < 0 ? 4096 : backlog; s->pcred.pid = p->pid; s->pcred.uid = p->uid; s->pcred.gid = p->gid; changed(); TR("listen(%d)", fd); return 0;
}
static void ephemeral(Proc *p, Stream *s) {
	if (s->bound) return; s->bound = true; memset(&s->local, 0, sizeof s->local);
	if (s->family == AF_INET) { auto *a = (sockaddr_in *)&s->local; a->sin_family = AF_INET; a->sin_addr.s_addr = htonl(p->ip); a->sin_port = htons(K->eph++); s->llen = sizeof *a; }
	else { auto *a = (sockaddr_in6 *)&s->local; a->sin6_family = AF_INET6; uint32_t x = htonl(p->ip); memcpy((char *)&a->sin6_addr + 12, &x, 4); memset((char *)&a->sin6_addr + 10, 0xff, 2); a->sin6_port = htons(K->eph++); s->llen = sizeof *a; }
}
static Conn *new_conn(Stream *cl, Stream *ls, Proc *hc, Proc *hs) {
	Conn *c = new Conn; c->id = (int)K->conns.size() + 1; c->un = cl->family == AF_UNIX; K->conns.push_back(c);
	Stream *sv = new Stream(cl->family); sv->refs = 0; sv->nonblock = false; sv->creator = hs;
	c->host[0] = hc; c->host[1] = hs; c->hostgen[0] = hc->gen; c->hostgen[1] = hs->gen;
	for (int i = 0; i < 2; i++) { c->d[i].cap = c->un ? K->cap_unix : K->cap_tcp; c->last_rx[i] = W->now; c->t_est[i] = W->now; }
	sv->c = c; sv->side = 1; sv->st = Stream::EST; c->s[1] = sv; sv->local = ls->local; sv->llen = ls->llen; sv->bound = false; sv->peer = cl->local; sv->plen = cl->llen;
	sv->ka = ls->ka; sv->ka_idle = ls->ka_idle; sv->ka_intvl = ls->ka_intvl; sv->ka_cnt = ls->ka_cnt;
	if (sv->family != AF_UNIX) { memcpy(&sv->local, &cl->peer, sizeof sv->local); sv->llen = cl->plen; }
	sv->pcred = {hc->pid, hc->uid, hc->gid}; K->nconns_est++; return c;
}
static Stream *find_listener(Proc *h, const sockaddr_storage &a) {
	uint64_t k = akey(a); for (Stream *l : K->listeners) if (l->lhost == h && l->family == a.ss_family && (akey(l->local) & 0xffff) == (k & 0xffff) && (akey(l->local) == k || ((akey(l->local) >> 16) & 0xffffffff) == 0)) return l; return nullptr;
}
static void conn_fail(Stream *s, int err) { s->soerr = err; s->st = Stream::NEW; s->ngen++; changed(); TR("  connect fails: %d", err); }
static void syn(Stream *s, Proc *me, uint64_t g, ns t0) {
	if (s->ngen != g || s->dead || s->st != Stream::CONNECTING || !me->alive) return;
	uint32_t ip = (uint32_t)(akey(s->peer) >> 16); Proc *h = host_of_ip(ip); if (ip == 0x7f000001) h = me;
	auto again = [&]() { if (W->now - t0 >= K->syn_timeout) { conn_fail(s, choose(2) ? EHOSTUNREACH : ETIMEDOUT); return; } at(W->now + SEC, [=]() { syn(s, me, g, t0); }); };
	if (!h || cut(me, h)) { again(); return; }
	Stream *l = find_listener(h, s->peer);
	if (!l) { after(lat(me, h), [=]() { if (s->ngen == g && !s->dead && s->st == Stream::CONNECTING) conn_fail(s, ECONNREFUSED); }); return; }
	if ((int)l->acceptq.size() > l->backlog || fault(F_BACKLOG)) { again(); return; }
	Conn *c = new_conn(s, l, me, h); c->s[0] = s; s->c = c; s->side = 0; l->acceptq.push_back(c->s[1]); changed();
	// the client learns of it a little later
	at(W->now + lat(me, h), [=]() { if (s->ngen != g || s->dead || s->st != Stream::CONNECTING) { return; } if (c->reset) return; s->st = Stream::EST; c->last_rx[0] = W->now; c->t_est[0] = W->now; changed(); ka_start(s); });
}
int k_connect(Proc *p, int fd, const sockaddr *a, socklen_t len) {
	sys_enter("connect"); File *f = fd_file(p, fd); if (!f) return -EBADF; Stream *s = dynamic_cast<Stream *>(f); if (!s) return -EOPNOTSUPP;
	TR("connect(%d)", fd); hashmix(0x900 + fd);
	if (cur && cur->inlib && K->hooks.on_connect_attempt) K->hooks.on_connect_attempt(p, s);
	if (s->st == Stream::EST) return -EISCONN; if (s->st == Stream::CONNECTING) return -EALREADY; if (s->st == Stream::LISTEN) return -EISCONN;
	if (a->sa_family != s->family) return -EINVAL;
	K->conn_attempts++;
	if (lf(F_CONNECT)) { static const int e[] = {ENETUNREACH, EHOSTUNREACH, EADDRNOTAVAIL, ECONNREFUSED, EPERM, ENOBUFS, ENOENT, ETIMEDOUT}; return -e[choose(8)]; }
	memset(&s->peer, 0, sizeof s->peer); memcpy(&s->peer, a, std::min<size_t>(len, sizeof s->peer)); s->plen = len; s->t_connect = W->now;
	if (s->family == AF_UNIX) {
		const sockaddr_un *u = (const sockaddr_un *)a; size_t n = len - offsetof(sockaddr_un, sun_path); std::string pa = u->sun_path[0] ? std::string(u->sun_path, strnlen(u->sun_path, n)) : std::string(u->sun_path, n);
		Stream *l = nullptr; if (pa[0]) { auto it = K->paths.find(pa); if (it == K->paths.end()) return -ENOENT; l = dynamic_cast<Stream *>(it->second.sock); } else { auto it = K->abstract.find(pa); if (it != K->abstract.end()) l = it->second; }
		if (!l || l->st != Stream::LISTEN) return -ECONNREFUSED;
		if ((int)l->acceptq.size() > l->backlog || (cur->inlib && fault(F_BACKLOG))) { if (s->nonblock) { s->unconnected_inprogress = true; return -EAGAIN; } return -EAGAIN; }
		if (!s->llen) { s->local.ss_family = AF_UNIX; s->llen = sizeof(sa_family_t); }
		Conn *c = new_conn(s, l, p, l->lhost); c->s[0] = s; s->c = c; s->side = 0; s->st = Stream::EST; s->pcred = l->pcred; l->acceptq.push_back(c->s[1]); changed(); return 0;
	}
	uint32_t ip = (uint32_t)(akey(s->peer) >> 16);
	if (W->now < p->ip_up_at && ip != 0x7f000001) return -ENETUNREACH;
	ephemeral(p, s); s->st = Stream::CONNECTING; s->soerr = 0; uint64_t g = ++s->ngen; ns t0 = W->now; Proc *h = host_of_ip(ip);
	at(W->now + (h ? lat(p, h) : MS), [=]() { syn(s, p, g, t0); });
	if (!s->nonblock) { block_until([s]() { return s->st != Stream::CONNECTING; }); if (s->soerr) { int e = s->soerr; s->soerr = 0; return -e; } return 0; }
	return -EINPROGRESS;
}
int k_accept(Proc *p, int fd, sockaddr *a, socklen_t *alen, int flags) {
	sys_enter("accept"); File *f = fd_file(p, fd); if (!f) return -EBADF; Stream *s = dynamic_cast<Stream *>(f); if (!s) return -ENOTSOCK; if (s->st != Stream::LISTEN) return -EINVAL;
	if (s->acceptq.empty() && !s->nonblock) { if (cur && cur->inlib) probe("blocking_accept"); int r = block_until([s]() { return !s->acceptq.empty(); }, NEVER, true); if (r == 2) return -EINTR; }
	if (s->acceptq.empty()) return -EAGAIN;
	if (lf(F_EMFILE)) return -EMFILE;
	if (lf(F_ENFILE)) return -ENFILE;
	if (lf(F_ACCEPT)) {
		uint32_t k = choose(6); static const int e[] = {ECONNABORTED, ENOMEM, ENOBUFS, EINTR, EAGAIN, EPROTO};
		if (k == 0 || k == 5) { Stream *x = s->acceptq.front(); s->acceptq.pop_front(); Conn *c = x->c; c->s[1] = nullptr; c->reset = true; if (c->un) { c->d[1].fin_arr = true; if (c->s[0]) c->s[0]->soerr = ECONNRESET; } else send_rst(c, 1); changed(); }
		return -e[k];
	}
	Stream *x = s->acceptq.front(); int n = fd_alloc(p, x, flags & SOCK_CLOEXEC, owner_now(), "accept"); if (n < 0) { fault_fired(F_EMFILE); return n; }
	s->acceptq.pop_front(); x->refs = 1; x->nonblock = flags & SOCK_NONBLOCK; x->c->accepted = true; changed();
	if (a && alen) { socklen_t l = std::min(*alen, x->plen); memcpy(a, &x->peer, l); *alen = x->plen; }
	TR("accept(%d)=%d conn %d", fd, n, x->c->id); hashmix(0xa00 + n); ka_start(x); return n;
}
int k_shutdown(Proc *p, int fd, int how) {
	sys_enter("shutdown"); File *f = fd_file(p, fd); if (!f) return -EBADF; Stream *s = dynamic_cast<Stream *>(f); if (!s) return -ENOTSOCK; TR("shutdown(%d)", fd); hashmix(0xb00 + fd);
	if (s->st != Stream::EST) return -ENOTCONN;
	if (how == SHUT_WR || how == SHUT_RDWR) { s->shut_wr = true; send_fin(s->c, s->side); }
	if (how == SHUT_RD || how == SHUT_RDWR) s->shut_rd = true;
	changed(); return 0;
}
static int put_addr(const sockaddr_storage &s, socklen_t l, sockaddr *a, socklen_t *len) { memcpy(a, &s, std::min(*len, l)); *len = l; return 0; }
static bool sock_unix(File *f) { Stream *s = dynamic_cast<Stream *>(f); Dgram *d = dynamic_cast<Dgram *>(f); return (s && s->family == AF_UNIX) || (d && d->family == AF_UNIX); }
int k_getsockname(Proc *p, int fd, sockaddr *a, socklen_t *len) {
	sys_enter("getsockname"); File *f = fd_file(p, fd); if (!f) return -EBADF; if (!sock_unix(f) && lf(F_SOCKNAME)) return -ENOBUFS;
	if (Stream *s = dynamic_cast<Stream *>(f)) { sockaddr_storage t = s->local; t.ss_family = s->family; return put_addr(t, s->llen ? s->llen : sizeof(sa_family_t), a, len); }
	if (Dgram *d = dynamic_cast<Dgram *>(f)) { sockaddr_storage t = d->local; t.ss_family = d->family; return put_addr(t, d->llen ? d->llen : d->family == AF_UNIX ? (socklen_t)sizeof(sa_family_t) : d->family == AF_INET6 ? (socklen_t)sizeof(sockaddr_in6) : (socklen_t)sizeof(sockaddr_in), a, len); }
	return -ENOTSOCK;
}
int k_getpeername(Proc *p, int fd, sockaddr *a, socklen_t *len) {
	sys_enter("getpeername"); File *f = fd_file(p, fd); if (!f) return -EBADF; Stream *s = dynamic_cast<Stream *>(f); if (!s) return dynamic_cast<Dgram *>(f) ? -ENOTCONN : -ENOTSOCK;
	if (s->st != Stream::EST) return -ENOTCONN;
	if (!sock_unix(f) && lf(F_SOCKNAME)) return -ENOBUFS;
	return put_addr(s->peer, s->plen, a, len);
}
int k_setsockopt(Proc *p, int fd, int lvl, int opt, const void *v, socklen_t len) {
	sys_enter("setsockopt"); File *f = fd_file(p, fd); if (!f) return -EBADF; Stream *s = dynamic_cast<Stream *>(f); Dgram *d = dynamic_cast<Dgram *>(f); if (!s && !d) return -ENOTSOCK;
	int x = 0; if (len >= sizeof x) memcpy(&x, v, sizeof x); TR("setsockopt(%d, %d, %d, %d)", fd, lvl, opt, x);
	if (lf(F_SETSOCKOPT)) return -ENOBUFS;
	if (lvl == SOL_SOCKET) {
		if (opt == SO_REUSEADDR) { if (s) s->reuse = x; else d->reuse = x; } else if (opt == SO_KEEPALIVE && s) { s->ka = x != 0; s->ka_sets++; ka_start(s); } 
		return 0;
	}
	if (lvl == IPPROTO_TCP) {
		if (!s || s->family == AF_UNIX) return -EOPNOTSUPP;
		if (opt == TCP_KEEPIDLE) { if (x < 1 || x > 32767) return -EINVAL; s->ka_idle = x; ka_start(s); } else if (opt == TCP_KEEPINTVL) { if (x < 1 || x > 32767) return -EINVAL; s->ka_intvl = x; ka_start(s); } else if (opt == TCP_KEEPCNT) { if (x < 1 || x > 127) return -EINVAL; s->ka_cnt = x; }
		return 0;
	}
	if (lvl == IPPROTO_IP && d && opt == IP_PKTINFO) { d->pkt_info = x; return 0; }
	if (lvl == IPPROTO_IPV6 && d && opt == IPV6_RECVPKTINFO) { d->pkt_info = x; return 0; }
	return 0;
}
int k_getsockopt(Proc *p, int fd, int lvl, int opt, void *v, socklen_t *len) {
	sys_enter("getsockopt"); File *f = fd_file(p, fd); if (!f) return -EBADF; Stream *s = dynamic_cast<Stream *>(f); Dgram *d = dynamic_cast<Dgram *>(f); if (!s && !d) return -ENOTSOCK;
	int x = 0;
	if (lvl == SOL_SOCKET && opt == SO_ERROR) { if (lf(F_SOCKERR)) return -ENOBUFS; if (s) { x = s->soerr; s->soerr = 0; } changed(); }
	else if (lvl == SOL_SOCKET && opt == SO_PEERCRED) { if (lf(F_SOCKNAME)) return -ENOBUFS; if (!s || s->family != AF_UNIX) return -ENOPROTOOPT; int c[3] = {s->pcred.pid, s->pcred.uid, s->pcred.gid}; memcpy(v, c, std::min<size_t>(*len, sizeof c)); *len = sizeof c; return 0; }
	else if (lvl == SOL_SOCKET && opt == SO_KEEPALIVE && s) x = s->ka; else if (lvl == SOL_SOCKET && opt == SO_TYPE) x = s ? SOCK_STREAM : SOCK_DGRAM;
	else if (lvl == IPPROTO_TCP && s) x = opt == TCP_KEEPIDLE ? s->ka_idle : opt == TCP_KEEPINTVL ? s->ka_intvl : opt == TCP_KEEPCNT ? s->ka_cnt : 0;
	memcpy(v, &x, std::min<size_t>(*len, sizeof x)); *len = sizeof x; return 0;
}
// ------------------------------------------------------------ datagrams
uint32_t Dgram::poll() { return (q.empty() ? 0 : EPOLLIN) | (W->now >= blocked_until ? EPOLLOUT : 0) | (soerr ? EPOLLERR : 0); }
void Dgram::release() {
	for (Dg &g : q) for (File *f : g.fds) file_put(f); q.clear();
	if (!path.empty() && !path[0]) { auto it = K->abstract_dg.find(path); if (it != K->abstract_dg.end() && it->second == this) K->abstract_dg.erase(it); }
	auto &v = K->dgrams; v.erase(std::remove(v.begin(), v.end(), this), v.end());
}
ssize_t Dgram::read(char *b, size_t n) {
	if (soerr) { int e = soerr; soerr = 0; return -e; } if (q.empty()) return -EAGAIN;
	Dg d = q.front(); q.pop_front(); for (File *f : d.fds) file_put(f); size_t k = std::min(n, d.d.size()); memcpy(b, d.d.data(), k); changed(); return k;
}
static void dg_deliver(Proc *from, int fam, uint32_t ip, uint16_t port, Dg g) {
	Proc *h = ip == 0x7f000001 ? from : host_of_ip(ip); if (!h || cut(from, h)) return;
	Dgram *t = nullptr; for (Dgram *d : K->dgrams) if (!d->dead && d->bound && d->family == fam && d->host == h && (akey(d->local) & 0xffff) == port && ((((akey(d->local) >> 16) & 0xffffffff) == ip) || ((akey(d->local) >> 16) & 0xffffffff) == 0)) t = d;
	if (!t || t->q.size() >= t->qcap) return;
	g.dstip = ip; t->q.push_back(std::move(g)); changed();
}
static ssize_t dg_send(Proc *p, int fd, Dgram *d, const void *b, size_t n, const std::vector<File *> &fds, const sockaddr *a, socklen_t alen) {
	if (lf(F_EINTR)) return -EINTR; if (!a) return -EDESTADDRREQ;
	TR("sendto(%d, %zu)", fd, n); hashmix(0xc00 + fd); hashmix(n);
	sockaddr_storage dst; memset(&dst, 0, sizeof dst); memcpy(&dst, a, std::min<size_t>(alen, sizeof dst)); bool un = d->family == AF_UNIX;
	auto fail = [&](int e) -> ssize_t { TR("  refused: %d", e); if (cur->inlib && K->hooks.on_sendfail) K->hooks.on_sendfail(p, d, std::string((const char *)b, n), dst, alen, e); return -e; };
	auto full = [&]() -> ssize_t { d->blocked_until = W->now + (ns)(1 + choose(20)) * MS; at(d->blocked_until, []() { changed(); }); probe("dgram_blocked"); return -EAGAIN; };
	if (n > (un ? 100000u : 65507u)) return fail(EMSGSIZE);
	if (W->now < d->blocked_until) return -EAGAIN;
	if (lf(F_SOCKBUF_FULL)) return full();
	if (lf(F_UDP_SENDERR)) { static const int e[] = {ENETUNREACH, EPERM, ENOBUFS, EHOSTUNREACH}; return fail(un ? ENOBUFS : e[choose(4)]); }
	if (a->sa_family != d->family || alen < (un ? sizeof(sa_family_t) + 1 : d->family == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6))) return fail(EINVAL);
	Dg g; g.d.assign((const char *)b, n); g.uid = K->dguid++; g.fds = fds; g.dstip = 0;
	if (un) {
		const sockaddr_un *u = (const sockaddr_un *)a; size_t pl = alen - offsetof(sockaddr_un, sun_path); std::string pa = u->sun_path[0] ? std::string(u->sun_path, strnlen(u->sun_path, pl)) : std::string(u->sun_path, pl); Dgram *t = nullptr;
		if (pa[0]) { auto it = K->paths.find(pa); if (it == K->paths.end()) return fail(ENOENT); t = dynamic_cast<Dgram *>(it->second.sock); if (t && t->dead) t = nullptr; } else { auto it = K->abstract_dg.find(pa); if (it != K->abstract_dg.end()) t = it->second; }
		if (!t) return fail(ECONNREFUSED);
		if (t->q.size() >= t->qcap) return full();
		g.src = d->local; g.slen = d->bound ? d->llen : 0; for (File *f : g.fds) file_get(f);
		if (K->hooks.on_sendto) K->hooks.on_sendto(p, d, g, dst, alen);
		t->q.push_back(std::move(g)); changed(); return n;
	}
	g.fds.clear();
	if (!d->bound) { d->bound = true; if (d->family == AF_INET) { auto *x = (sockaddr_in *)&d->local; x->sin_family = AF_INET; x->sin_port = htons(K->eph++); d->llen = sizeof *x; } else { auto *x = (sockaddr_in6 *)&d->local; x->sin6_family = AF_INET6; x->sin6_port = htons(K->eph++); d->llen = sizeof *x; } }
	uint32_t ip = (uint32_t)(akey(dst) >> 16); uint16_t port = (uint16_t)akey(dst);
	g.src = d->local; g.slen = d->llen; g.dstip = ip; uint32_t me_ip = ip == 0x7f000001 ? 0x7f000001 : p->ip;
	if (g.src.ss_family == AF_INET && ((sockaddr_in *)&g.src)->sin_addr.s_addr == 0) ((sockaddr_in *)&g.src)->sin_addr.s_addr = htonl(me_ip);
	if (g.src.ss_family == AF_INET6 && !((akey(g.src) >> 16) & 0xffffffff)) { auto *x = (sockaddr_in6 *)&g.src; memset((char *)&x->sin6_addr + 10, 0xff, 2); uint32_t y = htonl(me_ip); memcpy((char *)&x->sin6_addr + 12, &y, 4); }
	if (K->hooks.on_sendto) K->hooks.on_sendto(p, d, g, dst, alen);
	Proc *h = host_of_ip(ip); Proc *me = p; ns l = h ? lat(p, h) : MS; int fam = d->family;
	if (fault(F_UDP_LOSS)) return n;
	if (fault(F_UDP_REORDER)) l += (ns)(1 + choose(5000)) * US;
	if (fault(F_UDP_TRUNC)) { g.d.resize(choose((uint32_t)g.d.size() + 1)); g.altered = true; }
	if (fault(F_UDP_CORRUPT) && !g.d.empty()) { g.altered = true; uint32_t k = 1 + choose(3); for (uint32_t i = 0; i < k; i++) { uint32_t q = choose((uint32_t)g.d.size()); g.d[q] = (char)choose(256); } }
	if (fault(F_UDP_DUP)) after(l + (ns)choose(3000) * US, [=]() { dg_deliver(me, fam, ip, port, g); });
	after(l, [=]() { dg_deliver(me, fam, ip, port, g); }); return n;
}
ssize_t k_sendto(Proc *p, int fd, const void *b, size_t n, int fl, const sockaddr *a, socklen_t alen) {
	File *f = fd_file(p, fd); Dgram *d = dynamic_cast<Dgram *>(f); if (!f) { sys_enter("sendto"); return -EBADF; } if (!d) return k_write(p, fd, b, n);
	sys_enter("sendto"); if (fl & MSG_OOB) return -EOPNOTSUPP; return dg_send(p, fd, d, b, n, {}, a, alen);
}
// ------------------------------------------------------------ read / write
template<class Fn> static ssize_t blocking(File *f, Fn op, bool rd, size_t n, bool dontwait = false) {
	for (;;) {
		ssize_t r = op(); if (r != -EAGAIN || f->nonblock || dontwait) return r;
		if (cur && cur->inlib) probe("blocking_io");
		if (cur && cur->inlib && cur->noblock) violate(cur->noblock, "%s() blocks its caller", rd ? "read" : "write");
		int k = block_until([=]() { return f->dead || (rd ? f->can_read() : f->can_write(n)); }, NEVER, true);
		if (k == 2) return -EINTR;
	}
}
ssize_t k_read(Proc *p, int fd, void *b, size_t n) {
	sys_enter("read"); File *f = fd_file(p, fd); if (!f) return -EBADF;
	if (lf(F_EINTR)) return -EINTR;
	ssize_t r = blocking(f, [&]() { return f->read((char *)b, n); }, true, n); TR("read(%d, %zu)=%zd", fd, n, r); hashmix(0xd00 + fd); hashmix(r);
	if (r > 0 && cur && cur->inlib && f->kind == K_STREAM && K->hooks.on_lib_recv) K->hooks.on_lib_recv(p, fd, f, r);
	return r;
}
ssize_t k_write(Proc *p, int fd, const void *b, size_t n) {
	sys_enter("write"); File *f = fd_file(p, fd); if (!f) return -EBADF;
	if (lf(F_EINTR)) return -EINTR;
	if ((f->kind == K_EVENTFD || f->kind == K_PIPE_W) && lf(F_WAKE_WRITE)) return -ENOMEM;
	ssize_t r = blocking(f, [&]() { return f->write((const char *)b, n); }, false, n); TR("write(%d, %zu)=%zd", fd, n, r); hashmix(0xe00 + fd); hashmix(r); return r;
}
ssize_t k_sendmsg(Proc *p, int fd, const msghdr *m, int fl) {
	File *f = fd_file(p, fd); std::string b; for (size_t i = 0; i < (size_t)m->msg_iovlen; i++) b.append((const char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
	sys_enter("sendmsg"); if (!f) return -EBADF; Stream *s = dynamic_cast<Stream *>(f); Dgram *d = dynamic_cast<Dgram *>(f); if (!s && !d) return -ENOTSOCK;
	if (s && lf(F_EINTR)) return -EINTR; if (fl & MSG_OOB) return -EOPNOTSUPP; if (fl & ~(MSG_NOSIGNAL | MSG_DONTWAIT | MSG_MORE | MSG_EOR | MSG_CONFIRM)) probe("odd_flags");
	std::vector<File *> fds;
	for (cmsghdr *c = m->msg_control && m->msg_controllen >= sizeof(cmsghdr) ? CMSG_FIRSTHDR(m) : nullptr; c; c = CMSG_NXTHDR((msghdr *)m, c)) {
		if (c->cmsg_len < CMSG_LEN(0)) return -EINVAL;
		if (c->cmsg_level == SOL_SOCKET && c->cmsg_type == SCM_RIGHTS) { size_t k = (c->cmsg_len - CMSG_LEN(0)) / sizeof(int); for (size_t i = 0; i < k; i++) { int x; memcpy(&x, CMSG_DATA(c) + i * sizeof(int), sizeof x); File *g = fd_file(p, x); if (!g) return -EBADF; fds.push_back(g); } }
	}
	if (!fds.empty() && (s ? s->family : d->family) != AF_UNIX) fds.clear();
	if (d) return dg_send(p, fd, d, b.data(), b.size(), fds, (const sockaddr *)m->msg_name, m->msg_name ? m->msg_namelen : 0);
	ssize_t r = blocking(f, [&]() { return s->do_send(b.data(), b.size(), fds.empty() ? nullptr : &fds); }, false, b.size(), fl & MSG_DONTWAIT); TR("sendmsg(%d, %zu, %zu fds)=%zd", fd, b.size(), fds.size(), r); hashmix(0xf00 + fd); hashmix(r); return r;
}
ssize_t k_recvmsg(Proc *p, int fd, msghdr *m, int fl) {
	sys_enter("recvmsg"); File *f = fd_file(p, fd); if (!f) return -EBADF; if (lf(F_EINTR)) return -EINTR; if (fl & MSG_OOB) return -EINVAL;
	size_t tot = 0; for (size_t i = 0; i < (size_t)m->msg_iovlen; i++) tot += m->msg_iov[i].iov_len; std::string b; b.resize(tot); ssize_t r; m->msg_flags = 0; size_t cl = m->msg_controllen; 
	if (Dgram *d = dynamic_cast<Dgram *>(f)) {
		if (d->q.empty() && !d->nonblock) block_until([d]() { return d->can_read(); });
		if (d->q.empty()) { m->msg_controllen = cl; return -EAGAIN; }
		if (lf(F_READ_ERR)) return -ENOMEM;
		Dg g = d->q.front(); if (!(fl & MSG_PEEK)) d->q.pop_front(); changed(); r = std::min(tot, g.d.size()); memcpy(&b[0], g.d.data(), r); if (g.d.size() > tot) m->msg_flags |= MSG_TRUNC;
		if (m->msg_name) { memcpy(m->msg_name, &g.src, std::min(m->msg_namelen, g.slen)); m->msg_namelen = g.slen; }
		m->msg_controllen = 0; std::vector<File *> got; bool lost = false;
		if (d->pkt_info && d->family == AF_INET && m->msg_control && cl >= CMSG_SPACE(sizeof(in_pktinfo))) { cmsghdr *c = (cmsghdr *)m->msg_control; c->cmsg_level = IPPROTO_IP; c->cmsg_type = IP_PKTINFO; c->cmsg_len = CMSG_LEN(sizeof(in_pktinfo)); in_pktinfo pi; memset(&pi, 0, sizeof pi); pi.ipi_addr.s_addr = htonl(g.dstip); pi.ipi_spec_dst = pi.ipi_addr; memcpy(CMSG_DATA(c), &pi, sizeof pi); m->msg_controllen = CMSG_SPACE(sizeof pi); }
		if (d->pkt_info && d->family == AF_INET6 && m->msg_control && cl > CMSG_LEN(0)) { cmsghdr *c = (cmsghdr *)m->msg_control; c->cmsg_level = IPPROTO_IPV6; c->cmsg_type = IPV6_PKTINFO; size_t cm = std::min<size_t>(cl, CMSG_LEN(sizeof(in6_pktinfo))); if (cm < CMSG_LEN(sizeof(in6_pktinfo))) m->msg_flags |= MSG_CTRUNC; c->cmsg_len = cm; in6_pktinfo pi; memset(&pi, 0, sizeof pi); uint32_t y = htonl(g.dstip); memset((char *)&pi.ipi6_addr + 10, 0xff, 2); memcpy((char *)&pi.ipi6_addr + 12, &y, 4); memcpy(CMSG_DATA(c), &pi, cm - CMSG_LEN(0)); m->msg_controllen = std::min<size_t>(cl, CMSG_SPACE(sizeof pi)); }
		if (!g.fds.empty() && !(fl & MSG_PEEK)) {
			size_t maxfd = m->msg_control && cl >= CMSG_LEN(0) ? (cl - CMSG_LEN(0)) / sizeof(int) : 0, k = 0; cmsghdr *c = (cmsghdr *)m->msg_control;
			for (File *x : g.fds) { int q = -1; if (k < maxfd && !lf(F_MAXFDS)) q = fd_alloc(p, x, fl & MSG_CMSG_CLOEXEC, owner_now(), "recvmsg"); if (q < 0) { m->msg_flags |= MSG_CTRUNC; lost = true; break; } memcpy(CMSG_DATA(c) + k * sizeof(int), &q, sizeof q); k++; got.push_back(x); }
			for (size_t i = k; i < g.fds.size(); i++) file_put(g.fds[i]);
			if (k) { c->cmsg_level = SOL_SOCKET; c->cmsg_type = SCM_RIGHTS; c->cmsg_len = CMSG_LEN(k * sizeof(int)); m->msg_controllen = std::min<size_t>(cl, CMSG_SPACE(k * sizeof(int))); }
			TR("  received %zu fds", k);
		}
		if (cur->inlib && K->hooks.on_dgram_recv) K->hooks.on_dgram_recv(p, d, g, b.substr(0, (size_t)r), got, lost);
	} else if (Stream *s = dynamic_cast<Stream *>(f)) {
		std::vector<File *> fds; r = blocking(f, [&]() { return s->do_recv(&b[0], tot, &fds, fl & MSG_PEEK); }, true, tot, fl & MSG_DONTWAIT);
		if (r < 0) return r;
		socklen_t nl = m->msg_namelen; m->msg_namelen = 0; m->msg_controllen = 0;
		if (m->msg_name && s->family == AF_UNIX && s->plen > sizeof(sa_family_t)) { memcpy(m->msg_name, &s->peer, std::min(nl, s->plen)); m->msg_namelen = s->plen; } // Linux reports the address the peer is bound to
		if (!fds.empty()) {
			size_t maxfd = m->msg_control && cl >= CMSG_LEN(0) ? (cl - CMSG_LEN(0)) / sizeof(int) : 0, n = 0; cmsghdr *c = (cmsghdr *)m->msg_control;
			for (File *x : fds) {
				int q = -1; if (n < maxfd && !lf(F_MAXFDS)) q = fd_alloc(p, x, fl & MSG_CMSG_CLOEXEC, owner_now(), "recvmsg");
				if (q < 0) { m->msg_flags |= MSG_CTRUNC; break; }
				memcpy(CMSG_DATA(c) + n * sizeof(int), &q, sizeof q); n++;
			}
			for (size_t i = n; i < fds.size(); i++) file_put(fds[i]);
			if (n < fds.size()) { probe("fds_truncated"); if (s->c) s->c->injected_err[s->side] = s->c->injected_err[s->side]; s->fds_lost += (int)(fds.size() - n); }
			if (n) { c->cmsg_level = SOL_SOCKET; c->cmsg_type = SCM_RIGHTS; c->cmsg_len = CMSG_LEN(n * sizeof(int)); m->msg_controllen = std::min<size_t>(cl, CMSG_SPACE(n * sizeof(int))); }
			TR("  received %zu fds", n);
		}
		if (r > 0 && cur && cur->inlib && K->hooks.on_lib_recv) K->hooks.on_lib_recv(p, fd, f, r);
	} else return -ENOTSOCK;
	size_t off = 0; for (size_t i = 0; i < (size_t)m->msg_iovlen && off < (size_t)(r < 0 ? 0 : r); i++) { size_t k = std::min(m->msg_iov[i].iov_len, (size_t)r - off); memcpy(m->msg_iov[i].iov_base, b.data() + off, k); off += k; }
	TR("recvmsg(%d, %zu)=%zd", fd, tot, r); hashmix(0x1000 + fd); hashmix(r); return r;
}
// ------------------------------------------------------------ name space
int k_unlink(Proc *p, const char *path) { sys_enter("unlink"); TR("unlink(%s)", path); hashmix(0x1100); auto it = K->paths.find(path); if (it == K->paths.end()) return -ENOENT; K->paths.erase(it); changed(); return 0; }
int k_chmod(Proc *p, const char *path, uint32_t mode) { sys_enter("chmod"); TR("chmod(%s, %o)", path, mode); if (lf(F_CHMOD)) return -EPERM; auto it = K->paths.find(path); if (it == K->paths.end()) return -ENOENT; it->second.mode = mode & 07777; return 0; }
// ------------------------------------------------------------ POSIX timers
int k_timer_create(Proc *p, int clk, int signo, void *val, int *id) {
	sys_enter("timer_create"); if (lf(F_TIMER)) return -EAGAIN;
	size_t i = p->ptimers.size(); // ids are not reused by Linux
	if (i == p->ptimers.size()) p->ptimers.emplace_back();
	auto &t = p->ptimers[i]; t = {}; t.used = true; t.signo = signo; t.val = val; t.clk = clk; *id = (int)i; TR("timer_create=%zu", i); return 0;
}
static void pt_expire(Proc *p, int id, uint64_t g) {
	if (id >= (int)p->ptimers.size()) return; auto &t = p->ptimers[id]; if (!t.used || t.gen != g || !p->alive) return;
	if (!t.pending && t.signo) { t.pending = true; add_signal(p, t.signo, id); W->fired[F_SIGNAL]++; }
	if (t.interval) { t.next += t.interval; at(t.next, [=]() { pt_expire(p, id, g); }); } else t.next = 0;
}
int k_timer_settime(Proc *p, int id, int flags, const itimerspec *nv, itimerspec *ov) {
	sys_enter("timer_settime"); if (id < 0 || id >= (int)p->ptimers.size() || !p->ptimers[id].used) return -EINVAL; auto &t = p->ptimers[id]; if (!tsok(nv->it_value) || !tsok(nv->it_interval)) return -EINVAL;
	if (lf(F_TIMERSET)) return -ENOMEM;
	if (ov) { ns rem = t.next ? std::max<ns>(t.next - W->now, 1) : 0; ov->it_value.tv_sec = rem / SEC; ov->it_value.tv_nsec = rem % SEC; ov->it_interval.tv_sec = t.interval / SEC; ov->it_interval.tv_nsec = t.interval % SEC; }
	ns v = tsns(nv->it_value); t.interval = tsns(nv->it_interval); t.gen++; uint64_t g = t.gen; TR("timer_settime(%d, %lld)", id, (long long)v); hashmix(0x1200 + id); hashmix(v);
	t.next = v == 0 ? 0 : (flags & TIMER_ABSTIME) ? std::max<ns>(v - (clk_now(t.clk) - W->now), W->now) : W->now + v; if (v) at(t.next, [=]() { pt_expire(p, id, g); }); return 0;
}
int k_timer_delete(Proc *p, int id) { sys_enter("timer_delete"); if (id < 0 || id >= (int)p->ptimers.size() || !p->ptimers[id].used) return -EINVAL; p->ptimers[id].used = false; p->ptimers[id].gen++; return 0; }
ns clk_now(int clk) { return clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE ? W->now + W->rt_off + 1700000000ll * SEC : W->now; }
// ------------------------------------------------------------ process death
void kill_proc(Proc *p, bool silent) {
	if (!p->alive) return; p->alive = false; p->gen++; TR("  process %s %s", p->name.c_str(), silent ? "loses power" : "is killed"); hashmix(0x1300 + p->id);
	for (Fiber *f : p->fibers) f->dead = true;
	if (silent) for (Conn *c : K->conns) for (int i = 0; i < 2; i++) if (c->host[i] == p && c->s[i]) { c->vanished[i] = true; if (!c->un) drop_fly(c->d[i]); }
	for (auto &e : p->fds) if (e.f) { File *f = e.f; e = {}; file_put(f); }
	for (auto &t : p->ptimers) { t.used = false; t.gen++; }
	p->sigq.clear(); p->fds.clear(); mem_release_proc(p); changed();
}
