// The C library and system-call seam: every external symbol the library refers to is renamed to sim_<symbol> at link time.
#include "kernel.h"
#include "race.h"
#include <pthread.h>
#include <signal.h>
#include <sys/time.h>
#include <sys/timerfd.h>
#include <sys/select.h>
#include <sys/ioctl.h>
#include <semaphore.h>
#include <sched.h>
#include <stdarg.h>
#include <netdb.h>
#if defined(SIM_ASAN)
#include <sanitizer/asan_interface.h>
#endif
ns clk_now(int clk);
static int g_err;
// ---------------------------------------------------------------- memory
struct MemRec { Proc *p; size_t n; uint64_t seq; void *ra; };
static std::unordered_map<void *, MemRec> mem; static uint64_t memseq;
static std::vector<std::pair<void *, size_t>> quarantine; static void cond_reset();
void *mem_alloc_ra(size_t n, bool zero, bool canfail, void *ra) {
	Proc *p = cur ? cur->p : nullptr;
	if (canfail) { if (cur && fault(F_ALLOC)) { TR("malloc(%zu) fails", n); return nullptr; } if (n > (64u << 20)) return nullptr; if (p && p->mem + n > p->memlimit) { fault_fired(F_MEMLIMIT); return nullptr; } }
	void *q = malloc(n ? n : 1); if (!q) return nullptr;
	if (zero) memset(q, 0, n); else memset(q, 0xa7, n);
	mem[q] = {p, n, ++memseq, ra}; if (p) p->mem += n;
	race_forget(q, n); return q;
}
void *mem_alloc(size_t n, bool zero, bool canfail) { return mem_alloc_ra(n, zero, canfail, __builtin_return_address(0)); }
void mem_free(void *q) {
	if (!q) return; auto it = mem.find(q);
	if (it == mem.end()) {
#if defined(SIM_ASAN)
		free(q); // reported by the sanitizer
#endif
		violate("ASAN", "free() of a pointer that is not allocated");
	}
	size_t n = it->second.n; if (it->second.p) it->second.p->mem -= n; mem.erase(it);
#if defined(SIM_ASAN)
	free(q);
#else
	race_range(q, n, true); race_forget(q, n); memset(q, 0xdd, n); race_freed(q, n); quarantine.push_back({q, n});
#endif
}
void *mem_realloc(void *q, size_t n) {
	if (!q) return mem_alloc_ra(n, false, true, __builtin_return_address(0));
	auto it = mem.find(q); if (it == mem.end()) { mem_free(q); return nullptr; }
	if (n == 0) { mem_free(q); return nullptr; }
	void *r = mem_alloc_ra(n, false, true, __builtin_return_address(0)); if (!r) return nullptr;
	memcpy(r, q, std::min(n, mem[q].n)); mem_free(q); return r;
}
size_t mem_live(Proc *p, std::string *desc) {
	std::map<uint64_t, std::pair<size_t, void *>> l; for (auto &m : mem) if (m.second.p == p) l[m.second.seq] = {m.second.n, m.second.ra};
	if (desc) { desc->clear(); int k = 0; for (auto &x : l) { if (k++ == 6) break; char b[64]; snprintf(b, 64, "%s%zu bytes", k > 1 ? ", " : "", x.second.first); *desc += b; TR("  live block %zu from %p", x.second.first, x.second.second); } }
	return l.size();
}
size_t mem_count_total() { return mem.size(); }
bool mem_is_live(void *p) { return mem.count(p) != 0; }
void mem_release_proc(Proc *p) { std::vector<void *> v; for (auto &m : mem) if (m.second.p == p) v.push_back(m.first); for (void *q : v) { race_forget(q, mem[q].n); mem.erase(q); free(q); } p->mem = 0; }
void mem_reset() { for (auto &m : mem) free(m.first); mem.clear(); memseq = 0; for (auto &q : quarantine) free(q.first); quarantine.clear(); cond_reset(); }

// ---------------------------------------------------------------- helpers
#define P (cur->p)
static inline long ret(long r) { if (r < 0) { cur->err = (int)-r; return -1; } return r; }
#define CALL(x) LibCall lc_; return (decltype(x))ret(x)
static void rng(const void *p, size_t n, bool w) { if (n) race_range(p, n, w); }
static const void *fdobj(int fd) { File *f = fd_file(P, fd); if (!f) return nullptr; if (f->kind == K_PIPE_R || f->kind == K_PIPE_W) return ((PipeEnd *)f)->b; return f; }
static void fdrel(int fd) { const void *o = fdobj(fd); if (o) race_release(o); }
static void fdacq(int fd) { const void *o = fdobj(fd); if (o) race_acquire(o); }
static void quiet(const char *) {}

struct Mtx { uint32_t magic; int32_t owner; int32_t type; int32_t count; };   // lives in the pthread_mutex_t
struct Cnd { uint32_t magic; int32_t clk; };
static_assert(sizeof(Mtx) <= sizeof(pthread_mutex_t) && sizeof(Cnd) <= sizeof(pthread_cond_t), "");
enum { MM = 0x4d757458, CM = 0x436f6e64, DEADM = 0x64656164 };
struct Waiter { Fiber *f; bool sig; };
static std::unordered_map<void *, std::vector<Waiter *>> cwait;
static void cond_reset() { cwait.clear(); }
static int mtx_lock(Mtx *m, bool tr) {
	sys_enter("mutex_lock"); if (m->magic == DEADM) violate("RACE", "lock of a destroyed mutex");
	if (m->magic != MM) { m->magic = MM; m->owner = 0; m->type = 0; m->count = 0; }
	int me = cur->id + 1;
	if (m->owner == me) { if (m->type == PTHREAD_MUTEX_RECURSIVE) { m->count++; return 0; } if (tr) return EBUSY; if (m->type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK; violate("HANG", "thread %s locks a mutex it already holds", cur->name); }
	if (m->owner) { if (tr) return EBUSY; probe("mutex_contended"); block_until([m]() { return m->owner == 0 || m->magic != MM; }); if (m->magic != MM) violate("RACE", "mutex destroyed while thread %s waits for it", cur->name); }
	m->owner = me; m->count = 1; race_acquire(m); return 0;
}
static int mtx_unlock(Mtx *m, bool enter) {
	if (enter) sys_enter("mutex_unlock");
	if (m->magic != MM || m->owner != cur->id + 1) { if (m->type == PTHREAD_MUTEX_ERRORCHECK) return EPERM; violate("RACE", "thread %s unlocks a mutex it does not hold", cur->name); }
	if (--m->count) return 0;
	race_release(m); m->owner = 0; changed(); return 0;
}
static int cnd_wait(Cnd *c, Mtx *m, ns dl) {
	sys_enter("cond_wait"); if (c->magic != CM) { c->magic = CM; c->clk = CLOCK_REALTIME; }
	if (m->magic != MM || m->owner != cur->id + 1) violate("RACE", "condition wait by thread %s without its mutex", cur->name);
	Waiter w{cur, false}; cwait[c].push_back(&w); mtx_unlock(m, false);
	if (fault(F_SPURIOUS_WAKE)) { ns s = W->now + (ns)choose(2000) * US; if (s < dl) { ns d2 = s; block_until([&w]() { return w.sig; }, d2); w.sig = true; } }
	int r = w.sig ? 0 : block_until([&w]() { return w.sig; }, dl);
	bool to = r == 1 && !w.sig; auto &v = cwait[c]; v.erase(std::remove(v.begin(), v.end(), &w), v.end());
	Mtx *mm = m; if (mm->owner) block_until([mm]() { return mm->owner == 0; });
	mm->owner = cur->id + 1; mm->count = 1; race_acquire(mm); return to ? ETIMEDOUT : 0;
}

extern "C" {
int *sim___errno_location() { return cur ? &cur->err : &g_err; }
// ---- memory
void *sim_malloc(size_t n) { if (P->tool) sys_enter("malloc"); void *r = mem_alloc_ra(n, false, true, __builtin_return_address(0)); if (!r) cur->err = ENOMEM; return r; }
void *sim_calloc(size_t a, size_t b) { if (b && a > SIZE_MAX / b) { cur->err = ENOMEM; return nullptr; } void *r = mem_alloc_ra(a * b, true, true, __builtin_return_address(0)); if (!r) cur->err = ENOMEM; return r; }
void *sim_realloc(void *p, size_t n) { void *r = mem_realloc(p, n); if (!r) cur->err = ENOMEM; return r; }
void *sim_reallocarray(void *p, size_t a, size_t b) { if (b && a > SIZE_MAX / b) { cur->err = ENOMEM; return nullptr; } return sim_realloc(p, a * b); }
void sim_free(void *p) { mem_free(p); if (P->tool) sys_enter("free"); }
int sim_posix_memalign(void **o, size_t, size_t n) { void *r = mem_alloc_ra(n, false, true, __builtin_return_address(0)); if (!r) return ENOMEM; *o = r; return 0; }
void *sim_aligned_alloc(size_t, size_t n) { return sim_malloc(n); }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; rng(s, n, false); char *r = (char *)sim_malloc(n); if (r) memcpy(r, s, n); return r; }
char *sim_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *r = (char *)sim_malloc(n + 1); if (r) { memcpy(r, s, n); r[n] = 0; } return r; }
char *sim___strdup(const char *s) { return sim_strdup(s); }
int sim_vasprintf(char **o, const char *f, va_list a) { va_list b; va_copy(b, a); int n = vsnprintf(nullptr, 0, f, b); va_end(b); if (n < 0) return -1; char *r = (char *)sim_malloc(n + 1); if (!r) { *o = nullptr; return -1; } vsnprintf(r, n + 1, f, a); *o = r; return n; }
int sim_asprintf(char **o, const char *f, ...) { va_list a; va_start(a, f); int r = sim_vasprintf(o, f, a); va_end(a); return r; }
int sim___vasprintf_chk(char **o, int, const char *f, va_list a) { return sim_vasprintf(o, f, a); }
int sim___asprintf_chk(char **o, int, const char *f, ...) { va_list a; va_start(a, f); int r = sim_vasprintf(o, f, a); va_end(a); return r; }
// ---- diagnostics: dropped, except those of the command line tool
static void say(const char *p, size_t n) {
	if (!cur) return; if (P->out) P->out->append(p, n);
	if (g_trace) { std::string s(p, std::min<size_t>(n, 300)); while (!s.empty() && s.back() == '\n') s.pop_back(); if (!s.empty()) tracef("log: %s", s.c_str()); }
}
int sim_vfprintf(FILE *, const char *f, va_list a) { if (!cur || (!P->out && !g_trace)) return 0; char *o = nullptr; int n = vasprintf(&o, f, a); if (n < 0) return n; say(o, (size_t)n); free(o); return n; }
#define SAY(f) va_list a; va_start(a, f); int n = sim_vfprintf(nullptr, f, a); va_end(a); return n
int sim_fprintf(FILE *, const char *f, ...) { SAY(f); } int sim_printf(const char *f, ...) { SAY(f); } int sim_vprintf(const char *f, va_list a) { return sim_vfprintf(nullptr, f, a); } size_t sim_fwrite(const void *b, size_t s, size_t n, FILE *) { say((const char *)b, s * n); return n; }
int sim_dprintf(int, const char *f, ...) { SAY(f); } int sim___printf_chk(int, const char *f, ...) { SAY(f); }
int sim_fputs(const char *s, FILE *) { say(s, strlen(s)); return 0; } int sim_fputc(int c, FILE *) { char x = (char)c; say(&x, 1); return c; } int sim_putc(int c, FILE *) { return sim_fputc(c, nullptr); } int sim_putchar(int c) { return sim_fputc(c, nullptr); } int sim_puts(const char *s) { say(s, strlen(s)); say("\n", 1); return 0; } int sim_fflush(FILE *) { return 0; } void sim_perror(const char *s) { quiet(s); }
int sim___fprintf_chk(FILE *, int, const char *f, ...) { SAY(f); } void sim_syslog(int, const char *, ...) {}
char *sim_getenv(const char *n) { return W && W->env && W->envname == n ? (char *)W->env : nullptr; } char *sim_secure_getenv(const char *n) { return sim_getenv(n); }
// ---- numeric addresses: converted by the C library, in memory that is accounted for and may fail
int sim_getaddrinfo(const char *h, const char *s, const addrinfo *hints, addrinfo **o) {
	addrinfo *r = nullptr, *first = nullptr, **last = &first; int e; { addrinfo hh{}; if (hints) hh = *hints; hh.ai_flags |= AI_NUMERICHOST; e = getaddrinfo(h, s, &hh, &r); } if (e) return e;
	for (addrinfo *i = r; i; i = i->ai_next) {
		addrinfo *c = (addrinfo *)mem_alloc_ra(sizeof(addrinfo) + i->ai_addrlen, true, true, __builtin_return_address(0)); if (!c) { e = EAI_MEMORY; break; }
		*c = *i; c->ai_canonname = nullptr; c->ai_next = nullptr; c->ai_addr = (sockaddr *)(c + 1); memcpy(c->ai_addr, i->ai_addr, i->ai_addrlen); *last = c; last = &c->ai_next;
	}
	freeaddrinfo(r); if (e) { while (first) { addrinfo *n = first->ai_next; mem_free(first); first = n; } return e; } *o = first; return 0;
}
void sim_freeaddrinfo(addrinfo *a) { while (a) { addrinfo *n = a->ai_next; mem_free(a); a = n; } }
void sim_abort() { violate("CRASH", "the library calls abort()"); } void sim_exit(int c) { if (cur && P->on_exit) P->on_exit(c); violate("CRASH", "the library calls exit()"); } void sim__exit(int c) { if (cur && P->on_exit) P->on_exit(c); violate("CRASH", "the library calls _exit()"); }
void sim___assert_fail(const char *e, const char *, unsigned, const char *fn) { violate("CRASH", "assertion %s fails in %s", e, fn); }
// ---- time
int sim_clock_gettime(clockid_t c, struct timespec *t) { sys_enter("clock_gettime"); if (W->clk_round && chance(3000)) { ns d = W->clk_round - W->now % W->clk_round; W->clk_lat += d; fault_fired(F_LATENCY); sleep_ns(d); } ns n = clk_now(c); t->tv_sec = n / SEC; t->tv_nsec = n % SEC; return 0; }
int sim_clock_getres(clockid_t, struct timespec *t) { if (t) { t->tv_sec = 0; t->tv_nsec = 1; } return 0; }
int sim_gettimeofday(struct timeval *t, void *) { sys_enter("gettimeofday"); ns n = clk_now(CLOCK_REALTIME); t->tv_sec = n / SEC; t->tv_usec = n % SEC / 1000; return 0; }
time_t sim_time(time_t *t) { sys_enter("time"); time_t r = clk_now(CLOCK_REALTIME) / SEC; if (t) *t = r; return r; }
int sim_nanosleep(const struct timespec *t, struct timespec *) { sys_enter("nanosleep"); sleep_ns(t->tv_sec * SEC + t->tv_nsec); return 0; }
int sim_clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *) { sys_enter("nanosleep"); ns d = t->tv_sec * SEC + t->tv_nsec; if (fl & TIMER_ABSTIME) d -= clk_now(c); if (d > 0) sleep_ns(d); return 0; }
int sim_usleep(useconds_t u) { sys_enter("usleep"); sleep_ns((ns)u * US); return 0; } unsigned sim_sleep(unsigned s) { sys_enter("sleep"); sleep_ns((ns)s * SEC); return 0; }
int sim_sched_yield() { sys_enter("sched_yield"); yield_now(); return 0; }
// ---- files
int sim_close(int fd) { LibCall l; rng(fdobj(fd), 0, false); return (int)ret(k_close(P, fd)); }
int sim_dup(int fd) { CALL(k_dup(P, fd, 0, false)); }
int sim_dup2(int a, int b) { LibCall l; if (a == b) return fd_file(P, a) ? a : (cur->err = EBADF, -1); if (fd_file(P, b)) k_close(P, b); return (int)ret(k_dup(P, a, b, false)); }
int sim_dup3(int a, int b, int fl) { LibCall l; if (a == b) { cur->err = EINVAL; return -1; } if (fd_file(P, b)) k_close(P, b); return (int)ret(k_dup(P, a, b, fl & O_CLOEXEC)); }
ssize_t sim_read(int fd, void *b, size_t n) { LibCall l; ssize_t r = k_read(P, fd, b, n); if (r > 0) { fdacq(fd); rng(b, r, true); } return ret(r); }
ssize_t sim_write(int fd, const void *b, size_t n) { LibCall l; rng(b, n, false); fdrel(fd); return ret(k_write(P, fd, b, n)); }
ssize_t sim_readv(int fd, const struct iovec *v, int k) { struct msghdr m; memset(&m, 0, sizeof m); LibCall l; size_t t = 0; for (int i = 0; i < k; i++) t += v[i].iov_len; std::string b; b.resize(t); ssize_t r = k_read(P, fd, &b[0], t); if (r > 0) { fdacq(fd); size_t o = 0; for (int i = 0; i < k && o < (size_t)r; i++) { size_t q = std::min(v[i].iov_len, r - o); memcpy(v[i].iov_base, &b[o], q); o += q; } } return ret(r); }
ssize_t sim_writev(int fd, const struct iovec *v, int k) { LibCall l; std::string b; for (int i = 0; i < k; i++) b.append((const char *)v[i].iov_base, v[i].iov_len); fdrel(fd); return ret(k_write(P, fd, b.data(), b.size())); }
ssize_t sim_send(int fd, const void *b, size_t n, int fl) { struct iovec v = {(void *)b, n}; struct msghdr m; memset(&m, 0, sizeof m); m.msg_iov = &v; m.msg_iovlen = 1; LibCall l; return ret(k_sendmsg(P, fd, &m, fl)); }
ssize_t sim_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t al) { if (!a) return sim_send(fd, b, n, fl); LibCall l; return ret(k_sendto(P, fd, b, n, fl, a, al)); }
ssize_t sim_sendmsg(int fd, const struct msghdr *m, int fl) { CALL(k_sendmsg(P, fd, m, fl)); }
ssize_t sim_recvmsg(int fd, struct msghdr *m, int fl) { CALL(k_recvmsg(P, fd, m, fl)); }
ssize_t sim_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *al) { struct iovec v = {b, n}; struct msghdr m; memset(&m, 0, sizeof m); m.msg_iov = &v; m.msg_iovlen = 1; m.msg_name = a; m.msg_namelen = al ? *al : 0; LibCall l; ssize_t r = k_recvmsg(P, fd, &m, fl); if (r >= 0 && al) *al = m.msg_namelen; if (r >= 0 && (m.msg_flags & MSG_TRUNC) && (fl & MSG_TRUNC)) {} return ret(r); }
ssize_t sim_recv(int fd, void *b, size_t n, int fl) { return sim_recvfrom(fd, b, n, fl, nullptr, nullptr); }
int sim_fcntl(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long arg = va_arg(a, long); va_end(a); LibCall l; return (int)ret(k_fcntl(P, fd, cmd, (int)arg)); }
int sim_fcntl64(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long arg = va_arg(a, long); va_end(a); LibCall l; return (int)ret(k_fcntl(P, fd, cmd, (int)arg)); }
int sim_ioctl(int fd, unsigned long rq, ...) {
	va_list a; va_start(a, rq); void *arg = va_arg(a, void *); va_end(a); LibCall l; sys_enter("ioctl"); File *f = fd_file(P, fd); if (!f) { cur->err = EBADF; return -1; }
	if (rq == FIONBIO) return (int)ret(k_fcntl(P, fd, F_SETFL, *(int *)arg ? O_NONBLOCK : 0));
	if (rq == FIONREAD) { int n = 0; if (Stream *s = dynamic_cast<Stream *>(f)) { if (s->c) for (auto &g : s->c->d[1 - s->side].q) n += (int)(g.d.size() - g.off); } else if (Dgram *d = dynamic_cast<Dgram *>(f)) n = d->q.empty() ? 0 : (int)d->q.front().d.size(); else if (f->kind == K_PIPE_R) n = (int)((PipeEnd *)f)->b->q.size(); *(int *)arg = n; return 0; }
	cur->err = EINVAL; return -1;
}
int sim_pipe(int o[2]) { CALL(k_pipe(P, o, 0)); } int sim_pipe2(int o[2], int fl) { CALL(k_pipe(P, o, fl)); }
int sim_eventfd(unsigned v, int fl) { CALL(k_eventfd(P, v, fl)); }
int sim_eventfd_read(int fd, uint64_t *v) { return sim_read(fd, v, 8) == 8 ? 0 : -1; } int sim_eventfd_write(int fd, uint64_t v) { return sim_write(fd, &v, 8) == 8 ? 0 : -1; }
int sim_unlink(const char *p) { CALL(k_unlink(P, p)); } int sim_remove(const char *p) { CALL(k_unlink(P, p)); } int sim_chmod(const char *p, mode_t m) { CALL(k_chmod(P, p, m)); }
mode_t sim_umask(mode_t m) { mode_t o = P->umask_; P->umask_ = m & 0777; return o; }
// ---- sockets
int sim_socket(int a, int b, int c) { CALL(k_socket(P, a, b, c)); } int sim_bind(int f, const struct sockaddr *a, socklen_t l) { CALL(k_bind(P, f, a, l)); }
int sim_listen(int f, int b) { CALL(k_listen(P, f, b)); } int sim_accept(int f, struct sockaddr *a, socklen_t *l) { CALL(k_accept(P, f, a, l, 0)); } int sim_accept4(int f, struct sockaddr *a, socklen_t *l, int fl) { CALL(k_accept(P, f, a, l, fl)); }
int sim_connect(int f, const struct sockaddr *a, socklen_t l) { CALL(k_connect(P, f, a, l)); } int sim_shutdown(int f, int h) { CALL(k_shutdown(P, f, h)); }
int sim_getsockname(int f, struct sockaddr *a, socklen_t *l) { CALL(k_getsockname(P, f, a, l)); } int sim_getpeername(int f, struct sockaddr *a, socklen_t *l) { CALL(k_getpeername(P, f, a, l)); }
int sim_setsockopt(int f, int lv, int o, const void *v, socklen_t l) { CALL(k_setsockopt(P, f, lv, o, v, l)); } int sim_getsockopt(int f, int lv, int o, void *v, socklen_t *l) { CALL(k_getsockopt(P, f, lv, o, v, l)); }
// ---- readiness
static ns msdl(int ms) { return ms < 0 ? NEVER : W->now + (ns)ms * MS; }
int sim_epoll_create(int n) { if (n <= 0) { cur->err = EINVAL; return -1; } CALL(k_epoll_create(P, 0)); } int sim_epoll_create1(int fl) { CALL(k_epoll_create(P, fl)); }
int sim_epoll_ctl(int e, int op, int fd, struct epoll_event *ev) { CALL(k_epoll_ctl(P, e, op, fd, ev)); }
int sim_epoll_wait(int e, struct epoll_event *ev, int n, int ms) { LibCall l; int r = (int)ret(k_epoll_wait(P, e, ev, n, msdl(ms))); cur->t_waitret = W->now; return r; }
int sim_epoll_pwait(int e, struct epoll_event *ev, int n, int ms, const sigset_t *) { return sim_epoll_wait(e, ev, n, ms); }
int sim_poll(struct pollfd *f, nfds_t n, int ms) { LibCall l; int r = (int)ret(k_poll(P, f, (unsigned)n, msdl(ms))); cur->t_waitret = W->now; return r; } int sim___poll_chk(struct pollfd *f, nfds_t n, int ms, size_t) { return sim_poll(f, n, ms); }
int sim_ppoll(struct pollfd *f, nfds_t n, const struct timespec *t, const sigset_t *) { CALL(k_poll(P, f, (unsigned)n, t ? W->now + t->tv_sec * SEC + t->tv_nsec : NEVER)); }
// ---- timers
int sim_timerfd_create(int c, int fl) { CALL(k_timerfd_create(P, c, fl)); }
int sim_timerfd_settime(int f, int fl, const struct itimerspec *n, struct itimerspec *o) { CALL(k_timerfd_settime(P, f, fl, n, o)); }
int sim_timerfd_gettime(int f, struct itimerspec *o) { LibCall l; TimerFd *t = dynamic_cast<TimerFd *>(fd_file(P, f)); if (!t) { cur->err = EBADF; return -1; } ns r = t->next ? std::max<ns>(t->next - W->now, 1) : 0; o->it_value.tv_sec = r / SEC; o->it_value.tv_nsec = r % SEC; o->it_interval.tv_sec = t->interval / SEC; o->it_interval.tv_nsec = t->interval % SEC; return 0; }
int sim_timer_create(clockid_t c, struct sigevent *e, timer_t *t) { LibCall l; int id = 0; int r = k_timer_create(P, c, e && e->sigev_notify == SIGEV_SIGNAL ? e->sigev_signo : e ? 0 : SIGALRM, e ? e->sigev_value.sival_ptr : nullptr, &id); if (r == 0) *t = (timer_t)(intptr_t)id; return (int)ret(r); }
int sim_timer_delete(timer_t t) { CALL(k_timer_delete(P, (int)(intptr_t)t)); }
int sim_timer_settime(timer_t t, int fl, const struct itimerspec *n, struct itimerspec *o) { CALL(k_timer_settime(P, (int)(intptr_t)t, fl, n, o)); }
int sim___libc_current_sigrtmin() { return 34; } int sim___libc_current_sigrtmax() { return 64; }
int sim_sigaction(int s, const struct sigaction *n, struct sigaction *o) {
	LibCall l; sys_enter("sigaction"); if (s < 1 || s > 64) { cur->err = EINVAL; return -1; } auto &h = P->sig[s];
	if (o) { memset(o, 0, sizeof *o); o->sa_sigaction = (void (*)(int, siginfo_t *, void *))h.h; o->sa_flags = h.flags; }
	if (n) { h.h = n->sa_handler == SIG_IGN || n->sa_handler == SIG_DFL ? nullptr : (void (*)(int, void *, void *))n->sa_sigaction; h.flags = n->sa_flags; } return 0;
}
typedef void (*SH)(int);
SH sim_signal(int s, SH h) { auto &x = P->sig[s]; SH o = (SH)x.h; x.h = h == SIG_IGN || h == SIG_DFL ? nullptr : (void (*)(int, void *, void *))h; return o; }
int sim_sigprocmask(int, const sigset_t *, sigset_t *) { return 0; } int sim_pthread_sigmask(int, const sigset_t *, sigset_t *) { return 0; }
// ---- threads
pthread_t sim_pthread_self() { return (pthread_t)cur->tid; } int sim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int sim_pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg) {
	LibCall l; sys_enter("pthread_create"); if (lf(F_THREAD)) return EAGAIN;
	Fiber *me = nullptr; (void)me; Fiber *f = spawn(P, "thread", nullptr); f->fn = [f, fn, arg]() { f->retval = fn(arg); };
	*t = (pthread_t)f->tid; race_fork(f); if (cur->quantum == 1) {} return 0;
}
int sim_pthread_join(pthread_t t, void **r) {
	LibCall l; sys_enter("pthread_join"); if (t == 0 || t > W->fibers.size()) return ESRCH; Fiber *f = W->fibers[t - 1]; if (f == cur) return EDEADLK; if (f->detached) return EINVAL;
	if (!f->finished) block_until([f]() { return f->finished; }); race_join(f); f->detached = true; if (r) *r = f->retval; return 0;
}
int sim_pthread_detach(pthread_t t) { if (t == 0 || t > W->fibers.size()) return ESRCH; W->fibers[t - 1]->detached = true; return 0; }
int sim_pthread_setname_np(pthread_t, const char *) { return 0; }
int sim_pthread_attr_init(void *) { return 0; } int sim_pthread_attr_destroy(void *) { return 0; } int sim_pthread_attr_setdetachstate(void *, int) { return 0; } int sim_pthread_attr_setstacksize(void *, size_t) { return 0; }
int sim_pthread_mutexattr_init(int *a) { *a = 0; return 0; } int sim_pthread_mutexattr_destroy(int *) { return 0; } int sim_pthread_mutexattr_settype(int *a, int t) { *a = t; return 0; }
int sim_pthread_mutex_init(Mtx *m, const int *a) { LibCall l; m->magic = MM; m->owner = 0; m->count = 0; m->type = a ? *a : 0; race_sync_destroy(m); return 0; }
int sim_pthread_mutex_destroy(Mtx *m) { LibCall l; sys_enter("mutex_destroy"); if (m->magic == MM && m->owner) violate("RACE", "a held mutex is destroyed"); m->magic = m->magic == MM ? DEADM : 0; race_sync_destroy(m); return 0; }
int sim_pthread_mutex_lock(Mtx *m) { LibCall l; return mtx_lock(m, false); } int sim_pthread_mutex_trylock(Mtx *m) { LibCall l; return mtx_lock(m, true); } int sim_pthread_mutex_unlock(Mtx *m) { LibCall l; int r = mtx_unlock(m, true); preempt_point(); return r; }
int sim_pthread_condattr_init(int *a) { *a = CLOCK_REALTIME; return 0; } int sim_pthread_condattr_destroy(int *) { return 0; } int sim_pthread_condattr_setclock(int *a, clockid_t c) { *a = c; return 0; }
int sim_pthread_cond_init(Cnd *c, const int *a) { c->magic = CM; c->clk = a ? *a : CLOCK_REALTIME; cwait.erase(c); return 0; }
int sim_pthread_cond_destroy(Cnd *c) { auto it = cwait.find(c); if (it != cwait.end()) { if (!it->second.empty()) violate("RACE", "a condition variable with waiters is destroyed"); cwait.erase(it); } c->magic = 0; return 0; }
int sim_pthread_cond_wait(Cnd *c, Mtx *m) { LibCall l; return cnd_wait(c, m, NEVER); }
int sim_pthread_cond_timedwait(Cnd *c, Mtx *m, const struct timespec *t) { LibCall l; if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000) { sys_enter("cond_timedwait"); probe("timedwait_einval"); return EINVAL; } if (c->magic != CM) { c->magic = CM; c->clk = CLOCK_REALTIME; } ns d = t->tv_sec < 0 ? 0 : t->tv_sec * SEC + t->tv_nsec - (clk_now(c->clk) - W->now); return cnd_wait(c, m, d); }
int sim_pthread_cond_clockwait(Cnd *c, Mtx *m, clockid_t k, const struct timespec *t) { LibCall l; if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000) return EINVAL; return cnd_wait(c, m, t->tv_sec * SEC + t->tv_nsec - (clk_now(k) - W->now)); }
int sim_pthread_cond_signal(Cnd *c) { LibCall l; sys_enter("cond_signal"); auto &v = cwait[c]; std::vector<Waiter *> u; for (Waiter *w : v) if (!w->sig) u.push_back(w); if (!u.empty()) { u[choose((uint32_t)u.size())]->sig = true; changed(); } return 0; }
int sim_pthread_cond_broadcast(Cnd *c) { LibCall l; sys_enter("cond_broadcast"); for (Waiter *w : cwait[c]) w->sig = true; changed(); return 0; }
int sim_pthread_once(int *o, void (*f)()) { if (!*o) { *o = 1; f(); } return 0; }
pid_t sim_getpid() { return P->pid; } uid_t sim_getuid() { return P->uid; } gid_t sim_getgid() { return P->gid; } long sim_gettid() { return cur->tid; }
long sim_random() { return choose(0x7fffffff); } int sim_rand() { return (int)choose(0x7fffffff); } int sim_rand_r(unsigned *) { return (int)choose(0x7fffffff); } uint32_t sim_arc4random() { return choose(0xffffffff); }
}
