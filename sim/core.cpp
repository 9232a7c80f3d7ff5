#include "sim.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <signal.h>
#include <setjmp.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <errno.h>
#include <atomic>
#if defined(SIM_ASAN)
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/asan_interface.h>
extern "C" const char *__asan_default_options() {
	return "detect_stack_use_after_return=0:detect_leaks=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1:"
	       "handle_segv=1:handle_abort=1:quarantine_size_mb=4:malloc_context_size=8:symbolize=0:max_malloc_fill_size=0:print_legend=0:print_cmdline=0:detect_odr_violation=0:allow_user_segv_handler=1:use_sigaltstack=1";
}
#endif

World *W; Fiber *cur; bool g_trace;
bool g_buildB =
#ifdef SIM_RACE
	true;
#else
	false;
#endif
const char *fault_names[F_COUNT] = {
	"short_write", "short_read", "eintr", "socket_buffer_full", "alloc_failure", "emfile", "enfile", "enobufs",
	"epoll_add_error", "epoll_mod_error", "accept_error", "connect_error", "bind_error", "listen_error", "setsockopt_error", "getsockname_error", "so_error_error", "fcntl_error", "chmod_error",
	"pipe_error", "eventfd_error", "timer_create_error", "timer_settime_error", "thread_create_error", "poll_error", "write_error", "read_error", "wakeup_write_error", "dup_error",
	"connection_reset", "partition", "process_crash", "power_loss", "stall", "latency_spike", "address_down", "spurious_wakeup", "preemption",
	"udp_loss", "udp_dup", "udp_reorder", "udp_truncate", "udp_corrupt", "udp_icmp_error", "udp_send_error", "ready_order", "backlog_full",
	"late_dispatch", "signal", "hostile_bytes", "clock_jump", "fd_limit", "memory_limit"
};

// ---------------------------------------------------------------- shared memory with the supervisor
struct Slot {
	std::atomic<uint64_t> idx; std::atomic<uint32_t> running; std::atomic<uint32_t> nchoice;
	char tag[16]; char msg[1024]; uint64_t hash; uint64_t steps; int64_t simtime; int finished; int viol; int nontriv;
};
struct RunRes { bool viol; std::string tag, msg; uint64_t hash, steps; ns simtime; };
static const uint32_t MAXCH = 1u << 21;
static uint32_t *g_chbuf; static Slot *g_slot; // current worker's

// ---------------------------------------------------------------- choices
static bool c_replay; static std::vector<uint32_t> c_in; static size_t c_pos; static uint64_t c_s[2]; static uint32_t c_n;
uint64_t mix64(uint64_t x) { x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; x ^= x >> 31; return x; }
static inline uint64_t rngnext() {
	uint64_t s1 = c_s[0], s0 = c_s[1]; uint64_t r = s0 + s1; c_s[0] = s0; s1 ^= s1 << 23;
	c_s[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5); return r;
}
static inline void crec(uint32_t v) {
	if (c_n >= MAXCH) { W->hung = true; violate("STEPS", "too many choices in one run"); }
	g_chbuf[c_n++] = v; if (g_slot) g_slot->nchoice.store(c_n, std::memory_order_relaxed);
}
uint32_t choose(uint32_t n) {
	if (n <= 1) return 0;
	uint32_t v;
	if (c_replay) v = c_pos < c_in.size() ? c_in[c_pos++] % n : 0; else v = (uint32_t)((rngnext() >> 11) % n);
	crec(v); return v;
}
bool chance(uint32_t p) {
	if (p == 0) return false;
	uint32_t v;
	if (c_replay) v = c_pos < c_in.size() ? c_in[c_pos++] & 1 : 0; else v = (rngnext() >> 11) % 10000 < p;
	crec(v); return v;
}
uint32_t choosew(std::initializer_list<uint32_t> w) {
	uint32_t v, n = (uint32_t)w.size();
	if (c_replay) v = c_pos < c_in.size() ? c_in[c_pos++] % n : 0;
	else {
		uint64_t t = 0; for (uint32_t x : w) t += x;
		uint64_t r = (rngnext() >> 11) % (t ? t : 1); v = 0;
		for (uint32_t x : w) { if (r < x) break; r -= x; v++; }
		if (v >= n) v = 0;
	}
	crec(v); return v;
}
uint32_t range(uint32_t lo, uint32_t hi) { return hi <= lo ? lo : lo + choose(hi - lo + 1); }
uint32_t geom(uint32_t maxv) {
	uint32_t v;
	if (c_replay) v = c_pos < c_in.size() ? c_in[c_pos++] % (maxv + 1) : 0;
	else { uint64_t r = rngnext() >> 11; uint32_t bits = r % 33; v = bits == 0 ? 0 : (uint32_t)((rngnext() >> 11) & ((1ull << bits) - 1)); if (v > maxv) v = (uint32_t)((rngnext() >> 11) % ((uint64_t)maxv + 1)); }
	crec(v); return v;
}
bool fault(Fault f) {
	if (!W->faults_on || W->nofault || !W->rate[f]) return false;
	if (!chance(W->rate[f])) return false;
	fault_fired(f); return true;
}
void fault_fired(Fault f) { W->fired[f]++; W->nfired++; TR("  !! fault %s", fault_names[f]); }
NoFault::NoFault() { W->nofault++; }
NoFault::~NoFault() { W->nofault--; }
void probe(const char *n) { W->probes[n]++; }
void hashmix(uint64_t v) { W->hash = (W->hash ^ v) * 0x100000001b3ull; W->hash ^= W->hash >> 29; }
void tracef(const char *fmt, ...) {
	va_list a; va_start(a, fmt);
	fprintf(stderr, "[%10.6f %s/%s] ", (double)(W->now) / 1e9, cur && cur->p ? cur->p->name.c_str() : "kernel", cur ? cur->name : "-");
	vfprintf(stderr, fmt, a); fputc('\n', stderr); va_end(a);
}

// ---------------------------------------------------------------- fibers
extern "C" void sim_ctx_switch(void **save, void *load);
asm(R"(
.text
.globl sim_ctx_switch
.type sim_ctx_switch,@function
sim_ctx_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp,(%rdi)
	movq %rsi,%rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size sim_ctx_switch,.-sim_ctx_switch
)");
static void *sched_sp; static void *sched_fake; static const void *sched_bottom; static size_t sched_size;
static jmp_buf sched_jmp; static bool in_sched;
static std::vector<char *> stkpool; static const size_t STK = 192 * 1024;

static char *stk_get() {
	char *s;
	if (!stkpool.empty()) { s = stkpool.back(); stkpool.pop_back(); }
	else {
		s = (char *)mmap(nullptr, STK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (s == MAP_FAILED) { perror("mmap"); _exit(98); }
		mprotect(s, 4096, PROT_NONE); s += 4096;
	}
#if defined(SIM_ASAN)
	__asan_unpoison_memory_region(s, STK);
#endif
	memset(s + STK - 12288, 0x5c, 12288);
	return s;
}
static void to_fiber(Fiber *f) {
	cur = f;
#if defined(SIM_ASAN)
	__sanitizer_start_switch_fiber(&sched_fake, f->stk, f->stksz);
#endif
	sim_ctx_switch(&sched_sp, f->sp);
#if defined(SIM_ASAN)
	__sanitizer_finish_switch_fiber(sched_fake, nullptr, nullptr);
#endif
	cur = nullptr;
}
static void to_sched(bool dying) {
	Fiber *f = cur;
#if defined(SIM_ASAN)
	__sanitizer_start_switch_fiber(dying ? nullptr : &f->fake, sched_bottom, sched_size);
#endif
	sim_ctx_switch(&f->sp, sched_sp);
#if defined(SIM_ASAN)
	__sanitizer_finish_switch_fiber(f->fake, nullptr, nullptr);
#endif
}
static void fiber_main() {
#if defined(SIM_ASAN)
	__sanitizer_finish_switch_fiber(nullptr, &sched_bottom, &sched_size);
#endif
	cur->fn();
	fiber_exit();
}
void fiber_exit() { cur->dead = true; cur->finished = true; changed(); to_sched(true); abort(); }
Fiber *spawn(Proc *p, const char *name, std::function<void()> fn) {
	Fiber *f = new Fiber; f->id = (int)W->fibers.size(); f->p = p; f->name = name; f->fn = std::move(fn);
	f->stk = stk_get(); f->stksz = STK; f->tid = f->id + 1;
	uintptr_t *sp = (uintptr_t *)(f->stk + STK - 64); sp = (uintptr_t *)((uintptr_t)sp & ~15ull);
	*--sp = 0;                       // alignment: at entry rsp%16==8
	*--sp = (uintptr_t)&fiber_main;  // return address
	for (int i = 0; i < 6; i++) *--sp = 0;
	f->sp = sp; W->fibers.push_back(f); if (p) p->fibers.push_back(f);
	return f;
}
void violate(const char *tag, const char *fmt, ...) {
	char b[900]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
	TR("VIOLATION %s: %s", tag, b);
	if (g_slot && !g_slot->viol) {
		snprintf(g_slot->tag, sizeof g_slot->tag, "%s", tag); snprintf(g_slot->msg, sizeof g_slot->msg, "%s", b); g_slot->viol = 1;
	}
	W->over = true;
	if (cur) { cur->dead = true; to_sched(true); abort(); }
	longjmp(sched_jmp, 1);
}
void end_run() {
	W->over = true;
	if (cur) { cur->dead = true; to_sched(true); abort(); }
	longjmp(sched_jmp, 1);
}

// ---------------------------------------------------------------- events, time
static bool evlater(const Evt &a, const Evt &b) { return a.t != b.t ? a.t > b.t : a.seq > b.seq; }
void at(ns t, std::function<void()> f) {
	if (t < W->now) t = W->now;
	W->heap.push_back({t, W->seq++, std::move(f)}); std::push_heap(W->heap.begin(), W->heap.end(), evlater);
}
void after(ns d, std::function<void()> f) { at(W->now + (d < 0 ? 0 : d), std::move(f)); }
static void run_due() {
	while (!W->heap.empty() && W->heap.front().t <= W->now && !W->over) {
		std::pop_heap(W->heap.begin(), W->heap.end(), evlater);
		auto f = std::move(W->heap.back().f); W->heap.pop_back(); W->ver++; f();
	}
}
static void deliver_signals() {
	Fiber *f = cur; if (!f || !f->p || f->in_signal || f->p->sigq.empty()) return;
	if (f->p->fibers.empty() || f->p->fibers[0] != f) return;     // signals go to the first thread
	while (!f->p->sigq.empty()) {
		auto s = f->p->sigq.front(); f->p->sigq.pop_front();
		auto &h = f->p->sig[s.first];
		if (s.second >= 0) { if (s.second >= (int)f->p->ptimers.size() || !f->p->ptimers[s.second].used) continue; f->p->ptimers[s.second].pending = false; }
		if (!h.h) { TR("signal %d ignored", s.first); continue; }
		siginfo_t si; memset(&si, 0, sizeof si); si.si_signo = s.first; si.si_code = s.second >= 0 ? SI_TIMER : SI_USER;
		if (s.second >= 0) { si.si_value.sival_ptr = f->p->ptimers[s.second].val; }
		f->in_signal++; int e = f->err; (void)e;
		TR("signal %d delivered", s.first);
		h.h(s.first, &si, nullptr);
		f->in_signal--;
	}
}
static void new_quantum(Fiber *f) {
	switch (W->preempt_mode) {
	case 0: f->quantum = 0; break;                        // runs until it blocks
	case 1: f->quantum = choosew({6, 2, 2}) ; f->quantum = f->quantum == 0 ? 0 : f->quantum == 1 ? 1 + choose(40) : 1 + choose(6); break;
	default: f->quantum = choosew({2, 3, 3}); f->quantum = f->quantum == 0 ? 0 : f->quantum == 1 ? 1 + choose(200) : 1 + choose(8); break;
	}
}
void yield_now() { if (!cur) return; W->switches++; to_sched(false); }
void preempt_point() {
	if (!cur || W->over) return;
	if (cur->quantum && --cur->quantum == 0) { W->fired[F_PREEMPT]++; yield_now(); }
}
void sys_enter(const char *what) {
	if (!cur) return;
	if (W->over) { cur->dead = true; to_sched(true); }
	W->now += US; 
	if (++W->steps > W->steplimit) { W->hung = true; violate("STEPS", "more than %llu simulated calls in one run (last: %s)", (unsigned long long)W->steplimit, what); }
	if (!W->heap.empty() && W->heap.front().t <= W->now) run_due();
	if (cur->dead) { to_sched(true); }
	if (cur->p && !cur->p->sigq.empty()) deliver_signals();
	if (cur->quantum && --cur->quantum == 0) { W->fired[F_PREEMPT]++; yield_now(); }
	if (W->rate[F_STALL] && fault(F_STALL)) { ns d = (ns)(1 + geom(40)) * MS; cur->stall_until = W->now + d; yield_now(); }
}
int block(ReadyFn rf, void *ra, ns deadline, bool intr) {
	Fiber *f = cur; f->timedout = f->interrupted = false;
	if (rf && rf(ra)) return 0;
	if (deadline <= W->now) return 1;
	f->rf = rf; f->ra = ra; f->deadline = deadline; f->interruptible = intr; f->blocked = true;
	to_sched(false);
	if (f->interrupted) { deliver_signals(); return 2; }
	return f->timedout ? 1 : 0;
}
void sleep_ns(ns d) { block(nullptr, nullptr, W->now + d, false); }

static void sched_loop() {
	std::vector<Fiber *> run;
	while (!W->over) {
		run_due(); if (W->over) break;
		run.clear(); ns next = NEVER;
		for (Fiber *f : W->fibers) {
			if (f->dead) continue;
			if (f->stall_until > W->now) { next = std::min(next, f->stall_until); continue; }
			if (f->blocked) {
				bool ok = false;
				if (f->rf && f->rf(f->ra)) ok = true;
				else if (f->interruptible && f->p && !f->p->sigq.empty() && f->p->fibers[0] == f && !f->in_signal) { ok = true; }
				else if (f->deadline <= W->now) ok = true;
				else next = std::min(next, f->deadline);
				if (!ok) continue;
			}
			run.push_back(f);
		}
		if (run.empty()) {
			if (!W->heap.empty()) next = std::min(next, W->heap.front().t);
			if (next == NEVER && W->must_finish) violate("HANG", "deadlock: no thread can run and nothing is pending");
			if (next == NEVER) { W->over = true; TR("nothing left to run"); break; }
			if (next > W->now) W->now = next;
			continue;
		}
		Fiber *f = run[run.size() > 1 ? choose((uint32_t)run.size()) : 0];
		hashmix(0x5000 + f->id);
		if (f->blocked) {
			f->blocked = false; f->timedout = f->interrupted = false;
			if (f->rf && f->rf(f->ra)) {}
			else if (f->interruptible && f->p && !f->p->sigq.empty() && f->p->fibers[0] == f && !f->in_signal) f->interrupted = true;
			else f->timedout = true;
		}
		new_quantum(f);
		to_fiber(f);
	}
}

Proc *new_proc(const std::string &name, uint32_t ip) {
	Proc *p = new Proc; p->id = (int)W->procs.size(); p->name = name; p->ip = ip; p->ips.push_back(ip);
	p->pid = 1000 + p->id; p->uid = 500 + p->id; p->gid = 700 + p->id; W->procs.push_back(p); return p;
}
int add_signal(Proc *p, int signo, int timer) { p->sigq.push_back({signo, timer}); changed(); return 0; }

// ---------------------------------------------------------------- snapshot of the library's static data
extern "C" { extern char __start_pomp_data[] __attribute__((weak)), __stop_pomp_data[] __attribute__((weak)), __start_pomp_bss[] __attribute__((weak)), __stop_pomp_bss[] __attribute__((weak)); }
static std::string snap_data, snap_bss;
static __attribute__((noinline)) void rawcpy(char *d, const char *s, size_t n) { for (size_t i = 0; i < n; i++) ((volatile char *)d)[i] = s[i]; }
static void snapshot() {
	if (__start_pomp_data) { snap_data.resize(__stop_pomp_data - __start_pomp_data); rawcpy(&snap_data[0], __start_pomp_data, snap_data.size()); }
	if (__start_pomp_bss) { snap_bss.resize(__stop_pomp_bss - __start_pomp_bss); rawcpy(&snap_bss[0], __start_pomp_bss, snap_bss.size()); }
}
static void restore() {
	if (__start_pomp_data) rawcpy(__start_pomp_data, snap_data.data(), snap_data.size());
	if (__start_pomp_bss) rawcpy(__start_pomp_bss, snap_bss.data(), snap_bss.size());
}

// ---------------------------------------------------------------- one run
struct Stats { // in shared memory, one per worker
	std::atomic<uint64_t> runs, steps, switches, ops, simus, faults[F_COUNT], nontrivial, foreign, choices;
	uint32_t nprobes; char pname[96][40]; uint64_t pcount[96];
};
static Stats *g_stats;
void kernel_reset(); void race_reset(); 
static uint64_t g_seed; static std::string g_prop;
static uint64_t runseed(uint64_t idx) {
	uint64_t h = mix64(g_seed * 0x9e3779b97f4a7c15ull + 0x1234567);
	for (char c : g_prop) h = mix64(h ^ (uint64_t)c * 0x100000001b3ull);
	return mix64(h ^ (idx + 1) * 0xd6e8feb86659fd93ull);
}
static void do_run(uint64_t idx) {
	restore();
	World w; W = &w; cur = nullptr; c_n = 0; c_pos = 0;
	if (!c_replay) { uint64_t s = runseed(idx); c_s[0] = mix64(s); c_s[1] = mix64(s ^ 0xabcdef) | 1; for (int i = 0; i < 4; i++) rngnext(); }
	g_slot->viol = 0; g_slot->finished = 0; g_slot->tag[0] = 0; g_slot->msg[0] = 0; g_slot->nchoice = 0;
	w.now = 5000 * SEC; 
	struct itimerval it = {{0, 0}, {c_replay ? 20 : 10, 0}}; setitimer(ITIMER_VIRTUAL, &it, nullptr);
	if (setjmp(sched_jmp) == 0) { scenario_run(g_prop.c_str()); sched_loop(); }
	struct itimerval it0 = {{0, 0}, {0, 0}}; setitimer(ITIMER_VIRTUAL, &it0, nullptr);
	g_slot->hash = w.hash; g_slot->steps = w.steps; g_slot->simtime = w.now - 5000 * SEC; g_slot->finished = 1;
	if (g_stats) {
		g_stats->runs++; g_stats->steps += w.steps; g_stats->switches += w.switches; g_stats->ops += w.ops; g_stats->simus += (w.now - 5000 * SEC) / 1000; g_stats->choices += c_n;
		g_slot->nontriv = (w.nfired || w.ops > 2) ? 1 : 0; if (g_slot->nontriv) g_stats->nontrivial++;
		for (int i = 0; i < F_COUNT; i++) g_stats->faults[i] += w.fired[i];
		for (auto &p : w.probes) {
			uint32_t i = 0; for (; i < g_stats->nprobes; i++) if (p.first == g_stats->pname[i]) break;
			if (i == g_stats->nprobes) { if (i >= 96) continue; snprintf(g_stats->pname[i], 40, "%s", p.first.c_str()); g_stats->nprobes++; }
			g_stats->pcount[i] += p.second;
		}
	}
	for (Fiber *f : w.fibers) { stkpool.push_back(f->stk); delete f; }
	kernel_reset(); mem_reset(); race_reset();
	for (Proc *p : w.procs) delete p;
	W = nullptr;
}

// ---------------------------------------------------------------- supervisor
static void on_vtalrm(int) {
	// The code under test has been running without a simulated call for seconds of CPU time.
	if (g_slot && !g_slot->viol) { snprintf(g_slot->tag, 16, "HANG"); snprintf(g_slot->msg, sizeof g_slot->msg, "no progress: CPU time limit of one run exceeded"); g_slot->viol = 1; }
	_exit(96);
}
static void on_fatal(int s) {
	if (g_slot && !g_slot->viol) { snprintf(g_slot->tag, 16, "CRASH"); snprintf(g_slot->msg, sizeof g_slot->msg, "signal %d", s); g_slot->viol = 1; }
	_exit(95);
}
#if defined(SIM_ASAN)
static void on_asan(const char *rep) {
	if (g_slot && !g_slot->viol) {
		snprintf(g_slot->tag, 16, "ASAN"); const char *p = strstr(rep, "ERROR: "); if (!p) p = rep;
		const char *e = strchr(p, '\n'); size_t n = e ? (size_t)(e - p) : strlen(p); if (n > 300) n = 300;
		// addresses differ from run to run: keep the kind only
		std::string s(p, n); size_t q = s.find(" on "); if (q != std::string::npos) s = s.substr(0, q);
		snprintf(g_slot->msg, sizeof g_slot->msg, "%s", s.c_str()); g_slot->viol = 1;
	}
}
#endif
static void install() {
	static char alt[65536]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_vtalrm; sa.sa_flags = SA_ONSTACK; sigaction(SIGVTALRM, &sa, nullptr);
#if defined(SIM_ASAN)
	__asan_set_error_report_callback(on_asan);
#else
	sa.sa_handler = on_fatal; sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); sigaction(SIGABRT, &sa, nullptr); sigaction(SIGILL, &sa, nullptr); sigaction(SIGFPE, &sa, nullptr);
#endif
	signal(SIGPIPE, SIG_IGN);
}
static void *shm(size_t n) { void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(98); } return p; }
static double rtime() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static std::string jesc(const char *s) { std::string r; for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static void put_choices(FILE *o, const uint32_t *c, uint32_t n) {
	// runs of equal values are written v*count
	for (uint32_t i = 0; i < n;) { uint32_t j = i; while (j < n && c[j] == c[i]) j++; if (j - i > 1) fprintf(o, "%u*%u ", c[i], j - i); else fprintf(o, "%u ", c[i]); i = j; }
}
static std::vector<uint32_t> get_choices(const char *path, std::string *prop) {
	std::vector<uint32_t> r; FILE *f = fopen(path, "r"); if (!f) { perror(path); exit(98); }
	char b[256];
	while (fscanf(f, "%255s", b) == 1) {
		if (b[0] == '#') { int c; while ((c = fgetc(f)) != EOF && c != '\n') {} continue; }
		if (!strncmp(b, "property=", 9)) { if (prop) *prop = b + 9; continue; }
		if (!strncmp(b, "seed=", 5) || !strncmp(b, "run=", 4) || !strncmp(b, "choices:", 8)) continue;
		char *e; unsigned long v = strtoul(b, &e, 10); unsigned long k = 1; if (*e == '*') k = strtoul(e + 1, nullptr, 10);
		if (k > MAXCH) k = MAXCH;
		for (unsigned long i = 0; i < k; i++) r.push_back((uint32_t)v);
	}
	fclose(f); return r;
}
static Slot *new_slots(int n) { return (Slot *)shm(sizeof(Slot) * n); }

// Runs `n` isolated attempts (each in a child); used by one/replay/shrink.
static RunRes run_child(bool replay, const std::vector<uint32_t> &in, uint64_t idx, std::vector<uint32_t> *out) {
	static Slot *s = new_slots(1); static uint32_t *cb = (uint32_t *)shm(MAXCH * 4);
	memset((void *)s, 0, sizeof *s); fflush(stdout); fflush(stderr);
	pid_t p = fork();
	if (p == 0) {
		if (!g_trace) { int d = open("/dev/null", O_WRONLY); if (d >= 0) { if (!getenv("SIM_SHOW")) dup2(d, 2); } }
		g_slot = s; g_chbuf = cb; install(); c_replay = replay; c_in = in; do_run(idx); fflush(stderr); _exit(0);
	}
	int st = 0; waitpid(p, &st, 0);
	if (!s->finished && !s->viol) { snprintf(s->tag, 16, "CRASH"); if (WIFSIGNALED(st)) snprintf(s->msg, 100, "killed by signal %d", WTERMSIG(st)); else snprintf(s->msg, 100, "exit status %d", WEXITSTATUS(st)); s->viol = 1; }
	RunRes r{s->viol != 0, s->tag, s->msg, s->hash, s->steps, s->simtime};
	if (!s->finished) r.hash = 0;
	if (out) out->assign(cb, cb + s->nchoice.load());
	return r;
}

int main(int argc, char **argv) {
	std::string mode = argc > 1 ? argv[1] : ""; double tlimit = 20; int workers = 8; uint64_t maxruns = UINT64_MAX, start = 0; std::string outp = "", file = ""; uint64_t idx = 0; std::string tags; int maxviol = 3; uint64_t chunk = 1500;
	g_seed = 1;
	for (int i = 2; i < argc; i++) {
		std::string a = argv[i]; auto nx = [&]() { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
		if (a == "--prop") g_prop = nx(); else if (a == "--seed") g_seed = strtoull(nx().c_str(), 0, 10); else if (a == "--time") tlimit = atof(nx().c_str());
		else if (a == "--workers") workers = atoi(nx().c_str()); else if (a == "--runs") maxruns = strtoull(nx().c_str(), 0, 10); else if (a == "--start") start = strtoull(nx().c_str(), 0, 10);
		else if (a == "--out") outp = nx(); else if (a == "--file") file = nx(); else if (a == "--idx") idx = strtoull(nx().c_str(), 0, 10); else if (a == "--trace") g_trace = true;
		else if (a == "--tags") tags = nx(); else if (a == "--maxviol") maxviol = atoi(nx().c_str());
	}
	snapshot();
	if (mode == "one" || mode == "replay") {
		std::vector<uint32_t> in, out; std::string pr;
		if (mode == "replay") { in = get_choices(file.c_str(), &pr); if (g_prop.empty()) g_prop = pr; }
		RunRes r = run_child(mode == "replay", in, idx, &out);
		printf("{\"viol\":%d,\"tag\":\"%s\",\"msg\":\"%s\",\"hash\":\"%016llx\",\"steps\":%llu,\"nchoices\":%zu,\"simtime\":%.6f}\n", r.viol, jesc(r.tag.c_str()).c_str(), jesc(r.msg.c_str()).c_str(), (unsigned long long)r.hash, (unsigned long long)r.steps, out.size(), r.simtime / 1e9);
		if (!outp.empty()) { FILE *o = fopen(outp.c_str(), "w"); fprintf(o, "property=%s\nseed=%llu run=%llu\nchoices:\n", g_prop.c_str(), (unsigned long long)g_seed, (unsigned long long)idx); put_choices(o, out.data(), (uint32_t)out.size()); fprintf(o, "\n"); fclose(o); }
		return 0;
	}
	if (mode == "hash") { // determinism: hash of each of --runs runs, spread over --workers processes
		int n = (int)maxruns; uint64_t *h = (uint64_t *)shm(n * 8); std::atomic<uint64_t> *nx = new (shm(64)) std::atomic<uint64_t>(0);
		for (int w = 0; w < workers; w++) if (fork() == 0) {
			g_slot = new_slots(1); g_chbuf = (uint32_t *)shm(MAXCH * 4); install(); if (!getenv("SIM_SHOW")) { int d = open("/dev/null", O_WRONLY); dup2(d, 2); }
			for (;;) { uint64_t k = (*nx)++; if ((int)k >= n) break; do_run(start + k); h[k] = g_slot->hash; }
			_exit(0);
		}
		while (wait(nullptr) > 0) {}
		for (int i = 0; i < n; i++) printf("%llu %016llx\n", (unsigned long long)(start + i), (unsigned long long)h[i]);
		return 0;
	}
	if (mode == "shrink") { // --file in --out out --tags tag : minimises the choice list, same tag
		std::vector<uint32_t> best = get_choices(file.c_str(), &g_prop), o; RunRes r0 = run_child(true, best, 0, &o);
		std::string tag = r0.tag; if (!r0.viol) { printf("{\"ok\":0}\n"); return 0; }
		auto trim = [](std::vector<uint32_t> &v) { while (!v.empty() && v.back() == 0) v.pop_back(); };
		best = o; trim(best); double t0 = rtime(); int tries = 0;
		auto cost = [](const std::vector<uint32_t> &v) { uint64_t nz = 0; for (auto x : v) nz += x != 0; return std::make_pair(nz, (uint64_t)v.size()); };
		auto attempt = [&](std::vector<uint32_t> v) {
			trim(v); if (rtime() - t0 > tlimit) return false; tries++;
			std::vector<uint32_t> oo; RunRes r = run_child(true, v, 0, &oo);
			if (!r.viol || r.tag != tag) return false;
			trim(oo); if (oo.size() > v.size() && cost(oo) > cost(v)) oo = v;
			if (cost(oo) >= cost(best)) return false;
			best = oo; return true;
		};
		bool prog = true;
		while (prog && rtime() - t0 < tlimit) {
			prog = false;
			for (size_t sz = std::max<size_t>(1, best.size() / 2); sz >= 1; sz /= 2) {
				for (size_t i = 0; i < best.size() && rtime() - t0 < tlimit;) {
					size_t e = std::min(best.size(), i + sz); bool nz = false; for (size_t k = i; k < e; k++) nz |= best[k] != 0;
					auto v = best;
					if (nz) { std::fill(v.begin() + i, v.begin() + e, 0); if (attempt(v)) { prog = true; i = e; continue; } }
					if (sz <= 64) { v = best; v.erase(v.begin() + i, v.begin() + e); if (attempt(v)) { prog = true; continue; } }
					i += sz;
				}
				if (sz == 1) break;
			}
			for (size_t i = 0; i < best.size() && rtime() - t0 < tlimit; i++) if (best[i] > 1) {
				auto v = best; v[i] = 1; if (attempt(v)) { prog = true; continue; }
				v = best; v[i] = best[i] / 2; if (attempt(v)) prog = true;
			}
		}
		FILE *of = fopen(outp.c_str(), "w"); fprintf(of, "property=%s\nchoices:\n", g_prop.c_str()); put_choices(of, best.data(), (uint32_t)best.size()); fprintf(of, "\n"); fclose(of);
		auto c = cost(best); printf("{\"ok\":1,\"tries\":%d,\"choices\":%llu,\"nonzero\":%llu}\n", tries, (unsigned long long)c.second, (unsigned long long)c.first);
		return 0;
	}
	if (mode != "batch") { fprintf(stderr, "usage: sim batch|one|replay|shrink|hash ...\n"); return 98; }
	// batch: workers take run indexes from a shared counter until the time is over.
	Slot *slots = new_slots(workers); Stats *stats = (Stats *)shm(sizeof(Stats) * workers); std::atomic<uint64_t> *nx = new (shm(64)) std::atomic<uint64_t>(start);
	// distinct-run sketch: bitmap of 2^26 bits of run hashes
	const uint64_t BM = 1ull << 26; uint8_t *bm = (uint8_t *)shm(BM / 8); std::atomic<uint64_t> *distinct = new (shm(64)) std::atomic<uint64_t>(0);
	double t0 = rtime(); std::vector<pid_t> pids(workers, 0); auto match = [&](const char *t) {
		if (tags.empty() || tags == "*") return true; if (!strcmp(t, "ASAN") || !strcmp(t, "CRASH") || !strcmp(t, "HANG") || !strcmp(t, "STEPS") || !strcmp(t, g_prop.c_str())) return true;
		std::string x = "," + tags + ","; return x.find("," + std::string(t) + ",") != std::string::npos; };
	struct V { uint64_t idx; std::string tag, msg; }; std::vector<V> viols; std::map<std::string, uint64_t> foreign;
	struct VRec { std::atomic<uint32_t> n; struct { uint64_t idx; char tag[16]; char msg[300]; } v[256]; }; VRec *vr = (VRec *)shm(sizeof(VRec));
	auto launch = [&](int w) {
		memset((void *)&slots[w], 0, sizeof(Slot)); fflush(stdout);
		pid_t p = fork(); if (p) { pids[w] = p; return; }
		int d = open("/dev/null", O_WRONLY); dup2(d, 2);
		g_slot = &slots[w]; g_chbuf = (uint32_t *)shm(MAXCH * 4); g_stats = &stats[w]; install();
		for (uint64_t n = 0; n < chunk; n++) {
			if (rtime() - t0 > tlimit) break;
			uint64_t k = (*nx)++; if (k - start >= maxruns) break;
			g_slot->idx = k; g_slot->running = 1; do_run(k); g_slot->running = 0;
			if (g_slot->nontriv) { uint64_t b = mix64(g_slot->hash) % BM; uint8_t m = 1 << (b & 7); uint8_t old = __atomic_fetch_or(&bm[b >> 3], m, __ATOMIC_RELAXED); if (!(old & m)) (*distinct)++; }
			if (g_slot->viol) { uint32_t q = vr->n++; if (q < 256) { vr->v[q].idx = k; snprintf(vr->v[q].tag, 16, "%s", g_slot->tag); snprintf(vr->v[q].msg, 300, "%s", g_slot->msg); } }
		}
		_exit(0);
	};
	for (int w = 0; w < workers; w++) launch(w);
	int nlive = workers; bool stop = false;
	while (nlive > 0) {
		int st; pid_t p = wait(&st); if (p <= 0) break; int w = -1; for (int i = 0; i < workers; i++) if (pids[i] == p) w = i; if (w < 0) continue;
		bool crashed = !stop && slots[w].running && !(WIFEXITED(st) && WEXITSTATUS(st) == 0 && slots[w].finished);
		if (crashed) {
			uint32_t q = vr->n++; if (q < 256) { vr->v[q].idx = slots[w].idx; snprintf(vr->v[q].tag, 16, "%s", slots[w].viol ? slots[w].tag : "CRASH"); if (slots[w].viol) snprintf(vr->v[q].msg, 300, "%s", slots[w].msg); else snprintf(vr->v[q].msg, 300, "worker ended: status %x", st); }
		}
		int nm = 0; for (uint32_t i = 0; i < std::min<uint32_t>(vr->n, 256); i++) if (match(vr->v[i].tag)) nm++;
		if (nm >= maxviol || vr->n >= 250) stop = true;
		if (!stop && rtime() - t0 < tlimit && nx->load() - start < maxruns) launch(w); else { nlive--; pids[w] = 0; }
		if (stop) for (int i = 0; i < workers; i++) if (pids[i] > 0) kill(pids[i], SIGKILL);
	}
	for (uint32_t i = 0; i < std::min<uint32_t>(vr->n, 256); i++) { if (match(vr->v[i].tag)) viols.push_back({vr->v[i].idx, vr->v[i].tag, vr->v[i].msg}); else foreign[vr->v[i].tag]++; }
	std::sort(viols.begin(), viols.end(), [](const V &a, const V &b) { return a.idx < b.idx; });
	uint64_t S[7] = {0}; uint64_t F[F_COUNT] = {0}; std::map<std::string, uint64_t> P;
	for (int w = 0; w < workers; w++) { auto &s = stats[w]; S[0] += s.runs; S[1] += s.steps; S[2] += s.switches; S[3] += s.ops; S[4] += s.simus; S[5] += s.nontrivial; S[6] += s.choices; for (int i = 0; i < F_COUNT; i++) F[i] += s.faults[i]; for (uint32_t i = 0; i < s.nprobes; i++) P[s.pname[i]] += s.pcount[i]; }
	printf("{\"wall\":%.2f,\"runs\":%llu,\"steps\":%llu,\"switches\":%llu,\"ops\":%llu,\"sim_seconds\":%.1f,\"nontrivial\":%llu,\"choices\":%llu,\"distinct\":%llu,\"faults\":{", rtime() - t0, (unsigned long long)S[0], (unsigned long long)S[1], (unsigned long long)S[2], (unsigned long long)S[3], S[4] / 1e6, (unsigned long long)S[5], (unsigned long long)S[6], (unsigned long long)distinct->load());
	bool first = true; for (int i = 0; i < F_COUNT; i++) if (F[i]) { printf("%s\"%s\":%llu", first ? "" : ",", fault_names[i], (unsigned long long)F[i]); first = false; }
	printf("},\"probes\":{"); first = true; for (auto &p : P) { printf("%s\"%s\":%llu", first ? "" : ",", p.first.c_str(), (unsigned long long)p.second); first = false; }
	printf("},\"foreign\":{"); first = true; for (auto &p : foreign) { printf("%s\"%s\":%llu", first ? "" : ",", p.first.c_str(), (unsigned long long)p.second); first = false; }
	printf("},\"violations\":["); first = true; for (auto &v : viols) { printf("%s{\"idx\":%llu,\"tag\":\"%s\",\"msg\":\"%s\"}", first ? "" : ",", (unsigned long long)v.idx, jesc(v.tag.c_str()).c_str(), jesc(v.msg.c_str()).c_str()); first = false; }
	printf("]}\n"); return 0;
}
