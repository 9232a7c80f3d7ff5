// Deterministic simulator: core declarations.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <deque>
#include <list>
#include <map>
#include <set>
#include <unordered_map>
#include <functional>
#include <algorithm>
#include <initializer_list>
#include <sys/socket.h>
#include <sys/un.h>
#include <netinet/in.h>

typedef int64_t ns;
constexpr ns US = 1000, MS = 1000000, SEC = 1000000000;
constexpr ns NEVER = INT64_MAX;

struct Proc; struct Fiber; struct File;

// ---------------------------------------------------------------- choices
uint32_t choose(uint32_t n);                                  // uniform in 0..n-1
uint32_t choosew(std::initializer_list<uint32_t> weights);    // weighted index
bool chance(uint32_t per10k);                                 // 1 with that probability
uint32_t range(uint32_t lo, uint32_t hi);                     // lo + choose(hi-lo+1)
uint32_t geom(uint32_t maxv);                                 // mostly small value
template<class T> T pick(std::initializer_list<T> l) { return *(l.begin() + choose((uint32_t)l.size())); }
uint64_t mix64(uint64_t x);

// ---------------------------------------------------------------- faults
enum Fault {
	F_SHORT_WRITE, F_SHORT_READ, F_EINTR, F_SOCKBUF_FULL, F_ALLOC, F_EMFILE, F_ENFILE, F_ENOBUFS,
	F_EPOLL_ADD, F_EPOLL_MOD, F_ACCEPT, F_CONNECT, F_BIND, F_LISTEN, F_SETSOCKOPT, F_SOCKNAME, F_SOCKERR, F_FCNTL, F_CHMOD,
	F_PIPE, F_EVENTFD, F_TIMER, F_TIMERSET, F_THREAD, F_POLL, F_WRITE_ERR, F_READ_ERR, F_WAKE_WRITE, F_DUP,
	F_RST, F_PARTITION, F_CRASH, F_POWERLOSS, F_STALL, F_LATENCY, F_ADDR_DOWN, F_SPURIOUS_WAKE, F_PREEMPT,
	F_UDP_LOSS, F_UDP_DUP, F_UDP_REORDER, F_UDP_TRUNC, F_UDP_CORRUPT, F_UDP_ICMP, F_UDP_SENDERR, F_READY_ORDER, F_BACKLOG,
	F_OVERRUN, F_SIGNAL, F_HOSTILE, F_CLOCK_JUMP, F_MAXFDS, F_MEMLIMIT, F_COUNT
};
extern const char *fault_names[F_COUNT];
bool fault(Fault f);          // may be drawn; counted when it fires
void fault_fired(Fault f);    // count one decided otherwise
struct NoFault { NoFault(); ~NoFault(); };  // scope in which no call fails (harness own calls)

// ---------------------------------------------------------------- fibers
typedef bool (*ReadyFn)(void *);
struct Fiber {
	int id = 0; Proc *p = nullptr; const char *name = "";
	void *sp = nullptr; char *stk = nullptr; size_t stksz = 0; void *fake = nullptr;
	std::function<void()> fn;
	bool dead = false, started = false, blocked = false, timedout = false, interrupted = false, interruptible = false, finished = false;
	ReadyFn rf = nullptr; void *ra = nullptr; ns deadline = NEVER; ns stall_until = 0;
	int err = 0; uint32_t quantum = 0; int in_signal = 0; int inlib = 0;
	uint64_t tid = 0; void *retval = nullptr; bool detached = false; const char *noblock = nullptr; ns t_waitret = 0; // tag violated if a call made by the library blocks
	// race detector state
	std::vector<uint32_t> vc; std::vector<void *> cs;
};
struct Proc {
	int id = 0; std::string name; bool alive = true; int gen = 0;
	uint32_t ip = 0; std::vector<uint32_t> ips; ns ip_up_at = 0;
	struct Ent { File *f = nullptr; bool cloexec = false; int owner = 0; uint64_t seq = 0; const char *how = ""; };
	std::vector<Ent> fds; int fdlimit = 1024;
	int pid = 0, uid = 0, gid = 0; 
	std::vector<Fiber *> fibers;
	struct Sig { void (*h)(int, void *, void *) = nullptr; int flags = 0; } sig[65];
	std::deque<std::pair<int, int>> sigq;  // signo, timer id
	struct PTimer { bool used = false; int signo = 0; void *val = nullptr; ns next = 0, interval = 0; bool pending = false; uint64_t gen = 0; int clk = 1; };
	std::vector<PTimer> ptimers;
	std::string *out = nullptr; bool tool = false; std::function<void(int)> on_exit; // the command line tool: what it prints, signals may interrupt it in malloc() and free()
	size_t mem = 0, memlimit = SIZE_MAX; uint32_t umask_ = 022;
	void *user = nullptr;
};
enum { OWN_LIB = 1, OWN_APP = 2 };
struct Evt { ns t; uint64_t seq; std::function<void()> f; };

struct World {
	ns now = 0, rt_off = 0; uint64_t seq = 0, steps = 0, steplimit = 400000, hash = 0xcbf29ce484222325ull;
	std::vector<Evt> heap; std::vector<Fiber *> fibers; std::vector<Proc *> procs;
	uint64_t ver = 0;                 // bumped at each change of kernel state
	bool over = false; bool faults_on = false; int nofault = 0; const char *env = nullptr; std::string envname; // environment variable of the application
	uint32_t rate[F_COUNT] = {0}; uint32_t fired[F_COUNT] = {0}; uint64_t nfired = 0;
	std::map<std::string, uint32_t> probes;
	uint64_t switches = 0; uint32_t preempt_mode = 0; uint32_t nextfile = 1; uint64_t nextino = 1;
	uint64_t ops = 0;    // application-level operations of the workload
	ns clk_round = 0, clk_lat = 0; // a clock read may be delayed up to the next multiple of this
	bool hung = false; bool must_finish = false; // running out of runnable threads is a deadlock
};
extern World *W; extern Fiber *cur; extern bool g_trace;
extern bool g_buildB;
void probe(const char *name);
void hashmix(uint64_t v);
void tracef(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define TR(...) do { if (__builtin_expect(g_trace, 0)) tracef(__VA_ARGS__); } while (0)
[[noreturn]] void violate(const char *tag, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void end_run();                    // ends the run without a violation (scenario complete)
[[noreturn]] void fiber_exit();
void at(ns t, std::function<void()> f);
void after(ns d, std::function<void()> f);
Fiber *spawn(Proc *p, const char *name, std::function<void()> fn);
Proc *new_proc(const std::string &name, uint32_t ip);
void kill_proc(Proc *p, bool silent);           // silent: power loss, peers are not told
void sys_enter(const char *what);               // each simulated call begins with this
void preempt_point();
int block(ReadyFn rf, void *ra, ns deadline, bool interruptible); // 0 ready 1 timeout 2 interrupted
template<class F> int block_until(F f, ns deadline = NEVER, bool intr = false) {
	return block([](void *a) { return (*(F *)a)(); }, (void *)&f, deadline, intr);
}
void sleep_ns(ns d);
void yield_now();
inline void changed() { W->ver++; }
int add_signal(Proc *p, int signo, int timer);

// scenarios
struct Scenario { const char *name; void (*fn)(const char *prop); };
void scenario_run(const char *prop);
const char *scenario_for(const char *prop);

// ---------------------------------------------------------------- memory (libc side)
void *mem_alloc(size_t n, bool zero, bool canfail);
void mem_free(void *p);
void *mem_realloc(void *p, size_t n);
size_t mem_live(Proc *p, std::string *desc);
void mem_release_proc(Proc *p);
void mem_reset();
size_t mem_count_total();
bool mem_is_live(void *p);
