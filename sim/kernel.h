// Simulated kernel: files, sockets, timers, epoll/poll.
#pragma once
#include "sim.h"
#include <errno.h>
#include <sys/epoll.h>
#include <poll.h>
#include <fcntl.h>
#include <time.h>
#include <sys/uio.h>

enum Kind { K_TAG, K_PIPE_R, K_PIPE_W, K_EVENTFD, K_TIMERFD, K_EPOLL, K_STREAM, K_DGRAM };
struct Epoll;
struct File {
	Kind kind; int refs = 1; uint32_t id; bool nonblock = false; uint32_t accmode = O_RDWR; Proc *creator = nullptr; bool dead = false;
	std::vector<Epoll *> eps;
	explicit File(Kind k);
	virtual ~File() {}
	virtual uint32_t poll() { return EPOLLIN | EPOLLOUT; }
	virtual ssize_t read(char *, size_t) { return -EINVAL; }
	virtual ssize_t write(const char *, size_t) { return -EINVAL; }
	virtual bool can_read() { return true; }    // for blocking files
	virtual bool can_write(size_t) { return true; }
	virtual void release() {}
};
void file_get(File *f); void file_put(File *f);

struct TagFile : File { int tag; TagFile(int t) : File(K_TAG), tag(t) {} uint32_t poll() override { return pollmask; } uint32_t pollmask = EPOLLIN | EPOLLOUT; ssize_t read(char *, size_t) override { return 0; } ssize_t write(const char *, size_t n) override { return n; } };
struct PipeBuf { std::deque<char> q; size_t cap = 65536; int readers = 0, writers = 0; };
struct PipeEnd : File {
	PipeBuf *b; PipeEnd(PipeBuf *pb, bool w) : File(w ? K_PIPE_W : K_PIPE_R), b(pb) {}
	uint32_t poll() override; ssize_t read(char *, size_t) override; ssize_t write(const char *, size_t) override; void release() override;
	bool can_read() override { return !b->q.empty() || !b->writers; } bool can_write(size_t n) override { return !b->readers || b->cap - b->q.size() >= (n < 4096 ? n : 1); }
};
struct EventFd : File {
	uint64_t cnt = 0; bool sem = false; EventFd() : File(K_EVENTFD) {}
	uint32_t poll() override { return (cnt ? EPOLLIN : 0) | (cnt < UINT64_MAX - 1 ? EPOLLOUT : 0); }
	ssize_t read(char *, size_t) override; ssize_t write(const char *, size_t) override;
	bool can_read() override { return cnt > 0; }
};
struct TimerFd : File {
	int clk = 1; ns next = 0, interval = 0; uint64_t ticks = 0, gen = 0; TimerFd() : File(K_TIMERFD) {}
	uint32_t poll() override { return ticks ? EPOLLIN : 0; } ssize_t read(char *, size_t) override; bool can_read() override { return ticks > 0; }
	void arm(); void release() override { gen++; }
};
struct Epoll : File {
	struct Item { int fd; File *f; uint32_t ev; uint64_t data; uint64_t seq; bool disabled = false; uint32_t last = 0; };
	std::vector<Item> items; Epoll() : File(K_EPOLL) {}
	uint32_t poll() override; void release() override; bool any();
};
struct Seg { std::string d; size_t off = 0; std::vector<File *> fds; ns arr = 0; bool fin = false, rst = false; bool hadfds = false; };
struct Dir {
	std::deque<Seg> fly, q; size_t nb = 0, cap = 4096; ns last_arr = 0; uint64_t wtotal = 0, rtotal = 0;
	bool fin_sent = false, fin_arr = false; uint64_t lost = 0; bool pump_scheduled = false; uint64_t epipe = 0; ns last_write = 0; ns t_fly = 0; // t_fly: last time something was known to be in flight
};
struct Stream;
struct Conn {
	int id; bool un; Stream *s[2] = {nullptr, nullptr}; Dir d[2]; Proc *host[2] = {nullptr, nullptr}; int hostgen[2] = {0, 0};
	bool reset = false; bool vanished[2] = {false, false}; bool clean_close[2] = {false, false}; ns t_reset = 0; bool rst_sent[2] = {false, false};
	ns last_rx[2] = {0, 0}; int probes[2] = {0, 0}; uint64_t kagen[2] = {0, 0}; ns t_est[2] = {0, 0};
	bool accepted = false; void *user[2] = {nullptr, nullptr}; bool fds_plain_read = false; int werrs[2] = {0, 0};
	bool ka_fired[2] = {false, false}; bool rto_fired[2] = {false, false};
	bool injected_err[2] = {false, false}; // an injected write/read error on this side
};
struct Stream : File {
	enum St { NEW, LISTEN, CONNECTING, EST, CLOSED } st = NEW; int family; bool bound = false;
	sockaddr_storage local{}, peer{}; socklen_t llen = 0, plen = 0; int soerr = 0;
	bool reuse = false; int ka = 0, ka_idle = 7200, ka_intvl = 75, ka_cnt = 9; int ka_sets = 0;
	std::deque<Stream *> acceptq; int backlog = 0; uint64_t ngen = 0; std::string path; bool unix_path_owner = false;
	Conn *c = nullptr; int side = 0; bool shut_wr = false, shut_rd = false; bool unconnected_inprogress = false;
	struct { int pid, uid, gid; } pcred{}; ns t_connect = 0; bool pkt_info = false; uint32_t nread_calls = 0;
	Stream(int fam) : File(K_STREAM), family(fam) {} Proc *lhost = nullptr; int fds_lost = 0; uint64_t ino = 0; bool host_match(Proc *p) { return lhost == p; }
	uint32_t poll() override; ssize_t read(char *, size_t) override; ssize_t write(const char *, size_t) override; void release() override;
	ssize_t do_recv(char *b, size_t n, std::vector<File *> *fds, bool peek = false); ssize_t do_send(const char *b, size_t n, std::vector<File *> *fds);
	bool can_read() override; bool can_write(size_t) override; bool writable();
};
struct Dg { std::string d; sockaddr_storage src; socklen_t slen; uint32_t dstip; uint64_t uid; std::vector<File *> fds; bool altered = false; };
struct Dgram : File {
	int family; sockaddr_storage local{}; socklen_t llen = 0; bool bound = false, reuse = false, pkt_info = false; std::deque<Dg> q; size_t qcap = 64; ns blocked_until = 0; int soerr = 0; Proc *host = nullptr; int outq = 0; std::string path; uint64_t fds_lost = 0;
	Dgram(int fam) : File(K_DGRAM), family(fam) {}
	uint32_t poll() override; void release() override; ssize_t read(char *, size_t) override; bool can_read() override { return !q.empty() || soerr; }
};

struct Link { bool cut = false; ns lat = 50 * US, var = 0; };
struct PathNode { std::string path; uint32_t mode; File *sock; uint64_t ino; int maker; };

// kernel-wide observation points for the oracles
struct Hooks {
	std::function<void(Proc *, Stream *)> on_connect_attempt;      // connect() called by the library
	std::function<void(Proc *, Dgram *, const Dg &, const sockaddr_storage &, socklen_t)> on_sendto; // datagram accepted by the kernel
	std::function<void(Proc *, Dgram *, const std::string &, const sockaddr_storage &, socklen_t, int)> on_sendfail; // a datagram the kernel refuses for good
	std::function<void(Proc *, Dgram *, const Dg &, const std::string &, const std::vector<File *> &, bool)> on_dgram_recv; // datagram taken by the library: what it got of it
	std::function<void(Proc *, int, File *, ssize_t)> on_lib_recv;          // bytes taken by the library from a stream
};
struct Kernel {
	std::vector<File *> all; std::vector<Conn *> conns; std::map<std::pair<int, int>, Link> links; std::map<std::string, PathNode> paths; std::map<std::string, Stream *> abstract; std::map<std::string, Dgram *> abstract_dg;
	std::vector<Stream *> listeners; std::vector<Dgram *> dgrams; std::map<uint64_t, ns> timewait; uint16_t eph = 33000; std::vector<PipeBuf *> pipes;
	ns lat_default = 50 * US, var_default = 0; size_t cap_tcp = 65536, cap_unix = 65536; size_t pipe_cap = 65536; ns syn_timeout = 5 * SEC; bool split_segs = false;
	uint64_t fdseq = 1; ns rto_fail = 900 * SEC; uint64_t dguid = 1; uint64_t enfile_left = 0; Hooks hooks; int conn_attempts = 0; int nconns_est = 0; bool ready_random = false;
	size_t dgram_qcap = 64; bool strict_fd = true; uint64_t closes = 0;
};
extern Kernel *K;
Link &link_of(Proc *a, Proc *b);
void link_cut(Proc *a, Proc *b, bool cut);
Proc *host_of_ip(uint32_t ip);
void conn_reset(Conn *c, int from);     // RST now seen by side 1-from (after what is in flight), from<0: both
void conn_abort_both(Conn *c, int err0, int err1);

// file descriptors
int fd_alloc(Proc *p, File *f, bool cloexec, int owner, const char *how);
File *fd_file(Proc *p, int fd);
int owner_now();
// system calls: return value or -errno
int k_close(Proc *, int); int k_dup(Proc *, int, int minfd, bool cloexec); int k_socket(Proc *, int, int, int); int k_bind(Proc *, int, const sockaddr *, socklen_t);
int k_listen(Proc *, int, int); int k_accept(Proc *, int, sockaddr *, socklen_t *, int flags); int k_connect(Proc *, int, const sockaddr *, socklen_t);
int k_shutdown(Proc *, int, int); int k_getsockname(Proc *, int, sockaddr *, socklen_t *); int k_getpeername(Proc *, int, sockaddr *, socklen_t *);
int k_setsockopt(Proc *, int, int, int, const void *, socklen_t); int k_getsockopt(Proc *, int, int, int, void *, socklen_t *);
ssize_t k_read(Proc *, int, void *, size_t); ssize_t k_write(Proc *, int, const void *, size_t); ssize_t k_sendmsg(Proc *, int, const msghdr *, int); ssize_t k_recvmsg(Proc *, int, msghdr *, int);
ssize_t k_sendto(Proc *, int, const void *, size_t, int, const sockaddr *, socklen_t);
int k_fcntl(Proc *, int, int, long); int k_epoll_create(Proc *, int); int k_epoll_ctl(Proc *, int, int, int, const epoll_event *); int k_epoll_wait(Proc *, int, epoll_event *, int, ns deadline);
int k_poll(Proc *, pollfd *, unsigned, ns deadline); int k_eventfd(Proc *, unsigned, int); int k_timerfd_create(Proc *, int, int); int k_timerfd_settime(Proc *, int, int, const itimerspec *, itimerspec *);
int k_pipe(Proc *, int[2], int); int k_unlink(Proc *, const char *); int k_chmod(Proc *, const char *, uint32_t);
int k_timer_create(Proc *, int clk, int signo, void *val, int *id); int k_timer_delete(Proc *, int id); int k_timer_settime(Proc *, int id, int flags, const itimerspec *, itimerspec *);
bool lf(Fault f); // fault inside a call made by the library
struct LibCall { Fiber *f; LibCall() : f(cur) { if (f) f->inlib++; } ~LibCall() { if (f) f->inlib--; } };
std::string leak_report(Proc *p, int owner);
