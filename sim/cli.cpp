// Scenario on the command line tool (C24): one simulated process runs the tool's main() with random options, message and
// addresses; raw peers accept its connections, connect to it or exchange datagrams with it, and signals arrive at any moment.
#define MSG_NO_SCENARIO
#include "msg.cpp"
#include <signal.h>
extern "C" int pomp_cli_main(int, char **);
namespace cl {
using mg::Arg;
struct Sess { Conn *k = nullptr; Stream *s = nullptr; Proc *p = nullptr; int fd = -1; std::string rx, out; size_t off = 0; std::vector<size_t> ends; bool eof = false, closed = false, stuck = false, early = false, bad = false; int side = 0; ns t_w = 0, t_stop = 0; };
struct Link_ { pomp_conn *pc; Conn *k; int side; bool up = true; ns t_up = 0; size_t nmsg = 0; };
struct C_ {
	Proc *p = nullptr; bool udp = false, server = false, dump = false, wait = false, help = false, bad = false, hasmsg = false, validmsg = false, retried = false; int T = -1; uint32_t waitid = 0, id = 0; int fam = AF_INET;
	sockaddr_storage addr{}, to{}; socklen_t alen = 0, tolen = 0; std::string path; std::string B; std::vector<std::string> argv;
	std::vector<Proc *> peers; std::vector<Sess *> sess; std::map<std::string, std::string> texts; std::deque<Link_> links; std::vector<std::string> dgrams; bool bound0 = false; uint64_t dsent = 0, dmsgs = 0;
	pomp_event_cb_t cb = nullptr; pomp_ctx *ctx = nullptr; bool started = false, done = false, over = false; int rc = -1; ns t0 = 0, t_done = 0; std::string out;
	ns D = NEVER, t_sig = NEVER, t_wait = NEVER, t_sent = NEVER; uint32_t nev = 0, flt = 0; bool passed = false; uint64_t sockets0 = 0; bool incb = false;
};
static C_ *C;
#define VC(...) violate("C24", __VA_ARGS__)
static bool resource_faults() { return W->fired[F_ALLOC] || W->fired[F_MEMLIMIT] || W->fired[F_EMFILE] || W->fired[F_ENFILE] || W->fired[F_TIMER] || W->fired[F_TIMERSET] || W->fired[F_EPOLL_ADD] || W->fired[F_EPOLL_MOD] || W->fired[F_POLL] || W->fired[F_PIPE] || W->fired[F_EVENTFD] || W->fired[F_FCNTL] || W->fired[F_ACCEPT]; }
static bool broken(Conn *k, int side) { return k->reset || k->werrs[side] || k->injected_err[side] || k->vanished[1 - side] || k->s[1 - side] == nullptr || k->d[1 - side].fin_sent || k->rto_fired[side]; }
static bool send_only() { return !C->dump && !C->wait; }
// What the tool asked for has happened: it may end (now) / it has to.
static bool may_end(std::string *why) {
	if (C->t_sig != NEVER) return true; if (C->t_wait != NEVER) return true; if (C->passed || W->now >= C->D) return true;
	if (send_only()) {
		if (C->udp) return true; if (C->links.empty()) { *why = "no connection was made yet"; return false; }
		Link_ &l = C->links[0]; if (!C->validmsg || broken(l.k, l.side) || resource_faults()) return true;
		if (l.k->d[l.side].wtotal >= C->B.size()) return true; *why = "its message is only partly sent"; return false;
	}
	*why = C->wait ? "the awaited message has not come" : "it was asked to dump"; return false;
}
static void in_event(pomp_ctx *ctx, enum pomp_event ev, pomp_conn *conn, const pomp_msg *msg, void *ud) {
	if (C->done) VC("an event arrives after the tool has ended");
	std::string want; bool dumped = false; size_t o0 = C->out.size(); uint32_t a0 = W->fired[F_ALLOC] + W->fired[F_MEMLIMIT]; C->nev++; W->ops++;
	if (ev == POMP_EVENT_CONNECTED) { NoFault nf; int fd = pomp_conn_get_fd(conn); Stream *s = dynamic_cast<Stream *>(fd_file(C->p, fd)); if (!s || !s->c) return C->cb(ctx, ev, conn, msg, ud); C->links.push_back({conn, s->c, s->side}); C->links.back().t_up = W->now; TR("cli: connected, conn %d", s->c->id); hashmix(s->c->id); if (W->now >= C->D) C->passed = true; if (C->dump && !C->wait) C->D = NEVER; if (C->links.size() > 1) probe("cli_second_connection"); }
	else if (ev == POMP_EVENT_DISCONNECTED) { for (Link_ &l : C->links) if (l.pc == conn) { l.up = false; l.pc = nullptr; TR("cli: conn %d ends", l.k->id); } if (W->now >= C->D) C->passed = true; if (C->T > 0) C->D = W->now + C->T * SEC; probe("cli_disconnected"); }
	else if (ev == POMP_EVENT_MSG) {
		NoFault nf; const void *d; size_t n = 0; pomp_buffer_get_cdata(pomp_msg_get_buffer(msg), &d, &n, nullptr); for (Link_ &l : C->links) if (l.pc == conn && l.up) l.nmsg++; C->dmsgs += C->udp;
		auto it = C->texts.find(std::string((const char *)d, n)); if (it != C->texts.end() && C->dump) { want = it->second; dumped = true; } probe("cli_message"); hashmix(n);
		if (C->wait && pomp_msg_get_id(msg) == C->waitid && C->t_wait == NEVER) { C->t_wait = W->now; probe("cli_awaited"); }
	}
	C->cb(ctx, ev, conn, msg, ud);
	if (dumped && W->fired[F_ALLOC] + W->fired[F_MEMLIMIT] == a0 && C->out.find(want, o0) == std::string::npos) VC("a received message is not dumped as %s but as: %s", want.substr(0, 150).c_str(), C->out.substr(o0, 300).c_str());
}
static std::string mkmsg(uint32_t id, std::vector<Arg> *args, size_t cap) {
	NoFault nf; for (;;) { std::vector<Arg> v = mg::rargs(false, false); bool ok = true; for (Arg &a : v) { if (!a.ok || (a.t == mg::F32 && a.f != a.f) || (a.t == mg::F64 && a.d != a.d)) ok = false; if (a.t == mg::STR && a.s.size() > 9000) ok = false; } std::string b = mg::encode(id, v); if (!ok || b.size() > cap) continue; *args = v; return b; }
}
static std::string peer_msg() {
	std::vector<Arg> v; uint32_t id = C->wait && chance(1200) ? C->waitid : chance(2000) ? choose(20) : (uint32_t)mg::rint_(32); if (C->wait && id == C->waitid && !chance(3000)) id++; std::string b = mkmsg(id, &v, C->udp ? 1200 : chance(1000) ? 20000 : 3000); C->texts[b] = mg::text(id, nullptr, v, {}); return b;
}
// -------- peers
static bool same(const sockaddr_storage &a, const sockaddr_storage &b) { return a.ss_family == b.ss_family; }
static Sess *sess_new(Proc *p, int fd) { Sess *s = new Sess; s->p = p; s->fd = fd; s->s = (Stream *)fd_file(p, fd); s->stuck = chance(400); k_fcntl(p, fd, F_SETFL, O_NONBLOCK); s->t_stop = chance(5000) ? W->now + (ns)range(1, 6000) * MS : NEVER; C->sess.push_back(s); return s; }
static void sess_step(Sess *s) {
	if (s->closed) return; if (!s->k) { if (s->s->st == Stream::EST && s->s->c) { s->k = s->s->c; s->side = s->s->side; } else if (s->s->st != Stream::CONNECTING) { s->closed = true; k_close(s->p, s->fd); return; } else return; }
	if (C->over) s->stuck = false;
	if (s->stuck) return;
	for (int i = 0; i < 64 && !s->eof; i++) { char b[4096]; ssize_t r = k_read(s->p, s->fd, b, 1 + choose(sizeof b)); if (r == -EAGAIN) break; if (r <= 0) { s->eof = true; if (r < 0) s->bad = true; break; } s->rx.append(b, (size_t)r); }
	if (s->eof) { s->closed = true; k_close(s->p, s->fd); return; }
	if (C->over) return;
	if (chance(2000) && s->out.size() < 60000) { uint32_t n = 1 + choosew({5, 2, 1}); while (n--) { s->out += peer_msg(); s->ends.push_back(s->out.size()); } }
	for (int i = 0; i < 12 && s->off < s->out.size(); i++) { size_t n = s->out.size() - s->off; if (chance(5000)) n = 1 + choose((uint32_t)std::min<size_t>(n, 40)); ssize_t r = k_write(s->p, s->fd, s->out.data() + s->off, n); if (r == -EAGAIN) break; if (r < 0) { s->bad = true; break; } s->off += (size_t)r; s->t_w = W->now; }
	if (W->now >= s->t_stop && W->faults_on) { s->closed = true; s->early = true; if (chance(2500) && !s->k->un) { fault_fired(F_RST); conn_reset(s->k, s->side); } k_close(s->p, s->fd); }
}
static void peer_main(Proc *p, size_t no) {
	int lfd = -1; std::vector<Sess *> mine; ns tstart = W->now + (chance(3000) ? 0 : (ns)range(1, 4000) * MS); if (chance(1000)) tstart = NEVER; ns tdown = NEVER;
	for (;;) {
		if (C->server) { size_t live = 0; for (Sess *s : mine) if (!s->closed) live++; if (!C->over && W->now >= tstart && live < 1 + no % 2 && chance(3000)) { int fd = k_socket(p, C->fam, SOCK_STREAM | SOCK_NONBLOCK, 0); int r = k_connect(p, fd, (sockaddr *)&C->addr, C->alen); if (r < 0 && r != -EINPROGRESS) k_close(p, fd); else mine.push_back(sess_new(p, fd)); } }
		else {
			if (lfd < 0 && W->now >= tstart && !C->over) { int fd = k_socket(p, C->fam, SOCK_STREAM | SOCK_NONBLOCK, 0); int one = 1; k_setsockopt(p, fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); if (!C->path.empty()) k_unlink(p, C->path.c_str()); int r = k_bind(p, fd, (sockaddr *)&C->addr, C->alen); if (r == 0) r = k_listen(p, fd, 16); if (r < 0) k_close(p, fd); else lfd = fd; tdown = chance(2000) ? W->now + (ns)range(1, 3000) * MS : NEVER; }
			if (lfd >= 0) for (int i = 0; i < 4; i++) { int fd = k_accept(p, lfd, nullptr, nullptr, 0); if (fd < 0) break; mine.push_back(sess_new(p, fd)); }
			if (lfd >= 0 && W->now >= tdown) { k_close(p, lfd); lfd = -1; tstart = W->now + (ns)range(1, 5000) * MS; tdown = NEVER; }
		}
		for (Sess *s : mine) sess_step(s);
		sleep_ns((ns)(1 + geom(60)) * MS);
	}
}
static void dgpeer_main(Proc *p) {
	int fd = -1; ns tstart = chance(7000) ? 0 : W->now + (ns)range(1, 3000) * MS; C->bound0 = tstart == 0;
	for (;;) {
		if (fd < 0 && W->now >= tstart) { fd = k_socket(p, C->fam, SOCK_DGRAM | SOCK_NONBLOCK, 0); if (k_bind(p, fd, (sockaddr *)&C->to, C->tolen) < 0) { k_close(p, fd); fd = -1; tstart = W->now + 10 * MS; } }
		if (fd >= 0) {
			for (int i = 0; i < 40; i++) { std::string b(70000, 0); ssize_t r = k_read(p, fd, &b[0], b.size()); if (r < 0) break; b.resize((size_t)r); C->dgrams.push_back(b); if (b != C->B || !C->validmsg) VC("the tool sends a datagram of %zu bytes that is not its message of %zu bytes", b.size(), C->B.size()); }
			if (!C->over && chance(1500)) { std::string m = peer_msg(); ssize_t r = k_sendto(p, fd, m.data(), m.size(), 0, (sockaddr *)&C->addr, C->alen); if (r > 0) C->dsent++; }
		}
		sleep_ns((ns)(1 + geom(60)) * MS);
	}
}
// -------- the command line
static std::string addr_text(Proc *host, uint16_t port, const char *name, sockaddr_storage *a, socklen_t *l, std::string *path) {
	memset(a, 0, sizeof *a); char b[80];
	if (C->fam == AF_INET) { auto i = in_addr(host->ip, port); memcpy(a, &i, sizeof i); *l = sizeof i; struct in_addr x; x.s_addr = host->ip; snprintf(b, sizeof b, "inet:%s:%u", inet_ntoa(x), port); return b; }
	if (C->fam == AF_INET6) { auto *i = (sockaddr_in6 *)a; i->sin6_family = AF_INET6; i->sin6_port = htons(port); uint32_t x = htonl(host->ip); memset((char *)&i->sin6_addr + 10, 0xff, 2); memcpy((char *)&i->sin6_addr + 12, &x, 4); *l = sizeof *i; uint8_t *q = (uint8_t *)&host->ip; uint32_t h = ntohl(host->ip); (void)q; snprintf(b, sizeof b, "inet6:::ffff:%u.%u.%u.%u:%u", h >> 24, h >> 16 & 255, h >> 8 & 255, h & 255, port); memcpy((char *)&i->sin6_addr + 12, &host->ip, 4); return b; }
	auto *u = (sockaddr_un *)a; u->sun_family = AF_UNIX; bool abs = !C->udp && chance(5000); std::string n = abs ? std::string("@") + name : std::string("/run/") + name; strcpy(u->sun_path, n.c_str()); if (abs) u->sun_path[0] = 0; *l = (socklen_t)(offsetof(sockaddr_un, sun_path) + n.size() + (abs ? 0 : 1)); if (!abs && path) *path = n; return "unix:" + n;
}
static void make_args(Proc *peer) {
	auto &v = C->argv; v.push_back("pomp-cli"); bool e = true; auto opt = [&](const char *s, const char *l) { v.push_back(chance(7000) ? s : l); };
	std::vector<int> o; if (C->server) o.push_back(0); else if (chance(1500)) o.push_back(1); if (C->udp) o.push_back(2); if (C->dump) o.push_back(3); if (C->T >= 0) o.push_back(4); if (C->wait) o.push_back(5); for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[choose((uint32_t)i)]);
	for (int x : o) switch (x) { case 0: opt("-s", "--server"); break; case 1: opt("-c", "--client"); break; case 2: opt("-u", "--udp"); break; case 3: opt("-d", "--dump"); break; case 4: opt("-t", "--timeout"); v.push_back(std::to_string(C->T)); break; default: opt("-w", "--wait"); v.push_back(std::to_string(C->waitid)); }
	int b = C->bad ? 1 + (int)choose(5) : 0; if (b == 1) { v.push_back(pick<const char *>({"-x", "--dumpp", "-", "--"})); }
	if (b == 2) { v.push_back(chance(5000) ? "-t" : "-w"); return; }
	std::string a = addr_text(C->udp || C->server ? C->p : peer, 5000, "cli", &C->addr, &C->alen, C->server || C->udp ? nullptr : &C->path); if (b == 3) a = pick<const char *>({"inet:1.2.3.4", "tcp:1.2.3.4:5", "unix", "inet:1.2.3.4:70000", "inet6:::1", "", "inet:300.1.1.1:5"}); if (b == 4) { if (C->dump && !C->hasmsg) { return; } if (chance(3000)) return; } v.push_back(a); if (b == 4) { if (!C->dump) return; C->bad = false; }
	if (C->udp && C->hasmsg) { std::string t = addr_text(peer, 6000, "dst", &C->to, &C->tolen, nullptr); if (b == 5) { t = "inet:1:2:3:4"; } v.push_back(t); } else if (C->udp) { addr_text(peer, 6000, "dst", &C->to, &C->tolen, nullptr); if (b == 5) C->bad = false; } else if (b == 5) { if (C->hasmsg || C->dump) C->bad = false; }
	if (!C->hasmsg) return;
	v.push_back(std::to_string(C->id)); std::vector<Arg> args; C->B = mkmsg(C->id, &args, C->udp ? 1200 : chance(3000) ? 60000 : 5000); C->validmsg = true;
	if (args.empty()) return; std::string f; std::vector<std::string> s; { NoFault nf; for (Arg &x : args) { f += mg::spec(x.t, false); mg::pushstr(s, x); } }
	if (chance(400)) { C->validmsg = false; probe("cli_bad_message"); switch (choose(3)) { case 0: f += "%q"; break; case 1: f.insert(0, "%"); break; default: s.pop_back(); } }
	v.push_back(f); for (auto &x : s) v.push_back(x);
}
static void cli_main() {
	std::vector<char *> q; for (auto &s : C->argv) { char *x = (char *)malloc(s.size() + 1); memcpy(x, s.c_str(), s.size() + 1); q.push_back(x); } q.push_back(nullptr); char **av = (char **)malloc(q.size() * sizeof(char *)); memcpy(av, q.data(), q.size() * sizeof(char *));
	if (g_trace) { std::string l; for (auto &s : C->argv) l += " [" + (s.size() > 60 ? s.substr(0, 60) + ".." : s) + "]"; TR("run%s", l.c_str()); }
	C->p->out = &C->out; C->p->tool = true; C->t0 = W->now; C->started = true; if (C->T > 0) C->D = W->now + C->T * SEC;
	int rc = pomp_cli_main((int)C->argv.size(), av);
	C->rc = rc; C->t_done = W->now; TR("cli ends with status %d", rc); std::string why; bool fl = W->nfired != 0; uint64_t nf = 0; for (int i = 0; i < F_COUNT; i++) if (i != F_PREEMPT && i != F_RST && i != F_SIGNAL && i != F_READY_ORDER && i != F_LATENCY && i != F_STALL && i != F_SHORT_READ && i != F_SHORT_WRITE && i != F_EINTR && i != F_SOCKBUF_FULL) nf += W->fired[i]; fl = nf != 0; hashmix(rc);
	if (C->help) { if (rc) VC("asking for help ends with status %d", rc); if (C->out.find("<addr>") == std::string::npos) VC("asking for help prints no help"); }
	else if (C->bad) { if (!rc) VC("a malformed command line is not refused"); probe("cli_refused"); }
	else if (rc) { if (!fl && !(C->t_sig == NEVER && (C->passed || W->now >= C->D))) VC("the tool fails with status %d although nothing went wrong: %s", rc, C->out.substr(C->out.size() > 200 ? C->out.size() - 200 : 0).c_str()); probe("cli_failed"); }
	else if (!may_end(&why)) VC("the tool ends although %s", why.c_str());
	if (C->bad || C->help) { if (C->nev || !C->links.empty()) VC("a malformed command line leads to a connection"); }
	if (rc == 0 && !C->bad && !C->help) { probe(C->t_sig != NEVER ? "cli_end_signal" : C->t_wait != NEVER ? "cli_end_awaited" : W->now >= C->D ? "cli_end_timeout" : "cli_end_sent"); }
	C->done = true; check_clean(C->p, "C24"); C->p->tool = false; C->p->out = nullptr; for (char *x : q) free(x); free(av);
}
static void judge() { // content of what the tool sent, at any time
	Conn *first = C->links.empty() ? nullptr : C->links[0].k;
	for (Sess *s : C->sess) if (s->k && !s->rx.empty()) {
		if (!C->validmsg) VC("the tool sends %zu bytes although it has no valid message", s->rx.size());
		if (s->k != first) { if (first) VC("the tool sends %zu bytes on a connection that is not its first", s->rx.size()); continue; }
		if (s->rx.size() > C->B.size() || C->B.compare(0, s->rx.size(), s->rx)) VC("the tool sends %s, but its message is %s", hex(s->rx.data(), s->rx.size()).c_str(), hex(C->B.data(), C->B.size()).c_str());
	}
	if (C->dgrams.size() > 1) VC("the tool sends its message %zu times", C->dgrams.size());
}
static void must_end() { // it has to have ended a while after what was asked is done
	if (C->done) return; ns te = NEVER; const char *why = "";
	if (C->t_sig != NEVER) { te = C->t_sig; why = "it was told to end by a signal"; }
	if (C->t_wait < te) { te = C->t_wait; why = "the awaited message has come"; }
	if (C->D < te && !resource_faults()) { te = C->D; why = "the time given has passed"; }
	if (send_only() && !C->udp && !C->links.empty() && C->t_sent == NEVER) { Link_ &l = C->links[0]; if (!C->validmsg || l.k->d[l.side].wtotal >= C->B.size() || !l.up) C->t_sent = W->now; }
	if (send_only() && C->udp && C->ctx && C->t_sent == NEVER && !C->dgrams.empty()) C->t_sent = W->now;
	if (C->t_sent < te) { te = C->t_sent; why = "its message is sent"; }
	if (te != NEVER && W->now > te + 1500 * MS) VC("the tool goes on running %lld ms although %s", (long long)((W->now - te) / MS), why);
}
static void world() {
	ns tend = W->now + (ns)range(500, C->T > 0 ? 9000 : 6000) * MS; ns tq = tend; // faults stop, then a while to settle
	while (W->now < tend) { sleep_ns(20 * MS); must_end(); judge(); if (C->done && chance(300)) break; }
	W->faults_on = false; (void)tq;
	for (int i = 0; i < 150 && !C->done; i++) { sleep_ns(20 * MS); must_end(); judge(); }
	if (!C->done && C->t_sig == NEVER) { // still running, rightly: everything that arrived has been printed, its message sent
		if (!C->links.empty() && C->validmsg && !resource_faults()) { Link_ &l = C->links[0]; bool stuck = false; for (Sess *s : C->sess) if (s->k == l.k && (s->stuck || s->closed)) stuck = true; if (l.up && !stuck && !broken(l.k, l.side) && W->now - l.t_up > SEC && l.k->d[l.side].wtotal < C->B.size()) VC("the message is not sent %lld ms after the connection was made", (long long)((W->now - l.t_up) / MS)); }
		if (!resource_faults() && !C->links.empty()) for (Link_ &l : C->links) if (l.up) for (Sess *s : C->sess) if (s->k == l.k && !s->closed && !broken(l.k, l.side)) { size_t full = 0; for (size_t e : s->ends) if (e <= s->off) full++; if (s->t_w && W->now - s->t_w > SEC && l.nmsg < full) VC("%zu of %zu messages are not handled although the connection stays up", full - l.nmsg, full); }
		if (C->udp && C->validmsg && C->bound0 && C->dgrams.empty() && C->D == NEVER && !W->nfired) VC("the message is not sent");
		if (!C->bad && !C->help && !C->udp && C->links.empty() && !C->sess.empty() && !resource_faults()) { for (Sess *s : C->sess) if (s->k && !s->closed && !s->stuck && W->now - s->k->t_est[0] > 2 * SEC) VC("a connection has been there for two seconds but is not taken"); }
		C->t_sig = W->now; TR("last signal"); if (C->p->sig[SIGINT].h) add_signal(C->p, chance(5000) ? SIGINT : SIGTERM, -1); else VC("the tool handles no signal"); 
	}
	for (int i = 0; i < 150 && !C->done; i++) { sleep_ns(20 * MS); must_end(); }
	if (!C->done) VC("the tool does not end");
	C->over = true; sleep_ns(2 * SEC); judge();
	if (C->rc == 0 && !C->bad && !C->help && C->validmsg && send_only() && C->t_sig == NEVER && C->t_wait == NEVER && !C->passed && C->t_done < C->D && !resource_faults()) {
		if (C->udp) { if (C->bound0 && C->dgrams.empty() && !W->nfired) VC("the tool ends with success but its message was never sent"); }
		else if (!C->links.empty()) { Link_ &l = C->links[0]; for (Sess *s : C->sess) if (s->k == l.k && !s->early && !s->bad && !l.k->reset && !l.k->injected_err[0] && !l.k->injected_err[1] && !l.k->rto_fired[0] && !l.k->rto_fired[1] && s->rx != C->B) VC("the tool ends with success but only %zu of %zu bytes of its message arrive", s->rx.size(), C->B.size()); }
	}
	if (!C->udp && !C->server) {} (void)same;
	end_run();
}
}
extern "C" pomp_ctx *cliw_ctx_new(pomp_event_cb_t cb, void *ud) { cl::C->cb = cb; return cl::C->ctx = pomp_ctx_new(cb ? cl::in_event : nullptr, ud); }
extern "C" pomp_ctx *cliw_ctx_new_with_loop(pomp_event_cb_t cb, void *ud, pomp_loop *l) { cl::C->cb = cb; return cl::C->ctx = pomp_ctx_new_with_loop(cb ? cl::in_event : nullptr, ud, l); }
void scen_cli(const char *) {
	using namespace cl; static C_ s; for (Sess *x : s.sess) delete x; s = C_(); C = &s;
	C->p = mg::proc = mkproc("cli", ipa(1)); uint32_t kind = choosew({4, 4, 2}); C->udp = kind == 2; C->server = kind == 1; C->fam = C->udp ? pick<int>({AF_INET, AF_UNIX, AF_INET6}) : pick<int>({AF_INET, AF_UNIX, AF_INET, AF_UNIX, AF_INET6});
	C->dump = chance(4500); C->wait = chance(3000); C->hasmsg = !C->dump || chance(5000); C->help = chance(150); C->bad = !C->help && chance(500); if (chance(4000)) C->T = (int)(chance(9000) ? range(1, 6) : range(60, 3000)); if (chance(200)) C->T = 0; C->id = (uint32_t)mg::rint_(32); C->waitid = chance(5000) ? choose(20) : (uint32_t)mg::rint_(32) >> 1;
	uint32_t np = C->server ? 1 + choose(3) : 1; for (uint32_t i = 0; i < np; i++) { char b[8]; snprintf(b, 8, "p%u", i); C->peers.push_back(mkproc(b, ipa(20 + (int)i))); }
	make_args(C->peers[0]); if (C->help) C->argv.insert(C->argv.begin() + 1, chance(5000) ? "-h" : "--help");
	W->faults_on = true; auto R = [&](Fault f, uint32_t p, uint32_t r) { if (chance(p)) W->rate[f] = r; };
	R(F_EINTR, 4000, 300); R(F_SHORT_WRITE, 5000, 2000); R(F_SHORT_READ, 5000, 2000); R(F_SOCKBUF_FULL, 3000, 1000); R(F_LATENCY, 3000, 300);
	if (chance(2500)) { R(F_ALLOC, 5000, 200); R(F_EMFILE, 2000, 100); R(F_TIMER, 1500, 500); R(F_TIMERSET, 1500, 300); R(F_EPOLL_ADD, 1500, 300); R(F_POLL, 1000, 50); R(F_ACCEPT, 2000, 2000); R(F_CONNECT, 2000, 2000); R(F_SOCKERR, 2000, 300); R(F_WRITE_ERR, 2000, 100); R(F_READ_ERR, 2000, 100); R(F_PIPE, 1000, 300); R(F_EVENTFD, 1000, 300); R(F_FCNTL, 1000, 100); R(F_BIND, 2000, 2000); R(F_LISTEN, 2000, 2000); R(F_SETSOCKOPT, 1000, 500); }
	K->cap_tcp = pick<size_t>({4096, 16384, 65536, 700}); K->cap_unix = pick<size_t>({4096, 16384, 65536, 700}); if (chance(2500)) K->lat_default = (ns)range(1, 200) * MS;
	for (Proc *p : C->peers) { size_t no = &p - &C->peers[0]; no = 0; for (size_t i = 0; i < C->peers.size(); i++) if (C->peers[i] == p) no = i; if (C->udp) spawn(p, "peer", [p]() { NoFault nf; dgpeer_main(p); }); else spawn(p, "peer", [p, no]() { peer_main(p, no); }); }
	Proc *c = C->p; ns t = C->bound0 || C->udp ? 5 * MS : 0; spawn(c, "main", [t]() { if (t) sleep_ns(t); cli_main(); });
	if (chance(2000)) { int n = (int)range(1, 3); for (int i = 0; i < n; i++) { uint64_t steps = choose(300); ns d = chance(5000) ? (ns)steps * US : (ns)range(1, 4000) * MS; if (chance(3000)) d += 5 * MS; at(W->now + d, [c]() { if (C->done || !C->started || !c->sig[SIGINT].h || !c->sig[SIGTERM].h) return; fault_fired(F_SIGNAL); if (C->t_sig == NEVER) C->t_sig = W->now; add_signal(c, chance(5000) ? SIGINT : SIGTERM, -1); }); } }
	C->p->on_exit = [](int rc) { VC("the tool calls exit(%d) in the middle of its work", rc); };
	Proc *w = mkproc("world", ipa(99)); spawn(w, "world", world); W->preempt_mode = choose(2);
}
