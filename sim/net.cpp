// Scenario on stream connections: several processes with servers and clients, raw peers that speak the protocol or not,
// crashes, partitions, exhausted resources; then faults stop and everything has to come back.
#include "app.h"
#include "proto.h"
#include <unistd.h>
#ifndef CTX_IDLE
#define CTX_IDLE (c->st == IDLE) // nothing but the destruction is left to do
#endif
#ifndef CXX_COPY
#define CXX_COPY 0 // raw buffers are copied when they are sent
#endif
namespace net {
enum { PEND, ACC, REJ, UNK };
enum St { IDLE, STARTED, STOPPING };
struct Node; struct Ctx; struct CR; struct Peer; struct PC;
struct Ent { std::string b; FdList fds; int st = PEND; uint64_t id = 0, start = 0; bool st_known = true; };
struct Hist { // what side `side` of a connection sent
	Conn *c; int side; std::deque<Ent> q; size_t rx = 0; uint64_t acc = 0; bool unk = false; std::vector<std::pair<size_t, size_t>> nf{{0, 0}}; uint64_t rxbytes = 0; std::vector<size_t> mp{0}; size_t lastm = 0; bool amb = false;
	PC *pc = nullptr; RefDec ref; bool complained = false; uint64_t delivered = 0;
	size_t pm = 0; size_t poff = 0; std::vector<File *> pfds; uint64_t rej_touch = 0; std::set<uint64_t> sync;
};
struct Aw { std::string b; FdList fds; uint64_t start, end; bool known, opt; uint64_t id; const void *buf = nullptr; };
struct CR { Ctx *c; pomp_conn *pc; Conn *k; int side; Stream *s; bool up = true, shut = false, susp = false, dead = false; std::deque<Aw> aw; ns t_up; uint64_t alloc0; bool ka_on; int ka_i, ka_v, ka_n; bool bad_fd = false; ns t_susp = 0; };
struct Spec { int id; bool server; int fam; int kind; bool raw; bool sendcb; uint32_t mode; size_t rb; bool ka; int ki, kv, kn; int target; std::string path; sockaddr_storage a; socklen_t alen; bool any; };
struct Target { int id; int fam; int form; bool raw; sockaddr_storage a; socklen_t alen; std::string path; Node *node = nullptr; Peer *peer = nullptr; uint32_t ip = 0; uint16_t port = 0; };
struct Ctx { Spec *sp; Node *n; pomp_ctx *c = nullptr; St st = IDLE; int incb = 0; uint64_t gen = 0; std::vector<CR *> crs; Stream *lst = nullptr; Stream *att = nullptr; bool attempting = false; ns t_att = -NEVER / 2, t_down = -NEVER / 2; bool ka; int ki, kv, kn; uint64_t alloc0 = 0; ns t_start = 0; bool stopmark = false; int nconn = 0; uint32_t mode = 0; Stream *lastsk = nullptr; };
struct Hold { pomp_buffer *b; std::string snap; };
struct Idle { Node *n; uint64_t id; bool removed = false, ran = false; };
struct Node {
	int id; std::string name; uint32_t ip; Proc *p = nullptr; pomp_loop *loop = nullptr; bool internal = false; bool stopreq = false; int mode = 0; std::vector<Spec *> specs; std::vector<Ctx *> ctxs; std::map<pomp_conn *, CR *> crmap; int depth = 0; uint32_t gen = 0; bool gone = false, up = false; std::vector<Hold> holds; std::deque<Idle *> idles; uint64_t cbs = 0; bool hasunix = false; uint64_t budget = 0; uint32_t cbbudget = 0; ns t_wait = 0; bool extfd = false; int settle_sent = 0;
	pomp_timer *tm = nullptr; pomp_evt *ev = nullptr; bool ev_sig = false, tm_armed = false; int pipefd[2] = {-1, -1}; bool piped = false; uint64_t npipe = 0; uint64_t nscan = 0; int spin = 0;
};
struct PC { Peer *p; int fd; Stream *s; bool est = false; int kind; std::string out; size_t off = 0; std::vector<std::pair<size_t, std::vector<File *>>> fds; bool eof = false, stuck = false, closed = false; uint64_t nsent = 0; ns t0 = 0; bool raw; int target; bool done_w = false; bool probe = false; };
struct Peer { int id; Proc *p; bool server; int kind; int target; std::vector<PC *> pcs; int lfd = -1; bool friendly = false; };
struct G_ {
	std::string prop; std::vector<Node *> nodes; std::vector<Peer *> peers; std::vector<Target *> targets; std::deque<Spec> specs; std::map<Stream *, Ctx *> socks; int phase = 0; ns t1 = 0; uint64_t serial = 1; uint64_t bytes = 0, bytecap = 200000; bool useful = false; uint64_t delivered = 0; int nteardown = 0; std::vector<Hist *> hists; std::vector<CR *> allcr; std::vector<Ctx *> allctx; std::vector<Node *> dead; uint32_t maxmsg = 3000; bool fds = true; uint32_t w_send = 30, w_susp = 3, w_disc = 3, w_stop = 2, w_ka = 1, w_cb = 25, w_set = 2; bool chk_ka = true, chk_cred = true; int flood = 0; bool allow_silent = true; bool done = false; int maxops = 300; uint32_t w_peer = 0;
};
static G_ *G;
#define V(tag, ...) violate(tag, __VA_ARGS__)
static std::string nm(Ctx *c) { char b[64]; snprintf(b, 64, "%s/%s%d", c->n->name.c_str(), c->sp->server ? "server" : "client", c->sp->id); return b; }
static Hist *hist(Conn *c, int side) { if (!c->user[side]) { Hist *h = new Hist; h->c = c; h->side = side; c->user[side] = h; G->hists.push_back(h); } return (Hist *)c->user[side]; }
// ---------------------------------------------------------------- building
struct Built { pomp_msg *m = nullptr; pomp_buffer *buf = nullptr; std::string b; FdList fds; uint64_t id = 0; bool raw = false; };
static uint32_t msgsize() { uint32_t m = G->maxmsg; switch (choosew({6, 4, 2, 1})) { case 0: return choose(24); case 1: return choose(std::min(m, 300u)); case 2: return choose(std::min(m, 3000u)); default: return choose(m); } }
static void fill(std::string &s, size_t n) { uint32_t x = (uint32_t)G->serial * 2654435761u + 1; s.resize(n); for (size_t i = 0; i < n; i++) { x = x * 1103515245u + 12345; s[i] = "POM\0\r\nabcdefgXYZ\x80\xff"[(x >> 16) % 18]; } }
static Built build(Node *n, bool raw, bool un, uint32_t cap = UINT32_MAX) {
	NoFault nf; Built r; r.raw = raw; r.id = G->serial++; uint32_t sz = std::min(msgsize(), cap); if (G->bytes > G->bytecap) sz = std::min(sz, 16u); G->bytes += sz;
	if (raw) {
		std::string s; fill(s, sz); if (sz >= 8) memcpy(&s[0], &r.id, 8); if (!sz && chance(8000)) s = "x"; r.b = s; r.buf = pomp_buffer_new(s.size() ? s.size() : 16); if (s.size()) pomp_buffer_append_data(r.buf, s.data(), s.size()); return r;
	}
	r.m = pomp_msg_new(); pomp_msg_init(r.m, chance(500) ? (uint32_t)pick<uint32_t>({0, 1, UINT32_MAX, 0x504d4f50}) : (uint32_t)r.id); pomp_encoder *e = pomp_encoder_new(); pomp_encoder_init(e, r.m);
	pomp_encoder_write_u64(e, r.id); std::vector<File *> fl; uint32_t na = choosew({4, 3, 2, 1, 1}); bool big = false;
	for (uint32_t i = 0; i < na || (sz > 24 && !big); i++) {
		if (i >= na) { std::string s; fill(s, sz); if (chance(3000) && sz < 60000) { for (auto &ch : s) if (!ch) ch = 'z'; pomp_encoder_write_str(e, s.c_str()); } else pomp_encoder_write_buf(e, s.data(), (uint32_t)s.size()); big = true; break; }
		switch (choose(12)) {
		case 0: pomp_encoder_write_i8(e, (int8_t)choose(256)); break; case 1: pomp_encoder_write_u8(e, (uint8_t)choose(256)); break; case 2: pomp_encoder_write_i16(e, (int16_t)choose(65536)); break; case 3: pomp_encoder_write_u16(e, (uint16_t)choose(65536)); break;
		case 4: pomp_encoder_write_i32(e, (int32_t)(choose(2) ? choose(100) - 50 : choose(0xffffffff))); break; case 5: pomp_encoder_write_u32(e, choose(0xffffffff)); break; case 6: pomp_encoder_write_i64(e, (int64_t)mix64(choose(1000))); break; case 7: pomp_encoder_write_str(e, choose(2) ? "" : "hello POMP"); break;
		case 8: pomp_encoder_write_f32(e, (float)choose(1000) / 7); break; case 9: pomp_encoder_write_f64(e, choose(1000) / 3.0); break; case 10: pomp_encoder_write_buf(e, "POMP", choose(5)); break;
		default: if (G->fds && (un || chance(300)) && fl.size() < 4) { int fd; File *f; if (chance(3000) && n->p->fds[0].f) { fd = 0; f = fd_file(n->p, 0); } else f = appfile(n->p, &fd); pomp_encoder_write_fd(e, fd); fl.push_back(f); if (fd > 2) { int l = cur->inlib; cur->inlib = 0; k_close(n->p, fd); cur->inlib = l; } } break;
		}
	}
	if (un && G->fds && fl.empty() && chance(2500)) { uint32_t k = range(1, 4); while (k--) { int fd; File *f = appfile(n->p, &fd); pomp_encoder_write_fd(e, fd); fl.push_back(f); k_close(n->p, fd); if (chance(3000)) pomp_encoder_write_u8(e, 7); } }
	pomp_encoder_destroy(e); pomp_msg_finish(r.m);
	const void *d; size_t len; pomp_buffer_get_cdata(pomp_msg_get_buffer(r.m), &d, &len, nullptr); r.b.assign((const char *)d, len);
	std::vector<uint32_t> fo; if (walk(r.b, &fo, nullptr) != 1 || fo.size() != fl.size()) V("C01", "a message built with the encoder is not well formed: %s", hex(d, len).c_str());
	for (size_t i = 0; i < fo.size(); i++) r.fds.push_back({fo[i], fl[i]});
	return r;
}
static void drop(Built &b) { NoFault nf; if (b.m) pomp_msg_destroy(b.m); if (b.buf) pomp_buffer_unref(b.buf); b.m = nullptr; b.buf = nullptr; }
static void hold(Node *n, pomp_buffer *b) {
	if (n->holds.size() >= 6) return; const void *d; size_t l; pomp_buffer_get_cdata(b, &d, &l, nullptr); pomp_buffer_ref(b); n->holds.push_back({b, std::string((const char *)d, l)}); probe("buffer_held");
}
static void hold_check(Node *n, Hold &h) {
	const void *d; size_t l; pomp_buffer_get_cdata(h.b, &d, &l, nullptr); if (l != h.snap.size() || memcmp(d, h.snap.data(), l)) V("C16", "%s: contents of a buffer the application holds have changed", n->name.c_str());
	if (pomp_buffer_is_shared(h.b)) { NoFault nf; void *x; int r; size_t pos = 0; switch (choose(5)) { case 0: r = pomp_buffer_append_data(h.b, "zz", 2); break; case 1: r = pomp_buffer_set_len(h.b, 0); break; case 2: r = pomp_buffer_get_data(h.b, &x, nullptr, nullptr); break; case 3: r = pomp_buffer_write(h.b, &pos, "zzzz", 4); break; default: r = pomp_buffer_set_capacity(h.b, l + 100); break; }
		if (r != -EPERM) V("C16", "%s: modifying a shared buffer returns %d instead of -EPERM", n->name.c_str(), r); probe("shared_modify_refused"); }
}
static void hold_release(Node *n, size_t i) { Hold h = n->holds[i]; hold_check(n, h); n->holds.erase(n->holds.begin() + i); pomp_buffer_unref(h.b); }
// ---------------------------------------------------------------- sending
static bool sick(CR *r) { Conn *k = r->k; int s = r->side; return k->reset || k->s[s] == nullptr || k->s[1 - s] == nullptr || k->injected_err[s] || k->werrs[s] || k->vanished[1 - s] || (k->s[s] && (k->s[s]->soerr || k->s[s]->st != Stream::EST)) || k->d[1 - s].fin_arr; }
// really over, as opposed to a call on it having failed
static bool gone(CR *r) { Conn *k = r->k; int s = r->side; return k->reset || k->s[s] == nullptr || k->s[1 - s] == nullptr || k->vanished[1 - s] || k->s[s]->st != Stream::EST || k->d[1 - s].fin_arr; }
static void push_aw(CR *r, const Ent &e, bool opt, bool known) { if (r->c->sp->sendcb) r->aw.push_back({e.b, e.fds, e.start, e.start + e.b.size(), known, opt, e.id}); }
static const char *stn(int s) { return s == ACC ? "accepted" : s == REJ ? "refused" : s == UNK ? "unknown" : "pending"; }
// One send on one connection through `fn`, which returns the library's result.
static int send_one(CR *r, Built &b, const std::function<int()> &fn) {
	Hist *h = hist(r->k, r->side); Dir &d = r->k->d[r->side]; uint64_t w0 = d.wtotal; uint32_t a0 = W->fired[F_ALLOC]; uint64_t f0 = W->nfired; int we0 = r->k->werrs[r->side]; bool sick0 = sick(r), up0 = r->up, shut0 = r->shut;
	h->q.emplace_back(); size_t qi = h->q.size() - 1; { Ent &e = h->q.back(); e.b = b.b; e.fds = b.fds; e.id = b.id; e.start = h->acc; push_aw(r, e, false, !h->unk); }
	W->ops++; TR("%s: send #%llu, %zu bytes, %zu fds on conn %d", nm(r->c).c_str(), (unsigned long long)b.id, b.b.size(), b.fds.size(), r->k->id);
	int rc = fn(); TR("  -> %d (%llu bytes taken by the system)", rc, (unsigned long long)(d.wtotal - w0));
	Ent &e = h->q[qi];
	if (rc == 0) {
		if (!b.fds.empty() && !r->k->un) V("C06", "%s: a message with descriptors is accepted on a connection that is not local", nm(r->c).c_str());
		e.st = ACC; h->acc += e.b.size(); return 0;
	}
	e.st = REJ;
	if (r->c->sp->sendcb) { bool found = false; for (size_t i = 0; i < r->aw.size(); i++) if (r->aw[i].id == b.id) { r->aw.erase(r->aw.begin() + i); found = true; break; } if (!found) V("C02", "%s: a send was refused (%d) but its completion was notified", nm(r->c).c_str(), rc); }
	if (d.wtotal != w0) V("C19", "%s: a send is refused (%d) after %llu of its %zu bytes were handed to the system", nm(r->c).c_str(), rc, (unsigned long long)(d.wtotal - w0), e.b.size());
	if (h->rx > qi) V("C01", "%s: a message whose send is refused (%d) was delivered", nm(r->c).c_str(), rc);
	bool ok = shut0 || !up0 || sick0 || sick(r) || W->fired[F_ALLOC] != a0 || r->k->werrs[r->side] != we0 || (!b.fds.empty() && !r->k->un);
	(void)f0; if (!ok) V("C01", "%s: a send on an established connection is refused with %d although nothing failed", nm(r->c).c_str(), rc);
	if (!b.fds.empty() && !r->k->un && !shut0 && up0 && !sick0 && rc != -EPERM && W->fired[F_ALLOC] == a0) V("C06", "%s: a message with descriptors on a non-local connection is refused with %d, not -EPERM", nm(r->c).c_str(), rc);
	probe("send_refused"); return rc;
}
static int ctx_sendv(pomp_ctx *c, uint32_t id, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = pomp_ctx_sendv(c, id, fmt, ap); va_end(ap); return r; }
static int conn_sendv(pomp_conn *c, uint32_t id, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = pomp_conn_sendv(c, id, fmt, ap); va_end(ap); return r; }
static Built formatted(std::string &s, uint32_t *mid) { // what sending "%llu%s" has to produce
	NoFault nf; Built b; b.id = G->serial++; fill(s, choose(200)); for (auto &c : s) if (!c) c = 'q'; *mid = chance(3000) ? UINT32_MAX : (uint32_t)b.id; pomp_msg *m = pomp_msg_new(); pomp_msg_write(m, *mid, "%llu%s", (unsigned long long)b.id, s.c_str());
	const void *d; size_t len; pomp_buffer_get_cdata(pomp_msg_get_buffer(m), &d, &len, nullptr); b.b.assign((const char *)d, len); pomp_msg_destroy(m); return b;
}
static int do_conn_send(Node *n, CR *r) {
	if (r->c->sp->raw) { Built b = build(n, true, false); int rc = send_one(r, b, [&]() { return pomp_conn_send_raw_buf(r->pc, b.buf); }); if (chance(800)) hold(n, b.buf); if (chance(2000) && pomp_buffer_is_shared(b.buf)) { Hold h{b.buf, b.b}; hold_check(n, h); } drop(b); return rc; }
	if (chance(1500)) { // formatted
		NoFault *nf = new NoFault; Built b; b.id = G->serial++; uint32_t mid = chance(3000) ? UINT32_MAX : (uint32_t)b.id; int which = (int)choose(3); std::string s; fill(s, choose(200)); for (auto &c : s) if (!c) c = 'q'; b.m = pomp_msg_new();
		switch (which) { case 0: pomp_msg_write(b.m, mid, "%llu%s", (unsigned long long)b.id, s.c_str()); break; case 1: pomp_msg_write(b.m, mid, "%llu%p%u", (unsigned long long)b.id, s.data(), (unsigned)s.size()); break; default: pomp_msg_write(b.m, mid, "%u%hd%hhu%lld", (unsigned)b.id, (short)-5, (unsigned char)9, (long long)-1234567890123ll); break; }
		const void *d; size_t len; pomp_buffer_get_cdata(pomp_msg_get_buffer(b.m), &d, &len, nullptr); b.b.assign((const char *)d, len); pomp_msg_destroy(b.m); b.m = nullptr; delete nf; probe("send_formatted");
		return send_one(r, b, [&]() { switch (which) { case 0: return (chance(5000) ? pomp_conn_send : conn_sendv)(r->pc, mid, "%llu%s", (unsigned long long)b.id, s.c_str()); case 1: return pomp_conn_send(r->pc, mid, "%llu%p%u", (unsigned long long)b.id, s.data(), (unsigned)s.size()); default: return pomp_conn_send(r->pc, mid, "%u%hd%hhu%lld", (unsigned)b.id, (short)-5, (unsigned char)9, (long long)-1234567890123ll); } });
	}
	Built b = build(n, false, r->k->un); int rc = send_one(r, b, [&]() { return pomp_conn_send_msg(r->pc, b.m); });
	if (chance(800)) hold(n, pomp_msg_get_buffer(b.m));
	if (chance(2000) && pomp_buffer_is_shared(pomp_msg_get_buffer(b.m))) { Hold h{pomp_msg_get_buffer(b.m), std::string()}; const void *d; size_t l; pomp_buffer_get_cdata(h.b, &d, &l, nullptr); h.snap.assign((const char *)d, l); hold_check(n, h); }
	drop(b); return rc;
}
static void do_broadcast(Node *n, Ctx *c) {
	std::vector<CR *> l; bool allun = c->sp->fam == AF_UNIX; for (CR *r : c->crs) if (r->up) l.push_back(r);
	if (!c->sp->server) { if (l.empty()) { Built b = build(n, c->sp->raw, allun); int rc = c->sp->raw ? pomp_ctx_send_raw_buf(c->c, b.buf) : pomp_ctx_send_msg(c->c, b.m); if (rc == 0) V("C01", "%s: a send is accepted while the client is not connected", nm(c).c_str()); drop(b); return; }
		CR *r = l[0]; Built b = build(n, c->sp->raw, allun); send_one(r, b, [&]() { return c->sp->raw ? pomp_ctx_send_raw_buf(c->c, b.buf) : pomp_ctx_send_msg(c->c, b.m); }); drop(b); return; }
	std::string fs; bool fmtd = !c->sp->raw && chance(2000); uint32_t mid = 0; Built b = fmtd ? formatted(fs, &mid) : build(n, c->sp->raw, allun); W->ops++; probe("broadcast"); if (fmtd) probe("broadcast_formatted");
	struct S { CR *r; Hist *h; size_t qi; uint64_t w0; int we0; bool sick0; }; std::vector<S> s; uint32_t a0 = W->fired[F_ALLOC];
	for (CR *r : l) { Hist *h = hist(r->k, r->side); h->q.emplace_back(); Ent &e = h->q.back(); e.b = b.b; e.fds = b.fds; e.id = b.id; e.start = h->acc; push_aw(r, e, false, !h->unk); s.push_back({r, h, h->q.size() - 1, r->k->d[r->side].wtotal, r->k->werrs[r->side], sick(r)}); }
	TR("%s: broadcast #%llu, %zu bytes to %zu", nm(c).c_str(), (unsigned long long)b.id, b.b.size(), l.size());
	int rc = fmtd ? (chance(5000) ? pomp_ctx_send(c->c, mid, "%llu%s", (unsigned long long)b.id, fs.c_str()) : ctx_sendv(c->c, mid, "%llu%s", (unsigned long long)b.id, fs.c_str())) : c->sp->raw ? pomp_ctx_send_raw_buf(c->c, b.buf) : pomp_ctx_send_msg(c->c, b.m); TR("  -> %d", rc);
	if ((fmtd || (CXX_COPY && c->sp->raw)) && rc < 0 && W->fired[F_ALLOC] != a0) { bool none = true; for (auto &x : s) if (x.r->k->d[x.r->side].wtotal != x.w0) none = false; if (none) { for (auto &x : s) { x.h->q[x.qi].st = REJ; for (size_t i = 0; i < x.r->aw.size(); i++) if (x.r->aw[i].id == b.id) { x.r->aw.erase(x.r->aw.begin() + i); break; } } drop(b); return; } }
	for (auto &x : s) {
		Ent &e = x.h->q[x.qi]; CR *r = x.r; uint64_t d = r->k->d[r->side].wtotal - x.w0; bool al = W->fired[F_ALLOC] != a0, bad = x.sick0 || sick(r) || r->k->werrs[r->side] != x.we0; int st;
		bool notified = c->sp->sendcb; if (notified) { bool f = false; for (auto &a : r->aw) if (a.id == b.id) f = true; notified = !f; }
		if (!b.fds.empty() && !r->k->un) st = REJ; else if (r->shut) st = REJ; else if (d || notified) st = ACC; else if (bad || al) st = UNK; else st = ACC;
		if (e.b.empty() && st == ACC && (bad || al)) st = UNK;
		e.st = st; TR("  conn %d: %s", r->k->id, stn(st));
		if (st == ACC) x.h->acc += e.b.size(); if (st == UNK) { x.h->unk = true; e.st_known = false; probe("broadcast_unknown"); }
		for (size_t i = 0; i < r->aw.size(); i++) if (r->aw[i].id == b.id) { if (st == REJ) { r->aw.erase(r->aw.begin() + i); break; } if (st == UNK) { r->aw[i].opt = true; r->aw[i].known = false; r->aw[i].buf = fmtd ? nullptr : b.m ? pomp_msg_get_buffer(b.m) : b.buf; } break; }
		if (st == REJ && d) V("C19", "%s: broadcast: bytes were written on a connection that refuses the message", nm(c).c_str());
	}
	if (rc < 0 && !l.empty()) V("C05", "%s: broadcast returns %d", nm(c).c_str(), rc);
	if (!fmtd && chance(800)) hold(n, b.m ? pomp_msg_get_buffer(b.m) : b.buf);
	drop(b);
}
// ---------------------------------------------------------------- receiving
static const char *why_missing(Hist *h, const void *b, size_t n, uint64_t *id) {
	for (size_t i = 0; i < h->q.size(); i++) if (eqmask(h->q[i].b, h->q[i].fds, b, n)) { *id = h->q[i].id; if (h->q[i].st == REJ) return "was refused when it was sent"; return i < h->rx ? "was delivered before (duplicate or out of order)" : "is not the next one (earlier ones are missing)"; }
	*id = 0; return "was never sent in this form (corrupted)";
}
static void check_fds(CR *r, const pomp_msg *m, const std::string &bytes, const FdList &exp, bool any, const std::set<File *> *sent) {
	std::vector<uint8_t> ty; std::vector<uint32_t> fo; if (walk(bytes, &fo, &ty) == 0 || fo.empty()) return;
	NoFault nf; pomp_decoder *d = pomp_decoder_new(); pomp_decoder_init(d, m); size_t k = 0; bool bad = false;
	for (uint8_t t : ty) {
		int rc = 0; int8_t a; uint8_t b; int16_t c; uint16_t e; int32_t f; uint32_t g; int64_t h; uint64_t i; const char *s; const void *p; float x; double y; int fd = -1;
		switch (t) { case 1: rc = pomp_decoder_read_i8(d, &a); break; case 2: rc = pomp_decoder_read_u8(d, &b); break; case 3: rc = pomp_decoder_read_i16(d, &c); break; case 4: rc = pomp_decoder_read_u16(d, &e); break; case 5: rc = pomp_decoder_read_i32(d, &f); break; case 6: rc = pomp_decoder_read_u32(d, &g); break; case 7: rc = pomp_decoder_read_i64(d, &h); break; case 8: rc = pomp_decoder_read_u64(d, &i); break; case 9: rc = pomp_decoder_read_cstr(d, &s); break; case 10: rc = pomp_decoder_read_cbuf(d, &p, &g); break; case 11: rc = pomp_decoder_read_f32(d, &x); break; case 12: rc = pomp_decoder_read_f64(d, &y); break;
		case 13: {
			rc = pomp_decoder_read_fd(d, &fd); File *got = rc < 0 ? nullptr : fd_file(r->c->n->p, fd); File *want = k < exp.size() ? exp[k].second : nullptr; k++;
			if (rc >= 0) { if (!got || fd < 0) V("C06", "%s: descriptor argument %zu reads as %d, which is not open", nm(r->c).c_str(), k, fd); if (r->c->n->p->fds[fd].owner != OWN_LIB || (sent && !sent->count(got))) V("C06", "%s: descriptor argument %zu reads as %d, a descriptor that was not received with the message", nm(r->c).c_str(), k, fd); }
			if (!any) { if (!want && rc >= 0) V("C06", "%s: descriptor argument %zu was sent without a descriptor but reads as %d", nm(r->c).c_str(), k, fd);
				if (want && rc < 0) { if (r->s->fds_lost) { bad = true; break; } V("C06", "%s: descriptor argument %zu reads as an error (%d) although the descriptor was sent", nm(r->c).c_str(), k, rc); }
				if (want && got != want) V("C06", "%s: descriptor argument %zu refers to another open file (%u) than the one sent (%u)", nm(r->c).c_str(), k, got->id, want->id); }
			if (rc >= 0) probe("fd_received"); else { probe("fd_arg_error"); bad = true; } break; }
		}
		if (bad) break; // the decoder does not advance over a descriptor it refuses
		if (rc < 0) { V("C01", "%s: decoding an argument of a delivered message fails with %d", nm(r->c).c_str(), rc); }
	}
	pomp_decoder_destroy(d);
}
static bool recv_msg(CR *r, const pomp_msg *m) {
	pomp_buffer *pb = pomp_msg_get_buffer(m); const void *d; size_t n; if (!pb) V("C01", "%s: message without a buffer", nm(r->c).c_str()); pomp_buffer_get_cdata(pb, &d, &n, nullptr); Conn *k = r->k; Hist *h = hist(k, 1 - r->side); std::string bytes((const char *)d, n); G->delivered++; W->ops++;
	TR("%s: received %zu bytes on conn %d", nm(r->c).c_str(), n, k->id); hashmix(mix64(n) ^ k->id);
	if (n < 12 || memcmp(d, "POMP", 4) || le32(&bytes[8]) != n || le32(&bytes[4]) != pomp_msg_get_id(m)) V("C01", "%s: delivered message whose header is not that of its contents: %s", nm(r->c).c_str(), hex(d, n).c_str());
	if (h->pc) {
		RefDec &q = h->ref; for (;;) { if (q.rx >= q.out.size()) break; Exp &e = q.out[q.rx]; if (eqmask(e.b, e.fds, d, n)) break; if (e.must) break; q.rx++; }
		if (q.rx >= q.out.size()) { if (q.fuzzy) return true; if (walk(bytes, nullptr, nullptr) == 0) V("C08", "%s: malformed message delivered: %s", nm(r->c).c_str(), hex(d, n).c_str()); V("C08", "%s: a message is delivered that the peer did not send: %s", nm(r->c).c_str(), hex(d, n).c_str()); }
		Exp &e = q.out[q.rx]; if (!eqmask(e.b, e.fds, d, n)) V("C08", "%s: delivered %s, but the next well formed message the peer sent is %s", nm(r->c).c_str(), hex(d, n, 24).c_str(), hex(e.b.data(), e.b.size(), 24).c_str());
		q.rx++; bool any = e.oddfd; if (!any && !e.fds.empty()) { // what came before the last read that ended with a message is forgotten
			auto it = h->sync.upper_bound(e.start); uint64_t from = it == h->sync.begin() ? 0 : *--it; for (auto &o : q.odd) if (o.first < e.start && o.second > from) any = true; if (!any && !q.odd.empty() && q.odd[0].first < e.start) probe("fds_after_odd"); }
		check_fds(r, m, bytes, e.fds, any, &q.sent); return true;
	}
	// set of possible positions; only entries of unknown fate that equal a later one make it more than one
	std::vector<size_t> np; size_t last = 0, nc = 0, lo = h->mp.empty() ? 0 : h->mp[0];
	for (size_t x : h->mp) for (size_t j = x; j < h->q.size(); j++) { Ent &q = h->q[j]; if (q.st == REJ) continue; if (eqmask(q.b, q.fds, d, n) && std::find(np.begin(), np.end(), j + 1) == np.end()) { np.push_back(j + 1); last = j; nc++; } if (q.st != UNK) break; }
	while (lo < h->q.size() && h->q[lo].st != ACC) lo++;
	if (np.empty()) { h->rx = lo; uint64_t id; const char *w = why_missing(h, d, n, &id); V("C01", "%s: delivered message #%llu (%zu bytes) %s; next is #%llu; %s", nm(r->c).c_str(), (unsigned long long)id, n, w, (unsigned long long)(lo < h->q.size() ? h->q[lo].id : 0), hex(d, n, 20).c_str()); }
	std::sort(np.begin(), np.end()); h->mp = np; h->rx = np[0]; Ent &e = h->q[last]; if (e.st == UNK && nc == 1) { e.st = ACC; e.st_known = false; }
	h->lastm = last; h->delivered++; TR("  message #%llu%s", (unsigned long long)e.id, nc > 1 ? " (or another)" : ""); check_fds(r, m, bytes, e.fds, nc > 1, nullptr); h->amb = nc > 1; return true;
}
static void recv_raw(CR *r, pomp_buffer *b) {
	const void *d; size_t n; pomp_buffer_get_cdata(b, &d, &n, nullptr); Hist *h = hist(r->k, 1 - r->side); W->ops++; G->delivered++; TR("%s: received %zu raw bytes on conn %d", nm(r->c).c_str(), n, r->k->id); hashmix(mix64(n) ^ r->k->id ^ 77);
	if (n == 0) V("C17", "%s: an empty raw buffer is notified", nm(r->c).c_str());
	const char *p = (const char *)d; uint64_t at0 = h->rxbytes; h->rxbytes += n;
	if (h->pc) { const std::string &o = h->pc->out; if (at0 + n > h->pc->off || memcmp(o.data() + at0, p, n)) V("C17", "%s: raw bytes %llu..%llu are not those the peer wrote", nm(r->c).c_str(), (unsigned long long)at0, (unsigned long long)(at0 + n)); return; }
	// set of possible positions (entry, offset); only entries of unknown fate make it more than one
	std::vector<std::pair<size_t, size_t>> curp = h->nf; size_t i = 0;
	while (i < n) {
		std::vector<std::pair<size_t, size_t>> exp; for (auto x : curp) { size_t e = x.first, o = x.second; while (e < h->q.size()) { Ent &q = h->q[e]; if (o == 0 && (q.st == REJ || q.b.empty())) { e++; continue; } if (o == q.b.size()) { e++; o = 0; continue; } exp.push_back({e, o}); if (o == 0 && q.st == UNK) { e++; continue; } break; } }
		size_t run = n - i; if (exp.size() == 1) run = std::min(run, h->q[exp[0].first].b.size() - exp[0].second); else run = 1;
		curp.clear(); for (auto x : exp) if (h->q[x.first].b.size() - x.second >= run && !memcmp(h->q[x.first].b.data() + x.second, p + i, run)) { auto y = std::make_pair(x.first, x.second + run); if (std::find(curp.begin(), curp.end(), y) == curp.end()) curp.push_back(y); }
		if (curp.empty()) V("C17", "%s: raw byte %llu received on conn %d is not the next byte of what was accepted for sending", nm(r->c).c_str(), (unsigned long long)(at0 + i), r->k->id);
		i += run;
	}
	h->nf = curp; size_t m = SIZE_MAX; for (auto &x : curp) m = std::min(m, x.first); h->rx = m;
}
// All that the library has read so far must have been notified.
static void check_read(CR *r) {
	Hist *h = hist(r->k, 1 - r->side); Dir &d = r->k->d[1 - r->side]; if (W->fired[F_ALLOC] != r->alloc0 || r->s->fds_lost || r->k->injected_err[r->side]) return;
	if (r->c->sp->raw) { if (h->rxbytes != d.rtotal) V("C17", "%s: %llu raw bytes were read from the system but %llu notified", nm(r->c).c_str(), (unsigned long long)d.rtotal, (unsigned long long)h->rxbytes); return; }
	if (h->pc) { RefDec &q = h->ref; if (q.fuzzy) return; uint64_t pos = 0; (void)pos; if (d.rtotal != d.wtotal) return; for (size_t i = q.rx; i < q.out.size(); i++) if (q.out[i].must) V("C08", "%s: a well formed message of the peer was read but not delivered: %s", nm(r->c).c_str(), hex(q.out[i].b.data(), q.out[i].b.size(), 24).c_str()); return; }
	if (h->unk) return;
	for (size_t i = h->rx; i < h->q.size(); i++) { Ent &e = h->q[i]; if (e.st == REJ || e.st == UNK) continue; if (e.start + e.b.size() <= d.rtotal) V("C01", "%s: message #%llu was completely read from conn %d but is not delivered", nm(r->c).c_str(), (unsigned long long)e.id, r->k->id); break; }
}
// ---------------------------------------------------------------- application callbacks
static void op(Node *n, Ctx *in, CR *at_);
static void in_callback(Node *n, Ctx *c, CR *r) {
	n->cbs++; if (n->depth > 3 || !n->cbbudget || G->phase > 0) return;
	if (!chance(G->w_cb * 100)) return;
	n->depth++; uint32_t k = 1 + choosew({5, 2, 1}); while (k-- && n->cbbudget) { n->cbbudget--; op(n, c, r); } n->depth--;
}
struct InCb { Ctx *c; Node *n; InCb(Ctx *x) : c(x), n(x->n) { c->incb++; n->depth++; } ~InCb() { c->incb--; n->depth--; } };
static Ctx *ctx_of(void *ud, pomp_ctx *c, const char *what) {
	Ctx *x = (Ctx *)ud; if (x->c != c) V("C03", "%s callback of a context that was destroyed or with foreign user data", what);
	if (x->n->p != cur->p) V("C03", "%s callback in the wrong process", what);
	if (x->st == IDLE) V("C03", "%s: %s callback although the context is stopped", nm(x).c_str(), what);
	return x;
}
static void disconnect_cause(CR *r) {
	Ctx *c = r->c; Conn *k = r->k; int s = r->side, o = 1 - s; Hist *h = hist(k, o); if (c->st == STOPPING || r->shut) return;
	bool peer = k->d[o].fin_arr || k->reset || k->rto_fired[s] || k->werrs[s] || k->injected_err[s] || k->vanished[o] || k->s[o] == nullptr;
	if (k->ka_fired[s] && !k->rst_sent[o]) { if (!r->ka_on && G->chk_ka) V("C20", "%s: conn %d is dropped for silence although keepalive is disabled", nm(c).c_str(), k->id); probe("keepalive_drop"); return; }
	if (peer) return;
	if (W->fired[F_ALLOC] != r->alloc0 || r->s->fds_lost) return;
	if (h->pc && (h->ref.hostile || h->ref.fuzzy)) return;
	V("C18", "%s: conn %d is disconnected although neither side closed it and nothing failed on it%s", nm(c).c_str(), k->id, r->t_susp && r->susp ? " (reading is suspended)" : "");
}
static void disconnect_complete(CR *r) {
	Ctx *c = r->c; Conn *k = r->k; int s = r->side, o = 1 - s; Dir &d = k->d[o]; Hist *h = hist(k, o);
	if (c->st == STOPPING || r->shut || r->susp || k->werrs[s] || k->injected_err[s] || !d.fin_arr || k->reset || d.lost || k->vanished[o] || k->rto_fired[s] || k->ka_fired[s] || W->fired[F_ALLOC] != r->alloc0 || r->s->fds_lost || !k->clean_close[o]) return;
	if (h->pc && (h->ref.fuzzy || h->ref.hostile)) return;
	probe("clean_end"); const char *tag = c->sp->raw ? "C17" : "C01";
	if (d.rtotal != d.wtotal) V(tag, "%s: conn %d ends after a clean close of the peer with %llu bytes unread", nm(c).c_str(), k->id, (unsigned long long)(d.wtotal - d.rtotal));
	check_read(r);
}
static void addr_checks(CR *r) {
	if (!G->chk_cred) return; uint32_t l; const sockaddr *a = pomp_conn_get_local_addr(r->pc, &l); Stream *s = r->s; Conn *k = r->k; auto same = [](const sockaddr *x, uint32_t xl, const sockaddr_storage &y, socklen_t yl) { if (xl <= 2 && yl <= 2) return true; if (xl != yl || !x) return false; if (x->sa_family == AF_UNIX && yl > 2) { const char *p = ((const sockaddr_un *)x)->sun_path, *q = ((const sockaddr_un *)&y)->sun_path; if (p[0]) return !strncmp(p, q, yl - 2); } return !memcmp(x, &y, yl); };
	if (!same(a, l, s->local, s->llen)) V("C22", "%s: reported local address of conn %d (%u bytes) is not the one of its socket (%u bytes)", nm(r->c).c_str(), k->id, l, s->llen);
	a = pomp_conn_get_peer_addr(r->pc, &l); if (!same(a, l, s->peer, s->plen)) V("C22", "%s: reported peer address of conn %d (%u bytes) is not the one of the peer (%u bytes)", nm(r->c).c_str(), k->id, l, s->plen);
	const pomp_cred *cr = pomp_conn_get_peer_cred(r->pc);
	if (k->un) { if (!a) return; if (r->s->plen > 0 && l >= 2 && a->sa_family == AF_UNIX) { if (!cr) V("C22", "%s: no credentials on a local connection", nm(r->c).c_str()); Proc *h = k->host[1 - r->side]; if (cr && (cr->pid != (uint32_t)h->pid || cr->uid != (uint32_t)h->uid || cr->gid != (uint32_t)h->gid)) V("C22", "%s: peer credentials %u/%u/%u are not those of the peer (%d/%d/%d)", nm(r->c).c_str(), cr->pid, cr->uid, cr->gid, h->pid, h->uid, h->gid); probe("cred_checked"); } }
	else if (cr) V("C22", "%s: credentials reported for a connection that is not local", nm(r->c).c_str());
}
static void event_cb(pomp_ctx *pc, pomp_event ev, pomp_conn *conn, const pomp_msg *msg, void *ud) {
	Ctx *c = ctx_of(ud, pc, pomp_event_str(ev)); Node *n = c->n; InCb g(c);
	if (ev == POMP_EVENT_CONNECTED) {
		auto it = n->crmap.find(conn); if (it != n->crmap.end()) { if (it->second->up) V("C03", "%s: a connection is announced as connected twice", nm(c).c_str()); if (!it->second->aw.empty()) { bool m = false; for (auto &a : it->second->aw) if (!a.opt) m = true; if (m) V("C02", "%s: a connection is gone and sends on it have no completion", nm(c).c_str()); } }
		int fd = pomp_conn_get_fd(conn); Stream *s = dynamic_cast<Stream *>(fd_file(n->p, fd)); if (!s || !s->c) V("C03", "%s: connected event with descriptor %d, which is not a connection", nm(c).c_str(), fd);
		CR *r = new CR; r->c = c; r->pc = conn; r->k = s->c; r->side = s->side; r->s = s; r->t_up = W->now; r->alloc0 = W->fired[F_ALLOC]; r->ka_on = c->ka; r->ka_i = c->ki; r->ka_v = c->kv; r->ka_n = c->kn; G->allcr.push_back(r);
		TR("%s: connected, conn %d side %d", nm(c).c_str(), s->c->id, s->side); W->ops++;
		if (c->sp->server != (s->side == 1)) V("C03", "%s: connected event on the wrong kind of socket", nm(c).c_str());
		if (c->st == STOPPING && !c->stopmark) V("C03", "%s: connected event while the context is being stopped", nm(c).c_str());
		if (!c->sp->server) { for (CR *x : c->crs) if (x->up) V("C04", "%s: a client has two connections", nm(c).c_str()); c->attempting = false; if (c->att != s) V("C04", "%s: connected through a socket that is not its current attempt", nm(c).c_str()); c->att = nullptr; }
		else { int u = 0; for (CR *x : c->crs) if (x->up) u++; if (u >= 32) V("C05", "%s: a server has more than 32 connections", nm(c).c_str()); if (u == 31) probe("server_full"); }
		c->crs.push_back(r); n->crmap[conn] = r; c->nconn++; hist(r->k, 0); hist(r->k, 1);
		if (!r->k->un && G->chk_ka && (s->ka != (c->ka ? 1 : 0) || (c->ka && (s->ka_idle != c->ki || s->ka_intvl != c->kv || s->ka_cnt != c->kn)))) V("C20", "%s: keepalive of the new connection is %d (%d, %d, %d) but %d (%d, %d, %d) is configured", nm(c).c_str(), s->ka, s->ka_idle, s->ka_intvl, s->ka_cnt, c->ka, c->ki, c->kv, c->kn);
		addr_checks(r);
		if (!s->nonblock) V("C19", "%s: a connection is announced whose socket is in blocking mode", nm(c).c_str());
		if (!c->sp->server && pomp_ctx_get_conn(c->c) != conn) V("C03", "%s: the context's connection is not the one announced", nm(c).c_str());
		if (G->phase >= 1 && r->up) do_conn_send(n, r); else in_callback(n, c, r);
		return;
	}
	auto it = n->crmap.find(conn); if (it == n->crmap.end() || it->second->c != c) V("C03", "%s: %s event on a connection that was not announced", nm(c).c_str(), pomp_event_str(ev)); CR *r = it->second;
	if (!r->up) V("C03", "%s: %s event on conn %d after its disconnection", nm(c).c_str(), pomp_event_str(ev), r->k->id);
	if (ev == POMP_EVENT_DISCONNECTED) {
		TR("%s: disconnected, conn %d", nm(c).c_str(), r->k->id); W->ops++; r->up = false; c->t_down = W->now; disconnect_cause(r); disconnect_complete(r);
		auto &v = c->crs; v.erase(std::remove(v.begin(), v.end(), r), v.end());
		if (chance(1500) && G->phase == 0) { Built b = build(n, c->sp->raw, r->k->un, 100); send_one(r, b, [&]() { return c->sp->raw ? pomp_conn_send_raw_buf(conn, b.buf) : pomp_conn_send_msg(conn, b.m); }); drop(b); }
		in_callback(n, c, r); return;
	}
	if (ev != POMP_EVENT_MSG || !msg) V("C03", "%s: unknown event %d", nm(c).c_str(), (int)ev);
	if (c->sp->raw) V("C17", "%s: message event in a raw context", nm(c).c_str());
	recv_msg(r, msg);
	if (chance(500)) hold(n, pomp_msg_get_buffer(msg));
	if (n->cbbudget && G->phase == 0 && chance(800)) { // forward it as it is
		Ctx *o = n->ctxs[choose((uint32_t)n->ctxs.size())]; if (o->c && o->st == STARTED && !o->sp->raw) { std::vector<CR *> l; for (CR *x : o->crs) if (x->up) l.push_back(x); if (!l.empty()) { CR *x = l[choose((uint32_t)l.size())]; const void *d; size_t len; pomp_buffer_get_cdata(pomp_msg_get_buffer(msg), &d, &len, nullptr); Built b; b.b.assign((const char *)d, len); b.id = G->serial++; Hist *h = hist(r->k, 1 - r->side); bool okfd = true;
			if (!h->pc) { b.fds = h->q[h->lastm].fds; if (h->amb) okfd = b.fds.empty(); if (r->s->fds_lost) okfd = b.fds.empty(); } else { std::vector<uint32_t> fo; walk(b.b, &fo, nullptr); okfd = fo.empty(); }
			if (okfd && len < 4000) { n->cbbudget--; probe("forward"); send_one(x, b, [&]() { return pomp_conn_send_msg(x->pc, msg); }); } } } }
	in_callback(n, c, r);
}
static void raw_cb(pomp_ctx *pc, pomp_conn *conn, pomp_buffer *buf, void *ud) {
	Ctx *c = ctx_of(ud, pc, "raw"); Node *n = c->n; InCb g(c); if (!c->sp->raw) V("C17", "%s: raw notification in a message context", nm(c).c_str());
	auto it = n->crmap.find(conn); if (it == n->crmap.end() || it->second->c != c) V("C03", "%s: raw data on a connection that was not announced", nm(c).c_str()); CR *r = it->second; if (!r->up) V("C03", "%s: raw data on a connection after its disconnection", nm(c).c_str());
	recv_raw(r, buf); if (chance(1000)) hold(n, buf); in_callback(n, c, r);
}
static void send_cb(pomp_ctx *pc, pomp_conn *conn, pomp_buffer *buf, uint32_t status, void *, void *ud) {
	Ctx *c = ctx_of(ud, pc, "send"); Node *n = c->n; InCb g(c); if (!c->sp->sendcb) V("C02", "%s: send callback although none is set", nm(c).c_str());
	auto it = n->crmap.find(conn); if (it == n->crmap.end() || it->second->c != c) V("C03", "%s: send notice on a connection that was not announced", nm(c).c_str()); CR *r = it->second;
	const void *d; size_t l; pomp_buffer_get_cdata(buf, &d, &l, nullptr); W->ops++; uint64_t wt = r->k->d[r->side].wtotal; bool ok = status & POMP_SEND_STATUS_OK, ab = status & POMP_SEND_STATUS_ABORTED;
	while (!r->aw.empty() && r->aw.front().opt && ((r->aw.front().buf && r->aw.front().buf != buf) || !eqmask(r->aw.front().b, r->aw.front().fds, d, l))) r->aw.pop_front();
	if (r->aw.empty()) V("C02", "%s: send notice (status %x, %zu bytes) on conn %d but no accepted send waits for one", nm(c).c_str(), status, l, r->k->id);
	Aw a = r->aw.front(); if (!eqmask(a.b, a.fds, d, l)) V("C02", "%s: send notice on conn %d for another buffer than the oldest accepted one (#%llu)", nm(c).c_str(), r->k->id, (unsigned long long)a.id);
	TR("%s: send notice #%llu status %x", nm(c).c_str(), (unsigned long long)a.id, status); r->aw.pop_front();
	if (a.opt) for (Aw &x : r->aw) { if (x.opt) continue; if (eqmask(x.b, x.fds, d, l)) { x.opt = true; x.known = false; } break; } // the same content was forwarded: this may have been its notice
	if (ok == ab) V("C02", "%s: send notice with status %x", nm(c).c_str(), status);
	if (a.known && ok && wt < a.end) V("C02", "%s: send #%llu is reported OK but only %llu of its %zu bytes were handed to the system", nm(c).c_str(), (unsigned long long)a.id, (unsigned long long)(wt > a.start ? wt - a.start : 0), a.b.size());
	if (a.known && ab && wt >= a.end && !a.b.empty()) V("C02", "%s: send #%llu is reported as aborted but all of it was handed to the system", nm(c).c_str(), (unsigned long long)a.id);
	if (r->aw.empty() && !(status & POMP_SEND_STATUS_QUEUE_EMPTY)) V("C02", "%s: the last send notice of conn %d has no queue-empty flag", nm(c).c_str(), r->k->id);
	probe(ok ? "send_ok" : "send_aborted");
	if (!ok && r->up && !r->shut) V("C02", "%s: send #%llu is aborted while its connection is up", nm(c).c_str(), (unsigned long long)a.id);
	in_callback(n, c, r);
}
static void sock_cb(pomp_ctx *pc, int fd, pomp_socket_kind kind, void *ud) {
	Ctx *c = (Ctx *)ud; if (c->c != pc) V("C03", "socket callback of a context that was destroyed"); if (c->st == IDLE) V("C03", "%s: socket callback although the context is stopped", nm(c).c_str());
	Stream *s = dynamic_cast<Stream *>(fd_file(c->n->p, fd)); if (!s) V("C03", "%s: socket callback with descriptor %d, not a socket", nm(c).c_str(), fd); G->socks[s] = c;
	if (kind == POMP_SOCKET_KIND_SERVER) c->lst = s;
	if (kind == POMP_SOCKET_KIND_CLIENT) { if (c->attempting && c->att && !c->att->dead) V("C04", "%s: a second connection attempt while one is in progress", nm(c).c_str()); c->att = s; }
	Node *n = c->n; St s0 = c->st; { InCb g(c); in_callback(n, c, nullptr); } if (s0 != c->st) { c->lastsk = s; probe("stop_in_socket_cb"); }
}
static void on_attempt(Proc *, Stream *s) {
	auto it = G->socks.find(s); if (it == G->socks.end()) return; Ctx *c = it->second; TR("%s: connection attempt", nm(c).c_str()); probe("attempt");
	if (c->st == IDLE) V("C04", "%s: connection attempt of a stopped client", nm(c).c_str());
	if (c->st == STOPPING && c->lastsk != s) V("C04", "%s: connection attempt of a client that is being stopped", nm(c).c_str());
	for (CR *r : c->crs) if (r->up) V("C04", "%s: connection attempt while connected", nm(c).c_str());
	if (W->now - c->t_att < 2 * SEC) V("C04", "%s: connection attempt only %lld ms after the previous one", nm(c).c_str(), (long long)((W->now - c->t_att) / MS));
	if (W->now - c->t_down < 2 * SEC) V("C04", "%s: connection attempt only %lld ms after the disconnection", nm(c).c_str(), (long long)((W->now - c->t_down) / MS));
	c->t_att = W->now; c->attempting = true;
}
static void on_recv(Proc *, int, File *f, ssize_t n) {
	if (n <= 0) return; Stream *s = (Stream *)f; if (!s->c) return; { Hist *h = hist(s->c, 1 - s->side); if (h->pc) { uint64_t at = s->c->d[1 - s->side].rtotal; if (h->ref.ends.count(at)) h->sync.insert(at); } } Node *nd = nullptr; for (Node *x : G->nodes) if (x->p == cur->p) nd = x; if (!nd) return;
	for (Ctx *c : nd->ctxs) for (CR *r : c->crs) if (r->s == s && r->susp && r->up) V("C15", "%s: %zd bytes are read from conn %d although reading is suspended", nm(c).c_str(), n, r->k->id);
}
// ---------------------------------------------------------------- application operations
static void flush_down(Node *n) { // nothing of the library is on the stack
	if (n->depth) return;
	for (auto it = n->crmap.begin(); it != n->crmap.end();) { CR *r = it->second; if (r->up) { ++it; continue; } for (auto &a : r->aw) if (!a.opt) V("C02", "%s: conn %d is gone but send #%llu, which was accepted, has no completion", nm(r->c).c_str(), r->k->id, (unsigned long long)a.id); r->dead = true; it = n->crmap.erase(it); }
}
static void scan(Node *n) { // every socket of the library belongs to something
	for (size_t i = 0; i < n->p->fds.size(); i++) {
		auto &e = n->p->fds[i]; if (!e.f || e.owner != OWN_LIB || e.f->kind != K_STREAM) continue; Stream *s = (Stream *)e.f; if (s->st == Stream::LISTEN) { bool ok = false; for (Ctx *c : n->ctxs) if (c->c && c->lst == s && c->st != IDLE) ok = true; if (!ok) V("C07", "%s: listening socket %zu is left open by a stopped context", n->name.c_str(), i); continue; }
		bool ok = false; for (Ctx *c : n->ctxs) { for (CR *r : c->crs) if (r->s == s && r->up) ok = true; if (!c->sp->server && c->att == s && c->st != IDLE) ok = true; }
		if (!ok) V(s->side == 1 && s->c ? "C18" : "C07", "%s: socket %zu (%s) is open in the library but belongs to no connection or attempt", n->name.c_str(), i, s->c && s->side == 1 ? "accepted" : "outgoing");
	}
	for (Ctx *c : n->ctxs) if (c->c && c->st == STARTED) {
		int u = 0; for (CR *r : c->crs) if (r->up) u++;
		if (c->sp->server) { int k = 0; for (pomp_conn *x = pomp_ctx_get_next_conn(c->c, nullptr); x; x = pomp_ctx_get_next_conn(c->c, x)) { k++; auto it = n->crmap.find(x); if (it == n->crmap.end() || it->second->c != c || !it->second->up) V("C03", "%s: the list of connections holds one that is not announced", nm(c).c_str()); if (k > 1000) break; } if (k != u) V("C03", "%s: the list of connections has %d entries, %d are announced", nm(c).c_str(), k, u);
			if (c->lst && c->lst->st == Stream::LISTEN && !c->lst->dead && G->chk_cred) { uint32_t l; const sockaddr *a = pomp_ctx_get_local_addr(c->c, &l); if (!a || l != c->lst->llen || (c->sp->fam != AF_UNIX && memcmp(a, &c->lst->local, l)) || (c->sp->fam == AF_UNIX && memcmp(((const sockaddr_un *)a)->sun_path, ((sockaddr_un *)&c->lst->local)->sun_path, l - 2 - (c->sp->path[0] ? 1 : 0)))) V("C22", "%s: reported local address (%u bytes) is not the bound one (%u bytes)", nm(c).c_str(), l, c->lst->llen);
				if (c->sp->fam == AF_UNIX && c->sp->path[0]) { auto it = K->paths.find(c->sp->path); if (it == K->paths.end() || it->second.sock != c->lst) V("C22", "%s: the socket file does not exist or is not the one of the server while it listens", nm(c).c_str()); uint32_t m = c->mode ? c->mode : 0755; if (it->second.mode != m) V("C22", "%s: socket file has mode %o, %o expected", nm(c).c_str(), it->second.mode, m); } } }
		else if ((pomp_ctx_get_conn(c->c) != nullptr) != (u > 0)) V("C03", "%s: the context's connection does not match the events", nm(c).c_str());
	}
	for (auto &h : n->holds) { const void *d; size_t l; pomp_buffer_get_cdata(h.b, &d, &l, nullptr); if (l != h.snap.size() || memcmp(d, h.snap.data(), l)) V("C16", "%s: contents of a buffer the application holds have changed", n->name.c_str()); }
}
static bool create(Ctx *c) {
	Node *n = c->n; Spec *s = c->sp; uint64_t f0 = W->nfired;
	c->c = n->internal ? pomp_ctx_new(event_cb, c) : pomp_ctx_new_with_loop(event_cb, c, n->loop);
	if (!c->c) { if (W->nfired == f0) V("C19", "%s: no context can be created although nothing failed", n->name.c_str()); return false; }
	c->st = IDLE; c->incb = 0; c->gen++; c->ka = true; c->ki = 5; c->kv = 1; c->kn = 2; c->lst = c->att = nullptr; c->attempting = false;
	if (n->internal) n->loop = pomp_ctx_get_loop(c->c);
	if (s->raw) pomp_ctx_set_raw(c->c, raw_cb); pomp_ctx_set_socket_cb(c->c, sock_cb); if (s->sendcb) pomp_ctx_set_send_cb(c->c, send_cb);
	if (s->rb) pomp_ctx_set_read_buffer_len(c->c, s->rb);
	if (!s->ka || s->ki != 5) { pomp_ctx_setup_keepalive(c->c, s->ka, s->ki, s->kv, s->kn); c->ka = s->ka; c->ki = s->ki; c->kv = s->kv; c->kn = s->kn; }
	return true;
}
static void stopped(Ctx *c) {
	for (CR *r : c->crs) if (r->up) V("C03", "%s: stopped, but conn %d was not announced as disconnected", nm(c).c_str(), r->k->id);
	if (c->att && !c->att->dead) { for (auto &e : c->n->p->fds) if (e.f == c->att && e.owner == OWN_LIB) V("C07", "%s: stopped, but the socket of its connection attempt is still open", nm(c).c_str()); }
	c->st = IDLE; c->stopmark = false; c->att = nullptr; c->attempting = false; c->t_att = c->t_down = -NEVER / 2;
	if (c->sp->server) { uint32_t l = 99; pomp_ctx_get_local_addr(c->c, &l); if (l) V("C22", "%s: a stopped server reports a local address", nm(c).c_str()); if (c->sp->fam == AF_UNIX && c->sp->path[0]) { auto it = K->paths.find(c->sp->path); if (it != K->paths.end() && c->lst && it->second.ino == c->lst->ino) V("C22", "%s: stopped, but its socket file still exists", nm(c).c_str()); }
		if (pomp_ctx_get_next_conn(c->c, nullptr)) V("C03", "%s: stopped, but it still has connections", nm(c).c_str()); }
	else if (pomp_ctx_get_conn(c->c)) V("C03", "%s: stopped, but it still has a connection", nm(c).c_str());
	c->lst = nullptr; TR("%s: stopped", nm(c).c_str()); probe("stopped");
}
struct Mark { Ctx *c; uint64_t gen; Node *n; uint32_t ngen; };
static void mark_cb(void *ud) {
	Mark *m = (Mark *)ud; Mark x = *m; delete m; if (x.n->gen != x.ngen || x.c->gen != x.gen) return; if (x.c->st != STOPPING) return;
	if (x.c->incb) V("C03", "%s: idle functions run inside a callback", nm(x.c).c_str());
	probe("stop_deferred_done"); stopped(x.c);
}
static void stop(Ctx *c) {
	Node *n = c->n; if (!c->c) return; W->ops++; TR("%s: stop%s", nm(c).c_str(), c->incb ? " (from a callback of this context)" : "");
	if (c->st == IDLE) { int r = pomp_ctx_stop(c->c); if (r) V("C03", "%s: stopping a stopped context returns %d", nm(c).c_str(), r); return; }
	if (c->st == STOPPING) { int r = pomp_ctx_stop(c->c); if (r) V("C03", "%s: stopping a context twice returns %d", nm(c).c_str(), r); return; }
	uint32_t a0 = W->fired[F_ALLOC];
	if (c->incb == 0) { c->st = STOPPING; c->stopmark = false; int r = pomp_ctx_stop(c->c); if (r) V("C03", "%s: stop returns %d", nm(c).c_str(), r); stopped(c); flush_down(n); return; }
	St s0 = c->st; c->st = STOPPING; c->stopmark = true; int r = pomp_ctx_stop(c->c);
	if (r < 0) { if (W->fired[F_ALLOC] == a0) V("C03", "%s: stop from a callback returns %d although nothing failed", nm(c).c_str(), r); c->st = s0; c->stopmark = false; return; }
	probe("stop_deferred"); { NoFault nf; int q = pomp_loop_idle_add(n->loop, mark_cb, new Mark{c, c->gen, n, n->gen}); if (q < 0) V("C11", "queuing an idle function fails with %d although nothing failed", q); }
	if (chance(3000)) { int q = pomp_ctx_destroy(c->c); if (q != -EBUSY) V("C03", "%s: destroying a context that is being stopped returns %d", nm(c).c_str(), q); }
	if (chance(3000)) { int q = c->sp->server ? pomp_ctx_listen(c->c, (sockaddr *)&c->sp->a, c->sp->alen) : pomp_ctx_connect(c->c, (sockaddr *)&c->sp->a, c->sp->alen); if (q != -EBUSY) V("C03", "%s: starting a context that is being stopped returns %d", nm(c).c_str(), q); }
}
static bool start(Ctx *c) {
	Node *n = c->n; Spec *s = c->sp; if (!c->c && !create(c)) return false; if (c->st != IDLE) return true;
	Target *t = G->targets[s->target]; uint64_t f0 = W->nfired; W->ops++; TR("%s: start", nm(c).c_str()); c->st = STARTED; c->alloc0 = W->fired[F_ALLOC]; c->t_start = W->now; (void)t;
	bool conflict = false; if (s->server) for (Stream *l : K->listeners) if (l->lhost && l->lhost->alive && l->family == s->fam && s->fam != AF_UNIX && ntohs(((sockaddr_in *)&l->local)->sin_port) == t->port && (l->lhost == n->p)) conflict = true;
	c->mode = s->mode; if (s->server && s->fam == AF_UNIX && chance(2500)) c->mode = chance(5000) ? 0 : choose(0777) + 1; // the mode is that of each start
	int r; if (s->server) r = c->mode ? pomp_ctx_listen_with_access_mode(c->c, (sockaddr *)&s->a, s->alen, c->mode) : pomp_ctx_listen(c->c, (sockaddr *)&s->a, s->alen); else r = pomp_ctx_connect(c->c, (sockaddr *)&s->a, s->alen);
	TR("  -> %d", r); if (r == 0) { if (c->st == STOPPING) return false; if (s->server && W->nfired == f0 && W->now >= n->p->ip_up_at && !(c->lst && c->lst->st == Stream::LISTEN)) V("C04", "%s: started, nothing failed, but it does not listen", nm(c).c_str()); return true; }
	if (W->nfired == f0 && !conflict) V(s->server ? "C22" : "C04", "%s: starting fails with %d although nothing failed", nm(c).c_str(), r);
	if (c->st == STOPPING) return false; // stopped from its socket callback
	probe("start_failed"); if (chance(2000) && !(n->internal && (n->depth || !n->idles.empty()))) { int q = pomp_ctx_destroy(c->c); if (q == 0) { c->c = nullptr; c->gen++; c->st = IDLE; c->lst = c->att = nullptr; for (size_t i = 0; i < n->p->fds.size(); i++) if (n->p->fds[i].owner == OWN_LIB && n->p->fds[i].f && n->p->fds[i].f->kind == K_STREAM && G->socks[(Stream *)n->p->fds[i].f] == c) V("C07", "%s: destroyed after a failed start, its socket is left", nm(c).c_str()); if (n->internal) n->loop = nullptr; return false; } }
	c->st = STOPPING; c->stopmark = false; int q = c->incb ? -1 : pomp_ctx_stop(c->c); if (q == 0) stopped(c); else V("C03", "%s: stop after a failed start returns %d", nm(c).c_str(), q);
	return false;
}
static bool destroy(Ctx *c) {
	if (!c->c) return true; Node *n = c->n; if (c->st != IDLE) { int r = pomp_ctx_destroy(c->c); if (r != -EBUSY) V("C07", "%s: destroying an active context returns %d", nm(c).c_str(), r); probe("destroy_busy"); return false; }
	if (c->incb) return false; if (n->internal && (n->depth || !n->idles.empty())) return false; // the loop goes with it
	TR("%s: destroy", nm(c).c_str()); pomp_ctx *x = c->c; if (n->internal) { n->gen++; }
	int r = pomp_ctx_destroy(x); if (r < 0) V("C07", "%s: destroying a stopped context returns %d", nm(c).c_str(), r); c->c = nullptr; c->gen++; if (n->internal) n->loop = nullptr; probe("ctx_destroyed"); return true;
}
static void idle_cb(void *ud) { Idle *i = (Idle *)ud; Node *n = i->n; if (i->removed) V("C11", "an idle function runs after it was removed"); if (i->ran) V("C11", "an idle function runs twice"); if (n->idles.empty() || n->idles.front() != i) V("C11", "idle functions run out of order"); n->idles.pop_front(); i->ran = true; n->depth++; in_callback(n, nullptr, nullptr); n->depth--; }
static void tm_cb(pomp_timer *, void *ud) { Node *n = (Node *)ud; if (!n->tm_armed) V("C10", "timer callback though not armed"); n->tm_armed = false; n->depth++; in_callback(n, nullptr, nullptr); n->depth--; }
static void ev_cb(pomp_evt *, void *ud) { Node *n = (Node *)ud; if (!n->ev_sig) V("C12", "event callback without a signal"); n->ev_sig = false; n->depth++; in_callback(n, nullptr, nullptr); n->depth--; }
static void pipe_cb(int fd, uint32_t ev, void *ud) { Node *n = (Node *)ud; if (!n->piped || fd != n->pipefd[0]) V("C13", "callback of a descriptor that is not registered"); if (!(ev & POMP_FD_EVENT_IN)) V("C13", "descriptor callback with events %x", ev); if (!n->npipe) V("C13", "descriptor callback although nothing is readable"); char b[4]; ssize_t r = k_read(n->p, fd, b, 1); if (r == 1) n->npipe--; n->depth++; in_callback(n, nullptr, nullptr); n->depth--; }
static CR *any_cr(Node *n, Ctx *in, CR *r) {
	if (r && r->up && chance(5000)) return r; std::vector<CR *> l; for (Ctx *c : n->ctxs) if (c->c && c->st != IDLE) for (CR *x : c->crs) if (x->up) l.push_back(x); (void)in; return l.empty() ? nullptr : l[choose((uint32_t)l.size())];
}
static void query(Node *n) { if (n->depth == 0) scan(n); CR *r = any_cr(n, nullptr, nullptr); if (r && r->s->st == Stream::EST) addr_checks(r); }
static void resume(CR *r) { r->susp = false; int rc = pomp_conn_resume_read(r->pc); if (rc < 0) V("C15", "%s: resuming reads returns %d", nm(r->c).c_str(), rc); }
static void op(Node *n, Ctx *in, CR *cr) {
	W->ops++; Ctx *c = n->ctxs[choose((uint32_t)n->ctxs.size())]; if (in && chance(5000)) c = in;
	switch (choosew({G->w_send, 12, G->w_disc, G->w_susp, G->w_susp * 2, G->w_stop, G->w_stop * 2, 1, G->w_set, G->w_ka, 3, 3, 2, 2, 3, 1, 2})) {
	case 0: { CR *r = any_cr(n, in, cr); if (r) { uint32_t k = 1 + choosew({8, 2, 1}) * choose(4); while (k-- && r->up) do_conn_send(n, r); } break; }
	case 1: if (c->c && c->st == STARTED) { uint32_t k = 1 + choosew({6, 1}) * choose(4); while (k--) do_broadcast(n, c); } break;
	case 2: { CR *r = any_cr(n, in, cr); if (!r) break; TR("%s: disconnect conn %d", nm(r->c).c_str(), r->k->id); bool s0 = r->shut; r->shut = true; int rc = pomp_conn_disconnect(r->pc); if (rc < 0) V("C21", "%s: disconnecting returns %d", nm(r->c).c_str(), rc); (void)s0; probe("disconnect"); break; }
	case 3: { CR *r = any_cr(n, in, cr); if (!r) break; TR("%s: suspend conn %d", nm(r->c).c_str(), r->k->id); int rc = pomp_conn_suspend_read(r->pc); if (rc < 0) V("C15", "%s: suspending reads returns %d", nm(r->c).c_str(), rc); r->susp = true; r->t_susp = W->now; probe("suspend"); break; }
	case 4: { for (Ctx *x : n->ctxs) for (CR *r : x->crs) if (r->up && r->susp && chance(6000)) { TR("%s: resume conn %d", nm(x).c_str(), r->k->id); resume(r); goto out; } break; }
	case 5: if (c->c) stop(c); break;
	case 6: if (c->st == IDLE && !c->incb && !(n->internal && n->depth)) start(c); break;
	case 7: if (c->st != STOPPING) { if (destroy(c) && !(n->internal && n->depth)) create(c); } break;
	case 8: { CR *r = any_cr(n, in, cr); static const size_t L[] = {1, 7, 64, 333, 4096, 16384}; size_t l = L[choose(6)]; if (G->bytecap > 50000 && l < 64) l = 64; if (r && chance(7000)) { TR("%s: read buffer of conn %d is %zu bytes", nm(r->c).c_str(), r->k->id, l); uint32_t a0 = W->fired[F_ALLOC]; int rc = pomp_conn_set_read_buffer_len(r->pc, l); if (rc < 0 && W->fired[F_ALLOC] == a0) V("C21", "%s: setting the read buffer length returns %d", nm(r->c).c_str(), rc); } else if (c->c) pomp_ctx_set_read_buffer_len(c->c, l); probe("set_readbuf"); break; }
	case 9: if (c->c) { c->ka = chance(7000); c->ki = (int)range(1, 8); c->kv = (int)range(1, 4); c->kn = (int)range(1, 4); pomp_ctx_setup_keepalive(c->c, c->ka, c->ki, c->kv, c->kn); } break;
	case 10: query(n); break;
	case 11: if (n->loop && n->idles.size() < 8) { Idle *i = new Idle{n, G->serial++}; n->idles.push_back(i); int rc = pomp_loop_idle_add(n->loop, idle_cb, i); if (rc < 0) { n->idles.pop_back(); } } else if (n->loop && !n->idles.empty()) { size_t k = choose((uint32_t)n->idles.size()); Idle *i = n->idles[k]; int rc = pomp_loop_idle_remove(n->loop, idle_cb, i); if (rc == 0) { i->removed = true; n->idles.erase(n->idles.begin() + k); } } break;
	case 12: if (n->tm && !n->tm_armed) { n->tm_armed = true; pomp_timer_set(n->tm, range(1, 50)); } break;
	case 13: if (n->ev) { n->ev_sig = true; int rc = pomp_evt_signal(n->ev); if (rc < 0) n->ev_sig = false; } break;
	case 14: if (!n->holds.empty()) hold_release(n, choose((uint32_t)n->holds.size())); break;
	case 15: if (n->loop) { if (chance(5000)) { if (n->ctxs[0]->c && chance(5000)) pomp_ctx_wakeup(n->ctxs[0]->c); else pomp_loop_wakeup(n->loop); } else if (n->piped) { if (k_write(n->p, n->pipefd[1], "x", 1) == 1) n->npipe++; } } break;
	default: if (chance(1500)) { ns d = (ns)range(1, 2500) * MS; TR("%s: busy for %lld ms", n->name.c_str(), (long long)(d / MS)); fault_fired(F_STALL); sleep_ns(d); } break;
	}
out: flush_down(n);
}
// ---------------------------------------------------------------- node
static int wait_(Node *n, int to) {
	n->t_wait = W->now; uint64_t c0 = n->cbs;
	int r; Ctx *c = n->ctxs[choose((uint32_t)n->ctxs.size())];
	if (n->extfd) {
		intptr_t fd = c->c && chance(5000) ? pomp_ctx_get_fd(c->c) : pomp_loop_get_fd(n->loop); struct pollfd pf; pf.fd = (int)fd; pf.events = POLLIN; pf.revents = 0; int q = k_poll(n->p, &pf, 1, W->now + (ns)to * MS); if (q <= 0) r = q == 0 ? -ETIMEDOUT : q; else { r = chance(5000) || !c->c ? pomp_loop_process_fd(n->loop) : pomp_ctx_process_fd(c->c); if (r == -ETIMEDOUT) r = 0; }
	} else r = n->loop && (!c->c || chance(7000)) ? pomp_loop_wait_and_process(n->loop, to) : c->c ? pomp_ctx_wait_and_process(c->c, to) : -EINVAL;
	flush_down(n); ns t0 = n->t_wait; n->nscan++;
	for (Ctx *x : n->ctxs) for (CR *k : x->crs) if (k->up) check_read(k);
	if (r == -ETIMEDOUT) {
		if (!n->idles.empty() && !n->depth) V("C11", "%s: the loop was run and timed out but an idle function is still pending", n->name.c_str());
		for (Ctx *x : n->ctxs) if (x->c && x->st == STARTED) {
			if (x->sp->server && x->lst && x->lst->st == Stream::LISTEN) for (Stream *q : x->lst->acceptq) if (q->c && q->c->t_est[1] <= t0 - 2 * MS) V("C18", "%s: the loop finds nothing to do but a connection waits to be accepted", nm(x).c_str());
			for (CR *k : x->crs) if (k->up) {
				Dir &in_ = k->k->d[1 - k->side];
				if (!k->susp && !in_.q.empty() && in_.q.front().arr <= t0 - 2 * MS) V("C15", "%s: the loop finds nothing to do but conn %d has data to read and is not suspended", nm(x).c_str(), k->k->id);
				if (!k->susp && (in_.fin_arr || k->s->st == Stream::CLOSED) && k->k->t_reset <= t0 - 2 * MS && W->now - k->t_up > SEC) { if (in_.last_write <= t0 - 2 * MS && !in_.fly.size() && k->s->poll() & EPOLLIN) { if (n->nscan > 3 && k->bad_fd) V("C03", "%s: conn %d was closed by its peer but is not announced as disconnected", nm(x).c_str(), k->k->id); k->bad_fd = true; } }
				if (k->c->ka == k->ka_on && k->ka_on && !k->k->un && G->chk_ka && k->k->d[k->side].fly.empty() && k->s->st == Stream::EST) { ns b = (ns)(k->ka_i + k->ka_v * (k->ka_n + 1) + 2) * SEC; Proc *o = k->k->host[1 - k->side]; if (W->now - std::max(k->k->last_rx[k->side], k->k->d[k->side].t_fly) > b && W->now - k->t_up > b && o != n->p) V("C20", "%s: conn %d: the peer is silent for %lld s, keepalive is %d + %d x %d s, and the connection is still up", nm(x).c_str(), k->k->id, (long long)((W->now - k->k->last_rx[k->side]) / SEC), k->ka_i, k->ka_v, k->ka_n); }
			}
		}
	}
	if ((r == -ETIMEDOUT && chance(3000)) || n->nscan % 16 == 0) { scan(n); }
	if (n->cbs == c0 && r != -ETIMEDOUT) { if (++n->spin > 8) { n->spin = 0; sleep_ns(5 * MS); } }
	return r;
}
static void node_setup(Node *n) {
	Proc *p = n->p; n->depth = 0; n->gen++; n->holds.clear(); n->idles.clear(); n->crmap.clear(); n->tm = nullptr; n->ev = nullptr; n->piped = false; n->npipe = 0; n->ev_sig = n->tm_armed = false; n->loop = nullptr; n->pipefd[0] = -1; cur->noblock = "C19";
	for (Ctx *c : n->ctxs) { c->c = nullptr; c->st = IDLE; c->incb = 0; c->crs.clear(); c->gen++; c->lst = c->att = nullptr; c->attempting = false; c->t_att = c->t_down = -NEVER / 2; c->stopmark = false; }
	if (!n->internal) { while (!n->loop) { uint64_t f0 = W->nfired; n->loop = pomp_loop_new(); if (!n->loop) { if (W->nfired == f0) V("C19", "no loop can be created although nothing failed"); sleep_ns(10 * MS); } }
		NoFault nf; n->tm = pomp_timer_new(n->loop, tm_cb, n); n->ev = pomp_evt_new(); pomp_evt_attach_to_loop(n->ev, n->loop, ev_cb, n); k_pipe(p, n->pipefd, O_NONBLOCK); pomp_loop_add(n->loop, n->pipefd[0], POMP_FD_EVENT_IN, pipe_cb, n); n->piped = true; }
	for (Ctx *c : n->ctxs) { for (int i = 0; i < 50 && !c->c; i++) if (!create(c)) sleep_ns(10 * MS); if (chance(9000)) start(c); }
}
static void node_teardown(Node *n) {
	std::vector<Ctx *> l = n->ctxs; for (size_t i = l.size(); i > 1; i--) std::swap(l[i - 1], l[choose((uint32_t)i)]);
	for (Ctx *c : l) { if (c->st == STOPPING) wait_(n, 0); stop(c); if (chance(3000)) wait_(n, 0); for (int i = 0; i < 20 && n->internal && n->loop && !n->idles.empty(); i++) wait_(n, 0); destroy(c); }
	while (!n->holds.empty()) hold_release(n, 0);
	if (!n->internal) {
		NoFault nf; for (int i = 0; i < 20 && !n->idles.empty(); i++) pomp_loop_wait_and_process(n->loop, 0);
		pomp_timer_clear(n->tm); pomp_timer_destroy(n->tm); pomp_evt_detach_from_loop(n->ev, n->loop); pomp_evt_destroy(n->ev); pomp_loop_remove(n->loop, n->pipefd[0]); int r = pomp_loop_destroy(n->loop); if (r < 0) V("C07", "%s: the loop cannot be destroyed (%d) although everything in it was", n->name.c_str(), r);
	}
	check_clean(n->p, "C07"); n->gone = true; G->nteardown++; TR("%s: torn down", n->name.c_str());
}
static void node_main(Node *n) {
	node_setup(n); n->up = true; ns next = W->now;
	for (;;) {
		if (G->phase == 0) {
			if (W->now >= next && n->budget) { uint32_t k = choosew({4, 4, 2, 1}); while (k-- && n->budget) { n->budget--; op(n, nullptr, nullptr); } next = W->now + (ns)geom(300) * MS; }
			for (Ctx *c : n->ctxs) if (!c->c || (c->st == IDLE && chance(300))) { start(c); if (!c->c) sleep_ns((ns)range(5, 50) * MS); }
		} else if (G->phase == 1) {
			for (Ctx *c : n->ctxs) { for (CR *r : c->crs) if (r->up && r->susp) resume(r); if (c->st == IDLE) start(c); }
			int due = W->now >= G->t1 + 12 * SEC ? 2 : W->now >= G->t1 + SEC ? 1 : 0;
			if (n->settle_sent < due) { n->settle_sent = due; for (Ctx *c : n->ctxs) { std::vector<CR *> l = c->crs; for (CR *r : l) if (r->up && !r->shut) { do_conn_send(n, r); if (r->up) do_conn_send(n, r); } } while (!n->holds.empty()) hold_release(n, 0); }
		} else { node_teardown(n); return; }
		if (!n->loop) { for (Ctx *c : n->ctxs) if (!c->c) create(c); if (!n->loop) { sleep_ns(10 * MS); continue; } }
		ns w = G->phase == 0 && n->budget ? std::max<ns>((next - W->now) / MS, 0) : 1000; if (w > 1000) w = 1000; if (G->phase == 1) w = std::min<ns>(w, pick<uint32_t>({300, 500, 1000}));
		wait_(n, (int)(chance(1500) ? 0 : w));
	}
}
// ---------------------------------------------------------------- raw peers
static void pc_close(PC *c) { if (c->closed) return; c->closed = true; k_close(c->p->p, c->fd); }
static std::string peer_msg(bool *wf, std::vector<int> *nfd, int hostile) {
	std::string m("POMP\0\0\0\0\0\0\0\0", 12); uint32_t id = (uint32_t)G->serial++; memcpy(&m[4], &id, 4); uint32_t na = choosew({2, 3, 2, 1, 1}); *wf = true;
	for (uint32_t i = 0; i < na; i++) switch (choose(8)) {
		case 0: m += "\x02"; m += (char)choose(256); break; case 1: m += std::string("\x03\x50\x4f", 3); break; case 2: { m += "\x06"; uint32_t v = choose(0xffffffff); while (v >= 0x80) { m += (char)(v | 0x80); v >>= 7; } m += (char)v; break; }
		case 3: { std::string s; fill(s, choose(40)); for (auto &c : s) if (!c) c = 'P'; m += "\x09"; m += (char)(s.size() + 1); m += s; m += '\0'; break; }
		case 4: case 5: { uint32_t n = chance(1000) ? choose(5000) : choose(60); std::string s; fill(s, n); m += "\x0a"; uint32_t v = n; while (v >= 0x80) { m += (char)(v | 0x80); v >>= 7; } m += (char)v; m += s; break; }
		case 6: m += "\x0c"; m += "abcdefgh"; break;
		default: if (nfd && chance(6000)) { m += "\x0d"; if (chance(5000)) m += std::string("\0\0\0\0", 4); else m += std::string("\x03\0\0\0", 4); nfd->push_back(1); } break;
	}
	if (hostile && chance(6000)) { switch (choose(8)) { // spoil the arguments
		case 0: m += (char)pick<uint32_t>({0, 14, 255, 0x50}); break; case 1: m += "\x09\x05" "ab"; break; case 2: m += std::string("\x09\0", 2); break; case 3: m += "\x09\x03" "abc"; break; case 4: m += "\x0a\xff\xff\xff\xff\x0f"; break; case 5: m += "\x06\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x01"; break; case 6: if (m.size() > 13) m.resize(m.size() - 1); break; default: if (m.size() > 12) m[12 + choose((uint32_t)m.size() - 12)] ^= (char)(1 + choose(255)); break; } *wf = false; fault_fired(F_HOSTILE); }
	uint32_t sz = (uint32_t)m.size(); memcpy(&m[8], &sz, 4); return m;
}
static void pc_flush(PC *c) { // write some of what is queued
	Hist *h = nullptr; if (c->s->c) { h = hist(c->s->c, c->s->side); h->pc = c; } if (!h) return; h->ref.hostile = c->kind == 1;
	for (int i = 0; i < 30 && c->off < c->out.size(); i++) {
		size_t n = c->out.size() - c->off; if (chance(6000)) n = 1 + choose((uint32_t)std::min<size_t>(n, 50)); 
		size_t fi = SIZE_MAX; for (size_t k = 0; k < c->fds.size(); k++) if (c->fds[k].first >= c->off) { if (c->fds[k].first == c->off) fi = k; else if (c->off + n > c->fds[k].first) n = c->fds[k].first - c->off; break; }
		ssize_t r;
		if (fi != SIZE_MAX && !c->fds[fi].second.empty()) {
			// send with ancillary data
			for (size_t k = fi + 1; k < c->fds.size(); k++) if (c->off + n > c->fds[k].first) { n = c->fds[k].first - c->off; break; }
			std::vector<int> fl; for (File *f : c->fds[fi].second) { int x = fd_alloc(c->p->p, f, false, OWN_APP, "app"); file_get(f); fl.push_back(x); }
			char cb[CMSG_SPACE(16 * sizeof(int))]; memset(cb, 0, sizeof cb); struct iovec iv = {(void *)(c->out.data() + c->off), n}; struct msghdr m; memset(&m, 0, sizeof m); m.msg_iov = &iv; m.msg_iovlen = 1; m.msg_control = cb; m.msg_controllen = CMSG_SPACE(fl.size() * sizeof(int)); struct cmsghdr *cm = CMSG_FIRSTHDR(&m); cm->cmsg_level = SOL_SOCKET; cm->cmsg_type = SCM_RIGHTS; cm->cmsg_len = CMSG_LEN(fl.size() * sizeof(int)); memcpy(CMSG_DATA(cm), fl.data(), fl.size() * sizeof(int));
			h->ref.sent.insert(c->fds[fi].second.begin(), c->fds[fi].second.end());
			r = k_sendmsg(c->p->p, c->fd, &m, 0);
			if (r > 0) { h->ref.pend.insert(h->ref.pend.end(), c->fds[fi].second.begin(), c->fds[fi].second.end()); c->fds[fi].second.clear(); h->ref.feed(c->out.data() + c->off, r); c->off += r; }
			for (int x : fl) k_close(c->p->p, x); if (r > 0) continue;
		} else r = k_write(c->p->p, c->fd, c->out.data() + c->off, n);
		if (r == -EAGAIN) return; if (r < 0) { c->done_w = true; c->off = c->off; c->out.resize(c->off); return; }
		h->ref.feed(c->out.data() + c->off, r); c->off += r;
	}
}
static void pc_recv(PC *c) {
	Conn *k = c->s->c; if (!k) return; Hist *h = hist(k, 1 - c->s->side);
	for (int i = 0; i < 20; i++) {
		char b[4096], cb[256]; struct iovec iv = {b, sizeof b}; struct msghdr m; memset(&m, 0, sizeof m); m.msg_iov = &iv; m.msg_iovlen = 1; m.msg_control = cb; m.msg_controllen = sizeof cb; ssize_t r = c->s->family == AF_UNIX ? k_recvmsg(c->p->p, c->fd, &m, 0) : k_read(c->p->p, c->fd, b, sizeof b);
		if (r == -EAGAIN) return; if (r <= 0) { c->eof = true; return; }
		if (c->s->family == AF_UNIX) for (struct cmsghdr *x = CMSG_FIRSTHDR(&m); x; x = CMSG_NXTHDR(&m, x)) if (x->cmsg_type == SCM_RIGHTS) { size_t nf = (x->cmsg_len - CMSG_LEN(0)) / sizeof(int); for (size_t q = 0; q < nf; q++) { int fd; memcpy(&fd, CMSG_DATA(x) + q * sizeof(int), sizeof fd); File *f = fd_file(c->p->p, fd); h->pfds.push_back(f); k_close(c->p->p, fd); } }
		if (h->unk) continue;
		// what the library writes is exactly the accepted buffers, one after the other
		for (ssize_t q = 0; q < r;) {
			while (h->pm < h->q.size() && (h->q[h->pm].st == REJ || h->q[h->pm].b.size() == h->poff)) { h->pm++; h->poff = 0; }
			if (h->pm >= h->q.size()) V(c->raw ? "C17" : "C01", "conn %d: the library wrote bytes that belong to no accepted send: %s", k->id, hex(b + q, r - q).c_str());
			Ent &e = h->q[h->pm]; size_t n = std::min<size_t>(r - q, e.b.size() - h->poff); std::string x = e.b.substr(h->poff, n), y(b + q, n); for (auto &f : e.fds) for (uint32_t o = f.first; o < f.first + 4; o++) if (o >= h->poff && o < h->poff + n) x[o - h->poff] = y[o - h->poff] = 0;
			if (x != y) V(c->raw ? "C17" : "C01", "conn %d: bytes written by the library differ from accepted send #%llu at offset %zu", k->id, (unsigned long long)e.id, h->poff);
			h->poff += n; q += n; h->rx = h->poff == e.b.size() ? h->pm + 1 : h->pm;
		}
		size_t k2 = 0; bool done = h->pfds.empty(); for (size_t e = 0; e <= h->pm && e < h->q.size() && !done; e++) { if (h->q[e].st == REJ || (e == h->pm && h->poff == 0)) continue; for (auto &f : h->q[e].fds) { if (k2 >= h->pfds.size()) { V("C06", "conn %d: bytes of send #%llu arrived without its descriptors", k->id, (unsigned long long)h->q[e].id); } if (h->pfds[k2] != f.second) V("C06", "conn %d: descriptor number %zu received from the library is not the one sent", k->id, k2 + 1); k2++; } }
		if (!done && k2 < h->pfds.size()) V("C06", "conn %d: the library sent more descriptors than the accepted messages have", k->id);
	}
}
static void pc_produce(PC *c) {
	Hist *h = nullptr; (void)h; if (c->out.size() - c->off > 8000 || c->done_w) return; bool un = c->s->family == AF_UNIX; uint32_t k = range(1, 4);
	while (k--) {
		size_t at0 = c->out.size(); bool wf; std::vector<int> nfd; 
		if (c->raw) { std::string s; fill(s, 1 + choose(300)); G->serial++; c->out += s; continue; }
		if (c->kind == 1 && chance(5000)) { fault_fired(F_HOSTILE); std::string s; switch (choose(9)) {
			case 0: fill(s, choose(60)); break; case 1: s = pick<const char *>({"P", "PO", "POM", "PP", "POPOMP", "PPOMP", "POMPOMP", "POP"}); break; case 2: s = std::string("POMP\1\0\0\0", 8); { uint32_t z = choose(12); s.append((char *)&z, 4); } break;
			case 3: if (chance(500)) { s = std::string("POMP\1\0\0\0", 8); uint32_t z = pick<uint32_t>({0xffffffffu, 0x7fffffffu, 100u << 20, 0x80000000u}); s.append((char *)&z, 4); } break;
			case 4: { s = peer_msg(&wf, nullptr, 1); s.resize(choose((uint32_t)s.size() + 1)); break; } case 5: { s = peer_msg(&wf, nullptr, 0); s[choose((uint32_t)std::min<size_t>(s.size(), 8))] ^= (char)(1 + choose(255)); break; }
			case 6: { s = peer_msg(&wf, nullptr, 0); uint32_t z = (uint32_t)s.size() + choose(8) - 4; if (z < 60000) memcpy(&s[8], &z, 4); break; } default: s = peer_msg(&wf, nullptr, 1); break; }
			if (un && chance(1500) && !s.empty()) { std::vector<File *> fl; uint32_t q = range(1, 6); while (q--) fl.push_back(new TagFile(7)); c->fds.push_back({at0, fl}); }
			c->out += s; continue; }
		bool fdok = un && (c->kind == 0 || chance(3000)); std::string s = peer_msg(&wf, fdok || c->kind == 1 ? &nfd : nullptr, c->kind == 1 && chance(3000));
		std::vector<uint32_t> fo; walk(s, &fo, nullptr);
		if (un && !fo.empty() && (c->kind != 1 || chance(8000))) { std::vector<File *> fl; for (size_t q = 0; q < fo.size() && q < 4; q++) fl.push_back(new TagFile(8)); c->fds.push_back({at0, fl}); }
		else if (un && c->kind == 1 && chance(1000)) { std::vector<File *> fl; uint32_t q = range(1, 4); while (q--) fl.push_back(new TagFile(7)); c->fds.push_back({at0 + (chance(5000) ? 0 : choose((uint32_t)s.size())), fl}); fault_fired(F_HOSTILE); } // descriptors that no argument asks for
		c->out += s; c->nsent++;
	}
}
static PC *pc_new(Peer *p, int fd, int target, int kind) { PC *c = new PC; c->p = p; c->fd = fd; c->s = (Stream *)fd_file(p->p, fd); c->kind = kind; c->raw = G->targets[target]->raw; c->target = target; c->t0 = W->now; p->pcs.push_back(c); k_fcntl(p->p, fd, F_SETFL, O_NONBLOCK); return c; }
static bool pc_connect(Peer *p, int target, int kind) {
	Target *t = G->targets[target]; int fd = k_socket(p->p, t->fam, SOCK_STREAM | SOCK_NONBLOCK, 0); if (fd < 0) return false; int r = k_connect(p->p, fd, (sockaddr *)&t->a, t->alen);
	if (r < 0 && r != -EINPROGRESS) { k_close(p->p, fd); return false; } pc_new(p, fd, target, kind); return true;
}
static void pc_step(PC *c) {
	if (c->closed) return; if (c->s->st == Stream::CONNECTING) { if (W->now - c->t0 > 3 * SEC) pc_close(c); return; } if (c->s->st != Stream::EST && !c->s->c) { pc_close(c); return; }
	hist(c->s->c, c->s->side)->pc = c;
	if (c->kind == 1) hist(c->s->c, c->s->side)->ref.hostile = true;
	if (c->stuck) return;
	if (!c->eof) pc_recv(c);
	if (c->eof && chance(7000)) { pc_close(c); return; }
}
static void peer_main(Peer *p) {
	Target *t = G->targets[p->target]; ns tnext = W->now;
	for (;;) {
		if (G->phase >= 2) { for (PC *c : p->pcs) pc_close(c); if (p->lfd >= 0) k_close(p->p, p->lfd); p->lfd = -1; for (;;) sleep_ns(100 * SEC); }
		if (p->server) {
			if (p->lfd < 0) { int fd = k_socket(p->p, t->fam, SOCK_STREAM | SOCK_NONBLOCK, 0); int one = 1; k_setsockopt(p->p, fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); if (!t->path.empty() && t->path[0]) k_unlink(p->p, t->path.c_str()); int r = k_bind(p->p, fd, (sockaddr *)&t->a, t->alen); if (r == 0) r = k_listen(p->p, fd, 16); if (r < 0) k_close(p->p, fd); else p->lfd = fd; }
			if (p->lfd >= 0) { int fd = k_accept(p->p, p->lfd, nullptr, nullptr, 0); if (fd >= 0) { PC *c = pc_new(p, fd, p->target, G->phase ? 0 : (int)p->kind); c->stuck = !G->phase && chance(1500); if (!G->phase && chance(2500)) pc_close(c); } }
			if (!G->phase && p->lfd >= 0 && chance(60)) { k_close(p->p, p->lfd); p->lfd = -1; sleep_ns((ns)range(100, 6000) * MS); }
		} else if (G->phase == 0) {
			size_t live = 0; for (PC *c : p->pcs) if (!c->closed) live++;
			if (p->kind == 3) { if (live < (size_t)G->flood) { for (int i = 0; i < 6; i++) if (pc_connect(p, p->target, 0)) p->pcs.back()->stuck = chance(3000); } else if (chance(300)) for (PC *c : p->pcs) if (chance(5000)) pc_close(c); }
			else if (live < 2 && chance(2000)) { if (pc_connect(p, p->target, p->kind)) p->pcs.back()->stuck = chance(1000); }
		} else if (!p->friendly) { p->friendly = true; for (PC *c : p->pcs) pc_close(c); }
		for (size_t i = 0; i < p->pcs.size(); i++) {
			PC *c = p->pcs[i]; if (c->closed) continue; pc_step(c); if (c->closed) continue;
			if (c->s->st != Stream::EST || !c->s->c || c->stuck) continue;
			if (G->phase == 0 || !p->server) { if (chance(4000) && G->bytes < G->bytecap * 2) { size_t o = c->out.size(); pc_produce(c); G->bytes += c->out.size() - o; } }
			pc_flush(c);
			if (G->phase == 0 && chance(p->kind == 1 ? 400 : 150)) { if (chance(3000) && !c->s->c->un) { fault_fired(F_RST); conn_reset(c->s->c, c->s->side); } pc_close(c); }
			else if (G->phase == 0 && chance(100)) { k_shutdown(p->p, c->fd, SHUT_WR); c->done_w = true; c->out.resize(c->off); }
		}
		if (p->server && G->phase == 1 && !p->friendly) { p->friendly = true; for (PC *c : p->pcs) if (c->stuck || c->kind) pc_close(c); p->kind = 0; }
		(void)tnext; sleep_ns((ns)(G->phase ? 20 + choose(40) : 1 + geom(200)) * MS);
	}
}
// a last client of each server, after everything: it must be served
static void prober(Peer *p) {
	for (size_t i = 0; i < G->targets.size(); i++) { Target *t = G->targets[i]; if (!t->node) continue; if (pc_connect(p, (int)i, 0)) { PC *c = p->pcs.back(); c->probe = true; } else V("C18", "target %zu: a new client cannot connect to the server after faults have stopped", i); }
	auto busy = [&]() { for (PC *c : p->pcs) if (!c->closed && c->s->st == Stream::EST && c->s->c && (c->off != c->out.size() || c->s->c->d[0].rtotal != c->s->c->d[0].wtotal)) return true; return false; };
	for (int k = 0; k < 30 || (k < 400 && busy()); k++) { sleep_ns(100 * MS); for (PC *c : p->pcs) { pc_step(c); if (!c->closed && c->s->st == Stream::EST && c->out.empty()) pc_produce(c); if (!c->closed && c->s->st == Stream::EST) pc_flush(c); } }
	for (PC *c : p->pcs) { if (c->closed || c->s->st != Stream::EST || !c->s->c || c->eof) V("C18", "target %d: after faults have stopped the server does not accept a new client", c->target); CR *r = nullptr; for (CR *x : G->allcr) if (x->k == c->s->c && x->up && !x->dead) r = x; if (!r) V("C18", "target %d: after faults have stopped a new client is not announced as connected", c->target); if (r->k->d[0].rtotal != r->k->d[0].wtotal || c->off != c->out.size()) V("C18", "target %d: after faults have stopped the message of a new client is not read", c->target); check_read(r); probe("probed"); }
	for (PC *c : p->pcs) pc_close(c);
}
// ---------------------------------------------------------------- director
static void boot(Node *n) { n->p = mkproc(n->name.c_str(), n->ip); n->p->umask_ = 022; n->gone = false; n->up = false; spawn(n->p, n->name.c_str(), [n]() { node_main(n); }); }
static void final_checks() {
	for (Node *n : G->nodes) for (Ctx *c : n->ctxs) {
		if (!c->c || c->st != STARTED) V("C19", "%s: cannot be started %lld s after faults have stopped", nm(c).c_str(), (long long)((W->now - G->t1) / SEC));
		if (c->sp->server) { if (!c->lst || c->lst->st != Stream::LISTEN || c->lst->dead) V("C04", "%s: does not listen %lld s after faults have stopped", nm(c).c_str(), (long long)((W->now - G->t1) / SEC)); }
		else { int u = 0; CR *r = nullptr; for (CR *x : c->crs) if (x->up && (!x->shut || x->k->vanished[1 - x->side])) { u++; r = x; } if (u != 1) V("C04", "%s: not connected %lld s after faults have stopped", nm(c).c_str(), (long long)((W->now - G->t1) / SEC)); if (gone(r) && !(r->shut && r->k->vanished[1 - r->side])) V("C03", "%s: conn %d was closed or reset by its peer but is not announced as disconnected", nm(c).c_str(), r->k->id); }
		for (CR *r : c->crs) if (r->up) {
			Conn *k = r->k; Dir &d = k->d[1 - r->side]; Hist *h = hist(k, 1 - r->side), *mine = hist(k, r->side);
			if (gone(r) && !(k->vanished[1 - r->side] && r->shut)) { V("C03", "%s: conn %d was closed or reset by its peer but is still announced as connected", nm(c).c_str(), k->id); }
			if (d.rtotal != d.wtotal) V(c->sp->raw ? "C17" : "C01", "%s: %llu bytes sent on conn %d are not read although the connection stays up", nm(c).c_str(), (unsigned long long)(d.wtotal - d.rtotal), k->id);
			check_read(r);
			if (!mine->unk && k->d[r->side].wtotal != mine->acc) V("C01", "%s: conn %d: %llu accepted bytes are not written although the connection stays up and drains", nm(c).c_str(), k->id, (unsigned long long)(mine->acc - k->d[r->side].wtotal));
			if (!h->pc && !k->vanished[1 - r->side] && !h->unk && !c->sp->raw && W->fired[F_ALLOC] == r->alloc0) for (size_t i = h->rx; i < h->q.size(); i++) if (h->q[i].st == ACC) V("C01", "%s: message #%llu accepted for conn %d is never delivered although the connection stays up", nm(c).c_str(), (unsigned long long)h->q[i].id, k->id);
			for (auto &a : r->aw) if (!a.opt) V("C02", "%s: send #%llu on conn %d has no completion although everything was sent", nm(c).c_str(), (unsigned long long)a.id, k->id);
		}
	}
	for (Conn *k : K->conns) for (int s = 0; s < 2; s++) if (k->s[s] && k->s[s]->st == Stream::EST && k->accepted && k->host[s]->alive && !k->vanished[s]) {
		for (Node *n : G->nodes) if (n->p == k->host[s]) { bool ok = false; for (CR *r : G->allcr) if (r->k == k && r->side == s && r->up && !r->dead && r->c->n == n) ok = true; for (Ctx *c : n->ctxs) if (c->att == k->s[s]) ok = true; if (!ok) V("C18", "%s: conn %d is half-open: its socket exists but it is not announced", n->name.c_str(), k->id); }
	}
}
static void director() {
	uint32_t steps = range(3, 25); std::vector<ns> up(G->nodes.size(), 0);
	for (uint32_t i = 0; i < steps; i++) {
		sleep_ns((ns)(chance(2000) ? range(2000, 9000) : geom(2500) + 1) * MS);
		for (size_t k = 0; k < G->nodes.size(); k++) if (!G->nodes[k]->p->alive && W->now >= up[k]) boot(G->nodes[k]);
		if (!W->faults_on) continue;
		std::vector<Proc *> ps; for (Node *n : G->nodes) if (n->p->alive) ps.push_back(n->p); for (Peer *p : G->peers) ps.push_back(p->p);
		if (ps.empty()) continue; switch (choosew({10, W->rate[F_PARTITION] / 50, W->rate[F_RST] / 50, W->rate[F_CRASH] / 50, W->rate[F_POWERLOSS] / 50, W->rate[F_STALL] / 50, W->rate[F_MAXFDS] ? 2u : 0u})) {
		case 1: { Proc *a = ps[choose((uint32_t)ps.size())], *b = ps[choose((uint32_t)ps.size())]; if (a == b || a->ip == b->ip) break; Link &l = link_of(a, b); if (!l.cut) fault_fired(F_PARTITION); link_cut(a, b, !l.cut); break; }
		case 2: { std::vector<Conn *> l; for (Conn *k : K->conns) if (!k->reset && !k->un && k->s[0] && k->s[1] && k->s[0]->st == Stream::EST) l.push_back(k); if (l.empty()) break; Conn *k = l[choose((uint32_t)l.size())]; fault_fired(F_RST); TR("  reset of conn %d", k->id); int w = (int)choose(3); if (w < 2) { conn_reset(k, w); conn_reset(k, 1 - w); } else conn_abort_both(k, ECONNRESET, ECONNRESET); break; }
		case 3: case 4: { size_t k = choose((uint32_t)G->nodes.size()); Node *n = G->nodes[k]; if (!n->p->alive) break; bool silent = !n->hasunix && W->rate[F_POWERLOSS] && chance(5000); fault_fired(silent ? F_POWERLOSS : F_CRASH); for (Ctx *c : n->ctxs) { for (CR *r : c->crs) { r->up = false; r->dead = true; } c->crs.clear(); } kill_proc(n->p, silent); up[k] = W->now + (ns)geom(15000) * MS; break; }
		case 5: { Proc *a = ps[choose((uint32_t)ps.size())]; ns d = W->now + (ns)range(1, 4000) * MS; for (Fiber *f : a->fibers) if (!f->finished) f->stall_until = d; fault_fired(F_STALL); break; }
		case 6: { Node *n = G->nodes[choose((uint32_t)G->nodes.size())]; if (!n->p->alive) break; int used = 0; for (auto &e : n->p->fds) if (e.f) used++; n->p->fdlimit = chance(6000) ? used + (int)choose(6) : 1024; if (n->p->fdlimit < 1024) fault_fired(F_EMFILE); break; }
		default: break;
		}
	}
	sleep_ns((ns)choose(3000) * MS); TR("---- faults stop"); W->faults_on = false; for (auto &l : K->links) if (l.second.cut) { Proc *a = nullptr, *b = nullptr; for (Proc *p : W->procs) { if (p->id == l.first.first) a = p; if (p->id == l.first.second) b = p; } link_cut(a, b, false); }
	for (Node *n : G->nodes) { n->p->fdlimit = 1024; if (!n->p->alive) boot(n); }
	for (Fiber *f : W->fibers) f->stall_until = 0;
	K->cap_tcp = std::max<size_t>(K->cap_tcp, 16384); K->cap_unix = std::max<size_t>(K->cap_unix, 16384); for (Conn *k : K->conns) for (int s = 0; s < 2; s++) k->d[s].cap = std::max<size_t>(k->d[s].cap, 16384); // slow links catch up
	changed();
	G->phase = 1; G->t1 = W->now; sleep_ns(25 * SEC); final_checks();
	Peer *pr = new Peer; pr->id = 99; pr->p = mkproc("prober", ipa(90)); pr->server = false; pr->kind = 0; pr->target = 0; G->peers.push_back(pr); bool pd = false; spawn(pr->p, "prober", [pr, &pd]() { prober(pr); pd = true; for (;;) sleep_ns(1000 * SEC); });
	while (!pd) sleep_ns(200 * MS); sleep_ns(3 * SEC); final_checks();
	TR("---- teardown"); G->phase = 2; ns t = W->now; while (G->nteardown < (int)G->nodes.size()) { sleep_ns(100 * MS); if (W->now - t > 30 * SEC) V("C07", "teardown does not end"); }
	if (G->delivered > 3) probe("useful_run"); end_run();
}
// ---------------------------------------------------------------- setup
static void mkaddr(Target *t, Node *n, Peer *p) {
	Proc *h = n ? n->p : p->p; memset(&t->a, 0, sizeof t->a); t->port = (uint16_t)(5000 + t->id);
	if (t->fam == AF_UNIX) { auto *u = (sockaddr_un *)&t->a; u->sun_family = AF_UNIX; if (t->form) { t->path = std::string(1, '\0') + "abs" + std::to_string(t->id); } else t->path = "/tmp/sock" + std::to_string(t->id); memcpy(u->sun_path, t->path.data(), t->path.size()); t->alen = (socklen_t)(offsetof(sockaddr_un, sun_path) + t->path.size() + (t->form ? 0 : 1)); if (!t->form && chance(3000)) t->alen = sizeof(sockaddr_un); }
	else if (t->fam == AF_INET) { auto a = in_addr(htonl(h->ip), t->port); memcpy(&t->a, &a, sizeof a); t->alen = sizeof a; }
	else { auto *a = (sockaddr_in6 *)&t->a; a->sin6_family = AF_INET6; a->sin6_port = htons(t->port); uint32_t x = htonl(h->ip); memcpy((char *)&a->sin6_addr + 12, &x, 4); memset((char *)&a->sin6_addr + 10, 0xff, 2); t->alen = sizeof *a; }
}
static void setup(const char *prop) {
	delete G; G = new G_; G->prop = prop; std::string s = prop; auto is = [&](std::initializer_list<const char *> l) { for (auto x : l) if (s == x) return true; return false; };
	G->prop = prop; K->ready_random = chance(5000);
	// transport
	static const size_t CT[] = {65536, 4096, 1024, 256, 20000}; K->cap_tcp = CT[choose(5)]; K->cap_unix = CT[choose(5)]; K->split_segs = chance(5000); K->lat_default = (ns)pick<uint32_t>({50, 500, 20000}) * US; K->var_default = chance(4000) ? K->lat_default * 2 : 0;
	G->maxmsg = pick<uint32_t>({3000, 300, 20000, 60000}); G->bytecap = G->maxmsg > 5000 ? 400000 : 100000;
	bool needun = is({"C06", "C22"}), needtcp = is({"C20", "C04"}); bool needraw = is({"C17"});
	uint32_t nn = 1 + choosew({3, 5, 2}); if (is({"C20"})) nn = std::max(nn, 2u);
	for (uint32_t i = 0; i < nn; i++) { Node *n = new Node; n->id = (int)i; char b[8]; snprintf(b, 8, "n%u", i); n->name = b; n->ip = ipa((int)i + 1); G->nodes.push_back(n); n->p = nullptr; n->budget = range(10, 150); n->cbbudget = range(5, 60); }
	for (Node *n : G->nodes) { n->p = mkproc(n->name.c_str(), n->ip); n->p->umask_ = 022; }
	uint32_t npeer = choosew({4, 4, 2}); if (is({"C08", "C05", "C18"})) npeer = std::max(1u, npeer); uint32_t ns_ = 1 + choosew({6, 3});
	bool rawsrv = false;
	for (uint32_t i = 0; i < ns_; i++) { Target *t = new Target; t->id = (int)i; t->fam = needun ? AF_UNIX : needtcp ? AF_INET : pick<int>({AF_INET, AF_UNIX, AF_INET, AF_UNIX, AF_INET6}); t->form = choosew({2, 1}); t->raw = needraw ? true : chance(is({"C01", "C06", "C08"}) ? 500 : 2000); G->targets.push_back(t); t->node = G->nodes[choose(nn)]; mkaddr(t, t->node, nullptr); }
	if (is({"C04", "C08", "C01", "C21"}) ? chance(4000) : chance(1500)) rawsrv = true;
	for (uint32_t i = 0; i < npeer; i++) { Peer *p = new Peer; p->id = (int)i; char b[8]; snprintf(b, 8, "p%u", i); p->p = mkproc(b, ipa(20 + (int)i)); p->server = rawsrv && i == 0; p->kind = p->server ? (int)choose(2) : is({"C08"}) ? 1 : is({"C05", "C18"}) && chance(4000) ? 3 : (int)choosew({5, 4, 0, 1}); p->target = 0; G->peers.push_back(p);
		if (p->server) { Target *t = new Target; t->id = (int)G->targets.size(); t->fam = needun ? AF_UNIX : pick<int>({AF_INET, AF_UNIX}); t->form = (int)choose(2); t->raw = needraw; t->peer = p; G->targets.push_back(t); mkaddr(t, nullptr, p); p->target = t->id; } else p->target = (int)choose(ns_); }
	G->flood = (int)range(5, 40);
	auto mkspec = [&](bool server, int target, Node *n) {
		G->specs.emplace_back(); Spec *sp = &G->specs.back(); sp->id = (int)G->specs.size(); sp->server = server; Target *t = G->targets[target]; sp->fam = t->fam; sp->target = target; sp->raw = t->raw; sp->a = t->a; sp->alen = t->alen; sp->path = t->path; sp->sendcb = chance(7000) || s == "C02"; static const uint32_t MD[] = {0, 0, 0600, 0666, 0770}; sp->mode = server && t->fam == AF_UNIX ? MD[choose(5)] : 0; sp->any = false;
		static const size_t RB[] = {0, 0, 0, 1, 16, 100, 1000}; sp->rb = RB[choose(7)]; if (G->maxmsg > 5000 && sp->rb && sp->rb < 100) sp->rb = 100; sp->ka = chance(8500); sp->ki = chance(5000) ? 5 : (int)range(1, 10); sp->kv = sp->ki == 5 ? 1 : (int)range(1, 4); sp->kn = sp->ki == 5 ? 2 : (int)range(1, 4);
		if (server && t->fam == AF_INET && chance(4000)) { auto a = in_addr(0, t->port); memcpy(&sp->a, &a, sizeof a); sp->any = true; } else if (server && t->fam == AF_INET6 && chance(4000)) { memset(&((sockaddr_in6 *)&sp->a)->sin6_addr, 0, 16); sp->any = true; }
		n->specs.push_back(sp); Ctx *c = new Ctx; c->sp = sp; c->n = n; n->ctxs.push_back(c); G->allctx.push_back(c); if (t->fam == AF_UNIX) n->hasunix = true; };
	for (uint32_t i = 0; i < ns_; i++) mkspec(true, (int)i, G->targets[i]->node);
	uint32_t nc = 1 + choosew({4, 4, 2, 1}); for (uint32_t i = 0; i < nc; i++) mkspec(false, (int)choose((uint32_t)G->targets.size()), G->nodes[choose(nn)]);
	for (Node *n : G->nodes) if (n->ctxs.empty()) mkspec(false, (int)choose((uint32_t)G->targets.size()), n);
	for (Node *n : G->nodes) { n->internal = n->ctxs.size() == 1 && chance(3000); n->extfd = g_be.loop == 0 && chance(2000); }
	// faults of this run
	W->faults_on = true; auto R = [&](Fault f, uint32_t p, uint32_t r) { if (chance(p)) W->rate[f] = pick<uint32_t>({r, r / 4 + 1, r * 3}); };
	if (chance(8500)) {
		R(F_SHORT_WRITE, 4000, 1500); R(F_SHORT_READ, 4000, 1500); R(F_EINTR, 3000, 300); R(F_SOCKBUF_FULL, 3000, 800); R(F_LATENCY, 1500, 100);
		bool res = is({"C19", "C07", "C18", "C16"}); uint32_t m = res ? 4000 : 1200;
		R(F_ALLOC, m, 60); R(F_EMFILE, m, 150); R(F_ENFILE, m / 2, 100); R(F_ENOBUFS, m / 2, 100); R(F_EPOLL_ADD, m, 150); R(F_ACCEPT, is({"C18"}) ? 6000 : m, 800); R(F_CONNECT, is({"C04"}) ? 5000 : m, 1500); R(F_BIND, m, 500); R(F_LISTEN, m, 500); R(F_SETSOCKOPT, m, 300); R(F_SOCKNAME, m, 200); R(F_SOCKERR, m, 200); R(F_FCNTL, m, 200); R(F_CHMOD, m / 2, 300); R(F_TIMER, m / 2, 200); R(F_EVENTFD, m / 2, 200); R(F_PIPE, m / 2, 200);
		R(F_WRITE_ERR, m, 60); R(F_READ_ERR, m, 60); R(F_DUP, m / 2, 150); R(F_MAXFDS, is({"C06", "C19"}) ? 3000 : m, 200); R(F_BACKLOG, m, 1000); R(F_ADDR_DOWN, is({"C04"}) ? 4000 : m, 2000);
		R(F_PARTITION, is({"C20", "C04"}) ? 6000 : 2500, 300); R(F_RST, 3000, 200); R(F_CRASH, 3000, 200); R(F_POWERLOSS, is({"C20"}) ? 6000 : 2000, 200); R(F_STALL, 2500, 200);
	}
	if (W->rate[F_SETSOCKOPT]) G->chk_ka = false; if (W->rate[F_SOCKNAME]) G->chk_cred = false; if (!G->chk_ka) {}
	for (Node *n : G->nodes) if (chance(is({"C04"}) ? 3000 : 800)) n->p->ip_up_at = W->now + (ns)choose(9000) * MS;
	if (is({"C15"})) { G->w_susp = 15; } if (is({"C02"})) { G->w_disc = 6; G->w_send = 50; } if (is({"C03", "C21"})) { G->w_cb = 50; G->w_stop = 6; G->w_disc = 5; for (Node *n : G->nodes) n->cbbudget += 60; } if (is({"C21"})) { G->w_set = 8; G->w_susp = 5; } if (is({"C20"})) { G->w_send = 4; G->w_ka = 4; for (Node *n : G->nodes) n->budget /= 4; } if (is({"C07"})) { G->w_stop = 6; }
	if (is({"C16"})) {} if (is({"C05"})) G->w_send = 10;
	K->hooks.on_connect_attempt = on_attempt; K->hooks.on_lib_recv = on_recv; W->steplimit = 600000;
	for (Node *n : G->nodes) spawn(n->p, n->name.c_str(), [n]() { if (chance(3000)) sleep_ns((ns)choose(3000) * MS); node_main(n); });
	for (Peer *p : G->peers) spawn(p->p, p->p->name.c_str(), [p]() { peer_main(p); });
	Proc *d = mkproc("director", ipa(99)); spawn(d, "director", director);
}
}
void scen_net(const char *prop) { net::setup(prop); }
