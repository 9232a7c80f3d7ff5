// Scenario on datagrams: several processes with bound contexts, raw peers that send valid, truncated and garbage datagrams,
// a network that loses, duplicates, reorders, truncates and corrupts them, full socket buffers and refused sends.
#include "app.h"
#include "proto.h"
#include <unistd.h>
namespace dgm {
enum St { IDLE, STARTED, STOPPING };
struct Node; struct Ctx;
struct Snd { uint64_t id; std::string b; std::vector<File *> fds; FdList fo; sockaddr_storage to; socklen_t tolen; const void *buf; bool sent = false, failed = false, tried = false, calling = true, qempty = false; };
struct Ctx {
	int id; Node *n; int fam; bool raw, sendcb, pktinfo; size_t rb; sockaddr_storage a; socklen_t alen; std::string path; bool any;
	pomp_ctx *c = nullptr; St st = IDLE; int incb = 0; pomp_conn *conn = nullptr; Dgram *d = nullptr; bool susp = false; ns t_bind = -NEVER / 2;
	std::deque<Snd *> pend; std::deque<Snd *> aw; uint64_t gen = 0; int nsock = 0;
	bool have = false; Dg cur; std::string got; RefDec ref; bool lostfds = false; uint32_t alloc0 = 0; bool inmsg = false; bool rawdone = false; uint64_t ndel = 0; bool stopmark = false; bool started_once = false; std::vector<File *> gotfds;
	std::multiset<std::string> fgot; std::vector<std::pair<uint64_t, std::string>> fexp; // last round: arrived, sent to it
};
struct Mark { Ctx *c; uint64_t gen; };
struct Node { int id; std::string name; Proc *p; pomp_loop *loop = nullptr; std::vector<Ctx *> ctxs; int depth = 0; uint32_t budget = 0, cbbudget = 0; bool done = false; int nmark = 0; int fin = 0; };
struct Peer { Proc *p; int fd; int fam; sockaddr_storage a; socklen_t alen; uint32_t budget; std::string path; };
struct G_ { std::vector<Node *> nodes; std::vector<Ctx *> all; std::vector<Peer *> peers; std::map<Dgram *, Ctx *> socks; int phase = 0; uint64_t serial = 1; uint64_t delivered = 0; uint32_t maxmsg = 300; int ndone = 0; ns t1 = 0; uint32_t w_cb = 30; };
static G_ *G;
#define V(tag, ...) violate(tag, __VA_ARGS__)
static std::string nm(Ctx *c) { char b[64]; snprintf(b, 64, "%s/dgram%d", c->n->name.c_str(), c->id); return b; }
static bool eqaddr(const void *a, socklen_t al, const sockaddr_storage &b, socklen_t bl) {
	if (al != bl) return false; if (!al) return true; const sockaddr *x = (const sockaddr *)a; if (x->sa_family != b.ss_family) return false;
	if (x->sa_family == AF_INET) { auto *p = (const sockaddr_in *)a, *q = (const sockaddr_in *)&b; return p->sin_port == q->sin_port && p->sin_addr.s_addr == q->sin_addr.s_addr; }
	if (x->sa_family == AF_INET6) { auto *p = (const sockaddr_in6 *)a, *q = (const sockaddr_in6 *)&b; return p->sin6_port == q->sin6_port && !memcmp(&p->sin6_addr, &q->sin6_addr, 16); }
	return !memcmp(a, &b, al);
}
static std::string adr(const void *a, socklen_t l) { if (!l) return "(none)"; const sockaddr *x = (const sockaddr *)a; char b[80]; if (x->sa_family == AF_INET) { auto *p = (const sockaddr_in *)a; uint32_t i = ntohl(p->sin_addr.s_addr); snprintf(b, 80, "%08x:%u", i, ntohs(p->sin_port)); } else if (x->sa_family == AF_INET6) { auto *p = (const sockaddr_in6 *)a; uint32_t y; memcpy(&y, (const char *)&p->sin6_addr + 12, 4); snprintf(b, 80, "[%08x]:%u", ntohl(y), ntohs(p->sin6_port)); } else snprintf(b, 80, "unix %.60s", ((const sockaddr_un *)a)->sun_path + (((const sockaddr_un *)a)->sun_path[0] ? 0 : 1)); return b; }
static void fill(std::string &s, size_t n) { uint32_t x = (uint32_t)G->serial * 2654435761u + 7; s.resize(n); for (size_t i = 0; i < n; i++) { x = x * 1103515245u + 12345; s[i] = "POM\0\r\nabcdefgXYZ\x80\xff"[(x >> 16) % 18]; } }
// ---------------------------------------------------------------- building
struct Built { pomp_msg *m = nullptr; pomp_buffer *buf = nullptr; Snd *s = nullptr; };
static uint32_t msgsize() { switch (choosew({6, 4, 1})) { case 0: return choose(24); case 1: return choose(std::min(G->maxmsg, 300u)); default: return choose(G->maxmsg); } }
static Built build(Ctx *c, bool fds) {
	NoFault nf; Built r; r.s = new Snd; r.s->id = G->serial++; uint32_t sz = msgsize(); Proc *p = c->n->p;
	if (c->raw) { std::string s; fill(s, sz + 8); memcpy(&s[0], &r.s->id, 8); r.s->b = s; r.buf = pomp_buffer_new(s.size()); pomp_buffer_append_data(r.buf, s.data(), s.size()); r.s->buf = r.buf; return r; }
	r.m = pomp_msg_new(); pomp_msg_init(r.m, (uint32_t)r.s->id); pomp_encoder *e = pomp_encoder_new(); pomp_encoder_init(e, r.m); pomp_encoder_write_u64(e, r.s->id);
	std::string s; fill(s, sz); pomp_encoder_write_buf(e, s.data(), (uint32_t)s.size()); if (chance(3000)) pomp_encoder_write_i16(e, -3);
	if (fds && chance(4000)) { uint32_t k = range(1, 4); while (k--) { int fd; File *f = appfile(p, &fd); pomp_encoder_write_fd(e, fd); r.s->fds.push_back(f); k_close(p, fd); } }
	pomp_encoder_destroy(e); pomp_msg_finish(r.m); const void *d; size_t l; pomp_buffer_get_cdata(pomp_msg_get_buffer(r.m), &d, &l, nullptr); r.s->b.assign((const char *)d, l); r.s->buf = pomp_msg_get_buffer(r.m);
	std::vector<uint32_t> fo; walk(r.s->b, &fo, nullptr); for (size_t i = 0; i < fo.size(); i++) r.s->fo.push_back({fo[i], r.s->fds[i]});
	return r;
}
static void drop(Built &b) { NoFault nf; if (b.m) pomp_msg_destroy(b.m); if (b.buf) pomp_buffer_unref(b.buf); }
// ---------------------------------------------------------------- what the simulated system sees
static Ctx *ctx_of_sock(Dgram *d) { auto it = G->socks.find(d); return it == G->socks.end() ? nullptr : it->second; }
static void on_sendto(Proc *p, Dgram *d, const Dg &g, const sockaddr_storage &to, socklen_t tl) {
	if (!cur->inlib) return; Ctx *c = ctx_of_sock(d); if (!c || c->d != d) V("C09", "%s: a datagram leaves a socket that belongs to no context", p->name.c_str());
	if (c->pend.empty()) V("C09", "%s: a datagram of %zu bytes is transmitted to %s but no accepted send waits for it: %s", nm(c).c_str(), g.d.size(), adr(&to, tl).c_str(), hex(g.d.data(), g.d.size(), 24).c_str());
	Snd *s = c->pend.front();
	if (!eqmask(s->b, s->fo, g.d.data(), g.d.size())) V("C09", "%s: the datagram transmitted (%zu bytes) is not the oldest send that waits (#%llu, %zu bytes): %s", nm(c).c_str(), g.d.size(), (unsigned long long)s->id, s->b.size(), hex(g.d.data(), g.d.size(), 24).c_str());
	if (!eqaddr(&to, tl, s->to, s->tolen)) V("C09", "%s: send #%llu was given address %s but is transmitted to %s", nm(c).c_str(), (unsigned long long)s->id, adr(&s->to, s->tolen).c_str(), adr(&to, tl).c_str());
	if (g.fds != s->fds) V("C09", "%s: send #%llu has %zu descriptors but is transmitted with %zu or others", nm(c).c_str(), (unsigned long long)s->id, s->fds.size(), g.fds.size());
	s->sent = true; c->pend.pop_front(); s->qempty = c->pend.empty(); TR("%s: #%llu transmitted", nm(c).c_str(), (unsigned long long)s->id); if (!s->calling) probe("dgram_sent_later");
}
static void on_sendfail(Proc *p, Dgram *d, const std::string &b, const sockaddr_storage &to, socklen_t tl, int err) {
	Ctx *c = ctx_of_sock(d); if (!c || c->d != d) V("C09", "%s: a datagram leaves a socket that belongs to no context", p->name.c_str());
	if (c->pend.empty()) V("C09", "%s: a datagram is handed to the system but no accepted send waits for it", nm(c).c_str());
	Snd *s = c->pend.front(); (void)to; (void)tl; (void)err;
	if (!eqmask(s->b, s->fo, b.data(), b.size())) V("C09", "%s: the datagram handed to the system is not the oldest send that waits (#%llu)", nm(c).c_str(), (unsigned long long)s->id);
	s->failed = true; c->pend.pop_front(); s->qempty = c->pend.empty(); if (!s->calling) probe("dgram_failed_later");
}
static bool excused(Ctx *c) { return W->fired[F_ALLOC] != c->alloc0 || c->st == STOPPING; }
static void check_done(Ctx *c) { // all of the datagram read last has been notified
	if (!c->have) return; c->have = false; if (excused(c)) return;
	if (c->raw) { if (!c->rawdone && !c->got.empty()) V("C09", "%s: a datagram of %zu bytes from %s was read but not notified", nm(c).c_str(), c->got.size(), adr(&c->cur.src, c->cur.slen).c_str()); return; }
	for (size_t i = c->ref.rx; i < c->ref.out.size(); i++) if (c->ref.out[i].must) V("C09", "%s: message %zu of a datagram of %zu bytes from %s is well formed and not delivered: %s", nm(c).c_str(), i + 1, c->got.size(), adr(&c->cur.src, c->cur.slen).c_str(), hex(c->got.data(), c->got.size(), 40).c_str());
}
static void on_dgram_recv(Proc *p, Dgram *d, const Dg &g, const std::string &got, const std::vector<File *> &fds, bool lost) {
	Ctx *c = ctx_of_sock(d); if (!c || c->d != d) V("C09", "%s: a datagram is read from a socket that belongs to no context", p->name.c_str());
	if (c->susp) V("C09", "%s: a datagram is read although reading is suspended", nm(c).c_str());
	check_done(c); c->have = true; c->cur = g; c->got = got; c->ref = RefDec(); c->lostfds = lost; c->gotfds = fds; c->alloc0 = W->fired[F_ALLOC]; c->rawdone = false; c->ref.pend = fds; c->ref.feed(got.data(), got.size());
	TR("%s: reads a datagram of %zu bytes (%zu taken) from %s, %zu messages expected", nm(c).c_str(), g.d.size(), got.size(), adr(&g.src, g.slen).c_str(), c->ref.out.size());
	if (got.size() < g.d.size()) probe("dgram_truncated"); if (got.empty()) probe("dgram_empty"); if (c->ref.out.empty() && !got.empty()) probe("dgram_garbage"); if (c->ref.out.size() > 1) probe("dgram_several"); if (c->ref.st > 0) probe("dgram_partial"); if (g.altered) probe("dgram_altered");
}
// ---------------------------------------------------------------- sending
static int do_send(Ctx *c, Built &b, const sockaddr_storage &to, socklen_t tl, bool reply, bool mustfail) {
	Snd *s = b.s; s->to = to; s->tolen = tl; W->ops++; uint32_t a0 = W->fired[F_ALLOC]; Dgram *d0 = c->d; pomp_conn *cn = c->conn; bool bound = c->d && c->conn;
	TR("%s: %s #%llu, %zu bytes, %zu fds, to %s", nm(c).c_str(), reply ? "reply" : "send", (unsigned long long)s->id, s->b.size(), s->fds.size(), adr(&to, tl).c_str());
	c->pend.push_back(s); if (c->sendcb) c->aw.push_back(s); bool q0 = c->pend.size() > 1;
	int rc; if (reply) rc = c->raw ? pomp_conn_send_raw_buf(cn, b.buf) : pomp_conn_send_msg(cn, b.m); else rc = c->raw ? pomp_ctx_send_raw_buf_to(c->c, b.buf, (const sockaddr *)&to, tl) : pomp_ctx_send_msg_to(c->c, b.m, (const sockaddr *)&to, tl);
	s->calling = false; TR("  -> %d", rc);
	if (rc == 0) {
		if (mustfail) V("C09", "%s: a send without an address is accepted outside the callback of a received datagram", nm(c).c_str());
		if (s->failed) V("C09", "%s: send #%llu is accepted although the system refused it", nm(c).c_str(), (unsigned long long)s->id);
		if (!s->fds.empty() && c->fam != AF_UNIX) V("C06", "%s: a message with descriptors is accepted on a socket that is not local", nm(c).c_str());
		if (!s->sent) probe("dgram_queued"); else probe("dgram_sent_now"); return 0;
	}
	if (s->sent) V("C09", "%s: send #%llu is refused (%d) but was transmitted", nm(c).c_str(), (unsigned long long)s->id, rc);
	if (!s->failed) { if (c->pend.empty() || c->pend.back() != s) V("C09", "%s: bookkeeping", nm(c).c_str()); c->pend.pop_back(); }
	if (c->sendcb) { if (c->aw.empty() || c->aw.back() != s) V("C02", "%s: send #%llu is refused (%d) but its completion is notified", nm(c).c_str(), (unsigned long long)s->id, rc); c->aw.pop_back(); }
	bool badfd = !s->fds.empty() && c->fam != AF_UNIX; (void)d0; (void)q0;
	if (!mustfail && !s->failed && !badfd && W->fired[F_ALLOC] == a0 && bound && c->st == STARTED && tl) V("C09", "%s: a send to %s is refused with %d although nothing failed", nm(c).c_str(), adr(&to, tl).c_str(), rc);
	probe("dgram_refused"); return rc;
}
static void target(Ctx *c, sockaddr_storage *a, socklen_t *l) {
	std::vector<std::pair<sockaddr_storage, socklen_t>> v; for (Ctx *x : G->all) if (x->fam == c->fam) { sockaddr_storage s = x->a; if (x->any) { if (c->fam == AF_INET) ((sockaddr_in *)&s)->sin_addr.s_addr = htonl(x->n->p->ip); else { memset((char *)&((sockaddr_in6 *)&s)->sin6_addr + 10, 0xff, 2); uint32_t y = htonl(x->n->p->ip); memcpy((char *)&((sockaddr_in6 *)&s)->sin6_addr + 12, &y, 4); } } v.push_back({s, x->alen}); }
	for (Peer *p : G->peers) if (p->fam == c->fam) v.push_back({p->a, p->alen});
	auto &x = v[choose((uint32_t)v.size())]; *a = x.first; *l = x.second;
}
static void send(Ctx *c) { sockaddr_storage a; socklen_t l; target(c, &a, &l); Built b = build(c, c->fam == AF_UNIX || chance(300)); do_send(c, b, a, l, false, false); drop(b); }
// ---------------------------------------------------------------- callbacks
static void op(Node *n, Ctx *in);
static void in_callback(Ctx *c) { Node *n = c->n; if (G->phase || n->depth > 3 || !n->cbbudget || !chance(G->w_cb * 100)) return; uint32_t k = 1 + choosew({5, 2}); while (k-- && n->cbbudget) { n->cbbudget--; op(n, c); } }
struct InCb { Ctx *c; InCb(Ctx *x) : c(x) { c->incb++; c->n->depth++; } ~InCb() { c->incb--; c->n->depth--; } };
static void addresses(Ctx *c, pomp_conn *conn) {
	uint32_t l = 0; const sockaddr *a = pomp_conn_get_peer_addr(conn, &l); if (!eqaddr(a, l, c->cur.src, c->cur.slen)) V("C09", "%s: in the callback of a datagram from %s the peer address is %s", nm(c).c_str(), adr(&c->cur.src, c->cur.slen).c_str(), a ? adr(a, l).c_str() : "(null)");
	if (W->rate[F_SOCKNAME]) return; a = pomp_conn_get_local_addr(conn, &l); sockaddr_storage e = c->d->local; if (c->d->pkt_info && c->fam == AF_INET) ((sockaddr_in *)&e)->sin_addr.s_addr = htonl(c->cur.dstip); if (c->d->pkt_info && c->fam == AF_INET6) { auto *x = (sockaddr_in6 *)&e; memset((char *)&x->sin6_addr, 0, 10); memset((char *)&x->sin6_addr + 10, 0xff, 2); uint32_t y = htonl(c->cur.dstip); memcpy((char *)&x->sin6_addr + 12, &y, 4); }
	if (!eqaddr(a, l, e, c->d->llen)) V("C09", "%s: in the callback of a datagram sent to %s the local address is %s", nm(c).c_str(), adr(&e, c->d->llen).c_str(), a ? adr(a, l).c_str() : "(null)");
}
static void common(Ctx *c, pomp_conn *conn, const char *what) {
	if (c->st == IDLE) V("C03", "%s: %s callback although the context is stopped", nm(c).c_str(), what);
	if (!c->have) V("C09", "%s: %s callback although no datagram was read", nm(c).c_str(), what);
	c->conn = conn; addresses(c, conn); W->ops++; c->ndel++; G->delivered++;
}
static void fin(Ctx *c, const void *d, size_t n) { if (G->phase) c->fgot.insert(std::string((const char *)d, n)); }
static void respond(Ctx *c) { // replies to the sender
	uint32_t k = choosew({5, 4, 1}); if (G->phase) k = 0; while (k--) { if (!c->n->cbbudget) return; c->n->cbbudget--; Built b = build(c, c->fam == AF_UNIX); sockaddr_storage to = c->cur.src; bool none = c->cur.slen == 0; if (none) probe("dgram_unbound_sender"); do_send(c, b, to, c->cur.slen, true, none); drop(b); probe("dgram_reply"); }
}
static void event_cb(pomp_ctx *pc, pomp_event ev, pomp_conn *conn, const pomp_msg *msg, void *ud) {
	Ctx *c = (Ctx *)ud; if (c->c != pc) V("C03", "callback of a context that was destroyed"); InCb g(c);
	if (ev != POMP_EVENT_MSG) V("C09", "%s: %s event in a datagram context", nm(c).c_str(), pomp_event_str(ev));
	if (c->raw) V("C09", "%s: message event in a raw context", nm(c).c_str());
	common(c, conn, "message"); const void *d; size_t n; pomp_buffer_get_cdata(pomp_msg_get_buffer(msg), &d, &n, nullptr); TR("%s: message of %zu bytes", nm(c).c_str(), n); hashmix(mix64(n) ^ c->id);
	RefDec &q = c->ref; while (q.rx < q.out.size() && !q.out[q.rx].must && !eqmask(q.out[q.rx].b, q.out[q.rx].fds, d, n)) q.rx++;
	if (q.rx >= q.out.size()) { if (!q.fuzzy) V("C09", "%s: a message of %zu bytes is delivered that is not in the datagram (%zu bytes, from %s): %s", nm(c).c_str(), n, c->got.size(), adr(&c->cur.src, c->cur.slen).c_str(), hex(d, n).c_str()); }
	else {
		Exp &e = q.out[q.rx]; if (!eqmask(e.b, e.fds, d, n)) V("C09", "%s: the message delivered (%s) is not the next one of the datagram (%s)", nm(c).c_str(), hex(d, n, 24).c_str(), hex(e.b.data(), e.b.size(), 24).c_str());
		q.rx++; if (n >= 12 && pomp_msg_get_id(msg) != le32(&e.b[4])) V("C09", "%s: wrong message id", nm(c).c_str());
		// descriptors
		if (!e.fds.empty() && e.must) { NoFault nf; std::string by((const char *)d, n); std::vector<uint8_t> ty; std::vector<uint32_t> fo; walk(by, &fo, &ty); pomp_decoder *dec = pomp_decoder_new(); pomp_decoder_init(dec, msg); size_t k = 0; bool stop = false;
			for (uint8_t t : ty) { if (stop) break; int rc = 0; int8_t a1; uint8_t a2; int16_t a3; uint16_t a4; int32_t a5; uint32_t a6; int64_t a7; uint64_t a8; const char *a9; const void *a10; float a11; double a12; int fd = -1;
				switch (t) { case 1: rc = pomp_decoder_read_i8(dec, &a1); break; case 2: rc = pomp_decoder_read_u8(dec, &a2); break; case 3: rc = pomp_decoder_read_i16(dec, &a3); break; case 4: rc = pomp_decoder_read_u16(dec, &a4); break; case 5: rc = pomp_decoder_read_i32(dec, &a5); break; case 6: rc = pomp_decoder_read_u32(dec, &a6); break; case 7: rc = pomp_decoder_read_i64(dec, &a7); break; case 8: rc = pomp_decoder_read_u64(dec, &a8); break; case 9: rc = pomp_decoder_read_cstr(dec, &a9); break; case 10: rc = pomp_decoder_read_cbuf(dec, &a10, &a6); break; case 11: rc = pomp_decoder_read_f32(dec, &a11); break; case 12: rc = pomp_decoder_read_f64(dec, &a12); break;
				case 13: { rc = pomp_decoder_read_fd(dec, &fd); File *want = k < e.fds.size() ? e.fds[k].second : nullptr; File *gotf = rc < 0 ? nullptr : fd_file(c->n->p, fd); k++;
					if (rc >= 0 && (!gotf || fd < 0 || c->n->p->fds[fd].owner != OWN_LIB || std::find(c->gotfds.begin(), c->gotfds.end(), gotf) == c->gotfds.end())) V("C09", "%s: descriptor argument %zu reads as %d, which did not come with this datagram", nm(c).c_str(), k, fd);
					if (!e.anyfd && !c->lostfds) { if (want && rc < 0) V("C09", "%s: descriptor argument %zu reads as an error (%d) although it came with the datagram", nm(c).c_str(), k, rc); if (want && gotf != want) V("C09", "%s: descriptor argument %zu is not the one sent", nm(c).c_str(), k); }
					if (rc < 0) stop = true; else probe("dgram_fd"); rc = 0; break; } }
				if (rc < 0) V("C09", "%s: decoding an argument of a delivered message fails with %d", nm(c).c_str(), rc); }
			pomp_decoder_destroy(dec); }
	}
	fin(c, d, n);
	respond(c); in_callback(c);
	if (c->st == STARTED && c->conn) { uint32_t l = 0; const sockaddr *a = pomp_conn_get_peer_addr(conn, &l); if (!eqaddr(a, l, c->cur.src, c->cur.slen)) V("C09", "%s: the peer address changes within the callback", nm(c).c_str()); }
}
static void raw_cb(pomp_ctx *pc, pomp_conn *conn, pomp_buffer *buf, void *ud) {
	Ctx *c = (Ctx *)ud; if (c->c != pc) V("C03", "callback of a context that was destroyed"); InCb g(c); if (!c->raw) V("C09", "%s: raw notification in a message context", nm(c).c_str());
	common(c, conn, "raw"); const void *d; size_t n; pomp_buffer_get_cdata(buf, &d, &n, nullptr); TR("%s: raw datagram of %zu bytes", nm(c).c_str(), n);
	if (c->rawdone) V("C09", "%s: a datagram is notified twice", nm(c).c_str()); c->rawdone = true;
	if (n != c->got.size() || memcmp(d, c->got.data(), n)) V("C09", "%s: raw notification of %zu bytes, the datagram has %zu or others", nm(c).c_str(), n, c->got.size());
	fin(c, c->got.data(), c->got.size()); respond(c); in_callback(c);
}
static void send_cb(pomp_ctx *pc, pomp_conn *conn, pomp_buffer *buf, uint32_t status, void *, void *ud) {
	Ctx *c = (Ctx *)ud; if (c->c != pc) V("C03", "callback of a context that was destroyed"); InCb g(c); (void)conn; if (!c->sendcb) V("C02", "%s: send callback although none is set", nm(c).c_str());
	if (c->st == IDLE) V("C03", "%s: send notice although the context is stopped", nm(c).c_str());
	const void *d; size_t l; pomp_buffer_get_cdata(buf, &d, &l, nullptr); W->ops++; bool ok = status & POMP_SEND_STATUS_OK, bad = status & (POMP_SEND_STATUS_ABORTED | POMP_SEND_STATUS_ERROR);
	if (c->aw.empty()) V("C02", "%s: send notice (status %x) but no accepted send waits for one", nm(c).c_str(), status);
	Snd *s = c->aw.front(); if (s->calling) V("C02", "%s: the completion of send #%llu is notified inside the call", nm(c).c_str(), (unsigned long long)s->id);
	if (!eqmask(s->b, s->fo, d, l)) V("C02", "%s: send notice for another buffer than the oldest accepted one (#%llu)", nm(c).c_str(), (unsigned long long)s->id);
	c->aw.pop_front(); TR("%s: send notice #%llu status %x", nm(c).c_str(), (unsigned long long)s->id, status);
	if (ok == bad) V("C02", "%s: send notice with status %x", nm(c).c_str(), status);
	if (ok && !s->sent) V("C02", "%s: send #%llu is reported OK but was not transmitted", nm(c).c_str(), (unsigned long long)s->id);
	if (!ok && s->sent) V("C02", "%s: send #%llu is reported as failed (%x) but was transmitted", nm(c).c_str(), (unsigned long long)s->id, status);
	if (!ok && !s->failed && c->st != STOPPING) V("C02", "%s: send #%llu is reported as failed (%x) although the system did not refuse it", nm(c).c_str(), (unsigned long long)s->id, status);
	if (!ok && !s->failed) { if (c->pend.empty() || c->pend.front() != s) V("C02", "%s: sends are aborted out of order", nm(c).c_str()); c->pend.pop_front(); s->qempty = c->pend.empty(); s->failed = true; }
	if (c->aw.empty() && !(status & POMP_SEND_STATUS_QUEUE_EMPTY)) V("C02", "%s: the last send notice has no queue-empty flag", nm(c).c_str());
	if (!s->qempty && (status & POMP_SEND_STATUS_QUEUE_EMPTY)) V("C02", "%s: the notice of send #%llu says the queue is empty but others waited", nm(c).c_str(), (unsigned long long)s->id);
	probe(ok ? "dgram_ok" : "dgram_failed"); in_callback(c);
}
static void sock_cb(pomp_ctx *pc, int fd, pomp_socket_kind kind, void *ud) {
	Ctx *c = (Ctx *)ud; if (c->c != pc) V("C03", "socket callback of a context that was destroyed"); if (c->st == IDLE) V("C03", "%s: socket callback although the context is stopped", nm(c).c_str()); if (kind != POMP_SOCKET_KIND_DGRAM) V("C09", "%s: socket callback of kind %d", nm(c).c_str(), (int)kind);
	Dgram *d = dynamic_cast<Dgram *>(fd_file(c->n->p, fd)); if (!d) V("C09", "%s: socket callback with descriptor %d, not a datagram socket", nm(c).c_str(), fd);
	if (c->d && !c->d->dead) V("C09", "%s: a second socket while one is open", nm(c).c_str());
	if (c->nsock && W->now - c->t_bind < 2 * SEC) V("C04", "%s: another attempt to bind only %lld ms after the previous one", nm(c).c_str(), (long long)((W->now - c->t_bind) / MS)); c->nsock++; c->t_bind = W->now;
	c->d = d; G->socks[d] = c; TR("%s: socket %d", nm(c).c_str(), fd);
	if (c->pktinfo) { NoFault nf; int one = 1; int l = cur->inlib; cur->inlib = 0; k_setsockopt(c->n->p, fd, c->fam == AF_INET6 ? IPPROTO_IPV6 : IPPROTO_IP, c->fam == AF_INET6 ? IPV6_RECVPKTINFO : IP_PKTINFO, &one, sizeof one); cur->inlib = l; }
	InCb g(c); in_callback(c);
}
// ---------------------------------------------------------------- operations
static bool live(Ctx *c) { return c->d && !c->d->dead && c->d->bound; }
static bool create(Ctx *c) {
	uint64_t f0 = W->nfired; c->c = pomp_ctx_new_with_loop(event_cb, c, c->n->loop); if (!c->c) { if (W->nfired == f0) V("C19", "no context can be created although nothing failed"); return false; }
	c->st = IDLE; c->gen++; if (c->raw) pomp_ctx_set_raw(c->c, raw_cb); pomp_ctx_set_socket_cb(c->c, sock_cb); if (c->sendcb) pomp_ctx_set_send_cb(c->c, send_cb); if (c->rb) pomp_ctx_set_read_buffer_len(c->c, c->rb); return true;
}
static void clear(Ctx *c) { c->conn = nullptr; c->susp = false; c->have = false; c->nsock = 0; c->d = nullptr; }
static void stopped(Ctx *c) {
	for (auto &e : c->n->p->fds) if (e.f && e.owner == OWN_LIB && e.f->kind == K_DGRAM && ctx_of_sock((Dgram *)e.f) == c) V("C07", "%s: stopped, but its socket is still open", nm(c).c_str());
	if (!c->aw.empty()) V("C02", "%s: stopped, but send #%llu, which was accepted, has no completion", nm(c).c_str(), (unsigned long long)c->aw.front()->id);
	c->pend.clear(); uint32_t l = 99; pomp_ctx_get_local_addr(c->c, &l); if (l) V("C22", "%s: stopped, but it reports a local address", nm(c).c_str()); if (c->d && c->d->bound && !c->path.empty() && c->path[0] && K->paths.count(c->path)) V("C09", "%s: stopped, but its socket file is left", nm(c).c_str()); clear(c); c->st = IDLE; c->gen++; probe("dgram_stopped"); TR("%s: stopped", nm(c).c_str());
}
static void mark_cb(void *ud) { Mark *m = (Mark *)ud; Mark x = *m; delete m; x.c->n->nmark--; if (x.c->gen != x.gen || x.c->st != STOPPING) return; stopped(x.c); }
static void start(Ctx *c) {
	if (!c->c && !create(c)) return; if (c->st != IDLE) return; if (!c->path.empty() && c->path[0] && !K->paths.count(c->path) && chance(1500)) { K->paths[c->path] = {c->path, 0644, nullptr, W->nextino++, c->n->p->id}; probe("dgram_stale_file"); }
	uint64_t f0 = W->nfired; uint32_t ad0 = W->fired[F_ADDR_DOWN]; c->st = STARTED; W->ops++; c->nsock = 0; TR("%s: bind to %s", nm(c).c_str(), adr(&c->a, c->alen).c_str()); int r = pomp_ctx_bind(c->c, (sockaddr *)&c->a, c->alen); TR("  -> %d", r);
	if (c->st == STOPPING) { if (r < 0 && W->nfired == f0) V("C09", "%s: starting fails with %d although nothing failed", nm(c).c_str(), r); probe("dgram_stop_in_socket_cb"); return; }
	if (r == 0) { if (W->nfired == f0 && !live(c)) V("C09", "%s: started, nothing failed, but it is not bound", nm(c).c_str()); return; }
	if (W->nfired > f0 && W->nfired - f0 == W->fired[F_ADDR_DOWN] - ad0) V("C04", "%s: starting fails with %d although the address is only not there yet", nm(c).c_str(), r);
	if (W->nfired == f0) V("C09", "%s: starting fails with %d although nothing failed", nm(c).c_str(), r);
	c->st = STOPPING; int q = pomp_ctx_stop(c->c); if (q < 0) V("C03", "%s: stop after a failed start returns %d", nm(c).c_str(), q); stopped(c); probe("dgram_start_failed");
}
static void stop(Ctx *c) {
	if (!c->c || c->st != STARTED) return; W->ops++; TR("%s: stop%s", nm(c).c_str(), c->incb ? " (from a callback)" : ""); uint32_t a0 = W->fired[F_ALLOC]; c->st = STOPPING;
	int r = pomp_ctx_stop(c->c); if (!c->incb) { if (r < 0) V("C03", "%s: stop returns %d", nm(c).c_str(), r); stopped(c); return; }
	if (r < 0) { if (W->fired[F_ALLOC] == a0) V("C03", "%s: stop from a callback returns %d although nothing failed", nm(c).c_str(), r); c->st = STARTED; return; }
	NoFault nf; c->n->nmark++; pomp_loop_idle_add(c->n->loop, mark_cb, new Mark{c, c->gen}); probe("dgram_stop_deferred");
}
static bool can_send(Ctx *c) { return c->c && c->st == STARTED; }
static void op(Node *n, Ctx *in) {
	W->ops++; Ctx *c = n->ctxs[choose((uint32_t)n->ctxs.size())]; if (in && chance(5000)) c = in;
	switch (choosew({30, 4, 4, 2, 3, 2, 2, 2, 1})) {
	case 0: if (can_send(c)) { uint32_t k = 1 + choosew({6, 3, 1}) * choose(5); while (k-- && can_send(c)) send(c); } break;
	case 1: if (c->conn && c->st == STARTED && !c->susp) { TR("%s: suspend", nm(c).c_str()); int r = pomp_conn_suspend_read(c->conn); if (r < 0) V("C15", "%s: suspending reads returns %d", nm(c).c_str(), r); c->susp = true; probe("dgram_suspend"); } break;
	case 2: if (c->conn && c->st == STARTED && c->susp) { TR("%s: resume", nm(c).c_str()); c->susp = false; int r = pomp_conn_resume_read(c->conn); if (r < 0) V("C15", "%s: resuming reads returns %d", nm(c).c_str(), r); } break;
	case 3: stop(c); break;
	case 4: if (c->st == IDLE && !c->incb) start(c); break;
	case 5: { static const size_t L[] = {16, 64, 333, 4096, 16384}; size_t l = L[choose(5)]; if (c->conn && c->st == STARTED && chance(6000)) { TR("%s: read buffer of %zu bytes", nm(c).c_str(), l); pomp_conn_set_read_buffer_len(c->conn, l); } else if (c->c) pomp_ctx_set_read_buffer_len(c->c, l); break; }
	case 6: if (c->conn && c->st == STARTED && !c->incb) { Built b = build(c, false); sockaddr_storage z; memset(&z, 0, sizeof z); do_send(c, b, z, 0, true, true); drop(b); probe("dgram_send_noaddr"); } break;
	case 7: if (c->c && c->st == STARTED) { // sends without a destination are refused
			Built b = build(c, false); int r = c->raw ? pomp_ctx_send_raw_buf(c->c, b.buf) : pomp_ctx_send_msg(c->c, b.m); if (r == 0) V("C09", "%s: a send to nobody is accepted", nm(c).c_str()); drop(b); if (c->conn) { r = pomp_conn_disconnect(c->conn); if (r == 0) V("C09", "%s: a datagram context is disconnected", nm(c).c_str()); }
			uint32_t l = 0; const sockaddr *a = pomp_ctx_get_local_addr(c->c, &l); if (live(c) && c->conn && !W->rate[F_SOCKNAME] && !eqaddr(a, l, c->d->local, c->d->llen)) V("C22", "%s: reported local address is not the bound one", nm(c).c_str()); } break;
	default: if (c->c && c->st == IDLE && !c->incb) { int r = pomp_ctx_destroy(c->c); if (r < 0) V("C07", "%s: destroying a stopped context returns %d", nm(c).c_str(), r); c->c = nullptr; c->gen++; create(c); } break;
	}
}
static void settle(Node *n, int to) {
	ns t0 = W->now; int r = pomp_loop_wait_and_process(n->loop, to); for (Ctx *c : n->ctxs) check_done(c);
	if (r == -ETIMEDOUT) for (Ctx *c : n->ctxs) if (c->st == STARTED && live(c)) {
		if (!c->susp && !c->d->q.empty() && !W->faults_on && W->now - t0 > 50 * MS && G->phase) V("C09", "%s: the loop finds nothing to do but %zu datagrams wait to be read", nm(c).c_str(), c->d->q.size());
		if (!c->aw.empty() && c->aw.front()->sent) V("C02", "%s: the loop finds nothing to do but send #%llu, which was transmitted, is not notified", nm(c).c_str(), (unsigned long long)c->aw.front()->id);
	}
}
static bool fin_ok = false;
static void node_main(Node *n) {
	cur->noblock = "C19"; while (!n->loop) { n->loop = pomp_loop_new(); if (!n->loop) { if (!W->nfired) V("C19", "no loop can be created although nothing failed"); sleep_ns(10 * MS); } }
	for (Ctx *c : n->ctxs) { for (int i = 0; i < 100 && !c->c; i++) if (!create(c)) sleep_ns(10 * MS); start(c); }
	ns next = W->now;
	for (;;) {
		if (G->phase == 0) { if (W->now >= next && n->budget) { uint32_t k = choosew({3, 4, 2, 1}); while (k-- && n->budget) { n->budget--; op(n, nullptr); } next = W->now + (ns)geom(200) * MS; } for (Ctx *c : n->ctxs) if (c->st == IDLE && chance(500)) start(c); settle(n, n->budget ? (int)std::max<ns>(0, std::min<ns>((next - W->now) / MS + 1, 300)) : 300); }
		else if (G->phase < 4) {
			for (Ctx *c : n->ctxs) { if (c->st == IDLE) start(c); if (c->susp && c->conn && c->st == STARTED) { c->susp = false; pomp_conn_resume_read(c->conn); } }
			if (G->phase == 2 && n->fin == 0) { n->fin = 1; for (Ctx *c : n->ctxs) { if (!c->c) continue; pomp_ctx_set_read_buffer_len(c->c, 4096); if (c->conn && c->st == STARTED) pomp_conn_set_read_buffer_len(c->conn, 4096); else if (c->st == STARTED) { stop(c); start(c); } } }
			if (G->phase == 2 && n->fin == 1 && W->now > G->t1 + 20 * SEC) { n->fin = 2; G->maxmsg = 200;
				for (Ctx *c : n->ctxs) for (Ctx *x : G->all) if (x->fam == c->fam && x->raw == c->raw) { sockaddr_storage s = x->a; if (x->any) { if (c->fam == AF_INET) ((sockaddr_in *)&s)->sin_addr.s_addr = htonl(x->n->p->ip); else { memset((char *)&((sockaddr_in6 *)&s)->sin6_addr + 10, 0xff, 2); uint32_t y = htonl(x->n->p->ip); memcpy((char *)&((sockaddr_in6 *)&s)->sin6_addr + 12, &y, 4); } }
					if (!live(c)) V("C04", "%s: not bound 20 s after the faults stopped", nm(c).c_str());
					Built b = build(c, false); uint64_t id = b.s->id; std::string by = b.s->b; int r = do_send(c, b, s, x->alen, false, false); drop(b); if (r < 0) V("C09", "%s: a send is refused with %d although faults have stopped", nm(c).c_str(), r); x->fexp.push_back({id, by}); }
			}
			settle(n, 200);
		} else break;
	}
	for (Ctx *c : n->ctxs) { stop(c); }
	for (int i = 0; i < 50; i++) { bool w = n->nmark > 0; for (Ctx *c : n->ctxs) if (c->st == STOPPING) w = true; if (!w) break; pomp_loop_wait_and_process(n->loop, 10); }
	for (Ctx *c : n->ctxs) if (c->c) { int r = pomp_ctx_destroy(c->c); if (r < 0) V("C07", "%s: destroying a stopped context returns %d", nm(c).c_str(), r); }
	int r = pomp_loop_destroy(n->loop); if (r < 0) V("C07", "%s: the loop cannot be destroyed (%d)", n->name.c_str(), r); check_clean(n->p, "C07"); n->done = true; G->ndone++;
}
static std::string peer_datagram() {
	auto msg = [&]() { std::string m("POMP\0\0\0\0\0\0\0\0", 12); uint32_t id = (uint32_t)G->serial++; memcpy(&m[4], &id, 4); uint32_t na = choosew({2, 3, 2, 1}); for (uint32_t i = 0; i < na; i++) switch (choose(6)) { case 0: m += "\x02"; m += (char)choose(256); break; case 1: m += std::string("\x06\x05", 2); break; case 2: { std::string s; fill(s, choose(40)); for (auto &c : s) if (!c) c = 'P'; m += "\x09"; m += (char)(s.size() + 1); m += s; m += '\0'; break; } case 3: { std::string s; fill(s, choose(100)); m += "\x0a"; m += (char)s.size(); m += s; break; } case 4: m += "\x0c" "abcdefgh"; break; default: if (chance(3000)) m += std::string("\x0d\x03\0\0\0", 5); break; } uint32_t z = (uint32_t)m.size(); memcpy(&m[8], &z, 4); return m; };
	std::string s; switch (choosew({6, 3, 3, 2, 2, 2, 2, 2, 1})) {
	case 0: s = msg(); break; case 1: { uint32_t k = range(2, 4); while (k--) s += msg(); break; } case 2: s = msg(); s.resize(choose((uint32_t)s.size())); fault_fired(F_HOSTILE); break; case 3: fill(s, choose(80)); fault_fired(F_HOSTILE); break; case 4: fault_fired(F_HOSTILE); break;
	case 5: s = msg(); { uint32_t z = (uint32_t)s.size() + 1 + choose(60); memcpy(&s[8], &z, 4); } fault_fired(F_HOSTILE); break; case 6: s = pick<const char *>({"P", "PO", "POM", "PP", "POMP", "POP", "xPOMP"}); if (chance(5000)) s += msg(); fault_fired(F_HOSTILE); break;
	case 7: s = msg(); s += msg(); s.resize(s.size() - 1 - choose(8)); fault_fired(F_HOSTILE); break; default: s = msg(); s[choose((uint32_t)s.size())] ^= (char)(1 + choose(255)); fault_fired(F_HOSTILE); break; }
	return s;
}
static void peer_main(Peer *p) {
	p->fd = k_socket(p->p, p->fam, SOCK_DGRAM | SOCK_NONBLOCK, 0); bool bound = p->fam != AF_UNIX || chance(7000); if (bound) k_bind(p->p, p->fd, (sockaddr *)&p->a, p->alen); ns t = W->now;
	for (;;) {
		for (int i = 0; i < 30; i++) { char b[70000], cb[64]; iovec v = {b, sizeof b}; msghdr m; memset(&m, 0, sizeof m); m.msg_iov = &v; m.msg_iovlen = 1; sockaddr_storage fr; m.msg_name = &fr; m.msg_namelen = sizeof fr; m.msg_control = cb; m.msg_controllen = sizeof cb; ssize_t r = k_recvmsg(p->p, p->fd, &m, 0); if (r < 0) break; for (cmsghdr *x = CMSG_FIRSTHDR(&m); x; x = CMSG_NXTHDR(&m, x)) if (x->cmsg_level == SOL_SOCKET && x->cmsg_type == SCM_RIGHTS) { size_t nf = (x->cmsg_len - CMSG_LEN(0)) / sizeof(int); for (size_t q = 0; q < nf; q++) { int fd; memcpy(&fd, CMSG_DATA(x) + q * sizeof(int), sizeof fd); k_close(p->p, fd); } } }
		if (G->phase == 0 && p->budget && W->now >= t) { uint32_t k = range(1, 4); while (k-- && p->budget) { p->budget--; std::vector<Ctx *> l; for (Ctx *c : G->all) if (c->fam == p->fam) l.push_back(c); if (l.empty()) break; Ctx *c = l[choose((uint32_t)l.size())]; sockaddr_storage s = c->a; if (c->any) { if (c->fam == AF_INET) ((sockaddr_in *)&s)->sin_addr.s_addr = htonl(c->n->p->ip); else { memset((char *)&((sockaddr_in6 *)&s)->sin6_addr + 10, 0xff, 2); uint32_t y = htonl(c->n->p->ip); memcpy((char *)&((sockaddr_in6 *)&s)->sin6_addr + 12, &y, 4); } }
				std::string b = peer_datagram(); std::vector<uint32_t> fo; if (p->fam == AF_UNIX) { RefDec rd; rd.feed(b.data(), b.size()); for (auto &e : rd.out) for (auto &f : e.fds) fo.push_back(f.first); }
				size_t nf = fo.size(); if (p->fam == AF_UNIX && chance(1500)) nf = choose(6);
				if (nf) { std::vector<int> fl; for (size_t i = 0; i < nf && i < 6; i++) { int fd; appfile(p->p, &fd); fl.push_back(fd); } char cb[CMSG_SPACE(8 * sizeof(int))]; memset(cb, 0, sizeof cb); iovec v = {(void *)b.data(), b.size()}; msghdr m; memset(&m, 0, sizeof m); m.msg_iov = &v; m.msg_iovlen = 1; m.msg_name = &s; m.msg_namelen = c->alen; m.msg_control = cb; m.msg_controllen = CMSG_SPACE(fl.size() * sizeof(int)); cmsghdr *x = CMSG_FIRSTHDR(&m); x->cmsg_level = SOL_SOCKET; x->cmsg_type = SCM_RIGHTS; x->cmsg_len = CMSG_LEN(fl.size() * sizeof(int)); memcpy(CMSG_DATA(x), fl.data(), fl.size() * sizeof(int)); k_sendmsg(p->p, p->fd, &m, 0); for (int q : fl) k_close(p->p, q); }
				else k_sendto(p->p, p->fd, b.data(), b.size(), 0, (sockaddr *)&s, c->alen); } t = W->now + (ns)geom(200) * MS; }
		sleep_ns((ns)range(1, 60) * MS);
	}
}
static void director() {
	sleep_ns((ns)range(500, 8000) * MS); std::vector<Proc *> ps; for (Node *n : G->nodes) ps.push_back(n->p); for (Peer *p : G->peers) ps.push_back(p->p);
	for (int i = 0; i < 10; i++) { sleep_ns((ns)geom(800) * MS); if (W->rate[F_STALL] && chance(3000)) { Proc *a = ps[choose((uint32_t)ps.size())]; ns d = W->now + (ns)range(1, 1500) * MS; for (Fiber *f : a->fibers) if (!f->finished) f->stall_until = d; fault_fired(F_STALL); } if (W->rate[F_PARTITION] && chance(3000)) { Proc *a = ps[choose((uint32_t)ps.size())], *b = ps[choose((uint32_t)ps.size())]; if (a != b) { Link &l = link_of(a, b); if (!l.cut) fault_fired(F_PARTITION); link_cut(a, b, !l.cut); } } }
	TR("---- faults stop"); W->faults_on = false; for (auto &l : K->links) l.second.cut = false; for (Fiber *f : W->fibers) f->stall_until = 0; for (Node *n : G->nodes) n->p->fdlimit = 1024; changed();
	G->phase = 2; G->t1 = W->now; sleep_ns(32 * SEC);
	for (Ctx *c : G->all) {
		if (!c->pend.empty()) V("C09", "%s: send #%llu was accepted and is still not transmitted 30 s after the faults stopped", nm(c).c_str(), (unsigned long long)c->pend.front()->id);
		for (auto &f : c->fexp) { auto it = c->fgot.find(f.second); if (it == c->fgot.end()) V("C09", "%s: datagram #%llu, sent to it after the faults stopped, is not delivered", nm(c).c_str(), (unsigned long long)f.first); c->fgot.erase(it); }
		probe("final_round");
	}
	G->phase = 4; ns t = W->now; while (G->ndone < (int)G->nodes.size()) { sleep_ns(50 * MS); if (W->now - t > 20 * SEC) V("C07", "teardown does not end"); }
	if (G->delivered > 3) probe("useful_run"); end_run();
}
static void setaddr(int fam, Proc *p, uint16_t port, int form, sockaddr_storage *a, socklen_t *l, std::string *path) {
	memset(a, 0, sizeof *a); if (fam == AF_INET) { auto x = in_addr(htonl(p->ip), port); memcpy(a, &x, sizeof x); *l = sizeof x; }
	else if (fam == AF_INET6) { auto *x = (sockaddr_in6 *)a; x->sin6_family = AF_INET6; x->sin6_port = htons(port); memset((char *)&x->sin6_addr + 10, 0xff, 2); uint32_t y = htonl(p->ip); memcpy((char *)&x->sin6_addr + 12, &y, 4); *l = sizeof *x; }
	else { auto *u = (sockaddr_un *)a; u->sun_family = AF_UNIX; *path = form ? std::string(1, '\0') + "dg" + std::to_string(port) : "/tmp/dg" + std::to_string(port); memcpy(u->sun_path, path->data(), path->size()); *l = (socklen_t)(offsetof(sockaddr_un, sun_path) + path->size() + (form ? 0 : 1)); }
}
static void setup() {
	delete G; G = new G_; K->ready_random = chance(5000); G->maxmsg = pick<uint32_t>({60, 300, 3000, 20000}); K->dgram_qcap = pick<uint32_t>({8, 64, 64, 64}); K->lat_default = (ns)pick<uint32_t>({50, 500, 5000}) * US; K->var_default = chance(4000) ? K->lat_default * 2 : 0; G->w_cb = pick<uint32_t>({10, 30, 60});
	int fam0 = pick<int>({AF_INET, AF_INET, AF_UNIX, AF_INET6}); uint32_t nn = range(1, 3); uint16_t port = 6000;
	for (uint32_t i = 0; i < nn; i++) { Node *n = new Node; n->id = (int)i; n->name = "n" + std::to_string(i); n->p = mkproc(n->name.c_str(), ipa((int)i + 1)); n->budget = range(10, 100); n->cbbudget = range(10, 100); G->nodes.push_back(n);
		uint32_t nc = 1 + choosew({5, 3, 1}); for (uint32_t k = 0; k < nc; k++) { Ctx *c = new Ctx; c->id = (int)G->all.size(); c->n = n; c->fam = chance(8500) ? fam0 : pick<int>({AF_INET, AF_UNIX}); c->raw = chance(2500); c->sendcb = chance(7000); c->pktinfo = c->fam != AF_UNIX && chance(3000); static const size_t RB[] = {0, 0, 0, 30, 100, 1000}; c->rb = RB[choose(6)]; c->any = false; setaddr(c->fam, n->p, ++port, (int)choose(2), &c->a, &c->alen, &c->path); if (c->fam != AF_UNIX && chance(3000)) { c->any = true; if (c->fam == AF_INET) ((sockaddr_in *)&c->a)->sin_addr.s_addr = 0; else memset(&((sockaddr_in6 *)&c->a)->sin6_addr, 0, 16); } n->ctxs.push_back(c); G->all.push_back(c); } }
	uint32_t np = range(1, 2); for (uint32_t i = 0; i < np; i++) { Peer *p = new Peer; p->p = mkproc("peer", ipa(20 + (int)i)); p->fam = G->all[choose((uint32_t)G->all.size())]->fam; p->budget = range(10, 80); setaddr(p->fam, p->p, ++port, 1, &p->a, &p->alen, &p->path); G->peers.push_back(p); }
	W->faults_on = true; auto R = [&](Fault f, uint32_t p, uint32_t r) { if (chance(p)) W->rate[f] = pick<uint32_t>({r, r / 4 + 1, r * 3}); };
	if (chance(8500)) {
		R(F_UDP_LOSS, 3000, 800); R(F_UDP_DUP, 4000, 1000); R(F_UDP_REORDER, 4000, 1500); R(F_UDP_TRUNC, 3500, 800); R(F_UDP_CORRUPT, 3000, 800); R(F_SOCKBUF_FULL, 5000, 1500); R(F_UDP_SENDERR, 3500, 600); R(F_EINTR, 3000, 400); R(F_LATENCY, 1500, 200); R(F_STALL, 2000, 300); R(F_PARTITION, 2000, 300);
		R(F_ALLOC, 1500, 60); R(F_READ_ERR, 1500, 200); R(F_ADDR_DOWN, 2000, 3000); R(F_MAXFDS, 1500, 300); R(F_EMFILE, 1000, 150); R(F_EPOLL_ADD, 800, 200); R(F_BIND, 800, 500); R(F_SETSOCKOPT, 600, 300); R(F_FCNTL, 600, 300); R(F_SOCKNAME, 600, 300); R(F_TIMERSET, 0, 0);
	}
	for (Node *n : G->nodes) if (chance(2000)) n->p->ip_up_at = W->now + (ns)choose(9000) * MS;
	K->hooks.on_sendto = on_sendto; K->hooks.on_sendfail = on_sendfail; K->hooks.on_dgram_recv = on_dgram_recv; W->steplimit = 500000; (void)fin_ok;
	for (Node *n : G->nodes) spawn(n->p, n->name.c_str(), [n]() { node_main(n); });
	for (Peer *p : G->peers) spawn(p->p, "peer", [p]() { peer_main(p); });
	Proc *d = mkproc("director", ipa(99)); spawn(d, "director", director);
}
}
void scen_dgram(const char *) { dgm::setup(); }
