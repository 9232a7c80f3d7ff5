// The scenarios on connections, timers, descriptors and threads once more, with all calls made through the C++ interface
// (libpomp.hpp, libpomp-cxx11.hpp) as far as it has them. Everything those scenarios require holds here too; in addition the
// objects of the C++ interface have to mirror what the C interface reports.
#include "app.h"
#include "proto.h"
#include <unistd.h>
#include <memory>
#include <utility>
#define private public
#include "libpomp.hpp"
#undef private
#ifdef SIM_ASAN
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
#endif
namespace cx {
struct XH; struct XM; struct XL;
struct XConn { XH *h; pomp::Connection *c; };
struct XHF : pomp::Loop::Handler { pomp_fd_event_cb_t cb; void *ud; int fd; void processFd(int f, uint32_t ev) override { if (f != fd) violate("C23", "handler of descriptor %d is called for descriptor %d", fd, f); cb(f, ev, ud); } };
struct XL { pomp::Loop *l; std::map<int, std::unique_ptr<pomp::Loop::Handler>> h; std::vector<std::unique_ptr<pomp::Loop::Handler>> old; };
struct XT : pomp::Timer::Handler { pomp_timer_cb_t cb; void *ud; pomp::Timer *t = nullptr; pomp_timer *raw = nullptr; pomp::Timer::HandlerFunc *f = nullptr; void processTimer() override { cb(raw, ud); } };
struct XE : pomp::Event::Handler { pomp_evt_cb_t cb = nullptr; void *ud = nullptr; pomp::Event *e = nullptr; pomp_evt *raw = nullptr; void processEvent() override { cb(raw, ud); } };
struct XM { pomp::Message *m = nullptr; pomp::Encoder *e = nullptr; const pomp::Message &get() { return e ? e->getMessage() : *m; } };
struct XEnc { pomp::Encoder *e = nullptr; };
struct XD { pomp::Decoder *d = nullptr; pomp::Message *tmp = nullptr; std::string s; std::vector<uint8_t> v; };
struct Reg_ { std::map<pomp_ctx *, XH *> ctx; std::map<pomp_loop *, XL *> loop; std::map<pomp_timer *, XT *> timer; std::map<pomp_evt *, XE *> evt; std::set<const void *> msg; std::map<pomp_conn *, XConn> conn; const pomp::Message *cur = nullptr; };
static Reg_ *R; static void reset() { R = new Reg_; }
#ifdef SIM_ASAN
// released or not: asked of the allocator, since the memory may already serve for something else
static const void *g_watch[256]; static bool g_freed[256]; static unsigned g_nwatch;
static void on_malloc(const volatile void *, size_t) {}
static void on_free(const volatile void *p) { for (unsigned i = 0; i < 256; i++) if (g_watch[i] == p) g_freed[i] = true; }
static void watch(const void *p) { static bool once = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); (void)once; unsigned i = g_nwatch++ % 256; g_watch[i] = p; g_freed[i] = false; }
static bool was_freed(const void *p) { for (unsigned k = 0; k < 256; k++) { unsigned i = (g_nwatch - 1 - k) % 256; if (g_watch[i] == p) return g_freed[i]; } return true; }
#else
static void watch(const void *) {}
#endif
struct XH : pomp::EventHandler {
	pomp::Context *x = nullptr; pomp_ctx *raw = nullptr; pomp_event_cb_t cb; void *ud; pomp_ctx_raw_cb_t rcb = nullptr; bool sendcb = false; pomp_send_cb_t scb = nullptr; pomp_socket_cb_t kcb = nullptr; std::map<pomp_conn *, pomp::Connection *> live; std::vector<pomp::Connection *> dead; pomp_loop *lp = nullptr;
	void same(const char *when) {
		const pomp::ConnectionArray &a = x->getConnections(); if (a.size() != live.size()) violate("C23", "%s: the C++ context lists %zu connections, %zu are announced", when, a.size(), live.size());
		for (pomp::Connection *c : a) { bool f = false; for (auto &e : live) if (e.second == c) f = true; if (!f) violate("C23", "%s: the C++ context lists a connection that is not announced", when); }
		if (x->getConnection() != (a.empty() ? nullptr : a[0])) violate("C23", "%s: the first connection is not the first one of the list", when);
#ifdef SIM_ASAN
		for (size_t i = 0; i < dead.size();) { bool now = false; for (pomp::Connection *c : a) if (c == dead[i]) now = true; if (!now && !was_freed(dead[i])) violate("C23", "%s: the object of a connection that has ended is still there", when); dead.erase(dead.begin() + i); }
#endif
	}
	void onConnected(pomp::Context *c, pomp::Connection *k) override {
		if (c != x) violate("C23", "connected notification with a foreign context"); if (!k || !k->mConn) violate("C23", "connected notification without a connection"); if (live.count(k->mConn)) violate("C23", "a connection is announced as connected twice"); for (auto &e : live) if (e.second == k) violate("C23", "two connections share an object");
		live[k->mConn] = k; R->conn[k->mConn] = {this, k}; same("connected"); cb(raw, POMP_EVENT_CONNECTED, k->mConn, nullptr, ud); same("connected"); }
	void onDisconnected(pomp::Context *c, pomp::Connection *k) override {
		if (c != x) violate("C23", "disconnected notification with a foreign context"); pomp_conn *p = nullptr; for (auto &e : live) if (e.second == k) p = e.first; if (!p) violate("C23", "disconnected notification with an object that was not announced"); if (k->mConn != p) violate("C23", "the object of a connection has changed");
		cb(raw, POMP_EVENT_DISCONNECTED, p, nullptr, ud); live.erase(p); dead.push_back(k); watch(k); auto it = R->conn.find(p); if (it != R->conn.end() && it->second.c == k) R->conn.erase(it); }
	void recvMessage(pomp::Context *c, pomp::Connection *k, const pomp::Message &m) override;
	void recvRawBuffer(pomp::Context *c, pomp::Connection *k, const std::vector<uint8_t> &v) override {
		if (c != x) violate("C23", "raw notification with a foreign context"); if (!k || !live.count(k->mConn) || live[k->mConn] != k) violate("C23", "raw notification with an object that is not announced"); same("raw");
		pomp_buffer *b; { NoFault nf; b = pomp_buffer_new(v.size() ? v.size() : 1); if (v.size()) pomp_buffer_append_data(b, v.data(), v.size()); } rcb(raw, k->mConn, b, ud); pomp_buffer_unref(b); }
};
static XH *hx(const pomp_ctx *c) { auto it = R->ctx.find((pomp_ctx *)c); if (it == R->ctx.end()) { fprintf(stderr, "cxx: unknown context\n"); abort(); } return it->second; }
static pomp::Connection *kx(const pomp_conn *c) { auto it = R->conn.find((pomp_conn *)c); if (it == R->conn.end()) violate("C23", "a connection that is up has no object"); return it->second.c; }
static XL *lx(const pomp_loop *l) { auto it = R->loop.find((pomp_loop *)l); return it == R->loop.end() ? nullptr : it->second; }
static bool is_xm(const pomp_msg *m) { return R->msg.count(m) != 0; }
static XM *mx(const pomp_msg *m) { return (XM *)m; }
// ---------------------------------------------------------------- typed messages
typedef pomp::MessageFormat<7> F0;
typedef pomp::MessageFormat<0x10001, pomp::ArgI8, pomp::ArgU8, pomp::ArgI16, pomp::ArgU16, pomp::ArgI32, pomp::ArgU32, pomp::ArgI64, pomp::ArgU64> F1;
typedef pomp::MessageFormat<42, pomp::ArgStr, pomp::ArgBuf, pomp::ArgF32, pomp::ArgF64> F2;
typedef pomp::MessageFormat<0xffffffffu, pomp::ArgU64, pomp::ArgStr> F3;
static std::string bytes_of(const pomp_msg *m) { pomp_buffer *b = pomp_msg_get_buffer(m); if (!b) return ""; const void *d; size_t n; pomp_buffer_get_cdata(b, &d, &n, nullptr); return std::string((const char *)d, n); }
template<class F> static void wcheck(int rc, uint32_t a0, const pomp::Message &m, const std::string &want, const char *what) {
	bool al = W->fired[F_ALLOC] != a0; if (rc < 0) { if (!al) violate("C23", "%s: writing a typed message fails with %d although nothing failed", what, rc); probe("typed_write_failed"); return; }
	if (rc > 0) violate("C23", "%s: writing a typed message returns %d", what, rc); std::string got = bytes_of(m.getMsg()); if (got != want) violate("C23", "%s: a typed message is written as %s, the same arguments are %s%s", what, hex(got.data(), got.size()).c_str(), hex(want.data(), want.size()).c_str(), al ? " (an allocation failed but success is reported)" : ""); probe("typed_write"); }
static std::string cwrite(uint32_t id, const char *fmt, ...) { NoFault nf; va_list ap; va_start(ap, fmt); pomp_msg *m = pomp_msg_new(); if (fmt) pomp_msg_writev(m, id, fmt, ap); else { pomp_msg_init(m, id); pomp_msg_finish(m); } va_end(ap); std::string s = bytes_of(m); pomp_msg_destroy(m); return s; }
static void typed() {
	uint64_t r = mix64(((uint64_t)choose(0xffffffff) << 20) ^ choose(1 << 20)), q = chance(3000) ? choose(3) : mix64(r); if (chance(1000)) q = ~0ull;
	uint32_t a0 = W->fired[F_ALLOC]; pomp::Message m; if (!m.getMsg()) { if (W->fired[F_ALLOC] == a0) violate("C23", "a message cannot be created although nothing failed"); if (m.write<F0>() >= 0) violate("C23", "writing succeeds on a message that could not be created"); return; }
	uint32_t twice = 1 + choose(2); while (twice--) { a0 = W->fired[F_ALLOC]; uint32_t b0;
		switch (choose(4)) {
		case 0: { int rc = m.write<F0>(); wcheck<F0>(rc, a0, m, cwrite(7, nullptr), "no arguments"); if (rc < 0) break; b0 = W->fired[F_ALLOC]; rc = m.read<F0>(); if (rc && W->fired[F_ALLOC] == b0) violate("C23", "reading an empty typed message returns %d", rc); if (m.read<F2>(*new std::string, *new std::vector<uint8_t>, *new float, *new double) != -EINVAL) violate("C23", "reading a message as one with another identifier does not fail"); break; }
		case 1: { int8_t a = (int8_t)r; uint8_t b = (uint8_t)q; int16_t c = (int16_t)(r >> 8); uint16_t d = (uint16_t)(q >> 8); int32_t e = (int32_t)(r >> 16); uint32_t f = (uint32_t)(q >> 16); int64_t g = (int64_t)r; uint64_t h = q;
			int rc = m.write<F1>(a, b, c, d, e, f, g, h); wcheck<F1>(rc, a0, m, cwrite(0x10001, "%hhd%hhu%hd%hu%d%u%lld%llu", a, b, c, d, e, f, (long long)g, (unsigned long long)h), "integers"); if (rc < 0) break;
			int8_t a2 = 0; uint8_t b2 = 0; int16_t c2 = 0; uint16_t d2 = 0; int32_t e2 = 0; uint32_t f2 = 0; int64_t g2 = 0; uint64_t h2 = 0; b0 = W->fired[F_ALLOC]; rc = m.read<F1>(a2, b2, c2, d2, e2, f2, g2, h2); bool al = W->fired[F_ALLOC] != b0;
			if (rc < 0 ? !al : (a != a2 || b != b2 || c != c2 || d != d2 || e != e2 || f != f2 || g != g2 || h != h2)) violate("C23", "integers written and read through typed messages differ (%d)", rc);
			pomp::Decoder dec(m); if (W->fired[F_ALLOC] == b0) { a2 = 0; h2 = 0; if (dec.read(a2) || dec.read(b2) || dec.read(c2) || dec.read(d2) || dec.read(e2) || dec.read(f2) || dec.read(g2) || dec.read(h2) || a != a2 || b != b2 || c != c2 || d != d2 || e != e2 || f != f2 || g != g2 || h != h2) violate("C23", "integers written and read through a decoder differ"); } break; }
		case 2: { std::string s; std::vector<uint8_t> v; uint32_t n = choose(40); for (uint32_t i = 0; i < n; i++) { s += (char)(1 + (r >> (i % 50)) % 255); v.push_back((uint8_t)(q >> (i % 50))); } if (chance(2000)) s.clear(); if (chance(2000)) v.clear(); float x = (float)(int32_t)r / 3; double y = (double)(int64_t)q / 7;
			int rc = m.write<F2>(s, v, x, y); wcheck<F2>(rc, a0, m, cwrite(42, "%s%p%u%f%lf", s.c_str(), v.data() ? (void *)v.data() : (void *)"", (unsigned)v.size(), x, y), "string, buffer, floats"); if (rc < 0) break;
			std::string s2 = "x"; std::vector<uint8_t> v2{1, 2}; float x2 = 0; double y2 = 0; b0 = W->fired[F_ALLOC]; rc = m.read<F2>(s2, v2, x2, y2); if (rc < 0 ? W->fired[F_ALLOC] == b0 : (s != s2 || v != v2 || x != x2 || y != y2)) violate("C23", "a string, a buffer and numbers written and read through typed messages differ (%d)", rc); break; }
		default: { std::string s = "abc"; int rc = chance(5000) ? m.write(0xffffffffu, "%llu%s", (unsigned long long)r, s.c_str()) : m.write<F3>(r, s); wcheck<F3>(rc, a0, m, cwrite(0xffffffffu, "%llu%s", (unsigned long long)r, s.c_str()), "number and string"); if (rc < 0) break; unsigned long long r2 = 0; char *t = nullptr; b0 = W->fired[F_ALLOC]; rc = m.read("%llu%ms", &r2, &t); if (rc < 0 ? W->fired[F_ALLOC] == b0 : r2 != r || !t || s != t) violate("C23", "a number and a string read back differ (%d)", rc); if (t && mem_is_live(t)) mem_free(t); break; }
		} }
}
void XH::recvMessage(pomp::Context *c, pomp::Connection *k, const pomp::Message &m) {
	if (c != x) violate("C23", "message notification with a foreign context"); if (!k || !live.count(k->mConn) || live[k->mConn] != k) violate("C23", "message notification with an object that is not announced"); same("message"); if (!m.getMsg()) violate("C23", "message notification without a message"); if (m.getId() != pomp_msg_get_id(m.getMsg())) violate("C23", "identifier of a received message is %u, not %u", m.getId(), pomp_msg_get_id(m.getMsg()));
	if (chance(500)) typed(); const pomp::Message *o = R->cur; R->cur = &m; cb(raw, POMP_EVENT_MSG, k->mConn, m.getMsg(), ud); R->cur = o; }
// ---------------------------------------------------------------- loops
static pomp_loop *loop_new() { pomp::Loop *l = new pomp::Loop(); pomp_loop *r = l->get(); if ((pomp_loop *)*l != r) violate("C23", "a loop converts to another loop"); if (!r) { delete l; return nullptr; } XL *x = new XL; x->l = l; R->loop[r] = x; return r; }
static int loop_destroy(pomp_loop *r) { XL *x = lx(r); R->loop.erase(r); delete x->l; return 0; }
static int loop_add(pomp_loop *r, int fd, uint32_t ev, pomp_fd_event_cb_t cb, void *ud) {
	XL *x = lx(r); if (!x) return pomp_loop_add(r, fd, ev, cb, ud); pomp::Loop::Handler *h; if (chance(5000)) { XHF *q = new XHF; q->cb = cb; q->ud = ud; q->fd = fd; h = q; } else { auto fn = [cb, ud](int f, uint32_t e) { cb(f, e, ud); }; if (chance(5000)) h = new pomp::Loop::HandlerFunc(fn); else { auto *q = new pomp::Loop::HandlerFunc(); q->set(fn); h = q; } }
	int rc = x->l->add(fd, ev, h); if (rc < 0) { delete h; return rc; } auto &s = x->h[fd]; if (s) x->old.push_back(std::move(s)); s.reset(h); return rc; }
static int loop_update(pomp_loop *r, int fd, uint32_t ev) { XL *x = lx(r); return x ? x->l->update(fd, ev) : pomp_loop_update(r, fd, ev); }
static int loop_remove(pomp_loop *r, int fd) { XL *x = lx(r); if (!x) return pomp_loop_remove(r, fd); int rc = x->l->remove(fd); if (rc == 0) { auto it = x->h.find(fd); if (it != x->h.end()) { x->old.push_back(std::move(it->second)); x->h.erase(it); } } return rc; }
static int loop_has_fd(pomp_loop *r, int fd) { XL *x = lx(r); return x ? x->l->hasFd(fd) : pomp_loop_has_fd(r, fd); }
static intptr_t loop_get_fd(pomp_loop *r) { XL *x = lx(r); return x ? x->l->getFd() : pomp_loop_get_fd(r); }
static int loop_process_fd(pomp_loop *r) { XL *x = lx(r); return x ? x->l->processFd() : pomp_loop_process_fd(r); }
static int loop_wait(pomp_loop *r, int to) { XL *x = lx(r); return x ? x->l->waitAndProcess(to) : pomp_loop_wait_and_process(r, to); }
static int loop_wakeup(pomp_loop *r) { XL *x = lx(r); return x ? x->l->wakeup() : pomp_loop_wakeup(r); }
// ---------------------------------------------------------------- timers
static pomp_timer *timer_new(pomp_loop *r, pomp_timer_cb_t cb, void *ud) {
	XL *x = lx(r); if (!x) return pomp_timer_new(r, cb, ud); XT *t = new XT; t->cb = cb; t->ud = ud; pomp::Timer::Handler *h = t; if (chance(5000)) { t->f = new pomp::Timer::HandlerFunc(); t->f->set([t]() { t->cb(t->raw, t->ud); }); h = t->f; }
	t->t = new pomp::Timer(x->l, h); t->raw = t->t->mTimer; if (!t->raw) { delete t->t; delete t->f; delete t; return nullptr; } R->timer[t->raw] = t; return t->raw; }
static int timer_set(pomp_timer *p, uint32_t d) { auto it = R->timer.find(p); return it == R->timer.end() ? pomp_timer_set(p, d) : chance(5000) ? it->second->t->set(d) : it->second->t->set(d, 0); }
static int timer_set_periodic(pomp_timer *p, uint32_t d, uint32_t q) { auto it = R->timer.find(p); return it == R->timer.end() ? pomp_timer_set_periodic(p, d, q) : chance(5000) ? it->second->t->set(d, q) : it->second->t->setPeriodic(d, q); }
static int timer_clear(pomp_timer *p) { auto it = R->timer.find(p); return it == R->timer.end() ? pomp_timer_clear(p) : it->second->t->clear(); }
static int timer_destroy(pomp_timer *p) { auto it = R->timer.find(p); if (it == R->timer.end()) return pomp_timer_destroy(p); XT *t = it->second; R->timer.erase(it); delete t->t; t->t = nullptr; return 0; }
// ---------------------------------------------------------------- events
static pomp_evt *evt_new() { XE *e = new XE; e->e = new pomp::Event(); e->raw = e->e->mEvt; if (!e->raw) { delete e->e; delete e; return nullptr; } R->evt[e->raw] = e; return e->raw; }
static XE *ex(pomp_evt *p) { auto it = R->evt.find(p); return it == R->evt.end() ? nullptr : it->second; }
static int evt_attach(pomp_evt *p, pomp_loop *r, pomp_evt_cb_t cb, void *ud) {
	XE *e = ex(p); XL *x = lx(r); if (!e || !x) return pomp_evt_attach_to_loop(p, r, cb, ud); e->cb = cb; e->ud = ud; pomp::Event::Handler *h = e; if (chance(5000)) h = new pomp::Event::HandlerFunc([e]() { e->cb(e->raw, e->ud); }); return e->e->attachToLoop(x->l, h); }
static int evt_detach(pomp_evt *p, pomp_loop *r) { XE *e = ex(p); XL *x = lx(r); return e && x ? e->e->detachFromLoop(x->l) : pomp_evt_detach_from_loop(p, r); }
static int evt_signal(pomp_evt *p) { XE *e = ex(p); return e ? e->e->signal() : pomp_evt_signal(p); }
static int evt_clear(pomp_evt *p) { XE *e = ex(p); return e ? e->e->clear() : pomp_evt_clear(p); }
static int evt_is_attached(pomp_evt *p, pomp_loop *r) { XE *e = ex(p); if (!e || (r && !lx(r))) return pomp_evt_is_attached(p, r); return e->e->isAttached(r ? lx(r)->l : nullptr); }
static int evt_destroy(pomp_evt *p) { XE *e = ex(p); if (!e) return pomp_evt_destroy(p); if (e->e->isAttached(nullptr)) return pomp_evt_destroy(p); R->evt.erase(p); delete e->e; e->e = nullptr; return 0; }
// ---------------------------------------------------------------- contexts
static pomp_ctx *mk(pomp_event_cb_t cb, void *ud, pomp_loop *l) {
	XH *h = new XH; h->cb = cb; h->ud = ud; h->lp = l; h->x = l ? new pomp::Context(h, lx(l)->l) : chance(5000) ? new pomp::Context(h) : new pomp::Context(h, nullptr); h->raw = h->x->mCtx; if (!h->raw) { delete h->x; delete h; return nullptr; } R->ctx[h->raw] = h; return h->raw; }
static pomp_ctx *ctx_new(pomp_event_cb_t cb, void *ud) { return mk(cb, ud, nullptr); }
static pomp_ctx *ctx_new_with_loop(pomp_event_cb_t cb, void *ud, pomp_loop *l) { return mk(cb, ud, l); }
static int ctx_destroy(pomp_ctx *c, bool idle) { XH *h = hx(c); if (!idle) { int r = pomp_ctx_destroy(c); if (r < 0) return r; h->x->mCtx = nullptr; } else { h->same("destroy"); if (!h->live.empty()) violate("C23", "a context is destroyed while connections are announced"); } R->ctx.erase(c); delete h->x; return 0; }
static pomp_loop *ctx_get_loop(pomp_ctx *c) { XH *h = hx(c); pomp::Loop *l = h->x->getLoop(); if (!l || !l->get()) violate("C23", "a context has no loop"); if (h->lp && l->get() != h->lp) violate("C23", "a context has another loop than the one it was made for"); if (h->x->getLoop() != l) violate("C23", "a context returns a new loop object each time"); return l->get(); }
static int ctx_set_raw(pomp_ctx *c, pomp_ctx_raw_cb_t cb) { XH *h = hx(c); h->rcb = cb; return h->x->setRaw(); }
static int ctx_set_send_cb(pomp_ctx *c, pomp_send_cb_t cb);
static int ctx_listen(pomp_ctx *c, const sockaddr *a, uint32_t n) { return hx(c)->x->listen(a, n); }
static int ctx_listen_mode(pomp_ctx *c, const sockaddr *a, uint32_t n, uint32_t m) { return hx(c)->x->listen(a, n, m); }
static int ctx_connect(pomp_ctx *c, const sockaddr *a, uint32_t n) { return hx(c)->x->connect(a, n); }
static int ctx_stop(pomp_ctx *c) { XH *h = hx(c); if (chance(500)) typed(); return h->x->stop(); }
static intptr_t ctx_get_fd(pomp_ctx *c) { return hx(c)->x->getFd(); }
static int ctx_process_fd(pomp_ctx *c) { return hx(c)->x->processFd(); }
static int ctx_wait(pomp_ctx *c, int to) { return hx(c)->x->waitAndProcess(to); }
static int ctx_wakeup(pomp_ctx *c) { return hx(c)->x->wakeup(); }
static const sockaddr *ctx_local(pomp_ctx *c, uint32_t *n) { return hx(c)->x->getLocalAddr(n); }
static pomp_conn *ctx_get_conn(const pomp_ctx *c) { hx(c)->same("query"); return pomp_ctx_get_conn(c); }
static pomp_conn *ctx_next_conn(const pomp_ctx *c, const pomp_conn *p) { if (!p) hx(c)->same("query"); return pomp_ctx_get_next_conn(c, p); }
static bool cansend(pomp_buffer *b, std::vector<uint8_t> *v) { const void *d; size_t n; pomp_buffer_get_cdata(b, &d, &n, nullptr); if (!n) return false; v->assign((const uint8_t *)d, (const uint8_t *)d + n); return true; }
static const pomp::Message *msg_of(const pomp_msg *m, std::unique_ptr<pomp::Message> *t) { if (is_xm(m)) return &mx(m)->get(); if (R->cur && R->cur->getMsg() == m) return R->cur; t->reset(new pomp::Message(m)); return t->get(); }
static int ctx_send_msg(pomp_ctx *c, const pomp_msg *m) { std::unique_ptr<pomp::Message> t; return hx(c)->x->sendMsg(*msg_of(m, &t)); }
static int ctx_send_raw(pomp_ctx *c, pomp_buffer *b) { std::vector<uint8_t> v; return !hx(c)->sendcb && cansend(b, &v) ? hx(c)->x->send(v) : pomp_ctx_send_raw_buf(c, b); }
static int ctx_sendv(pomp_ctx *c, uint32_t id, const char *fmt, va_list ap) { return hx(c)->x->sendv(id, fmt, ap); }
static int ctx_send(pomp_ctx *c, uint32_t id, const char *fmt, unsigned long long n, const char *s) { return id == UINT32_MAX ? hx(c)->x->send<F3>((uint64_t)n, std::string(s)) : hx(c)->x->send(id, "%llu%s", n, s); }
// ---------------------------------------------------------------- connections
static int conn_disconnect(pomp_conn *c) { return kx(c)->disconnect(); }
static const sockaddr *conn_local(pomp_conn *c, uint32_t *n) { return kx(c)->getLocalAddr(n); }
static const sockaddr *conn_peer(pomp_conn *c, uint32_t *n) { return kx(c)->getPeerAddr(n); }
static const pomp_cred *conn_cred(pomp_conn *c) { return kx(c)->getPeerCred(); }
static int conn_get_fd(pomp_conn *c) { return kx(c)->getFd(); }
static int conn_send_msg(pomp_conn *c, const pomp_msg *m) { std::unique_ptr<pomp::Message> t; return kx(c)->sendMsg(*msg_of(m, &t)); }
static int conn_send_raw(pomp_conn *c, pomp_buffer *b) { std::vector<uint8_t> v; return cansend(b, &v) ? kx(c)->send(v) : pomp_conn_send_raw_buf(c, b); }
static int conn_sendv(pomp_conn *c, uint32_t id, const char *fmt, va_list ap) { return kx(c)->sendv(id, fmt, ap); }
static int conn_send(pomp_conn *c, uint32_t id, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r;
	if (!strcmp(fmt, "%llu%s")) { unsigned long long a = va_arg(ap, unsigned long long); const char *s = va_arg(ap, const char *); r = id == UINT32_MAX ? kx(c)->send<F3>((uint64_t)a, std::string(s)) : kx(c)->send(id, "%llu%s", a, s); } else r = kx(c)->sendv(id, fmt, ap); va_end(ap); return r; }
// ---------------------------------------------------------------- messages
static pomp_msg *msg_new() { XM *m = new XM; m->m = new pomp::Message(); if (!m->m->mMsg) { delete m->m; delete m; return nullptr; } R->msg.insert(m); return (pomp_msg *)m; }
static int msg_init(pomp_msg *m, uint32_t id) { mx(m)->e = new pomp::Encoder(id); return 0; }
static int msg_finish(pomp_msg *m) { mx(m)->e->getMessage(); return 0; }
static int msg_destroy(pomp_msg *m) { XM *x = mx(m); R->msg.erase(m); delete x->e; delete x->m; delete x; return 0; }
static pomp_buffer *msg_buffer(const pomp_msg *m) { return pomp_msg_get_buffer(is_xm(m) ? mx(m)->get().getMsg() : m); }
static uint32_t msg_id(const pomp_msg *m) { return is_xm(m) ? mx(m)->get().getId() : pomp_msg_get_id(m); }
static int msg_write(pomp_msg *m, uint32_t id, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r;
	if (!strcmp(fmt, "%llu%s")) { unsigned long long a = va_arg(ap, unsigned long long); const char *s = va_arg(ap, const char *); r = mx(m)->m->write(id, "%llu%s", a, s); } else r = mx(m)->m->writev(id, fmt, ap); va_end(ap); return r; }
static XEnc *encoder_new() { return new XEnc; }
static int encoder_init(XEnc *e, pomp_msg *m) { e->e = mx(m)->e; return 0; }
static int encoder_destroy(XEnc *e) { delete e; return 0; }
static int w_i8(XEnc *e, int8_t v) { return e->e->writeI8(v); } static int w_u8(XEnc *e, uint8_t v) { return e->e->writeU8(v); } static int w_i16(XEnc *e, int16_t v) { return e->e->writeI16(v); } static int w_u16(XEnc *e, uint16_t v) { return e->e->writeU16(v); }
static int w_i32(XEnc *e, int32_t v) { return e->e->writeI32(v); } static int w_u32(XEnc *e, uint32_t v) { return e->e->writeU32(v); } static int w_i64(XEnc *e, int64_t v) { return e->e->writeI64(v); } static int w_u64(XEnc *e, uint64_t v) { return e->e->writeU64(v); }
static int w_f32(XEnc *e, float v) { return e->e->writeF32(v); } static int w_f64(XEnc *e, double v) { return e->e->writeF64(v); } static int w_str(XEnc *e, const char *s) { return e->e->write(s); } static int w_fd(XEnc *e, int fd) { return e->e->writeFd(fd); }
static int w_buf(XEnc *e, const void *p, uint32_t n) { return e->e->write(std::vector<uint8_t>((const uint8_t *)p, (const uint8_t *)p + n)); }
static XD *decoder_new() { return new XD; }
static int decoder_init(XD *d, const pomp_msg *m) { if (R->cur && R->cur->getMsg() == m) d->d = new pomp::Decoder(*R->cur); else { d->tmp = new pomp::Message(m); d->d = new pomp::Decoder(*d->tmp); } return 0; }
static int decoder_destroy(XD *d) { delete d->d; delete d->tmp; delete d; return 0; }
template<class T> static int rd(XD *d, T *v) { return d->d->read(*v); }
static int r_cstr(XD *d, const char **s) { int r = d->d->read(d->s); *s = d->s.c_str(); return r; }
static int r_cbuf(XD *d, const void **p, uint32_t *n) { int r = d->d->read(d->v); *p = d->v.data(); *n = (uint32_t)d->v.size(); return r; }
static int r_fd(XD *d, int *fd) { return d->d->readFd(*fd); }
// no such calls in the C++ interface: the user data of their callbacks is the C++ context
static void send_tr(pomp_ctx *c, pomp_conn *k, pomp_buffer *b, uint32_t st, void *cookie, void *ud) { XH *h = hx(c); if (ud != h->x) violate("C23", "the user data of a context is not its object"); h->scb(c, k, b, st, cookie, h->ud); }
static void sock_tr(pomp_ctx *c, int fd, pomp_socket_kind kind, void *ud) { XH *h = hx(c); if (ud != h->x) violate("C23", "the user data of a context is not its object"); h->kcb(c, fd, kind, h->ud); }
static int ctx_set_send_cb(pomp_ctx *c, pomp_send_cb_t cb) { XH *h = hx(c); h->sendcb = cb != nullptr; h->scb = cb; return pomp_ctx_set_send_cb(c, cb ? send_tr : nullptr); }
static int ctx_set_socket_cb(pomp_ctx *c, pomp_socket_cb_t cb) { hx(c)->kcb = cb; return pomp_ctx_set_socket_cb(c, cb ? sock_tr : nullptr); }
}
#define CXX_COPY 1
#define CTX_IDLE (c->st == IDLE)
#define pomp_loop_new cx::loop_new
#define pomp_loop_destroy cx::loop_destroy
#define pomp_loop_add cx::loop_add
#define pomp_loop_update cx::loop_update
#define pomp_loop_remove cx::loop_remove
#define pomp_loop_has_fd cx::loop_has_fd
#define pomp_loop_get_fd cx::loop_get_fd
#define pomp_loop_process_fd cx::loop_process_fd
#define pomp_loop_wait_and_process cx::loop_wait
#define pomp_loop_wakeup cx::loop_wakeup
#define pomp_timer_new cx::timer_new
#define pomp_timer_set cx::timer_set
#define pomp_timer_set_periodic cx::timer_set_periodic
#define pomp_timer_clear cx::timer_clear
#define pomp_timer_destroy cx::timer_destroy
#define pomp_evt_new cx::evt_new
#define pomp_evt_attach_to_loop cx::evt_attach
#define pomp_evt_detach_from_loop cx::evt_detach
#define pomp_evt_signal cx::evt_signal
#define pomp_evt_clear cx::evt_clear
#define pomp_evt_is_attached cx::evt_is_attached
#define pomp_evt_destroy cx::evt_destroy
#define pomp_ctx_new cx::ctx_new
#define pomp_ctx_new_with_loop cx::ctx_new_with_loop
#define pomp_ctx_destroy(c) cx::ctx_destroy(c, CTX_IDLE)
#define pomp_ctx_get_loop cx::ctx_get_loop
#define pomp_ctx_set_raw cx::ctx_set_raw
#define pomp_ctx_set_send_cb cx::ctx_set_send_cb
#define pomp_ctx_set_socket_cb cx::ctx_set_socket_cb
#define pomp_ctx_listen cx::ctx_listen
#define pomp_ctx_listen_with_access_mode cx::ctx_listen_mode
#define pomp_ctx_connect cx::ctx_connect
#define pomp_ctx_stop cx::ctx_stop
#define pomp_ctx_get_fd cx::ctx_get_fd
#define pomp_ctx_process_fd cx::ctx_process_fd
#define pomp_ctx_wait_and_process cx::ctx_wait
#define pomp_ctx_wakeup cx::ctx_wakeup
#define pomp_ctx_get_local_addr cx::ctx_local
#define pomp_ctx_get_conn cx::ctx_get_conn
#define pomp_ctx_get_next_conn cx::ctx_next_conn
#define pomp_ctx_send_msg cx::ctx_send_msg
#define pomp_ctx_send_raw_buf cx::ctx_send_raw
#define pomp_ctx_sendv cx::ctx_sendv
#define pomp_ctx_send cx::ctx_send
#define pomp_conn_disconnect cx::conn_disconnect
#define pomp_conn_get_local_addr cx::conn_local
#define pomp_conn_get_peer_addr cx::conn_peer
#define pomp_conn_get_peer_cred cx::conn_cred
#define pomp_conn_get_fd cx::conn_get_fd
#define pomp_conn_send_msg cx::conn_send_msg
#define pomp_conn_send_raw_buf cx::conn_send_raw
#define pomp_conn_sendv cx::conn_sendv
#define pomp_conn_send cx::conn_send
#define pomp_msg_new cx::msg_new
#define pomp_msg_init cx::msg_init
#define pomp_msg_finish cx::msg_finish
#define pomp_msg_destroy cx::msg_destroy
#define pomp_msg_get_buffer cx::msg_buffer
#define pomp_msg_get_id cx::msg_id
#define pomp_msg_write cx::msg_write
#define pomp_encoder cx_encoder
#define pomp_decoder cx_decoder
typedef cx::XEnc cx_encoder; typedef cx::XD cx_decoder;
#define pomp_encoder_new cx::encoder_new
#define pomp_encoder_init cx::encoder_init
#define pomp_encoder_destroy cx::encoder_destroy
#define pomp_encoder_write_i8 cx::w_i8
#define pomp_encoder_write_u8 cx::w_u8
#define pomp_encoder_write_i16 cx::w_i16
#define pomp_encoder_write_u16 cx::w_u16
#define pomp_encoder_write_i32 cx::w_i32
#define pomp_encoder_write_u32 cx::w_u32
#define pomp_encoder_write_i64 cx::w_i64
#define pomp_encoder_write_u64 cx::w_u64
#define pomp_encoder_write_f32 cx::w_f32
#define pomp_encoder_write_f64 cx::w_f64
#define pomp_encoder_write_str cx::w_str
#define pomp_encoder_write_buf cx::w_buf
#define pomp_encoder_write_fd cx::w_fd
#define pomp_decoder_new cx::decoder_new
#define pomp_decoder_init cx::decoder_init
#define pomp_decoder_destroy cx::decoder_destroy
#define pomp_decoder_read_i8 cx::rd
#define pomp_decoder_read_u8 cx::rd
#define pomp_decoder_read_i16 cx::rd
#define pomp_decoder_read_u16 cx::rd
#define pomp_decoder_read_i32 cx::rd
#define pomp_decoder_read_u32 cx::rd
#define pomp_decoder_read_i64 cx::rd
#define pomp_decoder_read_u64 cx::rd
#define pomp_decoder_read_f32 cx::rd
#define pomp_decoder_read_f64 cx::rd
#define pomp_decoder_read_cstr cx::r_cstr
#define pomp_decoder_read_cbuf cx::r_cbuf
#define pomp_decoder_read_fd cx::r_fd
#define net cxnet
#define tmr cxtmr
#define lp cxlp
#define th cxth
#define scen_net scen_net_cxx_
#define scen_timer scen_timer_cxx_
#define scen_loop scen_loop_cxx_
#define scen_threads scen_threads_cxx_
#include "net.cpp"
#include "timer.cpp"
#include "loop.cpp"
#include "threads.cpp"
void scen_net_cxx(const char *p) { cx::reset(); scen_net_cxx_(p); }
void scen_timer_cxx(const char *p) { cx::reset(); scen_timer_cxx_(p); }
void scen_loop_cxx(const char *p) { cx::reset(); scen_loop_cxx_(p); }
void scen_threads_cxx(const char *p) { cx::reset(); scen_threads_cxx_(p); }
