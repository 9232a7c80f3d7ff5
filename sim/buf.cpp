// Scenario: buffers shared by several threads (C16). Each reference is a token owned by one thread; the model knows for
// each buffer how many references surely and possibly exist while a call runs, its contents and its descriptors.
#include "app.h"
namespace bf {
struct Fd { int fd; File *f; size_t off; uint64_t seq; };
struct B { int id; pomp_buffer *b = nullptr; std::string data; std::vector<Fd> fds; bool msg = false, released = false; int sure = 1, poss = 1; uint32_t mid = 0; std::string str; int minsure = 99, maxposs = 0; int watch = 0; };
struct Tok { B *b; pomp_msg *m = nullptr; };
struct Th { int id; Fiber *f = nullptr; std::vector<Tok> t; std::deque<Tok> in; };
static std::deque<B> *bs; static std::deque<Th> *ths; static Proc *proc; static uint32_t budget; static int live;
struct OpScope { B *b; int s0; OpScope(B *x) : b(x) { if (!b->watch++) { b->minsure = b->sure; b->maxposs = b->poss; } else { b->minsure = std::min(b->minsure, b->sure); b->maxposs = std::max(b->maxposs, b->poss); } } ~OpScope() { b->watch--; } };
static void upd(B *b) { b->minsure = std::min(b->minsure, b->sure); b->maxposs = std::max(b->maxposs, b->poss); }
static std::string rnd(size_t n) { std::string s(n, 0); uint32_t x = choose(1 << 30); for (auto &c : s) { x = x * 1664525 + 1013904223; c = (char)(x >> 24); } return s; }
static void fresh(std::string &s) { race_forget(&s[0], s.size() + 1); } // memory of the harness is reused without the detector's knowledge
static size_t rlen() { return pick<size_t>({0, 1, 7, 40, 300, 2000}) + choose(8); }
static bool fdopen_(Fd &f) { return f.fd >= 0 && (size_t)f.fd < proc->fds.size() && proc->fds[f.fd].f == f.f && proc->fds[f.fd].seq == f.seq; }
static void check(Tok &t, const char *when) {
	const void *d = nullptr; size_t l = 0, c = 0; B *b = t.b; pomp_buffer *x = t.m ? pomp_msg_get_buffer(t.m) : b->b;
	if (x != b->b) violate("C16", "a message no longer holds the buffer it was made with");
	if (pomp_buffer_get_cdata(x, &d, &l, &c) < 0) violate("C16", "a held buffer cannot be read"); race_range(d, l, false);
	if (l != b->data.size() || c < l || (l && memcmp(d, b->data.data(), l))) violate("C16", "buffer %d held by thread %s has changed %s: %zu bytes %s, expected %zu bytes %s", b->id, cur->name, when, l, hex(d, l).c_str(), b->data.size(), hex(b->data.data(), b->data.size()).c_str());
	for (Fd &f : b->fds) if (!fdopen_(f)) violate("C16", "descriptor %d of buffer %d, which is still held, was closed %s", f.fd, b->id, when);
	if (!l || chance(5000)) return;
	size_t pos = choose((uint32_t)l), n = 1 + choose((uint32_t)(l - pos)), p0 = pos; std::string r(n, 0); fresh(r); const void *q = r.data(); int res = chance(5000) ? pomp_buffer_read(x, &pos, &r[0], n) : pomp_buffer_cread(x, &pos, &q, n);
	if (res < 0 || pos != p0 + n) violate("C16", "reading %zu bytes at %zu of buffer %d fails (%d)", n, p0, b->id, res);
	if (memcmp(q, b->data.data() + p0, n)) violate("C16", "reading %zu bytes at %zu of buffer %d gives other bytes", n, p0, b->id);
}
static Th &me() { for (Th &t : *ths) if (t.f == cur) return t; abort(); }
static B *adopt(pomp_buffer *b) { bs->emplace_back(); B *x = &bs->back(); x->id = (int)bs->size() - 1; x->b = b; return x; }
static void snap(B *b) { const void *d = nullptr; size_t l = 0; pomp_buffer_get_cdata(b->b, &d, &l, nullptr); b->data.assign((const char *)d, l); }
static bool alive(File *f) { for (auto &e : proc->fds) if (e.f == f) return true; return false; }
static void create(Th &t) {
	if (chance(5000)) { std::string s = rnd(rlen()); fresh(s); pomp_buffer *b = chance(5000) ? pomp_buffer_new_with_data(s.data(), s.size()) : nullptr; if (!b) { void *d = nullptr; size_t cap = s.size() + 1 + choose(60); b = pomp_buffer_new_get_data(cap, &d); if (!b) return; memcpy(d, s.data(), s.size()); if (pomp_buffer_set_len(b, s.size()) < 0) violate("C16", "the length of a new buffer cannot be set"); } B *x = adopt(b); x->data = s; TR("new buffer %d of %zu", x->id, s.size()); t.t.push_back({x}); return; }
	pomp_msg *m = pomp_msg_new(); if (!m) return; uint32_t id = choose(1000); std::string s(choose(40), 'a' + (char)choose(26)); fresh(s); int nf = (int)choosew({3, 2, 2, 1}); std::vector<File *> fl; int fd[3] = {-1, -1, -1};
	{ NoFault nf_; for (int i = 0; i < nf; i++) fl.push_back(appfile(proc, &fd[i])); }
	int r = nf == 0 ? pomp_msg_write(m, id, "%s", s.c_str()) : nf == 1 ? pomp_msg_write(m, id, "%s%x", s.c_str(), fd[0]) : nf == 2 ? pomp_msg_write(m, id, "%s%x%x", s.c_str(), fd[0], fd[1]) : pomp_msg_write(m, id, "%s%x%x%x", s.c_str(), fd[0], fd[1], fd[2]);
	{ NoFault nf_; for (int i = 0; i < nf; i++) k_close(proc, fd[i]); }
	if (r < 0) { if (!W->nfired) violate("C16", "a message cannot be written (%d)", r); pomp_msg_destroy(m); for (File *f : fl) if (alive(f)) violate("C16", "a descriptor of a message that could not be written is left"); return; }
	B *x = adopt(pomp_msg_get_buffer(m)); x->msg = true; x->mid = id; x->str = s; snap(x); size_t off = 12 + 1; while ((uint8_t)x->data[off] & 0x80) off++; off += 1 + s.size() + 1;
	for (File *f : fl) { off++; int32_t v; memcpy(&v, x->data.data() + off, 4); x->fds.push_back({v, f, off, v >= 0 && (size_t)v < proc->fds.size() ? proc->fds[v].seq : 0}); off += 4; } TR("new message buffer %d", x->id); Tok k{x, m}; check(k, "while it was made"); t.t.push_back(k);
}
static void drop(Th &t, size_t i) {
	Tok k = t.t[i]; B *b = k.b; t.t.erase(t.t.begin() + i); b->sure--; bool last = b->sure == 0; upd(b); std::vector<Fd> fds = b->fds; TR("thread %d drops a reference of buffer %d", t.id, b->id); race_release(b);
	if (k.m) { if (chance(2000)) pomp_msg_clear(k.m); pomp_msg_destroy(k.m); } else pomp_buffer_unref(b->b);
	b->poss--; upd(b); race_release(b); if (last && b->poss == 0) { b->released = true; for (Fd &f : fds) if (fdopen_(f)) violate("C16", "descriptor %d of buffer %d is still open after its last reference went", f.fd, b->id); }
}
static void modify(Th &t, Tok &k) {
	B *b = k.b; pomp_buffer *x = b->b; race_acquire(b); OpScope sc(b); std::string nd = b->data; int r; const char *what; uint32_t op = choosew({3, b->fds.empty() && !b->msg ? 3u : 0u, 3, 3, 3, 3, 2, k.m ? 2u : 0u}); std::string s = rnd(1 + choose(60)); fresh(s); bool content = true; pomp_buffer *src = nullptr; void *d = nullptr; size_t l = 0;
	switch (op) {
	case 0: what = "set_capacity"; content = false; r = pomp_buffer_set_capacity(x, std::max<size_t>(nd.size(), 1) + choose(100)); break;
	case 1: what = "set_len"; l = choose((uint32_t)nd.size() + 1); nd.resize(l); r = pomp_buffer_set_len(x, l); break;
	case 2: what = "append_data"; nd += s; r = pomp_buffer_append_data(x, s.data(), s.size()); break;
	case 3: { what = "append_buffer"; { NoFault nf; src = pomp_buffer_new_with_data(s.data(), s.size()); } nd += s; r = pomp_buffer_append_buffer(x, src); pomp_buffer_unref(src); break; }
	case 4: { what = "write"; size_t pos = b->fds.empty() && !b->msg ? choose((uint32_t)nd.size() + 1) : nd.size(), p0 = pos; if (nd.size() < pos + s.size()) nd.resize(pos + s.size()); memcpy(&nd[pos], s.data(), s.size()); r = pomp_buffer_write(x, &pos, s.data(), s.size()); if (r < 0 ? pos != p0 : pos != p0 + s.size()) violate("C16", "writing leaves the position at %zu", pos); break; }
	case 5: { what = "get_data"; r = pomp_buffer_get_data(x, &d, &l, nullptr); if (r >= 0 && !nd.empty() && b->fds.empty() && !b->msg && l == nd.size()) { size_t i = choose((uint32_t)nd.size()); nd[i] = (char)choose(256); race_range((char *)d + i, 1, true); ((char *)d)[i] = nd[i]; } break; }
	case 6: what = "ensure_capacity"; content = false; r = pomp_buffer_ensure_capacity(x, nd.size() + 1 + choose(2000)); break;
	default: what = "msg_write"; r = pomp_msg_write(k.m, 5, "%u", 7u); if (r >= 0) violate("C16", "a message can be written a second time"); r = -EPERM; content = false; break;
	}
	int sh = pomp_buffer_is_shared(x); W->ops++; upd(b); TR("thread %d: %s on buffer %d = %d", t.id, what, b->id, r); hashmix(op * 16 + (r < 0));
	if (op == 7) { check(k, "by writing its message again"); return; }
	if (b->minsure >= 2) { if (r >= 0) violate("C16", "%s is accepted on buffer %d, which has %d references", what, b->id, b->minsure); if (!sh) violate("C16", "buffer %d with %d references is not shared", b->id, b->minsure); if (r != -EPERM) violate("C16", "%s on a shared buffer fails with %d", what, r); probe("shared_refused"); }
	if (b->maxposs == 1) { if (sh) violate("C16", "buffer %d with one reference is shared", b->id); if (r < 0 && !(r == -ENOMEM && W->fired[F_ALLOC])) violate("C16", "%s is refused (%d) on buffer %d, which has one reference", what, r, b->id); probe("sole_modified"); }
	if (r >= 0 && content) b->data = nd; (void)content;
	check(k, r < 0 ? "by a refused modification" : "wrongly by a modification"); race_release(b);
}
static void op(Th &t) {
	W->ops++; while (!t.in.empty()) { Tok k = t.in.front(); t.in.pop_front(); race_acquire(k.b); check(k, "while it was handed over"); t.t.push_back(k); }
	if (t.t.empty() || (t.t.size() < 3 && chance(1500))) { create(t); return; }
	size_t i = choose((uint32_t)t.t.size()); Tok k = t.t[i]; B *b = k.b;
	switch (choosew({6, 6, 3, 5, 2, 2, 4, 1})) {
	case 0: if (t.t.size() < 12) { b->poss++; upd(b); TR("thread %d takes a reference of buffer %d", t.id, b->id); pomp_buffer_ref(b->b); b->sure++; upd(b); Tok n{b}; race_release(b); if (ths->size() > 1 && chance(7000)) { Th &o = (*ths)[choose((uint32_t)ths->size())]; o.in.push_back(n); } else t.t.push_back(n); } break;
	case 1: drop(t, i); break;
	case 2: check(k, "spontaneously"); if (b->msg && chance(5000)) { OpScope sc(b); int s = pomp_buffer_is_shared(b->b); if (s && b->maxposs == 1) violate("C16", "buffer %d with one reference is shared", b->id); } break;
	case 3: modify(t, k); break;
	case 4: { // another holder through a message made of the buffer
		bool ok = b->msg && b->data.size() >= 12; uint32_t sz = 0; if (ok) memcpy(&sz, b->data.data() + 8, 4); b->poss++; upd(b); uint32_t f0 = W->fired[F_ALLOC]; pomp_msg *m = pomp_msg_new_with_buffer(b->b); if (!m) { b->poss--; upd(b); if (ok && sz == b->data.size() && W->fired[F_ALLOC] == f0) violate("C16", "a message cannot be made of a valid buffer"); break; }
		b->sure++; upd(b); if (!ok || sz != b->data.size()) violate("C16", "a message is made of a buffer that is not one"); if (pomp_msg_get_id(m) != b->mid) violate("C16", "a message made of a buffer has the wrong identifier"); Tok n{b, m}; check(n, "by making a message of it"); t.t.push_back(n); race_release(b); break; }
	case 5: { // independent copy
		uint64_t f0 = W->nfired; pomp_buffer *c; pomp_msg *cm = nullptr; if (k.m && b->msg) { cm = pomp_msg_new_copy(k.m); c = cm ? pomp_msg_get_buffer(cm) : nullptr; } else c = pomp_buffer_new_copy(b->b); if (!c) { if (cm) violate("C16", "copied message without buffer"); if (W->nfired == f0) violate("C16", "a buffer cannot be copied"); check(k, "by a failed copy"); break; }
		if (c == b->b) violate("C16", "a copy is the buffer itself"); B *x = adopt(c); x->msg = b->msg; x->mid = b->mid; x->str = b->str; x->data = b->data; const void *d; size_t l; pomp_buffer_get_cdata(c, &d, &l, nullptr); if (l != x->data.size()) violate("C16", "a copy has another length"); for (Fd &f : b->fds) { int32_t v; memcpy(&v, (const char *)d + f.off, 4); memcpy(&x->data[f.off], &v, 4); if (v == f.fd) violate("C16", "a copy shares descriptor %d with the original", v); x->fds.push_back({v, f.f, f.off, v >= 0 && (size_t)v < proc->fds.size() ? proc->fds[v].seq : 0}); }
		Tok n{x, cm}; check(n, "as a copy"); check(k, "by being copied"); t.t.push_back(n); break; }
	case 6: if (ths->size() > 1) { Th &o = (*ths)[choose((uint32_t)ths->size())]; if (&o != &t) { race_release(b); o.in.push_back(k); t.t.erase(t.t.begin() + i); } } break;
	default: if (k.m && b->msg) { uint32_t sz; memcpy(&sz, b->data.data() + 8, 4); if (sz == b->data.size()) { char *dump = nullptr; int r = chance(5000) ? pomp_msg_adump(k.m, &dump) : -1; if (r >= 0) mem_free(dump); check(k, "by dumping it"); } } break;
	}
}
static void thread_main(Th &t) {
	while (budget) { budget--; op(t); if (chance(1000)) sleep_ns(range(1, 20) * US); if (chance(100)) break; }
	if (--live) return;
	// the last thread takes over what is left
	for (Th &o : *ths) if (&o != &t) { if (!o.f->finished) block_until([&o]() { return o.f->finished; }); race_join(o.f); }
	for (Th &o : *ths) { for (Tok &k : o.in) { race_acquire(k.b); check(k, "in the end"); if (&o != &t) t.t.push_back(k); } if (&o == &t) t.t.insert(t.t.end(), o.in.begin(), o.in.end()); o.in.clear(); if (&o != &t) { for (Tok &k : o.t) { check(k, "in the end"); t.t.push_back(k); } o.t.clear(); } }
	W->faults_on = false; while (!t.t.empty()) { check(t.t.back(), "in the end"); drop(t, choose((uint32_t)t.t.size())); }
	check_clean(proc, "C16"); end_run();
}
}
void scen_buf(const char *) {
	using namespace bf; static std::deque<B> sb; static std::deque<Th> st; sb.clear(); st.clear(); bs = &sb; ths = &st; proc = mkproc("app", ipa(1)); W->faults_on = true; W->must_finish = true; W->preempt_mode = choosew({1, 3, 4});
	budget = range(5, 120); if (chance(2500)) { W->rate[F_ALLOC] = 400; W->rate[F_DUP] = 400; W->rate[F_EMFILE] = 200; }
	int n = (int)range(1, 4); live = n; static const char *nm[] = {"t0", "t1", "t2", "t3"};
	for (int i = 0; i < n; i++) { st.emplace_back(); st.back().id = i; }
	for (int i = 0; i < n; i++) { Th &t = st[i]; t.f = spawn(proc, nm[i], [&t]() { thread_main(t); }); }
}
