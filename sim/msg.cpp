// Scenario: messages (C30, C32, malformed payloads of C08): written in every way the interface offers, read, copied,
// decoded from pieces of a stream and dumped, while allocations and descriptor duplications fail.
#include "app.h"
#include <cmath>
namespace mg {
enum T { I8 = 1, U8, I16, U16, I32, U32, I64, U64, STR, BUF, F32, F64, FD };
struct Arg { int t; uint64_t v = 0; std::string s; float f = 0; double d = 0; File *file = nullptr; int fd = -1; bool ok = true; };
struct M { pomp_msg *m; uint32_t id; std::vector<Arg> a; };
static Proc *proc; static std::list<M> *live;

// -------- values
static uint64_t rbits(int bits) { uint64_t x = ((uint64_t)choose(1u << 31) << 33) ^ ((uint64_t)choose(1u << 31) << 11) ^ choose(1u << 31); return bits == 64 ? x : x & ((1ull << bits) - 1); }
static uint64_t rint_(int bits) { uint64_t top = bits == 64 ? ~0ull : (1ull << bits) - 1; switch (choosew({4, 1, 1, 1, 1, 4, 2})) { case 0: return rbits(bits); case 1: return 0; case 2: return top; case 3: return (top >> 1) + 1; case 4: return top >> 1; case 5: return rbits(bits) >> choose((uint32_t)bits); default: { uint64_t k = 1ull << (7 * (1 + choose((uint32_t)(bits - 1) / 7 + (bits > 8 ? 0 : 1)))); return (k - choose(2)) & top; } } }
static int bitsof(int t) { return t <= U8 ? 8 : t <= U16 ? 16 : t <= U32 ? 32 : 64; }
static bool sgn(int t) { return t <= U64 && (t & 1); }
static int64_t sval(const Arg &a) { int b = bitsof(a.t); return b == 64 ? (int64_t)a.v : (int64_t)(a.v << (64 - b)) >> (64 - b); }
static std::string rstr(size_t n, bool nz) { std::string s(n, 0); uint32_t x = choose(1u << 30); bool txt = chance(7000); for (auto &c : s) { x = x * 1664525 + 1013904223; c = (char)(x >> 24); if (nz && txt) c = (char)('a' + (uint8_t)c % 26); if (nz && !c) c = 1; } return s; }
static int arity() { return chance(300) ? (int)range(12, 24) : (int)choose(8); }
static size_t slen() { switch (choosew({6, 2, 2, 2, 1})) { case 0: return choose(20); case 1: return 120 + choose(16); case 2: return 200 + choose(70); case 3: return choose(3000); default: return chance(5000) ? 0xfffe : 0xfff0 + choose(0x20); } }
static Arg rarg(int t, bool bad) {
	Arg a; a.t = t;
	if (t <= U64) a.v = rint_(bitsof(t));
	else if (t == STR) { a.s = rstr(slen(), true); a.ok = a.s.size() < 0xffff; }
	else if (t == BUF) { a.s = rstr(chance(300) ? 20000 : choose(300), false); if (chance(1000)) a.s.clear(); if (!a.s.empty() && chance(2000)) a.s[0] &= 15; }
	else if (t == F32) { uint32_t x = chance(5000) ? (uint32_t)rbits(32) : 0; memcpy(&a.f, &x, 4); if (!x) a.f = pick<float>({0.f, -0.f, 1.5f, -3.25e10f, 1e-40f, INFINITY, -INFINITY, NAN}); }
	else if (t == F64) { uint64_t x = chance(5000) ? rbits(64) : 0; memcpy(&a.d, &x, 8); if (!x) a.d = pick<double>({0., -0., 1.5, -3.25e200, 1e-310, INFINITY, -INFINITY, NAN}); }
	else { NoFault nf; if (bad && chance(3000)) { a.ok = false; a.fd = pick<int>({-1, -2, 900}); } else a.file = appfile(proc, &a.fd); }
	return a;
}
static std::vector<Arg> rargs(bool fds, bool bad) {
	std::vector<Arg> v; int n = arity(); bool strs = n > 10 && chance(5000);
	for (int i = 0; i < n; i++) v.push_back(rarg(strs ? (chance(9000) ? STR : U32) : fds && chance(2500) ? FD : 1 + (int)choose(12), bad));
	return v;
}
static void closeapp(std::vector<Arg> &v) { NoFault nf; for (Arg &a : v) if (a.t == FD && a.file) { k_close(proc, a.fd); a.fd = -1; } }
static bool writable(const std::vector<Arg> &v) { int f = 0; for (auto &a : v) { if (!a.ok) return false; f += a.t == FD; } return f <= 4; }

// -------- the reference encoding
static void var(std::string &o, uint64_t v) { while (v > 127) { o += (char)(v | 0x80); v >>= 7; } o += (char)v; }
static void enc1(std::string &o, const Arg &a) {
	o += (char)a.t; char b[8]; uint64_t z = (uint64_t)sval(a); z = (z << 1) ^ (uint64_t)((int64_t)z >> 63);
	switch (a.t) {
	case I8: case U8: o += (char)a.v; break;
	case I16: case U16: o.append((const char *)&a.v, 2); break;
	case I32: case I64: var(o, a.t == I32 ? (uint32_t)z : z); break;
	case U32: case U64: var(o, a.v); break;
	case STR: var(o, a.s.size() + 1); o.append(a.s.c_str(), a.s.size() + 1); break;
	case BUF: var(o, a.s.size()); o += a.s; break;
	case F32: memcpy(b, &a.f, 4); o.append(b, 4); break;
	case F64: memcpy(b, &a.d, 8); o.append(b, 8); break;
	case FD: o.append(4, 0); break;
	}
}
static std::string header(uint32_t id, const std::string &pl) { std::string h = "POMP"; uint32_t n = 12 + (uint32_t)pl.size(); h.append((const char *)&id, 4); h.append((const char *)&n, 4); return h + pl; }
static std::string encode(uint32_t id, const std::vector<Arg> &v, std::vector<size_t> *ends = nullptr) { std::string p; for (auto &a : v) { enc1(p, a); if (ends) ends->push_back(12 + p.size()); } return header(id, p); }
static std::string text(uint32_t id, const M *m, const std::vector<Arg> &v, const std::vector<int> &fds) {
	char b[64]; snprintf(b, sizeof b, "{ID:%u", id); std::string o = b; size_t k = 0; (void)m;
	static const char *nm[] = {"", "I8", "U8", "I16", "U16", "I32", "U32", "I64", "U64", "STR", "BUF", "F32", "F64", "FD"};
	for (auto &a : v) {
		o += ", "; o += nm[a.t]; o += ":";
		if (a.t <= U64) { if (sgn(a.t)) snprintf(b, sizeof b, "%lld", (long long)sval(a)); else snprintf(b, sizeof b, "%llu", (unsigned long long)a.v); o += b; }
		else if (a.t == STR) o += "'" + a.s + "'";
		else if (a.t == F32 || a.t == F64) { snprintf(b, sizeof b, "%.7g", a.t == F32 ? (double)a.f : a.d); o += b; }
		else if (a.t == FD) { snprintf(b, sizeof b, "%d", fds[k++]); o += b; }
	}
	return o + "}";
}
// Formats: several spellings of each type.
static std::string spec(int t, bool rd) {
	static const char *fl[] = {"f", "F", "e", "E", "g", "G"}; std::string c = sgn(t) ? (chance(5000) ? "d" : "i") : "u";
	switch (t) { case I8: case U8: return "%hh" + c; case I16: case U16: return "%h" + c; case I32: case U32: return "%" + c; case I64: case U64: return (chance(5000) ? "%ll" : "%l") + c; case STR: return rd ? "%ms" : "%s"; case BUF: return "%p%u"; case F32: return std::string("%") + fl[choose(6)]; case F64: return std::string("%l") + fl[choose(6)]; default: return "%x"; }
}
// A va_list with all its arguments in memory (x86-64 System V).
struct VaTag { unsigned gp, fp; void *ov, *rs; };
struct Va { va_list ap; Va(std::vector<uint64_t> &s) { s.push_back(0); VaTag t{48, 176, s.data(), nullptr}; static_assert(sizeof(t) == sizeof(va_list), "va_list"); memcpy((void *)ap, &t, sizeof t); } };
static void push(std::vector<uint64_t> &s, const Arg &a) {
	double d; uint64_t x;
	if (a.t <= U64) s.push_back(sgn(a.t) ? (uint64_t)sval(a) : a.v);
	else if (a.t == STR) s.push_back((uint64_t)a.s.c_str());
	else if (a.t == BUF) { s.push_back((uint64_t)a.s.data()); s.push_back(a.s.size()); }
	else if (a.t == FD) s.push_back((uint64_t)(int64_t)a.fd);
	else { d = a.t == F32 ? (double)a.f : a.d; memcpy(&x, &d, 8); s.push_back(x); }
}
static bool badhex;
static void pushstr(std::vector<std::string> &s, const Arg &a) {
	char b[64];
	if (a.t <= U64) { if (sgn(a.t)) snprintf(b, sizeof b, "%lld", (long long)sval(a)); else snprintf(b, sizeof b, chance(3000) ? "0x%llx" : "%llu", (unsigned long long)a.v); s.push_back(b); }
	else if (a.t == STR) s.push_back(a.s);
	else if (a.t == BUF) { std::string h; for (unsigned char c : a.s) { snprintf(b, sizeof b, "%02x", c); h += b; } if (!h.empty() && h[0] == '0' && chance(5000)) { h.erase(0, 1); probe("odd_digits"); } else if (badhex && !h.empty()) { badhex = false; if (chance(5000)) h.resize(h.size() - 2); else h[h.size() - 2] = pick<char>({'g', 'z', '!', '.'}); probe("bad_digits"); } s.push_back(h); snprintf(b, sizeof b, "%zu", a.s.size()); s.push_back(b); }
	else if (a.t == FD) { snprintf(b, sizeof b, "%d", a.fd); s.push_back(b); }
	else { snprintf(b, sizeof b, a.t == F32 ? "%.9g" : "%.17g", a.t == F32 ? (double)a.f : a.d); s.push_back(b); }
}
static int write1(pomp_encoder *e, const Arg &a) {
	switch (a.t) {
	case I8: return pomp_encoder_write_i8(e, (int8_t)a.v); case U8: return pomp_encoder_write_u8(e, (uint8_t)a.v); case I16: return pomp_encoder_write_i16(e, (int16_t)a.v); case U16: return pomp_encoder_write_u16(e, (uint16_t)a.v);
	case I32: return pomp_encoder_write_i32(e, (int32_t)a.v); case U32: return pomp_encoder_write_u32(e, (uint32_t)a.v); case I64: return pomp_encoder_write_i64(e, (int64_t)a.v); case U64: return pomp_encoder_write_u64(e, a.v);
	case STR: return pomp_encoder_write_str(e, a.s.c_str()); case BUF: return pomp_encoder_write_buf(e, a.s.data(), (uint32_t)a.s.size()); case F32: return pomp_encoder_write_f32(e, a.f); case F64: return pomp_encoder_write_f64(e, a.d); default: return pomp_encoder_write_fd(e, a.fd);
	}
}
static int writefmt(pomp_encoder *e, const std::vector<Arg> &v, size_t i, size_t n) { std::string f; std::vector<uint64_t> s; for (size_t k = i; k < i + n; k++) { f += spec(v[k].t, false); push(s, v[k]); } Va va(s); return pomp_encoder_writev(e, f.c_str(), va.ap); }
static size_t libfds() { size_t n = 0; for (auto &e : proc->fds) if (e.f && e.owner == OWN_LIB) n++; return n; }
static size_t wantfds() { size_t n = 0; for (M &m : *live) for (Arg &a : m.a) n += a.t == FD; return n; }

// Writes the arguments in one of the ways there are. `mode` 4 leaves out or nulls an argument.
static int write(pomp_msg *m, uint32_t id, std::vector<Arg> &v, int mode, bool *mustfail) {
	*mustfail = !writable(v);
	if (mode == 0) { std::string f; std::vector<uint64_t> s; for (auto &a : v) { f += spec(a.t, false); push(s, a); } Va va(s); return pomp_msg_writev(m, id, v.empty() && chance(5000) ? nullptr : f.c_str(), va.ap); }
	if (mode == 1 || mode == 4) {
		std::string f; std::vector<std::string> s; bool bh = badhex = mode == 4 && chance(4000); for (auto &a : v) { f += spec(a.t, false); pushstr(s, a); } bh = bh && !badhex; badhex = false; std::vector<const char *> p; for (auto &x : s) p.push_back(x.c_str());
		int argc = (int)p.size(); if (bh) *mustfail = true; else if (mode == 4 && argc > 1) { *mustfail = true; probe("arguments_missing"); if (chance(5000)) argc = 1 + (int)choose((uint32_t)argc - 1); else p[choose((uint32_t)argc)] = nullptr; }
		char **q = (char **)malloc(sizeof(char *) * (size_t)(argc ? argc : 1)); memcpy(q, p.data(), sizeof(char *) * (size_t)argc); int r = pomp_msg_write_argv(m, id, f.c_str(), argc, q); free(q); return r;
	}
	int r = pomp_msg_init(m, id); if (r < 0) return r;
	uint64_t f0 = W->fired[F_ALLOC]; pomp_encoder *e = pomp_encoder_new(); if (!e) { if (W->fired[F_ALLOC] == f0) violate("C30", "an encoder cannot be made"); return -ENOMEM; }
	r = pomp_encoder_init(e, m);
	for (size_t i = 0; r >= 0 && i < v.size();) { if (mode == 2 || chance(4000)) { r = write1(e, v[i]); i++; } else { size_t n = 1 + choose((uint32_t)(v.size() - i)); r = writefmt(e, v, i, n); i += n; } }
	if (r >= 0) { r = pomp_msg_finish(m); if (r >= 0 && chance(2000)) { if (pomp_encoder_write_u8(e, 1) >= 0) violate("C30", "an argument can be added to a finished message"); if (pomp_msg_finish(m) >= 0) violate("C30", "a message can be finished twice"); } }
	if (chance(5000)) pomp_encoder_clear(e); pomp_encoder_destroy(e); return r;
}

// -------- reading
struct Out { union { uint64_t u; int64_t i; float f; double d; char *s; const void *p; int fd; } v{}; unsigned n = 0xabcdef; };
static void bytes(pomp_msg *m, std::string &o) { const void *d = nullptr; size_t l = 0; pomp_buffer *b = pomp_msg_get_buffer(m); if (!b || pomp_buffer_get_cdata(b, &d, &l, nullptr) < 0) violate("C30", "a finished message has no bytes"); o.assign((const char *)d, l); }
static bool feq(double a, double b) { return std::isnan(a) ? std::isnan(b) : !memcmp(&a, &b, 8); }
static void same(const M &m, const Arg &a, const Out &o, const char *how, size_t i) {
	if (a.t <= U64) { uint64_t mask = bitsof(a.t) == 64 ? ~0ull : (1ull << bitsof(a.t)) - 1; if ((o.v.u & mask) != a.v) violate("C30", "argument %zu of message %u, of type %d, was written as %llx and read %s as %llx", i, m.id, a.t, (unsigned long long)a.v, how, (unsigned long long)(o.v.u & mask)); }
	else if (a.t == STR) { if (!o.v.s || a.s != o.v.s) violate("C30", "the string that is argument %zu of message %u reads back differently %s", i, m.id, how); }
	else if (a.t == BUF) { if (o.n != a.s.size() || (o.n && (!o.v.p || memcmp(o.v.p, a.s.data(), o.n)))) violate("C30", "the buffer that is argument %zu of message %u, of %zu bytes, reads back differently %s, as %u bytes", i, m.id, a.s.size(), how, o.n); }
	else if (a.t == F32) { if (!feq(a.f, o.v.f)) violate("C30", "argument %zu of message %u was written as %g and read %s as %g", i, m.id, (double)a.f, how, (double)o.v.f); }
	else if (a.t == F64) { if (!feq(a.d, o.v.d)) violate("C30", "argument %zu of message %u was written as %g and read %s as %g", i, m.id, a.d, how, o.v.d); }
	else { int fd = o.v.fd; if (fd < 0 || (size_t)fd >= proc->fds.size() || proc->fds[fd].f != a.file) violate("C30", "argument %zu of message %u is descriptor %d, which is not the file that was written", i, m.id, fd); }
}
static void dropstr(Out &o, const char *how) { if (!o.v.s) return; if (!mem_is_live(o.v.s)) violate("C30", "a string read %s is not memory that can be freed", how); mem_free(o.v.s); o.v.s = nullptr; }
// Reads with a format of the types `ty`; returns what the call returned.
static int readfmt(const M &m, const std::vector<int> &ty, std::vector<Out> &o, pomp_decoder *dec) {
	std::string f; std::vector<uint64_t> s; o.assign(ty.size(), Out()); for (size_t i = 0; i < ty.size(); i++) { f += spec(ty[i], true); s.push_back((uint64_t)&o[i].v); if (ty[i] == BUF) s.push_back((uint64_t)&o[i].n); }
	Va va(s); return dec ? pomp_decoder_readv(dec, f.c_str(), va.ap) : pomp_msg_readv(m.m, f.c_str(), va.ap);
}
static void readall(const M &m, const char *how, bool nofault = false) {
	int nf = nofault; if (nf) W->nofault++; std::vector<int> ty; size_t n = m.a.size(), ns = 0; if (!nofault && chance(2500)) n = choose((uint32_t)n + 1); for (size_t i = 0; i < n; i++) { ty.push_back(m.a[i].t); ns += m.a[i].t == STR; }
	std::vector<Out> o; uint64_t f0 = W->fired[F_ALLOC]; size_t mem = mem_live(proc, nullptr); int r = readfmt(m, ty, o, nullptr); if (nf) W->nofault--; W->ops++; hashmix(r < 0);
	if (r < 0) {
		if (W->fired[F_ALLOC] == f0 && ns <= 16) violate("C30", "message %u of %zu arguments cannot be read %s with its own format (%d)", m.id, n, how, r);
		for (size_t i = 0; i < n; i++) if (ty[i] == STR && o[i].v.s) violate("C30", "after a failed read of message %u a string is left", m.id);
		if (mem_live(proc, nullptr) != mem) violate("C30", "a failed read of message %u leaves memory allocated", m.id); probe("read_failed"); return;
	}
	if (W->fired[F_ALLOC] != f0) violate("C30", "a read of message %u succeeds although an allocation failed in it", m.id);
	for (size_t i = 0; i < n; i++) same(m, m.a[i], o[i], how, i);
	for (size_t i = 0; i < n; i++) if (ty[i] == STR) dropstr(o[i], how);
	if (mem_live(proc, nullptr) != mem) violate("C30", "a read of message %u leaves memory allocated", m.id); probe("read_back");
}
static void check(const M &m, const char *how) {
	std::string b, w = encode(m.id, m.a); bytes(m.m, b); size_t off = 12; if (pomp_msg_get_id(m.m) != m.id) violate("C30", "message %u %s has identifier %u", m.id, how, pomp_msg_get_id(m.m));
	std::vector<size_t> ends; encode(m.id, m.a, &ends); for (size_t i = 0; i < m.a.size(); i++) if (m.a[i].t == FD && ends[i] <= b.size()) memset(&b[ends[i] - 4], 0, 4); (void)off;
	for (size_t i = 0; i < m.a.size(); i++) if ((m.a[i].t == F32 && std::isnan(m.a[i].f)) || (m.a[i].t == F64 && std::isnan(m.a[i].d))) { size_t k = m.a[i].t == F32 ? 4 : 8; if (ends[i] <= b.size()) memcpy(&b[ends[i] - k], &w[ends[i] - k], k); }
	if (b != w) { size_t i = 0; while (i < b.size() && i < w.size() && b[i] == w[i]) i++; violate("C30", "message %u %s has %zu bytes and the protocol describes %zu, they differ at %zu", m.id, how, b.size(), w.size(), i); }
}
static void sealed(const M &m, const char *how) { // complete: nothing can be added
	if (!chance(2000)) return; NoFault nf; pomp_encoder *e = pomp_encoder_new(); if (pomp_encoder_init(e, m.m) >= 0 && pomp_encoder_write_u8(e, 1) >= 0) violate("C30", "an argument can be added to a message %s", how); pomp_encoder_destroy(e); if (pomp_msg_finish(m.m) >= 0) violate("C30", "a message %s can be finished", how); check(m, how);
}
static void mismatch(const M &m) {
	std::vector<int> ty; size_t n = m.a.size(); for (auto &a : m.a) ty.push_back(a.t);
	if (n && chance(7000)) { size_t k = choose((uint32_t)n); int t = 1 + (int)choose(12); if (t == ty[k] || t == FD) t = ty[k] == U32 ? I32 : U32; ty[k] = t; } else ty.push_back(1 + (int)choose(13));
	std::vector<Out> o; size_t mem = mem_live(proc, nullptr); int r = readfmt(m, ty, o, nullptr); W->ops++;
	if (r >= 0) violate("C30", "message %u is read with a format that does not match it", m.id);
	for (size_t i = 0; i < ty.size(); i++) if (ty[i] == STR && o[i].v.s) violate("C30", "after a read of message %u with another format a string is left", m.id);
	if (mem_live(proc, nullptr) != mem) violate("C30", "a read of message %u with another format leaves memory allocated", m.id); probe("mismatch_refused");
}
static void badformat(const M &m) { // neither accepted nor read beyond
	static const char *bad[] = {"%", "a", "%k", "%s", "%p", "%p%d", "%p%", "% d", "%hf", "%lx", "%hhx", "%llf", "%l", "%h", "%m"}; const char *f = bad[choose(15)]; std::vector<uint64_t> s; Out o[2]; s.push_back((uint64_t)&o[0].v); s.push_back((uint64_t)&o[1].v); Va va(s); char *q = strdup(f); size_t mem = mem_live(proc, nullptr);
	if (pomp_msg_readv(m.m, q, va.ap) >= 0) violate("C30", "the format %s is accepted for reading", f); if (mem_live(proc, nullptr) != mem) violate("C30", "a read with an invalid format leaves memory allocated");
	static const char *wbad[] = {"%", "a", "%k", "%p", "%p%d", "%hf", "%lx", "%hhx", "%l", "%ms"}; free(q); f = wbad[choose(10)]; q = strdup(f); std::vector<uint64_t> t; static const char z[8] = ""; t.push_back((uint64_t)z); t.push_back(0); Va vb(t); pomp_msg *w = pomp_msg_new(); if (w) { if (pomp_msg_writev(w, 1, q, vb.ap) >= 0) violate("C30", "the format %s is accepted for writing", f); pomp_msg_destroy(w); } free(q); probe("bad_format");
}
static int read1(pomp_decoder *d, int t, Out &o, unsigned &n) {
	const char *cs; switch (t) {
	case I8: return pomp_decoder_read_i8(d, (int8_t *)&o.v); case U8: return pomp_decoder_read_u8(d, (uint8_t *)&o.v); case I16: return pomp_decoder_read_i16(d, (int16_t *)&o.v); case U16: return pomp_decoder_read_u16(d, (uint16_t *)&o.v);
	case I32: return pomp_decoder_read_i32(d, (int32_t *)&o.v); case U32: return pomp_decoder_read_u32(d, (uint32_t *)&o.v); case I64: return pomp_decoder_read_i64(d, (int64_t *)&o.v); case U64: return pomp_decoder_read_u64(d, (uint64_t *)&o.v);
	case STR: return chance(5000) ? pomp_decoder_read_str(d, &o.v.s) : pomp_decoder_read_cstr(d, &cs); case BUF: { void *p; return chance(5000) ? pomp_decoder_read_buf(d, &p, &n) : pomp_decoder_read_cbuf(d, &o.v.p, &n); }
	case F32: return pomp_decoder_read_f32(d, &o.v.f); case F64: return pomp_decoder_read_f64(d, &o.v.d); default: return pomp_decoder_read_fd(d, &o.v.fd);
	}
}
static void typed(const M &m) { // one argument at a time
	uint64_t f0 = W->fired[F_ALLOC]; pomp_decoder *d = pomp_decoder_new(); if (!d) { if (W->fired[F_ALLOC] == f0) violate("C30", "a decoder cannot be made"); return; } if (pomp_decoder_init(d, m.m) < 0) violate("C30", "a decoder cannot be attached");
	size_t mem = mem_live(proc, nullptr), i = 0; bool stop = false;
	while (i < m.a.size() && !stop) {
		const Arg &a = m.a[i]; Out o; int r; f0 = W->fired[F_ALLOC]; uint32_t n = 0; void *p = nullptr; const char *cs = nullptr; bool owned = false;
		if (chance(2000)) { size_t k = 1 + choose((uint32_t)std::min<size_t>(m.a.size() - i, 6)); std::vector<int> ty; for (size_t j = i; j < i + k; j++) ty.push_back(m.a[j].t); std::vector<Out> v; r = readfmt(m, ty, v, d); if (r < 0) { if (W->fired[F_ALLOC] == f0) violate("C30", "arguments of message %u cannot be read on (%d)", m.id, r); for (size_t j = 0; j < k; j++) if (ty[j] == STR && v[j].v.s) violate("C30", "after a failed read of message %u a string is left", m.id); break; } for (size_t j = 0; j < k; j++) { same(m, m.a[i + j], v[j], "on", i + j); if (ty[j] == STR) dropstr(v[j], "on"); } i += k; continue; }
		if (chance(1500)) { Out x; unsigned xn; int t = 1 + (int)choose(13); if (t != a.t && (r = read1(d, t, x, xn)) >= 0) violate("C30", "argument %zu of message %u, of type %d, is read as one of type %d", i, m.id, a.t, t); if (mem_live(proc, nullptr) != mem) violate("C30", "a read of the wrong type leaves memory allocated"); }
		switch (a.t) {
		case I8: r = pomp_decoder_read_i8(d, (int8_t *)&o.v); break; case U8: r = pomp_decoder_read_u8(d, (uint8_t *)&o.v); break; case I16: r = pomp_decoder_read_i16(d, (int16_t *)&o.v); break; case U16: r = pomp_decoder_read_u16(d, (uint16_t *)&o.v); break;
		case I32: r = pomp_decoder_read_i32(d, (int32_t *)&o.v); break; case U32: r = pomp_decoder_read_u32(d, (uint32_t *)&o.v); break; case I64: r = pomp_decoder_read_i64(d, (int64_t *)&o.v); break; case U64: r = pomp_decoder_read_u64(d, (uint64_t *)&o.v); break;
		case STR: if (chance(5000)) { owned = true; r = pomp_decoder_read_str(d, &o.v.s); } else { r = pomp_decoder_read_cstr(d, &cs); o.v.s = (char *)cs; } break;
		case BUF: if (chance(5000)) { owned = true; r = pomp_decoder_read_buf(d, &p, &n); o.v.p = p; } else r = pomp_decoder_read_cbuf(d, &o.v.p, &n); o.n = n; break;
		case F32: r = pomp_decoder_read_f32(d, &o.v.f); break; case F64: r = pomp_decoder_read_f64(d, &o.v.d); break; default: r = pomp_decoder_read_fd(d, &o.v.fd); break;
		}
		if (r < 0) { if (!owned || W->fired[F_ALLOC] == f0) violate("C30", "argument %zu of message %u cannot be read by itself (%d)", i, m.id, r); if (mem_live(proc, nullptr) != mem) violate("C30", "a failed read of one argument leaves memory allocated"); stop = true; break; }
		same(m, a, o, "by itself", i); if (owned) dropstr(o, "by itself"); if (mem_live(proc, nullptr) != mem) violate("C30", "a read of one argument leaves memory allocated"); i++; probe("typed_read");
	}
	if (i == m.a.size() && !stop) { uint8_t x; if (pomp_decoder_read_u8(d, &x) >= 0) violate("C30", "message %u can be read beyond its end", m.id); }
	pomp_decoder_clear(d); pomp_decoder_destroy(d);
}
// -------- dumps
static std::vector<int> fdnums(const M &m) { std::string b; bytes(m.m, b); std::vector<size_t> ends; encode(m.id, m.a, &ends); std::vector<int> r; for (size_t i = 0; i < m.a.size(); i++) if (m.a[i].t == FD) { int32_t v = -1; if (ends[i] <= b.size()) memcpy(&v, b.data() + ends[i] - 4, 4); r.push_back(v); } return r; }
static pomp_decoder *dumpdec(const M &m) { if (!chance(2000)) return nullptr; NoFault nf; pomp_decoder *d = pomp_decoder_new(); pomp_decoder_init(d, m.m); return d; }
static void adump(const M &m) {
	std::string w = text(m.id, &m, m.a, fdnums(m)); char *t = (char *)1; uint64_t f0 = W->fired[F_ALLOC]; pomp_decoder *d = dumpdec(m); size_t mem = mem_live(proc, nullptr); int r = d ? pomp_decoder_adump(d, &t) : pomp_msg_adump(m.m, &t); W->ops++;
	if (r < 0) { if (W->fired[F_ALLOC] == f0) violate("C32", "message %u cannot be dumped (%d)", m.id, r); if (t) violate("C32", "a failed dump of message %u gives a text", m.id); probe("adump_failed"); }
	else { if (!t || !mem_is_live(t)) violate("C32", "a dump of message %u is not memory that can be freed", m.id); if (w != t) { size_t i = 0; while (i < w.size() && t[i] == w[i]) i++; violate("C32", "the dump of message %u has %zu characters and is expected to have %zu, they differ at %zu (%.30s)", m.id, strlen(t), w.size(), i, t + i); } mem_free(t); probe("adump"); }
	if (mem_live(proc, nullptr) != mem) violate("C32", "a dump of message %u leaves memory allocated", m.id); if (d) { pomp_decoder_destroy(d); }
}
static void dump(const M &m) {
	std::string w = text(m.id, &m, m.a, fdnums(m)); size_t n = w.size(), max = chance(4000) ? n - std::min<size_t>(n, 3) + choose(8) : chance(3000) ? choose(8) : choose((uint32_t)n + 20); char *g = (char *)malloc(max + 32); memset(g, 0x5e, max + 32); char *t = g + 16; pomp_decoder *d = dumpdec(m); int r = d ? pomp_decoder_dump(d, t, (uint32_t)max) : pomp_msg_dump(m.m, t, (uint32_t)max); if (d) pomp_decoder_destroy(d); W->ops++;
	for (size_t i = 0; i < 16; i++) if (g[i] != 0x5e || t[max + i] != 0x5e) violate("C32", "a dump of message %u writes beyond the %zu bytes it was given", m.id, max);
	if (r < 0) violate("C32", "message %u cannot be dumped into %zu bytes (%d)", m.id, max, r);
	if (max) {
		size_t l = strnlen(t, max); if (l == max) violate("C32", "a dump of message %u into %zu bytes is not terminated", m.id, max);
		if (n < max) { if (w != t) violate("C32", "a dump of message %u into %zu bytes differs from its %zu characters", m.id, max, n); probe("dump"); }
		else if (max >= 5) { if (l < 4 || strcmp(t + l - 4, "...}")) violate("C32", "a dump of message %u cut at %zu bytes has no ellipsis", m.id, max); if (w.compare(0, l - 4, t, l - 4)) violate("C32", "a dump of message %u cut at %zu bytes differs from its beginning", m.id, max); probe("dump_cut"); }
		else if (w.compare(0, l, t, l)) violate("C32", "a dump of message %u cut at %zu bytes differs from its beginning", m.id, max);
	}
	free(g);
}
// -------- bytes from elsewhere
static pomp_msg *frombytes(const std::string &b, bool nofault) { pomp_buffer *x = nullptr; if (nofault) W->nofault++; x = pomp_buffer_new_with_data(b.data(), b.size()); pomp_msg *m = x ? pomp_msg_new_with_buffer(x) : nullptr; if (x) pomp_buffer_unref(x); if (nofault) W->nofault--; return m; }
static void truncated() {
	std::vector<Arg> v = rargs(false, false); for (auto &a : v) if (!a.ok) return; std::vector<size_t> ends; std::string b = encode(7, v, &ends); uint64_t f0 = W->fired[F_ALLOC]; M m{frombytes(b, false), 7, v};
	if (!m.m) { if (W->fired[F_ALLOC] == f0) violate("C30", "a message cannot be made of valid bytes"); return; } check(m, "made of bytes"); readall(m, "made of bytes"); sealed(m, "made of bytes"); if (chance(5000)) adump(m); pomp_msg_destroy(m.m);
	{ std::string c = b; uint32_t n; switch (choose(3)) { case 0: c.resize(choose(12)); break; case 1: c[choose(4)] ^= (char)(1 + choose(255)); break; default: n = (uint32_t)(chance(5000) ? rint_(32) : c.size() - 2 + choose(5)); if (n == c.size()) n++; memcpy(&c[8], &n, 4); } if (frombytes(c, true)) violate("C30", "a message is made of bytes with a wrong header"); probe("wrong_header"); }
	if (b.size() == 12) return; size_t cut = 12 + choose((uint32_t)b.size() - 12); std::string c = b.substr(0, cut); uint32_t n = (uint32_t)cut; if (frombytes(c, true)) violate("C30", "a message is made of %zu bytes that declare %zu", cut, b.size()); memcpy(&c[8], &n, 4);
	m.m = frombytes(c, true); if (!m.m) violate("C30", "a message cannot be made of a cut payload"); std::vector<int> ty; for (auto &a : v) ty.push_back(a.t); std::vector<Out> o; size_t mem = mem_live(proc, nullptr);
	if (readfmt(m, ty, o, nullptr) >= 0) violate("C30", "a message cut at %zu of %zu bytes is read in full", cut, b.size()); for (size_t i = 0; i < ty.size(); i++) if (ty[i] == STR && o[i].v.s) violate("C30", "after a failed read of a cut message a string is left");
	bool mid = std::find(ends.begin(), ends.end(), cut) == ends.end() && cut != 12; char *t = nullptr; int r = pomp_msg_adump(m.m, &t); if (mid && r >= 0) violate("C32", "a message cut inside an argument is dumped without error"); if (r < 0 ? t != nullptr : !mem_is_live(t)) violate("C32", "wrong result of a dump of a cut message"); if (r >= 0) mem_free(t);
	size_t max = choose(60); char *g = (char *)malloc(max + 16); memset(g, 0x5e, max + 16); pomp_msg_dump(m.m, g, (uint32_t)max); for (size_t i = 0; i < 16; i++) if (g[max + i] != 0x5e) violate("C32", "a dump of a cut message writes beyond the %zu bytes it was given", max); if (max && strnlen(g, max) == max) violate("C32", "a dump of a cut message is not terminated"); free(g);
	if (mem_live(proc, nullptr) != mem) violate("C30", "reading a cut message leaves memory allocated"); pomp_msg_destroy(m.m); probe("cut_payload");
}
static void malformed() {
	std::string p; int t; bool fail = true; size_t k; std::vector<Arg> v = rargs(false, false); for (auto &a : v) if (!a.ok) return; for (auto &a : v) enc1(p, a);
	std::vector<int> ty; for (auto &a : v) ty.push_back(a.t);
	switch (choosew({3, 2, 2, 2, 2, 2, 2, 1})) {
	case 7: p += (char)FD; p.append(4, (char)choose(3)); ty.push_back(FD); probe("descriptor_missing"); break;
	case 0: t = pick<int>({I32, U32, I64, U64}); p += (char)t; k = 10 + choose(20); for (size_t i = 0; i < k; i++) p += (char)(0x80 | choose(128)); p += (char)choose(128); ty.push_back(t); probe("varint_too_long"); break;
	case 1: t = pick<int>({I32, U32}); p += (char)t; var(p, (1ull << (32 + choose(31))) + rbits(32)); ty.push_back(t); probe("varint_too_large"); break;
	case 2: p += (char)STR; p += (char)0; ty.push_back(STR); probe("string_empty"); break;
	case 3: k = 1 + choose(20); p += (char)STR; var(p, k); p.append(k, 'x'); ty.push_back(STR); probe("string_unterminated"); break;
	case 4: k = choose(20); t = chance(5000) ? STR : BUF; p += (char)t; var(p, k + 1 + rint_(16)); p.append(k, 0); ty.push_back(t); probe("size_too_large"); break;
	case 5: k = choose(200) + 1; t = chance(5000) ? STR : BUF; p += (char)t; var(p, k + ((uint64_t)1 << (t == STR ? 16 + choose(40) : 32 + choose(30)))); p.append(k, 0); ty.push_back(t); probe("size_overflow"); break;
	default: p += (char)(14 + choose(242)); p.append(8, 0); ty.push_back(1 + (int)choose(12)); probe("type_unknown"); break;
	}
	M m{frombytes(header(9, p), true), 9, {}}; if (!m.m) violate("C08", "a message cannot be made of a malformed payload"); std::vector<Out> o; size_t mem = mem_live(proc, nullptr); uint64_t f0 = W->fired[F_ALLOC]; (void)f0;
	size_t ns = std::count(ty.begin(), ty.end(), (int)STR); if (readfmt(m, ty, o, nullptr) >= 0 && fail) violate("C08", "a malformed argument of type %d is read without error, as %llx", ty.back(), (unsigned long long)o.back().v.u); (void)ns; for (size_t i = 0; i < ty.size(); i++) if (ty[i] == STR && o[i].v.s) violate("C30", "after a failed read of a malformed message a string is left");
	char *t2 = nullptr; if (pomp_msg_adump(m.m, &t2) >= 0) violate("C08", "a malformed message is dumped without error"); if (t2) violate("C32", "a failed dump gives a text"); if (mem_live(proc, nullptr) != mem) violate("C30", "reading a malformed message leaves memory allocated"); pomp_msg_destroy(m.m);
}
static void stream() { // a decoder fed in pieces
	int n = 1 + (int)choose(4); std::string b; std::vector<M> w; for (int i = 0; i < n; i++) { std::vector<Arg> v = rargs(false, false); for (auto &a : v) if (!a.ok) return; uint32_t id = (uint32_t)rint_(32); b += encode(id, v); w.push_back({nullptr, id, v}); if (chance(1500)) b += std::string(choose(10), 'x'); if (chance(1000)) b += "POMxPO"; }
	size_t mem = mem_live(proc, nullptr); uint64_t f0 = W->fired[F_ALLOC]; pomp_prot *p = pomp_prot_new(); if (!p) { if (W->fired[F_ALLOC] == f0) violate("C30", "a stream decoder cannot be made"); return; } size_t off = 0, got = 0; pomp_msg *m = nullptr; bool failed = false; size_t piece = pick<size_t>({1, 3, 20, 500, 100000});
	std::vector<pomp_msg *> held;
	while (off < b.size()) {
		size_t k = std::min(b.size() - off, 1 + (size_t)choose((uint32_t)piece)); char *c = (char *)malloc(k); memcpy(c, b.data() + off, k); f0 = W->fired[F_ALLOC]; m = (pomp_msg *)1; int r = pomp_prot_decode_msg(p, c, k, &m); free(c);
		if (r < 0) { if (W->fired[F_ALLOC] == f0) violate("C30", "a stream decoder fails on valid bytes (%d)", r); failed = true; break; } if (r == 0 || (size_t)r > k) violate("C30", "a stream decoder given %zu bytes says it took %d", k, r);
		off += (size_t)r; if (!m) { if ((size_t)r != k) violate("C30", "a stream decoder leaves bytes without giving a message"); continue; } if (m == (pomp_msg *)1) violate("C30", "a stream decoder neither gives a message nor says that it has none");
		if (got == w.size()) violate("C30", "a stream decoder gives a message too many"); M x = w[got++]; x.m = m; check(x, "decoded from a stream"); readall(x, "decoded from a stream"); sealed(x, "decoded from a stream"); if (chance(5000)) pomp_msg_destroy(m); else { held.push_back(m); while (!held.empty() && chance(held.size() > 2 ? 10000 : 6000)) { size_t k = choose((uint32_t)held.size()); pomp_msg *q = held[k]; held.erase(held.begin() + (long)k); pomp_prot_release_msg(p, q); } } probe("stream_message");
	}
	if (!failed && got != w.size()) violate("C30", "a stream decoder gives %zu messages of %zu", got, w.size()); for (pomp_msg *q : held) if (chance(5000)) pomp_msg_destroy(q); else pomp_prot_release_msg(p, q); pomp_prot_destroy(p); if (mem_live(proc, nullptr) != mem) violate("C30", "a stream decoder leaves memory allocated");
}
// -------- operations
static void create(bool fds) {
	uint64_t f0 = W->nfired; pomp_msg *m = pomp_msg_new(); if (!m) { if (W->nfired == f0) violate("C30", "a message cannot be made"); return; }
	M x{m, (uint32_t)rint_(32), rargs(fds, chance(2000))}; bool mf; int mode = (int)choosew({4, 3, 3, 3, 1}); f0 = W->nfired; int r = write(m, x.id, x.a, mode, &mf); W->ops++; hashmix((uint64_t)mode * 2 + (r < 0)); TR("message %u written in way %d: %d", x.id, mode, r);
	if (r >= 0 && mf) violate("C30", "a message with an argument that cannot be written is written"); if (r < 0 && !mf && W->nfired == f0) violate("C30", "message %u cannot be written in way %d (%d)", x.id, mode, r);
	if (r < 0) {
		probe("write_failed"); if (chance(3000)) { char *t = nullptr; if (pomp_msg_adump(m, &t) >= 0) mem_free(t); std::vector<Out> o; std::vector<int> ty{U32}; readfmt(x, ty, o, nullptr); }
		if (chance(2000)) { pomp_msg *c = pomp_msg_new_copy(m); if (c) pomp_msg_destroy(c); }
		if (chance(3000)) { pomp_msg_destroy(m); closeapp(x.a); if (libfds() != wantfds()) violate("C30", "a message that could not be written leaves descriptors open"); return; }
		pomp_msg_clear(m); if (libfds() != wantfds()) violate("C30", "a message that could not be written leaves descriptors open"); closeapp(x.a); NoFault nf; x.a = rargs(fds, false); while (!writable(x.a)) { closeapp(x.a); x.a = rargs(fds, false); } mode = (int)choose(4); r = write(m, x.id, x.a, mode, &mf); if (r < 0) violate("C30", "after a failed write and a clear a message cannot be written (%d)", r); probe("written_again");
	}
	closeapp(x.a); check(x, "as written"); live->push_back(x); if (libfds() != wantfds()) violate("C30", "%zu descriptors are open for %zu in messages", libfds(), wantfds());
	if (chance(2000)) { bool f2; std::vector<Arg> v = rargs(false, false); if (write(m, 3, v, (int)choose(4), &f2) >= 0) violate("C30", "a finished message can be written again"); check(live->back(), "after a second write"); }
}
static void small() { // the variadic forms
	pomp_msg *m = pomp_msg_new(); if (!m) return; unsigned a = (unsigned)rint_(32), a2 = 0; std::string s = rstr(choose(40), true); double d = 2.5 * choose(1000), d2 = 0; char *t = nullptr; uint64_t f0 = W->fired[F_ALLOC]; int r;
	if (chance(5000)) r = pomp_msg_write(m, 77, "%u%s%lf", a, s.c_str(), d);
	else { pomp_encoder *e = pomp_encoder_new(); r = e ? pomp_msg_init(m, 77) : -ENOMEM; if (r >= 0) r = pomp_encoder_init(e, m); if (r >= 0) r = pomp_encoder_write(e, "%u%s", a, s.c_str()); if (r >= 0) r = pomp_encoder_write(e, "%lf", d); if (r >= 0) r = pomp_msg_finish(m); if (e) pomp_encoder_destroy(e); }
	if (r < 0) { if (W->fired[F_ALLOC] == f0) violate("C30", "a message cannot be written (%d)", r); pomp_msg_destroy(m); return; }
	f0 = W->fired[F_ALLOC]; pomp_decoder *dc = chance(5000) ? pomp_decoder_new() : nullptr; if (dc) { pomp_decoder_init(dc, m); r = pomp_decoder_read(dc, "%u%ms%lf", &a2, &t, &d2); pomp_decoder_destroy(dc); } else r = pomp_msg_read(m, "%u%ms%lf", &a2, &t, &d2);
	if (r < 0 ? W->fired[F_ALLOC] == f0 || t : a2 != a || !t || s != t || d2 != d) violate("C30", "a message written with arguments reads back differently (%d)", r); if (t) mem_free(t); pomp_msg_destroy(m);
}
static void op() {
	if (live->empty() || (live->size() < 4 && chance(4000))) { create(chance(4000)); return; }
	auto it = live->begin(); std::advance(it, choose((uint32_t)live->size())); M &m = *it;
	switch (choosew({5, 4, 3, 3, 3, 4, 4, 3, 2, 3, 1, 1})) {
	case 0: readall(m, "back"); break;
	case 1: mismatch(m); break;
	case 2: typed(m); break;
	case 3: adump(m); break;
	case 4: dump(m); break;
	case 5: { // copy
		uint64_t f0 = W->nfired; pomp_msg *c = pomp_msg_new_copy(m.m); W->ops++; if (!c) { if (W->nfired == f0) violate("C30", "message %u cannot be copied", m.id); if (libfds() != wantfds()) violate("C30", "a failed copy leaves descriptors open"); check(m, "after a failed copy"); probe("copy_failed"); break; }
		if (live->size() >= 6) { M x = m; x.m = c; check(x, "copied"); sealed(x, "copied"); pomp_msg_destroy(c); if (libfds() != wantfds()) violate("C30", "a copy leaves descriptors open"); break; } M x = m; x.m = c; live->push_back(x); check(x, "copied"); readall(x, "copied", true); if (libfds() != wantfds()) violate("C30", "%zu descriptors are open for %zu in messages", libfds(), wantfds()); auto a = fdnums(m), b = fdnums(x); for (size_t i = 0; i < a.size(); i++) if (a[i] == b[i]) violate("C30", "a copy shares a descriptor with the original"); probe("copied"); break; }
	case 6: truncated(); break;
	case 7: malformed(); break;
	case 8: stream(); break;
	case 9: { pomp_msg *d = m.m; live->erase(it); if (chance(4000)) { pomp_msg_clear(d); if (pomp_msg_get_buffer(d) || pomp_msg_get_id(d)) violate("C30", "a cleared message is not empty"); if (libfds() != wantfds()) violate("C30", "a cleared message leaves descriptors open"); } pomp_msg_destroy(d); if (libfds() != wantfds()) violate("C30", "a destroyed message leaves descriptors open, or closes those of others"); break; }
	case 10: badformat(m); break;
	default: small(); break;
	}
}
}
#ifndef MSG_NO_SCENARIO
void scen_msg(const char *) {
	using namespace mg; static std::list<M> sl; sl.clear(); live = &sl; proc = mkproc("app", ipa(1)); W->faults_on = true; W->must_finish = true;
	if (chance(6000)) { uint32_t r = pick<uint32_t>({60, 300, 1200}); W->rate[F_ALLOC] = r; W->rate[F_DUP] = r; W->rate[F_EMFILE] = r / 2; }
	int n = (int)range(3, 60);
	spawn(proc, "main", [n]() { for (int i = 0; i < n; i++) op(); W->faults_on = false; for (M &m : *live) { check(m, "in the end"); readall(m, "in the end", true); } while (!live->empty()) { pomp_msg_destroy(live->front().m); live->pop_front(); if (libfds() != wantfds()) violate("C30", "a destroyed message leaves descriptors open, or closes those of others"); } check_clean(proc, "C30"); end_run(); });
}
#endif
