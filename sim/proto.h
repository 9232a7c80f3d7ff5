// Reference model of the wire format: walks messages, decodes byte streams.
#pragma once
#include "app.h"
typedef std::vector<std::pair<uint32_t, File *>> FdList;
struct Exp { std::string b; FdList fds; bool must = true, anyfd = false; uint64_t start = 0; bool oddfd = false; };
// Reference decoder of the byte stream a harness peer writes.
struct RefDec {
	int st = 0; std::string h; std::string m; uint32_t size = 0; bool fuzzy = false, hostile = false;
	std::deque<Exp> out; std::vector<File *> pend; std::set<File *> sent; bool wellfds = true; size_t rx = 0;
	uint64_t pos = 0, mstart = 0; std::vector<std::pair<uint64_t, uint64_t>> odd; std::set<uint64_t> ends; // where in the stream descriptors do not fit the messages, where messages end
	void feed(const char *p, size_t n); void done();
};
static inline bool eqmask(const std::string &a, const FdList &f, const void *b, size_t n) {
	if (a.size() != n) return false; if (f.empty()) return n == 0 || !memcmp(a.data(), b, n);
	std::string x = a, y((const char *)b, n); for (auto &e : f) if (e.first + 4 <= n) { memset(&x[e.first], 0, 4); memset(&y[e.first], 0, 4); } return x == y;
}
static inline uint32_t le32(const char *p) { uint32_t v; memcpy(&v, p, 4); return v; }
// Walks the arguments of a message. 0: malformed, 1: well formed, 2: borderline. Offsets of descriptor arguments in `fo`, types in `ty`.
static inline int walk(const std::string &m, std::vector<uint32_t> *fo, std::vector<uint8_t> *ty) {
	size_t i = 12; int res = 1; auto var = [&](uint64_t *o) { uint64_t v = 0; int sh = 0; for (;;) { if (i >= m.size()) return false; uint8_t b = (uint8_t)m[i++]; if (sh < 64) v |= (uint64_t)(b & 0x7f) << sh; if (sh > 63 || (sh == 63 && b > 1)) res = 2; sh += 7; if (!(b & 0x80)) break; } *o = v; return true; };
	while (i < m.size()) {
		uint8_t t = (uint8_t)m[i++]; uint64_t v; size_t need = 0; if (ty) ty->push_back(t);
		switch (t) {
		case 1: case 2: need = 1; break; case 3: case 4: need = 2; break;
		case 5: case 6: if (!var(&v)) return 0; if (v > 0xffffffffull) res = 2; break;
		case 7: case 8: if (!var(&v)) return 0; break;
		case 9: if (!var(&v)) return 0; if (v > 0xffff) { res = 2; v &= 0xffff; } if (v == 0 || i + v > m.size() || m[i + v - 1] != 0) return 0; i += v; break;
		case 10: if (!var(&v)) return 0; if (v > 0xffffffffull) { res = 2; v &= 0xffffffff; } need = v; break;
		case 11: need = 4; break; case 12: need = 8; break;
		case 13: need = 4; if (fo) fo->push_back((uint32_t)i); break;
		default: return 0;
		}
		if (need > m.size() - i) return 0; i += need;
	}
	if (fo && fo->size() > 4) res = res ? 2 : 0;
	return res;
}
inline void RefDec::done() {
	Exp e; e.b = m; e.start = mstart; ends.insert(mstart + m.size()); std::vector<uint32_t> fo; int r = walk(m, &fo, nullptr); if (pend.size() != fo.size() || (r != 1 && !fo.empty())) { e.oddfd = true; odd.push_back({mstart, mstart + m.size()}); } st = 0; h.clear(); m.clear();
	if (r != 1 && (!fo.empty() || !pend.empty())) wellfds = false;
	if (r == 0) { pend.clear(); return; }
	if (pend.size() < fo.size()) wellfds = false; // which descriptors go with which message is then ambiguous
	e.must = r == 1; e.anyfd = !wellfds || r != 1;
	for (uint32_t o : fo) { File *f = nullptr; if (!pend.empty()) { f = pend.front(); pend.erase(pend.begin()); } e.fds.push_back({o, f}); }
	if (!pend.empty()) { wellfds = false; pend.clear(); }
	out.push_back(std::move(e));
}
inline void RefDec::feed(const char *p, size_t n) {
	static const char M[] = "POMP";
	uint64_t p0 = pos; pos += n;
	for (size_t i = 0; i < n && !fuzzy; i++) {
		if (st < 4) { if (p[i] == M[st]) { if (!st) mstart = p0 + i; h.push_back(p[i]); st++; } else { if (!pend.empty()) odd.push_back({p0 + i, p0 + i + 1}); if (p[i] == 'P') { h = "P"; st = 1; mstart = p0 + i; } else { h.clear(); st = 0; } } continue; }
		if (st == 4) {
			h.push_back(p[i]); if (h.size() < 12) continue;
			size = le32(&h[8]); if (size < 12) { for (int k = 4; k < 12; k++) if (h[k] == 'P') fuzzy = true; if (!pend.empty()) odd.push_back({mstart, p0 + i + 1}); st = 0; h.clear(); continue; }
			if (size > 16u << 20) { fuzzy = true; continue; }
			m = h; st = 5; if (size == 12) done(); continue;
		}
		size_t k = std::min(n - i, (size_t)size - m.size()); m.append(p + i, k); i += k - 1; if (m.size() == size) done();
	}
}
