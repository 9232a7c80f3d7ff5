// Scenario: textual addresses (C31): parsed, formatted into buffers of any size and completed with the product root,
// while allocations (also those of the C library's resolver) fail.
#include "app.h"
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/un.h>
namespace ad {
static Proc *proc;
struct Addr { std::string text, canon; sockaddr_storage sa{}; socklen_t len = 0; };
static uint16_t rport() { switch (choosew({4, 1, 1, 1})) { case 0: return (uint16_t)choose(65536); case 1: return 0; case 2: return 65535; default: return (uint16_t)(choose(10) + 1); } }
static std::string rname(size_t n) { std::string s(n, 'a'); bool txt = chance(6000); uint32_t x = choose(1u << 30); for (auto &c : s) { x = x * 1664525 + 1013904223; uint8_t b = (uint8_t)(x >> 24); c = (char)(txt ? 'a' + b % 26 : b ? b : 1); } return s; }
static Addr raddr() {
	Addr a; char t[80];
	switch (choose(4)) {
	case 0: { sockaddr_in *i = (sockaddr_in *)&a.sa; i->sin_family = AF_INET; uint32_t h = choose(1u << 31) * 2 + choose(2); if (chance(1500)) h = pick<uint32_t>({0, 0xffffffff, 0x7f000001, 0x0a0a0a0a}); i->sin_addr.s_addr = htonl(h); uint16_t p = rport(); i->sin_port = htons(p); a.len = sizeof *i; inet_ntop(AF_INET, &i->sin_addr, t, sizeof t); a.canon = a.text = std::string("inet:") + t + ":" + std::to_string(p); break; }
	case 1: { sockaddr_in6 *i = (sockaddr_in6 *)&a.sa; i->sin6_family = AF_INET6; uint8_t *b = i->sin6_addr.s6_addr; for (int k = 0; k < 8; k++) if (chance(6000)) { b[2 * k] = (uint8_t)choose(256); b[2 * k + 1] = (uint8_t)choose(256); } uint16_t p = rport(); i->sin6_port = htons(p); if (b[0] == 0xfe || b[0] == 0xff) b[0] = 0x20; // no scope
		a.len = sizeof *i; inet_ntop(AF_INET6, b, t, sizeof t); a.canon = a.text = std::string("inet6:") + t + ":" + std::to_string(p);
		if (chance(3000)) { a.text = "inet6:"; for (int k = 0; k < 8; k++) { snprintf(t, sizeof t, chance(5000) ? "%04x:" : "%X:", b[2 * k] << 8 | b[2 * k + 1]); a.text += t; } a.text += std::to_string(p); } break; }
	default: { sockaddr_un *u = (sockaddr_un *)&a.sa; u->sun_family = AF_UNIX; a.len = sizeof *u; bool abs = chance(4000); size_t n = chance(3000) ? 107 - choose(3) : 1 + choose(chance(5000) ? 20 : 106); std::string s = rname(n); if (abs) s[0] = '@'; else if (s[0] == '@') s[0] = '/'; memcpy(u->sun_path, s.data(), n); if (abs) u->sun_path[0] = 0; if (abs && n == 1) { s += 'x'; u->sun_path[1] = 'x'; } a.canon = a.text = "unix:" + s; probe(abs ? "abstract" : "path"); break; }
	}
	return a;
}
static std::string bad() {
	switch (choosew({3, 4, 2, 2})) {
	case 0: return pick<const char *>({"", "inet", "inet:", "inet6:", "inet:80", "inet:1.2.3.4", "unix", "tcp:1.2.3.4:80", "INET:1.2.3.4:80", "inet:256.1.1.1:80", "inet:1.2.3.4.5:80", "inet6:1::2::3:80", "inet6:12345::1:80", "inet:no such host:80", "Unix:/tmp/x", "inet:1.2.3.4:80 ", "inet6:::1:0x50", "inet:1.2.3.4:-1"});
	case 1: { Addr a; do a = raddr(); while (a.sa.ss_family == AF_UNIX); std::string t = a.text; size_t k = t.find(':') + 1; t.insert(k + choose((uint32_t)(t.size() - k + 1)), 1, pick<char>({'!', '/', 'z', '\x01', '\xff'})); return t; }
	case 2: return "unix:" + std::string(chance(3000) ? "@" : "/") + rname(107 + (chance(5000) ? 0 : choose(300)));
	default: { uint64_t p = 65536 + (chance(5000) ? choose(10) : (uint64_t)choose(1u << 30) << choose(35)); return (chance(5000) ? "inet:1.2.3.4:" : "inet6:::1:") + std::to_string(p); }
	}
}
static int parse(const std::string &t, uint32_t cap, std::string &out, uint32_t &len) {
	char *q = (char *)malloc(t.size() + 1), *d = (char *)malloc(cap + 1) ; memcpy(q, t.c_str(), t.size() + 1); memset(d, 0x5e, cap + 1); len = cap; size_t mem = mem_live(proc, nullptr);
	int r = pomp_addr_parse(q, (sockaddr *)d, &len); W->ops++; if (d[cap] != 0x5e) violate("C31", "parsing '%s' writes beyond the %u bytes it was given", t.c_str(), cap); if (mem_live(proc, nullptr) != mem) violate("C31", "parsing '%s' leaves memory allocated", t.c_str()); if (r > 0) violate("C31", "parsing '%s' gives %d", t.c_str(), r);
	out.assign(d, cap); free(q); free(d); return r;
}
static bool intact(const std::string &s) { for (char c : s) if (c != 0x5e) return false; return true; }
static int format(const Addr &a, uint32_t cap, std::string &out) {
	char *s = (char *)malloc(a.len), *d = (char *)malloc(cap + 1); memcpy(s, &a.sa, a.len); memset(d, 0x5e, cap + 1); size_t mem = mem_live(proc, nullptr); int r = pomp_addr_format(d, cap, (sockaddr *)s, a.len); W->ops++;
	if (d[cap] != 0x5e) violate("C31", "formatting '%s' writes beyond the %u bytes it was given", a.canon.c_str(), cap); if (mem_live(proc, nullptr) != mem) violate("C31", "formatting '%s' leaves memory allocated", a.canon.c_str()); if (r > 0) violate("C31", "formatting '%s' gives %d", a.canon.c_str(), r);
	if (r == 0 && strnlen(d, cap) == cap) violate("C31", "formatting '%s' into %u bytes gives a text that is not terminated", a.canon.c_str(), cap); out = r == 0 ? std::string(d) : ""; free(s); free(d); return r;
}
static void checkparse(const Addr &a, const std::string &t) {
	std::string o; uint32_t len, cap = chance(7000) ? (uint32_t)sizeof(sockaddr_storage) : chance(5000) ? a.len - 2 + choose(5) : choose(140); uint64_t f0 = W->fired[F_ALLOC]; int r = parse(t, cap, o, len);
	if (cap < a.len) { if (r == 0) violate("C31", "'%s' is parsed into %u bytes and needs %u", t.c_str(), cap, a.len); if (len > cap) violate("C31", "parsing '%s' into too few bytes says that %u were written", t.c_str(), len); probe("parse_no_room"); return; }
	if (r < 0) { if (W->fired[F_ALLOC] == f0) violate("C31", "'%s' cannot be parsed (%d)", t.c_str(), r); probe("parse_failed"); return; }
	if (len != a.len) violate("C31", "'%s' is parsed into an address of %u bytes and not %u", t.c_str(), len, a.len); if (memcmp(o.data(), &a.sa, a.len)) violate("C31", "'%s' is parsed into another address", t.c_str()); if (!intact(o.substr(len))) violate("C31", "parsing '%s' writes beyond the length it gives", t.c_str()); probe("parsed");
}
static void op() {
	Addr a = raddr(); std::string o; uint32_t len; hashmix(a.len);
	switch (choosew({4, 4, 3, 3, 1})) {
	case 0: checkparse(a, a.text); break;
	case 1: {
		bool full = false; if (a.sa.ss_family == AF_UNIX && chance(2000)) { // the path fills the address, as those that the system gives may: there is no null byte
			sockaddr_un *u = (sockaddr_un *)&a.sa; size_t m = strnlen(u->sun_path + 1, sizeof u->sun_path - 1) + 1; while (m < sizeof u->sun_path) u->sun_path[m++] = 'f'; a.canon = std::string("unix:") + (u->sun_path[0] ? u->sun_path[0] : '@') + std::string(u->sun_path + 1, sizeof u->sun_path - 1); full = true; probe("full_path"); }
		uint32_t n = (uint32_t)a.canon.size(), cap = chance(4000) ? n + 1 : chance(5000) ? n - 2 + choose(6) : 1 + choose(200); int r = format(a, cap, o);
		if (r == 0) { if (o != a.canon.substr(0, std::min(n, cap - 1))) violate("C31", "'%s' is formatted into %u bytes as '%s'", a.canon.c_str(), cap, o.c_str()); } else if (cap > n) violate("C31", "'%s' cannot be formatted into %u bytes (%d)", a.canon.c_str(), cap, r);
		if (cap > n && !full) { probe("formatted"); checkparse(a, o); } else probe("format_cut"); break; }
	case 2: { std::string t = bad(); uint32_t cap = sizeof(sockaddr_storage); int r = parse(t, cap, o, len); if (r == 0) violate("C31", "'%s' is accepted as an address", t.c_str()); probe("malformed_refused"); break; }
	case 3: {
		static std::string root; bool set = chance(6000); root = chance(2000) ? "" : "/" + rname(choose(40)); W->env = set ? root.c_str() : nullptr; W->envname = "PRODUCT_ROOT_CFG"; char *d = nullptr; uint64_t f0 = W->fired[F_ALLOC]; size_t mem = mem_live(proc, nullptr); char *q = strdup(a.text.c_str()); int r = pomp_addr_get_real_addr(q, &d); free(q); W->ops++;
		std::string w = set && a.text.compare(0, 5, "unix:") == 0 && a.text[5] != '@' ? "unix:" + root + a.text.substr(5) : a.text; W->env = nullptr;
		if (r < 0) { if (W->fired[F_ALLOC] == f0) violate("C31", "the real address of '%s' cannot be given (%d)", a.text.c_str(), r); probe("real_failed"); } else { if (!d || !mem_is_live(d)) violate("C31", "the real address of '%s' is not memory that can be freed", a.text.c_str()); if (w != d) violate("C31", "the real address of '%s' is '%s' and not '%s'", a.text.c_str(), d, w.c_str()); mem_free(d); probe("real"); }
		if (mem_live(proc, nullptr) != mem) violate("C31", "giving the real address of '%s' leaves memory allocated", a.text.c_str()); break; }
	default: {
		uint32_t n = chance(5000) ? a.len : choose(a.len + 1); char *s = (char *)malloc(n + 1); memcpy(s, &a.sa, n); char *e = (char *)malloc(n ? n : 1); memcpy(e, s, n); int r = pomp_addr_is_unix(n || chance(5000) ? (sockaddr *)e : nullptr, n); if (r != (n >= 2 && a.sa.ss_family == AF_UNIX)) violate("C31", "an address of family %d and %u bytes is said to be %s", a.sa.ss_family, n, r ? "local" : "not local");
		if (n < a.len) { char b[200]; memset(b, 0x5e, sizeof b); r = pomp_addr_format(b, sizeof b, (sockaddr *)e, n); if (r == 0 && strnlen(b, sizeof b) == sizeof b) violate("C31", "a cut address is formatted without end"); } free(s); free(e); probe("kind"); break; }
	}
}
}
void scen_addr(const char *) {
	using namespace ad; proc = mkproc("app", ipa(1)); W->faults_on = true; W->must_finish = true; if (chance(6000)) W->rate[F_ALLOC] = pick<uint32_t>({100, 600, 3000});
	int n = (int)range(5, 100); spawn(proc, "main", [n]() { for (int i = 0; i < n; i++) op(); W->faults_on = false; check_clean(proc, "C31"); end_run(); });
}
