// What scenarios share, and the choice of the scenario.
#include "app.h"
#include <unistd.h>
void kernel_init();

Backend g_be; int g_nextpid;
void backend_choose() {
	g_be.loop = (int)choose(2); g_be.timer = (int)choose(2); g_be.evt = (int)choose(2);
	pomp_internal_set_loop_impl(g_be.loop ? POMP_LOOP_IMPL_POLL : POMP_LOOP_IMPL_EPOLL);
	pomp_internal_set_timer_impl(g_be.timer ? POMP_TIMER_IMPL_POSIX : POMP_TIMER_IMPL_TIMER_FD);
	if (&pomp_evt_set_ops && &pomp_evt_fd_ops && &pomp_evt_posix_ops) pomp_evt_set_ops(g_be.evt ? (const void *)&pomp_evt_posix_ops : (const void *)&pomp_evt_fd_ops);
	else g_be.evt = 0;
	probe(g_be.loop ? "loop_poll" : "loop_epoll"); probe(g_be.timer ? "timer_posix" : "timer_fd"); probe(g_be.evt ? "evt_pipe" : "evt_eventfd");
}
TagFile *appfile(Proc *p, int *fd, bool) { static int tag; TagFile *t = new TagFile(++tag); int f = fd_alloc(p, t, false, OWN_APP, "app"); if (fd) *fd = f; return t; }
Proc *mkproc(const char *name, uint32_t ip) {
	Proc *p = new_proc(name, ip); p->pid = 1000 + (int)W->procs.size() * 7 + p->id; p->uid = 100 + p->id; p->gid = 200 + p->id;
	for (int i = 0; i < 3; i++) appfile(p, nullptr); return p;
}
void check_clean(Proc *p, const char *tag) {
	std::string l = leak_report(p, OWN_LIB); if (!l.empty()) violate(tag, "%s: descriptors left after everything was destroyed: %s", p->name.c_str(), l.c_str());
	std::string d; size_t n = mem_live(p, &d); if (n) violate(tag, "%s: %zu memory blocks left after everything was destroyed: %s", p->name.c_str(), n, d.c_str());
	for (auto &t : p->ptimers) if (t.used) violate(tag, "%s: a system timer is left after everything was destroyed", p->name.c_str());
	for (Fiber *f : p->fibers) if (!strcmp(f->name, "thread") && !f->finished) violate(tag, "%s: a thread of the library is left after everything was destroyed", p->name.c_str());
}
uint32_t ipa(int n) { return htonl(0x0a000000u + n); }
sockaddr_in in_addr(uint32_t ip, uint16_t port) { sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = ip; a.sin_port = htons(port); return a; }
std::string hex(const void *p, size_t n, size_t max) { std::string s; char b[4]; for (size_t i = 0; i < n && i < max; i++) { snprintf(b, 4, "%02x", ((const uint8_t *)p)[i]); s += b; } if (n > max) s += ".."; return s; }

const char *scenario_for(const char *prop);
void scenario_run(const char *prop) {
	kernel_init(); g_nextpid = 100; backend_choose(); std::string s = prop;
	static const std::set<std::string> netp = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22"};
	if (s == "C10") scen_timer(prop);
	else if (s == "C14") scen_watchdog(prop);
	else if (s == "C16b") scen_buf(prop);
	else if (s == "C30") scen_msg(prop);
	else if (s == "C31") scen_addr(prop);
	else if (s == "C24") scen_cli(prop);
	else if (s == "C13") scen_loop(prop);
	else if (s == "C09") scen_dgram(prop);
	else if (s == "C11" || s == "C12") scen_threads(prop);
	else if (s == "C23") scen_net_cxx(prop);
	else if (s == "C23t") scen_timer_cxx(prop);
	else if (s == "C23l") scen_loop_cxx(prop);
	else if (s == "C23e") scen_threads_cxx("C12");
	else if (netp.count(s)) scen_net(prop);
	else { fprintf(stderr, "unknown property %s\n", prop); _exit(98); }
}
