// What every scenario shares: the library's interface, back ends, processes, end-of-run accounting.
#pragma once
#include "kernel.h"
#include "race.h"
#include <netinet/tcp.h>
#include <arpa/inet.h>
extern "C" {
#define POMP_API
#include "libpomp.h"
}
extern "C" {
// Back-end tables of the library; weak so that a build that lacks one still links.
extern const char pomp_loop_epoll_ops __attribute__((weak)), pomp_loop_poll_ops __attribute__((weak)), pomp_timer_fd_ops __attribute__((weak)), pomp_timer_posix_ops __attribute__((weak)), pomp_evt_fd_ops __attribute__((weak)), pomp_evt_posix_ops __attribute__((weak));
const void *pomp_evt_set_ops(const void *) __attribute__((weak)); const void *pomp_timer_set_ops(const void *) __attribute__((weak)); const void *pomp_loop_set_ops(const void *) __attribute__((weak));
}
struct Backend { int loop = 0, timer = 0, evt = 0; };
extern Backend g_be;
void backend_choose();                          // 0: epoll/timerfd/eventfd, 1: poll/POSIX
Proc *mkproc(const char *name, uint32_t ip);     // with descriptors 0, 1, 2 taken by the application
TagFile *appfile(Proc *p, int *fd, bool pollable = false);
void check_clean(Proc *p, const char *tag);      // nothing of the library is left in this process
uint32_t ipa(int n);                             // 10.0.0.n
sockaddr_in in_addr(uint32_t ip, uint16_t port);
extern int g_nextpid;

void scen_timer(const char *), scen_loop(const char *), scen_dgram(const char *), scen_threads(const char *), scen_watchdog(const char *), scen_buf(const char *), scen_msg(const char *), scen_addr(const char *), scen_net(const char *), scen_cli(const char *);
void scen_timer_cxx(const char *), scen_loop_cxx(const char *), scen_threads_cxx(const char *), scen_net_cxx(const char *);
std::string hex(const void *p, size_t n, size_t max = 48);
