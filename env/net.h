// Model of the kernel interfaces the networking code uses: descriptors, sockets, event/timer descriptors, epoll, poll, clocks.
#pragma once
#include <sys/time.h>
#include "core.h"
#include <sys/uio.h>
#include <netinet/in.h>
#define K_PASS (-100000L)
enum KKind { K_NONE, K_EVENT, K_TIMER, K_EPOLL, K_SOCK, K_LISTEN, K_FRESH, K_FILE, K_NULL };
enum { K_READ, K_WRITE };
#define K_MAXFD 64
struct KFd {
  int kind, open, nonblock; unsigned gen;
  uint64_t counter;                                   // event descriptor
  bool armed; int64_t deadline, interval; uint64_t expir; int arms;  // timer (microseconds)
  const char *in; size_t in_pos, in_end; bool fin, rst, hup; int in_err, so_error; // socket input: bytes in[in_pos..in_end)
  size_t out_pos; int shut; bool connecting, connected, bound; int backlog; int sndfull; int edges; size_t shut_pos; unsigned long ino; int forced; uint32_t force_ev;    // forced: readiness is force_ev
  struct sockaddr_in6 local, peer; socklen_t localn, peern;
  bool cloexec; int domain, type, listens, shuts_rd; struct { int level, opt, val; bool afterBind; } opts[8]; int nopts;
};
extern KFd k_fd[K_MAXFD]; extern int k_nfd; extern bool k_next_zero;
extern int64_t k_now_us;                                    // virtual clock, microseconds since the epoch
extern bool (*k_tod_hook)(struct timeval *);
extern int64_t (*k_time_hook)();                           // seconds, instead of k_now_us
extern void (*k_clock_hook)();                              // called whenever the clock is read
extern bool (*k_clock_ts)(struct timespec *);           // overrides clock_gettime
extern long (*k_io_hook)(int op, int fd, const struct iovec *v, int cnt); // count, -errno or K_PASS
extern void (*k_on_write)(int fd, size_t pos, const char *p, size_t n);   // bytes accepted by the kernel
extern long (*k_accept_bytes)(int fd, size_t want);         // how many bytes a write accepts: 0 means EAGAIN, negative means -errno
extern long (*k_take_bytes)(int fd, size_t avail);           // how many (at least one) of the available bytes a read returns; negative means -errno
extern bool (*k_on_wait)();                                 // called when a loop is about to block; true if it changed something
extern void (*k_on_closed)(int fd);                         // a descriptor has just been closed
extern int (*k_connect_hook)(int fd, const struct sockaddr *);            // 0 or an errno value
extern int (*k_accept_hook)(int fd);                        // 0 or an errno value
extern void (*k_on_accept)(int fd);                         // a connection has been accepted: sets its addresses
extern int (*k_sock_hook)(int fd, const char *call);         // setsockopt, getsockopt, getsockname, getpeername, fcntl: 0 or an errno value
extern int k_fd_limit;                                      // descriptors beyond this number fail with EMFILE
extern int (*k_socket_hook)();                              // 0 or an errno value
extern void (*k_on_event)(int ep, int fd, uint32_t ev);     // an event is being reported to the application
extern int k_eintr;                                         // interruptions of waits still allowed
extern int k_epoll_bad;                                     // failed epoll_ctl calls
extern int k_open_count;
extern bool k_auto_timer;                                   // an idle system advances the clock to the next timer
extern const char *k_bad_fd_msg;
int k_new(int kind);
int k_sock(const char *in);                                 // a connected non-blocking socket whose input comes from in
void k_deliver(int fd, size_t n); void k_fin(int fd); void k_rst(int fd); void k_hup(int fd);
void k_room(int fd);                                        // the socket's send buffer has room again (a short or refused write fills it)
void k_connect_done(int fd, int err);
void k_incoming(int fd, int n);                             // n connections wait on a listening socket
uint32_t k_ready(int fd);
int k_ep_count(int ep); bool k_ep_get(int ep, int fd, uint32_t *events, void **data); // current registration
bool k_interest(int fd, uint32_t *ev);                     // events asked for, by epoll registration or in the last poll()
bool k_watched(int fd);                                     // is the descriptor registered with an epoll instance or part of the last poll()
extern int k_closed_reg;                                    // descriptors closed while still registered with epoll
void k_idle();
int k_file_size(const char *name); const char *k_file_data(const char *name);
