#include "net.h"
#include <errno.h>
#include <string.h>
#include <stdarg.h>
#include <poll.h>
#include <fcntl.h>
#include <time.h>
#include <unistd.h>
#include <sys/time.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/timerfd.h>
#include <sys/socket.h>
KFd k_fd[K_MAXFD]; int k_nfd = 10; int64_t k_now_us = 1700000000LL * 1000000;
void (*k_clock_hook)() = nullptr; int64_t (*k_time_hook)() = nullptr; bool (*k_tod_hook)(struct timeval *) = nullptr; long (*k_io_hook)(int, int, const struct iovec *, int) = nullptr; void (*k_on_write)(int, size_t, const char *, size_t) = nullptr; long (*k_accept_bytes)(int, size_t) = nullptr; long (*k_take_bytes)(int, size_t) = nullptr; bool (*k_on_wait)() = nullptr; void (*k_on_closed)(int) = nullptr;
int (*k_connect_hook)(int, const struct sockaddr *) = nullptr; int (*k_accept_hook)(int) = nullptr; int (*k_socket_hook)() = nullptr; void (*k_on_event)(int, int, uint32_t) = nullptr;
int k_eintr = 0, k_epoll_bad = 0, k_open_count = 0; bool k_auto_timer = true; const char *k_bad_fd_msg = "a system call is given a descriptor that is not open";
struct KReg { int ep, fd; unsigned gen; uint32_t ev; epoll_data_t data; bool on; int seen; bool edge; };
#define MAXREG 64
static KReg R[MAXREG]; static int nR = 0;
static KFd *get(int fd) { if (fd < 0 || fd >= k_nfd || !k_fd[fd].open) { ks_check(false, k_bad_fd_msg); errno = EBADF; return nullptr; } return &k_fd[fd]; }
bool k_next_zero = false; // the next descriptor is 0 (the process has closed its standard input)
int k_new(int kind) { if (k_nfd >= K_MAXFD) ks_incomplete("too many descriptors"); int fd = k_next_zero && !k_fd[0].open ? 0 : k_nfd++; k_next_zero = false; KFd &f = k_fd[fd]; f = KFd(); f.kind = kind; f.open = 1; k_open_count++; return fd; }
int k_sock(const char *in) { int fd = k_new(K_SOCK); k_fd[fd].in = in; k_fd[fd].nonblock = 1; k_fd[fd].connected = true; ((sockaddr_in *)&k_fd[fd].local)->sin_family = AF_INET; ((sockaddr_in *)&k_fd[fd].peer)->sin_family = AF_INET; ((sockaddr_in *)&k_fd[fd].peer)->sin_port = htons(1000 + fd); return fd; }
static void edge(int fd) { k_fd[fd].edges++; }
void k_deliver(int fd, size_t n) { k_fd[fd].in_end += n; edge(fd); }
void k_fin(int fd) { k_fd[fd].fin = true; edge(fd); }
void k_rst(int fd) { k_fd[fd].rst = true; k_fd[fd].so_error = ECONNRESET; k_fd[fd].in_err = ECONNRESET; edge(fd); }
void k_hup(int fd) { k_fd[fd].hup = true; if (k_fd[fd].kind == K_SOCK && k_fd[fd].connected) k_fd[fd].fin = true; edge(fd); }
void k_room(int fd) { if (k_fd[fd].sndfull) { k_fd[fd].sndfull = 0; edge(fd); } }
void k_connect_done(int fd, int err) { k_fd[fd].connecting = false; if (err) k_fd[fd].so_error = err, k_fd[fd].hup = true; else k_fd[fd].connected = true; edge(fd); }
void k_incoming(int fd, int n) { k_fd[fd].backlog += n; edge(fd); }
uint32_t k_ready(int fd) {
  KFd &f = k_fd[fd]; uint32_t r = 0; if (f.forced) return f.force_ev;
  switch (f.kind) {
  case K_EVENT: return (f.counter ? EPOLLIN : 0) | EPOLLOUT;
  case K_TIMER: if (f.armed && f.deadline <= k_now_us) return EPOLLIN; return f.expir ? EPOLLIN : 0;
  case K_LISTEN: return f.backlog ? EPOLLIN : 0;
  case K_FRESH: if (f.connecting) return 0; if (f.so_error || f.hup) return EPOLLOUT | EPOLLERR | EPOLLHUP | EPOLLIN; return EPOLLOUT | EPOLLHUP;
  case K_SOCK:
    if (f.connecting) return 0;
    if (f.in_pos != f.in_end || f.fin || f.in_err) r |= EPOLLIN;
    if (f.fin) r |= EPOLLRDHUP;
    if ((f.fin && f.shut) || f.hup || f.rst) r |= EPOLLHUP | EPOLLIN * (f.rst || f.fin);
    if (f.so_error) r |= EPOLLERR;
    if (f.rst) r |= EPOLLRDHUP | EPOLLIN;
    if (!f.sndfull || f.shut || f.rst || f.hup) r |= EPOLLOUT; return r;
  }
  return 0;
}
static KReg *reg(int ep, int fd) { for (int i = 0; i < nR; i++) if (R[i].on && R[i].ep == ep && R[i].fd == fd) return &R[i]; return nullptr; }
int k_ep_count(int ep) { int n = 0; for (int i = 0; i < nR; i++) if (R[i].on && R[i].ep == ep) n++; return n; }
bool k_ep_get(int ep, int fd, uint32_t *e, void **d) { KReg *r = reg(ep, fd); if (!r) return false; if (e) *e = r->ev; if (d) *d = r->data.ptr; return true; }
static bool regReady(KReg &r) { uint32_t m = k_ready(r.fd) & (r.ev | EPOLLERR | EPOLLHUP); if (!m) return false; if (r.ev & EPOLLET) return r.edge || r.seen != k_fd[r.fd].edges; return true; }
static bool anyReady(int ep) { for (int i = 0; i < nR; i++) if (R[i].on && R[i].ep == ep && regReady(R[i])) return true; return false; }
static bool epPred(void *p) { return anyReady((int)(long)p); }
struct PollWait { struct pollfd *p; unsigned long n; };
static uint32_t pollMask(const struct pollfd &p) { if (p.fd < 0) return 0; if ( p.fd >= k_nfd || !k_fd[p.fd].open) return POLLNVAL; return k_ready(p.fd) & ((uint16_t)p.events | POLLERR | POLLHUP | POLLNVAL); }
static bool pollPred(void *q) { PollWait *w = (PollWait *)q; for (unsigned long i = 0; i < w->n; i++) if (pollMask(w->p[i])) return true; return false; }
void k_idle() { // nothing can run: let the environment act, then let time pass
  for (int g = 0; g < 64; g++) { if (k_on_wait && k_on_wait()) return; break; }
  if (!k_auto_timer) return;
  int b = -1; for (int i = 10; i < k_nfd; i++) if (k_fd[i].open && k_fd[i].kind == K_TIMER && k_fd[i].armed && k_fd[i].deadline > k_now_us && (b < 0 || k_fd[i].deadline < k_fd[b].deadline)) b = i;
  if (b >= 0) k_now_us = k_fd[b].deadline;
}
static int blockOn(bool (*pred)(void *), void *arg, int ms) { // 1 ready, 0 time-out, -1 interrupted
  if (k_eintr > 0 && ks_choose(2, "eintr")) { k_eintr--; errno = EINTR; return -1; }
  if (pred(arg)) return 1;
  if (ms == 0) return 0;
  sched_on_idle = k_idle;
  sched_wait_until(pred, arg, ms > 0); if (sched_timedout()) { k_now_us += (int64_t)ms * 1000; return pred(arg) ? 1 : 0; } return 1;
}
static long take(int fd, KFd &f, const struct iovec *v, int cnt) {
  size_t want = 0; for (int i = 0; i < cnt; i++) want += v[i].iov_len;
  if (f.kind == K_EVENT) { if (!f.counter) { if (!f.nonblock) ks_incomplete("blocking event descriptor"); return -EAGAIN; } if (want < 8) return -EINVAL; memcpy(v[0].iov_base, &f.counter, 8); f.counter = 0; return 8; }
  if (f.kind == K_TIMER) { if (f.armed && f.deadline <= k_now_us) { f.expir++; if (f.interval) f.deadline += f.interval; else f.armed = false; } if (!f.expir) return -EAGAIN; memcpy(v[0].iov_base, &f.expir, 8); f.expir = 0; return 8; }
  if (f.kind != K_SOCK) return -EINVAL;
  size_t av = f.in_end - f.in_pos;
  if (av == 0) { if (f.in_err) { int e = f.in_err; f.in_err = 0; if (f.rst) f.fin = true; f.so_error = 0; return -e; } if (f.fin) return 0; return -EAGAIN; }
  size_t lim = av < want ? av : want, n = lim, done = 0; if (k_take_bytes) { long r = k_take_bytes(fd, lim); if (r < 0) return r; n = (size_t)r; ks_check(n >= 1 && n <= lim, "model: a read returns some of the bytes"); }
  for (int i = 0; i < cnt && done < n; i++) { size_t k = n - done < v[i].iov_len ? n - done : v[i].iov_len; memcpy(v[i].iov_base, f.in + f.in_pos + done, k); done += k; }
  f.in_pos += n; return (long)n;
}
static long give(int fd, KFd &f, const struct iovec *v, int cnt) {
  if (f.kind == K_EVENT) { uint64_t x; memcpy(&x, v[0].iov_base, 8); f.counter += x; edge(fd); return 8; }
  if (f.kind != K_SOCK) return -EINVAL;
  if (cnt > 1024) return -EINVAL;
  if (f.shut || f.rst) { return -EPIPE; }
  size_t want = 0; for (int i = 0; i < cnt; i++) want += v[i].iov_len;
  if (want && f.sndfull) return -EAGAIN;
  long acc = (long)want; if (k_accept_bytes && want) acc = k_accept_bytes(fd, want);
  if (acc < 0) return acc;
  if (acc == 0 && want) { f.sndfull = 1; return -EAGAIN; }
  ks_check((size_t)acc <= want, "model: acceptance within the request"); if ((size_t)acc != want) f.sndfull = 1;
  size_t left = (size_t)acc;
  for (int i = 0; i < cnt && left; i++) { size_t k = left < v[i].iov_len ? left : v[i].iov_len; if (k && k_on_write) k_on_write(fd, f.out_pos, (const char *)v[i].iov_base, k); f.out_pos += k; left -= k; }
  return acc;
}
static long io(int op, int fd, const struct iovec *v, int cnt) {
  if (k_io_hook) { long r = k_io_hook(op, fd, v, cnt); if (r != K_PASS) { if (r < 0) { errno = (int)-r; return -1; } return r; } }
  KFd *f = get(fd); if (!f) return -1; sched_point();
  long r = op == K_READ ? take(fd, *f, v, cnt) : give(fd, *f, v, cnt); if (r < 0) { errno = (int)-r; return -1; } return r;
}
int (*k_sock_hook)(int, const char *) = nullptr; extern int k_closed_reg; int k_fd_limit = 1 << 20; void (*k_on_accept)(int) = nullptr;
extern "C" {
ssize_t env_read(int fd, void *p, size_t n) { struct iovec v = {p, n}; return io(K_READ, fd, &v, 1); }
ssize_t env_readv(int fd, const struct iovec *v, int c) { return io(K_READ, fd, v, c); }
ssize_t env_write(int fd, const void *p, size_t n) { struct iovec v = {(void *)p, n}; return io(K_WRITE, fd, &v, 1); }
ssize_t env_writev(int fd, const struct iovec *v, int c) { return io(K_WRITE, fd, v, c); }
ssize_t env_send(int fd, const void *p, size_t n, int) { return env_write(fd, p, n); } ssize_t env_recv(int fd, void *p, size_t n, int) { return env_read(fd, p, n); }
int env_close(int fd) { KFd *f = get(fd); if (!f) return -1; f->open = 0; k_open_count--; for (int i = 0; i < nR; i++) if (R[i].on && (R[i].fd == fd || R[i].ep == fd)) { R[i].on = false; if (R[i].ep != fd) k_closed_reg++; } if (k_on_closed) k_on_closed(fd); return 0; }
int env_eventfd(unsigned n, int fl) { int fd = k_new(K_EVENT); k_fd[fd].counter = n; k_fd[fd].nonblock = (fl & EFD_NONBLOCK) != 0; k_fd[fd].cloexec = (fl & EFD_CLOEXEC) != 0; return fd; }
int env_timerfd_create(int, int fl) { int fd = k_new(K_TIMER); k_fd[fd].nonblock = (fl & TFD_NONBLOCK) != 0; k_fd[fd].cloexec = (fl & TFD_CLOEXEC) != 0; return fd; }
int env_timerfd_settime(int fd, int fl, const struct itimerspec *v, struct itimerspec *old) {
  KFd *f = get(fd); if (!f) return -1; ks_check(f->kind == K_TIMER, "timerfd_settime on a timer descriptor"); if (old) memset(old, 0, sizeof *old);
  if (v->it_value.tv_nsec < 0 || v->it_value.tv_nsec >= 1000000000 || v->it_value.tv_sec < 0) { ks_check(false, "timerfd_settime is given a valid time"); errno = EINVAL; return -1; }
  f->expir = 0; if (v->it_value.tv_sec == 0 && v->it_value.tv_nsec == 0) { f->armed = false; return 0; }
  int64_t us = (int64_t)v->it_value.tv_sec * 1000000 + (v->it_value.tv_nsec + 999) / 1000; f->armed = true; f->arms++; f->deadline = (fl & TFD_TIMER_ABSTIME) ? us : k_now_us + us; f->interval = (int64_t)v->it_interval.tv_sec * 1000000 + v->it_interval.tv_nsec / 1000; edge(fd); return 0; }
int env_epoll_create1(int fl) { int fd = k_new(K_EPOLL); k_fd[fd].cloexec = (fl & EPOLL_CLOEXEC) != 0; return fd; } int env_epoll_create(int) { return k_new(K_EPOLL); }
int env_epoll_ctl(int ep, int op, int fd, struct epoll_event *e) {
  if (!get(ep)) return -1; KFd *f = get(fd); if (!f) { k_epoll_bad++; return -1; } KReg *r = reg(ep, fd);
  if (op == EPOLL_CTL_ADD) { if (r) { k_epoll_bad++; errno = EEXIST; return -1; } int i = 0; while (i < nR && R[i].on) i++; if (i == nR) { if (nR == MAXREG) ks_incomplete("too many registrations"); nR++; } R[i].ep = ep; R[i].fd = fd; R[i].ev = e->events; R[i].data = e->data; R[i].on = true; R[i].edge = true; R[i].seen = f->edges; return 0; }
  if (!r) { k_epoll_bad++; errno = ENOENT; return -1; }
  if (op == EPOLL_CTL_MOD) { r->ev = e->events; r->data = e->data; r->edge = true; } else if (op == EPOLL_CTL_DEL) r->on = false; else { errno = EINVAL; return -1; }
  return 0;
}
} int k_closed_reg = 0; static int polled[64], nPolled = 0; static uint32_t polledEv[64];
bool k_interest(int fd, uint32_t *ev) { int n = 0; for (int i = 0; i < nR; i++) if (R[i].on && R[i].fd == fd) { n++; *ev = R[i].ev; } for (int i = 0; i < nPolled; i++) if (polled[i] == fd) { n++; *ev = polledEv[i]; } ks_check(n <= 1, "a descriptor is watched once"); return n; }
bool k_watched(int fd) { for (int i = 0; i < nR; i++) if (R[i].on && R[i].fd == fd) return true; for (int i = 0; i < nPolled; i++) if (polled[i] == fd) return true; return false; }
static int rot = 0; extern "C" {
int env_epoll_wait(int ep, struct epoll_event *out, int max, int ms) {
  if (!get(ep)) return -1; if (max <= 0) { ks_check(false, "epoll_wait with room for events"); errno = EINVAL; return -1; }
  sched_point(); int b = blockOn(epPred, (void *)(long)ep, ms); if (b < 0) return -1; if (b == 0) return 0;
  int n = 0, last = -1; for (int k = 0; k < nR && n < max; k++) { int i = (k + rot) % nR; KReg &r = R[i]; if (!r.on || r.ep != ep || !regReady(r)) continue; out[n].events = k_ready(r.fd) & (r.ev | EPOLLERR | EPOLLHUP); out[n].data = r.data; r.edge = false; r.seen = k_fd[r.fd].edges; if (k_on_event) k_on_event(ep, r.fd, out[n].events); n++; last = i; }
  if (n == max) rot = (last + 1) % nR; else rot = 0; return n;
}
int env_poll(struct pollfd *p, nfds_t n, int ms) {
  nPolled = 0; for (nfds_t i = 0; i < n && i < 64; i++) if (p[i].fd >= 0) { polledEv[nPolled] = (uint16_t)p[i].events; polled[nPolled++] = p[i].fd; }
  sched_point(); PollWait w = {p, n}; int b = blockOn(pollPred, &w, ms); if (b < 0) return -1; int c = 0; for (nfds_t i = 0; i < n; i++) { p[i].revents = (short)pollMask(p[i]); if (p[i].revents) { c++; if (k_on_event) k_on_event(-1, p[i].fd, (uint16_t)p[i].revents); } } return c;
}
int env_gettimeofday(struct timeval *t, void *) { if (k_tod_hook && k_tod_hook(t)) return 0; if (k_clock_hook) k_clock_hook(); t->tv_sec = k_now_us / 1000000; t->tv_usec = k_now_us % 1000000; return 0; }
}
bool (*k_clock_ts)(struct timespec *) = nullptr;
extern "C" {
int env_clock_gettime(int, struct timespec *t) { if (k_clock_ts && k_clock_ts(t)) return 0; if (k_clock_hook) k_clock_hook(); t->tv_sec = k_now_us / 1000000; t->tv_nsec = k_now_us % 1000000 * 1000; return 0; }
time_t env_time(time_t *o) { if (k_clock_hook) k_clock_hook(); time_t t = k_time_hook ? (time_t)k_time_hook() : (time_t)(k_now_us / 1000000); if (o) *o = t; return t; }
// ---- sockets
static bool sockFails(int fd, const char *c) { int e = k_sock_hook ? k_sock_hook(fd, c) : 0; if (e) errno = e; return e != 0; }
int env_socket(int domain, int type, int) { if (k_open_count >= k_fd_limit) { errno = EMFILE; return -1; } if (k_socket_hook) { int e = k_socket_hook(); if (e) { errno = e; return -1; } } int fd = k_new(K_FRESH); k_fd[fd].domain = domain; k_fd[fd].type = type & 15; k_fd[fd].cloexec = (type & SOCK_CLOEXEC) != 0; k_fd[fd].nonblock = (type & SOCK_NONBLOCK) != 0; return fd; }
int env_bind(int fd, const struct sockaddr *a, socklen_t n) { KFd *f = get(fd); if (!f) return -1; if (n > sizeof f->local) { errno = EINVAL; return -1; } memcpy(&f->local, a, n); f->localn = n; f->bound = true; return 0; }
int env_listen(int fd, int) { KFd *f = get(fd); if (!f) return -1; ks_check(f->bound, "listening on a bound socket"); f->kind = K_LISTEN; f->listens++; return 0; }
int env_connect(int fd, const struct sockaddr *a, socklen_t n) { KFd *f = get(fd); if (!f) return -1; if (n > sizeof f->peer) { errno = EINVAL; return -1; } memcpy(&f->peer, a, n); f->peern = n; f->kind = K_SOCK; f->connecting = true; int e = k_connect_hook ? k_connect_hook(fd, a) : EINPROGRESS; if (e == 0) { f->connecting = false; f->connected = true; return 0; } if (e != EINPROGRESS && e != EINTR) { f->connecting = false; f->kind = K_FRESH; } errno = e; return -1; }
static int doAccept(int fd, struct sockaddr *a, socklen_t *n, int fl) { KFd *f = get(fd); if (!f) return -1; ks_check(f->kind == K_LISTEN, "accept on a listening socket"); sched_point(); if (k_open_count >= k_fd_limit) { errno = EMFILE; return -1; } if (k_accept_hook) { int e = k_accept_hook(fd); if (e) { errno = e; return -1; } } if (!f->backlog) { if (!f->nonblock) ks_check(false, "accept waits for ever"); errno = EAGAIN; return -1; } f->backlog--; int s = k_sock(nullptr); k_fd[s].nonblock = (fl & SOCK_NONBLOCK) != 0; k_fd[s].cloexec = (fl & SOCK_CLOEXEC) != 0; if (k_on_accept) k_on_accept(s); if (a && n) { socklen_t z = k_fd[s].peer.sin6_family == AF_INET6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in), m = z; if (*n < m) m = *n; memcpy(a, &k_fd[s].peer, m); *n = z; } return s; }
int env_accept(int fd, struct sockaddr *a, socklen_t *n) { return doAccept(fd, a, n, 0); } int env_accept4(int fd, struct sockaddr *a, socklen_t *n, int fl) { return doAccept(fd, a, n, fl); }
int env_shutdown(int fd, int how) { KFd *f = get(fd); if (!f) return -1; if (f->kind != K_SOCK || f->connecting) { errno = ENOTCONN; return -1; } if (how != SHUT_WR) f->shuts_rd++; if (how != SHUT_RD) { if (!f->shut) f->shut_pos = f->out_pos; f->shut++; } edge(fd); return 0; }
int env_getsockopt(int fd, int lv, int o, void *v, socklen_t *n) { KFd *f = get(fd); if (!f) return -1; if (sockFails(fd, "getsockopt")) return -1; (void)n; if (lv == SOL_SOCKET && o == SO_ERROR) { *(int *)v = f->so_error; f->so_error = 0; if (f->rst) { f->in_err = 0; f->fin = true; } return 0; } *(int *)v = 0; return 0; }
int env_setsockopt(int fd, int lv, int o, const void *v, socklen_t n) { KFd *f = get(fd); if (!f) return -1; if (n < sizeof(int)) { errno = EINVAL; return -1; } if (sockFails(fd, "setsockopt")) return -1; if (f->nopts < 8) { auto &x = f->opts[f->nopts++]; x.level = lv; x.opt = o; memcpy(&x.val, v, sizeof(int)); x.afterBind = f->bound; } return 0; }
int env_getsockname(int fd, struct sockaddr *a, socklen_t *n) { KFd *f = get(fd); if (!f) return -1; if (sockFails(fd, "getsockname")) return -1; socklen_t m = f->local.sin6_family == AF_INET6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in); memcpy(a, &f->local, *n < m ? *n : m); *n = m; return 0; }
int env_getpeername(int fd, struct sockaddr *a, socklen_t *n) { KFd *f = get(fd); if (!f) return -1; if (sockFails(fd, "getpeername")) return -1; socklen_t m = f->peer.sin6_family == AF_INET6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in); memcpy(a, &f->peer, *n < m ? *n : m); *n = m; return 0; }
int env_fcntl(int fd, int cmd, int a) { KFd *f = get(fd); if (!f) return -1;  if (cmd == F_GETFL) return f->nonblock ? O_NONBLOCK : 0; if (cmd == F_SETFL) f->nonblock = (a & O_NONBLOCK) != 0; if (cmd == F_GETFD) return f->cloexec ? FD_CLOEXEC : 0; if (cmd == F_SETFD) f->cloexec = (a & FD_CLOEXEC) != 0; return 0; }
int env_open(const char *, int fl, int) { if (k_open_count >= k_fd_limit) { errno = EMFILE; return -1; } int fd = k_new(K_NULL); k_fd[fd].cloexec = (fl & O_CLOEXEC) != 0; return fd; }
}
