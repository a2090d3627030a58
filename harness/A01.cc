// The acceptor: what happens to every accepted descriptor, and to the loop when accepting fails.
#include "net.h"
#include "kanon/net/event_loop.h"
#include "kanon/net/acceptor.h"
#include "kanon/net/inet_addr.h"
#include "kanon/log/logger.h"
#include <errno.h>
#include <string.h>
#include <memory>
using namespace kanon;
static EventLoop *L; static Acceptor *A; static int lfd, base, errs, events, lastErr; static bool withCallback = true, spin;
enum { FREE, ACCEPTED, HANDED, CLOSED }; static int state[K_MAXFD]; static int nAccepted, nHanded, nClosed, offered; static bool keepOpen; static int handedFd[16]; static bool v6;
static void onAccept(int fd) { // arbitrary peer
  state[fd] = ACCEPTED; nAccepted++; bool six = v6; KFd &f = k_fd[fd]; memset(&f.peer, 0, sizeof f.peer);
  if (six) { f.peer.sin6_family = AF_INET6; f.peer.sin6_port = (uint16_t)ks_u("port", 16); ks_bytes(&f.peer.sin6_addr, 16, "addr"); f.peer.sin6_flowinfo = ks_u("flow", 32); f.peer.sin6_scope_id = ks_u("scope", 32); }
  else { auto *p = (sockaddr_in *)&f.peer; p->sin_family = AF_INET; p->sin_port = (uint16_t)ks_u("port", 16); p->sin_addr.s_addr = (uint32_t)ks_u("addr", 32); } }
static void onClosed(int fd) { if (state[fd] == ACCEPTED) { state[fd] = CLOSED; nClosed++; } else ks_check(state[fd] != HANDED, "a descriptor handed over is not closed by the acceptor"); }
static void newConn(int fd, InetAddr const &a) {
  ks_check(withCallback, "model"); ks_check(fd >= 0 && fd < k_nfd && k_fd[fd].open && state[fd] == ACCEPTED, "a descriptor is handed over once, and open"); state[fd] = HANDED; handedFd[nHanded++] = fd; KFd &f = k_fd[fd]; ks_check(f.nonblock, "a descriptor handed over doesn't block");
  ks_check(a.IsIpv4() == !v6, "the peer's address is handed over with the descriptor"); auto *s = a.ToSockaddr();
  if (v6) { auto *p = (sockaddr_in6 const *)s; ks_check(p->sin6_family == AF_INET6 && p->sin6_port == f.peer.sin6_port && !memcmp(&p->sin6_addr, &f.peer.sin6_addr, 16) && p->sin6_scope_id == f.peer.sin6_scope_id, "the peer's address is handed over with the descriptor"); }
  else { auto *p = (sockaddr_in const *)s, *q = (sockaddr_in const *)&f.peer; ks_check(p->sin_family == AF_INET && p->sin_port == q->sin_port && p->sin_addr.s_addr == q->sin_addr.s_addr, "the peer's address is handed over with the descriptor"); } }
static bool transient(int e) { return e != EBADF && e != EFAULT && e != EINVAL && e != ENOTSOCK && e != EMFILE && e != ENFILE; }
static int onTry(int fd) { // accept fails with an arbitrary transient error, which may concern the connection accepted or the system
  if (errs <= 0 || !ks_choose(2, "fails")) return 0; errs--; int e = (int)ks_range("errno", 1, 133); ks_assume(transient(e) && e != EAGAIN); if (L->IsEdgeTriggerMode()) ks_assume(e != ENOBUFS && e != ENOMEM);
  bool system = e == ENOBUFS || e == ENOMEM || e == EINTR; if (!system) { if (!k_fd[fd].backlog) return 0; k_fd[fd].backlog--; offered--; } ks_reach("failed"); return e; }
static void onEvent(int, int fd, uint32_t) { if (fd == lfd) { events++; ks_check(events <= 40, "the loop doesn't spin"); } }
static void start(bool poll, bool et, bool six = false) {
  SetKanonLog(false); base = k_open_count; v6 = six; k_on_accept = onAccept; k_accept_hook = onTry; k_on_closed = onClosed; k_on_event = onEvent; sched_deadlock_msg = "pending connections wait for ever"; L = new EventLoop(poll); if (et) L->SetEdgeTriggerMode();
  int before = k_nfd; A = new Acceptor(L, InetAddr(9, false, six)); lfd = -1; for (int i = before; i < k_nfd; i++) if (k_fd[i].open && k_fd[i].kind != K_NULL) lfd = i; ks_check(lfd >= 0 && k_fd[lfd].bound && k_fd[lfd].nonblock, "the acceptor binds its own socket"); if (withCallback) A->SetNewConnectionCallback(newConn);
  ks_check(!A->Listening(), "not listening before it is asked to"); }
static void offer(int n) { offered += n; k_incoming(lfd, n); sched_yield_all(); }
static void check() { ks_check(k_fd[lfd].backlog == 0, "pending connections are accepted"); ks_check(nAccepted == offered, "every connection offered is accepted"); if (withCallback) ks_check(nHanded + nClosed == nAccepted, "an accepted descriptor is handed over or closed"); else ks_check(nHanded == 0 && nClosed == nAccepted, "an accepted descriptor is closed when nobody wants it"); }
static void *(*script)();
static void *driver(void *) { sched_yield_all(); script(); L->Quit(); return nullptr; }
static void run() { A->Listen(); ks_check(A->Listening() && k_fd[lfd].kind == K_LISTEN, "listening after it is asked to"); pthread_t t; pthread_create(&t, nullptr, driver, nullptr); L->StartLoop(); pthread_join(t, nullptr); k_fd_limit = 1 << 20;
  delete A; ks_check(k_closed_reg == 0, "the listening socket is removed from the loop before it is closed"); for (int i = 0; i < nHanded; i++) { ks_check(k_fd[handedFd[i]].open, "a descriptor handed over is not closed by the acceptor"); state[handedFd[i]] = FREE; close(handedFd[i]); } delete L; ks_check(k_open_count == base, "no descriptor is leaked"); ks_reach("end"); }
static bool P() { return ks_choose(2, "poll"); } static bool six() { return ks_choose(2, "ipv6"); }
KS_HARNESS harness_accept() { bool p = P(); bool s6 = six(); start(p, false, s6); script = []() -> void * { offer((int)ks_choose(3, "n")); check(); offer(1); check(); ks_check(nClosed == 0, "a connection is handed over when there is somebody to take it"); return nullptr; }; run(); }
KS_HARNESS harness_accept_edge() { start(false, true, six()); script = []() -> void * { offer(1 + (int)ks_choose(3, "n")); check(); offer(1); check(); ks_check(nClosed == 0, "a connection is handed over when there is somebody to take it"); return nullptr; }; run(); }
KS_HARNESS harness_descriptor_zero() { start(P(), false); withCallback = ks_choose(2, "wanted"); if (!withCallback) A->SetNewConnectionCallback(nullptr); script = []() -> void * { k_next_zero = true; offer(1 + (int)ks_choose(2, "n")); check(); ks_check(state[0] == (withCallback ? HANDED : CLOSED), "a connection whose descriptor is 0 is like any other"); offer(1); check(); return nullptr; }; run(); }
KS_HARNESS harness_nobody() { withCallback = false; start(P(), false); script = []() -> void * { offer(1); check(); offer(2); check(); return nullptr; }; run(); }
KS_HARNESS harness_nobody_edge() { withCallback = false; start(false, true); script = []() -> void * { offer(2); check(); offer(1); check(); return nullptr; }; run(); }
KS_HARNESS harness_transient() { start(P(), false); errs = 2; script = []() -> void * { offer(2); offer(1); check(); ks_check(nClosed == 0, "a connection is handed over when there is somebody to take it"); return nullptr; }; run(); }
KS_HARNESS harness_transient_edge() { start(false, true); errs = 1; script = []() -> void * { offer(2); offer(2); check(); ks_check(nClosed == 0, "a connection is handed over when there is somebody to take it"); return nullptr; }; run(); }
KS_HARNESS harness_unlistened() { start(P(), false); delete A; delete L; ks_check(k_open_count == base, "no descriptor is leaked"); ks_reach("end"); }
KS_HARNESS harness_listen_later() { start(P(), false); script = []() -> void * { offer(1); check(); return nullptr; }; L->QueueToLoop([] { ks_check(events == 0, "nothing is accepted before listening"); }); run(); }
// ---- out of descriptors
static void exhausted(bool poll, bool et) { start(poll, et); script = []() -> void * { offer(1); check(); int handed = nHanded; k_fd_limit = k_open_count; int k = 1 + (int)ks_choose(2, "n"); offer(k); check(); ks_check(nHanded == handed, "model"); k_fd_limit = 1 << 20; offer(1); check(); ks_check(nHanded == handed + 1, "connections are handed over again when there are descriptors again"); k_fd_limit = k_open_count; offer(1); check(); offer(1); check(); return nullptr; }; run(); }
KS_HARNESS harness_exhausted() { exhausted(P(), false); } KS_HARNESS harness_exhausted_edge() { exhausted(false, true); }
KS_HARNESS harness_last() { start(P(), false); script = []() -> void * { k_fd_limit = k_open_count + 1; offer(3); check(); ks_check(nHanded == 1, "a connection is handed over while there are descriptors"); return nullptr; }; run(); }
// another thread takes the descriptor the acceptor has just released
static int thief = -1, thefts; static void onClosedThief(int fd) { onClosed(fd); if (thefts > 0 && k_open_count < k_fd_limit && k_fd[fd].kind == K_NULL && ks_choose(2, "stolen")) { thefts--; thief = k_new(K_FILE); } }
static int onTryGiveBack(int) { if (thief >= 0) { } return 0; }
static void onEventGiveBack(int, int fd, uint32_t) { if (fd != lfd) return; events++; ks_check(events <= 40, "the loop doesn't spin"); if (thief >= 0) { k_fd[thief].open = 0; k_open_count--; thief = -1; } }
KS_HARNESS harness_stolen() { start(P(), false); k_on_closed = onClosedThief; k_on_event = onEventGiveBack; k_accept_hook = onTryGiveBack; thefts = 1; script = []() -> void * { k_fd_limit = k_open_count; offer(2); check(); k_fd_limit = 1 << 20; offer(1); check(); k_fd_limit = k_open_count; offer(2); check(); thefts = 0; if (thief >= 0) { k_fd[thief].open = 0; k_open_count--; thief = -1; } return nullptr; }; run(); }
// the connection that is to be rejected has gone meanwhile
static int goneOnce; static int onTryGone(int fd) { if (goneOnce > 0 && k_fd[fd].backlog && ks_choose(2, "gone")) { goneOnce--; k_fd[fd].backlog--; offered--; return ECONNABORTED; } return 0; }
KS_HARNESS harness_gone() { start(P(), false); k_accept_hook = onTryGone; goneOnce = 2; script = []() -> void * { k_fd_limit = k_open_count; offer(2); check(); k_fd_limit = 1 << 20; offer(1); check(); k_fd_limit = k_open_count; offer(1); check(); return nullptr; }; run(); }
// a system-wide limit behaves like the limit of the process
static int sysErrs; static int onTrySys(int) { if (sysErrs > 0 && ks_choose(2, "fails")) { sysErrs--; return ENFILE; } return 0; }
KS_HARNESS harness_system_limit() { start(P(), false); k_accept_hook = onTrySys; sysErrs = 2; script = []() -> void * { offer(2); check(); offer(1); check(); return nullptr; }; run(); }
