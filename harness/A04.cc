// The socket layer: modes of new descriptors, options, addresses, errors and the direction of a shutdown.
#include "net.h"
#include "kanon/net/event_loop.h"
#include "kanon/net/acceptor.h"
#include "kanon/net/socket.h"
#include "kanon/net/sock_api.h"
#include "kanon/net/inet_addr.h"
#include "kanon/net/connection/tcp_connection.h"
#include "kanon/log/logger.h"
#include <netinet/tcp.h>
#include <errno.h>
#include <string.h>
using namespace kanon;
static int others[2]; static KFd saved[2];
static void bystanders() { SetKanonLog(false); for (int i = 0; i < 2; i++) { others[i] = k_sock(nullptr); saved[i] = k_fd[others[i]]; } }
static void untouched() { for (int i = 0; i < 2; i++) { KFd &f = k_fd[others[i]], &s = saved[i]; ks_check(f.open && f.nopts == 0 && f.shut == 0 && f.shuts_rd == 0 && f.nonblock == s.nonblock && f.cloexec == s.cloexec && f.localn == 0 && f.peern == 0 && f.listens == 0, "no other descriptor is touched"); } ks_reach("end"); }
static bool flag() { return ks_choose(2, "flag"); }
static void addr(sockaddr_in6 &a, bool six, const char *n) {
  memset(&a, 0, sizeof a);
  if (six) { a.sin6_family = AF_INET6; a.sin6_port = (uint16_t)ks_u(n, 16); ks_bytes(&a.sin6_addr, 16, n); a.sin6_flowinfo = (uint32_t)ks_u(n, 32); a.sin6_scope_id = (uint32_t)ks_u(n, 32); }
  else { auto *p = (sockaddr_in *)&a; p->sin_family = AF_INET; p->sin_port = (uint16_t)ks_u(n, 16); p->sin_addr.s_addr = (uint32_t)ks_u(n, 32); } }
static bool same(const sockaddr_in6 &x, const sockaddr_in6 &y) { return !memcmp(&x, &y, x.sin6_family == AF_INET6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in)); }
static bool sameEnd(const sockaddr_in6 &x, const sockaddr_in6 &y) { // address and port
  if (x.sin6_family == AF_INET) { auto *p = (const sockaddr_in *)&x, *q = (const sockaddr_in *)&y; return p->sin_port == q->sin_port && p->sin_addr.s_addr == q->sin_addr.s_addr; }
  return x.sin6_port == y.sin6_port && !memcmp(&x.sin6_addr, &y.sin6_addr, 16); }
// ---- new descriptors
KS_HARNESS harness_create() { bystanders(); bool six = flag(); bool nb = flag(); k_next_zero = flag(); if (k_next_zero) ks_reach("zero"); int fd = nb ? sock::CreateNonBlockAndCloExecSocket(six) : sock::CreateSocket(six); KFd &f = k_fd[fd];
  ks_check(fd >= 0 && f.open && f.domain == (six ? AF_INET6 : AF_INET) && f.type == SOCK_STREAM, "a new socket is a stream socket of the family asked for"); if (nb) ks_check(f.nonblock && f.cloexec, "a non-blocking socket doesn't block and isn't inherited by other programs"); else ks_check(!f.nonblock, "a plain socket blocks"); untouched(); }
KS_HARNESS harness_modes() { bystanders(); int fd = sock::CreateSocket(flag()); k_fd[fd].nonblock = flag(); sock::SetNonBlockAndCloExec(fd); ks_check(k_fd[fd].nonblock && k_fd[fd].cloexec, "the descriptor doesn't block and isn't inherited by other programs afterwards"); untouched(); }
KS_HARNESS harness_accepted() { bystanders(); bool six = flag(); int l = sock::CreateNonBlockAndCloExecSocket(six); sockaddr_in6 a; addr(a, six, "local"); sock::Bind(l, sock::to_sockaddr(&a)); sock::Listen(l); k_incoming(l, 1);
  static sockaddr_in6 peer; addr(peer, six, "peer"); k_on_accept = [](int fd) { k_fd[fd].peer = peer; }; InetAddr got; bool wrap = flag(); int fd; sockaddr_in6 g; memset(&g, 0, sizeof g); { if (wrap) { Socket s(l); fd = s.Accpet(got); memcpy(&g, got.ToSockaddr(), six ? sizeof(sockaddr_in6) : sizeof(sockaddr_in)); } else fd = sock::Accept(l, &g); }
  ks_check(fd >= 0 && k_fd[fd].open && k_fd[fd].nonblock && k_fd[fd].cloexec, "an accepted socket doesn't block and isn't inherited by other programs"); ks_check(same(peer, g), "the address of the peer is returned with an accepted socket"); ks_check((k_fd[l].open == 1) == !wrap, "a socket object closes its descriptor at its end, and not before"); untouched(); }
KS_HARNESS harness_refused() { bystanders(); int l = sock::CreateNonBlockAndCloExecSocket(false); sockaddr_in6 a; addr(a, false, "local"); sock::Bind(l, sock::to_sockaddr(&a)); sock::Listen(l); static int e; e = (int)ks_range("errno", 1, 133); ks_assume(e != EBADF && e != EFAULT && e != EINVAL && e != ENOTSOCK); k_accept_hook = [](int) { return e; };
  sockaddr_in6 g; ks_check(sock::Accept(l, &g) < 0 && errno == e, "a failed accept reports its reason"); untouched(); }
KS_HARNESS harness_loop_fds() { bystanders(); bool poll = flag(); int before = k_nfd; EventLoop *l = new EventLoop(poll); int n = 0; for (int i = before; i < k_nfd; i++) if (k_fd[i].open) { n++; ks_check(k_fd[i].cloexec, "the loop's own descriptors aren't inherited by other programs"); if (k_fd[i].kind != K_EPOLL) ks_check(k_fd[i].nonblock, "the loop's own descriptors don't block"); } ks_check(n >= 2, "model: the loop has descriptors"); delete l; for (int i = before; i < k_nfd; i++) ks_check(!k_fd[i].open, "a loop closes its descriptors"); untouched(); }
KS_HARNESS harness_acceptor() { bystanders(); bool reuse = flag(); bool six = flag(); EventLoop *l = new EventLoop(flag()); int before = k_nfd; sockaddr_in6 a; addr(a, six, "local"); InetAddr ia = six ? InetAddr(a) : InetAddr(*(sockaddr_in *)&a); Acceptor *A = new Acceptor(l, ia, reuse); A->Listen();
  int n = 0; for (int i = before; i < k_nfd; i++) if (k_fd[i].open) { KFd &f = k_fd[i]; ks_check(f.cloexec, "a server's own descriptors aren't inherited by other programs"); if (f.kind == K_NULL) continue; n++;
    ks_check(f.kind == K_LISTEN && f.listens == 1 && f.nonblock && f.domain == (six ? AF_INET6 : AF_INET) && f.type == SOCK_STREAM, "the acceptor listens on a non-blocking stream socket of its address's family"); ks_check(f.localn == (six ? sizeof(sockaddr_in6) : sizeof(sockaddr_in)) && same(a, f.local), "the acceptor is bound to its address");
    int ra = 0, rp = 0; for (int k = 0; k < f.nopts; k++) { auto &o = f.opts[k]; ks_check(o.level == SOL_SOCKET && (o.opt == SO_REUSEADDR || o.opt == SO_REUSEPORT), "the acceptor sets no option but the two for reuse"); ks_check(!o.afterBind, "options for reuse are set before the address is bound"); if (o.opt == SO_REUSEADDR) ra = o.val; else rp = o.val; }
    ks_check(ra != 0, "an acceptor may reuse its address at once"); ks_check((rp != 0) == reuse, "an acceptor shares its port exactly if it was asked to"); }
  ks_check(n == 1, "an acceptor has one listening socket"); delete A; delete l; untouched(); }
// ---- options: the option named, on the socket named, with the value given
enum { REUSEADDR, REUSEPORT, NODELAY, KEEPALIVE }; static const int LV[] = {SOL_SOCKET, SOL_SOCKET, IPPROTO_TCP, SOL_SOCKET}, OP[] = {SO_REUSEADDR, SO_REUSEPORT, TCP_NODELAY, SO_KEEPALIVE};
static void expect(int fd, int n, int which, bool on) { KFd &f = k_fd[fd]; ks_check(f.nopts == n, "exactly one option is set by a call"); auto &o = f.opts[n - 1]; ks_check(o.level == LV[which] && o.opt == OP[which], "the option named is the one set"); ks_check((o.val != 0) == on, "the option is set to the value given"); }
KS_HARNESS harness_options() { bystanders(); int fd = k_sock(nullptr);
  for (int i = 1; i <= 2; i++) { unsigned w = ks_choose(4, "option"); int v = (int)ks_u("value", 32); switch (w) { case REUSEADDR: sock::SetReuseAddr(fd, v); break; case REUSEPORT: sock::SetReusePort(fd, v); break; case NODELAY: sock::SetNoDelay(fd, v); break; default: sock::SetKeepAlive(fd, v); } expect(fd, i, (int)w, v != 0); } untouched(); }
KS_HARNESS harness_socket_options() { bystanders(); int fd = k_sock(nullptr); { Socket s(fd); ks_check(s.GetFd() == fd, "a socket object keeps its descriptor");
    for (int i = 1; i <= 2; i++) { unsigned w = ks_choose(4, "option"); bool v = flag(); switch (w) { case REUSEADDR: s.SetReuseAddr(v); break; case REUSEPORT: s.SetReusePort(v); break; case NODELAY: s.SetNoDelay(v); break; default: s.SetKeepAlive(v); } expect(fd, i, (int)w, v); } } ks_check(!k_fd[fd].open, "a socket object closes its descriptor at its end"); untouched(); }
KS_HARNESS harness_connection() { bystanders(); EventLoop *l = new EventLoop(flag()); bool six = flag(); sockaddr_in6 a, b; addr(a, six, "local"); addr(b, six, "peer"); InetAddr la = six ? InetAddr(a) : InetAddr(*(sockaddr_in *)&a), pa = six ? InetAddr(b) : InetAddr(*(sockaddr_in *)&b);
  int fd = k_sock(nullptr); auto c = TcpConnection::NewTcpConnection(l, "some", fd, la, pa); c->SetConnectionCallback([](const TcpConnectionPtr &) {}); int base = k_fd[fd].nopts; c->ConnectionEstablished(); base = k_fd[fd].nopts;
  ks_check(!memcmp(c->GetLocalAddr().ToSockaddr(), &a, six ? sizeof(sockaddr_in6) : sizeof(sockaddr_in)) && !memcmp(c->GetPeerAddr().ToSockaddr(), &b, six ? sizeof(sockaddr_in6) : sizeof(sockaddr_in)), "a connection keeps its two addresses"); ks_check(c->GetName() == "some" && c->GetLoop() == l, "a connection keeps its name and loop");
  for (int i = 1; i <= 2; i++) { bool nd = flag(); bool v = flag(); if (nd) c->SetNoDelay(v); else c->SetKeepAlive(v); expect(fd, base + i, nd ? NODELAY : KEEPALIVE, v); }
  c->ForceClose(); c->ConnectionDestroyed(); c.reset(); ks_check(!k_fd[fd].open, "the descriptor is closed with the connection"); delete l; untouched(); }
// ---- a refused option changes nothing and is no disaster
KS_HARNESS harness_option_refused() { bystanders(); int fd = k_sock(nullptr); static int e; e = (int)ks_range("errno", 1, 133); k_sock_hook = [](int, const char *) { return e; }; switch (ks_choose(4, "option")) { case 0: sock::SetReuseAddr(fd, 1); break; case 1: sock::SetReusePort(fd, 1); break; case 2: sock::SetNoDelay(fd, 1); break; default: sock::SetKeepAlive(fd, 1); } ks_check(k_fd[fd].open && k_fd[fd].nopts == 0, "a refused option leaves the socket usable"); untouched(); }
// ---- errors and addresses
KS_HARNESS harness_error() { bystanders(); int fd = k_sock(nullptr); int e = (int)ks_u("error", 32); ks_assume(e >= 0); k_fd[fd].so_error = e; static int fail; fail = 0; if (ks_choose(2, "fails")) { fail = (int)ks_range("errno", 1, 133); k_sock_hook = [](int, const char *) { return fail; }; }
  int r = sock::GetSocketError(fd); ks_check(r == (fail ? fail : e), "the pending error of the socket is reported, or why it can't be told"); untouched(); }
KS_HARNESS harness_addresses() { bystanders(); int fd = k_sock(nullptr); bool six = flag(); addr(k_fd[fd].local, six, "local"); addr(k_fd[fd].peer, six, "peer"); sockaddr_in6 l = sock::GetLocalAddr(fd), p = sock::GetPeerAddr(fd); ks_check(same(k_fd[fd].local, l), "the local address is the socket's own"); ks_check(same(k_fd[fd].peer, p), "the peer's address is the socket's peer"); untouched(); }
static bool noLocal, noPeer; static int nameHook(int, const char *c) { if (noLocal && !strcmp(c, "getsockname")) return ENOTCONN; if (noPeer && !strcmp(c, "getpeername")) return ENOTCONN; return 0; }
KS_HARNESS harness_self() { bystanders(); int fd = k_sock(nullptr); bool six = flag(); addr(k_fd[fd].local, six, "local"); addr(k_fd[fd].peer, six, "peer"); noLocal = flag(); noPeer = flag(); k_sock_hook = nameHook; bool r = sock::IsSelfConnect(fd);
  if (noLocal || noPeer) { ks_reach("unknown"); ks_check(!r, "a socket without both addresses isn't connected to itself"); } else { bool s = sameEnd(k_fd[fd].local, k_fd[fd].peer); if (s) ks_reach("self"); ks_check(r == s, "a socket is connected to itself exactly if both ends have the same address and port"); } untouched(); }
KS_HARNESS harness_bind() { bystanders(); bool six = flag(); int fd = sock::CreateSocket(six); sockaddr_in6 a; addr(a, six, "local"); bool wrap = flag(); if (wrap) { InetAddr ia = six ? InetAddr(a) : InetAddr(*(sockaddr_in *)&a); Socket s(fd); s.BindAddress(ia); ks_check(k_fd[fd].open, "binding doesn't close"); } else sock::Bind(fd, sock::to_sockaddr(&a)); KFd &f = k_fd[fd]; ks_check(f.bound && f.localn == (six ? sizeof(sockaddr_in6) : sizeof(sockaddr_in)) && same(a, f.local), "a socket is bound to the address given"); untouched(); }
KS_HARNESS harness_connect() { bystanders(); bool six = flag(); int fd = sock::CreateNonBlockAndCloExecSocket(six); sockaddr_in6 a; addr(a, six, "peer"); static int e; e = (int)ks_range("errno", 0, 133); k_connect_hook = [](int, const sockaddr *) { return e; }; int r = sock::Connect(fd, sock::to_sockaddr(&a)); int got = errno; KFd &f = k_fd[fd]; ks_check((r == 0) == (e == 0) && (r == 0 || got == e), "the outcome of connecting is reported"); ks_check(f.peern == (six ? sizeof(sockaddr_in6) : sizeof(sockaddr_in)) && same(a, f.peer), "a socket is connected to the address given"); untouched(); }
// ---- closing and shutting down
KS_HARNESS harness_close() { bystanders(); int fd = k_sock(nullptr); KFd &f = k_fd[fd]; bool wrap = flag(); switch (ks_choose(3, "how")) {
  case 0: if (wrap) { Socket s(fd); s.ShutdownWrite(); ks_check(f.open && f.shut == 1 && f.shuts_rd == 0, "the writing direction alone is shut down"); } else { ks_check(sock::ShutdownWrite(fd) == 0 && f.open && f.shut == 1 && f.shuts_rd == 0, "the writing direction alone is shut down"); sock::Close(fd); } break;
  case 1: if (wrap) { Socket s(fd); s.ShutdownTwoDirection(); ks_check(f.open && f.shut == 1 && f.shuts_rd == 1, "both directions are shut down"); } else { ks_check(sock::ShutdownTwoDirection(fd) == 0 && f.open && f.shut == 1 && f.shuts_rd == 1, "both directions are shut down"); sock::Close(fd); } break;
  default: if (wrap) { Socket s(fd); } else sock::Close(fd); ks_check(f.shut == 0, "closing doesn't shut down"); }
  ks_check(!f.open, "the descriptor is closed"); untouched(); }
static const char *Data; KS_HARNESS harness_io() { bystanders(); Data = (const char *)ks_lazy(64, "in"); int fd = k_sock(Data); size_t n = ks_range("size", 1, 64), m = ks_range("room", 1, 64); k_deliver(fd, n); char b[64]; isize r = sock::Read(fd, b, m); ks_check(r == (isize)(n < m ? n : m), "a read returns what is there and fits"); size_t i = ks_u("i", 6); ks_assume(i < (size_t)r); ks_check(b[i] == Data[i], "a read returns the bytes in order");
  static const char *src; src = (const char *)ks_lazy(64, "out"); static size_t got; got = 0; k_on_write = [](int, size_t, const char *p, size_t k) { got += k; ks_check(p == src, "the bytes given are written"); }; isize w = sock::Write(fd, src, m); ks_check(w == (isize)m && got == m, "a write passes on all bytes given"); untouched(); }
