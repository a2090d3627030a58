// One real TcpConnection on a real event loop (thread 0) and a driver (another thread) that plays the peer, the kernel and
// the other threads of the application.
#pragma once
#include "net.h"
#include "kanon/net/event_loop.h"
#include "kanon/net/connection/tcp_connection.h"
#include "kanon/net/inet_addr.h"
#include "kanon/log/logger.h"
#include <string.h>
#include <errno.h>
#include <functional>
using namespace kanon;
static char *In;                                       // input stream
static EventLoop *L; static TcpConnectionPtr C; static int FD;
// messages in effective order; one byte of one of them is observed on its way to the socket
static size_t total, pbase, poff, plen; static const char *pmsg; static bool probing; static int nM;
static bool observing = true;
static void commit(const char *p, size_t len) {
  if (observing && !probing && ks_choose(2, "observe")) { probing = true; pmsg = p; pbase = total; plen = len; poff = ks_u("probe", 20); ks_assume(poff < len); }
  nM++; total += len; }
static int accepts; // how often the kernel may still accept less than everything
static size_t partial_max = 1 << 16;
static long acceptBytes(int, size_t want) { if (accepts <= 0 || !ks_choose(2, "short")) return (long)want; accepts--; size_t n = ks_range("accepted", 0, partial_max); ks_assume(n < want); return (long)n; }
static void onWrite(int fd, size_t pos, const char *p, size_t n) {
  ks_check(fd == FD, "bytes are written to the connection's own descriptor"); ks_check(pos + n <= total, "no byte is written that was not sent");
  if (probing && pbase + poff >= pos && pbase + poff < pos + n) { ks_reach("observed"); ks_check(p[pbase + poff - pos] == pmsg[poff], "the byte handed to the socket is the byte of that position in the sent messages"); }
}
enum { RAW, VIEW, BUF, CHUNKS };
static void put(const TcpConnectionPtr &c, int how, const char *p, size_t len) {
  switch (how) {
  case RAW: c->Send(p, len); break;
  case VIEW: c->Send(StringView(p, len)); break;
  case BUF: { Buffer b; b.Append(p, len); c->Send(b); break; }
  default: { ChunkList b; b.Append(p, len); c->Send(b); }
  }
}
static size_t msgmin = 1, msgmax = 300;
static const char *msg(size_t &n) { n = ks_range("len", msgmin, msgmax); return (const char *)ks_lazy(msgmax, "msg"); }
static void sendInLoop(int how) { size_t n; const char *p = msg(n); if (C && C->IsConnected()) { commit(p, n); put(C, how, p, n); } }
static bool strict;                                    // sends of the other thread are due even if the connection has been shut down meanwhile
static void sendCross(int how) { // from the driver thread: takes effect when the loop gets to it
  size_t n; const char *p = msg(n); TcpConnectionPtr c = C; if (!c) return;
  bool must = strict; L->QueueToLoop([c, p, n, must] { if (must || c->IsConnected()) commit(p, n); }); put(c, how, p, n);
}
static int ups, downs, closes, messages, completes; static int onMsg = -1; static bool lastConnected;
static std::function<void(Buffer &)> *inMessage; static std::function<bool()> *onComplete; static std::function<void()> *onUp, *onDown;
static int closedFd; static void onClosed(int fd) { if (fd == FD) closedFd++; }
static bool keepUser = false;
static void build(bool poller, bool et) {
  SetKanonLog(false); In = (char *)ks_lazy(1 << 20, "in");
  k_on_write = onWrite; k_accept_bytes = acceptBytes; k_on_closed = onClosed;
  L = new EventLoop(poller); if (et) L->SetEdgeTriggerMode();
  FD = k_sock(In); C = TcpConnection::NewTcpConnection(L, "conn", FD, InetAddr(1), InetAddr(2));
  C->SetConnectionCallback([](const TcpConnectionPtr &c) {
    if (c->IsConnected()) { ks_check(ups == 0 && downs == 0, "a connection is reported up once, first"); ups++; if (onUp) (*onUp)(); }
    else { ks_check(ups == 1 && downs == 0, "a connection is reported down once, after being up"); downs++; if (onDown) (*onDown)(); } });
  C->SetMessageCallback([](const TcpConnectionPtr &, Buffer &b, TimeStamp) { ks_check(ups == 1 && downs == 0, "messages arrive between up and down"); messages++; if (inMessage) (*inMessage)(b); else b.AdvanceAll(); });
  C->SetCloseCallback([](const TcpConnectionPtr &c) { closes++; ks_check(closes == 1 && downs == 1, "the close notification comes once, after down"); L->QueueToLoop(std::bind(&TcpConnection::ConnectionDestroyed, c)); if (!keepUser) C.reset(); });
}
static void (*script)();
static void *driver(void *) { script(); return nullptr; }
static void settle() { for (int i = 0; i < 40; i++) { sched_yield_all(); if (!k_fd[FD].open || !k_fd[FD].sndfull) break; k_room(FD); } ks_check(!k_fd[FD].open || !k_fd[FD].sndfull, "model: settled"); sched_yield_all(); }
static void go() { // runs the loop in this thread and the script in another
  C->ConnectionEstablished(); pthread_t t; pthread_create(&t, nullptr, driver, nullptr);
  L->StartLoop(); pthread_join(t, nullptr);
}
static void finish() { // end of script: force the connection down and stop the loop
  if (C) { TcpConnectionPtr c = C; c->ForceClose(); c.reset(); } settle(); C.reset(); settle(); L->Quit(); }
static void after() { ks_check(ups == 1 && downs == 1 && closes == 1, "up, down and close are reported once each"); ks_check(closedFd == 1, "the descriptor is closed exactly once"); delete L; }
