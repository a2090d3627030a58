// The TCP server: its table of live connections, the loops they are given to, and its destruction.
#include "net.h"
#include "kanon/net/event_loop.h"
#include "kanon/net/tcp_server.h"
#include "kanon/net/connection/tcp_connection.h"
#include "kanon/net/inet_addr.h"
#include "kanon/log/logger.h"
#include <errno.h>
#include <string.h>
#include <memory>
#include <string>
using namespace kanon;
#ifndef STEPS
#define STEPS 3
#endif
#ifndef P
#define P 2
#endif
struct Rec { int fd, ups, downs, msgs; uint32_t addr; size_t pos; bool gone; std::string name; std::weak_ptr<TcpConnection> w; };
static Rec rec[8]; static int nRec; static EventLoop *L, *loops[4]; static int loopTid[4], nLoops, inits; static TcpServer *S; static int lfd, base; static char *In; static bool inMsgClose, upClose, holdUser; static TcpConnectionPtr held;
static void onAccept(int fd) { KFd &f = k_fd[fd]; memset(&f.peer, 0, sizeof f.peer); auto *p = (sockaddr_in *)&f.peer; p->sin_family = AF_INET; p->sin_port = htons((uint16_t)(1000 + nRec)); p->sin_addr.s_addr = (uint32_t)ks_u("addr", 32); f.in = In; ks_check(nRec < 8, "model: connections"); rec[nRec].addr = p->sin_addr.s_addr; rec[nRec++].fd = fd; }
static void onClosed(int fd) { for (int i = 0; i < nRec; i++) if (rec[i].fd == fd) { ks_check(rec[i].ups == 0 || rec[i].downs == 1, "a connection's descriptor is closed after it is reported down"); rec[i].fd = -1; } }
static int indexOf(const TcpConnectionPtr &c) { int i = c->GetPeerAddr().GetPort() - 1000; ks_check(i >= 0 && i < nRec, "the peer's address is the connection's"); return i; }
static void onConn(const TcpConnectionPtr &c) {
  int i = indexOf(c); Rec &r = rec[i]; EventLoop *l = nLoops ? loops[i % nLoops] : L; ks_check(c->GetLoop() == l, "connections are assigned to the loops in turn"); ks_check(l->IsLoopInThread(), "a connection's callbacks run in its loop's thread");
  if (c->IsConnected()) { ks_check(r.ups == 0 && r.downs == 0, "a connection is reported up once, first"); r.ups++; auto *sa = (sockaddr_in const *)c->GetPeerAddr().ToSockaddr(); ks_check(sa->sin_family == AF_INET && sa->sin_addr.s_addr == r.addr, "the peer's address is the connection's"); r.name = c->GetName(); r.w = c; ks_check(r.name.compare(0, 3, "srv") == 0, "a connection's name starts with its server's"); for (int j = 0; j < nRec; j++) if (j != i && rec[j].ups) ks_check(rec[j].name != r.name, "connections have distinct names"); if (upClose) c->ForceClose(); }
  else { ks_check(r.ups == 1 && r.downs == 0, "a connection is reported down once, after being up"); r.downs++; r.gone = true; } }
static void onMsg(const TcpConnectionPtr &c, Buffer &b, TimeStamp) { Rec &r = rec[indexOf(c)]; ks_check(r.ups == 1 && r.downs == 0, "messages arrive between up and down"); r.msgs++; size_t n = b.GetReadableSize(), k = ks_u("at", 8); ks_assume(k < n); ks_check(b.GetReadBegin()[k] == In[r.pos + k], "a connection receives its own bytes"); r.pos += n; b.AdvanceAll(); if (inMsgClose) c->ForceClose(); }
static void init(EventLoop *l) { ks_check(l->IsLoopInThread(), "the set-up callback runs in the loop's thread"); if (nLoops == 0) ks_check(l == L, "the set-up callback is given the base loop"); else { ks_check(inits < nLoops && l != L, "the set-up callback runs once for each loop"); loops[inits] = l; loopTid[inits] = ks_self(); } inits++; }
static void make(int n, bool poll = false, bool et = false) {
  SetKanonLog(false); base = k_open_count; In = (char *)ks_lazy(1 << 16, "in"); k_on_accept = onAccept; k_on_closed = onClosed; sched_deadlock_msg = "the server's threads wait for ever"; L = new EventLoop(poll); if (et) L->SetEdgeTriggerMode();
  int before = k_nfd; S = new TcpServer(L, InetAddr(9), "srv"); for (int i = before; i < k_nfd; i++) if (k_fd[i].open && k_fd[i].kind != K_NULL) lfd = i; nLoops = n; S->SetLoopNum(n); S->SetThreadInitCallback(init); S->SetConnectionCallback(onConn); S->SetMessageCallback(onMsg); ks_check(!S->IsRunning() && S->GetLoop() == L, "not running before it is started"); }
static void incoming(int n) { k_incoming(lfd, n); }
static void table() { int live = 0; for (int i = 0; i < nRec; i++) if (!rec[i].gone) live++; int n = 0; for (auto it = S->ConnBegin(); it != S->ConnEnd(); ++it) { n++; const TcpConnectionPtr &c = it->second; int i = indexOf(c); ks_check(!rec[i].gone && rec[i].ups == 1, "the server holds exactly its live connections"); ks_check(it->first == c->GetName(), "the server holds a connection by its name"); } ks_check(n == live, "the server holds exactly its live connections");
  int seen = 0; S->ApplyAllPeers([&](const TcpConnectionPtr &c) { ks_check(!rec[indexOf(c)].gone, "only live connections are applied to"); seen++; }); ks_check(seen == live, "every live connection is applied to");
  for (int i = 0; i < nRec; i++) if (rec[i].gone) { ks_check(rec[i].w.expired() && rec[i].fd == -1, "a connection that is closed is dropped with its descriptor"); } }
enum { ACCEPT, FIN, RST, FORCE, MSG, NACT };
static TcpConnectionPtr get(int i) { return rec[i].w.lock(); }
static int pick() { int live[8], n = 0; for (int i = 0; i < nRec; i++) if (!rec[i].gone) live[n++] = i; if (!n) return -1; return live[n > 1 ? ks_choose(n, "which") : 0]; }
static void act(int a) { if (a == ACCEPT) { incoming(1); return; } int i = pick(); if (i < 0) { ks_assume(false); return; }
  switch (a) { case FIN: k_fin(rec[i].fd); break; case RST: k_rst(rec[i].fd); break; case FORCE: { auto c = get(i); c->ForceClose(); break; } default: inMsgClose = true; k_deliver(rec[i].fd, ks_range("bytes", 1, 100)); } }
static void (*script)(); static void *driver(void *) { script(); L->Quit(); return nullptr; }
static void settle() { for (int i = 0; i < 4; i++) sched_yield_all(); }
static void ended() { settle(); for (int i = 0; i < nRec; i++) { Rec &r = rec[i]; ks_check(r.ups == 1 && r.downs == 1, "every connection is reported up once and down once"); ks_check(r.w.expired(), "no connection outlives the server"); ks_check(r.fd == -1, "no connection's descriptor outlives the server"); } delete L; ks_check(k_open_count == base, "no descriptor outlives the server"); for (int i = 1; i < sched_count(); i++) ks_check(sched_done(i), "no thread outlives the server"); ks_reach("end"); }
static bool destroyInLoop; 
static void finish() { pthread_t t; pthread_create(&t, nullptr, driver, nullptr); L->StartLoop(); pthread_join(t, nullptr); if (!destroyInLoop) delete S; if (holdUser) { ks_check(!held || !held->IsConnected(), "a connection the user holds is down after the server's end"); held.reset(); } ended(); }
static void history(int n) { make(n, n == 0 && ks_choose(2, "poll")); if (ks_choose(2, "pool")) { ks_reach("pool"); S->EnablePool(true); S->SetChunkPerBlock(2); } destroyInLoop = ks_choose(2, "destroy-in-loop"); S->StartRun(); script = [] { sched_yield_all(); ks_check(S->IsRunning() && inits == (nLoops ? nLoops : 1), "the server runs after being started"); for (int i = 0; i < STEPS; i++) { act(i == 0 ? ACCEPT : ks_choose(NACT, "act")); if (i == STEPS - 1 || ks_choose(2, "settle")) { settle(); table(); inMsgClose = false; } } if (destroyInLoop) { L->QueueToLoop([] { delete S; S = nullptr; }); settle(); } }; finish(); }
KS_HARNESS harness_history() { history(0); }
KS_HARNESS harness_history_loops() { history(2); }
KS_HARNESS harness_round_robin() { make(3); S->StartRun(); script = [] { sched_yield_all(); incoming(2); settle(); incoming(1); settle(); table(); k_fin(rec[0].fd); settle(); incoming(2); incoming(1); settle(); table(); ks_check(nRec == 6, "every connection is accepted"); }; finish(); }
KS_HARNESS harness_edge() { make(0, false, true); S->StartRun(); script = [] { sched_yield_all(); incoming(3); settle(); table(); ks_check(nRec == 3, "every connection is accepted"); act(1 + ks_choose(NACT - 1, "act")); settle(); table(); }; finish(); }
// ---- start
KS_HARNESS harness_start_twice() { make((int)ks_choose(2, "loops")); S->StartRun(); S->StartRun(); ks_check(S->IsRunning(), "the server runs after being started"); script = [] { S->StartRun(); settle(); ks_check(S->IsRunning() && inits == 1, "starting again has no effect"); incoming(1); settle(); table(); }; finish(); }
KS_HARNESS harness_start_elsewhere() { make((int)ks_choose(2, "loops")); script = [] { S->StartRun(); S->StartRun(); settle(); ks_check(S->IsRunning() && inits == 1, "starting again has no effect"); incoming(2); settle(); table(); }; finish(); }
static void *starter(void *) { S->StartRun(); return nullptr; }
KS_HARNESS harness_start_race() { make((int)ks_choose(2, "loops")); sched_preempt = P - 1; script = [] { pthread_t a, b; pthread_create(&a, nullptr, starter, nullptr); pthread_create(&b, nullptr, starter, nullptr); pthread_join(a, nullptr); pthread_join(b, nullptr); settle(); sched_preempt = 0; ks_check(S->IsRunning() && inits == 1, "starting twice at the same time starts once"); incoming(1); settle(); table(); }; finish(); }
KS_HARNESS harness_no_callbacks() { make(1); S->SetThreadInitCallback(nullptr); nLoops = 0; S->SetConnectionCallback(DefaultConnectionCallback); S->SetMessageCallback([](const TcpConnectionPtr &, Buffer &b, TimeStamp) { ks_check(b.GetReadableSize() == 3, "messages arrive"); b.AdvanceAll(); }); S->StartRun(); script = [] { incoming(1); settle(); int n = 0; for (auto it = S->ConnBegin(); it != S->ConnEnd(); ++it) n++; ks_check(n == 1, "the server holds exactly its live connections"); k_deliver(rec[0].fd, 3); settle(); k_fin(rec[0].fd); settle(); ks_check(S->ConnBegin() == S->ConnEnd() && rec[0].fd == -1, "a connection that is closed is dropped with its descriptor"); nRec = 0; }; finish(); }
static int completes, completedBy;
KS_HARNESS harness_answers() { int n = (int)ks_choose(3, "loops"); make(n); bool pool = ks_choose(2, "pool"); S->EnablePool(pool); S->SetWriteCompleteCallback([](const TcpConnectionPtr &c) { completes++; completedBy = indexOf(c); return true; }); S->StartRun(); script = [] { sched_yield_all(); incoming(2); settle(); for (int i = 0; i < 2; i++) { auto c = get(i); c->Send("answer", 6); c.reset(); settle(); ks_check(k_fd[rec[i].fd].out_pos == 6, "what is sent on a connection goes to its peer"); ks_check(completes == i + 1 && completedBy == i, "every connection has the user's callbacks"); } table(); }; finish(); }
// ---- closes from everywhere
KS_HARNESS harness_close_all() { make((int)ks_choose(2, "loops")); bool pool = ks_choose(2, "pool"); S->EnablePool(pool); S->StartRun(); script = [] { sched_yield_all(); incoming(2); settle(); table(); auto f = [](const TcpConnectionPtr &c) { c->ForceClose(); }; if (ks_choose(2, "where")) { ks_reach("in-loop"); L->QueueToLoop([f] { S->ApplyAllPeers(f); }); } else S->ApplyAllPeers(f); settle(); table(); ks_check(S->ConnBegin() == S->ConnEnd(), "a connection that is closed is dropped"); incoming(1); settle(); table(); }; finish(); }
KS_HARNESS harness_up_close() { make((int)ks_choose(2, "loops")); upClose = true; S->StartRun(); script = [] { sched_yield_all(); incoming(2); settle(); ks_check(nRec == 2, "every connection is accepted"); table(); upClose = false; incoming(1); settle(); table(); }; finish(); }
KS_HARNESS harness_shutdown() { make((int)ks_choose(2, "loops")); S->StartRun(); script = [] { sched_yield_all(); incoming(2); settle(); int i = ks_choose(2, "which"); auto c = get(i); c->ShutdownWrite(); c.reset(); settle(); table(); ks_check(k_fd[rec[i].fd].shut, "a half-closed connection stays until the peer closes"); k_fin(rec[i].fd); settle(); table(); }; finish(); }
KS_HARNESS harness_user_holds() { make((int)ks_choose(2, "loops")); bool pool = ks_choose(2, "pool"); S->EnablePool(pool); holdUser = true; S->StartRun(); script = [] { sched_yield_all(); incoming(2); settle(); held = get(ks_choose(2, "which")); incoming(1); settle(); }; finish(); }
// ---- the server's end while connections come and go in other threads
static void race(int what) { make(1); bool pool = ks_choose(2, "pool"); S->EnablePool(pool); S->StartRun(); pthread_t t; script = nullptr; lfd = lfd;
  static int w; w = what; script = [] { sched_yield_all(); incoming(1); settle(); if (w == 3) { incoming(1); settle(); } }; pthread_create(&t, nullptr, driver, nullptr); L->StartLoop(); pthread_join(t, nullptr); 
  switch (what) { case 0: k_fin(rec[0].fd); break; case 1: { auto c = get(0); sched_preempt = P; c->ForceClose(); break; } case 2: inMsgClose = true; k_deliver(rec[0].fd, 2); break; case 3: k_fin(rec[0].fd); k_rst(rec[1].fd); break; default: ; }
  sched_preempt = P; delete S; sched_preempt = 0; ended(); }
KS_HARNESS harness_race_fin() { race(0); } KS_HARNESS harness_race_force() { race(1); } KS_HARNESS harness_race_msg() { race(2); } KS_HARNESS harness_race_two() { race(3); } KS_HARNESS harness_race_quiet() { race(4); }
KS_HARNESS harness_race_close() { // closes, with no destruction, while connections are accepted
  make(1); bool pool = ks_choose(2, "pool"); S->EnablePool(pool); S->StartRun(); script = [] { sched_yield_all(); incoming(1); settle(); sched_preempt = P; k_fin(rec[0].fd); incoming(1); settle(); sched_preempt = 0; table(); }; finish(); }
