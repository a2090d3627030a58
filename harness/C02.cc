// The TCP client: connect, disconnect, stop, losses, retries and destruction in every bounded order.
#include "net.h"
#include "kanon/net/event_loop.h"
#include "kanon/net/tcp_client.h"
#include "kanon/net/connection/tcp_connection.h"
#include "kanon/log/logger.h"
#include <errno.h>
#include <string.h>
#include <memory>
#include <functional>
using namespace kanon;
#ifndef STEPS
#define STEPS 3
#endif
#ifndef P
#define P 2
#endif
static EventLoop *L; static TcpClientPtr C; static std::weak_ptr<TcpClient> W; static std::weak_ptr<TcpConnection> WC[8]; static TcpConnectionPtr Held; static int base;
enum { IDLE, CONN, WAIT, LIVE }; static int st, cur = -1, attempts, live, ups, downs, budget = 4, msgs; static bool retry, may, dropped, lost, racing, polling; static char *In; static sockaddr_in6 addr; static int liveFd = -1;
static int onConnect(int fd, const struct sockaddr *a) { attempts++; ks_check(L->IsLoopInThread(), "connecting happens in the loop's thread"); if (!racing) ks_check(may, "a client that is stopped, dropped or never asked doesn't connect"); ks_check(live == 0, "a client with a live connection doesn't connect"); if (!racing) ks_check(st != CONN, "one attempt at a time"); auto *p = (sockaddr_in const *)a, *q = (sockaddr_in const *)&addr; ks_check(p->sin_family == AF_INET && p->sin_port == q->sin_port && p->sin_addr.s_addr == q->sin_addr.s_addr, "the client connects to the server's address"); if (budget-- <= 0) ks_assume(false); cur = fd; st = CONN; k_fd[fd].in = In; return EINPROGRESS; }
static void onClosed(int fd) { if (fd == liveFd) ks_check(live == 0, "a live connection's descriptor is not closed"); }
static bool closeUp, holdUp;
static void onConn(const TcpConnectionPtr &c) {
  ks_check(L->IsLoopInThread() && c->GetLoop() == L, "callbacks run in the loop's thread"); ks_check(c->GetName() == "cli", "a connection has its client's name");
  if (c->IsConnected()) { ks_check(live == 0, "at most one live connection at a time"); ks_check(ups == downs, "a connection is reported up once, first"); WC[ups] = c; ups++; live = 1; liveFd = cur; st = LIVE; ks_check(ups <= 6, "model"); if (!dropped && !racing) ks_check(C->GetConnection() == c, "the live connection is the one exposed"); if (closeUp) c->ForceClose(); if (holdUp) Held = c; }
  else { ks_check(ups == downs + 1 && WC[downs].lock() == c, "a connection is reported down once, after being up"); downs++; live = 0; st = IDLE; lost = true; } }
static void onMsg(const TcpConnectionPtr &c, Buffer &b, TimeStamp) { ks_check(live && WC[ups - 1].lock() == c, "messages arrive between up and down"); size_t n = b.GetReadableSize(), k = ks_u("at", 8); ks_assume(k < n); ks_check(b.GetReadBegin()[k] == In[k_fd[liveFd].in_pos - n + k], "a connection receives its own bytes"); msgs++; b.AdvanceAll(); }
static int timer() { int fd = -1; for (int i = 10; i < k_nfd; i++) if (k_fd[i].open && k_fd[i].kind == K_TIMER && k_fd[i].armed) fd = i; return fd; }
static void settle() { for (int i = 0; i < 5; i++) sched_yield_all(); }
static void resolve(bool ok) { if (st != CONN || !k_fd[cur].connecting) { ks_assume(false); return; } if (ok) { k_fd[cur].local = k_fd[cur].peer; ((sockaddr_in *)&k_fd[cur].local)->sin_port ^= (uint16_t)ks_range("port", 1, 65535); k_connect_done(cur, 0); } else { st = WAIT; k_connect_done(cur, (int)ks_range("so_error", 1, 133)); } }
static void setup(bool r, bool poll = false, bool compact = true) { SetKanonLog(false); k_auto_timer = false; base = k_open_count; In = (char *)ks_lazy(256, "in"); k_connect_hook = onConnect; k_on_closed = onClosed; sched_deadlock_msg = "the loop waits for ever"; L = new EventLoop(poll); InetAddr a(80, true); memcpy(&addr, a.ToSockaddr(), sizeof addr); C = NewTcpClient(L, a, "cli", compact); W = C; C->SetConnectionCallback(onConn); C->SetMessageCallback(onMsg); retry = r; if (r) C->EnableRetry(); ks_check(C->GetConnection() == nullptr && C->GetLoop() == L, "no connection before connecting"); }
static void (*script)(); static void *driver(void *) { script(); L->Quit(); return nullptr; }
static void drop() { dropped = true; may = false; C.reset(); }
static void finish() { // in the driver: everything goes away
  if (C) drop(); settle(); int a = attempts; if (Held) { ks_check(!Held->IsConnected() || live == 1, "a connection that is lost is down"); Held->ForceClose(); Held.reset(); } settle(); if (timer() >= 0) { k_now_us += 100000000; settle(); } ks_check(attempts == a, "a client that is gone doesn't connect"); ks_check(W.expired(), "nothing keeps a client alive"); for (int i = 0; i < ups; i++) ks_check(WC[i].expired(), "nothing keeps a closed connection alive"); ks_check(live == 0 && ups == downs, "up and down are reported once each"); }
static void go() { pthread_t t; pthread_create(&t, nullptr, driver, nullptr); L->StartLoop(); pthread_join(t, nullptr); sched_preempt = 0; delete L; ks_check(k_open_count == base, "no descriptor is leaked"); ks_check(k_closed_reg <= 2, "a descriptor is removed from the loop before it is closed"); ks_reach("end"); }
static void expect(int s) { settle(); ks_check(st == s, s == LIVE ? "an established connection is reported up" : s == CONN ? "the client connects when it should" : "the client doesn't connect when it shouldn't"); if (C) { auto c = C->GetConnection(); ks_check((c != nullptr) == (st == LIVE), "the client exposes its live connection only"); if (c) ks_check(c->IsConnected() || c == WC[ups - 1].lock(), "the live connection is the one exposed"); } }
static void gone() { int a = attempts, d = downs; bool r = retry && C; may = r; settle(); ks_check(downs == d + 1, "a loss is reported"); if (r) { ks_reach("reconnects"); ks_check(attempts == a + 1 && st == CONN, "the client reconnects after a loss when retry is enabled"); } else { ks_check(attempts == a && st == IDLE, "the client doesn't reconnect after a loss when retry is disabled"); k_now_us += 100000000; settle(); ks_check(attempts == a, "the client doesn't reconnect after a loss when retry is disabled"); } }
enum { CONNECT, STOP, DISCONNECT, OK, ERR, PASS, FIN, RST, FORCE, HOLD, DROP, DATA, NACT }; static bool everUp, stopped;
static void act(int a) {
  if (dropped && a != FIN && a != RST && a != FORCE && a != DATA) { ks_assume(false); return; }
  switch (a) {
  case CONNECT: { if (everUp && st == IDLE) { ks_assume(false); return; } bool starts = !stopped && (st == IDLE || st == WAIT); int n = attempts; if (starts) may = true; C->Connect(); if (starts) { expect(CONN); ks_check(attempts == n + 1, "the client connects when asked to"); } else { int s = st; expect(s); ks_check(attempts == n, "asking again has no effect"); } break; }
  case STOP: ks_reach("stop"); may = false; retry = false; stopped = true; C->Stop(); { int n = attempts; settle(); if (st == CONN) { ks_check(!k_fd[cur].open, "stopping gives up the attempt"); st = IDLE; } if (st == WAIT) st = IDLE; k_now_us += 100000000; settle(); ks_check(attempts == n, "a stopped client doesn't connect"); } break;
  case DISCONNECT: retry = false; C->Disconnect(); settle(); if (st == LIVE && WC[ups - 1].lock()->IsConnected()) ks_check(false, "disconnecting starts the close"); if (st == LIVE) ks_check(k_fd[liveFd].shut == 1, "disconnecting shuts the connection down for writing"); break;
  case OK: resolve(true); everUp = true; if (closeUp) { ks_assume(false); } expect(LIVE); break;
  case ERR: { ks_reach("error"); int n = attempts; resolve(false); expect(WAIT); ks_check(attempts == n, "a failed attempt is retried later"); break; }
  case PASS: { if (st != WAIT) { ks_assume(false); return; } int t = timer(); ks_check(t >= 0, "a failed attempt is retried"); int n = attempts; k_now_us = k_fd[t].deadline + 1000; settle(); ks_check(attempts == n + 1 && st == CONN, "a failed attempt is retried"); break; }
  case FIN: if (st != LIVE) { ks_assume(false); return; } ks_reach("fin"); k_fin(liveFd); gone(); break;
  case RST: if (st != LIVE) { ks_assume(false); return; } ks_reach("rst"); k_rst(liveFd); gone(); break;
  case FORCE: if (st != LIVE) { ks_assume(false); return; } { auto c = WC[ups - 1].lock(); if (!c) { ks_assume(false); return; } c->ForceClose(); } gone(); break;
  case HOLD: if (st != LIVE) { ks_assume(false); return; } Held = C->GetConnection(); break;
  case DATA: if (st != LIVE) { ks_assume(false); return; } { int m = msgs; k_deliver(liveFd, ks_range("bytes", 1, 50)); settle(); ks_check(msgs == m + 1, "received bytes are delivered"); } break;
  default: { int s = st; bool h = s == LIVE && Held && Held == WC[ups - 1].lock(); int d = downs; drop(); settle(); if (s == LIVE) { if (h) ks_check(live == 1 && downs == d, "a connection the user holds survives its client"); else ks_check(downs == d + 1, "destroying the client closes its connection"); } else st = IDLE; if (s == CONN) ks_check(!k_fd[cur].open, "destroying the client gives up the attempt"); } } }
static bool R() { return ks_choose(2, "retry"); }
KS_HARNESS harness_history() { bool r = R(), poll = ks_choose(2, "poll"); setup(r, poll); script = [] { sched_yield_all(); act(CONNECT); for (int i = 0; i < STEPS; i++) act(ks_choose(NACT, "act")); finish(); }; go(); }
KS_HARNESS harness_live() { bool r = R(); setup(r, false, false); script = [] { sched_yield_all(); act(CONNECT); act(OK); for (int i = 0; i < STEPS; i++) act(ks_choose(NACT, "act")); finish(); }; go(); }
KS_HARNESS harness_again() { setup(true); script = [] { sched_yield_all(); act(CONNECT); act(OK); act(FIN + ks_choose(3, "how")); if (ks_choose(2, "fails")) { act(ERR); act(PASS); } act(OK); act(DATA); act(ks_choose(NACT, "act")); finish(); }; go(); }
static int completes;
KS_HARNESS harness_answers() { setup(true, false, ks_choose(2, "compact")); C->SetWriteCompleteCallback([](const TcpConnectionPtr &c) { ks_check(c == WC[ups - 1].lock(), "callbacks come with their connection"); completes++; return true; }); script = [] { sched_yield_all(); act(CONNECT); for (int i = 1; i <= 2; i++) { act(OK); auto c = C->GetConnection(); c->Send("question", 8); c.reset(); settle(); ks_check(k_fd[liveFd].out_pos == 8 && completes == i, "every connection of the client has the user's callbacks"); if (i == 1) act(FIN); } finish(); }; go(); }
KS_HARNESS harness_idle() { bool r = R(); setup(r); script = [] { if (ks_choose(2, "stop")) C->Stop(); if (ks_choose(2, "disconnect")) C->Disconnect(); settle(); ks_check(attempts == 0, "a client that is never asked doesn't connect"); finish(); }; go(); }
KS_HARNESS harness_up_close() { bool r = R(); setup(r); closeUp = true; budget = 2; script = [] { sched_yield_all(); act(CONNECT); resolve(true); may = retry; settle(); ks_check(ups == 1 && downs == 1, "a connection closed when it comes up is reported up and down"); ks_check(st == (retry ? CONN : IDLE), "the client reconnects after a loss exactly when retry is enabled"); closeUp = false; if (retry) act(OK); finish(); }; go(); }
KS_HARNESS harness_in_loop() { // everything happens in the loop's thread, the client is dropped by one of its own connection's callbacks or a functor
  bool r = R(); setup(r); static int what; what = ks_choose(4, "what"); script = [] { sched_yield_all(); act(CONNECT); act(OK); switch (what) { case 0: L->QueueToLoop([] { drop(); }); break; case 1: L->QueueToLoop([] { C->Disconnect(); drop(); }); break; case 2: L->QueueToLoop([] { C->Stop(); C->GetConnection()->ForceClose(); drop(); }); break; default: L->QueueToLoop([] { Held = C->GetConnection(); drop(); }); } settle(); finish(); }; go(); }
// ---- races: the loop and another thread, with preemptions
static void noNew() { may = true; }
static void raceBegin() { racing = true; may = true; sched_preempt = P; } static void raceEnd() { settle(); sched_preempt = 0; }
KS_HARNESS harness_race_connected_drop() { setup(R()); script = [] { sched_yield_all(); act(CONNECT); raceBegin(); resolve(true); drop(); raceEnd(); finish(); }; go(); }
KS_HARNESS harness_race_lost_drop() { setup(R()); script = [] { sched_yield_all(); act(CONNECT); act(OK); raceBegin(); k_fin(liveFd); drop(); raceEnd(); finish(); }; go(); }
KS_HARNESS harness_race_error_drop() { setup(R()); script = [] { sched_yield_all(); act(CONNECT); raceBegin(); resolve(false); drop(); raceEnd(); finish(); }; go(); }
KS_HARNESS harness_race_connected_stop() { setup(R()); script = [] { sched_yield_all(); act(CONNECT); raceBegin(); resolve(true); C->Stop(); raceEnd(); ks_check(live == (st == LIVE), "model"); int n = attempts; if (live) { k_fin(liveFd); settle(); } k_now_us += 100000000; settle(); ks_check(attempts == n, "a stopped client doesn't connect"); finish(); }; go(); }
KS_HARNESS harness_race_lost_disconnect() { setup(true); script = [] { sched_yield_all(); act(CONNECT); act(OK); raceBegin(); k_fin(liveFd); C->Disconnect(); raceEnd(); ks_check(downs == 1, "a loss is reported"); finish(); }; go(); }
KS_HARNESS harness_race_lost_stop() { setup(true); script = [] { sched_yield_all(); act(CONNECT); act(OK); raceBegin(); k_fin(liveFd); C->Stop(); raceEnd(); ks_check(downs == 1, "a loss is reported"); if (st == CONN && !k_fd[cur].open) st = IDLE; ks_check(st == IDLE, "a stopped client doesn't connect"); int n = attempts; k_now_us += 100000000; settle(); ks_check(attempts == n, "a stopped client doesn't connect"); finish(); }; go(); }
KS_HARNESS harness_race_lost_use() { setup(R()); script = [] { sched_yield_all(); act(CONNECT); act(OK); raceBegin(); k_fin(liveFd); auto c = C->GetConnection(); if (c) { c->Send("x", 1); if (ks_choose(2, "force")) c->ForceClose(); else c->ShutdownWrite(); c.reset(); } raceEnd(); ks_check(downs == 1, "a loss is reported"); finish(); }; go(); }
