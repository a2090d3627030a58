// Lifecycle: peer events, closes from anywhere, callbacks, destruction, in every bounded order.
#include "conn.h"
static bool destroyed, observer, paused; static int steps = 2; static TcpConnectionPtr User; static int doing; static bool poll_;
static std::function<void(Buffer &)> M; static std::function<void()> Up, Down;
enum { FIN, RST, HUP, DATA, CLOSE_CROSS, CLOSE_LOOP, CLOSE_MSG, SHUT, SEND, DESTROY, PAUSE, NACT };
static void closing(int way) { switch (way) { case 0: break; case 1: ks_reach("cb-force"); User->ForceClose(); break; case 2: ks_reach("cb-shut"); User->ShutdownWrite(); break; default: ks_reach("cb-send"); User->Send("0123456789012345678901234567890", 31); } }
static void destroy() { // what the owner does when it goes away: ConnectionDestroyed without a close notification
  if (closes == 0 && !destroyed && downs == 0) { destroyed = true; TcpConnectionPtr c = User; c->SetCloseCallback(nullptr); C.reset(); L->QueueToLoop([c] { c->ConnectionDestroyed(); }); } }
static void act() {
  switch (ks_choose(doing, "act")) {
  case FIN: ks_reach("fin"); k_fin(FD); break; case RST: ks_reach("rst"); k_rst(FD); break; case HUP: ks_reach("hup"); k_hup(FD); break;
  case DATA: if (!k_fd[FD].fin && !k_fd[FD].rst) { ks_reach("data"); k_deliver(FD, ks_range("bytes", 1, 2000)); } break;
  case CLOSE_CROSS: ks_reach("cross"); User->ForceClose(); break;
  case CLOSE_LOOP: ks_reach("loop"); L->QueueToLoop([] { User->ForceClose(); if (observer) User->ForceClose(); }); break;
  case CLOSE_MSG: if (!k_fd[FD].fin && !k_fd[FD].rst) { ks_reach("msg"); M = [](Buffer &b) { b.AdvanceAll(); User->ForceClose(); }; inMessage = &M; k_deliver(FD, 2); } break;
  case SHUT: ks_reach("shut"); ks_assume(!paused); User->ShutdownWrite(); break;
  case SEND: ks_reach("send"); { size_t n; const char *p = msg(n); User->Send(p, n); } break;
  case PAUSE: ks_reach("pause"); L->QueueToLoop([] { User->DisbaleRead(); }); paused = true; break;
  default: ks_reach("destroy"); destroy(); }
}
static void quiet(const char *) { }
static void run() {
  for (int i = 0; i < steps; i++) { act(); if (ks_choose(2, "settle")) { sched_yield_all(); if (downs) { ks_check(!k_watched(FD), "a connection that is down is not watched by the poller"); } else if (!paused) ks_check(k_watched(FD), "a connection that is up is watched by the poller"); } }
  if (paused) { L->QueueToLoop([] { User->EnableRead(); }); paused = false; }
  settle(); bool gone = k_fd[FD].fin || k_fd[FD].rst || k_fd[FD].hup || destroyed;
  if (gone) { ks_reach("gone"); ks_check(downs == 1, "a lost or destroyed connection is reported down"); ks_check(closes == (destroyed ? 0 : 1) || closes == 1, "a lost connection gives the close notification"); }
  if (downs == 0) { ks_check(!closes, "no close notification before down"); User->ForceClose(); settle(); }
  ks_check(ups == 1 && downs == 1 && (closes == 1 || (destroyed && closes == 0)), "up, down and close are reported once each");
  ks_check(!k_watched(FD), "no registration is left in the poller"); int m = messages, w = completes; size_t o = k_fd[FD].out_pos;
  if (ks_choose(2, "afterwards")) { ks_reach("afterwards"); User->Send("x", 1); User->ShutdownWrite(); User->ForceClose(); settle(); ks_check(messages == m && completes == w && k_fd[FD].out_pos == o, "nothing happens on a connection that is down"); }
  ks_check(k_fd[FD].open && closedFd == 0, "the descriptor stays open while the connection is referenced");
  ks_check(User.use_count() == (C ? 2 : 1), "nothing else keeps the connection alive"); C.reset(); User.reset(); settle(); ks_check(closedFd == 1 && k_closed_reg == 0, "the descriptor is closed once, with the last reference, and not while registered");
  ks_reach("done"); L->Quit();
}
static long acc(int, size_t n) { if (accepts <= 0) return (long)n; accepts--; size_t k = ks_range("accepted", 0, 300); ks_assume(k < n); return (long)k; } // the first writes are short
static void start(bool poller, bool et) {
  poll_ = poller; build(poller, et); User = C; k_on_write = nullptr; k_accept_bytes = acc; observing = false; keepUser = true; C->SetHighWaterMarkCallback([](const TcpConnectionPtr &, size_t) {}, 1 << 20);
  C->SetWriteCompleteCallback([](const TcpConnectionPtr &) { completes++; ks_check(downs == 0, "no write-complete notification after down"); return true; });
  C->SetCloseCallback([](const TcpConnectionPtr &c) { closes++; ks_check(closes == 1 && downs == 1 && !destroyed, "the close notification comes once, after down"); L->QueueToLoop(std::bind(&TcpConnection::ConnectionDestroyed, c)); C.reset(); });
  script = run; go(); ks_check(closedFd == 1, "the descriptor is closed exactly once"); delete L; }
#ifndef CBSTEPS
#define CBSTEPS 1
#endif
static void callbacks() { int u = ks_choose(4, "onup"), d = ks_choose(4, "ondown"); static int U, D; U = u; D = d; Up = [] { closing(U); }; Down = [] { closing(D); }; onUp = &Up; onDown = &Down; }
KS_HARNESS harness_lt() { doing = NACT; steps = 3; accepts = ks_choose(2, "short"); start(false, false); }
KS_HARNESS harness_et() { doing = NACT; steps = 3; accepts = ks_choose(2, "short"); start(false, true); }
KS_HARNESS harness_poll() { doing = NACT; steps = 3; accepts = ks_choose(2, "short"); start(true, false); }
KS_HARNESS harness_callbacks() { doing = NACT; steps = CBSTEPS; accepts = ks_choose(2, "short"); callbacks(); int m = ks_choose(3, "mode"); start(m == 2, m == 1); }
KS_HARNESS harness_long() { doing = NACT; steps = STEPS; accepts = 2; observer = true; int m = ks_choose(3, "mode"); start(m == 2, m == 1); }
