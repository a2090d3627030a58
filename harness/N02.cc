// Graceful shutdown: sends, one shutdown at any point (possibly with output pending, possibly asked for twice), sends after it.
#include "conn.h"
#ifndef SHORTS
#define SHORTS 2
#endif
static int hows = 2, steps = 1; static bool asked; static size_t due; // bytes sent before the shutdown took effect
static int how() { static const int H[4] = {RAW, CHUNKS, BUF, VIEW}; return H[ks_choose(hows, "how")]; }
static void look() { // the loop is idle
  if (asked && k_fd[FD].out_pos == due) { ks_reach("shut"); ks_check(k_fd[FD].shut == 1, "the writing side is shut down once, as soon as the pending bytes are written"); }
  else ks_check(k_fd[FD].shut == 0, "the writing side is not shut down before every byte sent earlier is written"); }
static void mark() { if (!asked) { asked = true; due = total; } }
static void shutInLoop() { if (C) { mark(); C->ShutdownWrite(); } }
static void late(int h) { size_t n; const char *p = msg(n); if (C) put(C, h, p, n); } // a send after the shutdown is ignored
static std::function<void(Buffer &)> M; static std::function<bool()> W;
static void shut(int way) {
  switch (way) {
  case 0: { ks_reach("cross"); TcpConnectionPtr c = C; strict = false; L->QueueToLoop([] { mark(); }); c->ShutdownWrite(); break; }
  case 1: L->QueueToLoop([] { ks_reach("functor"); shutInLoop(); }); break;
  default: M = [](Buffer &b) { b.AdvanceAll(); inMessage = nullptr; ks_reach("message"); bool s = ks_choose(2, "sendfirst"); if (s) sendInLoop(RAW); shutInLoop(); if (s) late(CHUNKS); }; inMessage = &M; k_deliver(FD, 1); sched_yield_all();
  }
}
static int ways = 3;
static void run() {
  unsigned way = ks_choose(ways, "way"); strict = way == 0; // the thread that shuts down is the one that sent
  for (int i = 0; i < steps; i++) { if (ks_choose(2, "from")) { ks_reach("sendcross"); sendCross(how()); } else { int h = how(); L->QueueToLoop([h] { ks_reach("sendloop"); sendInLoop(h); }); }
    unsigned k = ks_choose(3, "then"); if (k) { sched_yield_all(); ks_check(k_fd[FD].shut == 0, "no shutdown was asked for"); } if (k == 2) { k_room(FD); sched_yield_all(); } }
  shut(way); if (ks_choose(2, "settle")) { sched_yield_all(); look(); }
  switch (ks_choose(3, "after")) { case 0: break; case 1: ks_reach("late"); if (ks_choose(2, "from")) late(how()); else L->QueueToLoop([] { late(RAW); }); break; default: ks_reach("again"); C->ShutdownWrite(); }
  sched_yield_all(); ks_check(asked, "the shutdown took effect"); look();
  for (int i = 0; i < 20 && k_fd[FD].out_pos < due; i++) { k_room(FD); sched_yield_all(); look(); }
  settle(); ks_check(k_fd[FD].out_pos == due && total == due, "every byte sent before the shutdown reaches the socket and none sent after it");
  ks_check(k_fd[FD].shut == 1 && k_fd[FD].shut_pos == due, "the socket is shut down for writing exactly once, after the last byte");
  ks_check(C != nullptr && downs == 0 && k_fd[FD].open, "a shutdown of the writing side does not close the connection");
  if (ks_choose(2, "incoming")) { int m = messages; k_deliver(FD, 3); settle(); ks_reach("half"); ks_check(messages == m + 1, "the reading side keeps working"); }
  ks_reach("done"); finish();
}
static void start(bool poller, bool et) { build(poller, et); if (ks_choose(2, "wc")) { ks_reach("wc"); C->SetWriteCompleteCallback([](const TcpConnectionPtr &) { completes++; return true; }); }
  script = run; accepts = SHORTS; go(); after(); }
KS_HARNESS harness_lt() { start(false, false); }
KS_HARNESS harness_et() { start(false, true); }
KS_HARNESS harness_poll() { hows = 1; ways = 2; start(true, false); }
KS_HARNESS harness_two() { hows = 2; steps = 2; ways = 1; msgmin = 20; start(false, false); }
static void none() { shut(ks_choose(3, "way")); sched_yield_all(); look(); settle(); ks_check(k_fd[FD].shut == 1 && k_fd[FD].out_pos == due, "an idle connection is shut down at once"); finish(); }
KS_HARNESS harness_idle() { build(ks_choose(2, "poll"), false); script = none; go(); after(); }
// more chunks than one call of the kernel takes
static long acceptMany(int, size_t want) { if (accepts <= 0) return (long)want; unsigned k = ks_choose(4, "short"); if (!k) return (long)want; accepts--; return k == 1 ? 0 : k == 2 ? (long)(want - 1) : (long)(want / 2); }
static const char *mk(ChunkList &b, int n) { static const char *p = (const char *)ks_lazy(4096, "msg"); size_t k = 0; for (int i = 0; i < n; i++) { ChunkList c; c.Append(p + k, 1 + i % 2); k += 1 + i % 2; b.AppendChunkList(&c); } return p; }
static const int Many = 1027; static const size_t ManyBytes = Many + Many / 2;
static void many() { L->QueueToLoop([] { ChunkList b; commit(mk(b, Many), ManyBytes); C->Send(b); }); if (ks_choose(2, "then")) { sched_yield_all(); ks_check(k_fd[FD].shut == 0, "no shutdown was asked for"); }
  strict = true; shut(ks_choose(2, "way")); sched_yield_all(); look(); for (int i = 0; i < 20 && k_fd[FD].out_pos < due; i++) { k_room(FD); sched_yield_all(); look(); }
  settle(); ks_check(k_fd[FD].out_pos == due && total == due, "every byte sent before the shutdown reaches the socket and none sent after it"); ks_check(k_fd[FD].shut == 1 && k_fd[FD].shut_pos == due, "the socket is shut down for writing exactly once, after the last byte"); ks_reach("done"); finish(); }
KS_HARNESS harness_many() { build(ks_choose(2, "poll"), false); script = many; observing = false; k_accept_bytes = acceptMany; accepts = SHORTS; go(); after(); }
KS_HARNESS harness_many_et() { build(false, true); script = many; observing = false; k_accept_bytes = acceptMany; accepts = SHORTS; go(); after(); }
