// Sending: any mix of sends from the loop and from another thread, any kernel acceptance.
#include "conn.h"
#ifndef STEPS3
#define STEPS3 3
#endif
#ifndef SHORTS
#define SHORTS 2
#endif
static int kinds = 3, hows = 3, steps = 2;
static int how() { static const int H[4] = {RAW, CHUNKS, BUF, VIEW}; return H[ks_choose(hows, "how")]; }
static void act() {
  static std::function<void(Buffer &)> m;
  switch (ks_choose(kinds, "act")) {
  case 0: ks_reach("cross"); sendCross(how()); break;
  case 1: { int h = how(); L->QueueToLoop([h] { ks_reach("functor"); sendInLoop(h); }); break; }
  default: { int h = how(); m = [h](Buffer &b) { b.AdvanceAll(); inMessage = nullptr; ks_reach("message"); sendInLoop(h); }; inMessage = &m; k_deliver(FD, 1); sched_yield_all(); break; }
  }
}
static void run() {
  for (int i = 0; i < steps; i++) { act(); unsigned k = i + 1 < steps ? ks_choose(3, "then") : 0; if (k) sched_yield_all(); if (k == 2) { k_room(FD); sched_yield_all(); } }
  settle();
  ks_check(C != nullptr && C->IsConnected(), "the connection stays up"); ks_check(k_fd[FD].out_pos == total, "every sent byte reaches the socket");
  ks_reach("done"); finish();
}
static void start(bool poller, bool et) { build(poller, et); script = run; accepts = SHORTS; go(); after(); }
// with a write-complete callback, which may send more itself
static int pipeLeft;
static void complete(bool poller, bool et, int pipe) { pipeLeft = pipe; build(poller, et);
  C->SetWriteCompleteCallback([](const TcpConnectionPtr &) { ks_reach("complete"); if (pipeLeft > 0) { pipeLeft--; ks_reach("pipe"); sendInLoop(CHUNKS); return false; } return true; });
  script = run; accepts = SHORTS; go(); after(); }
KS_HARNESS harness_complete() { hows = 2; kinds = 2; msgmin = 20; complete(false, false, 0); }
KS_HARNESS harness_complete_et() { hows = 2; kinds = 2; msgmin = 20; complete(false, true, 0); }
KS_HARNESS harness_pipe() { hows = 1; kinds = 2; msgmin = 20; complete(false, false, 1); }
KS_HARNESS harness_pipe_et() { hows = 1; kinds = 2; msgmin = 20; complete(false, true, 1); }
KS_HARNESS harness_lt() { start(false, false); }
KS_HARNESS harness_et() { start(false, true); }
KS_HARNESS harness_poll() { hows = 2; start(true, false); }
KS_HARNESS harness_big() { hows = 2; kinds = 1; msgmin = 3000; msgmax = 9000; build(false, false); script = run; accepts = SHORTS - 1; go(); after(); }
KS_HARNESS harness_three() { hows = 2; kinds = 2; steps = STEPS3; msgmin = 20; start(false, false); }
KS_HARNESS harness_three_et() { hows = 2; kinds = 2; steps = STEPS3; msgmin = 20; start(false, true); }
// more chunks than one call of the kernel takes: a later call of the same attempt may find the socket full
static long acceptMany(int, size_t want) { if (accepts <= 0) return (long)want; unsigned k = ks_choose(4, "short"); if (!k) return (long)want; accepts--; return k == 1 ? 0 : k == 2 ? (long)(want - 1) : (long)(want / 2); }
static void manyChunks(bool poller, bool et) {
  build(poller, et); k_accept_bytes = acceptMany; accepts = SHORTS; observing = false; static bool cross; cross = ks_choose(2, "thread");
  script = [] { static const char *p = (const char *)ks_lazy(4096, "msg"); auto mk = [](ChunkList &b, int n) { size_t s = total; for (int i = 0; i < n; i++) { ChunkList c; c.Append(p + total, 1 + i % 2); total += 1 + i % 2; b.AppendChunkList(&c); } (void)s; };
    static const size_t P[] = {0, 700, 1535, 1536, 1538, 1540}; probing = true; pmsg = p; pbase = 0; plen = 4096; poff = P[ks_choose(6, "where")];
    if (cross) { ChunkList b; mk(b, 1027); TcpConnectionPtr c = C; c->Send(b); } else L->QueueToLoop([mk] { ChunkList b; mk(b, 1027); C->Send(b); });
    settle(); ks_check(C != nullptr && C->IsConnected(), "the connection stays up"); ks_check(k_fd[FD].out_pos == total, "every sent byte reaches the socket"); ks_reach("done"); finish(); };
  go(); after(); }
KS_HARNESS harness_many() { manyChunks(false, false); }
KS_HARNESS harness_many_et() { manyChunks(false, true); }
