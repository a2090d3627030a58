// Write-complete and high-water-mark notifications against the pending bytes.
#include "conn.h"
#ifndef STEPS
#define STEPS 3
#endif
#ifndef SHORTS
#define SHORTS 3
#endif
static int shorts = SHORTS; static size_t due, marks; static size_t mark_; static size_t want[32]; static int nWant, nGot, pipeLeft; static int hows = 2, steps = 2, kinds = 2;
static size_t pending() { return total - k_fd[FD].out_pos; }
static void wrote(int fd, size_t pos, const char *p, size_t n) { onWrite(fd, pos, p, n); if (pos + n == total) due++; }
static size_t before; 
static void pre(const char *p, size_t n) { before = pending(); commit(p, n); }
static void post() { size_t now = pending(); if (before < mark_ && now >= mark_) { ks_check(nWant < 32, "model: room"); want[nWant++] = now; ks_reach("crossed"); } }
static void loopSend(int how) { size_t n; const char *p = msg(n); pre(p, n); put(C, how, p, n); post(); }
static void crossSend(int how) { size_t n; const char *p = msg(n); TcpConnectionPtr c = C; L->QueueToLoop([p, n] { pre(p, n); }); put(c, how, p, n); L->QueueToLoop([] { post(); }); }
static int how() { static const int H[4] = {RAW, CHUNKS, BUF, VIEW}; return H[ks_choose(hows, "how")]; }
static void look() { ks_check((size_t)completes == due, "one write-complete notification for every time the last pending byte was handed to the kernel"); ks_check(nGot == nWant, "one high-water-mark notification for every crossing of the mark"); }
static void run() {
  for (int i = 0; i < steps; i++) {
    if (ks_choose(kinds, "act")) { ks_reach("cross"); crossSend(how()); } else { int h = how(); L->QueueToLoop([h] { ks_reach("loop"); loopSend(h); }); }
    unsigned k = i + 1 < steps ? ks_choose(3, "then") : 1; if (k) { sched_yield_all(); look(); } if (k == 2) { k_room(FD); sched_yield_all(); look(); } }
  settle(); ks_check(pending() == 0, "everything is written in the end"); look(); ks_check(due > 0, "something was completed"); ks_reach("done"); finish();
}
static void start0(bool poller, bool et, size_t mark, void (*how)(), long (*accept)(int, size_t)) {
  build(poller, et); k_on_write = wrote; k_accept_bytes = accept; mark_ = mark;
  C->SetWriteCompleteCallback([](const TcpConnectionPtr &) { completes++; ks_check((size_t)completes <= due, "write-complete is never reported without a completed write"); if (pipeLeft > 0) { pipeLeft--; ks_reach("pipe"); loopSend(RAW); return false; } return true; });
  C->SetHighWaterMarkCallback([](const TcpConnectionPtr &, size_t n) { ks_check(nGot < nWant, "the high-water mark is reported only when it has been crossed"); ks_check(n == want[nGot], "the pending size at the crossing is reported"); ks_check(n >= mark_, "the reported size has reached the mark"); nGot++; ks_reach("high"); }, mark_);
  script = how; accepts = shorts; go(); after(); }
static void start(bool poller, bool et) { start0(poller, et, ks_range("mark", 1, 700), run, acceptBytes); }
KS_HARNESS harness_lt() { observing = false; start(false, false); }
KS_HARNESS harness_et() { observing = false; start(false, true); }
KS_HARNESS harness_poll() { observing = false; hows = 1; start(true, false); }
KS_HARNESS harness_three() { observing = false; steps = STEPS; hows = 2; shorts = SHORTS - 1; msgmin = 20; start(false, ks_choose(2, "et")); }
KS_HARNESS harness_buf() { observing = false; hows = 4; kinds = 1; steps = 1; msgmin = 20; start(false, false); }
KS_HARNESS harness_pipe() { observing = false; steps = 2; hows = 2; kinds = 1; pipeLeft = 2; msgmin = 20; start(false, false); }
KS_HARNESS harness_pipe_et() { observing = false; steps = 2; hows = 2; kinds = 1; pipeLeft = 2; msgmin = 20; start(false, true); }
// more chunks than one call of the kernel takes
static long acceptMany(int, size_t want) { if (accepts <= 0) return (long)want; unsigned k = ks_choose(4, "short"); if (!k) return (long)want; accepts--; return k == 1 ? 0 : k == 2 ? (long)(want - 1) : (long)(want / 2); }
static const char *mk(ChunkList &b, int n) { static const char *p = (const char *)ks_lazy(4096, "msg"); size_t k = 0; for (int i = 0; i < n; i++) { ChunkList c; c.Append(p + k, 1 + i % 2); k += 1 + i % 2; b.AppendChunkList(&c); } return p; }
static const int Many = 1027; static const size_t ManyBytes = Many + Many / 2;
static void manySend() { ChunkList b; const char *p = mk(b, Many); pre(p, ManyBytes); C->Send(b); post(); }
static void many() { L->QueueToLoop([] { manySend(); }); sched_yield_all(); look(); if (ks_choose(2, "room")) { k_room(FD); sched_yield_all(); look(); } if (ks_choose(2, "more")) { ks_reach("more"); L->QueueToLoop([] { manySend(); }); } sched_yield_all(); look(); settle(); ks_check(pending() == 0, "everything is written in the end"); look(); ks_reach("done"); finish(); }
static void startMany(bool poller, bool et) { observing = false; shorts = 2; start0(poller, et, ks_range("mark", 1, 2 * ManyBytes), many, acceptMany); }
KS_HARNESS harness_many() { startMany(ks_choose(2, "poll"), false); }
KS_HARNESS harness_many_et() { startMany(false, true); }
