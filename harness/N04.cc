// Receiving: every segmentation, partial reads, transient errors, any consumption by the message callback, end of stream.
#include "conn.h"
#ifndef STEPS
#define STEPS 2
#endif
static size_t consumed, segmax = 4000; static int errs, parts, steps = STEPS; static bool et, looked, errored, spoiled, big; static std::function<void(Buffer &)> M; static bool nosome; static int errnos;
static long takeBytes(int, size_t lim) {
  if (errs > 0 && ks_choose(2, "err")) { errs--; errored = spoiled = true; ks_reach("err"); int e[4] = {EAGAIN, EINTR, ENOMEM, ENOBUFS}; return -e[ks_choose(et ? 1 : errnos, "errno")]; }
  if (parts > 0 && ks_choose(2, "part")) { parts--; ks_reach("part"); size_t n = ks_range("got", 1, segmax); ks_assume(n < lim); return (long)n; }
  return (long)lim; }
static size_t presented; // bytes shown to the callback so far (position in the stream)
static void message(Buffer &b) {
  ks_check(downs == 0 && ups == 1, "messages arrive while the connection is up"); size_t have = k_fd[FD].in_pos;
  ks_check(b.GetReadableSize() == have - consumed, "the callback sees the bytes it left before and the new ones"); ks_check(have > presented, "the callback is invoked for new bytes"); presented = have;
  size_t n = b.GetReadableSize();
  if (!looked && ks_choose(2, "look")) { looked = true; size_t i = ks_u("i", 20); ks_assume(i < n); ks_reach("looked"); ks_check(b.GetReadBegin()[i] == In[consumed + i], "the bytes are those received, in order"); }
  switch (nosome ? 2 * ks_choose(2, "consume") : ks_choose(3, "consume")) { case 0: ks_reach("none"); break; case 1: { ks_reach("some"); size_t k = ks_range("take", 1, segmax); ks_assume(k < n); b.AdvanceRead(k); consumed += k; break; } default: ks_reach("all"); b.AdvanceAll(); consumed = have; }
}
static void run() {
  for (int i = 0; i < steps; i++) {
    size_t n = ks_range("seg", big ? 60000 : 1, segmax); k_deliver(FD, n); if (ks_choose(2, "batch")) continue;
    sched_yield_all(); ks_check(C && C->IsConnected() && downs == 0, "a transient error does not close the connection");
    if (!(et && errored)) ks_check(presented == k_fd[FD].in_end && k_fd[FD].in_pos == k_fd[FD].in_end, "received bytes are delivered as soon as they are readable"); else { ks_reach("later"); errored = false; }
  }
  bool fin = ks_choose(2, "fin"); if (fin) { ks_reach("fin"); k_fin(FD); } else if (et && spoiled) { sched_yield_all(); k_deliver(FD, 1); }
  errs = 0; sched_yield_all(); ks_check(presented == k_fd[FD].in_end, "every received byte is delivered");
  ks_check(downs == (fin ? 1 : 0), "the end of the stream, and nothing else, closes the connection"); settle();
  ks_reach("done"); if (!fin) finish(); else { C.reset(); settle(); L->Quit(); }
}
static void start(bool poller, bool e) { et = e; build(poller, e); M = message; inMessage = &M; k_take_bytes = takeBytes; script = run; go(); after(); }
KS_HARNESS harness_lt_err() { errs = 1; errnos = 3; start(false, false); }
KS_HARNESS harness_lt_part() { parts = 1; start(false, false); }
KS_HARNESS harness_et_err() { errs = 1; start(false, true); }
KS_HARNESS harness_et_part() { parts = 1; start(false, true); }
KS_HARNESS harness_poll() { errs = 1; errnos = 1; start(true, false); }
KS_HARNESS harness_big() { big = true; segmax = 150000; nosome = true; start(false, false); }
KS_HARNESS harness_big_et() { big = true; segmax = 150000; nosome = true; start(false, true); }
KS_HARNESS harness_more() { steps = STEPS + 1; start(false, false); }
// ---- no message callback: incoming bytes are discarded, the connection lives
static void silent() { k_deliver(FD, ks_range("seg", 1, segmax)); sched_yield_all(); ks_check(k_fd[FD].in_pos == k_fd[FD].in_end && downs == 0, "bytes without a callback are discarded"); k_fin(FD); settle(); ks_check(downs == 1, "end of stream"); ks_reach("silent"); C.reset(); settle(); L->Quit(); }
KS_HARNESS harness_silent() { int m = ks_choose(3, "mode"); build(m == 2, m == 1); C->SetMessageCallback(nullptr); script = silent; go(); after(); }
// ---- reading switched off and on again
static void paused() {
  size_t n = ks_range("seg", 1, segmax); if (ks_choose(2, "first")) { k_deliver(FD, 5); sched_yield_all(); }
  L->QueueToLoop([] { C->DisbaleRead(); }); sched_yield_all(); size_t p = presented; k_deliver(FD, n); if (ks_choose(2, "fin")) k_fin(FD); sched_yield_all(); ks_check(presented == p && downs == 0, "nothing is delivered while reading is off");
  L->QueueToLoop([] { C->EnableRead(); }); settle(); ks_check(presented == k_fd[FD].in_end, "the bytes received meanwhile are delivered when reading is on again"); ks_check(downs == (k_fd[FD].fin ? 1 : 0), "and the end of stream is noticed"); ks_reach("paused"); finish(); }
KS_HARNESS harness_paused() { int m = ks_choose(3, "mode"); et = m == 1; build(m == 2, m == 1); M = message; inMessage = &M; script = paused; go(); after(); }
