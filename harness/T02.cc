// Cancelling timers at any moment.
#include "timers.h"
#include <new>
#include <stdlib.h>
// ---- allocator that reuses storage at once (when asked to), as real ones do
static bool reuse; static struct { void *p; size_t n; } spare[64]; static int nSpare; static struct { void *p; size_t n; } given[256]; static int nGiven;
void *operator new(size_t n) { if (reuse) { for (int i = nSpare; i-- > 0;) if (spare[i].n == n) { void *p = spare[i].p; spare[i] = spare[--nSpare]; given[nGiven++] = {p, n}; return p; } } void *p = malloc(n ? n : 1); if (!p) abort(); if (reuse && nGiven < 256) given[nGiven++] = {p, n}; return p; }
void operator delete(void *p) noexcept { if (!p) return; for (int i = nGiven; i-- > 0;) if (given[i].p == p) { size_t n = given[i].n; given[i] = given[--nGiven]; if (reuse && nSpare < 64) { spare[nSpare++] = {p, n}; return; } break; } free(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
static void flush() { reuse = false; for (int i = 0; i < nSpare; i++) free(spare[i].p); nSpare = 0; }
static bool cancelled[10];
static void drop(int i) { mayWake = true; t[i].pending = false; cancelled[i] = true; } // in effect when the loop processes it
static void cancel(int i) { L->CancelTimer(id[i]); drop(i); }
static void expect(int i, int runs) { ks_check(t[i].runs == runs, "a cancelled timer doesn't run again and the others run as often as asked"); }
static void others() { for (int i = 0; i < n; i++) if (!cancelled[i]) { ks_check(t[i].interval || t[i].runs == 1, "a cancelled timer doesn't run again and the others run as often as asked"); } }
static int who, target, extra; static int64_t when[3];
static void three() { for (int i = 0; i < 3; i++) when[i] = sym("d"); for (int i = 0; i < 3; i++) at(when[i]); }
KS_HARNESS harness_before() { start(ks_choose(2, "poll")); three(); cancel(ks_choose(3, "which")); loop(100); others(); end(); }
KS_HARNESS harness_before_twice() { start(false); three(); int i = ks_choose(3, "which"), j = ks_choose(3, "other"); cancel(i); cancel(j); cancel(i); loop(100); others(); for (int k = 0; k < 3; k++) if (cancelled[k]) expect(k, 0); end(); }
KS_HARNESS harness_all() { start(false); three(); for (int i = 0; i < 3; i++) cancel(i); loop(100); for (int i = 0; i < 3; i++) expect(i, 0); end(); }
KS_HARNESS harness_default_id() { start(false); L->CancelTimer(TimerId()); at(sym("d0")); L->CancelTimer(TimerId()); loop(100); expect(0, 1); end(); }
// ---- from a callback: any timer, itself included, before or after its turn, in the same round or not
static void cancelTarget(int) { cancel(target); }
static void inCallback(bool poll) { start(poll); lates = 1; three(); target = ks_choose(3, "which"); after[0] = cancelTarget; loop(100); ks_check(t[0].runs == 1, "a cancelled timer doesn't run again and the others run as often as asked"); others(); end(); }
KS_HARNESS harness_in_callback() { inCallback(false); } KS_HARNESS harness_in_callback_poll() { inCallback(true); }
KS_HARNESS harness_each_other() { start(false); lates = 1; three(); after[0] = [](int) { cancel(1); }; after[1] = [](int) { cancel(0); cancel(2); }; after[2] = [](int) { cancel(2); cancel(0); }; loop(100); others(); end(); }
KS_HARNESS harness_then_add() { start(false); lates = 1; three(); target = ks_choose(3, "which"); later = sym("d3"); after[0] = [](int) { cancel(target); at(later); cancel(target); }; loop(100); expect(3, 1); others(); end(); }
KS_HARNESS harness_new_one() { start(false); lates = 1; three(); later = sym("d3"); after[0] = [](int) { int i = at(later); cancel(i); cancel(i); }; after[1] = [](int) { if (n == 3) { at(later); } }; loop(100); others(); end(); }
// ---- after it has run
KS_HARNESS harness_fired() { start(ks_choose(2, "poll")); three(); after[1] = after[2] = [](int i) { for (int j = 0; j < 3; j++) if (j != i && t[j].runs) cancel(j); }; loop(100); for (int i = 0; i < 3; i++) expect(i, 1); end(); }
KS_HARNESS harness_fired_reused() { // the storage of a timer that has run or was cancelled is used again
  start(false); reuse = true; lates = 1; at(sym("d0")); at(sym("d1")); later = sym("d2"); after[0] = [](int) { if (ks_choose(2, "self")) cancel(0); L->QueueToLoop([] { int i = at(later); cancel(0); cancel(1); (void)i; }); }; loop(100); expect(0, 1); expect(2, 1); ks_check(t[1].runs <= 1, "a one-shot timer runs exactly once"); end(); flush(); }
KS_HARNESS harness_cancelled_reused() { start(false); reuse = true; at(sym("d0")); cancel(0); at(sym("d1")); cancel(0); at(sym("d2")); cancel(0); cancel(2); loop(100); expect(0, 0); expect(1, 1); expect(2, 0); end(); flush(); }
KS_HARNESS harness_callback_reused() { // cancelled in a callback, then a new timer takes its storage in the same callback
  start(false); reuse = true; lates = 1; at(sym("d0")); at(sym("d1")); later = sym("d2"); after[0] = [](int) { cancel(1); at(later); cancel(1); cancel(0); }; loop(100); expect(0, 1); expect(2, 1); others(); end(); flush(); }
// ---- repeating
KS_HARNESS harness_repeating() { start(ks_choose(2, "poll")); lates = 1; rep(sym("d0"), I[2].s, I[2].us, false); at(sym("d1")); extra = 1 + ks_choose(3, "after"); after[0] = [](int) { if (t[0].runs == extra) cancel(0); }; loop(100); expect(0, extra); expect(1, 1); end(); }
KS_HARNESS harness_repeating_by_other() { start(false); lates = 1; rep(sym("d0"), I[2].s, I[2].us, false); at(sym("d1")); after[1] = [](int) { who = t[0].runs; cancel(0); }; loop(100); expect(0, who); expect(1, 1); end(); }
KS_HARNESS harness_repeating_both() { start(false); rep(sym("d0"), I[2].s, I[2].us, false); rep(sym("d1"), 0.5, 500000, false); after[0] = [](int) { if (t[0].runs == 2) { cancel(1); } if (t[0].runs == 3) cancel(0); }; loop(100); expect(0, 3); end(); }
KS_HARNESS harness_repeating_before() { start(false); rep(0, I[1].s, I[1].us, true); at(sym("d1")); cancel(0); loop(100); expect(0, 0); expect(1, 1); end(); }
KS_HARNESS harness_repeating_twice() { start(false); rep(sym("d0"), I[2].s, I[2].us, false); at(sym("d1")); after[0] = [](int) { cancel(0); cancel(0); L->QueueToLoop([] { cancel(0); }); }; loop(100); expect(0, 1); expect(1, 1); end(); }
KS_HARNESS harness_repeating_reused() { start(false); reuse = true; rep(sym("d0"), I[2].s, I[2].us, false); later = sym("d1"); after[0] = [](int) { cancel(0); L->QueueToLoop([] { at(later); at(later); cancel(0); }); }; loop(100); expect(0, 1); expect(1, 1); expect(2, 1); end(); flush(); }
KS_HARNESS harness_cancelled_once_only() { // a cancellation doesn't outlive its round
  start(false); rep(sym("d0"), I[2].s, I[2].us, false); rep(sym("d1"), I[2].s, I[2].us, false); after[0] = [](int) { if (t[0].runs == 1) cancel(1); if (t[0].runs == 3) cancel(0); }; loop(100); expect(0, 3); end(); }
// ---- from functors and other threads
KS_HARNESS harness_functor() { start(false); three(); target = ks_choose(3, "which"); L->QueueToLoop([] { cancel(target); }); after[0] = [](int) { L->QueueToLoop([] { cancel(1); }); }; loop(100); others(); end(); }
static pthread_t other; static bool inEffect; static void *canceller(void *) { // what it asks for is in effect when a functor queued afterwards runs
  L->CancelTimer(id[target]); L->QueueToLoop([] { drop(target); inEffect = true; }); return nullptr; }
KS_HARNESS harness_cross() { start(false); at(sym("d0")); at(sym("d1")); target = ks_choose(2, "which"); sched_preempt = 2; pthread_create(&other, nullptr, canceller, nullptr); loop(100); pthread_join(other, nullptr); for (int i = 0; i < 2; i++) ks_check(t[i].runs <= 1 && (i == target || t[i].runs == 1), "a cancelled timer doesn't run again and the others run as often as asked"); end(); }
KS_HARNESS harness_cross_repeating() { start(false); rep(sym("d0"), I[2].s, I[2].us, false); at(sym("d1")); target = 0; sched_preempt = 1; pthread_create(&other, nullptr, canceller, nullptr); loop(5); pthread_join(other, nullptr); end(); }
static void *addCancel(void *) { TimerId x = L->RunAt(cb(1), TimeStamp(later)); L->CancelTimer(x); L->QueueToLoop([] { drop(1); }); return nullptr; }
KS_HARNESS harness_cross_add_cancel() { start(false); at(sym("d0")); later = sym("d1"); mk(later, 0); sched_preempt = 2; pthread_create(&other, nullptr, addCancel, nullptr); pthread_join(other, nullptr); loop(100); expect(0, 1); expect(1, 0); end(); }
