// Count-down latches under every bounded schedule, spurious wake-ups included.
#include "core.h"
#include "kanon/thread/count_down_latch.h"
using namespace kanon;
#ifndef P
#define P 3
#endif
static CountDownLatch *l; static int downs, need, passed, waiters; static bool early;
static pthread_t th[6]; static int nth;
static void spawn(void *(*f)(void *)) { pthread_create(&th[nth++], nullptr, f, nullptr); }
static void joinAll() { for (int i = 0; i < nth; i++) pthread_join(th[i], nullptr); nth = 0; }
static void opened() { ks_check(downs >= need, "a waiter passes only when the count has reached zero"); passed++; ks_reach("passed"); }
static void *waiter(void *) { l->Wait(); opened(); return nullptr; }
static void *counter(void *) { downs++; l->Countdown(); return nullptr; }
static void *counter2(void *) { downs++; l->Countdown(); downs++; l->Countdown(); return nullptr; }
static void start(int n, int p, int s) { need = n; l = new CountDownLatch(n); sched_preempt = p; sched_spurious = s; sched_deadlock_msg = "a waiter of an open latch is never released"; }
static void done(int w) { joinAll(); ks_check(passed == w, "every waiter is released"); ks_check(l->GetCount() == need - downs, "the count is the initial count minus the count-downs"); l->Wait(); delete l; ks_reach("end"); }
KS_HARNESS harness_one() { start(2, P, 1); spawn(waiter); spawn(counter); counter(nullptr); done(1); }
KS_HARNESS harness_two_waiters() { start(1, P, 1); spawn(waiter); spawn(waiter); counter(nullptr); done(2); }
KS_HARNESS harness_two_counters() { start(3, P - 1, 1); spawn(waiter); spawn(counter2); spawn(counter); waiter(nullptr); done(2); }
KS_HARNESS harness_late() { start(2, P - 1, 1); counter2(nullptr); spawn(waiter); waiter(nullptr); done(2); }
KS_HARNESS harness_below_zero() { start(1, P - 1, 0); spawn(waiter); spawn(counter2); done(1); }
KS_HARNESS harness_zero() { start(0, P, 0); spawn(waiter); waiter(nullptr); done(2); }
KS_HARNESS harness_closed() { start(2, P - 1, 1); sched_deadlock_ok = true; spawn(waiter); spawn(waiter); counter(nullptr); sched_yield_all(); ks_check(passed == 0, "a latch whose count is not zero holds its waiters"); ks_check(l->GetCount() == 1, "the count is the initial count minus the count-downs"); ks_reach("closed"); counter(nullptr); sched_deadlock_ok = false; done(2); }
// ---- changing the count
static void *resetZero(void *) { need = 0; l->Reset(0); return nullptr; }
KS_HARNESS harness_reset_opens() { start(2, P - 1, 1); spawn(waiter); spawn(waiter); resetZero(nullptr); joinAll(); ks_check(passed == 2, "every waiter is released"); delete l; ks_reach("end"); }
static void *resetWait(void *) { l->ResetAndWait(need); opened(); return nullptr; }
KS_HARNESS harness_reset_wait() { start(0, P - 1, 1); need = 2; spawn(resetWait); sched_yield_all(); ks_check(passed == 0, "the raised count holds the waiter"); spawn(waiter); spawn(counter); sched_yield_all(); ks_check(passed == 0, "the raised count holds the waiters"); counter(nullptr); done(2); }
static int addBy; static void *addWait(void *) { l->AddAndWait(addBy); opened(); return nullptr; }
static void *incrWait(void *) { l->IncrAndWait(); opened(); return nullptr; }
KS_HARNESS harness_add_wait() { start(1, P - 1, 1); addBy = 1; need = 2; spawn(addWait); sched_yield_all(); spawn(counter); sched_yield_all(); ks_check(passed == 0 && l->GetCount() == 1, "the raised count holds the waiter"); counter(nullptr); done(1); }
KS_HARNESS harness_incr_wait() { start(0, P - 1, 1); need = 2; spawn(incrWait); spawn(incrWait); sched_yield_all(); ks_check(passed == 0 && l->GetCount() == 2, "the raised count holds the waiter"); spawn(counter); counter(nullptr); done(2); }
KS_HARNESS harness_add() { int a = (int)ks_range("count", 1, 3), b = (int)ks_range("add", 0, 2); l = new CountDownLatch(a); l->Add(b); l->Incr(); need = a + b + 1; sched_preempt = P - 2; sched_spurious = 1; spawn(waiter); while (downs < need) { ks_check(passed == 0, "the raised count holds the waiter"); counter(nullptr); } done(1); }
KS_HARNESS harness_minus() { int a = (int)ks_range("count", 1, 4); start(a, P - 1, 1); spawn(waiter); sched_yield_all(); if (a > 1) { l->Minus(a - 1); sched_yield_all(); ks_check(passed == 0, "a latch whose count is not zero holds its waiters"); } downs = a; l->Decr(); done(1); }
KS_HARNESS harness_minus_below() { start(2, P - 1, 1); spawn(waiter); spawn(waiter); downs = 2 + (int)ks_range("beyond", 1, 4); if (ks_choose(2, "reset")) l->Reset(2 - downs); else l->Minus(downs); done(2); }
KS_HARNESS harness_decr_opens() { start(1, P - 1, 1); spawn(waiter); spawn(waiter); downs++; l->Decr(); done(2); }
KS_HARNESS harness_minus_opens() { start(3, P - 1, 1); spawn(waiter); spawn(waiter); downs = 3; l->Minus(3); done(2); }
