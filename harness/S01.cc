// Mutexes, conditions: every schedule with a bounded number of preemptions at any access of shared memory.
#include "net.h"
#include "kanon/thread/mutex_lock.h"
#include "kanon/thread/condition.h"
using namespace kanon;
static MutexLock *mu; static Condition *cv; static int inside, total, held, tried, failed; static bool ready, stop; static int woken; static int rounds = 1;
static pthread_t th[4]; static int nth;
static void spawn(void *(*f)(void *)) { pthread_create(&th[nth++], nullptr, f, nullptr); }
static void joinAll() { for (int i = 0; i < nth; i++) pthread_join(th[i], nullptr); nth = 0; }
static void section() {
  ks_check(inside == 0, "two threads hold the mutex at once"); inside = inside + 1;
  ks_check(mu->IsLockedInThisThread(), "the holder is known to hold the mutex"); mu->AssertLocked();
  int t = total; total = t + 1; ks_check(inside == 1, "two threads hold the mutex at once"); inside = inside - 1; }
static void *locker(void *) { for (int r = 0; r < rounds; r++) { ks_check(!mu->IsLockedInThisThread(), "a thread that does not hold the mutex is not its holder"); mu->Lock(); section(); mu->Unlock(); ks_check(!mu->IsLockedInThisThread(), "a thread that does not hold the mutex is not its holder"); } return nullptr; }
static void *guarder(void *) { for (int r = 0; r < rounds; r++) { { MutexGuard g(*mu); section(); } { auto &m = *mu; KANON_MUTEX_LOCKTYPE_GUARD(MutexLock, m); section(); } ks_check(!mu->IsLockedInThisThread(), "a thread that does not hold the mutex is not its holder"); } return nullptr; }
static void *trier(void *) { for (int r = 0; r < rounds; r++) { if (mu->TryLock()) { ks_reach("try-got"); tried++; section(); mu->Unlock(); } else { ks_reach("try-busy"); failed++; ks_check(!mu->IsLockedInThisThread(), "a failed try-lock does not make the thread the holder"); } } return nullptr; }
static void start(int p, int s = 0, int t = 0) { mu = new MutexLock; cv = new Condition(*mu); sched_preempt = p; sched_spurious = s; sched_timeouts = t; }
static void done() { joinAll(); ks_check(inside == 0, "all sections are over"); ks_check(!mu->IsLockedInThisThread(), "the free mutex has no holder"); delete cv; delete mu; }
#ifndef P
#define P 3
#endif
KS_HARNESS harness_lock() { start(P); rounds = 2; spawn(locker); locker(nullptr); joinAll(); ks_check(total == 4, "no update under the mutex is lost"); ks_reach("end"); done(); }
KS_HARNESS harness_guard() { start(P - 1); spawn(guarder); spawn(locker); guarder(nullptr); joinAll(); ks_check(total == 5, "no update under the mutex is lost"); ks_reach("end"); done(); }
KS_HARNESS harness_try() { start(P); rounds = 1; spawn(locker); rounds = 1; trier(nullptr); trier(nullptr); joinAll(); ks_check(total == tried + 1, "no update under the mutex is lost"); ks_check(mu->TryLock(), "a try-lock succeeds when the mutex is free"); section(); mu->Unlock(); ks_reach("end"); done(); }
KS_HARNESS harness_try_two() { start(P - 1); spawn(trier); spawn(trier); trier(nullptr); joinAll(); ks_check(total == tried, "no update under the mutex is lost"); ks_check(tried >= 1, "of several try-locks one succeeds"); done(); }
KS_HARNESS harness_try_held() { start(1); mu->Lock(); spawn(trier); sched_yield_all(); ks_check(failed == 1 && tried == 0, "a try-lock fails while another thread holds the mutex"); ks_check(mu->IsLockedInThisThread(), "a failed try-lock of another thread leaves the holder"); inside = 0; section(); mu->Unlock(); done(); }
// ---- conditions
static void *waiter(void *) { mu->Lock(); while (!ready) { cv->Wait(); ks_check(mu->IsLockedInThisThread(), "a waiter holds the mutex again after the wait"); ks_check(inside == 0, "a waiter re-acquires the mutex before it goes on"); } section(); woken++; mu->Unlock(); return nullptr; }
static void *oneWait(void *) { MutexGuard g(*mu); held++; cv->Wait(); ks_check(mu->IsLockedInThisThread(), "a waiter holds the mutex again after the wait"); section(); woken++; return nullptr; }
KS_HARNESS harness_cond() { start(P, 1); spawn(waiter); mu->Lock(); section(); ready = true; cv->Notify(); section(); mu->Unlock(); joinAll(); ks_check(woken == 1 && total == 3, "the waiter is woken"); ks_reach("end"); done(); }
KS_HARNESS harness_cond_outside() { start(P, 1); spawn(waiter); mu->Lock(); ready = true; mu->Unlock(); cv->Notify(); joinAll(); ks_check(woken == 1, "the waiter is woken"); ks_reach("end"); done(); }
KS_HARNESS harness_cond_all() { start(P - 1, 1); spawn(waiter); spawn(waiter); mu->Lock(); ready = true; cv->NotifyAll(); section(); mu->Unlock(); joinAll(); ks_check(woken == 2, "every waiter is woken"); ks_reach("end"); done(); }
static int heldWaiting(void *) { return 0; }
KS_HARNESS harness_wait_releases() { (void)heldWaiting; start(P - 1); spawn(oneWait); sched_yield_all(); ks_check(held == 1 && woken == 0, "the wait blocks"); ks_check(!mu->IsLockedInThisThread(), "the wait does not make others the holder"); ks_check(mu->TryLock(), "the wait releases the mutex"); section(); cv->Notify(); ks_check(mu->IsLockedInThisThread(), "notifying keeps the mutex"); sched_yield_all(); ks_check(woken == 0, "a woken waiter goes on only when the mutex is free"); mu->Unlock(); joinAll(); ks_check(woken == 1, "notify wakes the waiter"); done(); }
KS_HARNESS harness_notify_one() { start(1); spawn(oneWait); spawn(oneWait); sched_yield_all(); cv->Notify(); sched_yield_all(); ks_check(woken == 1, "notify wakes one waiter"); cv->Notify(); joinAll(); ks_check(woken == 2, "notify wakes one waiter"); done(); }
KS_HARNESS harness_notify_all() { start(1); spawn(oneWait); spawn(oneWait); sched_yield_all(); cv->NotifyAll(); joinAll(); ks_check(woken == 2, "notify-all wakes every waiter"); ks_reach("end"); done(); }
// ---- timed waits
static const double Secs[] = {0.0, 1.0, 0.5, 1.25, 0.001, 2.999999999, 3600.0, 86400.5, 5000000.25, 0.999999, 10000.0};
static int64_t t0s, t0n, want; static bool clk(struct timespec *t) { t->tv_sec = t0s; t->tv_nsec = t0n; return true; } static double secs; static int whole; static bool useInt, expired; static int64_t sub;
static void *timedWaiter(void *) { MutexGuard g(*mu); bool r = useInt ? cv->WaitForSeconds(whole) : cv->WaitForSeconds(secs);
  ks_check(sched_deadline_ns >= 0 && sched_deadline_ns < 1000000000, "the deadline has a nanosecond field below a second");
  int64_t ws = want / 1000000000, wn = want % 1000000000, c = t0n + wn >= 1000000000; int64_t ds = sched_deadline_s - t0s - ws - c, dn = sched_deadline_ns - (t0n + wn - c * 1000000000); ks_check((ds == 0 && dn >= -1000 && dn <= 1000) || (ds == 1 && dn <= -999999000) || (ds == -1 && dn >= 999999000), "the deadline is now plus the requested seconds");
  ks_check(mu->IsLockedInThisThread(), "a timed waiter holds the mutex again after the wait"); section(); expired = r; woken++; return nullptr; }
static void timedStart() { start(P - 2, 0, 1); useInt = ks_choose(2, "int"); whole = useInt ? (const int[]){0, 1, 5, 86400, 4000000}[ks_choose(5, "secs")] : 0; unsigned i = useInt ? 0 : ks_choose(sizeof Secs / sizeof *Secs, "seconds"); secs = Secs[i]; want = useInt ? int64_t(whole) * 1000000000 : int64_t(secs * 1e9);
  t0s = (int64_t)ks_range("sec", 0, 4000000000u); t0n = (int64_t)ks_range("ns", 0, 999999999); k_clock_ts = clk; }
KS_HARNESS harness_timed_out() { timedStart(); spawn(timedWaiter); joinAll(); ks_check(expired, "a timed wait nobody notifies reports the time-out"); ks_reach("end"); done(); }
KS_HARNESS harness_timed_notified() { timedStart(); sched_preempt = 0; sched_timeouts = 0; spawn(timedWaiter); sched_yield_all(); cv->Notify(); sched_yield_all(); ks_check(woken == 1 && !expired, "a timed wait that is notified in time reports no time-out"); ks_reach("end"); done(); }
KS_HARNESS harness_timed_race() { start(P - 1, 0, 1); secs = 1.0; want = 1000000000; t0s = 5; t0n = 7; k_clock_ts = clk; spawn(timedWaiter); mu->Lock(); cv->Notify(); section(); mu->Unlock(); joinAll(); ks_check(woken == 1, "a timed waiter always goes on"); ks_reach("end"); done(); }
