// Timers: when and how often they run.
#include "timers.h"
KS_HARNESS harness_one() { start(ks_choose(2, "poll")); lates = 1; at(sym("d")); loop(1); once(1); end(); }
KS_HARNESS harness_three() { start(false); at(sym("d0")); at(sym("d1")); at(sym("d2")); loop(3); once(3); end(); }
KS_HARNESS harness_three_late() { start(false); lates = 1; at(sym("d0")); at(sym("d1")); at(sym("d2")); loop(3); once(3); end(); }
KS_HARNESS harness_three_poll() { start(true); at(sym("d0")); at(sym("d1")); at(sym("d2")); loop(3); once(3); end(); }
KS_HARNESS harness_four() { start(false); lates = 1; int64_t a = sym("d0"), b = sym("d1"); at(a); at(b); at(a + (int64_t)ks_range("gap", 0, 1)); at(b); loop(4); once(4); end(); } // equal and neighbouring deadlines
// ---- added while running
static void addLater(int) { at(later); }
KS_HARNESS harness_add_in_callback() { start(false); lates = 1; at(sym("d0")); at(sym("d1")); later = sym("d2"); after[0] = addLater; loop(3); once(3); end(); }
static void addNow(int) { at(k_now_us); }
KS_HARNESS harness_add_due_in_callback() { start(ks_choose(2, "poll")); at(sym("d0")); at(sym("d1")); after[0] = addNow; after[1] = [](int) { at(k_now_us - 5); }; loop(4); once(4); end(); }
KS_HARNESS harness_chain() { start(false); at(sym("d0")); after[0] = after[1] = [](int) { at(k_now_us + 700); }; later = sym("d9"); at(later); loop(4); once(4); end(); }
KS_HARNESS harness_slow() { start(false); int64_t a = sym("d0"), b = sym("d1"); at(a); at(b); slow[0] = (int64_t)ks_range("slow", 0, SPAN); later = sym("d2"); after[0] = addLater; loop(3); once(3); end(); }
static pthread_t adder; static void *add2(void *) { at(later); return nullptr; }
KS_HARNESS harness_cross() { start(ks_choose(2, "poll")); at(sym("d0")); later = sym("d1"); pthread_create(&adder, nullptr, add2, nullptr); pthread_join(adder, nullptr); roundNow = k_now_us; loop(2); once(2); end(); }
static void *add3(void *) { // other thread adds a timer, the loop being idle
  sched_yield_all(); int i = mk(later, 0); L->RunAt(cb(i), TimeStamp(later)); sched_yield_all(); return nullptr; }
KS_HARNESS harness_cross_idle() { start(false); at(sym("d0")); later = sym("d1"); sched_preempt = 2; pthread_create(&adder, nullptr, add3, nullptr); loop(2); pthread_join(adder, nullptr); once(2); end(); }
KS_HARNESS harness_from_functor() { start(false); lates = 1; at(sym("d0")); later = sym("d1"); L->QueueToLoop([] { at(later); }); L->QueueToLoop([] { at(later + 1); }); loop(3); once(3); end(); }
// ---- the ways to give a delay
KS_HARNESS harness_after() { start(false); lates = 1; int64_t now = k_now_us; int64_t us = (int64_t)ks_range("us", 0, SPAN), ms = (int64_t)ks_range("ms", 0, 3000); static const struct { double s; int64_t us; } D[] = {{0, 0}, {0.000001, 1}, {0.25, 250000}, {1.5, 1500000}, {3, 3000000}}; int w = ks_choose(5, "delay");
  { int i = mk(now + us, 0); L->RunAfterUs(cb(i), (uint64_t)us); } { int i = mk(now + ms * 1000, 0); L->RunAfterMs(cb(i), (uint64_t)ms); } { int i = mk(now + D[w].us, 0); L->RunAfter(cb(i), D[w].s); } loop(3); once(3); end(); }
// ---- repeating
static void repEnd() { end(); }
KS_HARNESS harness_every() { start(ks_choose(2, "poll")); int w = ks_choose(4, "interval"); lates = 2; rep(0, I[w].s, I[w].us, true); loop(4); ks_check(t[0].runs >= 4, "a repeating timer repeats"); repEnd(); }
KS_HARNESS harness_every_from() { start(false); int w = ks_choose(4, "interval"); lates = 1; rep(sym("d0"), I[w].s, I[w].us, false); loop(3); ks_check(t[0].runs >= 3, "a repeating timer repeats"); repEnd(); }
KS_HARNESS harness_every_once() { start(false); rep(sym("d0"), I[2].s, I[2].us, false); at(sym("d1")); loop(5); ks_check(t[1].runs <= 1, "a one-shot timer runs exactly once"); repEnd(); }
KS_HARNESS harness_two_repeating() { start(false); int w = ks_choose(2, "interval"); rep(sym("d0"), I[2].s, I[2].us, false); rep(0, w ? 2.0 : 0.5, w ? 2000000 : 500000, true); loop(5); ks_check(t[0].runs + t[1].runs >= 5, "a repeating timer repeats"); repEnd(); }
KS_HARNESS harness_every_slow() { start(false); slow[0] = (int64_t)ks_range("slow", 0, 1000000); rep(sym("d0"), I[2].s, I[2].us, false); at(sym("d1")); loop(4); repEnd(); }
KS_HARNESS harness_zero_interval() { start(false); lates = 1; int i = mk(0, 0); t[i].deadline = sym("d0"); bool neg = ks_choose(2, "negative"); L->RunEvery(cb(i), TimeStamp(t[i].deadline), neg ? -1.0 : 0.0); at(sym("d1")); loop(2); once(2); end(); } // no interval: once
// ---- the kernel timer fires without anything being due (its clock isn't the one the deadlines are given in)
static int early; static bool onIdleEarly() { if (early > 0) { early--; for (int i = 10; i < k_nfd; i++) if (k_fd[i].kind == K_TIMER && k_fd[i].open && k_fd[i].armed) { k_fd[i].armed = false; k_fd[i].expir = 1; k_fd[i].edges++; k_now_us += (int64_t)ks_range("early", 0, 100000); return true; } } return onIdle(); }
KS_HARNESS harness_early() { start(ks_choose(2, "poll")); k_on_wait = onIdleEarly; early = 2; at(sym("d0")); at(sym("d1")); loop(2); once(2); end(); }
KS_HARNESS harness_edge() { start(false); L->SetEdgeTriggerMode(); lates = 1; at(sym("d0")); at(sym("d1")); later = sym("d2"); after[0] = addLater; loop(3); once(3); end(); }
// ---- a loop that is destroyed with pending timers releases them
KS_HARNESS harness_destroy() { start(ks_choose(2, "poll")); at(sym("d0")); at(k_now_us + SPAN * 2); rep(k_now_us + SPAN * 2, I[3].s, I[3].us, false); loop(1); ks_check(total == 1, "a one-shot timer runs exactly once"); end(); }
KS_HARNESS harness_never_run() { start(ks_choose(2, "poll")); at(sym("d0")); at(sym("d1")); end(); }
