// Timers of an event loop against a virtual clock with symbolic deadlines, delays and lateness of wake-ups.
#pragma once
#include "net.h"
#include "kanon/net/event_loop.h"
#include "kanon/log/logger.h"
#include <string.h>
using namespace kanon;
#ifndef SPAN
#define SPAN 3000000
#endif
static EventLoop *L; static int loopTid, baseFds, lates; static bool checking = true;
struct T { int64_t deadline, interval; bool pending, fresh; int runs; };
static T t[10]; static int n, total, want; static int64_t roundNow; static int inRound;
static int64_t later; static int alive; struct Token { int id; Token(int i) : id(i) { alive++; } Token(Token const &o) : id(o.id) { alive++; } ~Token() { alive--; } };
static void (*after[10])(int); static TimerId id[10]; static bool settled; static int64_t slow[10];
// ---- clock
static int64_t Base = 1700000000000000; static uint64_t cs, cu;
static bool clockTs(struct timespec *ts) { // seconds and microseconds of the current time, without a division
  int64_t off = k_now_us - Base; if (!ks_is_sym((uint64_t)off)) return false;
  cs = ks_range("sec", 0, 1000); cu = ks_range("usec", 0, 999999); ks_assume((int64_t)(cs * 1000000 + cu) == off);
  ts->tv_sec = (time_t)(Base / 1000000 + cs); ts->tv_nsec = (long)(cu * 1000); return true; }
static bool mayWake; static int idleWakes;
static bool onIdle() { // the loop is about to block
  if (n == 0) return false;
  bool any = false; int64_t e = 0; for (int i = 0; i < n; i++) if (t[i].pending && (!any || t[i].deadline < e)) { any = true; e = t[i].deadline; }
  int fd = -1; for (int i = 10; i < k_nfd; i++) if (k_fd[i].open && k_fd[i].kind == K_TIMER && k_fd[i].armed && (fd < 0 || k_fd[i].deadline < k_fd[fd].deadline)) fd = i;
  if (any) { ks_check(fd >= 0, "the kernel timer is armed while a timer is pending"); int64_t lim = e > k_now_us ? e : k_now_us; ks_check(k_fd[fd].deadline <= lim + 1000, "the kernel timer is armed for the earliest deadline");
    if (!mayWake && k_fd[fd].deadline + 1000 < e) { idleWakes++; ks_check(idleWakes <= 2, "the loop sleeps while no timer is due"); } } // (once in a while would be harmless)
  if (fd < 0) { settled = true; return true; }
  int64_t d = k_fd[fd].deadline; if (d > k_now_us) k_now_us = d; if (lates > 0) { lates--; k_now_us += (int64_t)ks_range("late", 0, SPAN); }
  return true; }
static void onEvent(int, int fd, uint32_t) { if (k_fd[fd].kind == K_TIMER) { roundNow = k_now_us; for (int i = 0; i < n; i++) t[i].fresh = false; } }
static void run(int i) {
  T &x = t[i]; ks_check(ks_self() == loopTid, "a timer runs in its loop's thread"); ks_check(x.pending, "a timer runs as often as asked"); ks_check(k_now_us >= x.deadline, "a timer never runs before its deadline");
  ks_check(!x.fresh, "a timer added while timers run waits for the next round");
  for (int j = 0; j < n; j++) if (j != i && t[j].pending && !t[j].fresh) ks_check(t[j].deadline >= x.deadline, "timers due together run in the order of their deadlines");
  x.runs++; total++; x.pending = false; if (x.interval) { x.deadline = roundNow + x.interval; x.pending = true; x.fresh = true; }
  if (slow[i]) k_now_us += slow[i]; if (after[i]) after[i](i); }
static int mk(int64_t deadline, int64_t interval) { int i = n++; t[i] = T(); t[i].deadline = deadline; t[i].interval = interval; t[i].pending = true; t[i].fresh = true; return i; }
static TimerCallback cb(int i) { Token k(i); return [k] { int i = k.id; run(i); ks_check(k.id == i, "a callback is not released while it runs"); }; }
static int at(int64_t deadline) { int i = mk(deadline, 0); id[i] = L->RunAt(cb(i), TimeStamp(deadline)); return i; }
static int64_t sym(const char *nm) { return k_now_us - 1000 + (int64_t)ks_range(nm, 0, SPAN); } // from a millisecond ago to three seconds ahead
static void start(bool poll) { SetKanonLog(false); k_auto_timer = false; k_now_us = Base + 250000; k_clock_ts = clockTs; k_on_wait = onIdle; k_on_event = onEvent; loopTid = ks_self(); baseFds = k_open_count; sched_deadlock_msg = "a timer waits for ever"; L = new EventLoop(poll); roundNow = k_now_us; }
static void *quitter(void *) { sched_wait_until([](void *) { return total >= want || settled; }, nullptr, false); L->Quit(); return nullptr; }
static void loop(int w) { want = w; pthread_t th; pthread_create(&th, nullptr, quitter, nullptr); L->StartLoop(); pthread_join(th, nullptr); }
static void end() { delete L; ks_check(alive == 0, "the callbacks are released"); ks_check(k_open_count == baseFds, "no descriptor outlives the loop"); ks_reach("end"); }
static void once(int k) { for (int i = 0; i < k; i++) ks_check(t[i].runs == 1, "a one-shot timer runs exactly once"); ks_check(total == k, "a one-shot timer runs exactly once"); }
static int rep(int64_t deadline, double iv, int64_t us, bool form) { int i = mk(form ? k_now_us + us : deadline, us); if (form) id[i] = L->RunEvery(cb(i), iv); else id[i] = L->RunEvery(cb(i), TimeStamp(deadline), iv); return i; }
static const struct { double s; int64_t us; } I[] = {{0.000001, 1}, {0.0005, 500}, {0.25, 250000}, {2, 2000000}};
