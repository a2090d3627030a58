// Thread pool under every bounded schedule.
#include "core.h"
#include "kanon/thread/thread_pool.h"
#include "kanon/thread/current_thread.h"
using namespace kanon;
#ifndef P
#define P 2
#endif
static ThreadPool *tp; static int ran[16], order[16], nran, pushed, finished, gate, N; static bool sequential; static int runningNow, maxRunning, alive;
static pthread_t th[6]; static int nth;
static void spawn(void *(*f)(void *)) { pthread_create(&th[nth++], nullptr, f, nullptr); }
static void joinAll() { for (int i = 0; i < nth; i++) pthread_join(th[i], nullptr); nth = 0; }
struct Token { int id; Token(int i) : id(i) { alive++; } Token(Token const &o) : id(o.id) { alive++; } ~Token() { alive--; } };
static void body(int i) { ks_check(ks_self() != 0, "a task runs in a worker thread"); ran[i]++; ks_check(ran[i] == 1, "a task runs once"); order[nran++] = i; ++runningNow; if (runningNow > maxRunning) maxRunning = runningNow; sched_point(); runningNow--; finished++; }
static void push(int i) { Token t(i); tp->Push([t] { body(t.id); }); pushed++; }
static void gated(int i) { Token t(i); tp->Push([t] { ran[t.id]++; order[nran++] = t.id; sched_wait_until([](void *) { return gate > 0; }, nullptr, false); finished++; }); pushed++; }
static void start(int bound, int workers, int p, int s = 0) { tp = new ThreadPool(bound); sched_spurious = s; sched_deadlock_msg = "tasks or workers wait for ever"; tp->StartRun(workers); sched_preempt = p; }
static void stop(int n) { delete tp; joinAll(); ks_check(nran == n && finished == n, "stopping the pool runs every accepted task"); for (int i = 0; i < n; i++) ks_check(ran[i] == 1, "every accepted task runs exactly once"); if (sequential) for (int i = 0; i < n; i++) ks_check(order[i] == i, "one worker runs the tasks in the order they were pushed"); ks_check(alive == 0, "the tasks are released"); for (int i = 1; i < sched_count(); i++) ks_check(sched_done(i), "stopping the pool finishes every worker"); ks_reach("end"); }
KS_HARNESS harness_fifo() { sequential = true; start(2, 1, P, 1); for (int i = 0; i < 4; i++) push(i); stop(4); }
KS_HARNESS harness_fifo_one_slot() { sequential = true; start(1, 1, P, 1); for (int i = 0; i < 3; i++) push(i); stop(3); }
KS_HARNESS harness_two_workers() { start(2, 2, P, 0); for (int i = 0; i < 3; i++) push(i); stop(3); }
KS_HARNESS harness_two_workers_one_slot() { start(1, 2, P - 1, 1); for (int i = 0; i < 3; i++) push(i); stop(3); }
static void *pusherA(void *) { push(0); push(1); return nullptr; }
static void *pusherB(void *) { push(2); push(3); return nullptr; }
KS_HARNESS harness_two_pushers() { start(1, 1, P - 1, 0); spawn(pusherA); spawn(pusherB); joinAll(); int a = -1, b = -1, c = -1, d = -1; delete tp; for (int i = 0; i < nran; i++) { if (order[i] == 0) a = i; if (order[i] == 1) b = i; if (order[i] == 2) c = i; if (order[i] == 3) d = i; } ks_check(nran == 4 && a >= 0 && b > a && c >= 0 && d > c, "one worker runs each pusher's tasks in the order they were pushed"); ks_check(alive == 0, "the tasks are released"); ks_reach("end"); }
KS_HARNESS harness_two_pushers_two_workers() { start(1, 2, P - 2, 0); spawn(pusherA); pusherB(nullptr); joinAll(); stop(4); }
static void *pushMany(void *) { for (int i = 1; i < N; i++) push(i); return nullptr; }
KS_HARNESS harness_bound() { int bound = (int)ks_range("bound", 1, 3); sequential = true; tp = new ThreadPool(bound); sched_deadlock_msg = "tasks or workers wait for ever"; tp->StartRun(1); sched_preempt = P - 1; gated(0); sched_yield_all(); N = 6; spawn(pushMany); sched_yield_all(); ks_check(pushed == 1 + bound, "pushers wait exactly when the queue is full"); gate = 1; joinAll(); ks_check(pushed == 6, "pushers go on when there is room"); stop(6); }
KS_HARNESS harness_bound_changed() { int b2 = (int)ks_range("bound2", 0, 3), ask = b2 == 3 ? -1 : b2; tp = new ThreadPool(2); tp->SetMaxQueueSize(ask); int bound = ask > 0 ? ask : 2; sequential = true; tp->StartRun(1); gated(0); sched_yield_all(); N = 6; spawn(pushMany); sched_yield_all(); ks_check(pushed == 1 + bound, "pushers wait exactly when the queue is full"); gate = 1; joinAll(); stop(6); }
KS_HARNESS harness_blocked_pushers() { start(1, 2, P - 2); gated(4); gated(5); sched_yield_all(); push(0); spawn([](void *) -> void * { push(1); return nullptr; }); spawn([](void *) -> void * { push(2); return nullptr; }); spawn([](void *) -> void * { push(3); return nullptr; }); sched_yield_all(); ks_check(pushed == 3, "pushers wait exactly when the queue is full"); gate = 1; joinAll(); ks_check(pushed == 6, "every waiting pusher goes on"); stop(6); }
KS_HARNESS harness_parallel() { start(4, 3, P - 1); gated(0); gated(1); gated(2); sched_yield_all(); ks_check(nran == 3 && finished == 0, "n workers run n tasks at once"); gate = 1; stop(3); }
KS_HARNESS harness_reuse() { start(2, 2, P - 1); for (int r = 0; r < 3; r++) { push(2 * r); push(2 * r + 1); sched_yield_all(); ks_check(finished == 2 * r + 2, "idle workers take new tasks"); } stop(6); }
KS_HARNESS harness_queued_before_start() { tp = new ThreadPool(3); sequential = true; push(0); push(1); push(2); sched_preempt = P; tp->StartRun(1); stop(3); }
KS_HARNESS harness_stop_idle() { start(2, 2, P + 1); delete tp; for (int i = 1; i < sched_count(); i++) ks_check(sched_done(i), "stopping the pool finishes every worker"); ks_reach("end"); }
KS_HARNESS harness_stop_busy() { start(3, 2, P - 1); gated(0); push(1); gated(2); sched_yield_all(); spawn([](void *) -> void * { sched_yield_all(); gate = 1; return nullptr; }); gate = 1; stop(3); joinAll(); }
KS_HARNESS harness_nested() { start(3, 1, P); sequential = true; tp->Push([] { body(0); push(2); }); pushed++; push(1); sched_yield_all(); ks_check(nran == 3, "a task may push a task"); sequential = false; stop(3); }
KS_HARNESS harness_empty_task() { start(2, 1, P); tp->Push(ThreadPool::Task()); push(0); sequential = true; stop(1); }
KS_HARNESS harness_room_for_all() { int bound = 1 + (int)ks_choose(3, "bound"); sched_spurious = 0; sched_deadlock_msg = "a waiting pusher is not woken though there is room"; tp = new ThreadPool(bound); for (int i = 0; i < bound; i++) push(i); static int next; next = bound; for (int i = 0; i < 3; i++) spawn([](void *) -> void * { push(next++); return nullptr; }); sched_yield_all(); ks_check(pushed == bound, "pushers wait exactly when the queue is full"); sched_preempt = P - 2; tp->StartRun(1); joinAll(); stop(bound + 3); }
