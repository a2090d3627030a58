// Loop threads and loop pools, with preemptions at any shared access of their code.
#include "net.h"
#include "kanon/net/event_loop.h"
#include "kanon/net/event_loop_pool.h"
#include "kanon/log/logger.h"
#include <memory>
using namespace kanon;
#ifndef P
#define P 2
#endif
#ifndef MAXN
#define MAXN 2
#endif
static EventLoop *base, *lp[4]; static int tid[4], inits, ran, baseFds, n; static pthread_t th[4]; static int nth;
static void spawn(void *(*f)(void *)) { pthread_create(&th[nth++], nullptr, f, nullptr); }
static void joinAll() { for (int i = 0; i < nth; i++) pthread_join(th[i], nullptr); nth = 0; }
static void start(int p) { SetKanonLog(false); baseFds = k_open_count; sched_deadlock_msg = "a loop's thread, or whoever waits for it, waits for ever"; sched_preempt = p; }
static void finished() { joinAll(); for (int i = 1; i < sched_count(); i++) ks_check(sched_done(i), "destroying the loops finishes their threads"); ks_check(k_open_count == baseFds, "no descriptor outlives the loops"); ks_reach("end"); }
static void init(EventLoop *l) { ks_check(l != nullptr && l->IsLoopInThread() && ks_self() != 0, "a loop belongs to the thread that runs it"); int i = inits++; lp[i] = l; tid[i] = ks_self(); for (int j = 0; j < i; j++) ks_check(tid[j] != tid[i] && lp[j] != l, "each thread runs its own loop"); }
static int indexOf(EventLoop *l) { for (int i = 0; i < inits; i++) if (lp[i] == l) return i; return -1; }
static void cyclic(EventLoopPool &pool, int calls) { EventLoop *seen[4]; for (int k = 0; k < calls; k++) { EventLoop *l = pool.GetNextLoop(); if (n == 0) { ks_check(l == base, "the base loop when there are no threads"); continue; } ks_check(l != nullptr && l != base && indexOf(l) >= 0, "a loop is handed out after its thread has set it up"); if (k < n) { seen[k] = l; for (int j = 0; j < k; j++) ks_check(seen[j] != l, "the loops are handed out in turn"); } else ks_check(l == seen[k % n], "the loops are handed out in turn"); } }
KS_HARNESS harness_pool() { start(P); base = new EventLoop; n = (int)ks_choose(MAXN + 1, "loops"); { EventLoopPool pool(base, "p"); ks_check(!pool.IsStarted(), "a pool isn't started by itself"); pool.SetLoopNum(n); ks_check(pool.GetLoopNum() == n, "the number of loops is as asked"); pool.StartRun(init); ks_check(pool.IsStarted() && inits == n, "the callback runs once for each loop before it is handed out"); cyclic(pool, 2 * n + 2); } delete base; finished(); }
KS_HARNESS harness_pool_many() { start(0); base = new EventLoop; n = 3; { EventLoopPool pool(base, "p"); pool.SetLoopNum(n); pool.StartRun(init); ks_check(inits == n, "the callback runs once for each loop before it is handed out"); cyclic(pool, 10); } delete base; finished(); }
KS_HARNESS harness_pool_nocb() { start(P - 1); base = new EventLoop; n = 2; { EventLoopPool pool(base); pool.SetLoopNum(n); pool.StartRun(); EventLoop *a = pool.GetNextLoop(), *b = pool.GetNextLoop(); ks_check(a != b && a && b && a != base && b != base && !a->IsLoopInThread(), "the loops are handed out in turn"); ks_check(pool.GetNextLoop() == a && pool.GetNextLoop() == b, "the loops are handed out in turn"); } delete base; finished(); }
// work given to the loops runs in their threads
static int done;
static void work(EventLoop *l, bool run) { int i = indexOf(l); auto f = [i] { ks_check(ks_self() == tid[i] && lp[i]->IsLoopInThread(), "work given to a loop runs in its thread"); ran |= 1 << i; done++; }; if (run) l->RunInLoop(f); else l->QueueToLoop(f); }
static void poolWork(bool run) { start(P); base = new EventLoop; n = 2; { EventLoopPool pool(base, "p"); pool.SetLoopNum(n); pool.StartRun(init); work(pool.GetNextLoop(), run); work(pool.GetNextLoop(), run); work(pool.GetNextLoop(), run); sched_wait_until([](void *) { return done == 3; }, nullptr, false); ks_check(ran == 3, "every loop runs"); } delete base; finished(); }
KS_HARNESS harness_pool_queue() { poolWork(false); } KS_HARNESS harness_pool_run() { poolWork(true); }
KS_HARNESS harness_pool_quit() { // the user quits some of the loops
  start(P); base = new EventLoop; n = 2; { EventLoopPool pool(base, "p"); pool.SetLoopNum(n); pool.StartRun(init); unsigned who = 1 + ks_choose(3, "who"); EventLoop *a = pool.GetNextLoop(), *b = pool.GetNextLoop(); if (who & 1) a->Quit(); if (who & 2) b->Quit(); } delete base; finished(); }
// ---- one thread
static EventLoopThread *t;
KS_HARNESS harness_thread() { start(P + 1); t = new EventLoopThread("x"); ks_check(t->GetLoop() == nullptr, "no loop before the start"); EventLoop *l = t->StartRun(init); ks_check(inits == 1 && l == lp[0] && t->GetLoop() == l && tid[0] != 0, "the loop handed out is the one set up by its thread"); delete t; finished(); }
KS_HARNESS harness_thread_nocb() { start(P + 1); t = new EventLoopThread; EventLoop *l = t->StartRun(); ks_check(l != nullptr && !l->IsLoopInThread(), "the loop runs in another thread"); delete t; finished(); }
KS_HARNESS harness_unstarted() { start(P); { EventLoopThread u("never"); ks_check(u.GetLoop() == nullptr, "no loop before the start"); } finished(); }
KS_HARNESS harness_quit_destroy() { start(P + 1); t = new EventLoopThread; EventLoop *l = t->StartRun(init); l->Quit(); delete t; finished(); }
KS_HARNESS harness_quit_wait_destroy() { start(P + 1); t = new EventLoopThread; EventLoop *l = t->StartRun(init); l->Quit(); sched_wait_until([](void *) { return sched_done(1); }, nullptr, false); ks_check(t->GetLoop() == nullptr, "a loop that has quit isn't handed out"); delete t; finished(); }
KS_HARNESS harness_functor_quits() { start(P + 1); t = new EventLoopThread; EventLoop *l = t->StartRun(init); l->QueueToLoop([] { ks_check(ks_self() == tid[0], "work given to a loop runs in its thread"); ran++; lp[0]->Quit(); }); sched_wait_until([](void *) { return ran == 1; }, nullptr, false); delete t; finished(); }
KS_HARNESS harness_functor_quit_race() { start(P + 1); t = new EventLoopThread; EventLoop *l = t->StartRun(init); l->RunInLoop([] { ran++; lp[0]->Quit(); }); delete t; ks_check(ran <= 1, "work runs at most once"); finished(); }
KS_HARNESS harness_other_quits() { start(P + 1); t = new EventLoopThread; EventLoop *l = t->StartRun(init); spawn([](void *) -> void * { lp[0]->Quit(); return nullptr; }); joinAll(); delete t; finished(); }
KS_HARNESS harness_init_quits() { start(P + 1); t = new EventLoopThread; t->StartRun([](EventLoop *l) { init(l); l->Quit(); }); ks_check(inits == 1, "the callback runs once"); delete t; finished(); }
KS_HARNESS harness_init_queues() { start(P + 1); t = new EventLoopThread; EventLoop *l = t->StartRun([](EventLoop *l) { init(l); l->QueueToLoop([] { ks_check(ks_self() == tid[0], "work given to a loop runs in its thread"); ran = 1; }); l->RunInLoop([] { ks_check(ks_self() == tid[0], "work given to a loop runs in its thread"); done++; }); ks_check(done == 1, "the run form runs at once in the loop's thread"); }); sched_wait_until([](void *) { return ran == 1; }, nullptr, false); ks_check(l == lp[0], "the loop handed out is the one set up by its thread"); delete t; finished(); }
KS_HARNESS harness_slow_start() { // the starter may wake up spuriously
  sched_spurious = 2; start(P + 1); t = new EventLoopThread; EventLoop *l = t->StartRun(init); ks_check(inits == 1 && l == lp[0], "a loop is handed out after its thread has set it up"); delete t; finished(); }
KS_HARNESS harness_two_threads() { start(P); auto *a = new EventLoopThread("a"), *b = new EventLoopThread("b"); EventLoop *la = a->StartRun(init), *lb = b->StartRun(init); ks_check(la == lp[0] && lb == lp[1], "each thread runs its own loop"); delete a; lb->QueueToLoop([] { ran = 1; }); sched_wait_until([](void *) { return ran == 1; }, nullptr, false); delete b; finished(); }
