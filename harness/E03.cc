// Functors and quitting of an event loop, with preemptions at any shared access of the loop's code.
#include "net.h"
#include "kanon/net/event_loop.h"
#include "kanon/net/channel.h"
#include "kanon/log/logger.h"
#include <memory>
using namespace kanon;
#ifndef P
#define P 2
#endif
static EventLoop *L; static int ran[16], order[16], nran, alive, loopTid; static bool finished, anyEnd; static int N; static pthread_t th[4]; static int nth;
static void spawn(void *(*f)(void *)) { pthread_create(&th[nth++], nullptr, f, nullptr); }
static void joinAll() { for (int i = 0; i < nth; i++) pthread_join(th[i], nullptr); nth = 0; }
struct Token { int id; Token(int i) : id(i) { alive++; } Token(Token const &o) : id(o.id) { alive++; } ~Token() { alive--; } };
static void body(int i) { ks_check(ks_self() == loopTid, "a functor runs in the loop's thread"); ks_check(ran[i] == 0, "a functor runs once"); ran[i]++; order[nran++] = i; }
static EventLoop::FunctorCallback fn(int i) { Token t(i); return [t] { body(t.id); }; }
static EventLoop::FunctorCallback last(int i) { Token t(i); return [t] { body(t.id); finished = true; L->Quit(); }; }
static void q(int i) { L->QueueToLoop(fn(i)); }
static int at(int i) { for (int k = 0; k < nran; k++) if (order[k] == i) return k; return -1; }
static void before(int a, int b) { ks_check(at(a) >= 0 && at(a) < at(b), "functors of one caller run in the order given"); }
static void start(bool poll, int p) { SetKanonLog(false); loopTid = ks_self(); sched_deadlock_msg = "a functor or a quit request waits for an unrelated event"; L = new EventLoop(poll); sched_preempt = p; }
static void done(int n) { joinAll(); ks_check(nran == n, "every functor runs"); delete L; ks_check(alive == 0, "functors are released"); ks_reach("end"); }
static void *cross3(void *) { q(0); q(1); L->QueueToLoop(last(2)); return nullptr; }
static void cross(bool poll) { start(poll, P); spawn(cross3); L->StartLoop(); done(3); before(0, 1); before(1, 2); }
KS_HARNESS harness_cross() { cross(false); } KS_HARNESS harness_cross_poll() { cross(true); }
static void *crossRun(void *) { ks_check(!L->IsLoopInThread(), "another thread is not the loop's"); L->RunInLoop(fn(0)); L->RunInLoop(fn(1)); L->RunInLoop(last(2)); return nullptr; }
KS_HARNESS harness_cross_run() { start(false, P); spawn(crossRun); L->StartLoop(); done(3); before(0, 1); before(1, 2); }
static int left; static void maybeQuit() { if (--left == 0) L->Quit(); }
static void *pa(void *) { L->QueueToLoop([] { body(0); maybeQuit(); }); L->QueueToLoop([] { body(1); maybeQuit(); }); return nullptr; }
static void *pb(void *) { L->QueueToLoop([] { body(2); maybeQuit(); }); L->QueueToLoop([] { body(3); maybeQuit(); }); return nullptr; }
KS_HARNESS harness_two_producers() { start(false, P - 1); left = 4; spawn(pa); spawn(pb); L->StartLoop(); done(4); before(0, 1); before(2, 3); }
static void *pingpong(void *) { // each functor is queued after the previous has run, the loop being idle or about to wait
  for (int i = 0; i < 3; i++) { q(i); static int w; w = i; sched_wait_until([](void *) { return ran[w] > 0; }, nullptr, false); } L->QueueToLoop(last(3)); return nullptr; }
KS_HARNESS harness_idle() { start(false, P); spawn(pingpong); L->StartLoop(); done(4); before(0, 1); before(1, 2); before(2, 3); }
KS_HARNESS harness_idle_poll() { start(true, P - 1); spawn(pingpong); L->StartLoop(); done(4); }
// ---- nesting in the loop thread
static void nested(bool poll) { start(poll, 0);
  L->QueueToLoop([] { body(0); L->QueueToLoop([] { body(2); L->RunInLoop(fn(3)); ks_check(ran[3] == 1, "the run form runs at once in the loop's thread"); L->QueueToLoop(fn(4)); L->QueueToLoop(last(5)); }); L->RunInLoop(fn(1)); ks_check(ran[1] == 1, "the run form runs at once in the loop's thread"); ks_check(ran[2] == 0, "the queue form doesn't run at once"); });
  L->StartLoop(); done(6); before(0, 1); before(1, 2); before(2, 4); before(4, 5); }
KS_HARNESS harness_nested() { nested(false); } KS_HARNESS harness_nested_poll() { nested(true); }
static Channel *ch; static int fd;
static void fromEvent(bool poll) { // queued by an event handler, while other functors are queued by another thread
  start(poll, P - 1); fd = k_sock(nullptr); k_fd[fd].forced = true; ch = new Channel(L, fd); ch->SetReadCallback([](TimeStamp) { k_fd[fd].force_ev = 0; q(0); ks_check(ran[0] == 0, "the queue form doesn't run at once"); L->RunInLoop(fn(1)); ks_check(ran[1] == 1, "the run form runs at once in the loop's thread"); L->QueueToLoop([] { body(2); maybeQuit(); }); });
  ch->EnableReading(); k_fd[fd].force_ev = 1; left = 2; spawn([](void *) -> void * { L->QueueToLoop([] { body(3); maybeQuit(); }); return nullptr; }); L->StartLoop(); ch->DisableAll(); ch->Remove(); delete ch; done(4); before(0, 2); }
KS_HARNESS harness_from_event() { fromEvent(false); } KS_HARNESS harness_from_event_poll() { fromEvent(true); }
KS_HARNESS harness_before_start() { start(ks_choose(2, "poll"), P); q(0); q(1); spawn([](void *) -> void * { q(3); return nullptr; }); L->QueueToLoop([] { body(2); L->QueueToLoop([] { sched_yield_all(); L->QueueToLoop(last(4)); }); }); L->StartLoop(); done(5); before(0, 1); before(1, 2); before(2, 4); }
static int rounds; static void again() { ks_check(ks_self() == loopTid, "a functor runs in the loop's thread"); rounds++; if (rounds < N) L->QueueToLoop(again); else L->Quit(); }
KS_HARNESS harness_chain() { start(ks_choose(2, "poll"), 0); N = (int)ks_range("rounds", 1, 5); L->QueueToLoop(again); L->StartLoop(); ks_check(rounds == N, "a functor queued by a functor runs"); done(0); }
static void many(int n, bool nested) { start(ks_choose(2, "poll"), 0); N = n; rounds = 0; left = n; static auto f = [] { ks_check(ks_self() == loopTid, "a functor runs in the loop's thread"); rounds++; maybeQuit(); }; static auto all = [] { for (int i = 0; i < N; i++) { int k = i; L->QueueToLoop([k] { ks_check(rounds == k, "functors of one caller run in the order given"); f(); }); } };
  if (nested) { L->QueueToLoop([] { all(); }); L->StartLoop(); } else { spawn([](void *) -> void * { sched_yield_all(); all(); return nullptr; }); L->StartLoop(); } ks_check(rounds == N, "every functor runs"); done(0); }
static int const sizes[] = {7, 17, 40, 70, 130, 300, 1100}; // a backlog of any of these sizes is worked off without further events
KS_HARNESS harness_backlog() { many(sizes[ks_choose(7, "size")], false); } KS_HARNESS harness_backlog_nested() { many(sizes[ks_choose(7, "size")], true); }
KS_HARNESS harness_empty_functor() { start(false, 0); L->QueueToLoop(EventLoop::FunctorCallback()); q(0); L->QueueToLoop(last(1)); L->StartLoop(); done(2); }
// ---- quitting
static void *quitter(void *) { L->Quit(); return nullptr; }
static void checkOnce(int n) { joinAll(); for (int i = 0; i < n; i++) ks_check(ran[i] <= 1, "a functor runs once"); delete L; ks_check(alive == 0, "functors are released"); ks_reach("end"); }
KS_HARNESS harness_quit() { start(ks_choose(2, "poll"), P); spawn(quitter); L->StartLoop(); checkOnce(0); }
KS_HARNESS harness_quit_twice() { start(false, P - 1); spawn(quitter); spawn(quitter); L->StartLoop(); checkOnce(0); }
KS_HARNESS harness_quit_queue() { start(false, P - 1); spawn([](void *) -> void * { q(0); L->Quit(); q(1); return nullptr; }); q(2); L->StartLoop(); checkOnce(3); }
KS_HARNESS harness_quit_race() { start(false, P - 1); spawn([](void *) -> void * { q(0); q(1); return nullptr; }); spawn(quitter); L->StartLoop(); checkOnce(2); }
KS_HARNESS harness_quit_idle() { start(ks_choose(2, "poll"), P - 1); spawn([](void *) -> void * { sched_yield_all(); L->Quit(); return nullptr; }); L->StartLoop(); checkOnce(0); }
KS_HARNESS harness_quit_before() { start(ks_choose(2, "poll"), 0); L->Quit(); L->StartLoop(); checkOnce(0); }
KS_HARNESS harness_quit_in_functor() { start(ks_choose(2, "poll"), 0); L->QueueToLoop([] { body(0); L->Quit(); }); q(1); L->StartLoop(); checkOnce(2); }
KS_HARNESS harness_quit_in_event() { start(ks_choose(2, "poll"), 0); fd = k_sock(nullptr); k_fd[fd].forced = true; ch = new Channel(L, fd); ch->SetReadCallback([](TimeStamp) { L->Quit(); }); ch->EnableReading(); k_fd[fd].force_ev = 1; L->StartLoop(); ch->DisableAll(); ch->Remove(); delete ch; checkOnce(0); }
