// Threads, thread identity, atomic counters, thread-local values, weak callbacks.
#include "core.h"
#include "kanon/thread/thread.h"
#include "kanon/thread/thread_local.h"
#include "kanon/thread/atomic_counter.h"
#include "kanon/thread/atomic.h"
#include "kanon/thread/weak_callback.h"
#include "kanon/thread/current_thread.h"
#include <cstring>
#include <memory>
using namespace kanon;
#ifndef P
#define P 3
#endif
static int ran[4], tids[4], where[4], alive; static bool over[4]; static uint64_t self[4]; static std::string names[4];
static bool decimal(const char *s, int v) { char b[16]; int n = 0; do { b[n++] = '0' + v % 10; v /= 10; } while (v); for (int i = 0; i < n; i++) if (s[i] != b[n - 1 - i]) return false; return s[n] == 0; }
struct Token { Token() { alive++; } Token(Token const &) { alive++; } ~Token() { alive--; } };
static void body(int i, const char *name) {
  ran[i]++; ks_check(ran[i] == 1, "the body runs once"); where[i] = ks_self(); ks_check(where[i] != 0, "the body runs in a new thread"); tids[i] = CurrentThread::tid(); self[i] = pthread_self();
  ks_check(tids[i] == CurrentThread::gettid() && CurrentThread::GetTid() == tids[i], "a thread knows its own id"); ks_check(decimal(CurrentThread::tidString(), tids[i]) && CurrentThread::tidLength() == (int)strlen(CurrentThread::tidString()), "the text of the id is that of the id");
  ks_check(!CurrentThread::isMainThread(), "a new thread is not the main thread"); if (name) ks_check(!strcmp(CurrentThread::tidName(), name), "a thread knows its name"); else ks_check(CurrentThread::tidName() && *CurrentThread::tidName(), "a thread has a name");
  sched_point(); if (name) ks_check(!strcmp(CurrentThread::tidName(), name), "a thread knows its name"); ks_check(CurrentThread::tid() == tids[i], "a thread knows its own id"); over[i] = true; }
static void mainIs() { ks_check(CurrentThread::tid() == CurrentThread::gettid() && !strcmp(CurrentThread::tidName(), "main"), "the main thread knows its identity"); ks_check(decimal(CurrentThread::tidString(), CurrentThread::tid()), "the text of the id is that of the id"); }
static void joined(int i, Thread &t) { ks_check(over[i] && ran[i] == 1, "joining waits for the body"); ks_check(t.GetPthreadId() == self[i] && self[i], "the id of a started thread is that of its thread"); ks_check(tids[i] != CurrentThread::tid(), "threads have different ids"); mainIs(); ks_reach("joined"); }
KS_HARNESS harness_join() { sched_preempt = P; { Token k; Thread t([k] { body(0, "worker"); }, "worker"); ks_check(t.tidName() == "worker", "a thread object has its name"); t.StartRun(); ks_check(t.GetPthreadId() != 0, "the id of a thread is known when the start returns"); t.Join(); joined(0, t); } ks_check(alive == 0, "the callable is released"); }
KS_HARNESS harness_two() { sched_preempt = P - 1; Thread a([] { body(0, "alpha"); }, "alpha"); Thread b("beta"); a.StartRun(); b.StartRun([] { body(1, "beta"); }); ks_check(a.GetPthreadId() != b.GetPthreadId(), "threads have different ids"); b.Join(); joined(1, b); a.Join(); joined(0, a); ks_check(tids[0] != tids[1], "threads have different ids"); }
KS_HARNESS harness_outlived() { sched_preempt = P; { std::string n = "a name too long for the small buffer " + std::string(20, 'x'); Token k; std::unique_ptr<Thread> t(new Thread([k, n] { body(0, n.c_str()); }, n)); t->StartRun(); t.reset(); ks_reach("outlived"); } sched_yield_all(); ks_check(over[0] && ran[0] == 1, "a thread whose object is destroyed runs to its end"); ks_check(alive == 0, "the callable is released"); }
KS_HARNESS harness_move() { sched_preempt = P - 1; Token *k = new Token; { Thread a([] { body(0, "moved"); }, "moved"); bool early = ks_choose(2, "early"); if (early) a.StartRun(); Thread b(std::move(a)); if (!early) b.StartRun(); ks_check(b.tidName() == "moved" && a.GetPthreadId() == 0, "a moved thread takes its name and id along"); b.Join(); joined(0, b); } delete k; }
KS_HARNESS harness_move_assign() { sched_preempt = P - 1; { Thread a([] { body(0, "one"); }, "one"), b([] { body(1, "two"); }, "two"); a.StartRun(); unsigned k = ks_choose(3, "other"); if (k) b.StartRun(); if (k == 2) { b.Join(); joined(1, b); } b = std::move(a); ks_check(b.tidName() == "one", "a moved thread takes its name along"); b.Join(); joined(0, b); if (!k) over[1] = true, ran[1] = 1; } sched_yield_all(); ks_check(over[1] && ran[1] == 1, "a detached thread runs to its end"); }
KS_HARNESS harness_names() { sched_preempt = P - 1; Thread a([] { body(0, nullptr); }), b([] { body(1, nullptr); }), c("given"); ks_check(!a.tidName().empty() && !b.tidName().empty() && a.tidName() != b.tidName(), "threads created one after the other get different default names"); ks_check(c.tidName() == "given", "a thread object has its name"); names[0] = a.tidName(); a.StartRun(); b.StartRun(); a.Join(); b.Join(); joined(0, a); joined(1, b); ks_check(a.tidName() == names[0], "a thread keeps its name"); }
KS_HARNESS harness_default_name() { sched_preempt = P; static std::string n; Thread a([] { body(0, n.c_str()); }); n = a.tidName(); a.StartRun(); a.Join(); joined(0, a); }
KS_HARNESS harness_never_started() { { Token k; Thread t([k] { body(0, "x"); }, "x"); Thread u(std::move(t)); } ks_check(ran[0] == 0 && alive == 0 && sched_count() == 1, "a thread that is never started runs nothing"); ks_reach("idle"); }
// ---- counters
template <class T> struct Cnt { static AtomicCounter<T> *c; static T a, b, s1, s2; static void *f(void *) { s1 = c->Add(a); return nullptr; } static void *g(void *) { s1 = c->GetAndSub(a); return nullptr; } static void *pp(void *) { ++*c; (*c)++; return nullptr; } };
template <class T> AtomicCounter<T> *Cnt<T>::c; template <class T> T Cnt<T>::a; template <class T> T Cnt<T>::b; template <class T> T Cnt<T>::s1; template <class T> T Cnt<T>::s2;
template <class T> static void counter() {
  using C = Cnt<T>; T i = (T)ks_u("init", sizeof(T) * 8); C::a = (T)ks_u("a", sizeof(T) * 8); C::b = (T)ks_u("b", sizeof(T) * 8); AtomicCounter<T> c(i); C::c = &c; sched_preempt = P; pthread_t th;
  unsigned k = ks_choose(3, "op"); pthread_create(&th, nullptr, k == 0 ? C::f : k == 1 ? C::g : C::pp, nullptr);
  if (k == 0) { T r = c.Add(C::b); pthread_join(th, nullptr); ks_check(c.GetValue() == (T)(i + C::a + C::b), "no update of a counter is lost"); ks_check((r == (T)(i + C::b) && C::s1 == c.GetValue()) || (C::s1 == (T)(i + C::a) && r == c.GetValue()), "each update reports the value it made"); ks_reach("add"); }
  else if (k == 1) { T r = c.GetAndSub(C::b); pthread_join(th, nullptr); ks_check(c.GetValue() == (T)(i - C::a - C::b), "no update of a counter is lost"); ks_check((r == i && C::s1 == (T)(i - C::b)) || (C::s1 == i && r == (T)(i - C::a)), "each update reports the value it found"); ks_reach("sub"); }
  else { c--; --c; pthread_join(th, nullptr); ks_check(c.GetValue() == i, "no update of a counter is lost"); ks_reach("incr"); }
}
KS_HARNESS harness_counter32() { counter<uint32_t>(); } KS_HARNESS harness_counter64() { counter<uint64_t>(); }
template <class T> static void counterOps() {
  T i = (T)ks_u("init", sizeof(T) * 8), a = (T)ks_u("a", sizeof(T) * 8); AtomicCounter<T> c(i), z; ks_check(z.GetValue() == 0, "a counter starts at zero"); ks_check((T)c == i, "a counter starts at its initial value");
  T r = 0, v = 0; switch (ks_choose(12, "op")) { case 0: r = c.Add(a); v = i + a; ks_check(r == v, "adding returns the new value"); break; case 1: r = c.GetAndAdd(a); v = i + a; ks_check(r == i, "get-and-add returns the old value"); break; case 2: r = c.Sub(a); v = i - a; ks_check(r == v, "subtracting returns the new value"); break;
    case 3: r = c.GetAndSub(a); v = i - a; ks_check(r == i, "get-and-subtract returns the old value"); break; case 4: r = ++c; v = i + 1; ks_check(r == v, "incrementing returns the new value"); break; case 5: r = c++; v = i + 1; ks_check(r == i, "post-incrementing returns the old value"); break; case 6: r = --c; v = i - 1; ks_check(r == v, "decrementing returns the new value"); break;
    case 7: r = c--; v = i - 1; ks_check(r == i, "post-decrementing returns the old value"); break; case 8: r = (c = a); v = a; ks_check(r == a, "assigning returns the value"); break; case 9: r = c.Reset(); v = 0; break; case 10: { AtomicCounter<T> d(std::move(c)); ks_check(d.GetValue() == i, "a moved counter keeps its value"); AtomicCounter<T> e(a); e = std::move(d); ks_check(e.GetValue() == i, "a moved counter keeps its value"); v = c.GetValue(); break; } default: c.SetValue(a); v = a; }
  ks_check(c.GetValue() == v, "a counter holds the value it was brought to"); ks_reach("ops"); }
KS_HARNESS harness_counter_ops() { if (ks_choose(2, "width")) counterOps<uint32_t>(); else counterOps<uint64_t>(); }
static AtomicInt64 *at; static int64_t ax; static void *atAdd(void *) { at->add(ax); at->increment(); return nullptr; }
KS_HARNESS harness_atomic() { AtomicInt64 v; at = &v; ks_check(v.get() == 0, "an atomic starts at zero"); ax = (int64_t)ks_u("x", 64); int64_t y = (int64_t)ks_u("y", 64); sched_preempt = P; pthread_t t; pthread_create(&t, nullptr, atAdd, nullptr); v.add(y); v.decrement(); pthread_join(t, nullptr); uint64_t want = (uint64_t)ax + (uint64_t)y; ks_check((uint64_t)v.get() == want, "no update of an atomic is lost"); ks_check((uint64_t)v.addAndGet(5) == want + 5 && (uint64_t)v.getAndAdd(1) == want + 5 && (uint64_t)v.incrementAndGet() == want + 7 && (uint64_t)v.decrementAndGet() == want + 6 && (uint64_t)v.getAndSet(9) == want + 6 && v.get() == 9, "each update reports its value"); ks_reach("atomic"); }
// ---- thread-local values
static int made, killed; struct Val { int v; int by; Val(int x) : v(x), by(ks_self()) { made++; } ~Val() { killed++; ks_check(by == ks_self(), "a thread-local value is destroyed by its thread"); } };
static ThreadLocal<Val> *tl; static int init[4], addv[4];
static void use(int i) { Val &v = tl->value(init[i]); ks_check(v.v == init[i], "a thread sees its own initial value"); v.v += addv[i]; sched_point(); Val &w = tl->value(99); ks_check(&w == &v && w.v == init[i] + addv[i], "a thread keeps its own value"); ThreadLocal<Val> const *cl = tl; ks_check(&cl->value(0) == &v, "a thread keeps its own value"); over[i] = true; }
KS_HARNESS harness_thread_local() { for (int i = 0; i < 3; i++) { init[i] = (int)ks_range("init", 0, 1000000); addv[i] = (int)ks_range("add", 0, 1000000); } tl = new ThreadLocal<Val>; ThreadLocal<Val> other; sched_preempt = P - 1; { Thread a([] { use(0); }, "a"), b([] { use(1); }, "b"); a.StartRun(); b.StartRun(); Thread c([&other] { Val &o = other.value(7); tl->value(init[2]); over[2] = o.v == 7; }, "c"); c.StartRun(); a.Join(); b.Join(); c.Join(); } ks_check(over[0] && over[1] && over[2], "thread-local objects are independent"); ks_check(made == 4 && killed == 4, "a thread's values are destroyed when it ends"); delete tl; ks_reach("local"); }
// ---- weak callbacks
struct Obj { int sum = 0; ~Obj() { alive--; } Obj() { alive++; } int add(int a, int b) { sum += a; return sum + b; } void note(int a) { sum = a; } };
KS_HARNESS harness_weak() { int a = (int)ks_u("a", 20), b = (int)ks_u("b", 20); auto sp = std::make_shared<Obj>(); auto cb = makeWeakCallback(sp, &Obj::add); auto vb = makeWeakCallback(sp, &Obj::note); ks_check(cb(a, b) == a + b && sp->sum == a, "a weak callback calls its living object"); vb(b); ks_check(sp->sum == b, "a weak callback calls its living object"); sp.reset(); ks_check(alive == 0, "a weak callback does not keep its object"); ks_check(cb(a, b) == 0, "a weak callback of a dead object does nothing"); vb(a); ks_reach("weak"); }
