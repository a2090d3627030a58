#include "core.h"
#include <errno.h>
#include <sys/syscall.h>
#include <unistd.h>
int sched_preempt = 0, sched_spurious = 0, sched_timeouts = 0, sched_last_tid = 0; bool sched_deadlock_ok = false; const char *sched_deadlock_msg = "deadlock: every thread is blocked"; void (*sched_on_idle)() = nullptr;
int sched_spin_limit = 0; static int spins;
enum { RUN, WMUTEX, WCOND, WPRED, WJOIN, DONE };
struct Th { int st; void *obj; bool timed, timedout; bool (*pred)(void *); void *arg; void *(*fn)(void *); void *farg; void *ret; bool detached, joined; };
static Th T[16]; static int nT = 1;
struct Mx { int owner; int type; int count; int magic; };   // overlay on pthread_mutex_t
static bool runnable(int i) {
  Th &t = T[i];
  switch (t.st) { case RUN: return true; case WMUTEX: return ((Mx *)t.obj)->owner == 0; case WPRED: return t.pred(t.arg); case WJOIN: return T[(long)t.obj].st == DONE; default: return false; }
}
static void resumeAs(int i, bool to) { T[i].timedout = to; if (T[i].st != WMUTEX || true) T[i].st = RUN; }
static void pick(bool curOk) { // chooses the next thread to run; curOk: the current thread may continue
  int self = ks_self();
  while (true) {
    int c[32], n = 0; bool to[32];
    if (curOk) { to[n] = false; c[n++] = self; }
    if (!curOk || sched_preempt > 0) {
      for (int i = 0; i < nT; i++) if (!(curOk && i == self) && runnable(i)) { to[n] = false; c[n++] = i; }
      if (sched_timeouts > 0) for (int i = 0; i < nT; i++) if (T[i].timed && (T[i].st == WCOND || T[i].st == WPRED) && !runnable(i)) { to[n] = true; c[n++] = i; }
    }
    if (!n) for (int i = 0; i < nT; i++) if (T[i].timed && (T[i].st == WCOND || T[i].st == WPRED)) { to[n] = true; c[n++] = i; }
    if (!n) {
      if (sched_on_idle) { void (*f)() = sched_on_idle; f(); bool any = false; for (int i = 0; i < nT; i++) if (runnable(i)) any = true; if (any) continue; }
      if (!sched_deadlock_ok) ks_check(false, sched_deadlock_msg); ks_end();
    }
    unsigned k = n > 1 ? ks_choose(n, "sched") : 0; int t = c[k];
    if (curOk && t == self) return;
    if (curOk) sched_preempt--;
    if (to[k]) { if (n > 1 && sched_timeouts > 0) sched_timeouts--; }
    bool w = T[t].st == WCOND || T[t].st == WPRED; if (!(T[t].st == WMUTEX)) resumeAs(t, w && to[k]); else T[t].st = RUN;
    if (t != self) { spins = 0; ks_switch(t); }
    return;
  }
}
void sched_point() { if (sched_preempt > 0 && nT > 1) pick(true); }
void sched_wait_until(bool (*pred)(void *), void *arg, bool timed) { int s = ks_self(); if (pred(arg)) { T[s].timedout = false; return; } Th &t = T[s]; t.st = WPRED; t.pred = pred; t.arg = arg; t.timed = timed; t.timedout = false; pick(false); T[s].st = RUN; T[s].timed = false; }
bool sched_timedout() { return T[ks_self()].timedout; }
bool sched_done(int t) { return T[t].st == DONE; }
int sched_count() { return nT; }
static bool allQuiet(void *) { int s = ks_self(); for (int i = 0; i < nT; i++) if (i != s && T[i].st != DONE && runnable(i)) return false; return true; }
static bool othersIdle(void *me) { for (int i = 0; i < nT; i++) if (i != (int)(long)me && T[i].st != DONE && runnable(i)) return false; return true; }
void sched_yield_all() { (void)allQuiet; sched_wait_until(othersIdle, (void *)(long)ks_self(), false); }
static void runKeyDtors(int s);
static void threadMain(void *p) { int s = ks_self(); Th &t = T[s]; (void)p; t.ret = t.fn(t.farg); runKeyDtors(s); T[s].st = DONE; pick(false); ks_incomplete("a finished thread was resumed"); }
extern "C" {
int env_pthread_create(pthread_t *out, const pthread_attr_t *, void *(*fn)(void *), void *arg) {
  if (nT >= 16) ks_incomplete("more than 16 threads");
  int id = nT; T[id].st = RUN; T[id].fn = fn; T[id].farg = arg; nT++; sched_last_tid = id; int k = ks_spawn(threadMain, nullptr); if (k != id) ks_incomplete("thread id"); *out = (pthread_t)(id + 1); sched_point(); return 0; }
int env_pthread_join(pthread_t t, void **r) { long id = (long)t - 1; if (id <= 0 || id >= nT) { ks_check(false, "pthread_join of an invalid thread"); return ESRCH; } ks_check(!T[id].detached, "pthread_join of a detached thread"); ks_check(!T[id].joined, "pthread_join of a thread already joined"); int s = ks_self(); if (id == s) return EDEADLK; while (T[id].st != DONE) { T[s].st = WJOIN; T[s].obj = (void *)id; pick(false); T[s].st = RUN; } T[id].joined = true; if (r) *r = T[id].ret; return 0; }
int env_sched_yield(void) { sched_point(); return 0; } int env_pthread_yield(void) { sched_point(); return 0; }
static int nap() { sched_point(); sched_yield_all(); return 0; } // a sleep ends once nobody else can run
int env_usleep(unsigned) { return nap(); } unsigned env_sleep(unsigned) { return nap(); } int env_nanosleep(const struct timespec *, struct timespec *) { return nap(); } int env_clock_nanosleep(int, int, const struct timespec *, struct timespec *) { return nap(); }
int env_pthread_detach(pthread_t t) { long id = (long)t - 1; if (id <= 0 || id >= nT) { ks_check(false, "pthread_detach of an invalid thread"); return ESRCH; } ks_check(!T[id].joined && !T[id].detached, "pthread_detach of a joined or detached thread"); T[id].detached = true; return 0; }
pthread_t env_pthread_self(void) { return (pthread_t)(ks_self() + 1); }
int env_pthread_mutexattr_init(pthread_mutexattr_t *a) { *(int *)a = 0; return 0; } int env_pthread_mutexattr_destroy(pthread_mutexattr_t *) { return 0; } int env_pthread_mutexattr_settype(pthread_mutexattr_t *a, int t) { *(int *)a = t; return 0; }
int env_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { Mx *x = (Mx *)m; x->owner = 0; x->type = a ? *(const int *)a : 0; x->count = 0; x->magic = 0; return 0; }
int env_pthread_mutex_destroy(pthread_mutex_t *m) { Mx *x = (Mx *)m; ks_check(x->owner == 0, "destroying a locked mutex"); x->magic = 0xdead; return 0; }
static void acquire(Mx *x) { int s = ks_self(); if (sched_spin_limit > 0 && ++spins > sched_spin_limit) { ks_check(false, "a thread with nothing to do waits"); ks_end(); } while (x->owner != 0) { if (x->owner == s + 1) { if (x->type == PTHREAD_MUTEX_RECURSIVE) { x->count++; return; } } T[s].st = WMUTEX; T[s].obj = x; pick(false); T[s].st = RUN; } x->owner = s + 1; }
int env_pthread_mutex_lock(pthread_mutex_t *m) { Mx *x = (Mx *)m; ks_check(x->magic != 0xdead, "locking a destroyed mutex"); sched_point(); if (x->owner == ks_self() + 1 && x->type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK; acquire(x); return 0; }
int env_pthread_mutex_trylock(pthread_mutex_t *m) { Mx *x = (Mx *)m; ks_check(x->magic != 0xdead, "locking a destroyed mutex"); sched_point(); if (x->owner == 0) { x->owner = ks_self() + 1; return 0; } if (x->owner == ks_self() + 1 && x->type == PTHREAD_MUTEX_RECURSIVE) { x->count++; return 0; } return EBUSY; }
int env_pthread_mutex_unlock(pthread_mutex_t *m) { Mx *x = (Mx *)m; int s = ks_self(); if (x->owner != s + 1) { ks_check(false, "unlocking a mutex the thread does not hold"); return EPERM; } if (x->count) { x->count--; return 0; } x->owner = 0; sched_point(); return 0; }
int env_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { *(int *)c = 1; return 0; }
int env_pthread_cond_destroy(pthread_cond_t *c) { for (int i = 0; i < nT; i++) ks_check(!(T[i].st == WCOND && T[i].obj == c), "destroying a condition with waiters"); *(int *)c = 0; return 0; }
static int waitOn(pthread_cond_t *c, pthread_mutex_t *m, bool timed) {
  int s = ks_self(); Mx *x = (Mx *)m; ks_check(x->owner == s + 1, "waiting on a condition without holding its mutex"); x->owner = 0; *(volatile int *)c = *(volatile int *)c;
  bool to = false;
  if (sched_spurious > 0 && ks_choose(2, "spurious")) { sched_spurious--; sched_point(); }
  else { T[s].st = WCOND; T[s].obj = c; T[s].timed = timed; T[s].timedout = false; pick(false); to = T[s].timedout; T[s].st = RUN; T[s].timed = false; T[s].timedout = false; }
  acquire(x); return to ? ETIMEDOUT : 0;
}
int env_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return waitOn(c, m, false); }
int64_t sched_deadline_s, sched_deadline_ns;
int env_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { sched_deadline_s = ts->tv_sec; sched_deadline_ns = ts->tv_nsec; ks_check(ts->tv_nsec >= 0 && ts->tv_nsec < 1000000000, "timedwait with a valid nanosecond field"); return waitOn(c, m, true); }
int env_pthread_cond_signal(pthread_cond_t *c) { *(volatile int *)c = *(volatile int *)c; int w[16], n = 0; for (int i = 0; i < nT; i++) if (T[i].st == WCOND && T[i].obj == c) w[n++] = i; if (n) { int k = n > 1 ? (int)ks_choose(n, "wake") : 0; T[w[k]].st = RUN; } sched_point(); return 0; }
int env_pthread_cond_broadcast(pthread_cond_t *c) { *(volatile int *)c = *(volatile int *)c; for (int i = 0; i < nT; i++) if (T[i].st == WCOND && T[i].obj == c) T[i].st = RUN; sched_point(); return 0; }
// thread-specific data
static struct Key { bool used; void (*dtor)(void *); void *val[16]; } Keys[8]; static int nKeys = 0;
int env_pthread_key_create(pthread_key_t *k, void (*d)(void *)) { int i = 0; while (i < nKeys && Keys[i].used) i++; if (i >= 8) ks_incomplete("more than 8 thread-specific keys"); if (i == nKeys) nKeys++; Keys[i].used = true; Keys[i].dtor = d; for (auto &v : Keys[i].val) v = nullptr; *k = (pthread_key_t)(i + 1); return 0; }
int env_pthread_key_delete(pthread_key_t k) { if (k < 1 || (int)k > nKeys || !Keys[k - 1].used) { ks_check(false, "deleting a thread-specific key that does not exist"); return EINVAL; } Keys[k - 1].used = false; return 0; }
void *env_pthread_getspecific(pthread_key_t k) { if (k < 1 || (int)k > nKeys || !Keys[k - 1].used) { ks_check(false, "reading a thread-specific key that does not exist"); return nullptr; } return Keys[k - 1].val[ks_self()]; }
int env_pthread_setspecific(pthread_key_t k, const void *v) { if (k < 1 || (int)k > nKeys || !Keys[k - 1].used) { ks_check(false, "setting a thread-specific key that does not exist"); return EINVAL; } Keys[k - 1].val[ks_self()] = (void *)v; return 0; }
int env_pthread_setname_np(pthread_t, const char *) { return 0; }
void ks_preempt(void) { sched_point(); }
long env_syscall(long n, ...) { if (n == SYS_gettid) return ks_self() ? 5000 + ks_self() : 4242; ks_incomplete("unmodelled system call"); }
}
static void runKeyDtors(int s) { for (int r = 0; r < 4; r++) { bool any = false; for (int i = 0; i < nKeys; i++) if (Keys[i].used && Keys[i].dtor && Keys[i].val[s]) { void *v = Keys[i].val[s]; Keys[i].val[s] = nullptr; any = true; Keys[i].dtor(v); } if (!any) break; } }
