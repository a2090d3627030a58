// Read-write lock under every bounded schedule.
#include "core.h"
#include "kanon/thread/rw_lock.h"
using namespace kanon;
#ifndef P
#define P 3
#endif
static RWLock *l; static int readers, writers, data, reads, writes; static bool together; static int gate, rounds = 1;
static pthread_t th[6]; static int nth;
static void spawn(void *(*f)(void *)) { pthread_create(&th[nth++], nullptr, f, nullptr); }
static void joinAll() { for (int i = 0; i < nth; i++) pthread_join(th[i], nullptr); nth = 0; }
static void readSection() { ks_check(writers == 0, "a reader is admitted together with a writer"); readers++; int d = data; sched_point(); if (readers > 1) { together = true; ks_reach("together"); } ks_check(data == d, "the data does not change under a reader"); ks_check(writers == 0, "a writer is admitted together with a reader"); readers--; reads++; }
static void writeSection() { ks_check(writers == 0, "two writers are admitted together"); ks_check(readers == 0, "a writer is admitted together with a reader"); writers++; int d = data; sched_point(); data = d + 1; ks_check(writers == 1 && readers == 0, "a writer is alone"); writers--; writes++; }
static void *reader(void *) { for (int i = 0; i < rounds; i++) { l->RLock(); readSection(); l->RUnlock(); } return nullptr; }
static void *writer(void *) { for (int i = 0; i < rounds; i++) { l->WLock(); writeSection(); l->WUnlock(); } return nullptr; }
#undef RLockGuard
#undef WLockGuard
static void *gReader(void *) { for (int i = 0; i < rounds; i++) { RLockGuard g(*l); readSection(); } return nullptr; }
static void *gWriter(void *) { for (int i = 0; i < rounds; i++) { WLockGuard g(*l); writeSection(); } return nullptr; }
static void start(int p, int s) { l = new RWLock; sched_preempt = p; sched_spurious = s; sched_deadlock_msg = "a thread waits for ever for a lock that its holders release"; }
static void done(int r, int w) { joinAll(); ks_check(data == w && writes == w && reads == r, "every section runs and no update is lost"); l->WLock(); writeSection(); l->WUnlock(); l->RLock(); readSection(); l->RUnlock(); delete l; ks_reach("end"); }
KS_HARNESS harness_rw() { start(P, 1); rounds = 2; spawn(reader); writer(nullptr); done(2, 2); }
KS_HARNESS harness_ww() { start(P, 1); rounds = 2; spawn(writer); writer(nullptr); done(0, 4); }
KS_HARNESS harness_rrw() { start(P - 1, 1); spawn(reader); spawn(writer); reader(nullptr); done(2, 1); }
KS_HARNESS harness_rww() { start(P - 1, 1); spawn(writer); spawn(writer); reader(nullptr); done(1, 2); }
KS_HARNESS harness_www() { start(P - 1, 1); spawn(writer); spawn(writer); writer(nullptr); done(0, 3); }
KS_HARNESS harness_rrww() { start(P - 1, 0); spawn(reader); spawn(writer); spawn(writer); reader(nullptr); done(2, 2); }
KS_HARNESS harness_guards() { start(P - 1, 0); spawn(gReader); spawn(gWriter); gWriter(nullptr); done(1, 2); }
static void *holder(void *) { l->RLock(); readers++; sched_wait_until([](void *) { return gate > 0; }, nullptr, false); readers--; reads++; l->RUnlock(); return nullptr; }
static void *wholder(void *) { l->WLock(); writers++; sched_wait_until([](void *) { return gate > 0; }, nullptr, false); ks_check(readers == 0 && writers == 1, "a writer is alone"); data++; writers--; writes++; l->WUnlock(); return nullptr; }
KS_HARNESS harness_readers_together() { start(P - 1, 0); spawn(holder); sched_yield_all(); spawn(reader); spawn(reader); sched_yield_all(); ks_check(reads == 2, "readers are admitted while another reader holds the lock"); gate = 1; done(3, 0); }
KS_HARNESS harness_writer_waits() { start(P - 1, 1); spawn(holder); sched_yield_all(); spawn(writer); spawn(writer); sched_yield_all(); ks_check(writes == 0, "a writer waits for the reader"); gate = 1; done(1, 2); }
KS_HARNESS harness_all_wait() { start(P - 2, 1); spawn(wholder); sched_yield_all(); spawn(reader); spawn(writer); spawn(reader); sched_yield_all(); ks_check(reads == 0 && writes == 0, "everyone waits for the writer"); gate = 1; done(2, 2); }
KS_HARNESS harness_writers_behind_readers() { start(P - 2, 0); spawn(holder); spawn(holder); sched_yield_all(); spawn(writer); sched_yield_all(); spawn(reader); spawn(writer); sched_yield_all(); ks_check(writes == 0, "a writer waits for the readers"); ks_check(reads == 0, "a reader does not overtake a writer that waits"); gate = 1; done(3, 2); }
