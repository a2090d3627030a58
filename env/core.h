// Cooperative scheduler and pthread model, shared by the symbolic engine and native replays.
#pragma once
#include "ks.h"
#include <pthread.h>
extern int sched_preempt;    // number of preemptions (switching away from a runnable thread) still allowed
extern int sched_spurious;   // number of spurious condition wake-ups still allowed
extern int sched_timeouts;   // number of early time-outs (while other threads can run) still allowed
extern bool sched_deadlock_ok;                  // end the path quietly instead of reporting a deadlock
extern const char *sched_deadlock_msg;
extern int sched_spin_limit;                      // if positive: mutexes taken without any other thread running in between
extern void (*sched_on_idle)();                 // called when nothing can run, before reporting a deadlock (may make something runnable)
void sched_point();                             // the running thread may be preempted here
void sched_yield_all();                         // run other threads until all are blocked or finished
void sched_wait_until(bool (*pred)(void *), void *arg, bool timed); // blocks; timed: may also return on time-out
bool sched_done(int tid);
int sched_count();                              // number of threads created
bool sched_timedout();                          // did the last timed wait of this thread time out
extern int sched_last_tid;
extern "C" int64_t sched_deadline_s, sched_deadline_ns; // deadline of the last timed wait
