// The asynchronous log: every record appended before the log is stopped reaches the file once, whole and in order.
#include "net.h"
#include "file.h"
#include "kanon/log/async_log.h"
#include "kanon/log/logger.h"
#include <string.h>
#include <memory>
using namespace kanon;
#ifndef P
#define P 2
#endif
#ifndef N
#define N 3
#endif
enum : size_t { CAP = kLargeStreamSize };
static AsyncLog *A; static uint64_t pos; static int writes;
// ---- one producer: the file is the concatenation of the records, whose lengths and bytes are arbitrary
static char *S; static struct { size_t off, n; } R[24]; static int nr; static uint64_t total;
static size_t at(uint64_t i) { uint64_t acc = 0; for (int k = 0; k < nr; k++) { if (i - acc < R[k].n) return R[k].off + (i - acc); acc += R[k].n; } return 0; }
static size_t stream(int, const void *p, size_t n) { writes++; ks_check(n <= total - pos, "no record is written that was not appended, or twice"); if (!(n <= total - pos)) return n;
  uint64_t i = ks_u("i", 23); if (i < n) ks_check(((const char *)p)[i] == S[at(pos + i)], "the file gets the bytes of the records in order"); 
  bool edge = pos + n == total; uint64_t acc = 0; for (int k = 0; k < nr && !edge; k++) { acc += R[k].n; edge = edge | (acc == pos + n); } ks_check(edge | (n == 0), "records are written whole"); pos += n; return n; }
static size_t lim = CAP - 1, lo;
static void append() { size_t n = ks_range("len", lo, lim); R[nr].off = (size_t)nr * 7; R[nr++].n = n; total += n; A->Append(S + R[nr - 1].off, n); }
static int files, closedFiles; 
static void closed(int) { closedFiles++; }
static void setup(int preempt, size_t flush = 3) { k_fwrite_hook = stream; k_closed_hook = closed; k_now_us = 1000000000ll * 1000000; S = (char *)ks_lazy(CAP + 256, "bytes"); A = new AsyncLog("app", (size_t)1 << 40, "", UINT_MAX, 86400, flush); sched_preempt = preempt; }
static void stop() { A->Stop(); ks_check(pos == total, "every record appended before the log is stopped is written when it has stopped"); ks_check(k_nopen == 0, "the file is closed when the log has stopped"); int was = writes; delete A; ks_check(writes == was, "a stopped log writes nothing"); ks_reach("end"); }
KS_HARNESS harness_small() { setup(P); lim = 40; unsigned before = ks_choose(2, "before"); if (before) append(); A->StartRun(); for (int i = before; i < N; i++) append(); stop(); }
KS_HARNESS harness_large() { setup(P - 1); A->StartRun(); for (int i = 0; i < N - 1; i++) append(); stop(); }
KS_HARNESS harness_fill() { setup(P - 1); A->StartRun(); lo = CAP / 2; for (int i = 0; i < N + 1; i++) append(); sched_preempt = 0; if (ks_choose(2, "written")) sched_yield_all(); append(); stop(); }
KS_HARNESS harness_pause() { setup(P - 1); A->StartRun(); lim = 40; for (int i = 0; i < N; i++) { append(); switch (ks_choose(3, "then")) { case 1: sched_yield_all(); break; case 2: sched_timeouts = 1; sched_yield_all(); sched_timeouts = 0; break; } } stop(); }
static bool out(void *) { return pos == total; }
KS_HARNESS harness_idle() { setup(1); lo = 1; A->StartRun(); for (int i = 0; i < 2; i++) { append(); sched_wait_until(out, nullptr, false); /* only time passes */ ks_check(k_nnode == 1, "one file"); } sched_yield_all(); ks_check(k_node[0].flushed == total, "what was written reaches the system without a further record"); stop(); }
KS_HARNESS harness_destroy() { setup(P); lim = 40; bool started = ks_choose(2, "started"); if (started) A->StartRun(); append(); append(); uint64_t want = started ? total : 0; delete A; ks_check(pos == want, "destroying a running log writes what was appended"); ks_check(k_nopen == 0, "no file stays open"); ks_reach("end"); }
KS_HARNESS harness_empty() { setup(P); A->StartRun(); stop(); }
KS_HARNESS harness_exact() { setup(1); A->StartRun(); static const size_t L[] = {CAP - 1, CAP - 2, CAP / 2, CAP / 2 - 1, 1}; for (int i = 0; i < N; i++) { lo = lim = L[ks_choose(5, "size")]; append(); } stop(); }
KS_HARNESS harness_oversize() { setup(1); A->StartRun(); lim = 40; append(); static const size_t L[] = {CAP, CAP + 1, CAP + 200}; A->Append(S, L[ks_choose(3, "size")]); /* may be dropped, but takes nothing else with it */ append(); stop(); }
// ---- several producers: each record carries its number; those of a thread stay in order
static char rec[2][4][CAP]; static size_t rlen[2][4]; static int done[2][4], nextOf[2]; static bool finishedAppend[2][4]; static int left_; static size_t into; static int curT = -1, curK;
static size_t parse(int, const void *p, size_t n) { const unsigned char *d = (const unsigned char *)p; size_t i = 0; while (i < n) { int t = d[i] >> 4 & 7, k = d[i] & 15; ks_check(d[i] >= 128 && t < 2 && k < 4, "a record begins where the previous one ends"); if (!(t < 2 && k < 4)) return n; ks_check(k == nextOf[t], "the records of a thread are written once and in order"); nextOf[t] = k + 1; size_t m = rlen[t][k]; ks_check(m <= n - i && (m < 2 || (d[i + 1] == 'x' && d[i + m - 1] == 'x')), "records are written whole"); done[t][k]++; i += m; } return n; }
static int count; static void *producer(void *a) { long t = (long)a; for (int k = 0; k < count; k++) { A->Append(rec[t][k], rlen[t][k]); finishedAppend[t][k] = true; } return nullptr; }
static void two(int preempt, bool stopEarly) { 
  k_fwrite_hook = parse; k_now_us = 1000000000ll * 1000000; A = new AsyncLog("app", (size_t)1 << 40); static const size_t L[] = {2, CAP / 2 + 1}; count = 2; for (int t = 0; t < 2; t++) for (int k = 0; k < count; k++) { rlen[t][k] = L[ks_choose(2, "size")]; memset(rec[t][k], 'x', rlen[t][k]); rec[t][k][0] = (char)(128 + (t << 4) + k); }
  A->StartRun(); pthread_t th; pthread_create(&th, nullptr, producer, (void *)1); sched_preempt = preempt; producer((void *)0); if (stopEarly) { bool was[4]; memcpy(was, finishedAppend[1], sizeof was); A->Stop(); sched_preempt = 0; for (int k = 0; k < count; k++) { ks_check(done[0][k] == 1, "every record appended before the log is stopped is written when it has stopped"); if (was[k]) ks_check(done[1][k] == 1, "every record appended before the log is stopped is written when it has stopped"); } pthread_join(th, nullptr); }
  else { pthread_join(th, nullptr); sched_preempt = 0; A->Stop(); for (int t = 0; t < 2; t++) for (int k = 0; k < count; k++) ks_check(done[t][k] == 1, "every record appended before the log is stopped is written once"); }
  delete A; ks_check(k_nopen == 0, "no file stays open"); ks_reach("end"); }
KS_HARNESS harness_two() { two(P, false); }
KS_HARNESS harness_two_stop() { two(P, true); }
// ---- back-pressure: what exceeds sixteen buffers may be dropped, whole buffers of it, and nothing else
static int kept, notes; static size_t flood(int, const void *p, size_t n) { const unsigned char *d = (const unsigned char *)p; if (n > 4096) { ks_check(n == CAP - 100 && d[0] == kept && d[n - 1] == kept, "buffers are written whole and in order"); kept++; } else if (n) notes++; return n; }
KS_HARNESS harness_flood() { k_fwrite_hook = flood; k_now_us = 1000000000ll * 1000000; A = new AsyncLog("app", (size_t)1 << 40); unsigned n = 14 + ks_choose(5, "buffers"); static char b[CAP]; bool early = ks_choose(2, "start first"); if (early) A->StartRun(); for (unsigned i = 0; i < n; i++) { memset(b, i, CAP - 100); A->Append(b, CAP - 100); } if (!early) A->StartRun(); A->Stop(); ks_check(kept == (int)(n < 16 ? n : 16) || kept == (int)n, "only what exceeds sixteen buffers is dropped"); ks_check(kept == (int)n || notes == 1, "dropping is noted in the file"); delete A; ks_reach("end"); }
// ---- the log behind the logger
KS_HARNESS harness_logger() { setup(P - 1); delete A; k_fwrite_hook = [](int, const void *p, size_t n) -> size_t { const char *d = (const char *)p; for (size_t i = 0; i < n; i++) if (d[i] == '\n') writes++; total += n; return n; }; SetupAsyncLog("app", (size_t)1 << 40); for (int i = 0; i < 2; i++) { LOG_INFO << "message"; } sched_wait_until([](void *) { return writes == 2; }, nullptr, false); ks_check(writes == 2, "every log statement is written"); ks_reach("end"); ks_end(); }
