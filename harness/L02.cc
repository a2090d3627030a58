// Log files: every record whole and in order, rolled by size and period, flushed in time, old files removed.
#include "net.h"
#include "file.h"
#include "kanon/log/log_file.h"
#include "kanon/log/logger.h"
#include <string.h>
#include <memory>
using namespace kanon;
#ifndef N
#define N 4
#endif
#ifndef P
#define P 2
#endif
enum { M = 256, CAP = 40 };
static int64_t now, base = 86400ll * 19000; static int64_t timeNow() { return now; }
static LogFile<> *F; static char *S; static size_t off; // the record being appended is S[off..off+len)
static size_t len, got; static int cur = -1, files, first; static int64_t lastRoll, lastFlush, interval, flushEvery; static uint64_t roll; static uint64_t *sizeAt;
static int shortMode; static bool failed;
static size_t less(size_t n, size_t lo) { size_t k = ks_u("short", 8); ks_assume(k < n && k >= lo); return k; }
static size_t put(int node, const void *p, size_t n) {
  ks_check(node == cur, "a record goes to the newest file"); ks_check(n <= len - got, "a record is written once"); if (!(n <= len - got)) return n; uint64_t i = ks_u("i", 8); if (i < n) ks_check(((const char *)p)[i] == S[off + got + i], "the file gets the bytes of the record");
  size_t k = n; if (shortMode && n) switch (ks_choose(4, "write")) { case 1: shortMode--; k = less(n, 0); errno = EINTR; break; case 2: shortMode--; if (n > 1) k = less(n, 1); break; case 3: shortMode--; failed = true; k = less(n, 0); errno = ENOSPC; break; }
  got += k; return k; }
static void opened(int node) { ks_check(node >= first, "a new file is a file of its own"); cur = node; files++; }
static void start(uint64_t rollSize, int64_t every, int64_t flush, size_t num = UINT_MAX, const char *prefix = "") {
  k_time_hook = timeNow; k_fwrite_hook = put; k_opened_hook = opened; S = (char *)ks_lazy(M, "bytes"); roll = rollSize; interval = every; flushEvery = flush; now = lastRoll = lastFlush = base; F = new LogFile<>("app", rollSize, prefix, num, every, flush); ks_check(files == 1 && k_nopen == 1, "one file is open"); }
static int step = 6; static int64_t back = 0;
// what a log file has to do with a record, from its documentation: the file that has grown beyond the size, or belongs to an earlier period, is replaced, but not twice within a second
static bool rolled;
static void append() {
  now += (int64_t)ks_range("dt", 0, step + back) - back; len = ks_range("len", 0, CAP); off = off + CAP <= M - CAP ? off + CAP : 0; got = 0; failed = false; int was = cur; uint64_t before = k_node[was].size; F->Append(S + off, len); if (!failed) ks_check(got == len, "the whole record is written");
  bool over = before + got > roll, late = now / interval > lastRoll / interval, want = (over || late) && now > lastRoll; ks_check((cur != was) == want, want ? "a file that has reached its size or whose period is over is replaced" : "a file is replaced only when it has reached its size or its period is over"); rolled = cur != was; ks_check(k_nopen == 1, "one file is open");
  if (rolled) { ks_check(k_node[was].flushed == before + got && k_node[was].opens == 0, "a replaced file is complete and closed"); lastRoll = lastFlush = now; return; }
  if (!over && now - lastFlush > flushEvery) { ks_check(k_node[cur].flushed == before + got, "what was written is flushed when the flush interval is over"); lastFlush = now; } }
static void finish() { int c = cur; delete F; ks_check(k_nopen == 0, "the file is closed"); ks_check(k_node[c].flushed == k_node[c].size, "the last file is complete"); ks_reach("end"); }
KS_HARNESS harness_size() { start(ks_range("roll size", 0, 100), 86400, 3); step = 2; for (int i = 0; i < N; i++) append(); finish(); }
KS_HARNESS harness_period() { base -= 5; static const int I[] = {1, 5, 7, 86400}; start(1000, I[ks_choose(4, "interval")], 1000); for (int i = 0; i < N - 1; i++) append(); finish(); }
KS_HARNESS harness_flush() { start(1000, 86400, ks_range("flush interval", 0, 8)); for (int i = 0; i < N; i++) append(); finish(); }
KS_HARNESS harness_mixed() { base -= 4; start(ks_range("roll size", 0, 60), 5, 2); step = 4; for (int i = 0; i < N - 1; i++) append(); finish(); }
KS_HARNESS harness_back() { base -= 5; start(ks_range("roll size", 0, 60), 5, 3); back = 3; step = 3; for (int i = 0; i < N - 1; i++) append(); finish(); }
KS_HARNESS harness_short() { start(30, 86400, 3); step = 1; shortMode = 3; for (int i = 0; i < 2; i++) append(); finish(); }
KS_HARNESS harness_explicit() { start(1000, 86400, 100); for (int i = 0; i < 3; i++) { append(); if (ks_choose(2, "flush")) { F->Flush(); ks_check(k_node[cur].flushed == k_node[cur].size, "Flush() hands everything to the system"); } } finish(); }
// ---- names and directories
static void expectName(int node, const char *dir, const char *stamp) { char e[160]; strcpy(e, dir); strcat(e, "app."); strcat(e, stamp); strcat(e, ".4242.host.log"); ks_check(!strcmp(k_node[node].name, e), "the file is named by the base name, the local time, the process and the host, in the given directory"); }
static const struct { int64_t t; long tz; const char *s; } W[] = {{951782399, 0, "20000228-235959"}, {951782400, 0, "20000229-000000"}, {1709251199, 0, "20240229-235959"}, {1735689599, 0, "20241231-235959"}, {1735689600, 0, "20250101-000000"}, {1735689600, 28800, "20250101-080000"}, {1735689600, -3600, "20241231-230000"}, {4102444800ll, 0, "21000101-000000"}, {1234567890, 0, "20090213-233130"}};
KS_HARNESS harness_name() { const auto &w = W[ks_choose(9, "time")]; base = w.t; ks_tz = w.tz; static const char *D[] = {"", "logs", "logs/", "/var/a", "./x/"}; unsigned d = ks_choose(5, "directory"); k_root = ks_choose(2, "root"); bool exists = ks_choose(2, "exists"); if (d == 3) k_add("/var", true, 0755); static const char *DN[] = {"", "logs", "logs", "/var/a", "./x"}; if (d == 4) k_add(".", true, 0755); if (exists && d) k_add(DN[d], true, 0755); static const char *E[] = {"", "logs/", "logs/", "/var/a/", "./x/"};
  start(10, 86400, 3, UINT_MAX, D[d]); expectName(cur, E[d], w.s); S[0] = 'a'; len = 11; off = 0; got = 0; F->Append(S, 11); now++; len = 11; got = 0; F->Append(S, 11); ks_check(files == 2, "the next file is made"); finish(); }
// ---- the directory is made by another process at the same time
static int raced(const char *n) { k_add(n, true, 0755); return EEXIST; }
KS_HARNESS harness_mkdir() { k_mkdir_hook = raced; start(10, 86400, 3, UINT_MAX, "logs/"); finish(); }
// ---- old files
static int gone[32]; static void removed(int node, const char *) { ks_check(node >= 0 && node != cur, "only an old file is removed"); if (node >= 0) { ks_check(!gone[node], "a file is removed once"); gone[node] = 1; ks_check(k_node[node].opens == 0, "a removed file is closed"); } }
static void oldFiles(int preempt, bool settle, int n = N) {
  size_t num = ks_choose(4, "keep"); sched_deadlock_msg = "the log file can be destroyed at any time"; sched_spin_limit = 400; k_remove_hook = removed; start(5, 86400, 3, num); sched_preempt = preempt; unsigned kept = 1; bool want[16] = {};
  for (int i = 0; i < n; i++) { len = ks_choose(2, "roll") ? 6 : 1; now++; off = 0; got = 0; int was = cur; F->Append(S, len); if (cur != was) { kept++; if (kept >= num && kept > 1) { for (int k = first; k < cur; k++) want[k] = true; kept = 1; } } if (settle && ks_choose(2, "settle")) { sched_yield_all(); for (int k = first; k <= cur; k++) ks_check(k_node[k].exists == !want[k], "when as many files as the threshold exist, all but the newest are removed"); } }
  int c = cur; delete F; for (int k = first; k <= c; k++) ks_check(k_node[k].exists == !want[k], "when as many files as the threshold exist, all but the newest are removed"); ks_check(k_nopen == 0 && k_node[c].flushed == k_node[c].size, "the last file is complete"); ks_reach("end"); }
KS_HARNESS harness_remove() { oldFiles(0, true); }
KS_HARNESS harness_remove_race() { oldFiles(P, false, 3); }
KS_HARNESS harness_remove_wake() { sched_spurious = 1; oldFiles(P - 1, false); }
// ---- threads
static LogFile<true> *G; static int wrote[2][4]; static int inWrite; static size_t locked(int, const void *p, size_t n) { const char *d = (const char *)p; ks_check(n >= 1 && n <= 12, "records are written one at a time"); int t = d[0] >> 4, k = d[0] & 15; ks_check(n == (size_t)(4 * k + t + 3), "records are written whole"); for (size_t i = 1; i < n; i++) ks_check(d[i] == d[0], "records are written whole"); ks_check(!wrote[t][k] && (!k || wrote[t][k - 1]), "records of a thread are written once, in order"); wrote[t][k]++; int w = inWrite++; ks_check(w == 0, "one thread writes at a time"); sched_point(); inWrite--; return n; }
static void *worker(void *a) { long t = (long)a; for (int k = 0; k < 2; k++) { char b[16]; memset(b, (char)(t * 16 + k), sizeof b); G->Append(b, 4 * k + t + 3); if (t) now++; if (!t && k) G->Flush(); } return nullptr; }
KS_HARNESS harness_threads() { k_time_hook = timeNow; now = base; k_fwrite_hook = locked; G = new LogFile<true>("app", 6, "", ks_choose(2, "remove") ? 2 : UINT_MAX); pthread_t t; pthread_create(&t, nullptr, worker, (void *)1); sched_preempt = P; worker((void *)0); pthread_join(t, nullptr); sched_preempt = 0; for (int i = 0; i < 2; i++) for (int k = 0; k < 2; k++) ks_check(wrote[i][k] == 1, "every record is written"); delete G; ks_check(k_nopen == 0, "the file is closed"); for (int i = 0; i < k_nnode; i++) ks_check(k_node[i].flushed == k_node[i].size, "every file is complete"); ks_reach("end"); }
// ---- behind the logger
static int lines; static size_t line(int, const void *p, size_t n) { ks_check(n > 0 && ((const char *)p)[n - 1] == '\n', "log statements are written as lines"); lines++; return n; }
KS_HARNESS harness_logger() { k_time_hook = timeNow; now = base; k_now_us = base * 1000000; k_fwrite_hook = line; bool safe = ks_choose(2, "thread safe"); if (safe) { G = new LogFile<true>("app", 1000); SetupLogFile(*G); } else { F = new LogFile<>("app", 1000); SetupLogFile(*F); } LOG_INFO << "one"; LOG_ERROR << "two"; ks_check(lines == 2, "log statements reach the log file"); Logger::GetFlushCallback()(); ks_check(k_node[0].flushed == k_node[0].size && k_node[0].size > 0, "flushing the logger flushes the log file"); Logger::SetOutputCallback(&DefaultOutput); Logger::SetFlushCallback(&DefaultFlush); if (safe) delete G; else delete F; ks_reach("end"); }
