// The logger: which statements are output, and what a log line is made of.
#include "net.h"
#include "file.h"
#include "kanon/log/logger.h"
#include "kanon/log/terminal_color.h"
#include "kanon/thread/current_thread.h"
#include "kanon/thread/thread.h"
#include <string.h>
#include <errno.h>
using namespace kanon;
#ifndef N
#define N 2
#endif
static char *line; static size_t n; static int outs, flushes; // the latest output
static void out(char const *d, size_t k) { ks_check(k <= 8192, "a log line has a bounded length"); if (k > 8192) ks_end(); memcpy(line, d, k); n = k; outs++; }
static void flush() { flushes++; }
static int64_t sec = 1700000000; static uint64_t usec, digit[6] = {1, 2, 3, 4, 5, 6}; static bool tod(struct timeval *t) { t->tv_sec = sec; t->tv_usec = usec; return true; }
static void start() { line = (char *)malloc(8192); Logger::SetOutputCallback(&out); Logger::SetFlushCallback(&flush); Logger::SetColor(false); Logger::SetLogLevel(Logger::KANON_LL_TRACE); k_tod_hook = tod; usec = 123456; }
// ---- a reading of the line
static size_t p; static void fail(const char *) { ks_check(false, "a log line consists of time, thread, thread name, level, what belongs to the level, message and position"); ks_end(); }
static void lit(const char *s) { for (; *s; s++, p++) if (!(p < n && line[p] == *s)) fail(s); }
static void dec(uint64_t v) { char t[24]; int k = 0; do { t[k++] = '0' + v % 10; v /= 10; } while (v); char r[24]; int j = 0; while (k) r[j++] = t[--k]; r[j] = 0; lit(r); }
static const char *stamp; static const char *threadName = "main";
static void time_() { lit(stamp); lit("."); for (int i = 0; i < 6; i++, p++) { ks_check(p < n, "the time ends with microseconds"); ks_check((uint64_t)(unsigned char)line[p] == '0' + digit[i], "a log line carries the time of the statement"); } lit(" "); }
static const char *LN[] = {"TRACE", "DEBUG", "INFO", "WARN", "ERROR", "SYS_ERROR", "FATAL", "SYS_FATAL"}, *LC[] = {CYAN, BLUE, GREEN, YELLOW, RED, L_RED, RED, L_RED}; static bool color;
static void head(int level) { p = 0; time_(); dec(CurrentThread::tid()); lit(" "); lit(threadName); lit(" "); if (color) lit(LC[level]); lit("["); lit(LN[level]); lit("]"); if (color) lit(NONE); lit(" "); }
static void tail(const char *file, uint64_t ln) { lit(" - "); lit(file); lit(":"); dec(ln); lit("\n"); ks_check(p == n, "a log line ends with its position"); }
static int lineNo;
#define STMT(k) do { lineNo = __LINE__; switch (k) { case 0: LOG_TRACE << "message"; break; case 1: LOG_DEBUG << "message"; break; case 2: LOG_INFO << "message"; break; case 3: LOG_WARN << "message"; break; case 4: LOG_ERROR << "message"; break; case 5: LOG_SYSERROR << "message"; break; case 6: LOG_FATAL << "message"; break; case 7: LOG_SYSFATAL << "message"; break; } } while (0)
static int err; static void errText() { if (!err) return; lit("errno: "); dec(err); lit(", errmsg: "); lit(strerror(err)); }
static void expectLine(int k, const char *fn, const char *msg = "message") { ks_check(outs == 1, "a statement that is enabled is output once"); head(k); if (k <= 1) { lit(fn); lit("() "); } if (k == 5 || k == 7) { errText(); lit(" "); } lit(msg); tail("L03.cc", lineNo); }
static int aborting = -1; static const char *fnName; static void aborted() { ks_check(aborting >= 0, "only a fatal statement ends the process"); if (aborting < 0) ks_end(); ks_check(flushes == 1, "a fatal statement flushes before it ends the process"); expectLine(aborting, fnName); ks_reach("fatal"); ks_end(); }
static void one(int k, const char *fn) { k_abort_hook = aborted; aborting = k >= 6 ? k : -1; fnName = fn; errno = err; outs = 0; STMT(k); ks_check(k < 6, "a fatal statement ends the process"); ks_check(errno == err, "a log statement leaves errno alone"); }
static const int E[] = {0, 2, 11, 98}; 
// ---- which statements are output
static const char *onef = "one";
KS_HARNESS harness_level() { start(); stamp = "20231114:221320"; Logger::SetLogLevel((Logger::LogLevel)ks_u("configured", 4)); unsigned k = ks_choose(8, "statement"); err = 2; int lv = Logger::GetLogLevel(); ks_assume(lv <= 9); one(k, onef); if ((int)k >= lv) expectLine(k, onef); else ks_check(outs == 0, "a statement below the log level is not output"); ks_reach("end"); }
static int evals; static int operand() { return ++evals; }
KS_HARNESS harness_library() { start(); stamp = "20231114:221320"; bool on = ks_choose(2, "library"); SetKanonLog(on); Logger::SetLogLevel((Logger::LogLevel)ks_u("configured", 3)); int lv = Logger::GetLogLevel(); unsigned k = ks_choose(6, "statement");
  switch (k) { case 0: LOG_TRACE_KANON << operand(); break; case 1: LOG_DEBUG_KANON << operand(); break; case 2: LOG_INFO_KANON << operand(); break; case 3: LOG_WARN_KANON << operand(); break; case 4: LOG_ERROR_KANON << operand(); break; case 5: LOG_SYSERROR_KANON << operand(); break; }
  ks_check(outs == (on && (int)k >= lv), "the statements of the library are output when they are enabled and of the log level"); ks_check(evals == outs, "the operands of a statement are evaluated when it is output"); ks_reach("end"); }
// ---- errors
KS_HARNESS harness_errno() { start(); stamp = "20231114:221320"; err = E[ks_choose(4, "errno")]; ks_localtime_errno = ks_choose(2, "localtime") ? ENOENT : 0; static const int K[] = {2, 4, 5, 7}; unsigned k = K[ks_choose(4, "statement")]; one(k, onef); expectLine(k, onef); ks_reach("end"); }
// ---- colours
KS_HARNESS harness_color() { start(); stamp = "20231114:221320"; color = true; Logger::SetColor(true); unsigned k = ks_choose(8, "statement"); err = 2; one(k, onef); expectLine(k, onef); ks_reach("end"); }
// ---- time
static const struct { int64_t t; long tz; const char *s; } W[] = {{1700000000, 0, "20231114:221320"}, {1700000001, 0, "20231114:221321"}, {1700000000, 28800, "20231115:061320"}, {951782400, 0, "20000229:000000"}, {1735689599, 0, "20241231:235959"}, {1735689600, 0, "20250101:000000"}, {1, 0, "19700101:000001"}, {1735689600, -3600, "20241231:230000"}};
static void at(int i) { sec = W[i].t; stamp = W[i].s; usec = 0; for (int k = 0; k < 6; k++) { digit[k] = ks_range("digit", 0, 9); usec = usec * 10 + digit[k]; } }
KS_HARNESS harness_time() { start(); int first = ks_choose(8, "first"); ks_tz = W[first].tz; at(first); lineNo = __LINE__; LOG_INFO << "a"; head(2); lit("a"); tail("L03.cc", lineNo); ks_reach("end"); }
KS_HARNESS harness_clock() { start(); int last = -1; for (int i = 0; i <= N; i++) { static const int J[] = {0, 1, 4, 5}; int w = J[ks_choose(4, "second")]; if (last >= 0 && w == last) { ks_note("same second"); } last = w; at(w); lineNo = __LINE__; LOG_INFO << "a"; head(2); lit("a"); tail("L03.cc", lineNo); } ks_reach("end"); }
// ---- threads
static void inThread() { Thread t([]() { threadName = "worker"; outs = 0; lineNo = __LINE__; LOG_INFO << "a"; head(2); lit("a"); tail("L03.cc", lineNo); sec++; stamp = W[1].s; lineNo = __LINE__; LOG_WARN << "b"; head(3); lit("b"); tail("L03.cc", lineNo); }, "worker"); t.StartRun(); t.Join(); }
KS_HARNESS harness_thread() { start(); at(0); bool before = ks_choose(2, "main first"); if (before) { lineNo = __LINE__; LOG_INFO << "m"; head(2); lit("m"); tail("L03.cc", lineNo); } inThread(); threadName = "main"; if (ks_choose(2, "back")) { sec = W[0].t; stamp = W[0].s; } lineNo = __LINE__; LOG_INFO << "m"; head(2); lit("m"); tail("L03.cc", lineNo); ks_reach("end"); }
// ---- messages
KS_HARNESS harness_message() { start(); stamp = "20231114:221320"; size_t len = ks_u("len", 10); char *m = (char *)ks_lazy(1024, "text"); outs = 0; lineNo = __LINE__; LOG_INFO << StringView(m, len); ks_check(outs == 1, "a statement that is enabled is output once"); head(2); ks_check(n - p >= len, "the message is part of the line"); if (!(n - p >= len)) ks_end(); uint64_t i = ks_u("i", 10); if (i < len) ks_check(line[p + i] == m[i], "the message is part of the line"); p += len; tail("L03.cc", lineNo); ks_reach("end"); }
KS_HARNESS harness_long() { start(); stamp = "20231114:221320"; static char big[8192]; memset(big, 'x', sizeof big); static const int D[] = {4000, 4020, 4030, 4031, 4032, 4033, 4034, 4035, 4036, 4037, 4038, 4039, 4040, 4041, 4042, 4043, 4044, 4045, 4046, 4047, 4048, 4049, 4050, 4051, 4052, 4053, 4054, 4060, 4080, 4095, 4096, 5000}; size_t len = D[ks_choose(32, "length")]; outs = 0; lineNo = __LINE__; LOG_INFO << StringView(big, len); ks_check(outs == 1, "a statement that is enabled is output once"); head(2); size_t k = 0; while (p < n && line[p] == 'x') { p++; k++; } ks_check(k <= len, "an over-long message isn't invented"); tail("L03.cc", lineNo); ks_reach("end"); }
KS_HARNESS harness_pieces() { start(); stamp = "20231114:221320"; outs = 0; unsigned nd = 1 + ks_choose(5, "digits"); uint64_t dg[5], v = 0; for (unsigned i = 0; i < nd; i++) { dg[i] = ks_range("digit", i || nd == 1 ? 0 : 1, 9); v = v * 10 + dg[i]; } lineNo = __LINE__; LOG_INFO << "v=" << v << ", " << (ks_choose(2, "b") ? "yes" : "no") << 'c'; head(2); lit("v="); for (unsigned i = 0; i < nd; i++, p++) ks_check(p < n && (uint64_t)line[p] == '0' + dg[i], "numbers are written in full"); lit(", "); if (line[p] == 'y') lit("yes"); else lit("no"); lit("c"); tail("L03.cc", lineNo); ks_reach("end"); }
KS_HARNESS harness_format() { start(); stamp = "20231114:221320"; outs = 0; lineNo = __LINE__; FMT_LOG_WARN("% of %", "one", 12); head(3); lit("one of 12"); tail("L03.cc", lineNo); ks_reach("end"); }
// ---- position
KS_HARNESS harness_position() { start(); stamp = "20231114:221320"; static const struct { const char *f, *b; } F[] = {{"x.cc", "x.cc"}, {"/x.cc", "x.cc"}, {"a/b.cc", "b.cc"}, {"/long/path/to/some file.h", "some file.h"}, {"../q.c", "q.c"}, {"a//b", "b"}}; unsigned f = ks_choose(6, "file"); static const uint64_t L[] = {1, 9, 10, 99, 1234, 65536, 999999}; uint64_t l = L[ks_choose(7, "line")]; unsigned k = ks_choose(2, "kind"); if (k) { Logger(F[f].f, l, Logger::KANON_LL_DEBUG, "fn").stream() << "m"; head(1); lit("fn() "); } else { Logger(F[f].f, l, Logger::KANON_LL_INFO).stream() << "m"; head(2); } lit("m"); tail(F[f].b, l); ks_reach("end"); }
// ---- the default device
static int def; static size_t std_(int, const void *, size_t) { def++; return 0; }
KS_HARNESS harness_switch() { start(); stamp = "20231114:221320"; outs = 0; LOG_INFO << "a"; ks_check(outs == 1, "output goes to the device that is set"); auto o = Logger::GetOutputCallback(); Logger::SetOutputCallback([](char const *, size_t) { def++; }); LOG_INFO << "b"; ks_check(outs == 1 && def == 1, "output goes to the device that is set"); Logger::SetOutputCallback(o); LOG_INFO << "c"; ks_check(outs == 2 && def == 1, "output goes to the device that is set"); (void)std_; ks_reach("end"); }
