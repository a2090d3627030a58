// Time stamp arithmetic and text.
#include "ks.h"
#include "kanon/util/time_stamp.h"
#include <string.h>
#include <stdlib.h>
using namespace kanon; typedef TimeStamp TS;
static int64_t inst(const char *n) { return (int64_t)ks_u(n, 64); }
static const int64_t LIM = 1ll << 61;
static int64_t small(const char *n) { int64_t v = inst(n); ks_assume((v < LIM) & (v > -LIM)); return v; }
static int64_t cnt(const char *n) { return (int32_t)ks_u(n, 32); }
#define US(x) ((x).GetMicrosecondsSinceEpoch())
#define T(c) ks_check(c, #c)
static unsigned micros() { return (unsigned)ks_range("us", 0, 999999); } // 0..999999
KS_HARNESS harness_arith() {
  int64_t a = small("a"), b = small("b"), c = cnt("c"); TS x(a), y(b);
  T(US(x) == a); T(US(x + y) == a + b); T(US(x - y) == a - b); TS z(x); z += y; T(US(z) == a + b); z -= y; T(US(z) == a); z -= x; T(US(z) == 0); T(US(-x) == -a);
  T(US(x + TS::Microsecond(c)) == a + c); T(US(x + TS::MilliSecond(c)) == a + c * 1000); T(US(x + TS::Second(c)) == a + c * 1000000); T(US(x - TS::Microsecond(c)) == a - c); T(US(x - TS::MilliSecond(c)) == a - c * 1000); T(US(x - TS::Second(c)) == a - c * 1000000);
  T(US(TS::Microsecond(c) + x) == a + c); T(US(TS::MilliSecond(c) + x) == a + c * 1000); T(US(TS::Second(c) + x) == a + c * 1000000); T(US(TS::Microsecond(c) - x) == c - a); T(US(TS::MilliSecond(c) - x) == c * 1000 - a); T(US(TS::Second(c) - x) == c * 1000000 - a);
  z.SetMicroseconds(b); T(US(z) == b); uint64_t u = ks_u("u", 50); T(US(AddTimeUs(x, u)) == a + (int64_t)u); T(US(AddTimeMs(x, u)) == a + (int64_t)u * 1000); ks_reach("done"); }
KS_HARNESS harness_order() { int64_t a = inst("a"), b = inst("b"); TS x(a), y(b); T((x < y) == (a < b)); T((x == y) == (a == b)); T((x != y) == (a != b)); T((x > y) == (a > b)); T((x <= y) == (a <= b)); T((x >= y) == (a >= b)); TS z(x); T(z == x); ks_reach("done"); }
KS_HARNESS harness_units() { int64_t a = inst("a"); TS x(a); int64_t s = x.GetSeconds(), m = x.GetMilliseconds(); T(x.GetMicroseconds() == a && x.microseconds() == a); T(s == a / 1000000); T(m == a / 1000); T(x.seconds() == s); T(x.milliseconds() == m);
  int64_t sec = (int64_t)ks_u("sec", 40), us = (int64_t)ks_u("us", 30); T(US(TS::FromUnixTime(sec, us)) == sec * 1000000 + us); T(US(TS::FromUnixTime(sec)) == sec * 1000000); unsigned mu = micros(); T(TS::FromUnixTime(sec, mu).GetSeconds() == sec); T(TS::FromUnixTime(sec, mu).GetMilliseconds() == sec * 1000 + mu / 1000); ks_reach("done"); }
static bool eq(const std::string &s, unsigned o, const char *d, unsigned n) { unsigned r = 0; for (unsigned i = 0; i < n; i++) r |= (unsigned char)s[o + i] ^ (unsigned char)d[i]; return r == 0; }
static void dec(char *o, unsigned v, unsigned n) { for (unsigned i = n; i-- > 0;) { o[i] = '0' + v % 10; v /= 10; } }
static const int64_t SECS[] = {0, 1, 59, 60, 3599, 3600, 86399, 86400, 951782399, 951782400, 951868800, 1709164799, 1709164800, 1709251200, 1704067199, 1704067200, 4102444799ll, 4102444800ll, 1234567890, 999999999};
static const char *FMT[] = {"19700101 00:00:00", "19700101 00:00:01", "19700101 00:00:59", "19700101 00:01:00", "19700101 00:59:59", "19700101 01:00:00", "19700101 23:59:59", "19700102 00:00:00", "20000228 23:59:59", "20000229 00:00:00", "20000301 00:00:00", "20240228 23:59:59", "20240229 00:00:00", "20240301 00:00:00", "20231231 23:59:59", "20240101 00:00:00", "20991231 23:59:59", "21000101 00:00:00", "20090213 23:31:30", "20010909 01:46:39"};
KS_HARNESS harness_text() { unsigned k = ks_choose(20, "instant"); unsigned us = micros(); TS x(SECS[k] * 1000000 + us); char d[16]; d[0] = '.'; dec(d + 1, us, 6);
  std::string s = x.ToString(); char n[24]; unsigned len = 0; { char t[24]; int64_t v = SECS[k]; do { t[len++] = '0' + v % 10; v /= 10; } while (v); for (unsigned i = 0; i < len; i++) n[i] = t[len - 1 - i]; }
  ks_check(s.size() == len + 7, "ToString has six microsecond digits"); if (s.size() == len + 7) ks_check(eq(s, 0, n, len) && eq(s, len, d, 7), "ToString shows the seconds and zero-padded microseconds");
  std::string f = x.ToFormattedString(true); ks_check(f.size() == 24 && eq(f, 0, FMT[k], 17) && eq(f, 17, d, 7), "the formatted text shows date, time and zero-padded microseconds"); std::string g = x.ToFormattedString(false); ks_check(g.size() == 17 && eq(g, 0, FMT[k], 17), "the formatted text without microseconds"); ks_reach("done"); }
KS_HARNESS harness_textsec() { int64_t sec = (int64_t)ks_range("sec", 0, 17179869183ll); unsigned us = micros(); TS x(sec * 1000000 + us); std::string s = x.ToString(); unsigned n = s.size(); bool ok = n >= 8; ks_check(ok, "ToString has seconds, a point and six digits"); if (!ok) return; char d[8]; d[0] = '.'; dec(d + 1, us, 6); ks_check(eq(s, n - 7, d, 7), "zero-padded microseconds"); int64_t v = sec; bool good = true; for (unsigned i = n - 7; i-- > 0;) { good = good & (s[i] == (char)('0' + v % 10)); v /= 10; } ks_check(good & (v == 0), "the seconds' decimal digits"); ks_reach("done"); }
