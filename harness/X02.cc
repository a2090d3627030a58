// Numbers to text and back.
#include "ks.h"
#include "kanon/string/lexical_stream.h"
#include "kanon/string/lexical_cast.h"
#include "kanon/string/string_view_util.h"
#include <string.h>
#include <limits>
using namespace kanon;
#ifndef TL
#define TL 4
#endif
template <class T> struct Wide { typedef unsigned long long U; };
// the text must be the canonical decimal numeral of v: no leading zeros, every digit right
template <class T> static void canonical(const char *s, unsigned n, T v, const char *what) {
  typedef typename std::make_unsigned<T>::type U; bool neg = v < 0; U m = neg ? (U)((U)0 - (U)v) : (U)v; unsigned o = 0;
  if (neg) { ks_check(n >= 2 && s[0] == '-', what); o = 1; ks_reach("negative"); }
  unsigned d = n - o; ks_check(n > o && d <= 20, what); if (!(n > o && d <= 20)) return;
  U pw = 1; for (unsigned i = 0; i < d; i++) { ks_check((unsigned char)s[n - 1 - i] == (unsigned char)('0' + (U)(m / pw) % 10), what); if (i + 1 < d) { ks_check(pw <= std::numeric_limits<U>::max() / 10, what); pw *= 10; } }
  if (pw <= std::numeric_limits<U>::max() / 10) ks_check(m < (U)(pw * 10), what); if (d > 1) ks_check(m >= pw, what); ks_check(s[n] == 0, "the text is NUL-terminated");
}
template <class T> static void stream1(T v) { LexicalStream<64> s; s << v; canonical(s.data(), s.size(), v, "an integer is formatted as its canonical decimal text"); ks_observe("len", s.size()); }
template <class T> static T near(const char *nm) { // values around every power of ten and the limits
  static const unsigned long long tens[] = {0ull, 10ull, 100ull, 1000ull, 10000ull, 100000ull, 1000000ull, 10000000ull, 100000000ull, 1000000000ull, 10000000000ull, 100000000000ull, 1000000000000ull, 10000000000000ull, 100000000000000ull, 1000000000000000ull, 10000000000000000ull, 100000000000000000ull, 1000000000000000000ull, 10000000000000000000ull, 0x8000000000000000ull, 0xffffffffffffffffull, 0x100000000ull, 0x80000000ull};
  unsigned k = ks_choose(24, "base"); unsigned long long b = tens[k]; unsigned long long d = ks_u(nm, 6); unsigned long long x = ks_choose(2, "side") ? b + d : b - d; if (ks_choose(2, "neg")) x = 0 - x; return (T)x; }
KS_HARNESS harness_fmt_narrow() {
  switch (ks_choose(5, "type")) { case 0: stream1((unsigned char)ks_u("v", 8)); break; case 1: stream1((short)ks_u("v", 16)); break; case 2: stream1((unsigned short)ks_u("v", 16)); break;
  case 3: stream1((int)ks_u("v", 32)); break; case 4: stream1((unsigned)ks_u("v", 32)); break; } }
KS_HARNESS harness_fmt_wide() { switch (ks_choose(2, "type")) { case 0: stream1((long)ks_u("v", 64)); break; case 1: stream1((unsigned long)ks_u("v", 64)); break; } }
KS_HARNESS harness_fmt_longlong() { switch (ks_choose(2, "type")) { case 0: stream1((long long)near<long long>("v")); break; case 1: stream1((unsigned long long)near<unsigned long long>("v")); break; } }
KS_HARNESS harness_fmt_other() {
  LexicalStream<128> s;
  switch (ks_choose(4, "kind")) {
  case 0: { bool b = ks_u("b", 1); s << b; ks_check(s.buffer().ToStringView() == (b ? StringView("True") : StringView("False")), "a boolean is formatted as its literal"); break; }
  case 1: { char c = (char)ks_u("c", 8); s << c; ks_check(s.size() == 1 && s.data()[0] == c && s.data()[1] == 0, "a character is formatted as itself"); break; }
  case 2: { uintptr_t p = ks_u("p", 64); s << (void const *)p; if (!p) { ks_check(s.buffer().ToStringView() == StringView("(null)"), "null pointer text"); break; }
    ks_check(s.size() >= 3 && s.size() <= 18 && s.data()[0] == '0' && s.data()[1] == 'x', "pointer prefix"); unsigned n = s.size() - 2; bool ok = true; uintptr_t q = p; for (unsigned i = 0; i < n; i++) { unsigned char d = q & 15; q >>= 4; unsigned char want = d + '0' + (unsigned char)((d > 9) * 7); ok = ok & ((unsigned char)(s.data()[s.size() - 1 - i]) == want); } ks_check(ok, "a pointer is formatted as its hexadecimal value"); ks_check(q == 0, "no pointer digit is lost"); ks_reach("ptr"); break; }
  case 3: { int v = (int)ks_u("v", 32); std::string t = lexical_cast<std::string>(v); canonical(t.c_str(), t.size(), v, "lexical_cast to string"); ks_reach("cast"); break; }
  }
}
// parsing: text of 0..TL arbitrary bytes
static bool isd(unsigned char c) { return (c >= '0') & (c <= '9'); }
struct Num { bool of; bool numeral; bool neg; unsigned long long mag; bool plain; }; // plain: no leading white space involved
static Num denotes(const unsigned char *p, unsigned n) {
  Num r; r.of = false; r.neg = false; r.mag = 0; unsigned i = 0; r.plain = true; if (n && ((p[0] == ' ') | ((p[0] >= 9) & (p[0] <= 13)))) { r.plain = false; r.numeral = false; return r; }
  if (n && (p[0] == '-' || p[0] == '+')) { r.neg = p[0] == '-'; i = 1; } r.numeral = n > i; for (; i < n; i++) { r.numeral = r.numeral & isd(p[i]); if (n > 18 && i >= 18) { r.of = r.of | (r.mag > 1844674407370955161ull) | ((r.mag == 1844674407370955161ull) & (p[i] > '5')); } r.mag = r.mag * 10 + (unsigned long long)(p[i] - '0'); } return r; }
template <class T, class S> static void parse1(const unsigned char *p, unsigned n, const S &src) {
  Num m = denotes(p, n); if (!m.plain) { lexical_cast<T>(src); return; } optional<T> r = lexical_cast<T>(src); bool has = (bool)r;
  if (!m.numeral) { ks_check(!has, "text that is not a complete numeral parses to absence"); ks_reach("absent"); return; }
  T lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max(); bool in = m.neg ? (m.mag <= (unsigned long long)0 - (unsigned long long)(long long)lo || m.mag == 0) : m.mag <= (unsigned long long)hi;
  if (std::is_unsigned<T>::value && m.neg) in = m.mag == 0; if (m.of) in = false;
  if (in) { ks_check(has, "a complete in-range numeral is accepted"); if (has) ks_check(*r == (T)(m.neg ? 0 - m.mag : m.mag), "the parsed value is the one denoted"); ks_reach("value"); } else { ks_check(!has, "an out-of-range numeral parses to absence"); ks_reach("range"); }
}
template <class S> static void parseAny(const unsigned char *p, unsigned n, const S &s) {
  switch (ks_choose(5, "T")) { case 0: parse1<i8>(p, n, s); break; case 1: parse1<u8>(p, n, s); break; case 2: parse1<int>(p, n, s); break; case 3: parse1<unsigned>(p, n, s); break; case 4: parse1<long>(p, n, s); break; } }
KS_HARNESS harness_parse_view() { unsigned n = ks_choose(TL + 1, "len"); unsigned char *p = (unsigned char *)malloc(n ? n : 1); if (n) ks_bytes(p, n, "text"); parseAny(p, n, StringView((const char *)p, n)); }
KS_HARNESS harness_parse_string() { unsigned n = ks_choose(TL, "len"); unsigned char p[TL + 1]; if (n) ks_bytes(p, n, "text"); parseAny(p, n, std::string((const char *)p, n)); }
// numerals of exactly the digits around the limits
template <class T> static void limits(unsigned maxd) { unsigned n = maxd - 1 + ks_choose(3, "digits"); unsigned char p[32]; bool neg = ks_choose(2, "neg"); unsigned o = 0; if (neg) p[o++] = '-'; static const char *top[] = {"2147483648", "4294967295", "9223372036854775808", "18446744073709551615", "32768", "65535"};
  const char *t = top[ks_choose(6, "top")]; unsigned tl = strlen(t); if (tl > n + 1 || n > tl + 1) ks_assume(false); for (unsigned i = 0; i < tl; i++) p[o++] = t[i]; unsigned k = ks_choose(3, "vary"); if (k == 0) { p[o - 1] = '0' + ks_range("d", 0, 9); } else if (k == 1) { p[o++] = '0' + ks_range("d", 0, 9); } else { p[o - tl] = '0' + ks_range("d", 1, 9); }
  unsigned char *q = (unsigned char *)malloc(o); memcpy(q, p, o); parse1<T>(q, o, StringView((const char *)q, o)); }
KS_HARNESS harness_parse_limits() { switch (ks_choose(6, "T")) { case 0: limits<i16>(5); break; case 1: limits<u16>(5); break; case 2: limits<int>(10); break; case 3: limits<unsigned>(10); break; case 4: limits<long>(19); break; case 5: limits<unsigned long>(20); break; } }
// the strto* wrappers: the longest leading numeral, absence exactly when there is none
KS_HARNESS harness_wrap() {
  unsigned n = ks_choose(TL + 1, "len"); unsigned char *p = (unsigned char *)malloc(n ? n : 1); if (n) ks_bytes(p, n, "text"); StringView s((const char *)p, n);
  if (n) ks_assume(!((p[0] == ' ') | ((p[0] >= 9) & (p[0] <= 13)))); unsigned i = 0; bool neg = false; if (n && (p[0] == '-' || p[0] == '+')) { neg = p[0] == '-'; i = 1; } unsigned long long m = 0; unsigned st = i; for (; i < n && isd(p[i]); i++) m = m * 10 + (p[i] - '0'); bool any = i > st; long long v = neg ? -(long long)m : (long long)m;
#define W(fn, T, inr) { auto r = fn(s); bool has = (bool)r; if (!any) { ks_check(!has, #fn " reports absence when there is no numeral"); ks_reach("none"); } else if (inr) { ks_check(has, #fn " accepts a leading numeral"); if (has) ks_check(*r == (T)v, #fn " returns the leading numeral"); ks_reach("some"); } }
  switch (ks_choose(8, "fn")) {
  case 0: W(StringViewTo64, int64_t, true); break; case 1: W(StringViewToU64, uint64_t, !neg); break; case 2: W(StringViewTo32, int32_t, true); break; case 3: W(StringViewToU32, uint32_t, !neg); break;
  case 4: W(StringViewTo16, int16_t, v >= -32768 && v <= 32767); break; case 5: W(StringViewToU16, uint16_t, v >= 0 && v <= 65535); break; case 6: W(StringViewTo8, int8_t, v >= -128 && v <= 127); break; case 7: W(StringViewToU8, uint8_t, v >= 0 && v <= 255); break; }
}
// ---- two threads cast and parse at once
#include "core.h"
#include <pthread.h>
#ifndef PR
#define PR 1
#endif
static int thv[2]; static std::string tht[2]; static bool thOk[2]; static unsigned thk, thn;
static void castOne(int i) {
  StringView s((const char *)tht[i].data(), (StringView::size_type)tht[i].size());
  switch (thk) { case 0: thOk[i] = lexical_cast<std::string>(thv[i]) == tht[i]; break; case 1: { StringView v = lexical_cast<StringView>(thv[i]); thOk[i] = v == s && v.data()[v.size()] == 0; break; }
  case 2: { auto r = lexical_cast<int>(s); thOk[i] = r && *r == thv[i]; break; } case 3: { auto r = StringViewTo32(s); thOk[i] = r && *r == thv[i]; break; } case 4: { auto r = StringViewTo64(s); thOk[i] = r && *r == thv[i]; break; } case 5: { auto r = StringViewToU32(s); thOk[i] = r && *r == (unsigned)thv[i]; break; } case 6: { auto r = StringViewToU64(s); thOk[i] = r && *r == (unsigned)thv[i]; break; } default: { auto r = lexical_cast<int>(tht[i]); thOk[i] = r && *r == thv[i]; } } }
static void *castThread(void *) { castOne(1); return nullptr; }
KS_HARNESS harness_threads() { thk = ks_choose(8, "kind"); for (int i = 0; i < 2; i++) { char c[3]; int v = 0; for (int j = 0; j < (i ? 2 : 3); j++) { unsigned d = ks_u("digit", 4); ks_assume(d >= 1 && d <= 9); c[j] = (char)('0' + d); v = v * 10 + (int)d; } tht[i].assign(c, i ? 2 : 3); thv[i] = v; }
  sched_preempt = PR; pthread_t t; pthread_create(&t, nullptr, castThread, nullptr); castOne(0); pthread_join(t, nullptr); ks_check(thOk[0], "a cast in one thread is not disturbed by another thread's"); ks_check(thOk[1], "a cast in one thread is not disturbed by another thread's"); ks_reach("both"); }
