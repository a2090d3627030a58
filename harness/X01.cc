// String view searches, comparisons and substrings against predicate definitions over the raw bytes.
#include "ks.h"
#include "kanon/string/string_view.h"
#include <string.h>
using namespace kanon;
#ifndef H
#define H 5
#endif
#ifndef M
#define M 3
#endif
typedef unsigned char uc; typedef StringView SV; static const size_t NP = (size_t)-1;
struct Txt { uc *p; size_t n; SV v() const { return SV((const char *)p, n); } };
static Txt text(size_t maxn, const char *nm) { Txt t; t.n = ks_choose(maxn + 1, "len"); t.p = (uc *)malloc(t.n ? t.n : 1); if (t.n) ks_bytes(t.p, t.n, nm); if (!t.n) { t.p = (uc *)malloc(0) ; } return t; }
static bool at(const Txt &h, const Txt &v, size_t i) { if (i + v.n > h.n) return false; unsigned d = 0; for (size_t j = 0; j < v.n; j++) d |= h.p[i + j] ^ v.p[j]; return d == 0; }
static bool in(uc c, const Txt &v) { bool r = false; for (size_t j = 0; j < v.n; j++) r = r | (v.p[j] == c); return r; }
static size_t position(size_t n) { unsigned k = ks_choose(n + 3, "pos"); return k <= n ? k : k == n + 1 ? n + 7 : NP; }
template <class P> static void first(size_t got, size_t n, size_t pos, P hit, const char *what) { // the smallest i >= pos with hit(i)
  if (got == NP) { bool any = false; for (size_t i = pos; i < n; i++) any = any | hit(i); ks_check(!any, what); ks_reach("none"); }
  else { bool ok = got >= pos && got < n; ks_check(ok, what); if (!ok) return; bool any = false; for (size_t i = pos; i < got; i++) any = any | hit(i); ks_check(hit(got) & !any, what); ks_reach("found"); }
}
template <class P> static void last(size_t got, size_t n, size_t pos, P hit, const char *what) { // the largest i <= pos with hit(i)
  size_t top = n == 0 ? 0 : (pos < n - 1 ? pos : n - 1);
  if (got == NP) { bool any = false; if (n) for (size_t i = 0; i <= top; i++) any = any | hit(i); ks_check(!any, what); ks_reach("none"); }
  else { bool ok = n && got <= top; ks_check(ok, what); if (!ok) return; bool any = false; for (size_t i = got + 1; i <= top; i++) any = any | hit(i); ks_check(hit(got) & !any, what); ks_reach("found"); }
}
KS_HARNESS harness_find() {
  Txt h = text(H, "hay"), v = text(M, "needle"); size_t pos = ks_choose(h.n + 1, "pos"); size_t r = h.v().find(v.v(), pos);
  first(r, h.n + 1, pos, [&](size_t i) { return i + v.n <= h.n && at(h, v, i); }, "find returns the first occurrence at or after the position"); ks_observe("r", r);
  ks_check(h.v().contains(v.v()) == (h.v().find(v.v()) != NP), "contains agrees with find");
}
KS_HARNESS harness_rfind() {
  Txt h = text(H, "hay"), v = text(M, "needle"); size_t pos = position(h.n); size_t r = h.v().rfind(v.v(), pos);
  last(r, h.n + 1, pos, [&](size_t i) { return i + v.n <= h.n && at(h, v, i); }, "rfind returns the last occurrence starting at or before the position"); ks_observe("r", r);
}
KS_HARNESS harness_char() {
  Txt h = text(H, "hay"); uc c = (uc)ks_u("c", 8); size_t n = h.n; SV s = h.v();
  auto eq = [&](size_t i) { return i < n && h.p[i] == c; }; auto ne = [&](size_t i) { return i < n && h.p[i] != c; };
  switch (ks_choose(8, "fn")) {
  case 0: { size_t p = ks_choose(n + 1, "pos"); first(s.find((char)c, p), n, p, eq, "find(char)"); break; }
  case 1: { size_t p = position(n); last(s.rfind((char)c, p), n, p, eq, "rfind(char)"); break; }
  case 2: { size_t p = position(n); first(s.find_first_of((char)c, p), n, p, eq, "find_first_of(char)"); break; }
  case 3: { size_t p = position(n); last(s.find_last_of((char)c, p), n, p, eq, "find_last_of(char)"); break; }
  case 4: { size_t p = position(n); first(s.find_first_not_of((char)c, p), n, p, ne, "find_first_not_of(char)"); break; }
  case 5: { size_t p = position(n); last(s.find_last_not_of((char)c, p), n, p, ne, "find_last_not_of(char)"); break; }
  case 6: { ks_check(s.contains((char)c) == (s.find((char)c) != NP), "contains(char)"); ks_check(s.starts_with((char)c) == (n && h.p[0] == c), "starts_with(char)"); ks_check(s.ends_with((char)c) == (n && h.p[n - 1] == c), "ends_with(char)"); break; }
  case 7: { char cc = (char)c; int r = s.compare(cc), e = s.compare(SV(&cc, 1)); ks_check((r < 0) == (e < 0) && (r > 0) == (e > 0), "compare(char) agrees with comparing a one-character view"); break; }
  }
}
KS_HARNESS harness_of() {
  Txt h = text(H, "hay"), v = text(2, "set"); SV s = h.v(), t = v.v(); size_t n = h.n; size_t p = position(n);
  auto hit = [&](size_t i) { return i < n && in(h.p[i], v); }; auto miss = [&](size_t i) { return i < n && !in(h.p[i], v); };
  switch (ks_choose(4, "fn")) {
  case 0: first(s.find_first_of(t, p), n, p, hit, "find_first_of"); break;
  case 1: last(s.find_last_of(t, p), n, p, hit, "find_last_of"); break;
  case 2: first(s.find_first_not_of(t, p), n, p, miss, "find_first_not_of"); break;
  case 3: last(s.find_last_not_of(t, p), n, p, miss, "find_last_not_of"); break;
  }
}
static int sgn(int x) { return (x > 0) - (x < 0); }
static int lex(const Txt &a, const Txt &b) { size_t m = a.n < b.n ? a.n : b.n; int r = 0; for (size_t i = m; i-- > 0;) r = a.p[i] < b.p[i] ? -1 : a.p[i] > b.p[i] ? 1 : r; return r; }
KS_HARNESS harness_compare() {
  Txt a = text(H - 1, "a"), b = text(H - 1, "b"); SV x = a.v(), y = b.v();
  int e = lex(a, b); bool pre = e == 0; if (e == 0) e = a.n < b.n ? -1 : a.n > b.n;
  ks_check(sgn(x.compare(y)) == e, "compare is lexicographic over unsigned bytes"); ks_check(sgn(y.compare(x)) == -e, "compare is antisymmetric");
  ks_check((x == y) == (e == 0), "=="); ks_check((x != y) == (e != 0), "!="); ks_check((x < y) == (e < 0), "<"); ks_check((x > y) == (e > 0), ">"); ks_check((x <= y) == (e <= 0), "<="); ks_check((x >= y) == (e >= 0), ">=");
  ks_check(x.starts_with(y) == (b.n <= a.n && pre), "starts_with"); ks_check(x.ends_with(y) == (b.n <= a.n && at(a, b, a.n - b.n)), "ends_with"); ks_reach("cmp");
}
KS_HARNESS harness_case() {
  Txt a = text(2, "a"), b = text(2, "b"); for (size_t i = 0; i < a.n; i++) ks_assume(a.p[i] != 0 && a.p[i] < 128); for (size_t i = 0; i < b.n; i++) ks_assume(b.p[i] != 0 && b.p[i] < 128);
  auto low = [](uc c) -> uc { return (uc)(c + (((c >= 'A') & (c <= 'Z')) ? 32 : 0)); }; Txt c = a, d = b; c.p = (uc *)malloc(4); d.p = (uc *)malloc(4); for (size_t i = 0; i < a.n; i++) c.p[i] = low(a.p[i]); for (size_t i = 0; i < b.n; i++) d.p[i] = low(b.p[i]);
  int e = lex(c, d); if (e == 0) e = a.n < b.n ? -1 : a.n > b.n; ks_check(sgn(a.v().caseCompare(b.v())) == e, "caseCompare ignores case"); if (b.n == 1) ks_check(sgn(a.v().caseCompare((char)b.p[0])) == e, "caseCompare(char)");
  if (a.n) { std::string u = a.v().ToUpperString(), l = a.v().ToLowerString(); ks_check(u.size() == a.n && l.size() == a.n, "case conversion keeps the length"); for (size_t i = 0; i < a.n; i++) ks_check((uc)l[i] == c.p[i], "lower case"); } ks_reach("case");
}
KS_HARNESS harness_sub() {
  Txt h = text(H, "hay"); SV s = h.v(); size_t p = ks_choose(h.n + 1, "pos"); uint64_t c = ks_u("count", 64);
  SV t = s.substr(p, c); size_t want = c < h.n - p ? c : h.n - p; ks_check(t.size() == want && t.data() == s.data() + p, "substr is the clamped range"); size_t e = p + ks_choose(h.n - p + 1, "len");
  SV g = s.substr_range(p, e); ks_check(g.size() == e - p && g.data() == s.data() + p, "substr_range is the half-open range"); ks_check(s.substr_range(p).size() == h.n - p, "substr_range to the end");
  SV q = s; q.remove_prefix(p); ks_check(q.size() == h.n - p && q.data() == s.data() + p, "remove_prefix"); q = s; q.remove_suffix(p); ks_check(q.size() == h.n - p && q.data() == s.data(), "remove_suffix");
  if (p < h.n) { char *d = (char *)malloc(H + 1); memset(d, 0x55, H + 1); size_t k = s.copy(d, c < (uint64_t)H ? c : H, p); size_t w = (c < (uint64_t)H ? c : H); if (w > h.n - p) w = h.n - p; ks_check(k == w, "copy reports what it copied"); for (size_t i = 0; i < h.n - p; i++) if (i < k) ks_check((uc)d[i] == h.p[p + i], "copy copies the bytes"); ks_check(d[H] == 0x55, "copy stays in range"); ks_check((uc)s.at(p) == h.p[p], "at"); }
  bool threw = false; try { s.at(h.n); } catch (std::length_error &) { threw = true; } ks_check(threw, "at rejects an index past the end"); std::string str = s.ToString(); ks_check(str.size() == h.n, "ToString keeps every byte"); for (size_t i = 0; i < h.n; i++) ks_check((uc)str[i] == h.p[i], "ToString byte"); ks_reach("sub");
}
KS_HARNESS harness_split() {
  Txt h = text(H, "hay"), v = text(2, "sep"); if (!v.n) ks_assume(false); std::vector<std::string> r = h.v().split(v.v());
  size_t o = 0; ks_check(r.size() >= 1, "split yields at least one piece"); // the pieces joined with the separator are the text, and no piece contains the separator
  for (size_t i = 0; i < r.size(); i++) { const std::string &s = r[i]; ks_check(o + s.size() <= h.n, "pieces fit"); for (size_t j = 0; j < s.size() && o + j < h.n; j++) ks_check((uc)s[j] == h.p[o + j], "piece bytes"); Txt q; q.p = (uc *)s.data(); q.n = s.size(); for (size_t j = 0; j + v.n <= s.size(); j++) ks_check(!at(q, v, j), "no piece contains the separator"); o += s.size(); if (i + 1 < r.size()) { ks_check(at(h, v, o), "pieces are separated by the separator"); o += v.n; ks_reach("sep"); } }
  ks_check(o == h.n, "the pieces cover the whole text"); ks_reach("split");
}
