// Line-end search in a Buffer and extraction up to it.
#include "ks.h"
#include "kanon/buffer/buffer.h"
#include <string.h>
#include <string>
using namespace kanon;
#ifndef KN
#define KN 6
#endif
// the buffer holds n readable bytes; stale bytes (consumed ones before, old ones behind) are arbitrary too
static unsigned char T[KN + 8]; static unsigned n;
static void fill(Buffer &b) {
  n = ks_choose(KN + 1, "len"); ks_bytes(T, KN, "text"); unsigned lay = ks_choose(3, "layout");
  if (lay == 0) { b.Append(T, n); }
  else if (lay == 1) { unsigned char s[2]; ks_bytes(s, 2, "stale"); b.Append(s, 2); b.Append(T, n); b.AdvanceRead(2); }
  else { unsigned char s[KN + 3]; ks_bytes(s, KN + 3, "stale"); b.Append(s, KN + 3); b.AdvanceAll(); b.Append(T, n); }
  ks_check(b.GetReadableSize() == n, "the text is readable"); }
static bool cr(unsigned i) { return i + 1 < n ? (bool)((T[i] == '\r') & (T[i + 1] == '\n')) : false; }
static bool lf(unsigned i) { return i < n ? T[i] == '\n' : false; }
static bool same(const char *p, unsigned o, unsigned k) { unsigned d = 0; for (unsigned i = 0; i < k; i++) d |= (unsigned char)p[i] ^ T[o + i]; return d == 0; }
template <class P> static bool anyBefore(P hit, unsigned k) { bool a = false; for (unsigned i = 0; i < k; i++) a = a | hit(i); return a; }
template <class P> static void view(bool got, StringView v, Buffer &b, P hit, const char *what) {
  ks_check(b.GetReadableSize() == n, "searching consumes nothing");
  if (!got) { ks_check(!anyBefore(hit, n), what); ks_reach("absent"); return; }
  bool ok = v.size() <= n; ks_check(ok, what); if (!ok) return; unsigned k = v.size(); ks_check(hit(k) & !anyBefore(hit, k), what); ks_check(v.data() == b.GetReadBegin() || k == 0, "the view shows the readable bytes"); ks_check(same(v.data(), 0, k), "the view shows the bytes before the delimiter"); ks_reach("found"); }
KS_HARNESS harness_view() { Buffer b(4); fill(b); StringView v; if (ks_choose(2, "which")) { bool g = b.FindCrLf(v); view(g, v, b, cr, "FindCrLf reports the first CRLF inside the readable bytes, absence otherwise"); } else { bool g = b.FindLf(v); view(g, v, b, lf, "FindLf reports the first LF inside the readable bytes, absence otherwise"); } }
template <class P> static void str(bool got, const std::string &s, Buffer &b, P hit, const char *what) {
  if (!got) { ks_check(!anyBefore(hit, n), what); ks_check(b.GetReadableSize() == n, "nothing is consumed when there is no line end"); ks_reach("absent"); return; }
  bool ok = s.size() <= n; ks_check(ok, what); if (!ok) return; unsigned k = s.size(); ks_check(hit(k) & !anyBefore(hit, k), what); ks_check(same(s.data(), 0, k), "the string holds the bytes before the line end"); ks_check(b.GetReadableSize() == n - k, "exactly the returned bytes are consumed"); if (b.GetReadableSize() == n - k) ks_check(same(b.GetReadBegin(), k, n - k), "the rest stays readable"); ks_reach("found"); }
KS_HARNESS harness_string() { Buffer b(4); fill(b); std::string s = "old"; if (ks_choose(2, "which")) { bool g = b.FindCrLf(s); str(g, s, b, cr, "FindCrLf(string)"); } else { bool g = b.FindLf(s); str(g, s, b, lf, "FindLf(string)"); } }
// any pattern, through the view of the readable bytes
KS_HARNESS harness_pattern() { Buffer b(4); fill(b); unsigned m = ks_choose(4, "plen"); unsigned char *p = (unsigned char *)malloc(m ? m : 1); if (m) ks_bytes(p, m, "pattern"); size_t r = b.ToStringView().find(StringView((const char *)p, m));
  auto hit = [&](unsigned i) -> bool { if (i + m > n) return false; unsigned d = 0; for (unsigned j = 0; j < m; j++) d |= T[i + j] ^ p[j]; return d == 0; };
  if (r == StringView::npos) { bool a = false; for (unsigned i = 0; i <= n; i++) a = a | hit(i); ks_check(!a, "a pattern inside the readable bytes is found"); ks_reach("absent"); }
  else { ks_check(r + m <= n, "a match lies inside the readable bytes"); ks_check(hit(r) & !anyBefore(hit, r), "the first match is reported"); ks_reach("found"); } }
KS_HARNESS harness_take() { Buffer b(4); fill(b); unsigned k = ks_choose(n + 1, "k"), f = ks_choose(4, "form"); unsigned took = f < 2 ? k : n;
  if (f == 0) { std::string s = b.RetrieveAsString(k); ks_check(s.size() == k && same(s.data(), 0, k), "RetrieveAsString returns the leading bytes"); }
  else if (f == 1) { std::vector<char> s = b.RetrieveAsVector(k); ks_check(s.size() == k && same(s.data(), 0, k), "RetrieveAsVector returns the leading bytes"); }
  else if (f == 2) { std::string s = b.RetrieveAllAsString(); ks_check(s.size() == n && same(s.data(), 0, n), "RetrieveAllAsString returns everything"); }
  else { std::vector<char> s = b.RetrieveAllAsVector(); ks_check(s.size() == n && same(s.data(), 0, n), "RetrieveAllAsVector returns everything"); }
  ks_check(b.GetReadableSize() == n - took && same(b.GetReadBegin(), took, n - took), "exactly the returned bytes are consumed"); ks_reach("taken"); }
