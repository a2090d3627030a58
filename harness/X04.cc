// StrCat / StrAppend join their pieces exactly.
#include "ks.h"
#include <assert.h>
#include <string.h>
#include <stdlib.h>
#include <string>
#include "kanon/string/string_view.h"
#include "kanon/string/string_util.h"
using namespace kanon;
#ifndef KS_L
#define KS_L 4
#endif
static char W[256]; static unsigned w;
static void add(const char *p, unsigned n) { memcpy(W + w, p, n); w += n; }
// one piece: kind 0 view, 1 std::string, 2 C string, 3 char
struct P { unsigned kind; char *p; unsigned n; std::string s; char c; StringView v() const { return StringView(p, n); } };
static void mk(P &x, unsigned kinds) {
  x.kind = ks_choose(kinds, "kind"); x.n = x.kind == 3 ? 1 : ks_choose(KS_L, "len"); unsigned cap = x.n + (x.kind == 2 ? 1 : 0); x.p = (char *)malloc(cap ? cap : 1); if (x.n) ks_bytes(x.p, x.n, "piece");
  if (x.kind == 2) { for (unsigned i = 0; i < x.n; i++) ks_assume(x.p[i] != 0); x.p[x.n] = 0; } if (x.kind == 1) x.s.assign(x.p, x.n); x.c = x.kind == 3 ? x.p[0] : 0; add(x.p, x.n); }
static void same(const std::string &s) { ks_check(s.size() == w, "the result is as long as its pieces together"); if (s.size() != w) return; ks_check(memcmp(s.data(), W, w) == 0, "the result is the pieces one after another"); ks_check(s.c_str()[w] == 0, "the result is NUL-terminated"); ks_reach("joined"); ks_observe("n", w); }
template <class F> static void with(const P &x, F f) { switch (x.kind) { case 0: f(x.v()); break; case 1: f(x.s); break; case 2: f((char const *)x.p); break; case 3: f(x.c); break; } }
KS_HARNESS harness_cat1() { P a; mk(a, 4); with(a, [&](auto const &x) { same(StrCat(x)); }); }
KS_HARNESS harness_cat2() { P a, b; mk(a, 4); mk(b, 4); with(a, [&](auto const &x) { with(b, [&](auto const &y) { same(StrCat(x, y)); }); }); }
KS_HARNESS harness_cat3() { P a, b, c; mk(a, 4); mk(b, 4); mk(c, 4); with(a, [&](auto const &x) { with(b, [&](auto const &y) { with(c, [&](auto const &z) { same(StrCat(x, y, z)); }); }); }); }
KS_HARNESS harness_literals() { P a; mk(a, 4); unsigned n0 = w; char keep[64]; memcpy(keep, W, n0); w = 0; add("ab", 2); add(keep, n0); add("", 0); add("xyz", 3); with(a, [&](auto const &x) { same(StrCat("ab", x, "", "xyz")); }); }
KS_HARNESS harness_append() {
  unsigned n = ks_choose(3, "orig") * 9; char *o = (char *)malloc(n + 1); if (n) ks_bytes(o, n, "orig"); std::string s(o, n); add(o, n); if (ks_choose(2, "reserve")) s.reserve(64);
  P a, b; mk(a, 4); if (ks_choose(2, "two")) { mk(b, 4); with(a, [&](auto const &x) { with(b, [&](auto const &y) { StrAppend(s, x, y); same(s); }); }); } else with(a, [&](auto const &x) { StrAppend(s, x); same(s); });
  std::string t = std::move(s); P c; mk(c, 2); with(c, [&](auto const &x) { StrAppend(t, x); same(t); }); }
