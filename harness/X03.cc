// Fixed-capacity text streams: whole fields only, NUL-terminated, never beyond the capacity.
#include "ks.h"
#include "kanon/string/lexical_stream.h"
#include "kanon/string/fmt_stream.h"
#include <string.h>
#include <stdlib.h>
using namespace kanon;
#ifndef KS_F
#define KS_F 2
#endif
template <unsigned SZ> struct Mo { char d[2 * SZ + 200]; unsigned n; };
// the stream is placed alone in its own heap object: any byte written outside it is reported by the engine
template <unsigned SZ> static void compare(LexicalStream<SZ> &s, const char *old, unsigned on, const char *f, unsigned fn, bool must, bool fits, Mo<SZ> &m) {
  unsigned n = s.size(); bool whole = n == on + fn, none = n == on; ks_check(whole | none, "a field is wholly present or wholly absent"); if (!(whole || none)) ks_end();
  ks_check(n < SZ, "the length stays below the capacity"); ks_check(s.data()[n] == 0, "the text is NUL-terminated"); if (must) ks_check(whole, "a field that fits is present"); if (!fits) ks_check(none || fn == 0, "a field that does not fit is absent");
  if (whole && fn) { memcpy(m.d + on, f, fn); m.n = on + fn; ks_reach("present"); } else if (fn) ks_reach("dropped");
  ks_check(memcmp(s.data(), m.d, m.n) == 0, "the content is the fields that fitted, in order"); ks_check(s.maxsize() == SZ, "capacity"); ks_observe("n", n);
}
static const struct { long long v; const char *t; } INTS[] = {{0, "0"}, {-1, "-1"}, {1234567, "1234567"}, {-9223372036854775807ll - 1, "-9223372036854775808"}};
template <unsigned SZ> static void hist(unsigned fields) {
  LexicalStream<SZ> &s = *(LexicalStream<SZ> *)malloc(sizeof(LexicalStream<SZ>)); memset((void *)&s, 'Z', sizeof s); new (&s) LexicalStream<SZ>(); Mo<SZ> m; m.n = 0;
  ks_check(s.size() == 0 && s.data()[0] == 0, "a new stream is empty and terminated");
  for (unsigned k = 0; k < fields; k++) {
    unsigned on = s.size(), room = SZ - on; bool big = room > 64;
    switch (ks_choose(7, "field")) {
    case 0: { unsigned n = ks_choose(k == 0 ? SZ + 4 : 7, "n"); if (k) { static const int rel[] = {0, 1, 2, -2, -1, 0, 1}; n = n < 3 ? rel[n] : rel[n] + room; } char *p = (char *)ks_lazy(n, "text"); s << StringView(p, n); compare<SZ>(s, nullptr, on, p, n, n < room, n < room, m); ks_reach("text"); break; }
    case 1: { unsigned j = ks_choose(4, "int"); s << INTS[j].v; compare<SZ>(s, nullptr, on, INTS[j].t, strlen(INTS[j].t), big, strlen(INTS[j].t) < room, m); break; }
    case 2: { char c = ks_u("c", 8); s << c; compare<SZ>(s, nullptr, on, &c, 1, 1 < room, 1 < room, m); break; }
    case 3: { bool b = ks_choose(2, "b"); s << b; compare<SZ>(s, nullptr, on, b ? "True" : "False", b ? 4 : 5, (b ? 4u : 5u) < room, (b ? 4u : 5u) < room, m); break; }
    case 4: { s << (void const *)(uintptr_t)0x1234abcdull; unsigned n = s.size(); const char *full = "0x000000001234ABCD"; if (n == on + 18) compare<SZ>(s, nullptr, on, full, 18, big, 18 < room, m); else compare<SZ>(s, nullptr, on, full + 8, 10, false, 10 < room, m); if (big) ks_check(n > on, "a pointer that fits is present"); break; }
    case 5: { s << (void const *)nullptr; compare<SZ>(s, nullptr, on, "(null)", 6, 6 < room, 6 < room, m); break; }
    case 6: { std::string t("st\0r", 4); s << t; compare<SZ>(s, nullptr, on, t.data(), 4, 4 < room, 4 < room, m); s << "cstr"; compare<SZ>(s, nullptr, s.size() == on + 4 || true ? (unsigned)m.n : 0, "cstr", 4, 4 < SZ - m.n, 4 < SZ - m.n, m); break; }
    }
  }
  if (ks_choose(2, "move")) { LexicalStream<SZ> t(std::move(s)); ks_check(t.size() == m.n && memcmp(t.data(), m.d, m.n) == 0 && t.data()[m.n] == 0, "a moved-to stream holds the text"); LexicalStream<SZ> u; u << 7; u = std::move(t); ks_check(u.size() == m.n && memcmp(u.data(), m.d, m.n) == 0, "move assignment"); ks_reach("moved"); }
  else { s.reset(); ks_check(s.size() == 0 && s.data()[0] == 0, "a reset stream is empty and terminated"); s << 'x'; ks_check(s.size() == 1 && s.data()[0] == 'x' && s.data()[1] == 0, "a reset stream is usable"); }
}
KS_HARNESS harness_small() { hist<24>(KS_F); }
KS_HARNESS harness_medium() { hist<48>(KS_F); }
KS_HARNESS harness_large() { hist<70>(KS_F); }
// the cast stream size and the log stream size, filled close to the brim first
KS_HARNESS harness_brim() { typedef LexicalStream<4096> S; S &s = *new S; unsigned n = ks_range("fill", 4096 - 40, 4100); char *p = (char *)ks_lazy(4100, "text"); s.Append(p, n); unsigned on = s.size(); ks_check(on == (n < 4096 ? n : 0), "the fill fits exactly below the capacity");
  const char *t; unsigned tl; switch (ks_choose(4, "f")) { case 0: s << -2147483647 - 1; t = "-2147483648"; break; case 1: s << true; t = "True"; break; case 2: s << (void const *)(uintptr_t)0xffffffffffffffffull; t = "0xFFFFFFFFFFFFFFFF"; break; default: s << "four"; t = "four"; break; } tl = strlen(t);
  unsigned e = s.size(); ks_check(e == on || e == on + tl, "a field is wholly present or wholly absent"); ks_check(e < 4096 && s.data()[e] == 0, "terminated inside the capacity"); if (e == on + tl) { ks_check(memcmp(s.data() + on, t, tl) == 0, "the field's text"); ks_reach("in"); } else ks_reach("out"); if (on) { unsigned i = ks_u("i", 12); if (i < on) ks_check(s.data()[i] == p[i], "earlier content is untouched"); } }
// format streams
static unsigned L; static char F[8];
static unsigned holes() { unsigned h = 0; for (unsigned i = 0; i < L; i++) if (F[i] == '%') { if (i + 1 < L && F[i + 1] == '%') i++; else h++; } return h; }
template <class... A> static void fmt(const char *const *t, const unsigned *tl, A... args) {
  if (holes() != sizeof...(A)) ks_assume(false);
  char *f = (char *)malloc(L ? L : 1); memcpy(f, F, L); char want[128]; unsigned w = 0, a = 0; for (unsigned i = 0; i < L; i++) { if (F[i] != '%') want[w++] = F[i]; else if (i + 1 < L && F[i + 1] == '%') { want[w++] = '%'; i++; ks_reach("escaped"); } else { memcpy(want + w, t[a], tl[a]); w += tl[a]; a++; ks_reach("hole"); } }
  FmtStream<256> s(StringView(f, L), args...); ks_check(s.ToStringView().size() == w, "the formatted text has the right length"); bool ok = true; if (s.ToStringView().size() == w) for (unsigned i = 0; i < w; i++) ok = ok & (s.GetData()[i] == want[i]); ks_check(ok, "placeholders are replaced in order and escaped percent signs kept"); ks_check(s.GetData()[w] == 0, "NUL-terminated");
  s.Reset(); ks_check(s.ToStringView().size() == 0, "reset empties"); s.Serialize(StringView("x%%y")); ks_check(s.ToStringView() == StringView("x%y"), "a format without placeholders"); }
#ifndef KS_L
#define KS_L 4
#endif
KS_HARNESS harness_fmt() {
  L = ks_choose(KS_L + 1, "len"); for (unsigned i = 0; i < L; i++) F[i] = ks_choose(2, "pct") ? '%' : (char)ks_u("c", 8); for (unsigned i = 0; i < L; i++) if (F[i] != '%') { } 
  char v[3]; ks_bytes(v, 3, "arg"); char c = ks_u("ch", 8);
  switch (ks_choose(5, "args")) {
  case 0: fmt(nullptr, nullptr); break;
  case 1: { const char *t[] = {"-42"}; unsigned tl[] = {3}; fmt(t, tl, -42); break; }
  case 2: { const char *t[] = {v, "7"}; unsigned tl[] = {3, 1}; fmt(t, tl, StringView(v, 3), 7ul); break; }
  case 3: { const char *t[] = {&c, "True", "lit"}; unsigned tl[] = {1, 4, 3}; fmt(t, tl, c, true, "lit"); break; }
  case 4: { const char *t[] = {"(null)", "std"}; unsigned tl[] = {6, 3}; fmt(t, tl, (void const *)nullptr, std::string("std")); break; }
  } }
