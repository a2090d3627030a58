// Buffer as a byte-exact FIFO: arbitrary bounded histories with symbolic sizes and contents.
#include "ks.h"
#include "kanon/buffer/buffer.h"
#include <string.h>
#include <vector>
using namespace kanon;
#ifndef STEPS
#define STEPS 3
#endif
#define CAP 4096
#define MAXN 600
struct Ref { char *d; size_t s, e; Ref() : d((char *)ks_lazy(2 * CAP, "ref0")), s(CAP), e(CAP) {} size_t size() const { return e - s; } };
static void put(Ref &r, const char *p, size_t n) { memcpy(r.d + r.e, p, n); r.e += n; }
static void pre(Ref &r, const char *p, size_t n) { r.s -= n; memcpy(r.d + r.s, p, n); }
static void compare(const Ref &r, Buffer &b, const char *what) {
  size_t n = r.size();
  ks_check(b.GetReadableSize() == n, "readable size equals bytes put in minus bytes consumed");
  ks_check(b.HasReadable() == (n != 0), "HasReadable agrees with the readable size");
  uint64_t i = ks_u("i", 16);
  if (i < n) { ks_check(b.GetReadBegin()[i] == r.d[r.s + i], "readable byte equals the byte put in at that position"); ks_check(b.ToStringView()[i] == r.d[r.s + i], "view shows the same byte"); }
  ks_check(b.ToStringView().size() == n, "view size");
  size_t w = b.GetWritableSize();
  if (w) { char *p = b.GetWriteBegin(); p[w - 1] = 'x'; p[0] = 'y'; if (i < n) ks_check(b.GetReadBegin()[i] == r.d[r.s + i], "writing into the writable space does not touch readable bytes"); }
  size_t q = b.GetPrependableSize(); if (q) { char *p = b.GetReadBegin() - q; p[0] = 'z'; b.GetReadBegin()[-1] = 'z'; if (i < n) ks_check(b.GetReadBegin()[i] == r.d[r.s + i], "the prependable space is not shared with readable bytes"); }
}
static size_t LIM = MAXN;
static size_t len(const char *n, size_t hi) { return ks_range(n, 0, hi < LIM ? hi : LIM); }
static void step(Buffer &b, Ref &r, unsigned op) {
  switch (op) {
  case 0: { size_t n = len("n", MAXN); char *p = (char *)ks_lazy(MAXN, "src"); b.Append(p, n); put(r, p, n); ks_reach("append"); break; }
  case 1: { size_t n = len("n", MAXN); size_t m = b.GetReadableSize(); ks_assume(n <= m); b.AdvanceRead(n); r.s += n; ks_reach("advance"); break; }
  case 2: { if (b.GetPrependableSize() < 8) ks_assume(false); size_t n = len("n", MAXN); ks_assume(n <= b.GetPrependableSize()); char *p = (char *)ks_lazy(MAXN, "src"); b.Prepend(StringView(p, n)); pre(r, p, n); ks_reach("prepend"); break; }
  case 3: { size_t n = len("n", MAXN); b.ReserveWriteSpace(n); ks_check(b.GetWritableSize() >= n, "reserved space is available"); char *p = (char *)ks_lazy(MAXN, "src"); size_t k = len("k", MAXN); ks_assume(k <= n); memcpy(b.GetWriteBegin(), p, k); b.AdvanceWrite(k); put(r, p, k); ks_reach("reserve"); break; }
  case 4: { b.AdvanceAll(); r.s = r.e; ks_reach("advanceall"); break; }
  case 5: { size_t n = len("n", MAXN); b.Shrink(n); ks_check(b.GetWritableSize() >= 0 && b.GetCapacity() >= b.GetReadableSize(), "capacity covers the readable bytes"); ks_reach("shrink"); break; }
  case 6: { Buffer c(b); compare(r, c, "copy"); Buffer d(3); d = b; d.swap(b); ks_reach("copy"); break; }
  case 7: { Buffer c(std::move(b)); b = Buffer(16); Buffer d(1); d = std::move(c); b.swap(d); ks_reach("move"); break; }
  }
}
KS_HARNESS harness_hist() {
  Buffer b(len("init", 64)); Ref r;
  for (int k = 0; k < STEPS; k++) { unsigned op = ks_choose(8, "op"); step(b, r, op); compare(r, b, "after"); }
}
// longer histories of the four core operations, contents compared at the end only
KS_HARNESS harness_core() {
  LIM = 30; Buffer b(len("init", 15)); Ref r;
  for (int k = 0; k < STEPS + 1; k++) step(b, r, ks_choose(4, "op"));
  compare(r, b, "end");
}
KS_HARNESS harness_retrieve() {
  Buffer b(8); Ref r; step(b, r, 0); step(b, r, 1); size_t n = b.GetReadableSize(); uint64_t i = ks_u("i", 16);
  size_t m = len("m", MAXN); ks_assume(m <= n && m <= 40);
  if (ks_choose(2, "form") == 0) { std::string s = b.RetrieveAsString(m); ks_check(s.size() == m, "string size"); if (i < m) ks_check(s[i] == r.d[r.s + i], "string byte"); ks_reach("string"); }
  else { std::vector<char> s = b.RetrieveAsVector(m); ks_check(s.size() == m, "vector size"); if (i < m) ks_check(s[i] == r.d[r.s + i], "vector byte"); ks_reach("vector"); }
  r.s += m; compare(r, b, "rest");
  std::string all = b.RetrieveAllAsString(); ks_check(all.size() == r.size() && !b.HasReadable(), "retrieve all takes everything");
}
// the readable bytes lie somewhere in the middle (or before the usual start) when the buffer is compacted
KS_HARNESS harness_compact() {
  LIM = 200; Buffer b(len("init", 64)); Ref r; step(b, r, 0); step(b, r, ks_choose(2, "prepended") ? 2 : 1); step(b, r, 5); if (ks_choose(2, "append")) step(b, r, 0); compare(r, b, "end");
}
