// ChunkList as a byte-exact FIFO: arbitrary bounded histories, symbolic lengths up to several chunks, arbitrary contents.
#include "ks.h"
#include "kanon/buffer/chunk_list.h"
#include <string.h>
using namespace kanon;
#ifndef STEPS
#define STEPS 2
#endif
#ifndef MAXN
#define MAXN 9000
#endif
#define SRC 65536
// the reference: pieces of one array of arbitrary bytes; piece k contributes n[k] bytes starting at off[k]
struct Ref { size_t off[16], n[16]; int k; Ref() : k(0) {} size_t size() const { size_t s = 0; for (int i = 0; i < k; i++) s += n[i]; return s; } };
static char *S; static size_t used;
static size_t at(const Ref &r, size_t i) { size_t p = 0, acc = 0; for (int j = 0; j < r.k; j++) { if (i - acc < r.n[j]) return r.off[j] + (i - acc); acc += r.n[j]; } return p; }
static void push(Ref &r, size_t off, size_t n) { r.off[r.k] = off; r.n[r.k++] = n; }
static void pop(Ref &r, size_t m) { for (int j = 0; j < r.k; j++) { if (m < r.n[j]) { r.off[j] += m; r.n[j] -= m; return; } m -= r.n[j]; r.n[j] = 0; } }
static void compare(const Ref &r, ChunkList &b) {
  size_t n = r.size(); ks_check(b.GetReadableSize() == n, "readable size equals bytes put in minus bytes consumed");
  size_t tot = 0, c = 0; for (auto const &x : b) { tot += x.GetReadableSize(); c++; if (c > 40) break; } ks_check(tot == n, "the chunks expose exactly the readable bytes"); ks_check(c == b.GetChunkSize(), "chunk count matches the chunks");
  ks_check(n == 0 || (b.HasReadable() && !b.IsEmpty()), "a list with readable bytes says so");
  uint64_t i = ks_u("i", 16); if (!(i < n)) return;
  size_t acc = 0; for (auto &x : b) { size_t s = x.GetReadableSize(); if (i - acc < s) { ks_check(x.GetReadBegin()[i - acc] == S[at(r, i)], "readable byte equals the byte put in at that position"); ks_check(x.ToStringView()[i - acc] == S[at(r, i)], "the view shows the same byte"); return; } acc += s; }
  ks_check(false, "the position is inside some chunk");
}
static size_t LIM;
static size_t room(ChunkList &b) { if (b.IsEmpty()) return 8; Chunk *c = b.GetFirstChunk(); return c->GetMaxSize() - c->GetWritableSize() - c->GetReadableSize(); }
static void app(ChunkList &b, Ref &r) { size_t n = ks_range("n", 0, LIM); b.Append(S + used, n); push(r, used, n); used += LIM; LIM = 4200; }
static void adv(ChunkList &b, Ref &r) { size_t m = ks_range("m", 0, 4 * MAXN); ks_assume(m <= r.size()); b.AdvanceRead(m); pop(r, m); }
static void step(ChunkList &b, Ref &r, unsigned op) {
  switch (op) {
  case 0: app(b, r); ks_reach("append"); break;
  case 1: adv(b, r); ks_reach("advance"); break;
  case 2: { if (room(b) < 8) ks_assume(false); size_t n = ks_range("n", 1, 8); n = ks_concretize(n); b.Prepend(S + used, n); for (int j = r.k; j > 0; j--) r.off[j] = r.off[j - 1], r.n[j] = r.n[j - 1]; r.off[0] = used; r.n[0] = n; r.k++; used += 8; ks_reach("prepend"); break; }
  case 3: { size_t n = ks_range("rn", 1, LIM); b.ReserveWriteSpace(n); size_t m = ks_range("n", 1, LIM); ks_assume(m <= n); uint64_t h = ks_live_heap(); b.Append(S + used, m); ks_check(ks_live_heap() == h, "appending into reserved space obtains no memory"); push(r, used, m); used += LIM; ks_reach("reserve"); break; }
  case 4: { ChunkList o; Ref q; app(o, q); if (STEPS > 1 && ks_choose(2, "consumed")) adv(o, q); b.AppendChunkList(&o); for (int j = 0; j < q.k; j++) push(r, q.off[j], q.n[j]); ks_check(o.GetReadableSize() == 0, "the spliced list is empty"); ks_reach("splice"); break; }
  case 5: { ChunkList o; Ref q; app(o, q); o.swap(b); Ref t = r; r = q; q = t; compare(q, o); ks_reach("swap"); break; }
  case 6: { size_t k = ks_choose(3, "k"), f = b.GetFreeChunkSize(); b.Shrink(k); ks_check(b.GetFreeChunkSize() == (f < k ? f : k), "shrink keeps at most the given number of free chunks"); ks_reach("shrink"); break; }
  case 7: { ChunkList c = b.Clone(); ChunkList d; d.Append(StringView(S, ks_choose(2, "old") ? 5 : 4100)); d.CopyAssign(b); compare(r, d); b.AdvanceReadAll(); ks_check(b.GetReadableSize() == 0, "advancing over everything leaves nothing"); ChunkList e(std::move(d)); b = std::move(e); ks_reach("copy"); break; }
  }
}
KS_HARNESS harness_hist() {
  S = (char *)ks_lazy(SRC, "src"); used = 0; LIM = MAXN; uint64_t h0 = ks_live_heap();
  { ChunkList b; Ref r; unsigned pre = ks_choose(3, "pre"); if (pre >= 1) app(b, r); if (pre == 2) adv(b, r); else if (!pre) LIM = 4200;
    for (int k = 0; k < STEPS; k++) step(b, r, ks_choose(7, "op"));
    compare(r, b); }
  ks_check(ks_live_heap() == h0, "destroying the list releases every chunk");
}
KS_HARNESS harness_copy() {
  S = (char *)ks_lazy(SRC, "src"); used = 0; LIM = 4200; ChunkList b; Ref r; app(b, r); if (ks_choose(2, "adv")) adv(b, r); step(b, r, 7); compare(r, b);
}
// longer histories of append, consume and splice
KS_HARNESS harness_core() {
  S = (char *)ks_lazy(SRC, "src"); used = 0; LIM = 4200; ChunkList b; Ref r;
  for (int k = 0; k < STEPS + 1; k++) { unsigned op = ks_choose(3, "op"); step(b, r, op == 2 ? 4 : op); }
  compare(r, b);
}
KS_HARNESS harness_ints() {
  S = (char *)ks_lazy(SRC, "src"); ChunkList b; size_t g = ks_range("gap", 0, 4090); g = ks_choose(2, "edge") ? 4078 + ks_choose(12, "g") : ks_choose(4, "g");
  uint64_t v1 = ks_u("v1", 64), v2 = ks_u("v2", 64); unsigned w1 = ks_choose(4, "w1"), w2 = ks_choose(4, "w2");
  b.Append(S, g);
  for (int k = 0; k < 2; k++) { uint64_t v = k ? v2 : v1; switch (k ? w2 : w1) { case 0: b.Append8(v); break; case 1: b.Append16(v); break; case 2: b.Append32(v); break; default: b.Append64(v); } }
  uint64_t vp = ks_u("vp", 64); unsigned wp = ks_choose(4, "wp"); switch (wp) { case 0: b.Prepend8(vp); break; case 1: b.Prepend16(vp); break; case 2: b.Prepend32(vp); break; default: b.Prepend64(vp); }
  auto mask = [](unsigned w) { return w == 3 ? ~0ULL : (1ULL << (8u << w)) - 1; };
  auto rd = [&](unsigned w) -> uint64_t { switch (w) { case 0: { uint64_t p = b.GetReadBegin8(); uint64_t q = b.Read8(); ks_check(p == q, "peek equals read"); return q; } case 1: { uint64_t p = b.GetReadBegin16(); uint64_t q = b.Read16(); ks_check(p == q, "peek equals read"); return q; } case 2: { uint64_t p = b.GetReadBegin32(); uint64_t q = b.Read32(); ks_check(p == q, "peek equals read"); return q; } default: { uint64_t p = b.GetReadBegin64(); uint64_t q = b.Read64(); ks_check(p == q, "peek equals read"); return q; } } };
  ks_check(b.GetReadableSize() == g + (1u << w1) + (1u << w2) + (1u << wp), "sizes add up");
  ks_check(rd(wp) == (vp & mask(wp)), "the prepended integer comes back first"); b.AdvanceRead(g);
  if (b.HasReadable() && b.GetFirstChunk()->GetReadableSize() >= (1u << w1)) { ks_check(rd(w1) == (v1 & mask(w1)), "the first integer comes back"); if (b.HasReadable() && b.GetFirstChunk()->GetReadableSize() >= (1u << w2)) { ks_check(rd(w2) == (v2 & mask(w2)), "the second integer comes back"); ks_check(b.GetReadableSize() == 0, "nothing is left"); ks_reach("ints"); } }
  else { // the integer is split over two chunks: network order byte by byte
    for (int i = (1 << w1) - 1; i >= 0; i--) ks_check(b.Read8() == (uint8_t)(v1 >> (8 * i)), "network byte order"); ks_reach("split"); }
}
