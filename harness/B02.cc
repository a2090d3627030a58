// Integers through a Buffer: exact width, network order, same value back, FIFO order.
#include "ks.h"
#include "kanon/buffer/buffer.h"
#include <string.h>
using namespace kanon;
#ifndef KK
#define KK 3
#endif
static unsigned W(unsigned k) { return 1u << k; }
static void app(Buffer &b, unsigned k, uint64_t v) { switch (k) { case 0: b.Append8((uint8_t)v); break; case 1: b.Append16((uint16_t)v); break; case 2: b.Append32((uint32_t)v); break; default: b.Append64(v); } }
static void pre(Buffer &b, unsigned k, uint64_t v) { switch (k) { case 0: b.Prepend8((uint8_t)v); break; case 1: b.Prepend16((uint16_t)v); break; case 2: b.Prepend32((uint32_t)v); break; default: b.Prepend64(v); } }
static uint64_t peek(Buffer &b, unsigned k) { switch (k) { case 0: return b.GetReadBegin8(); case 1: return b.GetReadBegin16(); case 2: return b.GetReadBegin32(); default: return b.GetReadBegin64(); } }
static uint64_t rd(Buffer &b, unsigned k) { switch (k) { case 0: return b.Read8(); case 1: return b.Read16(); case 2: return b.Read32(); default: return b.Read64(); } }
static void adv(Buffer &b, unsigned k) { switch (k) { case 0: b.AdvanceRead8(); break; case 1: b.AdvanceRead16(); break; case 2: b.AdvanceRead32(); break; default: b.AdvanceRead64(); } }
static void wire(const char *p, unsigned k, uint64_t v) { bool ok = true; for (unsigned i = 0; i < W(k); i++) ok = ok & ((unsigned char)p[i] == (unsigned char)(v >> (8 * (W(k) - 1 - i)))); ks_check(ok, "an integer is laid out in network byte order"); }
static uint64_t val(unsigned k) { return ks_u("v", 8 * W(k)); }
static void take(Buffer &b, unsigned k, uint64_t v) {
  size_t n = b.GetReadableSize(); wire(b.GetReadBegin(), k, v); ks_check(peek(b, k) == v, "peeking returns the value written"); ks_check(b.GetReadableSize() == n, "peeking consumes nothing");
  if (ks_choose(2, "form")) { ks_check(rd(b, k) == v, "reading returns the value written"); ks_reach("read"); } else { adv(b, k); ks_reach("advance"); }
  ks_check(b.GetReadableSize() == n - W(k), "reading consumes exactly the width");
}
// some consumed and some remaining bytes first, so that the integers straddle every layout and growth case
KS_HARNESS harness_fifo() {
  Buffer b(ks_range("init", 0, 20)); unsigned m = ks_choose(3, "before"); unsigned char pad[24]; ks_bytes(pad, 24, "pad"); b.Append(pad, m * 9); unsigned c = 0; if (m) { c = ks_choose(2, "consumed") ? m * 9 - 1 : 0; b.AdvanceRead(c); }
  unsigned w[KK]; uint64_t v[KK]; size_t n = m * 9 - c;
  for (unsigned i = 0; i < KK; i++) { w[i] = ks_choose(4, "width"); v[i] = val(w[i]); app(b, w[i], v[i]); n += W(w[i]); ks_check(b.GetReadableSize() == n, "appending an integer adds exactly its width"); }
  for (unsigned i = c; i < m * 9; i++) { ks_check(b.Read8() == pad[i], "bytes before the integers are unchanged"); }
  for (unsigned i = 0; i < KK; i++) take(b, w[i], v[i]);
  ks_check(!b.HasReadable(), "nothing is left");
}
KS_HARNESS harness_prepend() {
  Buffer b(ks_range("init", 0, 4)); unsigned m = ks_choose(3, "body"); unsigned char pad[3]; ks_bytes(pad, 3, "pad"); b.Append(pad, m); unsigned k = ks_choose(4, "width"); uint64_t v = val(k); pre(b, k, v);
  ks_check(b.GetReadableSize() == m + W(k), "prepending an integer adds exactly its width");
  // the rest of the prefix region stays usable for a second, shorter header when the first left room
  take(b, k, v); for (unsigned i = 0; i < m; i++) ks_check(b.Read8() == pad[i], "bytes behind a prepended integer are unchanged");
  unsigned k2 = ks_choose(4, "width2"); uint64_t v2 = val(k2); app(b, k2, v2); if (b.GetPrependableSize() >= 8) { uint64_t v3 = val(3); pre(b, 3, v3); take(b, 3, v3); ks_reach("again"); } take(b, k2, v2); ks_check(!b.HasReadable(), "nothing is left");
}
