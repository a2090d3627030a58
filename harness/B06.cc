// Gathered writes: the kernel accepts an arbitrary number of bytes of every write, or fails.
#include "net.h"
#include "kanon/net/chunk_list.h"
#include "kanon/log/logger.h"
#include <errno.h>
#include <string.h>
using namespace kanon;
#define SRC 131072
static char *S; static size_t sent, total, base; static int calls, failed; static bool many; static uint64_t probe; static bool over;
static long hook(int op, int fd, const struct iovec *v, int cnt) {
  ks_check(op == K_WRITE && fd == 77, "the bytes go to the given descriptor"); calls++;
  if (cnt > 1024) return -EINVAL;
  size_t want = 0; for (int i = 0; i < cnt; i++) want += v[i].iov_len;
  ks_check(want <= total - sent, "no more than the pending bytes are submitted");
  // the submitted segments are the pending bytes, in order
  size_t acc = 0; if (probe >= sent && probe - sent < want) for (int i = 0; i < cnt; i++) { size_t n = v[i].iov_len; if (probe - sent - acc < n) { ks_check(((const char *)v[i].iov_base)[probe - sent - acc] == S[base + probe], "the submitted byte is the pending byte at that position"); break; } acc += n; }
  if (ks_choose(2, "fail")) { failed = (int)ks_range("errno", 1, 130); return -failed; }
  size_t n; if (many) { unsigned k = ks_choose(3, "accepted"); n = k == 0 ? want : k == 1 ? want - 1 : want < 777 ? want / 2 : 777; } else { n = ks_range("accepted", 0, 40000); ks_assume(n <= want); }
  sent += n; return (long)n;
}
static void drain(ChunkList &b, int rounds) {
  for (int r = 0; r < rounds; r++) {
    size_t s0 = sent; int e = 0; failed = 0;
    ChunkList::SizeType n = ChunkListWriteFd(b, 77, e);
    ks_check(n == sent - s0, "exactly the accepted count is reported"); if (failed) { ks_check(e == failed, "the failure is reported"); ks_reach("failed"); } else ks_check(e == 0, "no failure is invented");
    if (!failed && total > s0 && calls == 0) ks_check(false, "pending bytes are submitted");
    ks_check(b.GetReadableSize() == total - s0, "the write itself consumes nothing");
    b.AdvanceRead(n); ks_check(b.GetReadableSize() == total - sent, "the rest remains");
    if (n < total - s0) ks_reach("short"); else ks_reach("whole");
  }
  uint64_t i = many ? 0 : ks_u("i", 17); if (i < total - sent) { size_t acc = 0; for (auto &x : b) { size_t s = x.GetReadableSize(); if (i - acc < s) { ks_check(x.GetReadBegin()[i - acc] == S[base + sent + i], "the remaining bytes are the unsent ones in order"); break; } acc += s; } }
}
#ifndef MAXN
#define MAXN 5000
#endif
KS_HARNESS harness_write() {
  S = (char *)ks_lazy(SRC, "src"); k_io_hook = hook; probe = ks_u("probe", 17); ChunkList b; size_t used = 0;
  size_t n = ks_range("n", 0, MAXN); b.Append(S, n); used = n; total = n;
  if (ks_choose(2, "second")) { size_t m = ks_range("m", 1, MAXN); ChunkList c; c.Append(S + used, m); b.AppendChunkList(&c); total += m; }
  if (ks_choose(2, "consumed")) { size_t c = ks_range("c", 0, 2 * MAXN); ks_assume(c <= total); b.AdvanceRead(c); base = c; total -= c; }
  if (b.IsEmpty()) return;
  drain(b, 2);
}
KS_HARNESS harness_many() { // more chunks than one call may take
  S = (char *)ks_lazy(SRC, "src"); k_io_hook = hook; many = true; static const int P[] = {0, 700, 1160, 1530, 1533, 1534, 1535, 1537, 1540}; probe = P[ks_choose(9, "where")]; ChunkList b; int N = 1023 + ks_choose(5, "chunks");
  for (int i = 0; i < N; i++) { ChunkList c; c.Append(S + total, 1 + i % 2); total += 1 + i % 2; b.AppendChunkList(&c); }
  drain(b, 2); ks_reach("many");
}
