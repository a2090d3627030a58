// Reading from a descriptor: arbitrary buffer state, arbitrary count returned by the kernel, errors.
#include "net.h"
#include "kanon/net/buffer.h"
#include "kanon/log/logger.h"
#include <errno.h>
#include <string.h>
using namespace kanon;
#define SRC 400000
static char *S; static size_t given; static int calls; static size_t kmax;
// the kernel: fills at most what the segments can hold with the next bytes of the source
static long hook(int op, int fd, const struct iovec *v, int cnt) {
  ks_check(op == K_READ && fd == 77, "the data is read from the given descriptor"); calls++;
  unsigned what = ks_choose(3, "what"); if (what == 1) return 0; if (what == 2) { int e[4] = {EAGAIN, EINTR, ECONNRESET, EIO}; return -e[ks_choose(4, "errno")]; }
  size_t want = 0; for (int i = 0; i < cnt; i++) want += v[i].iov_len; ks_check(want > 0, "room is offered to the kernel");
  size_t n = ks_range("count", 1, kmax); ks_assume(n <= want);
  size_t left = n; for (int i = 0; i < cnt && left; i++) { size_t k = left < v[i].iov_len ? left : v[i].iov_len; memcpy(v[i].iov_base, S + given, k); given += k; left -= k; }
  return (long)n;
}
static void run(Buffer &b, size_t &off, size_t &end, int times) {
  for (int k = 0; k < times; k++) {
    size_t g0 = given; int c0 = calls; int e = -5; bool big = kmax > 65536; (void)big; size_t r = BufferReadFromFd(b, 77, e);
    if (calls == c0 + 1 && given > g0) { ks_check(r == given - g0, "the count delivered is returned"); ks_check(e == -5, "no error is reported for a successful read"); end += r; ks_reach("data"); }
    else if (r == 0) { ks_check(e == -5, "end of stream is no error"); ks_reach("eof"); }
    else { ks_check(r == (size_t)-1 && e > 0, "the error code is handed over"); ks_reach("error"); }
    ks_check(b.GetReadableSize() == end - off, "readable size grew by exactly the delivered count");
  }
  uint64_t i = ks_u("i", 20); if (i < end - off) ks_check(b.GetReadBegin()[i] == S[off + i], "buffer content is the old content followed by the delivered bytes");
}
static void start(Buffer &b, size_t &off, size_t &end, size_t maxfill) {
  size_t n = ks_range("fill", 0, maxfill); size_t m = ks_range("consumed", 0, maxfill); ks_assume(m <= n); b.Append(S, n); b.AdvanceRead(m); off = m; end = given = n;
}
KS_HARNESS harness_small() { S = (char *)ks_lazy(SRC, "src"); k_io_hook = hook; kmax = 6000; Buffer b; size_t off, end; start(b, off, end, 3000); run(b, off, end, ks_choose(2, "times") + 1); }
KS_HARNESS harness_big() { S = (char *)ks_lazy(SRC, "src"); k_io_hook = hook; kmax = 140000; Buffer b; size_t off, end; start(b, off, end, 140000); run(b, off, end, 1); ks_reach("big"); }
KS_HARNESS harness_reserved() { S = (char *)ks_lazy(SRC, "src"); k_io_hook = hook; kmax = 200000; Buffer b; size_t w = ks_range("reserve", 0, 70000); b.ReserveWriteSpace(w); size_t off, end; start(b, off, end, 64); run(b, off, end, 1); ks_reach("reserved"); }
