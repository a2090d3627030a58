// The length-header codec and the memcache tokenizer of the examples.
#include "conn.h"
#include "example/length_codec/codec.h"
#include "example/memcache/StringViewTokenizer.h"
#ifndef K
#define K 3
#endif
#ifndef MANY
#define MANY 3
#endif
#ifndef SMALL
#define SMALL 4
#endif
#ifndef CUTS
#define CUTS 2
#endif
static uint32_t be32(const char *p) { const unsigned char *u = (const unsigned char *)p; return (uint32_t)u[0] << 24 | (uint32_t)u[1] << 16 | (uint32_t)u[2] << 8 | u[3]; }
static char *S; static size_t off[8], len[8], fed; static int got, nmsg; static size_t maxlen = 20; static bool whole, fixed;
static void onMsg1(TcpConnectionPtr const &c, Buffer &b, TimeStamp) {
  ks_check(got < nmsg, "no message is delivered that was not sent"); ks_check(c == C, "the message comes with its connection");
  ks_check(off[got] + len[got] <= fed, "a message is delivered when it is complete");
  ks_check(b.GetReadableSize() == len[got], "the handler sees exactly one message");
  size_t i = ks_u("probe", 16); ks_assume(i < 4096); if (i < len[got]) { ks_reach("content"); ks_check(b.GetReadBegin()[i] == S[off[got] + i], "the message has the bytes sent"); }
  got++; if (whole) { std::string s = b.RetrieveAllAsString(); ks_check(s.size() == len[got - 1], "the handler takes exactly one message"); } else b.AdvanceAll(); }
static void quiet() { Logger::SetLogLevel(Logger::KANON_LL_FATAL); }
static void layout(int n) { S = (char *)ks_lazy(8 * (maxlen + 4), "stream"); nmsg = n; size_t p = 0; for (int i = 0; i < n; i++) { if (fixed) len[i] = ks_choose(maxlen + 1, "len"); else { len[i] = ks_u("len", 16); ks_assume(len[i] <= maxlen); } ks_assume(be32(S + p) == len[i]); off[i] = p + 4; p = off[i] + len[i]; } off[n] = p; }
static void feed(LengthHeaderCodec &codec, Buffer &in, size_t upto) { in.Append(S + fed, upto - fed); fed = upto; codec.OnMessage(C, in, TimeStamp(1)); int due = 0; for (int i = 0; i < nmsg; i++) if (off[i] + len[i] <= fed) due++; ks_check(got == due, "every complete message is delivered once, as soon as it is complete"); }
// messages that arrive one at a time: what was received never holds more than the message awaited
static bool together; static void feedTo(LengthHeaderCodec &codec, Buffer &in, size_t upto) { if (!together) for (int i = 0; i < nmsg; i++) { size_t e = off[i] + len[i]; if (fed < e && e < upto) feed(codec, in, e); } feed(codec, in, upto); }
static void decode(int n, int cuts) {
  build(false, false); C->ConnectionEstablished(); quiet(); layout(n); size_t end = off[n]; LengthHeaderCodec codec(onMsg1); Buffer in;
  for (int i = 0; i < cuts; i++) { size_t at = fixed ? fed + ks_choose(end - fed + 1, "cut") : ks_u("cut", 16); ks_assume(at >= fed && at <= end); feedTo(codec, in, at); }
  feedTo(codec, in, end); ks_check(!in.HasReadable(), "nothing is left over"); ks_check(C->IsConnected(), "valid messages are accepted"); ks_reach("end"); }
KS_HARNESS harness_decode() { decode(2, 1); }
KS_HARNESS harness_decode_cuts() { maxlen = SMALL; fixed = true; decode(2, CUTS); }
KS_HARNESS harness_decode_string() { whole = true; maxlen = 6; fixed = true; decode(2, 1); }
KS_HARNESS harness_decode_many() { maxlen = MANY; fixed = true; decode(K, 1); }
KS_HARNESS harness_together() { together = true; maxlen = 2; fixed = true; decode(2, 1); }
KS_HARNESS harness_bytewise() { maxlen = 3; build(false, false); C->ConnectionEstablished(); quiet(); layout(2); size_t end = off[2]; LengthHeaderCodec codec(onMsg1); Buffer in; while (fed < end) feed(codec, in, fed + 1); ks_check(!in.HasReadable(), "nothing is left over"); ks_reach("end"); }
static void limits(bool huge) { // any announced length against any limit
  build(false, false); C->ConnectionEstablished(); quiet(); S = (char *)ks_lazy(64, "stream"); nmsg = 1; len[0] = be32(S); ks_assume((len[0] >= 0xfffffffc) == huge); off[0] = 4; bool big = ks_choose(2, "big"); uint64_t limit = 65536; LengthHeaderCodec codec(onMsg1); if (big) { limit = ks_u("limit", 64); codec.SetMaximumAcceptLength(limit); }
  size_t n = ks_range("received", 0, 24); ks_assume(n < 4 || n - 4 <= len[0]); Buffer in; in.Append(S, n); fed = n; codec.OnMessage(C, in, TimeStamp(1));
  if (n < 4) { ks_reach("short"); ks_check(got == 0 && C->IsConnected() && in.GetReadableSize() == n, "an incomplete header waits"); }
  else if (len[0] > limit) { ks_reach("refused"); ks_check(got == 0, "a message longer than allowed is not delivered"); ks_check(!C->IsConnected() && k_fd[FD].shut, "a message longer than allowed ends the conversation"); in.Append(S, 4); codec.OnMessage(C, in, TimeStamp(2)); ks_check(got == 0, "nothing is delivered after a refused message"); }
  else if (n - 4 < len[0]) { ks_reach("waits"); ks_check(got == 0 && C->IsConnected() && in.GetReadableSize() == n, "an incomplete message waits"); }
  else { ks_reach("delivered"); ks_check(got == 1 && C->IsConnected(), "a complete message is delivered"); } ks_reach("end"); }
KS_HARNESS harness_limit() { limits(false); } KS_HARNESS harness_limit_huge() { limits(true); }
// ---- encoding through a real connection
static LengthHeaderCodec *codec; static int form, forms, sends; static size_t smax = 300;
static void sendOne(bool cross) { size_t n = ks_range("len", 0, smax); char *full = (char *)ks_lazy(smax + 4, "msg"); ks_assume(be32(full) == n); TcpConnectionPtr c = C;
  if (cross) L->QueueToLoop([full, n] { commit(full, n + 4); }); else commit(full, n + 4);
  if (form) { ChunkList b; b.Append(full + 4, n); codec->Send(c, b); } else codec->Send(c, StringView(full + 4, n)); }
static void runSend() { for (int i = 0; i < sends; i++) { form = forms; if (ks_choose(2, "cross")) { ks_reach("cross"); sendOne(true); } else { int f = form; L->QueueToLoop([f] { form = f; ks_reach("loop"); sendOne(false); }); sched_yield_all(); } }
  settle(); ks_check(C != nullptr && C->IsConnected(), "the connection stays up"); ks_check(k_fd[FD].out_pos == total, "every message is sent behind its length"); ks_reach("end"); finish(); }
KS_HARNESS harness_send() { build(false, false); quiet(); codec = new LengthHeaderCodec; sends = 2; accepts = 1; script = runSend; go(); after(); }
KS_HARNESS harness_send_chunks() { build(false, false); quiet(); codec = new LengthHeaderCodec; forms = 1; sends = 1; accepts = 1; script = runSend; go(); after(); }
KS_HARNESS harness_send_big() { build(false, false); quiet(); codec = new LengthHeaderCodec; sends = 1; smax = 9000; accepts = 1; script = runSend; go(); after(); }
// ---- memcache request tokens
#ifndef TOK
#define TOK 6
#endif
template <char Sep> static void tokens() { size_t n = ks_choose(TOK + 1, "size"); char *s = (char *)malloc(n ? n : 1); for (size_t i = 0; i < n; i++) s[i] = (char)ks_u("byte", 8);
  memcache::StringViewTokenizer<Sep> t{StringView(s, n)}; auto it = t.begin(); auto end = t.end(); size_t i = 0; int k = 0;
  while (true) { while (i < n && s[i] == Sep) i++; if (i == n) break; size_t j = i; while (j < n && s[j] != Sep) j++;
    ks_check(it != end, "every token is found"); StringView v = *it; ks_check(v.data() == s + i && v.size() == j - i, "a token is the bytes between separators"); ++it; i = j; k++; }
  ks_check(it == end, "nothing else is taken for a token"); if (k > 1) ks_reach("two"); if (k == 0) ks_reach("none"); free(s); ks_reach("end"); }
KS_HARNESS harness_tokens() { tokens<' '>(); } KS_HARNESS harness_tokens_comma() { tokens<','>(); }
