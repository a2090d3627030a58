// Protobuf framing and remote calls, over a stand-in for the protobuf library (env/pb).
#include "conn.h"
#include "kanon/protobuf/chunk_stream.h"
#include "kanon/protobuf/generic_pb_codec.h"
#include "kanon/protobuf/protobuf_codec.h"
#include "kanon/protobuf/protobuf_codec2.h"
#include "kanon/rpc/rpc_channel.h"
#include "kanon/rpc/rpc_controller.h"
#include "kanon/rpc/rpc_server.h"
#include "kanon/protobuf/logger.h"
#include "kanon/rpc/logger.h"
#include "kanon/protobuf/kvarint/kvarint.h"
#include "third-party/xxHash/xxhash.h"
#ifndef SMALL
#define SMALL 3
#endif
#ifndef MSGS
#define MSGS 2
#endif
#ifndef OPS
#define OPS 3
#endif
#ifndef CALLS
#define CALLS 2
#endif
#ifndef P
#define P 2
#endif
namespace google { namespace protobuf { size_t pb_step = 0; } }
using namespace kanon::protobuf; namespace pb = ::google::protobuf;
struct Msg : pb::Message { std::string body; Msg *New() const override { return new Msg; } std::string Encode() const override { return body; } bool Decode(const char *p, size_t n) override { if (n && (uint8_t)p[0] == 0xee) return false; body.assign(p, n); return true; } static const Msg &default_instance() { static Msg m; return m; } };
static void quiet() { SetProtobufLog(false); SetProtobufRpcLog(false); Logger::SetLogLevel(Logger::KANON_LL_FATAL); }
static uint32_t be32(const char *p) { const unsigned char *u = (const unsigned char *)p; return (uint32_t)u[0] << 24 | (uint32_t)u[1] << 16 | (uint32_t)u[2] << 8 | u[3]; }
static void put32(std::string &s, uint32_t v) { for (int i = 3; i >= 0; i--) s.push_back((char)(v >> (8 * i))); }
static char wire[1 << 15]; static size_t nwire;
static void record(int fd, size_t pos, const char *p, size_t n) { ks_check(pos == nwire && n <= sizeof wire - nwire, "model: wire"); memcpy(wire + nwire, p, n); nwire += n; }
static const char Tag[] = "tag!";
enum { GENERIC, CODEC2 };
static std::string frame(int form, const std::string &body, const char *tag = Tag) { std::string b = tag; b += body; uint32_t sum = XXH32(b.data(), b.size(), 0); std::string s; uint32_t n = (uint32_t)b.size() + 4; if (form == GENERIC) put32(s, n); else { kvarint_buf32_t v; kvarint_encode32(n, &v); s.append((char *)v.buf, v.len); } s += b; put32(s, sum); return s; }
static std::string text(size_t n, size_t sym) { std::string s(n, 'x'); for (size_t i = 0; i < n; i++) s[i] = (char)(i * 7 + 1); for (size_t i = 0; i < n && i < sym; i++) { s[n - 1 - i] = (char)ks_u("byte", 8); } if (n && sym >= n) ks_assume((uint8_t)s[0] != 0xee); return s; }
static bool same(const std::string &a, const char *p, size_t n) { if (a.size() != n) return false; bool ok = true; for (size_t i = 0; i < n; i++) ok &= a[i] == p[i]; return ok; }
static void up() { build(false, false); k_on_write = record; k_accept_bytes = nullptr; quiet(); C->ConnectionEstablished(); }
// ---- sending
static const size_t Sizes[] = {0, 1, 2, 5, 4075, 4076, 4077, 4079, 4080, 4081, 4083, 4084, 4085, 8172, 8180};
static void sending(int form) { up(); pb::pb_step = (size_t[]){0, 1000, 4080}[ks_choose(3, "step")]; std::string want; internal::GenericPbCodec g(&Msg::default_instance(), Tag); ProtobufCodec2 c2(Tag, 1 << 20);
  for (int i = 0; i < 2; i++) { Msg m; m.body = text(i ? 2 : Sizes[ks_choose(sizeof Sizes / sizeof *Sizes, "size")], 2); if (form == GENERIC) g.Send(C, &m); else c2.Send(C, &m); want += frame(form, m.body); }
  ks_check(nwire == want.size(), "a message is sent in exactly one frame"); ks_check(same(want, wire, nwire), "a frame carries its size, the tag, the message and the checksum"); ks_reach("end"); }
KS_HARNESS harness_send() { sending(GENERIC); } KS_HARNESS harness_send2() { sending(CODEC2); }
// ---- receiving
static std::string bodies[4]; static size_t ends[4], fed; static int nmsg, got, errors, lastErr;
static void arrived(const TcpConnectionPtr &c, const std::string &body) { ks_check(c == C, "a message comes with its connection"); ks_check(got < nmsg, "no message is delivered that was not sent"); ks_check(ends[got] <= fed, "a message is delivered when it is complete"); ks_check(same(bodies[got], body.data(), body.size()), "a message is delivered intact"); got++; }
static std::string strm; static int cutsLeft; static bool bytewise; static void dueNow() { int due = 0; for (int i = 0; i < nmsg; i++) due += ends[i] <= fed; ks_check(got == due, "every complete message is delivered once, as soon as it is complete"); }
static size_t next(size_t end) { return bytewise ? fed + 1 : cutsLeft-- > 0 ? fed + ks_choose((int)(end - fed + 1), "cut") : end; }
static void receiving(int form, int cuts, bool bw) { up(); cutsLeft = cuts; bytewise = bw; std::string &s = strm; nmsg = MSGS; for (int i = 0; i < MSGS; i++) { bodies[i] = text(ks_choose(SMALL + 1, "size"), SMALL); s += frame(form, bodies[i]); ends[i] = s.size(); }
  ProtobufCodec<Msg, Tag> g; ProtobufCodec2 c2(Tag, 1 << 20); Buffer in;
  g.SetMessageCallback([](const TcpConnectionPtr &c, Msg *m, TimeStamp) { arrived(c, m->body); }); g.SetErrorCallback([](const TcpConnectionPtr &, int) { ks_check(false, "valid messages are accepted"); });
  c2.SetMessageCallback([](const TcpConnectionPtr &c, Buffer &b, size_t n, TimeStamp) { Msg m; ks_check(ParseFromBuffer(&m, n, &b), "a message is delivered intact"); arrived(c, m.body); }); c2.SetErrorCallback([](const TcpConnectionPtr &, int) { ks_check(false, "valid messages are accepted"); });
  size_t end = s.size();
  if (form == CODEC2) { memcpy((char *)In, s.data(), end); c2.SetUpConnection(C); script = [] { size_t end = strm.size(); while (fed < end) { size_t to = next(end), n = to - fed; if (!n) { ks_assume(cutsLeft <= 0); continue; } fed = to; k_deliver(FD, n); sched_yield_all(); dueNow(); } ks_check(!C->GetInputBuffer()->HasReadable(), "nothing is left over"); ks_reach("end"); finish(); }; pthread_t t; pthread_create(&t, nullptr, driver, nullptr); L->StartLoop(); pthread_join(t, nullptr); return; }
  while (fed < end) { size_t to = next(end), from = fed; if (to == from) { ks_assume(cutsLeft <= 0); continue; } fed = to; in.Append(s.data() + from, to - from); g.OnMessage(C, in, TimeStamp(1)); dueNow(); }
  ks_check(!in.HasReadable(), "nothing is left over"); ks_reach("end"); }
KS_HARNESS harness_receive() { receiving(GENERIC, 2, false); } KS_HARNESS harness_receive2() { receiving(CODEC2, 2, false); }
KS_HARNESS harness_bytewise() { receiving(GENERIC, 0, true); } KS_HARNESS harness_bytewise2() { receiving(CODEC2, 0, true); }
// ---- what must be refused
static void refusing(int form) { up(); int what = ks_choose(4, "what"); std::string body = text(ks_choose(4, "size"), what == 0 ? 0 : 4), s; int want = 0; nmsg = 0;
  switch (what) {
  case 0: { s = frame(form, body); uint32_t sum = (uint32_t)ks_u("checksum", 32); ks_assume(sum != be32(s.data() + s.size() - 4)); s.resize(s.size() - 4); put32(s, sum); want = form == GENERIC ? 4 : 2; break; } // another checksum
  case 1: { char t[5]; for (int i = 0; i < 4; i++) t[i] = Tag[i]; int i = ks_choose(4, "at"); t[i] = (char)ks_u("other", 8); ks_assume(t[i] != Tag[i] && t[i] != 0); t[4] = 0; s = frame(form, body, t); want = 3; break; } // another kind of message
  case 2: body.insert(body.begin(), (char)0xee); s = frame(form, body); want = form == GENERIC ? 1 : -1; break;       // not the wire form of a message
  default: s = frame(form, body); { uint32_t n = (uint32_t)ks_u("announced", 32); ks_assume(n < 8 || n >= (1 << 26)); std::string h; if (form == GENERIC) put32(h, n); else { ks_assume(n < 8 || (n >= (1 << 26) && n < (1 << 28))); kvarint_buf32_t v; kvarint_encode32(n, &v); h.assign((char *)v.buf, v.len); } s = h + s.substr(form == GENERIC ? 4 : 1); } want = form == GENERIC ? 2 : 1; }
  ProtobufCodec<Msg, Tag> g; ProtobufCodec2 c2(Tag, 1 << 26); bool own = ks_choose(2, "own-callback"); errors = 0;
  g.SetMessageCallback([](const TcpConnectionPtr &, Msg *, TimeStamp) { ks_check(false, "a corrupt message is not delivered"); });
  c2.SetMessageCallback([](const TcpConnectionPtr &, Buffer &b, size_t n, TimeStamp) { Msg m; ks_check(!ParseFromBuffer(&m, n, &b), "a corrupt message is not delivered"); errors = 1; lastErr = -1; b.AdvanceRead(n); });
  auto onErr = [](const TcpConnectionPtr &, int e) { errors++; lastErr = e; }; if (own) { g.SetErrorCallback(onErr); c2.SetErrorCallback(onErr); }
  Buffer in; if (form == GENERIC) { in.Append(s.data(), s.size()); g.OnMessage(C, in, TimeStamp(1)); } else { memcpy(In, s.data(), s.size()); c2.SetUpConnection(C); k_deliver(FD, s.size()); C->GetLoop()->QueueToLoop([] { L->Quit(); }); L->StartLoop(); }
  if (own || want < 0) ks_check(errors == 1 && lastErr == want, "a frame that is refused is reported with its reason"); else ks_check(k_fd[FD].shut == 1, "a frame that is refused ends the conversation"); ks_reach("end"); }
KS_HARNESS harness_refuse() { refusing(GENERIC); } KS_HARNESS harness_refuse2() { refusing(CODEC2); }
// size headers of two bytes, the second one arriving in parts
KS_HARNESS harness_header2() { up(); std::string &s = strm; nmsg = 2; for (int i = 0; i < nmsg; i++) { bodies[i] = text((size_t[]){119, 120, 130}[i ? 2 : ks_choose(3, "size")], 2); s += frame(CODEC2, bodies[i]); ends[i] = s.size(); } static size_t stops[3]; stops[0] = ends[0] - ks_choose(3, "before"); stops[1] = ends[0] + ks_choose(4, "after"); stops[2] = s.size();
  static ProtobufCodec2 c2(Tag, 1 << 20); c2.SetMessageCallback([](const TcpConnectionPtr &c, Buffer &b, size_t n, TimeStamp) { Msg m; ks_check(ParseFromBuffer(&m, n, &b), "a message is delivered intact"); arrived(c, m.body); }); c2.SetErrorCallback([](const TcpConnectionPtr &, int) { ks_check(false, "valid messages are accepted"); });
  memcpy((char *)In, s.data(), s.size()); c2.SetUpConnection(C); script = [] { for (size_t to : stops) if (to > fed) { size_t n = to - fed; fed = to; k_deliver(FD, n); sched_yield_all(); dueNow(); } ks_check(!C->GetInputBuffer()->HasReadable(), "nothing is left over"); L->Quit(); ks_reach("end"); }; pthread_t t; pthread_create(&t, nullptr, driver, nullptr); L->StartLoop(); pthread_join(t, nullptr); }
KS_HARNESS harness_pipeline2() { // many messages at once, each within the limit
  up(); std::string s; nmsg = 4; for (int i = 0; i < nmsg; i++) { bodies[i] = text(8, 1); s += frame(CODEC2, bodies[i]); ends[i] = s.size(); } ProtobufCodec2 c2(Tag, (size_t[]){18, 20, 60}[ks_choose(3, "limit")]);
  c2.SetMessageCallback([](const TcpConnectionPtr &c, Buffer &b, size_t n, TimeStamp) { Msg m; ks_check(ParseFromBuffer(&m, n, &b), "a message is delivered intact"); arrived(c, m.body); }); c2.SetErrorCallback([](const TcpConnectionPtr &, int) { ks_check(false, "valid messages are accepted"); });
  memcpy(In, s.data(), s.size()); c2.SetUpConnection(C); fed = s.size(); k_deliver(FD, fed); C->GetLoop()->QueueToLoop([] { L->Quit(); }); L->StartLoop(); ks_check(got == nmsg, "every complete message is delivered once, as soon as it is complete"); ks_reach("end"); }
// a size header of a legal message that is not complete yet
static void waiting(int form) { up(); std::string h, s; uint32_t n = (uint32_t)ks_u("announced", 32); if (form == GENERIC) { ks_assume(n >= 8 && n < (1 << 26)); put32(h, n); } else { ks_assume(n >= 8 && n < (1 << 26) - 4); kvarint_buf32_t v; kvarint_encode32(n, &v); h.assign((char *)v.buf, v.len); } size_t k = ks_choose(10, "received"); ks_assume(k < n); s = h; for (size_t i = 0; i < k; i++) s.push_back((char)ks_u("byte", 8));
  ProtobufCodec<Msg, Tag> g; ProtobufCodec2 c2(Tag, 1 << 26); g.SetMessageCallback([](const TcpConnectionPtr &, Msg *, TimeStamp) { ks_check(false, "no message is delivered that was not sent"); }); c2.SetMessageCallback([](const TcpConnectionPtr &, Buffer &, size_t, TimeStamp) { ks_check(false, "no message is delivered that was not sent"); });
  auto onErr = [](const TcpConnectionPtr &, int) { ks_check(false, "a message whose length is allowed is waited for"); }; g.SetErrorCallback(onErr); c2.SetErrorCallback(onErr);
  Buffer in; size_t left; if (form == GENERIC) { in.Append(s.data(), s.size()); g.OnMessage(C, in, TimeStamp(1)); left = in.GetReadableSize(); } else { memcpy(In, s.data(), s.size()); c2.SetUpConnection(C); k_deliver(FD, s.size()); C->GetLoop()->QueueToLoop([] { L->Quit(); }); L->StartLoop(); left = C->GetInputBuffer()->GetReadableSize(); }
  ks_check(left == s.size() && k_fd[FD].shut == 0, "a message whose length is allowed is waited for"); ks_reach("end"); }
KS_HARNESS harness_waits() { waiting(GENERIC); } KS_HARNESS harness_waits2() { waiting(CODEC2); }
// ---- the stream under the serializer
KS_HARNESS harness_stream() { ChunkStream st; std::string want; size_t a = (size_t[]){0, 4, 4088}[ks_choose(3, "before")]; if (a) { std::string t = text(a, 1); st.chunk_list.Append(t); want = t; }
  for (int i = 0; i < OPS; i++) { if (ks_choose(3, "op")) { void *p = nullptr; int n = -1; ks_check(st.Next(&p, &n) && p && n > 0, "the stream gives room"); int k = ks_choose(3, "fill"); k = k == 0 ? 0 : k == 1 ? (n < 3 ? n : 3) : n; std::string t = text((size_t)k, 1); memcpy(p, t.data(), t.size()); if (k < n) st.BackUp(n - k); want += t; } else { std::string t = text((size_t[]){1, 5000}[ks_choose(2, "raw")], 1); ks_check(st.AllowsAliasing() && st.WriteAliasedRaw(t.data(), (int)t.size()), "the stream takes bytes"); want += t; }
    ks_check(st.ByteCount() == (int64_t)want.size(), "the stream counts its bytes"); }
  size_t at = 0; for (auto const &c : st.chunk_list) { auto v = c.ToStringView(); ks_check(at + v.size() <= want.size() && same(want.substr(at, v.size()), v.data(), v.size()), "the stream holds the bytes written, in order"); at += v.size(); } ks_check(at == want.size(), "the stream holds the bytes written, in order"); ks_reach("end"); }
// ---- remote calls
using namespace kanon::protobuf::rpc; using rpc::RpcChannel; using rpc::RpcController;
static pb::MethodDescriptor Methods[2]; static pb::ServiceDescriptor Desc;
struct Pending { Msg *response; pb::Closure *done; std::string request; int method; uint64_t deadline; }; static Pending pending[8]; static int nPending; static bool later;
static std::string answerTo(const std::string &r, int m) { std::string a(1, (char)('0' + m)); a += r; return a; }
static void complete(int i) { pending[i].response->body = answerTo(pending[i].request, pending[i].method); pending[i].done->Run(); }
struct Svc : pb::Service { const pb::ServiceDescriptor *GetDescriptor() override { return &Desc; } const pb::Message &GetRequestPrototype(const pb::MethodDescriptor *) const override { return Msg::default_instance(); } const pb::Message &GetResponsePrototype(const pb::MethodDescriptor *) const override { return Msg::default_instance(); }
  void CallMethod(const pb::MethodDescriptor *m, pb::RpcController *c, const pb::Message *rq, pb::Message *rs, pb::Closure *d) override { ks_check(nPending < 8, "model: calls"); uint64_t dl = static_cast<RpcController *>(c)->deadline(); delete c; pending[nPending] = {static_cast<Msg *>(rs), d, static_cast<const Msg *>(rq)->body, (int)(m - Methods), dl}; delete rq; nPending++; if (!later) complete(nPending - 1); } };
static Svc svc; static RpcServer *server; static RpcChannel *client; static int lfd2, sfd = -1; static char *In2; static size_t inN, inN2;
static void forward(int fd, size_t, const char *p, size_t n) { if (fd == FD) { memcpy(In2 + inN2, p, n); inN2 += n; k_deliver(sfd, n); } else { memcpy(In + inN, p, n); inN += n; k_deliver(FD, n); } }
static void rpcUp(bool withClient) { build(false, false); quiet(); In = (char *)malloc(4096); In2 = (char *)malloc(4096); k_fd[FD].in = In; k_on_write = forward; k_accept_bytes = nullptr; Methods[0] = {"first", &Desc}; Methods[1] = {"second", &Desc}; Desc.full_name_ = "service"; Desc.methods_ = Methods; Desc.n_ = 2;
  k_on_accept = [](int fd) { sfd = fd; k_fd[fd].in = In2; auto *q = (sockaddr_in *)&k_fd[fd].peer; q->sin_family = AF_INET; q->sin_port = 1; };
  int before = k_nfd; server = new RpcServer(L, InetAddr(9), "rpc"); for (int i = before; i < k_nfd; i++) if (k_fd[i].open && k_fd[i].kind != K_NULL) lfd2 = i; server->AddServices(&svc); server->StartRun();
  if (withClient) { if (ks_choose(2, "default-made")) { size_t k = sizeof(RpcChannel); void *mem = malloc(k); memset(mem, (int)ks_u("previous contents", 8), k); client = new (mem) RpcChannel; client->SetConnection(C); } else client = new RpcChannel(C); } }
static void goRpc() { C->ConnectionEstablished(); pthread_t t; pthread_create(&t, nullptr, driver, nullptr); L->StartLoop(); pthread_join(t, nullptr); }
static void accepted() { sched_yield_all(); k_incoming(lfd2, 1); settle(); ks_check(sfd >= 0, "model: connected"); }
struct Call { Msg request, response; RpcController controller; int done, method; }; static Call calls[8];
static void call(int i, bool wants = true) { Call &c = calls[i]; c.request.body = text(ks_choose(2, "size"), 2); c.method = i & 1; c.done = 0; client->CallMethod(Methods + c.method, &c.controller, &c.request, wants ? &c.response : nullptr, wants ? NewCallable([i] { calls[i].done++; ks_check(calls[i].done == 1, "a call is completed once"); std::string a = answerTo(calls[i].request.body, calls[i].method); ks_check(same(a, calls[i].response.body.data(), calls[i].response.body.size()), "a call is given the answer to its own request"); }) : nullptr); }
static void endRpc() { C->ForceClose(); settle(); k_fin(sfd); settle(); C.reset(); settle(); L->QueueToLoop([] { delete server; }); settle(); L->Quit(); ks_reach("end"); }
KS_HARNESS harness_rpc() { rpcUp(true); later = true; script = [] { accepted(); for (int i = 0; i < CALLS; i++) call(i); settle(); ks_check(nPending == CALLS, "every call reaches the service once"); for (int i = 0; i < CALLS; i++) { std::string const &r = calls[i].request.body; ks_check(pending[i].method == calls[i].method && same(r, pending[i].request.data(), pending[i].request.size()), "a request reaches its own method intact"); }
    bool used[CALLS] = {}; bool inLoop = ks_choose(2, "in-loop"); for (int i = 0; i < CALLS; i++) { int k = CALLS - i > 1 ? ks_choose(CALLS, "order") : 0; while (CALLS - i == 1 && used[k]) k++; if (used[k]) { ks_assume(false); return; } used[k] = true; if (inLoop) L->QueueToLoop([k] { complete(k); }); else complete(k); settle(); ks_check(calls[k].done == 1, "an answered call is completed"); for (int j = 0; j < CALLS; j++) if (!used[j]) ks_check(calls[j].done == 0, "a call that is not answered waits"); }
    endRpc(); }; goRpc(); }
KS_HARNESS harness_rpc_now() { rpcUp(true); script = [] { accepted(); call(0, ks_choose(2, "wants")); settle(); ks_check(nPending == 1, "every call reaches the service once"); call(1); settle(); ks_check(nPending == 2 && calls[1].done == 1, "an answered call is completed"); endRpc(); }; goRpc(); }
KS_HARNESS harness_rpc_deadline() { rpcUp(true); later = true; k_auto_timer = false; script = [] { accepted(); uint64_t ms = (uint64_t)(k_now_us / 1000) + 50; calls[0].controller.SetDeadline(ms); call(0); call(1); settle(); ks_check(nPending == 2, "every call reaches the service once"); ks_check(pending[0].deadline == ms && pending[1].deadline == RpcController().deadline(), "a method is told the deadline of its call"); int when = ks_choose(3, "when"); if (when == 0) { complete(0); settle(); ks_check(calls[0].done == 1, "a call answered in time is completed"); }
    k_now_us += when == 1 ? 49000 : 60000; settle(); settle(); if (when) { complete(0); settle(); ks_check(calls[0].done == (when == 1), when == 1 ? "a call answered in time is completed" : "a call whose deadline has passed is not completed any more"); } complete(1); settle(); ks_check(calls[1].done == 1, "an answered call is completed"); endRpc(); }; goRpc(); }
KS_HARNESS harness_rpc_twice() { rpcUp(true); later = true; script = [] { accepted(); for (int i = 0; i < CALLS; i++) call(i); settle(); ks_check(nPending == CALLS, "every call reaches the service once"); int k = ks_choose(CALLS, "answered"); size_t from = inN; complete(k); settle(); ks_check(calls[k].done == 1, "an answered call is completed"); // the answer comes once more
    size_t n = inN - from; memcpy(In + inN, In + from, n); inN += n; k_deliver(FD, n); settle(); ks_check(calls[k].done == 1, "a call is completed once"); for (int i = 0; i < CALLS; i++) if (i != k) { ks_check(calls[i].done == 0, "a call that is not answered waits"); complete(i); settle(); ks_check(calls[i].done == 1, "an answered call is completed"); } endRpc(); }; goRpc(); }
static void *caller(void *p) { call((int)(long)p); return nullptr; }
KS_HARNESS harness_rpc_threads() { rpcUp(true); script = [] { accepted(); sched_preempt = P - 1; pthread_t a, b; pthread_create(&a, nullptr, caller, (void *)0); pthread_create(&b, nullptr, caller, (void *)1); pthread_join(a, nullptr); pthread_join(b, nullptr); sched_preempt = 0; settle(); ks_check(nPending == 2, "every call reaches the service once"); ks_check(calls[0].done == 1 && calls[1].done == 1, "calls made at the same time are all completed"); endRpc(); }; goRpc(); }
static RpcMessage reply; static int replies;
KS_HARNESS harness_rpc_refuse() { rpcUp(false); static RpcCodec codec; C->SetMessageCallback([](const TcpConnectionPtr &c, Buffer &b, TimeStamp t) { codec.OnMessage(c, b, t); }); codec.SetMessageCallback([](const TcpConnectionPtr &, RpcMessage *m, TimeStamp) { reply = *m; replies++; });
  script = [] { accepted(); RpcMessage m; uint64_t id = ks_u("id", 64); m.set_id(id); m.set_type(RpcMessage::kRequest); int what = ks_choose(7, "what"), want = 0; if (what != 0) m.set_service(what == 1 ? "other" : "service"); if (what != 2) m.set_method(what == 3 ? "third" : "first"); if (what != 4) m.set_request(what == 5 ? "\xee" : "q"); if (ks_choose(2, "with a deadline")) m.set_deadline((uint64_t)(k_now_us / 1000) + 50);
    want = what == 1 ? RpcMessage::kNoService : what == 3 ? RpcMessage::kNoMethod : what == 5 ? RpcMessage::kInvalidRequest : what == 6 ? RpcMessage::kNoError : RpcMessage::kInvalidMessage; codec.Send(C, &m); settle();
    ks_check(replies == 1 && reply.type() == RpcMessage::kResponse && reply.id() == id, "every request is answered once under its number"); if (want) ks_check(reply.has_error() && reply.error() == want && nPending == 0, "a request that cannot be served is refused with its reason"); else ks_check(!reply.has_error() && reply.has_response() && nPending == 1 && reply.response() == "0q", "a request that can be served is answered"); endRpc(); }; goRpc(); }
KS_HARNESS harness_rpc_late() { rpcUp(true); later = true; script = [] { accepted(); call(0); settle(); ks_check(nPending == 1, "every call reaches the service once"); k_fin(sfd); settle(); complete(0); settle(); ks_check(calls[0].done == 0, "no answer without a connection"); C->ForceClose(); settle(); C.reset(); settle(); L->QueueToLoop([] { delete server; }); settle(); L->Quit(); ks_reach("end"); }; goRpc(); }
