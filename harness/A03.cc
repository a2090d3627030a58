// Socket addresses: text, port and kernel forms of an InetAddr.
#include "ks.h"
#include "kanon/net/inet_addr.h"
#include "kanon/net/sock_api.h"
#include "kanon/log/logger.h"
#include <netdb.h>
#include <string.h>
#include <stdlib.h>
#include <new>
using namespace kanon;
#ifndef TL
#define TL 4
#endif
typedef unsigned char uch;
static bool dig(uch c) { return c >= '0' && c <= '9'; }
static int hexd(uch c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
// ---- reference: the address a text denotes
static bool ref4(const uch *p, size_t n, uch *a) { // four decimal octets without leading zeros
  size_t i = 0; for (int k = 0; k < 4; k++) { if (k) { if (i >= n || p[i] != '.') return false; i++; } size_t b = i; unsigned v = 0; while (i < n && i - b < 3 && dig(p[i])) v = v * 10 + (p[i++] - '0'); if (i == b || v > 255 || (i - b > 1 && p[b] == '0')) return false; a[k] = v; }
  return i == n; }
static bool ref6(const uch *p, size_t n, uch *a) { // groups before and behind at most one "::", the last two possibly as a dotted decimal
  uch g[2][16]; int ng[2] = {0, 0}, side = 0; size_t i = 0; bool gap = false, need = false;
  if (n >= 2 && p[0] == ':' && p[1] == ':') { gap = true; side = 1; i = 2; } else if (n == 0) return false; else need = true;
  while (i < n || need) { size_t b = i; unsigned v = 0; while (i < n && i - b < 4 && hexd(p[i]) >= 0) v = v << 4 | hexd(p[i++]); if (i == b) return false; 
    if (i < n && p[i] == '.') { if (ng[0] + ng[1] > 12) return false; uch q[4]; if (!ref4(p + b, n - b, q)) return false; memcpy(g[side] + ng[side], q, 4); ng[side] += 4; need = false; i = n; break; }
    if (ng[0] + ng[1] > 14) return false; g[side][ng[side]++] = v >> 8; g[side][ng[side]++] = v; need = false;
    if (i == n) break; if (p[i] != ':') return false; i++; need = true; if (i < n && p[i] == ':') { if (gap) return false; gap = true; side = 1; i++; need = false; } }
  if (need) return false; int t = ng[0] + ng[1]; if (gap ? t > 14 : t != 16) return false; memset(a, 0, 16); memcpy(a, g[0], ng[0]); memcpy(a + 16 - ng[1], g[1], ng[1]); return true; }
// ---- every byte of an address object that the kernel gets is decided by its constructor, whatever was in its storage before
alignas(16) static uch box[64]; static const InetAddr *A;
template <class... X> static bool make(X &&...x) { memset(box, 0xA5, sizeof box); A = nullptr; try { A = new (box) InetAddr(std::forward<X>(x)...); } catch (InetAddrException const &) { return false; } return true; }
static void is4(const uch *a, unsigned port, const char *what) {
  sockaddr_in e; memset(&e, 0, sizeof e); e.sin_family = AF_INET; e.sin_port = (uint16_t)(port >> 8 | port << 8); memcpy(&e.sin_addr, a, 4);
  ks_check(A->IsIpv4() && A->GetFamily() == AF_INET, "the family is the one of the address"); ks_check(memcmp(A->ToSockaddr(), &e, sizeof e) == 0, what); ks_check(memcmp(A->ToIpv4(), &e, sizeof e) == 0, "the IPv4 form is the kernel structure"); ks_check(A->GetPort() == port, "the port comes back"); }
static void is6(const uch *a, unsigned port, const char *what) {
  sockaddr_in6 e; memset(&e, 0, sizeof e); e.sin6_family = AF_INET6; e.sin6_port = (uint16_t)(port >> 8 | port << 8); memcpy(&e.sin6_addr, a, 16);
  ks_check(!A->IsIpv4() && A->GetFamily() == AF_INET6, "the family is the one of the address"); ks_check(memcmp(A->ToSockaddr(), &e, sizeof e) == 0, what); ks_check(memcmp(A->ToIpv6(), &e, sizeof e) == 0, "the IPv6 form is the kernel structure"); ks_check(A->GetPort() == port, "the port comes back"); }
// ---- resolver
static std::string gotHost, gotServ; static int calls, freed; static bool named; static addrinfo gotHint; static addrinfo list[4]; static sockaddr_in6 store[4]; static int fail, nlist;
extern int (*k_resolve)(const char *, const char *, const addrinfo *, addrinfo **); extern void (*k_resolved_free)(addrinfo *);
static int look(const char *h, const char *s, const addrinfo *hint, addrinfo **r) { calls++; gotHost = h; gotServ = s; gotHint = *hint; if (fail) return fail; *r = nlist ? list : nullptr; return 0; }
static void release(addrinfo *p) { ks_check(p == (nlist ? list : nullptr), "the whole list is freed"); freed++; memset(list, 0x5A, sizeof list); memset(store, 0x5A, sizeof store); }
static void result(int i, bool six, int next) { memset(&list[i], 0, sizeof list[i]); list[i].ai_family = six ? AF_INET6 : AF_INET; list[i].ai_socktype = SOCK_STREAM; list[i].ai_addr = (sockaddr *)&store[i]; list[i].ai_addrlen = six ? sizeof(sockaddr_in6) : sizeof(sockaddr_in); list[i].ai_next = next < 0 ? nullptr : &list[next];
  memset(&store[i], 0, sizeof store[i]); store[i].sin6_family = list[i].ai_family; store[i].sin6_port = (uint16_t)ks_u("port", 16); if (six) { ks_bytes(&store[i].sin6_addr, 16, "addr"); store[i].sin6_scope_id = (uint32_t)ks_u("scope", 32); } else ((sockaddr_in *)&store[i])->sin_addr.s_addr = (uint32_t)ks_u("addr", 32); }
static void quiet() { k_resolve = look; k_resolved_free = release; SetKanonLog(false); Logger::SetOutputCallback([](char const *, size_t) {}); }
// ---- text of arbitrary bytes that ends with its storage
static uch *text(unsigned n) { uch *p = (uch *)malloc(n ? n : 1); if (n) ks_bytes(p, n, "text"); return p; }
static StringView view(const uch *p, unsigned n) { return StringView((const char *)p, n); }

KS_HARNESS harness_port() { quiet(); unsigned port = (unsigned)ks_u("port", 16); bool lo = ks_choose(2, "loopback"), six = ks_choose(2, "ipv6");
  ks_check(make((InetAddr::Port)port, lo, six), "an address is made of every port"); uch a4[4] = {0, 0, 0, 0}, a6[16] = {0}; if (lo) a4[0] = 127, a4[3] = 1, a6[15] = 1;
  if (six) is6(a6, port, "the address made of a port is the wildcard or loopback one"); else is4(a4, port, "the address made of a port is the wildcard or loopback one");
  ks_check(A->ToIp() == (six ? lo ? "::1" : "::" : lo ? "127.0.0.1" : "0.0.0.0"), "the text shows the address"); ks_reach("end"); }
static void tail(const std::string &t, size_t at, unsigned port) { // ":" and the port as a decimal number up to the end
  ks_check(t.size() > at + 1 && t.size() <= at + 6 && t[at] == ':', "the text ends with a colon and the port"); if (!(t.size() > at + 1 && t.size() <= at + 6)) return; unsigned v = 0; bool d = true; for (size_t i = at + 1; i < t.size(); i++) { d = d & dig(t[i]); v = v * 10 + (t[i] - '0'); }
  ks_check(d, "the text shows the port"); ks_check(v == port, "the text shows the port"); ks_assume(v == port); ks_check(t.size() == at + 2 || t[at + 1] != '0', "the port has no leading zeros"); }
KS_HARNESS harness_kernel4() { quiet(); sockaddr_in k; memset(&k, 0, sizeof k); k.sin_family = AF_INET; uch a[4]; for (int i = 0; i < 4; i++) a[i] = (uch)ks_u("octet", 8); unsigned port = (unsigned)ks_u("port", 16); k.sin_port = (uint16_t)(port >> 8 | port << 8); memcpy(&k.sin_addr, a, 4);
  bool full = ks_choose(2, "port text"); if (full) { ks_concretize(port / 10000); a[0] = 10; a[1] = 0; a[2] = 200; a[3] = 255; memcpy(&k.sin_addr, a, 4); } else { port = 80; k.sin_port = 80 << 8; }
  make(k); is4(a, port, "the kernel structure is kept"); std::string ip = A->ToIp(), both = A->ToIpPort(); uch b[4]; ks_check(ref4((const uch *)ip.data(), ip.size(), b) && !memcmp(a, b, 4), "the text denotes the address"); ks_check(both.compare(0, ip.size(), ip) == 0, "the text with the port starts with the one without"); tail(both, ip.size(), port);
  ks_check(make(StringView(both)), "the text is accepted back"); is4(a, port, "the address made of the text is the same"); ks_check(make(StringView(ip), (InetAddr::Port)port), "the text is accepted back"); is4(a, port, "the address made of the text is the same"); ks_reach("end"); }
KS_HARNESS harness_kernel6() { quiet(); sockaddr_in6 k; memset(&k, 0, sizeof k); k.sin6_family = AF_INET6; uch a[16]; static const uch P[6][16] = {{0}, {0xfe, 0x80, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8}, {0, 1, 0, 2, 0, 3, 0, 4, 0, 5, 0, 6, 0, 7, 0, 8}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, 1, 2, 3, 4}, {0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0}, {0x20, 1, 0xd, 0xb8, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0}};
  memcpy(a, P[ks_choose(6, "base")], 16); unsigned w = ks_choose(9, "word"); unsigned port; if (w < 8) { a[2 * w] = (uch)ks_u("hi", 8); a[2 * w + 1] = (uch)ks_u("lo", 8); static const unsigned Q[] = {0, 7, 65535, 0x1234}; port = Q[w & 3]; } else { port = (unsigned)ks_u("port", 16); ks_concretize(port / 10000); } k.sin6_port = (uint16_t)(port >> 8 | port << 8); memcpy(&k.sin6_addr, a, 16); 
  make(k); is6(a, port, "the kernel structure is kept"); std::string ip = A->ToIp(), both = A->ToIpPort(); uch b[16]; ks_check(ref6((const uch *)ip.data(), ip.size(), b) && !memcmp(a, b, 16), "the text denotes the address"); ks_check(both.size() > ip.size() + 2 && both[0] == '[' && both.compare(1, ip.size(), ip) == 0 && both[ip.size() + 1] == ']', "the text with the port has the address in brackets"); tail(both, ip.size() + 2, port);
  ks_check(make(StringView(both)), "the text is accepted back"); is6(a, port, "the address made of the text is the same"); ks_check(make(StringView(ip), (InetAddr::Port)port), "the text is accepted back"); is6(a, port, "the address made of the text is the same"); ks_reach("end"); }
KS_HARNESS harness_scope() { quiet(); sockaddr_in6 k; memset(&k, 0, sizeof k); k.sin6_family = AF_INET6; ks_bytes(&k.sin6_addr, 16, "addr"); k.sin6_scope_id = (uint32_t)ks_u("scope", 32); k.sin6_flowinfo = (uint32_t)ks_u("flow", 32); k.sin6_port = (uint16_t)ks_u("port", 16); make(k); InetAddr c(*A), d; d = c; ks_check(!memcmp(d.ToSockaddr(), &k, sizeof k) && !memcmp(c.ToSockaddr(), &k, sizeof k), "copies keep the kernel structure"); ks_check(d.GetPort() == (uint16_t)(k.sin6_port >> 8 | k.sin6_port << 8), "the port comes back"); ks_reach("end"); }
static void ip(const uch *p, unsigned n) { unsigned port = (unsigned)ks_u("port", 16); bool ok = make(view(p, n), (InetAddr::Port)port); uch a[16];
  if (ref4(p, n, a)) { ks_check(ok, "an IPv4 text is accepted"); if (ok) is4(a, port, "the address is the one the text denotes"); ks_reach("four"); }
  else if (ref6(p, n, a)) { ks_check(ok, "an IPv6 text is accepted"); if (ok) is6(a, port, "the address is the one the text denotes"); ks_reach("six"); }
  else { ks_check(!ok, "a malformed text is rejected"); ks_reach("rejected"); } }
KS_HARNESS harness_ip() { quiet(); unsigned n = ks_choose(TL + 2, "len"); ip(text(n), n); }
KS_HARNESS harness_ip_dotted() { quiet(); uch b[32]; unsigned n = 0; unsigned odd = ks_choose(4, "long"); for (unsigned k = 0; k < 4; k++) { if (k) b[n++] = '.'; unsigned d = k == odd ? 1 + ks_choose(3, "digits") : 1; for (unsigned i = 0; i < d; i++) { b[n] = (uch)ks_u("digit", 8); ks_assume(dig(b[n])); n++; } }
  if (ks_choose(2, "more")) b[n++] = (uch)ks_u("more", 8); uch *p = (uch *)malloc(n); memcpy(p, b, n); ip(p, n); }
KS_HARNESS harness_ip_colons() { quiet(); static const char *T[] = {"::x", "x::", "x:1:2:3:4:5:6:7", "1:2:3:4:5:6:7:x", "1:2:3::x:8", "::ffff:1.2.3.4", "1::x::2", "1:2:3:4:5:6:7:8:9", "fe80::1%x", "1:2:3:4:5:6:7.8.9.1", ":1:2:3:4:5:6:7", "1:2:3:4:5:6:7:", "12345::", "::1.2.3", "1:2:3:4:5:6:7:1.2.3.4", "1.2.3.4::"};
  const char *t = T[ks_choose(16, "form")]; uch b[40]; unsigned n = 0; for (; *t; t++) if (*t == 'x') { unsigned d = 1 + ks_choose(5, "digits"); for (unsigned i = 0; i < d; i++) { b[n] = (uch)ks_u("digit", 8); if (d > 2) ks_assume(hexd(b[n]) >= 0); n++; } } else b[n++] = *t; uch *p = (uch *)malloc(n); memcpy(p, b, n); ip(p, n); }
// an address text: "a.b.c.d:port", "*:port", "[ipv6]:port", "host:service"
static void address(const uch *p, unsigned n) {
  result(0, ks_choose(2, "six"), -1); nlist = 1; sockaddr_in6 want = store[0]; bool ok = make(view(p, n)); bool nul = false; unsigned c = n; for (unsigned i = n; i-- > 0;) { if (p[i] == ':') c = i; if (!p[i]) nul = true; }
  uch f = n ? p[0] : 0; if (nul || !n) { ks_check(!ok && !calls, "a malformed address is rejected"); ks_reach("rejected"); return; }
  if ((f >= 'a' && f <= 'z') || (f >= 'A' && f <= 'Z')) { if (c == n) { ks_check(!ok, "a host without a service is rejected"); return; } ks_check(ok && calls == 1 && freed == 1, "a host and service are resolved"); ks_check(gotHost == std::string((const char *)p, c) && gotServ == std::string((const char *)p + c + 1, n - c - 1), "the host and the service are the parts of the text"); if (ok) ks_check(!memcmp(A->ToSockaddr(), &want, list[0].ai_family == 0x5A5A5A5A && want.sin6_family == AF_INET6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in)), "the resolved address is taken"); ks_reach("host"); return; }
  uch a[16]; bool six = false, valid = false; unsigned at = n; if (f == '[') { six = true; unsigned r = n; for (unsigned i = n; i-- > 0;) if (p[i] == ']') r = i; if (r + 1 < n && p[r + 1] == ':') { valid = ref6(p + 1, r - 1, a); at = r + 2; } }
  else if (c < n) { at = c + 1; if (c == 1 && f == '*') { memset(a, 0, 4); valid = true; } else valid = ref4(p, c, a); }
  unsigned port = 0; if (at >= n || n - at > 32) valid = false; for (unsigned i = at; valid && i < n; i++) { if (!dig(p[i])) valid = false; else port = port * 10 + (p[i] - '0'); if (port > 65535) valid = false; }
  ks_check(!calls, "an address is not resolved"); if (!valid) { ks_check(!ok, "a malformed address is rejected"); ks_reach("rejected"); return; } ks_check(ok, "a well-formed address is accepted"); if (ok) { if (six) is6(a, port, "the address is the one the text denotes"); else is4(a, port, "the address is the one the text denotes"); } ks_reach("accepted"); }
KS_HARNESS harness_address() { quiet(); unsigned n = ks_choose(TL + 1, "len"); address(text(n), n); }
KS_HARNESS harness_address_tail() { quiet(); static const char *T[] = {"1.2.3.4", "*", "[::1]", "[1:2:3:4:5:6:7:8]", "[::ffff:9.8.7.6]", "255.255.255.255:", "[::]:", "*:", "h", "1.2.3.256", "[1::2::3]:", "[::1"}; const char *t = T[ks_choose(12, "form")]; unsigned k = ks_choose(TL, "len"), n = strlen(t) + k; uch *q = text(k), *p = (uch *)malloc(n); memcpy(p, t, n - k); memcpy(p + n - k, q, k); address(p, n); }
KS_HARNESS harness_address_port() { quiet(); static const char *T[] = {"0.0.0.0:", "*:", "[::]:", "[fe80::1]:", "0.0.0.0:000000", "*:429496", "[::]:1844674407370955"}; unsigned form = ks_choose(7, "form"); const char *t = T[form]; unsigned k = form < 4 ? 3 + ks_choose(4, "digits") : 4, n = strlen(t) + k; uch *p = (uch *)malloc(n); memcpy(p, t, n - k); for (unsigned i = n - k; i < n; i++) { p[i] = (uch)ks_u("digit", 8); ks_assume(dig(p[i])); } address(p, n); }
KS_HARNESS harness_resolve() { quiet(); nlist = 1 + ks_choose(3, "results"); bool six[4], other[4]; sockaddr_in6 want[4]; int n = 0; for (int i = 0; i < nlist; i++) { six[i] = ks_choose(2, "six"); other[i] = i < 2 && ks_choose(2, "other"); result(i, six[i], i + 1 < nlist ? i + 1 : -1); if (other[i]) list[i].ai_family = AF_UNIX; else want[n] = store[i], n++; }
  fail = ks_choose(2, "fails") ? (ks_choose(2, "kind") ? EAI_NONAME : EAI_AGAIN) : 0; unsigned how = ks_choose(4, "how");
  if (how == 3) { bool ok = make(StringArg("example.org"), StringArg("http")); ks_check(ok == (!fail && n > 0), "a name that denotes no address is rejected"); if (ok) ks_check(!memcmp(A->ToSockaddr(), &want[0], want[0].sin6_family == AF_INET6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in)), "the first result is taken"); ks_check(!(gotHint.ai_flags & AI_PASSIVE), "the address is one to connect to"); }
  else { addrinfo h; memset(&h, 0, sizeof h); h.ai_family = AF_INET6; h.ai_protocol = 17; auto v = how == 2 ? InetAddr::Resolve("example.org", "http", &h) : InetAddr::Resolve("example.org", "http", (bool)how);
    ks_check((int)v.size() == (fail ? 0 : n), "every internet address of the result is returned, and nothing else"); if (!fail && (int)v.size() == n) for (int i = 0; i < n; i++) ks_check(!memcmp(v[i].ToSockaddr(), &want[i], want[i].sin6_family == AF_INET6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in)), "the results keep their order and value");
    if (how == 2) ks_check(gotHint.ai_family == AF_INET6 && gotHint.ai_protocol == 17, "the user's hint is used"); else ks_check(!!(gotHint.ai_flags & AI_PASSIVE) == (how == 1), "a server gets an address to bind to, a client one to connect to"); }
  if (how != 2) ks_check(gotHint.ai_socktype == SOCK_STREAM && gotHint.ai_family == AF_UNSPEC, "stream addresses of both families are asked for"); ks_check(gotHost == "example.org" && gotServ == "http" && calls == 1, "the name is looked up once, as given"); ks_check(freed == (fail ? 0 : 1), "the results are freed once"); ks_reach("end"); }
