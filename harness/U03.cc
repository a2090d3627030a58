// Ownership helpers, fixed vectors, and the facts about the process.
#include "file.h"
#include "kanon/util/ptr.h"
#include "kanon/algo/fixed_vector.h"
#include "kanon/process/process_info.h"
#include "kanon/util/mem.h"
#include "kanon/util/algo.h"
#include "kanon/util/operator_util.h"
#include <string.h>
#include <limits.h>
#include <map>
#include <set>
using namespace kanon;
static long live, made, gone; enum { ALIVE = 0x600d, DEAD = 0xdead };
struct Tr { int a, b, tag; Tr() : a(-7), b(0), tag(ALIVE) { live++; made++; } Tr(int x, int y) : a(x), b(y), tag(ALIVE) { live++; made++; } Tr(Tr const &o) : a(o.a), b(o.b), tag(ALIVE) { ks_check(o.tag == ALIVE, "copies a live object"); live++; made++; } virtual ~Tr() { ks_check(tag == ALIVE, "each object is destroyed once"); tag = DEAD; live--; gone++; } };
static int val() { return (int)ks_u("v", 32); }
static void finish() { ks_check(live == 0, "every object made is destroyed"); ks_check(!ks_symbolic() || ks_live_heap() == 0, "no storage is leaked"); ks_reach("done"); }
struct Mo { int *p; explicit Mo(int x) : p(new int(x)) {} Mo(Mo &&o) noexcept : p(o.p) { o.p = nullptr; } Mo(Mo const &) = delete; ~Mo() { delete p; } };
struct Taker { Mo m; int copies, &r; Taker(Mo x, int &y) : m(std::move(x)), copies(0), r(y) { live++; } ~Taker() { live--; } };
KS_HARNESS harness_make_unique() { int x = val(), y = val(); { auto p = kanon::make_unique<Tr>(x, y); ks_check(p && p->a == x && p->b == y && made == 1, "an object is made from exactly the arguments given"); std::unique_ptr<Tr> q(std::move(p)); ks_check(!p && live == 1, "ownership moves"); }
  ks_check(live == 0 && gone == 1, "the object is destroyed with its owner"); { auto p = kanon::make_unique<Taker>(Mo(x), y); ks_check(*p->m.p == x && &p->r == &y, "arguments are passed on as they are"); } { auto p = kanon::make_unique<Tr>(); ks_check(p->a == -7, "an object is made from no arguments"); } finish(); }
KS_HARNESS harness_make_array() { size_t n = 1 + ks_choose(4, "n"); { auto p = kanon::make_unique<Tr[]>(n); ks_check(live == (long)n, "an array has as many elements as asked for"); int x = val(); for (size_t i = 0; i < n; i++) { ks_check(p[i].a == -7, "every element is made"); p[i].a = x + (int)i; } for (size_t i = 0; i < n; i++) ks_check(p[i].a == x + (int)i, "elements are distinct"); } finish(); }
KS_HARNESS harness_key() { int x = val(), y = val(); Tr *p = new Tr(x, y); { auto k = MakeUniquePtrAsKey(p); ks_check(k.get() == p, "a key refers to the object itself"); std::set<KeyUniquePtr<Tr>> s; bool own = ks_choose(2, "owned"); if (own) { s.insert(KeyUniquePtr<Tr>(p)); ks_check(s.count(k) == 1 && contains(s, k), "an owning pointer is found by its key"); ks_check(live == 1, "looking up destroys nothing"); } else { ks_check(s.count(k) == 0 && !contains(s, k), "what is not there is not found"); } k.reset(); ks_check(live == 1, "a key never destroys the object"); if (!own) delete p; } finish(); }
KS_HARNESS harness_contains() { std::map<int, int> m; int a = (int)ks_range("a", 0, 3), b = (int)ks_range("b", 0, 3), q = (int)ks_range("q", 0, 3); m[a] = 1; m[b] = 2; ks_check(contains(m, q) == (q == a || q == b), "a key is contained exactly if it is in the map"); ks_reach("done"); }
KS_HARNESS harness_pointer() { Tr *raw = new Tr(1, 2); ks_check(GetPointer(raw) == raw, "the pointer to an object is that object's"); { std::unique_ptr<Tr> u(raw); ks_check(GetPointer(u) == raw && u, "the pointer to an object is that object's"); } auto s = std::make_shared<Tr>(3, 4); ks_check(GetPointer(s) == s.get() && s.use_count() == 1, "the pointer to an object is that object's"); s.reset(); ks_check(GetPointer((Tr *)nullptr) == nullptr, "no object, no pointer"); finish(); }
struct Other { long pad[3]; virtual ~Other() {} virtual int f() { return 1; } }; struct Both : Other, Tr { int own; Both(int x, int o) : Tr(x, x), own(o) {} int f() override { return own; } };
KS_HARNESS harness_down() { int x = val(), o = val(); unsigned k = ks_choose(3, "kind"); bool second = ks_choose(2, "second"); 
  if (k == 0) { Both b(x, o); Both *d = second ? down_pointer_cast<Both>((Tr *)&b) : down_pointer_cast<Both>((Other *)&b); ks_check(d == &b && d->own == o && d->a == x && d->f() == o, "a down cast gives the very object"); }
  else if (k == 1) { auto b = std::make_shared<Both>(x, o); if (second) { std::shared_ptr<Tr> t(b); auto d = down_pointer_cast<Both>(t); ks_check(d == b && d->own == o && b.use_count() == 3, "a down cast shares the very object"); } else { std::shared_ptr<Other> t(b); auto d = down_pointer_cast<Both>(t); ks_check(d == b && d->own == o && b.use_count() == 3, "a down cast shares the very object"); } }
  else { Both *b = new Both(x, o); if (second) { std::unique_ptr<Tr> t(b); std::unique_ptr<Both, std::default_delete<Tr>> d = down_pointer_cast<Both>(t); ks_check(d.get() == b && d->own == o && !t, "a down cast takes the very object over"); } else { std::unique_ptr<Other> t(b); std::unique_ptr<Both, std::default_delete<Other>> d = down_pointer_cast<Both>(t); ks_check(d.get() == b && d->own == o && !t, "a down cast takes the very object over"); } }
  finish(); }
KS_HARNESS harness_defer() { int x = val(); { Tr *t = new Tr(x, x); { KANON_DEFER_DELETE(Tr, t); ks_check(live == 1 && t->a == x, "the object lives until the end of the scope"); } ks_check(live == 0, "the object is destroyed at the end of the scope"); } static int calls; calls = 0; { Tr *u = new Tr(x, x); { KANON_DEFER_DELETE2(Tr, u, [x](Tr *p) { calls++; ks_check(p->a == x, "the deleter gets the object"); delete p; }); ks_check(calls == 0, "the deleter waits for the end of the scope"); } } ks_check(calls == 1, "the deleter is called once"); finish(); }
struct Prot : Tr { Mo m; protected: Prot(int x, Mo mo) : Tr(x, x), m(std::move(mo)) {} };
template <class T> struct CountAlloc { typedef T value_type; int *n; explicit CountAlloc(int *p) : n(p) {} template <class U> CountAlloc(CountAlloc<U> const &o) : n(o.n) {} T *allocate(size_t k) { ++*n; return (T *)::operator new(k * sizeof(T)); } void deallocate(T *p, size_t) { --*n; ::operator delete(p); } template <class U> bool operator==(CountAlloc<U> const &) const { return true; } template <class U> bool operator!=(CountAlloc<U> const &) const { return false; } };
KS_HARNESS harness_protected() { int x = val(), y = val(); int n = 0; { if (ks_choose(2, "alloc")) { auto p = AllocateSharedFromProtected<Prot>(CountAlloc<Prot>(&n), x, Mo(y)); ks_check(n >= 1, "the allocator given is used"); ks_check(p->a == x && *p->m.p == y && live == 1 && p.use_count() == 1, "an object is made from exactly the arguments given"); } else { std::shared_ptr<Prot> p = MakeSharedFromProtected<Prot>(x, Mo(y)); ks_check(p->a == x && *p->m.p == y && live == 1 && p.use_count() == 1, "an object is made from exactly the arguments given"); } } ks_check(n == 0, "the allocator given gets its storage back"); finish(); }
KS_HARNESS harness_fixed_vector() { size_t n = 1 + ks_choose(4, "n"); { FixedVector<Tr> v(n); ks_check(v.size() == n && live == 0, "a fixed vector makes no element by itself"); int x[4]; bool back = ks_choose(2, "backwards"); for (size_t k = 0; k < n; k++) { size_t i = back ? n - 1 - k : k; x[i] = val(); v.Construct(i, x[i], (int)i); ks_check(live == (long)k + 1, "an element is made when asked for"); }
    FixedVector<Tr> const &c = v; ks_check(v.end() - v.begin() == (long)n && c.end() - c.begin() == (long)n && v.data() == v.begin() && c.data() == c.begin() && c.cend() - c.cbegin() == (long)n, "the range is the elements"); for (size_t i = 0; i < n; i++) ks_check(v[i].a == x[i] && c[i].a == x[i] && v[i].b == (int)i && v.begin()[i].tag == ALIVE, "an element is made from exactly the arguments given, at its place"); } finish(); }
KS_HARNESS harness_fixed_trivial() { size_t n = ks_range("n", 1, 64); size_t i = ks_u("i", 6), j = ks_u("j", 6); ks_assume(i < n && j < n && i != j); { FixedVector<long> v(n); long a = (long)ks_u("a", 64), b = (long)ks_u("b", 64); v[i] = a; v.Construct(j, b); ks_check(v[i] == a && v.data()[j] == b && v.size() == n, "elements are stored apart"); } ks_check(!ks_symbolic() || ks_live_heap() == 0, "no storage is leaked"); ks_reach("done"); }
KS_HARNESS harness_zero() { char b[9]; ks_bytes(b, 9, "b"); char c = b[8]; struct { long x; int y; } s; ks_bytes(&s, sizeof s, "s"); size_t n = ks_range("n", 0, 8); size_t i = ks_u("i", 3); ks_assume(i < 8); char o = b[i]; switch (ks_choose(2, "how")) { case 0: MemoryZero((void *)b, n); ks_check(b[i] == (i < n ? 0 : o) && b[8] == c, "exactly the bytes named are cleared"); break; default: { char z[8]; memcpy(z, b, 8); MemoryZero(z); MemoryZero(s); ks_check(z[i] == 0 && s.x == 0 && s.y == 0, "the whole object is cleared"); } } ks_reach("done"); }
struct Num : equal_comparable<Num>, less_than_comparable<Num> { int v; explicit Num(int x) : v(x) {} friend bool operator==(Num const &a, Num const &b) { return a.v == b.v; } friend bool operator<(Num const &a, Num const &b) { return a.v < b.v; } };
KS_HARNESS harness_operators() { int x = val(), y = val(); Num a(x), b(y); ks_check((a != b) == (x != y) && (a > b) == (x > y) && (a >= b) == (x >= y) && (a <= b) == (x <= y), "derived comparisons agree with the given ones"); ks_reach("done"); }
// ---- the process
KS_HARNESS harness_pid() { int p = (int)ks_range("pid", 1, 4194304); char d[16]; int n = 0, q = p; do { d[n++] = (char)('0' + q % 10); q /= 10; } while (q); k_pid = p; for (int r = 0; r < 2; r++) { StringView s = process::PidString(); ks_check((int)s.size() == n && s.data()[n] == 0, "the text of the process id has its digits"); for (int i = 0; i < n; i++) ks_check(s.data()[i] == d[n - 1 - i], "the text of the process id is that of the id"); } ks_check(process::Pid() == p, "the process id is the system's"); ks_reach("done"); }
KS_HARNESS harness_hostname() { static char h[HOST_NAME_MAX + 1]; size_t n = ks_range("n", 0, HOST_NAME_MAX); ks_concretize(n); ks_bytes(h, n, "h"); for (size_t i = 0; i < n; i++) ks_assume(h[i] != 0); h[n] = 0; k_hostname = h; for (int r = 0; r < 2; r++) { StringView s = process::Hostname(); ks_check(s.size() == n && s.data()[n] == 0, "the host's name is complete and terminated"); if (n) { size_t i = ks_range("i", 0, HOST_NAME_MAX - 1); ks_assume(i < n); ks_check(s.data()[i] == h[i], "the host's name is the system's"); } } if (n == HOST_NAME_MAX) ks_reach("longest"); ks_reach("done"); }
