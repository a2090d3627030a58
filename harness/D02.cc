// ReservedArray: elements kept across growth, shrink, copies, moves and swaps.
#include "ks.h"
#include "kanon/algo/reserved_array.h"
#include <utility>
static long live = 0;
enum { ALIVE = 0x600d, DEAD = 0xdead };
struct Tr { int v; int tag; // needs destruction, cannot be reallocated bitwise
  Tr() : v(-7), tag(ALIVE) { ++live; } Tr(Tr const &o) : v(o.v), tag(ALIVE) { ks_check(o.tag == ALIVE, "copies a live element"); ++live; } Tr(Tr &&o) noexcept : v(o.v), tag(ALIVE) { ks_check(o.tag == ALIVE, "moves a live element"); o.v = -1; ++live; }
  Tr &operator=(Tr const &o) { ks_check(tag == ALIVE && o.tag == ALIVE, "assigns live elements"); v = o.v; return *this; }
  ~Tr() { ks_check(tag == ALIVE, "destroys each element once"); tag = DEAD; --live; } };
struct Cp { int v; int tag; // copy only, may throw
  Cp() : v(-7), tag(ALIVE) { ++live; } Cp(Cp const &o) : v(o.v), tag(ALIVE) { ks_check(o.tag == ALIVE, "copies a live element"); ++live; }
  Cp &operator=(Cp const &o) noexcept { ks_check(tag == ALIVE && o.tag == ALIVE, "assigns live elements"); v = o.v; return *this; }
  ~Cp() { ks_check(tag == ALIVE, "destroys each element once"); tag = DEAD; --live; } };
struct Re { static const bool can_reallocate = true; int v; int tag; // non trivial but relocatable
  Re() noexcept : v(-7), tag(ALIVE) { ++live; } Re(Re const &o) noexcept : v(o.v), tag(ALIVE) { ks_check(o.tag == ALIVE, "copies a live element"); ++live; }
  Re &operator=(Re const &o) noexcept { ks_check(tag == ALIVE && o.tag == ALIVE, "assigns live elements"); v = o.v; return *this; }
  ~Re() { ks_check(tag == ALIVE, "destroys each element once"); tag = DEAD; --live; } };
static int fuse = -1; static void may() { if (fuse >= 0 && fuse-- == 0) throw 7; }
struct Th { int v; int tag; // copying and default construction may throw, there's no move
  Th() { may(); v = -7; tag = ALIVE; ++live; } Th(Th const &o) { ks_check(o.tag == ALIVE, "copies a live element"); may(); v = o.v; tag = ALIVE; ++live; }
  Th &operator=(Th const &o) { ks_check(tag == ALIVE && o.tag == ALIVE, "assigns live elements"); may(); v = o.v; return *this; }
  ~Th() { ks_check(tag == ALIVE, "destroys each element once"); tag = DEAD; --live; } };
struct Tm { int v; int tag; // the same, but moving doesn't throw
  Tm() { may(); v = -7; tag = ALIVE; ++live; } Tm(Tm const &o) { ks_check(o.tag == ALIVE, "copies a live element"); may(); v = o.v; tag = ALIVE; ++live; }
  Tm(Tm &&o) noexcept : v(o.v), tag(ALIVE) { ks_check(o.tag == ALIVE, "moves a live element"); o.v = -1; ++live; }
  Tm &operator=(Tm const &o) { ks_check(tag == ALIVE && o.tag == ALIVE, "assigns live elements"); may(); v = o.v; return *this; }
  ~Tm() { ks_check(tag == ALIVE, "destroys each element once"); tag = DEAD; --live; } };
static int &val(Th &x) { return x.v; } static int &val(Tm &x) { return x.v; }
static int &val(int &x) { return x; } static int &val(Tr &x) { return x.v; } static int &val(Cp &x) { return x.v; } static int &val(Re &x) { return x.v; }
template <class E> struct counted { static const bool yes = true; }; template <> struct counted<int> { static const bool yes = false; };
struct Model { int v[8]; unsigned n; };
static int m_at(Model &m, unsigned i) { return m.v[i]; }
template <class E> using Arr = kanon::algo::ReservedArray<E>;
template <class E> static void fill(Arr<E> &a, Model &m, unsigned from) { for (unsigned i = from; i < m.n; i++) { if (counted<E>::yes) ks_check(val(a[i]) == -7, "added elements are default constructed"); int x = (int)ks_u("v", 32); val(a[i]) = x; m.v[i] = x; } }
template <class E> static void same(Arr<E> &a, Model &m) {
  ks_check(a.size() == m.n, "the size is the requested one"); if (a.size() != m.n) return; ks_check(a.GetSize() == m.n && a.empty() == (m.n == 0) && (size_t)(a.end() - a.begin()) == m.n && a.cend() - a.cbegin() == a.end() - a.begin(), "size, empty and iterators agree");
  bool ok = true; for (unsigned i = 0; i < m.n; i++) ok = ok & (val(a[i]) == m.v[i]); ks_check(ok, "elements keep their values");
  Arr<E> const &c = a; if (m.n) ks_check(&c[0] == a.data() && c.data() == a.data() && &c[m.n - 1] == c.end() - 1, "element addresses are consecutive"); }
template <class E> static void run() {
  { unsigned n = ks_choose(KS_M + 1, "n"), k = ks_choose(KS_M + 1, "k"); Model ma, mb; ma.n = n; mb.n = k; Arr<E> a(n), b(k); fill(a, ma, 0); fill(b, mb, 0);
    for (int s = 0; s < KS_STEPS; s++) { unsigned op = ks_choose(9, "op");
      switch (op) {
        case 0: { unsigned t = ks_choose(KS_M + 1, "to"), o = ma.n; a.Grow(t); if (t > o) { ma.n = t; for (unsigned i = 0; i < o; i++) {} fill(a, ma, o); ks_reach("grown"); } break; }
        case 1: { unsigned t = ks_choose(KS_M + 1, "to"); a.Shrink(t); if (t < ma.n) { ma.n = t; ks_reach("shrunk"); } break; }
        case 2: a = b; ma = mb; break;
        case 3: { Arr<E> c(a); Model mc = ma; b = c; mb = mc; same(c, mc); ks_reach("copied"); break; }
        case 4: { Arr<E> c(std::move(a)); ks_check(a.size() == 0 && a.empty(), "a moved-from array is empty"); ks_check(c.size() == ma.n, "moving keeps the size"); same(c, ma); a = std::move(c); break; }
        case 5: { a.swap(b); Model t = ma; ma = mb; mb = t; break; }
        case 6: { Arr<E> &r = a; a = r; break; }
        case 7: { Arr<E> e; b = e; mb.n = 0; ks_reach("emptied"); break; }
        case 8: { Arr<E> e; ks_check(e.empty() && e.size() == 0, "a new array is empty"); e = a; same(e, ma); std::swap(e, b); Model t = mb; mb = ma; same(e, t); break; }
      }
      same(a, ma); same(b, mb); if (counted<E>::yes) ks_check(live == (long)(ma.n + mb.n), "exactly the elements present are alive"); }
    if (ma.n > 1) { unsigned i = (unsigned)ks_range("i", 0, ma.n - 1); ks_check(val(a[i]) == m_at(ma, i), "the element at any index"); }
  }
  if (counted<E>::yes) ks_check(live == 0, "every element is destroyed exactly once"); ks_check(ks_live_heap() == 0 || !ks_symbolic(), "no storage is leaked"); ks_reach("done"); }
KS_HARNESS harness_trivial() { run<int>(); }
KS_HARNESS harness_movable() { run<Tr>(); }
KS_HARNESS harness_copyable() { run<Cp>(); }
KS_HARNESS harness_relocatable() { run<Re>(); }
// ---- an element operation that throws: nothing is lost, nothing is leaked, the arrays are as before
template <class E> static void throwing() {
  { unsigned n = ks_choose(KS_M + 1, "n"), k = ks_choose(KS_M + 1, "k"), op = ks_choose(5, "op"), to = ks_choose(KS_M + 2, "to"); Model ma, mb; ma.n = n; mb.n = k; Arr<E> a(n), b(k); fill(a, ma, 0); fill(b, mb, 0);
    bool thrown = false; fuse = (int)ks_choose(KS_M + 2, "throws at");
    try {
      switch (op) {
        case 0: { Arr<E> c(to); fuse = -1; ks_check(c.size() == to, "the size is the requested one"); break; }
        case 1: { Arr<E> c(a); fuse = -1; same(c, ma); break; }
        case 2: { a.Grow(to); fuse = -1; if (to > n) { ma.n = to; fill(a, ma, n); } break; }
        case 3: { a.Shrink(to); fuse = -1; if (to < n) ma.n = to; break; }
        default: a = b; fuse = -1; ma = mb; } }
    catch (int) { thrown = true; ks_reach("thrown"); }
    if (!thrown) ks_reach("not thrown"); fuse = -1;
    same(a, ma); same(b, mb); ks_check(live == (long)(ma.n + mb.n), "exactly the elements present are alive"); }
  ks_check(live == 0, "every element is destroyed exactly once"); ks_check(ks_live_heap() == 0 || !ks_symbolic(), "no storage is leaked"); ks_reach("done"); }
KS_HARNESS harness_throwing() { throwing<Th>(); }
KS_HARNESS harness_throwing_move() { throwing<Tm>(); }
