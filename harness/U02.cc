// optional, Any, UniqueAny and RawAny keep value semantics.
#include "ks.h"
#include "kanon/util/optional.h"
#include "kanon/util/any.h"
#include "kanon/util/unique_any.h"
#include "kanon/util/raw_any.h"
#include <utility>
#include <typeinfo>
using namespace kanon;
static long live = 0;
enum { ALIVE = 0x600d, DEAD = 0xdead };
struct Tr { int v, tag;
  Tr() : v(-7), tag(ALIVE) { ++live; } explicit Tr(int x) : v(x), tag(ALIVE) { ++live; } Tr(Tr const &o) : v(o.v), tag(ALIVE) { ks_check(o.tag == ALIVE, "copies a live value"); ++live; } Tr(Tr &&o) noexcept : v(o.v), tag(ALIVE) { ks_check(o.tag == ALIVE, "moves a live value"); o.v = -1; ++live; }
  Tr &operator=(Tr const &o) { ks_check(tag == ALIVE && o.tag == ALIVE, "assigns live values"); v = o.v; return *this; }
  Tr &operator=(Tr &&o) { ks_check(tag == ALIVE && o.tag == ALIVE, "assigns live values"); int x = o.v; o.v = -1; v = x; return *this; }
  ~Tr() { ks_check(tag == ALIVE, "destroys each value once"); tag = DEAD; --live; } };
struct Mo { int *p; explicit Mo(int x) : p(new int(x)) { ++live; } Mo(Mo &&o) noexcept : p(o.p) { o.p = nullptr; ++live; } Mo(Mo const &) = delete; ~Mo() { delete p; --live; } }; // move only, owns storage
struct Big { long a[5]; Big(long x = 0) { for (int i = 0; i < 5; i++) a[i] = x + i; } };
static int val() { return (int)ks_u("v", 32); }
static void finish() { ks_check(live == 0, "every stored value is destroyed exactly once"); ks_check(!ks_symbolic() || ks_live_heap() == 0, "no storage is leaked"); ks_reach("done"); }
// ---- optional
struct OM { bool has; int v; };
static void osame(optional<Tr> &o, OM m) { ks_check(o.has_value() == m.has && (bool)o == m.has, "an optional reports presence truthfully"); if (!m.has) return; optional<Tr> const &c = o; ks_check(o.value().v == m.v && (*o).v == m.v && o->v == m.v && c.value().v == m.v && (*c).v == m.v && c->v == m.v, "an optional returns the stored value"); }
KS_HARNESS harness_optional() {
  { optional<Tr> a, b; OM ma{false, 0}, mb{false, 0}; osame(a, ma);
    for (int s = 0; s < KS_STEPS; s++) { switch (ks_choose(13, "op")) {
      case 0: { int x = val(); a = Tr(x); ma = {true, x}; break; }
      case 1: { int x = val(); Tr t(x); a = t; ks_check(t.v == x, "assigning from a value leaves it"); ma = {true, x}; break; }
      case 2: { int x = val(); a = optional<Tr>(Tr(x)); ma = {true, x}; break; }
      case 3: a = b; ma = mb; osame(b, mb); break;
      case 4: { a = std::move(b); ma = mb; ks_check((bool)b == mb.has, "moving from an optional does not make up presence"); if (mb.has) { b.SetInvalid(); mb.has = false; } break; }
      case 5: { optional<Tr> c(a); osame(c, ma); if (ma.has) { c.value().v ^= 1; osame(a, ma); ks_reach("deep"); } break; }
      case 6: { optional<Tr> c(std::move(a)); osame(c, ma); a = c; break; }
      case 7: a.SetInvalid(); ma.has = false; break;
      case 8: { std::swap(a, b); OM t = ma; ma = mb; mb = t; break; }
      case 9: a = make_null_optional<Tr>(); ma.has = false; break;
      case 10: { int x = val(); a = make_optional(Tr(x)); ma = {true, x}; break; }
      case 11: { optional<Tr> &r = a; a = r; break; }
      case 12: if (ma.has) { int x = val(); a->v = x; ma.v = x; } break;
      } osame(a, ma); osame(b, mb); } }
  finish(); }
template <class F, class T> static void conv1() { bool has = ks_choose(2, "has"); F x = (F)ks_u("x", sizeof(F) * 8); optional<F> f; if (has) f = x;
  optional<T> c(f); ks_check(c.has_value() == has, "absence converts to absence and presence to presence"); if (has) ks_check(c.value() == (T)x, "converting keeps the value"); ks_check(f.has_value() == has && (!has || f.value() == x), "converting leaves the source");
  optional<T> d(std::move(f)); ks_check(d.has_value() == has && (!has || d.value() == (T)x), "converting by move keeps the value");
  optional<T> e((T)1); optional<F> g; if (has) g = x; e = g; ks_check(e.has_value() == has && (!has || e.value() == (T)x), "assigning another optional type"); e = std::move(g); ks_check(e.has_value() == has && (!has || e.value() == (T)x), "move-assigning another optional type");
  T y = std::move(e).has_value() ? std::move(e).value() : (T)0; ks_check(!has || y == (T)x, "value of an expiring optional"); ks_reach("done"); }
KS_HARNESS harness_convert() { switch (ks_choose(4, "types")) { case 0: conv1<int, long>(); break; case 1: conv1<short, int>(); break; case 2: conv1<unsigned char, unsigned long>(); break; case 3: conv1<bool, int>(); break; } }
// ---- Any
enum { NONE, INT, TR, BIG, CHR };
struct AM { int kind; long v; };
template <class A> static void asame(A &a, AM m) {
  ks_check(a.empty() == (m.kind == NONE), "a holder reports emptiness truthfully"); std::type_info const &want = m.kind == NONE ? typeid(void) : m.kind == INT ? typeid(int) : m.kind == TR ? typeid(Tr) : m.kind == BIG ? typeid(Big) : typeid(char); ks_check(a.type() == want, "a holder reports the stored type");
  int *i = SafeAnyCast<int>(a); Tr *t = SafeAnyCast<Tr>(a); Big *b = SafeAnyCast<Big>(a); char *c = SafeAnyCast<char>(a); long *l = SafeAnyCast<long>(a);
  ks_check((i != nullptr) == (m.kind == INT) && (t != nullptr) == (m.kind == TR) && (b != nullptr) == (m.kind == BIG) && (c != nullptr) == (m.kind == CHR) && !l, "a cast succeeds exactly for the stored type");
  if (i) ks_check(*i == (int)m.v, "the stored value is returned"); if (t) { ks_check(t->v == (int)m.v && t->tag == ALIVE, "the stored value is returned"); } if (c) ks_check(*c == (char)m.v, "the stored value is returned"); if (b) { bool ok = true; for (int k = 0; k < 5; k++) ok = ok & (b->a[k] == m.v + k); ks_check(ok, "the stored value is returned"); }
  if (m.kind == INT) ks_check(UnsafeAnyCast<int>(a) == i, "the unchecked cast agrees"); if (m.kind == TR) ks_check(UnsafeAnyCast<Tr>(a) == t && AnyCast<Tr>(a) == t, "the unchecked cast agrees"); }
template <class A> static AM put(A &a) { AM m; m.kind = 1 + ks_choose(4, "kind"); if (m.kind == INT) { int x = val(); m.v = x; a = A(x + 0); } else if (m.kind == TR) { int x = val(); m.v = x; a = Tr(x); } else if (m.kind == BIG) { long x = (long)ks_u("v", 60); m.v = x; a = Big(x); } else { char x = (char)ks_u("v", 8); m.v = x; a = (char)(x + 0); } return m; }
template <class A> static void poke(A &a) { if (int *i = SafeAnyCast<int>(a)) ++*i; if (Tr *t = SafeAnyCast<Tr>(a)) ++t->v; if (Big *b = SafeAnyCast<Big>(a)) ++b->a[0]; if (char *c = SafeAnyCast<char>(a)) ++*c; }
KS_HARNESS harness_any() {
  { Any a, b; AM ma{NONE, 0}, mb{NONE, 0}; asame(a, ma);
    for (int s = 0; s < KS_STEPS; s++) { switch (ks_choose(11, "op")) {
      case 0: ma = put(a); break;
      case 1: a = b; ma = mb; break;
      case 2: { Any const &cb = b; a = cb; ma = mb; break; }
      case 3: a = std::move(b); ma = mb; b.clear(); mb.kind = NONE; break;
      case 4: { Any c(a); asame(c, ma); poke(c); asame(a, ma); Any const &ca = a; Any d(ca); asame(d, ma); ks_reach("copied"); break; }
      case 5: { Any c(std::move(a)); asame(c, ma); AM e{NONE, 0}; asame(a, e); a.swap(c); break; }
      case 6: { a.swap(b); AM t = ma; ma = mb; mb = t; break; }
      case 7: a.clear(); ma.kind = NONE; break;
      case 8: { Any &r = a; a = r; break; }
      case 9: { int x = val(); Tr t(x); a = t; ks_check(t.v == x, "storing a copy leaves the original"); Tr const ct(x); Any q(ct); ma = {TR, x}; asame(q, ma); break; }
      case 10: { Any e; a = e; ma.kind = NONE; break; }
      } asame(a, ma); asame(b, mb); ks_check(live == (ma.kind == TR) + (mb.kind == TR), "exactly the stored values are alive"); } }
  finish(); }
KS_HARNESS harness_unique() {
  { UniqueAny a, b; AM ma{NONE, 0}, mb{NONE, 0}; asame(a, ma);
    for (int s = 0; s < KS_STEPS; s++) { switch (ks_choose(7, "op")) {
      case 0: ma = put(a); break;
      case 1: a = std::move(b); ma = mb; b.clear(); mb.kind = NONE; break;
      case 2: { UniqueAny c(std::move(a)); asame(c, ma); AM e{NONE, 0}; asame(a, e); a.swap(c); break; }
      case 3: { a.swap(b); AM t = ma; ma = mb; mb = t; break; }
      case 4: a.clear(); ma.kind = NONE; break;
      case 5: { int x = val(); UniqueAny m(Mo(x + 0)); Mo *p = SafeUniqueAnyCast<Mo>(m); ks_check(p && p->p && *p->p == x && UnsafeUniqueAnyCast<Mo>(m) == p && m.type() == typeid(Mo), "a move-only value is stored by moving"); if (!p) break; UniqueAny n(std::move(m)); ks_check(m.empty() && SafeAnyCast<Mo>(n) == p && !SafeAnyCast<Mo>(m), "moving a holder moves the value"); ks_reach("moved"); break; }
      case 6: { UniqueAny c(std::move(a)); UniqueAny d; d = std::move(c); asame(d, ma); a = std::move(d); break; }
      } asame(a, ma); asame(b, mb); ks_check(live == (ma.kind == TR) + (mb.kind == TR), "exactly the stored values are alive"); } }
  finish(); }
KS_HARNESS harness_raw() {
  int x = val(), y = x; long z = (long)ks_u("z", 64); RawAny a; ks_check(a.empty(), "an empty raw holder"); a = x; ks_check(!a.empty() && UnsafeAnyCast<int>(a) == &x && AnyCast<int>(a) == &x && SafeAnyCast<int>(a) == &x && AnyCast2<int *>(a) == &x && UnsafeAnyCast2<int *>(a) == &x && SafeAnyCast2<int *>(a) == &x, "a raw holder returns the address it was given");
  RawAny b(z); ks_check(*AnyCast<long>(b) == z && AnyCast<long>(b) == &z, "a raw holder refers to the object"); RawAny c(a); ks_check(AnyCast<int>(c) == &x && AnyCast<int>(a) == &x, "copying a raw holder"); RawAny d(std::move(a)); ks_check(AnyCast<int>(d) == &x && a.empty(), "moving a raw holder empties it"); a = std::move(b); ks_check(AnyCast<long>(a) == &z, "move assignment"); a = c; ks_check(AnyCast<int>(a) == &x && AnyCast<int>(c) == &x, "copy assignment"); a.swap(c); b = a; RawAny &r = a; a = std::move(r); ks_check(AnyCast<int>(a) == &x, "self move keeps the address"); a.clear(); ks_check(a.empty() && !AnyCast<int>(a) && AnyCast<int>(b) == &x, "clearing empties one holder"); a = (void *)&y; ks_check(AnyCast<int>(a) == &y, "assigning an address"); RawAny e((void *)&z); e.swap(a); ks_check(AnyCast<int>(e) == &y && AnyCast<long>(a) == &z, "swap exchanges the addresses"); ks_check(x == y, "raw holders do not touch the object"); ks_reach("done"); }
