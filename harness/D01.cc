// ForwardList: a sequence under any history of operations.
#include "ks.h"
#include "kanon/algo/forward_list.h"
#include <utility>
#include <initializer_list>
static long live = 0;
enum { ALIVE = 0x600d, DEAD = 0xdead };
struct E { int key, id, tag;
  E(int k = 0, int i = -5) : key(k), id(i), tag(ALIVE) { ++live; } E(E const &o) : key(o.key), id(o.id), tag(ALIVE) { ks_check(o.tag == ALIVE, "copies a live element"); ++live; } E(E &&o) noexcept : key(o.key), id(o.id), tag(ALIVE) { ks_check(o.tag == ALIVE, "moves a live element"); o.id = -9; ++live; }
  E &operator=(E const &o) { ks_check(tag == ALIVE && o.tag == ALIVE, "assigns live elements"); key = o.key; id = o.id; return *this; }
  ~E() { ks_check(tag == ALIVE, "destroys each element once"); tag = DEAD; --live; } };
static bool operator<(E const &a, E const &b) { return a.key < b.key; } static bool operator==(E const &a, E const &b) { return a.key == b.key; }
typedef zstl::ForwardList<E> L; typedef L::ConstIterator CI;
enum { MAXN = 24 };
struct M { int k[MAXN], d[MAXN]; unsigned n; M() : n(0) {} void ins(unsigned at, int key, int id) { for (unsigned i = n; i > at; i--) { k[i] = k[i - 1]; d[i] = d[i - 1]; } k[at] = key; d[at] = id; n++; } void del(unsigned at) { for (unsigned i = at; i + 1 < n; i++) { k[i] = k[i + 1]; d[i] = d[i + 1]; } n--; } };
static int ids = 1;
static int key() { return (int)ks_u("key", 32); }
static void same(L &l, M &m, const char *what) {
  bool ok = true; unsigned i = 0; for (L::Iterator it = l.begin(); it != l.end() && i <= m.n; ++it, ++i) if (i < m.n) ok = ok & ((*it).key == m.k[i]) & ((*it).id == m.d[i]);
  ks_check(i == m.n, what); ks_check(ok, what); ks_check(l.size() == m.n && l.empty() == (m.n == 0), "the size agrees with the sequence");
  if (i != m.n) return;
  L::Iterator p = l.before_begin(); for (unsigned j = 0; j < m.n; j++) ++p; ks_check(l.before_end() == p, "the last position is the last element"); L const &c = l; ks_check(c.before_end() == p && c.cbefore_end() == p && c.begin() == l.begin(), "the last position is the last element");
  if (m.n) { ks_check(l.front().id == m.d[0] && c.front().id == m.d[0] && l.back().id == m.d[m.n - 1] && c.back().id == m.d[m.n - 1], "front and back"); } }
static L::Iterator at(L &l, unsigned i) { L::Iterator p = l.before_begin(); while (i--) ++p; return p; } // the position before element i
static void build(L &l, M &m, unsigned n) { for (unsigned i = 0; i < n; i++) { int k = key(), d = ids++; l.push_back(E(k, d)); m.ins(m.n, k, d); } }
static void step(L &a, M &ma, L &b, M &mb) {
  switch (ks_choose(33, "op")) {
    case 0: { int k = key(), d = ids++; E e(k, d); a.push_front(e); ma.ins(0, k, d); break; }
    case 1: { int k = key(), d = ids++; E e(k, d); a.push_back(e); ma.ins(ma.n, k, d); break; }
    case 2: { int k = key(), d = ids++; a.emplace_front(k, d); ma.ins(0, k, d); break; }
    case 3: { int k = key(), d = ids++; a.emplace_back(k, d); ma.ins(ma.n, k, d); break; }
    case 4: { unsigned p = ks_choose(ma.n + 1, "pos"); int k = key(), d = ids++; E e(k, d); a.insert_after(CI(at(a, p)), e); ma.ins(p, k, d); break; }
    case 5: { unsigned p = ks_choose(ma.n + 1, "pos"); int k = key(), d = ids++; a.emplace_after(CI(at(a, p)), k, d); ma.ins(p, k, d); break; }
    case 6: { unsigned p = ks_choose(ma.n + 1, "pos"), c = ks_choose(3, "count"); int k = key(), d = ids++; E e(k, d); a.insert_after(CI(at(a, p)), (L::SizeType)c, e); for (unsigned i = 0; i < c; i++) ma.ins(p, k, d); break; }
    case 7: { unsigned p = ks_choose(ma.n + 1, "pos"), c = ks_choose(3, "count"); int k[2] = {key(), key()}, d[2]; d[0] = ids++; d[1] = ids++; E e[2] = {E(k[0], d[0]), E(k[1], d[1])}; a.insert_after(CI(at(a, p)), e, e + c); for (unsigned i = 0; i < c; i++) ma.ins(p + i, k[i], d[i]); break; }
    case 8: if (ma.n) { a.pop_front(); ma.del(0); } break;
    case 9: if (ma.n) { unsigned p = ks_choose(ma.n, "pos"); L::Iterator r = a.erase_after(CI(at(a, p))); ma.del(p); ks_check(r == at(a, p).next(), "erasing returns the next position"); ks_reach("erased"); } break;
    case 10: { unsigned p = ks_choose(ma.n + 1, "pos"), c = ks_choose(ma.n - p + 1, "count"); CI last(at(a, p + c).next()); L::Iterator r = a.erase_after(CI(at(a, p)), last); while (c--) ma.del(p); ks_check(r == at(a, p).next(), "erasing returns the next position"); break; }
    case 11: a.clear(); ma.n = 0; break;
    case 12: { unsigned c = ks_choose(5, "size"); a.resize(c); while (ma.n > c) ma.n--; while (ma.n < c) ma.ins(ma.n, 0, -5); break; }
    case 13: { unsigned c = ks_choose(5, "size"); int k = key(), d = ids++; E e(k, d); a.resize(c, e); while (ma.n > c) ma.n--; while (ma.n < c) ma.ins(ma.n, k, d); ks_reach("resized"); break; }
    case 14: { unsigned c = ks_choose(5, "size"); int k = key(), d = ids++; E e(k, d); a.assign((L::SizeType)c, e); ma.n = 0; while (ma.n < c) ma.ins(ma.n, k, d); ks_reach("assigned"); break; }
    case 15: { unsigned c = ks_choose(4, "size"); int k[3] = {key(), key(), key()}, d[3]; for (int i = 0; i < 3; i++) d[i] = ids++; E e[3] = {E(k[0], d[0]), E(k[1], d[1]), E(k[2], d[2])}; a.assign(e, e + c); ma.n = 0; while (ma.n < c) ma.ins(ma.n, k[ma.n], d[ma.n]); break; }
    case 16: { unsigned p = ks_choose(ma.n + 1, "pos"); a.splice_after(CI(at(a, p)), b); for (unsigned i = 0; i < mb.n; i++) ma.ins(p + i, mb.k[i], mb.d[i]); mb.n = 0; ks_reach("spliced"); break; }
    case 17: if (mb.n) { unsigned p = ks_choose(ma.n + 1, "pos"), q = ks_choose(mb.n, "from"); a.splice_after(CI(at(a, p)), b, CI(at(b, q))); ma.ins(p, mb.k[q], mb.d[q]); mb.del(q); } break;
    case 18: { unsigned p = ks_choose(ma.n + 1, "pos"), q = ks_choose(mb.n + 1, "from"), c = ks_choose(mb.n - q + 1, "count"); a.splice_after(CI(at(a, p)), b, CI(at(b, q)), CI(at(b, q + c).next())); for (unsigned i = 0; i < c; i++) { ma.ins(p + i, mb.k[q], mb.d[q]); mb.del(q); } if (c > 1) ks_reach("spliced range"); break; }
    case 19: { a.swap(b); M t = ma; ma = mb; mb = t; break; }
    case 20: a = b; ma = mb; ks_reach("copied"); break;
    case 21: { a = std::move(b); M t = ma; ma = mb; mb = t; // which elements the moved-from list keeps is unspecified
      b.clear(); mb.n = 0; (void)t; break; }
    case 22: { L c(b); same(b, mb, "a copied list is unchanged"); same(c, mb, "a copy holds the same sequence"); a = std::move(c); ma = mb; break; }
    case 23: { L c(std::move(b)); same(c, mb, "a moved-to list holds the sequence"); M e; same(b, e, "a moved-from list is empty"); int k = key(), d = ids++; c.push_back(E(k, d)); mb.ins(mb.n, k, d); b = std::move(c); break; }
    case 24: { a.reverse(); for (unsigned i = 0, j = ma.n; i + 1 < j; i++) { j--; int t = ma.k[i]; ma.k[i] = ma.k[j]; ma.k[j] = t; t = ma.d[i]; ma.d[i] = ma.d[j]; ma.d[j] = t; } if (ma.n > 2) ks_reach("reversed"); break; }
    case 25: if (ma.n) { b.push_back(a.extract_front()); mb.ins(mb.n, ma.k[0], ma.d[0]); ma.del(0); } break;
    case 26: if (ma.n) { b.push_front(a.extract_front()); mb.ins(0, ma.k[0], ma.d[0]); ma.del(0); } break;
    case 27: if (ma.n) { unsigned p = ks_choose(ma.n, "pos"), q = ks_choose(mb.n + 1, "to"); b.insert_after(CI(at(b, q)), a.extract_after(CI(at(a, p)))); mb.ins(q, ma.k[p], ma.d[p]); ma.del(p); } break;
    case 28: { L &r = a; a = r; break; }
    case 29: { E e[3] = {E(key(), ids++), E(key(), ids++), E(key(), ids++)}; L c({e[0], e[1], e[2]}); ma.n = 0; for (int i = 0; i < 3; i++) ma.ins(i, e[i].key, e[i].id); same(c, ma, "a list from a braced list"); a.swap(c); break; }
    case 30: { int k = key(), d = ids++; E e(k, d); unsigned c = ks_choose(3, "count"); L l((L::SizeType)c, e); ma.n = 0; while (ma.n < c) ma.ins(ma.n, k, d); a = std::move(l); break; }
    case 31: { bool eq = ma.n == mb.n; for (unsigned i = 0; i < ma.n && i < mb.n; i++) eq = eq & (ma.k[i] == mb.k[i]); ks_check((a == b) == eq, "equality is equality of the sequences"); ks_check((a != b) == !eq, "inequality is its negation"); break; }
    case 32: { int c = 0; for (unsigned i = 0; !c && i < ma.n && i < mb.n; i++) c = ma.k[i] < mb.k[i] ? -1 : ma.k[i] > mb.k[i] ? 1 : 0; if (!c) c = ma.n < mb.n ? -1 : ma.n > mb.n ? 1 : 0; ks_check((a < b) == (c < 0) && (a > b) == (c > 0) && (a <= b) == (c <= 0) && (a >= b) == (c >= 0), "lists order lexicographically"); break; }
  } }
static void finish() { ks_check(live == 0, "every element is destroyed exactly once"); ks_check(!ks_symbolic() || ks_live_heap() == 0, "no node is leaked"); ks_reach("done"); }
KS_HARNESS harness_ops() {
  { L a, b; M ma, mb; build(a, ma, ks_choose(KS_M + 1, "na")); build(b, mb, ks_choose(3, "nb"));
    for (int s = 0; s < KS_STEPS; s++) { step(a, ma, b, mb); same(a, ma, "the list holds the sequence its operations define"); same(b, mb, "the other list holds the sequence its operations define"); ks_check(live == (long)(ma.n + mb.n), "exactly the elements present are alive"); } }
  finish(); }
// sort, merge: order, stability, nothing lost
static void stable(M &m) { for (unsigned i = 1; i < m.n; i++) for (unsigned j = i; j > 0 && m.k[j] < m.k[j - 1]; j--) { int t = m.k[j]; m.k[j] = m.k[j - 1]; m.k[j - 1] = t; t = m.d[j]; m.d[j] = m.d[j - 1]; m.d[j - 1] = t; } }
static void tail(L &l, M &m) { int k = key(), d = ids++; l.push_back(E(k, d)); m.ins(m.n, k, d); k = key(); d = ids++; l.push_front(E(k, d)); m.ins(0, k, d); same(l, m, "the list stays usable"); }
KS_HARNESS harness_sort() { { L a; M ma; build(a, ma, ks_choose(KS_SORT + 1, "n")); a.sort(); stable(ma); same(a, ma, "sorting is a stable permutation into order"); ks_check(live == (long)ma.n, "no element is lost"); tail(a, ma); } finish(); }
KS_HARNESS harness_sort2() { { L a; M ma; unsigned n = ks_choose(KS_SORT, "n"); build(a, ma, n); int w = (int)ks_u("witness", 32); unsigned before = 0, after = 0; for (unsigned i = 0; i < n; i++) before += ma.k[i] == w; a.sort2(); ks_check(a.size() == n, "sorting keeps the size"); bool ok = true; unsigned i = 0; int prev = 0; for (L::Iterator it = a.begin(); it != a.end(); ++it, ++i) { ok = ok & ((i == 0) | (prev <= (*it).key)); prev = (*it).key; after += (*it).key == w; } ks_check(i == n && ok, "the list is in order"); ks_check(before == after, "sorting is a permutation"); if (n) ks_check(a.back().key == prev, "the last element is at the end"); } finish(); }
KS_HARNESS harness_merge() { { L a, b; M ma, mb, r; unsigned n = ks_choose(KS_MERGE + 1, "na"), k = ks_choose(KS_MERGE + 1, "nb"); build(a, ma, n); build(b, mb, k); for (unsigned i = 1; i < n; i++) ks_assume(ma.k[i - 1] <= ma.k[i]); for (unsigned i = 1; i < k; i++) ks_assume(mb.k[i - 1] <= mb.k[i]);
  a.merge(b); unsigned i = 0, j = 0; while (i < n || j < k) { bool fromb = i == n || (j < k && mb.k[j] < ma.k[i]); if (fromb) { r.ins(r.n, mb.k[j], mb.d[j]); j++; } else { r.ins(r.n, ma.k[i], ma.d[i]); i++; } }
  same(a, r, "merging interleaves in order, own elements first"); M e; same(b, e, "a merged list is empty"); tail(b, e); tail(a, r); if (n && k) ks_reach("merged"); } finish(); }
KS_HARNESS harness_selfmerge() { { L a; M ma; unsigned n = ks_choose(4, "n"); build(a, ma, n); for (unsigned i = 1; i < n; i++) ks_assume(ma.k[i - 1] <= ma.k[i]); a.merge(a); same(a, ma, "merging a list with itself changes nothing"); } finish(); }
KS_HARNESS harness_remove() { { L a; M ma; build(a, ma, ks_choose(KS_REM + 1, "n")); int w = key();
  switch (ks_choose(5, "kind")) {
    case 0: { unsigned r = (unsigned)a.remove(E(w, 0)); M m; for (unsigned i = 0; i < ma.n; i++) if (ma.k[i] != w) m.ins(m.n, ma.k[i], ma.d[i]); ks_check(r == ma.n - m.n, "remove returns how many it removed"); ma = m; break; }
    case 1: { unsigned r = (unsigned)a.remove_if([w](E const &e) { return e.key > w; }); M m; for (unsigned i = 0; i < ma.n; i++) if (!(ma.k[i] > w)) m.ins(m.n, ma.k[i], ma.d[i]); ks_check(r == ma.n - m.n, "remove_if returns how many it removed"); ma = m; break; }
    case 2: { unsigned r = (unsigned)a.unique(); M m; for (unsigned i = 0; i < ma.n; i++) if (!m.n || m.k[m.n - 1] != ma.k[i]) m.ins(m.n, ma.k[i], ma.d[i]); ks_check(r == ma.n - m.n, "unique returns how many it removed"); ma = m; ks_reach("unique"); break; }
    case 3: { unsigned i = 0; while (i < ma.n && ma.k[i] != w) i++; L::Iterator p = a.search_before(E(w, 0)); if (i == ma.n) ks_check(p == a.end(), "searching reports absence"); else ks_check(p == at(a, i), "searching finds the position before the first match"); break; }
    case 4: { unsigned s = ks_choose(ma.n + 1, "start"), i = s; while (i < ma.n && ma.k[i] != w) i++; L::Iterator p = a.search_before(E(w, 0), CI(at(a, s))); if (i == ma.n) ks_check(p == a.end(), "searching reports absence"); else ks_check(p == at(a, i), "searching starts behind the given position"); break; }
  }
  same(a, ma, "removal keeps the other elements in order"); tail(a, ma); } finish(); }
// ---- an element of the list itself as the argument; splicing within one list
KS_HARNESS harness_alias() { { L a; M ma; build(a, ma, 1 + ks_choose(KS_M, "n")); unsigned n = ma.n, j = ks_choose(n, "element"); E const &v = *at(a, j).next(); int w = ma.k[j], d = ma.d[j];
  switch (ks_choose(6, "kind")) {
    case 0: { unsigned r = (unsigned)a.remove(v); M m; for (unsigned i = 0; i < n; i++) if (ma.k[i] != w) m.ins(m.n, ma.k[i], ma.d[i]); ks_check(r == n - m.n, "remove returns how many it removed"); ma = m; break; }
    case 1: a.push_front(v); ma.ins(0, w, d); break;
    case 2: a.push_back(v); ma.ins(n, w, d); break;
    case 3: { unsigned p = ks_choose(n + 1, "pos"); a.insert_after(CI(at(a, p)), v); ma.ins(p, w, d); break; }
    case 4: { unsigned p = ks_choose(n + 1, "pos"), c = ks_choose(3, "count"); a.insert_after(CI(at(a, p)), (L::SizeType)c, v); for (unsigned i = 0; i < c; i++) ma.ins(p, w, d); break; }
    case 5: { unsigned c = ks_choose(KS_M + 3, "size"); a.resize(c, v); while (ma.n > c) ma.n--; while (ma.n < c) ma.ins(ma.n, w, d); break; }
  }
  same(a, ma, "an element of the list can be the value used"); tail(a, ma); } finish(); }
static void move1(M &m, unsigned q, unsigned p) { int k = m.k[q], d = m.d[q]; if (p == q || p == q + 1) return; m.del(q); m.ins(p > q ? p - 1 : p, k, d); }
KS_HARNESS harness_selfsplice() { { L a; M ma; build(a, ma, 1 + ks_choose(KS_M, "n")); unsigned n = ma.n, p = ks_choose(n + 1, "pos"), q = ks_choose(n, "from");
  if (ks_choose(2, "range")) { unsigned c = ks_choose(n - q + 1, "count"); if (!c && p > q) ks_reach("empty"); ks_assume(p <= q || p > q + c); a.splice_after(CI(at(a, p)), a, CI(at(a, q)), CI(at(a, q + c).next())); for (unsigned i = 0; i < c; i++) if (p <= q) move1(ma, q + i, p + i); else move1(ma, q, p); ks_reach("range"); }
  else { a.splice_after(CI(at(a, p)), a, CI(at(a, q))); move1(ma, q, p); }
  same(a, ma, "splicing within one list moves the elements"); tail(a, ma); } finish(); }
