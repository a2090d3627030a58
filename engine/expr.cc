#include "expr.h"
#include <z3.h>
#include <algorithm>
#include <climits>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <chrono>
#include <unordered_set>

std::vector<VarInfo> g_vars;
SolverStats g_ss;
unsigned g_solverTimeoutMs = 20000;
uint64_t g_deadlineMs = 0;
uint64_t nowMs() { return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ---------------------------------------------------------------- hash consing
static Expr *arenaCur = nullptr; static size_t arenaLeft = 0;
static Expr *newNode() {
  if (!arenaLeft) { arenaLeft = 8192; arenaCur = (Expr *)malloc(sizeof(Expr) * arenaLeft); }
  --arenaLeft; return arenaCur++;
}
static inline uint64_t hmix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL; }
struct Hs { size_t operator()(const Expr *e) const {
  uint64_t h = e->op * 131 + e->w; h = hmix(h, e->c); h = hmix(h, e->aux); h = hmix(h, e->a ? e->a->id : 0); h = hmix(h, e->b ? e->b->id : 0); h = hmix(h, e->d ? e->d->id : 0); h = hmix(h, (uint64_t)e->tbl); return h ^ (h >> 29); } };
struct Eqs { bool operator()(const Expr *x, const Expr *y) const {
  return x->op == y->op && x->w == y->w && x->c == y->c && x->aux == y->aux && x->a == y->a && x->b == y->b && x->d == y->d && x->tbl == y->tbl; } };
static std::unordered_set<const Expr *, Hs, Eqs> table;
static uint32_t nextId = 1;

static void computeRange(Expr *n);
static E intern(Op op, unsigned w, uint64_t c, uint32_t aux, E a, E b, E d, const Table *tbl = nullptr) {
  Expr t; memset(&t, 0, sizeof t);
  t.op = op; t.w = w; t.c = c; t.aux = aux; t.a = a; t.b = b; t.d = d; t.tbl = tbl;
  auto it = table.find(&t);
  if (it != table.end()) return *it;
  Expr *n = newNode(); *n = t; n->id = nextId++;
  n->uninit = (a && a->uninit) || (b && b->uninit) || (d && d->uninit);
  if (op == O_VAR) n->uninit = g_vars[aux].uninit;
  computeRange(n);
  table.insert(n); return n;
}
E mkConst(uint64_t v, unsigned w) {
  v &= maskw(w);
  static E cache[65][257];
  if (v <= 256) { E &s = cache[w][v]; if (!s) s = intern(O_CONST, w, v, 0, 0, 0, 0); return s; }
  return intern(O_CONST, w, v, 0, 0, 0, 0);
}
E mkVar(const std::string &name, unsigned w, bool uninit) {
  g_vars.push_back({name, w, false, 0, uninit});
  return intern(O_VAR, w, 0, g_vars.size() - 1, 0, 0, 0);
}
E mkRanged(const std::string &name, unsigned w, uint64_t lo, uint64_t hi, E *cond) { // a variable known to lie in lo..hi; *cond must join the path condition unsimplified
  E v = mkVar(name, w); E a = intern(O_ULE, 1, 0, 0, mkConst(lo, w), v, 0), b = intern(O_ULE, 1, 0, 0, v, mkConst(hi, w), 0); *cond = intern(O_AND, 1, 0, 0, a, b, 0);
  Expr *x = (Expr *)v; x->umin = lo; x->umax = hi; return v; }
uint32_t newArrayVar(const std::string &name, uint64_t cap) { g_vars.push_back({name, 8, true, cap, false}); return g_vars.size() - 1; }
E mkRead(uint32_t arr, E idx) { return intern(O_READ, 8, 0, arr, idx, 0, 0); }
const Table *internTable(Table &&t) {
  static std::unordered_map<uint64_t, std::vector<const Table *>> all; uint64_t h = t.bytes.size(); for (uint8_t b : t.bytes) h = (h ^ b) * 0x100000001b3ull; for (E e : t.syms) h = (h ^ (e ? e->id : 0)) * 0x100000001b3ull;
  auto &v = all[h]; for (const Table *x : v) if (x->bytes == t.bytes && x->syms == t.syms) return x;
  v.push_back(new Table(std::move(t))); return v.back();
}
E mkTbl(const Table *t, E idx) {
  if (isC(idx)) { if (idx->c < t->bytes.size()) return t->syms.size() && t->syms[idx->c] ? t->syms[idx->c] : mkConst(t->bytes[idx->c], 8); return mkConst(0, 8); }
  // restrict to range
  uint64_t lo = idx->umin, hi = std::min<uint64_t>(idx->umax, t->bytes.empty() ? 0 : t->bytes.size() - 1);
  if (lo > hi) return mkConst(0, 8);
  bool allsame = t->syms.empty() || (hi - lo < 4096);
  E f = nullptr;
  if (hi - lo > 100000) allsame = false;
  for (uint64_t i = lo; allsame && i <= hi; i++) { E x = t->syms.size() && t->syms[i] ? t->syms[i] : mkConst(t->bytes[i], 8); if (!f) f = x; else if (f != x) allsame = false; }
  if (allsame && f) return f;
  bool hasSym = false;
  for (uint64_t i = lo; i <= hi && !hasSym; i++) if (t->syms.size() && t->syms[i]) hasSym = true;
  if (hasSym || hi - lo < 12) {
    E r = t->syms.size() && t->syms[hi] ? t->syms[hi] : mkConst(t->bytes[hi], 8);
    for (uint64_t i = hi; i-- > lo;) { E x = t->syms.size() && t->syms[i] ? t->syms[i] : mkConst(t->bytes[i], 8); r = mkIte(mkEq(idx, mkConst(i, idx->w)), x, r); if (i == 0) break; }
    return r;
  }
  return intern(O_TBL, 8, 0, 0, idx, 0, 0, t);
}

static void computeRange(Expr *n) {
  uint64_t M = maskw(n->w); n->umin = 0; n->umax = M;
  E a = n->a, b = n->b;
  switch (n->op) {
  case O_CONST: n->umin = n->umax = n->c; break;
  case O_MUL: { unsigned __int128 hi = (unsigned __int128)a->umax * b->umax; if (hi <= M) { n->umax = (uint64_t)hi; n->umin = a->umin * b->umin; } break; }
  case O_UDIV: if (b->umin > 0) { n->umax = a->umax / b->umin; n->umin = a->umin / b->umax; } break;
  case O_UREM: if (b->umin > 0) { n->umax = std::min(a->umax, b->umax - 1); } break;
  case O_AND: n->umax = std::min(a->umax, b->umax); break;
  case O_OR: { n->umin = std::max(a->umin, b->umin); uint64_t m = a->umax | b->umax; if (m) { int l = 63 - __builtin_clzll(m); n->umax = maskw(l + 1); } else n->umax = 0; break; }
  case O_XOR: { uint64_t m = a->umax | b->umax; if (m) { int l = 63 - __builtin_clzll(m); n->umax = maskw(l + 1) & M; } else n->umax = 0; break; }
  case O_SHL: if (isC(b) && b->c < n->w) { unsigned __int128 h = (unsigned __int128)a->umax << b->c; if (h <= M) { n->umax = (uint64_t)h; n->umin = a->umin << b->c; } } break;
  case O_LSHR: if (isC(b) && b->c < n->w) { n->umax = a->umax >> b->c; n->umin = a->umin >> b->c; } else n->umax = a->umax; break;
  case O_CONCAT: n->umin = (a->umin << b->w) | b->umin; n->umax = (a->umax << b->w) | b->umax; break;
  case O_EXTRACT: if (n->aux == 0 && a->umax <= M) { n->umin = a->umin; n->umax = a->umax; } else if (n->aux && (a->umax >> n->aux) <= M) { n->umin = a->umin >> n->aux; n->umax = a->umax >> n->aux; } break;
  case O_ZEXT: n->umin = a->umin; n->umax = a->umax; break;
  case O_SEXT: if (a->umax < (1ULL << (a->w - 1))) { n->umin = a->umin; n->umax = a->umax; } break;
  case O_ITE: n->umin = std::min(n->b->umin, n->d->umin); n->umax = std::max(n->b->umax, n->d->umax); break;
  default: break;
  }
}

// ---------------------------------------------------------------- linear forms
struct Lin { uint64_t k = 0; std::vector<std::pair<E, uint64_t>> t; };
static bool linAdd(Lin &l, E e, uint64_t coef, int &budget) {
  uint64_t M = maskw(e->w);
  if (isC(e)) { l.k = (l.k + e->c * coef) & M; return true; }
  if (e->op == O_ADD) return linAdd(l, e->a, coef, budget) && linAdd(l, e->b, coef, budget);
  if (e->op == O_MUL && isC(e->b)) return linAdd(l, e->a, coef * e->b->c, budget);
  if (--budget < 0) return false;
  for (auto &p : l.t) if (p.first == e) { p.second = (p.second + coef) & M; return true; }
  l.t.push_back({e, coef & M}); return true;
}
static E linBuild(Lin &l, unsigned w) {
  for (int g = 0; g < 4; g++) { // c * (x / c) + x % c is x
    bool ch = false;
    for (size_t i = 0; i < l.t.size() && !ch; i++) if (l.t[i].second && l.t[i].first->op == O_UREM && isC(l.t[i].first->b) && l.t[i].first->b->c)
      for (size_t j = 0; j < l.t.size() && !ch; j++) { E q = l.t[j].first, r = l.t[i].first; if (q->op == O_UDIV && q->a == r->a && q->b == r->b && l.t[j].second && l.t[j].second == ((l.t[i].second * r->b->c) & maskw(w))) { uint64_t k = l.t[i].second; l.t[i].second = l.t[j].second = 0; int bud = 24; Lin s = l; if (linAdd(s, r->a, k, bud)) { l = s; ch = true; } else { l.t[i].second = k; l.t[j].second = (k * r->b->c) & maskw(w); } } }
    if (!ch) break;
  }
  l.t.erase(std::remove_if(l.t.begin(), l.t.end(), [](const std::pair<E, uint64_t> &p) { return p.second == 0; }), l.t.end());
  if (l.t.empty()) return mkConst(l.k, w);
  std::sort(l.t.begin(), l.t.end(), [](const std::pair<E, uint64_t> &x, const std::pair<E, uint64_t> &y) { return x.first->id < y.first->id; });
  // interval of the whole in signed 128 arithmetic
  __int128 lo = sextw(l.k, w), hi = lo; E r = nullptr;
  uint64_t M = maskw(w);
  for (auto &p : l.t) {
    int64_t c = sextw(p.second, w);
    E term = p.second == 1 ? p.first : intern(O_MUL, w, 0, 0, p.first, mkConst(p.second, w), 0);
    if (c >= 0) { lo += (__int128)c * p.first->umin; hi += (__int128)c * p.first->umax; } else { lo += (__int128)c * p.first->umax; hi += (__int128)c * p.first->umin; }
    r = r ? intern(O_ADD, w, 0, 0, r, term, 0) : term;
  }
  if (l.k) r = intern(O_ADD, w, 0, 0, r, mkConst(l.k, w), 0);
  if (lo >= 0 && hi <= (__int128)M) { Expr *x = (Expr *)r; x->umin = std::max<uint64_t>(x->umin, (uint64_t)lo); x->umax = std::min<uint64_t>(x->umax, (uint64_t)hi); if (x->umin > x->umax) { x->umin = (uint64_t)lo; x->umax = (uint64_t)hi; } }
  return r;
}
// the 64-bit exact value of a narrower linear form (equal to its zero extension iff the result is below 2^w)
E widenLin(E e) {
  if (e->w <= 32 && e->w >= 16 && e->op == O_EXTRACT && e->aux == 0 && e->a->w == 64) return e->a;
  if (e->w > 32 || (e->op != O_ADD && e->op != O_MUL)) return nullptr;
  Lin l; int bud = 12; if (!linAdd(l, e, 1, bud)) return nullptr;
  Lin r; r.k = (uint64_t)sextw(l.k, e->w);
  for (auto &p : l.t) { if (!p.second) continue; int64_t c = sextw(p.second, e->w); if (c > 64 || c < -64) return nullptr; E z = mkZext(p.first, 64); int b2 = 24; if (!linAdd(r, z, (uint64_t)c, b2)) return nullptr; }
  return linBuild(r, 64);
}
static bool linOf(E a, E b, uint64_t cb, Lin &l) { int bud = 24; return linAdd(l, a, 1, bud) && linAdd(l, b, cb, bud); }
E mkAdd(E a, E b) {
  unsigned w = a->w;
  if (isC(a) && isC(b)) return mkConst(a->c + b->c, w);
  if (isC(a) && a->c == 0) return b;
  if (isC(b) && b->c == 0) return a;
  if (w == 1) return mkXor(a, b);
  if (isC(b) && a->op == O_ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkAdd(a->b, b), mkAdd(a->d, b));
  if (isC(a) && b->op == O_ITE && isC(b->b) && isC(b->d)) return mkIte(b->a, mkAdd(b->b, a), mkAdd(b->d, a));
  Lin l; if (linOf(a, b, 1, l)) return linBuild(l, w);
  return intern(O_ADD, w, 0, 0, a, b, 0);
}
E mkNeg(E a) { return mkMul(a, mkConst(~0ULL, a->w)); }
E mkSub(E a, E b) {
  unsigned w = a->w;
  if (a == b) return mkConst(0, w);
  if (isC(a) && isC(b)) return mkConst(a->c - b->c, w);
  if (isC(b) && b->c == 0) return a;
  if (w == 1) return mkXor(a, b);
  if (isC(b)) return mkAdd(a, mkConst(-b->c, w));
  Lin l; if (linOf(a, b, maskw(w), l)) return linBuild(l, w);
  return intern(O_ADD, w, 0, 0, a, mkNeg(b), 0);
}
E mkMul(E a, E b) {
  unsigned w = a->w;
  if (isC(a)) std::swap(a, b);
  if (isC(a)) return mkConst(a->c * b->c, w);
  if (isC(b)) {
    if (b->c == 0) return b;
    if (b->c == 1) return a;
    Lin l; int bud = 24; if (linAdd(l, a, b->c, bud)) { return linBuild(l, w); }
    return intern(O_MUL, w, 0, 0, a, b, 0);
  }
  if (w == 1) return mkAnd(a, b);
  if (a->id > b->id) std::swap(a, b);
  return intern(O_MUL, w, 0, 0, a, b, 0);
}
E mkDiv(Op op, E a, E b) {
  unsigned w = a->w; uint64_t M = maskw(w);
  if (isC(a) && isC(b) && b->c) {
    int64_t x = sextw(a->c, w), y = sextw(b->c, w);
    switch (op) { case O_UDIV: return mkConst(a->c / b->c, w); case O_UREM: return mkConst(a->c % b->c, w);
      case O_SDIV: if (y == -1) return mkConst(-(uint64_t)x, w); return mkConst(x / y, w);
      default: if (y == -1) return mkConst(0, w); return mkConst(x % y, w); }
  }
  // signed ops on provably non-negative operands become unsigned
  uint64_t sgn = 1ULL << (w - 1);
  if ((op == O_SDIV || op == O_SREM) && a->umax < sgn && b->umax < sgn) op = op == O_SDIV ? O_UDIV : O_UREM;
  if (isC(b)) {
    if (b->c == 1) return (op == O_UDIV || op == O_SDIV) ? a : mkConst(0, w);
    if (b->c && (b->c & (b->c - 1)) == 0) {
      int k = __builtin_ctzll(b->c);
      if (op == O_UDIV) return mkShift(O_LSHR, a, mkConst(k, w));
      if (op == O_UREM) return mkAnd(a, mkConst(b->c - 1, w));
    }
    if (op == O_UDIV && a->umax < b->c) return mkConst(0, w);
    if (op == O_UREM && a->umax < b->c) return a;
  }
  if (isC(b) && b->c && b->c < (1ULL << (w - 1))) {
    if ((op == O_SDIV || op == O_SREM) && !(a->op == O_SEXT && a->a->w > 1 && b->c < (1ULL << (a->a->w - 1)))) { // to unsigned, so that equal magnitudes share terms
      if (a->op == O_ITE && b->c > 1) return mkIte(a->a, mkDiv(op, a->b, b), mkDiv(op, a->d, b));
      E na = mkNeg(a); if (na->umax < sgn) return mkNeg(mkDiv(op == O_SDIV ? O_UDIV : O_UREM, na, b));
      Op u = op == O_SDIV ? O_UDIV : O_UREM; return mkIte(mkSlt(a, mkConst(0, w)), mkNeg(mkDiv(u, na, b)), mkDiv(u, a, b));
    }
    if ((op == O_UDIV || op == O_UREM) && (a->op == O_ADD || a->op == O_MUL)) { // multiples of the divisor split off (only when nothing wraps around)
      Lin l; int bud = 12; uint64_t c = b->c;
      if (linAdd(l, a, 1, bud)) {
        unsigned __int128 hi = l.k; bool ok = true; Lin q, r; q.k = l.k / c; r.k = l.k % c; unsigned __int128 rh = r.k; bool any = q.k != 0;
        for (auto &p : l.t) { if (p.second == 0) continue; hi += (unsigned __int128)p.second * p.first->umax; if (hi > M) { ok = false; break; } if (p.second % c == 0) { q.t.push_back({p.first, p.second / c}); any = true; } else { r.t.push_back(p); rh += (unsigned __int128)p.second * p.first->umax; } }
        if (ok && any && rh < c) return op == O_UDIV ? linBuild(q, w) : linBuild(r, w);
        if (ok && any && !q.t.empty() && rh <= M) { E rest = linBuild(r, w); return op == O_UDIV ? mkAdd(linBuild(q, w), mkDiv(op, rest, b)) : mkDiv(op, rest, b); }
      }
    }
    // division chains and divisions of extended values
    if (op == O_UDIV && a->op == O_UDIV && isC(a->b) && a->b->c) { unsigned __int128 p = (unsigned __int128)a->b->c * b->c; return p > M ? mkConst(0, w) : mkDiv(O_UDIV, a->a, mkConst((uint64_t)p, w)); }
    if (op == O_SDIV && a->op == O_SDIV && isC(a->b) && a->b->c && a->b->c < (1ULL << (w - 1))) { unsigned __int128 p = (unsigned __int128)a->b->c * b->c; if (p < (1ULL << (w - 1))) return mkDiv(O_SDIV, a->a, mkConst((uint64_t)p, w)); if (p > (1ULL << (w - 1))) return mkConst(0, w); }
    if ((op == O_UDIV || op == O_UREM) && a->op == O_ZEXT && b->c <= maskw(a->a->w)) return mkZext(mkDiv(op, a->a, mkConst(b->c, a->a->w)), w);
    if ((op == O_SDIV || op == O_SREM) && a->op == O_SEXT && a->a->w > 1 && b->c < (1ULL << (a->a->w - 1))) return mkSext(mkDiv(op, a->a, mkConst(b->c, a->a->w)), w);
  }
  return intern(op, w, 0, 0, a, b, 0);
}
E mkAnd(E a, E b) {
  unsigned w = a->w;
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (isC(a)) return mkConst(a->c & b->c, w);
    if (b->c == 0) return b;
    if (b->c == maskw(w)) return a;
    // mask of low bits
    uint64_t m = b->c;
    if ((m & (m + 1)) == 0) { unsigned k = __builtin_popcountll(m); if (a->umax <= m) return a; return mkZext(mkExtract(a, 0, k), w); }
    if (a->op == O_AND && isC(a->b)) return mkAnd(a->a, mkConst(a->b->c & m, w));
    if (a->op == O_ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkAnd(a->b, b), mkAnd(a->d, b));
    return intern(O_AND, w, 0, 0, a, b, 0);
  }
  if (a == b) return a;
  if (w == 1) {
    if (a->op == O_XOR && isC(a->b) && a->a == b) return mkConst(0, 1);
    if (b->op == O_XOR && isC(b->b) && b->a == a) return mkConst(0, 1);
  }
  if (a->id > b->id) std::swap(a, b);
  return intern(O_AND, w, 0, 0, a, b, 0);
}
static bool disjointBits(E hi, E lo) { // hi is a shl/concat with zero low part, lo small
  if (hi->op == O_CONCAT && isC(hi->b) && hi->b->c == 0 && lo->umax <= maskw(hi->b->w)) return true;
  return false;
}
E mkOr(E a, E b) {
  unsigned w = a->w;
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (isC(a)) return mkConst(a->c | b->c, w);
    if (b->c == 0) return a;
    if (b->c == maskw(w)) return b;
    if (a->op == O_ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkOr(a->b, b), mkOr(a->d, b));
    return intern(O_OR, w, 0, 0, a, b, 0);
  }
  if (a == b) return a;
  if (w == 1) {
    if (a->op == O_XOR && isC(a->b) && a->a == b) return mkConst(1, 1);
    if (b->op == O_XOR && isC(b->b) && b->a == a) return mkConst(1, 1);
  }
  if (disjointBits(b, a)) std::swap(a, b);
  if (disjointBits(a, b)) return mkConcat(a->a, mkExtract(b, 0, a->b->w));
  // (x zext) | (y zext shifted) where x's upper part is a known-zero region handled by CONCAT above
  if (a->id > b->id) std::swap(a, b);
  return intern(O_OR, w, 0, 0, a, b, 0);
}
E mkNot(E a) { return mkXor(a, mkConst(~0ULL, a->w)); }
E mkXor(E a, E b) {
  unsigned w = a->w;
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (isC(a)) return mkConst(a->c ^ b->c, w);
    if (b->c == 0) return a;
    if (a->op == O_XOR && isC(a->b)) return mkXor(a->a, mkConst(a->b->c ^ b->c, w));
    if (w == 1) {
      switch (a->op) { case O_ULT: return mkUle(a->b, a->a); case O_ULE: return mkUlt(a->b, a->a); case O_SLT: return mkSle(a->b, a->a); case O_SLE: return mkSlt(a->b, a->a); default: break; }
    }
    if (a->op == O_ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkXor(a->b, b), mkXor(a->d, b));
    return intern(O_XOR, w, 0, 0, a, b, 0);
  }
  if (a == b) return mkConst(0, w);
  if (a->id > b->id) std::swap(a, b);
  return intern(O_XOR, w, 0, 0, a, b, 0);
}
E mkShift(Op op, E a, E b) {
  unsigned w = a->w;
  if (isC(b)) {
    uint64_t s = b->c;
    if (s == 0) return a;
    if (s >= w) { if (op == O_ASHR) s = w - 1; else return mkConst(0, w); }
    if (isC(a)) { switch (op) { case O_SHL: return mkConst(a->c << s, w); case O_LSHR: return mkConst(a->c >> s, w); default: return mkConst((uint64_t)(sextw(a->c, w) >> s), w); } }
    if (op == O_SHL) { // keep multiplication by small constants linear
      if (a->w == 64 && s <= 6 && a->op != O_ZEXT) return mkMul(a, mkConst(1ULL << s, w));
      return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
    }
    if (op == O_LSHR) return mkZext(mkExtract(a, s, w - s), w);
    if (a->umax < (1ULL << (w - 1))) return mkZext(mkExtract(a, s, w - s), w);
    return mkSext(mkExtract(a, s, w - s), w);
  }
  if (isC(a) && a->c == 0) return a;
  return intern(op, w, 0, 0, a, b, 0);
}
E mkConcat(E hi, E lo) {
  if (hi->op == O_ZEXT && hi->a->op == O_EXTRACT && lo->op == O_EXTRACT && hi->a->a == lo->a && hi->a->aux == lo->aux + lo->w) return mkZext(mkExtract(lo->a, lo->aux, hi->a->w + lo->w), hi->w + lo->w);
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
  if (isC(hi) && hi->c == 0) return mkZext(lo, w);
  if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->a == lo->a && hi->aux == lo->aux + lo->w) return mkExtract(hi->a, lo->aux, w);
  // lo is whole expression's truncated ... extract(e) above a plain e of smaller width handled: lo == extract(a,0) simplified
  if (hi->op == O_EXTRACT && lo->op == O_CONCAT && lo->a->op == O_EXTRACT && lo->a->a == hi->a && hi->aux == lo->a->aux + lo->a->w)
    return mkConcat(mkExtract(hi->a, lo->a->aux, hi->w + lo->a->w), lo->b);
  if (isC(hi) && lo->op == O_CONCAT && isC(lo->a)) return mkConcat(mkConcat(hi, lo->a), lo->b);
  if (hi->op == O_ITE && lo->op == O_ITE && hi->a == lo->a) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->d, lo->d));
  if (isC(hi) && lo->op == O_ITE && isC(lo->b) && isC(lo->d)) return mkIte(lo->a, mkConcat(hi, lo->b), mkConcat(hi, lo->d));
  return intern(O_CONCAT, w, 0, 0, hi, lo, 0);
}
E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  switch (a->op) {
  case O_CONST: return mkConst(a->c >> lo, w);
  case O_EXTRACT: return mkExtract(a->a, a->aux + lo, w);
  case O_CONCAT: { unsigned lw = a->b->w; if (lo + w <= lw) return mkExtract(a->b, lo, w); if (lo >= lw) return mkExtract(a->a, lo - lw, w); return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo)); }
  case O_ZEXT: { unsigned iw = a->a->w; if (lo >= iw) return mkConst(0, w); if (lo + w <= iw) return mkExtract(a->a, lo, w); return mkZext(mkExtract(a->a, lo, iw - lo), w); }
  case O_SEXT: { unsigned iw = a->a->w; if (lo + w <= iw) return mkExtract(a->a, lo, w); if (lo < iw) return mkSext(mkExtract(a->a, lo, iw - lo), w); break; }
  case O_ITE: if ((isC(a->b) || isC(a->d)) ) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->d, lo, w)); break;
  case O_AND: case O_OR: case O_XOR: { E x = mkExtract(a->a, lo, w), y = mkExtract(a->b, lo, w); return a->op == O_AND ? mkAnd(x, y) : a->op == O_OR ? mkOr(x, y) : mkXor(x, y); }
  default: break;
  }
  if (lo < 64 && (a->umax >> lo) == 0) return mkConst(0, w);
  return intern(O_EXTRACT, w, 0, lo, a, 0, 0);
}
E mkZext(E a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return mkConst(a->c, w);
  if (a->op == O_ZEXT) return mkZext(a->a, w);
  if (a->op == O_EXTRACT && a->aux == 0 && a->a->w == w && a->a->umax <= maskw(a->w)) return a->a;
  if (a->op == O_ITE && (isC(a->b) || isC(a->d))) return mkIte(a->a, mkZext(a->b, w), mkZext(a->d, w));
  return intern(O_ZEXT, w, 0, 0, a, 0, 0);
}
E mkSext(E a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return mkConst(sextw(a->c, a->w), w);
  if (a->umax < (1ULL << (a->w - 1))) return mkZext(a, w);
  if (a->op == O_SEXT) return mkSext(a->a, w);
  if (a->op == O_ITE && (isC(a->b) || isC(a->d))) return mkIte(a->a, mkSext(a->b, w), mkSext(a->d, w));
  return intern(O_SEXT, w, 0, 0, a, 0, 0);
}
// Do the two terms consist of the same bytes?
static bool sameBytes(E a, E b) { for (unsigned i = 0; i < a->w; i += 8) if (mkExtract(a, i, 8) != mkExtract(b, i, 8)) return false; return true; }
E mkEq(E a, E b) {
  if (a == b) return mkConst(1, 1);
  if (a->w <= 64 && a->w % 8 == 0 && a->w > 8 && (a->op == O_CONCAT || b->op == O_CONCAT) && sameBytes(a, b)) return mkConst(1, 1);
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (isC(a)) return mkConst(a->c == b->c, 1);
    if (b->c < a->umin || b->c > a->umax) return mkConst(0, 1);
    if (a->w == 1) return b->c ? a : mkXor(a, mkConst(1, 1));
    switch (a->op) {
    case O_ZEXT: if (b->c > maskw(a->a->w)) return mkConst(0, 1); return mkEq(a->a, mkConst(b->c, a->a->w));
    case O_SEXT: { uint64_t t = b->c & maskw(a->a->w); if ((uint64_t)(sextw(t, a->a->w)) << (64 - a->w) != b->c << (64 - a->w)) return mkConst(0, 1); return mkEq(a->a, mkConst(t, a->a->w)); }
    case O_CONCAT: { E r = mkEq(a->b, mkConst(b->c, a->b->w)); if (isC(r) && !r->c) return r; return mkAnd(mkEq(a->a, mkConst(b->c >> a->b->w, a->a->w)), r); }
    case O_ADD: if (isC(a->b)) return mkEq(a->a, mkConst(b->c - a->b->c, a->w)); break;
    case O_XOR: if (isC(a->b)) return mkEq(a->a, mkConst(b->c ^ a->b->c, a->w)); break;
    case O_MUL: if (isC(a->b) && a->b->c == maskw(a->w)) return mkEq(a->a, mkConst(-b->c, a->w)); break;
    case O_UDIV: if (b->c == 0 && isC(a->b) && a->b->c) return mkUlt(a->a, a->b); break;
    case O_SDIV: if (b->c == 0 && isC(a->b) && a->b->c && a->b->c < (1ULL << (a->w - 1))) return mkAnd(mkSlt(mkConst(-a->b->c, a->w), a->a), mkSlt(a->a, a->b)); break;
    case O_ITE:
      if (isC(a->b) && isC(a->d)) { bool x = a->b->c == b->c, y = a->d->c == b->c; if (x && y) return mkConst(1, 1); if (x) return a->a; if (y) return mkNot(a->a); return mkConst(0, 1); }
      if (isC(a->b) || isC(a->d) || ((a->b->op == O_UDIV || a->d->op == O_UDIV || a->b->op == O_UREM || a->d->op == O_UREM) && isC(b))) { return mkIte(a->a, mkEq(a->b, b), mkEq(a->d, b)); }
      break;
    default: break;
    }
    return intern(O_EQ, 1, 0, 0, a, b, 0);
  }
  if (a->umax < b->umin || b->umax < a->umin) return mkConst(0, 1);
  if (a->w == 1) return mkNot(mkXor(a, b));
  if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
  if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
  if (a->op == O_ADD || b->op == O_ADD || a->op == O_MUL || b->op == O_MUL) {
    E d = mkSub(a, b);
    if (isC(d)) return mkConst(d->c == 0, 1);
    if (d->umin > 0) return mkConst(0, 1);
  }
  if (a->id > b->id) std::swap(a, b);
  return intern(O_EQ, 1, 0, 0, a, b, 0);
}
E mkUlt(E a, E b) {
  if (a == b) return mkConst(0, 1);
  if (isC(a) && isC(b)) return mkConst(a->c < b->c, 1);
  if (a->umax < b->umin) return mkConst(1, 1);
  if (a->umin >= b->umax) return mkConst(0, 1);
  if (isC(b) && b->c == 1) return mkEq(a, mkConst(0, a->w));
  if (isC(a) && a->c == 0) return mkNot(mkEq(b, mkConst(0, a->w)));
  if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mkUlt(a->a, b->a);
  if (a->op == O_ZEXT && isC(b) && b->c <= maskw(a->a->w)) return mkUlt(a->a, mkConst(b->c, a->a->w));
  if (b->op == O_ZEXT && isC(a) && a->c <= maskw(b->a->w)) return mkUlt(mkConst(a->c, b->a->w), b->a);
  if (isC(b) && a->op == O_UDIV && isC(a->b) && a->b->c) { unsigned __int128 p = (unsigned __int128)a->b->c * b->c; return p > maskw(a->w) ? mkConst(1, 1) : mkUlt(a->a, mkConst((uint64_t)p, a->w)); }
  if (isC(b) && a->op == O_ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkUlt(a->b, b), mkUlt(a->d, b));
  if (isC(a) && b->op == O_ITE && isC(b->b) && isC(b->d)) return mkIte(b->a, mkUlt(a, b->b), mkUlt(a, b->d));
  return intern(O_ULT, 1, 0, 0, a, b, 0);
}
E mkUle(E a, E b) {
  if (a == b) return mkConst(1, 1);
  if (isC(a) && isC(b)) return mkConst(a->c <= b->c, 1);
  if (a->umax <= b->umin) return mkConst(1, 1);
  if (a->umin > b->umax) return mkConst(0, 1);
  if (isC(b)) return mkUlt(a, mkConst(b->c + 1, a->w));        // b < max since a->umin<=umax etc.
  if (isC(a)) return mkUlt(mkConst(a->c - 1, a->w), b);        // a > 0
  if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mkUle(a->a, b->a);
  return intern(O_ULE, 1, 0, 0, a, b, 0);
}
static bool nonneg(E a) { return a->umax < (1ULL << (a->w - 1)); }
static bool neg(E a) { return a->umin >= (1ULL << (a->w - 1)); }
E mkSlt(E a, E b) {
  if (a == b) return mkConst(0, 1);
  if (isC(a) && isC(b)) return mkConst(sextw(a->c, a->w) < sextw(b->c, b->w), 1);
  if (nonneg(a) && nonneg(b)) return mkUlt(a, b);
  if (neg(a) && neg(b)) return mkUlt(a, b);
  if (neg(a) && nonneg(b)) return mkConst(1, 1);
  if (nonneg(a) && neg(b)) return mkConst(0, 1);
  if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return mkSlt(a->a, b->a);
  return intern(O_SLT, 1, 0, 0, a, b, 0);
}
E mkSle(E a, E b) {
  if (a == b) return mkConst(1, 1);
  if (isC(a) && isC(b)) return mkConst(sextw(a->c, a->w) <= sextw(b->c, b->w), 1);
  if (nonneg(a) && nonneg(b)) return mkUle(a, b);
  if (neg(a) && neg(b)) return mkUle(a, b);
  if (neg(a) && nonneg(b)) return mkConst(1, 1);
  if (nonneg(a) && neg(b)) return mkConst(0, 1);
  return intern(O_SLE, 1, 0, 0, a, b, 0);
}
E mkIte(E c, E a, E b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->op == O_XOR && isC(c->b) && c->b->c == 1) return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (isC(a)) return a->c ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (isC(b)) return b->c ? mkOr(mkNot(c), a) : mkAnd(c, a);
  }
  if (a->op == O_ITE && a->a == c) a = a->b;
  if (b->op == O_ITE && b->a == c) b = b->d;
  if (a == b) return a;
  if (b->op == O_ITE && b->b == a) return mkIte(mkOr(c, b->a), a, b->d);
  return intern(O_ITE, a->w, 0, 0, c, a, b);
}

// ---------------------------------------------------------------- support, evaluation, printing
static const std::vector<uint32_t> emptySup;
const std::vector<uint32_t> &support(E e) {
  if (e->sup) return *e->sup;
  if (e->op == O_CONST) { e->sup = &emptySup; return *e->sup; }
  std::vector<uint32_t> r;
  if (e->op == O_VAR) r.push_back(e->aux);
  if (e->op == O_READ) r.push_back(e->aux);
  const std::vector<uint32_t> *same = nullptr; int cnt = 0;
  for (E k : {e->a, e->b, e->d}) if (k) { auto &s = support(k); if (s.empty()) continue; same = &s; cnt++; std::vector<uint32_t> t; std::set_union(r.begin(), r.end(), s.begin(), s.end(), std::back_inserter(t)); r.swap(t); }
  if (e->op == O_TBL) for (E k : e->tbl->syms) if (k) { auto &s = support(k); std::vector<uint32_t> t; std::set_union(r.begin(), r.end(), s.begin(), s.end(), std::back_inserter(t)); r.swap(t); }
  if (same && same->size() == r.size()) { e->sup = same; return *same; }
  (void)cnt;
  e->sup = new std::vector<uint32_t>(r); return *e->sup;
}
static uint32_t g_epoch = 0;
Evaluator::Evaluator(const Model &mm) : m(mm), ep(++g_epoch) {}
uint64_t Evaluator::operator()(E e) {
  if (e->op == O_CONST) return e->c;
  if (e->evEpoch == ep) return e->evVal;
  unsigned w = e->w; uint64_t r = 0; auto &S = *this;
  switch (e->op) {
  case O_VAR: { auto it = m.v.find(e->aux); r = it == m.v.end() ? 0 : it->second; break; }
  case O_READ: { uint64_t i = S(e->a); auto it = m.arr.find(e->aux); if (it != m.arr.end()) { auto j = it->second.find(i); if (j != it->second.end()) r = j->second; } break; }
  case O_TBL: { uint64_t i = S(e->a); r = i < e->tbl->bytes.size() ? (e->tbl->syms.size() && e->tbl->syms[i] ? S(e->tbl->syms[i]) : e->tbl->bytes[i]) : 0; break; }
  case O_ADD: r = S(e->a) + S(e->b); break;
  case O_MUL: r = S(e->a) * S(e->b); break;
  case O_UDIV: { uint64_t y = S(e->b); r = y ? S(e->a) / y : ~0ULL; break; }
  case O_UREM: { uint64_t x = S(e->a), y = S(e->b); r = y ? x % y : x; break; }
  case O_SDIV: { int64_t x = sextw(S(e->a), w), y = sextw(S(e->b), w); if (!y) r = x < 0 ? 1 : ~0ULL; else if (y == -1) r = -(uint64_t)x; else r = x / y; break; }
  case O_SREM: { int64_t x = sextw(S(e->a), w), y = sextw(S(e->b), w); if (!y) r = x; else if (y == -1) r = 0; else r = x % y; break; }
  case O_AND: r = S(e->a) & S(e->b); break;
  case O_OR: r = S(e->a) | S(e->b); break;
  case O_XOR: r = S(e->a) ^ S(e->b); break;
  case O_SHL: { uint64_t s = S(e->b); r = s >= w ? 0 : S(e->a) << s; break; }
  case O_LSHR: { uint64_t s = S(e->b); r = s >= w ? 0 : S(e->a) >> s; break; }
  case O_ASHR: { uint64_t s = S(e->b); if (s >= w) s = w - 1; r = sextw(S(e->a), w) >> s; break; }
  case O_CONCAT: r = (S(e->a) << e->b->w) | S(e->b); break;
  case O_EXTRACT: r = S(e->a) >> e->aux; break;
  case O_ZEXT: r = S(e->a); break;
  case O_SEXT: r = sextw(S(e->a), e->a->w); break;
  case O_EQ: r = S(e->a) == S(e->b); break;
  case O_ULT: r = S(e->a) < S(e->b); break;
  case O_ULE: r = S(e->a) <= S(e->b); break;
  case O_SLT: r = sextw(S(e->a), e->a->w) < sextw(S(e->b), e->a->w); break;
  case O_SLE: r = sextw(S(e->a), e->a->w) <= sextw(S(e->b), e->a->w); break;
  case O_ITE: r = S(e->a) ? S(e->b) : S(e->d); break;
  default: break;
  }
  r &= maskw(w); e->evEpoch = ep; e->evVal = r; return r;
}
uint64_t evalE(E e, const Model &m) { Evaluator ev(m); return ev(e); }
std::string estr(E e, int depth) {
  static const char *names[] = {"const", "var", "read", "tbl", "add", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "concat", "extract", "zext", "sext", "eq", "ult", "ule", "slt", "sle", "ite"};
  if (e->op == O_CONST) return std::to_string((long long)sextw(e->c, e->w)) + ":" + std::to_string(e->w);
  if (e->op == O_VAR) return g_vars[e->aux].name;
  if (depth == 0) return "..";
  std::string s = std::string("(") + names[e->op];
  if (e->op == O_EXTRACT) s += "[" + std::to_string(e->aux) + "+" + std::to_string(e->w) + "]";
  if (e->op == O_READ) s += " " + g_vars[e->aux].name;
  for (E k : {e->a, e->b, e->d}) if (k) s += " " + estr(k, depth - 1);
  return s + ")";
}

// ---------------------------------------------------------------- z3
static Z3_context Z = nullptr; static Z3_solver ZS = nullptr;
static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
static void zinit() {
  if (Z) return;
  Z3_config cfg = Z3_mk_config(); Z = Z3_mk_context(cfg); Z3_set_error_handler(Z, zerr);
  ZS = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV")); Z3_solver_inc_ref(Z, ZS);
}
static Z3_ast b2bv(Z3_ast b) { Z3_sort s = Z3_mk_bv_sort(Z, 1); return Z3_mk_ite(Z, b, Z3_mk_unsigned_int64(Z, 1, s), Z3_mk_unsigned_int64(Z, 0, s)); }
static Z3_ast zt(E e);
static Z3_ast zbool(E e) { // 1-bit expr as z3 Bool
  switch (e->op) {
  case O_CONST: return e->c ? Z3_mk_true(Z) : Z3_mk_false(Z);
  case O_EQ: return Z3_mk_eq(Z, zt(e->a), zt(e->b));
  case O_ULT: return Z3_mk_bvult(Z, zt(e->a), zt(e->b));
  case O_ULE: return Z3_mk_bvule(Z, zt(e->a), zt(e->b));
  case O_SLT: return Z3_mk_bvslt(Z, zt(e->a), zt(e->b));
  case O_SLE: return Z3_mk_bvsle(Z, zt(e->a), zt(e->b));
  case O_AND: { Z3_ast x[2] = {zbool(e->a), zbool(e->b)}; return Z3_mk_and(Z, 2, x); }
  case O_OR: { Z3_ast x[2] = {zbool(e->a), zbool(e->b)}; return Z3_mk_or(Z, 2, x); }
  case O_XOR: if (isC(e->b) && e->b->c) return Z3_mk_not(Z, zbool(e->a)); return Z3_mk_xor(Z, zbool(e->a), zbool(e->b));
  case O_ITE: return Z3_mk_ite(Z, zbool(e->a), zbool(e->b), zbool(e->d));
  default: return Z3_mk_eq(Z, zt(e), Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, 1)));
  }
}
static Z3_ast zt(E e) {
  if (e->z3) return (Z3_ast)e->z3;
  Z3_sort s = Z3_mk_bv_sort(Z, e->w); Z3_ast r = nullptr;
  switch (e->op) {
  case O_CONST: r = Z3_mk_unsigned_int64(Z, e->c, s); break;
  case O_VAR: r = Z3_mk_const(Z, Z3_mk_int_symbol(Z, e->aux), s); break;
  case O_READ: r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, ("rd" + std::to_string(e->id)).c_str()), s); break;
  case O_TBL: { // ite tree over the index bits via binary search
    uint64_t lo = e->a->umin, hi = std::min<uint64_t>(e->a->umax, e->tbl->bytes.size() - 1);
    struct R { static Z3_ast go(const Table *t, Z3_ast idx, Z3_sort is, uint64_t l, uint64_t h) {
      if (l == h) return t->syms.size() && t->syms[l] ? zt(t->syms[l]) : Z3_mk_unsigned_int64(Z, t->bytes[l], Z3_mk_bv_sort(Z, 8));
      uint64_t m = l + (h - l) / 2; return Z3_mk_ite(Z, Z3_mk_bvule(Z, idx, Z3_mk_unsigned_int64(Z, m, is)), go(t, idx, is, l, m), go(t, idx, is, m + 1, h)); } };
    r = R::go(e->tbl, zt(e->a), Z3_mk_bv_sort(Z, e->a->w), lo, hi); break; }
  case O_ADD: r = Z3_mk_bvadd(Z, zt(e->a), zt(e->b)); break;
  case O_MUL: if (isC(e->b) && e->b->c == maskw(e->w)) r = Z3_mk_bvneg(Z, zt(e->a)); else r = Z3_mk_bvmul(Z, zt(e->a), zt(e->b)); break;
  case O_UDIV: case O_UREM: if (isC(e->b) && e->b->c) { r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, ("dv" + std::to_string(e->id)).c_str()), s); break; } // constrained in solve()
    r = e->op == O_UDIV ? Z3_mk_bvudiv(Z, zt(e->a), zt(e->b)) : Z3_mk_bvurem(Z, zt(e->a), zt(e->b)); break;
  case O_SDIV: r = Z3_mk_bvsdiv(Z, zt(e->a), zt(e->b)); break;
  case O_SREM: r = Z3_mk_bvsrem(Z, zt(e->a), zt(e->b)); break;
  case O_AND: if (e->w == 1) { r = b2bv(zbool(e)); break; } r = Z3_mk_bvand(Z, zt(e->a), zt(e->b)); break;
  case O_OR: if (e->w == 1) { r = b2bv(zbool(e)); break; } r = Z3_mk_bvor(Z, zt(e->a), zt(e->b)); break;
  case O_XOR: if (e->w == 1) { r = b2bv(zbool(e)); break; } r = Z3_mk_bvxor(Z, zt(e->a), zt(e->b)); break;
  case O_SHL: r = Z3_mk_bvshl(Z, zt(e->a), zt(e->b)); break;
  case O_LSHR: r = Z3_mk_bvlshr(Z, zt(e->a), zt(e->b)); break;
  case O_ASHR: r = Z3_mk_bvashr(Z, zt(e->a), zt(e->b)); break;
  case O_CONCAT: r = Z3_mk_concat(Z, zt(e->a), zt(e->b)); break;
  case O_EXTRACT: r = Z3_mk_extract(Z, e->aux + e->w - 1, e->aux, zt(e->a)); break;
  case O_ZEXT: r = Z3_mk_zero_ext(Z, e->w - e->a->w, zt(e->a)); break;
  case O_SEXT: r = Z3_mk_sign_ext(Z, e->w - e->a->w, zt(e->a)); break;
  case O_ITE: r = Z3_mk_ite(Z, zbool(e->a), zt(e->b), zt(e->d)); break;
  default: r = b2bv(zbool(e)); break;
  }
  Z3_inc_ref(Z, r); e->z3 = r; return r;
}
static void collectReads(E e, std::unordered_set<E> &seen, std::vector<E> &reads) {
  if (!e || e->op == O_CONST || !seen.insert(e).second) return;
  // skip subtrees without arrays
  bool any = false; for (uint32_t v : support(e)) if (g_vars[v].isArray) { any = true; break; }
  if (!any) return;
  if (e->op == O_READ) reads.push_back(e);
  if (e->op == O_TBL) for (E k : e->tbl->syms) collectReads(k, seen, reads);
  collectReads(e->a, seen, reads); collectReads(e->b, seen, reads); collectReads(e->d, seen, reads);
}
static bool hasDiv(E e) {
  if (!e || e->op == O_CONST || e->op == O_VAR) return false;
  if (e->hasDiv) return e->hasDiv == 2;
  bool r = e->op == O_UDIV || e->op == O_UREM || hasDiv(e->a) || hasDiv(e->b) || hasDiv(e->d);
  if (!r && e->op == O_TBL) for (E k : e->tbl->syms) if (hasDiv(k)) { r = true; break; }
  e->hasDiv = r ? 2 : 1; return r;
}
static void collectDivs(E e, std::unordered_set<E> &seen, std::vector<E> &out) {
  if (!e || !hasDiv(e) || !seen.insert(e).second) return;
  if (e->op == O_TBL) for (E k : e->tbl->syms) collectDivs(k, seen, out);
  collectDivs(e->a, seen, out); collectDivs(e->b, seen, out); collectDivs(e->d, seen, out);
  if ((e->op == O_UDIV || e->op == O_UREM) && isC(e->b) && e->b->c) out.push_back(e);
}
// ---------------------------------------------------------------- linear integer front end
// Comparisons of sums are translated to integer arithmetic exactly (wrap-around by case distinction, decided from intervals);
// anything else becomes an unconstrained bounded atom. UNSAT of the relaxation is UNSAT; a model is used only after evaluating the real constraints.
static Z3_solver ZL = nullptr;
struct LiaTr {
  std::unordered_map<E, Z3_ast> ti, tb; std::vector<E> atoms; std::vector<Z3_ast> side; Z3_sort IS; int work = 0; std::map<std::pair<E, uint64_t>, std::pair<Z3_ast, Z3_ast>> dv;
  Z3_ast num(__int128 v) { std::string s; bool n = v < 0; unsigned __int128 u = n ? -(unsigned __int128)v : v; do { s.insert(s.begin(), '0' + (int)(u % 10)); u /= 10; } while (u); if (n) s = "-" + s; return Z3_mk_numeral(Z, s.c_str(), IS); }
  Z3_ast atomI(E e) { Z3_ast x = Z3_mk_const(Z, Z3_mk_string_symbol(Z, ("li" + std::to_string(e->id)).c_str()), IS); side.push_back(Z3_mk_ge(Z, x, num(e->umin))); side.push_back(Z3_mk_le(Z, x, num(e->umax))); atoms.push_back(e); return x; }
  Z3_ast I(E e) { auto it = ti.find(e); if (it != ti.end()) return it->second; Z3_ast r = I0(e); ti[e] = r; return r; }
  Z3_ast I0(E e) {
    work++;
    switch (e->op) {
    case O_CONST: return num(e->c);
    case O_ZEXT: return e->a->w == 1 ? Z3_mk_ite(Z, B(e->a), num(1), num(0)) : I(e->a);
    case O_ITE: return Z3_mk_ite(Z, B(e->a), I(e->b), I(e->d));
    case O_UDIV: case O_UREM: {
      if (!isC(e->b) || !e->b->c || e->b->c > 1u << 30) return atomI(e);
      auto it = dv.find({e->a, e->b->c}); if (it != dv.end()) return e->op == O_UDIV ? it->second.first : it->second.second;
      Z3_ast x = I(e->a), q = Z3_mk_const(Z, Z3_mk_string_symbol(Z, ("ldq" + std::to_string(e->id)).c_str()), IS), r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, ("ldr" + std::to_string(e->id)).c_str()), IS), m[2] = {num(e->b->c), q}, s[2] = {Z3_mk_mul(Z, 2, m), r};
      side.push_back(Z3_mk_eq(Z, x, Z3_mk_add(Z, 2, s))); side.push_back(Z3_mk_ge(Z, r, num(0))); side.push_back(Z3_mk_lt(Z, r, num(e->b->c))); side.push_back(Z3_mk_ge(Z, q, num(e->a->umin / e->b->c))); side.push_back(Z3_mk_le(Z, q, num(e->a->umax / e->b->c)));
      dv[{e->a, e->b->c}] = {q, r}; return e->op == O_UDIV ? q : r; }
    case O_EXTRACT: if (e->aux) return atomI(e); // fall through
    case O_ADD: case O_MUL: {
      Lin l; int bud = 24; if (!linAdd(l, e->op == O_EXTRACT ? e->a : e, 1, bud)) return atomI(e);
      if (l.t.size() == 1 && (l.t[0].first == e || (e->op == O_EXTRACT && l.t[0].first == e->a && l.t[0].second == 1 && e->a->op == O_MUL))) return atomI(e);
      __int128 lo = sextw(l.k & maskw(e->w), e->w), hi = lo, M = (__int128)1 << e->w; std::vector<Z3_ast> ts; ts.push_back(num(lo));
      for (auto &p : l.t) { int64_t c = sextw(p.second & maskw(e->w), e->w); if (!c) continue; if (p.first->op == O_ADD || c > 1 << 20 || c < -(1 << 20)) return atomI(e); if (c >= 0) { lo += (__int128)c * p.first->umin; hi += (__int128)c * p.first->umax; } else { lo += (__int128)c * p.first->umax; hi += (__int128)c * p.first->umin; }
        Z3_ast x[2] = {num(c), p.first->op == O_MUL ? atomI(p.first) : I(p.first)}; ts.push_back(c == 1 ? x[1] : Z3_mk_mul(Z, 2, x)); }
      Z3_ast s = ts.size() == 1 ? ts[0] : Z3_mk_add(Z, ts.size(), ts.data()); Z3_ast r = s;
      if (lo < -M || hi >= 2 * M) { if (lo < -M * 1024 || hi >= M * 1024) return atomI(e); Z3_ast q = Z3_mk_const(Z, Z3_mk_string_symbol(Z, ("lq" + std::to_string(e->id)).c_str()), IS); Z3_ast m[2] = {num(M), q}; Z3_ast a[2] = {s, Z3_mk_mul(Z, 2, m)}; r = Z3_mk_sub(Z, 2, a); side.push_back(Z3_mk_ge(Z, r, num(0))); side.push_back(Z3_mk_lt(Z, r, num(M))); return r; }
      if (hi >= M) { Z3_ast a[2] = {s, num(M)}; r = Z3_mk_ite(Z, Z3_mk_ge(Z, s, num(M)), Z3_mk_sub(Z, 2, a), r); }
      if (lo < 0) { Z3_ast a[2] = {s, num(M)}; r = Z3_mk_ite(Z, Z3_mk_lt(Z, s, num(0)), Z3_mk_add(Z, 2, a), r); }
      return r; }
    default: return atomI(e);
    }
  }
  // the two's complement value as an integer, when it cannot leave the signed range
  bool S(E e, Z3_ast &r, __int128 &lo, __int128 &hi) {
    if (e->w < 2) return false; __int128 H = (__int128)1 << (e->w - 1); work++;
    if (e->op == O_CONST) { lo = hi = sextw(e->c, e->w); r = num(lo); return true; }
    if (e->op == O_ITE) { Z3_ast x, y; __int128 l2, h2; if (!S(e->b, x, lo, hi) || !S(e->d, y, l2, h2)) return false; if (l2 < lo) lo = l2; if (h2 > hi) hi = h2; r = Z3_mk_ite(Z, B(e->a), x, y); return true; }
    if (e->op == O_SEXT) return S(e->a, r, lo, hi);
    if (e->op == O_ADD || e->op == O_MUL) {
      auto it = ts.find(e); if (it != ts.end()) { r = it->second.r; lo = it->second.lo; hi = it->second.hi; return true; }
      Lin l; int bud = 24; if (!linAdd(l, e, 1, bud) || (l.t.size() == 1 && l.t[0].first == e)) return false;
      lo = hi = sextw(l.k & maskw(e->w), e->w); std::vector<Z3_ast> v; v.push_back(num(lo));
      for (auto &p : l.t) { int64_t c = sextw(p.second & maskw(e->w), e->w); if (!c) continue; if (p.first->op == O_ADD || c > 1 << 20 || c < -(1 << 20)) return false; Z3_ast t; __int128 a, b; if (p.first->op == O_MUL || !S(p.first, t, a, b)) { if (p.first->umax >= (uint64_t)H) return false; t = p.first->op == O_MUL ? atomI(p.first) : I(p.first); a = p.first->umin; b = p.first->umax; }
        if (c >= 0) { lo += c * a; hi += c * b; } else { lo += c * b; hi += c * a; } Z3_ast x[2] = {num(c), t}; v.push_back(c == 1 ? t : Z3_mk_mul(Z, 2, x)); }
      if (lo < -H || hi >= H) return false; r = v.size() == 1 ? v[0] : Z3_mk_add(Z, v.size(), v.data()); ts[e] = {r, lo, hi}; return true;
    }
    if (e->umax < (uint64_t)H) { lo = e->umin; hi = e->umax; r = I(e); return true; }
    return false;
  }
  struct SV { Z3_ast r; __int128 lo, hi; }; std::unordered_map<E, SV> ts;
  Z3_ast cmp(E e) { // comparison through signed values; null when not possible
    Z3_ast x, y; __int128 xl, xh, yl, yh; if (e->a->w < 2 || !S(e->a, x, xl, xh) || !S(e->b, y, yl, yh)) return nullptr;
    if (e->op == O_EQ) return Z3_mk_eq(Z, x, y);
    bool sg = e->op == O_SLT || e->op == O_SLE; Z3_ast c = e->op == O_ULT || e->op == O_SLT ? Z3_mk_lt(Z, x, y) : Z3_mk_le(Z, x, y);
    if (sg || (xl >= 0 && yl >= 0) || (xh < 0 && yh < 0)) return c;
    Z3_ast nx = Z3_mk_lt(Z, x, num(0)), ny = Z3_mk_lt(Z, y, num(0)); if (xl >= 0) { Z3_ast o[2] = {ny, c}; return Z3_mk_or(Z, 2, o); } if (yl >= 0) { Z3_ast o[2] = {Z3_mk_not(Z, nx), c}; return Z3_mk_and(Z, 2, o); }
    return Z3_mk_ite(Z, Z3_mk_iff(Z, nx, ny), c, ny);
  }
  Z3_ast B(E e) { auto it = tb.find(e); if (it != tb.end()) return it->second; Z3_ast r = B0(e); tb[e] = r; return r; }
  Z3_ast B0(E e) {
    work++;
    if ((e->op == O_EQ || e->op == O_ULT || e->op == O_ULE || e->op == O_SLT || e->op == O_SLE) && e->a->w > 1) if (Z3_ast c = cmp(e)) return c;
    switch (e->op) {
    case O_CONST: return e->c ? Z3_mk_true(Z) : Z3_mk_false(Z);
    case O_EQ: if (e->a->w == 1) return Z3_mk_iff(Z, B(e->a), B(e->b)); return Z3_mk_eq(Z, I(e->a), I(e->b));
    case O_ULT: return e->a->w == 1 ? atomB(e) : Z3_mk_lt(Z, I(e->a), I(e->b));
    case O_ULE: return e->a->w == 1 ? atomB(e) : Z3_mk_le(Z, I(e->a), I(e->b));
    case O_SLT: case O_SLE: { uint64_t h = maskw(e->a->w) >> 1; if (e->a->w > 1 && e->a->umax <= h && e->b->umax <= h) return e->op == O_SLT ? Z3_mk_lt(Z, I(e->a), I(e->b)) : Z3_mk_le(Z, I(e->a), I(e->b)); return atomB(e); }
    case O_AND: { Z3_ast x[2] = {B(e->a), B(e->b)}; return Z3_mk_and(Z, 2, x); }
    case O_OR: { Z3_ast x[2] = {B(e->a), B(e->b)}; return Z3_mk_or(Z, 2, x); }
    case O_XOR: return Z3_mk_xor(Z, B(e->a), B(e->b));
    case O_ITE: return Z3_mk_ite(Z, B(e->a), B(e->b), B(e->d));
    default: return atomB(e);
    }
  }
  Z3_ast atomB(E e) { return Z3_mk_const(Z, Z3_mk_string_symbol(Z, ("lb" + std::to_string(e->id)).c_str()), Z3_mk_bool_sort(Z)); }
};
static bool wantsLia(E e, std::unordered_set<E> &seen) { // a wide sum of at least two unknowns
  if (!e || e->op == O_CONST || e->op == O_VAR || !seen.insert(e).second) return false;
  if (e->op == O_ADD && e->w >= 32) { Lin l; int bud = 24; if (linAdd(l, e, 1, bud) && l.t.size() >= 2) return true; }
  if (e->op == O_TBL) return false;
  return wantsLia(e->a, seen) || wantsLia(e->b, seen) || wantsLia(e->d, seen);
}
static void setTimeout_(Z3_solver s, unsigned ms) { Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), ms); Z3_solver_set_params(Z, s, p); Z3_params_dec_ref(Z, p); }
static SatRes liaSolve(const std::vector<E> &slice, const std::vector<uint8_t> &inSet, ModelP &sm, unsigned ms) {
  static std::map<unsigned, Z3_solver> zls; // one solver per time limit: changing a solver's parameters is expensive
  if (ms != 400) ms = ms < 100 ? 100 : ms / 1000 * 1000 + (ms < 1000) * 500; Z3_solver &ZL = zls[ms];
  if (!ZL) { ZL = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_LIA")); Z3_solver_inc_ref(Z, ZL); setTimeout_(ZL, ms); }
  Z3_solver_push(Z, ZL); LiaTr t; t.IS = Z3_mk_int_sort(Z);
  for (E e : slice) { Z3_ast b = t.B(e); Z3_solver_assert(Z, ZL, b); }
  { std::vector<E> rd; for (size_t i = 0; i < t.atoms.size() && rd.size() < 24; i++) if (t.atoms[i]->op == O_READ) { t.I(t.atoms[i]->a); rd.push_back(t.atoms[i]); }
    for (size_t i = 0; i < rd.size(); i++) for (size_t j = 0; j < i; j++) if (rd[i]->aux == rd[j]->aux) { E c = mkEq(rd[i]->a, rd[j]->a); if (isC(c) && !c->c) continue; Z3_solver_assert(Z, ZL, Z3_mk_implies(Z, t.B(c), Z3_mk_eq(Z, t.I(rd[i]), t.I(rd[j])))); } }
  for (size_t i = 0; i < t.side.size(); i++) Z3_solver_assert(Z, ZL, t.side[i]);
  if (getenv("KSYM_DUMPQ")) { static int nq = 0; if (++nq % 50 == 0) { fprintf(stderr, "lia query n=%zu\n", slice.size()); for (E e : slice) fprintf(stderr, "   %s\n", estr(e, 8).c_str()); } }
  Z3_lbool r = Z3_solver_check(Z, ZL); SatRes res = UNKNOWN;
  if (r == Z3_L_FALSE) res = UNSAT;
  else if (r == Z3_L_TRUE) {
    Z3_model zm = Z3_solver_get_model(Z, ZL); Z3_model_inc_ref(Z, zm); auto m = std::make_shared<Model>();
    for (size_t v = 0; v < inSet.size(); v++) if (inSet[v]) { if (g_vars[v].isArray) m->arr[v]; else m->v[v] = 0; }
    auto val = [&](E e) { Z3_ast v = nullptr; uint64_t u = e->umin; if (Z3_model_eval(Z, zm, t.ti[e], true, &v)) { Z3_inc_ref(Z, v); Z3_get_numeral_uint64(Z, v, &u); Z3_dec_ref(Z, v); } return u; };
    for (E e : t.atoms) if (e->op == O_VAR) m->v[e->aux] = val(e);
    bool ok = true; for (int round = 0; round < 2 && ok; round++) for (E e : t.atoms) if (e->op == O_READ) { Evaluator ev(*m); m->arr[e->aux][ev(e->a)] = (uint8_t)val(e); }
    Z3_model_dec_ref(Z, zm);
    Evaluator ev(*m); for (E e : slice) if (!ev(e)) { ok = false; break; }
    if (ok) { res = SAT; sm = m; }
  }
  Z3_solver_pop(Z, ZL, 1); return res;
}

// ---------------------------------------------------------------- quick refutation over linear integer inequalities
// Sound for UNSAT only: every fact taken from a constraint is implied by it; Fourier-Motzkin elimination with bounds, in exact arithmetic.
struct Fm {
  typedef __int128 I; typedef std::vector<std::pair<uint32_t, int64_t>> Row; // sorted by atom
  struct Ineq { Row r; I k; };                 // sum r <= k
  struct LV { std::map<uint32_t, int64_t> t; I k = 0, lo = 0, hi = 0; };
  std::vector<E> atoms; std::unordered_map<E, uint32_t> ix; std::vector<Ineq> base; typedef std::vector<Ineq> Conj; std::vector<std::vector<Conj>> disj; struct Cond { uint32_t at; LV x; }; std::vector<Cond> conds;
  uint32_t atom(E e) { auto it = ix.find(e); if (it != ix.end()) return it->second; uint32_t i = atoms.size(); atoms.push_back(e); ix[e] = i; return i; }
  bool one(E e, LV &o) { if (e->w > 1 && e->umax > maskw(e->w) >> 1) return false; if (e->umax > (1ULL << 60)) return false; o.t[atom(e)] = 1; o.lo = e->umin; o.hi = e->umax; return true; }
  bool lin(E e, LV &o, int d = 0) {
    if (d > 12) return false;
    switch (e->op) {
    case O_CONST: o.k = o.lo = o.hi = sextw(e->c, e->w); return true;
    case O_ZEXT: { if (e->a->w == 1) return one(e, o); if (e->a->op == O_ADD || e->a->op == O_MUL || e->a->op == O_ZEXT || e->a->op == O_VAR || e->a->op == O_EXTRACT) { LV x; if (lin(e->a, x, d + 1)) { if (x.lo >= 0) { o = x; return true; } bool nw = !ix.count(e); if (!one(e, o)) return false; if (nw) conds.push_back({ix[e], x}); return true; } } return one(e, o); }
    case O_SEXT: return lin(e->a, o, d + 1);
    case O_EXTRACT: { if (e->aux || e->w < 8) return one(e, o); LV x; I H = (I)1 << (e->w - 1); if (lin(e->a, x, d + 1) && x.lo >= -H && x.hi < H) { o = x; return true; } return one(e, o); }
    case O_ADD: case O_MUL: {
      Lin l; int bud = 24; if (!linAdd(l, e, 1, bud) || (l.t.size() == 1 && l.t[0].first == e)) return one(e, o);
      LV r; r.k = r.lo = r.hi = sextw(l.k & maskw(e->w), e->w); I H = (I)1 << (e->w - 1);
      for (auto &p : l.t) { int64_t c = sextw(p.second & maskw(e->w), e->w); if (!c) continue; if (c > (1 << 20) || c < -(1 << 20)) return one(e, o); LV x; if (p.first->op == O_MUL || p.first->op == O_ADD ? !one(p.first, x) : !lin(p.first, x, d + 1)) return one(e, o);
        for (auto &q : x.t) { r.t[q.first] += c * q.second; } r.k += (I)c * x.k; if (c >= 0) { r.lo += (I)c * x.lo; r.hi += (I)c * x.hi; } else { r.lo += (I)c * x.hi; r.hi += (I)c * x.lo; } }
      if (r.lo < -H || r.hi >= H) return one(e, o);
      o = r; return true; }
    default: return one(e, o);
    }
  }
  static void le(const LV &a, const LV &b, int off, Conj &out) { // a <= b + off
    Ineq q; std::map<uint32_t, int64_t> t = a.t; for (auto &p : b.t) t[p.first] -= p.second; for (auto &p : t) if (p.second) q.r.push_back(p); q.k = b.k - a.k + off; out.push_back(q); }
  // alternatives of e (or of its negation), one of which holds; empty: nothing known
  typedef std::vector<Conj> Dnf;
  static E same(Op op, E a, E b) { switch (op) { case O_EQ: return mkEq(a, b); case O_ULT: return mkUlt(a, b); case O_ULE: return mkUle(a, b); case O_SLT: return mkSlt(a, b); default: return mkSle(a, b); } }
  int iteDepth = 0;
  Dnf facts(E e, bool neg) {
    if (e->op == O_EQ && ((e->a->op == O_SEXT && e->b->op == O_SEXT) || (e->a->op == O_ZEXT && e->b->op == O_ZEXT)) && e->a->a->w == e->b->a->w) return facts(mkEq(e->a->a, e->b->a), neg);
    if (e->w == 1 && (e->op == O_EQ || e->op == O_ULT || e->op == O_ULE || e->op == O_SLT || e->op == O_SLE) && iteDepth < 3) for (int side = 0; side < 2; side++) {
      E s = side ? e->b : e->a, t = s; if (t->op == O_SEXT || t->op == O_ZEXT) t = t->a; if (t->op != O_ITE || t->w < 2) continue;
      iteDepth++; Dnf r; bool ok = true;
      for (int v = 0; v < 2 && ok; v++) { E x = v ? t->d : t->b; if (s->op == O_SEXT) x = mkSext(x, s->w); else if (s->op == O_ZEXT) x = mkZext(x, s->w); E c = mkAnd(v ? mkNot(t->a) : t->a, neg ? mkNot(same(e->op, side ? e->a : x, side ? x : e->b)) : same(e->op, side ? e->a : x, side ? x : e->b)); if (isC(c) && !c->c) continue; if (isC(c)) { ok = false; break; } Dnf d = facts(c, false); if (d.empty() || r.size() + d.size() > 28) ok = false; else r.insert(r.end(), d.begin(), d.end()); }
      iteDepth--; if (ok && r.empty()) { r.resize(1); r[0].push_back(Ineq{Row(), -1}); } return ok ? r : Dnf(); }
    if (e->op == O_ITE && e->w == 1) { Dnf x = facts(mkAnd(e->a, neg ? mkNot(e->b) : e->b), false), y = facts(mkAnd(mkNot(e->a), neg ? mkNot(e->d) : e->d), false); if (x.empty() || y.empty() || x.size() + y.size() > 28) return Dnf(); x.insert(x.end(), y.begin(), y.end()); return x; }
    if (isC(e)) { Dnf r(1); if (!((e->c & 1) ^ neg)) r[0].push_back(Ineq{Row(), -1}); return r; }
    if (e->op == O_XOR && e->w == 1 && isC(e->b)) return facts(e->a, neg ^ (e->b->c & 1));
    if ((e->op == O_AND || e->op == O_OR) && e->w == 1) {
      bool conj = (e->op == O_AND) != neg; Dnf x = facts(e->a, neg); if (!conj && x.empty()) return x; Dnf y = facts(e->b, neg);
      if (conj) { if (x.empty()) return y; if (y.empty()) return x; if (x.size() * y.size() > 24) return x.size() < y.size() ? x : y; Dnf r; for (auto &p : x) for (auto &q : y) { Conj c = p; c.insert(c.end(), q.begin(), q.end()); r.push_back(c); } return r; }
      if (y.empty() || x.size() + y.size() > 24) return Dnf(); x.insert(x.end(), y.begin(), y.end()); return x;
    }
    if (e->op != O_EQ && e->op != O_ULT && e->op != O_ULE && e->op != O_SLT && e->op != O_SLE) return Dnf();
    if (e->a->w < 2) return Dnf();
    LV a, b, zero;
    if (e->op == O_EQ && neg && e->a->op == O_READ && e->b->op == O_READ && e->a->aux == e->b->aux) { Dnf r(2); if (!lin(e->a->a, a) || !lin(e->b->a, b)) return Dnf(); le(a, b, -1, r[0]); le(b, a, -1, r[1]); return r; } // different bytes of one array lie at different places
    if (!lin(e->a, a) || !lin(e->b, b)) return Dnf();
    if (e->op == O_EQ) { if (!neg) { Dnf r(1); le(a, b, 0, r[0]); le(b, a, 0, r[0]); return r; } Dnf r(2); le(a, b, -1, r[0]); le(b, a, -1, r[1]); return r; }
    bool lt = e->op == O_ULT || e->op == O_SLT, sg = e->op == O_SLT || e->op == O_SLE; if (neg) { std::swap(a, b); lt = !lt; }
    int off = lt ? -1 : 0; Dnf r;
    auto nn = [&](LV &v, Conj &c) { if (v.lo < 0) le(zero, v, 0, c); }; auto ng = [&](LV &v, Conj &c) { if (v.hi >= 0) le(v, zero, -1, c); };
    if (sg) { r.resize(1); le(a, b, off, r[0]); return r; }
    if (a.hi >= 0 && b.hi >= 0) { r.emplace_back(); nn(a, r.back()); nn(b, r.back()); le(a, b, off, r.back()); } // as unsigned numbers the negative ones are above the others
    if (a.lo < 0 && b.lo < 0) { r.emplace_back(); ng(a, r.back()); ng(b, r.back()); le(a, b, off, r.back()); }
    if (a.hi >= 0 && b.lo < 0) { r.emplace_back(); nn(a, r.back()); ng(b, r.back()); }
    if (r.empty()) { r.resize(1); r[0].push_back(Ineq{Row(), -1}); }
    return r;
  }
  static bool norm(Ineq &q) { if (q.r.empty()) return q.k >= 0; uint64_t g = 0; for (auto &p : q.r) { uint64_t v = p.second < 0 ? -(uint64_t)p.second : p.second; while (v) { uint64_t t = g % v; g = v; v = t; } } if (g > 1) { for (auto &p : q.r) p.second /= (int64_t)g; I k = q.k / (I)g; if (q.k % (I)g < 0) k--; q.k = k; } return true; }
  bool infeasible(const std::vector<const Conj *> &cs) {
    std::map<Row, I> sys; auto add = [&](Ineq q) -> bool { if (!norm(q)) return false; if (q.r.empty()) return true; auto it = sys.find(q.r); if (it == sys.end()) sys[q.r] = q.k; else if (q.k < it->second) it->second = q.k; return true; };
    std::vector<char> usedA(atoms.size(), 0);
    for (auto c : cs) for (auto &q : *c) { if (!add(q)) return true; for (auto &p : q.r) usedA[p.first] = 1; }
    for (uint32_t i = 0; i < atoms.size(); i++) if (usedA[i]) { if (!add({{{i, 1}}, (I)atoms[i]->umax}) || !add({{{i, -1}}, -(I)atoms[i]->umin})) return true; }
    size_t work = 0; const I BIG = (I)1 << 100;
    while (true) {
      std::map<uint32_t, std::pair<int, int>> cnt; for (auto &kv : sys) for (auto &p : kv.first) (p.second > 0 ? cnt[p.first].first : cnt[p.first].second)++;
      if (cnt.empty()) return false; uint32_t v = 0; long bestc = -1; for (auto &c : cnt) { long k = (long)c.second.first * c.second.second - c.second.first - c.second.second; if (bestc == -1 || k < bestc) { bestc = k; v = c.first; } if (bestc == -1) bestc = k; }
      { long best = LONG_MAX; for (auto &c : cnt) { long k = (long)c.second.first * c.second.second - c.second.first - c.second.second; if (k < best) { best = k; v = c.first; } } }
      std::vector<Ineq> P, N, rest; for (auto &kv : sys) { int64_t c = 0; for (auto &p : kv.first) if (p.first == v) c = p.second; (c > 0 ? P : c < 0 ? N : rest).push_back({kv.first, kv.second}); }
      sys.clear(); for (auto &q : rest) sys[q.r] = q.k;
      if ((work += P.size() * N.size()) > 3000) return false;
      for (auto &p : P) for (auto &n : N) {
        int64_t a = 0, b = 0; for (auto &t : p.r) if (t.first == v) a = t.second; for (auto &t : n.r) if (t.first == v) b = -t.second;
        std::map<uint32_t, I> m; for (auto &t : p.r) m[t.first] += (I)t.second * b; for (auto &t : n.r) m[t.first] += (I)t.second * a; m.erase(v);
        Ineq q; q.k = p.k * b + n.k * a; if (q.k > BIG || q.k < -BIG) return false; bool ok = true; for (auto &t : m) if (t.second) { if (t.second > (1LL << 40) || t.second < -(1LL << 40)) { ok = false; break; } q.r.push_back({t.first, (int64_t)t.second}); } if (!ok) continue;
        if (q.r.size() > 10) continue; if (!add(q)) return true; }
    }
  }
  bool refute(const std::vector<E> &slice) { // slice[0] is the query
    if (slice.size() > 200) return false;
    for (E e : slice) { Dnf d = facts(e, false); if (d.size() == 1) base.insert(base.end(), d[0].begin(), d[0].end()); else if (d.size() > 1) disj.push_back(d); }
    if (atoms.size() > 40) return false;
    Conj ex; std::vector<const Conj *> cs{&base, &ex}; if (infeasible(cs)) return true;
    auto cond = [&] { for (size_t i = 0; i < conds.size(); i++) { LV zero; Conj c; le(conds[i].x, zero, -1, c); cs.push_back(&c); bool inf = infeasible(cs); cs.pop_back(); if (inf) { LV a; a.t[conds[i].at] = 1; le(a, conds[i].x, 0, ex); le(conds[i].x, a, 0, ex); conds.erase(conds.begin() + i); i--; } } };
    cond(); if (infeasible(cs)) return true;
    if (getenv("KSYM_FM")) { fprintf(stderr, "FM base %zu disj %zu conds %zu atoms %zu\n", base.size(), disj.size(), conds.size(), atoms.size()); for (size_t i = 0; i < atoms.size(); i++) fprintf(stderr, "  a%zu = %s in %llu..%llu\n", i, estr(atoms[i], 3).c_str(), (unsigned long long)atoms[i]->umin, (unsigned long long)atoms[i]->umax); auto pr = [](const Ineq &q) { for (auto &p : q.r) fprintf(stderr, " %+lld*a%u", (long long)p.second, p.first); fprintf(stderr, " <= %lld\n", (long long)q.k); }; for (auto c : cs) for (auto &q : *c) pr(q); for (auto &d : disj) { fprintf(stderr, " disj\n"); for (auto &c : d) { fprintf(stderr, "  alt\n"); for (auto &q : c) pr(q); } } }
    int budget = 60; bool ch = true; std::vector<char> done(disj.size(), 0);
    while (ch) { ch = false; for (size_t i = 0; i < disj.size(); i++) if (!done[i] && budget > 0) { int live = -1, n = 0; for (size_t k = 0; k < disj[i].size(); k++) { budget--; cs.push_back(&disj[i][k]); if (!infeasible(cs)) { live = k; n++; } cs.pop_back(); if (n > 1) break; } if (!n) return true; if (n == 1) { done[i] = 1; cs.push_back(&disj[i][live]); ch = true; if (!conds.empty()) { cond(); if (infeasible(cs)) return true; } } } }
    return false;
  }
};
struct VecHash { size_t operator()(const std::vector<uint32_t> &v) const { uint64_t h = 7; for (auto x : v) h = hmix(h, x); return h; } };
struct CacheEnt { SatRes r; ModelP m; };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VecHash> qcache;

SatRes solve(const std::vector<E> &pc, E q, const ModelP &base, ModelP *out) {
  if (isC(q)) { if (q->c) { if (out) *out = base; return SAT; } return UNSAT; }
  // slice
  std::vector<E> slice{q}; 
  static std::vector<uint8_t> inSet; inSet.assign(g_vars.size(), 0);
  for (uint32_t v : support(q)) inSet[v] = 1;
  std::vector<uint8_t> used(pc.size(), 0); bool ch = true;
  while (ch) { ch = false;
    for (size_t i = 0; i < pc.size(); i++) if (!used[i]) {
      auto &s = support(pc[i]); bool hit = false; for (uint32_t v : s) if (inSet[v]) { hit = true; break; }
      if (hit) { used[i] = 1; slice.push_back(pc[i]); for (uint32_t v : s) if (!inSet[v]) { inSet[v] = 1; ch = true; } } } }
  std::vector<uint32_t> key; for (E e : slice) key.push_back(e->id);
  std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  auto merge = [&](const ModelP &sm) { auto m = std::make_shared<Model>(*base); for (auto &p : sm->v) m->v[p.first] = p.second; for (auto &p : sm->arr) m->arr[p.first] = p.second; return m; };
  auto it = qcache.find(key);
  if (it != qcache.end()) { g_ss.cacheHits++; if (it->second.r == SAT && out) *out = merge(it->second.m); return it->second.r; }
  zinit();
  auto t0 = std::chrono::steady_clock::now();
  g_ss.queries++;
  { Fm fm; if (fm.refute(slice)) { if (getenv("KSYM_XCHECK")) { ModelP sm; if (liaSolve(slice, inSet, sm, 8000) == SAT) { fprintf(stderr, "ksym: quick refutation contradicts the solver\n"); abort(); } } g_ss.time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); g_ss.quick++; g_ss.unsat++; if (qcache.size() > 400000) qcache.clear(); qcache[key] = {UNSAT, nullptr}; return UNSAT; } }
  bool want = false; auto tryLia = [&](unsigned ms, SatRes &r) { { ModelP sm; r = liaSolve(slice, inSet, sm, ms); if (r != UNKNOWN) {
      g_ss.time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); g_ss.lia++; if (r == SAT) g_ss.sat++; else g_ss.unsat++;
      if (qcache.size() > 400000) qcache.clear(); qcache[key] = {r, sm}; if (r == SAT && out) *out = merge(sm); return true; } } return false; };
  { std::unordered_set<E> ls; for (E e : slice) if (wantsLia(e, ls)) { want = true; break; } }
  if (want) { SatRes r; if (tryLia(400, r)) return r; g_ss.liaMiss++; }
  Z3_solver_push(Z, ZS);
  std::vector<E> reads; std::unordered_set<E> seen;
  for (E e : slice) { Z3_solver_assert(Z, ZS, zbool(e)); collectReads(e, seen, reads); }
  std::sort(reads.begin(), reads.end(), [](E x, E y) { return x->id < y->id; });
  for (size_t i = 0; i < reads.size(); i++) for (size_t j = 0; j < i; j++) if (reads[i]->aux == reads[j]->aux) {
    E c = mkEq(reads[i]->a, reads[j]->a); if (isC(c) && !c->c) continue;
    Z3_ast x[2] = {zbool(c), Z3_mk_eq(Z, zt(reads[i]), zt(reads[j]))}; Z3_solver_assert(Z, ZS, Z3_mk_implies(Z, x[0], x[1])); }
  static unsigned curTo = 0; auto setTo = [&](unsigned ms) { if (ms != curTo) { setTimeout_(ZS, ms); curTo = ms; } };
  unsigned to = g_solverTimeoutMs; 
  if (g_deadlineMs) { uint64_t n = nowMs(); uint64_t left = n >= g_deadlineMs ? 50 : g_deadlineMs - n + 50; if (left < to) to = left < 1000 ? 500 : (unsigned)(left / 1000 * 1000); }
  unsigned first = want && to > 1000 ? 1000 : to; setTo(first);
  // divisions by constants: first only their ranges, then (if that is not decisive) their definitions
  std::vector<E> divs; { std::unordered_set<E> ds; for (E e : slice) collectDivs(e, ds, divs); for (E rd : reads) collectDivs(rd->a, ds, divs); }
  for (E d : divs) Z3_solver_assert(Z, ZS, Z3_mk_bvule(Z, zt(d), Z3_mk_unsigned_int64(Z, d->umax, Z3_mk_bv_sort(Z, d->w))));
  Z3_lbool r = Z3_solver_check(Z, ZS);
  if (want && r == Z3_L_UNDEF && to > 1000) { // alternate: a longer attempt over the integers, then bit-vectors to the end
    SatRes lr; if (tryLia(to / 2 < 8000 ? to / 2 : 8000, lr)) { Z3_solver_pop(Z, ZS, 1); return lr; }
    setTo(to); r = Z3_solver_check(Z, ZS); }
  if (r != Z3_L_FALSE && divs.size()) {
    bool good = false;
    if (r == Z3_L_TRUE && reads.empty()) { // does the real meaning of the divisions already agree
      Z3_model zm = Z3_solver_get_model(Z, ZS); Z3_model_inc_ref(Z, zm); Model m; good = true;
      for (size_t v = 0; v < inSet.size(); v++) if (inSet[v]) { Z3_ast t = Z3_mk_const(Z, Z3_mk_int_symbol(Z, v), Z3_mk_bv_sort(Z, g_vars[v].w)), x = nullptr; uint64_t u = 0; Z3_inc_ref(Z, t); if (Z3_model_eval(Z, zm, t, true, &x)) { Z3_inc_ref(Z, x); Z3_get_numeral_uint64(Z, x, &u); Z3_dec_ref(Z, x); } Z3_dec_ref(Z, t); m.v[v] = u; }
      Z3_model_dec_ref(Z, zm); Evaluator ev(m); for (E e : slice) if (!ev(e)) { good = false; break; }
    }
    if (!good) {
      std::map<std::pair<uint32_t, uint64_t>, std::pair<E, E>> by; for (E d : divs) { auto &x = by[{d->a->id, d->b->c}]; (d->op == O_UDIV ? x.first : x.second) = d; }
      for (auto &kv : by) {
        E d = kv.second.first ? kv.second.first : kv.second.second; unsigned w = d->w; uint64_t c = d->b->c; Z3_sort s = Z3_mk_bv_sort(Z, w); std::string n = std::to_string(d->id);
        Z3_ast qq = kv.second.first ? zt(kv.second.first) : Z3_mk_const(Z, Z3_mk_string_symbol(Z, ("dq" + n).c_str()), s), rr = kv.second.second ? zt(kv.second.second) : Z3_mk_const(Z, Z3_mk_string_symbol(Z, ("dr" + n).c_str()), s);
        Z3_ast cc = Z3_mk_unsigned_int64(Z, c, s); Z3_ast sum = Z3_mk_bvadd(Z, Z3_mk_bvmul(Z, cc, qq), rr);
        Z3_solver_assert(Z, ZS, Z3_mk_eq(Z, zt(d->a), sum)); Z3_solver_assert(Z, ZS, Z3_mk_bvult(Z, rr, cc)); Z3_solver_assert(Z, ZS, Z3_mk_bvule(Z, qq, Z3_mk_unsigned_int64(Z, maskw(w) / c, s)));
        Z3_solver_assert(Z, ZS, Z3_mk_bvule(Z, rr, zt(d->a))); // no wrap-around of the sum
      }
      r = Z3_solver_check(Z, ZS);
    }
  }
  SatRes res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
  ModelP sm;
  if (res == SAT) {
    Z3_model zm = Z3_solver_get_model(Z, ZS); Z3_model_inc_ref(Z, zm); auto m = std::make_shared<Model>();
    auto get = [&](Z3_ast t) { Z3_ast v = nullptr; uint64_t u = 0; if (Z3_model_eval(Z, zm, t, true, &v)) { Z3_inc_ref(Z, v); Z3_get_numeral_uint64(Z, v, &u); Z3_dec_ref(Z, v); } return u; };
    for (size_t v = 0; v < inSet.size(); v++) if (inSet[v]) { if (!g_vars[v].isArray) { Z3_ast t = Z3_mk_const(Z, Z3_mk_int_symbol(Z, v), Z3_mk_bv_sort(Z, g_vars[v].w)); Z3_inc_ref(Z, t); m->v[v] = get(t); Z3_dec_ref(Z, t); } else m->arr[v]; }
    for (E rd : reads) m->arr[rd->aux][get(zt(rd->a))] = (uint8_t)get(zt(rd));
    Z3_model_dec_ref(Z, zm); sm = m;
    // validate the model on the slice (guards the translation)
    Evaluator ev(*m); for (E e : slice) if (!ev(e)) { fprintf(stderr, "ksym: model validation failed: %s\n", estr(e, 8).c_str()); abort(); }
  }
  Z3_solver_pop(Z, ZS, 1);
  if (getenv("KSYM_DUMPQ")) { static int nq = 0; if (++nq % 50 == 0) { fprintf(stderr, "query res=%d n=%zu %.4f\n", res, slice.size(), std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count()); for (E e : slice) fprintf(stderr, "   %s\n", estr(e, 8).c_str()); } }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); g_ss.time += dt;
  if (getenv("KSYM_SLOW") && dt > atof(getenv("KSYM_SLOW"))) { fprintf(stderr, "slow query %.1fs res=%d slice=%zu\n", dt, res, slice.size()); for (E e : slice) fprintf(stderr, "   %s\n", estr(e, 10).c_str()); }
  if (res == SAT) g_ss.sat++; else if (res == UNSAT) g_ss.unsat++; else g_ss.unknown++;
  if (res != UNKNOWN) { if (qcache.size() > 400000) qcache.clear(); qcache[key] = {res, sm}; }
  if (res == SAT && out) *out = merge(sm);
  return res;
}
