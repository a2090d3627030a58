#include "exec.h"
#include <atomic>
#include <errno.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <algorithm>
#include <unistd.h>
#include <signal.h>

// ---------------------------------------------------------------- options and statistics
static uint64_t o_time = 60, o_budget = 0, o_maxInstr = 4000000, o_maxPaths = ~0ULL; static int o_witness = 6, o_par = 1; static bool o_trace = false, o_verbose = false; static std::string o_entry = "harness_main", o_out, o_root = "/repo";
static struct { uint64_t paths = 0, assumed = 0, violated = 0, incomplete = 0, forks = 0, instrs = 0, checks = 0, memchecks = 0, dropped = 0, pendingAtEnd = 0; } st;
static std::map<std::string, uint64_t> incompleteWhy, reachCnt, violCnt;
struct Viol { std::string kind, msg, where, stack; std::vector<Input> in; ModelP m; std::vector<std::string> notes; };
static std::vector<Viol> viols;
struct Wit { std::vector<Input> in; std::vector<std::pair<std::string, uint64_t>> obs; ModelP m; };
static std::vector<Wit> wits;
static std::vector<State *> work; static State *S = nullptr;
static std::set<std::string> unknownExt;
static uint64_t stdExcDummy = 0;

static Frame &fr() { return S->th[S->cur].st.back(); }
static std::string where() {
  // innermost frame that lies in the repository, plus the harness location
  auto &stk = S->th[S->cur].st; std::string first;
  for (int i = (int)stk.size() - 1; i >= 0; i--) { Frame &f = stk[i]; if (f.ip >= (int)f.f->blocks[f.blk].insts.size()) continue; const Inst &I = f.f->blocks[f.blk].insts[f.ip]; std::string file = I.line ? M.files[I.file] : f.f->srcFile; std::string s = file + ":" + std::to_string(I.line); if (first.empty()) first = s; if (file.find(o_root + "/") == 0) return s; }
  return first;
}
static std::string stackStr() {
  std::string r; auto &stk = S->th[S->cur].st;
  for (int i = (int)stk.size() - 1; i >= 0 && (int)stk.size() - i < 24; i--) { Frame &f = stk[i]; if (f.ip >= (int)f.f->blocks[f.blk].insts.size()) continue; const Inst &I = f.f->blocks[f.blk].insts[f.ip]; r += f.f->name + " " + (I.line ? M.files[I.file] : f.f->srcFile) + ":" + std::to_string(I.line) + "\n"; }
  return r;
}
[[noreturn]] static void incomplete(const std::string &m) { throw PathEnd{3, m}; }
static void recordViol(const std::string &kind, const std::string &msg, const ModelP &m) {
  std::string w = where(), key = kind + "|" + msg + "|" + w; st.violated++;
  if (violCnt[key]++ < 2 && viols.size() < 60) { viols.push_back({kind, msg, w, stackStr(), S->inputs, m, S->notes}); if (o_verbose) fprintf(stderr, "VIOL %s: %s at %s\n%s\n", kind.c_str(), msg.c_str(), w.c_str(), stackStr().c_str()); }
}
[[noreturn]] static void violation(const std::string &kind, const std::string &msg) { recordViol(kind, msg, S->model); throw PathEnd{2, kind + ": " + msg}; }

// ---------------------------------------------------------------- forking
static void addPC(State *s, E c) { if (isC(c)) return; if (c->op == O_AND && c->w == 1) { addPC(s, c->a); addPC(s, c->b); return; } for (E x : s->pc) if (x == c) return; s->pc.push_back(c); }
static bool br(E c) {
  if (isC(c)) return c->c;
  E nc = mkNot(c);
  for (E x : S->pc) { if (x == c) return true; if (x == nc) return false; }
  bool dir = evalE(c, *S->model);
  ModelP om; SatRes r = solve(S->pc, dir ? nc : c, S->model, &om);
  if (r == UNKNOWN) incomplete("solver timeout on a branch");
  if (r == UNSAT) { return dir; }
  State *o = new State(*S); o->model = om; addPC(o, dir ? nc : c); st.forks++;
  addPC(S, dir ? c : nc); work.push_back(o);
  return dir;
}
static bool mustHold(E c, ModelP *cex) { // is c implied by pc? cex: model of pc && !c
  if (isC(c)) { if (!c->c && cex) *cex = S->model; return c->c; }
  for (E x : S->pc) if (x == c) return true;
  if (!evalE(c, *S->model)) { if (cex) *cex = S->model; return false; }
  SatRes r = solve(S->pc, mkNot(c), S->model, cex);
  if (r == UNKNOWN) incomplete("solver timeout on an obligation");
  return r == UNSAT;
}
// zero extension; a sum that cannot wrap under the path condition is extended term by term (keeps offsets in linear form)
static E zextIn(E a, unsigned w) {
  if (w != 64 || a->w > 32) return mkZext(a, w); E x = widenLin(a); if (!x) return mkZext(a, w);
  E c = mkUle(x, mkConst(maskw(a->w), 64)); if (isC(c)) return c->c ? x : mkZext(a, w);
  for (E y : S->pc) if (y == c) return x;
  if (!evalE(c, *S->model)) return mkZext(a, w);
  if (solve(S->pc, mkNot(c), S->model, nullptr) == UNSAT) return x; return mkZext(a, w);
}
// enumerates every feasible value of v (sorted, so that the split does not depend on solver models) and forks one state per value
static uint64_t forkValues(E v) {
  std::vector<uint64_t> vals; vals.push_back(evalE(v, *S->model)); std::vector<ModelP> ms; ms.push_back(S->model);
  std::vector<E> pc = S->pc; E blocked = mkEq(v, mkConst(vals[0], v->w)); ModelP base = S->model;
  while (true) { ModelP m; SatRes r = solve(S->pc, mkNot(blocked), base, &m); if (r == UNKNOWN) incomplete("solver timeout while enumerating values"); if (r == UNSAT) break;
    uint64_t x = evalE(v, *m); vals.push_back(x); ms.push_back(m); blocked = mkOr(blocked, mkEq(v, mkConst(x, v->w))); if (vals.size() > 1100) incomplete("more than 1100 values of a size or address"); }
  if (vals.size() == 1) { addPC(S, mkEq(v, mkConst(vals[0], v->w))); return vals[0]; }
  std::vector<size_t> ix; for (size_t i = 0; i < vals.size(); i++) ix.push_back(i);
  std::sort(ix.begin(), ix.end(), [&](size_t a, size_t b) { return vals[a] > vals[b]; });
  State *base0 = S; std::vector<State *> l; for (size_t k = 0; k < ix.size(); k++) l.push_back(k + 1 == ix.size() ? S : new State(*S));
  for (size_t k = 0; k < ix.size(); k++) { State *s = l[k]; s->model = ms[ix[k]]; addPC(s, mkEq(v, mkConst(vals[ix[k]], v->w))); if (s != base0) { st.forks++; work.push_back(s); } }
  return vals[ix.back()];
}
static uint64_t pcValue(E v, bool &found) { found = false; for (E x : S->pc) if (x->op == O_EQ && x->a == v && isC(x->b)) { found = true; return x->b->c; } else if (x->op == O_EQ && x->b == v && isC(x->a)) { found = true; return x->a->c; } return 0; }
static uint64_t concretize(const Val &v, unsigned) { if (!v.e) return v.c; bool f; uint64_t x = pcValue(v.e, f); return f ? x : forkValues(v.e); }
static void assumeE(E c) {
  if (isC(c)) { if (!c->c) throw PathEnd{1, "assume"}; return; }
  if (evalE(c, *S->model)) { addPC(S, c); return; }
  ModelP m; SatRes r = solve(S->pc, c, S->model, &m);
  if (r == UNKNOWN) incomplete("solver timeout on an assumption");
  if (r == UNSAT) throw PathEnd{1, "assume"};
  S->model = m; addPC(S, c);
}

// ---------------------------------------------------------------- memory
static Obj *getObj(uint64_t id) { uint64_t k = id >> 6; if (k >= S->mem.size() || !S->mem[k]) return nullptr; return S->mem[k]->o[id & 63].p; }
static Obj *getObjW(uint64_t id) {
  auto &ch = S->mem[id >> 6]; if (ch->rc > 1) { Chunk *n = new Chunk(*ch.p); n->rc = 0; ch = P<Chunk>(n); }
  auto &o = ch->o[id & 63]; if (o->rc > 1) { Obj *n = new Obj(*o.p); n->rc = 0; o = P<Obj>(n); }
  return o.p;
}
static void putObj(uint64_t id, Obj *o) { uint64_t k = id >> 6; if (k >= S->mem.size()) S->mem.resize(k + 1); if (!S->mem[k]) S->mem[k] = P<Chunk>(new Chunk); else if (S->mem[k]->rc > 1) { Chunk *n = new Chunk(*S->mem[k].p); n->rc = 0; S->mem[k] = P<Chunk>(n); } S->mem[k]->o[id & 63] = P<Obj>(o); }
static Page *newPage(uint64_t n, bool undef) { Page *p = new Page; p->b.assign(n, 0); if (undef) p->st.assign(n, 2); return p; }
static Obj *newObj(uint64_t cap, int kind, bool undef) {
  Obj *o = new Obj; o->cap = cap; o->kind = kind; uint64_t id = S->nextId++; o->addr = winAddr(id);
  uint64_t np = (cap + PG - 1) / PG; o->pages.resize(np);
  if (!undef || cap <= 64 * PG) for (uint64_t i = 0; i < np; i++) o->pages[i] = P<Page>(newPage(std::min(PG, cap - i * PG), undef));
  putObj(id, o); return o;
}
static Page *pageW(Obj *o, uint64_t i) { auto &p = o->pages[i]; if (!p) p = P<Page>(newPage(std::min(PG, o->cap - i * PG), true)); else if (p->rc > 1) { Page *n = new Page(*p.p); n->rc = 0; p = P<Page>(n); } return p.p; }
static E freshUninit() { return mkVar("uninit", 8, true); }
static E pageByte(const std::vector<P<Page>> &pages, uint64_t off, bool &undef) {
  undef = false; const P<Page> &p = pages[off / PG]; uint64_t i = off % PG; if (!p) { undef = true; return nullptr; }
  if (p->st.empty() || p->st[i] == 0) return mkConst(p->b[i], 8); if (p->st[i] == 1) return p->s[i]; undef = true; return nullptr;
}
static P<Arr> snapshot(Obj *o) { // contents of o as an array
  if (o->arr) return o->arr; if (o->snap) return o->snap;
  Arr *a = new Arr; a->kind = A_BASE; a->pages = o->pages; a->cap = o->cap; P<Arr> p(a); o->snap = p; return p;
}
static E readArr(const P<Arr> &a, E idx);
static bool rdPruned = false; // the value being read was simplified with the current path condition: not shareable between states
static bool cannotHold(E c) { // is c impossible under the path condition (undecided counts as possible)
  if (isC(c)) return !c->c; E nc = mkNot(c); for (E x : S->pc) { if (x == nc) return true; if (x == c) return false; }
  if (evalE(c, *S->model)) return false; return solve(S->pc, c, S->model, nullptr) == UNSAT;
}
static E readArr0(Arr *a, E idx) {
  if (a->kind == A_UPD && !isC(idx) && isC(a->off)) { // a run of single-byte updates at constant positions: skipped together when the index cannot be there
    uint64_t lo = ~0ULL, hi = 0; Arr *b = a; int n = 0; while (b->kind == A_UPD && isC(b->off)) { lo = std::min(lo, b->off->c); hi = std::max(hi, b->off->c); b = b->prev.p; n++; }
    if (n > 1 && hi - lo < 4096) { E in = mkUle(mkSub(idx, mkConst(lo, 64)), mkConst(hi - lo, 64)); if (cannotHold(in)) { P<Arr> pb(b); E r = readArr(pb, idx); rdPruned = true; return r; } }
  }
  switch (a->kind) {
  case A_VAR: return mkRead(a->var, idx);
  case A_UPD: { E c = mkEq(idx, a->off); if (isC(c)) return c->c ? a->val : readArr(a->prev, idx); return mkIte(c, a->val, readArr(a->prev, idx)); }
  case A_CPY: { E d = mkSub(idx, a->off); E c = mkUlt(d, a->len); if (isC(c)) return c->c ? readArr(a->src, mkAdd(d, a->srcoff)) : readArr(a->prev, idx);
    // cheap path-condition pruning
    bool mt = false, mf = false; E nc = mkNot(c); for (E x : S->pc) { if (x == c) mt = true; if (x == nc) mf = true; }
    if (!mt && !mf && (a->depth > 1 || isC(idx))) { if (evalE(c, *S->model)) { if (solve(S->pc, nc, S->model, nullptr) == UNSAT) mt = true; } else if (solve(S->pc, c, S->model, nullptr) == UNSAT) mf = true; }
    if (mt || mf) { E r = mt ? readArr(a->src, mkAdd(d, a->srcoff)) : readArr(a->prev, idx); rdPruned = true; return r; }
    return mkIte(c, readArr(a->src, mkAdd(d, a->srcoff)), readArr(a->prev, idx)); }
  case A_FILL: { E c = mkUlt(mkSub(idx, a->off), a->len); if (isC(c)) return c->c ? a->val : readArr(a->prev, idx); return mkIte(c, a->val, readArr(a->prev, idx)); }
  default: break;
  }
  // base pages
  if (isC(idx)) { if (idx->c >= a->cap) return mkConst(0, 8); bool u; E r = pageByte(a->pages, idx->c, u); if (!u) return r; if (a->undefVar >= 0) return mkRead(a->undefVar, idx); auto &x = a->undef[idx->c]; if (!x) x = freshUninit(); return x; }
  bool anyDef = false; for (auto &p : a->pages) if (p) { if (p->st.empty()) { anyDef = true; break; } for (uint8_t s : p->st) if (s != 2) { anyDef = true; break; } if (anyDef) break; }
  if (!anyDef) { if (a->undefVar < 0) { a->undefVar = newArrayVar("uninit", a->cap); g_vars[a->undefVar].uninit = true; } return mkRead(a->undefVar, idx); }
  { // mostly undefined object: the few defined bytes by comparison, the rest by the undefined-content array
    uint64_t nd = 0; for (uint64_t q = 0; q < a->pages.size() && nd <= 64; q++) { auto &p = a->pages[q]; if (!p) continue; uint64_t m = std::min(PG, a->cap - q * PG); if (p->st.empty()) nd += m; else for (uint64_t i = 0; i < m; i++) if (p->st[i] != 2) nd++; }
    if (nd <= 64 && a->cap > 128) {
      if (a->undefVar < 0) { a->undefVar = newArrayVar("uninit", a->cap); g_vars[a->undefVar].uninit = true; }
      E r = mkRead(a->undefVar, idx);
      { uint64_t lo = ~0ULL, hi = 0; for (uint64_t q = 0; q < a->pages.size(); q++) { auto &p = a->pages[q]; if (!p) continue; uint64_t m = std::min(PG, a->cap - q * PG); for (uint64_t i = 0; i < m; i++) if (p->st.empty() || p->st[i] != 2) { lo = std::min(lo, q * PG + i); hi = std::max(hi, q * PG + i); } }
        if (lo <= hi && hi - lo < 4096 && cannotHold(mkUle(mkSub(idx, mkConst(lo, 64)), mkConst(hi - lo, 64)))) { rdPruned = true; return r; } }
      for (uint64_t q = 0; q < a->pages.size(); q++) { auto &p = a->pages[q]; if (!p) continue; uint64_t m = std::min(PG, a->cap - q * PG); for (uint64_t i = 0; i < m; i++) if (p->st.empty() || p->st[i] != 2) { uint64_t o = q * PG + i; if (o < idx->umin || o > idx->umax) continue; bool u; E v = pageByte(a->pages, o, u); r = mkIte(mkEq(idx, mkConst(o, 64)), v, r); } }
      return r;
    }
  }
  if (!a->tbl) {
    if (a->cap > 65536 * 2) incomplete("symbolic index into a very large object");
    Table t; t.bytes.assign(a->cap, 0); bool sy = false; 
    for (uint64_t i = 0; i < a->cap; i++) { bool u; E r = pageByte(a->pages, i, u); if (u) { if (a->undefVar < 0) a->undefVar = newArrayVar("uninit", a->cap); r = mkRead(a->undefVar, mkConst(i, 64)); } if (isC(r)) t.bytes[i] = r->c; else { if (!sy) { sy = true; t.syms.assign(a->cap, nullptr); } t.syms[i] = r; } }
    a->tbl = internTable(std::move(t)); // tables outlive the object: expressions refer to them
  }
  return mkTbl(a->tbl, idx);
}
static E readArr(const P<Arr> &a, E idx) {
  auto it = a->memo.find(idx); if (it != a->memo.end()) return it->second;
  bool outer = rdPruned; rdPruned = false; E r = readArr0(a.p, idx);
  if (!rdPruned) a->memo[idx] = r;
  rdPruned |= outer; return r;
}
static void toArrMode(Obj *o) { if (!o->arr) { o->arr = snapshot(o); o->snap = P<Arr>(); } }
struct Loc { uint64_t id; Val off; };
static std::string objDesc(Obj *o) { static const char *kn[] = {"?", "global", "stack", "malloc", "new", "new[]", "tls", "ext"}; return std::string(kn[o->kind]) + " object" + (o->label.empty() ? "" : " " + o->label) + " of size " + (o->sizeE ? std::string("<symbolic>") : std::to_string(o->cap)); }
static Loc resolve(const Val &a) {
  uint64_t addr = a.c;
  if (a.e) {
    if ((a.e->umin >> WSHIFT) != (a.e->umax >> WSHIFT)) {
      E hi = mkExtract(a.e, WSHIFT, 64 - WSHIFT); uint64_t w = concretize(Val(hi), 64 - WSHIFT); addr = w << WSHIFT;
    } else addr = a.e->umin;
  }
  uint64_t id = addr >> WSHIFT; Loc l; l.id = id;
  if (a.e) l.off = Val(mkSub(a.e, mkConst(winAddr(id), 64))); else l.off = Val(addr - winAddr(id));
  return l;
}
static uint64_t g_memchk = 0;
// checks [off, off+n) of the object; n may be symbolic
static Obj *access(Loc &l, const Val &n, bool write, const char *what) {
  Obj *o = getObj(l.id); st.memchecks++;
  if (!o) { if (M.fByAddr.count(winAddr(l.id))) violation("memory", std::string(what) + " of code"); violation("memory", std::string(what) + (l.id == 0 ? " through a null pointer" : " through an invalid pointer")); }
  if (o->freed) violation("memory", std::string(what) + " after free of " + objDesc(o));
  if (write && o->ro) violation("memory", std::string("write to read-only ") + objDesc(o));
  if (!l.off.e && !n.e && !o->sizeE) { if (l.off.c > o->cap || n.c > o->cap - l.off.c) violation("memory", std::string(what) + " out of bounds of " + objDesc(o)); return o; }
  E off = toE(l.off, 64), len = toE(n, 64), sz = o->sizeE ? o->sizeE : mkConst(o->cap, 64);
  E ok = mkAnd(mkUle(off, sz), mkUle(len, mkSub(sz, off)));
  ModelP cex; if (!mustHold(ok, &cex)) { S->model = cex; addPC(S, mkNot(ok)); violation("memory", std::string(what) + " out of bounds of " + objDesc(o)); }
  return o;
}
static E loadByteC(Obj *&o, uint64_t id, uint64_t off) {
  if (o->arr) return readArr(o->arr, mkConst(off, 64));
  bool u; E r = pageByte(o->pages, off, u); if (!u) return r;
  o = getObjW(id); Page *p = pageW(o, off / PG); uint64_t i = off % PG; if (p->s.empty()) p->s.assign(p->b.size(), nullptr); p->s[i] = freshUninit(); p->st[i] = 1; return p->s[i];
}
static void storeByteC(Obj *o, uint64_t off, E v) {
  if (o->arr) { E oe = mkConst(off, 64); Arr *a = new Arr; a->kind = A_UPD; a->off = oe; a->val = v; a->prev = o->arr; a->depth = o->arr->depth + 1; o->arr = P<Arr>(a); return; }
  if (o->snap) o->snap = P<Arr>();
  Page *p = pageW(o, off / PG); uint64_t i = off % PG;
  if (isC(v)) { p->b[i] = v->c; if (!p->st.empty()) p->st[i] = 0; return; }
  if (p->st.empty()) p->st.assign(p->b.size(), 0); if (p->s.empty()) p->s.assign(p->b.size(), nullptr); p->st[i] = 1; p->s[i] = v;
}
static void storeByte(Obj *o, E off, E v) {
  if (isC(off)) { storeByteC(o, off->c, v); return; }
  toArrMode(o); Arr *a = new Arr; a->kind = A_UPD; a->off = off; a->val = v; a->prev = o->arr; a->depth = o->arr->depth + 1; o->arr = P<Arr>(a);
}
static Val loadScalar(uint64_t id, const Val &off, unsigned w) {
  unsigned nb = (w + 7) / 8; Obj *o = getObj(id);
  if (!off.e && !o->arr) {
    uint64_t pi = off.c / PG, i = off.c % PG; if (i + nb <= PG) { Page *p = o->pages[pi].p; if (p) { bool plain = p->st.empty(); if (!plain) { plain = true; for (unsigned k = 0; k < nb; k++) if (p->st[i + k]) { plain = false; break; } } if (plain) { uint64_t v = 0; memcpy(&v, &p->b[i], nb); return Val(v & maskw(w)); } } }
  }
  E r = nullptr;
  for (unsigned k = 0; k < nb; k++) { E b = off.e ? readArr(snapshot(o), mkAdd(off.e, mkConst(k, 64))) : loadByteC(o, id, off.c + k); r = r ? mkConcat(b, r) : b; }
  if (nb * 8 != w) r = mkExtract(r, 0, w);
  return Val(r);
}
static void storeScalar(uint64_t id, const Val &off, const Val &v, unsigned w) {
  unsigned nb = (w + 7) / 8; Obj *o = getObjW(id);
  if (!off.e && !v.e && !o->arr) {
    uint64_t pi = off.c / PG, i = off.c % PG; if (i + nb <= PG) { if (o->snap) o->snap = P<Arr>(); Page *p = pageW(o, pi); uint64_t x = v.c & maskw(w); memcpy(&p->b[i], &x, nb); if (!p->st.empty()) memset(&p->st[i], 0, nb); return; }
  }
  E e = toE(v, w); if (nb * 8 != w) e = mkZext(e, nb * 8);
  for (unsigned k = 0; k < nb; k++) { E b = mkExtract(e, 8 * k, 8); if (off.e) storeByte(o, mkAdd(off.e, mkConst(k, 64)), b); else storeByteC(o, off.c + k, b); }
}
static Val loadMem(const Val &addr, unsigned w) { Loc l = resolve(addr); access(l, Val((w + 7) / 8), false, "read"); return loadScalar(l.id, l.off, w); }
static void storeMem(const Val &addr, const Val &v, unsigned w) { Loc l = resolve(addr); access(l, Val((w + 7) / 8), true, "write"); storeScalar(l.id, l.off, v, w); }
static void memCopy(const Val &dst, const Val &src, const Val &n, bool overlapOk) {
  if (!n.e && n.c == 0) return;
  if (n.e && br(mkEq(n.e, mkConst(0, 64)))) return;
  Loc d = resolve(dst), s = resolve(src); Obj *so = access(s, n, false, "read"); access(d, n, true, "write");
  if (!overlapOk && d.id == s.id && !n.e && !d.off.e && !s.off.e && d.off.c != s.off.c && std::max(d.off.c, s.off.c) < std::min(d.off.c, s.off.c) + n.c) violation("memory", "memcpy with overlapping ranges");
  if (!overlapOk && d.id == s.id && (n.e || d.off.e || s.off.e)) { // the same range or disjoint ones
    E de = d.off.e ? d.off.e : mkConst(d.off.c, 64), se = s.off.e ? s.off.e : mkConst(s.off.c, 64), ne = n.e ? n.e : mkConst(n.c, 64);
    E ok = mkOr(mkEq(de, se), mkOr(mkUle(mkAdd(de, ne), se), mkUle(mkAdd(se, ne), de)));
    ModelP cex; if (!mustHold(ok, &cex)) { S->model = cex; addPC(S, mkNot(ok)); violation("memory", "memcpy with overlapping ranges"); }
  }
  if (!n.e && !s.off.e && !d.off.e && !so->arr && !getObj(d.id)->arr) {
    std::vector<uint8_t> b(n.c), stv(n.c, 0); std::vector<E> sy; bool allc = true;
    for (uint64_t i = 0; i < n.c;) { uint64_t o = s.off.c + i, pi = o / PG, k = o % PG, m = std::min(PG - k, n.c - i); Page *p = so->pages[pi].p;
      if (!p) { memset(&stv[i], 2, m); allc = false; } else { memcpy(&b[i], &p->b[k], m); if (!p->st.empty()) for (uint64_t j = 0; j < m; j++) if (p->st[k + j]) { stv[i + j] = p->st[k + j]; allc = false; if (p->st[k + j] == 1) { if (sy.empty()) sy.assign(n.c, nullptr); sy[i + j] = p->s[k + j]; } } }
      i += m; }
    Obj *o = getObjW(d.id); if (o->snap) o->snap = P<Arr>();
    for (uint64_t i = 0; i < n.c;) { uint64_t q = d.off.c + i, pi = q / PG, k = q % PG, m = std::min(PG - k, n.c - i); Page *p = pageW(o, pi); memcpy(&p->b[k], &b[i], m);
      if (!allc || !p->st.empty()) { if (p->st.empty()) p->st.assign(p->b.size(), 0); memcpy(&p->st[k], &stv[i], m); if (!sy.empty()) { if (p->s.empty()) p->s.assign(p->b.size(), nullptr); for (uint64_t j = 0; j < m; j++) if (stv[i + j] == 1) p->s[k + j] = sy[i + j]; } }
      i += m; }
    return;
  }
  if (!n.e && n.c <= 32) { std::vector<E> t(n.c); P<Arr> sn = snapshot(so); for (uint64_t i = 0; i < n.c; i++) t[i] = readArr(sn, mkAdd(toE(s.off, 64), mkConst(i, 64))); Obj *o = getObjW(d.id); for (uint64_t i = 0; i < n.c; i++) storeByte(o, mkAdd(toE(d.off, 64), mkConst(i, 64)), t[i]); return; }
  P<Arr> sn = snapshot(so); Obj *o = getObjW(d.id); toArrMode(o);
  Arr *a = new Arr; a->kind = A_CPY; a->off = toE(d.off, 64); a->len = toE(n, 64); a->srcoff = toE(s.off, 64); a->src = sn; a->prev = o->arr; a->depth = std::max(o->arr->depth, sn->depth) + 1; o->arr = P<Arr>(a);
}
static void memFill(const Val &dst, const Val &v, const Val &n) {
  if (!n.e && n.c == 0) return;
  if (n.e && br(mkEq(n.e, mkConst(0, 64)))) return;
  Loc d = resolve(dst); access(d, n, true, "write"); Obj *o = getObjW(d.id); E b = v.e ? mkExtract(v.e, 0, 8) : mkConst(v.c, 8);
  if (!n.e && !d.off.e && !o->arr && !(n.c >= 1u << 20 && isC(b) && !b->c)) { // (zeroing megabytes stays one array node)
    if (o->snap) o->snap = P<Arr>();
    if (isC(b)) { for (uint64_t i = 0; i < n.c;) { uint64_t q = d.off.c + i, pi = q / PG, k = q % PG, m = std::min(PG - k, n.c - i); Page *p = pageW(o, pi); memset(&p->b[k], (int)b->c, m); if (!p->st.empty()) memset(&p->st[k], 0, m); i += m; } return; }
    for (uint64_t i = 0; i < n.c; i++) storeByteC(o, d.off.c + i, b); return;
  }
  toArrMode(o); Arr *a = new Arr; a->kind = A_FILL; a->off = toE(d.off, 64); a->len = toE(n, 64); a->val = b; a->prev = o->arr; a->depth = o->arr->depth + 1; o->arr = P<Arr>(a);
}
static E byteAt(const Val &p, uint64_t i) { Val a = p.e ? Val(mkAdd(p.e, mkConst(i, 64))) : Val(p.c + i); Val r = loadMem(a, 8); return toE(r, 8); }
static std::string cstr(const Val &p) { std::string s; for (uint64_t i = 0; i < 400; i++) { E b = byteAt(p, i); uint64_t c = isC(b) ? b->c : evalE(b, *S->model); if (!c) break; s += (char)c; } return s; }
static Obj *allocSized(const Val &n, int kind, bool *toobig) {
  *toobig = false; static const uint64_t MAXA = 1ULL << 26;
  if (!n.e) { if (n.c > MAXA) { *toobig = true; return nullptr; } Obj *o = newObj(n.c, kind, true); S->liveHeap++; return o; }
  uint64_t cap = n.e->umax;
  if (cap > MAXA) { if (!br(mkUle(n.e, mkConst(MAXA, 64)))) { *toobig = true; return nullptr; }
    // shrink the reservation by asking for a power-of-two bound
    cap = MAXA; for (uint64_t t = 64; t < MAXA; t *= 4) { if (evalE(n.e, *S->model) > t) continue; if (solve(S->pc, mkUlt(mkConst(t, 64), n.e), S->model, nullptr) == UNSAT) { cap = t; break; } } }
  Obj *o = newObj(cap, kind, true); o->sizeE = n.e; S->liveHeap++; return o;
}
static void freeObj(const Val &p, int kind) {
  if (!p.e && p.c == 0) return;
  if (p.e && br(mkEq(p.e, mkConst(0, 64)))) return;
  Loc l = resolve(p); Obj *o = getObj(l.id);
  if (!o) violation("memory", "free of an invalid pointer");
  if (o->freed) violation("memory", "double free of " + objDesc(o));
  if (l.off.e || l.off.c) { if (!l.off.e || !mustHold(mkEq(l.off.e, mkConst(0, 64)), nullptr)) violation("memory", "free of an interior pointer of " + objDesc(o)); }
  if (o->kind != K_MALLOC && o->kind != K_NEW && o->kind != K_NEWARR) violation("memory", "free of a non-heap object");
  if (o->kind != kind) violation("memory", "allocation/deallocation mismatch on " + objDesc(o));
  o = getObjW(l.id); o->freed = true; o->pages.clear(); o->arr = P<Arr>(); o->snap = P<Arr>(); S->liveHeap--;
}

// ---------------------------------------------------------------- calls, exceptions
static void setResult(const Inst &I, Frame &f, const std::vector<Val> &r) { for (size_t i = 0; i < I.leaves.size() && I.dst >= 0; i++) f.regs[I.dst + i] = i < r.size() ? r[i] : Val(); }
static void takeEdge(Frame &f, const Edge &e);
static void finishCall(const std::vector<Val> &r) { Frame &f = fr(); const Inst &I = f.f->blocks[f.blk].insts[f.ip]; setResult(I, f, r); if (I.op == I_INVOKE) takeEdge(f, I.edges[0]); else f.ip++; }
static Val opv(const Frame &f, Opd o) { return o >= 0 ? f.regs[o] : Val(f.f->consts[~o]); }
static void takeEdge(Frame &f, const Edge &e) {
  if (e.phis.size() == 1) { f.regs[e.phis[0].first] = opv(f, e.phis[0].second); }
  else if (!e.phis.empty()) { Val tmp[64]; std::vector<Val> big; Val *t = tmp; if (e.phis.size() > 64) { big.resize(e.phis.size()); t = big.data(); } for (size_t i = 0; i < e.phis.size(); i++) t[i] = opv(f, e.phis[i].second); for (size_t i = 0; i < e.phis.size(); i++) f.regs[e.phis[i].first] = t[i]; }
  f.blk = e.block; f.ip = 0;
}
static void pushFrame(Func *f, const std::vector<Val> &args) {
  M.compile(f); f->executed = true; Thread &t = S->th[S->cur]; if (t.st.size() > 2000) incomplete("call depth");
  t.st.emplace_back(); Frame &n = t.st.back(); n.f = f; n.regs.resize(f->nslots); for (int i = 0; i < f->nargs && i < (int)args.size(); i++) n.regs[i] = args[i];
}
static void popFrame() { Thread &t = S->th[S->cur]; for (uint64_t a : t.st.back().allocas) { Obj *o = getObjW(a); o->freed = true; o->pages.clear(); o->arr = P<Arr>(); o->snap = P<Arr>(); } t.st.pop_back(); }
static std::string globalNameAt(uint64_t a) { static std::unordered_map<uint64_t, std::string> m; if (m.empty()) for (auto &g : M.globals) m[g.addr] = g.name; auto it = m.find(a); return it == m.end() ? "" : it->second; }
static bool tiMatch(uint64_t t, uint64_t want, int depth = 0) {
  if (t == want) return true; if (!t || depth > 8) return false;
  std::string n = globalNameAt(t), wn = globalNameAt(want);
  if (!n.empty() && n == wn) return true;
  static const std::map<std::string, std::string> par = {{"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTISt12bad_weak_ptr", "_ZTISt9exception"}};
  auto it = par.find(n); if (it != par.end()) { if (it->second == wn) return true; auto g = M.gByName.find(it->second); if (g != M.gByName.end()) return tiMatch(M.globals[g->second].addr, want, depth + 1); // walk names
    std::string q = it->second; while (true) { if (q == wn) return true; auto j = par.find(q); if (j == par.end()) return false; q = j->second; } }
  auto gi = M.gByName.find(n); if (gi == M.gByName.end() || M.globals[gi->second].external) return false;
  Obj *o = getObj(t >> WSHIFT); if (!o) return false; auto rd = [&](uint64_t off) { return loadScalar(t >> WSHIFT, Val(off), 64).c; };
  uint64_t vp = rd(0); std::string vn; for (auto &g : M.globals) if (vp >= g.addr && vp < g.addr + g.size && vp) { vn = g.name; break; }
  if (vn.find("__si_class") != std::string::npos) return tiMatch(rd(16), want, depth + 1);
  if (vn.find("__vmi_class") != std::string::npos) { uint64_t cnt = rd(16) >> 32; for (uint64_t i = 0; i < cnt; i++) if (tiMatch(rd(24 + 16 * i), want, depth + 1)) return true; }
  return false;
}
static int selectorOf(uint64_t ti) { static std::map<uint64_t, int> m; auto it = m.find(ti); if (it != m.end()) return it->second; int k = m.size() + 1; return m[ti] = k; }
static void unwind(uint64_t exc, bool skipTop) {
  Thread &t = S->th[S->cur]; uint64_t ti = S->excs[exc].tinfo; bool found = false;
  auto lpOf = [&](Frame &f) -> const Inst * { if (f.ip >= (int)f.f->blocks[f.blk].insts.size()) return nullptr; const Inst &I = f.f->blocks[f.blk].insts[f.ip]; if (I.op != I_INVOKE) return nullptr; return &f.f->blocks[I.edges[1].block].insts[0]; };
  auto match = [&](const Inst *lp, uint64_t &sel) { for (auto &c : lp->clauses) { if (c.first == 0 && c.second == 0) { sel = selectorOf(0); return true; } if (c.first == 0 && tiMatch(ti, c.second)) { sel = selectorOf(c.second); return true; } } return false; };
  int top = (int)t.st.size() - 1 - (skipTop ? 1 : 0); uint64_t sel = 0;
  for (int i = top; i >= 0 && !found; i--) if (const Inst *lp = lpOf(t.st[i])) if (match(lp, sel)) found = true;
  if (!found) violation("exception", "uncaught exception of type " + globalNameAt(ti));
  if (skipTop) popFrame();
  while (true) {
    Frame &f = t.st.back(); const Inst *lp = lpOf(f);
    if (lp) { sel = 0; bool m = match(lp, sel); if (m || lp->cleanup) { const Inst &I = f.f->blocks[f.blk].insts[f.ip]; int d = lp->dst; Edge e = I.edges[1]; takeEdge(f, e); f.regs[d] = Val(exc); f.regs[d + 1] = Val((uint64_t)(m ? sel : 0)); f.ip = 1; return; } }
    popFrame(); if (t.st.empty()) incomplete("unwind past thread entry");
  }
}
static bool callByName(const char *n, const std::vector<Val> &a) { auto it = M.fByName.find(n); if (it == M.fByName.end() || it->second->isDecl) return false; pushFrame(it->second, a); return true; }
static void throwBadAlloc() { if (!callByName("ks_throw_bad_alloc", {})) violation("exception", "allocation failure"); }

typedef std::function<void(const Inst &, std::vector<Val> &)> Handler;
static std::unordered_map<std::string, int> hIdx; static std::vector<Handler> handlers;
static void H(const char *n, Handler h) { hIdx[n] = handlers.size(); handlers.push_back(h); }
static unsigned retW(const Inst &I) { return I.leaves.empty() ? 0 : I.leaves[0].w; }
static void ret(const Val &v) { finishCall({v}); }
static void retv() { finishCall({}); }
static double asD(uint64_t b, unsigned w) { if (w == 32) { float f; uint32_t x = b; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &b, 8); return d; }
static uint64_t fromD(double d, unsigned w) { if (w == 32) { float f = d; uint32_t x; memcpy(&x, &f, 4); return x; } uint64_t b; memcpy(&b, &d, 8); return b; }
static Val binop(unsigned sub, const Val &a, const Val &b, unsigned w);
static std::string jesc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32 || (unsigned char)c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", (unsigned char)c); r += b; } else r += c; } return r; }

static void defineHandlers() {
  auto noop = [](const Inst &, std::vector<Val> &) { finishCall({Val(0)}); };
  H("ks_symbolic", [](const Inst &, std::vector<Val> &) { ret(Val(1)); });
  H("ks_u", [](const Inst &, std::vector<Val> &a) { std::string n = cstr(a[0]); unsigned w = concretize(a[1], 32); E v = mkVar(n, w); S->inputs.push_back({n, 0, v->aux, w, 0, {}}); ret(Val(mkZext(v, 64))); });
  H("ks_range", [](const Inst &, std::vector<Val> &a) { std::string n = cstr(a[0]); uint64_t lo = concretize(a[1], 64), hi = concretize(a[2], 64); if (lo > hi) throw PathEnd{1, "assume"}; unsigned w = 1; while (w < 64 && (hi >> w)) ++w; E c; E v = mkRanged(n, w, lo, hi, &c); S->inputs.push_back({n, 0, v->aux, w, 0, {}}); auto m = std::make_shared<Model>(*S->model); m->v[v->aux] = lo; S->model = m; addPC(S, c); ret(Val(mkZext(v, 64))); });
  H("ks_bytes", [](const Inst &, std::vector<Val> &a) { std::string n = cstr(a[2]); uint64_t k = concretize(a[1], 64); Input in{n, 1, 0, 8, k, {}}; Loc l = resolve(a[0]); access(l, Val(k), true, "write"); Obj *o = getObjW(l.id); for (uint64_t i = 0; i < k; i++) { E v = mkVar(n + "[" + std::to_string(i) + "]", 8); in.bytes.push_back(v->aux); storeByte(o, mkAdd(toE(l.off, 64), mkConst(i, 64)), v); } S->inputs.push_back(in); retv(); });
  H("ks_lazy", [](const Inst &, std::vector<Val> &a) { // void* ks_lazy(size_t cap, const char* name): object of cap symbolic bytes
    std::string n = cstr(a[1]); uint64_t cap = concretize(a[0], 64); uint32_t v = newArrayVar(n, cap); Obj *o = newObj(0, K_EXT, true); o->cap = cap; o->label = n; Arr *x = new Arr; x->kind = A_VAR; x->var = v; x->cap = cap; o->arr = P<Arr>(x); S->inputs.push_back({n, 2, v, 8, cap, {}}); ret(Val(o->addr)); });
  H("ks_assume", [](const Inst &, std::vector<Val> &a) { if (!a[0].e) { if (!(a[0].c & 1)) throw PathEnd{1, "assume"}; } else assumeE(a[0].e->w == 1 ? a[0].e : mkNot(mkEq(a[0].e, mkConst(0, a[0].e->w)))); retv(); });
  H("ks_check", [](const Inst &, std::vector<Val> &a) { st.checks++; std::string m = cstr(a[1]);
    if (!a[0].e) { if (!(a[0].c & 1)) violation("check", m); retv(); return; }
    E c = a[0].e->w == 1 ? a[0].e : mkNot(mkEq(a[0].e, mkConst(0, a[0].e->w))); ModelP cex;
    if (!mustHold(c, &cex)) { recordViol("check", m, cex); assumeE(c); } retv(); });
  H("ks_reach", [](const Inst &, std::vector<Val> &a) { S->reached.push_back(cstr(a[0])); retv(); });
  H("ks_note", [](const Inst &, std::vector<Val> &a) { S->notes.push_back(cstr(a[0])); retv(); });
  H("ks_observe", [](const Inst &, std::vector<Val> &a) { S->obs.push_back({cstr(a[0]), a[1], 64}); retv(); });
  H("ks_choose", [](const Inst &, std::vector<Val> &a) {
    uint64_t n = concretize(a[0], 32); std::string nm = cstr(a[1]); if (n == 0) incomplete("choose(0)"); if (n == 1) { ret(Val(0)); return; }
    E v = mkVar(nm, 32); S->inputs.push_back({nm, 0, v->aux, 32, 0, {}}); std::vector<State *> l; State *base = S;
    for (uint64_t i = n; i-- > 0;) { State *s = i == 0 ? base : new State(*base); l.push_back(s); }
    for (uint64_t k = 0; k < l.size(); k++) { uint64_t i = n - 1 - k; State *s = l[k]; S = s; auto m = std::make_shared<Model>(*s->model); m->v[v->aux] = i; s->model = m; addPC(s, mkEq(v, mkConst(i, 32))); ret(Val(i)); if (s != base) { st.forks++; work.push_back(s); } }
    S = base; });
  H("ks_concretize", [](const Inst &, std::vector<Val> &a) { ret(Val(concretize(a[0], 64))); });
  H("ks_is_sym", [](const Inst &, std::vector<Val> &a) { ret(Val(a[0].e ? 1 : 0)); });
  H("ks_live_heap", [](const Inst &, std::vector<Val> &) { ret(Val((uint64_t)S->liveHeap)); });
  H("ks_spawn", [](const Inst &, std::vector<Val> &a) { int id = S->th.size(); S->th.emplace_back(); int cur = S->cur; Func *f = M.fByAddr[a[0].c]; S->cur = id; pushFrame(f, {a[1]}); S->cur = cur; ret(Val((uint64_t)id)); });
  H("ks_switch", [](const Inst &, std::vector<Val> &a) { uint64_t t = concretize(a[0], 32); retv(); S->cur = t; });
  H("ks_self", [](const Inst &, std::vector<Val> &) { ret(Val((uint64_t)S->cur)); });
  H("ks_end", [](const Inst &, std::vector<Val> &) { throw PathEnd{0, ""}; });
  H("ks_incomplete", [](const Inst &, std::vector<Val> &a) { incomplete(cstr(a[0])); });
  H("ks_fmt_double", [](const Inst &, std::vector<Val> &a) { char b[512]; std::string f = cstr(a[2]); if (a[3].e) incomplete("formatting a symbolic double"); int k = snprintf(b, sizeof b, f.c_str(), asD(a[3].c, 64)); for (int i = 0; i <= k && i < (int)a[1].c; i++) storeMem(Val(a[0].c + i), Val((uint64_t)(uint8_t)b[i]), 8); ret(Val((uint64_t)(uint32_t)k)); });
  // memory
  auto alloc = [](int kind, bool nothrow) { return [kind, nothrow](const Inst &, std::vector<Val> &a) { bool big; Obj *o = allocSized(a[0], kind, &big); if (big) { if (nothrow) { ret(Val(0)); return; } throwBadAlloc(); return; } o->line = 0; ret(Val(o->addr)); }; };
  H("malloc", alloc(K_MALLOC, true));
  for (const char *n : {"_Znwm", "_ZnwmSt11align_val_t"}) H(n, alloc(K_NEW, false));
  for (const char *n : {"_Znam", "_ZnamSt11align_val_t"}) H(n, alloc(K_NEWARR, false));
  H("_ZnwmRKSt9nothrow_t", alloc(K_NEW, true)); H("_ZnamRKSt9nothrow_t", alloc(K_NEWARR, true));
  H("calloc", [](const Inst &, std::vector<Val> &a) { Val n = binop(B_MUL, a[0], a[1], 64); bool big; Obj *o = allocSized(n, K_MALLOC, &big); if (big) { ret(Val(0)); return; } memFill(Val(o->addr), Val(0), n); ret(Val(o->addr)); });
  auto doRealloc = [](const Val &p, const Val &n) {
    if (!n.e && n.c == 0 && (p.e || p.c)) { freeObj(p, K_MALLOC); ret(Val(0)); return; }
    if (n.e && (p.e || p.c) && br(mkEq(n.e, mkConst(0, 64)))) { freeObj(p, K_MALLOC); ret(Val(0)); return; }
    bool big; if (!p.e && p.c == 0) { Obj *o = allocSized(n, K_MALLOC, &big); ret(Val(big ? 0 : o->addr)); return; }
    Loc l = resolve(p); Obj *o = getObj(l.id); if (!o) violation("memory", "realloc of an invalid pointer"); if (o->freed) violation("memory", "realloc after free");
    E os = o->sizeE ? o->sizeE : mkConst(o->cap, 64); 
    Obj *q = allocSized(n, K_MALLOC, &big); if (big) { ret(Val(0)); return; }
    E ns = toE(n, 64); E m = mkIte(mkUlt(os, ns), os, ns); uint64_t na = q->addr; memCopy(Val(na), p, Val(m), true); freeObj(p, K_MALLOC); ret(Val(na)); };
  H("realloc", [doRealloc](const Inst &, std::vector<Val> &a) { doRealloc(a[0], a[1]); });
  H("reallocarray", [doRealloc](const Inst &, std::vector<Val> &a) { doRealloc(a[0], binop(B_MUL, a[1], a[2], 64)); });
  H("free", [](const Inst &, std::vector<Val> &a) { freeObj(a[0], K_MALLOC); retv(); });
  for (const char *n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) H(n, [](const Inst &, std::vector<Val> &a) { freeObj(a[0], K_NEW); retv(); });
  for (const char *n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t"}) H(n, [](const Inst &, std::vector<Val> &a) { freeObj(a[0], K_NEWARR); retv(); });
  H("memcpy", [](const Inst &, std::vector<Val> &a) { memCopy(a[0], a[1], a[2], false); ret(a[0]); });
  H("memmove", [](const Inst &, std::vector<Val> &a) { memCopy(a[0], a[1], a[2], true); ret(a[0]); });
  H("memset", [](const Inst &, std::vector<Val> &a) { memFill(a[0], a[1], a[2]); ret(a[0]); });
  auto memcmpH = [](const Inst &I, std::vector<Val> &a) {
    uint64_t n = concretize(a[2], 64); unsigned w = retW(I); if (n == 0) { ret(Val(0)); return; }
    Loc x = resolve(a[0]), y = resolve(a[1]); access(x, Val(n), false, "read"); access(y, Val(n), false, "read");
    E r = mkConst(0, w); for (uint64_t i = n; i-- > 0;) { E p = byteAt(a[0], i), q = byteAt(a[1], i); if (p == q) continue; r = mkIte(mkEq(p, q), r, mkIte(mkUlt(p, q), mkConst(~0ULL, w), mkConst(1, w))); if (i == 0) break; } ret(Val(r)); };
  H("memcmp", memcmpH); H("bcmp", memcmpH);
  H("strlen", [](const Inst &, std::vector<Val> &a) { for (uint64_t i = 0;; i++) { if (i > 100000) incomplete("strlen"); E b = byteAt(a[0], i); if (br(mkEq(b, mkConst(0, 8)))) { ret(Val(i)); return; } } });
  H("memchr", [](const Inst &, std::vector<Val> &a) { uint64_t n = concretize(a[2], 64); E c = a[1].e ? mkExtract(a[1].e, 0, 8) : mkConst(a[1].c, 8); for (uint64_t i = 0; i < n; i++) { E b = byteAt(a[0], i); if (br(mkEq(b, c))) { ret(binop(B_ADD, a[0], Val(i), 64)); return; } } ret(Val(0)); });
  // aborts and friends
  H("abort", [](const Inst &, std::vector<Val> &) { violation("abort", "abort() reached"); });
  H("__assert_fail", [](const Inst &, std::vector<Val> &a) { violation("assert", "assertion failed: " + cstr(a[0])); });
  H("_ZSt9terminatev", [](const Inst &, std::vector<Val> &) { violation("exception", "std::terminate"); });
  H("__cxa_pure_virtual", [](const Inst &, std::vector<Val> &) { violation("abort", "pure virtual call"); });
  H("__clang_call_terminate", [](const Inst &, std::vector<Val> &) { violation("exception", "exception leaves a noexcept function"); });
  H("exit", [](const Inst &, std::vector<Val> &) { violation("abort", "exit() reached"); });
  H("_exit", [](const Inst &, std::vector<Val> &) { violation("abort", "_exit() reached"); });
  H("llvm.trap", [](const Inst &, std::vector<Val> &) { violation("abort", "trap"); });
  // C++ runtime
  H("__cxa_allocate_exception", [](const Inst &, std::vector<Val> &a) { Obj *o = newObj(concretize(a[0], 64), K_EXT, false); o->label = "exception"; ret(Val(o->addr)); });
  H("__cxa_free_exception", noop);
  H("__cxa_throw", [](const Inst &, std::vector<Val> &a) { S->excs[a[0].c] = {a[1].c, a[2].c, 0}; unwind(a[0].c, false); });
  H("__cxa_begin_catch", [](const Inst &, std::vector<Val> &a) { S->excs[a[0].c].handlers++; S->th[S->cur].caught.push_back(a[0].c); ret(a[0]); });
  H("__cxa_get_exception_ptr", [](const Inst &, std::vector<Val> &a) { ret(a[0]); });
  H("__cxa_end_catch", [](const Inst &, std::vector<Val> &) { auto &c = S->th[S->cur].caught; if (c.empty()) { retv(); return; } uint64_t e = c.back(); c.pop_back(); ExcRec &r = S->excs[e]; if (--r.handlers == 0 && r.dtor) { Func *f = M.fByAddr[r.dtor]; if (f && !f->isDecl) { pushFrame(f, {Val(e)}); return; } } retv(); });
  H("__cxa_rethrow", [](const Inst &, std::vector<Val> &) { auto &c = S->th[S->cur].caught; if (c.empty()) violation("exception", "rethrow without exception"); uint64_t e = c.back(); S->excs[e].handlers += 1; unwind(e, false); });
  H("__cxa_guard_acquire", [](const Inst &, std::vector<Val> &a) { Val g = loadMem(a[0], 8); ret(Val(g.c ? 0 : 1)); });
  H("__cxa_guard_release", [](const Inst &, std::vector<Val> &a) { storeMem(a[0], Val(1), 8); retv(); });
  H("__cxa_guard_abort", noop); H("__cxa_atexit", noop); H("__cxa_thread_atexit", noop); H("atexit", noop);
  H("_ZNSt8ios_base4InitC1Ev", noop); H("_ZNSt8ios_base4InitD1Ev", noop); H("_ZSt21ios_base_library_initv", noop);
  H("__cxa_uncaught_exceptions", noop); H("_ZSt18uncaught_exceptionv", noop);
  // compiler intrinsics
  for (const char *n : {"llvm.lifetime.start", "llvm.lifetime.end", "llvm.dbg.value", "llvm.dbg.declare", "llvm.dbg.label", "llvm.assume", "llvm.experimental.noalias.scope.decl", "llvm.prefetch", "llvm.donothing", "llvm.invariant.end", "llvm.stackrestore", "llvm.var.annotation", "llvm.sideeffect"}) H(n, noop);
  H("llvm.stacksave", noop); H("llvm.invariant.start", noop);
  for (const char *n : {"llvm.expect", "llvm.launder.invariant.group", "llvm.strip.invariant.group", "llvm.ptr.annotation"}) H(n, [](const Inst &, std::vector<Val> &a) { ret(a[0]); });
  H("llvm.memcpy", [](const Inst &, std::vector<Val> &a) { memCopy(a[0], a[1], a[2], false); retv(); });
  H("llvm.memmove", [](const Inst &, std::vector<Val> &a) { memCopy(a[0], a[1], a[2], true); retv(); });
  H("llvm.memset", [](const Inst &, std::vector<Val> &a) { memFill(a[0], a[1], a[2]); retv(); });
  H("llvm.eh.typeid.for", [](const Inst &, std::vector<Val> &a) { ret(Val((uint64_t)selectorOf(a[0].c))); });
  H("llvm.is.constant", noop);
  H("llvm.objectsize", [](const Inst &, std::vector<Val> &) { ret(Val(~0ULL)); });
  H("llvm.threadlocal.address", [](const Inst &, std::vector<Val> &a) {
    auto &t = S->th[S->cur].tls; auto it = t.find(a[0].c); if (it != t.end()) { ret(Val(it->second)); return; }
    for (auto &g : M.globals) if (g.addr == a[0].c) { Obj *o = newObj(g.size, K_TLS, false); o->label = g.name; for (uint64_t i = 0; i < g.size; i++) storeByteC(o, i, mkConst(g.bytes[i], 8)); S->th[S->cur].tls[a[0].c] = o->addr; ret(Val(o->addr)); return; }
    incomplete("tls"); });
  auto mm = [](int k) { return [k](const Inst &I, std::vector<Val> &a) { unsigned w = retW(I); if (I.leaves.size() != 1 || w > 64) incomplete("vector minmax"); E x = toE(a[0], w), y = toE(a[1], w); E c = k == 0 ? mkUlt(x, y) : k == 1 ? mkUlt(y, x) : k == 2 ? mkSlt(x, y) : mkSlt(y, x); ret(Val(mkIte(c, x, y))); }; };
  H("llvm.umin", mm(0)); H("llvm.umax", mm(1)); H("llvm.smin", mm(2)); H("llvm.smax", mm(3));
  H("llvm.abs", [](const Inst &I, std::vector<Val> &a) { unsigned w = retW(I); E x = toE(a[0], w); ret(Val(mkIte(mkSlt(x, mkConst(0, w)), mkNeg(x), x))); });
  H("llvm.bswap", [](const Inst &I, std::vector<Val> &a) { unsigned w = retW(I); E x = toE(a[0], w), r = nullptr; for (unsigned i = 0; i < w / 8; i++) { E b = mkExtract(x, 8 * i, 8); r = r ? mkConcat(r, b) : b; } ret(Val(r)); });
  H("llvm.ctpop", [](const Inst &I, std::vector<Val> &a) { unsigned w = retW(I); if (!a[0].e) { ret(Val((uint64_t)__builtin_popcountll(a[0].c))); return; } E r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkAdd(r, mkZext(mkExtract(a[0].e, i, 1), w)); ret(Val(r)); });
  H("llvm.ctlz", [](const Inst &I, std::vector<Val> &a) { unsigned w = retW(I); E x = toE(a[0], w), r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkEq(mkExtract(x, i, 1), mkConst(1, 1)), mkConst(w - 1 - i, w), r); ret(Val(r)); });
  H("llvm.cttz", [](const Inst &I, std::vector<Val> &a) { unsigned w = retW(I); E x = toE(a[0], w), r = mkConst(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkEq(mkExtract(x, i, 1), mkConst(1, 1)), mkConst(i, w), r); ret(Val(r)); });
  auto fsh = [](bool left) { return [left](const Inst &I, std::vector<Val> &a) { unsigned w = retW(I); uint64_t s = concretize(a[2], w) % w; E x = toE(a[0], w), y = toE(a[1], w); if (s == 0) { ret(left ? a[0] : a[1]); return; } if (!left) s = w - s; ret(Val(mkOr(mkShift(O_SHL, x, mkConst(s, w)), mkShift(O_LSHR, y, mkConst(w - s, w))))); }; };
  H("llvm.fshl", fsh(true)); H("llvm.fshr", fsh(false));
  auto ov = [](int k) { return [k](const Inst &I, std::vector<Val> &a) { unsigned w = I.leaves[0].w; E x = toE(a[0], w), y = toE(a[1], w), r, o;
    if (k == 0) { r = mkAdd(x, y); o = mkUlt(r, x); } else if (k == 1) { r = mkSub(x, y); o = mkUlt(x, y); }
    else if (k == 2) { r = mkMul(x, y); if (w <= 32) o = mkNot(mkEq(mkExtract(mkMul(mkZext(x, 2 * w), mkZext(y, 2 * w)), w, w), mkConst(0, w))); else if (isC(x) || isC(y)) { uint64_t c = isC(x) ? x->c : y->c; E v = isC(x) ? y : x; o = c == 0 ? mkConst(0, 1) : mkUlt(mkConst(maskw(w) / c, w), v); } else o = mkAnd(mkNot(mkEq(x, mkConst(0, w))), mkNot(mkEq(mkDiv(O_UDIV, r, mkIte(mkEq(x, mkConst(0, w)), mkConst(1, w), x)), y))); }
    else if (k == 3) { r = mkAdd(x, y); E z = mkConst(0, w); o = mkAnd(mkEq(mkSlt(x, z), mkSlt(y, z)), mkNot(mkEq(mkSlt(r, z), mkSlt(x, z)))); }
    else if (k == 4) { r = mkSub(x, y); E z = mkConst(0, w); o = mkAnd(mkNot(mkEq(mkSlt(x, z), mkSlt(y, z))), mkNot(mkEq(mkSlt(r, z), mkSlt(x, z)))); }
    else { if (w > 32) { if (isC(x) && isC(y)) { __int128 p = (__int128)sextw(x->c, w) * sextw(y->c, w); r = mkConst((uint64_t)p, w); o = mkConst(p != (__int128)sextw((uint64_t)p, w), 1); } else incomplete("smul.with.overflow"); } else { E p = mkMul(mkSext(x, 2 * w), mkSext(y, 2 * w)); r = mkExtract(p, 0, w); o = mkNot(mkEq(mkSext(r, 2 * w), p)); } }
    finishCall({Val(r), Val(o)}); }; };
  H("llvm.uadd.with.overflow", ov(0)); H("llvm.usub.with.overflow", ov(1)); H("llvm.umul.with.overflow", ov(2)); H("llvm.sadd.with.overflow", ov(3)); H("llvm.ssub.with.overflow", ov(4)); H("llvm.smul.with.overflow", ov(5));
  H("llvm.usub.sat", [](const Inst &I, std::vector<Val> &a) { unsigned w = retW(I); E x = toE(a[0], w), y = toE(a[1], w); ret(Val(mkIte(mkUlt(x, y), mkConst(0, w), mkSub(x, y)))); });
  H("llvm.uadd.sat", [](const Inst &I, std::vector<Val> &a) { unsigned w = retW(I); E x = toE(a[0], w), y = toE(a[1], w); E s = mkAdd(x, y); ret(Val(mkIte(mkUlt(s, x), mkConst(~0ULL, w), s))); });
  auto f1 = [](double (*fn)(double)) { return [fn](const Inst &I, std::vector<Val> &a) { if (a[0].e) incomplete("symbolic floating point"); unsigned w = retW(I); ret(Val(fromD(fn(asD(a[0].c, w)), w))); }; };
  H("llvm.fabs", f1(fabs)); H("llvm.floor", f1(floor)); H("llvm.ceil", f1(ceil)); H("llvm.trunc", f1(trunc)); H("llvm.round", f1(round)); H("llvm.sqrt", f1(sqrt)); H("ceil", f1(ceil)); H("floor", f1(floor)); H("ceilf", f1(ceil));
  H("llvm.fmuladd", [](const Inst &I, std::vector<Val> &a) { if (a[0].e || a[1].e || a[2].e) incomplete("symbolic floating point"); unsigned w = retW(I); ret(Val(fromD(asD(a[0].c, w) * asD(a[1].c, w) + asD(a[2].c, w), w))); });
  auto snp = [](int fmtIdx) { return [fmtIdx](const Inst &, std::vector<Val> &a) { // (buf,n,fmt,...) -> ks_vsn(buf,n,fmt,args*)
    Obj *o = newObj(8 * (a.size() + 1), K_EXT, false); uint64_t ad = o->addr; for (size_t i = fmtIdx + 1; i < a.size(); i++) storeMem(Val(ad + 8 * (i - fmtIdx - 1)), a[i].e && a[i].e->w < 64 ? Val(mkZext(a[i].e, 64)) : a[i], 64);
    Val buf = a[0], n = fmtIdx == 2 ? a[1] : Val(1 << 20); if (!callByName("ks_vsn", {buf, n, a[fmtIdx], Val(ad)})) incomplete("snprintf without model"); }; };
  H("snprintf", snp(2)); H("sprintf", snp(1));
  H("printf", noop); H("fprintf", noop); H("puts", noop); H("putchar", noop);
}
static int findHandler(const std::string &n) {
  auto it = hIdx.find(n); if (it != hIdx.end()) return it->second;
  if (n.compare(0, 5, "llvm.") == 0) { // strip type suffixes
    std::string s = n; while (true) { size_t p = s.rfind('.'); if (p == std::string::npos || p <= 5) return -1; s = s.substr(0, p); it = hIdx.find(s); if (it != hIdx.end()) return it->second; }
  }
  return -1;
}
static Func *g_preempt = nullptr;

static Val binop(unsigned sub, const Val &a, const Val &b, unsigned w) {
  if (!a.e && !b.e) {
    uint64_t m = maskw(w), x = a.c, y = b.c, r = 0;
    switch (sub) {
    case B_ADD: r = x + y; break; case B_SUB: r = x - y; break; case B_MUL: r = x * y; break;
    case B_UDIV: if (!(y & m)) violation("arith", "division by zero"); r = (x & m) / (y & m); break;
    case B_UREM: if (!(y & m)) violation("arith", "division by zero"); r = (x & m) % (y & m); break;
    case B_SDIV: case B_SREM: { int64_t p = sextw(x, w), q = sextw(y, w); if (!q) violation("arith", "division by zero"); if (q == -1) r = sub == B_SDIV ? -(uint64_t)p : 0; else r = sub == B_SDIV ? p / q : p % q; break; }
    case B_AND: r = x & y; break; case B_OR: r = x | y; break; case B_XOR: r = x ^ y; break;
    case B_SHL: r = y >= w ? 0 : x << y; break; case B_LSHR: r = y >= w ? 0 : (x & m) >> y; break; case B_ASHR: r = sextw(x, w) >> (y >= w ? w - 1 : y); break;
    }
    return Val(r & m);
  }
  E x = toE(a, w), y = toE(b, w);
  switch (sub) {
  case B_ADD: return Val(mkAdd(x, y)); case B_SUB: return Val(mkSub(x, y)); case B_MUL: return Val(mkMul(x, y));
  case B_AND: return Val(mkAnd(x, y)); case B_OR: return Val(mkOr(x, y)); case B_XOR: return Val(mkXor(x, y));
  case B_SHL: return Val(mkShift(O_SHL, x, y)); case B_LSHR: return Val(mkShift(O_LSHR, x, y)); case B_ASHR: return Val(mkShift(O_ASHR, x, y));
  default: { if (br(mkEq(y, mkConst(0, w)))) violation("arith", "division by zero"); static const Op m[] = {O_UDIV, O_SDIV, O_UREM, O_SREM}; Op o = m[sub - B_UDIV];
    if ((o == O_SDIV || o == O_SREM) && isC(y) && w > 8 && y->c && y->c < (1ULL << (w - 1)) && x->op == O_ADD && x->umax >= 1ULL << (w - 1) && mustHold(mkSle(mkConst(0, w), x), nullptr)) o = o == O_SDIV ? O_UDIV : O_UREM; // never negative on this path
    return Val(mkDiv(o, x, y)); }
  }
}
static Val icmp(unsigned pred, const Val &a, const Val &b, unsigned w) {
  if (!a.e && !b.e) {
    uint64_t m = maskw(w), x = a.c & m, y = b.c & m; int64_t p = sextw(x, w), q = sextw(y, w); bool r = false;
    switch (pred) { case P_EQ: r = x == y; break; case P_NE: r = x != y; break; case P_ULT: r = x < y; break; case P_ULE: r = x <= y; break; case P_UGT: r = x > y; break; case P_UGE: r = x >= y; break; case P_SLT: r = p < q; break; case P_SLE: r = p <= q; break; case P_SGT: r = p > q; break; case P_SGE: r = p >= q; break; }
    return Val((uint64_t)r);
  }
  E x = toE(a, w), y = toE(b, w);
  switch (pred) { case P_EQ: return Val(mkEq(x, y)); case P_NE: return Val(mkNot(mkEq(x, y))); case P_ULT: return Val(mkUlt(x, y)); case P_ULE: return Val(mkUle(x, y)); case P_UGT: return Val(mkUlt(y, x)); case P_UGE: return Val(mkUle(y, x)); case P_SLT: return Val(mkSlt(x, y)); case P_SLE: return Val(mkSle(x, y)); case P_SGT: return Val(mkSlt(y, x)); default: return Val(mkSle(y, x)); }
}

static void doCall(const Inst &I, Frame &f) {
  Func *c = I.callee; std::vector<Val> args(I.ops.size());
  if (!c) {
    Val p = opv(f, I.fp); uint64_t a = p.e ? concretize(p, 64) : p.c; auto it = M.fByAddr.find(a);
    if (it == M.fByAddr.end()) violation("memory", a == 0 ? "call through a null function pointer" : "call through an invalid function pointer");
    c = it->second;
  }
  for (size_t i = 0; i < args.size(); i++) args[i] = opv(f, I.ops[i]);
  if (c->isDecl) {
    if (!c->handlerInit) { c->handlerInit = true; c->handler = findHandler(c->name); auto it = M.fByName.find("env_" + c->name); if (it != M.fByName.end() && !it->second->isDecl) { c->handler = -1; c->ll = it->second; c->vararg = true; } else c->ll = nullptr; }
    if (c->ll) { Func *t = (Func *)c->ll; pushFrame(t, args); return; }
    if (c->handler < 0) { if (c->name.compare(0, 5, "llvm.") == 0) incomplete("intrinsic " + c->name); incomplete("unmodelled external " + c->name); }
    handlers[c->handler](I, args); return;
  }
  if (hIdx.count(c->name) && c->name == "__clang_call_terminate") { handlers[hIdx[c->name]](I, args); return; }
  bool bv = false; for (uint64_t b : I.byval) if (b) bv = true;
  std::vector<uint64_t> copies;
  if (bv) for (size_t i = 0; i < args.size(); i++) if (I.byval[i]) { Obj *o = newObj(I.byval[i], K_STACK, true); uint64_t ad = o->addr; memCopy(Val(ad), args[i], Val(I.byval[i]), true); args[i] = Val(ad); copies.push_back(ad >> WSHIFT); }
  pushFrame(c, args); for (uint64_t x : copies) fr().allocas.push_back(x);
}
static uint64_t g_startMs;
static void step() { // executes until PathEnd
  uint64_t cnt = 0;
  while (true) {
    Frame &f = S->th[S->cur].st.back(); const Inst &I = f.f->blocks[f.blk].insts[f.ip];
    ++S->instrs; ++st.instrs; if ((++cnt & 0xfff) == 0) { if (S->instrs > o_maxInstr) violation("hang", "path exceeds the instruction limit"); if (nowMs() > g_deadlineMs) throw PathEnd{5, "time"}; }
    if (o_trace) fprintf(stderr, "%s b%d i%d op%d %s:%u\n", f.f->name.c_str(), f.blk, f.ip, I.op, I.line ? M.files[I.file].c_str() : "", I.line);
    switch (I.op) {
    case I_NOP: f.ip++; break;
    case I_BIN: for (int64_t k = 0; k < I.k; k++) f.regs[I.dst + k] = binop(I.sub, opv(f, I.ops[k]), opv(f, I.ops[I.k + k]), I.w); f.ip++; break;
    case I_ICMP: for (int64_t k = 0; k < I.k; k++) f.regs[I.dst + k] = icmp(I.sub, opv(f, I.ops[k]), opv(f, I.ops[I.k + k]), I.w); f.ip++; break;
    case I_FBIN: { Val a = opv(f, I.ops[0]), b = opv(f, I.ops[1]); if (a.e || b.e || I.k != 1) incomplete("symbolic floating point"); double x = asD(a.c, I.w), y = asD(b.c, I.w), r = I.sub == 0 ? x + y : I.sub == 1 ? x - y : I.sub == 2 ? x * y : x / y; f.regs[I.dst] = Val(fromD(r, I.w)); f.ip++; break; }
    case I_FNEG: { Val a = opv(f, I.ops[0]); if (a.e) incomplete("symbolic floating point"); f.regs[I.dst] = Val(fromD(-asD(a.c, I.w), I.w)); f.ip++; break; }
    case I_FCMP: { Val a = opv(f, I.ops[0]), b = opv(f, I.ops[1]); if (a.e || b.e) incomplete("symbolic floating point"); double x = asD(a.c, I.w), y = asD(b.c, I.w); bool un = x != x || y != y, r = false; int p = I.sub; if (un) r = p & 8; else if (x == y) r = p & 1; else if (x > y) r = p & 2; else r = p & 4; f.regs[I.dst] = Val((uint64_t)r); f.ip++; break; }
    case I_CAST:
      for (size_t k = 0; k < I.ops.size(); k++) { Val a = opv(f, I.ops[k]); Val r;
        switch (I.sub) {
        case C_TRUNC: r = a.e ? Val(mkExtract(a.e, 0, I.w)) : Val(a.c & maskw(I.w)); break;
        case C_ZEXT: r = a.e ? Val(zextIn(a.e, I.w)) : Val(a.c); break;
        case C_SEXT: r = a.e ? Val(mkSext(a.e, I.w)) : Val((uint64_t)sextw(a.c, I.w2) & maskw(I.w)); break;
        case C_SAME: r = a; break;
        default: if (a.e) incomplete("symbolic floating point conversion");
          switch (I.sub) { case C_FPTOSI: { double d = asD(a.c, I.w2); r = Val((uint64_t)(int64_t)d & maskw(I.w)); break; } case C_FPTOUI: r = Val((uint64_t)asD(a.c, I.w2) & maskw(I.w)); break; case C_SITOFP: r = Val(fromD((double)sextw(a.c, I.w2), I.w)); break; case C_UITOFP: r = Val(fromD((double)a.c, I.w)); break; case C_FPEXT: case C_FPTRUNC: r = Val(fromD(asD(a.c, I.w2), I.w)); break; } }
        f.regs[I.dst + k] = r; }
      f.ip++; break;
    case I_SELECT: { Val c = opv(f, I.ops[0]); size_t n = I.leaves.size(); bool fork = I.sub || n > 1; 
      if (c.e && fork) { bool same = true; for (size_t k = 0; k < n; k++) { Val x = opv(f, I.ops[1 + k]), y = opv(f, I.ops[1 + n + k]); if (x.e != y.e || x.c != y.c) same = false; } if (same) c = Val(1); else c = Val((uint64_t)br(c.e)); }
      for (size_t k = 0; k < n; k++) { Val x = opv(f, I.ops[1 + k]), y = opv(f, I.ops[1 + n + k]); f.regs[I.dst + k] = !c.e ? (c.c & 1 ? x : y) : Val(mkIte(c.e, toE(x, I.leaves[k].w), toE(y, I.leaves[k].w))); }
      f.ip++; break; }
    case I_COPY: { if (I.ops.size() == 1) f.regs[I.dst] = opv(f, I.ops[0]); else { std::vector<Val> t; for (Opd o : I.ops) t.push_back(opv(f, o)); for (size_t k = 0; k < t.size(); k++) f.regs[I.dst + k] = t[k]; } f.ip++; break; }
    case I_ALLOCA: { uint64_t n = concretize(opv(f, I.ops[0]), 64); Obj *o = newObj(I.k * n, K_STACK, true); o->line = I.line; f.allocas.push_back(o->addr >> WSHIFT); f.regs[I.dst] = Val(o->addr); f.ip++; break; }
    case I_LOAD: { Loc l = resolve(opv(f, I.ops[0])); access(l, Val((uint64_t)I.k), false, "read"); for (size_t k = 0; k < I.leaves.size(); k++) { Val off = l.off.e ? Val(mkAdd(l.off.e, mkConst(I.leaves[k].off, 64))) : Val(l.off.c + I.leaves[k].off); f.regs[I.dst + k] = loadScalar(l.id, off, I.leaves[k].w); } f.ip++; break; }
    case I_STORE: { Loc l = resolve(opv(f, I.ops[0])); access(l, Val((uint64_t)I.k), true, "write"); for (size_t k = 0; k < I.leaves.size(); k++) { Val off = l.off.e ? Val(mkAdd(l.off.e, mkConst(I.leaves[k].off, 64))) : Val(l.off.c + I.leaves[k].off); storeScalar(l.id, off, opv(f, I.ops[1 + k]), I.leaves[k].w); } f.ip++; break; }
    case I_GEP: { Val b = opv(f, I.ops[0]); if (I.k) b = binop(B_ADD, b, Val((uint64_t)I.k), 64); for (auto &g : I.idx) { Val x = opv(f, g.o); if (!x.e) b = binop(B_ADD, b, Val((uint64_t)(sextw(x.c, g.w) * g.scale)), 64); else b = Val(mkAdd(toE(b, 64), mkMul(mkSext(x.e, 64), mkConst(g.scale, 64)))); } f.regs[I.dst] = b; f.ip++; break; }
    case I_CALL: case I_INVOKE: doCall(I, f); break;
    case I_RET: {
      std::vector<Val> r; for (Opd o : I.ops) r.push_back(opv(f, o)); popFrame();
      if (S->th[S->cur].st.empty()) { if (S->cur == 0) throw PathEnd{0, ""}; incomplete("thread function returned to the engine"); }
      finishCall(r); break; }
    case I_BR: takeEdge(f, I.edges[0]); break;
    case I_CONDBR: { Val c = opv(f, I.ops[0]); bool b = c.e ? br(c.e) : (c.c & 1); takeEdge(f, I.edges[b ? 0 : 1]); break; }
    case I_SWITCH: { Val v = opv(f, I.ops[0]); size_t t = 0; for (size_t k = 0; k < I.cases.size(); k++) { if (!v.e) { if ((v.c & maskw(I.w)) == (I.cases[k] & maskw(I.w))) { t = k + 1; break; } } else if (br(mkEq(v.e, mkConst(I.cases[k], I.w)))) { t = k + 1; break; } } takeEdge(f, I.edges[t]); break; }
    case I_UNREACHABLE: violation("ub", "control reaches unreachable code (missing return or call of a noreturn function that returns)");
    case I_LANDINGPAD: incomplete("landingpad reached by fallthrough");
    case I_RESUME: unwind(opv(f, I.ops[0]).c, true); break;
    case I_RMW: { Val p = opv(f, I.ops[0]), v = opv(f, I.ops[1]); Val o = loadMem(p, I.w), n; E x = toE(o, I.w), y = toE(v, I.w);
      switch (I.sub) { case 0: n = v; break; case 1: n = binop(B_ADD, o, v, I.w); break; case 2: n = binop(B_SUB, o, v, I.w); break; case 3: n = binop(B_AND, o, v, I.w); break; case 5: n = binop(B_OR, o, v, I.w); break; case 6: n = binop(B_XOR, o, v, I.w); break; case 7: n = Val(mkIte(mkSlt(y, x), x, y)); break; case 8: n = Val(mkIte(mkSlt(x, y), x, y)); break; case 9: n = Val(mkIte(mkUlt(y, x), x, y)); break; case 10: n = Val(mkIte(mkUlt(x, y), x, y)); break; default: incomplete("atomicrmw"); }
      storeMem(p, n, I.w); f.regs[I.dst] = o; f.ip++; break; }
    case I_CMPXCHG: { Val p = opv(f, I.ops[0]); Val o = loadMem(p, I.w); Val c = icmp(P_EQ, o, opv(f, I.ops[1]), I.w); bool eq = c.e ? br(c.e) : c.c; if (eq) storeMem(p, opv(f, I.ops[2]), I.w); f.regs[I.dst] = o; f.regs[I.dst + 1] = Val((uint64_t)eq); f.ip++; break; }
    default: incomplete(I.note);
    }
  }
}

// ---------------------------------------------------------------- driver
static void initMemory() {
  S->nextId = M.nextWin;
  for (auto &g : M.globals) {
    Obj *o = new Obj; o->cap = g.size; o->kind = K_GLOBAL; o->addr = g.addr; o->ro = g.ro; o->label = g.name; uint64_t np = (g.size + PG - 1) / PG; o->pages.resize(np);
    for (uint64_t i = 0; i < np; i++) { Page *p = new Page; uint64_t k = std::min(PG, g.size - i * PG); p->b.assign(g.bytes.begin() + i * PG, g.bytes.begin() + i * PG + k); o->pages[i] = P<Page>(p); }
    putObj(g.addr >> WSHIFT, o);
    if (g.external && g.name.compare(0, 4, "_ZTI") == 0 && g.name.size() < 200) { // type_info of the C++ runtime: [vtable, name]
      storeMem(Val(g.addr + 8), Val(g.addr + 32), 64); for (size_t i = 4; i <= g.name.size(); i++) storeMem(Val(g.addr + 28 + i), Val((uint64_t)(unsigned char)g.name.c_str()[i]), 8); }
    if (g.external && g.name.compare(0, 6, "_ZTVSt") == 0) { // vtable of a std exception: [top, typeinfo, D1, D0, what]
      const char *n[] = {"ks_exc_dtor", "ks_exc_dtor0", "ks_exc_what"}; for (int i = 0; i < 3; i++) { auto it = M.fByName.find(n[i]); if (it != M.fByName.end()) storeMem(Val(g.addr + 16 + 8 * i), Val(it->second->addr), 64); } }
  }
}
static void dumpInputs(FILE *o, const std::vector<Input> &in, const ModelP &m) {
  fprintf(o, "["); bool first = true; Evaluator ev(*m);
  auto var = [&](uint32_t v) { auto it = m->v.find(v); return it == m->v.end() ? 0ULL : (unsigned long long)it->second; };
  for (auto &i : in) {
    fprintf(o, "%s{\"n\":\"%s\",", first ? "" : ",", jesc(i.name).c_str()); first = false;
    if (i.kind == 0) fprintf(o, "\"k\":0,\"w\":%u,\"v\":\"%llu\"}", i.w, var(i.var));
    else if (i.kind == 1) { fprintf(o, "\"k\":1,\"v\":\""); for (uint32_t b : i.bytes) fprintf(o, "%02llx", var(b)); fprintf(o, "\"}"); }
    else { fprintf(o, "\"k\":2,\"cap\":%llu,\"v\":{", (unsigned long long)i.n); auto it = m->arr.find(i.var); bool f2 = true; if (it != m->arr.end()) for (auto &p : it->second) { if (p.first < i.n) { fprintf(o, "%s\"%llu\":%u", f2 ? "" : ",", (unsigned long long)p.first, p.second); f2 = false; } } fprintf(o, "}}"); }
  }
  fprintf(o, "]");
}
static bool timedOut = false; static double wall = 0;
static void output() {
  FILE *o = o_out.empty() ? stdout : fopen(o_out.c_str(), "w"); if (!o) { perror("out"); exit(3); }
  fprintf(o, "{\"entry\":\"%s\",\"exhaustive\":%s,\"timed_out\":%s,\"paths\":%llu,\"assume_killed\":%llu,\"violating\":%llu,\"incomplete\":%llu,\"forks\":%llu,\"instrs\":%llu,\"checks\":%llu,\"memchecks\":%llu,\"pending\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\n", o_entry.c_str(), (!timedOut && st.incomplete == 0) ? "true" : "false", timedOut ? "true" : "false",
    (unsigned long long)st.paths, (unsigned long long)st.assumed, (unsigned long long)st.violated, (unsigned long long)st.incomplete, (unsigned long long)st.forks, (unsigned long long)st.instrs, (unsigned long long)st.checks, (unsigned long long)st.memchecks, (unsigned long long)st.pendingAtEnd, (unsigned long long)g_ss.queries, (unsigned long long)g_ss.sat, (unsigned long long)g_ss.unsat, (unsigned long long)g_ss.unknown, (unsigned long long)g_ss.cacheHits, g_ss.time, wall);
  fprintf(o, "\"incomplete_why\":{"); bool f = true; for (auto &p : incompleteWhy) { fprintf(o, "%s\"%s\":%llu", f ? "" : ",", jesc(p.first).c_str(), (unsigned long long)p.second); f = false; }
  fprintf(o, "},\n\"reach\":{"); f = true; for (auto &p : reachCnt) { fprintf(o, "%s\"%s\":%llu", f ? "" : ",", jesc(p.first).c_str(), (unsigned long long)p.second); f = false; }
  fprintf(o, "},\n\"functions\":["); f = true; for (auto *x : M.funcs) if (x->executed && x->srcFile.find(o_root) != std::string::npos) { fprintf(o, "%s[\"%s\",\"%s\"]", f ? "" : ",", jesc(x->name).c_str(), jesc(x->srcFile).c_str()); f = false; }
  fprintf(o, "],\n\"violations\":["); f = true;
  for (auto &v : viols) { fprintf(o, "%s\n{\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"stack\":\"%s\",\"notes\":[", f ? "" : ",", jesc(v.kind).c_str(), jesc(v.msg).c_str(), jesc(v.where).c_str(), jesc(v.stack).c_str()); f = false; bool g = true; for (auto &n : v.notes) { fprintf(o, "%s\"%s\"", g ? "" : ",", jesc(n).c_str()); g = false; } fprintf(o, "],\"inputs\":"); dumpInputs(o, v.in, v.m); fprintf(o, "}"); }
  fprintf(o, "],\n\"witnesses\":["); f = true;
  for (auto &w : wits) { fprintf(o, "%s\n{\"inputs\":", f ? "" : ","); f = false; dumpInputs(o, w.in, w.m); fprintf(o, ",\"obs\":["); bool g = true; for (auto &p : w.obs) { fprintf(o, "%s[\"%s\",\"%llu\"]", g ? "" : ",", jesc(p.first).c_str(), (unsigned long long)p.second); g = false; } fprintf(o, "]}"); }
  fprintf(o, "]}\n"); if (o != stdout) fclose(o);
}
static void finishPath(const PathEnd &e) {
  if (e.why == 0) {
    st.paths++; for (auto &r : S->reached) reachCnt[r]++;
    // reservoir of witnesses: first few plus exponentially spaced ones
    bool take = (int)wits.size() < o_witness; if (!take && (st.paths & (st.paths - 1)) == 0) { take = true; wits.erase(wits.begin() + (st.paths % wits.size())); }
    if (take) { Wit w; w.in = S->inputs; w.m = S->model; Evaluator ev(*S->model); bool ok = true; for (auto &o : S->obs) { if (o.v.e && o.v.e->uninit) ok = false; w.obs.push_back({o.tag, o.v.e ? ev(o.v.e) : o.v.c}); } if (ok) wits.push_back(w); }
  } else if (e.why == 1) { st.assumed++; for (auto &r : S->reached) reachCnt[r]++; }
  else if (e.why == 2) { for (auto &r : S->reached) reachCnt[r]++; }
  else if (e.why == 3) { st.incomplete++; incompleteWhy[e.msg]++; if (o_verbose) fprintf(stderr, "INCOMPLETE %s at %s\n%s\n", e.msg.c_str(), where().c_str(), stackStr().c_str()); }
}
struct Shm { std::atomic<int> slots{0}, files{0}; };
static Shm *shm = nullptr;
static bool takeSlot() { int v = shm->slots.load(); while (v > 0) if (shm->slots.compare_exchange_weak(v, v - 1)) return true; return false; }
static uint64_t g_procStart = 0;
static void maybeSplit() {
  if (work.size() < 2 || shm->slots.load() <= 0 || nowMs() - g_procStart < 60) return; if (!takeSlot()) return;
  fflush(stdout); fflush(stderr); int id = ++shm->files; pid_t p = fork(); if (p < 0) { shm->slots++; return; }
  g_procStart = nowMs(); std::vector<State *> mine; // every second pending path goes to the new process
  for (size_t i = 0; i < work.size(); i++) { if ((i % 2 == 0) == (p == 0)) mine.push_back(work[i]); else if (p) delete work[i]; } work.swap(mine);
  if (p == 0) { if (!o_out.empty()) { size_t d = o_out.rfind('#'); o_out = o_out.substr(0, d) + "#" + std::to_string(id); } st = decltype(st)(); g_ss = SolverStats(); viols.clear(); violCnt.clear(); wits.clear(); reachCnt.clear(); incompleteWhy.clear(); o_witness = 1; g_startMs = nowMs(); }
}
[[noreturn]] static void runJob() {
  Func *entry = M.fByName.count(o_entry) ? M.fByName[o_entry] : nullptr; if (!entry || entry->isDecl) { fprintf(stderr, "no entry %s\n", o_entry.c_str()); _exit(3); }
  g_procStart = g_startMs = nowMs(); g_deadlineMs = g_startMs + o_time * 1000;
  pushFrame(entry, {}); work.push_back(S); bool stop = false;
  while (!work.empty() && !stop) {
    maybeSplit();
    S = work.back(); work.pop_back();
    try { step(); } catch (PathEnd &e) { if (e.why == 5) { timedOut = true; st.pendingAtEnd = work.size() + 1; stop = true; } else finishPath(e); }
    delete S; S = nullptr;
    if (nowMs() > g_deadlineMs && !work.empty()) { timedOut = true; st.pendingAtEnd = work.size(); break; }
    if (st.paths >= o_maxPaths && !work.empty()) { timedOut = true; st.pendingAtEnd = work.size(); break; }
    if (viols.size() >= 60) { timedOut = true; st.pendingAtEnd = work.size(); break; }
  }
  wall = (nowMs() - g_startMs) / 1000.0;
  output(); shm->slots++;
  if (o_verbose) fprintf(stderr, "paths %llu assumed %llu viol %llu incomplete %llu forks %llu instrs %llu queries %llu lia %llu/%llu solver %.2fs wall %.2fs%s\n", (unsigned long long)st.paths, (unsigned long long)st.assumed, (unsigned long long)st.violated, (unsigned long long)st.incomplete, (unsigned long long)st.forks, (unsigned long long)st.instrs, (unsigned long long)g_ss.queries, (unsigned long long)g_ss.lia, (unsigned long long)g_ss.liaMiss, g_ss.time, wall, timedOut ? " (timed out)" : "");
  fflush(stdout); fflush(stderr); _exit(0);
}
int instrumentModule(const std::string &in, const std::string &out, const std::vector<std::string> &match);
int main(int argc, char **argv) {
  std::vector<std::string> in, jobs, match; std::string inst;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "-entry") o_entry = nx(); else if (a == "-time") o_time = std::stoull(nx()); else if (a == "-out") o_out = nx(); else if (a == "-par") o_par = std::stoi(nx()); else if (a == "-job") jobs.push_back(nx()); else if (a == "-budget") o_budget = std::stoull(nx()); else if (a == "-maxinstr") o_maxInstr = std::stoull(nx()); else if (a == "-maxpaths") o_maxPaths = std::stoull(nx()); else if (a == "-wit") o_witness = std::stoi(nx()); else if (a == "-v") o_verbose = true; else if (a == "-trace") o_trace = true; else if (a == "-root") o_root = nx(); else if (a == "-instrument") inst = nx(); else if (a == "-instr-match") match.push_back(nx()); else in.push_back(a); }
  if (!inst.empty()) return instrumentModule(in[0], inst, match);
  g_startMs = nowMs(); g_deadlineMs = g_startMs + o_time * 1000;
  M.load(in); defineHandlers();
  S = new State; S->model = std::make_shared<Model>(); S->th.resize(1); initMemory();
  // static constructors, then the entry, run as one driver: constructors first
  for (Func *c : M.ctors) {
    // run to completion concretely
    pushFrame(c, {});
    try { step(); } catch (PathEnd &e) { if (e.why != 0) { fprintf(stderr, "static constructor %s: %s\n%s", c->name.c_str(), e.msg.c_str(), S->th[S->cur].st.empty() ? "" : stackStr().c_str()); return 3; } }
    S->th[0].st.clear();
  }
  S->instrs = 0; S->inputs.clear(); S->liveHeap = 0;
  if (jobs.empty()) jobs.push_back(o_entry + "," + std::to_string(o_time) + "," + std::to_string(o_witness) + "," + std::to_string(o_maxInstr) + "," + o_out);
  // one process per job; running jobs split their pending paths over further processes while processors are free
  shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (shm) Shm; shm->slots = o_par; prctl(PR_SET_CHILD_SUBREAPER, 1);
  int bad = 0; auto reap = [&](bool block) { int ws; pid_t q; while ((q = waitpid(-1, &ws, block ? 0 : WNOHANG)) > 0 || (q < 0 && errno == EINTR)) { if (q > 0 && (!WIFEXITED(ws) || WEXITSTATUS(ws))) { bad++; if (WIFSIGNALED(ws)) shm->slots++; fprintf(stderr, "ksym: a worker process failed (status %d)\n", ws); } } };
  // a job's second field is the time it may take, its sixth the share of the budget which earlier jobs leave to it
  auto fields = [](const std::string &j) { std::vector<std::string> f; std::string cur; for (char c : j + ",") { if (c == ',') { f.push_back(cur); cur.clear(); } else cur += c; } if (f.size() < 6) f.push_back("10"); return f; };
  uint64_t t0 = nowMs(), later = 0; for (auto &j : jobs) later += std::stoull(fields(j)[5]);
  for (auto &j : jobs) {
    auto f = fields(j); uint64_t share = std::stoull(f[5]); later -= share;
    while (!takeSlot()) { reap(false); usleep(2000); }
    fflush(stdout); fflush(stderr); pid_t p = fork(); if (p < 0) { perror("fork"); return 3; }
    if (p == 0) { o_entry = f[0]; o_time = std::stoull(f[1]); if (o_budget) { uint64_t used = (nowMs() - t0) / 1000, left = o_budget > used + later ? o_budget - used - later : 0; o_time = std::min(o_time, std::max(share, left)); } o_witness = std::stoi(f[2]); o_maxInstr = std::stoull(f[3]); o_out = f[4]; runJob(); }
  }
  reap(true);
  fflush(stdout); fflush(stderr); _exit(bad ? 4 : 0);
}
