#pragma once
#include "expr.h"
#include "ir.h"
#include <functional>
#include <set>
#include <cstring>

template <class T> struct P { // intrusive, single threaded
  T *p = nullptr; P() {} P(T *x) : p(x) { if (p) ++p->rc; } P(const P &o) : p(o.p) { if (p) ++p->rc; } P(P &&o) : p(o.p) { o.p = nullptr; }
  ~P() { if (p && --p->rc == 0) delete p; }
  P &operator=(const P &o) { T *t = o.p; if (t) ++t->rc; if (p && --p->rc == 0) delete p; p = t; return *this; }
  P &operator=(P &&o) { std::swap(p, o.p); return *this; }
  T *operator->() const { return p; } T &operator*() const { return *p; } explicit operator bool() const { return p; }
};
struct Val { uint64_t c = 0; E e = nullptr; Val() {} template <class T, class = typename std::enable_if<std::is_integral<T>::value>::type> Val(T x) : c((uint64_t)x) {} Val(E x) { if (isC(x)) c = x->c; else e = x; } };
static inline E toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

static const uint64_t PG = 4096;
struct Page { int rc = 0; std::vector<uint8_t> b, st; std::vector<E> s; }; // st: 0 concrete 1 symbolic 2 undefined
struct Arr;
struct Obj { int rc = 0; uint64_t cap = 0; E sizeE = nullptr; uint8_t kind = 0; bool ro = false, freed = false; uint64_t addr = 0; std::string label; uint32_t line = 0;
  std::vector<P<Page>> pages; P<Arr> arr; P<Arr> snap; };
enum { K_GLOBAL = 1, K_STACK, K_MALLOC, K_NEW, K_NEWARR, K_TLS, K_EXT };
enum { A_BASE, A_VAR, A_UPD, A_CPY, A_FILL };
struct Arr { int rc = 0; int kind = 0; std::vector<P<Page>> pages; uint64_t cap = 0; uint32_t var = 0; E off = nullptr, len = nullptr, val = nullptr, srcoff = nullptr; P<Arr> prev, src; std::unordered_map<E, E> memo; std::map<uint64_t, E> undef; const Table *tbl = nullptr; int64_t undefVar = -1; int depth = 0; };
struct Chunk { int rc = 0; P<Obj> o[64]; };
struct Frame { Func *f = nullptr; int blk = 0, ip = 0; std::vector<Val> regs; std::vector<uint64_t> allocas; };
struct ExcRec { uint64_t tinfo = 0, dtor = 0; int handlers = 0; };
struct Thread { std::vector<Frame> st; std::map<uint64_t, uint64_t> tls; std::vector<uint64_t> caught; };
struct Input { std::string name; int kind; uint32_t var; unsigned w; uint64_t n; std::vector<uint32_t> bytes; }; // kind 0 scalar 1 byte block 2 lazy array
struct Obs { std::string tag; Val v; unsigned w; };
struct State {
  std::vector<P<Chunk>> mem; uint64_t nextId = 1; std::vector<Thread> th; int cur = 0; std::map<uint64_t, ExcRec> excs;
  std::vector<E> pc; ModelP model; std::vector<Input> inputs; std::vector<Obs> obs; std::vector<std::string> reached;
  uint64_t instrs = 0; uint32_t depth = 0; uint64_t phash = 1469598103934665603ULL; int64_t liveHeap = 0; std::vector<std::string> notes;
  uint64_t errnoAddr = 0;
};
struct PathEnd { int why; std::string msg; }; // 0 done 1 assume 2 violation 3 incomplete 4 shard/pruned
