// Memory pools: what is handed out is whole, aligned, the holder's alone and stays in place; what comes back is used again; all of it is returned in the end.
#include "ks.h"
#include "kanon/mem/fixed_chunk_memory_pool.h"
#include "kanon/mem/linear_fixed_memory_pool.h"
#include "kanon/mem/object_memory_pool.h"
#include "kanon/mem/object_pool_allocator.h"
#include <memory>
#include <list>
#include <map>
#include <string.h>
using namespace kanon;
#ifndef N
#define N 6
#endif
static struct Held { unsigned char *p; unsigned char mark; bool sym; } h[64]; static int nh; static size_t sz; static unsigned seq; static uint64_t probe;
static void intact() { for (int i = 0; i < nh; i++) { ks_check(h[i].p[0] == h[i].mark && h[i].p[sz - 1] == h[i].mark && h[i].p[probe] == h[i].mark, "memory that is held keeps its contents"); for (int j = 0; j < i; j++) ks_check(h[i].p + sz <= h[j].p || h[j].p + sz <= h[i].p, "memory is held by one holder"); } }
static void took(void *p, size_t align) { ks_check(p, "memory is handed out"); if (!p) ks_end(); ks_check(((uintptr_t)p & (align - 1)) == 0, "memory is aligned"); h[nh].p = (unsigned char *)p; h[nh].mark = (unsigned char)++seq; memset(p, h[nh].mark, sz); nh++; }
static unsigned pickOne() { return ks_choose(nh, "which"); }
static void drop(int i) { h[i] = h[--nh]; }
// ---- chunks of one size
enum { MALLOC, FREE, SHRINK, SET, OPS };
static FixedChunkMemoryPool *F; static bool changed; static uint64_t heap0;
static void op(unsigned o) {
  size_t fr = F->GetFreeChunkNum(sz), bl = F->GetBlockNum();
  switch (o) {
  case MALLOC: { size_t per = F->GetChunkPerBlock(); took(F->Malloc(sz), 8); if (fr) { ks_check(F->GetBlockNum() == bl, "no block is added while a chunk is free"); ks_check(F->GetFreeChunkNum(sz) == fr - 1, "a chunk is handed out"); } else { ks_check(F->GetBlockNum() == bl + 1, "a block is added when no chunk is free"); ks_check(F->GetFreeChunkNum(sz) == per - 1, "a block has as many chunks as asked"); } break; }
  case FREE: if (nh) { unsigned i = pickOne(); F->Free(h[i].p); drop(i); ks_check(F->GetFreeChunkNum(sz) == fr + 1 && F->GetBlockNum() == bl, "a chunk that comes back is free"); } break;
  case SHRINK: F->Shrink(sz); ks_check(F->GetBlockNum() <= (size_t)nh, "shrinking returns the blocks without a held chunk"); ks_check(F->GetBlockNum() > 0 || !nh, "shrinking keeps the blocks with a held chunk"); if (!nh) ks_check(ks_live_heap() == heap0, "an empty pool that was shrunk holds no memory"); break;
  case SET: F->SetChunkPerBlock(1 + ks_choose(3, "per block")); break; }
  ks_check((F->GetUsage(sz) == 0) == (F->GetBlockNum() == 0), "the usage is that of the blocks"); ks_check(F->GetUsage(sz) >= (F->GetFreeChunkNum(sz) + nh) * sz, "the usage is that of the blocks"); intact(); }
static void begin(size_t per) { probe = ks_u("byte", 8); ks_assume(probe < sz); F = new FixedChunkMemoryPool(per); heap0 = ks_live_heap(); }
static void end() { delete F; ks_check(ks_live_heap() == heap0 - 1, "a pool that is destroyed returns all its memory"); ks_reach("end"); }
static const size_t Z[] = {4, 8, 12, 24, 40};
KS_HARNESS harness_chunks() { sz = Z[ks_choose(5, "size")]; begin(1 + ks_choose(3, "per")); for (int i = 0; i < N; i++) op(ks_choose(3, "op")); end(); }
KS_HARNESS harness_shrink() { sz = 24; begin(1 + ks_choose(3, "per")); int n = 1 + ks_choose(6, "held"); for (int i = 0; i < n; i++) op(MALLOC); int keep = nh; for (int i = 0; i < keep;) { if (ks_choose(2, "free")) { F->Free(h[i].p); drop(i); keep--; } else i++; } op(SHRINK); unsigned m = ks_choose(4, "more"); for (unsigned i = 0; i < m; i++) op(MALLOC); op(SHRINK); end(); }
KS_HARNESS harness_resize() { sz = 16; begin(1 + ks_choose(3, "per")); for (int i = 0; i < N; i++) op(ks_choose(4, "op")); end(); }
KS_HARNESS harness_sizes() { sz = ks_concretize(ks_range("size", 1, 72)); begin(2); for (int i = 0; i < 3; i++) op(MALLOC); op(FREE); op(MALLOC); while (nh) { F->Free(h[0].p); drop(0); } op(SHRINK); end(); }
KS_HARNESS harness_null() { sz = 8; begin(1); ks_check(!F->Malloc(0), "nothing is handed out for size 0"); F->Free(nullptr); op(MALLOC); F->Free(nullptr); op(FREE); op(SHRINK); op(SHRINK); end(); }
// ---- a run of objects
template <class T> static void linear() {
  sz = sizeof(T); probe = ks_u("byte", 8); ks_assume(probe < sz); uint64_t before = ks_live_heap(); { size_t cap = 1 + ks_choose(2, "size"); LinearFixedMemoryPool<T> p(cap); ks_check(p.size() == cap && p.freesize() == cap, "a pool has the size that is asked"); size_t out = 0;
  for (int i = 0; i < N; i++) { size_t fr = p.freesize(); switch (ks_choose(3, "op")) {
    case 0: took(p.Malloc(), alignof(T)); ks_check(p.freesize() == (fr ? fr - 1 : 0), "objects of the pool are handed out first"); if (!fr) out++; break;
    case 1: if (nh) { unsigned k = pickOne(); T *q = (T *)h[k].p; drop(k); p.Free(q); ks_check(p.freesize() == fr || p.freesize() == fr + 1, "an object that comes back is free"); if (p.freesize() == fr) { ks_check(out > 0, "an object that comes back is free"); out--; } } break;
    case 2: { size_t want = ks_choose(5, "reserve"), was = p.size(); p.Reserve(want); ks_check(p.size() == (want > was ? want : was) && p.freesize() == fr + (p.size() - was), "reserving adds what is missing"); break; } }
    intact(); ks_check(p.size() - p.freesize() + out == (size_t)nh, "every object of the pool is held or free"); }
  while (nh) { T *q = (T *)h[nh - 1].p; nh--; p.Free(q); } ks_check(p.freesize() == p.size(), "an object that comes back is free"); } ks_check(ks_live_heap() == before, "a pool that is destroyed returns all its memory"); ks_reach("end"); }
struct Big { long a, b, c; };
KS_HARNESS harness_linear() { linear<int>(); }
KS_HARNESS harness_linear_big() { linear<Big>(); }
// ---- objects
static int made, gone; struct Obj { long v; char c; explicit Obj(long x = 0) : v(x), c((char)x) { made++; } Obj(Obj const &o) : v(o.v), c(o.c) { made++; } ~Obj() { gone++; v = -1; } };
KS_HARNESS harness_object() { uint64_t before = ks_live_heap(); { ObjectMemoryPool<Big> p(1 + ks_choose(3, "per")); sz = sizeof(Big); probe = ks_u("byte", 8); ks_assume(probe < sz); for (int i = 0; i < N; i++) switch (ks_choose(3, "op")) { case 0: took(p.Malloc(), 8); intact(); ks_check(p.GetUsage() >= nh * sizeof(Big), "the usage covers what is held"); break; case 1: if (nh) { unsigned k = pickOne(); p.Free(h[k].p); drop(k); intact(); } break; case 2: p.Shrink(); intact(); if (!nh) ks_check(p.GetUsage() == 0, "an empty pool that was shrunk holds no memory"); break; } } ks_check(ks_live_heap() == before, "a pool that is destroyed returns all its memory"); ks_reach("end"); }
KS_HARNESS harness_shared() { uint64_t before = ks_live_heap(); { FixedChunkMemoryPool pool(1 + ks_choose(3, "per")); ObjectPoolAllocator<Obj> a(pool); std::shared_ptr<Obj> s[3]; long v[3] = {}; for (int i = 0; i < N; i++) { unsigned k = ks_choose(3, "slot"); switch (ks_choose(2, "op")) { case 0: v[k] = (long)ks_u("v", 32); s[k] = std::allocate_shared<Obj>(a, v[k]); break; case 1: s[k].reset(); break; } int alive = 0; for (int j = 0; j < 3; j++) if (s[j]) { alive++; ks_check(s[j]->v == v[j] && s[j]->c == (char)v[j], "objects keep their values"); } ks_check(made - gone == alive, "objects are constructed and destroyed once"); } for (auto &x : s) x.reset(); ks_check(made == gone, "objects are constructed and destroyed once"); } ks_check(ks_live_heap() == before, "a pool that is destroyed returns all its memory"); ks_reach("end"); }
KS_HARNESS harness_list() { uint64_t before = ks_live_heap(); { FixedChunkMemoryPool pool(2); { std::list<Obj, ObjectPoolAllocator<Obj>> l{ObjectPoolAllocator<Obj>(pool)}; long v[8]; int n = 0; for (int i = 0; i < N; i++) { if (ks_choose(2, "op") || !n) { v[n] = (long)ks_u("v", 16); l.push_back(Obj(v[n++])); } else { l.pop_front(); for (int j = 1; j < n; j++) v[j - 1] = v[j]; n--; } int j = 0; for (auto &o : l) { ks_check(j < n && o.v == v[j], "a list in a pool keeps its elements"); j++; } ks_check(j == n, "a list in a pool keeps its elements"); ks_check(made - gone == n, "objects are constructed and destroyed once"); } } ks_check(made == gone, "objects are constructed and destroyed once"); ks_check(pool.GetBlockNum() <= (N + 1) / 2, "what comes back is used again"); } ks_check(ks_live_heap() == before, "a pool that is destroyed returns all its memory"); ks_reach("end"); }
KS_HARNESS harness_map() { uint64_t before = ks_live_heap(); { FixedChunkMemoryPool pool(2); { typedef std::pair<const int, long> V; std::map<int, long, std::less<int>, ObjectPoolAllocator<V>> m{std::less<int>(), ObjectPoolAllocator<V>(pool)}; long want[3]; bool has[3] = {}; for (int i = 0; i < N; i++) { int k = ks_choose(3, "key"); if (ks_choose(2, "op")) { want[k] = (long)ks_u("v", 16); m[k] = want[k]; has[k] = true; } else { m.erase(k); has[k] = false; } for (int j = 0; j < 3; j++) { auto it = m.find(j); ks_check((it != m.end()) == has[j] && (!has[j] || it->second == want[j]), "a map in a pool keeps its elements"); } } } } ks_check(ks_live_heap() == before, "a pool that is destroyed returns all its memory"); ks_reach("end"); }
