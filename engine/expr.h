// Hash-consed bit-vector expressions (width 1..64), simplification, evaluation, and the z3 back end.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <memory>

enum Op : uint8_t {
  O_CONST, O_VAR, O_READ, O_TBL, O_ADD, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR,
  O_SHL, O_LSHR, O_ASHR, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE
};

struct Table;  // constant byte table
struct Expr {
  Op op; uint8_t w; bool uninit; mutable uint8_t hasDiv = 0; // hasDiv: 0 unknown, 1 no, 2 yes
  uint32_t id; uint32_t aux;       // var index / array index / extract lo
  uint64_t c;                      // constant
  const Expr *a, *b, *d;
  const Table *tbl;
  uint64_t umin, umax;
  mutable uint64_t evVal; mutable uint32_t evEpoch;
  mutable void *z3;                // Z3_ast
  mutable const std::vector<uint32_t> *sup; // sorted var ids (arrays are vars too)
};
typedef const Expr *E;

struct Table { std::vector<uint8_t> bytes; std::vector<E> syms; };

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline int64_t sextw(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t s = 1ULL << (w - 1); v &= maskw(w); return (int64_t)((v ^ s) - s); }

struct VarInfo { std::string name; unsigned w; bool isArray; uint64_t cap; bool uninit; };
extern std::vector<VarInfo> g_vars;

E mkConst(uint64_t v, unsigned w);
E mkVar(const std::string &name, unsigned w, bool uninit = false);
E mkRanged(const std::string &name, unsigned w, uint64_t lo, uint64_t hi, E *cond);
uint32_t newArrayVar(const std::string &name, uint64_t cap);
E mkRead(uint32_t arr, E idx);             // byte
const Table *internTable(Table &&t); E mkTbl(const Table *t, E idx);            // byte, idx 64 bit
E mkAdd(E a, E b); E mkSub(E a, E b); E mkNeg(E a);
E mkMul(E a, E b);
E mkDiv(Op op, E a, E b);
E mkAnd(E a, E b); E mkOr(E a, E b); E mkXor(E a, E b); E mkNot(E a);
E mkShift(Op op, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZext(E a, unsigned w); E widenLin(E e); E mkSext(E a, unsigned w);
E mkEq(E a, E b); E mkUlt(E a, E b); E mkUle(E a, E b); E mkSlt(E a, E b); E mkSle(E a, E b);
E mkIte(E c, E a, E b);
static inline bool isC(E e) { return e->op == O_CONST; }
const std::vector<uint32_t> &support(E e);
std::string estr(E e, int depth = 6);

struct Model {
  std::unordered_map<uint32_t, uint64_t> v;
  std::unordered_map<uint32_t, std::map<uint64_t, uint8_t>> arr;
};
typedef std::shared_ptr<const Model> ModelP;
uint64_t evalE(E e, const Model &m);  // starts a fresh epoch
struct Evaluator { const Model &m; uint32_t ep; Evaluator(const Model &mm); uint64_t operator()(E e); };

enum SatRes { SAT, UNSAT, UNKNOWN };
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, lia = 0, liaMiss = 0, quick = 0; double time = 0; };
extern SolverStats g_ss;
extern unsigned g_solverTimeoutMs;
extern uint64_t g_deadlineMs;
uint64_t nowMs();
// pc is satisfiable by *base; decides pc && q. On SAT, out = base overridden on the slice.
SatRes solve(const std::vector<E> &pc, E q, const ModelP &base, ModelP *out);
