// Internal representation of the program under analysis, lowered from LLVM bitcode.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>

enum IOp : uint16_t {
  I_NOP, I_BIN, I_ICMP, I_FBIN, I_FCMP, I_CAST, I_SELECT, I_COPY, I_ALLOCA, I_LOAD, I_STORE, I_GEP, I_CALL, I_INVOKE, I_RET,
  I_BR, I_CONDBR, I_SWITCH, I_UNREACHABLE, I_LANDINGPAD, I_RESUME, I_RMW, I_CMPXCHG, I_FNEG, I_UNSUPPORTED
};
enum Bin : uint8_t { B_ADD, B_SUB, B_MUL, B_UDIV, B_SDIV, B_UREM, B_SREM, B_AND, B_OR, B_XOR, B_SHL, B_LSHR, B_ASHR };
enum Pred : uint8_t { P_EQ, P_NE, P_ULT, P_ULE, P_UGT, P_UGE, P_SLT, P_SLE, P_SGT, P_SGE };
enum Cast : uint8_t { C_TRUNC, C_ZEXT, C_SEXT, C_FPTOSI, C_FPTOUI, C_SITOFP, C_UITOFP, C_FPEXT, C_FPTRUNC, C_SAME };

struct Leaf { uint32_t off; uint8_t w; };     // one scalar of a flattened type (byte offset, bit width)
typedef std::vector<Leaf> Leaves;
typedef int32_t Opd;                           // >=0: register slot; <0: constant ~i of the function's pool
struct Func;
struct Edge { int block = 0; std::vector<std::pair<int, Opd>> phis; };
struct GIdx { Opd o; uint8_t w; int64_t scale; };
struct Inst {
  IOp op = I_NOP; uint8_t w = 0, w2 = 0, sub = 0; bool nsw = false, atomic = false;
  int dst = -1;                                // first destination slot
  std::vector<Opd> ops;                        // flattened operands
  Leaves leaves;                               // load/store/alloca element layout, call: result leaves
  int64_t k = 0;                               // gep constant offset, alloca size, insertvalue etc.
  std::vector<GIdx> idx;
  Func *callee = nullptr;                      // direct call
  Opd fp = 0;                                  // indirect callee
  std::vector<Edge> edges;                     // branch targets; invoke: 0 normal, 1 unwind
  std::vector<uint64_t> cases;                 // switch values, edge i+1
  std::vector<std::pair<int, uint64_t>> clauses; // landingpad: (0 catch / 1 filter, typeinfo address); catch-all = 0
  bool cleanup = false;
  std::vector<uint64_t> byval;                 // call: per flattened operand, byval size or 0
  uint32_t line = 0; uint32_t file = 0;
  std::string note;
};
struct Blk { std::vector<Inst> insts; };
struct Func {
  std::string name; uint64_t addr = 0; bool isDecl = true, compiled = false, vararg = false;
  int nslots = 0, nargs = 0; std::vector<Blk> blocks;
  std::vector<uint64_t> consts; std::vector<uint64_t> execLines;
  void *ll = nullptr; int handler = -1; bool executed = false; bool handlerInit = false;
  std::string srcFile;
};
struct GlobalInit { std::string name; uint64_t addr = 0, size = 0; bool ro = false, tls = false, external = false; std::vector<uint8_t> bytes; };
struct Module {
  std::vector<GlobalInit> globals; std::unordered_map<std::string, int> gByName;
  std::vector<Func *> funcs; std::unordered_map<std::string, Func *> fByName; std::unordered_map<uint64_t, Func *> fByAddr;
  std::vector<Func *> ctors; uint64_t nextWin = 1;
  std::vector<std::string> files; 
  void load(const std::vector<std::string> &paths);
  void compile(Func *f);
};
extern Module M;
static const int WSHIFT = 28; static const uint64_t WBASE = 1ULL << 20;
static inline uint64_t winAddr(uint64_t id) { return (id << WSHIFT) + WBASE; }
