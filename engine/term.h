// Hash-consed, normalising bit-vector terms.
#pragma once
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/SmallVector.h>
#include <llvm/ADT/ArrayRef.h>
#include <llvm/ADT/Hashing.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/ADT/STLExtras.h>
#include <cstdint>
#include <string>
#include <unordered_map>
#include <vector>
#include <map>
#include <functional>

namespace dv {
using llvm::APInt;

enum Op : uint8_t {
  CONST, VAR, UF, LUT, ADD, MUL, UDIV, UREM, SDIV, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  CONCAT, EXTRACT, SEXT, ITE, EQ, ULT, SLT
};

struct Node {
  uint32_t id;
  Op op;
  uint32_t w;
  uint32_t n;       // number of arguments
  uint64_t p;       // EXTRACT: low bit; VAR/UF: name index; LUT: table index
  size_t h;
  const Node **a;
  const APInt *c;   // CONST
  uint64_t lo, hi;  // unsigned interval, w<=64
  bool isConst() const { return op == CONST; }
};
typedef const Node *T;
typedef llvm::SmallVector<T, 8> TV;

extern std::vector<std::string> gNames;           // names of VAR / UF
uint32_t nameId(const std::string &s);
struct Table { uint32_t iw, ow; std::vector<uint64_t> v; uint64_t lo, hi; };
extern std::vector<Table> gTables;
uint32_t tableId(uint32_t iw, uint32_t ow, const std::vector<uint64_t> &v);

T mkConst(const APInt &v);
T mkC(uint32_t w, uint64_t v);
T mkTrue();
T mkFalse();
T mkVar(const std::string &name, uint32_t w);
T mkVarRange(const std::string &name, uint32_t w, uint64_t lo, uint64_t hi);
T mkFresh(const std::string &prefix, uint32_t w);
T mkUF(const std::string &name, uint32_t w, const TV &args);
T mkLut(uint32_t table, T idx);
T mkAddV(const TV &a);
T mkAdd(T a, T b);
T mkSub(T a, T b);
T mkNeg(T a);
T mkMul(T a, T b);
T mkDiv(Op op, T a, T b);
T mkAndV(const TV &a);
T mkXorV(const TV &a);
T mkOrV(const TV &a);
T mkAnd(T a, T b);
T mkXor(T a, T b);
T mkOr(T a, T b);
T mkNot(T a);
T mkShift(Op op, T a, T b);
T mkConcat(const TV &a);  // least significant first
T mkExtract(T x, uint32_t lo, uint32_t w);
T mkZext(T x, uint32_t w);
T mkSext(T x, uint32_t w);
T mkIte(T c, T a, T b);
T mkEq(T a, T b);
T mkUlt(T a, T b);
T mkSlt(T a, T b);
inline T mkNe(T a, T b) { return mkNot(mkEq(a, b)); }
inline T mkUle(T a, T b) { return mkNot(mkUlt(b, a)); }
inline T mkSle(T a, T b) { return mkNot(mkSlt(b, a)); }

// Concrete semantics of one operator; the single definition that simulation, folding and replay share.
APInt evalOp(T n, llvm::ArrayRef<APInt> args);
struct Evaluator {
  std::unordered_map<T, APInt> memo;
  std::function<APInt(T)> var;   // value of a VAR
  uint64_t ufSalt = 0;
  const APInt &eval(T t);
};
std::string show(T t, int depth = 4);
extern bool gBarrier, gArx;
size_t dagSize(T t);
uint64_t nodeCount();
void collectVars(T t, std::vector<T> &out);
} // namespace dv
