// Symbolic execution of LLVM IR with state merging: the VC generator.
#pragma once
#include "term.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/DataLayout.h>
#include <memory>
#include <set>

namespace dv {
struct Val { llvm::SmallVector<T, 1> v; T s() const { return v.empty() ? nullptr : v[0]; } };

struct Cell { T t = nullptr; uint32_t i = 0; };
// An object of symbolic size: initial content plus a log of writes, newest last.
struct Layer {
  enum Kind { WRITE, RANGE, COPY } kind;
  T off;            // start offset (64 bits)
  T len;            // RANGE/COPY: length in bytes (64 bits)
  T val;            // WRITE: value; RANGE: byte template over bound variable
  T bound = nullptr; // RANGE: the bound variable (absolute offset)
  std::shared_ptr<struct Obj> src; T soff = nullptr; // COPY: frozen source
};
struct Obj {
  uint64_t id; T size; bool ro = false, symb = false, dead = false; int kind = 0; // 0 stack, 1 heap, 2 global, 3 harness
  std::string name;
  std::vector<Cell> cells;
  std::shared_ptr<Obj> src2, src3; T sel = nullptr; // symb: base content is a choice of two
  std::string uf;            // symb: base content function ("" = zero)
  std::vector<Layer> log;
};
typedef std::shared_ptr<Obj> ObjP;

struct State {
  std::vector<ObjP> mem;
  std::vector<T> pc;
  uint64_t caught = 0;
};
struct Exc { T ptr; const llvm::GlobalVariable *ti; };
struct Obligation {
  std::string name, kind, where;
  std::vector<T> pc; T cond;
  Res res = UNKNOWN; std::string backend; Model model; double secs = 0;
};
struct AbortPath {};
struct EngineError { std::string msg; };

void dvFail(const std::string &msg);
} // namespace dv
