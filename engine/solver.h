// Discharging obligations: simulation, then SMT.
#pragma once
#include "term.h"
#include <map>
#include <set>
namespace dv {
struct Model { std::map<std::string, APInt> val; uint64_t salt = 0; bool fromSim = false; };
enum Res { PROVED, REFUTED, UNKNOWN };
struct SolveStats { double z3 = 0, ext = 0, sim = 0; uint64_t nz3 = 0, next = 0; };
extern SolveStats gStats;
// Is (and hyps) -> goal valid?
Res decide(const std::vector<T> &hyps, T goal, Model &m, std::string &backend, double timeout);
// Cheap feasibility of (and conds); UNKNOWN counts as feasible.
bool feasible(const std::vector<T> &conds, unsigned ms);
// Find one model of (and conds) by simulation only
bool simulate(const std::vector<T> &conds, T bad, Model &m, unsigned rounds, uint64_t seed);
T mkOp(T like, const TV &args);
T sweep(T goal, double timeout);
bool equalGF2(T a, T b, double timeout); // equal multilinear polynomials over GF(2), bit by bit
int solveZ3(const std::vector<T> &as, unsigned ms); // -1 unsat, 1 sat, 0 unknown
std::string toSmt2(const std::vector<T> &asserts);
T evalUnder(T t, const Model &m);
extern std::string gTmpDir;
extern uint64_t gSeed;
extern bool gExternal;
}
