#include "solver.h"
#include <z3.h>
#include <chrono>
#include <random>
#include <set>
#include <unordered_set>
#include <sstream>
#include <fstream>
#include <unistd.h>
#include <sys/wait.h>
#include <signal.h>
#include <cstring>
#include <algorithm>

namespace dv {
SolveStats gStats;
std::string gTmpDir = "/tmp";
uint64_t gSeed = 1;
bool gExternal = true;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ---------------------------------------------------------------- simulation
bool simulate(const std::vector<T> &conds, T bad, Model &m, unsigned rounds, uint64_t seed) {
  double t0 = now();
  std::vector<T> vars;
  {
    std::unordered_set<T> seen; std::vector<T> st;
    auto push = [&](T x) { if (seen.insert(x).second) st.push_back(x); };
    for (T c : conds) push(c);
    if (bad) push(bad);
    while (!st.empty()) {
      T x = st.back(); st.pop_back();
      if (x->op == VAR) vars.push_back(x);
      for (uint32_t i = 0; i < x->n; i++) push(x->a[i]);
    }
    if (seen.size() > 400000) rounds = std::min(rounds, 2u);
    else if (seen.size() > 40000) rounds = std::min(rounds, 8u);
  }
  std::mt19937_64 rng(seed);
  for (unsigned r = 0; r < rounds; r++) {
    Evaluator ev;
    std::unordered_map<T, APInt> vals;
    ev.ufSalt = 0;
    unsigned mode = r % 8;
    for (T v : vars) {
      APInt x(v->w, 0);
      unsigned mm = mode;
      if (mode == 7) mm = rng() % 7;
      for (unsigned i = 0; i < v->w; i += 64) {
        uint64_t z = rng();
        switch (mm) {
        case 1: z = 0; break;
        case 2: z = ~0ULL; break;
        case 3: z = (rng() % 3 == 0) ? 0 : (rng() % 2) ? ~0ULL : z; break;
        case 4: { uint64_t b = 0; for (int k = 0; k < 8; k++) { uint64_t q = rng() % 6; uint64_t by = q == 0 ? 0xff : q == 1 ? 0 : q == 2 ? 0x80 : q == 3 ? 1 : rng() & 0xff; b |= by << (8 * k); } z = b; break; }
        case 5: z = 1ULL << (rng() % 64); break;
        case 6: z = ~0ULL - rng() % 4; break;
        default: break;
        }
        x.insertBits(APInt(std::min(64u, v->w - i), z), i);
      }
      if (v->w <= 64) {
        uint64_t u = x.getZExtValue();
        if (u < v->lo || u > v->hi) {
          uint64_t span = v->hi - v->lo + 1;
          u = span ? v->lo + (mm == 1 ? 0 : mm == 2 ? span - 1 : rng() % span) : rng();
          x = APInt(v->w, u);
        }
      }
      vals.emplace(v, x);
    }
    ev.var = [&](T v) { return vals.find(v)->second; };
    bool ok = true;
    for (T c : conds) if (ev.eval(c).isZero()) { ok = false; break; }
    if (!ok) continue;
    if (!bad || !ev.eval(bad).isZero()) {
      m.val.clear();
      for (auto &v : vals) m.val.emplace(gNames[v.first->p], v.second);
      m.fromSim = true;
      gStats.sim += now() - t0;
      return true;
    }
  }
  gStats.sim += now() - t0;
  return false;
}

// ---------------------------------------------------------------- z3 in process
static Z3_context ctx = nullptr;
static std::unordered_map<T, Z3_ast> *tr = nullptr;
static void z3err(Z3_context, Z3_error_code) {}
static void z3init() {
  if (ctx) return;
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg);
  Z3_set_error_handler(ctx, z3err);
  tr = new std::unordered_map<T, Z3_ast>();
}
static Z3_sort bv(uint32_t w) { return Z3_mk_bv_sort(ctx, w); }
static Z3_ast num(const APInt &v) {
  llvm::SmallString<80> s; v.toString(s, 10, false);
  return Z3_mk_numeral(ctx, s.c_str(), bv(v.getBitWidth()));
}
static Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, bv(1)), Z3_mk_unsigned_int64(ctx, 0, bv(1))); }
static Z3_ast v2b(Z3_ast v) { return Z3_mk_eq(ctx, v, Z3_mk_unsigned_int64(ctx, 1, bv(1))); }
static Z3_ast lutTree(const Table &t, Z3_ast idx, uint32_t bit, uint64_t base, std::map<std::vector<uint64_t>, Z3_ast> &memo) {
  std::vector<uint64_t> key(t.v.begin() + base, t.v.begin() + base + (1ULL << bit));
  bool same = true;
  for (auto x : key) if (x != key[0]) { same = false; break; }
  if (same) return Z3_mk_unsigned_int64(ctx, key[0], bv(t.ow));
  key.push_back(bit);
  auto it = memo.find(key);
  if (it != memo.end()) return it->second;
  Z3_ast l = lutTree(t, idx, bit - 1, base, memo), h = lutTree(t, idx, bit - 1, base + (1ULL << (bit - 1)), memo);
  Z3_ast c = v2b(Z3_mk_extract(ctx, bit - 1, bit - 1, idx));
  return memo[key] = Z3_mk_ite(ctx, c, h, l);
}
static Z3_ast toZ3(T root) {
  std::vector<std::pair<T, bool>> st{{root, false}};
  while (!st.empty()) {
    auto [t, done] = st.back();
    if (tr->count(t)) { st.pop_back(); continue; }
    if (!done) {
      st.back().second = true;
      for (uint32_t i = 0; i < t->n; i++) if (!tr->count(t->a[i])) st.push_back({t->a[i], false});
      continue;
    }
    st.pop_back();
    auto A = [&](uint32_t i) { return (*tr)[t->a[i]]; };
    Z3_ast r = nullptr;
    auto chain = [&](Z3_ast (*f)(Z3_context, Z3_ast, Z3_ast)) { Z3_ast x = A(0); for (uint32_t i = 1; i < t->n; i++) x = f(ctx, x, A(i)); return x; };
    switch (t->op) {
    case CONST: r = num(*t->c); break;
    case VAR: r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, gNames[t->p].c_str()), bv(t->w)); break;
    case UF: {
      std::vector<Z3_sort> d; std::vector<Z3_ast> a;
      std::string nm = gNames[t->p] + "#" + std::to_string(t->w);
      for (uint32_t i = 0; i < t->n; i++) { d.push_back(bv(t->a[i]->w)); a.push_back(A(i)); nm += "_" + std::to_string(t->a[i]->w); }
      Z3_func_decl f = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, nm.c_str()), d.size(), d.data(), bv(t->w));
      r = Z3_mk_app(ctx, f, a.size(), a.data());
      break;
    }
    case LUT: { std::map<std::vector<uint64_t>, Z3_ast> memo; const Table &tb = gTables[t->p]; r = lutTree(tb, A(0), tb.iw, 0, memo); break; }
    case ADD: r = chain(Z3_mk_bvadd); break;
    case MUL: r = chain(Z3_mk_bvmul); break;
    case AND: r = chain(Z3_mk_bvand); break;
    case OR: r = chain(Z3_mk_bvor); break;
    case XOR: r = chain(Z3_mk_bvxor); break;
    case UDIV: r = Z3_mk_bvudiv(ctx, A(0), A(1)); break;
    case UREM: r = Z3_mk_bvurem(ctx, A(0), A(1)); break;
    case SDIV: r = Z3_mk_bvsdiv(ctx, A(0), A(1)); break;
    case SREM: r = Z3_mk_bvsrem(ctx, A(0), A(1)); break;
    case SHL: r = Z3_mk_bvshl(ctx, A(0), A(1)); break;
    case LSHR: r = Z3_mk_bvlshr(ctx, A(0), A(1)); break;
    case ASHR: r = Z3_mk_bvashr(ctx, A(0), A(1)); break;
    case CONCAT: { r = A(0); for (uint32_t i = 1; i < t->n; i++) r = Z3_mk_concat(ctx, A(i), r); break; }
    case EXTRACT: r = Z3_mk_extract(ctx, t->p + t->w - 1, t->p, A(0)); break;
    case SEXT: r = Z3_mk_sign_ext(ctx, t->w - t->a[0]->w, A(0)); break;
    case ITE: r = Z3_mk_ite(ctx, v2b(A(0)), A(1), A(2)); break;
    case EQ: r = b2v(Z3_mk_eq(ctx, A(0), A(1))); break;
    case ULT: r = b2v(Z3_mk_bvult(ctx, A(0), A(1))); break;
    case SLT: r = b2v(Z3_mk_bvslt(ctx, A(0), A(1))); break;
    }
    (*tr)[t] = r;
  }
  return (*tr)[root];
}
static Z3_lbool runZ3(const std::vector<T> &as, unsigned ms, Model *m) {
  z3init();
  double t0 = now();
  Z3_solver s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
  bool uf = false;
  std::vector<T> vars;
  std::unordered_set<T> seen; std::vector<T> st;
  for (T a : as) if (seen.insert(a).second) st.push_back(a);
  while (!st.empty()) {
    T x = st.back(); st.pop_back();
    if (x->op == UF) uf = true;
    if (x->op == VAR) vars.push_back(x);
    for (uint32_t i = 0; i < x->n; i++) if (seen.insert(x->a[i]).second) st.push_back(x->a[i]);
  }
  if (uf) s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_UFBV"));
  Z3_solver_inc_ref(ctx, s);
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), ms);
  Z3_solver_set_params(ctx, s, p);
  for (T a : as) Z3_solver_assert(ctx, s, v2b(toZ3(a)));
  for (T v : vars) if (v->w <= 64) {
    uint64_t mx = v->w >= 64 ? ~0ULL : (1ULL << v->w) - 1;
    if (v->lo > 0) Z3_solver_assert(ctx, s, Z3_mk_bvuge(ctx, toZ3(v), num(APInt(v->w, v->lo))));
    if (v->hi < mx) Z3_solver_assert(ctx, s, Z3_mk_bvule(ctx, toZ3(v), num(APInt(v->w, v->hi))));
  }
  Z3_lbool r = Z3_solver_check(ctx, s);
  if (r == Z3_L_TRUE && uf && now() - t0 > ms / 1000.0 * 0.95) r = Z3_L_UNDEF;   // a model cut short by the time limit
  if (r == Z3_L_TRUE && m) {
    Z3_model zm = Z3_solver_get_model(ctx, s);
    if (zm) {
      Z3_model_inc_ref(ctx, zm);
      for (T v : vars) {
        Z3_ast out;
        if (Z3_model_eval(ctx, zm, toZ3(v), true, &out) && Z3_get_ast_kind(ctx, out) == Z3_NUMERAL_AST) {
          std::string s = Z3_get_numeral_string(ctx, out);
          APInt x(std::max<unsigned>(v->w, s.size() * 4 + 4), s, 10);
          m->val[gNames[v->p]] = x.zextOrTrunc(v->w);
        }
      }
      Z3_model_dec_ref(ctx, zm);
    }
  }
  Z3_params_dec_ref(ctx, p);
  Z3_solver_dec_ref(ctx, s);
  gStats.z3 += now() - t0; gStats.nz3++;
  return r;
}

// ---------------------------------------------------------------- SMT-LIB text
static std::string hexc(const APInt &v) {
  std::string s = "#b";
  for (int i = v.getBitWidth() - 1; i >= 0; i--) s += v[i] ? '1' : '0';
  return s;
}
std::string toSmt2(const std::vector<T> &asserts) {
  std::ostringstream o;
  std::unordered_set<T> seen; std::vector<T> order;
  std::vector<std::pair<T, bool>> st;
  for (T a : asserts) st.push_back({a, false});
  while (!st.empty()) {
    auto [t, d] = st.back();
    if (d) { st.pop_back(); if (seen.insert(t).second) order.push_back(t); continue; }
    if (seen.count(t)) { st.pop_back(); continue; }
    st.back().second = true;
    for (uint32_t i = 0; i < t->n; i++) if (!seen.count(t->a[i])) st.push_back({t->a[i], false});
  }
  bool uf = false;
  for (T t : order) if (t->op == UF) uf = true;
  o << "(set-logic " << (uf ? "QF_UFBV" : "QF_BV") << ")\n";
  std::set<std::string> decl;
  std::unordered_map<uint64_t, std::string> lutf;
  for (T t : order) {
    std::string n = "n" + std::to_string(t->id);
    auto A = [&](uint32_t i) { return t->a[i]->isConst() ? hexc(*t->a[i]->c) : "n" + std::to_string(t->a[i]->id); };
    if (t->isConst()) continue;
    auto nary = [&](const char *f) { std::string s = A(0); for (uint32_t i = 1; i < t->n; i++) s = std::string("(") + f + " " + s + " " + A(i) + ")"; return s; };
    if (t->op == VAR) {
      o << "(declare-fun " << n << " () (_ BitVec " << t->w << "))\n";
      if (t->w <= 64) {
        uint64_t mx = t->w >= 64 ? ~0ULL : (1ULL << t->w) - 1;
        if (t->lo > 0) o << "(assert (bvuge " << n << " " << hexc(APInt(t->w, t->lo)) << "))\n";
        if (t->hi < mx) o << "(assert (bvule " << n << " " << hexc(APInt(t->w, t->hi)) << "))\n";
      }
      continue;
    }
    std::string e;
    switch (t->op) {
    case UF: {
      std::string nm = "uf" + std::to_string(t->p) + "_" + std::to_string(t->w), sg;
      for (uint32_t i = 0; i < t->n; i++) { nm += "_" + std::to_string(t->a[i]->w); sg += "(_ BitVec " + std::to_string(t->a[i]->w) + ") "; }
      if (decl.insert(nm).second) o << "(declare-fun " << nm << " (" << sg << ") (_ BitVec " << t->w << "))\n";
      e = "(" + nm; for (uint32_t i = 0; i < t->n; i++) e += " " + A(i); e += ")";
      break;
    }
    case LUT: {
      auto &fn = lutf[t->p];
      const Table &tb = gTables[t->p];
      if (fn.empty()) {
        fn = "lut" + std::to_string(t->p);
        std::function<std::string(uint32_t, uint64_t)> tree = [&](uint32_t bit, uint64_t base) -> std::string {
          bool same = true;
          for (uint64_t i = 1; i < (1ULL << bit) && same; i++) same = tb.v[base + i] == tb.v[base];
          if (same) return hexc(APInt(tb.ow, tb.v[base]));
          std::string b = std::to_string(bit - 1);
          return "(ite (= ((_ extract " + b + " " + b + ") x) #b1) " + tree(bit - 1, base + (1ULL << (bit - 1))) + " " + tree(bit - 1, base) + ")";
        };
        o << "(define-fun " << fn << " ((x (_ BitVec " << tb.iw << "))) (_ BitVec " << tb.ow << ") " << tree(tb.iw, 0) << ")\n";
      }
      e = "(" + fn + " " + A(0) + ")";
      break;
    }
    case ADD: e = nary("bvadd"); break;
    case MUL: e = nary("bvmul"); break;
    case AND: e = nary("bvand"); break;
    case OR: e = nary("bvor"); break;
    case XOR: e = nary("bvxor"); break;
    case UDIV: e = nary("bvudiv"); break;
    case UREM: e = nary("bvurem"); break;
    case SDIV: e = nary("bvsdiv"); break;
    case SREM: e = nary("bvsrem"); break;
    case SHL: e = nary("bvshl"); break;
    case LSHR: e = nary("bvlshr"); break;
    case ASHR: e = nary("bvashr"); break;
    case CONCAT: { e = A(0); for (uint32_t i = 1; i < t->n; i++) e = "(concat " + A(i) + " " + e + ")"; break; }
    case EXTRACT: e = "((_ extract " + std::to_string(t->p + t->w - 1) + " " + std::to_string(t->p) + ") " + A(0) + ")"; break;
    case SEXT: e = "((_ sign_extend " + std::to_string(t->w - t->a[0]->w) + ") " + A(0) + ")"; break;
    case ITE: e = "(ite (= " + A(0) + " #b1) " + A(1) + " " + A(2) + ")"; break;
    case EQ: e = "(ite (= " + A(0) + " " + A(1) + ") #b1 #b0)"; break;
    case ULT: e = "(ite (bvult " + A(0) + " " + A(1) + ") #b1 #b0)"; break;
    case SLT: e = "(ite (bvslt " + A(0) + " " + A(1) + ") #b1 #b0)"; break;
    default: break;
    }
    o << "(define-fun " << n << " () (_ BitVec " << t->w << ") " << e << ")\n";
  }
  for (T a : asserts) o << "(assert (= " << (a->isConst() ? hexc(*a->c) : "n" + std::to_string(a->id)) << " #b1))\n";
  o << "(check-sat)\n";
  return o.str();
}
static Res runExternal(const std::vector<T> &as, double timeout, std::string &backend) {
  double t0 = now();
  static int cnt = 0;
  std::string f = gTmpDir + "/q" + std::to_string(getpid()) + "_" + std::to_string(cnt++) + ".smt2";
  { std::ofstream o(f); o << toSmt2(as); }
  struct Tool { const char *name; std::vector<std::string> argv; };
  std::string ts = std::to_string((int)timeout);
  std::vector<Tool> tools = {
      {"cvc5", {"cvc5", "--bv-solver=bitblast", "--tlimit=" + std::to_string((int)(timeout * 1000)), f}},
      {"z3-new", {"z3-new", "-T:" + ts, f}},
  };
  std::vector<pid_t> pids; std::vector<int> fds;
  for (auto &t : tools) {
    int p[2]; if (pipe(p)) break;
    pid_t c = fork();
    if (c == 0) {
      setpgid(0, 0);
      dup2(p[1], 1); dup2(p[1], 2); close(p[0]); close(p[1]);
      std::vector<char *> av; for (auto &s : t.argv) av.push_back((char *)s.c_str()); av.push_back(nullptr);
      execvp(av[0], av.data()); _exit(127);
    }
    close(p[1]); pids.push_back(c); fds.push_back(p[0]);
  }
  Res r = UNKNOWN;
  std::vector<std::string> out(pids.size());
  std::vector<bool> open(pids.size(), true);
  double end = now() + timeout + 2;
  while (now() < end && r == UNKNOWN) {
    fd_set rs; FD_ZERO(&rs); int mx = -1;
    for (size_t i = 0; i < fds.size(); i++) if (open[i]) { FD_SET(fds[i], &rs); mx = std::max(mx, fds[i]); }
    if (mx < 0) break;
    struct timeval tv = {0, 200000};
    if (select(mx + 1, &rs, 0, 0, &tv) <= 0) continue;
    for (size_t i = 0; i < fds.size(); i++) if (open[i] && FD_ISSET(fds[i], &rs)) {
      char b[4096]; ssize_t k = read(fds[i], b, sizeof b);
      if (k <= 0) {
        open[i] = false;
        std::istringstream is(out[i]); std::string w; is >> w;
        if (w == "unsat") { r = PROVED; backend = tools[i].name; }
        else if (w == "sat") { r = REFUTED; backend = tools[i].name; }
      } else out[i].append(b, k);
    }
  }
  for (pid_t p : pids) { kill(p, SIGKILL); int st; waitpid(p, &st, 0); }
  for (int fd : fds) close(fd);
  unlink(f.c_str());
  gStats.ext += now() - t0; gStats.next++;
  return r;
}

static bool litImplied(const std::vector<T> &hyps, T goal) {
  for (T h : hyps) {
    if (h == goal) return true;
    if (h->op == AND) for (uint32_t i = 0; i < h->n; i++) if (h->a[i] == goal) return true;
  }
  return false;
}
// keep only hypotheses that share a variable (transitively) with the goal
static std::vector<T> relevant(const std::vector<T> &hyps, T goal) {
  std::vector<std::vector<T>> vs(hyps.size());
  for (size_t i = 0; i < hyps.size(); i++) collectVars(hyps[i], vs[i]);
  std::unordered_set<T> cur; std::vector<T> g; collectVars(goal, g); cur.insert(g.begin(), g.end());
  std::vector<bool> in(hyps.size(), false);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < hyps.size(); i++) if (!in[i]) {
      bool hit = vs[i].empty();
      for (T v : vs[i]) if (cur.count(v)) hit = true;
      if (hit) { in[i] = true; ch = true; for (T v : vs[i]) cur.insert(v); }
    }
  }
  std::vector<T> r;
  for (size_t i = 0; i < hyps.size(); i++) if (in[i]) r.push_back(hyps[i]);
  return r;
}

int solveZ3(const std::vector<T> &as, unsigned ms) { Z3_lbool r = runZ3(as, ms, nullptr); return r == Z3_L_FALSE ? -1 : r == Z3_L_TRUE ? 1 : 0; }
// Products of two unknowns as unknowns of their range: what holds for every value of them holds for the product.
static T withoutProducts(T t, std::unordered_map<T, T> &memo) {
  std::vector<std::pair<T, bool>> st{{t, false}};
  while (!st.empty()) {
    auto [x, d] = st.back();
    if (memo.count(x)) { st.pop_back(); continue; }
    if (!x->n) { memo[x] = x; st.pop_back(); continue; }
    if (x->op == MUL && x->w >= 32) {
      unsigned sym = 0; for (uint32_t i = 0; i < x->n; i++) sym += !x->a[i]->isConst();
      if (sym > 1) {
        auto fresh = [](T q) { std::string n = "product!" + std::to_string(q->id); return q->op != MUL ? q : q->w <= 64 ? mkVarRange(n, q->w, q->lo, q->hi) : mkVar(n, q->w); };
        // in products of halves
        auto top0 = [](T t) { T h = mkExtract(t, 64, 64); return h->isConst() && h->c->isZero(); };
        if (x->n == 2 && (x->w == 32 || x->w == 64 || (x->w == 128 && top0(x->a[0]) && top0(x->a[1])))) {
          auto q = [&](T u, T v) { return fresh(mkMul(mkZext(u, 64), mkZext(v, 64))); };
          if (x->w == 32) memo[x] = mkExtract(q(x->a[0], x->a[1]), 0, 32);
          else {
            T al = mkExtract(x->a[0], 0, 32), ah = mkExtract(x->a[0], 32, 32), bl = mkExtract(x->a[1], 0, 32), bh = mkExtract(x->a[1], 32, 32);
            unsigned w = x->w; auto at = [&](T v, unsigned k) { return mkShift(SHL, mkZext(v, w), mkC(w, k)); };
            memo[x] = mkAddV({mkZext(q(al, bl), w), at(q(ah, bl), 32), at(q(al, bh), 32)}); if (w == 128) memo[x] = mkAdd(memo[x], at(q(ah, bh), 64));
          }
        }
        else memo[x] = fresh(x);
        st.pop_back(); continue;
      }
    }
    if (!d) { st.back().second = true; for (uint32_t i = 0; i < x->n; i++) if (!memo.count(x->a[i])) st.push_back({x->a[i], false}); continue; }
    st.pop_back(); bool ch = false; TV a; for (uint32_t i = 0; i < x->n; i++) { a.push_back(memo[x->a[i]]); ch |= a.back() != x->a[i]; }
    memo[x] = ch ? mkOp(x, a) : x;
  }
  return memo[t];
}
Res decide(const std::vector<T> &hyps0, T goal, Model &m, std::string &backend, double timeout) {
  if (goal->isConst() && !goal->c->isZero()) { backend = "rewriter"; return PROVED; }
  if (litImplied(hyps0, goal)) { backend = "rewriter"; return PROVED; }
  for (T h : hyps0) if (h->isConst() && h->c->isZero()) { backend = "rewriter"; return PROVED; }
  std::vector<T> hyps = hyps0;
  T neg = mkNot(goal);
  if (simulate(hyps, neg, m, 64, 12345 + gSeed)) { backend = "simulation"; return REFUTED; }
  {
    std::unordered_map<T, T> memo; T n2 = withoutProducts(neg, memo);
    if (n2 != neg) {
      std::vector<T> as; for (T h : hyps) as.push_back(withoutProducts(h, memo)); as = relevant(as, mkNot(n2)); as.push_back(n2);
      if (dagSize(n2) < 3000 && runZ3(as, (unsigned)(std::min(timeout, 10.0) * 1000), nullptr) == Z3_L_FALSE) { backend = "z3"; return PROVED; }
    }
  }
  if ((goal->op == EQ || goal->op == AND) && dagSize(goal) > 60) {
    bool ok = true;
    for (uint32_t i = 0; ok && i < (goal->op == EQ ? 1 : goal->n); i++) { T c = goal->op == EQ ? goal : goal->a[i]; ok = c->op == EQ ? equalGF2(c->a[0], c->a[1], std::min(20.0, timeout * 0.4)) : equalGF2(c, mkC(1, 1), 5); }
    if (ok) { backend = "anf"; return PROVED; }
  }
  if (dagSize(goal) > 150) {
    T g2 = sweep(goal, timeout * 0.6);
    if (g2->isConst() && !g2->c->isZero()) { backend = "sweep+z3"; return PROVED; }
    if (g2 != goal) { if (litImplied(hyps0, g2)) { backend = "sweep+z3"; return PROVED; } goal = g2; neg = mkNot(goal); }
  }
  for (T &h : hyps) if (dagSize(h) > 150) {   // hypotheses that contradict each other, or simplify
    T h2 = sweep(h, timeout * 0.3);
    if (h2->isConst() && h2->c->isZero()) { backend = "sweep+z3"; return PROVED; }
    h = h2;
  }
  std::vector<T> rel = relevant(hyps, goal);
  std::vector<T> as(rel); as.push_back(neg);
  double t1 = std::min(timeout, 8.0);
  Model zm;
  Z3_lbool r = runZ3(as, (unsigned)(t1 * 1000), &zm);
  if (r == Z3_L_FALSE) { backend = "z3"; return PROVED; }
  if (r == Z3_L_TRUE) {
    backend = "z3"; m = zm;
    if (rel.size() != hyps.size()) {
      Model m2; std::vector<T> full(hyps); full.push_back(neg);
      Z3_lbool r2 = runZ3(full, (unsigned)(t1 * 1000), &m2);
      if (r2 == Z3_L_FALSE) return PROVED;
      if (r2 == Z3_L_TRUE) m = m2;
    }
    return REFUTED;
  }
  if (gExternal && timeout > t1) {
    Res x = runExternal(as, timeout, backend);
    if (x != UNKNOWN) return x;
  }
  backend = "none";
  return UNKNOWN;
}
bool feasible(const std::vector<T> &conds, unsigned ms) {
  for (T c : conds) if (c->isConst() && c->c->isZero()) return false;
  Model m;
  if (simulate(conds, nullptr, m, 12, 777)) return true;
  std::vector<T> small; size_t size = 0;
  for (T c : conds) {
    size_t n = dagSize(c);
    if (n > 400) { if (getenv("DV_FEAS")) fprintf(stderr, "FEAS %zu %s\n", n, show(c, 5).substr(0, 3000).c_str()); c = sweep(c, 20); if (c->isConst()) { if (c->c->isZero()) return false; continue; } n = dagSize(c); }
    if (n > 20000) continue;    // left out: the path is taken to be possible
    size += n; small.push_back(c);
  }
  return runZ3(small, ms, nullptr) != Z3_L_FALSE;
}
T evalUnder(T t, const Model &m) {
  Evaluator ev;
  ev.var = [&](T v) { auto it = m.val.find(gNames[v->p]); return it == m.val.end() ? APInt(v->w, v->lo) : it->second; };
  return mkConst(ev.eval(t));
}
} // namespace dv
