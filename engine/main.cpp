#include "vm.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <iostream>
#include <fstream>
#include <sstream>
#include <chrono>
#include <pthread.h>
#include <unistd.h>
using namespace dv;
static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static std::string js(const std::string &s) {
  std::string r = "\"";
  for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if (ch < 32) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; } else r += ch; }
  return r + "\"";
}
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IR/IRBuilder.h>
namespace dv { std::string baseName(const std::string &); }
// The module with each contract in place of the function it describes, for native replays.
static void emitReplaced(Module &M, VM &vm, const std::string &path) {
  for (auto &F : M) {
    if (F.isDeclaration()) continue;
    Function *S = vm.contractOf(dv::baseName(F.getName().str()), &F);
    if (!S) continue;
    auto *ss = S->getFunctionType();
    F.deleteBody(); F.setLinkage(GlobalValue::ExternalLinkage); F.setComdat(nullptr);
    BasicBlock *b = BasicBlock::Create(M.getContext(), "", &F); IRBuilder<> B(b);
    SmallVector<Value *, 8> as; 
    for (auto &x : F.args()) as.push_back(&x);
    auto *r = B.CreateCall(S, as); r->setAttributes(S->getAttributes());
    if (ss->getReturnType()->isVoidTy()) B.CreateRetVoid(); else B.CreateRet(r);
    F.removeFnAttr(Attribute::NoInline);
  }
  std::error_code ec; raw_fd_ostream os(path, ec);
  if (!ec) WriteBitcodeToFile(M, os);
}
struct Args { std::string bc, emit, harness, out, tmp = "/tmp"; std::map<std::string, uint64_t> ch; double limit = 600, ot = 60; bool verbose = false, list = false; int keep = 0; };
static Args A; static int rc = 2;

static void run() {
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(A.bc, err, ctx);
  if (!M) { std::cerr << "cannot read " << A.bc << ": " << err.getMessage().str() << "\n"; rc = 3; return; }
  if (A.list) { for (auto &F : *M) if (!F.isDeclaration() && F.getName().starts_with("H_")) std::cout << F.getName().str() << "\n"; rc = 0; return; }
  double t0 = nowS();
  VM vm; vm.M = M.get(); vm.DL = &M->getDataLayout(); vm.verbose = A.verbose;
  vm.choices = A.ch; vm.deadline = t0 + A.limit;
  gTmpDir = A.tmp;
  std::string status = "ok", message;
  double tExec = 0;
  try {
    State s;
    vm.callStack.push_back(nullptr);
    vm.runCtors(s);
    vm.callStack.clear(); vm.callStack.push_back(nullptr);
    Function *H = M->getFunction(A.harness);
    if (!H) throw EngineError{"no harness " + A.harness};
    auto outs = vm.callFunction(H, {}, std::move(s), nullptr);
    for (auto &o : outs) if (o.kind == Outcome::THROW) {
      vm.oblige(o.c.st, mkFalse(), "no exception leaves the harness (" + (o.ti ? llvm::demangle(o.ti->getName().str()) : std::string("?")) + ")", "exception");
    }
  } catch (EngineError &e) { status = "error"; message = e.msg; }
  catch (AbortPath &) { }
  tExec = nowS() - t0;
  if (A.emit.size()) { emitReplaced(*M, vm, A.emit); rc = 0; return; }
  size_t nd = 0, nref = 0, nunk = 0;
  std::ostringstream ob;
  bool first = true;
  if (status != "ok") { A.ot = std::min(A.ot, 5.0); A.limit = std::min(A.limit, nowS() - t0 + 60); }
  for (auto &o : vm.obls) {
    double t1 = nowS();
    if (o.res == UNKNOWN) {
      if (t1 - t0 > A.limit) { o.res = UNKNOWN; o.backend = "not attempted"; }
      else o.res = decide(o.pc, o.cond, o.model, o.backend, std::min(A.ot, A.limit - (t1 - t0)));
    }
    o.secs = nowS() - t1;
    if (o.res == PROVED) nd++; else if (o.res == REFUTED) nref++; else nunk++;
    ob << (first ? "" : ",\n") << "{\"name\":" << js(o.name) << ",\"kind\":" << js(o.kind) << ",\"res\":\"" << (o.res == PROVED ? "proved" : o.res == REFUTED ? "refuted" : "unknown")
       << "\",\"backend\":" << js(o.backend) << ",\"secs\":" << o.secs << ",\"where\":" << js(o.where);
    if (o.res == REFUTED) {
      ob << ",\"model\":{"; bool f2 = true;
      for (auto &kv : vm.inputs) {
        auto it = o.model.val.find(kv.first);
        APInt v = it == o.model.val.end() ? APInt(kv.second->w, kv.second->isConst() ? kv.second->c->getZExtValue() : kv.second->w <= 64 ? kv.second->lo : 0) : it->second;
        llvm::SmallString<40> b; v.toString(b, 16, false);
        ob << (f2 ? "" : ",") << js(kv.first) << ":\"" << std::string(b) << "\""; f2 = false;
      }
      ob << "}";
      if (A.verbose) std::cerr << "cond " << show(o.cond, 5) << "\n";
    } else if (o.res == UNKNOWN && A.verbose) std::cerr << "unknown " << o.name << " size " << dagSize(o.cond) << " cond " << show(o.cond, 7).substr(0, 1500) << "\n";
    first = false; ob << "}";
    if (nref + nunk > 40) break;
  }
  std::ostringstream js0;
  js0 << "{\"harness\":" << js(A.harness) << ",\"status\":" << js(status) << ",\"message\":" << js(message) << ",\"choices\":{";
  first = true; for (auto &k : vm.choices) { js0 << (first ? "" : ",") << js(k.first) << ":" << k.second; first = false; }
  js0 << "},\"choice_log\":[";
  first = true; for (auto &k : vm.choiceLog) { js0 << (first ? "" : ",") << "[" << js(k[0]) << "," << k[1] << "," << k[2] << "]"; first = false; }
  js0 << "],\"obligations\":[" << ob.str() << "],\"trivial\":{";
  first = true; for (auto &k : vm.nTriv) { js0 << (first ? "" : ",") << js(k.first) << ":" << k.second; first = false; }
  js0 << "},\"covers\":{";
  first = true; for (auto &k : vm.coversSeen) { js0 << (first ? "" : ",") << js(k) << ":" << (vm.coverHit[k] ? "true" : "false"); first = false; }
  js0 << "},\"functions\":[";
  first = true; for (auto &k : vm.fnsSeen) { js0 << (first ? "" : ",") << js(k); first = false; }
  js0 << "],\"contracts_used\":[";
  first = true; for (auto &k : vm.usedContracts) { js0 << (first ? "" : ",") << js(k); first = false; }
  js0 << "],\"contracts_registered\":[";
  first = true; for (auto &k : vm.replaced) { js0 << (first ? "" : ",") << js(k.first); first = false; }
  js0 << "],\"externals\":[";
  first = true; for (auto &k : vm.externsSeen) if (k.compare(0, 3, "dv_")) { js0 << (first ? "" : ",") << js(k); first = false; }
  js0 << "],\"loops\":[";
  first = true; for (auto &k : vm.loopNotes) { js0 << (first ? "" : ",") << js(k); first = false; }
  js0 << "],\"stats\":{\"instructions\":" << vm.nInstr << ",\"forks\":" << vm.nForks << ",\"merges\":" << vm.nMerges << ",\"nodes\":" << nodeCount() << ",\"exec_secs\":" << tExec
      << ",\"z3_secs\":" << gStats.z3 << ",\"z3_calls\":" << gStats.nz3 << ",\"ext_secs\":" << gStats.ext << ",\"ext_calls\":" << gStats.next << ",\"sim_secs\":" << gStats.sim << ",\"secs\":" << nowS() - t0 << "}}\n";
  if (A.out.empty()) std::cout << js0.str(); else { std::ofstream f(A.out); f << js0.str(); }
  if (A.verbose || A.out.size()) std::cerr << A.harness << ": " << status << " " << message << " proved " << nd << " refuted " << nref << " unknown " << nunk << " instr " << vm.nInstr << " nodes " << nodeCount() << " exec " << tExec << "s total " << nowS() - t0 << "s\n";
  rc = nref ? 1 : status != "ok" ? 3 : nunk ? 4 : 0;
}
static void *thr(void *) { run(); return nullptr; }
int main(int argc, char **argv) {
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--harness") A.harness = argv[++i];
    else if (a == "--out") A.out = argv[++i];
    else if (a == "--emit-replaced") A.emit = argv[++i];
    else if (a == "--seed") gSeed = strtoull(argv[++i], 0, 10);
    else if (a == "--tmp") A.tmp = argv[++i];
    else if (a == "--limit") A.limit = atof(argv[++i]);
    else if (a == "--ot") A.ot = atof(argv[++i]);
    else if (a == "-v") A.verbose = true;
    else if (a == "--list") A.list = true;
    else if (a == "--choose") { std::string k = argv[++i]; size_t p = k.find('='); A.ch[k.substr(0, p)] = strtoull(k.c_str() + p + 1, 0, 10); }
    else A.bc = a;
  }
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 4ULL << 30);
  pthread_t t; if (pthread_create(&t, &at, thr, nullptr)) { std::cerr << "thread\n"; return 3; }
  pthread_join(t, nullptr);
  std::cout.flush(); std::cerr.flush();
  _exit(rc);
}
