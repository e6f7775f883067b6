// lfvc: verification condition generator and checker for the LLVM IR of LehrFEM++.
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/Utils/Cloning.h>

#include <poll.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <fstream>
#include <iostream>
#include <sstream>

#include "exec.h"

using namespace llvm;
using namespace lfv;

static std::string js(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r + "\"";
}
static std::string num(double d) { if (!std::isfinite(d)) return "0"; char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
static std::string toJson(const Result& R, const std::string& unit, const std::vector<long>& pre, double secs) {
  std::ostringstream o;
  o << "{\"unit\":" << js(unit) << ",\"prefix\":[";
  for (size_t i = 0; i < pre.size(); ++i) o << (i ? "," : "") << pre[i];
  o << "],\"secs\":" << num(secs) << ",\"paths\":" << R.paths << ",\"aborted\":" << R.aborted << ",\"killed\":" << R.killed << ",\"steps\":" << R.steps << ",\"obligations\":" << R.obligations << ",\"proved\":" << R.proved;
  o << ",\"incomplete\":" << (R.incomplete ? "true" : "false") << ",\"error\":" << js(R.error);
  o << ",\"byName\":{";
  bool f = true;
  for (auto& n : R.byName) { o << (f ? "" : ",") << js(n.first) << ":{"; f = false; bool g = true; for (auto& h : n.second) { o << (g ? "" : ",") << js(h.first) << ":" << h.second; g = false; } o << "}"; }
  o << "},\"covers\":{"; f = true;
  for (auto& n : R.covers) { o << (f ? "" : ",") << js(n.first) << ":" << n.second; f = false; }
  o << "},\"functions\":["; f = true;
  for (auto& n : R.functions) { o << (f ? "" : ",") << js(n); f = false; }
  o << "],\"externals\":["; f = true;
  for (auto& n : R.externals) { o << (f ? "" : ",") << js(demangle(n)); f = false; }
  o << "],\"notes\":["; f = true;
  for (auto& n : R.notes) { o << (f ? "" : ",") << js(n); f = false; }
  o << "],\"failures\":["; f = true;
  for (auto& x : R.failures) {
    o << (f ? "" : ",") << "{\"name\":" << js(x.name) << ",\"status\":" << js(x.status) << ",\"how\":" << js(x.how) << ",\"detail\":" << js(x.detail.substr(0, 1500)) << ",\"seed\":" << x.seed << ",\"choices\":[";
    for (size_t i = 0; i < x.choices.size(); ++i) o << (i ? "," : "") << "[" << js(x.choices[i].first) << "," << x.choices[i].second << "]";
    o << "],\"inputs\":[";
    for (size_t i = 0; i < x.inputs.size(); ++i) o << (i ? "," : "") << "[" << js(x.inputs[i].first) << "," << num(x.inputs[i].second) << "]";
    o << "]}";
    f = false;
  }
  o << "],\"solver\":{\"queries\":" << g_solver.queries << ",\"sat\":" << g_solver.sat << ",\"unsat\":" << g_solver.unsat << ",\"unknown\":" << g_solver.unknown << ",\"seconds\":" << num(g_solver.seconds) << "}}";
  return o.str();
}

// functions whose body is replaced by their contract: patterns (substring of the
// demangled name) -> they become declarations; a definition lfv_stub_<k> may be linked
// A block that can only end in an assertion failure becomes a single assertion event: what
// is streamed into the message is not part of the behaviour under proof.
static void cutDoomed(Module& M) {
  LLVMContext& C = M.getContext();
  FunctionCallee fail = M.getOrInsertFunction("lfv_assertion_failed", FunctionType::get(Type::getVoidTy(C), false));
  auto* FF = cast<Function>(fail.getCallee());
  FF->addFnAttr(Attribute::NoReturn); FF->addFnAttr(Attribute::NoUnwind); FF->addFnAttr(Attribute::Cold);
  for (auto& F : M) {
    if (F.isDeclaration()) continue;
    std::set<BasicBlock*> hasA, doom;
    for (auto& B : F) for (auto& I : B) if (auto* cb = dyn_cast<CallBase>(&I)) if (auto* cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) if (isAssertFn(cf)) hasA.insert(&B);
    if (hasA.empty()) continue;
    for (auto& B : F) doom.insert(&B);
    for (auto& B : F) for (auto& I : B) if (auto* cb = dyn_cast<CallBase>(&I)) if (auto* cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) if (cf->getName().startswith("lfv_") && !isAssertFn(cf)) { doom.erase(&B); hasA.erase(&B); }
    for (bool ch = true; ch;) {
      ch = false;
      for (auto& B : F) {
        if (!doom.count(&B) || hasA.count(&B)) continue;
        auto* t = B.getTerminator(); bool d = true;
        if (auto* iv = dyn_cast<InvokeInst>(t)) d = doom.count(iv->getNormalDest());
        else if (isa<BranchInst>(t) || isa<SwitchInst>(t)) { for (unsigned i = 0; i < t->getNumSuccessors(); ++i) d = d && doom.count(t->getSuccessor(i)); }
        else d = false;
        if (!d) { doom.erase(&B); ch = true; }
      }
    }
    for (auto* B : doom) {
      if (B->isLandingPad() || B == &F.getEntryBlock()) continue;
      DebugLoc dl;
      for (auto& I : *B) if (I.getDebugLoc()) { dl = I.getDebugLoc(); break; }
      for (auto* S : successors(B)) S->removePredecessor(B);
      while (!B->empty()) { Instruction& I = B->back(); if (!I.getType()->isVoidTy() && !I.use_empty()) I.replaceAllUsesWith(PoisonValue::get(I.getType())); I.eraseFromParent(); }
      auto* call = CallInst::Create(fail, "", B); call->setDoesNotReturn(); call->setDebugLoc(dl);
      new UnreachableInst(C, B);
    }
  }
}
static bool prep(Module& M, const std::vector<std::string>& roots, bool optimise) {
  // assertion reporting is a verifier event
  for (auto& F : M)
    if (isAssertFn(&F)) { F.deleteBody(); F.setLinkage(GlobalValue::ExternalLinkage); F.addFnAttr(Attribute::NoReturn); F.addFnAttr(Attribute::NoUnwind); F.addFnAttr(Attribute::Cold); F.setComdat(nullptr); }
  // streams of the standard library are ignored, they have no effect on the state under proof
  for (auto& F : M)
    if (!F.isDeclaration() && isStreamFn(&F)) { F.deleteBody(); F.setLinkage(GlobalValue::ExternalLinkage); F.addFnAttr(Attribute::NoUnwind); F.setComdat(nullptr); }
  cutDoomed(M);
  // contracts: void __lfv_contract_for_<mangled> replaces the body of <mangled>
  std::vector<std::pair<Function*, Function*>> repl;
  for (auto& F : M) {
    auto n = F.getName();
    if (n.startswith("lfv_contract_for_") && !F.isDeclaration()) if (auto* G = M.getFunction(n.substr(strlen("lfv_contract_for_")))) repl.push_back({G, &F});
  }
  for (auto& p : repl) p.first->replaceAllUsesWith(p.second);
  std::set<std::string> keep(roots.begin(), roots.end());
  for (auto& F : M) {
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::StackProtectStrong);
    F.setComdat(nullptr);
    F.setLinkage(keep.count(F.getName().str()) ? GlobalValue::ExternalLinkage : GlobalValue::InternalLinkage);
  }
  for (auto& G : M.globals()) {
    if (G.isDeclaration()) continue;
    if (G.getName().startswith("llvm.")) continue;
    G.setComdat(nullptr);
    G.setLinkage(GlobalValue::InternalLinkage);
  }
  for (auto& A : M.aliases()) A.setLinkage(GlobalValue::InternalLinkage);
  M.getComdatSymbolTable().clear();
  PassBuilder PB;
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager PM;
  PM.addPass(GlobalDCEPass());
  if (optimise) PM.addPass(PB.buildPerModuleDefaultPipeline(OptimizationLevel::O1));
  PM.run(M, MAM);
  return true;
}

static std::vector<long> parseList(const std::string& s) { std::vector<long> r; std::stringstream ss(s); std::string t; while (std::getline(ss, t, ',')) if (!t.empty()) r.push_back(std::stol(t)); return r; }

struct Job { std::string unit; std::vector<long> pre; size_t split; double limit; };

int main(int argc, char** argv) {
  std::vector<std::string> inputs, units;
  std::string out;
  bool trace = false, opt = true, fork1 = true; int jobs = 8, verbose = 0; double limit = 300, total = 600; long maxFail = 5; std::vector<long> prefix; size_t split = 0; size_t memGB = 6; std::string emit, exclude;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(argv[++i]); };
    if (a == "-o") out = nx();
    else if (a == "-u") { std::string u = nx(); std::stringstream ss(u); std::string t; while (std::getline(ss, t, ',')) units.push_back(t); }
    else if (a == "-j") jobs = std::stoi(nx());
    else if (a == "-t") limit = std::stod(nx());
    else if (a == "-T") total = std::stod(nx());
    else if (a == "-m") memGB = std::stoul(nx());
    else if (a == "-f") maxFail = std::stol(nx());
    else if (a == "-p") prefix = parseList(nx());
    else if (a == "-s") split = std::stoul(nx());
    else if (a == "--trace") trace = true;
    else if (a == "--no-opt") opt = false;
    else if (a == "--no-fork") fork1 = false;
    else if (a == "-x") exclude = nx();
    else if (a == "-v") verbose++;
    else if (a == "--emit") emit = nx();
    else inputs.push_back(a);
  }
  auto tstart = std::chrono::steady_clock::now();
  auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - tstart).count(); };
  LLVMContext C;
  std::unique_ptr<Module> M;
  bool pre = inputs.size() == 1 && inputs[0].size() > 8 && inputs[0].substr(inputs[0].size() - 8) == ".prep.bc";
  for (auto& f : inputs) {
    SMDiagnostic err;
    auto m = parseIRFile(f, err, C);
    if (!m) { err.print("lfvc", errs()); return 3; }
    if (!M) M = std::move(m);
    else if (Linker::linkModules(*M, std::move(m))) { errs() << "link error " << f << "\n"; return 3; }
  }
  if (!M) return 3;
  std::vector<std::string> all;
  for (auto& F : *M) if (F.getName().startswith("prove_") && !F.isDeclaration()) all.push_back(F.getName().str());
  if (units.empty()) for (auto& u : all) if (exclude.empty() || u.rfind(exclude, 0) != 0) units.push_back(u);
  double tlink = elapsed();
  if (!pre) prep(*M, all, opt);
  double tprep = elapsed();
  if (!emit.empty()) { std::error_code ec; raw_fd_ostream os(emit, ec); WriteBitcodeToFile(*M, os); if (out.empty() && !trace) { if (verbose) fprintf(stderr, "link %.1fs prep %.1fs\n", tlink, tprep - tlink); return 0; } }
  Exec E(*M);
  E.trace = false; E.verbose = verbose;
  try { E.runCtors(); } catch (Unsupported& u) { errs() << "constructors: " << u.what() << "\n"; }
  E.trace = trace;
  double tctor = elapsed();
  if (verbose) fprintf(stderr, "link %.1fs prep %.1fs ctors %.1fs\n", tlink, tprep - tlink, tctor - tprep);
  std::ofstream of;
  if (!out.empty()) of.open(out);
  auto emitLine = [&](const std::string& l) { if (of.is_open()) { of << l << "\n"; of.flush(); } else std::cout << l << std::endl; };
  if (!fork1) {
    for (auto& u : units) { E.fixedChoice = prefix; auto t = elapsed(); auto R = E.runUnit(u, limit, maxFail); emitLine(toJson(R, u, prefix, elapsed() - t)); }
    return 0;
  }
  std::deque<Job> q;
  for (auto& u : units) {
    size_t sp = split;
    // prove_xxx__sN : split the first N choices over processes
    auto p = u.rfind("__s");
    if (p != std::string::npos && p + 4 == u.size()) sp = (size_t)(u[p + 3] - '0');
    q.push_back({u, prefix, sp, limit});
  }
  struct Run { pid_t pid; int fd; Job j; std::string buf; double t0; };
  std::vector<Run> run;
  bool fail = false;
  const bool stopEarly = getenv("LFV_STOP") != nullptr;  // development aid: the first failure ends the run
  while (!q.empty() || !run.empty()) {
    if (fail) { for (auto& r : run) { kill(r.pid, SIGKILL); waitpid(r.pid, nullptr, 0); } break; }
    while (!q.empty() && (int)run.size() < jobs) {
      Job j = q.front(); q.pop_front();
      if (elapsed() > total) { Result r; r.incomplete = true; r.error = "total time limit"; emitLine(toJson(r, j.unit, j.pre, 0)); continue; }
      int fd[2];
      if (pipe(fd)) return 3;
      pid_t pid = fork();
      if (pid == 0) {
        close(fd[0]);
        rlimit rl; rl.rlim_cur = rl.rlim_max = (rlim_t)memGB << 30; setrlimit(RLIMIT_AS, &rl);
        rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
        auto t = std::chrono::steady_clock::now();
        std::string o;
        try {
          E.fixedChoice = j.pre;
          bool enumerate = j.split > j.pre.size();
          if (enumerate) E.splitDepth = j.pre.size() + 1;
          E.splitOut = 0;
          auto R = E.runUnit(j.unit, std::min(j.limit, std::max(1.0, total - elapsed())), maxFail);
          if (enumerate && E.splitOut > 0 && R.failures.empty() && !R.incomplete) o = "SPLIT " + std::to_string(E.splitOut);
          else o = toJson(R, j.unit, j.pre, std::chrono::duration<double>(std::chrono::steady_clock::now() - t).count());
        } catch (std::bad_alloc&) {
          Result r; r.incomplete = true; r.error = "memory limit"; o = toJson(r, j.unit, j.pre, 0);
        } catch (std::exception& e) {
          Result r; r.incomplete = true; r.error = std::string("engine: ") + e.what(); o = toJson(r, j.unit, j.pre, 0);
        }
        o += "\n";
        size_t w = 0;
        while (w < o.size()) { ssize_t k = write(fd[1], o.data() + w, o.size() - w); if (k <= 0) break; w += (size_t)k; }
        _exit(0);
      }
      close(fd[1]);
      run.push_back({pid, fd[0], j, "", elapsed()});
    }
    std::vector<pollfd> pf;
    for (auto& r : run) pf.push_back({r.fd, POLLIN, 0});
    poll(pf.data(), pf.size(), 500);
    for (size_t i = 0; i < run.size();) {
      Run& r = run[i];
      bool done = false;
      if (i < pf.size() && pf[i].fd == r.fd && (pf[i].revents & (POLLIN | POLLHUP))) {
        char b[65536];
        ssize_t k = read(r.fd, b, sizeof b);
        if (k > 0) r.buf.append(b, (size_t)k); else done = true;
      } else if (elapsed() - r.t0 > r.j.limit + 60 || elapsed() > total + 30) { kill(r.pid, SIGKILL); done = true; }
      if (done) {
        close(r.fd); int st; waitpid(r.pid, &st, 0);
        if (r.buf.empty() || r.buf.back() != '\n') { Result x; x.incomplete = true; x.error = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGKILL ? "time limit (killed)" : "verifier process died, signal " + std::to_string(WTERMSIG(st))) : "verifier process ended without a result"; emitLine(toJson(x, r.j.unit, r.j.pre, elapsed() - r.t0)); }
        else if (r.buf.rfind("SPLIT ", 0) == 0) {
          long n = std::stol(r.buf.substr(6));
          for (long k = 0; k < n; ++k) { Job j = r.j; j.pre.push_back(k); q.push_back(j); }
        } else { emitLine(r.buf.substr(0, r.buf.size() - 1)); if (stopEarly && r.buf.find("\"failures\":[]") == std::string::npos) fail = true; }
        run.erase(run.begin() + (long)i); pf.erase(pf.begin() + (long)i);
      } else ++i;
    }
  }
  return 0;
}
