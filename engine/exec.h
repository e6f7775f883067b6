#pragma once
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/DebugInfoMetadata.h>

#include <chrono>
#include <deque>
#include <functional>
#include <map>
#include <array>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include "poly.h"
#include "solver.h"
#include "term.h"

namespace lfv {
typedef unsigned __int128 u128;

struct Val {
  enum K : uint8_t { UNDEF, INT, FP, TI, TB, TR, AGG } k = UNDEF;
  uint8_t w = 0;  // bits
  union { u128 u; double d; T t; const std::vector<Val>* agg; };
  Val() : u(0) {}
  static Val I(int w, u128 v) { Val r; r.k = INT; r.w = (uint8_t)w; r.u = w >= 128 ? v : v & ((((u128)1) << w) - 1); return r; }
  static Val F(double d, int w = 64) { Val r; r.k = FP; r.w = (uint8_t)w; r.d = d; return r; }
  bool conc() const { return k == INT || k == FP; }
};

struct Obj {
  uint64_t size = 0;
  bool heap = false, freed = false, rdonly = false, external = false;
  std::string name;
  std::vector<uint8_t> data, st;  // st: 0 undef, 1 concrete, 2 symbolic head, 3 symbolic tail
  std::unordered_map<uint32_t, Val> sym;
  // lazily described contents of a symbolic-size array: element at byte offset
  struct Lay;  // phase 2
  std::shared_ptr<Lay> lay;
};
typedef std::shared_ptr<Obj> ObjP;

struct Op_ { bool c; uint32_t i; Val v; };  // constant or slot
struct FnInfo;
struct CInst {
  llvm::Instruction* I;
  unsigned opc;
  int dst = -1;
  int w = 0;      // result width bits (0 void)
  int tk = 0;     // 0 int/ptr, 1 float, 2 agg/vector, 3 void
  std::vector<Op_> o;
  // GEP
  int64_t goff = 0;
  std::vector<std::pair<uint32_t, int64_t>> gidx;  // operand index -> scale
  // branches
  uint32_t t0 = 0, t1 = 0;
  uint64_t size = 0;  // load/store/alloca size
  llvm::Type* ty = nullptr;
  llvm::Function* callee = nullptr;
  int pred = 0;
  bool flag = false;
};
struct PhiEdge { uint32_t pred; std::vector<Op_> vals; };
struct FnInfo {
  llvm::Function* F;
  std::vector<CInst> code;
  std::vector<uint32_t> blockStart;          // first non-phi instruction
  std::vector<std::vector<int>> phiDst;      // per block
  std::vector<std::unordered_map<uint32_t, std::vector<Op_>>> phiIn;
  std::vector<uint32_t> blockOf;             // instruction -> block
  std::unordered_map<llvm::BasicBlock*, uint32_t> bid;
  uint32_t nslots = 0;
  bool isRepo = false;
  bool compiled = false;
  std::vector<char> doomed;  // blocks that can only end in an assertion failure
  std::vector<std::string> doomLoc;
  std::string dname;
};
struct Frame {
  FnInfo* f;
  uint32_t pc = 0;
  uint32_t cur = 0;  // current block
  std::vector<Val> r;
  std::vector<uint32_t> allocas;
  std::vector<Val> va;
};

struct ObjTable {  // persistent chunked table
  static const int B = 256;
  typedef std::array<ObjP, B> Chunk;
  std::vector<std::shared_ptr<Chunk>> ch;
  uint32_t n = 0;
  ObjP& wr(uint32_t i);
  Obj* rd(uint32_t i) const { return i < n ? (*ch[i / B])[i % B].get() : nullptr; }
};

struct State {
  std::vector<Frame> st;
  ObjTable mem;
  std::vector<T> pc;
  std::unordered_set<T> pcset;
  std::map<std::string, int> signs;  // sign information by canonical key
  std::vector<int> seeds;
  bool seedsTried = false;
  bool expectAbort = false;
  bool infeasibleUnknown = false;  // a branch on this path was not shown feasible
  std::vector<std::pair<std::string, long>> choices;
  std::unordered_map<std::string, long> counters;
  // exceptions
  uint64_t excPtr = 0; llvm::Value* excType = nullptr; uint64_t excTypeAddr = 0;
  std::vector<uint64_t> caught;
  std::unordered_map<uint64_t, uint64_t> excTypes;  // exception object -> typeinfo
  long steps = 0;
};
typedef std::shared_ptr<State> SP;

struct Oblig {
  std::string name, status /*proved violated unknown*/, how, detail;
  double secs = 0;
  std::vector<std::pair<std::string, double>> inputs;
  std::vector<std::pair<std::string, long>> choices;
  long seed = -1;
};
struct Result {
  std::map<std::string, std::map<std::string, long>> byName;  // name -> status/how -> count
  std::vector<Oblig> failures;                                   // violated or unknown
  std::map<std::string, long> covers;
  std::set<std::string> functions, externals, notes;
  long paths = 0, aborted = 0, killed = 0, steps = 0, obligations = 0, proved = 0;
  std::string error;
  bool incomplete = false;
};

bool isAssertFn(llvm::Function* F);
bool isStreamFn(llvm::Function* F);
struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };

class Exec {
 public:
  Exec(llvm::Module& M);
  void runCtors();
  Result runUnit(const std::string& fn, double timeLimit, long maxFail);
  bool trace = false;
  int verbose = 0;
  std::vector<long> fixedChoice;  // prefix of lfv_choose answers (for splitting)
  size_t splitDepth = 0;          // stop at the lfv_choose of this depth and report its arity
  long splitOut = 0;
  bool counterexampleHunt = false;

 private:
  friend struct Builtins;
  llvm::Module& M;
  const llvm::DataLayout& DL;
  std::unordered_map<llvm::Function*, FnInfo> fns;
  std::unordered_map<const llvm::GlobalValue*, uint64_t> gaddr;
  std::unordered_map<uint32_t, llvm::Function*> fnOfObj;
  State base;
  Result R;
  std::vector<SP> work;
  std::vector<Sample> samples;
  std::chrono::steady_clock::time_point t0;
  double limit = 0;
  long maxFailures = 20;
  std::string unit;
  typedef bool (Exec::*BI)(State&, CInst&, std::vector<Val>&, Val&);
  std::unordered_map<std::string, BI> builtins;
  std::unordered_map<llvm::Function*, int> ftag;

  FnInfo& info(llvm::Function* F);
  const std::set<std::string>& repoNames(FnInfo& fi);
  void compile(FnInfo& fi);
  Op_ operand(FnInfo& fi, llvm::Value* v, std::unordered_map<llvm::Value*, int>& slot);
  Val constant(llvm::Constant* c);
  void initGlobal(llvm::GlobalVariable& g);
  void writeConst(Obj& o, uint64_t off, llvm::Constant* c);

  // memory
  uint32_t alloc(State& s, uint64_t size, const std::string& name, bool heap);
  Obj& wobj(State& s, uint32_t id);
  Val load(State& s, uint64_t addr, llvm::Type* ty, uint64_t size, int tk, int w);
  void store(State& s, uint64_t addr, const Val& v, uint64_t size);
  void storeBytes(State& s, uint64_t addr, const void* p, uint64_t n);
  void copyMem(State& s, uint64_t dst, uint64_t src, uint64_t n);
  void setMem(State& s, uint64_t dst, uint8_t v, uint64_t n);
  std::string cstr(State& s, uint64_t addr);
  Val loadT(State& s, uint64_t addr, llvm::Type* ty);
  Obj* check(State& s, uint64_t addr, uint64_t n, const char* what, bool write);

  // values
  T toT(const Val& v);               // integer term (representative)
  T toU(State& s, const Val& v);     // unsigned mathematical value
  T toS(State& s, const Val& v);
  T toB(const Val& v);
  T toR(const Val& v);
  Val fromT(int w, T t);
  Val fromB(T t);
  Val fromR(T t);
  Val binop(State& s, CInst& c, const Val& a, const Val& b);
  Val icmp(State& s, int pred, const Val& a, const Val& b);
  Val fcmp(int pred, const Val& a, const Val& b);
  Val doCast(State& s, CInst& c, const Val& a);
  Val coerce(const Val& v, int tk, int w);

  // control
  struct PathEnd { };
  void run(SP s);
  bool step(State& s);
  void enterBlock(State& s, uint32_t from, uint32_t to);
  bool call(State& s, CInst& c);
  bool callFn(State& s, llvm::Function* F, std::vector<Val>& args, CInst* c);
  void ret(State& s, const Val& v);
  bool throwExc(State& s, uint64_t exc, uint64_t ti);
  bool unwind(State& s);
  bool catches(State& s, uint64_t ti, uint64_t catchTi);
  int branchOn(State& s, T c);  // 0 false 1 true ; forks the other side
  uint64_t concretize(State& s, const Val& v, const char* why);
  SP fork(State& s) { return std::make_shared<State>(s); }
  bool addPC(State& s, T c);
  bool feasible(State& s, T c, bool* unknown);
  int signDecide(State& s, T c);
  bool prove(State& s, T c, int ms);
  int curWidth = 64;

  // obligations
  void ensure(State& s, const std::string& name, T c);
  void ensureEq(State& s, const std::string& name, T a, T b, double tol);
  int eqProof(State& s, T a, T b, double tol, std::string& how, int depth);
  void record(State& s, const std::string& name, const std::string& status, const std::string& how, const std::string& detail, int seed, const Model* m);
  void pathEvent(State& s, const std::string& kind, const std::string& detail);
  std::string where(State& s);
  bool builtin(State& s, llvm::Function* F, CInst& c, std::vector<Val>& a, Val& out, bool& handled);
  std::string ename(State& s, std::vector<Val>& a, size_t i0);
};
}  // namespace lfv
