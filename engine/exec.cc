#include "exec.h"

#include <cxxabi.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>

#include <cmath>
#include <cstring>
#include <functional>
#include <iostream>

#include "../rt/natfun.h"

using namespace llvm;
namespace lfv {
static const int SH = 32;  // object spacing 2^32
static inline uint64_t baseOf(uint32_t id) { return (uint64_t)id << SH; }

ObjP& ObjTable::wr(uint32_t i) {
  if (i >= n) n = i + 1;
  while (ch.size() * B < n) ch.push_back(std::make_shared<Chunk>());
  auto& c = ch[i / B];
  if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
  return (*c)[i % B];
}

static int bitsOf(Type* t, const DataLayout& DL) {
  if (t->isPointerTy()) return 64;
  if (t->isIntegerTy()) return (int)t->getIntegerBitWidth();
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (t->isX86_FP80Ty()) return 80;
  return 0;
}
static int kindOf(Type* t) {
  if (t->isVoidTy()) return 3;
  if (t->isFloatingPointTy()) return 1;
  if (t->isAggregateType() || t->isVectorTy()) return 2;
  return 0;
}
static const std::vector<Val>* mkAgg(std::vector<Val> v) { return new std::vector<Val>(std::move(v)); }
static Val aggAt(const Val& v, size_t i) { if (v.k != Val::AGG) { Val r; return r; } return (*v.agg)[i]; }
static Val aggVal(std::vector<Val> v) { Val r; r.k = Val::AGG; r.agg = mkAgg(std::move(v)); return r; }

Exec::Exec(Module& m) : M(m), DL(m.getDataLayout()) {
  uint32_t next = 16;
  for (auto& F : M) { gaddr[&F] = baseOf(next); fnOfObj[next] = &F; ++next; }
  base.mem.n = next;
  for (auto& G : M.globals()) {
    uint64_t sz = G.getValueType()->isSized() ? DL.getTypeAllocSize(G.getValueType()) : 8;
    uint32_t id = alloc(base, sz, G.getName().str(), false);
    gaddr[&G] = baseOf(id);
  }
  for (auto& A : M.aliases()) {
    Value* v = A.getAliasee()->stripPointerCasts();
    if (auto* gv = dyn_cast<GlobalValue>(v)) gaddr[&A] = gaddr[gv];
  }
  for (auto& G : M.globals()) initGlobal(G);
  for (int i = 0; i < 400; ++i) { Sample s; s.seed = 1000 + i; samples.push_back(std::move(s)); }
  for (int i = 0; i < 24; ++i) base.seeds.push_back(i);
}

uint32_t Exec::alloc(State& s, uint64_t size, const std::string& name, bool heap) {
  uint32_t id = s.mem.n;
  auto o = std::make_shared<Obj>();
  o->size = size;
  o->heap = heap;
  o->name = name;
  if (size > (1ull << 31)) throw Unsupported("allocation of " + std::to_string(size) + " bytes");
  o->data.resize(size);
  o->st.assign(size, 0);
  s.mem.wr(id) = o;
  return id;
}
Obj& Exec::wobj(State& s, uint32_t id) {
  ObjP& p = s.mem.wr(id);
  if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
  return *p;
}
void Exec::initGlobal(GlobalVariable& g) {
  uint32_t id = (uint32_t)(gaddr[&g] >> SH);
  Obj& o = wobj(base, id);
  if (!g.hasInitializer()) {
    o.external = true;
    if (g.getName() == "__libc_single_threaded") { o.data[0] = 1; o.st[0] = 1; }
    // vtables / typeinfo of library classes: give every word a distinct fake function
    return;
  }
  writeConst(o, 0, g.getInitializer());
  o.rdonly = g.isConstant();
}
void Exec::writeConst(Obj& o, uint64_t off, Constant* c) {
  Type* t = c->getType();
  uint64_t sz = DL.getTypeStoreSize(t);
  if (isa<UndefValue>(c)) { return; }
  if (isa<ConstantAggregateZero>(c) || c->isNullValue()) { std::fill(o.data.begin() + off, o.data.begin() + off + sz, 0); std::fill(o.st.begin() + off, o.st.begin() + off + sz, 1); return; }
  if (auto* d = dyn_cast<ConstantDataSequential>(c)) {
    StringRef raw = d->getRawDataValues();
    memcpy(o.data.data() + off, raw.data(), raw.size());
    std::fill(o.st.begin() + off, o.st.begin() + off + raw.size(), 1);
    return;
  }
  if (auto* s = dyn_cast<ConstantStruct>(c)) {
    auto* L = DL.getStructLayout(s->getType());
    for (unsigned i = 0; i < s->getNumOperands(); ++i) writeConst(o, off + L->getElementOffset(i), s->getOperand(i));
    return;
  }
  if (auto* a = dyn_cast<ConstantArray>(c)) {
    uint64_t es = DL.getTypeAllocSize(a->getType()->getElementType());
    for (unsigned i = 0; i < a->getNumOperands(); ++i) writeConst(o, off + i * es, a->getOperand(i));
    return;
  }
  if (auto* a = dyn_cast<ConstantVector>(c)) {
    uint64_t es = DL.getTypeStoreSize(a->getType()->getElementType());
    for (unsigned i = 0; i < a->getNumOperands(); ++i) writeConst(o, off + i * es, a->getOperand(i));
    return;
  }
  Val v = constant(c);
  if (v.k == Val::INT) { memcpy(o.data.data() + off, &v.u, sz); std::fill(o.st.begin() + off, o.st.begin() + off + sz, 1); }
  else if (v.k == Val::FP) {
    if (v.w == 64) memcpy(o.data.data() + off, &v.d, 8);
    else if (v.w == 32) { float f = (float)v.d; memcpy(o.data.data() + off, &f, 4); }
    else { long double f = v.d; memcpy(o.data.data() + off, &f, 10); }
    std::fill(o.st.begin() + off, o.st.begin() + off + sz, 1);
  }
}

Val Exec::constant(Constant* c) {
  Type* t = c->getType();
  int w = bitsOf(t, DL);
  if (auto* i = dyn_cast<ConstantInt>(c)) {
    if (i->getBitWidth() > 128) return Val();
    u128 v = i->getValue().getRawData()[0];
    if (i->getBitWidth() > 64) v |= ((u128)i->getValue().getRawData()[1]) << 64;
    return Val::I(w, v);
  }
  if (auto* f = dyn_cast<ConstantFP>(c)) {
    APFloat a = f->getValueAPF();
    bool l;
    if (!t->isDoubleTy()) a.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l);
    return Val::F(a.convertToDouble(), w);
  }
  if (isa<ConstantPointerNull>(c)) return Val::I(64, 0);
  if (auto* a = dyn_cast<GlobalAlias>(c)) { (void)a; return Val::I(64, gaddr[cast<GlobalValue>(c)]); }
  if (auto* g = dyn_cast<GlobalValue>(c)) return Val::I(64, gaddr[g]);
  if (isa<UndefValue>(c)) {
    if (kindOf(t) == 2) {
      std::vector<Val> e;
      unsigned n = t->isVectorTy() ? cast<FixedVectorType>(t)->getNumElements() : t->isStructTy() ? t->getStructNumElements() : (unsigned)t->getArrayNumElements();
      for (unsigned i = 0; i < n; ++i) e.push_back(constant(UndefValue::get(t->isStructTy() ? t->getStructElementType(i) : t->isVectorTy() ? cast<FixedVectorType>(t)->getElementType() : t->getArrayElementType())));
      return aggVal(e);
    }
    Val r; r.w = (uint8_t)w; return r;
  }
  if (auto* z = dyn_cast<ConstantAggregateZero>(c)) {
    std::vector<Val> e;
    unsigned n = z->getElementCount().getFixedValue();
    for (unsigned i = 0; i < n; ++i) e.push_back(constant(z->getElementValue(i)));
    return aggVal(e);
  }
  if (auto* d = dyn_cast<ConstantDataSequential>(c)) {
    std::vector<Val> e;
    for (unsigned i = 0; i < d->getNumElements(); ++i) e.push_back(constant(d->getElementAsConstant(i)));
    return aggVal(e);
  }
  if (isa<ConstantAggregate>(c)) {
    std::vector<Val> e;
    for (unsigned i = 0; i < c->getNumOperands(); ++i) e.push_back(constant(cast<Constant>(c->getOperand(i))));
    return aggVal(e);
  }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        Val b = constant(ce->getOperand(0));
        APInt off(64, 0);
        if (!cast<GEPOperator>(ce)->accumulateConstantOffset(DL, off)) throw Unsupported("constant GEP");
        return Val::I(64, b.u + (u128)(uint64_t)off.getSExtValue());
      }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt: case Instruction::BitCast: case Instruction::AddrSpaceCast: {
        Val a = constant(ce->getOperand(0));
        if (a.k == Val::INT) return Val::I(w, a.u);
        return a;
      }
      case Instruction::Add: { Val a = constant(ce->getOperand(0)), b = constant(ce->getOperand(1)); return Val::I(w, a.u + b.u); }
      case Instruction::Sub: { Val a = constant(ce->getOperand(0)), b = constant(ce->getOperand(1)); return Val::I(w, a.u - b.u); }
      case Instruction::ICmp: {
        Val a = constant(ce->getOperand(0)), b = constant(ce->getOperand(1));
        State dummy; return icmp(dummy, ce->getPredicate(), a, b);
      }
      default: break;
    }
  }
  std::string s; raw_string_ostream o(s); c->print(o);
  throw Unsupported("constant " + s);
}

// ------------------------------------------------------------------ compile
static std::string locOf(const DebugLoc& dl) {
  std::string r;
  DILocation* l = dl.get();
  for (int n = 0; l && n < 5; ++n) {
    std::string f = l->getFilename().str();
    bool own = f.find("/usr/") != 0;
    auto p = f.find("lib/lf/");
    if (p != std::string::npos) f = f.substr(p);
    if (own || (r.empty() && !l->getInlinedAt())) { if (!r.empty()) r += " < "; r += f + ":" + std::to_string(l->getLine()); }
    l = l->getInlinedAt();
  }
  return r;
}
// repository functions whose text is part of this function (including inlined ones)
const std::set<std::string>& Exec::repoNames(FnInfo& fi) {
  static std::unordered_map<FnInfo*, std::set<std::string>> memo;
  auto it = memo.find(&fi);
  if (it != memo.end()) return it->second;
  std::set<std::string>& r = memo[&fi];
  auto add = [&](const DISubprogram* sp) {
    if (!sp) return;
    std::string f = sp->getFilename().str();
    if (f.find("lf/") == std::string::npos || f.find("/verif/") == 0) return;
    std::string n = sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str());
    if (n.find("lf::") != std::string::npos) r.insert(n);
  };
  add(fi.F->getSubprogram());
  std::set<const DILocation*> seen;
  for (auto& B : *fi.F) for (auto& I : B) for (const DILocation* l = I.getDebugLoc().get(); l && seen.insert(l).second; l = l->getInlinedAt()) if (auto* sc = l->getScope()) add(sc->getSubprogram());
  return r;
}
FnInfo& Exec::info(Function* F) {
  auto it = fns.find(F);
  if (it != fns.end()) return it->second;
  FnInfo& fi = fns[F];
  fi.F = F;
  fi.dname = demangle(F->getName().str());
  fi.isRepo = fi.dname.find("lf::") != std::string::npos;
  compile(fi);
  return fi;
}
Op_ Exec::operand(FnInfo& fi, Value* v, std::unordered_map<Value*, int>& slot) {
  Op_ o; o.c = true; o.i = 0;
  if (auto* c = dyn_cast<Constant>(v)) { o.v = constant(c); return o; }
  auto it = slot.find(v);
  if (it != slot.end()) { o.c = false; o.i = (uint32_t)it->second; return o; }
  if (isa<MetadataAsValue>(v)) return o;
  if (isa<InlineAsm>(v)) return o;
  if (isa<BasicBlock>(v)) return o;
  throw Unsupported("operand");
}
void Exec::compile(FnInfo& fi) {
  Function* F = fi.F;
  std::unordered_map<Value*, int> slot;
  int n = 0;
  for (auto& a : F->args()) slot[&a] = n++;
  uint32_t b = 0;
  for (auto& B : *F) { fi.bid[&B] = b++; for (auto& I : B) if (!I.getType()->isVoidTy()) slot[&I] = n++; }
  fi.nslots = (uint32_t)n;
  fi.blockStart.resize(b); fi.phiDst.resize(b); fi.phiIn.resize(b);
  for (auto& B : *F) {
    uint32_t bi = fi.bid[&B];
    for (auto& P : B.phis()) {
      fi.phiDst[bi].push_back(slot[&P]);
      for (unsigned i = 0; i < P.getNumIncomingValues(); ++i) {
        uint32_t pb = fi.bid[P.getIncomingBlock(i)];
        auto& v = fi.phiIn[bi][pb];
        if (v.size() < fi.phiDst[bi].size()) v.push_back(operand(fi, P.getIncomingValue(i), slot));
      }
    }
    fi.blockStart[bi] = (uint32_t)fi.code.size();
    for (auto& I : B) {
      if (isa<PHINode>(I)) continue;
      if (isa<DbgInfoIntrinsic>(I)) continue;
      CInst c; c.I = &I; c.opc = I.getOpcode();
      c.w = bitsOf(I.getType(), DL); c.tk = kindOf(I.getType()); c.ty = I.getType();
      if (!I.getType()->isVoidTy()) c.dst = slot[&I];
      switch (c.opc) {
        case Instruction::Br: {
          auto* br = cast<BranchInst>(&I);
          c.t0 = fi.bid[br->getSuccessor(0)];
          if (br->isConditional()) { c.t1 = fi.bid[br->getSuccessor(1)]; c.o.push_back(operand(fi, br->getCondition(), slot)); }
          break;
        }
        case Instruction::GetElementPtr: {
          auto* g = cast<GetElementPtrInst>(&I);
          c.o.push_back(operand(fi, g->getPointerOperand(), slot));
          for (auto gti = gep_type_begin(g); gti != gep_type_end(g); ++gti) {
            Value* ix = gti.getOperand();
            if (StructType* st = gti.getStructTypeOrNull()) { c.goff += (int64_t)DL.getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(ix)->getZExtValue()); continue; }
            int64_t sc = (int64_t)DL.getTypeAllocSize(gti.getIndexedType()).getFixedValue();
            if (auto* ci = dyn_cast<ConstantInt>(ix)) { c.goff += ci->getSExtValue() * sc; continue; }
            c.o.push_back(operand(fi, ix, slot));
            c.gidx.push_back({(uint32_t)c.o.size() - 1, sc});
          }
          break;
        }
        case Instruction::Call: case Instruction::Invoke: {
          auto* cb = cast<CallBase>(&I);
          for (auto& a : cb->args()) c.o.push_back(operand(fi, a.get(), slot));
          Value* cv = cb->getCalledOperand()->stripPointerCasts();
          if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
          c.callee = dyn_cast<Function>(cv);
          if (!c.callee) c.o.push_back(operand(fi, cb->getCalledOperand(), slot));
          if (auto* iv = dyn_cast<InvokeInst>(&I)) { c.t0 = fi.bid[iv->getNormalDest()]; c.t1 = fi.bid[iv->getUnwindDest()]; }
          break;
        }
        case Instruction::Switch: {
          auto* sw = cast<SwitchInst>(&I);
          c.o.push_back(operand(fi, sw->getCondition(), slot));
          c.t0 = fi.bid[sw->getDefaultDest()];
          break;
        }
        case Instruction::Alloca: {
          auto* al = cast<AllocaInst>(&I);
          c.size = DL.getTypeAllocSize(al->getAllocatedType());
          c.o.push_back(operand(fi, al->getArraySize(), slot));
          break;
        }
        case Instruction::Load: c.size = DL.getTypeStoreSize(I.getType()); c.o.push_back(operand(fi, I.getOperand(0), slot)); break;
        case Instruction::Store: c.size = DL.getTypeStoreSize(I.getOperand(0)->getType()); c.ty = I.getOperand(0)->getType();
          c.o.push_back(operand(fi, I.getOperand(0), slot)); c.o.push_back(operand(fi, I.getOperand(1), slot)); break;
        case Instruction::ICmp: case Instruction::FCmp: c.pred = cast<CmpInst>(&I)->getPredicate(); /* fallthrough */
        default:
          for (auto& u : I.operands()) c.o.push_back(operand(fi, u.get(), slot));
      }
      fi.code.push_back(std::move(c));
      fi.blockOf.push_back(bi);
    }
  }
  // blocks all of whose continuations run into a failed assertion
  fi.doomed.assign(b, 1); fi.doomLoc.assign(b, "");
  std::vector<char> hasA(b, 0);
  for (auto& B : *F) for (auto& I : B) if (auto* cb = dyn_cast<CallBase>(&I)) {
    auto* cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
    if (cf && isAssertFn(cf)) hasA[fi.bid[&B]] = 1;
  }
  bool any = false;
  for (char x : hasA) any = any || x;
  if (!any) fi.doomed.assign(b, 0);
  for (auto& B : *F) for (auto& I : B) if (auto* cb = dyn_cast<CallBase>(&I)) if (auto* cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) if (cf->getName().startswith("lfv_") && !isAssertFn(cf)) { fi.doomed[fi.bid[&B]] = 0; hasA[fi.bid[&B]] = 0; }
  for (bool ch = any; ch;) {
    ch = false;
    for (auto& B : *F) {
      uint32_t bi = fi.bid[&B];
      if (!fi.doomed[bi] || hasA[bi]) continue;
      auto* t = B.getTerminator();
      bool d = true;
      if (auto* iv = dyn_cast<InvokeInst>(t)) d = fi.doomed[fi.bid[iv->getNormalDest()]];
      else if (isa<BranchInst>(t) || isa<SwitchInst>(t)) { for (unsigned i = 0; i < t->getNumSuccessors(); ++i) d = d && fi.doomed[fi.bid[t->getSuccessor(i)]]; }
      else d = false;
      if (!d) { fi.doomed[bi] = 0; ch = true; }
    }
  }
  if (any) for (auto& B : *F) if (fi.doomed[fi.bid[&B]]) for (auto& I : B) if (I.getDebugLoc()) { fi.doomLoc[fi.bid[&B]] = locOf(I.getDebugLoc()); break; }
  fi.compiled = true;
}

// ------------------------------------------------------------------ values
T Exec::toT(const Val& v) {
  switch (v.k) {
    case Val::INT: {
      if (v.w >= 127) { if (v.w == 128) return iConst((i128)v.u); }
      u128 h = ((u128)1) << (v.w - 1);
      return iConst((v.u & h) ? (i128)v.u - (((i128)1) << v.w) : (i128)v.u);
    }
    case Val::TI: return v.t;
    case Val::TB: return iOfBool(v.t);
    case Val::UNDEF: throw Unsupported("undefined value used in arithmetic");
    case Val::FP: { Val c = coerce(v, 0, v.w); return toT(c); }
    default: throw Unsupported("integer view of a symbolic real");
  }
}
T Exec::toU(State& s, const Val& v) {
  if (v.k == Val::INT) { return iConst((i128)v.u); }
  if (v.k == Val::TB) return iOfBool(v.t);
  T t = toT(v);
  T u = iWrapU(v.w, t);
  if (u->op == I_WRAPU && !t->hasBound) {
    T in = bAnd(bLe(iConst(0), t), bLt(t, iConst(((i128)1) << v.w)));
    if (prove(s, in, 2000)) return t;
  }
  return u;
}
T Exec::toS(State& s, const Val& v) {
  if (v.k == Val::INT) return toT(v);
  if (v.k == Val::TB) return iNeg(iOfBool(v.t));
  T t = toT(v);
  T u = iWrapS(v.w, t);
  if (u->op == I_WRAPS) {
    i128 H = ((i128)1) << (v.w - 1);
    T in = bAnd(bLe(iConst(-H), t), bLt(t, iConst(H)));
    if (prove(s, in, 2000)) return t;
  }
  return u;
}
T Exec::toB(const Val& v) {
  if (v.k == Val::INT) return bConst(v.u & 1);
  if (v.k == Val::TB) return v.t;
  if (v.k == Val::TI) return bNot(bEq0(iMod(v.t, iConst(2))));
  if (v.k == Val::UNDEF) throw Unsupported("branch on an undefined value");
  throw Unsupported("boolean view");
}
T Exec::toR(const Val& v) {
  if (v.k == Val::TR) return v.t;
  if (v.k == Val::FP) return rConst(v.d);
  if (v.k == Val::INT) { Val f = coerce(v, 1, v.w); return rConst(f.d); }
  if (v.k == Val::UNDEF) throw Unsupported("undefined floating point value used");
  throw Unsupported("real view of a symbolic integer");
}
Val Exec::fromT(int w, T t) {
  t = iReduce(w, t);
  if (t->op == I_CONST) return Val::I(w, (u128)t->c);
  if (w == 1) {
    Val r; r.k = Val::TB; r.w = 1; r.t = bNot(bEq0(iMod(t, iConst(2)))); return r.t->op == B_CONST ? Val::I(1, r.t->c != 0) : r;
  }
  Val r; r.k = Val::TI; r.w = (uint8_t)w; r.t = t;
  return r;
}
Val Exec::fromB(T t) {
  if (t->op == B_CONST) return Val::I(1, t->c != 0);
  Val r; r.k = Val::TB; r.w = 1; r.t = t; return r;
}
Val Exec::fromR(T t) {
  if (t->op == R_CONST) return Val::F(t->d);
  Val r; r.k = Val::TR; r.w = 64; r.t = t; return r;
}
Val Exec::coerce(const Val& v, int tk, int w) {
  if (tk == 1 && v.k == Val::INT) {
    if (w == 64) { double d; uint64_t u = (uint64_t)v.u; memcpy(&d, &u, 8); return Val::F(d, 64); }
    if (w == 32) { float d; uint32_t u = (uint32_t)v.u; memcpy(&d, &u, 4); return Val::F(d, 32); }
    if (w == 80) { long double d = 0; u128 u = v.u; memcpy(&d, &u, 10); return Val::F((double)d, 80); }
  }
  if (tk == 0 && v.k == Val::FP) {
    if (v.w == 64) { uint64_t u; memcpy(&u, &v.d, 8); return Val::I(64, u); }
    if (v.w == 32) { float f = (float)v.d; uint32_t u; memcpy(&u, &f, 4); return Val::I(32, u); }
  }
  return v;
}

// ------------------------------------------------------------------ memory
std::string Exec::where(State& s) {
  std::string r;
  int n = 0;
  for (int i = (int)s.st.size() - 1; i >= 0 && n < 6; --i) {
    auto& d = s.st[i].f->dname;
    if (n && d.find("std::") == 0) continue;
    std::string l;
    if (s.st[i].pc < s.st[i].f->code.size()) l = locOf(s.st[i].f->code[s.st[i].pc].I->getDebugLoc());
    if (l.empty() && n) continue;
    if (n) r += " < ";
    r += d.substr(0, 110) + (l.empty() ? "" : " [" + l + "]");
    ++n;
  }
  return r;
}
Obj* Exec::check(State& s, uint64_t addr, uint64_t n, const char* what, bool write) {
  uint32_t id = (uint32_t)(addr >> SH), off = (uint32_t)addr;
  Obj* o = s.mem.rd(id);
  if (!o) {
    if (addr < (1ull << SH)) pathEvent(s, "memory", std::string(what) + " through a null pointer");
    if (fnOfObj.count(id)) pathEvent(s, "memory", std::string(what) + " of code");
    pathEvent(s, "memory", std::string(what) + " at an invalid address");
  }
  if (o->freed) pathEvent(s, "memory", std::string(what) + " of a freed object " + o->name);
  if ((uint64_t)off + n > o->size) {
    if (o->external) throw Unsupported("access to external object " + o->name);
    pathEvent(s, "memory", std::string(what) + " out of bounds: offset " + std::to_string((int64_t)(int32_t)off) + " size " + std::to_string(n) + " in object of " + std::to_string(o->size) + " bytes (" + o->name + ")");
  }
  if (write && o->rdonly) pathEvent(s, "memory", "write to a constant " + o->name);
  return o;
}
Val Exec::load(State& s, uint64_t addr, Type* ty, uint64_t size, int tk, int w) {
  Obj* o = check(s, addr, size, "read", false);
  uint32_t off = (uint32_t)addr;
  if (o->external) {
    if (o->st[off] == 0) throw Unsupported("read of external object " + o->name);
  }
  bool conc = true;
  for (uint64_t i = 0; i < size; ++i) if (o->st[off + i] != 1) { conc = false; break; }
  if (conc) {
    if (tk == 1) {
      if (w == 64) { double d; memcpy(&d, &o->data[off], 8); return Val::F(d, 64); }
      if (w == 32) { float d; memcpy(&d, &o->data[off], 4); return Val::F(d, 32); }
      long double d = 0; memcpy(&d, &o->data[off], 10); return Val::F((double)d, 80);
    }
    u128 v = 0;
    memcpy(&v, &o->data[off], size > 16 ? 16 : size);
    if (size > 16) throw Unsupported("wide integer load");
    return Val::I(w, v);
  }
  if (o->st[off] == 2) {
    const Val& v = o->sym.at(off);
    uint64_t vs = (v.w + 7) / 8;
    bool tail = true;
    for (uint64_t i = 1; i < size && tail; ++i) tail = o->st[off + i] == 3;
    if (vs == size && tail) {
      if (v.w == w || v.k == Val::TR) return v;
      if (v.k == Val::TI && w < v.w) return fromT(w, v.t);
      if (v.k == Val::TB) return fromT(w, iOfBool(v.t));
    }
  }
  bool allUndef = true;
  for (uint64_t i = 0; i < size; ++i) if (o->st[off + i] != 0) { allUndef = false; break; }
  if (allUndef) { Val r; r.w = (uint8_t)w; return r; }
  if (tk == 1) throw Unsupported("mixed floating point load");
  // several reals moved as one integer (copies of small structures of floats)
  if (size % 4 == 0 && w == (int)size * 8 && w < 256) {
    bool pack = true, real = false;
    for (uint64_t i = 0; i < size && pack; i += 4) {
      const uint8_t h = o->st[off + i];
      if (h == 2) { const Val& v = o->sym.at(off + (uint32_t)i); pack = v.w == 32; real = real || v.k == Val::TR; }
      else for (int q = 0; q < 4; ++q) pack = pack && o->st[off + i + q] == 1;
    }
    if (pack && real) {
      std::vector<Val> e;
      for (uint64_t i = 0; i < size; i += 4) {
        if (o->st[off + i] == 2) { e.push_back(o->sym.at(off + (uint32_t)i)); continue; }
        uint32_t q; memcpy(&q, &o->data[off + i], 4);
        e.push_back(Val::I(32, q));
      }
      Val r = aggVal(e); r.w = (uint8_t)w; return r;
    }
  }
  // compose
  T acc = iConst(0);
  u128 cv = 0; bool anySym = false;
  for (uint64_t i = 0; i < size;) {
    uint8_t st = o->st[off + i];
    if (st == 1 || st == 0) { if (st == 1) cv |= ((u128)o->data[off + i]) << (8 * i); ++i; continue; }
    uint32_t h = off + (uint32_t)i;
    while (o->st[h] == 3) --h;
    const Val& v = o->sym.at(h);
    if (v.k == Val::TR) throw Unsupported("partial load of a symbolic real");
    uint32_t vs = (v.w + 7) / 8;
    uint32_t skip = off + (uint32_t)i - h;
    uint32_t take = std::min<uint32_t>(vs - skip, (uint32_t)(size - i));
    T u = toU(s, v);
    if (skip) u = iDiv(u, iConst(((i128)1) << (8 * skip)));
    if (skip + take < vs) u = iMod(u, iConst(((i128)1) << (8 * take)));
    acc = iAdd(acc, iScale(u, ((i128)1) << (8 * i)));
    anySym = true;
    i += take;
  }
  if (!anySym) return Val::I(w, cv);
  return fromT(w, iAdd(acc, iConst((i128)cv)));
}
// partly defined integers: UNDEF values carry the mask of their defined bits (low half) and
// the values of those bits (high half)
static void bitsOfVal(const Val& v, int w, uint64_t& d, uint64_t& x) {
  uint64_t full = w >= 64 ? ~0ull : (1ull << w) - 1;
  if (v.k == Val::INT) { d = full; x = (uint64_t)v.u & full; return; }
  d = (uint64_t)v.u & full; x = (uint64_t)(v.u >> 64) & d;
}
static Val bitsVal(int w, uint64_t d, uint64_t x) {
  uint64_t full = w >= 64 ? ~0ull : (1ull << w) - 1;
  d &= full; x &= d;
  if (d == full) return Val::I(w, x);
  Val r; r.w = (uint8_t)w; r.u = ((u128)x << 64) | d; return r;
}
static void clearRange(Exec& e, Obj& o, uint32_t off, uint64_t n) {
  // symbolic values overlapping the range: drop, or keep untouched bytes as undefined
  if (o.sym.empty()) return;
  uint32_t i = off, end = off + (uint32_t)n;
  uint32_t h = off;
  if (o.st[h] == 3) {
    while (o.st[h] == 3) --h;
    Val v = o.sym[h];
    uint32_t vs = (v.w + 7) / 8;
    o.sym.erase(h);
    for (uint32_t k = h; k < h + vs; ++k) o.st[k] = 0;
    if (v.k == Val::TI) {  // keep the low part [h,off) bytewise
      T u = iWrapU(v.w, v.t);
      for (uint32_t k = h; k < off; ++k) { Val b; b.k = Val::TI; b.w = 8; b.t = iMod(iDiv(u, iConst(((i128)1) << (8 * (k - h)))), iConst(256)); o.sym[k] = b; o.st[k] = 2; }
      for (uint32_t k = end; k < h + vs; ++k) { Val b; b.k = Val::TI; b.w = 8; b.t = iMod(iDiv(u, iConst(((i128)1) << (8 * (k - h)))), iConst(256)); o.sym[k] = b; o.st[k] = 2; }
    }
  }
  for (i = off; i < end; ++i)
    if (o.st[i] == 2) {
      Val v = o.sym[i];
      uint32_t vs = (v.w + 7) / 8;
      o.sym.erase(i);
      for (uint32_t k = i; k < i + vs; ++k) o.st[k] = 0;
      if (v.k == Val::TI && i + vs > end) {
        T u = iWrapU(v.w, v.t);
        for (uint32_t k = end; k < i + vs; ++k) { Val b; b.k = Val::TI; b.w = 8; b.t = iMod(iDiv(u, iConst(((i128)1) << (8 * (k - i)))), iConst(256)); o.sym[k] = b; o.st[k] = 2; }
      }
    }
}
void Exec::store(State& s, uint64_t addr, const Val& v, uint64_t size) {
  if (v.k == Val::AGG && v.w == size * 8 && v.agg->size() * 4 == size) { for (size_t i = 0; i < v.agg->size(); ++i) store(s, addr + 4 * i, (*v.agg)[i], 4); return; }
  if (v.k == Val::AGG) throw Unsupported("aggregate store");
  check(s, addr, size, "write", true);
  Obj& o = wobj(s, (uint32_t)(addr >> SH));
  uint32_t off = (uint32_t)addr;
  clearRange(*this, o, off, size);
  if (v.k == Val::INT) {
    memcpy(&o.data[off], &v.u, size);
    memset(&o.st[off], 1, size);
  } else if (v.k == Val::FP) {
    if (v.w == 64) memcpy(&o.data[off], &v.d, 8);
    else if (v.w == 32) { float f = (float)v.d; memcpy(&o.data[off], &f, 4); }
    else { long double f = v.d; memcpy(&o.data[off], &f, 10); }
    memset(&o.st[off], 1, size);
  } else if (v.k == Val::UNDEF && (v.u == 0 || v.w != size * 8)) {
    memset(&o.st[off], 0, size);
  } else {
    Val x = v;
    if (v.k == Val::TB) { x.k = Val::TI; x.w = (uint8_t)(size * 8); x.t = iOfBool(v.t); }
    else if (v.w < size * 8) { x.w = (uint8_t)(size * 8); if (v.k == Val::TI) x.t = toU(s, v); }
    o.sym[off] = x;
    o.st[off] = 2;
    for (uint64_t i = 1; i < size; ++i) o.st[off + i] = 3;
  }
}
void Exec::storeBytes(State& s, uint64_t addr, const void* p, uint64_t n) {
  if (!n) return;
  check(s, addr, n, "write", true);
  Obj& o = wobj(s, (uint32_t)(addr >> SH));
  clearRange(*this, o, (uint32_t)addr, n);
  memcpy(&o.data[(uint32_t)addr], p, n);
  memset(&o.st[(uint32_t)addr], 1, n);
}
void Exec::copyMem(State& s, uint64_t dst, uint64_t src, uint64_t n) {
  if (!n || dst == src) return;
  Obj* a = check(s, src, n, "read (copy)", false);
  check(s, dst, n, "write (copy)", true);
  ObjP keep = (*s.mem.ch[(src >> SH) / ObjTable::B])[(src >> SH) % ObjTable::B];
  uint32_t so = (uint32_t)src, d0 = (uint32_t)dst;
  std::vector<uint8_t> data(a->data.begin() + so, a->data.begin() + so + n), st(a->st.begin() + so, a->st.begin() + so + n);
  std::vector<std::pair<uint32_t, Val>> syms;
  if (!a->sym.empty()) {
    if (st[0] == 3) throw Unsupported("copy starting inside a symbolic value");
    for (uint64_t i = 0; i < n; ++i) if (st[i] == 2) {
      const Val& v = a->sym.at(so + (uint32_t)i);
      if (i + (v.w + 7) / 8 > n) throw Unsupported("copy ending inside a symbolic value");
      syms.push_back({(uint32_t)i, v});
    }
  }
  keep.reset();
  Obj& o = wobj(s, (uint32_t)(dst >> SH));
  clearRange(*this, o, d0, n);
  memcpy(&o.data[d0], data.data(), n);
  memcpy(&o.st[d0], st.data(), n);
  for (auto& p : syms) o.sym[d0 + p.first] = p.second;
}
void Exec::setMem(State& s, uint64_t dst, uint8_t v, uint64_t n) {
  if (!n) return;
  check(s, dst, n, "write (set)", true);
  Obj& o = wobj(s, (uint32_t)(dst >> SH));
  clearRange(*this, o, (uint32_t)dst, n);
  memset(&o.data[(uint32_t)dst], v, n);
  memset(&o.st[(uint32_t)dst], 1, n);
}
std::string Exec::cstr(State& s, uint64_t addr) {
  std::string r;
  for (;; ++addr) {
    Obj* o = check(s, addr, 1, "read", false);
    uint8_t c = o->data[(uint32_t)addr];
    if (o->st[(uint32_t)addr] != 1 || !c) break;
    r += (char)c;
  }
  return r;
}
Val Exec::loadT(State& s, uint64_t addr, Type* ty) {
  int tk = kindOf(ty);
  if (tk == 2) {
    std::vector<Val> e;
    if (auto* st = dyn_cast<StructType>(ty)) { auto* L = DL.getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) e.push_back(loadT(s, addr + L->getElementOffset(i), st->getElementType(i))); }
    else if (auto* v = dyn_cast<FixedVectorType>(ty)) { uint64_t es = DL.getTypeStoreSize(v->getElementType()); for (unsigned i = 0; i < v->getNumElements(); ++i) e.push_back(loadT(s, addr + i * es, v->getElementType())); }
    else { uint64_t es = DL.getTypeAllocSize(ty->getArrayElementType()); for (unsigned i = 0; i < ty->getArrayNumElements(); ++i) e.push_back(loadT(s, addr + i * es, ty->getArrayElementType())); }
    return aggVal(e);
  }
  return load(s, addr, ty, DL.getTypeStoreSize(ty), tk, bitsOf(ty, DL));
}
static void storeT(Exec& ex, std::function<void(uint64_t, const Val&, uint64_t)> st, const DataLayout& DL, uint64_t addr, const Val& v, Type* ty) {
  if (kindOf(ty) == 2) {
    if (v.k == Val::UNDEF) return;
    if (auto* s = dyn_cast<StructType>(ty)) { auto* L = DL.getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); ++i) storeT(ex, st, DL, addr + L->getElementOffset(i), (*v.agg)[i], s->getElementType(i)); }
    else if (auto* vt = dyn_cast<FixedVectorType>(ty)) { uint64_t es = DL.getTypeStoreSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); ++i) storeT(ex, st, DL, addr + i * es, (*v.agg)[i], vt->getElementType()); }
    else { uint64_t es = DL.getTypeAllocSize(ty->getArrayElementType()); for (unsigned i = 0; i < ty->getArrayNumElements(); ++i) storeT(ex, st, DL, addr + i * es, (*v.agg)[i], ty->getArrayElementType()); }
    return;
  }
  st(addr, v, DL.getTypeStoreSize(ty));
}

// ------------------------------------------------------------------ arithmetic
static double fprnd(double d, int w) { return w == 32 ? (double)(float)d : d; }
Val Exec::binop(State& s, CInst& c, const Val& a, const Val& b) {
  if (a.k == Val::AGG && a.w && c.opc == Instruction::LShr && b.k == Val::INT && b.u % 32 == 0) {
    std::vector<Val> e;
    for (size_t i = 0; i < a.agg->size(); ++i) e.push_back(i + b.u / 32 < a.agg->size() ? (*a.agg)[i + b.u / 32] : Val::I(32, 0));
    Val r = aggVal(e); r.w = a.w; return r;
  }
  if ((a.k == Val::AGG && a.w) || (b.k == Val::AGG && b.w)) throw Unsupported("arithmetic on packed reals");
  if (a.k == Val::AGG || b.k == Val::AGG) {
    std::vector<Val> e;
    size_t n = (a.k == Val::AGG ? a.agg : b.agg)->size();
    Type* et = cast<FixedVectorType>(c.I->getType())->getElementType();
    CInst d = c; d.w = bitsOf(et, DL); d.tk = kindOf(et);
    for (size_t i = 0; i < n; ++i) e.push_back(binop(s, d, aggAt(a, i), aggAt(b, i)));
    return aggVal(e);
  }
  if (c.tk == 1) {
    if (a.k == Val::UNDEF || b.k == Val::UNDEF) return a.k == Val::UNDEF ? a : b;
    Val x = coerce(a, 1, c.w), y = coerce(b, 1, c.w);
    if (x.k == Val::FP && y.k == Val::FP) {
      double r = 0;
      switch (c.opc) {
        case Instruction::FAdd: r = x.d + y.d; break;
        case Instruction::FSub: r = x.d - y.d; break;
        case Instruction::FMul: r = x.d * y.d; break;
        case Instruction::FDiv: r = x.d / y.d; break;
        case Instruction::FRem: r = std::fmod(x.d, y.d); break;
      }
      return Val::F(fprnd(r, c.w), c.w);
    }
    T p = toR(x), q = toR(y);
    switch (c.opc) {
      case Instruction::FAdd: return fromR(rAdd(p, q));
      case Instruction::FSub: return fromR(rSub(p, q));
      case Instruction::FMul: return fromR(rMul(p, q));
      case Instruction::FDiv:
        if (q->op == R_CONST && q->d == 0) { pathEvent(s, "arithmetic", "division of a real by zero"); }
        return fromR(rDiv(p, q));
      default: return fromR(rBin("fmod", p, q));
    }
  }
  int w = c.w;
  if (a.k == Val::UNDEF || b.k == Val::UNDEF) {
    Val r; r.w = (uint8_t)w;
    if (w <= 64 && (a.k == Val::UNDEF || a.k == Val::INT) && (b.k == Val::UNDEF || b.k == Val::INT)) {
      uint64_t da, va, db, vb;
      bitsOfVal(a, w, da, va); bitsOfVal(b, w, db, vb);
      switch (c.opc) {
        case Instruction::And: return bitsVal(w, (da & db) | (da & ~va) | (db & ~vb), va & vb);
        case Instruction::Or: return bitsVal(w, (da & db) | (da & va) | (db & vb), va | vb);
        case Instruction::Xor: return bitsVal(w, da & db, va ^ vb);
        case Instruction::Shl: if (b.k == Val::INT && b.u < (u128)w) { int n = (int)b.u; return bitsVal(w, n ? (da << n) | ((1ull << n) - 1) : da, va << n); } break;
        case Instruction::LShr: if (b.k == Val::INT && b.u < (u128)w) { int n = (int)b.u; uint64_t full = w == 64 ? ~0ull : (1ull << w) - 1; return bitsVal(w, ((da & full) >> n) | (full & ~(full >> n)), (va & full) >> n); } break;
        default: break;
      }
    }
    if (c.opc == Instruction::And) { const Val& o = a.k == Val::UNDEF ? b : a; if (o.k == Val::INT && o.u == 0) return o; }
    return r;
  }
  if (a.k == Val::FP || b.k == Val::FP) return binop(s, c, coerce(a, 0, w), coerce(b, 0, w));
  if (a.k == Val::INT && b.k == Val::INT) {
    u128 x = a.u, y = b.u, r = 0;
    auto sx = [&](u128 v) -> i128 { if (w >= 128) return (i128)v; u128 h = ((u128)1) << (w - 1); return (v & h) ? (i128)(v | ~((h << 1) - 1)) : (i128)v; };
    switch (c.opc) {
      case Instruction::Add: r = x + y; break;
      case Instruction::Sub: r = x - y; break;
      case Instruction::Mul: r = x * y; break;
      case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
        if (y == 0) pathEvent(s, "arithmetic", "integer division by zero");
        if (c.opc == Instruction::UDiv) r = x / y;
        else if (c.opc == Instruction::URem) r = x % y;
        else if (c.opc == Instruction::SDiv) r = (u128)(sx(x) / sx(y));
        else r = (u128)(sx(x) % sx(y));
        break;
      case Instruction::Shl: r = y >= (unsigned)w ? 0 : x << (int)y; break;
      case Instruction::LShr: r = y >= (unsigned)w ? 0 : x >> (int)y; break;
      case Instruction::AShr: r = (u128)(sx(x) >> (int)(y >= (unsigned)w ? w - 1 : y)); break;
      case Instruction::And: r = x & y; break;
      case Instruction::Or: r = x | y; break;
      case Instruction::Xor: r = x ^ y; break;
    }
    return Val::I(w, r);
  }
  if (w == 1) {
    T p = toB(a), q = toB(b);
    switch (c.opc) {
      case Instruction::And: case Instruction::Mul: return fromB(bAnd(p, q));
      case Instruction::Or: return fromB(bOr(p, q));
      case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return fromB(bXor(p, q));
      default: throw Unsupported("i1 op");
    }
  }
  switch (c.opc) {
    case Instruction::Add: return fromT(w, iAdd(toT(a), toT(b)));
    case Instruction::Sub: return fromT(w, iSub(toT(a), toT(b)));
    case Instruction::Mul: return fromT(w, iMul(toT(a), toT(b)));
    case Instruction::Shl: {
      if (b.k != Val::INT) { uint64_t k = concretize(s, b, "shift"); return binop(s, c, a, Val::I(w, k)); }
      return fromT(w, iScale(toT(a), ((i128)1) << (int)b.u));
    }
    case Instruction::LShr: {
      if (b.k != Val::INT) { uint64_t k = concretize(s, b, "shift"); return binop(s, c, a, Val::I(w, k)); }
      return fromT(w, iDiv(toU(s, a), iConst(((i128)1) << (int)b.u)));
    }
    case Instruction::AShr: {
      if (b.k != Val::INT) { uint64_t k = concretize(s, b, "shift"); return binop(s, c, a, Val::I(w, k)); }
      return fromT(w, iDiv(toS(s, a), iConst(((i128)1) << (int)b.u)));
    }
    case Instruction::UDiv: case Instruction::URem: {
      T y = toU(s, b), x = toU(s, a);
      if (y->lo <= 0 && !prove(s, bLt(iConst(0), y), 3000)) { if (!branchOn(s, bLt(iConst(0), y))) pathEvent(s, "arithmetic", "integer division by zero"); }
      return fromT(w, c.opc == Instruction::UDiv ? iDiv(x, y) : iMod(x, y));
    }
    case Instruction::SDiv: case Instruction::SRem: {
      T y = toS(s, b), x = toS(s, a);
      if (y->lo <= 0 && y->hi >= 0 && branchOn(s, bEq0(y))) pathEvent(s, "arithmetic", "integer division by zero");
      if (y->op != I_CONST && x->lo < 0 && prove(s, bLe(iConst(0), x), 1000) && prove(s, bLt(iConst(0), y), 1000)) return fromT(w, c.opc == Instruction::SDiv ? iDiv(x, y) : iMod(x, y));
      return fromT(w, c.opc == Instruction::SDiv ? iSdiv(x, y) : iSrem(x, y));
    }
    case Instruction::And: case Instruction::Or: case Instruction::Xor: {
      Op op = c.opc == Instruction::And ? I_BITAND : c.opc == Instruction::Or ? I_BITOR : I_BITXOR;
      return fromT(w, iBit(op, w, toU(s, a), toU(s, b)));
    }
  }
  throw Unsupported("integer operation");
}
Val Exec::icmp(State& s, int pred, const Val& a, const Val& b) {
  if ((pred == CmpInst::ICMP_EQ || pred == CmpInst::ICMP_NE) && ((a.k == Val::UNDEF && b.k == Val::INT) || (a.k == Val::INT && b.k == Val::UNDEF) )) {
    const Val& p = a.k == Val::UNDEF ? a : b; const Val& q = a.k == Val::UNDEF ? b : a;
    if (p.w <= 64 && q.w <= 64) { uint64_t dp = (uint64_t)p.u, vp = (uint64_t)(p.u >> 64); if ((vp ^ (uint64_t)q.u) & dp) return Val::I(1, pred == CmpInst::ICMP_NE); }
  }
  if ((a.k == Val::AGG && a.w) || (b.k == Val::AGG && b.w)) throw Unsupported("arithmetic on packed reals");
  if (a.k == Val::AGG) { std::vector<Val> e; for (size_t i = 0; i < a.agg->size(); ++i) e.push_back(icmp(s, pred, aggAt(a, i), aggAt(b, i))); return aggVal(e); }
  if (a.k == Val::UNDEF || b.k == Val::UNDEF) { Val r; r.w = 1; return r; }
  if (a.k == Val::INT && b.k == Val::INT) {
    int w = a.w;
    u128 x = a.u, y = b.u;
    auto sx = [&](u128 v) -> i128 { if (w >= 128) return (i128)v; u128 h = ((u128)1) << (w - 1); return (v & h) ? (i128)(v | ~((h << 1) - 1)) : (i128)v; };
    bool r = false;
    switch (pred) {
      case CmpInst::ICMP_EQ: r = x == y; break;
      case CmpInst::ICMP_NE: r = x != y; break;
      case CmpInst::ICMP_ULT: r = x < y; break;
      case CmpInst::ICMP_ULE: r = x <= y; break;
      case CmpInst::ICMP_UGT: r = x > y; break;
      case CmpInst::ICMP_UGE: r = x >= y; break;
      case CmpInst::ICMP_SLT: r = sx(x) < sx(y); break;
      case CmpInst::ICMP_SLE: r = sx(x) <= sx(y); break;
      case CmpInst::ICMP_SGT: r = sx(x) > sx(y); break;
      case CmpInst::ICMP_SGE: r = sx(x) >= sx(y); break;
    }
    return Val::I(1, r);
  }
  int w = a.w;
  if (a.k == Val::FP || b.k == Val::FP) return icmp(s, pred, coerce(a, 0, w), coerce(b, 0, w));
  if (w == 1) {
    T p = toB(a), q = toB(b);
    switch (pred) {
      case CmpInst::ICMP_EQ: return fromB(bNot(bXor(p, q)));
      case CmpInst::ICMP_NE: return fromB(bXor(p, q));
      case CmpInst::ICMP_ULT: case CmpInst::ICMP_SGT: return fromB(bAnd(bNot(p), q));
      case CmpInst::ICMP_UGT: case CmpInst::ICMP_SLT: return fromB(bAnd(p, bNot(q)));
      case CmpInst::ICMP_ULE: case CmpInst::ICMP_SGE: return fromB(bOr(bNot(p), q));
      default: return fromB(bOr(p, bNot(q)));
    }
  }
  switch (pred) {
    case CmpInst::ICMP_EQ: case CmpInst::ICMP_NE: {
      T d = iSub(toT(a), toT(b));
      i128 Mx = ((i128)1) << w;
      T e = (d->lo > -Mx && d->hi < Mx) ? bEq0(d) : bEq(toU(s, a), toU(s, b));
      return fromB(pred == CmpInst::ICMP_EQ ? e : bNot(e));
    }
    case CmpInst::ICMP_ULT: return fromB(bLt(toU(s, a), toU(s, b)));
    case CmpInst::ICMP_ULE: return fromB(bLe(toU(s, a), toU(s, b)));
    case CmpInst::ICMP_UGT: return fromB(bLt(toU(s, b), toU(s, a)));
    case CmpInst::ICMP_UGE: return fromB(bLe(toU(s, b), toU(s, a)));
    case CmpInst::ICMP_SLT: return fromB(bLt(toS(s, a), toS(s, b)));
    case CmpInst::ICMP_SLE: return fromB(bLe(toS(s, a), toS(s, b)));
    case CmpInst::ICMP_SGT: return fromB(bLt(toS(s, b), toS(s, a)));
    default: return fromB(bLe(toS(s, b), toS(s, a)));
  }
}
Val Exec::fcmp(int pred, const Val& a0, const Val& b0) {
  if (a0.k == Val::AGG) { std::vector<Val> e; for (size_t i = 0; i < a0.agg->size(); ++i) e.push_back(fcmp(pred, aggAt(a0, i), aggAt(b0, i))); return aggVal(e); }
  if (pred == CmpInst::FCMP_TRUE) return Val::I(1, 1);
  if (pred == CmpInst::FCMP_FALSE) return Val::I(1, 0);
  if (a0.k == Val::UNDEF || b0.k == Val::UNDEF) { Val r; r.w = 1; return r; }
  Val a = coerce(a0, 1, a0.w), b = coerce(b0, 1, b0.w);
  if (a.k == Val::FP && b.k == Val::FP) {
    double x = a.d, y = b.d;
    bool un = std::isnan(x) || std::isnan(y), r = false;
    switch (pred) {
      case CmpInst::FCMP_OEQ: r = !un && x == y; break;
      case CmpInst::FCMP_OGT: r = !un && x > y; break;
      case CmpInst::FCMP_OGE: r = !un && x >= y; break;
      case CmpInst::FCMP_OLT: r = !un && x < y; break;
      case CmpInst::FCMP_OLE: r = !un && x <= y; break;
      case CmpInst::FCMP_ONE: r = !un && x != y; break;
      case CmpInst::FCMP_ORD: r = !un; break;
      case CmpInst::FCMP_UNO: r = un; break;
      case CmpInst::FCMP_UEQ: r = un || x == y; break;
      case CmpInst::FCMP_UGT: r = un || x > y; break;
      case CmpInst::FCMP_UGE: r = un || x >= y; break;
      case CmpInst::FCMP_ULT: r = un || x < y; break;
      case CmpInst::FCMP_ULE: r = un || x <= y; break;
      case CmpInst::FCMP_UNE: r = un || x != y; break;
    }
    return Val::I(1, r);
  }
  if (pred == CmpInst::FCMP_ORD) return Val::I(1, 1);
  if (pred == CmpInst::FCMP_UNO) return Val::I(1, 0);
  // infinities against a finite symbolic value
  auto inf = [](const Val& v) { return v.k == Val::FP && std::isinf(v.d); };
  if (inf(a) || inf(b)) {
    double x = inf(a) ? a.d : 0, y = inf(b) ? b.d : 0;
    return fcmp(pred, Val::F(x), Val::F(y));
  }
  T x = toR(a), y = toR(b);
  switch (pred) {
    case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return fromB(bREq(x, y));
    case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return fromB(bNot(bREq(x, y)));
    case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return fromB(bRLt(y, x));
    case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return fromB(bRLe(y, x));
    case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return fromB(bRLt(x, y));
    default: return fromB(bRLe(x, y));
  }
}
Val Exec::doCast(State& s, CInst& c, const Val& a) {
  if (a.k == Val::AGG && a.w) {
    if (c.opc == Instruction::Trunc && c.w == 32) return (*a.agg)[0];
    throw Unsupported("arithmetic on packed reals");
  }
  if (c.tk == 2) {
    if (c.opc == Instruction::BitCast) throw Unsupported("vector bitcast");
    std::vector<Val> e; CInst d = c;
    Type* et = llvm::cast<FixedVectorType>(c.ty)->getElementType();
    d.ty = et; d.w = bitsOf(et, DL); d.tk = kindOf(et);
    for (auto& x : *a.agg) e.push_back(doCast(s, d, x));
    return aggVal(e);
  }
  if (a.k == Val::UNDEF) {
    if (c.w <= 64 && a.w <= 64 && a.w > 0 && (c.opc == Instruction::Trunc || c.opc == Instruction::ZExt)) {
      uint64_t d, v; bitsOfVal(a, a.w, d, v);
      if (c.opc == Instruction::ZExt && a.w < 64) d |= ~0ull << a.w;
      return bitsVal(c.w, d, v);
    }
    Val r; r.w = (uint8_t)c.w; return r;
  }
  switch (c.opc) {
    case Instruction::ZExt: if (a.k == Val::INT) return Val::I(c.w, a.u); return fromT(c.w, toU(s, a));
    case Instruction::SExt: return fromT(c.w, toS(s, a));
    case Instruction::Trunc: if (a.k == Val::INT) return Val::I(c.w, a.u); if (a.k == Val::TR) throw Unsupported("integer view of a symbolic real"); return fromT(c.w, toT(a));
    case Instruction::PtrToInt: case Instruction::IntToPtr: { Val r = a; if (a.k == Val::INT) return Val::I(c.w, a.u); r.w = (uint8_t)c.w; return r; }
    case Instruction::BitCast: return coerce(a, c.tk, c.w);
    case Instruction::SIToFP: { if (a.k == Val::INT) return Val::F(fprnd((double)toT(a)->c, c.w), c.w); return fromR(rOfInt(toS(s, a))); }
    case Instruction::UIToFP: { if (a.k == Val::INT) return Val::F(fprnd((double)a.u, c.w), c.w); return fromR(rOfInt(toU(s, a))); }
    case Instruction::FPToSI: case Instruction::FPToUI: {
      if (a.k == Val::FP) return Val::I(c.w, (u128)(i128)a.d);
      return fromT(c.w, iTrunc(toR(a)));
    }
    case Instruction::FPTrunc: case Instruction::FPExt: { if (a.k == Val::FP) return Val::F(fprnd(a.d, c.w), c.w); Val r = a; if (r.k == Val::TR) r.w = (uint8_t)c.w; return r; }
    case Instruction::AddrSpaceCast: return a;
  }
  throw Unsupported("cast");
}

// ------------------------------------------------------------------ path conditions
// comparison of reals as (sign key, admitted signs): 1 negative, 2 zero, 4 positive
static bool signAtom(T c, std::string& key, int& mask) {
  bool neg = false;
  while (c->op == B_NOT) { c = c->k[0]; neg = !neg; }
  if (c->op != B_RLT && c->op != B_RLE && c->op != B_REQ) return false;
  T d = rSub(c->k[1], c->k[0]);
  int flip;
  if (!signKey(d, key, flip)) return false;
  mask = c->op == B_RLT ? 4 : c->op == B_RLE ? 6 : 2;
  if (neg) mask = 7 & ~mask;
  if (flip < 0) mask = (mask & 2) | (mask & 1 ? 4 : 0) | (mask & 4 ? 1 : 0);
  return true;
}
static int known(const State& s, const std::string& key) {
  if (key == "0") return 2;
  if (key == "1") return 4;
  auto it = s.signs.find(key);
  return it == s.signs.end() ? 7 : it->second;
}
// 1 valid, 0 contradictory, -1 undetermined by the sign store
int Exec::signDecide(State& s, T c) {
  std::string key; int mask;
  if (!signAtom(c, key, mask)) return -1;
  int k = known(s, key);
  if ((k & ~mask) == 0) return 1;
  if ((k & mask) == 0) return 0;
  return -1;
}
bool Exec::addPC(State& s, T c) {
  if (isTrue(c)) return true;
  if (isFalse(c)) return false;
  if (c->op == B_AND) { return addPC(s, c->k[0]) && addPC(s, c->k[1]); }
  if (s.pcset.count(bNot(c))) return false;
  {
    std::string key; int mask;
    if (signAtom(c, key, mask)) {
      int k = known(s, key) & mask;
      if (k == 0) return false;
      if (key != "0" && key != "1") s.signs[key] = k;
    }
  }
  if (!s.pcset.insert(c).second) return true;
  s.pc.push_back(c);
  std::vector<int> keep;
  for (int i : s.seeds) if (evalB(c, samples[i])) keep.push_back(i);
  s.seeds.swap(keep);
  if (s.seeds.size() < 4 && !s.seedsTried) {  // look for more samples
    for (size_t i = 24; i < samples.size() && s.seeds.size() < 8; ++i) {
      if (std::find(s.seeds.begin(), s.seeds.end(), (int)i) != s.seeds.end()) continue;
      bool ok = true;
      for (T p : s.pc) if (!evalB(p, samples[i])) { ok = false; break; }
      if (ok) s.seeds.push_back((int)i);
    }
    if (s.seeds.empty()) s.seedsTried = true;
  }
  return true;
}
bool Exec::feasible(State& s, T c, bool* unknown) {
  if (isFalse(c)) return false;
  if (isTrue(c)) return true;
  if (s.pcset.count(c)) return true;
  if (s.pcset.count(bNot(c))) return false;
  { int k = signDecide(s, c); if (k == 0) return false; if (k == 1) return true; }
  for (int i : s.seeds) if (evalB(c, samples[i])) return true;
  Ans a = solve(s.pc, c, hasReal(c) ? 1500 : 5000, nullptr);
  if (a == Ans::Unknown && unknown) *unknown = true;
  return a != Ans::Unsat;
}
bool Exec::prove(State& s, T c, int ms) {
  if (isTrue(c)) return true;
  if (isFalse(c)) return false;
  if (s.pcset.count(c)) return true;
  { int k = signDecide(s, c); if (k >= 0) return k == 1; }
  for (int i : s.seeds) if (!evalB(c, samples[i])) return false;
  return solve(s.pc, bNot(c), ms, nullptr) == Ans::Unsat;
}
int Exec::branchOn(State& s, T c) {
  if (isTrue(c)) return 1;
  if (isFalse(c)) return 0;
  if (s.pcset.count(c)) return 1;
  T nc = bNot(c);
  if (s.pcset.count(nc)) return 0;
  { int k = signDecide(s, c); if (k >= 0) return k; }
  bool u1 = false, u2 = false;
  bool ft = feasible(s, c, &u1), ff = feasible(s, nc, &u2);
  if (!ft && !ff) { throw PathEnd{}; }
  if (ft && !ff) { return 1; }
  if (ff && !ft) { return 0; }
  SP o = fork(s);
  if (u2) o->infeasibleUnknown = true;
  if (u1) s.infeasibleUnknown = true;
  if (addPC(*o, nc)) work.push_back(o);
  if (!addPC(s, c)) throw PathEnd{};
  return 1;
}
static T findCond(T n) {
  if (n->op == I_ITE) { T c = findCond(n->k[0]); return c ? c : n->k[0]; }
  if (n->op == I_B2I) return n->k[0];
  for (T k : n->k) if (k->sort == INT) if (T c = findCond(k)) return c;
  for (auto& m : n->mons) for (T k : m.first) if (T c = findCond(k)) return c;
  return nullptr;
}
uint64_t Exec::concretize(State& s, const Val& v, const char* why) {
  if (v.k == Val::INT) return (uint64_t)v.u;
  if (v.k == Val::UNDEF) pathEvent(s, "undefined", std::string("undefined value used as ") + why);
  T t = toU(s, v);
  if (t->op == I_CONST) return (uint64_t)t->c;
  for (int guard = 0; guard < 64; ++guard) {  // decide the conditions inside the value first
    T cond = findCond(t);
    if (!cond) break;
    int b = branchOn(s, cond);
    Subst S; S.m[cond] = bConst(b);
    t = S(t);
    if (t->op == I_CONST) return (uint64_t)t->c;
  }
  // candidate from samples, otherwise from the solver
  i128 c = 0; bool have = false;
  if (!s.seeds.empty()) { c = evalI(t, samples[s.seeds[0]]); have = true; }
  if (!have) {
    Model m;
    if (solve(s.pc, bConst(true), 5000, &m) != Ans::Sat) { R.incomplete = true; throw Unsupported(std::string("cannot enumerate ") + why); }
    Sample q; q.seed = 7; for (auto& p : m.ints) q.ovr[p.first] = (double)p.second; for (auto& p : m.real) q.ovr[p.first] = p.second;
    c = evalI(t, q);
    have = true;
  }
  long& cnt = s.counters["concretize"];
  if (++cnt > 400) { R.incomplete = true; throw Unsupported(std::string("too many values for ") + why + ": " + show(t)); }
  if (trace) std::cerr << "concretize " << why << " " << show(t) << " -> " << i128s(c) << "\n";
  T e = bEq(t, iConst(c));
  SP o = fork(s);
  bool unk = false;
  if (feasible(s, bNot(e), &unk)) { if (addPC(*o, bNot(e))) work.push_back(o); }
  if (!addPC(s, e)) throw PathEnd{};
  return (uint64_t)c;
}

// ------------------------------------------------------------------ obligations
void Exec::record(State& s, const std::string& name, const std::string& status, const std::string& how, const std::string& detail, int seed, const Model* m) {
  R.obligations++;
  if (status == "proved") { R.proved++; R.byName[name]["proved: " + how]++; return; }
  R.byName[name][status]++;
  Oblig o;
  o.name = name; o.status = status; o.how = how; o.detail = detail + " | at " + where(s);
  o.choices = s.choices;
  if (seed >= 0) {
    o.seed = (long)samples[seed].seed;
    std::unordered_map<T, bool> seen; std::vector<T> syms;
    for (T p : s.pc) collectSyms(p, syms, seen);
    for (T x : syms) o.inputs.push_back({x->name, x->sort == INT ? (double)evalI(x, samples[seed]) : evalR(x, samples[seed])});
  }
  if (m) {
    for (auto& p : m->ints) o.inputs.push_back({p.first->name, (double)p.second});
    for (auto& p : m->real) o.inputs.push_back({p.first->name, p.second});
    o.seed = 1000;
  }
  if ((long)R.failures.size() < maxFailures * 4) R.failures.push_back(o);
}
void Exec::pathEvent(State& s, const std::string& kind, const std::string& detail) {
  // an event that must be unreachable
  if (kind == "assertion" && s.expectAbort) { R.byName["rejects"]["proved: path ends in the required assertion failure"]++; R.obligations++; R.proved++; R.aborted++; throw PathEnd{}; }
  bool confirmed = !s.seeds.empty();
  int seed = confirmed ? s.seeds[0] : -1;
  Model m; Model* mp = nullptr;
  if (!confirmed) {
    Ans a = s.pc.empty() ? Ans::Sat : solve(s.pc, bConst(true), 8000, &m);
    if (a == Ans::Unsat) throw PathEnd{};
    confirmed = a == Ans::Sat;
    mp = &m;
  }
  record(s, "no-" + kind + "-failure", confirmed ? "violated" : "unknown", "path", kind + ": " + detail, seed, confirmed ? mp : nullptr);
  throw PathEnd{};
}
void Exec::ensure(State& s, const std::string& name, T c) {
  if (isTrue(c)) { record(s, name, "proved", "evaluation", "", -1, nullptr); return; }
  if (s.pcset.count(c)) { record(s, name, "proved", "path condition", "", -1, nullptr); return; }
  if (signDecide(s, c) == 1) { record(s, name, "proved", "normal form of a precondition", "", -1, nullptr); return; }
  for (int i : s.seeds) if (!evalB(c, samples[i])) { record(s, name, "violated", "sample", show(c), i, nullptr); addPC(s, c); return; }
  if (isFalse(c)) { Model m; Ans a = s.pc.empty() ? Ans::Sat : solve(s.pc, bConst(true), 8000, &m); if (a == Ans::Unsat) throw PathEnd{}; record(s, name, a == Ans::Sat ? "violated" : "unknown", "evaluation", "false", -1, &m); return; }
  if (c->op == B_AND) { ensure(s, name, c->k[0]); ensure(s, name, c->k[1]); return; }
  if (c->op == B_REQ) { ensureEq(s, name, c->k[0], c->k[1], 1e-11); return; }
  Model m;
  Ans a = solve(s.pc, bNot(c), 20000, nullptr);
  if (a == Ans::Unsat) { record(s, name, "proved", hasReal(c) ? "z3 (reals)" : "z3 (integers)", "", -1, nullptr); addPC(s, c); return; }
  if (a == Ans::Sat) a = solve(s.pc, bNot(c), 20000, &m);
  record(s, name, a == Ans::Sat ? "violated" : "unknown", "z3", show(c), -1, &m);
  addPC(s, c);
}
static void collectOps(T n, std::unordered_map<T, bool>& seen, std::vector<T>& ites, std::vector<T>& abss) {
  if (seen[n]) return;
  seen[n] = true;
  if (n->op == R_ITE || n->op == I_ITE) ites.push_back(n->k[0]);
  if (n->op == I_B2I) ites.push_back(n->k[0]);
  if (n->op == R_ABS) abss.push_back(n);
  for (T k : n->k) collectOps(k, seen, ites, abss);
  for (auto& m : n->mons) for (T k : m.first) collectOps(k, seen, ites, abss);
}
int Exec::eqProof(State& s, T a, T b, double tol, std::string& how, int depth) {
  EqResult r{0, "", 0, 0};
  try {
    r = proveEq(a, b, tol, 60000000L);
  } catch (std::exception& e) { r.verdict = 0; r.how = e.what(); }
  how = r.how;
  if (r.verdict) return 1;
  if (depth > 7) return 0;
  std::unordered_map<T, bool> seen; std::vector<T> ites, abss;
  collectOps(a, seen, ites, abss); collectOps(b, seen, ites, abss);
  if (!ites.empty()) {
    T c = ites[0];
    int ok = 1;
    std::string h1, h2;
    for (int v = 1; v >= 0 && ok; --v) {
      T cc = v ? c : bNot(c);
      bool unk;
      if (!feasible(s, cc, &unk)) continue;
      SP q = fork(s);
      if (!addPC(*q, cc)) continue;
      Subst S; S.m[c] = bConst(v);
      ok = eqProof(*q, S(a), S(b), tol, v ? h1 : h2, depth + 1);
    }
    how = "case split; " + (h1.empty() ? h2 : h1);
    return ok;
  }
  if (!abss.empty()) {
    T x = abss[0];
    Subst S;
    T nn = bRLe(rConst(0), x->k[0]), np = bRLe(x->k[0], rConst(0));
    if (prove(s, nn, 3000)) { S.m[x] = x->k[0]; std::string h; int ok = eqProof(s, S(a), S(b), tol, h, depth + 1); how = "sign of |.| from the precondition; " + h; return ok; }
    if (prove(s, np, 3000)) { S.m[x] = rNeg(x->k[0]); std::string h; int ok = eqProof(s, S(a), S(b), tol, h, depth + 1); how = "sign of |.| from the precondition; " + h; return ok; }
    Subst S2; S.m[x] = x->k[0]; S2.m[x] = rNeg(x->k[0]);
    std::string h;
    int ok = eqProof(s, S(a), S(b), tol, h, depth + 1) && eqProof(s, S2(a), S2(b), tol, h, depth + 1);
    if (ok) how = "split on the sign of |.|; " + h;
    if (ok) return 1;
  }
  return 0;
}
void Exec::ensureEq(State& s, const std::string& name, T a, T b, double tol) {
  if (a == b) { record(s, name, "proved", a->op == R_CONST ? "evaluation" : "polynomial identity", "", -1, nullptr); return; }
  auto close = [&](double x, double y, double t) { return std::fabs(x - y) <= t * std::max({1.0, std::fabs(x), std::fabs(y)}); };
  if (a->op == R_CONST && b->op == R_CONST) {
    if (close(a->d, b->d, std::max(tol, 1e-300))) record(s, name, "proved", "evaluation", "", -1, nullptr);
    else ensure(s, name + "", bConst(false));
    return;
  }
  int bad = 0, first = -1, good = 0;
  for (int i : s.seeds) {
    double x = evalR(a, samples[i]), y = evalR(b, samples[i]);
    if (!std::isfinite(x) || !std::isfinite(y)) continue;
    if (!close(x, y, std::max(tol, 1e-7))) { ++bad; if (first < 0) first = i; } else ++good;
  }
  if (bad > 0) {
    double x = evalR(a, samples[first]), y = evalR(b, samples[first]);
    char buf[200]; snprintf(buf, sizeof buf, "left = %.12g, right = %.12g", x, y);
    record(s, name, "violated", "sample", buf, first, nullptr);
    return;
  }
  // use equalities of the path condition
  Subst S;
  for (T p : s.pc) if (p->op == B_REQ) {
    if (p->k[0]->op == R_SYM && p->k[1]->op == R_CONST) S.m[p->k[0]] = p->k[1];
    else if (p->k[1]->op == R_SYM && p->k[0]->op == R_CONST) S.m[p->k[1]] = p->k[0];
    else if (p->k[0]->op == R_SYM && p->k[1]->op == R_SYM) S.m[p->k[0]] = p->k[1];
  } else if (p->op == B_EQ0) {
    // integer atom = constant
    T q = p->k[0];
    if (q->op == I_POLY && q->mons.size() == 1 && q->mons[0].first.size() == 1 && (q->mons[0].second == 1)) S.m[q->mons[0].first[0]] = iConst(-q->c);
    else if (q->op == I_SYM || q->op == I_APP) S.m[q] = iConst(0);
  }
  if (!S.m.empty()) { a = S(a); b = S(b); if (a == b) { record(s, name, "proved", "polynomial identity", "", -1, nullptr); return; } }
  std::string how;
  int ok = 0;
  ok = eqProof(s, a, b, tol, how, 0);
  if (ok) { record(s, name, "proved", how, "", -1, nullptr); return; }
  // constants that differ within the numerical tolerance on every sample
  record(s, name, "unknown", how, "not proved: " + show(a, 3) + " == " + show(b, 3), -1, nullptr);
}

// ------------------------------------------------------------------ control
void Exec::enterBlock(State& s, uint32_t from, uint32_t to) {
  Frame& f = s.st.back();
  if (f.f->doomed[to]) pathEvent(s, "assertion", f.f->doomLoc[to]);
  auto& pd = f.f->phiDst[to];
  if (!pd.empty()) {
    auto& in = f.f->phiIn[to].at(from);
    if (pd.size() == 1) { Val v = in[0].c ? in[0].v : f.r[in[0].i]; f.r[pd[0]] = v; }
    else {
      static thread_local std::vector<Val> tmp;
      tmp.resize(pd.size());
      for (size_t i = 0; i < pd.size(); ++i) tmp[i] = in[i].c ? in[i].v : f.r[in[i].i];
      for (size_t i = 0; i < pd.size(); ++i) f.r[pd[i]] = tmp[i];
    }
  }
  f.pc = f.f->blockStart[to];
}
bool Exec::callFn(State& s, Function* F, std::vector<Val>& args, CInst* c) {
  FnInfo& fi = info(F);
  for (auto& n : repoNames(fi)) R.functions.insert(n);
  if (s.st.size() > 2000) throw Unsupported("call depth");
  Frame fr;
  fr.f = &fi;
  fr.r.resize(fi.nslots);
  size_t n = F->arg_size();
  for (size_t i = 0; i < n && i < args.size(); ++i) fr.r[i] = args[i];
  for (size_t i = n; i < args.size(); ++i) fr.va.push_back(args[i]);
  fr.pc = fi.blockStart[0];
  s.st.push_back(std::move(fr));
  return true;
}
void Exec::ret(State& s, const Val& v) {
  for (uint32_t a : s.st.back().allocas) { Obj& o = wobj(s, a); o.freed = true; std::vector<uint8_t>().swap(o.data); std::vector<uint8_t>().swap(o.st); o.sym.clear(); }
  s.st.pop_back();
  if (s.st.empty()) return;
  Frame& f = s.st.back();
  CInst& c = f.f->code[f.pc];
  if (c.dst >= 0) f.r[c.dst] = v;
  if (c.opc == Instruction::Invoke) enterBlock(s, f.f->blockOf[f.pc], c.t0);
  else ++f.pc;
}

bool Exec::catches(State& s, uint64_t ti, uint64_t ct) {
  if (ct == 0) return true;
  if (ti == ct) return true;
  // __si_class_type_info { vptr, name, base } / class names of the library hierarchy
  auto nameOf = [&](uint64_t a) -> std::string { Obj* o = s.mem.rd((uint32_t)(a >> SH)); return o ? o->name : ""; };
  std::string n = nameOf(ti), m = nameOf(ct);
  if (n == m) return true;
  static const std::map<std::string, std::string> up = {
      {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
      {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"},
      {"_ZTISt18bad_variant_access", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}};
  auto it = up.find(n);
  if (it != up.end()) {
    uint64_t a = 0;
    std::string u = it->second;
    if (u == m) return true;
    auto it2 = up.find(u);
    return it2 != up.end() && it2->second == m;
    (void)a;
  }
  Obj* o = s.mem.rd((uint32_t)(ti >> SH));
  if (o && o->size >= 24 && !o->external) { uint64_t b; memcpy(&b, &o->data[16], 8); if (b >= (16ull << SH)) return catches(s, b, ct); }
  return false;
}
// unwinds to the next landing pad; false if none
bool Exec::unwind(State& s) {
  while (!s.st.empty()) {
    Frame& f = s.st.back();
    CInst& c = f.f->code[f.pc];
    if (c.opc == Instruction::Invoke) {
      BasicBlock* lpb = llvm::cast<InvokeInst>(c.I)->getUnwindDest();
      LandingPadInst* lp = lpb->getLandingPadInst();
      bool enter = lp->isCleanup();
      for (unsigned i = 0; i < lp->getNumClauses(); ++i)
        if (lp->isCatch(i)) { Val v = constant(lp->getClause(i)); if (catches(s, s.excTypeAddr, (uint64_t)v.u)) enter = true; }
        else enter = true;  // filters: enter and let the code decide
      if (enter) { enterBlock(s, f.f->blockOf[f.pc], c.t1); return true; }
    }
    for (uint32_t a : f.allocas) { Obj& o = wobj(s, a); o.freed = true; }
    s.st.pop_back();
  }
  return false;
}
bool Exec::throwExc(State& s, uint64_t exc, uint64_t ti) {
  s.excPtr = exc; s.excTypeAddr = ti; s.excTypes[exc] = ti;
  std::string wh = where(s);
  if (!unwind(s)) {
    Obj* o = s.mem.rd((uint32_t)(ti >> SH));
    s.st.clear();
    pathEvent(s, "exception", "uncaught exception of type " + demangle(o ? o->name : "?") + " thrown in " + wh);
  }
  return true;
}

bool Exec::step(State& s) {
  Frame& f = s.st.back();
  CInst& c = f.f->code[f.pc];
  auto V = [&](size_t i) -> const Val& { const Op_& o = c.o[i]; return o.c ? o.v : f.r[o.i]; };
  switch (c.opc) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor:
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
      Val r = binop(s, c, V(0), V(1));
      f.r[c.dst] = r; ++f.pc; return true;
    }
    case Instruction::FNeg: {
      Val a = coerce(V(0), 1, c.w);
      if (a.k == Val::AGG) { std::vector<Val> e; for (auto& x : *a.agg) e.push_back(x.k == Val::FP ? Val::F(-x.d, x.w) : fromR(rNeg(toR(x)))); f.r[c.dst] = aggVal(e); ++f.pc; return true; }
      f.r[c.dst] = a.k == Val::FP ? Val::F(-a.d, a.w) : a.k == Val::UNDEF ? a : fromR(rNeg(toR(a)));
      ++f.pc; return true;
    }
    case Instruction::ICmp: { Val r = icmp(s, c.pred, V(0), V(1)); f.r[c.dst] = r; ++f.pc; return true; }
    case Instruction::FCmp: { Val r = fcmp(c.pred, V(0), V(1)); f.r[c.dst] = r; ++f.pc; return true; }
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast:
    case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::AddrSpaceCast: {
      Val r = doCast(s, c, V(0)); f.r[c.dst] = r; ++f.pc; return true;
    }
    case Instruction::Freeze: { Val r = V(0); if (r.k == Val::UNDEF) r = c.tk == 1 ? Val::F(0, c.w) : Val::I(c.w, 0); f.r[c.dst] = r; ++f.pc; return true; }
    case Instruction::GetElementPtr: {
      const Val& b = V(0);
      bool conc = b.k == Val::INT;
      int64_t off = c.goff;
      for (auto& g : c.gidx) { const Val& x = V(g.first); if (x.k != Val::INT) { conc = false; break; } int64_t v = (int64_t)(uint64_t)x.u; if (x.w < 64) { v = (int64_t)((uint64_t)v << (64 - x.w)) >> (64 - x.w); } off += v * g.second; }
      if (conc) { f.r[c.dst] = Val::I(64, b.u + (u128)(uint64_t)off); ++f.pc; return true; }
      if (b.k == Val::UNDEF) { f.r[c.dst] = b; ++f.pc; return true; }
      T t = iAdd(toT(b), iConst(c.goff));
      for (auto& g : c.gidx) { const Val& x = V(g.first); T xi = x.w < 64 ? toS(s, x) : toT(x); t = iAdd(t, iScale(xi, g.second)); }
      f.r[c.dst] = fromT(64, t);
      ++f.pc; return true;
    }
    case Instruction::Load: {
      uint64_t a = concretize(s, V(0), "an address");
      Val r = c.tk == 2 ? loadT(s, a, c.ty) : load(s, a, c.ty, c.size, c.tk, c.w);
      if (c.tk == 0 && r.k == Val::TR && c.ty->isPointerTy()) throw Unsupported("pointer load of a real");
      f.r[c.dst] = r; ++f.pc; return true;
    }
    case Instruction::Store: {
      uint64_t a = concretize(s, V(1), "an address");
      Val v = V(0);
      if (kindOf(c.ty) == 2) storeT(*this, [&](uint64_t ad, const Val& x, uint64_t n) { store(s, ad, x, n); }, DL, a, v, c.ty);
      else store(s, a, v, c.size);
      ++f.pc; return true;
    }
    case Instruction::Alloca: {
      uint64_t n = concretize(s, V(0), "alloca size");
      uint32_t id = alloc(s, c.size * n, "local", false);
      Frame& f2 = s.st.back();
      f2.allocas.push_back(id);
      f2.r[c.dst] = Val::I(64, baseOf(id));
      ++f2.pc; return true;
    }
    case Instruction::Br: {
      uint32_t from = f.f->blockOf[f.pc];
      if (c.o.empty()) { enterBlock(s, from, c.t0); return true; }
      const Val& v = V(0);
      bool t;
      if (v.k == Val::INT) t = v.u & 1;
      else { if (v.k == Val::UNDEF) pathEvent(s, "undefined", "branch on an undefined value"); t = branchOn(s, toB(v)); }
      enterBlock(s, from, t ? c.t0 : c.t1);
      return true;
    }
    case Instruction::Switch: {
      auto* sw = llvm::cast<SwitchInst>(c.I);
      const Val& v = V(0);
      uint32_t from = f.f->blockOf[f.pc];
      if (v.k == Val::UNDEF) pathEvent(s, "undefined", "switch on an undefined value");
      if (v.k == Val::INT) {
        for (auto& cs : sw->cases()) if (cs.getCaseValue()->getZExtValue() == (uint64_t)v.u) { enterBlock(s, from, f.f->bid[cs.getCaseSuccessor()]); return true; }
        enterBlock(s, from, c.t0); return true;
      }
      T u = toT(v);
      for (auto& cs : sw->cases()) {
        Val k = constant(cs.getCaseValue());
        T e = toB(icmp(s, CmpInst::ICMP_EQ, v, k));
        (void)u;
        if (branchOn(s, e)) { enterBlock(s, from, s.st.back().f->bid[cs.getCaseSuccessor()]); return true; }
      }
      enterBlock(s, from, c.t0);
      return true;
    }
    case Instruction::Select: {
      const Val& q = V(0);
      if (q.k == Val::INT) { f.r[c.dst] = (q.u & 1) ? V(1) : V(2); ++f.pc; return true; }
      if (q.k == Val::AGG) {
        std::vector<Val> e;
        for (size_t i = 0; i < q.agg->size(); ++i) { if ((*q.agg)[i].k != Val::INT) throw Unsupported("vector select"); e.push_back(((*q.agg)[i].u & 1) ? aggAt(V(1), i) : aggAt(V(2), i)); }
        f.r[c.dst] = aggVal(e); ++f.pc; return true;
      }
      if (q.k == Val::UNDEF) { f.r[c.dst] = q; f.r[c.dst].w = (uint8_t)c.w; ++f.pc; return true; }
      T cond = toB(q);
      Val a = V(1), b = V(2);
      if (c.ty->isPointerTy() || c.tk == 2 || a.k == Val::UNDEF || b.k == Val::UNDEF) { int t = branchOn(s, cond); s.st.back().r[c.dst] = t ? a : b; ++s.st.back().pc; return true; }
      if (s.pcset.count(cond)) { f.r[c.dst] = a; ++f.pc; return true; }
      if (s.pcset.count(bNot(cond))) { f.r[c.dst] = b; ++f.pc; return true; }
      if (c.tk == 1) f.r[c.dst] = fromR(rIte(cond, toR(a), toR(b)));
      else if (c.w == 1) f.r[c.dst] = fromB(bIte(cond, toB(a), toB(b)));
      else if (a.k == Val::TR || b.k == Val::TR) { int t = branchOn(s, cond); s.st.back().r[c.dst] = t ? a : b; ++s.st.back().pc; return true; }
      else f.r[c.dst] = fromT(c.w, iIte(cond, toT(a), toT(b)));
      ++f.pc; return true;
    }
    case Instruction::ExtractValue: {
      Val v = V(0);
      for (unsigned i : llvm::cast<ExtractValueInst>(c.I)->indices()) v = aggAt(v, i);
      f.r[c.dst] = v; ++f.pc; return true;
    }
    case Instruction::InsertValue: {
      std::function<Val(const Val&, const Val&, ArrayRef<unsigned>)> ins = [&](const Val& a, const Val& x, ArrayRef<unsigned> ix) -> Val {
        if (ix.empty()) return x;
        std::vector<Val> e; if (a.k == Val::AGG) e = *a.agg; else e.resize(8); e[ix[0]] = ins(e[ix[0]], x, ix.drop_front()); return aggVal(e);
      };
      f.r[c.dst] = ins(V(0), V(1), llvm::cast<InsertValueInst>(c.I)->getIndices());
      ++f.pc; return true;
    }
    case Instruction::ExtractElement: { uint64_t i = concretize(s, V(1), "vector index"); f.r[c.dst] = aggAt(V(0), i); ++f.pc; return true; }
    case Instruction::InsertElement: { uint64_t i = concretize(s, V(2), "vector index"); std::vector<Val> e; if (V(0).k == Val::AGG) e = *V(0).agg; else e.resize(llvm::cast<FixedVectorType>(c.ty)->getNumElements()); e[i] = V(1); f.r[c.dst] = aggVal(e); ++f.pc; return true; }
    case Instruction::ShuffleVector: {
      auto* sv = llvm::cast<ShuffleVectorInst>(c.I);
      std::vector<Val> e; size_t na = llvm::cast<FixedVectorType>(c.I->getOperand(0)->getType())->getNumElements();
      for (int m : sv->getShuffleMask()) e.push_back(m < 0 ? Val() : (size_t)m < na ? aggAt(V(0), m) : aggAt(V(1), m - na));
      f.r[c.dst] = aggVal(e); ++f.pc; return true;
    }
    case Instruction::Ret: {
      Val v = c.o.empty() ? Val() : V(0);
      ret(s, v);
      return !s.st.empty();
    }
    case Instruction::Unreachable: pathEvent(s, "unreachable", "undefined behaviour: unreachable code reached"); return false;
    case Instruction::Call: case Instruction::Invoke: return call(s, c);
    case Instruction::LandingPad: {
      // selector: index of the matching type (address of its typeinfo, truncated), 0 for cleanup
      auto* lp = llvm::cast<LandingPadInst>(c.I);
      uint32_t sel = 0;
      for (unsigned i = 0; i < lp->getNumClauses() && !sel; ++i)
        if (lp->isCatch(i)) { Val v = constant(lp->getClause(i)); if (catches(s, s.excTypeAddr, (uint64_t)v.u)) sel = (uint32_t)((uint64_t)v.u >> SH) + 1; }
      f.r[c.dst] = aggVal({Val::I(64, s.excPtr), Val::I(32, sel)});
      ++f.pc; return true;
    }
    case Instruction::Resume: {
      Val v = V(0);
      s.excPtr = (uint64_t)(*v.agg)[0].u;
      s.excTypeAddr = s.excTypes[s.excPtr];
      for (uint32_t a : f.allocas) { Obj& o = wobj(s, a); o.freed = true; }
      s.st.pop_back();
      if (!unwind(s)) { Obj* o = s.mem.rd((uint32_t)(s.excTypeAddr >> SH)); s.st.clear(); pathEvent(s, "exception", "uncaught exception of type " + demangle(o ? o->name : "?")); }
      return true;
    }
    case Instruction::AtomicRMW: {
      auto* r = llvm::cast<AtomicRMWInst>(c.I);
      uint64_t a = concretize(s, V(0), "an address");
      uint64_t n = DL.getTypeStoreSize(r->getType());
      Val old = load(s, a, r->getType(), n, 0, c.w);
      CInst d = c; d.tk = 0;
      Val nv;
      switch (r->getOperation()) {
        case AtomicRMWInst::Add: d.opc = Instruction::Add; nv = binop(s, d, old, V(1)); break;
        case AtomicRMWInst::Sub: d.opc = Instruction::Sub; nv = binop(s, d, old, V(1)); break;
        case AtomicRMWInst::Xchg: nv = V(1); break;
        default: throw Unsupported("atomicrmw");
      }
      store(s, a, nv, n);
      f.r[c.dst] = old; ++f.pc; return true;
    }
    case Instruction::AtomicCmpXchg: {
      uint64_t a = concretize(s, V(0), "an address");
      Type* t = c.I->getOperand(1)->getType();
      uint64_t n = DL.getTypeStoreSize(t);
      Val old = load(s, a, t, n, 0, bitsOf(t, DL));
      int eq = branchOn(s, toB(icmp(s, CmpInst::ICMP_EQ, old, V(1))));
      if (eq) store(s, a, V(2), n);
      s.st.back().r[c.dst] = aggVal({old, Val::I(1, eq)});
      ++s.st.back().pc; return true;
    }
    case Instruction::Fence: ++f.pc; return true;
    default: throw Unsupported(std::string("instruction ") + c.I->getOpcodeName());
  }
}

bool Exec::call(State& s, CInst& c) {
  Frame& f = s.st.back();
  std::vector<Val> a;
  size_t n = c.o.size();
  Function* F = c.callee;
  if (!F) --n;
  a.reserve(n);
  for (size_t i = 0; i < n; ++i) a.push_back(c.o[i].c ? c.o[i].v : f.r[c.o[i].i]);
  if (!F) {
    if (llvm::isa<InlineAsm>(llvm::cast<CallBase>(c.I)->getCalledOperand())) { if (c.dst >= 0 && !a.empty()) f.r[c.dst] = a[0]; if (c.opc == Instruction::Invoke) enterBlock(s, f.f->blockOf[f.pc], c.t0); else ++f.pc; return true; }
    uint64_t p = concretize(s, c.o[n].c ? c.o[n].v : f.r[c.o[n].i], "a function pointer");
    auto it = fnOfObj.find((uint32_t)(p >> SH));
    if (it == fnOfObj.end() || (uint32_t)p != 0) pathEvent(s, "memory", "call through an invalid function pointer");
    F = it->second;
  }
  Val out;
  bool handled = false;
  bool cont = builtin(s, F, c, a, out, handled);
  if (handled) {
    if (!cont) return !s.st.empty();
    Frame& g = s.st.back();
    if (c.dst >= 0) g.r[c.dst] = out;
    if (c.opc == Instruction::Invoke) enterBlock(s, g.f->blockOf[g.pc], c.t0);
    else ++g.pc;
    return true;
  }
  if (F->isDeclaration()) throw Unsupported("external function " + demangle(F->getName().str()));
  return callFn(s, F, a, &c);
}

void Exec::run(SP sp) {
  State& s = *sp;
  try {
    while (true) {
      if ((++s.steps & 4095) == 0) {
        double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        if (el > limit) { R.incomplete = true; R.error = "time limit at " + where(s); R.steps += s.steps; return; }
      }
      if (!step(s)) break;
    }
    R.paths++;
  } catch (PathEnd&) {
    R.killed++;
  } catch (Unsupported& u) {
    // is the path real?
    std::string wh = where(s);
    if (!(s.seeds.empty() && !s.pc.empty() && solve(s.pc, bConst(true), 8000, nullptr) == Ans::Unsat)) {
      R.incomplete = true;
      R.notes.insert(std::string("unsupported: ") + u.what() + " at " + wh);
      if (R.error.empty()) R.error = std::string("unsupported: ") + u.what() + " at " + wh;
      if (trace && !s.st.empty()) { s.st.back().f->code[s.st.back().pc].I->print(errs()); errs() << "\n"; }
    }
  }
  R.steps += s.steps;
  s.steps = 0;
}

void Exec::runCtors() {
  auto* g = M.getGlobalVariable("llvm.global_ctors");
  limit = 60;
  t0 = std::chrono::steady_clock::now();
  if (!g || !g->hasInitializer()) return;
  auto* arr = dyn_cast<ConstantArray>(g->getInitializer());
  if (!arr) return;
  std::vector<std::pair<uint64_t, Function*>> fs;
  for (auto& op : arr->operands()) {
    auto* st = dyn_cast<ConstantStruct>(op);
    if (!st) continue;
    fs.push_back({llvm::cast<ConstantInt>(st->getOperand(0))->getZExtValue(), dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())});
  }
  std::stable_sort(fs.begin(), fs.end(), [](auto& a, auto& b) { return a.first < b.first; });
  for (auto& f : fs) {
    if (!f.second) continue;
    SP s = std::make_shared<State>(base);
    std::vector<Val> none;
    R = Result();
    try { callFn(*s, f.second, none, nullptr); run(s); } catch (Unsupported& u) { R.error = u.what(); }
    if (R.error.empty() && R.failures.empty()) { base = *s; base.st.clear(); base.steps = 0; }
    else if (verbose) std::cerr << "ctor " << f.second->getName().str() << ": " << R.error << (R.failures.empty() ? "" : R.failures[0].detail) << "\n";
  }
}

Result Exec::runUnit(const std::string& fn, double tl, long mf) {
  R = Result();
  limit = tl; maxFailures = mf; unit = fn;
  t0 = std::chrono::steady_clock::now();
  Function* F = M.getFunction(fn);
  if (!F) { R.error = "no such unit"; R.incomplete = true; return R; }
  SP s = std::make_shared<State>(base);
  std::vector<Val> none;
  callFn(*s, F, none, nullptr);
  work.push_back(s);
  while (!work.empty()) {
    double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (el > limit) { R.incomplete = true; if (R.error.empty()) R.error = "time limit"; break; }
    if ((long)R.failures.size() >= maxFailures) { R.notes.insert("stopped after " + std::to_string(R.failures.size()) + " failures"); break; }
    SP x = work.back();
    work.pop_back();
    run(x);
  }
  work.clear();
  return R;
}
}  // namespace lfv
