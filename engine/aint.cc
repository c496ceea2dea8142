// aint: an abstract interpreter for LLVM IR.
//
// Works on the IR the project's own compiler emits for the project's current
// sources.  The abstract state is (memory of abstract values, object
// typestates, numeric facts); see term.h / facts.h for the value domains.
// States are partitioned on undecided branches (trace partitioning), calls are
// analysed per calling context and equal exit states are joined.  No code is
// executed and no solver is called.
#include "facts.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Intrinsics.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <array>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace llvm;
TermPool P;

struct Val {
  T t = nullptr;
  std::shared_ptr<std::vector<Val>> agg;
};
struct Cell {
  T t = nullptr;
  uint8_t idx = 0;
  bool operator==(const Cell& o) const { return t == o.t && idx == o.idx; }
};
enum class OK : uint8_t { Global, Stack, Heap, Func };
struct Obj {
  OK kind = OK::Stack;
  u64 size = 0;
  T symSize = nullptr;  // opaque object: symbolic size and contents
  bool freed = false, constant = false;
  u64 align = 1;
  std::vector<Cell> b;
  std::string name;
  const GlobalObject* g = nullptr;
  std::map<std::pair<T, unsigned>, T> memo;
  int allocKind = 0;  // heap: 1 malloc, 2 new, 3 new[]
};
struct Frame {
  const Function* F = nullptr;
  const BasicBlock* bb = nullptr;
  const BasicBlock* prev = nullptr;
  BasicBlock::const_iterator it;
  std::vector<Val> regs;
  std::vector<uint32_t> allocas;
};
// Object table: chunked so that copying a state is cheap.
struct Mem {
  static constexpr size_t N = 64;
  using Chunk = std::array<std::shared_ptr<Obj>, N>;
  std::vector<std::shared_ptr<Chunk>> ch;
  size_t n = 0;
  size_t size() const { return n; }
  const std::shared_ptr<Obj>& operator[](size_t i) const { static const std::shared_ptr<Obj> nul; auto& c = ch[i / N]; return c ? (*c)[i % N] : nul; }
  std::shared_ptr<Obj>& w(size_t i) {
    auto& c = ch[i / N];
    if (!c) c = std::make_shared<Chunk>();
    else if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
    return (*c)[i % N];
  }
  void push_back(std::shared_ptr<Obj> o) { if (n % N == 0) ch.push_back(nullptr); ++n; if (o) w(n - 1) = std::move(o); }
  void kill(size_t i) {
    if (!ch[i / N]) return;
    w(i) = nullptr;
    if ((i + 1) % N == 0 || i % N == 0) { bool any = false; for (auto& p : *ch[i / N]) if (p) { any = true; break; } if (!any && (i / N + 1) * N <= n) ch[i / N] = nullptr; }
  }
  bool same(const Mem& o) const {
    if (n != o.n) return false;
    for (size_t i = 0; i < ch.size(); ++i) {
      if (ch[i] == o.ch[i]) continue;
      for (size_t j = 0; j < N && i * N + j < n; ++j) if ((*this)[i * N + j] != o[i * N + j]) return false;
    }
    return true;
  }
};
struct State {
  Mem mem;
  std::shared_ptr<Facts> f;
  std::map<u64, u64> live;
  std::map<u64, u64> cnt;
  int heapLive = 0;
  bool noCrash = false;
  bool deepCrash = false;
  u64 steps = 0;
  u64 nsym = 0;
};
struct Item { Frame fr; State s; };
struct Exit { Val v; State s; };

struct Split { T c; };
struct Err { std::string msg; };
struct Unsup { std::string msg; };
struct PathEnd {};
struct Budget {};
struct Enough {};

static const u64 BASE = 1u << 20;

struct FnInfo { std::unordered_map<const Value*, int> num; int n = 0; };

struct Finding {
  std::string msg, where, model;
  std::vector<std::string> stack;
  bool confirmed;
};

struct Interp {
  Module& M;
  const DataLayout& DL;
  std::unordered_map<const Function*, FnInfo> fni;
  std::unordered_map<const GlobalObject*, uint32_t> gid;
  std::vector<Finding> findings;
  std::set<std::string> findKeys;
  std::set<const Function*> covered;
  std::set<std::string> sites;
  std::string unknown;
  std::map<std::string, u64> reached;
  u64 paths = 0, crashes = 0, steps = 0, infeasible = 0, splits = 0, dupJoins = 0, obligations = 0;
  u64 pathLimit = 3000000, stepLimit = 400000000;
  u64 maxPaths = 400000;
  unsigned maxFindings = 3;
  bool checkAlign = true;
  bool prof = getenv("AINT_PROF");
  double cpuLimit = 1e9; std::chrono::steady_clock::time_point deadline;
  std::vector<const Instruction*> cs;
  State boot;
  bool trace = getenv("AINT_TRACE") != nullptr;

  Interp(Module& m) : M(m), DL(m.getDataLayout()) { boot.f = std::make_shared<Facts>(); boot.mem.push_back(nullptr); }

  // ---------------------------------------------------------------- helpers
  FnInfo& info(const Function* F) {
    auto& r = fni[F];
    if (!r.n) {
      int n = 1;
      for (auto& a : F->args()) r.num[&a] = n++;
      for (auto& bb : *F) for (auto& i : bb) if (!i.getType()->isVoidTy()) r.num[&i] = n++;
      r.n = n;
    }
    return r;
  }
  Facts& facts(State& s) {
    if (s.f.use_count() > 1) { s.f = std::make_shared<Facts>(*s.f); s.f->memo.clear(); }
    return *s.f;
  }
  Obj& wobj(State& s, uint32_t id) {
    auto& p = s.mem.w(id);
    if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
    return *p;
  }
  int decide(State& s, T c) {
    int d = s.f->decide(c);
    if (d == 0 && isOvf(c)) facts(s).noteExact(c);
    return d;
  }
  static bool isOvf(T c) { return c->k == K::UAddO || c->k == K::SAddO || c->k == K::SSubO || c->k == K::UMulO || c->k == K::SMulO; }
  bool test(State& s, T c) {
    if (c->isC()) return c->c;
    int d = decide(s, c);
    if (d >= 0) return d;
    throw Split{atomOf(s, c)};
  }
  // one condition for the equality of two byte strings, so that a search partitions per candidate and not per byte
  T sameBytes(State& s, T a, T b, u64 n, const char* what) {
    T r = P.C(1, 1);
    for (u64 i = 0; i < n; ++i) {
      T e = P.eq(byteAt(s, P.add(a, P.C(i, 64)), what), byteAt(s, P.add(b, P.C(i, 64)), what));
      int d = decide(s, e);
      if (d == 0) return P.C(0, 1);
      if (d < 0) r = P.land(r, e);
    }
    return r;
  }
  // refine by a component when the condition relates booleans
  T atomOf(State& s, T c) {
    for (;;) {
      if (c->k == K::Not) { c = c->a[0]; continue; }
      if ((c->k == K::Eq || c->k == K::Xor) && c->a[0]->w == 1) {
        if (!c->a[0]->isC() && decide(s, c->a[0]) < 0) { c = c->a[0]; continue; }
        if (!c->a[1]->isC() && decide(s, c->a[1]) < 0) { c = c->a[1]; continue; }
      }
      return c;
    }
  }
  u64 needConst(State& s, T t, u64 maxSpread = 300) {
    u64 v;
    if (s.f->constOf(t, v)) return v;
    Rg r = s.f->range(t);
    if (r.hi - r.lo > maxSpread) {
      // maybe an equality pins it
      throw Unsup{"value not bounded enough to enumerate: " + show(t) + " in [" + std::to_string(r.lo) + "," + std::to_string(r.hi) + "]"};
    }
    T e = P.eq(t, P.C(r.lo, t->w));
    int d = decide(s, e);
    if (d == 1) return r.lo;
    if (d == 0) { // tighten
      facts(s).setRange(t, r.lo + 1, r.hi);
      if (s.f->dead) throw PathEnd{};
      return needConst(s, t, maxSpread);
    }
    throw Split{e};
  }
  T undef(unsigned w) { return P.fresh(w, "undef", true); }
  uint32_t newObj(State& s, OK k, u64 size, u64 align, std::string name) {
    auto o = std::make_shared<Obj>();
    o->kind = k; o->size = size; o->align = align ? align : 1; o->b.resize(size); o->name = std::move(name);
    s.mem.push_back(o);
    return (uint32_t)s.mem.size() - 1;
  }
  u64 addrOf(uint32_t id, u64 align) { return ((u64)id << 32) + BASE + align; }
  T ptrTo(State& s, uint32_t id) { return P.C(addrOf(id, s.mem[id]->align), 64); }

  uint32_t globalId(State& s, const GlobalObject* g) {
    auto it = gid.find(g);
    if (it == gid.end()) throw Unsup{"global not registered: " + g->getName().str()};
    return it->second;
  }
  void registerGlobals() {
    for (auto& F : M) { gid[&F] = newObj(boot, OK::Func, 1, 16, F.getName().str()); boot.mem[boot.mem.size() - 1]->g = &F; }
    for (auto& G : M.globals()) {
      u64 sz = G.getValueType()->isSized() ? DL.getTypeAllocSize(G.getValueType()).getFixedValue() : 0;
      u64 al = G.getAlign() ? G.getAlign()->value() : DL.getABITypeAlign(G.getValueType()).value();
      gid[&G] = newObj(boot, OK::Global, sz, al, G.getName().str());
      boot.mem[boot.mem.size() - 1]->g = &G;
      boot.mem[boot.mem.size() - 1]->constant = G.isConstant();
    }
    for (auto& G : M.globals()) {
      if (!G.hasInitializer()) { boot.mem[gid[&G]]->name = "extern:" + G.getName().str(); continue; }
      Obj& o = wobj(boot, gid[&G]);
      initConst(o, 0, G.getInitializer());
    }
  }
  void initConst(Obj& o, u64 off, const Constant* c) {
    Type* ty = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) {
      u64 n = DL.getTypeAllocSize(ty).getFixedValue();
      T z = P.C(0, 8);
      for (u64 i = 0; i < n && off + i < o.b.size(); ++i) o.b[off + i] = {z, 0};
      return;
    }
    if (isa<UndefValue>(c)) return;
    if (auto* d = dyn_cast<ConstantDataSequential>(c)) {
      u64 es = d->getElementByteSize();
      for (unsigned i = 0; i < d->getNumElements(); ++i) initConst(o, off + i * es, d->getElementAsConstant(i));
      return;
    }
    if (auto* a = dyn_cast<ConstantArray>(c)) {
      u64 es = DL.getTypeAllocSize(a->getType()->getElementType()).getFixedValue();
      for (unsigned i = 0; i < a->getNumOperands(); ++i) initConst(o, off + i * es, a->getOperand(i));
      return;
    }
    if (auto* a = dyn_cast<ConstantStruct>(c)) {
      auto* sl = DL.getStructLayout(a->getType());
      for (unsigned i = 0; i < a->getNumOperands(); ++i) initConst(o, off + sl->getElementOffset(i), a->getOperand(i));
      return;
    }
    Val v = constVal(boot, c);
    storeCells(o, off, v, ty);
  }
  void storeCells(Obj& o, u64 off, const Val& v, Type* ty) {
    if (v.agg) {
      if (auto* st = dyn_cast<StructType>(ty)) {
        auto* sl = DL.getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i) storeCells(o, off + sl->getElementOffset(i), (*v.agg)[i], st->getElementType(i));
      } else {
        auto* at = cast<ArrayType>(ty);
        u64 es = DL.getTypeAllocSize(at->getElementType()).getFixedValue();
        for (unsigned i = 0; i < at->getNumElements(); ++i) storeCells(o, off + i * es, (*v.agg)[i], at->getElementType());
      }
      return;
    }
    u64 n = DL.getTypeStoreSize(ty).getFixedValue();
    T t = v.t;
    if (t->w < n * 8) t = P.zext(t, n * 8);
    for (u64 i = 0; i < n; ++i) o.b[off + i] = {t, (uint8_t)i};
  }
  static T cellT(const Cell& c) { return c.t->w == 8 ? c.t : P.slice(c.t, c.idx * 8, 8); }
  T loadBytes(const Obj& o, u64 off, u64 n) {
    // fast path: a whole stored term
    const Cell& c0 = o.b[off];
    if (c0.t && c0.idx == 0 && c0.t->w == n * 8) {
      bool ok = true;
      for (u64 i = 1; i < n; ++i) if (o.b[off + i].t != c0.t || o.b[off + i].idx != i) { ok = false; break; }
      if (ok) return c0.t;
    }
    std::vector<T> parts;
    for (u64 i = 0; i < n; ++i) {
      const Cell& c = o.b[off + i];
      parts.push_back(c.t ? cellT(c) : undef(8));
    }
    return P.concatBits(parts);
  }

  Val constVal(State& s, const Constant* c) {
    Type* ty = c->getType();
    if (auto* i = dyn_cast<ConstantInt>(c)) {
      if (i->getBitWidth() > 64) throw Unsup{"integer wider than 64 bits"};
      return {P.C(i->getZExtValue(), i->getBitWidth()), nullptr};
    }
    if (auto* f = dyn_cast<ConstantFP>(c)) {
      auto b = f->getValueAPF().bitcastToAPInt();
      if (b.getBitWidth() > 64) throw Unsup{"long double"};
      return {P.C(b.getZExtValue(), b.getBitWidth()), nullptr};
    }
    if (isa<ConstantPointerNull>(c)) return {P.C(0, 64), nullptr};
    if (auto* g = dyn_cast<GlobalObject>(c)) { uint32_t id = globalId(s, g); return {P.C(addrOf(id, boot.mem[id]->align), 64), nullptr}; }
    if (auto* a = dyn_cast<GlobalAlias>(c)) return constVal(s, a->getAliasee());
    if (ty->isAggregateType()) {
      auto v = std::make_shared<std::vector<Val>>();
      unsigned n = ty->isStructTy() ? ty->getStructNumElements() : ty->getArrayNumElements();
      for (unsigned i = 0; i < n; ++i) v->push_back(constVal(s, c->getAggregateElement(i)));
      return {nullptr, v};
    }
    if (isa<UndefValue>(c)) return {undef(bits(ty)), nullptr};
    if (auto* e = dyn_cast<ConstantExpr>(c)) {
      if (auto* gep = dyn_cast<GEPOperator>(e)) {
        T base = constVal(s, cast<Constant>(gep->getPointerOperand())).t;
        APInt off(64, 0);
        if (!gep->accumulateConstantOffset(DL, off)) throw Unsup{"const gep"};
        return {P.add(base, P.C(off.getZExtValue(), 64)), nullptr};
      }
      auto op = [&](unsigned i) { return constVal(s, e->getOperand(i)).t; };
      switch (e->getOpcode()) {
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
          T t = op(0); unsigned w = bits(ty);
          return {t->w == w ? t : t->w > w ? P.slice(t, 0, w) : P.zext(t, w), nullptr};
        }
        case Instruction::Trunc: return {P.slice(op(0), 0, bits(ty)), nullptr};
        case Instruction::Add: return {P.add(op(0), op(1)), nullptr};
        case Instruction::Sub: return {P.sub(op(0), op(1)), nullptr};
        case Instruction::ICmp: {
          T a = op(0), b = op(1);
          return {icmp((CmpInst::Predicate)cast<ConstantExpr>(c)->getPredicate(), a, b), nullptr};
        }
        default: break;
      }
    }
    std::string str; raw_string_ostream os(str); c->print(os);
    throw Unsup{"constant: " + str.substr(0, 200)};
  }
  unsigned bits(Type* ty) {
    if (ty->isPointerTy()) return 64;
    if (ty->isIntegerTy()) {
      if (ty->getIntegerBitWidth() > 64) throw Unsup{"integer wider than 64 bits"};
      return ty->getIntegerBitWidth();
    }
    if (ty->isDoubleTy()) return 64;
    if (ty->isFloatTy()) return 32;
    std::string str; raw_string_ostream os(str); ty->print(os);
    throw Unsup{"type " + str};
  }
  Val get(Frame& fr, State& s, const Value* v) {
    if (auto* c = dyn_cast<Constant>(v)) return constVal(s, c);
    return fr.regs[fni[fr.F].num[v]];
  }
  T getT(Frame& fr, State& s, const Value* v) { return get(fr, s, v).t; }
  void set(Frame& fr, const Value* v, Val x) { fr.regs[fni[fr.F].num[v]] = std::move(x); }
  void setT(Frame& fr, const Value* v, T t) { set(fr, v, {t, nullptr}); }

  T icmp(CmpInst::Predicate p, T a, T b) {
    switch (p) {
      case CmpInst::ICMP_EQ: return P.eq(a, b);
      case CmpInst::ICMP_NE: return P.lnot(P.eq(a, b));
      case CmpInst::ICMP_ULT: return P.ult(a, b);
      case CmpInst::ICMP_UGE: return P.lnot(P.ult(a, b));
      case CmpInst::ICMP_UGT: return P.ult(b, a);
      case CmpInst::ICMP_ULE: return P.lnot(P.ult(b, a));
      case CmpInst::ICMP_SLT: return P.slt(a, b);
      case CmpInst::ICMP_SGE: return P.lnot(P.slt(a, b));
      case CmpInst::ICMP_SGT: return P.slt(b, a);
      case CmpInst::ICMP_SLE: return P.lnot(P.slt(b, a));
      default: throw Unsup{"icmp"};
    }
  }

  // ---------------------------------------------------------------- memory
  struct Loc { uint32_t id; T off; u64 coff; bool conc; };
  uint32_t objId(State& s, T& p) {
    u64 base = 0; bool have = false;
    if (p->isC()) { base = p->c; have = true; }
    else if (p->k == K::Lin && (p->c >> 32) != 0) {
      base = p->c; have = true;
      uint32_t id = (uint32_t)(base >> 32);
      if (id >= s.mem.size()) have = false;
    }
    if (!have) {
      u64 v;
      if (s.f->constOf(p, v)) { p = P.C(v, 64); base = v; }
      else { v = needConst(s, p); p = P.C(v, 64); base = v; }
    }
    return (uint32_t)(base >> 32);
  }
  // resolve an access of n bytes; throws Err on definite violation, Split when undecided
  Loc access(State& s, T p, u64 n, bool write, u64 align, const char* what) {
    if (p->anyUndef) throw Err{std::string(what) + " through an uninitialised pointer"};
    ++obligations;
    uint32_t id = objId(s, p);
    if (id == 0 || id >= s.mem.size()) throw Err{std::string(what) + " through a null or invalid pointer (" + show(p) + ")"};
    auto& o = s.mem[id];
    if (!o) throw Err{std::string(what) + " of a local whose lifetime ended"};
    if (o->kind == OK::Func) throw Err{std::string(what) + " of a function address"};
    if (o->freed) throw Err{std::string(what) + " of freed memory (" + o->name + ")"};
    if (write && o->constant) throw Err{std::string("write to constant ") + o->name};
    if (o->name.compare(0, 7, "extern:") == 0) throw Unsup{"access to external global " + o->name};
    T off = P.sub(p, P.C(addrOf(id, o->align), 64));
    u64 c;
    if (s.f->constOf(off, c)) {
      if (!o->symSize) {
        if (c > o->size || n > o->size - c)
          throw Err{std::string("out-of-bounds ") + what + " of " + std::to_string(n) + " bytes at offset " + std::to_string((i64)c) + " in " + o->name + " (size " + std::to_string(o->size) + ")"};
        if (checkAlign && align > 1 && ((addrOf(id, o->align) + c) & (align - 1)))
          throw Err{std::string("misaligned ") + what + " (requires " + std::to_string(align) + ") in " + o->name};
        return {id, off, c, true};
      }
      off = P.C(c, 64);
    }
    if (!o->symSize) {
      // concrete object, symbolic offset: bounds, then enumerate
      T in = n > o->size ? P.fls() : P.lnot(P.ult(P.C(o->size - n, 64), off));
      if (!test(s, in))
        throw Err{std::string("out-of-bounds ") + what + " of " + std::to_string(n) + " bytes in " + o->name + " (size " + std::to_string(o->size) + ", offset " + show(off) + ")"};
      u64 v = needConst(s, off, 5000);
      return {id, off, v, true};
    }
    // opaque object
    T in = P.land(P.lnot(P.ult(o->symSize, P.C(n, 64))), P.lnot(P.ult(P.sub(o->symSize, P.C(n, 64)), off)));
    if (!test(s, P.lnot(P.ult(o->symSize, P.C(n, 64)))) || !test(s, P.lnot(P.ult(P.sub(o->symSize, P.C(n, 64)), off))))
      throw Err{std::string("out-of-bounds ") + what + " of " + std::to_string(n) + " bytes in " + o->name + " (offset " + show(off) + ", size " + show(o->symSize) + ")"};
    (void)in;
    return {id, off, 0, false};
  }
  T opaqueByteless(Obj& o, T off, unsigned n, State& s) {
    auto k = std::make_pair(off, n);
    auto it = o.memo.find(k);
    if (it != o.memo.end()) return it->second;
    T v = P.sym(n * 8, o.name + "[" + std::to_string(s.nsym++) + "@" + show(off) + "+" + std::to_string(n) + "]");
    o.memo[k] = v;
    return v;
  }
  // A byte read from a constant table at an unknown index, where the table is made of a few runs of consecutive
  // (or equal) bytes: partition on the run, in which the value is the index plus a constant (or a constant).
  T tableRead(State& s, T p) {
    if (p->isC() || p->anyUndef) return nullptr;
    uint32_t id = objId(s, p);
    if (id == 0 || id >= s.mem.size() || !s.mem[id]) return nullptr;
    auto& o = s.mem[id];
    if (!o->constant || o->symSize || o->freed || o->kind == OK::Func || o->name.compare(0, 7, "extern:") == 0) return nullptr;
    T off = P.sub(p, P.C(addrOf(id, o->align), 64));
    u64 c; if (s.f->constOf(off, c)) return nullptr;
    Rg r = s.f->range(off);
    if (r.empty() || r.hi >= o->size || r.hi - r.lo > 255 || r.hi == r.lo) return nullptr;
    std::vector<u64> v;
    for (u64 i = r.lo; i <= r.hi; ++i) { T b = loadBytes(*o, i, 1); if (!b || !b->isC()) return nullptr; v.push_back(b->c); }
    struct Run { u64 first, last; int d; };  // indices into v
    std::vector<Run> runs;
    for (u64 i = 0; i < v.size();) {
      u64 j = i; int d = 1;
      if (i + 1 < v.size()) { if (v[i + 1] == v[i]) d = 0; while (j + 1 < v.size() && v[j + 1] == ((v[j] + d) & 255)) ++j; }
      runs.push_back({i, j, d}); i = j + 1;
    }
    if (runs.size() > 4) return nullptr;
    ++obligations;
    for (u64 k = 0; k < runs.size(); ++k) {
      auto& u = runs[k];
      if (k + 1 < runs.size() && !test(s, P.ult(off, P.C(r.lo + u.last + 1, 64)))) continue;
      if (u.d == 0 || u.first == u.last) return P.C(v[u.first], 8);
      return P.add(P.slice(off, 0, 8), P.C((v[u.first] - (r.lo + u.first)) & 255, 8));
    }
    return nullptr;
  }
  Val load(State& s, T p, Type* ty, u64 align) {
    if (ty->isAggregateType()) {
      auto v = std::make_shared<std::vector<Val>>();
      if (auto* st = dyn_cast<StructType>(ty)) {
        auto* sl = DL.getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i) v->push_back(load(s, P.add(p, P.C(sl->getElementOffset(i), 64)), st->getElementType(i), 1));
      } else {
        auto* at = cast<ArrayType>(ty);
        u64 es = DL.getTypeAllocSize(at->getElementType()).getFixedValue();
        for (unsigned i = 0; i < at->getNumElements(); ++i) v->push_back(load(s, P.add(p, P.C(i * es, 64)), at->getElementType(), 1));
      }
      return {nullptr, v};
    }
    unsigned w = bits(ty);
    u64 n = DL.getTypeStoreSize(ty).getFixedValue();
    if (n == 1 && w == 8) if (T t = tableRead(s, p)) return {t, nullptr};
    Loc l = access(s, p, n, false, align, "read");
    T t;
    if (l.conc) t = loadBytes(*s.mem[l.id], l.coff, n);
    else t = opaqueByteless(wobj(s, l.id), l.off, n, s);
    if (t->w > w) t = P.slice(t, 0, w);
    return {t, nullptr};
  }
  void store(State& s, T p, const Val& v, Type* ty, u64 align) {
    u64 n = DL.getTypeStoreSize(ty).getFixedValue();
    if (n == 0) return;
    Loc l = access(s, p, n, true, align, "write");
    Obj& o = wobj(s, l.id);
    if (l.conc) { storeCells(o, l.coff, v, ty); return; }
    if (v.agg) throw Unsup{"aggregate store to opaque object"};
    T t = v.t; if (t->w < n * 8) t = P.zext(t, n * 8);
    o.memo.clear();
    o.memo[{l.off, (unsigned)n}] = t;
  }
  void copyBytes(State& s, T d, T sp, T n, bool move) {
    u64 cn;
    if (!s.f->constOf(n, cn)) {
      // copying inside opaque objects of symbolic length: check bounds and havoc
      T pd = d, ps = sp;
      if (pd->k == K::Lin || pd->isC()) {
        uint32_t id = (uint32_t)((pd->isC() ? pd->c : pd->c) >> 32), is = (uint32_t)((ps->isC() ? ps->c : ps->k == K::Lin ? ps->c : 0) >> 32);
        if (id && id < s.mem.size() && s.mem[id] && s.mem[id]->symSize && is && is < s.mem.size() && s.mem[is] && s.mem[is]->symSize) {
          if (test(s, P.eq(n, P.C(0, 64)))) return;
          for (int k = 0; k < 2; ++k) {
            uint32_t i = k ? is : id; T q = k ? ps : pd; auto& o = s.mem[i];
            if (o->freed) throw Err{"memcpy touches freed memory"};
            T off = P.sub(q, P.C(addrOf(i, o->align), 64));
            ++obligations;
            if (!test(s, P.lnot(P.ult(o->symSize, off))) || !test(s, P.lnot(P.ult(P.sub(o->symSize, off), n))))
              throw Err{"memcpy out of bounds of " + o->name + " (offset " + show(off) + ", length " + show(n) + ", size " + show(o->symSize) + ")"};
          }
          wobj(s, id).memo.clear();
          return;
        }
      }
      cn = needConst(s, n, 300);
    }
    if (cn == 0) return;
    Loc ls = access(s, sp, cn, false, 1, "read (memcpy source)");
    Loc ld = access(s, d, cn, true, 1, "write (memcpy destination)");
    std::vector<Cell> tmp;
    if (ls.conc) {
      auto& o = s.mem[ls.id];
      tmp.assign(o->b.begin() + ls.coff, o->b.begin() + ls.coff + cn);
    } else {
      if (cn > 64) throw Unsup{"large copy from an opaque object"};
      if (cn == 8 || cn == 4 || cn == 2) {
        T t = opaqueByteless(wobj(s, ls.id), ls.off, cn, s);
        for (u64 i = 0; i < cn; ++i) tmp.push_back({t, (uint8_t)i});
      } else
        for (u64 i = 0; i < cn; ++i) tmp.push_back({opaqueByteless(wobj(s, ls.id), P.add(ls.off, P.C(i, 64)), 1, s), 0});
    }
    if (!move && ls.conc && ld.conc && ls.id == ld.id && ls.coff != ld.coff) {
      u64 a = ls.coff, b = ld.coff;
      if (a < b + cn && b < a + cn) throw Err{"memcpy on overlapping ranges"};
    }
    Obj& o = wobj(s, ld.id);
    if (ld.conc) std::copy(tmp.begin(), tmp.end(), o.b.begin() + ld.coff);
    else { o.memo.clear(); }
  }
  void setBytes(State& s, T d, T v, T n) {
    u64 cn = needConst(s, n, 300);
    if (!cn) return;
    Loc l = access(s, d, cn, true, 1, "write (memset)");
    Obj& o = wobj(s, l.id);
    if (!l.conc) { o.memo.clear(); return; }
    T b = P.slice(v, 0, 8);
    for (u64 i = 0; i < cn; ++i) o.b[l.coff + i] = {b, 0};
  }
  T allocHeap(State& s, T n, u64 align, int kind, const char* nm) {
    u64 c;
    uint32_t id;
    if (s.f->constOf(n, c)) {
      if (c > (1u << 22)) throw Unsup{"huge allocation"};
      id = newObj(s, OK::Heap, c, align, std::string(nm) + "#" + std::to_string(s.mem.size()));
    } else {
      Rg r = s.f->range(n);
      if (r.hi - r.lo <= 300) { c = needConst(s, n, 300); id = newObj(s, OK::Heap, c, align, std::string(nm) + "#" + std::to_string(s.mem.size())); }
      else {
        id = newObj(s, OK::Heap, 0, align, std::string(nm) + "#" + std::to_string(s.mem.size()));
        s.mem[id]->symSize = n;
      }
    }
    s.mem[id]->allocKind = kind;
    s.heapLive++;
    return ptrTo(s, id);
  }
  void freeHeap(State& s, T p, int kind, T size = nullptr, u64 align = 0) {
    u64 c = needConst(s, p);
    if (!c) return;
    ++obligations;
    uint32_t id = (uint32_t)(c >> 32);
    if (!id || id >= s.mem.size() || !s.mem[id] || s.mem[id]->kind != OK::Heap) throw Err{"free of a pointer that is not a heap allocation"};
    auto& o = s.mem[id];
    if (o->freed) throw Err{"double free of " + o->name};
    if (c != addrOf(id, o->align)) throw Err{"free of an interior pointer into " + o->name};
    if (o->allocKind != kind) throw Err{"allocation of " + o->name + " released with a mismatched deallocator"};
    if (size && !o->symSize) { if (test(s, P.lnot(P.eq(size, P.C(o->size, 64))))) throw Err{"sized deallocation of " + o->name + " with the wrong size"}; }
    (void)align;
    Obj& w = wobj(s, id);
    w.freed = true; w.b.clear(); w.memo.clear();
    s.heapLive--;
  }
  T byteAt(State& s, T p, const char* what) {
    Loc l = access(s, p, 1, false, 1, what);
    if (l.conc) { const Cell& c = s.mem[l.id]->b[l.coff]; return c.t ? cellT(c) : undef(8); }
    return opaqueByteless(wobj(s, l.id), l.off, 1, s);
  }
  std::string cstr(State& s, T p) {
    std::string r;
    for (u64 i = 0; i < 400; ++i) {
      T b = byteAt(s, P.add(p, P.C(i, 64)), "read (C string)");
      if (!b->isC()) return r + "?";
      if (!b->c) return r;
      r.push_back((char)b->c);
    }
    return r;
  }

  // ---------------------------------------------------------------- reports
  std::string locOf(const Instruction* i) {
    std::string r;
    if (auto& dl = i->getDebugLoc()) {
      auto* sc = cast<DIScope>(dl.getScope());
      std::string f = sc->getFilename().str();
      r = f + ":" + std::to_string(dl.getLine());
    } else if (auto* sp = i->getFunction()->getSubprogram()) r = sp->getFilename().str() + ":" + std::to_string(sp->getLine());
    return r;
  }
  static std::string shortName(const Function* F) {
    std::string n = demangle(F->getName().str());
    if (n.size() > 160) n = n.substr(0, 157) + "...";
    return n;
  }
  int refutations = 0;
  void report(State& s, const std::string& msg) {
    // is the abstract state's concretisation empty?
    if (s.f->fmInfeasible(nullptr, true)) { ++infeasible; return; }
    std::string where;
    std::vector<std::string> st;
    for (size_t i = cs.size(); i-- > 0;) {
      std::string l = locOf(cs[i]);
      st.push_back(l + " in " + shortName(cs[i]->getFunction()));
      if (where.empty() && (l.find("best/") == 0 || l.find("/best/") != std::string::npos) && l.find("witness") == std::string::npos) where = l + " in " + shortName(cs[i]->getFunction());
    }
    if (where.empty()) where = st.empty() ? "?" : st[0];
    std::string key = msg + "@" + where;
    if (findKeys.count(key)) return;
    Env e;
    bool ok = s.f->model(e);
    std::string mdl;
    if (ok) {
      std::vector<std::pair<std::string, u64>> l;
      for (auto& [t, v] : e.v) if (t->name.find("undef") != 0) l.push_back({t->name, v});
      std::sort(l.begin(), l.end());
      for (auto& [n, v] : l) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)v); mdl += (mdl.empty() ? "" : ", ") + n + "=" + b; }
      findKeys.insert(key);
      // drop an unconfirmed twin
      for (size_t i = 0; i < findings.size(); ++i) if (!findings[i].confirmed && findings[i].msg == msg && findings[i].where == where) { findings.erase(findings.begin() + i); break; }
    } else {
      int nodes = refutations++ < 40 ? 4000 : 0;
      searchUntil = std::min(cpuNow() + 20, cpuLimit);
      bool none = nodes && s.f->empty(nodes);
      searchUntil = 1e18;
      if (none) { ++infeasible; --refutations; return; }
      for (auto& f : findings) if (f.msg == msg && f.where == where) return;
      if (trace) { for (T c : s.f->cons) fprintf(stderr, "  cons %s\n", show(c).c_str()); }
    }
    findings.push_back({msg, where, mdl, st, ok});
    unsigned nc = 0; for (auto& f : findings) nc += f.confirmed;
    if (nc >= maxFindings) throw Enough{};
  }

  // ---------------------------------------------------------------- calls
  bool isCrash(const Function* F, const CallBase* cb) {
    return (F && F->doesNotReturn()) || cb->doesNotReturn();
  }
  // returns true when handled natively
  bool native(Frame& fr, State& s, const CallBase* cb, const Function* F) {
    StringRef n = F->getName();
    auto arg = [&](unsigned i) { return getT(fr, s, cb->getArgOperand(i)); };
    auto ret = [&](T t) { setT(fr, cb, t); };
    auto z64 = [&](u64 v) { return P.C(v, 64); };
    if (n.starts_with("vp_")) {
      if (n == "vp_violation") { throw Err{cstr(s, arg(0))}; }
      if (n == "vp_reach") { reached[cstr(s, arg(0))]++; return true; }
      if (n == "vp_u8" || n == "vp_u16" || n == "vp_u32" || n == "vp_u64") {
        unsigned w = n == "vp_u8" ? 8 : n == "vp_u16" ? 16 : n == "vp_u32" ? 32 : 64;
        std::string nm = cstr(s, arg(0)) + "." + std::to_string(s.nsym++);
        ret(P.sym(w, nm)); return true;
      }
      if (n == "vp_bytes") {  // fill [p, p+n) with fresh bytes
        T p = arg(0); u64 k = needConst(s, arg(1)); std::string nm = cstr(s, arg(2));
        Loc l = access(s, p, k, true, 1, "write");
        Obj& o = wobj(s, l.id);
        u64 base = s.nsym++;
        for (u64 i = 0; i < k; ++i) o.b[l.coff + i] = {P.sym(8, nm + "." + std::to_string(base) + "[" + std::to_string(i) + "]"), 0};
        return true;
      }
      if (n == "vp_assume") { facts(s).assume(P.slice(arg(0), 0, 1), true); if (s.f->dead) throw PathEnd{}; return true; }
      if (n == "vp_pick") {  // partition on a value in [lo, hi]
        u64 lo = needConst(s, arg(0)), hi = needConst(s, arg(1));
        T v = P.sym(64, "pick." + std::to_string(s.nsym));
        Facts& f = facts(s);
        f.setRange(v, lo, hi);
        if (f.dead) throw PathEnd{};
        u64 c = needConst(s, v, 100000);
        s.nsym++;
        ret(z64(c)); return true;
      }
      if (n == "vp_split") {  // partition on a boolean
        ret(P.C(test(s, P.slice(arg(0), 0, 1)), cb->getType()->getIntegerBitWidth())); return true;
      }
      if (n == "vp_array") {  // opaque object of symbolic byte size
        T sz = arg(0); u64 al = needConst(s, arg(1));
        uint32_t id = newObj(s, OK::Stack, 0, al, cstr(s, arg(2)));
        s.mem[id]->symSize = sz;
        ret(ptrTo(s, id)); return true;
      }
      if (n == "vp_no_crash") { s.noCrash = test(s, P.slice(arg(0), 0, 1)); return true; }
      if (n == "vp_deep_crash") { s.deepCrash = test(s, P.slice(arg(0), 0, 1)); return true; }
      if (n == "vp_heap_live") { ret(z64(s.heapLive)); return true; }
      if (n == "vp_live_add") {
        u64 a = needConst(s, arg(0)); ++obligations;
        if (s.live.count(a)) throw Err{"object constructed over a live object"};
        s.live[a] = 1; return true;
      }
      if (n == "vp_live_del") {
        u64 a = needConst(s, arg(0)); ++obligations;
        if (!s.live.count(a)) throw Err{"destructor run on storage that holds no live object (double destroy or never constructed)"};
        s.live.erase(a); return true;
      }
      if (n == "vp_live_check") {
        u64 a = needConst(s, arg(0)); ++obligations;
        if (!s.live.count(a)) throw Err{"use of storage that holds no live object"};
        return true;
      }
      if (n == "vp_live_count") { ret(z64(s.live.size())); return true; }
      if (n == "vp_is_live") { u64 a = needConst(s, arg(0)); ret(P.C(s.live.count(a), cb->getType()->getIntegerBitWidth())); return true; }
      if (n == "vp_count") { u64 k = needConst(s, arg(0)); ret(z64(s.cnt[k])); return true; }
      if (n == "vp_bump") { u64 k = needConst(s, arg(0)); s.cnt[k]++; return true; }
      if (n == "vp_same") { u64 k = needConst(s, arg(2)); ret(sameBytes(s, arg(0), arg(1), k, "read")); return true; }
      if (n == "vp_show") { fprintf(stderr, "show: %s\n", show(arg(0)).c_str()); return true; }
      throw Unsup{"unknown vp intrinsic " + n.str()};
    }
    if (n == "malloc" || n == "_Znwm" || n == "_Znam" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t") { ret(allocHeap(s, arg(0), 16, n == "malloc" ? 1 : n.starts_with("_Zna") ? 3 : 2, n.data())); return true; }
    if (n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t") { ret(allocHeap(s, arg(0), needConst(s, arg(1)), n[3] == 'a' ? 3 : 2, "new")); return true; }
    if (n == "aligned_alloc") {
      u64 al = needConst(s, arg(0)); ++obligations;
      if (al == 0 || (al & (al - 1))) throw Err{"aligned_alloc with a non-power-of-two alignment"};
      ret(allocHeap(s, arg(1), al, 1, "aligned_alloc")); return true;
    }
    if (n == "posix_memalign") {
      T p = allocHeap(s, arg(2), needConst(s, arg(1)), 1, "posix_memalign");
      store(s, arg(0), {p, nullptr}, PointerType::get(M.getContext(), 0), 8);
      ret(P.C(0, 32)); return true;
    }
    if (n == "calloc") {
      T a = arg(0), b = arg(1);
      if (test(s, P.mk(K::UMulO, 1, a, b))) { ret(z64(0)); return true; }
      T sz = P.mul(a, b);
      T p = allocHeap(s, sz, 16, 1, "calloc");
      Obj& o = *s.mem[p->c >> 32];
      for (auto& c : o.b) c = {P.C(0, 8), 0};
      ret(p); return true;
    }
    if (n == "realloc") {
      T op = arg(0), sz = arg(1);
      u64 c = needConst(s, op);
      if (!c) { ret(allocHeap(s, sz, 16, 1, "realloc")); return true; }
      uint32_t id = (uint32_t)(c >> 32);
      if (!id || id >= s.mem.size() || !s.mem[id] || s.mem[id]->kind != OK::Heap) throw Err{"realloc of a pointer that is not a heap allocation"};
      if (s.mem[id]->freed) throw Err{"realloc of freed memory"};
      if (c != addrOf(id, s.mem[id]->align)) throw Err{"realloc of an interior pointer"};
      if (s.mem[id]->allocKind != 1) throw Err{"realloc of memory not from malloc"};
      u64 ns = needConst(s, sz, 300);
      T np = allocHeap(s, P.C(ns, 64), 16, 1, "realloc");
      Obj& o = *s.mem[np->c >> 32];
      auto& old = s.mem[id];
      for (u64 i = 0; i < std::min<u64>(ns, old->size); ++i) o.b[i] = old->b[i];
      Obj& w = wobj(s, id); w.freed = true; w.b.clear(); s.heapLive--;
      ret(np); return true;
    }
    if (n == "free") { freeHeap(s, arg(0), 1); return true; }
    if (n.starts_with("_ZdlPv") || n.starts_with("_ZdaPv")) {
      T size = nullptr;
      if (n.starts_with("_ZdlPvm") || n.starts_with("_ZdaPvm")) size = arg(1);
      freeHeap(s, arg(0), n[3] == 'a' ? 3 : 2, size); return true;
    }
    if (n == "memcpy" || n == "memmove") { copyBytes(s, arg(0), arg(1), arg(2), n == "memmove"); ret(arg(0)); return true; }
    if (n == "memset") { setBytes(s, arg(0), arg(1), arg(2)); ret(arg(0)); return true; }
    if (n == "memcmp" || n == "bcmp" || n == "strncmp" || n == "strcmp") {
      T a = arg(0), b = arg(1);
      bool str = n[0] == 's';
      u64 k = n == "strcmp" ? 1000000 : needConst(s, arg(2));
      u64 r = 0;
      // all bytes must be readable for memcmp
      if (!str && k) { access(s, a, k, false, 1, "read (memcmp)"); access(s, b, k, false, 1, "read (memcmp)"); }
      bool onlyEq = !str && !cb->getType()->isVoidTy();
      for (auto* u : cb->users()) { auto* ic = dyn_cast<ICmpInst>(u); if (!ic || !ic->isEquality()) { onlyEq = false; break; } auto* z = dyn_cast<ConstantInt>(ic->getOperand(ic->getOperand(0) == cb)); if (!z || !z->isZero()) onlyEq = false; }
      if (onlyEq || n == "bcmp") {
        for (u64 i = 0; i < k; ++i) {
          T x = byteAt(s, P.add(a, z64(i)), "read (memcmp)"), y = byteAt(s, P.add(b, z64(i)), "read (memcmp)");
          if ((x->anyUndef || y->anyUndef) && x != y) throw Err{"comparison of uninitialised memory"};
          if (decide(s, P.eq(x, y)) == 0) break;
        }
        ret(P.C(!test(s, sameBytes(s, a, b, k, "read (memcmp)")), 32)); return true;
      }
      for (u64 i = 0; i < k; ++i) {
        T x = byteAt(s, P.add(a, z64(i)), "read (memcmp)"), y = byteAt(s, P.add(b, z64(i)), "read (memcmp)");
        if ((x->anyUndef || y->anyUndef) && x != y) throw Err{"comparison of uninitialised memory"};
        if (test(s, P.eq(x, y))) { if (str && test(s, P.eq(x, P.C(0, 8)))) break; continue; }
        r = test(s, P.ult(x, y)) ? 0xffffffffu : 1; break;
      }
      ret(P.C(r, 32)); return true;
    }
    if (n == "memchr") {
      T a = arg(0), c = P.slice(arg(1), 0, 8); u64 k = needConst(s, arg(2)); T r = z64(0);
      if (k) access(s, a, 1, false, 1, "read (memchr)");
      for (u64 i = 0; i < k; ++i) { T q = P.add(a, z64(i)); if (test(s, P.eq(byteAt(s, q, "read (memchr)"), c))) { r = q; break; } }
      ret(r); return true;
    }
    if (n == "memmem") {
      T a = arg(0), b = arg(2); u64 na = needConst(s, arg(1)), nb = needConst(s, arg(3)); T r = z64(0);
      for (u64 i = 0; i + nb <= na; ++i) {
        if (test(s, sameBytes(s, P.add(a, z64(i)), b, nb, "read (memmem)"))) { r = P.add(a, z64(i)); break; }
      }
      ret(r); return true;
    }
    if (n == "strlen") {
      T a = arg(0); u64 i = 0;
      while (!test(s, P.eq(byteAt(s, P.add(a, z64(i)), "read (strlen)"), P.C(0, 8)))) ++i;
      ret(z64(i)); return true;
    }
    if (n == "__cxa_guard_acquire") { T b = byteAt(s, arg(0), "read"); ret(P.C(test(s, P.eq(b, P.C(0, 8))), 32)); return true; }
    if (n == "__cxa_guard_release") { store(s, arg(0), {P.C(1, 8), nullptr}, Type::getInt8Ty(M.getContext()), 1); return true; }
    if (n == "__cxa_atexit" || n == "atexit") { ret(P.C(0, 32)); return true; }
    if (n == "fprintf" || n == "printf" || n == "fflush" || n == "fputs" || n == "puts" || n == "putchar" || n == "fputc" || n == "vfprintf" || n == "perror") { ret(P.C(0, 32)); return true; }
    if (n == "fwrite") { ret(arg(2)); return true; }
    return false;
  }

  bool intrinsic(Frame& fr, State& s, const IntrinsicInst* ii) {
    auto arg = [&](unsigned i) { return getT(fr, s, ii->getArgOperand(i)); };
    auto ret = [&](T t) { setT(fr, ii, t); };
    auto pair = [&](T a, T b) { if (isOvf(b) && s.f->quick(b) == 0) facts(s).noteExact(b); auto v = std::make_shared<std::vector<Val>>(); v->push_back({a, nullptr}); v->push_back({b, nullptr}); set(fr, ii, {nullptr, v}); };
    switch (ii->getIntrinsicID()) {
      case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
      case Intrinsic::lifetime_start: case Intrinsic::experimental_noalias_scope_decl:
      case Intrinsic::var_annotation: case Intrinsic::donothing: case Intrinsic::prefetch:
        return true;
      case Intrinsic::lifetime_end: {
        return true;
      }
      case Intrinsic::invariant_start: ret(P.C(0, 64)); return true;
      case Intrinsic::invariant_end: return true;
      case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::expect:
      case Intrinsic::ssa_copy: case Intrinsic::threadlocal_address: case Intrinsic::ptr_annotation:
        set(fr, ii, get(fr, s, ii->getArgOperand(0))); return true;
      case Intrinsic::assume: {
        T c = arg(0);
        if (c->isC() && c->c) return true;
        ++obligations;
        if (!test(s, c)) throw Err{"assumption (__builtin_assume / unsafe::assume) does not hold"};
        return true;
      }
      case Intrinsic::memcpy: case Intrinsic::memcpy_inline: copyBytes(s, arg(0), arg(1), arg(2), false); return true;
      case Intrinsic::memmove: copyBytes(s, arg(0), arg(1), arg(2), true); return true;
      case Intrinsic::memset: setBytes(s, arg(0), arg(1), arg(2)); return true;
      case Intrinsic::umin: { T a = arg(0), b = arg(1); ret(test(s, P.ult(a, b)) ? a : b); return true; }
      case Intrinsic::umax: { T a = arg(0), b = arg(1); ret(test(s, P.ult(a, b)) ? b : a); return true; }
      case Intrinsic::smin: { T a = arg(0), b = arg(1); ret(test(s, P.slt(a, b)) ? a : b); return true; }
      case Intrinsic::smax: { T a = arg(0), b = arg(1); ret(test(s, P.slt(a, b)) ? b : a); return true; }
      case Intrinsic::abs: { T a = arg(0); ret(test(s, P.slt(a, P.C(0, a->w))) ? P.sub(P.C(0, a->w), a) : a); return true; }
      case Intrinsic::ctlz: { T a = arg(0); if (arg(1)->c) { if (test(s, P.eq(a, P.C(0, a->w)))) throw Err{"clz of zero"}; } ret(P.mk(K::Ctlz, a->w, a)); return true; }
      case Intrinsic::cttz: { T a = arg(0); if (arg(1)->c) { if (test(s, P.eq(a, P.C(0, a->w)))) throw Err{"ctz of zero"}; } ret(P.mk(K::Cttz, a->w, a)); return true; }
      case Intrinsic::ctpop: { T a = arg(0); ret(P.mk(K::Ctpop, a->w, a)); return true; }
      case Intrinsic::bswap: { T a = arg(0); ret(P.mk(K::Bswap, a->w, a)); return true; }
      case Intrinsic::fshl: case Intrinsic::fshr: {
        T a = arg(0), b = arg(1), c = arg(2); unsigned w = a->w;
        u64 n = needConst(s, P.bitop(K::And, c, P.C(w - 1, w)), 64);
        bool l = ii->getIntrinsicID() == Intrinsic::fshl;
        if (!n) ret(l ? a : b);
        else if (l) ret(P.concatBits({P.slice(b, w - n, n), P.slice(a, 0, w - n)}));
        else ret(P.concatBits({P.slice(b, n, w - n), P.slice(a, 0, n)}));
        return true;
      }
      case Intrinsic::uadd_with_overflow: pair(P.add(arg(0), arg(1)), P.mk(K::UAddO, 1, arg(0), arg(1))); return true;
      case Intrinsic::usub_with_overflow: pair(P.sub(arg(0), arg(1)), P.ult(arg(0), arg(1))); return true;
      case Intrinsic::umul_with_overflow: pair(P.mul(arg(0), arg(1)), P.mk(K::UMulO, 1, arg(0), arg(1))); return true;
      case Intrinsic::sadd_with_overflow: pair(P.add(arg(0), arg(1)), P.mk(K::SAddO, 1, arg(0), arg(1))); return true;
      case Intrinsic::ssub_with_overflow: pair(P.sub(arg(0), arg(1)), P.mk(K::SSubO, 1, arg(0), arg(1))); return true;
      case Intrinsic::smul_with_overflow: pair(P.mul(arg(0), arg(1)), P.mk(K::SMulO, 1, arg(0), arg(1))); return true;
      case Intrinsic::uadd_sat: { T a = arg(0), b = arg(1); ret(test(s, P.mk(K::UAddO, 1, a, b)) ? P.C(maskw(a->w), a->w) : P.add(a, b)); return true; }
      case Intrinsic::usub_sat: { T a = arg(0), b = arg(1); ret(test(s, P.ult(a, b)) ? P.C(0, a->w) : P.sub(a, b)); return true; }
      case Intrinsic::is_constant: ret(P.C(0, 1)); return true;
      case Intrinsic::objectsize: ret(P.C(arg(1)->c ? 0 : ~0ull, bits(ii->getType()))); return true;
      case Intrinsic::trap: case Intrinsic::debugtrap: crash(s, ii, "trap"); return true;
      case Intrinsic::ubsantrap: throw Err{"undefined behaviour trap"};
      case Intrinsic::stacksave: ret(P.C(0, 64)); return true;
      case Intrinsic::stackrestore: return true;
      case Intrinsic::vastart: case Intrinsic::vaend: return true;
      default: break;
    }
    throw Unsup{"intrinsic " + ii->getCalledFunction()->getName().str()};
  }
  void crash(State& s, const Instruction*, const std::string& what) {
    ++crashes;
    if (s.noCrash) throw Err{"reaches a crash (" + what + ") where none is allowed"};
    throw PathEnd{};
  }

  // ---------------------------------------------------------------- execution
  void jump(Frame& fr, State& s, const BasicBlock* to) {
    const BasicBlock* from = fr.bb;
    fr.prev = from; fr.bb = to; fr.it = to->begin();
    std::vector<std::pair<const Value*, Val>> ph;
    while (auto* p = dyn_cast<PHINode>(&*fr.it)) { ph.push_back({p, get(fr, s, p->getIncomingValueForBlock(from))}); ++fr.it; }
    for (auto& [p, v] : ph) set(fr, p, v);
  }
  T divExact(State& s, T a, u64 d, bool sgn) {
    // (sum c_i x_i + c)/d when every coefficient is divisible and no wrap
    if (a->k != K::Lin || d == 0) return nullptr;
    unsigned w = a->w;
    for (auto& [c, x] : a->lin) if (sx(c, w) % (i64)d) return nullptr;
    if (sx(a->c, w) % (i64)d) return nullptr;
    std::vector<std::pair<u64, T>> v;
    for (auto& [c, x] : a->lin) v.push_back({(u64)(sx(c, w) / (i64)d), x});
    T q = P.mkLin(v, (u64)(sx(a->c, w) / (i64)d), w);
    // value of q must stay in range so that d*q does not wrap
    u64 lim = (sgn ? (maskw(w) >> 1) : maskw(w)) / d;
    if (decide(s, P.lnot(P.ult(P.C(lim, w), q))) == 1) return q;
    if (sgn) {
      T neg = P.sub(P.C(0, w), q);
      if (decide(s, P.lnot(P.ult(P.C(lim, w), neg))) == 1) return q;
    }
    return nullptr;
  }
  T binop(State& s, const BinaryOperator* bo, T a, T b) {
    unsigned w = a->w;
    auto* ob = dyn_cast<OverflowingBinaryOperator>(bo);
    auto chk = [&](T ov, const char* m) { ++obligations; if (ov->isC() ? ov->c : test(s, ov)) throw Err{m}; };
    bool nsw = ob && ob->hasNoSignedWrap();
    switch (bo->getOpcode()) {
      case Instruction::Add: if (nsw) chk(P.mk(K::SAddO, 1, a, b), "signed overflow in addition"); return P.add(a, b);
      case Instruction::Sub: if (nsw) chk(P.mk(K::SSubO, 1, a, b), "signed overflow in subtraction"); return P.sub(a, b);
      case Instruction::Mul: if (nsw) chk(P.mk(K::SMulO, 1, a, b), "signed overflow in multiplication"); {
        u64 v; if (s.f->constOf(b, v)) b = P.C(v, w); if (s.f->constOf(a, v)) a = P.C(v, w);
        return P.mul(a, b); }
      case Instruction::And: return P.bitop(K::And, a, b);
      case Instruction::Or: {
        T r = P.bitop(K::Or, a, b);
        return r;
      }
      case Instruction::Xor: return P.bitop(K::Xor, a, b);
      case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        if (b->anyUndef) throw Err{"shift by an uninitialised amount"};
        u64 v;
        if (!s.f->constOf(b, v)) {
          chk(P.lnot(P.ult(b, P.C(w, w))), "shift amount not smaller than the width");
          v = needConst(s, b, 64);
        }
        if (v >= w) throw Err{"shift amount not smaller than the width"};
        T k = P.C(v, w);
        if (bo->getOpcode() == Instruction::Shl) return P.shl(a, k);
        if (T q = divExact(s, a, 1ull << v, bo->getOpcode() == Instruction::AShr)) return q;
        return bo->getOpcode() == Instruction::LShr ? P.lshr(a, k) : P.ashr(a, k);
      }
      case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
        chk(P.eq(b, P.C(0, w)), "division by zero");
        bool sg = bo->getOpcode() == Instruction::SDiv || bo->getOpcode() == Instruction::SRem;
        bool dv = bo->getOpcode() == Instruction::UDiv || bo->getOpcode() == Instruction::SDiv;
        u64 v; if (s.f->constOf(b, v)) b = P.C(v, w);
        if (s.f->constOf(a, v)) a = P.C(v, w);
        if (sg) {
          if (!(b->isC() && b->c != maskw(w))) chk(P.land(P.eq(b, P.C(maskw(w), w)), P.eq(a, P.C(1ull << (w - 1), w))), "signed division overflow");
          Rg ra = s.f->range(a), rb = s.f->range(b); u64 h = 1ull << (w - 1);
          if (dv && b->isC() && b->c < h) if (T q = divExact(s, a, b->c, true)) return q;
          if (ra.hi < h && rb.hi < h) sg = false;
          else if (!(a->isC() && b->isC())) {
            // partition on the operand signs, then divide magnitudes
            bool na = test(s, P.slt(a, P.C(0, w))), nb = test(s, P.slt(b, P.C(0, w)));
            T ma = na ? P.sub(P.C(0, w), a) : a, mb = nb ? P.sub(P.C(0, w), b) : b;
            if (dv && mb->isC() && mb->c == 1) return na != nb ? P.sub(P.C(0, w), ma) : ma;
            T r = P.mk(dv ? K::UDiv : K::URem, w, ma, mb);
            bool ng = dv ? na != nb : na;
            return ng ? P.sub(P.C(0, w), r) : r;
          }
        }
        if (!sg && b->isC() && dv) { if (b->c == 1) return a; if (T q = divExact(s, a, b->c, false)) return q; }
        if (!sg && b->isC() && b->c == 1 && !dv) return P.C(0, w);
        return P.mk(sg ? (dv ? K::SDiv : K::SRem) : (dv ? K::UDiv : K::URem), w, a, b);
      }
      default: throw Unsup{std::string("binop ") + bo->getOpcodeName()};
    }
  }

  // step one instruction; returns false if the frame returned
  enum class R { Next, Ret, Called };
  Val retVal;

  std::vector<Exit> callFn(const Function* F, std::vector<Val> args, State s) {
    covered.insert(F);
    FnInfo& fi = info(F);
    std::vector<Item> work;
    std::vector<Exit> exits;
    {
      Item it;
      it.fr.F = F; it.fr.bb = &F->getEntryBlock(); it.fr.it = it.fr.bb->begin();
      it.fr.regs.resize(fi.n);
      unsigned i = 0;
      for (auto& a : F->args()) { it.fr.regs[fi.num[&a]] = i < args.size() ? args[i] : Val{}; ++i; }
      it.s = std::move(s);
      work.push_back(std::move(it));
    }
    if (cs.size() > 400) throw Unsup{"call depth"};
    while (!work.empty()) {
      Item it = std::move(work.back());
      work.pop_back();
      runItem(it, work, exits);
    }
    return exits;
  }
  static bool sameVal(const Val& a, const Val& b) {
    if (a.t != b.t) return false;
    if (!a.agg != !b.agg) return false;
    if (a.agg) { if (a.agg->size() != b.agg->size()) return false; for (size_t i = 0; i < a.agg->size(); ++i) if (!sameVal((*a.agg)[i], (*b.agg)[i])) return false; }
    return true;
  }

  void runItem(Item& it, std::vector<Item>& work, std::vector<Exit>& exits) {
    Frame& fr = it.fr;
    State& s = it.s;
    cs.push_back(&*fr.it);
    struct Pop { std::vector<const Instruction*>& c; ~Pop() { c.pop_back(); } } pop{cs};
    for (;;) {
      const Instruction& I = *fr.it;
      cs.back() = &I;
      ++steps; ++s.steps;
      if (prof && (steps & 0xfffff) == 0) { std::string st; for (size_t q = 0; q < cs.size(); ++q) st += " > " + locOf(cs[q]); fprintf(stderr, "at%s work=%zu splits=%llu cons=%zu\n", st.c_str(), work.size(), (unsigned long long)splits, s.f->cons.size()); if (s.f->cons.size()) fprintf(stderr, "  last %s\n", show(s.f->cons.back()).c_str()); }
      if ((steps & 0x3ff) == 0) {
        if (cpuNow() > cpuLimit || std::chrono::steady_clock::now() > deadline) { unknown = "time budget exhausted"; throw Budget{}; }
        if (steps > stepLimit) { unknown = "step budget exhausted"; throw Budget{}; }
      }
      try {
        if (s.steps > pathLimit) throw Err{"no termination within " + std::to_string(pathLimit) + " steps"};
        if (auto* ri = dyn_cast<ReturnInst>(&I)) {
          Val v;
          if (ri->getReturnValue()) v = get(fr, s, ri->getReturnValue());
          for (uint32_t a : fr.allocas) s.mem.kill(a);
          for (auto& e : exits)
            if (sameVal(e.v, v) && (e.s.f == s.f) && e.s.mem.same(s.mem) && e.s.live == s.live) { ++dupJoins; return; }
          exits.push_back({v, std::move(s)});
          return;
        }
        if (auto* cb = dyn_cast<CallBase>(&I)) {
          if (doCall(fr, s, cb, work)) continue;
          return;  // continuations were queued
        }
        exec(fr, s, I);
      } catch (Split& sp) {
        ++splits;
        Item other{fr, s};
        facts(s).assume(sp.c, true);
        facts(other.s).assume(sp.c, false);
        if (s.f->dead && other.s.f->dead) { ++infeasible; return; }
        if (s.f->dead) { it = std::move(other); continue; }
        if (!other.s.f->dead) work.push_back(std::move(other));
        if (work.size() > 20000) { unknown = "too many partitions"; throw Budget{}; }
        continue;
      } catch (Err& e) {
        if (trace) fprintf(stderr, "ERR %s at %s\n", e.msg.c_str(), locOf(&I).c_str());
        ++paths;
        report(s, e.msg);
        return;
      } catch (PathEnd&) {
        ++paths;
        return;
      } catch (Unsup& u) {
        ++paths;
        if (s.f->fmInfeasible(nullptr, true)) { ++infeasible; return; }
        int nodes = 1000;
        if (unknown.empty() && s.f->empty(nodes)) { ++infeasible; return; }
        if (unknown.empty()) {
          unknown = u.msg;
          for (size_t i = cs.size(); i-- > 0;) unknown += "\n   at " + locOf(cs[i]) + " in " + shortName(cs[i]->getFunction());
        }
        return;
      }
    }
  }
  void finishCall(Frame& fr, State& s, const CallBase* cb) {
    if (auto* inv = dyn_cast<InvokeInst>(cb)) jump(fr, s, inv->getNormalDest());
    else ++fr.it;
  }
  bool doCall(Frame& fr, State& s, const CallBase* cb, std::vector<Item>& work) {
    if (auto* ii = dyn_cast<IntrinsicInst>(cb)) { intrinsic(fr, s, ii); ++fr.it; return true; }
    if (cb->isInlineAsm()) {
      auto* ia = cast<InlineAsm>(cb->getCalledOperand());
      if (ia->getAsmString().empty()) {
        if (!cb->getType()->isVoidTy()) throw Unsup{"inline asm result"};
        finishCall(fr, s, cb); return true;
      }
      throw Unsup{"inline asm"};
    }
    const Function* F = cb->getCalledFunction();
    if (!F) {
      const Value* op = cb->getCalledOperand()->stripPointerCasts();
      F = dyn_cast<Function>(op);
      if (!F) {
        T t = getT(fr, s, cb->getCalledOperand());
        if (t->anyUndef) throw Err{"call through an uninitialised function pointer"};
        u64 c = needConst(s, t);
        uint32_t id = (uint32_t)(c >> 32);
        ++obligations;
        if (!id || id >= s.mem.size() || !s.mem[id] || s.mem[id]->kind != OK::Func || c != addrOf(id, 16)) throw Err{"call through a null or invalid function pointer"};
        F = cast<Function>(s.mem[id]->g);
      }
    }
    if (native(fr, s, cb, F)) { finishCall(fr, s, cb); return true; }
    if (F->getName() == "abort" || F->getName() == "exit" || F->getName() == "_exit" || F->getName() == "quick_exit") { crash(s, cb, F->getName().str()); }
    if (isCrash(F, cb) && !(s.deepCrash && !F->isDeclaration())) crash(s, cb, shortName(F));
    if (F->isDeclaration()) throw Unsup{"call to undefined function " + demangle(F->getName().str())};
    std::vector<Val> args;
    unsigned i = 0;
    for (auto& a : cb->args()) {
      Val v = get(fr, s, a);
      if (cb->isByValArgument(i)) {
        Type* ty = cb->getParamByValType(i);
        u64 sz = DL.getTypeAllocSize(ty).getFixedValue();
        uint32_t id = newObj(s, OK::Stack, sz, std::max<u64>(DL.getABITypeAlign(ty).value(), 8), "byval");
        T p = ptrTo(s, id);
        copyBytes(s, p, v.t, P.C(sz, 64), false);
        v.t = p;
      }
      args.push_back(v);
      ++i;
    }
    ++s.steps;
    auto ex = callFn(F, std::move(args), std::move(s));
    if (ex.empty()) return false;
    for (size_t k = 1; k < ex.size(); ++k) {
      Item n; n.fr = fr; n.s = std::move(ex[k].s);
      if (!cb->getType()->isVoidTy()) set(n.fr, cb, ex[k].v);
      finishCall(n.fr, n.s, cb);
      work.push_back(std::move(n));
    }
    s = std::move(ex[0].s);
    if (!cb->getType()->isVoidTy()) set(fr, cb, ex[0].v);
    finishCall(fr, s, cb);
    return true;
  }
  double fpv(T t) { if (!t->isC()) throw Unsup{"symbolic floating point"}; if (t->w == 32) { uint32_t b = (uint32_t)t->c; float f; memcpy(&f, &b, 4); return f; } double d; memcpy(&d, &t->c, 8); return d; }
  T fpt(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t b; memcpy(&b, &f, 4); return P.C(b, 32); } u64 b; memcpy(&b, &d, 8); return P.C(b, 64); }

  void exec(Frame& fr, State& s, const Instruction& I) {
    auto op = [&](unsigned i) { return getT(fr, s, I.getOperand(i)); };
    switch (I.getOpcode()) {
      case Instruction::Br: {
        auto& b = cast<BranchInst>(I);
        if (b.isUnconditional()) { jump(fr, s, b.getSuccessor(0)); return; }
        T c = op(0);
        if (c->anyUndef) throw Err{"branch on uninitialised memory"};
        bool v = test(s, c);
        jump(fr, s, b.getSuccessor(v ? 0 : 1));
        return;
      }
      case Instruction::Switch: {
        auto& sw = cast<SwitchInst>(I);
        T c = op(0);
        if (c->anyUndef) throw Err{"switch on uninitialised memory"};
        for (auto& cs : sw.cases())
          if (test(s, P.eq(c, P.C(cs.getCaseValue()->getZExtValue(), c->w)))) { jump(fr, s, cs.getCaseSuccessor()); return; }
        jump(fr, s, sw.getDefaultDest());
        return;
      }
      case Instruction::Unreachable: throw Err{"reaches code marked unreachable"};
      case Instruction::Alloca: {
        auto& a = cast<AllocaInst>(I);
        u64 n = DL.getTypeAllocSize(a.getAllocatedType()).getFixedValue();
        if (a.isArrayAllocation()) n *= needConst(s, getT(fr, s, a.getArraySize()));
        uint32_t id = newObj(s, OK::Stack, n, a.getAlign().value(), a.getName().empty() ? "local" : "local '" + a.getName().str() + "'");
        fr.allocas.push_back(id);
        setT(fr, &I, ptrTo(s, id));
        break;
      }
      case Instruction::Load: {
        auto& l = cast<LoadInst>(I);
        set(fr, &I, load(s, op(0), l.getType(), l.getAlign().value()));
        break;
      }
      case Instruction::Store: {
        auto& st = cast<StoreInst>(I);
        store(s, op(1), get(fr, s, st.getValueOperand()), st.getValueOperand()->getType(), st.getAlign().value());
        break;
      }
      case Instruction::GetElementPtr: {
        auto& g = cast<GetElementPtrInst>(I);
        T p = op(0);
        for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
          const Value* idx = gi.getOperand();
          if (auto* st = gi.getStructTypeOrNull()) {
            p = P.add(p, P.C(DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()), 64));
          } else {
            u64 es = DL.getTypeAllocSize(gi.getIndexedType()).getFixedValue();
            T t = getT(fr, s, idx);
            if (t->w < 64) t = P.sext(t, 64);
            u64 v; if (s.f->constOf(t, v)) t = P.C(v, 64);
            p = P.add(p, P.mulc(t, es));
          }
        }
        setT(fr, &I, p);
        break;
      }
      case Instruction::ICmp: {
        T a = op(0), b = op(1);
        setT(fr, &I, icmp(cast<ICmpInst>(I).getPredicate(), a, b));
        break;
      }
      case Instruction::Select: {
        T c = op(0);
        if (c->anyUndef) throw Err{"select on uninitialised memory"};
        set(fr, &I, test(s, c) ? get(fr, s, I.getOperand(1)) : get(fr, s, I.getOperand(2)));
        break;
      }
      case Instruction::ZExt: setT(fr, &I, P.zext(op(0), bits(I.getType()))); break;
      case Instruction::SExt: setT(fr, &I, P.sext(op(0), bits(I.getType()))); break;
      case Instruction::Trunc: setT(fr, &I, P.slice(op(0), 0, bits(I.getType()))); break;
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: {
        T t = op(0); unsigned w = bits(I.getType());
        setT(fr, &I, t->w == w ? t : t->w > w ? P.slice(t, 0, w) : P.zext(t, w));
        break;
      }
      case Instruction::ExtractValue: {
        auto& e = cast<ExtractValueInst>(I);
        Val v = get(fr, s, I.getOperand(0));
        for (unsigned i : e.indices()) { Val n = (*v.agg)[i]; v = n; }
        set(fr, &I, v);
        break;
      }
      case Instruction::InsertValue: {
        auto& e = cast<InsertValueInst>(I);
        Val v = get(fr, s, I.getOperand(0)), x = get(fr, s, I.getOperand(1));
        std::function<Val(Val, unsigned)> ins = [&](Val a, unsigned d) -> Val {
          if (d == e.getNumIndices()) return x;
          auto n = std::make_shared<std::vector<Val>>(*a.agg);
          unsigned i = e.getIndices()[d];
          (*n)[i] = ins((*n)[i], d + 1);
          return {nullptr, n};
        };
        set(fr, &I, ins(v, 0));
        break;
      }
      case Instruction::Freeze: {
        Val v = get(fr, s, I.getOperand(0));
        if (v.t && v.t->anyUndef) v.t = P.fresh(v.t->w, "frozen");
        set(fr, &I, v);
        break;
      }
      case Instruction::Fence: break;
      case Instruction::AtomicRMW: {
        auto& a = cast<AtomicRMWInst>(I);
        Type* ty = a.getValOperand()->getType();
        Val o = load(s, op(0), ty, 1); T v = op(1), n;
        switch (a.getOperation()) {
          case AtomicRMWInst::Xchg: n = v; break;
          case AtomicRMWInst::Add: n = P.add(o.t, v); break;
          case AtomicRMWInst::Sub: n = P.sub(o.t, v); break;
          case AtomicRMWInst::And: n = P.bitop(K::And, o.t, v); break;
          case AtomicRMWInst::Or: n = P.bitop(K::Or, o.t, v); break;
          default: throw Unsup{"atomicrmw"};
        }
        store(s, op(0), {n, nullptr}, ty, 1);
        set(fr, &I, o);
        break;
      }
      case Instruction::AtomicCmpXchg: {
        auto& a = cast<AtomicCmpXchgInst>(I);
        Type* ty = a.getNewValOperand()->getType();
        Val o = load(s, op(0), ty, 1);
        bool eq = test(s, P.eq(o.t, op(1)));
        if (eq) store(s, op(0), {op(2), nullptr}, ty, 1);
        auto v = std::make_shared<std::vector<Val>>(); v->push_back(o); v->push_back({P.C(eq, 1), nullptr});
        set(fr, &I, {nullptr, v});
        break;
      }
      case Instruction::FAdd: setT(fr, &I, fpt(fpv(op(0)) + fpv(op(1)), bits(I.getType()))); break;
      case Instruction::FSub: setT(fr, &I, fpt(fpv(op(0)) - fpv(op(1)), bits(I.getType()))); break;
      case Instruction::FMul: setT(fr, &I, fpt(fpv(op(0)) * fpv(op(1)), bits(I.getType()))); break;
      case Instruction::FDiv: setT(fr, &I, fpt(fpv(op(0)) / fpv(op(1)), bits(I.getType()))); break;
      case Instruction::FNeg: setT(fr, &I, fpt(-fpv(op(0)), bits(I.getType()))); break;
      case Instruction::UIToFP: { T t = op(0); if (!t->isC()) throw Unsup{"uitofp"}; setT(fr, &I, fpt((double)t->c, bits(I.getType()))); break; }
      case Instruction::SIToFP: { T t = op(0); if (!t->isC()) throw Unsup{"sitofp"}; setT(fr, &I, fpt((double)sx(t->c, t->w), bits(I.getType()))); break; }
      case Instruction::FPToUI: setT(fr, &I, P.C((u64)fpv(op(0)), bits(I.getType()))); break;
      case Instruction::FPToSI: setT(fr, &I, P.C((u64)(i64)fpv(op(0)), bits(I.getType()))); break;
      case Instruction::FPExt: case Instruction::FPTrunc: setT(fr, &I, fpt(fpv(op(0)), bits(I.getType()))); break;
      case Instruction::FCmp: {
        double a = fpv(op(0)), b = fpv(op(1)); bool r;
        switch (cast<FCmpInst>(I).getPredicate()) {
          case CmpInst::FCMP_OEQ: r = a == b; break; case CmpInst::FCMP_OLT: r = a < b; break; case CmpInst::FCMP_OGT: r = a > b; break;
          case CmpInst::FCMP_OLE: r = a <= b; break; case CmpInst::FCMP_OGE: r = a >= b; break; case CmpInst::FCMP_UNE: r = a != b; break;
          case CmpInst::FCMP_ONE: r = a < b || a > b; break; case CmpInst::FCMP_UNO: r = a != a || b != b; break;
          default: throw Unsup{"fcmp"};
        }
        setT(fr, &I, P.C(r, 1));
        break;
      }
      default:
        if (auto* bo = dyn_cast<BinaryOperator>(&I)) { setT(fr, &I, binop(s, bo, op(0), op(1))); break; }
        throw Unsup{std::string("instruction ") + I.getOpcodeName()};
    }
    ++fr.it;
  }

  bool bootUp(bool ctors) {
    registerGlobals();
    if (!ctors) return true;
    if (auto* g = M.getGlobalVariable("llvm.global_ctors")) {
      std::vector<std::pair<u64, Function*>> fs;
      if (g->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer()))
        for (auto& o : ca->operands()) {
          auto* cst = cast<ConstantStruct>(o);
          if (auto* f = dyn_cast<Function>(cst->getOperand(1)->stripPointerCasts())) fs.push_back({cast<ConstantInt>(cst->getOperand(0))->getZExtValue(), f});
        }
      std::stable_sort(fs.begin(), fs.end(), [](auto& a, auto& b) { return a.first < b.first; });
      for (auto& [p, f] : fs) {
        auto ex = callFn(f, {}, boot);
        if (ex.size() != 1) { unknown = "static initialiser is not deterministic: " + f->getName().str() + (unknown.empty() ? "" : "; " + unknown); return false; }
        boot = std::move(ex[0].s);
      }
    }
    return true;
  }
  void run(Function* F) {
    auto ex = callFn(F, {}, boot);
    paths += ex.size();
  }
};

static std::string js(const std::string& s) {
  std::string r = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if ((unsigned char)c < 0x20) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

static std::string analyse(Module& M, Function* F, double secs, std::chrono::steady_clock::time_point last) {
  auto t0 = std::chrono::steady_clock::now();
  Interp I(M);
  // The budget of an entry is processor time, so that a loaded machine gives the same answer; `last` bounds the whole check.
  I.cpuLimit = cpuNow() + secs;
  I.deadline = last;
  if (const char* e = getenv("AINT_MAXF")) I.maxFindings = atoi(e);
  try {
    if (I.bootUp(F->getName().contains("cli"))) { I.covered.clear(); I.run(F); }
  } catch (Budget&) {} catch (Enough&) {}
  bool conf = false, unc = false;
  for (auto& f : I.findings) (f.confirmed ? conf : unc) = true;
  std::string st = conf ? "REFUTED" : unc ? "ALARM" : !I.unknown.empty() ? "UNKNOWN" : "PROVED";
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  std::string o = "{\"entry\":" + js(F->getName().str()) + ",\"status\":" + js(st) + ",\"unknown\":" + js(I.unknown);
  char b[400];
  snprintf(b, 400, ",\"paths\":%llu,\"crash_paths\":%llu,\"steps\":%llu,\"partitions\":%llu,\"infeasible\":%llu,\"obligations\":%llu,\"seconds\":%.2f",
           (unsigned long long)I.paths, (unsigned long long)I.crashes, (unsigned long long)I.steps, (unsigned long long)I.splits, (unsigned long long)I.infeasible, (unsigned long long)I.obligations, dt);
  o += b;
  o += ",\"reached\":{";
  bool first = true;
  for (auto& [k, v] : I.reached) { o += (first ? "" : ",") + js(k) + ":" + std::to_string(v); first = false; }
  o += "},\"functions\":[";
  std::set<std::string> fn;
  for (auto* f : I.covered) {
    if (auto* sp = f->getSubprogram()) {
      std::string file = sp->getFilename().str();
      if (auto pos = file.find("best/"); pos != std::string::npos && file.find("witness") == std::string::npos) fn.insert(file.substr(pos) + ":" + std::to_string(sp->getLine()) + " " + sp->getName().str());
    }
  }
  first = true;
  for (auto& k : fn) { o += (first ? "" : ",") + js(k); first = false; }
  o += "],\"findings\":[";
  first = true;
  for (auto& f : I.findings) {
    o += (first ? "" : ",") + ("{\"msg\":" + js(f.msg)) + ",\"where\":" + js(f.where) + ",\"model\":" + js(f.model) + ",\"confirmed\":" + (f.confirmed ? "true" : "false") + ",\"stack\":[";
    for (size_t i = 0; i < f.stack.size() && i < 14; ++i) o += (i ? "," : "") + js(f.stack[i]);
    o += "]}";
    first = false;
  }
  return o + "]}";
}

int main(int argc, char** argv) {
  // aint module.bc [-j N] [-t secs] [entry...]
  std::string file;
  unsigned jobs = 8; double secs = 120, total = 1e6;
  std::vector<std::string> want;
  bool list = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "-j") jobs = atoi(argv[++i]);
    else if (a == "-t") secs = atof(argv[++i]);
    else if (a == "-T") total = atof(argv[++i]);
    else if (a == "--list") list = true;
    else if (file.empty()) file = a;
    else want.push_back(a);
  }
  // deep host recursion: one host frame group per interpreted call
  struct rlimit rl;
  getrlimit(RLIMIT_STACK, &rl);
  if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (512ul << 20)) {
    rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (512ul << 20) : std::min<rlim_t>(rl.rlim_max, 512ul << 20);
    if (setrlimit(RLIMIT_STACK, &rl) == 0 && !getenv("AINT_REEXEC")) { setenv("AINT_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
  }
  LLVMContext C;
  SMDiagnostic d;
  auto M = parseIRFile(file, d, C);
  if (!M) { d.print("aint", errs()); return 3; }
  std::vector<Function*> fs;
  for (auto& F : *M) {
    if (F.isDeclaration()) continue;
    StringRef n = F.getName();
    if (!(n.starts_with("w_") || n.starts_with("c_"))) continue;
    if (!want.empty()) { bool ok = false; for (auto& w : want) if (n == w || (w.back() == '*' && n.starts_with(w.substr(0, w.size() - 1)))) ok = true; if (!ok) continue; }
    fs.push_back(&F);
  }
  if (list) { for (auto* F : fs) printf("%s\n", F->getName().str().c_str()); return 0; }
  auto last = std::chrono::steady_clock::now() + std::chrono::milliseconds((long)(total * 1000));
  struct Job { pid_t pid; int fd; std::string out; Function* F; };
  std::vector<Job> run;
  size_t next = 0;
  while (next < fs.size() || !run.empty()) {
    while (run.size() < jobs && next < fs.size()) {
      int p[2];
      if (pipe(p)) return 3;
      Function* F = fs[next++];
      fflush(stdout);
      pid_t pid = fork();
      if (pid == 0) {
        close(p[0]);
        struct rlimit as{6ul << 30, 6ul << 30};
        setrlimit(RLIMIT_AS, &as);
        std::string o;
        try { o = analyse(*M, F, secs, last); } catch (std::bad_alloc&) { _exit(9); }
        o += "\n";
        size_t k = 0;
        while (k < o.size()) { ssize_t n = write(p[1], o.data() + k, o.size() - k); if (n <= 0) break; k += n; }
        _exit(0);
      }
      close(p[1]);
      run.push_back({pid, p[0], "", F});
    }
    fd_set set; FD_ZERO(&set); int mx = 0;
    for (auto& j : run) { FD_SET(j.fd, &set); mx = std::max(mx, j.fd); }
    if (select(mx + 1, &set, nullptr, nullptr, nullptr) < 0) continue;
    for (size_t i = 0; i < run.size();) {
      auto& j = run[i];
      bool done = false;
      if (FD_ISSET(j.fd, &set)) {
        char buf[65536]; ssize_t n = read(j.fd, buf, sizeof buf);
        if (n > 0) j.out.append(buf, n); else done = true;
      }
      if (done) {
        int st; waitpid(j.pid, &st, 0); close(j.fd);
        if (j.out.empty()) j.out = "{\"entry\":" + js(j.F->getName().str()) + ",\"status\":\"UNKNOWN\",\"unknown\":\"analyser process died\",\"findings\":[],\"functions\":[],\"reached\":{},\"paths\":0,\"crash_paths\":0,\"steps\":0,\"partitions\":0,\"infeasible\":0,\"obligations\":0,\"seconds\":0}\n";
        fputs(j.out.c_str(), stdout); fflush(stdout);
        run.erase(run.begin() + i);
      } else ++i;
    }
  }
  return 0;
}
