// symex: symbolic execution of LLVM IR with z3.  See DESIGN.md.
#include "decode.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/IR/Verifier.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <fstream>
#include <sstream>
#include <deque>
using namespace llvm;
namespace sx { Exprs X; }
using namespace sx;
using std::string; using std::vector;
typedef sx::State S;

struct Shared { volatile uint32_t next; volatile uint32_t stop; volatile uint32_t viol; };
struct Opt { string out = "out.json", sdir; int procs = 8; double time = 200; uint64_t maxInstr = 4000000; uint32_t maxDepth = 3000; int frontier = 256; int maxViol = 12; uint32_t sampleCap = 400; bool leak = true; uint32_t spurious = 0; bool noReduce = false, atomicYield = true; int preempt = -1; bool verbose = false; string entry = "vf_main"; bool undefCheck = true; uint64_t seed = 1; int maxSteps = -1; bool noMerge = false, reuse = false; } opt;
struct Viol { string kind, msg, loc; vector<string> stack; vector<uint32_t> in; };
struct Sample { vector<uint32_t> in; uint64_t hash; uint32_t steps = ~0u; };

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double tStart;
struct PathEnd { int k; }; // thrown to end the current state: 0 complete, 1 infeasible assumption, 2 violation, 3 merged/bounded, 4 parked at a checkpoint
const int VBITS = 24; const uint64_t VMASK = (1ull << VBITS) - 1;

struct Engine {
  LLVMContext ctx; std::unique_ptr<Module> mod; const DataLayout* DL = nullptr;
  vector<std::unique_ptr<Fn>> fns; std::unordered_map<const Function*, Fn*> fmap; vector<Fn*> fnById; std::unordered_map<string, Fn*> byName;
  vector<Obj*> constObjs; uint32_t nFn = 0, nConst = 0; uint32_t stateBase = 0;
  std::unordered_map<const GlobalValue*, uint64_t> gaddr; std::unordered_map<uint64_t, string> addrName;
  vector<Fn*> ctors; Solver solver; std::deque<S*> work; Shared* sh = nullptr;
  // results
  uint64_t nPaths = 0, nForks = 0, nInstr = 0, nSteps = 0, nAssume = 0, nPruned = 0, nAsserts = 0, nSymAsserts = 0, nMem = 0; std::set<uint32_t> reach; std::set<uint64_t> hstates; vector<Viol> viols; vector<Sample> samples; std::set<string> violKeys; bool timedOut = false, usesCk = false; uint32_t maxVars = 0;
  uint64_t sampleSeen = 0, rng = 88172645463325252ull;
  string fatal; uint64_t *vtab = nullptr, *vstat = nullptr; uint8_t* vdep = nullptr; uint64_t nCheck = 0; uint32_t maxDepthSeen = 0; std::map<uint32_t, std::deque<S*>> parked; size_t nParked = 0;
  uint64_t ti_class = 0, ti_si = 0, ti_vmi = 0;

  [[noreturn]] void die(const string& m) { fprintf(stderr, "symex: ERROR %s\n", m.c_str()); fflush(stderr); _exit(3); }
  uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }

  // ---------- types
  unsigned width(Type* t) { if (t->isPointerTy()) return 64; if (auto* it = dyn_cast<IntegerType>(t)) return it->getBitWidth(); if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; return 0; }
  void flat(Type* t, vector<uint8_t>& ws, vector<uint32_t>& offs, uint32_t off = 0) {
    if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flat(st->getElementType(i), ws, offs, off + (uint32_t)sl->getElementOffset(i)); return; }
    if (auto* at = dyn_cast<ArrayType>(t)) { uint32_t sz = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) flat(at->getElementType(), ws, offs, off + i * sz); return; }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) { uint32_t sz = DL->getTypeStoreSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) flat(vt->getElementType(), ws, offs, off + i * sz); return; }
    if (t->isVoidTy()) return;
    unsigned w = width(t); ws.push_back(w > 64 ? 0 : w); offs.push_back(off);
  }
  unsigned nslots(Type* t) { vector<uint8_t> w; vector<uint32_t> o; flat(t, w, o); return w.size(); }

  // ---------- constants
  uint64_t constVal(const Constant* c) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) return ci->getValue().getLimitedValue() == UINT64_MAX && ci->getBitWidth() > 64 ? 0 : ci->getValue().extractBitsAsZExtValue(std::min(64u, ci->getBitWidth()), 0);
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
    if (auto* cf = dyn_cast<ConstantFP>(c)) return cf->getValueAPF().bitcastToAPInt().getLimitedValue();
    if (auto* ga = dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee());
    if (auto* gv = dyn_cast<GlobalValue>(c)) { auto it = gaddr.find(gv); if (it == gaddr.end()) die("no address for global " + gv->getName().str()); return it->second; }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
      unsigned w = width(ce->getType());
      switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); auto* g = cast<GEPOperator>(ce); if (!g->accumulateConstantOffset(*DL, off)) die("constant gep"); return constVal(cast<Constant>(g->getPointerOperand())) + off.getSExtValue(); }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: case Instruction::ZExt: return constVal(ce->getOperand(0)) & maskw(w);
      case Instruction::SExt: return sx64(constVal(ce->getOperand(0)), width(ce->getOperand(0)->getType())) & maskw(w);
      case Instruction::Add: return (constVal(ce->getOperand(0)) + constVal(ce->getOperand(1))) & maskw(w);
      case Instruction::Sub: return (constVal(ce->getOperand(0)) - constVal(ce->getOperand(1))) & maskw(w);
      case Instruction::Xor: return constVal(ce->getOperand(0)) ^ constVal(ce->getOperand(1));
      case Instruction::And: return constVal(ce->getOperand(0)) & constVal(ce->getOperand(1));
      case Instruction::Or: return constVal(ce->getOperand(0)) | constVal(ce->getOperand(1));
      case Instruction::ICmp: { uint64_t a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1)); switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_UGT: return a > b; default: break; } break; }
      case Instruction::Select: return constVal(ce->getOperand(0)) ? constVal(ce->getOperand(1)) : constVal(ce->getOperand(2));
      default: break; }
    }
    string s; raw_string_ostream os(s); c->print(os); die("unsupported constant " + os.str());
  }
  void initBytes(const Constant* c, uint8_t* p) {
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
    if (auto* ds = dyn_cast<ConstantDataSequential>(c)) { StringRef r = ds->getRawDataValues(); memcpy(p, r.data(), r.size()); return; }
    if (auto* cs = dyn_cast<ConstantStruct>(c)) { auto* sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initBytes(cs->getOperand(i), p + sl->getElementOffset(i)); return; }
    if (auto* ca = dyn_cast<ConstantArray>(c)) { uint64_t sz = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initBytes(ca->getOperand(i), p + i * sz); return; }
    uint64_t v = constVal(c); memcpy(p, &v, std::min<uint64_t>(8, DL->getTypeStoreSize(t)));
  }

  // ---------- loading
  Fn* getFn(Function* f) { auto it = fmap.find(f); if (it != fmap.end()) return it->second; die("function without address " + f->getName().str()); }
  void load(const vector<string>& files) {
    std::unique_ptr<Linker> lk;
    for (auto& fn : files) {
      SMDiagnostic err; auto m = parseIRFile(fn, err, ctx); if (!m) die("cannot read " + fn + ": " + err.getMessage().str());
      if (!mod) { mod = std::move(m); lk = std::make_unique<Linker>(*mod); } else if (lk->linkInModule(std::move(m))) die("cannot link " + fn);
    }
    DL = &mod->getDataLayout();
    for (auto& f : *mod) { f.removeFnAttr(Attribute::OptimizeNone); if (f.hasFnAttribute(Attribute::NoInline) && !f.getName().starts_with("vf_") && !f.getName().starts_with("vk_")) f.removeFnAttr(Attribute::NoInline); }
    internalizeModule(*mod, [&](const GlobalValue& gv) { return gv.getName() == opt.entry || gv.getName() == "llvm.global_ctors" || gv.getName().starts_with("_ZTVN10__cxxabiv1"); });
    { PassBuilder pb; LoopAnalysisManager l; FunctionAnalysisManager fa; CGSCCAnalysisManager c; ModuleAnalysisManager m;
      pb.registerModuleAnalyses(m); pb.registerCGSCCAnalyses(c); pb.registerFunctionAnalyses(fa); pb.registerLoopAnalyses(l); pb.crossRegisterProxies(l, fa, c, m);
      ModulePassManager mpm; if (auto e = pb.parsePassPipeline(mpm, "globaldce,function(sroa,early-cse,simplifycfg),cgscc(inline,function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg)),globaldce")) die("bad pipeline");
      mpm.run(*mod, m); }
    // addresses: functions, constant globals, then per-state globals
    uint32_t id = 0;
    auto addr = [&](uint32_t i) { return ((uint64_t)i + 1) << 32; };
    for (auto& f : *mod) { fns.push_back(std::make_unique<Fn>()); Fn* x = fns.back().get(); x->f = &f; x->name = f.getName().str(); x->dname = demangle(x->name); x->isDecl = f.isDeclaration(); x->addr = addr(id); id++; fmap[&f] = x; fnById.push_back(x); gaddr[&f] = x->addr; byName[x->name] = x;
      x->lib = x->dname.find("boost::statechart::") != string::npos; }
    nFn = id;
    for (auto& g : mod->globals()) if ((g.isConstant() && g.hasInitializer()) || g.isDeclaration()) { gaddr[&g] = addr(id); addrName[addr(id)] = g.getName().str(); id++; }
    nConst = id - nFn; stateBase = id;
    for (auto& g : mod->globals()) if (!gaddr.count(&g)) { gaddr[&g] = addr(id); addrName[addr(id)] = g.getName().str(); id++; }
    constObjs.resize(nConst);
    for (auto& g : mod->globals()) { uint32_t i = (gaddr[&g] >> 32) - 1; if (i < stateBase) { uint64_t sz = g.isDeclaration() ? 64 : (uint64_t)DL->getTypeAllocSize(g.getValueType()); Obj* o = new Obj(sz, K_GLOBAL, false); if (g.hasInitializer()) initBytes(g.getInitializer(), o->b); constObjs[i - nFn] = o;
        string n = g.getName().str(); if (n == "_ZTVN10__cxxabiv117__class_type_infoE") ti_class = gaddr[&g]; if (n == "_ZTVN10__cxxabiv120__si_class_type_infoE") ti_si = gaddr[&g]; if (n == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") ti_vmi = gaddr[&g]; } }
    initBuiltins();
  }
  void initState(S& s) {
    s.mem.base = stateBase;
    for (auto& g : mod->globals()) { uint32_t i = (gaddr[&g] >> 32) - 1; if (i >= stateBase) { Obj* o = new Obj(DL->getTypeAllocSize(g.getValueType()), K_GLOBAL, false); if (g.hasInitializer()) initBytes(g.getInitializer(), o->b); uint32_t r = s.mem.add(o); if (r != i) die("global order"); } }
    s.th.resize(1);
    // entry, then global constructors on top (executed first)
    vector<std::pair<uint32_t, Fn*>> cs;
    if (auto* gc = mod->getNamedGlobal("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto& op : ca->operands()) { auto* st = cast<ConstantStruct>(op); if (auto* f = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) cs.push_back({(uint32_t)cast<ConstantInt>(st->getOperand(0))->getZExtValue(), getFn(f)}); }
    std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
    auto it = byName.find(opt.entry); if (it == byName.end() || it->second->isDecl) die("no entry " + opt.entry);
    pushFrame(s, it->second, {}, R_MAINEND, 0, -1, false, 0, 0);
    for (size_t i = cs.size(); i-- > 0;) pushFrame(s, cs[i].second, {}, R_CTOR, 0, -1, false, 0, 0);
  }

  // ---------- decoding
  void decode(Fn* f) {
    f->decoded = true; Function& F = *f->f;
    std::unordered_map<const Value*, int32_t> slot; uint32_t n = 0;
    for (auto& a : F.args()) { slot[&a] = n; vector<uint8_t> w; vector<uint32_t> o; flat(a.getType(), w, o); for (auto x : w) f->argw.push_back(x); n += w.size(); }
    f->nargs = n;
    for (auto& b : F) for (auto& i : b) if (!i.getType()->isVoidTy()) { slot[&i] = n; n += nslots(i.getType()); }
    f->nslots = n;
    std::unordered_map<const BasicBlock*, uint32_t> bpc;
    auto konst = [&](V v) { f->consts.push_back(v); return ~(int32_t)(f->consts.size() - 1); };
    // operand k-th slot
    std::function<int32_t(const Value*, unsigned)> opnd = [&](const Value* v, unsigned k) -> int32_t {
      auto it = slot.find(v); if (it != slot.end()) return it->second + k;
      auto* c = dyn_cast<Constant>(v); if (!c) { if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return konst(cv(0)); die("operand"); }
      vector<uint8_t> w; vector<uint32_t> o; flat(c->getType(), w, o);
      if (w.size() == 1 && !c->getType()->isAggregateType() && !c->getType()->isVectorTy()) { if (isa<UndefValue>(c)) return konst(V{0, X.var(UNDEF_BASE + w[0], w[0] ? w[0] : 64)}); return konst(cv(constVal(c) & maskw(w[0]))); }
      if (isa<UndefValue>(c)) return konst(V{0, X.var(UNDEF_BASE + w[k], w[k])});
      vector<uint8_t> bytes(DL->getTypeAllocSize(c->getType()) + 8, 0); initBytes(c, bytes.data()); uint64_t x; memcpy(&x, &bytes[o[k]], 8); return konst(cv(x & maskw(w[k])));
    };
    auto wOf = [&](const Value* v) { return (uint8_t)width(v->getType()); };
    std::map<std::pair<const BasicBlock*, const BasicBlock*>, uint32_t> edge; vector<std::pair<const BasicBlock*, const BasicBlock*>> edgeList;
    auto getEdge = [&](const BasicBlock* from, const BasicBlock* to) { auto k = std::make_pair(from, to); auto it = edge.find(k); if (it != edge.end()) return it->second; uint32_t e = f->edges.size(); f->edges.emplace_back(); edge[k] = e; edgeList.push_back(k); return e; };
    for (auto& b : F) {
      bpc[&b] = f->code.size();
      for (auto& i : b) {
        if (isa<PHINode>(i)) continue;
        if (isa<DbgInfoIntrinsic>(i)) continue;
        Inst x; x.op = I_UNSUP; x.src = &i; if (!i.getType()->isVoidTy()) { x.dst = slot[&i]; flat(i.getType(), x.ws, x.offs); } x.w = wOf(&i);
        for (auto w : x.ws) if (w == 0) { x.op = I_UNSUP; goto push; }
        switch (i.getOpcode()) {
        case Instruction::Ret: { x.op = I_RET; auto* rv = cast<ReturnInst>(i).getReturnValue(); if (rv) { unsigned k = nslots(rv->getType()); for (unsigned j = 0; j < k; j++) x.args.push_back(opnd(rv, j)); } break; }
        case Instruction::Br: { auto& br = cast<BranchInst>(i); if (br.isConditional()) { x.op = I_CBR; x.a = opnd(br.getCondition(), 0); x.e1 = getEdge(&b, br.getSuccessor(0)); x.e2 = getEdge(&b, br.getSuccessor(1)); } else { x.op = I_BR; x.e1 = getEdge(&b, br.getSuccessor(0)); } break; }
        case Instruction::Switch: { auto& sw = cast<SwitchInst>(i); x.op = I_SWITCH; x.a = opnd(sw.getCondition(), 0); x.w = wOf(sw.getCondition()); x.e1 = getEdge(&b, sw.getDefaultDest()); for (auto& c : sw.cases()) x.cases.push_back({constVal(c.getCaseValue()), getEdge(&b, c.getCaseSuccessor())}); break; }
        case Instruction::Unreachable: x.op = I_UNREACH; break;
        case Instruction::Resume: x.op = I_RESUME; x.a = opnd(i.getOperand(0), 0); break;
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
        case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
          if (i.getType()->isVectorTy()) break;
          static const std::map<unsigned, Op> m = {{Instruction::Add, O_ADD}, {Instruction::Sub, O_SUB}, {Instruction::Mul, O_MUL}, {Instruction::UDiv, O_UDIV}, {Instruction::SDiv, O_SDIV}, {Instruction::URem, O_UREM}, {Instruction::SRem, O_SREM}, {Instruction::And, O_AND}, {Instruction::Or, O_OR}, {Instruction::Xor, O_XOR}, {Instruction::Shl, O_SHL}, {Instruction::LShr, O_LSHR}, {Instruction::AShr, O_ASHR}};
          x.op = I_BIN; x.sub = m.at(i.getOpcode()); x.a = opnd(i.getOperand(0), 0); x.b = opnd(i.getOperand(1), 0); break; }
        case Instruction::Alloca: { auto& al = cast<AllocaInst>(i); x.op = I_ALLOCA; x.imm = DL->getTypeAllocSize(al.getAllocatedType()); x.a = opnd(al.getArraySize(), 0); break; }
        case Instruction::Load: { auto& l = cast<LoadInst>(i); x.op = I_LOAD; x.a = opnd(l.getPointerOperand(), 0); x.atomic = l.isAtomic(); break; }
        case Instruction::Store: { auto& s = cast<StoreInst>(i); x.op = I_STORE; flat(s.getValueOperand()->getType(), x.ws, x.offs); for (auto w : x.ws) if (!w) goto push; x.a = opnd(s.getPointerOperand(), 0); for (unsigned k = 0; k < x.ws.size(); k++) x.args.push_back(opnd(s.getValueOperand(), k)); x.atomic = s.isAtomic(); break; }
        case Instruction::GetElementPtr: {
          auto& g = cast<GetElementPtrInst>(i); if (i.getType()->isVectorTy()) break; x.op = I_GEP; x.a = opnd(g.getPointerOperand(), 0); uint64_t off = 0;
          for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) { Value* idx = it.getOperand(); if (auto* st = it.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); else { uint64_t sz = DL->getTypeAllocSize(it.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(idx)) off += ci->getSExtValue() * sz; else { x.args.push_back(opnd(idx, 0)); x.cases.push_back({width(idx->getType()), sz}); } } }
          x.imm = off; break; }
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: if (i.getType()->isVectorTy()) break; x.op = i.getOpcode() == Instruction::Trunc ? I_TRUNC : i.getOpcode() == Instruction::ZExt ? I_ZEXT : I_SEXT; x.a = opnd(i.getOperand(0), 0); x.w2 = wOf(i.getOperand(0)); break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: { unsigned sw = wOf(i.getOperand(0)); x.a = opnd(i.getOperand(0), 0); x.w2 = sw; x.op = x.w == sw ? I_COPY : x.w < sw ? I_TRUNC : I_ZEXT; break; }
        case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: { if (i.getType()->isVectorTy() || i.getOperand(0)->getType()->isVectorTy()) break; x.op = I_COPY; x.a = opnd(i.getOperand(0), 0); break; }
        case Instruction::ICmp: if (i.getOperand(0)->getType()->isVectorTy()) break; x.op = I_ICMP; x.sub = cast<ICmpInst>(i).getPredicate(); x.a = opnd(i.getOperand(0), 0); x.b = opnd(i.getOperand(1), 0); x.w2 = wOf(i.getOperand(0)); if (!x.w2) goto unsup; break;
        case Instruction::Select: { if (i.getOperand(0)->getType()->isVectorTy()) break; x.op = I_SELECT; x.a = opnd(i.getOperand(0), 0); for (unsigned k = 0; k < x.ws.size(); k++) { x.args.push_back(opnd(i.getOperand(1), k)); x.args.push_back(opnd(i.getOperand(2), k)); } break; }
        case Instruction::ExtractValue: { auto& ev = cast<ExtractValueInst>(i); x.op = I_EXTRACTV; unsigned k = aggIndex(ev.getAggregateOperand()->getType(), ev.getIndices()); for (unsigned j = 0; j < x.ws.size(); j++) x.args.push_back(opnd(ev.getAggregateOperand(), k + j)); break; }
        case Instruction::InsertValue: { auto& iv = cast<InsertValueInst>(i); x.op = I_EXTRACTV; unsigned k = aggIndex(iv.getType(), iv.getIndices()); unsigned n2 = nslots(iv.getInsertedValueOperand()->getType()); for (unsigned j = 0; j < x.ws.size(); j++) x.args.push_back(j >= k && j < k + n2 ? opnd(iv.getInsertedValueOperand(), j - k) : opnd(iv.getAggregateOperand(), j)); break; }
        case Instruction::LandingPad: { auto& lp = cast<LandingPadInst>(i); x.op = I_LANDING; x.imm = lp.isCleanup(); for (unsigned k = 0; k < lp.getNumClauses(); k++) { if (lp.isCatch(k)) x.cases.push_back({0, constVal(lp.getClause(k))}); else x.cases.push_back({1, 0}); } break; }
        case Instruction::Fence: x.op = I_FENCE; break;
        case Instruction::AtomicCmpXchg: { auto& cx = cast<AtomicCmpXchgInst>(i); x.op = I_CMPXCHG; x.a = opnd(cx.getPointerOperand(), 0); x.b = opnd(cx.getCompareOperand(), 0); x.c = opnd(cx.getNewValOperand(), 0); x.w2 = wOf(cx.getCompareOperand()); break; }
        case Instruction::AtomicRMW: { auto& rm = cast<AtomicRMWInst>(i); x.op = I_RMW; x.sub = rm.getOperation(); x.a = opnd(rm.getPointerOperand(), 0); x.b = opnd(rm.getValOperand(), 0); break; }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FCmp: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::FNeg:
          if (i.getType()->isVectorTy()) break; x.op = I_FP; x.sub = i.getOpcode(); x.w2 = wOf(i.getOperand(0)); if (!x.w2 || !x.w) goto unsup; x.a = opnd(i.getOperand(0), 0); if (i.getNumOperands() > 1) x.b = opnd(i.getOperand(1), 0); if (auto* fc = dyn_cast<FCmpInst>(&i)) x.imm = fc->getPredicate(); break;
        case Instruction::Call: case Instruction::Invoke: {
          auto& cb = cast<CallBase>(i); if (cb.isInlineAsm()) { auto* ia = cast<InlineAsm>(cb.getCalledOperand()); if (ia->getAsmString().empty() || ia->getAsmString().find("pause") != string::npos) x.op = I_NOP; else break; if (isa<InvokeInst>(i)) { x.op = I_BR; x.e1 = getEdge(&b, cast<InvokeInst>(i).getNormalDest()); } break; }
          x.op = I_CALL; Value* co = cb.getCalledOperand()->stripPointerCasts(); if (auto* ga = dyn_cast<GlobalAlias>(co)) co = ga->getAliaseeObject(); if (auto* cf = dyn_cast<Function>(co)) x.callee = getFn(cf); else x.a = opnd(cb.getCalledOperand(), 0);
          for (auto& a : cb.args()) { if (a->getType()->isMetadataTy()) continue; unsigned k = nslots(a->getType()); if (cb.isByValArgument(cb.getArgOperandNo(&a))) { x.cases.push_back({x.args.size(), DL->getTypeAllocSize(cb.getParamByValType(cb.getArgOperandNo(&a)))}); } for (unsigned j = 0; j < k; j++) x.args.push_back(opnd(a, j)); }
          if (auto* inv = dyn_cast<InvokeInst>(&i)) { x.imm = 1; x.e1 = getEdge(&b, inv->getNormalDest()); x.e2 = getEdge(&b, inv->getUnwindDest()); }
          if (auto* mi = dyn_cast<IntrinsicInst>(&i)) { x.sub = mi->getIntrinsicID(); for (auto& a : cb.args()) x.cases.push_back({0, width(a->getType())}); }
          break; }
        default: unsup: x.op = I_UNSUP; break;
        }
      push:
        f->code.push_back(std::move(x));
      }
    }
    for (size_t k = 0; k < edgeList.size(); k++) { Edge& e = f->edges[k]; e.pc = bpc[edgeList[k].second]; for (auto& ph : edgeList[k].second->phis()) { unsigned n2 = nslots(ph.getType()); Value* v = ph.getIncomingValueForBlock(edgeList[k].first); for (unsigned j = 0; j < n2; j++) e.moves.push_back({slot[&ph] + (int)j, opnd(v, j)}); } }
  }
  unsigned aggIndex(Type* t, ArrayRef<unsigned> idx) { unsigned k = 0; for (unsigned i : idx) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) k += nslots(st->getElementType(j)); t = st->getElementType(i); } else { auto* at = cast<ArrayType>(t); k += i * nslots(at->getElementType()); t = at->getElementType(); } } return k; }

  // ---------- state helpers
  Thread& T(S& s) { return s.th[s.cur]; }
  void pushFrame(S& s, Fn* f, const vector<V>& args, RetAct ra, uint64_t rd, int32_t dst, bool inv, uint32_t ne, uint32_t ue) {
    if (!f->decoded) decode(f);
    Thread& t = T(s); if (t.fr.size() >= opt.maxDepth) violation(s, "stack-overflow", "call depth limit exceeded (unbounded recursion)");
    Frame fr{f, 0, (uint32_t)t.regs.size(), (uint32_t)t.allocas.size(), ra, rd, dst, inv, ne, ue};
    t.regs.resize(t.regs.size() + f->nslots, V{0, nullptr});
    for (size_t i = 0; i < args.size() && i < f->nargs; i++) t.regs[fr.regs + i] = args[i];
    t.fr.push_back(fr); f->hits++;
  }
  void popFrame(S& s) { Thread& t = T(s); Frame& f = t.fr.back(); for (size_t i = f.allocas; i < t.allocas.size(); i++) s.mem.del(t.allocas[i]); t.allocas.resize(f.allocas); t.regs.resize(f.regs); t.fr.pop_back(); }
  string locOf(const Inst* i) { if (!i || !i->src) return ""; DebugLoc d = i->src->getDebugLoc(); if (!d) return ""; string r; auto* sc = d.get(); r = sc->getFilename().str() + ":" + std::to_string(d.getLine()); return r; }
  vector<string> backtrace(S& s) {
    vector<string> r; Thread& t = T(s);
    for (size_t i = t.fr.size(); i-- > 0 && r.size() < 40;) { auto& f = t.fr[i]; uint32_t pc = i + 1 == t.fr.size() ? f.pc : f.pc - 1; if (pc >= f.f->code.size()) pc = 0; const Inst& in = f.f->code.empty() ? *(const Inst*)nullptr : f.f->code[pc];
      DILocation* d = in.src ? in.src->getDebugLoc().get() : nullptr; if (!d) { r.push_back(f.f->dname); continue; }
      while (d && r.size() < 40) { auto* sp = d->getScope()->getSubprogram(); r.push_back((sp ? (sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str())) : string("?")) + " at " + d->getFilename().str() + ":" + std::to_string(d->getLine())); d = d->getInlinedAt(); } }
    return r;
  }
  vector<uint32_t> inputs(S& s) { vector<uint32_t> r; for (auto m : s.model) r.push_back((uint32_t)m); return r; }
  [[noreturn]] void violation(S& s, const string& kind, const string& msg) { report(s, kind, msg); throw PathEnd{2}; }
  void report(S& s, const string& kind, const string& msg) {
    Viol v; v.kind = kind; v.msg = msg; v.stack = backtrace(s); v.loc = v.stack.empty() ? "" : v.stack[0]; v.in = inputs(s);
    string key = kind + "|" + msg + "|" + v.loc; if (!violKeys.insert(key).second && viols.size() > 0) { return; }
    viols.push_back(v); if (sh) { __sync_fetch_and_add(&sh->viol, 1); if ((int)sh->viol >= opt.maxViol) sh->stop = 1; } else if ((int)viols.size() >= opt.maxViol) timedOut = true;
  }
  uint64_t evalM(S& s, E e) { auto get = [&](uint32_t i) -> uint64_t { if (i >= UNDEF_BASE) { uint32_t k = i - UNDEF_BASE; return k < s.umodel.size() ? s.umodel[k] : 0; } return i < s.model.size() ? s.model[i] : 0; }; return X.eval(e, get); }
  uint64_t evalV(S& s, V v) { return v.e ? evalM(s, v.e) : v.c; }
  void applyModel(S& s, const Model& m) { for (auto& p : m.v) { if (p.first >= UNDEF_BASE) { uint32_t k = p.first - UNDEF_BASE; if (k >= s.umodel.size()) s.umodel.resize(k + 1, 0); s.umodel[k] = p.second; } else { if (p.first >= s.model.size()) s.model.resize(p.first + 1, 0); s.model[p.first] = p.second; } } }
  S* fork(S& s) { S* o = new S(s); nForks++; return o; }
  void addC(S& s, E e) { if (e->op == O_CONST) return; s.pc.push_back(e); }
  // decide a condition; forks if both are feasible. 'retry' state re-executes the instruction (pc still at the current instruction)
  // returns the truth value for the current state
  bool decide(S& s, E c, uint32_t pcBack) {
    if (c->op == O_CONST) return c->val;
    bool cur = evalM(s, c); E other = cur ? X.notE(c) : c; Model m;
    if (solver.check(s.pc, other, &m)) {
      if (c->undef && opt.undefCheck) { report(s, "uninitialised", "behaviour depends on uninitialised memory"); }
      S* o = fork(s); addC(*o, other); applyModel(*o, m); T(*o).fr.back().pc = pcBack; o->depth++; work.push_back(o);
      addC(s, cur ? c : X.notE(c)); s.depth++;
    }
    return cur;
  }
  uint64_t concretize(S& s, V v, unsigned w, uint32_t pcBack) {
    if (!v.e) return v.c;
    uint64_t k = evalM(s, v.e); E eq = X.bin(O_EQ, v.e, X.con(k, w)); if (eq->op == O_CONST) return k;
    Model m; E ne = X.notE(eq);
    if (solver.check(s.pc, ne, &m)) { S* o = fork(s); addC(*o, ne); applyModel(*o, m); T(*o).fr.back().pc = pcBack; o->depth++; work.push_back(o); addC(s, eq); s.depth++; }
    return k;
  }
  uint32_t curPc(S& s) { return T(s).fr.back().pc - 1; }

  // ---------- memory
  struct Ref { Obj* o; uint32_t id, off; bool isConst; };
  Ref resolve(S& s, uint64_t a, uint64_t n, bool write) {
    uint32_t id1 = a >> 32, off = (uint32_t)a;
    if (id1 == 0) violation(s, "null-deref", a == 0 ? "null pointer dereference" : "dereference of an invalid small address");
    uint32_t id = id1 - 1;
    if (id < nFn) violation(s, "bad-access", "data access to a function address");
    if (id < stateBase) { Obj* o = constObjs[id - nFn]; if (write) violation(s, "write-const", "write to constant memory"); if ((uint64_t)off + n > o->size) violation(s, "out-of-bounds", "read outside a constant object"); return {o, id, off, true}; }
    Obj* o = s.mem.get(id);
    if (!o) { if (id - stateBase < s.mem.next) violation(s, "use-after-free", write ? "write to memory that was freed or went out of scope" : "read of memory that was freed or went out of scope"); violation(s, "wild-pointer", "access through a wild pointer"); }
    if ((uint64_t)off + n > o->size) violation(s, "out-of-bounds", write ? "write outside an object" : "read outside an object");
    if (write) o = s.mem.wget(id);
    return {o, id, off, false};
  }
  void race(S& s, Ref& r, uint32_t n, bool write) {
    if (s.th.size() < 2 || r.isConst) return;
    Obj* o = r.o->sh && !write && 0 ? r.o : s.mem.wget(r.id); r.o = o; if (!o->sh) o->sh = new vector<Cell>(o->size);
    Thread& t = T(s); uint32_t me = s.cur;
    for (uint32_t i = r.off; i < r.off + n; i++) { Cell& c = (*o->sh)[i];
      if (c.wclk && c.wt != me && c.wclk > t.vc[c.wt]) violation(s, "data-race", write ? "unsynchronised write after write by another thread" : "unsynchronised read of data written by another thread");
      if (write) { for (uint32_t k = 0; k < MAXT; k++) if (k != me && c.r[k] > t.vc[k]) violation(s, "data-race", "unsynchronised write to data read by another thread"); c.wclk = t.vc[me]; c.wt = me; }
      else c.r[me] = t.vc[me]; }
  }
  V loadV(S& s, uint64_t a, unsigned w, bool atomic = false) {
    unsigned n = (w + 7) / 8; Ref r = resolve(s, a, n, false); if (!atomic) race(s, r, n, false);
    Obj* o = r.o; uint8_t* p = o->b + r.off; nMem++;
    bool allc = true; if (o->m) for (unsigned i = 0; i < n; i++) if (o->m[r.off + i]) { allc = false; break; }
    if (allc) { uint64_t v = 0; memcpy(&v, p, n); return cv(v & maskw(w)); }
    // same symbolic source?
    if (o->sym) { bool same = true; E e0 = nullptr; for (unsigned i = 0; i < n && same; i++) { if (o->m[r.off + i] != 2) same = false; else { auto& sb = (*o->sym)[r.off + i]; if (i == 0) { e0 = sb.e; if (sb.idx) same = false; } else if (sb.e != e0 || sb.idx != i) same = false; } } if (same && (e0->w + 7u) / 8 == n && e0->w >= w) return X.val(X.extract(e0, 0, w)); }
    E r2 = nullptr;
    for (unsigned i = 0; i < n; i++) { E by; uint8_t k = o->m[r.off + i]; if (k == 0) by = X.con(p[i], 8); else if (k == 1) { by = X.var(UNDEF_BASE + 1000 + (uint32_t)((s.undefCount++) % 4000), 8); } else { auto& sb = (*o->sym)[r.off + i]; E e = sb.e; if (e->w < 8u * (sb.idx + 1)) e = X.zext(e, 8 * (sb.idx + 1)); by = X.extract(e, 8 * sb.idx, 8); } r2 = r2 ? X.concat(by, r2) : by; }
    return X.val(X.extract(r2, 0, w));
  }
  void storeV(S& s, uint64_t a, V v, unsigned w, bool atomic = false) {
    unsigned n = (w + 7) / 8; Ref r = resolve(s, a, n, true); if (!atomic) race(s, r, n, true); nMem++;
    putV(r.o, r.off, v, w, n);
  }
  void putV(Obj* o, uint32_t off, V v, unsigned w, unsigned n) {
    if (!v.e) { memcpy(o->b + off, &v.c, n); if (o->m) memset(o->m + off, 0, n); return; }
    if (!o->m) { o->m = (uint8_t*)calloc(1, o->size ? o->size : 1); }
    if (v.e->op == O_VAR && v.e->undef) { memset(o->m + off, 1, n); return; }
    if (!o->sym) o->sym = new vector<SymByte>(o->size, SymByte{nullptr, 0});
    if (n == 1 || (v.e->op != O_CONCAT && v.e->op != O_ZEXT && v.e->op != O_OR && v.e->op != O_AND && v.e->op != O_SHL && v.e->op != O_EXTRACT)) { for (unsigned i = 0; i < n; i++) { o->m[off + i] = 2; (*o->sym)[off + i] = SymByte{v.e, (uint8_t)i}; } return; }
    E z = X.zext(v.e, 8 * n); // byte by byte, so that copies of a value look alike however they were made
    for (unsigned i = 0; i < n; i++) { E b = X.extract(z, 8 * i, 8);
      if (b->op == O_CONST) { o->m[off + i] = 0; o->b[off + i] = (uint8_t)b->val; } else if (b->op == O_VAR && b->undef) o->m[off + i] = 1;
      else { o->m[off + i] = 2; if (b->op == O_EXTRACT && b->val % 8 == 0) (*o->sym)[off + i] = SymByte{b->a, (uint8_t)(b->val / 8)}; else (*o->sym)[off + i] = SymByte{b, 0}; } }
  }
  uint64_t alloc(S& s, uint64_t n, Kind k) { Obj* o = new Obj(n, k, true);
    if (opt.reuse && (k == K_MALLOC || k == K_NEW || k == K_NEWARR)) for (size_t i = s.freed.size(); i-- > 0;) if (s.freed[i].first == n) { uint32_t id = s.freed[i].second; s.freed.erase(s.freed.begin() + i); s.mem.put(id, o); return ((uint64_t)id + 1) << 32; }
    uint32_t id = s.mem.add(o); return ((uint64_t)id + 1) << 32; }
  void copyMem(S& s, uint64_t d, uint64_t a, uint64_t n) {
    if (!n) return; Ref src = resolve(s, a, n, false); race(s, src, n, false); Ref dst = resolve(s, d, n, true); race(s, dst, n, true); src = resolve(s, a, n, false); // re-resolve: dst write may have unshared it
    nMem++;
    Obj *x = src.o, *y = dst.o;
    if (x->m) { if (!y->m) y->m = (uint8_t*)calloc(1, y->size ? y->size : 1); } 
    if (x->sym && !y->sym) y->sym = new vector<SymByte>(y->size, SymByte{nullptr, 0});
    if (y->m) { if (x->m) memmove(y->m + dst.off, x->m + src.off, n); else memset(y->m + dst.off, 0, n); }
    if (x->sym) { vector<SymByte> t(x->sym->begin() + src.off, x->sym->begin() + src.off + n); std::copy(t.begin(), t.end(), y->sym->begin() + dst.off); }
    memmove(y->b + dst.off, x->b + src.off, n);
  }
  string cstr(S& s, uint64_t a) { string r; if (!a) return "(null)"; for (;;) { V v = loadV(s, a++, 8); char c = (char)evalV(s, v); if (!c || r.size() > 2000) break; r += c; } return r; }

  // ---------- operators
  V bin(Op op, V a, V b, unsigned w) { if (!a.e && !b.e) return cv(Exprs::fold(op, w, a.c, b.c)); return X.val(X.bin(op, X.ex(a, w), X.ex(b, w))); }
  // sizes of objects whose addresses were compared: their allocation order stays part of the canonical state
  void ordered(S& s, uint64_t p) { Obj* o = s.mem.get((uint32_t)(p >> 32) - 1); if (!o) return; if (std::find(s.ptrOrder.begin(), s.ptrOrder.end(), o->size) == s.ptrOrder.end()) { s.ptrOrder.push_back(o->size); std::sort(s.ptrOrder.begin(), s.ptrOrder.end()); } }
  V icmp(S* st, unsigned p, V a, V b, unsigned w) {
    if (st && w == 64 && p != CmpInst::ICMP_EQ && p != CmpInst::ICMP_NE) { if (a.e || b.e) { } else if ((a.c >> 32) > stateBase && (b.c >> 32) > stateBase && (a.c >> 32) != (b.c >> 32)) { ordered(*st, a.c); ordered(*st, b.c); } }
    return icmp(p, a, b, w); }
  V icmp(unsigned p, V a, V b, unsigned w) {
    auto mk = [&](Op op, V x, V y) { return bin(op, x, y, w); }; auto neg = [&](V v) { return v.e ? X.val(X.notE(v.e)) : cv(!v.c); };
    switch (p) { case CmpInst::ICMP_EQ: return mk(O_EQ, a, b); case CmpInst::ICMP_NE: return neg(mk(O_EQ, a, b)); case CmpInst::ICMP_ULT: return mk(O_ULT, a, b); case CmpInst::ICMP_ULE: return mk(O_ULE, a, b); case CmpInst::ICMP_UGT: return mk(O_ULT, b, a); case CmpInst::ICMP_UGE: return mk(O_ULE, b, a);
    case CmpInst::ICMP_SLT: return mk(O_SLT, a, b); case CmpInst::ICMP_SLE: return mk(O_SLE, a, b); case CmpInst::ICMP_SGT: return mk(O_SLT, b, a); case CmpInst::ICMP_SGE: return mk(O_SLE, b, a); } die("icmp"); }
  V castV(IOp op, V a, unsigned from, unsigned to) {
    if (!a.e) { if (op == I_SEXT) return cv((uint64_t)sx64(a.c, from) & maskw(to)); return cv(a.c & maskw(to) & maskw(from)); }
    E e = a.e; return X.val(op == I_TRUNC ? X.extract(e, 0, to) : op == I_ZEXT ? X.zext(e, to) : X.sext(e, to)); }

  // ---------- exceptions
  uint64_t ld64(S& s, uint64_t a) { V v = loadV(s, a, 64); if (v.e) die("symbolic type information"); return v.c; }
  uint32_t ld32(S& s, uint64_t a) { V v = loadV(s, a, 32); if (v.e) die("symbolic type information"); return (uint32_t)v.c; }
  int tiKind(S& s, uint64_t ti) { uint64_t v = ld64(s, ti) >> 32; if (ti_class && v == ti_class >> 32) return 0; if (ti_si && v == ti_si >> 32) return 1; if (ti_vmi && v == ti_vmi >> 32) return 2; return -1; }
  struct Base { uint64_t ti; int64_t off; bool pub, virt; };
  vector<Base> bases(S& s, uint64_t ti) {
    int k = tiKind(s, ti); if (k == 1) return {{ld64(s, ti + 16), 0, true, false}};
    vector<Base> r; if (k == 2) { uint32_t n = ld32(s, ti + 20); for (uint32_t i = 0; i < n; i++) { uint64_t b = ld64(s, ti + 24 + 16 * i); int64_t f = (int64_t)ld64(s, ti + 32 + 16 * i); r.push_back({b, f >> 8, (f & 2) != 0, (f & 1) != 0}); } } return r; }
  bool sameTi(S& s, uint64_t a, uint64_t b) { return a == b; }
  bool upcast(S& s, uint64_t ti, uint64_t target, uint64_t obj, uint64_t& out) { // public base search
    if (sameTi(s, ti, target)) { out = obj; return true; }
    for (auto& b : bases(s, ti)) if (b.pub) { int64_t off = b.off; if (b.virt) { uint64_t vp = ld64(s, obj); off = (int64_t)ld64(s, vp + off); } if (upcast(s, b.ti, target, obj + off, out)) return true; }
    return false; }
  void subobjs(S& s, uint64_t ti, uint64_t obj, bool pub, uint64_t target, vector<std::pair<uint64_t, bool>>& out) {
    if (sameTi(s, ti, target)) { for (auto& o : out) if (o.first == obj) { o.second |= pub; return; } out.push_back({obj, pub}); return; }
    for (auto& b : bases(s, ti)) { int64_t off = b.off; if (b.virt) { uint64_t vp = ld64(s, obj); off = (int64_t)ld64(s, vp + off); } subobjs(s, b.ti, obj + off, pub && b.pub, target, out); } }
  uint64_t dynCast(S& s, uint64_t src, uint64_t st, uint64_t dt) {
    uint64_t vp = ld64(s, src); int64_t ott = (int64_t)ld64(s, vp - 16); uint64_t mti = ld64(s, vp - 8); uint64_t md = src + ott;
    vector<std::pair<uint64_t, bool>> d; subobjs(s, mti, md, true, dt, d);
    uint64_t found = 0; int cnt = 0;
    for (auto& o : d) { vector<std::pair<uint64_t, bool>> b; subobjs(s, dt, o.first, true, st, b); for (auto& x : b) if (x.first == src && x.second) { found = o.first; cnt++; } }
    if (cnt == 1) return found;
    vector<std::pair<uint64_t, bool>> b; subobjs(s, mti, md, true, st, b); bool srcPub = false; for (auto& x : b) if (x.first == src) srcPub = x.second;
    if (srcPub && d.size() == 1 && d[0].second) return d[0].first;
    return 0; }
  Exc* findExc(S& s, uint64_t o) { for (auto& e : s.exc) if (e.obj == o) return &e; return nullptr; }
  void freeExc(S& s, uint64_t obj) { for (size_t i = 0; i < s.exc.size(); i++) if (s.exc[i].obj == obj) { s.exc.erase(s.exc.begin() + i); break; } s.mem.del((obj >> 32) - 1); }
  // unwind with exception obj; current frame stack's top frame is the thrower (popped as needed)
  // 'fromTop': the top frame itself executed the throwing call; check its invoke info first.
  void unwind(S& s, uint64_t obj) {
    Thread& t = T(s); Exc* ex = findExc(s, obj); if (!ex) die("unwind of unknown exception");
    for (;;) {
      if (t.fr.empty()) die("unwind: no frame");
      Frame& f = t.fr.back(); const Inst& in = f.f->code[f.pc - 1]; // the call that throws
      if (in.op == I_CALL && in.imm == 1) {
        uint32_t edge = in.e2; const Edge& ed = f.f->edges[edge]; // landing pad block
        const Inst* lp = nullptr; for (uint32_t k = ed.pc; k < f.f->code.size(); k++) if (f.f->code[k].op == I_LANDING) { lp = &f.f->code[k]; break; }
        if (!lp) die("no landingpad");
        bool match = false; uint64_t sel = 0, adj = obj;
        for (auto& c : lp->cases) { if (c.first == 1) { violation(s, "terminate", "exception violates an exception specification"); }
          if (c.second == 0) { match = true; sel = 1; adj = excAdj(s, ex); break; }
          uint64_t out; if (catches(s, c.second, ex, out)) { match = true; sel = c.second >> 32; adj = out; break; } }
        if (match || lp->imm) {
          ex = findExc(s, obj); if (match) ex->adj = adj; else sel = 0;
          takeEdge(s, edge); // moves phis, sets pc
          Frame& f2 = t.fr.back(); // landing instruction results
          f2.pc = (uint32_t)(lp - &f2.f->code[0]) + 1; t.regs[f2.regs + lp->dst] = cv(obj); t.regs[f2.regs + lp->dst + 1] = cv(sel & 0xffffffff); return; }
      }
      RetAct ra = f.ra; popFrame(s);
      if (ra != R_NORMAL || t.fr.empty()) { if (ra == R_FREEEXC) violation(s, "terminate", "exception leaves the destructor of an exception object"); if (t.fr.empty() || ra == R_MAINEND || ra == R_CTOR) { violation(s, "uncaught-exception", "an exception leaves the entry point uncaught: " + tiName(s, ex->ti)); } violation(s, "uncaught-exception", "an exception leaves a thread function"); }
    }
  }
  string tiName(S& s, uint64_t ti) { auto it = addrName.find(ti); return it == addrName.end() ? "?" : demangle(it->second); }
  uint64_t excAdj(S&, Exc* e) { return e->obj; }
  bool isPtrTi(uint64_t ti) { auto it = addrName.find(ti); return it != addrName.end() && it->second.rfind("_ZTIP", 0) == 0; }
  bool catches(S& s, uint64_t ti, Exc* ex, uint64_t& out) {
    if (isPtrTi(ti)) { if (ti == ex->ti) { out = ld64(s, ex->obj); return true; } return false; }
    if (ti == ex->ti) { out = ex->obj; return true; }
    if (tiKind(s, ex->ti) < 0) return false;
    return upcast(s, ex->ti, ti, ex->obj, out); }
  void takeEdge(S& s, uint32_t e) {
    Thread& t = T(s); Frame& f = t.fr.back(); const Edge& ed = f.f->edges[e]; size_t n = ed.moves.size();
    if (n == 1) t.regs[f.regs + ed.moves[0].first] = get(t, f, ed.moves[0].second);
    else if (n) { V tmp[64]; vector<V> big; V* p = tmp; if (n > 64) { big.resize(n); p = big.data(); } for (size_t i = 0; i < n; i++) p[i] = get(t, f, ed.moves[i].second); for (size_t i = 0; i < n; i++) t.regs[f.regs + ed.moves[i].first] = p[i]; }
    f.pc = ed.pc; }
  V get(Thread& t, Frame& f, int32_t o) { return o >= 0 ? t.regs[f.regs + o] : f.f->consts[~o]; }

#include "builtins.hpp"
#include "canon.hpp"
#include "exec.hpp"
#include "driver.hpp"
};

int main(int argc, char** argv) {
  vector<string> files; tStart = now();
  for (int i = 1; i < argc; i++) { string a = argv[i]; auto nx = [&]() { return string(argv[++i]); };
    if (a == "--out") opt.out = nx(); else if (a == "--procs") opt.procs = stoi(nx()); else if (a == "--time") opt.time = stod(nx()); else if (a == "--max-instr") opt.maxInstr = stoull(nx()); else if (a == "--frontier") opt.frontier = stoi(nx());
    else if (a == "--max-viol") opt.maxViol = stoi(nx()); else if (a == "--samples") opt.sampleCap = stoi(nx()); else if (a == "--no-atomic-yield") opt.atomicYield = false; else if (a == "--no-reduce") opt.noReduce = true; else if (a == "--spurious") opt.spurious = stoi(nx()); else if (a == "--preempt") opt.preempt = stoi(nx()); else if (a == "--entry") opt.entry = nx(); else if (a == "--no-merge") opt.noMerge = true; else if (a == "--reuse") opt.reuse = true; else if (a == "-v") opt.verbose = true; else if (a == "--no-undef") opt.undefCheck = false; else if (a == "--seed") opt.seed = stoull(nx()); else if (a == "--max-depth") opt.maxDepth = stoi(nx()); else if (a == "--max-steps") opt.maxSteps = stoi(nx());
    else files.push_back(a); }
  Engine* e = new Engine; e->rng ^= opt.seed * 0x9E3779B97F4A7C15ull; e->load(files); return e->drive();
}
