// The interpreter loop (included inside struct Engine).
BRes intrinsic(S& s, const Inst& in, vector<V>& a, V& r) {
  unsigned w = in.w; auto W = [&](unsigned i) { return (unsigned)in.cases[i].second; };
  auto A = [&](Op op, unsigned i, unsigned j, unsigned ww) { return bin(op, a[i], a[j], ww); };
  auto ITE = [&](V c, V t, V f, unsigned ww) -> V { if (!c.e) return c.c ? t : f; return X.val(X.ite(c.e, X.ex(t, ww), X.ex(f, ww))); };
  switch (in.sub) {
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return b_memcpy(s, in, a, r);
  case Intrinsic::memset: case Intrinsic::memset_inline: return b_memset(s, in, a, r);
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: { uint64_t p = a[1].c; uint32_t id = (p >> 32) - 1; if (a[1].e || id < stateBase) return B_DONE; Obj* o = s.mem.get(id); if (!o || o->kind != K_STACK) return B_DONE; o = s.mem.wget(id); if (!o->m) o->m = (uint8_t*)malloc(o->size ? o->size : 1); memset(o->m, 1, o->size); return B_DONE; }
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::ssa_copy: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::annotation: case Intrinsic::ptr_annotation: r = a[0]; return B_DONE;
  case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::invariant_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::sideeffect: case Intrinsic::stackrestore: case Intrinsic::var_annotation: case Intrinsic::pseudoprobe: return B_DONE;
  case Intrinsic::invariant_start: r = cv(0); return B_DONE; case Intrinsic::stacksave: r = cv(0); return B_DONE;
  case Intrinsic::is_constant: r = cv(0); return B_DONE;
  case Intrinsic::objectsize: r = cv(maskw(w)); return B_DONE;
  case Intrinsic::umax: r = ITE(A(O_ULT, 0, 1, w), a[1], a[0], w); return B_DONE; case Intrinsic::umin: r = ITE(A(O_ULT, 0, 1, w), a[0], a[1], w); return B_DONE;
  case Intrinsic::smax: r = ITE(A(O_SLT, 0, 1, w), a[1], a[0], w); return B_DONE; case Intrinsic::smin: r = ITE(A(O_SLT, 0, 1, w), a[0], a[1], w); return B_DONE;
  case Intrinsic::abs: { V neg = bin(O_SUB, cv(0), a[0], w); V lt = bin(O_SLT, a[0], cv(0), w); r = ITE(lt, neg, a[0], w); return B_DONE; }
  case Intrinsic::usub_sat: { V lt = A(O_ULT, 0, 1, w); r = ITE(lt, cv(0), A(O_SUB, 0, 1, w), w); return B_DONE; }
  case Intrinsic::uadd_sat: { V sum = A(O_ADD, 0, 1, w); r = ITE(bin(O_ULT, sum, a[0], w), cv(maskw(w)), sum, w); return B_DONE; }
  case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
    unsigned ww = W(0); V x, o; Thread& t = T(s); Frame& f = t.fr.back();
    if (in.sub == Intrinsic::uadd_with_overflow) { x = A(O_ADD, 0, 1, ww); o = bin(O_ULT, x, a[0], ww); }
    else if (in.sub == Intrinsic::usub_with_overflow) { x = A(O_SUB, 0, 1, ww); o = A(O_ULT, 0, 1, ww); }
    else { uint64_t p = conc(s, a[0], ww), q = conc(s, a[1], ww); __int128 v; bool sg = in.sub == Intrinsic::sadd_with_overflow || in.sub == Intrinsic::ssub_with_overflow || in.sub == Intrinsic::smul_with_overflow; __int128 P = sg ? (__int128)sx64(p, ww) : (__int128)p, Q = sg ? (__int128)sx64(q, ww) : (__int128)q; v = in.sub == Intrinsic::sadd_with_overflow ? P + Q : in.sub == Intrinsic::ssub_with_overflow ? P - Q : P * Q; uint64_t lo = (uint64_t)v & maskw(ww); x = cv(lo); o = cv(sg ? (__int128)sx64(lo, ww) != v : (v >> ww) != 0); }
    t.regs[f.regs + in.dst] = x; t.regs[f.regs + in.dst + 1] = o; return B_FRAME; }
  case Intrinsic::ctpop: r = cv(__builtin_popcountll(conc(s, a[0], w))); return B_DONE;
  case Intrinsic::ctlz: { uint64_t v = conc(s, a[0], w); r = cv(v ? __builtin_clzll(v) - (64 - w) : w); return B_DONE; }
  case Intrinsic::cttz: { uint64_t v = conc(s, a[0], w); r = cv(v ? __builtin_ctzll(v) : w); return B_DONE; }
  case Intrinsic::bswap: r = cv(__builtin_bswap64(conc(s, a[0], w)) >> (64 - w)); return B_DONE;
  case Intrinsic::fshl: case Intrinsic::fshr: { uint64_t x = conc(s, a[0], w), y = conc(s, a[1], w), z = conc(s, a[2], w) % w; uint64_t v; if (in.sub == Intrinsic::fshl) v = z ? (x << z) | (y >> (w - z)) : x; else v = z ? (y >> z) | (x << (w - z)) : y; r = cv(v & maskw(w)); return B_DONE; }
  case Intrinsic::ptrmask: r = bin(O_AND, a[0], a[1], 64); return B_DONE;
  case Intrinsic::eh_typeid_for: r = cv((a[0].c >> 32) & 0xffffffff); return B_DONE;
  case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: violation(s, "trap", "the program executes a trap");
  default: die("unsupported intrinsic " + in.callee->name); }
}

void step(S& s) { // runs until the state ends, switches or forks enough; throws PathEnd at the end
  for (;;) {
    Thread& t = T(s); Frame* f = &t.fr.back(); const Inst* code = f->f->code.data(); V* R = t.regs.data() + f->regs; const V* C = f->f->consts.data();
    auto G = [&](int32_t o) -> V { return o >= 0 ? R[o] : C[~o]; };
    for (;;) {
      const Inst& in = code[f->pc++];
      if (++s.instr > opt.maxInstr) violation(s, "non-termination", "the call does not terminate within the instruction bound");
      switch (in.op) {
      case I_BIN: { V a = G(in.a), b = G(in.b);
        if (in.sub == O_UDIV || in.sub == O_SDIV || in.sub == O_UREM || in.sub == O_SREM) { V z = bin(O_EQ, b, cv(0), in.w); if (!z.e ? z.c : decide(s, z.e, f->pc - 1)) violation(s, "div-by-zero", "division by zero"); }
        R[in.dst] = bin((Op)in.sub, a, b, in.w); break; }
      case I_ICMP: R[in.dst] = icmp(&s, in.sub, G(in.a), G(in.b), in.w2); break;
      case I_COPY: R[in.dst] = G(in.a); break;
      case I_TRUNC: case I_ZEXT: case I_SEXT: R[in.dst] = castV(in.op, G(in.a), in.w2, in.w); break;
      case I_SELECT: { V c = G(in.a); size_t n = in.ws.size(); if (!c.e) { for (size_t k = 0; k < n; k++) R[in.dst + k] = G(in.args[2 * k + (c.c ? 0 : 1)]); } else { for (size_t k = 0; k < n; k++) { V x = G(in.args[2 * k]), y = G(in.args[2 * k + 1]); R[in.dst + k] = X.val(X.ite(c.e, X.ex(x, in.ws[k]), X.ex(y, in.ws[k]))); } } break; }
      case I_GEP: { V p = G(in.a); if (in.imm) p = bin(O_ADD, p, cv(in.imm), 64); for (size_t k = 0; k < in.args.size(); k++) { V i = G(in.args[k]); i = castV(in.cases[k].first < 64 ? I_SEXT : I_TRUNC, i, in.cases[k].first, 64); if (in.cases[k].second != 1) i = bin(O_MUL, i, cv(in.cases[k].second), 64); p = bin(O_ADD, p, i, 64); } R[in.dst] = p; break; }
      case I_LOAD: { V p = G(in.a); if (in.atomic && in.w > 8 && opt.atomicYield && yieldPoint(s, p.e ? 0 : p.c)) goto reload;
        if (p.e && p.e->leaves && p.e->nleaves <= 16 && in.ws.size() == 1) { if (symLoad(s, p.e, in)) { f = &T(s).fr.back(); break; } }
        uint64_t a = p.e ? concretize(s, p, 64, f->pc - 1) : p.c; if (in.atomic) atomicSync(s, a); if (in.ws.size() == 1) R[in.dst] = loadV(s, a, in.w, in.atomic); else for (size_t k = 0; k < in.ws.size(); k++) R[in.dst + k] = loadV(s, a + in.offs[k], in.ws[k]); break; }
      case I_STORE: { V p = G(in.a); if (in.atomic && opt.atomicYield && yieldPoint(s, p.e ? 0 : p.c)) goto reload; uint64_t a = p.e ? concretize(s, p, 64, f->pc - 1) : p.c; if (in.atomic) atomicSync(s, a); for (size_t k = 0; k < in.ws.size(); k++) storeV(s, a + in.offs[k], G(in.args[k]), in.ws[k], in.atomic); break; }
      case I_ALLOCA: { uint64_t n = in.imm * conc(s, G(in.a)); uint64_t a = alloc(s, n, K_STACK); t.allocas.push_back((a >> 32) - 1); R[in.dst] = cv(a); break; }
      case I_EXTRACTV: { size_t n = in.args.size(); if (n == 1) R[in.dst] = G(in.args[0]); else { V tmp[16]; for (size_t k = 0; k < n; k++) tmp[k] = G(in.args[k]); for (size_t k = 0; k < n; k++) R[in.dst + k] = tmp[k]; } break; }
      case I_BR: takeEdge(s, in.e1); break;
      case I_CBR: { V c = G(in.a); bool b = c.e ? decide(s, c.e, f->pc - 1) : c.c; takeEdge(s, b ? in.e1 : in.e2); break; }
      case I_SWITCH: { V c = G(in.a); uint64_t v = c.e ? switchVal(s, c.e, in, f->pc - 1) : c.c; uint32_t e = in.e1; for (auto& k : in.cases) if (k.first == v) { e = k.second; break; } takeEdge(s, e); break; }
      case I_FENCE: case I_NOP: break;
      case I_CMPXCHG: { uint64_t a = conc(s, G(in.a)); if (opt.atomicYield && yieldPoint(s, a)) goto reload; atomicSync(s, a); V old = loadV(s, a, in.w2, true); V eq = bin(O_EQ, old, G(in.b), in.w2); bool e = eq.e ? decide(s, eq.e, f->pc - 1) : eq.c; if (e) storeV(s, a, G(in.c), in.w2, true); R[in.dst] = old; R[in.dst + 1] = cv(e); break; }
      case I_RMW: { uint64_t a = conc(s, G(in.a)); if (opt.atomicYield && yieldPoint(s, a)) goto reload; atomicSync(s, a); V old = loadV(s, a, in.w, true), v = G(in.b), n; switch (in.sub) { case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::Add: n = bin(O_ADD, old, v, in.w); break; case AtomicRMWInst::Sub: n = bin(O_SUB, old, v, in.w); break; case AtomicRMWInst::And: n = bin(O_AND, old, v, in.w); break; case AtomicRMWInst::Or: n = bin(O_OR, old, v, in.w); break; case AtomicRMWInst::Xor: n = bin(O_XOR, old, v, in.w); break; default: die("atomicrmw"); } storeV(s, a, n, in.w, true); R[in.dst] = old; break; }
      case I_FP: fp(s, in, R, G); break;
      case I_UNREACH: violation(s, "undefined-behaviour", "control reaches code the compiler proved unreachable (undefined behaviour)");
      case I_RESUME: { V e = G(in.a); uint64_t obj = e.c; RetAct ra = f->ra; popFrame(s); if (ra != R_NORMAL || t.fr.empty()) violation(s, ra == R_FREEEXC ? "terminate" : "uncaught-exception", "an exception leaves the outermost function: " + tiName(s, findExc(s, obj)->ti)); unwind(s, obj); goto reload; }
      case I_RET: {
        V rv[16]; size_t n = in.args.size(); for (size_t k = 0; k < n; k++) rv[k] = G(in.args[k]);
        Frame fr = *f; popFrame(s);
        switch (fr.ra) {
        case R_MAINEND: s.th[0].st = Thread::DONE; for (auto& o : s.th) if (o.st != Thread::DONE) violation(s, "threads-left", "threads are still running at the end"); throw PathEnd{0};
        case R_THREADEND: { Thread& me = T(s); me.st = Thread::DONE; for (auto& o : s.th) if (o.st == Thread::JOIN && o.on == s.cur) o.st = Thread::RUN; schedule(s, false); goto reload; }
        case R_FREEEXC: freeExc(s, fr.rd); break;
        default: break; }
        Frame& c = t.fr.back(); if (fr.dst >= 0) for (size_t k = 0; k < n; k++) t.regs[c.regs + fr.dst + k] = rv[k];
        if (fr.isInvoke) takeEdge(s, fr.normalEdge);
        goto reload; }
      case I_CALL: {
        Fn* cal = in.callee; 
        if (in.sub && cal) { // intrinsic
          vector<V> av; av.reserve(in.args.size()); for (auto o : in.args) av.push_back(G(o)); V r = cv(0); BRes b = intrinsic(s, in, av, r); if (b == B_DONE && in.dst >= 0) R[in.dst] = r; if (in.imm) { takeEdge(s, in.e1); } goto reload; }
        if (!cal) { V p = G(in.a); uint64_t a = p.e ? concretize(s, p, 64, f->pc - 1) : p.c; uint32_t id = (a >> 32) - 1; if ((a >> 32) == 0) violation(s, "null-call", "call through a null function pointer"); if (id >= nFn || (uint32_t)a) violation(s, "bad-call", "call through a pointer that is not a function"); cal = fnById[id]; }
        if (cal->builtin >= 0) {
          vector<V> av; av.reserve(in.args.size()); for (auto o : in.args) av.push_back(G(o));
          V r = cv(0); BRes b;
          if (!in.callee) { Inst tmp = in; tmp.callee = cal; b = (this->*bvec[cal->builtin])(s, tmp, av, r); } else b = (this->*bvec[cal->builtin])(s, in, av, r);
          if (b == B_DONE) { Frame& f2 = T(s).fr.back(); if (in.dst >= 0) T(s).regs[f2.regs + in.dst] = r; if (in.imm) takeEdge(s, in.e1); }
          goto reload; }
        if (cal->isDecl) die("call of external function without a model: " + cal->dname + " [" + cal->name + "] at " + locOf(&in));
        { Thread& tt = t; if (!cal->decoded) decode(cal); if (tt.fr.size() >= opt.maxDepth) violation(s, "stack-overflow", "call depth limit exceeded (unbounded recursion)");
          uint32_t base = (uint32_t)tt.regs.size(); size_t na = std::min<size_t>(in.args.size(), cal->nargs); uint32_t callerRegs = f->regs;
          tt.regs.resize(base + cal->nslots, V{0, nullptr}); const V* RR = tt.regs.data() + callerRegs;
          for (size_t k = 0; k < na; k++) { int32_t o = in.args[k]; tt.regs[base + k] = o >= 0 ? RR[o] : C[~o]; }
          uint32_t al = (uint32_t)tt.allocas.size(); tt.fr.push_back(Frame{cal, 0, base, al, R_NORMAL, 0, in.dst, in.imm == 1, in.e1, in.e2}); cal->hits++;
          for (auto& bv : in.cases) { uint64_t src = tt.regs[base + bv.first].c; uint64_t cp = alloc(s, bv.second, K_STACK); tt.allocas.push_back((cp >> 32) - 1); copyMem(s, cp, src, bv.second); tt.regs[base + bv.first] = cv(cp); }
        }
        goto reload; }
      default: { string str; raw_string_ostream os(str); in.src->print(os); die("unsupported instruction " + os.str() + " in " + f->f->dname); }
      }
    }
  reload:;
    if (pauseForFrontier && work.size() + 1 >= (size_t)opt.frontier) return;
  }
}
bool pauseForFrontier = false;
uint64_t switchVal(S& s, E c, const Inst& in, uint32_t pcBack) { return concretizeSwitch(s, c, in, pcBack); }
uint64_t concretizeSwitch(S& s, E c, const Inst& in, uint32_t pcBack) { // split by case, not by value
  uint64_t cur = evalM(s, c); uint64_t hit = ~0ull; bool def = true; for (auto& k : in.cases) if (k.first == cur) { def = false; hit = cur; }
  E cond; if (!def) cond = X.bin(O_EQ, c, X.con(hit, c->w)); else { cond = X.con(1, 1); for (auto& k : in.cases) cond = X.bin(O_AND, cond, X.notE(X.bin(O_EQ, c, X.con(k.first, c->w)))); }
  if (cond->op == O_CONST) return cur; Model m; E ne = X.notE(cond);
  if (solver.check(s.pc, ne, &m)) { S* o = fork(s); addC(*o, ne); applyModel(*o, m); T(*o).fr.back().pc = pcBack; o->depth++; work.push_back(o); addC(s, cond); s.depth++; }
  return cur; }
bool symLoad(S& s, E p, const Inst& in) { // load through an ite tree of constant addresses
  if (in.atomic || s.th.size() > 1) return false;
  std::function<bool(E)> ok = [&](E e) -> bool { if (e->op == O_CONST) { uint32_t id1 = e->val >> 32; if (!id1 || id1 - 1 < nFn) return false; Obj* o = id1 - 1 < stateBase ? constObjs[id1 - 1 - nFn] : s.mem.get(id1 - 1); return o && (uint64_t)(uint32_t)e->val + (in.w + 7) / 8 <= o->size; } return ok(e->b) && ok(e->c); };
  if (!ok(p)) return false;
  std::function<E(E)> ld = [&](E e) -> E { if (e->op == O_CONST) return X.ex(loadV(s, e->val, in.w), in.w); E x = ld(e->b), y = ld(e->c); return X.ite(e->a, x, y); };
  E r = ld(p); Thread& t = T(s); t.regs[t.fr.back().regs + in.dst] = X.val(r); return true; }
template <class GF> void fp(S& s, const Inst& in, V* R, GF& G) {
  auto D = [&](int32_t o, unsigned w) -> double { uint64_t v = conc(s, G(o), w); if (w == 32) { uint32_t u = (uint32_t)v; float x; memcpy(&x, &u, 4); return x; } double x; memcpy(&x, &v, 8); return x; };
  auto P = [&](double x, unsigned w) -> V { if (w == 32) { float y = (float)x; uint32_t u; memcpy(&u, &y, 4); return cv(u); } uint64_t u; memcpy(&u, &x, 8); return cv(u); };
  switch (in.sub) {
  case Instruction::FAdd: R[in.dst] = P(D(in.a, in.w) + D(in.b, in.w), in.w); break; case Instruction::FSub: R[in.dst] = P(D(in.a, in.w) - D(in.b, in.w), in.w); break;
  case Instruction::FMul: R[in.dst] = P(D(in.a, in.w) * D(in.b, in.w), in.w); break; case Instruction::FDiv: R[in.dst] = P(D(in.a, in.w) / D(in.b, in.w), in.w); break; case Instruction::FNeg: R[in.dst] = P(-D(in.a, in.w), in.w); break;
  case Instruction::UIToFP: R[in.dst] = P((double)conc(s, G(in.a), in.w2), in.w); break; case Instruction::SIToFP: R[in.dst] = P((double)sx64(conc(s, G(in.a), in.w2), in.w2), in.w); break;
  case Instruction::FPToUI: R[in.dst] = cv((uint64_t)D(in.a, in.w2) & maskw(in.w)); break; case Instruction::FPToSI: R[in.dst] = cv((uint64_t)(int64_t)D(in.a, in.w2) & maskw(in.w)); break;
  case Instruction::FPExt: case Instruction::FPTrunc: R[in.dst] = P(D(in.a, in.w2), in.w); break;
  case Instruction::FCmp: { double x = D(in.a, in.w2), y = D(in.b, in.w2); bool r, un = x != x || y != y; switch (in.imm) { case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_OGT: r = !un && x > y; break; case CmpInst::FCMP_OGE: r = !un && x >= y; break; case CmpInst::FCMP_OLT: r = !un && x < y; break; case CmpInst::FCMP_OLE: r = !un && x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; default: r = false; } R[in.dst] = cv(r); break; }
  } }
