// Models of external functions (included inside struct Engine).
enum BRes { B_DONE, B_FRAME, B_UNWOUND, B_RETRY, B_SWITCHED };
typedef BRes (Engine::*BFn)(S&, const Inst&, vector<V>&, V&);
std::unordered_map<string, BFn> btab;
vector<BFn> bvec;

V newVar(S& s, uint32_t lo, uint32_t hi) {
  uint32_t i = s.model.size(); s.model.push_back(lo); s.lo.push_back(lo); s.hi.push_back(hi); E v = X.var(i, 32);
  if (i + 1 > maxVars) maxVars = i + 1;
  if (hi != 0xffffffffu) addC(s, X.bin(O_ULE, v, X.con(hi, 32))); if (lo) addC(s, X.bin(O_ULE, X.con(lo, 32), v));
  return V{0, v}; }
// eager choice: forks one state per value; 'apply' is run on each with its value
template <class F> void choose(S& s, uint32_t n, F apply) {
  if (n <= 1) { apply(s, 0u); return; }
  V v = newVar(s, 0, n - 1);
  for (uint32_t j = 1; j < n; j++) { E eq = X.bin(O_EQ, v.e, X.con(j, 32)); Model m; if (!solver.check(s.pc, eq, &m)) continue; S* o = fork(s); addC(*o, eq); applyModel(*o, m); o->depth++; apply(*o, j); work.push_back(o); }
  addC(s, X.bin(O_EQ, v.e, X.con(0, 32))); s.depth++; apply(s, 0u); }

uint64_t conc(S& s, V v, unsigned w = 64) { return concretize(s, v, w, curPc(s)); }

BRes b_alloc(S& s, const Inst&, vector<V>& a, V& r) { uint64_t n = conc(s, a[0]), k = conc(s, a[1], 32); if (n > (1u << 24)) violation(s, "huge-allocation", "allocation of an absurd size"); r = cv(alloc(s, n, (Kind)k)); s.liveHeap++; s.allocs++; return B_DONE; }
BRes b_dealloc(S& s, const Inst&, vector<V>& a, V& r) { // p, size or -1, kind
  uint64_t p = conc(s, a[0]), n = conc(s, a[1]), k = conc(s, a[2], 32); if (!p) return B_DONE; freeHeap(s, p, n, (Kind)k); return B_DONE; }
void freeHeap(S& s, uint64_t p, uint64_t n, Kind k) {
  uint32_t id = (p >> 32) - 1; if ((p >> 32) == 0 || id < stateBase) violation(s, "bad-free", "free of memory that is not on the heap");
  Obj* o = s.mem.get(id); if (!o) { if (id - stateBase < s.mem.next) violation(s, "double-free", "free of memory that was already freed"); violation(s, "bad-free", "free of a wild pointer"); }
  if (o->kind != K_MALLOC && o->kind != K_NEW && o->kind != K_NEWARR) violation(s, "bad-free", "free of memory that is not on the heap");
  if ((uint32_t)p) violation(s, "bad-free", "free of a pointer into the middle of a block");
  if (o->kind != k) violation(s, "alloc-dealloc-mismatch", "memory is released by a different kind of deallocation than it was allocated with");
  if (n != ~0ull && n != o->size) violation(s, "sized-delete-mismatch", "memory is released with a size different from the allocated one");
  Ref rf{o, id, 0, false}; if (s.th.size() > 1) race(s, rf, o->size, true);
  if (opt.reuse) s.freed.push_back({o->size, id});
  s.mem.del(id); s.liveHeap--; }
BRes b_live(S& s, const Inst&, vector<V>&, V& r) { r = cv(s.liveHeap); return B_DONE; }
BRes b_sym(S& s, const Inst&, vector<V>& a, V& r) { uint32_t lo = conc(s, a[0], 32), hi = conc(s, a[1], 32); if (lo == hi) { r = cv(lo); return B_DONE; } r = newVar(s, lo, hi); return B_DONE; }
BRes b_choice(S& s, const Inst& in, vector<V>& a, V& r) { uint32_t n = conc(s, a[0], 32); if (n == 0) die("vf_choice(0)"); if (n == 1) { r = cv(0); return B_DONE; }
  int32_t d = in.dst; bool inv = in.imm; uint32_t e1 = in.e1; choose(s, n, [&](S& o, uint32_t j) { Frame& f = T(o).fr.back(); if (d >= 0) T(o).regs[f.regs + d] = cv(j); if (inv) takeEdge(o, e1); }); return B_FRAME; }
BRes b_conc(S& s, const Inst&, vector<V>& a, V& r) { r = cv(conc(s, a[0], 32)); return B_DONE; }
BRes b_assume(S& s, const Inst&, vector<V>& a, V&) { nAssume++; V v = icmp(CmpInst::ICMP_NE, a[0], cv(0), 32); if (!v.e) { if (!v.c) { nPruned++; throw PathEnd{1}; } return B_DONE; }
  Model m; if (evalM(s, v.e)) { addC(s, v.e); return B_DONE; } if (!solver.check(s.pc, v.e, &m)) { nPruned++; throw PathEnd{1}; } addC(s, v.e); applyModel(s, m); return B_DONE; }
BRes b_assert(S& s, const Inst&, vector<V>& a, V&) { nAsserts++; V v = icmp(CmpInst::ICMP_NE, a[0], cv(0), 32); if (!v.e) { if (!v.c) violation(s, "property", cstr(s, a[1].c)); return B_DONE; }
  nSymAsserts++; Model m; E no = X.notE(v.e);
  if (solver.check(s.pc, no, &m)) { S o(s); addC(o, no); applyModel(o, m); report(o, "property", cstr(s, a[1].c)); Model m2; if (!solver.check(s.pc, v.e, &m2)) throw PathEnd{2}; addC(s, v.e); if (!evalM(s, v.e)) applyModel(s, m2); }
  return B_DONE; }
BRes b_fail(S& s, const Inst&, vector<V>& a, V&) { violation(s, "property", cstr(s, conc(s, a[0]))); }
BRes b_log(S& s, const Inst&, vector<V>& a, V&) { s.log.push_back({(uint32_t)conc(s, a[0], 32), a[1], 32}); return B_DONE; }
BRes b_reach(S& s, const Inst&, vector<V>& a, V&) { s.reach.push_back(conc(s, a[0], 32)); return B_DONE; }
BRes b_state(S& s, const Inst&, vector<V>& a, V&) { s.hstates.push_back(conc(s, a[0], 64)); return B_DONE; }
BRes b_step(S& s, const Inst&, vector<V>&, V&) { if (!usesCk) s.steps++; return B_DONE; }
BRes b_trace(S& s, const Inst&, vector<V>& a, V&) { if (opt.verbose) fprintf(stderr, "trace: %s %llu\n", cstr(s, a[0].c).c_str(), (unsigned long long)evalV(s, a[1])); return B_DONE; }
BRes b_engine(S& s, const Inst&, vector<V>&, V& r) { r = cv(1); return B_DONE; }
BRes b_zero(S& s, const Inst&, vector<V>&, V& r) { r = cv(0); return B_DONE; }
BRes b_abort(S& s, const Inst& in, vector<V>&, V&) { violation(s, "abort", "abort or std::terminate is called"); }
BRes b_pure(S& s, const Inst& in, vector<V>&, V&) { violation(s, "pure-virtual", "pure virtual function is called"); }
BRes b_stdthrow(S& s, const Inst& in, vector<V>&, V&) { violation(s, "library-precondition", "the standard library reports a violated precondition (" + in.callee->dname + ")"); }
BRes b_assertfail(S& s, const Inst& in, vector<V>& a, V&) { violation(s, "assertion", "assertion fails: " + cstr(s, conc(s, a[0]))); }
// memory
BRes b_memcpy(S& s, const Inst&, vector<V>& a, V& r) { uint64_t d = conc(s, a[0]), p = conc(s, a[1]), n = conc(s, a[2]); copyMem(s, d, p, n); r = cv(d); return B_DONE; }
BRes b_memset(S& s, const Inst&, vector<V>& a, V& r) { uint64_t d = conc(s, a[0]), n = conc(s, a[2]); V v = a[1]; V by = v.e ? X.val(X.extract(v.e, 0, 8)) : cv(v.c & 255); if (n) { Ref rf = resolve(s, d, n, true); race(s, rf, n, true); for (uint64_t i = 0; i < n; i++) putV(rf.o, rf.off + i, by, 8, 1); } r = cv(d); return B_DONE; }
BRes b_memcmp(S& s, const Inst&, vector<V>& a, V& r) { uint64_t p = conc(s, a[0]), q = conc(s, a[1]), n = conc(s, a[2]); for (uint64_t i = 0; i < n; i++) { V x = loadV(s, p + i, 8), y = loadV(s, q + i, 8); if (x.e || y.e) { uint8_t xc = conc(s, x, 8), yc = conc(s, y, 8); x = cv(xc); y = cv(yc); } if (x.c != y.c) { r = cv((uint32_t)(x.c < y.c ? -1 : 1)); return B_DONE; } } r = cv(0); return B_DONE; }
BRes b_strlen(S& s, const Inst&, vector<V>& a, V& r) { uint64_t p = conc(s, a[0]), n = 0; while (conc(s, loadV(s, p + n, 8), 8)) n++; r = cv(n); return B_DONE; }
BRes b_strcmp(S& s, const Inst&, vector<V>& a, V& r) { uint64_t p = conc(s, a[0]), q = conc(s, a[1]); for (;;) { uint8_t x = conc(s, loadV(s, p++, 8), 8), y = conc(s, loadV(s, q++, 8), 8); if (x != y) { r = cv((uint32_t)(x < y ? -1 : 1)); return B_DONE; } if (!x) break; } r = cv(0); return B_DONE; }
// exceptions
BRes b_cxa_alloc(S& s, const Inst&, vector<V>& a, V& r) { uint64_t p = alloc(s, conc(s, a[0]), K_EXC); s.exc.push_back(Exc{p, 0, 0, p, 0, 1, false}); r = cv(p); return B_DONE; }
BRes b_cxa_free(S& s, const Inst&, vector<V>& a, V&) { freeExc(s, conc(s, a[0])); return B_DONE; }
BRes b_cxa_throw(S& s, const Inst&, vector<V>& a, V&) { uint64_t p = conc(s, a[0]); Exc* e = findExc(s, p); if (!e) die("throw of unknown object"); e->ti = conc(s, a[1]); e->dtor = conc(s, a[2]); e->thrown = true; T(s).uncaught++; unwind(s, p); return B_UNWOUND; }
BRes b_cxa_begin(S& s, const Inst&, vector<V>& a, V& r) { uint64_t p = conc(s, a[0]); Exc* e = findExc(s, p); if (!e) die("begin_catch"); if (e->handlers < 0) e->handlers = -e->handlers + 1; else e->handlers++; Thread& t = T(s); t.uncaught--; bool on = false; for (auto c : t.caught) if (c == p) on = true; if (on) { for (size_t i = 0; i < t.caught.size(); i++) if (t.caught[i] == p) { t.caught.erase(t.caught.begin() + i); break; } } t.caught.push_back(p); r = cv(e->adj); return B_DONE; }
BRes b_cxa_getptr(S& s, const Inst&, vector<V>& a, V& r) { Exc* e = findExc(s, conc(s, a[0])); if (!e) die("get_exception_ptr"); r = cv(e->adj); return B_DONE; }
BRes dropExc(S& s, const Inst& in, uint64_t p) { Exc* e = findExc(s, p); if (--e->refs > 0) return B_DONE; uint64_t d = e->dtor; if (!d) { freeExc(s, p); return B_DONE; } Fn* f = fnById[(d >> 32) - 1]; pushFrame(s, f, {cv(p)}, R_FREEEXC, p, -1, in.imm == 1, in.e1, in.e2); return B_FRAME; }
BRes b_cxa_end(S& s, const Inst& in, vector<V>&, V&) { Thread& t = T(s); if (t.caught.empty()) die("end_catch without caught exception"); uint64_t p = t.caught.back(); Exc* e = findExc(s, p);
  if (e->handlers < 0) { if (++e->handlers == 0) t.caught.pop_back(); return B_DONE; } // rethrown: stays alive
  if (--e->handlers == 0) { t.caught.pop_back(); return dropExc(s, in, p); } return B_DONE; }
BRes b_cxa_rethrow(S& s, const Inst&, vector<V>&, V&) { Thread& t = T(s); if (t.caught.empty()) violation(s, "terminate", "rethrow without a current exception"); uint64_t p = t.caught.back(); Exc* e = findExc(s, p); e->handlers = -e->handlers; t.uncaught++; unwind(s, p); return B_UNWOUND; }
BRes b_uncaughts(S& s, const Inst&, vector<V>&, V& r) { r = cv((uint32_t)T(s).uncaught); return B_DONE; }
BRes b_uncaught(S& s, const Inst&, vector<V>&, V& r) { r = cv(T(s).uncaught > 0); return B_DONE; }
BRes b_cur_exc_type(S& s, const Inst&, vector<V>&, V& r) { Thread& t = T(s); r = cv(t.caught.empty() ? 0 : findExc(s, t.caught.back())->ti); return B_DONE; }
BRes b_curexc(S& s, const Inst&, vector<V>& a, V&) { Thread& t = T(s); uint64_t p = t.caught.empty() ? 0 : t.caught.back(); if (p) findExc(s, p)->refs++; storeV(s, conc(s, a[0]), cv(p), 64); return B_DONE; }
BRes b_ep_addref(S& s, const Inst&, vector<V>& a, V&) { uint64_t p = conc(s, loadV(s, conc(s, a[0]), 64)); if (p) findExc(s, p)->refs++; return B_DONE; }
BRes b_ep_release(S& s, const Inst& in, vector<V>& a, V&) { uint64_t q = conc(s, a[0]), p = conc(s, loadV(s, q, 64)); storeV(s, q, cv(0), 64); if (p) return dropExc(s, in, p); return B_DONE; }
BRes b_ep_rethrow(S& s, const Inst&, vector<V>& a, V&) { uint64_t p = conc(s, loadV(s, conc(s, a[0]), 64)); Exc* e = findExc(s, p); if (!e) violation(s, "terminate", "rethrow_exception of null"); e->refs++; e->handlers = 0; T(s).uncaught++; unwind(s, p); return B_UNWOUND; }
BRes b_dyncast(S& s, const Inst&, vector<V>& a, V& r) { uint64_t p = conc(s, a[0]); r = cv(dynCast(s, p, conc(s, a[1]), conc(s, a[2]))); return B_DONE; }
BRes b_guard_acq(S& s, const Inst&, vector<V>& a, V& r) { uint64_t g = conc(s, a[0]); V v = loadV(s, g, 8, true); r = cv(v.c ? 0 : 1); return B_DONE; }
BRes b_guard_rel(S& s, const Inst&, vector<V>& a, V&) { storeV(s, conc(s, a[0]), cv(1), 8, true); return B_DONE; }
// threads
void joinvc(uint32_t* d, const uint32_t* a) { for (int i = 0; i < MAXT; i++) if (a[i] > d[i]) d[i] = a[i]; }
Mutex* getM(S& s, uint64_t a, bool mk = true) { for (auto& m : s.mtx) if (m.a == a) return &m; if (!mk) return nullptr; Mutex m; memset(&m, 0, sizeof m); m.a = a; m.owner = -1; s.mtx.push_back(m); return &s.mtx.back(); }
void switchTo(S& s, uint32_t tid) { Thread& t = s.th[tid]; if (t.st == Thread::WAIT_COND) { t.st = Thread::RUN; t.woken = true; s.spurious++; } s.cur = tid; }
void schedule(S& s, bool voluntary, bool stay = false) {
  vector<uint32_t> r; Thread& me = T(s); if (me.st == Thread::RUN) r.push_back(s.cur); uint32_t real = r.size();
  for (uint32_t i = 0; i < s.th.size(); i++) if (i != s.cur && s.th[i].st == Thread::RUN) { r.push_back(i); real++; }
  if (!real) { bool all = true; for (auto& t : s.th) if (t.st != Thread::DONE) all = false; if (all) throw PathEnd{0}; violation(s, "deadlock", "all remaining threads are blocked (deadlock or lost wakeup)"); }
  if (voluntary && opt.preempt >= 0 && (int)s.preempt >= opt.preempt) return;
  if (s.spurious < opt.spurious) for (uint32_t i = 0; i < s.th.size(); i++) if (s.th[i].st == Thread::WAIT_COND) r.push_back(i);
  uint32_t cur = s.cur; if (stay) { if (r.size() > 1) { V v = newVar(s, 0, r.size() - 1); addC(s, X.bin(O_EQ, v.e, X.con(0, 32))); } return; } choose(s, r.size(), [&](S& o, uint32_t j) { if (voluntary && r[j] != cur) o.preempt++; switchTo(o, r[j]); }); }
// A switch before an operation on an object that no other thread can reach yet would change nothing (the operation commutes
// with whatever the others do), so there the running thread stays.
bool yieldPoint(S& s, uint64_t a = 0) { if (s.th.size() < 2) return false; Thread& t = T(s); if (t.yielded) { t.yielded = false; return false; }
  if (opt.noMerge && opt.noReduce) { t.yielded = true; t.fr.back().pc--; schedule(s, true); return true; }
  t.yielded = true; t.fr.back().pc--; { Canon cn(*this, s); cn.mix(0x77); uint64_t h = cn.run(true); uint32_t id = (uint32_t)(a >> 32) - 1; if (a && !opt.noReduce && cn.owned(id) == (int)s.cur) { t.yielded = false; t.fr.back().pc++; schedule(s, true, true); return false; } nCheck++; if (!opt.noMerge) claim(s, h); }
  schedule(s, true); return true; }
BRes b_yield(S& s, const Inst&, vector<V>&, V&) { return yieldPoint(s) ? B_SWITCHED : B_DONE; }
BRes b_lock(S& s, const Inst&, vector<V>& a, V& r) { uint64_t m = conc(s, a[0]); resolve(s, m, 1, false); if (yieldPoint(s, m)) return B_SWITCHED; Mutex* x = getM(s, m); Thread& t = T(s);
  if (x->owner >= 0) { if (x->owner == (int)s.cur) { violation(s, "deadlock", "a thread locks a mutex it already holds"); } t.st = Thread::BLOCK_MUTEX; t.on = m; t.yielded = true; t.fr.back().pc--; schedule(s, false); return B_SWITCHED; }
  x->owner = s.cur; x->count = 1; joinvc(t.vc, x->vc); r = cv(0); return B_DONE; }
BRes b_trylock(S& s, const Inst&, vector<V>& a, V& r) { uint64_t m = conc(s, a[0]); resolve(s, m, 1, false); if (yieldPoint(s, m)) return B_SWITCHED; Mutex* x = getM(s, m); if (x->owner >= 0) { r = cv(16); return B_DONE; } x->owner = s.cur; x->count = 1; joinvc(T(s).vc, x->vc); r = cv(0); return B_DONE; }
void doUnlock(S& s, uint64_t m) { Mutex* x = getM(s, m); if (x->owner != (int)s.cur) violation(s, "bad-unlock", "a mutex is unlocked by a thread that does not hold it"); x->owner = -1; Thread& t = T(s); memcpy(x->vc, t.vc, sizeof t.vc); t.vc[s.cur]++; for (auto& o : s.th) if (o.st == Thread::BLOCK_MUTEX && o.on == m) o.st = Thread::RUN; }
BRes b_unlock(S& s, const Inst&, vector<V>& a, V& r) { uint64_t m = conc(s, a[0]); resolve(s, m, 1, false); doUnlock(s, m); r = cv(0); return B_DONE; }
BRes b_mdestroy(S& s, const Inst&, vector<V>& a, V& r) { uint64_t m = conc(s, a[0]); Mutex* x = getM(s, m, false); if (x && x->owner >= 0) violation(s, "bad-destroy", "a locked mutex is destroyed"); for (size_t i = 0; i < s.mtx.size(); i++) if (s.mtx[i].a == m) { s.mtx.erase(s.mtx.begin() + i); break; } r = cv(0); return B_DONE; }
BRes b_cdestroy(S& s, const Inst&, vector<V>& a, V& r) { uint64_t c = conc(s, a[0]); for (auto& t : s.th) if (t.st == Thread::WAIT_COND && t.on == c) violation(s, "bad-destroy", "a condition variable with waiters is destroyed"); r = cv(0); return B_DONE; }
BRes b_wait(S& s, const Inst&, vector<V>& a, V& r) { uint64_t c = conc(s, a[0]), m = conc(s, a[1]); Thread& t = T(s);
  if (!t.woken) { resolve(s, c, 1, false); doUnlock(s, m); t.st = Thread::WAIT_COND; t.on = c; t.mtx = m; t.fr.back().pc--; schedule(s, false); return B_SWITCHED; }
  Mutex* x = getM(s, m); if (x->owner >= 0) { t.st = Thread::BLOCK_MUTEX; t.on = m; t.fr.back().pc--; schedule(s, false); return B_SWITCHED; }
  t.woken = false; x->owner = s.cur; x->count = 1; joinvc(t.vc, x->vc); r = cv(0); return B_DONE; }
BRes b_signal(S& s, const Inst& in, vector<V>& a, V& r) { uint64_t c = conc(s, a[0]); resolve(s, c, 1, false); if (yieldPoint(s, c)) return B_SWITCHED; vector<uint32_t> w; for (uint32_t i = 0; i < s.th.size(); i++) if (s.th[i].st == Thread::WAIT_COND && s.th[i].on == c) w.push_back(i);
  r = cv(0); if (w.empty()) return B_DONE; if (in.imm) die("invoke of pthread_cond_signal"); int32_t d = in.dst; choose(s, w.size(), [&](S& o, uint32_t j) { o.th[w[j]].st = Thread::RUN; o.th[w[j]].woken = true; Frame& f = T(o).fr.back(); if (d >= 0) T(o).regs[f.regs + d] = cv(0); }); return B_FRAME; }
BRes b_broadcast(S& s, const Inst&, vector<V>& a, V& r) { uint64_t c = conc(s, a[0]); resolve(s, c, 1, false); if (yieldPoint(s, c)) return B_SWITCHED; for (auto& t : s.th) if (t.st == Thread::WAIT_COND && t.on == c) { t.st = Thread::RUN; t.woken = true; } r = cv(0); return B_DONE; }
BRes b_tcreate(S& s, const Inst&, vector<V>& a, V& r) { // vf_thread(fn, arg) -> id
  uint64_t f = conc(s, a[0]); if (s.th.size() >= (size_t)MAXT) die("too many threads"); if (s.th.size() == 1 && s.th[0].vc[0] == 0) s.th[0].vc[0] = 1; uint32_t id = s.th.size(), cur = s.cur; s.th.emplace_back(); Thread& t = s.th.back(); memcpy(t.vc, s.th[cur].vc, sizeof t.vc); t.vc[id] = 1; s.th[cur].vc[cur]++;
  s.cur = id; pushFrame(s, fnById[(f >> 32) - 1], {a[1]}, R_THREADEND, 0, -1, false, 0, 0); s.cur = cur; r = cv(id); return B_DONE; }
BRes b_tjoin(S& s, const Inst&, vector<V>& a, V& r) { uint32_t id = conc(s, a[0], 32); Thread& o = s.th[id]; Thread& t = T(s); if (o.st != Thread::DONE) { t.st = Thread::JOIN; t.on = id; t.fr.back().pc--; schedule(s, false); return B_SWITCHED; } joinvc(t.vc, o.vc); return B_DONE; }
BRes b_self(S& s, const Inst&, vector<V>&, V& r) { r = cv(s.cur + 1); return B_DONE; }
void atomicSync(S& s, uint64_t a) { if (s.th.size() < 2) return; Thread& t = T(s); for (auto& m : s.atom) if (m.a == a) { joinvc(t.vc, m.vc); joinvc(m.vc, t.vc); t.vc[s.cur]++; return; } Mutex m; memset(&m, 0, sizeof m); m.a = a; memcpy(m.vc, t.vc, sizeof m.vc); t.vc[s.cur]++; s.atom.push_back(m); }

void initBuiltins() {
  std::map<string, BFn> t = {
    {"vf_alloc", &Engine::b_alloc}, {"vf_dealloc", &Engine::b_dealloc}, {"vf_live", &Engine::b_live}, {"vf_sym", &Engine::b_sym}, {"vf_choice", &Engine::b_choice}, {"vf_concrete", &Engine::b_conc}, {"vf_assume", &Engine::b_assume}, {"vf_assert_", &Engine::b_assert}, {"vf_fail", &Engine::b_fail}, {"vf_log", &Engine::b_log}, {"vf_reach", &Engine::b_reach}, {"vf_state", &Engine::b_state}, {"vf_step", &Engine::b_step}, {"vf_trace", &Engine::b_trace}, {"vf_is_engine", &Engine::b_engine},
    {"vf_checkpoint", &Engine::b_checkpoint}, {"vf_merge", &Engine::b_merge}, {"vf_end", &Engine::b_end}, {"vf_yield", &Engine::b_yield}, {"vf_thread", &Engine::b_tcreate}, {"vf_join", &Engine::b_tjoin},
    {"abort", &Engine::b_abort}, {"_ZSt9terminatev", &Engine::b_abort}, {"exit", &Engine::b_abort}, {"_Exit", &Engine::b_abort}, {"_exit", &Engine::b_abort}, {"__cxa_pure_virtual", &Engine::b_pure}, {"__cxa_deleted_virtual", &Engine::b_pure}, {"__cxa_bad_cast", &Engine::b_abort}, {"__cxa_call_unexpected", &Engine::b_abort}, {"__cxa_throw_bad_array_new_length", &Engine::b_stdthrow}, {"__assert_fail", &Engine::b_assertfail}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", &Engine::b_abort},
    {"memcpy", &Engine::b_memcpy}, {"memmove", &Engine::b_memcpy}, {"memset", &Engine::b_memset}, {"memcmp", &Engine::b_memcmp}, {"bcmp", &Engine::b_memcmp}, {"strlen", &Engine::b_strlen}, {"strcmp", &Engine::b_strcmp},
    {"__cxa_allocate_exception", &Engine::b_cxa_alloc}, {"__cxa_free_exception", &Engine::b_cxa_free}, {"__cxa_throw", &Engine::b_cxa_throw}, {"__cxa_begin_catch", &Engine::b_cxa_begin}, {"__cxa_end_catch", &Engine::b_cxa_end}, {"__cxa_rethrow", &Engine::b_cxa_rethrow}, {"__cxa_get_exception_ptr", &Engine::b_cxa_getptr}, {"_ZSt19uncaught_exceptionsv", &Engine::b_uncaughts}, {"_ZSt18uncaught_exceptionv", &Engine::b_uncaught}, {"__cxa_current_exception_type", &Engine::b_cur_exc_type},
    {"_ZSt17current_exceptionv", &Engine::b_curexc}, {"_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", &Engine::b_ep_addref}, {"_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", &Engine::b_ep_release}, {"_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", &Engine::b_ep_rethrow},
    {"__dynamic_cast", &Engine::b_dyncast}, {"__cxa_guard_acquire", &Engine::b_guard_acq}, {"__cxa_guard_release", &Engine::b_guard_rel}, {"__cxa_guard_abort", &Engine::b_zero}, {"__cxa_atexit", &Engine::b_zero}, {"atexit", &Engine::b_zero}, {"__cxa_thread_atexit", &Engine::b_zero},
    {"pthread_mutex_init", &Engine::b_zero}, {"pthread_mutex_destroy", &Engine::b_mdestroy}, {"pthread_mutex_lock", &Engine::b_lock}, {"pthread_mutex_trylock", &Engine::b_trylock}, {"pthread_mutex_unlock", &Engine::b_unlock}, {"pthread_cond_init", &Engine::b_zero}, {"pthread_cond_destroy", &Engine::b_cdestroy}, {"pthread_cond_wait", &Engine::b_wait}, {"pthread_cond_timedwait", &Engine::b_wait}, {"pthread_cond_signal", &Engine::b_signal}, {"pthread_cond_broadcast", &Engine::b_broadcast}, {"pthread_self", &Engine::b_self},
    {"pthread_mutexattr_init", &Engine::b_zero}, {"pthread_mutexattr_settype", &Engine::b_zero}, {"pthread_mutexattr_destroy", &Engine::b_zero}, {"pthread_condattr_init", &Engine::b_zero}, {"pthread_condattr_setclock", &Engine::b_zero}, {"pthread_condattr_destroy", &Engine::b_zero}, {"sched_yield", &Engine::b_yield}, {"puts", &Engine::b_zero}, {"printf", &Engine::b_zero}, {"putchar", &Engine::b_zero}, {"fprintf", &Engine::b_zero}, {"fwrite", &Engine::b_zero}, {"fflush", &Engine::b_zero},
  };
  for (auto& f : fns) { if (!f->isDecl) { // an engine model takes precedence over nothing but declarations
      continue; }
    auto it = t.find(f->name); if (it != t.end()) { f->builtin = bvec.size(); bvec.push_back(it->second); }
    else if (f->name.rfind("_ZSt", 0) == 0 && f->name.find("__throw_") != string::npos) { f->builtin = bvec.size(); bvec.push_back(&Engine::b_stdthrow); } }
}
