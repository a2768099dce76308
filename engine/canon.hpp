// Canonical hashing of a state at a checkpoint (state merging), included inside struct Engine.
// Two states with the same canonical form differ only in the numbering of heap objects, in the names of symbolic
// variables and in path constraints that no longer mention anything reachable: every continuation of one is a
// continuation of the other.
struct Canon {
  Engine& g; S& s; uint64_t h = 0x243F6A8885A308D3ull; std::unordered_map<uint32_t, uint32_t> num; vector<uint32_t> queue; std::unordered_map<uint32_t, uint32_t> vnum; vector<uint32_t> vorder; std::unordered_map<E, uint64_t> eh;
  Canon(Engine& e, S& st) : g(e), s(st) {}
  static uint64_t m2(uint64_t a, uint64_t b) { a ^= b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2); a *= 0xff51afd7ed558ccdull; a ^= a >> 33; a *= 0xc4ceb9fe1a85ec53ull; a ^= a >> 29; return a; }
  void mix(uint64_t x) { h = m2(h, x); }
  bool isPtr(uint64_t v) { uint32_t id1 = v >> 32; return id1 && id1 - 1 >= g.stateBase && id1 - 1 - g.stateBase < s.mem.next; }
  uint64_t canonPtr(uint64_t v) { uint32_t id = (uint32_t)(v >> 32) - 1; if (track) { if (curObj == ~0u) color[id] |= curRoot; else if (inExpr) color[id] |= 128; else adj[curObj].push_back(id); } auto it = num.find(id); uint32_t n; if (it == num.end()) { n = num.size(); num[id] = n; queue.push_back(id); } else n = it->second; return (0xABCDull << 48) ^ ((uint64_t)n << 32) ^ (uint32_t)v ^ (s.mem.get(id) ? 0 : 1ull << 63); }
  // which threads (bit i) or globals (bit 7) an object is reachable from
  bool track = false, inExpr = false; uint32_t curObj = ~0u; uint8_t curRoot = 128; std::unordered_map<uint32_t, uint8_t> color; std::unordered_map<uint32_t, vector<uint32_t>> adj;
  uint64_t word(uint64_t v) { return isPtr(v) ? canonPtr(v) : v; }
  uint64_t hashE(E e) { bool sv = inExpr; inExpr = true; uint8_t sr = curRoot; curRoot = 128; uint64_t r = hashE0(e); inExpr = sv; curRoot = sr; return r; }
  uint64_t hashE0(E e) { auto it = eh.find(e); if (it != eh.end()) return it->second; uint64_t r = m2(e->op * 131 + e->w, 77);
    if (e->op == O_CONST) r = m2(r, e->w == 64 ? word(e->val) : e->val);
    else if (e->op == O_VAR) { uint32_t i = e->val; auto it2 = vnum.find(i); uint32_t n; if (it2 == vnum.end()) { n = vnum.size(); vnum[i] = n; vorder.push_back(i); } else n = it2->second; r = m2(r, i >= UNDEF_BASE ? 1000000 + n : n); }
    else { r = m2(r, e->val * (e->op == O_EXTRACT)); if (e->a) r = m2(r, hashE(e->a)); if (e->b) r = m2(r, hashE(e->b)); if (e->c) r = m2(r, hashE(e->c)); }
    eh[e] = r; return r; }
  bool dump = false; string txt; void note(uint64_t x) { char b[40]; snprintf(b, 40, "%llx ", (unsigned long long)x); txt += b; }
  void object(uint32_t id) { if (dump) { txt += "\n#" + std::to_string(num[id]) + ": "; } Obj* o = s.mem.get(id); if (!o) { mix(0xDEAD); if (opt.reuse) { uint32_t at = 0, sz = 0; for (size_t i = s.freed.size(); i-- > 0;) if (s.freed[i].second == id) { sz = s.freed[i].first; for (size_t k = i + 1; k < s.freed.size(); k++) at += s.freed[k].first == sz; mix(sz * 65536ull + at); } } return; } mix(o->size * 16ull + o->kind); if (o->kind == K_STACK) { auto it = owner.find(id); mix(it == owner.end() ? 0 : it->second); } uint32_t i = 0;
    while (i < o->size) {
      if (i % 8 == 0 && i + 8 <= o->size) { bool cc = true; if (o->m) for (int k = 0; k < 8; k++) if (o->m[i + k]) { cc = false; break; } if (cc) { uint64_t v; memcpy(&v, o->b + i, 8); mix(word(v)); if (dump) note(word(v)); i += 8; continue; } }
      uint8_t k = o->m ? o->m[i] : 0; if (dump) note(k == 0 ? o->b[i] : k == 1 ? 0x9999 : 0x5000 + (hashE((*o->sym)[i].e) & 0xfff)); if (k == 0) mix(o->b[i] + 256); else if (k == 1) mix(99999); else { auto& sb = (*o->sym)[i]; mix(m2(hashE(sb.e), sb.idx)); }
      i++; } }
  std::unordered_map<uint32_t, uint32_t> owner; // stack object -> frame that owns it
  void value(const V& v, unsigned tag) { mix(tag); if (v.e) mix(hashE(v.e)); else mix(word(v.c)); }
  void frames(bool multi) { for (uint32_t ti = 0; ti < s.th.size(); ti++) { Thread& t = s.th[ti]; curRoot = 1 << ti; size_t n = t.fr.size(); mix(n * 977 + t.caught.size());
    if (multi) { mix(t.st * 8 + t.yielded * 2 + t.woken + ti * 64); if (t.st == Thread::JOIN) mix(t.on); else if (t.st == Thread::BLOCK_MUTEX || t.st == Thread::WAIT_COND) { mix(word(t.on)); mix(word(t.mtx)); } if (t.st == Thread::DONE) continue; }
    for (size_t i = 0; i < n; i++) { Frame& f = t.fr[i]; uint32_t e = i + 1 < n ? t.fr[i + 1].allocas : t.allocas.size(); for (uint32_t k = f.allocas; k < e; k++) owner[t.allocas[k]] = i + 1 + ti * 4096;
      mix(f.f->addr); mix(f.pc * 16ull + f.ra); mix(word(f.rd)); uint32_t at = f.pc; bool call = i + 1 < n; if (call) at--; auto& L = g.liveness(f.f, at, call);
      for (uint32_t k = 0; k < f.f->nslots; k++) if (L[k / 64] >> (k % 64) & 1) value(t.regs[f.regs + k], k); }
    for (auto x : t.caught) mix(word(x)); mix(t.uncaught); }
    curRoot = 128; for (auto& x : s.exc) { mix(word(x.obj)); mix(word(x.ti)); mix(word(x.dtor)); mix(word(x.adj)); mix(x.handlers * 4 + x.refs * 64 + x.thrown); } }
  // Happens-before clocks: only their relative order within each component matters; epochs that every running thread has
  // seen are as good as none.
  // What is reachable from one thread only can reach another one only through a later write of that thread, so its epochs
  // and clocks matter only as far as that thread itself has not seen them.
  uint32_t mn[MAXT];
  int owned(uint32_t id) { uint8_t c = color[id]; return c && !(c & 128) && !(c & (c - 1)) ? __builtin_ctz(c) : -1; }
  void threads() {
    vector<uint32_t> todo; for (auto& c : color) todo.push_back(c.first); while (!todo.empty()) { uint32_t id = todo.back(); todo.pop_back(); auto it = adj.find(id); if (it == adj.end()) continue; uint8_t c = color[id]; for (auto k : it->second) { uint8_t& d = color[k]; if ((d | c) != d) { d |= c; todo.push_back(k); } } }
    struct Ck { uint64_t where; uint32_t comp, val; }; vector<Ck> cells, cks; uint32_t nt = s.th.size();
    for (uint32_t k = 0; k < MAXT; k++) { mn[k] = ~0u; for (auto& t : s.th) if (t.st != Thread::DONE) mn[k] = std::min(mn[k], t.vc[k]); }
    auto clocks = [&](uint64_t where, const uint32_t* vc) { for (uint32_t k = 0; k < nt; k++) cks.push_back({where, k, std::max(vc[k], mn[k])}); };
    for (uint32_t i = 0; i < nt; i++) clocks(i, s.th[i].vc);
    auto sync = [&](vector<Mutex>& v, uint64_t tag) { vector<std::pair<uint64_t, Mutex*>> o; for (auto& m : v) { uint32_t id = (uint32_t)(m.a >> 32) - 1; if (m.owner < 0 || tag) { if (!num.count(id) || !s.mem.get(id)) continue; } o.push_back({word(m.a), &m}); } std::sort(o.begin(), o.end(), [](auto& a, auto& b) { return a.first < b.first; });
      mix(tag + 555); for (auto& x : o) { int own = owned((uint32_t)(x.second->a >> 32) - 1); const uint32_t* lim = own >= 0 ? s.th[own].vc : mn; bool fresh = true; for (uint32_t k = 0; k < nt; k++) if (x.second->vc[k] > lim[k]) fresh = false; if (fresh && (tag || x.second->owner < 0)) continue; mix(x.first); if (!tag) mix(x.second->owner + 2); clocks(x.first, x.second->vc); } };
    sync(s.mtx, 0); sync(s.atom, 1);
    for (size_t i = 0; i < queue.size(); i++) { Obj* o = s.mem.get(queue[i]); if (!o || !o->sh) continue; int own = owned(queue[i]); const uint32_t* lim = own >= 0 ? s.th[own].vc : mn; for (uint32_t b = 0; b < o->size; b++) { Cell& c = (*o->sh)[b]; uint64_t w = ((uint64_t)i << 32 | b) * 16; if (c.wclk > lim[c.wt]) cells.push_back({w, c.wt, c.wclk}); for (uint32_t k = 0; k < nt; k++) if (c.r[k] > lim[k]) cells.push_back({w + 1 + k, k, c.r[k]}); } }
    vector<uint32_t> vals[MAXT]; for (auto& c : cells) vals[c.comp].push_back(c.val); for (auto& v : vals) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); }
    for (auto* l : {&cells, &cks}) for (auto& c : *l) { mix(c.where); mix(c.comp * 65536ull + (std::upper_bound(vals[c.comp].begin(), vals[c.comp].end(), c.val) - vals[c.comp].begin())); }
    mix(s.cur); mix(s.spurious); }
  uint64_t run(bool mid = false) {
    bool multi = s.th.size() > 1; track = multi; if (mid) frames(multi);
    // roots: all mutable globals in their fixed order, then whatever they reach, breadth first
    uint32_t ng = 0; for (auto& gl : g.mod->globals()) { uint32_t i = (g.gaddr[&gl] >> 32) - 1; if (i >= g.stateBase) ng++; }
    for (uint32_t i = 0; i < ng; i++) if (!num.count(g.stateBase + i)) { uint32_t n = num.size(); num[g.stateBase + i] = n; queue.push_back(g.stateBase + i); } else if (!mid) g.die("canon");
    for (uint32_t i = 0; multi && i < ng; i++) color[g.stateBase + i] = 128; for (size_t i = 0; i < queue.size(); i++) { curObj = queue[i]; object(queue[i]); } curObj = ~0u; track = false;
    mix(s.liveHeap); if (multi) threads(); else for (auto& m : s.mtx) if (m.owner >= 0) g.die("checkpoint with a locked mutex");
    if (!s.ptrOrder.empty()) { vector<std::pair<uint32_t, uint32_t>> v; for (auto& p : num) { Obj* o = s.mem.get(p.first); if (o && std::find(s.ptrOrder.begin(), s.ptrOrder.end(), o->size) != s.ptrOrder.end()) v.push_back(p); } { uint32_t k = 0; for (auto& x : s.freed) if (std::find(s.ptrOrder.begin(), s.ptrOrder.end(), x.first) != s.ptrOrder.end()) v.push_back({x.second, 1u << 30 | k++}); } mix(v.size()); std::sort(v.begin(), v.end()); for (auto& p : v) mix(p.second); }
    // path constraints connected with live variables; the others are satisfied by the model independently and dropped
    std::set<uint32_t> live; for (auto v : vorder) live.insert(v); vector<char> used(s.pc.size(), 0); bool ch = !live.empty();
    while (ch) { ch = false; for (size_t i = 0; i < s.pc.size(); i++) if (!used[i]) { bool t = false; for (auto v : X.vars(s.pc[i])) if (live.count(v)) { t = true; break; } if (t) { used[i] = 1; for (auto v : X.vars(s.pc[i])) if (live.insert(v).second) ch = true; } } }
    vector<E> npc; for (size_t i = 0; i < s.pc.size(); i++) if (used[i] && std::find(npc.begin(), npc.end(), s.pc[i]) == npc.end()) npc.push_back(s.pc[i]);
    s.pc.swap(npc); for (E e : s.pc) mix(hashE(e));
    if (dump) { txt += "\nPC "; for (E e : s.pc) note(hashE(e)); txt += "live " + std::to_string(s.liveHeap); }
    return h | 1; }
};
std::map<std::pair<const Fn*, uint32_t>, vector<uint64_t>> liveOut;
// slots live before instruction `at`, or (call) after the call at `at` returns or throws
const vector<uint64_t>& liveness(const Fn* cf, uint32_t at, bool call) { Fn* f = const_cast<Fn*>(cf); uint32_t W = (f->nslots + 63) / 64 + 1; size_t n = f->code.size();
  auto viaEdge = [&](const Edge& e, vector<uint64_t>& o) { vector<uint64_t> x = f->live[e.pc]; for (auto& m : e.moves) x[m.first / 64] &= ~(1ull << (m.first % 64)); for (auto& m : e.moves) if (m.second >= 0) x[m.second / 64] |= 1ull << (m.second % 64); for (uint32_t k = 0; k < W; k++) o[k] |= x[k]; };
  auto out = [&](size_t i, vector<uint64_t>& o) { const Inst& x = f->code[i]; switch (x.op) { case I_RET: case I_UNREACH: case I_RESUME: break; case I_BR: viaEdge(f->edges[x.e1], o); break; case I_CBR: viaEdge(f->edges[x.e1], o); viaEdge(f->edges[x.e2], o); break; case I_SWITCH: viaEdge(f->edges[x.e1], o); for (auto& c : x.cases) viaEdge(f->edges[c.second], o); break;
    case I_CALL: if (x.imm == 1) { viaEdge(f->edges[x.e1], o); viaEdge(f->edges[x.e2], o); break; } [[fallthrough]]; default: if (i + 1 < n) for (uint32_t k = 0; k < W; k++) o[k] |= f->live[i + 1][k]; } };
  auto dead = [&](size_t i, vector<uint64_t>& o) { const Inst& x = f->code[i]; if (x.dst >= 0 && x.op != I_STORE) { size_t m = std::max<size_t>(1, x.ws.size()); for (size_t k = 0; k < m; k++) o[(x.dst + k) / 64] &= ~(1ull << ((x.dst + k) % 64)); } };
  if (f->live.empty()) { f->live.assign(n + 1, vector<uint64_t>(W, 0)); bool ch = true;
    while (ch) { ch = false; for (size_t i = n; i-- > 0;) { const Inst& x = f->code[i]; vector<uint64_t> o(W, 0); out(i, o); dead(i, o); auto use = [&](int32_t k) { if (k >= 0 && k < (int32_t)f->nslots) o[k / 64] |= 1ull << (k % 64); }; use(x.a); use(x.b); use(x.c); for (auto k : x.args) use(k); if (o != f->live[i]) { f->live[i] = o; ch = true; } } } }
  if (!call) return f->live[at]; auto key = std::make_pair(cf, at); auto it = liveOut.find(key); if (it != liveOut.end()) return it->second; vector<uint64_t> o(W, 0); out(at, o); dead(at, o); return liveOut[key] = o; }
void mergeHere(S& s, uint64_t salt) { // equal states (call stacks included) are explored once
  nCheck++; Canon cn(*this, s); cn.mix(salt); claim(s, cn.run(true)); }
void claim(S& s, uint64_t h) { uint32_t d = s.th.size() > 1 ? (opt.preempt < 0 ? 0 : std::min(s.preempt, 250u)) : s.steps < 250 ? s.steps : 250;
  uint64_t i = (h * 0x9E3779B97F4A7C15ull) >> (64 - VBITS);
  for (;; i = (i + 1) & VMASK) { uint64_t k = vtab[i]; if (k == 0) { if (__sync_bool_compare_and_swap(&vtab[i], 0ull, h)) { vdep[i] = d; if (__sync_add_and_fetch(&vstat[2], 1) + vstat[0] > VMASK / 4 * 3) die("too many states"); return; } k = vtab[i]; } if (k == h) { if (vdep[i] <= d) throw PathEnd{5}; vdep[i] = d; return; } } }
BRes b_merge(S& s, const Inst& in, vector<V>&, V&) { // like vf_checkpoint, but anywhere: the call stack is part of the state
  if (opt.noMerge || s.th.size() != 1 || in.imm) return B_DONE;
  mergeHere(s, 0x51); return B_DONE; }
BRes b_checkpoint(S& s, const Inst& in, vector<V>&, V&) {
  Thread& t = T(s); if (s.th.size() != 1 || t.fr.size() != 1 || t.fr[0].f->nslots || !t.allocas.empty() || !s.exc.empty() || !t.caught.empty() || in.imm) die("vf_checkpoint: the loop must keep everything in globals");
  usesCk = true; if (s.steps) nSteps++;
  nCheck++; static const char* dumpTo = getenv("VF_DUMPC"); Canon cn(*this, s); cn.dump = dumpTo; uint64_t h = cn.run(); uint32_t d = s.steps < 250 ? s.steps : 250;
  uint64_t i = (h * 0x9E3779B97F4A7C15ull) >> (64 - VBITS); bool isnew = false, seen = false;
  for (;; i = (i + 1) & VMASK) { uint64_t k = vtab[i]; if (k == 0) { if (__sync_bool_compare_and_swap(&vtab[i], 0ull, h)) { vdep[i] = d; isnew = true; uint64_t n = __sync_add_and_fetch(&vstat[0], 1); if (n + vstat[2] > VMASK / 4 * 3) die("too many states"); break; } k = vtab[i]; } if (k == h) { if (vdep[i] <= d) seen = true; else vdep[i] = d; break; } }
  if (isnew && dumpTo) { FILE* f = fopen(dumpTo, "a"); fprintf(f, "STATE depth %u%s\n\n", d, cn.txt.c_str()); fclose(f); } if (d > maxDepthSeen) maxDepthSeen = d;
  if (seen) throw PathEnd{3};
  if (opt.maxSteps >= 0 && (int)s.steps >= opt.maxSteps) { __sync_fetch_and_add(&vstat[1], 1); throw PathEnd{3}; }
  s.steps++; throw PathEnd{4}; }
BRes b_end(S& s, const Inst&, vector<V>&, V&) { s.steps = ~0u; throw PathEnd{0}; }
