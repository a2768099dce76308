// Exploration, parallel workers, results (included inside struct Engine).
void endPath(S& s) {
  nPaths++; if (s.steps == ~0u) nSteps++; else if (!usesCk) nSteps += s.steps; for (auto r : s.reach) reach.insert(r); for (auto h : s.hstates) if (hstates.size() < 2000000) hstates.insert(h);
  uint64_t h = 1469598103934665603ull; auto mix = [&](uint32_t x) { for (int i = 0; i < 4; i++) { h ^= (x >> (8 * i)) & 255; h *= 1099511628211ull; } };
  sampleSeen++; size_t slot = ~0ull; if (samples.size() < opt.sampleCap) { slot = samples.size(); samples.emplace_back(); } else { uint64_t k = rnd() % sampleSeen; if (k < opt.sampleCap) slot = k; }
  if (slot == ~0ull) return;
  for (auto& l : s.log) { mix(l.tag); mix((uint32_t)evalV(s, l.v)); }
  samples[slot] = Sample{inputs(s), h, s.steps};
}
void runOne(S* s) { // runs one state to its end (pushing forks on work)
  uint64_t i0 = s->instr;
  try { step(*s); nInstr += s->instr - i0; work.push_front(s); return; } catch (PathEnd& e) { nInstr += s->instr - i0; if (e.k == 4) { for (auto r : s->reach) reach.insert(r); s->reach.clear(); s->instr = 0; T(*s).fr[0].pc = T(*s).fr[0].pc; parked[s->steps].push_back(s); nParked++; return; } if (e.k == 0 || e.k == 3) endPath(*s); else if (e.k == 5) { nPaths++; for (auto r : s->reach) reach.insert(r); } else if (e.k == 1) { for (auto r : s->reach) reach.insert(r); } }
  delete s;
}
S* nextState(bool bfs) { // pending states first, then the checkpoint with the smallest depth
  if (!work.empty()) { S* s; if (bfs) { s = work.front(); work.pop_front(); } else { s = work.back(); work.pop_back(); } return s; }
  while (!parked.empty()) { auto it = parked.begin(); if (it->second.empty()) { parked.erase(it); continue; } S* s = it->second.front(); it->second.pop_front(); nParked--; return s; }
  return nullptr; }
bool stopNow() { if (sh && sh->stop) return true; if (now() - tStart > opt.time) { timedOut = true; if (sh) sh->stop = 2; return true; } return timedOut; }
static string esc(const string& s) { string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
void writeWorker(const string& fn) {
  FILE* f = fopen(fn.c_str(), "w"); if (!f) die("cannot write " + fn);
  fprintf(f, "C %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %.6f %d %u %llu %llu %u\n", (unsigned long long)nPaths, (unsigned long long)nForks, (unsigned long long)nInstr, (unsigned long long)nSteps, (unsigned long long)nAssume, (unsigned long long)nPruned, (unsigned long long)nAsserts, (unsigned long long)nSymAsserts, (unsigned long long)solver.st.queries, (unsigned long long)solver.st.z3calls, (unsigned long long)solver.st.cacheHits, (unsigned long long)solver.st.sat, (unsigned long long)solver.st.unsat, solver.st.z3time, (int)timedOut, maxVars, (unsigned long long)nMem, (unsigned long long)nCheck, maxDepthSeen);
  for (auto r : reach) fprintf(f, "R %u\n", r);
  for (auto h : hstates) fprintf(f, "H %llx\n", (unsigned long long)h);
  for (auto& x : fns) if (x->hits && (x->lib)) fprintf(f, "F %s\n", x->dname.c_str());
  for (auto& v : viols) { fprintf(f, "V %s\nM %s\nL %s\nI", v.kind.c_str(), v.msg.c_str(), v.loc.c_str()); for (auto x : v.in) fprintf(f, " %u", x); fprintf(f, "\n"); for (auto& b : v.stack) fprintf(f, "B %s\n", b.c_str()); }
  for (auto& p : samples) { fprintf(f, "S %llx %u", (unsigned long long)p.hash, p.steps); for (auto x : p.in) fprintf(f, " %u", x); fprintf(f, "\n"); }
  fclose(f);
}
int drive() {
  vtab = (uint64_t*)mmap(nullptr, (VMASK + 1) * 9 + 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (vtab == MAP_FAILED) die("mmap"); vstat = vtab + VMASK + 1; vdep = (uint8_t*)(vstat + 8);
  S* s0 = new S; initState(*s0); work.push_back(s0);
  pauseForFrontier = true;
  while (work.size() + nParked < (size_t)opt.frontier && !stopNow() && viols.empty()) { S* s = nextState(true); if (!s) break; runOne(s); }
  pauseForFrontier = false;
  int nw = 0; string base = opt.out + ".w";
  if ((!work.empty() || nParked) && !stopNow() && viols.empty()) {
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset((void*)sh, 0, sizeof *sh);
    vector<S*> items(work.begin(), work.end()); work.clear(); for (auto& p : parked) for (auto* x : p.second) items.push_back(x); parked.clear(); nParked = 0; nw = opt.procs; vector<pid_t> pids;
    // shuffle so that expensive neighbours spread over workers
    for (size_t i = items.size(); i > 1; i--) std::swap(items[i - 1], items[rnd() % i]);
    writeWorker(base + "0");
    for (int p = 0; p < nw; p++) { pid_t pid = ::fork(); if (pid < 0) die("fork"); if (pid == 0) {
        nCheck = nPaths = nForks = nInstr = nSteps = nAssume = nPruned = nAsserts = nSymAsserts = nMem = 0; solver.st = Stats(); samples.clear(); viols.clear(); hstates.clear(); sampleSeen = 0; for (auto& f : fns) f->hits = 0; rng += p * 7919 + 1;
        for (;;) { uint32_t i = __sync_fetch_and_add(&sh->next, 1); if (i >= items.size()) break; work.push_back(items[i]);
          while (!stopNow()) { if (work.empty() && sh->next < items.size()) break; S* s = nextState(false); if (!s) break; runOne(s); } if (stopNow()) break; }
        while (!stopNow()) { S* s = nextState(false); if (!s) break; runOne(s); }
        writeWorker(base + std::to_string(p + 1)); fflush(nullptr); _exit(0); }
      pids.push_back(pid); }
    bool bad = false; for (auto p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = true; }
    if (bad) die("a worker failed");
    if (sh->stop == 2) timedOut = true;
  } else writeWorker(base + "0");
  // merge
  double tot[20] = {0}; std::set<string> lib; std::set<uint32_t> rch; std::set<string> hs; string vs; int nv = 0; vector<string> smp; unsigned mv = 0, md = 0; std::set<string> seen;
  for (int p = 0; p <= nw; p++) { std::ifstream f(base + std::to_string(p)); string l; string kind, msg, loc, in; vector<string> st; bool have = false;
    auto flush = [&]() { if (!have) return; have = false; string key = kind + msg + loc; if (!seen.insert(key).second) return; if (nv++) vs += ",\n"; vs += "{\"kind\":\"" + esc(kind) + "\",\"msg\":\"" + esc(msg) + "\",\"loc\":\"" + esc(loc) + "\",\"inputs\":[" + in + "],\"stack\":["; for (size_t i = 0; i < st.size(); i++) vs += (i ? ",\"" : "\"") + esc(st[i]) + "\""; vs += "]}"; };
    while (getline(f, l)) { if (l.size() < 2) continue; string r = l.substr(2); switch (l[0]) {
      case 'C': { std::istringstream is(r); double x; for (int i = 0; i < 19; i++) { is >> x; if (i == 15) { if (x > mv) mv = x; } else if (i == 18) { if (x > md) md = x; } else tot[i] += x; } break; }
      case 'R': rch.insert(stoul(r)); break; case 'H': hs.insert(r); break; case 'F': lib.insert(r); break;
      case 'V': flush(); have = true; kind = r; st.clear(); break; case 'M': msg = r; break; case 'L': loc = r; break; case 'I': { in.clear(); std::istringstream is(r); string x; while (is >> x) { if (!in.empty()) in += ","; in += x; } break; } case 'B': st.push_back(r); break;
      case 'S': smp.push_back(r); break; } if (l == "I") in.clear(); }
    flush(); unlink((base + std::to_string(p)).c_str()); }
  FILE* f = fopen(opt.out.c_str(), "w"); if (!f) die("cannot write result");
  const char* nm[] = {"paths", "forks", "instructions", "steps", "assumes", "pruned", "asserts", "symbolic_asserts", "queries", "solver_calls", "cache_hits", "sat", "unsat"};
  fprintf(f, "{\n"); for (int i = 0; i < 13; i++) fprintf(f, " \"%s\": %.0f,\n", nm[i], tot[i]); fprintf(f, " \"solver_s\": %.3f,\n \"memory_accesses\": %.0f,\n \"max_symbols\": %u,\n \"complete\": %s,\n \"wall_s\": %.2f,\n", tot[13], tot[16], mv, (timedOut || nv) ? "false" : "true", now() - tStart);
  fprintf(f, " \"checkpoints\": %.0f,\n \"states\": %llu,\n \"inner_states\": %llu,\n \"bounded\": %llu,\n \"depth\": %u,\n", tot[17], (unsigned long long)vstat[0], (unsigned long long)vstat[2], (unsigned long long)vstat[1], md);
  fprintf(f, " \"hstates\": %zu,\n \"reach\": [", hs.size()); bool first = true; for (auto r : rch) { fprintf(f, "%s%u", first ? "" : ",", r); first = false; }
  fprintf(f, "],\n \"functions\": ["); first = true; for (auto& x : lib) { fprintf(f, "%s\"%s\"", first ? "" : ",\n  ", esc(x).c_str()); first = false; }
  fprintf(f, "],\n \"violations\": [%s]\n}\n", vs.c_str()); fclose(f);
  f = fopen((opt.out + ".samples").c_str(), "w"); for (auto& x : smp) fprintf(f, "%s\n", x.c_str()); fclose(f);
  fprintf(stderr, "symex: %llu states (%llu bounded, depth %u), %.0f paths, %.0f instr, %.0f queries (%.0f z3), %d violations, %.1fs%s\n", (unsigned long long)vstat[0], (unsigned long long)vstat[1], md, tot[0], tot[2], tot[8], tot[9], nv, now() - tStart, timedOut ? " TIMEOUT" : "");
  return nv ? 1 : timedOut ? 2 : 0;
}
