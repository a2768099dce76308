// Symbolic state: memory objects, threads, path condition.
#pragma once
#include "solver.hpp"
#include <cstring>
#include <string>

namespace sx {
enum Kind : uint8_t { K_STACK, K_GLOBAL, K_MALLOC, K_NEW, K_NEWARR, K_EXC };
struct SymByte { E e; uint8_t idx; };
const int MAXT = 6;
struct Cell { uint32_t wclk = 0; uint8_t wt = 0; uint32_t r[MAXT] = {0, 0, 0, 0, 0, 0}; };
struct Obj {
  uint32_t rc = 1; uint32_t size; Kind kind; uint32_t tag = 0;
  uint8_t* b; uint8_t* m = nullptr; // m: 0 concrete, 1 undef, 2 symbolic
  std::vector<SymByte>* sym = nullptr; std::vector<Cell>* sh = nullptr;
  Obj(uint32_t n, Kind k, bool undef) : size(n), kind(k) { b = (uint8_t*)malloc(n ? n : 1); if (undef) { m = (uint8_t*)malloc(n ? n : 1); memset(m, 1, n); memset(b, 0xcd, n); } else memset(b, 0, n); }
  Obj(const Obj& o) : size(o.size), kind(o.kind), tag(o.tag) { b = (uint8_t*)malloc(size ? size : 1); memcpy(b, o.b, size); if (o.m) { m = (uint8_t*)malloc(size ? size : 1); memcpy(m, o.m, size); }
    if (o.sym) sym = new std::vector<SymByte>(*o.sym); if (o.sh) sh = new std::vector<Cell>(*o.sh); }
  ~Obj() { free(b); free(m); delete sym; delete sh; }
};
inline void unref(Obj* o) { if (o && --o->rc == 0) delete o; }
const uint32_t PG = 32;
struct Page { uint32_t rc = 1; uint32_t live = 0; Obj* o[PG]; Page() { memset(o, 0, sizeof o); }
  Page(const Page& p) : live(p.live) { for (uint32_t i = 0; i < PG; i++) { o[i] = p.o[i]; if (o[i]) o[i]->rc++; } }
  ~Page() { for (auto x : o) unref(x); } };

struct Memory {
  uint32_t base = 0, next = 0; // ids [base, base+next)
  std::vector<Page*> pages;
  Memory() {}
  Memory(const Memory& o) : base(o.base), next(o.next), pages(o.pages) { for (auto p : pages) if (p) p->rc++; }
  Memory& operator=(const Memory&) = delete;
  ~Memory() { for (auto p : pages) if (p && --p->rc == 0) delete p; }
  Page* wpage(uint32_t pi) { Page* p = pages[pi]; if (p->rc > 1) { Page* n = new Page(*p); p->rc--; pages[pi] = n; p = n; } return p; }
  uint32_t add(Obj* o) { uint32_t id = next++; uint32_t pi = id / PG; if (pi >= pages.size()) pages.push_back(nullptr); if (!pages[pi]) pages[pi] = new Page; Page* p = wpage(pi); p->o[id % PG] = o; p->live++; return base + id; }
  void put(uint32_t id, Obj* o) { id -= base; uint32_t pi = id / PG; if (!pages[pi]) pages[pi] = new Page; Page* p = wpage(pi); p->o[id % PG] = o; p->live++; }
  Obj* get(uint32_t id) const { id -= base; if (id >= next) return nullptr; Page* p = pages[id / PG]; return p ? p->o[id % PG] : nullptr; }
  Obj* wget(uint32_t id) { id -= base; Page* p = wpage(id / PG); Obj* o = p->o[id % PG]; if (o->rc > 1) { Obj* n = new Obj(*o); o->rc--; p->o[id % PG] = n; o = n; } return o; }
  void del(uint32_t id) { id -= base; uint32_t pi = id / PG; Page* p = wpage(pi); unref(p->o[id % PG]); p->o[id % PG] = nullptr; if (--p->live == 0 && (pi + 1) * PG <= next) { delete p; pages[pi] = nullptr; } }
};

struct Fn; struct Inst;
enum RetAct : uint8_t { R_NORMAL, R_FREEEXC, R_THREADEND, R_MAINEND, R_CTOR };
struct Frame { const Fn* f; uint32_t pc; uint32_t regs; uint32_t allocas; RetAct ra; uint64_t rd; int32_t dst; bool isInvoke; uint32_t normalEdge, unwindEdge; };
struct Thread {
  std::vector<Frame> fr; std::vector<V> regs; std::vector<uint32_t> allocas;
  std::vector<uint64_t> caught; int uncaught = 0;
  enum St : uint8_t { RUN, BLOCK_MUTEX, WAIT_COND, JOIN, DONE } st = RUN;
  uint64_t on = 0, mtx = 0; uint32_t mcount = 0; bool yielded = false, woken = false; uint32_t vc[MAXT] = {0, 0, 0, 0, 0, 0};
};
struct Exc { uint64_t obj, ti, dtor, adj; int handlers; int refs; bool thrown; };
struct Mutex { uint64_t a; int owner; int count; uint32_t vc[MAXT]; };
struct LogE { uint32_t tag; V v; uint8_t w; };

struct State {
  Memory mem; std::vector<Thread> th; uint32_t cur = 0;
  std::vector<E> pc; std::vector<uint64_t> model; std::vector<uint64_t> umodel; std::vector<uint32_t> hi, lo; // hi/lo: declared ranges
  std::vector<Exc> exc; std::vector<Mutex> mtx; std::vector<Mutex> atom;
  std::vector<LogE> log; std::vector<uint32_t> reach; std::vector<uint64_t> hstates;
  uint64_t instr = 0; uint32_t depth = 0; uint32_t liveHeap = 0, allocs = 0; uint32_t steps = 0; uint32_t spurious = 0, preempt = 0; uint64_t undefCount = 0; std::vector<uint32_t> ptrOrder;
  std::vector<std::pair<uint32_t, uint32_t>> freed; // --reuse: released blocks (size, id); a new block takes the address of the last one of its size
};
} // namespace sx
