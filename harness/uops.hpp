// Driver of generated charts: arbitrary sequences of operations on the machine(s).
#pragma once
#ifndef F_REQ
#define F_REQ 2       // asynchronous machines: requests waiting in the scheduler
#endif
#ifndef F_AREQ
#define F_AREQ 0      // asynchronous machines: requests made by callbacks during one run
#endif
#ifndef F_RENEW
#define F_RENEW 0     // 1: a machine may be destroyed and another one created in its place at any time
#endif
static u8 u_nclear() { return U_NCLEAR; }
#include <new>
#if F_RENEW
static struct alignas(16) Room { unsigned char b[sizeof(M)]; } g_room[F_NM]; static M* makeM(u32 i) { return new (g_room[i].b) M(); } static void killM(u32 i) { g_m[i]->~M(); }
#elif !F_ASYNC
static M* makeM(u32) { return new M(); } static void killM(u32 i) { delete g_m[i]; }
#endif
static void newMachine(u32 i) { O = &OR[i]; memset(O, 0, sizeof(Orc)); memset(O->kid, NONE, sizeof O->kid); memset(O->sh, NONE, sizeof O->sh); memset(O->dh, NONE, sizeof O->dh); g_new = i;
#if F_ASYNC
  if (!g_s) g_s = new Sched(); g_h[i] = g_s->create_processor<M>(); CHK((*g_s)(1) == 1 && g_m[i], "a processor is not created by its request");
#else
  g_m[i] = makeM(i);
#endif
}
extern "C" void __attribute__((noinline)) vk_setup() {
#if F_FAULT || F_COUNT
  vf_fault = u_fault;
#endif
  for (u32 i = 0; i < F_NM; i++) newMachine(i); }
static u32 pendEv;
static u32 objects() { // distinct event objects in the queues
  u32 n = 0; const void* seen[F_NM * (2 * F_QCAP + 4)]; u32 k = 0;
  for (u32 i = 0; i < F_NM; i++) for (u32 j = 0; j < (u32)OR[i].npq + OR[i].ndq; j++) { const Item& x = j < OR[i].npq ? OR[i].pq[j] : OR[i].dq[j - OR[i].npq]; if (!x.known) { n++; continue; } bool dup = false; for (u32 l = 0; l < k; l++) if (seen[l] == x.p) dup = true; if (!dup) { seen[k++] = x.p; n++; } }
  return n; }
static void after(u32 held) {
  u32 q = objects() + pendEv; CHK(O->len || ev_live == q + held, "events are leaked or destroyed early"); CHK(O->len || ev_due == 0, "an event is copied although it need not outlive the call, or is not copied although it has to"); ev_due = 0;
  M& m = *g_m[O - OR]; if (F_TRIG) CHK(m.triggering_event() == 0, "triggering_event() is not null outside of event processing");
  if (F_QUERY) u_queries(m, F_QUERY); else q_chk(m.terminated());
}
#include <new>
#define RUN(call) bool threw = false; u32 tv = 0; try { WATCH(call); } catch (const Boom& b) { threw = true; tv = b.v; } catch (const std::bad_alloc&) { CHK(F_FAULT, "an exception that nobody threw reaches the caller"); threw = true; tv = 0xBADu; } watchOff(); o_end(threw, tv)
#if !F_ASYNC
template<class E> __attribute__((noinline)) void opProcess(M& m, u8 type, bool heap) { u32 v = vf_sym(0, 0xffffffffu);
  if (heap) { EvPtr p(new E(v)); Item it = {type, 1, 1, 0, v, p.get()}; o_process(it); RUN(m.process_event(*p)); u32 h = 1; for (u8 i = 0; i < O->ndq; i++) if (O->dq[i].known && O->dq[i].p == p.get()) h = 0; for (u8 i = 0; i < O->npq; i++) if (O->pq[i].known && O->pq[i].p == p.get()) h = 0; after(h); }
  else { E e(v); Item it = {type, 1, 0, 0, v, &e}; o_process(it); RUN(m.process_event(e)); after(1); }
  after(0); }
#endif
enum { NPROC = F_TYPES * (F_KINDS == 3 ? 2 : 1) };
#if F_NEST
static u32 nest_depth;
static void __attribute__((noinline)) nestedOp() { // a callback of one machine uses another one that is not in use
  if (nest_depth >= F_NEST || !vf_choice(2)) return;
  Orc* o = O; u32 k = (u32)(O - OR), other = (k + 1) % F_NM; if (F_NM > 2 && vf_choice(2)) other = (k + 2) % F_NM; if (OR[other].busy) return; nest_depth++; O = &OR[other]; M& m = *g_m[other];
  switch (vf_choice(3 + F_RENEW + (F_NEST > 1 && room()))) { case 0: { EvA e(vf_sym(0, 0xffffffffu)); Item it = {0, 1, 0, 0, e.v, &e}; o_process(it); RUN(m.process_event(e)); break; } case 1: { o_terminate(); RUN(m.terminate()); break; } case 2: { o_initiate(); RUN(m.initiate()); break; }
    case 3: if (F_RENEW) { o_destroy(); killM(other); o_end(false, 0); CHK(u_empty(), "a state survives the machine"); clearAll(); newMachine(other); break; } default: doPost(m, vf_choice(NPROC)); vf_reach(41); }
  q_chk(g_m[other]->terminated()); O = o; nest_depth--; vf_reach(40); }
#endif
#if F_ASYNC
// Every request is preceded in the scheduler's queue by a work item that tells the oracle what comes next.
static u32 nReq, madeReq, runs; static bool opOpen, dying, haveOp;
static void machineDies(u32 i) { if (opOpen) { o_end(false, 0); clearAll(); } O = &OR[i]; g_m[i] = 0; o_destroy(); opOpen = true; if (!dying) { CHK(haveOp, "a machine is destroyed without a request"); haveOp = false; } }
struct Marker { u8 kind, mach, type; u32 v; const void* p; void operator()() const {
    if (opOpen) { bool dead = O->op == 5; o_end(false, 0); if (dead) clearAll(); opOpen = false; } CHK(!haveOp, "a request is not carried out"); nReq--; if (kind == 0) pendEv--; O = &OR[mach]; vf_log(0x710 + kind, mach); if (!g_m[mach]) { vf_reach(50); return; }
    switch (kind) { case 0: { Item it = {type, 1, 1, 0, v, p}; o_process(it); opOpen = true; break; } case 1: o_terminate(); opOpen = true; break; case 2: o_initiate(); opOpen = true; break; case 3: haveOp = true; break; } vf_reach(51 + kind); } };
static void request() {
  u32 i = F_NM > 1 ? vf_choice(F_NM) : 0, k = vf_choice(F_OPS & 4 ? 4 : 2); Marker mk = {(u8)(k ? k : 0), (u8)i, 0, 0, 0}; if (!(F_OPS & 4) && k == 1) mk.kind = 2;
  if (k == 0) { u32 type = vf_choice(F_TYPES); mk.type = type; mk.v = vf_sym(0, 0xffffffffu); EvPtr e; if (type == 0) e = new EvA(mk.v); else e = new EvB(mk.v); mk.p = e.get(); g_s->queue_work_item(Sched::work_item(mk)); g_s->queue_event(g_h[i], e); pendEv++; }
  else { g_s->queue_work_item(Sched::work_item(mk)); if (mk.kind == 1) g_s->terminate_processor(g_h[i]); else if (mk.kind == 2) g_s->initiate_processor(g_h[i]); else g_s->destroy_processor(g_h[i]); }
  nReq++; vf_reach(49); }
static void nestedOp() { if (madeReq < F_AREQ && nReq < F_REQ && vf_choice(2)) { madeReq++; request(); } }
static void afterAll() { for (u32 i = 0; i < F_NM; i++) if (g_m[i]) { O = &OR[i]; after(0); } if (ev_live != objects() + pendEv) vf_fail("events are leaked or destroyed early"); }
extern "C" void __attribute__((noinline)) vk_op() {
  u32 op = vf_choice(nReq < F_REQ ? 3 : 2); vf_step(); vf_log(0x700, op);
  switch (op) {
  case 0: dying = true; delete g_s; if (opOpen) { o_end(false, 0); clearAll(); } opOpen = false; for (u32 i = 0; i < F_NM; i++) { CHK(!g_m[i], "a machine survives its scheduler"); g_h[i].reset(); } CHK(ev_live == 0 && st_live == 0 && vf_live() == 0, "memory is still in use after destruction of the scheduler"); vf_reach(1); vf_end();
  case 1: { bool threw = false; u32 tv = 0; u32 lim = 2 * vf_choice(2); madeReq = 0; try { (*g_s)(lim); } catch (const Boom& b) { threw = true; tv = b.v; }
      if (opOpen) { bool dead = O->op == 5; o_end(threw, tv); if (dead) clearAll(); opOpen = false; } else CHK(!threw, "an exception leaves the scheduler although none should"); CHK(!haveOp, "a request is not carried out"); if (!threw && lim == 0) CHK(nReq == 0, "the scheduler returns although requests are waiting"); madeReq = 0; vf_reach(2); break; }
  case 2: request(); break; }
  afterAll(); }
#else
extern "C" void __attribute__((noinline)) vk_op() {
  O = &OR[F_NM > 1 ? vf_choice(F_NM) : 0]; M& m = *g_m[O - OR];
  u32 menu[8], n = 0; menu[n++] = 0; if (F_OPS & 1) menu[n++] = 1; if ((F_OPS & 2) && room()) menu[n++] = 2; if (F_OPS & 4) menu[n++] = 3; if (F_OPS & 8) menu[n++] = 4; if ((F_OPS & 16) && U_NCLEAR) menu[n++] = 5; if (F_RENEW) menu[n++] = 6;
  u32 op = menu[vf_choice(n)]; vf_step(); vf_log(0x700, op);
  switch (op) {
  case 0: { u32 i = O - OR; o_destroy(); killM(i); o_end(false, 0); CHK(u_empty(), "a state survives the machine"); clearAll(); u32 q = objects(); CHK(ev_live == q, "events survive the machine");
      for (u32 j = 0; j < F_NM; j++) if (j != i) { O = &OR[j]; u32 qq = O->npq + O->ndq; (void)qq; after(0); o_destroy(); killM(j); o_end(false, 0); clearAll(); }
      CHK(ev_live == 0 && st_live == 0 && vf_live() == 0, "memory is still in use after destruction of the machine"); vf_reach(1); vf_end(); }
  case 1: { u32 k = vf_choice(NPROC), type = k % F_TYPES; bool heap = onHeap(type, k / F_TYPES); if (type == 0) opProcess<EvA>(m, 0, heap); else opProcess<EvB>(m, 1, heap); vf_reach(2); break; }
  case 2: { u32 k = vf_choice(NPROC); if (F_FAULT) { o_op(2); RUN(doPost(m, k)); } else doPost(m, k); after(0); vf_reach(3); break; }
  case 3: { o_terminate(); RUN(m.terminate()); after(0); vf_reach(4); break; }
  case 4: { o_initiate(); RUN(m.initiate()); after(0); vf_reach(5); break; }
  case 6: { u32 i = O - OR; o_destroy(); killM(i); o_end(false, 0); CHK(u_empty(), "a state survives the machine"); clearAll(); CHK(ev_live == objects(), "events survive the machine"); CHK(F_NM > 1 || vf_live() == 0, "memory is still in use after destruction of the machine");
      for (u32 j = 0; j < F_NM; j++) if (j != i) { O = &OR[j]; after(0); } newMachine(i); after(0); vf_reach(7); break; }
  case 5: { u_clear(m, vf_choice(U_NCLEAR)); after(0); vf_reach(6); break; } } }
#endif
extern "C" void vf_main() { vk_setup(); for (;;) { vf_checkpoint(); vk_op(); } }
