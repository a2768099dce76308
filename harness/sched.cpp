// fifo_scheduler with event processors: arbitrary sequences of create / initiate / queue / terminate / destroy / run calls.
#include "vf.h"
#include <boost/statechart/detail/memory.hpp>
#include <boost/statechart/event.hpp>
#include <boost/statechart/fifo_scheduler.hpp>
#include <boost/statechart/event_processor.hpp>
#include <boost/ref.hpp>
#include <string.h>
typedef uint32_t u32; typedef uint8_t u8; namespace sc = boost::statechart;
#ifndef F_CAP
#define F_CAP 3      // waiting requests
#endif
#ifndef F_PER
#define F_PER 2      // requests made by callbacks during one run
#endif
#ifndef F_NP
#define F_NP 2       // processors existing at a time
#endif
#ifndef F_THROW
#define F_THROW 0
#endif
#ifndef F_ARGS
#define F_ARGS 2     // kinds of creation: number of arguments 0..6, 7 = one reference, 8 = two references and a value
#endif
#define CHK VF_CHECK
typedef sc::fifo_scheduler<> Sched; typedef boost::intrusive_ptr<const sc::event_base> EvPtr;
enum { CREATE, INIT, EVENT, TERM, DESTROY, STOP, WORK };
enum { FREE, PENDING, ALIVE, DEAD, BUILDING };
struct Req { u8 kind, rec, how, pad; u32 v; const void* p; };
static Sched* g_s; static Req q[F_CAP + 2]; static u32 nq; static u8 state[F_NP + 1]; static const void* self[F_NP + 1]; static Sched::processor_handle hd[F_NP + 1]; static u32 cell[2];
static u32 ev_live, pr_live, work_live; static bool done, running, thrown, dying; static u32 executed, made, thrownV, limit; static u8 inWork;
struct Boom { u32 v; };
struct Tok { Tok() { ev_live++; } Tok(const Tok&) { ev_live++; } ~Tok() { ev_live--; } };
struct Ev : sc::event<Ev> { u32 v; Tok t; explicit Ev(u32 x) : v(x) {} };
static void push(u8 kind, u8 rec, u32 v = 0, const void* p = 0, u8 how = 0) { CHK(nq < F_CAP + 2, "harness: queue"); Req r = {kind, rec, how, 0, v, p}; q[nq++] = r; }
static void pop() { for (u32 i = 1; i < nq; i++) q[i - 1] = q[i]; nq--; memset(&q[nq], 0, sizeof(Req)); executed++; }
static bool atLimit() { return limit && executed == limit; }
static void settle() { // requests that take effect unseen, or none at all
  while (running && nq && !done && !atLimit()) { u8 k = q[0].kind; if (k == STOP) { done = true; vf_reach(3); } else if (k == CREATE || k == WORK) return; else if (state[q[0].rec] == ALIVE) return; else vf_reach(4 + k); pop(); } }
static void next(u8 kind) { settle(); CHK(running, "a processor is called outside of the scheduler's worker"); CHK(!done && !atLimit(), "a request is carried out although the worker was told to stop"); CHK(nq > 0 && q[0].kind == kind, "a processor is called without a request, or requests are carried out out of order"); }
static u32 val(u32 i) { return 1000 + 17 * i; }
struct ProcBase;
static void act(ProcBase* p, Sched& s); 
struct ProcBase : sc::event_processor<Sched> {
  u8 rec; u32 arg;
  ProcBase(my_context c) : sc::event_processor<Sched>(c), rec(255) { CHK(&my_scheduler() == g_s, "my_scheduler() is not the creating scheduler"); }
  void born(u32 n, u32 how, u32 a0, bool rest) {
    next(CREATE); rec = q[0].rec; CHK(q[0].how == how, "a processor is constructed with another number or kind of arguments"); CHK(n == 0 || a0 == q[0].v, "a constructor argument is wrong"); CHK(rest, "a constructor argument is wrong"); arg = a0;
    CHK(state[rec] == PENDING, "a processor is created twice"); CHK(!(my_handle() < hd[rec]) && !(hd[rec] < my_handle()), "my_handle() is not the handle that was returned for this processor"); pop(); vf_log(1, rec * 16 + how); vf_reach(20 + how);
    state[rec] = BUILDING; try { act(this, my_scheduler()); } catch (...) { state[rec] = DEAD; throw; } state[rec] = ALIVE; self[rec] = this; pr_live++; }
  void live(u8 kind) { next(kind); CHK(rec < F_NP && state[rec] == ALIVE && self[rec] == this, "another object than the live processor is called"); CHK(q[0].rec == rec, "a request reaches another processor than the one addressed"); CHK(!(my_handle() < hd[rec]) && !(hd[rec] < my_handle()), "my_handle() is not the handle that was returned for this processor"); vf_log(2 + kind, rec); vf_reach(30 + kind); }
  void initiate_impl() { live(INIT); pop(); act(this, my_scheduler()); }
  void terminate_impl() { live(TERM); pop(); act(this, my_scheduler()); }
  void process_event_impl(const sc::event_base& e) { live(EVENT); const Ev* x = dynamic_cast<const Ev*>(&e); CHK(x && (const void*)&e == q[0].p && x->v == q[0].v, "a processor gets another event than the one queued, or a changed one"); pop(); act(this, my_scheduler()); CHK(x->v == x->v, ""); }
  ~ProcBase() { if (rec == 255 || state[rec] != ALIVE) return; vf_log(9, dying ? 0 : rec); if (!dying) { live(DESTROY); pop(); } CHK(self[rec] == this, "another object than the live processor is destroyed"); state[rec] = DEAD; self[rec] = 0; pr_live--; }
};
struct P0 : ProcBase { P0(my_context c) : ProcBase(c) { born(0, 0, 0, true); } };
struct PN : ProcBase {
  PN(my_context c, u32 a) : ProcBase(c) { born(1, 1, a, true); }
  PN(my_context c, u32 a, u32 b) : ProcBase(c) { born(2, 2, a, b == val(2)); }
  PN(my_context c, u32 a, u32 b, u32 d) : ProcBase(c) { born(3, 3, a, b == val(2) && d == val(3)); }
  PN(my_context c, u32 a, u32 b, u32 d, u32 e) : ProcBase(c) { born(4, 4, a, b == val(2) && d == val(3) && e == val(4)); }
  PN(my_context c, u32 a, u32 b, u32 d, u32 e, u32 f) : ProcBase(c) { born(5, 5, a, b == val(2) && d == val(3) && e == val(4) && f == val(5)); }
  PN(my_context c, u32 a, u32 b, u32 d, u32 e, u32 f, u32 g) : ProcBase(c) { born(6, 6, a, b == val(2) && d == val(3) && e == val(4) && f == val(5) && g == val(6)); }
};
struct PR : ProcBase {
  PR(my_context c, u32& a) : ProcBase(c) { born(0, 7, 0, &a == &cell[0]); }
  PR(my_context c, u32& a, u32& b, u32 x) : ProcBase(c) { born(1, 8, x, &a == &cell[0] && &b == &cell[1]); }
};
struct Item { u32 v; explicit Item(u32 x) : v(x) { work_live++; } Item(const Item& o) : v(o.v) { work_live++; } ~Item() { work_live--; } void operator()() const { next(WORK); CHK(q[0].v == v, "work items run out of order"); pop(); vf_log(8, v); vf_reach(40); act(0, *g_s); } };
static bool referred(u8 r) { for (u32 i = 0; i < nq; i++) if (q[i].rec == r) return true; return false; }
static bool request(Sched& s) { // one request, from anywhere
  u32 k = vf_choice(7); if (k == STOP) { push(STOP, F_NP + 1); s.terminate(); return true; }
  if (k == WORK) { u32 v = vf_sym(0, 0xffffffffu); push(WORK, F_NP + 1, v); Sched::work_item w = Item(v); if (vf_choice(2)) s.queue_work_item(w); else { const Sched::work_item& c = w; s.queue_work_item(c); } return true; }
  if (k == CREATE) { u8 r = 0; while (r < F_NP && !(state[r] == FREE && !referred(r))) r++; /* handles of dead ones stay around as long as possible */ if (r == F_NP) for (r = 0; r < F_NP && !(state[r] == DEAD && !referred(r));) r++; if (r == F_NP) return false; u32 a = vf_sym(0, 0xffffffffu), how = vf_choice(F_ARGS); state[r] = PENDING; push(CREATE, r, a, 0, how); Sched::processor_handle h;
    switch (how) { case 0: h = s.create_processor<P0>(); break; case 1: h = s.create_processor<PN>(a); break; case 2: h = s.create_processor<PN>(a, val(2)); break; case 3: h = s.create_processor<PN>(a, val(2), val(3)); break; case 4: h = s.create_processor<PN>(a, val(2), val(3), val(4)); break;
      case 5: h = s.create_processor<PN>(a, val(2), val(3), val(4), val(5)); break; case 6: h = s.create_processor<PN>(a, val(2), val(3), val(4), val(5), val(6)); break; case 7: h = s.create_processor<PR>(boost::ref(cell[0])); break; case 8: h = s.create_processor<PR>(boost::ref(cell[0]), boost::ref(cell[1]), a); break; }
    hd[r] = h; CHK(state[r] == PENDING, "a processor is created outside of the scheduler's worker"); return true; }
  u32 r = vf_choice(F_NP + 1); Sched::processor_handle h = hd[r]; // F_NP: an empty handle
  switch (k) { case INIT: push(INIT, r); s.initiate_processor(h); break; case TERM: push(TERM, r); s.terminate_processor(h); break; case DESTROY: push(DESTROY, r); s.destroy_processor(h); break;
    case EVENT: { u32 v = vf_sym(0, 0xffffffffu); EvPtr e(new Ev(v)); push(EVENT, r, v, e.get()); s.queue_event(h, e); break; } }
  return true; }
static void act(ProcBase* p, Sched& s) { // what a callback does
  while (nq < F_CAP && made < F_PER) { if (!vf_choice(2)) break; made++; if (!request(s)) break; vf_reach(41); }
  if (F_THROW && vf_choice(2)) { thrownV = vf_sym(0, 0xffffffffu); thrown = true; vf_reach(42); throw Boom{thrownV}; }
  vf_merge(); }
static void run() {
  limit = vf_sym(0, 0xffffffffu); running = true; executed = made = 0; thrown = false; unsigned long n = 0; bool t = false; u32 tv = 0;
  try { n = (*g_s)(limit); } catch (const Boom& b) { t = true; tv = b.v; }
  if (!t) settle(); running = false; CHK(t == thrown && tv == (t ? thrownV : 0), "an exception of a processor is lost or changed");
  if (!t) { CHK(n == executed, "the number of executed requests is reported wrongly"); CHK(done || nq == 0 || atLimit(), "the run ends although requests are waiting"); }
  CHK(g_s->terminated() == done, "terminated() is wrong"); limit = executed = made = thrownV = 0; thrown = false; }
static void after() { u32 e = 0, w = 0, a = 0; for (u32 i = 0; i < nq; i++) { e += q[i].kind == EVENT; w += q[i].kind == WORK; } for (u32 r = 0; r < F_NP; r++) a += state[r] == ALIVE; CHK(ev_live == e, "events are leaked or released early"); CHK(work_live == w, "work items are leaked or released early"); CHK(pr_live == a, "processors are lost or leaked"); }
extern "C" void __attribute__((noinline)) vk_setup() { memset(state, 0, sizeof state); g_s = new Sched(); }
extern "C" void __attribute__((noinline)) vk_op() {
  u32 op = vf_choice(nq < F_CAP ? 3 : 2); vf_step(); vf_log(0x700, op);
  switch (op) {
  case 0: dying = true; delete g_s; for (u32 r = 0; r < F_NP; r++) CHK(state[r] != ALIVE, "a processor survives its scheduler"); for (u32 r = 0; r < F_NP; r++) hd[r].reset(); CHK(ev_live == 0 && pr_live == 0 && work_live == 0 && vf_live() == 0, "memory is still in use after destruction of the scheduler"); vf_reach(1); vf_end();
  case 1: run(); break;
  case 2: request(*g_s); break; }
  after(); }
extern "C" void vf_main() { vk_setup(); for (;;) { vf_checkpoint(); vk_op(); } }
