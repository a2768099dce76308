// fifo_worker (and fifo_scheduler used as a worker): arbitrary sequences of queue / terminate / run calls.
#include "vf.h"
#include <boost/detail/allocator_utilities.hpp>
#include <boost/noncopyable.hpp>
#include <boost/function/function0.hpp>
#include <boost/bind.hpp>
#include <boost/statechart/detail/memory.hpp>
#include <boost/statechart/fifo_scheduler.hpp>
#include <string.h>
typedef uint32_t u32; typedef uint8_t u8; namespace sc = boost::statechart;
#ifndef F_CAP
#define F_CAP 4      // waiting items
#endif
#ifndef F_PER
#define F_PER 3      // items that running items may queue during one run
#endif
#ifdef F_SCHED
typedef sc::fifo_scheduler<> W;
#else
typedef sc::fifo_worker<> W;
#endif
#define CHK VF_CHECK
typedef boost::function0<void> WI;
struct Rec { u32 id; u8 kind; };   // kind 0 item, 1 termination request
static W* g_w; static Rec q[F_CAP + 2]; static u32 nq, executed, live, queuedInRun; static bool done, running, thrown; static u32 thrownId;
struct Boom { u32 v; };
static void qpush(u32 id, u8 kind) { CHK(nq < F_CAP + 2, "harness: queue"); q[nq].id = id; q[nq].kind = kind; nq++; }
static void qpop() { for (u32 i = 1; i < nq; i++) q[i - 1] = q[i]; nq--; memset(&q[nq], 0, sizeof(Rec)); }
static void body(u32 id);
struct Small { u32 id; explicit Small(u32 i) : id(i) { live++; } Small(const Small& o) : id(o.id) { live++; } ~Small() { live--; } void operator()() const { body(id); } };
struct Big : Small { u32 pad[10]; explicit Big(u32 i) : Small(i) { memset(pad, 7, sizeof pad); } void operator()() const { CHK(pad[9] == 0x07070707, "a work item's function object is damaged"); body(id); } };
static void put() { // queue an item by one of the documented routes
  u32 id = vf_sym(0, 0xffffffffu); WI w;
  switch (vf_choice(5)) {
  case 0: { w = Small(id); qpush(id, 0); g_w->queue_work_item(w); CHK(w.empty(), "a work item passed by reference is not moved into the queue"); vf_reach(2); break; }
  case 1: { w = Big(id); const WI& c = w; qpush(id, 0); g_w->queue_work_item(c); CHK(!w.empty(), "a work item passed as a constant is changed"); vf_reach(3); break; }
  case 2: { qpush(id, 0); g_w->queue_work_item(WI(Big(id))); vf_reach(4); break; }
  case 3: { g_w->queue_work_item(w); CHK(w.empty(), "an empty work item changes"); vf_reach(5); break; }
  case 4: { const WI c; g_w->queue_work_item(c); vf_reach(6); break; } } }
static void settle() { while (running && nq && q[0].kind == 1 && !done) { qpop(); executed++; done = true; vf_reach(7); } } // termination requests take effect unseen
static u32 limHi, limLo; static bool haveLimit() { return limHi || limLo; }
static bool atLimit() { return haveLimit() && limHi == 0 && executed == limLo; }
static void body(u32 id) {
  CHK(running, "a work item runs outside of a run of the worker"); if (!(atLimit())) settle(); CHK(!done, "a work item runs although the worker has been terminated"); CHK(!atLimit(), "more work items run than were asked for");
  CHK(nq > 0 && q[0].kind == 0 && q[0].id == id, "work items run out of order, twice, or without having been queued"); qpop(); executed++; vf_log(1, id); CHK(!g_w->terminated(), "terminated() is true while a work item runs");
  for (;;) { u32 k = vf_choice(4); if (k == 0) break;
    if (k == 3) { thrown = true; thrownId = id; vf_reach(8); throw Boom{id}; }
    if (nq >= F_CAP || queuedInRun >= F_PER) break; queuedInRun++;
    if (k == 1) { put(); vf_reach(9); } else { qpush(0, 1); g_w->terminate(); CHK(!g_w->terminated(), "terminated() is true before the request took effect"); vf_reach(10); } }
  vf_merge(); }
static void run() {
  limLo = vf_sym(0, 0xffffffffu); limHi = vf_choice(2) ? 1 : 0; if (limHi) vf_reach(11); running = true; executed = 0; queuedInRun = 0; thrown = false; unsigned long n = 0; bool t = false;
  try { unsigned long lim = ((unsigned long)limHi << 32) | limLo; if (lim == 0 && vf_choice(2)) n = (*g_w)(); else n = (*g_w)(lim); } catch (const Boom& b) { t = true; CHK(thrown && b.v == thrownId, "another exception than the work item's reaches the caller"); }
  if (!t && !atLimit()) settle(); running = false; CHK(t == thrown, "an exception of a work item is lost");
  if (!t) { CHK(n == executed, "the number of executed work items is reported wrongly"); CHK(done || nq == 0 || atLimit(), "the run ends although work is waiting"); vf_reach(12); if (atLimit() && nq) vf_reach(13); if (done && nq) vf_reach(14); }
  CHK(g_w->terminated() == done, "terminated() is wrong"); limLo = limHi = executed = queuedInRun = thrownId = 0; thrown = false; }
extern "C" void __attribute__((noinline)) vk_setup() { g_w = new W(); }
extern "C" void __attribute__((noinline)) vk_op() {
  u32 items = 0; for (u32 i = 0; i < nq; i++) items += q[i].kind == 0; CHK(live == items, "work items are lost, copied or kept");
  u32 op = vf_choice(nq < F_CAP ? 4 : 2); vf_step(); vf_log(0x700, op);
  switch (op) {
  case 0: delete g_w; CHK(live == 0 && vf_live() == 0, "memory is still in use after destruction of the worker"); vf_reach(1); vf_end();
  case 1: run(); break;
  case 2: put(); break;
  case 3: qpush(0, 1); g_w->terminate(); CHK(g_w->terminated() == done, "terminated() changes before the request took effect"); break; } }
extern "C" void vf_main() { vk_setup(); for (;;) { vf_checkpoint(); vk_op(); } }
