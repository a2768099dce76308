// Workers, schedulers, shared events and machines used from several threads; every schedule at the granularity of lock,
// wait, signal and atomic operations. What a thread records is its own; the main thread compares after joining.
#include "vf.h"
#include <boost/detail/allocator_utilities.hpp>
#include <boost/noncopyable.hpp>
#include <boost/function/function0.hpp>
#include <boost/bind.hpp>
#include <boost/statechart/detail/memory.hpp>
#include <boost/statechart/event.hpp>
#include <boost/statechart/fifo_scheduler.hpp>
#include <boost/statechart/event_processor.hpp>
#include <boost/statechart/state_machine.hpp>
#include <boost/statechart/asynchronous_state_machine.hpp>
#include <boost/statechart/simple_state.hpp>
#include <boost/statechart/custom_reaction.hpp>
#include <boost/statechart/deferral.hpp>
#include <boost/statechart/transition.hpp>
#include <boost/mpl/list.hpp>
typedef uint32_t u32; typedef uint8_t u8; namespace sc = boost::statechart; namespace mpl = boost::mpl;
#ifndef F_SC
#define F_SC 0
#endif
#ifndef F_P
#define F_P 2   // producers
#endif
#ifndef F_K
#define F_K 1   // items per producer
#endif
#define CHK VF_CHECK
#ifdef F_SCHED
typedef sc::fifo_scheduler<> W;
#else
typedef sc::fifo_worker<> W;
#endif
typedef boost::function0<void> WI; typedef boost::intrusive_ptr<const sc::event_base> EvPtr;
static W* g_w;
// ---- what the consumer saw
static u32 nex; static u8 ex[32];
static void saw(u8 x) { CHK(nex < sizeof ex, "more work is carried out than was requested"); ex[nex++] = x; }
static void onItem(u8 p, u8 k);
struct Small { u8 p, k; void operator()() const { onItem(p, k); } };
struct Big { u8 p, k; u32 pad[10]; void operator()() const { onItem(p, k); } };
static void put(u8 p, u8 k) { if ((p + k) & 1) { WI w = Small{p, k}; g_w->queue_work_item(w); CHK(w.empty(), "a work item passed by reference is not moved into the queue"); } else { Big b = {p, k, {}}; g_w->queue_work_item(WI(b)); } }
// the items of producer p that were carried out, in order; they must be the first ones
static u32 got(u8 p) { u32 n = 0; for (u32 i = 0; i < nex; i++) if (ex[i] / 16 == p) { CHK(ex[i] % 16 == n, "the items of one thread are carried out out of order, twice or not at all"); n++; } return n; }
static u32 tid[8]; static u8 arg[8] = {0, 1, 2, 3, 4, 5, 6, 7}; static u32 who;

#if F_SC <= 3
#if F_SC == 3
static void onItem(u8 p, u8 k) { saw(p * 16 + k); if (p == 0 && k == 0) { put(7, 0); put(7, 1); g_w->terminate(); CHK(!g_w->terminated(), "terminated() is true before the request took effect"); } }
#else
static void onItem(u8 p, u8 k) { saw(p * 16 + k); }
#endif
static unsigned long count; static u32 split;
static void producer(void* a) { u8 p = *(u8*)a; for (u8 k = 0; k < F_K; k++) put(p, k); if (F_SC == 0 && who == p) g_w->terminate(); }
static void consumer(void*) {
  if (F_SC == 0 || F_SC == 3) count = (*g_w)();
  else if (F_SC == 1) { count = 0; if (split) count = (*g_w)(split); CHK(count == split, "a run of a waiting worker returns before the given number of items"); if (split < F_P * F_K) count += (*g_w)(F_P * F_K - split); }
  else { count = (*g_w)(split); count += (*g_w)(); } }
#if F_SC == 1 || F_SC == 2
enum { WAITS = F_SC == 1 };
#else
enum { WAITS = 1 };
#endif
extern "C" void vf_main() {
  g_w = new W(WAITS); who = F_SC == 0 ? vf_choice(F_P + 1) : 0; split = F_SC == 1 ? vf_choice(F_P * F_K + 1) : vf_choice(2);
#ifdef F_MAINC
  for (u32 i = 0; i < F_P; i++) tid[i] = vf_thread(producer, &arg[i]); if (F_SC == 0 && who == F_P) g_w->terminate(); consumer(0);
#else
  u32 c = vf_thread(consumer, 0); for (u32 i = 0; i < F_P; i++) tid[i] = vf_thread(producer, &arg[i]); if (F_SC == 0 && who == F_P) g_w->terminate(); vf_join(c);
#endif
  for (u32 i = 0; i < F_P; i++) vf_join(tid[i]);
  if (F_SC == 0) { CHK(g_w->terminated(), "the worker is not terminated"); CHK(count == nex + 1, "the number of executed work items is reported wrongly"); for (u32 p = 0; p < F_P; p++) { u32 g = got(p); if (p == who) CHK(g == F_K, "items queued before the termination request are not carried out"); if (g == F_K) vf_reach(1); else vf_reach(2); } CHK((*g_w)() == 0, "a terminated worker carries out work"); }
  if (F_SC == 1) { CHK(count == nex && nex == F_P * F_K && !g_w->terminated(), "a waiting worker does not carry out the given number of items"); for (u32 p = 0; p < F_P; p++) CHK(got(p) == F_K, "an item is lost"); vf_reach(1); }
  if (F_SC == 2) { CHK(count == nex, "the number of executed work items is reported wrongly"); if (nex < F_P * F_K) vf_reach(2); else vf_reach(1); count += (*g_w)(); CHK(count == nex && nex == F_P * F_K, "an item is lost or carried out twice"); for (u32 p = 0; p < F_P; p++) CHK(got(p) == F_K, "an item is lost"); }
  if (F_SC == 3) { CHK(g_w->terminated() && count == nex + 1, "the number of executed work items is reported wrongly"); CHK(got(7) == 2, "items queued before the termination request are not carried out"); u32 g = got(0); CHK(g >= 1, "an item is lost"); for (u32 p = 1; p < F_P; p++) got(p); if (g < F_K) vf_reach(2); else vf_reach(1); }
  delete g_w; g_w = 0; CHK(vf_live() == 0, "memory is still in use after destruction of the worker"); vf_log(1, nex); for (u32 i = 0; i < nex; i++) vf_log(2, ex[i]); vf_reach(3); }

#elif F_SC == 4 // a waiting scheduler: threads create, initiate, feed, terminate and destroy processors; one event object is shared
static void onItem(u8, u8) {}
static EvPtr* shared; static u32 evDead;
struct Ev : sc::event<Ev> { u8 v; explicit Ev(u8 x) : v(x) {} ~Ev() { evDead++; } };
typedef sc::fifo_scheduler<> Sched; static Sched* g_s;
struct Proc : sc::event_processor<Sched> { u8 p; Proc(my_context c, u8 x) : sc::event_processor<Sched>(c), p(x) { CHK(&my_scheduler() == g_s, "my_scheduler() is wrong"); saw(p * 16 + 0); }
  void initiate_impl() { saw(p * 16 + 1); } void process_event_impl(const sc::event_base& e) { CHK(static_cast<const Ev&>(e).v == 77, "an event changes or dies before it is processed"); saw(p * 16 + 2); EvPtr again = e.intrusive_from_this(); CHK(again.get() == &e, "an event on the heap is copied"); } void terminate_impl() { saw(p * 16 + 3); } ~Proc() { saw(p * 16 + 4); } };
static u8 mode[8];
#ifndef F_MODE
#define F_MODE vf_choice(3)
#endif
static void producer(void* a) { u8 p = *(u8*)a; Sched::processor_handle h = g_s->create_processor<Proc>(p); g_s->initiate_processor(h); { EvPtr e = *shared; g_s->queue_event(h, e); } if (mode[p] == 1) g_s->terminate_processor(h); if (mode[p] == 2) { g_s->destroy_processor(h); g_s->queue_event(h, *shared); } if (who == p) g_s->terminate(); }
static void consumer(void*) { (*g_s)(); }
static bool is(u32 p, u32 g, const u8* w, u32 n, bool all) { u32 k = 0; for (u32 i = 0; i < nex; i++) if (ex[i] / 16 == p) { if (k >= n || ex[i] % 16 != w[k]) return false; k++; } return all ? k == n : true; }
extern "C" void vf_main() {
  g_s = new Sched(true); EvPtr e(new Ev(77)); shared = &e; who = vf_choice(F_P + 1); for (u32 i = 0; i < F_P; i++) mode[i] = F_MODE;
  u32 c = vf_thread(consumer, 0); for (u32 i = 0; i < F_P; i++) tid[i] = vf_thread(producer, &arg[i]); for (u32 i = 0; i < F_P; i++) vf_join(tid[i]); if (who == F_P) g_s->terminate(); vf_join(c); CHK(g_s->terminated(), "the scheduler is not terminated");
  for (u32 p = 0; p < F_P; p++) { static const u8 a[3][4] = {{0, 1, 2, 9}, {0, 1, 2, 3}, {0, 1, 2, 4}}; CHK(is(p, 0, a[mode[p]], mode[p] ? 4 : 3, who == F_P || who == p), "requests for a processor are carried out out of order, twice or not at all"); }
  vf_log(1, nex); CHK(evDead == 0, "a shared event is destroyed while it is referenced"); u32 before = nex; delete g_s; u32 d[8] = {0}; for (u32 i = 0; i < nex; i++) { if (ex[i] % 16 == 0) d[ex[i] / 16]++; if (ex[i] % 16 == 4) d[ex[i] / 16]--; if (i >= before) CHK(ex[i] % 16 == 4, "a processor is called during destruction of the scheduler"); } for (u32 p = 0; p < F_P; p++) CHK(d[p] == 0, "a processor is not destroyed exactly once");
  CHK(evDead == 0, "a shared event is destroyed while it is referenced"); shared = 0; e.reset(); CHK(evDead == 1, "a shared event is not destroyed with its last reference"); CHK(vf_live() == 0, "memory is still in use"); vf_reach(1); }

#elif F_SC == 5 // independent machines in different threads share event objects
static void onItem(u8, u8) {}
struct Ev : sc::event<Ev> { u8 v; explicit Ev(u8 x) : v(x) {} }; struct Go : sc::event<Go> {}; struct A; struct B;
struct M : sc::state_machine<M, A> { u32 n, posted; M() : n(0), posted(0) {} };
struct A : sc::simple_state<A, M> { typedef mpl::list<sc::custom_reaction<Ev>, sc::transition<Go, B> > reactions; sc::result react(const Ev& e) { if (F_K > 1 && outermost_context().posted++ == 0) { post_event(e.intrusive_from_this()); return discard_event(); } return defer_event(); } };
struct B : sc::simple_state<B, M> { typedef sc::custom_reaction<Ev> reactions; sc::result react(const Ev& e) { CHK(e.v == 77, "an event changes or dies before it is processed"); outermost_context().n++; return discard_event(); } };
static EvPtr* shared;
static void work(void*) { M* m = new M; m->initiate(); { EvPtr e = *shared; m->process_event(*e); } m->process_event(Go()); CHK(m->n == 1 && m->state_cast<const B*>() != 0, "a shared event is not processed"); delete m; }
extern "C" void vf_main() { EvPtr* e = new EvPtr(new Ev(77)); shared = e; for (u32 i = 0; i < F_P; i++) tid[i] = vf_thread(work, 0); 
#ifdef F_EARLY
  for (u32 i = 0; i < F_P; i++) vf_join(tid[i]); delete e;
#else
  work(0); for (u32 i = 0; i < F_P; i++) vf_join(tid[i]); delete e;
#endif
  CHK(vf_live() == 0, "memory is still in use"); vf_reach(1); }

#elif F_SC == 6 // asynchronous machines in two schedulers, each in its own thread, play ping pong
static void onItem(u8, u8) {}
typedef sc::fifo_scheduler<> Sched; struct Playing; struct Player;
struct Ball : sc::event<Ball> { u32 n; explicit Ball(u32 x) : n(x) {} };
static Sched* sch[2]; static Sched::processor_handle hd[2]; static u32 seen[2], born[2], died[2];
struct Player : sc::asynchronous_state_machine<Player, Playing, Sched> { u8 me; Player(my_context c, u8 m) : my_base(c), me(m) { born[me]++; } ~Player() { died[me]++; } };
struct Playing : sc::simple_state<Playing, Player> { typedef sc::custom_reaction<Ball> reactions; sc::result react(const Ball& b) { u8 me = outermost_context().me; CHK(b.n % 2 == me, "an event reaches the wrong machine"); CHK(b.n / 2 == seen[me], "an event is lost, duplicated or out of order"); seen[me]++; u8 o = 1 - me;
    if (b.n < F_K) sch[o]->queue_event(hd[o], EvPtr(new Ball(b.n + 1))); else { sch[o]->terminate(); outermost_context().my_scheduler().terminate(); } return discard_event(); } };
static void run(void* a) { u8 i = *(u8*)a; (*sch[i])(); CHK(sch[i]->terminated(), "a run of a waiting scheduler ends without a termination request"); }
extern "C" void vf_main() { for (u32 i = 0; i < 2; i++) { sch[i] = new Sched(true); hd[i] = sch[i]->create_processor<Player>((u8)i); sch[i]->initiate_processor(hd[i]); }
#ifdef F_LATE
  tid[0] = vf_thread(run, &arg[0]); tid[1] = vf_thread(run, &arg[1]); sch[0]->queue_event(hd[0], EvPtr(new Ball(0))); vf_join(tid[0]);
#else
  sch[0]->queue_event(hd[0], EvPtr(new Ball(0))); tid[1] = vf_thread(run, &arg[1]); run(&arg[0]);
#endif
  vf_join(tid[1]); CHK(seen[0] + seen[1] == F_K + 1, "events are lost"); for (u32 i = 0; i < 2; i++) { delete sch[i]; hd[i].reset(); CHK(born[i] == 1 && died[i] == 1, "a machine is not created and destroyed exactly once"); } CHK(vf_live() == 0, "memory is still in use"); vf_reach(1); }
#endif
