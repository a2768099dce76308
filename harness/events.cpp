// Event objects and the pointers that share them: arbitrary sequences of creations, copies, assignments and releases.
#include "vf.h"
#include <boost/detail/allocator_utilities.hpp>
#include <boost/statechart/detail/memory.hpp>
#include <boost/statechart/event.hpp>
#include <boost/intrusive_ptr.hpp>
#include <string.h>
#include <new>
#include <memory>
typedef uint32_t u32; typedef uint8_t u8; namespace sc = boost::statechart;
#ifndef F_SLOTS
#define F_SLOTS 2
#endif
#ifndef F_OBJS
#define F_OBJS 2     // heap events alive at a time
#endif
#ifndef F_MANY
#define F_MANY 300 // references taken and given back in one go
#endif
#define CHK VF_CHECK
typedef boost::intrusive_ptr<const sc::event_base> P;
enum { TYPES = 3 };
static u32 live[TYPES], made[TYPES], blocks;
template <class T> struct Al { typedef T value_type; typedef T* pointer; typedef const T* const_pointer; typedef T& reference; typedef const T& const_reference; typedef size_t size_type; typedef ptrdiff_t difference_type; template <class U> struct rebind { typedef Al<U> other; }; Al() {} template <class U> Al(const Al<U>&) {}
  T* allocate(size_t n, const void* = 0) { blocks += n; return (T*)::operator new(n * sizeof(T)); } void deallocate(T* p, size_t n) { blocks -= n; ::operator delete((void*)p); } };
template <u32 N> struct Tok { u32 a, b; explicit Tok(u32 x) : a(x), b(~x) { live[N]++; made[N]++; } Tok(const Tok& o) : a(o.a), b(o.b) { CHK(o.a == ~o.b, "an event is copied from damaged contents"); live[N]++; made[N]++; } Tok& operator=(const Tok& o) { a = o.a; b = o.b; return *this; } ~Tok() { CHK(a == ~b, "an event is destroyed twice or damaged"); a = b; live[N]--; } };
struct E0 : sc::event<E0> { Tok<0> t; explicit E0(u32 x) : t(x) {} };
struct Other { u32 pad[3]; virtual ~Other() {} };
struct E1 : Other, sc::event<E1> { Tok<1> t; explicit E1(u32 x) : t(x) {} };             // the event part is not at the start
struct E2 : sc::event<E2, Al<sc::none> > { Tok<2> t; u32 big[9]; explicit E2(u32 x) : t(x) { memset(big, 3, sizeof big); } }; // own allocator
struct Rec { u8 used, type; u32 refs, val; const sc::event_base* p; };
static Rec rec[F_OBJS]; static P* slot; static u8 at[F_SLOTS]; // 255 = null
static sc::event_base* stack[TYPES]; static u32 sval[TYPES];
static u32 valueOf(const sc::event_base& e, u32 type) { switch (type) { case 0: return static_cast<const E0&>(e).t.a; case 1: return static_cast<const E1&>(e).t.a; default: return static_cast<const E2&>(e).t.a; } }
static sc::event_base* make(u32 type, u32 v) { switch (type) { case 0: return new E0(v); case 1: return new E1(v); default: return new E2(v); } }
static void kill(u32 type) { switch (type) { case 0: delete static_cast<E0*>(stack[0]); break; case 1: delete static_cast<E1*>(stack[1]); break; default: delete static_cast<E2*>(stack[2]); } stack[type] = 0; }
static sc::event_base* copyOf(const sc::event_base& e, u32 type) { switch (type) { case 0: return new E0(static_cast<const E0&>(e)); case 1: return new E1(static_cast<const E1&>(e)); default: return new E2(static_cast<const E2&>(e)); } }
static void assign(const sc::event_base& d, const sc::event_base& e, u32 type) { switch (type) { case 0: const_cast<E0&>(static_cast<const E0&>(d)) = static_cast<const E0&>(e); break; case 1: const_cast<E1&>(static_cast<const E1&>(d)) = static_cast<const E1&>(e); break; default: const_cast<E2&>(static_cast<const E2&>(d)) = static_cast<const E2&>(e); } }
static void check() {
  u32 n[TYPES] = {0}; for (u32 i = 0; i < F_OBJS; i++) if (rec[i].used) { Rec& r = rec[i]; n[r.type]++; CHK(r.p->ref_count() == (long)r.refs && r.p->ref_counted() == (r.refs != 0), "the reference count of an event is wrong"); CHK(valueOf(*r.p, r.type) == r.val, "an event changes"); CHK(r.p->dynamic_type() == (r.type == 0 ? E0::static_type() : r.type == 1 ? E1::static_type() : E2::static_type()), "an event has the wrong type"); }
  for (u32 t = 0; t < TYPES; t++) if (stack[t]) { n[t]++; CHK(!stack[t]->ref_counted() && valueOf(*stack[t], t) == sval[t], "an event nobody refers to changes"); }
  for (u32 t = 0; t < TYPES; t++) CHK(live[t] == n[t], "an event is destroyed too early, too late or twice");
  CHK(blocks == n[2], "the allocator of an event type is not used for all of its events");
  for (u32 i = 0; i < F_SLOTS; i++) CHK(slot[i].get() == (at[i] == 255 ? 0 : rec[at[i]].p), "a pointer refers to another event"); }
static u32 freeRec() { for (u32 i = 0; i < F_OBJS; i++) if (!rec[i].used) return i; return 255; }
static void hold(u32 s, u32 r) { // slot s now refers to r
  u8 o = at[s]; if (r != 255) rec[r].refs++; at[s] = r; if (o != 255 && --rec[o].refs == 0) memset(&rec[o], 0, sizeof(Rec)); }
static void fresh(u32 r, const sc::event_base* p, u32 type, u32 v) { Rec& x = rec[r]; x.used = 1; x.type = type; x.refs = 0; x.val = v; x.p = p; for (u32 i = 0; i < F_OBJS; i++) CHK(i == r || !rec[i].used || rec[i].p != p, "a new event shares memory with another one"); }
extern "C" void __attribute__((noinline)) vk_setup() { slot = new P[F_SLOTS]; for (u32 i = 0; i < F_SLOTS; i++) at[i] = 255; }
static void __attribute__((noinline)) one() {
  vf_step(); u32 op = vf_choice(11); vf_log(0x700, op); u32 s = vf_choice(F_SLOTS); u32 m[TYPES]; for (u32 t = 0; t < TYPES; t++) m[t] = made[t] = 0;
  switch (op) {
  case 0: { delete[] slot; slot = 0; for (u32 i = 0; i < F_OBJS; i++) memset(&rec[i], 0, sizeof(Rec)); for (u32 t = 0; t < TYPES; t++) if (stack[t]) kill(t); for (u32 t = 0; t < TYPES; t++) CHK(live[t] == 0, "an event outlives its last pointer"); CHK(vf_live() == 0 && blocks == 0, "memory is still in use"); vf_reach(1); vf_end(); }
  case 1: { u32 r = freeRec(); if (r == 255) return; u32 t = vf_choice(TYPES), v = vf_sym(0, ~0u); sc::event_base* p = make(t, v); fresh(r, p, t, v); slot[s] = P(p); hold(s, r); vf_reach(2); break; }
  case 2: { u32 d = vf_choice(F_SLOTS); slot[d] = slot[s]; hold(d, at[s]); vf_reach(3); break; }
  case 3: { slot[s].reset(); hold(s, 255); vf_reach(4); break; }
  case 4: { u32 d = vf_choice(F_SLOTS); slot[s].swap(slot[d]); u8 x = at[s]; at[s] = at[d]; at[d] = x; vf_reach(5); break; }
  case 5: { u32 t = vf_choice(TYPES); if (stack[t]) { kill(t); sval[t] = 0; vf_reach(6); } else { u32 v = vf_sym(0, ~0u); stack[t] = make(t, v); sval[t] = v; } break; }
  case 6: { u32 t = vf_choice(TYPES); if (!stack[t]) return; u32 r = freeRec(); if (r == 255) return; const sc::event_base& e = *stack[t]; { P q = e.intrusive_from_this(); CHK(q.get() != &e, "an event nobody refers to is shared instead of copied"); for (u32 i = 0; i < TYPES; i++) CHK(made[i] == (i == t), "an event is copied more than once or as another type"); fresh(r, q.get(), t, sval[t]); slot[s] = q; } hold(s, r); vf_reach(7); break; }
  case 7: { if (at[s] == 255) return; u32 d = vf_choice(F_SLOTS); { P q = slot[s]->intrusive_from_this(); CHK(q.get() == slot[s].get(), "a shared event is copied instead of shared"); CHK(!made[0] && !made[1] && !made[2], "a shared event is copied"); slot[d] = q; } hold(d, at[s]); vf_reach(8); break; }
  case 8: { if (at[s] == 255) return; u32 r = freeRec(); if (r == 255) return; u32 t = rec[at[s]].type; sc::event_base* p = copyOf(*slot[s], t); CHK(!p->ref_counted() && p->ref_count() == 0, "a copy of an event starts with the original's references"); fresh(r, p, t, rec[at[s]].val); u32 d = vf_choice(F_SLOTS); slot[d] = P(p); hold(d, r); vf_reach(9); break; }
  case 9: { u32 d = vf_choice(F_SLOTS + 1); if (at[s] == 255) return; u32 t = rec[at[s]].type; if (d == F_SLOTS) { if (!stack[t]) return; assign(*slot[s], *stack[t], t); rec[at[s]].val = sval[t]; vf_reach(11); break; } if (at[d] == 255 || t != rec[at[d]].type) return; assign(*slot[d], *slot[s], t); rec[at[d]].val = rec[at[s]].val; vf_reach(10); break; }
  case 10: { if (at[s] == 255) return; const sc::event_base* p = slot[s].get(); u32 n = F_MANY; for (u32 i = 0; i < n; i++) { intrusive_ptr_add_ref(p); } rec[at[s]].refs += n; CHK(p->ref_count() == (long)rec[at[s]].refs, "the reference count of an event is wrong"); for (u32 i = 0; i < n; i++) intrusive_ptr_release(p); rec[at[s]].refs -= n; vf_reach(12); break; } }
  }
extern "C" void __attribute__((noinline)) vk_op() { one(); made[0] = made[1] = made[2] = 0; check(); }
extern "C" void vf_main() { vk_setup(); for (;;) { vf_checkpoint(); vk_op(); } }
