// Events, machine base and callback hooks of generated charts.
#pragma once
#include <boost/statechart/state_machine.hpp>
#include <boost/statechart/simple_state.hpp>
#include <boost/statechart/state.hpp>
#include <boost/statechart/event.hpp>
#include <boost/statechart/custom_reaction.hpp>
#include <boost/statechart/exception_translator.hpp>
#include <boost/statechart/null_exception_translator.hpp>
#include <boost/statechart/shallow_history.hpp>
#include <boost/statechart/deep_history.hpp>
#include <boost/mpl/list.hpp>
#include <boost/intrusive_ptr.hpp>
#ifndef F_ASYNC
#define F_ASYNC 0     // 1: the machines are asynchronous, all calls are requests to one scheduler
#endif
#if F_ASYNC
#include <boost/statechart/asynchronous_state_machine.hpp>
#endif
namespace sc = boost::statechart; namespace mpl = boost::mpl;
#ifndef F_QUERY
#define F_QUERY 0     // 1: queries after every operation; 2: also reference forms; 4: also inside reactions
#endif
#ifndef F_OPS
#define F_OPS 31      // 1 process, 2 external post, 4 terminate, 8 initiate, 16 clear history
#endif
#ifndef F_KINDS
#define F_KINDS 0     // 0: EvA on the stack, EvB on the heap; 1 stack; 2 heap; 3 both
#endif
#ifndef F_REPOST
#define F_REPOST 0    // callbacks may also post event objects again
#endif
#ifndef F_TRIG
#define F_TRIG 0
#endif
#if F_FAULT || F_COUNT
#include <new>
// accounting allocators: every block carries the type and size it was allocated for; 'std' allocations are not expected while the library runs
static u32 std_used; static bool std_watch;
static int u_fault() { if (std_watch) std_used = 1; if (F_FAULT && O->busy && O->op != 5 && O->faults < F_FAULT && vf_choice(2)) { O->faults++; u8 n = O->faults; o_fault(); O->faults = n; return 1; } return 0; }
template<class T> constexpr u32 typeTag() { u32 h = 7; for (const char* p = __PRETTY_FUNCTION__; *p; p++) h = h * 31 + (unsigned char)*p; return h; }
struct AHead { u32 tag, n, who, one; };
template<class T, u32 Who> struct CountAlloc { typedef T value_type; template<class U> struct rebind { typedef CountAlloc<U, Who> other; }; CountAlloc() {} template<class U> CountAlloc(const CountAlloc<U, Who>&) {}
  T* allocate(size_t n, const void* = 0) { bool w = std_watch; std_watch = false; if (u_fault()) { std_watch = w; throw std::bad_alloc(); } std_watch = w; AHead* h = (AHead*)vf_alloc(sizeof(AHead) + n * sizeof(T), 3); h->tag = typeTag<T>(); h->n = n; h->who = Who; h->one = 1; vf_reach(70 + Who); return (T*)(h + 1); }
  void deallocate(T* p, size_t n) { AHead* h = (AHead*)p - 1; CHK(h->one == 1 && h->who == Who, "memory is released through another allocator than it was allocated with"); CHK(h->tag == typeTag<T>() && h->n == n, "memory is released with another type or size than it was allocated with"); h->one = 0; vf_dealloc(h, sizeof(AHead) + n * sizeof(T), 3); }
  template<class U> bool operator==(const CountAlloc<U, Who>&) const { return true; } template<class U> bool operator!=(const CountAlloc<U, Who>&) const { return false; } };
#define U_ALLOC CountAlloc<sc::none, 0>
#define F_EVALLOC , CountAlloc<sc::none, 1>
#define WATCH(x) std_watch = true; x; std_watch = false
static void watchOff() { std_watch = false; CHK(!std_used, "the library allocates or releases memory past the allocator it was given"); }
#else
#define F_EVALLOC
static void watchOff() {}
#define WATCH(x) x
#endif
struct Tok { Tok() { ev_live++; } Tok(const Tok&) { ev_live++; ev_due--; } ~Tok() { ev_live--; } };
struct EvA : sc::event<EvA F_EVALLOC> { u32 v; Tok t; explicit EvA(u32 x) : v(x) {} };
struct EvB : sc::event<EvB F_EVALLOC> { u32 pad, v; Tok t; explicit EvB(u32 x) : pad(0), v(x) {} };
struct EvX : sc::event<EvX F_EVALLOC> { Tok t; };
struct Mix { u32 mixin; Mix() : mixin(77) {} virtual ~Mix() {} };
typedef boost::intrusive_ptr<const sc::event_base> EvPtr;
#if F_TRANSLATOR
typedef sc::exception_translator<EvX> UTrans;
#else
typedef sc::null_exception_translator UTrans;
#endif
#ifndef U_ALLOC
#define U_ALLOC std::allocator<sc::none>
#endif
struct M; static M* g_m[F_NM]; static M* cur_m() { return g_m[O - OR]; }
static void ident(const sc::event_base& e, u8& type, u32& v) { if (const EvA* a = dynamic_cast<const EvA*>(&e)) { type = 0; v = a->v; } else if (const EvB* b = dynamic_cast<const EvB*>(&e)) { type = 1; v = b->v; } else { type = 2; v = 0; CHK(dynamic_cast<const EvX*>(&e) != 0, "an event of unknown type is dispatched"); } }
static void ident(const EvA& e, u8& type, u32& v) { type = 0; v = e.v; }
static void ident(const EvB& e, u8& type, u32& v) { type = 1; v = e.v; }
static void ident(const EvX& e, u8& type, u32& v) { type = 2; v = 0; }
template<class S> const void* sbp(const S* s) { return static_cast<const typename S::state_base_type*>(s); }
static u32 kindCount() { return F_KINDS == 3 ? 2 : 1; }
static bool onHeap(u32 type, u32 k) { return F_KINDS == 0 ? type == 1 : F_KINDS == 3 ? k == 1 : F_KINDS == 2; }
static void pushPq(const Item& it) { CHK(O->npq < F_QCAP + 2, "harness: queue"); O->pq[O->npq++] = it; }
template<class E, class P> __attribute__((noinline)) void postAs(P& poster, bool heap, u32 type) {
  u32 v = vf_sym(0, 0xffffffffu); if (heap) { EvPtr p(new E(v)); Item it = {(u8)type, 1, 1, 0, v, p.get()}; pushPq(it); poster.post_event(p); } else { E e(v); Item it = {(u8)type, 0, 1, 0, v, 0}; pushPq(it); ev_due++; poster.post_event(e); } vf_reach(18 + heap); }
template<class P> void doPost(P& poster, u32 choice) { u32 type = choice % F_TYPES, k = choice / F_TYPES; if (type == 0) postAs<EvA>(poster, onHeap(0, k), 0); else postAs<EvB>(poster, onHeap(1, k), 1); }
// posting an event object again that is already known to the machine: the one being processed, a waiting or a deferred one
template<class P> __attribute__((noinline)) void repost(P& poster, const Item& x, bool byPtr) {
  Item it = x; it.heap = 1; if (!x.heap) { ev_due++; it.known = 0; it.p = 0; } pushPq(it); const sc::event_base* b = (const sc::event_base*)x.p; if (byPtr) { EvPtr p(b); poster.post_event(p); } else poster.post_event(*b); vf_reach(26 + x.heap); }
template<class P> void maybePost(u8 site, P& poster) {
  if ((F_POSTSITES & site) && O->posts < F_POST && room()) {
    u32 n = 1 + F_TYPES * kindCount(), cur = 0, q = 0, d = 0; u8 qi = 0, di = 0;
    if (F_REPOST) { if (O->disp != D_NONE && O->cur.known) cur = n++; while (qi < O->npq && !(O->pq[qi].known && O->pq[qi].heap)) qi++; if (qi < O->npq) q = n++; while (di < O->ndq && !(O->dq[di].known && O->dq[di].heap)) di++; if (di < O->ndq) d = n++; }
    u32 k = vf_choice(n); if (!k) return; O->posts++;
    if (cur && k == cur) { Item it = O->cur; repost(poster, it, false); } else if (q && k == q) { Item it = O->pq[qi]; repost(poster, it, true); } else if (d && k == d) { Item it = O->dq[di]; repost(poster, it, true); } else doPost(poster, k - 1); } }
#ifndef F_NEST
#define F_NEST 0      // callbacks may call into another machine
#endif
#if F_NEST || F_ASYNC
static void nestedOp();
#else
static void nestedOp() {}
#endif
static u32 g_new;
#if F_ASYNC
typedef sc::fifo_scheduler<> Sched; static Sched* g_s; static Sched::processor_handle g_h[F_NM]; static void machineDies(u32 i);
template<class D, class I> struct MBase : sc::asynchronous_state_machine<D, I, Sched, U_ALLOC, UTrans> {
  typedef sc::asynchronous_state_machine<D, I, Sched, U_ALLOC, UTrans> base; u32 idx;
  MBase(typename base::my_context c) : base(c), idx(g_new) { g_m[idx] = static_cast<D*>(this); CHK(&this->my_scheduler() == g_s, "my_scheduler() is not the creating scheduler"); }
  ~MBase() { machineDies(idx); }
#else
template<class D, class I> struct MBase : sc::state_machine<D, I, U_ALLOC, UTrans> {
  typedef sc::state_machine<D, I, U_ALLOC, UTrans> base;
#endif
  using base::post_event;
  void unconsumed_event(const sc::event_base& e) { u8 t; u32 v; ident(e, t, v); o_unconsumed(t, v, &e); if (F_TRIG) o_trig(this->triggering_event()); maybePost(16, *this); nestedOp(); o_maybeThrow(16, 0); }
};
template<class S> void hk_ctor(u8 s, S& self, const void* sb) { o_ctor(s, &self, sb); o_maybeThrow(1, s); o_ctor2(s, &self, sb); }
template<class S> void hk_ctor_st(u8 s, S& self, const void* sb) { o_ctor(s, &self, sb); if (F_TRIG) o_trig(self.triggering_event()); maybePost(1, self); nestedOp(); o_maybeThrow(1, s); o_ctor2(s, &self, sb); if (F_CTX) self.ctx(); }
template<class S> void hk_exit(u8 s, S& self) { o_exit(s, &self); if (F_TRIG) o_trig(self.triggering_event()); if (F_CTX) self.ctx(); maybePost(2, self); nestedOp(); o_maybeThrow(2, s); o_exit2(s); }
template<class S> void hk_dtor(u8 s, S& self) { o_dtor(s, &self); }
template<class P, class E> void hk_act(u8 c, const void* self, P& poster, const E& e) { u8 t; u32 v; ident(e, t, v); o_act(c, self, t, v, &e); if (F_TRIG) o_trig(poster.triggering_event()); maybePost(4, poster); nestedOp(); o_maybeThrow(4, c); }
static void u_queries(M& m, int mode); template<class X> static void u_clear(X& x, uint32_t i);
static u8 u_nclear();
template<class S, class E> u8 hk_react(u8 s, S& self, const E& e) {
  u8 t; u32 v; ident(e, t, v); o_react(s, &self, t, v, &e); if (F_TRIG) o_trig(self.triggering_event()); if (F_CTX) self.ctx(); if ((F_QUERY & 4) && O->disp != D_EXC) u_queries(*cur_m(), 0); maybePost(8, self);
  if (F_CLEARINREACT && O->disp != D_EXC && u_nclear()) { u32 k = vf_choice(1 + u_nclear()); if (k) u_clear(self, k - 1); }
  nestedOp();
  o_maybeThrow(8, s); u8 k = o_choose(s); o_outcome(s, k); return k; }
static void q_chk(bool terminated) { CHK(terminated == u_empty(), "terminated() is wrong"); }
template<class M_> void q_common(M_& m) {
  q_chk(m.terminated()); u8 n = 0; u8 seen[U_N]; memset(seen, 0, sizeof seen);
  for (typename M_::state_iterator i = m.state_begin(); i != m.state_end(); ++i) {
    const void* p = &*i; u8 s = 0; while (s < U_N && O->sb[s] != p) s++;
    CHK(s < U_N && U_NREG[s] == 0, "state iteration yields something that is not an active innermost state"); CHK(!seen[s], "state iteration yields a state twice"); seen[s] = 1; n++;
    const typename M_::state_base_type* q = i->outer_state_ptr(); for (u8 a = U_PARENT[s]; a != MACH; a = U_PARENT[a]) { CHK((const void*)q == O->sb[a], "outer_state_ptr() is not the enclosing state"); q = q->outer_state_ptr(); } CHK(q == 0, "outer_state_ptr() of an outermost state is not null"); }
  { u8 k = 0; typename M_::state_iterator i = m.state_begin(); while (!(i == m.state_end())) { typename M_::state_iterator old = i++; CHK(old != i && &*old == old.operator->(), "state iterator operations disagree"); u8 s = 0; while (s < U_N && O->sb[s] != (const void*)&*old) s++; CHK(s < U_N && seen[s] == 1, "postfix iteration differs from prefix iteration"); seen[s] = 2; k++; } CHK(k == n, "postfix iteration differs from prefix iteration"); }
  u8 want = 0, mix = 0; for (u8 s = 0; s < U_N; s++) { if (O->inst[s] && U_NREG[s] == 0) want++; if (O->inst[s] && s % 3 == 1) mix = 1; } CHK(n == want, "state iteration misses an active innermost state");
  const Mix* x = m.template state_cast<const Mix*>(); CHK((x != 0) == (mix != 0), "state_cast to a base class"); if (x) { CHK(x->mixin == 77, "state_cast to a base class yields a wrong object"); } }
template<class S, class M_> void q_state(M_& m, u8 s, int mode) {
  const S* a = m.template state_cast<const S*>(); CHK((const void*)a == O->inst[s], "state_cast is wrong"); const S* b = m.template state_downcast<const S*>(); CHK((const void*)b == O->inst[s], "state_downcast is wrong");
  if (mode & 2) {
    const void* r = 0; bool threw = false; try { r = &m.template state_cast<const S&>(); } catch (const std::bad_cast&) { threw = true; } CHK(r == O->inst[s] && threw == !r, "state_cast to a reference is wrong");
    r = 0; threw = false; try { r = &m.template state_downcast<const S&>(); } catch (const std::bad_cast&) { threw = true; } CHK(r == O->inst[s] && threw == !r, "state_downcast to a reference is wrong"); } }
