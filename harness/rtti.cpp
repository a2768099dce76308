// Identification of events and states by type: events of symbolic dynamic type, custom type information.
#include "vf.h"
#include <boost/statechart/state_machine.hpp>
#include <boost/statechart/simple_state.hpp>
#include <boost/statechart/state.hpp>
#include <boost/statechart/event.hpp>
#include <boost/statechart/custom_reaction.hpp>
#include <boost/statechart/in_state_reaction.hpp>
#include <boost/statechart/transition.hpp>
#include <boost/mpl/list.hpp>
#include <boost/intrusive_ptr.hpp>
#include <string.h>
typedef uint32_t u32; typedef uint8_t u8; namespace sc = boost::statechart; namespace mpl = boost::mpl;
#define CHK VF_CHECK
struct Mix { u32 mix; Mix() : mix(5) {} virtual ~Mix() {} };
enum { NE = 5, ANY = 9 };
struct Id { u32 kind, v; Id(u32 k, u32 x) : kind(k), v(x) {} };
struct E0 : sc::event<E0>, Id { explicit E0(u32 x) : Id(0, x) {} };
struct E1 : Mix, sc::event<E1>, Id { explicit E1(u32 x) : Id(1, x) {} };             // event part not at offset 0
template<class D, u32 K> struct Mid : sc::event<D>, Id { explicit Mid(u32 x) : Id(K, x) {} };
struct E2 : Mid<E2, 2> { explicit E2(u32 x) : Mid<E2, 2>(x) {} };
namespace inner { struct E2 : Mid<E2, 3> { explicit E2(u32 x) : Mid<E2, 3>(x) {} }; }    // same name, other type
typedef inner::E2 E3;
template<class T> struct Tpl : sc::event<Tpl<T> >, Id { explicit Tpl(u32 x) : Id(4, x) {} }; typedef Tpl<int> E4; typedef Tpl<unsigned> E5; // E5 is handled by nobody by name
static const sc::event_base* g_e; static u32 g_kind, g_v, calls; static u8 hit[16], hitBy[16]; static u8 fwd[16];
static bool record(u8 level, u8 by, const void* self, const void* obj) { CHK(calls < 8, "an event is offered endlessly"); CHK(obj == self, "a reaction sees another event object"); hit[calls] = level; hitBy[calls] = by; bool f = vf_choice(2); fwd[calls] = f; calls++; return f; }
template<class S, class E> sc::result on(S& s, u8 level, u8 by, const E& e) { CHK(by == ANY || e.v == g_v, "a reaction sees an event with other contents"); return record(level, by, static_cast<const sc::event_base*>(&e), g_e) ? s.forward_event() : s.discard_event(); }
template<class S> sc::result onAny(S& s, u8 level, const sc::event_base& e) { return record(level, ANY, &e, g_e) ? s.forward_event() : s.discard_event(); }
struct S0; struct S1; struct S2; struct S3; struct S4; struct T0; struct T1;
static u32 unconsumed;
struct M : sc::state_machine<M, S0> { void unconsumed_event(const sc::event_base& e) { CHK(&e == g_e, "another event is reported as unconsumed"); unconsumed++; } };
struct GoIn : sc::event<GoIn> {};
struct S0 : sc::simple_state<S0, M, mpl::list<S1, T0> > { typedef mpl::list<sc::custom_reaction<E2>, sc::custom_reaction<E3>, sc::custom_reaction<E0>, sc::custom_reaction<E4> > reactions;
  sc::result react(const E2& e) { return on(*this, 0, 2, e); } sc::result react(const E3& e) { return on(*this, 0, 3, e); } sc::result react(const E0& e) { return on(*this, 0, 0, e); } sc::result react(const E4& e) { return on(*this, 0, 4, e); } };
struct S1 : sc::state<S1, S0::orthogonal<0>, S2>, Mix { S1(my_context c) : my_base(c) {} typedef mpl::list<sc::custom_reaction<E1>, sc::custom_reaction<sc::event_base>, sc::custom_reaction<E0> > reactions;
  sc::result react(const E1& e) { return on(*this, 1, 1, e); } sc::result react(const sc::event_base& e) { return onAny(*this, 1, e); } sc::result react(const E0& e) { return on(*this, 1, 0, e); } };
struct S2 : sc::simple_state<S2, S1, S3> { typedef sc::custom_reaction<E3> reactions; sc::result react(const E3& e) { return on(*this, 2, 3, e); } };
template<class D> struct Sm : Mix { };
struct S3 : Sm<S3>, sc::simple_state<S3, S2> { typedef mpl::list<sc::custom_reaction<E4>, sc::custom_reaction<E1>, sc::transition<GoIn, S4> > reactions; sc::result react(const E4& e) { return on(*this, 3, 4, e); } sc::result react(const E1& e) { return on(*this, 3, 1, e); } };
struct S4 : sc::simple_state<S4, S2>, Mix { typedef mpl::list<sc::custom_reaction<E2>, sc::custom_reaction<sc::event_base> > reactions; sc::result react(const E2& e) { return on(*this, 4, 2, e); } sc::result react(const sc::event_base& e) { return onAny(*this, 4, e); } };
struct T0 : sc::simple_state<T0, S0::orthogonal<1> > { typedef sc::in_state_reaction<E3> reactions; };
static u8 list[6][5] = {{2, 3, 0, 4, 255}, {1, ANY, 0, 255}, {3, 255}, {4, 1, 255}, {2, ANY, 255}, {3, 255}};
static u32 firstOf(u32 l, u32 k) { for (u32 i = 0; list[l][i] != 255; i++) if (list[l][i] == k || list[l][i] == ANY) return list[l][i]; return 255; }
template<class E> static void send(M& m, bool inner, u32 kind, bool heap) {
  u32 v = vf_sym(0, 0xffffffffu); g_v = v; g_kind = kind; calls = unconsumed = 0;
  if (heap) { boost::intrusive_ptr<E> p(new E(v)); g_e = p.get(); m.process_event(*p); } else { E e(v); g_e = &e; m.process_event(e); }
  // expected: region 0 searched from the innermost state, region 1 too, in either order; T0 consumes E3 silently
  u32 chain0[4] = {inner ? 4u : 3u, 2, 1, 0}; bool ok = false;
  for (u32 order = 0; order < 2 && !ok; order++) { u32 n = 0; bool consumed = false, bad = false;
    for (u32 r = 0; r < 2 && !consumed && !bad; r++) {
      if ((r == 0) == (order == 0)) { for (u32 i = 0; i < 4 && !consumed && !bad; i++) { u32 by = firstOf(chain0[i], kind); if (by == 255) continue; if (n >= calls || hit[n] != chain0[i] || hitBy[n] != by) bad = true; else { if (!fwd[n]) consumed = true; n++; } } }
      else { if (kind == 3) consumed = true; else { u32 by = firstOf(0, kind); if (by != 255) { if (n >= calls || hit[n] != 0 || hitBy[n] != by) bad = true; else { if (!fwd[n]) consumed = true; n++; } } } } }
    if (!bad && n == calls && unconsumed == (consumed ? 0u : 1u)) ok = true; }
  CHK(ok, "a reaction runs for an event of another type, or the reaction for the event's type does not run"); vf_reach(10 + kind); }
template<class A, class B> static bool same(const A& a, const B& b) { return a.dynamic_type() == B::static_type(); }
template<class T> static u32 typeHits(const T& t) { return (t == E0::static_type()) + 2 * (t == E1::static_type()) + 4 * (t == E2::static_type()) + 8 * (t == E3::static_type()) + 16 * (t == E4::static_type()) + 32 * (t == E5::static_type()) + 64 * (t == GoIn::static_type()); }
static u32 stateHits(const M::state_base_type& s) { M::state_base_type::id_type t = s.dynamic_type(); return (t == S0::static_type()) + 2 * (t == S1::static_type()) + 4 * (t == S2::static_type()) + 8 * (t == S3::static_type()) + 16 * (t == S4::static_type()) + 32 * (t == T0::static_type()); }
typedef sc::event_base::id_type idt;
static idt idOf(u32 i) { switch (i) { case 0: return E0::static_type(); case 1: return E1::static_type(); case 2: return E2::static_type(); case 3: return E3::static_type(); case 4: return E4::static_type(); case 5: return S0::static_type(); case 6: return S3::static_type(); default: return E5::static_type(); } }
static void order() { u32 a = vf_choice(8), b = vf_choice(8), c = vf_choice(8); idt x = idOf(a), y = idOf(b), z = idOf(c);
  CHK((x == y) == (a == b) && (x != y) == (a != b), "type ids of different types compare equal, or of the same type different"); CHK(((x < y) ? 1 : 0) + ((y < x) ? 1 : 0) == (a != b), "type ids are not totally ordered"); CHK((x > y) == (y < x) && (x <= y) == !(y < x) && (x >= y) == !(x < y), "comparisons of type ids disagree"); if (x < y && y < z) CHK(x < z, "the order of type ids is not transitive"); vf_reach(20); }
template<class Ev> static void types(u32 k) { Ev e(1); CHK(typeHits(e.dynamic_type()) == 1u << k, "dynamic_type() is not exactly the type of the event"); Ev f(e); CHK(f.dynamic_type() == Ev::static_type(), "dynamic_type() of a copied event"); E0 other(2); CHK((other.dynamic_type() == e.dynamic_type()) == (k == 0), "types of different events"); }
#ifndef BOOST_STATECHART_USE_NATIVE_RTTI
// ---- custom type information
static u32 asserted; static void onAssert(const char*) { asserted++; }
#endif
static M* g_m; static bool g_in;
#ifndef BOOST_STATECHART_USE_NATIVE_RTTI
#ifdef BOOST_DISABLE_ASSERTS
#define F_CTY 0
#else
#define F_CTY ty
#endif
struct Ca { char c; }; struct Cb { u32 x; };
struct Slot { u32 v; u8 ty, used; }; static Slot cs[6]; // S0 S1 S3 E0 E2 E3
template<class T, class C> static void setC(u32 v) { T::template custom_static_type_ptr<C>((const C*)(uintptr_t)v); }
template<class T> static void setT(u32 v, u32 ty) { if (ty == 0) setC<T, Ca>(v); else if (ty == 1) setC<T, Cb>(v); else setC<T, Mix>(v); }
template<class T, class C> static u32 getC() { return (u32)(uintptr_t)T::template custom_static_type_ptr<C>(); }
template<class T> static u32 getT(u32 ty) { return ty == 0 ? getC<T, Ca>() : ty == 1 ? getC<T, Cb>() : getC<T, Mix>(); }
template<class O> static u32 getD(const O& o, u32 ty) { return (u32)(uintptr_t)(ty == 0 ? (const void*)o.template custom_dynamic_type_ptr<Ca>() : ty == 1 ? (const void*)o.template custom_dynamic_type_ptr<Cb>() : (const void*)o.template custom_dynamic_type_ptr<Mix>()); }
static void customOp() {
  u32 c = vf_choice(6), ty = vf_choice(3); asserted = 0;
  if (vf_choice(2)) { if (!cs[c].used) { u32 n = 0; for (u32 i = 0; i < 6; i++) n += cs[i].used; vf_assume(n < 2); } cs[c].used = 1; u32 v = vf_sym(0, 0xffffffffu); switch (c) { case 0: setT<S0>(v, ty); break; case 1: setT<S1>(v, ty); break; case 2: setT<S3>(v, ty); break; case 3: setT<E0>(v, ty); break; case 4: setT<E2>(v, ty); break; case 5: setT<E3>(v, ty); break; } cs[c].v = v; cs[c].ty = F_CTY; CHK(asserted == 0, "an assertion fails although custom type information is used correctly"); vf_reach(30); return; }
  u32 r = 0, d = 0; bool dyn = false; E0 e0(1); E2 e2(1); E3 e3(1);
  switch (c) { case 0: r = getT<S0>(ty); break; case 1: r = getT<S1>(ty); break; case 2: r = getT<S3>(ty); break; case 3: r = getT<E0>(ty); dyn = true; d = getD(e0, ty); break; case 4: r = getT<E2>(ty); dyn = true; d = getD(e2, ty); break; case 5: r = getT<E3>(ty); dyn = true; d = getD(e3, ty); break; }
  if (c < 3) { const M::state_base_type* s = 0; if (c == 0) s = g_m->state_downcast<const S0*>(); else if (c == 1) s = g_m->state_downcast<const S1*>(); else s = g_m->state_downcast<const S3*>(); if (s) { dyn = true; d = getD(*s, ty); } }
  u32 want = cs[c].v; if (want && cs[c].ty != ty) { 
#ifndef BOOST_DISABLE_ASSERTS
    CHK(asserted == 1u + dyn, "custom type information read as another type is not reported"); vf_reach(31);
#endif
  } else { CHK(asserted == 0, "an assertion fails although custom type information is used correctly"); CHK(r == want, "custom type information is not the one set for the class"); if (dyn) CHK(d == want, "custom type information of an object is not the one set for its class"); vf_reach(32); } asserted = 0; }
#endif
extern "C" void __attribute__((noinline)) vk_setup() { g_m = new M(); g_m->initiate(); }
extern "C" void __attribute__((noinline)) vk_op() {
  M& m = *g_m; 
#ifdef F_CUSTOM
  u32 op = vf_choice(2) ? 4 : 1; vf_step();
#else
  u32 op = vf_choice(4); vf_step();
#endif
  vf_log(0x700, op);
#ifndef BOOST_STATECHART_USE_NATIVE_RTTI
  vf_on_assert = 0;
#endif
  switch (op) {
  case 0: { u32 k = vf_choice(NE + 1), h = vf_choice(2); switch (k) { case 0: send<E0>(m, g_in, 0, h); break; case 1: send<E1>(m, g_in, 1, h); break; case 2: send<E2>(m, g_in, 2, h); break; case 3: send<E3>(m, g_in, 3, h); break; case 4: send<E4>(m, g_in, 4, h); break; case 5: send<E5>(m, g_in, 7, h); break; } break; }
  case 1: if (!g_in) { m.process_event(GoIn()); g_in = true; } else { m.initiate(); g_in = false; } break;
  case 2: order(); types<E0>(0); types<E1>(1); types<E2>(2); types<E3>(3); types<E4>(4); types<E5>(5); break;
  case 3: { u32 seen = 0; for (M::state_iterator i = m.state_begin(); i != m.state_end(); ++i) { const M::state_base_type* s = &*i; while (s) { u32 h = stateHits(*s); CHK(h && (h & (h - 1)) == 0, "the type of an active state is not exactly one state's"); seen |= h; s = s->outer_state_ptr(); } } CHK(seen == (g_in ? 1u + 2 + 4 + 16 + 32 : 1u + 2 + 4 + 8 + 32), "types of the active states");
      CHK((m.state_downcast<const S3*>() != 0) == !g_in && (m.state_downcast<const S4*>() != 0) == g_in && m.state_downcast<const S0*>() && m.state_downcast<const S1*>() && m.state_downcast<const T0*>(), "lookup by exact type"); vf_reach(21); break; }
  case 4:
#ifndef BOOST_STATECHART_USE_NATIVE_RTTI
    vf_on_assert = onAssert; customOp();
#endif
    break; }
  g_e = 0; g_kind = g_v = calls = unconsumed = 0; memset(hit, 0, sizeof hit); memset(hitBy, 0, sizeof hitBy); memset(fwd, 0, sizeof fwd);
  if (vf_choice(2)) { delete g_m; CHK(vf_live() == 0, "memory is still in use"); vf_end(); } }
extern "C" void vf_main() { vk_setup(); for (;;) { vf_checkpoint(); vk_op(); } }
