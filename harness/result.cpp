// Reaction results in assertion-enabled builds: arbitrary programs of obtain / copy / consume / drop, and the same inside react().
#include "vf.h"
#include <boost/statechart/state_machine.hpp>
#include <boost/statechart/simple_state.hpp>
#include <boost/statechart/event.hpp>
#include <boost/statechart/custom_reaction.hpp>
#include <boost/mpl/list.hpp>
#include <new>
#include <type_traits>
typedef uint32_t u32; typedef uint8_t u8; namespace sc = boost::statechart; namespace mpl = boost::mpl; using sc::detail::result_utility;
#define CHK VF_CHECK
#ifndef F_SLOTS
#define F_SLOTS 3
#endif
#ifndef F_LEN
#define F_LEN 5
#endif
enum { EMPTY, FRESH, USED };
static u32 asserted; static void onAssert(const char*) { asserted++; }
struct alignas(8) Slot { unsigned char b[sizeof(sc::result)]; sc::result& r() { return *reinterpret_cast<sc::result*>(b); } };
struct Pool { Slot s[F_SLOTS]; u8 st[F_SLOTS], val[F_SLOTS]; };
[[noreturn]] static void misuse(const char*) { CHK(asserted >= 1, "the misuse of a reaction result is not reported by an assertion"); vf_reach(2); vf_end(); }
static void fine() { CHK(asserted == 0, "an assertion fails although the reaction result is used correctly"); }
static sc::result pass(sc::result r) { return r; }           // by value in, by value out
static sc::result viaRef(const sc::result& r) { return r; }
static void copyTo(Pool& p, u32 i, u32 j, u32 way) {
  if (way == 0) new (p.s[j].b) sc::result(p.s[i].r()); else if (way == 1) new (p.s[j].b) sc::result(viaRef(p.s[i].r())); else new (p.s[j].b) sc::result(pass(viaRef(p.s[i].r())));
  if (p.st[i] == USED) misuse("copy"); fine(); p.st[i] = USED; p.st[j] = FRESH; p.val[j] = p.val[i]; vf_reach(10 + way); }
static void drop(Pool& p, u32 i) { typedef sc::result R; p.s[i].r().~R(); if (p.st[i] == FRESH) misuse("drop"); fine(); p.st[i] = EMPTY; vf_reach(13); }
static u32 pick(Pool& p, u32 want) { u32 n = 0, m[F_SLOTS]; for (u32 i = 0; i < F_SLOTS; i++) if (want == 0 ? p.st[i] == EMPTY : p.st[i] != EMPTY) m[n++] = i; return n ? m[vf_choice(n)] : F_SLOTS; }
template<class Obtain> static void step(Pool& p, Obtain obtain) {
  switch (vf_choice(4)) {
  case 0: { u32 j = pick(p, 0); if (j < F_SLOTS) { obtain(p, j); p.st[j] = FRESH; fine(); } break; }
  case 1: { u32 i = pick(p, 1), j = pick(p, 0); if (i < F_SLOTS && j < F_SLOTS) copyTo(p, i, j, vf_choice(3)); break; }
  case 2: { u32 i = pick(p, 1); if (i < F_SLOTS) drop(p, i); break; }
  case 3: { u32 i = pick(p, 1); if (i < F_SLOTS) { sc::detail::reaction_result v = result_utility::get_result(p.s[i].r()); if (p.st[i] == USED) misuse("consume"); fine(); CHK((u32)v == p.val[i], "another result takes effect than the one obtained"); p.st[i] = USED; vf_reach(14); } break; } } }
// ---- inside a machine
struct Ev : sc::event<Ev> {};
static u32 effect, dtors, actions, unc;
struct A; struct M : sc::state_machine<M, A> { void unconsumed_event(const sc::event_base&) { unc++; } };
struct B;
struct A : sc::simple_state<A, M, B> { typedef sc::custom_reaction<Ev> reactions; sc::result react(const Ev&) { actions++; return discard_event(); } };
struct C;
static sc::result useResults(B& b);
struct B : sc::simple_state<B, A> { typedef sc::custom_reaction<Ev> reactions; ~B() { dtors++; } sc::result react(const Ev&) { return useResults(*this); } };
struct C : sc::simple_state<C, A> { typedef sc::custom_reaction<Ev> reactions; sc::result react(const Ev&) { return discard_event(); } };
static sc::result useResults(B& b) {
  Pool p; for (u32 i = 0; i < F_SLOTS; i++) p.st[i] = p.val[i] = 0;
  for (u32 n = 0; n < F_LEN && vf_choice(2); n++) step(p, [&](Pool& p, u32 j) { switch (vf_choice(3)) { case 0: new (p.s[j].b) sc::result(b.forward_event()); p.val[j] = sc::detail::do_forward_event; break; case 1: new (p.s[j].b) sc::result(b.discard_event()); p.val[j] = sc::detail::do_discard_event; break; case 2: new (p.s[j].b) sc::result(b.defer_event()); p.val[j] = sc::detail::do_defer_event; break; } });
  u32 i = pick(p, 1); vf_assume(i < F_SLOTS); sc::result r(viaRef(p.s[i].r())); if (p.st[i] == USED) misuse("return"); fine(); p.st[i] = USED; effect = p.val[i];
  for (u32 k = 0; k < F_SLOTS; k++) if (p.st[k] != EMPTY) drop(p, k);
  return r; }
extern "C" void vf_main() {
  vf_on_assert = onAssert;
  CHK(!std::is_copy_assignable<sc::result>::value && !std::is_default_constructible<sc::result>::value, "a reaction result can be assigned or made up");
  if (vf_choice(2)) { M m; m.initiate(); Ev e; m.process_event(e); fine(); CHK(actions == (effect == sc::detail::do_forward_event), "another result takes effect than the one obtained"); CHK(unc == 0 && dtors == 0, "another result takes effect than the one obtained"); vf_reach(1); return; }
  Pool p; for (u32 i = 0; i < F_SLOTS; i++) p.st[i] = p.val[i] = 0;
  for (u32 n = 0; n < F_LEN; n++) step(p, [](Pool& p, u32 j) { u32 v = vf_sym(0, sc::detail::do_defer_event); p.val[j] = v; new (p.s[j].b) sc::result(result_utility::make_result((sc::detail::reaction_result)v)); });
  for (u32 i = 0; i < F_SLOTS; i++) if (p.st[i] != EMPTY) drop(p, i);
  CHK(vf_live() == 0, "memory is still in use"); vf_reach(3); }
