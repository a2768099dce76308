// Two machines in lockstep: one with declared reactions (side 0), one making the direct calls (side 1). Side 0's callbacks are
// recorded together with the choices they made; side 1 takes the same choices and has to produce the same callbacks.
#pragma once
#include "vf.h"
#include <boost/statechart/state_machine.hpp>
#include <boost/statechart/simple_state.hpp>
#include <boost/statechart/state.hpp>
#include <boost/statechart/event.hpp>
#include <boost/statechart/transition.hpp>
#include <boost/statechart/termination.hpp>
#include <boost/statechart/deferral.hpp>
#include <boost/statechart/in_state_reaction.hpp>
#include <boost/statechart/custom_reaction.hpp>
#include <boost/statechart/exception_translator.hpp>
#include <boost/statechart/null_exception_translator.hpp>
#include <boost/statechart/shallow_history.hpp>
#include <boost/statechart/deep_history.hpp>
#include <boost/mpl/list.hpp>
#include <boost/intrusive_ptr.hpp>
#include <string.h>
typedef uint8_t u8; typedef uint32_t u32; namespace sc = boost::statechart; namespace mpl = boost::mpl;
#define CHK VF_CHECK
#ifndef F_THROW
#define F_THROW 0
#endif
#ifndef F_POST
#define F_POST 0
#endif
#ifndef F_CAP
#define F_CAP 1       // bound for deferred events
#endif
static u32 ev_live;
struct Tok { Tok() { ev_live++; } Tok(const Tok&) { ev_live++; } ~Tok() { ev_live--; } };
struct Kinded { u8 kind; u32 v; Tok t; Kinded(u8 k, u32 x) : kind(k), v(x) {} virtual ~Kinded() {} };
struct EvA : sc::event<EvA>, Kinded { explicit EvA(u32 x) : Kinded(0, x) {} };
struct EvB : Kinded, sc::event<EvB> { explicit EvB(u32 x) : Kinded(1, x) {} };
struct EvC : sc::event<EvC>, Kinded { explicit EvC(u32 x) : Kinded(2, x) {} };
struct EvX : sc::event<EvX>, Kinded { EvX() : Kinded(3, 0) {} };
struct EvG : sc::event<EvG>, Kinded { explicit EvG(u32 x) : Kinded(4, x) {} };
static const Kinded& kin(const sc::event_base& e) { return dynamic_cast<const Kinded&>(e); }
static u8 kindOf(const sc::event_base& e) { return kin(e).kind; }
#if F_TRANSLATOR
typedef sc::exception_translator<EvX> UTrans;
#else
typedef sc::null_exception_translator UTrans;
#endif
struct Rec { u8 what, s, kind; u32 v; };
enum { R_CTOR = 1, R_DTOR, R_EXIT, R_ACT, R_REACT, R_UNC, R_CHOICE, R_VALUE };
static Rec tr[160]; static u32 ntr, pos, posts, throws; static u8 depth; static const void* inst[2][U_N + 1];
struct Boom { u32 v; };
static void rec(u32 side, u8 what, u8 s, u8 kind, u32 v) {
  vf_log(0x100 * what + s, side);
  if (side == 0) { CHK(ntr < 160, "harness: trace"); Rec r = {what, s, kind, v}; tr[ntr++] = r; }
  else { CHK(pos < ntr, "the declared reaction does less than the direct call"); const Rec& r = tr[pos]; CHK(r.what == what && r.s == s && r.kind == kind, "a declared reaction has another effect than the direct call it stands for"); CHK(r.v == v, "a declared reaction passes another event on than the direct call"); pos++; } }
static u32 ch(u32 side, u32 n) { if (side == 0) { u32 k = vf_choice(n); rec(0, R_CHOICE, n, 0, k); return k; } CHK(pos < ntr && tr[pos].what == R_CHOICE && tr[pos].s == n, "a declared reaction has another effect than the direct call it stands for"); return tr[pos++].v; }
static u32 val(u32 side) { if (side == 0) { u32 k = vf_sym(0, 0xffffffffu); rec(0, R_VALUE, 0, 0, k); return k; } CHK(pos < ntr && tr[pos].what == R_VALUE, "a declared reaction has another effect than the direct call it stands for"); return tr[pos++].v; }
static void mayThrow(u32 side) { if (throws < F_THROW && ch(side, 2)) { throws++; vf_reach(20); throw Boom{val(side)}; } }
template<class P> void mayPost(u32 side, P& p) { if (posts >= F_POST) return; u32 k = ch(side, 4); if (!k) return; posts++; u32 v = val(side); vf_reach(21);
  if (k == 1) p.post_event(EvA(v)); else if (k == 2) p.post_event(boost::intrusive_ptr<EvB>(new EvB(v))); else p.post_event(EvC(v)); }
static void h_ctor(u32 side, u8 s, const void* self) { rec(side, R_CTOR, s, 0, 0); mayThrow(side); inst[side][s] = self; }
static void h_dtor(u32 side, u8 s) { rec(side, R_DTOR, s, 0, 0); inst[side][s] = 0; }
template<class S> void h_exit(u32 side, u8 s, S& self) { rec(side, R_EXIT, s, 0, 0); mayPost(side, self); mayThrow(side); }
template<class S, class E> void h_act(u32 side, u8 s, S& self, const E& e) { const Kinded& k = kin(e); CHK(self.triggering_event() == &e, "the action gets another event than the triggering one"); rec(side, R_ACT, s, k.kind, k.v); mayPost(side, self); mayThrow(side); vf_reach(22); }
template<class S, class E> u32 h_react(u32 side, u8 s, S& self, const E& e, bool defer) { const Kinded& k = kin(e); CHK(self.triggering_event() == &e, "the reaction gets another event than the triggering one"); rec(side, R_REACT, s, k.kind, k.v); mayPost(side, self); mayThrow(side); return ch(side, defer && k.kind != 3 ? 5 : 4); }
template<class S> u32 h_go(u32 side, u8 s, S&, const EvG& e, u32 n) { rec(side, R_REACT, s, 4, e.v); return ch(side, n); }
template<class M> void h_unc(u32 side, M& m, const sc::event_base& e) { const Kinded& k = kin(e); rec(side, R_UNC, 0, k.kind, k.v); vf_reach(23); }
