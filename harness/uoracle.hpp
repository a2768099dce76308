// Reference semantics of a statechart, as an online acceptor of the callbacks of a generated chart ("universal chart").
// The chart's structure comes from tables (U_*, see tools/gen_chart.py); what every state does with an event is a symbolic
// choice.  The acceptor is written from the library's documentation and knows nothing about its implementation.
#pragma once
#include "vf.h"
#include <string.h>
#include <stddef.h>
typedef uint8_t u8; typedef uint32_t u32;
enum { NONE = 255, MACH = U_N };
enum OutKind { K_FORWARD, K_DISCARD, K_DEFER, K_TERMINATE, K_TRANSIT };
enum { X_EXIT = 1, X_DTOR, X_CTOR, X_ACT };
enum { D_NONE, D_SEARCH, D_DONE, D_EXC };
enum { P_OP = 0, P_INIT_ENTER, P_TRANSIT };
#ifndef F_POST
#define F_POST 0      // events that may be posted by callbacks during one operation
#endif
#ifndef F_THROW
#define F_THROW 0     // exceptions that may be thrown by callbacks during one operation
#endif
#ifndef F_DEFER
#define F_DEFER 0
#endif
#ifndef F_QCAP
#define F_QCAP 2      // bound for waiting + deferred events
#endif
#ifndef F_TRANSLATOR
#define F_TRANSLATOR 0
#endif
#ifndef F_TERMINATE
#define F_TERMINATE 1
#endif
#ifndef F_TRANSIT
#define F_TRANSIT 1
#endif
#ifndef F_THROWSITES
#define F_THROWSITES 31 // 1 ctor, 2 exit, 4 action, 8 react, 16 unconsumed
#endif
#ifndef F_POSTSITES
#define F_POSTSITES 31
#endif
#ifndef F_CTX
#define F_CTX 0
#endif
#ifndef F_NM
#define F_NM 1
#endif
#ifndef F_TYPES
#define F_TYPES 1     // number of event types used
#endif
#ifndef F_CLEARINREACT
#define F_CLEARINREACT 0
#endif
#ifndef F_FAULT
#define F_FAULT 0     // allocations that may fail during one operation
#endif
struct Item { u8 type, known, heap, pad; u32 v; const void* p; };
struct Orc {
  const void* inst[U_N]; const void* sb[U_N]; u8 kid[U_N + 1][U_R]; u8 def[U_N], unst[U_N], sh[U_N][U_R], dh[U_N][U_R];
  Item pq[F_QCAP + 2], dq[F_QCAP + 2]; u8 npq, ndq; u8 len; // len: after a failed allocation only life cycles are tracked
  // transient (zero between calls)
  u8 busy, op; Item cur; u8 disp, next, leaf, result, deferred; u8 visited[U_N];
  u8 exk[4 * U_N + 8], exs[4 * U_N + 8]; u8 nex, pos, stage, enLca, enTg; u8 full, failing, unc, hstage; u32 thrownV; const void* trig; const void* trig0; const void* excEv; u8 posts, faults, throws, handling, hdl;
};
static Orc OR[F_NM]; static Orc* O = OR; static u32 ev_live, st_live; static int ev_due; // copies of events that are still to be made
static inline void lg(u32 k, u32 s) { vf_log(k * 256 + s, (u32)(O - OR)); }
#define CHK(c, m) VF_CHECK(c, m)

static u8 u_child(u8 anc, u8 s) { while (U_PARENT[s] != anc) s = U_PARENT[s]; return s; }
static bool u_inside(u8 anc, u8 s) { if (anc == MACH) return true; while (s != MACH) { if (s == anc) return true; s = U_PARENT[s]; } return false; }
static u8 u_lca(u8 s, u8 d) { u8 a = U_PARENT[s]; for (;;) { if (a == MACH) return a; if (u_inside(a, U_PARENT[d]) ) return a; a = U_PARENT[a]; } }
static void ex(u8 k, u8 s) { CHK(O->nex < sizeof O->exk, "harness: plan too long"); O->exk[O->nex] = k; O->exs[O->nex] = s; O->nex++; }
static void p_exit(u8 s) { for (u8 r = U_NREG[s]; r-- > 0;) if (O->kid[s][r] != NONE) p_exit(O->kid[s][r]); if (O->full) ex(X_EXIT, s); ex(X_DTOR, s); }
static void p_enter(u8 s);
static void p_path(u8 ctx, u8 d, u8 kind);
static void p_pseudo(u8 ctx, u8 r, u8 kind, u8 def) { // resolve a state or history pseudo-state inside ctx, region r
  if (kind == 1 && O->sh[ctx][r] != NONE) { vf_reach(20); p_enter(O->sh[ctx][r]); } else if (kind == 2 && O->dh[ctx][r] != NONE) { vf_reach(21); p_path(ctx, O->dh[ctx][r], 0); } else { if (kind == 1) vf_reach(22); if (kind == 2) vf_reach(23); p_enter(def); } }
static void p_init(u8 s, u8 r) { p_pseudo(s, r, U_INITK[s][r], U_INIT[s][r]); }
static void p_enter(u8 s) { ex(X_CTOR, s); for (u8 r = 0; r < U_NREG[s]; r++) p_init(s, r); }
static void p_path(u8 ctx, u8 d, u8 kind) {
  if (U_PARENT[d] == ctx) { if (kind) p_pseudo(ctx, U_REGION[d], kind, d); else p_enter(d); return; }
  u8 c = u_child(ctx, d), n = u_child(c, d); ex(X_CTOR, c);
  for (u8 r = 0; r < U_NREG[c]; r++) if (r == U_REGION[n]) p_path(c, d, kind); else p_init(c, r); }
static bool u_empty() { return O->kid[MACH][0] == NONE; }
static void clearAll() { O->npq = O->ndq = 0; memset(O->pq, 0, sizeof O->pq); memset(O->dq, 0, sizeof O->dq); memset(O->sh, NONE, sizeof O->sh); memset(O->dh, NONE, sizeof O->dh); memset(O->def, 0, sizeof O->def); }
static void unmark() { memset(O->unst, 0, sizeof O->unst); }
static void settle(); 
static void planReset() { O->pos = O->nex = 0; memset(O->exk, 0, sizeof O->exk); memset(O->exs, 0, sizeof O->exs); }
static void drop(u8 s) { // bookkeeping when s leaves the configuration
  u8 p = U_PARENT[s]; O->kid[p][U_REGION[s]] = NONE; O->unst[s] = 0; }
static void fail() { // the call has to end with the exception after destroying everything
  O->failing = 1; O->full = 0; O->stage = 0; O->disp = D_DONE; if (O->kid[MACH][0] != NONE) p_exit(O->kid[MACH][0]); }
static void handled() { vf_reach(30); O->hdl = 1; O->full = 1; O->handling = 0; O->trig = O->trig0; O->excEv = 0; O->result = K_DISCARD; O->disp = D_DONE; unmark(); if (O->hstage == P_INIT_ENTER && O->op == 4) O->stage = P_INIT_ENTER; O->hstage = 0; }
// advance past finished plan stages
static void settle() {
  if (O->pos < O->nex) return;
  planReset();
  if (O->stage == P_TRANSIT) { O->stage = 0; u8 t = O->enTg; p_path(O->enLca, U_TGS[t], U_TGK[t]); return; }
  if (O->stage == P_INIT_ENTER) { if (!u_empty()) { vf_reach(36); O->full = 0; p_exit(O->kid[MACH][0]); return; } O->full = 1; O->stage = 0; clearAll(); unmark(); O->enLca = MACH; p_enter(U_INITIAL); return; }
  if (O->handling && !O->failing && O->disp == D_EXC && O->next != NONE) return;
  unmark();
  if (O->handling && !O->failing && O->disp == D_EXC && O->next == NONE) { handled(); if (O->stage) settle(); }
}
static void expect(u8 k, u8 s) {
  settle(); CHK(O->busy, "a callback runs outside of any call into the machine"); CHK(O->pos < O->nex, "a state is entered, exited, destroyed or an action runs although nothing of the kind is due");
  CHK(O->exk[O->pos] == k && O->exs[O->pos] == s, "entry, exit, destruction or action in a different place of the order than documented"); O->pos++; }
static void release() { // deferred events go in front of the waiting ones, in their order
  if (!O->ndq) return; vf_reach(12); Item t[F_QCAP + 2]; u8 n = 0; for (u8 i = 0; i < O->ndq; i++) t[n++] = O->dq[i]; for (u8 i = 0; i < O->npq; i++) { CHK(n < F_QCAP + 2, "harness: queue"); t[n++] = O->pq[i]; }
  memset(O->pq, 0, sizeof O->pq); for (u8 i = 0; i < n; i++) O->pq[i] = t[i]; O->npq = n; O->ndq = 0; memset(O->dq, 0, sizeof O->dq); }
static Item popPq() { Item x = O->pq[0]; for (u8 i = 1; i < O->npq; i++) O->pq[i - 1] = O->pq[i]; O->npq--; memset(&O->pq[O->npq], 0, sizeof(Item)); return x; }
static void finishDispatch() { if (O->disp == D_DONE && O->result == K_DEFER && !O->failing) { CHK(O->ndq < F_QCAP + 2, "harness: queue"); Item it = O->cur; if (!it.heap) { ev_due++; it.heap = 1; it.known = 0; it.p = 0; } O->dq[O->ndq++] = it; } O->disp = D_NONE; memset(&O->cur, 0, sizeof O->cur); O->trig = O->trig0 = 0; O->result = 0; }
static void beginDispatch(Item it) { O->cur = it; O->disp = D_SEARCH; memset(O->visited, 0, sizeof O->visited); O->next = NONE; O->leaf = NONE; O->result = 0; O->trig = O->trig0 = it.known ? it.p : 0; }
static u8 firstReact(u8 s, u8 type) { while (s != MACH && !U_REACTS[s][type]) s = U_PARENT[s]; return s; }
static bool moreLeaves() { for (u8 s = 0; s < U_N; s++) if (U_NREG[s] == 0 && O->inst[s] && !O->visited[s] && firstReact(s, O->cur.type) != MACH) return true; return false; }
static void nextEvent() { // the event being dispatched is finished: the next waiting one must follow
  settle(); CHK(O->pos == O->nex && O->stage == 0, "a reaction runs before a transition or termination is complete"); CHK(!O->failing, "a reaction runs although the machine has failed");
  if (O->disp == D_DONE || O->disp == D_NONE) { finishDispatch(); CHK(O->npq > 0, "an event is dispatched that is not due (dispatched twice, not consumed for good, or never posted)"); beginDispatch(popPq()); } }
static void matchEvent(u8 type, u32 v, const void* p, const char* msg) {
  CHK(type == O->cur.type, "a reaction runs for an event of another type or out of queue order"); CHK(v == O->cur.v, "a reaction sees an event with other contents (other event, or changed)");
  if (O->cur.known) CHK(p == O->cur.p, "a reaction sees another event object than the one that was processed, posted or deferred"); else { O->cur.p = p; O->cur.known = 1; O->trig = O->trig0 = p; } }

// ---- called by operations
// a memory allocation is about to fail
static void o_fault() { u8 posts = O->posts; memset(&O->cur, 0, sizeof(Orc) - offsetof(Orc, cur)); O->posts = posts; O->next = O->leaf = NONE; O->len = 2; O->disp = D_DONE; vf_reach(60); }
static void lenientEnd(bool threw) {
  if (O->len == 2) { CHK(threw || F_TRANSLATOR, "a failed allocation is not reported to the caller"); if (threw) vf_reach(61); else vf_reach(62); } else CHK(!threw, "an exception leaves the call although none should");
  if (u_empty()) vf_reach(63); else vf_reach(64);
  for (u8 s = 0; s < U_N; s++) if (O->inst[s]) { CHK(O->kid[U_PARENT[s]][U_REGION[s]] == s && (U_PARENT[s] == MACH || O->inst[U_PARENT[s]]), "a failed allocation leaves an invalid configuration"); bool any = !U_NREG[s]; for (u8 r = 0; r < U_NREG[s]; r++) if (O->kid[s][r] != NONE) any = true; CHK(any, "a failed allocation leaves a state without any inner state"); }
  clearAll(); O->len = 1; memset(&O->busy, 0, sizeof(Orc) - offsetof(Orc, busy)); }
static void o_op(u8 op) { memset(&O->busy, 0, sizeof(Orc) - offsetof(Orc, busy)); O->busy = 1; O->op = op; O->full = 1; O->next = O->leaf = NONE; if (op > 2) O->len = 0; }
static void o_process(Item it) { o_op(1); if (O->len) return; beginDispatch(it); }
static void o_terminate() { o_op(3); O->disp = D_NONE; if (!u_empty()) p_exit(O->kid[MACH][0]); else clearAll(); }
static void o_initiate() { o_op(4); O->disp = D_NONE; if (!u_empty()) p_exit(O->kid[MACH][0]); O->stage = P_INIT_ENTER; settle(); }
static void o_destroy() { o_op(5); O->full = 0; if (!u_empty()) p_exit(O->kid[MACH][0]); }
static void o_end(bool threw, u32 v) { // the call has returned
  if (O->len) { CHK(v == 0xBADu || !threw, "another exception than the original one reaches the caller"); lenientEnd(threw); return; }
  settle();
  CHK(O->pos == O->nex && O->stage == 0, "the call returns before a transition, termination or initiation is complete");
  if (threw) { CHK(O->failing || O->unc == 2, "an exception leaves the call although none should"); CHK(v == O->thrownV, "another exception than the original one reaches the caller"); vf_reach(31); }
  else CHK(!O->failing && O->unc != 2, "an exception is lost");
  if (O->failing) { for (u8 s = 0; s < U_N; s++) CHK(!O->inst[s], "a state survives a failed operation"); clearAll(); }
  else if (O->unc == 2) { O->disp = D_NONE; }
  else {
    if (O->disp == D_SEARCH) { CHK(O->next == NONE && !moreLeaves(), "reaction search ends early although no reaction consumed the event"); CHK(O->unc == 1, "an unconsumed event is not reported"); }
    CHK(O->disp != D_EXC, "an exception event is not offered to all outer states");
    if (O->disp == D_DONE) finishDispatch();
    if (O->op != 2 && O->op != 3 && O->op != 5) CHK(O->npq == 0, "the call returns although posted events are still waiting");
    if (O->op == 3 && u_empty() && !O->hdl) clearAll(); }
  for (u8 s = 0; s < U_N; s++) CHK((O->inst[s] != 0) == (O->kid[U_PARENT[s]][U_REGION[s]] == s), "harness: inconsistent configuration");
  unmark(); memset(&O->busy, 0, sizeof(Orc) - offsetof(Orc, busy)); }

struct Boom { u32 v; };
static u8 outermostUnstable() { for (u8 s = 0; s < U_N; s++) if (O->unst[s] && O->inst[s]) { bool outer = false; for (u8 p = U_PARENT[s]; p != MACH; p = U_PARENT[p]) if (O->unst[p]) outer = true; if (!outer) return s; } return NONE; }
static void o_throw(u8 site, u8 s) { // a callback is about to throw
  O->throws++; u32 v = vf_sym(0, 0xffffffffu); O->thrownV = v; vf_log(0x900 + site, s); vf_reach(100 + site * 64 + s);
  if (site == 16) { O->unc = 2; throw Boom{v}; }
  u8 st = O->stage; bool second = O->handling; O->pos = O->nex = 0; O->stage = 0;
  if (site == 2) { drop(s); ex(X_DTOR, s); }
  // states under construction (or left behind by the exits) that hold no active innermost state go first, except the outermost unstable one
  if (site == 1 || site == 2) for (u8 p = U_PARENT[s], h = outermostUnstable(); p != MACH && p != h; p = U_PARENT[p]) { bool any = false; for (u8 r = 0; r < U_NREG[p]; r++) if (O->kid[p][r] != NONE) any = true; if (any) break; drop(p); ex(X_DTOR, p); vf_reach(35); }
  O->full = 0;
  if (!F_TRANSLATOR || second || u_empty()) fail();
  else { u8 h = outermostUnstable(); if (h == NONE) h = O->leaf; else vf_reach(33); O->hstage = st; O->handling = 1; O->disp = D_EXC; O->next = firstReact(h, 2); if (O->next == MACH) { fail(); } }
  throw Boom{v}; }
static void o_maybeThrow(u8 site, u8 s) { if ((F_THROWSITES & site) && O->throws < F_THROW && vf_choice(2)) o_throw(site, s); }

// ---- callbacks; 'post' tells how to post from this site
static void o_trig(const void* t) { CHK(t == O->trig, "triggering_event() does not report the event being processed"); }
static void o_ctor(u8 s, const void* self, const void* sb) {
  lg(X_CTOR, s); if (O->len) { u8 p = U_PARENT[s]; CHK(O->busy && !O->inst[s] && O->kid[p][U_REGION[s]] == NONE && (p == MACH || O->inst[p]), "a state is entered where it cannot be"); return; } expect(X_CTOR, s); CHK(!O->inst[s], "a state is entered twice"); }
static void o_ctor2(u8 s, const void* self, const void* sb) { // construction has succeeded
  O->inst[s] = self; O->sb[s] = sb; u8 p = U_PARENT[s]; CHK(O->kid[p][U_REGION[s]] == NONE, "two states are active in one region"); CHK(p == MACH || O->inst[p], "a state is entered before its enclosing state"); O->kid[p][U_REGION[s]] = s; if (O->len) { st_live++; return; } if (U_NREG[s]) O->unst[s] = 1;
  if (p != MACH && (p == O->enLca || U_REGION[s] + 1 == U_NREG[p])) O->unst[p] = 0; if (p == O->enLca) O->enLca = NONE; st_live++; }
static void o_exit(u8 s, const void* self) { lg(X_EXIT, s); if (O->len) { CHK(O->busy && O->inst[s] == self, "exit is called on another object than the active state"); return; } expect(X_EXIT, s); CHK(O->inst[s] == self, "exit is called on another object than the active state"); O->unst[s] = 0; if (U_PARENT[s] != MACH) O->unst[U_PARENT[s]] = 1; }
static void o_exit2(u8 s) { if (O->len) return; u8 p = U_PARENT[s]; if (p != MACH && (U_HIST[p] & 1)) O->sh[p][U_REGION[s]] = s;
  if (U_NREG[s] == 0) for (u8 c = s, a = p; a != MACH; c = a, a = U_PARENT[a]) if (U_HIST[a] & 2) O->dh[a][U_REGION[c]] = s; }
static void o_dtor(u8 s, const void* self) {
  lg(X_DTOR, s); if (!O->len) expect(X_DTOR, s); CHK(O->busy, "a state is destroyed outside of any call"); CHK(O->inst[s] == self, "destruction of another object than the active state"); for (u8 r = 0; r < U_NREG[s]; r++) CHK(O->kid[s][r] == NONE, "a state is destroyed before a state inside it");
  if (O->kid[U_PARENT[s]][U_REGION[s]] == s) { drop(s); if (!O->full && U_PARENT[s] != MACH) O->unst[U_PARENT[s]] = 1; }
  O->inst[s] = 0; O->sb[s] = 0; st_live--; if (O->len) return; if (O->def[s]) { O->def[s] = 0; release(); } settle(); }
static void o_act(u8 c, const void* self, u8 type, u32 v, const void* p) {
  lg(X_ACT, c); if (O->len) { CHK(O->busy && (c == MACH || O->inst[c] == self), "a transition action runs on another object than the active state"); return; } expect(X_ACT, c); if (c != MACH) CHK(O->inst[c] == self, "a transition action runs on another object than the active state"); if (O->handling) CHK(p == O->excEv, "a transition action gets another event than the triggering one"); else { CHK(type == O->cur.type && v == O->cur.v && p == O->cur.p, "a transition action gets another event than the triggering one"); } vf_reach(13); }
static u8 o_unconsumed(u8 type, u32 v, const void* p) {
  lg(9, type); if (O->len) { CHK(O->busy, "an event is reported outside of any call"); vf_merge(); return 0; } settle(); if (O->disp == D_DONE || O->disp == D_NONE || O->unc == 1) { O->unc = 0; O->disp = D_DONE; nextEvent(); }
  CHK(O->disp == D_SEARCH && O->next == NONE, "an event is reported as unconsumed although a reaction consumed it"); CHK(!moreLeaves(), "an event is reported as unconsumed before every active state had its chance"); matchEvent(type, v, p, ""); O->unc = 1; vf_reach(14); vf_merge(); return 0; }
// returns the index of the chosen outcome
static u8 o_react(u8 s, const void* self, u8 type, u32 v, const void* p) {
  lg(8, s); if (O->len) { CHK(O->busy && O->inst[s] == self, "a reaction runs on another object than the active state"); vf_merge(); return 0; } settle();
  if (O->disp == D_EXC) {
    CHK(type == 2, "a reaction runs for another event while an exception is being handled"); CHK(O->pos == O->nex, "a reaction runs before a transition or termination is complete"); CHK(s == O->next, "an exception event is offered to another state than the documented one"); if (O->excEv) CHK(O->excEv == p, "the exception event changes during its handling"); O->excEv = O->trig = p;
  } else {
    if (O->disp != D_SEARCH || O->unc == 1) { if (O->unc == 1) O->disp = D_DONE; O->unc = 0; nextEvent(); }
    CHK(O->pos == O->nex && O->stage == 0, "a reaction runs before a transition or termination is complete"); matchEvent(type, v, p, "");
    if (O->next == NONE) { u8 l = NONE; for (u8 x = 0; x < U_N; x++) if (U_NREG[x] == 0 && O->inst[x] && !O->visited[x] && firstReact(x, type) == s) { l = x; break; } CHK(l != NONE, "reaction search does not start at an active innermost state that was not searched yet, or skips or repeats states"); O->visited[l] = 1; O->leaf = l; }
    else CHK(s == O->next, "reaction search does not move to the next outer state");
  }
  CHK(O->inst[s] == self, "a reaction runs on another object than the active state"); planReset(); O->enTg = 0; O->enLca = NONE; vf_merge(); return 0; }
static void o_outcome(u8 s, u8 k) { // the reaction of state s ends with outcome number k
  if (O->len) return;
  u8 kind = U_OUTK[s][k], t = U_OUTT[s][k], act = U_OUTA[s][k]; bool exc = O->disp == D_EXC; vf_log(0xA00 + s, k); vf_reach(1000 + s * 64 + k); O->pos = O->nex = 0;
  switch (kind) {
  case K_FORWARD: { u8 n = firstReact(U_PARENT[s], exc ? 2 : O->cur.type); O->next = n == MACH ? NONE : n; if (exc && O->next == NONE) fail(); break; }
  case K_DISCARD: if (exc) { if (outermostUnstable() != NONE) { vf_reach(34); fail(); } else { O->next = NONE; handled(); } } else { O->disp = D_DONE; O->result = K_DISCARD; } break;
  case K_DEFER: O->def[s] = 1; if (exc) { O->next = NONE; vf_reach(37); fail(); break; } O->disp = D_DONE; O->result = K_DEFER; vf_reach(11); break;
  case K_TERMINATE: { p_exit(s); u8 c = s, q = U_PARENT[s]; for (; q != MACH; c = q, q = U_PARENT[q]) { bool any = false; for (u8 r = 0; r < U_NREG[q]; r++) if (O->kid[q][r] != NONE && O->kid[q][r] != c) any = true; if (any) break; if (O->full) ex(X_EXIT, q); ex(X_DTOR, q); }
      if (exc) O->next = NONE; else { O->disp = D_DONE; O->result = K_DISCARD; } vf_reach(15); break; }
  case K_TRANSIT: { u8 d = U_TGS[t], lca = u_lca(s, d), c = u_child(lca, s);
#ifdef BOOST_STATECHART_RELAX_TRANSITION_CONTEXT
      if (act == NONE || act == lca || u_inside(act, lca == MACH ? MACH : lca) || act == MACH) { p_exit(c); if (act != NONE) ex(X_ACT, act); }
      else if (act == s && U_NREG[s] == 0) { ex(X_ACT, s); p_exit(c); }
      else { // everything inside the action's context is exited first, then the action runs, then the remaining exits follow
        p_exit(c); u8 n = O->nex; u8 k2 = 0; u8 tk[4 * U_N + 8], ts[4 * U_N + 8]; for (u8 i = 0; i < n; i++) if (O->exs[i] != act && u_inside(act, O->exs[i])) { tk[k2] = O->exk[i]; ts[k2] = O->exs[i]; k2++; } tk[k2] = X_ACT; ts[k2] = act; k2++;
        for (u8 i = 0; i < n; i++) if (!(O->exs[i] != act && u_inside(act, O->exs[i]))) { tk[k2] = O->exk[i]; ts[k2] = O->exs[i]; k2++; }
        O->nex = 0; for (u8 i = 0; i < k2; i++) ex(tk[i], ts[i]); vf_reach(17); }
#else
      p_exit(c); if (act != NONE) ex(X_ACT, act);
#endif
      O->stage = P_TRANSIT; O->enLca = lca; O->enTg = t; if (exc) O->next = NONE; else { O->disp = D_DONE; O->result = K_DISCARD; } vf_reach(16); break; }
  } }
static bool room() { return O->len ? ev_live <= F_QCAP : O->npq + O->ndq < F_QCAP; }
static bool o_allowed(u8 s, u8 k) { u8 kind = U_OUTK[s][k]; bool exc = O->disp == D_EXC;
  if (kind == K_DEFER) return F_DEFER && (exc || room()); if (kind == K_TERMINATE) return F_TERMINATE; if (kind == K_TRANSIT) return F_TRANSIT; return true; }
static u8 o_choose(u8 s) { u8 n = 0, m[U_MAXOUT]; for (u8 k = 0; k < U_NOUT[s]; k++) if (o_allowed(s, k)) m[n++] = k; return m[vf_choice(n)]; }
