// Driver of the lockstep pairs.
#pragma once
static A::M* ma; static B::M* mb;
extern "C" void __attribute__((noinline)) vk_setup() { ma = new A::M(); mb = new B::M(); }
template<class M, class F> static u32 run(u32 side, M& m, F f) { posts = throws = 0; u32 r = 0; try { f(m); } catch (const Boom& b) { r = 1; rec(side, R_VALUE, 77, 0, b.v); } return r; }
template<class M> static void config(M& m, u32 side, u8* out) { u32 n = 0; for (typename M::state_iterator i = m.state_begin(); i != m.state_end(); ++i) { u8 k = 255; for (u8 s = 0; s < U_N; s++) if (u_leaf[s] && inst[side][s]) { if (dynamic_cast<const void*>(&*i) == inst[side][s]) k = s; } CHK(k != 255 && n < U_N, "the configuration contains a state that is not active"); out[n++] = k; } out[n] = 254; }
template<class F, class G> static void both(F f, G g) {
  u32 before = ev_live; u32 a = run(0, *ma, f); u32 da = ev_live - before; before = ev_live; u32 b = run(1, *mb, g); u32 db = ev_live - before;
  CHK(a == b, "a declared reaction ends differently than the direct call"); CHK(pos == ntr, "a declared reaction does more than the direct call"); CHK(da == db, "a declared reaction keeps another number of events than the direct call");
  CHK(ma->terminated() == mb->terminated(), "a declared reaction leaves another configuration than the direct call"); u8 ca[U_N + 1], cb[U_N + 1]; config(*ma, 0, ca); config(*mb, 1, cb);
  for (u32 i = 0; ca[i] != 254 || cb[i] != 254; i++) CHK(ca[i] == cb[i], "a declared reaction leaves another configuration than the direct call");
  for (u32 s = 0; s < U_N; s++) CHK((inst[0][s] != 0) == (inst[1][s] != 0), "a declared reaction leaves another configuration than the direct call");
  CHK(!ma->triggering_event() && !mb->triggering_event(), "triggering event after the call"); memset(tr, 0, sizeof tr); ntr = pos = posts = throws = 0; }
template<class E> __attribute__((noinline)) static void proc(bool heap) { u32 v = vf_sym(0, 0xffffffffu);
  if (heap) { boost::intrusive_ptr<E> p(new E(v)), q(new E(v)); both([&](A::M& m) { m.process_event(*p); p = 0; }, [&](B::M& m) { m.process_event(*q); q = 0; }); }
  else { E e(v), f(v); both([&](A::M& m) { m.process_event(e); }, [&](B::M& m) { m.process_event(f); }); } vf_reach(2); }
extern "C" void __attribute__((noinline)) vk_op() {
  u32 op = vf_choice(4); vf_step(); vf_log(0x700, op);
  switch (op) {
  case 0: both([](A::M& m) { delete &m; ma = new A::M(); }, [](B::M& m) { delete &m; mb = new B::M(); }); CHK(ev_live == 0, "events are leaked"); delete ma; delete mb; CHK(vf_live() == 0, "memory is still in use after destruction"); vf_reach(1); vf_end();
  case 1: { u32 k = vf_choice(4); if (k == 0) proc<EvA>(false); else if (k == 1) proc<EvB>(true); else if (k == 2) proc<EvC>(false); else proc<EvG>(true); vf_assume(ev_live <= 2 * F_CAP); break; }
  case 2: both([](A::M& m) { m.terminate(); }, [](B::M& m) { m.terminate(); }); break;
  case 3: both([](A::M& m) { m.initiate(); }, [](B::M& m) { m.initiate(); }); break; }
}
extern "C" void vf_main() { vk_setup(); for (;;) { vf_checkpoint(); vk_op(); } }
