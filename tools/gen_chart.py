#!/usr/bin/env python3
"""Generates a chart (C++ state machine using the real library headers) and its structure tables for the reference oracle.
usage: gen_chart.py NAME OUT.hpp [seed]"""
import sys, random

class T:
    def __init__(s, *regions, hist=0, init=None, kind=None, reacts='*', outs=None, noaction=False):
        # regions: each a list of T; init: {region: (kind, index)}; reacts: '*' event_base, or letters A B X (X exception event), '' none
        s.regions = regions; s.hist = hist; s.init = init or {}; s.kind = kind; s.reacts = reacts; s.outs = outs

def L(**k): return T(**k)

def charts(name, seed):
    """returns (root list, initial index in root list, options)"""
    C = {
    # flat and nested
    'mini':   lambda: ([L(), L()], 0, {}),
    'nest':   lambda: ([T([T([T([L(), L(reacts='A')]), L()], reacts='')]), L()], 0, {}),
    'deep4':  lambda: ([T([T([T([T([L(), L()])], reacts=''), L()])]), L()], 0, {}),
    'deep6':  lambda: ([T([T([T([T([T([T([L()])]), L()])])]), L()])], 0, {}),
    'silent': lambda: ([T([T([T([T([L(reacts=''), L(reacts='B')], reacts='')], reacts='A')], reacts='B*'), L(reacts='AB')], reacts='A'), L(reacts='')], 0, {}),
    # orthogonal
    'ortho':  lambda: ([T([L(), L(reacts='A')], [T([L(reacts='')], [L()], reacts='*'), L(reacts='B')], [L()]), L()], 0, {}),
    'ortho2': lambda: ([T([T([L(), L()], [L(reacts='A')])], [T([L()]), L()], reacts='*')], 0, {}),
    'orth3':  lambda: ([T([T([L()], [L()])], [T([L()], [L(), T([L()], [L()])])])], 0, {'maxt': 5}),
    'wide4':  lambda: ([T([L()], [T([L()], [L()]), L()], [L(), T([L()])], [L()]), L()], 0, {'maxt': 6}),
    'wide5':  lambda: ([T([L()], [L()], [L(), L()], [L()], [L()]), L()], 0, {}),
    'ininit': lambda: ([L(), T([T([L(), L()], init={0: (0, 1)}), T([L()], [L(), L()], init={1: (0, 1)})], init={0: (0, 1)})], 1, {}),
    # history
    'hist0':  lambda: ([T([T([L(), L()]), L()], hist=3, init={0: (1, 0)}), L()], 0, {}),
    'shist':  lambda: ([T([T([L(), L()]), L()], [L(), L()], hist=1, init={0: (1, 0), 1: (1, 1)}), L()], 0, {'maxt': 6}),
    'sh3':    lambda: ([T([L(), L()], [L(), T([L()], [L()])], [L(), L()], hist=1, init={1: (1, 0), 2: (1, 1)}), L()], 0, {'maxt': 5}),
    'shr2':   lambda: ([T([L(), L()], [L(), L()], hist=1, init={0: (1, 0), 1: (1, 0)}), T([L()], [L(), L()], hist=1, init={0: (1, 0), 1: (1, 1)})], 0, {'maxt': 6}),
    'dhr2':   lambda: ([T([L()], [T([L()]), L()], hist=2, init={0: (2, 0), 1: (2, 0)}), T([L()], [L(), L()], hist=2, init={0: (0, 0), 1: (2, 1)})], 0, {'maxt': 6}),
    'shn':    lambda: ([T([T([L(), T([L()])], hist=1, init={0: (1, 1)}), T([L()])], hist=1, init={0: (1, 0)}), L()], 0, {}),
    'dhist':  lambda: ([T([T([L(), L()]), T([L()])], [L(), T([L(), L()], init={0: (0, 1)})], hist=2, init={0: (2, 0)}), L()], 0, {'maxt': 6}),
    'dhn':    lambda: ([T([T([T([L(), L()]), L()], hist=2, init={0: (2, 0)}), L()], hist=2, init={0: (2, 0)}), L()], 0, {'maxt': 8}),
    'dh4':    lambda: ([T([T([T([T([L(), L()]), L()]), L()])], hist=2, init={0: (2, 0)}), L()], 0, {}),
    'fhist':  lambda: ([T([T([L(), L()], hist=1, init={0: (1, 0)}), T([L(), L()])], hist=3, init={0: (2, 0)}), L()], 0, {'maxt': 6}),
    'twoh':   lambda: ([T([L(), L()], hist=1, init={0: (1, 0)}), T([L(), L()], hist=3, init={0: (2, 0)})], 0, {}),
    # small ones for exceptions, posting, deferral
    'exc':    lambda: ([T([T([L(), L(reacts='A')]), L(reacts='X')], [L(reacts='AX')], reacts='*'), L()], 0, {'maxt': 3}),
    'exc1':   lambda: ([T([T([L()], [L()]), L()]), L()], 0, {'maxt': 3}),
    'exc2':   lambda: ([T([T([L()]), L()], [T([L()])])], 0, {'maxt': 4}),
    'excd':   lambda: ([T([T([L(), L()])]), L()], 0, {'maxt': 3}),
    'exch':   lambda: ([T([T([L(), L()]), L()], hist=3, init={0: (2, 0)}), L()], 0, {'maxt': 4}),
    'exco':   lambda: ([T([L()], [L()], [L()]), L()], 0, {'maxt': 3}),
    'defer':  lambda: ([T([L(), L(reacts='A')], [L()]), L()], 0, {'maxt': 2}),
    'defn':   lambda: ([T([T([L()]), L()])], 0, {'maxt': 2}),
    'queue':  lambda: ([T([L(), L()]), L(reacts='A')], 0, {'maxt': 2}),
    'queue1': lambda: ([T([L()])], 0, {'maxt': 1}),
    'flat1':  lambda: ([L()], 0, {'maxt': 1}),
    'flat2':  lambda: ([L(), L()], 0, {'maxt': 1}),
    'two':    lambda: ([T([L()], [L()])], 0, {'maxt': 1}),
    }
    if name in C: return C[name]()
    if name.startswith('rand'):
        r = random.Random(seed * 7919 + int(name[4:] or 0)); budget = [r.randint(6, 8)]
        def mk(depth, deep):
            budget[0] -= 1; regs = []
            if depth < 3 and budget[0] > 0 and r.random() < (0.9 if depth == 0 else 0.55):
                nr = 1 if deep else r.choice([1, 1, 2, 2, 3])
                hist = r.choice([0, 0, 1, 2, 3]); dd = deep or bool(hist & 2)
                for i in range(nr):
                    reg = [mk(depth + 1, dd)]
                    while budget[0] > 0 and len(reg) < 3 and r.random() < 0.5: reg.append(mk(depth + 1, dd))
                    regs.append(reg)
                init = {}
                for i, reg in enumerate(regs):
                    ks = [0] + ([1] if hist & 1 else []) + ([2] if hist & 2 else [])
                    init[i] = (r.choice(ks), r.randrange(len(reg)))
                return T(*regs, hist=hist, init=init, reacts=r.choice(['*', '*', '*', 'A', 'B*', '']))
            return T(reacts=r.choice(['*', '*', 'A', 'AB', 'B*']))
        return [mk(0, False), L()], r.randrange(2), {'maxt': 4, 'seed': r.randrange(1 << 30)}
    raise SystemExit('unknown chart ' + name)

def gen(name, seed=1, mode=''):
    relax = mode == 'relax'; roots, initial, opt = charts(name, seed)
    if mode.startswith('acts'): opt['acts'] = 1
    S = []  # (T, parent, region)
    def add(t, parent, region):
        i = len(S); S.append([t, parent, region, []]); t.idx = i
        for r, reg in enumerate(t.regions):
            for c in reg: add(c, i, r)
    for t in roots: add(t, None, 0)
    N = len(S); R = max([1] + [len(t.regions) for t, *_ in S]); MACH = N
    par = [MACH if p is None else p for _, p, _, _ in S]; reg = [r for _, _, r, _ in S]
    def chain(s):
        out = []
        while s != MACH: s = par[s]; out.append(s)
        return out
    def lca(s, d):
        cd = chain(d)
        for a in chain(s):
            if a in cd: return a
    def child(a, s):
        while par[s] != a: s = par[s]
        return s
    rnd = random.Random(opt.get('seed', 12345))
    targets = []  # (state, kind)
    outs = []
    def tg(d, k):
        if (d, k) not in targets: targets.append((d, k))
        return targets.index((d, k))
    cyc = 0
    for s in range(N):
        o = [('F', 0, 255), ('D', 0, 255), ('E', 0, 255), ('T', 0, 255)]
        cand = []
        for d in range(N):
            a = lca(s, d)
            if (0 if a == MACH else reg[child(a, s)]) != (0 if a == MACH else reg[child(a, d)]): continue
            cand.append((d, 0))
            p = par[d]
            if p != MACH:
                h = S[p][0].hist; ini = S[p][0].init.get(reg[d], (0, 0))[1]
                if S[p][0].regions[reg[d]][ini].idx == d:
                    if h & 1: cand.append((d, 1))
                    if h & 2: cand.append((d, 2))
        mt = opt.get('maxt', 99)
        if len(cand) > mt:
            # keep the self transition, every history target if possible, one far target; the rest at random
            keep = [c for c in cand if c[1]]
            rest = [c for c in cand if not c[1]]; rnd.shuffle(rest)
            rnd.shuffle(keep); keep = keep[:max(1, mt // 2)] if keep else []
            cand = keep + rest[:mt - len(keep)]
        for d, k in cand:
            a = lca(s, d); ctxs = [a] + (chain(a) if a != MACH else [])
            if relax:
                inner = [s] + [x for x in chain(s)]
                pool = [255] + inner
            else: pool = [255, a, ctxs[-1]] if len(ctxs) > 1 else [255, a]
            if relax or opt.get('acts'):
                for act in pool: o.append(('R', tg(d, k), act))
            else:
                o.append(('R', tg(d, k), pool[cyc % len(pool)])); cyc += 1
        outs.append(o)
    mo = max(len(o) for o in outs)
    def reacts(t):
        if '*' in t.reacts: return [1, 1, 1]
        return [int('A' in t.reacts), int('B' in t.reacts), int('X' in t.reacts)]
    W = []
    w = W.append
    w('// generated by gen_chart.py (%s, seed %d)' % (name, seed))
    w('#pragma once\n#include <stdint.h>')
    w('enum { U_N = %d, U_R = %d, U_MAXOUT = %d, U_NT = %d, U_INITIAL = %d };' % (N, R, mo, max(1, len(targets)), roots[initial].idx))
    def tab(n, v): w('static const uint8_t %s = {%s};' % (n, ','.join(map(str, v))))
    def tab2(n, v): w('static const uint8_t %s = {%s};' % (n, ','.join('{' + ','.join(map(str, x)) + '}' for x in v)))
    tab('U_PARENT[U_N + 1]', par + [255]); tab('U_REGION[U_N]', reg); tab('U_NREG[U_N + 1]', [len(t.regions) for t, *_ in S] + [1])
    ik, ii = [], []
    for t, *_ in S:
        a, b = [0] * R, [255] * R
        for r in range(len(t.regions)): k, x = t.init.get(r, (0, 0)); a[r] = k; b[r] = t.regions[r][x].idx
        ik.append(a); ii.append(b)
    tab2('U_INITK[U_N][U_R]', ik); tab2('U_INIT[U_N][U_R]', ii); tab('U_HIST[U_N]', [t.hist for t, *_ in S])
    tab2('U_REACTS[U_N][3]', [reacts(t) for t, *_ in S]); tab('U_NOUT[U_N]', [len(o) for o in outs])
    kn = {'F': 0, 'D': 1, 'E': 2, 'T': 3, 'R': 4}
    pad = lambda v, z: v + [z] * (mo - len(v))
    tab2('U_OUTK[U_N][U_MAXOUT]', [pad([kn[x[0]] for x in o], 0) for o in outs]); tab2('U_OUTT[U_N][U_MAXOUT]', [pad([x[1] for x in o], 0) for o in outs]); tab2('U_OUTA[U_N][U_MAXOUT]', [pad([x[2] for x in o], 255) for o in outs])
    tab('U_TGS[U_NT]', [d for d, k in targets] or [0]); tab('U_TGK[U_NT]', [k for d, k in targets] or [0])
    w('#include "uoracle.hpp"\n#include "ubase.hpp"')
    for s in range(N): w('struct S%d;' % s)
    w('struct M : MBase<M, S%d> {\n#if F_ASYNC\n  M(my_context c) : MBase<M, S%d>(c) {}\n#endif\n  template<class E> void act(const E& e) { hk_act(MACH, this, *this, e); } };' % (roots[initial].idx, roots[initial].idx))
    ctx = lambda s: 'M' if par[s] == MACH else ('S%d' % par[s] + ('::orthogonal<%d>' % reg[s] if len(S[par[s]][0].regions) > 1 else ''))
    hm = ['sc::has_no_history', 'sc::has_shallow_history', 'sc::has_deep_history', 'sc::has_full_history']
    for s in range(N):
        t = S[s][0]; inner = []
        for r in range(len(t.regions)):
            d = 'S%d' % ii[s][r]; inner.append([d, 'sc::shallow_history<%s>' % d, 'sc::deep_history<%s>' % d][ik[s][r]])
        innert = 'mpl::list<%s>' % ','.join(inner) if len(inner) != 1 or s % 3 == 0 or 'history' in inner[0] else inner[0]
        st = (s % 2 == 0) if t.kind is None else t.kind == 'state'
        base = 'sc::%s<S%d, %s, %s, %s>' % ('state' if st else 'simple_state', s, ctx(s), innert, hm[t.hist])
        mix = ', Mix' if s % 3 == 1 else ''
        w('struct S%d : %s%s {' % (s, base, mix))
        rl = []
        for c in t.reacts: rl.append({'A': 'EvA', 'B': 'EvB', 'X': 'EvX', '*': 'sc::event_base'}[c])
        if rl: w('  typedef mpl::list<%s> reactions;' % ','.join('sc::custom_reaction<%s>' % x for x in rl))
        if st: w('  S%d(my_context c) : my_base(c) { hk_ctor_st(%d, *this, sbp(this)); }' % (s, s))
        else: w('  S%d() { hk_ctor(%d, *this, sbp(this)); }' % (s, s))
        w('  ~S%d() { hk_dtor(%d, *this); }\n  void exit() { hk_exit(%d, *this); }' % (s, s, s))
        for x in rl: w('  sc::result react(const %s& e);' % x)
        w('  template<class E> void act(const E& e) { hk_act(%d, this, *this, e); }' % s)
        w('  void ctx();')
        w('};')
    for s in range(N):
        t = S[s][0]; rl = [{'A': 'EvA', 'B': 'EvB', 'X': 'EvX', '*': 'sc::event_base'}[c] for c in t.reacts]
        w('inline void S%d::ctx() { const S%d& c = *this; (void)c; CHK(&outermost_context() == cur_m() && &c.outermost_context() == cur_m(), "outermost_context() is not the machine"); CHK(&context<S%d>() == this, "context of the state itself");' % (s, s, s))
        for a in chain(s):
            if a == MACH: w('  CHK(&context<M>() == cur_m() && &c.context<M>() == cur_m(), "context<Machine>() is not the machine");')
            else: w('  CHK((const void*)&context<S%d>() == O->inst[%d] && (const void*)&c.context<S%d>() == O->inst[%d], "context<> returns another object than the active outer state");' % (a, a, a, a))
        w('}')
        if not rl: continue
        w('template<class E> static sc::result body%d(S%d& s, const E& e) { switch (hk_react(%d, s, e)) {' % (s, s, s))
        for i, (k, tt, act) in enumerate(outs[s]):
            if k == 'F': x = 's.forward_event()'
            elif k == 'D': x = 's.discard_event()'
            elif k == 'E': x = 's.defer_event()'
            elif k == 'T': x = 's.terminate()'
            else:
                d, kk = targets[tt]; dn = ['S%d', 'sc::shallow_history<S%d>', 'sc::deep_history<S%d>'][kk] % d
                if act == 255: x = 's.transit<%s>()' % dn
                else: an = 'M' if act == MACH else 'S%d' % act; x = 's.transit<%s, %s, E>(&%s::template act<E>, e)' % (dn, an, an)
            w('  case %d: return %s;' % (i, x))
        w('  } vf_fail("harness: outcome"); }')
        for x in rl: w('sc::result S%d::react(const %s& e) { return body%d(*this, e); }' % (s, x, s))
    w('static void u_queries(M& m, int mode) {')
    w('  q_common(m);')
    for s in range(N): w('  q_state<S%d>(m, %d, mode);' % (s, s))
    w('}')
    cl = []
    for s in range(N):
        for r in range(len(S[s][0].regions)):
            for bit, nm in ((1, 'shallow'), (2, 'deep')):
                if S[s][0].hist & bit: cl.append((s, r, nm))
    w('enum { U_NCLEAR = %d };' % len(cl))
    w('template<class X> static void u_clear(X& x, uint32_t i) { switch (i) {')
    for i, (s, r, nm) in enumerate(cl): w('  case %d: x.template clear_%s_history<S%d, %d>(); O->%s[%d][%d] = NONE; break;' % (i, nm, s, r, 'sh' if nm == 'shallow' else 'dh', s, r))
    w('  } }')
    w('#include "uops.hpp"')
    return '\n'.join(W) + '\n'

if __name__ == '__main__':
    out = gen(sys.argv[1], int(sys.argv[3]) if len(sys.argv) > 3 else 1, sys.argv[4] if len(sys.argv) > 4 else '')
    open(sys.argv[2], 'w').write(out)
