#!/usr/bin/env python3
"""Generates a pair of charts with the real library headers: A declares its reactions, B makes the corresponding direct calls.
usage: gen_decl.py STRUCTURE OUT.hpp SEED [mode]     mode: comma list of kinds to prefer"""
import sys, random
from gen_chart import charts

EV = {'A': 'EvA', 'B': 'EvB', 'C': 'EvC', 'X': 'EvX', 'G': 'EvG', '*': 'sc::event_base'}; KN = {'A': 0, 'B': 1, 'C': 2, 'X': 3, 'G': 4}
def gen(name, seed, mode=''):
    rnd = random.Random(seed * 31337 + sum(map(ord, name + mode)))
    roots, initial, opt = charts(name, seed); S = []
    def add(t, parent, region):
        i = len(S); S.append([t, parent, region]); t.idx = i
        for r, reg in enumerate(t.regions):
            for c in reg: add(c, i, r)
    for t in roots: add(t, None, 0)
    N = len(S); MACH = N; par = [MACH if p is None else p for _, p, _ in S]; reg = [r for _, _, r in S]
    def chain(s):
        out = []
        while s != MACH: s = par[s]; out.append(s)
        return out
    def lca(s, d):
        cd = chain(d)
        for a in chain(s):
            if a in cd: return a
    def child(a, s):
        while par[s] != a: s = par[s]
        return s
    def targets(s):
        c = []
        for d in range(N):
            a = lca(s, d)
            if (0 if a == MACH else reg[child(a, s)]) != (0 if a == MACH else reg[child(a, d)]): continue
            c.append((d, 0)); p = par[d]
            if p != MACH:
                h = S[p][0].hist; ini = S[p][0].init.get(reg[d], (0, 0))[1]
                if S[p][0].regions[reg[d]][ini].idx == d: c += [(d, k) for k in (1, 2) if h & k] * 3
        return c
    # reaction lists: (kind, event, target, context); kinds T transition, X termination, D deferral, I in-state reaction, C custom reaction
    names = ['T', 'X', 'D', 'I', 'C']; combos = [(k, e) for k in names for e in 'ABCX*' if not (k == 'D' and e == 'X')]; rnd.shuffle(combos); deck = []
    def draw(last):
        for i, (k, e) in enumerate(deck):
            if (e == '*') <= last: deck.pop(i); return k, e
        if len(deck) < 60: deck.extend(combos)
        return draw(True) if not any((e == '*') <= last for k, e in deck) else draw(last)
    lists = []
    for s in range(N):
        n = rnd.choice([1, 2, 2, 3, 3, 4, 0] if S[s][0].regions else [1, 2, 3, 3, 4, 4]); l = []
        for i in range(n):
            k, e = draw(i == n - 1 or rnd.random() < 0.1); t = rnd.choice(targets(s)); ctx = None
            if k == 'T' and rnd.random() < 0.6: a = lca(s, t[0]); ctx = rnd.choice([a] + (chain(a) if a != MACH else []))
            if k == 'I' and rnd.random() < 0.8: ctx = rnd.choice([s] + chain(s))
            if k == 'C' and any(x[0] == 'C' and x[1] == e for x in l): k = 'I'; ctx = s
            l.append((k, e, t, ctx))
        if not S[s][0].regions:
            g = [x for x in targets(s) if x != (s, 0)]; rnd.shuffle(g); g = g[:3] or [(s, 0)]
            at = next((i for i, x in enumerate(l) if x[1] == '*'), len(l)); l.insert(rnd.randint(0, at), ('G', 'G', g, None))
        lists.append(l)
    W = []; w = W.append
    w('// generated by gen_decl.py (%s, seed %d)\n#pragma once\nenum { U_N = %d };\n#include "decl.hpp"' % (name, seed, N))
    hm = ['sc::has_no_history', 'sc::has_shallow_history', 'sc::has_deep_history', 'sc::has_full_history']; leafs = ['0'] * N
    for x, ns in ((0, 'A'), (1, 'B')):
        w('namespace %s { enum { SIDE = %d };' % (ns, x))
        for s in range(N): w('struct S%d;' % s)
        cn = lambda s: 'M' if s == MACH else 'S%d' % s
        acts = lambda s: ' '.join('void act%s(const %s& e) { h_act(SIDE, %d, *this, e); }' % (n, EV[e], s) for n, e in (('A', 'A'), ('B', 'B'), ('C', 'C'), ('X', 'X'), ('Any', '*')))
        w('struct M : sc::state_machine<M, S%d, std::allocator<sc::none>, UTrans> { typedef sc::state_machine<M, S%d, std::allocator<sc::none>, UTrans> base; using base::post_event; M& self() { return *this; }\n  void unconsumed_event(const sc::event_base& e) { h_unc(SIDE, *this, e); }\n  %s };' % (roots[initial].idx, roots[initial].idx, acts(MACH)))
        an = lambda e: 'actAny' if e == '*' else 'act' + e
        tn = lambda t: ['S%d', 'sc::shallow_history<S%d>', 'sc::deep_history<S%d>'][t[1]] % t[0]
        for s in range(N):
            t = S[s][0]; inner = []
            for r in range(len(t.regions)):
                k, i = t.init.get(r, (0, 0)); inner.append(tn((t.regions[r][i].idx, k)))
            it = 'mpl::list<%s>' % ','.join(inner); ctx = 'M' if par[s] == MACH else ('S%d' % par[s] + ('::orthogonal<%d>' % reg[s] if len(S[par[s]][0].regions) > 1 else '')); st = s % 2
            w('struct S%d : sc::%s<S%d, %s, %s, %s> {' % (s, 'state' if st else 'simple_state', s, ctx, it, hm[t.hist]))
            w('  %s\n  S%d(%s) %s{ h_ctor(SIDE, %d, this); }\n  ~S%d() { h_dtor(SIDE, %d); }\n  void exit() { h_exit(SIDE, %d, *this); }' % (acts(s), s, 'my_context c' if st else '', ': my_base(c) ' if st else '', s, s, s, s))
            l = lists[s]; rl = []
            for i, (k, e, tt, c) in enumerate(l):
                if k == 'T': rl.append('sc::transition<%s, %s%s>' % (EV[e], tn(tt), '' if c is None else ', %s, &%s::%s' % (cn(c), cn(c), an(e))))
                elif k == 'X': rl.append('sc::termination<%s>' % EV[e])
                elif k == 'D': rl.append('sc::deferral<%s>' % EV[e])
                elif k == 'I': rl.append('sc::in_state_reaction<%s%s>' % (EV[e], '' if c is None else ', %s, &%s::%s' % (cn(c), cn(c), an(e))))
                else: rl.append('sc::custom_reaction<%s>' % EV[e])
            if x == 0:
                if len(rl) == 1 and s % 2: w('  typedef %s reactions;' % rl[0])
                elif rl: w('  typedef mpl::list<%s> reactions;' % ', '.join(rl))
                for i, (k, e, tt, c) in enumerate(l):
                    if k in 'CG': w('  sc::result react(const %s& e) { return body%d(e); }' % (EV[e], i))
            else:
                w('  typedef sc::custom_reaction<sc::event_base> reactions;\n  sc::result react(const sc::event_base& e) { u8 k = kindOf(e);')
                for i, (k, e, tt, c) in enumerate(l):
                    cond = '1' if e == '*' else 'k == %d' % KN[e]; arg = 'static_cast<const %s&>(e)' % EV[e]
                    if k == 'T': b = 'return transit<%s>();' % tn(tt) if c is None else 'return transit<%s, %s, %s>(&%s::%s, %s);' % (tn(tt), cn(c), EV[e], cn(c), an(e), arg)
                    elif k == 'X': b = 'return terminate();'
                    elif k == 'D': b = 'return defer_event();'
                    elif k == 'I': b = ('' if c is None else 'context<%s>().%s(%s); ' % (cn(c), an(e), arg)) + 'return discard_event();'
                    else: b = 'return body%d(%s);' % (i, arg)
                    w('    if (%s) { vf_reach(100 + %d * 8 + %d); %s }' % (cond, s, i, b))
                w('    return forward_event(); }')
            for i, (k, e, tt, c) in enumerate(l):
                if k == 'G': w('  sc::result body%d(const EvG& e) { switch (h_go(SIDE, %d, *this, e, %d)) { %s } return discard_event(); }' % (i, s, len(tt), ' '.join('case %d: return transit<%s>();' % (n, tn(g)) for n, g in enumerate(tt))))
                if k == 'C': w('  sc::result body%d(const %s& e) { switch (h_react(SIDE, %d, *this, e, %d)) { case 0: return discard_event(); case 1: return forward_event(); case 2: return transit<%s>(); case 3: return terminate(); default: return defer_event(); } }' % (i, EV[e], s, 0 if e == 'X' else 1, tn(tt)))
            w('};')
            if not t.regions: leafs[s] = '1'
        w('}')
    w('static const u8 u_leaf[U_N] = {%s};' % ','.join(leafs)); w('#include "declops.hpp"')
    return '\n'.join(W) + '\n'
if __name__ == '__main__': open(sys.argv[2], 'w').write(gen(sys.argv[1], int(sys.argv[3]), sys.argv[4] if len(sys.argv) > 4 else ''))
