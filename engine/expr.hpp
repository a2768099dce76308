// Hash-consed bit-vector expressions (widths 1..64) with simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <string>
#include <unordered_map>
#include <algorithm>
#include <memory>

namespace sx {
enum Op : uint8_t { O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR,
  O_SHL, O_LSHR, O_ASHR, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE, O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT };

struct Expr {
  Op op; uint8_t w; bool undef; bool leaves; // leaves: ite tree whose leaves are all constants
  uint16_t nleaves;
  uint32_t id;
  uint64_t val;               // const value / var index / extract low bit
  const Expr *a, *b, *c;
  mutable const std::vector<uint32_t>* vars; // sorted variable indices, lazily computed
  mutable void* z3;
};
typedef const Expr* E;

struct V { uint64_t c; E e; };
inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sx64(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }
inline V cv(uint64_t c) { return V{c, nullptr}; }

struct Key { Op op; uint8_t w; uint64_t val; E a, b, c; bool operator==(const Key& o) const { return op == o.op && w == o.w && val == o.val && a == o.a && b == o.b && c == o.c; } };
struct KeyH { size_t operator()(const Key& k) const {
  uint64_t h = k.op * 0x9E3779B97F4A7C15ull + k.w; auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
  mix(k.val); mix(k.a ? k.a->id + 1 : 0); mix(k.b ? k.b->id + 1 : 0); mix(k.c ? k.c->id + 1 : 0); return h; } };

const uint32_t UNDEF_BASE = 0x40000000; // variable indices of undefined values
class Exprs {
  std::unordered_map<Key, E, KeyH> tab; uint32_t next = 1;
  std::unordered_map<E, const std::vector<uint32_t>*> dummy;
public:
  size_t size() const { return tab.size(); }
  E mk(Op op, unsigned w, uint64_t val, E a = nullptr, E b = nullptr, E c = nullptr) {
    Key k{op, (uint8_t)w, val, a, b, c};
    auto it = tab.find(k); if (it != tab.end()) return it->second;
    Expr* e = new Expr{op, (uint8_t)w, false, false, 0, next++, val, a, b, c, nullptr, nullptr};
    e->undef = (op == O_VAR && val >= UNDEF_BASE) || (a && a->undef) || (b && b->undef) || (c && c->undef);
    if (op == O_CONST) { e->leaves = true; e->nleaves = 1; }
    if (op == O_ITE) { e->leaves = b->leaves && c->leaves && b->nleaves + c->nleaves < 200; e->nleaves = e->leaves ? b->nleaves + c->nleaves : 0; }
    tab.emplace(k, e); return e;
  }
  E con(uint64_t v, unsigned w) { return mk(O_CONST, w, v & maskw(w)); }
  E var(uint32_t idx, unsigned w) { return mk(O_VAR, w, idx); }
  E ex(V v, unsigned w) { return v.e ? v.e : con(v.c, w); }
  V val(E e) { if (e->op == O_CONST) return V{e->val, nullptr}; return V{0, e}; }
  static uint64_t fold(Op op, unsigned w, uint64_t x, uint64_t y) {
    uint64_t m = maskw(w);
    switch (op) {
    case O_ADD: return (x + y) & m; case O_SUB: return (x - y) & m; case O_MUL: return (x * y) & m;
    case O_UDIV: return y ? x / y : m; case O_UREM: return y ? x % y : x;
    case O_SDIV: { int64_t a = sx64(x, w), b = sx64(y, w); if (!b) return a >= 0 ? m : 1; if (b == -1) return (0 - x) & m; return (uint64_t)(a / b) & m; }
    case O_SREM: { int64_t a = sx64(x, w), b = sx64(y, w); if (!b) return x; if (b == -1) return 0; return (uint64_t)(a % b) & m; }
    case O_AND: return x & y; case O_OR: return x | y; case O_XOR: return x ^ y;
    case O_SHL: return y >= w ? 0 : (x << y) & m; case O_LSHR: return y >= w ? 0 : x >> y;
    case O_ASHR: return (uint64_t)(sx64(x, w) >> (y >= w ? w - 1 : y)) & m;
    case O_EQ: return x == y; case O_ULT: return x < y; case O_ULE: return x <= y;
    case O_SLT: return sx64(x, w) < sx64(y, w); case O_SLE: return sx64(x, w) <= sx64(y, w);
    default: abort(); }
  }
  static bool iscmp(Op op) { return op >= O_EQ && op <= O_SLE; }
  E notE(E x) { // width 1
    if (x->op == O_CONST) return con(!x->val, 1);
    if (x->op == O_XOR && x->b->op == O_CONST && x->b->val == 1) return x->a;
    return mk(O_XOR, 1, 0, x, con(1, 1));
  }
  E ite(E c, E t, E f) {
    if (c->op == O_CONST) return c->val ? t : f;
    if (t == f) return t;
    if (c->op == O_XOR && c->w == 1 && c->b->op == O_CONST && c->b->val == 1) return ite(c->a, f, t);
    if (t->op == O_ITE && t->a == c) t = t->b;
    if (f->op == O_ITE && f->a == c) f = f->c;
    if (t == f) return t;
    if (t->w == 1) {
      if (t->op == O_CONST && f->op == O_CONST) return t->val ? c : notE(c);
      if (t->op == O_CONST) return t->val ? bin(O_OR, c, f) : bin(O_AND, notE(c), f);
      if (f->op == O_CONST) return f->val ? bin(O_OR, notE(c), t) : bin(O_AND, c, t);
    }
    return mk(O_ITE, t->w, 0, c, t, f);
  }
  E mapLeaves(E x, Op op, E k, bool left) { // x is an ite tree with constant leaves
    if (x->op == O_CONST) { uint64_t r = left ? fold(op, x->w, x->val, k->val) : fold(op, x->w, k->val, x->val); return con(r, iscmp(op) ? 1 : x->w); }
    return ite(x->a, mapLeaves(x->b, op, k, left), mapLeaves(x->c, op, k, left));
  }
  E bin(Op op, E x, E y) {
    unsigned w = x->w;
    if (x->op == O_CONST && y->op == O_CONST) return con(fold(op, w, x->val, y->val), iscmp(op) ? 1 : w);
    bool comm = op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ;
    if (comm && (x->op == O_CONST || (y->op != O_CONST && x->id > y->id))) std::swap(x, y);
    uint64_t m = maskw(w);
    if (y->op == O_CONST) {
      uint64_t k = y->val;
      if (x->op == O_ITE && x->leaves && x->nleaves <= 64) return mapLeaves(x, op, y, true);
      switch (op) {
      case O_ADD: if (!k) return x; if (x->op == O_ADD && x->b->op == O_CONST) return bin(O_ADD, x->a, con(x->b->val + k, w)); break;
      case O_SUB: return bin(O_ADD, x, con(0 - k, w));
      case O_MUL: if (k == 1) return x; if (!k) return y; break;
      case O_AND: if (!k) return y; if (k == m) return x; if (x->op == O_AND && x->b->op == O_CONST) return bin(O_AND, x->a, con(x->b->val & k, w));
        if (x->op == O_ZEXT && (k & maskw(x->a->w)) == maskw(x->a->w)) return x; break;
      case O_OR: if (!k) return x; if (k == m) return y; break;
      case O_XOR: if (!k) return x; if (x->op == O_XOR && x->b->op == O_CONST) return bin(O_XOR, x->a, con(x->b->val ^ k, w)); break;
      case O_SHL: case O_LSHR: case O_ASHR: if (!k) return x; if (k >= w && op != O_ASHR) return con(0, w); if (op == O_SHL && k % 8 == 0 && w % 8 == 0) return concat(extract(x, 0, w - (unsigned)k), con(0, (unsigned)k)); if (op == O_LSHR && k % 8 == 0 && w % 8 == 0) return zext(extract(x, (unsigned)k, w - (unsigned)k), w); break;
      case O_UDIV: if (k == 1) return x; break;
      case O_EQ:
        if (w == 1) return k ? x : notE(x);
        if (x->op == O_ZEXT) { if (k & ~maskw(x->a->w)) return con(0, 1); return bin(O_EQ, x->a, con(k, x->a->w)); }
        if (x->op == O_SEXT) { uint64_t t = k & maskw(x->a->w); if (((uint64_t)sx64(t, x->a->w) & m) != k) return con(0, 1); return bin(O_EQ, x->a, con(t, x->a->w)); }
        if (x->op == O_ADD && x->b->op == O_CONST) return bin(O_EQ, x->a, con(k - x->b->val, w));
        if (x->op == O_XOR && x->b->op == O_CONST) return bin(O_EQ, x->a, con(k ^ x->b->val, w));
        if (x->op == O_CONCAT) { unsigned lw = x->b->w; return bin(O_AND, bin(O_EQ, x->a, con(k >> lw, x->a->w)), bin(O_EQ, x->b, con(k & maskw(lw), lw))); }
        break;
      case O_ULT: if (!k) return con(0, 1); if (k == 1) return bin(O_EQ, x, con(0, w));
        if (x->op == O_ZEXT) { if (k > maskw(x->a->w)) return con(1, 1); return bin(O_ULT, x->a, con(k, x->a->w)); } break;
      case O_ULE: if (k == m) return con(1, 1); return bin(O_ULT, x, con(k + 1, w));
      case O_SLT: if (x->op == O_ZEXT && x->a->w < w) { if (sx64(k, w) <= 0) return con(0, 1); return bin(O_ULT, x, y); } break;
      case O_SLE: if (x->op == O_ZEXT && x->a->w < w) { if (sx64(k, w) < 0) return con(0, 1); return bin(O_ULE, x, y); } break;
      default: break; }
    } else if (x->op == O_CONST) {
      if (y->op == O_ITE && y->leaves && y->nleaves <= 64) return mapLeaves(y, op, x, false);
      if (op == O_SHL || op == O_LSHR || op == O_ASHR) { if (!x->val) return x; }
      if (op == O_ULT && x->val == m) return con(0, 1);
      if (op == O_ULT && y->op == O_ZEXT) { if (x->val >= maskw(y->a->w)) return con(0, 1); return bin(O_ULT, con(x->val, y->a->w), y->a); }
      if (op == O_ULE && !x->val) return con(1, 1);
      if (op == O_SLT && y->op == O_ZEXT && y->a->w < w) { if (sx64(x->val, w) < 0) return con(1, 1); return bin(O_ULT, x, y); }
      if (op == O_SLE && y->op == O_ZEXT && y->a->w < w) { if (sx64(x->val, w) <= 0) return con(1, 1); return bin(O_ULE, x, y); }
    }
    if (x == y) switch (op) { case O_SUB: case O_XOR: return con(0, w); case O_AND: case O_OR: return x; case O_EQ: case O_ULE: case O_SLE: return con(1, 1); case O_ULT: case O_SLT: return con(0, 1); default: break; }
    if (w == 1 && (op == O_AND || op == O_OR)) { if (notE(x) == y) return con(op == O_OR, 1); }
    if (x->op == O_ITE && y->op == O_ITE && x->a == y->a && x->leaves && y->leaves) return ite(x->a, bin(op, x->b, y->b), bin(op, x->c, y->c));
    return mk(op, iscmp(op) ? 1 : w, 0, x, y);
  }
  E zext(E x, unsigned w) { if (x->w == w) return x; if (x->op == O_CONST) return con(x->val, w);
    if (x->op == O_ITE && x->leaves) return ite(x->a, zext(x->b, w), zext(x->c, w));
    if (x->op == O_ZEXT) return zext(x->a, w); return mk(O_ZEXT, w, 0, x); }
  E sext(E x, unsigned w) { if (x->w == w) return x; if (x->op == O_CONST) return con((uint64_t)sx64(x->val, x->w), w);
    if (x->op == O_ITE && x->leaves) return ite(x->a, sext(x->b, w), sext(x->c, w));
    if (x->op == O_ZEXT) return zext(x->a, w); return mk(O_SEXT, w, 0, x); }
  E extract(E x, unsigned lo, unsigned w) {
    if (lo == 0 && w == x->w) return x;
    if (x->op == O_CONST) return con(x->val >> lo, w);
    if (x->op == O_ITE && x->leaves) return ite(x->a, extract(x->b, lo, w), extract(x->c, lo, w));
    if (x->op == O_EXTRACT) return extract(x->a, lo + (unsigned)x->val, w);
    if (x->op == O_ZEXT) { if (lo >= x->a->w) return con(0, w); if (lo + w <= x->a->w) return extract(x->a, lo, w); if (lo == 0) return zext(x->a, w); }
    if (x->op == O_SEXT && lo + w <= x->a->w) return extract(x->a, lo, w);
    if (x->op == O_CONCAT) { unsigned lw = x->b->w; if (lo + w <= lw) return extract(x->b, lo, w); if (lo >= lw) return extract(x->a, lo - lw, w); }
    if ((x->op == O_OR || x->op == O_AND) && lo % 8 == 0 && w % 8 == 0) { E p = extract(x->a, lo, w), q = extract(x->b, lo, w); if (p->op == O_CONST || q->op == O_CONST) return bin(x->op, p, q); }
    return mk(O_EXTRACT, w, lo, x);
  }
  E concat(E hi, E lo) {
    unsigned w = hi->w + lo->w;
    if (hi->op == O_CONST && lo->op == O_CONST) return con(hi->val << lo->w | lo->val, w);
    if (hi->op == O_CONST && hi->val == 0) return zext(lo, w);
    if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->a == lo->a && hi->val == lo->val + lo->w) return extract(hi->a, (unsigned)lo->val, w);
    return mk(O_CONCAT, w, 0, hi, lo);
  }
  const std::vector<uint32_t>& vars(E e) {
    if (e->vars) return *e->vars;
    auto* r = new std::vector<uint32_t>;
    if (e->op == O_VAR) r->push_back((uint32_t)e->val);
    for (E k : {e->a, e->b, e->c}) if (k) { auto& s = vars(k); std::vector<uint32_t> t; std::set_union(r->begin(), r->end(), s.begin(), s.end(), std::back_inserter(t)); r->swap(t); }
    e->vars = r; return *r;
  }
  // evaluate under an assignment
  template <class F> uint64_t eval(E e, F& get) {
    switch (e->op) {
    case O_CONST: return e->val; case O_VAR: return get((uint32_t)e->val) & maskw(e->w);
    case O_ITE: return eval(e->a, get) ? eval(e->b, get) : eval(e->c, get);
    case O_ZEXT: return eval(e->a, get); case O_SEXT: return (uint64_t)sx64(eval(e->a, get), e->a->w) & maskw(e->w);
    case O_EXTRACT: return (eval(e->a, get) >> e->val) & maskw(e->w);
    case O_CONCAT: return (eval(e->a, get) << e->b->w | eval(e->b, get));
    default: { uint64_t x = eval(e->a, get), y = eval(e->b, get); return fold(e->op, e->a->w, x, y); } }
  }
};
extern Exprs X;
} // namespace sx
