// z3 back end: satisfiability of path condition slices, with a query cache.
#pragma once
#include "expr.hpp"
#include <z3.h>
#include <map>
#include <set>
#include <chrono>
#include <unistd.h>

namespace sx {
struct Model { std::vector<std::pair<uint32_t, uint64_t>> v; };
struct Stats { uint64_t queries = 0, z3calls = 0, cacheHits = 0, sat = 0, unsat = 0; double z3time = 0; };

class Solver {
  Z3_context ctx; Z3_solver s;
  struct H { size_t operator()(const std::vector<uint32_t>& v) const { uint64_t h = 1469598103934665603ull; for (auto x : v) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; } return h; } };
  struct R { bool sat; Model m; };
  std::unordered_map<std::vector<uint32_t>, R, H> cache;
  std::unordered_map<uint32_t, E> widths;
public:
  Stats st;
  Solver() {
    Z3_config c = Z3_mk_config(); Z3_set_param_value(c, "model", "true"); ctx = Z3_mk_context(c); Z3_del_config(c);
    s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")); Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), 400000000); Z3_solver_set_params(ctx, s, p);
  }
  Z3_ast tr(E e) {
    if (e->z3) return (Z3_ast)e->z3;
    Z3_ast r = nullptr;
    auto B = [&](Z3_ast b) { return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)), Z3_mk_unsigned_int64(ctx, 0, Z3_mk_bv_sort(ctx, 1))); };
    switch (e->op) {
    case O_CONST: r = Z3_mk_unsigned_int64(ctx, e->val, Z3_mk_bv_sort(ctx, e->w)); break;
    case O_VAR: { char n[32]; snprintf(n, sizeof n, "v%u_%u", (unsigned)e->val, e->w); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n), Z3_mk_bv_sort(ctx, e->w)); break; }
    case O_ADD: r = Z3_mk_bvadd(ctx, tr(e->a), tr(e->b)); break; case O_SUB: r = Z3_mk_bvsub(ctx, tr(e->a), tr(e->b)); break;
    case O_MUL: r = Z3_mk_bvmul(ctx, tr(e->a), tr(e->b)); break; case O_UDIV: r = Z3_mk_bvudiv(ctx, tr(e->a), tr(e->b)); break;
    case O_SDIV: r = Z3_mk_bvsdiv(ctx, tr(e->a), tr(e->b)); break; case O_UREM: r = Z3_mk_bvurem(ctx, tr(e->a), tr(e->b)); break;
    case O_SREM: r = Z3_mk_bvsrem(ctx, tr(e->a), tr(e->b)); break; case O_AND: r = Z3_mk_bvand(ctx, tr(e->a), tr(e->b)); break;
    case O_OR: r = Z3_mk_bvor(ctx, tr(e->a), tr(e->b)); break; case O_XOR: r = Z3_mk_bvxor(ctx, tr(e->a), tr(e->b)); break;
    case O_SHL: r = Z3_mk_bvshl(ctx, tr(e->a), tr(e->b)); break; case O_LSHR: r = Z3_mk_bvlshr(ctx, tr(e->a), tr(e->b)); break;
    case O_ASHR: r = Z3_mk_bvashr(ctx, tr(e->a), tr(e->b)); break;
    case O_EQ: r = B(Z3_mk_eq(ctx, tr(e->a), tr(e->b))); break; case O_ULT: r = B(Z3_mk_bvult(ctx, tr(e->a), tr(e->b))); break;
    case O_ULE: r = B(Z3_mk_bvule(ctx, tr(e->a), tr(e->b))); break; case O_SLT: r = B(Z3_mk_bvslt(ctx, tr(e->a), tr(e->b))); break;
    case O_SLE: r = B(Z3_mk_bvsle(ctx, tr(e->a), tr(e->b))); break;
    case O_ITE: r = Z3_mk_ite(ctx, Z3_mk_eq(ctx, tr(e->a), Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))), tr(e->b), tr(e->c)); break;
    case O_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, tr(e->a)); break; case O_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, tr(e->a)); break;
    case O_EXTRACT: r = Z3_mk_extract(ctx, (unsigned)e->val + e->w - 1, (unsigned)e->val, tr(e->a)); break;
    case O_CONCAT: r = Z3_mk_concat(ctx, tr(e->a), tr(e->b)); break;
    }
    Z3_inc_ref(ctx, r); e->z3 = r; return r; // (context without rc: no-op, kept for clarity)
  }
  // Is (slice of pc relevant to q) && q satisfiable?  On sat, m gets values for the variables of the slice.
  bool check(const std::vector<E>& pc, E q, Model* m) {
    st.queries++;
    if (q->op == O_CONST) { if (q->val == 0) return false; }
    // slicing
    std::vector<uint32_t> vs = X.vars(q); std::vector<E> sl; std::vector<char> used(pc.size(), 0); bool ch = true;
    auto inter = [](const std::vector<uint32_t>& a, const std::vector<uint32_t>& b) { size_t i = 0, j = 0; while (i < a.size() && j < b.size()) { if (a[i] == b[j]) return true; if (a[i] < b[j]) i++; else j++; } return false; };
    while (ch) { ch = false; for (size_t i = 0; i < pc.size(); i++) if (!used[i]) { auto& pv = X.vars(pc[i]); if (inter(pv, vs)) { used[i] = 1; sl.push_back(pc[i]);
      std::vector<uint32_t> t; std::set_union(vs.begin(), vs.end(), pv.begin(), pv.end(), std::back_inserter(t)); if (t.size() != vs.size()) { vs.swap(t); ch = true; } } } }
    std::vector<uint32_t> key; for (E e : sl) key.push_back(e->id); key.push_back(q->id); std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = cache.find(key);
    if (it != cache.end()) { st.cacheHits++; if (it->second.sat && m) *m = it->second.m; return it->second.sat; }
    auto t0 = std::chrono::steady_clock::now();
    st.z3calls++;
    Z3_solver_reset(ctx, s);
    Z3_ast one = Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1));
    for (E e : sl) Z3_solver_assert(ctx, s, Z3_mk_eq(ctx, tr(e), one));
    Z3_solver_assert(ctx, s, Z3_mk_eq(ctx, tr(q), one));
    Z3_lbool r = Z3_solver_check(ctx, s);
    R res; res.sat = false;
    if (r == Z3_L_UNDEF) { fprintf(stderr, "symex: solver gave no answer\n"); _exit(3); }
    if (r == Z3_L_TRUE) {
      res.sat = true; st.sat++;
      Z3_model md = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, md);
      std::map<uint32_t, E> ve; for (E e : sl) collect(e, ve); collect(q, ve);
      for (auto& p : ve) { Z3_ast o; uint64_t u = 0; if (Z3_model_eval(ctx, md, tr(p.second), true, &o)) Z3_get_numeral_uint64(ctx, o, &u); res.m.v.push_back({p.first, u}); }
      Z3_model_dec_ref(ctx, md);
      // self check: the model must satisfy the constraints under our own evaluator
      auto get = [&](uint32_t i) { for (auto& p : res.m.v) if (p.first == i) return p.second; return (uint64_t)0; };
      for (E e : sl) if (!X.eval(e, get)) { fprintf(stderr, "symex: model does not satisfy constraint (encoding bug)\n"); _exit(3); }
      if (!X.eval(q, get)) { fprintf(stderr, "symex: model does not satisfy query (encoding bug)\n"); _exit(3); }
    } else st.unsat++;
    st.z3time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (m && res.sat) *m = res.m;
    bool sat = res.sat; cache.emplace(std::move(key), std::move(res)); return sat;
  }
private:
  void collect(E e, std::map<uint32_t, E>& out) { if (X.vars(e).empty()) return; if (e->op == O_VAR) { out[(uint32_t)e->val] = e; return; } std::set<E> seen; coll(e, out, seen); }
  void coll(E e, std::map<uint32_t, E>& out, std::set<E>& seen) { if (!e || !seen.insert(e).second) return; if (e->op == O_VAR) out[(uint32_t)e->val] = e; coll(e->a, out, seen); coll(e->b, out, seen); coll(e->c, out, seen); }
};
} // namespace sx
