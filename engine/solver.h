// Thin incremental wrapper around z3's C API (QF_BV).
#pragma once
#include "expr.h"
#include <cstdio>
#include <cstdlib>
#include <time.h>

namespace ksym {

inline double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

class Solver {
public:
  explicit Solver(Ctx& c) : ctx{c} {
    Z3_config cfg = Z3_mk_config();
    z = Z3_mk_context(cfg);
    Z3_del_config(cfg);
    s = Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, "QF_BV"));
    Z3_solver_inc_ref(z, s);
    // a limit on work, not time: it needs no timer thread, which fork would lose
    Z3_params ps = Z3_mk_params(z);
    Z3_params_inc_ref(z, ps);
    Z3_params_set_uint(z, ps, Z3_mk_string_symbol(z, "rlimit"), queryLimit);
    Z3_solver_set_params(z, s, ps);
    Z3_params_dec_ref(z, ps);
  }
  inline static unsigned queryLimit = 40000000;
  void add(Expr* e) {
    all.push_back(e);
    Z3_solver_assert(z, s, conv(e));
  }

  // 1 sat (model filled), 0 unsat, -1 unknown
  // Models of z3's incremental solver are sometimes wrong: each is evaluated,
  // and a wrong one makes a fresh solver decide. So does a sample of the others.
  int check(Expr* extra, std::vector<uint64_t>& model, unsigned& stamp) {
    const int r = checkInc(extra, model);
    if (r < 0) return r;
    const bool good = r == 0 || holds(extra, model, stamp);
    if (good && ++answers % 199) return r;
    std::vector<uint64_t> m2;
    const int r2 = checkFresh(extra, m2);
    if (r2 == 1 && !holds(extra, m2, stamp)) return -1;
    if (good) return r2 < 0 || r2 == r ? r : -1;
    if (r2 == 1) model = m2;
    return r2;
  }

private:
  bool holds(Expr* extra, const std::vector<uint64_t>& model, unsigned& stamp) {
    ++stamp;
    if (!ctx.eval(extra, model, stamp)) return false;
    for (Expr* e : all)
      if (!ctx.eval(e, model, stamp)) return false;
    return true;
  }
  int checkFresh(Expr* extra, std::vector<uint64_t>& model) {
    Z3_tactic t = Z3_mk_tactic(z, "qfbv");
    Z3_tactic_inc_ref(z, t);
    Z3_solver keep = s;
    s = Z3_mk_solver_from_tactic(z, t);
    Z3_solver_inc_ref(z, s);
    for (Expr* e : all) Z3_solver_assert(z, s, conv(e));
    const int r = checkInc(extra, model, false);
    Z3_solver_dec_ref(z, s);
    Z3_tactic_dec_ref(z, t);
    s = keep;
    return r;
  }
  int checkInc(Expr* extra, std::vector<uint64_t>& model, bool scope = true) {
    if (scope) Z3_solver_push(z, s);
    Z3_solver_assert(z, s, conv(extra));
    static const char* slow = getenv("KSYM_SLOW");
    const double t0 = slow ? now() : 0;
    const Z3_lbool r = Z3_solver_check(z, s);
    if (slow && now() - t0 > atof(slow))
      fprintf(stderr, "SLOW %.2f s result %d\n%s\n", now() - t0, int(r), Z3_solver_to_string(z, s));
    int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (res == 1) {
      Z3_model m = Z3_solver_get_model(z, s);
      Z3_model_inc_ref(z, m);
      model.assign(ctx.vars.size(), 0);
      for (size_t i = 0; i < ctx.vars.size(); ++i) {
        Z3_ast out;
        if (ctx.vars[i]->z && Z3_model_eval(z, m, ctx.vars[i]->z, true, &out)) {
          uint64_t v = 0;
          if (ctx.vars[i]->w == 1)
            v = Z3_get_bool_value(z, out) == Z3_L_TRUE;
          else
            Z3_get_numeral_uint64(z, out, &v);
          model[i] = v;
        }
      }
      Z3_model_dec_ref(z, m);
    }
    if (scope) Z3_solver_pop(z, s, 1);
    return res;
  }

  std::vector<Expr*> all;
  unsigned answers = 0;

  Z3_ast conv(Expr* e) { // width 1 is Bool, others BitVec
    if (e->z) return e->z;
    // iterative post-order to avoid deep recursion
    std::vector<Expr*> st{e};
    while (!st.empty()) {
      Expr* x = st.back();
      if (x->z) { st.pop_back(); continue; }
      bool ready = true;
      for (Expr* y : {x->a, x->b, x->k})
        if (y && !y->z) { st.push_back(y); ready = false; }
      if (ready) { x->z = conv1(x); st.pop_back(); }
    }
    return e->z;
  }

  Z3_sort bv(unsigned w) { return Z3_mk_bv_sort(z, w); }
  Z3_ast asBv(Expr* e) { // width-1 value as BitVec 1
    if (e->w != 1) return e->z;
    return Z3_mk_ite(z, e->z, Z3_mk_unsigned_int64(z, 1, bv(1)),
        Z3_mk_unsigned_int64(z, 0, bv(1)));
  }
  Z3_ast toBoolIf1(Z3_ast a, unsigned w) {
    if (w != 1) return a;
    return Z3_mk_eq(z, a, Z3_mk_unsigned_int64(z, 1, bv(1)));
  }
  Z3_ast conv1(Expr* e) {
    const unsigned w = e->w;
    switch (e->op) {
    case Op::Const:
      if (w == 1) return e->c ? Z3_mk_true(z) : Z3_mk_false(z);
      return Z3_mk_unsigned_int64(z, e->c, bv(w));
    case Op::Var: {
      const std::string n = "v" + std::to_string(e->c);
      return Z3_mk_const(z, Z3_mk_string_symbol(z, n.c_str()),
          w == 1 ? Z3_mk_bool_sort(z) : bv(w));
    }
    case Op::And: if (w == 1) { Z3_ast x[2]{e->a->z, e->b->z}; return Z3_mk_and(z, 2, x); }
      return Z3_mk_bvand(z, e->a->z, e->b->z);
    case Op::Or: if (w == 1) { Z3_ast x[2]{e->a->z, e->b->z}; return Z3_mk_or(z, 2, x); }
      return Z3_mk_bvor(z, e->a->z, e->b->z);
    case Op::Xor:
      if (w == 1) return Ctx::isC(e->b, 1) ? Z3_mk_not(z, e->a->z) : Z3_mk_xor(z, e->a->z, e->b->z);
      return Z3_mk_bvxor(z, e->a->z, e->b->z);
    case Op::Eq: return Z3_mk_eq(z, e->a->z, e->b->z);
    case Op::Ult: return Z3_mk_bvult(z, asBv(e->a), asBv(e->b));
    case Op::Ule: return Z3_mk_bvule(z, asBv(e->a), asBv(e->b));
    case Op::Slt: return Z3_mk_bvslt(z, asBv(e->a), asBv(e->b));
    case Op::Sle: return Z3_mk_bvsle(z, asBv(e->a), asBv(e->b));
    case Op::ZExt: return Z3_mk_zero_ext(z, w - e->a->w, asBv(e->a));
    case Op::SExt: return Z3_mk_sign_ext(z, w - e->a->w, asBv(e->a));
    case Op::Extract:
      return toBoolIf1(Z3_mk_extract(z, e->c + w - 1, e->c, asBv(e->a)), w);
    case Op::Concat: return Z3_mk_concat(z, asBv(e->a), asBv(e->b));
    case Op::Ite: return Z3_mk_ite(z, e->a->z, e->b->z, e->k->z);
    default: break;
    }
    Z3_ast a = asBv(e->a), b = asBv(e->b), r;
    switch (e->op) {
    case Op::Add: r = Z3_mk_bvadd(z, a, b); break;
    case Op::Sub: r = Z3_mk_bvsub(z, a, b); break;
    case Op::Mul: r = Z3_mk_bvmul(z, a, b); break;
    case Op::UDiv: r = Z3_mk_bvudiv(z, a, b); break;
    case Op::SDiv: r = Z3_mk_bvsdiv(z, a, b); break;
    case Op::URem: r = Z3_mk_bvurem(z, a, b); break;
    case Op::SRem: r = Z3_mk_bvsrem(z, a, b); break;
    case Op::Shl: r = Z3_mk_bvshl(z, a, b); break;
    case Op::LShr: r = Z3_mk_bvlshr(z, a, b); break;
    case Op::AShr: r = Z3_mk_bvashr(z, a, b); break;
    default: fprintf(stderr, "conv: bad op\n"); abort();
    }
    return toBoolIf1(r, w);
  }
  Ctx& ctx;
  Z3_context z;
  Z3_solver s;
};

} // namespace ksym
