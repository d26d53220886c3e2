// Hash-consed bit-vector expressions (width 1..64), with a concrete evaluator
// and a translation to z3.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <z3.h>

namespace ksym {

enum class Op : uint8_t {
  Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr,
  AShr, Eq, Ult, Ule, Slt, Sle, ZExt, SExt, Extract, Concat, Ite
};

struct Expr {
  Op op;
  uint8_t w;
  uint32_t id;
  uint64_t c; // constant value, variable number or extract low bit
  Expr *a, *b, *k;
  uint32_t stamp;
  uint64_t val;
  Z3_ast z;
  uint64_t lo, hi; // unsigned range of the value, whatever the variables
  int32_t dep; // the only variable it depends on, -1 none, -2 several
};

inline uint64_t mask(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
inline int64_t sext(uint64_t v, unsigned w) {
  if (w >= 64) return static_cast<int64_t>(v);
  const uint64_t s = 1ull << (w - 1);
  return static_cast<int64_t>(((v & mask(w)) ^ s) - s);
}

class Ctx {
public:
  Ctx() { table.reserve(1 << 16); }

  Expr* cst(uint64_t v, unsigned w) {
    return get(Op::Const, w, v & mask(w), nullptr, nullptr, nullptr);
  }
  Expr* var(unsigned w, const std::string& name) {
    Expr* e = get(Op::Var, w, vars.size(), nullptr, nullptr, nullptr);
    vars.push_back(e);
    names.push_back(name);
    return e;
  }
  static bool isC(const Expr* e) { return e->op == Op::Const; }
  static bool isC(const Expr* e, uint64_t v) {
    return e->op == Op::Const && e->c == v;
  }
  Expr* t() { return cst(1, 1); }
  Expr* f() { return cst(0, 1); }

  Expr* notE(Expr* e) { // width 1
    if (isC(e)) return cst(!e->c, 1);
    if (e->op == Op::Xor && isC(e->b, 1)) return e->a;
    return get(Op::Xor, 1, 0, e, cst(1, 1), nullptr);
  }

  Expr* ite(Expr* c, Expr* x, Expr* y) {
    if (isC(c)) return c->c ? x : y;
    if (x == y) return x;
    if (c->op == Op::Xor && c->w == 1 && isC(c->b, 1)) return ite(c->a, y, x);
    if (x->w == 1) {
      if (isC(x, 1)) return bin(Op::Or, c, y);
      if (isC(x, 0)) return bin(Op::And, notE(c), y);
      if (isC(y, 1)) return bin(Op::Or, notE(c), x);
      if (isC(y, 0)) return bin(Op::And, c, x);
    }
    if (x->op == Op::Ite && x->a == c) x = x->b;
    if (y->op == Op::Ite && y->a == c) y = y->k;
    if (x == y) return x;
    return get(Op::Ite, x->w, 0, c, x, y);
  }

  Expr* zext(Expr* e, unsigned w) {
    if (e->w == w) return e;
    if (isC(e)) return cst(e->c, w);
    if (e->op == Op::ZExt) return zext(e->a, w);
    return get(Op::ZExt, w, 0, e, nullptr, nullptr);
  }
  Expr* sextE(Expr* e, unsigned w) {
    if (e->w == w) return e;
    if (isC(e)) return cst(static_cast<uint64_t>(sext(e->c, e->w)), w);
    if (e->op == Op::ZExt) return zext(e->a, w); // top bit is zero
    return get(Op::SExt, w, 0, e, nullptr, nullptr);
  }
  Expr* extract(Expr* e, unsigned lo, unsigned w) {
    if (lo == 0 && w == e->w) return e;
    if (isC(e)) return cst(e->c >> lo, w);
    switch (e->op) {
    case Op::Extract: return extract(e->a, lo + e->c, w);
    case Op::ZExt:
      if (lo >= e->a->w) return cst(0, w);
      if (lo + w <= e->a->w) return extract(e->a, lo, w);
      return zext(extract(e->a, lo, e->a->w - lo), w);
    case Op::SExt:
      if (lo + w <= e->a->w) return extract(e->a, lo, w);
      break;
    case Op::Concat: // a = high, b = low
      if (lo + w <= e->b->w) return extract(e->b, lo, w);
      if (lo >= e->b->w) return extract(e->a, lo - e->b->w, w);
      return concat(extract(e->a, 0, lo + w - e->b->w),
          extract(e->b, lo, e->b->w - lo));
    case Op::Ite:
      if (isC(e->b) || isC(e->k))
        return ite(e->a, extract(e->b, lo, w), extract(e->k, lo, w));
      break;
    case Op::And: case Op::Or: case Op::Xor:
      if (isC(e->b)) return bin(e->op, extract(e->a, lo, w), extract(e->b, lo, w));
      break;
    case Op::Add: case Op::Mul:
      if (lo == 0) return bin(e->op, extract(e->a, 0, w), extract(e->b, 0, w));
      break;
    default: break;
    }
    return get(Op::Extract, w, lo, e, nullptr, nullptr);
  }
  Expr* concat(Expr* hi, Expr* lo) {
    const unsigned w = hi->w + lo->w;
    if (isC(hi) && isC(lo)) return cst(hi->c << lo->w | lo->c, w);
    if (isC(hi, 0)) return zext(lo, w);
    if (hi->op == Op::Extract && lo->op == Op::Extract && hi->a == lo->a &&
        hi->c == lo->c + lo->w)
      return extract(hi->a, lo->c, w);
    if (hi->op == Op::ZExt)
      return zext(concat(hi->a, lo), w);
    return get(Op::Concat, w, 0, hi, lo, nullptr);
  }

  static uint64_t satAdd(uint64_t a, uint64_t b, unsigned w) { return b > mask(w) - a ? mask(w) : a + b; }
  Expr* bin(Op op, Expr* a, Expr* b) {
    const unsigned w = a->w;
    if (a->w != b->w) { fprintf(stderr, "width mismatch %d %d op %d\n", a->w, b->w, (int)op); abort(); }
    if (isC(a) && isC(b)) {
      uint64_t r;
      if (fold(op, a->c, b->c, w, r)) return cst(r, isCmp(op) ? 1 : w);
    }
    // constants to the right for commutative operators
    if (isC(a) && (op == Op::Add || op == Op::Mul || op == Op::And ||
                      op == Op::Or || op == Op::Xor || op == Op::Eq))
      std::swap(a, b);
    switch (op) {
    case Op::Add:
      if (isC(b, 0)) return a;
      if (isC(b) && a->op == Op::Concat && isC(a->b, 0) && b->c <= mask(a->b->w))
        return concat(a->a, cst(b->c, a->b->w));
      if (isC(b) && a->op == Op::Add && isC(a->b))
        return bin(Op::Add, a->a, cst(a->b->c + b->c, w));
      break;
    case Op::Sub:
      if (isC(b)) return bin(Op::Add, a, cst(0 - b->c, w));
      if (a == b) return cst(0, w);
      break;
    case Op::Mul:
      if (isC(b, 0)) return b;
      if (isC(b, 1)) return a;
      break;
    case Op::SDiv: case Op::SRem:
      if (a->hi <= mask(w) >> 1 && b->lo && b->hi <= mask(w) >> 1)
        return bin(op == Op::SDiv ? Op::UDiv : Op::URem, a, b);
      break;
    case Op::UDiv:
      if (isC(b, 1)) return a;
      if (isC(b) && b->c) {
        if (!(b->c & (b->c - 1))) return bin(Op::LShr, a, cst(__builtin_ctzll(b->c), w));
        if (a->hi < b->c) return cst(0, w);
        if (a->op == Op::ZExt && b->c <= mask(a->a->w)) return zext(bin(op, a->a, cst(b->c, a->a->w)), w);
        if (a->op == Op::UDiv && isC(a->b) && a->b->c) {
          const __uint128_t p = static_cast<__uint128_t>(a->b->c) * b->c;
          return p > mask(w) ? cst(0, w) : bin(op, a->a, cst(static_cast<uint64_t>(p), w));
        }
      }
      break;
    case Op::URem:
      if (b->lo && a->hi < b->lo) return a;
      if (isC(b) && b->c && a->op == Op::ZExt && b->c <= mask(a->a->w))
        return zext(bin(op, a->a, cst(b->c, a->a->w)), w);
      if (isC(b) && b->c && !(b->c & (b->c - 1)))
        return bin(Op::And, a, cst(b->c - 1, w));
      break;
    case Op::And:
      if (isC(b, 0)) return b;
      if (isC(b, mask(w))) return a;
      if (a == b) return a;
      if (isC(b) && b->c && !(b->c & (b->c + 1))) { // low mask
        const unsigned n = 64 - __builtin_clzll(b->c);
        return zext(extract(a, 0, n), w);
      }
      if (w == 1 && (a == notE(b))) return cst(0, 1);
      if (isC(b) && a->op == Op::And && isC(a->b))
        return bin(Op::And, a->a, cst(a->b->c & b->c, w));
      if (isC(b) && a->op == Op::Ite && (isC(a->b) || isC(a->k)))
        return ite(a->a, bin(op, a->b, b), bin(op, a->k, b));
      break;
    case Op::Or:
      if (isC(b, 0)) return a;
      if (isC(b, mask(w))) return b;
      if (a == b) return a;
      if (w == 1 && (a == notE(b))) return cst(1, 1);
      // (zext lo) | (x << n) is a concat
      if (isC(b) && a->op == Op::Concat && isC(a->b) && b->c <= mask(a->b->w))
        return concat(a->a, cst(a->b->c | b->c, a->b->w));
      if (Expr* r = orAsConcat(a, b, w)) return r;
      if (Expr* r = orAsConcat(b, a, w)) return r;
      break;
    case Op::Xor:
      if (isC(b, 0)) return a;
      if (a == b) return cst(0, w);
      if (isC(b) && a->op == Op::Xor && isC(a->b))
        return bin(Op::Xor, a->a, cst(a->b->c ^ b->c, w));
      break;
    case Op::Shl:
      if (isC(b)) {
        if (b->c == 0) return a;
        if (b->c >= w) return cst(0, w);
        return concat(extract(a, 0, w - b->c), cst(0, b->c));
      }
      break;
    case Op::LShr:
      if (isC(b)) {
        if (b->c == 0) return a;
        if (b->c >= w) return cst(0, w);
        return zext(extract(a, b->c, w - b->c), w);
      }
      break;
    case Op::AShr:
      if (isC(b)) {
        if (b->c == 0) return a;
        const unsigned s = b->c >= w ? w - 1 : b->c;
        return sextE(extract(a, s, w - s), w);
      }
      break;
    case Op::Eq:
      if (a == b) return t();
      if (a->hi < b->lo || b->hi < a->lo) return f();
      if (w == 1 && isC(b)) return b->c ? a : notE(a);
      if (isC(b)) {
        if (a->op == Op::ZExt)
          return b->c > mask(a->a->w) ? f()
                                      : bin(Op::Eq, a->a, cst(b->c, a->a->w));
        if (a->op == Op::SExt) {
          if (static_cast<uint64_t>(sext(b->c, a->a->w)) << (64 - w) != b->c << (64 - w))
            return f();
          return bin(Op::Eq, a->a, cst(b->c, a->a->w));
        }
        if (a->op == Op::Add && isC(a->b))
          return bin(Op::Eq, a->a, cst(b->c - a->b->c, w));
        if (a->op == Op::Xor && isC(a->b))
          return bin(Op::Eq, a->a, cst(b->c ^ a->b->c, w));
        if (a->op == Op::Mul && isC(a->b) && a->a->hi <= mask(w) / a->b->c) // no overflow
          return b->c % a->b->c ? f() : bin(Op::Eq, a->a, cst(b->c / a->b->c, w));
        if (a->op == Op::UDiv && isC(a->b) && a->b->c)
          return b->c > mask(w) / a->b->c ? f()
                                          : bin(Op::And, bin(Op::Ule, cst(b->c * a->b->c, w), a->a),
                                                bin(Op::Ule, a->a, cst(satAdd(b->c * a->b->c, a->b->c - 1, w), w)));
        if (a->op == Op::Concat)
          return bin(Op::And, bin(Op::Eq, a->a, cst(b->c >> a->b->w, a->a->w)),
              bin(Op::Eq, a->b, cst(b->c, a->b->w)));
        if (a->op == Op::Ite && (isC(a->b) || isC(a->k)))
          return ite(a->a, bin(op, a->b, b), bin(op, a->k, b));
      } else if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->w == b->a->w)
        return bin(Op::Eq, a->a, b->a);
      if (a->id > b->id && !isC(b)) std::swap(a, b);
      break;
    case Op::Ult:
      if (a == b || isC(b, 0) || isC(a, mask(w))) return f();
      if (a->hi < b->lo) return t();
      if (a->lo >= b->hi) return f();
      if (isC(b, 1)) return bin(Op::Eq, a, cst(0, w));
      if (isC(a, 0)) return notE(bin(Op::Eq, b, cst(0, w)));
      if (Expr* r = narrowCmp(op, a, b)) return r;
      break;
    case Op::Ule:
      if (a == b || isC(a, 0) || isC(b, mask(w))) return t();
      if (a->hi <= b->lo) return t();
      if (a->lo > b->hi) return f();
      if (isC(b, 0)) return bin(Op::Eq, a, b);
      if (Expr* r = narrowCmp(op, a, b)) return r;
      break;
    case Op::Slt:
      if (a == b) return f();
      if (sameSign(a, b)) return bin(Op::Ult, a, b);
      if (Expr* r = narrowScmp(op, a, b)) return r;
      break;
    case Op::Sle:
      if (a == b) return t();
      if (sameSign(a, b)) return bin(Op::Ule, a, b);
      if (Expr* r = narrowScmp(op, a, b)) return r;
      break;
    default: break;
    }
    return get(op, isCmp(op) ? 1 : w, 0, a, b, nullptr);
  }

  static bool isCmp(Op op) { return op >= Op::Eq && op <= Op::Sle; }

  // concrete folding; returns false for division by zero
  static bool fold(Op op, uint64_t a, uint64_t b, unsigned w, uint64_t& r) {
    switch (op) {
    case Op::Add: r = a + b; break;
    case Op::Sub: r = a - b; break;
    case Op::Mul: r = a * b; break;
    case Op::UDiv: if (!b) return false; r = a / b; break;
    case Op::URem: if (!b) return false; r = a % b; break;
    case Op::SDiv: {
      if (!b) return false;
      const int64_t x = sext(a, w), y = sext(b, w);
      r = y == -1 ? 0 - static_cast<uint64_t>(x) : static_cast<uint64_t>(x / y);
      break;
    }
    case Op::SRem: {
      if (!b) return false;
      const int64_t x = sext(a, w), y = sext(b, w);
      r = y == -1 ? 0 : static_cast<uint64_t>(x % y);
      break;
    }
    case Op::And: r = a & b; break;
    case Op::Or: r = a | b; break;
    case Op::Xor: r = a ^ b; break;
    case Op::Shl: r = b >= w ? 0 : a << b; break;
    case Op::LShr: r = b >= w ? 0 : (a & mask(w)) >> b; break;
    case Op::AShr:
      r = static_cast<uint64_t>(sext(a, w) >> (b >= w ? w - 1 : b)); break;
    case Op::Eq: r = a == b; return true;
    case Op::Ult: r = a < b; return true;
    case Op::Ule: r = a <= b; return true;
    case Op::Slt: r = sext(a, w) < sext(b, w); return true;
    case Op::Sle: r = sext(a, w) <= sext(b, w); return true;
    default: return false;
    }
    r &= mask(w);
    return true;
  }

  // evaluate under an assignment of the variables
  uint64_t eval(Expr* e, const std::vector<uint64_t>& m, uint32_t st) {
    if (e->op == Op::Const) return e->c;
    if (e->op == Op::Var) return e->c < m.size() ? m[e->c] & mask(e->w) : 0;
    if (e->stamp == st) return e->val;
    uint64_t r = 0;
    switch (e->op) {
    case Op::ZExt: r = eval(e->a, m, st); break;
    case Op::SExt: r = static_cast<uint64_t>(sext(eval(e->a, m, st), e->a->w)); break;
    case Op::Extract: r = eval(e->a, m, st) >> e->c; break;
    case Op::Concat: r = eval(e->a, m, st) << e->b->w | eval(e->b, m, st); break;
    case Op::Ite: r = eval(e->a, m, st) ? eval(e->b, m, st) : eval(e->k, m, st); break;
    default: {
      const uint64_t a = eval(e->a, m, st), b = eval(e->b, m, st);
      if (!fold(e->op, a, b, e->a->w, r)) { // SMT-LIB division by zero
        if (e->op == Op::UDiv) r = mask(e->w);
        else if (e->op == Op::SDiv) r = sext(a, e->w) < 0 ? 1 : mask(e->w);
        else r = a;
      }
    }
    }
    e->stamp = st;
    return e->val = r & mask(e->w);
  }

  std::vector<Expr*> vars;
  std::vector<std::string> names;
  size_t count() const { return nodes; }

private:
  Expr* orAsConcat(Expr* x, Expr* y, unsigned w) {
    // y = concat(h, 0:n), x = zext(l) with l->w <= n
    if (y->op != Op::Concat || !isC(y->b, 0)) {
      if (y->op == Op::ZExt && y->a->op == Op::Concat && isC(y->a->b, 0) &&
          x->op == Op::ZExt && x->a->w <= y->a->b->w)
        return zext(concat(y->a->a, zext(x->a, y->a->b->w)), w);
      return nullptr;
    }
    if (x->op == Op::ZExt && x->a->w <= y->b->w)
      return concat(y->a, zext(x->a, y->b->w));
    return nullptr;
  }
  static bool sameSign(const Expr* a, const Expr* b) {
    const uint64_t h = mask(a->w) >> 1;
    return (a->hi <= h && b->hi <= h) || (a->lo > h && b->lo > h);
  }
  Expr* narrowCmp(Op op, Expr* a, Expr* b) {
    const uint64_t m = mask(a->w);
    if (isC(b) && a->op == Op::UDiv && isC(a->b) && a->b->c) { // x / c < k
      const __uint128_t p = (static_cast<__uint128_t>(b->c) + (op == Op::Ule)) * a->b->c;
      return p > m ? t() : bin(Op::Ult, a->a, cst(static_cast<uint64_t>(p), a->w));
    }
    if (isC(a) && b->op == Op::UDiv && isC(b->b) && b->b->c) { // k < x / c
      const __uint128_t p = (static_cast<__uint128_t>(a->c) + (op == Op::Ult)) * b->b->c;
      return p > m ? f() : bin(Op::Ule, cst(static_cast<uint64_t>(p), a->w), b->a);
    }
    if (isC(b) && a->op == Op::Add && isC(a->b) && a->a->hi <= m - a->b->c) // x + c < k
      return b->c < a->b->c ? f() : bin(op, a->a, cst(b->c - a->b->c, a->w));
    if (isC(a) && b->op == Op::Add && isC(b->b) && b->a->hi <= m - b->b->c) // k < x + c
      return a->c < b->b->c ? t() : bin(op, cst(a->c - b->b->c, a->w), b->a);
    if (a->op == Op::ZExt && isC(b)) {
      const unsigned n = a->a->w;
      if (b->c > mask(n)) return t();
      return bin(op, a->a, cst(b->c, n));
    }
    if (b->op == Op::ZExt && isC(a)) {
      const unsigned n = b->a->w;
      if (a->c > mask(n)) return f();
      return bin(op, cst(a->c, n), b->a);
    }
    if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->w == b->a->w)
      return bin(op, a->a, b->a);
    if (isC(b) && a->op == Op::Ite && (isC(a->b) || isC(a->k)))
      return ite(a->a, bin(op, a->b, b), bin(op, a->k, b));
    return nullptr;
  }
  Expr* narrowScmp(Op op, Expr* a, Expr* b) {
    const unsigned w = a->w;
    if (a->op == Op::ZExt && isC(b)) {
      if (sext(b->c, w) < 0) return f();
      return bin(op == Op::Slt ? Op::Ult : Op::Ule, a, b);
    }
    if (b->op == Op::ZExt && isC(a)) {
      if (sext(a->c, w) < 0) return t();
      return bin(op == Op::Slt ? Op::Ult : Op::Ule, a, b);
    }
    if (a->op == Op::ZExt && b->op == Op::ZExt)
      return bin(op == Op::Slt ? Op::Ult : Op::Ule, a, b);
    if (a->op == Op::SExt && isC(b)) {
      const unsigned n = a->a->w;
      const int64_t v = sext(b->c, w);
      if (v > sext(mask(n - 1), n)) return t();
      if (v < sext(1ull << (n - 1), n)) return f();
      return bin(op, a->a, cst(b->c, n));
    }
    if (b->op == Op::SExt && isC(a)) {
      const unsigned n = b->a->w;
      const int64_t v = sext(a->c, w);
      if (v > sext(mask(n - 1), n)) return f();
      if (v < sext(1ull << (n - 1), n)) return t();
      return bin(op, cst(a->c, n), b->a);
    }
    if (a->op == Op::SExt && b->op == Op::SExt && a->a->w == b->a->w)
      return bin(op, a->a, b->a);
    if (isC(b) && a->op == Op::Ite && (isC(a->b) || isC(a->k)))
      return ite(a->a, bin(op, a->b, b), bin(op, a->k, b));
    return nullptr;
  }

  struct Key {
    Op op; uint8_t w; uint64_t c; Expr *a, *b, *k;
    bool operator==(const Key& x) const {
      return op == x.op && w == x.w && c == x.c && a == x.a && b == x.b && k == x.k;
    }
  };
  struct Hash {
    size_t operator()(const Key& x) const {
      uint64_t h = static_cast<uint64_t>(x.op) * 0x9E3779B97F4A7C15ull + x.w;
      const auto mix = [&h](uint64_t v) {
        h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
        h *= 0xff51afd7ed558ccdull; h ^= h >> 32;
      };
      mix(x.c);
      mix(x.a ? x.a->id + 1 : 0); mix(x.b ? x.b->id + 1 : 0); mix(x.k ? x.k->id + 1 : 0);
      return h;
    }
  };
  static uint64_t ones(uint64_t v) { return v ? ~0ull >> __builtin_clzll(v) : 0; }
  static void range(Expr* e) {
    const Expr *a = e->a, *b = e->b;
    const uint64_t m = mask(e->w);
    uint64_t &lo = e->lo, &hi = e->hi;
    switch (e->op) {
    case Op::Const: lo = hi = e->c; break;
    case Op::Add: {
      const __uint128_t l = static_cast<__uint128_t>(a->lo) + b->lo, h = static_cast<__uint128_t>(a->hi) + b->hi;
      if (h <= m || l > m) lo = static_cast<uint64_t>(l) & m, hi = static_cast<uint64_t>(h) & m;
      break;
    }
    case Op::Sub: if (a->lo >= b->hi) lo = a->lo - b->hi, hi = a->hi - b->lo; break;
    case Op::Mul:
      if (static_cast<__uint128_t>(a->hi) * b->hi <= m) lo = a->lo * b->lo, hi = a->hi * b->hi;
      break;
    case Op::UDiv: if (b->lo) lo = a->lo / b->hi, hi = a->hi / b->lo; break;
    case Op::URem: if (b->lo) hi = a->hi < b->hi - 1 ? a->hi : b->hi - 1; break;
    case Op::And: hi = a->hi < b->hi ? a->hi : b->hi; break;
    case Op::Or: lo = a->lo > b->lo ? a->lo : b->lo; hi = ones(a->hi | b->hi); break;
    case Op::Xor: hi = ones(a->hi | b->hi); break;
    case Op::LShr: hi = a->hi; break;
    case Op::AShr: if (a->hi <= m >> 1) hi = a->hi; break;
    case Op::ZExt: lo = a->lo; hi = a->hi; break;
    case Op::SExt:
      if (a->hi <= mask(a->w) >> 1) lo = a->lo, hi = a->hi;
      else if (a->lo > mask(a->w) >> 1)
        lo = static_cast<uint64_t>(sext(a->lo, a->w)) & m, hi = static_cast<uint64_t>(sext(a->hi, a->w)) & m;
      break;
    case Op::Extract: if (a->hi >> e->c <= m) lo = a->lo >> e->c, hi = a->hi >> e->c; break;
    case Op::Concat: lo = a->lo << b->w | b->lo; hi = a->hi << b->w | b->hi; break;
    case Op::Ite:
      lo = b->lo < e->k->lo ? b->lo : e->k->lo;
      hi = b->hi > e->k->hi ? b->hi : e->k->hi;
      break;
    default: break;
    }
  }
  Expr* get(Op op, unsigned w, uint64_t c, Expr* a, Expr* b, Expr* k) {
    if (w == 0 || w > 64) { fprintf(stderr, "bad width %u\n", w); abort(); }
    const Key key{op, static_cast<uint8_t>(w), c, a, b, k};
    auto i = table.find(key);
    if (i != table.end()) return i->second;
    Expr* e = new Expr{op, static_cast<uint8_t>(w), static_cast<uint32_t>(nodes++),
        c, a, b, k, 0, 0, nullptr, 0, mask(w), -1};
    range(e);
    if (op == Op::Var) e->dep = static_cast<int32_t>(c);
    for (Expr* x : {a, b, k})
      if (x && x->dep != -1) e->dep = e->dep == -1 || e->dep == x->dep ? x->dep : -2;
    table.emplace(key, e);
    return e;
  }
  std::unordered_map<Key, Expr*, Hash> table;
  size_t nodes = 1;
};

} // namespace ksym
