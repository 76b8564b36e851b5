// Over-approximates a query by linear integer/real arithmetic: an IEEE operation becomes its exact real result plus a
// bounded rounding error, bit-vector terms become bounded integers. Unsat here implies unsat of the query.
#include "solver.hpp"
#include <z3.h>
#include <cmath>
#include <map>
#include <string>
#include <llvm/ADT/APFloat.h>
#include <llvm/ADT/SmallString.h>
using llvm::APFloat;
namespace {
Z3_context C = nullptr;
struct RV { bool ok = false; Z3_ast t = nullptr; double lo = 0, hi = 0; bool nan = false; }; // nan: may be a NaN; lo/hi +-inf allowed
std::unordered_map<uint32_t, RV> rm; std::unordered_map<uint32_t, Z3_ast> im, bm; std::vector<Z3_ast> side; std::unordered_map<uint32_t, std::pair<double, double>> known; std::unordered_map<uint32_t, bool> notNan;
struct Mono { int op, w, side; uint32_t other; Z3_ast in, out; }; std::vector<Mono> monos; int fuel = 0;
struct GiveUp {};
Z3_sort RS, IS, BS;
Z3_ast freshC(Z3_sort s) { return Z3_mk_fresh_const(C, "a", s); }
Z3_ast add(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_add(C, 2, x); }
Z3_ast sub(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_sub(C, 2, x); }
Z3_ast mul(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_mul(C, 2, x); }
Z3_ast land(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_and(C, 2, x); }
Z3_ast lor(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_or(C, 2, x); }
Z3_ast imp(Z3_ast a, Z3_ast b) { return Z3_mk_implies(C, a, b); }
Z3_ast inum(const APInt &v) { llvm::SmallString<80> b; v.toStringUnsigned(b, 10); return Z3_mk_numeral(C, std::string(b.begin(), b.end()).c_str(), IS); }
Z3_ast inum(uint64_t v) { return Z3_mk_unsigned_int64(C, v, IS); }
Z3_ast pow2(int e, Z3_sort s) { // exact 2^e as a real
  APInt one(1200, 1); llvm::SmallString<400> b; one.shl(std::abs(e)).toStringUnsigned(b, 10); std::string t(b.begin(), b.end());
  return Z3_mk_numeral(C, (e < 0 ? "1/" + t : t).c_str(), s);
}
Z3_ast rnum(double d) { // exact; infinities become 2^1024
  if (std::isinf(d)) return d > 0 ? pow2(1024, RS) : Z3_mk_unary_minus(C, pow2(1024, RS));
  if (d == 0) return Z3_mk_numeral(C, "0", RS);
  int e; double m = std::frexp(d, &e); long long k = (long long)std::ldexp(m, 53); e -= 53; while (!(k & 1)) { k >>= 1; ++e; }
  Z3_ast kk = Z3_mk_int64(C, k, RS); return e == 0 ? kk : Z3_simplify(C, mul(kk, pow2(e, RS)));
}
double cval(E e) { APFloat f(e->w == 64 ? APFloat::IEEEdouble() : e->w == 32 ? APFloat::IEEEsingle() : APFloat::IEEEhalf(), e->c); bool l; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l); return f.convertToDouble(); }
Z3_ast BV(E e); Z3_ast I(E e); RV R(E e);
void bound(Z3_ast t, double lo, double hi) { side.push_back(Z3_mk_ge(C, t, rnum(lo))); side.push_back(Z3_mk_le(C, t, rnum(hi))); }
Z3_ast imod(Z3_ast t, unsigned lo, unsigned w, E e) { // bits [lo, lo+w) of the non-negative integer term
  Z3_ast h = freshC(IS), r = freshC(IS); side.push_back(Z3_mk_ge(C, h, inum(0))); side.push_back(Z3_mk_ge(C, r, inum(0))); side.push_back(Z3_mk_lt(C, r, inum(APInt(w + 1, 1).shl(w))));
  Z3_ast sum = add(mul(inum(APInt(lo + w + 1, 1).shl(lo + w)), h), mul(inum(APInt(lo + 1, 1).shl(lo)), r));
  if (lo) { Z3_ast l = freshC(IS); side.push_back(Z3_mk_ge(C, l, inum(0))); side.push_back(Z3_mk_lt(C, l, inum(APInt(lo + 1, 1).shl(lo)))); sum = add(sum, l); }
  side.push_back(Z3_mk_eq(C, t, sum)); return r;
}
Z3_ast ileaf(E e) { Z3_ast v = freshC(IS); side.push_back(Z3_mk_ge(C, v, inum(e->w <= 64 ? e->umin : 0))); if (e->w <= 64) side.push_back(Z3_mk_le(C, v, inum(e->umax))); else side.push_back(Z3_mk_lt(C, v, inum(APInt(e->w + 1, 1).shl(e->w)))); return v; }
Z3_ast isigned(E e, Z3_ast t) { APInt half = APInt(e->w + 2, 1).shl(e->w - 1); if (e->w <= 64 && e->umax < (1ULL << (e->w - 1))) return t; return Z3_mk_ite(C, Z3_mk_lt(C, t, inum(half)), t, sub(t, inum(half.shl(1)))); }
Z3_ast I(E e) {
  auto it = im.find(e->id); if (it != im.end()) return it->second; if (--fuel < 0) throw GiveUp();
  Z3_ast r = nullptr; E a = e->nk ? e->k[0] : nullptr, b = e->nk > 1 ? e->k[1] : nullptr; auto P = [&](unsigned n) { return inum(APInt(n + 1, 1).shl(n)); };
  bool small = e->w <= 64;
  switch (e->op) {
    case O_CONST: r = inum(e->c); break;
    case O_ZEXT: r = a->w == 1 ? Z3_mk_ite(C, BV(a), inum(1), inum(0)) : I(a); break;
    case O_CONCAT: { auto f = [&](E x) { return x->w == 1 ? Z3_mk_ite(C, BV(x), inum(1), inum(0)) : I(x); }; if (!e->hasFP && !a->isConst()) break; r = add(mul(f(a), P(b->w)), f(b)); } break;
    case O_EXTRACT: if (a->w <= 64 && a->umax >> e->p0 <= (e->w == 64 ? ~0ull : (1ULL << e->w) - 1) && e->p0 == 0) { r = I(a); break; } if (e->hasFP && a->op != O_FADD && a->op != O_FSUB && a->op != O_FMUL && a->op != O_FDIV && a->op != O_FRND) r = imod(I(a), e->p0, e->w, e); break;
    case O_ITE: r = Z3_mk_ite(C, BV(a), I(b), I(e->k[2])); break;
    case O_ADD: case O_SUB: if (!small) break; { Z3_ast x = I(a), y = I(b), s = e->op == O_ADD ? add(x, y) : sub(x, y);
      if (e->op == O_ADD && (unsigned __int128)a->umax + b->umax <= (e->w == 64 ? ~0ull : (1ULL << e->w) - 1)) { r = s; break; }
      if (e->op == O_SUB && a->umin >= b->umax) { r = s; break; }
      r = e->op == O_ADD ? Z3_mk_ite(C, Z3_mk_ge(C, s, P(e->w)), sub(s, P(e->w)), s) : Z3_mk_ite(C, Z3_mk_lt(C, s, inum(0)), add(s, P(e->w)), s); } break;
    case O_MUL: if (small && b->isConst() && (unsigned __int128)a->umax * b->u64() <= (e->w == 64 ? ~0ull : (1ULL << e->w) - 1)) r = mul(I(a), inum(b->c)); break;
    case O_SHL: if (small && b->isConst() && b->u64() < e->w && ((unsigned __int128)a->umax << b->u64()) <= (e->w == 64 ? ~0ull : (1ULL << e->w) - 1)) r = mul(I(a), P(b->u64())); break;
    case O_OR: if (e->hasFP && small) { Z3_ast x = I(a), y = I(b); r = ileaf(e); side.push_back(Z3_mk_ge(C, r, x)); side.push_back(Z3_mk_ge(C, r, y)); side.push_back(Z3_mk_le(C, r, add(x, y))); } break;
    case O_XOR: if (b->isConst() && b->c.isSignMask()) { Z3_ast x = I(a), h = P(e->w - 1); r = Z3_mk_ite(C, Z3_mk_lt(C, x, h), add(x, h), sub(x, h)); } break;
    case O_AND: if (b->isConst() && e->hasFP && b->c.isMask()) r = imod(I(a), 0, b->c.countr_one(), e); break;
    case O_SEXT: { Z3_ast s = isigned(a, I(a)); r = Z3_mk_ite(C, Z3_mk_lt(C, s, inum(0)), add(s, P(e->w)), s); } break;
    case O_FTOUI: case O_FTOSI: { RV x = R(a); if (!x.ok || x.nan) break; double lim = std::ldexp(1.0, e->op == O_FTOUI ? e->w : e->w - 1);
      bool u = e->op == O_FTOUI; double lowest = u ? -1.0 : -lim - (e->w < 50 ? 1 : 0); bool inside = x.lo > lowest && x.hi < lim;
      Z3_ast n = freshC(IS), rn = Z3_mk_int2real(C, n), one = rnum(1), z = rnum(0); Z3_ast in = inside ? Z3_mk_true(C) : land(Z3_mk_gt(C, x.t, rnum(lowest)), Z3_mk_lt(C, x.t, rnum(lim)));
      side.push_back(imp(land(in, Z3_mk_ge(C, x.t, z)), land(land(Z3_mk_le(C, rn, x.t), Z3_mk_lt(C, x.t, add(rn, one))), Z3_mk_ge(C, n, inum(0)))));
      side.push_back(imp(land(in, Z3_mk_lt(C, x.t, z)), land(land(Z3_mk_ge(C, rn, x.t), Z3_mk_gt(C, x.t, sub(rn, one))), Z3_mk_le(C, n, inum(0)))));
      if (!inside) { side.push_back(Z3_mk_ge(C, n, u ? inum(0) : Z3_mk_unary_minus(C, P(e->w - 1)))); side.push_back(Z3_mk_lt(C, n, P(u ? e->w : e->w - 1))); }
      r = u || x.lo >= 0 ? n : Z3_mk_ite(C, Z3_mk_lt(C, n, inum(0)), add(n, P(e->w)), n); } break;
    default: break;
  }
  if (!r) r = ileaf(e);
  im[e->id] = r; return r;
}
void meet(RV &v, uint32_t id) { auto k = known.find(id); if (k != known.end()) { v.lo = std::max(v.lo, k->second.first); v.hi = std::min(v.hi, k->second.second); } auto n = notNan.find(id); if (n != notNan.end()) v.nan = false; }
double up(double d) { return std::nextafter(d, INFINITY); }
RV R(E e) {
  auto it = rm.find(e->id); if (it != rm.end()) return it->second; if (--fuel < 0) throw GiveUp();
  RV v; E a = e->nk ? e->k[0] : nullptr, b = e->nk > 1 ? e->k[1] : nullptr;
  double eps = e->w == 64 ? std::ldexp(1, -53) : e->w == 32 ? std::ldexp(1, -24) : std::ldexp(1, -11), tiny = e->w == 64 ? 5e-324 : e->w == 32 ? std::ldexp(1, -149) : std::ldexp(1, -24), big = e->w == 64 ? 1e300 : e->w == 32 ? 3e38 : 65000;
  auto finish = [&](Z3_ast exact, double lo, double hi, bool isExact) { // lo/hi: bounds of the rounded result
    if (!(std::fabs(lo) <= big && std::fabs(hi) <= big)) return;
    v.ok = true; v.nan = false;
    if (isExact) { v.t = exact; v.lo = lo; v.hi = hi; return; }
    double M = std::max(std::fabs(lo), std::fabs(hi)); Z3_ast d = freshC(RS); double er = up(up(M * eps * 1.0000001) + tiny); bound(d, -er, er);
    v.t = freshC(RS); side.push_back(Z3_mk_eq(C, v.t, add(exact, d))); v.lo = lo; v.hi = hi; bound(v.t, lo, hi);
    // relative error, near zero
    Z3_ast re = mul(rnum(eps * 1.0000001), exact), ra = Z3_mk_ite(C, Z3_mk_ge(C, exact, rnum(0)), re, Z3_mk_unary_minus(C, re)), rt = add(ra, rnum(tiny));
    side.push_back(Z3_mk_le(C, d, rt)); side.push_back(Z3_mk_ge(C, d, Z3_mk_unary_minus(C, rt)));
    for (double c : {0.0, 0.5, 1.0, -1.0}) if (lo <= c && c <= hi) { side.push_back(imp(Z3_mk_le(C, exact, rnum(c)), Z3_mk_le(C, v.t, rnum(c)))); side.push_back(imp(Z3_mk_ge(C, exact, rnum(c)), Z3_mk_ge(C, v.t, rnum(c)))); } };
  auto rnd = [&](double d) { return e->w == 32 ? (double)(float)d : d; };
  auto wide = [&](double &lo, double &hi) { if (e->w != 64) { lo = rnd(lo); hi = rnd(hi); if (e->w == 16) { lo -= std::fabs(lo) * 1e-3; hi += std::fabs(hi) * 1e-3; } } };
  switch (e->op) {
    case O_CONST: { double d = cval(e); if (d != d) { v.ok = false; break; } v.ok = true; v.t = rnum(d); v.lo = v.hi = d; } break;
    case O_UITOF: case O_SITOF: { Z3_ast n = a->w == 1 ? Z3_mk_ite(C, BV(a), inum(1), inum(0)) : I(a); double lo = a->w <= 64 ? (double)a->umin : 0, hi = a->w <= 64 ? (double)a->umax : std::ldexp(1, a->w);
      if (e->op == O_SITOF) { n = isigned(a, n); if (a->w > 64 || a->umax >= (1ULL << (a->w - 1))) { hi = std::ldexp(1, a->w - 1); lo = -hi; } }
      finish(Z3_mk_int2real(C, n), rnd(lo), rnd(hi), a->w <= (e->w == 64 ? 53u : e->w == 32 ? 24u : 11u) || (a->w <= 64 && e->op == O_UITOF && e->w == 64 && a->umax <= (1ULL << 53))); } break;
    case O_FADD: case O_FSUB: { RV x = R(a), y = R(b); if (!x.ok || !y.ok || x.nan || y.nan) break; if (std::max({std::fabs(x.lo), std::fabs(x.hi), std::fabs(y.lo), std::fabs(y.hi)}) > big) break;
      double lo = e->op == O_FADD ? x.lo + y.lo : x.lo - y.hi, hi = e->op == O_FADD ? x.hi + y.hi : x.hi - y.lo; wide(lo, hi); finish(e->op == O_FADD ? add(x.t, y.t) : sub(x.t, y.t), lo, hi, false);
      // rounding is monotone: sums sharing an operand are ordered as their other operands
      if (v.ok) for (int s = 0; s < 2; ++s) { Mono m{e->op, e->w, s, (s ? a : b)->id, s ? y.t : x.t, v.t}; bool rev = e->op == O_FSUB && s == 1;
        for (auto &o : monos) if (o.op == m.op && o.w == m.w && o.side == s && o.other == m.other && monos.size() < 40) { auto le = [&](Z3_ast p, Z3_ast q) { return Z3_mk_le(C, p, q); };
          side.push_back(imp(le(m.in, o.in), rev ? le(o.out, m.out) : le(m.out, o.out))); side.push_back(imp(le(o.in, m.in), rev ? le(m.out, o.out) : le(o.out, m.out))); }
        monos.push_back(m); } } break;
    case O_FMUL: { RV x = R(a), y = R(b); if (!x.ok || !y.ok || x.nan || y.nan) break; if (std::max({std::fabs(x.lo), std::fabs(x.hi), std::fabs(y.lo), std::fabs(y.hi)}) > big) break; double c[4] = {x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi}; double lo = *std::min_element(c, c + 4), hi = *std::max_element(c, c + 4); wide(lo, hi);
      if (b->isConst() || a->isConst()) { double k = cval(b->isConst() ? b : a); int ex; bool p2 = k != 0 && std::fabs(std::frexp(k, &ex)) == 0.5 && std::fabs(k) >= 1; finish(mul(x.t, y.t), lo, hi, p2); break; }
      Z3_ast p = freshC(RS); Z3_ast xl = rnum(x.lo), xh = rnum(x.hi), yl = rnum(y.lo), yh = rnum(y.hi); // McCormick envelope
      side.push_back(Z3_mk_ge(C, p, sub(add(mul(xl, y.t), mul(yl, x.t)), mul(xl, yl)))); side.push_back(Z3_mk_ge(C, p, sub(add(mul(xh, y.t), mul(yh, x.t)), mul(xh, yh))));
      side.push_back(Z3_mk_le(C, p, sub(add(mul(xh, y.t), mul(yl, x.t)), mul(xh, yl)))); side.push_back(Z3_mk_le(C, p, sub(add(mul(xl, y.t), mul(yh, x.t)), mul(xl, yh))));
      finish(p, lo, hi, false); } break;
    case O_FDIV: { RV x = R(a), y = R(b); if (!x.ok || !y.ok || x.nan || y.nan) break; if (std::max({std::fabs(x.lo), std::fabs(x.hi), std::fabs(y.lo), std::fabs(y.hi)}) > big || (y.lo <= 0 && y.hi >= 0)) break;
      double c[4] = {x.lo / y.lo, x.lo / y.hi, x.hi / y.lo, x.hi / y.hi}; double lo = *std::min_element(c, c + 4), hi = *std::max_element(c, c + 4); wide(lo, hi); if (!(std::fabs(lo) <= big && std::fabs(hi) <= big)) break;
      if (b->isConst()) { finish(Z3_mk_div(C, x.t, y.t), lo, hi, false); break; }
      Z3_ast q = freshC(RS); double ql = lo - std::fabs(lo) * 1e-9 - 1e-300, qh = hi + std::fabs(hi) * 1e-9 + 1e-300; bound(q, ql, qh); Z3_ast xl = rnum(ql), xh = rnum(qh), yl = rnum(y.lo), yh = rnum(y.hi), p = x.t; // q*y = x
      side.push_back(Z3_mk_ge(C, p, sub(add(mul(xl, y.t), mul(yl, q)), mul(xl, yl)))); side.push_back(Z3_mk_ge(C, p, sub(add(mul(xh, y.t), mul(yh, q)), mul(xh, yh))));
      side.push_back(Z3_mk_le(C, p, sub(add(mul(xh, y.t), mul(yl, q)), mul(xh, yl)))); side.push_back(Z3_mk_le(C, p, sub(add(mul(xl, y.t), mul(yh, q)), mul(xl, yh))));
      // sign and order facts the envelope loses
      if (y.lo > 0) { side.push_back(imp(Z3_mk_ge(C, x.t, rnum(0)), Z3_mk_ge(C, q, rnum(0)))); side.push_back(imp(Z3_mk_le(C, x.t, rnum(0)), Z3_mk_le(C, q, rnum(0)))); side.push_back(imp(Z3_mk_le(C, x.t, y.t), Z3_mk_le(C, q, rnum(1)))); side.push_back(imp(Z3_mk_ge(C, x.t, y.t), Z3_mk_ge(C, q, rnum(1)))); }
      finish(q, lo, hi, false); } break;
    case O_FRND: { RV x = R(a); if (!x.ok || x.nan || std::max(std::fabs(x.lo), std::fabs(x.hi)) > big) break; Z3_ast n = freshC(IS), rn = Z3_mk_int2real(C, n), d = sub(x.t, rn), h = rnum(0.5), one = rnum(1), z = rnum(0); auto ge = [&](Z3_ast p, Z3_ast q) { side.push_back(Z3_mk_ge(C, p, q)); };
      double lo = std::floor(x.lo), hi = std::ceil(x.hi);
      switch ((RM)e->p0) {
        case RM_NE: case RM_NA: ge(d, rnum(-0.5)); ge(h, d); lo = std::floor(x.lo + 0.5) == lo + 1 && x.lo - std::floor(x.lo) > 0.5 ? lo + 1 : lo; if (hi - x.hi > 0.5) hi -= 1;
          if (e->p0 == RM_NA) { side.push_back(imp(Z3_mk_gt(C, x.t, z), Z3_mk_lt(C, d, h))); side.push_back(imp(Z3_mk_lt(C, x.t, z), Z3_mk_gt(C, d, rnum(-0.5)))); } break;
        case RM_DN: ge(d, z); side.push_back(Z3_mk_lt(C, d, one)); hi = std::floor(x.hi); break;
        case RM_UP: ge(z, d); side.push_back(Z3_mk_gt(C, d, rnum(-1))); lo = std::ceil(x.lo); break;
        case RM_TZ: side.push_back(imp(Z3_mk_ge(C, x.t, z), land(Z3_mk_ge(C, d, z), Z3_mk_lt(C, d, one)))); side.push_back(imp(Z3_mk_lt(C, x.t, z), land(Z3_mk_le(C, d, z), Z3_mk_gt(C, d, rnum(-1))))); break;
      }
      v.ok = true; v.t = rn; v.lo = lo; v.hi = hi; } break;
    case O_FEXT: v = R(a); break;
    case O_FTRUNC: { RV x = R(a); if (!x.ok || x.nan) break; double lo = rnd(x.lo), hi = rnd(x.hi); if (e->w == 16) { lo -= std::fabs(lo) * 1e-3 + 1e-7; hi += std::fabs(hi) * 1e-3 + 1e-7; } finish(x.t, lo, hi, false); } break;
    case O_XOR: if (b->isConst() && b->c.isSignMask()) { v = R(a); if (v.ok) { v.t = Z3_mk_unary_minus(C, v.t); std::swap(v.lo, v.hi); v.lo = -v.lo; v.hi = -v.hi; } } break;
    case O_CONCAT: if (a->isConst() && a->w == 1 && a->c.isZero() && b->op == O_EXTRACT && b->p0 == 0 && b->k[0]->w == e->w) { v = R(b->k[0]); if (v.ok) { Z3_ast t = v.t; v.t = Z3_mk_ite(C, Z3_mk_ge(C, t, rnum(0)), t, Z3_mk_unary_minus(C, t)); double m = std::max(std::fabs(v.lo), std::fabs(v.hi)); v.lo = v.lo > 0 ? v.lo : v.hi < 0 ? -v.hi : 0; v.hi = m; } } break;
    case O_ITE: { // the branches only matter where the condition sends them: refine by comparisons with constants
      E c = a; bool neg = false; while (c->op == O_XOR && c->k[1]->isConst()) { neg = !neg; c = c->k[0]; }
      RV x = R(b), y = R(e->k[2]); if (!x.ok || !y.ok) break;
      auto refine = [&](RV &q, E n, bool holds) { if (c->op != O_FLT) return; E p = c->k[0], s = c->k[1];
        if (p == n && s->isConst()) { double k = cval(s); if (holds) { q.hi = std::min(q.hi, k); q.nan = false; } else if (!q.nan) q.lo = std::max(q.lo, k); }
        if (s == n && p->isConst()) { double k = cval(p); if (holds) { q.lo = std::max(q.lo, k); q.nan = false; } else if (!q.nan) q.hi = std::min(q.hi, k); } };
      refine(x, b, !neg); refine(y, e->k[2], neg);
      v.ok = true; v.t = Z3_mk_ite(C, BV(a), x.t, y.t); v.lo = std::min(x.lo, y.lo); v.hi = std::max(x.hi, y.hi); v.nan = x.nan || y.nan; } break;
    default: break;
  }
  if (!v.ok && e->op != O_CONST) { v.ok = true; v.nan = true; v.lo = -INFINITY; v.hi = INFINITY; v.t = freshC(RS); meet(v, e->id); bound(v.t, v.lo, v.hi); }
  else if (v.ok) meet(v, e->id);
  rm[e->id] = v; return v;
}
Z3_ast nanB(E e) { static std::unordered_map<uint32_t, Z3_ast> m; E r = mkFNaN(e); if (r->isConst()) return r->c.isZero() ? Z3_mk_false(C) : Z3_mk_true(C); auto it = bm.find(r->id); if (it != bm.end()) return it->second; Z3_ast f = freshC(BS); bm[r->id] = f; return f; }
Z3_ast BV(E e) { // width 1
  auto it = bm.find(e->id); if (it != bm.end()) return it->second; if (--fuel < 0) throw GiveUp();
  Z3_ast r = nullptr; E a = e->nk ? e->k[0] : nullptr, b = e->nk > 1 ? e->k[1] : nullptr;
  if (E n = nanOf(e)) { RV x = R(n); r = x.ok && !x.nan ? Z3_mk_false(C) : freshC(BS); bm[e->id] = r; return r; }
  switch (e->op) {
    case O_CONST: r = e->c.isZero() ? Z3_mk_false(C) : Z3_mk_true(C); break;
    case O_AND: r = land(BV(a), BV(b)); break; case O_OR: r = lor(BV(a), BV(b)); break;
    case O_XOR: r = b->isConst() ? Z3_mk_not(C, BV(a)) : Z3_mk_xor(C, BV(a), BV(b)); break;
    case O_ITE: r = Z3_mk_ite(C, BV(a), BV(b), BV(e->k[2])); break;
    case O_EQ: if (a->w == 1) { r = Z3_mk_iff(C, BV(a), BV(b)); break; }
      { auto fpish = [](E x) { return x->op >= O_FADD && x->op < O_FLT && x->op != O_FTOSI && x->op != O_FTOUI; };
        if (fpish(a) || fpish(b)) { RV x = R(a), y = R(b); r = freshC(BS); if (x.ok && y.ok && !x.nan && !y.nan) side.push_back(imp(r, Z3_mk_eq(C, x.t, y.t))); break; } }
      r = Z3_mk_eq(C, I(a), I(b)); break;
    case O_ULT: r = Z3_mk_lt(C, I(a), I(b)); break;
    case O_SLT: r = Z3_mk_lt(C, isigned(a, I(a)), isigned(b, I(b))); break;
    case O_FLT: case O_FEQ: { RV x = R(a), y = R(b); if (!x.ok || !y.ok) { r = freshC(BS); break; }
      r = e->op == O_FLT ? Z3_mk_lt(C, x.t, y.t) : Z3_mk_eq(C, x.t, y.t);
      if (x.nan) r = land(Z3_mk_not(C, nanB(a)), r); if (y.nan) r = land(Z3_mk_not(C, nanB(b)), r); } break;
    default: r = freshC(BS);
  }
  bm[e->id] = r; return r;
}
void facts(E c, bool pos) { // interval facts that hold on the whole query
  if (c->op == O_XOR && c->w == 1 && c->k[1]->isConst()) { facts(c->k[0], !pos); return; }
  if (c->op == O_AND && pos) { facts(c->k[0], true); facts(c->k[1], true); return; }
  if (c->op == O_OR && !pos) { facts(c->k[0], false); facts(c->k[1], false); return; }
  if (E n = nanOf(c)) { if (!pos) notNan[n->id] = true; return; }
  if (c->op != O_FLT) return;
  auto lim = [&](E x, double lo, double hi) { auto it = known.find(x->id); if (it == known.end()) known[x->id] = {lo, hi}; else { it->second.first = std::max(it->second.first, lo); it->second.second = std::min(it->second.second, hi); } };
  E p = c->k[0], s = c->k[1];
  if (pos) { notNan[p->id] = notNan[s->id] = true; if (s->isConst()) lim(p, -INFINITY, cval(s)); if (p->isConst()) lim(s, cval(p), INFINITY); }
  else { if (s->isConst() && (notNan.count(p->id) || mkFNaN(p)->isConst())) lim(p, cval(s), INFINITY); if (p->isConst() && (notNan.count(s->id) || mkFNaN(s)->isConst())) lim(s, -INFINITY, cval(p)); }
}
}
static bool realUnsat1(const std::vector<E> &cs, E q, unsigned ms) {
  Z3_config cfg = Z3_mk_config(); C = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(C, [](Z3_context, Z3_error_code) {});
  RS = Z3_mk_real_sort(C); IS = Z3_mk_int_sort(C); BS = Z3_mk_bool_sort(C);
  rm.clear(); im.clear(); bm.clear(); side.clear(); monos.clear(); known.clear(); notNan.clear(); fuel = 4000; bool res = false;
  try {
    for (int pass = 0; pass < 2; ++pass) { for (auto c : cs) facts(c, true); facts(q, true); }
    for (auto &k : known) if (k.second.first > k.second.second) res = true;
    if (!res) {
      std::vector<Z3_ast> as; for (auto c : cs) as.push_back(BV(c)); as.push_back(BV(q));
      Z3_solver s = Z3_mk_solver(C); Z3_solver_inc_ref(C, s); Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), ms); Z3_solver_set_params(C, s, p);
      for (auto a : side) Z3_solver_assert(C, s, a); for (auto a : as) Z3_solver_assert(C, s, a);
      res = Z3_get_error_code(C) == Z3_OK && Z3_solver_check(C, s) == Z3_L_FALSE;
      if (getenv("SYMEX_LRA")) { FILE *f = fopen("/tmp/lra.smt2", "w"); fprintf(f, "%s\n(check-sat)\n(get-model)\n", Z3_solver_to_string(C, s)); fclose(f); }
      Z3_solver_dec_ref(C, s);
    }
  } catch (GiveUp &) { res = false; }
  Z3_del_context(C); return res;
}

// comparisons of one value with constants decide which branch of hoisted clamps applies: split on them
static E replaceAtom(E e, E atom, E by, std::unordered_map<uint32_t, E> &memo) {
  if (e == atom) return by; if (!e->nk || !e->hasVar || e->id < atom->id) return e;
  auto it = memo.find(e->id); if (it != memo.end()) return it->second;
  E k[3] = {nullptr, nullptr, nullptr}; bool ch = false; for (int i = 0; i < e->nk; ++i) { k[i] = replaceAtom(e->k[i], atom, by, memo); ch |= k[i] != e->k[i]; }
  E r = ch ? rebuild(e->op, e->w, e->p0, k[0], k[1], k[2]) : e; memo[e->id] = r; return r;
}
static bool hardAtoms = false;
static void atoms(E e, std::vector<E> &out, std::unordered_map<uint32_t, bool> &seen) {
  if (!e->nk || !e->hasVar || !seen.emplace(e->id, true).second) return;
  if (e->op == O_FLT && ((e->k[0]->isConst() && (hardAtoms || !e->k[1]->hard)) || (e->k[1]->isConst() && (hardAtoms || !e->k[0]->hard)))) out.push_back(e);
  for (int i = 0; i < e->nk; ++i) atoms(e->k[i], out, seen);
}
static void subterms(E e, std::unordered_map<uint32_t, bool> &in) { if (!in.emplace(e->id, true).second) return; for (int i = 0; i < e->nk; ++i) subterms(e->k[i], in); }
static bool split(const std::vector<E> &cs, E q, unsigned ms, int depth) {
  if (q->isConst() && q->c.isZero()) return true; for (auto c : cs) if (c->isConst() && c->c.isZero()) return true;
  std::vector<E> at; std::unordered_map<uint32_t, bool> seen; 
  if (depth > 0) { atoms(q, at, seen); for (auto c : cs) { E d = c; if (d->op == O_XOR && d->w == 1 && d->k[1]->isConst()) d = d->k[0]; if (d->op != O_FLT) atoms(c, at, seen); } 
    if (hardAtoms) { std::unordered_map<uint32_t, bool> in; subterms(q, in); std::stable_sort(at.begin(), at.end(), [&](E x, E y) { auto v = [&](E z) { uint32_t i = (z->k[0]->isConst() ? z->k[1] : z->k[0])->id; return in.count(i) ? (int64_t)i : -1; }; return v(x) > v(y); }); }
    std::vector<E> use; for (auto a : at) { bool fixed = a == q || mkNot(a) == q; for (auto c : cs) fixed |= c == a || c == mkNot(a); if (!fixed) use.push_back(a); } at.swap(use); }
  if (at.empty()) { bool r = realUnsat1(cs, q, ms); if (getenv("SYMEX_SPLIT")) { fprintf(stderr, "leaf r=%d q=%s\n", r, exprStr(q, 9).c_str()); for (auto c : cs) fprintf(stderr, "   c=%s\n", exprStr(c, 6).c_str()); } return r; }
  E a = at[0];
  for (int t = 0; t < 2; ++t) {
    std::unordered_map<uint32_t, E> memo; E by = t ? mkTrue() : mkFalse(); std::vector<E> n; for (auto c : cs) { E d = replaceAtom(c, a, by, memo); if (!d->isConst() || d->c.isZero()) n.push_back(d); }
    E nq = replaceAtom(q, a, by, memo); n.push_back(t ? a : mkNot(a)); if (!split(n, nq, ms, depth - 1)) return false; }
  return true;
}
bool realUnsat(const std::vector<E> &cs, E q, unsigned ms) {
  if (realUnsat1(cs, q, ms)) return true;
  for (int h = 0; h < 2; ++h) { hardAtoms = h;
    std::vector<E> at; std::unordered_map<uint32_t, bool> seen; atoms(q, at, seen); for (auto c : cs) if (c->op != O_FLT) atoms(c, at, seen);
    if (!at.empty() && (h || at.size() <= 8) && split(cs, q, ms, h ? 4 : 6)) return true; }
  return false;
}
