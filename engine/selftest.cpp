// Self-test of the expression layer: simplifier and floating-point circuits against APInt/APFloat evaluation.
#include "expr.hpp"
#include <random>
using namespace llvm;
static std::mt19937_64 rng(1);
static APInt rnd(uint32_t w) {
  uint64_t r = rng();
  switch (rng() % 6) { case 0: r = rng() % 4; break; case 1: r = ~(rng() % 4); break; case 2: r = 1ULL << (rng() % 64); break; default: break; }
  if (w == 64 && rng() % 2) { double d; switch (rng() % 6) { case 0: d = (double)(int64_t)(rng() % 2000) - 1000; break; case 1: d = ((double)(int64_t)(rng() % 2000) - 1000) / 4; break;
      case 2: d = (double)(rng()) ; break; case 3: d = 1.0 / (double)(1 + rng() % 1000); break; case 4: d = (double)(rng() % 65536) / 65535.0; break; default: d = (float)rng() * 1e-30f; } memcpy(&r, &d, 8); }
  if (w == 32 && rng() % 2) { float d; switch (rng() % 4) { case 0: d = (float)(int64_t)(rng() % 2000) - 1000; break; case 1: d = ((float)(int64_t)(rng() % 2000) - 1000) / 4; break; default: d = (float)(rng() % 70000) * 1.01f; } memcpy(&r, &d, 4); }
  return APInt(w, r);
}
static bool isNaNbits(const APInt &v) { FFmt f = ffmt(v.getBitWidth()); return (v & APInt(v.getBitWidth(), (1ULL << (v.getBitWidth() - 1)) - 1)).ugt(APInt(v.getBitWidth(), ((1ULL << f.eb) - 1) << f.mb)); }
static int bad = 0; static long total = 0;
static void cmp(const char *what, E lowered, E hi, const std::vector<APInt> &in, bool fpres) {
  Model m{Model::next(), {}}; m.v = in; m.v.resize(gVars.size(), APInt(1, 0));
  APInt a = evalExpr(lowered, m), b = evalExpr(hi, m); ++total;
  if (a != b && !(fpres && isNaNbits(a) && isNaNbits(b))) { if (bad++ < 20) { printf("MISMATCH %s:", what); for (auto &x : in) printf(" %llx", (unsigned long long)x.getZExtValue()); printf(" low %llx hi %llx\n", (unsigned long long)a.getZExtValue(), (unsigned long long)b.getZExtValue()); } }
}
int main(int argc, char **argv) {
  int N = argc > 1 ? atoi(argv[1]) : 3000;
  for (uint32_t w : {16u, 32u, 64u}) {
    E a = mkVar("a", w), b = mkVar("b", w); uint32_t ia = a->p0, ib = b->p0;
    struct T { const char *n; E hi; bool f; }; std::vector<T> ts = {
      {"add", mkFArith(O_FADD, a, b), true}, {"sub", mkFArith(O_FSUB, a, b), true}, {"mul", mkFArith(O_FMUL, a, b), true}, {"div", mkFArith(O_FDIV, a, b), true},
      {"rne", mkFRnd(a, RM_NE), true}, {"rna", mkFRnd(a, RM_NA), true}, {"rtz", mkFRnd(a, RM_TZ), true}, {"up", mkFRnd(a, RM_UP), true}, {"dn", mkFRnd(a, RM_DN), true},
      {"lt", mkFLt(a, b), false}, {"eq", mkFEq(a, b), false}, {"nan", mkFNaN(a), false}};
    if (w > 16) for (uint32_t iw : {8u, 16u, 32u, 64u}) { E x = mkExtract(a, 0, std::min(iw, w)); ts.push_back({"sitof", mkIToF(true, x, w), true}); ts.push_back({"uitof", mkIToF(false, x, w), true});
      ts.push_back({"lti", mkFLt(mkIToF(true, x, w), b), false}); ts.push_back({"gti", mkFLt(b, mkIToF(false, x, w)), false}); }
    if (w > 16) ts.push_back({"t16", mkFTrunc(a, 16), true});
    if (w > 32) ts.push_back({"t32", mkFTrunc(a, 32), true});
    if (w < 64) ts.push_back({"x64", mkFExt(a, 64), true});
    if (w < 32) ts.push_back({"x32", mkFExt(a, 32), true});
    for (auto &t : ts) { E lo = lowerFP(t.hi);
      E raw = nullptr; // comparison nodes are already circuits: compare with APFloat directly below
      for (int i = 0; i < N; ++i) { std::vector<APInt> in(gVars.size(), APInt(1, 0)); for (size_t v = 0; v < gVars.size(); ++v) in[v] = rnd(gVars[v].w);
        if (rng() % 4 == 0) in[ib] = in[ia]; cmp(t.n, lo, t.hi, in, t.f); (void)raw; }
    }
    // conversions to integers, in range only; compare/const foldings against constants
    for (uint32_t iw : {8u, 16u, 32u, 64u}) for (int sg = 0; sg < 2; ++sg) { E hi = mkFToI(sg, a, iw), lo = lowerFP(hi);
      for (int i = 0; i < N; ++i) { std::vector<APInt> in(gVars.size(), APInt(1, 0)); in[ia] = rnd(w); 
        double d; if (w == 64) { uint64_t r = in[ia].getZExtValue(); memcpy(&d, &r, 8); } else if (w == 32) { uint32_t r = in[ia].getZExtValue(); float q; memcpy(&q, &r, 4); d = q; } else continue;
        double t = trunc(d); double lo_ = sg ? -ldexp(1, iw - 1) : 0, hi_ = sg ? ldexp(1, iw - 1) : ldexp(1, iw); if (!(t >= lo_ && t < hi_)) continue; cmp("ftoi", lo, hi, in, false); } }
    for (int i = 0; i < N; ++i) { APInt k = rnd(w); E K = mkConst(k); std::vector<APInt> in(gVars.size(), APInt(1, 0)); in[ia] = rnd(w); in[ib] = k; if (rng() % 4 == 0) in[ia] = k;
      cmp("ltc", mkFLt(a, K), mkFLt(a, b), in, false); cmp("gtc", mkFLt(K, a), mkFLt(b, a), in, false); cmp("eqc", mkFEq(a, K), mkFEq(a, b), in, false);
      if (w < 64) { E K2 = mkConst(rnd(64)); Model m{Model::next(), in}; E x = mkFExt(a, 64); APInt xv = evalExpr(x, m);
        for (int o = 0; o < 3; ++o) { E s = o == 0 ? mkFLt(x, K2) : o == 1 ? mkFLt(K2, x) : mkFEq(x, K2); E q = mkConst(xv); E r = o == 0 ? mkFLt(q, K2) : o == 1 ? mkFLt(K2, q) : mkFEq(q, K2); ++total;
          if (evalExpr(s, m) != r->c) { if (bad++ < 20) printf("MISMATCH cmpext %d\n", o); } }
        E i8 = mkExtract(a, 0, 8), i16 = mkExtract(a, 0, 16);
        for (int sg = 0; sg < 2; ++sg) for (E z : {i8, i16}) { E y = mkIToF(sg, z, 64); APInt yv = evalExpr(y, m); E kk = rng() % 2 ? K2 : mkConst(APInt(64, [&] { double d = (double)(int)(rng() % 600) / 2 - 150; uint64_t r; memcpy(&r, &d, 8); return r; }()));
          for (int o = 0; o < 3; ++o) { E s = o == 0 ? mkFLt(y, kk) : o == 1 ? mkFLt(kk, y) : mkFEq(y, kk); E q = mkConst(yv); E r = o == 0 ? mkFLt(q, kk) : o == 1 ? mkFLt(kk, q) : mkFEq(q, kk); ++total;
            if (evalExpr(s, m) != r->c) { if (bad++ < 20) printf("MISMATCH cmpint %d\n", o); } } } } }
  }
  // simplifier: random bit-vector terms, simplified at construction vs. evaluated step by step on constants
  for (int it = 0; it < N; ++it) {
    std::vector<E> pool; std::vector<APInt> in(gVars.size(), APInt(1, 0)); for (size_t v = 0; v < gVars.size(); ++v) in[v] = rnd(gVars[v].w);
    Model m{Model::next(), in};
    std::vector<std::pair<E, APInt>> p; for (int v = 0; v < 2; ++v) { E e = gVars[4 + (v & 1)].e; p.push_back({e, in[e->p0]}); E x = gVars[(v & 1)].e; p.push_back({x, in[x->p0]}); }
    for (int s = 0; s < 40; ++s) {
      auto &A = p[rng() % p.size()]; APInt av = A.second; E a = A.first; uint32_t w = a->w; E b; APInt bv(w, 0);
      if (rng() % 2) { bv = rnd(w > 64 ? 64 : w).zextOrTrunc(w); if (rng() % 2) bv = APInt(w, rng() % (w + 2)); b = mkConst(bv); }
      else { std::vector<int> c; for (size_t i = 0; i < p.size(); ++i) if (p[i].first->w == w) c.push_back(i); auto &B = p[c[rng() % c.size()]]; b = B.first; bv = B.second; }
      E r = nullptr; Op op = (Op)(O_ADD + rng() % (O_SLT - O_ADD + 1)); E ca = mkConst(av), cb = mkConst(bv); E rc = nullptr;
      switch (op) {
        case O_CONCAT: if (w > 32) continue; r = mkConcat(a, b); rc = mkConcat(ca, cb); break;
        case O_EXTRACT: { uint32_t lo = rng() % w, n = 1 + rng() % (w - lo); if (rng() % 2) { n = std::min(n, 8u); } r = mkExtract(a, lo, n); rc = mkExtract(ca, lo, n); } break;
        case O_ZEXT: if (w > 60) continue; r = mkZExt(a, w + 1 + rng() % (64 - w)); rc = mkZExt(ca, r->w); break;
        case O_SEXT: if (w > 60) continue; r = mkSExt(a, w + 1 + rng() % (64 - w)); rc = mkConst(av.sext(r->w)); break;
        case O_ITE: { std::vector<int> c; for (size_t i = 0; i < p.size(); ++i) if (p[i].first->w == 1) c.push_back(i); if (c.empty()) continue; auto &B = p[c[rng() % c.size()]]; r = mkIte(B.first, a, b); rc = B.second.isZero() ? cb : ca; } break;
        default: if ((op == O_UDIV || op == O_SDIV || op == O_UREM || op == O_SREM) && bv.isZero()) continue; r = rebuild(op, w, 0, a, b, nullptr); rc = rebuild(op, w, 0, ca, cb, nullptr);
      }
      if (!rc->isConst()) continue; ++total;
      APInt got = evalExpr(r, m);
      if (got != rc->c) { if (bad++ < 20) printf("SIMPLIFIER op %d: a=%s b=%s -> %s\n", op, exprStr(a).c_str(), exprStr(b).c_str(), exprStr(r).c_str()); }
      if (r->w <= 64 && (got.getZExtValue() < r->umin || got.getZExtValue() > r->umax)) { if (bad++ < 20) printf("RANGE op %d %s\n", op, exprStr(r).c_str()); }
      p.push_back({r, rc->c});
    }
  }
  printf("selftest: %ld comparisons, %d mismatches\n", total, bad);
  return bad != 0;
}
