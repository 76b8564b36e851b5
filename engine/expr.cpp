#include "expr.hpp"
double nowSec();
#include <llvm/ADT/APFloat.h>
#include <llvm/ADT/APSInt.h>
#include <llvm/ADT/SmallString.h>
#include <algorithm>
#include <cmath>
#include <tuple>
#include <unordered_set>
using namespace llvm;

std::vector<VarInfo> gVars;
uint64_t gExprCount = 0;

// ---------------------------------------------------------------- hash consing
static inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  return h * 0xff51afd7ed558ccdULL;
}
struct Table {
  std::vector<Expr *> slots; size_t n = 0;
  Table() : slots(1 << 16, nullptr) {}
  static uint64_t hashOf(const Expr &e) {
    uint64_t h = mix(e.op * 1315423911u + e.w, e.p0);
    if (e.op == O_CONST) {
      for (unsigned i = 0; i < e.c.getNumWords(); ++i) h = mix(h, e.c.getRawData()[i]);
    } else for (int i = 0; i < e.nk; ++i) h = mix(h, e.k[i]->id);
    return h ^ (h >> 29);
  }
  static bool same(const Expr &a, const Expr &b) {
    if (a.op != b.op || a.w != b.w || a.p0 != b.p0 || a.nk != b.nk) return false;
    if (a.op == O_CONST) return a.c == b.c;
    for (int i = 0; i < a.nk; ++i) if (a.k[i] != b.k[i]) return false;
    return true;
  }
  void grow() {
    std::vector<Expr *> o(slots.size() * 2, nullptr); o.swap(slots);
    for (auto e : o) if (e) { size_t i = hashOf(*e) & (slots.size() - 1);
      while (slots[i]) i = (i + 1) & (slots.size() - 1); slots[i] = e; }
  }
  E get(Expr &t) {
    if (n * 2 > slots.size()) grow();
    size_t i = hashOf(t) & (slots.size() - 1);
    while (slots[i]) { if (same(*slots[i], t)) return slots[i]; i = (i + 1) & (slots.size() - 1); }
    Expr *e = new Expr(t); e->id = ++gExprCount; slots[i] = e; ++n;
    return e;
  }
};
static Table &tab() { static Table t; return t; }

static void ranges(Expr &e) {
  if (e.w > 64) { e.umin = 0; e.umax = ~0ULL; return; }
  uint64_t M = e.w == 64 ? ~0ULL : ((1ULL << e.w) - 1);
  e.umin = 0; e.umax = M;
  auto A = e.nk > 0 ? e.k[0] : nullptr; auto B = e.nk > 1 ? e.k[1] : nullptr;
  switch (e.op) {
    case O_CONST: e.umin = e.umax = e.c.getZExtValue(); break;
    case O_ZEXT: e.umin = A->umin; e.umax = A->umax; break;
    case O_EXTRACT: if (e.p0 == 0 && A->w <= 64 && A->umax <= M) { e.umin = A->umin; e.umax = A->umax; }
      else if (A->w <= 64) { uint64_t x = A->umax >> e.p0; if (x <= M) { e.umax = x; e.umin = A->umin >> e.p0; } } break;
    case O_CONCAT: { if (A->w + B->w <= 64) { e.umin = (A->umin << B->w) + B->umin; e.umax = (A->umax << B->w) + B->umax; } } break;
    case O_ADD: { unsigned __int128 hi = (unsigned __int128)A->umax + B->umax, lo = (unsigned __int128)A->umin + B->umin;
      if (hi <= M) { e.umax = (uint64_t)hi; e.umin = (uint64_t)lo; }
      else if (B->op == O_CONST || A->op == O_CONST) { // constant that wraps for the whole range
        unsigned __int128 mod = (unsigned __int128)M + 1; if (lo >= mod) { e.umin = (uint64_t)(lo - mod); e.umax = (uint64_t)(hi - mod); } } } break;
    case O_SUB: if (A->umin >= B->umax) { e.umin = A->umin - B->umax; e.umax = A->umax - B->umin; } break;
    case O_MUL: { unsigned __int128 hi = (unsigned __int128)A->umax * B->umax; if (hi <= M) { e.umax = (uint64_t)hi; e.umin = A->umin * B->umin; } } break;
    case O_AND: e.umax = std::min(A->umax, B->umax); break;
    case O_OR: { uint64_t x = A->umax | B->umax; if (x) { int b = 64 - __builtin_clzll(x); e.umax = b == 64 ? ~0ULL : (1ULL << b) - 1; } else e.umax = 0; e.umin = std::max(A->umin, B->umin); } break;
    case O_XOR: { uint64_t x = A->umax | B->umax; if (x) { int b = 64 - __builtin_clzll(x); e.umax = std::min<uint64_t>(M, b == 64 ? ~0ULL : (1ULL << b) - 1); } else e.umax = 0; } break;
    case O_UDIV: if (B->umin > 0) { e.umax = A->umax / B->umin; e.umin = A->umin / B->umax; } break;
    case O_UREM: if (B->umin > 0) e.umax = std::min(A->umax, B->umax - 1); break;
    case O_LSHR: if (B->isConst() && B->umax < e.w) { e.umin = A->umin >> B->umax; e.umax = A->umax >> B->umax; } else e.umax = A->umax; break;
    case O_ITE: e.umin = std::min(e.k[1]->umin, e.k[2]->umin); e.umax = std::max(e.k[1]->umax, e.k[2]->umax); break;
    default: break;
  }
}

double gLowerUntil = 1e18;
static E node(Op op, uint32_t w, uint32_t p0, E a = nullptr, E b = nullptr, E c = nullptr) {
  static unsigned tick = 0; if ((++tick & 1023) == 0 && gLowerUntil < 1e17 && nowSec() > gLowerUntil) throw LowerTimeout{};
  Expr t; t.op = op; t.w = w; t.p0 = p0; t.nk = a ? (b ? (c ? 3 : 2) : 1) : 0;
  t.k[0] = a; t.k[1] = b; t.k[2] = c; t.c = APInt(1, 0);
  t.hasFP = op >= O_FADD; t.hard = op >= O_FADD && op < O_FLT; t.hasVar = false;
  for (int i = 0; i < t.nk; ++i) { t.hasFP |= t.k[i]->hasFP; t.hard |= t.k[i]->hard; t.hasVar |= t.k[i]->hasVar; }
  ranges(t);
  return tab().get(t);
}
E mkConst(const APInt &v) {
  Expr t; t.op = O_CONST; t.w = v.getBitWidth(); t.p0 = 0; t.nk = 0; t.c = v; t.hasFP = t.hard = t.hasVar = false;
  t.k[0] = t.k[1] = t.k[2] = nullptr; ranges(t); return tab().get(t);
}
E mkConst(uint64_t v, uint32_t w) { return mkConst(APInt(w, v)); }
E mkVar(const std::string &name, uint32_t w) {
  Expr t; t.op = O_VAR; t.w = w; t.p0 = gVars.size(); t.nk = 0; t.c = APInt(1, 0); t.hasFP = t.hard = false; t.hasVar = true;
  t.k[0] = t.k[1] = t.k[2] = nullptr; ranges(t);
  E e = tab().get(t); gVars.push_back({name, w, e}); return e;
}
static inline bool isC(E e, uint64_t v) { return e->isConst() && e->w <= 64 && e->c.getZExtValue() == v; }
static inline bool isZero(E e) { return e->isConst() && e->c.isZero(); }
static inline bool isOnes(E e) { return e->isConst() && e->c.isAllOnes(); }
static inline bool isOne(E e) { return e->isConst() && e->c.isOne(); }
static inline E zero(uint32_t w) { return mkConst(APInt(w, 0)); }

E mkNot(E a) {
  if (a->isConst()) return mkConst(~a->c);
  if (a->op == O_XOR && isOnes(a->k[1])) return a->k[0];
  if (a->w == 1 && a->op == O_ITE) return mkIte(a->k[0], mkNot(a->k[1]), mkNot(a->k[2]));
  return node(O_XOR, a->w, 0, a, mkConst(APInt::getAllOnes(a->w)));
}
static inline bool isNot(E a) { return a->op == O_XOR && isOnes(a->k[1]); }
static inline bool isNotOf(E a, E b) { return (isNot(a) && a->k[0] == b) || (isNot(b) && b->k[0] == a); }

E mkAdd(E a, E b) {
  if (a->w != b->w) { fprintf(stderr, "mkAdd width %u %u\n", a->w, b->w); abort(); }
  if (a->isConst() && b->isConst()) return mkConst(a->c + b->c);
  if (a->isConst()) std::swap(a, b);
  if (isZero(b)) return a;
  if (a->w == 1 || (b->isConst() && b->c.isSignMask())) return mkXor(a, b);
  if (b->isConst()) {
    if (a->op == O_ADD && a->k[1]->isConst()) return mkAdd(a->k[0], mkConst(a->k[1]->c + b->c));
    if (a->op == O_ITE && a->k[1]->isConst() && a->k[2]->isConst())
      return mkIte(a->k[0], mkAdd(a->k[1], b), mkAdd(a->k[2], b));
  } else {
    if (a->op == O_ADD && a->k[1]->isConst()) return mkAdd(mkAdd(a->k[0], b), a->k[1]);
    if (b->op == O_ADD && b->k[1]->isConst()) return mkAdd(mkAdd(a, b->k[0]), b->k[1]);
    if (a->op == O_SUB && a->k[1] == b) return a->k[0];
    if (b->op == O_SUB && b->k[1] == a) return b->k[0];
    if (a->id > b->id) std::swap(a, b);
  }
  return node(O_ADD, a->w, 0, a, b);
}
E mkSub(E a, E b) {
  if (a->isConst() && b->isConst()) return mkConst(a->c - b->c);
  if (a == b) return zero(a->w);
  if (b->isConst()) return mkAdd(a, mkConst(-b->c));
  if (a->w == 1) return mkXor(a, b);
  // (x + c1) - (y + c2)
  if (a->op == O_ADD && a->k[1]->isConst()) return mkAdd(mkSub(a->k[0], b), a->k[1]);
  if (b->op == O_ADD && b->k[1]->isConst()) return mkAdd(mkSub(a, b->k[0]), mkConst(-b->k[1]->c));
  if (a->op == O_ADD) { if (a->k[0] == b) return a->k[1]; if (a->k[1] == b) return a->k[0]; }
  if (b->op == O_ADD) { if (b->k[0] == a) return mkSub(zero(a->w), b->k[1]); if (b->k[1] == a) return mkSub(zero(a->w), b->k[0]); }
  if (a->op == O_SUB && a->k[0] == b) return mkSub(zero(a->w), a->k[1]);
  return node(O_SUB, a->w, 0, a, b);
}
E mkMul(E a, E b) {
  if (a->isConst() && b->isConst()) return mkConst(a->c * b->c);
  if (a->isConst()) std::swap(a, b);
  if (isZero(b)) return b;
  if (isOne(b)) return a;
  if (a->w == 1) return mkAnd(a, b);
  if (b->isConst()) {
    if (b->c.isPowerOf2()) return mkShl(a, mkConst(APInt(a->w, b->c.logBase2())));
    if (a->op == O_MUL && a->k[1]->isConst()) return mkMul(a->k[0], mkConst(a->k[1]->c * b->c));
    if (a->op == O_ITE && (a->k[1]->isConst() && a->k[2]->isConst())) return mkIte(a->k[0], mkMul(a->k[1], b), mkMul(a->k[2], b));
    if (a->op == O_ADD && a->k[1]->isConst()) return mkAdd(mkMul(a->k[0], b), mkConst(a->k[1]->c * b->c));
  } else if (a->id > b->id) std::swap(a, b);
  return node(O_MUL, a->w, 0, a, b);
}
E mkUDiv(E a, E b) {
  if (isZero(b)) return mkConst(APInt::getAllOnes(a->w));
  if (a->isConst() && b->isConst()) return mkConst(a->c.udiv(b->c));
  if (isOne(b)) return a;
  if (b->isConst() && b->c.isPowerOf2()) return mkLShr(a, mkConst(APInt(a->w, b->c.logBase2())));
  if (a->w <= 64 && b->umin > 0 && a->umax < b->umin) return zero(a->w);
  if (b->isConst() && a->op == O_MUL && a->k[1] == b && a->w <= 64) {
    unsigned __int128 hi = (unsigned __int128)a->k[0]->umax * b->umax;
    uint64_t M = a->w == 64 ? ~0ULL : (1ULL << a->w) - 1;
    if (hi <= M) return a->k[0];
  }
  return node(O_UDIV, a->w, 0, a, b);
}
E mkURem(E a, E b) {
  if (isZero(b)) return a;
  if (a->isConst() && b->isConst()) return mkConst(a->c.urem(b->c));
  if (isOne(b)) return zero(a->w);
  if (b->isConst() && b->c.isPowerOf2()) return mkAnd(a, mkConst(b->c - 1));
  if (a->w <= 64 && b->umin > 0 && a->umax < b->umin) return a;
  if (b->isConst() && a->op == O_MUL && a->k[1]->isConst() && a->w <= 64 && a->k[1]->c.urem(b->c).isZero()) {
    unsigned __int128 hi = (unsigned __int128)a->k[0]->umax * a->k[1]->umax;
    uint64_t M = a->w == 64 ? ~0ULL : (1ULL << a->w) - 1;
    if (hi <= M) return zero(a->w);
  }
  return node(O_UREM, a->w, 0, a, b);
}
static bool nonNeg(E a) { return a->w <= 64 && a->umax < (1ULL << (a->w - 1)); }
E mkSDiv(E a, E b) {
  if (a->isConst() && b->isConst() && !isZero(b)) return mkConst(a->c.sdiv(b->c));
  if (isOne(b)) return a;
  if (nonNeg(a) && nonNeg(b) && !(b->isConst() && b->c.isZero())) return mkUDiv(a, b);
  return node(O_SDIV, a->w, 0, a, b);
}
E mkSRem(E a, E b) {
  if (a->isConst() && b->isConst() && !isZero(b)) return mkConst(a->c.srem(b->c));
  if (nonNeg(a) && nonNeg(b) && !(b->isConst() && b->c.isZero())) return mkURem(a, b);
  return node(O_SREM, a->w, 0, a, b);
}
E mkAnd(E a, E b) {
  if (a->isConst() && b->isConst()) return mkConst(a->c & b->c);
  if (a->isConst()) std::swap(a, b);
  if (isZero(b)) return b;
  if (isOnes(b)) return a;
  if (a == b) return a;
  if (isNotOf(a, b)) return zero(a->w);
  if (b->isConst()) {
    if (a->op == O_AND && a->k[1]->isConst()) return mkAnd(a->k[0], mkConst(a->k[1]->c & b->c));
    // low mask -> zext(extract)
    if (b->c.isMask()) { uint32_t n = b->c.countTrailingOnes(); return mkZExt(mkExtract(a, 0, n), a->w); }
    // shifted mask -> concat
    if (b->c.isShiftedMask()) {
      uint32_t lo = b->c.countTrailingZeros(), n = b->c.popcount();
      E x = mkExtract(a, lo, n);
      if (lo) x = mkConcat(x, zero(lo));
      return mkZExt(x, a->w);
    }
    if (a->op == O_ITE && a->k[1]->isConst() && a->k[2]->isConst()) return mkIte(a->k[0], mkAnd(a->k[1], b), mkAnd(a->k[2], b));
    if (a->op == O_CONCAT) { uint32_t lw = a->k[1]->w;
      return mkConcat(mkAnd(a->k[0], mkConst(b->c.extractBits(a->w - lw, lw))), mkAnd(a->k[1], mkConst(b->c.extractBits(lw, 0)))); }
    if (a->op == O_ZEXT) { uint32_t sw = a->k[0]->w; return mkZExt(mkAnd(a->k[0], mkConst(b->c.extractBits(sw, 0))), a->w); }
  } else {
    if (a->w == 1) { // absorption
      if (a->op == O_AND && (a->k[0] == b || a->k[1] == b)) return a;
      if (b->op == O_AND && (b->k[0] == a || b->k[1] == a)) return b;
      if (a->op == O_AND && (isNotOf(a->k[0], b) || isNotOf(a->k[1], b))) return zero(1);
      if (b->op == O_AND && (isNotOf(b->k[0], a) || isNotOf(b->k[1], a))) return zero(1);
      if (a->op == O_OR && (a->k[0] == b || a->k[1] == b)) return b;
      if (b->op == O_OR && (b->k[0] == a || b->k[1] == a)) return a;
      // x==c1 & x==c2
      if (a->op == O_EQ && b->op == O_EQ && a->k[0] == b->k[0] && a->k[1]->isConst() && b->k[1]->isConst() && a->k[1] != b->k[1]) return zero(1);
    }
    if (a->id > b->id) std::swap(a, b);
  }
  return node(O_AND, a->w, 0, a, b);
}
// splits [hi parts..] alignment for or of disjoint concats
static bool highZeros(E a, uint32_t &n) { // number of known leading zero bits
  if (a->op == O_CONST) { n = a->c.countLeadingZeros(); return true; }
  if (a->op == O_ZEXT) { n = a->w - a->k[0]->w; return true; }
  if (a->op == O_CONCAT && isZero(a->k[0])) { n = a->k[0]->w; return true; }
  n = 0; return false;
}
static uint32_t lowZeros(E a) {
  if (a->op == O_CONST) return a->c.isZero() ? a->w : a->c.countTrailingZeros();
  if (a->op == O_CONCAT) { uint32_t r = lowZeros(a->k[1]); return r == a->k[1]->w ? r + lowZeros(a->k[0]) : r; }
  if (a->op == O_ZEXT) return lowZeros(a->k[0]);
  return 0;
}
static uint32_t hiZeros(E a) {
  if (a->op == O_CONST) return a->c.countLeadingZeros();
  if (a->op == O_ZEXT) return a->w - a->k[0]->w + hiZeros(a->k[0]);
  if (a->op == O_CONCAT) { uint32_t r = hiZeros(a->k[0]); return r == a->k[0]->w ? r + hiZeros(a->k[1]) : r; }
  return 0;
}
E mkOr(E a, E b) {
  if (a->isConst() && b->isConst()) return mkConst(a->c | b->c);
  if (a->isConst()) std::swap(a, b);
  if (isZero(b)) return a;
  if (isOnes(b)) return b;
  if (a == b) return a;
  if (isNotOf(a, b)) return mkConst(APInt::getAllOnes(a->w));
  if (a->w == 1) {
    if (a->op == O_OR && (a->k[0] == b || a->k[1] == b)) return a;
    if (b->op == O_OR && (b->k[0] == a || b->k[1] == a)) return b;
    if (a->op == O_AND && (a->k[0] == b || a->k[1] == b)) return b;
    if (b->op == O_AND && (b->k[0] == a || b->k[1] == a)) return a;
    if (a->op == O_AND && isNotOf(a->k[0], b)) return mkOr(a->k[1], b);
    if (a->op == O_AND && isNotOf(a->k[1], b)) return mkOr(a->k[0], b);
    if (b->op == O_AND && isNotOf(b->k[0], a)) return mkOr(b->k[1], a);
    if (b->op == O_AND && isNotOf(b->k[1], a)) return mkOr(b->k[0], a);
    if (a->op == O_OR && (isNotOf(a->k[0], b) || isNotOf(a->k[1], b))) return mkTrue();
    if (b->op == O_OR && (isNotOf(b->k[0], a) || isNotOf(b->k[1], a))) return mkTrue();
  } else {
    // disjoint halves: (hi << n) | lo
    uint32_t la = lowZeros(a), lb = lowZeros(b), ha = hiZeros(a), hb = hiZeros(b);
    if (la > 0 && la + hb >= a->w) { uint32_t n = la < a->w ? la : a->w - 1; if (n > 0) return mkConcat(mkExtract(a, n, a->w - n), mkExtract(b, 0, n)); }
    if (lb > 0 && lb + ha >= a->w) { uint32_t n = lb < a->w ? lb : a->w - 1; if (n > 0) return mkConcat(mkExtract(b, n, a->w - n), mkExtract(a, 0, n)); }
    // common zero regions: split so that byte-assembly collapses
    if (a->op == O_CONCAT && b->op == O_CONCAT && a->k[1]->w == b->k[1]->w && (isZero(a->k[0]) || isZero(b->k[0]) || isZero(a->k[1]) || isZero(b->k[1])))
      return mkConcat(mkOr(a->k[0], b->k[0]), mkOr(a->k[1], b->k[1]));
    if (ha && hb) { uint32_t n = std::min(ha, hb); if (n < a->w) return mkZExt(mkOr(mkExtract(a, 0, a->w - n), mkExtract(b, 0, a->w - n)), a->w); }
    if (la && lb) { uint32_t n = std::min(la, lb); if (n < a->w) return mkConcat(mkOr(mkExtract(a, n, a->w - n), mkExtract(b, n, a->w - n)), zero(n)); }
    if (ha || hb) { uint32_t n = std::max(ha, hb); if (n < a->w) { // one side is zero above
        E x = ha >= hb ? b : a; uint32_t lw = a->w - n;
        if (x->op == O_CONCAT || x->op == O_ZEXT) return mkConcat(mkExtract(x, lw, n), mkOr(mkExtract(a, 0, lw), mkExtract(b, 0, lw))); } }
  }
  if (!b->isConst() && a->id > b->id) std::swap(a, b);
  return node(O_OR, a->w, 0, a, b);
}
E mkXor(E a, E b) {
  if (a->isConst() && b->isConst()) return mkConst(a->c ^ b->c);
  if (a->isConst()) std::swap(a, b);
  if (isZero(b)) return a;
  if (isOnes(b)) return mkNot(a);
  if (a == b) return zero(a->w);
  if (b->isConst() && a->op == O_XOR && a->k[1]->isConst()) return mkXor(a->k[0], mkConst(a->k[1]->c ^ b->c));
  if (b->isConst() && a->op == O_ZEXT && b->c.countLeadingZeros() >= a->w - a->k[0]->w)
    return mkZExt(mkXor(a->k[0], mkConst(b->c.trunc(a->k[0]->w))), a->w);
  if (b->isConst() && a->w > 1 && a->op == O_ITE && (a->k[1]->isConst() || a->k[2]->isConst())) return mkIte(a->k[0], mkXor(a->k[1], b), mkXor(a->k[2], b));
  if (a->w == 1 && isNot(a)) return mkNot(mkXor(a->k[0], b));
  if (a->w == 1 && isNot(b)) return mkNot(mkXor(a, b->k[0]));
  if (!b->isConst() && a->id > b->id) std::swap(a, b);
  return node(O_XOR, a->w, 0, a, b);
}
E mkShl(E a, E b) {
  if (b->isConst()) {
    if (b->c.uge(a->w)) return zero(a->w);
    uint32_t n = b->c.getZExtValue();
    if (!n) return a;
    return mkConcat(mkExtract(a, 0, a->w - n), zero(n));
  }
  if (isZero(a)) return a;
  return node(O_SHL, a->w, 0, a, b);
}
E mkLShr(E a, E b) {
  if (b->isConst()) {
    if (b->c.uge(a->w)) return zero(a->w);
    uint32_t n = b->c.getZExtValue();
    if (!n) return a;
    return mkZExt(mkExtract(a, n, a->w - n), a->w);
  }
  if (isZero(a)) return a;
  return node(O_LSHR, a->w, 0, a, b);
}
E mkAShr(E a, E b) {
  if (b->isConst()) {
    uint32_t n = b->c.uge(a->w) ? a->w - 1 : b->c.getZExtValue();
    if (!n) return a;
    return mkSExt(mkExtract(a, n, a->w - n), a->w);
  }
  if (isZero(a)) return a;
  return node(O_ASHR, a->w, 0, a, b);
}
static E mkExtract1(E a, uint32_t lo, uint32_t w);
static std::unordered_map<uint64_t, E> extMemo; // shared sub-expressions are taken apart once
E mkExtract(E a, uint32_t lo, uint32_t w) {
  if (a->op == O_CONST || a->op == O_VAR || a->nk < 2 || lo + w > a->w || lo > 0xFFFF || w > 0xFFFF) return mkExtract1(a, lo, w);
  uint64_t key = (uint64_t)a->id << 32 | lo << 16 | w; auto it = extMemo.find(key); if (it != extMemo.end()) return it->second;
  E r = mkExtract1(a, lo, w); extMemo.emplace(key, r); return r;
}
static E mkExtract1(E a, uint32_t lo, uint32_t w) {
  if (lo + w > a->w || w == 0) { fprintf(stderr, "bad extract %u %u of %u\n", lo, w, a->w); abort(); }
  if (w == a->w) return a;
  switch (a->op) {
    case O_CONST: return mkConst(a->c.extractBits(w, lo));
    case O_EXTRACT: return mkExtract(a->k[0], lo + a->p0, w);
    case O_CONCAT: {
      uint32_t lw = a->k[1]->w;
      if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
      if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
      return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo));
    }
    case O_ZEXT: {
      uint32_t sw = a->k[0]->w;
      if (lo >= sw) return zero(w);
      if (lo + w <= sw) return mkExtract(a->k[0], lo, w);
      return mkZExt(mkExtract(a->k[0], lo, sw - lo), w);
    }
    case O_SEXT: {
      uint32_t sw = a->k[0]->w;
      if (lo + w <= sw) return mkExtract(a->k[0], lo, w);
      if (lo < sw) return mkSExt(mkExtract(a->k[0], lo, sw - lo), w);
      return mkSExt(mkExtract(a->k[0], sw - 1, 1), w);
    }
    case O_AND: case O_OR: case O_XOR:
      if (!(a->k[1]->isConst() || w == 1) && (a->k[0]->op == O_CONCAT || a->k[1]->op == O_CONCAT || a->k[0]->op == O_ZEXT || a->k[1]->op == O_ZEXT)) {
        E x = mkExtract(a->k[0], lo, w), y = mkExtract(a->k[1], lo, w); if (!x->isConst() && !y->isConst()) break;
        return a->op == O_AND ? mkAnd(x, y) : a->op == O_OR ? mkOr(x, y) : mkXor(x, y);
      }
      if (a->k[1]->isConst() || w == 1) {
        E x = mkExtract(a->k[0], lo, w), y = mkExtract(a->k[1], lo, w);
        return a->op == O_AND ? mkAnd(x, y) : a->op == O_OR ? mkOr(x, y) : mkXor(x, y);
      }
      break;
    case O_ITE:
      if (a->k[1]->isConst() || a->k[2]->isConst() || w == 8)
        return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
      break;
    case O_ADD: case O_SUB: case O_MUL:
      if (lo == 0 && w <= 32) {
        E x = mkExtract(a->k[0], 0, w), y = mkExtract(a->k[1], 0, w);
        return a->op == O_ADD ? mkAdd(x, y) : a->op == O_SUB ? mkSub(x, y) : mkMul(x, y);
      }
      if (lo && a->w <= 64 && (a->umax >> lo) == 0) return zero(w);
      break;
    default:
      if (lo && a->w <= 64 && (a->umax >> lo) == 0) return zero(w);
  }
  return node(O_EXTRACT, w, lo, a);
}
E mkConcat(E h, E l) {
  if (h->isConst() && l->isConst()) { APInt r = l->c.zext(h->w + l->w); r.insertBits(h->c, l->w); return mkConst(r); }
  if (isZero(h)) return mkZExt(l, h->w + l->w);
  if (h->op == O_EXTRACT && l->op == O_EXTRACT && h->k[0] == l->k[0] && h->p0 == l->p0 + l->w)
    return mkExtract(h->k[0], l->p0, h->w + l->w);
  // canonical form: right-nested  (a . (b . c))
  if (h->op == O_ZEXT) return mkZExt(mkConcat(h->k[0], l), h->w + l->w);
  if (h->op == O_CONCAT) return mkConcat(h->k[0], mkConcat(h->k[1], l));
  if (l->op == O_CONCAT) {
    E m = l->k[0];
    if (h->isConst() && m->isConst()) return mkConcat(mkConcat(h, m), l->k[1]);
    if (h->op == O_EXTRACT && m->op == O_EXTRACT && h->k[0] == m->k[0] && h->p0 == m->p0 + m->w)
      return mkConcat(mkExtract(h->k[0], m->p0, h->w + m->w), l->k[1]);
  }
  // zext pieces: concat(h, zext(x)) = concat(h, 0, x)
  if (l->op == O_ZEXT) { uint32_t n = l->w - l->k[0]->w; return mkConcat(h, node(O_CONCAT, l->w, 0, zero(n), l->k[0])); }
  { // (x ^ c) . (y ^ d) over adjacent pieces of one word
    E hx = h, lx = l; APInt hc(h->w, 0), lc(l->w, 0);
    if (h->op == O_XOR && h->k[1]->isConst()) { hx = h->k[0]; hc = h->k[1]->c; }
    if (l->op == O_XOR && l->k[1]->isConst()) { lx = l->k[0]; lc = l->k[1]->c; }
    if ((hx != h || lx != l) && hx->op == O_EXTRACT && lx->op == O_EXTRACT && hx->k[0] == lx->k[0] && hx->p0 == lx->p0 + lx->w) {
      APInt c = lc.zext(h->w + l->w); c.insertBits(hc, l->w); return mkXor(mkConcat(hx, lx), mkConst(c)); } }
  // ite with the same condition on both sides (bytes of one selected word)
  if (h->op == O_ITE && l->op == O_ITE && h->k[0] == l->k[0])
    return mkIte(h->k[0], mkConcat(h->k[1], l->k[1]), mkConcat(h->k[2], l->k[2]));
  if (l->op == O_CONCAT && h->op == O_ITE && l->k[0]->op == O_ITE && l->k[0]->k[0] == h->k[0])
    return mkConcat(mkConcat(h, l->k[0]), l->k[1]);
  return node(O_CONCAT, h->w + l->w, 0, h, l);
}
E mkZExt(E a, uint32_t w) {
  if (w == a->w) return a;
  if (a->isConst()) return mkConst(a->c.zext(w));
  if (a->op == O_ZEXT) return mkZExt(a->k[0], w);
  if (a->op == O_CONCAT && isZero(a->k[0])) return mkZExt(a->k[1], w);
  if (a->op == O_ITE && a->k[1]->isConst() && a->k[2]->isConst()) return mkIte(a->k[0], mkZExt(a->k[1], w), mkZExt(a->k[2], w));
  return node(O_ZEXT, w, 0, a);
}
E mkSExt(E a, uint32_t w) {
  if (w == a->w) return a;
  if (a->isConst()) return mkConst(a->c.sext(w));
  if (a->op == O_SEXT) return mkSExt(a->k[0], w);
  if (a->op == O_ZEXT) return mkZExt(a->k[0], w);
  if (a->w > 1 && nonNeg(a)) return mkZExt(a, w);
  if (a->op == O_ITE && a->k[1]->isConst() && a->k[2]->isConst()) return mkIte(a->k[0], mkSExt(a->k[1], w), mkSExt(a->k[2], w));
  if (a->w == 1) return mkIte(a, mkConst(APInt::getAllOnes(w)), zero(w));
  return node(O_SEXT, w, 0, a);
}
E mkIte(E c, E a, E b) {
  if (c->isConst()) return c->c.isZero() ? b : a;
  if (a == b) return a;
  if (isNot(c)) return mkIte(c->k[0], b, a);
  if (a->op == O_ITE && a->k[0] == c) a = a->k[1];
  if (b->op == O_ITE && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  if (a->w == 1) {
    if (a->isConst()) return isOne(a) ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (b->isConst()) return isOne(b) ? mkOr(mkNot(c), a) : mkAnd(c, a);
    if (a == c) return mkOr(c, b);
    if (b == c) return mkAnd(c, a);
  }
  // ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
  if (b->op == O_ITE && b->k[1] == a) return mkIte(mkOr(c, b->k[0]), a, b->k[2]);
  if (a->op == O_ITE && a->k[2] == b) return mkIte(mkAnd(c, a->k[0]), a->k[1], b);
  // ite(x==k, k, x) -> x
  if (c->op == O_EQ && ((c->k[0] == b && c->k[1] == a) || (c->k[1] == b && c->k[0] == a))) return b;
  // keep value-preserving conversions outside
  if (a->op == O_FEXT && b->op == O_FEXT && a->k[0]->w == b->k[0]->w) return mkFExt(mkIte(c, a->k[0], b->k[0]), a->w);
  if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return mkZExt(mkIte(c, a->k[0], b->k[0]), a->w);
  if ((a->op == O_SITOF || a->op == O_UITOF) && a->op == b->op && a->k[0]->w == b->k[0]->w)
    return mkIToF(a->op == O_SITOF, mkIte(c, a->k[0], b->k[0]), a->w);
  return node(O_ITE, a->w, 0, c, a, b);
}
static bool leafyIte(E e, int d) { // ite tree in which pushing an operation down pays
  return e->op == O_ITE && d > 0;
}
static std::unordered_map<uint64_t, E> cmpMemo[5];
template <class F> static E pushCmp(int slot, E a, E b, F f) {
  uint64_t key = ((uint64_t)a->id << 32) | b->id;
  auto it = cmpMemo[slot].find(key);
  if (it != cmpMemo[slot].end()) return it->second;
  E r = f(); cmpMemo[slot].emplace(key, r); return r;
}
E mkEq(E a, E b) {
  if (a->w != b->w) { fprintf(stderr, "mkEq width %u %u\n", a->w, b->w); abort(); }
  if (a == b) return mkTrue();
  if (a->isConst() && b->isConst()) return mkFalse();
  if (a->isConst()) std::swap(a, b);
  if (a->w == 1) return b->isConst() ? (isOne(b) ? a : mkNot(a)) : mkNot(mkXor(a, b));
  if (a->w <= 64 && (a->umax < b->umin || b->umax < a->umin)) return mkFalse();
  if (b->isConst()) {
    switch (a->op) {
      case O_ZEXT: return mkEq(a->k[0], mkConst(b->c.trunc(a->k[0]->w)));  // range check above excludes high bits
      case O_SEXT: { APInt t = b->c.trunc(a->k[0]->w); if (t.sext(a->w) != b->c) return mkFalse(); return mkEq(a->k[0], mkConst(t)); }
      case O_CONCAT: { uint32_t lw = a->k[1]->w;
        return mkAnd(mkEq(a->k[0], mkConst(b->c.extractBits(a->w - lw, lw))), mkEq(a->k[1], mkConst(b->c.extractBits(lw, 0)))); }
      case O_ADD: if (a->k[1]->isConst()) return mkEq(a->k[0], mkConst(b->c - a->k[1]->c)); break;
      case O_SUB: if (isZero(b)) return mkEq(a->k[0], a->k[1]); break;
      case O_XOR: if (a->k[1]->isConst()) return mkEq(a->k[0], mkConst(b->c ^ a->k[1]->c)); if (isZero(b)) return mkEq(a->k[0], a->k[1]); break;
      case O_MUL: if (a->k[1]->isConst() && a->w <= 64) {
          uint64_t M = a->w == 64 ? ~0ULL : (1ULL << a->w) - 1; uint64_t c = a->k[1]->u64(), k = b->u64();
          if ((unsigned __int128)a->k[0]->umax * c <= M) return k % c ? mkFalse() : mkEq(a->k[0], mkConst(k / c, a->w));
        } break;
      case O_ITE:
        if (a->k[1]->isConst() || a->k[2]->isConst() || (leafyIte(a->k[1], 1) && leafyIte(a->k[2], 1)))
          return pushCmp(0, a, b, [&] { return mkIte(a->k[0], mkEq(a->k[1], b), mkEq(a->k[2], b)); });
        break;
      case O_OR: if (isZero(b)) return mkAnd(mkEq(a->k[0], b), mkEq(a->k[1], b)); break;
      default: break;
    }
  } else {
    if (a->op == O_ZEXT && b->op == O_ZEXT) {
      if (a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
      E s = a->k[0]->w < b->k[0]->w ? a->k[0] : b->k[0], l = s == a->k[0] ? b->k[0] : a->k[0];
      return mkEq(mkZExt(s, l->w), l);
    }
    if (a->op == O_CONCAT && b->op == O_CONCAT && a->k[1]->w == b->k[1]->w)
      return mkAnd(mkEq(a->k[0], b->k[0]), mkEq(a->k[1], b->k[1]));
    if (a->op == O_ADD && b->op == O_ADD && a->k[1] == b->k[1]) return mkEq(a->k[0], b->k[0]);
    if (a->op == O_ADD && (a->k[0] == b || a->k[1] == b)) return mkEq(a->k[0] == b ? a->k[1] : a->k[0], zero(a->w));
    if (b->op == O_ADD && (b->k[0] == a || b->k[1] == a)) return mkEq(b->k[0] == a ? b->k[1] : b->k[0], zero(a->w));
    if (a->op == O_ITE && (a->k[1] == b || a->k[2] == b)) return a->k[1] == b ? mkOr(a->k[0], mkEq(a->k[2], b)) : mkOr(mkNot(a->k[0]), mkEq(a->k[1], b));
    if (b->op == O_ITE && (b->k[1] == a || b->k[2] == a)) return b->k[1] == a ? mkOr(b->k[0], mkEq(b->k[2], a)) : mkOr(mkNot(b->k[0]), mkEq(b->k[1], a));
    if (a->id > b->id) std::swap(a, b);
  }
  return node(O_EQ, 1, 0, a, b);
}
E mkUlt(E a, E b) {
  if (a == b) return mkFalse();
  if (a->isConst() && b->isConst()) return mkConst(a->c.ult(b->c), 1);
  if (a->w <= 64) {
    if (a->umax < b->umin) return mkTrue();
    if (a->umin >= b->umax) return mkFalse();
  }
  if (isZero(a)) return mkNot(mkEq(b, a));
  if (isOne(b)) return mkEq(a, zero(a->w));
  if (a->w <= 64 && b->isConst() && a->umax == b->umin) return mkNot(mkEq(a, b));
  if (a->w <= 64 && a->isConst() && b->umin == a->umax) return mkNot(mkEq(a, b));
  if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return mkUlt(a->k[0], b->k[0]);
  if (a->op == O_ZEXT && b->isConst()) return mkUlt(a->k[0], mkConst(b->c.trunc(a->k[0]->w)));
  if (b->op == O_ZEXT && a->isConst()) return mkUlt(mkConst(a->c.trunc(b->k[0]->w)), b->k[0]);
  if (b->isConst() && a->op == O_ITE && (a->k[1]->isConst() || a->k[2]->isConst()))
    return pushCmp(1, a, b, [&] { return mkIte(a->k[0], mkUlt(a->k[1], b), mkUlt(a->k[2], b)); });
  if (a->isConst() && b->op == O_ITE && (b->k[1]->isConst() || b->k[2]->isConst()))
    return pushCmp(1, a, b, [&] { return mkIte(b->k[0], mkUlt(a, b->k[1]), mkUlt(a, b->k[2])); });
  return node(O_ULT, 1, 0, a, b);
}
E mkSlt(E a, E b) {
  if (a == b) return mkFalse();
  if (a->isConst() && b->isConst()) return mkConst(a->c.slt(b->c), 1);
  if (a->w > 1 && nonNeg(a) && nonNeg(b)) return mkUlt(a, b);
  if (b->isConst() && b->c.isMinSignedValue()) return mkFalse();
  if (a->isConst() && a->c.isMaxSignedValue()) return mkFalse();
  if (b->isConst() && b->c.isMaxSignedValue()) return mkNot(mkEq(a, b));
  if (a->isConst() && a->c.isMinSignedValue()) return mkNot(mkEq(a, b));
  if (isZero(b) && a->w > 1) return mkExtract(a, a->w - 1, 1);           // sign test
  if (isOnes(a) && b->w > 1) return mkNot(mkExtract(b, b->w - 1, 1));
  if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->w == b->k[0]->w) return mkSlt(a->k[0], b->k[0]);
  if (a->op == O_SEXT && b->isConst()) { uint32_t sw = a->k[0]->w;
    if (b->c.sgt(APInt::getSignedMaxValue(sw).sext(a->w))) return mkTrue();
    if (b->c.sle(APInt::getSignedMinValue(sw).sext(a->w))) return mkFalse();
    return mkSlt(a->k[0], mkConst(b->c.trunc(sw))); }
  if (b->op == O_SEXT && a->isConst()) { uint32_t sw = b->k[0]->w;
    if (a->c.slt(APInt::getSignedMinValue(sw).sext(b->w))) return mkTrue();
    if (a->c.sge(APInt::getSignedMaxValue(sw).sext(b->w))) return mkFalse();
    return mkSlt(mkConst(a->c.trunc(sw)), b->k[0]); }
  if (b->isConst() && a->op == O_ITE && (a->k[1]->isConst() || a->k[2]->isConst()))
    return pushCmp(2, a, b, [&] { return mkIte(a->k[0], mkSlt(a->k[1], b), mkSlt(a->k[2], b)); });
  if (a->isConst() && b->op == O_ITE && (b->k[1]->isConst() || b->k[2]->isConst()))
    return pushCmp(2, a, b, [&] { return mkIte(b->k[0], mkSlt(a, b->k[1]), mkSlt(a, b->k[2])); });
  return node(O_SLT, 1, 0, a, b);
}

// ---------------------------------------------------------------- floating point, concrete
static const fltSemantics &sem(uint32_t w) { return w == 16 ? APFloat::IEEEhalf() : w == 32 ? APFloat::IEEEsingle() : APFloat::IEEEdouble(); }
static APFloat toF(const APInt &v) { return APFloat(sem(v.getBitWidth()), v); }
static RoundingMode rmode(uint32_t m) {
  switch (m) { case RM_NE: return APFloat::rmNearestTiesToEven; case RM_NA: return APFloat::rmNearestTiesToAway;
    case RM_TZ: return APFloat::rmTowardZero; case RM_UP: return APFloat::rmTowardPositive; default: return APFloat::rmTowardNegative; }
}
static APInt fpEval(Op op, uint32_t w, uint32_t p0, const APInt &a, const APInt *b) {
  switch (op) {
    case O_FADD: { auto x = toF(a); x.add(toF(*b), APFloat::rmNearestTiesToEven); return x.bitcastToAPInt(); }
    case O_FSUB: { auto x = toF(a); x.subtract(toF(*b), APFloat::rmNearestTiesToEven); return x.bitcastToAPInt(); }
    case O_FMUL: { auto x = toF(a); x.multiply(toF(*b), APFloat::rmNearestTiesToEven); return x.bitcastToAPInt(); }
    case O_FDIV: { auto x = toF(a); x.divide(toF(*b), APFloat::rmNearestTiesToEven); return x.bitcastToAPInt(); }
    case O_FRND: { auto x = toF(a); x.roundToIntegral(rmode(p0)); return x.bitcastToAPInt(); }
    case O_FTOSI: case O_FTOUI: { auto x = toF(a); APSInt r(w, op == O_FTOUI); bool ex;
      auto s = x.convertToInteger(r, APFloat::rmTowardZero, &ex);
      if (s & APFloat::opInvalidOp) return APInt(w, 0);   // callers guard the range
      return r; }
    case O_SITOF: case O_UITOF: { APFloat x(sem(w)); x.convertFromAPInt(a, op == O_SITOF, APFloat::rmNearestTiesToEven); return x.bitcastToAPInt(); }
    case O_FTRUNC: case O_FEXT: { auto x = toF(a); bool l; x.convert(sem(w), APFloat::rmNearestTiesToEven, &l); return x.bitcastToAPInt(); }
    default: fprintf(stderr, "fpEval %d\n", op); abort();
  }
}
static bool cNaN(const APInt &a) { return toF(a).isNaN(); }

E mkFArith(Op op, E a, E b) {
  if (a->isConst() && b->isConst()) return mkConst(fpEval(op, a->w, 0, a->c, &b->c));
  if ((op == O_FMUL || op == O_FADD) && a->isConst()) std::swap(a, b);
  if ((op == O_FMUL || op == O_FADD) && !b->isConst() && a->id > b->id) std::swap(a, b);
  if (op == O_FADD && b->isConst() && b->c.isNegative() && !cNaN(b->c) && !(b->c << 1).isZero()) { APInt c = b->c; c.flipBit(c.getBitWidth() - 1); op = O_FSUB; b = mkConst(c); } // x + (-c) is x - c
  // constants under an ite (results of clamps) keep later folding effective
  if (a->op == O_ITE && b->isConst() && (a->k[1]->isConst() || a->k[2]->isConst()))
    return mkIte(a->k[0], mkFArith(op, a->k[1], b), mkFArith(op, a->k[2], b));
  return node(op, a->w, 0, a, b);
}
E mkFSqrt(E a) { return node(O_FSQRT, a->w, 0, a); }
static std::unordered_map<E, E> nanMap;
E mkFNaN(E a) {
  if (a->isConst()) return mkConst(cNaN(a->c), 1);
  if (a->op == O_SITOF || a->op == O_UITOF) return mkFalse();
  if (a->op == O_FEXT || a->op == O_FRND || a->op == O_FTRUNC) return mkFNaN(a->k[0]);
  if (a->op == O_ITE && !(a->k[1]->op == O_VAR && a->k[2]->op == O_VAR))
    return pushCmp(3, a, a, [&] { return mkIte(a->k[0], mkFNaN(a->k[1]), mkFNaN(a->k[2])); });
  FFmt f = ffmt(a->w);
  E abs = mkExtract(a, 0, a->w - 1);
  E r = mkUlt(mkConst(APInt(a->w - 1, ((1ULL << f.eb) - 1) << f.mb)), abs);
  if (!r->isConst()) nanMap.emplace(r, a);
  return r;
}
E nanOf(E r) { auto it = nanMap.find(r); return it == nanMap.end() ? nullptr : it->second; }
E fpIsZero(E a) { return mkEq(mkExtract(a, 0, a->w - 1), zero(a->w - 1)); }
E fpIsInf(E a) { FFmt f = ffmt(a->w); return mkEq(mkExtract(a, 0, a->w - 1), mkConst(APInt(a->w - 1, ((1ULL << f.eb) - 1) << f.mb))); }
static E fneg(E a) { return mkXor(a, mkConst(APInt::getSignMask(a->w))); }

static bool exactInt(E e) { // int-to-float node that is exact
  if (e->op != O_SITOF && e->op != O_UITOF) return false;
  uint32_t prec = ffmt(e->w).mb + 1;
  E x = e->k[0];
  if (x->w <= prec) return e->w != 16;
  return x->w <= 64 && x->umax < (1ULL << prec) && e->w != 16;
}
// compare of an exact integer conversion with a constant: op 0: x<c, 1: c<x, 2: x==c
static E cmpIntConst(E i, const APInt &cb, int op) {
  E x = i->k[0]; bool sg = i->op == O_SITOF; uint32_t W = x->w + 2; // room for sign
  E X = sg ? mkSExt(x, W) : mkZExt(x, W);
  APFloat c = toF(cb);
  if (c.isNaN()) return mkFalse();
  auto toI = [&](APFloat v, bool &big) { // integral float to W bits, saturating
    APSInt r(W, false); bool ex; auto s = v.convertToInteger(r, APFloat::rmTowardZero, &ex); big = s & APFloat::opInvalidOp; return APInt(r); };
  bool big; 
  if (op == 2) { APFloat t = c; t.roundToIntegral(APFloat::rmTowardZero); if (t.compare(c) != APFloat::cmpEqual) return mkFalse();
    APInt v = toI(c, big); if (big) return mkFalse(); return mkEq(X, mkConst(v)); }
  if (op == 0) { // x < c  <=> x < ceil(c)
    c.roundToIntegral(APFloat::rmTowardPositive); APInt v = toI(c, big); if (big) return mkConst(!c.isNegative(), 1); return mkSlt(X, mkConst(v)); }
  c.roundToIntegral(APFloat::rmTowardNegative); APInt v = toI(c, big); if (big) return mkConst(c.isNegative(), 1); return mkSlt(mkConst(v), X);
}
static E cmpExtConst(E f, const APInt &cb, int op) { // f = FEXT(x)
  E x = f->k[0]; APFloat c = toF(cb);
  if (c.isNaN()) return mkFalse();
  APFloat t = c; bool lossy; t.convert(sem(x->w), APFloat::rmTowardNegative, &lossy);
  APFloat back = t; bool l2; back.convert(sem(f->w), APFloat::rmNearestTiesToEven, &l2);
  bool exact = back.compare(c) == APFloat::cmpEqual;
  E T = mkConst(t.bitcastToAPInt());
  if (op == 2) return exact ? mkFEq(x, T) : mkFalse();
  if (exact) return op == 0 ? mkFLt(x, T) : mkFLt(T, x);
  return op == 0 ? mkFLe(x, T) : mkFLt(T, x);   // t = round down(c) < c
}
static E rawLt(E a, E b) { // neither NaN: sign-magnitude order
  uint32_t w = a->w;
  E sa = mkExtract(a, w - 1, 1), sb = mkExtract(b, w - 1, 1), ma = mkExtract(a, 0, w - 1), mb = mkExtract(b, 0, w - 1);
  E bothZero = mkAnd(mkEq(ma, zero(w - 1)), mkEq(mb, zero(w - 1)));
  return mkAnd(mkNot(bothZero), mkIte(sa, mkIte(sb, mkUlt(mb, ma), mkTrue()), mkIte(sb, mkFalse(), mkUlt(ma, mb))));
}
static bool pushable(E a) { return a->op == O_ITE; }
static E fcmp(E a, E b, int op) { // 0: a<b  2: a==b (ordered)
  if (a->isConst() && b->isConst()) {
    auto r = toF(a->c).compare(toF(b->c));
    return mkConst(op == 0 ? r == APFloat::cmpLessThan : r == APFloat::cmpEqual, 1);
  }
  if ((a->isConst() && cNaN(a->c)) || (b->isConst() && cNaN(b->c))) return mkFalse();
  if (a == b) return op == 0 ? mkFalse() : mkNot(mkFNaN(a));
  if (a->op == O_FEXT && b->op == O_FEXT && a->k[0]->w == b->k[0]->w) return fcmp(a->k[0], b->k[0], op);
  if (a->op == O_FEXT && b->isConst()) return cmpExtConst(a, b->c, op);
  if (b->op == O_FEXT && a->isConst()) return cmpExtConst(b, a->c, op == 0 ? 1 : 2);
  if (exactInt(a) && b->isConst()) return cmpIntConst(a, b->c, op);
  if (exactInt(b) && a->isConst()) return cmpIntConst(b, a->c, op == 0 ? 1 : 2);
  if (exactInt(a) && exactInt(b)) {
    uint32_t W = std::max(a->k[0]->w, b->k[0]->w) + 1;
    E x = a->op == O_SITOF ? mkSExt(a->k[0], W) : mkZExt(a->k[0], W), y = b->op == O_SITOF ? mkSExt(b->k[0], W) : mkZExt(b->k[0], W);
    return op == 0 ? mkSlt(x, y) : mkEq(x, y);
  }
  if (pushable(a) && (b->isConst() || a->k[1]->isConst() || a->k[2]->isConst()))
    return pushCmp(op == 0 ? 1 : 4, a, b, [&] { return mkIte(a->k[0], fcmp(a->k[1], b, op), fcmp(a->k[2], b, op)); });
  if (pushable(b) && (a->isConst() || b->k[1]->isConst() || b->k[2]->isConst()))
    return pushCmp(op == 0 ? 1 : 4, a, b, [&] { return mkIte(b->k[0], fcmp(a, b->k[1], op), fcmp(a, b->k[2], op)); });
  if (op == 2 && a->id > b->id) std::swap(a, b);
  return node(op == 0 ? O_FLT : O_FEQ, 1, 0, a, b);
}
static E bitCmp(E a, E b, bool lt) {
  E nn = mkAnd(mkNot(mkFNaN(a)), mkNot(mkFNaN(b)));
  if (lt) return mkAnd(nn, rawLt(a, b));
  return mkAnd(nn, mkOr(mkEq(a, b), mkAnd(fpIsZero(a), fpIsZero(b))));
}
E mkFLt(E a, E b) { static std::unordered_map<uint64_t, E> memo; uint64_t k = ((uint64_t)a->id << 32) | b->id;
  auto it = memo.find(k); if (it != memo.end()) return it->second; E r = fcmp(a, b, 0); memo.emplace(k, r); return r; }
E mkFEq(E a, E b) { static std::unordered_map<uint64_t, E> memo; uint64_t k = ((uint64_t)a->id << 32) | b->id;
  auto it = memo.find(k); if (it != memo.end()) return it->second; E r = fcmp(a, b, 2); memo.emplace(k, r); return r; }
E mkFLe(E a, E b) { // ordered a<=b  ==  !nan && !(b<a)
  return mkAnd(mkAnd(mkNot(mkFNaN(a)), mkNot(mkFNaN(b))), mkNot(mkFLt(b, a)));
}
E mkFRnd(E a, RM m) {
  if (a->isConst()) return mkConst(fpEval(O_FRND, a->w, m, a->c, nullptr));
  if (a->op == O_SITOF || a->op == O_UITOF || a->op == O_FRND) return a;
  if (a->op == O_ITE && (a->k[1]->isConst() || a->k[2]->isConst())) return mkIte(a->k[0], mkFRnd(a->k[1], m), mkFRnd(a->k[2], m));
  return node(O_FRND, a->w, m, a);
}
// Bounds of a double that is not a NaN, using the comparisons with constants that guard the branches of clamps.
// (Every operation here passes a NaN on, so bounds taken from a comparison that is false for a NaN do no harm.)
typedef std::vector<std::tuple<E, double, double>> FEnv;
static double cdbl(E c) { return llvm::APFloat(c->w == 64 ? llvm::APFloat::IEEEdouble() : llvm::APFloat::IEEEsingle(), c->c).convertToDouble(); }
static void fpFacts(E c, bool pos, FEnv &env) {
  if (c->op == O_XOR && c->k[1]->isConst()) return fpFacts(c->k[0], !pos, env);
  if ((c->op == O_AND && pos) || (c->op == O_OR && !pos)) { fpFacts(c->k[0], pos, env); fpFacts(c->k[1], pos, env); return; }
  if (c->op != O_FLT) return; E p = c->k[0], q = c->k[1]; if (p->w != 64) return;
  if (q->isConst()) { double k = cdbl(q); if (k == k) env.emplace_back(p, pos ? -INFINITY : k, pos ? k : INFINITY); }
  else if (p->isConst()) { double k = cdbl(p); if (k == k) env.emplace_back(q, pos ? k : -INFINITY, pos ? INFINITY : k); }
}
static std::pair<double, double> fpRange(E e, FEnv &env, int depth) {
  double lo = -INFINITY, hi = INFINITY;
  if (e->isConst()) { double k = cdbl(e); if (k == k) return {k, k}; return {INFINITY, -INFINITY}; }
  if (depth > 0 && e->w == 64) switch (e->op) {
    case O_ITE: { size_t n = env.size(); fpFacts(e->k[0], true, env); auto x = fpRange(e->k[1], env, depth - 1); env.resize(n); fpFacts(e->k[0], false, env); auto y = fpRange(e->k[2], env, depth - 1); env.resize(n); lo = std::min(x.first, y.first); hi = std::max(x.second, y.second); } break;
    case O_FADD: { auto x = fpRange(e->k[0], env, depth - 1), y = fpRange(e->k[1], env, depth - 1); lo = x.first + y.first; hi = x.second + y.second; } break;
    case O_FSUB: { auto x = fpRange(e->k[0], env, depth - 1), y = fpRange(e->k[1], env, depth - 1); lo = x.first - y.second; hi = x.second - y.first; } break;
    case O_FMUL: case O_FDIV: if (e->k[1]->isConst() || (e->op == O_FMUL && e->k[0]->isConst())) { bool r = e->k[1]->isConst(); double k = cdbl(r ? e->k[1] : e->k[0]); auto x = fpRange(e->k[r ? 0 : 1], env, depth - 1);
        if (k != 0 && std::isfinite(k)) { double a = e->op == O_FMUL ? x.first * k : x.first / k, b = e->op == O_FMUL ? x.second * k : x.second / k; lo = std::min(a, b); hi = std::max(a, b); } } break;
    case O_FRND: { auto x = fpRange(e->k[0], env, depth - 1); lo = std::floor(x.first); hi = std::ceil(x.second); } break;
    case O_UITOF: if (e->k[0]->w <= 64) { lo = (double)e->k[0]->umin; hi = (double)e->k[0]->umax; } break;
    default: break;
  }
  if (lo != lo) lo = -INFINITY; if (hi != hi) hi = INFINITY;
  for (auto &f : env) if (std::get<0>(f) == e) { lo = std::max(lo, std::get<1>(f)); hi = std::min(hi, std::get<2>(f)); }
  return {lo, hi};
}
static E mkFToI0(bool sg, E a, uint32_t w);
E mkFToI(bool sg, E a, uint32_t w) { // the caller guards the range
  E r = mkFToI0(sg, a, w);
  if (r->isConst() || a->w != 64 || w > 64 || r->op == O_ZEXT) return r;
  FEnv env; auto b = fpRange(a, env, 8); if (!(b.first > -1 && b.second < std::ldexp(1.0, w - 1))) return r;
  uint64_t top = (uint64_t)b.second; uint32_t k = 1; while (k < w && top >> k) ++k;
  return k < w ? mkZExt(mkExtract(r, 0, k), w) : r;
}
static E mkFToI0(bool sg, E a, uint32_t w) {
  if (a->isConst()) return mkConst(fpEval(sg ? O_FTOSI : O_FTOUI, w, 0, a->c, nullptr));
  if (exactInt(a)) { // the caller guards the range
    E x = a->k[0];
    if (x->w >= w) return mkExtract(x, 0, w);
    return a->op == O_SITOF ? mkSExt(x, w) : mkZExt(x, w);
  }
  if (a->op == O_ITE && (a->k[1]->isConst() || a->k[2]->isConst() || exactInt(a->k[1]) || exactInt(a->k[2])))
    return mkIte(a->k[0], mkFToI(sg, a->k[1], w), mkFToI(sg, a->k[2], w));
  return node(sg ? O_FTOSI : O_FTOUI, w, 0, a);
}
E mkIToF(bool sg, E a, uint32_t fw) {
  if (a->isConst()) return mkConst(fpEval(sg ? O_SITOF : O_UITOF, fw, 0, a->c, nullptr));
  if (a->op == O_ZEXT) return mkIToF(false, a->k[0], fw);
  if (a->op == O_SEXT && sg) return mkIToF(true, a->k[0], fw);
  if (sg && a->w > 1 && nonNeg(a)) sg = false;
  if (a->op == O_CONCAT && isZero(a->k[0])) return mkIToF(false, a->k[1], fw);
  return node(sg ? O_SITOF : O_UITOF, fw, 0, a);
}
static E quiet(E x) { FFmt f = ffmt(x->w); return mkOr(x, mkConst(APInt(x->w, 1ULL << (f.mb - 1)))); }
E mkFTrunc(E a, uint32_t fw) {
  if (a->isConst()) return mkConst(fpEval(O_FTRUNC, fw, 0, a->c, nullptr));
  if (a->op == O_FEXT && a->k[0]->w == fw) return mkIte(mkFNaN(a->k[0]), quiet(a->k[0]), a->k[0]);
  if (a->op == O_FEXT && a->k[0]->w > fw) return mkFTrunc(a->k[0], fw);
  if (exactInt(a) && ((a->k[0]->w <= ffmt(fw).mb + 1 && fw != 16))) return mkIToF(a->op == O_SITOF, a->k[0], fw);
  if (a->op == O_ITE) return mkIte(a->k[0], mkFTrunc(a->k[1], fw), mkFTrunc(a->k[2], fw));
  return node(O_FTRUNC, fw, 0, a);
}
E mkFExt(E a, uint32_t fw) {
  if (a->isConst()) return mkConst(fpEval(O_FEXT, fw, 0, a->c, nullptr));
  if (a->op == O_FEXT) return mkFExt(a->k[0], fw);
  if (exactInt(a)) return mkIToF(a->op == O_SITOF, a->k[0], fw);
  if (a->op == O_ITE && (a->k[1]->isConst() || a->k[2]->isConst())) return node(O_ITE, fw, 0, a->k[0], mkFExt(a->k[1], fw), mkFExt(a->k[2], fw));
  return node(O_FEXT, fw, 0, a);
}

// ---------------------------------------------------------------- floating point, circuits
static E bit(E a, uint32_t i) { return mkExtract(a, i, 1); }
static E C(uint64_t v, uint32_t w) { return mkConst(APInt(w, v)); }
// shift left until the top bit is one (zero stays zero); amount gets the shift count (width aw)
static E normLeft(E a, uint32_t aw, E &amount) {
  uint32_t w = a->w; amount = zero(aw);
  uint32_t top = 1; while (top * 2 < w) top *= 2;
  for (uint32_t s = top; s >= 1; s /= 2) {
    if (s >= w) continue;
    E hiZero = mkEq(mkExtract(a, w - s, s), zero(s));
    a = mkIte(hiZero, mkShl(a, C(s, w)), a);
    amount = mkAdd(amount, mkIte(hiZero, C(s, aw), zero(aw)));
  }
  return a;
}
// logical right shift by n (any width), or-ing lost bits into the lsb
static E shrSticky(E a, E n) {
  uint32_t w = a->w; E sticky = zero(1);
  uint32_t nb = 0; while ((1u << nb) < w + 1) ++nb;
  for (uint32_t i = 0; i < nb && i < n->w; ++i) {
    uint32_t s = 1u << i; E on = bit(n, i);
    if (s >= w) { sticky = mkIte(on, mkOr(sticky, mkNot(mkEq(a, zero(w)))), sticky); a = mkIte(on, zero(w), a); }
    else { sticky = mkIte(on, mkOr(sticky, mkNot(mkEq(mkExtract(a, 0, s), zero(s)))), sticky); a = mkIte(on, mkLShr(a, C(s, w)), a); }
  }
  if (n->w > nb) { E big = mkNot(mkEq(mkExtract(n, nb, n->w - nb), zero(n->w - nb)));
    sticky = mkIte(big, mkOr(sticky, mkNot(mkEq(a, zero(w)))), sticky); a = mkIte(big, zero(w), a); }
  return mkOr(a, mkZExt(sticky, w));
}
static E packInf(E sign, uint32_t fw) { FFmt f = ffmt(fw); return mkConcat(sign, C(((1ULL << f.eb) - 1) << f.mb, fw - 1)); }
static E packZero(E sign, uint32_t fw) { return mkConcat(sign, zero(fw - 1)); }
static E qnan(uint32_t fw) { FFmt f = ffmt(fw); return C((((1ULL << f.eb) - 1) << f.mb) | (1ULL << (f.mb - 1)), fw); }

// exp: signed unbiased exponent of the top bit of sig; sig normalised (top bit one) and non-zero; lsb sticky
E roundPack(E sign, E exp, E sig, uint32_t fw, E) {
  FFmt f = ffmt(fw); uint32_t ew = exp->w; int bias = (1 << (f.eb - 1)) - 1;
  uint32_t need = f.mb + 3;
  if (sig->w < need) sig = mkConcat(sig, zero(need - sig->w));
  E emin = mkConst(APInt(ew, (uint64_t)(int64_t)(1 - bias), true));
  E sub = mkSlt(exp, emin);
  E dist = mkIte(sub, mkSub(emin, exp), zero(ew));
  E s = shrSticky(sig, dist);
  uint32_t W = s->w;
  E frac = mkExtract(s, W - 1 - f.mb, f.mb);
  E guard = bit(s, W - 2 - f.mb);
  E rest = mkNot(mkEq(mkExtract(s, 0, W - 2 - f.mb), zero(W - 2 - f.mb)));
  E inc = mkAnd(guard, mkOr(rest, bit(frac, 0)));
  E be = mkIte(sub, zero(f.eb), mkExtract(mkAdd(exp, mkConst(APInt(ew, bias))), 0, f.eb));
  E body = mkAdd(mkConcat(be, frac), mkZExt(inc, fw - 1));
  E over = mkSlt(mkConst(APInt(ew, bias)), exp);
  return mkConcat(sign, mkIte(over, C(((1ULL << f.eb) - 1) << f.mb, fw - 1), body));
}
struct Un { E sign, exp, sig, nan, inf, zero_; }; // sig: mb+1 bits normalised; exp width eb+ (extra)
static std::unordered_map<E, Un> unCache; // exact unpacked form of integer conversions
static E resizeS(E x, uint32_t w) { return x->w == w ? x : x->w > w ? mkExtract(x, 0, w) : mkSExt(x, w); }
static Un unpack(E a, uint32_t ew) {
  { auto it = unCache.find(a); if (it != unCache.end()) { Un u = it->second; u.exp = resizeS(u.exp, ew); return u; } }
  FFmt f = ffmt(a->w); int bias = (1 << (f.eb - 1)) - 1; Un u;
  u.sign = bit(a, a->w - 1);
  E be = mkExtract(a, f.mb, f.eb), fr = mkExtract(a, 0, f.mb);
  E ones = mkEq(be, mkConst(APInt::getAllOnes(f.eb))), ez = mkEq(be, zero(f.eb)), fz = mkEq(fr, zero(f.mb));
  u.nan = mkAnd(ones, mkNot(fz)); u.inf = mkAnd(ones, fz); u.zero_ = mkAnd(ez, fz);
  E amt; E ns = normLeft(mkConcat(zero(1), fr), ew, amt);
  u.sig = mkIte(ez, ns, mkConcat(C(1, 1), fr));
  E en = mkSub(mkZExt(be, ew), mkConst(APInt(ew, bias)));
  E es = mkSub(mkConst(APInt(ew, (uint64_t)(int64_t)(1 - bias), true)), amt);
  u.exp = mkIte(ez, es, en);
  return u;
}
// x * c as a sum of shifted copies (non-adjacent form)
static E mulConst(E x, const APInt &c0, uint32_t pw) {
  uint32_t tx = lowZeros(x), tc = c0.countr_zero(), t = tx + tc, W = pw - t;
  E xe = mkZExt(mkExtract(x, tx, x->w - tx), W); APInt c = c0.zext(pw + 2).lshr(tc); E r = zero(W); uint32_t sh = 0;
  while (!c.isZero()) {
    if (c[0]) { E term = mkShl(xe, C(sh, W)); if (c[1]) { r = mkSub(r, term); c += 1; } else { r = mkAdd(r, term); c -= 1; } }
    c = c.lshr(1); ++sh;
  }
  return t ? mkConcat(r, zero(t)) : r;
}
// long division of normalised significands: quotient with one integer and n fraction bits; sticky = remainder non-zero
static E divSig(E a, E d, uint32_t n, E &sticky) {
  uint32_t t = std::min(lowZeros(a), lowZeros(d)), w = a->w - t + 1; if (t >= a->w) { t = 0; w = a->w + 1; }
  E R = mkZExt(mkExtract(a, t, a->w - t), w), D = mkZExt(mkExtract(d, t, d->w - t), w); E q = nullptr;
  for (uint32_t i = 0; i <= n; ++i) {
    if (i) R = mkShl(R, C(1, w));
    E ge = mkNot(mkUlt(R, D)); q = q ? mkConcat(q, ge) : ge; R = mkIte(ge, mkSub(R, D), R);
  }
  sticky = mkNot(mkEq(R, zero(w))); return q;
}
E lowerFMul(E a, E b) {
  FFmt f = ffmt(a->w); uint32_t ew = f.eb + 4; Un x = unpack(a, ew), y = unpack(b, ew);
  E sign = mkXor(x.sign, y.sign); uint32_t pw = 2 * (f.mb + 1);
  if (x.sig->isConst()) std::swap(x.sig, y.sig); // only the product is used below
  E p = y.sig->isConst() ? mulConst(x.sig, y.sig->c, pw) : mkMul(mkZExt(x.sig, pw), mkZExt(y.sig, pw));
  E top = bit(p, pw - 1);
  E sig = mkIte(top, p, mkShl(p, C(1, pw)));
  E exp = mkAdd(mkAdd(x.exp, y.exp), mkZExt(top, ew));
  E r = roundPack(sign, exp, sig, a->w, nullptr);
  E nan = mkOr(mkOr(x.nan, y.nan), mkOr(mkAnd(x.inf, y.zero_), mkAnd(x.zero_, y.inf)));
  r = mkIte(mkOr(x.zero_, y.zero_), packZero(sign, a->w), r);
  r = mkIte(mkOr(x.inf, y.inf), packInf(sign, a->w), r);
  return mkIte(nan, qnan(a->w), r);
}
E lowerFDiv(E a, E b) {
  FFmt f = ffmt(a->w); uint32_t ew = f.eb + 4; Un x = unpack(a, ew), y = unpack(b, ew);
  E sign = mkXor(x.sign, y.sign); uint32_t q = f.mb + 4;
  E sticky; E qv = divSig(x.sig, y.sig, q, sticky);
  E top = bit(qv, q);
  E sig = mkIte(top, qv, mkShl(qv, C(1, q + 1)));
  sig = mkConcat(sig, sticky);
  E exp = mkSub(mkSub(x.exp, y.exp), mkZExt(mkNot(top), ew));
  E r = roundPack(sign, exp, sig, a->w, nullptr);
  E nan = mkOr(mkOr(x.nan, y.nan), mkOr(mkAnd(x.inf, y.inf), mkAnd(x.zero_, y.zero_)));
  r = mkIte(mkOr(x.zero_, y.inf), packZero(sign, a->w), r);
  r = mkIte(mkOr(x.inf, y.zero_), packInf(sign, a->w), r);
  return mkIte(nan, qnan(a->w), r);
}
E lowerFAdd(E a, E b) {
  uint32_t fw = a->w; FFmt f = ffmt(fw); uint32_t ew = f.eb + 3; int bias = (1 << (f.eb - 1)) - 1;
  // order by magnitude
  E ma = mkExtract(a, 0, fw - 1), mb_ = mkExtract(b, 0, fw - 1);
  E swap = mkUlt(ma, mb_);
  E x = mkIte(swap, b, a), y = mkIte(swap, a, b);
  auto parts = [&](E v, E &s, E &e, E &m, E &nan, E &inf) {
    s = bit(v, fw - 1); E be = mkExtract(v, f.mb, f.eb), fr = mkExtract(v, 0, f.mb);
    E ez = mkEq(be, zero(f.eb)), ones = mkEq(be, mkConst(APInt::getAllOnes(f.eb))), fz = mkEq(fr, zero(f.mb));
    nan = mkAnd(ones, mkNot(fz)); inf = mkAnd(ones, fz);
    e = mkIte(ez, C(1, ew), mkZExt(be, ew)); m = mkConcat(mkNot(ez), fr); };
  E sx, ex, mx, nx, ix, sy, ey, my, ny, iy; parts(x, sx, ex, mx, nx, ix); parts(y, sy, ey, my, ny, iy);
  uint32_t W = f.mb + 1 + 3 + 1;
  E X = mkConcat(zero(1), mkConcat(mx, zero(3))), Y = mkConcat(zero(1), shrSticky(mkConcat(my, zero(3)), mkSub(ex, ey)));
  E eff = mkXor(sx, sy);
  E sum = mkIte(eff, mkSub(X, Y), mkAdd(X, Y));
  E amt; E sig = normLeft(sum, ew, amt);
  E exp = mkSub(mkAdd(mkSub(ex, C(bias, ew)), C(1, ew)), amt);
  E r = roundPack(sx, exp, sig, fw, nullptr);
  E isz = mkEq(sum, zero(W));
  r = mkIte(isz, packZero(mkAnd(sx, sy), fw), r);
  r = mkIte(ix, packInf(sx, fw), r);
  E nan = mkOr(mkOr(nx, ny), mkAnd(mkAnd(ix, iy), eff));
  return mkIte(nan, qnan(fw), r);
}
E lowerFTrunc(E a, uint32_t fw) {
  FFmt f = ffmt(a->w); uint32_t ew = f.eb + 3; Un x = unpack(a, ew);
  E r = roundPack(x.sign, x.exp, x.sig, fw, nullptr);
  r = mkIte(x.zero_, packZero(x.sign, fw), r); r = mkIte(x.inf, packInf(x.sign, fw), r);
  FFmt g = ffmt(fw);
  E pl = mkExtract(a, f.mb - g.mb, g.mb); // payload, quieted
  E nan = mkConcat(x.sign, mkConcat(mkConst(APInt::getAllOnes(g.eb)), mkOr(pl, C(1ULL << (g.mb - 1), g.mb))));
  return mkIte(x.nan, nan, r);
}
E lowerFExt(E a, uint32_t fw) {
  FFmt f = ffmt(a->w), g = ffmt(fw); uint32_t ew = g.eb + 2; Un x = unpack(a, ew); int bias = (1 << (g.eb - 1)) - 1;
  E be = mkExtract(mkAdd(x.exp, C(bias, ew)), 0, g.eb);
  E fr = mkConcat(mkExtract(x.sig, 0, f.mb), zero(g.mb - f.mb));
  E r = mkConcat(x.sign, mkConcat(be, fr));
  r = mkIte(x.zero_, packZero(x.sign, fw), r); r = mkIte(x.inf, packInf(x.sign, fw), r);
  E nan = mkConcat(x.sign, mkConcat(mkConst(APInt::getAllOnes(g.eb)), mkOr(mkConcat(mkExtract(a, 0, f.mb), zero(g.mb - f.mb)), C(1ULL << (g.mb - 1), g.mb))));
  return mkIte(x.nan, nan, r);
}
E lowerIToF(bool sg, E a, uint32_t fw) {
  E sign = sg ? bit(a, a->w - 1) : zero(1);
  E mag = sg ? mkIte(sign, mkSub(zero(a->w), a), a) : a;
  FFmt f = ffmt(fw); uint32_t ew = f.eb + 3; { uint32_t n = 0; while ((1u << n) < a->w + 2) ++n; ew = std::max(ew, n + 2); }
  E amt; E sig = normLeft(mag, ew, amt);
  E exp = mkSub(C(a->w - 1, ew), amt);
  if (a->w <= f.mb + 1 && (int)a->w < (1 << (f.eb - 1))) { // exact and normal
    E fr = a->w == 1 ? nullptr : mkExtract(sig, 0, a->w - 1); if (a->w - 1 < f.mb) fr = fr ? mkConcat(fr, zero(f.mb + 1 - a->w)) : zero(f.mb);
    E be = mkExtract(mkAdd(exp, C((1 << (f.eb - 1)) - 1, ew)), 0, f.eb);
    E isz = mkEq(a, zero(a->w)), r = mkIte(isz, zero(fw), mkConcat(sign, mkConcat(be, fr)));
    if (!r->isConst()) { Un u; u.sign = sign; u.exp = exp; u.sig = mkConcat(mkIte(isz, C(1, 1), C(1, 1)), fr); u.nan = u.inf = zero(1); u.zero_ = isz; unCache.emplace(r, u); }
    return r;
  }
  E r = roundPack(sign, exp, sig, fw, nullptr);
  return mkIte(mkEq(a, zero(a->w)), zero(fw), r);
}
E lowerFRnd(E a, RM m) {
  uint32_t fw = a->w; FFmt f = ffmt(fw); int bias = (1 << (f.eb - 1)) - 1;
  E sign = bit(a, fw - 1), be = mkExtract(a, f.mb, f.eb), mag = mkExtract(a, 0, fw - 1);
  E big = mkNot(mkUlt(be, C(bias + f.mb, f.eb)));          // already integral, inf or nan
  E small = mkUlt(be, C(bias, f.eb));                       // |x| < 1
  E isz = mkEq(mag, zero(fw - 1));
  E one = C((uint64_t)bias << f.mb, fw - 1), half = C((uint64_t)(bias - 1) << f.mb, fw - 1), z = zero(fw - 1);
  E smallMag;
  switch (m) {
    case RM_NE: smallMag = mkIte(mkUlt(half, mag), one, z); break;
    case RM_NA: smallMag = mkIte(mkUlt(mag, half), z, one); break;
    case RM_TZ: smallMag = z; break;
    case RM_UP: smallMag = mkIte(mkOr(sign, isz), z, one); break;
    default: smallMag = mkIte(mkOr(mkNot(sign), isz), z, one); break;
  }
  // general: number of fraction bits n = mb - (be - bias), 1..mb
  E n = mkSub(C(bias + f.mb, f.eb), be);
  uint32_t mw = f.mb + 1;
  E nn = f.eb >= mw ? mkExtract(n, 0, mw) : mkZExt(n, mw);
  E low = mkSub(mkShl(C(1, mw), nn), C(1, mw));            // n low bits set
  E lowW = mkZExt(low, fw - 1);
  E hbit = mkZExt(mkXor(low, mkLShr(low, C(1, mw))), fw - 1);
  E addend;
  switch (m) {
    case RM_NE: { E lsbSet = mkNot(mkEq(mkAnd(mag, mkAdd(lowW, C(1, fw - 1))), z)); addend = mkAdd(mkSub(hbit, C(1, fw - 1)), mkZExt(lsbSet, fw - 1)); } break;
    case RM_NA: addend = hbit; break;
    case RM_TZ: addend = z; break;
    case RM_UP: addend = mkIte(sign, z, lowW); break;
    default: addend = mkIte(sign, lowW, z); break;
  }
  E gen = mkAnd(mkAdd(mag, addend), mkNot(lowW));
  E r = mkIte(big, mag, mkIte(small, smallMag, gen));
  E res = mkConcat(sign, r);
  return mkIte(mkFNaN(a), mkOr(a, C(1ULL << (f.mb - 1), fw)), res);
}
E lowerFToI(bool sg, E a, uint32_t w) {
  uint32_t fw = a->w; FFmt f = ffmt(fw); int bias = (1 << (f.eb - 1)) - 1;
  E sign = bit(a, fw - 1), be = mkExtract(a, f.mb, f.eb);
  E ez = mkEq(be, zero(f.eb));
  uint32_t W = std::max<uint32_t>(w, f.mb + 1);
  { uint32_t n = f.eb; while ((1ULL << W) - 1 < (1ULL << n) - 1 && W < 64) ++W; }
  E sig = mkZExt(mkConcat(mkNot(ez), mkExtract(a, 0, f.mb)), W);
  E bw = mkZExt(be, W);
  E K = C(bias + f.mb, W);
  E right = mkLShr(sig, mkSub(K, bw)), left = mkShl(sig, mkSub(bw, K));
  E v = mkIte(mkUlt(be, C(bias, f.eb)), zero(W), mkIte(mkUlt(bw, K), right, left));
  v = mkExtract(v, 0, w);
  v = mkIte(sign, mkSub(zero(w), v), v);
  // invalid conversions evaluate to 0 (callers guard the range with a fresh value)
  return v;
}
static std::unordered_map<uint32_t, E> lowMemo;
E lowerFP(E e) {
  if (!e->hasFP) return e;

  auto it = lowMemo.find(e->id); if (it != lowMemo.end()) return it->second;
  // iterative depth is fine: expression depth is moderate; recursion guarded by big stack
  E k[3] = {nullptr, nullptr, nullptr};
  for (int i = 0; i < e->nk; ++i) k[i] = lowerFP(e->k[i]);
  E r;
  switch (e->op) {
    case O_FADD: r = lowerFAdd(k[0], k[1]); break;
    case O_FSUB: r = lowerFAdd(k[0], mkIte(mkFNaN(k[1]), k[1], fneg(k[1]))); break;
    case O_FMUL: r = lowerFMul(k[0], k[1]); break;
    case O_FDIV: r = lowerFDiv(k[0], k[1]); break;
    case O_FRND: r = lowerFRnd(k[0], (RM)e->p0); break;
    case O_FTOSI: case O_FTOUI: r = lowerFToI(e->op == O_FTOSI, k[0], e->w); break;
    case O_SITOF: case O_UITOF: r = lowerIToF(e->op == O_SITOF, k[0], e->w); break;
    case O_FTRUNC: r = lowerFTrunc(k[0], e->w); break;
    case O_FLT: case O_FEQ: r = bitCmp(k[0], k[1], e->op == O_FLT); break;
    case O_FEXT: r = lowerFExt(k[0], e->w); break;
    default: r = rebuild(e->op, e->w, e->p0, k[0], k[1], k[2]);
  }
  lowMemo.emplace(e->id, r);
  return r;
}
E rebuild(Op op, uint32_t w, uint32_t p0, E a, E b, E c) {
  switch (op) {
    case O_ADD: return mkAdd(a, b); case O_SUB: return mkSub(a, b); case O_MUL: return mkMul(a, b);
    case O_UDIV: return mkUDiv(a, b); case O_SDIV: return mkSDiv(a, b); case O_UREM: return mkURem(a, b); case O_SREM: return mkSRem(a, b);
    case O_AND: return mkAnd(a, b); case O_OR: return mkOr(a, b); case O_XOR: return mkXor(a, b);
    case O_SHL: return mkShl(a, b); case O_LSHR: return mkLShr(a, b); case O_ASHR: return mkAShr(a, b);
    case O_CONCAT: return mkConcat(a, b); case O_EXTRACT: return mkExtract(a, p0, w);
    case O_ZEXT: return mkZExt(a, w); case O_SEXT: return mkSExt(a, w); case O_ITE: return mkIte(a, b, c);
    case O_EQ: return mkEq(a, b); case O_ULT: return mkUlt(a, b); case O_SLT: return mkSlt(a, b);
    case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: return mkFArith(op, a, b);
    case O_FSQRT: return mkFSqrt(a); case O_FRND: return mkFRnd(a, (RM)p0);
    case O_FTOSI: return mkFToI(true, a, w); case O_FTOUI: return mkFToI(false, a, w);
    case O_SITOF: return mkIToF(true, a, w); case O_UITOF: return mkIToF(false, a, w);
    case O_FLT: return mkFLt(a, b); case O_FEQ: return mkFEq(a, b);
    case O_FTRUNC: return mkFTrunc(a, w); case O_FEXT: return mkFExt(a, w);
    default: fprintf(stderr, "rebuild %d\n", op); abort();
  }
}
E substVars(E e, const std::unordered_map<uint32_t, E> &m) {
  std::unordered_map<uint32_t, E> memo;
  std::vector<std::pair<E, bool>> st{{e, false}};
  while (!st.empty()) {
    auto [x, done] = st.back(); st.pop_back();
    if (memo.count(x->id)) continue;
    if (!x->hasVar) { memo[x->id] = x; continue; }
    if (x->op == O_VAR) { auto it = m.find(x->p0); memo[x->id] = it == m.end() ? x : it->second; continue; }
    if (!done) { st.push_back({x, true}); for (int i = 0; i < x->nk; ++i) if (!memo.count(x->k[i]->id)) st.push_back({x->k[i], false}); continue; }
    E k[3] = {nullptr, nullptr, nullptr}; bool ch = false;
    for (int i = 0; i < x->nk; ++i) { k[i] = memo[x->k[i]->id]; ch |= k[i] != x->k[i]; }
    memo[x->id] = ch ? rebuild(x->op, x->w, x->p0, k[0], k[1], k[2]) : x;
  }
  return memo[e->id];
}

// ---------------------------------------------------------------- evaluation
static std::unordered_map<std::string, const std::vector<uint32_t> *> varSets;
const std::vector<uint32_t> &exprVars(E e) {
  if (e->vars) return *e->vars;
  std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back();
    if (x->vars) { st.pop_back(); continue; }
    bool ready = true;
    for (int i = 0; i < x->nk; ++i) if (!x->k[i]->vars) { st.push_back(x->k[i]); ready = false; }
    if (!ready) continue;
    st.pop_back();
    const std::vector<uint32_t> *r = nullptr;
    if (x->op == O_VAR) r = new std::vector<uint32_t>{x->p0};
    else if (x->nk == 0) { static std::vector<uint32_t> none; r = &none; }
    else {
      r = x->k[0]->vars;
      for (int i = 1; i < x->nk; ++i) { auto b = x->k[i]->vars; if (b == r || b->empty()) continue; if (r->empty()) { r = b; continue; }
        std::vector<uint32_t> u; std::set_union(r->begin(), r->end(), b->begin(), b->end(), std::back_inserter(u));
        if (u.size() == r->size()) continue; if (u.size() == b->size()) { r = b; continue; }
        std::string key((char *)u.data(), u.size() * 4); auto &slot = varSets[key]; if (!slot) slot = new std::vector<uint32_t>(u); r = slot; }
    }
    x->vars = r;
  }
  return *e->vars;
}
static void evalNode(E e, const Model &m) {
  auto &K = e->k;
  auto a = [&]() -> const APInt & { return K[0]->evalV; };
  auto b = [&]() -> const APInt & { return K[1]->evalV; };
  APInt r(1, 0);
  switch (e->op) {
    case O_VAR: r = e->p0 < m.v.size() && m.v[e->p0].getBitWidth() == e->w ? m.v[e->p0] : APInt(e->w, 0); break;
    case O_ADD: r = a() + b(); break; case O_SUB: r = a() - b(); break; case O_MUL: r = a() * b(); break;
    case O_UDIV: r = b().isZero() ? APInt::getAllOnes(e->w) : a().udiv(b()); break;
    case O_SDIV: r = b().isZero() ? (a().isNegative() ? APInt(e->w, 1) : APInt::getAllOnes(e->w)) : a().sdiv(b()); break;
    case O_UREM: r = b().isZero() ? a() : a().urem(b()); break;
    case O_SREM: r = b().isZero() ? a() : a().srem(b()); break;
    case O_AND: r = a() & b(); break; case O_OR: r = a() | b(); break; case O_XOR: r = a() ^ b(); break;
    case O_SHL: r = b().uge(e->w) ? APInt(e->w, 0) : a().shl(b()); break;
    case O_LSHR: r = b().uge(e->w) ? APInt(e->w, 0) : a().lshr(b()); break;
    case O_ASHR: r = b().uge(e->w) ? (a().isNegative() ? APInt::getAllOnes(e->w) : APInt(e->w, 0)) : a().ashr(b()); break;
    case O_CONCAT: r = b().zext(e->w); r.insertBits(a(), K[1]->w); break;
    case O_EXTRACT: r = a().extractBits(e->w, e->p0); break;
    case O_ZEXT: r = a().zext(e->w); break; case O_SEXT: r = a().sext(e->w); break;
    case O_ITE: r = a().isZero() ? K[2]->evalV : b(); break;
    case O_EQ: r = APInt(1, a() == b()); break; case O_ULT: r = APInt(1, a().ult(b())); break; case O_SLT: r = APInt(1, a().slt(b())); break;
    case O_FSQRT: r = APInt(e->w, 0); break;
    case O_FLT: r = APInt(1, toF(a()).compare(toF(b())) == APFloat::cmpLessThan); break;
    case O_FEQ: r = APInt(1, toF(a()).compare(toF(b())) == APFloat::cmpEqual); break;
    default: r = fpEval(e->op, e->w, e->p0, a(), e->nk > 1 ? &b() : nullptr);
  }
  e->evalV = r; e->evalId = m.id;
}
APInt evalExpr(E e, const Model &m) {
  if (e->isConst()) return e->c;
  if (e->evalId == m.id) return e->evalV;
  static std::vector<E> st; size_t base = st.size(); st.push_back(e);
  while (st.size() > base) {
    E x = st.back();
    if (x->evalId == m.id) { st.pop_back(); continue; }
    if (x->isConst()) { x->evalV = x->c; x->evalId = m.id; st.pop_back(); continue; }
    bool ready = true;
    if (x->op == O_ITE) { // evaluate lazily
      E c = x->k[0];
      if (c->evalId != m.id) { st.push_back(c); continue; }
      E s = c->evalV.isZero() ? x->k[2] : x->k[1];
      if (s->evalId != m.id) { st.push_back(s); continue; }
      x->evalV = s->evalV; x->evalId = m.id; st.pop_back(); continue;
    }
    for (int i = 0; i < x->nk; ++i) if (x->k[i]->evalId != m.id) { st.push_back(x->k[i]); ready = false; }
    if (!ready) continue;
    st.pop_back(); evalNode(x, m);
  }
  return e->evalV;
}
uint64_t exprSize(E e) {
  std::unordered_set<uint32_t> seen; std::vector<E> st{e}; uint64_t n = 0;
  while (!st.empty()) { E x = st.back(); st.pop_back(); if (!seen.insert(x->id).second) continue; ++n; for (int i = 0; i < x->nk; ++i) st.push_back(x->k[i]); }
  return n;
}
static const char *opn[] = {"const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "concat", "extract", "zext", "sext", "ite", "eq", "ult", "slt",
  "fadd", "fsub", "fmul", "fdiv", "fsqrt", "frnd", "ftosi", "ftoui", "sitof", "uitof", "ftrunc", "fext", "flt", "feq"};
std::string exprStr(E e, int d) {
  if (e->isConst()) { llvm::SmallString<40> s; e->c.toStringUnsigned(s, 16); return "0x" + std::string(s.str()) + ":" + std::to_string(e->w); }
  if (e->op == O_VAR) return gVars[e->p0].name;
  if (d == 0) return "..";
  std::string s = std::string("(") + opn[e->op];
  if (e->op == O_EXTRACT) s += "[" + std::to_string(e->p0 + e->w - 1) + ":" + std::to_string(e->p0) + "]";
  else if (e->op == O_ZEXT || e->op == O_SEXT || e->op >= O_FADD) s += "." + std::to_string(e->w);
  for (int i = 0; i < e->nk; ++i) s += " " + exprStr(e->k[i], d - 1);
  return s + ")";
}
