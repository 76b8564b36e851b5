// Hash-consed bit-vector / IEEE expression DAG with a local simplifier.
#pragma once
#include <llvm/ADT/APInt.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
using llvm::APInt;

enum Op : uint8_t {
  O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR,
  O_SHL, O_LSHR, O_ASHR, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT, O_ITE, O_EQ, O_ULT, O_SLT,
  // IEEE operations on bit patterns (width = format). p0: rounding mode or source width.
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FSQRT, O_FRND, O_FTOSI, O_FTOUI, O_SITOF, O_UITOF, O_FTRUNC, O_FEXT,
  O_FLT, O_FEQ // ordered comparisons (width 1)
};
enum RM { RM_NE, RM_NA, RM_TZ, RM_UP, RM_DN };

struct Model;
struct Expr {
  Op op; uint8_t nk; bool hasFP; bool hasVar; bool hard; // hasFP: needs lowering; hard: contains floating-point arithmetic
  uint32_t w, p0, id;
  const Expr *k[3];
  APInt c;                    // CONST
  uint64_t umin, umax;        // unsigned range (w <= 64)
  mutable uint64_t evalId = 0;
  mutable APInt evalV;
  mutable const std::vector<uint32_t> *vars = nullptr;
  bool isConst() const { return op == O_CONST; }
  uint64_t u64() const { return c.getZExtValue(); }
};
typedef const Expr *E;

struct Model {
  uint64_t id;
  std::vector<APInt> v;       // by var number; missing = 0
  static uint64_t next() { static uint64_t n = 0; return ++n; }
};
typedef std::shared_ptr<Model> ModelP;

struct VarInfo { std::string name; uint32_t w; E e; };
extern std::vector<VarInfo> gVars;
extern uint64_t gExprCount;

E mkConst(const APInt &v);
E mkConst(uint64_t v, uint32_t w);
E mkVar(const std::string &name, uint32_t w);
E mkAdd(E a, E b); E mkSub(E a, E b); E mkMul(E a, E b);
E mkUDiv(E a, E b); E mkSDiv(E a, E b); E mkURem(E a, E b); E mkSRem(E a, E b);
E mkAnd(E a, E b); E mkOr(E a, E b); E mkXor(E a, E b); E mkNot(E a);
E mkShl(E a, E b); E mkLShr(E a, E b); E mkAShr(E a, E b);
E mkConcat(E hi, E lo); E mkExtract(E a, uint32_t lo, uint32_t w);
E mkZExt(E a, uint32_t w); E mkSExt(E a, uint32_t w);
E mkIte(E c, E a, E b);
E mkEq(E a, E b); E mkUlt(E a, E b); E mkSlt(E a, E b);
inline E mkUle(E a, E b) { return mkNot(mkUlt(b, a)); }
inline E mkSle(E a, E b) { return mkNot(mkSlt(b, a)); }
inline E mkTrue() { return mkConst(1, 1); }
inline E mkFalse() { return mkConst(0, 1); }
// floating point
E mkFArith(Op op, E a, E b);
E mkFSqrt(E a);
E mkFRnd(E a, RM m);
E mkFToI(bool sgn, E a, uint32_t w);
E mkIToF(bool sgn, E a, uint32_t fw);
E mkFTrunc(E a, uint32_t fw); E mkFExt(E a, uint32_t fw);
E mkFNaN(E a);
E mkFLt(E a, E b);   // ordered
E mkFEq(E a, E b);   // ordered
E mkFLe(E a, E b);
E lowerFExt(E a, uint32_t fw);   // explicit bit-vector circuit
E lowerIToF(bool sgn, E a, uint32_t fw);
E lowerFRnd(E a, RM m);
E lowerFToI(bool sgn, E a, uint32_t w);
E lowerFTrunc(E a, uint32_t fw);

E nanOf(E r);        // x when r is mkFNaN(x)
const std::vector<uint32_t> &exprVars(E e);
APInt evalExpr(E e, const Model &m);
inline bool evalBool(E e, const Model &m) { return evalExpr(e, m)[0]; }
std::string exprStr(E e, int depth = 6);
uint64_t exprSize(E e);
E rebuild(Op op, uint32_t w, uint32_t p0, E a, E b, E c);
E substVars(E e, const std::unordered_map<uint32_t, E> &m);
E fpConcreteOp(Op op, uint32_t w, uint32_t p0, const APInt *a, const APInt *b, APInt &out);
struct LowerTimeout {}; extern double gLowerUntil; // lowerFP gives up then
E lowerFP(E e);   // replace FEXT/IToF/FRND/FToI/FTRUNC nodes by bit-vector circuits
E lowerFPArith(E e); // also arithmetic
E lowerFMul(E a, E b); E lowerFAdd(E a, E b); E lowerFDiv(E a, E b);
E roundPack(E sign, E exp, E sig, uint32_t fw, E sticky);
E normShiftLeft(E a, E &amount);
E fpIsZero(E a);
E fpIsInf(E a);
struct FFmt { uint32_t w, eb, mb; };
inline FFmt ffmt(uint32_t w) { return w == 16 ? FFmt{16, 5, 10} : w == 32 ? FFmt{32, 8, 23} : FFmt{64, 11, 52}; }
