// Symbolic executor for LLVM IR: explores every feasible path of a harness entry point.
#include "solver.hpp"
#include <llvm/ADT/APSInt.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/PassManager.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Analysis/PostDominators.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <functional>
#include <csignal>
#include <cstring>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <pthread.h>

using namespace llvm;
typedef uint64_t u64;

// ------------------------------------------------------------------ values
struct Agg;
struct Val {
  E e = nullptr; const Agg *agg = nullptr; u64 c = 0; uint32_t w = 0;
  bool sym() const { return e != nullptr; }
  E ex() const { return e ? e : mkConst(c, w); }
};
struct Agg { std::vector<Val> v; };
static inline u64 maskw(uint32_t w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline Val cv(u64 c, uint32_t w) { Val v; v.c = c & maskw(w); v.w = w; return v; }
static inline Val ev(E e) { Val v; v.w = e->w; if (e->isConst() && e->w <= 64) v.c = e->c.getZExtValue(); else v.e = e; return v; }
static Val av(std::vector<Val> &&x) { Val v; v.agg = new Agg{std::move(x)}; return v; }
static Val apv(const APInt &a) { return a.getBitWidth() <= 64 ? cv(a.getZExtValue(), a.getBitWidth()) : ev(mkConst(a)); }
static inline bool wideConst(const Val &v) { return v.e && v.e->isConst(); }

// ------------------------------------------------------------------ memory
enum Kind : uint8_t { K_GLOBAL, K_STACK, K_NEW, K_NEWARR, K_MALLOC };
struct Obj {
  uint32_t rc = 0, size = 0; Kind kind = K_STACK; bool dead = false, ro = false; uint8_t gen = 0;
  std::vector<uint8_t> d; std::vector<E> s; std::vector<uint8_t> u;   // bytes, symbolic bytes, undefined flags
  std::string name;
};
struct ObjP {
  Obj *p = nullptr;
  ObjP() {} ObjP(Obj *o) : p(o) { if (p) ++p->rc; } ObjP(const ObjP &o) : p(o.p) { if (p) ++p->rc; }
  ObjP(ObjP &&o) noexcept : p(o.p) { o.p = nullptr; }
  ~ObjP() { if (p && --p->rc == 0) delete p; }
  ObjP &operator=(ObjP o) { std::swap(p, o.p); return *this; }
  Obj *operator->() const { return p; } explicit operator bool() const { return p; }
};
static const u64 OFF0 = 0x10000000ULL;
static inline u64 mkAddr(u64 slot, u64 gen) { return (slot << 40) | (gen << 32) | OFF0; }
static const u64 FNBASE = 1ULL << 63;

struct Fn;
struct Opnd { int reg; int cst; };
struct Frame {
  Fn *fn; int bb = 0, ip = 0, prev = -1; std::vector<Val> r; std::vector<uint32_t> allocas; const void *site = nullptr; int dst = -1;
  std::vector<Val> va;
};
struct SymRec { std::string name; std::vector<E> chunks; };
struct State {
  std::vector<Frame> fr;
  std::vector<ObjP> slots; std::vector<uint8_t> gens; std::vector<uint32_t> freeSlots;
  std::vector<E> cs; std::unordered_map<uint32_t, bool> known; ModelP model;
  std::vector<SymRec> syms; std::map<std::string, int> names; int undefCount = 0;
  std::vector<std::string> covers; std::vector<std::string> trace;
  u64 insts = 0; int depth = 0;
};
struct PathEnd { std::string kind, msg; };   // kind empty: silently end

// ------------------------------------------------------------------ compiled functions
struct Inst { const Instruction *I; unsigned op; int dst; std::vector<int> o; uint32_t w; u64 imm; Fn *callee; int intr; std::vector<std::pair<int, u64>> gep; std::vector<int> bbs; };
struct BB { std::vector<Inst> in; const BasicBlock *b; std::vector<std::pair<int, std::vector<std::pair<int, int>>>> phis; }; // dst, (pred, operand)
struct Fn {
  const Function *F; bool compiled = false; int nregs = 0; std::vector<BB> bb; std::string name, pretty; int builtin = -1; bool isHash = false; bool seen = false; u64 addr = 0; bool repo = false;
  std::vector<Val> consts;
};

static LLVMContext *Ctx; static Module *M; static const DataLayout *DL;
static std::unordered_map<const Function *, Fn *> fns; static std::vector<Fn *> fnByIdx;
static std::unordered_map<const GlobalVariable *, u64> gaddr;
static std::vector<State *> work;
static State *S;                      // current state
static const Inst *curI;

struct JobCfg { std::string id, entry; std::vector<long> params; double timeout = 60; bool realHash = false, merge = false, forkAddr = false; // forkAddr: fork on symbolic addresses into writable objects and on conditions that become 64-bit numbers
  u64 maxInsts = 30000000ULL; u64 maxPaths = 1u << 30; };
static JobCfg job;
struct Viol { std::string kind, msg, where; json::Array model; u64 count = 1; bool finding = false; };
static std::map<std::string, Viol> viols; static std::map<std::string, u64> coverCount; static std::map<std::string, u64> undecided; static std::set<std::string> functionsUsed;
static std::vector<json::Value> traces;
static u64 nPaths = 0, nForks = 0, nInsts = 0, nAsserts = 0, nAssertsConst = 0, nErrPaths = 0, nAssumeDead = 0, nUBChecks = 0; static bool incomplete = false; static std::string incompleteWhy;

static std::string where() {
  std::string s; int n = 0;
  for (int i = (int)S->fr.size() - 1; i >= 0 && n < 7; --i) {
    auto &f = S->fr[i]; const Instruction *I = nullptr;
    if (i == (int)S->fr.size() - 1) I = curI ? curI->I : nullptr; else I = (const Instruction *)S->fr[i + 1].site;
    std::string loc = f.fn->pretty; { size_t p = loc.find('('); if (p != std::string::npos && p > 0) loc = loc.substr(0, p); if (loc.size() > 60) loc = loc.substr(0, 57) + "..."; }
    if (I) if (auto d = I->getDebugLoc()) { auto fn = d->getFilename(); loc += " " + fn.substr(fn.rfind('/') == StringRef::npos ? 0 : fn.rfind('/') + 1).str() + ":" + std::to_string(d.getLine());
      if (auto ia = d->getInlinedAt()) { const DILocation *L = ia; while (L->getInlinedAt()) L = L->getInlinedAt(); auto g = L->getFilename(); loc += " (in " + g.substr(g.rfind('/') == StringRef::npos ? 0 : g.rfind('/') + 1).str() + ":" + std::to_string(L->getLine()) + ")"; } }
    if (!s.empty()) s += " < "; s += loc; ++n;
  }
  return s;
}
static json::Array modelJson(State &st, const Model &m) {
  json::Array a;
  for (auto &r : st.syms) {
    std::string hex; char b[4];
    for (auto c : r.chunks) { APInt v = evalExpr(c, m); for (uint32_t i = 0; i < c->w; i += 8) { snprintf(b, sizeof b, "%02x", (unsigned)v.extractBitsAsZExtValue(8, i)); hex += b; } }
    a.push_back(json::Object{{"name", r.name}, {"hex", hex}});
  }
  return a;
}
// what is found so far, in case the process does not get to the end
static std::string partialPath;
static void partial() {
  if (partialPath.empty()) return; json::Array va; bool real = false; for (auto &v : viols) { real |= !v.second.finding; json::Array mo = v.second.model; va.push_back(json::Object{{"kind", v.second.kind}, {"msg", v.second.msg}, {"where", v.second.where}, {"count", (int64_t)v.second.count}, {"finding", v.second.finding}, {"model", std::move(mo)}}); }
  json::Object o; o["id"] = job.id; o["entry"] = job.entry; o["status"] = real ? "violation" : "undecided"; o["why"] = "engine process ended early (time or memory limit)"; o["violations"] = std::move(va);
  std::error_code EC; { raw_fd_ostream os(partialPath + ".part", EC); os << json::Value(std::move(o)); } rename((partialPath + ".part").c_str(), partialPath.c_str());
}
static void report(const std::string &kind, const std::string &msg, const Model &m, bool finding = false) {
  std::string w = where(); std::string key = kind + "|" + msg + (kind == "assert" || finding ? "" : "|" + w);
  auto it = viols.find(key); if (it != viols.end()) { ++it->second.count; return; }
  Viol v; v.kind = kind; v.msg = msg; v.where = w; v.model = modelJson(*S, m); v.finding = finding; viols.emplace(key, std::move(v)); partial();
}
static void undec(const std::string &what) { ++undecided[what]; }

static void addC(State &st, E c) {
  if (c->isConst()) return;
  if (c->op == O_AND) { addC(st, c->k[0]); addC(st, c->k[1]); return; }
  if (st.known.count(c->id)) return;
  st.cs.push_back(c); st.known[c->id] = true;
  st.known[mkNot(c)->id] = false;
  if (c->op == O_XOR && c->k[0]->op == O_OR) { addC(st, mkNot(c->k[0]->k[0])); addC(st, mkNot(c->k[0]->k[1])); }
}
static int knownVal(E c) { auto it = S->known.find(c->id); return it == S->known.end() ? -1 : it->second; }

// decide a condition on the current path; forks when both outcomes are possible (the other state re-executes this instruction)
static bool decide(E c, const char *what = "branch") {
  if (c->isConst()) return !c->c.isZero();
  int k = knownVal(c); if (k >= 0) return k;
  bool v = evalBool(c, *S->model);
  E taken = v ? c : mkNot(c), other = mkNot(taken);
  ModelP om; Res r = solve(S->cs, other, S->model, &om);
  if (r == R_SAT) {
    State *n = new State(*S); n->model = om; ++n->depth; addC(*n, other); work.push_back(n); ++nForks;
  } else if (r == R_UNKNOWN) { incomplete = true; incompleteWhy = "branch query undecided"; undec(std::string("branch at ") + where()); }
  ++S->depth;
  addC(*S, taken);
  return v;
}
static u64 concretize(const Val &v, const char *what) {
  if (!v.e) return v.c;
  APInt x = evalExpr(v.e, *S->model);
  while (true) { if (decide(mkEq(v.e, mkConst(x)), what)) return x.getZExtValue(); x = evalExpr(v.e, *S->model); }
}
static E freshUndef(uint32_t w) {
  static std::map<std::pair<int, uint32_t>, E> memo; auto key = std::make_pair(S->undefCount++, w);
  auto it = memo.find(key); if (it != memo.end()) return it->second;
  E e = mkVar("undef" + std::to_string(key.first), w); memo[key] = e; return e;
}
static E namedVar(const std::string &name, uint32_t w) {
  static std::map<std::pair<std::string, uint32_t>, E> memo; auto key = std::make_pair(name, w);
  auto it = memo.find(key); if (it != memo.end()) return it->second;
  E e = mkVar(name, w); memo[key] = e; return e;
}

// ------------------------------------------------------------------ memory access
static uint32_t newObj(u64 size, Kind k, const std::string &name, bool undef) {
  if (size > (64u << 20)) throw PathEnd{"memory", "allocation of " + std::to_string(size) + " bytes"};
  uint32_t slot;
  if (!S->freeSlots.empty()) { slot = S->freeSlots.back(); S->freeSlots.pop_back(); ++S->gens[slot]; }
  else { slot = S->slots.size(); S->slots.emplace_back(); S->gens.push_back(0); }
  Obj *o = new Obj; o->size = size; o->kind = k; o->name = name; o->d.assign(size, 0); o->gen = S->gens[slot]; if (undef) o->u.assign(size, 1);
  S->slots[slot] = ObjP(o);
  return slot;
}
static void freeSlot(uint32_t slot) { S->slots[slot] = ObjP(); S->freeSlots.push_back(slot); }
static Obj *find(u64 addr, uint32_t &slot) {
  if (addr & FNBASE) return nullptr;
  slot = addr >> 40; if (slot >= S->slots.size()) return nullptr;
  Obj *o = S->slots[slot].p; if (!o || o->gen != (uint8_t)(addr >> 32)) return nullptr;
  return o;
}
static Obj *wr(uint32_t slot) { ObjP &p = S->slots[slot]; if (p->rc > 1) { Obj *n = new Obj(*p.p); n->rc = 0; p = ObjP(n); } return p.p; }
static std::string memMsg(u64 a, u64 n, const char *acc, Obj *o) {
  char b[64]; std::string s = std::string(acc) + " of " + std::to_string(n) + " bytes ";
  if (a < 4096) { snprintf(b, sizeof b, "at null+%llu", (unsigned long long)a); return s + b; }
  if (!o) return s + "through a dangling or wild pointer";
  if (o->dead) return s + "after the end of the lifetime of " + o->name;
  snprintf(b, sizeof b, "at offset %lld of ", (long long)((a & 0xffffffffULL) - OFF0));
  return s + b + o->name + " of size " + std::to_string(o->size);
}
// resolves an access; returns slot and offset (concrete or symbolic)
struct Loc { uint32_t slot; Obj *o; bool sym; u64 off; E offE; };
static Loc resolve(const Val &a, u64 n, const char *acc) {
  Loc L; L.sym = false; L.offE = nullptr;
  if (!a.e) {
    L.o = find(a.c, L.slot); L.off = (a.c & 0xffffffffULL) - OFF0;
    if (!L.o || L.o->dead || L.off > L.o->size || n > L.o->size - L.off) throw PathEnd{"memory", memMsg(a.c, n, acc, L.o)};
    return L;
  }
  u64 v = evalExpr(a.e, *S->model).getZExtValue();
  L.o = find(v, L.slot); u64 off = (v & 0xffffffffULL) - OFF0;
  bool ok = L.o && !L.o->dead && off <= L.o->size && n <= L.o->size - off;
  if (!ok) { // confirm the whole path condition picks this: report with the current model
    throw PathEnd{"memory", memMsg(v, n, acc, L.o)};
  }
  u64 base = mkAddr(L.slot, L.o->gen);
  L.offE = mkSub(a.e, mkConst(base, 64)); L.sym = true;
  E in = mkUle(L.offE, mkConst(L.o->size - n, 64));
  if (!decide(in, "pointer")) { // model said in range, so this cannot happen
    throw PathEnd{"internal", "resolve"};
  }
  if (!L.offE->isConst() && job.forkAddr && !L.o->ro) { L.off = concretize(ev(L.offE), "offset"); L.sym = false; return L; }
  if (L.offE->isConst()) { L.sym = false; L.off = L.offE->u64(); }
  return L;
}
struct Cell { uint8_t c; bool undef; E e; };
static Cell cellAt(Obj *o, u64 i) { Cell c; c.c = o->d[i]; c.e = o->s.empty() ? nullptr : o->s[i]; c.undef = !o->u.empty() && o->u[i]; return c; }
static void setCell(Obj *o, u64 i, const Cell &c) {
  if (c.e && o->s.empty()) o->s.assign(o->size, nullptr);
  if (c.undef && o->u.empty()) o->u.assign(o->size, 0);
  o->d[i] = c.c; if (!o->s.empty()) o->s[i] = c.e; if (!o->u.empty()) o->u[i] = c.undef;
}
static E cellE(const Cell &c) { return c.undef ? freshUndef(8) : c.e ? c.e : mkConst(c.c, 8); }
static E bytesToE(Obj *o, u64 off, u64 n) {
  E r = nullptr;
  for (u64 i = 0; i < n; ++i) { E b = cellE(cellAt(o, off + i)); r = r ? mkConcat(b, r) : b; }
  return r;
}
static std::vector<u64> candidates(E off, u64 limit) { // possible concrete offsets 0..limit
  std::vector<u64> r; u64 lo = std::max<u64>(0, off->umin), hi = std::min<u64>(limit, off->umax);
  for (u64 k = lo; k <= hi; ++k) { E c = mkEq(off, mkConst(k, 64)); if (c->isConst() && c->c.isZero()) continue; r.push_back(k); if (r.size() > 20000) break; }
  return r;
}
static Val loadN(const Val &a, u64 n) { // n bytes as an integer of 8n bits
  Loc L = resolve(a, n, "read");
  if (!L.sym) {
    Obj *o = L.o; bool plain = n <= 8;
    if (plain && !o->s.empty()) for (u64 i = 0; i < n; ++i) if (o->s[L.off + i]) { plain = false; break; }
    if (plain && !o->u.empty()) for (u64 i = 0; i < n; ++i) if (o->u[L.off + i]) { plain = false; break; }
    if (plain) { u64 v = 0; memcpy(&v, &o->d[L.off], n); return cv(v, n * 8); }
    return ev(bytesToE(o, L.off, n));
  }
  auto ks = candidates(L.offE, L.o->size - n);
  if (ks.empty()) throw PathEnd{"internal", "no candidates"};
  if (ks.size() > 3000) { u64 k = concretize(ev(L.offE), "offset"); return ev(bytesToE(L.o, k, n)); }
  E r = bytesToE(L.o, ks.back(), n);
  for (size_t i = ks.size() - 1; i-- > 0;) r = mkIte(mkEq(L.offE, mkConst(ks[i], 64)), bytesToE(L.o, ks[i], n), r);
  return ev(r);
}
static void storeCells(const Val &a, const std::vector<Cell> &cs) {
  u64 n = cs.size(); if (!n) return;
  Loc L = resolve(a, n, "write");
  if (L.o->ro) throw PathEnd{"memory", "write to constant " + L.o->name};
  if (L.sym) { auto ks = candidates(L.offE, L.o->size - n); if (ks.size() > 500) { L.off = concretize(ev(L.offE), "offset"); L.sym = false; }
    else { Obj *o = wr(L.slot);
      for (u64 k : ks) { E c = mkEq(L.offE, mkConst(k, 64)); for (u64 i = 0; i < n; ++i) { Cell old = cellAt(o, k + i); if (old.undef && cs[i].undef) continue;
            E x = mkIte(c, cellE(cs[i]), cellE(old)); Cell nc; nc.undef = false; nc.e = x->isConst() ? nullptr : x; nc.c = x->isConst() ? x->u64() : 0; setCell(o, k + i, nc); } }
      return; } }
  Obj *o = wr(L.slot);
  for (u64 i = 0; i < n; ++i) setCell(o, L.off + i, cs[i]);
}
static void storeN(const Val &a, const Val &v, u64 n) {
  if (!a.e && !v.e && n <= 8) {
    Loc L = resolve(a, n, "write"); if (L.o->ro) throw PathEnd{"memory", "write to constant " + L.o->name};
    Obj *o = wr(L.slot); memcpy(&o->d[L.off], &v.c, n);
    if (!o->s.empty()) for (u64 i = 0; i < n; ++i) o->s[L.off + i] = nullptr;
    if (!o->u.empty()) for (u64 i = 0; i < n; ++i) o->u[L.off + i] = 0;
    return;
  }
  E e = v.ex(); if (e->w < n * 8) e = mkZExt(e, n * 8);
  std::vector<Cell> cs(n);
  for (u64 i = 0; i < n; ++i) { E b = mkExtract(e, i * 8, 8); cs[i].undef = false; cs[i].e = b->isConst() ? nullptr : b; cs[i].c = b->isConst() ? b->u64() : 0; }
  storeCells(a, cs);
}
static std::vector<Cell> loadCells(const Val &a, u64 n) {
  std::vector<Cell> r(n); if (!n) return r;
  Loc L = resolve(a, n, "read");
  if (!L.sym) { for (u64 i = 0; i < n; ++i) r[i] = cellAt(L.o, L.off + i); return r; }
  auto ks = candidates(L.offE, L.o->size - n);
  if (ks.size() > 1000) { u64 k = concretize(ev(L.offE), "offset"); for (u64 i = 0; i < n; ++i) r[i] = cellAt(L.o, k + i); return r; }
  for (u64 i = 0; i < n; ++i) { E x = cellE(cellAt(L.o, ks.back() + i)); for (size_t j = ks.size() - 1; j-- > 0;) x = mkIte(mkEq(L.offE, mkConst(ks[j], 64)), cellE(cellAt(L.o, ks[j] + i)), x);
    r[i].undef = false; r[i].e = x->isConst() ? nullptr : x; r[i].c = x->isConst() ? x->u64() : 0; }
  return r;
}
static void checkAlign(const Val &a, u64 al, const char *acc) {
  if (al < 16) return; // x86-64 only faults on aligned vector accesses
  if (!a.e) { if (a.c & (al - 1)) throw PathEnd{"memory", std::string("misaligned ") + acc + " (needs " + std::to_string(al) + ")"}; return; }
  E low = mkExtract(a.e, 0, Log2_64(al)); E ok = mkEq(low, mkConst(0, low->w));
  if (!decide(ok, "align")) throw PathEnd{"memory", std::string("misaligned ") + acc};
}

// ------------------------------------------------------------------ typed load/store
static uint32_t tw(Type *T) { // scalar width in bits
  if (T->isIntegerTy()) return T->getIntegerBitWidth();
  if (T->isPointerTy()) return 64;
  if (T->isHalfTy() || T->isBFloatTy()) return 16;
  if (T->isFloatTy()) return 32;
  if (T->isDoubleTy()) return 64;
  if (T->isX86_FP80Ty()) return 80;
  return 0;
}
static Val offs(const Val &a, u64 o) { if (!o) return a; if (!a.e) return cv(a.c + o, 64); return ev(mkAdd(a.e, mkConst(o, 64))); }
static Val loadT(const Val &a, Type *T) {
  if (auto *VT = dyn_cast<FixedVectorType>(T)) {
    uint32_t ew = tw(VT->getElementType()); std::vector<Val> v;
    if (ew % 8) { // packed bits
      uint32_t n = VT->getNumElements(), bytes = (ew * n + 7) / 8; E all = loadN(a, bytes).ex(); for (uint32_t i = 0; i < n; ++i) v.push_back(ev(mkExtract(all, i * ew, ew))); return av(std::move(v)); }
    for (unsigned i = 0; i < VT->getNumElements(); ++i) v.push_back(loadN(offs(a, i * (ew / 8)), ew / 8));
    return av(std::move(v));
  }
  if (auto *ST = dyn_cast<StructType>(T)) { auto *L = DL->getStructLayout(ST); std::vector<Val> v; for (unsigned i = 0; i < ST->getNumElements(); ++i) v.push_back(loadT(offs(a, L->getElementOffset(i)), ST->getElementType(i))); return av(std::move(v)); }
  if (auto *AT = dyn_cast<ArrayType>(T)) { std::vector<Val> v; u64 es = DL->getTypeAllocSize(AT->getElementType()); for (unsigned i = 0; i < AT->getNumElements(); ++i) v.push_back(loadT(offs(a, i * es), AT->getElementType())); return av(std::move(v)); }
  uint32_t w = tw(T); u64 n = (w + 7) / 8; Val v = loadN(a, n);
  if (w != n * 8) { if (!v.e) return cv(v.c, w); return ev(mkExtract(v.e, 0, w)); }
  return v;
}
static void storeT(const Val &a, const Val &v, Type *T) {
  if (auto *VT = dyn_cast<FixedVectorType>(T)) {
    uint32_t ew = tw(VT->getElementType());
    if (ew % 8) { E all = nullptr; for (auto &x : v.agg->v) all = all ? mkConcat(x.ex(), all) : x.ex(); storeN(a, ev(all), (all->w + 7) / 8); return; }
    for (unsigned i = 0; i < VT->getNumElements(); ++i) storeN(offs(a, i * (ew / 8)), v.agg->v[i], ew / 8);
    return; }
  if (auto *ST = dyn_cast<StructType>(T)) { auto *L = DL->getStructLayout(ST); for (unsigned i = 0; i < ST->getNumElements(); ++i) storeT(offs(a, L->getElementOffset(i)), v.agg->v[i], ST->getElementType(i)); return; }
  if (auto *AT = dyn_cast<ArrayType>(T)) { u64 es = DL->getTypeAllocSize(AT->getElementType()); for (unsigned i = 0; i < AT->getNumElements(); ++i) storeT(offs(a, i * es), v.agg->v[i], AT->getElementType()); return; }
  uint32_t w = tw(T); if (!w) throw PathEnd{"unsupported", "store type"};
  storeN(a, v, (w + 7) / 8);
}
static Val zeroOf(Type *T) {
  if (auto *VT = dyn_cast<FixedVectorType>(T)) { std::vector<Val> v(VT->getNumElements(), zeroOf(VT->getElementType())); return av(std::move(v)); }
  if (auto *ST = dyn_cast<StructType>(T)) { std::vector<Val> v; for (auto *t : ST->elements()) v.push_back(zeroOf(t)); return av(std::move(v)); }
  if (auto *AT = dyn_cast<ArrayType>(T)) { std::vector<Val> v(AT->getNumElements(), zeroOf(AT->getElementType())); return av(std::move(v)); }
  uint32_t w = tw(T); return w <= 64 ? cv(0, w) : ev(mkConst(APInt(w, 0)));
}
static Val undefOf(Type *T) { // scalar undef: an unconstrained fresh value; aggregates start as zeros (always overwritten piecewise)
  uint32_t w = tw(T); if (!w || w == 1 || !S) return zeroOf(T);
  return ev(freshUndef(w));
}
static Fn *getFn(const Function *F);
static Val constVal(const Constant *C);
static u64 globalAddr(const GlobalVariable *G) { auto it = gaddr.find(G); if (it == gaddr.end()) { errs() << "no global " << G->getName() << "\n"; abort(); } return it->second; }
static Val constVal(const Constant *C) {
  Type *T = C->getType();
  if (auto *i = dyn_cast<ConstantInt>(C)) return apv(i->getValue());
  if (auto *f = dyn_cast<ConstantFP>(C)) return apv(f->getValueAPF().bitcastToAPInt());
  if (isa<ConstantPointerNull>(C)) return cv(0, 64);
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return zeroOf(T);
  if (auto *F = dyn_cast<Function>(C)) return cv(getFn(F)->addr, 64);
  if (auto *G = dyn_cast<GlobalVariable>(C)) return cv(globalAddr(G), 64);
  if (auto *A = dyn_cast<GlobalAlias>(C)) return constVal(A->getAliasee());
  if (auto *ds = dyn_cast<ConstantDataSequential>(C)) { std::vector<Val> v; for (unsigned i = 0; i < ds->getNumElements(); ++i) v.push_back(constVal(ds->getElementAsConstant(i))); return av(std::move(v)); }
  if (isa<ConstantStruct>(C) || isa<ConstantArray>(C) || isa<ConstantVector>(C)) { std::vector<Val> v; for (auto &o : C->operands()) v.push_back(constVal(cast<Constant>(o))); return av(std::move(v)); }
  if (auto *ce = dyn_cast<ConstantExpr>(C)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { Val b = constVal(ce->getOperand(0)); APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) abort(); return cv(b.c + off.getZExtValue(), 64); }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::PtrToInt: case Instruction::IntToPtr: { Val b = constVal(ce->getOperand(0)); uint32_t w = tw(T); return cv(b.c, w); }
      case Instruction::Trunc: { Val b = constVal(ce->getOperand(0)); return cv(b.c, tw(T)); }
      case Instruction::Sub: return cv(constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c, tw(T));
      case Instruction::Add: return cv(constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c, tw(T));
      default: break;
    }
  }
  errs() << "unsupported constant " << *C << "\n"; throw PathEnd{"unsupported", "constant"};
}
static void initObj(Obj *o, u64 off, const Constant *C) {
  Type *T = C->getType();
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
  if (auto *ST = dyn_cast<StructType>(T)) { auto *L = DL->getStructLayout(ST); for (unsigned i = 0; i < ST->getNumElements(); ++i) initObj(o, off + L->getElementOffset(i), C->getAggregateElement(i)); return; }
  if (auto *AT = dyn_cast<ArrayType>(T)) {
    if (auto *cd = dyn_cast<ConstantDataSequential>(C)) { StringRef r = cd->getRawDataValues(); memcpy(&o->d[off], r.data(), r.size()); return; }
    u64 es = DL->getTypeAllocSize(AT->getElementType()); for (unsigned i = 0; i < AT->getNumElements(); ++i) initObj(o, off + i * es, C->getAggregateElement(i)); return; }
  if (auto *VT = dyn_cast<FixedVectorType>(T)) { u64 es = tw(VT->getElementType()) / 8; for (unsigned i = 0; i < VT->getNumElements(); ++i) initObj(o, off + i * es, C->getAggregateElement(i)); return; }
  Val v = constVal(C); uint32_t n = (v.w + 7) / 8; if (v.e) { APInt x = v.e->c; for (uint32_t i = 0; i < n; ++i) o->d[off + i] = x.extractBitsAsZExtValue(std::min(8u, v.w - i * 8), i * 8); } else memcpy(&o->d[off], &v.c, n);
}

// ------------------------------------------------------------------ builtins
enum Bi { B_SYM, B_U8, B_U16, B_U32, B_U64, B_F64, B_F32, B_ASSUME, B_ASSERT, B_COVER, B_PARAM, B_FORK, B_FINDING, B_SYMBOLIC, B_THROW, B_DEBUG, B_ISSYM, B_NOTE,
  B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_NEW, B_NEWARR, B_DEL, B_DELARR, B_NEWAL, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_MEMCMP, B_ATEXIT, B_NOP, B_GUARDA, B_GUARDR, B_ABORT, B_ASSERTFAIL, B_CXATHROW,
  B_RNE, B_RNA, B_RTZ, B_RUP, B_RDN, B_FABS, B_FMIN, B_FMAX, B_FMOD, B_SQRT, B_LOG2, B_POW, B_EXP2, B_EXIT, B_UNSUP };
static std::map<std::string, int> biTable = {
  {"vp_sym", B_SYM}, {"vp_u8", B_U8}, {"vp_u16", B_U16}, {"vp_u32", B_U32}, {"vp_u64", B_U64}, {"vp_f64", B_F64}, {"vp_f32", B_F32}, {"vp_assume", B_ASSUME}, {"vp_assert", B_ASSERT}, {"vp_cover", B_COVER},
  {"vp_param", B_PARAM}, {"vp_fork", B_FORK}, {"vp_finding", B_FINDING}, {"vp_symbolic", B_SYMBOLIC}, {"vp_throw", B_THROW}, {"vp_debug", B_DEBUG}, {"vp_is_symbolic", B_ISSYM}, {"vp_note", B_NOTE},
  {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE}, {"_Znwm", B_NEW}, {"_Znam", B_NEWARR}, {"_ZdlPv", B_DEL}, {"_ZdlPvm", B_DEL}, {"_ZdaPv", B_DELARR}, {"_ZdaPvm", B_DELARR},
  {"_ZnwmSt11align_val_t", B_NEWAL}, {"_ZdlPvSt11align_val_t", B_DEL}, {"_ZdlPvmSt11align_val_t", B_DEL}, {"_ZnwmRKSt9nothrow_t", B_NEW}, {"_ZnamRKSt9nothrow_t", B_NEWARR},
  {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP},
  {"__cxa_atexit", B_ATEXIT}, {"_ZNSt8ios_base4InitC1Ev", B_NOP}, {"_ZNSt8ios_base4InitD1Ev", B_NOP}, {"__cxa_guard_acquire", B_GUARDA}, {"__cxa_guard_release", B_GUARDR},
  {"abort", B_ABORT}, {"_ZSt9terminatev", B_ABORT}, {"__clang_call_terminate", B_ABORT}, {"__assert_fail", B_ASSERTFAIL}, {"__cxa_throw", B_CXATHROW}, {"__cxa_rethrow", B_CXATHROW}, {"__cxa_pure_virtual", B_ABORT}, {"exit", B_EXIT}, {"_exit", B_EXIT},
  {"round", B_RNA}, {"roundf", B_RNA}, {"rint", B_RNE}, {"rintf", B_RNE}, {"nearbyint", B_RNE}, {"nearbyintf", B_RNE}, {"roundeven", B_RNE}, {"roundevenf", B_RNE}, {"trunc", B_RTZ}, {"truncf", B_RTZ}, {"floor", B_RDN}, {"floorf", B_RDN}, {"ceil", B_RUP}, {"ceilf", B_RUP}, {"fabs", B_FABS}, {"fabsf", B_FABS},
  {"fmin", B_FMIN}, {"fminf", B_FMIN}, {"fmax", B_FMAX}, {"fmaxf", B_FMAX}, {"log2", B_LOG2}, {"log2f", B_LOG2}, {"pow", B_POW}, {"powf", B_POW}, {"exp2", B_EXP2}, {"exp2f", B_EXP2}};

static std::string cstr(const Val &p) {
  std::string s; if (p.e) return "<symbolic>";
  for (u64 i = 0; i < 300; ++i) { Val b = loadN(cv(p.c + i, 64), 1); if (b.e) { s += '?'; continue; } if (!b.c) break; s += (char)b.c; }
  return s;
}
static void storeCellsE(const Val &p, E e) { storeN(p, ev(e), e->w / 8); }
static E neg1(uint32_t w) { return mkConst(APInt::getAllOnes(w)); }

static Val fbin(Op op, const Val &a, const Val &b) { return ev(mkFArith(op, a.ex(), b.ex())); }
static Val fpMinMax(const Val &a, const Val &b, bool mn) {
  E x = a.ex(), y = b.ex(); E xn = mkFNaN(x), yn = mkFNaN(y); E lt = mn ? mkFLt(y, x) : mkFLt(x, y);
  return ev(mkIte(xn, y, mkIte(yn, x, mkIte(lt, y, x)))); }
static u64 freshCount = 0;
static Val fptoi(bool sg, const Val &a, uint32_t w) {
  E x = a.ex(); uint32_t fw = x->w;
  auto fc = [&](double d) { APFloat f(d); bool l; f.convert(fw == 32 ? APFloat::IEEEsingle() : APFloat::IEEEdouble(), APFloat::rmTowardZero, &l); return mkConst(f.bitcastToAPInt()); };
  E ok; double hi = ldexp(1.0, sg ? w - 1 : w);
  if (fw == 16) { x = mkFExt(x, 32); fw = 32; }
  E up = mkFLt(x, fc(hi));
  bool exactLow = sg && ((fw == 64 && w >= 54) || (fw == 32 && w >= 25));
  E lo = !sg ? mkFLt(fc(-1.0), x) : exactLow ? mkFLe(fc(-hi), x) : mkFLt(fc(-hi - 1), x);
  ok = mkAnd(up, lo);
  E conv = mkFToI(sg, x, w);
  if (ok->isConst() && !ok->c.isZero()) return ev(conv);
  // decided once per term, first without the path condition
  static std::unordered_map<uint32_t, int> memo; auto it = memo.find(ok->id);
  if (it == memo.end()) { ModelP any = std::make_shared<Model>(); const_cast<Model &>(*any).id = Model::next(); ModelP o; int r;
    E bad = mkNot(ok); r = solve({}, bad, any, &o, 1500); it = memo.emplace(ok->id, r).first; }
  if (it->second == R_UNSAT) return ev(conv);
  ++nUBChecks;
  // out of range: undefined in C++, any value
  if (!decide(ok, "fptoint")) { if (getenv("SYMEX_FPTOINT_UB")) throw PathEnd{"undefined", "float to integer conversion out of range"}; return ev(freshUndef(w)); }
  return ev(conv);
}
static Val cmpMem(const Val &a, const Val &b, u64 n) {
  auto x = loadCells(a, n), y = loadCells(b, n);
  E r = mkConst(0, 32);
  for (u64 i = n; i-- > 0;) { E p = cellE(x[i]), q = cellE(y[i]); E eq = mkEq(p, q); if (eq->isConst() && !eq->c.isZero()) continue;
    E d = mkSub(mkZExt(p, 32), mkZExt(q, 32)); r = mkIte(eq, r, d); }
  return ev(r);
}
static Val doAlloc(const Val &sz, Kind k, const char *nm) { u64 n = concretize(sz, "allocation size"); if (n > (16u << 20)) throw PathEnd{"memory", "huge allocation of " + std::to_string(n) + " bytes"};
  uint32_t s = newObj(n, k, std::string(nm) + "(" + std::to_string(n) + ")", true); return cv(mkAddr(s, S->gens[s]), 64); }
static void doFree(const Val &p, Kind k, const char *nm) {
  u64 a = concretize(p, "free"); if (!a) return; uint32_t slot; Obj *o = find(a, slot);
  if (!o || (a & 0xffffffffULL) != OFF0 || o->kind == K_GLOBAL || o->kind == K_STACK) throw PathEnd{"memory", std::string("invalid ") + nm};
  if (o->kind != k) throw PathEnd{"memory", std::string("mismatched ") + nm + " of " + o->name};
  freeSlot(slot);
}
static bool covSeen(const std::string &m) { return coverCount.count(m); }

static Val callBuiltin(int b, std::vector<Val> &a, const Fn *f, Type *RT) {
  uint32_t rw = RT->isVoidTy() ? 0 : tw(RT);
  switch (b) {
    case B_SYM: { u64 n = concretize(a[1], "sym size"); std::string nm = cstr(a[2]); int k = S->names[nm]++; if (k) nm += "#" + std::to_string(k);
      SymRec r; r.name = nm; std::vector<Cell> cs(n);
      if (n <= 8 && n > 0) { E v = namedVar(nm, n * 8); r.chunks.push_back(v); S->syms.push_back(r); storeN(a[0], ev(v), n); return Val(); }
      for (u64 i = 0; i < n; ++i) { E v = namedVar(nm + "[" + std::to_string(i) + "]", 8); r.chunks.push_back(v); cs[i].c = 0; cs[i].undef = false; cs[i].e = v; }
      S->syms.push_back(r); storeCells(a[0], cs); return Val(); }
    case B_U8: case B_U16: case B_U32: case B_U64: case B_F64: case B_F32: { uint32_t w = b == B_U8 ? 8 : b == B_U16 ? 16 : b == B_U32 || b == B_F32 ? 32 : 64; std::string nm = cstr(a[0]); int k = S->names[nm]++; if (k) nm += "#" + std::to_string(k);
      E v = namedVar(nm, w); S->syms.push_back({nm, {v}}); return ev(v); }
    case B_ASSUME: { E c = mkNot(mkEq(a[0].ex(), mkConst(0, a[0].w))); if (c->isConst()) { if (c->c.isZero()) { ++nAssumeDead; throw PathEnd{"", ""}; } return Val(); }
      int k = knownVal(c); if (k == 1) return Val(); if (k == 0) { ++nAssumeDead; throw PathEnd{"", ""}; }
      if (!evalBool(c, *S->model)) { ModelP m; Res r = solve(S->cs, c, S->model, &m); if (r == R_UNSAT) { ++nAssumeDead; throw PathEnd{"", ""}; } if (r == R_UNKNOWN) { incomplete = true; incompleteWhy = "assumption undecided"; undec("assume at " + where()); throw PathEnd{"", ""}; } S->model = m; }
      addC(*S, c); return Val(); }
    case B_ASSERT: { std::string msg = cstr(a[1]); ++nAsserts; E c = mkNot(mkEq(a[0].ex(), mkConst(0, a[0].w)));
      if (c->isConst()) { ++nAssertsConst; if (c->c.isZero()) { report("assert", msg, *S->model); throw PathEnd{"", ""}; } return Val(); }
      if (knownVal(c) == 1) { ++nAssertsConst; return Val(); }
      // a conjunction is decided piece by piece
      std::vector<E> parts, st{c}; while (!st.empty()) { E x = st.back(); st.pop_back(); if (x->op == O_AND && x->w == 1) { st.push_back(x->k[0]); st.push_back(x->k[1]); } else parts.push_back(x); }
      bool unk = false;
      for (E p : parts) { ModelP m; Res r = solve(S->cs, mkNot(p), S->model, &m); if (r == R_SAT) { report("assert", msg, *m); unk = true; break; } if (r == R_UNKNOWN) undec("assert: " + msg); }
      if (!unk) { S->known[c->id] = true; S->known[mkNot(c)->id] = false; return Val(); } // implied by the path condition
      if (unk) { // continue on the side where it holds, if any
        if (!evalBool(c, *S->model)) { ModelP m; Res r = solve(S->cs, c, S->model, &m, 1000); if (r != R_SAT) throw PathEnd{"", ""}; S->model = m; } }
      addC(*S, c); return Val(); }
    case B_COVER: { std::string m = cstr(a[0]); ++coverCount[m]; S->covers.push_back(m); return Val(); }
    case B_FINDING: { std::string m = cstr(a[0]); E c = mkNot(mkEq(a[1].ex(), mkConst(0, a[1].w))); ModelP mo;
      Res r = c->isConst() ? (c->c.isZero() ? R_UNSAT : R_SAT) : solve(S->cs, c, S->model, &mo); if (r == R_SAT) report("finding", m, mo ? *mo : *S->model, true); return Val(); }
    case B_PARAM: { u64 i = a[0].c; if (i >= job.params.size()) throw PathEnd{"unsupported", "missing parameter " + std::to_string(i)}; return cv((u64)job.params[i], 64); }
    case B_FORK: return cv(concretize(a[0], "fork"), 64);
    case B_SYMBOLIC: return cv(1, 32);
    case B_ISSYM: return cv(a[0].e ? 1 : 0, 32);
    case B_NOTE: { std::string m = cstr(a[0]); if (S->trace.size() < 200) S->trace.push_back(m); return Val(); }
    case B_DEBUG: fprintf(stderr, "DEBUG %s: %s\n", cstr(a[0]).c_str(), a[1].e ? exprStr(a[1].e, 8).c_str() : std::to_string(a[1].c).c_str()); return Val();
    case B_THROW: throw PathEnd{"exception", "uncaught " + cstr(a[0])};
    case B_CXATHROW: throw PathEnd{"exception", "exception thrown"};
    case B_EXIT: throw PathEnd{"abort", "exit called"};
    case B_MALLOC: return doAlloc(a[0], K_MALLOC, "malloc");
    case B_CALLOC: { u64 n = concretize(a[0], "calloc") * concretize(a[1], "calloc"); Val p = doAlloc(cv(n, 64), K_MALLOC, "calloc"); uint32_t s; Obj *o = find(p.c, s); o->u.clear(); return p; }
    case B_REALLOC: { u64 old = concretize(a[0], "realloc"), n = concretize(a[1], "realloc"); if (!old) return doAlloc(cv(n, 64), K_MALLOC, "malloc"); uint32_t s; Obj *o = find(old, s); if (!o) { doFree(a[0], K_MALLOC, "realloc"); return Val(); } u64 k = std::min<u64>(n, o->size); std::vector<Cell> c; if (k) c = loadCells(a[0], k); Val p = doAlloc(cv(n, 64), K_MALLOC, "malloc"); if (k) storeCells(p, c); doFree(a[0], K_MALLOC, "realloc"); return p; }
    case B_FREE: doFree(a[0], K_MALLOC, "free"); return Val();
    case B_NEW: case B_NEWAL: return doAlloc(a[0], K_NEW, "new");
    case B_NEWARR: return doAlloc(a[0], K_NEWARR, "new[]");
    case B_DEL: doFree(a[0], K_NEW, "delete"); return Val();
    case B_DELARR: doFree(a[0], K_NEWARR, "delete[]"); return Val();
    case B_MEMCPY: case B_MEMMOVE: { u64 n = concretize(a[2], "copy size"); if (n) { auto c = loadCells(a[1], n); storeCells(a[0], c); } return a[0]; }
    case B_MEMSET: { u64 n = concretize(a[2], "set size"); if (n) { Cell c; E x = mkExtract(a[1].ex(), 0, 8); c.undef = false; c.e = x->isConst() ? nullptr : x; c.c = x->isConst() ? x->u64() : 0; storeCells(a[0], std::vector<Cell>(n, c)); } return a[0]; }
    case B_MEMCMP: { u64 n = concretize(a[2], "compare size"); if (!n) return cv(0, 32); return cmpMem(a[0], a[1], n); }
    case B_ATEXIT: return cv(0, 32);
    case B_NOP: return rw ? zeroOf(RT) : Val();
    case B_GUARDA: { Val g = loadN(a[0], 1); return cv(g.c ? 0 : 1, 32); }
    case B_GUARDR: storeN(a[0], cv(1, 8), 1); return Val();
    case B_ABORT: throw PathEnd{"abort", "call of " + f->name};
    case B_ASSERTFAIL: throw PathEnd{"assertion", "assert(" + cstr(a[0]) + ") failed"};
    case B_RNE: return ev(mkFRnd(a[0].ex(), RM_NE)); case B_RNA: return ev(mkFRnd(a[0].ex(), RM_NA)); case B_RTZ: return ev(mkFRnd(a[0].ex(), RM_TZ));
    case B_RUP: return ev(mkFRnd(a[0].ex(), RM_UP)); case B_RDN: return ev(mkFRnd(a[0].ex(), RM_DN));
    case B_FABS: return ev(mkAnd(a[0].ex(), mkConst(APInt::getSignedMaxValue(a[0].w))));
    case B_FMIN: return fpMinMax(a[0], a[1], true); case B_FMAX: return fpMinMax(a[0], a[1], false);
    case B_LOG2: case B_POW: case B_EXP2: { // concrete arguments only; symbolic ones are an over-approximation: any value
      bool c = true; for (auto &x : a) if (x.e) c = false;
      if (c) { auto D = [&](const Val &v) { if (v.w == 32) { float q; uint32_t t = v.c; memcpy(&q, &t, 4); return (double)q; } double q; memcpy(&q, &v.c, 8); return q; };
        double r = b == B_LOG2 ? log2(D(a[0])) : b == B_EXP2 ? exp2(D(a[0])) : pow(D(a[0]), D(a[1])); if (a[0].w == 32) { float q = r; uint32_t t; memcpy(&t, &q, 4); return cv(t, 32); } u64 t; memcpy(&t, &r, 8); return cv(t, 64); }
      throw PathEnd{"unsupported", f->name + " of a symbolic argument"}; }
    default: throw PathEnd{"unsupported", "call of external function " + f->name};
  }
}

// ------------------------------------------------------------------ function compilation
static Fn *getFn(const Function *F) {
  auto it = fns.find(F); if (it != fns.end()) return it->second;
  Fn *f = new Fn; f->F = F; f->name = F->getName().str(); f->pretty = demangle(f->name); f->addr = FNBASE | ((u64)(fnByIdx.size() + 1) << 4);
  auto b = biTable.find(f->name); if (b != biTable.end() && (F->isDeclaration() || b->second < B_MALLOC)) f->builtin = b->second;
  if (f->builtin < 0 && F->isDeclaration()) f->builtin = B_UNSUP;
  if (b != biTable.end() && !F->isDeclaration() && b->second >= B_MALLOC) f->builtin = b->second;
  f->isHash = f->pretty.find("std::__detail::_Hash_code_base<") != std::string::npos && f->pretty.find("::_M_hash_code") != std::string::npos;
  if (auto *sp = F->getSubprogram()) { auto *file = sp->getFile(); if (file) { std::string p = (file->getDirectory() + "/" + file->getFilename()).str(); if (file->getFilename().starts_with("/")) p = file->getFilename().str(); f->repo = p.find("/repo/lib/") != std::string::npos || p.find("/repo/tool/") != std::string::npos; } }
  fns[F] = f; fnByIdx.push_back(f); return f;
}
static void compile(Fn *f) {
  f->compiled = true; std::unordered_map<const Value *, int> reg; std::unordered_map<const BasicBlock *, int> bbi; int n = 0, nb = 0;
  for (auto &A : f->F->args()) reg[&A] = n++;
  for (auto &B : *f->F) { bbi[&B] = nb++; for (auto &I : B) if (!I.getType()->isVoidTy()) reg[&I] = n++; }
  f->nregs = n; std::unordered_map<const Value *, int> cidx;
  auto op = [&](const Value *v) -> int {
    auto r = reg.find(v); if (r != reg.end()) return r->second;
    if (isa<Constant>(v)) { auto c = cidx.find(v); if (c != cidx.end()) return c->second; 
      Val cvv; if (isa<UndefValue>(v) && tw(v->getType()) > 1) { cvv = Val(); cvv.w = 0; cvv.c = tw(v->getType()) | (1ULL << 40); } else cvv = constVal(cast<Constant>(v));
      int k = -1 - (int)f->consts.size(); f->consts.push_back(cvv); cidx[v] = k; return k; }
    return INT32_MIN; };
  f->bb.resize(nb);
  for (auto &B : *f->F) { BB &bb = f->bb[bbi[&B]]; bb.b = &B;
    for (auto &I : B) {
      if (auto *P = dyn_cast<PHINode>(&I)) { std::vector<std::pair<int, int>> in; for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) in.push_back({bbi[P->getIncomingBlock(i)], op(P->getIncomingValue(i))}); bb.phis.push_back({reg[P], in}); continue; }
      if (isa<DbgInfoIntrinsic>(I)) continue;
      Inst x; x.I = &I; x.op = I.getOpcode(); x.dst = I.getType()->isVoidTy() ? -1 : reg[&I]; x.w = I.getType()->isVoidTy() ? 0 : tw(I.getType()); x.imm = 0; x.callee = nullptr; x.intr = 0;
      if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        x.o.push_back(op(G->getPointerOperand())); APInt c(64, 0); 
        for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) { Value *idx = gi.getOperand();
          if (StructType *ST = gi.getStructTypeOrNull()) { c += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
          u64 st = gi.getSequentialElementStride(*DL); if (auto *ci = dyn_cast<ConstantInt>(idx)) c += ci->getValue().sextOrTrunc(64) * st; else x.gep.push_back({op(idx), st}); }
        x.imm = c.getZExtValue();
      } else if (auto *CB = dyn_cast<CallBase>(&I)) {
        for (auto &A : CB->args()) { Value *v = A.get(); if (isa<MetadataAsValue>(v)) x.o.push_back(INT32_MIN); else x.o.push_back(op(v)); }
        if (auto *F = CB->getCalledFunction()) { x.callee = getFn(F); x.intr = F->getIntrinsicID(); } else { x.o.push_back(CB->isInlineAsm() ? INT32_MIN : op(CB->getCalledOperand())); 
          if (auto *GA = dyn_cast<GlobalAlias>(CB->getCalledOperand())) if (auto *F2 = dyn_cast<Function>(GA->getAliasee())) { x.callee = getFn(F2); x.o.pop_back(); } }
        if (auto *IV = dyn_cast<InvokeInst>(&I)) x.bbs.push_back(bbi[IV->getNormalDest()]);
      } else if (auto *Br = dyn_cast<BranchInst>(&I)) { if (Br->isConditional()) x.o.push_back(op(Br->getCondition())); for (unsigned i = 0; i < Br->getNumSuccessors(); ++i) x.bbs.push_back(bbi[Br->getSuccessor(i)]);
      } else if (auto *Sw = dyn_cast<SwitchInst>(&I)) { x.o.push_back(op(Sw->getCondition())); x.bbs.push_back(bbi[Sw->getDefaultDest()]); for (auto &c : Sw->cases()) x.bbs.push_back(bbi[c.getCaseSuccessor()]);
      } else if (auto *A = dyn_cast<AllocaInst>(&I)) { x.imm = DL->getTypeAllocSize(A->getAllocatedType()); x.o.push_back(op(A->getArraySize()));
      } else for (auto &o : I.operands()) if (!isa<BasicBlock>(o)) x.o.push_back(op(o));
      bb.in.push_back(std::move(x));
    } }
}

// ------------------------------------------------------------------ interpretation
static inline Val get(Frame &f, int o) {
  if (o >= 0) return f.r[o];
  if (o == INT32_MIN) return Val();
  const Val &c = f.fn->consts[-1 - o];
  if (c.w == 0 && !c.agg && (c.c >> 40)) return ev(freshUndef((uint32_t)c.c));
  return c;
}
static Val binop(unsigned op, const Val &a, const Val &b) {
  uint32_t w = a.w;
  if (!a.e && !b.e && w <= 64) {
    u64 x = a.c, y = b.c; int64_t sx = (int64_t)(x << (64 - w)) >> (64 - w), sy = (int64_t)(y << (64 - w)) >> (64 - w);
    switch (op) {
      case Instruction::Add: return cv(x + y, w); case Instruction::Sub: return cv(x - y, w); case Instruction::Mul: return cv(x * y, w);
      case Instruction::And: return cv(x & y, w); case Instruction::Or: return cv(x | y, w); case Instruction::Xor: return cv(x ^ y, w);
      case Instruction::Shl: return cv(y >= w ? 0 : x << y, w); case Instruction::LShr: return cv(y >= w ? 0 : x >> y, w); case Instruction::AShr: return cv(sx >> (y >= w ? w - 1 : y), w);
      case Instruction::UDiv: if (!y) throw PathEnd{"undefined", "division by zero"}; return cv(x / y, w); case Instruction::URem: if (!y) throw PathEnd{"undefined", "division by zero"}; return cv(x % y, w);
      case Instruction::SDiv: if (!y) throw PathEnd{"undefined", "division by zero"}; if (sy == -1) return cv(0 - x, w); return cv(sx / sy, w);
      case Instruction::SRem: if (!y) throw PathEnd{"undefined", "division by zero"}; if (sy == -1) return cv(0, w); return cv(sx % sy, w);
      default: break;
    }
  }
  switch (op) {
    case Instruction::Add: return ev(mkAdd(a.ex(), b.ex())); case Instruction::Sub: return ev(mkSub(a.ex(), b.ex())); case Instruction::Mul: return ev(mkMul(a.ex(), b.ex()));
    case Instruction::And: return ev(mkAnd(a.ex(), b.ex())); case Instruction::Or: return ev(mkOr(a.ex(), b.ex())); case Instruction::Xor: return ev(mkXor(a.ex(), b.ex()));
    case Instruction::Shl: return ev(mkShl(a.ex(), b.ex())); case Instruction::LShr: return ev(mkLShr(a.ex(), b.ex())); case Instruction::AShr: return ev(mkAShr(a.ex(), b.ex()));
    case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
      E z = mkEq(b.ex(), mkConst(APInt(w, 0))); if (decide(z, "division")) throw PathEnd{"undefined", "division by zero"};
      return ev(op == Instruction::UDiv ? mkUDiv(a.ex(), b.ex()) : op == Instruction::URem ? mkURem(a.ex(), b.ex()) : op == Instruction::SDiv ? mkSDiv(a.ex(), b.ex()) : mkSRem(a.ex(), b.ex())); }
    case Instruction::FAdd: return fbin(O_FADD, a, b); case Instruction::FSub: return fbin(O_FSUB, a, b); case Instruction::FMul: return fbin(O_FMUL, a, b); case Instruction::FDiv: return fbin(O_FDIV, a, b);
    default: throw PathEnd{"unsupported", "binary operator"};
  }
}
static Val icmp(CmpInst::Predicate p, const Val &a, const Val &b) {
  uint32_t w = a.w;
  if (!a.e && !b.e) {
    u64 x = a.c, y = b.c; int64_t sx = (int64_t)(x << (64 - w)) >> (64 - w), sy = (int64_t)(y << (64 - w)) >> (64 - w);
    switch (p) {
      case CmpInst::ICMP_EQ: return cv(x == y, 1); case CmpInst::ICMP_NE: return cv(x != y, 1); case CmpInst::ICMP_ULT: return cv(x < y, 1); case CmpInst::ICMP_ULE: return cv(x <= y, 1);
      case CmpInst::ICMP_UGT: return cv(x > y, 1); case CmpInst::ICMP_UGE: return cv(x >= y, 1); case CmpInst::ICMP_SLT: return cv(sx < sy, 1); case CmpInst::ICMP_SLE: return cv(sx <= sy, 1);
      case CmpInst::ICMP_SGT: return cv(sx > sy, 1); default: return cv(sx >= sy, 1); }
  }
  E x = a.ex(), y = b.ex();
  switch (p) {
    case CmpInst::ICMP_EQ: return ev(mkEq(x, y)); case CmpInst::ICMP_NE: return ev(mkNot(mkEq(x, y))); case CmpInst::ICMP_ULT: return ev(mkUlt(x, y)); case CmpInst::ICMP_ULE: return ev(mkUle(x, y));
    case CmpInst::ICMP_UGT: return ev(mkUlt(y, x)); case CmpInst::ICMP_UGE: return ev(mkUle(y, x)); case CmpInst::ICMP_SLT: return ev(mkSlt(x, y)); case CmpInst::ICMP_SLE: return ev(mkSle(x, y));
    case CmpInst::ICMP_SGT: return ev(mkSlt(y, x)); default: return ev(mkSle(y, x)); }
}
static Val fcmpv(CmpInst::Predicate p, const Val &a, const Val &b) {
  E x = a.ex(), y = b.ex(); E un = mkOr(mkFNaN(x), mkFNaN(y)); auto O = [&](E e) { return ev(e); };
  switch (p) {
    case CmpInst::FCMP_FALSE: return cv(0, 1); case CmpInst::FCMP_TRUE: return cv(1, 1);
    case CmpInst::FCMP_OEQ: return O(mkFEq(x, y)); case CmpInst::FCMP_OLT: return O(mkFLt(x, y)); case CmpInst::FCMP_OGT: return O(mkFLt(y, x)); case CmpInst::FCMP_OLE: return O(mkFLe(x, y)); case CmpInst::FCMP_OGE: return O(mkFLe(y, x));
    case CmpInst::FCMP_ONE: return O(mkAnd(mkNot(un), mkNot(mkFEq(x, y)))); case CmpInst::FCMP_ORD: return O(mkNot(un)); case CmpInst::FCMP_UNO: return O(un);
    case CmpInst::FCMP_UEQ: return O(mkOr(un, mkFEq(x, y))); case CmpInst::FCMP_ULT: return O(mkNot(mkFLe(y, x))); case CmpInst::FCMP_UGT: return O(mkNot(mkFLe(x, y)));
    case CmpInst::FCMP_ULE: return O(mkNot(mkFLt(y, x))); case CmpInst::FCMP_UGE: return O(mkNot(mkFLt(x, y))); default: return O(mkNot(mkFEq(x, y))); }
}
static Val castv(unsigned op, const Val &a, Type *ST, Type *DT) {
  uint32_t w = tw(DT);
  switch (op) {
    case Instruction::Trunc: if (!a.e) return cv(a.c, w); return ev(mkExtract(a.e, 0, w));
    case Instruction::ZExt: if (!a.e && w <= 64) return cv(a.c, w); return ev(mkZExt(a.ex(), w));
    case Instruction::SExt: if (!a.e && w <= 64) return cv((u64)((int64_t)(a.c << (64 - a.w)) >> (64 - a.w)), w); return ev(mkSExt(a.ex(), w));
    case Instruction::PtrToInt: case Instruction::IntToPtr: if (a.w == w) return a; if (a.w > w) return ev(mkExtract(a.ex(), 0, w)); return ev(mkZExt(a.ex(), w));
    case Instruction::FPToUI: return fptoi(false, a, w); case Instruction::FPToSI: return fptoi(true, a, w);
    case Instruction::UIToFP: return ev(mkIToF(false, a.ex(), w)); case Instruction::SIToFP: return ev(mkIToF(true, a.ex(), w));
    case Instruction::FPTrunc: return ev(mkFTrunc(a.ex(), w)); case Instruction::FPExt: return ev(mkFExt(a.ex(), w));
    default: throw PathEnd{"unsupported", "cast"};
  }
}
static E flat(const Val &v) { if (!v.agg) return v.ex(); E r = nullptr; for (auto &x : v.agg->v) { E e = x.ex(); r = r ? mkConcat(e, r) : e; } return r; }
static Val bitcast(const Val &a, Type *DT) {
  auto *VT = dyn_cast<FixedVectorType>(DT);
  if (!a.agg && !VT) return a;
  E all = flat(a); if (!VT) return ev(all);
  uint32_t ew = tw(VT->getElementType()); std::vector<Val> v; for (unsigned i = 0; i < VT->getNumElements(); ++i) v.push_back(ev(mkExtract(all, i * ew, ew))); return av(std::move(v));
}
template <class F> static Val lift(const Val &a, const Val &b, F f) {
  if (!a.agg) return f(a, b);
  std::vector<Val> v; for (size_t i = 0; i < a.agg->v.size(); ++i) v.push_back(f(a.agg->v[i], b.agg->v[i])); return av(std::move(v)); }
template <class F> static Val lift1(const Val &a, F f) {
  if (!a.agg) return f(a);
  std::vector<Val> v; for (auto &x : a.agg->v) v.push_back(f(x)); return av(std::move(v)); }
static Val selectV(E c, const Val &a, const Val &b) {
  if (c->isConst()) return c->c.isZero() ? b : a;
  if (a.agg) { std::vector<Val> v; for (size_t i = 0; i < a.agg->v.size(); ++i) v.push_back(selectV(c, a.agg->v[i], b.agg->v[i])); return av(std::move(v)); }
  return ev(mkIte(c, a.ex(), b.ex())); }

static void enterBB(Frame &f, int to) {
  f.prev = f.bb; f.bb = to; f.ip = 0; BB &b = f.fn->bb[to];
  if (!b.phis.empty()) {
    static std::vector<Val> tmp; tmp.clear();
    for (auto &p : b.phis) { int o = INT32_MIN; for (auto &in : p.second) if (in.first == f.prev) { o = in.second; break; } tmp.push_back(get(f, o)); }
    for (size_t i = 0; i < b.phis.size(); ++i) f.r[b.phis[i].first] = tmp[i];
  }
}
static void pushFrame(Fn *fn, std::vector<Val> &args, const Inst *site) {
  if (!fn->compiled) compile(fn);
  if (!fn->seen) { fn->seen = true; if (fn->repo) functionsUsed.insert(fn->pretty); for (auto &B : *fn->F) for (auto &I : B) if (auto d = I.getDebugLoc()) { if (auto *ia = d->getInlinedAt()) { (void)ia; auto *sp = d->getScope()->getSubprogram(); if (sp) { auto fnm = sp->getFilename(); std::string p = fnm.str(); if (p.find("/repo/lib/") != std::string::npos || p.find("/repo/tool/") != std::string::npos) functionsUsed.insert(demangle(sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str())); } } } }
  if (S->fr.size() > 400) throw PathEnd{"memory", "call depth exceeded"};
  S->fr.emplace_back(); Frame &f = S->fr.back(); f.fn = fn; f.site = site ? (const void *)site->I : nullptr; f.dst = site ? site->dst : -1; f.r.resize(fn->nregs);
  size_t na = fn->F->arg_size();
  for (size_t i = 0; i < na && i < args.size(); ++i) {
    f.r[i] = args[i];
    if (site && isa<CallBase>(site->I) && i < cast<CallBase>(site->I)->arg_size() && cast<CallBase>(site->I)->isByValArgument(i)) {
      u64 sz = DL->getTypeAllocSize(cast<CallBase>(site->I)->getParamByValType(i)); auto cs = loadCells(args[i], sz); uint32_t s = newObj(sz, K_STACK, "byval argument", true); S->fr.back().allocas.push_back(s);
      Val p = cv(mkAddr(s, S->gens[s]), 64); storeCells(p, cs); S->fr.back().r[i] = p; } }
  for (size_t i = na; i < args.size(); ++i) S->fr.back().va.push_back(args[i]);
}
static void popFrame(const Val &rv, bool has) {
  Frame f = std::move(S->fr.back()); S->fr.pop_back();
  for (auto s : f.allocas) freeSlot(s);
  if (S->fr.empty()) return;
  Frame &c = S->fr.back(); const Instruction *I = (const Instruction *)f.site;
  if (!I) return; // global constructor: the next frame simply starts
  if (f.dst >= 0 && has) { Val v = rv; if (f.fn->isHash && !job.realHash ) v = cv(0, 64); c.r[f.dst] = v; }
  if (isa<InvokeInst>(I)) { const Inst &x = c.fn->bb[c.bb].in[c.ip]; enterBB(c, x.bbs[0]); } else ++c.ip;
}
static std::vector<Val> *vres;

static bool intrinsic(const Inst &x, std::vector<Val> &a, Frame &f, Val &out) {
  auto *CI = cast<CallBase>(x.I); Type *T = CI->getType();
  auto W = x.w;
  switch (x.intr) {
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::donothing: return true;
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: { u64 p = a[1].c; uint32_t s; Obj *o = find(p, s); if (o && o->kind == K_STACK && (p & 0xffffffffULL) == OFF0) { Obj *q = wr(s); q->dead = x.intr == Intrinsic::lifetime_end; q->u.assign(q->size, 1); } return true; }
    case Intrinsic::invariant_start: out = cv(0, 64); return true;
    case Intrinsic::invariant_end: return true;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: out = a[0]; return true;
    case Intrinsic::objectsize: out = cv(~0ULL, W); return true;
    case Intrinsic::is_constant: out = cv(0, 1); return true;
    case Intrinsic::stacksave: out = cv(0, 64); return true; case Intrinsic::stackrestore: return true;
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: { Type *R = Type::getVoidTy(*Ctx); callBuiltin(B_MEMMOVE, a, nullptr, R); return true; }
    case Intrinsic::memset: case Intrinsic::memset_inline: { Type *R = Type::getVoidTy(*Ctx); callBuiltin(B_MEMSET, a, nullptr, R); return true; }
    case Intrinsic::trap: throw PathEnd{"abort", "trap"};
    case Intrinsic::ubsantrap: throw PathEnd{"undefined", "undefined behaviour (sanitizer check " + std::to_string(a[0].c) + ")"};
    case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: { int in = x.intr; out = lift(a[0], a[1], [&](const Val &p, const Val &q) { E P = p.ex(), Q = q.ex(); E lt = in == Intrinsic::umax || in == Intrinsic::umin ? mkUlt(P, Q) : mkSlt(P, Q); bool mn = in == Intrinsic::umin || in == Intrinsic::smin; return ev(mn ? mkIte(lt, P, Q) : mkIte(lt, Q, P)); }); return true; }
    case Intrinsic::abs: out = lift1(a[0], [&](const Val &p) { E P = p.ex(); return ev(mkIte(mkSlt(P, mkConst(APInt(P->w, 0))), mkSub(mkConst(APInt(P->w, 0)), P), P)); }); return true;
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      E p = a[0].ex(), q = a[1].ex(); uint32_t w = p->w, w2 = 2 * w; bool sg = x.intr == Intrinsic::sadd_with_overflow || x.intr == Intrinsic::ssub_with_overflow || x.intr == Intrinsic::smul_with_overflow;
      E P = sg ? mkSExt(p, w2) : mkZExt(p, w2), Q = sg ? mkSExt(q, w2) : mkZExt(q, w2); bool ad = x.intr == Intrinsic::uadd_with_overflow || x.intr == Intrinsic::sadd_with_overflow, sb = x.intr == Intrinsic::usub_with_overflow || x.intr == Intrinsic::ssub_with_overflow;
      E R = ad ? mkAdd(P, Q) : sb ? mkSub(P, Q) : mkMul(P, Q); E r = mkExtract(R, 0, w); E ov = mkNot(mkEq(sg ? mkSExt(r, w2) : mkZExt(r, w2), R)); if (sb && !sg) ov = mkUlt(p, q); out = av({ev(r), ev(ov)}); return true; }
    case Intrinsic::usub_sat: out = lift(a[0], a[1], [&](const Val &p, const Val &q) { E P = p.ex(), Q = q.ex(); return ev(mkIte(mkUlt(P, Q), mkConst(APInt(P->w, 0)), mkSub(P, Q))); }); return true;
    case Intrinsic::uadd_sat: out = lift(a[0], a[1], [&](const Val &p, const Val &q) { E P = p.ex(), Q = q.ex(); E s = mkAdd(P, Q); return ev(mkIte(mkUlt(s, P), neg1(P->w), s)); }); return true;
    case Intrinsic::ctpop: out = lift1(a[0], [&](const Val &p) { E P = p.ex(); E r = mkConst(APInt(P->w, 0)); for (uint32_t i = 0; i < P->w; ++i) r = mkAdd(r, mkZExt(mkExtract(P, i, 1), P->w)); return ev(r); }); return true;
    case Intrinsic::ctlz: out = lift1(a[0], [&](const Val &p) { E P = p.ex(); E r = mkConst(P->w, P->w); for (uint32_t i = 0; i < P->w; ++i) r = mkIte(mkExtract(P, i, 1), mkConst(P->w - 1 - i, P->w), r); return ev(r); }); return true;
    case Intrinsic::cttz: out = lift1(a[0], [&](const Val &p) { E P = p.ex(); E r = mkConst(P->w, P->w); for (uint32_t i = P->w; i-- > 0;) r = mkIte(mkExtract(P, i, 1), mkConst(i, P->w), r); return ev(r); }); return true;
    case Intrinsic::bswap: out = lift1(a[0], [&](const Val &p) { E P = p.ex(); E r = nullptr; for (uint32_t i = 0; i < P->w; i += 8) { E b = mkExtract(P, i, 8); r = r ? mkConcat(r, b) : b; } return ev(r); }); return true;
    case Intrinsic::fshl: case Intrinsic::fshr: { E p = a[0].ex(), q = a[1].ex(), s = a[2].ex(); uint32_t w = p->w; E cat = mkConcat(p, q); E sh = mkZExt(mkURem(s, mkConst(w, w)), 2 * w);
      out = x.intr == Intrinsic::fshl ? ev(mkExtract(mkShl(cat, sh), w, w)) : ev(mkExtract(mkLShr(cat, sh), 0, w)); return true; }
    case Intrinsic::fabs: out = lift1(a[0], [&](const Val &p) { return ev(mkAnd(p.ex(), mkConst(APInt::getSignedMaxValue(p.w)))); }); return true;
    case Intrinsic::copysign: out = lift(a[0], a[1], [&](const Val &p, const Val &q) { return ev(mkConcat(mkExtract(q.ex(), q.w - 1, 1), mkExtract(p.ex(), 0, p.w - 1))); }); return true;
    case Intrinsic::minnum: out = lift(a[0], a[1], [&](const Val &p, const Val &q) { return fpMinMax(p, q, true); }); return true;
    case Intrinsic::maxnum: out = lift(a[0], a[1], [&](const Val &p, const Val &q) { return fpMinMax(p, q, false); }); return true;
    case Intrinsic::round: out = lift1(a[0], [&](const Val &p) { return ev(mkFRnd(p.ex(), RM_NA)); }); return true;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: out = lift1(a[0], [&](const Val &p) { return ev(mkFRnd(p.ex(), RM_NE)); }); return true;
    case Intrinsic::floor: out = lift1(a[0], [&](const Val &p) { return ev(mkFRnd(p.ex(), RM_DN)); }); return true;
    case Intrinsic::ceil: out = lift1(a[0], [&](const Val &p) { return ev(mkFRnd(p.ex(), RM_UP)); }); return true;
    case Intrinsic::trunc: out = lift1(a[0], [&](const Val &p) { return ev(mkFRnd(p.ex(), RM_TZ)); }); return true;
    case Intrinsic::lround: case Intrinsic::llround: out = fptoi(true, ev(mkFRnd(a[0].ex(), RM_NA)), W); return true;
    case Intrinsic::lrint: case Intrinsic::llrint: out = fptoi(true, ev(mkFRnd(a[0].ex(), RM_NE)), W); return true;
    case Intrinsic::fmuladd: out = lift(a[0], a[1], [&](const Val &p, const Val &q) { return fbin(O_FMUL, p, q); }); out = lift(out, a[2], [&](const Val &p, const Val &q) { return fbin(O_FADD, p, q); }); return true;
    case Intrinsic::log2: case Intrinsic::pow: case Intrinsic::exp2: { Fn *bf = x.callee; out = callBuiltin(x.intr == Intrinsic::log2 ? B_LOG2 : x.intr == Intrinsic::pow ? B_POW : B_EXP2, a, bf, T); return true; }
    case Intrinsic::ldexp: throw PathEnd{"unsupported", "ldexp intrinsic"};
    case Intrinsic::is_fpclass: { E p = a[0].ex(); u64 m = a[1].c; uint32_t w = p->w; FFmt ff = ffmt(w); E s = mkExtract(p, w - 1, 1), ns = mkNot(s); E nan = mkFNaN(p), inf = fpIsInf(p), z = fpIsZero(p); E be = mkExtract(p, ff.mb, ff.eb); E sub = mkAnd(mkEq(be, mkConst(0, ff.eb)), mkNot(z));
      E nor = mkAnd(mkAnd(mkNot(nan), mkNot(inf)), mkNot(mkEq(be, mkConst(0, ff.eb)))); E q = mkAnd(nan, mkExtract(p, ff.mb - 1, 1)), sn = mkAnd(nan, mkNot(q)); E r = mkFalse();
      E cl[10] = {sn, q, mkAnd(s, inf), mkAnd(s, nor), mkAnd(s, sub), mkAnd(s, z), mkAnd(ns, z), mkAnd(ns, sub), mkAnd(ns, nor), mkAnd(ns, inf)}; for (int i = 0; i < 10; ++i) if (m >> i & 1) r = mkOr(r, cl[i]); out = ev(r); return true; }
    case Intrinsic::x86_vcvtps2ph_128: { std::vector<Val> v; for (int i = 0; i < 4; ++i) v.push_back(ev(mkFTrunc(a[0].agg->v[i].ex(), 16))); for (int i = 0; i < 4; ++i) v.push_back(cv(0, 16)); if (a[1].c & 3) { u64 m = a[1].c; if (!(m & 4)) throw PathEnd{"unsupported", "vcvtps2ph rounding mode"}; } out = av(std::move(v)); return true; }
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: { Val r = a[0].agg->v[0]; for (size_t i = 1; i < a[0].agg->v.size(); ++i) r = binop(x.intr == Intrinsic::vector_reduce_add ? Instruction::Add : x.intr == Intrinsic::vector_reduce_or ? Instruction::Or : x.intr == Intrinsic::vector_reduce_and ? Instruction::And : Instruction::Xor, r, a[0].agg->v[i]); out = r; return true; }
    case Intrinsic::eh_typeid_for: out = cv(0, 32); return true;
    case Intrinsic::vastart: case Intrinsic::vaend: throw PathEnd{"unsupported", "varargs"};
    default: throw PathEnd{"unsupported", "intrinsic " + x.callee->name};
  }
}


// ------------------------------------------------------------------ merging: both sides of a branch over pure computations become one state
struct Region { bool ok = false; int join = -1; std::vector<int> regs; };
static Region &regionOf(Fn *fn, int b) {
  static std::map<std::pair<Fn *, int>, Region> memo; auto key = std::make_pair(fn, b); auto it = memo.find(key); if (it != memo.end()) return it->second;
  Region &r = memo[key]; static std::map<Fn *, std::unique_ptr<PostDominatorTree>> trees; auto &pt = trees[fn];
  if (!pt) { pt = std::make_unique<PostDominatorTree>(); pt->recalculate(*const_cast<Function *>(fn->F)); }
  std::map<const BasicBlock *, int> idx; for (size_t i = 0; i < fn->bb.size(); ++i) idx[fn->bb[i].b] = (int)i;
  const BasicBlock *B = fn->bb[b].b; auto *n = pt->getNode(B); if (!n || !n->getIDom() || !n->getIDom()->getBlock()) return r;
  const BasicBlock *P = n->getIDom()->getBlock(); std::set<const BasicBlock *> in; std::vector<const BasicBlock *> todo;
  for (auto *s : successors(B)) if (s != P && in.insert(s).second) todo.push_back(s);
  while (!todo.empty()) { auto *q = todo.back(); todo.pop_back(); if (q == B || in.size() > 24) return r; for (auto *s : successors(q)) if (s != P && in.insert(s).second) todo.push_back(s); }
  // acyclic: repeatedly remove blocks without predecessors inside
  { std::set<const BasicBlock *> left = in; bool ch = true; while (ch && !left.empty()) { ch = false; for (auto i2 = left.begin(); i2 != left.end();) { bool has = false; for (auto *p : predecessors(*i2)) has |= left.count(p) > 0; if (!has) { i2 = left.erase(i2); ch = true; } else ++i2; } } if (!left.empty()) return r; }
  for (auto *q : in) for (auto &I : *q) {
    if (isa<BinaryOperator>(I) || isa<UnaryOperator>(I) || isa<CmpInst>(I) || isa<CastInst>(I) || isa<SelectInst>(I) || isa<PHINode>(I) || isa<BranchInst>(I) || isa<SwitchInst>(I) || isa<FreezeInst>(I) || isa<DbgInfoIntrinsic>(I) || isa<GetElementPtrInst>(I)) {}
    else if (auto *L = dyn_cast<LoadInst>(&I)) { if (!L->isSimple()) return r; }
    else if (auto *C = dyn_cast<CallInst>(&I)) { if (!(C->doesNotAccessMemory() || (C->getCalledFunction() && C->getCalledFunction()->doesNotAccessMemory()))) return r; }
    else return r;
    bool out = false; for (auto *u : I.users()) if (auto *ui = dyn_cast<Instruction>(u)) if (!in.count(ui->getParent())) out = true;
    if (out && !isa<PHINode>(I)) { // used beyond: through a phi of the join only, or directly
      for (auto *u : I.users()) if (auto *ui = dyn_cast<Instruction>(u)) if (!in.count(ui->getParent()) && !(isa<PHINode>(ui) && ui->getParent() == P)) return r; }
    if (out && isa<PHINode>(I)) for (auto *u : I.users()) if (auto *ui = dyn_cast<Instruction>(u)) if (!in.count(ui->getParent()) && !(isa<PHINode>(ui) && ui->getParent() == P)) return r;
  }
  for (auto &ph : P->phis()) if (!ph.getType()->isIntegerTy() && !ph.getType()->isFloatingPointTy()) return r;
  r.join = idx[P]; for (auto &p : fn->bb[r.join].phis) r.regs.push_back(p.first);
  r.ok = true; return r;
}
static void step(); static void endPath(const PathEnd *pe);
static u64 nMerged = 0; static int mergeDepth = 0;
static bool mergeBranch(Frame &f, const Inst &x) {
  Val c = get(f, x.o[0]); if (!c.e || c.e->isConst() || knownVal(c.e) >= 0 || mergeDepth > 6) return false;
  Region &rg = regionOf(f.fn, f.bb); if (!rg.ok) return false;
  size_t depth = S->fr.size(), ncs = S->cs.size(); State *orig = new State(*S); std::vector<State *> outer; outer.swap(work);
  std::vector<State *> done; bool failed = false; const Inst *site = curI; ++mergeDepth;
  auto finish = [&](State *s) { done.push_back(s); };
  { bool t = decide(c.e); enterBB(S->fr.back(), x.bbs[t ? 0 : 1]); }
  if (work.empty()) { work.swap(outer); delete orig; --mergeDepth; return true; }
  while (true) {
    try {
      while (true) {
        if (S->fr.size() == depth && S->fr.back().bb == rg.join && S->fr.back().ip == 0) { finish(S); S = nullptr; break; }
        if ((nInsts & 1023) == 0 && nowSec() > gDeadline) { failed = true; finish(S); S = nullptr; break; }
        step();
      }
    } catch (PathEnd &p) { failed = true; endPath(&p); }
    if (work.empty()) break;
    S = work.back(); work.pop_back();
  }
  work.swap(outer); --mergeDepth;
  for (auto *s : done) if (s->undefCount != orig->undefCount || s->syms.size() != orig->syms.size() || s->covers.size() != orig->covers.size()) failed = true;
  if (!failed && done.size() > 1) {
    State *m = orig; Frame &g = m->fr.back(); g = done.back()->fr.back();
    for (int r : rg.regs) {
      Val v = done.back()->fr.back().r[r];
      for (size_t i = done.size() - 1; i-- > 0;) { const Val &a = done[i]->fr.back().r[r]; E cond = mkTrue(); for (size_t k = ncs; k < done[i]->cs.size(); ++k) cond = mkAnd(cond, done[i]->cs[k]); v = selectV(cond, a, v); }
      g.r[r] = v; }
    u64 ins = 0; for (auto *s : done) { ins = std::max(ins, s->insts); delete s; } m->insts = ins; m->trace.clear(); S = m; curI = site; nMerged += done.size() - 1; nForks -= done.size() - 1; return true;
  }
  delete orig;
  if (done.empty()) { if (work.empty()) { throw PathEnd{"", "none"}; } S = work.back(); work.pop_back(); return true; }
  S = done.back(); done.pop_back(); for (auto *s : done) work.push_back(s);
  return true;
}

static void step() {
  Frame *fp = &S->fr.back(); Frame &f = *fp; const Inst &x = f.fn->bb[f.bb].in[f.ip]; curI = &x; ++nInsts; ++S->insts;
  const Instruction *I = x.I;
  auto setr = [&](Val v) { f.r[x.dst] = v; ++f.ip; };
  switch (x.op) {
    case Instruction::Ret: { Val v; bool has = !x.o.empty(); if (has) v = get(f, x.o[0]); popFrame(v, has); return; }
    case Instruction::Br: if (x.o.empty()) { enterBB(f, x.bbs[0]); return; } if (job.merge && mergeBranch(f, x)) return; { Val c = get(f, x.o[0]); bool t = c.e ? decide(c.e) : c.c; enterBB(S->fr.back(), x.bbs[t ? 0 : 1]); return; }
    case Instruction::Switch: { Val c = get(f, x.o[0]); auto *Sw = cast<SwitchInst>(I);
      if (!c.e) { int to = x.bbs[0], k = 1; for (auto &cs : Sw->cases()) { if (cs.getCaseValue()->getZExtValue() == c.c) { to = x.bbs[k]; break; } ++k; } enterBB(f, to); return; }
      std::map<int, E> tgt; std::vector<int> order; int k = 1; E any = mkFalse();
      for (auto &cs : Sw->cases()) { E q = mkEq(c.e, mkConst(cs.getCaseValue()->getValue())); any = mkOr(any, q); int b = x.bbs[k++]; auto it = tgt.find(b); if (it == tgt.end()) { tgt[b] = q; order.push_back(b); } else it->second = mkOr(it->second, q); }
      for (int b : order) { if (b == x.bbs[0]) continue; if (decide(tgt[b], "switch")) { enterBB(S->fr.back(), b); return; } }
      enterBB(S->fr.back(), x.bbs[0]); return; }
    case Instruction::Unreachable: throw PathEnd{"undefined", "unreachable code reached"};
    case Instruction::Resume: throw PathEnd{"exception", "resume"};
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
    case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
      Val a = get(f, x.o[0]), b = get(f, x.o[1]); unsigned op = x.op; if (!a.agg) { Val r = binop(op, a, b); setr(r); } else setr(lift(a, b, [&](const Val &p, const Val &q) { return binop(op, p, q); })); return; }
    case Instruction::FNeg: setr(lift1(get(f, x.o[0]), [&](const Val &p) { return ev(mkXor(p.ex(), mkConst(APInt::getSignMask(p.w)))); })); return;
    case Instruction::ICmp: { auto p = cast<ICmpInst>(I)->getPredicate(); setr(lift(get(f, x.o[0]), get(f, x.o[1]), [&](const Val &a, const Val &b) { return icmp(p, a, b); })); return; }
    case Instruction::FCmp: { auto p = cast<FCmpInst>(I)->getPredicate(); setr(lift(get(f, x.o[0]), get(f, x.o[1]), [&](const Val &a, const Val &b) { return fcmpv(p, a, b); })); return; }
    case Instruction::Select: { Val c = get(f, x.o[0]), a = get(f, x.o[1]), b = get(f, x.o[2]);
      if (c.agg) { std::vector<Val> v; for (size_t i = 0; i < c.agg->v.size(); ++i) v.push_back(selectV(c.agg->v[i].ex(), a.agg->v[i], b.agg->v[i])); setr(av(std::move(v))); return; }
      if (!c.e) { setr(c.c ? a : b); return; } int k = knownVal(c.e); if (k >= 0) { setr(k ? a : b); return; }
      if (I->getType()->isPointerTy() || (job.forkAddr && I->getType()->isIntegerTy(64))) { bool t = decide(c.e, "select"); S->fr.back().r[x.dst] = t ? a : b; ++S->fr.back().ip; return; }
      setr(selectV(c.e, a, b)); return; }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPTrunc: case Instruction::FPExt: {
      Type *ST = I->getOperand(0)->getType()->getScalarType(), *DT = I->getType()->getScalarType(); Val a = get(f, x.o[0]);
      if (job.forkAddr && x.op == Instruction::ZExt && a.e && ST->isIntegerTy(1) && DT->isIntegerTy(64)) { bool t = decide(a.e, "zext"); S->fr.back().r[x.dst] = cv(t, 64); ++S->fr.back().ip; return; }
      Val r = lift1(a, [&](const Val &p) { return castv(x.op, p, ST, DT); }); S->fr.back().r[x.dst] = r; ++S->fr.back().ip; return; }
    case Instruction::BitCast: case Instruction::AddrSpaceCast: setr(bitcast(get(f, x.o[0]), I->getType())); return;
    case Instruction::Freeze: setr(get(f, x.o[0])); return;
    case Instruction::ExtractValue: { Val a = get(f, x.o[0]); for (unsigned i : cast<ExtractValueInst>(I)->indices()) a = Val(a.agg->v[i]); setr(a); return; }
    case Instruction::InsertValue: { Val a = get(f, x.o[0]), b = get(f, x.o[1]); auto idx = cast<InsertValueInst>(I)->getIndices();
      std::function<Val(const Val &, size_t)> ins = [&](const Val &v, size_t d) -> Val { if (d == idx.size()) return b; std::vector<Val> n = v.agg->v; n[idx[d]] = ins(v.agg->v[idx[d]], d + 1); return av(std::move(n)); };
      setr(ins(a, 0)); return; }
    case Instruction::ExtractElement: { Val a = get(f, x.o[0]), i = get(f, x.o[1]); u64 k = concretize(i, "lane"); setr(a.agg->v[k]); return; }
    case Instruction::InsertElement: { Val a = get(f, x.o[0]), b = get(f, x.o[1]), i = get(f, x.o[2]); std::vector<Val> n = a.agg->v; n[concretize(i, "lane")] = b; setr(av(std::move(n))); return; }
    case Instruction::ShuffleVector: { Val a = get(f, x.o[0]), b = get(f, x.o[1]); auto m = cast<ShuffleVectorInst>(I)->getShuffleMask(); std::vector<Val> n; int na = a.agg->v.size(); for (int k : m) n.push_back(k < 0 ? zeroOf(I->getType()->getScalarType()) : k < na ? a.agg->v[k] : b.agg->v[k - na]); setr(av(std::move(n))); return; }
    case Instruction::Alloca: { u64 n = x.imm * concretize(get(f, x.o[0]), "alloca"); uint32_t s = newObj(n, K_STACK, "local " + I->getName().str(), true); f.allocas.push_back(s); setr(cv(mkAddr(s, S->gens[s]), 64)); return; }
    case Instruction::GetElementPtr: { Val b = get(f, x.o[0]);
      if (!b.e && x.gep.empty()) { setr(cv(b.c + x.imm, 64)); return; }
      if (b.agg) throw PathEnd{"unsupported", "vector gep"};
      if (x.gep.size() == 1 && !b.e) { Val i = get(f, x.gep[0].first); if (!i.e) { u64 iv = i.w < 64 ? (u64)((int64_t)(i.c << (64 - i.w)) >> (64 - i.w)) : i.c; setr(cv(b.c + x.imm + iv * x.gep[0].second, 64)); return; } }
      E r = b.ex(); for (auto &g : x.gep) { Val i = get(f, g.first); E ie = i.ex(); ie = i.w < 64 ? mkSExt(ie, 64) : ie->w > 64 ? mkExtract(ie, 0, 64) : ie; r = mkAdd(r, mkMul(ie, mkConst(g.second, 64))); } r = mkAdd(r, mkConst(x.imm, 64)); setr(ev(r)); return; }
    case Instruction::Load: { Val a = get(f, x.o[0]); checkAlign(a, cast<LoadInst>(I)->getAlign().value(), "read"); Val v = loadT(a, I->getType()); Frame &g = S->fr.back(); g.r[x.dst] = v; ++g.ip; return; }
    case Instruction::Store: { Val v = get(f, x.o[0]), a = get(f, x.o[1]); checkAlign(a, cast<StoreInst>(I)->getAlign().value(), "write"); storeT(a, v, I->getOperand(0)->getType()); ++S->fr.back().ip; return; }
    case Instruction::Fence: ++f.ip; return;
    case Instruction::AtomicRMW: { auto *A = cast<AtomicRMWInst>(I); Val p = get(f, x.o[0]), v = get(f, x.o[1]); Val old = loadT(p, A->getType()); Val n;
      switch (A->getOperation()) { case AtomicRMWInst::Add: n = binop(Instruction::Add, old, v); break; case AtomicRMWInst::Sub: n = binop(Instruction::Sub, old, v); break; case AtomicRMWInst::Xchg: n = v; break; default: throw PathEnd{"unsupported", "atomicrmw"}; }
      storeT(p, n, A->getType()); setr(old); return; }
    case Instruction::Call: case Instruction::Invoke: {
      std::vector<Val> a; size_t na = cast<CallBase>(I)->arg_size(); a.reserve(na); for (size_t i = 0; i < na; ++i) a.push_back(get(f, x.o[i]));
      Fn *fn = x.callee;
      if (!fn) {
        if (cast<CallBase>(I)->isInlineAsm()) { auto *IA = cast<InlineAsm>(cast<CallBase>(I)->getCalledOperand()); if (IA->getAsmString().empty() && !x.w && I->getType()->isVoidTy()) { ++f.ip; return; } throw PathEnd{"unsupported", "inline assembly: " + IA->getAsmString().substr(0, 30)}; }
        Val p = get(f, x.o[na]); u64 t = concretize(p, "call target"); u64 idx = (t & ~FNBASE) >> 4; if (!(t & FNBASE) || idx == 0 || idx > fnByIdx.size()) throw PathEnd{"memory", t ? "call through a wild pointer" : "call through a null pointer"}; fn = fnByIdx[idx - 1]; }
      if (x.intr) { Val out; intrinsic(x, a, f, out); Frame &g = S->fr.back(); if (x.dst >= 0) g.r[x.dst] = out; if (!x.bbs.empty()) enterBB(g, x.bbs[0]); else ++g.ip; return; }
      if (fn->builtin >= 0) { Val out = callBuiltin(fn->builtin, a, fn, I->getType()); Frame &g = S->fr.back(); if (x.dst >= 0) g.r[x.dst] = out; if (!x.bbs.empty()) enterBB(g, x.bbs[0]); else ++g.ip; return; }
      pushFrame(fn, a, &x); return; }
    default: throw PathEnd{"unsupported", std::string("instruction ") + I->getOpcodeName()};
  }
}
static u64 maxDepthSeen = 0; static size_t maxTraces = 3;
static void endPath(const PathEnd *pe) {
  if (pe && !pe->kind.empty()) {
    ++nErrPaths;
    if (pe->kind == "unsupported" || pe->kind == "internal") { incomplete = true; incompleteWhy = pe->kind + ": " + pe->msg; undec(pe->kind + ": " + pe->msg + " at " + where()); }
    else report(pe->kind, pe->msg, *S->model);
  } else if (!pe) {
    ++nPaths;
    if (traces.size() < maxTraces || (nPaths % 97 == 0 && traces.size() < maxTraces + 3)) { json::Array cov; for (auto &c : S->covers) cov.push_back(c); traces.push_back(json::Object{{"model", modelJson(*S, *S->model)}, {"covers", std::move(cov)}}); }
  }
  delete S; S = nullptr;
}
static void runState() { // to the end of the path
  try {
    while (!S->fr.empty()) {
      step();
      if ((nInsts & 1023) == 0 && nowSec() > gDeadline) { incomplete = true; incompleteWhy = "time limit"; delete S; S = nullptr; return; }
      if (S->insts > job.maxInsts) throw PathEnd{"hang", "no end after " + std::to_string(job.maxInsts) + " instructions on one path"};
    }
    endPath(nullptr);
  } catch (PathEnd &p) { endPath(&p); }
}

static void initGlobals() {
  S = new State; S->slots.emplace_back(); S->gens.push_back(0); // slot 0 stays empty: null
  S->model = std::make_shared<Model>(); const_cast<Model &>(*S->model).id = Model::next();
  for (auto &G : M->globals()) {
    u64 sz = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 0; bool ext = G.isDeclaration(); if (ext) sz = std::max<u64>(sz, 1024);
    uint32_t s = newObj(sz, K_GLOBAL, "global " + demangle(G.getName().str()), false); gaddr[&G] = mkAddr(s, 0); }
  for (auto &G : M->globals()) if (!G.isDeclaration()) { uint32_t s; Obj *o = find(gaddr[&G], s); initObj(o, 0, G.getInitializer()); o->ro = G.isConstant(); }
}
static void callTop(const Function *F) { std::vector<Val> none; pushFrame(getFn(F), none, nullptr); }

static json::Object runJob() {
  double t0 = nowSec(); gDeadline = t0 + job.timeout;
  const Function *EF = M->getFunction(job.entry); json::Object out; out["id"] = job.id; out["entry"] = job.entry; { json::Array p; for (long v : job.params) p.push_back(v); out["params"] = std::move(p); }
  if (!EF || EF->isDeclaration()) { out["status"] = "error"; out["why"] = "no entry " + job.entry; return out; }
  try {
    initGlobals();
    std::vector<std::pair<int, const Function *>> ctors;
    if (auto *G = M->getGlobalVariable("llvm.global_ctors")) if (G->hasInitializer()) if (auto *A = dyn_cast<ConstantArray>(G->getInitializer())) for (auto &o : A->operands()) { auto *st = cast<ConstantStruct>(o); if (auto *F = dyn_cast<Function>(st->getOperand(1))) ctors.push_back({(int)cast<ConstantInt>(st->getOperand(0))->getSExtValue(), F}); }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
    // constructors run before the harness on the same path (they may fork)
    callTop(EF);
    for (size_t i = ctors.size(); i-- > 0;) { std::vector<Val> none; pushFrame(getFn(ctors[i].second), none, nullptr); }
  } catch (PathEnd &p) { out["status"] = "error"; out["why"] = p.kind + ": " + p.msg; return out; }
  // frames pushed without call sites return into each other: patch popFrame expectations
  static Inst dummy; dummy.I = nullptr;
  work.push_back(S); S = nullptr; u64 started = 0;
  while (!work.empty()) {
    if (nowSec() > gDeadline) { incomplete = true; incompleteWhy = "time limit with " + std::to_string(work.size()) + " unexplored paths"; break; }
    { int nv = 0; for (auto &v : viols) nv += !v.second.finding; if (nv >= 6) { incomplete = true; incompleteWhy = "stopped after six distinct violations"; break; } }
    if (started >= job.maxPaths) { incomplete = true; incompleteWhy = "path limit"; break; }
    S = work.back(); work.pop_back(); ++started; runState();
  }
  bool realViol = false; for (auto &v : viols) if (!v.second.finding) realViol = true;
  out["status"] = realViol ? "violation" : (incomplete || !undecided.empty()) ? "undecided" : "proved";
  out["why"] = incompleteWhy; out["paths"] = (int64_t)nPaths; out["forks"] = (int64_t)nForks; out["error_paths"] = (int64_t)nErrPaths; out["insts"] = (int64_t)nInsts; out["asserts"] = (int64_t)nAsserts; out["asserts_syntactic"] = (int64_t)nAssertsConst; out["vars"] = (int64_t)gVars.size(); out["exprs"] = (int64_t)gExprCount;
  out["wall"] = nowSec() - t0; out["solver"] = json::Object{{"queries", (int64_t)gSS.queries}, {"real_proofs", (int64_t)gSS.realProofs}, {"cases", (int64_t)gSS.cases}, {"guessed", (int64_t)gSS.guessed}, {"cache_hits", (int64_t)gSS.cacheHits}, {"sat", (int64_t)gSS.sat}, {"unsat", (int64_t)gSS.unsat}, {"unknown", (int64_t)gSS.unknown}, {"seconds", gSS.seconds}, {"max_seconds", gSS.maxSec}};
  json::Object cov; for (auto &c : coverCount) cov[c.first] = (int64_t)c.second; out["covers"] = std::move(cov);
  json::Array va; for (auto &v : viols) va.push_back(json::Object{{"kind", v.second.kind}, {"msg", v.second.msg}, {"where", v.second.where}, {"count", (int64_t)v.second.count}, {"finding", v.second.finding}, {"model", std::move(v.second.model)}}); out["violations"] = std::move(va);
  json::Array ud; for (auto &u : undecided) ud.push_back(json::Object{{"what", u.first}, {"count", (int64_t)u.second}}); out["undecided"] = std::move(ud);
  json::Array fs; for (auto &f : functionsUsed) fs.push_back(f); out["functions"] = std::move(fs);
  json::Array ts; for (auto &t : traces) ts.push_back(std::move(t)); out["traces"] = std::move(ts);
  return out;
}

// ------------------------------------------------------------------ preparation: link-time cleanup and optimisation
static int prep(const std::string &in, const std::string &outp, const std::vector<std::string> &more) {
  LLVMContext C; SMDiagnostic D; auto m = parseIRFile(in, D, C); if (!m) { D.print("prep", errs()); return 2; }
  for (auto &f : more) { auto n = parseIRFile(f, D, C); if (!n) { D.print("prep", errs()); return 2; } if (Linker::linkModules(*m, std::move(n))) { errs() << "link failed " << f << "\n"; return 2; } }
  for (auto &F : *m) { std::string d = demangle(F.getName().str());
    F.removeFnAttr(Attribute::OptimizeNone);
    if (d.find("std::__detail::_Hash_code_base<") != std::string::npos && d.find("::_M_hash_code") != std::string::npos) { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); } }
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PipelineTuningOptions PTO; PTO.LoopVectorization = PTO.SLPVectorization = false; PTO.LoopInterleaving = false; PTO.LoopUnrolling = false; PTO.MergeFunctions = false;
  PassBuilder PB(nullptr, PTO); PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  ModulePassManager MPM; MPM.addPass(InternalizePass([](const GlobalValue &G) { return G.getName().starts_with("h_"); })); MPM.addPass(GlobalDCEPass());
  MPM.addPass(PB.buildPerModuleDefaultPipeline(OptimizationLevel::O1)); MPM.addPass(GlobalDCEPass());
  MPM.run(*m, MAM);
  std::error_code EC; raw_fd_ostream os(outp, EC); WriteBitcodeToFile(*m, os); return 0;
}

struct MainArgs { int argc; char **argv; int rc; };
static int realMain(int argc, char **argv) {
  if (argc > 3 && !strcmp(argv[1], "--prep")) { std::vector<std::string> more; for (int i = 4; i < argc; ++i) more.push_back(argv[i]); return prep(argv[3], argv[2], more); }
  if (argc < 4) { fprintf(stderr, "usage: symex prog.bc jobs.txt outdir [-j N] [-mem MB]\n       symex --prep out.bc in.bc...\n"); return 2; }
  int J = 8; long mem = 3500;
  for (int i = 4; i + 1 < argc; i += 2) { if (!strcmp(argv[i], "-j")) J = atoi(argv[i + 1]); if (!strcmp(argv[i], "-mem")) mem = atol(argv[i + 1]); if (!strcmp(argv[i], "-q")) gQueryTimeoutMs = atoi(argv[i + 1]); }
  Ctx = new LLVMContext; SMDiagnostic D; auto m = parseIRFile(argv[1], D, *Ctx); if (!m) { D.print("symex", errs()); return 2; }
  M = m.release(); DL = &M->getDataLayout();
  std::vector<JobCfg> jobs; { std::ifstream in(argv[2]); std::string line; while (std::getline(in, line)) { if (line.empty() || line[0] == '#') continue; std::istringstream ss(line); JobCfg j; std::string ps, opt; ss >> j.id >> j.entry >> ps >> j.timeout; if (ps != "-") { std::istringstream q(ps); std::string t; while (std::getline(q, t, ',')) j.params.push_back(strtol(t.c_str(), nullptr, 0)); } while (ss >> opt) { if (opt == "hash=real") j.realHash = true; if (opt == "merge") j.merge = true; if (opt == "forkaddr") j.forkAddr = true; if (opt.rfind("insts=", 0) == 0) j.maxInsts = atoll(opt.c_str() + 6); if (opt.rfind("paths=", 0) == 0) j.maxPaths = atoll(opt.c_str() + 6); } jobs.push_back(j); } }
  std::string od = argv[3]; std::map<pid_t, size_t> run; size_t next = 0; int rc = 0;
  auto runOne = [&](size_t i) { job = jobs[i]; partialPath = od + "/" + job.id + ".json"; remove(partialPath.c_str()); json::Object o = runJob(); std::error_code EC; std::string tmp = od + "/" + job.id + ".tmp"; { raw_fd_ostream os(tmp, EC); os << json::Value(std::move(o)); } rename(tmp.c_str(), (od + "/" + job.id + ".json").c_str()); };
  if (J == 0) { for (size_t i = 0; i < jobs.size() && i < 1; ++i) runOne(i); return 0; }
  while (next < jobs.size() || !run.empty()) {
    while (next < jobs.size() && (int)run.size() < J) {
      size_t i = next++; fflush(nullptr); pid_t p = fork();
      if (p == 0) { struct rlimit rl{(rlim_t)mem << 20, (rlim_t)mem << 20}; setrlimit(RLIMIT_AS, &rl); alarm((unsigned)(jobs[i].timeout * 1.5 + 20)); runOne(i); _exit(0); }
      run[p] = i;
    }
    int st; pid_t p = wait(&st); if (p <= 0) break; auto it = run.find(p); if (it == run.end()) continue; size_t i = it->second; run.erase(it);
    if ((!WIFEXITED(st) || WEXITSTATUS(st)) && access((od + "/" + jobs[i].id + ".json").c_str(), F_OK)) { std::ofstream f(od + "/" + jobs[i].id + ".json"); f << "{\"id\":\"" << jobs[i].id << "\",\"entry\":\"" << jobs[i].entry << "\",\"status\":\"undecided\",\"why\":\"engine process ended with status " << st << " (time or memory limit)\"}"; }
  }
  return rc;
}
int main(int argc, char **argv) {
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1ull << 30);
  static MainArgs A; A = {argc, argv, 0}; pthread_t t;
  pthread_create(&t, &at, [](void *p) -> void * { MainArgs *a = (MainArgs *)p; a->rc = realMain(a->argc, a->argv); return nullptr; }, &A); pthread_join(t, nullptr); return A.rc;
}
