#include "solver.hpp"
#include <llvm/ADT/SmallString.h>
#include <llvm/ADT/SmallVector.h>
#include <llvm/ADT/StringRef.h>
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cstring>
#include <cmath>
#include <fcntl.h>
#include <signal.h>
#include <map>
#include <set>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

SolverStats gSS;
unsigned gQueryTimeoutMs = 10000;
double gDeadline = 1e18;
double nowSec() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static Z3_context C = nullptr;
static Z3_solver inc = nullptr; static size_t incCount = 0;
static std::unordered_map<uint32_t, Z3_ast> trMemo;    // expr id -> bv ast (width-1 as bv1? -> bool kept separately)
static std::unordered_map<uint32_t, Z3_ast> trBool;    // width-1 expressions as Bool
static std::unordered_map<uint32_t, Z3_ast> litOf;     // constraint id -> assumption literal in inc
static std::unordered_map<uint32_t, Z3_ast> varAst;    // var number -> ast

static void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
static void init() {
  if (C) return;
  Z3_config cfg = Z3_mk_config(); C = Z3_mk_context(cfg); Z3_set_error_handler(C, onErr);
}
static Z3_sort bv(uint32_t w) { return Z3_mk_bv_sort(C, w); }
static Z3_ast tr(E e); static Z3_ast trB(E e);
static Z3_ast mkNum(const APInt &v) {
  std::string str; { std::vector<char> buf; APInt x = v; llvm::SmallVector<char, 80> b; x.toStringUnsigned(b, 10); str.assign(b.begin(), b.end()); }
  return Z3_mk_numeral(C, str.c_str(), bv(v.getBitWidth()));
}
static Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(C, b, Z3_mk_unsigned_int(C, 1, bv(1)), Z3_mk_unsigned_int(C, 0, bv(1))); }
static void visit(E e) { // children first, iteratively
  std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back();
    bool have = x->w == 1 ? trBool.count(x->id) : trMemo.count(x->id);
    if (have) { st.pop_back(); continue; }
    bool ready = true;
    for (int i = 0; i < x->nk; ++i) { E k = x->k[i]; bool h = k->w == 1 ? trBool.count(k->id) : trMemo.count(k->id); if (!h) { st.push_back(k); ready = false; } }
    if (!ready) continue;
    st.pop_back();
    auto K = [&](int i) { return x->k[i]->w == 1 ? b2v(trBool[x->k[i]->id]) : trMemo[x->k[i]->id]; };
    auto KB = [&](int i) { return trBool[x->k[i]->id]; };
    Z3_ast r = nullptr; bool isB = false;
    switch (x->op) {
      case O_CONST: if (x->w == 1) { r = x->c.isZero() ? Z3_mk_false(C) : Z3_mk_true(C); isB = true; } else r = mkNum(x->c); break;
      case O_VAR: { Z3_ast v = Z3_mk_const(C, Z3_mk_int_symbol(C, x->p0), bv(x->w)); Z3_inc_ref(C, v); varAst[x->p0] = v;
        if (x->w == 1) { r = Z3_mk_eq(C, v, Z3_mk_unsigned_int(C, 1, bv(1))); isB = true; } else r = v; } break;
      case O_ADD: r = Z3_mk_bvadd(C, K(0), K(1)); break; case O_SUB: r = Z3_mk_bvsub(C, K(0), K(1)); break;
      case O_MUL: r = Z3_mk_bvmul(C, K(0), K(1)); break; case O_UDIV: r = Z3_mk_bvudiv(C, K(0), K(1)); break;
      case O_SDIV: r = Z3_mk_bvsdiv(C, K(0), K(1)); break; case O_UREM: r = Z3_mk_bvurem(C, K(0), K(1)); break;
      case O_SREM: r = Z3_mk_bvsrem(C, K(0), K(1)); break;
      case O_AND: if (x->w == 1) { Z3_ast a[2] = {KB(0), KB(1)}; r = Z3_mk_and(C, 2, a); isB = true; } else r = Z3_mk_bvand(C, K(0), K(1)); break;
      case O_OR: if (x->w == 1) { Z3_ast a[2] = {KB(0), KB(1)}; r = Z3_mk_or(C, 2, a); isB = true; } else r = Z3_mk_bvor(C, K(0), K(1)); break;
      case O_XOR: if (x->w == 1) { if (x->k[1]->isConst()) r = Z3_mk_not(C, KB(0)); else r = Z3_mk_xor(C, KB(0), KB(1)); isB = true; }
        else if (x->k[1]->isConst() && x->k[1]->c.isAllOnes()) r = Z3_mk_bvnot(C, K(0)); else r = Z3_mk_bvxor(C, K(0), K(1)); break;
      case O_SHL: r = Z3_mk_bvshl(C, K(0), K(1)); break; case O_LSHR: r = Z3_mk_bvlshr(C, K(0), K(1)); break; case O_ASHR: r = Z3_mk_bvashr(C, K(0), K(1)); break;
      case O_CONCAT: r = Z3_mk_concat(C, K(0), K(1)); break;
      case O_EXTRACT: r = Z3_mk_extract(C, x->p0 + x->w - 1, x->p0, K(0));
        if (x->w == 1) { r = Z3_mk_eq(C, r, Z3_mk_unsigned_int(C, 1, bv(1))); isB = true; } break;
      case O_ZEXT: r = Z3_mk_zero_ext(C, x->w - x->k[0]->w, K(0)); break;
      case O_SEXT: r = Z3_mk_sign_ext(C, x->w - x->k[0]->w, K(0)); break;
      case O_ITE: if (x->w == 1) { r = Z3_mk_ite(C, KB(0), KB(1), KB(2)); isB = true; } else r = Z3_mk_ite(C, KB(0), K(1), K(2)); break;
      case O_EQ: r = Z3_mk_eq(C, K(0), K(1)); isB = true; break;
      case O_ULT: r = Z3_mk_bvult(C, K(0), K(1)); isB = true; break;
      case O_SLT: r = Z3_mk_bvslt(C, K(0), K(1)); isB = true; break;
      default: fprintf(stderr, "translate: unlowered op %d\n", x->op); abort();
    }
    if (x->w == 1 && !isB) r = Z3_mk_eq(C, r, Z3_mk_unsigned_int(C, 1, bv(1)));
    Z3_inc_ref(C, r);
    if (x->w == 1) trBool[x->id] = r; else trMemo[x->id] = r;
  }
}
static Z3_ast trB(E e) { e = lowerFP(e); visit(e); return trBool[e->id]; }

static ModelP extractModel(Z3_model m, const std::vector<uint32_t> &vars, const ModelP &base) {
  auto r = std::make_shared<Model>(); r->id = Model::next();
  if (base) r->v = base->v;
  for (auto v : vars) {
    if (r->v.size() <= v) r->v.resize(v + 1, APInt(1, 0));
    auto it = varAst.find(v); APInt val(gVars[v].w, 0);
    if (it != varAst.end()) { Z3_ast out; if (Z3_model_eval(C, m, it->second, true, &out)) { Z3_inc_ref(C, out);
        val = APInt(gVars[v].w, llvm::StringRef(Z3_get_numeral_string(C, out)), 10); Z3_dec_ref(C, out); } }
    r->v[v] = val;
  }
  return r;
}
static Z3_solver fresh(bool) {
  const char *names[] = {"simplify", "propagate-values", "solve-eqs", "elim-uncnstr", "simplify", "max-bv-sharing", "bit-blast", "simplify", "sat"};
  Z3_tactic t = nullptr;
  for (auto n : names) { Z3_tactic u = Z3_mk_tactic(C, n); Z3_tactic_inc_ref(C, u); if (!t) t = u; else { t = Z3_tactic_and_then(C, t, u); Z3_tactic_inc_ref(C, t); } }
  return Z3_mk_solver_from_tactic(C, t);
}
static void setTimeout(Z3_solver s, unsigned ms) {
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), ms);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "max_memory"), 3000);
  Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p);
}

struct CacheEnt { Res r; std::vector<std::pair<uint32_t, APInt>> m; };
static std::unordered_map<std::string, CacheEnt> cache;

// equalities between a variable and a constant are substituted everywhere (the equality itself is kept)
static void flatten(E e, std::vector<E> &out) { if (e->op == O_AND && e->w == 1) { flatten(e->k[0], out); flatten(e->k[1], out); } else out.push_back(e); }
static void propagate(std::vector<E> &slice, E &q) {
  std::vector<E> all; flatten(q, all); for (auto c : slice) flatten(c, all);
  std::unordered_map<uint32_t, E> sub;
  for (int round = 0; round < 8; ++round) {
    std::vector<E> eqs; std::unordered_map<uint32_t, E> now; std::vector<uint32_t> keep;
    for (auto c : all) { E v = nullptr, k = nullptr; if (c->op == O_EQ && c->k[0]->op == O_VAR && c->k[1]->isConst()) { v = c->k[0]; k = c->k[1]; } else if (c->op == O_VAR) { v = c; k = mkTrue(); } else if (c->op == O_XOR && c->k[0]->op == O_VAR && c->k[1]->isConst()) { v = c->k[0]; k = mkNot(c->k[1]); }
      if (v && !sub.count(v->p0) && !now.count(v->p0)) { now[v->p0] = k; eqs.push_back(c); } }
    if (now.empty()) break;
    std::vector<E> next; for (auto c : all) { bool isEq = std::find(eqs.begin(), eqs.end(), c) != eqs.end(); E d = isEq ? c : substVars(c, now); if (!isEq && d->isConst()) { if (d->c.isZero()) { q = mkFalse(); slice.clear(); return; } continue; } flatten(d, next); }
    for (auto &p : now) sub.insert(p); all.swap(next);
  }
  if (sub.empty()) return;
  slice = all; q = mkTrue();
}

Res solve(const std::vector<E> &csIn, E q, const ModelP &base, ModelP *out, unsigned tmo) {
  init();
  if (q->isConst()) { if (q->c.isZero()) return R_UNSAT; if (base) { if (out) *out = base; return R_SAT; } }
  if (base && evalBool(q, *base)) { if (out) *out = base; return R_SAT; }
  // independent slice
  std::vector<E> slice; std::vector<uint32_t> vars = exprVars(q);
  if (!base) { slice = csIn; for (auto c : csIn) { std::vector<uint32_t> u; auto &b = exprVars(c); std::set_union(vars.begin(), vars.end(), b.begin(), b.end(), std::back_inserter(u)); vars.swap(u); } }
  else {
    std::vector<char> in(gVars.size() + 1, 0); for (auto v : vars) in[v] = 1;
    std::vector<char> used(csIn.size(), 0); bool ch = true;
    while (ch) { ch = false;
      for (size_t i = 0; i < csIn.size(); ++i) if (!used[i]) { auto &cv = exprVars(csIn[i]); bool hit = false; for (auto v : cv) if (in[v]) { hit = true; break; }
        if (hit) { used[i] = 1; slice.push_back(csIn[i]); for (auto v : cv) if (!in[v]) { in[v] = 1; ch = true; } } } }
    vars.clear(); for (size_t v = 0; v < in.size(); ++v) if (in[v]) vars.push_back(v);
  }
  std::vector<uint32_t> ids; for (auto c : slice) ids.push_back(c->id);
  std::sort(ids.begin(), ids.end()); ids.erase(std::unique(ids.begin(), ids.end()), ids.end()); ids.push_back(q->id);
  std::string key((char *)ids.data(), ids.size() * 4);
  auto it = cache.find(key);
  if (it != cache.end()) {
    ++gSS.cacheHits;
    if (it->second.r == R_SAT && out) { auto m = std::make_shared<Model>(); m->id = Model::next(); if (base) m->v = base->v;
      for (auto &p : it->second.m) { if (m->v.size() <= p.first) m->v.resize(p.first + 1, APInt(1, 0)); m->v[p.first] = p.second; } *out = m; }
    return it->second.r;
  }
  double t0 = nowSec(); ++gSS.queries;
  unsigned ms = tmo ? tmo : gQueryTimeoutMs;
  double left = gDeadline - t0; if (left < 0.02) { ++gSS.unknown; return R_UNKNOWN; }
  if (left * 1000 < ms) ms = (unsigned)(left * 1000) + 1;
  bool fp = q->hard; for (auto c : slice) fp |= c->hard;
  Res r = R_UNKNOWN; ModelP model;
  auto finish = [&](Z3_solver s, Z3_lbool b) {
    if (b == Z3_L_TRUE) { r = R_SAT; Z3_model m = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, m); model = extractModel(m, vars, base); Z3_model_dec_ref(C, m);
      // trust nothing: the model must satisfy the query under the evaluator
      bool ok = evalBool(q, *model); for (auto c : slice) ok = ok && evalBool(c, *model);
      if (!ok) { fprintf(stderr, "warning: solver model fails evaluation\n"); if (getenv("SYMEX_DUMP")) writeSmt2("/tmp/badmodel.smt2", slice, q); r = R_UNKNOWN; model = nullptr; } }
    else if (b == Z3_L_FALSE) r = R_UNSAT; };
  if (!fp) {
    if (!inc || incCount > 6000) {
      if (inc) Z3_solver_dec_ref(C, inc);
      inc = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV")); Z3_solver_inc_ref(C, inc); incCount = 0; litOf.clear(); }
    std::vector<Z3_ast> as;
    auto lit = [&](E c) { auto f = litOf.find(c->id); if (f != litOf.end()) return f->second;
      Z3_ast p = Z3_mk_fresh_const(C, "p", Z3_mk_bool_sort(C)); Z3_inc_ref(C, p); Z3_solver_assert(C, inc, Z3_mk_implies(C, p, trB(c))); ++incCount; litOf[c->id] = p; return p; };
    for (auto c : slice) as.push_back(lit(c));
    as.push_back(lit(q));
    setTimeout(inc, std::min(ms, 3000u));
    Z3_lbool b = Z3_solver_check_assumptions(C, inc, as.size(), as.data());
    finish(inc, b);
  }
  if (fp) { // candidate values first: most feasible branches have an ordinary witness
    static const double sp[] = {0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 0.25, 3.0, 1e30, -1e30, 1e-30, 1e300, -1e300, 1e-320, 255.5, 1000.25, -0.0, INFINITY, -INFINITY, 1e10, -1e10, 70000.0, NAN};
    static uint64_t rs = 88172645463325252ULL; auto rnd = [&] { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; };
    auto qv = exprVars(q); int rounds = qv.size() > 400 ? 0 : 150;
    for (int k = 0; k < rounds && r == R_UNKNOWN; ++k) {
      auto m = std::make_shared<Model>(); m->id = Model::next(); if (base) m->v = base->v;
      for (auto v : vars) { if (m->v.size() <= v) m->v.resize(v + 1, APInt(1, 0)); uint32_t w = gVars[v].w; if (m->v[v].getBitWidth() != w) m->v[v] = APInt(w, 0);
        if (k && base && !std::binary_search(qv.begin(), qv.end(), v) && rnd() % 4) continue;
        if (k >= 24 && base && rnd() % 3 == 0) continue;
        APInt x(w, 0); if (w == 64) { double d = k < 24 ? sp[k] : sp[rnd() % 24]; uint64_t u; memcpy(&u, &d, 8); if (rnd() % 4 == 0 && k >= 24) u = rnd(); x = APInt(64, u); } else if (w == 32 && k % 2) { float d = (float)(k < 24 ? sp[k] : sp[rnd() % 24]); uint32_t u; memcpy(&u, &d, 4); x = APInt(32, u); } else { uint64_t u = rnd(); if (rnd() % 3 == 0) u = 0; else if (rnd() % 3 == 0) u = ~0ull; else if (rnd() % 3 == 0) u &= 7; x = APInt(std::max(w, 64u), u).trunc(w > 64 ? 64 : w).zext(w); }
        m->v[v] = x; }
      if (evalBool(q, *m)) { bool ok = true; for (auto c : slice) if (!evalBool(c, *m)) { ok = false; break; } if (ok) { r = R_SAT; model = m; ++gSS.guessed; } }
    }
    if (r == R_UNKNOWN) propagate(slice, q);
    if (r == R_UNKNOWN && !q->isConst()) { // floating-point formulas over very few bits: every case
      // only the bits that occur count: a byte of a longer block of memory is an extract of its variable
      std::map<uint32_t, APInt> used; { std::unordered_set<E> seen; std::vector<E> st{q}; for (auto c : slice) st.push_back(c);
        auto all = [&](E v) { auto it = used.emplace(v->p0, APInt(v->w, 0)).first; return &it->second; };
        while (!st.empty()) { E x = st.back(); st.pop_back(); if (!x->hasVar || !seen.insert(x).second) continue;
          if (x->op == O_VAR) { all(x)->setAllBits(); continue; } if (x->op == O_EXTRACT && x->k[0]->op == O_VAR) { all(x->k[0])->setBits(x->p0, x->p0 + x->w); continue; }
          for (int i = 0; i < x->nk; ++i) st.push_back(x->k[i]); } }
      unsigned bits = 0; for (auto &u : used) bits += u.second.popcount(); u_long size = exprSize(q); for (auto c : slice) size += exprSize(c);
      if (bits <= 16 && (size << bits) < 60000000ul) { r = R_UNSAT; ++gSS.cases;
        for (uint64_t x = 0; x >> bits == 0 && r == R_UNSAT; ++x) {
          auto m = std::make_shared<Model>(); m->id = Model::next(); if (base) m->v = base->v; uint64_t rest = x;
          for (auto v : vars) { if (m->v.size() <= v) m->v.resize(v + 1, APInt(1, 0)); uint32_t w = gVars[v].w; APInt val(w, 0); auto u = used.find(v); if (u != used.end()) for (uint32_t b = 0; b < w; ++b) if (u->second[b]) { if (rest & 1) val.setBit(b); rest >>= 1; } m->v[v] = val; }
          bool ok = evalBool(q, *m); for (size_t i = 0; ok && i < slice.size(); ++i) ok = evalBool(slice[i], *m);
          if (ok) { r = R_SAT; model = m; } } }
    }
    if (r == R_UNKNOWN && realUnsat(slice, q, std::min(ms, 2500u))) { r = R_UNSAT; ++gSS.realProofs; }
  }
  if (r == R_UNKNOWN && q->isConst() && q->c.isZero()) r = R_UNSAT;
  if (r == R_UNKNOWN && nowSec() < gDeadline) {
    ++gSS.hard; if (getenv("SYMEX_HARD")) fprintf(stderr, "hard query size=%lu fp=%d vars=%zu slice=%zu q=%s\n", (unsigned long)exprSize(q), fp, vars.size(), slice.size(), exprStr(q, atoi(getenv("SYMEX_HARD"))).c_str());
    if (fp && ms == 20000) ms = 10000;
    Z3_solver s = fresh(fp); Z3_solver_inc_ref(C, s); setTimeout(s, ms);
    gLowerUntil = nowSec() + ms / 1000.0;
    try {
      for (auto c : slice) Z3_solver_assert(C, s, trB(c));
      Z3_solver_assert(C, s, trB(q));
      Z3_lbool b = Z3_solver_check(C, s);
      finish(s, b);
    } catch (LowerTimeout &) {}
    gLowerUntil = 1e18;
    Z3_solver_dec_ref(C, s);
    if (fp && !tmo && r == R_UNKNOWN && nowSec() < gDeadline && realUnsat(slice, q, std::min(2 * ms, 8000u))) { r = R_UNSAT; ++gSS.realProofs; } // once more, with patience
  }
  double dt = nowSec() - t0; gSS.seconds += dt; gSS.maxSec = std::max(gSS.maxSec, dt);
  if (getenv("SYMEX_SLOW") && dt > atof(getenv("SYMEX_SLOW"))) { static int n = 0; fprintf(stderr, "slow query %.2fs r=%d size=%lu fp=%d vars=%zu q=%s\n", dt, r, (unsigned long)exprSize(q), fp, vars.size(), exprStr(q, getenv("SYMEX_DEPTH") ? atoi(getenv("SYMEX_DEPTH")) : 4).c_str());
    if (getenv("SYMEX_DUMP")) writeSmt2("/tmp/slow" + std::to_string(n++) + ".smt2", slice, q); }
  if (r == R_SAT) ++gSS.sat; else if (r == R_UNSAT) ++gSS.unsat; else ++gSS.unknown;
  if (r != R_UNKNOWN) { CacheEnt ce; ce.r = r; if (model) for (auto v : vars) ce.m.push_back({v, model->v[v]}); cache.emplace(key, std::move(ce)); }
  if (r == R_SAT && out) *out = model;
  return r;
}
bool writeSmt2(const std::string &path, const std::vector<E> &cs, E q) {
  init(); Z3_solver s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV")); Z3_solver_inc_ref(C, s);
  for (auto c : cs) Z3_solver_assert(C, s, trB(c)); Z3_solver_assert(C, s, trB(q));
  FILE *f = fopen(path.c_str(), "w"); if (!f) return false; fprintf(f, "(set-logic QF_BV)\n%s\n(check-sat)\n", Z3_solver_to_string(C, s)); fclose(f); Z3_solver_dec_ref(C, s); return true;
}
