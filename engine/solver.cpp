#include "solver.h"
#include "bsat.h"
#include <z3.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <unordered_map>
#include <algorithm>
#include <map>

SolverStats g_ss; unsigned g_solverTimeoutMs = 60000; double g_solverDeadline = 1e18;
double solverNow() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static Z3_context C; static Z3_solver S; static u64 nAsserted = 0;
static std::unordered_map<Expr*, Z3_ast> lits; static std::unordered_map<u32, Z3_ast> rlits;
static Z3_sort boolS, bvS[65];
static void err(Z3_context c, Z3_error_code e) { fprintf(stderr, "Z3 error: %s\n", Z3_get_error_msg(c, e)); exit(3); }
static Z3_ast K(Z3_ast a) { Z3_inc_ref(C, a); return a; }
static Z3_sort bv(unsigned w) { if (!bvS[w]) { bvS[w] = Z3_mk_bv_sort(C, w); Z3_inc_ref(C, Z3_sort_to_ast(C, bvS[w])); } return bvS[w]; }
static const char *g_logic = "QF_FD";
static void newSolver() {
  if (S) Z3_solver_dec_ref(C, S);
  S = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, g_logic)); Z3_solver_inc_ref(C, S);
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), g_solverTimeoutMs);
  Z3_solver_set_params(C, S, p); Z3_params_dec_ref(C, p);
  lits.clear(); rlits.clear(); nAsserted = 0;
}
void solverInit() {
  if (getenv("SYM_LOGIC")) g_logic = getenv("SYM_LOGIC");
  Z3_config cfg = Z3_mk_config(); C = Z3_mk_context_rc(cfg); Z3_del_config(cfg);
  Z3_set_error_handler(C, err); boolS = Z3_mk_bool_sort(C); Z3_inc_ref(C, Z3_sort_to_ast(C, boolS));
  newSolver();
}
static Z3_ast toB(Expr *e);
static Z3_ast cbv(u64 v, unsigned w) { return K(Z3_mk_unsigned_int64(C, v, bv(w))); }
static Z3_ast toBV(Expr *e) {
  if (e->z3bv) return (Z3_ast)e->z3bv;
  Z3_ast r; unsigned w = e->w;
  if (w == 1 && e->op != O_Sym && e->op != O_Const && e->op != O_Extract) {
    Z3_ast b = toB(e); r = Z3_mk_ite(C, b, cbv(1, 1), cbv(0, 1)); e->z3bv = K(r); return r;
  }
  switch (e->op) {
    case O_Const: r = Z3_mk_unsigned_int64(C, e->val, bv(w)); break;
    case O_Sym: { char nm[32]; snprintf(nm, 32, "s%llu", (unsigned long long)e->val); r = Z3_mk_const(C, Z3_mk_string_symbol(C, nm), bv(w)); break; }
    case O_Add: r = Z3_mk_bvadd(C, toBV(e->a), toBV(e->b)); break;
    case O_Sub: r = Z3_mk_bvsub(C, toBV(e->a), toBV(e->b)); break;
    case O_Mul: r = Z3_mk_bvmul(C, toBV(e->a), toBV(e->b)); break;
    case O_UDiv: r = Z3_mk_bvudiv(C, toBV(e->a), toBV(e->b)); break;
    case O_SDiv: r = Z3_mk_bvsdiv(C, toBV(e->a), toBV(e->b)); break;
    case O_URem: r = Z3_mk_bvurem(C, toBV(e->a), toBV(e->b)); break;
    case O_SRem: r = Z3_mk_bvsrem(C, toBV(e->a), toBV(e->b)); break;
    case O_And: r = Z3_mk_bvand(C, toBV(e->a), toBV(e->b)); break;
    case O_Or: r = Z3_mk_bvor(C, toBV(e->a), toBV(e->b)); break;
    case O_Xor: r = Z3_mk_bvxor(C, toBV(e->a), toBV(e->b)); break;
    case O_Shl: r = Z3_mk_bvshl(C, toBV(e->a), toBV(e->b)); break;
    case O_LShr: r = Z3_mk_bvlshr(C, toBV(e->a), toBV(e->b)); break;
    case O_AShr: r = Z3_mk_bvashr(C, toBV(e->a), toBV(e->b)); break;
    case O_Concat: r = Z3_mk_concat(C, toBV(e->a), toBV(e->b)); break;
    case O_Extract: r = Z3_mk_extract(C, e->lo + w - 1, e->lo, toBV(e->a)); break;
    case O_ZExt: r = Z3_mk_zero_ext(C, w - e->a->w, toBV(e->a)); break;
    case O_SExt: r = Z3_mk_sign_ext(C, w - e->a->w, toBV(e->a)); break;
    case O_Ite: r = Z3_mk_ite(C, toB(e->a), toBV(e->b), toBV(e->c)); break;
    case O_Popcnt: {
      // sum of single bits by a balanced tree on growing widths
      std::vector<std::pair<Z3_ast, unsigned>> v; Z3_ast x = toBV(e->a);
      for (unsigned i = 0; i < w; i++) if (!(e->a->kz >> i & 1)) v.push_back({K(Z3_mk_extract(C, i, i, x)), 1});
      if (v.empty()) { r = Z3_mk_unsigned_int64(C, 0, bv(w)); break; }
      while (v.size() > 1) { std::vector<std::pair<Z3_ast, unsigned>> n;
        for (size_t i = 0; i + 1 < v.size(); i += 2) { unsigned ww = std::max(v[i].second, v[i+1].second) + 1;
          n.push_back({K(Z3_mk_bvadd(C, K(Z3_mk_zero_ext(C, ww - v[i].second, v[i].first)), K(Z3_mk_zero_ext(C, ww - v[i+1].second, v[i+1].first)))), ww}); }
        if (v.size() & 1) n.push_back(v.back()); v.swap(n); }
      if (v[0].second < w) r = Z3_mk_zero_ext(C, w - v[0].second, v[0].first); else if (v[0].second > w) r = Z3_mk_extract(C, w - 1, 0, v[0].first); else r = v[0].first;
      break; }
    case O_Ctz: case O_Clz: {
      Z3_ast x = toBV(e->a); r = K(Z3_mk_unsigned_int64(C, w, bv(w)));
      for (unsigned j = 0; j < w; j++) { unsigned i = e->op == O_Ctz ? w - 1 - j : j; // last applied has priority
        if (e->a->kz >> i & 1) continue;
        Z3_ast bit = K(Z3_mk_eq(C, K(Z3_mk_extract(C, i, i, x)), cbv(1, 1)));
        r = K(Z3_mk_ite(C, bit, cbv(e->op == O_Ctz ? i : w - 1 - i, w), r)); }
      break; }
    default: fprintf(stderr, "toBV op %d\n", e->op); abort();
  }
  e->z3bv = K(r); return r;
}
static Z3_ast toB(Expr *e) {
  if (e->z3b) return (Z3_ast)e->z3b;
  Z3_ast r;
  switch (e->op) {
    case O_Const: r = e->val ? Z3_mk_true(C) : Z3_mk_false(C); break;
    case O_Eq: r = e->a->w == 1 ? Z3_mk_iff(C, toB(e->a), toB(e->b)) : Z3_mk_eq(C, toBV(e->a), toBV(e->b)); break;
    case O_Ult: r = Z3_mk_bvult(C, toBV(e->a), toBV(e->b)); break;
    case O_Ule: r = Z3_mk_bvule(C, toBV(e->a), toBV(e->b)); break;
    case O_Slt: r = Z3_mk_bvslt(C, toBV(e->a), toBV(e->b)); break;
    case O_Sle: r = Z3_mk_bvsle(C, toBV(e->a), toBV(e->b)); break;
    case O_And: { Z3_ast a[2] = {toB(e->a), toB(e->b)}; r = Z3_mk_and(C, 2, a); break; }
    case O_Or: { Z3_ast a[2] = {toB(e->a), toB(e->b)}; r = Z3_mk_or(C, 2, a); break; }
    case O_Xor: r = isConst(e->b, 1) ? Z3_mk_not(C, toB(e->a)) : Z3_mk_xor(C, toB(e->a), toB(e->b)); break;
    case O_Ite: r = Z3_mk_ite(C, toB(e->a), toB(e->b), toB(e->c)); break;
    case O_Sym: case O_Extract: r = Z3_mk_eq(C, toBV(e), cbv(1, 1)); break;
    case O_Mul: { Z3_ast a[2] = {toB(e->a), toB(e->b)}; r = Z3_mk_and(C, 2, a); break; }
    default: { // rare width-1 arithmetic: go through bit-vectors of width 1
      Z3_ast x; 
      switch (e->op) { case O_UDiv: x = Z3_mk_bvudiv(C, toBV(e->a), toBV(e->b)); break; case O_URem: x = Z3_mk_bvurem(C, toBV(e->a), toBV(e->b)); break;
        case O_SDiv: x = Z3_mk_bvsdiv(C, toBV(e->a), toBV(e->b)); break; case O_SRem: x = Z3_mk_bvsrem(C, toBV(e->a), toBV(e->b)); break;
        case O_Shl: x = Z3_mk_bvshl(C, toBV(e->a), toBV(e->b)); break; case O_LShr: x = Z3_mk_bvlshr(C, toBV(e->a), toBV(e->b)); break;
        case O_AShr: x = Z3_mk_bvashr(C, toBV(e->a), toBV(e->b)); break;
        default: fprintf(stderr, "toB op %d\n", e->op); abort(); }
      r = Z3_mk_eq(C, K(x), cbv(1, 1)); break; }
  }
  e->z3b = K(r); return r;
}
static u64 litN = 0;
static Z3_ast lit(Expr *e) {
  auto it = lits.find(e); if (it != lits.end()) return it->second;
  char nm[32]; snprintf(nm, 32, "L%llu", (unsigned long long)litN++);
  Z3_ast l = K(Z3_mk_const(C, Z3_mk_string_symbol(C, nm), boolS));
  Z3_solver_assert(C, S, K(Z3_mk_implies(C, l, toB(e)))); nAsserted++;
  lits[e] = l; return l;
}
static SatRes z3Check(const std::vector<Expr*> &cs, const std::vector<u32> &vars, Model &out) {
  newSolver();
  std::vector<Z3_ast> as; for (Expr *e : cs) as.push_back(lit(e));
  // Interval bounds of the symbols involved, as solver facts (the simplifier uses them silently).
  for (u32 s : vars) {
    SymInfo &i = g_syms[s]; if (i.lo == 0 && i.hi == maskw(i.w)) continue;
    auto li = rlits.find(s);
    if (li == rlits.end()) {
      Z3_ast x = toBV(i.e); Z3_ast a[2] = {K(Z3_mk_bvule(C, cbv(i.lo, i.w), x)), K(Z3_mk_bvule(C, x, cbv(i.hi, i.w)))};
      char nm[32]; snprintf(nm, 32, "R%llu", (unsigned long long)litN++);
      Z3_ast l = K(Z3_mk_const(C, Z3_mk_string_symbol(C, nm), boolS));
      Z3_solver_assert(C, S, K(Z3_mk_implies(C, l, K(Z3_mk_and(C, 2, a))))); nAsserted++;
      li = rlits.emplace(s, l).first;
    }
    as.push_back(li->second);
  }
  Z3_lbool r = Z3_solver_check_assumptions(C, S, as.size(), as.data());
  if (r == Z3_L_TRUE) {
    Z3_model m = Z3_solver_get_model(C, S); Z3_model_inc_ref(C, m);
    for (u32 s : vars) { Z3_ast v; uint64_t x = 0; if (!Z3_model_eval(C, m, (Z3_ast)g_syms[s].e->z3bv ? (Z3_ast)g_syms[s].e->z3bv : toBV(g_syms[s].e), true, &v)) { fprintf(stderr, "model eval\n"); exit(3); }
      Z3_inc_ref(C, v); if (!Z3_get_numeral_uint64(C, v, &x)) { fprintf(stderr, "model numeral\n"); exit(3); } Z3_dec_ref(C, v); out[s] = x; }
    Z3_model_dec_ref(C, m); return R_SAT;
  }
  return r == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
}
static u64 hashQuery(const std::vector<Expr*> &cs) { u64 h = 88172645463325252ULL + g_ss.queries; h ^= h << 13; h ^= h >> 7; h ^= h << 17; (void)cs; return h; }
unsigned g_crossEvery = 64;
static size_t dagSize(const std::vector<Expr*> &cs, size_t lim) { std::unordered_map<Expr*,int> seen; std::vector<Expr*> st(cs.begin(), cs.end()); while (!st.empty() && seen.size() < lim) { Expr *e = st.back(); st.pop_back(); if (!e || seen[e]++) continue; st.push_back(e->a); st.push_back(e->b); st.push_back(e->c); } return seen.size(); }
SatRes solverCheck(const std::vector<Expr*> &cs0, Model &out) {
  auto t0 = std::chrono::steady_clock::now(); static int useZ3 = getenv("SYM_SOLVER") && !strcmp(getenv("SYM_SOLVER"), "z3");
  std::vector<Expr*> cs; std::vector<u32> vars;
  for (Expr *e : cs0) { if (isConst(e)) { if (!e->val) return R_UNSAT; continue; } cs.push_back(e); vars.insert(vars.end(), e->vars->v.begin(), e->vars->v.end()); }
  std::sort(vars.begin(), vars.end()); vars.erase(std::unique(vars.begin(), vars.end()), vars.end());
  if (out.size() < g_syms.size()) { size_t o = out.size(); out.resize(g_syms.size()); for (size_t k = o; k < out.size(); k++) out[k] = g_syms[k].lo; }
  SatRes res; bool byZ3 = useZ3;
  if (!useZ3) { { double lim = std::min(g_solverTimeoutMs / 1000.0, std::max(2.0, g_solverDeadline - solverNow())); bsCheck(cs, vars, out, res, lim); } if (res == R_UNKNOWN && dagSize(cs, 3000) < 3000) byZ3 = true; }
  if (byZ3) { res = z3Check(cs, vars, out); g_ss.byZ3++; }
  g_ss.queries++;
  if (res == R_SAT) { g_ss.sat++;
    // independent check of the solver's model against our own evaluator
    newEpoch();
    for (Expr *e : cs) if (!evalExprSameEpoch(e, out)) { fprintf(stderr, "solver model does not satisfy constraint %s\n", exprStr(e).c_str()); exit(3); }
    for (u32 s : vars) if (out[s] < g_syms[s].lo || out[s] > g_syms[s].hi) { fprintf(stderr, "model range\n"); exit(3); }
  } else if (res == R_UNSAT) { g_ss.unsat++;
    // a sample of the refutations is decided a second time, by Z3
    if (!byZ3 && g_crossEvery && hashQuery(cs) % g_crossEvery == 0 && dagSize(cs, 400) < 400) { Model m2 = out; SatRes r2 = z3Check(cs, vars, m2); if (r2 == R_SAT) { fprintf(stderr, "solver disagreement with Z3\n"); exit(3); } if (r2 == R_UNSAT) g_ss.crossed++; } }
  else { g_ss.unknown++; fprintf(stderr, "solver unknown\n"); }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (getenv("SYM_SLOWQ") && dt > atof(getenv("SYM_SLOWQ"))) { std::unordered_map<Expr*,int> seen; std::vector<Expr*> st(cs.begin(), cs.end()); while (!st.empty()) { Expr *e = st.back(); st.pop_back(); if (!e || seen[e]++) continue; st.push_back(e->a); st.push_back(e->b); st.push_back(e->c); }
    { std::map<std::pair<int,int>,int> h; for (auto &p : seen) if (p.first) h[{p.first->op, p.first->w}]++; static const char *nm[] = {"c","s","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","cat","ext","zx","sx","ite","eq","ult","ule","slt","sle","popc","ctz","clz"}; for (auto &p : h) fprintf(stderr, "%s:%d=%d ", nm[p.first.first], p.first.second, p.second); fprintf(stderr, "\n"); for (Expr *e : cs) fprintf(stderr, "   C %.400s\n", exprStr(e, 5).c_str()); }
    fprintf(stderr, "slow query %.3fs res %d constraints %zu dag %zu asserted %llu  last: %.300s\n", dt, res, cs.size(), seen.size(), (unsigned long long)nAsserted, exprStr(cs.back()).c_str()); }
  g_ss.time += dt; if (dt > g_ss.maxTime) g_ss.maxTime = dt;
  return res;
}

extern std::vector<Expr*> *g_selfBools;
// Random queries decided by both back ends.
int solverSelfTest(u64 seed, int n) {
  std::vector<Expr*> pool; g_selfBools = &pool; exprSelfTest(seed * 7919 + 13, n); g_selfBools = nullptr; u64 h = seed * 0x9E3779B97F4A7C15ULL + 1; auto rnd = [&] { h ^= h << 13; h ^= h >> 7; h ^= h << 17; return h; };
  int bad = 0, sat = 0, uns = 0; g_solverTimeoutMs = 2000; newSolver();
  for (size_t i = 0; i < pool.size(); i++) { std::vector<Expr*> cs; size_t k = 1 + rnd() % 3; for (size_t j = 0; j < k; j++) { Expr *e = pool[i >= j ? i - j : 0]; if (rnd() & 1) e = mkNot(e); if (!isConst(e)) cs.push_back(e); } if (cs.empty()) continue;
    std::vector<u32> vars; for (Expr *e : cs) vars.insert(vars.end(), e->vars->v.begin(), e->vars->v.end()); std::sort(vars.begin(), vars.end()); vars.erase(std::unique(vars.begin(), vars.end()), vars.end());
    Model m1(g_syms.size()), m2(g_syms.size()); SatRes a, b; bsCheck(cs, vars, m1, a, 2); if (a == R_UNKNOWN) continue; b = z3Check(cs, vars, m2); if (b == R_UNKNOWN) continue;
    if (a != b) { bad++; fprintf(stderr, "solver mismatch %d %d: %s\n", a, b, exprStr(cs[0]).c_str()); }
    if (a == R_SAT) { sat++; newEpoch(); for (Expr *e : cs) if (!evalExprSameEpoch(e, m1)) { bad++; fprintf(stderr, "bad model\n"); break; } } else uns++; }
  printf("solver self-test: %d sat, %d unsat, %d mismatches\n", sat, uns, bad); return bad; }
