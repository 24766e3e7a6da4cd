#include "bsat.h"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unordered_map>

namespace {
typedef u32 Lit; // 2*var + negated; variable 0 is the constant true
const Lit TRUE_ = 0, FALSE_ = 1, NOLIT = ~0u;
inline u32 var(Lit l) { return l >> 1; } inline Lit neg(Lit l) { return l ^ 1; }
enum GK : u8 { G_Input, G_And, G_Xor, G_Mux, G_Maj };
struct Gate { u8 k; Lit a, b, c; };
struct Watch { u32 cr; Lit blk; };
struct Solver {
  std::vector<Gate> gate; std::vector<u8> val; // val: 0 unassigned 1 true 2 false (of the variable)
  std::vector<u8> phase; std::vector<u32> reason; std::vector<i32> level; std::vector<double> act; std::vector<u8> seen; std::vector<u32> hpos; std::vector<u32> heap; std::vector<u32> coneMark; u32 coneGen = 0;
  std::vector<std::vector<Watch>> w; std::vector<u32> ar; std::vector<u32> learnts; std::vector<Lit> trail; std::vector<u32> lim; size_t qh = 0; double inc = 1; u64 conflicts = 0, maxLearn = 4000; 
  std::unordered_map<u64, Lit> sh[5]; std::unordered_map<u64, std::unordered_map<u32, Lit>> sh3[5];
  bool bad = false;
  static const u32 NOREASON = ~0u, NOH = ~0u;
  Solver() { newVar(G_Input, 0, 0, 0); val[0] = 1; level[0] = 0; }
  u32 newVar(u8 k, Lit a, Lit b, Lit c) { u32 v = gate.size(); gate.push_back({k, a, b, c}); val.push_back(0); phase.push_back(0); reason.push_back(NOREASON); level.push_back(0); act.push_back(0); seen.push_back(0); hpos.push_back(NOH); coneMark.push_back(0); w.emplace_back(); w.emplace_back(); return v; }
  inline int lv(Lit l) const { u8 x = val[l >> 1]; return x == 0 ? 0 : ((x == 1) != (bool)(l & 1)) ? 1 : -1; }
  // clauses: header word = size<<1 | learnt, then literals
  u32 addClause(const Lit *c, u32 n, bool learnt) { u32 cr = ar.size(); ar.push_back(n << 1 | learnt); for (u32 i = 0; i < n; i++) ar.push_back(c[i]); w[neg(c[0])].push_back({cr, c[1]}); w[neg(c[1])].push_back({cr, c[0]}); return cr; }
  void cl(std::initializer_list<Lit> l) { // at level 0 only: watch literals that are not already false
    Lit t[4]; u32 n = 0, nf = 0; for (Lit x : l) { t[n++] = x; if (lv(x) >= 0) std::swap(t[nf++], t[n - 1]); }
    if (nf == 0) { fprintf(stderr, "bsat: falsified definition\n"); exit(3); }
    addClause(t, n, false); if (nf == 1 && !lv(t[0])) enqueue(t[0], NOREASON); }
  // ---- gates (with constant folding and sharing) ----
  Lit And(Lit a, Lit b) {
    if (a == FALSE_ || b == FALSE_) return FALSE_; if (a == TRUE_) return b; if (b == TRUE_) return a; if (a == b) return a; if (a == neg(b)) return FALSE_;
    if (a > b) std::swap(a, b); u64 k = (u64)a << 32 | b; auto it = sh[G_And].find(k); if (it != sh[G_And].end()) return it->second;
    Lit g = 2 * newVar(G_And, a, b, 0); cl({neg(g), a}); cl({neg(g), b}); cl({g, neg(a), neg(b)}); sh[G_And][k] = g; return g; }
  Lit Or(Lit a, Lit b) { return neg(And(neg(a), neg(b))); }
  Lit Xor(Lit a, Lit b) {
    if (a == FALSE_) return b; if (b == FALSE_) return a; if (a == TRUE_) return neg(b); if (b == TRUE_) return neg(a); if (a == b) return FALSE_; if (a == neg(b)) return TRUE_;
    Lit s = (a & 1) ^ (b & 1); a &= ~1u; b &= ~1u; if (a > b) std::swap(a, b); u64 k = (u64)a << 32 | b; auto it = sh[G_Xor].find(k); if (it != sh[G_Xor].end()) return it->second ^ s;
    Lit g = 2 * newVar(G_Xor, a, b, 0); cl({neg(g), a, b}); cl({neg(g), neg(a), neg(b)}); cl({g, neg(a), b}); cl({g, a, neg(b)}); sh[G_Xor][k] = g; return g ^ s; }
  Lit Mux(Lit c, Lit a, Lit b) {
    if (c == TRUE_) return a; if (c == FALSE_) return b; if (a == b) return a; if (c & 1) { c ^= 1; std::swap(a, b); }
    if (a == TRUE_ || a == c) return Or(c, b); if (a == FALSE_ || a == neg(c)) return And(neg(c), b); if (b == TRUE_ || b == neg(c)) return Or(neg(c), a); if (b == FALSE_ || b == c) return And(c, a); if (a == neg(b)) return neg(Xor(c, a)); 
    Lit s = a & 1; a ^= s; b ^= s; u64 k = (u64)a << 32 | b; auto &m = sh3[G_Mux][k]; auto it = m.find(c); if (it != m.end()) return it->second ^ s;
    Lit g = 2 * newVar(G_Mux, c, a, b); cl({neg(c), neg(a), g}); cl({neg(c), a, neg(g)}); cl({c, neg(b), g}); cl({c, b, neg(g)}); cl({neg(a), neg(b), g}); cl({a, b, neg(g)}); sh3[G_Mux][k][c] = g; return g ^ s; }
  Lit Maj(Lit a, Lit b, Lit c) {
    if (a > b) std::swap(a, b); if (b > c) std::swap(b, c); if (a > b) std::swap(a, b);
    if (a == TRUE_) return Or(b, c); if (a == FALSE_) return And(b, c); if (a == b) return a; if (b == c) return b; if (a == neg(b)) return c; if (b == neg(c)) return a;
    u64 k = (u64)a << 32 | b; auto &m = sh3[G_Maj][k]; auto it = m.find(c); if (it != m.end()) return it->second;
    Lit g = 2 * newVar(G_Maj, a, b, c); cl({neg(a), neg(b), g}); cl({neg(a), neg(c), g}); cl({neg(b), neg(c), g}); cl({a, b, neg(g)}); cl({a, c, neg(g)}); cl({b, c, neg(g)}); sh3[G_Maj][k][c] = g; return g; }
  Lit input() { return 2 * newVar(G_Input, 0, 0, 0); }
  // ---- heap ----
  bool hless(u32 a, u32 b) { return act[a] > act[b]; }
  void up(u32 i) { u32 x = heap[i]; while (i) { u32 p = (i - 1) / 2; if (!hless(x, heap[p])) break; heap[i] = heap[p]; hpos[heap[i]] = i; i = p; } heap[i] = x; hpos[x] = i; }
  void down(u32 i) { u32 x = heap[i]; for (;;) { u32 c = 2 * i + 1; if (c >= heap.size()) break; if (c + 1 < heap.size() && hless(heap[c + 1], heap[c])) c++; if (!hless(heap[c], x)) break; heap[i] = heap[c]; hpos[heap[i]] = i; i = c; } heap[i] = x; hpos[x] = i; }
  void hins(u32 v) { if (hpos[v] != NOH) return; hpos[v] = heap.size(); heap.push_back(v); up(hpos[v]); }
  u32 hpop() { u32 x = heap[0]; hpos[x] = NOH; u32 y = heap.back(); heap.pop_back(); if (!heap.empty()) { heap[0] = y; hpos[y] = 0; down(0); } return x; }
  void bump(u32 v) { if ((act[v] += inc) > 1e100) { for (double &d : act) d *= 1e-100; inc *= 1e-100; } if (hpos[v] != NOH) up(hpos[v]); }
  // ---- search ----
  void enqueue(Lit l, u32 r) { u32 v = var(l); val[v] = (l & 1) ? 2 : 1; reason[v] = r; level[v] = lim.size(); trail.push_back(l); }
  u32 propagate() {
    const bool all = lim.empty(); // above level 0, clauses that reach outside the cone of the query are left alone: they only define what it does not use
    while (qh < trail.size()) { Lit p = trail[qh++]; std::vector<Watch> &ws = w[p]; size_t i = 0, j = 0, n = ws.size();
      while (i < n) { Watch wt = ws[i]; if (lv(wt.blk) > 0 || (!all && coneMark[var(wt.blk)] != coneGen)) { ws[j++] = ws[i++]; continue; }
        u32 *c = &ar[wt.cr + 1]; u32 sz = ar[wt.cr] >> 1; Lit np = neg(p); if (c[0] == np) { c[0] = c[1]; c[1] = np; } i++;
        Lit f = c[0]; if (f != wt.blk && lv(f) > 0) { ws[j++] = {wt.cr, f}; continue; }
        bool found = false; for (u32 k = 2; k < sz; k++) if (lv(c[k]) >= 0) { c[1] = c[k]; c[k] = np; w[neg(c[1])].push_back({wt.cr, f}); found = true; break; }
        if (found) continue;
        ws[j++] = {wt.cr, f};
        if (lv(f) < 0) { while (i < n) ws[j++] = ws[i++]; ws.resize(j); qh = trail.size(); return wt.cr; }
        if (!all && coneMark[var(f)] != coneGen) continue;
        enqueue(f, wt.cr); }
      ws.resize(j); }
    return NOREASON; }
  void cancel(u32 lvl) { if (lim.size() <= lvl) return; for (size_t i = trail.size(); i-- > lim[lvl];) { u32 v = var(trail[i]); phase[v] = val[v]; val[v] = 0; if (coneMark[v] == coneGen) hins(v); } trail.resize(lim[lvl]); lim.resize(lvl); qh = trail.size(); }
  std::vector<Lit> learnt; 
  u32 analyze(u32 cr) { // first UIP; returns backtrack level
    learnt.assign(1, 0); int cnt = 0; Lit p = NOLIT; size_t idx = trail.size(); std::vector<u32> clr;
    do { u32 sz = ar[cr] >> 1; for (u32 k = (p == NOLIT ? 0 : 1); k < sz; k++) { Lit q = ar[cr + 1 + k]; u32 v = var(q); if (!seen[v] && level[v] > 0) { seen[v] = 1; clr.push_back(v); bump(v); if (level[v] >= (i32)lim.size()) cnt++; else learnt.push_back(q); } }
      do --idx; while (!seen[var(trail[idx])]);
      p = trail[idx]; cr = reason[var(p)]; cnt--; seen[var(p)] = 0; 
      if (cnt > 0) { // make sure the implied literal is first in its reason
        if (ar[cr + 1] != p) { u32 sz2 = ar[cr] >> 1; for (u32 k = 1; k < sz2; k++) if (ar[cr + 1 + k] == p) { fprintf(stderr, "bsat: reason order\n"); exit(3); } } }
    } while (cnt > 0);
    learnt[0] = neg(p);
    // cheap minimisation: drop literals whose reason is subsumed
    size_t j = 1; for (size_t i = 1; i < learnt.size(); i++) { u32 r = reason[var(learnt[i])]; bool keep = r == NOREASON; if (!keep) { u32 sz = ar[r] >> 1; for (u32 k = 1; k < sz; k++) { u32 v = var(ar[r + 1 + k]); if (!seen[v] && level[v] > 0) { keep = true; break; } } } if (keep) learnt[j++] = learnt[i]; }
    learnt.resize(j); for (u32 v : clr) seen[v] = 0;
    u32 bl = 0; if (learnt.size() > 1) { size_t m = 1; for (size_t i = 2; i < learnt.size(); i++) if (level[var(learnt[i])] > level[var(learnt[m])]) m = i; std::swap(learnt[1], learnt[m]); bl = level[var(learnt[1])]; }
    return bl; }
  bool unitConflict = false;
  SatRes solve(const std::vector<Lit> &as, double timeoutS) {
    auto t0 = std::chrono::steady_clock::now();
    cancel(0); coneGen++; for (u32 v : heap) hpos[v] = NOH; heap.clear();
    std::vector<u32> stk; for (Lit a : as) stk.push_back(var(a));
    std::vector<u32> cone; while (!stk.empty()) { u32 v = stk.back(); stk.pop_back(); if (coneMark[v] == coneGen) continue; coneMark[v] = coneGen; cone.push_back(v); Gate &g = gate[v]; if (g.k == G_Input) continue; stk.push_back(var(g.a)); stk.push_back(var(g.b)); if (g.k >= G_Mux) stk.push_back(var(g.c)); }
    inc = 1; u32 nin = 0; for (u32 v : cone) { act[v] = 0; if (gate[v].k == G_Input && !val[v]) nin++; } if (nin <= 14) for (u32 v : cone) if (gate[v].k == G_Input) act[v] = 1e60; /* few inputs: they decide everything */ for (u32 v : cone) if (!val[v]) { hpos[v] = heap.size(); heap.push_back(v); up(hpos[v]); }
    u64 c0 = conflicts; u64 restart = 1, budget = 100;
    if (propagate() != NOREASON) { bad = true; return R_UNSAT; }
    for (;;) {
      u32 cr = propagate();
      if (cr != NOREASON) {
        conflicts++; budget = budget ? budget - 1 : 0; if (lim.empty()) { fprintf(stderr, "bsat: gate definitions inconsistent\n"); exit(3); }
        u32 bl = analyze(cr); cancel(bl);
        if (learnt.size() == 1) { if (lv(learnt[0]) < 0) { fprintf(stderr, "bsat: gate definitions inconsistent\n"); exit(3); } if (!lv(learnt[0])) enqueue(learnt[0], NOREASON); }
        else { u32 c = addClause(learnt.data(), learnt.size(), true); learnts.push_back(c); enqueue(learnt[0], c); }
        inc *= 1.0 / 0.95;
        if ((conflicts & 255) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > timeoutS) { cancel(0); return R_UNKNOWN; }
        continue;
      }
      if (!budget) { // Luby restart
        u64 k = 1, x = restart++; u64 sz = 1, seq = 0; while (sz < x + 1) { seq++; sz = 2 * sz + 1; } u64 y = x; while (sz - 1 != y) { sz = (sz - 1) >> 1; seq--; y = y % sz; } k = 1ULL << seq; budget = 100 * k; cancel(0); continue; }
      if (lim.size() < as.size()) { Lit p = as[lim.size()]; int l = lv(p); if (l < 0) { cancel(0); return R_UNSAT; } lim.push_back(trail.size()); if (!l) enqueue(p, NOREASON); continue; }
      u32 v = 0; while (!heap.empty()) { v = hpop(); if (!val[v]) break; v = 0; }
      if (!v) return R_SAT; // caller reads the model, then calls cancel(0)
      lim.push_back(trail.size()); enqueue(2 * v + (phase[v] == 1 ? 0 : 1), NOREASON);
    }
    (void)c0;
  }
};

Solver *s; u32 g_gen = 1; std::vector<Lit> pool; struct Memo { u32 gen = 0, off = 0; }; std::vector<Memo> memo; // by expression id
struct OutOfFragment {};
typedef std::vector<Lit> BV;
Lit *bits(Expr *e);
void store(Expr *e, const BV &v) { if (memo.size() <= e->id) memo.resize(e->id * 2 + 64); memo[e->id].gen = g_gen; memo[e->id].off = pool.size(); pool.insert(pool.end(), v.begin(), v.end()); }
BV get(Expr *e) { Lit *p = bits(e); return BV(p, p + e->w); }
BV add(const BV &a, const BV &b, Lit c) { size_t n = a.size(); BV r(n); for (size_t i = 0; i < n; i++) { r[i] = s->Xor(s->Xor(a[i], b[i]), c); if (i + 1 < n) c = s->Maj(a[i], b[i], c); } return r; }
BV inv(BV a) { for (Lit &l : a) l = neg(l); return a; }
Lit ult(const BV &a, const BV &b) { Lit r = FALSE_; for (size_t i = 0; i < a.size(); i++) r = s->Maj(neg(a[i]), b[i], r); return r; } // borrow chain
Lit eq(const BV &a, const BV &b) { std::vector<Lit> t; for (size_t i = 0; i < a.size(); i++) t.push_back(neg(s->Xor(a[i], b[i]))); while (t.size() > 1) { std::vector<Lit> u; for (size_t i = 0; i + 1 < t.size(); i += 2) u.push_back(s->And(t[i], t[i + 1])); if (t.size() & 1) u.push_back(t.back()); t.swap(u); } return t[0]; }
BV mux(Lit c, const BV &a, const BV &b) { BV r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = s->Mux(c, a[i], b[i]); return r; }
BV shift(Op op, BV a, const BV &b) { size_t n = a.size(); Lit fill = op == O_AShr ? a[n - 1] : FALSE_; Lit big = FALSE_; for (size_t i = 0; i < n; i++) if (i >= 32 || (1ull << i) >= n) big = s->Or(big, b[i]);
  for (size_t k = 0; k < n && (1ull << k) < n; k++) { if (b[k] == FALSE_) continue; size_t d = 1ull << k; BV t(n); for (size_t i = 0; i < n; i++) { if (op == O_Shl) t[i] = i >= d ? a[i - d] : FALSE_; else t[i] = i + d < n ? a[i + d] : fill; } a = mux(b[k], t, a); }
  if (big != FALSE_) { BV t(n, fill); a = mux(big, t, a); } return a; }
BV mul(const BV &a, const BV &b) { size_t n = a.size(); BV r(n, FALSE_); size_t ca = 0, cb = 0; for (Lit l : a) ca += l > 1; for (Lit l : b) cb += l > 1; const BV &x = cb <= ca ? a : b, &y = cb <= ca ? b : a;
  for (size_t i = 0; i < n; i++) { if (y[i] == FALSE_) continue; BV t(n, FALSE_); for (size_t k = i; k < n; k++) t[k] = s->And(x[k - i], y[i]); r = add(r, t, FALSE_); } return r; }
void udivrem(const BV &a, const BV &b, BV &q, BV &r) { size_t n = a.size(); r.assign(n, FALSE_); q.assign(n, FALSE_); Lit carry;
  for (size_t i = n; i-- > 0;) { carry = r[n - 1]; for (size_t k = n - 1; k > 0; k--) r[k] = r[k - 1]; r[0] = a[i]; Lit ge = s->Or(carry, neg(ult(r, b))); BV d = add(r, inv(b), TRUE_); r = mux(ge, d, r); q[i] = ge; } }
BV negate(const BV &a) { BV z(a.size(), FALSE_); return add(z, inv(a), TRUE_); }
Lit *bits(Expr *e0) {
  // iterative post-order over unvisited nodes
  std::vector<Expr*> st; st.push_back(e0);
  auto done = [&](Expr *e) { return !e || (e->id < memo.size() && memo[e->id].gen == g_gen); };
  while (!st.empty()) {
    Expr *e = st.back(); if (done(e)) { st.pop_back(); continue; }
    bool ready = true; for (Expr *k : {e->a, e->b, e->c}) if (k && !done(k)) { st.push_back(k); ready = false; } if (!ready) continue; st.pop_back();
    auto G = [&](Expr *k) { Lit *p = &pool[memo[k->id].off]; return BV(p, p + k->w); };
    unsigned w = e->w; BV r; 
    switch (e->op) {
      case O_Const: r.resize(w); for (unsigned i = 0; i < w; i++) r[i] = (e->val >> i & 1) ? TRUE_ : FALSE_; break;
      case O_Sym: { r.resize(w); SymInfo &si = g_syms[e->val]; u64 hi = si.hi; unsigned nb = 0; while (nb < w && (nb >= 64 ? false : (hi >> nb))) nb++; for (unsigned i = 0; i < w; i++) r[i] = i < nb ? s->input() : FALSE_; break; }
      case O_Add: r = add(G(e->a), G(e->b), FALSE_); break;
      case O_Sub: r = add(G(e->a), inv(G(e->b)), TRUE_); break;
      case O_Mul: r = mul(G(e->a), G(e->b)); break;
      case O_UDiv: case O_URem: { BV q, m; udivrem(G(e->a), G(e->b), q, m); r = e->op == O_UDiv ? q : m; break; }
      case O_SDiv: case O_SRem: { BV a = G(e->a), b = G(e->b); Lit sa = a[w - 1], sb = b[w - 1]; a = mux(sa, negate(a), a); b = mux(sb, negate(b), b); BV q, m; udivrem(a, b, q, m); if (e->op == O_SDiv) r = mux(s->Xor(sa, sb), negate(q), q); else r = mux(sa, negate(m), m); break; }
      case O_And: case O_Or: case O_Xor: { BV a = G(e->a), b = G(e->b); r.resize(w); for (unsigned i = 0; i < w; i++) r[i] = e->op == O_And ? s->And(a[i], b[i]) : e->op == O_Or ? s->Or(a[i], b[i]) : s->Xor(a[i], b[i]); break; }
      case O_Shl: case O_LShr: case O_AShr: r = shift(e->op, G(e->a), G(e->b)); break;
      case O_Concat: { r = G(e->b); BV h = G(e->a); r.insert(r.end(), h.begin(), h.end()); break; }
      case O_Extract: { BV a = G(e->a); r.assign(a.begin() + e->lo, a.begin() + e->lo + w); break; }
      case O_ZExt: r = G(e->a); r.resize(w, FALSE_); break;
      case O_SExt: { r = G(e->a); Lit t = r.back(); r.resize(w, t); break; }
      case O_Ite: r = mux(G(e->a)[0], G(e->b), G(e->c)); break;
      case O_Eq: r = {eq(G(e->a), G(e->b))}; break;
      case O_Ult: r = {ult(G(e->a), G(e->b))}; break;
      case O_Ule: r = {neg(ult(G(e->b), G(e->a)))}; break;
      case O_Slt: case O_Sle: { BV a = G(e->a), b = G(e->b); a.back() = neg(a.back()); b.back() = neg(b.back()); r = {e->op == O_Slt ? ult(a, b) : neg(ult(b, a))}; break; }
      case O_Popcnt: { BV a = G(e->a); std::vector<BV> v; for (Lit l : a) if (l != FALSE_) v.push_back({l}); if (v.empty()) v.push_back({FALSE_});
        while (v.size() > 1) { std::vector<BV> n; for (size_t i = 0; i + 1 < v.size(); i += 2) { BV x = v[i], y = v[i + 1]; size_t m = std::max(x.size(), y.size()) + 1; x.resize(m, FALSE_); y.resize(m, FALSE_); n.push_back(add(x, y, FALSE_)); } if (v.size() & 1) n.push_back(v.back()); v.swap(n); }
        r = v[0]; r.resize(w, FALSE_); break; }
      case O_Ctz: case O_Clz: { BV a = G(e->a); r.resize(w); for (unsigned i = 0; i < w; i++) r[i] = ((u64)w >> i & 1) ? TRUE_ : FALSE_;
        for (unsigned j = 0; j < w; j++) { unsigned i = e->op == O_Ctz ? w - 1 - j : j; u64 k = e->op == O_Ctz ? i : w - 1 - i; BV t(w); for (unsigned q = 0; q < w; q++) t[q] = (q < 64 && (k >> q & 1)) ? TRUE_ : FALSE_; r = mux(a[i], t, r); } break; }
      default: fprintf(stderr, "bsat: op %d\n", e->op); exit(3);
    }
    if (r.size() != w) { fprintf(stderr, "bsat: width op %d\n", e->op); exit(3); }
    store(e, r);
  }
  return &pool[memo[e0->id].off];
}
std::unordered_map<u32, Lit> rangeLit; u64 arBase;
}

bool bsCheck(const std::vector<Expr*> &cs, const std::vector<u32> &vars, Model &out, SatRes &res, double timeoutS) {
  if (!s || s->gate.size() > 1500000 || s->ar.size() > 24000000 || s->learnts.size() > 60000) { delete s; s = new Solver; g_gen++; pool.clear(); rangeLit.clear(); }
  s->cancel(0);
  std::vector<Lit> as;
  for (Expr *e : cs) { Lit l = *bits(e); if (l == FALSE_) { res = R_UNSAT; return true; } if (l != TRUE_) as.push_back(l); }
  for (u32 v : vars) { SymInfo &i = g_syms[v]; if (i.lo == 0 && i.hi == maskw(i.w)) continue; auto it = rangeLit.find(v);
    if (it == rangeLit.end()) { BV x = get(i.e); BV lo(i.w), hi(i.w); for (unsigned k = 0; k < i.w; k++) { lo[k] = (i.lo >> k & 1) ? TRUE_ : FALSE_; hi[k] = (i.hi >> k & 1) ? TRUE_ : FALSE_; } it = rangeLit.emplace(v, s->And(neg(ult(x, lo)), neg(ult(hi, x)))).first; }
    if (it->second == FALSE_) { res = R_UNSAT; return true; } if (it->second != TRUE_) as.push_back(it->second); }
  res = s->solve(as, timeoutS);
  if (res == R_SAT) for (u32 v : vars) { BV x = get(g_syms[v].e); u64 k = 0; for (unsigned i = 0; i < x.size(); i++) if (s->lv(x[i]) > 0) k |= 1ULL << i; if (k < g_syms[v].lo) { /* unconstrained bits default to zero */ if (g_syms[v].lo > k) k = g_syms[v].lo; } out[v] = k; }
  s->cancel(0);
  return true;
}
