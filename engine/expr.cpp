#include "expr.h"
#include <unordered_map>
#include <map>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cassert>
#include <random>

std::vector<SymInfo> g_syms;
u64 g_nexprs = 0;
static u64 g_epoch = 1;

// ---------- var sets ----------
static VarSet g_empty;
struct PairHash { size_t operator()(const std::pair<const VarSet*, const VarSet*> &p) const {
  return (size_t)p.first * 0x9E3779B97F4A7C15ULL ^ ((size_t)p.second * 0xC2B2AE3D27D4EB4FULL >> 7); } };
static std::unordered_map<std::pair<const VarSet*, const VarSet*>, const VarSet*, PairHash> g_union;
static std::map<std::vector<u32>, const VarSet*> g_sets;
static const VarSet *internSet(const std::vector<u32> &v) {
  if (v.empty()) return &g_empty;
  auto it = g_sets.find(v);
  if (it != g_sets.end()) return it->second;
  VarSet *s = new VarSet; s->v = v; g_sets[v] = s; return s;
}
static const VarSet *unionSet(const VarSet *a, const VarSet *b) {
  if (a == b || b == &g_empty) return a;
  if (a == &g_empty) return b;
  if (a > b) std::swap(a, b);
  auto k = std::make_pair(a, b);
  auto it = g_union.find(k);
  if (it != g_union.end()) return it->second;
  std::vector<u32> r; std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
  const VarSet *s = internSet(r); g_union[k] = s; return s;
}

// ---------- hash consing ----------
static std::vector<Expr*> g_tab(1 << 16, nullptr);
static std::vector<Expr*> g_next;  // chain by id
static Expr *g_chunk = nullptr; static size_t g_chunkLeft = 0;

static inline u64 hsh(Op op, u8 w, u16 lo, u64 val, Expr *a, Expr *b, Expr *c) {
  u64 h = op * 31 + w; h = h * 0x9E3779B97F4A7C15ULL + lo; h ^= val + 0x7F4A7C15 + (h << 6) + (h >> 2);
  h = (h ^ (u64)(a ? a->id + 1 : 0)) * 0xff51afd7ed558ccdULL; h ^= h >> 33;
  h = (h ^ (u64)(b ? b->id + 1 : 0)) * 0xc4ceb9fe1a85ec53ULL; h ^= h >> 29;
  h = (h ^ (u64)(c ? c->id + 1 : 0)) * 0x9E3779B97F4A7C15ULL; h ^= h >> 32;
  return h;
}
static inline u64 fillLow(u64 x) { if (!x) return 0; return maskw(64 - __builtin_clzll(x)); }

static void computeBounds(Expr *e) {
  u64 m = maskw(e->w); u64 lo = 0, hi = m, kz = ~m;
  Expr *a = e->a, *b = e->b, *c = e->c;
  switch (e->op) {
    case O_Const: lo = hi = e->val; kz = ~e->val; break;
    case O_Sym: lo = g_syms[e->val].lo; hi = g_syms[e->val].hi; kz = ~fillLow(hi); break;
    case O_Add: {
      u64 s; if (!__builtin_add_overflow(a->umax, b->umax, &s) && s <= m) { lo = a->umin + b->umin; hi = s; }
      else if (b->op == O_Const) { // wrap-around constant (negative add)
        u64 k = b->val; // a + k, where k = 2^w - n
        u64 n = (0 - k) & m; if (a->umin >= n) { lo = a->umin - n; hi = a->umax - n; }
      }
      unsigned ta = __builtin_ctzll(~a->kz | (1ULL << 63)), tb = __builtin_ctzll(~b->kz | (1ULL << 63));
      unsigned t = ta < tb ? ta : tb; kz |= maskw(t) ; if (t == 0) kz |= 0;
      break; }
    case O_Sub: if (a->umin >= b->umax) { lo = a->umin - b->umax; hi = a->umax - b->umin; }
      { unsigned ta = __builtin_ctzll(~a->kz | (1ULL << 63)), tb = __builtin_ctzll(~b->kz | (1ULL << 63));
        unsigned t = ta < tb ? ta : tb; kz |= maskw(t); if (t == 0) kz = kz; }
      break;
    case O_Mul: { u64 s; if (!__builtin_mul_overflow(a->umax, b->umax, &s) && s <= m) { hi = s; lo = a->umin * b->umin; }
      unsigned ta = __builtin_ctzll(~a->kz | (1ULL << 63)), tb = __builtin_ctzll(~b->kz | (1ULL << 63));
      unsigned t = ta + tb; if (t > 63) t = 63; kz |= maskw(t); break; }
    case O_UDiv: if (b->umin > 0) { lo = a->umin / b->umax; hi = a->umax / b->umin; } break;
    case O_URem: if (b->umin > 0) { hi = std::min(a->umax, b->umax - 1); if (a->umax < b->umin) lo = a->umin; } break;
    case O_And: kz = a->kz | b->kz; hi = std::min(a->umax, b->umax); break;
    case O_Or: kz = a->kz & b->kz; lo = std::max(a->umin, b->umin); hi = fillLow(a->umax | b->umax); break;
    case O_Xor: kz = a->kz & b->kz; hi = fillLow(a->umax | b->umax); break;
    case O_Shl: if (b->op == O_Const && b->val < e->w) { unsigned s = b->val;
        kz = ((a->kz << s) | maskw(s)) | ~m; if (s == 0) kz = a->kz | ~m;
        if (a->umax <= (m >> s)) { lo = a->umin << s; hi = a->umax << s; } }
      else if (b->umax < e->w && a->umax <= (m >> b->umax)) { lo = a->umin << b->umin; hi = a->umax << b->umax; }
      break;
    case O_LShr: if (b->op == O_Const && b->val < e->w) { unsigned s = b->val; lo = a->umin >> s; hi = a->umax >> s;
        kz = (a->kz >> s) | ~(~0ULL >> s) | ~m; }
      else { hi = a->umax; if (b->umin && b->umin < 64) hi >>= b->umin; } break;
    case O_AShr: if (b->op == O_Const && b->val < e->w && a->umax <= (m >> 1)) { lo = a->umin >> b->val; hi = a->umax >> b->val; }
      else if (a->umax <= (m >> 1)) hi = a->umax; break;
    case O_Concat: { unsigned s = b->w; kz = ((a->kz << s) | (b->kz & maskw(s))) ; kz |= ~m;
      lo = (a->umin << s) + b->umin; hi = (a->umax << s) + b->umax; if (a->umin != a->umax) { lo = a->umin << s; hi = (a->umax << s) | maskw(s); if (b->umax < maskw(s)) hi = (a->umax << s) + b->umax; lo = (a->umin << s) + b->umin; }
      break; }
    case O_Extract: { kz = (a->kz >> e->lo) | ~m;
      if (e->lo == 0) { if (a->umax <= m) { lo = a->umin; hi = a->umax; } }
      else { u64 l = a->umin >> e->lo, h = a->umax >> e->lo; if (h <= m) { lo = l; hi = h; } }
      break; }
    case O_ZExt: lo = a->umin; hi = a->umax; kz = a->kz; break;
    case O_SExt: if (a->umax <= (maskw(a->w) >> 1)) { lo = a->umin; hi = a->umax; kz = a->kz; } break;
    case O_Ite: lo = std::min(b->umin, c->umin); hi = std::max(b->umax, c->umax); kz = b->kz & c->kz; break;
    case O_Popcnt: hi = __builtin_popcountll(~a->kz); break;
    case O_Ctz: case O_Clz: hi = a->w; break;
    default: break;
  }
  kz |= ~m;
  // combine
  u64 possible = ~kz; if (hi > possible) hi = possible; // possible is max value given known zeros
  kz |= ~fillLow(hi);
  if (lo > hi) lo = hi;
  e->umin = lo; e->umax = hi; e->kz = kz;
}

static Expr *intern(Op op, unsigned w, unsigned lo, u64 val, Expr *a, Expr *b, Expr *c) {
  u64 h = hsh(op, w, lo, val, a, b, c); size_t i = h & (g_tab.size() - 1);
  for (Expr *e = g_tab[i]; e; e = g_next[e->id])
    if (e->op == op && e->w == w && e->lo == lo && e->val == val && e->a == a && e->b == b && e->c == c) return e;
  if (!g_chunkLeft) { g_chunkLeft = 4096; g_chunk = (Expr*)malloc(sizeof(Expr) * g_chunkLeft); }
  Expr *e = g_chunk++; g_chunkLeft--;
  e->op = op; e->w = w; e->lo = lo; e->id = g_nexprs++; e->val = val; e->a = a; e->b = b; e->c = c;
  e->epoch = 0; e->cached = 0; e->z3bv = e->z3b = nullptr;
  const VarSet *vs = &g_empty;
  if (op == O_Sym) vs = internSet({(u32)val});
  else { if (a) vs = a->vars; if (b) vs = unionSet(vs, b->vars); if (c) vs = unionSet(vs, c->vars); }
  e->vars = vs;
  computeBounds(e);
  g_next.push_back(g_tab[i]); g_tab[i] = e;
  if (g_nexprs > g_tab.size()) { // rehash
    std::vector<Expr*> all; all.reserve(g_nexprs);
    for (Expr *x : g_tab) for (; x; x = g_next[x->id]) all.push_back(x);
    g_tab.assign(g_tab.size() * 4, nullptr);
    for (Expr *x : all) { size_t j = hsh(x->op, x->w, x->lo, x->val, x->a, x->b, x->c) & (g_tab.size() - 1); g_next[x->id] = g_tab[j]; g_tab[j] = x; }
  }
  return e;
}

Expr *mkConst(u64 v, unsigned w) { return intern(O_Const, w, 0, v & maskw(w), nullptr, nullptr, nullptr); }
// interval fold: any expr whose interval is a single value is that constant
static Expr *fin(Expr *e) { if (e->umin == e->umax && e->op != O_Const) return mkConst(e->umin, e->w); return e; }

Expr *mkSymRange(const std::string &name, unsigned w, u64 lo, u64 hi) {
  u64 idx = g_syms.size(); g_syms.push_back({name, (u8)w, lo, hi, nullptr});
  Expr *e = intern(O_Sym, w, 0, idx, nullptr, nullptr, nullptr); g_syms[idx].e = e;
  return e;  // callers may see a single-valued symbol; keep it symbolic for recording
}

u64 constOp(Op op, unsigned w, u64 a, u64 b) {
  u64 m = maskw(w);
  switch (op) {
    case O_Add: return (a + b) & m; case O_Sub: return (a - b) & m; case O_Mul: return (a * b) & m;
    case O_UDiv: return b ? a / b : m; case O_URem: return b ? a % b : a;
    case O_SDiv: { i64 x = sext64(a, w), y = sext64(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - (u64)x) & m; return (u64)(x / y) & m; }
    case O_SRem: { i64 x = sext64(a, w), y = sext64(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
    case O_And: return a & b; case O_Or: return a | b; case O_Xor: return a ^ b;
    case O_Shl: return b >= w ? 0 : (a << b) & m; case O_LShr: return b >= w ? 0 : a >> b;
    case O_AShr: { i64 x = sext64(a, w); unsigned s = b >= w ? w - 1 : b; if (s > 63) s = 63; return (u64)(x >> s) & m; }
    case O_Eq: return a == b; case O_Ult: return a < b; case O_Ule: return a <= b;
    case O_Slt: return sext64(a, w) < sext64(b, w); case O_Sle: return sext64(a, w) <= sext64(b, w);
    default: abort();
  }
}
static u64 constUn(Op op, unsigned w, u64 a) {
  switch (op) { case O_Popcnt: return __builtin_popcountll(a); case O_Ctz: return a ? __builtin_ctzll(a) : w;
    case O_Clz: return a ? __builtin_clzll(a) - (64 - w) : w; default: abort(); }
}
static inline bool isCmp(Op op) { return op >= O_Eq && op <= O_Sle; }
static inline bool iteC(Expr *e) { return e->op == O_Ite && isConst(e->b) && isConst(e->c); }
// single-variable ITE chains with constant leaves may be pushed through cheap ops
static int iteDepth(Expr *e, int lim) { int n = 0; while (e->op == O_Ite && isConst(e->b)) { if (++n > lim) return -1; e = e->c; } return isConst(e) ? n : -1; }

Expr *mkNot(Expr *a) {
  if (isConst(a)) return mkConst(!a->val, 1);
  if (a->op == O_Xor && isConst(a->b, 1)) return a->a;
  if (a->op == O_Ult) return mkBin(O_Ule, a->b, a->a);
  if (a->op == O_Ule) return mkBin(O_Ult, a->b, a->a);
  if (a->op == O_Slt) return mkBin(O_Sle, a->b, a->a);
  if (a->op == O_Sle) return mkBin(O_Slt, a->b, a->a);
  return fin(intern(O_Xor, 1, 0, 0, a, mkConst(1, 1), nullptr));
}

Expr *mkUn(Op op, Expr *a) {
  if (isConst(a)) return mkConst(constUn(op, a->w, a->val), a->w);
  if (a->op == O_Ite && iteDepth(a, 8) > 0) return mkIte(a->a, mkUn(op, a->b), mkUn(op, a->c));
  if (op == O_Popcnt) {
    if (a->op == O_ZExt) { Expr *p = mkUn(op, a->a); return mkZExt(p, a->w); }
    if (a->umax == 1) return a;
    // single possible bit
    u64 pos = ~a->kz; if (pos && !(pos & (pos - 1))) return mkBin(O_LShr, a, mkConst(__builtin_ctzll(pos), a->w));
  }
  return fin(intern(op, a->w, 0, 0, a, nullptr, nullptr));
}

static bool disjointBits(Expr *a, Expr *b) { return (~a->kz & ~b->kz) == 0; }

Expr *mkBin(Op op, Expr *a, Expr *b) {
  if (a->w != b->w) { fprintf(stderr, "width mismatch op %d %d %d\n", op, a->w, b->w); abort(); }
  unsigned w = a->w; u64 m = maskw(w);
  if (isConst(a) && isConst(b)) return mkConst(constOp(op, w, a->val, b->val), isCmp(op) ? 1 : w);
  // commutative: constant right, else order by id
  if (op == O_Add || op == O_Mul || op == O_And || op == O_Or || op == O_Xor || op == O_Eq) {
    if (isConst(a) || (!isConst(b) && a->id > b->id)) std::swap(a, b);
  }
  // push through ITEs with constant leaves
  if (isConst(b) && a->op == O_Ite && iteDepth(a, 8) > 0) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
  if (isConst(a) && b->op == O_Ite && iteDepth(b, 8) > 0) return mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->c));
  if (a->op == O_Ite && b->op == O_Ite && a->a == b->a && iteC(a) && iteC(b)) return mkIte(a->a, mkBin(op, a->b, b->b), mkBin(op, a->c, b->c));
  switch (op) {
    case O_Add:
      if (isConst(b)) {
        if (b->val == 0) return a;
        if (a->op == O_Add && isConst(a->b)) return mkBin(O_Add, a->a, mkConst(a->b->val + b->val, w));
        if (a->op == O_Sub && isConst(a->a)) return mkBin(O_Sub, mkConst(a->a->val + b->val, w), a->b);
      } else {
        if (a->op == O_Add && isConst(a->b)) return mkBin(O_Add, mkBin(O_Add, a->a, b), a->b);
        if (b->op == O_Add && isConst(b->b)) return mkBin(O_Add, mkBin(O_Add, a, b->a), b->b);
        if (a->op == O_Sub && a->b == b) return a->a;
        if (b->op == O_Sub && b->b == a) return b->a;
      }
      if (w == 1) return mkBin(O_Xor, a, b);
      break;
    case O_Sub:
      if (a == b) return mkConst(0, w);
      if (isConst(b)) return mkBin(O_Add, a, mkConst(0 - b->val, w));
      if (w == 1) return mkBin(O_Xor, a, b);
      if (a->op == O_Add && a->a == b) return a->b;
      if (a->op == O_Add && a->b == b) return a->a;
      if (a->op == O_Add && isConst(a->b)) return mkBin(O_Add, mkBin(O_Sub, a->a, b), a->b);
      if (b->op == O_Add && isConst(b->b)) return mkBin(O_Add, mkBin(O_Sub, a, b->a), mkConst(0 - b->b->val, w));
      break;
    case O_Mul:
      if (isConst(b)) {
        if (b->val == 0) return b; if (b->val == 1) return a;
        if (!(b->val & (b->val - 1))) return mkBin(O_Shl, a, mkConst(__builtin_ctzll(b->val), w));
      }
      break;
    case O_UDiv:
      if (isConst(b)) { if (b->val == 1) return a; if (b->val && !(b->val & (b->val - 1))) return mkBin(O_LShr, a, mkConst(__builtin_ctzll(b->val), w));
        if (b->val && a->umax < b->val) return mkConst(0, w); }
      break;
    case O_URem:
      if (isConst(b)) { if (b->val && !(b->val & (b->val - 1))) return mkBin(O_And, a, mkConst(b->val - 1, w)); if (b->val && a->umax < b->val) return a; }
      break;
    case O_SDiv: if (isConst(b, 1)) return a;
      if (a->umax <= (m >> 1) && b->umax <= (m >> 1)) return mkBin(O_UDiv, a, b); break;
    case O_SRem: if (a->umax <= (m >> 1) && b->umax <= (m >> 1)) return mkBin(O_URem, a, b); break;
    case O_And:
      if (a == b) return a;
      if (isConst(b)) {
        u64 bv = b->val;
        if (bv == 0) return b;
        if ((bv | a->kz) == ~0ULL || (bv | (a->kz & m)) == m) return a;     // mask keeps every possible bit
        if ((~a->kz & bv) == 0) return mkConst(0, w);
        if (a->op == O_And && isConst(a->b)) return mkBin(O_And, a->a, mkConst(a->b->val & bv, w));
        if (w > 1 && (bv & (bv + 1)) == 0) { unsigned n = __builtin_popcountll(bv); if (n < w) return mkZExt(mkExtract(a, 0, n), w); }
        if (a->op == O_ZExt && bv <= maskw(a->a->w)) return mkZExt(mkBin(O_And, a->a, mkConst(bv, a->a->w)), w);
        if (a->op == O_ZExt) return mkZExt(mkBin(O_And, a->a, mkConst(bv & maskw(a->a->w), a->a->w)), w);
      }
      if (disjointBits(a, b)) return mkConst(0, w);
      if (w == 1) { if (a->op == O_Xor && isConst(a->b, 1) && a->a == b) return mkConst(0, 1); if (b->op == O_Xor && isConst(b->b, 1) && b->a == a) return mkConst(0, 1);
        if (a->op == O_And && (a->a == b || a->b == b)) return a; if (b->op == O_And && (b->a == a || b->b == a)) return b; }
      // x & (c ? k : 0)
      break;
    case O_Or:
      if (a == b) return a;
      if (isConst(b)) { if (b->val == 0) return a; if (b->val == m) return b;
        if (a->op == O_Or && isConst(a->b)) return mkBin(O_Or, a->a, mkConst(a->b->val | b->val, w)); }
      if (w == 1) { if (a->op == O_Xor && isConst(a->b, 1) && a->a == b) return mkConst(1, 1); if (b->op == O_Xor && isConst(b->b, 1) && b->a == a) return mkConst(1, 1);
        if (a->op == O_Or && (a->a == b || a->b == b)) return a; if (b->op == O_Or && (b->a == a || b->b == a)) return b; }
      break;
    case O_Xor:
      if (a == b) return mkConst(0, w);
      if (isConst(b)) { if (b->val == 0) return a; if (w == 1) return mkNot(a);
        if (a->op == O_Xor && isConst(a->b)) return mkBin(O_Xor, a->a, mkConst(a->b->val ^ b->val, w)); }
      else { if (a->op == O_Xor && a->a == b) return a->b; if (a->op == O_Xor && a->b == b) return a->a;
        if (b->op == O_Xor && b->a == a) return b->b; if (b->op == O_Xor && b->b == a) return b->a; }
      break;
    case O_Shl:
      if (isConst(a, 0)) return a;
      if (isConst(b)) { if (b->val == 0) return a; if (b->val >= w) return mkConst(0, w);
        if (a->op == O_Shl && isConst(a->b)) return mkBin(O_Shl, a->a, mkConst(a->b->val + b->val, w));
        if (a->op == O_LShr && isConst(a->b) && a->b->val == b->val) return mkBin(O_And, a->a, mkConst(m << b->val, w)); }
      break;
    case O_LShr:
      if (isConst(a, 0)) return a;
      if (isConst(b)) { if (b->val == 0) return a; if (b->val >= w) return mkConst(0, w);
        if (a->op == O_LShr && isConst(a->b)) { u64 s = a->b->val + b->val; return s >= w ? mkConst(0, w) : mkBin(O_LShr, a->a, mkConst(s, w)); }
        return mkZExt(mkExtract(a, b->val, w - b->val), w); }
      break;
    case O_AShr:
      if (isConst(a, 0)) return a;
      if (isConst(b, 0)) return a;
      if (a->umax <= (m >> 1)) return mkBin(O_LShr, a, b);
      if (isConst(b) && b->val >= w) return mkBin(O_AShr, a, mkConst(w - 1, w));
      break;
    case O_Eq:
      if (a == b) return mkConst(1, 1);
      if (a->umax < b->umin || b->umax < a->umin) return mkConst(0, 1);
      if (isConst(b)) {
        u64 v = b->val;
        if (v & a->kz) return mkConst(0, 1);
        if (w == 1) return v ? a : mkNot(a);
        if (a->op == O_ZExt) { if (v > maskw(a->a->w)) return mkConst(0, 1); return mkBin(O_Eq, a->a, mkConst(v, a->a->w)); }
        if (a->op == O_SExt) { u64 t = v & maskw(a->a->w); if (((u64)sext64(t, a->a->w) & m) != v) return mkConst(0, 1); return mkBin(O_Eq, a->a, mkConst(t, a->a->w)); }
        if (a->op == O_Add && isConst(a->b)) return mkBin(O_Eq, a->a, mkConst(v - a->b->val, w));
        if (a->op == O_Xor && isConst(a->b)) return mkBin(O_Eq, a->a, mkConst(v ^ a->b->val, w));
        if (a->op == O_Sub && v == 0) return mkBin(O_Eq, a->a, a->b);
        if (a->op == O_Sub && isConst(a->a)) return mkBin(O_Eq, a->b, mkConst(a->a->val - v, w));
        if (a->op == O_Shl && isConst(a->b)) { unsigned s = a->b->val; if (v & maskw(s)) return mkConst(0, 1); return mkBin(O_Eq, mkExtract(a->a, 0, w - s), mkConst(v >> s, w - s)); }
        if (a->op == O_Concat) { unsigned lw = a->b->w; Expr *x = mkBin(O_Eq, a->a, mkConst(v >> lw, a->a->w)); if (isConst(x, 0)) return x; return mkBin(O_And, x, mkBin(O_Eq, a->b, mkConst(v, lw))); }
        if (a->op == O_Ite) {
          if (isConst(a->b)) { Expr *r = mkBin(O_Eq, a->c, b); return a->b->val == v ? mkBin(O_Or, a->a, r) : mkBin(O_And, mkNot(a->a), r); }
          if (isConst(a->c)) { Expr *r = mkBin(O_Eq, a->b, b); return a->c->val == v ? mkBin(O_Or, mkNot(a->a), r) : mkBin(O_And, a->a, r); }
        }
        if (a->op == O_Or && v == 0) return mkBin(O_And, mkBin(O_Eq, a->a, b), mkBin(O_Eq, a->b, b));
      } else {
        if (a->op == O_ZExt && b->op == O_ZExt && a->a->w == b->a->w) return mkBin(O_Eq, a->a, b->a);
        if (a->op == O_Add && b->op == O_Add && a->b == b->b) return mkBin(O_Eq, a->a, b->a);
        if (w == 1) return mkNot(mkBin(O_Xor, a, b));
      }
      break;
    case O_Ult:
      if (a == b) return mkConst(0, 1);
      if (a->umax < b->umin) return mkConst(1, 1);
      if (a->umin >= b->umax) return mkConst(0, 1);
      if (isConst(b)) {
        if (b->val == 1) return mkBin(O_Eq, a, mkConst(0, w));
        if (a->op == O_ZExt) { if (b->val > maskw(a->a->w)) return mkConst(1, 1); return mkBin(O_Ult, a->a, mkConst(b->val, a->a->w)); }
        if (a->umax == b->val) return mkNot(mkBin(O_Eq, a, b));
        if (a->op == O_Add && isConst(a->b)) { Expr *x = a->a; // x + k < c with no wrap => x < c-k
          u64 s; if (!__builtin_add_overflow(x->umax, a->b->val, &s) && s <= m && b->val >= a->b->val) return mkBin(O_Ult, x, mkConst(b->val - a->b->val, w));
          u64 n = (0 - a->b->val) & m; if (x->umin >= n && b->val <= m - n) return mkBin(O_Ult, x, mkConst(b->val + n, w)); }
      }
      if (isConst(a)) {
        if (a->val == m) return mkConst(0, 1);
        if (a->val == 0) return mkNot(mkBin(O_Eq, b, mkConst(0, w)));
        if (b->op == O_ZExt) { if (a->val >= maskw(b->a->w)) return mkConst(0, 1); return mkBin(O_Ult, mkConst(a->val, b->a->w), b->a); }
        if (b->umin == a->val) return mkNot(mkBin(O_Eq, b, a));
        if (b->op == O_Add && isConst(b->b)) { Expr *x = b->a;
          u64 s; if (!__builtin_add_overflow(x->umax, b->b->val, &s) && s <= m && a->val >= b->b->val) return mkBin(O_Ult, mkConst(a->val - b->b->val, w), x);
          u64 n = (0 - b->b->val) & m; if (x->umin >= n && a->val <= m - n) return mkBin(O_Ult, mkConst(a->val + n, w), x); }
      }
      if (a->op == O_ZExt && b->op == O_ZExt && a->a->w == b->a->w) return mkBin(O_Ult, a->a, b->a);
      break;
    case O_Ule:
      if (a == b) return mkConst(1, 1);
      if (a->umax <= b->umin) return mkConst(1, 1);
      if (a->umin > b->umax) return mkConst(0, 1);
      if (isConst(b)) { if (b->val == m) return mkConst(1, 1); return mkBin(O_Ult, a, mkConst(b->val + 1, w)); }
      if (isConst(a)) { if (a->val == 0) return mkConst(1, 1); return mkBin(O_Ult, mkConst(a->val - 1, w), b); }
      if (a->op == O_ZExt && b->op == O_ZExt && a->a->w == b->a->w) return mkBin(O_Ule, a->a, b->a);
      break;
    case O_Slt: case O_Sle: {
      u64 h = m >> 1;
      if (a == b) return mkConst(op == O_Sle, 1);
      if (a->umax <= h && b->umax <= h) return mkBin(op == O_Slt ? O_Ult : O_Ule, a, b);
      if (a->umin > h && b->umin > h) return mkBin(op == O_Slt ? O_Ult : O_Ule, a, b);
      if (a->umax <= h && b->umin > h) return mkConst(0, 1);
      if (a->umin > h && b->umax <= h) return mkConst(1, 1);
      // b known non-negative, a arbitrary etc: leave
      break; }
    default: break;
  }
  if (isCmp(op)) return fin(intern(op, 1, 0, 0, a, b, nullptr));
  return fin(intern(op, w, 0, 0, a, b, nullptr));
}

static Expr *mkExtract0(Expr *a, unsigned lo, unsigned w);
static std::unordered_map<u64, Expr*> g_extMemo, g_zextMemo;
Expr *mkExtract(Expr *a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isConst(a)) return mkConst(a->val >> lo, w);
  if (a->op == O_Sym || a->op == O_ZExt) return mkExtract0(a, lo, w);
  u64 k = (u64)a->id << 16 | lo << 8 | w; auto it = g_extMemo.find(k); if (it != g_extMemo.end()) return it->second;
  Expr *r = mkExtract0(a, lo, w); g_extMemo[k] = r; return r;
}
static Expr *mkExtract0(Expr *a, unsigned lo, unsigned w) {
  if ((~a->kz >> lo & maskw(w)) == 0) return mkConst(0, w);
  switch (a->op) {
    case O_Extract: return mkExtract(a->a, a->lo + lo, w);
    case O_ZExt: if (lo >= a->a->w) return mkConst(0, w); if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
      return mkZExt(mkExtract(a->a, lo, a->a->w - lo), w);
    case O_SExt: if (lo + w <= a->a->w) return mkExtract(a->a, lo, w); break;
    case O_Concat: { unsigned lw = a->b->w; if (lo + w <= lw) return mkExtract(a->b, lo, w); if (lo >= lw) return mkExtract(a->a, lo - lw, w);
      return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo)); }
    case O_And: case O_Or: case O_Xor: return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    case O_Add: case O_Sub: case O_Mul: if (lo == 0) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
    case O_Shl: if (isConst(a->b)) { u64 s = a->b->val; if (lo >= s) return mkExtract(a->a, lo - s, w);
        if (lo + w <= s) return mkConst(0, w);
        return mkConcat(mkExtract(a->a, 0, lo + w - s), mkConst(0, s - lo)); } break;
    case O_Ite: if (isConst(a->b) || isConst(a->c)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w)); break;
    default: break;
  }
  return fin(intern(O_Extract, w, lo, 0, a, nullptr, nullptr));
}
static Expr *zextSum(Expr *a, unsigned w);
Expr *mkZExt(Expr *a, unsigned w) {
  if (a->w == w) return a;
  if (isConst(a)) return mkConst(a->val, w);
  if (a->w == 1) return mkIte(a, mkConst(1, w), mkConst(0, w));
  if (a->op == O_ZExt) return mkZExt(a->a, w);
  if (a->op == O_Ite && iteDepth(a, 8) > 0) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->c, w));
  if (a->w >= 8 && (a->op == O_Add || a->op == O_Sub)) { u64 k = (u64)a->id << 8 | w; auto it = g_zextMemo.find(k); if (it != g_zextMemo.end()) return it->second; Expr *r = zextSum(a, w); g_zextMemo[k] = r; return r; }
  return fin(intern(O_ZExt, w, 0, 0, a, nullptr, nullptr));
}
static Expr *zextSum(Expr *a, unsigned w) {
  if (a->op == O_Add) { // distribute over sums that cannot wrap
    u64 s; if (!__builtin_add_overflow(a->a->umax, a->b->umax, &s) && s <= maskw(a->w)) return mkBin(O_Add, mkZExt(a->a, w), mkZExt(a->b, w));
    if (isConst(a->b)) { u64 n = (0 - a->b->val) & maskw(a->w); if (a->a->umin >= n) return mkBin(O_Add, mkZExt(a->a, w), mkConst(0 - n, w)); } }
  if (a->op == O_Sub && a->a->umin >= a->b->umax) return mkBin(O_Sub, mkZExt(a->a, w), mkZExt(a->b, w));
  return fin(intern(O_ZExt, w, 0, 0, a, nullptr, nullptr));
}
Expr *mkSExt(Expr *a, unsigned w) {
  if (a->w == w) return a;
  if (isConst(a)) return mkConst(sext64(a->val, a->w), w);
  if (a->w == 1) return mkIte(a, mkConst(~0ULL, w), mkConst(0, w));
  if (a->umax <= (maskw(a->w) >> 1)) return mkZExt(a, w);
  if (a->op == O_SExt) return mkSExt(a->a, w);
  if (a->op == O_Ite && iteDepth(a, 8) > 0) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
  return fin(intern(O_SExt, w, 0, 0, a, nullptr, nullptr));
}
Expr *mkConcat(Expr *hi, Expr *lo) {
  unsigned w = hi->w + lo->w; assert(w <= 64);
  if (isConst(hi) && isConst(lo)) return mkConst((hi->val << lo->w) | lo->val, w);
  if (isConst(hi, 0)) return mkZExt(lo, w);
  if (hi->op == O_Extract && lo->op == O_Extract && hi->a == lo->a && hi->lo == lo->lo + lo->w) return mkExtract(hi->a, lo->lo, w);
  if (hi->op == O_Extract && hi->a == lo && hi->lo == lo->w) return mkExtract(hi->a, 0, w);
  if (hi->op == O_Concat && hi->b->op == O_Extract && lo->op == O_Extract && hi->b->a == lo->a && hi->b->lo == lo->lo + lo->w) return mkConcat(hi->a, mkExtract(lo->a, lo->lo, lo->w + hi->b->w));
  if (hi->op == O_ZExt) return mkZExt(mkConcat(hi->a, lo), w);
  if (isConst(lo, 0)) return mkBin(O_Shl, mkZExt(hi, w), mkConst(lo->w, w));
  return fin(intern(O_Concat, w, 0, 0, hi, lo, nullptr));
}
Expr *mkIte(Expr *c, Expr *a, Expr *b) {
  if (isConst(c)) return c->val ? a : b;
  if (a == b) return a;
  if (c->op == O_Xor && isConst(c->b, 1)) { c = c->a; std::swap(a, b); }
  if (a->w == 1) {
    if (isConst(a)) return a->val ? mkBin(O_Or, c, b) : mkBin(O_And, mkNot(c), b);
    if (isConst(b)) return b->val ? mkBin(O_Or, mkNot(c), a) : mkBin(O_And, c, a);
  }
  if (a->op == O_Ite && a->a == c) a = a->b;
  if (b->op == O_Ite && b->a == c) b = b->c;
  if (a == b) return a;
  if (b->op == O_Ite && b->b == a && a->w > 1) return mkIte(mkBin(O_Or, c, b->a), a, b->c);
  if (b->op == O_Ite && b->c == a && a->w > 1) return mkIte(mkBin(O_And, mkNot(c), b->a), b->b, a);
  return fin(intern(O_Ite, a->w, 0, 0, c, a, b));
}

// ---------- evaluation ----------
void newEpoch() { g_epoch++; }
static u64 ev(Expr *e, const Model &m) {
  if (e->op == O_Const) return e->val;
  if (e->epoch == g_epoch) return e->cached;
  u64 r;
  switch (e->op) {
    case O_Sym: r = e->val < m.size() ? m[e->val] : g_syms[e->val].lo; if (e->val >= m.size()) r = g_syms[e->val].lo; break;
    case O_Ite: r = ev(e->a, m) ? ev(e->b, m) : ev(e->c, m); break;
    case O_Extract: r = (ev(e->a, m) >> e->lo) & maskw(e->w); break;
    case O_ZExt: r = ev(e->a, m); break;
    case O_SExt: r = (u64)sext64(ev(e->a, m), e->a->w) & maskw(e->w); break;
    case O_Concat: r = (ev(e->a, m) << e->b->w) | ev(e->b, m); break;
    case O_Popcnt: case O_Ctz: case O_Clz: r = constUn(e->op, e->w, ev(e->a, m)); break;
    default: r = constOp(e->op, e->a->w, ev(e->a, m), ev(e->b, m)); break;
  }
  e->epoch = g_epoch; e->cached = r; return r;
}
u64 evalExpr(Expr *e, const Model &m) { if (e->op == O_Const) return e->val; g_epoch++; return ev(e, m); }
u64 evalExprSameEpoch(Expr *e, const Model &m) { return ev(e, m); }

std::string exprStr(Expr *e, int d) {
  static const char *nm[] = {"c","s","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","cat","ext","zx","sx","ite","eq","ult","ule","slt","sle","popc","ctz","clz"};
  char buf[64];
  if (e->op == O_Const) { snprintf(buf, 64, "%llu", (unsigned long long)e->val); return buf; }
  if (e->op == O_Sym) return g_syms[e->val].name + "#" + std::to_string(e->val);
  if (d <= 0) return "..";
  std::string s = std::string("(") + nm[e->op]; snprintf(buf, 64, ":%d", e->w); s += buf;
  if (e->op == O_Extract) { snprintf(buf, 64, "@%d", e->lo); s += buf; }
  if (e->a) s += " " + exprStr(e->a, d - 1); if (e->b) s += " " + exprStr(e->b, d - 1); if (e->c) s += " " + exprStr(e->c, d - 1);
  return s + ")";
}

// Random differential test of the simplifier: builds random terms through mk*, evaluates the unsimplified
// semantics alongside for several models and compares, also checking intervals and known zeros.
std::vector<Expr*> *g_selfBools = nullptr;
int exprSelfTest(u64 seed, int n) {
  std::mt19937_64 rng(seed); int bad = 0;
  const int K = 6; // models
  struct T { Expr *e; u64 v[K]; };
  static const unsigned widths[] = {1, 8, 16, 32, 64};
  for (int it = 0; it < n; it++) {
    std::vector<T> pool; size_t s0 = g_syms.size(); std::vector<Model> ms(K);
    for (int i = 0; i < 6; i++) {
      unsigned w = widths[rng() % 5]; u64 lo = 0, hi = maskw(w);
      if (rng() % 2) { lo = rng() & hi & 0xff; hi = std::min<u64>(hi, lo + rng() % 20); }
      Expr *e = mkSymRange("t", w, lo, hi); T t; t.e = e;
      for (int k = 0; k < K; k++) { u64 v = k == 0 ? lo : k == 1 ? hi : (hi - lo == ~0ULL ? rng() : lo + rng() % (hi - lo + 1)); t.v[k] = v; ms[k].resize(g_syms.size()); ms[k][e->val] = v; }
      pool.push_back(t);
    }
    for (int i = 0; i < 6; i++) { unsigned w = widths[rng() % 5]; u64 c; switch (rng() % 4) { case 0: c = rng() % 4; break; case 1: c = 1ULL << (rng() % 64); break; case 2: c = ~0ULL >> (rng() % 64); break; default: c = rng(); }
      c &= maskw(w); T t; t.e = mkConst(c, w); for (int k = 0; k < K; k++) t.v[k] = c; pool.push_back(t); }
    for (int i = 0; i < 60; i++) {
      T &x = pool[rng() % pool.size()]; T r; int kind = rng() % 10;
      if (kind < 6) {
        std::vector<T*> c; for (auto &p : pool) if (p.e->w == x.e->w) c.push_back(&p);
        T &y = *c[rng() % c.size()]; Op op = (Op)(O_Add + rng() % 24); if (op >= O_Concat && op <= O_Ite) op = O_Eq; if (op > O_Sle) op = O_Ult;
        r.e = mkBin(op, x.e, y.e); for (int k = 0; k < K; k++) r.v[k] = constOp(op, x.e->w, x.v[k], y.v[k]);
      } else if (kind == 6) { unsigned w = 1 + rng() % x.e->w, lo = rng() % (x.e->w - w + 1); 
        r.e = mkExtract(x.e, lo, w); for (int k = 0; k < K; k++) r.v[k] = (x.v[k] >> lo) & maskw(w);
      } else if (kind == 7) { unsigned w = widths[rng() % 5]; if (w < x.e->w) continue; bool s = rng() & 1;
        r.e = s ? mkSExt(x.e, w) : mkZExt(x.e, w); for (int k = 0; k < K; k++) r.v[k] = s ? (u64)sext64(x.v[k], x.e->w) & maskw(w) : x.v[k];
      } else if (kind == 8) { std::vector<T*> c, b; for (auto &p : pool) { if (p.e->w == x.e->w) c.push_back(&p); if (p.e->w == 1) b.push_back(&p); }
        if (b.empty()) continue; T &y = *c[rng() % c.size()], &q = *b[rng() % b.size()];
        r.e = mkIte(q.e, x.e, y.e); for (int k = 0; k < K; k++) r.v[k] = q.v[k] ? x.v[k] : y.v[k];
      } else { if (rng() & 1) { T &y = pool[rng() % pool.size()]; if (x.e->w + y.e->w > 64) continue;
          r.e = mkConcat(x.e, y.e); for (int k = 0; k < K; k++) r.v[k] = (x.v[k] << y.e->w) | y.v[k]; }
        else { Op op = (Op)(O_Popcnt + rng() % 3); if (x.e->w < 8) continue; r.e = mkUn(op, x.e); for (int k = 0; k < K; k++) r.v[k] = constUn(op, x.e->w, x.v[k]); } }
      for (int k = 0; k < K; k++) { u64 v = evalExpr(r.e, ms[k]);
        if (v != r.v[k] || v < r.e->umin || v > r.e->umax || (v & r.e->kz)) { bad++; if (bad < 5) fprintf(stderr, "selftest mismatch %s got %llx want %llx [%llx,%llx] kz %llx\n", exprStr(r.e).c_str(), (unsigned long long)v, (unsigned long long)r.v[k], (unsigned long long)r.e->umin, (unsigned long long)r.e->umax, (unsigned long long)r.e->kz); break; } }
      pool.push_back(r);
    }
    if (g_selfBools) for (auto &p : pool) if (p.e->w == 1 && !isConst(p.e) && p.e->op != O_Sym) g_selfBools->push_back(p.e);
    (void)s0;
  }
  return bad;
}
