#include "exec.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <algorithm>
#include <cmath>
#include <unordered_set>
#include <unistd.h>

Options g_opt;
static const u64 HEAP_REGION0 = 4096;
static u64 g_objAllocs = 0;

State::State(const State &o) : th(o.th), cur(o.cur), objs(o.objs), pc(o.pc), facts(o.facts), known(o.known), model(o.model), syms(o.syms), symCount(o.symCount), obs(o.obs), ranges(o.ranges), live(o.live), insts(o.insts), depth(o.depth), allocSeq(o.allocSeq), asserts(o.asserts), noLeakCheck(o.noLeakCheck), races(o.races), syncvc(o.syncvc), sched(o.sched), preempt(o.preempt), skipSched(o.skipSched) {
  for (Obj *x : objs) if (x) x->rc++;
  for (Thread &t : th) for (Obj *x : t.stack) if (x) x->rc++;
}
static void unref(Obj *o) { if (o && --o->rc == 0) delete o; }
State::~State() { for (Obj *x : objs) unref(x); for (Thread &t : th) for (Obj *x : t.stack) unref(x); }

struct PathEnd { int why; };  // 0 = finished, 1 = killed by assume, 2 = error reported, 3 = limit, 4 = yield to scheduler
struct Fatal { std::string msg; };

// ---------------- statistics ----------------
static std::chrono::steady_clock::time_point g_t0; static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - g_t0).count(); }
static struct { u64 paths = 0, killedAssume = 0, errPaths = 0, forks = 0, insts = 0, assertsConcrete = 0, assertsSolver = 0, limits = 0, symReads = 0, symWrites = 0, concretize = 0, schedPoints = 0; } st;
static bool g_incomplete = false; static std::string g_incompleteWhy;
static std::vector<Violation> g_viol; static std::set<std::string> g_violKeys;
struct Sample { std::vector<std::pair<std::string,u64>> syms; std::vector<std::pair<std::string,u64>> obs; std::string sched; };
static std::vector<Sample> g_samples; static u64 g_sampleSeen = 0;
static std::vector<std::string> g_names; static std::map<std::string,u32> g_nameId;
static u32 nameId(const std::string &s) { auto it = g_nameId.find(s); if (it != g_nameId.end()) return it->second; u32 i = g_names.size(); g_names.push_back(s); g_nameId[s] = i; return i; }
static std::set<std::string> g_reached; // sym_assert labels reached
static std::set<std::string> g_notes;

static State *S;                         // current state
static std::vector<State*> work;
static bool noFork = false;

// ---------------- constraints ----------------
static const std::vector<u64> noM;
static inline u64 evalM(Expr *e) { return evalExpr(e, S->model); }
static void growModel(Model &m) { size_t o = m.size(); if (o < g_syms.size()) { m.resize(g_syms.size()); for (size_t k = o; k < m.size(); k++) m[k] = g_syms[k].lo; } }
struct VecHash { size_t operator()(const std::vector<u32> &v) const { u64 h = 1469598103934665603ULL; for (u32 x : v) h = (h ^ x) * 1099511628211ULL; return h; } };
static std::unordered_map<std::vector<u32>, std::pair<int, std::vector<std::pair<u32,u64>>>, VecHash> g_qcache;
static std::vector<Model> g_recent; static size_t g_recentPos = 0;
static std::vector<u32> g_mark; static u32 g_markGen = 0;

static void slice(const std::vector<Expr*> &pc, Expr *c, std::vector<Expr*> &out) {
  if (g_mark.size() < g_syms.size()) g_mark.resize(g_syms.size() * 2 + 64, 0);
  g_markGen++; for (u32 v : c->vars->v) g_mark[v] = g_markGen;
  static std::vector<u8> used; used.assign(pc.size(), 0); bool ch = true;
  while (ch) { ch = false;
    for (size_t i = 0; i < pc.size(); i++) if (!used[i]) { bool hit = false; for (u32 v : pc[i]->vars->v) if (g_mark[v] == g_markGen) { hit = true; break; }
      if (hit) { used[i] = 1; ch = true; for (u32 v : pc[i]->vars->v) g_mark[v] = g_markGen; } } }
  for (size_t i = 0; i < pc.size(); i++) if (used[i]) out.push_back(pc[i]);
}
static std::map<u32, std::pair<double,u64>> g_qLocs; static u32 curLoc();
// Is pc ∧ c satisfiable?  On SAT `m` is a full model of pc ∧ c.
static SatRes feasible(Expr *c, Model &m) {
  if (isConst(c)) { if (!c->val) return R_UNSAT; m = S->model; growModel(m); return R_SAT; }
  if ((g_ss.queries & 15) == 0 && elapsed() > g_opt.timeLimit) throw Fatal{"time limit"};
  std::vector<Expr*> cs; slice(S->pc, c, cs); cs.push_back(c);
  std::vector<u32> key; for (Expr *e : cs) key.push_back(e->id); std::sort(key.begin(), key.end());
  auto it = g_qcache.find(key);
  if (it != g_qcache.end()) { g_ss.cacheHits++; if (it->second.first == R_UNSAT) return R_UNSAT; m = S->model; growModel(m); for (auto &p : it->second.second) m[p.first] = p.second; return R_SAT; }
  std::vector<u32> vars; for (Expr *e : cs) vars.insert(vars.end(), e->vars->v.begin(), e->vars->v.end()); std::sort(vars.begin(), vars.end()); vars.erase(std::unique(vars.begin(), vars.end()), vars.end());
  auto store = [&](int r, const Model &mm) { if (g_qcache.size() > 400000) g_qcache.clear(); auto &e = g_qcache[key]; e.first = r; if (r == R_SAT) for (u32 v : vars) e.second.push_back({v, mm[v]}); };
  for (Model &r : g_recent) { bool ok = true; newEpoch(); 
    for (Expr *e : cs) if (!evalExprSameEpoch(e, r)) { ok = false; break; }
    if (ok) { g_ss.modelHits++; Model mm = S->model; growModel(mm); for (u32 v : vars) mm[v] = v < r.size() ? r[v] : g_syms[v].lo; store(R_SAT, mm); m = mm; return R_SAT; } }
  Model mm = S->model; growModel(mm);
  double q0 = g_ss.time; SatRes r = solverCheck(cs, mm); if (g_opt.trace) { auto &q = g_qLocs[curLoc()]; q.first += g_ss.time - q0; q.second++; }
  if (r == R_UNKNOWN) throw Fatal{"solver returned unknown (time limit)"};
  store(r, mm);
  if (r == R_SAT) { if (g_recent.size() < 8) g_recent.push_back(mm); else g_recent[g_recentPos++ % 8] = mm; m = mm; }
  return r;
}
static int knownTruth(Expr *c) {
  Expr *n = nullptr;
  for (size_t i = S->pc.size(); i-- > 0;) { if (S->pc[i] == c) return 1; }
  for (size_t i = S->facts.size(); i-- > 0;) { if (S->facts[i] == c) return 1; }
  n = mkNot(c);
  for (size_t i = S->pc.size(); i-- > 0;) if (S->pc[i] == n) return 0;
  for (size_t i = S->facts.size(); i-- > 0;) if (S->facts[i] == n) return 0;
  return -1;
}
static void addKnown(Expr *e, u64 v) { if (S->known.size() > 48) S->known.erase(S->known.begin()); S->known.push_back({e, v}); }
static void addFact(Expr *c) { if (isConst(c)) return; if (c->op == O_Eq && isConst(c->b) && c->a->w > 1) addKnown(c->a, c->b->val); if (S->facts.size() > 400) S->facts.erase(S->facts.begin(), S->facts.begin() + 200); S->facts.push_back(c); }
static void addPc(Expr *c) { if (isConst(c)) return; 
  if (c->op == O_And && c->w == 1) { addPc(c->a); addPc(c->b); return; }
  if (c->op == O_Eq && isConst(c->b) && c->a->w > 1) addKnown(c->a, c->b->val);
  S->pc.push_back(c); }
// Replaces subterms whose value the path condition fixes (bounded work; returns e itself if nothing applies).
static Expr *substRec(Expr *e, std::unordered_map<Expr*, Expr*> &memo, int &budget) {
  if (isConst(e)) return e; auto it = memo.find(e); if (it != memo.end()) return it->second;
  for (auto &k : S->known) if (k.first == e) return memo[e] = mkConst(k.second, e->w);
  if (e->op == O_Sym || --budget < 0) return e;
  Expr *a = e->a ? substRec(e->a, memo, budget) : nullptr, *b = e->b ? substRec(e->b, memo, budget) : nullptr, *c = e->c ? substRec(e->c, memo, budget) : nullptr; Expr *r = e;
  if (a != e->a || b != e->b || c != e->c) switch (e->op) {
    case O_Ite: r = mkIte(a, b, c); break; case O_Extract: r = mkExtract(a, e->lo, e->w); break; case O_ZExt: r = mkZExt(a, e->w); break; case O_SExt: r = mkSExt(a, e->w); break;
    case O_Concat: r = mkConcat(a, b); break; case O_Popcnt: case O_Ctz: case O_Clz: r = mkUn(e->op, a); break;
    case O_Xor: if (e->w == 1 && isConst(b, 1)) { r = mkNot(a); break; } [[fallthrough]];
    default: r = mkBin(e->op, a, b); }
  return memo[e] = r;
}
static Expr *subst(Expr *e) { if (S->known.empty() || isConst(e)) return e; std::unordered_map<Expr*, Expr*> memo; int budget = 40; return substRec(e, memo, budget); }
static State *cloneState() { State *n = new State(*S); n->depth++; return n; }
// Branch on a boolean expression: returns the side the current state follows; the other side, if feasible,
// becomes a new state that re-executes the current instruction.
static std::map<u32,u64> g_forkLocs;
static u32 curLoc() { if (S->th.empty() || S->th[S->cur].frames.empty()) return 0; Frame &f = S->th[S->cur].frames.back(); return f.ip < f.f->code.size() ? f.f->code[f.ip].loc : 0; }
static void tighten(Expr *off, u64 &lo, u64 &hi);
static std::unordered_map<Expr*, u32> g_cmpCount;
// Decides a comparison with a constant from the tight interval of the compared term under the path condition
// (computed with the solver once a term was compared often).  -1: not decided.
static int byRange(Expr *c) {
  bool neg = false; if (c->op == O_Xor && isConst(c->b, 1)) { neg = true; c = c->a; }
  if (c->op != O_Ult && c->op != O_Ule && c->op != O_Eq) return -1;
  bool ca = isConst(c->a), cb = isConst(c->b); if (ca == cb) return -1; Expr *e = ca ? c->b : c->a; u64 k = ca ? c->a->val : c->b->val; if (e->w == 1) return -1;
  u64 lo = 0, hi = 0; bool have = false; for (auto &r : S->ranges) if (r.e == e) { lo = r.lo; hi = r.hi; have = true; break; }
  if (!have) { if (++g_cmpCount[e] % 8 != 0) return -1; lo = e->umin; hi = e->umax; tighten(e, lo, hi); }
  int t = -1;
  if (c->op == O_Eq) { if (k < lo || k > hi) t = 0; else if (lo == hi) t = 1; }
  else if (c->op == O_Ult) { if (cb) { if (hi < k) t = 1; else if (lo >= k) t = 0; } else { if (k < lo) t = 1; else if (k >= hi) t = 0; } }
  else { if (cb) { if (hi <= k) t = 1; else if (lo > k) t = 0; } else { if (k <= lo) t = 1; else if (k > hi) t = 0; } }
  return t < 0 ? -1 : neg ? !t : t;
}
static bool decide(Expr *c) {
  if (isConst(c)) return c->val;
  int k = knownTruth(c); if (k >= 0) return k;
  c = subst(c); if (isConst(c)) return c->val;
  k = byRange(c); if (k >= 0) return k;
  bool v = evalM(c); Expr *other = v ? mkNot(c) : c; Expr *mine = v ? c : mkNot(c);
  Model m2; SatRes r = feasible(other, m2);
  if (r == R_UNSAT) { addFact(mine); return v; }
  if (noFork) throw Fatal{"fork inside an uninterruptible instruction at " + locStr(curLoc())};
  State *n = cloneState(); n->model = m2; { State *sv = S; S = n; addPc(other); S = sv; } work.push_back(n); st.forks++; if (g_opt.trace) g_forkLocs[curLoc()]++;
  addPc(mine); return v;
}
static u64 concretize(Expr *e) { if (isConst(e)) return e->val; st.concretize++; for (;;) { u64 v = evalM(e); if (decide(mkBin(O_Eq, e, mkConst(v, e->w)))) return v; } }
static inline u64 conc(Val v) { return v.e ? concretize(v.e) : v.c; }
static inline Expr *EX(Val v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static inline Val VE(Expr *e) { if (isConst(e)) return {e->val, nullptr}; return {0, e}; }

// ---------------- violations ----------------
static std::string stackStr() { std::string s; Thread &t = S->th[S->cur]; for (size_t i = t.frames.size(); i-- > 0;) { Frame &f = t.frames[i]; s += f.f->name + "@" + locStr(f.ip < f.f->code.size() ? f.f->code[f.ip].loc : 0) + " < "; if (s.size() > 1500) break; } return s; }
static std::vector<std::pair<std::string,u64>> modelSyms(const Model &m) { std::vector<std::pair<std::string,u64>> r; for (u32 s : S->syms) r.push_back({g_syms[s].name, s < m.size() ? m[s] : g_syms[s].lo}); return r; }
static std::vector<std::pair<std::string,u64>> obsVals(const Model &m) { std::vector<std::pair<std::string,u64>> r; for (auto &o : S->obs) r.push_back({g_names[o.first], o.second.e ? evalExpr(o.second.e, m) : o.second.c}); return r; }
static void violation(const std::string &kind, const std::string &msg, const Model &m) {
  std::string loc = locStr(curLoc()); std::string key = kind + "|" + msg + "|" + (kind == "assert" ? "" : loc);
  if (g_violKeys.insert(key).second && g_viol.size() < g_opt.maxViol) g_viol.push_back({kind, msg, loc, stackStr(), modelSyms(m), S->sched, obsVals(m)});
}
[[noreturn]] static void fail(const std::string &kind, const std::string &msg) { violation(kind, msg, S->model); throw PathEnd{2}; }

// ---------------- memory ----------------
static Obj *find(u64 addr) {
  u64 r = addr >> REGION_BITS;
  if (r >= STACK_REGION0) { u64 q = r - STACK_REGION0; u32 t = q >> 14; u32 i = q & 16383; if (t < S->th.size() && i < S->th[t].stack.size()) return S->th[t].stack[i]; return nullptr; }
  if (r < S->objs.size()) return S->objs[r]; return nullptr;
}
static Obj *&slotOf(u64 base) { u64 r = base >> REGION_BITS; if (r >= STACK_REGION0) { u64 q = r - STACK_REGION0; return S->th[q >> 14].stack[q & 16383]; } return S->objs[r]; }
static Obj *writable(Obj *o) {
  if (o->rc == 1 || (o->size > REGION - 16384 && o->kind == K_Heap)) { if (o->rc == 1) return o; }
  u64 nreg = 1; if (o->kind != K_Stack) nreg = 1 + (o->size + 16384) / REGION;
  if ((u64)o->rc == nreg) return o;   // only this state's own (multi-region) references
  Obj *n = new Obj(*o); n->rc = 0;
  if (o->kind == K_Stack) { slotOf(o->base) = n; n->rc = 1; unref(o); }
  else for (u64 k = 0; k < nreg; k++) { S->objs[(o->base >> REGION_BITS) + k] = n; n->rc++; unref(o); }
  return n;
}
#define FILL ((u8)g_opt.fill) /* what uninitialised memory holds */
static u64 newHeap(u64 size, u32 align, u8 fam, bool zero) {
  u64 r = S->objs.size(); if (r < HEAP_REGION0) { S->objs.resize(HEAP_REGION0, nullptr); r = HEAP_REGION0; }
  Obj *o = new Obj; u32 al = align < 16 ? 16 : align; o->base = (r << REGION_BITS) + 4096 + al; if (align > 4096) o->base = (r << REGION_BITS) + align; o->size = size; o->kind = K_Heap; o->fam = fam; o->align = al;
  o->d.assign(size, zero ? 0 : FILL); o->rc = 0; o->allocLoc = curLoc(); o->seq = S->allocSeq++; u64 nreg = 1 + (size + 16384) / REGION; for (u64 k = 0; k < nreg; k++) { S->objs.push_back(o); o->rc++; }
  if (S->objs.size() > STACK_REGION0 - 8) throw Fatal{"heap regions exhausted"};
  S->live++; g_objAllocs++; return o->base;
}
static u64 newStack(u64 size, u32 align) {
  Thread &t = S->th[S->cur]; u64 i = t.stack.size(); if (i > 16000) throw Fatal{"stack objects exhausted"};
  Obj *o = new Obj; u32 al = align < 16 ? 16 : align; o->base = ((STACK_REGION0 + (u64(S->cur) << 14) + i) << REGION_BITS) + 4096 + al; o->size = size; o->kind = K_Stack; o->align = al; o->d.assign(size, FILL);
  t.stack.push_back(o); return o->base;
}
static std::string objDesc(Obj *o) { return std::string(o->kind == K_Heap ? "heap" : o->kind == K_Stack ? "stack" : "global") + " object of " + std::to_string(o->size) + " bytes" + (o->allocLoc ? " allocated at " + locStr(o->allocLoc) : ""); }
static void raceCheck(u64 addr, unsigned n, bool write);

static Val readCell(Obj *o, u64 off, unsigned bytes, unsigned bits) {
  if (o->nsym) {
    bool any = false; for (unsigned i = 0; i < bytes; i++) if (o->s[off + i].e) { any = true; break; }
    if (any) {
      Expr *r = nullptr; SymB f = o->s[off];
      if (f.e && f.idx == 0 && f.e->w == bytes * 8) { bool all = true; for (unsigned i = 1; i < bytes; i++) if (o->s[off + i].e != f.e || o->s[off + i].idx != i) { all = false; break; } if (all) r = f.e; }
      if (!r) for (unsigned i = 0; i < bytes;) {
        SymB b = o->s[off + i]; Expr *part; unsigned j = i + 1;
        if (b.e) { while (j < bytes && o->s[off + j].e == b.e && o->s[off + j].idx == b.idx + (j - i)) j++; part = mkExtract(b.e, b.idx * 8, (j - i) * 8); }
        else { u64 v = o->d[off + i]; while (j < bytes && !o->s[off + j].e) { v |= (u64)o->d[off + j] << (8 * (j - i)); j++; } part = mkConst(v, (j - i) * 8); }
        r = r ? mkConcat(part, r) : part; i = j; }
      if (bits < bytes * 8) r = mkExtract(r, 0, bits);
      return VE(r);
    }
  }
  u64 v = 0; memcpy(&v, &o->d[off], bytes); return VC(v & maskw(bits));
}
static void writeCell(Obj *o, u64 off, unsigned bytes, unsigned bits, Val v) {
  if (v.e) {
    Expr *e = v.e; if (bits < bytes * 8) e = mkZExt(e, bytes * 8);
    if (o->s.empty()) o->s.assign(o->size, SymB{nullptr, 0});
    for (unsigned i = 0; i < bytes; i++) { SymB &b = o->s[off + i]; if (!b.e) o->nsym++; b.e = e; b.idx = i; }
  } else {
    if (o->nsym) for (unsigned i = 0; i < bytes; i++) { SymB &b = o->s[off + i]; if (b.e) { b.e = nullptr; o->nsym--; } }
    memcpy(&o->d[off], &v.c, bytes);
  }
}
static void checkLive(Obj *o, u64 addr, bool write, unsigned n) {
  if (!o) { char b[64]; snprintf(b, 64, "0x%llx", (unsigned long long)addr); fail("memory", std::string(addr < 65536 ? "null pointer " : "wild pointer ") + (write ? "write" : "read") + " of " + std::to_string(n) + " bytes at " + b); }
  if (o->freed) fail("memory", std::string("use after free: ") + (write ? "write to " : "read of ") + objDesc(o));
}
static Obj *access(u64 addr, u64 n, bool write) {
  Obj *o = find(addr); checkLive(o, addr, write, n); u64 off = addr - o->base;
  if (addr < o->base || off > o->size || n > o->size - off) fail("memory", std::string("out of bounds ") + (write ? "write" : "read") + " of " + std::to_string(n) + " bytes at offset " + std::to_string((i64)off) + " of " + objDesc(o));
  if (write && o->ro) fail("memory", "write to constant " + objDesc(o));
  if (S->th.size() > 1) raceCheck(addr, n, write);
  return write ? writable(o) : o;
}
// Resolve a symbolic address: object + offset expression proven in bounds.
static Obj *resolveSym(Expr *e, u64 n, bool write, Expr *&off) {
  e = subst(e); u64 a = evalM(e); Obj *o = find(a); checkLive(o, a, write, n);
  if (a < o->base || a - o->base > o->size || n > o->size - (a - o->base)) fail("memory", std::string("out of bounds ") + (write ? "write" : "read") + " of " + std::to_string(n) + " bytes at offset " + std::to_string((i64)(a - o->base)) + " of " + objDesc(o));
  off = mkBin(O_Sub, e, mkConst(o->base, 64)); Expr *inb = mkBin(O_Ule, off, mkConst(o->size - n, 64));
  if (!isConst(inb) && knownTruth(inb) != 1) {
    Model m2; SatRes r = feasible(mkNot(inb), m2);
    if (r == R_SAT) { u64 a2 = evalExpr(e, m2); Obj *o2 = find(a2); bool ok2 = o2 && o2 != o && !o2->freed && a2 >= o2->base && a2 - o2->base <= o2->size && n <= o2->size - (a2 - o2->base);
      if (ok2) { if (!decide(inb)) throw Fatal{"resolve"}; }
      else { violation("memory", std::string(o2 && o2->freed ? "use after free " : "out of bounds ") + (write ? "write" : "read") + " of " + std::to_string(n) + " bytes (symbolic address) near " + objDesc(o), m2); addPc(inb); } }
    else addFact(inb);
  } else if (isConst(inb) && !inb->val) fail("memory", "out of bounds");
  if (write && o->ro) fail("memory", "write to constant " + objDesc(o));
  return o;
}
static void tighten(Expr *off, u64 &lo, u64 &hi) {
  for (auto &r : S->ranges) if (r.e == off) { lo = std::max(lo, r.lo); hi = std::min(hi, r.hi); return; }
  u64 v = evalM(off); Model m2; unsigned W = off->w;
  // galloping search outwards from the current model value
  auto lower = [&](u64 a, u64 b) { u64 d = 1; while (a < b) { u64 t = b - a < d ? a + 1 : b - d + 1; /* is there a value < t ? */ 
      if (feasible(mkBin(O_Ult, off, mkConst(t, W)), m2) == R_SAT) { u64 x = evalExpr(off, m2); b = std::min(b, x); d = d < (1ull << 40) ? d * 4 + 4 : d; } else { a = t; d = std::max<u64>(1, (b - a + 1) / 2); } } return a; };
  auto upper = [&](u64 a, u64 b) { u64 d = 1; while (a < b) { u64 t = b - a < d ? b - 1 : a + d - 1; /* is there a value > t ? */
      if (feasible(mkBin(O_Ult, mkConst(t, W), off), m2) == R_SAT) { u64 x = evalExpr(off, m2); a = std::max(a, x); d = d < (1ull << 40) ? d * 4 + 4 : d; } else { b = t; d = std::max<u64>(1, (b - a + 1) / 2); } } return b; };
  lo = lower(lo, v); hi = upper(v, hi);
  if (S->ranges.size() > 64) S->ranges.erase(S->ranges.begin()); S->ranges.push_back({off, lo, hi}); if (lo == hi) addKnown(off, lo);
}
static void symRange(Obj *o, Expr *off, u64 n, u64 &lo, u64 &hi, u64 &stride) {
  lo = off->umin; hi = std::min(off->umax, o->size - n); stride = 1; while (stride < 64 && (off->kz & stride)) stride <<= 1;
  if ((hi - lo) / stride + 1 > 24) tighten(off, lo, hi);
  lo = (lo + stride - 1) & ~(stride - 1); hi &= ~(stride - 1);
}
static Expr *segTree(Expr *off, const std::vector<std::pair<u64, Expr*>> &seg, size_t a, size_t b) { // seg[i] covers from seg[i].first to next
  if (b - a == 1) return seg[a].second; size_t m = (a + b) / 2;
  return mkIte(mkBin(O_Ult, off, mkConst(seg[m].first, 64)), segTree(off, seg, a, m), segTree(off, seg, m, b));
}
static Val readSym(Obj *o, Expr *off, unsigned bytes, unsigned bits) {
  st.symReads++; u64 lo, hi, stride; symRange(o, off, bytes, lo, hi, stride);
  if (lo > hi) throw Fatal{"empty symbolic range"};
  size_t n = (hi - lo) / stride + 1; if (n > 200000) throw Fatal{"symbolic read range too large"};
  std::vector<Val> v(n); for (size_t k = 0; k < n; k++) v[k] = readCell(o, lo + k * stride, bytes, bits);
  // most common value
  std::unordered_map<u64, u32> cnt; u64 best = 0; u32 bc = 0; for (Val &x : v) if (!x.e) { u32 c = ++cnt[x.c]; if (c > bc) { bc = c; best = x.c; } }
  if (n <= 4 || n - bc <= 24) {
    Expr *r = nullptr; if (bc) r = mkConst(best, bits);
    std::unordered_map<Expr*, Expr*> byVal; std::vector<std::pair<Expr*,Expr*>> order; 
    for (size_t k = 0; k < n; k++) { if (bc && !v[k].e && v[k].c == best) continue; Expr *x = EX(v[k], bits); Expr *eq = mkBin(O_Eq, off, mkConst(lo + k * stride, 64)); auto it = byVal.find(x); if (it == byVal.end()) { byVal[x] = eq; order.push_back({x, nullptr}); } else it->second = mkBin(O_Or, it->second, eq); }
    for (auto &p : order) { Expr *c = byVal[p.first]; r = r ? mkIte(c, p.first, r) : p.first; }
    return VE(r);
  }
  // affine segments
  std::vector<std::pair<u64, Expr*>> seg; size_t k = 0; unsigned sh = __builtin_ctzll(stride);
  while (k < n) {
    if (v[k].e || k + 1 >= n || v[k+1].e) { seg.push_back({lo + k * stride, EX(v[k], bits)}); k++; continue; }
    u64 d = (v[k+1].c - v[k].c) & maskw(bits); size_t j = k + 1; while (j + 1 < n && !v[j+1].e && ((v[j+1].c - v[j].c) & maskw(bits)) == d) j++;
    if (j - k < 2 && d) { seg.push_back({lo + k * stride, EX(v[k], bits)}); k++; continue; }
    Expr *x; if (d == 0) x = mkConst(v[k].c, bits); else {
      Expr *ix = mkBin(O_LShr, mkBin(O_Sub, off, mkConst(lo + k * stride, 64)), mkConst(sh, 64)); if (bits < 64) ix = mkExtract(ix, 0, bits);
      x = mkBin(O_Add, mkBin(O_Mul, ix, mkConst(d, bits)), mkConst(v[k].c, bits)); }
    seg.push_back({lo + k * stride, x}); k = j + 1;
  }
  return VE(segTree(off, seg, 0, seg.size()));
}
static Val loadVal(Val p, unsigned off0, unsigned bytes, unsigned bits) {
  if (!p.e) { Obj *o = access(p.c + off0, bytes, false); return readCell(o, p.c + off0 - o->base, bytes, bits); }
  Expr *off; Expr *a = off0 ? mkBin(O_Add, p.e, mkConst(off0, 64)) : p.e; if (isConst(a)) { Obj *o = access(a->val, bytes, false); return readCell(o, a->val - o->base, bytes, bits); }
  Obj *o = resolveSym(a, bytes, false, off);
  if (isConst(off)) return readCell(o, off->val, bytes, bits);
  return readSym(o, off, bytes, bits);
}
static void storeVal(Val p, unsigned off0, unsigned bytes, unsigned bits, Val v) {
  if (!p.e) { Obj *o = access(p.c + off0, bytes, true); writeCell(o, p.c + off0 - o->base, bytes, bits, v); return; }
  Expr *off; Expr *a = off0 ? mkBin(O_Add, p.e, mkConst(off0, 64)) : p.e; if (isConst(a)) { Obj *o = access(a->val, bytes, true); writeCell(o, a->val - o->base, bytes, bits, v); return; }
  Obj *o = resolveSym(a, bytes, true, off);
  if (isConst(off)) { writeCell(writable(o), off->val, bytes, bits, v); return; }
  st.symWrites++; u64 lo, hi, stride; symRange(o, off, bytes, lo, hi, stride); size_t n = (hi - lo) / stride + 1;
  if (stride < bytes || n > 8192 || (n <= 4 && !noFork)) { u64 x = concretize(off); writeCell(writable(o), x, bytes, bits, v); return; }
  o = writable(o); Expr *ve = EX(v, bits);
  for (size_t k = 0; k < n; k++) { u64 f = lo + k * stride; Val old = readCell(o, f, bytes, bits); writeCell(o, f, bytes, bits, VE(mkIte(mkBin(O_Eq, off, mkConst(f, 64)), ve, EX(old, bits)))); }
}
static std::string cstr(Val p) { std::string s; u64 a = conc(p); for (;;) { Val c = loadVal(VC(a++), 0, 1, 8); u64 x = conc(c); if (!x) break; s += (char)x; if (s.size() > 4000) break; } return s; }

static void freeObj(u64 addr, u8 fam, const char *what) {
  if (!addr) return; Obj *o = find(addr);
  if (!o || o->kind != K_Heap || addr != o->base) { fail("memory", std::string(what) + " of a pointer that is not the start of a heap block" + (o ? " (" + objDesc(o) + ")" : "")); }
  if (o->freed) fail("memory", std::string("double free: ") + objDesc(o));
  bool cfree = fam == FAM_MALLOC; bool of = o->fam == FAM_MALLOC || o->fam == FAM_ALIGNED;
  if (cfree != of || (!cfree && fam != o->fam)) fail("memory", std::string("mismatched deallocation of ") + objDesc(o));
  if (S->th.size() > 1 && o->size) raceCheck(o->base, o->size, true);
  o = writable(o); o->freed = true; o->d.clear(); o->d.shrink_to_fit(); o->s.clear(); o->s.shrink_to_fit(); o->nsym = 0; S->live--;
}
static void copyBytes(u64 d, u64 s, u64 n) { // concrete addresses, memmove semantics
  if (!n) return; Obj *so = access(s, n, false); Obj *dob = access(d, n, true); so = find(s);
  u64 sf = s - so->base, df = d - dob->base;
  if (so->nsym || dob->nsym) {
    if (so->nsym) { if (dob->s.empty()) dob->s.assign(dob->size, SymB{nullptr, 0});
      std::vector<SymB> t(so->s.begin() + sf, so->s.begin() + sf + n); for (u64 i = 0; i < n; i++) { SymB &b = dob->s[df + i]; if (b.e) dob->nsym--; b = t[i]; if (b.e) dob->nsym++; } }
    else for (u64 i = 0; i < n; i++) { SymB &b = dob->s[df + i]; if (b.e) { b.e = nullptr; dob->nsym--; } } }
  memmove(&dob->d[df], &so->d[sf], n);
}
static void doMemcpy(Val d, Val s, Val n) {
  if (n.e && n.e->umax == 0) return;
  u64 len = conc(n); if (!len) return; u64 da = conc(d), sa = conc(s); copyBytes(da, sa, len); }
static bool fewValues(Expr *e) { unsigned t = 0; while (t < 12 && (e->kz >> t & 1)) t++; if (((e->umax - e->umin) >> t) < 4) return true; u64 lo = e->umin, hi = e->umax; tighten(e, lo, hi); return ((hi - lo) >> t) < 4; }
static void doMemset(Val d, Val c, Val n) {
  if (d.e) { d = VE(subst(d.e)); if (d.e && fewValues(d.e)) d = VC(concretize(d.e)); }
  if (n.e) { n = VE(subst(n.e)); if (n.e && fewValues(n.e)) n = VC(concretize(n.e)); }
  if ((n.e || d.e) && !c.e) {
    // range fill without forking when destination object is known and everything is 8-byte (or 1-byte on small objects) granular
    Expr *ne = EX(n, 64), *de = EX(d, 64); u64 a = evalM(de); Obj *o = find(a);
    if (o && !o->freed && o->kind != K_Global) {
      Expr *s = mkBin(O_Sub, de, mkConst(o->base, 64)); Expr *e = mkBin(O_Add, s, ne);
      u64 g = 8; while (g > 1 && ((~s->kz | ~ne->kz) & (g - 1))) g >>= 1;
      if (o->size / g <= 4096 && o->size % g == 0) {
        Expr *ok = mkBin(O_And, mkBin(O_Ule, s, mkConst(o->size, 64)), mkBin(O_Ule, ne, mkBin(O_Sub, mkConst(o->size, 64), s)));
        Model m2; if (!isConst(ok, 1) && feasible(mkNot(ok), m2) == R_SAT) { u64 n2 = evalExpr(ne, m2), d2 = evalExpr(de, m2); if (n2) { violation("memory", "memset out of bounds of " + objDesc(o) + " offset " + std::to_string((i64)(d2 - o->base)) + " length " + std::to_string(n2), m2); addPc(ok); if (!evalM(ok)) throw PathEnd{2}; } else goto slow; }
        u64 lo = s->umin, hi = std::min(o->size, e->umax); if (lo > o->size || s->umin > s->umax) lo = 0; if (e->umin == 0 && e->umax == ~0ULL) hi = o->size;
        lo &= ~(g - 1); o = writable(o); u64 fv = 0x0101010101010101ULL * (c.c & 255); fv &= maskw(g * 8);
        for (u64 k = lo; k + g <= hi + (g - 1) && k < o->size; k += g) { Expr *in = mkBin(O_And, mkBin(O_Ule, s, mkConst(k, 64)), mkBin(O_Ult, mkConst(k, 64), e)); Val old = readCell(o, k, g, g * 8); writeCell(o, k, g, g * 8, VE(mkIte(in, mkConst(fv, g * 8), EX(old, g * 8)))); }
        return;
      }
    }
  }
slow:
  u64 len = conc(n); if (!len) return; u64 da = conc(d); Obj *o = access(da, len, true); u64 off = da - o->base;
  if (c.e) { for (u64 i = 0; i < len; i++) writeCell(o, off + i, 1, 8, c.e->w == 8 ? c : VE(mkExtract(c.e, 0, 8))); return; }
  if (o->nsym) for (u64 i = 0; i < len; i++) { SymB &b = o->s[off + i]; if (b.e) { b.e = nullptr; o->nsym--; } }
  memset(&o->d[off], (int)c.c, len);
}

// ---------------- threads: happens-before race detection ----------------
static void vcJoin(std::vector<u32> &a, const std::vector<u32> &b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]); }
static u32 vcGet(const std::vector<u32> &a, u32 i) { return i < a.size() ? a[i] : 0; }
static void raceCheck(u64 addr, unsigned n, bool write) {
  if ((addr >> REGION_BITS) >= STACK_REGION0) return; Thread &t = S->th[S->cur]; u32 me = S->cur; if (S->th.size() > 4) throw Fatal{"more than four threads"};
  Obj *o = find(addr); if (!o) return; u64 size = o->size; auto &sh = S->races[o->base]; if (!sh) sh = std::make_shared<std::vector<RaceCell>>(size, RaceCell{0, {0, 0, 0, 0}, 0}); else if (sh.use_count() > 1) sh = std::make_shared<std::vector<RaceCell>>(*sh);
  u32 now = vcGet(t.vc, me); u64 off = addr - o->base;
  for (u64 c = off; c < off + n && c < size; c++) { RaceCell &rc = (*sh)[c];
    if (rc.wt && rc.wt - 1u != me && rc.wc > vcGet(t.vc, rc.wt - 1)) fail("race", std::string("data race: ") + (write ? "write" : "read") + " concurrent with a write by another thread");
    if (write) { for (u32 i = 0; i < 4; i++) { if (i != me && rc.r[i] > vcGet(t.vc, i)) fail("race", "data race: write concurrent with a read by another thread"); rc.r[i] = 0; } rc.wt = me + 1; rc.wc = now; }
    else rc.r[me] = now; }
}
// Happens-before edges of an atomic access, by its memory ordering: an acquire takes over what the location's last release
// sequence carries; a relaxed read only keeps it for a later acquire fence; a relaxed write carries what the last release
// fence saw; a read-modify-write continues the release sequence, a plain store starts a new one.
static void syncAtomic(u64 addr, bool rd, bool wr, bool acq, bool rel) {
  if (S->th.size() < 2) return; Thread &t = S->th[S->cur]; auto &v = S->syncvc[addr];
  if (rd) vcJoin(acq ? t.vc : t.pend, v);
  if (wr) { if (!rd) v.clear(); vcJoin(v, rel ? t.vc : t.frel); }
  if (wr && rel) { if (t.vc.size() <= S->cur) t.vc.resize(S->cur + 1, 0); t.vc[S->cur]++; }
}
static void syncFence(bool acq, bool rel) { if (S->th.size() < 2) return; Thread &t = S->th[S->cur]; if (acq) vcJoin(t.vc, t.pend); if (rel) { t.frel = t.vc; if (t.vc.size() <= S->cur) t.vc.resize(S->cur + 1, 0); t.vc[S->cur]++; } }
static int liveThreads() { int n = 0; for (auto &t : S->th) if (!t.done) n++; return n; }
static bool runnable(u32 i) { Thread &t = S->th[i]; if (t.done) return false; if (t.joinOn >= 0 && !S->th[t.joinOn].done) return false; return true; }
// Scheduling choice before a synchronisation operation: explore every runnable thread (each as its own state).
static void schedPoint() {
  if (S->th.size() < 2) return; if (S->skipSched) { S->skipSched = false; return; }
  st.schedPoints++;
  for (u32 i = 0; i < S->th.size(); i++) if (i != S->cur && runnable(i) && S->preempt < g_opt.maxPreempt) { State *n = cloneState(); n->cur = i; n->preempt++; n->skipSched = true; n->sched += "@" + std::to_string(i); work.push_back(n); st.forks++; }
}

// ---------------- calls ----------------
static void pushFrame(Func *f, const Inst *ci, const Val *args, const std::vector<u32> &counts, const std::vector<Val> &extra) {
  if (!f->translated) translate(f);
  Thread &t = S->th[S->cur]; if (t.frames.size() > 4000) fail("memory", "stack overflow (call depth)");
  Frame fr; fr.f = f; fr.ip = 0; fr.regBase = t.regs.size(); fr.stackMark = t.stack.size(); fr.ci = ci; fr.va = 0; f->calls++;
  u32 need = fr.regBase + f->nslots; t.regs.resize(need, VC(0));
  u32 k = 0; for (size_t i = 0; i < f->argSlots.size(); i++) for (u32 j = 0; j < f->argCounts[i]; j++) t.regs[fr.regBase + f->argSlots[i] + j] = args[k++];
  t.frames.push_back(fr); if (!f->cov.empty()) f->cov[0] = 1;
  for (size_t i = 0; i < f->byval.size(); i++) if (f->byval[i]) { u64 a = newStack(f->byval[i], 16), s = conc(t.regs[fr.regBase + f->argSlots[i]]); copyBytes(a, s, f->byval[i]); S->th[S->cur].regs[fr.regBase + f->argSlots[i]] = VC(a); }
  if (f->vararg && !extra.empty()) { u64 a = newStack(extra.size() * 8, 16); Obj *o = writable(find(a)); for (size_t i = 0; i < extra.size(); i++) writeCell(o, i * 8, 8, 64, extra[i]); t.frames.back().va = a; }
}
static void popFrame() { Thread &t = S->th[S->cur]; Frame &f = t.frames.back(); while (t.stack.size() > f.stackMark) { unref(t.stack.back()); t.stack.pop_back(); } t.regs.resize(f.regBase); t.frames.pop_back(); }

enum Bi { B_none = -1, B_symRange = 0, B_symBytes, B_assume, B_assert, B_observe, B_conc, B_param, B_live, B_noLeak, B_isNative, B_shard, B_note, B_spawn, B_join, B_isSym, B_mayBe, B_symMin, B_symMax, B_skipObs, B_objSize, B_shardPick, B_total,
  B_malloc, B_calloc, B_realloc, B_free, B_memalign, B_memcpy, B_memmove, B_memset, B_memcmp, B_strlen, B_printf, B_abort, B_new, B_newarr, B_delete, B_delarr, B_nop, B_nop0, B_strcmp,
  B_lifetime, B_assumeI, B_ctpop, B_ctlz, B_cttz, B_umax, B_umin, B_smax, B_smin, B_bswap, B_fshl, B_fshr, B_uaddsat, B_usubsat, B_abs, B_uaddo, B_usubo, B_umulo, B_saddo, B_ssubo, B_smulo, B_expect, B_objectsize, B_trap, B_vastart, B_vaend, B_vacopy, B_loadrel,
  B_psadbw, B_pshufb, B_packsswb, B_lddqu, B_pcmpestrm, B_pcmpistrm, B_compress, B_redadd, B_redor, B_redand, B_redumax, B_redumin, B_fmuladd, B_bitreverse, B_isconst, B_ssa_copy, B_unreach, B_fabs,
  B_cxaAlloc, B_cxaThrow, B_cxaBegin, B_cxaEnd, B_cxaRethrow, B_typeid, B_atexit, B_cxaFreeExc, B_terminate, B_throwLen, B_guardAcq, B_guardRel, B_compressstore, B_expandload, B_sleep };
static const std::unordered_map<std::string, int> &biMap() {
  static const std::unordered_map<std::string, int> m = {
    {"sym_range_",B_symRange},{"sym_bytes_",B_symBytes},{"sym_assume_",B_assume},{"sym_assert_",B_assert},{"sym_observe_",B_observe},{"sym_concretize_",B_conc},{"sym_param_",B_param},{"sym_live_allocs_",B_live},{"sym_no_leak_check_",B_noLeak},{"sym_is_native_",B_isNative},{"sym_shard_",B_shard},{"sym_note_",B_note},{"sym_spawn_",B_spawn},{"sym_join_",B_join},{"sym_is_symbolic_",B_isSym},{"sym_may_",B_mayBe},{"sym_min_",B_symMin},{"sym_max_",B_symMax},{"sym_objsize_",B_objSize},{"sym_shard_pick_",B_shardPick},{"sym_total_allocs_",B_total},
    {"malloc",B_malloc},{"calloc",B_calloc},{"realloc",B_realloc},{"free",B_free},{"posix_memalign",B_memalign},{"memcpy",B_memcpy},{"memmove",B_memmove},{"memset",B_memset},{"memcmp",B_memcmp},{"bcmp",B_memcmp},{"strlen",B_strlen},{"strcmp",B_strcmp},
    {"printf",B_nop0},{"fprintf",B_nop0},{"puts",B_nop0},{"putchar",B_nop0},{"fputs",B_nop0},{"fwrite",B_nop0},{"fputc",B_nop0},{"fflush",B_nop0},{"abort",B_abort},{"exit",B_abort},
    {"_Znwm",B_new},{"_Znam",B_newarr},{"_ZdlPv",B_delete},{"_ZdlPvm",B_delete},{"_ZdaPv",B_delarr},{"_ZdaPvm",B_delarr},
    {"__cxa_allocate_exception",B_cxaAlloc},{"__cxa_throw",B_cxaThrow},{"__cxa_begin_catch",B_cxaBegin},{"__cxa_end_catch",B_cxaEnd},{"__cxa_rethrow",B_cxaRethrow},{"__cxa_free_exception",B_cxaFreeExc},{"__cxa_atexit",B_nop0},{"atexit",B_nop0},{"_ZSt9terminatev",B_terminate},{"__clang_call_terminate",B_terminate},{"__cxa_guard_acquire",B_guardAcq},{"__cxa_guard_release",B_guardRel},{"__cxa_pure_virtual",B_terminate},
    {"_ZSt20__throw_length_errorPKc",B_throwLen},{"_ZSt17__throw_bad_allocv",B_throwLen},{"_ZSt24__throw_out_of_range_fmtPKcz",B_throwLen},{"_ZSt19__throw_logic_errorPKc",B_throwLen},{"_ZSt28__throw_bad_array_new_lengthv",B_throwLen},{"_ZSt25__throw_bad_function_callv",B_throwLen},{"_ZSt20__throw_out_of_rangePKc",B_throwLen},{"__assert_fail",B_abort},
    {"_ZNSt13runtime_errorC1EPKc",B_nop},{"_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",B_nop},{"_ZNSt13runtime_errorD1Ev",B_nop},{"_ZNSt8bad_allocD1Ev",B_nop},{"_ZNSt9exceptionD2Ev",B_nop},{"_ZNSt8ios_base4InitC1Ev",B_nop},{"_ZNSt8ios_base4InitD1Ev",B_nop},{"_ZNSt12out_of_rangeC1EPKc",B_nop},{"_ZNSt12out_of_rangeD1Ev",B_nop},{"_ZNSt16invalid_argumentC1EPKc",B_nop},{"_ZNSt16invalid_argumentD1Ev",B_nop},
  };
  return m;
}
int builtinId(const std::string &n) {
  auto it = biMap().find(n); if (it != biMap().end()) return it->second;
  auto sw = [&](const char *p) { return n.compare(0, strlen(p), p) == 0; };
  if (!sw("llvm.")) return -1;
  if (sw("llvm.memcpy")) return B_memcpy; if (sw("llvm.memmove")) return B_memmove; if (sw("llvm.memset")) return B_memset;
  if (sw("llvm.lifetime") || sw("llvm.experimental.noalias") || sw("llvm.donothing") || sw("llvm.prefetch") || sw("llvm.invariant") || sw("llvm.var.annotation") || sw("llvm.stackrestore") || sw("llvm.assume")) return B_nop;
  if (sw("llvm.ctpop")) return B_ctpop; if (sw("llvm.ctlz")) return B_ctlz; if (sw("llvm.cttz")) return B_cttz; if (sw("llvm.umax")) return B_umax; if (sw("llvm.umin")) return B_umin; if (sw("llvm.smax")) return B_smax; if (sw("llvm.smin")) return B_smin;
  if (sw("llvm.bswap")) return B_bswap; if (sw("llvm.fshl")) return B_fshl; if (sw("llvm.fshr")) return B_fshr; if (sw("llvm.uadd.sat")) return B_uaddsat; if (sw("llvm.usub.sat")) return B_usubsat; if (sw("llvm.abs")) return B_abs;
  if (sw("llvm.uadd.with")) return B_uaddo; if (sw("llvm.usub.with")) return B_usubo; if (sw("llvm.umul.with")) return B_umulo; if (sw("llvm.sadd.with")) return B_saddo; if (sw("llvm.ssub.with")) return B_ssubo; if (sw("llvm.smul.with")) return B_smulo;
  if (sw("llvm.expect")) return B_expect; if (sw("llvm.objectsize")) return B_objectsize; if (sw("llvm.trap") || sw("llvm.ubsantrap")) return B_trap; if (sw("llvm.va_start")) return B_vastart; if (sw("llvm.va_end")) return B_vaend; if (sw("llvm.va_copy")) return B_vacopy; if (sw("llvm.load.relative")) return B_loadrel;
  if (sw("llvm.x86.avx2.psad.bw") || sw("llvm.x86.avx512.psad.bw") || sw("llvm.x86.sse2.psad.bw")) return B_psadbw; if (sw("llvm.x86.avx2.pshuf.b") || sw("llvm.x86.ssse3.pshuf.b") || sw("llvm.x86.avx512.pshuf.b")) return B_pshufb; if (sw("llvm.x86.sse2.packsswb") ) return B_packsswb; if (sw("llvm.x86.avx.ldu.dq") || sw("llvm.x86.sse3.ldu.dq")) return B_lddqu;
  if (sw("llvm.x86.sse42.pcmpestrm")) return B_pcmpestrm; if (sw("llvm.x86.sse42.pcmpistrm")) return B_pcmpistrm; if (sw("llvm.x86.avx512.mask.compress.")) return B_compress;
  if (sw("llvm.masked.compressstore")) return B_compressstore;
  if (sw("llvm.vector.reduce.add")) return B_redadd; if (sw("llvm.vector.reduce.or")) return B_redor; if (sw("llvm.vector.reduce.and")) return B_redand; if (sw("llvm.vector.reduce.umax")) return B_redumax; if (sw("llvm.vector.reduce.umin")) return B_redumin;
  if (sw("llvm.bitreverse")) return B_bitreverse; if (sw("llvm.is.constant")) return B_isconst; if (sw("llvm.eh.typeid")) return B_typeid; if (sw("llvm.fabs")) return B_fabs;
  return -1;
}

static const Val *opv(const Frame &f, Thread &t, i32 o) { return o >= 0 ? &t.regs[f.regBase + o] : &f.f->consts[~o]; }
static Val binV(Op op, unsigned w, Val a, Val b) {
  if (!a.e && !b.e) return VC(constOp(op, w, a.c, b.c));
  return VE(mkBin(op, EX(a, w), EX(b, w)));
}
static Val unV(Op op, unsigned w, Val a) { return VE(mkUn(op, EX(a, w))); }
static Val iteV(Val c, Val a, Val b, unsigned w) { if (!c.e) return c.c ? a : b; if (!a.e && !b.e && a.c == b.c) return a; return VE(mkIte(c.e, EX(a, w), EX(b, w))); }
static Val castV(int k, Val a, unsigned from, unsigned to) { // 0 trunc 1 zext 2 sext
  if (!a.e) { if (k == 0) return VC(a.c & maskw(to)); if (k == 1) return a; return VC((u64)sext64(a.c, from) & maskw(to)); }
  return VE(k == 0 ? mkExtract(a.e, 0, to) : k == 1 ? mkZExt(a.e, to) : mkSExt(a.e, to));
}
static void takeEdge(Thread &t, Frame &f, u32 ei) {
  const Edge &e = f.f->edges[ei];
  if (e.nmv) {
    const auto *mv = &f.f->moves[e.mv]; Val *R = &t.regs[f.regBase];
    if (e.nmv == 1) { R[mv[0].first] = mv[0].second >= 0 ? R[mv[0].second] : f.f->consts[~mv[0].second]; }
    else { Val small[32]; std::vector<Val> big; Val *tmp = small; if (e.nmv > 32) { big.resize(e.nmv); tmp = big.data(); }
      for (u32 i = 0; i < e.nmv; i++) tmp[i] = mv[i].second >= 0 ? R[mv[i].second] : f.f->consts[~mv[i].second];
      for (u32 i = 0; i < e.nmv; i++) R[mv[i].first] = tmp[i]; }
  }
  f.ip = e.ip; f.f->cov[e.block] = 1;
}
static void finishCall(const Val *rv, unsigned n) { // called after the callee frame was popped: deliver the result and advance
  Thread &t = S->th[S->cur]; Frame &f = t.frames.back(); const Inst &I = f.f->code[f.ip];
  if (I.dst >= 0) for (unsigned i = 0; i < n && i < I.lanes; i++) t.regs[f.regBase + I.dst + i] = rv[i];
  i32 ne = f.f->aux[I.aux + 3]; if (ne >= 0) takeEdge(t, f, ne); else f.ip++;
}
// ---------------- exceptions ----------------
static void unwind(u64 obj, u64 type) {
  Thread &t = S->th[S->cur]; t.excObj = obj; t.excType = type;
  // the current top frame is at the throwing call
  while (!t.frames.empty()) { Frame &f = t.frames.back(); const Inst &I = f.f->code[f.ip];
    if (I.op == I_Call && f.f->aux[I.aux + 4] >= 0) { takeEdge(t, f, f.f->aux[I.aux + 4]); return; }
    popFrame(); }
  // no handler: std::terminate
  violation("terminate", "uncaught C++ exception", S->model); throw PathEnd{2};
}
#define OP(o) ((o) >= 0 ? R[o] : K[~(o)])
#define OPL(o, i) ((o) >= 0 ? R[(o) + (i)] : K[~(o) + (i)])
#include "builtins.inc"

// ---------------- main interpreter loop ----------------

static double asD(u64 v, unsigned w) { if (w == 32) { float f; u32 x = v; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
static u64 fromD(double d, unsigned w) { if (w == 32) { float f = (float)d; u32 x; memcpy(&x, &f, 4); return x; } u64 v; memcpy(&v, &d, 8); return v; }

static void threadFinished() {
  Thread &t = S->th[S->cur]; t.done = true;
  if (S->th.size() == 1 || liveThreads() == 0) throw PathEnd{0};
  std::vector<u32> run; for (u32 i = 0; i < S->th.size(); i++) if (runnable(i)) run.push_back(i);
  if (run.empty()) fail("deadlock", "no runnable thread");
  for (size_t k = 1; k < run.size(); k++) { State *n = cloneState(); n->cur = run[k]; n->sched += "@" + std::to_string(run[k]); work.push_back(n); st.forks++; }
  S->cur = run[0]; S->sched += "@" + std::to_string(run[0]);
}

static void step() {
  for (;;) {
    Thread &t = S->th[S->cur]; Frame &f = t.frames.back(); const Inst &I = f.f->code[f.ip]; Val *R = t.regs.data() + f.regBase; const Val *K = f.f->consts.data();
    S->insts++;
    if ((S->insts & 0xfffff) == 0) { if (elapsed() > g_opt.timeLimit) throw Fatal{"time limit"}; if (S->insts > g_opt.maxInstPerPath) { st.limits++; fail("limit", "path exceeded the instruction limit (non-termination?)"); } }
    switch (I.op) {
      case I_Bin: {
        if (I.sub >= O_UDiv && I.sub <= O_SRem) for (unsigned i = 0; i < I.lanes; i++) { Val b = OPL(I.b, i); if (!b.e) { if (!b.c) fail("memory", "division by zero"); } else if (decide(mkBin(O_Eq, b.e, mkConst(0, I.w)))) fail("memory", "division by zero"); }
        for (unsigned i = 0; i < I.lanes; i++) { Val a = OPL(I.a, i), b = OPL(I.b, i); R[I.dst + i] = (!a.e && !b.e) ? VC(constOp((Op)I.sub, I.w, a.c, b.c)) : VE(mkBin((Op)I.sub, EX(a, I.w), EX(b, I.w))); }
        f.ip++; break; }
      case I_ICmp: for (unsigned i = 0; i < I.lanes; i++) { Val a = OPL(I.a, i), b = OPL(I.b, i); if (!a.e && !b.e) R[I.dst + i] = VC(constOp((Op)I.sub, I.w, a.c, b.c) ^ (u64)I.c); else { Expr *e = mkBin((Op)I.sub, EX(a, I.w), EX(b, I.w)); R[I.dst + i] = VE(I.c ? mkNot(e) : e); } } f.ip++; break;
      case I_Select: {
        if (!I.sub) { Val c = OP(I.a); if (c.e && (I.flags & 4) && g_opt.forkSel) c = VC(decide(c.e));
          if (c.e && (I.flags & 1)) { Val x = OP(I.b), y = OP(I.c); bool same = !x.e && !y.e && (x.c >> REGION_BITS) == (y.c >> REGION_BITS); if (!same) c = VC(decide(c.e)); }
          if (!c.e) { i32 o = c.c ? I.b : I.c; if (I.lanes == 1) R[I.dst] = OP(o); else { Val tmp[256]; for (unsigned i = 0; i < I.lanes; i++) tmp[i] = OPL(o, i); for (unsigned i = 0; i < I.lanes; i++) R[I.dst + i] = tmp[i]; } }
          else for (unsigned i = 0; i < I.lanes; i++) R[I.dst + i] = iteV(c, OPL(I.b, i), OPL(I.c, i), I.w); }
        else for (unsigned i = 0; i < I.lanes; i++) R[I.dst + i] = iteV(OPL(I.a, i), OPL(I.b, i), OPL(I.c, i), I.w);
        f.ip++; break; }
      case I_Trunc: for (unsigned i = 0; i < I.lanes; i++) R[I.dst + i] = castV(0, OPL(I.a, i), I.w2, I.w); f.ip++; break;
      case I_ZExt: if (I.w2 == 1 && I.lanes == 1 && (I.flags & 4) && g_opt.forkSel) { Val v = OP(I.a); if (v.e) { bool b = decide(v.e); R[I.dst] = VC(b ? 1 : 0); f.ip++; break; } }
        for (unsigned i = 0; i < I.lanes; i++) R[I.dst + i] = castV(1, OPL(I.a, i), I.w2, I.w); f.ip++; break;
      case I_SExt: if (I.w2 == 1 && I.lanes == 1 && (I.flags & 4) && g_opt.forkSel) { Val v = OP(I.a); if (v.e) { bool b = decide(v.e); R[I.dst] = VC(b ? maskw(I.w) : 0); f.ip++; break; } }
        for (unsigned i = 0; i < I.lanes; i++) R[I.dst + i] = castV(2, OPL(I.a, i), I.w2, I.w); f.ip++; break;
      case I_Mov: for (unsigned i = 0; i < I.lanes; i++) R[I.dst + i] = OPL(I.a, i); f.ip++; break;
      case I_Bitcast: { // flatten to bits, split again
        unsigned sl = I.b, sw = I.w2, dl = I.lanes, dw = I.w; std::vector<Val> out(dl);
        if (sw > dw) { unsigned r = sw / dw; for (unsigned i = 0; i < dl; i++) { Val s = OPL(I.a, i / r); unsigned lo = (i % r) * dw; out[i] = s.e ? VE(mkExtract(s.e, lo, dw)) : VC((s.c >> lo) & maskw(dw)); } }
        else { unsigned r = dw / sw; for (unsigned i = 0; i < dl; i++) { bool sym = false; for (unsigned j = 0; j < r; j++) if (OPL(I.a, i * r + j).e) sym = true;
            if (!sym) { u64 v = 0; for (unsigned j = 0; j < r; j++) v |= OPL(I.a, i * r + j).c << (j * sw); out[i] = VC(v); }
            else { Expr *e = EX(OPL(I.a, i * r), sw); for (unsigned j = 1; j < r; j++) e = mkConcat(EX(OPL(I.a, i * r + j), sw), e); out[i] = VE(e); } } }
        (void)sl; for (unsigned i = 0; i < dl; i++) R[I.dst + i] = out[i]; f.ip++; break; }
      case I_Load: {
        Val p = OP(I.a); const MemLane *ml = &f.f->lanes[I.aux];
        if ((I.flags & 2)) { schedPoint(); if (!p.e) syncAtomic(p.c, true, false, I.flags & 16, false); }
        if (!p.e) { bool atom = I.flags & 2; 
          if (I.b >= 16 && (p.c & (I.b - 1)) && find(p.c)) fail("memory", "misaligned " + std::to_string(I.b) + "-byte aligned vector access");
          Obj *o; if (atom && S->th.size() > 1) { Obj *x = find(p.c); checkLive(x, p.c, false, I.c); o = x; } else o = access(p.c, I.c, false);
          u64 off = p.c - o->base; if (off > o->size || (u64)I.c > o->size - off) fail("memory", "out of bounds read");
          if (I.lanes == 1 && !o->nsym) { u64 v = 0; memcpy(&v, &o->d[off], ml->bytes); R[I.dst] = VC(v & maskw(ml->bits)); }
          else for (unsigned i = 0; i < I.lanes; i++) R[I.dst + i] = readCell(o, off + ml[i].off, ml[i].bytes, ml[i].bits); }
        else if (I.lanes == 1) R[I.dst] = loadVal(p, 0, ml->bytes, ml->bits);
        else { u64 a = concretize(p.e); if (I.b >= 16 && (a & (I.b - 1))) fail("memory", "misaligned vector access"); Obj *o = access(a, I.c, false); for (unsigned i = 0; i < I.lanes; i++) R[I.dst + i] = readCell(o, a - o->base + ml[i].off, ml[i].bytes, ml[i].bits); }
        f.ip++; break; }
      case I_Store: {
        Val p = OP(I.a); const MemLane *ml = &f.f->lanes[I.aux];
        if ((I.flags & 2)) { schedPoint(); if (!p.e) syncAtomic(p.c, false, true, false, I.flags & 32); }
        if (!p.e) { bool atom = I.flags & 2;
          if (I.b >= 16 && (p.c & (I.b - 1)) && find(p.c)) fail("memory", "misaligned " + std::to_string(I.b) + "-byte aligned vector access");
          Obj *o; if (atom && S->th.size() > 1) { Obj *x = find(p.c); checkLive(x, p.c, true, I.c); o = writable(x); } else o = access(p.c, I.c, true);
          u64 off = p.c - o->base; if (off > o->size || (u64)I.c > o->size - off) fail("memory", "out of bounds write"); for (unsigned i = 0; i < I.lanes; i++) writeCell(o, off + ml[i].off, ml[i].bytes, ml[i].bits, OPL(I.dst, i)); }
        else if (I.lanes == 1) storeVal(p, 0, ml->bytes, ml->bits, OP(I.dst));
        else { u64 a = concretize(p.e); if (I.b >= 16 && (a & (I.b - 1))) fail("memory", "misaligned vector access"); Obj *o = access(a, I.c, true); for (unsigned i = 0; i < I.lanes; i++) writeCell(o, a - o->base + ml[i].off, ml[i].bytes, ml[i].bits, OPL(I.dst, i)); }
        f.ip++; break; }
      case I_Gep: {
        Val p = OP(I.a); u64 off = K[I.c].c; const i32 *ax = I.b ? &f.f->aux[I.aux] : nullptr; bool sym = p.e; 
        for (int i = 0; i < I.b && !sym; i++) if (OP(ax[3 * i]).e) sym = true;
        if (!sym) { u64 a = p.c + off; for (int i = 0; i < I.b; i++) a += (u64)sext64(OP(ax[3 * i]).c, ax[3 * i + 2]) * (u64)ax[3 * i + 1]; R[I.dst] = VC(a); }
        else { Expr *a = nullptr; u64 c = off; if (p.e) a = p.e; else c += p.c;
          for (int i = 0; i < I.b; i++) { Val x = OP(ax[3 * i]); if (!x.e) { c += (u64)sext64(x.c, ax[3 * i + 2]) * (u64)ax[3 * i + 1]; continue; } Expr *t2 = mkBin(O_Mul, mkSExt(x.e, 64), mkConst((u64)ax[3 * i + 1], 64)); a = a ? mkBin(O_Add, a, t2) : t2; }
          R[I.dst] = VE(mkBin(O_Add, a, mkConst(c, 64))); }
        f.ip++; break; }
      case I_Alloca: { u64 n = conc(OP(I.a)); u64 a = newStack(n * K[I.b].c, I.c); S->th[S->cur].regs[f.regBase + I.dst] = VC(a); f.ip++; break; }
      case I_Br: takeEdge(t, f, I.b); break;
      case I_CondBr: { Val c = OP(I.a); bool v = c.e ? decide(c.e) : c.c; takeEdge(t, f, v ? I.b : I.c); break; }
      case I_Switch: { Val c = OP(I.a); const i32 *ax = I.c ? &f.f->aux[I.aux] : nullptr; i32 e = I.b; 
        if (!c.e) { for (int i = 0; i < I.c; i++) if (K[ax[2 * i]].c == c.c) { e = ax[2 * i + 1]; break; } }
        else for (int i = 0; i < I.c; i++) if (decide(mkBin(O_Eq, c.e, mkConst(K[ax[2 * i]].c, I.w)))) { e = ax[2 * i + 1]; break; }
        takeEdge(t, f, e); break; }
      case I_Ret: { Val tmp[64]; unsigned n = I.lanes; if (n > 64) throw Fatal{"return too wide"}; for (unsigned i = 0; i < n; i++) tmp[i] = OPL(I.a, i); popFrame(); if (S->th[S->cur].frames.empty()) { threadFinished(); break; } finishCall(tmp, n); break; }
      case I_Call: doCall(t, f, I); break;
      case I_ExtractElt: { Val ix = OP(I.b); u64 k = conc(ix); R[I.dst] = k < (u64)I.c ? OPL(I.a, k) : VC(0); f.ip++; break; }
      case I_InsertElt: { u64 k = conc(OP(I.c)); Val v = OP(I.b); for (unsigned i = 0; i < I.lanes; i++) R[I.dst + i] = OPL(I.a, i); if (k < I.lanes) R[I.dst + k] = v; f.ip++; break; }
      case I_Shuffle: { Val tmp[128]; const i32 *m = &f.f->aux[I.aux]; for (unsigned i = 0; i < I.lanes; i++) tmp[i] = m[i] < 0 ? VC(0) : m[i] < I.c ? OPL(I.a, m[i]) : OPL(I.b, m[i] - I.c); for (unsigned i = 0; i < I.lanes; i++) R[I.dst + i] = tmp[i]; f.ip++; break; }
      case I_ExtractVal: for (unsigned i = 0; i < I.lanes; i++) R[I.dst + i] = OPL(I.a, I.b + i); f.ip++; break;
      case I_InsertVal: { for (unsigned i = 0; i < I.lanes; i++) R[I.dst + i] = OPL(I.a, i); for (int i = 0; i < I.aux; i++) R[I.dst + I.c + i] = OPL(I.b, i); f.ip++; break; }
      case I_Unreachable: fail("unreachable", "reached code marked unreachable in " + f.f->name);
      case I_FBin: { for (unsigned i = 0; i < I.lanes; i++) { double a = asD(conc(OPL(I.a, i)), I.w), b = asD(conc(OPL(I.b, i)), I.w), r = 0; switch (I.sub) { case 0: r = a + b; break; case 1: r = a - b; break; case 2: r = a * b; break; case 3: r = a / b; break; case 4: r = fmod(a, b); break; } if (I.w == 32) { float x = (float)a, y = (float)b, z = 0; switch (I.sub) { case 0: z = x + y; break; case 1: z = x - y; break; case 2: z = x * y; break; case 3: z = x / y; break; case 4: z = fmodf(x, y); break; } r = z; } R[I.dst + i] = VC(fromD(r, I.w)); } f.ip++; break; }
      case I_FNeg: { double a = asD(conc(OP(I.a)), I.w); R[I.dst] = VC(fromD(-a, I.w)); f.ip++; break; }
      case I_FCmp: { double a = asD(conc(OP(I.a)), I.w), b = asD(conc(OP(I.b)), I.w); bool un = std::isnan(a) || std::isnan(b); bool r = false; unsigned p = I.sub; // llvm predicate bits: eq=1 gt=2 lt=4 uno=8
        if (un) r = p & 8; else r = (a == b && (p & 1)) || (a > b && (p & 2)) || (a < b && (p & 4)); R[I.dst] = VC(r); f.ip++; break; }
      case I_FCast: { u64 v = conc(OP(I.a)); u64 r = 0; switch (I.sub) { case 0: if (I.w == 32) { float x = (float)v; u32 y; memcpy(&y, &x, 4); r = y; } else r = fromD((double)v, I.w); break; case 1: if (I.w == 32) { float x = (float)sext64(v, I.w2); u32 y; memcpy(&y, &x, 4); r = y; } else r = fromD((double)sext64(v, I.w2), I.w); break; case 2: r = (u64)asD(v, I.w2) & maskw(I.w); break; case 3: r = (u64)(i64)asD(v, I.w2) & maskw(I.w); break; case 4: r = fromD(asD(v, I.w2), I.w); break; } R[I.dst] = VC(r); f.ip++; break; }
      case I_AtomicRMW: { schedPoint(); Val p = OP(I.a); u64 a = conc(p); Obj *o = find(a); checkLive(o, a, true, I.w / 8); if (a - o->base + I.w / 8 > o->size) fail("memory", "out of bounds atomic"); syncAtomic(a, true, true, I.flags & 16, I.flags & 32); o = writable(o); Val old = readCell(o, a - o->base, I.w / 8, I.w); Val nv = I.sub == O_Const ? OP(I.b) : binV((Op)I.sub, I.w, old, OP(I.b)); writeCell(o, a - o->base, I.w / 8, I.w, nv); R[I.dst] = old; f.ip++; break; }
      case I_CmpXchg: { schedPoint(); u64 a = conc(OP(I.a)); Obj *o = find(a); checkLive(o, a, true, I.w / 8); Val old = readCell(o, a - o->base, I.w / 8, I.w); bool eq = decide(mkBin(O_Eq, EX(old, I.w), EX(OP(I.b), I.w))); syncAtomic(a, true, eq, I.flags & 16, I.flags & 32); if (eq) { o = writable(o); writeCell(o, a - o->base, I.w / 8, I.w, OP(I.c)); } R[I.dst] = old; R[I.dst + 1] = VC(eq); f.ip++; break; }
      case I_Fence: syncFence(I.flags & 16, I.flags & 32); f.ip++; break;
      case I_LandingPad: { R[I.dst] = VC(t.excObj); u64 sel = 0; for (int i = 0; i < I.b; i++) { u64 ty = OP(f.f->aux[I.aux + i]).c; if (ty == 0) { sel = 0xffff; break; } if (ty == t.excType || excDerives(t.excType, ty)) { sel = typeSel(ty); break; } } R[I.dst + 1] = VC(sel); 
        if (sel == 0 && !I.c) { f.ip++; /* no clause matches and no cleanup: continue unwinding */ u64 eo = t.excObj, et = t.excType; popFrame(); unwind(eo, et); break; } f.ip++; break; }
      case I_Resume: { u64 eo = t.excObj, et = t.excType; popFrame(); if (t.frames.empty()) fail("terminate", "uncaught C++ exception"); unwind(eo, et); break; }
      case I_Asm: doAsm(t, f, I); break;
      case I_Unsupported: throw Fatal{"unsupported instruction: " + f.f->strs[I.aux] + " in " + f.f->name};
      default: throw Fatal{"bad op"};
    }
  }
}

static void jsonStr(FILE *o, const std::string &s) { fputc('"', o); for (unsigned char c : s) { if (c == '"' || c == '\\') { fputc('\\', o); fputc(c, o); } else if (c < 32) fprintf(o, "\\u%04x", c); else fputc(c, o); } fputc('"', o); }
static void jsonPairs(FILE *o, const std::vector<std::pair<std::string,u64>> &v) { fputc('[', o); for (size_t i = 0; i < v.size(); i++) { if (i) fputc(',', o); fputc('[', o); jsonStr(o, v[i].first); fprintf(o, ",%llu]", (unsigned long long)v[i].second); } fputc(']', o); }

static bool initState(State *s0) {
  S = s0; s0->objs.assign(HEAP_REGION0, nullptr);
  for (GlobalObj &g : g_globals) { Obj *o = new Obj; o->base = g.addr; o->size = g.size; o->kind = K_Global; o->ro = g.constant; o->d = g.data; o->align = g.align; o->rc = 0; u64 nreg = 1 + (g.size + 16384) / REGION; for (u64 k = 0; k < nreg; k++) { if ((g.addr >> REGION_BITS) + k >= HEAP_REGION0) throw Fatal{"too many globals"}; s0->objs[(g.addr >> REGION_BITS) + k] = o; o->rc++; } }
  s0->th.resize(1); return true;
}
static void endOfPath() {
  if (!S->noLeakCheck && S->live > 0) { std::string d; for (u64 r = HEAP_REGION0; r < S->objs.size(); r++) { Obj *o = S->objs[r]; if (o && !o->freed && o->kind == K_Heap) { d = objDesc(o); break; } } violation("leak", "leak: " + std::to_string(S->live) + " block(s) not freed, e.g. " + d, S->model); st.errPaths++; return; }
  st.paths++; g_sampleSeen++;
  // reservoir of sampled paths for native trace validation
  static u64 rs = 88172645463325252ULL ^ ((u64)g_opt.seed * 0x9E3779B97F4A7C15ULL); rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17;
  size_t pos = g_samples.size(); bool take = false; if (g_samples.size() < g_opt.samples) { take = true; g_samples.emplace_back(); } else { u64 j = rs % g_sampleSeen; if (j < g_opt.samples) { pos = j; take = true; } }
  if (take) g_samples[pos] = Sample{modelSyms(S->model), obsVals(S->model), S->sched};
}
int runEngine() {
  g_t0 = std::chrono::steady_clock::now(); g_solverDeadline = solverNow() + g_opt.timeLimit; solverInit(); std::string fatal;
  auto it = g_funcByName.find(g_opt.entry); if (it == g_funcByName.end() || !it->second->defined) { fprintf(stderr, "no entry %s\n", g_opt.entry.c_str()); return 3; }
  try {
    State *s0 = new State; initState(s0);
    for (Func *c : g_ctors) { pushFrame(c, nullptr, nullptr, {}, {}); try { step(); } catch (PathEnd &e) { if (e.why != 0) throw Fatal{"global constructor failed"}; } S->th[0].frames.clear(); S->th[0].regs.clear(); S->th[0].done = false; }
    s0->live = 0; pushFrame(it->second, nullptr, nullptr, {}, {});
    work.push_back(s0);
    while (!work.empty()) {
      S = work.back(); work.pop_back(); State *mine = S; u64 i0 = S->insts;
      try { step(); } catch (PathEnd &e) {
        if (e.why == 0) endOfPath(); else if (e.why == 1) st.killedAssume++; else if (e.why == 2) st.errPaths++; else if (e.why == 4) {}
      }
      st.insts += S->insts - i0; delete mine; S = nullptr;
      if (g_opt.stopFirst && !g_viol.empty()) break;
      if (st.paths + st.errPaths > g_opt.maxPaths) { g_incomplete = true; g_incompleteWhy = "path limit"; break; }
      if (elapsed() > g_opt.timeLimit) { throw Fatal{"time limit"}; }
    }
  } catch (Fatal &e) { fatal = e.msg; if (S && !S->th.empty() && !S->th[S->cur].frames.empty()) fatal += " at " + stackStr(); g_incomplete = true; }
  FILE *o = g_opt.out.empty() ? stdout : fopen(g_opt.out.c_str(), "w");
  fprintf(o, "{\"entry\":"); jsonStr(o, g_opt.entry); fprintf(o, ",\"complete\":%s,\"why\":", g_incomplete ? "false" : "true"); jsonStr(o, fatal.empty() ? g_incompleteWhy : fatal);
  fprintf(o, ",\"paths\":%llu,\"killed_by_assume\":%llu,\"error_paths\":%llu,\"forks\":%llu,\"instructions\":%llu,\"asserts_folded\":%llu,\"asserts_solver\":%llu,\"sym_reads\":%llu,\"sym_writes\":%llu,\"concretizations\":%llu,\"sched_points\":%llu,\"exprs\":%llu",
    (unsigned long long)st.paths, (unsigned long long)st.killedAssume, (unsigned long long)st.errPaths, (unsigned long long)st.forks, (unsigned long long)st.insts, (unsigned long long)st.assertsConcrete, (unsigned long long)st.assertsSolver, (unsigned long long)st.symReads, (unsigned long long)st.symWrites, (unsigned long long)st.concretize, (unsigned long long)st.schedPoints, (unsigned long long)g_nexprs);
  fprintf(o, ",\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"by_z3\":%llu,\"cross_checked_by_z3\":%llu,\"cache_hits\":%llu,\"model_hits\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"wall_s\":%.3f", (unsigned long long)g_ss.queries, (unsigned long long)g_ss.sat, (unsigned long long)g_ss.unsat, (unsigned long long)g_ss.unknown, (unsigned long long)g_ss.byZ3, (unsigned long long)g_ss.crossed, (unsigned long long)g_ss.cacheHits, (unsigned long long)g_ss.modelHits, g_ss.time, g_ss.maxTime, elapsed());
  fprintf(o, ",\"reached\":["); { bool c = false; for (auto &r : g_reached) { if (c) fputc(',', o); c = true; jsonStr(o, r); } } fprintf(o, "]");
  fprintf(o, ",\"notes\":["); { bool c = false; for (auto &r : g_notes) { if (c) fputc(',', o); c = true; jsonStr(o, r); } } fprintf(o, "]");
  fprintf(o, ",\"violations\":["); for (size_t i = 0; i < g_viol.size(); i++) { Violation &v = g_viol[i]; if (i) fputc(',', o); fprintf(o, "\n{\"kind\":"); jsonStr(o, v.kind); fprintf(o, ",\"msg\":"); jsonStr(o, v.msg); fprintf(o, ",\"loc\":"); jsonStr(o, v.loc); fprintf(o, ",\"stack\":"); jsonStr(o, v.stack); fprintf(o, ",\"sched\":"); jsonStr(o, v.sched); fprintf(o, ",\"syms\":"); jsonPairs(o, v.syms); fprintf(o, ",\"obs\":"); jsonPairs(o, v.obs); fprintf(o, "}"); } fprintf(o, "]");
  fprintf(o, ",\"samples\":["); for (size_t i = 0; i < g_samples.size(); i++) { if (i) fputc(',', o); fprintf(o, "\n{\"syms\":"); jsonPairs(o, g_samples[i].syms); fprintf(o, ",\"obs\":"); jsonPairs(o, g_samples[i].obs); fprintf(o, ",\"sched\":"); jsonStr(o, g_samples[i].sched); fprintf(o, "}"); } fprintf(o, "]");
  fprintf(o, ",\"functions\":["); { bool c = false; for (Func *f : g_funcs) if (f->calls && f->translated) { u32 n = 0; for (u8 x : f->cov) n += x; if (c) fputc(',', o); c = true; fprintf(o, "\n["); jsonStr(o, f->name); fprintf(o, ",%llu,%u,%zu]", (unsigned long long)f->calls, n, f->cov.size()); } } fprintf(o, "]");
  // uncovered blocks (source locations) for coverage aggregation
  fprintf(o, ",\"cov\":{"); { bool c = false; for (Func *f : g_funcs) if (f->calls && f->translated) { if (c) fputc(',', o); c = true; fprintf(o, "\n"); jsonStr(o, f->name); fprintf(o, ":["); for (size_t i = 0; i < f->cov.size(); i++) { if (i) fputc(',', o); fprintf(o, "[%d,", f->cov[i]); jsonStr(o, locStr(f->blockLoc[i])); fprintf(o, "]"); } fprintf(o, "]"); } } fprintf(o, "}");
  fprintf(o, "}\n"); if (o != stdout) fclose(o);
  if (g_opt.trace) { std::vector<std::pair<u64,u32>> v; for (auto &p : g_forkLocs) v.push_back({p.second, p.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 25; i++) fprintf(stderr, "fork %llu %s\n", (unsigned long long)v[i].first, locStr(v[i].second).c_str());
    std::vector<std::pair<double,u32>> q; for (auto &p : g_qLocs) q.push_back({p.second.first, p.first}); std::sort(q.rbegin(), q.rend()); for (size_t i = 0; i < q.size() && i < 12; i++) fprintf(stderr, "queries %llu %.2fs %s\n", (unsigned long long)g_qLocs[q[i].second].second, q[i].first, locStr(q[i].second).c_str()); }
  if (!g_viol.empty()) return 1; return g_incomplete ? 3 : 0;
}
