// Hash-consed bit-vector expression DAG with on-the-fly simplification.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string>

typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef uint16_t u16;
typedef int64_t i64; typedef int32_t i32;

enum Op : u8 { O_Const, O_Sym, O_Add, O_Sub, O_Mul, O_UDiv, O_SDiv, O_URem, O_SRem,
  O_And, O_Or, O_Xor, O_Shl, O_LShr, O_AShr, O_Concat, O_Extract, O_ZExt, O_SExt,
  O_Ite, O_Eq, O_Ult, O_Ule, O_Slt, O_Sle, O_Popcnt, O_Ctz, O_Clz, O_N };

struct VarSet { std::vector<u32> v; };

struct Expr {
  Op op; u8 w; u16 lo;       // lo: extract offset
  u32 id;
  u64 val;                   // const value / symbol index
  Expr *a, *b, *c;
  u64 umin, umax;            // unsigned interval
  u64 kz;                    // known-zero bits
  const VarSet *vars;
  u64 epoch; u64 cached;     // evaluator memo
  void *z3bv; void *z3b;     // solver translation memo
};

struct SymInfo { std::string name; u8 w; u64 lo, hi; Expr *e; };
extern std::vector<SymInfo> g_syms;
extern u64 g_nexprs;

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline i64 sext64(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }

Expr *mkConst(u64 v, unsigned w);
Expr *mkSymRange(const std::string &name, unsigned w, u64 lo, u64 hi);
Expr *mkBin(Op op, Expr *a, Expr *b);
Expr *mkExtract(Expr *a, unsigned lo, unsigned w);
Expr *mkZExt(Expr *a, unsigned w);
Expr *mkSExt(Expr *a, unsigned w);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkIte(Expr *c, Expr *a, Expr *b);
Expr *mkUn(Op op, Expr *a);
Expr *mkNot(Expr *a);  // width 1
static inline bool isConst(const Expr *e) { return e->op == O_Const; }
static inline bool isConst(const Expr *e, u64 v) { return e->op == O_Const && e->val == v; }

typedef std::vector<u64> Model;  // indexed by symbol index (missing => lower bound)
u64 evalExpr(Expr *e, const Model &m);    // starts new memo epoch
u64 evalExprSameEpoch(Expr *e, const Model &m);
void newEpoch();
u64 constOp(Op op, unsigned w, u64 a, u64 b);  // binary op on width-w constants
std::string exprStr(Expr *e, int depth = 6);
int exprSelfTest(u64 seed, int n);
