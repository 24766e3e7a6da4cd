#pragma once
#include "ir.h"
#include "solver.h"
#include <set>
#include <memory>

struct SymB { Expr *e; u8 idx; };
struct Obj {
  i32 rc = 1; u64 base = 0, size = 0; u8 kind = 0, fam = 0; bool freed = false, ro = false; u32 align = 1; u32 allocLoc = 0; u32 seq = 0;
  std::vector<u8> d; std::vector<SymB> s; u32 nsym = 0;
};
enum { K_Heap, K_Stack, K_Global };
enum { FAM_MALLOC = 1, FAM_ALIGNED = 2, FAM_NEW = 3, FAM_NEWARR = 4 };

struct Frame { Func *f; u32 ip; u32 regBase; u32 stackMark; const Inst *ci; u64 va; };
struct Access { u32 tid; u32 clk; };
struct Thread { std::vector<Frame> frames; std::vector<Val> regs; std::vector<Obj*> stack; bool done = false; bool blocked = false; i32 joinOn = -1; std::vector<u32> vc, pend, frel; u64 excObj = 0; u64 excType = 0; };
struct RangeFact { Expr *e; u64 lo, hi; };
struct SymRec { u32 sym; };
struct RaceCell { u32 wc; u32 r[4]; u8 wt; };

struct State {
  std::vector<Thread> th; u32 cur = 0;
  std::vector<Obj*> objs;          // by region (globals and heap)
  std::vector<Expr*> pc, facts; std::vector<std::pair<Expr*,u64>> known;
  Model model;
  std::vector<u32> syms;           // symbols in creation order
  std::map<std::string, u32> symCount;
  std::vector<std::pair<u32, Val>> obs; // observations (name id, value)
  std::vector<RangeFact> ranges;
  i64 live = 0; u64 insts = 0; u32 depth = 0; u32 allocSeq = 0;
  u64 asserts = 0; bool noLeakCheck = false;
  std::map<u64, std::shared_ptr<std::vector<RaceCell>>> races; // race detector shadow (threads only)
  std::map<u64, std::vector<u32>> syncvc;       // vector clock per atomic location
  std::string sched; u32 preempt = 0; bool skipSched = false;
  State() {}
  State(const State &o);
  ~State();
};

struct Violation { std::string kind, msg, loc, stack; std::vector<std::pair<std::string,u64>> syms; std::string sched; std::vector<std::pair<std::string,u64>> obs; };
struct Options {
  std::string module, entry, out; int fill = 0xCD; double timeLimit = 600; u64 maxPaths = 1u << 30; u64 maxInstPerPath = 400000000ULL; unsigned samples = 8; std::map<std::string, i64> params; int shardI = 0, shardN = 1; bool stopFirst = true; unsigned maxViol = 20; unsigned seed = 1; bool trace = false; unsigned maxPreempt = 100; std::string excl; bool forkSel = true;
};
extern Options g_opt;
int runEngine();
