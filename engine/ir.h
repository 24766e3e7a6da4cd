// Compact executable form of LLVM IR.
#pragma once
#include "expr.h"
#include <map>
#include <unordered_map>

enum IOp : u8 { I_Bin, I_ICmp, I_Select, I_Trunc, I_ZExt, I_SExt, I_Mov, I_Bitcast, I_Load, I_Store, I_Gep, I_Alloca,
  I_Br, I_CondBr, I_Switch, I_Ret, I_Call, I_ExtractElt, I_InsertElt, I_Shuffle, I_ExtractVal, I_InsertVal,
  I_Unreachable, I_FBin, I_FCmp, I_FCast, I_FNeg, I_AtomicRMW, I_CmpXchg, I_Fence, I_LandingPad, I_Resume, I_Asm, I_Unsupported };

struct Inst {
  u8 op, sub, w, w2; u16 lanes; u16 flags; // flags: bit0 = pointer typed, bit1 = atomic
  i32 dst, a, b, c, aux; u32 loc;
};
struct Val { u64 c; Expr *e; };
static inline Val VC(u64 c) { return {c, nullptr}; }

struct MemLane { u32 off; u16 bits; u16 bytes; };
struct Edge { u32 block; u32 ip; u32 mv, nmv; };
struct Func {
  std::string name; u32 id; bool defined = false, translated = false; void *llvm = nullptr; int builtin = -1;
  u32 nargs = 0, nslots = 0, retSlots = 0; bool vararg = false;
  std::vector<i32> argSlots; std::vector<u8> argCounts; std::vector<u32> byval; // size passed by value per argument, 0 for most
  std::vector<Inst> code; std::vector<i32> aux; std::vector<Val> consts; std::vector<Edge> edges;
  std::vector<std::pair<i32,i32>> moves; std::vector<MemLane> lanes; std::vector<u32> blockIp; std::vector<u32> blockLoc;
  std::vector<u8> cov;
  std::vector<std::string> strs;
  u64 calls = 0;
};
struct GlobalObj { std::string name; u64 size; u32 align; std::vector<u8> data; bool constant; u64 addr; };

extern std::vector<Func*> g_funcs; extern std::unordered_map<std::string, Func*> g_funcByName;
extern std::vector<GlobalObj> g_globals;
extern std::vector<std::string> g_files;   // debug file names; loc = file<<20 | line
extern std::vector<Func*> g_ctors;

static const u64 REGION_BITS = 26;
static const u64 REGION = 1ULL << REGION_BITS;
static const u64 GLOBAL_REGION0 = 16;            // first region used by globals
static const u64 STACK_REGION0 = 1ULL << 20;     // stack objects
static const u64 FUNC_REGION = 8;
static inline u64 funcAddr(u32 id) { return (FUNC_REGION << REGION_BITS) + 4096 + 16ULL * id; }

bool loadModule(const std::string &path);
void translate(Func *f);
int builtinId(const std::string &name);   // -1 if none (defined in exec.cpp)
std::string locStr(u32 loc);
