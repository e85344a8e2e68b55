// sx: a small symbolic executor for LLVM IR. Shared declarations.
#pragma once
#include <atomic>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <mutex>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <map>
#include <set>
#include <functional>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef int32_t i32;
typedef uint16_t u16; typedef uint8_t u8;

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sextw(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); v &= maskw(w); return (i64)((v ^ m) - m); }

// ---------------------------------------------------------------- expressions
enum Op : u8 { O_CONST, O_VAR, O_UNDEF, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR,
               O_SHL, O_LSHR, O_ASHR, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT, O_ITE,
               O_LOADTAB, O_UF };

struct Dom { u64 b[4];
  bool has(unsigned i) const { return (b[i >> 6] >> (i & 63)) & 1; }
  void set(unsigned i) { b[i >> 6] |= 1ull << (i & 63); }
  void clear() { b[0] = b[1] = b[2] = b[3] = 0; }
  int count() const { return __builtin_popcountll(b[0]) + __builtin_popcountll(b[1]) + __builtin_popcountll(b[2]) + __builtin_popcountll(b[3]); }
  bool empty() const { return !(b[0] | b[1] | b[2] | b[3]); }
  int first() const { for (int i = 0; i < 4; i++) if (b[i]) return i * 64 + __builtin_ctzll(b[i]); return -1; }
  Dom operator&(const Dom& o) const { return Dom{{b[0] & o.b[0], b[1] & o.b[1], b[2] & o.b[2], b[3] & o.b[3]}}; }
  Dom minus(const Dom& o) const { return Dom{{b[0] & ~o.b[0], b[1] & ~o.b[1], b[2] & ~o.b[2], b[3] & ~o.b[3]}}; }
  bool operator==(const Dom& o) const { return !memcmp(b, o.b, sizeof b); }
  template <class F> void each(F f) const { for (int i = 0; i < 4; i++) { u64 x = b[i]; while (x) { int j = __builtin_ctzll(x); x &= x - 1; if (!f(i * 64 + j)) return; } } }
};

// The exact value of an expression over one 8-bit variable, for each of its 256 values.
struct Tab { u64 v[256]; u64 hash; u32 id; };

struct VMask { u64 m[3]; 
  void set(int i) { m[i >> 6] |= 1ull << (i & 63); }
  bool has(int i) const { return (m[i >> 6] >> (i & 63)) & 1; }
  bool any() const { return m[0] | m[1] | m[2]; }
  bool inter(const VMask& o) const { return (m[0] & o.m[0]) | (m[1] & o.m[1]) | (m[2] & o.m[2]); }
  void orr(const VMask& o) { m[0] |= o.m[0]; m[1] |= o.m[1]; m[2] |= o.m[2]; } };
static const int MAXVARS = 192;

struct Expr {
  u8 op, w, nk; bool undef;
  int16_t var;           // when >=0: depends on exactly this 8-bit variable, and tab is set
  const Tab* tab;
  u64 k;                 // constant / variable index / extract low bit / UF id
  Expr** kid;
  u32 id;
  VMask vm;
};

Expr* eConst(u64 v, unsigned w);
Expr* eVar(int idx, unsigned w);
Expr* eUndef();                                  // 8 bits
Expr* eBin(Op op, Expr* a, Expr* b);             // result width from op
Expr* eExt(Op op, Expr* a, unsigned w);          // ZEXT / SEXT
Expr* eExtract(Expr* a, unsigned lo, unsigned w);
Expr* eConcat(Expr** bytes, int n);              // little endian, each 8 bits
Expr* eIte(Expr* c, Expr* a, Expr* b);
Expr* eLoadTab(Expr* idx, const u64* v, unsigned w);
Expr* eUF(u64 id, unsigned w, Expr** kids, int n);
Expr* eNot(Expr* a);
u64 evalOp(Op op, unsigned w, unsigned wa, u64 a, u64 b);
u64 exprCount();

struct Val { u64 c; Expr* e; };
static inline Val VC(u64 c) { return Val{c, nullptr}; }

// ---------------------------------------------------------------- program
enum IOp : u16 { I_MOV, I_BIN, I_ICMP, I_SELECT, I_ZEXT, I_SEXT, I_TRUNC, I_LOAD, I_STORE, I_GEP, I_BR, I_CONDBR,
                 I_SWITCH, I_CALL, I_ICALL, I_RET, I_ALLOCA, I_MEMCPY, I_MEMMOVE, I_MEMSET, I_UNREACHABLE, I_FBIN,
                 I_FCMP, I_FCAST, I_OVF, I_MINMAX, I_UNSUP, I_BITOP, I_EXTCALL };
struct Ins {
  u16 op; u8 w, w2;      // widths in bits
  u8 sub, flags; u16 n;  // sub-operation, flags, count
  i32 dst, a, b, c;      // operands: >=0 register, <0 constant pool ~x
  u64 imm;
  u32 x;                 // index into aux pools
};
struct GepTerm { i32 r; i64 scale; u8 w; };
struct SwitchTab { std::vector<std::pair<u64, u32>> cases; u32 def; };
struct CallInfo { std::vector<i32> args; std::vector<u8> w; std::vector<u32> byval; };
struct Func {
  std::string name, pretty; u32 id; bool isModel; bool defined;
  u32 nregs, nparams; std::vector<Ins> code; std::vector<Val> consts;
  std::vector<GepTerm> geps; std::vector<SwitchTab> switches; std::vector<CallInfo> calls;
  u32 retSlots; int builtin; int stub; int repl = -1, model = -1, effect = 0; // builtin handler id; stub for split
  bool harnessFn;
  u32 blockCount;
};
struct GlobalInit { std::string name; u32 size; bool ro; bool tls; bool external; std::vector<u8> data; std::vector<u8> undef; };
struct Program {
  std::vector<Func*> funcs; std::unordered_map<std::string, u32> fidx;
  std::vector<GlobalInit> globals;  // object id = index + 1
  std::unordered_map<std::string, u32> gidx;
  std::vector<u32> ctors;
  std::vector<std::string> unsup;
};
static const u64 FN_BASE = 0x70000000ull << 32;
bool lowerModule(const std::string& path, Program& P, std::string& err);

// ---------------------------------------------------------------- solver
struct SolverStats { std::atomic<u64> queries{0}, sat{0}, unsat{0}, unknown{0}, us{0}, audits{0}; };
extern SolverStats gSolver;
struct Z3Ctx;
Z3Ctx* z3New();
// Decide conj(cs) with the given 8-bit domains. 1 sat, 0 unsat, -1 unknown. On sat, fills model for vars in mask.
int z3Check(Z3Ctx*, const std::vector<Expr*>& cs, const std::vector<Dom>& doms, const std::vector<u8>& widths, std::map<int, u64>* model, bool structural = false);
