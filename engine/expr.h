// Hash-consed bit-vector expressions with light simplification, evaluation and z3 translation.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <algorithm>
#include <z3.h>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;
typedef unsigned __int128 u128; typedef __int128 i128;

enum Op : u8 { CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  EQ, ULT, ULE, SLT, SLE, ITE, CONCAT, EXTRACT, ZEXT, SEXT, FCMP };

struct VarSet { std::vector<u32> v; };
struct Expr {
  Op op; u16 w; u32 id; u32 aux;         // aux: var index / extract low / fcmp predicate
  const Expr *a, *b, *c;
  u128 k;                                 // constant value
  const VarSet* vs;                       // support
  mutable Z3_ast z; mutable u32 stamp; mutable u128 val;
  mutable u64* tt;                        // truth table for single 8-bit variable support, width<=1
};
typedef const Expr* E;

static inline u128 mask(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sxt(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 s = (u128)1 << (w - 1); v &= mask(w); return (i128)((v ^ s) - s); }

struct VarInfo { u16 w; std::string name; };
extern std::vector<VarInfo> g_vars;
E mkConst(unsigned w, u128 v);
E mkVar(u32 index);
u32 newVarKey(u32 order, u16 w);          // variable for the order-th input of width w
E mkBin(Op op, E a, E b);
E mkIte(E c, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZext(E a, unsigned w);
E mkSext(E a, unsigned w);
E mkNot(E a);                             // width 1
E mkFcmp(unsigned pred, E a, E b);
static inline E mkAnd1(E a, E b) { return mkBin(AND, a, b); }
static inline bool isC(E e) { return e->op == CONST; }
typedef std::vector<u64> Model;           // by var index
u128 evalE(E e, const Model& m);
void newEval();
u128 evalCached(E e, const Model& m);     // call newEval() when the model changes
std::string exprStr(E e, int depth = 6);
u128 foldBin(Op op, unsigned w, u128 x, u128 y, bool& ok);
bool fcmpConc(unsigned pred, unsigned w, u64 a, u64 b);

// ---- solver
struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, cacheHits = 0, fd = 0, modelHits = 0; double secs = 0, maxSecs = 0; };
extern SolverStats g_ss;
extern unsigned g_solverTimeoutMs;
extern bool g_useFd; extern double g_slowQuery;
// result: 1 sat (model updated for involved vars), 0 unsat, -1 unknown
int solve(const std::vector<E>& pc, E cond, Model& m, bool forceZ3);
int enumerate(const std::vector<E>& pc, E e, size_t maxN, const Model& base, std::vector<std::pair<u64, Model>>& out);
size_t exprCount();
void solverInit();
E mkBool(bool b);
void dumpSmt(const std::vector<E>& cs, FILE* f);
