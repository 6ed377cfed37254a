// LLVM textual IR: types, parser, in-memory form.
#pragma once
#include "expr.h"
#include <map>
struct Type { enum K { INT, PTR, FLT, VOID, ARR, STRUCT, VEC, LABEL, META, OPAQUE } k; unsigned bits = 0; Type* el = 0; u64 n = 0; std::vector<Type*> f; bool packed = false;
  u64 size = 0, align = 1; std::vector<u64> off; unsigned nleaf = 1; };
struct Leaf { u16 w; u64 off; };                         // flattened scalar: width in bits, byte offset
const std::vector<Leaf>& leavesOf(Type*);
struct CV { u64 c; E e; };                               // constant leaf (e only when width > 64)
struct Operand { int slot = -1; Type* ty = 0; std::vector<CV> c; };
enum IOp : u8 { I_BIN, I_ICMP, I_FCMP, I_FBIN, I_FNEG, I_SELECT, I_TRUNC, I_ZEXT, I_SEXT, I_BITCAST, I_PTRINT, I_FPCAST, I_GEP, I_LOAD, I_STORE, I_ALLOCA, I_CALL, I_BR, I_CBR, I_SWITCH, I_RET, I_UNREACH, I_PHI,
  I_EXTRACTV, I_INSERTV, I_EXTRACTE, I_INSERTE, I_SHUFFLE, I_FREEZE, I_FENCE, I_RMW, I_CMPXCHG, I_LANDING, I_RESUME, I_MOVE, I_UNSUP };
struct GepStep { Operand* idx; u64 scale; };
struct Instr { IOp op; u8 sub = 0; int dst = -1; Type* ty = 0; std::vector<Operand> o; std::vector<u32> bb; std::vector<u64> cases; u64 imm = 0; std::vector<u64> scales; int fn = -1; std::string txt; std::vector<u32> idxs; bool isInvoke = false; u16 line = 0; };
struct Block { std::string name; std::vector<Instr> in; u32 nphi = 0; };
struct Func { std::string name; Type* ret = 0; std::vector<Type*> pty; std::vector<int> pslot; bool defined = false, vararg = false; int nslots = 0; std::vector<Block> bb; int builtin = 0; bool weak = false; size_t lineBeg = 0, lineEnd = 0; u64 hits = 0; bool parsed = false; };
struct Global { std::string name; Type* ty; bool isConst, hasInit; std::string initText; std::vector<u8> data; u64 addr; std::string alias; };
struct Module { std::vector<Func> fn; std::map<std::string, int> fnIdx; std::vector<Global> gl; std::map<std::string, int> glIdx; };
extern Module M;
void loadModule(const char* path);
void parseBody(Func& f);                                  // lazily, on first call
const u64 FN_BASE = 0x10000000000000ull;                  // function "addresses"
static inline u64 fnAddr(int i) { return FN_BASE + (u64)i * 16; }
