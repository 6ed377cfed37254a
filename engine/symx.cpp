// symx: path-forking symbolic executor for rustc-produced LLVM IR.
#include "ir.h"
#include <set>
#include <memory>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <chrono>
#include <atomic>
#include <signal.h>

struct V { u64 c; E e; };
static const unsigned PS = 64;
struct Page { int rc; u8 d[PS]; E* s; };
struct Obj { int rc; u64 size; bool ro; u8 kind; std::vector<Page*> pg; };
static Page* pageNew() { Page* p = (Page*)calloc(1, sizeof(Page)); p->rc = 1; return p; }
static void pageDrop(Page* p) { if (p && --p->rc == 0) { free(p->s); free(p); } }
static void objDrop(Obj* o) { if (o && --o->rc == 0) { for (auto* p : o->pg) pageDrop(p); delete o; } }
struct Chunk { int rc; Obj* o[64]; };
struct Table { std::vector<Chunk*> c; u64 n = 0;
  Table() {} Table(const Table& t) : c(t.c), n(t.n) { for (auto* x : c) x->rc++; } Table& operator=(const Table&) = delete;
  ~Table() { for (auto* x : c) drop(x); }
  static void drop(Chunk* x) { if (--x->rc == 0) { for (auto* o : x->o) objDrop(o); delete x; } }
  Obj* get(u64 i) const { return i < n ? c[i >> 6]->o[i & 63] : nullptr; }
  Chunk* own(u64 ci) { Chunk*& x = c[ci]; if (x->rc > 1) { Chunk* y = new Chunk(*x); y->rc = 1; for (auto* o : y->o) if (o) o->rc++; x->rc--; x = y; } return x; }
  void set(u64 i, Obj* o) { Chunk* x = own(i >> 6); objDrop(x->o[i & 63]); x->o[i & 63] = o; }
  u64 push(Obj* o) { if ((n & 63) == 0 && n / 64 == c.size()) { Chunk* x = new Chunk; memset(x, 0, sizeof *x); x->rc = 1; c.push_back(x); } u64 i = n++; set(i, o); return i; }
  void popTo(u64 k) { while (n > k) { n--; if (get2(n)) set(n, nullptr); } }
  Obj* get2(u64 i) const { return c[i >> 6]->o[i & 63]; }
  Obj* ownObj(u64 i) { Chunk* x = own(i >> 6); Obj*& o = x->o[i & 63]; if (o->rc > 1) { Obj* y = new Obj(*o); y->rc = 1; for (auto* p : y->pg) if (p) p->rc++; o->rc--; o = y; } return o; }
};
struct Frame { int rc; Func* f; u32 bb, ip; int retSlot; std::vector<V> r; u64 mark; int cont; };
static void frDrop(Frame* f) { if (--f->rc == 0) delete f; }
struct Input { u16 w; E e; u64 c; };
struct State {
  std::vector<Frame*> fr; Table heap, stk; std::vector<E> pc; Model m; std::vector<Input> in; std::vector<std::pair<u64, E>> obs;
  std::vector<u8> fixed; bool allowPanic = false; u64 allocMax = 0; u64 steps = 0; std::vector<std::string> covers; u32 id = 0; u32 forks = 0;
  State() {}
  State(const State& o) : fr(o.fr), heap(o.heap), stk(o.stk), pc(o.pc), m(o.m), in(o.in), obs(o.obs), fixed(o.fixed), allowPanic(o.allowPanic), allocMax(o.allocMax), steps(o.steps), covers(o.covers), forks(o.forks) { for (auto* f : fr) f->rc++; }
  ~State() { for (auto* f : fr) frDrop(f); }
  Frame* top() { Frame*& f = fr.back(); if (f->rc > 1) { Frame* g = new Frame(*f); g->rc = 1; f->rc--; f = g; } return f; }
};
static const u64 STK0 = 0x20000000ull;     // object id base for stack objects
static u64 HEAP0;                          // globals occupy 16..HEAP0-1 in the heap table (index = id)

// ---- options and results
static u64 optMaxSteps = 200000000, optMaxDepth = 3000, optMaxForkVals = 2048, optAllocMax = 64u << 20; static int optWorkers = 8; static bool optRealHash = false, optRealFmt = false; static int optSample = 4; static double optTime = 800; static bool optVerbose = false; static int optMaxViol = 3;
static std::vector<u32> optParams; static int outFd = 1;
struct Shared { std::atomic<int> running; std::atomic<long> paths; std::atomic<int> stop; std::atomic<int> viol; }; static Shared* sh;
struct Stats { u64 paths = 0, okPaths = 0, panicOk = 0, assumeKilled = 0, instrs = 0, forks = 0, checks = 0, checksSolver = 0, symLoads = 0, maxSteps = 0; } S;
static std::map<std::string, u64> covers, ends, checkLabels; static std::map<std::string, int> violSeen;
static double t0s; static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static std::vector<State*> work;
static bool inconclusive = false; static std::string inconclusiveWhy;

static std::string jesc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((u8)c < 32 || (u8)c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", (u8)c); r += b; } else r += c; } return r; }
static void emit(const std::string& s) { std::string l = s + "\n"; size_t o = 0; while (o < l.size()) { ssize_t n = write(outFd, l.data() + o, l.size() - o); if (n <= 0) _exit(3); o += n; } }
[[noreturn]] static void fatal(const std::string& m) { emit("{\"type\":\"error\",\"msg\":\"" + jesc(m) + "\"}"); fprintf(stderr, "symx: %s\n", m.c_str()); if (sh) sh->stop = 1; _exit(3); }
static std::string inputsJson(State& s) { std::string r = "["; newEval(); for (size_t i = 0; i < s.in.size(); i++) { u64 v = s.in[i].e ? (u64)evalCached(s.in[i].e, s.m) : s.in[i].c; if (i) r += ","; r += "[" + std::to_string(s.in[i].w) + "," + std::to_string(v) + "]"; } return r + "]"; }
static std::string stackJson(State& s) { std::string r = "["; bool first = true; for (int i = (int)s.fr.size() - 1; i >= 0 && i > (int)s.fr.size() - 25; i--) { if (!first) r += ","; first = false; r += "\"" + jesc(s.fr[i]->f->name) + "\""; } return r + "]"; }
static void violation(State& s, const std::string& kind, const std::string& label, const std::string& loc) {
  std::string key = kind + "|" + label + "|" + (kind == "check" ? "" : loc); if (violSeen[key]++ >= optMaxViol) return; sh->viol++;
  emit("{\"type\":\"violation\",\"kind\":\"" + kind + "\",\"label\":\"" + jesc(label) + "\",\"loc\":\"" + jesc(loc) + "\",\"inputs\":" + inputsJson(s) + ",\"stack\":" + stackJson(s) + "}");
}
static void markInconclusive(State* s, const std::string& why) { if (!inconclusive) { inconclusive = true; inconclusiveWhy = why; } emit("{\"type\":\"inconclusive\",\"why\":\"" + jesc(why) + "\",\"stack\":" + (s ? stackJson(*s) : "[]") + ",\"inputs\":" + (s ? inputsJson(*s) : "[]") + "}"); }

// ---- values
static inline V mkV(u64 c) { return {c, nullptr}; }
static inline V fromE(E e) { if (isC(e) && e->w <= 64) return {(u64)e->k, nullptr}; return {0, e}; }
static inline E toE(const V& v, unsigned w) { return v.e ? v.e : mkConst(w, v.c); }
static inline u64 m64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }

// ---- memory
static Obj* objNew(u64 size, u8 kind) { Obj* o = new Obj; o->rc = 1; o->size = size; o->ro = false; o->kind = kind; o->pg.assign((size + PS - 1) / PS, nullptr); return o; }
static inline bool isStk(u64 id) { return id >= STK0 && id < STK0 + 0x8000000ull; }
static inline Obj* lookup(State& s, u64 addr) { u64 id = addr >> 32; if (isStk(id)) return s.stk.get(id - STK0); return s.heap.get(id); }
static inline Obj* ownObj(State& s, u64 addr) { u64 id = addr >> 32; return isStk(id) ? s.stk.ownObj(id - STK0) : s.heap.ownObj(id); }
static inline Page* ownPage(Obj* o, u64 i) { Page*& p = o->pg[i]; if (!p) { p = pageNew(); } else if (p->rc > 1) { Page* q = (Page*)malloc(sizeof(Page)); memcpy(q->d, p->d, PS); q->rc = 1; q->s = nullptr; if (p->s) { q->s = (E*)malloc(sizeof(E) * PS); memcpy(q->s, p->s, sizeof(E) * PS); } p->rc--; p = q; } return p; }
static inline void getByte(Obj* o, u64 off, u8& c, E& e) { Page* p = o->pg[off / PS]; if (!p) { c = 0; e = nullptr; return; } c = p->d[off % PS]; e = p->s ? p->s[off % PS] : nullptr; }
static V loadBits(Obj* o, u64 off, unsigned w) {
  unsigned n = (w + 7) / 8; bool sym = false; u8 buf[16] = {0};
  u64 pi = off / PS; if (n <= 16 && off % PS + n <= PS) { Page* p = o->pg[pi]; if (p) { memcpy(buf, p->d + off % PS, n); if (p->s) for (unsigned i = 0; i < n; i++) if (p->s[off % PS + i]) { sym = true; break; } } }
  else for (unsigned i = 0; i < n; i++) { E e; getByte(o, off + i, buf[i], e); if (e) sym = true; }
  if (!sym) { if (w <= 64) { u64 v = 0; memcpy(&v, buf, 8); return {v & m64(w), nullptr}; } u128 v; memcpy(&v, buf, 16); return {0, mkConst(w, v)}; }
  E r = nullptr; for (unsigned i = 0; i < n; i++) { u8 c; E e; getByte(o, off + i, c, e); if (!e) e = mkConst(8, c); r = r ? mkConcat(e, r) : e; }
  if (r->w != w) r = mkExtract(r, 0, w);
  return fromE(r);
}
static void storeBits(Obj* o, u64 off, unsigned w, V v) {
  unsigned n = (w + 7) / 8; E e = v.e; u128 cv = v.c; if (e && isC(e)) { cv = e->k; e = nullptr; }
  if (e && w % 8) e = mkZext(e, n * 8);
  for (unsigned i = 0; i < n;) { u64 q = off + i; Page* p = ownPage(o, q / PS); unsigned in = q % PS, k = std::min<unsigned>(n - i, PS - in);
    for (unsigned j = 0; j < k; j++) { if (!e) { p->d[in + j] = (u8)(cv >> (8 * (i + j))); if (p->s) p->s[in + j] = nullptr; }
      else { E b = mkExtract(e, 8 * (i + j), 8); if (isC(b)) { p->d[in + j] = (u8)b->k; if (p->s) p->s[in + j] = nullptr; } else { if (!p->s) p->s = (E*)calloc(PS, sizeof(E)); p->s[in + j] = b; } } }
    i += k; }
}
static void copyBytes(State& s, u64 dst, u64 src, u64 n) { // ranges validated
  Obj* so = lookup(s, src); u32 so_off = (u32)src, d_off = (u32)dst;
  std::vector<u8> c(n); std::vector<E> e; bool sym = false;
  for (u64 i = 0; i < n;) { u64 q = so_off + i; Page* p = so->pg[q / PS]; unsigned in = q % PS; u64 k = std::min<u64>(n - i, PS - in); if (p) { memcpy(&c[i], p->d + in, k); if (p->s) { if (!sym) { e.assign(n, nullptr); sym = true; } memcpy(&e[i], p->s + in, k * sizeof(E)); } } i += k; }
  Obj* d = ownObj(s, dst);
  for (u64 i = 0; i < n;) { u64 q = d_off + i; Page* p = ownPage(d, q / PS); unsigned in = q % PS; u64 k = std::min<u64>(n - i, PS - in); memcpy(p->d + in, &c[i], k); if (sym) { bool any = p->s; if (!any) for (u64 j = 0; j < k; j++) if (e[i + j]) any = true; if (any) { if (!p->s) p->s = (E*)calloc(PS, sizeof(E)); memcpy(p->s + in, &e[i], k * sizeof(E)); } } else if (p->s) memset(p->s + in, 0, k * sizeof(E)); i += k; }
}
static bool valid(State& s, u64 addr, u64 n) { if (n == 0) return true; Obj* o = lookup(s, addr); return o && (u64)(u32)addr + n <= o->size; }
static u64 heapAlloc(State& s, u64 size, u8 kind = 1) { u64 id = s.heap.push(objNew(size, kind)); return id << 32; }

static std::string readStr(State& s, u64 addr, u64 n) { std::string r; if (!valid(s, addr, n)) return "?"; Obj* o = lookup(s, addr); for (u64 i = 0; i < n && i < 400; i++) { u8 c; E e; getByte(o, (u32)addr + i, c, e); r += e ? '?' : (char)c; } return r; }
static std::string locOf(State& s, u64 a) { if (!valid(s, a, 24)) return ""; Obj* o = lookup(s, a); if (o->kind != 2) return ""; V p = loadBits(o, (u32)a, 64), n = loadBits(o, (u32)a + 8, 64), l = loadBits(o, (u32)a + 16, 32); if (p.e || n.e || l.e || n.c > 300 || !valid(s, p.c, n.c)) return ""; return readStr(s, p.c, n.c) + ":" + std::to_string(l.c); }

// ---- constraints
static void addPc(State& s, E c) { if (isC(c)) return; if (c->op == AND) { addPc(s, c->a); addPc(s, c->b); return; } for (E x : s.pc) if (x == c) return; s.pc.push_back(c); if (c->op == EQ && c->a->op == VAR && isC(c->b)) { u32 v = c->a->aux; if (s.fixed.size() <= v) s.fixed.resize(v + 1, 0); s.fixed[v] = 1; } }
static inline bool allFixed(State& s, E e) { for (u32 v : e->vs->v) if (v >= s.fixed.size() || !s.fixed[v]) return false; return true; }
static bool holds(State& s, E c) { newEval(); return evalCached(c, s.m) != 0; }
// can c be true together with the path condition? fills model
static int feasible(State& s, E c, Model& out, bool z3 = false) { if (isC(c)) { out = s.m; return c->k ? 1 : 0; } out = s.m; return solve(s.pc, c, out, z3); }
static State* clone(State& s) { State* n = new State(s); n->forks++; S.forks++; return n; }

struct Killed {};                 // current path ended
struct Retry {};                  // state changed (operand concretised): re-execute instruction
static State* cur;
[[noreturn]] static void endPath(const std::string& why) { ends[why]++; throw Killed(); }

static void unknownQuery(State& s) { markInconclusive(&s, "solver returned unknown"); endPath("unknown"); }
// Branch on a boolean: returns the value taken by the current state; queues the other side if feasible.
static bool branch(State& s, E c, State** other = nullptr) {
  if (other) *other = nullptr; if (isC(c)) return c->k;
  bool v = holds(s, c); Model om; E oc = v ? mkNot(c) : c; int r = feasible(s, oc, om); if (r < 0) unknownQuery(s);
  if (r == 1) { State* n = clone(s); addPc(*n, oc); n->m = om; if (other) *other = n; else { work.push_back(n); } }
  addPc(s, v ? c : mkNot(c)); return v;
}
// All feasible values of e under the path condition (complete or inconclusive)
static std::vector<std::pair<u64, Model>> values(State& s, E e, u64 maxN) {
  std::vector<std::pair<u64, Model>> out; int r = enumerate(s.pc, e, maxN, s.m, out); if (r < 0) unknownQuery(s);
  if (r == 1) { markInconclusive(&s, "more than " + std::to_string(maxN) + " feasible values for a concretised operand"); endPath("value-limit"); }
  return out;
}
// Make register slot (of the top frame) concrete in this state, forking one state per other feasible value.
// after pinning an expression to one value, record inputs that became unique
static void pin(State& s, E e, u64 val, unsigned w) {
  addPc(s, mkBin(EQ, e, mkConst(w, val))); if (e->vs->v.size() > 4) return;
  for (u32 v : e->vs->v) { if (v < s.fixed.size() && s.fixed[v]) continue; if (g_vars[v].w > 16) continue; E x = mkVar(v), q = mkBin(EQ, x, mkConst(x->w, s.m[v])); Model m = s.m; if (solve(s.pc, mkNot(q), m, false) == 0) addPc(s, q); }
}
static u64 concretize(State& s, const Operand& o, unsigned leaf, unsigned w) {
  Frame* f = s.fr.back(); V v = o.slot >= 0 ? f->r[o.slot + leaf] : V{o.c[leaf].c, o.c[leaf].e}; if (!v.e) return v.c;
  if (allFixed(s, v.e)) { u64 c = (u64)evalE(v.e, s.m); s.top()->r[o.slot + leaf] = mkV(c); return c; }
  auto vals = values(s, v.e, optMaxForkVals);
  for (size_t i = 1; i < vals.size(); i++) { State* n = clone(s); n->m = vals[i].second; pin(*n, v.e, vals[i].first, w); n->top()->r[o.slot + leaf] = mkV(vals[i].first); work.push_back(n); }
  pin(s, v.e, vals[0].first, w); s.top()->r[o.slot + leaf] = mkV(vals[0].first); return vals[0].first;
}
[[noreturn]] static void memError(State& s, const char* what, u64 a) { char b[64]; snprintf(b, 64, "%llx", (unsigned long long)a); violation(s, "memory", what, std::string("in ") + s.fr.back()->f->name + " at 0x" + b); endPath("memory-error"); }

// ---- builtins
enum B { B_NONE, B_PANIC, B_ALLOC, B_ALLOCZ, B_DEALLOC, B_REALLOC, B_NOP, B_RANDKEYS, B_HASHONE, B_FMT, B_PARAM, B_BCMP, B_MEMCMP, B_STRLEN, B_MEMCPY, B_MEMSET, B_SYM8, B_SYM16, B_SYM32, B_SYM64, B_CHOOSE, B_ASSUME, B_CHECK, B_COVER, B_ALLOWP, B_ALLOCLIM, B_CONC, B_OBS, B_NOTE, B_MALLOC, B_FREE, B_ABORT, B_BSWAP, B_CTPOP, B_CTLZ, B_CTTZ, B_OVF, B_SAT, B_MINMAX, B_FSH, B_ABS, B_FABS, B_EXPECT, B_ISCONST, B_TLS, B_UCMP, B_BITREV, B_PTRMASK, B_PMOVMSKB, B_ASSUME_LLVM, B_VECREDUCE, B_KEYCREATE, B_RET0, B_UNKNOWN };
static bool has(const std::string& s, const char* k) { return s.find(k) != std::string::npos; }
static bool pre(const std::string& s, const char* k) { return s.compare(0, strlen(k), k) == 0; }
static void classify(Func& f) {
  const std::string& n = f.name; int b = B_NONE;
  if (has(n, "BuildHasher8hash_one") && has(n, "RandomState")) b = optRealHash ? B_NONE : B_HASHONE;
  else if (!optRealHash && has(n, "13DefaultHasher") && (has(n, "6Hasher5write") || has(n, "6Hasher9write_str"))) b = B_NOP;
  else if (!optRealHash && has(n, "13DefaultHasher") && has(n, "6Hasher6finish")) b = B_HASHONE;
  else if (has(n, "5alloc3fmt6format12format_inner")) b = optRealFmt ? B_NONE : B_FMT;
  else if (has(n, "4core9panicking") || has(n, "3std9panicking")) b = f.defined ? B_NONE : B_PANIC;
  else if (!f.defined) {
    if (has(n, "handle_alloc_error") || has(n, "raw_vec12handle_error") || has(n, "capacity_overflow") || has(n, "rust_begin_unwind")) b = B_PANIC;
    else if (has(n, "___rust_alloc_zeroed")) b = B_ALLOCZ; else if (has(n, "___rust_no_alloc")) b = B_NOP; else if (has(n, "___rust_alloc")) b = B_ALLOC; else if (has(n, "___rust_dealloc")) b = B_DEALLOC; else if (has(n, "___rust_realloc")) b = B_REALLOC;
    else if (has(n, "hashmap_random_keys")) b = B_RANDKEYS; else if (n == "bcmp") b = B_BCMP; else if (n == "memcmp") b = B_MEMCMP; else if (n == "strlen") b = B_STRLEN; else if (n == "abort" || n == "llvm.trap") b = B_ABORT;
    else if (n == "malloc") b = B_MALLOC; else if (n == "free") b = B_FREE;
    else if (pre(n, "llvm.memcpy") || pre(n, "llvm.memmove") || n == "memcpy" || n == "memmove") b = B_MEMCPY; else if (pre(n, "llvm.memset")) b = B_MEMSET;
    else if (n == "symx_u8") b = B_SYM8; else if (n == "symx_u16") b = B_SYM16; else if (n == "symx_u32") b = B_SYM32; else if (n == "symx_u64") b = B_SYM64; else if (n == "symx_choose") b = B_CHOOSE; else if (n == "symx_assume") b = B_ASSUME; else if (n == "symx_check") b = B_CHECK; else if (n == "symx_cover") b = B_COVER; else if (n == "symx_allow_panic") b = B_ALLOWP; else if (n == "symx_alloc_limit") b = B_ALLOCLIM; else if (n == "symx_concretize") b = B_CONC; else if (n == "symx_observe") b = B_OBS; else if (n == "symx_note") b = B_NOTE; else if (n == "symx_param") b = B_PARAM;
    else if (pre(n, "llvm.lifetime") || pre(n, "llvm.experimental.noalias") || pre(n, "llvm.dbg") || pre(n, "llvm.donothing") || pre(n, "llvm.var.annotation") || pre(n, "llvm.invariant") || pre(n, "llvm.prefetch")) b = B_NOP; else if (pre(n, "llvm.assume")) b = B_NOP;
    else if (pre(n, "llvm.bswap")) b = B_BSWAP; else if (pre(n, "llvm.ctpop")) b = B_CTPOP; else if (pre(n, "llvm.ctlz")) b = B_CTLZ; else if (pre(n, "llvm.cttz")) b = B_CTTZ; else if (has(n, ".with.overflow")) b = B_OVF; else if (pre(n, "llvm.uadd.sat") || pre(n, "llvm.usub.sat") || pre(n, "llvm.sadd.sat") || pre(n, "llvm.ssub.sat")) b = B_SAT; else if (pre(n, "llvm.umin.") || pre(n, "llvm.umax.") || pre(n, "llvm.smin.") || pre(n, "llvm.smax.")) b = B_MINMAX; else if (pre(n, "llvm.fshl") || pre(n, "llvm.fshr")) b = B_FSH; else if (pre(n, "llvm.abs")) b = B_ABS; else if (pre(n, "llvm.fabs")) b = B_FABS; else if (pre(n, "llvm.expect")) b = B_EXPECT; else if (pre(n, "llvm.is.constant")) b = B_ISCONST; else if (pre(n, "llvm.threadlocal")) b = B_EXPECT; else if (pre(n, "llvm.ucmp") || pre(n, "llvm.scmp")) b = B_UCMP; else if (pre(n, "llvm.bitreverse")) b = B_BITREV; else if (pre(n, "llvm.ptrmask")) b = B_PTRMASK; else if (has(n, "pmovmskb")) b = B_PMOVMSKB; else if (pre(n, "llvm.vector.reduce")) b = B_VECREDUCE;
    else if (n == "pthread_key_create") b = B_KEYCREATE; else if (n == "pthread_setspecific" || n == "pthread_key_delete") b = B_RET0;
    else b = B_UNKNOWN; }
  f.builtin = b;
}
static State* G;   // state whose registers are being read
static V getV(Frame* f, const Operand& o, unsigned i = 0) { if (o.slot >= 0) { V& v = f->r[o.slot + i]; if (v.e && v.e->w <= 64 && !G->fixed.empty() && allFixed(*G, v.e)) { newEval(); return V{(u64)evalCached(v.e, G->m), nullptr}; } return v; } return {o.c[i].c, o.c[i].e}; }

static V binV(State& s, u8 op, unsigned w, V a, V b) {
  if (!a.e && !b.e && w <= 64) { u64 m = m64(w), x = a.c, y = b.c; switch (op) {
      case ADD: return mkV((x + y) & m); case SUB: return mkV((x - y) & m); case MUL: return mkV((x * y) & m); case AND: return mkV(x & y); case OR: return mkV(x | y); case XOR: return mkV(x ^ y);
      case SHL: return mkV(y >= w ? 0 : (x << y) & m); case LSHR: return mkV(y >= w ? 0 : x >> y); default: { bool ok; u128 r = foldBin((Op)op, w, x, y, ok); if (!ok) memError(s, "division by zero", 0); return mkV((u64)r); } } }
  return fromE(mkBin((Op)op, toE(a, w), toE(b, w)));
}
static V icmpV(u8 pr, unsigned w, V a, V b) {
  if (!a.e && !b.e && w <= 64) { u64 x = a.c, y = b.c; i64 sx = (i64)(x << (64 - w)) >> (64 - w), sy = (i64)(y << (64 - w)) >> (64 - w); bool r = false; switch (pr) { case 0: r = x == y; break; case 1: r = x != y; break; case 2: r = x > y; break; case 3: r = x >= y; break; case 4: r = x < y; break; case 5: r = x <= y; break; case 6: r = sx > sy; break; case 7: r = sx >= sy; break; case 8: r = sx < sy; break; case 9: r = sx <= sy; break; } return mkV(r); }
  E x = toE(a, w), y = toE(b, w), r = nullptr; switch (pr) { case 0: r = mkBin(EQ, x, y); break; case 1: r = mkNot(mkBin(EQ, x, y)); break; case 2: r = mkBin(ULT, y, x); break; case 3: r = mkBin(ULE, y, x); break; case 4: r = mkBin(ULT, x, y); break; case 5: r = mkBin(ULE, x, y); break; case 6: r = mkBin(SLT, y, x); break; case 7: r = mkBin(SLE, y, x); break; case 8: r = mkBin(SLT, x, y); break; case 9: r = mkBin(SLE, x, y); break; }
  return fromE(r);
}
static V iteV(E c, V a, V b, unsigned w) { if (!a.e && !b.e && a.c == b.c) return a; return fromE(mkIte(c, toE(a, w), toE(b, w))); }
static double asD(u64 b, unsigned w) { if (w == 32) { float f; u32 t = b; memcpy(&f, &t, 4); return f; } double d; memcpy(&d, &b, 8); return d; }
static u64 fromD(double d, unsigned w) { if (w == 32) { float f = (float)d; u32 t; memcpy(&t, &f, 4); return t; } u64 b; memcpy(&b, &d, 8); return b; }

static E freshInput(State& s, u16 w) { u32 vi = newVarKey(s.in.size(), w); if (s.m.size() <= vi) s.m.resize(vi + 1, 0); s.m[vi] = 0; E e = mkVar(vi); s.in.push_back({w, e, 0}); return e; }
static std::string argStr(State& s, const Operand& p, const Operand& n) { Frame* f = s.fr.back(); V a = getV(f, p), b = getV(f, n); if (a.e || b.e) return "?"; return readStr(s, a.c, b.c); }

static void panicPath(State& s, Func& callee, const Instr& I, unsigned ao) {
  std::string loc; Frame* f = s.fr.back(); for (size_t i = I.o.size(); i-- > ao;) { if (I.o[i].ty->k != Type::PTR) continue; V v = getV(f, I.o[i]); if (v.e) continue; loc = locOf(s, v.c); if (!loc.empty()) break; }
  if (loc.empty()) loc = "in " + f->f->name;
  if (s.allowPanic) { S.panicOk++; endPath("panic-allowed"); }
  violation(s, "panic", callee.name, loc); endPath("panic");
}
// returns true if the builtin produced its result(s) in dst
static void setR(State& s, int dst, V v) { if (dst >= 0) s.top()->r[dst] = v; }
static u64 allocSize(State& s, const Operand& o) {
  V v = getV(s.fr.back(), o); u64 lim = s.allocMax ? s.allocMax : optAllocMax; if (!v.e) { if (v.c > (1ull << 32) - 64 || (s.allocMax && v.c > lim)) { violation(s, "alloc", "allocation of " + std::to_string(v.c) + " bytes", "in " + s.fr.back()->f->name); endPath("huge-alloc"); } return v.c; }
  // symbolic size: huge requests are reported; otherwise the object gets the largest feasible size
  E big = mkBin(ULT, mkConst(64, lim), v.e); Model m; int r = feasible(s, big, m); if (r < 0) unknownQuery(s);
  if (r == 1) { State t(s); t.m = m; violation(t, "alloc", "allocation above limit", "in " + s.fr.back()->f->name); Model m2; int q = feasible(s, mkNot(big), m2); if (q < 0) unknownQuery(s); if (q == 0) endPath("huge-alloc"); s.m = m2; addPc(s, mkNot(big)); }
  u64 lo = (u64)evalE(v.e, s.m), hi = lim; while (lo < hi) { u64 mid = lo + (hi - lo + 1) / 2; Model mm; int q = feasible(s, mkBin(ULE, mkConst(64, mid), v.e), mm); if (q < 0) unknownQuery(s); if (q == 1) lo = std::max(mid, (u64)evalE(v.e, mm)); else hi = mid - 1; }
  return lo;
}
static E popcountE(E x) { unsigned w = x->w; E r = mkConst(w, 0); for (unsigned i = 0; i < w; i++) r = mkBin(ADD, r, mkZext(mkExtract(x, i, 1), w)); return r; }
static void execBuiltin(State& s, Func& fn, const Instr& I, unsigned ao) {
  Frame* f = s.fr.back(); auto A = [&](unsigned i) -> const Operand& { return I.o[ao + i]; }; const std::string& n = fn.name;
  switch (fn.builtin) {
    case B_PANIC: panicPath(s, fn, I, ao); break;
    case B_ABORT: if (s.allowPanic) { S.panicOk++; endPath("panic-allowed"); } violation(s, "panic", n, "in " + f->f->name); endPath("abort");
    case B_ALLOC: case B_ALLOCZ: { u64 sz = allocSize(s, A(0)); setR(s, I.dst, mkV(heapAlloc(s, sz))); break; }
    case B_MALLOC: { u64 sz = allocSize(s, A(0)); setR(s, I.dst, mkV(heapAlloc(s, sz))); break; }
    case B_DEALLOC: case B_FREE: { u64 a = concretize(s, A(0), 0, 64); if (a == 0 && fn.builtin == B_FREE) break; Obj* o = lookup(s, a); if (!o || (u32)a || o->kind != 1) memError(s, "invalid free", a); s.heap.set(a >> 32, nullptr); break; }
    case B_REALLOC: { u64 a = concretize(s, A(0), 0, 64); Obj* o = lookup(s, a); if (!o || (u32)a || o->kind != 1) memError(s, "invalid realloc", a); u64 nsz = allocSize(s, A(3)); u64 osz = o->size; u64 na = heapAlloc(s, nsz); u64 k = std::min(osz, nsz); if (k) copyBytes(s, na, a, k); s.heap.set(a >> 32, nullptr); setR(s, I.dst, mkV(na)); break; }
    case B_NOP: break;
    case B_KEYCREATE: { u64 d = concretize(s, A(0), 0, 64); if (!valid(s, d, 4)) memError(s, "pthread_key_create", d); storeBits(ownObj(s, d), (u32)d, 32, mkV(7)); setR(s, I.dst, mkV(0)); break; }   // keys only run destructors at thread exit
    case B_RET0: setR(s, I.dst, mkV(0)); break;
    case B_RANDKEYS: setR(s, I.dst, mkV(0x0706050403020100ull)); setR(s, I.dst + 1, mkV(0x0f0e0d0c0b0a0908ull)); break;
    case B_PARAM: { V v = getV(f, A(0)); if (v.e || v.c >= optParams.size()) fatal("missing parameter"); setR(s, I.dst, mkV(optParams[v.c])); break; }
    case B_FMT: { u64 d = concretize(s, A(0), 0, 64); if (!valid(s, d, 24)) memError(s, "format", d); Obj* o = ownObj(s, d); storeBits(o, (u32)d, 64, mkV(0)); storeBits(o, (u32)d + 8, 64, mkV(1)); storeBits(o, (u32)d + 16, 64, mkV(0)); break; }
    case B_HASHONE: setR(s, I.dst, mkV(0)); break;
    case B_BCMP: case B_MEMCMP: { u64 len = concretize(s, A(2), 0, 64); if (!len) { setR(s, I.dst, mkV(0)); break; } u64 a = concretize(s, A(0), 0, 64), b = concretize(s, A(1), 0, 64); if (!valid(s, a, len)) memError(s, "memcmp out of bounds", a); if (!valid(s, b, len)) memError(s, "memcmp out of bounds", b);
      Obj *x = lookup(s, a), *y = lookup(s, b); bool sym = false; int res = 0; for (u64 i = 0; i < len; i++) { u8 c, d; E e, g; getByte(x, (u32)a + i, c, e); getByte(y, (u32)b + i, d, g); if (e || g) { if (e == g) continue; sym = true; break; } if (c != d) { res = c < d ? -1 : 1; break; } }
      if (!sym) { setR(s, I.dst, mkV((u32)res)); break; }
      E r = mkConst(32, 0); if (fn.builtin == B_BCMP) { E eq = mkBool(true); for (u64 i = 0; i < len; i++) { u8 c, d; E e, g; getByte(x, (u32)a + i, c, e); getByte(y, (u32)b + i, d, g); if (!e) e = mkConst(8, c); if (!g) g = mkConst(8, d); eq = mkBin(AND, eq, mkBin(EQ, e, g)); if (isC(eq) && !eq->k) break; } r = mkIte(eq, mkConst(32, 0), mkConst(32, 1)); }
      else for (u64 i = len; i-- > 0;) { u8 c, d; E e, g; getByte(x, (u32)a + i, c, e); getByte(y, (u32)b + i, d, g); if (!e) e = mkConst(8, c); if (!g) g = mkConst(8, d); r = mkIte(mkBin(EQ, e, g), r, mkIte(mkBin(ULT, e, g), mkConst(32, (u32)-1), mkConst(32, 1))); }
      setR(s, I.dst, fromE(r)); break; }
    case B_STRLEN: { u64 a = concretize(s, A(0), 0, 64); Obj* o = lookup(s, a); u64 i = 0; for (;; i++) { if (!o || (u32)a + i >= o->size) memError(s, "strlen", a); u8 c; E e; getByte(o, (u32)a + i, c, e); if (e) fatal("symbolic strlen"); if (!c) break; } setR(s, I.dst, mkV(i)); break; }
    case B_MEMCPY: { u64 len = concretize(s, A(2), 0, 64); if (!len) break; u64 d = concretize(s, A(0), 0, 64), a = concretize(s, A(1), 0, 64); if (!valid(s, a, len)) memError(s, "memcpy source out of bounds", a); if (!valid(s, d, len)) memError(s, "memcpy destination out of bounds", d); if (lookup(s, d)->ro) memError(s, "write to constant", d); copyBytes(s, d, a, len); break; }
    case B_MEMSET: { u64 len = concretize(s, A(2), 0, 64); if (!len) break; u64 d = concretize(s, A(0), 0, 64); V v = getV(s.fr.back(), A(1)); if (!valid(s, d, len)) memError(s, "memset out of bounds", d); Obj* o = ownObj(s, d); for (u64 i = 0; i < len; i++) storeBits(o, (u32)d + i, 8, v); break; }
    case B_SYM8: setR(s, I.dst, V{0, freshInput(s, 8)}); break; case B_SYM16: setR(s, I.dst, V{0, freshInput(s, 16)}); break; case B_SYM32: setR(s, I.dst, V{0, freshInput(s, 32)}); break; case B_SYM64: setR(s, I.dst, V{0, freshInput(s, 64)}); break;
    case B_CHOOSE: { V v = getV(f, A(0)); if (v.e) fatal("symbolic choose"); u32 k = v.c; if (!k) endPath("assume"); for (u32 i = k; i-- > 1;) { State* c = clone(s); c->in.push_back({32, nullptr, i}); c->top()->r[I.dst] = mkV(i); c->top()->ip++; work.push_back(c); } s.in.push_back({32, nullptr, 0}); setR(s, I.dst, mkV(0)); break; }
    case B_ASSUME: { V v = getV(f, A(0)); if (!v.e) { if (!v.c) { S.assumeKilled++; endPath("assume"); } break; } if (holds(s, v.e)) { addPc(s, v.e); break; } Model m; int r = feasible(s, v.e, m); if (r < 0) unknownQuery(s); if (r == 0) { S.assumeKilled++; endPath("assume"); } s.m = m; addPc(s, v.e); break; }
    case B_CHECK: { S.checks++; std::string lab = argStr(s, A(1), A(2)); checkLabels[lab]++; V v = getV(f, A(0)); if (!v.e) { if (!v.c) { violation(s, "check", lab, "in " + f->f->name); endPath("check-failed"); } break; }
      S.checksSolver++; Model m; int r = feasible(s, mkNot(v.e), m, true); if (r < 0) unknownQuery(s); if (r == 1) { Model keep = s.m; s.m = m; violation(s, "check", lab, "in " + f->f->name); s.m = keep; if (!holds(s, v.e)) { Model m2; int q = feasible(s, v.e, m2); if (q <= 0) endPath("check-failed"); s.m = m2; } addPc(s, v.e); } break; }
    case B_COVER: s.covers.push_back(argStr(s, A(0), A(1))); break;
    case B_ALLOWP: { V v = getV(f, A(0)); s.allowPanic = v.c; break; }
    case B_ALLOCLIM: { V v = getV(f, A(0)); s.allocMax = v.c; break; }
    case B_CONC: { u64 v = concretize(s, A(0), 0, 64); setR(s, I.dst, mkV(v)); break; }
    case B_OBS: { V v = getV(f, A(0)); s.obs.push_back({v.c, v.e}); break; }
    case B_NOTE: if (optVerbose) { V v = getV(f, A(2)); fprintf(stderr, "note: %s %s\n", argStr(s, A(0), A(1)).c_str(), v.e ? exprStr(v.e, 12).c_str() : std::to_string(v.c).c_str()); } break;
    case B_BSWAP: { unsigned w = I.ty->bits; V v = getV(f, A(0)); if (!v.e && w <= 64) { u64 r = 0; for (unsigned i = 0; i < w; i += 8) r |= ((v.c >> i) & 0xff) << (w - 8 - i); setR(s, I.dst, mkV(r)); break; } E x = toE(v, w), r = nullptr; for (unsigned i = 0; i < w; i += 8) { E b = mkExtract(x, i, 8); r = r ? mkConcat(r, b) : b; } setR(s, I.dst, fromE(r)); break; }
    case B_BITREV: { unsigned w = I.ty->bits; E x = toE(getV(f, A(0)), w), r = nullptr; for (unsigned i = 0; i < w; i++) { E b = mkExtract(x, i, 1); r = r ? mkConcat(r, b) : b; } setR(s, I.dst, fromE(r)); break; }
    case B_CTPOP: { unsigned w = I.ty->bits; V v = getV(f, A(0)); if (!v.e) setR(s, I.dst, mkV(__builtin_popcountll(v.c))); else setR(s, I.dst, fromE(popcountE(v.e))); (void)w; break; }
    case B_CTLZ: { unsigned w = I.ty->bits; V v = getV(f, A(0)); if (!v.e) { u64 r = w; for (unsigned i = 0; i < w; i++) if ((v.c >> (w - 1 - i)) & 1) { r = i; break; } setR(s, I.dst, mkV(r)); } else { E r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(v.e, i, 1), mkConst(w, w - 1 - i), r); setR(s, I.dst, fromE(r)); } break; }
    case B_CTTZ: { unsigned w = I.ty->bits; V v = getV(f, A(0)); if (!v.e) { u64 r = w; for (unsigned i = 0; i < w; i++) if ((v.c >> i) & 1) { r = i; break; } setR(s, I.dst, mkV(r)); } else { E r = mkConst(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(v.e, i, 1), mkConst(w, i), r); setR(s, I.dst, fromE(r)); } break; }
    case B_OVF: { unsigned w = A(0).ty->bits; E a = toE(getV(f, A(0)), w), b = toE(getV(f, A(1)), w); bool sg = n[5] == 's'; std::string op = n.substr(6, 3); Op o = op == "add" ? ADD : op == "sub" ? SUB : MUL; E r = mkBin(o, a, b), ov; 
      if (o == ADD && !sg) ov = mkBin(ULT, r, a); else if (o == SUB && !sg) ov = mkBin(ULT, a, b);
      else { unsigned W = o == MUL ? 2 * w : w + 1; if (W > 128) W = 128; E x = sg ? mkSext(a, W) : mkZext(a, W), y = sg ? mkSext(b, W) : mkZext(b, W); E z = mkBin(o, x, y); ov = mkNot(mkBin(EQ, z, sg ? mkSext(r, W) : mkZext(r, W))); }
      setR(s, I.dst, fromE(r)); setR(s, I.dst + 1, fromE(ov)); break; }
    case B_SAT: { unsigned w = I.ty->bits; E a = toE(getV(f, A(0)), w), b = toE(getV(f, A(1)), w); bool sg = n[5] == 's', add = n.compare(6, 3, "add") == 0; E r = mkBin(add ? ADD : SUB, a, b); if (!sg) { r = add ? mkIte(mkBin(ULT, r, a), mkConst(w, mask(w)), r) : mkIte(mkBin(ULT, a, b), mkConst(w, 0), r); } else { E x = mkSext(a, w + 1), y = mkSext(b, w + 1), z = mkBin(add ? ADD : SUB, x, y); E mx = mkConst(w + 1, mask(w - 1)), mn = mkConst(w + 1, (u128)(-(i128)((u128)1 << (w - 1)))); r = mkIte(mkBin(SLT, mx, z), mkExtract(mx, 0, w), mkIte(mkBin(SLT, z, mn), mkExtract(mn, 0, w), r)); } setR(s, I.dst, fromE(r)); break; }
    case B_MINMAX: { unsigned k = I.ty->nleaf; for (unsigned i = 0; i < k; i++) { unsigned w = leavesOf(I.ty)[i].w; V a = getV(f, A(0), i), b = getV(f, A(1), i); bool sg = n[5] == 's', mx = n[7] == 'a'; V lt = icmpV(sg ? 8 : 4, w, a, b); V r; if (!lt.e) r = (lt.c != 0) == mx ? b : a; else r = iteV(lt.e, mx ? b : a, mx ? a : b, w); setR(s, I.dst + i, r); } break; }
    case B_FSH: { unsigned w = I.ty->bits; V sv = getV(f, A(2)); u64 k = sv.e ? concretize(s, A(2), 0, w) : sv.c; k %= w; f = s.fr.back(); E a = toE(getV(f, A(0)), w), b = toE(getV(f, A(1)), w); bool l = n[8] == 'l'; E r = l ? (k ? mkConcat(mkExtract(a, 0, w - k), mkExtract(b, w - k, k)) : a) : (k ? mkConcat(mkExtract(a, 0, k), mkExtract(b, k, w - k)) : b); setR(s, I.dst, fromE(r)); break; }
    case B_ABS: { unsigned w = I.ty->bits; E a = toE(getV(f, A(0)), w); setR(s, I.dst, fromE(mkIte(mkExtract(a, w - 1, 1), mkBin(SUB, mkConst(w, 0), a), a))); break; }
    case B_FABS: { unsigned w = I.ty->bits; V a = getV(f, A(0)); setR(s, I.dst, binV(s, AND, w, a, mkV(m64(w) >> 1))); break; }
    case B_EXPECT: setR(s, I.dst, getV(f, A(0))); break;
    case B_ISCONST: setR(s, I.dst, mkV(0)); break;
    case B_UCMP: { unsigned w = A(0).ty->bits, rw = I.ty->bits; bool sg = n[5] == 's'; V a = getV(f, A(0)), b = getV(f, A(1)); V lt = icmpV(sg ? 8 : 4, w, a, b), eq = icmpV(0, w, a, b); E r = mkIte(toE(lt, 1), mkConst(rw, mask(rw)), mkIte(toE(eq, 1), mkConst(rw, 0), mkConst(rw, 1))); setR(s, I.dst, fromE(r)); break; }
    case B_PTRMASK: setR(s, I.dst, binV(s, AND, 64, getV(f, A(0)), getV(f, A(1)))); break;
    case B_PMOVMSKB: { E r = nullptr; for (unsigned i = 0; i < 16; i++) { E b = mkExtract(toE(getV(f, A(0), i), 8), 7, 1); r = r ? mkConcat(b, r) : b; } setR(s, I.dst, fromE(mkZext(r, 32))); break; }
    default: fatal("call to unmodelled external function " + n + " from " + f->f->name);
  }
}

// ---- loads with symbolic address
static V symLoadLeaf(State& s, Obj* o, E off, const std::vector<u64>& cand, unsigned w, u64 lo) {
  std::map<std::pair<u64, E>, std::vector<u64>> groups; std::vector<std::pair<V, std::vector<u64>>> gs;
  for (u64 c : cand) { V v = loadBits(o, c + lo, w); auto key = std::make_pair(v.c, v.e); auto it = groups.find(key); if (it == groups.end()) groups[key] = {c}; else it->second.push_back(c); }
  E r = nullptr; std::vector<std::pair<std::pair<u64, E>, std::vector<u64>>> g(groups.begin(), groups.end()); std::sort(g.begin(), g.end(), [](auto& a, auto& b) { return a.second.size() > b.second.size(); });
  for (auto& p : g) { E val = toE(V{p.first.first, p.first.second}, w); if (!r) { r = val; continue; } E c = mkBool(false); 
    // compress runs
    auto& v = p.second; size_t i = 0; while (i < v.size()) { size_t j = i; while (j + 1 < v.size() && v[j + 1] == v[j] + 1) j++; E x = j - i >= 2 ? mkBin(AND, mkBin(ULE, mkConst(off->w, v[i]), off), mkBin(ULE, off, mkConst(off->w, v[j]))) : nullptr; if (!x) { x = mkBool(false); for (size_t k = i; k <= j; k++) x = mkBin(OR, x, mkBin(EQ, off, mkConst(off->w, v[k]))); } c = mkBin(OR, c, x); i = j + 1; }
    r = mkIte(c, val, r); }
  return fromE(r);
}
static bool hasSym(Obj* o) { for (auto* p : o->pg) if (p && p->s) for (unsigned i = 0; i < PS; i++) if (p->s[i]) return true; return false; }
static u64 storeSize(Type* t) { if (t->k == Type::VEC && t->el->bits % 8) return (t->el->bits * t->nleaf + 7) / 8; return t->k == Type::INT ? (t->bits + 7) / 8 : t->size; }
static bool hasPtr(Type* t) { if (t->k == Type::PTR) return true; if (t->k == Type::STRUCT) { for (auto* x : t->f) if (hasPtr(x)) return true; } if (t->k == Type::ARR || t->k == Type::VEC) return hasPtr(t->el); return false; }

// ---- main interpreter loop: runs state until it ends
struct UseG { State* o; UseG(State* n) : o(G) { G = n; } ~UseG() { G = o; } };
static void enter(State& s, u32 bb) { UseG ug(&s); Frame* f = s.top(); u32 prev = f->bb; Block& B = f->f->bb[bb]; if (B.nphi) { static std::vector<V> tmp; tmp.clear(); for (u32 i = 0; i < B.nphi; i++) { Instr& P = B.in[i]; u32 k = 0; while (k < P.bb.size() && P.bb[k] != prev) k++; if (k == P.bb.size()) fatal("phi: no predecessor in " + f->f->name); for (unsigned l = 0; l < P.ty->nleaf; l++) tmp.push_back(getV(f, P.o[k], l)); } u32 q = 0; for (u32 i = 0; i < B.nphi; i++) { Instr& P = B.in[i]; for (unsigned l = 0; l < P.ty->nleaf; l++) f->r[P.dst + l] = tmp[q++]; } } f->bb = bb; f->ip = B.nphi; }
static void pathDone(State& s) {
  newEval(); for (E x : s.pc) if (!evalCached(x, s.m)) fatal("the model of a path does not satisfy its condition");
  S.okPaths++; ends["ok"]++; for (auto& c : s.covers) covers[c]++;
  if (optSample && (S.okPaths <= (u64)optSample || (S.okPaths & (S.okPaths - 1)) == 0)) { std::string r = "["; newEval(); for (size_t i = 0; i < s.obs.size(); i++) { if (i) r += ","; r += std::to_string(s.obs[i].second ? (u64)evalCached(s.obs[i].second, s.m) : s.obs[i].first); } emit("{\"type\":\"path\",\"inputs\":" + inputsJson(s) + ",\"obs\":" + r + "]}"); }
}
static void pushFrame(State& s, Func& fn, int retSlot, int cont) {
  if (!fn.parsed) parseBody(fn); fn.hits++; if (s.fr.size() > optMaxDepth) { violation(s, "stack", "recursion depth " + std::to_string(optMaxDepth), "in " + fn.name); endPath("recursion"); }
  Frame* f = new Frame; f->rc = 1; f->f = &fn; f->bb = 0; f->ip = 0; f->retSlot = retSlot; f->cont = cont; f->r.assign(fn.nslots, V{0, nullptr}); f->mark = s.stk.n; s.fr.push_back(f);
}
static double lastShare = 0;
static void maybeShare();

static void run(State& s) {
  cur = &s; G = &s;
  for (;;) {
    Frame* f = s.top(); Instr& I = f->f->bb[f->bb].in[f->ip]; S.instrs++;
    if (++s.steps > optMaxSteps) { markInconclusive(&s, "instruction limit per path"); endPath("step-limit"); }
    if ((S.instrs & 0xfff) == 0) { if (sh->stop) endPath("stopped"); if (now() - t0s > optTime) { if (!inconclusive) markInconclusive(&s, "time limit"); sh->stop = 1; endPath("time-limit"); } maybeShare(); }
    switch (I.op) {
      case I_BIN: { unsigned n = I.ty->nleaf; unsigned w = I.ty->k == Type::VEC ? I.ty->el->bits : I.ty->bits; for (unsigned i = 0; i < n; i++) f->r[I.dst + i] = binV(s, I.sub, w, getV(f, I.o[0], i), getV(f, I.o[1], i)); break; }
      case I_ICMP: { Type* t = I.o[0].ty; unsigned w = t->k == Type::VEC ? t->el->bits : t->bits; for (unsigned i = 0; i < t->nleaf; i++) f->r[I.dst + i] = icmpV(I.sub, w, getV(f, I.o[0], i), getV(f, I.o[1], i)); break; }
      case I_FCMP: { unsigned w = I.o[0].ty->bits; V a = getV(f, I.o[0]), b = getV(f, I.o[1]); f->r[I.dst] = fromE(mkFcmp(I.sub, toE(a, w), toE(b, w))); break; }
      case I_FBIN: { unsigned w = I.ty->bits; V a = getV(f, I.o[0]), b = getV(f, I.o[1]); if (a.e || b.e) fatal("symbolic float arithmetic in " + f->f->name); double x = asD(a.c, w), y = asD(b.c, w), r = I.sub == 0 ? x + y : I.sub == 1 ? x - y : I.sub == 2 ? x * y : I.sub == 3 ? x / y : 0; f->r[I.dst] = mkV(fromD(r, w)); break; }
      case I_FNEG: { unsigned w = I.ty->bits; f->r[I.dst] = binV(s, XOR, w, getV(f, I.o[0]), mkV(1ull << (w - 1))); break; }
      case I_SELECT: { V c = getV(f, I.o[0]); unsigned n = I.ty->nleaf; if (I.o[0].ty->k == Type::VEC) { for (unsigned i = 0; i < n; i++) { V ci = getV(f, I.o[0], i); unsigned w = leavesOf(I.ty)[i].w; V a = getV(f, I.o[1], i), b = getV(f, I.o[2], i); f->r[I.dst + i] = ci.e ? iteV(ci.e, a, b, w) : ci.c ? a : b; } break; }
        if (c.e) { bool same = true; for (unsigned i = 0; i < n && same; i++) { V a = getV(f, I.o[1], i), b = getV(f, I.o[2], i); if (a.c != b.c || a.e != b.e) same = false; }
          if (!same && hasPtr(I.ty)) { State* o; bool v = branch(s, c.e, &o); if (o) { Frame* g = o->top(); for (unsigned i = 0; i < n; i++) g->r[I.dst + i] = getV(g, I.o[v ? 2 : 1], i); g->ip++; work.push_back(o); } f = s.top(); for (unsigned i = 0; i < n; i++) f->r[I.dst + i] = getV(f, I.o[v ? 1 : 2], i); break; }
          auto& lv = leavesOf(I.ty); for (unsigned i = 0; i < n; i++) f->r[I.dst + i] = iteV(c.e, getV(f, I.o[1], i), getV(f, I.o[2], i), lv[i].w); }
        else for (unsigned i = 0; i < n; i++) f->r[I.dst + i] = getV(f, I.o[c.c ? 1 : 2], i); break; }
      case I_TRUNC: case I_ZEXT: case I_SEXT: { Type* t = I.o[0].ty; unsigned fw = t->k == Type::VEC ? t->el->bits : t->bits, tw = t->k == Type::VEC ? I.ty->el->bits : I.ty->bits; for (unsigned i = 0; i < t->nleaf; i++) { V v = getV(f, I.o[0], i); if (!v.e && tw <= 64) { if (I.op == I_SEXT) v.c = (u64)((i64)(v.c << (64 - fw)) >> (64 - fw)); v.c &= m64(tw); f->r[I.dst + i] = v; } else { E e = toE(v, fw); f->r[I.dst + i] = fromE(I.op == I_TRUNC ? mkExtract(e, 0, tw) : I.op == I_ZEXT ? mkZext(e, tw) : mkSext(e, tw)); } } break; }
      case I_BITCAST: { Type *a = I.o[0].ty, *b = I.ty; if (a->nleaf == b->nleaf && leavesOf(a)[0].w == leavesOf(b)[0].w) { for (unsigned i = 0; i < a->nleaf; i++) f->r[I.dst + i] = getV(f, I.o[0], i); break; }
        E r = nullptr; for (unsigned i = 0; i < a->nleaf; i++) { E x = toE(getV(f, I.o[0], i), leavesOf(a)[i].w); r = r ? mkConcat(x, r) : x; } unsigned p = 0; for (unsigned i = 0; i < b->nleaf; i++) { unsigned w = leavesOf(b)[i].w; f->r[I.dst + i] = fromE(mkExtract(r, p, w)); p += w; } break; }
      case I_PTRINT: { V v = getV(f, I.o[0]); unsigned fw = I.o[0].ty->bits, tw = I.ty->bits; if (!v.e) v.c &= m64(tw); else if (tw < fw) v = fromE(mkExtract(v.e, 0, tw)); else if (tw > fw) v = fromE(mkZext(v.e, tw)); f->r[I.dst] = v; break; }
      case I_FPCAST: { V v = getV(f, I.o[0]); if (v.e) fatal("symbolic float conversion in " + f->f->name); unsigned fw = I.o[0].ty->bits, tw = I.ty->bits; u64 r = 0; if (I.txt == "fpext" || I.txt == "fptrunc") r = fromD(asD(v.c, fw), tw); else if (I.txt == "uitofp") r = fromD((double)v.c, tw); else if (I.txt == "sitofp") r = fromD((double)(i64)sxt(v.c, fw), tw); else if (I.txt == "fptoui") r = (u64)asD(v.c, fw); else r = (u64)(i64)asD(v.c, fw); f->r[I.dst] = mkV(r & m64(tw)); break; }
      case I_MOVE: for (unsigned i = 0; i < I.ty->nleaf; i++) f->r[I.dst + i] = getV(f, I.o[0], i); break;
      case I_GEP: { V a = getV(f, I.o[0]); if (I.ty->k == Type::VEC) fatal("vector gep"); u64 c = I.imm; E e = a.e; if (!e) c += a.c; for (size_t i = 1; i < I.o.size(); i++) { V x = getV(f, I.o[i]); unsigned w = I.o[i].ty->bits; u64 sc = I.scales[i - 1]; if (!x.e) c += (u64)((i64)(x.c << (64 - w)) >> (64 - w)) * sc; else { E t = mkBin(MUL, w < 64 ? mkSext(x.e, 64) : x.e, mkConst(64, sc)); e = e ? mkBin(ADD, e, t) : t; } } f->r[I.dst] = e ? fromE(mkBin(ADD, e, mkConst(64, c))) : mkV(c); break; }
      case I_LOAD: {
        V a = getV(f, I.o[0]); u64 n = storeSize(I.ty); auto& lv = leavesOf(I.ty);
        if (a.e) {
          if (I.ty->k == Type::VEC && I.ty->el->bits % 8) fatal("bit-vector load at a symbolic address"); S.symLoads++; newEval(); u64 A = (u64)evalCached(a.e, s.m); Obj* o = lookup(s, A); u64 base = A >> 32 << 32;
          if (!o || (u32)A + n > o->size) memError(s, "load out of bounds (symbolic address)", A);
          E off = mkBin(SUB, a.e, mkConst(64, base)); E inb = mkBin(ULE, off, mkConst(64, o->size - n)); State* other; branch(s, inb, &other); if (other) work.push_back(other);
          if (hasPtr(I.ty) || hasSym(o)) { concretize(s, I.o[0], 0, 64); continue; }
          std::vector<u64> cand; auto& vs = a.e->vs->v; u64 lim = o->size - n;
          if (vs.size() == 1 && g_vars[vs[0]].w <= 8) { Model m(vs[0] + 1, 0); std::set<u64> st; for (u64 x = 0; x < (1ull << g_vars[vs[0]].w); x++) { m[vs[0]] = x; newEval(); u64 q = (u64)evalCached(off, m); if (q <= lim) st.insert(q); } cand.assign(st.begin(), st.end()); }
          else if (lim < 256) { u64 st = 1; E q = off; while (q->op == ZEXT) q = q->a; if (q->op == CONCAT) { E l = q; while (l->op == CONCAT) l = l->b; if (isC(l) && l->k == 0 && l->w < 8) st = 1ull << l->w; } for (u64 x = 0; x <= lim; x += st) cand.push_back(x); }
          else { auto vals = values(s, off, 600); for (auto& p : vals) cand.push_back(p.first); std::sort(cand.begin(), cand.end()); }
          f = s.top(); o = lookup(s, A); for (size_t i = 0; i < lv.size(); i++) f->r[I.dst + i] = symLoadLeaf(s, o, off, cand, lv[i].w, lv[i].off);
          break; }
        if (n == 0) break; Obj* o = lookup(s, a.c); u64 off = (u32)a.c; if (!o || off + n > o->size) memError(s, "load out of bounds", a.c);
        if (I.ty->k == Type::VEC && I.ty->el->bits % 8) { unsigned ew = I.ty->el->bits, k = I.ty->nleaf; if (ew * k > 64) fatal("wide bit-vector load"); E x = toE(loadBits(o, off, ew * k), ew * k); for (unsigned i = 0; i < k; i++) f->r[I.dst + i] = fromE(mkExtract(x, i * ew, ew)); break; }
        for (size_t i = 0; i < lv.size(); i++) f->r[I.dst + i] = loadBits(o, off + lv[i].off, lv[i].w); break; }
      case I_STORE: { V a = getV(f, I.o[1]); u64 n = storeSize(I.ty); if (a.e) { newEval(); u64 A = (u64)evalCached(a.e, s.m); Obj* o = lookup(s, A); u64 base = A >> 32 << 32; if (!o || (u32)A + n > o->size) memError(s, "store out of bounds (symbolic address)", A); E inb = mkBin(ULE, mkBin(SUB, a.e, mkConst(64, base)), mkConst(64, o->size - n)); State* other; branch(s, inb, &other); if (other) work.push_back(other); concretize(s, I.o[1], 0, 64); continue; }
        if (n == 0) break; Obj* o = lookup(s, a.c); u64 off = (u32)a.c; if (!o || off + n > o->size) memError(s, "store out of bounds", a.c); if (o->ro) memError(s, "write to constant", a.c); o = ownObj(s, a.c); auto& lv = leavesOf(I.ty); if (I.ty->k == Type::VEC && I.ty->el->bits % 8) { unsigned ew = I.ty->el->bits; if (ew * I.ty->nleaf > 64) fatal("wide bit-vector store"); E x = nullptr; for (unsigned i = 0; i < I.ty->nleaf; i++) { E b = toE(getV(f, I.o[0], i), ew); x = x ? mkConcat(b, x) : b; } storeBits(o, off, x->w, fromE(x)); break; } for (size_t i = 0; i < lv.size(); i++) storeBits(o, off + lv[i].off, lv[i].w, getV(f, I.o[0], i)); break; }
      case I_ALLOCA: { u64 k = I.imm; if (!I.o.empty()) k *= getV(f, I.o[0]).c; u64 id = s.stk.push(objNew(k, 3)) + STK0; f->r[I.dst] = mkV(id << 32); break; }
      case I_CALL: {
        int fi = I.fn; unsigned ao = 0; if (fi == -2) { u64 a = concretize(s, I.o[0], 0, 64); ao = 1; if (a < FN_BASE || (a - FN_BASE) / 16 >= M.fn.size() || a % 16) memError(s, "indirect call to non-function", a); fi = (a - FN_BASE) / 16; f = s.top(); }
        Func& fn = M.fn[fi]; if (fn.builtin) { if (fn.builtin != B_NONE) { execBuiltin(s, fn, I, ao); if (I.isInvoke) { enter(s, I.bb[0]); continue; } s.top()->ip++; continue; } }
        if (!fn.defined) fatal("call to undefined function " + fn.name);
        if (!fn.parsed) parseBody(fn); std::vector<V> args; for (size_t i = 0; i < fn.pty.size(); i++) for (unsigned l = 0; l < fn.pty[i]->nleaf; l++) args.push_back(getV(f, I.o[ao + i], l));
        pushFrame(s, fn, I.dst, I.isInvoke ? (int)I.bb[0] : -1); Frame* g = s.top(); size_t q = 0; for (size_t i = 0; i < fn.pty.size(); i++) for (unsigned l = 0; l < fn.pty[i]->nleaf; l++) g->r[fn.pslot[i] + l] = args[q++];
        continue; }
      case I_BR: enter(s, I.bb[0]); continue;
      case I_CBR: { V c = getV(f, I.o[0]); if (!c.e) { enter(s, I.bb[c.c ? 0 : 1]); continue; } State* o; bool v = branch(s, c.e, &o); if (o) { enter(*o, I.bb[v ? 1 : 0]); work.push_back(o); } enter(s, I.bb[v ? 0 : 1]); continue; }
      case I_SWITCH: { V c = getV(f, I.o[0]); unsigned w = I.o[0].ty->bits; if (!c.e) { u32 t = I.bb[0]; for (size_t i = 0; i < I.cases.size(); i++) if (I.cases[i] == c.c) { t = I.bb[i + 1]; break; } enter(s, t); continue; }
        std::map<u32, E> tg; E def = mkBool(true); for (size_t i = 0; i < I.cases.size(); i++) { E q = mkBin(EQ, c.e, mkConst(w, I.cases[i])); def = mkBin(AND, def, mkNot(q)); auto it = tg.find(I.bb[i + 1]); if (it == tg.end()) tg[I.bb[i + 1]] = q; else it->second = mkBin(OR, it->second, q); }
        { auto it = tg.find(I.bb[0]); if (it == tg.end()) tg[I.bb[0]] = def; else it->second = mkBin(OR, it->second, def); }
        u32 mine = 0; E mc = nullptr; std::vector<std::pair<u32, E>> others; for (auto& p : tg) { if (!mc && holds(s, p.second)) { mine = p.first; mc = p.second; } else others.push_back(p); }
        for (auto& p : others) { Model m; int r = feasible(s, p.second, m); if (r < 0) unknownQuery(s); if (r == 1) { State* n = clone(s); n->m = m; addPc(*n, p.second); enter(*n, p.first); work.push_back(n); } }
        addPc(s, mc); enter(s, mine); continue; }
      case I_RET: { std::vector<V> rv; if (!I.o.empty()) for (unsigned l = 0; l < I.o[0].ty->nleaf; l++) rv.push_back(getV(f, I.o[0], l)); int rs = f->retSlot, ct = f->cont; s.stk.popTo(f->mark); frDrop(f); s.fr.pop_back(); if (s.fr.empty()) { pathDone(s); throw Killed(); } Frame* g = s.top(); if (rs >= 0) for (size_t i = 0; i < rv.size(); i++) g->r[rs + i] = rv[i]; if (ct >= 0) enter(s, ct); else g->ip++; continue; }
      case I_UNREACH: violation(s, "unreachable", "unreachable code reached", "in " + f->f->name); endPath("unreachable");
      case I_EXTRACTV: for (unsigned i = 0; i < I.ty->nleaf; i++) f->r[I.dst + i] = getV(f, I.o[0], I.imm + i); break;
      case I_INSERTV: { unsigned n = I.ty->nleaf, k = I.o[1].ty->nleaf; std::vector<V> t(n); for (unsigned i = 0; i < n; i++) t[i] = i >= I.imm && i < I.imm + k ? getV(f, I.o[1], i - I.imm) : getV(f, I.o[0], i); for (unsigned i = 0; i < n; i++) f->r[I.dst + i] = t[i]; break; }
      case I_EXTRACTE: { u64 k = concretize(s, I.o[1], 0, I.o[1].ty->bits); f = s.top(); f->r[I.dst] = getV(f, I.o[0], k); break; }
      case I_INSERTE: { u64 k = concretize(s, I.o[2], 0, I.o[2].ty->bits); f = s.top(); std::vector<V> t; for (unsigned i = 0; i < I.ty->nleaf; i++) t.push_back(i == k ? getV(f, I.o[1]) : getV(f, I.o[0], i)); for (unsigned i = 0; i < I.ty->nleaf; i++) f->r[I.dst + i] = t[i]; break; }
      case I_SHUFFLE: { std::vector<V> t; unsigned n = I.o[0].ty->nleaf; for (u32 x : I.idxs) t.push_back(x < n ? getV(f, I.o[0], x) : x < 2 * n ? getV(f, I.o[1], x - n) : mkV(0)); for (size_t i = 0; i < t.size(); i++) f->r[I.dst + i] = t[i]; break; }
      case I_FENCE: break;
      case I_RMW: { u64 a = concretize(s, I.o[0], 0, 64); unsigned w = I.ty->bits; if (!valid(s, a, (w + 7) / 8)) memError(s, "atomic out of bounds", a); f = s.top(); V old = loadBits(lookup(s, a), (u32)a, w), nv = getV(f, I.o[1]); if (I.sub != 200) nv = binV(s, I.sub, w, old, nv); storeBits(ownObj(s, a), (u32)a, w, nv); f->r[I.dst] = old; break; }
      case I_CMPXCHG: { u64 a = concretize(s, I.o[0], 0, 64); unsigned w = I.o[1].ty->bits; if (!valid(s, a, (w + 7) / 8)) memError(s, "atomic out of bounds", a); f = s.top(); V old = loadBits(lookup(s, a), (u32)a, w), ex = getV(f, I.o[1]), nv = getV(f, I.o[2]); if (old.e || ex.e) fatal("symbolic cmpxchg"); bool ok = old.c == ex.c; if (ok) storeBits(ownObj(s, a), (u32)a, w, nv); f->r[I.dst] = old; f->r[I.dst + 1] = mkV(ok); break; }
      default: fatal("unsupported instruction: " + I.txt + " in " + f->f->name);
    }
    s.top()->ip++;
  }
}
static std::string mapJson(const std::map<std::string, u64>& m) { std::string r = "{"; bool f = true; for (auto& p : m) { if (!f) r += ","; f = false; r += "\"" + jesc(p.first) + "\":" + std::to_string(p.second); } return r + "}"; }
static void report() {
  std::map<std::string, u64> fh; for (auto& f : M.fn) if (f.hits) fh[f.name] = f.hits;
  char b[1600]; snprintf(b, sizeof b, "{\"type\":\"stats\",\"paths_ok\":%llu,\"instrs\":%llu,\"forks\":%llu,\"checks\":%llu,\"checks_solver\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"cache_hits\":%llu,\"fd\":%llu,\"solver_secs\":%.3f,\"max_query_secs\":%.3f,\"sym_loads\":%llu,\"panic_ok\":%llu,\"exprs\":%llu,\"rss_kb\":", (unsigned long long)S.okPaths, (unsigned long long)S.instrs, (unsigned long long)S.forks, (unsigned long long)S.checks, (unsigned long long)S.checksSolver, (unsigned long long)g_ss.queries, (unsigned long long)g_ss.sat, (unsigned long long)g_ss.unsat, (unsigned long long)g_ss.cacheHits, (unsigned long long)g_ss.fd, g_ss.secs, g_ss.maxSecs, (unsigned long long)S.symLoads, (unsigned long long)S.panicOk, (unsigned long long)exprCount());
  struct rusage ru; getrusage(RUSAGE_SELF, &ru); emit(std::string(b) + std::to_string(ru.ru_maxrss) + ",\"ends\":" + mapJson(ends) + ",\"covers\":" + mapJson(covers) + ",\"labels\":" + mapJson(checkLabels) + ",\"functions\":" + mapJson(fh) + "}");
}
static std::vector<pid_t> kids; static bool isChild = false;
static void maybeShare() {
  if (optWorkers <= 1 || work.size() < 2 || sh->running >= optWorkers) return; double t = now(); if (t - lastShare < 0.05) return; lastShare = t;
  int r = ++sh->running; if (r > optWorkers) { --sh->running; return; }
  fflush(stdout); fflush(stderr);
  size_t half = work.size() / 2; if (half == 0) half = 1; pid_t p = fork(); if (p < 0) { --sh->running; return; }
  if (p == 0) { isChild = true; kids.clear(); // the child takes the older half of the queue, the parent keeps the current path and the rest
    S = Stats(); g_ss = SolverStats(); covers.clear(); ends.clear(); checkLabels.clear(); for (auto& f : M.fn) f.hits = 0; inconclusive = false;
    work.resize(half); throw Killed(); }
  kids.push_back(p); for (size_t i = 0; i < half; i++) delete work[i]; work.erase(work.begin(), work.begin() + half);
}
int main(int argc, char** argv) {
  std::string ll, entry, out; std::vector<std::string> a(argv + 1, argv + argc);
  for (size_t i = 0; i < a.size(); i++) { auto nx = [&] { return a[++i]; }; if (a[i] == "--out") out = nx(); else if (a[i] == "--workers") optWorkers = stoi(nx()); else if (a[i] == "--real-hash") optRealHash = true; else if (a[i] == "--time") optTime = stod(nx()); else if (a[i] == "--steps") optMaxSteps = stoull(nx()); else if (a[i] == "--no-fd") g_useFd = false; else if (a[i] == "--param") optParams.push_back(stoul(nx())); else if (a[i] == "-v") optVerbose = true; else if (a[i] == "--slow") g_slowQuery = stod(nx()); else if (a[i] == "--real-fmt") optRealFmt = true; else if (a[i] == "--sample") optSample = stoi(nx()); else if (a[i] == "--alloc-max") optAllocMax = stoull(nx()); else if (a[i] == "--max-viol") optMaxViol = stoi(nx()); else if (a[i] == "--depth") optMaxDepth = stoull(nx()); else if (ll.empty()) ll = a[i]; else entry = a[i]; }
  if (entry.empty()) { fprintf(stderr, "usage: symx FILE.ll ENTRY [--out F] [--workers N] ...\n"); return 2; }
  if (!out.empty()) outFd = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  sh = (Shared*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (sh) Shared(); sh->running = 1; sh->stop = 0; sh->paths = 0; sh->viol = 0;
  t0s = now(); solverInit(); loadModule(ll.c_str()); for (auto& f : M.fn) classify(f);
  auto it = M.fnIdx.find(entry); if (it == M.fnIdx.end() || !M.fn[it->second].defined) fatal("no function " + entry);
  State* s = new State; HEAP0 = 16 + M.gl.size(); for (u64 i = 0; i < 16; i++) s->heap.push(nullptr);
  for (auto& g : M.gl) if (g.alias.empty()) { Obj* o = objNew(g.ty->size, 2); for (u64 i = 0; i < g.data.size(); i += PS) { Page* p = pageNew(); memcpy(p->d, &g.data[i], std::min<u64>(PS, g.data.size() - i)); o->pg[i / PS] = p; } o->ro = g.isConst; u64 id = s->heap.push(o); if (id << 32 != g.addr) fatal("global layout"); }
  pushFrame(*s, M.fn[it->second], -1, -1); double tl = now(); work.push_back(s);
  State* c = nullptr;
  while (!work.empty()) { c = work.back(); work.pop_back(); bool kid0 = isChild; try { run(*c); } catch (Killed&) {} if (isChild == kid0) { S.paths++; delete c; } else { /* became a child mid-path: the path belongs to the parent */ delete c; } if (sh->stop) break; maybeShareTop: if (work.size() >= 2) { try { maybeShare(); } catch (Killed&) { goto maybeShareTop; } } }
  report(); --sh->running;
  int bad = 0; for (pid_t k : kids) { int st; waitpid(k, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) bad = 1; }
  if (isChild) { _exit(bad || inconclusive ? 4 : 0); }
  emit("{\"type\":\"end\",\"load_secs\":" + std::to_string(tl - t0s) + ",\"wall\":" + std::to_string(now() - t0s) + ",\"worker_failed\":" + (bad ? "true" : "false") + "}");
  return sh->viol > 0 ? 1 : (bad || inconclusive) ? 4 : 0;
}
