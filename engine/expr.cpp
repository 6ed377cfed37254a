#include "expr.h"
#include <chrono>
#include <unordered_set>
#include <map>
#include <cmath>
#include <unistd.h>

std::vector<VarInfo> g_vars;
static std::map<std::pair<u32,u16>, u32> g_varKey;
SolverStats g_ss;
unsigned g_solverTimeoutMs = 60000;
bool g_useFd = true; double g_slowQuery = 0;

// ---------- interning
struct Key { Op op; u16 w; u32 aux; E a, b, c; u128 k; };
struct KeyHash { size_t operator()(E e) const {
  u64 h = e->op * 0x9E3779B97F4A7C15ull + e->w; auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
  mix(e->aux); mix((u64)e->a); mix((u64)e->b); mix((u64)e->c); mix((u64)e->k); mix((u64)(e->k >> 64)); return h; } };
struct KeyEq { bool operator()(E x, E y) const { return x->op == y->op && x->w == y->w && x->aux == y->aux && x->a == y->a && x->b == y->b && x->c == y->c && x->k == y->k; } };
static std::unordered_set<E, KeyHash, KeyEq> g_tab;
static u32 g_nextId = 1;
size_t exprCount() { return g_tab.size(); }

static Expr* arena() { static Expr* p = nullptr; static size_t left = 0; if (!left) { left = 4096; p = (Expr*)calloc(left, sizeof(Expr)); } left--; return p++; }

// ---------- variable sets
struct VSHash { size_t operator()(const VarSet* s) const { size_t h = 7; for (u32 x : s->v) h = h * 1000003 + x; return h; } };
struct VSEq { bool operator()(const VarSet* a, const VarSet* b) const { return a->v == b->v; } };
static std::unordered_set<const VarSet*, VSHash, VSEq> g_vs;
static const VarSet* internVS(std::vector<u32>&& v) { VarSet t; t.v = std::move(v); auto it = g_vs.find(&t); if (it != g_vs.end()) return *it; auto* n = new VarSet(std::move(t)); g_vs.insert(n); return n; }
static const VarSet* emptyVS() { static const VarSet* e = internVS({}); return e; }
static const VarSet* unionVS(const VarSet* a, const VarSet* b) {
  if (a == b || b->v.empty()) return a; if (a->v.empty()) return b;
  static std::map<std::pair<const VarSet*, const VarSet*>, const VarSet*> cache;
  auto key = std::make_pair(std::min(a, b), std::max(a, b)); auto it = cache.find(key); if (it != cache.end()) return it->second;
  std::vector<u32> r; std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
  return cache[key] = internVS(std::move(r));
}

static E mkRaw(Op op, unsigned w, E a, E b, E c, u32 aux, u128 k) {
  Expr t; memset(&t, 0, sizeof t); t.op = op; t.w = w; t.a = a; t.b = b; t.c = c; t.aux = aux; t.k = k;
  auto it = g_tab.find(&t); if (it != g_tab.end()) return *it;
  Expr* n = arena(); *n = t; n->id = g_nextId++;
  const VarSet* s = emptyVS();
  if (op == VAR) s = internVS({aux}); else { if (a) s = unionVS(s, a->vs); if (b) s = unionVS(s, b->vs); if (c) s = unionVS(s, c->vs); }
  n->vs = s; g_tab.insert(n); return n;
}
E mkConst(unsigned w, u128 v) { return mkRaw(CONST, w, 0, 0, 0, 0, v & mask(w)); }
E mkBool(bool b) { return mkConst(1, b); }
E mkVar(u32 i) { return mkRaw(VAR, g_vars[i].w, 0, 0, 0, i, 0); }
u32 newVarKey(u32 order, u16 w) { auto k = std::make_pair(order, w); auto it = g_varKey.find(k); if (it != g_varKey.end()) return it->second;
  u32 i = g_vars.size(); g_vars.push_back({w, "v" + std::to_string(order) + "_" + std::to_string(w)}); return g_varKey[k] = i; }

u128 foldBin(Op op, unsigned w, u128 x, u128 y, bool& ok) {
  ok = true; u128 m = mask(w); x &= m; y &= m;
  switch (op) {
    case ADD: return (x + y) & m; case SUB: return (x - y) & m; case MUL: return (x * y) & m;
    case UDIV: if (!y) { ok = false; return 0; } return x / y; case UREM: if (!y) { ok = false; return 0; } return x % y;
    case SDIV: { if (!y) { ok = false; return 0; } i128 a = sxt(x, w), b = sxt(y, w); if (b == -1) return (u128)(-a) & m; return (u128)(a / b) & m; }
    case SREM: { if (!y) { ok = false; return 0; } i128 a = sxt(x, w), b = sxt(y, w); if (b == -1) return 0; return (u128)(a % b) & m; }
    case AND: return x & y; case OR: return x | y; case XOR: return x ^ y;
    case SHL: return y >= w ? 0 : (x << (unsigned)y) & m; case LSHR: return y >= w ? 0 : x >> (unsigned)y;
    case ASHR: { unsigned s = y >= w ? w - 1 : (unsigned)y; return (u128)(sxt(x, w) >> s) & m; }
    case EQ: return x == y; case ULT: return x < y; case ULE: return x <= y;
    case SLT: return sxt(x, w) < sxt(y, w); case SLE: return sxt(x, w) <= sxt(y, w);
    default: ok = false; return 0;
  }
}
static bool isCmp(Op op) { return op >= EQ && op <= SLE; }
static bool allOnes(E e) { return isC(e) && e->k == mask(e->w); }
static bool isZero(E e) { return isC(e) && e->k == 0; }

E mkNot(E a) {
  if (isC(a)) return mkBool(!a->k);
  if (a->op == XOR && allOnes(a->b)) return a->a;
  if (a->op == ULT) return mkBin(ULE, a->b, a->a);
  if (a->op == ULE) return mkBin(ULT, a->b, a->a);
  if (a->op == SLT) return mkBin(SLE, a->b, a->a);
  if (a->op == SLE) return mkBin(SLT, a->b, a->a);
  return mkRaw(XOR, 1, a, mkBool(true), 0, 0, 0);
}
E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return mkConst(w, a->k >> lo);
  switch (a->op) {
    case EXTRACT: return mkExtract(a->a, a->aux + lo, w);
    case CONCAT: { unsigned lw = a->b->w;
      if (lo + w <= lw) return mkExtract(a->b, lo, w);
      if (lo >= lw) return mkExtract(a->a, lo - lw, w);
      return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo)); }
    case ZEXT: { unsigned iw = a->a->w; if (lo >= iw) return mkConst(w, 0); if (lo + w <= iw) return mkExtract(a->a, lo, w); return mkZext(mkExtract(a->a, lo, iw - lo), w); }
    case SEXT: { unsigned iw = a->a->w; if (lo + w <= iw) return mkExtract(a->a, lo, w); if (lo == 0) return mkSext(a->a, w); break; }
    case AND: case OR: case XOR: return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    case ADD: case SUB: case MUL: if (lo == 0) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
    case ITE: if (isC(a->b) || isC(a->c)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w)); break;
    default: break;
  }
  return mkRaw(EXTRACT, w, a, 0, 0, lo, 0);
}
E mkConcat(E h, E l) {
  unsigned w = h->w + l->w;
  if (isC(h) && isC(l)) return mkConst(w, (h->k << l->w) | l->k);
  if (isZero(h)) return mkZext(l, w);
  // adjacent extracts of one value
  if (h->op == EXTRACT && l->op == EXTRACT && h->a == l->a && h->aux == l->aux + l->w) return mkExtract(h->a, l->aux, w);
  if (l->op == CONCAT) { E lh = l->a; if (h->op == EXTRACT && lh->op == EXTRACT && h->a == lh->a && h->aux == lh->aux + lh->w) return mkConcat(mkExtract(h->a, lh->aux, h->w + lh->w), l->b);
    if (isC(h) && isC(lh)) return mkConcat(mkConst(h->w + lh->w, (h->k << lh->w) | lh->k), l->b); }
  if (h->op == CONCAT) return mkConcat(h->a, mkConcat(h->b, l));       // right-assoc
  if (h->op == ZEXT) return mkZext(mkConcat(h->a, l), w);
  if (h->op == EXTRACT && h->a == l && h->aux == l->w && false) return h;
  return mkRaw(CONCAT, w, h, l, 0, 0, 0);
}
E mkZext(E a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return mkConst(w, a->k);
  if (a->op == ZEXT) return mkZext(a->a, w);
  if (a->op == ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkZext(a->b, w), mkZext(a->c, w));
  return mkRaw(ZEXT, w, a, 0, 0, 0, 0);
}
E mkSext(E a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return mkConst(w, (u128)sxt(a->k, a->w));
  if (a->op == SEXT) return mkSext(a->a, w);
  if (a->op == ZEXT) return mkZext(a->a, w);
  if (a->op == ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkSext(a->b, w), mkSext(a->c, w));
  return mkRaw(SEXT, w, a, 0, 0, 0, 0);
}
E mkIte(E c, E a, E b) {
  if (isC(c)) return c->k ? a : b;
  if (a == b) return a;
  if (c->op == XOR && allOnes(c->b)) return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (isC(a)) return a->k ? mkBin(OR, c, b) : mkBin(AND, mkNot(c), b);
    if (isC(b)) return b->k ? mkBin(OR, mkNot(c), a) : mkBin(AND, c, a);
  }
  if (a->op == ITE && a->a == c) return mkIte(c, a->b, b);
  if (b->op == ITE && b->a == c) return mkIte(c, a, b->c);
  if (b->op == ITE && b->b == a) return mkIte(mkBin(OR, c, b->a), a, b->c);
  return mkRaw(ITE, a->w, c, a, b, 0, 0);
}
// or of two values whose non-zero parts do not overlap: rebuild as concat
static void segs(E e, std::vector<E>& out) { // most significant first
  if (e->op == CONCAT) { segs(e->a, out); segs(e->b, out); }
  else if (e->op == ZEXT) { out.push_back(mkConst(e->w - e->a->w, 0)); segs(e->a, out); }
  else out.push_back(e);
}
static E orSegs(E a, E b) {
  std::vector<E> x, y; segs(a, x); segs(b, y);
  if (x.size() == 1 && y.size() == 1) return nullptr;
  // cut points from the low end
  std::vector<unsigned> cuts; unsigned p = 0; for (int i = x.size() - 1; i >= 0; i--) { p += x[i]->w; cuts.push_back(p); } p = 0; for (int i = y.size() - 1; i >= 0; i--) { p += y[i]->w; cuts.push_back(p); }
  std::sort(cuts.begin(), cuts.end()); cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
  E r = nullptr; unsigned lo = 0; std::vector<E> parts;
  for (unsigned c : cuts) { E ea = mkExtract(a, lo, c - lo), eb = mkExtract(b, lo, c - lo); E m;
    if (isZero(ea)) m = eb; else if (isZero(eb)) m = ea; else if (isC(ea) && isC(eb)) m = mkConst(c - lo, ea->k | eb->k); else return nullptr; parts.push_back(m); lo = c; }
  for (E m : parts) r = r ? mkConcat(m, r) : m;
  return r;
}
static bool disjointTop(E e, unsigned& zeroHigh) { if (e->op == ZEXT) { zeroHigh = e->w - e->a->w; return true; } if (isC(e)) { unsigned n = 0; while (n < e->w && !((e->k >> (e->w - 1 - n)) & 1)) n++; zeroHigh = n; return true; } return false; }

E mkBin(Op op, E a, E b) {
  unsigned w = a->w;
  if (isC(a) && isC(b)) { bool ok; u128 r = foldBin(op, w, a->k, b->k, ok); if (ok) return mkConst(isCmp(op) ? 1 : w, r); }
  // canonicalise constants to the right for commutative ops
  if ((op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ) && isC(a)) std::swap(a, b);
  if ((op == AND || op == OR || op == XOR || op == EQ || op == ADD || op == MUL) && !isC(b) && a->id > b->id) std::swap(a, b);
  // push through ite with constant arms
  if (isC(b) && a->op == ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
  if (isC(a) && b->op == ITE && isC(b->b) && isC(b->c)) return mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->c));
  switch (op) {
    case ADD: if (isZero(b)) return a;
      if (isC(b) && a->op == ADD && isC(a->b)) return mkBin(ADD, a->a, mkConst(w, a->b->k + b->k));
      if (w == 1) return mkBin(XOR, a, b); break;
    case SUB: if (isZero(b)) return a; if (a == b) return mkConst(w, 0); if (isC(b)) return mkBin(ADD, a, mkConst(w, -b->k)); if (w == 1) return mkBin(XOR, a, b); break;
    case MUL: if (isZero(b)) return b; if (isC(b) && b->k == 1) return a;
      if (isC(b) && (b->k & (b->k - 1)) == 0) { unsigned s = 0; while (!((b->k >> s) & 1)) s++; return mkBin(SHL, a, mkConst(w, s)); } break;
    case UDIV: if (isC(b) && b->k == 1) return a; if (isC(b) && b->k && (b->k & (b->k - 1)) == 0) { unsigned s = 0; while (!((b->k >> s) & 1)) s++; return mkBin(LSHR, a, mkConst(w, s)); } break;
    case UREM: if (isC(b) && b->k && (b->k & (b->k - 1)) == 0) return mkBin(AND, a, mkConst(w, b->k - 1)); break;
    case AND: if (isZero(b)) return b; if (allOnes(b)) return a; if (a == b) return a;
      if (w == 1) { if (mkNot(a) == b) return mkBool(false); if (a->op == AND && (a->a == b || a->b == b)) return a; if (b->op == AND && (b->a == a || b->b == a)) return b; }
      if (isC(b)) {
        if (a->op == AND && isC(a->b)) return mkBin(AND, a->a, mkConst(w, a->b->k & b->k));
        // split mask into runs: zero runs become constants
        u128 m = b->k; int runs = 0; for (unsigned i = 0; i < w; i++) { bool c1 = (m >> i) & 1, p1 = i ? (m >> (i - 1)) & 1 : !c1; if (c1 != p1) runs++; }
        if (runs <= 4 && w > 1) { E r = nullptr; unsigned i = 0; while (i < w) { bool bit = (m >> i) & 1; unsigned j = i; while (j < w && (((m >> j) & 1) != 0) == bit) j++; E p = bit ? mkExtract(a, i, j - i) : mkConst(j - i, 0); r = r ? mkConcat(p, r) : p; i = j; } return r; }
      } break;
    case OR: if (isZero(b)) return a; if (allOnes(b)) return b; if (a == b) return a;
      if (w == 1) { if (mkNot(a) == b) return mkBool(true); if (a->op == OR && (a->a == b || a->b == b)) return a; if (b->op == OR && (b->a == a || b->b == a)) return b; }
      else { E r = orSegs(a, b); if (r) return r; }
      if (isC(b) && a->op == OR && isC(a->b)) return mkBin(OR, a->a, mkConst(w, a->b->k | b->k));
      break;
    case XOR: if (isZero(b)) return a; if (a == b) return mkConst(w, 0); if (w == 1 && allOnes(b)) return mkNot(a);
      if (isC(b) && a->op == XOR && isC(a->b)) return mkBin(XOR, a->a, mkConst(w, a->b->k ^ b->k)); break;
    case SHL: if (isC(b)) { if (b->k == 0) return a; if (b->k >= w) return mkConst(w, 0); unsigned s = b->k; return mkConcat(mkExtract(a, 0, w - s), mkConst(s, 0)); } break;
    case LSHR: if (isC(b)) { if (b->k == 0) return a; if (b->k >= w) return mkConst(w, 0); unsigned s = b->k; return mkZext(mkExtract(a, s, w - s), w); } break;
    case ASHR: if (isC(b)) { if (b->k == 0) return a; unsigned s = b->k >= w ? w - 1 : (unsigned)b->k; return mkSext(mkExtract(a, s, w - s), w); } break;
    case EQ:
      if (a == b) return mkBool(true);
      if (w == 1) { if (isC(b)) return b->k ? a : mkNot(a); return mkNot(mkBin(XOR, a, b)); }
      if (isC(b)) {
        if (a->op == ZEXT) { if (b->k >> a->a->w) return mkBool(false); return mkBin(EQ, a->a, mkConst(a->a->w, b->k)); }
        if (a->op == SEXT) { u128 t = b->k & mask(a->a->w); if (((u128)sxt(t, a->a->w) & mask(w)) != b->k) return mkBool(false); return mkBin(EQ, a->a, mkConst(a->a->w, t)); }
        if (a->op == CONCAT) { unsigned lw = a->b->w; return mkBin(AND, mkBin(EQ, a->a, mkConst(a->a->w, b->k >> lw)), mkBin(EQ, a->b, mkConst(lw, b->k))); }
        if (a->op == ADD && isC(a->b)) return mkBin(EQ, a->a, mkConst(w, b->k - a->b->k));
        if (a->op == XOR && isC(a->b)) return mkBin(EQ, a->a, mkConst(w, b->k ^ a->b->k));
        if (a->op == ITE && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkBin(EQ, a->b, b), mkBin(EQ, a->c, b));
      } else {
        if (a->op == ZEXT && b->op == ZEXT) { unsigned m = std::max(a->a->w, b->a->w); return mkBin(EQ, mkZext(a->a, m), mkZext(b->a, m)); }
        if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return mkBin(EQ, a->a, b->a);
        if (a->op == CONCAT && b->op == CONCAT && a->b->w == b->b->w) return mkBin(AND, mkBin(EQ, a->a, b->a), mkBin(EQ, a->b, b->b));
        if (a->op == ADD && b->op == ADD && isC(a->b) && isC(b->b) ) { if (a->b->k == b->b->k) return mkBin(EQ, a->a, b->a); }
        if (a->op == ADD && isC(a->b) && a->a == b) return mkBool(a->b->k == 0);
        if (b->op == ADD && isC(b->b) && b->a == a) return mkBool(b->b->k == 0);
      } break;
    case ULT:
      if (a == b) return mkBool(false); if (isZero(b)) return mkBool(false); if (allOnes(a)) return mkBool(false);
      if (w == 1) return mkBin(AND, mkNot(a), b);
      if (isC(b) && b->k == 1) return mkBin(EQ, a, mkConst(w, 0));
      if (isZero(a)) return mkNot(mkBin(EQ, b, a));
      if (a->op == ZEXT && isC(b)) { if (b->k >> a->a->w) return mkBool(true); return mkBin(ULT, a->a, mkConst(a->a->w, b->k)); }
      if (b->op == ZEXT && isC(a)) { if (a->k >> b->a->w) return mkBool(false); return mkBin(ULT, mkConst(b->a->w, a->k), b->a); }
      if (a->op == ZEXT && b->op == ZEXT) { unsigned m = std::max(a->a->w, b->a->w); return mkBin(ULT, mkZext(a->a, m), mkZext(b->a, m)); }
      if (isC(b) && a->op == ITE && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
      break;
    case ULE:
      if (a == b) return mkBool(true); if (isZero(a)) return mkBool(true); if (allOnes(b)) return mkBool(true);
      if (w == 1) return mkBin(OR, mkNot(a), b);
      if (isC(b)) return mkBin(ULT, a, mkConst(w, b->k + 1));
      if (isC(a)) return mkBin(ULT, mkConst(w, a->k - 1), b);
      if (a->op == ZEXT && b->op == ZEXT) { unsigned m = std::max(a->a->w, b->a->w); return mkBin(ULE, mkZext(a->a, m), mkZext(b->a, m)); }
      break;
    case SLT:
      if (a == b) return mkBool(false);
      if (w == 1) return mkBin(AND, a, mkNot(b));
      if (a->op == ZEXT && b->op == ZEXT) return mkBin(ULT, a, b);
      if (a->op == ZEXT && isC(b)) { if (sxt(b->k, w) < 0) return mkBool(false); return mkBin(ULT, a, b); }
      if (b->op == ZEXT && isC(a)) { if (sxt(a->k, w) < 0) return mkBool(true); return mkBin(ULT, a, b); }
      if (isZero(b)) return mkExtract(a, w - 1, 1);
      if (isC(a) && allOnes(a)) return mkNot(mkExtract(b, w - 1, 1));
      break;
    case SLE:
      if (a == b) return mkBool(true);
      if (w == 1) return mkBin(OR, a, mkNot(b)) ;
      if (isC(b) && b->k == (mask(w) >> 1)) return mkBool(true);
      if (isC(b)) return mkBin(SLT, a, mkConst(w, b->k + 1));
      if (isC(a) && a->k == ((u128)1 << (w - 1))) return mkBool(true);
      if (isC(a)) return mkBin(SLT, mkConst(w, a->k - 1), b);
      if (a->op == ZEXT && b->op == ZEXT) return mkBin(ULE, a, b);
      break;
    default: break;
  }
  return mkRaw(op, isCmp(op) ? 1 : w, a, b, 0, 0, 0);
}
// predicate: bit0 = eq, bit1 = gt, bit2 = lt, bit3 = unordered
bool fcmpConc(unsigned pred, unsigned w, u64 a, u64 b) {
  double x, y; if (w == 32) { float f; u32 t = a; memcpy(&f, &t, 4); x = f; t = b; memcpy(&f, &t, 4); y = f; } else { memcpy(&x, &a, 8); memcpy(&y, &b, 8); }
  if (std::isnan(x) || std::isnan(y)) return pred & 8; if (x == y) return pred & 1; if (x > y) return pred & 2; return pred & 4;
}
E mkFcmp(unsigned pred, E a, E b) { if (isC(a) && isC(b)) return mkBool(fcmpConc(pred, a->w, a->k, b->k)); return mkRaw(FCMP, 1, a, b, 0, pred, 0); }

// ---------- evaluation
static u32 g_stamp = 1;
void newEval() { g_stamp++; }
u128 evalCached(E e, const Model& m) {
  if (e->op == CONST) return e->k;
  if (e->stamp == g_stamp) return e->val;
  u128 r = 0; bool ok;
  switch (e->op) {
    case VAR: r = e->aux < m.size() ? (u128)m[e->aux] & mask(e->w) : 0; break;
    case ITE: r = evalCached(e->a, m) ? evalCached(e->b, m) : evalCached(e->c, m); break;
    case CONCAT: r = (evalCached(e->a, m) << e->b->w) | evalCached(e->b, m); break;
    case EXTRACT: r = (evalCached(e->a, m) >> e->aux) & mask(e->w); break;
    case ZEXT: r = evalCached(e->a, m); break;
    case SEXT: r = (u128)sxt(evalCached(e->a, m), e->a->w) & mask(e->w); break;
    case FCMP: r = fcmpConc(e->aux, e->a->w, evalCached(e->a, m), evalCached(e->b, m)); break;
    case UDIV: { u128 y = evalCached(e->b, m); u128 x = evalCached(e->a, m); r = y ? x / y : mask(e->w); break; }
    case UREM: { u128 y = evalCached(e->b, m); u128 x = evalCached(e->a, m); r = y ? x % y : x; break; }
    case SDIV: { u128 y = evalCached(e->b, m); u128 x = evalCached(e->a, m); if (!y) r = sxt(x, e->w) < 0 ? 1 : mask(e->w); else r = foldBin(SDIV, e->w, x, y, ok); break; }
    case SREM: { u128 y = evalCached(e->b, m); u128 x = evalCached(e->a, m); if (!y) r = x; else r = foldBin(SREM, e->w, x, y, ok); break; }
    default: r = foldBin(e->op, e->a->w, evalCached(e->a, m), evalCached(e->b, m), ok);
  }
  e->stamp = g_stamp; e->val = r; return r;
}
u128 evalE(E e, const Model& m) { newEval(); return evalCached(e, m); }

std::string exprStr(E e, int d) {
  static const char* n[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext","fcmp"};
  if (e->op == CONST) { char b[40]; snprintf(b, 40, "%llu:%u", (unsigned long long)e->k, e->w); return b; }
  if (e->op == VAR) return g_vars[e->aux].name;
  if (d == 0) return "...";
  std::string s = std::string("(") + n[e->op]; if (e->op == EXTRACT) s += "[" + std::to_string(e->aux) + "+" + std::to_string(e->w) + "]"; if (e->op == ZEXT || e->op == SEXT) s += std::to_string(e->w);
  if (e->a) s += " " + exprStr(e->a, d - 1); if (e->b) s += " " + exprStr(e->b, d - 1); if (e->c) s += " " + exprStr(e->c, d - 1); return s + ")";
}

// ---------- z3
static Z3_context ctx; static Z3_solver sol, sol2;
static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(3); }
void solverInit() {
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true"); ctx = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(ctx, z3err);
  auto lim = [&](Z3_solver s, unsigned rl) { Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), rl); Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p); };
  sol = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")); Z3_solver_inc_ref(ctx, sol); lim(sol, 200000000);
  sol2 = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, sol2); lim(sol2, 400000000);
}
static Z3_ast keep(Z3_ast a) { return a; }
static Z3_ast num(u128 k, unsigned w) { char buf[48]; int i = 47; buf[i] = 0; if (!k) buf[--i] = '0'; while (k) { buf[--i] = '0' + (int)(k % 10); k /= 10; } return Z3_mk_numeral(ctx, buf + i, Z3_mk_bv_sort(ctx, w)); }
static Z3_ast toZ(E e);
static Z3_ast toBV(E e) { Z3_ast z = toZ(e); if (e->w == 1) return Z3_mk_ite(ctx, z, num(1, 1), num(0, 1)); return z; }
static bool boolSort(E e) { return e->w == 1; }
static Z3_ast toZ(E e) {
  if (e->z) return e->z;
  Z3_ast r;
  switch (e->op) {
    case CONST: r = e->w == 1 ? (e->k ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : num(e->k, e->w); break;
    case VAR: { Z3_symbol s = Z3_mk_string_symbol(ctx, g_vars[e->aux].name.c_str()); r = Z3_mk_const(ctx, s, e->w == 1 ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, e->w)); break; }
    case EQ: r = Z3_mk_eq(ctx, toZ(e->a), toZ(e->b)); break;
    case ULT: r = Z3_mk_bvult(ctx, toBV(e->a), toBV(e->b)); break; case ULE: r = Z3_mk_bvule(ctx, toBV(e->a), toBV(e->b)); break;
    case SLT: r = Z3_mk_bvslt(ctx, toBV(e->a), toBV(e->b)); break; case SLE: r = Z3_mk_bvsle(ctx, toBV(e->a), toBV(e->b)); break;
    case ITE: r = Z3_mk_ite(ctx, toZ(e->a), toZ(e->b), toZ(e->c)); break;
    case CONCAT: r = Z3_mk_concat(ctx, toBV(e->a), toBV(e->b)); break;
    case EXTRACT: { Z3_ast x = Z3_mk_extract(ctx, e->aux + e->w - 1, e->aux, toBV(e->a)); r = e->w == 1 ? Z3_mk_eq(ctx, x, num(1, 1)) : x; break; }
    case ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, toBV(e->a)); break;
    case SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, toBV(e->a)); break;
    case FCMP: { // IEEE 754 comparison written out over the bits
      unsigned w = e->a->w; Z3_sort s = Z3_mk_bv_sort(ctx, w); Z3_ast x = toBV(e->a), y = toBV(e->b); u64 inf = w == 32 ? 0x7f800000ull : 0x7ff0000000000000ull, ab = w == 32 ? 0x7fffffffull : 0x7fffffffffffffffull;
      Z3_ast A = Z3_mk_unsigned_int64(ctx, ab, s), I = Z3_mk_unsigned_int64(ctx, inf, s), Z = Z3_mk_unsigned_int64(ctx, 0, s);
      Z3_ast nq[2] = {Z3_mk_bvugt(ctx, Z3_mk_bvand(ctx, x, A), I), Z3_mk_bvugt(ctx, Z3_mk_bvand(ctx, y, A), I)}; Z3_ast nan = Z3_mk_or(ctx, 2, nq), ord = Z3_mk_not(ctx, nan);
      Z3_ast zz = Z3_mk_eq(ctx, Z3_mk_bvand(ctx, Z3_mk_bvor(ctx, x, y), A), Z); Z3_ast eqq[2] = {zz, Z3_mk_eq(ctx, x, y)}; Z3_ast same = Z3_mk_or(ctx, 2, eqq), sx = Z3_mk_bvslt(ctx, x, Z), sy = Z3_mk_bvslt(ctx, y, Z);
      Z3_ast less = Z3_mk_ite(ctx, sx, Z3_mk_ite(ctx, sy, Z3_mk_bvugt(ctx, x, y), Z3_mk_true(ctx)), Z3_mk_ite(ctx, sy, Z3_mk_false(ctx), Z3_mk_bvult(ctx, x, y)));
      Z3_ast parts[4]; int n = 0; if (e->aux & 1) { Z3_ast q[2] = {ord, same}; parts[n++] = Z3_mk_and(ctx, 2, q); } if (e->aux & 2) { Z3_ast q[3] = {ord, Z3_mk_not(ctx, same), Z3_mk_not(ctx, less)}; parts[n++] = Z3_mk_and(ctx, 3, q); } if (e->aux & 4) { Z3_ast q[3] = {ord, Z3_mk_not(ctx, same), less}; parts[n++] = Z3_mk_and(ctx, 3, q); }
      if (e->aux & 8) parts[n++] = nan; r = n ? Z3_mk_or(ctx, n, parts) : Z3_mk_false(ctx); break; }
    default:
      if (boolSort(e)) { Z3_ast q[2] = {toZ(e->a), toZ(e->b)}; if (e->op == AND) r = Z3_mk_and(ctx, 2, q); else if (e->op == OR) r = Z3_mk_or(ctx, 2, q); else if (e->op == XOR) r = isC(e->b) ? (e->b->k ? Z3_mk_not(ctx, q[0]) : q[0]) : Z3_mk_xor(ctx, q[0], q[1]); else { fprintf(stderr, "bool op %d\n", e->op); _exit(3); } break; }
      { Z3_ast x = toBV(e->a), y = toBV(e->b); switch (e->op) {
        case ADD: r = Z3_mk_bvadd(ctx, x, y); break; case SUB: r = Z3_mk_bvsub(ctx, x, y); break; case MUL: r = Z3_mk_bvmul(ctx, x, y); break;
        case UDIV: r = Z3_mk_bvudiv(ctx, x, y); break; case SDIV: r = Z3_mk_bvsdiv(ctx, x, y); break; case UREM: r = Z3_mk_bvurem(ctx, x, y); break; case SREM: r = Z3_mk_bvsrem(ctx, x, y); break;
        case AND: r = Z3_mk_bvand(ctx, x, y); break; case OR: r = Z3_mk_bvor(ctx, x, y); break; case XOR: r = Z3_mk_bvxor(ctx, x, y); break;
        case SHL: r = Z3_mk_bvshl(ctx, x, y); break; case LSHR: r = Z3_mk_bvlshr(ctx, x, y); break; case ASHR: r = Z3_mk_bvashr(ctx, x, y); break;
        default: fprintf(stderr, "bad op\n"); _exit(3); } }
  }
  return e->z = keep(r);
}
static void readModel(Z3_solver s, const std::vector<u32>& vars, Model& m) {
  Z3_model mod = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, mod);
  for (u32 v : vars) { Z3_ast out; if (m.size() <= v) m.resize(v + 1, 0);
    if (Z3_model_eval(ctx, mod, toZ(mkVar(v)), true, &out)) {
      if (g_vars[v].w == 1) m[v] = Z3_get_bool_value(ctx, out) == Z3_L_TRUE; else { uint64_t x = 0; if (!Z3_get_numeral_uint64(ctx, out, &x)) { fprintf(stderr, "z3 model\n"); _exit(3); } m[v] = x; }
 } }
  Z3_model_dec_ref(ctx, mod);
}
// truth table over a single 8-bit variable
static u64* truthTable(E e, u32 v) {
  if (e->tt) return e->tt;
  u64* t = (u64*)calloc(4, 8); Model m(v + 1, 0);
  for (unsigned i = 0; i < 256; i++) { m[v] = i; newEval(); if (evalCached(e, m)) t[i >> 6] |= 1ull << (i & 63); }
  return e->tt = t;
}
struct CacheEnt { int res; std::vector<std::pair<u32, u64>> mv; };
static std::unordered_map<std::string, CacheEnt> g_cache;

// the part of the path condition connected to cond; inputs the path condition proper pins to a constant do not connect
static void slice(const std::vector<E>& pc, E cond, std::vector<E>& rel, std::vector<u32>& vars, const std::vector<E>* pinned = nullptr) {
  vars = cond->vs->v; std::vector<char> used(pc.size(), 0); std::vector<char> inv(g_vars.size(), 0), fx(g_vars.size(), 0); for (u32 v : vars) inv[v] = 1;
  for (E c : pinned ? *pinned : pc) if (c->op == EQ && c->a->op == VAR && isC(c->b)) fx[c->a->aux] = 1;
  bool ch = true; while (ch) { ch = false; for (size_t i = 0; i < pc.size(); i++) if (!used[i]) { bool hit = false; E c = pc[i]; if (c->vs->v.size() == 1) hit = inv[c->vs->v[0]]; else for (u32 v : c->vs->v) if (inv[v] && !fx[v]) { hit = true; break; }
      if (hit) { used[i] = 1; rel.push_back(c); for (u32 v : c->vs->v) if (!inv[v]) { inv[v] = 1; vars.push_back(v); ch = true; } } } }
}
// all values of e under pc; 0 ok, 1 more than maxN, -1 unknown
int enumerate(const std::vector<E>& pc, E e, size_t maxN, const Model& base, std::vector<std::pair<u64, Model>>& out) {
  std::vector<E> rel; std::vector<u32> vars; slice(pc, e, rel, vars);
  auto add = [&](const Model& m) { newEval(); u64 v = (u64)evalCached(e, m); out.push_back({v, m}); return v; };
  if (g_useFd && vars.size() == 1 && g_vars[vars[0]].w == 8) {
    u32 v = vars[0]; u64 d[4] = {~0ull, ~0ull, ~0ull, ~0ull}; for (E c : rel) { u64* t = truthTable(c, v); for (int i = 0; i < 4; i++) d[i] &= t[i]; }
    g_ss.fd++; std::unordered_set<u64> seen; u64 first = add(base); seen.insert(first); Model m = base; if (m.size() <= v) m.resize(v + 1, 0);
    for (unsigned i = 0; i < 256; i++) if (d[i >> 6] >> (i & 63) & 1) { m[v] = i; newEval(); u64 x = (u64)evalCached(e, m); if (seen.insert(x).second) { out.push_back({x, m}); if (out.size() > maxN) return 1; } }
    return 0;
  }
  auto t0 = std::chrono::steady_clock::now(); Z3_solver_push(ctx, sol); for (E c : rel) Z3_solver_assert(ctx, sol, toZ(c)); int ret = 0; u64 v = add(base);
  for (;;) { E ne = mkNot(mkBin(EQ, e, mkConst(e->w, v))); if (isC(ne) && !ne->k) break; Z3_solver_assert(ctx, sol, toZ(ne)); Z3_lbool r = Z3_solver_check(ctx, sol); g_ss.queries++;
    if (r == Z3_L_FALSE) { g_ss.unsat++; break; } if (r != Z3_L_TRUE) { ret = -1; break; } g_ss.sat++; Model m = base; readModel(sol, vars, m); v = add(m); if (out.size() > maxN) { ret = 1; break; } }
  Z3_solver_pop(ctx, sol, 1); double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); g_ss.secs += dt; return ret;
}
static int z3Group(const std::vector<E>& cs, const std::vector<u32>& vars, Model& m) {
  std::vector<u32> ids; for (E c : cs) ids.push_back(c->id); std::sort(ids.begin(), ids.end()); ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
  std::string key((char*)ids.data(), ids.size() * 4);
  auto it = g_cache.find(key); if (it != g_cache.end()) { g_ss.cacheHits++; if (it->second.res == 1) for (auto& p : it->second.mv) { if (m.size() <= p.first) m.resize(p.first + 1, 0); m[p.first] = p.second; } return it->second.res; }
  auto t0 = std::chrono::steady_clock::now(); int res = -1;
  for (int round = 0; round < 2 && res < 0; round++) {
    Z3_solver s = round ? sol2 : sol; Z3_solver_push(ctx, s); for (E c : cs) Z3_solver_assert(ctx, s, toZ(c));
    Z3_lbool r = Z3_solver_check(ctx, s); res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1; if (res == 1) readModel(s, vars, m); Z3_solver_pop(ctx, s, 1);
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); g_ss.secs += dt; g_ss.maxSecs = std::max(g_ss.maxSecs, dt); g_ss.queries++; if (res == 1) g_ss.sat++; else if (res == 0) g_ss.unsat++;
  if (g_slowQuery > 0 && dt > g_slowQuery) { fprintf(stderr, "slow query %.2fs res %d, %zu constraints %zu vars\n", dt, res, cs.size(), vars.size()); for (E c : cs) fprintf(stderr, "   %s\n", exprStr(c, 7).substr(0, 400).c_str()); }
  if (res == 1) { newEval(); bool ok = true; for (E c : cs) ok = ok && evalCached(c, m); if (!ok) { fprintf(stderr, "model does not satisfy the query under the evaluator\n"); _exit(3); } }
  CacheEnt ce; ce.res = res; if (res == 1) for (u32 v : vars) ce.mv.push_back({v, m[v]}); if (g_cache.size() < 2000000) g_cache.emplace(std::move(key), std::move(ce));
  return res;
}
// finite-domain decision for a group over a few 8-bit variables; -2 = not applicable
static int fdGroup(const std::vector<E>& cs, const std::vector<u32>& vars, Model& m) {
  if (vars.empty() || vars.size() > 12) return -2; for (u32 v : vars) if (g_vars[v].w != 8) return -2;
  std::vector<std::vector<u8>> dom(vars.size()); u64 prod = 1; std::vector<E> multi;
  for (size_t k = 0; k < vars.size(); k++) { u64 d[4] = {~0ull, ~0ull, ~0ull, ~0ull};
    for (E c : cs) if (c->vs->v.size() == 1 && c->vs->v[0] == vars[k]) { u64* t = truthTable(c, vars[k]); for (int i = 0; i < 4; i++) d[i] &= t[i]; }
    for (unsigned i = 0; i < 256; i++) if (d[i >> 6] >> (i & 63) & 1) dom[k].push_back(i); prod *= dom[k].size(); if (!prod) { g_ss.fd++; return 0; } }
  for (E c : cs) if (c->vs->v.size() > 1) multi.push_back(c);
  u32 mx = *std::max_element(vars.begin(), vars.end()); if (m.size() <= mx) m.resize(mx + 1, 0);
  if (multi.empty()) { g_ss.fd++; for (size_t k = 0; k < vars.size(); k++) { bool in = false; for (u8 x : dom[k]) if (x == m[vars[k]]) in = true; if (!in) m[vars[k]] = dom[k][0]; } return 1; }
  Model t = m; u64 lim = prod <= 1024 ? prod : 48; 
  for (u64 n = 0; n < lim; n++) { u64 q = prod <= 1024 ? n : (n * 2654435761ull + n / 7) % prod; for (size_t k = 0; k < vars.size(); k++) { t[vars[k]] = dom[k][q % dom[k].size()]; q /= dom[k].size(); }
    newEval(); bool ok = true; for (E c : multi) if (!evalCached(c, t)) { ok = false; break; } if (ok) { m = t; g_ss.fd++; return 1; } }
  if (prod <= 1024) { g_ss.fd++; return 0; } return -2;
}
static void conj(E e, std::vector<E>& out) { if (e->op == AND && e->w == 1) { conj(e->a, out); conj(e->b, out); } else out.push_back(e); }
int solve(const std::vector<E>& pc, E cond, Model& m, bool forceZ3) {
  if (isC(cond)) return cond->k ? 1 : 0;
  if (!forceZ3 && g_useFd) { // disjunctions: decide each disjunct on its own
    E x = nullptr, y = nullptr; if (cond->op == OR && cond->w == 1) { x = cond->a; y = cond->b; } else if (cond->op == XOR && allOnes(cond->b) && cond->a->op == AND) { x = mkNot(cond->a->a); y = mkNot(cond->a->b); }
    if (x) { int r = solve(pc, x, m, false); if (r == 1) return 1; int q = solve(pc, y, m, false); if (q == 1) return 1; return r < 0 || q < 0 ? -1 : 0; } }
  std::vector<E> cj; conj(cond, cj); std::vector<E> rel; std::vector<u32> vars;
  if (forceZ3 || !g_useFd) { slice(pc, cond, rel, vars); for (E c : cj) rel.push_back(c); return z3Group(rel, vars, m); }
  std::vector<char> done(cj.size(), 0); Model t = m;
  for (size_t i = 0; i < cj.size(); i++) if (!done[i]) {
    // connected component of conjunct i over the remaining conjuncts and the path condition
    std::vector<E> pool(pc); for (size_t j = 0; j < cj.size(); j++) if (j != i && !done[j]) pool.push_back(cj[j]);
    rel.clear(); vars.clear(); slice(pool, cj[i], rel, vars, &pc); rel.push_back(cj[i]); for (size_t j = 0; j < cj.size(); j++) if (!done[j] && std::find(rel.begin(), rel.end(), cj[j]) != rel.end()) done[j] = 1;
    int r = fdGroup(rel, vars, t); if (r == -2) r = z3Group(rel, vars, t); if (r != 1) return r; }
  m = t; return 1;
}
void dumpSmt(const std::vector<E>& cs, FILE* f) { for (E c : cs) fprintf(f, "(assert %s)\n", Z3_ast_to_string(ctx, toZ(c))); }
