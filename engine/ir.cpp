#include "ir.h"
#include <fstream>
#include <sstream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
Module M;
static std::vector<std::pair<const char*, const char*>> L; // lines
static std::map<std::string, Type*> named;
[[noreturn]] static void die(const std::string& s) { fprintf(stderr, "IR: %s\n", s.c_str()); _exit(3); }

static Type* tInt(unsigned b) { static std::map<unsigned, Type*> c; auto& t = c[b]; if (!t) { t = new Type; t->k = Type::INT; t->bits = b; t->size = (b + 7) / 8; if (t->size == 3) t->size = 4; else if (t->size > 4 && t->size < 8) t->size = 8; else if (t->size > 8 && t->size < 16) t->size = 16; t->align = std::min<u64>(t->size, 16); } return t; }
static Type* tSimple(Type::K k) { static std::map<int, Type*> c; auto& t = c[k]; if (!t) { t = new Type; t->k = k; if (k == Type::PTR) { t->bits = 64; t->size = t->align = 8; } else t->nleaf = 0; } return t; }
static Type* tFlt(unsigned b) { static std::map<unsigned, Type*> c; auto& t = c[b]; if (!t) { t = new Type; t->k = Type::FLT; t->bits = b; t->size = t->align = b / 8; } return t; }
static std::map<std::string, Type*> aggCache;
static std::string tstr(Type* t) { char b[32]; snprintf(b, 32, "%p", (void*)t); return b; }
static Type* tArr(u64 n, Type* e) { auto& t = aggCache["a" + std::to_string(n) + tstr(e)]; if (!t) { t = new Type; t->k = Type::ARR; t->n = n; t->el = e; t->size = n * e->size; t->align = e->align; t->nleaf = n * e->nleaf; } return t; }
static Type* tVec(u64 n, Type* e) { auto& t = aggCache["v" + std::to_string(n) + tstr(e)]; if (!t) { t = new Type; t->k = Type::VEC; t->n = n; t->el = e; t->size = (n * e->bits + 7) / 8; t->align = t->size ? t->size : 1; t->nleaf = n; } return t; }
static Type* tStruct(const std::vector<Type*>& f, bool packed) { std::string k = packed ? "p" : "s"; for (auto* x : f) k += tstr(x); auto& t = aggCache[k]; if (!t) { t = new Type; t->k = Type::STRUCT; t->f = f; t->packed = packed; u64 o = 0, al = 1; unsigned nl = 0; for (auto* x : f) { u64 a = packed ? 1 : x->align; o = (o + a - 1) / a * a; t->off.push_back(o); o += x->size; al = std::max(al, a); nl += x->nleaf; } t->size = (o + al - 1) / al * al; t->align = al; t->nleaf = nl; } return t; }
static void collect(Type* t, u64 o, std::vector<Leaf>& v) {
  switch (t->k) { case Type::INT: case Type::PTR: case Type::FLT: v.push_back({(u16)t->bits, o}); break;
    case Type::ARR: for (u64 i = 0; i < t->n; i++) collect(t->el, o + i * t->el->size, v); break;
    case Type::VEC: for (u64 i = 0; i < t->n; i++) v.push_back({(u16)t->el->bits, o + (t->el->bits >= 8 ? i * (t->el->bits / 8) : i)}); break;
    case Type::STRUCT: for (size_t i = 0; i < t->f.size(); i++) collect(t->f[i], o + t->off[i], v); break; default: break; } }
const std::vector<Leaf>& leavesOf(Type* t) { static std::unordered_map<Type*, std::vector<Leaf>> c; auto it = c.find(t); if (it != c.end()) return it->second; std::vector<Leaf> v; collect(t, 0, v); return c[t] = v; }

struct P { // cursor over text
  const char *p, *e; Func* f = nullptr; std::unordered_map<std::string, int>* slots = nullptr; std::vector<Type*>* slotTy = nullptr;
  void ws() { while (p < e && (*p == ' ' || *p == '\t' || *p == '\n')) p++; }
  bool eof() { ws(); return p >= e; }
  char pk() { ws(); return p < e ? *p : 0; }
  bool eat(char c) { if (pk() == c) { p++; return true; } return false; }
  void need(char c) { if (!eat(c)) fail(std::string("expected ") + c); }
  [[noreturn]] void fail(const std::string& m) { die(m + " near: " + std::string(p, std::min<size_t>(e - p, 120)) + (f ? " in " + f->name : "")); }
  static bool idc(char c) { return isalnum((u8)c) || c == '_' || c == '.' || c == '$' || c == '-'; }
  std::string word() { ws(); const char* s = p; while (p < e && (isalnum((u8)*p) || *p == '_' || *p == '.')) p++; return std::string(s, p); }
  std::string peekWord() { const char* s = p; std::string w = word(); const char* q = p; p = s; (void)q; ws(); return w; }
  bool kw(const char* k) { ws(); size_t n = strlen(k); if ((size_t)(e - p) >= n && !memcmp(p, k, n) && (p + n == e || !(isalnum((u8)p[n]) || p[n] == '_' || p[n] == '.'))) { p += n; return true; } return false; }
  std::string name() { // after sigil
    if (p < e && *p == '"') { const char* s = ++p; while (p < e && *p != '"') p++; std::string r(s, p); p++; return r; }
    const char* s = p; while (p < e && idc(*p)) p++; return std::string(s, p); }
  void skipParens() { need('('); int d = 1; while (p < e && d) { if (*p == '(') d++; else if (*p == ')') d--; else if (*p == '"') { p++; while (p < e && *p != '"') p++; } p++; } }
  Type* type() {
    ws(); Type* t = nullptr;
    if (*p == 'i' && p + 1 < e && isdigit((u8)p[1])) { p++; t = tInt(strtoul(p, (char**)&p, 10)); }
    else if (*p == '[') { p++; u64 n = num(); if (!kw("x")) fail("x"); Type* el = type(); need(']'); t = tArr(n, el); }
    else if (*p == '<') { p++; if (pk() == '{') { p++; auto f = tlist('}'); need('>'); t = tStruct(f, true); } else { u64 n = num(); if (!kw("x")) fail("x"); Type* el = type(); need('>'); t = tVec(n, el); } }
    else if (*p == '{') { p++; t = tStruct(tlist('}'), false); }
    else if (*p == '%') { p++; std::string n = name(); auto it = named.find(n); if (it == named.end()) fail("named type " + n); t = it->second; }
    else { std::string w = word();
      if (w == "ptr") { t = tSimple(Type::PTR); ws(); if (kw("addrspace")) skipParens(); } else if (w == "void") t = tSimple(Type::VOID); else if (w == "float") t = tFlt(32); else if (w == "double") t = tFlt(64); else if (w == "half") t = tFlt(16); else if (w == "x86_fp80") t = tFlt(80); else if (w == "fp128") t = tFlt(128); else if (w == "bfloat") t = tFlt(16);
      else if (w == "label") t = tSimple(Type::LABEL); else if (w == "metadata" || w == "token") t = tSimple(Type::META); else if (w == "opaque") t = tSimple(Type::OPAQUE); else fail("type '" + w + "'"); }
    return t; }
  std::vector<Type*> tlist(char close) { std::vector<Type*> f; if (eat(close)) return f; do f.push_back(type()); while (eat(',')); need(close); return f; }
  u64 num() { ws(); return strtoull(p, (char**)&p, 10); }
  void attrs() { // skip parameter attributes
    for (;;) { ws(); if (p >= e || !(isalpha((u8)*p) || *p == '"')) return;
      if (*p == '"') { p++; while (p < e && *p != '"') p++; p++; if (p < e && *p == '=') { p++; need('"'); while (p < e && *p != '"') p++; p++; } continue; }
      std::string w = peekWord(); static const char* stop[] = {"true", "false", "null", "undef", "poison", "zeroinitializer", "inttoptr", "ptrtoint", "getelementptr", "add", "sub", "mul", "trunc", "splat", "bitcast", "none", "c", "asm", "xor", "ptrtoaddr", "blockaddress", nullptr};
      for (int i = 0; stop[i]; i++) if (w == stop[i]) return;
      if (w.size() > 1 && (w[0] == 'f') && isdigit((u8)w[1])) return;
      word(); if (w == "align" && pk() != '(') num(); else if (p < e && *p == '(') skipParens(); } }
  std::vector<CV> fill(Type* t, u64 v = 0) { std::vector<CV> r; for (auto& l : leavesOf(t)) r.push_back(l.w > 64 ? CV{0, mkConst(l.w, v)} : CV{v, nullptr}); return r; }
  void constInto(Type* t, std::vector<CV>& out) {
    ws();
    if (kw("zeroinitializer") || kw("undef") || kw("poison") || kw("null") || kw("none")) { auto v = fill(t); out.insert(out.end(), v.begin(), v.end()); return; }
    if (kw("splat")) { need('('); Type* et = type(); std::vector<CV> v; constInto(et, v); need(')'); for (u64 i = 0; i < t->n; i++) out.insert(out.end(), v.begin(), v.end()); return; }
    switch (t->k) {
      case Type::INT: {
        if (kw("true")) { out.push_back({1, 0}); return; } if (kw("false")) { out.push_back({0, 0}); return; }
        if (isdigit((u8)*p) || *p == '-') { bool neg = *p == '-'; if (neg) p++; u128 v = 0; while (p < e && isdigit((u8)*p)) v = v * 10 + (*p++ - '0'); if (neg) v = -v; v &= mask(t->bits); if (t->bits > 64) out.push_back({0, mkConst(t->bits, v)}); else out.push_back({(u64)v, 0}); return; }
        out.push_back(constExpr(t)); return; }
      case Type::PTR: out.push_back(constExpr(t)); return;
      case Type::FLT: { ws(); if (*p == 'f' && p + 1 < e && (p[1] == '0' || p[1] == 'x')) p++; 
        if (*p == '0' && (p[1] == 'x')) { p += 2; if (*p == 'H' || *p == 'R') p++; if (*p == 'K' || *p == 'L' || *p == 'M') { while (isxdigit((u8)*p) || isalpha((u8)*p)) p++; out.push_back({0, mkConst(t->bits, 0)}); return; } u64 v = strtoull(p, (char**)&p, 16); if (t->bits == 32) { double d; memcpy(&d, &v, 8); float f = (float)d; u32 b; memcpy(&b, &f, 4); v = b; } out.push_back({v, 0}); return; }
        if (kw("inf")) { out.push_back({t->bits == 32 ? 0x7f800000ull : 0x7ff0000000000000ull, 0}); return; } if (p[0] == '-' && p[1] == 'i') { p += 4; out.push_back({t->bits == 32 ? 0xff800000ull : 0xfff0000000000000ull, 0}); return; }
        char* end; double d = strtod(p, &end); if (end == p) fail("float"); p = end; u64 v; if (t->bits == 32) { float f = (float)d; u32 b; memcpy(&b, &f, 4); v = b; } else memcpy(&v, &d, 8); out.push_back({v, 0}); return; }
      case Type::ARR: if (*p == 'c') { p++; need('"'); u64 n = 0; while (*p != '"') { u8 b; if (*p == '\\') { if (p[1] == '\\') { b = '\\'; p += 2; } else { char h[3] = {p[1], p[2], 0}; b = strtoul(h, 0, 16); p += 3; } } else b = *p++; out.push_back({b, 0}); n++; } p++; if (n != t->n) fail("string length"); return; }
        need('['); if (t->n) { do { Type* et = type(); constInto(et, out); } while (eat(',')); } need(']'); return;
      case Type::VEC: need('<'); do { Type* et = type(); constInto(et, out); } while (eat(',')); need('>'); return;
      case Type::STRUCT: { if (t->packed) need('<'); need('{'); if (!t->f.empty()) do { Type* et = type(); constInto(et, out); } while (eat(',')); need('}'); if (t->packed) need('>'); return; }
      default: fail("constant"); } }
  CV constExpr(Type* t) {
    ws();
    if (*p == '@') { p++; std::string n = name(); auto f = M.fnIdx.find(n); if (f != M.fnIdx.end()) { Func& fn = M.fn[f->second]; if (fn.weak) return {0, 0}; return {fnAddr(f->second), 0}; } auto g = M.glIdx.find(n); if (g == M.glIdx.end()) fail("unknown global " + n); Global* gl = &M.gl[g->second]; while (!gl->alias.empty()) { auto fi = M.fnIdx.find(gl->alias); if (fi != M.fnIdx.end()) return {fnAddr(fi->second), 0}; gl = &M.gl[M.glIdx.at(gl->alias)]; } return {gl->addr, 0}; }
    std::string w = word();
    if (w == "inttoptr" || w == "ptrtoint" || w == "bitcast" || w == "trunc" || w == "ptrtoaddr") { need('('); Type* ft = type(); std::vector<CV> v; constInto(ft, v); if (!kw("to")) fail("to"); type(); need(')'); v[0].c &= (u64)mask(std::min(64u, t->bits)); return v[0]; }
    if (w == "getelementptr") { for (;;) { if (kw("inbounds") || kw("nuw") || kw("nusw")) continue; if (kw("inrange")) { skipParens(); continue; } break; } need('('); Type* st = type(); need(','); Type* pt = type(); std::vector<CV> b; constInto(pt, b); u64 a = b[0].c; Type* cur = st; bool first = true; while (eat(',')) { Type* it = type(); std::vector<CV> iv; constInto(it, iv); i64 ix = (i64)(it->bits < 64 ? (i64)sxt(iv[0].c, it->bits) : (i64)iv[0].c); if (first) { a += ix * cur->size; first = false; } else if (cur->k == Type::STRUCT) { a += cur->off[ix]; cur = cur->f[ix]; } else { cur = cur->el; a += ix * cur->size; } } need(')'); return {a, 0}; }
    if (w == "add" || w == "sub" || w == "xor" || w == "mul") { while (kw("nuw") || kw("nsw")); need('('); Type* a = type(); std::vector<CV> x, y; constInto(a, x); need(','); type(); constInto(a, y); need(')'); u64 r = w == "add" ? x[0].c + y[0].c : w == "sub" ? x[0].c - y[0].c : w == "mul" ? x[0].c * y[0].c : x[0].c ^ y[0].c; return {(u64)(r & mask(t->bits)), 0}; }
    fail("constant expression " + w); }
  Operand operand(Type* t) { Operand o; o.ty = t; ws();
    if (t->k == Type::META) { if (*p == '!') { p++; while (p < e && (idc(*p) || *p == '!')) p++; if (p < e && *p == '(') skipParens(); else if (p < e && *p == '{') { while (*p != '}') p++; p++; } } else { Type* it = type(); operand(it); } return o; }
    if (*p == '%') { p++; std::string n = name(); o.slot = slotFor(n, t); return o; }
    if (kw("asm")) { o.slot = -2; return o; }
    constInto(t, o.c); return o; }
  int slotFor(const std::string& n, Type* t) { auto it = slots->find(n); if (it != slots->end()) return it->second; int s = f->nslots; f->nslots += std::max(1u, t->nleaf); (*slots)[n] = s; return s; }
  Operand typedOperand() { Type* t = type(); attrs(); return operand(t); }
};

static void parseSig(P& q, Func& f, bool def) {
  for (;;) { q.ws(); std::string w = q.peekWord(); if (w == "void" || w == "ptr" || w == "float" || w == "double" || w == "half" || w == "fp128" || w == "x86_fp80" || w == "bfloat" || w == "metadata" || w == "token" || (w[0] == 'i' && w.size() > 1 && isdigit((u8)w[1])) || w.empty()) break; if (w == "extern_weak") f.weak = true; q.word(); if (q.pk() == '(') q.skipParens(); else if (w == "align") q.num(); }
  f.ret = q.type(); q.need('@'); f.name = q.name(); q.need('(');
  if (!q.eat(')')) { do { q.ws(); if (*q.p == '.') { q.p += 3; f.vararg = true; break; } Type* t = q.type(); f.pty.push_back(t); q.attrs(); if (q.pk() == '%') { q.p++; q.name(); } } while (q.eat(',')); q.need(')'); }
  (void)def;
}
void loadModule(const char* path) {
  int fd = open(path, O_RDONLY); if (fd < 0) die(std::string("open ") + path); struct stat st; fstat(fd, &st); const char* b = (const char*)mmap(0, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0); const char* e = b + st.st_size;
  for (const char* s = b; s < e;) { const char* n = (const char*)memchr(s, '\n', e - s); if (!n) n = e; L.push_back({s, n}); s = n + 1; }
  M.fn.reserve(20000);
  u64 nextObj = 16;
  for (size_t i = 0; i < L.size(); i++) { const char* s = L[i].first; size_t n = L[i].second - s; if (!n) continue;
    if (*s == '%') { P q{s + 1, L[i].second}; std::string nm = q.name(); q.need('='); q.kw("type"); named[nm] = q.type(); }
    else if (*s == '@') { P q{s + 1, L[i].second}; Global g; g.name = q.name(); q.need('='); g.isConst = false; g.hasInit = true; bool al = false;
      for (;;) { std::string w = q.word(); if (w == "global") break; if (w == "constant") { g.isConst = true; break; } if (w == "alias") { al = true; break; } if (w == "external" || w == "extern_weak" || w == "available_externally") g.hasInit = false; if (q.pk() == '(') q.skipParens(); if (w.empty()) q.fail("global"); }
      g.ty = q.type(); if (al) { q.need(','); q.type(); q.need('@'); g.alias = q.name(); g.hasInit = false; g.addr = 0; }
      else { g.addr = nextObj++ << 32; if (g.hasInit) g.initText = std::string(q.p, q.e); }
      M.glIdx[g.name] = M.gl.size(); M.gl.push_back(g); }
    else if (n > 7 && !memcmp(s, "define ", 7)) { Func f; P q{s + 7, L[i].second}; parseSig(q, f, true); f.defined = true; f.lineBeg = i; while (!(L[i].second - L[i].first == 1 && *L[i].first == '}')) i++; f.lineEnd = i; M.fnIdx[f.name] = M.fn.size(); M.fn.push_back(f); }
    else if (n > 8 && !memcmp(s, "declare ", 8)) { Func f; P q{s + 8, L[i].second}; parseSig(q, f, false); M.fnIdx[f.name] = M.fn.size(); M.fn.push_back(f); }
  }
  for (auto& g : M.gl) { g.data.assign(g.ty->size, 0); if (!g.hasInit) continue; P q{g.initText.data(), g.initText.data() + g.initText.size()}; std::vector<CV> v; q.constInto(g.ty, v); auto& lv = leavesOf(g.ty); for (size_t i = 0; i < lv.size(); i++) { u64 c = v[i].c; if (v[i].e) { u128 k = v[i].e->k; memcpy(&g.data[lv[i].off], &k, lv[i].w / 8); } else memcpy(&g.data[lv[i].off], &c, (lv[i].w + 7) / 8); } g.initText.clear(); g.initText.shrink_to_fit(); }
}
static u8 binop(const std::string& w) { static std::map<std::string, u8> m = {{"add", ADD}, {"sub", SUB}, {"mul", MUL}, {"udiv", UDIV}, {"sdiv", SDIV}, {"urem", UREM}, {"srem", SREM}, {"and", AND}, {"or", OR}, {"xor", XOR}, {"shl", SHL}, {"lshr", LSHR}, {"ashr", ASHR}}; auto it = m.find(w); return it == m.end() ? 255 : it->second; }
void parseBody(Func& f) {
  f.parsed = true; std::unordered_map<std::string, int> slots; std::vector<Type*> st;
  { // parameters with names
    const char* s = L[f.lineBeg].first; std::string full(s, L[f.lineBeg].second); size_t at = full.find("@" ); P q{full.data() + 7, full.data() + full.size(), &f, &slots, &st}; (void)at;
    Func tmp; for (;;) { q.ws(); if (*q.p == '@') break; if (*q.p == '(') q.skipParens(); else q.p++; } q.p++; q.name(); q.need('('); int un = 0;
    if (!q.eat(')')) { do { q.ws(); if (*q.p == '.') break; Type* t = q.type(); q.attrs(); std::string nm; if (q.pk() == '%') { q.p++; nm = q.name(); } else nm = std::to_string(un); if (!nm.empty() && isdigit((u8)nm[0])) un++; f.pslot.push_back(q.slotFor(nm, t)); } while (q.eat(',')); }
    // group lines
    std::vector<std::string> ln; for (size_t i = f.lineBeg + 1; i < f.lineEnd; i++) { std::string x(L[i].first, L[i].second); if (x.empty()) continue; size_t k = x.find_first_not_of(' '); if (k == std::string::npos) continue; if (!ln.empty() && (k > 2 || x[k] == ']')) ln.back() += " " + x.substr(k); else ln.push_back(x); }
    std::unordered_map<std::string, u32> bbi; std::vector<std::pair<std::string, std::vector<std::string*>>> blocks;
    for (auto& x : ln) { if (x[0] != ' ') { std::string nm; if (x[0] == '"') nm = x.substr(1, x.find('"', 1) - 1); else nm = x.substr(0, x.find(':')); if (x[0] == ';') continue; bbi[nm] = blocks.size(); blocks.push_back({nm, {}}); } else { if (blocks.empty()) { std::string nm = std::to_string(un); bbi[nm] = 0; blocks.push_back({nm, {}}); } blocks.back().second.push_back(&x); } }
    f.bb.resize(blocks.size());
    auto label = [&](P& q) -> u32 { if (!q.kw("label")) q.fail("label"); q.need('%'); std::string n = q.name(); auto it = bbi.find(n); if (it == bbi.end()) q.fail("block " + n); return it->second; };
    for (size_t bi = 0; bi < blocks.size(); bi++) { Block& B = f.bb[bi]; B.name = blocks[bi].first;
      for (auto* xp : blocks[bi].second) { P q{xp->data(), xp->data() + xp->size(), &f, &slots, &st}; Instr I; I.op = I_UNSUP; std::string dn; bool hasDst = false; q.ws();
        if (*q.p == '%') { q.p++; dn = q.name(); q.need('='); hasDst = true; }
        std::string w = q.word(); auto flags = [&] { for (;;) { if (q.kw("nuw") || q.kw("nsw") || q.kw("exact") || q.kw("disjoint") || q.kw("nneg") || q.kw("samesign") || q.kw("inbounds") || q.kw("nusw") || q.kw("fast") || q.kw("nnan") || q.kw("ninf") || q.kw("nsz") || q.kw("contract") || q.kw("afn") || q.kw("reassoc") || q.kw("arcp")) continue; if (q.kw("inrange")) { q.skipParens(); continue; } break; } };
        auto dst = [&](Type* t) { I.ty = t; if (hasDst) I.dst = q.slotFor(dn, t); };
        u8 bo = binop(w);
        if (bo != 255) { flags(); I.op = I_BIN; I.sub = bo; Type* t = q.type(); I.o.push_back(q.operand(t)); q.need(','); I.o.push_back(q.operand(t)); dst(t); }
        else if (w == "icmp") { flags(); std::string pr = q.word(); static std::map<std::string, u8> pm = {{"eq", 0}, {"ne", 1}, {"ugt", 2}, {"uge", 3}, {"ult", 4}, {"ule", 5}, {"sgt", 6}, {"sge", 7}, {"slt", 8}, {"sle", 9}}; I.op = I_ICMP; I.sub = pm.at(pr); Type* t = q.type(); I.o.push_back(q.operand(t)); q.need(','); I.o.push_back(q.operand(t)); dst(t->k == Type::VEC ? tVec(t->n, tInt(1)) : tInt(1)); }
        else if (w == "fcmp") { flags(); std::string pr = q.word(); u8 b = 0; if (pr == "true") b = 15; else if (pr == "false") b = 0; else if (pr == "ord") b = 7; else if (pr == "uno") b = 8; else { if (pr[0] == 'u') b |= 8; std::string r = pr.substr(1); if (r == "eq") b |= 1; else if (r == "ne") b |= 6; else if (r == "gt") b |= 2; else if (r == "ge") b |= 3; else if (r == "lt") b |= 4; else if (r == "le") b |= 5; } I.op = I_FCMP; I.sub = b; Type* t = q.type(); I.o.push_back(q.operand(t)); q.need(','); I.o.push_back(q.operand(t)); dst(t->k == Type::VEC ? tVec(t->n, tInt(1)) : tInt(1)); }
        else if (w == "fadd" || w == "fsub" || w == "fmul" || w == "fdiv" || w == "frem") { flags(); I.op = I_FBIN; I.sub = w[1] == 'a' ? 0 : w[1] == 's' ? 1 : w[1] == 'm' ? 2 : w[1] == 'd' ? 3 : 4; Type* t = q.type(); I.o.push_back(q.operand(t)); q.need(','); I.o.push_back(q.operand(t)); dst(t); }
        else if (w == "fneg") { flags(); I.op = I_FNEG; I.o.push_back(q.typedOperand()); dst(I.o[0].ty); }
        else if (w == "select") { flags(); I.op = I_SELECT; I.o.push_back(q.typedOperand()); q.need(','); I.o.push_back(q.typedOperand()); q.need(','); I.o.push_back(q.typedOperand()); dst(I.o[1].ty); }
        else if (w == "trunc" || w == "zext" || w == "sext" || w == "bitcast" || w == "ptrtoint" || w == "inttoptr" || w == "ptrtoaddr" || w == "fptrunc" || w == "fpext" || w == "uitofp" || w == "sitofp" || w == "fptoui" || w == "fptosi") { flags(); I.o.push_back(q.typedOperand()); if (!q.kw("to")) q.fail("to"); Type* t = q.type(); I.op = w == "trunc" ? I_TRUNC : w == "zext" ? I_ZEXT : w == "sext" ? I_SEXT : w == "bitcast" ? I_BITCAST : (w[0] == 'p' || w == "inttoptr") ? I_PTRINT : I_FPCAST; I.txt = w; dst(t); }
        else if (w == "freeze") { I.op = I_MOVE; I.o.push_back(q.typedOperand()); dst(I.o[0].ty); }
        else if (w == "getelementptr") { flags(); Type* cur = q.type(); q.need(','); I.op = I_GEP; I.o.push_back(q.typedOperand()); bool first = true; i64 cst = 0; Type* pt = I.o[0].ty; while (q.eat(',')) { if (q.pk() == '!') break; Operand ix = q.typedOperand(); u64 sc; if (first) { sc = cur->size; first = false; } else if (cur->k == Type::STRUCT) { u64 k = ix.c[0].c; cst += cur->off[k]; cur = cur->f[k]; continue; } else { cur = cur->el; sc = cur->size; }
            if (ix.slot < 0 && ix.ty->k != Type::VEC) { i64 v = ix.ty->bits < 64 ? (i64)sxt(ix.c[0].c, ix.ty->bits) : (i64)ix.c[0].c; cst += v * (i64)sc; } else { I.o.push_back(ix); I.scales.push_back(sc); } } I.imm = (u64)cst; dst(pt); }
        else if (w == "load") { q.kw("atomic"); q.kw("volatile"); I.op = I_LOAD; Type* t = q.type(); q.need(','); I.o.push_back(q.typedOperand()); dst(t); }
        else if (w == "store") { q.kw("atomic"); q.kw("volatile"); I.op = I_STORE; I.o.push_back(q.typedOperand()); q.need(','); I.o.push_back(q.typedOperand()); I.ty = I.o[0].ty; }
        else if (w == "alloca") { q.kw("inalloca"); I.op = I_ALLOCA; Type* t = q.type(); I.imm = t->size; if (q.eat(',')) { q.ws(); if (*q.p == 'i') { I.o.push_back(q.typedOperand()); } } dst(tSimple(Type::PTR)); }
        else if (w == "br") { q.ws(); if (*q.p == 'l') { I.op = I_BR; I.bb.push_back(label(q)); } else { I.op = I_CBR; I.o.push_back(q.typedOperand()); q.need(','); I.bb.push_back(label(q)); q.need(','); I.bb.push_back(label(q)); } }
        else if (w == "switch") { I.op = I_SWITCH; I.o.push_back(q.typedOperand()); q.need(','); I.bb.push_back(label(q)); q.need('['); while (!q.eat(']')) { Operand o = q.typedOperand(); q.need(','); I.cases.push_back(o.c[0].c); I.bb.push_back(label(q)); } }
        else if (w == "ret") { I.op = I_RET; Type* t = q.type(); if (t->k != Type::VOID) I.o.push_back(q.operand(t)); }
        else if (w == "unreachable") I.op = I_UNREACH;
        else if (w == "phi") { flags(); I.op = I_PHI; Type* t = q.type(); do { q.need('['); I.o.push_back(q.operand(t)); q.need(','); q.need('%'); std::string n = q.name(); auto it = bbi.find(n); if (it == bbi.end()) q.fail("phi block " + n); I.bb.push_back(it->second); q.need(']'); if (q.pk() == ',' ) { const char* sv = q.p; q.p++; if (q.pk() == '!') { q.p = sv; break; } q.p = sv; } } while (q.eat(',')); dst(t); B.nphi++; }
        else if (w == "extractvalue") { I.op = I_EXTRACTV; I.o.push_back(q.typedOperand()); Type* cur = I.o[0].ty; unsigned off = 0; while (q.eat(',')) { if (q.pk() == '!') break; u64 k = q.num(); if (cur->k == Type::STRUCT) { for (u64 j = 0; j < k; j++) off += cur->f[j]->nleaf; cur = cur->f[k]; } else { off += k * cur->el->nleaf; cur = cur->el; } } I.imm = off; dst(cur); }
        else if (w == "insertvalue") { I.op = I_INSERTV; I.o.push_back(q.typedOperand()); q.need(','); I.o.push_back(q.typedOperand()); Type* cur = I.o[0].ty; unsigned off = 0; while (q.eat(',')) { if (q.pk() == '!') break; u64 k = q.num(); if (cur->k == Type::STRUCT) { for (u64 j = 0; j < k; j++) off += cur->f[j]->nleaf; cur = cur->f[k]; } else { off += k * cur->el->nleaf; cur = cur->el; } } I.imm = off; dst(I.o[0].ty); }
        else if (w == "extractelement") { I.op = I_EXTRACTE; I.o.push_back(q.typedOperand()); q.need(','); I.o.push_back(q.typedOperand()); dst(I.o[0].ty->el); }
        else if (w == "insertelement") { I.op = I_INSERTE; I.o.push_back(q.typedOperand()); q.need(','); I.o.push_back(q.typedOperand()); q.need(','); I.o.push_back(q.typedOperand()); dst(I.o[0].ty); }
        else if (w == "shufflevector") { I.op = I_SHUFFLE; I.o.push_back(q.typedOperand()); q.need(','); I.o.push_back(q.typedOperand()); q.need(','); Operand m = q.typedOperand(); for (auto& c : m.c) I.idxs.push_back((u32)c.c); dst(tVec(m.ty->n, I.o[0].ty->el)); }
        else if (w == "fence") I.op = I_FENCE;
        else if (w == "atomicrmw") { q.kw("volatile"); std::string o = q.word(); I.op = I_RMW; static std::map<std::string, u8> m = {{"add", ADD}, {"sub", SUB}, {"and", AND}, {"or", OR}, {"xor", XOR}, {"xchg", 200}}; auto it = m.find(o); if (it == m.end()) q.fail("atomicrmw " + o); I.sub = it->second; I.o.push_back(q.typedOperand()); q.need(','); I.o.push_back(q.typedOperand()); dst(I.o[1].ty); }
        else if (w == "cmpxchg") { q.kw("weak"); q.kw("volatile"); I.op = I_CMPXCHG; I.o.push_back(q.typedOperand()); q.need(','); I.o.push_back(q.typedOperand()); q.need(','); I.o.push_back(q.typedOperand()); dst(tStruct({I.o[1].ty, tInt(1)}, false)); }
        else if (w == "landingpad") { I.op = I_LANDING; Type* t = q.type(); dst(t); }
        else if (w == "resume") I.op = I_RESUME;
        else if (w == "call" || w == "invoke" || w == "tail" || w == "musttail" || w == "notail") { if (w[0] == 't' || w[0] == 'm' || w[0] == 'n') q.word(); I.isInvoke = w == "invoke"; flags();
          for (;;) { std::string x = q.peekWord(); if (x == "fastcc" || x == "coldcc" || x == "ccc" || x == "preserve_mostcc" || x == "tailcc") { q.word(); continue; } if (x == "cc") { q.word(); q.num(); continue; } break; }
          // return attributes then type
          for (;;) { q.ws(); std::string x = q.peekWord(); if (x == "noundef" || x == "zeroext" || x == "signext" || x == "noalias" || x == "nonnull" || x == "range" || x == "align" || x == "dereferenceable" || x == "dereferenceable_or_null" || x == "inreg" || x == "noext" || x == "nofpclass") { q.word(); if (q.pk() == '(') q.skipParens(); else if (x == "align") q.num(); continue; } break; }
          Type* rt = q.type(); if (q.pk() == '(') q.skipParens(); I.op = I_CALL; q.ws();
          if (*q.p == '@') { q.p++; std::string n = q.name(); auto it = M.fnIdx.find(n); if (it == M.fnIdx.end()) { auto g = M.glIdx.find(n); if (g != M.glIdx.end() && !M.gl[g->second].alias.empty()) it = M.fnIdx.find(M.gl[g->second].alias); } if (it == M.fnIdx.end()) q.fail("callee " + n); I.fn = it->second; }
          else if (*q.p == '%') { I.o.push_back(q.operand(tSimple(Type::PTR))); I.fn = -2; }
          else if (q.kw("asm")) { I.op = I_UNSUP; I.txt = "asm"; dst(rt); B.in.push_back(I); continue; }
          else { Operand o = q.operand(tSimple(Type::PTR)); I.o.push_back(o); I.fn = -2; }
          q.need('('); if (!q.eat(')')) { do I.o.push_back(q.typedOperand()); while (q.eat(',')); q.need(')'); }
          if (I.isInvoke) { const char* t = strstr(q.p, "to label "); if (!t || t > q.e) q.fail("invoke"); q.p = t + 3; I.bb.push_back(label(q)); }
          dst(rt); if (rt->k == Type::VOID) I.dst = -1; }
        else { I.txt = *xp; }
        if (I.op == I_UNSUP && I.txt.empty()) I.txt = *xp;
        B.in.push_back(std::move(I)); } }
  }
}
