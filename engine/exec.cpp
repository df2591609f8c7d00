// Symbolic interpreter.
#include "sxe.h"
#include <chrono>
#include <cmath>
#include <algorithm>
#include <functional>

struct PathEnd { };
struct Violation { std::string kind, msg, loc, stack; std::string inputs; std::string obs; };
static std::vector<Violation> g_viol;
static std::set<std::string> g_violSeen;
static std::vector<State *> g_work;
static std::map<std::string, int> g_incomplete;
static std::set<std::string> g_must, g_reached; static std::map<std::string, uint32_t> g_tagId; static std::vector<std::string> g_tagName;
static std::map<std::string, uint64_t> g_assertCount;
static uint64_t g_paths = 0, g_forks = 0, g_totalInsts = 0, g_assumePruned = 0, g_killed = 0, g_assertQueries = 0, g_assertProved = 0, g_stateIds = 0, g_transitions = 0;
static uint64_t g_maxPathInsts = 20000000, g_maxPaths = 10000000; static double g_maxTime = 600; static int g_maxViol = 3;
static std::chrono::steady_clock::time_point g_t0;
static uint64_t g_seed = 1; static int g_nSamples = 24;
static std::vector<std::string> g_samples; static uint64_t g_sampleSeen = 0;
static bool g_trace = false;
static std::string g_outDir = ".";

static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - g_t0).count(); }

// ---- per-path variable interning ----
static std::map<std::tuple<uint32_t, std::string, unsigned>, Expr *> g_varIntern;
static Expr *pathVar(State &s, const std::string &name, unsigned w, bool uninit) {
  auto key = std::make_tuple(s.depth++, name, w);
  Expr *&e = g_varIntern[key];
  if (!e) e = mkVar(name, w, uninit);
  return e;
}

static std::string jstr(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
  return r + "\"";
}
static std::string stackStr(State &s) {
  std::string r; int n = 0;
  auto &st = s.th().stack;
  for (auto i = st.rbegin(); i != st.rend() && n < 14; ++i, ++n) r += "  #" + std::to_string(n) + " " + instLoc(i->fn, i->pc) + "\n";
  return r;
}
static std::string inputsStr(State &s, const Model &m) {
  std::string r; char b[64];
  for (auto &i : s.inputs) {
    u128 v = i.var < m.v.size() ? m.v[i.var] : 0;
    snprintf(b, sizeof b, " %u 0x%llx\n", i.bits, (unsigned long long)v);
    r += i.name + b;
  }
  return r;
}
static std::string obsStr(State &s, const Model &m) {
  std::string r; char b[64];
  for (auto &o : s.obs) { uint64_t v = o.v.e ? (uint64_t)evalExpr(o.v.e, m) : o.v.c; snprintf(b, sizeof b, " 0x%llx\n", (unsigned long long)v); r += o.tag + b; }
  return r;
}
static void report(State &s, const std::string &kind, const std::string &msg, const ModelP &m) {
  std::string loc;
  auto &st = s.th().stack;
  for (auto i = st.rbegin(); i != st.rend(); ++i) if (i->fn->inRepo) { loc = instLoc(i->fn, i->pc); break; }
  std::string key = kind + "|" + msg + (kind == "assert" ? "" : "|" + loc);
  if (!g_violSeen.insert(key).second) return;
  Violation v; v.kind = kind; v.msg = msg; v.loc = loc; v.stack = stackStr(s); v.inputs = inputsStr(s, *m); v.obs = obsStr(s, *m);
  g_viol.push_back(v);
  fprintf(stderr, "sxe: VIOLATION %s: %s\n%s", kind.c_str(), msg.c_str(), v.stack.c_str());
  if (g_trace) fprintf(stderr, "%s", v.inputs.c_str());
}
[[noreturn]] static void fail(State &s, const std::string &kind, const std::string &msg) { report(s, kind, msg, s.model); g_killed++; throw PathEnd(); }
[[noreturn]] static void incomplete(State &s, const std::string &why) { if (!g_incomplete[why]++) fprintf(stderr, "sxe: INCOMPLETE %s\n%s", why.c_str(), stackStr(s).c_str()); throw PathEnd(); }

// ---- constraints / forking ----
static void addC(State &s, Expr *c) {
  if (c->isConst()) return;
  if (c->k == K_AND && c->w == 1) { addC(s, c->a[0]); addC(s, c->a[1]); return; }
  s.cs.push_back(c);
}
static SolveResult query(State &s, Expr *q, ModelP &m) {
  if (isFalse(q)) return S_UNSAT;
  if (q->isConst()) { m = s.model; return S_SAT; }
  Expr *nq = mkNot(q);
  for (Expr *c : s.cs) { if (c == nq) return S_UNSAT; }
  return solve(s.cs, q, s.model, m);
}
static void pushFork(State &s, Expr *c, const ModelP &m) {
  State *n = new State(s); n->id = ++g_stateIds; n->model = m; addC(*n, c);
  g_work.push_back(n); g_forks++;
}
// Decides a symbolic condition; pushes the other side (re-executing the current instruction) if feasible.
static bool branch(State &s, Expr *c) {
  if (c->isConst()) return c->c & 1;
  bool v = evalExpr(c, *s.model) & 1;
  Expr *taken = v ? c : mkNot(c), *other = v ? mkNot(c) : c;
  for (Expr *x : s.cs) if (x == taken) return v;
  ModelP m;
  SolveResult r = query(s, other, m);
  if (r == S_UNKNOWN) g_incomplete["solver timeout on a branch at " + instLoc(s.fr().fn, s.fr().pc)]++;
  if (r == S_SAT) { pushFork(s, other, m); addC(s, taken); }
  return v;
}
static uint64_t concretize(State &s, const Val &v, unsigned w) {
  if (!v.e) return v.c;
  u128 x = evalExpr(v.e, *s.model);
  Expr *eq = mkEq(v.e, mkConst(x, w));
  if (!branch(s, eq)) { fprintf(stderr, "concretize\n"); abort(); }
  return (uint64_t)x;
}

// ---- scalar ops ----
static inline uint64_t msk(uint64_t v, unsigned w) { return w >= 64 ? v : v & ((1ull << w) - 1); }
static inline int64_t sx64(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }
static const Kind opKind[] = {K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR};

static Val binop(State &s, unsigned op, unsigned w, const Val &a, const Val &b) {
  if (op >= O_UDIV && op <= O_SREM) {
    if (!b.e) { if (b.c == 0) fail(s, "div-by-zero", "integer division by zero"); }
    else if (branch(s, mkEq(b.e, mkConst(0, w)))) fail(s, "div-by-zero", "integer division by zero");
    if (op == O_SDIV || op == O_SREM) {
      Expr *ov = mkBin(K_AND, mkEq(toE(a, w), mkConst((u128)1 << (w - 1), w)), mkEq(toE(b, w), mkConst(maskw(w), w)));
      if (branch(s, ov)) { if (w >= 32) fail(s, "div-overflow", "signed division overflow"); }
    }
  }
  if (!a.e && !b.e && w <= 64) {
    uint64_t x = a.c, y = b.c;
    switch (op) {
    case O_ADD: return cval(msk(x + y, w)); case O_SUB: return cval(msk(x - y, w)); case O_MUL: return cval(msk(x * y, w));
    case O_UDIV: return cval(x / y); case O_UREM: return cval(x % y);
    case O_SDIV: return cval(msk((uint64_t)(sx64(x, w) == INT64_MIN && sx64(y, w) == -1 ? INT64_MIN : sx64(x, w) / sx64(y, w)), w));
    case O_SREM: return cval(msk((uint64_t)(sx64(y, w) == -1 ? 0 : sx64(x, w) % sx64(y, w)), w));
    case O_AND: return cval(x & y); case O_OR: return cval(x | y); case O_XOR: return cval(x ^ y);
    case O_SHL: return cval(y >= w ? 0 : msk(x << y, w)); case O_LSHR: return cval(y >= w ? 0 : x >> y);
    case O_ASHR: return cval(msk((uint64_t)(sx64(x, w) >> (y >= w ? 63 : y)), w));
    }
  }
  return eval2(mkBin(opKind[op], toE(a, w), toE(b, w)));
}
static Val icmp(unsigned p, unsigned w, const Val &a, const Val &b) {
  if (!a.e && !b.e) {
    uint64_t x = a.c, y = b.c;
    switch (p) { case P_EQ: return cval(x == y); case P_NE: return cval(x != y); case P_UGT: return cval(x > y); case P_UGE: return cval(x >= y); case P_ULT: return cval(x < y); case P_ULE: return cval(x <= y);
    case P_SGT: return cval(sx64(x, w) > sx64(y, w)); case P_SGE: return cval(sx64(x, w) >= sx64(y, w)); case P_SLT: return cval(sx64(x, w) < sx64(y, w)); case P_SLE: return cval(sx64(x, w) <= sx64(y, w)); }
  }
  Expr *x = toE(a, w), *y = toE(b, w);
  switch (p) { case P_EQ: return eval2(mkEq(x, y)); case P_NE: return eval2(mkNot(mkEq(x, y))); case P_UGT: return eval2(mkBin(K_ULT, y, x)); case P_UGE: return eval2(mkBin(K_ULE, y, x)); case P_ULT: return eval2(mkBin(K_ULT, x, y)); case P_ULE: return eval2(mkBin(K_ULE, x, y));
  case P_SGT: return eval2(mkBin(K_SLT, y, x)); case P_SGE: return eval2(mkBin(K_SLE, y, x)); case P_SLT: return eval2(mkBin(K_SLT, x, y)); default: return eval2(mkBin(K_SLE, x, y)); }
}
static Val fcmp(unsigned pred, unsigned w, const Val &a, const Val &b) {
  // LLVM predicate: bit0 eq, bit1 gt, bit2 lt, bit3 unordered
  Expr *x = toE(a, w), *y = toE(b, w);
  Expr *r = mkFalse();
  if ((pred & 7) == 7) { r = mkNot(mkBin(K_FUNO, x, y)); }
  else {
    if ((pred & 3) == 3) r = mkBin(K_OR, r, mkBin(K_FLE, y, x));
    else if ((pred & 5) == 5) r = mkBin(K_OR, r, mkBin(K_FLE, x, y));
    else if (pred & 1) r = mkBin(K_OR, r, mkBin(K_FEQ, x, y));
    if ((pred & 2) && !(pred & 1)) r = mkBin(K_OR, r, mkBin(K_FLT, y, x));
    if ((pred & 4) && !(pred & 1)) r = mkBin(K_OR, r, mkBin(K_FLT, x, y));
  }
  if (pred & 8) r = mkBin(K_OR, r, mkBin(K_FUNO, x, y));
  if (pred == 15) r = mkTrue();
  return eval2(r);
}

// ---- memory access ----
static Expr *byteE(State &s, Obj *o, uint32_t i, uint64_t id) {
  if (o->sym && o->sym[i]) {
    if (o->sym[i] == UNINIT) {
      Obj *w = s.mem.findW(id);
      Expr *v = pathVar(s, "uninit", 8, true);
      w->sym[i] = v;
      return v;
    }
    { Expr *b = o->sym[i]; return b->k == K_EXTRACT ? mkExtract(b->a[0], b->lo, b->w) : b; } // see mkByteOf()
  }
  return mkConst(o->data[i], 8);
}
static std::string ptrDesc(State &s, uint64_t a) {
  char b[160]; uint64_t id = a >> OBJ_SHIFT, off = a & ((1ull << OBJ_SHIFT) - 1);
  if (id == 0) { snprintf(b, sizeof b, "null pointer dereference (address 0x%llx)", (unsigned long long)a); return b; }
  Obj *o = s.mem.find(id);
  if (o) { const char *k[] = {"global", "stack", "heap", "function", "external", "exception"}; snprintf(b, sizeof b, "out-of-bounds access at offset %lld of %s object of size %u%s%s", (long long)off, k[o->kind], o->size, o->name ? " " : "", o->name ? o->name : ""); return b; }
  if (id >= FIRST_OBJ && id < FIRST_OBJ + s.mem.next) return "access to freed object or dead stack frame";
  Obj *nx = s.mem.find(id + 1);
  if (nx && off > (1ull << 27)) { snprintf(b, sizeof b, "out-of-bounds access before the start of an object (offset -%llu)", (unsigned long long)((1ull << OBJ_SHIFT) - off)); return b; }
  snprintf(b, sizeof b, "wild pointer access (address 0x%llx)", (unsigned long long)a);
  return b;
}
static Obj *resolve(State &s, uint64_t a, uint32_t n, uint64_t &id, uint32_t &off, bool write) {
  id = a >> OBJ_SHIFT; uint64_t o64 = a & ((1ull << OBJ_SHIFT) - 1);
  Obj *o = s.mem.find(id);
  if (!o || o->kind == M_FUNC || o64 + n > o->size) {
    std::string d = ptrDesc(s, a);
    if (id >= FIRST_OBJ && o && o->kind != M_FUNC && o64 + n > o->size && o64 < o->size) d = "out-of-bounds access: " + std::to_string(n) + " bytes at offset " + std::to_string(o64) + " of object of size " + std::to_string(o->size);
    fail(s, "memory", std::string(write ? "write: " : "read: ") + d);
  }
  if (write && o->ro) fail(s, "memory", "write to constant memory");
  off = (uint32_t)o64;
  return o;
}
static uint64_t tlsAddr(State &s, uint64_t a) {
  uint64_t id = a >> OBJ_SHIFT;
  auto it = g_tlsGlobals.find(id);
  if (it == g_tlsGlobals.end() || s.cur == 0) return a;
  auto &m = s.th().tls;
  auto f = m.find(id);
  uint64_t nid;
  if (f == m.end()) {
    Obj *src = s.mem.find(id);
    nid = s.mem.alloc(src->size, M_GLOBAL, false, src->name);
    m[id] = nid;
    // initial image is taken from the template's current content only if the main thread has not touched it;
    // thread-local variables in the checked code are zero- or constant-initialised before threads start
    memset(s.mem.findW(nid)->data, 0, src->size);
  } else nid = f->second;
  return nid << OBJ_SHIFT | (a & ((1ull << OBJ_SHIFT) - 1));
}
static Val readC(State &s, uint64_t a, unsigned w) {
  uint32_t n = (w + 7) / 8, off; uint64_t id;
  Obj *o = resolve(s, a, n, id, off, false);
  bool conc = true;
  if (o->sym) for (uint32_t i = 0; i < n; i++) if (o->sym[off + i]) { conc = false; break; }
  if (conc && w <= 64) { uint64_t v = 0; memcpy(&v, o->data + off, n); return cval(msk(v, w)); }
  Expr *e = nullptr;
  for (uint32_t i = 0; i < n;) { // adjacent bytes of one stored expression come back as that expression
    o = s.mem.find(id); Expr *b = o->sym ? o->sym[off + i] : nullptr, *p; uint32_t k = 1;
    if (b && b != UNINIT && b->k == K_EXTRACT) {
      while (i + k < n) { Expr *c = o->sym[off + i + k]; if (!c || c == UNINIT || c->k != K_EXTRACT || c->a[0] != b->a[0] || c->lo != b->lo + 8 * k) break; k++; }
      p = mkExtract(b->a[0], b->lo, 8 * k);
    } else p = byteE(s, o, off + i, id);
    e = e ? mkConcat(p, e) : p; i += k;
  }
  if (e->w != w) e = mkExtract(e, 0, w);
  return eval2(e);
}
static void writeC(State &s, uint64_t a, unsigned w, const Val &v) {
  uint32_t n = (w + 7) / 8, off; uint64_t id;
  resolve(s, a, n, id, off, true);
  Obj *o = s.mem.findW(id);
  if (!v.e) {
    uint64_t x = v.c; memcpy(o->data + off, &x, n);
    if (o->sym) for (uint32_t i = 0; i < n; i++) o->sym[off + i] = nullptr;
    return;
  }
  Expr *e = v.e; if (e->w < n * 8) e = mkZExt(e, n * 8);
  for (uint32_t i = 0; i < n; i++) {
    Expr *b = n > 1 ? mkByteOf(e, 8 * i) : e;
    if (b->isConst()) { o->data[off + i] = (uint8_t)b->c; if (o->sym) o->sym[off + i] = nullptr; }
    else { o->ensureSym(); o->sym[off + i] = b; }
  }
}
struct SymAddr { uint64_t id; Expr *off; uint32_t lo, hi, stride; Obj *o; };
static bool symResolve(State &s, Expr *ae, uint32_t n, SymAddr &r, bool write, uint32_t limit) {
  uint64_t a = (uint64_t)evalExpr(ae, *s.model);
  uint64_t id; uint32_t off;
  Obj *o = resolve(s, a, n, id, off, write); // model's own choice must be valid, else it is a violation
  Expr *offE = mkBin(K_SUB, ae, mkConst(id << OBJ_SHIFT, 64));
  Expr *inb = mkBin(K_ULE, offE, mkConst(o->size - n, 64));
  if (!branch(s, inb)) { fprintf(stderr, "symResolve\n"); abort(); }
  u128 kz = offE->kz, ko = offE->ko;
  uint64_t lo = (uint64_t)ko, hi = (uint64_t)(~kz); if (hi > o->size - n) hi = o->size - n;
  uint32_t stride = 1; while (stride < 4096 && (kz & stride)) stride <<= 1;
  lo = lo / stride * stride; hi = hi / stride * stride;
  if (lo > hi) lo = 0;
  r = {id, offE, (uint32_t)lo, (uint32_t)hi, stride, o};
  return (hi - lo) / stride + 1 <= limit;
}
static Expr *muxRead(State &s, const SymAddr &r, uint32_t lo, uint32_t hi, unsigned w) {
  if (lo == hi) { Val v = readC(s, (r.id << OBJ_SHIFT) + lo, w); return toE(v, w); }
  uint32_t cnt = (hi - lo) / r.stride + 1, mid = lo + cnt / 2 * r.stride;
  Expr *L = muxRead(s, r, lo, mid - r.stride, w), *H = muxRead(s, r, mid, hi, w);
  return L == H ? L : mkIte(mkBin(K_ULT, r.off, mkConst(mid, 64)), L, H);
}
static Val load(State &s, const Val &a, int64_t imm, unsigned w) {
  if (!a.e) return readC(s, a.c + imm, w);
  Expr *ae = imm ? mkBin(K_ADD, a.e, mkConst((uint64_t)imm, 64)) : a.e;
  if (ae->isConst()) return readC(s, (uint64_t)ae->c, w);
  SymAddr r;
  if (symResolve(s, ae, (w + 7) / 8, r, false, 1024)) return eval2(muxRead(s, r, r.lo, r.hi, w));
  return readC(s, concretize(s, Val{0, ae}, 64), w);
}
static void store(State &s, const Val &a, int64_t imm, unsigned w, const Val &v) {
  if (!a.e) { writeC(s, a.c + imm, w, v); return; }
  Expr *ae = imm ? mkBin(K_ADD, a.e, mkConst((uint64_t)imm, 64)) : a.e;
  if (ae->isConst()) { writeC(s, (uint64_t)ae->c, w, v); return; }
  SymAddr r;
  if (symResolve(s, ae, (w + 7) / 8, r, true, 256)) {
    Expr *ve = toE(v, w);
    for (uint32_t o = r.lo; o <= r.hi; o += r.stride) {
      Val old = readC(s, (r.id << OBJ_SHIFT) + o, w);
      writeC(s, (r.id << OBJ_SHIFT) + o, w, eval2(mkIte(mkEq(r.off, mkConst(o, 64)), ve, toE(old, w))));
    }
    return;
  }
  writeC(s, concretize(s, Val{0, ae}, 64), w, v);
}
static void copyMem(State &s, uint64_t d, uint64_t src, uint64_t n) {
  if (!n) return;
  uint64_t id, id2; uint32_t so, dof;
  if (n > (1u << 27)) fail(s, "memory", "memcpy with huge length");
  Obj *a = resolve(s, src, n, id, so, false); resolve(s, d, n, id2, dof, true);
  std::vector<uint8_t> buf(a->data + so, a->data + so + n); std::vector<Expr *> sy;
  if (a->sym) sy.assign(a->sym + so, a->sym + so + n);
  Obj *b = s.mem.findW(id2);
  memcpy(b->data + dof, buf.data(), n);
  bool any = false; for (Expr *e : sy) if (e) { any = true; break; }
  if (any) { b->ensureSym(); memcpy((void *)(b->sym + dof), sy.data(), n * sizeof(Expr *)); }
  else if (b->sym) memset((void *)(b->sym + dof), 0, n * sizeof(Expr *));
}
static void setMem(State &s, uint64_t d, const Val &v, uint64_t n) {
  if (!n) return;
  uint64_t id; uint32_t off; if (n > (1u << 27)) fail(s, "memory", "memset with huge length");
  resolve(s, d, n, id, off, true);
  Obj *b = s.mem.findW(id);
  if (!v.e) { memset(b->data + off, (int)v.c, n); if (b->sym) memset((void *)(b->sym + off), 0, n * sizeof(Expr *)); }
  else { b->ensureSym(); Expr *e = mkExtract(v.e, 0, 8); for (uint64_t i = 0; i < n; i++) b->sym[off + i] = e; }
}
static std::string cstr(State &s, uint64_t a) {
  std::string r;
  for (int i = 0; i < 4096; i++) { Val v = readC(s, a + i, 8); uint64_t c = v.e ? (uint64_t)evalExpr(v.e, *s.model) : v.c; if (!c) break; r += (char)c; }
  return r;
}
static uint64_t rd64(State &s, uint64_t a) { Val v = readC(s, a, 64); return v.e ? concretize(s, v, 64) : v.c; }

// ---- frames ----
static Val opv(const Frame &f, int32_t o) { return o >= 0 ? f.regs[o] : g_consts[~o]; }
static void takeEdge(State &s, Frame &f, int e) {
  const Edge &ed = f.fn->edges[e];
  size_t n = ed.moves.size();
  if (n == 1) {
    const Move &m = ed.moves[0];
    f.regs[m.dst] = m.src < INT32_MIN + 1024 ? Val{0, pathVar(s, "undef", m.src - INT32_MIN, true)} : opv(f, m.src);
  } else if (n) {
    Val tmp[64]; std::vector<Val> big; Val *t = tmp; if (n > 64) { big.resize(n); t = big.data(); }
    for (size_t i = 0; i < n; i++) { const Move &m = ed.moves[i]; t[i] = m.src < INT32_MIN + 1024 ? Val{0, pathVar(s, "undef", m.src - INT32_MIN, true)} : opv(f, m.src); }
    for (size_t i = 0; i < n; i++) f.regs[ed.moves[i].dst] = t[i];
  }
  f.pc = ed.target;
}
static void popFrame(State &s) {
  Frame &f = s.fr();
  for (uint64_t id : f.allocas) s.mem.release(id);
  s.th().stack.pop_back();
}
static void pushFrame(State &s, Fn *fn, const std::vector<Val> &args) {
  if (!fn->decoded) decodeFn(fn);
  fn->callsExec++;
  if (s.th().stack.size() > 2000) fail(s, "stack-overflow", "call depth exceeds 2000 frames");
  s.th().stack.emplace_back();
  Frame &f = s.th().stack.back();
  f.fn = fn; f.regs.assign(fn->nslots, cval(0));
  for (size_t i = 0; i < fn->argSlots.size() && i < args.size(); i++) f.regs[fn->argSlots[i]] = args[i];
}
// continue after the call instruction at the top frame
static void finishCall(State &s) {
  Frame &f = s.fr(); Inst &in = f.fn->code[f.pc];
  if (in.op == O_INVOKE) takeEdge(s, f, f.fn->calls[in.x].edgeNormal); else f.pc++;
}
static void setRet(State &s, const Val &v) { Frame &f = s.fr(); Inst &in = f.fn->code[f.pc]; if (f.fn->calls[in.x].retSlots) f.regs[in.dst] = v; }

// ---- C++ exceptions ----
static bool findBase(State &s, uint64_t ti, uint64_t ptr, bool havePtr, uint64_t target, std::set<uint64_t> &out) {
  if (ti == target) { out.insert(ptr); return true; }
  { Obj *o = s.mem.find(ti >> OBJ_SHIFT); if (!o || o->kind == M_EXT) return false; }
  int kind; uint64_t vt = rd64(s, ti);
  if (!isTypeinfoVtable(vt, kind)) return false;
  if (kind == 2) return findBase(s, rd64(s, ti + 16), ptr, havePtr, target, out);
  if (kind == 3) {
    uint64_t cnt = rd64(s, ti + 16) >> 32; bool any = false;
    for (uint64_t i = 0; i < cnt; i++) {
      uint64_t b = rd64(s, ti + 24 + 16 * i); int64_t of = (int64_t)rd64(s, ti + 32 + 16 * i);
      int64_t off = of >> 8;
      if (of & 1) { if (!havePtr) continue; off = (int64_t)rd64(s, rd64(s, ptr) + off); }
      any |= findBase(s, b, ptr + off, havePtr, target, out);
    }
    return any;
  }
  return false;
}
static std::string tiName(State &s, uint64_t ti) {
  if (Obj *o = s.mem.find(ti >> OBJ_SHIFT)) if (o->kind == M_EXT) return symbolOfGlobal(ti >> OBJ_SHIFT).substr(4); // _ZTI<name>
  return cstr(s, rd64(s, ti + 8)); }
static bool canCatch(State &s, uint64_t thrown, uint64_t obj, uint64_t want, uint64_t &adj) {
  std::string n = tiName(s, thrown); bool isPtr = !n.empty() && (n[0] == 'P' || (n[0] == '*' && n[1] == 'P'));
  if (want == 0) { adj = isPtr ? rd64(s, obj) : obj; return true; }
  if (thrown == want || tiName(s, want) == n) { adj = isPtr ? rd64(s, obj) : obj; return true; }
  if (isPtr) { std::string w = tiName(s, want); if (w == "PK" + n.substr(1) || w == "PKv" || w == "Pv") { adj = rd64(s, obj); return true; } return false; }
  std::set<uint64_t> r;
  if (findBase(s, thrown, obj, true, want, r) && r.size() == 1) { adj = *r.begin(); return true; }
  return false;
}
static std::map<uint64_t, int64_t> g_typeIds;
static int64_t typeId(uint64_t ti) { auto it = g_typeIds.find(ti); if (it != g_typeIds.end()) return it->second; int64_t n = g_typeIds.size() + 1; g_typeIds[ti] = n; return n; }

// returns with the state positioned at a landing pad, or fails the path (uncaught)
static void unwind(State &s, uint64_t obj) {
  Exc &e = s.excs[obj];
  auto &st = s.th().stack;
  // phase 1
  int handler = -1; int64_t hsel = 0; uint64_t adj = obj;
  for (int i = (int)st.size() - 1; i >= 0 && handler < 0; i--) {
    Frame &f = st[i]; Inst &in = f.fn->code[f.pc];
    if (in.op != O_INVOKE) continue;
    LPad &lp = f.fn->calls[in.x].lpad;
    for (auto &c : lp.clauses) {
      if (!c.filter) { if (canCatch(s, e.tinfo, obj, c.tis[0], adj)) { handler = i; hsel = c.tis[0] ? typeId(c.tis[0]) : typeId(0); break; } }
      else { bool in2 = false; for (uint64_t t : c.tis) if (canCatch(s, e.tinfo, obj, t, adj)) in2 = true; if (!in2) { handler = i; hsel = -1; break; } }
    }
  }
  if (handler < 0) {
    std::string w;
    fail(s, "uncaught-exception", "uncaught exception of type " + demangle("_ZTS" + tiName(s, e.tinfo)) + " reaches the top of the thread");
  }
  e.adjusted = adj;
  // phase 2: nearest frame with cleanup or the handler
  for (;;) {
    Frame &f = st.back(); Inst &in = f.fn->code[f.pc];
    bool isH = (int)st.size() - 1 == handler;
    if (in.op == O_INVOKE && (isH || f.fn->calls[in.x].lpad.cleanup || !f.fn->calls[in.x].lpad.clauses.empty())) {
      s.th().excPtr = obj; s.th().excSel = isH ? hsel : 0;
      if (isH || f.fn->calls[in.x].lpad.cleanup) { takeEdge(s, f, f.fn->calls[in.x].edgeUnwind); return; }
    }
    popFrame(s);
  }
}
static void throwNew(State &s, uint64_t obj, uint64_t ti, uint64_t dtor) {
  Exc &e = s.excs[obj]; e.tinfo = ti; e.dtor = dtor; e.handlers = 0; e.adjusted = obj;
  s.th().uncaught++;
  unwind(s, obj);
}

// ---- builtins ----
typedef std::vector<Val> Args;
// returns true if the builtin completed (return value set); false if it pushed a frame / moved control itself
typedef std::function<bool(State &, Args &, CallInfo &)> BuiltinFn;
static std::vector<BuiltinFn> g_b;
static std::map<std::string, int> &bmap() { static std::map<std::string, int> m; return m; }
static std::map<std::string, int> &imap() { static std::map<std::string, int> m; return m; }
int builtinIndex(const std::string &n) { auto i = bmap().find(n); return i == bmap().end() ? -1 : i->second; }
int intrinsicIndex(const std::string &n) {
  // longest prefix match on dotted name
  std::string p = n;
  for (;;) { auto i = imap().find(p); if (i != imap().end()) return i->second + 1; size_t d = p.rfind('.'); if (d == std::string::npos || d <= 4) break; p = p.substr(0, d); }
  return -1;
}
static void B(const char *n, BuiltinFn f) { bmap()[n] = g_b.size(); g_b.push_back(f); }
static void I(const char *n, BuiltinFn f) { imap()[n] = g_b.size(); g_b.push_back(f); }
static const uint64_t MAX_ALLOC = 1ull << 26;
static uint64_t heapAlloc(State &s, uint64_t n, int kind, bool zero) { uint64_t id = s.mem.alloc((uint32_t)n, M_HEAP, !zero, nullptr); s.mem.findW(id)->newKind = kind; return id << OBJ_SHIFT; }
static bool g_trackNew; static std::vector<std::pair<uint64_t, uint64_t>> g_tracked;
static void heapFree(State &s, uint64_t p, int kind) {
  if (!p) return;
  if (g_trackNew) for (size_t i = 0; i < g_tracked.size(); i++) if (g_tracked[i].first == p) { g_tracked.erase(g_tracked.begin() + i); break; }
  uint64_t id = p >> OBJ_SHIFT; Obj *o = s.mem.find(id);
  if (!o) fail(s, "memory", (id >= FIRST_OBJ && id < FIRST_OBJ + s.mem.next) ? "double free" : "free of an invalid pointer");
  if (o->kind != M_HEAP || (p & ((1ull << OBJ_SHIFT) - 1))) fail(s, "memory", "free of a pointer that was not allocated on the heap");
  static const char *nm[] = {"malloc/free", "new/delete", "new[]/delete[]"};
  if (o->newKind != kind) fail(s, "memory", std::string("mismatched deallocation: allocated with ") + nm[o->newKind] + ", released with " + nm[kind]);
  s.mem.release(id);
}
static bool callExtra(State &s, const char *fn, const std::vector<Val> &a) {
  auto it = g_fnByName.find(fn);
  if (it == g_fnByName.end() || it->second->decl) incomplete(s, std::string("missing model function ") + fn);
  pushFrame(s, it->second, a); return false;
}
static int g_nativeSwitches;

static void initBuiltins() {
  auto C = [](State &s, Args &a, int i, unsigned w = 64) { return concretize(s, a[i], w); };
  auto newFn = [C](int kind, bool nothrow) { return [=](State &s, Args &a, CallInfo &) {
    uint64_t n = C(s, a, 0);
    if (n > MAX_ALLOC) { if (nothrow) { setRet(s, cval(0)); return true; } return callExtra(s, "vf_throw_bad_alloc", {}); }
    uint64_t p = heapAlloc(s, n, kind, false); if (g_trackNew) g_tracked.push_back({p, n}); setRet(s, cval(p)); return true; }; };
  // blocks allocated by operator new between sx_track_new(1) and sx_track_new(0)
  B("sx_track_new", [C](State &s, Args &a, CallInfo &) { g_trackNew = C(s, a, 0) & 1; if (g_trackNew) g_tracked.clear(); return true; });
  B("sx_tracked", [C](State &s, Args &a, CallInfo &) { uint64_t i = C(s, a, 0) & 0xffffffff; setRet(s, cval(i < g_tracked.size() ? g_tracked[i].first : 0)); return true; });
  B("sx_tracked_size", [C](State &s, Args &a, CallInfo &) { uint64_t i = C(s, a, 0) & 0xffffffff; setRet(s, cval(i < g_tracked.size() ? g_tracked[i].second : 0)); return true; });
  B("_Znwm", newFn(1, false)); B("_Znam", newFn(2, false)); B("_ZnwmRKSt9nothrow_t", newFn(1, true)); B("_ZnamRKSt9nothrow_t", newFn(2, true)); B("_ZnwmSt11align_val_t", newFn(1, false)); B("_ZnamSt11align_val_t", newFn(2, false));
  B("malloc", newFn(0, true));
  auto delFn = [C](int kind) { return [=](State &s, Args &a, CallInfo &) { heapFree(s, C(s, a, 0), kind); return true; }; };
  for (const char *n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) B(n, delFn(1));
  for (const char *n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdaPvRKSt9nothrow_t"}) B(n, delFn(2));
  B("free", delFn(0));
  B("calloc", [C](State &s, Args &a, CallInfo &) { uint64_t n = C(s, a, 0) * C(s, a, 1); setRet(s, cval(n > MAX_ALLOC ? 0 : heapAlloc(s, n, 0, true))); return true; });
  B("realloc", [C](State &s, Args &a, CallInfo &) {
    uint64_t p = C(s, a, 0), n = C(s, a, 1); if (n > MAX_ALLOC) { setRet(s, cval(0)); return true; }
    uint64_t q = heapAlloc(s, n, 0, false);
    if (p) { Obj *o = s.mem.find(p >> OBJ_SHIFT); if (!o || o->kind != M_HEAP) fail(s, "memory", "realloc of an invalid pointer"); copyMem(s, q, p, std::min<uint64_t>(n, o->size)); heapFree(s, p, 0); }
    setRet(s, cval(q)); return true; });
  auto mc = [C](State &s, Args &a, CallInfo &) { uint64_t n = C(s, a, 2), d = C(s, a, 0), x = C(s, a, 1); copyMem(s, d, x, n); setRet(s, cval(d)); return true; };
  B("memcpy", mc); B("memmove", mc); I("llvm.memcpy", mc); I("llvm.memmove", mc);
  auto ms = [C](State &s, Args &a, CallInfo &) { uint64_t n = C(s, a, 2), d = C(s, a, 0); setMem(s, d, a[1], n); setRet(s, cval(d)); return true; };
  B("memset", ms); I("llvm.memset", ms);
  auto mcmp = [C](State &s, Args &a, CallInfo &) {
    uint64_t n = C(s, a, 2), x = C(s, a, 0), y = C(s, a, 1);
    if (n > 65536) incomplete(s, "memcmp with huge length");
    if (!n) { setRet(s, cval(0)); return true; }
    std::vector<std::pair<Expr *, Expr *>> v;
    for (uint64_t i = 0; i < n; i++) {
      Expr *p = toE(readC(s, x + i, 8), 8), *q = toE(readC(s, y + i, 8), 8);
      if (p == q) continue;
      v.push_back({p, q});
      if (p->isConst() && q->isConst()) break;
    }
    Expr *r = mkConst(0, 32);
    for (auto i = v.rbegin(); i != v.rend(); ++i) r = mkIte(mkEq(i->first, i->second), r, mkIte(mkBin(K_ULT, i->first, i->second), mkConst(0xffffffff, 32), mkConst(1, 32)));
    setRet(s, eval2(r)); return true; };
  B("memcmp", mcmp); B("bcmp", mcmp);
  // exceptions
  B("__cxa_allocate_exception", [C](State &s, Args &a, CallInfo &) { uint64_t n = C(s, a, 0); uint64_t id = s.mem.alloc(n, M_EXC, true, "exception"); setRet(s, cval(id << OBJ_SHIFT)); return true; });
  B("__cxa_free_exception", [C](State &s, Args &a, CallInfo &) { s.mem.release(C(s, a, 0) >> OBJ_SHIFT); return true; });
  B("__cxa_throw", [C](State &s, Args &a, CallInfo &) { uint64_t o = C(s, a, 0), t = C(s, a, 1), d = C(s, a, 2); throwNew(s, o, t, d); return false; });
  B("__cxa_begin_catch", [C](State &s, Args &a, CallInfo &) {
    uint64_t o = C(s, a, 0); Exc &e = s.excs[o]; e.handlers++; e.rethrown = false; s.th().caught.push_back(o); if (s.th().uncaught) s.th().uncaught--;
    setRet(s, cval(e.adjusted)); return true; });
  B("__cxa_get_exception_ptr", [C](State &s, Args &a, CallInfo &) { setRet(s, cval(s.excs[C(s, a, 0)].adjusted)); return true; });
  B("__cxa_end_catch", [](State &s, Args &, CallInfo &) {
    if (s.th().caught.empty()) return true;
    uint64_t o = s.th().caught.back(); s.th().caught.pop_back();
    Exc &e = s.excs[o];
    if (--e.handlers == 0 && !e.rethrown) {
      uint64_t d = e.dtor; s.excs.erase(o);
      if (d) { Fn *f = fnByAddr(d); if (f && !f->decl) { pushFrame(s, f, {cval(o)}); s.fr().discardRet = true; s.fr().afterRet = 1; s.fr().afterArg = o; return false; } }
      s.mem.release(o >> OBJ_SHIFT);
    }
    return true; });
  B("__cxa_rethrow", [](State &s, Args &, CallInfo &) {
    if (s.th().caught.empty()) fail(s, "terminate", "rethrow without an active exception");
    uint64_t o = s.th().caught.back(); s.excs[o].rethrown = true; s.th().uncaught++; unwind(s, o); return false; });
  B("__cxa_pure_virtual", [](State &s, Args &, CallInfo &) -> bool { fail(s, "pure-virtual", "pure virtual function called"); });
  auto term = [](const char *k) { return [=](State &s, Args &, CallInfo &) -> bool { fail(s, "terminate", std::string(k) + " called"); }; };
  B("_ZSt9terminatev", term("std::terminate")); B("abort", term("abort")); B("__cxa_call_unexpected", term("std::unexpected")); B("exit", term("exit")); B("_exit", term("_exit"));
  B("__cxa_bad_cast", term("bad_cast")); B("__cxa_bad_typeid", term("bad_typeid"));
  B("_ZSt18uncaught_exceptionv", [](State &s, Args &, CallInfo &) { setRet(s, cval(s.th().uncaught > 0)); return true; });
  B("_ZSt19uncaught_exceptionsv", [](State &s, Args &, CallInfo &) { setRet(s, cval(s.th().uncaught)); return true; });
  B("_Unwind_Resume", [C](State &s, Args &a, CallInfo &) { unwind(s, C(s, a, 0)); return false; });
  B("__cxa_atexit", [](State &s, Args &, CallInfo &) { setRet(s, cval(0)); return true; });
  B("atexit", [](State &s, Args &, CallInfo &) { setRet(s, cval(0)); return true; });
  B("__cxa_thread_atexit", [](State &s, Args &, CallInfo &) { setRet(s, cval(0)); return true; });
  B("__cxa_guard_acquire", [C](State &s, Args &a, CallInfo &) { uint64_t p = C(s, a, 0); Val v = readC(s, p, 8); setRet(s, cval(v.c == 0)); return true; });
  B("__cxa_guard_release", [C](State &s, Args &a, CallInfo &) { writeC(s, C(s, a, 0), 8, cval(1)); return true; });
  B("__cxa_guard_abort", [](State &, Args &, CallInfo &) { return true; });
  B("__dynamic_cast", [C](State &s, Args &a, CallInfo &) {
    uint64_t src = C(s, a, 0), st = C(s, a, 1), dt = C(s, a, 2);
    uint64_t vt = rd64(s, src); int64_t off = (int64_t)rd64(s, vt - 16); uint64_t ti = rd64(s, vt - 8);
    std::set<uint64_t> r; findBase(s, ti, src + off, true, dt, r);
    uint64_t res = 0;
    if (r.size() == 1) res = *r.begin();
    else for (uint64_t p : r) { std::set<uint64_t> q; findBase(s, dt, p, true, st, q); if (q.count(src)) res = p; }
    setRet(s, cval(res)); return true; });
  // harness API
  B("sx_sym", [C](State &s, Args &a, CallInfo &) {
    std::string n = cstr(s, C(s, a, 0)); unsigned w = (unsigned)C(s, a, 1, 32);
    Expr *v = pathVar(s, n, w, false); s.inputs.push_back({n, v->lo, (uint16_t)w});
    setRet(s, eval2(w < 64 ? mkZExt(v, 64) : v)); return true; });
  B("sx_assume", [](State &s, Args &a, CallInfo &) {
    if (!a[0].e) { if (!(a[0].c & 0xffffffff)) { g_assumePruned++; throw PathEnd(); } return true; }
    Expr *c = mkNot(mkEq(a[0].e, mkConst(0, a[0].e->w)));
    if (c->isConst()) { if (!c->c) { g_assumePruned++; throw PathEnd(); } return true; }
    if (evalExpr(c, *s.model) & 1) { addC(s, c); return true; }
    ModelP m; SolveResult r = query(s, c, m);
    if (r == S_SAT) { s.model = m; addC(s, c); return true; }
    if (r == S_UNKNOWN) incomplete(s, "solver timeout on an assumption");
    g_assumePruned++; throw PathEnd(); });
  B("sx_assert", [C](State &s, Args &a, CallInfo &) {
    std::string msg = cstr(s, C(s, a, 1)); g_assertCount[msg]++;
    g_assertQueries++;
    if (!a[0].e) { if (!(uint32_t)a[0].c) { report(s, "assert", msg, s.model); g_killed++; throw PathEnd(); } g_assertProved++; return true; }
    Expr *ok = mkNot(mkEq(a[0].e, mkConst(0, a[0].e->w)));
    Expr *bad = mkNot(ok);
    if (isFalse(bad)) { g_assertProved++; return true; }
    if (g_violSeen.count("assert|" + msg)) {}
    ModelP m; SolveResult r;
    if (isTrue(bad) || (evalExpr(bad, *s.model) & 1)) { m = s.model; r = S_SAT; } else r = query(s, bad, m);
    if (r == S_UNKNOWN) { g_incomplete["solver timeout on assertion: " + msg]++; return true; }
    if (r == S_UNSAT) { g_assertProved++; return true; }
    report(s, "assert", msg, m);
    // continue on the part of the path where the assertion holds
    if (!(evalExpr(ok, *s.model) & 1)) { ModelP m2; if (query(s, ok, m2) != S_SAT) { g_killed++; throw PathEnd(); } s.model = m2; }
    addC(s, ok);
    return true; });
  B("sx_choose", [C](State &s, Args &a, CallInfo &) {
    uint64_t n = C(s, a, 0, 32); std::string nm = cstr(s, C(s, a, 1));
    if (n <= 1) { setRet(s, cval(0)); return true; }
    Expr *v = pathVar(s, nm, 32, false); s.inputs.push_back({nm, v->lo, 32});
    for (uint64_t k = n; k-- > 0;) {
      ModelP m = std::make_shared<Model>(*s.model); if (m->v.size() < g_vars.size()) m->v.resize(g_vars.size(), 0); m->v[v->lo] = k;
      if (k) { State *t = new State(s); t->id = ++g_stateIds; t->model = m; t->cs.push_back(mkEq(v, mkConst(k, 32))); setRet(*t, cval(k)); finishCall(*t); g_work.push_back(t); g_forks++; }
      else { s.model = m; s.cs.push_back(mkEq(v, mkConst(0, 32))); setRet(s, cval(0)); }
    }
    return true; });
  B("sx_observe", [C](State &s, Args &a, CallInfo &) { s.obs.push_back({cstr(s, C(s, a, 0)), a[1]}); return true; });
  auto tag = [](State &, const std::string &t) { auto it = g_tagId.find(t); if (it == g_tagId.end()) { g_tagId[t] = g_tagName.size(); g_tagName.push_back(t); } return g_tagId[t]; };
  B("sx_reach", [C, tag](State &s, Args &a, CallInfo &) { std::string t = cstr(s, C(s, a, 0)); s.tags.insert(tag(s, t)); g_reached.insert(t); return true; });
  B("sx_must_reach", [C](State &s, Args &a, CallInfo &) { g_must.insert(cstr(s, C(s, a, 0))); return true; });
  B("sx_concretize", [C](State &s, Args &a, CallInfo &) { setRet(s, cval(C(s, a, 0))); return true; });
  B("sx_is_symbolic", [](State &s, Args &, CallInfo &) { setRet(s, cval(1)); return true; });
  B("sx_error", [C](State &s, Args &a, CallInfo &) -> bool { std::string k = cstr(s, C(s, a, 0)); fail(s, k, cstr(s, C(s, a, 1))); });
  B("sx_incomplete", [C](State &s, Args &a, CallInfo &) -> bool { incomplete(s, cstr(s, C(s, a, 0))); });
  B("sx_done", [](State &, Args &, CallInfo &) -> bool { g_paths++; throw PathEnd(); });
  B("sx_heap_live", [](State &s, Args &, CallInfo &) { setRet(s, cval(s.mem.heapLive)); return true; });
  B("sx_print", [C](State &s, Args &a, CallInfo &) { fprintf(stderr, "[%llu] %s", (unsigned long long)s.id, cstr(s, C(s, a, 0)).c_str()); return true; });
  B("sx_print_val", [](State &s, Args &a, CallInfo &) { fprintf(stderr, "[%llu] val %s\n", (unsigned long long)s.id, a[0].e ? exprStr(a[0].e, 8).c_str() : std::to_string(a[0].c).c_str()); return true; });
  B("sx_valid", [C](State &s, Args &a, CallInfo &) { uint64_t p = C(s, a, 0), n = C(s, a, 1); Obj *o = s.mem.find(p >> OBJ_SHIFT); setRet(s, cval(o && (p & ((1ull << OBJ_SHIFT) - 1)) + n <= o->size)); return true; });
  B("sx_same", [](State &s, Args &a, CallInfo &) { Expr *x = toE(a[0], 64), *y = toE(a[1], 64); if (canonEqual(x, y)) setRet(s, cval(1)); else setRet(s, eval2(mkZExt(mkEq(x, y), 32))); return true; });
  B("sx_is_const", [](State &s, Args &a, CallInfo &) { setRet(s, cval(!a[0].e)); return true; });
  B("sx_ite", [](State &s, Args &a, CallInfo &) { if (!a[0].e) setRet(s, (a[0].c & 0xffffffff) ? a[1] : a[2]); else setRet(s, eval2(mkIte(mkNot(mkEq(a[0].e, mkConst(0, a[0].e->w))), toE(a[1], 64), toE(a[2], 64)))); return true; });
  B("sx_host_fmt_double", [C](State &s, Args &a, CallInfo &) {
    uint64_t d = C(s, a, 0), n = C(s, a, 1); std::string f = cstr(s, C(s, a, 2));
    if (a[3].e) incomplete(s, "formatting of a symbolic floating-point value");
    double x; memcpy(&x, &a[3].c, 8); std::vector<char> b(1024); int l = snprintf(b.data(), b.size(), f.c_str(), x);
    for (uint64_t i = 0; i <= (uint64_t)l && i < n; i++) writeC(s, d + i, 8, cval((uint8_t)(i + 1 == n ? 0 : b[i])));
    setRet(s, cval((uint32_t)l)); return true; });
  B("sx_host_strtod", [C](State &s, Args &a, CallInfo &) {
    uint64_t p = C(s, a, 0), e = C(s, a, 1); std::string t;
    for (int i = 0; i < 400; i++) { Val v = readC(s, p + i, 8); uint64_t c = concretize(s, v, 8); if (!c) break; t += (char)c; }
    char *end; double x = strtod(t.c_str(), &end); uint64_t r; memcpy(&r, &x, 8);
    if (e) writeC(s, e, 64, cval(p + (end - t.c_str())));
    setRet(s, cval(r)); return true; });
  // threads
  B("sx_thread_create", [C](State &s, Args &a, CallInfo &) {
    uint64_t fa = C(s, a, 0), arg = C(s, a, 1); Fn *f = fnByAddr(fa);
    if (!f || f->decl) incomplete(s, "thread entry is not a defined function");
    int self = s.cur; s.threads.emplace_back(); s.cur = s.threads.size() - 1; pushFrame(s, f, {cval(arg)}); int t = s.cur; s.cur = self;
    setRet(s, cval(t)); return true; });
  B("sx_thread_switch", [C](State &s, Args &a, CallInfo &) {
    uint64_t t = C(s, a, 0, 32);
    if (t >= s.threads.size() || s.threads[t].done) fail(s, "scheduler", "switch to a finished thread");
    finishCall(s); s.cur = t; g_transitions++;
    return false; });
  B("sx_thread_finish", [C](State &s, Args &a, CallInfo &) { // current thread ends, control moves to t
    uint64_t t = C(s, a, 0, 32); s.th().done = true; while (!s.th().stack.empty()) popFrame(s); s.cur = t; g_transitions++; return false; });
  B("sx_thread_self", [](State &s, Args &, CallInfo &) { setRet(s, cval(s.cur)); return true; });
  // intrinsics
  I("llvm.trap", [](State &s, Args &, CallInfo &) -> bool { fail(s, "trap", "trap executed"); });
  I("llvm.ubsantrap", [C](State &s, Args &a, CallInfo &) -> bool { fail(s, "ubsan", "undefined behaviour check " + std::to_string(a[0].c)); });
  I("llvm.expect", [](State &s, Args &a, CallInfo &) { setRet(s, a[0]); return true; });
  for (const char *n : {"llvm.launder.invariant.group", "llvm.strip.invariant.group", "llvm.ssa.copy", "llvm.ptr.annotation", "llvm.threadlocal.address", "llvm.arithmetic.fence", "llvm.canonicalize"})
    I(n, [](State &s, Args &a, CallInfo &) { if (!a[0].e) { setRet(s, cval(tlsAddr(s, a[0].c))); } else setRet(s, a[0]); return true; });
  I("llvm.lifetime.start", [](State &s, Args &a, CallInfo &) { (void)s; (void)a; return true; });
  I("llvm.stacksave", [](State &s, Args &, CallInfo &) { setRet(s, cval(0)); return true; });
  I("llvm.stackrestore", [](State &, Args &, CallInfo &) { return true; });
  I("llvm.is.constant", [](State &s, Args &, CallInfo &) { setRet(s, cval(0)); return true; });
  I("llvm.objectsize", [](State &s, Args &, CallInfo &) { setRet(s, cval(~0ull)); return true; });
  I("llvm.eh.typeid.for", [C](State &s, Args &a, CallInfo &) { setRet(s, cval(msk(typeId(C(s, a, 0)), 32))); return true; });
  I("llvm.va_start", [C](State &s, Args &a, CallInfo &) {
    uint64_t va = C(s, a, 0); Frame &f = s.fr();
    uint64_t id = s.mem.alloc(f.vargs.size() * 16 + 16, M_STACK, true, "varargs"); f.allocas.push_back(id);
    uint64_t p = id << OBJ_SHIFT, q = p;
    auto va_args = f.vargs;
    for (auto &v : va_args) { unsigned w = v.second; Val x = v.first; if (w < 64) { x = x.e ? eval2(mkZExt(x.e, 64)) : x; w = 64; } writeC(s, q, w, x); q += (w + 63) / 64 * 8; }
    writeC(s, va, 32, cval(48)); writeC(s, va + 4, 32, cval(176)); writeC(s, va + 8, 64, cval(p)); writeC(s, va + 16, 64, cval(p)); return true; });
  I("llvm.va_end", [](State &, Args &, CallInfo &) { return true; });
  I("llvm.va_copy", [C](State &s, Args &a, CallInfo &) { copyMem(s, C(s, a, 0), C(s, a, 1), 24); return true; });
  auto mm = [](Kind cmp, bool swap) { return [=](State &s, Args &a, CallInfo &ci) { unsigned w = ci.argw[0]; Expr *x = toE(a[0], w), *y = toE(a[1], w); setRet(s, eval2(mkIte(swap ? mkBin(cmp, y, x) : mkBin(cmp, x, y), x, y))); return true; }; };
  I("llvm.smin", mm(K_SLT, false)); I("llvm.smax", mm(K_SLT, true)); I("llvm.umin", mm(K_ULT, false)); I("llvm.umax", mm(K_ULT, true));
  I("llvm.abs", [](State &s, Args &a, CallInfo &ci) { unsigned w = ci.argw[0]; Expr *x = toE(a[0], w); setRet(s, eval2(mkIte(mkBin(K_SLT, x, mkConst(0, w)), mkBin(K_SUB, mkConst(0, w), x), x))); return true; });
  auto satf = [](Kind k, bool sgn) { return [=](State &s, Args &a, CallInfo &ci) {
    unsigned w = ci.argw[0]; Expr *x = toE(a[0], w), *y = toE(a[1], w); Expr *r = mkBin(k, x, y), *o;
    if (!sgn) o = k == K_ADD ? mkBin(K_ULT, r, x) : mkBin(K_ULT, x, y); else o = mkFalse();
    setRet(s, eval2(mkIte(o, k == K_ADD ? mkConst(maskw(w), w) : mkConst(0, w), r))); return true; }; };
  I("llvm.uadd.sat", satf(K_ADD, false)); I("llvm.usub.sat", satf(K_SUB, false));
  auto ovf = [](Kind k, bool sgn) { return [=](State &s, Args &a, CallInfo &ci) {
    unsigned w = ci.argw[0]; Expr *x = toE(a[0], w), *y = toE(a[1], w); Expr *r = mkBin(k, x, y), *o;
    unsigned w2 = k == K_MUL ? 2 * w : w + 1;
    if (w2 <= 128) { Expr *X = sgn ? mkSExt(x, w2) : mkZExt(x, w2), *Y = sgn ? mkSExt(y, w2) : mkZExt(y, w2); Expr *R = mkBin(k, X, Y); o = mkNot(mkEq(R, sgn ? mkSExt(r, w2) : mkZExt(r, w2))); }
    else incomplete(s, "overflow intrinsic too wide");
    Frame &f = s.fr(); Inst &in = f.fn->code[f.pc]; f.regs[in.dst] = eval2(r); f.regs[in.dst + 1] = eval2(o); return true; }; };
  I("llvm.sadd.with.overflow", ovf(K_ADD, true)); I("llvm.uadd.with.overflow", ovf(K_ADD, false)); I("llvm.ssub.with.overflow", ovf(K_SUB, true)); I("llvm.usub.with.overflow", ovf(K_SUB, false)); I("llvm.smul.with.overflow", ovf(K_MUL, true)); I("llvm.umul.with.overflow", ovf(K_MUL, false));
  I("llvm.bswap", [](State &s, Args &a, CallInfo &ci) { unsigned w = ci.argw[0]; Expr *x = toE(a[0], w); Expr *r = mkExtract(x, 0, 8); for (unsigned i = 8; i < w; i += 8) r = mkConcat(r, mkExtract(x, i, 8)); setRet(s, eval2(r)); return true; });
  I("llvm.ctpop", [](State &s, Args &a, CallInfo &ci) { unsigned w = ci.argw[0]; Expr *x = toE(a[0], w); Expr *r = mkConst(0, w); for (unsigned i = 0; i < w; i++) { Expr *b = mkExtract(x, i, 1); r = mkBin(K_ADD, r, w > 1 ? mkZExt(b, w) : b); } setRet(s, eval2(r)); return true; });
  I("llvm.ctlz", [](State &s, Args &a, CallInfo &ci) { unsigned w = ci.argw[0]; Expr *x = toE(a[0], w); Expr *r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(x, i, 1), mkConst(w - 1 - i, w), r); setRet(s, eval2(r)); return true; });
  I("llvm.cttz", [](State &s, Args &a, CallInfo &ci) { unsigned w = ci.argw[0]; Expr *x = toE(a[0], w); Expr *r = mkConst(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(x, i, 1), mkConst(i, w), r); setRet(s, eval2(r)); return true; });
  auto fsh = [](bool left) { return [=](State &s, Args &a, CallInfo &ci) {
    unsigned w = ci.argw[0]; Expr *x = toE(a[0], w), *y = toE(a[1], w), *z = toE(a[2], w);
    Expr *n = mkBin(K_UREM, z, mkConst(w, w)), *inv = mkBin(K_SUB, mkConst(w, w), n); Expr *zero = mkEq(n, mkConst(0, w));
    Expr *r = left ? mkIte(zero, x, mkBin(K_OR, mkBin(K_SHL, x, n), mkBin(K_LSHR, y, inv))) : mkIte(zero, y, mkBin(K_OR, mkBin(K_SHL, x, inv), mkBin(K_LSHR, y, n)));
    setRet(s, eval2(r)); return true; }; };
  I("llvm.fshl", fsh(true)); I("llvm.fshr", fsh(false));
  auto fun = [](Kind k) { return [=](State &s, Args &a, CallInfo &ci) { unsigned w = ci.argw[0]; setRet(s, eval2(mkFun(k, toE(a[0], w), w))); return true; }; };
  I("llvm.fabs", fun(K_FABS)); I("llvm.sqrt", fun(K_FSQRT)); I("llvm.floor", fun(K_FFLOOR)); I("llvm.ceil", fun(K_FCEIL)); I("llvm.trunc", fun(K_FTRUNC)); I("llvm.rint", fun(K_FRINT)); I("llvm.nearbyint", fun(K_FRINT)); I("llvm.round", fun(K_FROUND));
  for (auto p : std::vector<std::pair<const char *, Kind>>{{"fabs", K_FABS}, {"sqrt", K_FSQRT}, {"floor", K_FFLOOR}, {"ceil", K_FCEIL}, {"trunc", K_FTRUNC}, {"rint", K_FRINT}, {"round", K_FROUND}, {"fabsf", K_FABS}, {"floorf", K_FFLOOR}, {"ceilf", K_FCEIL}, {"roundf", K_FROUND}, {"truncf", K_FTRUNC}, {"sqrtf", K_FSQRT}}) B(p.first, fun(p.second));
  B("fmod", [](State &s, Args &a, CallInfo &ci) { setRet(s, eval2(mkBin(K_FREM, toE(a[0], 64), toE(a[1], 64)))); return true; });
  auto f2 = [](Kind) { return 0; }; (void)f2;
  I("llvm.fmuladd", [](State &s, Args &a, CallInfo &ci) { unsigned w = ci.argw[0]; setRet(s, eval2(mkBin(K_FADD, mkBin(K_FMUL, toE(a[0], w), toE(a[1], w)), toE(a[2], w)))); return true; });
  I("llvm.copysign", [](State &s, Args &a, CallInfo &ci) { unsigned w = ci.argw[0]; Expr *sb = mkConst((u128)1 << (w - 1), w), *nb = mkConst(maskw(w - 1), w); setRet(s, eval2(mkBin(K_OR, mkBin(K_AND, toE(a[0], w), nb), mkBin(K_AND, toE(a[1], w), sb)))); return true; });
  auto fmm = [](bool mx) { return [=](State &s, Args &a, CallInfo &ci) { unsigned w = ci.argw[0]; Expr *x = toE(a[0], w), *y = toE(a[1], w); Expr *c = mx ? mkBin(K_FLT, x, y) : mkBin(K_FLT, y, x); setRet(s, eval2(mkIte(c, y, x))); return true; }; };
  I("llvm.maxnum", fmm(true)); I("llvm.minnum", fmm(false));
}

static bool doBuiltin(State &s, int idx, Args &a, CallInfo &ci) {
  return g_b[idx](s, a, ci);
}

// ---- main step ----
static void endThreadBottom(State &s) {
  if (s.cur == 0) { g_paths++; throw PathEnd(); }
  fail(s, "scheduler", "thread function returned to the engine");
}

static void step(State &s) {
  Frame *fp = &s.fr();
  Fn *fn = fp->fn;
  for (;;) {
    Inst &in = fn->code[fp->pc];
    fn->hit[fp->pc] = 1;
    s.insts++; g_totalInsts++;
    Frame &f = *fp;
    switch (in.op) {
    case O_ADD: case O_SUB: case O_MUL: case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: case O_AND: case O_OR: case O_XOR: case O_SHL: case O_LSHR: case O_ASHR:
      f.regs[in.dst] = binop(s, in.op, in.w, opv(f, in.a), opv(f, in.b)); f.pc++; break;
    case O_FBIN: f.regs[in.dst] = eval2(mkBin((Kind)in.x, toE(opv(f, in.a), in.w), toE(opv(f, in.b), in.w))); f.pc++; break;
    case O_FUN: f.regs[in.dst] = eval2(mkFun((Kind)in.x, toE(opv(f, in.a), in.w2), in.w)); f.pc++; break;
    case O_ICMP: f.regs[in.dst] = icmp(in.x, in.w, opv(f, in.a), opv(f, in.b)); f.pc++; break;
    case O_FCMP: f.regs[in.dst] = fcmp(in.x, in.w, opv(f, in.a), opv(f, in.b)); f.pc++; break;
    case O_TRUNC: { Val v = opv(f, in.a); f.regs[in.dst] = v.e ? eval2(mkExtract(v.e, 0, in.w)) : cval(msk(v.c, in.w)); f.pc++; break; }
    case O_ZEXT: { Val v = opv(f, in.a); f.regs[in.dst] = (v.e || in.w > 64) ? eval2(mkZExt(toE(v, in.w2), in.w)) : v; f.pc++; break; }
    case O_SEXT: { Val v = opv(f, in.a); f.regs[in.dst] = (v.e || in.w > 64) ? eval2(mkSExt(toE(v, in.w2), in.w)) : cval(msk((uint64_t)sx64(v.c, in.w2), in.w)); f.pc++; break; }
    case O_COPY: f.regs[in.dst] = opv(f, in.a); f.pc++; break;
    case O_SELECT: {
      Val c = opv(f, in.c);
      if (!c.e) f.regs[in.dst] = (c.c & 1) ? opv(f, in.a) : opv(f, in.b);
      else { Val x = opv(f, in.a), y = opv(f, in.b); f.regs[in.dst] = eval2(mkIte(c.e, toE(x, in.w), toE(y, in.w))); }
      f.pc++; break; }
    case O_GEP: {
      Val b = opv(f, in.a); const auto &gi = fn->geps[in.x];
      if (!b.e) { b.c += in.imm; } else if (in.imm) b = eval2(mkBin(K_ADD, b.e, mkConst((uint64_t)in.imm, 64)));
      for (auto &g : gi) {
        Val i = opv(f, g.op);
        if (!i.e) { uint64_t o = (uint64_t)sx64(i.c, g.w) * g.scale; if (!b.e) b.c += o; else b = eval2(mkBin(K_ADD, b.e, mkConst(o, 64))); }
        else { Expr *o = i.e; if (g.w < 64) o = mkSExt(o, 64); o = mkBin(K_MUL, o, mkConst((uint64_t)g.scale, 64)); b = eval2(mkBin(K_ADD, toE(b, 64), o)); }
      }
      f.regs[in.dst] = b; f.pc++; break; }
    case O_LOAD: { Val v = load(s, opv(f, in.a), in.imm, in.w); f.regs[in.dst] = v; f.pc++; break; }
    case O_STORE: store(s, opv(f, in.a), in.imm, in.w, opv(f, in.b)); f.pc++; break;
    case O_ALLOCA: {
      uint64_t n = concretize(s, opv(f, in.a), in.w) * in.imm;
      if (n > MAX_ALLOC) fail(s, "stack-overflow", "huge stack allocation");
      uint64_t id = s.mem.alloc((uint32_t)n, M_STACK, true, nullptr); f.allocas.push_back(id); f.regs[in.dst] = cval(id << OBJ_SHIFT); f.pc++; break; }
    case O_BR: takeEdge(s, f, in.a); break;
    case O_CBR: {
      Val c = opv(f, in.a);
      if (!c.e) { takeEdge(s, f, (c.c & 1) ? in.b : in.c); }
      else { bool t = branch(s, c.e); takeEdge(s, f, t ? in.b : in.c); g_transitions++; }
      if (s.insts > g_maxPathInsts) fail(s, "hang", "path exceeds the instruction budget (suspected non-termination)");
      if ((g_totalInsts & 0xffff) < 16 && elapsed() > g_maxTime) return;
      break; }
    case O_SWITCH: {
      Val c = opv(f, in.a); const SwitchInfo &si = fn->switches[in.x];
      if (!c.e) { int e = si.def; for (auto &p : si.cases) if (p.first == c.c) { e = p.second; break; } takeEdge(s, f, e); }
      else {
        uint64_t mv = (uint64_t)evalExpr(c.e, *s.model); int e = si.def; Expr *cond = nullptr;
        // group cases by target
        for (auto &p : si.cases) if (p.first == mv) { e = p.second; break; }
        int tgt = fn->edges[e].target;
        auto sameEdge = [&](int x) { return x == e || ((int)fn->edges[x].target == tgt && fn->edges[x].moves.size() == fn->edges[e].moves.size() && std::equal(fn->edges[x].moves.begin(), fn->edges[x].moves.end(), fn->edges[e].moves.begin(), [](const Move &a, const Move &b) { return a.dst == b.dst && a.src == b.src; })); };
        Expr *in_ = mkFalse(), *out_ = mkTrue();
        for (auto &p : si.cases) { Expr *q = mkEq(c.e, mkConst(p.first, in.w)); if (sameEdge(p.second)) in_ = mkBin(K_OR, in_, q); else out_ = mkBin(K_AND, out_, mkNot(q)); }
        cond = sameEdge(si.def) ? out_ : in_;
        if (!branch(s, cond)) abort();
        takeEdge(s, f, e); g_transitions++;
      }
      break; }
    case O_RET: {
      Val rv[16]; std::vector<Val> big; int k = in.b; Val *r = rv;
      if (k > 16) { big.resize(k); r = big.data(); }
      for (int i = 0; i < k; i++) r[i] = opv(f, in.a + i);
      bool disc = f.discardRet; int after = f.afterRet; uint64_t afterArg = f.afterArg;
      popFrame(s);
      if (s.th().stack.empty()) { endThreadBottom(s); return; }
      if (after == 1) s.mem.release(afterArg >> OBJ_SHIFT);
      Frame &g = s.fr(); Inst &ci = g.fn->code[g.pc];
      if (!disc) for (int i = 0; i < k && i < g.fn->calls[ci.x].retSlots; i++) g.regs[ci.dst + i] = r[i];
      finishCall(s);
      fp = &s.fr(); fn = fp->fn; break; }
    case O_CALL: case O_INVOKE: {
      CallInfo &ci = fn->calls[in.x];
      Args args; args.reserve(ci.args.size());
      for (int32_t a : ci.args) args.push_back(opv(f, a));
      if (ci.intrinsic) {
        if (ci.intrinsic < 0) {
          // lane-wise vector or unknown intrinsic
          incomplete(s, "unsupported intrinsic " + ci.fn->name);
        }
        if (ci.fn->name.find(".v") != std::string::npos && ci.retSlots > 1 && ci.fn->name.find("with.overflow") == std::string::npos) incomplete(s, "vector intrinsic " + ci.fn->name);
        if (doBuiltin(s, ci.intrinsic - 1, args, ci)) finishCall(s);
        fp = &s.fr(); fn = fp->fn; break;
      }
      Fn *cf = ci.fn;
      if (!cf) {
        uint64_t a = concretize(s, opv(f, ci.callee), 64);
        cf = fnByAddr(a);
        if (!cf) fail(s, "memory", "indirect call to an invalid address: " + ptrDesc(s, a));
      }
      if (cf->builtin >= 0) {
        if (doBuiltin(s, cf->builtin, args, ci)) finishCall(s);
        if (s.th().stack.empty()) { endThreadBottom(s); }
        fp = &s.fr(); fn = fp->fn; break;
      }
      if (cf->decl) incomplete(s, "call to unmodelled external function " + demangle(cf->name));
      std::vector<uint64_t> byvalObjs;
      for (size_t i = 0; i < args.size(); i++) if (ci.argByval[i]) {
        uint64_t src = concretize(s, args[i], 64); uint32_t n = ci.argByval[i];
        uint64_t id = s.mem.alloc(n, M_STACK, true, "byval"); copyMem(s, id << OBJ_SHIFT, src, n); byvalObjs.push_back(id); args[i] = cval(id << OBJ_SHIFT);
      }
      // make sure argument width conversions are consistent (callee may disagree for varargs only)
      pushFrame(s, cf, args);
      Frame &g = s.fr();
      g.allocas = byvalObjs;
      if (cf->vararg) for (size_t i = ci.nfixed; i < args.size(); i++) g.vargs.push_back({args[i], ci.argw[i]});
      fp = &g; fn = fp->fn; break; }
    case O_UNREACH: fail(s, "unreachable", "unreachable code executed (undefined behaviour)");
    case O_LPAD: f.regs[in.dst] = cval(s.th().excPtr); f.regs[in.dst + 1] = cval(msk((uint64_t)s.th().excSel, 32)); f.pc++; break;
    case O_RESUME: { uint64_t o = concretize(s, opv(f, in.a), 64); popFrame(s); unwind(s, o); fp = &s.fr(); fn = fp->fn; break; }
    case O_CMPXCHG: {
      Val p = opv(f, in.a); Val old = load(s, p, 0, in.w); Val exp = opv(f, in.b);
      Val eq = icmp(P_EQ, in.w, old, exp);
      bool t = eq.e ? branch(s, eq.e) : eq.c & 1;
      if (t) store(s, p, 0, in.w, opv(f, in.c));
      f.regs[in.dst] = old; f.regs[in.dst + 1] = cval(t); f.pc++; break; }
    case O_RMW: {
      Val p = opv(f, in.a), v = opv(f, in.b); Val old = load(s, p, 0, in.w); Val nv;
      switch (in.x) { // AtomicRMWInst::BinOp
      case 0: nv = v; break; case 1: nv = binop(s, O_ADD, in.w, old, v); break; case 2: nv = binop(s, O_SUB, in.w, old, v); break; case 3: nv = binop(s, O_AND, in.w, old, v); break;
      case 4: nv = binop(s, O_AND, in.w, old, v); nv = binop(s, O_XOR, in.w, nv, cval(msk(~0ull, in.w))); break; case 5: nv = binop(s, O_OR, in.w, old, v); break; case 6: nv = binop(s, O_XOR, in.w, old, v); break;
      default: incomplete(s, "atomicrmw operation"); }
      store(s, p, 0, in.w, nv); f.regs[in.dst] = old; f.pc++; break; }
    case O_PACK: { Expr *e = toE(opv(f, in.a), in.w2); for (int i = 1; i < in.b; i++) e = mkConcat(toE(opv(f, in.a + i), in.w2), e); f.regs[in.dst] = eval2(e); f.pc++; break; }
    case O_UNPACK: { Expr *e = toE(opv(f, in.a), in.w2); for (int i = 0; i < in.b; i++) f.regs[in.dst + i] = eval2(mkExtract(e, in.w * i, in.w)); f.pc++; break; }
    case O_UNDEF: f.regs[in.dst] = Val{0, pathVar(s, "undef", in.w, true)}; f.pc++; break;
    case O_NOP: f.pc++; break;
    default: incomplete(s, "unsupported instruction: " + instText(fn, f.pc));
    }
  }
}

static void sample(State &s) {
  g_sampleSeen++;
  static uint64_t rng = g_seed * 0x9E3779B97F4A7C15ull + 1;
  rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
  int slot = -1;
  if ((int)g_samples.size() < g_nSamples) { slot = (int)g_samples.size(); g_samples.push_back(""); }
  else { uint64_t k = rng % g_sampleSeen; if (k < (uint64_t)g_nSamples) slot = (int)k; }
  if (slot < 0) return;
  // diversify: move each input to a random value that still satisfies the path condition
  Model m = *s.model; if (m.v.size() < g_vars.size()) m.v.resize(g_vars.size(), 0);
  std::map<uint32_t, std::vector<Expr *>> by;
  for (Expr *c : s.cs) for (uint32_t v : varsOf(c)->v) by[v].push_back(c);
  auto rnd = [&]() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; };
  auto sane = [&](uint32_t v) { evalReset(); for (Expr *c : by[v]) if (!evalExpr(c, m)) return false; return true; };
  int budget = 300;
  for (auto &in : s.inputs) {
    if (in.bits == 0 || in.var >= m.v.size() || g_vars[in.var].uninit || by[in.var].size() > 60 || budget-- < 0) continue;
    u128 old = m.v[in.var];
    for (int t = 0; t < 4; t++) {
      u128 c = t == 0 ? (u128)rnd() : t == 1 ? (u128)(32 + rnd() % 95) : t == 2 ? (u128)(rnd() % 7) : old + (rnd() % 2 ? 1 : -1);
      m.v[in.var] = c & maskw(in.bits);
      if (sane(in.var)) { old = m.v[in.var]; break; }
    }
    m.v[in.var] = old;
  }
  evalReset();
  for (Expr *c : s.cs) if (!evalExpr(c, m)) { m = *s.model; evalReset(); break; }
  g_samples[slot] = inputsStr(s, m) + "--\n" + obsStr(s, m);
}

int main(int argc, char **argv) {
  std::string bc, entry = "harness_main", out; unsigned to = 60000;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--out") out = nx(); else if (a == "--solver-timeout") to = atoi(nx().c_str());
    else if (a == "--max-time") g_maxTime = atof(nx().c_str()); else if (a == "--max-insts") g_maxPathInsts = strtoull(nx().c_str(), 0, 10); else if (a == "--max-paths") g_maxPaths = strtoull(nx().c_str(), 0, 10);
    else if (a == "--max-viol") g_maxViol = atoi(nx().c_str()); else if (a == "--seed") g_seed = strtoull(nx().c_str(), 0, 10); else if (a == "--samples") g_nSamples = atoi(nx().c_str());
    else if (a == "--dump") g_dumpDir = nx(); else if (a == "--dump-max") g_dumpMax = atoi(nx().c_str()); else if (a == "--trace") g_trace = true; else bc = a;
  }
  g_t0 = std::chrono::steady_clock::now();
  solverInit(to);
  initBuiltins();
  State *init = new State; init->id = 0; init->model = std::make_shared<Model>();
  if (!loadModule(bc, *init)) return 3;
  if (!g_fnByName.count(entry)) { fprintf(stderr, "sxe: no entry %s\n", entry.c_str()); return 3; }
  init->threads.emplace_back();
  bool ctorFail = false;
  {
    // global constructors, run concretely in order
    uint64_t p0 = g_paths;
    for (Fn *f : g_ctors) {
      pushFrame(*init, f, {});
      try { while (true) step(*init); } catch (PathEnd &) { if (g_paths == p0) { ctorFail = true; break; } p0 = g_paths; }
    }
    g_paths = 0; init->insts = 0;
    if (!g_work.empty()) { fprintf(stderr, "sxe: global constructors forked\n"); g_incomplete["global constructors forked"]++; }
  }
  if (!ctorFail) { pushFrame(*init, g_fnByName[entry], {}); g_work.push_back(init); }
  double lastp = 0; bool timeout = false; uint64_t maxPathLen = 0;
  while (!g_work.empty()) {
    State *s = g_work.back(); g_work.pop_back();
    uint64_t p0 = g_paths;
    try { step(*s); g_work.push_back(s); timeout = true; break; } catch (PathEnd &) { }
    if (g_paths > p0) sample(*s);
    maxPathLen = std::max(maxPathLen, s->insts);
    delete s;
    if ((int)g_viol.size() >= g_maxViol) break;
    if (elapsed() > g_maxTime || g_paths > g_maxPaths) { if (!g_work.empty()) timeout = true; break; }
    if (elapsed() - lastp > 10) { lastp = elapsed(); fprintf(stderr, "sxe: %.0fs paths=%llu work=%zu insts=%llu queries=%llu qtime=%.1f exprs=%llu\n", lastp, (unsigned long long)g_paths, g_work.size(), (unsigned long long)g_totalInsts, (unsigned long long)g_ss.queries, g_ss.time, (unsigned long long)exprCount()); }
  }
  if (timeout) g_incomplete["exploration budget exhausted (time/paths)"]++;
  if (g_viol.empty()) for (auto &m : g_must) if (!g_reached.count(m)) g_incomplete["vacuous: reachability witness '" + m + "' was never reached"]++;
  if (g_ss.unknown && g_incomplete.empty()) g_incomplete["solver returned unknown"]++;
  FILE *o = out.empty() ? stdout : fopen(out.c_str(), "w");
  fprintf(o, "{\"entry\":%s,\"paths\":%llu,\"forks\":%llu,\"killed\":%llu,\"assume_pruned\":%llu,\"insts\":%llu,\"max_path_insts\":%llu,\"transitions\":%llu,\"assert_checks\":%llu,\"assert_discharged\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"model_hits\":%llu,\"portfolio\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"wall_s\":%.3f,\"vars\":%zu,\n",
    jstr(entry).c_str(), (unsigned long long)g_paths, (unsigned long long)g_forks, (unsigned long long)g_killed, (unsigned long long)g_assumePruned, (unsigned long long)g_totalInsts, (unsigned long long)maxPathLen, (unsigned long long)g_transitions, (unsigned long long)g_assertQueries, (unsigned long long)g_assertProved, (unsigned long long)g_ss.queries, (unsigned long long)g_ss.sat, (unsigned long long)g_ss.unsat, (unsigned long long)g_ss.unknown, (unsigned long long)g_ss.cacheHits, (unsigned long long)g_ss.modelHits, (unsigned long long)g_ss.portfolio, g_ss.time, g_ss.maxq, elapsed(), g_vars.size());
  fprintf(o, "\"violations\":[");
  for (size_t i = 0; i < g_viol.size(); i++) { auto &v = g_viol[i]; fprintf(o, "%s{\"kind\":%s,\"msg\":%s,\"loc\":%s,\"stack\":%s,\"inputs\":%s,\"obs\":%s}", i ? ",\n" : "", jstr(v.kind).c_str(), jstr(v.msg).c_str(), jstr(v.loc).c_str(), jstr(v.stack).c_str(), jstr(v.inputs).c_str(), jstr(v.obs).c_str()); }
  fprintf(o, "],\n\"incomplete\":["); bool first = true;
  for (auto &p : g_incomplete) { fprintf(o, "%s%s", first ? "" : ",", jstr(p.first).c_str()); first = false; }
  fprintf(o, "],\n\"reached\":["); first = true; for (auto &t : g_reached) { fprintf(o, "%s%s", first ? "" : ",", jstr(t).c_str()); first = false; }
  fprintf(o, "],\n\"asserts\":{"); first = true; for (auto &t : g_assertCount) { fprintf(o, "%s%s:%llu", first ? "" : ",", jstr(t.first).c_str(), (unsigned long long)t.second); first = false; }
  fprintf(o, "},\n\"samples\":["); first = true; for (auto &t : g_samples) { fprintf(o, "%s%s", first ? "" : ",", jstr(t).c_str()); first = false; }
  fprintf(o, "],\n\"functions\":["); first = true;
  std::map<std::string, std::array<uint64_t, 2>> sc; for (Fn *f : g_fns) if (f->callsExec) repoScopes(f, sc);
  for (auto &p : sc) if (p.second[1]) { fprintf(o, "%s{\"name\":%s,\"insts\":%llu,\"covered\":%llu}", first ? "" : ",\n", jstr(p.first).c_str(), (unsigned long long)p.second[0], (unsigned long long)p.second[1]); first = false; }
  fprintf(o, "]}\n"); if (o != stdout) fclose(o);
  fprintf(stderr, "sxe: %s paths=%llu viol=%zu incomplete=%zu insts=%llu queries=%llu solver=%.2fs wall=%.2fs\n", entry.c_str(), (unsigned long long)g_paths, g_viol.size(), g_incomplete.size(), (unsigned long long)g_totalInsts, (unsigned long long)g_ss.queries, g_ss.time, elapsed());
  _exit(!g_viol.empty() ? 1 : g_incomplete.empty() ? 0 : 2);
}
