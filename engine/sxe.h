// Symbolic executor for LLVM IR: shared declarations (no LLVM headers here).
#pragma once
#include <array>
#include "expr.h"
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <unistd.h>
#include <map>
#include <set>

struct Val { uint64_t c; Expr *e; };          // e == null: concrete value c (<= 64 bits)
inline Val cval(uint64_t c) { return Val{c, nullptr}; }
inline Val eval2(Expr *e) { return (e->isConst() && e->w <= 64) ? Val{(uint64_t)e->c, nullptr} : Val{0, e}; }
inline Expr *toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

enum Op : uint16_t {
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_FBIN,                      // x = expr kind
  O_FUN,                       // unary fp / conversion, x = kind, w = result width, w2 = operand width
  O_ICMP,                      // x = predicate
  O_FCMP, O_TRUNC, O_ZEXT, O_SEXT, O_COPY, O_SELECT,
  O_GEP,                       // a = base, x = gep table index, imm = constant offset
  O_LOAD, O_STORE, O_ALLOCA, O_BR, O_CBR, O_SWITCH, O_RET, O_CALL, O_INVOKE, O_RESUME, O_LPAD, O_UNREACH,
  O_CMPXCHG, O_RMW, O_PACK, O_UNPACK, O_VAARG, O_UNSUP, O_EXTELT, O_INSELT, O_UNDEF, O_NOP
};
enum { P_EQ, P_NE, P_UGT, P_UGE, P_ULT, P_ULE, P_SGT, P_SGE, P_SLT, P_SLE };

struct Fn;
struct GepIdx { int32_t op; uint16_t w; int64_t scale; };
struct Move { int32_t dst, src; };
struct Edge { uint32_t target = 0; std::vector<Move> moves; };
struct Clause { bool filter; std::vector<uint64_t> tis; };
struct LPad { bool cleanup = false; std::vector<Clause> clauses; };
struct CallInfo {
  Fn *fn = nullptr; int32_t callee = 0;
  std::vector<int32_t> args; std::vector<uint16_t> argw; std::vector<uint32_t> argByval;
  std::vector<uint32_t> argIdx; // llvm argument index of each flattened slot
  std::vector<uint8_t> argFp;
  uint32_t nfixed = 0;
  int edgeNormal = -1, edgeUnwind = -1; LPad lpad;
  int retSlots = 0; int intrinsic = 0;
};
struct SwitchInfo { int def; std::vector<std::pair<uint64_t, int>> cases; };

struct Inst {
  uint16_t op, w, w2; uint16_t flag;
  int32_t dst, a, b, c;
  uint32_t x; int64_t imm;
};

struct Fn {
  std::string name; void *llvm = nullptr;
  uint64_t addr = 0;
  bool decl = false, decoded = false, vararg = false; bool inRepo = false;
  int builtin = -1;
  int nslots = 0; std::vector<int32_t> argSlots;
  std::vector<Inst> code; std::vector<void *> src; // llvm::Instruction*
  std::vector<uint8_t> hit;
  std::vector<CallInfo> calls; std::vector<SwitchInfo> switches; std::vector<Edge> edges; std::vector<std::vector<GepIdx>> geps;
  std::vector<LPad> lpads;
  std::string file;
  uint64_t callsExec = 0;
};

extern std::vector<Val> g_consts;            // operand index < 0 refers to g_consts[~idx]
extern std::vector<Fn *> g_fns;
extern std::map<std::string, Fn *> g_fnByName;
Fn *fnByAddr(uint64_t a);

// ---- memory ----
static const int OBJ_SHIFT = 28;
static const uint64_t FIRST_OBJ = 0x100;
enum { M_GLOBAL, M_STACK, M_HEAP, M_FUNC, M_EXT, M_EXC };
extern Expr *const UNINIT;
struct Obj {
  uint32_t rc = 1, size; uint8_t kind = 0, ro = 0, freed = 0, newKind = 0;
  const char *name = nullptr;
  uint8_t *data; Expr **sym = nullptr; // sym[i] == null: concrete data[i]
  Obj(uint32_t sz, bool uninit);
  Obj(const Obj &o);
  ~Obj();
  void ensureSym() { if (!sym) { sym = new Expr *[size ? size : 1]; memset((void *)sym, 0, sizeof(Expr *) * (size ? size : 1)); } }
};

// persistent radix tree of objects (3 levels x 8 bits)
struct Node { uint32_t rc = 1; bool leaf; void *ch[256]; Node(bool l) : leaf(l) { memset(ch, 0, sizeof ch); } };
struct Mem {
  Node *root = nullptr; uint64_t next = 0;
  uint64_t heapLive = 0;
  Mem() {}
  Mem(const Mem &o) : root(o.root), next(o.next), heapLive(o.heapLive) { if (root) root->rc++; }
  Mem &operator=(const Mem &o) = delete;
  ~Mem() { if (root) unref(root); }
  static void unref(Node *n);
  Obj *find(uint64_t id) const {
    uint64_t i = id - FIRST_OBJ; if (i >= next) return nullptr;
    Node *n = root; n = (Node *)n->ch[i >> 16 & 255]; if (!n) return nullptr; n = (Node *)n->ch[i >> 8 & 255]; if (!n) return nullptr;
    return (Obj *)n->ch[i & 255];
  }
  void **slotW(uint64_t id);
  Obj *findW(uint64_t id) { void **s = slotW(id); Obj *o = (Obj *)*s; if (o->rc > 1) { Obj *n = new Obj(*o); o->rc--; *s = n; o = n; } return o; }
  uint64_t alloc(uint32_t size, int kind, bool uninit, const char *name = nullptr);
  void release(uint64_t id);
};

struct Frame {
  Fn *fn; uint32_t pc = 0; std::vector<Val> regs; std::vector<uint64_t> allocas;
  bool discardRet = false; std::vector<uint64_t> va; // va: {reg save area, overflow area}
  int afterRet = 0; uint64_t afterArg = 0;
  std::vector<std::pair<Val, uint16_t>> vargs; std::vector<uint8_t> vargFp;
};
struct Exc { uint64_t tinfo = 0, dtor = 0, adjusted = 0; int handlers = 0; bool rethrown = false; };
struct Thread { std::vector<Frame> stack; std::vector<uint64_t> caught; uint64_t excPtr = 0; int64_t excSel = 0; int uncaught = 0; bool done = false; std::map<uint64_t, uint64_t> tls; };
struct InputRec { std::string name; uint32_t var; uint16_t bits; };
struct ObsRec { std::string tag; Val v; };

struct State {
  uint64_t id; Mem mem; std::vector<Thread> threads; int cur = 0;
  std::vector<Expr *> cs; ModelP model;
  std::map<uint64_t, Exc> excs;
  std::vector<InputRec> inputs; std::vector<ObsRec> obs;
  std::set<uint32_t> tags;
  uint64_t insts = 0; uint32_t depth = 0;
  State() {}
  State(const State &) = default;
  Thread &th() { return threads[cur]; }
  Frame &fr() { return threads[cur].stack.back(); }
};

// decode.cpp
bool loadModule(const std::string &path, State &init);
void decodeFn(Fn *f);
std::string instLoc(Fn *f, uint32_t pc);
std::string instText(Fn *f, uint32_t pc);
void repoScopes(Fn *f, std::map<std::string, std::array<uint64_t, 2>> &out);
extern std::vector<Fn *> g_ctors;
struct TlsInit { uint64_t size; };
extern std::map<uint64_t, bool> g_tlsGlobals; // address of template -> present
std::string demangle(const std::string &);
bool isTypeinfoVtable(uint64_t addr, int &kind); // 1 class, 2 si, 3 vmi
std::string symbolOfGlobal(uint64_t id);
uint64_t globalAddr(const std::string &name);
