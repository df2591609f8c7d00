// Bit-vector expression DAG with hash-consing and local simplification.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <unordered_map>
#include <memory>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum Kind : uint8_t {
  K_CONST, K_VAR,
  K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
  K_AND, K_OR, K_XOR, K_NOT, K_SHL, K_LSHR, K_ASHR,
  K_EQ, K_ULT, K_ULE, K_SLT, K_SLE,
  K_ITE, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT,
  // floating point on IEEE bit patterns (w = 32 or 64)
  K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FREM, K_FSQRT, K_FNEG, K_FABS,
  K_FEQ, K_FLT, K_FLE, K_FUNO,
  K_FPTOSI, K_FPTOUI, K_SITOFP, K_UITOFP, K_FPEXT, K_FPTRUNC,
  K_FFLOOR, K_FCEIL, K_FTRUNC, K_FRINT, K_FROUND
};

struct VarSet { std::vector<uint32_t> v; };

struct Expr {
  Kind k; uint16_t w; uint8_t n;
  uint32_t id;
  uint32_t lo = 0;            // extract low bit / var index
  Expr *a[3] = {0, 0, 0};
  u128 c = 0;                 // constant value
  u128 kz = 0, ko = 0;        // known-zero / known-one bits
  VarSet *vars = nullptr;     // cached variable set
  void *ast = nullptr;        // Z3_ast (bv)
  void *bast = nullptr;       // Z3_ast (bool)
  uint32_t ep = 0; u128 ev = 0; // evaluation cache
  bool isConst() const { return k == K_CONST; }
};

struct VarInfo { std::string name; unsigned w; bool uninit; };
extern std::vector<VarInfo> g_vars;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sextw(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  v &= maskw(w);
  if (v >> (w - 1) & 1) return (i128)(v | ~maskw(w));
  return (i128)v;
}

Expr *mkConst(u128 v, unsigned w);
Expr *mkVar(const std::string &name, unsigned w, bool uninit = false);
Expr *mkBin(Kind k, Expr *a, Expr *b);
Expr *mkNot(Expr *a);            // bitwise not
Expr *mkIte(Expr *c, Expr *t, Expr *f);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkExtract(Expr *a, unsigned lo, unsigned w);
Expr *mkByteOf(Expr *a, unsigned lo);  // unsimplified byte, only for memory cells
Expr *mkZExt(Expr *a, unsigned w);
Expr *mkSExt(Expr *a, unsigned w);
Expr *mkFun(Kind k, Expr *a, unsigned w);     // unary fp / conversions
inline Expr *mkEq(Expr *a, Expr *b) { return mkBin(K_EQ, a, b); }
bool canonEqual(Expr *a, Expr *b); // canon.cpp
inline Expr *mkTrue() { return mkConst(1, 1); }
inline Expr *mkFalse() { return mkConst(0, 1); }
inline bool isTrue(Expr *e) { return e->isConst() && e->c == 1; }
inline bool isFalse(Expr *e) { return e->isConst() && e->c == 0; }

u128 foldBin(Kind k, u128 x, u128 y, unsigned w, bool &ok); // w = operand width
u128 foldFun(Kind k, u128 x, unsigned wi, unsigned wo);
VarSet *varsOf(Expr *e);
std::string exprStr(Expr *e, int depth = 6);

struct Model { std::vector<u128> v; uint64_t serial = next(); Model() {} Model(const Model &o) : v(o.v) {} Model &operator=(const Model &o) { v = o.v; serial = next(); return *this; } static uint64_t next(); }; // serial: identity for the evaluation cache
typedef std::shared_ptr<Model> ModelP;
u128 evalExpr(Expr *e, const Model &m);
void evalReset();
uint64_t exprCount();

// ---- solver ----
enum SolveResult { S_SAT, S_UNSAT, S_UNKNOWN };
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, portfolio = 0, intq = 0; double time = 0, maxq = 0; };
extern SolverStats g_ss;
void solverInit(unsigned timeoutMs);
// Checks satisfiability of conj(cs) && q.  base: a model satisfying cs (may be null).
SolveResult solve(const std::vector<Expr *> &cs, Expr *q, const ModelP &base, ModelP &out);
extern std::string g_dumpDir; extern int g_dumpMax;
