// Expression DAG: hash-consed, simplifying builders, exact concrete evaluator.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <deque>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <functional>

enum EK : uint8_t {
  K_CONST, K_VAR, K_UNINIT,
  K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
  K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT, K_ITE, K_EQ, K_ULT, K_ULE, K_SLT, K_SLE,
  // floating point on raw bits (width 64 or 32)
  K_FADD, K_FMUL, K_FDIV, K_FREM, K_FSQRT, K_FROUND /*aux: 0 floor,1 ceil,2 trunc,3 round(half away),4 rint*/,
  K_FEQ, K_FLT, K_FLE, K_FUNO,
  K_F2SI, K_F2UI, K_SI2F, K_UI2F, K_FCONV /* fp width change */,
  K_CALL /* uninterpreted/libm call, aux = function id */
};

struct Expr {
  EK k; uint8_t w; bool uninit; bool hasfp;
  uint32_t id; uint32_t aux; uint64_t c;
  std::vector<const Expr*> a;
};
typedef const Expr* E;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ULL << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }
static inline double bd(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static inline uint64_t db(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static inline float bf(uint64_t v) { uint32_t u = (uint32_t)v; float d; memcpy(&d, &u, 4); return d; }
static inline uint64_t fb(float d) { uint32_t v; memcpy(&v, &d, 4); return v; }
static const uint64_t DSIGN = 1ULL << 63, DINF = 0x7ff0000000000000ULL, DNAN = 0x7ff8000000000000ULL;

// registry of callable functions (libm etc.) : evaluated on the host for concrete values
typedef std::function<uint64_t(const std::vector<uint64_t>&)> HostFn;
struct CallReg { std::string name; HostFn fn; };
extern std::vector<CallReg> g_calls;
int call_id(const std::string& n);
void register_call(const std::string& n, HostFn f);

struct VarInfo { std::string name; uint8_t w; bool isfp; };
extern std::vector<VarInfo> g_vars;      // aux of K_VAR indexes this

E mk_const(uint64_t v, unsigned w);
E mk_var(const std::string& name, unsigned w, bool isfp);
E mk_uninit(unsigned w);
E mk_bin(EK k, E a, E b);
E mk_concat(E hi, E lo);
E mk_extract(E a, unsigned lo, unsigned w);
E mk_zext(E a, unsigned w);
E mk_sext(E a, unsigned w);
E mk_ite(E c, E t, E f);
E mk_eq(E a, E b);
E mk_not(E a);            // width-1
E mk_fadd(E a, E b);
E mk_fneg(E a);
E mk_fabs(E a);
E mk_fsub(E a, E b);
E mk_fmul(E a, E b);
E mk_fdiv(E a, E b);
E mk_fcmp(EK k, E a, E b);
E mk_rebuild(EK k, unsigned w, uint32_t aux, std::vector<E> a);
E mk_un(EK k, E a, unsigned w, unsigned aux = 0);
E mk_call(int id, const std::vector<E>& args, unsigned w);
E mk_isnan(E a);
E mk_isfinite(E a);
extern bool g_realArith;
static inline bool is_c(E e) { return e->k == K_CONST; }

typedef std::unordered_map<uint32_t, uint64_t> Model;   // var aux -> value
struct Evaluator {
  const Model* m;
  std::unordered_map<uint32_t, uint64_t> memo;
  explicit Evaluator(const Model* mm) : m(mm) {}
  uint64_t ev(E e);
};
const std::vector<uint32_t>& vars_of(E e);  // sorted var ids (K_VAR aux; uninit ids offset)
std::string estr(E e, int depth = 6);
uint64_t apply_op(E e, const uint64_t* v);   // evaluate node given arg values
