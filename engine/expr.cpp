#include "expr.h"
#include <unordered_set>
std::vector<CallReg> g_calls;
std::vector<VarInfo> g_vars;
static std::unordered_map<std::string, int> callmap;
int call_id(const std::string& n) { auto it = callmap.find(n); if (it != callmap.end()) return it->second; int id = g_calls.size(); g_calls.push_back({n, nullptr}); callmap[n] = id; return id; }
void register_call(const std::string& n, HostFn f) { g_calls[call_id(n)].fn = f; }

struct EHash { size_t operator()(const Expr* e) const {
  uint64_t h = e->k * 0x9E3779B97F4A7C15ULL + e->w * 0x1234567 + e->aux * 0xff51afd7ed558ccdULL; h ^= e->c * 0xc4ceb9fe1a85ec53ULL;
  for (auto x : e->a) { h = (h ^ x->id) * 0x100000001b3ULL; h ^= h >> 29; } return h; } };
struct EEq { bool operator()(const Expr* a, const Expr* b) const { return a->k == b->k && a->w == b->w && a->aux == b->aux && a->c == b->c && a->a == b->a; } };
static std::unordered_set<const Expr*, EHash, EEq> table;
static std::deque<Expr> arena;
static uint32_t nextid = 1;

static E intern(EK k, unsigned w, uint64_t c, uint32_t aux, std::vector<E> a) {
  Expr t; t.k = k; t.w = w; t.c = c; t.aux = aux; t.a = std::move(a); t.uninit = (k == K_UNINIT); t.hasfp = (k >= K_FADD && k != K_FEQ && k != K_FLT && k != K_FLE && k != K_FUNO);
  for (auto x : t.a) { t.uninit |= x->uninit; t.hasfp |= x->hasfp; }
  auto it = table.find(&t); if (it != table.end()) return *it;
  t.id = nextid++; arena.push_back(std::move(t)); table.insert(&arena.back()); return &arena.back();
}
E mk_const(uint64_t v, unsigned w) { return intern(K_CONST, w, v & maskw(w), 0, {}); }
E mk_var(const std::string& name, unsigned w, bool isfp) { g_vars.push_back({name, (uint8_t)w, isfp}); return intern(K_VAR, w, 0, g_vars.size() - 1, {}); }
E mk_uninit(unsigned w) { return intern(K_UNINIT, w, 0, 0, {}); }

uint64_t apply_op(E e, const uint64_t* v) {
  unsigned w = e->w; uint64_t M = maskw(w);
  unsigned aw = e->a.empty() ? 0 : e->a[0]->w;
  switch (e->k) {
    case K_ADD: return (v[0] + v[1]) & M; case K_SUB: return (v[0] - v[1]) & M; case K_MUL: return (v[0] * v[1]) & M;
    case K_UDIV: return v[1] ? (v[0] / v[1]) & M : M; case K_UREM: return v[1] ? v[0] % v[1] : v[0];
    case K_SDIV: { int64_t a = sx(v[0], w), b = sx(v[1], w); if (b == 0) return a >= 0 ? M : 1; if (b == -1) return (uint64_t)(0 - (uint64_t)a) & M; return (uint64_t)(a / b) & M; }
    case K_SREM: { int64_t a = sx(v[0], w), b = sx(v[1], w); if (b == 0) return v[0]; if (b == -1) return 0; return (uint64_t)(a % b) & M; }
    case K_AND: return v[0] & v[1]; case K_OR: return v[0] | v[1]; case K_XOR: return v[0] ^ v[1];
    case K_SHL: return v[1] >= w ? 0 : (v[0] << v[1]) & M; case K_LSHR: return v[1] >= w ? 0 : v[0] >> v[1];
    case K_ASHR: { int64_t a = sx(v[0], w); return (uint64_t)(a >> (v[1] >= w ? w - 1 : v[1])) & M; }
    case K_CONCAT: return ((v[0] << e->a[1]->w) | v[1]) & M;
    case K_EXTRACT: return (v[0] >> e->aux) & M;
    case K_ZEXT: return v[0]; case K_SEXT: return (uint64_t)sx(v[0], aw) & M;
    case K_ITE: return v[0] ? v[1] : v[2];
    case K_EQ: return v[0] == v[1]; case K_ULT: return v[0] < v[1]; case K_ULE: return v[0] <= v[1];
    case K_SLT: return sx(v[0], aw) < sx(v[1], aw); case K_SLE: return sx(v[0], aw) <= sx(v[1], aw);
    case K_FADD: { if (w == 64) { double r = bd(v[0]) + bd(v[1]); return r != r ? DNAN : db(r); } float r = bf(v[0]) + bf(v[1]); return r != r ? 0x7fc00000u : fb(r); }
    case K_FMUL: { if (w == 64) { double r = bd(v[0]) * bd(v[1]); return r != r ? DNAN : db(r); } float r = bf(v[0]) * bf(v[1]); return r != r ? 0x7fc00000u : fb(r); }
    case K_FDIV: { if (w == 64) { double r = bd(v[0]) / bd(v[1]); return r != r ? DNAN : db(r); } float r = bf(v[0]) / bf(v[1]); return r != r ? 0x7fc00000u : fb(r); }
    case K_FREM: { double r = fmod(bd(v[0]), bd(v[1])); return r != r ? DNAN : db(r); }
    case K_FSQRT: { double r = sqrt(bd(v[0])); return r != r ? DNAN : db(r); }
    case K_FROUND: { double x = bd(v[0]), r; switch (e->aux) { case 0: r = floor(x); break; case 1: r = ceil(x); break; case 2: r = trunc(x); break; case 3: r = round(x); break; default: r = rint(x); } return r != r ? DNAN : db(r); }
    case K_FEQ: return aw == 64 ? bd(v[0]) == bd(v[1]) : bf(v[0]) == bf(v[1]);
    case K_FLT: return aw == 64 ? bd(v[0]) < bd(v[1]) : bf(v[0]) < bf(v[1]);
    case K_FLE: return aw == 64 ? bd(v[0]) <= bd(v[1]) : bf(v[0]) <= bf(v[1]);
    case K_FUNO: return aw == 64 ? (bd(v[0]) != bd(v[0]) || bd(v[1]) != bd(v[1])) : (bf(v[0]) != bf(v[0]) || bf(v[1]) != bf(v[1]));
    case K_F2SI: { double x = aw == 64 ? bd(v[0]) : bf(v[0]); if (x != x || x >= 9.3e18 || x <= -9.3e18) return (1ULL << (w - 1)); if (w == 32 && (x >= 2147483648.0 || x <= -2147483649.0)) return 0x80000000u; return (uint64_t)(int64_t)x & M; }
    case K_F2UI: { double x = aw == 64 ? bd(v[0]) : bf(v[0]); if (x != x || x <= -1.0 || x >= 18446744073709551616.0) return 0; return (uint64_t)x & M; }
    case K_SI2F: { int64_t s = sx(v[0], aw); return w == 64 ? db((double)s) : fb((float)s); }
    case K_UI2F: return w == 64 ? db((double)v[0]) : fb((float)v[0]);
    case K_FCONV: { if (w == 64) { double r = bf(v[0]); return r != r ? DNAN : db(r); } float r = (float)bd(v[0]); return r != r ? 0x7fc00000u : fb(r); }
    case K_CALL: { std::vector<uint64_t> av(v, v + e->a.size()); if (!g_calls[e->aux].fn) return 0; uint64_t r = g_calls[e->aux].fn(av); if (w == 64 && bd(r) != bd(r)) r = DNAN; return r & M; }
    default: return 0;
  }
}
static E cfold(EK k, unsigned w, uint32_t aux, const std::vector<E>& a) {
  for (auto x : a) if (x->k != K_CONST) return nullptr;
  Expr t; t.k = k; t.w = w; t.aux = aux; t.c = 0; t.a = a; uint64_t v[8]; std::vector<uint64_t> big;
  if (a.size() > 8) { for (auto x : a) big.push_back(x->c); return mk_const(apply_op(&t, big.data()), w); }
  for (size_t i = 0; i < a.size(); i++) v[i] = a[i]->c;
  return mk_const(apply_op(&t, v), w);
}
E mk_rebuild(EK k, unsigned w, uint32_t aux, std::vector<E> a);
static E mk(EK k, unsigned w, uint32_t aux, std::vector<E> a) { if (E f = cfold(k, w, aux, a)) return f; return intern(k, w, 0, aux, std::move(a)); }

E mk_not(E a) {
  if (is_c(a)) return mk_const(!a->c, 1);
  if (a->k == K_XOR && is_c(a->a[1]) && a->a[1]->c == 1) return a->a[0];
  return intern(K_XOR, 1, 0, 0, {a, mk_const(1, 1)});
}
E mk_ite(E c, E t, E f) {
  if (is_c(c)) return c->c ? t : f;
  if (t == f) return t;
  if (c->k == K_XOR && c->w == 1 && is_c(c->a[1])) return mk_ite(c->a[0], f, t);
  if (t->w == 1 && is_c(t) && is_c(f)) return t->c ? c : mk_not(c);
  if (t->w == 1) {
    if (is_c(t)) return t->c ? mk_bin(K_OR, c, f) : mk_bin(K_AND, mk_not(c), f);
    if (is_c(f)) return f->c ? mk_bin(K_OR, mk_not(c), t) : mk_bin(K_AND, c, t);
  }
  if (t->k == K_ITE && t->a[0] == c) t = t->a[1];
  if (f->k == K_ITE && f->a[0] == c) f = f->a[2];
  if (t == f) return t;
  return intern(K_ITE, t->w, 0, 0, {c, t, f});
}
// number of constant leaves in an ite tree (0 if some leaf is not constant), bounded
static int iteleaves(E e, int budget = 64) { if (is_c(e)) return 1; if (e->k != K_ITE) return 0; if (budget <= 0) return 0; int a = iteleaves(e->a[1], budget / 2); if (!a) return 0; int b = iteleaves(e->a[2], budget - 1); return b ? a + b : 0; }
static E ite_map(E e, const std::function<E(E)>& f) { std::unordered_map<uint32_t, E> memo; std::function<E(E)> go = [&](E x) -> E { if (x->k != K_ITE) return f(x); auto it = memo.find(x->id); if (it != memo.end()) return it->second; E t = go(x->a[1]); E q = go(x->a[2]); E r = mk_ite(x->a[0], t, q); memo[x->id] = r; return r; }; return go(e); }

E mk_bin(EK k, E a, E b) {
  unsigned w = a->w;
  unsigned rw = (k >= K_EQ && k <= K_SLE) ? 1 : w;
  if (is_c(a) && is_c(b)) { Expr t; t.k = k; t.w = rw; t.aux = 0; t.a = {a, b}; uint64_t v[2] = {a->c, b->c}; return mk_const(apply_op(&t, v), rw); }
  uint64_t M = maskw(w);
  // push through ite trees with constant leaves
  if (is_c(b) && a->k == K_ITE && iteleaves(a)) return ite_map(a, [&](E x) { return mk_bin(k, x, b); });
  if (is_c(a) && b->k == K_ITE && iteleaves(b)) return ite_map(b, [&](E x) { return mk_bin(k, a, x); });
  switch (k) {
    case K_ADD: if (is_c(a)) std::swap(a, b); if (is_c(b)) { if (!b->c) return a; if (a->k == K_ADD && is_c(a->a[1])) return mk_bin(K_ADD, a->a[0], mk_const(a->a[1]->c + b->c, w)); } else if (a->id > b->id) std::swap(a, b); break;
    case K_SUB: if (a == b) return mk_const(0, w); if (is_c(b)) return mk_bin(K_ADD, a, mk_const(0 - b->c, w));
      if (a->k == K_ADD && a->a[0] == b) return a->a[1]; if (a->k == K_ADD && a->a[1] == b) return a->a[0];
      if (a->k == K_ADD && is_c(a->a[1]) && b->k == K_ADD && is_c(b->a[1])) return mk_bin(K_ADD, mk_bin(K_SUB, a->a[0], b->a[0]), mk_const(a->a[1]->c - b->a[1]->c, w));
      if (a->k == K_ADD && is_c(a->a[1])) return mk_bin(K_ADD, mk_bin(K_SUB, a->a[0], b), a->a[1]);
      break;
    case K_MUL: if (is_c(a)) std::swap(a, b); if (is_c(b)) { if (b->c == 0) return b; if (b->c == 1) return a; } else if (a->id > b->id) std::swap(a, b); break;
    case K_AND: if (is_c(a)) std::swap(a, b); if (a == b) return a; if (is_c(b)) { if (b->c == 0) return b; if (b->c == M) return a; if (a->k == K_AND && is_c(a->a[1])) return mk_bin(K_AND, a->a[0], mk_const(a->a[1]->c & b->c, w));
        if (a->k == K_ZEXT && (b->c & maskw(a->a[0]->w)) == maskw(a->a[0]->w)) return a; } else if (a->id > b->id) std::swap(a, b);
      if (w == 1 && (a == mk_not(b))) return mk_const(0, 1); break;
    case K_OR: if (is_c(a)) std::swap(a, b); if (a == b) return a; if (is_c(b)) { if (b->c == 0) return a; if (b->c == M) return b; } else if (a->id > b->id) std::swap(a, b);
      if (w == 1 && (a == mk_not(b))) return mk_const(1, 1); break;
    case K_XOR: if (is_c(a)) std::swap(a, b); if (a == b) return mk_const(0, w); if (is_c(b)) { if (b->c == 0) return a; if (w == 1) return mk_not(a); if (a->k == K_XOR && is_c(a->a[1])) return mk_bin(K_XOR, a->a[0], mk_const(a->a[1]->c ^ b->c, w)); } else if (a->id > b->id) std::swap(a, b); break;
    case K_SHL: case K_LSHR: case K_ASHR: if (is_c(b) && b->c == 0) return a; break;
    case K_UDIV: case K_SDIV: if (is_c(b) && b->c == 1) return a; break;
    case K_EQ: return mk_eq(a, b);
    case K_ULT: if (a == b) return mk_const(0, 1); if (is_c(b) && b->c == 0) return mk_const(0, 1);
      if (is_c(b) && a->k == K_ZEXT && b->c > maskw(a->a[0]->w)) return mk_const(1, 1);
      if (is_c(b) && b->c == 1) return mk_eq(a, mk_const(0, w)); break;
    case K_ULE: if (a == b) return mk_const(1, 1); if (is_c(b) && b->c == M) return mk_const(1, 1);
      if (is_c(b) && a->k == K_ZEXT && b->c >= maskw(a->a[0]->w)) return mk_const(1, 1); break;
    case K_SLT: if (a == b) return mk_const(0, 1);
      if (is_c(b) && a->k == K_ZEXT && a->w > a->a[0]->w) { int64_t s = sx(b->c, w); if (s <= 0) return mk_const(0, 1); if ((uint64_t)s > maskw(a->a[0]->w)) return mk_const(1, 1); }
      if (is_c(a) && b->k == K_ZEXT && b->w > b->a[0]->w) { int64_t s = sx(a->c, w); if (s < 0) return mk_const(1, 1); if ((uint64_t)s >= maskw(b->a[0]->w)) return mk_const(0, 1); } break;
    case K_SLE: if (a == b) return mk_const(1, 1);
      if (is_c(b) && a->k == K_ZEXT && a->w > a->a[0]->w) { int64_t s = sx(b->c, w); if (s < 0) return mk_const(0, 1); if ((uint64_t)s >= maskw(a->a[0]->w)) return mk_const(1, 1); }
      if (is_c(a) && b->k == K_ZEXT && b->w > b->a[0]->w) { int64_t s = sx(a->c, w); if (s <= 0) return mk_const(1, 1); } break;
    default: break;
  }
  return intern(k, rw, 0, 0, {a, b});
}
E mk_eq(E a, E b) {
  if (a == b) return mk_const(1, 1);
  if (is_c(a)) std::swap(a, b);
  if (is_c(a) && is_c(b)) return mk_const(a->c == b->c, 1);
  if (is_c(b)) {
    if (a->w == 1) return b->c ? a : mk_not(a);
    if (a->k == K_ZEXT) { if (b->c > maskw(a->a[0]->w)) return mk_const(0, 1); return mk_eq(a->a[0], mk_const(b->c, a->a[0]->w)); }
    if (a->k == K_SEXT) { unsigned iw = a->a[0]->w; uint64_t lo = b->c & maskw(iw); if (((uint64_t)sx(lo, iw) & maskw(a->w)) != b->c) return mk_const(0, 1); return mk_eq(a->a[0], mk_const(lo, iw)); }
    if (a->k == K_ADD && is_c(a->a[1])) return mk_eq(a->a[0], mk_const(b->c - a->a[1]->c, a->w));
    if (a->k == K_XOR && is_c(a->a[1])) return mk_eq(a->a[0], mk_const(b->c ^ a->a[1]->c, a->w));
    if (a->k == K_ITE && iteleaves(a)) return ite_map(a, [&](E x) { return mk_eq(x, b); });
    if (a->k == K_ITE && (is_c(a->a[1]) || is_c(a->a[2]))) return mk_ite(a->a[0], mk_eq(a->a[1], b), mk_eq(a->a[2], b));
    if (a->k == K_OR && is_c(a->a[1]) && (a->a[1]->c & ~b->c)) return mk_const(0, 1);
    if (a->k == K_AND && is_c(a->a[1]) && (b->c & ~a->a[1]->c)) return mk_const(0, 1);
    if (a->k == K_CONCAT) { unsigned lw = a->a[1]->w; return mk_bin(K_AND, mk_eq(a->a[0], mk_const(b->c >> lw, a->a[0]->w)), mk_eq(a->a[1], mk_const(b->c, lw))); }
  } else {
    if (a->id > b->id) std::swap(a, b);
    if (a->w == 1 && a == mk_not(b)) return mk_const(0, 1);
    if ((a->k == K_ZEXT && b->k == K_ZEXT || a->k == K_SEXT && b->k == K_SEXT) && a->a[0]->w == b->a[0]->w) return mk_eq(a->a[0], b->a[0]);
    if (a->k == K_ADD && b->k == K_ADD && a->a[0] == b->a[0]) return mk_eq(a->a[1], b->a[1]);
  }
  return intern(K_EQ, 1, 0, 0, {a, b});
}
E mk_concat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (is_c(hi) && is_c(lo)) return mk_const((hi->c << lo->w) | lo->c, w);
  if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a[0] == lo->a[0] && hi->aux == lo->aux + lo->w) return mk_extract(lo->a[0], lo->aux, w);
  if (is_c(hi) && hi->c == 0) return mk_zext(lo, w);
  return intern(K_CONCAT, w, 0, 0, {hi, lo});
}
E mk_extract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (is_c(a)) return mk_const(a->c >> lo, w);
  switch (a->k) {
    case K_EXTRACT: return mk_extract(a->a[0], a->aux + lo, w);
    case K_CONCAT: { unsigned lw = a->a[1]->w; if (lo + w <= lw) return mk_extract(a->a[1], lo, w); if (lo >= lw) return mk_extract(a->a[0], lo - lw, w); break; }
    case K_ZEXT: { unsigned iw = a->a[0]->w; if (lo + w <= iw) return mk_extract(a->a[0], lo, w); if (lo >= iw) return mk_const(0, w); if (lo == 0) return mk_zext(a->a[0], w); break; }
    case K_SEXT: { unsigned iw = a->a[0]->w; if (lo + w <= iw) return mk_extract(a->a[0], lo, w); if (lo == 0) return mk_sext(a->a[0], w); break; }
    case K_ITE: if (iteleaves(a) || w == 1 || is_c(a->a[1]) || is_c(a->a[2])) return mk_ite(a->a[0], mk_extract(a->a[1], lo, w), mk_extract(a->a[2], lo, w)); break;
    case K_AND: case K_OR: case K_XOR: return mk_bin(a->k, mk_extract(a->a[0], lo, w), mk_extract(a->a[1], lo, w));
    case K_ADD: case K_MUL: case K_SUB: if (lo == 0) return mk_bin(a->k, mk_extract(a->a[0], 0, w), mk_extract(a->a[1], 0, w)); break;
    default: break;
  }
  return intern(K_EXTRACT, w, 0, lo, {a});
}
E mk_zext(E a, unsigned w) {
  if (w == a->w) return a; if (is_c(a)) return mk_const(a->c, w);
  if (a->k == K_ZEXT) return mk_zext(a->a[0], w);
  if (a->k == K_ITE && iteleaves(a)) return ite_map(a, [&](E x) { return mk_zext(x, w); });
  return intern(K_ZEXT, w, 0, 0, {a});
}
E mk_sext(E a, unsigned w) {
  if (w == a->w) return a; if (is_c(a)) return mk_const((uint64_t)sx(a->c, a->w), w);
  if (a->k == K_SEXT) return mk_sext(a->a[0], w);
  if (a->k == K_ZEXT) return mk_zext(a->a[0], w);
  if (a->k == K_ITE && iteleaves(a)) return ite_map(a, [&](E x) { return mk_sext(x, w); });
  return intern(K_SEXT, w, 0, 0, {a});
}
// ---- floating point
static uint64_t fsign(unsigned w) { return w == 64 ? DSIGN : 0x80000000ULL; }
static uint64_t fnan(unsigned w) { return w == 64 ? DNAN : 0x7fc00000ULL; }
E mk_fneg(E a) { if (is_c(a)) return mk_const(a->c ^ fsign(a->w), a->w); return mk_bin(K_XOR, a, mk_const(fsign(a->w), a->w)); }
E mk_fabs(E a) { unsigned w = a->w; if (a->k == K_XOR && is_c(a->a[1]) && a->a[1]->c == fsign(w)) a = a->a[0]; return mk_bin(K_AND, a, mk_const(fsign(w) - 1, w)); }
static bool isneg(E a) { return a->k == K_XOR && is_c(a->a[1]) && a->a[1]->c == fsign(a->w); }
static bool cfp(E a, double v) { if (!is_c(a)) return false; if (a->w == 64) return a->c == db(v); return a->c == fb((float)v); }
E mk_isnan(E a) { return mk_fcmp(K_FUNO, a, a); }
E mk_isfinite(E a) { // exponent not all ones
  if (a->w == 64) return mk_bin(K_ULT, mk_fabs(a), mk_const(DINF, 64));
  return mk_bin(K_ULT, mk_fabs(a), mk_const(0x7f800000ULL, 32));
}
// values that cannot be negative zero (round to nearest: a sum is -0 only if both operands are)
static bool neverNegZero(E a, int d = 0) { if (is_c(a)) return a->c != fsign(a->w); if (d > 200) return false; if (a->k == K_SI2F || a->k == K_UI2F) return true; if (a->k == K_FADD) return neverNegZero(a->a[0], d + 1) || neverNegZero(a->a[1], d + 1); if (a->k == K_FMUL) return a->a[0] == a->a[1]; if (a->k == K_AND && is_c(a->a[1]) && a->a[1]->c == fsign(a->w) - 1) return true; if (a->k == K_ITE) return neverNegZero(a->a[1], d + 1) && neverNegZero(a->a[2], d + 1); return false; }
static bool signedZero(E a) { return a->k == K_AND && is_c(a->a[1]) && a->a[1]->c == fsign(a->w); }
static bool fpite(E a) { return a->k == K_ITE && iteleaves(a, 16); }
bool g_realArith = false;  // exact-arithmetic entries: operands are finite, the sign of zero is irrelevant
E mk_fadd(E a, E b) {
  if (is_c(a) && is_c(b)) return mk(K_FADD, a->w, 0, {a, b});
  if (is_c(a)) std::swap(a, b);
  if (cfp(b, -0.0)) return a;
  if (signedZero(a) && signedZero(b)) { if (a == b) return a; }
  else { if (signedZero(a)) std::swap(a, b); if (signedZero(b) && neverNegZero(a)) return a; }
  if (cfp(b, 0.0)) { if (neverNegZero(a)) return a; if (g_realArith || a->k == K_SI2F || a->k == K_UI2F) return a; return mk_ite(mk_eq(a, mk_const(fsign(a->w), a->w)), mk_const(0, a->w), a); }
  if (is_c(b) && fpite(a)) return ite_map(a, [&](E x) { return mk_fadd(x, b); });
  if (isneg(a) && isneg(b)) return mk_fneg(mk_fadd(a->a[0], b->a[0]));
  if (isneg(a) && a->a[0] == b || isneg(b) && b->a[0] == a) return g_realArith ? mk_const(0, a->w) : mk_ite(mk_isfinite(a), mk_const(0, a->w), mk_const(fnan(a->w), a->w));
  if (!is_c(b) && a->id > b->id) std::swap(a, b);
  return mk(K_FADD, a->w, 0, {a, b});
}
E mk_fsub(E a, E b) { return mk_fadd(a, mk_fneg(b)); }
E mk_fmul(E a, E b) {
  if (is_c(a) && is_c(b)) return mk(K_FMUL, a->w, 0, {a, b});
  if (is_c(a)) std::swap(a, b);
  if (is_c(b)) {
    if (cfp(b, 1.0)) return a;
    if (cfp(b, -1.0)) return mk_fneg(a);
    if ((cfp(b, 0.0) || cfp(b, -0.0)) && signedZero(a)) return cfp(b, 0.0) ? a : mk_fneg(a);
    if (cfp(b, 0.0) || cfp(b, -0.0)) { if (g_realArith) return mk_const(0, a->w); E s = mk_bin(K_AND, mk_bin(K_XOR, a, b), mk_const(fsign(a->w), a->w)); return mk_ite(mk_isfinite(a), s, mk_const(fnan(a->w), a->w)); }
    if (fpite(a)) return ite_map(a, [&](E x) { return mk_fmul(x, b); });
    if (isneg(a)) return mk_fmul(a->a[0], mk_fneg(b));
    if (b->c & fsign(b->w)) return mk_fneg(mk_fmul(a, mk_fneg(b)));
  }
  if (signedZero(a) && a == b) return mk_const(0, a->w);
  if (isneg(a) && isneg(b)) return mk_fmul(a->a[0], b->a[0]);
  if (isneg(a)) return mk_fneg(mk_fmul(a->a[0], b));
  if (isneg(b)) return mk_fneg(mk_fmul(a, b->a[0]));
  if (!is_c(b) && a->id > b->id) std::swap(a, b);
  return mk(K_FMUL, a->w, 0, {a, b});
}
E mk_fdiv(E a, E b) {
  if (is_c(a) && is_c(b)) return mk(K_FDIV, a->w, 0, {a, b});
  if (cfp(b, 1.0)) return a;
  if (cfp(b, -1.0)) return mk_fneg(a);
  if (is_c(b) && fpite(a)) return ite_map(a, [&](E x) { return mk_fdiv(x, b); });
  if (is_c(a) && fpite(b)) return ite_map(b, [&](E x) { return mk_fdiv(a, x); });
  if (isneg(a) && isneg(b)) return mk_fdiv(a->a[0], b->a[0]);
  if (isneg(a)) return mk_fneg(mk_fdiv(a->a[0], b));
  if (isneg(b)) return mk_fneg(mk_fdiv(a, b->a[0]));
  return mk(K_FDIV, a->w, 0, {a, b});
}
static int fclassc(E e) { // is e an int conversion (never NaN)?
  return e->k == K_SI2F || e->k == K_UI2F; }
E mk_fcmp(EK k, E a, E b) {
  if (is_c(a) && is_c(b)) return mk(k, 1, 0, {a, b});
  unsigned w = a->w;
  if (k == K_FUNO) {
    auto canNaN = [&](E e) { if (is_c(e)) { uint64_t v[2] = {e->c, e->c}; Expr t; t.k = K_FUNO; t.w = 1; t.aux = 0; t.a = {e, e}; return apply_op(&t, v) != 0; } return !fclassc(e); };
    if (!canNaN(a) && !canNaN(b)) return mk_const(0, 1);
    if (is_c(a) && canNaN(a) || is_c(b) && canNaN(b)) return mk_const(1, 1);
    if (is_c(a)) a = b; if (is_c(b)) b = a;
    if (isneg(a)) a = a->a[0]; if (isneg(b)) b = b->a[0];
    if (a->k == K_AND && is_c(a->a[1]) && a->a[1]->c == fsign(w) - 1) a = a->a[0];
    if (b->k == K_AND && is_c(b->a[1]) && b->a[1]->c == fsign(w) - 1) b = b->a[0];
    if (a->k == K_ITE && a == b && (is_c(a->a[1]) || is_c(a->a[2]))) return mk_ite(a->a[0], mk_isnan(a->a[1]), mk_isnan(a->a[2]));
    if (a != b) { if (a->id > b->id) std::swap(a, b); return mk_bin(K_OR, mk_fcmp(K_FUNO, a, a), mk_fcmp(K_FUNO, b, b)); }
    return intern(K_FUNO, 1, 0, 0, {a, a});
  }
  // comparisons with zero: the sign of zero and factors of magnitude >= 1 do not matter
  auto strip = [&](E x) { for (int i = 0; i < 8; i++) {
      if (x->k == K_ITE && x->a[0]->k == K_EQ && is_c(x->a[1]) && (x->a[1]->c & (fsign(w) - 1)) == 0 && ((x->a[0]->a[0] == x->a[2] && is_c(x->a[0]->a[1]) && (x->a[0]->a[1]->c & (fsign(w) - 1)) == 0) || (x->a[0]->a[1] == x->a[2] && is_c(x->a[0]->a[0]) && (x->a[0]->a[0]->c & (fsign(w) - 1)) == 0))) { x = x->a[2]; continue; }
      if (w == 64 && x->k == K_FMUL && is_c(x->a[1]) && bd(x->a[1]->c) >= 1 && bd(x->a[1]->c) < 1e300) { x = x->a[0]; continue; }
      break; } return x; };
  if (is_c(b) && (b->c & (fsign(w) - 1)) == 0) { E a2 = strip(a); if (a2 != a) return mk_fcmp(k, a2, b); }
  if (is_c(a) && (a->c & (fsign(w) - 1)) == 0) { E b2 = strip(b); if (b2 != b) return mk_fcmp(k, a, b2); }
  if (is_c(b) && a->k == K_ITE && (is_c(a->a[1]) || is_c(a->a[2]))) return mk_ite(a->a[0], mk_fcmp(k, a->a[1], b), mk_fcmp(k, a->a[2], b));
  if (is_c(a) && b->k == K_ITE && (is_c(b->a[1]) || is_c(b->a[2]))) return mk_ite(b->a[0], mk_fcmp(k, a, b->a[1]), mk_fcmp(k, a, b->a[2]));
  if (k == K_FEQ && a->id > b->id) std::swap(a, b);
  if (a == b) { if (k == K_FLT) return mk_const(0, 1); return mk_not(mk_isnan(a)); }
  // integer conversions compare as integers (exact for <=32 bit sources)
  if (fclassc(a) && fclassc(b) && a->k == b->k && a->a[0]->w == b->a[0]->w && a->a[0]->w <= 32 && w == 64) {
    bool s = a->k == K_SI2F;
    return k == K_FEQ ? mk_eq(a->a[0], b->a[0]) : k == K_FLT ? mk_bin(s ? K_SLT : K_ULT, a->a[0], b->a[0]) : mk_bin(s ? K_SLE : K_ULE, a->a[0], b->a[0]); }
  if (fclassc(a) && a->k == K_SI2F && a->a[0]->w <= 32 && w == 64 && is_c(b)) {
    double v = bd(b->c); unsigned iw = a->a[0]->w; if (v != v) return mk_const(0, 1);
    double f = floor(v); int64_t hi = (1LL << (iw - 1)) - 1, lo = -(1LL << (iw - 1));
    if (k == K_FEQ) { if (f != v || f > hi || f < lo) return mk_const(0, 1); return mk_eq(a->a[0], mk_const((uint64_t)(int64_t)f, iw)); }
    // a < v  <=> a <= ceil(v)-1 ; a <= v <=> a <= floor(v)
    double lim = k == K_FLT ? ceil(v) - 1 : f; if (lim >= hi) return mk_const(1, 1); if (lim < lo) return mk_const(0, 1);
    return mk_bin(K_SLE, a->a[0], mk_const((uint64_t)(int64_t)lim, iw)); }
  if (fclassc(b) && b->k == K_SI2F && b->a[0]->w <= 32 && w == 64 && is_c(a)) {
    double v = bd(a->c); unsigned iw = b->a[0]->w; if (v != v) return mk_const(0, 1);
    int64_t hi = (1LL << (iw - 1)) - 1, lo = -(1LL << (iw - 1));
    if (k == K_FEQ) return mk_fcmp(k, b, a);
    double lim = k == K_FLT ? floor(v) + 1 : ceil(v); if (lim <= lo) return mk_const(1, 1); if (lim > hi) return mk_const(0, 1);
    return mk_bin(K_SLE, mk_const((uint64_t)(int64_t)lim, iw), b->a[0]); }
  return intern(k, 1, 0, 0, {a, b});
}
E mk_un(EK k, E a, unsigned w, unsigned aux) {
  if (is_c(a)) return mk(k, w, aux, {a});
  if (a->k == K_ITE && iteleaves(a)) return ite_map(a, [&](E x) { return mk_un(k, x, w, aux); });
  if ((k == K_F2SI) && a->k == K_SI2F && a->a[0]->w == w) return a->a[0];
  if (k == K_FROUND && (a->k == K_SI2F || a->k == K_UI2F || a->k == K_FROUND)) return a;
  if ((k == K_SI2F) && a->k == K_ZEXT) { return mk_un(K_UI2F, a->a[0], w, 0); }
  if ((k == K_SI2F) && a->k == K_SEXT) { return mk_un(K_SI2F, a->a[0], w, 0); }
  return intern(k, w, 0, aux, {a});
}
E mk_call(int id, const std::vector<E>& args, unsigned w) {
  bool allc = true; for (auto x : args) allc &= is_c(x);
  if (allc && g_calls[id].fn) return mk(K_CALL, w, id, args);
  return intern(K_CALL, w, 0, id, args);
}
uint64_t Evaluator::ev(E e) {
  if (e->k == K_CONST) return e->c;
  if (e->k == K_VAR) { auto it = m->find(e->aux); return it == m->end() ? 0 : it->second & maskw(e->w); }
  if (e->k == K_UNINIT) return 0;
  auto it = memo.find(e->id); if (it != memo.end()) return it->second;
  // iterative post-order
  std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back();
    if (memo.count(x->id)) { st.pop_back(); continue; }
    if (x->k == K_ITE) {
      auto val = [&](E y, uint64_t& out) -> bool { if (y->k == K_CONST) { out = y->c; return true; } if (y->k == K_VAR || y->k == K_UNINIT) { out = ev(y); return true; } auto i2 = memo.find(y->id); if (i2 == memo.end()) return false; out = i2->second; return true; };
      uint64_t c; if (!val(x->a[0], c)) { st.push_back(x->a[0]); continue; }
      uint64_t r; if (!val(x->a[c ? 1 : 2], r)) { st.push_back(x->a[c ? 1 : 2]); continue; }
      memo[x->id] = r; st.pop_back(); continue;
    }
    bool ready = true; std::vector<uint64_t> v(x->a.size());
    for (size_t i = 0; i < x->a.size(); i++) { E y = x->a[i]; if (y->k == K_CONST) v[i] = y->c; else if (y->k == K_VAR || y->k == K_UNINIT) v[i] = ev(y); else { auto i2 = memo.find(y->id); if (i2 == memo.end()) { st.push_back(y); ready = false; } else v[i] = i2->second; } }
    if (!ready) continue;
    memo[x->id] = apply_op(x, v.data()); st.pop_back();
  }
  return memo[e->id];
}
const std::vector<uint32_t>& vars_of(E e) {
  static std::unordered_map<uint32_t, std::vector<uint32_t>> cache; static const std::vector<uint32_t> none;
  if (e->k == K_CONST || e->k == K_UNINIT) return none;
  auto it = cache.find(e->id); if (it != cache.end()) return it->second;
  std::vector<uint32_t> r;
  if (e->k == K_VAR) r.push_back(e->aux);
  else { // iterative collection
    std::vector<E> st{e}; std::unordered_set<uint32_t> seen; std::unordered_set<uint32_t> vs;
    while (!st.empty()) { E x = st.back(); st.pop_back(); if (!seen.insert(x->id).second) continue; if (x->k == K_VAR) { vs.insert(x->aux); continue; }
      auto c2 = cache.find(x->id); if (c2 != cache.end()) { vs.insert(c2->second.begin(), c2->second.end()); continue; }
      for (auto y : x->a) st.push_back(y); }
    r.assign(vs.begin(), vs.end()); std::sort(r.begin(), r.end());
  }
  return cache[e->id] = r;
}
static const char* kname[] = {"c","v","uninit","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","concat","extract","zext","sext","ite","eq","ult","ule","slt","sle","fadd","fmul","fdiv","frem","fsqrt","fround","feq","flt","fle","funo","f2si","f2ui","si2f","ui2f","fconv","call"};
std::string estr(E e, int d) {
  char b[64]; if (e->k == K_CONST) { if (e->w == 64 && (e->c >> 52) != 0 && (e->c >> 52) != 0xfff) snprintf(b, 64, "%g|0x%llx", bd(e->c), (unsigned long long)e->c); else snprintf(b, 64, "%lld", (long long)sx(e->c, e->w)); return b; }
  if (e->k == K_VAR) return g_vars[e->aux].name; if (e->k == K_UNINIT) return "UNINIT"; if (d <= 0) return "...";
  std::string s = std::string("(") + kname[e->k]; if (e->k == K_CALL) s += ":" + g_calls[e->aux].name; if (e->k == K_EXTRACT) { snprintf(b, 64, "[%u+%u]", e->aux, e->w); s += b; }
  for (auto x : e->a) s += " " + estr(x, d - 1); return s + ")";
}
E mk_rebuild(EK k, unsigned w, uint32_t aux, std::vector<E> a) { return mk(k, w, aux, std::move(a)); }
