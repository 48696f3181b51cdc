#include "solver.h"
#include <chrono>
#include <unordered_set>
using namespace z3;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
Solver::Solver() {}
expr Solver::b2bv(const expr& b) { return ite(b, ctx.bv_val(1, 1), ctx.bv_val(0, 1)); }
expr Solver::bv2b(const expr& b) { return b == ctx.bv_val(1, 1); }
expr Solver::var(E e) { std::string n = (e->k == K_UNINIT ? "un" : "v") + std::to_string(e->aux) + "_" + std::to_string(e->w); return ctx.bv_const(n.c_str(), e->w); }
func_decl Solver::uf(const std::string& n, unsigned, E e) {
  std::string nm = n; for (auto x : e->a) nm += "_" + std::to_string(x->w); nm += "_" + std::to_string(e->w);
  auto it = ufs.find(nm); if (it != ufs.end()) return it->second;
  sort_vector dom(ctx); for (auto x : e->a) dom.push_back(ctx.bv_sort(x->w));
  func_decl f = ctx.function(nm.c_str(), dom, ctx.bv_sort(e->w)); ufs.emplace(nm, f); return f;
}
static const uint64_t ONE = 1ULL << 52, BIAS = 1023ULL << 52, D09 = (uint64_t)(0.088 * 4503599627370496.0), D18 = (uint64_t)(0.174 * 4503599627370496.0);
static uint64_t fnan_(unsigned w) { return w == 64 ? DNAN : 0x7fc00000ULL; }
static expr bvv(context& c, uint64_t v, unsigned w) { return c.bv_val((uint64_t)v, w); }
// ---- predicates on 64-bit patterns
struct P { context& c; P(context& cc) : c(cc) {}
  expr k(uint64_t v) { return c.bv_val((uint64_t)v, 64u); }
  expr mag(const expr& x) { return x & k(~DSIGN); }
  expr nan(const expr& x) { return ugt(mag(x), k(DINF)); }
  expr inf(const expr& x) { return mag(x) == k(DINF); }
  expr fin(const expr& x) { return ult(mag(x), k(DINF)); }
  expr zero(const expr& x) { return mag(x) == k(0); }
  expr neg(const expr& x) { return x.extract(63, 63) == c.bv_val(1, 1); }
  expr absle(const expr& a, const expr& b) { return ule(mag(a), mag(b)); }
  expr lt(const expr& a, const expr& b) { return !nan(a) && !nan(b) && !(zero(a) && zero(b)) && ite(neg(a), ite(neg(b), ult(mag(b), mag(a)), c.bool_val(true)), ite(neg(b), c.bool_val(false), ult(mag(a), mag(b)))); }
  expr le(const expr& a, const expr& b) { return !nan(a) && !nan(b) && ((zero(a) && zero(b)) || ite(neg(a), ite(neg(b), ule(mag(b), mag(a)), c.bool_val(true)), ite(neg(b), c.bool_val(false), ule(mag(a), mag(b))))); }
  expr eq(const expr& a, const expr& b) { return !nan(a) && !nan(b) && (a == b || (zero(a) && zero(b))); }
};
void Solver::lemmas(E e) {
  if (lem.count(e->id)) return;
  std::vector<expr> L; P p(ctx);
  if (e->w == 64 && (e->k == K_FADD || e->k == K_FMUL || e->k == K_FDIV || e->k == K_FSQRT)) {
    expr r = tr(e), a = tr(e->a[0]);
    if (e->k == K_FSQRT) {
      L.push_back(implies(p.nan(a), p.nan(r)));
      L.push_back(implies(p.zero(a), r == a));
      L.push_back(implies(!p.zero(a) && p.neg(a) && !p.nan(a), p.nan(r)));
      expr pos = !p.nan(a) && !p.neg(a) && !p.zero(a);
      L.push_back(implies(pos, !p.nan(r) && !p.neg(r) && !p.zero(r)));
      L.push_back(implies(pos, p.inf(a) == p.inf(r)));
      L.push_back(implies(pos && ule(a, p.k(db(1.0))), uge(r, a) && ule(r, p.k(db(1.0)))));
      L.push_back(implies(pos && uge(a, p.k(db(1.0))), ule(r, a) && uge(r, p.k(db(1.0)))));
      L.push_back(implies(p.nan(r), r == p.k(DNAN)));
      { expr half = lshr(a + p.k(BIAS), p.k(1)); L.push_back(implies(pos && p.fin(a) && uge(a, p.k(ONE)), ule(r, half + p.k(D09)) && uge(r, half - p.k(D09)))); }
    } else {
      expr b = tr(e->a[1]);
      expr nn = !p.nan(a) && !p.nan(b);
      L.push_back(implies(!nn, p.nan(r)));
      L.push_back(implies(p.nan(r), r == p.k(DNAN)));
      expr sgn = p.neg(a) != p.neg(b);
      if (e->k == K_FADD) {
        L.push_back(implies(p.inf(a) && p.inf(b) && sgn, p.nan(r)));
        L.push_back(implies(p.inf(a) && !p.nan(b) && !(p.inf(b) && sgn), r == a));
        L.push_back(implies(p.inf(b) && !p.nan(a) && !(p.inf(a) && sgn), r == b));
        L.push_back(implies(p.fin(a) && p.fin(b), !p.nan(r)));
        expr big = p.k(0x7fd0000000000000ULL); // 2^1022
        L.push_back(implies(ult(p.mag(a), big) && ult(p.mag(b), big), p.fin(r)));
        expr ff = p.fin(a) && p.fin(b);
        L.push_back(implies(ff && sgn, p.fin(r)));
        L.push_back(implies(ff && !p.neg(b), p.le(a, r))); L.push_back(implies(ff && p.neg(b), p.le(r, a)));
        L.push_back(implies(ff && !p.neg(a), p.le(b, r))); L.push_back(implies(ff && p.neg(a), p.le(r, b)));
        L.push_back(implies(p.zero(a) && !p.zero(b) && nn, r == b)); L.push_back(implies(p.zero(b) && !p.zero(a) && nn, r == a));
        L.push_back(implies(ff, p.zero(r) == (p.mag(a) == p.mag(b) && (sgn || p.zero(a)))));
        L.push_back(implies(p.zero(r) && ff, p.neg(r) == (p.neg(a) && p.neg(b))));
        // |r| <= 2*max(|a|,|b|) : exponent bound
        L.push_back(implies(ff && ule(p.mag(a), p.mag(b)) && ult(p.mag(b), big), ule(p.mag(r), p.mag(b) + p.k(0x0010000000000000ULL))));
        L.push_back(implies(ff && ule(p.mag(b), p.mag(a)) && ult(p.mag(a), big), ule(p.mag(r), p.mag(a) + p.k(0x0010000000000000ULL))));
      } else if (e->k == K_FMUL) {
        L.push_back(implies(nn && ((p.zero(a) && p.inf(b)) || (p.inf(a) && p.zero(b))), p.nan(r)));
        expr ok = nn && !((p.zero(a) && p.inf(b)) || (p.inf(a) && p.zero(b)));
        L.push_back(implies(ok, !p.nan(r) && p.neg(r) == sgn));
        L.push_back(implies(ok && (p.inf(a) || p.inf(b)), p.inf(r)));
        L.push_back(implies(ok && (p.zero(a) || p.zero(b)), p.zero(r)));
        expr ff = p.fin(a) && p.fin(b); expr one = p.k(db(1.0));
        L.push_back(implies(ff && ule(p.mag(a), one), p.absle(r, b))); L.push_back(implies(ff && uge(p.mag(a), one), p.absle(b, r)));
        L.push_back(implies(ff && ule(p.mag(b), one), p.absle(r, a))); L.push_back(implies(ff && uge(p.mag(b), one), p.absle(a, r)));
        expr hb = p.k(0x5fe0000000000000ULL); expr lb = p.k(0x2000000000000000ULL + 0x0010000000000000ULL * 0); // 2^511 ; 2^-511
        L.push_back(implies(ult(p.mag(a), hb) && ult(p.mag(b), hb), p.fin(r)));
        L.push_back(implies(ff && uge(p.mag(a), lb) && uge(p.mag(b), lb), !p.zero(r)));
        // bit patterns are piecewise-linear logarithms: L(r) in L(a)+L(b) + [-0.087, 0.173]
        expr sm = p.mag(a) + p.mag(b); expr nrm = ff && uge(p.mag(a), p.k(ONE)) && uge(p.mag(b), p.k(ONE));
        L.push_back(implies(nrm && uge(sm, p.k(BIAS + 2 * ONE)) && ult(sm, p.k(BIAS + DINF - ONE)), ule(p.mag(r), sm - p.k(BIAS) + p.k(D18)) && uge(p.mag(r), sm - p.k(BIAS) - p.k(D09))));
        L.push_back(implies(ff && ult(sm, p.k(BIAS + 2 * ONE)), ule(p.mag(r), p.k(3 * ONE))));
      } else {
        expr bad = (p.zero(a) && p.zero(b)) || (p.inf(a) && p.inf(b));
        L.push_back(implies(nn && bad, p.nan(r)));
        expr ok = nn && !bad;
        L.push_back(implies(ok, !p.nan(r) && p.neg(r) == sgn));
        L.push_back(implies(ok && (p.zero(a) || p.inf(b)), p.zero(r)));
        L.push_back(implies(ok && (p.inf(a) || p.zero(b)), p.inf(r)));
        expr ff = p.fin(a) && p.fin(b) && !p.zero(b); expr one = p.k(db(1.0));
        L.push_back(implies(ff && uge(p.mag(b), one), p.absle(r, a))); L.push_back(implies(ff && ule(p.mag(b), one), p.absle(a, r)));
        L.push_back(implies(ff && p.absle(a, b), ule(p.mag(r), one))); L.push_back(implies(ff && p.absle(b, a), uge(p.mag(r), one)));
        expr hb = p.k(0x5fe0000000000000ULL); expr lb = p.k(0x2000000000000000ULL);
        L.push_back(implies(ult(p.mag(a), hb) && uge(p.mag(b), lb) && p.fin(b), p.fin(r)));
        L.push_back(implies(uge(p.mag(a), lb) && p.fin(a) && ult(p.mag(b), hb), !p.zero(r)));
        expr nrm = ff && uge(p.mag(a), p.k(ONE)) && uge(p.mag(b), p.k(ONE)); expr sm = p.mag(a) + p.k(BIAS);
        L.push_back(implies(nrm && uge(sm, p.mag(b) + p.k(2 * ONE)) && ult(sm, p.mag(b) + p.k(DINF - ONE)), ule(p.mag(r), sm - p.mag(b) + p.k(D09)) && uge(p.mag(r), sm - p.mag(b) - p.k(D18))));
      }
    }
  } else if (e->k == K_CALL && e->w == 64) {
    const std::string& n = g_calls[e->aux].name; expr r = tr(e);
    if (e->a.size() == 1 && e->a[0]->w == 64) {
      expr a = tr(e->a[0]);
      if (n == "exp" || n == "log" || n == "sin" || n == "cos" || n == "tanh" || n == "atan" || n == "log10" || n == "cosh") { L.push_back(implies(p.nan(a), p.nan(r))); L.push_back(implies(p.nan(r), r == p.k(DNAN))); }
      if (n == "exp") { L.push_back(implies(!p.nan(a), !p.nan(r) && !p.neg(r))); L.push_back(implies(!p.nan(a) && p.le(a, p.k(0)), p.le(r, p.k(db(1.0))))); L.push_back(implies(p.le(a, p.k(db(700.0))), p.fin(r))); L.push_back(implies(p.le(p.k(0), a), p.le(p.k(db(1.0)), r))); L.push_back(implies(p.le(p.k(db(-700.0)), a), !p.zero(r))); }
      if (n == "sin" || n == "cos") L.push_back(implies(p.fin(a), ule(p.mag(r), p.k(db(1.0)))));
      if (n == "log" || n == "log10") { L.push_back(implies(p.lt(p.k(0), a), !p.nan(r))); L.push_back(implies(p.lt(p.k(0), a) && p.fin(a), p.fin(r))); L.push_back(implies(p.lt(a, p.k(0)), p.nan(r))); L.push_back(implies(p.zero(a), r == p.k(DINF | DSIGN)));
        L.push_back(implies(p.le(p.k(db(1.0)), a), p.le(p.k(0), r))); L.push_back(implies(p.lt(p.k(0), a) && p.le(a, p.k(db(1.0))), p.le(r, p.k(0)))); }
    }
    if (n == "pow" && e->a.size() == 2) { expr a = tr(e->a[0]), b = tr(e->a[1]); L.push_back(implies(p.nan(r), r == p.k(DNAN))); L.push_back(implies(p.lt(p.k(0), a) && !p.nan(b), !p.nan(r) && !p.neg(r))); }
  }
  lem.emplace(e->id, std::move(L));
}
static expr fcmp_bv(context& ctx, EK k, const expr& a, const expr& b, unsigned w) {
  if (w == 64) { P p(ctx); return k == K_FEQ ? p.eq(a, b) : k == K_FLT ? p.lt(a, b) : k == K_FLE ? p.le(a, b) : (p.nan(a) || p.nan(b)); }
  expr fa(ctx), fbb(ctx); sort fs = ctx.fpa_sort(8, 24); fa = expr(ctx, Z3_mk_fpa_to_fp_bv(ctx, a, fs)); fbb = expr(ctx, Z3_mk_fpa_to_fp_bv(ctx, b, fs));
  if (k == K_FUNO) { expr na(ctx, Z3_mk_fpa_is_nan(ctx, fa)), nb(ctx, Z3_mk_fpa_is_nan(ctx, fbb)); return na || nb; }
  Z3_ast r = k == K_FEQ ? Z3_mk_fpa_eq(ctx, fa, fbb) : k == K_FLT ? Z3_mk_fpa_lt(ctx, fa, fbb) : Z3_mk_fpa_leq(ctx, fa, fbb);
  return expr(ctx, r);
}
expr Solver::trnode(E e, std::vector<expr>& a, bool fpa) {
  unsigned w = e->w;
  switch (e->k) {
    case K_ADD: return a[0] + a[1]; case K_SUB: return a[0] - a[1]; case K_MUL: return a[0] * a[1];
    case K_UDIV: return udiv(a[0], a[1]); case K_SDIV: return a[0] / a[1]; case K_UREM: return urem(a[0], a[1]); case K_SREM: return srem(a[0], a[1]);
    case K_AND: return a[0] & a[1]; case K_OR: return a[0] | a[1]; case K_XOR: return a[0] ^ a[1];
    case K_SHL: return shl(a[0], a[1]); case K_LSHR: return lshr(a[0], a[1]); case K_ASHR: return ashr(a[0], a[1]);
    case K_CONCAT: return concat(a[0], a[1]); case K_EXTRACT: return a[0].extract(e->aux + w - 1, e->aux);
    case K_ZEXT: return zext(a[0], w - e->a[0]->w); case K_SEXT: return sext(a[0], w - e->a[0]->w);
    case K_ITE: return ite(bv2b(a[0]), a[1], a[2]);
    case K_EQ: return b2bv(a[0] == a[1]); case K_ULT: return b2bv(ult(a[0], a[1])); case K_ULE: return b2bv(ule(a[0], a[1]));
    case K_SLT: return b2bv(a[0] < a[1]); case K_SLE: return b2bv(a[0] <= a[1]);
    case K_FEQ: case K_FLT: case K_FLE: case K_FUNO: return b2bv(fcmp_bv(ctx, e->k, a[0], a[1], e->a[0]->w));
    case K_F2SI: case K_F2UI: { sort fs = e->a[0]->w == 64 ? ctx.fpa_sort(11, 53) : ctx.fpa_sort(8, 24); expr f(ctx, Z3_mk_fpa_to_fp_bv(ctx, a[0], fs)); expr rz(ctx, Z3_mk_fpa_rtz(ctx));
      expr r(ctx, e->k == K_F2SI ? Z3_mk_fpa_to_sbv(ctx, rz, f, w) : Z3_mk_fpa_to_ubv(ctx, rz, f, w));
      if (e->k == K_F2SI && e->a[0]->w == 64 && (w == 32 || w == 64)) { double hi = w == 32 ? 2147483648.0 : 9.3e18, lo = w == 32 ? -2147483649.0 : -9.3e18; P p(ctx); r = ite(p.lt(p.k(db(lo)), a[0]) && p.lt(a[0], p.k(db(hi))), r, bvv(ctx, 1ULL << (w - 1), w)); }
      return r; }
    case K_SI2F: case K_UI2F: { sort fs = w == 64 ? ctx.fpa_sort(11, 53) : ctx.fpa_sort(8, 24); expr rn(ctx, Z3_mk_fpa_rne(ctx)); expr f(ctx, e->k == K_SI2F ? Z3_mk_fpa_to_fp_signed(ctx, rn, a[0], fs) : Z3_mk_fpa_to_fp_unsigned(ctx, rn, a[0], fs)); return expr(ctx, Z3_mk_fpa_to_ieee_bv(ctx, f)); }
    case K_FCONV: { sort fi = w == 32 ? ctx.fpa_sort(11, 53) : ctx.fpa_sort(8, 24); sort fo = w == 64 ? ctx.fpa_sort(11, 53) : ctx.fpa_sort(8, 24); expr f(ctx, Z3_mk_fpa_to_fp_bv(ctx, a[0], fi)); expr rn(ctx, Z3_mk_fpa_rne(ctx)); expr g(ctx, Z3_mk_fpa_to_fp_float(ctx, rn, f, fo)); return ite(expr(ctx, Z3_mk_fpa_is_nan(ctx, g)), bvv(ctx, fnan_(w), w), expr(ctx, Z3_mk_fpa_to_ieee_bv(ctx, g))); }
    case K_FROUND: { sort fs = ctx.fpa_sort(11, 53); expr f(ctx, Z3_mk_fpa_to_fp_bv(ctx, a[0], fs)); Z3_ast rm = e->aux == 0 ? Z3_mk_fpa_rtn(ctx) : e->aux == 1 ? Z3_mk_fpa_rtp(ctx) : e->aux == 2 ? Z3_mk_fpa_rtz(ctx) : e->aux == 3 ? Z3_mk_fpa_rna(ctx) : Z3_mk_fpa_rne(ctx); expr rmx(ctx, rm); expr g(ctx, Z3_mk_fpa_round_to_integral(ctx, rmx, f)); P p(ctx); return ite(p.nan(a[0]), p.k(DNAN), expr(ctx, Z3_mk_fpa_to_ieee_bv(ctx, g))); }
    default: break;
  }
  // uninterpreted
  static const char* nm[] = {"fadd", "fmul", "fdiv", "frem", "fsqrt"};
  std::string n = e->k == K_CALL ? "call_" + g_calls[e->aux].name : nm[e->k - K_FADD];
  func_decl f = uf(n, a.size(), e); expr_vector v(ctx); for (auto& x : a) v.push_back(x); return f(v);
}
template <class F> static void postorder(E e, std::unordered_map<uint32_t, expr>& cache, F f) {
  std::vector<E> st{e};
  while (!st.empty()) { E x = st.back(); if (cache.count(x->id)) { st.pop_back(); continue; } bool rdy = true; for (auto y : x->a) if (!cache.count(y->id)) { st.push_back(y); rdy = false; } if (!rdy) continue; st.pop_back(); f(x); }
}
expr Solver::tr(E e) {
  auto it = cu.find(e->id); if (it != cu.end()) return it->second;
  postorder(e, cu, [&](E x) {
    if (x->k == K_CONST) { cu.emplace(x->id, bvv(ctx, x->c, x->w)); return; }
    if (x->k == K_VAR || x->k == K_UNINIT) { cu.emplace(x->id, var(x)); return; }
    std::vector<expr> a; for (auto y : x->a) a.push_back(cu.at(y->id));
    cu.emplace(x->id, trnode(x, a, false)); });
  return cu.at(e->id);
}
// exact mode: fp arithmetic via FPA
expr Solver::trFP(E e) {
  auto it = cf_fp.find(e->id); if (it != cf_fp.end()) return it->second;
  sort fs = e->w == 64 ? ctx.fpa_sort(11, 53) : ctx.fpa_sort(8, 24); expr rn(ctx, Z3_mk_fpa_rne(ctx)); expr r(ctx);
  switch (e->k) {
    case K_FADD: r = expr(ctx, Z3_mk_fpa_add(ctx, rn, trFP(e->a[0]), trFP(e->a[1]))); break;
    case K_FMUL: r = expr(ctx, Z3_mk_fpa_mul(ctx, rn, trFP(e->a[0]), trFP(e->a[1]))); break;
    case K_FDIV: r = expr(ctx, Z3_mk_fpa_div(ctx, rn, trFP(e->a[0]), trFP(e->a[1]))); break;
    case K_FSQRT: r = expr(ctx, Z3_mk_fpa_sqrt(ctx, rn, trFP(e->a[0]))); break;
    case K_ITE: r = ite(bv2b(trF(e->a[0])), trFP(e->a[1]), trFP(e->a[2])); break;
    default: if (e->k == K_XOR && is_c(e->a[1]) && e->a[1]->c == (e->w == 64 ? DSIGN : 0x80000000ULL)) { r = expr(ctx, Z3_mk_fpa_neg(ctx, trFP(e->a[0]))); break; }
      if (e->k == K_AND && is_c(e->a[1]) && e->a[1]->c == (e->w == 64 ? DSIGN : 0x80000000ULL) - 1) { r = expr(ctx, Z3_mk_fpa_abs(ctx, trFP(e->a[0]))); break; }
      r = expr(ctx, Z3_mk_fpa_to_fp_bv(ctx, trF(e), fs));
  }
  cf_fp.emplace(e->id, r); return r;
}
expr Solver::trF(E e) {
  auto it = cf_bv.find(e->id); if (it != cf_bv.end()) return it->second;
  postorder(e, cf_bv, [&](E x) {
    if (x->k == K_CONST) { cf_bv.emplace(x->id, bvv(ctx, x->c, x->w)); return; }
    if (x->k == K_VAR || x->k == K_UNINIT) { cf_bv.emplace(x->id, var(x)); return; }
    if (x->k == K_FADD || x->k == K_FMUL || x->k == K_FDIV || x->k == K_FSQRT) { expr f = trFP(x); expr isn(ctx, Z3_mk_fpa_is_nan(ctx, f)); cf_bv.emplace(x->id, ite(isn, bvv(ctx, fnan_(x->w), x->w), expr(ctx, Z3_mk_fpa_to_ieee_bv(ctx, f)))); return; }
    if (x->k == K_FEQ || x->k == K_FLT || x->k == K_FLE || x->k == K_FUNO) {
      expr a = trFP(x->a[0]), b = trFP(x->a[1]); Z3_ast r;
      if (x->k == K_FEQ) r = Z3_mk_fpa_eq(ctx, a, b); else if (x->k == K_FLT) r = Z3_mk_fpa_lt(ctx, a, b); else if (x->k == K_FLE) r = Z3_mk_fpa_leq(ctx, a, b);
      else { expr na(ctx, Z3_mk_fpa_is_nan(ctx, a)), nb(ctx, Z3_mk_fpa_is_nan(ctx, b)); cf_bv.emplace(x->id, b2bv(na || nb)); return; }
      cf_bv.emplace(x->id, b2bv(expr(ctx, r))); return; }
    std::vector<expr> a; for (auto y : x->a) a.push_back(cf_bv.at(y->id));
    cf_bv.emplace(x->id, trnode(x, a, true)); });
  return cf_bv.at(e->id);
}
static uint64_t numeral(const expr& v) { uint64_t r = 0; if (v.is_numeral_u64(r)) return r; return 0; }

Res Solver::run(const std::vector<E>& cs, Model* out, bool fpa) {
  // gather nodes
  std::vector<E> nodes, st(cs.begin(), cs.end()); std::unordered_set<uint32_t> seen; std::vector<E> vars;
  while (!st.empty()) { E x = st.back(); st.pop_back(); if (!seen.insert(x->id).second) continue; if (x->k == K_VAR) vars.push_back(x);
    if ((x->k >= K_FADD && x->k <= K_FSQRT) || x->k == K_CALL) nodes.push_back(x); for (auto y : x->a) st.push_back(y); }
  std::sort(nodes.begin(), nodes.end(), [](E a, E b) { return a->id < b->id; });
  bool heavy = false; for (E n : nodes) if (n->k != K_CALL) heavy = true;
  if (fpa && !heavy) return R_UNK;
  solver s(ctx, solver::simple());
  params pr(ctx); pr.set("timeout", fpa ? fpa_timeout : uf_timeout); s.set(pr);
  for (E c : cs) s.add(bv2b(fpa ? trF(c) : tr(c)));
  for (E n : nodes) { if (fpa && n->k != K_CALL) continue; if (!fpa) { lemmas(n); for (auto& l : lem.at(n->id)) s.add(l); } }
  for (int it = 0; it <= max_refine; it++) {
    check_result r; try { r = s.check(); } catch (z3::exception& ex) { if (verbose) fprintf(stderr, "z3: %s\n", ex.msg()); return R_UNK; }
    if (r == z3::unsat) return R_UNSAT;
    if (r == z3::unknown) return R_UNK;
    model m = s.get_model(); Model cand;
    for (E v : vars) cand[v->aux] = numeral(m.eval(var(v), true));
    Evaluator ev(&cand); bool good = true; for (E c : cs) if (!ev.ev(c)) { good = false; break; }
    if (good) { if (out) *out = cand; return R_SAT; }
    // refine: pin the real operation at the operand values of the spurious model
    bool added = false;
    for (E n : nodes) {
      if (fpa && n->k != K_CALL) continue;
      std::vector<uint64_t> av; expr cond = ctx.bool_val(true);
      for (auto y : n->a) { expr t = fpa ? trF(y) : tr(y); uint64_t v = numeral(m.eval(t, true)); av.push_back(v); cond = cond && t == bvv(ctx, v, y->w); }
      if (n->k == K_CALL && !g_calls[n->aux].fn) continue;
      uint64_t h = apply_op(n, av.data()); expr tn = fpa ? trF(n) : tr(n); uint64_t z = numeral(m.eval(tn, true));
      if (h != z) { s.add(implies(cond, tn == bvv(ctx, h, n->w))); added = true; }
      // also pin at the operand values induced by the concrete inputs
      std::vector<uint64_t> cv; expr c2 = ctx.bool_val(true); bool diff = false;
      for (size_t i = 0; i < n->a.size(); i++) { uint64_t v = ev.ev(n->a[i]); cv.push_back(v); if (v != av[i]) diff = true; c2 = c2 && (fpa ? trF(n->a[i]) : tr(n->a[i])) == bvv(ctx, v, n->a[i]->w); }
      if (diff) { uint64_t h2 = apply_op(n, cv.data()); s.add(implies(c2, tn == bvv(ctx, h2, n->w))); added = true; }
    }
    st.clear();
    this->st.refinements++;
    if (!added) return R_UNK;
  }
  return R_UNK;
}
Res Solver::check(const std::vector<E>& cs0, Model* out) {
  std::vector<E> cs; for (E c : cs0) { if (is_c(c)) { if (!c->c) return R_UNSAT; continue; } cs.push_back(c); }
  if (cs.empty()) { if (out) out->clear(); return R_SAT; }
  double t0 = now(); st.queries++; st.uf++;
  Res r = run(cs, out, false);
  if (r == R_UNK && use_fpa) { st.fpa++; r = run(cs, out, true); }
  double t = now() - t0; st.secs += t; if (t > st.maxsecs) st.maxsecs = t;
  if (verbose && t > 1) { fprintf(stderr, "[solver] %.2fs -> %s (%zu constraints) last=%s\n", t, r == R_SAT ? "sat" : r == R_UNSAT ? "unsat" : "unknown", cs.size(), estr(cs.back(), getenv("VX_EDEPTH") ? atoi(getenv("VX_EDEPTH")) : 4).substr(0, getenv("VX_EDEPTH") ? 6000 : 300).c_str()); }
  if (r == R_SAT) st.sat++; else if (r == R_UNSAT) st.unsat++; else st.unk++;
  return r;
}
Res Solver::check_linear(const std::vector<double>& coef, double tol) {
  double t0 = now(); st.queries++;
  solver s(ctx); expr_vector sum(ctx); 
  for (size_t i = 0; i < coef.size(); i++) { expr x = ctx.real_const(("m" + std::to_string(i)).c_str()); s.add(x <= 1 && x >= -1); char b[64]; snprintf(b, 64, "%.25f", coef[i]); sum.push_back(x * ctx.real_val(b)); }
  Res r = R_UNSAT;
  if (coef.size()) { expr e = z3::sum(sum); char b[64]; snprintf(b, 64, "%.25f", tol); s.add(e > ctx.real_val(b)); auto q = s.check(); r = q == z3::unsat ? R_UNSAT : q == z3::sat ? R_SAT : R_UNK; }
  double t = now() - t0; st.secs += t; if (t > st.maxsecs) st.maxsecs = t; if (r == R_SAT) st.sat++; else if (r == R_UNSAT) st.unsat++; else st.unk++;
  return r;
}
