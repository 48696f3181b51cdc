// ---------------------------------------------------------------- interval analysis of floating-point expressions (decides comparisons without the solver)
// Round-to-nearest operations are monotone, so endpoint images computed in double are exact bounds of the rounded results.
struct Iv { double lo, hi; bool nan; };
static const Iv IV_TOP = {-INFINITY, INFINITY, true};
struct IvCtx { std::unordered_map<u32, Iv> rng, memo; };
static std::unordered_map<u32, std::pair<double, double>> g_callRange;   // ranged uninterpreted functions
static IvCtx* ivOf(); static int triState(E c, int depth = 0);
static Iv ivMul(const Iv& a, const Iv& b) { if (std::isinf(a.lo) || std::isinf(a.hi) || std::isinf(b.lo) || std::isinf(b.hi)) { bool z = (a.lo <= 0 && a.hi >= 0) || (b.lo <= 0 && b.hi >= 0); if (z) { if (a.lo >= 0 && b.lo >= 0) return {0, INFINITY, true}; return IV_TOP; } }
  double p[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi}; double lo = p[0], hi = p[0]; for (double x : p) { if (x != x) return IV_TOP; lo = std::min(lo, x); hi = std::max(hi, x); } return {lo, hi, a.nan || b.nan}; }
static bool fpTooBig(const Iv& a) { return std::isinf(a.lo) || std::isinf(a.hi); }
static unsigned bitsOf(E e, int depth = 0) {   // number of low bits that may be set
  if (is_c(e)) { unsigned n = 0; for (u64 v = e->c; v; v >>= 1) n++; return n; } if (depth > 40) return e->w;
  switch (e->k) { case K_ZEXT: return bitsOf(e->a[0], depth + 1); case K_AND: return std::min(bitsOf(e->a[0], depth + 1), bitsOf(e->a[1], depth + 1)); case K_OR: case K_XOR: return std::max(bitsOf(e->a[0], depth + 1), bitsOf(e->a[1], depth + 1)); case K_ITE: return std::max(bitsOf(e->a[1], depth + 1), bitsOf(e->a[2], depth + 1));
    case K_LSHR: if (is_c(e->a[1]) && e->a[1]->c < 64) { unsigned b = bitsOf(e->a[0], depth + 1); return b > e->a[1]->c ? b - e->a[1]->c : 0; } return bitsOf(e->a[0], depth + 1);
    case K_SHL: if (is_c(e->a[1]) && e->a[1]->c < 64) return std::min<unsigned>(e->w, bitsOf(e->a[0], depth + 1) + e->a[1]->c); return e->w; case K_ADD: return std::min<unsigned>(e->w, 1 + std::max(bitsOf(e->a[0], depth + 1), bitsOf(e->a[1], depth + 1))); default: return e->w; } }
static Iv rangeOf(E e, int depth = 0) {
  if (e->w != 64) return IV_TOP;
  if (is_c(e)) { double d = bd(e->c); if (d != d) return {0, 0, true}; return {d, d, false}; }
  IvCtx* cx = ivOf(); auto it = cx->memo.find(e->id); if (it != cx->memo.end()) return it->second;
  if (depth > 400) return IV_TOP;
  Iv r = IV_TOP; auto A = [&](int i) { return rangeOf(e->a[i], depth + 1); };
  switch (e->k) {
    case K_FADD: { Iv a = A(0), b = A(1); if (e->a[0] == e->a[1]) { r = {a.lo * 2, a.hi * 2, a.nan}; break; } bool n = a.nan || b.nan || (a.hi == INFINITY && b.lo == -INFINITY) || (a.lo == -INFINITY && b.hi == INFINITY); double lo = a.lo + b.lo, hi = a.hi + b.hi; if (lo != lo) lo = -INFINITY; if (hi != hi) hi = INFINITY; r = {lo, hi, n}; break; }
    case K_FMUL: { Iv a = A(0), b = A(1); if (e->a[0] == e->a[1]) { double p = a.lo * a.lo, q = a.hi * a.hi; r = {a.lo <= 0 && a.hi >= 0 ? 0.0 : std::min(p, q), std::max(p, q), a.nan}; } else r = ivMul(a, b); break; }
    case K_FDIV: { Iv a = A(0), b = A(1); if (b.lo > 0 || b.hi < 0) { if (fpTooBig(a) && fpTooBig(b)) break; double p[4] = {a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi}; double lo = p[0], hi = p[0]; bool bad = false; for (double x : p) { if (x != x) bad = true; lo = std::min(lo, x); hi = std::max(hi, x); } if (!bad) r = {lo, hi, a.nan || b.nan}; } else if (b.lo >= 0 && a.lo >= 0) r = {0 * 1.0, INFINITY, true}, r.lo = -0.0 < 0 ? 0 : 0; break; }
    case K_FSQRT: { Iv a = A(0); r = {a.lo > 0 ? sqrt(a.lo) : 0.0, a.hi > 0 ? sqrt(a.hi) : 0.0, a.nan || a.lo < 0}; break; }
    case K_XOR: if (is_c(e->a[1]) && e->a[1]->c == DSIGN) { Iv a = A(0); r = {-a.hi, -a.lo, a.nan}; } break;
    case K_AND: if (is_c(e->a[1]) && e->a[1]->c == DSIGN - 1) { Iv a = A(0); double p = fabs(a.lo), q = fabs(a.hi); r = {a.lo <= 0 && a.hi >= 0 ? 0.0 : std::min(p, q), std::max(p, q), a.nan}; } else if (is_c(e->a[1]) && e->a[1]->c == DSIGN) r = {0, 0, false}; break;
    case K_ITE: { int k = triState(e->a[0], depth + 1); if (k == 1) r = A(1); else if (k == 0) r = A(2); else { Iv a = A(1), b = A(2);
        // common idioms: c ? x : y with c comparing x to something
        auto refine = [&](E x, Iv v, bool side) { E c = e->a[0]; if (c->k == K_XOR && c->w == 1 && is_c(c->a[1])) { c = c->a[0]; side = !side; } if (c->k != K_FLT && c->k != K_FLE) return v; for (int q = 0; q < 2; q++) if (c->a[q] == x) { Iv o = rangeOf(c->a[1 - q], depth + 1); bool less = (q == 0) == side; if (!side && (v.nan || o.nan)) continue; if (less) v.hi = std::min(v.hi, o.hi); else v.lo = std::max(v.lo, o.lo); if (side) v.nan = false; if (v.lo > v.hi) v.lo = v.hi; } return v; };
        a = refine(e->a[1], a, true); b = refine(e->a[2], b, false); r = {std::min(a.lo, b.lo), std::max(a.hi, b.hi), a.nan || b.nan}; } break; }
    case K_SI2F: { unsigned w = e->a[0]->w; double m = ldexp(1.0, w - 1); r = {-m, m, false}; if (e->a[0]->k == K_ZEXT) { r.lo = 0; r.hi = ldexp(1.0, e->a[0]->a[0]->w); } unsigned n = bitsOf(e->a[0]); if (n < w && n <= 53) r = {0, ldexp(1.0, n) - 1, false}; break; }
    case K_UI2F: { unsigned n = bitsOf(e->a[0]); r = {0, n <= 53 ? ldexp(1.0, n) - 1 : ldexp(1.0, e->a[0]->w), false}; break; }
    case K_FROUND: { Iv a = A(0); r = {floor(a.lo), ceil(a.hi), a.nan}; if (e->aux == 0) r.hi = floor(a.hi); if (e->aux == 1) r.lo = ceil(a.lo); break; }
    case K_CALL: { const string& n = g_calls[e->aux].name; auto q = g_callRange.find(e->id); if (q != g_callRange.end()) { r = {q->second.first, q->second.second, false}; break; }
      if (n == "sin" || n == "cos") { Iv a = A(0); r = {-1, 1, a.nan || fpTooBig(a)}; } else if (n == "exp") { Iv a = A(0); r = {exp(a.lo) * (1 - 1e-14), exp(a.hi) * (1 + 1e-14), a.nan}; } else if (n == "log") { Iv a = A(0); double lo = log(std::max(a.lo, 0.0)), hi = log(std::max(a.hi, 0.0)); r = {lo - 1e-14 * fabs(lo), hi + 1e-14 * fabs(hi), a.nan || a.lo < 0}; if (lo == -INFINITY) r.lo = -INFINITY; }
      else if (n == "atan2") { Iv a = A(0), b = A(1); r = {-3.1415926535897936, 3.1415926535897936, a.nan || b.nan}; } else if (n == "pow") { Iv a = A(0), b = A(1); if (a.lo >= 0) { r = {0, INFINITY, a.nan || b.nan}; if (a.lo > 0 && !fpTooBig(a) && !fpTooBig(b)) { double p[4] = {pow(a.lo, b.lo), pow(a.lo, b.hi), pow(a.hi, b.lo), pow(a.hi, b.hi)}; r.lo = *std::min_element(p, p + 4) * (1 - 1e-14); r.hi = *std::max_element(p, p + 4) * (1 + 1e-14); if (a.lo <= 1 && a.hi >= 1) { r.lo = std::min(r.lo, 1.0); r.hi = std::max(r.hi, 1.0); } } } } else if (n == "tanh" || n == "erf") r = {-1, 1, A(0).nan}; else if (n == "cosh") { Iv a = A(0); double m = std::max(fabs(a.lo), fabs(a.hi)); r = {1, cosh(m) * (1 + 1e-14), a.nan}; }
      else if (n == "atan") r = {-1.5707963267948968, 1.5707963267948968, A(0).nan}; break; }
    default: break;
  }
  auto jt = cx->rng.find(e->id); if (jt != cx->rng.end()) { r.lo = std::max(r.lo, jt->second.lo); r.hi = std::min(r.hi, jt->second.hi); r.nan = r.nan && jt->second.nan; if (r.lo > r.hi) r = jt->second; }
  if (r.lo != r.lo || r.hi != r.hi) r = IV_TOP;
  cx->memo[e->id] = r; return r;
}
static int triState(E c, int depth) { // 1 true, 0 false, -1 unknown
  if (is_c(c)) return c->c & 1; if (c->w != 1 || depth > 400) return -1;
  { int k = [&]() { auto it = cur->known.find(c->id); return it == cur->known.end() ? -1 : (int)it->second; }(); if (k >= 0) return k; }
  switch (c->k) {
    case K_XOR: if (is_c(c->a[1])) { int k = triState(c->a[0], depth + 1); return k < 0 ? k : !k; } return -1;
    case K_AND: { int a = triState(c->a[0], depth + 1); if (a == 0) return 0; int b = triState(c->a[1], depth + 1); if (b == 0) return 0; return a == 1 && b == 1 ? 1 : -1; }
    case K_OR: { int a = triState(c->a[0], depth + 1); if (a == 1) return 1; int b = triState(c->a[1], depth + 1); if (b == 1) return 1; return a == 0 && b == 0 ? 0 : -1; }
    case K_ITE: { int k = triState(c->a[0], depth + 1); if (k >= 0) return triState(c->a[k ? 1 : 2], depth + 1); int a = triState(c->a[1], depth + 1), b = triState(c->a[2], depth + 1); return a == b ? a : -1; }
    case K_FUNO: { if (c->a[0]->w != 64) return -1; Iv a = rangeOf(c->a[0], depth + 1), b = rangeOf(c->a[1], depth + 1); return a.nan || b.nan ? -1 : 0; }
    case K_FLT: case K_FLE: case K_FEQ: { if (c->a[0]->w != 64) return -1; Iv a = rangeOf(c->a[0], depth + 1), b = rangeOf(c->a[1], depth + 1); bool n = a.nan || b.nan;
      if (c->k == K_FLT) { if (a.lo >= b.hi) return 0; if (!n && a.hi < b.lo) return 1; } else if (c->k == K_FLE) { if (a.lo > b.hi) return 0; if (!n && a.hi <= b.lo) return 1; } else { if (a.hi < b.lo || b.hi < a.lo) return 0; if (!n && a.lo == a.hi && b.lo == b.hi && a.lo == b.lo) return 1; }
      return -1; }
    case K_EQ: { if (c->a[0]->w != 64) return -1; E k = is_c(c->a[1]) ? c->a[1] : is_c(c->a[0]) ? c->a[0] : nullptr; if (!k) return -1; E x = k == c->a[1] ? c->a[0] : c->a[1]; if (x->k == K_AND && k->c == 0 && is_c(x->a[1]) && x->a[1]->c == DSIGN) { Iv v = rangeOf(x->a[0], depth + 1); if (v.nan) return -1; return v.lo > 0 ? 1 : v.hi < 0 ? 0 : -1; } if (x->k < K_FADD && x->k != K_VAR && x->k != K_ITE && x->k != K_XOR && x->k != K_AND) return -1; if (x->k == K_VAR && !g_vars[x->aux].isfp) return -1; if (x->k == K_F2SI || x->k == K_F2UI) return -1; if (x->k == K_ITE && !(x->a[1]->hasfp || x->a[2]->hasfp)) return -1; Iv a = rangeOf(x, depth + 1); double d = bd(k->c); if (d != d) return a.nan ? -1 : 0; if (d < a.lo || d > a.hi) return 0; return -1; }
    case K_ULT: if (c->a[0]->w == 64 && is_c(c->a[1]) && c->a[1]->c == DINF && c->a[0]->k == K_AND && is_c(c->a[0]->a[1]) && c->a[0]->a[1]->c == DSIGN - 1) { Iv a = rangeOf(c->a[0]->a[0], depth + 1); if (!a.nan && !fpTooBig(a)) return 1; } return -1;
    default: return -1; }
}
static void narrowTo(E x, double lo, double hi, bool nan) { if (is_c(x) || x->w != 64) return; IvCtx* cx = ivOf();
  if (x->k == K_XOR && is_c(x->a[1]) && x->a[1]->c == DSIGN) { narrowTo(x->a[0], -hi, -lo, nan); return; }
  if (x->k == K_AND && is_c(x->a[1]) && x->a[1]->c == DSIGN - 1 && hi < INFINITY) narrowTo(x->a[0], -hi, hi, nan);
  auto it = cx->rng.find(x->id); if (it == cx->rng.end()) cx->rng[x->id] = {lo, hi, nan}; else { it->second.lo = std::max(it->second.lo, lo); it->second.hi = std::min(it->second.hi, hi); it->second.nan = it->second.nan && nan; } cx->memo.clear(); }
static void narrow(E c, bool truth) {
  if (c->k == K_XOR && c->w == 1 && is_c(c->a[1])) { narrow(c->a[0], !truth); return; }
  if (c->w != 1) return;
  if (c->k == K_AND && truth) { narrow(c->a[0], true); narrow(c->a[1], true); return; }
  if (c->k == K_OR && !truth) { narrow(c->a[0], false); narrow(c->a[1], false); return; }
  if (c->k == K_FUNO && !truth && c->a[0]->w == 64) { narrowTo(c->a[0], -INFINITY, INFINITY, false); narrowTo(c->a[1], -INFINITY, INFINITY, false); return; }
  if (c->k == K_ULT && truth && c->a[0]->w == 64 && is_c(c->a[1]) && c->a[1]->c == DINF && c->a[0]->k == K_AND && is_c(c->a[0]->a[1]) && c->a[0]->a[1]->c == DSIGN - 1) { narrowTo(c->a[0]->a[0], -1.7976931348623157e308, 1.7976931348623157e308, false); return; }
  if ((c->k == K_FLT || c->k == K_FLE) && c->a[0]->w == 64) { E a = c->a[0], b = c->a[1]; bool strict = c->k == K_FLT; Iv ra = rangeOf(a), rb = rangeOf(b);
    if (truth) { double h = strict && is_c(b) ? nextafter(rb.hi, -INFINITY) : rb.hi, l = strict && is_c(a) ? nextafter(ra.lo, INFINITY) : ra.lo; narrowTo(a, -INFINITY, h, false); narrowTo(b, l, INFINITY, false); }
    else if (!ra.nan && !rb.nan) { // b < a (or <=)
      bool s2 = !strict; double h = s2 && is_c(a) ? nextafter(ra.hi, -INFINITY) : ra.hi, l = s2 && is_c(b) ? nextafter(rb.lo, INFINITY) : rb.lo; narrowTo(b, -INFINITY, h, false); narrowTo(a, l, INFINITY, false); }
    return; }
  if (c->k == K_FEQ && truth && c->a[0]->w == 64) { Iv ra = rangeOf(c->a[0]), rb = rangeOf(c->a[1]); narrowTo(c->a[0], rb.lo, rb.hi, false); narrowTo(c->a[1], ra.lo, ra.hi, false); }
}
// take the decided branch of conditional results
static E resolveIte(E e) { for (int i = 0; i < 8 && e->k == K_ITE; i++) { int k = triState(e->a[0]); if (k < 0) break; e = e->a[k ? 1 : 2]; } return e; }
